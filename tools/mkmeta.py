#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import importlib.util
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, note, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, note=note, level=level))


prop("C01", "Items encode to HID's shortest form and decode back to themselves",
     "Every item of HID 1.11 (27 of them) holding any value it can represent encodes to the one prefix byte HID prescribes "
     "followed by the shortest little-endian payload of 1, 2 or 4 bytes that holds the value (two's complement for the signed items; "
     "end of collection has no payload), whether the value was given as an integer, a named constant or a usage, and decoding any "
     "legal encoding gives back the same item and value. A value an item cannot represent (negative in an unsigned item, or beyond 32 bits) is refused. "
     "Two items are equal exactly when they are the same item with the same value.",
     ["inputs"], "every item, every integer value, every payload length and content",
     "tests encode a few dozen values of a few items; the value space is 2**32 per item and boundaries depend on sign and item",
     ["hrdc/stream/item.py", "hrdc/util/named_constant.py"],
     [("encoding", "hrdc/stream/item.py:Item.bytes"), ("decoding", "hrdc/stream/item.py:Item.parse"),
      ("equality", "hrdc/stream/item.py:Item.__eq__"), ("constructors", "hrdc/stream/item.py")],
     "for each of the 27 item classes: constructor, encode, decode and equality under contract, all values")

prop("C02", "Binary descriptors are read completely, in order, or rejected",
     "Reading a binary descriptor hands the items it is made of to the consumer, each exactly once, in order, with the right item and value, "
     "then closes the consumer exactly once. Reading raises an error, and closes nothing, when the descriptor ends inside an item or contains an unknown item. "
     "Converting a descriptor without optimization reproduces the same items with the same values.",
     ["inputs"], "every byte string of any length",
     "no test parses binary input at all; byte strings are unbounded",
     ["hrdc/stream/parser/base.py", "hrdc/stream/parser/binary.py", "hrdc/stream/item.py", "hrdc/stream/formatter/binary.py"],
     [("item splitting", "hrdc/stream/parser/base.py:Parser.blobParse"), ("item decoding", "hrdc/stream/item.py:Item.parse"),
      ("usage naming", "hrdc/stream/parser/base.py:Parser.append")],
     "loop invariant of the splitting loop over an unbounded byte string; per-item contract for every first byte")

prop("C03", "Text formats carry exactly the bytes of the binary form",
     "Writing any item stream as hexadecimal text or as C code and reading that text back gives the same items and values as the binary form, "
     "and the C code of an item consists of its bytes as 0x.. literals followed by a comment. Comments (line and block, whatever they contain) and whitespace "
     "never contribute or hide a byte when C code is read; separators (white space, punctuation), line breaks and 0x prefixes never change what hexadecimal text means.",
     ["inputs"], "every item with every value, every layout of comments and white space",
     "tests only read C code from two fixtures and never read hexadecimal text",
     ["hrdc/stream/formatter/hex.py", "hrdc/stream/formatter/code.py", "hrdc/stream/parser/hex.py", "hrdc/stream/parser/code.py"],
     [("hexadecimal", "hrdc/stream/formatter/hex.py, hrdc/stream/parser/hex.py"), ("C code", "hrdc/stream/formatter/code.py, hrdc/stream/parser/code.py")],
     "formatter contract per item for all values; reader contract over the byte values of a line; lexical rules decided for every text")

prop("C04", "Optimization never changes what a descriptor means",
     "For every item stream, the optimized stream declares the same collections, in the same order and nesting with the same usages, and the same sequence of report controls: "
     "same direction, report, flags, size, logical range, physical range, unit, exponent, usage, designator and string, control by control. "
     "This holds for the whole optimizer and for each of its passes alone, and the stream is complete once closed and closed exactly once.",
     ["inputs", "histories"], "every sequence of items of any length, including push/pop, delimiters, ranges and extended usages",
     "the tests compare the output of three small descriptors with expected bytes; streams are unbounded histories",
     ["hrdc/stream/optimizer"],
     [("usage pages", "hrdc/stream/optimizer/usage_page.py"), ("ranges", "hrdc/stream/optimizer/range_merge.py"),
      ("globals", "hrdc/stream/optimizer/global_merge.py"), ("physical bounds", "hrdc/stream/optimizer/physical_merge.py"),
      ("data items", "hrdc/stream/optimizer/main_merge.py"), ("designators", "hrdc/stream/optimizer/designator_uniq.py")],
     "abstraction function and per-item simulation contract for each pass, arbitrary pass state")

prop("C05", "Compiling a description emits exactly the controls it describes",
     "Compiling a description emits, for every value in it, one data item (and its enclosing collection for a named array that has a usage) that declares the direction, report id, flags, size, count, "
     "logical and physical range, unit, exponent, designator, string and usages described, whatever came before or after it. "
     "Collections open and close around their members with their kind and usage, reports give their id to all the values they contain and to nothing else, and constant values carry no usage.",
     ["inputs", "programs"], "every description tree of any depth and width, every attribute value",
     "tests compile three fixed descriptions",
     ["hrdc/descriptor/streamer.py", "hrdc/descriptor/descriptor.py", "hrdc/stream/item.py"],
     [("emission", "hrdc/descriptor/streamer.py:Streamer"), ("traversal", "hrdc/descriptor/descriptor.py:Hierarchical.accept")],
     "contracts on enter/leave/element with symbolic attributes and arbitrary streamer state; traversal contract over an unbounded member list")

prop("C06", "Fields sit where alignment and padding say, per report",
     "In a compiled description every value starts at a multiple of its alignment (by default its size, at most 8 bits), counted in bits from the start of the report of its own direction and report id; "
     "padding of exactly the missing number of bits, and no more, is inserted before it as constant data, and explicit padding and alignment requests insert exactly the bits they ask for. "
     "The position accounts for size times count of everything already emitted in that report and direction, and never mixes reports or directions.",
     ["inputs", "histories"], "every sequence of values, reports, paddings and alignments",
     "tests check three layouts; positions depend on the whole history of a report",
     ["hrdc/descriptor/streamer.py", "hrdc/descriptor/descriptor.py"],
     [("bit accounting", "hrdc/descriptor/streamer.py:Streamer.element"), ("default alignment", "hrdc/descriptor/descriptor.py:Value.__init__")],
     "ghost bit position per (direction, report), invariant: the streamer's accounting equals the bits emitted")

prop("C07", "Decompiling and compiling again keeps the meaning of a descriptor",
     "For every well-formed descriptor (data items inside collections, report ids all zero or all non-zero), decompiling it and compiling the result declares the same collections with their kinds and usages "
     "and the same sequence of controls with the same direction, report, flags, size, logical range, physical range, unit, exponent, usage, designator, string and position; constant items may come back as different amounts of items but the same number of padding bits. "
     "(A collection has one usage at most; the physical range and unit of a named array carry no meaning.) "
     "A named array in a collection of its own comes back as a named array with the same entries. Item ranges, push/pop and usages relying on the usage page are all taken into account.",
     ["inputs", "histories"], "every well-formed descriptor",
     "one test decompiles a single descriptor",
     ["hrdc/descriptor/extractor.py", "hrdc/descriptor/streamer.py"],
     [("state", "hrdc/descriptor/extractor.py:Extractor._append"), ("data items", "hrdc/descriptor/extractor.py:Extractor.handleDataItem")],
     "per-item contracts of the extractor against the HID state machine, arbitrary extractor state")

prop("C08", "Decompiled values are filed under the report they belong to",
     "When a descriptor is decompiled, every value ends up, in the original order, below a report carrying exactly the report id in force where the value was declared, and every collection is kept, once, in place; "
     "no report contains a value of another report, and a collection is wrapped in a report only if everything in it belongs to that one report.",
     ["inputs", "programs"], "every tree of collections and values with any report ids",
     "one test decompiles a single descriptor without multiple report ids",
     ["hrdc/descriptor/extractor.py"],
     [("grouping", "hrdc/descriptor/extractor.py:Extractor.reportInsert"), ("id sets", "hrdc/descriptor/extractor.py:Extractor.reportIdMerge")],
     "contracts on addValue, reportIdMerge and reportInsert over unbounded member lists")

prop("C09", "Decompiled source text rebuilds the same description",
     "Running the Python source written for a decompiled description gives a description with the same structure and, for every collection, report and value, the same kind, usage, report id, direction, size, flags, bounds, named array, unit, exponent, designator, string, count and alignment; "
     "so compiling it declares the same. Run as a program, the text is the compiler for that description; imported, it does nothing else.",
     ["inputs", "programs"], "every description a decompilation can produce",
     "no test executes dumped source",
     ["hrdc/descriptor/dumper.py", "hrdc/descriptor/descriptor.py", "hrdc/usage/usage.py"],
     [("source text", "hrdc/descriptor/dumper.py:Dumper"), ("names", "hrdc/usage, hrdc/stream/item.py")],
     "text produced for an arbitrary element parsed by Python's own parser and evaluated on symbolic operands; names checked exhaustively over the tables")

prop("C10", "Usages keep their value, page and published name",
     "Every usage constant the package publishes has the page and number the HID usage tables give it, its printed name evaluates to itself, and no two constants of the usage tables share a value. Looking a usage up by any value gives a usage of exactly that value; "
     "splitting it gives its page and its number in the page; combining a page and a number gives that usage; a usage range holds exactly the consecutive usages from first to last; only consecutive usages form a range.",
     ["inputs"], "every 32-bit usage, every range, every published constant",
     "tests use a handful of usages",
     ["hrdc/usage"],
     [("lookup", "hrdc/usage/usage.py:Usage.lookup"), ("split", "hrdc/usage/usage.py:Usage.split"), ("ranges", "hrdc/usage/usage.py:UsageRange"), ("tables", "hrdc/usage/*.py")],
     "contracts on lookup/split/inpage/page/UsageRange for all values; table contract checked over every entry against a recorded table")

prop("C11", "Named constants compute exactly as the numbers they stand for",
     "Adding, multiplying, shifting, masking, combining, inverting, comparing and hashing named constants, with each other or with integers, gives what the same operation gives on the integers they stand for; their printed form is their name. "
     "Every published flag, collection kind, direction and unit stands for the number HID gives it.",
     ["inputs"], "every pair of values, every operator, every published constant",
     "tests only combine a few flags",
     ["hrdc/util/named_constant.py", "hrdc/stream/item.py", "hrdc/descriptor/descriptor.py"],
     [("operators", "hrdc/util/named_constant.py:NamedConstant"), ("constants", "hrdc/stream/item.py")],
     "contract per operator for all operand values; published constants against HID's table")

prop("C12", "Units encode each exponent in its own nibble",
     "Each unit dimension (length, mass, time, temperature, current, luminous intensity) encodes an exponent from -8 to 7 as a two's complement nibble at the position HID gives the dimension and refuses any other exponent; combining dimensions and a system keeps every nibble. "
     "Every published unit is the combination of dimensions it is named after, and a unit item holding any value keeps it, printing a name only if that name stands for that value.",
     ["inputs"], "every exponent, every combination, every 32-bit unit value",
     "no test uses units other than a few fixed ones",
     ["hrdc/stream/item.py"],
     [("nibbles", "hrdc/stream/item.py:_unit_nibble"), ("unit item", "hrdc/stream/item.py:Unit")],
     "contracts on the six dimension functions and the unit item constructor, all integers")

prop("C13", "A value's bounds follow from what was given",
     "Constructing a value keeps direction, usage, size, count, flags, unit, exponent, designator and string as given; its alignment is the one given, or else its size up to 8. "
     "Its logical range is the one given, or, for a named array, starts at the given minimum and has one number per entry; any other value has the physical range given (a missing bound being 0), or the logical range when neither bound is given or both are zero; a named array without a usage is an array and never a variable. "
     "A value with neither a logical maximum nor a named array is refused, unless it is constant.",
     ["inputs"], "every combination of given and omitted arguments and every argument value",
     "tests construct a few values",
     ["hrdc/descriptor/descriptor.py"],
     [("constructor", "hrdc/descriptor/descriptor.py:Value.__init__"), ("alignment and padding", "hrdc/descriptor/descriptor.py:Align, Padding")],
     "contract on the constructor, every presence pattern, all values")

prop("C14", "Command-line tools do what their options say",
     "The converter reads the format asked for, writes the format asked for and optimizes exactly when asked to; the compiler writes the format asked for and optimizes unless asked not to; "
     "the decompiler reads the format asked for and writes source text. Whatever the formats, the output ends complete and contains nothing but the converted descriptor; a format that does not exist is refused with nothing written.",
     ["inputs", "configurations"], "every combination of formats and options, every descriptor",
     "no test runs the command-line entry points",
     ["hrdc/converter.py", "hrdc/descriptor/compiler.py", "hrdc/descriptor/extractor.py", "hrdc/stream/parser/base.py", "hrdc/stream/formatter/base.py"],
     [("converter", "hrdc/converter.py:_main"), ("compiler", "hrdc/descriptor/compiler.py:compile_main"), ("decompiler", "hrdc/descriptor/extractor.py:main")],
     "entry points under contract for every option combination with arbitrary files; end-to-end runs bounded")

prop("C15", "Comparison with expected bytes is exact",
     "The comparison helper offered to tests passes exactly when the compiled, optimized descriptor is the expected bytes, all of them and nothing after them: any differing byte, missing item or extra item fails the comparison. "
     "Expected bytes are read from hexadecimal text with commas, blanks and both kinds of comments, comment text never counting as bytes.",
     ["inputs"], "every descriptor, every expected text",
     "the tests use the helper only where it passes, so a helper that lets differences through goes unnoticed",
     ["hrdc/stream/comparer.py", "hrdc/descriptor/test.py"],
     [("comparison", "hrdc/stream/comparer.py:ExpectedStream"), ("helper", "hrdc/descriptor/test.py:descriptor_expected")],
     "contracts on the reading of the expected text, on each comparison step and on the end; the whole helper over the parts' contracts")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks, na = [], []
    for p in P:
        f = os.path.join(HERE, "vf", "props", p["id"].lower() + ".py")
        if os.path.exists(f) and "\nUNITS = []" not in open(f).read():
            checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py %s" % p["id"],
                           "thorough_cmd": "python3-vt check.py %s --thorough" % p["id"],
                           "technique": "contract-based deductive verification: verification conditions generated from the AST of /repo's functions on every run, discharged by z3/cvc5; failed obligations replayed on the real code",
                           "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "python3-vt check.py selftest", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
