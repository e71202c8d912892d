From e04695514bd1b02824af692f99b51c29847cd70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:19 +0000
Subject: [PATCH 01/28] fix: account for value count when tracking report size
 for alignment

---
 hrdc/descriptor/streamer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index e9d70e3..5bf7511 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -89,7 +89,7 @@ class Streamer(descriptor.Visitor):
 
             a(item.ReportCount(e.count))
             a(item.ReportSize(e.size))
-            self.report_size[int(e.way)][self.report_id] += int(e.size)
+            self.report_size[int(e.way)][self.report_id] += int(e.size) * int(e.count)
             a(item.Item.itemclass(item.Item.Main, e.way)(e.flags))
 
             if e.namedArray and not constant and e.usage:
-- 
2.43.0


From 53ac9e144a94bb49e250838fbf13bd050f2806e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:19 +0000
Subject: [PATCH 02/28] fix: compile collections that have no usage

---
 hrdc/descriptor/streamer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 5bf7511..57f7da4 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -22,7 +22,8 @@ class Streamer(descriptor.Visitor):
                 a(item.ReportID(e.id))
 
         elif isinstance(e, descriptor.Collection):
-            a(item.Usage(e.usage))
+            if e.usage is not None:
+                a(item.Usage(e.usage))
             a(item.Collection(e.kind))
 
     def leave(self, e):
-- 
2.43.0


From ddbb57571ac178bd2beb7aaabaadb5055dec51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:20 +0000
Subject: [PATCH 03/28] fix: usage names match the attributes that define them

---
 hrdc/usage/desktop.py    | 6 +++---
 hrdc/usage/lighting.py   | 2 +-
 hrdc/usage/simulation.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 8798e7b..698e598 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -7,7 +7,7 @@ Gamepad = Usage("desktop.Gamepad", 0x10005, CA)
 Keyboard = Usage("desktop.Keyboard", 0x10006, CA)
 Keypad = Usage("desktop.Keypad", 0x10007, CA)
 MultiAxisCtrl = Usage("desktop.MultiAxisCtrl", 0x10008, CA)
-TabletPCSystem = Usage("desktop.TabletPcSystem", 0x10009, CA)
+TabletPCSystem = Usage("desktop.TabletPCSystem", 0x10009, CA)
 
 # HUTRR51
 PortableDeviceControl = Usage("desktop.PortableDeviceControl", 0x1000d, CA)
@@ -25,8 +25,8 @@ HatSwitch = Usage("desktop.HatSwitch", 0x10039, DV)
 CountedBuffer = Usage("desktop.CountedBuffer", 0x1003A, CL)
 ByteCount = Usage("desktop.ByteCount", 0x1003B, DV)
 MotionWakeup = Usage("desktop.MotionWakeup", 0x1003C, OSC)
-Start = Usage("desktop.start", 0x1003D, OOC)
-Select = Usage("desktop.select", 0x1003E, OOC)
+Start = Usage("desktop.Start", 0x1003D, OOC)
+Select = Usage("desktop.Select", 0x1003E, OOC)
 Vx = Usage("desktop.Vx", 0x10040, DV)
 Vy = Usage("desktop.Vy", 0x10041, DV)
 Vz = Usage("desktop.Vz", 0x10042, DV)
diff --git a/hrdc/usage/lighting.py b/hrdc/usage/lighting.py
index 0a0b05c..4229d8b 100644
--- a/hrdc/usage/lighting.py
+++ b/hrdc/usage/lighting.py
@@ -9,7 +9,7 @@ BoundingBoxWidthInMicrometers = Usage("lighting.BoundingBoxWidthInMicrometers",
 BoundingBoxHeightInMicrometers = Usage("lighting.BoundingBoxHeightInMicrometers", 0x590005, SV)
 BoundingBoxDepthInMicrometers = Usage("lighting.BoundingBoxDepthInMicrometers", 0x590006, SV)
 LampArrayKind = Usage("lighting.LampArrayKind", 0x590007, SV)
-MinUpdateIntervalInMicroseconds = Usage("lighting. MinUpdateIntervalInMicroseconds", 0x590008, SV)
+MinUpdateIntervalInMicroseconds = Usage("lighting.MinUpdateIntervalInMicroseconds", 0x590008, SV)
 LampAttributesRequestReport = Usage("lighting.LampAttributesRequestReport", 0x590020, CL)
 LampId = Usage("lighting.LampId", 0x590021, SV)
 LampAttributesResponseReport = Usage("lighting.LampAttributesResponseReport", 0x590022, CL)
diff --git a/hrdc/usage/simulation.py b/hrdc/usage/simulation.py
index 6595585..4146b65 100644
--- a/hrdc/usage/simulation.py
+++ b/hrdc/usage/simulation.py
@@ -20,7 +20,7 @@ FlightYoke = Usage("simulation.FlightYoke", 0x20024, CA)
 TrackControl = Usage("simulation.TrackControl", 0x20025, CP)
 Aileron = Usage("simulation.Aileron", 0x200B0, DV)
 AileronTrim = Usage("simulation.AileronTrim", 0x200B1, DV)
-AntiTorqueControl = Usage("simulation.TorqueControl", 0x200B2, DV)
+AntiTorqueControl = Usage("simulation.AntiTorqueControl", 0x200B2, DV)
 AutopilotEnable = Usage("simulation.AutopilotEnable", 0x200B3, OOC)
 ChaffRelease = Usage("simulation.ChaffRelease", 0x200B4, OSC)
 CollectiveControl = Usage("simulation.CollectiveControl", 0x200B5, DV)
-- 
2.43.0


From 8a8fe88c3574f03b7ffc7cd91f68c4a957c2c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:20 +0000
Subject: [PATCH 04/28] fix: name of the CmPerSec unit matches its attribute

---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 5a5ad36..dff0547 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -295,7 +295,7 @@ class Unit(GlobalItem):
     Fahrenheit = NamedConstant("Fahrenheit", EnglishLinear | temperature(1))
     Ampere = NamedConstant("Ampere", current(1))
     Candela = NamedConstant("Candela", luminousintensity(1))
-    CmPerSec = NamedConstant("Velocity", SILinear | time(-1) | length(1))
+    CmPerSec = NamedConstant("CmPerSec", SILinear | time(-1) | length(1))
     Momentum = NamedConstant("Momentum", SILinear | time(-1) | length(1) | mass(1))
     G = NamedConstant("G", SILinear | time(-2) | length(1))
     Newton = NamedConstant("Newton", SILinear | time(-2) | length(1) | mass(1))
-- 
2.43.0


From 99e40f4eb4bc1c0aff73b20e97fde624ff18176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:20 +0000
Subject: [PATCH 05/28] fix: read and write binary descriptors from and to
 files

---
 hrdc/stream/formatter/binary.py | 8 +++-----
 hrdc/stream/parser/binary.py    | 9 +++------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index 62f1399..5daf5be 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -2,11 +2,9 @@ from .base import Formatter
 
 class Binary(Formatter):
     def __init__(self, output):
-        import sys
-        if output == sys.stdout and hasattr(output, "buffer"):
-            self.output = output.buffer
-        else:
-            self.output = output
+        # Text files (standard output, but also files opened from the
+        # command line) write bytes through their underlying buffer
+        self.output = getattr(output, "buffer", output)
 
     def append(self, i):
         self.output.write(i.bytes())
diff --git a/hrdc/stream/parser/binary.py b/hrdc/stream/parser/binary.py
index ccfa24e..dbc28a0 100644
--- a/hrdc/stream/parser/binary.py
+++ b/hrdc/stream/parser/binary.py
@@ -2,12 +2,9 @@ from .base import Parser
 
 class Binary(Parser):
     def __init__(self, input, output):
-        import sys
-
-        if input == sys.stdin and hasattr(input, "buffer"):
-            input = input.buffer
-
-        Parser.__init__(self, input, output)
+        # Text files (standard input, but also files opened from the
+        # command line) read bytes through their underlying buffer
+        Parser.__init__(self, getattr(input, "buffer", input), output)
 
     def read(self, *args):
         blob = self.input.read(*args)
-- 
2.43.0


From c167fcc781c100bf42adf51652b052e3422f4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:14 +0000
Subject: [PATCH 06/28] fix: usage page pass keeps the page of short usages and
 of mixed-page usages

Short usages (as produced by parsers) were forced to page 0. Usages from
different pages for a single main item all ended up in the last page.
---
 hrdc/stream/optimizer/usage_page.py | 72 +++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 10 deletions(-)

diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index 5bceda4..f391368 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -5,27 +5,79 @@ class UsagePage(Optimizer):
 
     def __init__(self, stream):
         self.stream = stream
-        self.page = None
+        # Page in effect on output, page declared on input
+        self.page = 0
+        self.declared = 0
+        self.stack = []
+        # Usages for next main item, and page they all name (0 if some
+        # rely on the declared page, or if they name different pages)
+        self.usages = []
+        self.usagesPage = None
 
     def append(self, item):
-        from ..item import Item, GlobalItem, LocalItem, UsagePage, Usage
-        from ...util import NamedConstant
+        from ..item import Item, GlobalItem, LocalItem
         from ...usage import Usage
 
         if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
 
             sp, su = Usage.lookup(item.value).split()
 
-            if self.page is None or self.page != int(sp):
-                self.page = int(sp)
-                self.stream.append(UsagePage(sp))
+            if self.usagesPage is None or int(self.usagesPage) == int(sp):
+                self.usagesPage = sp
+            else:
+                self.usagesPage = 0
 
-            item = Item.itemclass(item.kind, item.tag)(su)
+            self.usages.append(item)
 
-        self.stream.append(item)
+        elif item.kind == Item.Local and item.tag == LocalItem.Delimiter:
+            self.usages.append(item)
 
-        if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
-            self.page = int(item.value)
+        elif item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
+            self.declared = item.value
+
+        elif item.kind == Item.Global and item.tag == GlobalItem.Push:
+            self.pageSet(self.declared)
+            self.stack.append(self.declared)
+            self.stream.append(item)
+
+        elif item.kind == Item.Global and item.tag == GlobalItem.Pop:
+            if self.stack:
+                self.declared = self.stack.pop()
+                self.page = int(self.declared)
+            self.stream.append(item)
+
+        else:
+            if item.kind == Item.Main:
+                self.flush()
+            self.stream.append(item)
+
+    def pageSet(self, page):
+        from ..item import UsagePage
+
+        if self.page != int(page):
+            self.page = int(page)
+            self.stream.append(UsagePage(page))
+
+    def flush(self):
+        from ..item import Item, LocalItem
+        from ...usage import Usage
+
+        if self.usagesPage is not None and int(self.usagesPage):
+            self.pageSet(self.usagesPage)
+            for i in self.usages:
+                if i.tag != LocalItem.Delimiter:
+                    sp, su = Usage.lookup(i.value).split()
+                    i = Item.itemclass(i.kind, i.tag)(su)
+                self.stream.append(i)
+
+        elif self.usages:
+            self.pageSet(self.declared)
+            for i in self.usages:
+                self.stream.append(i)
+
+        self.usages = []
+        self.usagesPage = None
 
     def close(self):
+        self.flush()
         self.stream.close()
-- 
2.43.0


From 9884366e85188e1185fa3ae389ad1b53ddf71882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:14 +0000
Subject: [PATCH 07/28] fix: physical range pass tracks the bounds actually in
 effect

Physical bounds were dropped without considering the ones already in
effect, neither when they were emitted for a previous item nor when
logical bounds change afterwards.
---
 hrdc/stream/optimizer/physical_merge.py | 90 ++++++++++++++-----------
 1 file changed, 52 insertions(+), 38 deletions(-)

diff --git a/hrdc/stream/optimizer/physical_merge.py b/hrdc/stream/optimizer/physical_merge.py
index 19b38e0..7ea0d8a 100644
--- a/hrdc/stream/optimizer/physical_merge.py
+++ b/hrdc/stream/optimizer/physical_merge.py
@@ -4,50 +4,64 @@ class PhysicalMerge(Optimizer):
     precedence = 50
 
     def __init__(self, stream):
-        from ..item import Item, GlobalItem,\
-             LogicalMaximum, LogicalMinimum,\
-             PhysicalMaximum, PhysicalMinimum
+        from ..item import GlobalItem
 
         self.stream = stream
+        # Bounds declared on input
         self.current = {
-            GlobalItem.LogicalMinimum: LogicalMinimum(0),
-            GlobalItem.LogicalMaximum: LogicalMaximum(0),
-            GlobalItem.PhysicalMinimum: PhysicalMinimum(0),
-            GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
+            GlobalItem.LogicalMinimum: 0,
+            GlobalItem.LogicalMaximum: 0,
+            GlobalItem.PhysicalMinimum: 0,
+            GlobalItem.PhysicalMaximum: 0,
             }
-        self.changed = dict(list(self.current.items()))
-        self.pending = []
+        # Physical bounds in effect on output
+        self.emitted = {
+            GlobalItem.PhysicalMinimum: 0,
+            GlobalItem.PhysicalMaximum: 0,
+            }
+        self.stack = []
 
     def append(self, item):
-        from ..item import Item, GlobalItem, PhysicalMinimum, PhysicalMaximum
-
-        if item.kind == Item.Main:
-            if int(self.current[GlobalItem.PhysicalMinimum].value) == 0 \
-                and int(self.current[GlobalItem.PhysicalMaximum].value) == 0 \
-                and int(self.changed[GlobalItem.PhysicalMinimum].value) \
-                == int(self.changed[GlobalItem.LogicalMinimum].value) \
-                and int(self.changed[GlobalItem.PhysicalMaximum].value) \
-                == int(self.changed[GlobalItem.LogicalMaximum].value):
-                self.pending = [x for x in self.pending
-                                if x.kind != Item.Global
-                                or x.tag not in (GlobalItem.PhysicalMinimum,
-                                                  GlobalItem.PhysicalMaximum)]
-            for i in self.pending:
-                self.stream.append(i)
-            self.pending = []
-            self.changed = dict(list(self.current.items()))
-            self.stream.append(item)
-        else:
-            self.pending.append(item)
-
-            if item.kind == Item.Global \
-                   and item.tag in (GlobalItem.LogicalMinimum,
-                                    GlobalItem.LogicalMaximum,
-                                    GlobalItem.PhysicalMinimum,
-                                    GlobalItem.PhysicalMaximum):
-                self.changed[item.tag] = item
+        from ..item import Item, GlobalItem, MainItem
+
+        if item.kind == Item.Global and item.tag in (GlobalItem.PhysicalMinimum,
+                                                     GlobalItem.PhysicalMaximum):
+            # Will be emitted before next data item, if needed
+            self.current[item.tag] = int(item.value)
+            return
+
+        if item.kind == Item.Global:
+            if item.tag in (GlobalItem.LogicalMinimum,
+                            GlobalItem.LogicalMaximum):
+                self.current[item.tag] = int(item.value)
+
+            elif item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.current), dict(self.emitted)))
+
+            elif item.tag == GlobalItem.Pop and self.stack:
+                self.current, self.emitted = self.stack.pop()
+
+        elif item.kind == Item.Main and item.tag in (MainItem.Input,
+                                                     MainItem.Output,
+                                                     MainItem.Feature):
+            self.physicalSet()
+
+        self.stream.append(item)
+
+    def physicalSet(self):
+        from ..item import GlobalItem, PhysicalMinimum, PhysicalMaximum
+
+        physicalMin = self.current[GlobalItem.PhysicalMinimum]
+        physicalMax = self.current[GlobalItem.PhysicalMaximum]
+
+        if physicalMin == self.current[GlobalItem.LogicalMinimum] \
+           and physicalMax == self.current[GlobalItem.LogicalMaximum]:
+            physicalMin = physicalMax = 0
+
+        for item in (PhysicalMinimum(physicalMin), PhysicalMaximum(physicalMax)):
+            if self.emitted[item.tag] != int(item.value):
+                self.emitted[item.tag] = int(item.value)
+                self.stream.append(item)
 
     def close(self):
-        for i in self.pending:
-            self.stream.append(i)
         self.stream.close()
-- 
2.43.0


From 26a3e59a18d16b5a3c9e1994e46bf5bf3de054cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:14 +0000
Subject: [PATCH 08/28] fix: global merging handles Push and Pop

---
 hrdc/stream/optimizer/global_merge.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hrdc/stream/optimizer/global_merge.py b/hrdc/stream/optimizer/global_merge.py
index 11db9de..9bdddb5 100644
--- a/hrdc/stream/optimizer/global_merge.py
+++ b/hrdc/stream/optimizer/global_merge.py
@@ -9,6 +9,7 @@ class GlobalMerge(Optimizer):
              LogicalMinimum, LogicalMaximum
 
         self.stream = stream
+        self.stack = []
         self.locals = {}
         self.globals = {
             GlobalItem.Unit: Unit(0),
@@ -26,11 +27,17 @@ class GlobalMerge(Optimizer):
         from ..item import Item, GlobalItem
 
         if item.kind == Item.Global:
-            if self.globals.get(item.tag, None) != item \
-                   or item.tag == GlobalItem.Push \
-                   or item.tag == GlobalItem.Pop:
+            if item.tag == GlobalItem.Push:
+                self.stack.append(dict(self.globals))
                 self.stream.append(item)
-            self.globals[item.tag] = item
+            elif item.tag == GlobalItem.Pop:
+                if self.stack:
+                    self.globals = self.stack.pop()
+                self.stream.append(item)
+            else:
+                if self.globals.get(item.tag, None) != item:
+                    self.stream.append(item)
+                self.globals[item.tag] = item
 
         elif item.kind == Item.Local:
             self.stream.append(item)
-- 
2.43.0


From b131defc708dc8c9b7d7e06125814302b2436e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:14 +0000
Subject: [PATCH 09/28] fix: designator pass considers all designators of a
 main item, and flushes on close

---
 hrdc/stream/optimizer/designator_uniq.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/designator_uniq.py b/hrdc/stream/optimizer/designator_uniq.py
index 8d9ba00..598a6c5 100644
--- a/hrdc/stream/optimizer/designator_uniq.py
+++ b/hrdc/stream/optimizer/designator_uniq.py
@@ -12,6 +12,9 @@ class DesignatorUniq(Optimizer):
         self.designatorToFilter = None
 
     def close(self):
+        for i in self.pending:
+            self.stream.append(i)
+        self.pending = []
         self.stream.close()
         
     def append(self, item):
@@ -26,7 +29,9 @@ class DesignatorUniq(Optimizer):
                     self.designatorToFilter = item
                 else:
                     self.designatorToFilter = False
-        else:
+            elif item.tag in (LocalItem.DesignatorMinimum, LocalItem.DesignatorMaximum):
+                self.designatorToFilter = False
+        elif item.kind == Item.Main:
             if self.designatorToFilter:
                 self.pending = [x for x in self.pending if x is not self.designatorToFilter]
             for i in self.pending:
-- 
2.43.0


From 9b1942a39c15c31a1c9dfb74bcdc9d9b8326d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:14 +0000
Subject: [PATCH 10/28] fix: dont merge usage ranges across pages or delimited
 sets

---
 hrdc/stream/optimizer/range_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/stream/optimizer/range_merge.py b/hrdc/stream/optimizer/range_merge.py
index 303ea57..7cfc1c2 100644
--- a/hrdc/stream/optimizer/range_merge.py
+++ b/hrdc/stream/optimizer/range_merge.py
@@ -45,14 +45,15 @@ class RangeMerge(Optimizer):
         from ..item import Item, LocalItem
 
         if self.merging and item.kind == Item.Local:
-            if item.tag in (self.min, self.max):
+            if item.tag in (self.min, self.max, LocalItem.Delimiter):
                 self.merging = False
                 
             elif item.tag == self.lookup:
                 if self.maxValue is None:
                     self.maxValue = item.value
                     self.minValue = item.value
-                elif int(item.value) == int(self.maxValue) + 1:
+                elif int(item.value) == int(self.maxValue) + 1 \
+                     and int(item.value) >> 16 == int(self.maxValue) >> 16:
                     self.maxValue = item.value
                 else:
                     self.merging = False
-- 
2.43.0


From 085f57f4a2b9f0b526a1ec2b1af07e2c1add660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:14 +0000
Subject: [PATCH 11/28] fix: only merge data items whose local items are dealt
 out the same once merged

Arrays share all their usages, data items lacking (or having more than)
one usage, string or designator shift the others. Push, Pop and usage
page change meaning of subsequent items. Data items pending on close
were emitted without merging nor count.
---
 hrdc/stream/optimizer/main_merge.py | 51 ++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 602920c..6ba05a2 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -5,6 +5,7 @@ class MainMerge(Optimizer):
 
     from ..item import Item, GlobalItem, LocalItem, MainItem
     to_watch = (
+        GlobalItem.UsagePage,
         GlobalItem.LogicalMinimum,
         GlobalItem.LogicalMaximum,
         GlobalItem.PhysicalMinimum,
@@ -22,18 +23,33 @@ class MainMerge(Optimizer):
         self.afterMain = []
         self.beforeCount = 0
         self.afterCount = 0
-        
+
+        # Tags of local items for data items before / after, None if
+        # they cannot be merged with others
+        self.beforeLocals = ()
+        self.afterLocals = ()
+
+        self.stack = []
         self.props = {}
         
         for key in self.to_watch:
             self.props[key] = 0
 
     def append(self, item):
-        from ..item import Item, MainItem, GlobalItem
+        from ..item import Item, MainItem, GlobalItem, LocalItem, DataItem
 
         if item.kind == Item.Local:
             self.afterMain.append(item)
 
+            if self.afterLocals is not None:
+                if item.tag in (LocalItem.Usage,
+                                LocalItem.DesignatorIndex,
+                                LocalItem.StringIndex) \
+                       and item.tag not in self.afterLocals:
+                    self.afterLocals += (item.tag,)
+                else:
+                    self.afterLocals = None
+
         elif item.kind == Item.Global:
             self.afterMain.append(item)
 
@@ -45,20 +61,41 @@ class MainMerge(Optimizer):
             if item.tag == GlobalItem.ReportCount:
                 self.afterCount = item.value
 
+            elif item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.props), self.afterCount))
+                self.flush()
+
+            elif item.tag == GlobalItem.Pop:
+                if self.stack:
+                    self.props, self.afterCount = self.stack.pop()
+                self.flush()
+
         else:
             if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):
                 self.afterMain.append(item)
+                self.afterLocals = ()
                 self.flush()
                 return
 
-            if self.mainItems and item != self.mainItems[0]:
+            # Only data items with one of each local item can be
+            # merged, as local items get assigned in sequence to
+            # controls. Arrays share them all between controls.
+            mergeable = self.afterLocals is not None \
+                        and (not self.afterLocals
+                             or bool(int(item.value) & DataItem.Variable))
+
+            if self.mainItems and (item != self.mainItems[0]
+                                   or not mergeable
+                                   or self.afterLocals != self.beforeLocals):
                 self.flush()
 
-            flush_after = self.afterCount != 1
+            flush_after = self.afterCount != 1 or not mergeable
 
             self.beforeMain += self.afterMain
             self.beforeCount += self.afterCount
             self.afterMain = []
+            self.beforeLocals = self.afterLocals
+            self.afterLocals = ()
             self.mainItems.append(item)
 
             if flush_after:
@@ -81,10 +118,8 @@ class MainMerge(Optimizer):
         self.beforeCount = 0
 
     def close(self):
+        self.flush()
         for i in self.beforeMain:
             self.stream.append(i)
-        for i in self.mainItems:
-            self.stream.append(i)
-        for i in self.afterMain:
-            self.stream.append(i)
+        self.beforeMain = []
         self.stream.close()
-- 
2.43.0


From d4e29b246bb036615429761fd2a426a4faefa1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:38 +0000
Subject: [PATCH 12/28] fix: values after a nested report belong to the
 enclosing report

---
 hrdc/descriptor/streamer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 57f7da4..87c4219 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -12,11 +12,13 @@ class Streamer(descriptor.Visitor):
             int(item.MainItem.Feature) : [0] * 256,
             }
         self.report_id = 0
+        self.report_ids = []
 
     def enter(self, e):
         a = self.stream.append
 
         if isinstance(e, descriptor.Report):
+            self.report_ids.append(self.report_id)
             self.report_id = e.id
             if e.id:
                 a(item.ReportID(e.id))
@@ -29,7 +31,12 @@ class Streamer(descriptor.Visitor):
     def leave(self, e):
         a = self.stream.append
 
-        if isinstance(e, descriptor.Collection):
+        if isinstance(e, descriptor.Report):
+            self.report_id = self.report_ids.pop()
+            if self.report_id:
+                a(item.ReportID(self.report_id))
+
+        elif isinstance(e, descriptor.Collection):
             a(item.EndCollection())
 
     def element(self, e):
-- 
2.43.0


From ca29a1bdf838a9c2422101561c21951699fa951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:38 +0000
Subject: [PATCH 13/28] fix: extractor handles Push and Pop

---
 hrdc/descriptor/extractor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 792b45f..6ceaecf 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -11,6 +11,7 @@ class Extractor(Stream):
             if kind == item.Item.Global:
                 self.globals[int(tag)] = 0
         self.localsClear()
+        self.globalsStack = []
         self.stack = []
         self.currentLevel = TopLevel()
         self.inNamedArrayCollection = False
@@ -66,7 +67,15 @@ class Extractor(Stream):
 
     def _append(self, i):
         if i.kind == item.Item.Global:
-            self.globals[int(i.tag)] = i.value
+            if i.tag == item.GlobalItem.Push:
+                self.globalsStack.append(dict(self.globals))
+
+            elif i.tag == item.GlobalItem.Pop:
+                if self.globalsStack:
+                    self.globals = self.globalsStack.pop()
+
+            else:
+                self.globals[int(i.tag)] = i.value
 
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
-- 
2.43.0


From f71ce47ac8ec0e295ee8a2e818767b579bdf6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:38 +0000
Subject: [PATCH 14/28] fix: extractor keeps all ranges, and ranges mixed with
 single items

---
 hrdc/descriptor/extractor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 6ceaecf..50dbd7a 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -90,17 +90,19 @@ class Extractor(Stream):
             else:
                 self.locals[int(i.tag)] = i.value
 
-        elif i.kind == item.Item.Main:
-            # Expand ranges
+            # Expand ranges, in sequence with other items
             for min, max, target in [
                 (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum, self.usages),
                 (item.LocalItem.DesignatorMinimum, item.LocalItem.DesignatorMaximum, self.designators),
                 (item.LocalItem.StringMinimum, item.LocalItem.StringMaximum, self.strings),
                 ]:
-                if self.locals[int(min)] is not None and self.locals[int(max)] is not None and not target:
+                if self.locals[int(min)] is not None and self.locals[int(max)] is not None:
                     for val in range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1)):
                         target.append(val)
+                    self.locals[int(min)] = None
+                    self.locals[int(max)] = None
 
+        elif i.kind == item.Item.Main:
             if i.tag == item.MainItem.Collection:
                 self.enter(i.value, self.usage())
 
-- 
2.43.0


From 9327e3aa31cdfd8fbdd94c322173fe78dfa2ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:38 +0000
Subject: [PATCH 15/28] fix: dont print in the middle of extracted descriptor

---
 hrdc/descriptor/extractor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 50dbd7a..9295e36 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -221,8 +221,7 @@ class Extractor(Stream):
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
                 uArray = usage.UsageRange.from_array(uArray)
-            except ValueError as e:
-                print(e)
+            except ValueError:
                 pass
             for no in range(self.globalValue(item.GlobalItem.ReportCount)):
                 self.addValue(
-- 
2.43.0


From 769dfb696b5d53d4830adc61cc5fef4d6c51fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:38 +0000
Subject: [PATCH 16/28] fix: extracted named arrays keep their flags

---
 hrdc/descriptor/descriptor.py | 6 ++----
 hrdc/descriptor/extractor.py  | 4 +++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrdc/descriptor/descriptor.py b/hrdc/descriptor/descriptor.py
index 70a983e..7b283b6 100644
--- a/hrdc/descriptor/descriptor.py
+++ b/hrdc/descriptor/descriptor.py
@@ -116,10 +116,8 @@ class Value(Base):
         self.count = count
 
         if namedArray:
-            if usage:
-                self.flags = self.Variable
-            else:
-                self.flags = self.Data | self.Array
+            if not usage:
+                self.flags = flags & ~int(self.Variable)
             self.logicalMax = len(self.namedArray) + self.logicalMin - 1
 
     def accept(self, visitor):
diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 9295e36..0ce7100 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -206,6 +206,7 @@ class Extractor(Stream):
             self.addValue(
                 Value(i.tag, arrayCollection.usage,
                       self.globalValue(item.GlobalItem.ReportSize),
+                      flags = i.value,
                       logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
                       namedArray = uArray,
                       designator = self.designator(),
@@ -214,7 +215,7 @@ class Extractor(Stream):
                 )
 
         # Named array without enclosing collection (like in Keyboard RD)
-        elif i.value == (item.DataItem.Data | item.DataItem.Array) and \
+        elif not (i.value & item.DataItem.Variable) and \
                  len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
                                       - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
 
@@ -227,6 +228,7 @@ class Extractor(Stream):
                 self.addValue(
                     Value(i.tag, usage = None,
                           size = self.globalValue(item.GlobalItem.ReportSize),
+                          flags = i.value,
                           logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
                           namedArray = uArray,
                           designator = self.designator(),
-- 
2.43.0


From 2f8f275be48c43dec3d1ca044f2581fdf6babea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:38 +0000
Subject: [PATCH 17/28] fix: extractor keeps all usages of buffered bytes

---
 hrdc/descriptor/extractor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 0ce7100..dadd232 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -236,7 +236,10 @@ class Extractor(Stream):
                           )
                     )
 
-        elif i.value & item.DataItem.BufferedBytes:
+        elif i.value & item.DataItem.BufferedBytes \
+                 and len(self.usages) <= 1 \
+                 and len(self.strings) <= 1 \
+                 and len(self.designators) <= 1:
 
             ue = self.globalValue(item.GlobalItem.UnitExponent)
             self.addValue(
-- 
2.43.0


From e0594af4cfa5628fd4bf4e61fc993170c7251990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:38 +0000
Subject: [PATCH 18/28] fix: extract logical collections that have no usage

---
 hrdc/usage/usage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrdc/usage/usage.py b/hrdc/usage/usage.py
index 2211ad2..916eed4 100644
--- a/hrdc/usage/usage.py
+++ b/hrdc/usage/usage.py
@@ -98,6 +98,8 @@ class UsageType:
         self.name = name
 
     def test(self, usage):
+        if usage is None:
+            return False
         usage = Usage.lookup(usage)
         if isinstance(usage, Usage):
             return self in usage.kinds
-- 
2.43.0


From 3f9e3d8b32f0b25e4e1fadce7785a286c80cce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:38 +0000
Subject: [PATCH 19/28] fix: dump collections of unnamed kinds

---
 hrdc/descriptor/dumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 944f729..d48d679 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -35,7 +35,8 @@ descriptor = """)
 
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
-            self.write(self.indent() + "Collection(Collection.%s, %s,\n" % (e.kind, Usage.lookup(e.usage) if e.usage is not None else None))
+            kind = "Collection.%s" % e.kind if isinstance(e.kind, NamedConstant) else "%d" % e.kind
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind, Usage.lookup(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
-- 
2.43.0


From 5bf772c7ed760f818d81c818344e524fe1efc6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:27 +0000
Subject: [PATCH 20/28] fix: extract named arrays that follow other values in
 their collection

---
 hrdc/descriptor/extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index dadd232..c6f77c8 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -181,7 +181,8 @@ class Extractor(Stream):
             self.addValue(Padding(i.tag, self.globalValue(item.GlobalItem.ReportSize)
                                           * self.globalValue(item.GlobalItem.ReportCount)))
 
-        elif (self.globalValue(item.GlobalItem.ReportCount) == 1
+        elif (len(self.currentLevel) == 0
+              and self.globalValue(item.GlobalItem.ReportCount) == 1
               and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
                                        - self.globalValue(item.GlobalItem.LogicalMinimum) + 1)
               and ((i.value == item.DataItem.Variable
-- 
2.43.0


From fb72aaaf910421002ff377ae40ab452e7ce50394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:27 +0000
Subject: [PATCH 21/28] fix: extracted values keep their position in packed
 reports

---
 hrdc/descriptor/extractor.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index c6f77c8..2713105 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -13,6 +13,7 @@ class Extractor(Stream):
         self.localsClear()
         self.globalsStack = []
         self.stack = []
+        self.offsets = {}
         self.currentLevel = TopLevel()
         self.inNamedArrayCollection = False
 
@@ -52,6 +53,15 @@ class Extractor(Stream):
             return 0
         return self.designators[min((len(self.designators) - 1, int(index)))]
 
+    def alignment(self, i, index = 0):
+        """Default alignment, unless value is packed in report"""
+        size = int(self.globalValue(item.GlobalItem.ReportSize))
+        reportId = int(self.globalValue(item.GlobalItem.ReportID))
+        offset = self.offsets.get((int(i.tag), reportId), 0) + index * size
+        if size > 1 and offset % min((8, size)):
+            return 1
+        return None
+
     def append(self, i):
         """Stream entry point"""
         try:
@@ -120,6 +130,7 @@ class Extractor(Stream):
                            item.MainItem.Output,
                            item.MainItem.Feature):
                 self.handleDataItem(i)
+                self.offsetAdvance(i)
 
             self.localsClear()
 
@@ -176,6 +187,12 @@ class Extractor(Stream):
 
         return r
 
+    def offsetAdvance(self, i):
+        key = int(i.tag), int(self.globalValue(item.GlobalItem.ReportID))
+        self.offsets[key] = self.offsets.get(key, 0) \
+                            + self.globalValue(item.GlobalItem.ReportSize) \
+                            * self.globalValue(item.GlobalItem.ReportCount)
+
     def handleDataItem(self, i):
         if i.value & item.DataItem.Constant:
             self.addValue(Padding(i.tag, self.globalValue(item.GlobalItem.ReportSize)
@@ -212,6 +229,7 @@ class Extractor(Stream):
                       namedArray = uArray,
                       designator = self.designator(),
                       string = self.string(),
+                      alignment = self.alignment(i),
                       )
                 )
 
@@ -234,6 +252,7 @@ class Extractor(Stream):
                           namedArray = uArray,
                           designator = self.designator(),
                           string = self.string(),
+                          alignment = self.alignment(i, no),
                           )
                     )
 
@@ -256,6 +275,7 @@ class Extractor(Stream):
                       unit = self.globalValue(item.GlobalItem.Unit),
                       unitExponent = ue,
                       count = self.globalValue(item.GlobalItem.ReportCount),
+                      alignment = self.alignment(i),
                       )
                 )
     
@@ -274,6 +294,7 @@ class Extractor(Stream):
                           string = self.string(n),
                           unit = self.globalValue(item.GlobalItem.Unit),
                           unitExponent = self.globalValue(item.GlobalItem.UnitExponent),
+                          alignment = self.alignment(i, n),
                           )
                     )
 
-- 
2.43.0


From 6db294f50804d8c541c183a047b031b0e035de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:52 +0000
Subject: [PATCH 22/28] fix: extractor keeps empty collections

---
 hrdc/descriptor/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 2713105..1defe7b 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -140,7 +140,7 @@ class Extractor(Stream):
 
     def leave(self, level = None):
         self.currentLevel = self.stack.pop()
-        if level:
+        if level is not None:
             self.reportIdMerge(level)
             self.currentLevel.append(level)
 
-- 
2.43.0


From f6661ff6f607f8c5dd76de17e459cb68f986d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:43 +0000
Subject: [PATCH 23/28] fix: code parser handles comment markers within
 comments

---
 hrdc/stream/parser/code.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hrdc/stream/parser/code.py b/hrdc/stream/parser/code.py
index 20105bf..a93bb97 100644
--- a/hrdc/stream/parser/code.py
+++ b/hrdc/stream/parser/code.py
@@ -3,10 +3,9 @@ import re
 
 class Code(Parser):
     def read(self, *args):
-        contents = ""
-        for line in self.input.read(*args).split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = self.input.read(*args)
+        # Whichever kind of comment starts first hides the other
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", "", contents, flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         blob = bytes(int(x, 16) for x in contents.split(",") if x)
         self.blobParse(blob)
-- 
2.43.0


From c0eb592ca882ce99ddaae47e0b7d8b29832c5b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:47 +0000
Subject: [PATCH 24/28] fix: refuse negative collection kinds

---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index dff0547..fc2da2b 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -218,7 +218,7 @@ class Collection(MainItem):
     _rev = [Physical, Application, Logical, Report, NamedArray, UsageSwitch, UsageModifier]
 
     def __init__(self, value):
-        if not isinstance(value, NamedConstant) and int(value) < len(self._rev):
+        if not isinstance(value, NamedConstant) and 0 <= int(value) < len(self._rev):
             value = self._rev[int(value)]
         MainItem.__init__(self, value)
 
-- 
2.43.0


From 9911f85d93579c9ff087c4d4054f43b698e94660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:08 +0000
Subject: [PATCH 25/28] fix: System Display Rotation Lock Button belongs to the
 desktop page

---
 hrdc/usage/desktop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 698e598..3827d46 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -81,7 +81,7 @@ WirelessRadioLed = Usage("desktop.WirelessRadioLed", 0x100c7, OOC)
 WirelessRadioSliderSwitch = Usage("desktop.WirelessRadioSliderSwitch", 0x100c8, OOC)
 
 # HUTRR52
-SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x1000C9, OOC)
+SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x100C9, OOC)
 SystemDisplayRotationLockSliderSwitch = Usage("desktop.SystemDisplayRotationLockSliderSwitch", 0x100CA, OOC)
 
 # HUTRR50
-- 
2.43.0


From 6f45f866e7249a160eee9c231be3b1344c265235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:44 +0000
Subject: [PATCH 26/28] fix: a named array without a usage keeps its own
 collection

---
 hrdc/descriptor/extractor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 1defe7b..5985313 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -203,7 +203,9 @@ class Extractor(Stream):
               and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
                                        - self.globalValue(item.GlobalItem.LogicalMinimum) + 1)
               and ((i.value == item.DataItem.Variable
-                    and self.currentLevel.kind == Collection.NamedArray)
+                    and self.currentLevel.kind == Collection.NamedArray
+                    and self.currentLevel.usage is not None
+                    and int(self.currentLevel.usage))
                    or (i.value == item.DataItem.Array
                        and self.currentLevel.kind == Collection.Logical
                        and usage.NAry.test(self.currentLevel.usage))
-- 
2.43.0


From 40dd18e3d8ec6bd3f094662069f2773068dd989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:22 +0000
Subject: [PATCH 27/28] fix: comparer handles comment markers within comments

---
 hrdc/stream/comparer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrdc/stream/comparer.py b/hrdc/stream/comparer.py
index f7a66f9..fff02b0 100644
--- a/hrdc/stream/comparer.py
+++ b/hrdc/stream/comparer.py
@@ -7,10 +7,8 @@ class ExpectedStream(stream.Stream):
     def __init__(self, test_case, expected_code):
         self.test_case = test_case
 
-        contents = ""
-        for line in expected_code.split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        # Whichever kind of comment starts first hides the other
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", "", expected_code, flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         self.expected = bytes(int(x, 16) for x in contents.split(",") if x)
         self.point = 0
-- 
2.43.0


From be9080af6cf302b6d9cbacea4a96dc1e207a1552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 28/28] fix: decompile collections within the collection of a
 named array

The end of a collection opened inside the collection of a named array was
taken for the end of the named array's own, which then closed one level
too much: decompiling failed with an IndexError, or later items were put
in the wrong collection.
---
 hrdc/descriptor/extractor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 5985313..f978d77 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -15,7 +15,9 @@ class Extractor(Stream):
         self.stack = []
         self.offsets = {}
         self.currentLevel = TopLevel()
-        self.inNamedArrayCollection = False
+        # Nesting levels of collections replaced by a named array, whose
+        # end is still to come
+        self.namedArrayLevels = []
 
     def localsClear(self):
         self.usages = []
@@ -117,8 +119,8 @@ class Extractor(Stream):
                 self.enter(i.value, self.usage())
 
             elif i.tag == item.MainItem.EndCollection:
-                if self.inNamedArrayCollection:
-                    self.inNamedArrayCollection = False
+                if self.namedArrayLevels and self.namedArrayLevels[-1] == len(self.stack):
+                    self.namedArrayLevels.pop()
                 else:
                     self.leave(self.currentLevel)
 
@@ -212,9 +214,9 @@ class Extractor(Stream):
                    or (self.currentLevel.kind == Collection.Logical
                        and usage.NAry.test(self.currentLevel.usage)))):
 
-            self.inNamedArrayCollection = True
             arrayCollection = self.currentLevel
             self.leave()
+            self.namedArrayLevels.append(len(self.stack))
             assert len(arrayCollection) == 0
 
             uArray = list(map(self.usage, list(range(len(self.usages)))))
-- 
2.43.0

