From 0fab33b8a867d201154eaf15d5d8cd750205d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 01/36] fix: Junction.from_sexpr assigns the diameter token to
 diameter

---
 src/kiutils/items/schitems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 1c31cd5..0a5dac4 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -68,7 +68,7 @@ class Junction():
         for item in exp:
             if item[0] == 'at': object.position = Position().from_sexpr(item)
             if item[0] == 'color': object.color = ColorRGBA().from_sexpr(item)
-            if item[0] == 'diameter': object.color = item[1]
+            if item[0] == 'diameter': object.diameter = item[1]
             if item[0] == 'uuid': object.uuid = item[1]
         return object
 
-- 
2.43.0


From ed51992378363ff3770cc9e771abc0dda2df3002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:18 +0000
Subject: [PATCH 02/36] fix: SyCurve.to_sexpr keeps everything it has generated

---
 src/kiutils/items/syitems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/syitems.py b/src/kiutils/items/syitems.py
index a78cb22..0a4303f 100644
--- a/src/kiutils/items/syitems.py
+++ b/src/kiutils/items/syitems.py
@@ -247,10 +247,10 @@ class SyCurve():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(curve\n'
-        expression =  f'{indents}  (pts\n'
+        expression += f'{indents}  (pts\n'
         for point in self.points:
-            expression =  f'{indents}    (xy {point.X} {point.Y})\n'
-        expression =  f'{indents}  )\n'
+            expression += f'{indents}    (xy {point.X} {point.Y})\n'
+        expression += f'{indents}  )\n'
         expression += self.stroke.to_sexpr(indent+2)
         expression += self.fill.to_sexpr(indent+2)
         expression += f'{indents}){endline}'
-- 
2.43.0


From 66b66c825ff9deb2ef8d4391b3602af701c04e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:19 +0000
Subject: [PATCH 03/36] fix: Footprint.from_file remembers the file path

---
 src/kiutils/footprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 5d32bb6..0ded3b3 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -932,7 +932,9 @@ class Footprint():
             rawFootprint = infile.read()
 
             fpData = sexpr.parse_sexp(rawFootprint)
-            return cls.from_sexpr(fpData)
+            item = cls.from_sexpr(fpData)
+            item.filePath = filepath
+            return item
 
     @classmethod
     def create_new(cls, library_id: str, value: str,
-- 
2.43.0


From b3b588ad6a6772f756a5faaef69b29055748725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:57 +0000
Subject: [PATCH 04/36] fix: GrLine reads its angle token and closes it when
 writing

---
 src/kiutils/items/gritems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 075a926..f6c72c3 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -328,6 +328,7 @@ class GrLine():
                 continue
             if item[0] == 'start': object.start = Position.from_sexpr(item)
             if item[0] == 'end': object.end = Position.from_sexpr(item)
+            if item[0] == 'angle': object.angle = item[1]
             if item[0] == 'layer': object.layer = item[1]
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'width': object.width = item[1]
@@ -349,7 +350,7 @@ class GrLine():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
-        angle = f' (angle {self.angle}' if self.angle is not None else ''
+        angle = f' (angle {self.angle})' if self.angle is not None else ''
 
         return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
 
-- 
2.43.0


From a4bc983b8420765565f81751d44e2c133e0f2126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:58 +0000
Subject: [PATCH 05/36] fix: FillSettings omits unset thermal relief tokens
 instead of writing None

---
 src/kiutils/items/zones.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 714a035..ca2a3e4 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -249,7 +249,10 @@ class FillSettings():
         hba = f'\n{indents}  (hatch_border_algorithm {self.hatchBorderAlgorithm})' if self.hatchBorderAlgorithm is not None else ''
         hmha = f' (hatch_min_hole_area {self.hatchMinHoleArea})' if self.hatchMinHoleArea is not None else ''
 
-        return f'{indents}(fill{yes}{mode} (thermal_gap {self.thermalGap}) (thermal_bridge_width {self.thermalBridgeWidth}){smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
+        gap = f' (thermal_gap {self.thermalGap})' if self.thermalGap is not None else ''
+        bridge = f' (thermal_bridge_width {self.thermalBridgeWidth})' if self.thermalBridgeWidth is not None else ''
+
+        return f'{indents}(fill{yes}{mode}{gap}{bridge}{smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
 
 @dataclass
 class ZonePolygon():
-- 
2.43.0


From 82fe7476af3514c27870c70ef285d68dd1153a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:00 +0000
Subject: [PATCH 06/36] fix: Dimension writes locked, omits an unset tstamp and
 escapes its layer

---
 src/kiutils/items/dimensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/dimensions.py b/src/kiutils/items/dimensions.py
index 47b38e9..ef1f17b 100644
--- a/src/kiutils/items/dimensions.py
+++ b/src/kiutils/items/dimensions.py
@@ -321,7 +321,10 @@ class Dimension():
         if len(points) == 0:
             raise Exception("Number of points must not be zero")
 
-        expression =   f'{indents}(dimension (type {self.type}) (layer "{self.layer}") (tstamp {self.tstamp})\n'
+        locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        expression =   f'{indents}(dimension{locked} (type {self.type}) (layer "{dequote(self.layer)}"){tstamp}\n'
         expression +=  f'{indents}  (pts{points})\n'
         if self.height is not None:
             expression +=  f'{indents}  (height {self.height})\n'
-- 
2.43.0


From 3ae99afe023b965ce2700a2c35fe29aa9722e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:01 +0000
Subject: [PATCH 07/36] fix: Target omits an unset tstamp and escapes its layer

---
 src/kiutils/items/brditems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index f4c1a80..c2e8520 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -1101,4 +1101,6 @@ class Target():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{self.layer}") (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{dequote(self.layer)}"){tstamp}){endline}'
-- 
2.43.0


From dcd001f16bc4646347b4c15aa2c529871a1b3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:03 +0000
Subject: [PATCH 08/36] fix: GrText.from_sexpr reads the text of a locked
 gr_text

---
 src/kiutils/items/gritems.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index f6c72c3..5339b20 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -81,8 +81,15 @@ class GrText():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
-        object.text = exp[1]
-        for item in exp[2:]:
+        if exp[1] == 'locked' and len(exp) > 2 and not isinstance(exp[2], list):
+            object.locked = True
+            object.text = exp[2]
+            start_at = 3
+        else:
+            object.text = exp[1]
+            start_at = 2
+
+        for item in exp[start_at:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From 213e7ce8234848edc9de1c4b2994c45515b08ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:38 +0000
Subject: [PATCH 09/36] fix: StackupLayer escapes quotes in its type

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index c2e8520..353f1c5 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -308,7 +308,7 @@ class StackupLayer():
         epsilon_r = f' (epsilon_r {self.epsilonR})' if self.epsilonR is not None else ''
         loss_tangent = f' (loss_tangent {self.lossTangent})' if self.lossTangent is not None else ''
 
-        expression = f'{indents}(layer "{dequote(self.name)}" (type "{self.type}"){color}{thickness}'
+        expression = f'{indents}(layer "{dequote(self.name)}" (type "{dequote(self.type)}"){color}{thickness}'
         expression +=f'{material}{epsilon_r}{loss_tangent}'
         for layer in self.subLayers:
             expression += f'\n{layer.to_sexpr(indent+2)}'
-- 
2.43.0


From fa71dba010d61380c5e3be6bf5c59a82c0435651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:40 +0000
Subject: [PATCH 10/36] fix: PlotSettings writes useAuxOrigin instead of a
 constant

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 353f1c5..94888d5 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -631,7 +631,7 @@ class PlotSettings():
         expression += f'{indents}  (plotframeref {str(self.plotFameRef).lower()})\n'
         expression += f'{indents}  (viasonmask {str(self.viasOnMask).lower()})\n'
         expression += f'{indents}  (mode {self.mode})\n'
-        expression += f'{indents}  (useauxorigin false)\n'
+        expression += f'{indents}  (useauxorigin {"true" if self.useAuxOrigin else "false"})\n'
         expression += f'{indents}  (hpglpennumber {self.hpglPenNumber})\n'
         expression += f'{indents}  (hpglpenspeed {self.hpglPenSpeed})\n'
         expression += f'{indents}  (hpglpendiameter {float(self.hpglPenDiameter):.6f})\n'
-- 
2.43.0


From d89f04774fdec5a627140a8a7700f0ee6be05eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:41 +0000
Subject: [PATCH 11/36] fix: Stackup honours castellated_pads and edge_plating
 set to no

---
 src/kiutils/items/brditems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 94888d5..bf33884 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -373,8 +373,8 @@ class Stackup():
             if item[0] == 'copper_finish': object.copperFinish = item[1]
             if item[0] == 'dielectric_constraints': object.dielectricContraints = item[1]
             if item[0] == 'edge_connector': object.edgeConnector = item[1]
-            if item[0] == 'castellated_pads': object.castellatedPads = True
-            if item[0] == 'edge_plating': object.edgePlating = True
+            if item[0] == 'castellated_pads': object.castellatedPads = True if item[1] == 'yes' else False
+            if item[0] == 'edge_plating': object.edgePlating = True if item[1] == 'yes' else False
         return object
 
     def to_sexpr(self, indent=4, newline=True) -> str:
-- 
2.43.0


From 26be0fb20aabae2f36d64cec2c712efb6199839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:43 +0000
Subject: [PATCH 12/36] fix: RenderCache.from_sexpr reads a numeric id and an
 empty text

---
 src/kiutils/items/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 707328e..891d7f7 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -991,8 +991,8 @@ class RenderCache():
 
         object = cls()
         object.text = exp[1]
-        object.id = exp[2]
-        for item in exp:
+        object.id = int(exp[2])
+        for item in exp[3:]:
             if item[0] == 'polygon': object.polygons.append(RenderCachePolygon.from_sexpr(item))
         return object
 
-- 
2.43.0


From 2ece71d61d1301f5a8de6d0db50b07c27d636c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:44 +0000
Subject: [PATCH 13/36] fix: a group named "locked" is not locked

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 891d7f7..33a1279 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -600,7 +600,7 @@ class Group():
 
         object = cls()
         object.name = exp[1]
-        for item in exp:
+        for item in exp[2:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From b90936fd2e7364f7e595562631832f8c5f2c8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:46 +0000
Subject: [PATCH 14/36] fix: NetclassFlag defaults are instances, not classes

---
 src/kiutils/items/schitems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 0a5dac4..9599789 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -1845,10 +1845,10 @@ class NetclassFlag():
     """The ``shape`` token defines the shape of the netclass flag. Valid values are ``round``,
     ``rectangle``, ``dot`` or``diamond``."""
 
-    position: Position = field(default_factory=lambda: Position)
+    position: Position = field(default_factory=lambda: Position())
     """The ``position`` token defines the position and rotation of the netclass flag"""
 
-    effects: Effects = field(default_factory=lambda: Effects)
+    effects: Effects = field(default_factory=lambda: Effects())
     """The ``effects`` token defines how the text is drawn"""
 
     properties: List[Property] = field(default_factory=list)
-- 
2.43.0


From a646aa346326b8925e3797ed45305b215f3fa32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:48 +0000
Subject: [PATCH 15/36] fix: WorkSheet.to_file takes an encoding like every
 other file type

---
 src/kiutils/wks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index d19ea61..07493f1 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -922,12 +922,14 @@ class WorkSheet():
             generator = KIUTILS_CREATE_NEW_GENERATOR_STR
         )
 
-    def to_file(self, filepath = None):
+    def to_file(self, filepath = None, encoding: Optional[str] = None):
         """Save the object to a file in S-Expression format
 
         Args:
             - filepath (str, optional): Path-like string to the file. Defaults to None. If not set, 
                                         the attribute ``self.filePath`` will be used instead.
+            - encoding (str, optional): Encoding of the output file. Defaults to None (platform
+                                        dependent encoding).
 
         Raises:
             - Exception: If no file path is given via the argument or via `self.filePath`
@@ -937,7 +939,7 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        with open(filepath, 'w') as outfile:
+        with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(self.to_sexpr())
 
     def to_sexpr(self, indent=0, newline=True):
-- 
2.43.0


From 8b6af225ec999d83ab51366bed93733c78bcd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:49 +0000
Subject: [PATCH 16/36] fix: SymbolLib omits an unset generator instead of
 writing None

---
 src/kiutils/symbol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 022a229..7cfbf50 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -585,7 +585,9 @@ class SymbolLib():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        expression =  f'{indents}(kicad_symbol_lib (version {self.version}) (generator {self.generator})\n'
+        generator = f' (generator {self.generator})' if self.generator is not None else ''
+
+        expression =  f'{indents}(kicad_symbol_lib (version {self.version}){generator}\n'
         for item in self.symbols:
             expression += f'{indents}{item.to_sexpr(indent+2)}'
         expression += f'{indents}){endline}'
-- 
2.43.0


From 01dfc63534f722303f175ec87d1030725899b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:51 +0000
Subject: [PATCH 17/36] fix: DrillDefinition.from_sexpr reads offsets and
 missing sizes correctly

---
 src/kiutils/footprint.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 0ded3b3..a61496d 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -259,14 +259,14 @@ class DrillDefinition():
 
         object = cls()
         # Depending on the ``oval`` token, the fields may be shifted ..
-        if exp[1] == 'oval':
+        values = [item for item in exp[1:] if type(item) != type([])]
+        if len(values) > 0 and values[0] == 'oval':
             object.oval = True
-            object.diameter = exp[2]
-            object.width = exp[3]
-        else:
-            object.diameter = exp[1]
-            if len(exp) > 2:
-                object.width = exp[2]
+            values = values[1:]
+        if len(values) > 0:
+            object.diameter = values[0]
+        if len(values) > 1:
+            object.width = values[1]
 
         # The ``offset`` token may not be given
         for item in exp:
-- 
2.43.0


From 1a7b3c9d153f8dbaf1d08b525ffbb5929a36e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:52 +0000
Subject: [PATCH 18/36] fix: FpLine writes its locked token

---
 src/kiutils/items/fpitems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/fpitems.py b/src/kiutils/items/fpitems.py
index 7ef2b66..ea5c2d6 100644
--- a/src/kiutils/items/fpitems.py
+++ b/src/kiutils/items/fpitems.py
@@ -222,7 +222,9 @@ class FpLine():
         else:
             width = ''
 
-        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{tstamp}){endline}'
+        locked = ' locked' if self.locked else ''
+
+        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{locked}{tstamp}){endline}'
 
 @dataclass
 class FpRect():
-- 
2.43.0


From 321459938163de568b42a890a7d3972d356000ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:06 +0000
Subject: [PATCH 19/36] fix: a footprint loaded without tedit does not get an
 invented one when saved

---
 src/kiutils/footprint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index a61496d..7974b56 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -726,7 +726,7 @@ class Footprint():
     layer: str = "F.Cu"
     """The ``layer`` token defines the canonical layer the footprint is placed"""
 
-    tedit: str = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
+    tedit: Optional[str] = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
     """The ``tedit`` token defines a the last time the footprint was edited"""
 
     tstamp: Optional[str] = None
@@ -858,6 +858,7 @@ class Footprint():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
+        object.tedit = None
         object.libId = exp[1]
         for item in exp[2:]:
             if not isinstance(item, list):
@@ -1033,7 +1034,9 @@ class Footprint():
             expression += f' (layer "{dequote(self.layer)}")\n'
         else:
             expression += f'\n{indents}  (layer "{dequote(self.layer)}")\n'
-        expression += f'{indents}  (tedit {self.tedit}){tstamp}\n'
+        tedit = f'(tedit {self.tedit})' if self.tedit is not None else ''
+        if tedit or tstamp:
+            expression += f'{indents}  {(tedit + tstamp).strip()}\n'
 
         if self.position is not None:
             angle = f' {self.position.angle}' if self.position.angle is not None else ''
-- 
2.43.0


From 85cba63faa9ed38553cfd647deba3d02dd451e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:07 +0000
Subject: [PATCH 20/36] fix: symbol ids ending in zero-padded numbers keep
 their digits

---
 src/kiutils/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 7cfbf50..eb00262 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -272,7 +272,7 @@ class Symbol():
             self.unitId = None
             self.styleId = None
         else:
-            parse_symbol_id = re.match(r"^(.+?)_(\d+?)_(\d+?)$", symbol_id)
+            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9]\d*)_(0|[1-9]\d*)$", symbol_id)
             if parse_symbol_id:
                 # The symbol is a child symbol
                 self.libraryNickname = None
-- 
2.43.0


From 862bd50df014506be1d43a201de231d6d3141f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:22 +0000
Subject: [PATCH 21/36] fix: to_file generates and encodes the content before
 truncating the file

---
 src/kiutils/board.py     | 7 ++++++-
 src/kiutils/dru.py       | 7 ++++++-
 src/kiutils/footprint.py | 7 ++++++-
 src/kiutils/libraries.py | 7 ++++++-
 src/kiutils/schematic.py | 7 ++++++-
 src/kiutils/symbol.py    | 7 ++++++-
 src/kiutils/wks.py       | 7 ++++++-
 7 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 95f0959..25ac5c3 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -237,8 +237,13 @@ class Board():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate and encode the content first, so that a failure leaves an existing file untouched
+        expression = self.to_sexpr()
+        if encoding is not None:
+            expression.encode(encoding)
+
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index a1b5a4a..666a601 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -289,8 +289,13 @@ class DesignRules():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate and encode the content first, so that a failure leaves an existing file untouched
+        expression = self.to_sexpr()
+        if encoding is not None:
+            expression.encode(encoding)
+
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=False):
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 7974b56..5f6294d 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -1006,8 +1006,13 @@ class Footprint():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate and encode the content first, so that a failure leaves an existing file untouched
+        expression = self.to_sexpr()
+        if encoding is not None:
+            expression.encode(encoding)
+
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True, layerInFirstLine=False) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 9098613..69e42d8 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -193,8 +193,13 @@ class LibTable():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate and encode the content first, so that a failure leaves an existing file untouched
+        expression = self.to_sexpr()
+        if encoding is not None:
+            expression.encode(encoding)
+
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index a3396ff..25dcd2d 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -226,8 +226,13 @@ class Schematic():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate and encode the content first, so that a failure leaves an existing file untouched
+        expression = self.to_sexpr()
+        if encoding is not None:
+            expression.encode(encoding)
+
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index eb00262..254c2a9 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -569,8 +569,13 @@ class SymbolLib():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate and encode the content first, so that a failure leaves an existing file untouched
+        expression = self.to_sexpr()
+        if encoding is not None:
+            expression.encode(encoding)
+
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent: int = 0, newline: bool = True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index 07493f1..f6b2893 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -939,8 +939,13 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate and encode the content first, so that a failure leaves an existing file untouched
+        expression = self.to_sexpr()
+        if encoding is not None:
+            expression.encode(encoding)
+
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(expression)
 
     def to_sexpr(self, indent=0, newline=True):
         """Generate the S-Expression representing this object
-- 
2.43.0


From f26736acb573c2b566d3b6e1c300fc6d4757fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:24 +0000
Subject: [PATCH 22/36] fix: the reader understands the exponent notation the
 writer produces

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 764fa58..c1af3a8 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
+        (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\ \)])|[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^(^)\s]+)
        )'''
-- 
2.43.0


From 3e15e4703e7a58898a5e2280dfa087aeb6b3cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:24 +0000
Subject: [PATCH 23/36] fix: the reader keeps circumflex characters of unquoted
 words

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index c1af3a8..32357e5 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -12,7 +12,7 @@ term_regex = r'''(?mx)
         (?P<brackr>\))|
         (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\ \)])|[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
-        (?P<s>[^(^)\s]+)
+        (?P<s>[^()\s]+)
        )'''
 
 def parse_sexp(sexp):
-- 
2.43.0


From e1657e56c82289f8c1c72a1afed4532036ab507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:25 +0000
Subject: [PATCH 24/36] fix: the reader keeps all digits of large integers

---
 src/kiutils/utils/sexpr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 32357e5..d2f29d2 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -30,8 +30,8 @@ def parse_sexp(sexp):
             tmpout, out = out, stack.pop(-1)
             out.append(tmpout)
         elif term == 'num':
-            v = float(value)
-            if v.is_integer(): v = int(v)
+            v = int(value) if value.lstrip('+-').isdigit() else float(value)
+            if isinstance(v, float) and v.is_integer(): v = int(v)
             out.append(v)
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
-- 
2.43.0


From 4ce9dfc143c29da6d0181832b9bfb9d0c6c04681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 25/36] fix: the reader ends a quoted text at its closing quote
 after an escaped backslash

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index d2f29d2..9e4039c 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -11,7 +11,7 @@ term_regex = r'''(?mx)
         (?P<brackl>\()|
         (?P<brackr>\))|
         (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\ \)])|[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
-        (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
+        (?P<sq>"(?:[^"\\]|\\[\s\S])*"(?=[\s\)])|"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
 
-- 
2.43.0


From 53f4ba02e920317fbdb35a0c1c4861b713600896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:39 +0000
Subject: [PATCH 26/36] fix: the reader rejects quoted text without a closing
 quote

---
 src/kiutils/utils/sexpr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 9e4039c..9338db8 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -36,6 +36,7 @@ def parse_sexp(sexp):
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
         elif term == 's':
+            assert not value.startswith('"'), "Trouble with unterminated quotes"
             out.append(value)
         else:
             raise NotImplementedError("Error: %r" % (term, value))
-- 
2.43.0


From 92972f39f946c0342978bccc5f9ebc0ae8b9d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:53 +0000
Subject: [PATCH 27/36] fix: Segment omits an unset tstamp, which could not be
 read back

---
 src/kiutils/items/brditems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index bf33884..408abc4 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -830,7 +830,9 @@ class Segment():
         endline = '\n' if newline else ''
         locked = ' locked' if self.locked else ''
 
-        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}) (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp else ''
+
+        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}){tstamp}){endline}'
 
 @dataclass
 class Via():
-- 
2.43.0


From 1d4ce2e930e6a3a5009f4cbd6ba8cac14c6cd02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:54 +0000
Subject: [PATCH 28/36] fix: Group omits an unset id, which could not be read
 back

---
 src/kiutils/items/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 33a1279..c094673 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -624,7 +624,9 @@ class Group():
         endline = '\n' if newline else ''
         locked = f' locked' if self.locked else ''
 
-        expression =  f'{indents}(group "{dequote(self.name)}"{locked} (id {self.id})\n'
+        id = f' (id {self.id})' if self.id else ''
+
+        expression =  f'{indents}(group "{dequote(self.name)}"{locked}{id}\n'
         expression += f'{indents}  (members\n'
         for member in self.members:
             expression += f'{indents}    {member}\n'
-- 
2.43.0


From 48f51db1a68277400fbf1af84325b9283fb7f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:56 +0000
Subject: [PATCH 29/36] fix: PlotSettings omits an unset layer selection, which
 could not be read back

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 408abc4..31ba32f 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -611,7 +611,8 @@ class PlotSettings():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(pcbplotparams\n'
-        expression += f'{indents}  (layerselection {self.layerSelection})\n'
+        if self.layerSelection:
+            expression += f'{indents}  (layerselection {self.layerSelection})\n'
         if self.plotOnAllLayersSelection is not None:
             expression += f'{indents}  (plot_on_all_layers_selection {self.plotOnAllLayersSelection})\n'
         expression += f'{indents}  (disableapertmacros {str(self.disableApertMacros).lower()})\n'
-- 
2.43.0


From 3e55c5260f4cc8934a4d16501e34b7366e4eda7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 30/36] fix: board graphics omit an unset width instead of
 writing None

---
 src/kiutils/items/gritems.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 5339b20..62cd496 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -356,10 +356,11 @@ class GrLine():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         angle = f' (angle {self.angle})' if self.angle is not None else ''
 
-        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
+        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrRect():
@@ -438,10 +439,11 @@ class GrRect():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrCircle():
@@ -521,10 +523,11 @@ class GrCircle():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrArc():
@@ -604,9 +607,10 @@ class GrArc():
         locked = f' locked' if self.locked else ''
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
 
-        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){tstamp}){endline}'
+        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrPoly():
@@ -690,6 +694,7 @@ class GrPoly():
             return f'{indents}{endline}'
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
         locked = f' locked' if self.locked else ''
@@ -702,7 +707,7 @@ class GrPoly():
 
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
-        expression += f'{indents}  ){layer} (width {self.width}){fill}{tstamp}){endline}'
+        expression += f'{indents}  ){layer}{width}{fill}{tstamp}){endline}'
         return expression
 
 @dataclass
@@ -778,11 +783,12 @@ class GrCurve():
             return f'{indents}{endline}'
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         locked = f' locked' if self.locked else ''
 
         expression = f'{indents}(gr_curve{locked} (pts\n'
         for point in self.coordinates:
             expression += f'{indents}  (xy {point.X} {point.Y})\n'
-        expression += f'{indents}){layer} (width {self.width}){tstamp}){endline}'
+        expression += f'{indents}){layer}{width}{tstamp}){endline}'
         return expression
-- 
2.43.0


From 38dfe96cae0477283c0b13bb74ef0b9dc2a2dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:24 +0000
Subject: [PATCH 31/36] fix: zone polygons honour the newline argument

---
 src/kiutils/items/zones.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index ca2a3e4..6de1e50 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -313,7 +313,7 @@ class ZonePolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
@@ -392,7 +392,7 @@ class FilledPolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 # TODO: This is KiCad 4 stuff, has to be tested yet ..
@@ -466,7 +466,7 @@ class FillSegments():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
-- 
2.43.0


From bbf7aa3ac52392de5c56e94eeee1d00297d7a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:22 +0000
Subject: [PATCH 32/36] fix: keep the existing file when its content does not
 fit the default encoding

---
 src/kiutils/board.py     | 4 ++--
 src/kiutils/dru.py       | 4 ++--
 src/kiutils/footprint.py | 4 ++--
 src/kiutils/libraries.py | 4 ++--
 src/kiutils/schematic.py | 4 ++--
 src/kiutils/symbol.py    | 4 ++--
 src/kiutils/wks.py       | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 25ac5c3..4256dc1 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass, field
 from typing import Optional, List, Dict
+from locale import getpreferredencoding
 from os import path
 
 from kiutils.items.common import Group, Image, Net, PageSettings, TitleBlock
@@ -239,8 +240,7 @@ class Board():
 
         # Generate and encode the content first, so that a failure leaves an existing file untouched
         expression = self.to_sexpr()
-        if encoding is not None:
-            expression.encode(encoding)
+        expression.encode(getpreferredencoding(False) if encoding is None else encoding)
 
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(expression)
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index 666a601..d762f8c 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass, field
 from typing import Optional, List
+from locale import getpreferredencoding
 from os import path
 
 from kiutils.utils import sexpr
@@ -291,8 +292,7 @@ class DesignRules():
 
         # Generate and encode the content first, so that a failure leaves an existing file untouched
         expression = self.to_sexpr()
-        if encoding is not None:
-            expression.encode(encoding)
+        expression.encode(getpreferredencoding(False) if encoding is None else encoding)
 
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(expression)
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 5f6294d..a1d2cb3 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -20,6 +20,7 @@ import datetime
 import re
 from dataclasses import dataclass, field
 from typing import Optional, List, Dict
+from locale import getpreferredencoding
 from os import path
 
 from kiutils.items.zones import Zone
@@ -1008,8 +1009,7 @@ class Footprint():
 
         # Generate and encode the content first, so that a failure leaves an existing file untouched
         expression = self.to_sexpr()
-        if encoding is not None:
-            expression.encode(encoding)
+        expression.encode(getpreferredencoding(False) if encoding is None else encoding)
 
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(expression)
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 69e42d8..475e912 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -14,6 +14,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass, field
 from typing import Optional, List
+from locale import getpreferredencoding
 from os import path
 
 from kiutils.utils.strings import dequote
@@ -195,8 +196,7 @@ class LibTable():
 
         # Generate and encode the content first, so that a failure leaves an existing file untouched
         expression = self.to_sexpr()
-        if encoding is not None:
-            expression.encode(encoding)
+        expression.encode(getpreferredencoding(False) if encoding is None else encoding)
 
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(expression)
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index 25dcd2d..d89decf 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass, field
 from typing import Optional, List, Union
+from locale import getpreferredencoding
 from os import path
 
 from kiutils.items.common import Image, PageSettings, TitleBlock
@@ -228,8 +229,7 @@ class Schematic():
 
         # Generate and encode the content first, so that a failure leaves an existing file untouched
         expression = self.to_sexpr()
-        if encoding is not None:
-            expression.encode(encoding)
+        expression.encode(getpreferredencoding(False) if encoding is None else encoding)
 
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(expression)
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 254c2a9..8ed2fd9 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -16,6 +16,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass, field
 from typing import Optional, List
+from locale import getpreferredencoding
 from os import path
 import re
 
@@ -571,8 +572,7 @@ class SymbolLib():
 
         # Generate and encode the content first, so that a failure leaves an existing file untouched
         expression = self.to_sexpr()
-        if encoding is not None:
-            expression.encode(encoding)
+        expression.encode(getpreferredencoding(False) if encoding is None else encoding)
 
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(expression)
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index f6b2893..f66e1a5 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass, field
 from typing import Optional, List
+from locale import getpreferredencoding
 from os import path
 
 from kiutils.items.common import Justify
@@ -941,8 +942,7 @@ class WorkSheet():
 
         # Generate and encode the content first, so that a failure leaves an existing file untouched
         expression = self.to_sexpr()
-        if encoding is not None:
-            expression.encode(encoding)
+        expression.encode(getpreferredencoding(False) if encoding is None else encoding)
 
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(expression)
-- 
2.43.0


From 990059a3a47cca09e8989009358288e347d412a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:07 +0000
Subject: [PATCH 33/36] fix: words made of non-ASCII digits are text, not
 numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 9338db8..a414ff2 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\ \)])|[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
+        (?P<num>[+-]?[0-9]+(?:\.[0-9]+)?[eE][+-][0-9]+(?=[\ \)])|[+-]?[0-9]+\.[0-9]+(?=[\ \)])|\-?[0-9]+(?=[\ \)]))|
         (?P<sq>"(?:[^"\\]|\\[\s\S])*"(?=[\s\)])|"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
-- 
2.43.0


From 9f1b99e597a46c80ff23917db103e5ee4a363060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:12 +0000
Subject: [PATCH 34/36] fix: unit numbers of symbol identifiers are plain
 decimal digits

---
 src/kiutils/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 8ed2fd9..458be4c 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -273,7 +273,7 @@ class Symbol():
             self.unitId = None
             self.styleId = None
         else:
-            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9]\d*)_(0|[1-9]\d*)$", symbol_id)
+            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)$", symbol_id)
             if parse_symbol_id:
                 # The symbol is a child symbol
                 self.libraryNickname = None
-- 
2.43.0


From b4ca6ecb152dc1f5d2abdfe99984a3edb07ccbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:43 +0000
Subject: [PATCH 35/36] fix: the reader understands numbers at the end of a
 line or before a parenthesis

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index a414ff2..fc73564 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?[0-9]+(?:\.[0-9]+)?[eE][+-][0-9]+(?=[\ \)])|[+-]?[0-9]+\.[0-9]+(?=[\ \)])|\-?[0-9]+(?=[\ \)]))|
+        (?P<num>[+-]?[0-9]+(?:\.[0-9]+)?[eE][+-][0-9]+(?=[\s()])|[+-]?[0-9]+\.[0-9]+(?=[\s()])|\-?[0-9]+(?=[\s()]))|
         (?P<sq>"(?:[^"\\]|\\[\s\S])*"(?=[\s\)])|"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
-- 
2.43.0


From ee4193784038441b9b54c70710b0da5cdfb382f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:07 +0000
Subject: [PATCH 36/36] fix: the reader understands quoted text directly before
 an opening parenthesis

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index fc73564..a63b186 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -11,7 +11,7 @@ term_regex = r'''(?mx)
         (?P<brackl>\()|
         (?P<brackr>\))|
         (?P<num>[+-]?[0-9]+(?:\.[0-9]+)?[eE][+-][0-9]+(?=[\s()])|[+-]?[0-9]+\.[0-9]+(?=[\s()])|\-?[0-9]+(?=[\s()]))|
-        (?P<sq>"(?:[^"\\]|\\[\s\S])*"(?=[\s\)])|"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
+        (?P<sq>"(?:[^"\\]|\\[\s\S])*"(?=[\s()])|"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
 
-- 
2.43.0

