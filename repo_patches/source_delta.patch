From 92270ceca614477362edea40fad4995b9a9e96bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:21 +0000
Subject: [PATCH 01/16] fix: locate record columns after removing surrounding
 whitespace

Record.read() accepted a line with leading whitespace but sliced the
unstripped line, so every column was shifted.
---
 src/arinc424/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index c962139..80637c2 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -121,7 +121,8 @@ class Record():
       return False
 
     # remove any surrounding whitespace
-    self.raw = line.strip()
+    line = line.strip()
+    self.raw = line
 
     identifier_1 = line[4:6]
     identifier_2 = line[4] + line[12]
-- 
2.43.0


From 7b96adcef265e1d96572d3d35f9f1bbbd80c29da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:21 +0000
Subject: [PATCH 02/16] fix: read primary airway restriction records with their
 primary layout

EnrouteAirwaysRestriction had no continuation column, so every EU record
was read with a continuation layout (and SC records raised).
---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 1006ca4..d681e20 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -5,6 +5,8 @@ import arinc424.decoder as decoder
 # 4.1.21 Enroute Airways Restriction Records (EU)
 class EnrouteAirwaysRestriction():
 
+  cont_idx = 17
+  app_idx = 18
   continuations = ['AE', 'TC', 'NR']
   name = 'Enroute Airways'
 
-- 
2.43.0


From 77b444cf92061b7a83be583d9a6e26bbef68d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:21 +0000
Subject: [PATCH 03/16] fix: do not keep the previous record's continuation
 number

Record types without a continuation column left the number of whatever
the same Record object had read before in place (or none at all), so
primary() depended on history and was False for a fresh object.
---
 src/arinc424/record.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 80637c2..f62f9a8 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -136,6 +136,9 @@ class Record():
 
     self.definition = records[self.ident]
 
+    # record types without continuation records only have primary records
+    self.continuation = '0'
+
     # validate the continuation record number
     if hasattr(self.definition, 'cont_idx'):
       self.continuation = self.raw[self.definition.cont_idx]
-- 
2.43.0


From 674311b3397754ad97e7f4e12376dc781b2a5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:21 +0000
Subject: [PATCH 04/16] fix: leave a record unchanged when it rejects a line

A rejected line used to overwrite part of the object (raw text, section,
continuation number, sometimes the fields), so that decode() and
primary() mixed the rejected line with the one read before.
---
 src/arinc424/record.py | 45 ++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index f62f9a8..bbba7f3 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -122,49 +122,56 @@ class Record():
 
     # remove any surrounding whitespace
     line = line.strip()
-    self.raw = line
 
     identifier_1 = line[4:6]
     identifier_2 = line[4] + line[12]
 
     if identifier_1 in records:
-      self.ident = identifier_1
+      ident = identifier_1
     elif identifier_2 in records:
-      self.ident = identifier_2
+      ident = identifier_2
     else:
       return False
 
-    self.definition = records[self.ident]
+    definition = records[ident]
 
     # record types without continuation records only have primary records
-    self.continuation = '0'
+    continuation = '0'
+    primary = True
 
     # validate the continuation record number
-    if hasattr(self.definition, 'cont_idx'):
-      self.continuation = self.raw[self.definition.cont_idx]
-      if self.continuation.isalnum() == False:
-        print(f'Unsupported {self.definition.name} Continuation Record Number: "{self.continuation}"')
+    if hasattr(definition, 'cont_idx'):
+      continuation = line[definition.cont_idx]
+      if continuation.isalnum() == False:
+        print(f'Unsupported {definition.name} Continuation Record Number: "{continuation}"')
         print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
-        print(f'Record: {self.raw}')
+        print(f'Record: {line}')
         return False
 
       # validate the continuation record type
-      if self.primary() is False:
-        if hasattr(self.definition, 'app_idx'):
-          application_type = self.definition.application_type(self.raw)
-          if (application_type not in self.definition.continuations) and not 'J':
-            print(f'Unsupported {self.definition.name} Application Type: "{application_type}"')
-            print(f'Supported application types for {self.definition.name} are: {self.definition.continuations}')
-            print(f'Record: {self.raw}')
+      primary = continuation == '0' or continuation == '1'
+      if primary is False:
+        if hasattr(definition, 'app_idx'):
+          application_type = definition.application_type(line)
+          if (application_type not in definition.continuations) and not 'J':
+            print(f'Unsupported {definition.name} Application Type: "{application_type}"')
+            print(f'Supported application types for {definition.name} are: {definition.continuations}')
+            print(f'Record: {line}')
             return False
         else:
           raise ValueError("no hasattr(self.definition, 'app_idx')")
 
     # read the record into a record object based on identifier
-    self.fields = self.definition.read(line, self.primary())
-    if not self.fields:
+    fields = definition.read(line, primary)
+    if not fields:
       return False
 
+    # only a line that was accepted changes the record
+    self.raw = line
+    self.ident = ident
+    self.definition = definition
+    self.continuation = continuation
+    self.fields = fields
     return True
 
   def decode(self, output=True):
-- 
2.43.0


From bdf7a0841dc2eb5208cacaea89a51e6ee659e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:01 +0000
Subject: [PATCH 05/16] fix: reject unsupported continuation records instead of
 raising

A continuation record with an unsupported application (or restriction) type
is rejected by every other record type, here it aborted reading the file.
---
 src/arinc424/definitions/EnrouteAirways.py            | 2 +-
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 4 ++--
 src/arinc424/definitions/EnrouteCommunications.py     | 2 +-
 src/arinc424/definitions/HeliportCommunications.py    | 2 +-
 src/arinc424/definitions/PathPoint.py                 | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index 7e31bd9..a1f6d17 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -27,7 +27,7 @@ class EnrouteAirways():
       case 'Q':
         return self.read_flight_plan1(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.1.6.1 Enroute Airways Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index d681e20..3a0c0fa 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -28,7 +28,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.primary_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
     else:
       match application:
         case 'AE':
@@ -38,7 +38,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.cont_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
 
   # 4.1.21.1 Enroute Airways Restriction Altitude Exclusion Primary Records
   #
diff --git a/src/arinc424/definitions/EnrouteCommunications.py b/src/arinc424/definitions/EnrouteCommunications.py
index adb72cc..37ac2b7 100644
--- a/src/arinc424/definitions/EnrouteCommunications.py
+++ b/src/arinc424/definitions/EnrouteCommunications.py
@@ -25,7 +25,7 @@ class EnrouteCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('{}\n{}\n{}'.format("Unknown Application", application, line))
+        return []
 
   # 4.1.23.1 Enroute Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/HeliportCommunications.py b/src/arinc424/definitions/HeliportCommunications.py
index 791f6e5..4a414ae 100644
--- a/src/arinc424/definitions/HeliportCommunications.py
+++ b/src/arinc424/definitions/HeliportCommunications.py
@@ -25,7 +25,7 @@ class HeliportCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.2.5.1 Heliport Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/PathPoint.py b/src/arinc424/definitions/PathPoint.py
index 17ec3fc..d585d06 100644
--- a/src/arinc424/definitions/PathPoint.py
+++ b/src/arinc424/definitions/PathPoint.py
@@ -23,7 +23,7 @@ class PathPoint():
       case 'E':
         return self.read_cont(line)
       case _:
-        raise ValueError("bad path point", line[self.app_idx])
+        return []
 
   # 4.1.28.1 Path Point Primary Records
   def read_primary(self, r):
-- 
2.43.0


From 531d3f7237c5fa91eb8fe28befc0f1456706166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:01 +0000
Subject: [PATCH 06/16] fix: do not terminate the process on an unsupported
 VOR/NDB frequency

---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 6b40cf6..7c3d5aa 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -494,7 +494,7 @@ def field_034(value, record):
     if value.isnumeric() is False:
       print(f'Unsupported VOR/NDB Frequency: "{value}"')
       print(f'from record type "{record.ident}": "{record.raw}"')
-      exit()
+      return f'Unsupported Value: "{value}"'
     else:
       return "{:.2f}".format(float(value)/100)
   return value
-- 
2.43.0


From d221f8683d57a682e1aa0c139e5f9974a4cbad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:01 +0000
Subject: [PATCH 07/16] fix: decode an altitude of zero as 0 ft

---
 src/arinc424/decoder.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 7c3d5aa..c0f87ef 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -463,12 +463,12 @@ def field_028(value, record):
 
 # 5.29 Altitude Description (ALT DESC)
 def field_029(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.30 Altitude/Minimum Altitude
 def field_030(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.31 File Record Number (FRN)
@@ -651,7 +651,7 @@ def field_047(value, record):
 
 # 5.48 Localizer Position (LOC FR RW END Azimuth/Back Azimuth Position (AZ/BAZ FR RWEND)
 def field_048(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.49 Localizer/Azimuth Position Reference (@, +, -)
@@ -670,7 +670,7 @@ def field_049(value, record):
 
 # 5.50 Glide Slope Position (GS FR RW THRES) Elevation Position (EL FR RW THRES)
 def field_050(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.51 Localizer Width (LOC WIDTH)
@@ -685,13 +685,13 @@ def field_052(value, record):
 
 # 5.53 Transition Altitude/Level (TRANS ALTITUDE/LEVEL)
 def field_053(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.54 Longest Runway (LONGEST RWY)
 def field_054(value, record):
   if value.isnumeric():
-    return value.lstrip('0')+"00" + " ft"
+    return ((value + "00").lstrip('0') or '0') + " ft"
   else:
     return value
 
@@ -803,7 +803,7 @@ def field_072(value, record):
 
 # 5.73 Speed Limit Altitude
 def field_073(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.74 Component Elevation (GS ELEV, EL ELEV, AZ ELEV, BAZ ELEV)
@@ -881,7 +881,7 @@ def field_085(value, record):
 
 # 5.86 Cruise Altitude
 def field_086(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.87 Terminal/Alternate Airport (TERM/ALT ARPT)
@@ -939,7 +939,7 @@ def field_091(value, record):
 
 # 5.92 Elevation (FAC ELEV)
 def field_092(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.93 Facility Characteristics (FAC CHAR)
@@ -1219,7 +1219,7 @@ def field_122(value, record):
 
 # 5.123 FIR/UIR ATC Reporting Units Altitude (RUA)
 def field_123(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.124 FIR/UIR Entry Report (ENTRY)
@@ -1239,7 +1239,7 @@ def field_126(value, record):
 
 # 5.127 Maximum Altitude (MAX ALT)
 def field_127(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.128 Restrictive Airspace Type (REST TYPE)
@@ -1342,7 +1342,7 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
@@ -1412,7 +1412,7 @@ def field_160(value, record):
 
 # 5.161 Restriction Altitude (REST ALT)
 def field_161(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.162 Step Climb Indicator (STEP)
@@ -1563,7 +1563,7 @@ def field_183(value, record):
 
 # 5.184 Communication Altitude (COMM ALTITUDE)
 def field_184(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.185 Sector Facility (SEC FAC)
@@ -1736,7 +1736,7 @@ def field_208(value, record):
 
 # 5.209 Altitude Limitation (ALT LIMIT)
 def field_209(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.210 Sequence End Indicator (SEQ END)
@@ -1891,7 +1891,7 @@ def field_239(value, record):
 
 # 5.240 Altitude (ALT)
 def field_240(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.241 Fix Related Transition Code (FRT Code)
-- 
2.43.0


From 2b9b2429561e667fe3b65eeea7baf2f5e169d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:18 +0000
Subject: [PATCH 08/16] fix: decode the time zones from A to M and Z

---
 src/arinc424/decoder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index c0f87ef..708baa5 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1511,9 +1511,14 @@ def field_177(value, record):
 
 # 5.178 Time Zone
 def field_178(value, record):
-  if value[0].isalpha() and value[1:].isnumeric():
-    x = string.ascii_uppercase.index(value[0]) - 12
-    y = 'GMT +' + str(x) if x >= 0 else 'GMT -' + str(x)
+  # Z is GMT, A to M (there is no J) are behind and N to Y are ahead
+  if value[0] in 'ABCDEFGHIKLMNOPQRSTUVWXYZ' and value[1:].isnumeric():
+    if value[0] == 'Z':
+      y = 'GMT +0'
+    elif value[0] <= 'M':
+      y = 'GMT -' + str('ABCDEFGHIKLM'.index(value[0]) + 1)
+    else:
+      y = 'GMT +' + str(string.ascii_uppercase.index(value[0]) - 12)
     return y + ':' + str(value[1:])
   else:
     return f'Unsupported Value: "{value}"'
-- 
2.43.0


From fae0eac8561f020bc4a2195b3e7a7ad6cd99cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:10 +0000
Subject: [PATCH 09/16] fix: give repeated fields distinct names so json()
 keeps all of them

---
 src/arinc424/definitions/Alternate.py         | 12 ++++----
 .../definitions/EnrouteAirwaysRestriction.py  | 30 +++++++++----------
 src/arinc424/definitions/GeoReferenceTable.py |  8 ++---
 src/arinc424/definitions/PreferredRoute.py    |  8 ++---
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/arinc424/definitions/Alternate.py b/src/arinc424/definitions/Alternate.py
index bf69b02..49e2eb3 100644
--- a/src/arinc424/definitions/Alternate.py
+++ b/src/arinc424/definitions/Alternate.py
@@ -24,14 +24,14 @@ class Alternate():
       Field("Distance to Alternate (3)",              r[51:54],      decoder.field_251),
       Field("Alternate Type (3)",                     r[54],         decoder.field_252),
       Field("Additional Alternate Identifier Two",    r[55:65],      decoder.field_253),
-      Field("Distance to Alternate (3)",              r[67:70],      decoder.field_251),
-      Field("Alternate Type (3)",                     r[70],         decoder.field_252),
+      Field("Distance to Alternate (4)",              r[67:70],      decoder.field_251),
+      Field("Alternate Type (4)",                     r[70],         decoder.field_252),
       Field("Additional Alternate Identifier (3))",   r[71:81],      decoder.field_253),
-      Field("Distance to Alternate (4)",              r[83:86],      decoder.field_251),
-      Field("Alternate Type (4)",                     r[86],         decoder.field_252),
+      Field("Distance to Alternate (5)",              r[83:86],      decoder.field_251),
+      Field("Alternate Type (5)",                     r[86],         decoder.field_252),
       Field("Additional Alternate Identifier (4)",    r[87:97],      decoder.field_253),
-      Field("Distance to Alternate (5)",              r[99:102],     decoder.field_251),
-      Field("Alternate Type (5)",                     r[102],        decoder.field_252),
+      Field("Distance to Alternate (6)",              r[99:102],     decoder.field_251),
+      Field("Alternate Type (6)",                     r[102],        decoder.field_252),
       Field("Additional Alternate Identifier (5)",    r[103:113],    decoder.field_253),
       Field("File Record No",                         r[123:128],    decoder.field_031),
       Field("Cycle Date",                             r[128:132],    decoder.field_032)
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 3a0c0fa..63a771b 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -67,25 +67,25 @@ class EnrouteAirwaysRestriction():
       Field("Time Code",                               r[51],         decoder.field_131),
       Field("Time Indicator",                          r[52],         decoder.field_138),
       Field("Time of Operation",                       r[53:63],      decoder.field_195),
-      Field("Time of Operation",                       r[63:73],      decoder.field_195),
-      Field("Time of Operation",                       r[73:83],      decoder.field_195),
-      Field("Time of Operation",                       r[83:93],      decoder.field_195),
+      Field("Time of Operation (2)",                   r[63:73],      decoder.field_195),
+      Field("Time of Operation (3)",                   r[73:83],      decoder.field_195),
+      Field("Time of Operation (4)",                   r[83:93],      decoder.field_195),
       Field("Exclusion Indicator",                     r[93],         decoder.field_202),
       Field("Units of Altitude",                       r[94],         decoder.field_160),
       Field("Restriction Altitude",                    r[95:98],      decoder.field_161),
       Field("Block Indicator",                         r[98],         decoder.field_203),
-      Field("Restriction Altitude",                    r[99:102],     decoder.field_161),
-      Field("Block Indicator",                         r[102],        decoder.field_203),
-      Field("Restriction Altitude",                    r[103:106],    decoder.field_161),
-      Field("Block Indicator",                         r[106],        decoder.field_203),
-      Field("Restriction Altitude",                    r[107:110],    decoder.field_161),
-      Field("Block Indicator",                         r[110],        decoder.field_203),
-      Field("Restriction Altitude",                    r[111:114],    decoder.field_161),
-      Field("Block Indicator",                         r[114],        decoder.field_203),
-      Field("Restriction Altitude",                    r[115:118],    decoder.field_161),
-      Field("Block Indicator",                         r[118],        decoder.field_203),
-      Field("Restriction Altitude",                    r[119:122],    decoder.field_161),
-      Field("Block Indicator",                         r[122],        decoder.field_203),
+      Field("Restriction Altitude (2)",                r[99:102],     decoder.field_161),
+      Field("Block Indicator (2)",                     r[102],        decoder.field_203),
+      Field("Restriction Altitude (3)",                r[103:106],    decoder.field_161),
+      Field("Block Indicator (3)",                     r[106],        decoder.field_203),
+      Field("Restriction Altitude (4)",                r[107:110],    decoder.field_161),
+      Field("Block Indicator (4)",                     r[110],        decoder.field_203),
+      Field("Restriction Altitude (5)",                r[111:114],    decoder.field_161),
+      Field("Block Indicator (5)",                     r[114],        decoder.field_203),
+      Field("Restriction Altitude (6)",                r[115:118],    decoder.field_161),
+      Field("Block Indicator (6)",                     r[118],        decoder.field_203),
+      Field("Restriction Altitude (7)",                r[119:122],    decoder.field_161),
+      Field("Block Indicator (7)",                     r[122],        decoder.field_203),
       Field("File Record No",                          r[123:128],    decoder.field_031),
       Field("Cycle Date",                              r[128:132],    decoder.field_032)
     ]
diff --git a/src/arinc424/definitions/GeoReferenceTable.py b/src/arinc424/definitions/GeoReferenceTable.py
index ca5a349..fcf8a19 100644
--- a/src/arinc424/definitions/GeoReferenceTable.py
+++ b/src/arinc424/definitions/GeoReferenceTable.py
@@ -53,10 +53,10 @@ class GeoReferenceTable():
       Field("Preferred Route Use Ind (3)",        r[74:76],       decoder.field_220),
       Field("Preferred Route Ident (4)",          r[76:86],       decoder.field_008),
       Field("Preferred Route Use Ind (4)",        r[86:88],       decoder.field_220),
-      Field("Preferred Route Ident (4)",          r[88:98],       decoder.field_008),
-      Field("Preferred Route Use Ind (4)",        r[98:100],      decoder.field_220),
-      Field("Preferred Route Ident (5)",          r[100:110],     decoder.field_008),
-      Field("Preferred Route Use Ind (5)",        r[110:112],     decoder.field_220),
+      Field("Preferred Route Ident (5)",          r[88:98],       decoder.field_008),
+      Field("Preferred Route Use Ind (5)",        r[98:100],      decoder.field_220),
+      Field("Preferred Route Ident (6)",          r[100:110],     decoder.field_008),
+      Field("Preferred Route Use Ind (6)",        r[110:112],     decoder.field_220),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
     ]
diff --git a/src/arinc424/definitions/PreferredRoute.py b/src/arinc424/definitions/PreferredRoute.py
index cda4b69..3a8b040 100644
--- a/src/arinc424/definitions/PreferredRoute.py
+++ b/src/arinc424/definitions/PreferredRoute.py
@@ -50,11 +50,11 @@ class PreferredRoute():
       Field("Level",                      r[60],          decoder.field_019),
       Field("Route Type",                 r[61],          decoder.field_007),
       Field("Initial Airport/Fix",        r[62:67],       decoder.field_194),
-      Field("ICAO Code",                  r[67:69],       decoder.field_014),
-      Field("Section Code",               r[69:71],       decoder.field_004),
+      Field("ICAO Code (2)",              r[67:69],       decoder.field_014),
+      Field("Section Code (3)",           r[69:71],       decoder.field_004),
       Field("Terminus Airport/Fix",       r[71:76],       decoder.field_194),
-      Field("ICAO Code",                  r[76:78],       decoder.field_014),
-      Field("Section Code",               r[78:80],       decoder.field_004),
+      Field("ICAO Code (3)",              r[76:78],       decoder.field_014),
+      Field("Section Code (4)",           r[78:80],       decoder.field_004),
       Field("Minimum Altitude",           r[80:85],       decoder.field_030),
       Field("Maximum Altitude",           r[85:90],       decoder.field_127),
       Field("Time Code",                  r[90],          decoder.field_131),
-- 
2.43.0


From 6ea240e174ba48b0a6db0800b35149b32d0157d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:09 +0000
Subject: [PATCH 10/16] fix: read misaligned fields from their own columns

These fields repeated a column of the neighbouring field, or showed a
continuation number/application type from other columns than those that
classify the record.
---
 src/arinc424/definitions/ControlledAirspace.py  | 4 ++--
 src/arinc424/definitions/GLS.py                 | 4 ++--
 src/arinc424/definitions/HoldingPattern.py      | 2 +-
 src/arinc424/definitions/NDBNavaid.py           | 4 ++--
 src/arinc424/definitions/RestrictiveAirspace.py | 4 ++--
 src/arinc424/definitions/VHFNavaid.py           | 8 ++++----
 6 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/arinc424/definitions/ControlledAirspace.py b/src/arinc424/definitions/ControlledAirspace.py
index b751951..a8466db 100644
--- a/src/arinc424/definitions/ControlledAirspace.py
+++ b/src/arinc424/definitions/ControlledAirspace.py
@@ -39,7 +39,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
@@ -73,7 +73,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
diff --git a/src/arinc424/definitions/GLS.py b/src/arinc424/definitions/GLS.py
index 40f4f7c..df940e8 100644
--- a/src/arinc424/definitions/GLS.py
+++ b/src/arinc424/definitions/GLS.py
@@ -35,7 +35,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("GLS Channel",                         r[22:27],      decoder.field_244),
           Field("Runway Identifier",                   r[27:32],      decoder.field_046),
           Field("GLS Approach Bearing",                r[51:55],      decoder.field_047),
@@ -64,7 +64,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("Application Type",                    r[22],         decoder.field_091),
           Field("File Record No",                      r[123:128],    decoder.field_031),
           Field("Cycle Date",                          r[128:132],    decoder.field_032)
diff --git a/src/arinc424/definitions/HoldingPattern.py b/src/arinc424/definitions/HoldingPattern.py
index 72008a9..dd9eba0 100644
--- a/src/arinc424/definitions/HoldingPattern.py
+++ b/src/arinc424/definitions/HoldingPattern.py
@@ -77,7 +77,7 @@ class HoldingPattern():
       Field("ICAO Code (2)",                       r[34:36],      decoder.field_014),
       Field("Section Code (2)",                    r[36:38],      decoder.field_004),
       Field("Continuation Record No",              r[38],         decoder.field_016),
-      Field("Application Type",                    r[40],         decoder.field_091),
+      Field("Application Type",                    r[39],         decoder.field_091),
       Field("Notes",                               r[40:109],     decoder.field_061),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
diff --git a/src/arinc424/definitions/NDBNavaid.py b/src/arinc424/definitions/NDBNavaid.py
index 7b41a3f..ec30d70 100644
--- a/src/arinc424/definitions/NDBNavaid.py
+++ b/src/arinc424/definitions/NDBNavaid.py
@@ -101,8 +101,8 @@ class NDBNavaid():
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("Application Type",                r[22],        decoder.field_091),
       Field("FIR Identifier",                  r[23:27],     decoder.field_116),
-      Field("UIR Identifier",                  r[28:31],     decoder.field_116),
-      Field("Start/End Indicator",             r[32],        decoder.field_152),
+      Field("UIR Identifier",                  r[27:31],     decoder.field_116),
+      Field("Start/End Indicator",             r[31],        decoder.field_152),
       Field("Start/End Date",                  r[32:43],     decoder.field_153),
       Field("File Record No",                  r[123:128],   decoder.field_031),
       Field("Cycle Date",                      r[128:132],   decoder.field_032)
diff --git a/src/arinc424/definitions/RestrictiveAirspace.py b/src/arinc424/definitions/RestrictiveAirspace.py
index b3dc6b0..1c8da2f 100644
--- a/src/arinc424/definitions/RestrictiveAirspace.py
+++ b/src/arinc424/definitions/RestrictiveAirspace.py
@@ -75,7 +75,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
@@ -124,7 +124,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index 6057783..1b5b9e3 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -120,8 +120,8 @@ class VHFNavaid():
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Application Type",            r[22],         decoder.field_091),
       Field("FIR Identifier",              r[23:27],      decoder.field_116),
-      Field("UIR Identifier",              r[28:31],      decoder.field_116),
-      Field("Start/End Indicator",         r[32],         decoder.field_152),
+      Field("UIR Identifier",              r[27:31],      decoder.field_116),
+      Field("Start/End Indicator",         r[31],         decoder.field_152),
       Field("Start/End Date",              r[32:43],      decoder.field_153),
       Field("File Record No",              r[123:128],    decoder.field_031),
       Field("Cycle Date",                  r[128:132],    decoder.field_032)
@@ -188,13 +188,13 @@ class VHFNavaid():
       Field("Altitude Limitation (3)",     r[69:75],      decoder.field_209),
       Field("Sector From/Sector To (4)",   r[75:77],      decoder.field_207),
       Field("Distance Description (4)",    r[77],         decoder.field_187),
-      Field("Distance Limitation (4)",     r[79:84],      decoder.field_208),
+      Field("Distance Limitation (4)",     r[78:84],      decoder.field_208),
       Field("Altitude Description (4)",    r[84],         decoder.field_029),
       Field("Altitude Limitation (4)",     r[85:91],      decoder.field_209),
       Field("Sector From/Sector To (5)",   r[91:93],      decoder.field_207),
       Field("Distance Description (5)",    r[93],         decoder.field_187),
       Field("Distance Limitation (5)",     r[94:100],     decoder.field_208),
-      Field("Altitude Description (5)",    r[101],        decoder.field_029),
+      Field("Altitude Description (5)",    r[100],        decoder.field_029),
       Field("Altitude Limitation (5)",     r[101:107],    decoder.field_209),
       Field("Sequence End Indicator",      r[107],        decoder.field_210),
       Field("File Record No",              r[123:128],    decoder.field_031),
-- 
2.43.0


From b720c499dc5a5d1aecdddab50690c19e5b60c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:09 +0000
Subject: [PATCH 11/16] fix: do not cut off the first or last characters of
 fields

---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 6 +++---
 src/arinc424/definitions/MLS.py                       | 2 +-
 src/arinc424/definitions/NDBNavaid.py                 | 4 ++--
 src/arinc424/definitions/RestrictiveAirspace.py       | 2 +-
 src/arinc424/definitions/SIDSTARApproach.py           | 4 ++--
 src/arinc424/definitions/VHFNavaid.py                 | 2 +-
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 63a771b..8098895 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -138,13 +138,13 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
       Field("Start Fix Identifier",                    r[18:23],      decoder.field_013),
       Field("Start Fix ICAO Code",                     r[23:25],      decoder.field_014),
-      Field("Start Fix Section Code",                  r[25],         decoder.field_004),
+      Field("Start Fix Section Code",                  r[25:27],      decoder.field_004),
       Field("End Fix Identifier",                      r[27:32],      decoder.field_013),
       Field("End Fix ICAO Code",                       r[32:34],      decoder.field_014),
       Field("End Fix Section Code",                    r[34:36],      decoder.field_004),
@@ -161,7 +161,7 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
diff --git a/src/arinc424/definitions/MLS.py b/src/arinc424/definitions/MLS.py
index 37a7df0..2fbc7a2 100644
--- a/src/arinc424/definitions/MLS.py
+++ b/src/arinc424/definitions/MLS.py
@@ -87,7 +87,7 @@ class MLS():
       Field("Back Azimuth Proportional Angle Left", r[86:89],     decoder.field_168),
       Field("Back Azimuth Coverage Right",         r[89:92],      decoder.field_172),
       Field("Back Azimuth Coverage Left",          r[92:95],      decoder.field_172),
-      Field("Back Azimuth True Bearing",           r[95:98],      decoder.field_094),
+      Field("Back Azimuth True Bearing",           r[95:100],     decoder.field_094),
       Field("Back Azimuth Bearing Source",         r[100],        decoder.field_095),
       Field("Azimuth True Bearing",                r[101:106],    decoder.field_094),
       Field("Azimuth Bearing Source",              r[106],        decoder.field_095),
diff --git a/src/arinc424/definitions/NDBNavaid.py b/src/arinc424/definitions/NDBNavaid.py
index ec30d70..f2e401d 100644
--- a/src/arinc424/definitions/NDBNavaid.py
+++ b/src/arinc424/definitions/NDBNavaid.py
@@ -43,7 +43,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
@@ -120,7 +120,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
diff --git a/src/arinc424/definitions/RestrictiveAirspace.py b/src/arinc424/definitions/RestrictiveAirspace.py
index 1c8da2f..b563fcb 100644
--- a/src/arinc424/definitions/RestrictiveAirspace.py
+++ b/src/arinc424/definitions/RestrictiveAirspace.py
@@ -51,7 +51,7 @@ class RestrictiveAirspace():
       Field("Arc Origin Longitude",                r[60:70],      decoder.field_037),
       Field("Arc Distance",                        r[70:74],      decoder.field_119),
       Field("Arc Bearing",                         r[74:78],      decoder.field_120),
-      Field("Lower Limit",                         r[82:86],      decoder.field_121),
+      Field("Lower Limit",                         r[81:86],      decoder.field_121),
       Field("Unit Indicator",                      r[86],         decoder.field_133),
       Field("Upper Limit",                         r[87:92],      decoder.field_121),
       Field("Unit Indicator (2)",                  r[92],         decoder.field_133),
diff --git a/src/arinc424/definitions/SIDSTARApproach.py b/src/arinc424/definitions/SIDSTARApproach.py
index b773098..5969a07 100644
--- a/src/arinc424/definitions/SIDSTARApproach.py
+++ b/src/arinc424/definitions/SIDSTARApproach.py
@@ -68,7 +68,7 @@ class SIDSTARApproach():
       Field("Vertical Angle",                             r[102:106],     decoder.field_070),
       Field("Center Fix or TAA Procedure Turn Indicator", r[106:111],     decoder.field_144),  # or 271
       Field("Multiple Code or TAA Sector Identifier",     r[111],         decoder.field_130),  # or 272
-      Field("ICAO Code (4)",                              r[112:113],     decoder.field_014),
+      Field("ICAO Code (4)",                              r[112:114],     decoder.field_014),
       Field("Section Code (3)",                           r[114:116],     decoder.field_004),
       Field("GNSS/FMS Indication",                        r[116],         decoder.field_222),
       Field("Speed Limit Description",                    r[117],         decoder.field_261),
@@ -134,7 +134,7 @@ class SIDSTARApproach():
       Field("Continuation Record No",                     r[38],          decoder.field_016),
       Field("Application Type",                           r[39],          decoder.field_091),
       Field("Start/End Indicator",                        r[40],          decoder.field_152),
-      Field("Start/End Date",                             r[41:45],       decoder.field_153),
+      Field("Start/End Date",                             r[41:52],       decoder.field_153),
       Field("Leg Distance",                               r[74:78],       decoder.field_260),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index 1b5b9e3..6cfba42 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -54,7 +54,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
-- 
2.43.0


From e14654fe7354c12863bd40af891b5c1659a567e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:09 +0000
Subject: [PATCH 12/16] fix: do not decode restrictive airspace types as
 sequence numbers

---
 src/arinc424/definitions/EnrouteAirways.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index a1f6d17..f6e6fc3 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -102,15 +102,15 @@ class EnrouteAirways():
       Field("Restr. Air Designation",                  r[69:79],      decoder.field_129),
       Field("Restr. Air Multiple Code",                r[79],         decoder.field_130),
       Field("Restr. Air ICAO Code (2)",                r[80:82],      decoder.field_014),
-      Field("Restr. Air Type (2)",                     r[82],         decoder.field_012),
+      Field("Restr. Air Type (2)",                     r[82],         decoder.field_128),
       Field("Restr. Air Designation (2)",              r[83:93],      decoder.field_129),
       Field("Restr. Air Multiple Code (2)",            r[93],         decoder.field_130),
       Field("Restr. Air ICAO Code (3)",                r[94:96],      decoder.field_014),
-      Field("Restr. Air Type (3)",                     r[96],         decoder.field_012),
+      Field("Restr. Air Type (3)",                     r[96],         decoder.field_128),
       Field("Restr. Air Designation (3)",              r[97:107],     decoder.field_129),
       Field("Restr. Air Multiple Code (3)",            r[107],        decoder.field_130),
       Field("Restr. Air ICAO Code (4)",                r[108:110],    decoder.field_014),
-      Field("Restr. Air Type (4)",                     r[110],        decoder.field_012),
+      Field("Restr. Air Type (4)",                     r[110],        decoder.field_128),
       Field("Restr. Air Designation (4)",              r[111:121],    decoder.field_129),
       Field("Restr. Air Link Continuation",            r[122],        decoder.field_174),
       Field("File Record No",                          r[123:128],    decoder.field_031),
-- 
2.43.0


From 05678f44da816a30f6946e0399d3e52b0d2ae8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:30 +0000
Subject: [PATCH 13/16] fix: read all four intermediate fixes of flight
 planning records

Only fragments of them were read, under names that json() merged.
---
 src/arinc424/definitions/FlightPlanning.py | 26 +++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/arinc424/definitions/FlightPlanning.py b/src/arinc424/definitions/FlightPlanning.py
index 570bb6c..7cec346 100644
--- a/src/arinc424/definitions/FlightPlanning.py
+++ b/src/arinc424/definitions/FlightPlanning.py
@@ -102,14 +102,24 @@ class FlightPlanning():
       Field("Application Type",                       r[70],          decoder.field_091),
       Field("Intermediate Fix Identifier",            r[71:76],       decoder.field_013),
       Field("ICAO Code (5)",                          r[76:78],       decoder.field_014),
-      Field("Section Code (5)",                       r[91:93],       decoder.field_004),
-      Field("Intermediate Distance",                  r[106:109],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[109],         decoder.field_241),
-      Field("Intermediate Fix Identifier",            r[110:115],     decoder.field_013),
-      Field("ICAO Code (6)",                          r[115:117],     decoder.field_014),
-      Field("Section Code (6)",                       r[118],         decoder.field_004),
-      Field("Intermediate Distance",                  r[119:122],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[122],         decoder.field_241),
+      Field("Section Code (5)",                       r[78:80],       decoder.field_004),
+      Field("Intermediate Distance",                  r[80:83],       decoder.field_231),
+      Field("Fix Related Transition Code",            r[83],          decoder.field_241),
+      Field("Intermediate Fix Identifier (2)",        r[84:89],       decoder.field_013),
+      Field("ICAO Code (6)",                          r[89:91],       decoder.field_014),
+      Field("Section Code (6)",                       r[91:93],       decoder.field_004),
+      Field("Intermediate Distance (2)",              r[93:96],       decoder.field_231),
+      Field("Fix Related Transition Code (2)",        r[96],          decoder.field_241),
+      Field("Intermediate Fix Identifier (3)",        r[97:102],      decoder.field_013),
+      Field("ICAO Code (7)",                          r[102:104],     decoder.field_014),
+      Field("Section Code (7)",                       r[104:106],     decoder.field_004),
+      Field("Intermediate Distance (3)",              r[106:109],     decoder.field_231),
+      Field("Fix Related Transition Code (3)",        r[109],         decoder.field_241),
+      Field("Intermediate Fix Identifier (4)",        r[110:115],     decoder.field_013),
+      Field("ICAO Code (8)",                          r[115:117],     decoder.field_014),
+      Field("Section Code (8)",                       r[117:119],     decoder.field_004),
+      Field("Intermediate Distance (4)",              r[119:122],     decoder.field_231),
+      Field("Fix Related Transition Code (4)",        r[122],         decoder.field_241),
       Field("File Record No",                         r[123:128],     decoder.field_031),
       Field("Cycle Date",                             r[128:132],     decoder.field_032)
     ]
-- 
2.43.0


From ec45e68e4a478d23608345f2240a268c99f77a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:30 +0000
Subject: [PATCH 14/16] fix: decode company route fields with their own field
 definitions

The columns from 52 on had the decoders of an airspace record, so a route
was decoded as a boundary, and an airspace field repeated columns 10 to 14.
---
 src/arinc424/definitions/CompanyRoute.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/arinc424/definitions/CompanyRoute.py b/src/arinc424/definitions/CompanyRoute.py
index 196dc02..692511d 100644
--- a/src/arinc424/definitions/CompanyRoute.py
+++ b/src/arinc424/definitions/CompanyRoute.py
@@ -16,7 +16,6 @@ class CompanyRoute():
       Field("Section Code",                       r[4:6],         decoder.field_004),
       Field("From Airport/Fix",                   r[6:11],        decoder.field_075),
       Field("ICAO Code",                          r[12:14],       decoder.field_014),
-      Field("Airspace Center",                    r[9:14],        decoder.field_214),
       Field("Section Code (2)",                   r[14:16],       decoder.field_004),
       Field("To Airport/Fix",                     r[16:21],       decoder.field_075),
       Field("ICAO Code (2)",                      r[22:24],       decoder.field_014),
@@ -26,17 +25,17 @@ class CompanyRoute():
       Field("VIA",                                r[39:42],       decoder.field_077),
       Field("SID/STAR/App/Awy",                   r[42:48],       decoder.field_078),
       Field("Area Code",                          r[48:51],       decoder.field_003),
-      Field("To Fix",                             r[51:57],       decoder.field_132),
-      Field("ICAO Code",                          r[57:59],       decoder.field_118),
-      Field("Section Code (4)",                   r[59],          decoder.field_036),
-      Field("RUnway Trans",                       r[61:66],       decoder.field_037),
-      Field("ENRT Trans",                         r[66:71],       decoder.field_036),
-      Field("Cruise Altitude",                    r[72:77],       decoder.field_037),
-      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_119),
-      Field("ICAO Code",                          r[81:83],       decoder.field_120),
-      Field("Alternate Distance",                 r[83:87],       decoder.field_211),
-      Field("Cost Index",                         r[87:90],       decoder.field_121),
-      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_133),
+      Field("To Fix",                             r[51:57],       decoder.field_083),
+      Field("ICAO Code (3)",                      r[57:59],       decoder.field_014),
+      Field("Section Code (4)",                   r[59:61],       decoder.field_004),
+      Field("RUnway Trans",                       r[61:66],       decoder.field_084),
+      Field("ENRT Trans",                         r[66:71],       decoder.field_085),
+      Field("Cruise Altitude",                    r[72:77],       decoder.field_086),
+      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_087),
+      Field("ICAO Code (4)",                      r[81:83],       decoder.field_014),
+      Field("Alternate Distance",                 r[83:87],       decoder.field_088),
+      Field("Cost Index",                         r[87:90],       decoder.field_089),
+      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_148),
       Field("File Record No",                     r[123:128],     decoder.field_031),
       Field("Cycle Date",                         r[128:132],     decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From 56195f1d4a7962d8a088aeb06e43231cfd88b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:30 +0000
Subject: [PATCH 15/16] fix: skip subfolders when reading a folder

---
 src/arinc424/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/__init__.py b/src/arinc424/__init__.py
index 9f9395b..714eb2d 100644
--- a/src/arinc424/__init__.py
+++ b/src/arinc424/__init__.py
@@ -51,4 +51,5 @@ def read_folder(path):
   Parse all ARINC-424 records for every file in a given folder.
   """
   for file in os.scandir(path):
-    read_file(os.path.join(path, file.name))
+    if file.is_file():
+      read_file(os.path.join(path, file.name))
-- 
2.43.0


From 2995d0d0736d35f485c1912fc529f46e90eefdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:48 +0000
Subject: [PATCH 16/16] fix: do not decode blank leg times and hyphenated
 identifiers as None

---
 src/arinc424/decoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 708baa5..8042367 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -204,8 +204,7 @@ def field_008(value, record):
 
 # 5.9 SID/STAR Route Identifier (SID/STAR IDENT)
 def field_009(value, record):
-  if value.strip().isalnum():
-    return value
+  return value
 
 
 # 5.10 Approach Route Identifier (APPROACH IDENT)
@@ -752,7 +751,7 @@ def field_064(value, record):
 # 5.65 Leg Time (LEG TIME)
 def field_065(value, record):
   if value.strip() == '':
-    return
+    return value
 
   try:
     return '{}m {}s'.format(int(value[0]), int(value[1])*6)
-- 
2.43.0

