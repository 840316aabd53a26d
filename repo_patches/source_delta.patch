From 32980d80d9de747ea7eb17304e08c27a53631a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:06 +0000
Subject: [PATCH 01/27] fix: take every column from the trimmed record, so
 leading whitespace does not shift the fields

---
 src/arinc424/record.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index c962139..ef2ef68 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -123,8 +123,8 @@ class Record():
     # remove any surrounding whitespace
     self.raw = line.strip()
 
-    identifier_1 = line[4:6]
-    identifier_2 = line[4] + line[12]
+    identifier_1 = self.raw[4:6]
+    identifier_2 = self.raw[4] + self.raw[12]
 
     if identifier_1 in records:
       self.ident = identifier_1
@@ -157,7 +157,7 @@ class Record():
           raise ValueError("no hasattr(self.definition, 'app_idx')")
 
     # read the record into a record object based on identifier
-    self.fields = self.definition.read(line, self.primary())
+    self.fields = self.definition.read(self.raw, self.primary())
     if not self.fields:
       return False
 
-- 
2.43.0


From 9560aa6cd6a360c37c3b33195939f0bf1f99ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:09 +0000
Subject: [PATCH 02/27] fix: a record object keeps nothing of an earlier or
 rejected line when it is read again

---
 src/arinc424/record.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index ef2ef68..11b533b 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -89,6 +89,9 @@ records['UR'] = RestrictiveAirspace()
 class Record():
 
   def __init__(self):
+    self.reset()
+
+  def reset(self):
     self.ident = ''
     self.raw = ''
     self.continuation = ''
@@ -117,6 +120,9 @@ class Record():
 
   def read(self, line) -> bool:
 
+    # forget whatever was read before
+    self.reset()
+
     if self.validate(line) is False:
       return False
 
@@ -131,6 +137,7 @@ class Record():
     elif identifier_2 in records:
       self.ident = identifier_2
     else:
+      self.reset()
       return False
 
     self.definition = records[self.ident]
@@ -142,6 +149,7 @@ class Record():
         print(f'Unsupported {self.definition.name} Continuation Record Number: "{self.continuation}"')
         print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
         print(f'Record: {self.raw}')
+        self.reset()
         return False
 
       # validate the continuation record type
@@ -159,6 +167,7 @@ class Record():
     # read the record into a record object based on identifier
     self.fields = self.definition.read(self.raw, self.primary())
     if not self.fields:
+      self.reset()
       return False
 
     return True
-- 
2.43.0


From da66211be79839b599fafc12ab8d97fd0224d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:13 +0000
Subject: [PATCH 03/27] fix: only accept the digits 0-9 in the file record
 number and cycle date

---
 src/arinc424/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 11b533b..739edcc 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -114,7 +114,7 @@ class Record():
       return False
     if len(line) != 132:
       return False
-    if line[-9:].isnumeric() is False:
+    if line[-9:].isascii() is False or line[-9:].isdigit() is False:
       return False
     return True
 
-- 
2.43.0


From d626bfe367b405d968860d8f242e43c3efbd7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:17 +0000
Subject: [PATCH 04/27] fix: only accept the continuation record numbers 0-9
 and A-Z

---
 src/arinc424/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 739edcc..971753f 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -1,4 +1,5 @@
 import json
+import string
 from collections import defaultdict
 from prettytable import PrettyTable
 
@@ -145,7 +146,7 @@ class Record():
     # validate the continuation record number
     if hasattr(self.definition, 'cont_idx'):
       self.continuation = self.raw[self.definition.cont_idx]
-      if self.continuation.isalnum() == False:
+      if self.continuation not in string.digits + string.ascii_uppercase:
         print(f'Unsupported {self.definition.name} Continuation Record Number: "{self.continuation}"')
         print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
         print(f'Record: {self.raw}')
-- 
2.43.0


From 64c445d92a997b3e16d6f9fc22434f9b04b5131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:20 +0000
Subject: [PATCH 05/27] fix: reject a record with an unsupported application
 type instead of raising from read()

---
 src/arinc424/definitions/EnrouteAirways.py            | 2 +-
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 4 ++--
 src/arinc424/definitions/EnrouteCommunications.py     | 2 +-
 src/arinc424/definitions/HeliportCommunications.py    | 2 +-
 src/arinc424/definitions/PathPoint.py                 | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index 7e31bd9..a1f6d17 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -27,7 +27,7 @@ class EnrouteAirways():
       case 'Q':
         return self.read_flight_plan1(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.1.6.1 Enroute Airways Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 1006ca4..cb22381 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -26,7 +26,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.primary_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
     else:
       match application:
         case 'AE':
@@ -36,7 +36,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.cont_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
 
   # 4.1.21.1 Enroute Airways Restriction Altitude Exclusion Primary Records
   #
diff --git a/src/arinc424/definitions/EnrouteCommunications.py b/src/arinc424/definitions/EnrouteCommunications.py
index adb72cc..37ac2b7 100644
--- a/src/arinc424/definitions/EnrouteCommunications.py
+++ b/src/arinc424/definitions/EnrouteCommunications.py
@@ -25,7 +25,7 @@ class EnrouteCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('{}\n{}\n{}'.format("Unknown Application", application, line))
+        return []
 
   # 4.1.23.1 Enroute Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/HeliportCommunications.py b/src/arinc424/definitions/HeliportCommunications.py
index 791f6e5..4a414ae 100644
--- a/src/arinc424/definitions/HeliportCommunications.py
+++ b/src/arinc424/definitions/HeliportCommunications.py
@@ -25,7 +25,7 @@ class HeliportCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.2.5.1 Heliport Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/PathPoint.py b/src/arinc424/definitions/PathPoint.py
index 17ec3fc..d585d06 100644
--- a/src/arinc424/definitions/PathPoint.py
+++ b/src/arinc424/definitions/PathPoint.py
@@ -23,7 +23,7 @@ class PathPoint():
       case 'E':
         return self.read_cont(line)
       case _:
-        raise ValueError("bad path point", line[self.app_idx])
+        return []
 
   # 4.1.28.1 Path Point Primary Records
   def read_primary(self, r):
-- 
2.43.0


From 39e3600369fcb72414df50ba28755898cc5f49f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:23 +0000
Subject: [PATCH 06/27] fix: tell primary from continuation Enroute Airways
 Restriction records

---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index cb22381..2b3b523 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -5,6 +5,8 @@ import arinc424.decoder as decoder
 # 4.1.21 Enroute Airways Restriction Records (EU)
 class EnrouteAirwaysRestriction():
 
+  cont_idx = 17
+  app_idx = 15
   continuations = ['AE', 'TC', 'NR']
   name = 'Enroute Airways'
 
-- 
2.43.0


From d6fd1d565bf8ee7d8ba656b436c3c9b043cfb30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 07/27] fix: raise ValueError for a bad VOR/NDB frequency
 instead of ending the process

---
 src/arinc424/decoder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 6b40cf6..7915c2d 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -492,9 +492,7 @@ def field_034(value, record):
   value = value.strip()
   if len(value) > 0:
     if value.isnumeric() is False:
-      print(f'Unsupported VOR/NDB Frequency: "{value}"')
-      print(f'from record type "{record.ident}": "{record.raw}"')
-      exit()
+      raise ValueError('Invalid VOR/NDB Frequency', value)
     else:
       return "{:.2f}".format(float(value)/100)
   return value
-- 
2.43.0


From b9dd1b4b2dac2b92dd01aa254bb564a344087f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:31 +0000
Subject: [PATCH 08/27] fix: decode the time zone letters A-M and Z

---
 src/arinc424/decoder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 7915c2d..559a34c 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1,6 +1,5 @@
 from collections import defaultdict
 import io
-import string
 
 
 class Field():
@@ -1509,10 +1508,11 @@ def field_177(value, record):
 
 # 5.178 Time Zone
 def field_178(value, record):
-  if value[0].isalpha() and value[1:].isnumeric():
-    x = string.ascii_uppercase.index(value[0]) - 12
-    y = 'GMT +' + str(x) if x >= 0 else 'GMT -' + str(x)
-    return y + ':' + str(value[1:])
+  # Z is GMT, A to M (there is no J) are -1 to -12, N to Y are +1 to +12
+  zones = 'MLKIHGFEDCBAZNOPQRSTUVWXY'
+  if value[0] in zones and value[1:].isnumeric():
+    x = zones.index(value[0]) - 12
+    return f'GMT {x:+d}:{value[1:]}'
   else:
     return f'Unsupported Value: "{value}"'
 
-- 
2.43.0


From bde6afc7a40c417d9a12965803484e5dcdd55224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:35 +0000
Subject: [PATCH 09/27] fix: decode an altitude or length of zero as 0 ft

---
 src/arinc424/decoder.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 559a34c..22c30e3 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -462,12 +462,12 @@ def field_028(value, record):
 
 # 5.29 Altitude Description (ALT DESC)
 def field_029(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.30 Altitude/Minimum Altitude
 def field_030(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.31 File Record Number (FRN)
@@ -648,7 +648,7 @@ def field_047(value, record):
 
 # 5.48 Localizer Position (LOC FR RW END Azimuth/Back Azimuth Position (AZ/BAZ FR RWEND)
 def field_048(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.49 Localizer/Azimuth Position Reference (@, +, -)
@@ -667,7 +667,7 @@ def field_049(value, record):
 
 # 5.50 Glide Slope Position (GS FR RW THRES) Elevation Position (EL FR RW THRES)
 def field_050(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.51 Localizer Width (LOC WIDTH)
@@ -682,13 +682,13 @@ def field_052(value, record):
 
 # 5.53 Transition Altitude/Level (TRANS ALTITUDE/LEVEL)
 def field_053(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.54 Longest Runway (LONGEST RWY)
 def field_054(value, record):
   if value.isnumeric():
-    return value.lstrip('0')+"00" + " ft"
+    return ((value + "00").lstrip('0') or '0') + " ft"
   else:
     return value
 
@@ -800,7 +800,7 @@ def field_072(value, record):
 
 # 5.73 Speed Limit Altitude
 def field_073(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.74 Component Elevation (GS ELEV, EL ELEV, AZ ELEV, BAZ ELEV)
@@ -878,7 +878,7 @@ def field_085(value, record):
 
 # 5.86 Cruise Altitude
 def field_086(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.87 Terminal/Alternate Airport (TERM/ALT ARPT)
@@ -936,7 +936,7 @@ def field_091(value, record):
 
 # 5.92 Elevation (FAC ELEV)
 def field_092(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.93 Facility Characteristics (FAC CHAR)
@@ -1216,7 +1216,7 @@ def field_122(value, record):
 
 # 5.123 FIR/UIR ATC Reporting Units Altitude (RUA)
 def field_123(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.124 FIR/UIR Entry Report (ENTRY)
@@ -1236,7 +1236,7 @@ def field_126(value, record):
 
 # 5.127 Maximum Altitude (MAX ALT)
 def field_127(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.128 Restrictive Airspace Type (REST TYPE)
@@ -1339,7 +1339,7 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
@@ -1409,7 +1409,7 @@ def field_160(value, record):
 
 # 5.161 Restriction Altitude (REST ALT)
 def field_161(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.162 Step Climb Indicator (STEP)
@@ -1561,7 +1561,7 @@ def field_183(value, record):
 
 # 5.184 Communication Altitude (COMM ALTITUDE)
 def field_184(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.185 Sector Facility (SEC FAC)
@@ -1734,7 +1734,7 @@ def field_208(value, record):
 
 # 5.209 Altitude Limitation (ALT LIMIT)
 def field_209(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.210 Sequence End Indicator (SEQ END)
@@ -1889,7 +1889,7 @@ def field_239(value, record):
 
 # 5.240 Altitude (ALT)
 def field_240(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.241 Fix Related Transition Code (FRT Code)
-- 
2.43.0


From 0eff7c1a3fed1d3ad8fcd49d29f616353611f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:38 +0000
Subject: [PATCH 10/27] fix: SID/STAR identifier and blank leg time decode to
 their text, not to None

---
 src/arinc424/decoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 22c30e3..44f15f4 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -203,8 +203,7 @@ def field_008(value, record):
 
 # 5.9 SID/STAR Route Identifier (SID/STAR IDENT)
 def field_009(value, record):
-  if value.strip().isalnum():
-    return value
+  return value
 
 
 # 5.10 Approach Route Identifier (APPROACH IDENT)
@@ -749,7 +748,7 @@ def field_064(value, record):
 # 5.65 Leg Time (LEG TIME)
 def field_065(value, record):
   if value.strip() == '':
-    return
+    return value
 
   try:
     return '{}m {}s'.format(int(value[0]), int(value[1])*6)
-- 
2.43.0


From ef56ef0f426a0012f7a38a5885752eee632831dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:44 +0000
Subject: [PATCH 11/27] fix: reject heliport terminal waypoint continuations of
 an unknown application type

---
 src/arinc424/definitions/HeliportTerminalWaypoint.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/HeliportTerminalWaypoint.py b/src/arinc424/definitions/HeliportTerminalWaypoint.py
index 68d3539..41b42b1 100644
--- a/src/arinc424/definitions/HeliportTerminalWaypoint.py
+++ b/src/arinc424/definitions/HeliportTerminalWaypoint.py
@@ -7,7 +7,7 @@ class HeliportTerminalWaypoint():
 
   cont_idx = 21
   app_idx = 22
-  continuations = ['A', 'P']
+  continuations = ['A', 'P', 'Q']
   name = 'Heliport Terminal Waypoint'
 
   def application_type(self, line):
@@ -24,9 +24,10 @@ class HeliportTerminalWaypoint():
         return self.read_cont(line)
       case 'P':
         return self.read_flight0(line)
-      case _:
-        # TODO: sketchy
+      case 'Q':
         return self.read_flight1(line)
+      case _:
+        return []
 
   # 4.2.2.1 Heliport Terminal Waypoint Primary Records
   def read_primary(self, r):
-- 
2.43.0


From 2c6ffca663982304d1a746506100155f5241fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 12/27] fix: records of the types that have no continuation
 number are primary records

---
 src/arinc424/record.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 971753f..6747cba 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -102,6 +102,9 @@ class Record():
   def primary(self):
     if self.definition == -1:
       return False
+    # record types without a continuation record number only have primary records
+    if not hasattr(self.definition, 'cont_idx'):
+      return True
     return self.continuation == '0' or self.continuation == '1'
 
   def hasCont(self):
-- 
2.43.0


From 2fd78935ddadb7902bd3bd7ef833985aff3ee51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:51 +0000
Subject: [PATCH 13/27] fix: an unused (blank) route identifier is not a decode
 error

---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 44f15f4..a345256 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -195,7 +195,7 @@ def field_007(value, record):
 
 # 5.8 Route Identifier (ROUTE IDENT)
 def field_008(value, record):
-  if value.strip().isalnum():
+  if value.strip() == '' or value.strip().isalnum():
     return value
   else:
     raise ValueError("Route Identifier not alphanumeric", value)
-- 
2.43.0


From e49691d28c3363712c82cd3eec24ddd3b0e46e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:55 +0000
Subject: [PATCH 14/27] fix: GLS continuation record number is column 22

---
 src/arinc424/definitions/GLS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/GLS.py b/src/arinc424/definitions/GLS.py
index 40f4f7c..df940e8 100644
--- a/src/arinc424/definitions/GLS.py
+++ b/src/arinc424/definitions/GLS.py
@@ -35,7 +35,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("GLS Channel",                         r[22:27],      decoder.field_244),
           Field("Runway Identifier",                   r[27:32],      decoder.field_046),
           Field("GLS Approach Bearing",                r[51:55],      decoder.field_047),
@@ -64,7 +64,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("Application Type",                    r[22],         decoder.field_091),
           Field("File Record No",                      r[123:128],    decoder.field_031),
           Field("Cycle Date",                          r[128:132],    decoder.field_032)
-- 
2.43.0


From 28fcc486eb504b2757d844cd05d9acdf94dc1073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:58 +0000
Subject: [PATCH 15/27] fix: controlled airspace type is column 9

---
 src/arinc424/definitions/ControlledAirspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/ControlledAirspace.py b/src/arinc424/definitions/ControlledAirspace.py
index b751951..a8466db 100644
--- a/src/arinc424/definitions/ControlledAirspace.py
+++ b/src/arinc424/definitions/ControlledAirspace.py
@@ -39,7 +39,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
@@ -73,7 +73,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
-- 
2.43.0


From 57513b6070aad7068564ec264ba359cdd7fc06b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:01 +0000
Subject: [PATCH 16/27] fix: restrictive airspace time indicator and lower
 limit columns

---
 src/arinc424/definitions/RestrictiveAirspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/RestrictiveAirspace.py b/src/arinc424/definitions/RestrictiveAirspace.py
index b3dc6b0..b563fcb 100644
--- a/src/arinc424/definitions/RestrictiveAirspace.py
+++ b/src/arinc424/definitions/RestrictiveAirspace.py
@@ -51,7 +51,7 @@ class RestrictiveAirspace():
       Field("Arc Origin Longitude",                r[60:70],      decoder.field_037),
       Field("Arc Distance",                        r[70:74],      decoder.field_119),
       Field("Arc Bearing",                         r[74:78],      decoder.field_120),
-      Field("Lower Limit",                         r[82:86],      decoder.field_121),
+      Field("Lower Limit",                         r[81:86],      decoder.field_121),
       Field("Unit Indicator",                      r[86],         decoder.field_133),
       Field("Upper Limit",                         r[87:92],      decoder.field_121),
       Field("Unit Indicator (2)",                  r[92],         decoder.field_133),
@@ -75,7 +75,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
@@ -124,7 +124,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
-- 
2.43.0


From 9b1ec0b0e7fdc74a8f633d2b00432642d410ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:04 +0000
Subject: [PATCH 17/27] fix: navaid class, UIR, start/end indicator and
 limitation columns

---
 src/arinc424/definitions/NDBNavaid.py |  8 ++++----
 src/arinc424/definitions/VHFNavaid.py | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/arinc424/definitions/NDBNavaid.py b/src/arinc424/definitions/NDBNavaid.py
index 7b41a3f..f2e401d 100644
--- a/src/arinc424/definitions/NDBNavaid.py
+++ b/src/arinc424/definitions/NDBNavaid.py
@@ -43,7 +43,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
@@ -101,8 +101,8 @@ class NDBNavaid():
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("Application Type",                r[22],        decoder.field_091),
       Field("FIR Identifier",                  r[23:27],     decoder.field_116),
-      Field("UIR Identifier",                  r[28:31],     decoder.field_116),
-      Field("Start/End Indicator",             r[32],        decoder.field_152),
+      Field("UIR Identifier",                  r[27:31],     decoder.field_116),
+      Field("Start/End Indicator",             r[31],        decoder.field_152),
       Field("Start/End Date",                  r[32:43],     decoder.field_153),
       Field("File Record No",                  r[123:128],   decoder.field_031),
       Field("Cycle Date",                      r[128:132],   decoder.field_032)
@@ -120,7 +120,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index 6057783..f5b006a 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -54,7 +54,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
@@ -120,8 +120,8 @@ class VHFNavaid():
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Application Type",            r[22],         decoder.field_091),
       Field("FIR Identifier",              r[23:27],      decoder.field_116),
-      Field("UIR Identifier",              r[28:31],      decoder.field_116),
-      Field("Start/End Indicator",         r[32],         decoder.field_152),
+      Field("UIR Identifier",              r[27:31],      decoder.field_116),
+      Field("Start/End Indicator",         r[31],         decoder.field_152),
       Field("Start/End Date",              r[32:43],      decoder.field_153),
       Field("File Record No",              r[123:128],    decoder.field_031),
       Field("Cycle Date",                  r[128:132],    decoder.field_032)
@@ -139,7 +139,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
@@ -188,13 +188,13 @@ class VHFNavaid():
       Field("Altitude Limitation (3)",     r[69:75],      decoder.field_209),
       Field("Sector From/Sector To (4)",   r[75:77],      decoder.field_207),
       Field("Distance Description (4)",    r[77],         decoder.field_187),
-      Field("Distance Limitation (4)",     r[79:84],      decoder.field_208),
+      Field("Distance Limitation (4)",     r[78:84],      decoder.field_208),
       Field("Altitude Description (4)",    r[84],         decoder.field_029),
       Field("Altitude Limitation (4)",     r[85:91],      decoder.field_209),
       Field("Sector From/Sector To (5)",   r[91:93],      decoder.field_207),
       Field("Distance Description (5)",    r[93],         decoder.field_187),
       Field("Distance Limitation (5)",     r[94:100],     decoder.field_208),
-      Field("Altitude Description (5)",    r[101],        decoder.field_029),
+      Field("Altitude Description (5)",    r[100],        decoder.field_029),
       Field("Altitude Limitation (5)",     r[101:107],    decoder.field_209),
       Field("Sequence End Indicator",      r[107],        decoder.field_210),
       Field("File Record No",              r[123:128],    decoder.field_031),
-- 
2.43.0


From a03324026f7c21b975256d1d401a417334afba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:09 +0000
Subject: [PATCH 18/27] fix: holding pattern application type is column 40

---
 src/arinc424/definitions/HoldingPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/HoldingPattern.py b/src/arinc424/definitions/HoldingPattern.py
index 72008a9..dd9eba0 100644
--- a/src/arinc424/definitions/HoldingPattern.py
+++ b/src/arinc424/definitions/HoldingPattern.py
@@ -77,7 +77,7 @@ class HoldingPattern():
       Field("ICAO Code (2)",                       r[34:36],      decoder.field_014),
       Field("Section Code (2)",                    r[36:38],      decoder.field_004),
       Field("Continuation Record No",              r[38],         decoder.field_016),
-      Field("Application Type",                    r[40],         decoder.field_091),
+      Field("Application Type",                    r[39],         decoder.field_091),
       Field("Notes",                               r[40:109],     decoder.field_061),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
-- 
2.43.0


From b698c0d350b1f2bf1c2713eaf5e580333d1c86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:12 +0000
Subject: [PATCH 19/27] fix: SID/STAR/approach center fix ICAO code and
 start/end date are not truncated

---
 src/arinc424/definitions/SIDSTARApproach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/SIDSTARApproach.py b/src/arinc424/definitions/SIDSTARApproach.py
index b773098..5969a07 100644
--- a/src/arinc424/definitions/SIDSTARApproach.py
+++ b/src/arinc424/definitions/SIDSTARApproach.py
@@ -68,7 +68,7 @@ class SIDSTARApproach():
       Field("Vertical Angle",                             r[102:106],     decoder.field_070),
       Field("Center Fix or TAA Procedure Turn Indicator", r[106:111],     decoder.field_144),  # or 271
       Field("Multiple Code or TAA Sector Identifier",     r[111],         decoder.field_130),  # or 272
-      Field("ICAO Code (4)",                              r[112:113],     decoder.field_014),
+      Field("ICAO Code (4)",                              r[112:114],     decoder.field_014),
       Field("Section Code (3)",                           r[114:116],     decoder.field_004),
       Field("GNSS/FMS Indication",                        r[116],         decoder.field_222),
       Field("Speed Limit Description",                    r[117],         decoder.field_261),
@@ -134,7 +134,7 @@ class SIDSTARApproach():
       Field("Continuation Record No",                     r[38],          decoder.field_016),
       Field("Application Type",                           r[39],          decoder.field_091),
       Field("Start/End Indicator",                        r[40],          decoder.field_152),
-      Field("Start/End Date",                             r[41:45],       decoder.field_153),
+      Field("Start/End Date",                             r[41:52],       decoder.field_153),
       Field("Leg Distance",                               r[74:78],       decoder.field_260),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
-- 
2.43.0


From 807b8a42a3ad014bca89f889946f85b2c90d2322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:16 +0000
Subject: [PATCH 20/27] fix: MLS back azimuth true bearing is not truncated

---
 src/arinc424/definitions/MLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/MLS.py b/src/arinc424/definitions/MLS.py
index 37a7df0..2fbc7a2 100644
--- a/src/arinc424/definitions/MLS.py
+++ b/src/arinc424/definitions/MLS.py
@@ -87,7 +87,7 @@ class MLS():
       Field("Back Azimuth Proportional Angle Left", r[86:89],     decoder.field_168),
       Field("Back Azimuth Coverage Right",         r[89:92],      decoder.field_172),
       Field("Back Azimuth Coverage Left",          r[92:95],      decoder.field_172),
-      Field("Back Azimuth True Bearing",           r[95:98],      decoder.field_094),
+      Field("Back Azimuth True Bearing",           r[95:100],     decoder.field_094),
       Field("Back Azimuth Bearing Source",         r[100],        decoder.field_095),
       Field("Azimuth True Bearing",                r[101:106],    decoder.field_094),
       Field("Azimuth Bearing Source",              r[106],        decoder.field_095),
-- 
2.43.0


From 20f126820db561627b14346cc7446b76a22c7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:19 +0000
Subject: [PATCH 21/27] fix: decode the further restrictive airspace types of
 an airway as such, not as sequence numbers

---
 src/arinc424/definitions/EnrouteAirways.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index a1f6d17..f6e6fc3 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -102,15 +102,15 @@ class EnrouteAirways():
       Field("Restr. Air Designation",                  r[69:79],      decoder.field_129),
       Field("Restr. Air Multiple Code",                r[79],         decoder.field_130),
       Field("Restr. Air ICAO Code (2)",                r[80:82],      decoder.field_014),
-      Field("Restr. Air Type (2)",                     r[82],         decoder.field_012),
+      Field("Restr. Air Type (2)",                     r[82],         decoder.field_128),
       Field("Restr. Air Designation (2)",              r[83:93],      decoder.field_129),
       Field("Restr. Air Multiple Code (2)",            r[93],         decoder.field_130),
       Field("Restr. Air ICAO Code (3)",                r[94:96],      decoder.field_014),
-      Field("Restr. Air Type (3)",                     r[96],         decoder.field_012),
+      Field("Restr. Air Type (3)",                     r[96],         decoder.field_128),
       Field("Restr. Air Designation (3)",              r[97:107],     decoder.field_129),
       Field("Restr. Air Multiple Code (3)",            r[107],        decoder.field_130),
       Field("Restr. Air ICAO Code (4)",                r[108:110],    decoder.field_014),
-      Field("Restr. Air Type (4)",                     r[110],        decoder.field_012),
+      Field("Restr. Air Type (4)",                     r[110],        decoder.field_128),
       Field("Restr. Air Designation (4)",              r[111:121],    decoder.field_129),
       Field("Restr. Air Link Continuation",            r[122],        decoder.field_174),
       Field("File Record No",                          r[123:128],    decoder.field_031),
-- 
2.43.0


From 31c4f07fce948de85149d9118b6af542925cbe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:22 +0000
Subject: [PATCH 22/27] fix: label the airport identifier of an airport flight
 planning continuation

---
 src/arinc424/definitions/Airport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/Airport.py b/src/arinc424/definitions/Airport.py
index e94705b..ce688db 100644
--- a/src/arinc424/definitions/Airport.py
+++ b/src/arinc424/definitions/Airport.py
@@ -89,7 +89,7 @@ class Airport():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4]+r[12],    decoder.field_004),
-      Field("Heliport Identifier",                     r[6:10],       decoder.field_006),
+      Field("Airport ICAO Identifier",                 r[6:10],       decoder.field_006),
       Field("ICAO Code",                               r[10:12],      decoder.field_014),
       Field("ATA/IATA Designator",                     r[13:16],      decoder.field_107),
       Field("Continuation Record No",                  r[21],         decoder.field_016),
-- 
2.43.0


From 0079709d2c2e8f32250a6104d8bf82d7ed27b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 23/27] fix: airway restriction note records read the whole
 route identifier and fix section

---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 2b3b523..36c7233 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -138,13 +138,13 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
       Field("Start Fix Identifier",                    r[18:23],      decoder.field_013),
       Field("Start Fix ICAO Code",                     r[23:25],      decoder.field_014),
-      Field("Start Fix Section Code",                  r[25],         decoder.field_004),
+      Field("Start Fix Section Code",                  r[25:27],      decoder.field_004),
       Field("End Fix Identifier",                      r[27:32],      decoder.field_013),
       Field("End Fix ICAO Code",                       r[32:34],      decoder.field_014),
       Field("End Fix Section Code",                    r[34:36],      decoder.field_004),
@@ -161,7 +161,7 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
-- 
2.43.0


From 659414300a55ac1cbf9b74bb56dcbb72f8994685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 24/27] fix: give repeated fields distinct names, so that
 json() keeps all of them

---
 src/arinc424/definitions/Alternate.py         | 12 ++++----
 .../definitions/EnrouteAirwaysRestriction.py  | 30 +++++++++----------
 src/arinc424/definitions/GeoReferenceTable.py |  8 ++---
 src/arinc424/definitions/PreferredRoute.py    |  8 ++---
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/arinc424/definitions/Alternate.py b/src/arinc424/definitions/Alternate.py
index bf69b02..49e2eb3 100644
--- a/src/arinc424/definitions/Alternate.py
+++ b/src/arinc424/definitions/Alternate.py
@@ -24,14 +24,14 @@ class Alternate():
       Field("Distance to Alternate (3)",              r[51:54],      decoder.field_251),
       Field("Alternate Type (3)",                     r[54],         decoder.field_252),
       Field("Additional Alternate Identifier Two",    r[55:65],      decoder.field_253),
-      Field("Distance to Alternate (3)",              r[67:70],      decoder.field_251),
-      Field("Alternate Type (3)",                     r[70],         decoder.field_252),
+      Field("Distance to Alternate (4)",              r[67:70],      decoder.field_251),
+      Field("Alternate Type (4)",                     r[70],         decoder.field_252),
       Field("Additional Alternate Identifier (3))",   r[71:81],      decoder.field_253),
-      Field("Distance to Alternate (4)",              r[83:86],      decoder.field_251),
-      Field("Alternate Type (4)",                     r[86],         decoder.field_252),
+      Field("Distance to Alternate (5)",              r[83:86],      decoder.field_251),
+      Field("Alternate Type (5)",                     r[86],         decoder.field_252),
       Field("Additional Alternate Identifier (4)",    r[87:97],      decoder.field_253),
-      Field("Distance to Alternate (5)",              r[99:102],     decoder.field_251),
-      Field("Alternate Type (5)",                     r[102],        decoder.field_252),
+      Field("Distance to Alternate (6)",              r[99:102],     decoder.field_251),
+      Field("Alternate Type (6)",                     r[102],        decoder.field_252),
       Field("Additional Alternate Identifier (5)",    r[103:113],    decoder.field_253),
       Field("File Record No",                         r[123:128],    decoder.field_031),
       Field("Cycle Date",                             r[128:132],    decoder.field_032)
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 36c7233..2f0ac52 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -67,25 +67,25 @@ class EnrouteAirwaysRestriction():
       Field("Time Code",                               r[51],         decoder.field_131),
       Field("Time Indicator",                          r[52],         decoder.field_138),
       Field("Time of Operation",                       r[53:63],      decoder.field_195),
-      Field("Time of Operation",                       r[63:73],      decoder.field_195),
-      Field("Time of Operation",                       r[73:83],      decoder.field_195),
-      Field("Time of Operation",                       r[83:93],      decoder.field_195),
+      Field("Time of Operation (2)",                   r[63:73],      decoder.field_195),
+      Field("Time of Operation (3)",                   r[73:83],      decoder.field_195),
+      Field("Time of Operation (4)",                   r[83:93],      decoder.field_195),
       Field("Exclusion Indicator",                     r[93],         decoder.field_202),
       Field("Units of Altitude",                       r[94],         decoder.field_160),
       Field("Restriction Altitude",                    r[95:98],      decoder.field_161),
       Field("Block Indicator",                         r[98],         decoder.field_203),
-      Field("Restriction Altitude",                    r[99:102],     decoder.field_161),
-      Field("Block Indicator",                         r[102],        decoder.field_203),
-      Field("Restriction Altitude",                    r[103:106],    decoder.field_161),
-      Field("Block Indicator",                         r[106],        decoder.field_203),
-      Field("Restriction Altitude",                    r[107:110],    decoder.field_161),
-      Field("Block Indicator",                         r[110],        decoder.field_203),
-      Field("Restriction Altitude",                    r[111:114],    decoder.field_161),
-      Field("Block Indicator",                         r[114],        decoder.field_203),
-      Field("Restriction Altitude",                    r[115:118],    decoder.field_161),
-      Field("Block Indicator",                         r[118],        decoder.field_203),
-      Field("Restriction Altitude",                    r[119:122],    decoder.field_161),
-      Field("Block Indicator",                         r[122],        decoder.field_203),
+      Field("Restriction Altitude (2)",                r[99:102],     decoder.field_161),
+      Field("Block Indicator (2)",                     r[102],        decoder.field_203),
+      Field("Restriction Altitude (3)",                r[103:106],    decoder.field_161),
+      Field("Block Indicator (3)",                     r[106],        decoder.field_203),
+      Field("Restriction Altitude (4)",                r[107:110],    decoder.field_161),
+      Field("Block Indicator (4)",                     r[110],        decoder.field_203),
+      Field("Restriction Altitude (5)",                r[111:114],    decoder.field_161),
+      Field("Block Indicator (5)",                     r[114],        decoder.field_203),
+      Field("Restriction Altitude (6)",                r[115:118],    decoder.field_161),
+      Field("Block Indicator (6)",                     r[118],        decoder.field_203),
+      Field("Restriction Altitude (7)",                r[119:122],    decoder.field_161),
+      Field("Block Indicator (7)",                     r[122],        decoder.field_203),
       Field("File Record No",                          r[123:128],    decoder.field_031),
       Field("Cycle Date",                              r[128:132],    decoder.field_032)
     ]
diff --git a/src/arinc424/definitions/GeoReferenceTable.py b/src/arinc424/definitions/GeoReferenceTable.py
index ca5a349..fcf8a19 100644
--- a/src/arinc424/definitions/GeoReferenceTable.py
+++ b/src/arinc424/definitions/GeoReferenceTable.py
@@ -53,10 +53,10 @@ class GeoReferenceTable():
       Field("Preferred Route Use Ind (3)",        r[74:76],       decoder.field_220),
       Field("Preferred Route Ident (4)",          r[76:86],       decoder.field_008),
       Field("Preferred Route Use Ind (4)",        r[86:88],       decoder.field_220),
-      Field("Preferred Route Ident (4)",          r[88:98],       decoder.field_008),
-      Field("Preferred Route Use Ind (4)",        r[98:100],      decoder.field_220),
-      Field("Preferred Route Ident (5)",          r[100:110],     decoder.field_008),
-      Field("Preferred Route Use Ind (5)",        r[110:112],     decoder.field_220),
+      Field("Preferred Route Ident (5)",          r[88:98],       decoder.field_008),
+      Field("Preferred Route Use Ind (5)",        r[98:100],      decoder.field_220),
+      Field("Preferred Route Ident (6)",          r[100:110],     decoder.field_008),
+      Field("Preferred Route Use Ind (6)",        r[110:112],     decoder.field_220),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
     ]
diff --git a/src/arinc424/definitions/PreferredRoute.py b/src/arinc424/definitions/PreferredRoute.py
index cda4b69..3a8b040 100644
--- a/src/arinc424/definitions/PreferredRoute.py
+++ b/src/arinc424/definitions/PreferredRoute.py
@@ -50,11 +50,11 @@ class PreferredRoute():
       Field("Level",                      r[60],          decoder.field_019),
       Field("Route Type",                 r[61],          decoder.field_007),
       Field("Initial Airport/Fix",        r[62:67],       decoder.field_194),
-      Field("ICAO Code",                  r[67:69],       decoder.field_014),
-      Field("Section Code",               r[69:71],       decoder.field_004),
+      Field("ICAO Code (2)",              r[67:69],       decoder.field_014),
+      Field("Section Code (3)",           r[69:71],       decoder.field_004),
       Field("Terminus Airport/Fix",       r[71:76],       decoder.field_194),
-      Field("ICAO Code",                  r[76:78],       decoder.field_014),
-      Field("Section Code",               r[78:80],       decoder.field_004),
+      Field("ICAO Code (3)",              r[76:78],       decoder.field_014),
+      Field("Section Code (4)",           r[78:80],       decoder.field_004),
       Field("Minimum Altitude",           r[80:85],       decoder.field_030),
       Field("Maximum Altitude",           r[85:90],       decoder.field_127),
       Field("Time Code",                  r[90],          decoder.field_131),
-- 
2.43.0


From d3d793599d8b19e8d1c9a381c93a8c0cf278b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 25/27] fix: company route columns, names and decoders

---
 src/arinc424/definitions/CompanyRoute.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/arinc424/definitions/CompanyRoute.py b/src/arinc424/definitions/CompanyRoute.py
index 196dc02..692511d 100644
--- a/src/arinc424/definitions/CompanyRoute.py
+++ b/src/arinc424/definitions/CompanyRoute.py
@@ -16,7 +16,6 @@ class CompanyRoute():
       Field("Section Code",                       r[4:6],         decoder.field_004),
       Field("From Airport/Fix",                   r[6:11],        decoder.field_075),
       Field("ICAO Code",                          r[12:14],       decoder.field_014),
-      Field("Airspace Center",                    r[9:14],        decoder.field_214),
       Field("Section Code (2)",                   r[14:16],       decoder.field_004),
       Field("To Airport/Fix",                     r[16:21],       decoder.field_075),
       Field("ICAO Code (2)",                      r[22:24],       decoder.field_014),
@@ -26,17 +25,17 @@ class CompanyRoute():
       Field("VIA",                                r[39:42],       decoder.field_077),
       Field("SID/STAR/App/Awy",                   r[42:48],       decoder.field_078),
       Field("Area Code",                          r[48:51],       decoder.field_003),
-      Field("To Fix",                             r[51:57],       decoder.field_132),
-      Field("ICAO Code",                          r[57:59],       decoder.field_118),
-      Field("Section Code (4)",                   r[59],          decoder.field_036),
-      Field("RUnway Trans",                       r[61:66],       decoder.field_037),
-      Field("ENRT Trans",                         r[66:71],       decoder.field_036),
-      Field("Cruise Altitude",                    r[72:77],       decoder.field_037),
-      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_119),
-      Field("ICAO Code",                          r[81:83],       decoder.field_120),
-      Field("Alternate Distance",                 r[83:87],       decoder.field_211),
-      Field("Cost Index",                         r[87:90],       decoder.field_121),
-      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_133),
+      Field("To Fix",                             r[51:57],       decoder.field_083),
+      Field("ICAO Code (3)",                      r[57:59],       decoder.field_014),
+      Field("Section Code (4)",                   r[59:61],       decoder.field_004),
+      Field("RUnway Trans",                       r[61:66],       decoder.field_084),
+      Field("ENRT Trans",                         r[66:71],       decoder.field_085),
+      Field("Cruise Altitude",                    r[72:77],       decoder.field_086),
+      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_087),
+      Field("ICAO Code (4)",                      r[81:83],       decoder.field_014),
+      Field("Alternate Distance",                 r[83:87],       decoder.field_088),
+      Field("Cost Index",                         r[87:90],       decoder.field_089),
+      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_148),
       Field("File Record No",                     r[123:128],     decoder.field_031),
       Field("Cycle Date",                         r[128:132],     decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From 0071758503fee3539442c0db5f4ee263bc7e43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 26/27] fix: flight planning continuations have four
 intermediate fix groups

---
 src/arinc424/definitions/FlightPlanning.py | 30 ++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/arinc424/definitions/FlightPlanning.py b/src/arinc424/definitions/FlightPlanning.py
index 570bb6c..e56f5db 100644
--- a/src/arinc424/definitions/FlightPlanning.py
+++ b/src/arinc424/definitions/FlightPlanning.py
@@ -100,16 +100,26 @@ class FlightPlanning():
       Field("Sequence Number",                        r[66:69],       decoder.field_012),
       Field("Continuation Number",                    r[69],          decoder.field_016),
       Field("Application Type",                       r[70],          decoder.field_091),
-      Field("Intermediate Fix Identifier",            r[71:76],       decoder.field_013),
-      Field("ICAO Code (5)",                          r[76:78],       decoder.field_014),
-      Field("Section Code (5)",                       r[91:93],       decoder.field_004),
-      Field("Intermediate Distance",                  r[106:109],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[109],         decoder.field_241),
-      Field("Intermediate Fix Identifier",            r[110:115],     decoder.field_013),
-      Field("ICAO Code (6)",                          r[115:117],     decoder.field_014),
-      Field("Section Code (6)",                       r[118],         decoder.field_004),
-      Field("Intermediate Distance",                  r[119:122],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[122],         decoder.field_241),
+      Field("Intermediate Fix Identifier",                 r[71:76],       decoder.field_013),
+      Field("ICAO Code (5)",                               r[76:78],       decoder.field_014),
+      Field("Section Code (5)",                            r[78:80],       decoder.field_004),
+      Field("Intermediate Distance",                       r[80:83],       decoder.field_231),
+      Field("Fix Related Transition Code",                 r[83],          decoder.field_241),
+      Field("Intermediate Fix Identifier (2)",             r[84:89],       decoder.field_013),
+      Field("ICAO Code (6)",                               r[89:91],       decoder.field_014),
+      Field("Section Code (6)",                            r[91:93],       decoder.field_004),
+      Field("Intermediate Distance (2)",                   r[93:96],       decoder.field_231),
+      Field("Fix Related Transition Code (2)",             r[96],          decoder.field_241),
+      Field("Intermediate Fix Identifier (3)",             r[97:102],      decoder.field_013),
+      Field("ICAO Code (7)",                               r[102:104],     decoder.field_014),
+      Field("Section Code (7)",                            r[104:106],     decoder.field_004),
+      Field("Intermediate Distance (3)",                   r[106:109],     decoder.field_231),
+      Field("Fix Related Transition Code (3)",             r[109],         decoder.field_241),
+      Field("Intermediate Fix Identifier (4)",             r[110:115],     decoder.field_013),
+      Field("ICAO Code (8)",                               r[115:117],     decoder.field_014),
+      Field("Section Code (8)",                            r[117:119],     decoder.field_004),
+      Field("Intermediate Distance (4)",                   r[119:122],     decoder.field_231),
+      Field("Fix Related Transition Code (4)",             r[122],         decoder.field_241),
       Field("File Record No",                         r[123:128],     decoder.field_031),
       Field("Cycle Date",                             r[128:132],     decoder.field_032)
     ]
-- 
2.43.0


From 0b7768c361393e27824be1923cb56c1a6a582fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:39 +0000
Subject: [PATCH 27/27] fix: TAA continuation records have the identification
 columns of the primary record

---
 src/arinc424/definitions/TAA.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/arinc424/definitions/TAA.py b/src/arinc424/definitions/TAA.py
index 29fec38..3b4b35e 100644
--- a/src/arinc424/definitions/TAA.py
+++ b/src/arinc424/definitions/TAA.py
@@ -44,7 +44,6 @@ class TAA():
       Field("ICAO Code",                          r[10:12],       decoder.field_014),
       Field("Approach Identifier",                r[13:19],       decoder.field_010),
       Field("TAA Waypoint",                       r[19:24],       decoder.field_273),
-      Field("TAA Procedure Turn",                 r[20:24],       decoder.field_271),
       Field("ICAO Code (2)",                      r[24:26],       decoder.field_014),
       Field("Section Code (2)",                   r[26:28],       decoder.field_004),
       Field("TAA Fix Position Indicator",         r[28],          decoder.field_272),
@@ -81,13 +80,12 @@ class TAA():
       Field(self.id_name,                         r[6:10],        decoder.field_006),
       Field("ICAO Code",                          r[10:12],       decoder.field_014),
       Field("Approach Identifier",                r[13:19],       decoder.field_010),
-      Field("TAA Sector Identifier",              r[19],          decoder.field_272),
-      Field("TAA Procedure Turn",                 r[20:24],       decoder.field_271),
-      Field("TAA IAF Waypoint",                   r[29:34],       decoder.field_273),
-      Field("ICAO Code (2)",                      r[10:12],       decoder.field_014),
-      Field("Section Code (2)",                   r[36:38],       decoder.field_004),
-      Field("Continuation Record No",             r[38],          decoder.field_016),
-      Field("Application Notes",                  r[39],          decoder.field_091),
+      Field("TAA Waypoint",                       r[19:24],       decoder.field_273),
+      Field("ICAO Code (2)",                      r[24:26],       decoder.field_014),
+      Field("Section Code (2)",                   r[26:28],       decoder.field_004),
+      Field("TAA Fix Position Indicator",         r[28],          decoder.field_272),
+      Field("Continuation Record No",             r[29],          decoder.field_016),
+      Field("Application Type",                   r[30],          decoder.field_091),
       Field("Notes",                              r[50:109],      decoder.field_061),
       Field("File Record No",                     r[123:128],     decoder.field_031),
       Field("Cycle Date",                         r[128:132],     decoder.field_032)
-- 
2.43.0

