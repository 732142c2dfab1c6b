From 97c084fd59cf87564ab41fe09ac4c82fc039a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:51 +0000
Subject: [PATCH 01/63] fix: prp-key ignored the last property of the key

The comparison loop stopped one short, so individuals that differ on the last
key property were equated (with a single-property key: all instances).
---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 33f1b63..0abd84a 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -610,7 +610,7 @@ class OWLRL_Semantics(Core):
                             # 'calculate' the keys for the y values and see if there is a match
                             for vals in valueList:
                                 same = True
-                                for i in range(0, len(pis) - 1):
+                                for i in range(0, len(pis)):
                                     if (y, pis[i], vals[i]) not in self.graph:
                                         same = False
                                         # No use going with this property line
-- 
2.43.0


From d4307cc26aa4dfba81a8c7a311c989234eca148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 02/63] fix: prp-adp ignored the last member of
 owl:AllDisjointProperties

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 0abd84a..762fc40 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -520,7 +520,7 @@ class OWLRL_Semantics(Core):
                     pis = self._list(y)
                     for i in range(0, len(pis) - 1):
                         pi = pis[i]
-                        for j in range(i + 1, len(pis) - 1):
+                        for j in range(i + 1, len(pis)):
                             pj = pis[j]
                             for x, y in self.graph.subject_objects(pi):
                                 if (x, pj, y) in self.graph:
-- 
2.43.0


From 14af28bab3bf1f86b7f51acff90b5051fa2cc0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:54 +0000
Subject: [PATCH 03/63] fix: eq-diff2/eq-diff3 missed conflicts between members
 of owl:AllDifferent

The last member of the list was never looked at, and a conflict could be missed
when eq-rep-o had already copied one of the two identical members into the list
cell of the other one.
---
 owlrl/OWLRL.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 762fc40..47ff330 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -424,12 +424,15 @@ class OWLRL_Semantics(Core):
                 zis = self._list(y)
                 for i in range(0, len(zis) - 1):
                     zi = zis[i]
-                    for j in range(i + 1, len(zis) - 1):
+                    for j in range(i + 1, len(zis)):
                         zj = zis[j]
-                        if (
-                            (zi, OWL.sameAs, zj) in self.graph
-                            or (zj, OWL.sameAs, zi) in self.graph
-                        ) and zi != zj:
+                        # Note that zi and zj can be identical here, too: if two members are the same, then eq-rep-o
+                        # copies one of them into the list cell of the other
+                        if (zi, OWL.sameAs, zj) in self.graph or (
+                            zj,
+                            OWL.sameAs,
+                            zi,
+                        ) in self.graph:
                             self.add_error(
                                 "'sameAs' and 'AllDifferent' cannot be used on the same subject-object "
                                 "pair: (%s, %s)" % (zi, zj)
-- 
2.43.0


From 9ed103854d9bccd85a42dc52f28fb110bdae6a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 04/63] fix: cls-com error message names the offending
 individual

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 47ff330..2c45c14 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -690,7 +690,7 @@ class OWLRL_Semantics(Core):
                 if (x1, RDF.type, c2) in self.graph:
                     self.add_error(
                         "Violation of complementarity for classes %s and %s on element %s"
-                        % (c1, c2, x)
+                        % (c1, c2, x1)
                     )
 
         # RULES cls-svf1 and cls=svf2
-- 
2.43.0


From 2fd8134741d96fbb58d0c9187434cfae6e20058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 05/63] fix: sameAs to a datatype-typed resource declared that
 resource a datatype

The datatypes of the other resource are what has to be added, not the resource
itself (which ended up as 'x rdf:type rdfs:Datatype').
---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 2c45c14..bc9d9ea 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -185,7 +185,7 @@ class OWLRL_Semantics(Core):
 
         # noinspection PyShadowingNames
         def _append_to_explicit(s, o):
-            explicit[s].add(o)
+            explicit[s].update(explicit[o])
 
         # noinspection PyShadowingNames
         def _handle_subsumptions(r, dt):
-- 
2.43.0


From 8bc26b73891bca6853f9cc352680deefdfd16541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 06/63] fix: xsd:boolean accepted other capitalisations of true
 and false

The lexical space is exactly true, false, 1 and 0.
---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 19b3531..e020912 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -105,9 +105,9 @@ def _strToBool(v):
     @return corresponding boolean value
     @raise ValueError: invalid boolean values
     """
-    if v.lower() == "true" or v.lower() == "1":
+    if v == "true" or v == "1":
         return True
-    elif v.lower() == "false" or v.lower() == "0":
+    elif v == "false" or v == "0":
         return False
     else:
         raise ValueError("Invalid boolean literal value %s" % v)
-- 
2.43.0


From 1560af114a337d7bcc3186e57927515078a8667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 07/63] fix: invalid xsd:decimal literals crashed the closure
 or were accepted

Decimal('abc') raises decimal.InvalidOperation, which is not a ValueError and
went through expand(); NaN, Infinity and 1_000 were accepted.
---
 owlrl/DatatypeHandling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index e020912..6fd8430 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -124,9 +124,9 @@ def _strToDecimal(v):
     @return Decimal
     @raise ValueError: invalid decimal value
     """
-    # check whether the lexical form of 'v' is o.k.
-    if v.find("E") != -1 or v.find("e") != -1:
-        # this is an invalid lexical form, though would be accepted by Python
+    # check whether the lexical form of 'v' is o.k.; Python's Decimal would accept more (exponents, NaN, underscores...)
+    # and raises its own type of exception otherwise
+    if re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", v) is None:
         raise ValueError("Invalid decimal literal value %s" % v)
     else:
         return Decimal(v)
-- 
2.43.0


From 481976b6c1afed260916ca6019001076bd4b836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 08/63] fix: integer types accepted Python-only notations such
 as 1_000

---
 owlrl/DatatypeHandling.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 6fd8430..151ab3d 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -243,6 +243,18 @@ _limits_nonNegativeInteger = [-1, None]
 _limits_negativeInteger = [None, 0]
 
 
+def _strToInteger(v):
+    """Convert an integer. Python's own conversion also accepts white spaces, underscores, or non-ASCII digits.
+
+    @param v: the literal string defined as an integer
+    @return int
+    @raise ValueError: invalid value
+    """
+    if re.fullmatch(r"[+-]?[0-9]+", v) is None:
+        raise ValueError("Invalid integer %s" % v)
+    return int(v)
+
+
 # noinspection PyPep8Naming,PyBroadException
 def _strToBoundNumeral(v, interval, conversion):
     """Test (and convert) a generic numerical type, with a check against a lower and upper limit.
@@ -646,27 +658,27 @@ AltXSDToPYTHON = {
     XSD.base64Binary: _strToBase64Binary,
     XSD.double: _strToDouble,
     XSD.float: _strToFloat,
-    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, int),
-    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, int),
-    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, int),
-    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, int),
+    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, _strToInteger),
+    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, _strToInteger),
+    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, _strToInteger),
+    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, _strToInteger),
     XSD.nonPositiveInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonPositiveInteger, int
+        v, _limits_nonPositiveInteger, _strToInteger
     ),
-    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, int),
+    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, _strToInteger),
     XSD.nonNegativeInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonNegativeInteger, int
+        v, _limits_nonNegativeInteger, _strToInteger
     ),
-    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, int),
-    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, int),
-    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, int),
-    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, int),
-    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, int),
+    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, _strToInteger),
+    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, _strToInteger),
+    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, _strToInteger),
+    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, _strToInteger),
+    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, _strToInteger),
     XSD.hexBinary: _strToHexBinary,
     XSD.dateTime: lambda v: _strToDateTimeAndStamp(v, False),
     XSD.dateTimeStamp: lambda v: _strToDateTimeAndStamp(v, True),
     RDF.XMLLiteral: _strToXMLLiteral,
-    XSD.integer: int,
+    XSD.integer: _strToInteger,
     XSD.string: lambda v: v,
     RDF.HTML: lambda v: v,
     XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token),
-- 
2.43.0


From 74b73443f8d3d25565fff7279e56748d1a2dddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 09/63] fix: zero, INF and NaN were rejected as xsd:double and
 xsd:float

All of them are in the lexical space; conversely, Python-only notations
(Infinity, 1_0) are not.
---
 owlrl/DatatypeHandling.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 151ab3d..ed3c000 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -275,6 +275,12 @@ def _strToBoundNumeral(v, interval, conversion):
 
 
 # Double and float ##################################################
+# the special values of both types
+_float_specials = ["INF", "+INF", "-INF", "NaN"]
+# regular expression for all the others
+_re_float = r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?"
+
+
 # noinspection PyPep8Naming
 def _strToDouble(v):
     """Test and convert a double value into a Decimal or float. Raises an exception if the number is outside the
@@ -287,10 +293,14 @@ def _strToDouble(v):
     @raise ValueError: invalid value
     """
     try:
+        if v in _float_specials:
+            return float(v)
+        if re.fullmatch(_re_float, v) is None:
+            raise ValueError("Invalid double %s" % v)
         value = Decimal(v)
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
-        if lower < abs(value) < upper:
+        if value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
@@ -310,10 +320,14 @@ def _strToFloat(v):
     @raise ValueError: invalid value
     """
     try:
+        if v in _float_specials:
+            return float(v)
+        if re.fullmatch(_re_float, v) is None:
+            raise ValueError("Invalid float %s" % v)
         value = Decimal(v)
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
-        if lower < abs(value) < upper:
+        if value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
-- 
2.43.0


From bd8bb67d892e21c529652c90ff946054315ab7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 10/63] fix: xsd:hexBinary is a sequence of octets, not a
 number

An odd number of digits was accepted (the check was always true), the empty
string was rejected, '00' and '0000' were regarded as equal, and length facets
could not be checked because the value had no length.
---
 owlrl/DatatypeHandling.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index ed3c000..4374d5e 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -340,16 +340,15 @@ def _strToFloat(v):
 # hexa ##################################################
 # noinspection PyPep8Naming
 def _strToHexBinary(v):
-    """Test (and convert) hexa integer values. The number of characters should be even.
+    """Test (and convert) hexa binary values. The number of characters should be even.
     @param v: the literal string defined as a hexa number
-    @return long value
+    @return the decoded (binary) content
     @raise ValueError: invalid value
     """
-    # first of all, the number of characters must be even according to the xsd spec:
-    length = len(v)
-    if (length / 2) * 2 != length:
+    # the number of characters must be even according to the xsd spec
+    if re.fullmatch(r"([0-9a-fA-F]{2})*", v) is None:
         raise ValueError("Invalid hex binary number %s" % v)
-    return int(v, 16)
+    return bytes.fromhex(v)
 
 
 # Datetime, date timestamp, etc ################################
-- 
2.43.0


From 61798e39c52f583b4fc0cb02b880eb59a366ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 11/63] fix: xsd:base64Binary lexical form

The empty string and single spaces are allowed, non-ASCII letters and misplaced
padding are not.
---
 owlrl/DatatypeHandling.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 4374d5e..4631f9c 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -175,6 +175,13 @@ def _strToAnyURI(v):
 
 
 # Base64Binary ##################################################
+# regular expression for a base64Binary literal, see the XSD specification
+_re_base64Binary = (
+    r"((([A-Za-z0-9+/] ?){4})*"
+    r"(([A-Za-z0-9+/] ?){3}[A-Za-z0-9+/]|([A-Za-z0-9+/] ?){2}[AEIMQUYcgkosw048] ?=|[A-Za-z0-9+/] ?[AQgw] ?= ?=))?"
+)
+
+
 # noinspection PyPep8Naming
 def _strToBase64Binary(v):
     """Rudimentary test for the base64Binary value. The problem is that the built-in b64 module functions ignore the
@@ -185,7 +192,7 @@ def _strToBase64Binary(v):
     """
     import base64
 
-    if v.replace("=", "x").replace("+", "y").replace("/", "z").isalnum():
+    if re.fullmatch(_re_base64Binary, v) is not None:
         try:
             return base64.standard_b64decode(v)
         except:
-- 
2.43.0


From 9d76b80c3db68605849c2350b15e64b346455228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 12/63] fix: negative timezone offsets were off by one hour

'-05:00' was converted to -06:00 (and -05:30 to -05:30 by accident). Offsets
outside of -14:00...+14:00 are not valid, and the empty string raised an IndexError.
---
 owlrl/DatatypeHandling.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 4631f9c..2f41435 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -78,20 +78,20 @@ def _returnTimeZone(incoming_v):
     @return (v,timezone) tuple; 'v' is the input string with the timezone info cut off, 'timezone' is a L{_namelessTZ}
     instance or None
     """
-    if incoming_v[-1] == "Z":
+    if incoming_v.endswith("Z"):
         v = incoming_v[:-1]
         tzone = _namelessTZ(0, 0)
     else:
-        pattern = r".*(\+|-)([0-9][0-9]):([0-9][0-9])"
-        match = re.match(pattern, incoming_v)
+        pattern = r".*(\+|-)((?:0[0-9]|1[0-3]):[0-5][0-9]|14:00)"
+        match = re.fullmatch(pattern, incoming_v)
         if match is None:
             v = incoming_v
             tzone = None
         else:
-            hours = int(match.groups()[1])
+            hours, minutes = (int(i) for i in match.groups()[1].split(":"))
             if match.groups()[0] == "-":
-                hours = -hours - 1
-            minutes = int(match.groups()[2])
+                # the sign is valid for both
+                hours, minutes = -hours, -minutes
             v = incoming_v[:-6]
             tzone = _namelessTZ(hours, minutes)
     return v, tzone
-- 
2.43.0


From 379ddc208c4d6fa6a59180bbe7761e1dc6ae980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 13/63] fix: fractional seconds of xsd:dateTime and xsd:time
 were misinterpreted

'.5' became 5 microseconds, and more than 6 digits were rejected.
---
 owlrl/DatatypeHandling.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 2f41435..cc5f150 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -378,16 +378,13 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
 
     # The microseconds should be handled here...
     final_v = v
-    milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
+    microseconds = 0
+    milpattern = r"(.*)(\.)([0-9]+)"
+    match = re.fullmatch(milpattern, v)
     if match is not None:
-        # we have a millisecond portion...
-        try:
-            final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
-        except:
-            raise ValueError("Invalid datetime %s" % incoming_v)
+        # we have a fraction; datetime can represent 6 digits of it
+        final_v = match.groups()[0]
+        microseconds = int(match.groups()[2][:6].ljust(6, "0"))
     #
     # By now, the pattern should be clear
     # This may raise an exception...
@@ -401,7 +398,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
                 tstr.tm_hour,
                 tstr.tm_min,
                 tstr.tm_sec,
-                milliseconds,
+                microseconds,
                 tzone,
             )
         else:
@@ -412,7 +409,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
                 tstr.tm_hour,
                 tstr.tm_min,
                 tstr.tm_sec,
-                milliseconds,
+                microseconds,
             )
     except:
         raise ValueError("Invalid datetime %s" % incoming_v)
@@ -432,16 +429,13 @@ def _strToTime(incoming_v):
 
     # The microseconds should be handled here...
     final_v = v
-    milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
+    microseconds = 0
+    milpattern = r"(.*)(\.)([0-9]+)"
+    match = re.fullmatch(milpattern, v)
     if match is not None:
-        # we have a millisecond portion...
-        try:
-            final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
-        except:
-            raise ValueError("Invalid datetime %s" % incoming_v)
+        # we have a fraction; datetime can represent 6 digits of it
+        final_v = match.groups()[0]
+        microseconds = int(match.groups()[2][:6].ljust(6, "0"))
     #
     # By now, the pattern should be clear
     # This may raise an exception...
@@ -449,10 +443,10 @@ def _strToTime(incoming_v):
         tstr = time.strptime(final_v, "%H:%M:%S")
         if tzone is not None:
             return datetime.time(
-                tstr.tm_hour, tstr.tm_min, tstr.tm_sec, milliseconds, tzone
+                tstr.tm_hour, tstr.tm_min, tstr.tm_sec, microseconds, tzone
             )
         else:
-            return datetime.time(tstr.tm_hour, tstr.tm_min, tstr.tm_sec, milliseconds)
+            return datetime.time(tstr.tm_hour, tstr.tm_min, tstr.tm_sec, microseconds)
     except:
         raise ValueError("Invalid time %s" % incoming_v)
 
-- 
2.43.0


From 8322fd09730fa14bb025b8f6b4d76b4920aeec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 14/63] fix: date and time literals with single digit fields
 are ill-typed

time.strptime accepts them, the XSD lexical spaces do not.
---
 owlrl/DatatypeHandling.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index cc5f150..fdbb678 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -359,6 +359,21 @@ def _strToHexBinary(v):
 
 
 # Datetime, date timestamp, etc ################################
+def _strptime(v, form):
+    """Same as time.strptime, but all the fields must have their full width (a requirement of xsd; Python also accepts,
+    eg, '2008-1-1').
+
+    @param v: the string to be parsed
+    @param form: the format, see time.strptime
+    @return the same as time.strptime
+    @raise ValueError: invalid value
+    """
+    result = time.strptime(v, form)
+    if not v.isascii() or len(v) != len(time.strftime(form, time.gmtime(0))):
+        raise ValueError("Invalid date or time value %s" % v)
+    return result
+
+
 # noinspection PyPep8Naming
 def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     """Test (and convert) datetime and date timestamp values.
@@ -389,7 +404,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
-        tstr = time.strptime(final_v, "%Y-%m-%dT%H:%M:%S")
+        tstr = _strptime(final_v, "%Y-%m-%dT%H:%M:%S")
         if tzone is not None:
             return datetime.datetime(
                 tstr.tm_year,
@@ -440,7 +455,7 @@ def _strToTime(incoming_v):
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
-        tstr = time.strptime(final_v, "%H:%M:%S")
+        tstr = _strptime(final_v, "%H:%M:%S")
         if tzone is not None:
             return datetime.time(
                 tstr.tm_hour, tstr.tm_min, tstr.tm_sec, microseconds, tzone
@@ -465,7 +480,7 @@ def _strToDate(incoming_v):
 
     # This may raise an exception...
     try:
-        tstr = time.strptime(final_v, "%Y-%m-%d")
+        tstr = _strptime(final_v, "%Y-%m-%d")
         return datetime.date(tstr.tm_year, tstr.tm_mon, tstr.tm_mday)
     except:
         raise ValueError("Invalid date %s" % incoming_v)
-- 
2.43.0


From 846a56a3333698908130e51a11fac0dd8feb7a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 15/63] fix: 24:00:00 is a valid xsd:time, and also valid in
 xsd:dateTime

---
 owlrl/DatatypeHandling.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index fdbb678..5dec5bc 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -401,6 +401,12 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
         final_v = match.groups()[0]
         microseconds = int(match.groups()[2][:6].ljust(6, "0"))
     #
+    # the midnight that ends a day; Python knows only the one that starts the next day
+    days = datetime.timedelta(0)
+    if final_v.endswith("T24:00:00") and microseconds == 0:
+        final_v = final_v[:-8] + "00:00:00"
+        days = datetime.timedelta(days=1)
+    #
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
@@ -415,7 +421,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
                 tstr.tm_sec,
                 microseconds,
                 tzone,
-            )
+            ) + days
         else:
             return datetime.datetime(
                 tstr.tm_year,
@@ -425,7 +431,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
                 tstr.tm_min,
                 tstr.tm_sec,
                 microseconds,
-            )
+            ) + days
     except:
         raise ValueError("Invalid datetime %s" % incoming_v)
 
@@ -452,6 +458,10 @@ def _strToTime(incoming_v):
         final_v = match.groups()[0]
         microseconds = int(match.groups()[2][:6].ljust(6, "0"))
     #
+    # the midnight that ends a day is the same time as the one that starts the next day
+    if final_v == "24:00:00" and microseconds == 0:
+        final_v = "00:00:00"
+    #
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
-- 
2.43.0


From a1a0ed4b86ef0da9582648aac2ba8f654498b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 16/63] fix: lexical forms of the xsd:g... types

The leading dashes were not accepted (but the forms without them were), nor were
timezones, and single digit fields passed.
---
 owlrl/DatatypeHandling.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 5dec5bc..55f5caa 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -500,6 +500,28 @@ def _strToDate(incoming_v):
 # The 'g' datatypes (eg, gYear) cannot be directly represented as a python datatype
 # the series of methods below simply check whether the incoming string is o.k., but the
 # returned value is the same as the original
+# regular expression for a year: at least four digits, no superfluous zeros
+_re_year = r"-?(?:[1-9][0-9]{3,}|0[0-9]{3})"
+
+
+# noinspection PyPep8Naming
+def _strToGregorian(v, pattern, prefix, suffix):
+    """Common part of the checks below.
+
+    @param v: the literal string
+    @param pattern: regular expression of the lexical form, the part without its dashes (and the timezone) in a group
+    @param prefix: what is missing, at the beginning, from a complete date
+    @param suffix: what is missing, at the end, from a complete date
+    @return v
+    @raise ValueError: invalid value
+    """
+    match = re.fullmatch(pattern, _returnTimeZone(v)[0])
+    if match is None:
+        raise ValueError("Invalid value %s" % v)
+    time.strptime(prefix + match.groups()[0] + suffix, "%Y-%m-%d")
+    return v
+
+
 # noinspection PyPep8Naming
 def _strTogYearMonth(v):
     """Test gYearMonth value
@@ -508,8 +530,7 @@ def _strTogYearMonth(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime(v + "-01", "%Y-%m-%d")
-        return v
+        return _strToGregorian(v, _re_year + "-([0-9]{2})", "2008-", "-01")
     except:
         raise ValueError("Invalid gYearMonth %s" % v)
 
@@ -522,8 +543,8 @@ def _strTogYear(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime(v + "-01-01", "%Y-%m-%d")
-        return v
+        # any year is o.k., there is nothing else to be checked
+        return _strToGregorian(v, _re_year + "()", "2008-01-01", "")
     except:
         raise ValueError("Invalid gYear %s" % v)
 
@@ -536,8 +557,7 @@ def _strTogMonthDay(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2008-" + v, "%Y-%m-%d")
-        return v
+        return _strToGregorian(v, r"--([0-9]{2}-[0-9]{2})", "2008-", "")
     except:
         raise ValueError("Invalid gMonthDay %s" % v)
 
@@ -550,8 +570,7 @@ def _strTogDay(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2001-01-" + v, "%Y-%m-%d")
-        return v
+        return _strToGregorian(v, r"---([0-9]{2})", "2001-01-", "")
     except:
         raise ValueError("Invalid gDay %s" % v)
 
@@ -564,8 +583,7 @@ def _strTogMonth(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2001-" + v + "-01", "%Y-%m-%d")
-        return v
+        return _strToGregorian(v, r"--([0-9]{2})", "2001-", "-01")
     except:
         raise ValueError("Invalid gMonth %s" % v)
 
-- 
2.43.0


From 03baba34c98e32e180ea68763e36195c5ea97e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 17/63] fix: rdf:XMLLiteral can be any well-formed XML content,
 eg plain text

---
 owlrl/DatatypeHandling.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 55f5caa..e5d5722 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -599,8 +599,11 @@ def _strToXMLLiteral(v):
     import xml.dom.minidom
 
     try:
-        dom = xml.dom.minidom.parseString(v)
-        return dom.toxml()
+        # the literal is the content of an element; it does not have to be a single element
+        dom = xml.dom.minidom.parseString("<root>%s</root>" % v)
+        if len(dom.childNodes) != 1:
+            raise ValueError("Invalid XML Literal %s" % v)
+        return "".join(n.toxml() for n in dom.documentElement.childNodes)
     except:
         raise ValueError("Invalid XML Literal %s" % v)
 
-- 
2.43.0


From bb364863ff57b4d8c84b9c9240ccfdc28713a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 18/63] fix: the empty string is a valid xsd:normalizedString

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index e5d5722..a38b493 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -651,7 +651,7 @@ def _strToVal_Regexp(v, regexp, flag=0, excludeStart=[]):
 
 
 # Disallowed characters in a token or a normalized string, as a regexp
-_re_token = "[^\n\t\r]+"
+_re_token = "[^\n\t\r]*"
 
 
 # noinspection PyPep8Naming
-- 
2.43.0


From ab4ebd468415baa094588d470cf80cfbf212411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 19/63] fix: rdf:PlainLiteral values can contain line breaks

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index a38b493..7b40aa7 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -684,7 +684,7 @@ def _strToPlainLiteral(v):
     """
     reg = "(.*)@([^@]*)"
     # a plain literal must match this regexp!
-    match = re.match(reg, v)
+    match = re.match(reg, v, re.DOTALL)
     if match is None:
         raise ValueError("Invalid plain literal %s" % v)
     else:
-- 
2.43.0


From 9232dd0ead80b64aa6b0c67f98a53259dcf05610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 20/63] fix: allValuesFrom restrictions on faceted datatypes
 were never checked

The check still used the literal proxies, which do not exist any more, and the
resulting AttributeError was interpreted as 'no violation'.
---
 owlrl/OWLRLExtras.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 64c3734..0841691 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -43,6 +43,7 @@ from typing import Union
 
 import rdflib
 from rdflib import Graph
+from rdflib import Literal
 from rdflib.namespace import RDF, RDFS, OWL, XSD
 
 from fractions import Fraction as Rational
@@ -201,10 +202,8 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             for rt in self.restricted_datatypes:
                 if rt.datatype == t:
                     # bingo
-                    if v in self.literal_proxies.bnode_to_lit:
-                        return rt.checkValue(
-                            self.literal_proxies.bnode_to_lit[v].lit.toPython()
-                        )
+                    if isinstance(v, Literal):
+                        return rt.checkValue(v.toPython())
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From ba2bf9c20ce37e76e775146d0b71fcae409b81b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 21/63] fix: datatypes with length or pattern facets were
 dropped

RDF.langRange raises an AttributeError (the term is not defined in RDFLib's
closed RDF namespace), reported as an error message for any facet after the
min/max ones.
---
 owlrl/RestrictedDatatype.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index ac45d78..5fe0352 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -58,10 +58,14 @@ import re
 
 from rdflib.namespace import OWL, RDF, RDFS, XSD
 from rdflib import Literal as rdflibLiteral
+from rdflib import URIRef
 
 from .DatatypeHandling import AltXSDToPYTHON
 from functools import reduce
 
+# The langRange facet (not part of the closed RDF namespace of RDFLib)
+RDF_langRange = URIRef(str(RDF) + "langRange")
+
 # Constant for datatypes using min, max (inclusive and exclusive):
 MIN_MAX = 0
 # Constant for datatypes using length, minLength, and maxLength (and nothing else)
@@ -381,7 +385,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 self.maxExclusive is None or value < self.maxExclusive
             ):
                 self.maxExclusive = value
-            elif facet == RDF.langRange:
+            elif facet == RDF_langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
                 self.length = value
-- 
2.43.0


From 81ae811c29c044cb0f3f34859563044758426e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 22/63] fix: xsd:int and xsd:token could not be restricted with
 facets

---
 owlrl/RestrictedDatatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 5fe0352..997f52e 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -87,6 +87,7 @@ Datatypes_per_facets = {
         XSD.positiveInteger,
         XSD.negativeInteger,
         XSD.long,
+        XSD.int,
         XSD.short,
         XSD.byte,
         XSD.unsignedLong,
@@ -104,6 +105,7 @@ Datatypes_per_facets = {
     LENGTH_AND_PATTERN: [
         XSD.anyURI,
         XSD.string,
+        XSD.token,
         XSD.NMTOKEN,
         XSD.Name,
         XSD.NCName,
-- 
2.43.0


From c1ac510d5b99ea9bf9c4b50f3371bbd7e7c67a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 23/63] fix: the pattern facet has to match the whole value

---
 owlrl/RestrictedDatatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 997f52e..357525d 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -547,7 +547,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         else:
             val = value
         for p in self.pattern:
-            if p.match(val) is None:
+            if p.fullmatch(val) is None:
                 return False
         return True
 
-- 
2.43.0


From 9dc80318c4a269871ab17d30b4da51bd3cf102e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 24/63] fix: facets of rdf:PlainLiteral

The pattern facet was ignored, and a value without a language tag raised an
exception for the language range.
---
 owlrl/RestrictedDatatype.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 357525d..294de8b 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -425,6 +425,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 RestrictedDatatype._check_min_length,
                 RestrictedDatatype._check_max_length,
                 RestrictedDatatype._check_length,
+                RestrictedDatatype._check_pattern,
                 RestrictedDatatype._check_lang_range,
             ],
         }
@@ -559,6 +560,9 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         """
         if isinstance(value, rdflibLiteral):
             lang = value.language
+            if lang is None:
+                # no language tag at all; not in any language range
+                return len(self.langRange) == 0
         else:
             return False
         for r in self.langRange:
-- 
2.43.0


From 967db4ef907965a0206743ea9b9e1bdae4639d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 25/63] fix: contradicting length facets

An arbitrary one of them was used.
---
 owlrl/RestrictedDatatype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 294de8b..58ad50b 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -390,7 +390,8 @@ class RestrictedDatatype(RestrictedDatatypeCore):
             elif facet == RDF_langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
-                self.length = value
+                # (if there are several different values then nothing can have all those lengths)
+                self.length = value if self.length in (None, value) else -1
             elif facet == XSD.maxLength and (
                 self.maxLength is None or value < self.maxLength
             ):
-- 
2.43.0


From 3c0f4ae9e066581928dbca9d0cc3352c6d9dbda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 26/63] fix: facets were checked against RDFLib's values of the
 literals

The literals of the graph are usually created before expand() sets the improved
conversions, ie, floats were compared to Decimals (0.1 is not <= 0.1), and plain
literals had no language.
---
 owlrl/OWLRLExtras.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 0841691..0dcd6ed 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -175,7 +175,8 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if (lt, RDF.type, base_type) in self.graph:
                     try:
                         # the conversion or the check may go wrong and raise an exception; then simply move on
-                        if rt.checkValue(lt.toPython()):
+                        # (note that the literal itself may have been created with RDFLib's own conversions)
+                        if rt.checkValue(rt.converter(str(lt))):
                             # yep, this is also of type 'rt'
                             self.store_triple((lt, RDF.type, rt.datatype))
                     except:
@@ -202,8 +203,11 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             for rt in self.restricted_datatypes:
                 if rt.datatype == t:
                     # bingo
-                    if isinstance(v, Literal):
-                        return rt.checkValue(v.toPython())
+                    if (
+                        isinstance(v, Literal)
+                        and (v, RDF.type, rt.base_type) in self.graph
+                    ):
+                        return rt.checkValue(rt.converter(str(v)))
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From 2065dd1565a2875872b350a328e22c4d2ade53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 27/63] fix: datatype subsumption is transitive for extension
 datatypes, too

An xsd:integer literal was not an owl:rational (only xsd:decimal was), and a
literal of a restricted datatype only had its direct base type.
---
 owlrl/OWLRL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index bc9d9ea..38f9c91 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -194,6 +194,8 @@ class OWLRL_Semantics(Core):
                     self.store_triple((r, RDF.type, new_dt))
                     self.store_triple((new_dt, RDF.type, RDFS.Datatype))
                     used_datatypes.add(new_dt)
+                    # the extra datatypes of the extensions refer to their direct superclass only
+                    _handle_subsumptions(r, new_dt)
 
         # explicit object->datatype relationships: those that came from an object being typed as a datatype
         # or a sameAs. The values are arrays of datatypes to which the resource belong
-- 
2.43.0


From a9db84e56dcbec6c336450c660af051f1495ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 28/63] fix: xsd:NMTOKEN is not derived from xsd:Name

'1st'^^xsd:NMTOKEN was inferred to be an xsd:Name.
---
 owlrl/XsdDatatypes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/owlrl/XsdDatatypes.py b/owlrl/XsdDatatypes.py
index adb4a9a..d881af3 100755
--- a/owlrl/XsdDatatypes.py
+++ b/owlrl/XsdDatatypes.py
@@ -145,7 +145,6 @@ _Common_Datatype_Subsumptions = {
         XSD.string,
     ],
     XSD.NMTOKEN: [
-        XSD.Name,
         XSD.token,
         XSD.normalizedString,
         XSD.string,
-- 
2.43.0


From 244c66ff09750b20e929004ae61baf403635ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 29/63] fix: ill-typed literals are not typed with the datatype
 they do not belong to

In the words of the test: '-1'^^xsd:nonNegativeInteger 'is not supposed' to be an
xsd:nonNegativeInteger, let alone an xsd:decimal.
---
 owlrl/OWLRL.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 38f9c91..96fd1bc 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -217,17 +217,18 @@ class OWLRL_Semantics(Core):
         # RULE dt-type2: for all explicit literals the corresponding bnode should get the right type
         # definition. The 'implicit' dictionary is also filled on the fly
         # RULE dt-not-type: see whether an explicit literal is valid in terms of the defined datatype
-        for lt in implicit:  # note that all non-RL datatypes are ignored
-            # add the explicit typing triple
-            self.store_triple((lt, RDF.type, lt.datatype))
-
+        for lt in list(implicit):  # note that all non-RL datatypes are ignored
             # for dt-not-type
             # This is a dirty trick: rdflib's Literal includes a method that raises an exception if the
             # lexical value cannot be mapped on the value space.
             converter = AltXSDToPYTHON.get(lt.datatype, identity)
             try:
                 converter(str(lt))
+                # add the explicit typing triple
+                self.store_triple((lt, RDF.type, lt.datatype))
             except ValueError:
+                # an ill-typed literal does not belong to its datatype
+                del implicit[lt]
                 self.add_error(
                     "Lexical value of the literal '%s' does not match"
                     " its datatype (%s)" % (lt, lt.datatype)
-- 
2.43.0


From 5392006ed51571e9a9232e78b227967810ab75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 30/63] fix: '1/2/3' is not a valid owl:rational

---
 owlrl/OWLRLExtras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 0dcd6ed..4b72d18 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -80,9 +80,11 @@ def _strToRational(v):
         if len(r) == 2:
             n_str = r[0]
             d_str = r[1]
-        else:
+        elif len(r) == 1:
             n_str = r[0]
             d_str = "1"
+        else:
+            raise ValueError("Invalid Rational literal value %s" % v)
         if d_str.strip()[0] == "+":
             raise ValueError("Invalid Rational literal value %s" % v)
         else:
-- 
2.43.0


From 79a19c2a5158dfd50bf0d02a6112cfbd0073e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 31/63] fix: RDFLib's literal conversions were not completely
 restored

The conversions of those datatypes that RDFLib itself does not know (NMTOKEN,
Name, PlainLiteral, dateTimeStamp, gYear, ...) stayed behind, and the
conversions bound by the application to any datatype were lost.
---
 owlrl/DatatypeHandling.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 7b40aa7..d1f1a00 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -36,7 +36,7 @@ __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/L
 # from owlrl.RDFS import RDFNS as ns_rdf
 from rdflib.namespace import RDF, XSD
 
-from rdflib.term import XSDToPython, Literal, _toPythonMapping
+from rdflib.term import Literal, _toPythonMapping
 
 import datetime, time, re
 from decimal import Decimal
@@ -753,6 +753,12 @@ AltXSDToPYTHON = {
 }
 
 
+# The conversion functions of RDFLib that have been replaced by the ones above, to be able to restore them
+_replaced_conversions = {}
+# Value in that dictionary for the datatypes that RDFLib does not convert
+_no_conversion = object()
+
+
 def use_Alt_lexical_conversions():
     """
     Registering the datatypes item for RDFLib, ie, bind the dictionary values. The 'bind' method of RDFLib adds
@@ -760,14 +766,22 @@ def use_Alt_lexical_conversions():
     overrides all of the default conversion routines. The method also add a Decimal entry to the :code:`PythonToXSD` list of
     RDFLib.
     """
-    _toPythonMapping.update(AltXSDToPYTHON)
+    for dt, conversion_function in AltXSDToPYTHON.items():
+        if dt not in _replaced_conversions:
+            _replaced_conversions[dt] = _toPythonMapping.get(dt, _no_conversion)
+        _toPythonMapping[dt] = conversion_function
 
 
 def use_RDFLib_lexical_conversions():
     """
     Restore the original (ie, RDFLib) set of lexical conversion routines.
     """
-    _toPythonMapping.update(XSDToPython)
+    for dt, conversion_function in _replaced_conversions.items():
+        if conversion_function is _no_conversion:
+            _toPythonMapping.pop(dt, None)
+        else:
+            _toPythonMapping[dt] = conversion_function
+    _replaced_conversions.clear()
 
 
 #######################################################################################
-- 
2.43.0


From bc39e83be7ea5122367eb03029e5c0456adbf97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 32/63] fix: the literal conversions are restored if the
 closure raises an exception

---
 owlrl/__init__.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 8f86445..5cb1639 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -395,20 +395,24 @@ class DeductiveClosure:
         :param destination: The RDF graph to which the results are written. If not specified, the graph is modified in-place.
         :type destination: :class:`rdflib.Graph`
         """
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
+        improve = (
+            not DeductiveClosure.improved_datatype_generic
+        ) and self.improved_datatypes
+        if improve:
             DatatypeHandling.use_Alt_lexical_conversions()
 
-        if self.closure_class is not None:
-            self.closure_class(
-                graph,
-                self.axiomatic_triples,
-                self.datatype_axioms,
-                rdfs=self.rdfs_closure,
-                destination=destination
-            ).closure()
-
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_RDFLib_lexical_conversions()
+        try:
+            if self.closure_class is not None:
+                self.closure_class(
+                    graph,
+                    self.axiomatic_triples,
+                    self.datatype_axioms,
+                    rdfs=self.rdfs_closure,
+                    destination=destination
+                ).closure()
+        finally:
+            if improve:
+                DatatypeHandling.use_RDFLib_lexical_conversions()
 
     @staticmethod
     def use_improved_datatypes_conversions():
-- 
2.43.0


From 4774feac4628e8634a1522f8c6a165df309c7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 33/63] fix: datatypes registered by an extension leaked into
 later expansions

owl:rational and the restricted datatypes of a graph stayed in the module level
tables, and changed the result for any other graph expanded later.
---
 owlrl/__init__.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 5cb1639..10c421c 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -165,17 +165,20 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
+from copy import copy
 from typing import Union
 
 # noinspection PyPackageRequirements,PyPackageRequirements,PyPackageRequirements
 import rdflib
 from rdflib import Graph, Literal
+from rdflib.term import _toPythonMapping
 
 from . import DatatypeHandling, Closure
 from .OWLRLExtras import OWLRL_Extension, OWLRL_Extension_Trimming
 from .OWLRL import OWLRL_Semantics
 from .RDFSClosure import RDFS_Semantics
 from .CombinedClosure import RDFS_OWLRL_Semantics
+from .XsdDatatypes import OWL_RL_Datatypes, OWL_Datatype_Subsumptions
 from rdflib.namespace import OWL
 
 RDFXML = "xml"
@@ -395,6 +398,18 @@ class DeductiveClosure:
         :param destination: The RDF graph to which the results are written. If not specified, the graph is modified in-place.
         :type destination: :class:`rdflib.Graph`
         """
+        # closures may register extra datatypes (see RDFS_OWLRL_Semantics.add_new_datatype), eg, those that are defined
+        # in the graph; these are not meant for other graphs
+        tables = [
+            (table, copy(table))
+            for table in (
+                OWL_RL_Datatypes,
+                OWL_Datatype_Subsumptions,
+                DatatypeHandling.AltXSDToPYTHON,
+                _toPythonMapping,
+            )
+        ]
+
         improve = (
             not DeductiveClosure.improved_datatype_generic
         ) and self.improved_datatypes
@@ -413,6 +428,12 @@ class DeductiveClosure:
         finally:
             if improve:
                 DatatypeHandling.use_RDFLib_lexical_conversions()
+            for table, content in tables:
+                table.clear()
+                if isinstance(table, list):
+                    table.extend(content)
+                else:
+                    table.update(content)
 
     @staticmethod
     def use_improved_datatypes_conversions():
-- 
2.43.0


From a17572f31994f213761a5f250c76edad237d9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 34/63] fix: the extensions switched all improved conversions
 on, even if not requested

Registering a new datatype concerns the conversion of that datatype only.
---
 owlrl/CombinedClosure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/owlrl/CombinedClosure.py b/owlrl/CombinedClosure.py
index 9ea95c9..777bb0c 100755
--- a/owlrl/CombinedClosure.py
+++ b/owlrl/CombinedClosure.py
@@ -127,7 +127,8 @@ class RDFS_OWLRL_Semantics(RDFS_Semantics, OWLRL_Semantics):
             superclasses of the new datatype).
         :type subsumption_list: list
         """
-        from .DatatypeHandling import AltXSDToPYTHON, use_Alt_lexical_conversions
+        from rdflib.term import _toPythonMapping
+        from .DatatypeHandling import AltXSDToPYTHON
 
         if datatype_list:
             datatype_list.append(uri)
@@ -139,7 +140,7 @@ class RDFS_OWLRL_Semantics(RDFS_Semantics, OWLRL_Semantics):
                 subsumption_dict[uri] = subsumption_list
 
         AltXSDToPYTHON[uri] = conversion_function
-        use_Alt_lexical_conversions()
+        _toPythonMapping[uri] = conversion_function
 
     def post_process(self):
         """
-- 
2.43.0


From 43300befb0838ff6710eebb760bf110c8a787bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 35/63] fix: a cyclic rdf:List made the closure fail with a
 ValueError

---
 owlrl/OWLRL.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 96fd1bc..682d7f3 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -122,7 +122,14 @@ class OWLRL_Semantics(Core):
         @param l: RDFLib resource, should be the head of an rdf:List
         @return: array of resources
         """
-        return [ch for ch in self.graph.items(l)]
+        retval = []
+        try:
+            for ch in self.graph.items(l):
+                retval.append(ch)
+        except ValueError:
+            # the list is cyclic, ie, it is not a list
+            return []
+        return retval
 
     def post_process(self):
         """
-- 
2.43.0


From 2542b4d8a9e94d3b037c450acd4b5534576ff0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 36/63] fix: max cardinality with anything but a number

A resource as cardinality made the closure fail with an AttributeError, and the
boolean 'true' was regarded as 1.
---
 owlrl/OWLRL.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 682d7f3..b20ac22 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -61,6 +61,18 @@ from .DatatypeHandling import AltXSDToPYTHON
 identity = lambda v: v
 
 
+def _cardinality(v):
+    """
+    The value of a cardinality restriction.
+
+    @param v: object of the cardinality triple
+    @return: a number, or None if the object is not a number
+    """
+    if isinstance(v, rdflib.Literal) and not isinstance(v.value, bool):
+        return v.value
+    return None
+
+
 #######################################################################################################################
 
 
@@ -746,7 +758,7 @@ class OWLRL_Semantics(Core):
             # The construct should lead to an integer. Something may go wrong along the line
             # leading to an exception...
             xx = c
-            if x.value == 0:
+            if _cardinality(x) == 0:
                 # RULE cls-maxc1
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for u, y in self.graph.subject_objects(pp):
@@ -756,7 +768,7 @@ class OWLRL_Semantics(Core):
                                 "Erroneous usage of maximum cardinality with %s and %s"
                                 % (xx, y)
                             )
-            elif x.value == 1:
+            elif _cardinality(x) == 1:
                 # RULE cls-maxc2
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for u, y1 in self.graph.subject_objects(pp):
@@ -773,7 +785,7 @@ class OWLRL_Semantics(Core):
             # The construct should lead to an integer. Something may go wrong along the line
             # leading to an exception...
             xx = c
-            if x.value == 0:
+            if _cardinality(x) == 0:
                 # RULES cls-maxqc1 and cls-maxqc2 folded in one
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for cc in self.graph.objects(xx, OWL.onClass):
@@ -786,7 +798,7 @@ class OWLRL_Semantics(Core):
                                     "Erroneous usage of maximum qualified cardinality with %s, %s and %s"
                                     % (xx, cc, y)
                                 )
-            elif x.value == 1:
+            elif _cardinality(x) == 1:
                 # RULE cls-maxqc3 and cls-maxqc4 folded in one
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for cc in self.graph.objects(xx, OWL.onClass):
-- 
2.43.0


From 9bf5c6d70ce3128f8ab04b06c84b3a777637a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 37/63] fix: rdfs4a and rdfs4b are valid for the derived
 triples, too

The result was not closed under the RDFS rules: expanding it again added further
triples.
---
 owlrl/RDFSClosure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index c3020b8..5bfc2f6 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -157,11 +157,9 @@ class RDFS_Semantics(Core):
         # rdf1
         self.store_triple((p, RDF.type, RDF.Property))
         # rdfs4a
-        if cycle_num == 1:
-            self.store_triple((s, RDF.type, RDFS.Resource))
+        self.store_triple((s, RDF.type, RDFS.Resource))
         # rdfs4b
-        if cycle_num == 1:
-            self.store_triple((o, RDF.type, RDFS.Resource))
+        self.store_triple((o, RDF.type, RDFS.Resource))
         if p == RDFS.domain:
             # rdfs2
             for uuu, Y, yyy in self.graph.triples((None, s, None)):
-- 
2.43.0


From 020df2a022e96d65d00707fe091253b97d5fe80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 38/63] fix: RDFS closure mixed up literals of different value
 spaces

The number 1 was regarded as the same as the boolean true or the float 1.0, and
strings in different languages as the same string.
---
 owlrl/RDFSClosure.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 5bfc2f6..589c340 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -31,14 +31,32 @@ from typing import Union
 
 import rdflib
 from rdflib import Literal, Graph
-from rdflib.namespace import RDF, RDFS
+from rdflib.namespace import RDF, RDFS, XSD
 from itertools import product
 from owlrl.Closure import Core
 from owlrl.AxiomaticTriples import RDFS_Axiomatic_Triples, RDFS_D_Axiomatic_Triples
+from owlrl.XsdDatatypes import RDFS_Datatype_Subsumptions
 
 
 ######################################################################################################
 
+def _value_space(lt):
+    """
+    The value space of a literal. Python regards some values as equal (eg, the number 1, the floating point 1.0, and
+    True; or strings in different languages) although they are different in RDF.
+
+    :param lt: A literal.
+    :return: A value that is different for literals in disjoint value spaces.
+    """
+    if lt.language is not None:
+        return lt.language.lower()
+    dt = lt.datatype or XSD.string
+    for supertype in (XSD.decimal, XSD.string, XSD.dateTime):
+        if supertype in RDFS_Datatype_Subsumptions.get(dt, []):
+            return supertype
+    return dt
+
+
 # RDFS Semantics class
 # noinspection PyPep8Naming
 class RDFS_Semantics(Core):
@@ -111,7 +129,9 @@ class RDFS_Semantics(Core):
 
     @staticmethod
     def _literals_same_as(lt1, lt2):
-        if lt1.value is not None and lt2.value is not None:
+        if _value_space(lt1) != _value_space(lt2):
+            return False
+        elif lt1.value is not None and lt2.value is not None:
             return lt1.value == lt2.value
         elif lt1.datatype is not None and lt2.datatype is not None:
             return lt1.__eq__(lt2)
-- 
2.43.0


From ff4ac1c7b5e67a938f21dc18bfc19232babe8843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 39/63] fix: reflexive conclusions of scm-sco, scm-spo, scm-eqc
 and scm-eqp

They were skipped as being 'set elsewhere', which is true for declared classes
and properties only.
---
 owlrl/OWLRL.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index b20ac22..dec0edc 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -905,18 +905,16 @@ class OWLRL_Semantics(Core):
         elif p == RDFS.subClassOf:
             c1, c2 = s, o
             # RULE scm-sco
-            # Optimize out the trivial identity case (set elsewhere already)
+            # Optimize out the trivial identity case
             if c1 != c2:
                 for c3 in self.graph.objects(c2, RDFS.subClassOf):
-                    # Another axiom already sets that...
-                    if c1 != c3:
-                        self.store_triple((c1, RDFS.subClassOf, c3))
+                    self.store_triple((c1, RDFS.subClassOf, c3))
             # RULE scm-eqc2
             if (c2, RDFS.subClassOf, c1) in self.graph:
                 self.store_triple((c1, OWL.equivalentClass, c2))
 
         # RULE scm-eqc
-        elif p == OWL.equivalentClass and s != o:
+        elif p == OWL.equivalentClass:
             c1, c2 = s, o
             self.store_triple((c1, RDFS.subClassOf, c2))
             self.store_triple((c2, RDFS.subClassOf, c1))
@@ -932,22 +930,20 @@ class OWLRL_Semantics(Core):
 
         # RULE scm-spo
         # RULE scm-eqp2
-        elif p == RDFS.subPropertyOf and s != o:
+        elif p == RDFS.subPropertyOf:
             p1, p2 = s, o
-            # Optimize out the trivial identity case (set elsewhere already)
+            # Optimize out the trivial identity case
             # RULE scm-spo
             if p1 != p2:
                 for p3 in self.graph.objects(p2, RDFS.subPropertyOf):
-                    if p1 != p3:
-                        self.store_triple((p1, RDFS.subPropertyOf, p3))
+                    self.store_triple((p1, RDFS.subPropertyOf, p3))
 
             # RULE scm-eqp2
             if (p2, RDFS.subPropertyOf, p1) in self.graph:
                 self.store_triple((p1, OWL.equivalentProperty, p2))
 
         # RULE scm-eqp
-        # Optimize out the trivial identity case (set elsewhere already)
-        elif p == OWL.equivalentProperty and s != o:
+        elif p == OWL.equivalentProperty:
             p1, p2 = s, o
             self.store_triple((p1, RDFS.subPropertyOf, p2))
             self.store_triple((p2, RDFS.subPropertyOf, p1))
-- 
2.43.0


From 4a1345173caa7e5e282932cdfd96e11e230ae76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 40/63] fix: datatype axioms of xsd:nonNegativeInteger and
 xsd:negativeInteger

The declarations of their counterparts were listed twice instead.
---
 owlrl/AxiomaticTriples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 5eeec22..29b1df7 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -142,9 +142,9 @@ RDFS_D_Axiomatic_Triples_types = [
     (XSD.integer, RDF.type, RDFS.Datatype),
     (XSD.decimal, RDF.type, RDFS.Datatype),
     (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.positiveInteger, RDF.type, RDFS.Datatype),
+    (XSD.nonNegativeInteger, RDF.type, RDFS.Datatype),
     (XSD.positiveInteger, RDF.type, RDFS.Datatype),
+    (XSD.negativeInteger, RDF.type, RDFS.Datatype),
     (XSD.long, RDF.type, RDFS.Datatype),
     (XSD.int, RDF.type, RDFS.Datatype),
     (XSD.short, RDF.type, RDFS.Datatype),
-- 
2.43.0


From 267b60b546d6ec8c564721bfd176f69625d1c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 41/63] fix: container membership axioms for the rdf:_i
 properties in use

The search for the indices stopped at the first gap, skipped _2 if there were two
_1 triples, and ignored the named graphs of a dataset.
---
 owlrl/Closure.py     | 26 ++++++++++++--------------
 owlrl/RDFSClosure.py |  2 +-
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 6cfd747..b9a30f2 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -25,6 +25,7 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
+import re
 from typing import Union
 
 import rdflib
@@ -70,6 +71,9 @@ class Core:
     :var IMaxNum: Maximal index of :code:`rdf:_i` occurrence in the graph.
     :type IMaxNum: int
 
+    :var container_indices: All the indices of :code:`rdf:_i` predicates in the graph.
+    :type container_indices: set of int
+
     :var graph: The real graph.
     :type graph: :class:`rdflib.Graph`
 
@@ -108,24 +112,18 @@ class Core:
         """
         self._debug = debugGlobal
 
-        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
-        n = 1
-        maxnum = 0
-        cont = True
-        while cont:
-            cont = False
-            predicate = RDF[("_%d" % n)]
-            for (s, p, o) in graph.triples((None, predicate, None)):
-                # there is at least one if we got here
-                maxnum = n
-                n += 1
-                cont = True
-        self.IMaxNum = maxnum
-
         self.graph = graph
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
+        # Collect the 'n' values for the '_n' type predicates of the graph (see Horst's paper)
+        self.container_indices = set()
+        for p in self.graph.predicates():
+            match = re.fullmatch(re.escape(str(RDF)) + "_([1-9][0-9]*)", str(p))
+            if match is not None:
+                self.container_indices.add(int(match.group(1)))
+        self.IMaxNum = max(self.container_indices, default=0)
+
         if destination is None:
             if isinstance(graph, (Dataset, ConjunctiveGraph)):
                 self.destination = graph.default_context
diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 589c340..3f22a50 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -108,7 +108,7 @@ class RDFS_Semantics(Core):
         """
         for t in RDFS_Axiomatic_Triples:
             self.destination.add(t)
-        for i in range(1, self.IMaxNum + 1):
+        for i in self.container_indices:
             ci = RDF[("_%d" % i)]
             self.destination.add((ci, RDF.type, RDF.Property))
             self.destination.add((ci, RDFS.domain, RDFS.Resource))
-- 
2.43.0


From 57af3667df91b3ca9821654f5377a47992a6ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 42/63] fix: error message for a destination graph with another
 store

---
 owlrl/Closure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index b9a30f2..f623d38 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -139,7 +139,7 @@ class Core:
                 source_store = self.graph.store
                 dest_store = destination.store
                 if source_store is not dest_store:
-                    raise ValueError("The source and destination graphs share the same backing store")
+                    raise ValueError("The source and destination graphs must share the same backing store")
                 self.destination = destination
 
         self.axioms = axioms
-- 
2.43.0


From 2270237d761f768ba1d6b58024249c9a2e34eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 43/63] fix: the removal of blank node predicates changed the
 source graph

Results are written to the destination only.
---
 owlrl/OWLRL.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index dec0edc..f86c5f2 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -154,7 +154,6 @@ class OWLRL_Semantics(Core):
                     to_be_removed.append(t)
         for t in to_be_removed:
             self.destination.remove(t)
-            self.graph.remove(t)
 
     def add_axioms(self):
         """
-- 
2.43.0


From 505ad9ba3f43ddf0eb7ee0faec6fff8e5bfb22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 44/63] fix: destination graph of a plain source graph did not
 get the complete set of conclusions

The rules only saw the source graph, never what had been inferred into the destination.
---
 owlrl/Closure.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index f623d38..517b052 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -31,6 +31,7 @@ from typing import Union
 import rdflib
 from rdflib.namespace import RDF
 from rdflib import BNode, Literal, Graph, Dataset
+from rdflib.graph import ReadOnlyGraphAggregate
 from .Namespaces import ERRNS
 
 try:
@@ -141,6 +142,12 @@ class Core:
                 if source_store is not dest_store:
                     raise ValueError("The source and destination graphs must share the same backing store")
                 self.destination = destination
+                if (
+                    not isinstance(graph, (Dataset, ConjunctiveGraph))
+                    and destination != graph
+                ):
+                    # the rules must also see what has been inferred so far
+                    self.graph = ReadOnlyGraphAggregate([graph, destination])
 
         self.axioms = axioms
         self.daxioms = daxioms
-- 
2.43.0


From 26622ff0f6c73fea306e3e2e851fc54c374b55fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 45/63] fix: circular owl:imports made interpret_owl_imports
 loop forever

A document that is imported several times was also loaded several times.
---
 owlrl/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 10c421c..83d3aa9 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -246,6 +246,8 @@ def interpret_owl_imports(iformat, graph):
     :param graph: The RDFLib Graph instance to parse into.
     :type graph: :class:`RDFLib.Graph`
     """
+    # documents that have already been loaded; each of them is loaded once, also when the import statements are circular
+    loaded = set()
     while True:
         # 1. collect the import statements:
         all_imports = [t for t in graph.triples((None, OWL.imports, None))]
@@ -257,6 +259,9 @@ def interpret_owl_imports(iformat, graph):
             graph.remove(t)
         # 3. get all the imported vocabularies and import them
         for (s, p, uri) in all_imports:
+            if str(uri) in loaded:
+                continue
+            loaded.add(str(uri))
             # this is not 100% kosher. The expected object for an import statement is a URI. However,
             # on local usage, a string would also make sense, so I do that one, too
             if isinstance(uri, Literal):
-- 
2.43.0


From 1494922f4b0bcdb391f8ba5f39f7aa90cffd7f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 46/63] fix: the RDF/XML format option of convert_graph was
 'rdfxml' for the output and 'xml' for the input

The command line uses 'xml' for both and got Turtle output; the documented 'rdfxml' was rejected as an input format.
---
 owlrl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 83d3aa9..a677826 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -214,7 +214,7 @@ def __parse_input(iformat, inp, graph):
         format = "turtle"
     elif iformat == RDFA:
         format = "rdfa1.1"
-    elif iformat == RDFXML:
+    elif iformat in ("rdfxml", RDFXML):
         format = "xml"
     elif iformat == JSON:
         format = "json-ld"
@@ -616,7 +616,7 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
-    if options.format == "rdfxml":
+    if options.format in ("rdfxml", RDFXML):
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
         return graph.serialize(format="json-ld")
-- 
2.43.0


From d277782550fbe521ae6ae0e1a2b3d1fca69249a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 47/63] fix: convert_graph serialised generalised triples into
 unreadable documents

Triples with a literal as subject cannot be expressed in any of the output formats.
---
 owlrl/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index a677826..77d7b48 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -170,7 +170,7 @@ from typing import Union
 
 # noinspection PyPackageRequirements,PyPackageRequirements,PyPackageRequirements
 import rdflib
-from rdflib import Graph, Literal
+from rdflib import Graph, Literal, URIRef
 from rdflib.term import _toPythonMapping
 
 from . import DatatypeHandling, Closure
@@ -616,6 +616,11 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
+    # the closure may include generalised triples (eg, literals as subjects) that no RDF syntax can express
+    for t in list(graph):
+        if isinstance(t[0], Literal) or not isinstance(t[1], URIRef):
+            graph.remove(t)
+
     if options.format in ("rdfxml", RDFXML):
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
-- 
2.43.0


From 23be1fc2921f27eb5407a85112806be293317f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 48/63] fix: the -m (maximal) option of the command line did
 not switch RDFS on

---
 scripts/owlrl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/owlrl b/scripts/owlrl
index fa8be8c..270ebc4 100755
--- a/scripts/owlrl
+++ b/scripts/owlrl
@@ -85,6 +85,7 @@ def main():
     if options.maximal == "yes":
         options.trimming = "yes"
         options.owlClosure = "yes"
+        options.rdfsClosure = "yes"
         options.owlExtras = "yes"
             
     print(convert_graph(options))
-- 
2.43.0


From f0dd3fe6f62738f8298de967fe345a0b3ca8bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 49/63] fix: the RDFS datatype axioms typed ill-typed literals
 with their datatype

---
 owlrl/RDFSClosure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 3f22a50..0d3774c 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -35,6 +35,7 @@ from rdflib.namespace import RDF, RDFS, XSD
 from itertools import product
 from owlrl.Closure import Core
 from owlrl.AxiomaticTriples import RDFS_Axiomatic_Triples, RDFS_D_Axiomatic_Triples
+from owlrl.DatatypeHandling import AltXSDToPYTHON
 from owlrl.XsdDatatypes import RDFS_Datatype_Subsumptions
 
 
@@ -122,6 +123,11 @@ class RDFS_Semantics(Core):
         # #1
         literals = (lt for lt in self._literals() if lt.datatype is not None)
         for lt in literals:
+            try:
+                AltXSDToPYTHON.get(lt.datatype, str)(str(lt))
+            except ValueError:
+                # an ill-typed literal does not belong to its datatype
+                continue
             self.destination.add((lt, RDF.type, lt.datatype))
 
         for t in RDFS_D_Axiomatic_Triples:
-- 
2.43.0


From e3a0e577f496ad1f19fbe93d717e1030a4d336ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 50/63] fix: the axioms declared the lists of owl:unionOf as
 classes instead of the subjects

---
 owlrl/AxiomaticTriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 29b1df7..b8ca40b 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -451,7 +451,7 @@ _OWL_axiomatic_triples_Properties = [
     (OWL.onDatatype, RDFS.range, OWL.DataRange),
     (OWL.oneOf, RDFS.domain, OWL.Class),
     (OWL.someValuesFrom, RDFS.range, OWL.Class),
-    (OWL.unionOf, RDFS.range, OWL.Class),
+    (OWL.unionOf, RDFS.domain, OWL.Class),
     #    (OWL.withRestrictions, RDFS.domain, OWL.DataRange)
 ]
 
-- 
2.43.0


From 1d57466f3aab853ca25acca7a4595b98596d7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 51/63] fix: the axioms declared self restrictions as
 properties instead of restrictions

---
 owlrl/OWLRLExtras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 4b72d18..11f516a 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -119,7 +119,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
 
     extra_axioms = [
         (OWL.hasSelf, RDF.type, RDF.Property),
-        (OWL.hasSelf, RDFS.domain, RDF.Property),
+        (OWL.hasSelf, RDFS.domain, OWL.Restriction),
     ]
 
     def __init__(self, graph: Graph, axioms, daxioms, rdfs: bool = False, destination: Union[None, Graph] = None):
-- 
2.43.0


From a7d830bfa0f86bf350d07e8b03dab203be47ec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 52/63] fix: tokens with a leading or trailing non-breaking
 space were rejected

---
 owlrl/DatatypeHandling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index d1f1a00..89fc207 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -665,7 +665,8 @@ def _strToToken(v):
         return v
     # filter out the case when there are new lines and similar (if there is a problem, an exception is raised)
     _strToVal_Regexp(v, _re_token)
-    v1 = " ".join(v.strip().split())
+    # (only the space is meant, Python's own default would also include, eg, the non-breaking space)
+    v1 = " ".join(i for i in v.split(" ") if i != "")
     # normalize the string, and see if the result is the same:
     if len(v1) == len(v):
         # no characters lost, ie, no unnecessary spaces
-- 
2.43.0


From 9bdd02938f66faf5c6127b53f82292cc5c7c0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:17 +0000
Subject: [PATCH 53/63] fix: dates with a space instead of a digit, or a lower
 case 't', were accepted

---
 owlrl/DatatypeHandling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 89fc207..3ab1d8f 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -360,18 +360,18 @@ def _strToHexBinary(v):
 
 # Datetime, date timestamp, etc ################################
 def _strptime(v, form):
-    """Same as time.strptime, but all the fields must have their full width (a requirement of xsd; Python also accepts,
-    eg, '2008-1-1').
+    """Same as time.strptime, but all the fields must have their full width in digits and the rest must be exactly as in
+    the format (a requirement of xsd; Python also accepts, eg, '2008-1-1', '2008-01- 1', or a lower case 't').
 
     @param v: the string to be parsed
     @param form: the format, see time.strptime
     @return the same as time.strptime
     @raise ValueError: invalid value
     """
-    result = time.strptime(v, form)
-    if not v.isascii() or len(v) != len(time.strftime(form, time.gmtime(0))):
+    pattern = re.sub("%[mdHMS]", "[0-9]{2}", form.replace("%Y", "[0-9]{4}"))
+    if re.fullmatch(pattern, v) is None:
         raise ValueError("Invalid date or time value %s" % v)
-    return result
+    return time.strptime(v, form)
 
 
 # noinspection PyPep8Naming
-- 
2.43.0


From 8152e396194e31a7fdfd6d94e9c975797a6d2ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:19 +0000
Subject: [PATCH 54/63] fix: a literal in a list hid the property it is the
 same as

With owl:sameAs a list cell may have several members, of which one was picked at
random; a property chain or key with a literal picked does not give anything.
---
 owlrl/OWLRL.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index f86c5f2..09d3640 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -35,7 +35,7 @@ from collections import defaultdict
 from typing import Union
 
 import rdflib
-from rdflib import BNode, Graph
+from rdflib import BNode, Graph, Literal
 from rdflib.namespace import OWL, RDF, RDFS
 
 from owlrl.Closure import Core
@@ -135,12 +135,18 @@ class OWLRL_Semantics(Core):
         @return: array of resources
         """
         retval = []
-        try:
-            for ch in self.graph.items(l):
-                retval.append(ch)
-        except ValueError:
-            # the list is cyclic, ie, it is not a list
-            return []
+        cells = set()
+        while l is not None:
+            if l in cells:
+                # the list is cyclic, ie, it is not a list
+                return []
+            cells.add(l)
+            # Rule eq-rep-o may have put several resources, all the same, into one cell. A literal must not hide
+            # the others: it cannot be used as a property.
+            members = list(self.graph.objects(l, RDF.first))
+            if members:
+                retval.append(next((m for m in members if not isinstance(m, Literal)), members[0]))
+            l = self.graph.value(l, RDF.rest)
         return retval
 
     def post_process(self):
-- 
2.43.0


From 3805f1393d4ee5c1cc37246bc87bda0a23c72467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:58 +0000
Subject: [PATCH 55/63] fix: a datatype without restrictions took over the
 facets of another one

The facets were only initialized when a definition had owl:withRestrictions.
---
 owlrl/RestrictedDatatype.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 58ad50b..c74d5bd 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -219,7 +219,7 @@ def extract_faceted_datatypes(core, graph):
     retval = []
     for dtype in graph.subjects(RDF.type, RDFS.Datatype):
         base_type = None
-        facets = []
+        final_facets = []
         try:
             base_types = [x for x in graph.objects(dtype, OWL.onDatatype)]
             if len(base_types) > 0:
@@ -237,7 +237,6 @@ def extract_faceted_datatypes(core, graph):
                                 % dtype
                             )
                         elif len(rlists) > 0:
-                            final_facets = []
                             for r in graph.items(rlists[0]):
                                 for (facet, lit) in graph.predicate_objects(r):
                                     if isinstance(lit, rdflibLiteral):
-- 
2.43.0


From 7b4f340ac2e6672cfec9f05d19e297f0f8785d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:00 +0000
Subject: [PATCH 56/63] Revert 3805f13: no defect there (a definition without
 restrictions was ignored already)

---
 owlrl/OWLRLExtras.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 11f516a..1d4f351 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -209,7 +209,11 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                         isinstance(v, Literal)
                         and (v, RDF.type, rt.base_type) in self.graph
                     ):
-                        return rt.checkValue(rt.converter(str(v)))
+                        try:
+                            return rt.checkValue(rt.converter(str(v)))
+                        except ArithmeticError:
+                            # NaN is not comparable with any facet
+                            return False
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From a0691989a49ea82c78ec79c32bacc11738c642b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:14 +0000
Subject: [PATCH 57/63] fix: property chains took time exponential in their
 length

The end points reached so far were collected once for every path.
---
 owlrl/OWLRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 09d3640..781c88e 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -378,12 +378,12 @@ class OWLRL_Semantics(Core):
                 finalList = [(u1, _z)]
                 chainExists = True
                 for pi in chain[1:]:
-                    newList = []
+                    newList = set()
                     for (_u, ui) in finalList:
                         for u in self.graph.objects(ui, pi):
                             # what is stored is only last entry with u1, the intermediate results
                             # are not of interest
-                            newList.append((u1, u))
+                            newList.add((u1, u))
                     # I have now, in new list, all the intermediate results
                     # until pi
                     # if new list is empty, that means that is a blind alley
-- 
2.43.0


From a4ebe4448d4078de94123ffb4b394c8e198d916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 58/63] fix: RDF/XML output lost what is said about the cells
 of lists

RDFLib's pretty-xml serializer writes collections as rdf:parseType="Collection", whatever else is known of their cells.
---
 owlrl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 77d7b48..e78def5 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -622,7 +622,7 @@ def convert_graph(options, closureClass=None):
             graph.remove(t)
 
     if options.format in ("rdfxml", RDFXML):
-        return graph.serialize(format="pretty-xml")
+        return graph.serialize(format="xml")
     elif options.format == "json":
         return graph.serialize(format="json-ld")
     else:
-- 
2.43.0


From cf2cd0a57c3e872877de1d91bd27b9235c895ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:19 +0000
Subject: [PATCH 59/63] fix: checking keys with several values took exponential
 time

---
 owlrl/OWLRL.py | 37 ++++++++-----------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 781c88e..f572844 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -611,23 +611,8 @@ class OWLRL_Semantics(Core):
             pis = self._list(u)
             if len(pis) > 0:
                 for x in self.graph.subjects(RDF.type, c):
-                    # "Calculate" the keys for 'x'. The complication is that there can be various combinations
-                    # of the keys, and that is the structure one has to build up here...
-                    #
-                    # The final list will be a list of lists, with each constituents being the possible combinations
-                    # of the key values.
-                    # startup the list
-                    finalList = [[zi] for zi in self.graph.objects(x, pis[0])]
-                    for pi in pis[1:]:
-                        newList = []
-                        for zi in self.graph.objects(x, pi):
-                            newList = newList + [l + [zi] for l in finalList]
-                        finalList = newList
-
-                    # I am not sure this can happen, but better safe then sorry... ruling out
-                    # the value lists whose length are not kosher
-                    # (To be checked whether this is necessary in the first place)
-                    valueList = [l for l in finalList if len(l) == len(pis)]
+                    # The values of 'x' for each of the keys
+                    values = [set(self.graph.objects(x, pi)) for pi in pis]
 
                     # Now we can look for the y-s, to see if they have the same key values
                     for y in self.graph.subjects(RDF.type, c):
@@ -637,18 +622,12 @@ class OWLRL_Semantics(Core):
                             or (y, OWL.sameAs, x) in self.graph
                             or (x, OWL.sameAs, y) in self.graph
                         ):
-                            # 'calculate' the keys for the y values and see if there is a match
-                            for vals in valueList:
-                                same = True
-                                for i in range(0, len(pis)):
-                                    if (y, pis[i], vals[i]) not in self.graph:
-                                        same = False
-                                        # No use going with this property line
-                                        break
-                                if same:
-                                    self.store_triple((x, OWL.sameAs, y))
-                                    # Look for the next 'y', this branch is finished, no reason to continue
-                                    break
+                            # 'y' must share a value with 'x' for each of the keys
+                            if all(
+                                any((y, pi, zi) in self.graph for zi in zis)
+                                for pi, zis in zip(pis, values)
+                            ):
+                                self.store_triple((x, OWL.sameAs, y))
 
         # RULES prp-npa1 and prp-npa2
         elif t == OWL.sourceIndividual:
-- 
2.43.0


From 35b177419c550f04d2b543ad333ad317fcfc674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:37 +0000
Subject: [PATCH 60/63] Revert 3805f13 and 7b4f340

There was no defect behind 3805f13 (a definition without restrictions is ignored
anyway). 7b4f340 had the wrong message: it is committed again next.
---
 owlrl/OWLRLExtras.py        | 6 +-----
 owlrl/RestrictedDatatype.py | 3 ++-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 1d4f351..11f516a 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -209,11 +209,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                         isinstance(v, Literal)
                         and (v, RDF.type, rt.base_type) in self.graph
                     ):
-                        try:
-                            return rt.checkValue(rt.converter(str(v)))
-                        except ArithmeticError:
-                            # NaN is not comparable with any facet
-                            return False
+                        return rt.checkValue(rt.converter(str(v)))
                     else:
                         return True
             # if we got here, no restriction applies
diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index c74d5bd..58ad50b 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -219,7 +219,7 @@ def extract_faceted_datatypes(core, graph):
     retval = []
     for dtype in graph.subjects(RDF.type, RDFS.Datatype):
         base_type = None
-        final_facets = []
+        facets = []
         try:
             base_types = [x for x in graph.objects(dtype, OWL.onDatatype)]
             if len(base_types) > 0:
@@ -237,6 +237,7 @@ def extract_faceted_datatypes(core, graph):
                                 % dtype
                             )
                         elif len(rlists) > 0:
+                            final_facets = []
                             for r in graph.items(rlists[0]):
                                 for (facet, lit) in graph.predicate_objects(r):
                                     if isinstance(lit, rdflibLiteral):
-- 
2.43.0


From 022d71498197cbf2f8d8e62c3df17294cfc83e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:38 +0000
Subject: [PATCH 61/63] fix: NaN passed every facet of an allValuesFrom
 restriction

---
 owlrl/OWLRLExtras.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 11f516a..1d4f351 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -209,7 +209,11 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                         isinstance(v, Literal)
                         and (v, RDF.type, rt.base_type) in self.graph
                     ):
-                        return rt.checkValue(rt.converter(str(v)))
+                        try:
+                            return rt.checkValue(rt.converter(str(v)))
+                        except ArithmeticError:
+                            # NaN is not comparable with any facet
+                            return False
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From 27c709a534ee3a3f804f69807a3ef427a906db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:16 +0000
Subject: [PATCH 62/63] fix: a literal that is not comparable with a facet of
 its datatype stopped the expansion

---
 owlrl/RestrictedDatatype.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 58ad50b..22a33ff 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -148,7 +148,12 @@ def _lit_to_value(dt, v):
     for cat in Datatypes_per_facets:
         if dt.base_type in Datatypes_per_facets[cat]:
             # yep, this is to be checked.
-            if not dt.checkValue(value):
+            try:
+                fits = dt.checkValue(value)
+            except (TypeError, ArithmeticError):
+                # the value is not comparable with a facet (e.g., only one of the two has a timezone)
+                fits = False
+            if not fits:
                 raise ValueError(
                     "Literal value %s does not fit the faceted datatype %s" % (v, dt)
                 )
-- 
2.43.0


From 29e20d715072fb3bb51f122bd18bc0bcb1145078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:57 +0000
Subject: [PATCH 63/63] fix: an ill-typed literal was taken for a value of
 another datatype

---
 owlrl/RDFSClosure.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 0d3774c..5f8d5ab 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -58,6 +58,21 @@ def _value_space(lt):
     return dt
 
 
+def _well_typed(lt):
+    """
+    Whether the lexical form of a literal belongs to its datatype (RDFLib has values for, eg, negative integers in
+    xsd:positiveInteger, too).
+
+    :param lt: A literal.
+    :rtype: bool
+    """
+    try:
+        AltXSDToPYTHON.get(lt.datatype, str)(str(lt))
+    except ValueError:
+        return False
+    return True
+
+
 # RDFS Semantics class
 # noinspection PyPep8Naming
 class RDFS_Semantics(Core):
@@ -123,12 +138,9 @@ class RDFS_Semantics(Core):
         # #1
         literals = (lt for lt in self._literals() if lt.datatype is not None)
         for lt in literals:
-            try:
-                AltXSDToPYTHON.get(lt.datatype, str)(str(lt))
-            except ValueError:
-                # an ill-typed literal does not belong to its datatype
-                continue
-            self.destination.add((lt, RDF.type, lt.datatype))
+            # an ill-typed literal does not belong to its datatype
+            if _well_typed(lt):
+                self.destination.add((lt, RDF.type, lt.datatype))
 
         for t in RDFS_D_Axiomatic_Triples:
             self.destination.add(t)
@@ -138,7 +150,7 @@ class RDFS_Semantics(Core):
         if _value_space(lt1) != _value_space(lt2):
             return False
         elif lt1.value is not None and lt2.value is not None:
-            return lt1.value == lt2.value
+            return lt1.value == lt2.value and _well_typed(lt1) and _well_typed(lt2)
         elif lt1.datatype is not None and lt2.datatype is not None:
             return lt1.__eq__(lt2)
         return False
-- 
2.43.0

