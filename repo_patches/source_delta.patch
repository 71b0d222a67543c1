From ff682d812d58816e0746b282a87bf0d0fa7a788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 01/78] fix: a pattern applies to the whole value, whatever
 alternatives it has

---
 pyangbind/lib/yangtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 7e67e27..4777673 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -235,7 +235,7 @@ def RestrictedClassType(*args, **kwargs):
                 # is not escaped. Do some logic to escape them, whilst leaving one at the
                 # end of the string if it's there.
                 trimmed = False
-                if pattern[-1] == "$":
+                if pattern[-1:] == "$":
                     tmp_pattern = pattern[:-1]
                     trimmed = True
                 else:
@@ -245,9 +245,9 @@ def RestrictedClassType(*args, **kwargs):
                 if trimmed:
                     pattern += "$"
 
-                if not pattern[0] == "^":
+                if not pattern[:1] == "^":
                     pattern = "^%s" % pattern
-                if not pattern[len(pattern) - 1] == "$":
+                if not pattern[-1:] == "$":
                     pattern = "%s$" % pattern
 
                 return pattern
@@ -296,7 +296,7 @@ def RestrictedClassType(*args, **kwargs):
 
             def match_pattern_check(regexp):
                 def mp_check(value):
-                    if regex.match(convert_regexp(regexp), str(value)):
+                    if regex.fullmatch(convert_regexp(regexp), str(value)):
                         return True
                     return False
 
-- 
2.43.0


From d251e146d1c233fc23a455b91e52223638858a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 02/78] fix: compare a single range value exactly, not only
 after conversion to float

---
 pyangbind/lib/yangtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 4777673..a79b0cb 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -285,7 +285,10 @@ def RestrictedClassType(*args, **kwargs):
                             if check_tuple[1] is not None and value > check_tuple[1]:
                                 chk = False
                         elif len(check_tuple) == 1:
-                            if value != float(check_tuple[0]):
+                            eqval = check_tuple[0]
+                            # a Decimal that was given as a float has the digits of that float
+                            as_float = isinstance(eqval, Decimal) and value == float(eqval)
+                            if value != eqval and not as_float:
                                 chk = False
                         else:
                             raise AttributeError("Invalid check tuple length specified")
-- 
2.43.0


From 0f2412c2e4b277f055785834ab2721080ba7ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 03/78] fix: apply all of the pattern statements of a type, not
 just the first

---
 pyangbind/lib/yangtypes.py | 3 ++-
 pyangbind/plugin/pybind.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index a79b0cb..1124f9c 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -321,7 +321,8 @@ def RestrictedClassType(*args, **kwargs):
 
             for rtype, rarg in self._restriction_dict.items():
                 if rtype == "pattern":
-                    self._restriction_tests.append(match_pattern_check(rarg))
+                    for pattern in rarg if isinstance(rarg, list) else [rarg]:
+                        self._restriction_tests.append(match_pattern_check(pattern))
                 elif rtype == "range":
                     ranges = []
                     for range_spec in rarg:
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index f4606e7..b1bb84b 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1232,7 +1232,9 @@ def build_elemtype(ctx, et, prefix=False):
     # type.
     restrictions = {}
     if pattern_stmt:
-        restrictions["pattern"] = pattern_stmt.arg
+        # a value has to match all of the patterns that are given
+        patterns = [i.arg for i in et.search("pattern")]
+        restrictions["pattern"] = patterns if len(patterns) > 1 else pattern_stmt.arg
 
     if length_stmt:
         if "|" in length_stmt.arg:
-- 
2.43.0


From 62ed5c5d2a19268f5457f322b42bc7e781a930e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 04/78] fix: refuse a value outside the range of a base type
 instead of storing 0

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 1124f9c..9f58741 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -332,7 +332,7 @@ def RestrictedClassType(*args, **kwargs):
                         try:
                             val = base_type(val)
                         except Exception:
-                            raise TypeError("must specify a numeric type for a range " + "argument")
+                            raise ValueError("must specify a numeric type for a range " + "argument")
                 elif rtype == "length":
                     multiplier = 1
                     lengths = []
-- 
2.43.0


From a16c0d6a24f24facb4767db158a143e3f6da4799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 05/78] fix: do not mark or register a node before its value
 has been accepted

---
 pyangbind/lib/yangtypes.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 9f58741..eaf6031 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1068,19 +1068,12 @@ def YANGDynClass(*args, **kwargs):
 
             if default:
                 self._default = default
-            if len(args):
-                self._set()
 
-            # lists themselves do not register, only elements within them
-            # are actually created in the tree.
-            if not self._is_container == "list":
-                if self._path_helper:
-                    if self._supplied_register_path is None:
-                        if self._register_paths:
-                            self._path_helper.register(self._register_path(), self)
-                    else:
-                        if self._register_paths:
-                            self._path_helper.register(self._supplied_register_path, self)
+            # the children of a container register below it, so it must be
+            # there before they are created. Anything else is marked as changed
+            # and registered only once the value is known to be acceptable.
+            if self._is_container == "container":
+                self._register()
 
             if self._is_container == "list" or self._is_container == "container":
                 kwargs["path_helper"] = self._path_helper
@@ -1094,6 +1087,23 @@ def YANGDynClass(*args, **kwargs):
             except Exception:
                 raise
 
+            if len(args):
+                self._set()
+
+            # lists themselves do not register, only elements within them
+            # are actually created in the tree.
+            if self._is_container not in ["list", "container"]:
+                self._register()
+
+        def _register(self):
+            if self._path_helper:
+                if self._supplied_register_path is None:
+                    if self._register_paths:
+                        self._path_helper.register(self._register_path(), self)
+                else:
+                    if self._register_paths:
+                        self._path_helper.register(self._supplied_register_path, self)
+
         def _changed(self):
             return self._mchanged
 
-- 
2.43.0


From 542ab0083dfc4f4a04477de6d0a6d849b3fadd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 06/78] fix: do not mark a leafref as changed before its target
 has been checked

---
 pyangbind/lib/yangtypes.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index eaf6031..2091eb2 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1270,8 +1270,6 @@ def ReferenceType(*args, **kwargs):
 
             if len(args):
                 value = args[0]
-                if hasattr(self, "_set"):
-                    self._set()
             else:
                 value = None
 
-- 
2.43.0


From 00b6d0605398f9711f277751c6e60e02bcf52f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 07/78] fix: refuse text that is no number for a decimal64 with
 ValueError

---
 pyangbind/lib/yangtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 2091eb2..f362fbd 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -155,7 +155,10 @@ def RestrictedPrecisionDecimalType(*args, **kwargs):
             """
             if self._precision is not None:
                 if len(args):
-                    value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+                    try:
+                        value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+                    except ArithmeticError:
+                        raise ValueError("%s is not a valid decimal value" % args[0])
                 else:
                     value = Decimal(0)
             elif len(args):
-- 
2.43.0


From d1f83d13406d91de6997bcc78b9d893b6fee6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 08/78] fix: let a bits leaf take another bits value and refuse
 anything that is none

---
 pyangbind/lib/yangtypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index f362fbd..7be9fd8 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1422,7 +1422,11 @@ def YANGBitsType(allowed_bits):
 
             if args:
                 value = args[0]
-                for bit in value.split():
+                if isinstance(value, str):
+                    value = value.split()
+                elif not isinstance(value, (set, frozenset, list, tuple)):
+                    raise ValueError(f"{value} is not a valid set of bits")
+                for bit in value:
                     self.add(bit)
 
         def _add_bit_definition(self, bit, position):
-- 
2.43.0


From b7cdb804f618437b2f6564de635e9e6944125a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 09/78] fix: do not mark a node as changed by an operation on
 it that fails

append(), insert(), extend(), pop(), remove() and item assignment marked the
leaf-list, its parents and the choice it is part of before the new value was
checked, so that a refused value left them changed and the other cases of the
choice cleared.
---
 pyangbind/lib/yangtypes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 7be9fd8..737906b 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1160,42 +1160,42 @@ def YANGDynClass(*args, **kwargs):
 
         # we need to overload the set methods
         def __setitem__(self, *args, **kwargs):
-            self._set()
             super(YANGBaseClass, self).__setitem__(*args, **kwargs)
+            self._set()
 
         def append(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "append"):
                 raise AttributeError("%s object has no attribute append" % base_type)
-            self._set()
             super(YANGBaseClass, self).append(*args, **kwargs)
+            self._set()
 
         def pop(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "pop"):
                 raise AttributeError("%s object has no attribute pop" % base_type)
-            self._set()
             item = super(YANGBaseClass, self).pop(*args, **kwargs)
+            self._set()
             return item
 
         def remove(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "remove"):
                 raise AttributeError("%s object has no attribute remove" % base_type)
-            self._set()
             if self._path_helper:
                 elem_index = super(YANGBaseClass, self).index(*args, **kwargs)
                 super(YANGBaseClass, self).__getitem__(elem_index)
             super(YANGBaseClass, self).remove(*args, **kwargs)
+            self._set()
 
         def extend(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "extend"):
                 raise AttributeError("%s object has no attribute extend" % base_type)
-            self._set()
             super(YANGBaseClass, self).extend(*args, **kwargs)
+            self._set()
 
         def insert(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "insert"):
                 raise AttributeError("%s object has no attribute insert" % base_type)
-            self._set()
             super(YANGBaseClass, self).insert(*args, **kwargs)
+            self._set()
 
         def _register_path(self):
             if self._supplied_register_path is not None:
-- 
2.43.0


From 14e1bfd17d30337b30d98e0801b2fbbe36ffbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 10/78] fix: mark a node as changed when an entry is deleted
 from it

del on a leaf-list or list left the node and its parents unchanged.
---
 pyangbind/lib/yangtypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 737906b..5763bcc 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1163,6 +1163,10 @@ def YANGDynClass(*args, **kwargs):
             super(YANGBaseClass, self).__setitem__(*args, **kwargs)
             self._set()
 
+        def __delitem__(self, *args, **kwargs):
+            super(YANGBaseClass, self).__delitem__(*args, **kwargs)
+            self._set()
+
         def append(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "append"):
                 raise AttributeError("%s object has no attribute append" % base_type)
-- 
2.43.0


From c45a0b7ddcd39941106cf8cb1c00b23d560bb813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 11/78] fix: tell a bits node's parents about its changes and
 check every way to add a bit

Only the bits node itself was marked as changed by add(), discard(), clear(),
pop() and remove(), so its parents were left out of filtered output; pop() lost
the bit it removed; update() and the in-place operators took any name and
changed the value unnoticed.
---
 pyangbind/lib/yangtypes.py | 72 ++++++++++++++++++++++++++++++++------
 1 file changed, 61 insertions(+), 11 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 5763bcc..63895c1 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1431,36 +1431,86 @@ def YANGBitsType(allowed_bits):
                 elif not isinstance(value, (set, frozenset, list, tuple)):
                     raise ValueError(f"{value} is not a valid set of bits")
                 for bit in value:
-                    self.add(bit)
+                    self._check_bit(bit)
+                    super().add(bit)
 
         def _add_bit_definition(self, bit, position):
             self._allowed_bits[bit] = position
 
+        def _check_bit(self, bit):
+            if bit not in self._allowed_bits:
+                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+
+        def _modified(self):
+            # the class that wraps this one for a data node also tells the
+            # node's parents about the change
+            if hasattr(self, "_set"):
+                self._set()
+            else:
+                self._mchanged = True
+
         # overwrite set methods to 1/ check for legal values and 2/ set the
         # changed flag
         def add(self, bit):
-            if bit not in self._allowed_bits:
-                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+            self._check_bit(bit)
             super().add(bit)
-            self._mchanged = True
+            self._modified()
 
         def clear(self):
             super().clear()
-            self._mchanged = True
+            self._modified()
 
         def discard(self, bit):
-            if bit not in self._allowed_bits:
-                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+            self._check_bit(bit)
             super().discard(bit)
-            self._mchanged = True
+            self._modified()
 
         def pop(self):
-            super().pop()
-            self._mchanged = True
+            bit = super().pop()
+            self._modified()
+            return bit
 
         def remove(self, bit):
             super().remove(bit)
-            self._mchanged = True
+            self._modified()
+
+        def update(self, *others):
+            bits = [bit for other in others for bit in other]
+            for bit in bits:
+                self._check_bit(bit)
+            super().update(bits)
+            self._modified()
+
+        def difference_update(self, *others):
+            super().difference_update(*others)
+            self._modified()
+
+        def intersection_update(self, *others):
+            super().intersection_update(*others)
+            self._modified()
+
+        def symmetric_difference_update(self, other):
+            bits = list(other)
+            for bit in bits:
+                self._check_bit(bit)
+            super().symmetric_difference_update(bits)
+            self._modified()
+
+        def __ior__(self, other):
+            self.update(other)
+            return self
+
+        def __isub__(self, other):
+            self.difference_update(other)
+            return self
+
+        def __iand__(self, other):
+            self.intersection_update(other)
+            return self
+
+        def __ixor__(self, other):
+            self.symmetric_difference_update(other)
+            return self
 
         def __str__(self, encoding="ascii", errors="replace"):
             """Return bits as shown in JSON."""
-- 
2.43.0


From cdb9fbffe3583350c8e27fdc0c9f0756c4f0287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 12/78] fix: number bits without a position and order bits by
 the number of theirs

A bit without a position stopped the generator (the names, not the positions,
were searched for the highest), and positions were kept as text, so that bit 10
came before bit 2.
---
 pyangbind/plugin/pybind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b1bb84b..4a97a6d 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1359,9 +1359,9 @@ def build_elemtype(ctx, et, prefix=False):
             for bit in et.search("bit"):
                 position = bit.search_one("position")
                 if position is not None:
-                    pos = position.arg
+                    pos = int(position.arg)
                 else:
-                    pos = 1 + max(allowed_bits)
+                    pos = 1 + max(allowed_bits.values(), default=-1)
                 allowed_bits[bit.arg] = pos
             cls = "restricted-bits"
             elemtype = {
-- 
2.43.0


From 15bcc740bb3d372ea91f079a66a27c7005555c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 13/78] fix: enforce the choice at each level of the tree,
 including that of a module

The choice of the node that was set was handed on to every level above it, in
place of the choice that the containers on the way up are part of: these were
not enforced, and another choice of the same name was. The choices at the top
of a module were never looked at.
---
 pyangbind/lib/yangtypes.py | 39 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 63895c1..33ba449 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -906,6 +906,22 @@ class YANGBool(int):
         return str(self.__repr__())
 
 
+def reset_other_cases(obj, choice):
+    """
+    Reset the nodes of obj that are in another case of the choice than the
+    one specified, choice is a tuple of the names of the choice and the case.
+    """
+    if not choice or not hasattr(obj, "__choices__"):
+        return
+    for case, elements in obj.__choices__.get(choice[0], {}).items():
+        if not case == choice[1]:
+            for elem in elements:
+                method = "_unset_%s" % elem
+                if not hasattr(obj, method):
+                    raise AttributeError("unmapped choice!")
+                getattr(obj, method)()
+
+
 def YANGDynClass(*args, **kwargs):
     """
     Wrap an type - specified in the base_type arugment - with
@@ -1126,28 +1142,19 @@ def YANGDynClass(*args, **kwargs):
             return super(YANGBaseClass, self).__repr__()
 
         def _set(self, choice=False):
-            if hasattr(self, "__choices__") and choice:
-                for ch in self.__choices__:
-                    if ch == choice[0]:
-                        for case in self.__choices__[ch]:
-                            if not case == choice[1]:
-                                for elem in self.__choices__[ch][case]:
-                                    method = "_unset_%s" % elem
-                                    if not hasattr(self, method):
-                                        raise AttributeError("unmapped choice!")
-                                    x = getattr(self, method)
-                                    x()
-
-            if self._choice and not choice:
-                choice = self._choice
+            reset_other_cases(self, choice)
 
             self._mchanged = True
 
             if self._presence:
                 self._cpresent = True
 
-            if self._parent and hasattr(self._parent, "_set"):
-                self._parent._set(choice=choice)
+            if self._parent:
+                if hasattr(self._parent, "_set"):
+                    self._parent._set(choice=self._choice)
+                else:
+                    # the class of a module keeps no state, but may hold a choice
+                    reset_other_cases(self._parent, self._choice)
 
         def _add_metadata(self, k, v):
             self._metadata[k] = v
-- 
2.43.0


From ef3b61157c8ee61c8d5878d13a45d60fe59e2120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 14/78] fix: enforce a choice that is nested in a case of
 another choice

Such nodes knew the inner choice only, so that they were not reset when another
case of the outer choice was used, nor reset that case when they were set. Nodes
below a container, on the other hand, took part in the choice of the container.
---
 pyangbind/lib/yangtypes.py | 18 ++++++++++--------
 pyangbind/plugin/pybind.py | 11 ++++-------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 33ba449..c71911e 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -909,17 +909,19 @@ class YANGBool(int):
 def reset_other_cases(obj, choice):
     """
     Reset the nodes of obj that are in another case of the choice than the
-    one specified, choice is a tuple of the names of the choice and the case.
+    one specified, choice is a tuple of the names of the choice and the case,
+    preceded by those of the choice and case it is within, if any.
     """
     if not choice or not hasattr(obj, "__choices__"):
         return
-    for case, elements in obj.__choices__.get(choice[0], {}).items():
-        if not case == choice[1]:
-            for elem in elements:
-                method = "_unset_%s" % elem
-                if not hasattr(obj, method):
-                    raise AttributeError("unmapped choice!")
-                getattr(obj, method)()
+    for ch, set_case in zip(choice[::2], choice[1::2]):
+        for case, elements in obj.__choices__.get(ch, {}).items():
+            if not case == set_case:
+                for elem in elements:
+                    method = "_unset_%s" % elem
+                    if not hasattr(obj, method):
+                        raise AttributeError("unmapped choice!")
+                    getattr(obj, method)()
 
 
 def YANGDynClass(*args, **kwargs):
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 4a97a6d..b18a02d 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -677,7 +677,7 @@ def get_children_elements(
                     imports,
                     path=path,
                     parent_cfg=parent_cfg,
-                    choice=(ch.arg, sub_choice_ch.arg),
+                    choice=(choice or ()) + (ch.arg, sub_choice_ch.arg),
                     register_paths=register_paths,
                 )
         else:
@@ -779,7 +779,6 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         import_req,
         path=path,
         parent_cfg=parent_cfg,
-        choice=choice,
         register_paths=register_paths,
     )
 
@@ -985,11 +984,9 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 if i["choice"]:
                     class_str["arg"] += ", choice=%s" % repr(i["choice"])
                     choice_attrs.append(i["name"])
-                    if not i["choice"][0] in choices:
-                        choices[i["choice"][0]] = {}
-                    if not i["choice"][1] in choices[i["choice"][0]]:
-                        choices[i["choice"][0]][i["choice"][1]] = []
-                    choices[i["choice"][0]][i["choice"][1]].append(i["name"])
+                    # a node of a choice within a case is part of both choices
+                    for ch, case in zip(i["choice"][::2], i["choice"][1::2]):
+                        choices.setdefault(ch, {}).setdefault(case, []).append(i["name"])
                 class_str["arg"] += ", path_helper=self._path_helper"
                 class_str["arg"] += ", extmethods=self._extmethods"
                 class_str["arg"] += ", register_paths=%s" % i["register_paths"]
-- 
2.43.0


From 90eb9a91f1040751f774b26542dd24ded8a5d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 15/78] fix: let the entries of a list take part in the choice
 the list is part of

Adding an entry to such a list left the other cases populated; the choice given
to the list type was ignored, and was not the one of the list.
---
 pyangbind/lib/yangtypes.py | 4 ++++
 pyangbind/plugin/pybind.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index c71911e..a27ac89 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -549,6 +549,7 @@ def YANGListType(*args, **kwargs):
     user_ordered = kwargs.pop("user_ordered", False)
     path_helper = kwargs.pop("path_helper", None)
     extensions = kwargs.pop("extensions", None)
+    choice = kwargs.pop("choice", False)
 
     class YANGList(object):
         __slots__ = ("_members", "_keyval", "_contained_class", "_path_helper", "_yang_keys", "_ordered")
@@ -699,6 +700,7 @@ def YANGListType(*args, **kwargs):
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
                             extmethods=self._parent._extmethods,
                             extensions=extensions,
+                            choice=choice,
                         )
                     else:
                         # hand the value to the init, rather than simply creating an empty
@@ -714,6 +716,7 @@ def YANGListType(*args, **kwargs):
                             extmethods=self._parent._extmethods,
                             load=True,
                             extensions=extensions,
+                            choice=choice,
                         )
 
                     if keydict is not None:
@@ -737,6 +740,7 @@ def YANGListType(*args, **kwargs):
                     path_helper=path_helper,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
+                    choice=choice,
                 )
                 return k
 
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b18a02d..baa3657 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -912,7 +912,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 class_str["arg"] += ", yang_keys='%s'" % i["yang_keys"]
                 class_str["arg"] += ", extensions=%s" % i["extensions"]
                 if i["choice"]:
-                    class_str["arg"] += ", choice=%s" % repr(choice)
+                    class_str["arg"] += ", choice=%s" % repr(i["choice"])
                 class_str["arg"] += ")"
             elif i["class"] == "union" or i["class"] == "leaf-union":
                 # A special mapped type where there is a union that just includes
-- 
2.43.0


From 1156d89c63f422206886eb09e77f6957b7efe5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 16/78] fix: let nodes inherit config false from a choice

config false on a choice was ignored: the nodes of its cases could be assigned.
---
 pyangbind/plugin/pybind.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index baa3657..234b9bd 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -665,6 +665,9 @@ def get_children_elements(
 
     for ch in i_children:
         if ch.keyword == "choice":
+            # A choice hands on whether it is configuration as a container does
+            choice_config = ch.search_one("config")
+            choice_cfg = parent_cfg and (choice_config is None or class_bool_map[choice_config.arg])
             # These are cases
             for sub_choice_ch in ch.i_children:
                 get_children_elements(
@@ -676,7 +679,7 @@ def get_children_elements(
                     elements,
                     imports,
                     path=path,
-                    parent_cfg=parent_cfg,
+                    parent_cfg=choice_cfg,
                     choice=(choice or ()) + (ch.arg, sub_choice_ch.arg),
                     register_paths=register_paths,
                 )
@@ -1496,7 +1499,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             )
 
             elemconfigdef = element.search_one("config")
-            elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+            elemconfig = parent_cfg and (class_bool_map[elemconfigdef.arg] if elemconfigdef else True)
 
             elemdict = {
                 "name": safe_name(element.arg),
@@ -1665,7 +1668,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             default_type = default_type["native_type"]
 
         elemconfigdef = element.search_one("config")
-        elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+        elemconfig = parent_cfg and (class_bool_map[elemconfigdef.arg] if elemconfigdef else True)
 
         elemname = safe_name(element.arg)
 
-- 
2.43.0


From 79dd404c43c9c1e80bb110b8a506bfdd1f6a80e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 17/78] fix: make each name of a list's key usable in Python,
 not the key as a whole

An entry could not be added to a list with several keys if the name of one of
them is reserved, or if the names are not separated by exactly one space.
---
 pyangbind/plugin/pybind.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 234b9bd..18e8c58 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -813,8 +813,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         keyval = False
         if parent.keyword == "list":
             keyval = parent.search_one("key").arg if parent.search_one("key") is not None else False
-            if keyval and " " in keyval:
-                keyval = keyval.split(" ")
+            if keyval:
+                keyval = keyval.split()
             else:
                 keyval = [keyval]
 
@@ -1540,12 +1540,10 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             # Deal with specific cases for list - such as the key and how it is
             # ordered.
             if element.keyword == "list":
-                elemdict["key"] = (
-                    safe_name(element.search_one("key").arg) if element.search_one("key") is not None else False
-                )
-                elemdict["yang_keys"] = (
-                    element.search_one("key").arg if element.search_one("key") is not None else False
-                )
+                key = element.search_one("key")
+                yang_keys = key.arg.split() if key is not None else []
+                elemdict["key"] = " ".join(safe_name(k) for k in yang_keys) or False
+                elemdict["yang_keys"] = " ".join(yang_keys) or False
                 user_ordered = element.search_one("ordered-by")
                 elemdict["user_ordered"] = (
                     True if user_ordered is not None and user_ordered.arg.upper() == "USER" else False
-- 
2.43.0


From 4ed0da2588bc4841cb2800ef06294fa800966f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 18/78] fix: register the new object of a path even if it
 equals the old one

---
 pyangbind/lib/xpathhelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 02a5635..b4d1710 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -244,7 +244,7 @@ class YANGPathHelper(PybindXpathHelper):
             raise XPathError("duplicate objects in tree - %s" % object_path)
         if this_obj_existing is not None and not this_obj_existing == []:
             this_obj_existing = this_obj_existing[0]
-            if self._library[this_obj_existing.get("obj_ptr")] == object_ptr:
+            if self._library[this_obj_existing.get("obj_ptr")] is object_ptr:
                 return True
             else:
                 del self._library[this_obj_existing.get("obj_ptr")]
-- 
2.43.0


From ff3b28db1cab7ed3d4f95f17bc26f4479daa68ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 19/78] fix: unregister a list entry under its own path, also
 when deleted by item

---
 pyangbind/lib/yangtypes.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index a27ac89..5a4b1af 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -745,7 +745,16 @@ def YANGListType(*args, **kwargs):
                 return k
 
         def __delitem__(self, k):
+            item = self._members[k]
             del self._members[k]
+            self.__unregister(item)
+
+        def __unregister(self, item):
+            # remove the path that the entry was registered under
+            if self._path_helper:
+                path = item._path()
+                if any(obj is item for obj in self._path_helper.get(path)):
+                    self._path_helper.unregister(path)
 
         def __len__(self):
             return len(self._members)
@@ -830,27 +839,8 @@ def YANGListType(*args, **kwargs):
         def delete(self, *args, **kwargs):
             (k, _) = self._generate_key(*args, **kwargs)
 
-            if self._path_helper:
-                current_item = self._members[k]
-                if " " in self._keyval:
-                    keyparts = self._keyval.split(" ")
-                    keyargs = k.split(" ")
-                    key_string = "["
-                    for key, val in zip(keyparts, keyargs):
-                        kv_o = getattr(current_item, key)
-                        key_string += "%s=%s " % (kv_o.yang_name(), val)
-                    key_string = key_string.rstrip(" ")
-                    key_string += "]"
-                else:
-                    kv_o = getattr(current_item, self._keyval)
-                    key_string = "[@%s=%s]" % (kv_o.yang_name(), k)
-
-                obj_path = self._parent._path() + [self._yang_name + key_string]
-
             try:
-                del self._members[k]
-                if self._path_helper:
-                    self._path_helper.unregister(obj_path)
+                del self[k]
             except KeyError as m:
                 raise KeyError("key %s was not in list (%s)" % (k, m))
 
-- 
2.43.0


From 363c71141783c4546a8d6a1078576d6cfa55cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 20/78] fix: forget the paths below an object that is replaced
 or removed

---
 pyangbind/lib/xpathhelper.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index b4d1710..df91fd0 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -247,7 +247,9 @@ class YANGPathHelper(PybindXpathHelper):
             if self._library[this_obj_existing.get("obj_ptr")] is object_ptr:
                 return True
             else:
-                del self._library[this_obj_existing.get("obj_ptr")]
+                # what was below the previous object is not below the new one,
+                # whose own children register after it.
+                self._forget(this_obj_existing)
                 new_uuid = str(uuid.uuid1())
                 self._library[new_uuid] = object_ptr
                 this_obj_existing.set("obj_ptr", new_uuid)
@@ -288,10 +290,16 @@ class YANGPathHelper(PybindXpathHelper):
             raise XPathError("object did not exist to unregister - %s" % object_path)
 
         for obj in existing_objs:
-            ref = obj.get("obj_ptr")
-            del self._library[ref]
+            self._forget(obj)
             obj.getparent().remove(obj)
 
+    def _forget(self, element):
+        # drop the object registered at an element, and all those below it
+        for obj in element.iter():
+            del self._library[obj.get("obj_ptr")]
+        for child in list(element):
+            element.remove(child)
+
     def _get_etree(self, object_path, caller=False):
         fx_q = self._encode_path(object_path, caller=caller)
         if self._relative_path_re.match(fx_q) and caller:
-- 
2.43.0


From 32b87ca2d474b8459f8bd9979e0423342b92af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 21/78] fix: remove the paths of the entries of a list that is
 reset

---
 pyangbind/lib/yangtypes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 5a4b1af..2faf2da 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1106,8 +1106,12 @@ def YANGDynClass(*args, **kwargs):
                 self._set()
 
             # lists themselves do not register, only elements within them
-            # are actually created in the tree.
-            if self._is_container not in ["list", "container"]:
+            # are actually created in the tree. A new list has none, so that
+            # those of a list that it replaces are removed.
+            if self._is_container == "list":
+                if self._path_helper and self._register_paths and self._path_helper.get(self._register_path()):
+                    self._path_helper.unregister(self._register_path())
+            elif self._is_container != "container":
                 self._register()
 
         def _register(self):
-- 
2.43.0


From e936bd92e67cb4c67ac94c9af6177ffde41a3162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 22/78] fix: register list entries whose keys contain spaces,
 quotes or brackets

---
 pyangbind/lib/xpathhelper.py | 54 +++++++++++++++++-------------------
 pyangbind/lib/yangtypes.py   | 11 ++++++--
 2 files changed, 35 insertions(+), 30 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index df91fd0..24a4162 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -33,7 +33,7 @@ import regex
 from lxml import etree
 
 from .base import PybindBase
-from .yangtypes import safe_name
+from .yangtypes import quote_value, safe_name
 
 
 class YANGPathHelperException(Exception):
@@ -105,11 +105,14 @@ class FakeRoot(PybindBase):
 
 
 class YANGPathHelper(PybindXpathHelper):
-    _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>(\[[^\]]+\])+)$")
+    # a predicate is delimited by brackets, a value within it may be quoted
+    _predicate_re = regex.compile(r"\[((?:'[^']*'|\"[^\"]*\"|[^\]'\"])+)\]")
+    _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>(%s)+)$" % _predicate_re.pattern)
     _arg_re = regex.compile(
-        r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_:]+)([ ]+)?"
-        + r"=([ ]+)?['\"]?(?P<arg>[^ ^'^\"]+)(['\"])?([ ]+)?"
-        + "(?P<remainder>.*)"
+        r"^([ ]+)?((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_:\.]+)([ ]+)?"
+        + r"=([ ]+)?(?P<quote>['\"])?(?P<arg>(?(quote).*?|[^ '\"]+))(?(quote)(?P=quote))([ ]+)?"
+        + "(?P<remainder>.*)",
+        regex.DOTALL,
     )
     _relative_path_re = regex.compile(r"^(\.|\.\.)")
 
@@ -122,29 +125,24 @@ class YANGPathHelper(PybindXpathHelper):
         self._root.set("obj_ptr", "root")
 
     def _path_parts(self, path):
-        c = 0
         parts = []
         buf = ""
-        in_qstr, in_attr = False, False
-        while c < len(path):
-            if path[c] == "/" and not in_qstr and not in_attr:
+        in_attr, quote = False, None
+        for c in path:
+            if c == "/" and not quote and not in_attr:
                 parts.append(buf)
                 buf = ""
-            elif path[c] == '"' and in_qstr:
-                in_qstr = False
-                buf += path[c]
-            elif path[c] == '"':
-                in_qstr = True
-                buf += path[c]
-            elif path[c] == "[":
+                continue
+            if quote:
+                if c == quote:
+                    quote = None
+            elif c in "'\"":
+                quote = c
+            elif c == "[":
                 in_attr = True
-                buf += path[c]
-            elif path[c] == "]":
+            elif c == "]":
                 in_attr = False
-                buf += path[c]
-            else:
-                buf += path[c]
-            c += 1
+            buf += c
         parts.append(buf)
         return parts
 
@@ -187,7 +185,7 @@ class YANGPathHelper(PybindXpathHelper):
                                 "XPATH specified a current() expression that " + "returned a non-unique list"
                             )
                         v = resolved_current_attr[0]
-                    epath += "@%s='%s' " % (k, v)
+                    epath += "@%s=%s " % (k, quote_value(v))
                     if mode == "search":
                         epath += "and "
                 if mode == "search":
@@ -202,15 +200,15 @@ class YANGPathHelper(PybindXpathHelper):
     def _tagname_attributes(self, tag, normalise_namespace=True):
         tagname, attributes = tag, None
         if self._attr_re.match(tag):
-            tagname, args = self._attr_re.sub(r"\g<tagname>||\g<args>", tag).split("||")
-            arg_parts = [i.strip("[") for i in args.split("]")]
+            tagname, args = self._attr_re.match(tag).group("tagname", "args")
 
             attributes = {}
-            for arg in arg_parts:
+            for arg in self._predicate_re.findall(args):
                 tmp_arg = arg
                 while len(tmp_arg):
-                    if self._arg_re.match(tmp_arg):
-                        c, a, r = self._arg_re.sub(r"\g<cmd>||\g<arg>||\g<remainder>", tmp_arg).split("||")
+                    match = self._arg_re.match(tmp_arg)
+                    if match:
+                        c, a, r = match.group("cmd", "arg", "remainder")
                         if ":" in c and normalise_namespace:
                             c = c.split(":")[1]
                         attributes[c] = a
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 2faf2da..4735f8f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -118,6 +118,13 @@ def remove_path_attributes(p):
     return new_path
 
 
+def quote_value(value):
+    """
+    Quote a value for use in a predicate of a path.
+    """
+    return ('"%s"' if "'" in str(value) else "'%s'") % value
+
+
 def safe_name(arg):
     """
     Make a leaf or container name safe for use in Python.
@@ -679,14 +686,14 @@ def YANGListType(*args, **kwargs):
                             raise KeyError("Cannot set a null key for a list entry!")
                         keydict = {self._keyval: k}
                         kv_obj = getattr(tmp, self._keyval)
-                        path_keystring = "[%s='%s']" % (kv_obj.yang_name(), k)
+                        path_keystring = "[%s=%s]" % (kv_obj.yang_name(), quote_value(k))
 
                     if keydict is not None:
                         keys = self._keyval.split(" ")
                         path_keystring = "["
                         for kv in keys:
                             kv_obj = getattr(tmp, kv)
-                            path_keystring += "%s='%s' " % (kv_obj.yang_name(), keydict[kv])
+                            path_keystring += "%s=%s " % (kv_obj.yang_name(), quote_value(keydict[kv]))
                         path_keystring = path_keystring[:-1]
                         path_keystring += "]"
 
-- 
2.43.0


From 0907328bd023249802658081951253be8908e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 23/78] fix: let entries of a list without keys be added when a
 path helper is used

---
 pyangbind/lib/yangtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 4735f8f..6cecf63 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -743,8 +743,9 @@ def YANGListType(*args, **kwargs):
                     base=self._contained_class,
                     parent=parent,
                     yang_name=yang_name,
-                    is_container=is_container,
+                    is_container="container",
                     path_helper=path_helper,
+                    register_path=(self._parent._path() + ["%s[_key=%s]" % (self._yang_name, quote_value(k))]),
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
                     choice=choice,
-- 
2.43.0


From c93ac314f5f7768219c2c94f68d032cdf1d5fb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 24/78] fix: do not register the entries of lists of nodes that
 are not registered

---
 pyangbind/lib/yangtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 6cecf63..18b3cf4 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -705,6 +705,7 @@ def YANGListType(*args, **kwargs):
                             is_container="container",
                             path_helper=path_helper,
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_paths=self._register_paths,
                             extmethods=self._parent._extmethods,
                             extensions=extensions,
                             choice=choice,
@@ -720,6 +721,7 @@ def YANGListType(*args, **kwargs):
                             is_container="container",
                             path_helper=path_helper,
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_paths=self._register_paths,
                             extmethods=self._parent._extmethods,
                             load=True,
                             extensions=extensions,
@@ -746,6 +748,7 @@ def YANGListType(*args, **kwargs):
                     is_container="container",
                     path_helper=path_helper,
                     register_path=(self._parent._path() + ["%s[_key=%s]" % (self._yang_name, quote_value(k))]),
+                    register_paths=self._register_paths,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
                     choice=choice,
-- 
2.43.0


From a91a2eb24231cc09d93f6c5d37d05aafb9d323d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 25/78] fix: let a leaf-list be assigned from another leaf-list

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 18b3cf4..6c1d320 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -430,7 +430,7 @@ def TypedListType(*args, **kwargs):
             self._allowed_type = allowed_type
             self._list = list()
             if len(args):
-                if isinstance(args[0], list):
+                if isinstance(args[0], list) or is_yang_leaflist(args[0]):
                     tmp = []
                     for i in args[0]:
                         if not self._unique or i not in tmp:
-- 
2.43.0


From daf62558920849ad713e0072a3920f3a78d8e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 26/78] fix: compare the values of a leaf-list in their typed
 form to keep them unique

---
 pyangbind/lib/yangtypes.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 6c1d320..80653e1 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -433,18 +433,21 @@ def TypedListType(*args, **kwargs):
                 if isinstance(args[0], list) or is_yang_leaflist(args[0]):
                     tmp = []
                     for i in args[0]:
-                        if not self._unique or i not in tmp:
-                            tmp.append(self.check(i))
+                        val = self.check(i)
+                        if not self._unique or val not in tmp:
+                            tmp.append(val)
                     self._list.extend(tmp)
                 else:
                     tmp = self.check(args[0])
                     self._list.append(tmp)
 
         def check(self, v):
-            # Short circuit uniqueness check
-            if self._unique and v in self._list:
+            val = self._convert(v)
+            if self._unique and val in self._list:
                 raise ValueError("Values in this list must be unique.")
+            return val
 
+        def _convert(self, v):
             passed = False
             count = 0
             for i in self._allowed_type:
@@ -507,8 +510,8 @@ def TypedListType(*args, **kwargs):
             self._list.insert(i, val)
 
         def append(self, v):
-            if not self._unique or v not in self._list:
-                val = self.check(v)
+            val = self._convert(v)
+            if not self._unique or val not in self._list:
                 self._list.append(val)
 
         def __str__(self):
-- 
2.43.0


From dd7a17d9de2b7043bf616d05157f5bab84d3c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 27/78] fix: accept bits in a leaf-list

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 80653e1..337d5e1 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -466,7 +466,7 @@ def TypedListType(*args, **kwargs):
                             tmp = i(v)
                             passed = True
                             break
-                        elif attr == "RestrictedPrecisionDecimal":
+                        elif attr in ("RestrictedPrecisionDecimal", "YANGBits"):
                             tmp = i(v)
                             passed = True
                             break
-- 
2.43.0


From db2c3e1f7b63c224beef94001c53756d945afbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 28/78] fix: reverse a leaf-list

---
 pyangbind/lib/yangtypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 337d5e1..77bbff1 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -514,6 +514,11 @@ def TypedListType(*args, **kwargs):
             if not self._unique or val not in self._list:
                 self._list.append(val)
 
+        def reverse(self):
+            # not by assignment to items, which inserts
+            for i in range(len(self)):
+                self.insert(i, self.pop())
+
         def __str__(self):
             return str(self._list)
 
-- 
2.43.0


From 2467d731f630ddb0830dc98f92176eb33e778eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 29/78] fix: a union within a union stopped the generator

---
 pyangbind/plugin/pybind.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 18e8c58..eb361d1 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -501,8 +501,12 @@ def build_typedefs(ctx, defnd):
         base_t = defnd[t].search_one("type")
         if base_t.arg == "union":
             subtypes = []
-            for i in base_t.search("type"):
-                if i.arg == "identityref":
+            members = base_t.search("type")
+            while members:
+                i = members.pop(0)
+                if i.arg == "union":
+                    members = i.search("type") + members
+                elif i.arg == "identityref":
                     subtypes.append(i.search_one("base"))
                 else:
                     subtypes.append(i)
@@ -1313,6 +1317,11 @@ def build_elemtype(ctx, et, prefix=False):
             elemtype = []
             for uniontype in et.search("type"):
                 elemtype_s = copy.deepcopy(build_elemtype(ctx, uniontype))
+                if isinstance(elemtype_s[1], list):
+                    # a union that is itself a member of the union, its members
+                    # are considered in turn at this position
+                    elemtype.extend(elemtype_s[1])
+                    continue
                 elemtype_s[1]["yang_type"] = uniontype.arg
                 elemtype.append(elemtype_s)
             cls = "union"
-- 
2.43.0


From 54f92eb42c013580505d78b1d1c130970fd94bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 30/78] fix: refuse values that are no number for a decimal64
 with ValueError

---
 pyangbind/lib/yangtypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 77bbff1..39481fd 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -164,8 +164,10 @@ def RestrictedPrecisionDecimalType(*args, **kwargs):
                 if len(args):
                     try:
                         value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
-                    except ArithmeticError:
-                        raise ValueError("%s is not a valid decimal value" % args[0])
+                    except (ArithmeticError, TypeError):
+                        raise ValueError("%s is not a valid decimal value" % (args[0],))
+                    if not value.is_finite():
+                        raise ValueError("%s is not a valid decimal value" % (args[0],))
                 else:
                     value = Decimal(0)
             elif len(args):
-- 
2.43.0


From 80a5f4bc1d5d60cd1addffe2dce17a1635f22b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 31/78] fix: check every restriction of a restricted type on
 the value that is stored

---
 pyangbind/lib/yangtypes.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 39481fd..28a8bfb 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -320,11 +320,6 @@ def RestrictedClassType(*args, **kwargs):
             def in_dictionary_check(dictionary):
                 return lambda i: str(i) in dictionary
 
-            val = False
-            try:
-                val = args[0]
-            except IndexError:
-                pass
             if self._restriction_dict is None:
                 if restriction_type is not None and restriction_arg is not None:
                     self._restriction_dict = {restriction_type: restriction_arg}
@@ -340,11 +335,6 @@ def RestrictedClassType(*args, **kwargs):
                     for range_spec in rarg:
                         ranges.append(build_length_range_tuples(range_spec))
                     self._restriction_tests.append(in_range_check(ranges))
-                    if val:
-                        try:
-                            val = base_type(val)
-                        except Exception:
-                            raise ValueError("must specify a numeric type for a range " + "argument")
                 elif rtype == "length":
                     multiplier = 1
                     lengths = []
@@ -373,14 +363,15 @@ def RestrictedClassType(*args, **kwargs):
                 else:
                     raise TypeError("unsupported restriction type")
 
-            if val is not False:
-                for test in self._restriction_tests:
+            if len(args):
+                # the restrictions apply to the value as it is stored
+                try:
+                    val = base_type(args[0])
+                    passed = all(test(val) for test in self._restriction_tests)
+                except Exception:
                     passed = False
-                    if test(val) is not False:
-                        passed = True
-                        break
                 if not passed:
-                    raise ValueError("%s does not match a restricted type" % val)
+                    raise ValueError("%s does not match a restricted type" % (args[0],))
 
             try:
                 obj = base_type.__new__(self, *args, **kwargs)
-- 
2.43.0


From 905423b1b3bbeb0127362318da9a5f2af0b39a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 32/78] fix: resolve a type's name in the module it is written
 in

---
 pyangbind/plugin/pybind.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index eb361d1..3102dfb 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -595,7 +595,7 @@ def build_typedefs(ctx, defnd):
             if "parent_type" in elemtype:
                 class_map[type_name]["parent_type"] = elemtype["parent_type"]
             else:
-                yang_type = item.search_one("type").arg
+                yang_type = resolve_type_name(ctx, item.search_one("type"))
                 if yang_type not in known_types:
                     raise TypeError("typedef specified a native type that was not " + "supported")
                 class_map[type_name]["parent_type"] = yang_type
@@ -1222,11 +1222,33 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def resolve_type_name(ctx, et):
+    # Find the name of the entry of class_map that holds the type which the
+    # type statement et refers to. Typedefs of the same name can be defined by
+    # several modules, the one that is meant is that of the module which the
+    # prefix stands for where et is written, or without prefix that module's own.
+    module = et.i_orig_module
+    name = et.arg
+    if ":" in name:
+        prefix, name = name.split(":", 1)
+        module = util.prefix_to_module(module, prefix, et.pos, ctx.errors)
+        if module is None:
+            return et.arg
+    belongs_to = module.search_one("belongs-to")
+    if belongs_to is not None:
+        for mod in ctx.modules:
+            if mod[0] == belongs_to.arg:
+                module = ctx.modules[mod]
+    type_name = "%s:%s" % (module.search_one("prefix").arg, name)
+    return type_name if type_name in class_map else et.arg
+
+
 def build_elemtype(ctx, et, prefix=False):
     # Build a dictionary which defines the type for the element. This is used
     # both in the case that a typedef needs to be built, as well as on per-list
     # basis.
     cls = None
+    type_name = resolve_type_name(ctx, et)
     pattern_stmt = et.search_one("pattern") if not et.search_one("pattern") is None else False
     range_stmt = et.search_one("range") if not et.search_one("range") is None else False
     length_stmt = et.search_one("length") if not et.search_one("length") is None else False
@@ -1260,18 +1282,18 @@ def build_elemtype(ctx, et, prefix=False):
             cls = "restricted-%s" % (et.arg)
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (class_map[type_name]["native_type"], repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name,
                 "base_type": False,
             }
         elif "range" in restrictions:
             cls = "restricted-%s" % et.arg
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (class_map[type_name]["native_type"], repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name,
                 "base_type": False,
             }
 
@@ -1322,7 +1344,7 @@ def build_elemtype(ctx, et, prefix=False):
                     # are considered in turn at this position
                     elemtype.extend(elemtype_s[1])
                     continue
-                elemtype_s[1]["yang_type"] = uniontype.arg
+                elemtype_s[1]["yang_type"] = resolve_type_name(ctx, uniontype)
                 elemtype.append(elemtype_s)
             cls = "union"
         # Map leafrefs to a ReferenceType, handling the referenced path, and
@@ -1385,7 +1407,7 @@ def build_elemtype(ctx, et, prefix=False):
             # at this point. In the case that we are referencing a type that is a
             # typedef, then this has been added to the class_map.
             try:
-                elemtype = class_map[et.arg]
+                elemtype = class_map[type_name]
             except KeyError:
                 passed = False
                 if prefix:
-- 
2.43.0


From f2de59266af024dde588ef7eb6c4db2d4d10c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 33/78] fix: build leafrefs that are members of a union when a
 path helper is used

---
 pyangbind/plugin/pybind.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 3102dfb..6c49eec 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1345,6 +1345,15 @@ def build_elemtype(ctx, et, prefix=False):
                     elemtype.extend(elemtype_s[1])
                     continue
                 elemtype_s[1]["yang_type"] = resolve_type_name(ctx, uniontype)
+                if "referenced_path" in elemtype_s[1]:
+                    # A leafref is built where it is used, like those that are
+                    # no member of a union (the last element of the caller's
+                    # path is the node itself, from which paths start upwards).
+                    elemtype_s[1]["native_type"] = (
+                        "ReferenceType(referenced_path='%s', caller=self._path() + [''], "
+                        "path_helper=self._path_helper, require_instance=%s)"
+                        % (elemtype_s[1]["referenced_path"], elemtype_s[1]["require_instance"])
+                    )
                 elemtype.append(elemtype_s)
             cls = "union"
         # Map leafrefs to a ReferenceType, handling the referenced path, and
-- 
2.43.0


From 01461c41c7d2fb3b50770c36fe65fa65c1a172d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 34/78] fix: support the type instance-identifier

---
 pyangbind/plugin/pybind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 6c49eec..2975d79 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -133,6 +133,8 @@ class_map = {
         ),
     },
     "string": {"native_type": "str", "base_type": True, "quote_arg": True, "pytype": str},
+    # the path that an instance-identifier holds is kept as it was given
+    "instance-identifier": {"native_type": "str", "base_type": True, "quote_arg": True, "pytype": str},
     "decimal64": {"native_type": "Decimal", "base_type": True, "pytype": decimal.Decimal},
     "empty": {
         "native_type": "YANGBool",
-- 
2.43.0


From 4531c7ea9d8bc916c08e6432182b143fe3d4797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 35/78] fix: let a leaf's own default and that of the nearest
 typedef take precedence

---
 pyangbind/plugin/pybind.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 2975d79..62c3a8a 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -603,6 +603,9 @@ def build_typedefs(ctx, defnd):
                 class_map[type_name]["parent_type"] = yang_type
             if default_stmt is not None:
                 class_map[type_name]["default"] = default_stmt.arg
+            elif "default" in elemtype:
+                # a typedef has the default of the one that it names
+                class_map[type_name]["default"] = elemtype["default"]
             if "referenced_path" in elemtype:
                 class_map[type_name]["referenced_path"] = elemtype["referenced_path"]
                 class_map[type_name]["class_override"] = "leafref"
@@ -1615,7 +1618,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
         if elemdefault is not None:
             elemdefault = elemdefault.arg
             default_type = elemtype
-        if isinstance(elemtype, list):
+        elif isinstance(elemtype, list):
             # this is a union, we should check whether any of the types
             # immediately has a default
             for i in elemtype:
-- 
2.43.0


From 77106f42265977af805138bd69a17844d91acc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 36/78] fix: convert the default of a union by the member that
 it is a value of

---
 pyangbind/plugin/pybind.py | 103 ++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 46 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 62c3a8a..2915a7b 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -606,6 +606,9 @@ def build_typedefs(ctx, defnd):
             elif "default" in elemtype:
                 # a typedef has the default of the one that it names
                 class_map[type_name]["default"] = elemtype["default"]
+            for attr in ("restriction_dict", "union_members"):
+                if attr in elemtype:
+                    class_map[type_name][attr] = elemtype[attr]
             if "referenced_path" in elemtype:
                 class_map[type_name]["referenced_path"] = elemtype["referenced_path"]
                 class_map[type_name]["class_override"] = "leafref"
@@ -643,7 +646,12 @@ def build_typedefs(ctx, defnd):
                     # is within a typedef, then pyangbind will choose the first one.
                     q = True if "quote_arg" in i[1] else False
                     default = (i[1]["default"], q)
-            class_map[type_name] = {"native_type": native_type, "base_type": False, "parent_type": parent_type}
+            class_map[type_name] = {
+                "native_type": native_type,
+                "base_type": False,
+                "parent_type": parent_type,
+                "union_members": elemtype,
+            }
             if default:
                 if not isinstance(default, tuple):
                     q = True if "quote_arg" in i[1] else False
@@ -1411,6 +1419,7 @@ def build_elemtype(ctx, et, prefix=False):
             cls = "restricted-bits"
             elemtype = {
                 "native_type": f"YANGBitsType(allowed_bits={allowed_bits})",
+                "allowed_bits": allowed_bits,
                 "base_type": True,
                 "parent_type": "bits",
                 "quote_arg": True,
@@ -1448,22 +1457,52 @@ def build_elemtype(ctx, et, prefix=False):
     return (cls, elemtype)
 
 
-def find_absolute_default_type(default_type, default_value, elemname):
-    if not isinstance(default_type, list):
-        return default_type
-
-    for i in default_type:
-        if not i[1]["base_type"]:
-            test_type = class_map[i[1]["parent_type"]]
-        else:
-            test_type = i[1]
-        try:
-            test_type["pytype"](default_value)
-            default_type = test_type
+def union_members(elemtype):
+    # The members of a type that is a union - be it written at the node, where it
+    # is a list of (class, type) tuples, or a typedef - or None for other types.
+    members = elemtype if isinstance(elemtype, list) else elemtype.get("union_members")
+    return [i[1] for i in members] if members is not None else None
+
+
+def default_is_of_type(elemtype, value):
+    # Whether value, the text of a default, is a value of the type.
+    members = union_members(elemtype)
+    if members is not None:
+        return any(default_is_of_type(i, value) for i in members)
+    if "allowed_bits" in elemtype:
+        return all(i in elemtype["allowed_bits"] for i in value.split())
+    if "restriction_argument" in elemtype:
+        return value in elemtype["restriction_argument"]
+    base_type = find_default_type(elemtype, value)["pytype"]
+    restrictions = []
+    while True:
+        if "restriction_dict" in elemtype:
+            restrictions.append(elemtype["restriction_dict"])
+        if elemtype["base_type"]:
             break
-        except (ValueError, TypeError):
-            pass
-    return find_absolute_default_type(default_type, default_value, elemname)
+        elemtype = class_map[elemtype["parent_type"]]
+    try:
+        for restriction in reversed(restrictions):
+            base_type = RestrictedClassType(base_type=base_type, restriction_dict=restriction)
+        base_type(value)
+    except (ValueError, TypeError, decimal.InvalidOperation):
+        return False
+    return True
+
+
+def find_default_type(elemtype, value):
+    # Find the base type by which value, the default of a node of type elemtype,
+    # is converted. For a union this is that of the first of its members that
+    # the default is a value of.
+    members = union_members(elemtype)
+    if members is not None:
+        for i in members:
+            if default_is_of_type(i, value):
+                return find_default_type(i, value)
+        raise TypeError("default %s is not valid for any member of its union" % value)
+    if elemtype["base_type"]:
+        return elemtype
+    return find_default_type(class_map[elemtype["parent_type"]], value)
 
 
 def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=False, register_paths=True):
@@ -1673,36 +1712,8 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                             break
 
         if elemdefault is not None:
-            # we now need to check whether there's a need to
-            # find out what the base type is for this type
-            # we really expect a linear chain here.
-
-            # if we have a tuple as the type here, this means that
-            # the default was set at a level where there was not
-            # a single option for the type. check the default
-            # against each option, to get a to a single default_type
-            if isinstance(default_type, list):
-                default_type = find_absolute_default_type(default_type, elemdefault, element.arg)
-
-            if not default_type["base_type"]:
-                if "parent_type" in default_type:
-                    if isinstance(default_type["parent_type"], list):
-                        to_visit = [i for i in default_type["parent_type"]]
-                    else:
-                        to_visit = [default_type["parent_type"]]
-                checked = list()
-                while to_visit:
-                    check = to_visit.pop(0)  # remove from the top of stack - depth first
-                    if check not in checked:
-                        checked.append(check)
-                        if "parent_type" in tmp_class_map[check]:
-                            if isinstance(tmp_class_map[check]["parent_type"], list):
-                                to_visit.extend(tmp_class_map[check]["parent_type"])
-                            else:
-                                to_visit.append(tmp_class_map[check]["parent_type"])
-                default_type = tmp_class_map[checked.pop()]
-                if not default_type["base_type"]:
-                    raise TypeError("default type was not a base type")
+            # find the base type that the default is converted to
+            default_type = find_default_type(default_type, elemdefault)
 
         # Set the default type based on what was determined above about the
         # correct value to set.
-- 
2.43.0


From 9673c488133a19153a0c109e62857ac02b6a55b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 37/78] fix: let a typedef of bits have a default

---
 pyangbind/plugin/pybind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 2915a7b..8ff463b 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -606,7 +606,7 @@ def build_typedefs(ctx, defnd):
             elif "default" in elemtype:
                 # a typedef has the default of the one that it names
                 class_map[type_name]["default"] = elemtype["default"]
-            for attr in ("restriction_dict", "union_members"):
+            for attr in ("restriction_dict", "union_members", "allowed_bits"):
                 if attr in elemtype:
                     class_map[type_name][attr] = elemtype[attr]
             if "referenced_path" in elemtype:
@@ -1500,7 +1500,7 @@ def find_default_type(elemtype, value):
             if default_is_of_type(i, value):
                 return find_default_type(i, value)
         raise TypeError("default %s is not valid for any member of its union" % value)
-    if elemtype["base_type"]:
+    if elemtype["base_type"] or "allowed_bits" in elemtype:
         return elemtype
     return find_default_type(class_map[elemtype["parent_type"]], value)
 
-- 
2.43.0


From a6aeaaa87e647aedf8fa7ee12dd40d8c2257544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 38/78] fix: keep defaults that are false or empty

---
 pyangbind/lib/base.py      | 2 +-
 pyangbind/lib/serialise.py | 2 +-
 pyangbind/lib/yangtypes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/base.py b/pyangbind/lib/base.py
index 5853f33..e62b3bb 100644
--- a/pyangbind/lib/base.py
+++ b/pyangbind/lib/base.py
@@ -86,7 +86,7 @@ class PybindBase(object):
                 # this is an attribute that does not have get()
                 # method
                 if filter is False and not element._changed() and not element._present() is True:
-                    if element._default is not False and element._default:
+                    if element._default is not False:
                         d[element_id] = element._default
                     else:
                         d[element_id] = element
diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f1d4d78..f1ab57b 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -446,7 +446,7 @@ def make_generate_ietf_tree(yname_ns_func):
                     elif not flt:
                         d[yname] = element
                 elif with_defaults == WithDefaults.IF_SET:
-                    if element._changed() or element._default == element:
+                    if element._changed() or (element._default is not False and element._default == element):
                         d[yname] = element
         return d
 
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 28a8bfb..5a5c752 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1093,7 +1093,7 @@ def YANGDynClass(*args, **kwargs):
                             if not hasattr(self, "_method"):
                                 setattr(self, "_" + method, self.__generate_extmethod(member))
 
-            if default:
+            if default is not None and default is not False:
                 self._default = default
 
             # the children of a container register below it, so it must be
-- 
2.43.0


From 51d93aa2b6de4ece2bb18b741ea1631543796ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 39/78] fix: give leafrefs their defaults when a path helper is
 used

---
 pyangbind/plugin/pybind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 8ff463b..7d80e58 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -961,6 +961,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 class_str["arg"] += ", caller=self._path() + ['%s'], " % (i["yang_name"])
                 class_str["arg"] += "path_helper=self._path_helper, "
                 class_str["arg"] += "require_instance=%s)" % (i["require_instance"])
+                if "default" in i and not i["default"] is None:
+                    class_str["arg"] += ", default=%s(%s)" % (i["defaulttype"], default_arg)
             elif i["class"] == "leafref-list":
                 # Deal with the special case of a list of leafrefs, since the
                 # ReferenceType has different arguments that need to be provided to the
-- 
2.43.0


From 3281109fc5bd4d7f615b1c38554501a53d6331c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 40/78] fix: convert the default of a decimal64 without
 rounding it to a float

---
 pyangbind/plugin/pybind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 7d80e58..c0aed23 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -135,7 +135,7 @@ class_map = {
     "string": {"native_type": "str", "base_type": True, "quote_arg": True, "pytype": str},
     # the path that an instance-identifier holds is kept as it was given
     "instance-identifier": {"native_type": "str", "base_type": True, "quote_arg": True, "pytype": str},
-    "decimal64": {"native_type": "Decimal", "base_type": True, "pytype": decimal.Decimal},
+    "decimal64": {"native_type": "Decimal", "base_type": True, "quote_arg": True, "pytype": decimal.Decimal},
     "empty": {
         "native_type": "YANGBool",
         "map": class_bool_map,
-- 
2.43.0


From e9f46f2279c87c924f5734fdd9183f69caef1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 41/78] fix: let presence containers without children accept no
 other attributes

---
 pyangbind/plugin/pybind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index c0aed23..ba71827 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -859,6 +859,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
 
     elements_str = ""
     if len(elements) == 0:
+        nfd.write("  __slots__ = ()\n\n")
         nfd.write("  _pyangbind_elements = {}")
     else:
         # We want to prevent a user from creating new attributes on a class that
-- 
2.43.0


From d5b01fade0b4043ec794a701da6e3abf2753ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 42/78] fix: let rpcs, their input and output, and
 notifications accept no other attributes

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 5a5c752..87f0007 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1046,7 +1046,7 @@ def YANGDynClass(*args, **kwargs):
         # also fixes an issue whereby we could set __slots__
         # and try and inherit a variable-length inbuilt such
         # as long, which is not allowed.
-        if yang_type in ["container", "list"] or is_container == "container":
+        if is_container or getattr(base_type, "_pybind_generated_by", None) == "container":
             __slots__ = tuple(clsslots)
 
         _pybind_base_class = regex.sub("<(type|class) '(?P<class>.*)'>", r"\g<class>", str(base_type))
-- 
2.43.0


From 109121f4441eee0635659f58948fa6046958c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 43/78] fix: restrictions of 64-bit types keep the integer size

A further restricted 64-bit type (a typedef with a range of its own, or one
of a restricted typedef) lost its size, and was encoded as a number rather
than a string in IETF JSON.
---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 87f0007..25066a6 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -213,7 +213,7 @@ def RestrictedClassType(*args, **kwargs):
         _pybind_generated_by = "RestrictedClassType"
 
         _restricted_class_base = restricted_class_hint
-        _restricted_int_size = int_size
+        _restricted_int_size = int_size if int_size is not None else getattr(base_type, "_restricted_int_size", None)
 
         def __init__(self, *args, **kwargs):
             """
-- 
2.43.0


From 6e2ff874cc468d133ebb2a108f966f2efff814cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 44/78] fix: encode bare booleans as true and false

Elements of a leaf-list of booleans and boolean defaults were encoded as the
numbers 1 and 0, since YANGBool is an integer.
---
 pyangbind/lib/serialise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f1ab57b..e9203a3 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -160,10 +160,11 @@ class YangDataSerialiser(object):
             return ndict
         elif isinstance(obj, (str,)):
             return str(obj)
-        elif isinstance(obj, (int,)):
-            return int(obj)
         elif isinstance(obj, (YANGBool, bool)):
+            # YANGBool and bool are integers as well, hence must be considered first
             return bool(obj)
+        elif isinstance(obj, (int,)):
+            return int(obj)
         elif isinstance(obj, Decimal):
             return self.yangt_decimal(obj)
 
-- 
2.43.0


From 5c6cecb9bb378b3859017dd0c1b6328020e948e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 45/78] fix: encode unrestricted binary values in leaf-lists

Elements of a leaf-list of binary without a length restriction carry no type
information of their own, and the encoders refused them.
---
 pyangbind/lib/serialise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index e9203a3..e556380 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -167,6 +167,8 @@ class YangDataSerialiser(object):
             return int(obj)
         elif isinstance(obj, Decimal):
             return self.yangt_decimal(obj)
+        elif isinstance(obj, (bytes,)):
+            return str(base64.b64encode(obj), "ascii")
 
         raise AttributeError(
             "Unmapped type: %s, %s, %s, %s, %s, %s" % (elem_name, orig_yangt, pybc, pyc, type(obj), obj)
-- 
2.43.0


From 51d7e3ef58322d56c8c905b23b0d5c9ebf4a6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 46/78] fix: IETF output of unset leaves has their defaults

Without filtering, leaves that were not set were written with the zero or
empty value of their type even where the schema gives a default, which the
default JSON mode does write.
---
 pyangbind/lib/serialise.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index e556380..553ab1c 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -447,7 +447,11 @@ def make_generate_ietf_tree(yname_ns_func):
                     if flt and element._changed():
                         d[yname] = element
                     elif not flt:
-                        d[yname] = element
+                        # as in PybindBase.get(), a leaf that was not set has its default, if any
+                        if element._changed() or element._default is False or hasattr(element, "get"):
+                            d[yname] = element
+                        else:
+                            d[yname] = element._default
                 elif with_defaults == WithDefaults.IF_SET:
                     if element._changed() or (element._default is not False and element._default == element):
                         d[yname] = element
-- 
2.43.0


From 7f714ea17afb321f44e341847287288a3351bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 47/78] fix: XML output of leaf-lists of booleans is true or
 false

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 553ab1c..b01229c 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -342,7 +342,7 @@ class pybindIETFXMLEncoder(object):
                 if isinstance(v, SerialisedTypedList):
                     # TypedList (e.g. leaf-list or union-list), process each element as a sibling
                     for i in v:
-                        el = E(k, str(i))
+                        el = E(k, str(i).lower() if isinstance(i, bool) else str(i))
                         parent.append(el)
                 elif isinstance(v, list):
                     # a container maps to a list, recursively process each element as a child element
-- 
2.43.0


From f6359bfb3314934573e43f4b19618a598664fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 48/78] fix: identities of other modules are qualified wherever
 they occur

Identities were qualified with their module for leaves directly of type
identityref only, not for derived types, unions and leaf-lists; an identity
given with a prefix, or one whose name starts with that of its module, got
a wrong name, and the XML encoder failed for leaf-lists of identityrefs.
---
 pyangbind/lib/serialise.py | 50 +++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index b01229c..565149a 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -66,6 +66,15 @@ class SerialisedTypedList(list):
     pass
 
 
+def identity_of(value):
+    """The definition of the identity that a value stands for, or None if the value is not an identity."""
+    definitions = getattr(value, "_enumeration_dict", None)
+    if definitions is None:
+        return None
+    definition = definitions.get(value)
+    return definition if definition is not None and "@module" in definition else None
+
+
 class YangDataSerialiser(object):
     """
     This class encapsulates the logic to parse the object tree and generate appropriate
@@ -120,7 +129,7 @@ class YangDataSerialiser(object):
             return self.default(obj._get()) if hasattr(obj, "_get") else str(obj)
         elif orig_yangt in ["int64", "uint64"]:
             return self.yangt_long(obj)
-        elif orig_yangt in ["identityref"]:
+        elif orig_yangt in ["identityref"] or identity_of(obj) is not None:
             try:
                 return self.yangt_identityref(obj)
             except UnmappedItem:
@@ -235,16 +244,22 @@ class IETFYangDataSerialiser(YangDataSerialiser):
     def yangt_long(self, obj):
         return str(obj)
 
-    def yangt_identityref(self, obj):
-        try:
-            emod = obj._enumeration_dict[obj]["@module"]
-            if emod != obj._defining_module:
-                # if not already prefixed with the type namespace
-                if not obj.startswith("%s" % emod):
-                    return "%s:%s" % (emod, obj)
-        except KeyError:
-            pass
-        return str(obj)
+    def yangt_identityref(self, obj, defining_module=None):
+        definition = identity_of(obj)
+        if definition is None:
+            return str(obj)
+        # the value itself may have been given with a prefix
+        prefix, _, name = str(obj).rpartition(":")
+        if defining_module is None:
+            defining_module = getattr(obj, "_defining_module", None)
+        if definition["@module"] == defining_module or (defining_module is None and not prefix):
+            return name
+        return "%s:%s" % (definition["@module"], name)
+
+    def yangt_typed_list(self, obj):
+        # identities in a leaf-list do not know the module that it is defined in
+        module = getattr(obj, "_defining_module", None)
+        return [self.yangt_identityref(i, module) if identity_of(i) is not None else self.default(i) for i in obj]
 
     def yangt_decimal(self, obj):
         return str(obj)
@@ -261,7 +276,7 @@ class XmlYangDataSerialiser(IETFYangDataSerialiser):
     def yangt_typed_list(self, obj):
         # We have already used a standard list to denote a container, so we instead we use a custom list
         # type here in the serialised model
-        return SerialisedTypedList([self.default(i) for i in obj])
+        return SerialisedTypedList(super(XmlYangDataSerialiser, self).yangt_typed_list(obj))
 
     def yangt_empty(self, obj):
         return None
@@ -370,11 +385,12 @@ class pybindIETFXMLEncoder(object):
     def yname_ns_func(parent_namespace, element, yname):
         # to keeps things simple, we augment every key with a complete namespace map
         ns_map = [(None, element._namespace)]
-        if element._yang_type == "identityref" and element._changed():
-            # configured identityref (i.e. points to a valid identity)
-            ns_map.append(
-                (element._enumeration_dict[element]["@module"], element._enumeration_dict[element]["@namespace"])
-            )
+        values = element if getattr(element, "_pybind_generated_by", None) == "TypedListType" else [element]
+        for value in values:
+            identity = identity_of(value)
+            if identity is not None:
+                # configured identityref (i.e. points to a valid identity)
+                ns_map.append((identity["@module"], identity["@namespace"]))
         return yname, tuple(ns_map)
 
     @classmethod
-- 
2.43.0


From 11f57ead67a9d9064827bc9d3ebc431327abd1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 49/78] fix: IETF output leaves out leaf-lists without entries

---
 pyangbind/lib/serialise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 565149a..c6a3fc9 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -461,7 +461,9 @@ def make_generate_ietf_tree(yname_ns_func):
             else:
                 if with_defaults is None:
                     if flt and element._changed():
-                        d[yname] = element
+                        # a leaf-list without entries is not output, as in PybindBase.get()
+                        if generated_by != "TypedListType" or len(element):
+                            d[yname] = element
                     elif not flt:
                         # as in PybindBase.get(), a leaf that was not set has its default, if any
                         if element._changed() or element._default is False or hasattr(element, "get"):
-- 
2.43.0


From 95645fcdbc7e044f224a73a316b15abe9f5d4da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 50/78] fix: loading JSON with overwrite replaces lists at
 every level, without it keeps the entries of an empty list

---
 pyangbind/lib/serialise.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index c6a3fc9..5892615 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -647,7 +647,14 @@ class pybindJSONDecoder(object):
                         unsetchildelem = getattr(chobj, "_unset_%s" % elem)
                         unsetchildelem()
                 pybindJSONDecoder.load_json(
-                    d[key], chobj, yang_base, obj=chobj, path_helper=path_helper, skip_unknown=skip_unknown
+                    d[key],
+                    chobj,
+                    yang_base,
+                    obj=chobj,
+                    path_helper=path_helper,
+                    extmethods=extmethods,
+                    overwrite=overwrite,
+                    skip_unknown=skip_unknown,
                 )
                 set_via_stdmethod = False
             elif pybind_attr in ["YANGListType", "list"]:
@@ -680,6 +687,10 @@ class pybindJSONDecoder(object):
                 else:
                     key_order = d[key].keys()
 
+                if overwrite:
+                    for child_key in list(chobj):
+                        chobj.delete(child_key)
+                set_via_stdmethod = False
                 for child_key in key_order:
                     if child_key not in chobj:
                         chobj.add(child_key)
@@ -690,13 +701,10 @@ class pybindJSONDecoder(object):
                         yang_base,
                         obj=parent,
                         path_helper=path_helper,
+                        extmethods=extmethods,
+                        overwrite=overwrite,
                         skip_unknown=skip_unknown,
                     )
-                    set_via_stdmethod = False
-                if overwrite:
-                    for child_key in chobj:
-                        if child_key not in d[key]:
-                            chobj.delete(child_key)
             elif pybind_attr in ["TypedListType"]:
                 if not overwrite:
                     list_obj = getattr(obj, "_get_%s" % safe_name(key))()
-- 
2.43.0


From ea2980ca49d5ff7eb623c7a91ea907a403a31551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 51/78] fix: loading IETF JSON handles arrays that are empty or
 unknown, and overwrites lists once

---
 pyangbind/lib/serialise.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 5892615..3ebcb52 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -823,17 +823,23 @@ class pybindJSONDecoder(object):
                     skip_unknown=skip_unknown,
                 )
             elif isinstance(d[key], list):
-                for elem in d[key]:
+                this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
+                if this_attr is None and skip_unknown is False:
+                    raise AttributeError("List specified that did not exist")
+                elif this_attr is None:
+                    # Skip unknown JSON keys
+                    continue
+                this_attr = this_attr()
+                if not hasattr(this_attr, "_keyval"):
+                    # this is a leaf-list
+                    std_method_set = True
+                else:
                     # if this is a list, then this is a YANG list
-                    this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
-                    if this_attr is None:
-                        raise AttributeError("List specified that did not exist")
-                    this_attr = this_attr()
-                    if hasattr(this_attr, "_keyval"):
-                        if overwrite:
-                            existing_keys = this_attr.keys()
-                            for i in existing_keys:
-                                this_attr.delete(i)
+                    if overwrite:
+                        existing_keys = list(this_attr.keys())
+                        for i in existing_keys:
+                            this_attr.delete(i)
+                    for elem in d[key]:
                         #  this handles YANGLists
                         if this_attr._keyval is False:
                             # Keyless list, generate a key
@@ -867,9 +873,6 @@ class pybindJSONDecoder(object):
                             skip_unknown=skip_unknown,
                         )
                         pybindJSONDecoder.check_metadata_add(key, d, nobj)
-                    else:
-                        # this is a leaf-list
-                        std_method_set = True
             else:
                 std_method_set = True
 
-- 
2.43.0


From 07f5c94fbad47e6f6f5c4dd5ae12fe820f1b4f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 52/78] fix: loading a user-ordered list keeps entries recorded
 at the same position and leaves the document alone

---
 pyangbind/lib/serialise.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 3ebcb52..c322833 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -670,18 +670,16 @@ class pybindJSONDecoder(object):
                 if ordered_list:
                     # Put keys in order:
                     okeys = []
-                    kdict = {}
+                    positions = []
                     for k, v in d[key].items():
                         if "__yang_order" not in v:
                             # Element is not specified in terms of order, so
                             # push to a list that keeps this order
                             okeys.append(k)
                         else:
-                            kdict[v["__yang_order"]] = k
-                            # Throw this metadata away
-                            v.pop("__yang_order", None)
+                            positions.append((v["__yang_order"], k))
                     okeys.reverse()
-                    key_order = [kdict[k] for k in sorted(kdict)]
+                    key_order = [k for _, k in sorted(positions, key=lambda p: p[0])]
                     for add_element in okeys:
                         key_order.append(add_element)
                 else:
@@ -695,8 +693,12 @@ class pybindJSONDecoder(object):
                     if child_key not in chobj:
                         chobj.add(child_key)
                     parent = chobj[child_key]
+                    members = d[key][child_key]
+                    if ordered_list and "__yang_order" in members:
+                        # Leave this metadata out
+                        members = OrderedDict((k, v) for k, v in members.items() if k != "__yang_order")
                     pybindJSONDecoder.load_json(
-                        d[key][child_key],
+                        members,
                         parent,
                         yang_base,
                         obj=parent,
-- 
2.43.0


From 978c179c8e9f243ccc82ded746945975f43804b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 53/78] fix: loading finds the existing entry of a list whose
 key is not a string, and loads lists without keys

---
 pyangbind/lib/serialise.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index c322833..970ec88 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -545,10 +545,9 @@ class pybindIETFXMLDecoder(object):
                     add_kwargs[pkv] = child[ykv]
                     key_parts.append(str(child[ykv]))
                 key_str = " ".join(map(str, key_parts))
-                if key_str not in chobj:
+                nobj = pybindJSONDecoder.get_entry(chobj, key_str)
+                if nobj is None:
                     nobj = chobj.add(**add_kwargs)
-                else:
-                    nobj = chobj[key_str]
 
                 # now we have created the nested object element, we add other members
                 pybindIETFXMLDecoder.load_xml(
@@ -690,10 +689,14 @@ class pybindJSONDecoder(object):
                         chobj.delete(child_key)
                 set_via_stdmethod = False
                 for child_key in key_order:
-                    if child_key not in chobj:
-                        chobj.add(child_key)
-                    parent = chobj[child_key]
                     members = d[key][child_key]
+                    if not chobj._keyval:
+                        # Keyless list, generate a key
+                        parent = chobj[chobj.add()]
+                    else:
+                        parent = pybindJSONDecoder.get_entry(chobj, child_key)
+                        if parent is None:
+                            parent = chobj.add(child_key)
                     if ordered_list and "__yang_order" in members:
                         # Leave this metadata out
                         members = OrderedDict((k, v) for k, v in members.items() if k != "__yang_order")
@@ -743,6 +746,16 @@ class pybindJSONDecoder(object):
                 set_method(d[key], load=True)
         return obj
 
+    @staticmethod
+    def get_entry(list_obj, key):
+        """The entry of a list with a key, which may be the text of the key it was added with; None if there is none"""
+        if key in list_obj:
+            return list_obj[key]
+        for existing_key in list_obj:
+            if str(existing_key) == str(key):
+                return list_obj[existing_key]
+        return None
+
     @staticmethod
     def check_metadata_add(key, data, obj):
         keys = [str(k) for k in data]
@@ -853,17 +866,15 @@ class pybindJSONDecoder(object):
                             for pkv, ykv in zip(this_attr._keyval.split(" "), this_attr._yang_keys.split(" ")):
                                 kwargs[pkv] = elem[ykv]
                                 keystr += "%s " % elem[ykv]
-                            keystr = keystr.rstrip(" ")
-                            if keystr not in this_attr:
+                            keystr = keystr[:-1]
+                            nobj = pybindJSONDecoder.get_entry(this_attr, keystr)
+                            if nobj is None:
                                 nobj = this_attr.add(**kwargs)
-                            else:
-                                nobj = this_attr[keystr]
                         else:
                             k = elem[this_attr._yang_keys]
-                            if k not in this_attr:
+                            nobj = pybindJSONDecoder.get_entry(this_attr, k)
+                            if nobj is None:
                                 nobj = this_attr.add(k)
-                            else:
-                                nobj = this_attr[k]
                         pybindJSONDecoder.load_ietf_json(
                             elem,
                             None,
-- 
2.43.0


From 5c0ff63533939396ab187a437b3a831581779463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 54/78] fix: loading JSON keeps leaf-list entries whose values
 are not equal to their JSON form

---
 pyangbind/lib/serialise.py | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 970ec88..c42b672 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -710,23 +710,8 @@ class pybindJSONDecoder(object):
                         overwrite=overwrite,
                         skip_unknown=skip_unknown,
                     )
-            elif pybind_attr in ["TypedListType"]:
-                if not overwrite:
-                    list_obj = getattr(obj, "_get_%s" % safe_name(key))()
-                    for item in d[key]:
-                        if item not in list_obj:
-                            list_obj.append(item)
-                    list_copy = []
-                    for elem in list_obj:
-                        list_copy.append(elem)
-                    for e in list_copy:
-                        if e not in d[key]:
-                            list_obj.remove(e)
-                    set_via_stdmethod = False
-                else:
-                    # use the set method
-                    pass
             elif pybind_attr in [
+                "TypedListType",
                 "RestrictedClassType",
                 "ReferencePathType",
                 "RestrictedPrecisionDecimal",
-- 
2.43.0


From a9b740148b79678911dbd6af7bbcfb8759b22910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 55/78] fix: loading XML uses the text of list keys and
 leaf-list entries, and loads empty strings

---
 pyangbind/lib/serialise.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index c42b672..da8e6c9 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -542,8 +542,9 @@ class pybindIETFXMLDecoder(object):
                 key_parts = []
                 add_kwargs = {}
                 for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
-                    add_kwargs[pkv] = child[ykv]
-                    key_parts.append(str(child[ykv]))
+                    # the text as it is, rather than the Python type that lxml takes it for
+                    add_kwargs[pkv] = child[ykv].text or ""
+                    key_parts.append(add_kwargs[pkv])
                 key_str = " ".join(map(str, key_parts))
                 nobj = pybindJSONDecoder.get_entry(chobj, key_str)
                 if nobj is None:
@@ -555,26 +556,16 @@ class pybindIETFXMLDecoder(object):
                 )
 
             elif hasattr(chobj, "_pybind_generated_by") and chobj._pybind_generated_by == "TypedListType":
-                # NOTE: this is a little curious, because we are relying on the coercion of types
-                #   i.e. lxml will "identify" the type based on its own internal model of Python
-                #   types, see: https://lxml.de/2.0/objectify.html#how-data-types-are-matched
-                # There are limitations which need to be addressed, e.g. hexadecimal strings.
-                # Already, we have a stringify-fallback: if we fail on the first attempt then
-                # try again as a pure string (if its allowed).
-                try:
-                    chobj.append(child.pyval)
-                except ValueError:
-                    if str in chobj._allowed_type:
-                        chobj.append(str(child.pyval))
-                    else:
-                        raise
+                # NOTE: the text is given to the types of the leaf-list as it is, since the Python type
+                #   that lxml takes it for loses information, e.g. leading zeros.
+                chobj.append(child.text or "")
 
             else:
                 if chobj._is_keyval is True:
                     # we've already added the key
                     continue
 
-                val = child.text
+                val = child.text or ""
                 if chobj._yang_type == "empty":
                     if child.text is None:
                         val = True
-- 
2.43.0


From 77382baf36b7b9bc7ee20229903c5543588b0119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 56/78] fix: loading JSON accepts list keys with spaces in
 lists with several keys

---
 pyangbind/lib/serialise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index da8e6c9..be6bee1 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -687,7 +687,12 @@ class pybindJSONDecoder(object):
                     else:
                         parent = pybindJSONDecoder.get_entry(chobj, child_key)
                         if parent is None:
-                            parent = chobj.add(child_key)
+                            keys = dict(zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")))
+                            if len(child_key.split(" ")) > len(keys) > 1 and all(yk in members for yk in keys.values()):
+                                # a key has a space in it, take them from the entry
+                                parent = chobj.add(**{pk: members[yk] for pk, yk in keys.items()})
+                            else:
+                                parent = chobj.add(child_key)
                     if ordered_list and "__yang_order" in members:
                         # Leave this metadata out
                         members = OrderedDict((k, v) for k, v in members.items() if k != "__yang_order")
-- 
2.43.0


From 7ccf51568f103c385b0398790f941f056f1a87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 57/78] fix: loading IETF JSON with overwrite replaces
 containers, as loading JSON does

---
 pyangbind/lib/serialise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index be6bee1..5aa72e1 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -806,6 +806,10 @@ class pybindJSONDecoder(object):
                 if hasattr(chobj, "_presence"):
                     if chobj._presence:
                         chobj._set_present()
+                if overwrite and getattr(chobj, "_pybind_generated_by", None) == "container":
+                    for elem in chobj._pyangbind_elements:
+                        unsetchildelem = getattr(chobj, "_unset_%s" % elem)
+                        unsetchildelem()
 
                 pybindJSONDecoder.check_metadata_add(key, d, chobj)
                 pybindJSONDecoder.load_ietf_json(
-- 
2.43.0


From e141ee2907485ce1633a140d75f2347a62c42239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 58/78] fix: JSON output of list keys that are binary or
 decimal, and loading of lists with such keys

---
 pyangbind/lib/serialise.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 5aa72e1..98f740a 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -86,12 +86,14 @@ class YangDataSerialiser(object):
         if isinstance(d, OrderedDict) or isinstance(d, dict):
             index = 0
             for k in d:
+                # the key of a list entry can be a value that is no key of a JSON object
+                name = self.default(k) if isinstance(k, (bytes, Decimal)) else k
                 if isinstance(d[k], dict) or isinstance(d[k], OrderedDict):
-                    nd[k] = self.preprocess_element(d[k])
+                    nd[name] = self.preprocess_element(d[k])
                     if getattr(d, "_user_ordered", False):
-                        nd[k]["__yang_order"] = index
+                        nd[name]["__yang_order"] = index
                 else:
-                    nd[k] = self.default(d[k])
+                    nd[name] = self.default(d[k])
                 # if we wanted to do this as per draft-ietf-netmod-yang-metadata
                 # then the encoding is like this
                 # if not "@%s" % k in nd:
@@ -688,8 +690,8 @@ class pybindJSONDecoder(object):
                         parent = pybindJSONDecoder.get_entry(chobj, child_key)
                         if parent is None:
                             keys = dict(zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")))
-                            if len(child_key.split(" ")) > len(keys) > 1 and all(yk in members for yk in keys.values()):
-                                # a key has a space in it, take them from the entry
+                            if len(keys) > 1 and all(yk in members for yk in keys.values()):
+                                # the keys may have spaces in them, take them from the entry
                                 parent = chobj.add(**{pk: members[yk] for pk, yk in keys.items()})
                             else:
                                 parent = chobj.add(child_key)
-- 
2.43.0


From 20c978c9c73e4ea0dfb0c1a4f1e862d0cf5af02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 59/78] fix: skipping subtrees finds qualified names and
 ignores paths beyond leaves and into lists of IETF JSON

---
 pyangbind/lib/pybindJSON.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index cf0bfd8..2df93ef 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -27,20 +27,25 @@ from collections import OrderedDict
 from pyangbind.lib.serialise import pybindIETFJSONEncoder, pybindJSONDecoder, pybindJSONEncoder, pybindJSONIOError
 
 
-def remove_path(tree, path):
-    this_part = path.pop(0)
-    if len(path) == 0:
-        try:
-            del tree[this_part]
-            return tree
-        except KeyError:
-            # ignore missing dictionary key
-            pass
-    else:
-        try:
-            tree[this_part] = remove_path(tree[this_part], path)
-        except KeyError:
-            pass
+def remove_path(tree, path, qualified=False):
+    if isinstance(tree, list):
+        # the entries of a list are not named by a path, such that it
+        # applies to each of them.
+        for entry in tree:
+            remove_path(entry, path, qualified)
+    elif isinstance(tree, dict):
+        this_part, remainder = path[0], path[1:]
+        names = [this_part] if this_part in tree else []
+        if qualified and not names:
+            # IETF JSON qualifies names with that of their module, which is
+            # not part of the path of an object.
+            names = [k for k in tree if k.split(":")[-1] == this_part]
+        for name in names:
+            if remainder:
+                remove_path(tree[name], remainder, qualified)
+            else:
+                del tree[name]
+    # anything else is a value, which has nothing below it to remove.
     return tree
 
 
@@ -124,7 +129,7 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
             trimmed_path.pop(0)
 
         if match and len(trimmed_path):
-            tree = remove_path(tree, trimmed_path)
+            tree = remove_path(tree, trimmed_path, qualified=(mode == "ietf"))
 
     if select:
         key_del = []
-- 
2.43.0


From eef66094042c8a380cf1e7f7c15e20577c857c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 60/78] fix: selecting by a member below the entry finds
 qualified names in IETF JSON

---
 pyangbind/lib/pybindJSON.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index 2df93ef..5192538 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -102,8 +102,7 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
             raise KeyError("requested non-existent key (%s)" % key[0])
         if len(key) == 1:
             return unresolved_dict[key[0]]
-        current = key.pop(0)
-        return lookup_subdict(dictionary[current], key)
+        return lookup_subdict(unresolved_dict[key[0]], key[1:])
 
     if not isinstance(skip_subtrees, list):
         raise AttributeError("the subtrees to be skipped should be a list")
-- 
2.43.0


From 627753b81f29a3428445188d38a2355f2f8dfa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 61/78] fix: extension methods named as attributes of a
 container leave those as they are

---
 pyangbind/lib/yangtypes.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 25066a6..98c775f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1029,26 +1029,18 @@ def YANGDynClass(*args, **kwargs):
         rpath = None
         if supplied_register_path is not None:
             rpath = supplied_register_path
-        if parent_instance is not None:
+        elif parent_instance is not None:
             rpath = parent_instance._path() + [yang_name]
         else:
             rpath = []
         chk_path = "/" + "/".join(remove_path_attributes(rpath))
         if chk_path in extmethods:
             for method in [i for i in dir(extmethods[chk_path]) if not i.startswith("_")]:
-                clsslots.append("_" + method)
+                # what the node has under this name already is not replaced
+                if not hasattr(base_type, "_" + method):
+                    clsslots.append("_" + method)
 
     class YANGBaseClass(base_type):
-        # we only create slots for things that are restricted
-        # in adding attributes to them - this means containing
-        # data nodes. This means that we can allow
-        # leaf._someattr to be used by consuming code - it
-        # also fixes an issue whereby we could set __slots__
-        # and try and inherit a variable-length inbuilt such
-        # as long, which is not allowed.
-        if is_container or getattr(base_type, "_pybind_generated_by", None) == "container":
-            __slots__ = tuple(clsslots)
-
         _pybind_base_class = regex.sub("<(type|class) '(?P<class>.*)'>", r"\g<class>", str(base_type))
 
         def __new__(self, *args, **kwargs):
@@ -1254,6 +1246,17 @@ def YANGDynClass(*args, **kwargs):
 
             return self._cpresent
 
+        # we only create slots for things that are restricted
+        # in adding attributes to them - this means containing
+        # data nodes. This means that we can allow
+        # leaf._someattr to be used by consuming code - it
+        # also fixes an issue whereby we could set __slots__
+        # and try and inherit a variable-length inbuilt such
+        # as long, which is not allowed.
+        if is_container or getattr(base_type, "_pybind_generated_by", None) == "container":
+            # a method cannot have a slot if the class has something by its name
+            __slots__ = tuple(set(clsslots) - set(vars()))
+
     return YANGBaseClass(*args, **kwargs)
 
 
-- 
2.43.0


From 553a51b89c213727a5c8151325067b5bc14a69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 62/78] fix: an extension method named method does not keep
 others from being attached

---
 pyangbind/lib/yangtypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 98c775f..f06e9d8 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1082,8 +1082,7 @@ def YANGDynClass(*args, **kwargs):
                             continue
                         member = getattr(self._extmethods[chk_path], method)
                         if hasattr(member, "__call__"):
-                            if not hasattr(self, "_method"):
-                                setattr(self, "_" + method, self.__generate_extmethod(member))
+                            setattr(self, "_" + method, self.__generate_extmethod(member))
 
             if default is not None and default is not False:
                 self._default = default
-- 
2.43.0


From c5c0d5b8245eef3be247146a8a6c4e0cdc7d32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 63/78] fix: the remaining keywords of Python are reserved
 names

---
 pyangbind/lib/yangtypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index f06e9d8..d1c05ba 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -86,6 +86,11 @@ reserved_name = [
     "min",
     "max",
     "async",
+    "await",
+    "nonlocal",
+    "None",
+    "True",
+    "False",
 ]
 
 
-- 
2.43.0


From d95f0aae5bef79aa2e25657a01b85090561dcca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 64/78] fix: nodes named as attributes of all containers do not
 replace these

---
 pyangbind/lib/yangtypes.py | 47 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d1c05ba..c79d3b7 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -91,6 +91,51 @@ reserved_name = [
     "None",
     "True",
     "False",
+    "OrderedDict",
+    "append",
+    "extend",
+    "present",
+    "self",
+]
+
+# Attributes that every container has: a node named as one of them, or with
+# a name that is private to a class, has to be known by another name.
+attribute_name = [
+    "_add_metadata",
+    "_base_type",
+    "_changed",
+    "_choice",
+    "_cpresent",
+    "_default",
+    "_defining_module",
+    "_extensions",
+    "_extensionsd",
+    "_extmethods",
+    "_is_config",
+    "_is_container",
+    "_is_keyval",
+    "_is_leaf",
+    "_mchanged",
+    "_metadata",
+    "_namespace",
+    "_parent",
+    "_path",
+    "_path_helper",
+    "_presence",
+    "_present",
+    "_pyangbind_elements",
+    "_pybind_base_class",
+    "_pybind_generated_by",
+    "_register",
+    "_register_path",
+    "_register_paths",
+    "_set",
+    "_set_present",
+    "_supplied_register_path",
+    "_yang_name",
+    "_yang_namespace",
+    "_yang_path",
+    "_yang_type",
 ]
 
 
@@ -138,6 +183,8 @@ def safe_name(arg):
     arg = arg.replace(".", "_")
     if arg in reserved_name:
         arg += "_"
+    elif arg in attribute_name or arg.startswith("__"):
+        arg = "yang%s" % arg
     # store the unsafe->original version mapping
     # so that we can retrieve it when get() is called.
     return arg
-- 
2.43.0


From 13338e88b9a573326ee278ee13db61fd7419766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:34 +0000
Subject: [PATCH 65/78] fix: containers whose paths differ only in their
 separators have classes of their own

---
 pyangbind/plugin/pybind.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index ba71827..6a017cd 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -334,6 +334,8 @@ import builtins as __builtin__
 long = int
 """
 
+    ctx.pybind_class_names = {}
+
     if not ctx.opts.split_class_dir:
         fd.write(ctx.pybind_common_hdr)
     else:
@@ -719,6 +721,20 @@ def get_children_elements(
                     imports.append(ch.arg)
 
 
+def get_class_name(ctx, element, module, path):
+    # The name of the class that is generated for a container or list, which has
+    # to be another one for each path: the separators of a path are not told from
+    # characters of the names within it.
+    names = ctx.pybind_class_names
+    if (module.arg, path) not in names:
+        cpath = path.replace("/", "_").replace("-", "_").replace(".", "_")
+        name = "yc_%s_%s_%s" % (safe_name(element.arg), safe_name(module.arg), cpath)
+        while name in names.values():
+            name += "_"
+        names[(module.arg, path)] = name
+    return names[(module.arg, path)]
+
+
 def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=True, choice=False, register_paths=True):
     # Iterative function that is called for all elements that have childen
     # data nodes in the tree. This function resolves those nodes into the
@@ -818,10 +834,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
         else:
             if not path == "":
-                nfd.write(
-                    "class yc_%s_%s_%s(PybindBase):\n"
-                    % (safe_name(parent.arg), safe_name(module.arg), safe_name(path.replace("/", "_")))
-                )
+                nfd.write("class %s(PybindBase):\n" % get_class_name(ctx, parent, module, path))
             else:
                 nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
 
@@ -1618,11 +1631,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-                elemdict["type"] = "yc_%s_%s_%s" % (
-                    safe_name(element.arg),
-                    safe_name(module.arg),
-                    safe_name(path.replace("/", "_")),
-                )
+                elemdict["type"] = get_class_name(ctx, element, module, npath)
 
             # Deal with specific cases for list - such as the key and how it is
             # ordered.
-- 
2.43.0


From 740fa966a36c8e47b48d01580284444885c60efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:34 +0000
Subject: [PATCH 66/78] fix: printing a container with a node named elements

---
 pyangbind/lib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/base.py b/pyangbind/lib/base.py
index e62b3bb..cfcb3fc 100644
--- a/pyangbind/lib/base.py
+++ b/pyangbind/lib/base.py
@@ -26,7 +26,7 @@ class PybindBase(object):
         return self._pyangbind_elements
 
     def __str__(self):
-        return str(self.elements())
+        return str(self._pyangbind_elements)
 
     def get(self, filter=False):
         def error():
-- 
2.43.0


From f7df01b0293fd025501506c302779b43deba3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 67/78] fix: nested containers of one Python name can be split
 into packages

---
 pyangbind/plugin/pybind.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 6a017cd..7332d15 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -721,6 +721,13 @@ def get_children_elements(
                     imports.append(ch.arg)
 
 
+def get_package_name(name, parent_name):
+    # The name of the package of a container or list when classes are split,
+    # which is not to be that of the class that it is imported by.
+    name, parent_name = safe_name(name), safe_name(parent_name)
+    return name + "_" if name == parent_name else name
+
+
 def get_class_name(ctx, element, module, path):
     # The name of the class that is generated for a container or list, which has
     # to be another one for each path: the separators of a path are not told from
@@ -759,13 +766,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             # Check that we don't have the problem of containers that are nested
             # with the same name
             for i in range(1, len(pparts)):
-                if i > 0 and pparts[i] == pparts[i - 1]:
-                    pname = safe_name(pparts[i]) + "_"
-                elif i == 1 and pparts[i] == module.arg:
-                    pname = safe_name(pparts[i]) + "_"
-                else:
-                    pname = safe_name(pparts[i])
-                npath += pname + "/"
+                npath += get_package_name(pparts[i], pparts[i - 1] if i > 1 else module.arg) + "/"
 
             bpath = ctx.pybind_split_basepath + npath
             if not os.path.exists(bpath):
@@ -822,10 +823,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     if ctx.opts.split_class_dir:
         if len(import_req):
             for im in import_req:
-                if im == parent.arg:
-                    im += "_"
                 # Relative import in PY2/PY3 compatible style
-                nfd.write("from . import {}\n".format(safe_name(im)))
+                nfd.write("from . import {}\n".format(get_package_name(im, parent.arg)))
 
     # 'container', 'module', 'list' and 'submodule' all have their own classes
     # generated.
@@ -1623,10 +1622,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 # If we were dealing with split classes, then rather than naming the
                 # class based on a unique intra-file name - and rather we must import
                 # the relative path to the module.class
-                if element.arg == parent.arg:
-                    modname = safe_name(element.arg) + "_"
-                else:
-                    modname = safe_name(element.arg)
+                modname = get_package_name(element.arg, parent.arg)
                 elemdict["type"] = "%s.%s" % (modname, safe_name(element.arg))
 
             else:
-- 
2.43.0


From 34e8a53f77b38c520fe13ecc918bdacbdfbdb9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 68/78] fix: text of the YANG module is written as literals
 that hold exactly that text

---
 pyangbind/plugin/pybind.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 7332d15..85091b6 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -721,6 +721,12 @@ def get_children_elements(
                     imports.append(ch.arg)
 
 
+def quote_docstring(text):
+    # The text as it is written into a documentation string that is delimited by
+    # three double quotes.
+    return text.replace("\\", "\\\\").replace('"', '\\"').replace("\r", "\\r")
+
+
 def get_package_name(name, parent_name):
     # The name of the package of a container or list when classes are split,
     # which is not to be that of the class that it is imported by.
@@ -852,7 +858,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         # code that is generated.
         parent_descr = parent.search_one("description")
         if parent_descr is not None:
-            parent_descr = "\n\n  YANG Description: %s" % parent_descr.arg
+            parent_descr = "\n\n  YANG Description: %s" % quote_docstring(parent_descr.arg)
         else:
             parent_descr = ""
 
@@ -898,7 +904,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             mod_location = next(v for k, v in ctx.modules.items() if k[0] == module.i_modulename)
         else:
             mod_location = module
-        nfd.write("  _yang_namespace = '%s'\n" % (mod_location.search("namespace")[0].arg))
+        nfd.write("  _yang_namespace = %s\n" % repr(mod_location.search("namespace")[0].arg))
 
         choices = {}
         choice_attrs = []
@@ -913,7 +919,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             # extension that were provided with the leaf, etc.).
             class_str = {}
             if "default" in i and not i["default"] is None:
-                default_arg = '"%s"' % (i["default"]) if i["quote_arg"] else "%s" % i["default"]
+                default_arg = repr(i["default"]) if i["quote_arg"] else "%s" % i["default"]
 
             if i["class"] == "leaf-list":
                 # Map a leaf-list to the type specified in the class map. This is a
@@ -970,7 +976,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 class_str["name"] = "__%s" % (i["name"])
                 class_str["type"] = "YANGDynClass"
                 class_str["arg"] = "base=%s" % i["type"]
-                class_str["arg"] += "(referenced_path='%s'" % i["referenced_path"]
+                class_str["arg"] += "(referenced_path=%s" % repr(i["referenced_path"])
                 class_str["arg"] += ", caller=self._path() + ['%s'], " % (i["yang_name"])
                 class_str["arg"] += "path_helper=self._path_helper, "
                 class_str["arg"] += "require_instance=%s)" % (i["require_instance"])
@@ -983,9 +989,9 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 class_str["name"] = "__%s" % (i["name"])
                 class_str["type"] = "YANGDynClass"
                 class_str["arg"] = "base=%s" % i["type"]["native_type"][0]
-                class_str["arg"] += "(allowed_type=%s(referenced_path='%s'," % (
+                class_str["arg"] += "(allowed_type=%s(referenced_path=%s," % (
                     i["type"]["native_type"][1]["native_type"],
-                    i["type"]["native_type"][1]["referenced_path"],
+                    repr(i["type"]["native_type"][1]["referenced_path"]),
                 )
                 class_str["arg"] += "caller=self._path() + ['%s'], " % i["yang_name"]
                 class_str["arg"] += "path_helper=self._path_helper, "
@@ -1029,7 +1035,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                     class_str["arg"] += ", extensions=%s" % i["extensions"]
                 if keyval and i["yang_name"] in keyval:
                     class_str["arg"] += ", is_keyval=True"
-                class_str["arg"] += ", namespace='%s'" % i["namespace"]
+                class_str["arg"] += ", namespace=%s" % repr(i["namespace"])
                 class_str["arg"] += ", defining_module='%s'" % i["defining_module"]
                 class_str["arg"] += ", yang_type='%s'" % i["origtype"]
                 class_str["arg"] += ", is_config=%s" % (i["config"] and parent_cfg)
@@ -1134,7 +1140,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             c_str = classes[i["name"]]
             description_str = ""
             if i["description"]:
-                description_str = "\n\n    YANG Description: %s" % i["description"]
+                description_str = "\n\n    YANG Description: %s" % quote_docstring(i["description"])
             nfd.write(
                 '''
   def _get_%s(self):
@@ -1185,7 +1191,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 """      raise ValueError({
           'error-string': \"\"\"%s must be of a type compatible with %s\"\"\",
           'defined-type': "%s",
-          'generated-type': \"\"\"%s(%s)\"\"\",
+          'generated-type': %s,
         })\n\n"""
                 % (
                     i["name"],
@@ -1195,8 +1201,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                         if ":" not in i["origtype"] and not i["origtype"] in YANG_BUILTIN_TYPES
                         else i["origtype"]
                     ),
-                    c_str["type"],
-                    c_str["arg"],
+                    repr("%s(%s)" % (c_str["type"], c_str["arg"])),
                 )
             )
             nfd.write("    self.__%s = t\n" % (i["name"]))
@@ -1378,9 +1383,9 @@ def build_elemtype(ctx, et, prefix=False):
                     # no member of a union (the last element of the caller's
                     # path is the node itself, from which paths start upwards).
                     elemtype_s[1]["native_type"] = (
-                        "ReferenceType(referenced_path='%s', caller=self._path() + [''], "
+                        "ReferenceType(referenced_path=%s, caller=self._path() + [''], "
                         "path_helper=self._path_helper, require_instance=%s)"
-                        % (elemtype_s[1]["referenced_path"], elemtype_s[1]["require_instance"])
+                        % (repr(elemtype_s[1]["referenced_path"]), elemtype_s[1]["require_instance"])
                     )
                 elemtype.append(elemtype_s)
             cls = "union"
-- 
2.43.0


From 84bff4df68d376aa88fea5c85e8836e40850644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:33 +0000
Subject: [PATCH 69/78] fix: octal defaults of integers are written as such

---
 pyangbind/plugin/pybind.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 85091b6..7d1888c 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -727,6 +727,14 @@ def quote_docstring(text):
     return text.replace("\\", "\\\\").replace('"', '\\"').replace("\r", "\\r")
 
 
+def number_literal(text):
+    # An integer of YANG that starts with a zero is octal.
+    sign, digits = (text[0], text[1:]) if text[:1] in ("+", "-") else ("", text)
+    if len(digits) > 1 and digits[0] == "0" and digits[1] != "x":
+        return "%s0o%s" % (sign, digits[1:])
+    return text
+
+
 def get_package_name(name, parent_name):
     # The name of the package of a container or list when classes are split,
     # which is not to be that of the class that it is imported by.
@@ -919,7 +927,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             # extension that were provided with the leaf, etc.).
             class_str = {}
             if "default" in i and not i["default"] is None:
-                default_arg = repr(i["default"]) if i["quote_arg"] else "%s" % i["default"]
+                default_arg = repr(i["default"]) if i["quote_arg"] else number_literal(i["default"])
 
             if i["class"] == "leaf-list":
                 # Map a leaf-list to the type specified in the class map. This is a
-- 
2.43.0


From cb8cce3e326b61912ad96d761af5208bd91942a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 70/78] fix: identities and typedefs are told apart by their
 module and scope

---
 pyangbind/helpers/identity.py |  41 +++++----
 pyangbind/helpers/misc.py     |  58 ++++++++----
 pyangbind/plugin/pybind.py    | 161 +++++++++-------------------------
 3 files changed, 105 insertions(+), 155 deletions(-)

diff --git a/pyangbind/helpers/identity.py b/pyangbind/helpers/identity.py
index e99b5b0..4194d64 100644
--- a/pyangbind/helpers/identity.py
+++ b/pyangbind/helpers/identity.py
@@ -17,9 +17,21 @@ limitations under the License.
 """
 
 from pyang import util
+from .misc import main_module_name
 from .misc import module_import_prefixes
 
 
+def base_identity_name(ctx, base):
+    # The module and the name of the identity that a base statement refers to.
+    # The prefix is one of those of the module or submodule that it is written in.
+    module = base.i_orig_module
+    name = base.arg
+    if ":" in name:
+        prefix, name = name.split(":")
+        module = util.prefix_to_module(module, prefix, base.pos, ctx.errors)
+    return main_module_name(module), name
+
+
 class Identity(object):
     def __init__(self, name):
         self.name = name
@@ -99,29 +111,20 @@ class IdentityStore(object):
             base_ids = []
             bases = iddef.search("base")
             for base in bases:
-                # Determine what the name of the base and the prefix for
-                # the base should be
-                if ":" in base.arg:
-                    base_pfx, base_name = base.arg.split(":")
-                else:
-                    base_pfx, base_name = prefix, base.arg
-
-                parent_module = util.prefix_to_module(defmod, base_pfx, base.pos, ctx.errors)
+                parent_module, base_name = base_identity_name(ctx, base)
 
                 # Find whether we have the base in the store
-                base_id = self.find_identity_by_source_name(parent_module.arg, base_name)
+                base_id = self.find_identity_by_source_name(parent_module, base_name)
 
                 if base_id is None:
-                    # and if not, then push this identity back onto the stack
-                    unresolved_identities.append(this_id)
+                    # and if not, then push this identity back onto the stack, unless
+                    # it has been considered after all of the others already
                     unresolved_identity_count[this_id] += 1
+                    if unresolved_identity_count[this_id] > len(defnd):
+                        error_ids.append(this_id)
+                    else:
+                        unresolved_identities.append(this_id)
                     break
-                    # FIXME(Joey Wilhelm): `unresolved_idc` and `ident` are both undefined. What is the intent of this code?
-                    # if unresolved_identity_count[this_id] > 1000:
-                    #   if unresolved_idc[ident] > 1000:
-                    #     sys.stderr.write("could not find a match for %s base: %s\n" %
-                    #       (iddef.arg, base_name))
-                    #     error_ids.append(ident)
 
                 base_ids.append(base_id)
 
@@ -140,8 +143,8 @@ class IdentityStore(object):
                     for i in mod_ref_prefixes[defining_module]:
                         tid.add_prefix(i)
 
-            if error_ids:
-                raise TypeError("could not resolve identities %s" % error_ids)
+        if error_ids:
+            raise TypeError("could not resolve identities %s" % error_ids)
 
         self._build_inheritance()
 
diff --git a/pyangbind/helpers/misc.py b/pyangbind/helpers/misc.py
index c4d2619..992206a 100644
--- a/pyangbind/helpers/misc.py
+++ b/pyangbind/helpers/misc.py
@@ -17,9 +17,6 @@ See the License for the specific language governing permissions and
 limitations under the License.
 """
 
-import sys
-
-
 def module_import_prefixes(ctx):
     mod_ref_prefixes = {}
     for mod in ctx.modules:
@@ -28,30 +25,55 @@ def module_import_prefixes(ctx):
             if importstmt.arg not in mod_ref_prefixes:
                 mod_ref_prefixes[importstmt.arg] = []
             mod_ref_prefixes[importstmt.arg].append(importstmt.search_one("prefix").arg)
+        belongs_to = m.search_one("belongs-to")
+        if belongs_to is not None:
+            # the prefix by which a submodule refers to its module
+            mod_ref_prefixes.setdefault(belongs_to.arg, []).append(belongs_to.search_one("prefix").arg)
     return mod_ref_prefixes
 
 
-def find_child_definitions(obj, defn, prefix, definitions):
-    for i in obj.search(defn):
-        if i.arg in definitions:
-            sys.stderr.write("WARNING: duplicate definition of %s" % i.arg)
-        else:
-            definitions["%s:%s" % (prefix, i.arg)] = i
+def main_module_name(module):
+    # The name of the module that a module or submodule is part of.
+    belongs_to = module.search_one("belongs-to")
+    return module.arg if belongs_to is None else belongs_to.arg
+
 
-    possible_parents = ["grouping", "container", "list", "rpc", "input", "output", "notification"]
+def definition_name(stmt):
+    # A name that tells a definition apart from all others. Prefixes differ from
+    # one module to the other, thus that of the module is used, and definitions
+    # within different nodes can have the same name, hence these are included.
+    path = [stmt.arg]
+    parent = stmt.parent
+    while parent.parent is not None:
+        path.insert(0, "%s %s" % (parent.keyword, parent.arg))
+        parent = parent.parent
+    return "%s:%s" % (main_module_name(parent), "/".join(path))
 
-    for parent_type in possible_parents:
-        for ch in obj.search(parent_type):
-            if ch.i_children:
-                find_child_definitions(ch, defn, prefix, definitions)
+
+def find_child_definitions(obj, defn, definitions):
+    for ch in obj.substmts:
+        if ch.keyword == defn:
+            definitions[definition_name(ch)] = ch
+        else:
+            find_child_definitions(ch, defn, definitions)
 
     return definitions
 
 
-def find_definitions(defn, ctx, module, prefix):
+def find_definitions(defn, ctx, module):
     # Find the statements within a module that map to a particular type of
     # statement, for instance - find typedefs, or identities, and reutrn them
     # as a dictionary to the calling function.
-    definitions = {}
-    defin = find_child_definitions(module, defn, prefix, definitions)
-    return defin
+    return find_child_definitions(module, defn, {})
+
+
+def included_submodules(ctx, module):
+    # The submodules of a module, with those that these include themselves.
+    found = []
+    pending = module.search("include")
+    while pending:
+        submodule = ctx.get_module(pending.pop(0).arg)
+        if submodule is not None and submodule not in found:
+            found.append(submodule)
+            pending.extend(submodule.search("include"))
+    return found
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 7d1888c..f26d51b 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -30,10 +30,10 @@ import os
 import sys
 from collections import OrderedDict
 
-from pyang import plugin, statements, util
+from pyang import plugin, statements
 
 import pyangbind.helpers.misc as misc_help
-from pyangbind.helpers.identity import IdentityStore
+from pyangbind.helpers.identity import IdentityStore, base_identity_name
 from pyangbind.lib.yangtypes import RestrictedClassType, YANGBool, safe_name, YANGBinary, YANGBitsType
 
 long = int
@@ -181,6 +181,10 @@ class_map = {
     },
 }
 
+# The values of the identityrefs that refer to an identity, which is given by its
+# module and name. Identities have names of their own, which are not those of types.
+identity_map = {}
+
 # We have a set of types which support "range" statements in RFC6020. This
 # list determins types that should be allowed to have a "range" argument.
 INT_RANGE_TYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
@@ -343,44 +347,23 @@ long = int
         if not os.path.exists(ctx.pybind_split_basepath):
             os.makedirs(ctx.pybind_split_basepath)
 
-    # Determine all modules, and submodules that are needed, along with the
-    # prefix that is used for it. We need to ensure that we understand all of the
-    # prefixes that might be used to reference an identity or a typedef.
+    # Determine all modules, and submodules that are needed.
     all_mods = []
     for module in modules:
-        local_module_prefix = module.search_one("prefix")
-        if local_module_prefix is None:
-            local_module_prefix = module.search_one("belongs-to").search_one("prefix")
-            if local_module_prefix is None:
-                raise AttributeError("A module (%s) must have a prefix or parent " + "module")
-            local_module_prefix = local_module_prefix.arg
-        else:
-            local_module_prefix = local_module_prefix.arg
-        mods = [(local_module_prefix, module)]
-
-        imported_modules = module.search("import")
-
         # 'include' statements specify the submodules of the existing module -
         # that also need to be parsed.
-        for i in module.search("include"):
-            subm = ctx.get_module(i.arg)
-            if subm is not None:
-                mods.append((local_module_prefix, subm))
-                # Handle the case that imports are within a submodule
-                if subm.search("import") is not None:
-                    imported_modules.extend(subm.search("import"))
+        mods = [module] + misc_help.included_submodules(ctx, module)
 
         # 'import' statements specify the other modules that this module will
-        # reference.
-        for j in imported_modules:
-            mod = ctx.get_module(j.arg)
-            if mod is not None:
-                imported_module_prefix = j.search_one("prefix").arg
-                mods.append((imported_module_prefix, mod))
-                modules.append(mod)
+        # reference, they can also be within a submodule.
+        for m in mods:
+            for j in m.search("import"):
+                mod = ctx.get_module(j.arg)
+                if mod is not None and mod not in modules:
+                    modules.append(mod)
         all_mods.extend(mods)
 
-    # remove duplicates from the list (same module and prefix)
+    # remove duplicates from the list
     new_all_mods = []
     for mod in all_mods:
         if mod not in new_all_mods:
@@ -393,13 +376,13 @@ long = int
     for defnt in ["typedef", "identity"]:
         defn[defnt] = OrderedDict()
         for m in all_mods:
-            t = misc_help.find_definitions(defnt, ctx, m[1], m[0])
+            t = misc_help.find_definitions(defnt, ctx, m)
             for k in t:
                 if k not in defn[defnt]:
                     defn[defnt][k] = t[k]
 
-    # Build the identities and typedefs (these are added to the class_map which
-    # is globally referenced).
+    # Build the identities and typedefs (these are added to the identity_map and
+    # the class_map which are globally referenced).
     build_identities(ctx, defn["identity"])
     build_typedefs(ctx, defn["typedef"])
 
@@ -447,40 +430,15 @@ def build_identities(ctx, defnd):
     idstore = IdentityStore()
     idstore.build_store_from_definitions(ctx, defnd)
 
-    identity_dict = {}
-    for identity in idstore:
-        for prefix in identity.prefixes():
-            ident = "%s:%s" % (prefix, identity.name)
-            identity_dict[ident] = {}
-            identity_dict["%s" % identity.name] = {}
-            for ch in identity.children:
-                d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
-                for cpfx in ch.prefixes() + [None]:
-                    if cpfx is not None:
-                        spfx = "%s:" % cpfx
-                    else:
-                        spfx = ""
-                    identity_dict[ident][ch.name] = d
-                    identity_dict[identity.name][ch.name] = d
-                    identity_dict[ident]["%s%s" % (spfx, ch.name)] = d
-                    identity_dict[identity.name]["%s%s" % (spfx, ch.name)] = d
-
-        if identity.name not in identity_dict:
-            identity_dict[identity.name] = {}
-
-    # Add entries to the class_map such that this identity can be referenced by
+    # Add entries to the identity_map such that this identity can be referenced by
     # elements that use this identity ref.
-    for i in identity_dict:
-        id_type = {
-            "native_type": """RestrictedClassType(base_type=str, """
-            + """restriction_type="dict_key", """
-            + """restriction_arg=%s,)""" % identity_dict[i],
-            "restriction_argument": identity_dict[i],
-            "restriction_type": "dict_key",
-            "parent_type": "string",
-            "base_type": False,
-        }
-        class_map[i] = id_type
+    for identity in idstore:
+        identity_map[(identity.source_module, identity.name)] = values = {}
+        for ch in identity.children:
+            d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
+            values[ch.name] = d
+            for prefix in ch.prefixes():
+                values["%s:%s" % (prefix, ch.name)] = d
 
 
 def build_typedefs(ctx, defnd):
@@ -497,7 +455,6 @@ def build_typedefs(ctx, defnd):
     known_types.append("enumeration")
     known_types.append("leafref")
     known_types.append("bits")
-    base_types = copy.deepcopy(known_types)
     process_typedefs_ordered = []
 
     while len(unresolved_t):
@@ -521,34 +478,10 @@ def build_typedefs(ctx, defnd):
 
         any_unknown = False
         for i in subtypes:
-            # Resolve this typedef to the module that it
-            # was defined by
-
-            if ":" in i.arg:
-                defining_module = util.prefix_to_module(
-                    defnd[t].i_module, i.arg.split(":")[0], defnd[t].pos, ctx.errors
-                )
-            else:
-                defining_module = defnd[t].i_module
-
-            belongs_to = defining_module.search_one("belongs-to")
-            if belongs_to is not None:
-                for mod in ctx.modules:
-                    if mod[0] == belongs_to.arg:
-                        defining_module = ctx.modules[mod]
-
-            real_pfx = defining_module.search_one("prefix").arg
-
-            if ":" in i.arg:
-                tn = "%s:%s" % (real_pfx, i.arg.split(":")[1])
-            elif i.arg not in base_types:
-                # If this was not a base type (defined in YANG) then resolve it
-                # to the module it belongs to.
-                tn = "%s:%s" % (real_pfx, i.arg)
-            else:
-                tn = i.arg
-
-            if tn not in known_types:
+            if i.keyword == "base":
+                if base_identity_name(ctx, i) not in identity_map:
+                    any_unknown = True
+            elif resolve_type_name(ctx, i) not in known_types:
                 any_unknown = True
 
         if not any_unknown:
@@ -661,9 +594,6 @@ def build_typedefs(ctx, defnd):
                 class_map[type_name]["default"] = default[0]
                 class_map[type_name]["quote_default"] = default[1]
 
-        class_map[type_name.split(":")[1]] = class_map[type_name]
-
-
 def get_children_elements(
     ctx,
     fd,
@@ -1266,22 +1196,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
 def resolve_type_name(ctx, et):
     # Find the name of the entry of class_map that holds the type which the
     # type statement et refers to. Typedefs of the same name can be defined by
-    # several modules, the one that is meant is that of the module which the
-    # prefix stands for where et is written, or without prefix that module's own.
-    module = et.i_orig_module
-    name = et.arg
-    if ":" in name:
-        prefix, name = name.split(":", 1)
-        module = util.prefix_to_module(module, prefix, et.pos, ctx.errors)
-        if module is None:
-            return et.arg
-    belongs_to = module.search_one("belongs-to")
-    if belongs_to is not None:
-        for mod in ctx.modules:
-            if mod[0] == belongs_to.arg:
-                module = ctx.modules[mod]
-    type_name = "%s:%s" % (module.search_one("prefix").arg, name)
-    return type_name if type_name in class_map else et.arg
+    # several modules, and by several nodes of a module.
+    return et.arg if et.i_typedef is None else misc_help.definition_name(et.i_typedef)
 
 
 def build_elemtype(ctx, et, prefix=False):
@@ -1427,14 +1343,23 @@ def build_elemtype(ctx, et, prefix=False):
             if base_stmt is None:
                 raise ValueError("identityref specified with no base statement")
             try:
-                elemtype = class_map[base_stmt.arg]
+                values = identity_map[base_identity_name(ctx, base_stmt)]
             except KeyError:
                 sys.stderr.write("FATAL: identityref with an unknown base\n")
                 if DEBUG:
-                    pp.pprint(class_map.keys())
+                    pp.pprint(identity_map.keys())
                     pp.pprint(et.arg)
                     pp.pprint(base_stmt.arg)
                 sys.exit(127)
+            elemtype = {
+                "native_type": """RestrictedClassType(base_type=str, """
+                + """restriction_type="dict_key", """
+                + """restriction_arg=%s,)""" % values,
+                "restriction_argument": values,
+                "restriction_type": "dict_key",
+                "parent_type": "string",
+                "base_type": False,
+            }
         elif et.arg == "bits":
             allowed_bits = {}
             for bit in et.search("bit"):
-- 
2.43.0


From af3e2e63fd6400ad95ad803497c485cd900af3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 71/78] fix: what a leaf-list gives out is a copy, and
 filtering does not change what it iterates over

---
 pyangbind/lib/base.py      | 4 ++--
 pyangbind/lib/yangtypes.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/base.py b/pyangbind/lib/base.py
index cfcb3fc..dd9f449 100644
--- a/pyangbind/lib/base.py
+++ b/pyangbind/lib/base.py
@@ -52,7 +52,7 @@ class PybindBase(object):
                     # filtering unchanged elements, remove it
                     # from the dictionary
                     if isinstance(d[element_id], dict):
-                        for entry in d[element_id].keys():
+                        for entry in list(d[element_id]):
                             changed, present = False, False
 
                             if hasattr(d[element_id][entry], "_changed"):
@@ -76,7 +76,7 @@ class PybindBase(object):
                             else:
                                 del d[element_id]
                     elif isinstance(d[element_id], list):
-                        for list_entry in d[element_id]:
+                        for list_entry in list(d[element_id]):
                             if hasattr(list_entry, "_changed"):
                                 if not list_entry._changed():
                                     d[element_id].remove(list_entry)
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index c79d3b7..026e70f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -576,7 +576,7 @@ def TypedListType(*args, **kwargs):
             return False
 
         def get(self, filter=False):
-            return self._list
+            return list(self._list)
 
     return type(TypedList(*args, **kwargs))
 
-- 
2.43.0


From 374014afcf34912b5c15d1fb7d57551f4fd31bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 72/78] fix: a leafref only takes what its target holds, and
 does not write to the entries of lists

---
 pyangbind/lib/yangtypes.py | 58 +++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 026e70f..7949e29 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1358,12 +1358,18 @@ def ReferenceType(*args, **kwargs):
 
                 # if the lookup returns only one leaf, then this means that we have
                 # something that could potentially be a pointer. However, this is not
-                # sufficient to tell whether it is (it could be a single list entry)
-                # - thus perform two additional checks. 1) check whether this is the
-                # key value of a list (if it is then this is something that can be
-                # externally referenced) and 2) check that this is not
-                # a list itself (including a leaf-list)
-                if len(path_chk) == 1 and not path_chk[0]._is_keyval and not is_yang_list(path_chk[0]):
+                # sufficient to tell whether it is (it could be within a single list
+                # entry) - thus perform three additional checks. 1) check whether this
+                # is the key value of a list (if it is then this is something that can
+                # be externally referenced), 2) check that this is not a list itself
+                # (including a leaf-list), and 3) check that it is not within a list
+                # entry that this reference is outside of.
+                if (
+                    len(path_chk) == 1
+                    and not path_chk[0]._is_keyval
+                    and not is_yang_list(path_chk[0])
+                    and self._is_unique_node(path_chk[0])
+                ):
                     # we are not checking whether this leaf exists, but rather
                     # this is a pointer to some other value.
                     path_parts = self._referenced_path.split("/")
@@ -1387,22 +1393,11 @@ def ReferenceType(*args, **kwargs):
                         self._referenced_object = None
                     else:
                         found = False
-                        path_chk = self._path_helper.get(self._referenced_path, caller=self._caller)
-
-                        if len(path_chk) == 1 and is_yang_leaflist(path_chk[0]):
-                            index = 0
-                            for i in path_chk[0]:
-                                if str(i) == str(value):
-                                    found = True
-                                    self._referenced_object = path_chk[0][index]
-                                    break
-                                index += 1
-                        else:
-                            found = False
-                            for i in path_chk:
-                                if str(i) == str(value):
-                                    found = True
-                                    self._referenced_object = i
+                        for i in self._instances(path_chk):
+                            if str(i) == str(value):
+                                found = True
+                                self._referenced_object = i
+                                break
 
                         if not found:
                             raise ValueError(
@@ -1416,6 +1411,25 @@ def ReferenceType(*args, **kwargs):
                 # No path helper and a value is set, just act like the referenced type
                 self._referenced_object = value
 
+        def _is_unique_node(self, node):
+            # whether the list entries that the node is within are those that
+            # the reference itself is within
+            path = node._path()
+            shared = max([i + 1 for i, part in enumerate(path) if "[" in part] or [0])
+            return path[:shared] == (self._caller or [])[:shared]
+
+        def _instances(self, nodes):
+            # the values that exist at the nodes - each of those of a leaf-list,
+            # and that of a leaf where it is set, or has a default
+            for node in nodes:
+                if is_yang_leaflist(node):
+                    for i in node:
+                        yield i
+                elif node._changed():
+                    yield node
+                elif node._default is not False:
+                    yield node._default
+
         def _get_ptr(self):
             if self._ptr:
                 ptr = self._path_helper.get(self._referenced_path, caller=self._caller)
-- 
2.43.0


From 2436bd94f665e8893672ee535ebb0ba543fa2d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:17 +0000
Subject: [PATCH 73/78] fix: appending an entry with several keys does not
 strip spaces from the last one

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 7949e29..502653f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -861,7 +861,7 @@ def YANGListType(*args, **kwargs):
                     if kv is None:
                         raise KeyError("Invalid key attribute specified for object")
                     ks += "%s " % str(kv())
-                return ks.rstrip(" ")
+                return ks[:-1]
             else:
                 kv = getattr(obj, "_get_%s" % safe_name(self._keyval), None)
                 if kv is None:
-- 
2.43.0


From 392bf33d4b2453dd2a690f9c343a206a4e3df3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:01 +0000
Subject: [PATCH 74/78] fix: IETF JSON and XML write decimal64 values with an
 exponent

---
 pyangbind/lib/serialise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 98f740a..0a8e6d8 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -264,7 +264,8 @@ class IETFYangDataSerialiser(YangDataSerialiser):
         return [self.yangt_identityref(i, module) if identity_of(i) is not None else self.default(i) for i in obj]
 
     def yangt_decimal(self, obj):
-        return str(obj)
+        # the lexical form of a decimal64 has no exponent
+        return "{:f}".format(obj)
 
     def yangt_empty(self, obj):
         return [None] if obj else False
-- 
2.43.0


From bf869331338b358def1bb2c369a91b8707b54840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 75/78] fix: an empty default of a typedef that is a union is
 lost

---
 pyangbind/plugin/pybind.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index f26d51b..fc27412 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -560,7 +560,7 @@ def build_typedefs(ctx, defnd):
             # function.
             native_type = []
             parent_type = []
-            default = False if default_stmt is None else default_stmt.arg
+            default = None if default_stmt is None else default_stmt.arg
             for i in elemtype:
                 if isinstance(i[1]["native_type"], list):
                     native_type.extend(i[1]["native_type"])
@@ -576,7 +576,7 @@ def build_typedefs(ctx, defnd):
                     msg += " supported (%s in %s)" % (i[1]["yang_type"], item.arg)
                     raise TypeError(msg)
 
-                if "default" in i[1] and not default:
+                if "default" in i[1] and default is None:
                     # When multiple 'default' values are specified within a union that
                     # is within a typedef, then pyangbind will choose the first one.
                     q = True if "quote_arg" in i[1] else False
@@ -587,7 +587,7 @@ def build_typedefs(ctx, defnd):
                 "parent_type": parent_type,
                 "union_members": elemtype,
             }
-            if default:
+            if default is not None:
                 if not isinstance(default, tuple):
                     q = True if "quote_arg" in i[1] else False
                     default = (default, q)
-- 
2.43.0


From daea2dabf54aab3844c189488319a7b0fedb4b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:52 +0000
Subject: [PATCH 76/78] fix: enumerations refuse the names of theirs that begin
 with @

---
 pyangbind/lib/yangtypes.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 502653f..233edb5 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -395,9 +395,6 @@ def RestrictedClassType(*args, **kwargs):
                     self._restriction_tests.append(in_range_check(lengths, length=True))
                 elif rtype == "dict_key":
                     new_rarg = copy.deepcopy(rarg)
-                    for k in rarg:
-                        if k.startswith("@"):
-                            new_rarg.pop(k, None)
                     # populate enum values
                     used_values = []
                     for k in new_rarg:
-- 
2.43.0


From fe5345f45cfbb56921fbbd8f2173c638910fd391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 77/78] fix: enumeration members without a value are given
 values that others have, or that are not the next

---
 pyangbind/lib/yangtypes.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 233edb5..f79d8a7 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -395,18 +395,14 @@ def RestrictedClassType(*args, **kwargs):
                     self._restriction_tests.append(in_range_check(lengths, length=True))
                 elif rtype == "dict_key":
                     new_rarg = copy.deepcopy(rarg)
-                    # populate enum values
-                    used_values = []
-                    for k in new_rarg:
-                        if "value" in new_rarg[k]:
-                            used_values.append(int(new_rarg[k]["value"]))
-                    c = 0
-                    for k in new_rarg:
-                        while c in used_values:
-                            c += 1
+                    # populate enum values, one without a value is given the one
+                    # after the highest so far
+                    highest = -1
+                    for n, k in enumerate(new_rarg):
                         if "value" not in new_rarg[k]:
-                            new_rarg[k]["value"] = c
-                        c += 1
+                            new_rarg[k]["value"] = highest + 1
+                        value = int(new_rarg[k]["value"])
+                        highest = max(highest, value) if n else value
                     self._restriction_tests.append(in_dictionary_check(new_rarg))
                     self._enumeration_dict = new_rarg
                 else:
-- 
2.43.0


From d7ae5f6cc9877c7e89494d645238e97b46d6d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:15 +0000
Subject: [PATCH 78/78] fix: assigning a list or a container that holds lists
 takes over the entries

---
 pyangbind/lib/yangtypes.py | 58 +++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index f79d8a7..3420dea 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -621,6 +621,37 @@ def YANGListType(*args, **kwargs):
             self._path_helper = path_helper
             self._yang_keys = yang_keys
 
+            if len(args):
+                self.__take(args[0])
+
+        def __take(self, other):
+            # copy the entries of another list, the ones that this list is to
+            # replace are unregistered once it is known that these fit
+            if not getattr(other, "_pybind_generated_by", None) == "YANGListType":
+                raise ValueError("value must be a list")
+            for entry in other.values():
+                YANGDynClass(
+                    entry,
+                    base=self._contained_class,
+                    parent=None,
+                    yang_name=yang_name,
+                    is_container="container",
+                    path_helper=False,
+                    register_path=[],
+                )
+            entries = list(other.items())
+            if self._path_helper and self._register_paths and self._path_helper.get(self._register_path()):
+                self._path_helper.unregister(self._register_path())
+            for k, entry in entries:
+                if self._keyval:
+                    keys = {kn: getattr(entry, "_get_%s" % kn)() for kn in self._keyval.split(" ")}
+                    try:
+                        self.__set(_v=entry, _python_key=k, _named_set=True, **keys)
+                    except KeyError as m:
+                        raise ValueError(m)
+                else:
+                    self.__set(_k=k, _v=entry)
+
         def __str__(self):
             return str(self._members)
 
@@ -630,24 +661,8 @@ def YANGListType(*args, **kwargs):
         def __check__(self, v):
             if self._contained_class is None:
                 return False
-            try:
-                tmp = YANGDynClass(
-                    base=self._contained_class,
-                    parent=parent,
-                    yang_name=yang_name,
-                    is_container=is_container,
-                    path_helper=False,
-                )
-                valid = False
-                if not tmp.__slots__ == v.__slots__:
-                    valid = True
-                elif self._contained_class.__slots__ == v.__slots__:
-                    valid = True
-                if valid is False:
-                    return valid
-            except Exception:
-                return False
-            return True
+            # a class of a list entry, or an entry that is in a list
+            return hasattr(v, "__slots__")
 
         def iteritems(self):
             return self._members.items()
@@ -788,6 +803,7 @@ def YANGListType(*args, **kwargs):
                     raise KeyError("key value %s must be valid, %s" % (self._keyval, m))
             else:
                 self._members[k] = YANGDynClass(
+                    *([] if v is None else [v]),
                     base=self._contained_class,
                     parent=parent,
                     yang_name=yang_name,
@@ -926,7 +942,7 @@ def YANGListType(*args, **kwargs):
                     d[i] = self._members[i]
             return d
 
-    return type(YANGList(*args, **kwargs))
+    return YANGList
 
 
 class YANGBool(int):
@@ -1157,7 +1173,7 @@ def YANGDynClass(*args, **kwargs):
             # are actually created in the tree. A new list has none, so that
             # those of a list that it replaces are removed.
             if self._is_container == "list":
-                if self._path_helper and self._register_paths and self._path_helper.get(self._register_path()):
+                if not len(args) and self._path_helper and self._register_paths and self._path_helper.get(self._register_path()):
                     self._path_helper.unregister(self._register_path())
             elif self._is_container != "container":
                 self._register()
@@ -1172,6 +1188,8 @@ def YANGDynClass(*args, **kwargs):
                         self._path_helper.register(self._supplied_register_path, self)
 
         def _changed(self):
+            if self._is_container == "list" and len(self):
+                return True
             return self._mchanged
 
         def _extensions(self):
-- 
2.43.0

