From 7ae09b17c2d951effe6ad6a2399f5a4f2ca3ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 001/126] fix: physical arrays compose unit-conversion scales
 and transpose scaled data

---
 src/eprempy/physical/_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 5df9419..d3b1f1b 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -88,7 +88,7 @@ class Array(Tensor[real.Array[real.ValueType]]):
         """Transpose this array."""
         if not args:
             return self
-        data = self._data_interface.transpose(*args)
+        data = self.data.transpose(*args)
         axes = self.axes.permute(*args)
         return self.spawn(data, unit=self.unit, axes=axes)
 
@@ -153,7 +153,7 @@ def converter(c: metric.Conversion, x: Array) -> Array:
     if c.old == c.new:
         return x
     new = x.spawn(x._data_interface, unit=c.new, axes=x.axes)
-    new._scale = float(c)
+    new._scale = x._scale * float(c)
     return new
 
 
-- 
2.43.0


From 3e1fad1158be5921d402b879cff3a913d4a4239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 002/126] fix: numpy functions see each array argument's own
 data

---
 src/eprempy/numeric/_array.py | 2 +-
 src/eprempy/real/_array.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index df2e126..67dca9e 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -628,7 +628,7 @@ class Array(Quantity[DataType], Operators):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 849daae..ea4f4bd 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -52,7 +52,7 @@ class Array(numeric.Array[T], base.abc.Real):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
-- 
2.43.0


From 11964056d83559cc1f0a386ae1fd783406156a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 003/126] fix: subscripting with mixed list/slice selectors
 honors slice bounds and steps

---
 src/eprempy/numeric/_array.py | 2 +-
 src/eprempy/numeric/_index.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 67dca9e..07b3371 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -396,7 +396,7 @@ class Array(Quantity[DataType], Operators):
         if isinstance(v, int):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(*v.indices(self.shape[i])))
         return self.shape[i]
 
     def __str__(self) -> str:
diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index e3e8d38..ac81402 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -622,7 +622,7 @@ def normalize(shape: typing.Sequence[int], args):
     indices = []
     for i, arg in enumerate(expanded):
         if isinstance(arg, slice):
-            indices.append(range(shape[i]))
+            indices.append(range(*arg.indices(shape[i])))
         elif isintegral(arg):
             indices.append((arg,))
         else:
-- 
2.43.0


From f94bb7697508329e7d7d44ad855401e398c36b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 004/126] fix: parse rational coefficients and exponents with
 multi-digit denominators exactly

---
 src/eprempy/symbolic/_operand.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index bd503c2..ead95de 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -128,7 +128,7 @@ class OperandFactory(_part.Factory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -455,7 +455,7 @@ class OperandFactory(_part.Factory):
         standard = self.standardize(**match.groupdict(), fill=True)
         coefficient = standard['coefficient'] ** standard['exponent']
         return _part.Match(
-            result=term_factory(coefficient=float(coefficient)),
+            result=term_factory(coefficient=coefficient),
             context=match,
         )
 
@@ -649,7 +649,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From a560735db40af8a0f65d914b7043b2824f962883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 005/126] fix: equal symbolic terms have equal hashes

---
 src/eprempy/symbolic/_operand.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index ead95de..53d54c3 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -779,7 +779,10 @@ class Term(Operand):
         # to explicitly define `Term.__hash__`. See
         # https://docs.python.org/3/reference/datamodel.html#object.__hash__ for
         # an explanation.
-        return hash(self.attrs)
+        # NOTE: Equality compares floating-point values (cf. `Operand.__eq__`).
+        return hash(
+            (float(self.coefficient), self.base, float(self.exponent))
+        )
 
 
 @typing.overload
-- 
2.43.0


From f3ae84fd6826ad127b6f1109f61db83e81f89294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 006/126] fix: a zero exponent or coefficient is not replaced
 by one

---
 src/eprempy/symbolic/_expression.py |  2 --
 src/eprempy/symbolic/_operand.py    | 19 +++++++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 9a08891..0fe11cf 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -218,8 +218,6 @@ class Expression(collections.abc.Sequence):
         base. It will first attempt to convert `exp` to a float.
         """
         exp = float(exp)
-        if not exp:
-            return NotImplemented
         terms = [pow(term, exp) for term in self]
         return expression_factory(reduce(terms))
 
diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 53d54c3..0e9a9a9 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -68,11 +68,15 @@ class Operand(_part.Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(
+            1 if exponent is None else exponent
+        )
         """The numerical exponent."""
 
     @property
@@ -82,6 +86,8 @@ class Operand(_part.Part):
 
     def __pow__(self, power):
         """Create a new operand, raised to `power`."""
+        if power == 0:
+            return type(self)()
         coefficient = self.coefficient ** power
         exponent = self.exponent * power
         return type(self)(coefficient, self.base, exponent)
@@ -580,13 +586,14 @@ class OperandFactory(_part.Factory):
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
         return {
-            key: attr['callable'](given.get(key) or default[key])
-            for key, attr in updatable.items()
+            key: attr['callable'](
+                default[key] if given.get(key) is None else given[key]
+            ) for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -596,7 +603,7 @@ class OperandFactory(_part.Factory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
-- 
2.43.0


From 7ef30f5c175a26d50f9873bfc2a0f6d8b1a5ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 007/126] fix: accept the unit symbols with Greek letters that
 the unit table defines

---
 src/eprempy/symbolic/_operand.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 0e9a9a9..6285c28 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -141,7 +141,7 @@ class OperandFactory(_part.Factory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
@@ -663,7 +663,7 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
-- 
2.43.0


From 6e417068a62de3e83c1cb07931305a6a83463288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 008/126] fix: a unit may be created from a full name that
 contains spaces

---
 src/eprempy/metric/_units.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 60c6fd5..5694d05 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -407,8 +407,13 @@ def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
     if available := _units.get(string):
         # If the argument maps to an existing unit, return that unit.
         return available
-    # First time through: create a symbolic expression from `arg`.
-    expression = symbolic.expression(arg)
+    # First time through: create a symbolic expression from `arg`. The full name
+    # of a unit may contain spaces, so it is not always a valid expression.
+    named = _reference.NAMED_UNITS.get(string)
+    expression = symbolic.expression(
+        named['prefix']['symbol'] + named['base']['symbol'] if named
+        else arg
+    )
     # The canonical string representation of this unit is the expression
     # string of its unit symbols. For example, both 'm / s' and 'meter /
     # second' should map to 'm / s'.
-- 
2.43.0


From 03e66d6ec3ddbfe0016e872235ba3db1965cff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 009/126] fix: refuse a numerical coefficient in a metric unit
 instead of dropping it

---
 src/eprempy/metric/_units.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 5694d05..9180f57 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -483,6 +483,10 @@ def normalize(
 
 def _as_symbol(unit: symbolic.Term):
     """Represent `unit` in terms of its symbol."""
+    if unit.coefficient != 1:
+        raise ValueError(
+            f"A metric unit cannot have a numerical coefficient ({unit})"
+        ) from None
     this = _reference.NAMED_UNITS[unit.base]
     prefix = this['prefix']['symbol']
     base = this['base']['symbol']
-- 
2.43.0


From 92bbbffbb81d8edb34bde11db522a464a350488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 010/126] fix: broadcast singular dimensions when meshing
 arrays

---
 src/eprempy/numeric/_array.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 07b3371..934ad46 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -799,8 +799,16 @@ def remesh(a: Array, b: Array):
         for d in dimensions
     )
     idxmesh = numpy.ix_(*[range(i) for i in shape])
-    idxa = tuple(idxmesh[dimensions.index(d)] for d in a.shapemap)
-    idxb = tuple(idxmesh[dimensions.index(d)] for d in b.shapemap)
+    # NOTE: A singular dimension always contributes its only element.
+    first = numpy.zeros([1] * ndim, dtype=int)
+    idxa = tuple(
+        idxmesh[dimensions.index(d)] if n > 1 else first
+        for d, n in a.shapemap.items()
+    )
+    idxb = tuple(
+        idxmesh[dimensions.index(d)] if n > 1 else first
+        for d, n in b.shapemap.items()
+    )
     x = numpy.array(a, ndmin=ndim) if a.size == 1 else a._load_array(idxa)
     y = numpy.array(b, ndmin=ndim) if b.size == 1 else b._load_array(idxb)
     return x, y
-- 
2.43.0


From 272c49a33e7041cc96d17fa2aec4854595bc0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 011/126] fix: a list of indices may be the only selector of a
 one-dimensional array

---
 src/eprempy/numeric/_array.py |  4 ++++
 src/eprempy/numeric/_index.py | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 934ad46..df84f07 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -377,6 +377,10 @@ class Array(Quantity[DataType], Operators):
         the subscription logic from the return-type logic.
         """
         unwrapped = container.unwrap(args)
+        if self.ndim == 1 and _index.isselection(args):
+            # The only selector of a one-dimensional array is a sequence of
+            # indices, not a sequence of selectors.
+            unwrapped = [args[0]]
         indices = _index.resolve(self.shape, unwrapped)
         loaded = self._load_array(indices)
         array = numpy.array(loaded, ndmin=self.ndim)
diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index ac81402..54a0eb1 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -588,6 +588,16 @@ def resolve(shape: typing.Sequence[int], args):
     return normalized
 
 
+def isselection(args):
+    """True if `args` contains exactly one sequence of integral indices."""
+    return (
+        isinstance(args, tuple)
+        and len(args) == 1
+        and isinstance(args[0], (list, tuple))
+        and all(isintegral(arg) for arg in args[0])
+    )
+
+
 def _has_ellipsis(args):
     """Helper for `~resolve`."""
     try:
-- 
2.43.0


From 9869e7336ce87ba580e7cfd9032bb58467e15e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 012/126] fix: axis indices follow the full slice semantics

---
 src/eprempy/physical/_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index e5397b7..5d562ab 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -62,7 +62,7 @@ class Axis(numeric.Object[T]):
         if len(targets) == 1:
             target = targets[0]
             if isinstance(target, slice):
-                return container.slice2range(target, stop=len(self))
+                return range(*target.indices(len(self)))
             if isinstance(target, (list, tuple, numpy.ndarray)):
                 return target
             if container.isiterable(target):
-- 
2.43.0


From 8279a0951173b8a614bdc21d5bf5122bcb0ccb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 013/126] fix: nearest-value search respects its bound on
 unordered and multidimensional values

---
 src/eprempy/container.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 709d834..0c88c98 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1038,19 +1038,16 @@ def nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
+    flat = array.ravel()
+    permitted = numpy.arange(flat.size)
     if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
+        permitted = numpy.flatnonzero(flat >= target)
     elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+        permitted = numpy.flatnonzero(flat <= target)
+    if permitted.size == 0:
+        # No value satisfies the constraint.
+        permitted = numpy.arange(flat.size)
+    index = permitted[numpy.abs(flat[permitted] - target).argmin()]
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 6b1e5a4afa1212f026cb3e66e71e61552cd8350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 014/126] fix: renaming a project moves its log entries to the
 new paths

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e373832..1a0c719 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -117,8 +117,8 @@ class RunLog(collections.abc.Mapping):
             raise paths.PathTypeError("The new path must exist") from None
         if not new.is_dir():
             raise paths.PathTypeError("Cannot rename log file") from None
-        self._path = new / self.name
         source = str(self.path.parent)
+        self._path = new / self.name
         for key in self:
             self.mv(key, key.replace(source, str(new)))
         return self
-- 
2.43.0


From 8a6073d5693776007c7a59f8257ce9b6571d2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 015/126] fix: renaming a run that never succeeded does not
 fail midway

---
 src/eprempy/project.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 1a0c719..0a7d88c 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -999,7 +999,9 @@ class Interface:
                 print(f"Nothing to rename for {source!r}")
             return
         for (run, new) in pairs.errors(force=(not errors), silent=silent):
-            self.log.mv(run, new)
+            if str(run) in self.log:
+                # NOTE: The log does not contain unsuccessful runs.
+                self.log.mv(run, new)
             if not silent:
                 branch = self._get_branch_name(run)
                 base = f"Renamed {source!r} to {target!r}"
-- 
2.43.0


From 016cf7a52f2cfe2d75096bb5f8ea5a356b6a3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 016/126] fix: a copied project keeps the attributes that the
 caller does not override

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 0a7d88c..7e5f0c0 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -733,7 +733,7 @@ class Interface:
             return self._get_attrs(root, **options)
         restored = self._restore_project(paths.normalize(copy))
         copied = restored.options
-        copied.update(options)
+        copied.update({k: v for k, v in options.items() if v is not None})
         return self._get_attrs(root, **copied)
 
     def _get_attrs(self, root: paths.PathLike, **options):
-- 
2.43.0


From f897cee360520df85a5d9282ec2e63777d796d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 017/126] fix: a renamed project reports its new name

---
 src/eprempy/project.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 7e5f0c0..2675320 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -710,7 +710,6 @@ class Interface:
             logname=logname,
         )
         self._log = None
-        self._name = None
         self._root = None
         self._log = self._get_log(attrs)
         self._directories = RunPaths(attrs.root, attrs.branches, attrs.rundir)
@@ -1058,9 +1057,7 @@ class Interface:
         
         This property is an alias for `~Interface.root.name`.
         """
-        if self._name is None:
-            self._name = self.root.name
-        return self._name
+        return self.root.name
 
     @property
     def runs(self):
-- 
2.43.0


From c9b0b5fa5ada9b0ca3be7d4f1dd7523838f8d47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 018/126] fix: conversion by dimensions keeps the scales of
 prefixed units

The scale of a reduced unit was attached to each of its terms and then dropped
when terms were cancelled, and equal terms could be removed twice, so that, for
example, mCi -> kBq had the same factor as Ci -> Bq.
---
 src/eprempy/metric/_conversions.py | 56 +++++++++++-------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 312e394..8cac959 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -290,10 +290,11 @@ def _convert_by_dimensions(terms: typing.List[symbolic.Term]):
             scale, units = decomposition
             decomposed.extend(units)
             factor *= scale
-    if symbolic.expression(decomposed) == '1':
+        else:
+            decomposed.append(term)
+    reduced = _reduce_terms(decomposed)
+    if not reduced:
         return factor
-    cancelled = _cancel_terms(decomposed)
-    reduced = _reduce_terms(cancelled)
     if result := _resolve_terms(reduced):
         return factor * result
 
@@ -302,49 +303,39 @@ def _decompose_unit(term: symbolic.Term):
     """Convert a unit into fundamental units, if possible."""
     exponent = term.exponent
     if reduction := _reduce_unit(term.base, exponent):
-        return 1.0, reduction
+        return reduction
     for system in _reference.SYSTEMS:
         norm = _defined.NamedUnit(term.base).norm[system]
         if reduction := _reduce_unit(norm.symbol, exponent):
             if factor := _convert_as_strings(term.base, norm.symbol):
-                return factor**exponent, reduction
+                scale, units = reduction
+                return scale * factor**exponent, units
 
 
 def _reduce_unit(base: str, exponent: numbers.Real):
-    """Compute the equivalent expression in fundamental units, if possible."""
+    """Compute the equivalent expression in fundamental units, if possible.
+
+    The result, if any, comprises the numerical scale of the reduced expression
+    and the unscaled terms in fundamental units.
+    """
     if reduction := _defined.NamedUnit(base).reduce():
-        return [
-            symbolic.term(
-                coefficient=reduction.scale**exponent,
-                base=this.base,
-                exponent=exponent*this.exponent,
-            )
+        units = [
+            symbolic.term(base=this.base, exponent=exponent*this.exponent)
             for this in reduction.units
         ]
+        return reduction.scale**exponent, units
 
 
-def _cancel_terms(terms: typing.List[symbolic.Term]):
-    """Cancel out terms with equal magnitude and opposite exponent."""
-    # TODO: Reduce redundancy with `_resolve_terms`.
-    matched = []
-    unmatched = terms.copy()
-    for target in terms:
-        if target not in matched:
-            inverse_powers = [
-                term for term in terms
-                if term != target and term.exponent == -target.exponent
-            ]
-            for term in inverse_powers:
-                if term.base == target.base:
-                    for this in (target, term):
-                        matched.append(this)
-                        unmatched.remove(this)
-    return unmatched
+def _reduce_terms(terms: typing.List[symbolic.Term]):
+    """Combine terms with equal bases and drop those that cancel."""
+    return [
+        term for term in symbolic.expression(terms).terms
+        if term.base not in _reference.UNITY
+    ]
 
 
 def _resolve_terms(terms: typing.List[symbolic.Term]):
     """Compute ratios of terms with comparable exponents, if possible."""
-    # TODO: Reduce redundancy with `_cancel_terms`.
     if len(terms) <= 1:
         # We require at least two terms for a ratio.
         return
@@ -367,11 +358,6 @@ def _resolve_terms(terms: typing.List[symbolic.Term]):
         return factor
 
 
-def _reduce_terms(terms: typing.List[symbolic.Term]):
-    """Partially or fully cancel terms with equal bases."""
-    return symbolic.expression(terms).terms
-
-
 def _match_exponents(
     target: symbolic.Term,
     terms: typing.Iterable[symbolic.Term],
-- 
2.43.0


From 8c936a3b09afb9fb90faf4857ecd2c605562ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 019/126] fix: dimensionless units keep their numerical value
 in composite conversions

A prefixed or angular unit next to another term was given the factor one, so
that 'mrad / s' -> 'rad / s' and 'deg / s' -> 'rad / s' were both 1.
---
 src/eprempy/metric/_conversions.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 8cac959..28d074b 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -364,17 +364,14 @@ def _match_exponents(
 ) -> typing.Optional[typing.Tuple[float, symbolic.Term]]:
     """Attempt to convert `target` to a term in `terms` by exponent.
 
-    This function first checks whether `target` is a dimensionless reference
-    unit and, if so, returns a conversion factor of 1.0 along with `target`. If
-    that check fails, this function compares `target` to each term in `terms`
-    that has an exponent with the same magnitude and opposite sign. If it can
-    convert the base unit of `target` to the base unit of a term in `terms`, it
-    will return the corresponding conversion factor and the matching term.
+    This function first compares `target` to each term in `terms` that has an
+    exponent with the same magnitude and opposite sign. If it can convert the
+    base unit of `target` to the base unit of a term in `terms`, it will return
+    the corresponding conversion factor and the matching term. If there is no
+    such term but `target` is a dimensionless reference unit, this function will
+    return the numerical value of that unit along with `target`.
     """
     u0 = target.base
-    dimensions = _defined.NamedUnit(u0).dimensions.values()
-    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
-        return 1.0, target
     exponent = target.exponent
     inverse_powers = [
         term for term in terms
@@ -384,6 +381,12 @@ def _match_exponents(
         u1 = term.base
         if conversion := _convert_as_strings(u0, u1):
             return conversion ** exponent, term
+    named = _defined.NamedUnit(u0)
+    dimensions = named.dimensions.values()
+    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
+        norm = _defined.UNITS[named.quantity]['mks']
+        value = _convert_as_strings(u0, norm) or named.scale
+        return value ** exponent, target
 
 
 @etc.autostr
-- 
2.43.0


From b6d6d9e6b53b5fda1165de32588b10a0337f0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 020/126] fix: a unit that mixes names and symbols is reduced
 to normal form

'm * meter' had two terms and was not equal to 'm^2'.
---
 src/eprempy/metric/_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 9180f57..811b79d 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -418,7 +418,7 @@ def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
     # string of its unit symbols. For example, both 'm / s' and 'meter /
     # second' should map to 'm / s'.
     symbols = [_as_symbol(term) for term in expression]
-    instance = Unit(symbols)
+    instance = Unit(symbolic.reduce(symbols))
     name = str(instance)
     if name in _units:
         # It turns out that the argument corresponds to an existing unit.
-- 
2.43.0


From 8682922483bcea99651cacb3ad3c7239e1877f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 021/126] fix: powers of expressions keep rational exponents
 exact

---
 src/eprempy/symbolic/_expression.py | 6 ++++--
 src/eprempy/symbolic/_operand.py    | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 0fe11cf..e2ad16f 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -215,9 +215,11 @@ class Expression(collections.abc.Sequence):
 
         This method implements exponentiation of an expression by raising all
         terms to the given power, then reducing exponents of terms with a common
-        base. It will first attempt to convert `exp` to a float.
+        base. It will first attempt to convert `exp` to a float, unless `exp` is
+        already a rational number.
         """
-        exp = float(exp)
+        if not isinstance(exp, numbers.Rational):
+            exp = float(exp)
         terms = [pow(term, exp) for term in self]
         return expression_factory(reduce(terms))
 
diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 6285c28..2768814 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -89,7 +89,7 @@ class Operand(_part.Part):
         if power == 0:
             return type(self)()
         coefficient = self.coefficient ** power
-        exponent = self.exponent * power
+        exponent = self.exponent * fractions.Fraction(power)
         return type(self)(coefficient, self.base, exponent)
 
     def __mul__(self, other):
-- 
2.43.0


From 28b3e58aca0a44a699b245c449eca5cad01c966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 022/126] fix: read numbers in scientific notation with a
 signed exponent

---
 src/eprempy/symbolic/_operand.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 2768814..723ecac 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -425,8 +425,11 @@ class OperandFactory(_part.Factory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            # A number in scientific notation (e.g., '2e-3') also looks like a
+            # shorter variable term (e.g., '2e').
+            lengths = {k: len(match[0]) for k, match in matches.items()}
+            is_constant = lengths['constant'] >= lengths['variable']
+            key = 'constant' if is_constant else 'variable'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
-- 
2.43.0


From bfeabb1784b20727814a3f4262db5221e2f15ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 023/126] fix: check the contents of a nested group that is
 raised to the zeroth power

---
 src/eprempy/symbolic/_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/symbolic/_parser.py b/src/eprempy/symbolic/_parser.py
index 66de152..a060505 100644
--- a/src/eprempy/symbolic/_parser.py
+++ b/src/eprempy/symbolic/_parser.py
@@ -182,6 +182,9 @@ class Parser:
     ) -> Iteration:
         """Attempt to parse an operand from the current string."""
         if parsed := self.operands.parse(current.string):
+            if not initial.exponent:
+                # The zeroth power would hide the contents of a nested group.
+                self._update_terms(parsed.result)
             current.operand = parsed.result ** initial.exponent
             current.string = parsed.remainder
         return current
-- 
2.43.0


From 8a4bf368c0f2a1ce464c60685091787a48b11cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 024/126] fix: array powers line operands up by dimension name

---
 src/eprempy/physical/_operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 709f4c8..f21e374 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -386,8 +386,9 @@ def exponential(f, a, b, **kwargs):
         # - both `a` and `b` are unitless
         # - `b` is array-like
         if isinstance(a, Array) and isinstance(b, Array):
-            data = f(a.data.array, b.data.array, **kwargs)
-            return array_factory(data, unit='1', axes=a.axes)
+            data = f(a.data, b.data, **kwargs)
+            axes = a.axes | b.axes
+            return array_factory(data, unit='1', axes=axes)
         if isinstance(a, Array):
             data = f(a.data.array, b.data, **kwargs)
             return array_factory(data, unit='1', axes=a.axes)
-- 
2.43.0


From 7bfdc395b9511f43cfe441351450da19aeff99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 025/126] fix: keep the full axis when merging it with a
 singular one

---
 src/eprempy/physical/_axes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index f82b889..058617c 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -180,8 +180,15 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         except container.MergeError as err:
             errmsg = str(err).replace('entries', 'dimensions')
             raise ValueError(errmsg) from err
-        mapping = {k: other[k] if k in other else self[k] for k in keys}
-        return Axes(mapping)
+        return Axes({k: self._select(k, other) for k in keys})
+
+    def _select(self, key: str, other: typing.Mapping) -> _axis.Axis:
+        """Choose the merged axis, preferring `other` unless it is singular."""
+        if key not in other:
+            return self[key]
+        if key in self and len(self[key]) > len(other[key]) == 1:
+            return self[key]
+        return other[key]
 
     def copy(self):
         """Create a shallow copy of this collection."""
-- 
2.43.0


From 5a9abf3fbf706054b2d9ec63c1d0d39d554ca9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 026/126] fix: default and transposed dimensions of arrays can
 be combined

---
 src/eprempy/numeric/_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index df84f07..9d65512 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -287,7 +287,7 @@ def dimensions_factory(*args):
     if len(args) == 1:
         arg = args[0]
         if isinstance(arg, numbers.Real):
-            return tuple(f'x{i}' for i in range(arg))
+            return Dimensions(tuple(f'x{i}' for i in range(arg)))
     unwrapped = container.unwrap(args, newtype=tuple)
     unique = container.unique(unwrapped)
     return Dimensions(_compute_names(unique))
@@ -519,7 +519,7 @@ class Array(Quantity[DataType], Operators):
         self.dimensions.mismatch(args)
         axes = [self.dimensions.index(arg) for arg in args]
         data = self.array.transpose(axes)
-        return self.spawn(data, dimensions=args)
+        return self.spawn(data, dimensions=self.dimensions.permute(axes))
 
     @property
     def size(self) -> int:
-- 
2.43.0


From b34b04e012435d5b79ccc62ce10036ec9759248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 027/126] fix: raise an index to each power in an index
 sequence

---
 src/eprempy/numeric/_index.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 54a0eb1..11cd5dd 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -227,12 +227,7 @@ def mod(a, b):
 @implements('pow')
 def pow(a, b, mod: int=None):
     """Compute a ** b."""
-    negative_exponent = False
-    try:
-        negative_exponent = b < 0
-    except ValueError:
-        negative_exponent = all(b < 0)
-    if negative_exponent:
+    if numpy.any(b < 0):
         raise ValueError(
             "Cannot raise index to a negative integral power"
         ) from None
-- 
2.43.0


From 99db007e275b5721dd7a9aad9f20b96bde0c55be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 028/126] fix: bound a repeated target value by a nonempty
 index range

---
 src/eprempy/numeric/_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 11cd5dd..f709b18 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -800,6 +800,7 @@ def _find_1d_indices(
     lower = numpy.where(leq)[0].max() if any(leq) else 0
     geq = array >= target
     upper = numpy.where(geq)[0].min() if any(geq) else len(array)-1
-    return lower, upper
+    # NOTE: The bounds are out of order when `target` is a repeated value.
+    return min(lower, upper), max(lower, upper)
 
 
-- 
2.43.0


From e3167a1e35f9dbbe44052c05294d7e53327d12b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 029/126] fix: bound targets along the requested axis of
 two-dimensional arrays

---
 src/eprempy/numeric/_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index f709b18..071a6c6 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -759,8 +759,8 @@ def _compute_bounds(
             ) from None
         return tuple(bounds)
     if bounds.ndim == 2:
-        lower = numpy.min(bounds[:, 0])
-        upper = numpy.max(bounds[:, 1])
+        lower = numpy.min(numpy.take(bounds, 0, axis=int(axis)))
+        upper = numpy.max(numpy.take(bounds, 1, axis=int(axis)))
         return lower, upper
     # NOTE: We can get `lower` and `upper` for N-D arrays by replacing `:` with
     # `...`. The problem is that they will be (N-1)-D arrays that we will then
-- 
2.43.0


From 5bbe31f8a975bfbd1d00564e2af8c7fb92cd6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 030/126] fix: tolerate rounding of a target equal to the first
 or last axis value

---
 src/eprempy/numeric/_data.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eprempy/numeric/_data.py b/src/eprempy/numeric/_data.py
index 7015080..eddd84e 100644
--- a/src/eprempy/numeric/_data.py
+++ b/src/eprempy/numeric/_data.py
@@ -50,8 +50,6 @@ def isclose(a: Object, b: numbers.Real) -> bool:
         return a == b or numpy.isclose(b, data, atol=0.0)
     if b in data:
         return True
-    if b < numpy.min(data) or b > numpy.max(data):
-        return False
     return numpy.any([numpy.isclose(b, data, atol=0.0)])
 
 
-- 
2.43.0


From f1f3a1625c30ef2fa2f300a478174b2f4918d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 031/126] fix: an axis may be subscripted with the index of a
 single value

---
 src/eprempy/numeric/_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 071a6c6..1305661 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -533,6 +533,8 @@ def _sequence_args(x, /):
                 return [int(i) for i in x]
         if all(isinstance(i, (numbers.Integral, numpy.integer)) for i in x):
             return x
+        if any(isinstance(i, Value) for i in x):
+            return _sequence_args([getattr(i, 'data', i) for i in x])
     if isinstance(x, numpy.ndarray) and x.dtype == int:
         if x.size == 1:
             v = x[0] if x.ndim == 1 else x
-- 
2.43.0


From 5e17bc8af96fb7ecc94158ed28e50c532bf02f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 032/126] fix: symbols chosen by a list of indices know their
 indices

---
 src/eprempy/physical/_axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 5d562ab..8871c46 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -207,7 +207,9 @@ class Symbols(Axis[typing.List[str]]):
 
     def __getitem__(self, index, /):
         if container.isiterable(index):
-            return self.spawn([self.data[i] for i in index])
+            axis = self.spawn([self.data[i] for i in index])
+            axis._indices = numeric.index.sequence([int(i) for i in index])
+            return axis
         return super().__getitem__(index)
 
     def index(self, *targets: T):
-- 
2.43.0


From a505876dfdb33eee760c7fa19ef01841f9f9c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 033/126] fix: refuse repeated dimensions in a collection of
 axes

---
 src/eprempy/numeric/_array.py |  2 ++
 src/eprempy/physical/_axes.py | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 9d65512..10776d6 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -213,6 +213,8 @@ class Dimensions(collections.abc.Sequence):
                 "Cannot interpret all values as indices"
             ) from err
         self.mismatch(names)
+        if len(names) > len(self):
+            raise ValueError("Repeated dimensions") from None
         return dimensions_factory(names)
 
     def mismatch(self, other: typing.Iterable[str]):
diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 058617c..3cab980 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -254,6 +254,10 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
                     "Can only replace one axis at a time."
                 ) from None
             key, value = pair.popitem()
+            if key != dimension and key in self:
+                raise ValueError(
+                    f"Axes already contain {key!r}"
+                ) from None
             mapping = {}
             for d in self.dimensions:
                 if d == dimension:
@@ -369,6 +373,7 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             raise TypeError(
                 "No dimensions to extract"
             ) from None
+        _require_unique(dimensions)
         return Axes({d: self[d] for d in dimensions})
 
     @typing.overload
@@ -406,6 +411,7 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             return self.dimensions.permute(args)
         if etc.allisinstance(str, *args):
             self.dimensions.mismatch(args)
+            _require_unique(args)
             return numeric.dimensions(args)
         raise TypeError(*args)
 
@@ -424,6 +430,13 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         return self._names
 
 
+def _require_unique(dimensions: typing.Iterable[str]) -> None:
+    """Raise an exception if `dimensions` contains repeated names."""
+    names = list(dimensions)
+    if len(container.unique(names)) < len(names):
+        raise ValueError(f"Repeated dimensions: {names}") from None
+
+
 def axes_factory(*args, **kwargs) -> Axes:
     """Internal factory for `~Axes` instances."""
     return Axes(_map_axes(*args, **kwargs))
@@ -438,6 +451,7 @@ def _map_axes(*args, **kwargs):
         dimensions = kwargs.pop('dimensions', None)
         axes = kwargs.pop('axes', None)
         mapping = kwargs.pop('mapping', None)
+        _require_unique(dimensions or ())
         # Merge dimension-axis mappings.
         pairs = kwargs.copy()
         pairs.update(mapping or {})
-- 
2.43.0


From 69e8c65561632c2046d2cd6958669e673445297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 034/126] fix: inserting an axis never drops an axis

---
 src/eprempy/physical/_axes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 3cab980..fca870e 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -298,6 +298,8 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             raise TypeError(
                 f"Got multiple location keywords for new axes: {strkws}"
             ) from None
+        if dimension in self:
+            raise ValueError(f"Axes already contain {dimension!r}") from None
         if len(kwargs) == 0:
             return self | {dimension: new}
         locator, location = kwargs.popitem()
@@ -315,6 +317,12 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
                 mapping[d] = current
             else:
                 mapping[d] = current
+        if locator == 'index' and location == len(self):
+            mapping[dimension] = new
+        if dimension not in mapping:
+            raise ValueError(
+                f"Cannot insert {dimension!r} at {locator}={location!r}"
+            ) from None
         return Axes(mapping)
 
     def without(self, dimension: str, strict: bool=False):
-- 
2.43.0


From 336e4d516536bc95b9b9e88fe4bb8b6549cf76db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 035/126] fix: an alias shared by several keys refers to one
 value

---
 src/eprempy/aliased.py | 46 ++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 3e62fc1..b8b11e2 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -303,16 +303,40 @@ def _build_from_aliases(
     mapping: typing.Mapping[_KT, _VT],
 ) -> typing.Dict[Group, _VT]:
     """Build a `dict` that maps aliased keys to user values."""
+    return _combine(mapping.items())
+
+
+def _combine(
+    items: typing.Iterable[typing.Tuple[_KT, _VT]],
+) -> typing.Dict[Group, _VT]:
+    """Build a `dict` with disjoint aliased keys from key-value pairs.
+
+    If the aliases in a key overlap with existing aliased keys, all of them will
+    become aliases of the latest value.
+    """
     out = {}
-    for key, value in mapping.items():
-        try:
-            aliased_key = next(k for k in out if key in k)
-        except StopIteration:
-            aliased_key = Group(key)
-        out[aliased_key] = value
+    for key, value in items:
+        _assign(out, key, value)
     return out
 
 
+def _assign(
+    target: typing.Dict[Group, _VT],
+    key: typing.Union[_KT, typing.Iterable[_KT]],
+    value: _VT,
+) -> None:
+    """Store `value` under `key`, combined with any key that overlaps it."""
+    new = Group(key)
+    old = [group for group in target if any(alias in group for alias in new)]
+    if len(old) == 1 and all(alias in old[0] for alias in new):
+        target[old[0]] = value
+        return
+    for group in old:
+        new = group | new
+        del target[group]
+    target[new] = value
+
+
 def _build_from_key(
     mapping: typing.Mapping[str, typing.Mapping[str, typing.Any]],
     aliases: typing.Union[str, Groups[str]]=None,
@@ -365,7 +389,7 @@ def _build_from_key(
         {k: v for k, v in group.items() if k != aliases}
         for group in mapping.values()
     ] if aliases and isinstance(aliases, str) else mapping.values()
-    return dict(zip(keys, values))
+    return _combine(zip(keys, values))
 
 
 @typing.runtime_checkable
@@ -792,8 +816,9 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
             others = other.items()
         else:
             return NotImplemented
-        items = dict((*self.items(aliased=True), *others))
-        return type(self)(items)
+        merged = Mapping()
+        merged.as_dict = _combine((*self.items(aliased=True), *others))
+        return type(self)(merged)
 
     def __str__(self) -> str:
         """A simplified representation of this instance."""
@@ -883,8 +908,7 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
 
     def __setitem__(self, key: str, value: _VT):
         """Assign a value to `key` and its aliases."""
-        resolved = self._resolve(key) or Group(key)
-        self.as_dict[resolved] = value
+        _assign(self.as_dict, self._resolve(key) or key, value)
         self._refresh()
 
     def __delitem__(self, key: str):
-- 
2.43.0


From 8186272d063b061c8edf8dee96b22e6c666d75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 036/126] fix: copying an aliased mapping keeps its values as
 they are

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index b8b11e2..5083a66 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -846,7 +846,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
 
     def copy(self):
         """Create a shallow copy of this instance."""
-        return type(self)(self.as_dict)
+        return type(self)(self)
 
 
 class MutableMapping(Mapping, collections.abc.MutableMapping):
-- 
2.43.0


From c2c3499c36a476ac5888af25e8a56dfbbc2b66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 037/126] fix: freezing groups of items keeps the aliases

---
 src/eprempy/aliased.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 5083a66..e2df299 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -1027,8 +1027,10 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not groups:
             return Mapping(self)
-        grouped = {k: self[k] for k in self._groups}
-        return Mapping({**self, **grouped})
+        frozen = MutableMapping(self)
+        for name in self._groups:
+            frozen[name] = self[name]
+        return Mapping(frozen)
 
 
 class NameMap(collections.abc.Mapping):
-- 
2.43.0


From b812a9147a3237d40164daf80765fb9c284dbfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 038/126] fix: the name of a group of items is not also a key

---
 src/eprempy/aliased.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index e2df299..7174667 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -908,6 +908,7 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
 
     def __setitem__(self, key: str, value: _VT):
         """Assign a value to `key` and its aliases."""
+        self._check_unused(key)
         _assign(self.as_dict, self._resolve(key) or key, value)
         self._refresh()
 
@@ -919,6 +920,14 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         del self.as_dict[resolved]
         self._refresh()
 
+    def _check_unused(self, key):
+        """Raise an exception if `key` contains the name of a group."""
+        for name in Group(key):
+            if name in self._groups:
+                raise ValueError(
+                    f"Cannot assign key to existing group {name!r}"
+                ) from None
+
     def _refresh(self):
         """Perform common tasks after setting or deleting an item."""
         self._flat_dict = {
@@ -951,6 +960,7 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
                 raise KeyError(
                     f"'{key}' is already an alias for {this!r}"
                 ) from None
+            self._check_unused(alias)
             updated = self._resolve(key) | alias
             self.as_dict[updated] = self[key]
             del self[key]
-- 
2.43.0


From 4a1688a96be18a717de109444349d1c9d041a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 039/126] fix: merging groups of aliases keeps them disjoint

---
 src/eprempy/aliased.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 7174667..f029b61 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -156,27 +156,22 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
+                merged = Group(group)
+                for found in [k for k in these if not k.isdisjoint(merged)]:
                     these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                    merged = found | merged
+                these.append(merged)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.get(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
-        for i in __x:
+        group = Group(__x)
+        for i in group:
             if i in self.flat:
                 raise ValueError(
                     f"Cannot add {__x}: {i} already exists in a group"
                 ) from None
-        self._groups.append(Group(__x))
+        self._groups.append(group)
 
     def discard(self, __x: _KT) -> None:
         """Remove the group containing `__x`."""
-- 
2.43.0


From caa14e2ad8e14acf60b208e5528db201074946ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 040/126] fix: a table search returns the entry that all pairs
 single out

---
 src/eprempy/container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 0c88c98..9e24423 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -661,11 +661,10 @@ class Table(collections.abc.Mapping):
                 if entry[key] == value
             ]
             if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
-                    raise AmbiguousRequestError(request)
                 if len(subset) == 1:
                     return subset[0]
+                if len(subset) > 1 and len(request) == n_checked:
+                    raise AmbiguousRequestError(request)
         if strict and len(subset) == 1:
             return subset[0]
         raise TableLookupError(request)
-- 
2.43.0


From e019f1e7acb31cfaa648891748dc013e929d0771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 041/126] fix: merge sequences in which a shared item repeats

---
 src/eprempy/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 9e24423..5cc0bf3 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1088,8 +1088,8 @@ def merge(these: typing.Iterable, those: typing.Iterable):
         s = []
         za = zb = 0
         for v in ab:
-            ia = x.index(v)
-            ib = y.index(v)
+            ia = x.index(v, za)
+            ib = y.index(v, zb)
             s.extend(x[za:ia] + y[zb:ib])
             s.append(v)
             za = ia+1
-- 
2.43.0


From 124b008c2960326b21552303cf7c72635f99e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 042/126] fix: find the nearest of unsigned integers

---
 src/eprempy/container.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 5cc0bf3..7ab3185 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1046,7 +1046,11 @@ def nearest(
     if permitted.size == 0:
         # No value satisfies the constraint.
         permitted = numpy.arange(flat.size)
-    index = permitted[numpy.abs(flat[permitted] - target).argmin()]
+    candidates = flat[permitted]
+    if candidates.dtype.kind == 'u':
+        # NOTE: Unsigned integers don't support negative differences.
+        candidates = candidates.astype(object)
+    index = permitted[numpy.abs(candidates - target).argmin()]
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 4790968b7297e2e922153289989e68186b68cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 043/126] fix: registering an object under a default key
 replaces nothing

---
 src/eprempy/container.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 7ab3185..76f8a7e 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -959,9 +959,11 @@ class ObjectRegistry(collections.abc.Mapping, typing.Mapping[_KT, _VT]):
                 proposed = getattr(obj, option)
                 if proposed not in self._items:
                     return proposed
-                new_default_key = f"{proposed}_{self._default_key_count}"
-                self._default_key_count += 1
-                return new_default_key
+                while True:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
+                    if new_default_key not in self._items:
+                        return new_default_key
 
     def reset(self) -> None:
         """Reset the internal mapping to its initial state."""
-- 
2.43.0


From 9dc58f837857485d426afc604b8d970483655fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 044/126] fix: measuring nested values with a unit keeps all
 numbers

---
 src/eprempy/quantity/_functions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 1e007fd..b99aebf 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -70,7 +70,8 @@ def ismeasurable(x, /):
         return True
     if metric.unitlike(args[-1]):
         arg0 = args[0]
-        values = arg0 if container.isiterable(arg0) else args[:-1]
+        nested = len(args) == 2 and container.isiterable(arg0)
+        values = arg0 if nested else args[:-1]
         if all(isinstance(value, numbers.Real) for value in values):
             return True
     if all(isinstance(i, (list, tuple)) and ismeasurable(i) for i in args):
@@ -257,8 +258,11 @@ def parse(x, /, distribute: bool=False):
             return _wrap_measurable(unwrapped[:-1], unit, distribute)
 
         # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-        if isinstance(unwrapped[0], (list, tuple, range)):
-            return _wrap_measurable(unwrapped[0], unit, distribute)
+        values = unwrapped[0]
+        if len(unwrapped) == 2 and isinstance(values, (list, tuple, range)):
+            if any(isinstance(value, (str, metric.Unit)) for value in values):
+                raise ParsingValueError(errmsg) from None
+            return _wrap_measurable(values, unit, distribute)
 
     raise ParsingTypeError(x)
 
-- 
2.43.0


From f4d8a52a20b03434eb66fd9fe491a55ba4f5d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 045/126] fix: distribute the unit over numerical strings

---
 src/eprempy/quantity/_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index b99aebf..bc25d9c 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -225,16 +225,17 @@ def parse(x, /, distribute: bool=False):
         # First, check for a single numeric string.
         if isinstance(unwrapped, str):
             with contextlib.suppress(ValueError):
-                return parse([float(unwrapped)])
+                return parse([float(unwrapped)], distribute=distribute)
         # Next, check for all numeric strings.
         with contextlib.suppress(ValueError):
-            return parse([float(arg) for arg in unwrapped])
+            values = [float(arg) for arg in unwrapped]
+            return parse(values, distribute=distribute)
         # Finally, check for numeric strings with a final unit.
         try:
             values = [float(arg) for arg in unwrapped[:-1]]
         except ValueError as err:
             raise ParsingValueError(errmsg) from err
-        return parse([*values, unwrapped[-1]])
+        return parse([*values, unwrapped[-1]], distribute=distribute)
 
     # Handle flat numerical iterables, like (1.1,) or (1.1, 2.3).
     if all(isinstance(arg, numbers.Real) for arg in unwrapped):
-- 
2.43.0


From be63efbf8d7192163935cdf4d0cddf5f8ebf136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 046/126] fix: refuse different units when distributing

---
 src/eprempy/quantity/_functions.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index bc25d9c..7e5e5b9 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -277,13 +277,6 @@ def _wrap_measurable(values, unit, distribute: bool):
 
 def _recursive_parse(unwrapped, distribute: bool):
     """Parse the measurable by calling back to `~parse`."""
-    if distribute:
-        parsed = [
-            item
-            for arg in unwrapped
-            for item in parse(arg, distribute=True)
-        ]
-        return tuple(parsed)
     parsed = [
         parse(arg, distribute=False) for arg in unwrapped
     ]
@@ -294,8 +287,7 @@ def _recursive_parse(unwrapped, distribute: bool):
     values = [
         i for item in parsed for i in item[:-1]
     ]
-    unit = units[0]
-    return (*values, unit)
+    return _wrap_measurable(values, units[0], distribute)
 
 
 def hasdata(a):
-- 
2.43.0


From e306f1a6c2f5ad134f351c351ebb4bd55dcb1d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 047/126] fix: measuring an iterator keeps its numbers

---
 src/eprempy/quantity/_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 7e5e5b9..c36e997 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -207,6 +207,10 @@ def parse(x, /, distribute: bool=False):
             f"Cannot measure non-iterable input: {unwrapped!r}"
         ) from err
 
+    # Collect the members of an iterator, which supports only one pass.
+    if isinstance(unwrapped, typing.Iterator):
+        return parse(tuple(unwrapped), distribute=distribute)
+
     # Recursively parse nested parsable objects.
     if all(isinstance(arg, (list, tuple)) for arg in unwrapped):
         return _recursive_parse(unwrapped, distribute)
-- 
2.43.0


From 425febbce4a728f438cf74aaa5a15fe3ca0d496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 048/126] fix: refuse further arguments when measuring an
 existing quantity

---
 src/eprempy/quantity/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/quantity/__init__.py b/src/eprempy/quantity/__init__.py
index 265b0ab..cd131f2 100644
--- a/src/eprempy/quantity/__init__.py
+++ b/src/eprempy/quantity/__init__.py
@@ -122,6 +122,8 @@ def measure(*args, **kwargs):
     if not args:
         raise MeasuringTypeError("There is nothing to measure") from None
     this = args[0]
+    if len(args) > 1:
+        return _measure_implicit(args)
     if isinstance(this, Measurement):
         return this
     if isinstance(this, base.Measurable):
-- 
2.43.0


From 338da05ce66e9800b83669d6274510709165574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 049/126] fix: give permittivity the dimension of its SI unit

Farad per meter is s^4 A^2 kg^-1 m^-3; the dimension was missing one power
of current.
---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 1ceb542..2582f64 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -636,7 +636,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From db125184e29d951ca9090fa738e401a76da46686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 050/126] fix: spell illuminance so that lux is a defined unit

The unit 'lx' names the quantity 'illuminance', which was registered under a
misspelt name, so using the unit raised KeyError.
---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 2582f64..a8d2797 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -491,7 +491,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
-- 
2.43.0


From 488f2cb412da5427c43dda273a6ea5e067c530d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 051/126] fix: use cm in the cgs unit of displacement

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index a8d2797..61f63a9 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -432,7 +432,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
-- 
2.43.0


From e409700c59f91dcb7777a7ae67d5e360346a365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 052/126] fix: scale electrical cgs conversions by the speed of
 light in cm/s

C is the speed of light in cm/s, but these factors were written for m/s: one
coulomb is C / 10 statcoulomb, as the two tabulated values of the elementary
charge confirm, and one volt is 1e8 / C statvolt.
---
 src/eprempy/metric/_reference.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 61f63a9..b808a35 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -779,17 +779,17 @@ PI = numpy.pi
 _CONVERSIONS = {
     ('Rs', 'm'): 6.96e8,
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
     ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -803,7 +803,7 @@ _CONVERSIONS = {
     ('H / m', '1'): 1e7 / 4*PI,
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From 820b51902de2d718ce9c692f91a06b66ba4cf25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 053/126] fix: divide by 4 pi when converting permeability to
 cgs

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index b808a35..860c9be 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -800,7 +800,7 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
     ('V', 'statV'): 1e8 / C,
-- 
2.43.0


From 414f6afc639437709f80518a6dcddf4fd1889899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 054/126] fix: give the cgs value of the first radiation
 constant

The SI number was repeated: 3.7418e-16 W m^2 is 3.7418e-5 erg cm^2 / s.
---
 src/eprempy/universal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/universal.py b/src/eprempy/universal.py
index f35c489..35723b4 100644
--- a/src/eprempy/universal.py
+++ b/src/eprempy/universal.py
@@ -106,7 +106,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From 977d787696db9ff6136f186df9da4a6cbbeb9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 055/126] fix: convert a single dimensionless unit to unity

Products such as 'mrad / s' and 'MeV / nuc' convert because dimensionless units
count as numbers, but 'mrad', 'nuc' and 'k#' alone did not convert to '1', the
unit that both metric systems prescribe for them.
---
 src/eprempy/metric/_conversions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 28d074b..8050a26 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -336,8 +336,7 @@ def _reduce_terms(terms: typing.List[symbolic.Term]):
 
 def _resolve_terms(terms: typing.List[symbolic.Term]):
     """Compute ratios of terms with comparable exponents, if possible."""
-    if len(terms) <= 1:
-        # We require at least two terms for a ratio.
+    if not terms:
         return
     factor = 1.0
     matched = []
-- 
2.43.0


From f2ecdf273733d9850ecf2c622fecc5459d0fdacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 056/126] fix: find defined conversions of compound units
 however they are spelled

The conversion from siemens to 'cm / s' is defined, but converting between the
corresponding unit objects failed because their strings read 'cm s^-1'.
---
 src/eprempy/metric/_conversions.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 8050a26..1bc89c8 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -119,10 +119,24 @@ def _convert(u0: str, u1: str):
 def _convert_as_strings(u0: str, u1: str) -> typing.Optional[float]:
     """Attempt to convert `u0` to `u1` as strings."""
     checked = []
-    if factor := _recursive_conversion(checked, u0, u1):
+    start, end = (_as_defined(unit) for unit in (u0, u1))
+    if factor := _recursive_conversion(checked, start, end):
         return factor
 
 
+def _as_defined(unit: str):
+    """Spell a compound unit as in the defined conversions, if possible."""
+    nodes = _reference.CONVERSIONS.nodes
+    if unit in nodes or unit in _reference.NAMED_UNITS:
+        return unit
+    expression = symbolic.expression(unit)
+    for node in nodes:
+        if node not in _reference.NAMED_UNITS:
+            if symbolic.expression(node) == expression:
+                return node
+    return unit
+
+
 def _recursive_conversion(
     checked: typing.List[str],
     u0: str,
-- 
2.43.0


From 132b5ad53083e14ec9a02d30b11d5a68d009e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 057/126] fix: define conversions of lumen and lux

Converting either to the unit that its quantity prescribes raised an error about
an undefined unit called 'cd * sr'.
---
 src/eprempy/metric/_conversions.py | 6 +++++-
 src/eprempy/metric/_reference.py   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 1bc89c8..f477c6c 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -318,8 +318,12 @@ def _decompose_unit(term: symbolic.Term):
     exponent = term.exponent
     if reduction := _reduce_unit(term.base, exponent):
         return reduction
+    canonical = _defined.UNITS[_defined.NamedUnit(term.base).quantity]
     for system in _reference.SYSTEMS:
-        norm = _defined.NamedUnit(term.base).norm[system]
+        if canonical[system] not in _reference.NAMED_UNITS:
+            # There is no single unit to reduce.
+            continue
+        norm = _defined.NamedUnit(canonical[system])
         if reduction := _reduce_unit(norm.symbol, exponent):
             if factor := _convert_as_strings(term.base, norm.symbol):
                 scale, units = reduction
diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 860c9be..6e334a9 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -813,6 +813,9 @@ _CONVERSIONS = {
     ('s', 'd'): 1.0 / 86400.0,
     ('Wb / m', 'G * cm'): 1e6,
     ('kg / (m * s)', 'P'): 1e1,
+    ('lm', 'cd * sr'): 1.0,
+    ('lx', 'cd * sr / m^2'): 1.0,
+    ('lx', 'cd * sr / cm^2'): 1e-4,
 }
 
 
-- 
2.43.0


From d21df333f36d14d75dce31fa2e4d92b354125ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 058/126] fix: do not let centiday denote candela

The symbol 'cd' of candela was also registered as that of centiday, which made
the two names one unit: a time in 'centiday' was a luminous intensity.
---
 src/eprempy/metric/_reference.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 6e334a9..1d39a55 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -308,6 +308,8 @@ def _build_named_units(
     unitless = next(
         unit for unit in units if unit['quantity'] == 'identity'
     )
+    # Unscaled units have priority over combinations with the same symbol.
+    reserved = {unit['symbol'] for unit in units}
     # Build mapping from (prefix, unit) combinations, as appropriate.
     mapped = {}
     for unit in units:
@@ -323,6 +325,9 @@ def _build_named_units(
                     mapped[(unit['symbol'], unit['name'])] = {
                         'prefix': base_prefix, 'base': unit
                     }
+                elif f"{prefix['symbol']}{unit['symbol']}" in reserved:
+                    # Prevent ambiguity (e.g., 'cd' is candela, not centiday).
+                    continue
                 elif prefix is not null_prefix:
                     # Add the full (prefix, unit) combination.
                     key = [
-- 
2.43.0


From b5466d86fac813b453bb08e5f66740b1cdcd88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 059/126] fix: compute metrics of quantities that cancel

The quantity of a ratio such as 'km / m' is '1', whose lookup recursed without
end, as did that of any unknown quantity.
---
 src/eprempy/metric/_defined.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index d351264..bf5aa4c 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -116,9 +116,12 @@ class _Property(collections.abc.Mapping):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        name = 'identity' if term.base == '1' else term.base.replace('_', ' ')
+        if name not in _reference._QUANTITIES:
+            raise KeyError(f"Unknown quantity {name!r}")
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[name].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From fd5319c50bea8d8a4ef25046ac6495e04295d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 060/126] fix: spell siemens

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 1d39a55..0198009 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -215,7 +215,7 @@ _UNITS = [
     },
     {
         'symbol': 'S',
-        'name': 'seimens',
+        'name': 'siemens',
         'quantity': 'conductance',
     },
     {
-- 
2.43.0


From 37e560202d4d8f689fda1cd9969771ca8dd8dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 061/126] fix: match dimensionless units last in composite
 conversions

A power of nucleons was converted to the same power of a mass, after which the
unit that the mass should have matched made the whole conversion undefined.
---
 src/eprempy/metric/_conversions.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index f477c6c..2c7a677 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -358,8 +358,11 @@ def _resolve_terms(terms: typing.List[symbolic.Term]):
         return
     factor = 1.0
     matched = []
-    unmatched = terms.copy()
-    for target in terms:
+    # Consider dimensionless terms last, so that a nucleon does not match a mass
+    # which another mass in the expression requires.
+    ordered = sorted(terms, key=_is_dimensionless)
+    unmatched = ordered.copy()
+    for target in ordered:
         if target not in matched:
             if match := _match_exponents(target, unmatched):
                 value, term = match
@@ -375,6 +378,12 @@ def _resolve_terms(terms: typing.List[symbolic.Term]):
         return factor
 
 
+def _is_dimensionless(term: symbolic.Term) -> bool:
+    """True if this term is a power of a dimensionless named unit."""
+    dimensions = _defined.NamedUnit(term.base).dimensions.values()
+    return all(dimension == '1' for dimension in dimensions)
+
+
 def _match_exponents(
     target: symbolic.Term,
     terms: typing.Iterable[symbolic.Term],
@@ -398,9 +407,8 @@ def _match_exponents(
         u1 = term.base
         if conversion := _convert_as_strings(u0, u1):
             return conversion ** exponent, term
-    named = _defined.NamedUnit(u0)
-    dimensions = named.dimensions.values()
-    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
+    if _is_dimensionless(target):
+        named = _defined.NamedUnit(u0)
         norm = _defined.UNITS[named.quantity]['mks']
         value = _convert_as_strings(u0, norm) or named.scale
         return value ** exponent, target
-- 
2.43.0


From d428f7061d4149efd5e398709aa446477c585d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:14 +0000
Subject: [PATCH 062/126] fix: energies and speeds of datasets with several
 species or one energy

---
 src/eprempy/datafile/_interfaces.py | 30 ++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/datafile/_interfaces.py b/src/eprempy/datafile/_interfaces.py
index 494fb1b..97111d3 100644
--- a/src/eprempy/datafile/_interfaces.py
+++ b/src/eprempy/datafile/_interfaces.py
@@ -112,7 +112,8 @@ class Axes(typing.Mapping[str, physical.Axis]):
     def energy(self) -> physical.Array:
         """The particle energies."""
         if self._energy is None:
-            data = numpy.squeeze(self._create('egrid'))
+            array = self._create('egrid')
+            data = physical.tensor(_by_energy(array), unit=array.unit)
             self._energy = physical.coordinates(data)
         return self._energy
 
@@ -222,14 +223,14 @@ class Arrays:
     def energy(self) -> physical.Array:
         """The particle energies."""
         if self._energy is None:
-            self._energy = numpy.squeeze(self._create('egrid'))
+            self._energy = self._create_by_energy('egrid')
         return self._energy
 
     @property
     def v(self) -> physical.Array:
         """The particle speeds."""
         if self._v is None:
-            self._v = numpy.squeeze(self._create('vgrid'))
+            self._v = self._create_by_energy('vgrid')
         return self._v
 
     @property
@@ -360,6 +361,15 @@ class Arrays:
         )
         return array.withunit(unit or str(self.system))
 
+    def _create_by_energy(self, name: str) -> physical.Array:
+        """Create an array that varies only with energy."""
+        array = self._create(name)
+        return physical.array(
+            _by_energy(array),
+            unit=array.unit,
+            axes=physical.axes({'energy': self.axes['energy']}),
+        )
+
     @property
     def hasdist(self):
         """True if this dataset contains the particle distribution.
@@ -468,6 +478,20 @@ class Grid:
         return self._arrays.system
 
 
+def _by_energy(array: numpy.typing.ArrayLike):
+    """Remove the species dimension from an array of per-nucleon values.
+
+    EPREM stores one copy of each array of per-nucleon values (e.g., energy) for
+    each species.
+    """
+    data = numpy.array(array, ndmin=2)
+    if numpy.any(data != data[0]):
+        raise ValueError(
+            "Energies and speeds must be the same for all species"
+        ) from None
+    return data[0]
+
+
 def axes_factory(
     source: paths.PathLike,
     system: typing.Optional[typing.Union[str, metric.System]]=None,
-- 
2.43.0


From 052e46c9dd003e8bcd36a7dde083e7151f14fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 063/126] fix: observer names keep letters that also occur in
 the prefix

---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index dfe0f77..1bd8802 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -413,7 +413,7 @@ def _get_observer_id(path: pathlib.Path):
     prefixes = Stream.prefixes | Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
-            key = stem.lstrip(prefix)
+            key = stem.removeprefix(prefix)
             if prefix in Stream.prefixes:
                 return int(key)
             return key
-- 
2.43.0


From d6791861652643b067fb28e329e7f0d35d42d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 064/126] fix: refuse an observer number that matches files of
 different kinds

---
 src/eprempy/eprem.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 1bd8802..bc12ad3 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -445,15 +445,19 @@ def _build_datapath(
     directory: pathlib.Path,
 ) -> pathlib.Path:
     """Create the full path to an observer's data file, if possible."""
-    for pattern in patterns:
-        filenames = list(directory.glob(pattern))
-        if len(filenames) == 1:
-            return paths.fullpath(directory / filenames[0], strict=True)
-        if len(filenames) > 1:
-            raise SourcePathError(
-                f"Cannot determine unique data path within {directory}"
-                f" from {pattern!r}"
-            ) from None
+    patterns = tuple(patterns)
+    filenames = {
+        filename
+        for pattern in patterns
+        for filename in directory.glob(pattern)
+    }
+    if len(filenames) == 1:
+        return paths.fullpath(directory / filenames.pop(), strict=True)
+    if len(filenames) > 1:
+        raise SourcePathError(
+            f"Cannot determine unique data path within {directory}"
+            f" from {patterns}"
+        ) from None
     raise SourcePathError(
         f"Cannot locate observer data within {directory}"
     ) from None
-- 
2.43.0


From dbae6608fc0825a370ee5941d9a775249d2f337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:41 +0000
Subject: [PATCH 065/126] fix: raise observable quantities to powers

---
 src/eprempy/observable/_objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index bb784c0..45ee28c 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -560,7 +560,9 @@ class Quantity:
     def _apply(self, operator, other, *attrs):
         """Apply a standard algebraic operator."""
         def __f(user: Arguments):
-            return operator(self[user], other[user])
+            this = self[user]
+            that = other[user] if isinstance(other, Quantity) else other
+            return operator(this, that)
         context = Context(__f, self.context.axes, self.context.grid)
         return Quantity(context, *attrs)
 
-- 
2.43.0


From b9b3919560ad041f134e370151b3932abc8d0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 066/126] fix: provide every observable quantity that the
 collection lists

---
 src/eprempy/observable/_interfaces.py | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index aac0451..f95b572 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1536,6 +1536,40 @@ class Quantities(collections.abc.Mapping):
             assumptions=user.assumptions,
         )
 
+    @property
+    def ubmag(self):
+        """The product of the velocity- and magnetic-field magnitudes."""
+        return self._implement(
+            self._ubmag,
+            self.umag.unit * self.bmag.unit,
+            self.umag.dimensions,
+        )
+
+    def _ubmag(self, user: Arguments):
+        """Callback method for the product of flow and field magnitudes."""
+        return self.functions.ubmag(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
+    @property
+    def udotb(self):
+        """The scalar product of the velocity and magnetic fields, U·B."""
+        return self._implement(
+            self._udotb,
+            self.ur.unit * self.br.unit,
+            self.ur.dimensions,
+        )
+
+    def _udotb(self, user: Arguments):
+        """Callback method for U·B."""
+        return self.functions.udotb(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
     @property
     def angle(self):
         """The angle between the magnetic- and velocity-field vectors."""
-- 
2.43.0


From ae42d7fc55a46a4ba66f785818d2a1cd7c1142c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 067/126] fix: select energy bins of the accumulated integral
 flux

---
 src/eprempy/observable/_interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index f95b572..4f5fb77 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -821,7 +821,7 @@ class Implementations:
 
     def _integrate_flux_slice(self, flux, bins: slice):
         energy = self.axes['energy']
-        ie = energy.indices[bins]
+        ie = energy.indices
         e0 = self.energy(energy=ie)
         em = self.energy(energy=ie.shift(-1, floor=0))
         de = physical.array(
@@ -829,7 +829,7 @@ class Implementations:
             unit=e0.unit,
             axes={'energy': energy},
         )
-        return numpy.cumsum(flux * de, axis=-1)
+        return numpy.cumsum(flux * de, axis=-1)[..., bins]
 
     def _check_interp(
         self,
-- 
2.43.0


From 76610cbb7e36807a874b3d5fba924826d8cea87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 068/126] fix: give the flow angle the axes of the observed
 times and shells

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 4f5fb77..b093bb5 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -392,7 +392,7 @@ class Implementations:
         return physical.array(
             numpy.arccos(arg),
             unit='rad',
-            axes=self.dataset.ur.axes,
+            axes=ratio.axes,
         )
 
     def uperp(
-- 
2.43.0


From 4f0f4faedb052b3645d113908d1c57c50ce28e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 069/126] fix: observe the acceleration rate at a single shell

---
 src/eprempy/observable/_interfaces.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index b093bb5..14eace4 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -566,10 +566,12 @@ class Implementations:
 
     def _compute_ar(self, shell=None, species=None) -> physical.Array:
         """Helper for `_ar`."""
-        s = (
-            shell if isinstance(shell, numeric.index.Sequence)
-            else self.axes['shell'].index()
-        )
+        if shell is None:
+            s = self.axes['shell'].index()
+        elif isinstance(shell, numeric.index.Value):
+            s = numeric.index.sequence([int(shell)])
+        else:
+            s = shell
         s1 = s.shift(1, ceil=len(self.axes['shell'])-1)
         s2 = s.shift(-1, floor=0)
         ur1 = self.ur(shell=s1)
-- 
2.43.0


From bf55405694c490132ccf17a9e71ba8d32dde5f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 070/126] fix: interpolate to a radius that is stored at one of
 the times

---
 src/eprempy/observable/_interfaces.py | 4 ++--
 src/eprempy/observable/_objects.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 14eace4..9c3ce0a 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -2010,10 +2010,10 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    ndim = reference.ndim
+    if ndim == 1 and target in reference:
         idx = container.nearest(reference, target).index
         return array[idx]
-    ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 45ee28c..e112bc8 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -143,10 +143,10 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    ndim = reference.ndim
+    if ndim == 1 and target in reference:
         idx = container.nearest(reference, target).index
         return array[idx]
-    ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
-- 
2.43.0


From 44032401307622b00b4f0a39bf473a7a97f22700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 071/126] fix: interpolate over radius before interpolating
 over time

---
 src/eprempy/observable/_interfaces.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 9c3ce0a..c8e67bf 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -954,7 +954,9 @@ class Implementations:
             # dimensions.
             return from_axis
         from_grid = self._get_grid_interpolant(x, assumptions, 'radius')
-        return {**from_axis, **from_grid}
+        # NOTE: The radius at each shell depends on time, so radial interpolation
+        # must precede interpolation over time.
+        return {**from_grid, **from_axis}
 
     def _get_axis_interpolant(self, x: physical.Array, assumptions: dict):
         """Compute interpolation information from an axis object."""
-- 
2.43.0


From 234b699a343664f0b7dd1202a3395144dd964905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 072/126] fix: interpolate rigidity and mean free path over
 energy

---
 src/eprempy/observable/_interfaces.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index c8e67bf..346bf10 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -472,6 +472,7 @@ class Implementations:
         self,
         species=None,
         energy=None,
+        assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the magnetic rigidity.
 
@@ -480,13 +481,14 @@ class Implementations:
         kinetic energy. Finally, it divides the momentum by the particle charge
         to get rigidity.
         """
-        # NOTE: Intermediate methods have already restricted the result via
-        # subscription or interpolation.
-        return self._compute_rigidity(
+        # NOTE: We first compute the result at all energies in case we need to
+        # interpolate over energy.
+        rigidity = self._compute_rigidity(
             self.mass(species=species),
             self.charge(species=species),
-            self.energy(energy=energy),
+            self.energy(),
         )
+        return self._observe(rigidity, assumptions, energy=energy)
 
     def _compute_rigidity(
         self,
@@ -525,16 +527,16 @@ class Implementations:
         assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the mean free path."""
-        e = self.energy(energy=energy)
+        e = self.energy()
         m = self.mass(species=species)
         q = self.charge(species=species)
-        rg = self._compute_rigidity(m, q, e)
+        rg = self.rigidity(species, energy, assumptions)
         if not isinstance(e, physical.Array):
             raise TypeError(f"Wrong type for energy: {type(e)}")
         e0 = physical.array(
             [float(self.constants['MeV'])],
             unit=e.unit,
-            axes=e.axes
+            axes={'energy': rg.axes['energy']},
         )
         rg0 = self._compute_rigidity(m, q, e0)
         r0 = self.constants['au'].asscalar
@@ -1658,6 +1660,7 @@ class Quantities(collections.abc.Mapping):
         return self.functions.rigidity(
             species=user.species,
             energy=user.energy,
+            assumptions=user.assumptions,
         )
 
     @property
-- 
2.43.0


From 9f3973ce238a4b0077bc868e93a93654a210969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 073/126] fix: refuse coordinates outside the range of every
 observable quantity

---
 src/eprempy/observable/_objects.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index e112bc8..ead5559 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -335,7 +335,14 @@ class Context:
             if key in parsed:
                 x = self.axes[key]
                 v = parsed[key].withunit(x.unit)
-                w = (float(i) for i in v)
+                w = tuple(float(i) for i in v)
+                a = numpy.array(x.data)
+                lo, hi = a.min(), a.max()
+                if not all(lo <= i <= hi for i in w):
+                    raise ValueError(
+                        f"Cannot interpolate {key!r} to {v}"
+                        f". Each value must be in [{lo}, {hi}]"
+                    ) from None
                 idx = numeric.index.restrict(x, *w, axis=0)
                 indexed[key] = numeric.index.sequence(idx)
         if 'radius' in parsed:
-- 
2.43.0


From 9a485279ae6e8ce71cf9779ce4aaea4180b90b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 074/126] fix: allow interpolation to the first or last
 coordinate

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 346bf10..7a84037 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1057,7 +1057,7 @@ def _check_interpolation_bounds(
     """Raise an exception if `value` is not bounded by `reference`."""
     a = numpy.min(reference)
     b = numpy.max(reference)
-    if not a < value < b:
+    if not a <= value <= b:
         sv = f"{float(value):6.4g} {str(value.unit)}"
         sa = f"{float(a):6.4g} {str(reference.unit)}"
         sb = f"{float(b):6.4g} {str(reference.unit)}"
-- 
2.43.0


From e45249c3bc6d2a3b83a391d2f18df2dc86dacf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 075/126] fix: refuse shells outside the dataset

---
 src/eprempy/observable/_objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index ead5559..7a90175 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -319,6 +319,9 @@ class Context:
             try:
                 p = self._parse_user_arg(k, v)
             except physical.AxisValueError:
+                if k not in {'time', 'energy', 'mu'}:
+                    # Interpolation over other axes is meaningless.
+                    raise
                 # NOTE: We are here because `k` is the name of an axis but `v`
                 # is not a value in the corresponding axis array. We will
                 # therefore indicate to downstream code that it needs to
-- 
2.43.0


From c28e060ca9a68964be414ff0faa4521d6ec60f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 076/126] fix: observe at a radius given in any unit of length

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 7a84037..03d0ac5 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -998,7 +998,7 @@ class Implementations:
         except StopIteration:
             return interpolants
         if value := assumptions.get(key):
-            m = quantity.measure(value).withunit(str(self.system))
+            m = quantity.measure(value).withunit(c.unit)
             for v in m:
                 _check_interpolation_bounds(name, v, a)
             interpolants[key] = Interpolant(
-- 
2.43.0


From 929f16e0a731e3bce00e5ecb7651d278da770f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 077/126] fix: refuse shells with a unit other than one of
 length

---
 src/eprempy/observable/_objects.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 7a90175..fad9c95 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -484,6 +484,11 @@ class Quantity:
         s = quantity.measure(shell)
         if not quantity.isindexlike(s) and s.unit.quantity == 'length':
             return 'radius', physical.coordinates(s)
+        if s.unit != '1':
+            raise ValueError(
+                f"Cannot observe shells at {s}"
+                ": the unit must be a unit of length or unity"
+            ) from None
         return 'shell', physical.points(numpy.array(s))
 
     def __eq__(self, other):
-- 
2.43.0


From b0309b089f05549f63d3dc2e845d47dd2e921241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 078/126] fix: interpolate to the first or last coordinate in
 any compatible unit

---
 src/eprempy/observable/_interfaces.py | 7 ++++---
 src/eprempy/observable/_objects.py    | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 03d0ac5..df09967 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -974,7 +974,7 @@ class Implementations:
                 for v in m:
                     _check_interpolation_bounds(key, v, a)
                 interpolants[key] = Interpolant(
-                    targets=numpy.array(m),
+                    targets=numpy.clip(m, numpy.min(a), numpy.max(a)),
                     reference=self.grid[key][idx],
                 )
         return interpolants
@@ -1002,7 +1002,7 @@ class Implementations:
             for v in m:
                 _check_interpolation_bounds(name, v, a)
             interpolants[key] = Interpolant(
-                targets=numpy.array(m),
+                targets=numpy.clip(m, numpy.min(a), numpy.max(a)),
                 reference=c,
             )
         return interpolants
@@ -1057,7 +1057,8 @@ def _check_interpolation_bounds(
     """Raise an exception if `value` is not bounded by `reference`."""
     a = numpy.min(reference)
     b = numpy.max(reference)
-    if not a <= value <= b:
+    bounds = [float(a), float(b)]
+    if not (a <= value <= b or numpy.isclose(bounds, float(value), atol=0).any()):
         sv = f"{float(value):6.4g} {str(value.unit)}"
         sa = f"{float(a):6.4g} {str(reference.unit)}"
         sb = f"{float(b):6.4g} {str(reference.unit)}"
diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index fad9c95..76d036e 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -341,7 +341,8 @@ class Context:
                 w = tuple(float(i) for i in v)
                 a = numpy.array(x.data)
                 lo, hi = a.min(), a.max()
-                if not all(lo <= i <= hi for i in w):
+                near = numpy.isclose(w, lo, atol=0) | numpy.isclose(w, hi, atol=0)
+                if not all(lo <= i <= hi or ok for i, ok in zip(w, near)):
                     raise ValueError(
                         f"Cannot interpolate {key!r} to {v}"
                         f". Each value must be in [{lo}, {hi}]"
-- 
2.43.0


From 32611a2d2d26a4edc6d4b24829204d11b2cacee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 079/126] fix: parse indented comments, blank lines, and values
 with an equals sign

---
 src/eprempy/parameter/_config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index b92a6b8..c823755 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -253,11 +253,10 @@ def _parse_config(
     cmnt = comments or ()
     with filepath.open('r') as fp:
         for line in fp:
-            line = line.rstrip('\n')
-            if line == '' or line == '\n' or line[0] in cmnt:
-                continue
             tmp = paths.strip_inline_comments(line, cmnt)
-            key, value = tmp.split('=')
+            if not tmp:
+                continue
+            key, value = tmp.split('=', maxsplit=1)
             pairs[key.strip()] = value.strip()
     return pairs
 
-- 
2.43.0


From 91081ba2ba30020308cbd8a616c2c3c624dbaec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 080/126] fix: convert single numbers and blank lists for array
 parameters

---
 src/eprempy/parameter/_config.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index c823755..e09bc66 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -354,10 +354,14 @@ def soft_convert(
 
 
 def stringlist(string: str) -> list:
-    """Convert a string representation of a list to a list"""
+    """Convert a string representation of a list to a list.
+
+    This function treats a string that represents a single number as a
+    representation of a one-item list.
+    """
     if not (string.startswith('[') and string.endswith(']')):
-        raise TypeError(f"Can't convert {string!r} to a list") from None
-    inside = string.strip('[]')
+        return [cast(string)]
+    inside = string.strip('[]').strip()
     if not inside:
         return []
     items = [item.strip(" ''") for item in inside.split(',')]
-- 
2.43.0


From 49698f794330c6b19fc6ecc8595bd48a338916fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 081/126] fix: report only differing parameters when comparing
 config files

---
 src/eprempy/parameter/_config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index e09bc66..3025a8d 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -208,7 +208,7 @@ class ConfigFile(collections.abc.Mapping):
             if isinstance(x, ConfigFile):
                 return x
             if isinstance(x, (str, pathlib.Path)):
-                return ConfigFile(x, **kwargs)
+                return configfile_factory(x, **kwargs)
             raise TypeError(
                 "Argument must be a path-like object"
                 f" or an instance of this class (got {type(x)})"
@@ -219,8 +219,8 @@ class ConfigFile(collections.abc.Mapping):
             1: set(other) - set(self),
         }
         full = {
-            0: dict(set(self.items())),
-            1: dict(set(other.items())),
+            0: dict(set(self.items()) - set(other.items())),
+            1: dict(set(other.items()) - set(self.items())),
         }
         return ConfigDiff(keys=keys, full=full)
 
-- 
2.43.0


From 3077e88cdfe644d77814e63e989fcf647bcf6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 082/126] fix: evaluate default parameter values equal to zero

---
 src/eprempy/parameter/_config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 3025a8d..2a410c3 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -49,7 +49,8 @@ class Defaults(collections.abc.Mapping):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := cast(current, strict=False):
+        value = cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -72,7 +73,8 @@ class Defaults(collections.abc.Mapping):
         interior = definition.strip('[]')
         if self._struct_member.match(interior):
             return [self._evaluate(interior.replace('config.', ''))]
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.expression(definition.replace('config.', ''))
-- 
2.43.0


From 14966c8322ed2e2ab1951f10cbf50ecf62826a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 083/126] fix: compute default parameter values from the
 configured ones

---
 src/eprempy/parameter/_config.py  | 11 +++++++++++
 src/eprempy/parameter/_runtime.py |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 2a410c3..b52c9a4 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -3,6 +3,7 @@ Support for working with EPREM runtime configuration files.
 """
 
 import collections.abc
+import copy
 import functools
 import numbers
 import pathlib
@@ -40,6 +41,16 @@ class Defaults(collections.abc.Mapping):
             return self._evaluate(name)
         raise KeyError(f"Unknown parameter {name!r}")
 
+    def given(
+        self,
+        values: typing.Mapping[str, typing.Any],
+    ) -> typing.Dict[str, typing.Any]:
+        """Compute the value of every parameter, given the values of some."""
+        updated = copy.copy(self)
+        updated._mapping = {**self._mapping, **values}
+        computed = {k: updated[k] for k in updated if k not in values}
+        return {**computed, **values}
+
     _special_cases = {
         'N_PROCS': None,
         'third': 1/3,
diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index f2efe0d..15204d5 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -223,7 +223,7 @@ def interface_factory(*args, **kwargs):
             for key, parameter in defaults.reference.items()
             if key in cfgfile
         }
-        init.update(user)
+        init.update(defaults.given(user))
     base = {
         key: {'unit': _metadata.UNITS.get(key), 'value': value}
         for key, value in init.items()
-- 
2.43.0


From e568ce3da373f6d6cb4ab842fa3e27582b690418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 084/126] fix: compare config files that have no differences

---
 src/eprempy/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 51783cb..18e648b 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -92,7 +92,9 @@ def compare_config_files(
     if not files:
         raise UserError("Nothing to compare") from None
     args = _build_arg_dict(files, source=source, diff=diff, names=names)
-    topkeys = next(list(v.keys()) for v in args.values() if v)
+    topkeys = next((list(v.keys()) for v in args.values() if v), None)
+    if topkeys is None:
+        return
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
     pwidth = max(len(k) for k in args)
-- 
2.43.0


From ea6e6f5909ae36105b8d9338fb71062f6eeb533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 085/126] fix: compare every digit of array parameters

---
 src/eprempy/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 18e648b..1547b13 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -199,7 +199,8 @@ def _format_arg_string(arg):
 def _get_arg_value(arg):
     """Extract this argument's value, if necessary."""
     if isinstance(arg, measured.Object):
-        return arg.data[0] if len(arg.data) == 1 else arg.data
+        data = arg.data.tolist()
+        return data[0] if len(data) == 1 else data
     return arg
 
 
-- 
2.43.0


From c3446e719656056998d02dbe73731299fe416c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 086/126] fix: compare config files to default values from the
 given source

---
 src/eprempy/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 1547b13..2352074 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -132,14 +132,14 @@ def _build_arg_dict(
     names: bool=False,
 ) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
     """Build a `dict` of parameter values."""
-    default = parameter.interface()
+    default = parameter.interface(srcdir=source)
     normalized = _normalize_paths(files)
     if names:
         mapped = normalized
     else:
         mapped = {k: str(i) for i, k in enumerate(normalized)}
     targets = {
-        relpath: parameter.interface(abspath)
+        relpath: parameter.interface(abspath, source)
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-- 
2.43.0


From a34e8d81ebff0c6c092da66412a4d8af39be8d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 087/126] fix: omit parameters without a default value from a
 generated config file

---
 src/eprempy/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 2352074..4c6ebbc 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -61,7 +61,7 @@ def generate_config_file(
     ]
     values = [
         f"{key}={_get_arg_value(default[key])}\n"
-        for key in keys
+        for key in keys if default[key] is not None
     ]
     footer = [
         f"# --------------------------------\n",
-- 
2.43.0


From 22a62d8592c1eeed4033f231284e528c4cdefda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 088/126] fix: refuse to represent a multi-valued variable as a
 single number

---
 src/eprempy/parameter/_runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index 15204d5..620b2ad 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -73,7 +73,7 @@ class Variable(physical.Vector[real.ValueType]):
     def _as_scalar(self, f: typing.Callable, **kwargs):
         """Return the result of `f` as a `~Scalar`."""
         try:
-            data = f(self.data[0], **kwargs)
+            data = f(self._singular(), **kwargs)
         except TypeError as err:
             raise TypeError(
                 f"Cannot apply {f.__name__} to size-{self.size} variable"
@@ -83,7 +83,7 @@ class Variable(physical.Vector[real.ValueType]):
     def _as_builtin(self, t: T):
         """Convert this instance to a built-in numeric type."""
         try:
-            result = t(self.data[0])
+            result = t(self._singular())
         except TypeError as err:
             raise TypeError(
                 f"Cannot convert a size-{self.size} variable to {t!r}"
-- 
2.43.0


From 304e326857a61ad2afea804200cda01e4bb6f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 089/126] fix: create the script that operates on a project

---
 src/eprempy/_project_main.py | 8 ++++----
 src/eprempy/project.py       | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/_project_main.py b/src/eprempy/_project_main.py
index f1dcf05..e9a76db 100644
--- a/src/eprempy/_project_main.py
+++ b/src/eprempy/_project_main.py
@@ -5,10 +5,10 @@ Create and modify runs in this EPREM project.
 import argparse
 import typing
 
-from . import etc
-from . import interfaces
-from . import project
-from . import paths
+from eprempy import etc
+from eprempy import interfaces
+from eprempy import project
+from eprempy import paths
 
 
 FILEPATH = paths.normalize(__file__)
diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 2675320..621e282 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -790,12 +790,12 @@ class Interface:
         with (DIRECTORY / '_project_main.py').open('r') as rp:
             lines = rp.readlines()
         payload = lines.copy()
-        import_line = lines.index(f'import {__name__}\n')
+        import_line = lines.index(f'from {__package__} import etc\n')
         path_spec = (
             "import pathlib\n"
             "import sys\n"
             "\n"
-            f"sys.path.append({str(DIRECTORY)!r})\n"
+            f"sys.path.append({str(DIRECTORY.parent)!r})\n"
             "\n"
         )
         payload.insert(import_line, path_spec)
-- 
2.43.0


From 306231c3a206e3a5cdaca4f5a19ea2d3a8f386f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 090/126] fix: run with the names and input files that the
 project defines

---
 src/eprempy/project.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 621e282..ca5cbf2 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -874,6 +874,7 @@ class Interface:
         self.log.update_directory(new)
         # Update the project metadata.
         self._update_metadata(str(old), str(new), new / '.eprem.conf')
+        self._attrs = self._restore_project(new)
         # Echo success, if applicable.
         if not silent:
             if self.root.parent == old.parent == pathlib.Path.cwd():
@@ -939,7 +940,7 @@ class Interface:
         silent: bool=False,
     ) -> None:
         """Create a single run."""
-        prjcfg = self.root / 'inputs' / config
+        prjcfg = self._attrs.inputs / config
         inputs = prjcfg if prjcfg.is_file() else paths.fullpath(config, strict=True)
         shutil.copy(inputs, path / self._attrs.config)
         branch = path.parent.parent
@@ -948,7 +949,7 @@ class Interface:
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
             f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} eprem.cfg"
+            f"-n {nproc or 1} {eprem} {self._attrs.config}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0


From 6ecafa0296f49a93c36dd4830f9088b8fac9a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 091/126] fix: a project may have a single named branch

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index ca5cbf2..4668238 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -592,7 +592,8 @@ class Attrs:
 
     def __init__(self, path: paths.PathLike, **kwargs) -> None:
         root = paths.normalize(path)
-        branches = tuple(kwargs.get('branches') or ())
+        branches = kwargs.get('branches') or ()
+        branches = (branches,) if isinstance(branches, str) else tuple(branches)
         config = str(kwargs.get('config') or 'eprem.cfg')
         inputs = paths.localize(kwargs.get('inputs') or 'inputs')
         output = paths.localize(kwargs.get('output') or 'eprem.log')
-- 
2.43.0


From e42e824d75417a0c89861b49ed5583be748f43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 092/126] fix: report only directories as runs

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 4668238..ae7a8bc 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -521,12 +521,13 @@ class RunPaths(collections.abc.Collection):
         if not self._branches:
             return {
                 run.name: set()
-                for run in (self.root / self.base).glob('*')
+                for run in (self.root / self.base).glob('*') if run.is_dir()
             }
         base = {
             run.name: set()
             for branch in self._branches
             for run in (self.root / branch / self.base).glob('*')
+            if run.is_dir()
         }
         for run, branches in base.items():
             branches.update(
-- 
2.43.0


From 0d0bd44a11539376034b98c5e018a693ce94644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 093/126] fix: select branches by their full names

---
 src/eprempy/project.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index ae7a8bc..7c32d6d 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -558,7 +558,10 @@ class RunPaths(collections.abc.Collection):
             {branches} if isinstance(branches, str)
             else set(branches)
         )
-        return [d for d in self.listing if d.parent.name in subset]
+        return [
+            d for branch, d in zip(self._branches or (), self.listing)
+            if branch in subset
+        ]
 
     @property
     def listing(self):
-- 
2.43.0


From 73e36512ef0ecb7c3ad7d4884b769cff59792765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 094/126] fix: never create, rename, or remove anything but the
 named runs

---
 src/eprempy/project.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 7c32d6d..83e66c4 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -492,12 +492,32 @@ class RunPaths(collections.abc.Collection):
         ----------
         *names : string
             Zero or more names of runtime directories to create.
+
+        pattern : string, optional
+            The name of an existing runtime directory, or a pattern to match
+            against the names of existing runtime directories.
+
+        Raises
+        ------
+        PathTypeError
+            A name or pattern does not refer to members of the runtime
+            directories.
         """
+        for name in (names if pattern is None else (pattern, *names)):
+            this = pathlib.Path(name)
+            if this.name != str(name) or this.name in {'', '..'}:
+                raise paths.PathTypeError(
+                    f"{str(name)!r} is not the name of a run"
+                ) from None
         rundirs = self._get_rundirs(branches)
-        if pattern:
-            return [
+        if pattern is not None:
+            exact = [
+                path for path in (rundir / pattern for rundir in rundirs)
+                if path.exists() and path.parent in rundirs
+            ]
+            return exact or [
                 path for rundir in rundirs
-                for path in rundir.glob(pattern)
+                for path in rundir.glob(pattern) if path.parent == rundir
             ]
         if len(names) == 1:
             name = names[0]
-- 
2.43.0


From e99fb918f3be6b12521e90be651879858a5dae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 095/126] fix: update only the leading part of log entries when
 renaming a project

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 83e66c4..7526e6a 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -120,7 +120,8 @@ class RunLog(collections.abc.Mapping):
         source = str(self.path.parent)
         self._path = new / self.name
         for key in self:
-            self.mv(key, key.replace(source, str(new)))
+            if key.startswith(source):
+                self.mv(key, key.replace(source, str(new), 1))
         return self
 
     @typing.overload
-- 
2.43.0


From 2d32f45e4ba0e2099a04cdeea7670ca94db479d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 096/126] fix: a re-opened project equals the original

---
 src/eprempy/project.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 7526e6a..2cf207b 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -699,6 +699,12 @@ class Attrs:
         """The local path component of the project log file."""
         return self._public['logname']
 
+    def __eq__(self, other) -> bool:
+        """True if two instances have the same values."""
+        if isinstance(other, Attrs):
+            return self._public == other._public
+        return NotImplemented
+
     def __repr__(self) -> str:
         """An unambiguous representation of this object."""
         display = {k: v for k, v in self._public.items() if k != 'branches'}
-- 
2.43.0


From 45f8fef85bf819fc4b6993c8cded199fd3011a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 097/126] fix: reduce an array over any axes that numpy accepts

---
 src/eprempy/real/_array.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index ea4f4bd..ce904b9 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -286,36 +286,36 @@ def squeeze(x: Array[ValueType], **kwargs):
 
 
 @Array.implements(numpy.mean)
-def mean(x: Array[ValueType], **kwargs):
+def mean(x: Array[ValueType], /, axis=None, *args, **kwargs):
     """Compute the mean of the underlying array."""
-    data = x.array.mean(**kwargs)
-    axis = kwargs.get('axis')
-    if axis is None:
-        return data
-    ax = axis % x.ndim
-    dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-    return array_factory(data, dimensions=dimensions)
+    data = numpy.mean(x.array, axis, *args, **kwargs)
+    return _apply_reduction(x, data, axis)
 
 
 @Array.implements(numpy.sum)
-def sum(x: Array[ValueType], **kwargs):
+def sum(x: Array[ValueType], /, axis=None, *args, **kwargs):
     """Compute the sum of the underlying array."""
-    data = x.array.sum(**kwargs)
-    axis = kwargs.get('axis')
-    if axis is None:
+    data = numpy.sum(x.array, axis, *args, **kwargs)
+    return _apply_reduction(x, data, axis)
+
+
+def _apply_reduction(x: Array[ValueType], data, axis):
+    """Assign dimensions to the result of reducing `x` over `axis`."""
+    if numpy.ndim(data) == 0:
         return data
-    if 'keepdims' in kwargs:
+    if data.ndim == x.ndim:
         return array_factory(data, dimensions=x.dimensions)
-    ax = x.ndim + axis if axis < 0 else axis
-    dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
+    axes = axis if isinstance(axis, tuple) else (axis,)
+    reduced = {ax % x.ndim for ax in axes}
+    dimensions = [d for i, d in enumerate(x.dimensions) if i not in reduced]
     return array_factory(data, dimensions=dimensions)
 
 
 @Array.implements(numpy.cumsum)
-def cumsum(x: Array[ValueType], **kwargs):
+def cumsum(x: Array[ValueType], /, axis=None, *args, **kwargs):
     """Compute the cumulative sum of the underlying array."""
-    data = x.array.cumsum(**kwargs)
-    if kwargs.get('axis') is None:
+    data = numpy.cumsum(x.array, axis, *args, **kwargs)
+    if axis is None:
         return data
     return array_factory(data, dimensions=x.dimensions)
 
-- 
2.43.0


From 27e654f2f3a03474a89cd39e3277122b0cc8fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 098/126] fix: squeeze only the given axes of an array

---
 src/eprempy/real/_array.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index ce904b9..111c18a 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -276,13 +276,14 @@ def array_equal(
 
 
 @Array.implements(numpy.squeeze)
-def squeeze(x: Array[ValueType], **kwargs):
+def squeeze(x: Array[ValueType], /, axis=None):
     """Called for numpy.squeeze(x)."""
-    data = numpy.squeeze(x.array, **kwargs)
+    data = numpy.squeeze(x.array, axis)
     if data.ndim == 0:
         return float(data)
-    dimensions = [d for d, n in x.shapemap.items() if n != 1]
-    return array_factory(data, dimensions=dimensions)
+    if axis is None:
+        axis = tuple(i for i, n in enumerate(x.shape) if n == 1)
+    return _apply_reduction(x, data, axis)
 
 
 @Array.implements(numpy.mean)
-- 
2.43.0


From acc7808d9bd9ddd185697f08872f9b2832942410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 099/126] fix: compute the extreme values of physical arrays

---
 src/eprempy/real/_array.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 111c18a..7339ea4 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -300,6 +300,22 @@ def sum(x: Array[ValueType], /, axis=None, *args, **kwargs):
     return _apply_reduction(x, data, axis)
 
 
+@Array.implements(numpy.amin)
+@Array.implements(numpy.min)
+def npmin(x: Array[ValueType], /, axis=None, *args, **kwargs):
+    """Compute the minimum value of the underlying array."""
+    data = numpy.min(x.array, axis, *args, **kwargs)
+    return _apply_reduction(x, data, axis)
+
+
+@Array.implements(numpy.amax)
+@Array.implements(numpy.max)
+def npmax(x: Array[ValueType], /, axis=None, *args, **kwargs):
+    """Compute the maximum value of the underlying array."""
+    data = numpy.max(x.array, axis, *args, **kwargs)
+    return _apply_reduction(x, data, axis)
+
+
 def _apply_reduction(x: Array[ValueType], data, axis):
     """Assign dimensions to the result of reducing `x` over `axis`."""
     if numpy.ndim(data) == 0:
-- 
2.43.0


From e1d5d58e4940b2f1ddbc8d71e0fd4895aab40a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 100/126] fix: integrate an array along any axis that numpy
 accepts

---
 src/eprempy/real/_array.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 7339ea4..de739f4 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -381,16 +381,13 @@ def _apply_gradient(
 
 
 @Array.implements(numpy.trapz)
-def trapz(x: Array[ValueType], *args, **kwargs):
+def trapz(y: Array[ValueType], /, x=None, dx=1.0, axis=-1):
     """Integrate the array via the composite trapezoidal rule."""
-    data = numpy.trapz(x.array, *args, **kwargs)
-    axis = kwargs.get('axis')
-    if axis is None:
-        dimensions = x.dimensions[:-1]
-    else:
-        ax = axis % x.ndim
-        dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-    return array_factory(data, dimensions=dimensions)
+    points = x.array if isinstance(x, Array) else x
+    if isinstance(y, Array):
+        data = numpy.trapz(y.array, points, dx, axis)
+        return _apply_reduction(y, data, axis)
+    return numpy.trapz(y, points, dx, axis)
 
 
 @typing.overload
-- 
2.43.0


From e576aa9706374e6ff09310ca517d9ee1f5ac64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 101/126] fix: reduce physical objects over any axes that numpy
 accepts

---
 src/eprempy/physical/_operations.py | 75 ++++++++++++-----------------
 1 file changed, 32 insertions(+), 43 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index f21e374..cff4e72 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -13,6 +13,7 @@ from ._scalar import Scalar
 from ._vector import Vector
 from ._tensor import Tensor
 from ._array import Array
+from ._axis_factories import points_factory
 from ._object_factories import (
     scalar_factory,
     vector_factory,
@@ -521,7 +522,7 @@ def _apply_log(f, x: Measured[real.ValueType]):
 
 @objects(numpy.squeeze)
 @from_numpy
-def squeeze(x: Measured[real.ValueType], **kwargs):
+def squeeze(x: Measured[real.ValueType], /, *args, **kwargs):
     """Remove singular axes.
 
     Notes
@@ -534,72 +535,60 @@ def squeeze(x: Measured[real.ValueType], **kwargs):
     """
     if isinstance(x, Scalar):
         return x
-    data = numpy.squeeze(x.data, **kwargs)
-    if isinstance(data, (numbers.Real)):
-        return scalar_factory(data, unit=x.unit)
-    if isinstance(data, numpy.ndarray) and data.ndim == 0:
-        return scalar_factory(numpy.ravel(data)[0], unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _apply_reduction(numpy.squeeze, x, *args, **kwargs)
 
 
+@objects(numpy.amin)
 @objects(numpy.min)
 @from_numpy
-def npmin(x: Measured[real.ValueType], **kwargs):
+def npmin(x: Measured[real.ValueType], /, *args, **kwargs):
     """Compute the minimum value of `x`."""
-    data = numpy.min(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _apply_reduction(numpy.min, x, *args, **kwargs)
 
 
+@objects(numpy.amax)
 @objects(numpy.max)
 @from_numpy
-def npmax(x: Measured[real.ValueType], **kwargs):
+def npmax(x: Measured[real.ValueType], /, *args, **kwargs):
     """Compute the maximum value of `x`."""
-    data = numpy.max(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _apply_reduction(numpy.max, x, *args, **kwargs)
 
 
 @objects(numpy.mean)
 @from_numpy
-def mean(x: Measured[real.ValueType], **kwargs):
+def mean(x: Measured[real.ValueType], /, *args, **kwargs):
     """Compute the mean of `x`."""
-    data = numpy.mean(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _apply_reduction(numpy.mean, x, *args, **kwargs)
 
 
 @objects(numpy.sum)
 @from_numpy
-def sum(x: Measured[real.ValueType], **kwargs):
+def sum(x: Measured[real.ValueType], /, *args, **kwargs):
     """Compute the sum of `x`."""
-    data = numpy.sum(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
+    return _apply_reduction(numpy.sum, x, *args, **kwargs)
+
+
+def _apply_reduction(f, x: Measured[real.ValueType], *args, **kwargs):
+    """Reduce `x` over all axes or over the given axes."""
+    return _get_reduced(x, f(x.data, *args, **kwargs), x.unit)
+
+
+def _get_reduced(x: Measured[real.ValueType], data, unit):
+    """Build an object from the result of reducing the data of `x`."""
+    if getattr(data, 'ndim', 0) == 0:
+        return scalar_factory(numpy.ravel(data)[0], unit=unit)
+    metadata = {'unit': unit}
     if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
+        metadata['axes'] = {
+            d: x.axes[d] if n == x.shapemap[d] else points_factory(range(n))
+            for d, n in data.shapemap.items()
+        }
     return numeric.Result(data, **metadata)
 
 
 @objects(numpy.cumsum)
 @from_numpy
-def cumsum(x: Measured[real.ValueType], **kwargs):
+def cumsum(x: Measured[real.ValueType], /, axis=None, *args, **kwargs):
     """Compute the cumulative sum of `x`.
 
     Notes
@@ -616,8 +605,8 @@ def cumsum(x: Measured[real.ValueType], **kwargs):
       exception. This behavior is also consistent with the plain `numpy.cumsum`
       implementation.
     """
-    data = numpy.cumsum(x.data, **kwargs)
-    if isinstance(x, (Scalar, Vector)) or 'axis' not in kwargs:
+    data = numpy.cumsum(x.data, axis, *args, **kwargs)
+    if isinstance(x, (Scalar, Vector)) or axis is None:
         return vector_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
-- 
2.43.0


From ede54a5d1fd387bd72e37ed3667f81d761361c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 102/126] fix: divide gradients by the unit of any measured
 spacing

---
 src/eprempy/physical/_operations.py | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index cff4e72..5bcaca3 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -6,6 +6,7 @@ import numpy
 
 from .. import etc
 from ..measured import Object as Measured
+from .. import metric
 from .. import numeric
 from .. import quantity
 from .. import real
@@ -13,6 +14,7 @@ from ._scalar import Scalar
 from ._vector import Vector
 from ._tensor import Tensor
 from ._array import Array
+from ._axis import Coordinates
 from ._axis_factories import points_factory
 from ._object_factories import (
     scalar_factory,
@@ -635,27 +637,25 @@ def gradient(x: Measured[real.ValueType], *args, **kwargs):
         return []
     if not args:
         return _apply_gradient(x.unit, x, **kwargs)
-    diffs = []
-    units = []
-    for arg in args:
-        if isinstance(arg, Scalar):
-            diffs.append(float(arg))
-            units.append(arg.unit)
-        elif isinstance(arg, (Vector, Tensor, Array)):
-            diffs.append(numpy.array(arg))
-            units.append(arg.unit)
-        elif isinstance(arg, numbers.Real):
-            diffs.append(float(arg))
-            units.append('1')
-        else:
-            diffs.append(numpy.array(arg))
-            units.append('1')
+    spacings = [_get_spacing(arg) for arg in args]
+    diffs = [data for data, _ in spacings]
+    units = [unit for _, unit in spacings]
     u0 = units[0]
     if all(unit == u0 for unit in units[1:]):
         return _apply_gradient(x.unit / u0, x, *diffs, **kwargs)
     raise TypeError("Inconsistent units in gradient coordinates") from None
 
 
+def _get_spacing(x):
+    """Extract the data and unit of the spacing between samples."""
+    if isinstance(x, numbers.Real):
+        return float(x), metric.unit('1')
+    if isinstance(x, (Measured, Coordinates)):
+        y = x.data
+        return float(y) if isinstance(y, numbers.Real) else numpy.array(y), x.unit
+    return numpy.array(x), metric.unit('1')
+
+
 def _apply_gradient(unit, x, *args, **kwargs):
     """Helper for custom implementation of `numpy.gradient`."""
     gradient = numpy.gradient(numpy.array(x), *args, **kwargs)
-- 
2.43.0


From 3dfd5ed8fd4b27336e785a3d4bc1dbb6a9795e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 103/126] fix: a gradient has the type of the differentiated
 object

---
 src/eprempy/physical/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 5bcaca3..ffc724e 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -222,7 +222,7 @@ def from_numpy(operation):
     """Process the result of a numpy operation."""
     def wrapped(*args, **kwargs):
         result = operation(*args, **kwargs)
-        factory = _get_factory(*args)
+        factory = _get_factory(*args[:1])
         if isinstance(result, numeric.Result):
             return result.apply(factory)
         if isinstance(result, (list, tuple)):
-- 
2.43.0


From 8ada4c0f7bc3302cb6749dcdee03bb2e28ace001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 104/126] fix: multiply integrals by the unit of the spacing

---
 src/eprempy/physical/_operations.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index ffc724e..ed56eed 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -667,20 +667,22 @@ def _apply_gradient(unit, x, *args, **kwargs):
     return numeric.Result(gradient, **metadata)
 
 
-@Array.implements(numpy.trapz)
+@objects(numpy.trapz)
 @from_numpy
-def trapz(x: Measured[real.ValueType], *args, **kwargs):
-    """Integrate `x` via the composite trapezoidal rule."""
-    if isinstance(x, Scalar):
+def trapz(y: Measured[real.ValueType], /, x=None, dx=1.0, axis=-1):
+    """Integrate `y` via the composite trapezoidal rule."""
+    if isinstance(y, Scalar):
         raise TypeError(
             "Cannot apply numpy.trapz to a scalar object"
         ) from None
-    data = numpy.trapz(x.data, *args, **kwargs)
-    if isinstance(data, (numbers.Real, numpy.number)):
-        return data
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    if not isinstance(y, Measured):
+        raise PhysicalTypeError(y)
+    if x is None:
+        spacing, unit = _get_spacing(dx)
+        data = numpy.trapz(y.data, dx=spacing, axis=axis)
+    else:
+        points, unit = _get_spacing(x)
+        data = numpy.trapz(y.data, points, axis=axis)
+    return _get_reduced(y, data, y.unit * unit)
 
 
-- 
2.43.0


From e905b3677173537574fef5b8be1f004727b9c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 105/126] fix: raise the unit of a physical object to the given
 power in numpy.power

---
 src/eprempy/physical/_operations.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index ed56eed..95c3d09 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -412,16 +412,21 @@ def exponential(f, a, b, **kwargs):
     raise PhysicalTypeError(a, b)
 
 
-@from_numpy
-@Tensor.implements(numpy.power)
-@Vector.implements(numpy.power)
-@Array.implements(numpy.power)
+@objects(numpy.power)
 def power(a, b, **kwargs):
     """Called for numpy.power(a, b)."""
-    if isinstance(b, (Vector, Tensor, Array)) and not b.isunitless:
+    if isinstance(b, Measured) and not b.isunitless:
         raise ValueError(
             "Cannot compute a ** b unless b is unitless"
         ) from None
+    if isinstance(a, Measured):
+        if isinstance(b, (Measured, numbers.Real)):
+            return pow(a, b, **kwargs)
+        if not a.isunitless:
+            raise ValueError(
+                "Cannot compute a ** b when b is array-like"
+                " unless a is unitless"
+            ) from None
     x = a.data if isinstance(a, Measured) else a
     y = b.data if isinstance(b, Measured) else b
     return numpy.power(x, y, **kwargs)
-- 
2.43.0


From 0aeac93b9b9d99743c13e59e56f39bf0369fd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 106/126] fix: keep units in arithmetic with numpy operands on
 the left

---
 src/eprempy/physical/_operations.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 95c3d09..8188d65 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -98,36 +98,42 @@ def neg(a, /):
     return unary(numeric.operators.neg, a)
 
 
+@objects(numpy.add)
 @objects('add')
 def add(a, b, /):
     """Compute a + b."""
     return additive(numeric.operators.add, a, b)
 
 
+@objects(numpy.subtract)
 @objects('sub')
 def sub(a, b, /):
     """Compute a - b."""
     return additive(numeric.operators.sub, a, b)
 
 
+@objects(numpy.multiply)
 @objects('mul')
 def mul(a, b, /):
     """Compute a * b."""
     return multiplicative(numeric.operators.mul, a, b)
 
 
+@objects(numpy.true_divide)
 @objects('truediv')
 def truediv(a, b, /):
     """Compute a / b."""
     return multiplicative(numeric.operators.truediv, a, b)
 
 
+@objects(numpy.floor_divide)
 @objects('floordiv')
 def floordiv(a, b, /):
     """Compute a // b."""
     return multiplicative(numeric.operators.floordiv, a, b)
 
 
+@objects(numpy.mod)
 @objects('mod')
 def mod(a, b, /):
     """Compute a % b."""
@@ -276,8 +282,8 @@ def additive(f, a, b, /):
     if isinstance(b, Measured):
         if b.unit != '1' and isinstance(a, (numbers.Number, numpy.number)):
             raise PhysicalTypeError(a, b)
-    x = a if isinstance(a, Measured) else quantity.measure(a)
-    y = b if isinstance(b, Measured) else quantity.measure(b)
+    x = _measure(a)
+    y = _measure(b)
     if not (isinstance(x, Measured) and isinstance(y, Measured)):
         raise PhysicalTypeError(x, y)
     opr = numeric.CALLABLES.find(f)
@@ -358,13 +364,24 @@ def multiplicative(f, a, b):
             axes = b.axes
             return array_factory(data, unit=unit, axes=axes)
         return numeric.Result(f(a, b.data), unit=unit)
-    x = a if isinstance(a, Measured) else quantity.measure(a)
-    y = b if isinstance(b, Measured) else quantity.measure(b)
+    x = _measure(a)
+    y = _measure(b)
     if not (isinstance(x, Measured) and isinstance(y, Measured)):
         raise PhysicalTypeError(x, y)
     return multiplicative(f, x, y)
 
 
+def _measure(x):
+    """Create a measured operand from `x`, if possible."""
+    if isinstance(x, Measured):
+        return x
+    if isinstance(x, numpy.ndarray) and x.ndim == 0:
+        return scalar_factory(x.item())
+    if isinstance(x, numpy.ndarray) and x.ndim > 1:
+        return tensor_factory(x)
+    return quantity.measure(x)
+
+
 @from_builtin
 def exponential(f, a, b, **kwargs):
     """Compute an exponential binary operation."""
-- 
2.43.0


From 22bd621e22d058b599d0c81e888d1fdf981a8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 107/126] fix: do not replace methods of numpy functions by
 calls

---
 src/eprempy/numeric/_mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_mixins.py b/src/eprempy/numeric/_mixins.py
index 30c840d..eeb9da7 100644
--- a/src/eprempy/numeric/_mixins.py
+++ b/src/eprempy/numeric/_mixins.py
@@ -91,7 +91,7 @@ class Functions:
                 x._data if isinstance(x, Object)
                 else x for x in out
             )
-        if self._implements(ufunc):
+        if method == '__call__' and self._implements(ufunc):
             operator = self._FUNCTIONS[ufunc]
             return operator(*args, **kwargs)
         return self._apply_ufunc(ufunc, method, *args, **kwargs)
-- 
2.43.0


From a7d72ec465331509598d7f47444100e882f22b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 108/126] fix: round charges to the nearest integer when naming
 species

---
 src/eprempy/atomic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/atomic.py b/src/eprempy/atomic.py
index 24e9a56..2637326 100644
--- a/src/eprempy/atomic.py
+++ b/src/eprempy/atomic.py
@@ -153,7 +153,10 @@ def elements(
         raise TypeError(message)
     mass_idx = get_mass_indices(_nucleons, _mass)
     bases = [list(_nucleons.keys())[m] for m in mass_idx]
-    signs = [('+' if i > 0 else '-') * abs(int(i)) for i in _charge]
+    signs = [
+        ('+' if i > 0 else '-') * abs(round(float(i)))
+        for i in _charge
+    ]
     return [f"{b}{c}" for b, c in zip(bases, signs)]
 
 
-- 
2.43.0


From b16b86ed6a8d5e8c4028777f89434c7935345b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 109/126] fix: compute the symmetric difference of dimension
 names

Every use of `^` subtracted dimensions from a list, for which `__rsub__` raised `NotImplemented`.
---
 src/eprempy/numeric/_array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 10776d6..e39f29d 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -119,7 +119,7 @@ class Dimensions(collections.abc.Sequence):
         """Called for other - self."""
         if isinstance(other, Dimensions):
             return dimensions_factory(*[n for n in other if n not in self])
-        raise NotImplemented
+        return NotImplemented
 
     def __or__(self, other):
         """Called for self | other."""
@@ -152,7 +152,7 @@ class Dimensions(collections.abc.Sequence):
     def __xor__(self, other):
         """Called for self ^ other."""
         try:
-            those = self._get_operand(other)
+            those = dimensions_factory(*self._get_operand(other))
         except DimensionTypeError:
             return NotImplemented
         return (self - those) | (those - self)
@@ -160,7 +160,7 @@ class Dimensions(collections.abc.Sequence):
     def __rxor__(self, other):
         """Called for other ^ self."""
         try:
-            those = self._get_operand(other)
+            those = dimensions_factory(*self._get_operand(other))
         except DimensionTypeError:
             return NotImplemented
         return (those - self) | (self - those)
-- 
2.43.0


From d7a5823c3d760bdbb4e8dea24064f7dff5634a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 110/126] fix: interpolate axis-like observables with their
 axes

---
 src/eprempy/observable/_interfaces.py | 84 +++++++++++++--------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index df09967..2dd3f87 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -94,24 +94,40 @@ class Implementations:
         return self._definitions
 
     ## -- auxiliary/axis-like quantities --
-    # Each method directly subscripts the dataset array because interpolation
-    # over any of these quantities is either meaningless or unnecessary.
+    # Methods for species-dependent quantities directly subscript the dataset
+    # array because interpolation over species is meaningless.
 
-    def time(self, time=None) -> physical.Array:
+    def time(
+        self,
+        time=None,
+        assumptions: typing.Optional[dict]=None,
+    ) -> physical.Array:
         """Compute the output times."""
-        return self.dataset.time[_normalize_indices(time or slice(None))]
+        return self._observe(self.dataset.time, assumptions, time=time)
 
-    def energy(self, energy=None) -> physical.Array:
+    def energy(
+        self,
+        energy=None,
+        assumptions: typing.Optional[dict]=None,
+    ) -> physical.Array:
         """Compute the particle energies."""
-        return self.dataset.energy[_normalize_indices(energy or slice(None))]
+        return self._observe(self.dataset.energy, assumptions, energy=energy)
 
-    def v(self, energy=None) -> physical.Array:
+    def v(
+        self,
+        energy=None,
+        assumptions: typing.Optional[dict]=None,
+    ) -> physical.Array:
         """Compute the particle speeds."""
-        return self.dataset.v[_normalize_indices(energy or slice(None))]
+        return self._observe(self.dataset.v, assumptions, energy=energy)
 
-    def mu(self, mu=None) -> physical.Array:
+    def mu(
+        self,
+        mu=None,
+        assumptions: typing.Optional[dict]=None,
+    ) -> physical.Array:
         """Compute the particle pitch-angle cosines."""
-        return self.dataset.mu[_normalize_indices(mu or slice(None))]
+        return self._observe(self.dataset.mu, assumptions, mu=mu)
 
     def mass(self, species=None) -> physical.Array:
         """Compute the mass of each species."""
@@ -1160,15 +1176,10 @@ class Quantities(collections.abc.Mapping):
 
     def _time(self, user: Arguments):
         """Callback method for time."""
-        if 'time' in user:
-            unit = self.dataset.time.unit
-            data = numpy.array(user['time'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.time.axes,
-            )
-        return self.functions.time(time=user.time)
+        return self.functions.time(
+            time=user.time,
+            assumptions=user.assumptions,
+        )
 
     @property
     def energy(self):
@@ -1181,15 +1192,10 @@ class Quantities(collections.abc.Mapping):
 
     def _energy(self, user: Arguments):
         """Callback method for particle energies per nucleon."""
-        if 'energy' in user:
-            unit = self.dataset.energy.unit
-            data = numpy.array(user['energy'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.energy.axes,
-            )
-        return self.functions.energy(energy=user.energy)
+        return self.functions.energy(
+            energy=user.energy,
+            assumptions=user.assumptions,
+        )
 
     @property
     def v(self):
@@ -1202,11 +1208,10 @@ class Quantities(collections.abc.Mapping):
 
     def _v(self, user: Arguments):
         """Callback method for equivalent particle speeds."""
-        if 'energy' in user:
-            energy = self._energy(user)
-            mass = self.constants['mp'].asscalar
-            return physical.array(numpy.sqrt(2 * energy / mass))
-        return self.functions.v(energy=user.energy)
+        return self.functions.v(
+            energy=user.energy,
+            assumptions=user.assumptions,
+        )
 
     @property
     def mu(self):
@@ -1219,15 +1224,10 @@ class Quantities(collections.abc.Mapping):
 
     def _mu(self, user: Arguments):
         """Callback method for pitch-angle cosines."""
-        if 'mu' in user:
-            unit = self.dataset.mu.unit
-            data = numpy.array(user['mu'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.mu.axes,
-            )
-        return self.functions.mu(mu=user.mu)
+        return self.functions.mu(
+            mu=user.mu,
+            assumptions=user.assumptions,
+        )
 
     @property
     def mass(self):
-- 
2.43.0


From 4972c3c740984e67a735038acc5c2a00a8518a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:40 +0000
Subject: [PATCH 111/126] fix: refuse fractional measured values as indices

---
 src/eprempy/numeric/_index.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 1305661..1c82204 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -517,12 +517,19 @@ def _value_args(x, /):
         return index
     if isinstance(x, measurable.Type):
         if x.isunitless:
-            return x.data
+            return _integral(x.data)
         raise ValueError(
             f"Can only initialize {Value} from a unitless object"
         ) from None
 
 
+def _integral(x, /):
+    """The given data, unless it contains a fractional number."""
+    if numpy.array_equal(x, numpy.trunc(x)):
+        return x
+    return # Force a TypeError in factory
+
+
 def _sequence_args(x, /):
     """Helper for `indices_args`."""
     if isinstance(x, range):
-- 
2.43.0


From 827172ec745aa966d52c1b5438f8a3def1723cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:55 +0000
Subject: [PATCH 112/126] fix: give a loaded log entry only the contents of its
 file

---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 2cf207b..235aa4a 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -171,8 +171,8 @@ class RunLog(collections.abc.Mapping):
         return self
 
     def _read_from_file(self, source, filetype):
-        """Update the current contents from the `source` file."""
-        contents = self._asdict.copy()
+        """Read the contents of the `source` file."""
+        contents = {}
         loader = self._source_loader(filetype or pathlib.Path(source).suffix)
         with pathlib.Path(source).open('r') as fp:
             if loaded := loader(fp):
-- 
2.43.0


From 1baeede3f9143bbbfe866634493c7436db98f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:42 +0000
Subject: [PATCH 113/126] fix: look for an unknown quantity in a metric system

---
 src/eprempy/metric/_systems.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/metric/_systems.py b/src/eprempy/metric/_systems.py
index c64a25e..47ca6c8 100644
--- a/src/eprempy/metric/_systems.py
+++ b/src/eprempy/metric/_systems.py
@@ -222,11 +222,9 @@ class System(collections.abc.Mapping):
     def __getitem__(self, key: typing.Union[str, Quantity]):
         """Get the metric for the requested quantity in this system."""
         try:
-            found = quantity_factory(key)
-        except ValueError as err:
+            return quantity_factory(key)[self.name]
+        except _exceptions.QuantityError as err:
             raise KeyError(f"No known quantity called '{key}'") from err
-        else:
-            return found[self.name]
 
     def get_dimension(self, this: typing.Union[str, _units.Unit]):
         """Compute the dimension of `unit` in this metric system."""
-- 
2.43.0


From 22eb039a0329b0358d7bb6891c4780d55af4156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:17 +0000
Subject: [PATCH 114/126] fix: compare a variable term to a number

---
 src/eprempy/symbolic/_operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 723ecac..10b70b3 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -778,7 +778,7 @@ class Term(Operand):
 
     def __eq__(self, other) -> bool:
         if isinstance(other, numbers.Real):
-            return float(self) == float(other)
+            return self.base == '1' and float(self) == float(other)
         if isinstance(other, str):
             term = OperandFactory().create(other)
             return super().__eq__(term)
-- 
2.43.0


From 864a397130bf7038bf9e56e37276a3a73e5955a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:10 +0000
Subject: [PATCH 115/126] fix: create a context from only a unit, and refuse
 further arguments

---
 src/eprempy/measured/_context.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/eprempy/measured/_context.py b/src/eprempy/measured/_context.py
index 8f773bc..b9391cf 100644
--- a/src/eprempy/measured/_context.py
+++ b/src/eprempy/measured/_context.py
@@ -98,22 +98,12 @@ def context_factory(*args, **kwargs):
     return Context(unit, converter)
 
 
-def context_args(*args, **kwargs) -> typing.Tuple[metric.Unit, Converter[T]]:
+def context_args(
+    unit: metric.UnitLike=None,
+    converter: typing.Optional[Converter[T]]=None,
+) -> typing.Tuple[metric.Unit, Converter[T]]:
     """Parse arguments to initialize an instance of `~Context`."""
-    if args and not kwargs:
-        return metric.unit(args[0] or '1'), args[1] or _default_converter
-    if kwargs and not args:
-        return (
-            metric.unit(kwargs.get('unit') or '1'),
-            kwargs.get('converter') or _default_converter,
-        )
-    if len(args) == 1:
-        return (
-            metric.unit(args[0] or '1'),
-            kwargs.get('converter') or _default_converter,
-        )
-    message = f"{args}, {', '.join(f'{k}={v}' for k, v in kwargs.items())}"
-    raise TypeError(message)
+    return metric.unit(unit or '1'), converter or _default_converter
 
 
 def _default_converter(c: metric.Conversion, x: T) -> T:
-- 
2.43.0


From 89f093789777eb8220bba238b7a5c14475206abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:10 +0000
Subject: [PATCH 116/126] fix: a quantity is a member of another only in the
 same unit

---
 src/eprempy/physical/_tensor.py | 2 ++
 src/eprempy/physical/_vector.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/eprempy/physical/_tensor.py b/src/eprempy/physical/_tensor.py
index d34603e..e8572a3 100644
--- a/src/eprempy/physical/_tensor.py
+++ b/src/eprempy/physical/_tensor.py
@@ -28,6 +28,8 @@ class Tensor(Object[base.ArrayType]):
 
     def __contains__(self, v) -> bool:
         """Called for v in self."""
+        if isinstance(v, measured.Object):
+            return v.unit == self.unit and v.data in self.data
         return v in self.data
 
     def __len__(self) -> int:
diff --git a/src/eprempy/physical/_vector.py b/src/eprempy/physical/_vector.py
index 0685221..1836048 100644
--- a/src/eprempy/physical/_vector.py
+++ b/src/eprempy/physical/_vector.py
@@ -25,6 +25,8 @@ class Vector(Object[base.SequenceType]):
 
     def __contains__(self, v) -> bool:
         """Called for v in self."""
+        if isinstance(v, measured.Object):
+            return v.unit == self.unit and v.data in self.data
         return v in self.data
 
     def __len__(self) -> int:
-- 
2.43.0


From f720a78f3e2ea1fa5ac5baa859ee611b4851a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:10 +0000
Subject: [PATCH 117/126] fix: compare and print wrapped objects of any type

---
 src/eprempy/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 76f8a7e..906d0c4 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -222,12 +222,17 @@ class Wrapper(collections.abc.Collection, typing.Generic[T]):
     def __eq__(self, other) -> bool:
         """True if two wrapped objects have equal arguments."""
         if isinstance(other, Wrapper):
-            return sorted(self) == sorted(other)
+            members = list(other)
+            for member in self:
+                if member not in members:
+                    return False
+                members.remove(member)
+            return not members
         return NotImplemented
 
     def __str__(self) -> str:
         """A simplified representation of this object."""
-        return self._arg
+        return str(self._arg)
 
 
 def isseparable(x, /):
-- 
2.43.0


From bb0f455c67cb5d5bcf0a5253d151cae46f44f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:24 +0000
Subject: [PATCH 118/126] fix: give equal groups of aliases equal hashes

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index f029b61..4c401d2 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From 35c763ea0229491a23cabc856fc7e9c5a2f1bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:05 +0000
Subject: [PATCH 119/126] fix: respect the hint when viewing a datafile again

---
 src/eprempy/paths.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 140a638..72c1ff7 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -81,7 +81,9 @@ class PathSet(etc.InstanceSet):
         if path is None and len(args) >= 1:
             path = args[0]
         if isinstance(path, (str, pathlib.Path)):
-            return path
+            others = args if path is kwargs.get('path') else args[1:]
+            options = {k: v for k, v in kwargs.items() if k != 'path'}
+            return (path, *others, *sorted(options.items()))
         return super()._generate_key(*args, **kwargs)
 
 
-- 
2.43.0


From ae983c3c92b7903ed7dc6ad72a6340ee92c47f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:05 +0000
Subject: [PATCH 120/126] fix: find a configuration file named by a path in the
 source directory

---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index bc12ad3..08fe615 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -484,7 +484,7 @@ def _build_confpath(
         ) from None
     this = pathlib.Path(config)
     full = (
-        directory / config if this.name == config # file name only
+        directory / this if this.name == str(config) # file name only
         else paths.fullpath(this, strict=True) # full or relative path
     )
     if full.exists():
-- 
2.43.0


From 4284cf1ca5b4002bab956dd54a58f2af3c159c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:17 +0000
Subject: [PATCH 121/126] fix: find a value in a labelled array

---
 src/eprempy/numeric/_array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index e39f29d..4f107f8 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -9,7 +9,6 @@ import numpy.typing
 from .. import base
 from .. import container
 from .. import etc
-from . import _data
 from . import _index
 from . import _operators
 from ..typehelp import Self
@@ -475,7 +474,7 @@ class Array(Quantity[DataType], Operators):
     def contains(self, value: numbers.Real) -> bool:
         """True if `value` is in this sequence's data array.
 
-        This method uses `~numeric.data.isclose` to test whether `value` is
+        This method uses `numpy.isclose` to test whether `value` is
         equal, or very close, to a value in this object's real-valued data.
 
         Parameters
@@ -485,9 +484,9 @@ class Array(Quantity[DataType], Operators):
         
         See Also
         --------
-        `~numeric.data.isclose`
+        `numpy.isclose`
         """
-        return _data.isclose(self, value)
+        return bool(numpy.isclose(value, self.array, atol=0.0).any())
 
     @typing.overload
     def transpose(
-- 
2.43.0


From a96f7abadd1d3e1d37e8449bb679b77f124a206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:58 +0000
Subject: [PATCH 122/126] fix: observe at a radius stored at every time

---
 src/eprempy/observable/_interfaces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 2dd3f87..cf3de4b 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -2021,8 +2021,12 @@ def _apply_interp1d(
         idx = container.nearest(reference, target).index
         return array[idx]
     if ndim == 2:
-        interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
-        return numpy.array([interp(target) for interp in interps])
+        # NOTE: It is not possible to interpolate a single point to itself.
+        return numpy.array([
+            y[0] if x.size == 1 and x[0] == target
+            else interp1d(x, y, axis=0)(target)
+            for x, y in zip(reference, array)
+        ])
     if ndim != 1:
         raise physical._array.NDimError(
             f"The reference array may have 1 or 2 (not {ndim}) dimensions"
-- 
2.43.0


From 4f37eaaaebc69a0c95aecb1f2fdae544eeb18497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:49 +0000
Subject: [PATCH 123/126] fix: the default of a parameter computed from others
 is a plain number

---
 src/eprempy/parameter/_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index b52c9a4..9ddcd91 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -93,7 +93,7 @@ class Defaults(collections.abc.Mapping):
                 term.coefficient * self._evaluate(term.base)**term.exponent
                 for term in expression
             ]
-            return functools.reduce(lambda x,y: x*y, evaluated)
+            return float(functools.reduce(lambda x,y: x*y, evaluated))
         raise TypeError(f"Can't resolve {definition!r}") from None
 
     def _compute_sum(self, arg: str) -> numbers.Real:
-- 
2.43.0


From 20b38f9f9544d38fe0ee93c81ec2d6846fc95129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:26 +0000
Subject: [PATCH 124/126] fix: a physical quantity made from another quantity
 keeps its unit

---
 src/eprempy/physical/_object_factories.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index b1d9708..2b8ba99 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -37,18 +37,18 @@ def scalar_factory(x, /, unit=None) -> Scalar:
 
 def scalar_args(x, unit, /):
     """Parse arguments to initialize `~Scalar`."""
-    if isinstance(x, Scalar):
+    if isinstance(x, (Scalar, measured.Value)):
         return x.data, x.unit
     if isinstance(x, numbers.Real):
         return x, unit
-    a = numpy.array(x)
+    a = numpy.array(x.data if isinstance(x, Coordinates) else x)
     s = a.size
     if s != 1:
         raise TypeError(
             f"Cannot create a scalar from data with size {s}"
         ) from None
     data = a[0]
-    if isinstance(x, Tensor):
+    if isinstance(x, (measured.Object, Coordinates)):
         return data, x.unit
     return data, unit
 
@@ -65,8 +65,8 @@ def vector_args(x, unit, /):
     """Parse arguments to initialize `~Vector`."""
     if isinstance(x, (Vector, Coordinates)):
         return x.data, x.unit
-    if isinstance(x, (quantity.Measurement, Scalar)):
-        y = [x.data] if isinstance(x, Scalar) else x
+    if isinstance(x, (measured.Sequence, measured.Value, Scalar)):
+        y = x if isinstance(x, measured.Sequence) else [x.data]
         return vector_args(numpy.asarray(y), x.unit)
     if isinstance(x, Tensor):
         return vector_args(numpy.array(x.data), x.unit)
@@ -90,10 +90,12 @@ def tensor_args(x, unit, /):
     """Parse arguments to initialize `~Tensor`."""
     if isinstance(x, Array):
         return x.data.array, x.unit
-    if isinstance(x, Tensor):
+    if isinstance(x, (Tensor, Vector)):
         return x.data, x.unit
-    if isinstance(x, (quantity.Measurement, Scalar)):
-        y = [x.data] if isinstance(x, Scalar) else x
+    if isinstance(x, Coordinates):
+        return numpy.asarray(x.data), x.unit
+    if isinstance(x, (measured.Sequence, measured.Value, Scalar)):
+        y = x if isinstance(x, measured.Sequence) else [x.data]
         return tensor_args(numpy.asarray(y), x.unit)
     a = numpy.asarray(x)
     if a.ndim == 0:
@@ -118,7 +120,7 @@ def array_args(x, unit, axes, /):
     dimensions = tuple(axes or ())
     data = real.array(array_data(x), *dimensions)
     axes = array_axes(data.shape, axes)
-    if isinstance(x, measured.Object):
+    if isinstance(x, (measured.Object, Coordinates)):
         return data, x.unit, axes
     return data, unit, axes
 
@@ -163,7 +165,7 @@ def array_data(x):
     """
     if isinstance(x, real.Array):
         return x._object
-    if isinstance(x, (Tensor, Vector, measured.Sequence)):
+    if isinstance(x, (Tensor, Vector, Coordinates, measured.Sequence)):
         return x.data
     if isinstance(x, (Scalar, measured.Value)):
         return numpy.array([x.data])
-- 
2.43.0


From da50da2f335922d4386fa8505d94017451106526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:52 +0000
Subject: [PATCH 125/126] fix: a measured sequence made from another quantity
 is one-dimensional

---
 src/eprempy/measured/_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/measured/_factories.py b/src/eprempy/measured/_factories.py
index ec1e840..cb325e0 100644
--- a/src/eprempy/measured/_factories.py
+++ b/src/eprempy/measured/_factories.py
@@ -52,7 +52,7 @@ def sequence_args(x, unit, /) -> typing.Tuple[typing.Any, metric.Unit]:
     if isinstance(x, Value):
         return sequence_args([x.data], x.unit)
     if isinstance(x, Object):
-        return x.data, x.unit
+        return numpy.asarray(x.data).ravel(), x.unit
     if isinstance(x, numbers.Real):
         return numpy.array([x]), unit
     a = numpy.asarray(x)
-- 
2.43.0


From c143a65f7137e7a6a23c4c5a11e5feeab3315286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:16 +0000
Subject: [PATCH 126/126] fix: accept tabs around the arguments of a parameter
 in configuration.c

---
 src/eprempy/parameter/_src.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index 3b0411a..261f351 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -333,7 +333,7 @@ class FunctionCall:
 
     def _normalize(self, mode: str, args: typing.Iterable[str]):
         """Determine argument type and keys from `mode`."""
-        pairs = dict(zip(self._keys[mode], [arg.strip(' "') for arg in args]))
+        pairs = dict(zip(self._keys[mode], [arg.strip(' \t"') for arg in args]))
         return {'mode': mode, **pairs}
 
 
-- 
2.43.0

