From 4af9305dcb44f63c38f013d38544a8035a986b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 01/46] fix: check the kind of a parameter and its children
 before recording a view request

A failing generic request on a parameter with children left it typed as
generic, and children of another kind were aggregated (or crashed).
---
 openscm/core/parameters.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 09d199b..3f1cd15 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -226,6 +226,32 @@ class _Parameter:
 
         return self
 
+    def check_read(self, parameter_type: ParameterType) -> None:
+        """
+        Check that this parameter can be read as the given type (without changing
+        anything).
+
+        Parameters
+        ----------
+        parameter_type
+            Parameter type to be read
+
+        Raises
+        ------
+        ParameterTypeError
+            If this parameter or one of the child parameters to aggregate over has a
+            different type
+        ParameterAggregationError
+            If parameter has child parameters which cannot be aggregated (for boolean
+            and string parameters)
+        """
+        if self.parameter_type is not None and self.parameter_type != parameter_type:
+            raise ParameterTypeError
+        if self.children and parameter_type == ParameterType.GENERIC:
+            raise ParameterAggregationError
+        for child in self.children.values():
+            child.check_read(parameter_type)
+
     def attempt_read(
         self,
         parameter_type: ParameterType,
@@ -254,16 +280,13 @@ class _Parameter:
             If parameter has child parameters which cannot be aggregated (for boolean
             and string parameters)
         """
-        if self.parameter_type is not None and self.parameter_type != parameter_type:
-            raise ParameterTypeError
+        self.check_read(parameter_type)
         if self.parameter_type is None:
             self.unit = unit
             self.parameter_type = parameter_type
             if parameter_type == ParameterType.SCALAR:
                 self.data = float("NaN")
             elif parameter_type == ParameterType.GENERIC:
-                if self.children:
-                    raise ParameterAggregationError
                 self.data = None
             else:  # parameter is a timeseries
                 self.data = np.full(
-- 
2.43.0


From 64b321e41ba8cfec464634504255edbe485f605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 02/46] fix: a view request with an unusable unit or time grid
 must not change the parameter

Unknown units created the parameter and stuck to it, and aggregated requests
in a unit (or on a grid) the children do not convert to fixed the parent's
unit although they failed.
---
 openscm/core/parameterset.py | 15 +++++++++++----
 openscm/core/views.py        | 15 ++++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index 6dd69a7..1add611 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -14,6 +14,7 @@ from .parameters import (
 )
 from .regions import _Region
 from .time import ExtrapolationType, InterpolationType
+from .units import UnitConverter
 from .views import GenericView, ScalarView, TimeseriesView
 
 
@@ -164,12 +165,15 @@ class ParameterSet:
         ValueError
             Name not given or invalid region
         """
+        UnitConverter(unit, unit)  # fails early for undefined units
         parameter = self._get_or_create_parameter(
             name, self._get_or_create_region(region)
         )
 
+        parameter.check_read(ParameterType.SCALAR)
+        view = ScalarView(parameter, unit)
         parameter.attempt_read(ParameterType.SCALAR, unit)
-        return ScalarView(parameter, unit)
+        return view
 
     def timeseries(  # pylint: disable=too-many-arguments
         self,
@@ -218,14 +222,17 @@ class ParameterSet:
         timeseries_type = ParameterType.from_timeseries_type(timeseries_type)
         interpolation = InterpolationType.from_interpolation_type(interpolation)
         extrapolation = ExtrapolationType.from_extrapolation_type(extrapolation)
+        UnitConverter(unit, unit)  # fails early for undefined units
         parameter = self._get_or_create_parameter(
             name, self._get_or_create_region(region)
         )
 
-        parameter.attempt_read(timeseries_type, unit, time_points)
-        return TimeseriesView(
+        parameter.check_read(timeseries_type)
+        view = TimeseriesView(
             parameter, unit, time_points, timeseries_type, interpolation, extrapolation
-        )  # TimeseriesView
+        )
+        parameter.attempt_read(timeseries_type, unit, time_points)
+        return view
 
     def generic(
         self, name: HierarchicalName, region: HierarchicalName = ("World",)
diff --git a/openscm/core/views.py b/openscm/core/views.py
index be0af3b..a6ce9ad 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -172,7 +172,11 @@ class ScalarView(ParameterInfo):
             Unit for the values in the view
         """
         super().__init__(parameter)
-        self._unit_converter = UnitConverter(cast(str, parameter.unit), unit)
+        self._unit_converter = UnitConverter(
+            # a parameter not viewed so far takes its unit from its first view
+            unit if parameter.parameter_type is None else cast(str, parameter.unit),
+            unit,
+        )
         self._writable = False
 
         def get_data_views_for_children_or_parameter(
@@ -302,9 +306,14 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             Extrapolation type
         """
         super().__init__(parameter)
-        self._unit_converter = UnitConverter(cast(str, parameter.unit), unit)
+        # a parameter not viewed so far takes its unit and time points from its first
+        # view
+        new = parameter.parameter_type is None
+        self._unit_converter = UnitConverter(
+            unit if new else cast(str, parameter.unit), unit
+        )
         self._timeseries_converter = TimeseriesConverter(
-            parameter.time_points,
+            time_points if new else parameter.time_points,
             time_points,
             timeseries_type,
             interpolation_type,
-- 
2.43.0


From 1896495128552345d86b4c808a1485036027f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 03/46] fix: an aggregated view request closes the whole
 subtree for new parameters

Below a child which was not viewed itself, parameters could still be added
after the aggregated view was taken, which then missed them.
---
 openscm/core/parameters.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 3f1cd15..1692698 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -298,7 +298,16 @@ class _Parameter:
                     float("NaN"),
                 )
                 self.time_points = np.array(time_points, copy=True)
+        self._set_read()
+
+    def _set_read(self) -> None:
+        """
+        Mark this parameter and everything below it as read (views aggregate over all
+        the child parameters on all levels, so none can be added anymore).
+        """
         self.has_been_read_from = True
+        for child in self.children.values():
+            child._set_read()
 
     def attempt_write(
         self,
-- 
2.43.0


From efb48450a470bc6c50cd6d96d317efc750bac0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 04/46] fix: aggregated timeseries views follow later writes to
 the children

---
 openscm/core/views.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index a6ce9ad..ddfd4dd 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -355,7 +355,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
-        elif self._version != self._parameter.version:
+        elif self._parameter.children or self._version != self._parameter.version:
+            # (writing to child parameters does not change this parameter's version)
             np.copyto(self._data, self._get_values())
             self._version = self._parameter.version
 
-- 
2.43.0


From 3cf3fecfa12e00055f13008ca2f3e6e2ffcfa2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 05/46] fix: value handles of timeseries views are
 read-checked, write-checked and current

Arithmetic, comparison, array conversion and printing of a held handle used its
old buffer, element assignment wrote that old buffer back over newer values, and
elements of aggregated (read-only) views could be assigned.
---
 openscm/core/views.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index ddfd4dd..b0dbf98 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -33,6 +33,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         ]
         outputs = kwargs.pop("out", None)
         if outputs:
+            for output in outputs:
+                if isinstance(output, type(self)):
+                    output._parameter_view._check_write()
+                    output.__read__()
             kwargs["out"] = tuple(
                 i._ndarray if isinstance(i, type(self)) else i for i in outputs
             )
@@ -59,10 +63,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     def _create_arithmetic_method(cls, op):
         def arithmetic_method(self, other):
             if isinstance(other, cls):
-                other = other._ndarray
+                other = other.__read__()._ndarray
 
             with np.errstate(all="ignore"):
-                return op(self._ndarray, other)
+                return op(self.__read__()._ndarray, other)
 
         arithmetic_method.__name__ = "__{}__".format(op.__name__)
         arithmetic_method.__qualname__ = "{cl}.__{name}__".format(
@@ -103,6 +107,8 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
+        self._parameter_view._check_write()
+        self.__read__()
         self._ndarray[key] = val
         self.__write__()
 
@@ -112,10 +118,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             yield i
 
     def __repr__(self):
-        return "timeseries({})".format(repr(self._ndarray))
+        return "timeseries({})".format(repr(self.__read__()._ndarray))
 
     def __array__(self, dtype=None):
-        return np.asarray(self._ndarray, dtype=dtype)
+        return np.asarray(self.__read__()._ndarray, dtype=dtype)
 
     def __len__(self):
         return len(self._ndarray)
-- 
2.43.0


From f9244819ef42cdf31655c88d0f376a5a3a9e6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 06/46] fix: a rejected timeseries write leaves parameter and
 view as they were

A write of the wrong length marked the parameter as written, and a write which
could not be converted to the parameter's time points stayed in the view.
---
 openscm/core/views.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index b0dbf98..123c4da 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -10,7 +10,12 @@ import numpy as np
 from numpy.lib.mixins import NDArrayOperatorsMixin
 from pandas.core.arrays.base import ExtensionOpsMixin
 
-from ..errors import ParameterEmptyError, TimeseriesPointsValuesMismatchError
+from ..errors import (
+    InsufficientDataError,
+    ParameterEmptyError,
+    ParameterReadonlyError,
+    TimeseriesPointsValuesMismatchError,
+)
 from .parameters import ParameterInfo, ParameterType, _Parameter
 from .time import ExtrapolationType, InterpolationType, TimeseriesConverter
 from .units import UnitConverter
@@ -375,13 +380,25 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             )
             self._writable = True
 
+    def _convert_to_parameter(self, values: np.ndarray) -> np.ndarray:
+        return self._timeseries_converter.convert_to(
+            self._unit_converter.convert_to(values)
+        )
+
     def _write(self):
         if not self._locked:
-            self._parameter.data = self._timeseries_converter.convert_to(
-                self._unit_converter.convert_to(self._data)
-            )
-            self._parameter.version += 1
-            self._version = self._parameter.version
+            try:
+                data = self._convert_to_parameter(self._data)
+            except InsufficientDataError:
+                # take back what cannot be written
+                np.copyto(self._data, self._get_values())
+                raise
+            self._publish(data)
+
+    def _publish(self, data: np.ndarray):
+        self._parameter.data = data
+        self._parameter.version += 1
+        self._version = self._parameter.version
 
     def _get_values(self) -> np.ndarray:
         if self._parameter.children:
@@ -427,15 +444,20 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Value of the full timeseries
         """
-        self._check_write()
+        if self._parameter.children:
+            raise ParameterReadonlyError
         if len(v) != self._timeseries_converter.target_length:
             raise TimeseriesPointsValuesMismatchError
+        values = np.asarray(v)
+        data = None if self._locked else self._convert_to_parameter(values)
+        self._check_write()
         if self._data is None:
-            self._data = np.asarray(v).copy()
+            self._data = values.copy()
             self._timeseries = _Timeseries(self._data, self)
         else:
-            np.copyto(self._data, np.asarray(v))
-        self._write()
+            np.copyto(self._data, values)
+        if data is not None:
+            self._publish(data)
 
     @property
     def unit(self) -> Optional[str]:
-- 
2.43.0


From aae50db885f3de925a73a9ef404f1426550e6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:38 +0000
Subject: [PATCH 07/46] fix: locked timeseries views keep their writes until
 they are unlocked

A first write to a locked view could not be read back and marked the parameter
as written (reading NaN elsewhere), unlocking without having written failed or
wrote an old buffer back, and an unlock which cannot be converted lost the lock.
---
 openscm/core/views.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 123c4da..d9d7521 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -274,6 +274,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     write)?
     """
 
+    _pending: bool
+    """Has this view been written to while locked?"""
+
     _timeseries: Optional[_Timeseries]
     """Time series handler"""
 
@@ -332,6 +335,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
         self._data = None
         self._locked = False
+        self._pending = False
         self._timeseries = None
         self._writable = False
 
@@ -363,6 +367,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             )
 
     def _read(self):
+        if self._pending:
+            return
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
@@ -372,13 +378,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._version = self._parameter.version
 
     def _check_write(self):
-        if not self._writable:
-            self._parameter.attempt_write(
-                self._timeseries_converter._timeseries_type,
-                self._unit_converter.target,
-                self._timeseries_converter._target,
-            )
-            self._writable = True
+        if self._parameter.children:
+            raise ParameterReadonlyError
 
     def _convert_to_parameter(self, values: np.ndarray) -> np.ndarray:
         return self._timeseries_converter.convert_to(
@@ -386,7 +387,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
 
     def _write(self):
-        if not self._locked:
+        if self._locked:
+            self._pending = True
+        else:
             try:
                 data = self._convert_to_parameter(self._data)
             except InsufficientDataError:
@@ -396,6 +399,13 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._publish(data)
 
     def _publish(self, data: np.ndarray):
+        if not self._writable:
+            self._parameter.attempt_write(
+                self._timeseries_converter._timeseries_type,
+                self._unit_converter.target,
+                self._timeseries_converter._target,
+            )
+            self._writable = True
         self._parameter.data = data
         self._parameter.version += 1
         self._version = self._parameter.version
@@ -444,19 +454,19 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Value of the full timeseries
         """
-        if self._parameter.children:
-            raise ParameterReadonlyError
+        self._check_write()
         if len(v) != self._timeseries_converter.target_length:
             raise TimeseriesPointsValuesMismatchError
         values = np.asarray(v)
         data = None if self._locked else self._convert_to_parameter(values)
-        self._check_write()
         if self._data is None:
             self._data = values.copy()
             self._timeseries = _Timeseries(self._data, self)
         else:
             np.copyto(self._data, values)
-        if data is not None:
+        if self._locked:
+            self._pending = True
+        else:
             self._publish(data)
 
     @property
@@ -489,10 +499,12 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Unlock this view (i.e., update the underlying parameter on every write).
 
-        Updates the underlying parameter.
+        Updates the underlying parameter if this view has been written to while locked.
         """
+        if self._pending:
+            self._publish(self._convert_to_parameter(self._data))
+            self._pending = False
         self._locked = False
-        self._write()
 
 
 class GenericView(ParameterInfo):
-- 
2.43.0


From ac3f13d756bdb513a6283eb1118fd2790558d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:58 +0000
Subject: [PATCH 08/46] fix: floats can be written to and read from a view
 first set with integers

Such views failed with a casting error after any float write through another
view, and cut off the decimals of elements assigned to them.
---
 openscm/core/views.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index d9d7521..fc5b8de 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -114,6 +114,8 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     def __setitem__(self, key, val):
         self._parameter_view._check_write()
         self.__read__()
+        if self is self._parameter_view._timeseries:
+            self._parameter_view._require_dtype(np.asarray(val).dtype)
         self._ndarray[key] = val
         self.__write__()
 
@@ -374,9 +376,23 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._version = self._parameter.version
         elif self._parameter.children or self._version != self._parameter.version:
             # (writing to child parameters does not change this parameter's version)
-            np.copyto(self._data, self._get_values())
+            self._set_data(self._get_values())
             self._version = self._parameter.version
 
+    def _set_data(self, values: np.ndarray):
+        self._require_dtype(values.dtype)
+        np.copyto(self._data, values)
+
+    def _require_dtype(self, dtype: np.dtype):
+        """
+        Make sure values of type :obj:`dtype` can be stored without loss (e.g. floats
+        in a view first set with integers).
+        """
+        if not np.can_cast(dtype, self._data.dtype, "same_kind"):
+            self._data = self._data.astype(np.result_type(self._data, dtype))
+            if self._timeseries is not None:
+                self._timeseries._ndarray = self._data
+
     def _check_write(self):
         if self._parameter.children:
             raise ParameterReadonlyError
@@ -394,7 +410,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                 data = self._convert_to_parameter(self._data)
             except InsufficientDataError:
                 # take back what cannot be written
-                np.copyto(self._data, self._get_values())
+                self._set_data(self._get_values())
                 raise
             self._publish(data)
 
@@ -463,7 +479,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._data = values.copy()
             self._timeseries = _Timeseries(self._data, self)
         else:
-            np.copyto(self._data, values)
+            self._set_data(values)
         if self._locked:
             self._pending = True
         else:
-- 
2.43.0


From 38ece1b1a1c011b252b3477b5469a28e01460889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 09/46] fix: interpolate point timeseries next to average
 timeseries

The additional time point for averages was also used for the point timeseries.
---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4beb8ce..30bcc53 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1008,13 +1008,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for parameter_type, grp in res._meta.groupby("parameter_type"):
             p_type = ParameterType.from_timeseries_type(parameter_type)
             time_points = self.time_points
+            target_time_points = target_times
 
             if p_type == ParameterType.AVERAGE_TIMESERIES:
                 # With an average time series we are making the assumption that the last value is the
                 # average value between t[-1] and (t[-1] - t[-2]). This will ensure that both the
                 # point and average timeseries can use the same time grid.
                 delta_t = target_times[-1] - target_times[-2]
-                target_times = np.concatenate(
+                target_time_points = np.concatenate(
                     (target_times, [target_times[-1] + delta_t])
                 )
 
@@ -1023,7 +1024,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             timeseries_converter = TimeseriesConverter(
                 time_points,
-                target_times,
+                target_time_points,
                 p_type,
                 InterpolationType.from_interpolation_type(interpolation_type),
                 ExtrapolationType.from_extrapolation_type(extrapolation_type),
-- 
2.43.0


From a23449b47323cbff44be8b41a917293da7d06ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 10/46] fix: keep the guessed parameter types when
 interpolating

The guess was lost if there was a numeric metadata column and not made for
missing values next to given types, both giving NaN for the whole timeseries.
---
 openscm/scmdataframe/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 30bcc53..c10a871 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -987,19 +987,19 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             res._sort_meta_cols()
 
         def guess(r):
-            if r.parameter_type is None:
+            if pd.isnull(r.parameter_type):
                 warnings.warn(
                     "`parameter_type` metadata not available. Guessing parameter types where unavailable."
                 )
                 parameter_type = guess_parameter_type(r.variable, r.unit)
-                r.parameter_type = (
+                return (
                     "average"
                     if parameter_type == ParameterType.AVERAGE_TIMESERIES
                     else "point"
                 )
-            return r
+            return r.parameter_type
 
-        res._meta.apply(guess, axis=1)
+        res._meta["parameter_type"] = [guess(r) for _, r in res._meta.iterrows()]
 
         # Resize dataframe to new index length
         old_data = res._data
-- 
2.43.0


From 3bbed2102a6cdcc360021a0e8fdd1c86c66ddc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 11/46] fix: lists of month and day ranges in time filters

More than one range in a list failed (or removed the wrong entries), mixing
full names with abbreviations failed, and the caller's list was changed.
---
 openscm/scmdataframe/filters.py | 36 +++++++++++++++------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 32ea694..c973bc1 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -349,28 +349,26 @@ def time_match(
     times_list = [times] if isinstance(times, (int, str)) else times
 
     def conv_strs(strs_to_convert, conv_codes, name):
-        res = None
-        for conv_code in conv_codes:
-            try:
-                res = [
-                    getattr(time.strptime(t, conv_code), strptime_attr)
-                    for t in strs_to_convert
-                ]
-                break
-            except ValueError:
-                continue
-
-        if res is None:
+        def conv_str(str_to_convert):
+            for conv_code in conv_codes:
+                try:
+                    return getattr(
+                        time.strptime(str_to_convert, conv_code), strptime_attr
+                    )
+                except ValueError:
+                    continue
+
             error_msg = "Could not convert {} '{}' to integer".format(
                 name, strs_to_convert
             )
             raise ValueError(error_msg)
-        return res
+
+        return [conv_str(t) for t in strs_to_convert]
 
     if isinstance(times_list[0], str):
-        to_delete = []
+        single_times = []
         to_append = []  # type: List
-        for i, timeset in enumerate(times_list):
+        for timeset in times_list:
             # ignore type as already established we're looking at strings
             if "-" in timeset:  # type: ignore
                 ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
@@ -383,12 +381,10 @@ def time_match(
 
                 # + 1 to include last month
                 to_append += [j for j in range(ints[0], ints[1] + 1)]
-                to_delete.append(i)
-
-        for i in to_delete:
-            del times_list[i]
+            else:
+                single_times.append(timeset)
 
-        times_list = conv_strs(times_list, conv_codes, name)
+        times_list = conv_strs(single_times, conv_codes, name)
         times_list += to_append
 
     return is_in(data, times_list)
-- 
2.43.0


From 37cc7f5a3c90c5623adebbe5a6107c92583e75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 12/46] fix: take all characters but the wildcard literally in
 metadata filters

Names with e.g. brackets, question marks or backslashes did not match themselves.
---
 openscm/scmdataframe/filters.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index c973bc1..3fb24b4 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -169,16 +169,8 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
 
     for s in _values:
         if isinstance(s, str):
-            _regexp = (
-                str(s)
-                .replace("|", "\\|")
-                .replace(".", r"\.")  # `.` has to be replaced before `*`
-                .replace("*", ".*")
-                .replace("+", r"\+")
-                .replace("(", r"\(")
-                .replace(")", r"\)")
-                .replace("$", "\\$")
-            ) + "$"
+            # everything but `*` is to be taken literally
+            _regexp = ".*".join(re.escape(part) for part in str(s).split("*")) + "$"
             pattern = re.compile(_regexp if not regexp else str(s))
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
-- 
2.43.0


From 699b6bd0906151f4665307c57e88a9c50cebfa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 13/46] fix: count the levels of all repeated names below the
 filter keyword

Only the first occurrence of the keyword is where it matches: 'a|a|b' is one
level deeper than 'a|b' below 'a|*'.
---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 3fb24b4..15b7e98 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -99,7 +99,7 @@ def find_depth(
     regexp = str(s).replace("*", "")
 
     def apply_test(val):
-        return test(len(pipe.findall(val.replace(regexp, ""))))
+        return test(len(pipe.findall(val.replace(regexp, "", 1))))
 
     return np.array([b for b in [apply_test(m) for m in meta_col]])
 
-- 
2.43.0


From 056732812335495d527681ee66433c1e3b2c4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 14/46] fix: a rejected inplace rename must not change the
 metadata

---
 openscm/scmdataframe/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index c10a871..499f331 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -854,14 +854,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             Column is not in meta or renaming will cause non-unique metadata
         """
         ret = copy.deepcopy(self) if not inplace else self
+        meta = self.meta
         for col, _mapping in mapping.items():
-            if col not in self.meta.columns:
+            if col not in meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            ret._meta[col] = ret._meta[col].replace(  # pylint: disable=protected-access
-                _mapping
-            )
-            if ret._meta.duplicated().any():  # pylint: disable=protected-access
+            meta[col] = meta[col].replace(_mapping)
+            if meta.duplicated().any():
                 raise ValueError("Renaming to non-unique metadata for {}!".format(col))
+        ret._meta = meta  # pylint: disable=protected-access
 
         if not inplace:
             return ret
-- 
2.43.0


From 3ccae79c3fcb9e43c9b679e8e3db5ed3fb47a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 15/46] fix: a rejected inplace unit conversion must not change
 the data

Timeseries in other units were already converted when the conversion failed.
---
 openscm/scmdataframe/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 499f331..a11756e 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1255,13 +1255,21 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         # pylint: disable=protected-access
         ret = self if inplace else self.copy()
 
+        to_convert = self.copy()
+        if "unit_context" not in to_convert._meta:
+            to_convert._meta["unit_context"] = None
+        to_convert = to_convert.filter(**kwargs)
+        # get all converters before changing anything as some might not be available
+        conversions = [
+            (grp, UnitConverter(orig_unit, unit, context=context))
+            for orig_unit, grp in to_convert._meta.groupby("unit")  # type: ignore
+        ]
+
         if "unit_context" not in ret._meta:
             ret._meta["unit_context"] = None
             ret._sort_meta_cols()
 
-        to_convert = ret.filter(**kwargs)
-        for orig_unit, grp in to_convert._meta.groupby("unit"):  # type: ignore
-            uc = UnitConverter(orig_unit, unit, context=context)
+        for grp, uc in conversions:
             ret._data[grp.index] = ret._data[grp.index].apply(uc.convert_from)
             # TODO: check if unit_context has changed
             ret._meta.loc[grp.index] = ret._meta.loc[grp.index].assign(
-- 
2.43.0


From 15506fd7089781a8a2d7baeff790b5db4b042b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 16/46] fix: do not lose metadata values equal to the fill
 value when appending

---
 openscm/scmdataframe/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index a11756e..bff9917 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1502,6 +1502,8 @@ def df_append(
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
     na_fill_value = -999
+    while any((d.meta == na_fill_value).any(axis=None) for d in joint_dfs):
+        na_fill_value -= 1
     for i, _ in enumerate(joint_dfs):
         for col in joint_meta_set:
             if col not in joint_dfs[i].meta:
-- 
2.43.0


From a273ba7ae81947d2b7bbe51b245e8ba09a3ee8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 17/46] fix: set existing metadata from a series or for some of
 the rows

Setting a column from a series of the frame's own metadata left the frame
without valid metadata, and setting an existing column by index split it into
two columns with other names.
---
 openscm/scmdataframe/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index bff9917..a16b441 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -922,11 +922,22 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         if not isinstance(index, (pd.MultiIndex, pd.Index)):
             raise ValueError("index cannot be coerced to pd.MultiIndex")
 
+        if index.equals(self._meta.index):
+            # given for the rows of the metadata themselves
+            self._meta[name] = pd.Series(meta, index=index)
+            self._sort_meta_cols()
+            return
+
         meta = pd.Series(meta, index=index, name=name)
 
         df = self.meta.reset_index()
         if all(index.names):
             df = df.set_index(index.names)
+        if name in df.columns:
+            # only change the given rows of an existing column
+            addressed = df.index.isin(index)
+            self._meta.loc[addressed, name] = meta.reindex(df.index[addressed]).values
+            return
         self._meta = (
             pd.merge(df, meta, left_index=True, right_index=True, how="outer")
             .reset_index()
-- 
2.43.0


From 447905de8a9f25002d79e7cf803599d3fc3924b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 18/46] fix: rejected new time points must not change the time
 points of a data frame

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index a16b441..28bac32 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -445,8 +445,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Provides direct access to set "time" as well as the columns in :attr:`meta`.
         """
         if key == "time":
-            self._time_points = TimePoints(value)
-            self._data.index = self._time_points.to_index()
+            time_points = TimePoints(value)
+            self._data.index = time_points.to_index()
+            self._time_points = time_points
             return value
         return self.set_meta(value, name=key)
 
-- 
2.43.0


From fadd2022af571a504427b2a076826d27c932bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 19/46] fix: allow to convert point timeseries to a single time
 point

---
 openscm/core/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b872cae..6dab5bb 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -422,7 +422,7 @@ class TimeseriesConverter:
         self._interpolation_type = interpolation_type
         self._extrapolation_type = extrapolation_type
 
-        if self._source[0] > self._target[1]:  # TODO: consider extrapolation type
+        if self._source[0] > self._target[:2][-1]:  # TODO: consider extrapolation type
             raise InsufficientDataError
 
     def _calc_continuous_representation(
-- 
2.43.0


From a3fb5c5912820485a8939db4b4f66423d8c657de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 20/46] fix: define the base unit for sulfur

---
 openscm/core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 6d23e2d..3f01a78 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -136,7 +136,7 @@ _standard_gases = {
     "NOx": "NOx",
     "nox": ["NOx"],
     "NH3": ["14/17 * N", "ammonia"],
-    "S": ["sulfur"],
+    "S": "sulfur",
     "SO2": ["32/64 * S", "sulfur_dioxide"],
     "SOx": ["SO2"],
     "BC": "black_carbon",
-- 
2.43.0


From ee6eff2717cd306fd66719890a40dc8e0bb4f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:10 +0000
Subject: [PATCH 21/46] fix: degreeC and degreeF are temperatures with an
 offset like degC and degF

---
 openscm/core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 3f01a78..bf5d70c 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -261,8 +261,8 @@ class ScmUnitRegistry(pint.UnitRegistry):  # type: ignore
         self.define("a = 1 * year = annum = yr")
         self.define("h = hour")
         self.define("d = day")
-        self.define("degreeC = degC")
-        self.define("degreeF = degF")
+        self.define("@alias degC = degreeC")
+        self.define("@alias degF = degreeF")
         self.define("kt = 1000 * t")  # since kt is used for "knot" in the defaults
 
         self.define("ppt = [concentrations]")
-- 
2.43.0


From c6ad05ec1c42482e00e2b3cd51e7d6a88b89d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:53 +0000
Subject: [PATCH 22/46] fix: accuracy of period averages of small values

---
 openscm/core/time.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 6dab5bb..a0d913c 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -314,9 +314,13 @@ def _calc_interval_averages(
     # TODO: numerical integration here could be very expensive
     # TODO: update to include caching and/or analytic solutions depending on interpolation choice
     int_averages = [np.nan] * len(target_intervals[:-1])
+    # the absolute tolerance has to be small compared to the data
+    scale = max(abs(continuous_representation(t)) for t in target_intervals)
     for i, l in enumerate(target_intervals[:-1]):
         u = target_intervals[i + 1]
-        y, _ = integrate.quad(continuous_representation, l, u)
+        y, _ = integrate.quad(
+            continuous_representation, l, u, epsabs=1.49e-8 * min(1, scale * (u - l))
+        )
         int_averages[i] = y / (u - l)
 
     return np.array(int_averages)
-- 
2.43.0


From a05bd4e6cb3528e30d4d5460372ba6d312b411ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 23/46] fix: period averages of timeseries are integrated piece
 by piece

---
 openscm/core/time.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index a0d913c..1fbd16d 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -316,10 +316,19 @@ def _calc_interval_averages(
     int_averages = [np.nan] * len(target_intervals[:-1])
     # the absolute tolerance has to be small compared to the data
     scale = max(abs(continuous_representation(t)) for t in target_intervals)
+    # the slope of piecewise functions (see scipy's interp1d) changes at these points,
+    # which the numerical integration has to know about
+    kinks = np.asarray(getattr(continuous_representation, "x", []))
     for i, l in enumerate(target_intervals[:-1]):
         u = target_intervals[i + 1]
+        inner_kinks = kinks[(kinks > l) & (kinks < u)]
         y, _ = integrate.quad(
-            continuous_representation, l, u, epsabs=1.49e-8 * min(1, scale * (u - l))
+            continuous_representation,
+            l,
+            u,
+            epsabs=1.49e-8 * min(1, scale * (u - l)),
+            points=inner_kinks if inner_kinks.size else None,
+            limit=50 + inner_kinks.size,
         )
         int_averages[i] = y / (u - l)
 
-- 
2.43.0


From ecf65770cb1733892304b8a9449a3d15f20eca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 24/46] fix: DICE output does not start from uninitialised
 memory

While stepping, outputs of the steps done so far were computed from whatever
was in the memory of the later ones (NaN or wrong digits in the worst case).
---
 openscm/adapters/dice.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index 1fbb530..d0f3d09 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -235,18 +235,18 @@ class DICE(Adapter):
         v.b32 = v.b23.value * v.mueq.value / v.mleq.value
         v.b33 = 1 - v.b32
 
-        v.mat.values = np.empty(self._timestep_count)
+        v.mat.values = np.zeros(self._timestep_count)
         v.mat.values[0] = v.mat0.value
-        v.ml.values = np.empty(self._timestep_count)
+        v.ml.values = np.zeros(self._timestep_count)
         v.ml.values[0] = v.ml0.value
-        v.mu.values = np.empty(self._timestep_count)
+        v.mu.values = np.zeros(self._timestep_count)
         v.mu.values[0] = v.mu0.value
-        v.tatm.values = np.empty(self._timestep_count)
+        v.tatm.values = np.zeros(self._timestep_count)
         v.tatm.values[0] = v.tatm0.value
-        v.tocean.values = np.empty(self._timestep_count)
+        v.tocean.values = np.zeros(self._timestep_count)
         v.tocean.values[0] = v.tocean0.value
 
-        v.forc.values = np.empty(self._timestep_count)
+        v.forc.values = np.zeros(self._timestep_count)
         v.forc.values[0] = (
             v.fco22x.value * log2(v.mat0.value / v.mateq.value) + v.fex0.value
         )
-- 
2.43.0


From cafd1526ce0458bcd4f381a94f0f22689fefb299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 25/46] fix: DICE exogenous forcing is not rounded to whole
 days

Multiplying the forcing difference by a time span truncated the product to the
resolution of the span; interpolate by the ratio of the time spans instead.
---
 openscm/adapters/dice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index d0f3d09..8332de5 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -339,8 +339,9 @@ class DICE(Adapter):
             forcoth = v.fex1.value
         else:
             forcoth = v.fex0.value + (v.fex1.value - v.fex0.value) * (
-                v.period_length.value * self._timestep
-            ) / (v.forcoth_saturation_time.value - v.start_time.value)
+                (v.period_length.value * self._timestep)
+                / (v.forcoth_saturation_time.value - v.start_time.value)
+            )
 
         # Original: "Increase in radiative forcing (watts per m2 from 1900)"
         v.forc.values[self._timestep] = (
-- 
2.43.0


From 54c8b7c4c685c57e2b9280c42343538fafeb09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:39 +0000
Subject: [PATCH 26/46] fix: rejected writes of values that are not numbers
 leave no trace

---
 openscm/core/views.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index fc5b8de..5f4a704 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -237,12 +237,14 @@ class ScalarView(ParameterInfo):
         """
         Value of scalar parameter
         """
+        # values that cannot be converted must not change the parameter
+        data = self._unit_converter.convert_to(v)
         if not self._writable:
             self._parameter.attempt_write(
                 ParameterType.SCALAR, self._unit_converter.target
             )
             self._writable = True
-        self._parameter.data = self._unit_converter.convert_to(v)
+        self._parameter.data = data
         self._parameter.version += 1
 
     @property
@@ -388,6 +390,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         Make sure values of type :obj:`dtype` can be stored without loss (e.g. floats
         in a view first set with integers).
         """
+        if not np.issubdtype(dtype, np.number):
+            return  # to be converted (or rejected) by numpy
         if not np.can_cast(dtype, self._data.dtype, "same_kind"):
             self._data = self._data.astype(np.result_type(self._data, dtype))
             if self._timeseries is not None:
@@ -474,6 +478,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if len(v) != self._timeseries_converter.target_length:
             raise TimeseriesPointsValuesMismatchError
         values = np.asarray(v)
+        if values.dtype.kind not in "biufc":
+            values = values.astype(float)  # reject what is not a number
         data = None if self._locked else self._convert_to_parameter(values)
         if self._data is None:
             self._data = values.copy()
-- 
2.43.0


From 2fe2af627696bdc77948bf0e468958c54679a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 27/46] fix: decimal years and numeric strings work in the last
 representable year

---
 openscm/core/time.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 1fbd16d..889b734 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -8,6 +8,7 @@ dedicated `Jupyter Notebook
 <https://github.com/openclimatedata/openscm/blob/master/notebooks/timeseries.ipynb>`_.
 """
 
+import calendar
 import datetime
 from enum import Enum
 from typing import Any, Callable, Dict, Sequence, Union
@@ -94,16 +95,10 @@ class InterpolationType(Enum):
 def _float_year_to_datetime(inp: float) -> np.datetime64:
     year = int(inp)
     fractional_part = inp - year
-    return np.datetime64(  # pylint: disable=too-many-function-args
-        year - 1970, "Y"
-    ) + np.timedelta64(  # pylint: disable=too-many-function-args
-        int(
-            (
-                datetime.datetime(year + 1, 1, 1) - datetime.datetime(year, 1, 1)
-            ).total_seconds()
-            * fractional_part
-        ),
-        "s",
+    year_start = datetime.datetime(year, 1, 1)  # raises for years out of range
+    days_in_year = 366 if calendar.isleap(year) else 365
+    return np.datetime64(year_start, "s") + np.timedelta64(
+        int(days_in_year * 24 * 60 * 60 * fractional_part), "s"
     )
 
 
-- 
2.43.0


From 70a1450de59dc149653aff04ce537de47c1ec741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 28/46] fix: dates given without day or month do not depend on
 the current date

---
 openscm/core/time.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 889b734..b050263 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -103,7 +103,14 @@ def _float_year_to_datetime(inp: float) -> np.datetime64:
 
 
 _ufunc_float_year_to_datetime = np.frompyfunc(_float_year_to_datetime, 1, 1)
-_ufunc_str_to_datetime = np.frompyfunc(parser.parse, 1, 1)
+
+def _str_to_datetime(inp: str) -> datetime.datetime:
+    # Parts which are not given are those of the start of the period (by default,
+    # dateutil takes them from the current date)
+    return parser.parse(inp, default=datetime.datetime(1970, 1, 1))
+
+
+_ufunc_str_to_datetime = np.frompyfunc(_str_to_datetime, 1, 1)
 
 
 def _parse_datetime(inp: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 5ba2585816ca19196eee94a4622c67184a18629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 29/46] fix: years given as unsigned integers do not wrap
 around

---
 openscm/core/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b050263..96caed1 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -104,6 +104,7 @@ def _float_year_to_datetime(inp: float) -> np.datetime64:
 
 _ufunc_float_year_to_datetime = np.frompyfunc(_float_year_to_datetime, 1, 1)
 
+
 def _str_to_datetime(inp: str) -> datetime.datetime:
     # Parts which are not given are those of the start of the period (by default,
     # dateutil takes them from the current date)
@@ -150,7 +151,8 @@ def _format_datetime(dts: np.ndarray) -> np.ndarray:
     if issubclass(dtype, np.floating):
         return _ufunc_float_year_to_datetime(dts).astype("datetime64[s]")
     if issubclass(dtype, np.integer):
-        return (np.asarray(dts) - 1970).astype("datetime64[Y]").astype("datetime64[s]")
+        years = np.asarray(dts).astype(np.int64)  # unsigned integers would wrap around
+        return (years - 1970).astype("datetime64[Y]").astype("datetime64[s]")
     if issubclass(dtype, str):
         return _parse_datetime(dts).astype("datetime64[s]")
     return np.asarray(dts, dtype="datetime64[s]")
-- 
2.43.0


From 36c1f2b2d499ad948339ae8b2b4ecb810febe789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 30/46] fix: rolling to period boundaries works outside the
 range of pd.Timestamp

---
 openscm/scmdataframe/offsets.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 93b2f94..6d56c3a 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -59,6 +59,12 @@ def apply_dt(func, self):
     return wrapper
 
 
+def _shift(obj: DateOffset, dt: datetime.datetime, n: int) -> datetime.datetime:
+    # as ``dt + n * obj``, but without going through :class:`pd.Timestamp`
+    offset = obj.__class__(n, normalize=obj.normalize, **obj.kwds)
+    return apply_dt(type(offset).apply.__wrapped__, offset)(dt)
+
+
 def apply_rollforward(obj):
     """
     Roll provided date forward to next offset, only if not on offset.
@@ -67,7 +73,7 @@ def apply_rollforward(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt + obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _shift(obj, dt, 1)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -81,7 +87,7 @@ def apply_rollback(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt - obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _shift(obj, dt, -1)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
-- 
2.43.0


From 786aff45a83a2e9030edf55d876b1c07345f72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 31/46] fix: calendar grids consist of period boundaries for
 data with times of day

---
 openscm/scmdataframe/offsets.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 6d56c3a..51e8382 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -18,6 +18,7 @@ from pandas.tseries.offsets import (
     BusinessMixin,
     DateOffset,
     NaT,
+    Tick,
     as_datetime,
     conversion,
     normalize_date,
@@ -241,6 +242,12 @@ def generate_range(
      datetime.datetime(2005, 4, 1, 0, 0),
      datetime.datetime(2005, 7, 1, 0, 0)]
     """
+    # Calendar periods begin and end at midnight
+    if not isinstance(offset, Tick):
+        start = normalize_date(start)
+        end_day = normalize_date(end)
+        end = end_day if end_day == end else end_day + datetime.timedelta(days=1)
+
     # Get the bounds
     start = offset.rollback(start)
     end = offset.rollforward(end)
-- 
2.43.0


From 20574b154326ba0162858e7b8b03a19575e946fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 32/46] fix: calendar grids of several periods per step cover
 the data

---
 openscm/scmdataframe/offsets.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 51e8382..61deb1e 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -252,11 +252,14 @@ def generate_range(
     start = offset.rollback(start)
     end = offset.rollforward(end)
 
-    # Iterate to find all the required timesteps
-    current = start
-    while current <= end:
-        yield current
+    if start > end:
+        return
 
+    # Iterate to find all the required timesteps, up to the one which reaches the end
+    # (a timestep can be several periods)
+    current = start
+    yield current
+    while current < end:
         next_current = offset.apply(current)
         if next_current <= current:
             raise ValueError(  # pragma: no cover  # emergency valve
@@ -264,3 +267,4 @@ def generate_range(
             )
 
         current = next_current
+        yield current
-- 
2.43.0


From 7ed5931c8964fbca011145b4221117940ea51a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 33/46] fix: filtering a metadata column which contains None
 treats it as missing

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 15b7e98..a427589 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -164,7 +164,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
     _meta_col = meta_col.copy()
     if has_nan:
         _meta_col.loc[
-            [np.isnan(i) if not isinstance(i, str) else False for i in _meta_col]
+            [pd.isnull(i) if not isinstance(i, str) else False for i in _meta_col]
         ] = ""
 
     for s in _values:
-- 
2.43.0


From e6c99de19b2bfee276df363570021d1f019bd917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 34/46] fix: process_over keeps groups with missing metadata

---
 openscm/scmdataframe/base.py | 45 ++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 28bac32..60c74e0 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -105,6 +105,27 @@ def _read_pandas(fname: str, *args: Any, **kwargs: Any) -> pd.DataFrame:
     return df
 
 
+def _get_na_fill_value(metas: Iterable[pd.DataFrame]) -> int:
+    """
+    Get a value to stand for missing metadata where :mod:`pandas` would drop them.
+
+    Parameters
+    ----------
+    metas
+        Metadata
+
+    Returns
+    -------
+    int
+        A value which none of the metadata contain
+    """
+    # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
+    na_fill_value = -999
+    while any((m == na_fill_value).any(axis=None) for m in metas):
+        na_fill_value -= 1
+    return na_fill_value
+
+
 # pylint doesn't recognise return statements if they include ','
 def _format_data(  # pylint: disable=missing-return-doc
     df: Union[pd.DataFrame, pd.Series]
@@ -1213,18 +1234,21 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             If the operation is not one of ['median', 'mean', 'quantile']
         """
         cols = [cols] if isinstance(cols, str) else cols
+        if operation not in ("median", "mean", "quantile"):
+            raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
+
         ts = self.timeseries()
         group_cols = list(set(ts.index.names) - set(cols))
-        grouper = ts.groupby(group_cols)
 
-        if operation == "median":
-            return grouper.median(**kwargs)
-        if operation == "mean":
-            return grouper.mean(**kwargs)
-        if operation == "quantile":
-            return grouper.quantile(**kwargs)
+        # groups with missing metadata would be dropped
+        na_fill_value = _get_na_fill_value([self._meta])
+        ts.index = pd.MultiIndex.from_frame(self._meta.fillna(na_fill_value))
+        res = getattr(ts.groupby(group_cols), operation)(**kwargs)
+        if self._meta[group_cols].isnull().any(axis=None):
+            index = res.index.to_frame().replace(na_fill_value, np.nan)
+            res.index = pd.MultiIndex.from_frame(index, names=res.index.names)
 
-        raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
+        return res
 
     def convert_unit(
         self,
@@ -1512,10 +1536,7 @@ def df_append(
 
     joint_meta_set = set(joint_meta)
 
-    # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
-    na_fill_value = -999
-    while any((d.meta == na_fill_value).any(axis=None) for d in joint_dfs):
-        na_fill_value -= 1
+    na_fill_value = _get_na_fill_value([d.meta for d in joint_dfs])
     for i, _ in enumerate(joint_dfs):
         for col in joint_meta_set:
             if col not in joint_dfs[i].meta:
-- 
2.43.0


From 1152fa14ed3793acfaa381d9faf6c11332f63366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:47 +0000
Subject: [PATCH 35/46] fix: long tables keep timeseries with missing metadata

---
 openscm/scmdataframe/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 60c74e0..f9a4c70 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -191,8 +191,12 @@ def _format_long_data(df):
         raise ValueError(msg)
 
     extra_cols = list(set(cols) - set(REQUIRED_COLS + [time_col, "value"]))
-    df = df.pivot_table(columns=REQUIRED_COLS + extra_cols, index=time_col).value
-    meta = df.columns.to_frame(index=None)
+    # pivoting would drop timeseries with missing metadata
+    meta_cols = REQUIRED_COLS + extra_cols
+    na_fill_value = _get_na_fill_value([df[meta_cols]])
+    df[meta_cols] = df[meta_cols].fillna(na_fill_value)
+    df = df.pivot_table(columns=meta_cols, index=time_col).value
+    meta = df.columns.to_frame(index=None).replace(na_fill_value, np.nan)
     df.columns = meta.index
 
     return df, meta
-- 
2.43.0


From 925908b53e0b03f04f68dec9ffc24e8fb8e5b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:05 +0000
Subject: [PATCH 36/46] fix: conversion to a data frame includes parameters in
 all levels of regions

---
 openscm/scmdataframe/__init__.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/__init__.py b/openscm/scmdataframe/__init__.py
index f032309..c833c1d 100644
--- a/openscm/scmdataframe/__init__.py
+++ b/openscm/scmdataframe/__init__.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from ..core.parameters import ParameterInfo, ParameterType, _Parameter
 from ..core.parameterset import ParameterSet
+from ..core.regions import _Region
 from .base import ScmDataFrameBase, df_append  # noqa: F401
 
 
@@ -108,17 +109,15 @@ def convert_openscm_to_scmdataframe(  # pylint: disable=too-many-locals
     data = []
 
     root_params: Dict[Tuple, ParameterInfo] = {}
-    for (
-        _,
-        value,
-    ) in parameterset._root._parameters.items():  # pylint: disable=protected-access
-        root_params.update(walk_parameters(value))
-    for (
-        _,
-        r,
-    ) in parameterset._root._children.items():  # pylint: disable=protected-access
-        for _, value in r._parameters.items():  # pylint: disable=protected-access
+
+    def walk_regions(region: _Region) -> None:
+        # pylint: disable=protected-access
+        for _, value in region._parameters.items():
             root_params.update(walk_parameters(value))
+        for _, child_region in region._children.items():
+            walk_regions(child_region)
+
+    walk_regions(parameterset._root)  # pylint: disable=protected-access
 
     for (param_name, region), p_info in root_params.items():
         # All meta values are stored as generic value (AKA no units)
-- 
2.43.0


From 7b8bfd5939441180268eeeb5f5cf1dc2298489ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:05 +0000
Subject: [PATCH 37/46] fix: conversion to a data frame leaves out parameters
 which were never written

---
 openscm/scmdataframe/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openscm/scmdataframe/__init__.py b/openscm/scmdataframe/__init__.py
index c833c1d..c613676 100644
--- a/openscm/scmdataframe/__init__.py
+++ b/openscm/scmdataframe/__init__.py
@@ -120,6 +120,9 @@ def convert_openscm_to_scmdataframe(  # pylint: disable=too-many-locals
     walk_regions(parameterset._root)  # pylint: disable=protected-access
 
     for (param_name, region), p_info in root_params.items():
+        if p_info.empty:  # only requested, never written
+            continue
+
         # All meta values are stored as generic value (AKA no units)
         # TODO: fix this
         if p_info.parameter_type == ParameterType.GENERIC:
-- 
2.43.0


From ba4e484f701888f2a452ceb8a0f6fd021b7703b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:53 +0000
Subject: [PATCH 38/46] fix: set_meta for part of the rows keeps the order of
 the timeseries

---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index f9a4c70..bb3eed9 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -965,7 +965,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             self._meta.loc[addressed, name] = meta.reindex(df.index[addressed]).values
             return
         self._meta = (
-            pd.merge(df, meta, left_index=True, right_index=True, how="outer")
+            pd.merge(df, meta, left_index=True, right_index=True, how="left")
             .reset_index()
             .set_index("index")
         )
-- 
2.43.0


From 47444196d39babf610375ecbcce735061b23b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:58 +0000
Subject: [PATCH 39/46] fix: timeseries given with dates as text are sorted by
 time

---
 openscm/scmdataframe/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index bb3eed9..e6b0d37 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -173,7 +173,8 @@ def _format_data(  # pylint: disable=missing-return-doc
     else:
         df, meta = _format_wide_data(df)
 
-    # sort data
+    # sort data by time, not by how the times are written
+    df.index = TimePoints(df.index.values).to_index()
     df.sort_index(inplace=True)
 
     return df, meta
-- 
2.43.0


From 5e532afc2f794147f3c431d00ebe5196b046fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:58 +0000
Subject: [PATCH 40/46] fix: making a data frame leaves the given data as it
 was

---
 openscm/scmdataframe/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index e6b0d37..c219c12 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -257,8 +257,7 @@ def _from_ts(
     ValueError
         Not all required columns are present
     """
-    if not isinstance(df, pd.DataFrame):
-        df = pd.DataFrame(df)
+    df = df.copy() if isinstance(df, pd.DataFrame) else pd.DataFrame(df)
     if index is not None:
         if isinstance(index, np.ndarray):
             df.index = TimePoints(index).to_index()
@@ -270,7 +269,7 @@ def _from_ts(
         missing = list(set(REQUIRED_COLS) - set(columns.keys()))
         raise ValueError("missing required columns `{}`!".format(missing))
 
-    df.index.name = "time"
+    df.index = df.index.rename("time")
 
     num_ts = len(df.columns)
     for c_name, col in columns.items():
-- 
2.43.0


From 205f68923f2606bc75582c3252fd1a3c262f6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:58 +0000
Subject: [PATCH 41/46] fix: set_meta with an index gives values to the rows it
 names

---
 openscm/scmdataframe/base.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index c219c12..95cc875 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -956,23 +956,16 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         meta = pd.Series(meta, index=index, name=name)
 
+        # only change the given rows
         df = self.meta.reset_index()
-        if all(index.names):
-            df = df.set_index(index.names)
-        if name in df.columns:
-            # only change the given rows of an existing column
-            addressed = df.index.isin(index)
-            self._meta.loc[addressed, name] = meta.reindex(df.index[addressed]).values
-            return
-        self._meta = (
-            pd.merge(df, meta, left_index=True, right_index=True, how="left")
-            .reset_index()
-            .set_index("index")
-        )
-        # Edge case of using a different index on meta
-        if "level_0" in self._meta:
-            self._meta.drop("level_0", axis=1, inplace=True)
-        self._sort_meta_cols()
+        df = df.set_index(index.names if all(index.names) else "index")
+        addressed = df.index.isin(index)
+        values = meta.reindex(df.index[addressed]).values
+        if name in self._meta:
+            self._meta.loc[addressed, name] = values
+        else:
+            self._meta[name] = pd.Series(values, index=self._meta.index[addressed])
+            self._sort_meta_cols()
 
     def interpolate(  # pylint: disable=too-many-locals
         self,
-- 
2.43.0


From cc2bc7f4df5ac65bd924d6e129ba8926c0b277dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:58 +0000
Subject: [PATCH 42/46] fix: reference period means with missing metadata

---
 openscm/scmdataframe/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 95cc875..5384616 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1340,11 +1340,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         ts = self.timeseries()
         # mypy confused by `inplace` default
-        ref_period_mean = (
-            self.filter(**kwargs).timeseries().mean(axis="columns")  # type: ignore
-        )
+        ref_period = self.filter(**kwargs)._data  # type: ignore
+        # align by timeseries, metadata can be missing (which pandas cannot align)
+        ref_period_mean = ref_period.mean().reindex(self._data.columns)
 
-        res = ts.sub(ref_period_mean, axis="rows")
+        res = ts.sub(ref_period_mean.values, axis="rows")
         res.reset_index(inplace=True)
 
         if append_str is None:
-- 
2.43.0


From 0d12f53d20bd9000e667d602a7fc4043ecfe3563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:31 +0000
Subject: [PATCH 43/46] fix: renaming metadata leaves other numbers of the
 column as they are

---
 openscm/scmdataframe/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 5384616..eb6e06d 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -884,7 +884,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for col, _mapping in mapping.items():
             if col not in meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            meta[col] = meta[col].replace(_mapping)
+            # (replace of pandas changes other values of columns with numbers)
+            meta[col] = [_mapping.get(x, x) for x in meta[col]]
             if meta.duplicated().any():
                 raise ValueError("Renaming to non-unique metadata for {}!".format(col))
         ret._meta = meta  # pylint: disable=protected-access
-- 
2.43.0


From 96d955424dfa824b628ad57823969635fbc11b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:36 +0000
Subject: [PATCH 44/46] fix: to_parameterset misread names of scalar columns
 with further parentheses

The unit of a column "name (unit)" was cut at the first closing parenthesis, so that
units like "W / (m ** 2)" and names with parentheses did not come back from a
ParameterSet.
---
 openscm/scmdataframe/base.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index eb6e06d..f5952b2 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -6,7 +6,6 @@ from __future__ import annotations
 import copy
 import datetime
 import os
-import re
 import warnings
 from logging import getLogger
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
@@ -292,6 +291,32 @@ def _from_ts(
     return df, meta
 
 
+def _split_scalar_column(column: str) -> Tuple[str, Optional[str]]:
+    """
+    Split the name of a metadata column into name and unit of a scalar parameter.
+
+    The unit is what is inside the pair of parentheses which ends :obj:`column`; both
+    the unit and the name might contain parentheses themselves.
+
+    Parameters
+    ----------
+    column
+        Name of the column
+
+    Returns
+    -------
+    Tuple[str, Optional[str]]
+        Name and unit (None if the column does not hold a scalar parameter)
+    """
+    if column.endswith(")"):
+        depth = 0
+        for i in range(len(column) - 1, -1, -1):
+            depth += (column[i] == ")") - (column[i] == "(")
+            if depth == 0:
+                return column[:i].strip(), column[i + 1 : -1].strip()
+    return column, None
+
+
 class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
     """
     Base of OpenSCM's custom DataFrame implementation.
@@ -548,11 +573,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                 timeseries_type=timeseries_type,
             ).values = vals.values
 
-        unit_regexp = re.compile(r".*\(.*\)")
         for k, v in meta_values.iteritems():
-            if unit_regexp.match(k):
-                para_name = k.split("(")[0].strip()
-                para_unit = k.split("(")[1].split(")")[0].strip()
+            para_name, para_unit = _split_scalar_column(k)
+            if para_unit is not None:
                 parameterset.scalar(para_name, para_unit).value = v
             else:
                 parameterset.generic(k).value = v
-- 
2.43.0


From e5c68b9db8a1fccaf719f7d09f59984233937b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:50 +0000
Subject: [PATCH 45/46] fix: text filters stopped at line breaks in metadata

'*' did not match line breaks, and a pattern matched values which continue
with a line break after it.
---
 openscm/scmdataframe/filters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index a427589..a27dae2 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -170,8 +170,10 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
     for s in _values:
         if isinstance(s, str):
             # everything but `*` is to be taken literally
-            _regexp = ".*".join(re.escape(part) for part in str(s).split("*")) + "$"
-            pattern = re.compile(_regexp if not regexp else str(s))
+            _regexp = ".*".join(re.escape(part) for part in str(s).split("*")) + r"\Z"
+            pattern = (
+                re.compile(_regexp, re.DOTALL) if not regexp else re.compile(str(s))
+            )
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
             except TypeError as e:
-- 
2.43.0


From 955062a01c858154179c49ee9db5fb60e6803495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:50 +0000
Subject: [PATCH 46/46] fix: elements of timeseries read with numpy integers
 were no numbers

---
 openscm/core/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 5f4a704..db6799a 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -107,7 +107,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     def __getitem__(self, item):
         self.__read__()
         result = self._ndarray[item]
-        if not isinstance(item, int):
+        if isinstance(result, np.ndarray):  # not a single value
             result = type(self)(result, self._parameter_view)
         return result
 
-- 
2.43.0

