From d677f03dcbd0339548b696b6a3ba33ddc222b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:55 +0000
Subject: [PATCH 01/28] fix: restore the validation level when a
 validation_level block raises

---
 gemd/entity/bounds_validation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemd/entity/bounds_validation.py b/gemd/entity/bounds_validation.py
index 3b8c039..3af5cfe 100644
--- a/gemd/entity/bounds_validation.py
+++ b/gemd/entity/bounds_validation.py
@@ -39,7 +39,8 @@ def validation_level(level: WarningLevel):
     global BOUNDS_VALIDATION
     # Swap values and store
     old_value, BOUNDS_VALIDATION = BOUNDS_VALIDATION, WarningLevel(level)
-    yield old_value  # Since we know the new level, the old one may be useful
-
-    # Restore previous value
-    BOUNDS_VALIDATION = old_value
+    try:
+        yield old_value  # Since we know the new level, the old one may be useful
+    finally:
+        # Restore previous value
+        BOUNDS_VALIDATION = old_value
-- 
2.43.0


From a09635d7c74f29efe5414f47b3627f72b4450437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:42 +0000
Subject: [PATCH 02/28] fix: reject a mistyped process or material before
 dropping the old two-way link

---
 gemd/entity/object/ingredient_run.py  | 14 +++++++-------
 gemd/entity/object/material_run.py    |  7 ++++---
 gemd/entity/object/measurement_run.py | 12 ++++++------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index 4be4a69..d5cdca9 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -123,17 +123,17 @@ class IngredientRun(BaseObject,
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
+        if process is not None and not isinstance(process, (LinkByUID, ProcessRun)):
+            raise TypeError("IngredientRun.process must be a ProcessRun or "
+                            "LinkByUID: {}".format(process))
+
         if isinstance(self._process, ProcessRun):
             # This could throw an exception if it's not in the list, but then something else broke
             self._process.ingredients.remove(self)
 
-        if process is None or isinstance(process, (LinkByUID, ProcessRun)):
-            self._process = process
-            if isinstance(process, ProcessRun):
-                process.ingredients.append(self)
-        else:
-            raise TypeError("IngredientRun.process must be a ProcessRun or "
-                            "LinkByUID: {}".format(process))
+        self._process = process
+        if isinstance(process, ProcessRun):
+            process.ingredients.append(self)
 
     @staticmethod
     def _spec_type() -> Type:
diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index a99fd70..6d0cd20 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -74,17 +74,18 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
+        if process is not None and not isinstance(process, (ProcessRun, LinkByUID)):
+            raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
+
         if self.process is not None and isinstance(self.process, ProcessRun):
             self.process._output_material = None
         if process is None:
             self._process = None
         elif isinstance(process, LinkByUID):
             self._process = process
-        elif isinstance(process, ProcessRun):
+        else:
             process._output_material = self
             self._process = process
-        else:
-            raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
 
     @property
     def measurements(self) -> List[MeasurementRunType]:
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index 60e4230..4efed47 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -91,16 +91,16 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
 
     @material.setter
     def material(self, value: Union[MaterialRun, LinkByUID]):
+        if value is not None and not isinstance(value, (MaterialRun, LinkByUID)):
+            raise TypeError("material must be a MaterialRun or LinkByUID: {}".format(value))
+
         if isinstance(self._material, MaterialRun):
             # This could throw an exception if it's not in the list, but then something else broke
             self._material.measurements.remove(self)
 
-        if value is None or isinstance(value, (MaterialRun, LinkByUID)):
-            self._material = value
-            if isinstance(value, MaterialRun):
-                value.measurements.append(self)
-        else:
-            raise TypeError("material must be a MaterialRun or LinkByUID: {}".format(value))
+        self._material = value
+        if isinstance(value, MaterialRun):
+            value.measurements.append(self)
 
     @staticmethod
     def _spec_type() -> Type:
-- 
2.43.0


From fab3d70fde5e26332f56077d08332d285bef5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:42 +0000
Subject: [PATCH 03/28] fix: leaving a process does not unlink another material
 that now owns it

---
 gemd/entity/object/material_run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index 6d0cd20..473589e 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -78,7 +78,8 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
             raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
 
         if self.process is not None and isinstance(self.process, ProcessRun):
-            self.process._output_material = None
+            if self.process._output_material is self:  # It might have been reassigned
+                self.process._output_material = None
         if process is None:
             self._process = None
         elif isinstance(process, LinkByUID):
-- 
2.43.0


From 0ec8a8e8684fd88cf11890c2d5ad4d5b78b875c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:42 +0000
Subject: [PATCH 04/28] fix: a MaterialRun rejected for its sample type is not
 left attached to its process

---
 gemd/entity/object/material_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index 473589e..8e13ad7 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -64,8 +64,8 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
         self._measurements = validate_list(None, [MeasurementRun, LinkByUID])
         self._sample_type = None
 
-        self.process = process
         self.sample_type = sample_type
+        self.process = process
 
     @property
     def process(self) -> Union[ProcessRun, LinkByUID]:
-- 
2.43.0


From d38ec132b4d9f19b6b529afd25092ecaa3e04e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:42 +0000
Subject: [PATCH 05/28] fix: accept a valid absolute quantity when the
 validation level is FATAL

---
 gemd/entity/object/has_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/has_quantities.py b/gemd/entity/object/has_quantities.py
index 5c366eb..d6e9d2b 100644
--- a/gemd/entity/object/has_quantities.py
+++ b/gemd/entity/object/has_quantities.py
@@ -120,6 +120,6 @@ class HasQuantities(object):
                 if level == WarningLevel.WARNING:
                     for message in messages:
                         logger.warning(message)
-                else:
+                elif messages:
                     raise ValueError("; ".join(messages))
             self._absolute_quantity = absolute_quantity
-- 
2.43.0


From fe381ea52e724884c9d60e4de0a1c5c34ea396f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:42 +0000
Subject: [PATCH 06/28] fix: allow changing the value of an attribute whose
 template is a link

---
 gemd/entity/attribute/base_attribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/attribute/base_attribute.py b/gemd/entity/attribute/base_attribute.py
index c38aa02..8820589 100644
--- a/gemd/entity/attribute/base_attribute.py
+++ b/gemd/entity/attribute/base_attribute.py
@@ -77,7 +77,7 @@ class BaseAttribute(DictSerializable):
         if value is None:
             self._value = None
         elif isinstance(value, BaseValue):
-            if self.template is not None:
+            if isinstance(self.template, AttributeTemplate):
                 self._check(self.template, value)
             self._value = value
         else:
-- 
2.43.0


From a95cd804e529e152e9d4e3b7e3ad9c2867d7fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:25 +0000
Subject: [PATCH 07/28] fix: check unlinked attributes against object templates
 that hold links

---
 gemd/entity/template/has_condition_templates.py | 3 ++-
 gemd/entity/template/has_parameter_templates.py | 3 ++-
 gemd/entity/template/has_property_templates.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 6714b10..d8074ef 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -77,7 +77,8 @@ class HasConditionTemplates(HasDependencies):
             attr, bnd = next((x for x in self.conditions if condition.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.conditions if condition.name == x[0].name),
+            attr, bnd = next((x for x in self.conditions
+                              if isinstance(x[0], ConditionTemplate) and condition.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 423c3eb..a004ca1 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -77,7 +77,8 @@ class HasParameterTemplates(HasDependencies):
             attr, bnd = next((x for x in self.parameters if parameter.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.parameters if parameter.name == x[0].name),
+            attr, bnd = next((x for x in self.parameters
+                              if isinstance(x[0], ParameterTemplate) and parameter.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 0495fd2..818da97 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -79,7 +79,8 @@ class HasPropertyTemplates(HasDependencies):
             attr, bnd = next((x for x in self.properties if prop.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.properties if prop.name == x[0].name),
+            attr, bnd = next((x for x in self.properties
+                              if isinstance(x[0], PropertyTemplate) and prop.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
-- 
2.43.0


From b9430e0c386f0a4b910cba7c8f973c329c63f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:25 +0000
Subject: [PATCH 08/28] fix: keep the contents of one-shot iterators given to
 validated lists

---
 gemd/entity/template/has_condition_templates.py |  1 +
 gemd/entity/template/has_parameter_templates.py |  1 +
 gemd/entity/template/has_property_templates.py  |  1 +
 gemd/entity/valid_list.py                       | 10 +++++-----
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index d8074ef..4198b07 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -64,6 +64,7 @@ class HasConditionTemplates(HasDependencies):
 
         """
         if isinstance(conditions, Iterable):
+            conditions = list(conditions)  # Only iterate once, in case it's a one-shot iterator
             if any(isinstance(x, BaseBounds) for x in conditions):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index a004ca1..17401d9 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -64,6 +64,7 @@ class HasParameterTemplates(HasDependencies):
 
         """
         if isinstance(parameters, Iterable):
+            parameters = list(parameters)  # Only iterate once, in case it's a one-shot iterator
             if any(isinstance(x, BaseBounds) for x in parameters):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 818da97..6527a5e 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -62,6 +62,7 @@ class HasPropertyTemplates(HasDependencies):
 
         """
         if isinstance(properties, Iterable):
+            properties = list(properties)  # Only iterate once, in case it's a one-shot iterator
             if any(isinstance(x, BaseBounds) for x in properties):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 5264782..d11d1e1 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -42,16 +42,16 @@ class ValidList(list):
         for elem in self._content_type:
             if not isinstance(elem, type):
                 raise TypeError('Content filters must be types')
-        for value in _list:
+        cache = list(_list)  # Only iterate once, in case it's a one-shot iterator
+        for value in cache:
             self._validate(value)
 
         self._trigger = None
-        cache = list(_list)
         if trigger is not None:
             if not callable(trigger):
                 raise TypeError('Triggers must be callable')
             self._trigger = trigger
-            for i, value in enumerate(_list):
+            for i, value in enumerate(cache):
                 result = self._trigger(value)
                 if result is not None:
                     cache[i] = result
@@ -149,12 +149,12 @@ class ValidList(list):
 
         """
         if isinstance(list_, Iterable):
-            for value in list_:
+            cache = list(list_)  # So that we don't edit a passed reference
+            for value in cache:
                 self._validate(value)
         else:
             raise TypeError("'{}' object is not iterable".format(type(list_)))
 
-        cache = list(list_)  # So that we don't edit a passed reference
         if self._trigger is not None:
             for i, value in enumerate(cache):
                 result = self._trigger(value)
-- 
2.43.0


From 3e31642e6120c652bd9794fa069db6c53c2af4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:25 +0000
Subject: [PATCH 09/28] fix: validate the elements that += adds to a validated
 list

---
 gemd/entity/valid_list.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index d11d1e1..0ab29d6 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -163,6 +163,11 @@ class ValidList(list):
 
         super().extend(cache)
 
+    def __iadd__(self, list_):
+        """Implement self += list_; equivalent to extend, including the validation."""
+        self.extend(list_)
+        return self
+
     def insert(self, i, value):
         """
         Insert a value at a given position, if it is one of the allowed types.
-- 
2.43.0


From 8c0c63dcb72679eede81fd3775ff40d9d6491463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:25 +0000
Subject: [PATCH 10/28] fix: rejected categories or components leave the bounds
 as they were

---
 gemd/entity/bounds/categorical_bounds.py | 11 +++++------
 gemd/entity/bounds/composition_bounds.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/gemd/entity/bounds/categorical_bounds.py b/gemd/entity/bounds/categorical_bounds.py
index 20be8ac..8643918 100644
--- a/gemd/entity/bounds/categorical_bounds.py
+++ b/gemd/entity/bounds/categorical_bounds.py
@@ -32,16 +32,15 @@ class CategoricalBounds(BaseBounds, typ="categorical_bounds"):
     @categories.setter
     def categories(self, categories: Optional[Iterable[str]]):
         if categories is None:
-            self._categories = set()
+            categories = set()
         elif isinstance(categories, array_like()):
-            self._categories = set(categories)
-        elif isinstance(categories, set):
-            self._categories = categories
-        else:
+            categories = set(categories)
+        elif not isinstance(categories, set):
             raise ValueError("Categories must be a list, tuple, or set")
 
-        if not all(isinstance(x, str) for x in self.categories):
+        if not all(isinstance(x, str) for x in categories):
             raise ValueError("All the categories must be strings")
+        self._categories = categories
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
diff --git a/gemd/entity/bounds/composition_bounds.py b/gemd/entity/bounds/composition_bounds.py
index 3b2ff8f..df83ee8 100644
--- a/gemd/entity/bounds/composition_bounds.py
+++ b/gemd/entity/bounds/composition_bounds.py
@@ -34,16 +34,15 @@ class CompositionBounds(BaseBounds, typ="composition_bounds"):
     def components(self, value: Iterable[str]):
         """Set collection of the components that are allowed in the composition."""
         if value is None:
-            self._components = set()
+            value = set()
         elif isinstance(value, array_like()):
-            self._components = set(value)
-        elif isinstance(value, set):
-            self._components = value
-        else:
+            value = set(value)
+        elif not isinstance(value, set):
             raise ValueError("Components must be a list, tuple, or set: {}".format(value))
 
-        if not all(isinstance(x, str) for x in self.components):
+        if not all(isinstance(x, str) for x in value):
             raise ValueError("All the components must be strings")
+        self._components = value
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
-- 
2.43.0


From da4d28e91869e69514ec37b2f9dd191e65e201b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 11/28] fix: a conflicting CaseInsensitiveDict.update leaves
 the dictionary as it was

---
 gemd/entity/case_insensitive_dict.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 6aac2b3..7457e40 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -157,23 +157,17 @@ class CaseInsensitiveDict(dict):
             Alternatively, the set of keyword arguments
 
         """
-        if mapping is None:
-            mapping = dict()
-            no_mapping = True
-        else:
-            no_mapping = False
-        for key in list(mapping.keys()) + list(kwargs.keys()):
-            if key.lower() in self.lowercase_dict:
-                prev = self.lowercase_dict[key.lower()]
-                if prev != key:
-                    raise ValueError(
-                        "Key '{}' already exists in dict with different case: "
-                        "'{}'".format(key, prev))
-        if no_mapping:
-            super().update(**kwargs)
-        else:
-            super().update(mapping, **kwargs)
-        for key in list(mapping.keys()) + list(kwargs.keys()):
+        update = dict() if mapping is None else dict(mapping)
+        update.update(kwargs)
+        added = dict()  # Conflicts can also be among the keys that are passed
+        for key in update:
+            prev = self.lowercase_dict.get(key.lower(), added.setdefault(key.lower(), key))
+            if prev != key:
+                raise ValueError(
+                    "Key '{}' already exists in dict with different case: "
+                    "'{}'".format(key, prev))
+        super().update(update)
+        for key in update:
             self._register_key(key)
 
     def _register_key(self, key: str) -> None:
-- 
2.43.0


From d658c0794dc30dd4914be5755200b944e895a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 12/28] fix: keep CaseInsensitiveDict keys registered through
 setdefault, |=, copy and pickle

---
 gemd/entity/case_insensitive_dict.py | 31 ++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 7457e40..9341fbf 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -170,6 +170,37 @@ class CaseInsensitiveDict(dict):
         for key in update:
             self._register_key(key)
 
+    def __ior__(self, other) -> 'CaseInsensitiveDict':
+        """Implement self |= other; equivalent to update."""
+        self.update(other)
+        return self
+
+    def setdefault(self, key: str, default: Any = None) -> Any:
+        """
+        Return the value for a given key, after inserting a default if there is none.
+
+        Parameters
+        ----------
+        key: str
+            The key to look up (possibly with a different casing).
+
+        default: Any
+            The value to insert if the key is not present.
+
+        Returns
+        -------
+        Any
+            The value associated with the case-insensitive version of `key`
+
+        """
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def __reduce__(self):
+        """Copy and pickle by content, so that no two copies share their key registry."""
+        return type(self), (dict(self),)
+
     def _register_key(self, key: str) -> None:
         """
         Register a key to the dictionary.
-- 
2.43.0


From ae575afd2788bd6c029f7f338d2d94648f330276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 13/28] fix: builders that reject their input leave no
 half-made object attached

---
 gemd/builders/impl.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gemd/builders/impl.py b/gemd/builders/impl.py
index 395755d..1dc378d 100644
--- a/gemd/builders/impl.py
+++ b/gemd/builders/impl.py
@@ -150,11 +150,9 @@ def add_edge(input_material: MaterialRun,
     if name is None:
         name = input_material.name
     my_ingredient_spec = IngredientSpec(name=name,
-                                        process=output_spec.process,
                                         material=input_material.spec
                                         )
     my_ingredient_run = IngredientRun(spec=my_ingredient_spec,
-                                      process=output_material.process,
                                       material=input_material
                                       )
 
@@ -185,6 +183,10 @@ def add_edge(input_material: MaterialRun,
         raise ValueError("Absolute Units are only used if "
                          "Absolute Quantity is given as is a float.")
 
+    # Only attach the ingredients to the processes once all of the inputs were accepted
+    my_ingredient_spec.process = output_spec.process
+    my_ingredient_run.process = output_material.process
+
     return my_ingredient_run
 
 
@@ -231,7 +233,7 @@ def add_measurement(material: MaterialRun,
             name = template.name
 
     my_measurement_spec = MeasurementSpec(name, template=template)
-    my_measurement_run = MeasurementRun(name, spec=my_measurement_spec, material=material)
+    my_measurement_run = MeasurementRun(name, spec=my_measurement_spec)
 
     if attributes is not None:
         for attribute in attributes:
@@ -244,6 +246,9 @@ def add_measurement(material: MaterialRun,
             else:
                 raise ValueError(f"Unhandled Attribute type {type(attribute)}")
 
+    # Only attach the measurement to the material once all of the inputs were accepted
+    my_measurement_run.material = material
+
     return my_measurement_run
 
 
-- 
2.43.0


From c0da6e9a8b735952b1afaa22918b21c92336412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 14/28] fix: generate the first uid of an entity once when
 threads serialize a shared graph

---
 gemd/entity/link_by_uid.py | 8 ++++++--
 gemd/util/impl.py          | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/gemd/entity/link_by_uid.py b/gemd/entity/link_by_uid.py
index b8c10c3..7395359 100644
--- a/gemd/entity/link_by_uid.py
+++ b/gemd/entity/link_by_uid.py
@@ -1,4 +1,5 @@
 """A unique id that stands in for a data object."""
+from threading import Lock
 from typing import TypeVar
 import uuid
 
@@ -7,6 +8,8 @@ from gemd.entity.dict_serializable import DictSerializable
 __all__ = ["LinkByUID"]
 BaseEntityType = TypeVar("BaseEntityType", bound="BaseEntity")  # noqa: F821
 
+_UID_LOCK = Lock()  # An entity's first uid must be generated once, whichever thread needs it
+
 
 class LinkByUID(DictSerializable, typ="link_by_uid"):
     """
@@ -59,8 +62,9 @@ class LinkByUID(DictSerializable, typ="link_by_uid"):
         if scope in entity.uids:
             uid = entity.uids[scope]
         else:
-            if not entity.uids:
-                entity.add_uid(scope, str(uuid.uuid4()))
+            with _UID_LOCK:
+                if not entity.uids:
+                    entity.add_uid(scope, str(uuid.uuid4()))
             scope, uid = next((s, i) for s, i in entity.uids.items())
         return LinkByUID(scope, uid)
 
diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 3e808a8..0bec0bd 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -6,7 +6,7 @@ from typing import Optional, Union, Type, Iterable, MutableSequence, List, Tuple
 
 from gemd.entity.base_entity import BaseEntity
 from gemd.entity.dict_serializable import DictSerializable
-from gemd.entity.link_by_uid import LinkByUID
+from gemd.entity.link_by_uid import LinkByUID, _UID_LOCK
 
 
 def set_uuids(obj, scope):
@@ -28,8 +28,9 @@ def set_uuids(obj, scope):
 
     """
     def func(base_obj):
-        if len(base_obj.uids) == 0:
-            base_obj.add_uid(scope, str(uuid.uuid4()))
+        with _UID_LOCK:
+            if len(base_obj.uids) == 0:
+                base_obj.add_uid(scope, str(uuid.uuid4()))
         return
     recursive_foreach(obj, func)
     return
-- 
2.43.0


From 432f78dd5695b73376ffad38d078cde59300790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:09 +0000
Subject: [PATCH 15/28] fix: check the elements of a slice assigned to a
 validated list

---
 gemd/entity/valid_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 0ab29d6..3d96769 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -100,6 +100,9 @@ class ValidList(list):
             `value` is inserted into the list at position `index`, if it is valid.
 
         """
+        if isinstance(index, slice):  # Each element needs to be checked, not their container
+            super().__setitem__(index, ValidList(value, self._content_type, self._trigger))
+            return
         self._validate(value)
         if self._trigger is not None:
             result = self._trigger(value)
-- 
2.43.0


From 35112b52b8167de76ad598b102946c3532c984fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:51 +0000
Subject: [PATCH 16/28] fix: keep equal but different primitives apart, and
 support tuples of lists, in graph traversals

---
 gemd/util/impl.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 0bec0bd..5fd0fe3 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -86,6 +86,17 @@ def _cached_issubclass(
     return issubclass(cls, class_or_tuple)
 
 
+def _can_memoize(obj: object) -> bool:
+    """
+    Whether tracking that an object was visited cannot confuse it with a different one.
+
+    Primitives that differ can be equal (e.g., 1 == 1.0 == True), as can tuples that contain them,
+    and tuples are not hashable if they contain a list or a dictionary.
+
+    """
+    return obj.__hash__ is not None and not cached_isinstance(obj, (float, int, str, tuple))
+
+
 def _substitute(thing: Any,
                 sub: Callable[[object], object],
                 applies: Callable[[object], bool],
@@ -108,12 +119,12 @@ def _substitute(thing: Any,
     """
     if visited is None:
         visited = {}
-    if thing.__hash__ is not None and thing in visited:
+    if _can_memoize(thing) and thing in visited:
         return visited[thing]
 
     if applies(thing):
         replacement = sub(thing)
-        if thing.__hash__ is not None:
+        if _can_memoize(thing):
             visited[thing] = replacement
     else:
         replacement = thing
@@ -132,7 +143,7 @@ def _substitute(thing: Any,
     else:
         new = replacement
 
-    if thing.__hash__ is not None:
+    if _can_memoize(thing):
         visited[thing] = new
 
     return new
@@ -159,7 +170,7 @@ def _substitute_inplace(thing: Any,
 
     """
     def _key(obj):
-        if cached_isinstance(obj, (float, int, str)):
+        if cached_isinstance(obj, (float, int, str, tuple)):
             return None
         elif obj.__hash__ is not None:
             return obj
@@ -184,7 +195,6 @@ def _substitute_inplace(thing: Any,
             thing[i] = _substitute_inplace(x, sub, applies, visited)
     elif cached_isinstance(thing, Tuple):  # Tuples are immutable; regenerate
         thing = tuple(_substitute_inplace(x, sub, applies, visited) for x in thing)
-        visited[orig_key] = thing  # We mutated it
     elif cached_isinstance(thing, Mapping):  # Change dict in place, both keys & values
         remove = set()  # Store todos because can't mutate a dict in a loop
         update = dict()
@@ -419,7 +429,7 @@ def recursive_foreach(obj: Union[Iterable, DictSerializable],
 
     while queue:
         this = queue.pop()
-        if this.__hash__ is not None:
+        if this.__hash__ is not None and not cached_isinstance(this, tuple):
             if this in seen:
                 continue
             else:
@@ -478,7 +488,7 @@ def recursive_flatmap(obj: Union[Iterable, DictSerializable],
     while queue:
         this = queue.pop()
 
-        if this.__hash__ is not None:
+        if this.__hash__ is not None and not cached_isinstance(this, tuple):
             if this in seen:
                 continue
             else:
-- 
2.43.0


From 3ed91ec481877492279b4a922aac0cb8158b51b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:10 +0000
Subject: [PATCH 17/28] fix: substitute objects for links regardless of the
 case of the scope

---
 gemd/util/impl.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 5fd0fe3..a273f2b 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -260,7 +260,8 @@ def make_index(obj: Union[Iterable, BaseEntity, DictSerializable]):
 
     This method builds a dictionary of GEMD objects found by recursively crawling the passed
     object, indexed by all scope:id tuples found in any of the objects.  The passed object can
-    be a list, tuple, dictionary or GEMD object.
+    be a list, tuple, dictionary or GEMD object.  As scopes are case-insensitive, each object is
+    also indexed by the lower case version of its scopes.
 
     Parameters
     ----------
@@ -274,6 +275,7 @@ def make_index(obj: Union[Iterable, BaseEntity, DictSerializable]):
     idx = {}
     for uid, target in recursive_flatmap(obj, _make_index):
         idx[uid] = target
+        idx[LinkByUID(scope=uid.scope.lower(), id=uid.id)] = target
 
     return idx
 
@@ -337,8 +339,14 @@ def substitute_objects(obj,
     else:
         method = _substitute
 
+    def _find(link: LinkByUID):
+        """Look up a link as it is spelled, or else without regard to the case of its scope."""
+        if link in index:
+            return index[link]
+        return index.get(LinkByUID(scope=link.scope.lower(), id=link.id), link)
+
     return method(obj,
-                  sub=lambda link: index.get(link, link),
+                  sub=_find,
                   applies=lambda o: cached_isinstance(o, LinkByUID))
 
 
-- 
2.43.0


From c11929fcc2977b030f14b4785509dfd89d62231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:51 +0000
Subject: [PATCH 18/28] fix: bounds and compositions do not share the set or
 dictionary they are given

---
 gemd/entity/bounds/categorical_bounds.py | 4 ++--
 gemd/entity/bounds/composition_bounds.py | 4 ++--
 gemd/entity/value/nominal_composition.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gemd/entity/bounds/categorical_bounds.py b/gemd/entity/bounds/categorical_bounds.py
index 8643918..47387af 100644
--- a/gemd/entity/bounds/categorical_bounds.py
+++ b/gemd/entity/bounds/categorical_bounds.py
@@ -33,9 +33,9 @@ class CategoricalBounds(BaseBounds, typ="categorical_bounds"):
     def categories(self, categories: Optional[Iterable[str]]):
         if categories is None:
             categories = set()
-        elif isinstance(categories, array_like()):
+        elif isinstance(categories, (set, *array_like())):
             categories = set(categories)
-        elif not isinstance(categories, set):
+        else:
             raise ValueError("Categories must be a list, tuple, or set")
 
         if not all(isinstance(x, str) for x in categories):
diff --git a/gemd/entity/bounds/composition_bounds.py b/gemd/entity/bounds/composition_bounds.py
index df83ee8..8c96a2d 100644
--- a/gemd/entity/bounds/composition_bounds.py
+++ b/gemd/entity/bounds/composition_bounds.py
@@ -35,9 +35,9 @@ class CompositionBounds(BaseBounds, typ="composition_bounds"):
         """Set collection of the components that are allowed in the composition."""
         if value is None:
             value = set()
-        elif isinstance(value, array_like()):
+        elif isinstance(value, (set, *array_like())):
             value = set(value)
-        elif not isinstance(value, set):
+        else:
             raise ValueError("Components must be a list, tuple, or set: {}".format(value))
 
         if not all(isinstance(x, str) for x in value):
diff --git a/gemd/entity/value/nominal_composition.py b/gemd/entity/value/nominal_composition.py
index ca3f891..f11a26b 100644
--- a/gemd/entity/value/nominal_composition.py
+++ b/gemd/entity/value/nominal_composition.py
@@ -38,7 +38,7 @@ class NominalComposition(CompositionValue, typ="nominal_composition"):
         if quantities is None:
             self._quantities = {}
         elif isinstance(quantities, dict):
-            self._quantities = quantities
+            self._quantities = dict(quantities)
         elif isinstance(quantities, list):
             self._quantities = dict(quantities)
         else:
-- 
2.43.0


From aeda46a85a01841ca69c5f712a295b180c909791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:55 +0000
Subject: [PATCH 19/28] fix: a validated list removes the object it is given,
 not an earlier one that compares equal

---
 gemd/entity/valid_list.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 3d96769..d4121c4 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -197,3 +197,33 @@ class ValidList(list):
             if result is not None:
                 value = result
         super().insert(i, value)
+
+    def remove(self, value):
+        """
+        Remove a value from the list.
+
+        If the value is an object that is itself in the list, that very object is removed,
+        even if a different object that compares equal to it precedes it.
+
+        Parameters
+        ----------
+        value: Any
+            The value to remove from the list.
+
+        Returns
+        -------
+        None
+            The first occurrence of `value` is removed from the list.
+
+        Raises
+        ------
+        ValueError
+            If `value` is not in the list.
+
+        """
+        if not isinstance(value, str):
+            for i, x in enumerate(self):
+                if x is value:
+                    del self[i]
+                    return
+        super().remove(value)
-- 
2.43.0


From 815d3927ff3291ed0500c8d2724f2ea706f2e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:48 +0000
Subject: [PATCH 20/28] fix: replace only the scaling term itself, not every
 equal number, in a unit expression

---
 gemd/units/impl.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index fcc1ec0..7f928b9 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -117,13 +117,13 @@ def _scaling_find_blocks(token_stream: Generator[TokenInfo, Any, None]) -> List[
 def _scaling_identify_factors(
         input_string: str,
         blocks: List[List[TokenInfo]]
-) -> List[Tuple[str, str, str]]:
+) -> List[Tuple[int, int, str, str]]:
     """
     Supporting routine for _scaling_preprocessor; blocks -> scaling terms.
 
     Takes the input_string and the blocks output by _scaling_find_blocks and
-    returns a tuple of the substrings that contain scaling factors, the scaling
-    factor itself, and the unit string.
+    returns a tuple of where the substrings that contain scaling factors start and
+    end, the scaling factor itself, and the unit string.
 
     """
     todo = []
@@ -142,12 +142,11 @@ def _scaling_identify_factors(
             if i_name is not None and i_name < position:
                 raise ValueError(f"Scaling factor ({value}) follows unit in {input_string}")
             if float(value) != 1.0 and float(value) != 0.0:  # Don't create definitions for 0 or 1
-                block_string = input_string[block[0].start[1]:block[-1].end[1]]
                 if i_name is None:
                     unit_string = None
                 else:
                     unit_string = input_string[block[position + 1].start[1]:block[i_name].end[1]]
-                todo.append((block_string, value, unit_string))
+                todo.append((block[0].start[1], block[-1].end[1], value, unit_string))
         elif len(numbers) > 1:
             raise ValueError(
                 f"Replicate scaling factor ({[n[1] for n in numbers]}) in {input_string}"
@@ -156,7 +155,10 @@ def _scaling_identify_factors(
     return todo
 
 
-def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]]) -> str:
+def _scaling_store_and_mangle(
+        input_string: str,
+        todo: List[Tuple[int, int, str, str]]
+) -> str:
     """
     Supporting routine for _scaling_preprocessor; scaling terms -> updated input_string.
 
@@ -164,8 +166,8 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
     creating an entry for each in the registry.
 
     """
-    for scaled_term, number_string, unit_string in todo:
-        regex = rf"(?<![-+0-9.]){re.escape(scaled_term)}(?![0-9.])"
+    for start, end, number_string, unit_string in reversed(todo):  # So positions stay valid
+        scaled_term = input_string[start:end]
         stripped = re.sub(
             r"(?<=\d)_(?=\d)", "", re.sub(r"[+\s]+", "", scaled_term).replace("--", "")
         )
@@ -188,7 +190,7 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
             # Parse subexpression to clean things up for define
             value = f"{_REGISTRY.parse_expression(scaled_term)}"
             _REGISTRY.define(f"{valid} = {value} = {short}")
-        input_string = re.sub(regex, valid, input_string)
+        input_string = input_string[:start] + valid + input_string[end:]
 
     return input_string
 
-- 
2.43.0


From 4e5573de1d29ddd5bc8fc98c050c1a74577a38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:56 +0000
Subject: [PATCH 21/28] fix: scaling factors with bare decimal points are not
 mistaken for negative ones

---
 gemd/units/impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 7f928b9..76622d4 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -168,8 +168,11 @@ def _scaling_store_and_mangle(
     """
     for start, end, number_string, unit_string in reversed(todo):  # So positions stay valid
         scaled_term = input_string[start:end]
+        # Avoid bare decimal points, since they would be indistinguishable from minus signs
+        clean_number = re.sub(r"^\.", "0.", re.sub(r"\.(?!\d)", "", number_string))
+        stripped = scaled_term.replace(number_string, clean_number, 1)
         stripped = re.sub(
-            r"(?<=\d)_(?=\d)", "", re.sub(r"[+\s]+", "", scaled_term).replace("--", "")
+            r"(?<=\d)_(?=\d)", "", re.sub(r"[+\s]+", "", stripped).replace("--", "")
         )
 
         if unit_string is not None:
-- 
2.43.0


From b7442e6f94d6c5fe9dcbb8c14d34425bc6b466ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:04 +0000
Subject: [PATCH 22/28] fix: print units with scaling factors so that they can
 be parsed again

---
 gemd/units/impl.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 76622d4..41eb8b9 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -221,6 +221,19 @@ def _unmangle_scaling(input_string: str) -> str:
     return input_string
 
 
+def _unmangle_format(formatted: str) -> str:
+    """Convert a formatted unit w/ mangled scaling values into one that can be parsed again."""
+    def _repeat(matchobj: re.Match) -> str:
+        operator = matchobj.group(1) or " * "
+        return matchobj.group(1) + operator.join([matchobj.group(2)] * int(matchobj.group(3)))
+
+    # Scaling factors cannot have exponents and cannot be the leading term
+    result = re.sub(r"(^| [*/] )(_\w+) \*\* (\d+)(?:\.0)?(?![\d.])", _repeat, formatted)
+    if result.startswith("_"):
+        result = f"1 * {result}"
+    return _unmangle_scaling(result)
+
+
 try:  # pragma: no cover
     # Pint 0.23 modified the preferred way to derive a custom class
     # https://pint.readthedocs.io/en/0.23/advanced/custom-registry-class.html
@@ -232,7 +245,7 @@ try:  # pragma: no cover
 
         def __format__(self, format_spec):
             result = super().__format__(format_spec)
-            return _unmangle_scaling(result)
+            return _unmangle_format(result)
 
     class _ScaleFactorQuantity(UnitRegistry.Quantity):
         """Child class of Quantity for generating units w/ clean scaling factors."""
@@ -252,7 +265,7 @@ except ImportError:  # pragma: no cover
 
         def __format__(self, format_spec):
             result = super().__format__(format_spec)
-            return _unmangle_scaling(result)
+            return _unmangle_format(result)
 
     class _ScaleFactorRegistry(UnitRegistry):
         """UnitRegistry class that uses _GemdUnits."""
-- 
2.43.0


From f161546fd7e100026c739f9dd320833d251e84c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:21 +0000
Subject: [PATCH 23/28] fix: unmangle each scaling factor by itself when one
 begins like another

---
 gemd/units/impl.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 41eb8b9..49e4e32 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -211,14 +211,16 @@ def _scaling_preprocessor(input_string: str) -> str:
 def _unmangle_scaling(input_string: str) -> str:
     """Convert mangled scaling values into a pint-compatible expression."""
     number_re = r'\b_(_)?(\d+)(_\d+)?([eE]_?\d+)?(_(?=[a-zA-Z]))?'
-    while match := re.search(number_re, input_string):
-        replacement = '' if match.group(1) is None else '-'
-        replacement += match.group(2)
-        replacement += '' if match.group(3) is None else match.group(3).replace('_', '.')
-        replacement += '' if match.group(4) is None else match.group(4).replace('_', '-')
-        replacement += '' if match.group(5) is None else match.group(5).replace('_', ' ')
-        input_string = input_string.replace(match.group(0), replacement)
-    return input_string
+
+    def _as_number(matchobj: re.Match) -> str:
+        replacement = '' if matchobj.group(1) is None else '-'
+        replacement += matchobj.group(2)
+        replacement += '' if matchobj.group(3) is None else matchobj.group(3).replace('_', '.')
+        replacement += '' if matchobj.group(4) is None else matchobj.group(4).replace('_', '-')
+        replacement += '' if matchobj.group(5) is None else matchobj.group(5).replace('_', ' ')
+        return replacement
+
+    return re.sub(number_re, _as_number, input_string)
 
 
 def _unmangle_format(formatted: str) -> str:
-- 
2.43.0


From aa6cf56950c16f97a6a705f28e1c29c714525767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 24/28] fix: leaked mangled scaling factors mean the same to
 every unit function, whatever was asked before

---
 gemd/units/impl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 49e4e32..1aad8f1 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -300,8 +300,11 @@ def convert_units(value: float, starting_unit: str, final_unit: str) -> float:
     if starting_unit == final_unit:
         return value  # skip computation
     else:
+        # SPT-1311 Protect against leaked mangled strings
+        if isinstance(starting_unit, str):
+            starting_unit = _unmangle_scaling(starting_unit)
         resolved_value = _REGISTRY.Quantity(value, starting_unit)
-        resolved_final_unit = _REGISTRY.parse_units(final_unit)
+        resolved_final_unit = _REGISTRY.parse_units(_unmangle_scaling(final_unit))
         # Make sure count, radian, bit, and non-dimensional don't accidentally interconvert
         # https://pint.readthedocs.io/en/0.23/user/angular_frequency.html
         root1 = _REGISTRY.get_root_units(resolved_value)[1]
@@ -402,7 +405,8 @@ def get_base_units(units: Union[str, UnitRegistry.Unit]) -> Tuple[UnitRegistry.U
 
     """
     if isinstance(units, str):
-        units = _REGISTRY.parse_units(units)
+        # SPT-1311 Protect against leaked mangled strings
+        units = _REGISTRY.parse_units(_unmangle_scaling(units))
     ratio, base_unit = _REGISTRY.get_base_units(units)
     offset = _REGISTRY.Quantity(0, units).to(_REGISTRY.Quantity(0, base_unit)).magnitude
     return base_unit, float(ratio), offset
-- 
2.43.0


From a8aa3eea964a8f50c95db41382ead744cf1c7e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:25 +0000
Subject: [PATCH 25/28] fix: an exponent followed by a factor 10**n is not the
 mantissa of that factor

---
 gemd/units/impl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 1aad8f1..fec0d31 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -47,9 +47,13 @@ _ALLOWED_OPERATORS = {".", "+", "-", "*", "/", "//", "^", "**", "(", ")"}
 def _scientific_notation_preprocessor(input_string: str) -> str:
     """Preprocessor that converts x * 10 ** y format to xEy."""
     def _as_scientific(matchobj: re.Match) -> str:
-        return f"{matchobj.group(1) or '1'}e{matchobj.group(2)}"
+        prefix, mantissa, exponent = (x or '' for x in matchobj.groups())
+        if prefix and mantissa:  # The number is already the exponent of something else
+            return f"{prefix}{mantissa} * 1e{exponent}"
+        return f"{prefix}{mantissa or '1'}e{exponent}"
 
-    number = r'\b(?:(\d+\.?\d*|\.\d+)\s*\*\s*)?10\s*(?:\*{2}|\^)\s*\+?(-?\d+\b)'
+    number = r'((?:\*{2}|\^)\s*[-+]?\s*)?' \
+             r'\b(?:(\d+\.?\d*|\.\d+)\s*\*\s*)?10\s*(?:\*{2}|\^)\s*\+?(-?\d+\b)'
     return re.sub(number, _as_scientific, input_string)
 
 
-- 
2.43.0


From b5eae9fae438d91a9ec039b55fabe63139b00c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 26/28] fix: an identifier being added is not visible to other
 threads before its value is

---
 gemd/entity/case_insensitive_dict.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 9341fbf..d0ede99 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -58,8 +58,9 @@ class CaseInsensitiveDict(dict):
             return default
 
     def __setitem__(self, key: str, value: Any) -> None:
+        self._check_key(key)
+        super().__setitem__(key, value)  # Before it is registered: readers may be concurrent
         self._register_key(key)
-        super().__setitem__(key, value)
 
     def __contains__(self, key: str) -> bool:
         return self.lowercase_dict.__contains__(key.lower())
@@ -201,6 +202,21 @@ class CaseInsensitiveDict(dict):
         """Copy and pickle by content, so that no two copies share their key registry."""
         return type(self), (dict(self),)
 
+    def _check_key(self, key: str) -> None:
+        """
+        Check to make sure a key doesn't already exist in a different case.
+
+        Parameters
+        ----------
+        key: str
+            The key to check.
+
+        """
+        prev = self.lowercase_dict.get(key.lower())
+        if prev is not None and prev != key:
+            raise ValueError(
+                "Key '{}' already exists in dict with different case: '{}'".format(key, prev))
+
     def _register_key(self, key: str) -> None:
         """
         Register a key to the dictionary.
@@ -213,8 +229,5 @@ class CaseInsensitiveDict(dict):
             The key to register.
 
         """
-        prev = self.lowercase_dict.get(key.lower())
-        if prev is not None and prev != key:
-            raise ValueError(
-                "Key '{}' already exists in dict with different case: '{}'".format(key, prev))
+        self._check_key(key)
         self.lowercase_dict[key.lower()] = key
-- 
2.43.0


From 7f3939b65bcc3933178bd0ac8a7ebe4224798f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:20 +0000
Subject: [PATCH 27/28] fix: identifier scopes named like a parameter of the
 dictionary are accepted and can be loaded

---
 gemd/entity/base_entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 06d169e..9f05c83 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -54,9 +54,9 @@ class BaseEntity(DictSerializable):
         if uids is None:
             self._uids = CaseInsensitiveDict()
         elif isinstance(uids, MutableMapping):
-            self._uids = CaseInsensitiveDict(**uids)
+            self._uids = CaseInsensitiveDict(uids)
         else:
-            self._uids = CaseInsensitiveDict(**{uids[0]: uids[1]})
+            self._uids = CaseInsensitiveDict({uids[0]: uids[1]})
 
     def add_uid(self, scope: str, uid: str):
         """
-- 
2.43.0


From 9e9074cd68e636a080bc9bc9d2dd52bb09aa052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:36 +0000
Subject: [PATCH 28/28] fix: an identifier is held exactly while its value is
 stored, also when adding or removing it is interrupted

---
 gemd/entity/case_insensitive_dict.py | 35 +++++++++++++++++-----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index d0ede99..b320300 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -58,12 +58,11 @@ class CaseInsensitiveDict(dict):
             return default
 
     def __setitem__(self, key: str, value: Any) -> None:
-        self._check_key(key)
-        super().__setitem__(key, value)  # Before it is registered: readers may be concurrent
         self._register_key(key)
+        super().__setitem__(key, value)
 
     def __contains__(self, key: str) -> bool:
-        return self.lowercase_dict.__contains__(key.lower())
+        return self._stored_key(key) is not None
 
     def __delitem__(self, key) -> None:
         key = self.lowercase_dict.get(key.lower(), key)
@@ -103,8 +102,7 @@ class CaseInsensitiveDict(dict):
             val = super().pop(self.lowercase_dict[key.lower()])
         else:
             val = super().pop(self.lowercase_dict.get(key.lower()), default)
-        if key in self:
-            del self.lowercase_dict[key.lower()]
+        self.lowercase_dict.pop(key.lower(), None)
         return val
 
     def popitem(self) -> Tuple:
@@ -162,14 +160,14 @@ class CaseInsensitiveDict(dict):
         update.update(kwargs)
         added = dict()  # Conflicts can also be among the keys that are passed
         for key in update:
-            prev = self.lowercase_dict.get(key.lower(), added.setdefault(key.lower(), key))
+            prev = self._stored_key(key) or added.setdefault(key.lower(), key)
             if prev != key:
                 raise ValueError(
                     "Key '{}' already exists in dict with different case: "
                     "'{}'".format(key, prev))
-        super().update(update)
         for key in update:
             self._register_key(key)
+        super().update(update)
 
     def __ior__(self, other) -> 'CaseInsensitiveDict':
         """Implement self |= other; equivalent to update."""
@@ -202,20 +200,26 @@ class CaseInsensitiveDict(dict):
         """Copy and pickle by content, so that no two copies share their key registry."""
         return type(self), (dict(self),)
 
-    def _check_key(self, key: str) -> None:
+    def _stored_key(self, key: str) -> Optional[str]:
         """
-        Check to make sure a key doesn't already exist in a different case.
+        Find the key under which the value for a given case-insensitive key is stored.
+
+        A key that is registered but has no value (yet) is not stored: another thread may be
+        about to add or delete it, or may have been interrupted while doing so.
 
         Parameters
         ----------
         key: str
-            The key to check.
+            The key to look up (possibly with a different casing).
+
+        Returns
+        -------
+        Optional[str]
+            The key as it was stored, or None if there is no value for it.
 
         """
         prev = self.lowercase_dict.get(key.lower())
-        if prev is not None and prev != key:
-            raise ValueError(
-                "Key '{}' already exists in dict with different case: '{}'".format(key, prev))
+        return prev if super().__contains__(prev) else None
 
     def _register_key(self, key: str) -> None:
         """
@@ -229,5 +233,8 @@ class CaseInsensitiveDict(dict):
             The key to register.
 
         """
-        self._check_key(key)
+        prev = self._stored_key(key)
+        if prev is not None and prev != key:
+            raise ValueError(
+                "Key '{}' already exists in dict with different case: '{}'".format(key, prev))
         self.lowercase_dict[key.lower()] = key
-- 
2.43.0

