From 9dc383e534b4bdc570c9dbd7f5b6552f48f70ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:45 +0000
Subject: [PATCH 01/35] fix: report SchemaValidator definitions and title to
 the garbage collector

---
 src/validators/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validators/mod.rs b/src/validators/mod.rs
index cd166b6..383a98b 100644
--- a/src/validators/mod.rs
+++ b/src/validators/mod.rs
@@ -373,6 +373,8 @@ impl SchemaValidator {
 
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.validator.py_gc_traverse(&visit)?;
+        self.definitions.py_gc_traverse(&visit)?;
+        visit.call(&self.title)?;
         visit.call(&self.py_schema)?;
         if let Some(ref py_config) = self.py_config {
             visit.call(py_config)?;
-- 
2.43.0


From b4e8285d519348a4000434d6a24af814e0c07d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:05 +0000
Subject: [PATCH 02/35] fix: report extras validators and literal/enum lookups
 to the garbage collector

---
 src/validators/dataclass.rs    | 5 ++++-
 src/validators/enum_.rs        | 8 ++++----
 src/validators/literal.rs      | 6 ++++++
 src/validators/model_fields.rs | 3 ++-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index c74d789..2a5d416 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -134,7 +134,10 @@ impl BuildValidator for DataclassArgsValidator {
 
 impl_py_gc_traverse!(Field { validator });
 
-impl_py_gc_traverse!(DataclassArgsValidator { fields });
+impl_py_gc_traverse!(DataclassArgsValidator {
+    fields,
+    extras_validator
+});
 
 impl Validator for DataclassArgsValidator {
     fn validate<'py>(
diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index 0e34cb1..62d4d29 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -168,7 +168,7 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 #[derive(Debug, Clone)]
 pub struct PlainEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<PlainEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<PlainEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for PlainEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -202,7 +202,7 @@ impl EnumValidateValue for PlainEnumValidator {
 #[derive(Debug, Clone)]
 pub struct IntEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<IntEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<IntEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for IntEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -218,7 +218,7 @@ impl EnumValidateValue for IntEnumValidator {
 #[derive(Debug, Clone)]
 pub struct StrEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<StrEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<StrEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for StrEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -234,7 +234,7 @@ impl EnumValidateValue for StrEnumValidator {
 #[derive(Debug, Clone)]
 pub struct FloatEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<FloatEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<FloatEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for FloatEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index 3da5e9d..481efdd 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -237,6 +237,12 @@ impl<T: Debug> LiteralLookup<T> {
 impl<T: PyGcTraverse + Debug> PyGcTraverse for LiteralLookup<T> {
     fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.expected_py_dict.py_gc_traverse(visit)?;
+        if let Some(expected_py_values) = &self.expected_py_values {
+            for (value, _) in expected_py_values {
+                value.py_gc_traverse(visit)?;
+            }
+        }
+        self.expected_py_primitives.py_gc_traverse(visit)?;
         self.values.py_gc_traverse(visit)?;
         Ok(())
     }
diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index 10d13d7..8bd6dfa 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -117,7 +117,8 @@ impl BuildValidator for ModelFieldsValidator {
 
 impl_py_gc_traverse!(ModelFieldsValidator {
     fields,
-    extras_validator
+    extras_validator,
+    extras_keys_validator
 });
 
 impl Validator for ModelFieldsValidator {
-- 
2.43.0


From ab9e692c3c57dc24db8a1582cf6d36999ea525eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:05 +0000
Subject: [PATCH 03/35] fix: report extras serializer and enum class to the
 garbage collector

---
 src/serializers/fields.rs                 | 3 ++-
 src/serializers/type_serializers/enum_.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index b89468d..75daaa8 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -320,7 +320,8 @@ impl GeneralFieldsSerializer {
 
 impl_py_gc_traverse!(GeneralFieldsSerializer {
     fields,
-    computed_fields
+    computed_fields,
+    extra_serializer
 });
 
 impl TypeSerializer for GeneralFieldsSerializer {
diff --git a/src/serializers/type_serializers/enum_.rs b/src/serializers/type_serializers/enum_.rs
index d2dc403..7e264a0 100644
--- a/src/serializers/type_serializers/enum_.rs
+++ b/src/serializers/type_serializers/enum_.rs
@@ -46,7 +46,7 @@ impl BuildSerializer for EnumSerializer {
     }
 }
 
-impl_py_gc_traverse!(EnumSerializer { serializer });
+impl_py_gc_traverse!(EnumSerializer { class, serializer });
 
 impl TypeSerializer for EnumSerializer {
     fn to_python(
-- 
2.43.0


From c48151803e70bf52b83e62517af5ce3a11cc68fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:51 +0000
Subject: [PATCH 04/35] fix: register exception contents with the garbage
 collector

---
 src/build_tools.rs                 | 10 +++++++++-
 src/errors/types.rs                | 15 +++++++++++++++
 src/errors/validation_exception.rs | 20 ++++++++++++++++++++
 src/errors/value_exception.rs      | 14 ++++++++++++++
 src/serializers/errors.rs          |  6 ++++++
 5 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/src/build_tools.rs b/src/build_tools.rs
index 6c7e634..ef7ee08 100644
--- a/src/build_tools.rs
+++ b/src/build_tools.rs
@@ -4,10 +4,11 @@ use std::fmt;
 use pyo3::exceptions::PyException;
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyList, PyString};
-use pyo3::{intern, FromPyObject, PyErrArguments};
+use pyo3::{intern, FromPyObject, PyErrArguments, PyTraverseError, PyVisit};
 
 use crate::errors::{PyLineError, ValError};
 use crate::input::InputType;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 use crate::ValidationError;
 
@@ -126,6 +127,13 @@ impl SchemaError {
         Self(SchemaErrorEnum::Message(message))
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        match &self.0 {
+            SchemaErrorEnum::Message(_) => Ok(()),
+            SchemaErrorEnum::ValidationError(error) => error.py_gc_traverse(&visit),
+        }
+    }
+
     fn error_count(&self) -> usize {
         match &self.0 {
             SchemaErrorEnum::Message(_) => 0,
diff --git a/src/errors/types.rs b/src/errors/types.rs
index 0c75e1e..fc24fc4 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -6,6 +6,7 @@ use pyo3::exceptions::{PyKeyError, PyTypeError};
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyList};
+use pyo3::{PyTraverseError, PyVisit};
 
 use ahash::AHashMap;
 use num_bigint::BigInt;
@@ -13,6 +14,7 @@ use strum::{Display, EnumMessage, IntoEnumIterator};
 use strum_macros::EnumIter;
 
 use crate::input::{InputType, Int};
+use crate::py_gc::PyGcTraverse;
 use crate::tools::{extract_i64, py_err, py_error_type};
 
 use super::PydanticCustomError;
@@ -138,6 +140,19 @@ macro_rules! error_types {
             }
         }
 
+        impl PyGcTraverse for ErrorType {
+            fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+                if let Self::ValueError { error, .. } | Self::AssertionError { error, .. } = self {
+                    error.py_gc_traverse(visit)?;
+                }
+                match self {
+                    $(
+                        Self::$item { context, .. } => context.py_gc_traverse(visit),
+                    )+
+                }
+            }
+        }
+
         pub struct ErrorTypeDefaults {}
         // Allow unused default constants as they are generated by macro.
         // Also allow camel case as constants so we dont need to do case conversion of macro
diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 16e89eb..e17fe0c 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -9,6 +9,7 @@ use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyList, PyString, PyTuple, PyType};
+use pyo3::{PyTraverseError, PyVisit};
 use serde::ser::{Error, SerializeMap, SerializeSeq};
 use serde::{Serialize, Serializer};
 
@@ -18,6 +19,7 @@ use crate::build_tools::py_schema_error_type;
 use crate::errors::LocItem;
 use crate::get_pydantic_version;
 use crate::input::InputType;
+use crate::py_gc::PyGcTraverse;
 use crate::serializers::{DuckTypingSerMode, Extra, SerMode, SerializationState};
 use crate::tools::{safe_repr, write_truncated_to_limited_bytes, SchemaDict};
 
@@ -253,8 +255,14 @@ impl ValidationError {
     }
 }
 
+impl_py_gc_traverse!(ValidationError { line_errors, title });
+
 #[pymethods]
 impl ValidationError {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.py_gc_traverse(&visit)
+    }
+
     #[new]
     #[pyo3(signature = (title, line_errors, input_type="python", hide_input=false))]
     fn py_new(title: PyObject, line_errors: Vec<PyLineError>, input_type: &str, hide_input: bool) -> PyResult<Self> {
@@ -428,6 +436,18 @@ pub struct PyLineError {
     input_value: PyObject,
 }
 
+#[pymethods]
+impl PyLineError {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.py_gc_traverse(&visit)
+    }
+}
+
+impl_py_gc_traverse!(PyLineError {
+    error_type,
+    input_value
+});
+
 impl From<PyLineError> for ValLineError {
     /// Used to extract line errors from a validation error for wrap functions
     fn from(other: PyLineError) -> ValLineError {
diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index d428dc5..4f888f0 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -1,8 +1,10 @@
 use pyo3::exceptions::{PyException, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyString};
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::input::InputType;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::extract_i64;
 
 use super::line_error::ToErrorValue;
@@ -89,6 +91,10 @@ impl PydanticCustomError {
         self.context.as_ref().map(|c| c.clone_ref(py))
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.py_gc_traverse(&visit)
+    }
+
     pub fn message(&self, py: Python) -> PyResult<String> {
         Self::format_message(&self.message_template, self.context.as_ref().map(|c| c.bind(py)))
     }
@@ -106,6 +112,8 @@ impl PydanticCustomError {
     }
 }
 
+impl_py_gc_traverse!(PydanticCustomError { context });
+
 impl PydanticCustomError {
     pub fn into_val_error(self, input: impl ToErrorValue) -> ValError {
         let error_type = ErrorType::CustomError {
@@ -165,6 +173,10 @@ impl PydanticKnownError {
         self.error_type.py_dict(py)
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.py_gc_traverse(&visit)
+    }
+
     pub fn message(&self, py: Python) -> PyResult<String> {
         self.error_type.render_message(py, InputType::Python)
     }
@@ -182,6 +194,8 @@ impl PydanticKnownError {
     }
 }
 
+impl_py_gc_traverse!(PydanticKnownError { error_type });
+
 impl PydanticKnownError {
     pub fn into_val_error(self, input: impl ToErrorValue) -> ValError {
         ValError::new(self.error_type, input)
diff --git a/src/serializers/errors.rs b/src/serializers/errors.rs
index d9ba856..94583aa 100644
--- a/src/serializers/errors.rs
+++ b/src/serializers/errors.rs
@@ -4,7 +4,9 @@ use std::fmt::Write;
 use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use pyo3::types::PyString;
+use pyo3::{PyTraverseError, PyVisit};
 
+use crate::py_gc::PyGcTraverse;
 use crate::tools::truncate_safe_repr;
 
 use serde::ser;
@@ -148,6 +150,10 @@ impl PydanticSerializationUnexpectedValue {
         }
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.input_value.py_gc_traverse(&visit)
+    }
+
     pub(crate) fn __str__(&self, py: Python) -> String {
         let mut message = self.message.as_deref().unwrap_or("").to_string();
 
-- 
2.43.0


From 3b03082b3a06a264c139824f64ab1bb8817d1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:51 +0000
Subject: [PATCH 05/35] fix: report custom error contexts to the garbage
 collector

---
 src/validators/custom_error.rs | 16 +++++++++++++++-
 src/validators/union.rs        |  7 ++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index 6759f77..4c81917 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -1,11 +1,13 @@
 use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::build_tools::py_schema_err;
 use crate::errors::ToErrorValue;
 use crate::errors::{ErrorType, PydanticCustomError, PydanticKnownError, ValError, ValResult};
 use crate::input::Input;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
 use super::validation_state::ValidationState;
@@ -17,6 +19,15 @@ pub enum CustomError {
     KnownError(PydanticKnownError),
 }
 
+impl PyGcTraverse for CustomError {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        match self {
+            Self::Custom(error) => error.py_gc_traverse(visit),
+            Self::KnownError(error) => error.py_gc_traverse(visit),
+        }
+    }
+}
+
 impl CustomError {
     pub fn build(
         schema: &Bound<'_, PyDict>,
@@ -85,7 +96,10 @@ impl BuildValidator for CustomErrorValidator {
     }
 }
 
-impl_py_gc_traverse!(CustomErrorValidator { validator });
+impl_py_gc_traverse!(CustomErrorValidator {
+    validator,
+    custom_error
+});
 
 impl Validator for CustomErrorValidator {
     fn validate<'py>(
diff --git a/src/validators/union.rs b/src/validators/union.rs
index f293a99..5621ea2 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -203,6 +203,7 @@ impl UnionValidator {
 impl PyGcTraverse for UnionValidator {
     fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.choices.iter().try_for_each(|(v, _)| v.py_gc_traverse(visit))?;
+        self.custom_error.py_gc_traverse(visit)?;
         Ok(())
     }
 }
@@ -341,7 +342,11 @@ impl BuildValidator for TaggedUnionValidator {
     }
 }
 
-impl_py_gc_traverse!(TaggedUnionValidator { discriminator, lookup });
+impl_py_gc_traverse!(TaggedUnionValidator {
+    discriminator,
+    lookup,
+    custom_error
+});
 
 impl Validator for TaggedUnionValidator {
     fn validate<'py>(
-- 
2.43.0


From 18098fc2bab161c7a1229aba8d82f73a60b570b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:51 +0000
Subject: [PATCH 06/35] fix: register traverse of runtime pyclasses with the
 garbage collector

---
 src/argument_markers.rs                       |  6 ++++++
 src/serializers/type_serializers/function.rs  | 12 ++++++------
 src/serializers/type_serializers/generator.rs |  7 ++++---
 src/validators/function.rs                    | 18 +++++++++++-------
 src/validators/mod.rs                         |  4 ++++
 5 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/argument_markers.rs b/src/argument_markers.rs
index f22a32c..0f2f614 100644
--- a/src/argument_markers.rs
+++ b/src/argument_markers.rs
@@ -2,6 +2,7 @@ use pyo3::exceptions::PyNotImplementedError;
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyTuple};
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::tools::safe_repr;
 
@@ -23,6 +24,11 @@ impl ArgsKwargs {
         }
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        visit.call(&self.args)?;
+        visit.call(&self.kwargs)
+    }
+
     fn __eq__(&self, py: Python, other: &Self) -> PyResult<bool> {
         if !self.args.bind(py).eq(&other.args)? {
             return Ok(false);
diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 3c66583..0413875 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -459,7 +459,10 @@ impl SerializationCallable {
             exclude: exclude.map(|v| v.clone().unbind()),
         }
     }
+}
 
+#[pymethods]
+impl SerializationCallable {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         if let Some(include) = &self.include {
             visit.call(include)?;
@@ -486,10 +489,7 @@ impl SerializationCallable {
         self.extra_owned.fallback = None;
         self.extra_owned.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationCallable {
     #[pyo3(signature = (value, index_key=None))]
     fn __call__(
         &mut self,
@@ -603,7 +603,10 @@ impl SerializationInfo {
             })
         }
     }
+}
 
+#[pymethods]
+impl SerializationInfo {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         if let Some(include) = &self.include {
             visit.call(include)?;
@@ -622,10 +625,7 @@ impl SerializationInfo {
         self.exclude = None;
         self.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationInfo {
     fn mode_is_json(&self) -> bool {
         self._mode.is_json()
     }
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index 0e5050c..eacf57e 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -182,8 +182,12 @@ impl SerializationIterator {
             exclude: exclude.map(|v| v.clone().into()),
         }
     }
+}
 
+#[pymethods]
+impl SerializationIterator {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        visit.call(&self.iterator)?;
         if let Some(include) = &self.include {
             visit.call(include)?;
         }
@@ -209,10 +213,7 @@ impl SerializationIterator {
         self.extra_owned.fallback = None;
         self.extra_owned.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationIterator {
     fn __iter__(slf: PyRef<'_, Self>) -> PyRef<'_, Self> {
         slf
     }
diff --git a/src/validators/function.rs b/src/validators/function.rs
index e65ff79..12edf63 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -471,6 +471,11 @@ impl AssignmentValidatorCallable {
         )
     }
 
+    fn __traverse__(&self, visit: PyVisit) -> Result<(), PyTraverseError> {
+        visit.call(&self.updated_field_value)?;
+        self.validator.py_gc_traverse(&visit)
+    }
+
     fn __repr__(&self) -> String {
         format!("AssignmentValidatorCallable({:?})", self.validator)
     }
@@ -542,22 +547,21 @@ impl ValidationInfo {
             mode: extra.input_type,
         }
     }
+}
 
+#[pymethods]
+impl ValidationInfo {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         visit.call(&self.config)?;
-        if let Some(context) = &self.context {
-            visit.call(context)?;
-        }
-        Ok(())
+        visit.call(&self.context)?;
+        visit.call(&self.data)
     }
 
     fn __clear__(&mut self) {
         self.context = None;
+        self.data = None;
     }
-}
 
-#[pymethods]
-impl ValidationInfo {
     fn __repr__(&self, py: Python) -> PyResult<String> {
         let context = match self.context {
             Some(ref context) => safe_repr(context.bind(py)).to_string(),
diff --git a/src/validators/mod.rs b/src/validators/mod.rs
index 383a98b..333e1b7 100644
--- a/src/validators/mod.rs
+++ b/src/validators/mod.rs
@@ -98,6 +98,10 @@ impl PySome {
         cls
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        visit.call(&self.value)
+    }
+
     #[classattr]
     fn __match_args__(py: Python<'_>) -> PyResult<Bound<'_, PyTuple>> {
         (intern!(py, "value"),).into_pyobject(py)
-- 
2.43.0


From 2e54cb2fb2e7c78208af1ba0a2397749b8f61d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:11 +0000
Subject: [PATCH 07/35] fix: undo recursion guard bookkeeping when the depth
 limit is hit

---
 src/recursion_guard.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index b1f07ed..6c60248 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -35,6 +35,8 @@ impl<S: ContainsRecursionState> RecursionGuard<'_, S> {
                 return Err(RecursionError::Cyclic);
             }
             if state.incr_depth() {
+                // no guard is created, so nothing else will undo the insertion
+                state.remove(obj_id, node_id);
                 return Err(RecursionError::Depth);
             }
             Ok(())
@@ -101,10 +103,13 @@ impl RecursionState {
         {
             debug_assert!(RECURSION_GUARD_LIMIT < 255);
         }
-        // use saturating_add as it's faster (since there's no error path)
-        // and the RECURSION_GUARD_LIMIT check will be hit before it overflows
-        self.depth = self.depth.saturating_add(1);
-        self.depth > RECURSION_GUARD_LIMIT
+        // the depth is only increased when within the limit: on failure no guard is created to decrease it again
+        if self.depth < RECURSION_GUARD_LIMIT {
+            self.depth += 1;
+            false
+        } else {
+            true
+        }
     }
 
     #[must_use]
-- 
2.43.0


From 927a511e64ad65c51d95334bc2beecadebc152fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:34 +0000
Subject: [PATCH 08/35] fix: guard JSON key serialization against recursion

---
 src/serializers/infer.rs                        | 6 +++++-
 src/serializers/type_serializers/definitions.rs | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 33f53b2..9f81526 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -36,6 +36,8 @@ pub(crate) fn infer_to_python(
 // arbitrary ids to identify that we recursed through infer_to_{python,json}_known
 // We just need them to be different from definition ref slot ids, which start at 0
 const INFER_DEF_REF_ID: usize = usize::MAX;
+// as above for infer_json_key_known, distinct because an object being serialized may also be one of its own keys
+const INFER_KEY_DEF_REF_ID: usize = usize::MAX - 1;
 
 pub(crate) fn infer_to_python_known(
     ob_type: ObType,
@@ -590,8 +592,10 @@ pub(crate) fn infer_json_key<'a>(key: &'a Bound<'_, PyAny>, extra: &Extra) -> Py
 pub(crate) fn infer_json_key_known<'a>(
     ob_type: ObType,
     key: &'a Bound<'_, PyAny>,
-    extra: &Extra,
+    mut extra: &Extra,
 ) -> PyResult<Cow<'a, str>> {
+    let mut guard = extra.recursion_guard(key, INFER_KEY_DEF_REF_ID)?;
+    let extra = guard.state();
     match ob_type {
         ObType::None => super::type_serializers::simple::none_json_key(),
         ObType::Int | ObType::IntSubclass => super::type_serializers::simple::to_str_json_key(key),
diff --git a/src/serializers/type_serializers/definitions.rs b/src/serializers/type_serializers/definitions.rs
index 38fd7ce..ad2a43c 100644
--- a/src/serializers/type_serializers/definitions.rs
+++ b/src/serializers/type_serializers/definitions.rs
@@ -98,8 +98,11 @@ impl TypeSerializer for DefinitionRefSerializer {
         })
     }
 
-    fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
-        self.definition.read(|s| s.unwrap().json_key(key, extra))
+    fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, mut extra: &Extra) -> PyResult<Cow<'a, str>> {
+        self.definition.read(|s| {
+            let mut guard = extra.recursion_guard(key, self.definition.id())?;
+            s.unwrap().json_key(key, guard.state())
+        })
     }
 
     fn serde_serialize<S: serde::ser::Serializer>(
-- 
2.43.0


From 5ca79a67d7b5d54c1f02af9142313dbf145c3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:42 +0000
Subject: [PATCH 09/35] fix: enforce generator max_length without an items
 schema

---
 src/validators/generator.rs | 54 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 12d76b3..89e75e0 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -124,36 +124,36 @@ impl ValidatorIterator {
         macro_rules! next {
             ($iter:ident) => {
                 match $iter.next(py)? {
-                    Some((next, index)) => match validator {
-                        Some(validator) => {
-                            if let Some(max_length) = max_length {
-                                if index >= max_length {
-                                    let val_error = ValError::new_custom_input(
-                                        ErrorType::TooLong {
-                                            field_type: "Generator".to_string(),
-                                            max_length,
-                                            actual_length: None,
-                                            context: None,
-                                        },
-                                        $iter.input_as_error_value(py),
-                                    );
-                                    return Err(ValidationError::from_val_error(
-                                        py,
-                                        "ValidatorIterator".into_pyobject(py)?.into(),
-                                        InputType::Python,
-                                        val_error,
-                                        None,
-                                        hide_input_in_errors,
-                                        validation_error_cause,
-                                    ));
-                                }
+                    Some((next, index)) => {
+                        if let Some(max_length) = max_length {
+                            if index >= max_length {
+                                let val_error = ValError::new_custom_input(
+                                    ErrorType::TooLong {
+                                        field_type: "Generator".to_string(),
+                                        max_length,
+                                        actual_length: None,
+                                        context: None,
+                                    },
+                                    $iter.input_as_error_value(py),
+                                );
+                                return Err(ValidationError::from_val_error(
+                                    py,
+                                    "ValidatorIterator".into_pyobject(py)?.into(),
+                                    InputType::Python,
+                                    val_error,
+                                    None,
+                                    hide_input_in_errors,
+                                    validation_error_cause,
+                                ));
                             }
-                            validator
+                        }
+                        match validator {
+                            Some(validator) => validator
                                 .validate(py, next.borrow_input(), Some(index.into()))
-                                .map(Some)
+                                .map(Some),
+                            None => Ok(Some(next.into_pyobject(py)?.unbind())),
                         }
-                        None => Ok(Some(next.into_pyobject(py)?.unbind())),
-                    },
+                    }
                     None => {
                         if let Some(min_length) = min_length {
                             if $iter.index() < min_length {
-- 
2.43.0


From c2296b9b9d6186c9ad54f635554f9e141e20680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:42 +0000
Subject: [PATCH 10/35] fix: enforce tuple max_length for items filled from
 defaults

---
 src/validators/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index e49d6a9..1bb8f2e 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -88,7 +88,7 @@ impl TupleValidator {
                 None => {
                     let index = collection_iter.next_calls() - 1;
                     if let Some(value) = validator.default_value(py, Some(index), state)? {
-                        output.push(value);
+                        self.push_output_item(input, output, value, actual_length)?;
                     } else {
                         errors.push(ValLineError::new_with_loc(ErrorTypeDefaults::Missing, input, index));
                     }
-- 
2.43.0


From fac686e6336190a1663e923ff3d054da034fd125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:44 +0000
Subject: [PATCH 11/35] fix: no documentation url for custom errors in
 ValidationError.json()

---
 src/errors/validation_exception.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index e17fe0c..fc34a2a 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -678,7 +678,12 @@ impl Serialize for PyLineErrorSerializer<'_> {
             }
         }
         if let Some(url_prefix) = self.url_prefix {
-            map.serialize_entry("url", &self.line_error.get_error_url(url_prefix))?;
+            match self.line_error.error_type {
+                ErrorType::CustomError { .. } => {
+                    // Don't add URLs for custom errors
+                }
+                _ => map.serialize_entry("url", &self.line_error.get_error_url(url_prefix))?,
+            }
         }
         map.end()
     }
-- 
2.43.0


From 2a8de77024d1060df438479f4f67fb96a8e81ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 12/35] fix: pickling a ValidationError that holds a custom
 error

---
 src/errors/validation_exception.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index fc34a2a..cd7f62b 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -401,9 +401,24 @@ impl ValidationError {
         let py = slf.py();
         let callable = slf.getattr("from_exception_data")?;
         let borrow = slf.try_borrow()?;
+        let errors = borrow.errors(py, include_url_env(py), true, true)?;
+        for (line_error, error) in borrow.line_errors.iter().zip(errors.bind(py)) {
+            // the type of a custom error is not in the catalogue, `from_exception_data` takes the exception instead
+            if let ErrorType::CustomError {
+                error_type,
+                message_template,
+                context,
+            } = &line_error.error_type
+            {
+                let custom_error = py
+                    .get_type::<PydanticCustomError>()
+                    .call1((error_type, message_template, context))?;
+                error.set_item(intern!(py, "type"), custom_error)?;
+            }
+        }
         let args = (
             &borrow.title,
-            borrow.errors(py, include_url_env(py), true, true)?,
+            errors,
             borrow.input_type,
             borrow.hide_input,
         )
-- 
2.43.0


From 4847e6dcdbcde45f93e6ca731b18bf216242c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:19 +0000
Subject: [PATCH 13/35] fix: is_subclass_schema returns an IsSubclassSchema

---
 python/pydantic_core/core_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pydantic_core/core_schema.py b/python/pydantic_core/core_schema.py
index f03daac..45889a2 100644
--- a/python/pydantic_core/core_schema.py
+++ b/python/pydantic_core/core_schema.py
@@ -1379,7 +1379,7 @@ def is_subclass_schema(
     ref: str | None = None,
     metadata: dict[str, Any] | None = None,
     serialization: SerSchema | None = None,
-) -> IsInstanceSchema:
+) -> IsSubclassSchema:
     """
     Returns a schema that checks if a value is a subtype of a class, equivalent to python's `issubclass` method, e.g.:
 
-- 
2.43.0


From de21860d084c7955f2b498b35cb28fd081b1bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 14/35] fix: serialize typed dicts with the config of the typed
 dict itself

---
 src/serializers/type_serializers/typed_dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serializers/type_serializers/typed_dict.rs b/src/serializers/type_serializers/typed_dict.rs
index d93a885..007fe20 100644
--- a/src/serializers/type_serializers/typed_dict.rs
+++ b/src/serializers/type_serializers/typed_dict.rs
@@ -24,6 +24,10 @@ impl BuildSerializer for TypedDictBuilder {
     ) -> PyResult<CombinedSerializer> {
         let py = schema.py();
 
+        // the config of this TypedDict takes precedence over the parent config
+        let own_config = schema.get_as(intern!(py, "config"))?;
+        let config = own_config.as_ref().or(config);
+
         let total =
             schema_or_config(schema, config, intern!(py, "total"), intern!(py, "typed_dict_total"))?.unwrap_or(true);
 
-- 
2.43.0


From 72618bf10122be45134c6009eec0794eafce5bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 15/35] fix: use the extras_schema serializer in JSON mode

---
 src/serializers/fields.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 75daaa8..5ae53d2 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -271,8 +271,18 @@ impl GeneralFieldsSerializer {
                     }
                 } else if self.mode == FieldsMode::TypedDictAllow {
                     let output_key = infer_json_key(&key, &field_extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), &field_extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    let (next_include, next_exclude) = (next_include.as_ref(), next_exclude.as_ref());
+                    match &self.extra_serializer {
+                        Some(serializer) => {
+                            let s =
+                                PydanticSerializer::new(&value, serializer, next_include, next_exclude, &field_extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                        None => {
+                            let s = SerializeInfer::new(&value, next_include, next_exclude, &field_extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                    }
                 }
                 // no error case here since unions (which need the error case) use `to_python(..., mode='json')`
             }
@@ -445,8 +455,17 @@ impl TypeSerializer for GeneralFieldsSerializer {
                 let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                 if let Some((next_include, next_exclude)) = filter {
                     let output_key = infer_json_key(&key, extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    let (next_include, next_exclude) = (next_include.as_ref(), next_exclude.as_ref());
+                    match &self.extra_serializer {
+                        Some(serializer) => {
+                            let s = PydanticSerializer::new(&value, serializer, next_include, next_exclude, extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                        None => {
+                            let s = SerializeInfer::new(&value, next_include, next_exclude, extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From daaddc995ad13d368b3d7ca6f3e2833d3bc606cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 16/35] fix: pass include/exclude to the elements of inferred
 sets in python mode as in JSON mode

---
 src/serializers/infer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 9f81526..b9c2e82 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -66,7 +66,7 @@ pub(crate) fn infer_to_python_known(
             value
                 .downcast::<$t>()?
                 .iter()
-                .map(|v| infer_to_python(&v, None, None, extra))
+                .map(|v| infer_to_python(&v, include, exclude, extra))
                 .collect::<PyResult<Vec<PyObject>>>()?
         };
     }
-- 
2.43.0


From 6bb80eeef7c0b695b2463280ede52dbf806853d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:07 +0000
Subject: [PATCH 17/35] fix: give computed fields of a typed dict their model
 in JSON mode

---
 src/serializers/fields.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 5ae53d2..a7624d8 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -316,8 +316,9 @@ impl GeneralFieldsSerializer {
         extra: &Extra,
     ) -> Result<(), S::Error> {
         if let Some(ref computed_fields) = self.computed_fields {
-            if let Some(model) = model {
-                computed_fields.serde_serialize::<S>(model, map, &self.filter, include, exclude, extra)?;
+            if let Some(model_value) = model {
+                let cf_extra = Extra { model, ..*extra };
+                computed_fields.serde_serialize::<S>(model_value, map, &self.filter, include, exclude, &cf_extra)?;
             }
         }
         Ok(())
-- 
2.43.0


From 7b86ed5fc27fa7d83212eb5c5d612a844175c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:07 +0000
Subject: [PATCH 18/35] fix: a nested call-time exclude does not re-include an
 item the schema excludes

---
 src/serializers/filter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 65ec406..363068b 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -225,10 +225,8 @@ trait FilterLogic<T: Eq + Copy> {
             }
         }
 
-        if next_exclude.is_some() {
+        if self.default_filter(int_key) {
             Ok(Some((None, next_exclude)))
-        } else if self.default_filter(int_key) {
-            Ok(Some((None, None)))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 440765f4cb7cfcd08f9acfe41fe65fe892d7f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:45 +0000
Subject: [PATCH 19/35] fix: keep by_alias and by_name inside wrap validators
 and generators

---
 src/validators/generator.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 89e75e0..adbf8fe 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -229,6 +229,8 @@ pub struct InternalValidator {
     hide_input_in_errors: bool,
     validation_error_cause: bool,
     cache_str: jiter::StringCacheMode,
+    by_alias: Option<bool>,
+    by_name: Option<bool>,
 }
 
 impl fmt::Debug for InternalValidator {
@@ -260,6 +262,8 @@ impl InternalValidator {
             hide_input_in_errors,
             validation_error_cause,
             cache_str: extra.cache_str,
+            by_alias: extra.by_alias,
+            by_name: extra.by_name,
         }
     }
 
@@ -280,8 +284,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
@@ -318,8 +322,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
-- 
2.43.0


From 36a038d4f4a6844513166d92f096f28323f9dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 20/35] fix: keep the field name inside wrap validators and
 generators

---
 src/validators/generator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index adbf8fe..32ed5d0 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -221,6 +221,7 @@ pub struct InternalValidator {
     data: Option<Py<PyDict>>,
     strict: Option<bool>,
     from_attributes: Option<bool>,
+    field_name: Option<Py<PyString>>,
     context: Option<PyObject>,
     self_instance: Option<PyObject>,
     recursion_guard: RecursionState,
@@ -254,6 +255,7 @@ impl InternalValidator {
             data: extra.data.as_ref().map(|d| d.clone().into()),
             strict: extra.strict,
             from_attributes: extra.from_attributes,
+            field_name: extra.field_name.as_ref().map(|name| name.clone().unbind()),
             context: extra.context.map(|d| d.clone().unbind()),
             self_instance: extra.self_instance.map(|d| d.clone().unbind()),
             recursion_guard: state.recursion_guard.clone(),
@@ -318,7 +320,7 @@ impl InternalValidator {
             data: self.data.as_ref().map(|data| data.bind(py).clone()),
             strict: self.strict,
             from_attributes: self.from_attributes,
-            field_name: None,
+            field_name: self.field_name.as_ref().map(|name| name.bind(py).clone()),
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-- 
2.43.0


From 5971e47932423c2975158f6bc8b514a150636e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:39 +0000
Subject: [PATCH 21/35] fix: count the fields set inside wrap validators for
 smart unions

---
 src/validators/function.rs  | 4 +++-
 src/validators/generator.rs | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/validators/function.rs b/src/validators/function.rs
index 12edf63..06beca3 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -380,7 +380,9 @@ impl Validator for FunctionWrapValidator {
         let handler = Bound::new(py, handler)?;
         #[allow(clippy::used_underscore_items)]
         let result = self._validate(handler.as_any(), py, input, state);
-        state.exactness = handler.borrow_mut().validator.exactness;
+        let handler = handler.borrow();
+        state.exactness = handler.validator.exactness;
+        state.fields_set_count = handler.validator.fields_set_count;
         result
     }
 
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 32ed5d0..68229cd 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -226,6 +226,7 @@ pub struct InternalValidator {
     self_instance: Option<PyObject>,
     recursion_guard: RecursionState,
     pub(crate) exactness: Option<Exactness>,
+    pub(crate) fields_set_count: Option<usize>,
     validation_mode: InputType,
     hide_input_in_errors: bool,
     validation_error_cause: bool,
@@ -260,6 +261,7 @@ impl InternalValidator {
             self_instance: extra.self_instance.map(|d| d.clone().unbind()),
             recursion_guard: state.recursion_guard.clone(),
             exactness: state.exactness,
+            fields_set_count: state.fields_set_count,
             validation_mode: extra.input_type,
             hide_input_in_errors,
             validation_error_cause,
@@ -291,6 +293,7 @@ impl InternalValidator {
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self
             .validator
             .validate_assignment(py, model, field_name, field_value, &mut state)
@@ -306,6 +309,7 @@ impl InternalValidator {
                 )
             });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 
@@ -329,6 +333,7 @@ impl InternalValidator {
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self.validator.validate(py, input, &mut state).map_err(|e| {
             ValidationError::from_val_error(
                 py,
@@ -341,6 +346,7 @@ impl InternalValidator {
             )
         });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 }
-- 
2.43.0


From a781073b290d1fff622372665cdfb8e71e3deeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:46 +0000
Subject: [PATCH 22/35] fix: report errors of wrap handlers for the form of the
 input

---
 src/validators/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 68229cd..db48ece 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -301,7 +301,7 @@ impl InternalValidator {
                 ValidationError::from_val_error(
                     py,
                     PyString::new(py, &self.name).into(),
-                    InputType::Python,
+                    self.validation_mode,
                     e,
                     outer_location,
                     self.hide_input_in_errors,
@@ -338,7 +338,7 @@ impl InternalValidator {
             ValidationError::from_val_error(
                 py,
                 PyString::new(py, &self.name).into(),
-                InputType::Python,
+                self.validation_mode,
                 e,
                 outer_location,
                 self.hide_input_in_errors,
-- 
2.43.0


From c067d18fc05549997019872bf71884855403a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 23/35] fix: let the strict argument of a call decide for
 complex numbers too

---
 src/validators/complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/complex.rs b/src/validators/complex.rs
index 98ffc7d..a0341a1 100644
--- a/src/validators/complex.rs
+++ b/src/validators/complex.rs
@@ -45,7 +45,7 @@ impl Validator for ComplexValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        let res = input.validate_complex(self.strict, py)?.unpack(state);
+        let res = input.validate_complex(state.strict_or(self.strict), py)?.unpack(state);
         Ok(res.into_pyobject(py)?.into())
     }
 
-- 
2.43.0


From 62c5c2349b6c680ab4db78f2dd0846b8d4ebd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 24/35] fix: a union choice does not disable partial validation
 for the choices after it

---
 src/validators/lax_or_strict.rs | 3 +++
 src/validators/union.rs         | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index bc35465..a5f170c 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -68,9 +68,12 @@ impl Validator for LaxOrStrictValidator {
             // horrible edge case: if doing smart union validation, we need to try the strict validator
             // anyway and prefer that if it succeeds
             if state.exactness.is_some() {
+                let old_allow_partial = state.allow_partial;
                 if let Ok(strict_result) = self.strict_validator.validate(py, input, state) {
                     return Ok(strict_result);
                 }
+                // the strict validator might have disabled partial validation
+                state.allow_partial = old_allow_partial;
                 // this is now known to be not strict
                 state.floor_exactness(Exactness::Lax);
             }
diff --git a/src/validators/union.rs b/src/validators/union.rs
index 5621ea2..16273b0 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -107,6 +107,7 @@ impl UnionValidator {
     ) -> ValResult<PyObject> {
         let old_exactness = state.exactness;
         let old_fields_set_count = state.fields_set_count;
+        let old_allow_partial = state.allow_partial;
 
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
@@ -115,6 +116,8 @@ impl UnionValidator {
         for (choice, label) in &self.choices {
             state.exactness = Some(Exactness::Exact);
             state.fields_set_count = None;
+            // the previous choice might have disabled partial validation
+            state.allow_partial = old_allow_partial;
             let result = choice.validate(py, input, state);
             match result {
                 Ok(new_success) => match (state.exactness, state.fields_set_count) {
@@ -187,9 +190,13 @@ impl UnionValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
+        let old_allow_partial = state.allow_partial;
+
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
         for (validator, label) in &self.choices {
+            // the previous choice might have disabled partial validation
+            state.allow_partial = old_allow_partial;
             match validator.validate(py, input, state) {
                 Err(ValError::LineErrors(lines)) => errors.push(validator, label.as_deref(), lines),
                 otherwise => return otherwise,
-- 
2.43.0


From c17a06cebe23b6d89d4924149224f72cdff9ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 25/35] fix: a failed union choice has no influence on how well
 the input matches

---
 src/validators/lax_or_strict.rs |  6 +++++-
 src/validators/union.rs         | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index a5f170c..a494d01 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -68,11 +68,15 @@ impl Validator for LaxOrStrictValidator {
             // horrible edge case: if doing smart union validation, we need to try the strict validator
             // anyway and prefer that if it succeeds
             if state.exactness.is_some() {
+                let old_exactness = state.exactness;
+                let old_fields_set_count = state.fields_set_count;
                 let old_allow_partial = state.allow_partial;
                 if let Ok(strict_result) = self.strict_validator.validate(py, input, state) {
                     return Ok(strict_result);
                 }
-                // the strict validator might have disabled partial validation
+                // the strict validator failed, it has no influence on the outcome of the lax one
+                state.exactness = old_exactness;
+                state.fields_set_count = old_fields_set_count;
                 state.allow_partial = old_allow_partial;
                 // this is now known to be not strict
                 state.floor_exactness(Exactness::Lax);
diff --git a/src/validators/union.rs b/src/validators/union.rs
index 16273b0..3663513 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -164,7 +164,11 @@ impl UnionValidator {
                         errors.push(choice, label.as_deref(), lines);
                     }
                 }
-                otherwise => return otherwise,
+                otherwise => {
+                    state.exactness = old_exactness;
+                    state.fields_set_count = old_fields_set_count;
+                    return otherwise;
+                }
             }
         }
 
@@ -190,12 +194,16 @@ impl UnionValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
+        let old_exactness = state.exactness;
+        let old_fields_set_count = state.fields_set_count;
         let old_allow_partial = state.allow_partial;
 
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
         for (validator, label) in &self.choices {
-            // the previous choice might have disabled partial validation
+            // the previous choice failed, it has no influence on how well the input matches, nor on partial validation
+            state.exactness = old_exactness;
+            state.fields_set_count = old_fields_set_count;
             state.allow_partial = old_allow_partial;
             match validator.validate(py, input, state) {
                 Err(ValError::LineErrors(lines)) => errors.push(validator, label.as_deref(), lines),
-- 
2.43.0


From e5f0a9aa2c39cfd15c14a1b5bce0e6d0de9562c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 26/35] fix: an enum member is only a valid int if its value is
 one

---
 src/input/input_python.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index e82cbae..d639872 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -271,8 +271,8 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                     decimal_as_int(self, &decimal.into_inner())
                 } else if let Ok(float) = self.extract::<f64>() {
                     float_as_int(self, float)
-                } else if let Some(enum_val) = maybe_as_enum(self) {
-                    Ok(EitherInt::Py(enum_val))
+                } else if let Some(enum_val) = maybe_as_enum(self).filter(|value| value.is_instance_of::<PyInt>()) {
+                    EitherInt::upcast(&enum_val)
                 } else {
                     break 'lax;
                 }
-- 
2.43.0


From 950d3427c38e0312267bedc84a0794677fb625d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 27/35] fix: custom errors and the strict attempt of
 lax-or-strict do not hide errors which are not validation errors

---
 src/validators/custom_error.rs  | 6 +++++-
 src/validators/lax_or_strict.rs | 8 +++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index 4c81917..91966e4 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -110,7 +110,11 @@ impl Validator for CustomErrorValidator {
     ) -> ValResult<PyObject> {
         self.validator
             .validate(py, input, state)
-            .map_err(|_| self.custom_error.as_val_error(input))
+            .map_err(|err| match err {
+                ValError::LineErrors(_) => self.custom_error.as_val_error(input),
+                // not a validation error
+                otherwise => otherwise,
+            })
     }
 
     fn get_name(&self) -> &str {
diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index a494d01..54f78ec 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -3,7 +3,7 @@ use pyo3::prelude::*;
 use pyo3::types::PyDict;
 
 use crate::build_tools::is_strict;
-use crate::errors::ValResult;
+use crate::errors::{ValError, ValResult};
 use crate::input::Input;
 use crate::tools::SchemaDict;
 
@@ -71,8 +71,10 @@ impl Validator for LaxOrStrictValidator {
                 let old_exactness = state.exactness;
                 let old_fields_set_count = state.fields_set_count;
                 let old_allow_partial = state.allow_partial;
-                if let Ok(strict_result) = self.strict_validator.validate(py, input, state) {
-                    return Ok(strict_result);
+                match self.strict_validator.validate(py, input, state) {
+                    Err(ValError::LineErrors(_)) => (),
+                    // success, or something which is not a validation error
+                    otherwise => return otherwise,
                 }
                 // the strict validator failed, it has no influence on the outcome of the lax one
                 state.exactness = old_exactness;
-- 
2.43.0


From a03285da127fad9834efb2983e42935269b4230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:34 +0000
Subject: [PATCH 28/35] fix: on_error of a default schema does not hide errors
 which are not validation errors

---
 src/validators/with_default.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 8100083..508c957 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -164,6 +164,8 @@ impl Validator for WithDefaultValidator {
                 Ok(v) => Ok(v),
                 Err(e) => match e {
                     ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                    // not a validation error
+                    ValError::InternalErr(_) => Err(e),
                     e => match self.on_error {
                         OnError::Raise => Err(e),
                         OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
-- 
2.43.0


From 76c304c3ced39e132babc14202177d7754ea4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:08 +0000
Subject: [PATCH 29/35] fix: assigning a field of a dataclass keeps attributes
 which are not fields

---
 src/validators/dataclass.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index 2a5d416..f55ecc9 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -611,7 +611,13 @@ impl Validator for DataclassValidator {
                 .ok_or_else(|| PyKeyError::new_err(field_name.to_string()))?;
             force_setattr(py, obj, field_name, value)?;
         } else {
-            force_setattr(py, obj, intern!(py, "__dict__"), dc_dict)?;
+            // attributes which are not fields are kept
+            let new_dict = obj
+                .getattr(intern!(py, "__dict__"))?
+                .downcast_into::<PyDict>()?
+                .copy()?;
+            new_dict.update(dc_dict.as_mapping())?;
+            force_setattr(py, obj, intern!(py, "__dict__"), new_dict)?;
         }
 
         Ok(obj.clone().unbind())
-- 
2.43.0


From 9ddff00276495bd484b066b41a23230976f4f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:54 +0000
Subject: [PATCH 30/35] fix: typed dict reports errors found while looking up a
 field

---
 src/validators/typed_dict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index eb4394e..58f71e6 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -193,7 +193,7 @@ impl Validator for TypedDictValidator {
                     Ok(v) => v,
                     Err(ValError::LineErrors(line_errors)) => {
                         let field_loc: LocItem = field.name.clone().into();
-                        if partial_last_key.as_ref() == Some(&field_loc) {
+                        if partial_last_key.as_ref() != Some(&field_loc) || field.required {
                             for err in line_errors {
                                 errors.push(err.with_outer_location(field_loc.clone()));
                             }
-- 
2.43.0


From f2ede112164fcf85fe453b9101181ea014929790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 31/35] fix: a default factory that takes data gets an empty
 dict where there is no data

---
 src/validators/with_default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 508c957..80bbb01 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -55,7 +55,7 @@ impl DefaultType {
                     if let Some(data) = validated_data {
                         default_factory.call1(py, (data,))
                     } else {
-                        default_factory.call1(py, ({},))
+                        default_factory.call1(py, (PyDict::new(py),))
                     }
                 } else {
                     default_factory.call0(py)
-- 
2.43.0


From 85783370fbcd7a33c853d897bd749e33e0745734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 32/35] fix: validating an invalid default does not recurse
 forever with on_error='default'

---
 src/validators/with_default.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 80bbb01..e615d9e 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -191,8 +191,10 @@ impl Validator for WithDefaultValidator {
                     stored_dft
                 };
                 if self.validate_default {
-                    match self.validate(py, dft.bind(py), state) {
+                    // not `self.validate`: there is no other default to stand in for a default which is not valid
+                    match self.validator.validate(py, dft.bind(py), state) {
                         Ok(v) => Ok(Some(v)),
+                        Err(ValError::LineErrors(_)) if self.omit_on_error() => Err(ValError::Omit),
                         Err(e) => {
                             if let Some(outer_loc) = outer_loc {
                                 Err(e.with_outer_location(outer_loc))
-- 
2.43.0


From 741c3e93b7f442ba68ae8919d21a9ac5d93da555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 33/35] fix: validating PydanticUndefined without a default
 does not panic

---
 src/validators/with_default.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index e615d9e..ec1a45f 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -158,22 +158,23 @@ impl Validator for WithDefaultValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
-            Ok(self.default_value(py, None::<usize>, state)?.unwrap())
-        } else {
-            match self.validator.validate(py, input, state) {
-                Ok(v) => Ok(v),
-                Err(e) => match e {
-                    ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
-                    // not a validation error
-                    ValError::InternalErr(_) => Err(e),
-                    e => match self.on_error {
-                        OnError::Raise => Err(e),
-                        OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
-                        OnError::Omit => Err(ValError::Omit),
-                    },
-                },
+            if let Some(default) = self.default_value(py, None::<usize>, state)? {
+                return Ok(default);
             }
         }
+        match self.validator.validate(py, input, state) {
+            Ok(v) => Ok(v),
+            Err(e) => match e {
+                ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                // not a validation error
+                ValError::InternalErr(_) => Err(e),
+                e => match self.on_error {
+                    OnError::Raise => Err(e),
+                    OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                    OnError::Omit => Err(ValError::Omit),
+                },
+            },
+        }
     }
 
     fn default_value<'py>(
-- 
2.43.0


From 487021d8fe7efc3fe9e8c48681185f96986a4422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 34/35] fix: exclude_defaults knows the default of a definition

---
 src/serializers/type_serializers/definitions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serializers/type_serializers/definitions.rs b/src/serializers/type_serializers/definitions.rs
index ad2a43c..832442b 100644
--- a/src/serializers/type_serializers/definitions.rs
+++ b/src/serializers/type_serializers/definitions.rs
@@ -131,4 +131,8 @@ impl TypeSerializer for DefinitionRefSerializer {
             .retry_with_lax_check
             .get_or_init(|| self.definition.read(|s| s.unwrap().retry_with_lax_check()), &false)
     }
+
+    fn get_default(&self, py: Python) -> PyResult<Option<PyObject>> {
+        self.definition.read(|s| s.unwrap().get_default(py))
+    }
 }
-- 
2.43.0


From b209d277603603c4293b7b2fecf30be48a317e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 35/35] fix: partial validation does not drop errors of
 defaults of a typed dict

---
 src/validators/typed_dict.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index 58f71e6..28f855c 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -239,6 +239,8 @@ impl Validator for TypedDictValidator {
                     continue;
                 }
 
+                // a default is not part of the input, so it's never cut off
+                state.allow_partial = false.into();
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
-- 
2.43.0

