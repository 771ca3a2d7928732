//! Stand-in for `derive_builder` 0.12 (not available offline).
pub use derive_builder_macro::Builder;
#[derive(Debug, Clone)]
pub struct UninitializedFieldError(pub &'static str);
impl UninitializedFieldError {
    pub fn field_name(&self) -> &'static str {
        self.0
    }
}
