//! Stand-in for `uniffi`: the exported items are analysed as the plain Rust they are written in.
pub use uniffi_macros_stub::{export, constructor, Enum, Error, Object, Record};
#[macro_export]
macro_rules! setup_scaffolding { ($($t:tt)*) => {}; }
pub fn uniffi_bindgen_main() {}
