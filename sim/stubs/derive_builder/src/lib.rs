//! Stand-in for the `derive_builder` crate (not available offline): same generated API for the
//! attributes commonly used.
pub use derive_builder_macro::Builder;

#[derive(Debug, Clone)]
pub struct UninitializedFieldError(&'static str);
impl UninitializedFieldError {
    pub fn new(f: &'static str) -> Self {
        Self(f)
    }
    pub fn field_name(&self) -> &'static str {
        self.0
    }
}
impl std::fmt::Display for UninitializedFieldError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Field not initialized: {}", self.0)
    }
}
impl std::error::Error for UninitializedFieldError {}
impl From<&'static str> for UninitializedFieldError {
    fn from(f: &'static str) -> Self {
        Self(f)
    }
}
