//! No variable is set.
pub use ::std::env::*;
pub fn var<K>(_: K) -> Result<::std::string::String, ::std::env::VarError> {
    Err(::std::env::VarError::NotPresent)
}
