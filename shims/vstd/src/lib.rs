//! Stand-in for the parts of `std` that reach the operating system or whose implementation is too
//! heavy to execute symbolically; everything else is `std` itself, re-exported.
//!
//! `fs`/`io`/`path`: a small in-memory file system with explicit durable and volatile contents and
//! injectable write failures. `collections`: array-backed maps and sets with the std interface;
//! hash-map iteration order is arbitrary when `collections::arbitrary_order(true)` was called.
//! `time`: a clock the harness sets.
#![allow(missing_docs, static_mut_refs, clippy::all)]

pub use ::std::*;

pub mod collections;
pub mod env;
pub mod net;
pub mod fs;
pub mod io;
pub mod path;
pub mod time;
pub mod vec;
pub use ::std::vec as std_vec;

/// `format!` whose text nobody looks at: the arguments are evaluated by reference, not rendered.
#[macro_export]
macro_rules! noformat {
    ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); $crate::Text }};
}

/// Prints nothing.
#[macro_export]
macro_rules! quiet {
    ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); }};
}

/// `to_string` whose text nobody looks at.
#[inline(always)]
pub fn text<T: ?Sized>(_: &T) -> Text {
    Text
}
/// Text nobody looks at.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Text;
impl fmt::Display for Text {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl From<&str> for Text {
    fn from(_: &str) -> Self {
        Text
    }
}
impl From<::std::string::String> for Text {
    fn from(_: ::std::string::String) -> Self {
        Text
    }
}

/// Gives a type a niche at its start, where the layout of enums around it keeps its constants visible to
/// the symbolic execution.
pub struct Niche(::std::mem::ManuallyDrop<::std::vec::Vec<u8>>);
impl Niche {
    #[inline(always)]
    pub const fn new() -> Self {
        Niche(::std::mem::ManuallyDrop::new(::std::vec::Vec::new()))
    }
}

/// Text for whatever is turned into text.
pub trait VkText {
    fn vk_text(&self) -> Text {
        Text
    }
}
impl<T: ?Sized> VkText for T {}
