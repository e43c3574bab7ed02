//! Reports nobody reads.
pub struct Report(());
pub type ErrReport = Report;
pub type Result<T, E = Report> = core::result::Result<T, E>;
impl Report {
    #[inline(always)]
    pub fn vk() -> Self { Report(()) }
    pub fn msg<M>(_: M) -> Self { Report(()) }
    pub fn new<M>(_: M) -> Self { Report(()) }
    pub fn wrap_err<M>(self, _: M) -> Self { self }
}
impl std::fmt::Debug for Report { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::fmt::Display for Report { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Report {
    fn from(e: E) -> Self { std::mem::forget(e); Report(()) }
}
#[macro_export]
macro_rules! eyre { ($($t:tt)*) => {{ let _ = ::core::format_args!($($t)*); $crate::Report::vk() }}; }
#[macro_export]
macro_rules! bail { ($($t:tt)*) => { return ::core::result::Result::Err($crate::eyre!($($t)*)) }; }
#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { return ::core::result::Result::Err($crate::Report::vk()) } };
    ($c:expr, $($t:tt)*) => { if !$c { return ::core::result::Result::Err($crate::eyre!($($t)*)) } };
}
pub trait WrapErr<T> {
    fn wrap_err<D>(self, d: D) -> Result<T>;
    fn wrap_err_with<D, F: FnOnce() -> D>(self, f: F) -> Result<T>;
    fn context<D>(self, d: D) -> Result<T>;
}
impl<T, E: Into<Report>> WrapErr<T> for core::result::Result<T, E> {
    fn wrap_err<D>(self, _: D) -> Result<T> { self.map_err(Into::into) }
    fn wrap_err_with<D, F: FnOnce() -> D>(self, _: F) -> Result<T> { self.map_err(Into::into) }
    fn context<D>(self, _: D) -> Result<T> { self.map_err(Into::into) }
}
pub use WrapErr as Context;
pub trait OptionExt<T> { fn ok_or_eyre<M>(self, m: M) -> Result<T>; }
impl<T> OptionExt<T> for Option<T> { fn ok_or_eyre<M>(self, _: M) -> Result<T> { self.ok_or(Report(())) } }

#[derive(Debug)]
struct Nothing;
impl std::fmt::Display for Nothing { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Nothing {}
static NOTHING: Nothing = Nothing;
impl std::ops::Deref for Report { type Target = dyn std::error::Error + Send + Sync + 'static; fn deref(&self) -> &Self::Target { &NOTHING } }
