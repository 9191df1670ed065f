//! Stand-in for `tracing`: events are formatted into nothing.
#[doc(hidden)]
pub fn sink(_: core::fmt::Arguments<'_>) {}
#[macro_export]
macro_rules! event {
    ($($t:tt)*) => {{}};
}
#[macro_export]
macro_rules! trace { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! info { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! error { ($($t:tt)*) => {{}}; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Level(u8);
impl Level {
    pub const ERROR: Level = Level(1);
    pub const WARN: Level = Level(2);
    pub const INFO: Level = Level(3);
    pub const DEBUG: Level = Level(4);
    pub const TRACE: Level = Level(5);
}
pub use tracing_attributes::instrument;
#[derive(Clone, Copy, Debug)]
pub struct Span;
impl Span {
    pub fn in_scope<F: FnOnce() -> T, T>(&self, f: F) -> T {
        f()
    }
    pub fn entered(self) -> Span {
        self
    }
    pub fn exit(self) -> Span {
        self
    }
    pub fn none() -> Span {
        Span
    }
}
#[macro_export]
macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! trace_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
pub trait Instrument: Sized {
    fn instrument(self, _: Span) -> Self {
        self
    }
}
impl<T> Instrument for T {}
pub mod subscriber {
    #[derive(Clone, Copy, Debug)]
    pub struct SetGlobalDefaultError;
    pub fn set_global_default<S>(_: S) -> Result<(), SetGlobalDefaultError> {
        Ok(())
    }
}
