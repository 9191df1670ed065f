//! Stand-in for `colored`, as it is without a terminal: no colour.
use std::fmt;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(pub String);
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl std::ops::Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
macro_rules! styles {
    ($($n:ident)*) => {
        pub trait Colorize {
            $(fn $n(self) -> ColoredString where Self: Sized;)*
        }
        impl Colorize for &str {
            $(fn $n(self) -> ColoredString { ColoredString(self.to_string()) })*
        }
        impl Colorize for ColoredString {
            $(fn $n(self) -> ColoredString { self })*
        }
    };
}
styles!(underline bold dimmed italic red green yellow blue cyan magenta white normal clear);
pub mod control {
    pub fn set_override(_: bool) {}
    pub fn unset_override() {}
}
