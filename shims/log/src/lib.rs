//! Stand-in: logging does nothing.
#[macro_export]
macro_rules! error { ($($t:tt)*) => {{ if false { let _ = format_args!($($t)*); } }} }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => {{ if false { let _ = format_args!($($t)*); } }} }
#[macro_export]
macro_rules! info { ($($t:tt)*) => {{ if false { let _ = format_args!($($t)*); } }} }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{ if false { let _ = format_args!($($t)*); } }} }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => {{ if false { let _ = format_args!($($t)*); } }} }
