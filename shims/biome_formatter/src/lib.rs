//! Stand-in for `biome_formatter`: the option types, and the traits `RFormatContext` and
//! `RFormatOptions` implement.
use std::fmt;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub enum IndentStyle {
    #[default]
    Tab,
    Space,
}
impl IndentStyle {
    pub const fn is_tab(&self) -> bool {
        matches!(self, IndentStyle::Tab)
    }
    pub const fn is_space(&self) -> bool {
        matches!(self, IndentStyle::Space)
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub enum LineEnding {
    #[default]
    Lf,
    Crlf,
    Cr,
}
impl LineEnding {
    pub const fn as_str(&self) -> &'static str {
        match self {
            LineEnding::Lf => "\n",
            LineEnding::Crlf => "\r\n",
            LineEnding::Cr => "\r",
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct OutOfRange;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct IndentWidth(u8);
impl Default for IndentWidth {
    fn default() -> Self {
        Self(2)
    }
}
impl IndentWidth {
    pub const MIN: u8 = 0;
    pub const MAX: u8 = 24;
    pub fn value(&self) -> u8 {
        self.0
    }
}
impl TryFrom<u8> for IndentWidth {
    type Error = OutOfRange;
    fn try_from(v: u8) -> Result<Self, OutOfRange> {
        if v <= Self::MAX { Ok(Self(v)) } else { Err(OutOfRange) }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct LineWidth(u16);
impl Default for LineWidth {
    fn default() -> Self {
        Self(80)
    }
}
impl LineWidth {
    pub const MIN: u16 = 1;
    pub const MAX: u16 = 320;
    pub fn value(&self) -> u16 {
        self.0
    }
}
impl TryFrom<u16> for LineWidth {
    type Error = OutOfRange;
    fn try_from(v: u16) -> Result<Self, OutOfRange> {
        if v >= Self::MIN && v <= Self::MAX { Ok(Self(v)) } else { Err(OutOfRange) }
    }
}

#[derive(Clone, Debug)]
pub struct TransformSourceMap;

pub trait FormatOptions {
    fn indent_style(&self) -> IndentStyle;
    fn indent_width(&self) -> IndentWidth;
    fn line_width(&self) -> LineWidth;
    fn line_ending(&self) -> LineEnding;
    fn as_print_options(&self) -> printer::PrinterOptions;
}
pub trait FormatContext {
    type Options: FormatOptions;
    fn options(&self) -> &Self::Options;
    fn source_map(&self) -> Option<&TransformSourceMap>;
}
pub mod comments {
    #[derive(Clone, Debug, Default)]
    pub struct Comments<L>(std::marker::PhantomData<L>);
}
pub trait CstFormatContext: FormatContext {
    type Language;
    type Style;
    type CommentRule;
    fn comments(&self) -> &comments::Comments<Self::Language>;
}
pub mod printer {
    use super::*;
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct PrinterOptions {
        pub indent_style: IndentStyle,
        pub indent_width: IndentWidth,
        pub print_width: LineWidth,
        pub line_ending: LineEnding,
    }
    impl<O: FormatOptions> From<&O> for PrinterOptions {
        fn from(o: &O) -> Self {
            Self {
                indent_style: o.indent_style(),
                indent_width: o.indent_width(),
                print_width: o.line_width(),
                line_ending: o.line_ending(),
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FormatError {
    SyntaxError,
}
impl fmt::Display for FormatError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("format error")
    }
}
impl std::error::Error for FormatError {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PrintError {
    InvalidDocument,
}
impl fmt::Display for PrintError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("print error")
    }
}
impl std::error::Error for PrintError {}
pub type FormatResult<T> = Result<T, FormatError>;
pub type PrintResult<T> = Result<T, PrintError>;
#[derive(Clone, Debug)]
pub struct Printed(pub String);
impl Printed {
    pub fn range(&self) -> Option<std::ops::Range<usize>> {
        if self.0.is_empty() { None } else { Some(0..self.0.len()) }
    }
    pub fn into_code(self) -> String {
        self.0
    }
    pub fn as_code(&self) -> &str {
        &self.0
    }
}

pub trait FormatLanguage {
    type Node;
    fn print_sub_tree(self, root: &Self::Node) -> FormatResult<Printed>;
}
pub fn format_sub_tree<L: FormatLanguage>(root: &L::Node, language: L) -> FormatResult<Printed> {
    language.print_sub_tree(root)
}
