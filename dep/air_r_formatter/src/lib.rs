//! The real options (`context.rs`) over a stand-in formatter, whose output depends on the options.
#[path = "@REPO@/crates/air_r_formatter/src/context.rs"]
pub mod context;
pub mod comments {
    #[derive(Clone, Debug, Default)]
    pub struct FormatRLeadingComment;
    #[derive(Clone, Debug, Default)]
    pub struct RCommentStyle;
    pub type RComments = biome_formatter::comments::Comments<air_r_syntax::RLanguage>;
}
use air_r_syntax::RSyntaxNode;
use biome_formatter::*;
use context::RFormatOptions;

pub struct Formatted(Result<Printed, PrintError>);
impl Formatted {
    pub fn print(&self) -> PrintResult<Printed> {
        self.0.clone()
    }
    pub fn into_document(self) -> String {
        match self.0 {
            Ok(p) => p.into_code(),
            Err(_) => String::new(),
        }
    }
}
/// Drops spaces and carriage returns, writes line ends and `>` (an indentation) as the options
/// say. Fails on `?`, and prints with an error on `#`.
pub fn format_node(options: RFormatOptions, root: &RSyntaxNode) -> FormatResult<Formatted> {
    Ok(Formatted(code(&options, &root.text())?))
}
fn code(options: &RFormatOptions, text: &str) -> FormatResult<Result<Printed, PrintError>> {
    let mut out = String::new();
    let mut bad = false;
    for b in text.bytes() {
        if b == b'?' {
            return Err(FormatError::SyntaxError);
        }
        bad |= b == b'#';
    }
    if bad {
        return Ok(Err(PrintError::InvalidDocument));
    }
    for c in text.chars() {
        match c {
            ' ' | '\r' => {}
            '\n' => out.push_str(options.line_ending().as_str()),
            '>' => {
                if options.indent_style().is_tab() {
                    out.push('\t');
                } else {
                    for _ in 0..options.indent_width().value() {
                        out.push('.');
                    }
                }
            }
            c => out.push(c),
        }
    }
    Ok(Ok(Printed(out)))
}
#[derive(Clone, Debug)]
pub struct RFormatLanguage {
    options: RFormatOptions,
}
impl RFormatLanguage {
    pub fn new(options: RFormatOptions) -> Self {
        Self { options }
    }
}
impl FormatLanguage for RFormatLanguage {
    type Node = RSyntaxNode;
    /// a text of its own: without what is blank around it, and with a line end behind it
    fn print_sub_tree(self, root: &RSyntaxNode) -> FormatResult<Printed> {
        let text = root.text();
        let text = text.trim_matches(|c| c == ' ' || c == '\t' || c == '\r' || c == '\n');
        match code(&self.options, text)? {
            Ok(mut p) => {
                p.0.push_str(self.options.line_ending().as_str());
                Ok(p)
            }
            Err(_) => Err(FormatError::SyntaxError),
        }
    }
}
