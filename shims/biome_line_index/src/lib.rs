//! Stand-in for `biome_line_index`: offsets and (line, column) pairs.
use biome_text_size::TextSize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum WideEncoding {
    Utf16,
    Utf32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct LineCol {
    pub line: u32,
    pub col: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct WideLineCol {
    pub line: u32,
    pub col: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct WideChar {
    pub start: u32,
    pub end: u32,
}
impl WideChar {
    fn shorter(&self, enc: WideEncoding) -> u32 {
        let n = self.end - self.start;
        let wide = match enc {
            WideEncoding::Utf16 => {
                if n == 4 {
                    2
                } else {
                    1
                }
            }
            WideEncoding::Utf32 => 1,
        };
        n - wide
    }
    fn wide(&self, enc: WideEncoding) -> u32 {
        self.end - self.start - self.shorter(enc)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct LineIndex {
    /// offsets at which lines begin
    pub newlines: Vec<TextSize>,
    /// the characters of more than one byte, by line
    pub line_wide_chars: Vec<Vec<WideChar>>,
}
impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut newlines = vec![TextSize::from(0)];
        let mut line_wide_chars = vec![vec![]];
        let mut at = 0u32;
        let mut start = 0u32;
        // by leading bytes: `text` is UTF-8
        for b in text.bytes() {
            if b == b'\n' {
                newlines.push(TextSize::from(at + 1));
                line_wide_chars.push(vec![]);
                start = at + 1;
            } else if b >= 0xc0 {
                let n = if b >= 0xf0 {
                    4
                } else if b >= 0xe0 {
                    3
                } else {
                    2
                };
                line_wide_chars.last_mut().unwrap().push(WideChar { start: at - start, end: at - start + n });
            }
            at += 1;
        }
        LineIndex { newlines, line_wide_chars }
    }
    pub fn line_col(&self, offset: TextSize) -> Option<LineCol> {
        let line = self.newlines.iter().filter(|it| **it <= offset).count().checked_sub(1)?;
        let col = offset - self.newlines[line];
        Some(LineCol { line: line as u32, col: col.into() })
    }
    pub fn offset(&self, at: LineCol) -> Option<TextSize> {
        self.newlines.get(at.line as usize).map(|o| *o + TextSize::from(at.col))
    }
    pub fn to_wide(&self, enc: WideEncoding, at: LineCol) -> Option<WideLineCol> {
        let mut col = at.col;
        for c in self.line_wide_chars.get(at.line as usize).into_iter().flatten() {
            if c.end <= at.col {
                col -= c.shorter(enc);
            } else {
                break;
            }
        }
        Some(WideLineCol { line: at.line, col })
    }
    pub fn to_utf8(&self, enc: WideEncoding, at: WideLineCol) -> LineCol {
        let mut col = at.col;
        for c in self.line_wide_chars.get(at.line as usize).into_iter().flatten() {
            if col > c.start {
                col += c.end - c.start - c.wide(enc);
            } else {
                break;
            }
        }
        LineCol { line: at.line, col }
    }
    pub fn len(&self) -> u32 {
        self.newlines.len() as u32
    }
    pub fn is_empty(&self) -> bool {
        false
    }
}
