//! Stand-in for `biome_text_size` (the `text-size` crate): offsets and ranges.
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TextSize(u32);
pub trait TextLen: Copy {
    fn text_len(self) -> TextSize;
}
impl TextLen for &str {
    fn text_len(self) -> TextSize {
        TextSize(self.len().try_into().unwrap())
    }
}
impl TextLen for &String {
    fn text_len(self) -> TextSize {
        self.as_str().text_len()
    }
}
impl TextLen for char {
    fn text_len(self) -> TextSize {
        TextSize(self.len_utf8() as u32)
    }
}
impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl TextSize {
    pub fn of<T: TextLen>(t: T) -> TextSize {
        t.text_len()
    }
    pub const fn new(n: u32) -> TextSize {
        TextSize(n)
    }
    pub fn checked_add(self, o: TextSize) -> Option<TextSize> {
        self.0.checked_add(o.0).map(TextSize)
    }
    pub fn checked_sub(self, o: TextSize) -> Option<TextSize> {
        self.0.checked_sub(o.0).map(TextSize)
    }
}
impl From<u32> for TextSize {
    fn from(n: u32) -> Self {
        TextSize(n)
    }
}
impl From<TextSize> for u32 {
    fn from(n: TextSize) -> u32 {
        n.0
    }
}
impl From<TextSize> for usize {
    fn from(n: TextSize) -> usize {
        n.0 as usize
    }
}
impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    fn try_from(n: usize) -> Result<Self, Self::Error> {
        Ok(TextSize(n.try_into()?))
    }
}
macro_rules! ops {
    ($T:ident $t:ident $A:ident $a:ident $f:tt) => {
        impl $T for TextSize {
            type Output = TextSize;
            fn $t(self, o: TextSize) -> TextSize {
                TextSize(self.0 $f o.0)
            }
        }
        impl $T<&TextSize> for TextSize {
            type Output = TextSize;
            fn $t(self, o: &TextSize) -> TextSize {
                TextSize(self.0 $f o.0)
            }
        }
        impl $A for TextSize {
            fn $a(&mut self, o: TextSize) {
                self.0 = self.0 $f o.0
            }
        }
        impl $A<&TextSize> for TextSize {
            fn $a(&mut self, o: &TextSize) {
                self.0 = self.0 $f o.0
            }
        }
        impl $T<TextSize> for TextRange {
            type Output = TextRange;
            fn $t(self, o: TextSize) -> TextRange {
                TextRange::new(self.start $f o, self.end $f o)
            }
        }
        impl $A<TextSize> for TextRange {
            fn $a(&mut self, o: TextSize) {
                *self = TextRange::new(self.start $f o, self.end $f o)
            }
        }
    };
}
ops!(Add add AddAssign add_assign +);
ops!(Sub sub SubAssign sub_assign -);
impl std::iter::Sum for TextSize {
    fn sum<I: Iterator<Item = TextSize>>(i: I) -> TextSize {
        i.fold(TextSize(0), |a, b| a + b)
    }
}
#[derive(Copy, Clone, Default, PartialEq, Eq, Hash)]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}
impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}..{}", self.start.0, self.end.0)
    }
}
impl TextRange {
    #[track_caller]
    pub fn new(start: TextSize, end: TextSize) -> TextRange {
        assert!(start <= end);
        TextRange { start, end }
    }
    pub fn at(offset: TextSize, len: TextSize) -> TextRange {
        TextRange::new(offset, offset + len)
    }
    pub fn empty(offset: TextSize) -> TextRange {
        TextRange { start: offset, end: offset }
    }
    pub fn up_to(end: TextSize) -> TextRange {
        TextRange { start: TextSize(0), end }
    }
    pub const fn start(self) -> TextSize {
        self.start
    }
    pub const fn end(self) -> TextSize {
        self.end
    }
    pub const fn len(self) -> TextSize {
        TextSize(self.end.0 - self.start.0)
    }
    pub const fn is_empty(self) -> bool {
        self.start.0 == self.end.0
    }
    pub fn contains(self, o: TextSize) -> bool {
        self.start <= o && o < self.end
    }
    pub fn contains_inclusive(self, o: TextSize) -> bool {
        self.start <= o && o <= self.end
    }
    pub fn contains_range(self, o: TextRange) -> bool {
        self.start <= o.start && o.end <= self.end
    }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> {
        let start = self.start.max(o.start);
        let end = self.end.min(o.end);
        if end < start { None } else { Some(TextRange { start, end }) }
    }
    pub fn cover(self, o: TextRange) -> TextRange {
        TextRange { start: self.start.min(o.start), end: self.end.max(o.end) }
    }
    pub fn cover_offset(self, o: TextSize) -> TextRange {
        self.cover(TextRange::empty(o))
    }
    pub fn checked_add(self, o: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_add(o)?, end: self.end.checked_add(o)? })
    }
    pub fn checked_sub(self, o: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_sub(o)?, end: self.end.checked_sub(o)? })
    }
    pub fn ordering(self, o: TextRange) -> Ordering {
        if self.end <= o.start {
            Ordering::Less
        } else if o.end <= self.start {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
}
impl Index<TextRange> for str {
    type Output = str;
    fn index(&self, r: TextRange) -> &str {
        &self[r.start.0 as usize..r.end.0 as usize]
    }
}
impl Index<TextRange> for String {
    type Output = str;
    fn index(&self, r: TextRange) -> &str {
        &self.as_str()[r]
    }
}
impl<T: From<TextSize>> From<TextRange> for Range<T> {
    fn from(r: TextRange) -> Self {
        r.start.into()..r.end.into()
    }
}
