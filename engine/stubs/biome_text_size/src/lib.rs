//! Signature-only stand-in for the git dependency that is not available offline.
use std::ops::*;
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
pub struct TextSize {
    pub(crate) raw: u32,
}
#[derive(Default, Copy, Clone, Eq, PartialEq, Hash, Debug)]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}
impl TextSize {
    pub const fn new(raw: u32) -> Self { TextSize { raw } }
    pub fn of<T: TextLen>(_t: T) -> TextSize { loop {} }
    pub fn checked_add(self, _r: TextSize) -> Option<TextSize> { loop {} }
    pub fn checked_sub(self, _r: TextSize) -> Option<TextSize> { loop {} }
}
impl std::fmt::Display for TextSize { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl From<u32> for TextSize { fn from(raw: u32) -> Self { TextSize { raw } } }
impl From<TextSize> for u32 { fn from(v: TextSize) -> Self { v.raw } }
impl TryFrom<usize> for TextSize { type Error = std::num::TryFromIntError; fn try_from(_: usize) -> Result<Self, Self::Error> { loop {} } }
impl From<TextSize> for usize { fn from(v: TextSize) -> Self { v.raw as usize } }
macro_rules! ops { ($($t:ident $f:ident $a:ident $af:ident),*) => { $(
    impl $t<TextSize> for TextSize { type Output = TextSize; fn $f(self, _: TextSize) -> TextSize { loop {} } }
    impl $t<&TextSize> for TextSize { type Output = TextSize; fn $f(self, _: &TextSize) -> TextSize { loop {} } }
    impl $t<TextSize> for TextRange { type Output = TextRange; fn $f(self, _: TextSize) -> TextRange { loop {} } }
    impl<A> $a<A> for TextSize where TextSize: $t<A, Output = TextSize> { fn $af(&mut self, _: A) { loop {} } }
    impl<A> $a<A> for TextRange where TextRange: $t<A, Output = TextRange> { fn $af(&mut self, _: A) { loop {} } }
)* } }
ops!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign);
impl std::iter::Sum for TextSize { fn sum<I: Iterator<Item = TextSize>>(_: I) -> TextSize { loop {} } }
impl TextRange {
    pub const fn new(start: TextSize, end: TextSize) -> TextRange { TextRange { start, end } }
    pub const fn at(start: TextSize, _len: TextSize) -> TextRange { TextRange { start, end: start } }
    pub const fn empty(o: TextSize) -> TextRange { TextRange { start: o, end: o } }
    pub const fn up_to(end: TextSize) -> TextRange { TextRange { start: TextSize::new(0), end } }
    pub const fn start(self) -> TextSize { self.start }
    pub const fn end(self) -> TextSize { self.end }
    pub const fn len(self) -> TextSize { self.end }
    pub const fn is_empty(self) -> bool { loop {} }
    pub fn contains(self, _: TextSize) -> bool { loop {} }
    pub fn contains_inclusive(self, _: TextSize) -> bool { loop {} }
    pub fn contains_range(self, _: TextRange) -> bool { loop {} }
    pub fn intersect(self, _: TextRange) -> Option<TextRange> { loop {} }
    pub fn cover(self, _: TextRange) -> TextRange { loop {} }
    pub fn cover_offset(self, _: TextSize) -> TextRange { loop {} }
    pub fn checked_add(self, _: TextSize) -> Option<TextRange> { loop {} }
    pub fn checked_sub(self, _: TextSize) -> Option<TextRange> { loop {} }
    pub fn add_start(self, _: TextSize) -> TextRange { loop {} }
    pub fn add_end(self, _: TextSize) -> TextRange { loop {} }
    pub fn sub_start(self, _: TextSize) -> TextRange { loop {} }
    pub fn sub_end(self, _: TextSize) -> TextRange { loop {} }
    pub fn ordering(self, _: TextRange) -> std::cmp::Ordering { loop {} }
}
impl From<TextRange> for Range<usize> { fn from(_: TextRange) -> Self { loop {} } }
impl Index<TextRange> for str { type Output = str; fn index(&self, _: TextRange) -> &str { loop {} } }
impl Index<TextRange> for String { type Output = str; fn index(&self, _: TextRange) -> &str { loop {} } }
pub trait TextLen: Copy { fn text_len(self) -> TextSize; }
impl TextLen for &'_ str { fn text_len(self) -> TextSize { loop {} } }
impl TextLen for &'_ String { fn text_len(self) -> TextSize { loop {} } }
impl TextLen for char { fn text_len(self) -> TextSize { loop {} } }
