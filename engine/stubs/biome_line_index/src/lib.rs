//! Signature-only stand-in for the git dependency that is not available offline.
use biome_text_size::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WideEncoding { Utf16, Utf32 }
impl WideEncoding { pub fn measure(&self, _text: &str) -> usize { loop {} } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct LineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct WideLineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct WideChar { pub start: TextSize, pub end: TextSize }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LineIndex { pub newlines: Vec<TextSize>, pub line_wide_chars: std::collections::HashMap<u32, Vec<WideChar>> }
impl LineIndex {
    pub fn new(_text: &str) -> LineIndex { loop {} }
    pub fn line_col(&self, _offset: TextSize) -> Option<LineCol> { loop {} }
    pub fn offset(&self, _lc: LineCol) -> Option<TextSize> { loop {} }
    pub fn to_wide(&self, _e: WideEncoding, _lc: LineCol) -> Option<WideLineCol> { loop {} }
    pub fn to_utf8(&self, _e: WideEncoding, _lc: WideLineCol) -> LineCol { loop {} }
    pub fn line_range(&self, _line: u32) -> Option<TextRange> { loop {} }
    pub fn len(&self) -> u32 { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
}
