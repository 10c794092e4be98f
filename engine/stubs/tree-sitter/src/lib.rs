//! Signature-only stand-in for the C library binding that is not available offline.
#![allow(unused_variables)]
use std::marker::PhantomData;
#[derive(Clone, Debug)]
pub struct Language;
#[derive(Clone, Copy)]
pub struct LanguageFn;
impl From<LanguageFn> for Language { fn from(_: LanguageFn) -> Language { loop {} } }
#[derive(Debug)]
pub struct LanguageError;
impl std::fmt::Display for LanguageError { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for LanguageError {}
pub struct Parser;
#[derive(Clone, Debug)]
pub struct Tree;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Point { pub row: usize, pub column: usize }
impl Point { pub const fn new(row: usize, column: usize) -> Self { Point { row, column } } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Range { pub start_byte: usize, pub end_byte: usize, pub start_point: Point, pub end_point: Point }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct InputEdit { pub start_byte: usize, pub old_end_byte: usize, pub new_end_byte: usize, pub start_position: Point, pub old_end_position: Point, pub new_end_position: Point }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node<'tree>(PhantomData<&'tree ()>);
pub struct TreeCursor<'c>(PhantomData<&'c ()>);
impl Default for Parser { fn default() -> Self { loop {} } }
impl Parser {
    pub fn new() -> Parser { loop {} }
    pub fn set_language(&mut self, l: &Language) -> Result<(), LanguageError> { loop {} }
    pub fn parse(&mut self, text: impl AsRef<[u8]>, old: Option<&Tree>) -> Option<Tree> { loop {} }
}
impl Tree { pub fn root_node(&self) -> Node<'_> { loop {} } pub fn walk(&self) -> TreeCursor<'_> { loop {} } }
impl<'tree> Node<'tree> {
    pub fn id(&self) -> usize { loop {} }
    pub fn kind(&self) -> &'static str { loop {} }
    pub fn is_named(&self) -> bool { loop {} }
    pub fn is_extra(&self) -> bool { loop {} }
    pub fn is_error(&self) -> bool { loop {} }
    pub fn is_missing(&self) -> bool { loop {} }
    pub fn has_error(&self) -> bool { loop {} }
    pub fn start_byte(&self) -> usize { loop {} }
    pub fn end_byte(&self) -> usize { loop {} }
    pub fn byte_range(&self) -> std::ops::Range<usize> { loop {} }
    pub fn start_position(&self) -> Point { loop {} }
    pub fn end_position(&self) -> Point { loop {} }
    pub fn child(&self, i: usize) -> Option<Self> { loop {} }
    pub fn child_count(&self) -> usize { loop {} }
    pub fn named_child(&self, i: usize) -> Option<Self> { loop {} }
    pub fn named_child_count(&self) -> usize { loop {} }
    pub fn child_by_field_name(&self, f: impl AsRef<[u8]>) -> Option<Self> { loop {} }
    pub fn children<'c>(&self, c: &'c mut TreeCursor<'tree>) -> std::vec::IntoIter<Node<'tree>> { loop {} }
    pub fn parent(&self) -> Option<Self> { loop {} }
    pub fn next_sibling(&self) -> Option<Self> { loop {} }
    pub fn prev_sibling(&self) -> Option<Self> { loop {} }
    pub fn walk(&self) -> TreeCursor<'tree> { loop {} }
    pub fn utf8_text<'a>(&self, s: &'a [u8]) -> Result<&'a str, std::str::Utf8Error> { loop {} }
    pub fn to_sexp(&self) -> String { loop {} }
}
impl<'c> TreeCursor<'c> {
    pub fn node(&self) -> Node<'c> { loop {} }
    pub fn field_name(&self) -> Option<&'static str> { loop {} }
    pub fn goto_first_child(&mut self) -> bool { loop {} }
    pub fn goto_last_child(&mut self) -> bool { loop {} }
    pub fn goto_parent(&mut self) -> bool { loop {} }
    pub fn goto_next_sibling(&mut self) -> bool { loop {} }
    pub fn goto_previous_sibling(&mut self) -> bool { loop {} }
    pub fn depth(&self) -> u32 { loop {} }
}
