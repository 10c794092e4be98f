//! Signature-only stand-in for the git dependency that is not available offline.
#![allow(unused_variables, dead_code, clippy::all)]
use biome_rowan::*;
use std::borrow::Cow;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::num::ParseIntError;

pub mod prelude {
    pub use crate::builders::*;
    pub use crate::comments::*;
    pub use crate::separated::*;
    pub use crate::trivia::*;
    pub use crate::verbatim::*;
    pub use crate::{
        best_fitting, format_args, Buffer as _, BufferExtensions, Format, FormatContext, CstFormatContext,
        FormatError, FormatOptions as _, FormatResult, FormatRule, FormatWithRule as _, Formatter, SimpleFormatContext,
        FormatElement, Line, MemoizeFormat, dbg_write, format_element::document::Document, tag::Tag,
    };
}
pub use builders::BestFitting;
pub use comments::{CommentKind, CommentPlacement, CommentStyle, Comments, DecoratedComment, SourceComment};

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum FormatError { SyntaxError, RangeError { input: TextRange, tree: TextRange }, InvalidDocument(InvalidDocumentError), PoorLayout }
#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub struct InvalidDocumentError;
impl std::fmt::Display for FormatError { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for FormatError {}
impl From<SyntaxError> for FormatError { fn from(_: SyntaxError) -> Self { FormatError::SyntaxError } }
impl From<&SyntaxError> for FormatError { fn from(_: &SyntaxError) -> Self { FormatError::SyntaxError } }
impl From<PrintError> for FormatError { fn from(_: PrintError) -> Self { loop {} } }
pub type FormatResult<F> = Result<F, FormatError>;
#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum PrintError { InvalidDocument(InvalidDocumentError) }
impl std::fmt::Display for PrintError { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for PrintError {}
pub type PrintResult<T> = Result<T, PrintError>;

#[derive(Debug, Eq, Hash, PartialEq, Clone, Copy, Default, serde::Serialize, serde::Deserialize)]
pub enum IndentStyle { #[default] Tab, Space }
impl IndentStyle { pub const fn is_tab(&self) -> bool { loop {} } pub const fn is_space(&self) -> bool { loop {} } }
impl std::fmt::Display for IndentStyle { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
#[derive(Debug, Eq, Hash, PartialEq, Clone, Copy, Default, serde::Serialize, serde::Deserialize)]
pub enum LineEnding { #[default] Lf, Crlf, Cr }
impl LineEnding { pub const fn as_str(&self) -> &'static str { loop {} } pub const fn is_line_feed(&self) -> bool { loop {} } }
impl std::fmt::Display for LineEnding { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct IndentWidth(u8);
impl Default for IndentWidth { fn default() -> Self { loop {} } }
impl IndentWidth { pub const MIN: u8 = 0; pub const MAX: u8 = 24; pub fn value(&self) -> u8 { self.0 } }
#[derive(Debug)]
pub struct IndentWidthFromIntError(pub u8);
impl std::fmt::Display for IndentWidthFromIntError { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for IndentWidthFromIntError {}
impl From<u8> for IndentWidth { fn from(v: u8) -> Self { IndentWidth(v) } }
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct LineWidth(u16);
impl Default for LineWidth { fn default() -> Self { loop {} } }
impl LineWidth { pub const MIN: u16 = 1; pub const MAX: u16 = 320; pub fn value(&self) -> u16 { self.0 } pub fn get(&self) -> u16 { self.0 } }
#[derive(Debug)]
pub struct LineWidthFromIntError(pub u16);
impl std::fmt::Display for LineWidthFromIntError { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for LineWidthFromIntError {}
impl TryFrom<u16> for LineWidth { type Error = LineWidthFromIntError; fn try_from(v: u16) -> Result<Self, Self::Error> { loop {} } }

#[derive(Debug, Eq, PartialEq, Clone, Copy, Default, Hash)]
pub enum SourceMapGeneration { #[default] Disabled, Enabled }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TransformSourceMap;
impl TransformSourceMap { pub fn text(&self) -> &str { loop {} } }

pub trait FormatContext {
    type Options: FormatOptions;
    fn options(&self) -> &Self::Options;
    fn source_map(&self) -> Option<&TransformSourceMap>;
}
pub trait FormatOptions {
    fn indent_style(&self) -> IndentStyle;
    fn indent_width(&self) -> IndentWidth;
    fn line_width(&self) -> LineWidth;
    fn line_ending(&self) -> LineEnding;
    fn as_print_options(&self) -> printer::PrinterOptions;
}
pub trait CstFormatContext: FormatContext {
    type Language: Language;
    type Style: CommentStyle<Language = Self::Language>;
    type CommentRule: FormatRule<SourceComment<Self::Language>, Context = Self> + Default;
    fn comments(&self) -> &Comments<Self::Language>;
}
#[derive(Debug, Default, Eq, PartialEq, Clone)]
pub struct SimpleFormatContext { options: SimpleFormatOptions }
#[derive(Debug, Default, Eq, PartialEq, Clone)]
pub struct SimpleFormatOptions { pub indent_style: IndentStyle }
impl FormatOptions for SimpleFormatOptions {
    fn indent_style(&self) -> IndentStyle { loop {} }
    fn indent_width(&self) -> IndentWidth { loop {} }
    fn line_width(&self) -> LineWidth { loop {} }
    fn line_ending(&self) -> LineEnding { loop {} }
    fn as_print_options(&self) -> printer::PrinterOptions { loop {} }
}
impl FormatContext for SimpleFormatContext { type Options = SimpleFormatOptions; fn options(&self) -> &Self::Options { loop {} } fn source_map(&self) -> Option<&TransformSourceMap> { loop {} } }
pub mod printer {
    use super::*;
    #[derive(Clone, Debug, Eq, PartialEq, Default)]
    pub struct PrinterOptions { pub indent_width: IndentWidth, pub print_width: PrintWidth, pub line_ending: LineEnding, pub indent_style: IndentStyle }
    #[derive(Clone, Debug, Eq, PartialEq, Copy, Default)]
    pub struct PrintWidth(u32);
    impl<'a, O: FormatOptions> From<&'a O> for PrinterOptions { fn from(o: &'a O) -> Self { loop {} } }
    impl PrinterOptions { pub fn with_print_width(mut self, w: PrintWidth) -> Self { loop {} } }
    pub struct Printer<'a> { _p: PhantomData<&'a ()> }
}

pub trait Format<Context> { fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()>; }
impl<T: ?Sized + Format<C>, C> Format<C> for &T { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { Format::fmt(&**self, f) } }
impl<T: ?Sized + Format<C>, C> Format<C> for &mut T { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { Format::fmt(&**self, f) } }
impl<T: Format<C>, C> Format<C> for Option<T> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
impl<T: Format<C>, C> Format<C> for SyntaxResult<T> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
impl<C> Format<C> for () { fn fmt(&self, _: &mut Formatter<C>) -> FormatResult<()> { Ok(()) } }

pub trait FormatRule<T> { type Context; fn fmt(&self, item: &T, f: &mut Formatter<Self::Context>) -> FormatResult<()>; }
pub trait FormatRuleWithOptions<T>: FormatRule<T> { type Options; fn with_options(self, options: Self::Options) -> Self; }
pub trait FormatWithRule<Context>: Format<Context> { type Item; fn item(&self) -> &Self::Item; }
#[derive(Copy, Clone, Debug)]
pub struct FormatRefWithRule<'a, T, R> where R: FormatRule<T> { item: &'a T, rule: R }
impl<'a, T, R> FormatRefWithRule<'a, T, R> where R: FormatRule<T> { pub fn new(item: &'a T, rule: R) -> Self { Self { item, rule } } }
impl<T, R, O> FormatRefWithRule<'_, T, R> where R: FormatRuleWithOptions<T, Options = O> { pub fn with_options(mut self, options: O) -> Self { loop {} } }
impl<T, R> FormatWithRule<R::Context> for FormatRefWithRule<'_, T, R> where R: FormatRule<T> { type Item = T; fn item(&self) -> &T { self.item } }
impl<T, R> Format<R::Context> for FormatRefWithRule<'_, T, R> where R: FormatRule<T> { fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> { self.rule.fmt(self.item, f) } }
#[derive(Clone, Debug)]
pub struct FormatOwnedWithRule<T, R> where R: FormatRule<T> { item: T, rule: R }
impl<T, R> FormatOwnedWithRule<T, R> where R: FormatRule<T> { pub fn new(item: T, rule: R) -> Self { Self { item, rule } } pub fn with_item(mut self, item: T) -> Self { self.item = item; self } pub fn into_item(self) -> T { self.item } }
impl<T, R, O> FormatOwnedWithRule<T, R> where R: FormatRuleWithOptions<T, Options = O> { pub fn with_options(mut self, options: O) -> Self { loop {} } }
impl<T, R> Format<R::Context> for FormatOwnedWithRule<T, R> where R: FormatRule<T> { fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> { self.rule.fmt(&self.item, f) } }
impl<T, R> FormatWithRule<R::Context> for FormatOwnedWithRule<T, R> where R: FormatRule<T> { type Item = T; fn item(&self) -> &T { &self.item } }

pub struct Argument<'fmt, Context> { _p: PhantomData<&'fmt Context>, value: &'fmt dyn Format<Context> }
impl<C> Clone for Argument<'_, C> { fn clone(&self) -> Self { *self } }
impl<C> Copy for Argument<'_, C> {}
impl<'fmt, C> Argument<'fmt, C> { pub fn new<F: Format<C>>(value: &'fmt F) -> Self { Self { _p: PhantomData, value } } }
pub struct Arguments<'fmt, Context>(pub &'fmt [Argument<'fmt, Context>]);
impl<'fmt, C> Arguments<'fmt, C> { pub fn new(a: &'fmt [Argument<'fmt, C>]) -> Self { Self(a) } pub fn items(&self) -> &'fmt [Argument<'fmt, C>] { self.0 } }
impl<C> Clone for Arguments<'_, C> { fn clone(&self) -> Self { *self } }
impl<C> Copy for Arguments<'_, C> {}
impl<C> Format<C> for Arguments<'_, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
impl<'fmt, C> From<&'fmt Argument<'fmt, C>> for Arguments<'fmt, C> { fn from(a: &'fmt Argument<'fmt, C>) -> Self { loop {} } }

pub struct FormatState<Context> { context: Context }
impl<C> FormatState<C> { pub fn context(&self) -> &C { loop {} } pub fn group_id(&self, n: &'static str) -> GroupId { loop {} } pub fn context_mut(&mut self) -> &mut C { loop {} } pub fn into_context(self) -> C { loop {} }
    pub fn is_token_tracking_disabled(&self) -> bool { loop {} } pub fn set_token_tracking_disabled(&mut self, b: bool) { loop {} } pub fn track_token<L: Language>(&mut self, t: &SyntaxToken<L>) { loop {} } }
pub trait Buffer {
    type Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()>;
    fn elements(&self) -> &[FormatElement];
    fn write_fmt(self: &mut Self, arguments: Arguments<Self::Context>) -> FormatResult<()>;
    fn state(&self) -> &FormatState<Self::Context>;
    fn state_mut(&mut self) -> &mut FormatState<Self::Context>;
}
macro_rules! buf { ($([$($g:tt)*] $t:ty, $c:ty;)*) => { $(
impl<$($g)*> Buffer for $t {
    type Context = $c;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> { loop {} }
    fn elements(&self) -> &[FormatElement] { loop {} }
    fn write_fmt(mut self: &mut Self, arguments: Arguments<Self::Context>) -> FormatResult<()> { loop {} }
    fn state(&self) -> &FormatState<Self::Context> { loop {} }
    fn state_mut(&mut self) -> &mut FormatState<Self::Context> { loop {} }
} )* } }
buf! { ['buf, C] Formatter<'buf, C>, C; ['a, C] VecBuffer<'a, C>, C; ['a, C] RemoveSoftLinesBuffer<'a, C>, C; ['a, W: Buffer<Context = C> + ?Sized, C] &'a mut W, C; }
pub struct VecBuffer<'a, C> { _p: PhantomData<&'a mut C> }
impl<'a, C> VecBuffer<'a, C> {
    pub fn new(s: &'a mut FormatState<C>) -> Self { loop {} }
    pub fn with_capacity(c: usize, s: &'a mut FormatState<C>) -> Self { loop {} }
    pub fn into_vec(self) -> Vec<FormatElement> { loop {} }
    pub fn take_vec(&mut self) -> Vec<FormatElement> { loop {} }
}
impl<C> std::ops::Deref for VecBuffer<'_, C> { type Target = [FormatElement]; fn deref(&self) -> &[FormatElement] { loop {} } }
pub struct RemoveSoftLinesBuffer<'a, C> { _p: PhantomData<&'a mut C> }
impl<'a, C> RemoveSoftLinesBuffer<'a, C> { pub fn new(inner: &'a mut dyn Buffer<Context = C>) -> Self { loop {} } }
pub trait BufferExtensions: Buffer + Sized {
    fn inspect<'i, F>(&'i mut self, f: F) where F: FnMut(&FormatElement) { loop {} }
    fn start_recording(&mut self) -> Recording<'_, Self> { loop {} }
    fn write_elements<I: IntoIterator<Item = FormatElement>>(&mut self, e: I) -> FormatResult<()> { loop {} }
}
impl<T: Buffer> BufferExtensions for T {}
pub struct Recording<'b, B>(&'b mut B);
impl<'b, B: Buffer> Recording<'b, B> {
    pub fn write_fmt(&mut self, a: Arguments<B::Context>) -> FormatResult<()> { loop {} }
    pub fn write_element(&mut self, e: FormatElement) -> FormatResult<()> { loop {} }
    pub fn stop(self) -> Recorded<'b> { loop {} }
}
pub struct Recorded<'a>(&'a [FormatElement]);
impl Recorded<'_> { pub fn is_empty(&self) -> bool { loop {} } pub fn will_break(&self) -> bool { loop {} } }
impl std::ops::Deref for Recorded<'_> { type Target = [FormatElement]; fn deref(&self) -> &[FormatElement] { loop {} } }

pub struct Formatter<'buf, Context> { buffer: &'buf mut dyn Buffer<Context = Context> }
impl<'buf, Context> Formatter<'buf, Context> {
    pub fn new(buffer: &'buf mut (dyn Buffer<Context = Context> + 'buf)) -> Self { Self { buffer } }
    pub fn options(&self) -> &Context::Options where Context: FormatContext { loop {} }
    pub fn context(&self) -> &Context { loop {} }
    pub fn context_mut(&mut self) -> &mut Context { loop {} }
    pub fn group_id(&self, n: &'static str) -> GroupId { loop {} }
    pub fn join<'a>(&'a mut self) -> builders::JoinBuilder<'a, 'buf, (), Context> { loop {} }
    pub fn join_with<'a, J: Format<Context>>(&'a mut self, j: J) -> builders::JoinBuilder<'a, 'buf, J, Context> { loop {} }
    pub fn join_nodes_with_soft_line<'a>(&'a mut self) -> builders::JoinNodesBuilder<'a, 'buf, builders::Line_, Context> { loop {} }
    pub fn join_nodes_with_hardline<'a>(&'a mut self) -> builders::JoinNodesBuilder<'a, 'buf, builders::Line_, Context> { loop {} }
    pub fn join_nodes_with_space<'a>(&'a mut self) -> builders::JoinNodesBuilder<'a, 'buf, builders::Space, Context> { loop {} }
    pub fn fill<'a>(&'a mut self) -> builders::FillBuilder<'a, 'buf, Context> { loop {} }
    pub fn intern(&mut self, content: &dyn Format<Context>) -> FormatResult<Option<FormatElement>> { loop {} }
    pub fn into_vec(self) -> Vec<FormatElement> { loop {} }
    pub fn state_snapshot(&self) -> FormatStateSnapshot { loop {} }
    pub fn restore_state_snapshot(&mut self, s: FormatStateSnapshot) { loop {} }
    pub fn snapshot(&self) -> FormatterSnapshot { loop {} }
    pub fn restore_snapshot(&mut self, s: FormatterSnapshot) { loop {} }
}
impl<Context: CstFormatContext> Formatter<'_, Context> {
    pub fn comments(&self) -> &Comments<Context::Language> { loop {} }
}
#[derive(Clone, Copy, Eq, PartialEq, Hash, Debug)]
pub struct GroupId;
#[derive(Clone, Eq, PartialEq, Debug)]
pub enum FormatElement { Space, HardSpace, Line(LineMode), ExpandParent, StaticText { text: &'static str }, DynamicText { text: Box<str>, source_position: TextSize }, LocatedTokenText { source_position: TextSize, slice: TokenText }, LineSuffixBoundary, Interned(Interned), BestFitting(format_element::BestFittingElement), Tag(tag::Tag) }
pub mod format_element { pub use crate::{FormatElement, LineMode, Interned, tag};
    #[derive(Clone, Eq, PartialEq, Debug)]
    pub struct BestFittingElement;
    impl BestFittingElement { pub unsafe fn from_vec_unchecked(variants: Vec<Box<[FormatElement]>>) -> Self { loop {} } pub fn most_expanded(&self) -> &[FormatElement] { loop {} } pub fn most_flat(&self) -> &[FormatElement] { loop {} } }
    pub mod document {
        #[derive(Clone, Eq, PartialEq, Debug, Default)]
        pub struct Document;
        impl From<Vec<crate::FormatElement>> for Document { fn from(e: Vec<crate::FormatElement>) -> Self { loop {} } }
        impl std::ops::Deref for Document { type Target = [crate::FormatElement]; fn deref(&self) -> &[crate::FormatElement] { loop {} } }
        impl std::fmt::Display for Document { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
        impl Document { pub fn propagate_expand(&mut self) { loop {} } }
    } }
pub mod tag { #[derive(Debug, Clone, PartialEq, Eq)] pub enum Tag { StartIndent, EndIndent, StartAlign(u8), EndAlign, StartDedent(DedentMode), EndDedent(DedentMode), StartGroup, EndGroup, StartConditionalContent, EndConditionalContent, StartIndentIfGroupBreaks, EndIndentIfGroupBreaks, StartFill, EndFill, StartEntry, EndEntry, StartLineSuffix, EndLineSuffix, StartVerbatim, EndVerbatim, StartLabelled, EndLabelled }
    #[derive(Debug, Clone, PartialEq, Eq)] pub enum DedentMode { Level, Root } }
pub struct FormatterSnapshot;
pub struct FormatStateSnapshot;
#[derive(Clone, Copy, Eq, PartialEq, Debug)]
pub enum LineMode { SoftOrSpace, Soft, Hard, Empty }
#[derive(Clone, Eq, PartialEq, Debug)]
pub struct Interned;
impl FormatElement { pub fn will_break(&self) -> bool { loop {} } pub fn is_space(&self) -> bool { loop {} } pub fn has_label(&self, l: u8) -> bool { loop {} } }
pub trait FormatElements { fn will_break(&self) -> bool; }
impl FormatElements for FormatElement { fn will_break(&self) -> bool { loop {} } }
impl FormatElements for [FormatElement] { fn will_break(&self) -> bool { loop {} } }
pub use builders::Line_ as Line;

pub trait MemoizeFormat<C> { fn memoized(self) -> Memoized<Self, C> where Self: Sized + Format<C>; }
impl<T: Format<C>, C> MemoizeFormat<C> for T { fn memoized(self) -> Memoized<Self, C> { loop {} } }
pub struct Memoized<F, C> { _p: PhantomData<(F, C)> }
impl<F: Format<C>, C> Memoized<F, C> { pub fn new(inner: F) -> Self { loop {} } pub fn inspect(&mut self, f: &mut Formatter<C>) -> FormatResult<&[FormatElement]> { loop {} } }
impl<F: Format<C>, C> Format<C> for Memoized<F, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }

#[derive(Debug, Clone)]
pub struct Formatted<Context> { context: Context }
impl<Context: FormatContext> Formatted<Context> {
    pub fn new(document: format_element::document::Document, context: Context) -> Self { loop {} }
    pub fn context(&self) -> &Context { loop {} }
    pub fn document(&self) -> &format_element::document::Document { loop {} }
    pub fn into_document(self) -> format_element::document::Document { loop {} }
    pub fn print(&self) -> PrintResult<Printed> { loop {} }
    pub fn print_with_indent(&self, i: u16) -> PrintResult<Printed> { loop {} }
}
#[derive(Debug, Clone, Eq, PartialEq, Default)]
pub struct Printed { code: String, range: Option<TextRange> }
impl Printed {
    pub fn new(code: String, range: Option<TextRange>, sm: Vec<u8>, v: Vec<TextRange>) -> Self { loop {} }
    pub fn new_empty() -> Self { loop {} }
    pub fn range(&self) -> Option<TextRange> { loop {} }
    pub fn as_code(&self) -> &str { loop {} }
    pub fn into_code(self) -> String { loop {} }
    pub fn sourcemap(&self) -> &[u8] { loop {} }
    pub fn verbatim_ranges(&self) -> &[TextRange] { loop {} }
}
pub trait FormatLanguage {
    type SyntaxLanguage: Language;
    type Context: CstFormatContext<Language = Self::SyntaxLanguage>;
    type FormatRule: FormatRule<SyntaxNode<Self::SyntaxLanguage>, Context = Self::Context> + Default;
    fn transform(&self, root: &SyntaxNode<Self::SyntaxLanguage>) -> Option<(SyntaxNode<Self::SyntaxLanguage>, TransformSourceMap)> { loop {} }
    fn is_range_formatting_node(&self, node: &SyntaxNode<Self::SyntaxLanguage>) -> bool { loop {} }
    fn options(&self) -> &<Self::Context as FormatContext>::Options;
    fn create_context(self, root: &SyntaxNode<Self::SyntaxLanguage>, source_map: Option<TransformSourceMap>) -> Self::Context;
}
pub fn format_node<L: FormatLanguage>(root: &SyntaxNode<L::SyntaxLanguage>, language: L) -> FormatResult<Formatted<L::Context>> { loop {} }
pub fn format_range<L: FormatLanguage>(root: &SyntaxNode<L::SyntaxLanguage>, range: TextRange, language: L) -> FormatResult<Printed> { loop {} }
pub fn format_sub_tree<L: FormatLanguage>(root: &SyntaxNode<L::SyntaxLanguage>, language: L) -> FormatResult<Printed> { loop {} }

#[derive(Debug)]
pub struct FormatToken<C> { context: PhantomData<C> }
impl<C> Default for FormatToken<C> { fn default() -> Self { FormatToken { context: PhantomData } } }
impl<C: CstFormatContext> FormatRule<SyntaxToken<C::Language>> for FormatToken<C> { type Context = C; fn fmt(&self, t: &SyntaxToken<C::Language>, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
pub use verbatim::*;
pub mod verbatim {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct FormatVerbatimNode<'node, L: Language> { node: &'node SyntaxNode<L> }
    impl<C: CstFormatContext> Format<C> for FormatVerbatimNode<'_, C::Language> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    impl<L: Language> FormatVerbatimNode<'_, L> { pub fn skip_comments(self) -> Self { loop {} } }
    pub fn format_verbatim_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<L> { loop {} }
    pub fn format_bogus_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<L> { loop {} }
    pub fn format_suppressed_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<L> { loop {} }
    pub struct FormatNodeOrVerbatim<F> { node: F }
    impl<F, C> Format<C> for FormatNodeOrVerbatim<F> where F: FormatWithRule<C>, C: CstFormatContext { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    pub fn format_or_verbatim<F>(node: F) -> FormatNodeOrVerbatim<F> { FormatNodeOrVerbatim { node } }
    pub fn format_verbatim_skipped<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<L> { loop {} }
}
pub mod trivia {
    use super::*;
    macro_rules! fmt_node { ($($n:ident $f:ident),*) => { $(
        #[derive(Debug, Clone)]
        pub struct $n<'a, L: Language> { node: &'a SyntaxNode<L> }
        impl<C: CstFormatContext> Format<C> for $n<'_, C::Language> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
        pub const fn $f<L: Language>(node: &SyntaxNode<L>) -> $n<'_, L> { $n { node } }
    )* } }
    fmt_node!(FormatLeadingComments format_leading_comments, FormatTrailingComments format_trailing_comments, FormatDanglingComments format_dangling_comments);
    impl<'a, L: Language> FormatDanglingComments<'a, L> {
        pub fn with_block_indent(self) -> Self { loop {} }
        pub fn with_soft_block_indent(self) -> Self { loop {} }
        pub fn with_indent(self, i: DanglingIndentMode) -> Self { loop {} }
    }
    impl<'a, L: Language> FormatTrailingComments<'a, L> { }
    #[derive(Debug, Clone, Copy)]
    pub enum DanglingIndentMode { Block, SoftBlock, None }
    macro_rules! tok { ($($n:ident [$($g:tt)*] $c:ident ),*) => { } }
    pub struct FormatRemoved<'a, C: CstFormatContext> { token: &'a SyntaxToken<C::Language> }
    pub fn format_removed<C: CstFormatContext>(token: &SyntaxToken<C::Language>) -> FormatRemoved<'_, C> { FormatRemoved { token } }
    impl<C: CstFormatContext> Format<C> for FormatRemoved<'_, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    pub struct FormatReplaced<'a, C: CstFormatContext> { token: &'a SyntaxToken<C::Language>, content: &'a dyn Format<C> }
    pub fn format_replaced<'a, 'content: 'a, C: CstFormatContext>(token: &'a SyntaxToken<C::Language>, content: &'content impl Format<C>) -> FormatReplaced<'a, C> { FormatReplaced { token, content } }
    impl<C: CstFormatContext> Format<C> for FormatReplaced<'_, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    pub struct FormatOnlyIfBreaks<'a, C: CstFormatContext> { token: &'a SyntaxToken<C::Language>, content: &'a dyn Format<C> }
    pub fn format_only_if_breaks<'a, 'content: 'a, C: CstFormatContext>(token: &'a SyntaxToken<C::Language>, content: &'content impl Format<C>) -> FormatOnlyIfBreaks<'a, C> { FormatOnlyIfBreaks { token, content } }
    impl<C: CstFormatContext> Format<C> for FormatOnlyIfBreaks<'_, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    pub struct FormatTrimmedToken<'a, L: Language> { token: &'a SyntaxToken<L> }
    pub fn format_trimmed_token<L: Language>(token: &SyntaxToken<L>) -> FormatTrimmedToken<'_, L> { FormatTrimmedToken { token } }
    impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatTrimmedToken<'_, L> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    pub struct FormatSkippedTokenTrivia<'a, L: Language> { token: &'a SyntaxToken<L> }
    pub fn format_skipped_token_trivia<L: Language>(token: &SyntaxToken<L>) -> FormatSkippedTokenTrivia<'_, L> { FormatSkippedTokenTrivia { token } }
    impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatSkippedTokenTrivia<'_, L> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
}
pub mod separated {
    use super::*;
    pub trait FormatSeparatedElementRule<N: AstNode> {
        type Context;
        type FormatNode<'a>: Format<Self::Context> where N: 'a;
        type FormatSeparator<'a>: Format<Self::Context> where N: 'a;
        fn format_node<'a>(&self, node: &'a N) -> Self::FormatNode<'a>;
        fn format_separator<'a>(&self, separator: &'a SyntaxToken<N::Language>) -> Self::FormatSeparator<'a>;
    }
    #[derive(Debug, Copy, Clone, Eq, PartialEq, Default)]
    pub enum TrailingSeparator { #[default] Allowed, Disallowed, Mandatory, Omit, Elide }
    #[derive(Debug, Default, Copy, Clone)]
    pub struct FormatSeparatedOptions;
    pub struct FormatSeparatedIter<I, N, R> { _p: PhantomData<(I, N, R)> }
    impl<I, N, R> FormatSeparatedIter<I, N, R> {
        pub fn new(inner: I, separator: &'static str, rule: R) -> Self { loop {} }
        pub fn with_trailing_separator(mut self, s: TrailingSeparator) -> Self { loop {} }
        pub fn nodes_grouped(mut self) -> Self { loop {} }
        pub fn with_group_id(mut self, g: Option<GroupId>) -> Self { loop {} }
    }
    pub struct FormatSeparatedElement<N: AstNode, R> { _p: PhantomData<(N, R)> }
    impl<N: AstNode, R: FormatSeparatedElementRule<N>> FormatSeparatedElement<N, R> { pub fn node(&self) -> SyntaxResult<&N> { loop {} } }
    impl<N: AstNode, R: FormatSeparatedElementRule<N, Context = C>, C> Format<C> for FormatSeparatedElement<N, R> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    impl<I, N: AstNode, R: FormatSeparatedElementRule<N> + Clone> Iterator for FormatSeparatedIter<I, N, R> where I: Iterator<Item = AstSeparatedElement<N::Language, N>> { type Item = FormatSeparatedElement<N, R>; fn next(&mut self) -> Option<Self::Item> { loop {} } }
    impl<I, N: AstNode, R: FormatSeparatedElementRule<N> + Clone> std::iter::FusedIterator for FormatSeparatedIter<I, N, R> where I: Iterator<Item = AstSeparatedElement<N::Language, N>> {}
    impl<I, N: AstNode, R: FormatSeparatedElementRule<N> + Clone> ExactSizeIterator for FormatSeparatedIter<I, N, R> where I: Iterator<Item = AstSeparatedElement<N::Language, N>> + ExactSizeIterator {}
    impl<I, N: AstNode, R: FormatSeparatedElementRule<N> + Clone> DoubleEndedIterator for FormatSeparatedIter<I, N, R> where I: DoubleEndedIterator<Item = AstSeparatedElement<N::Language, N>> { fn next_back(&mut self) -> Option<Self::Item> { loop {} } }
}
pub mod comments {
    use super::*;
    #[derive(Debug, Copy, Clone, Eq, PartialEq)]
    pub enum CommentKind { InlineBlock, Block, Line }
    impl CommentKind { pub const fn is_line(&self) -> bool { loop {} } pub const fn is_block(&self) -> bool { loop {} } pub const fn is_inline_block(&self) -> bool { loop {} } pub const fn is_inline(&self) -> bool { loop {} } }
    #[derive(Debug, Clone)]
    pub struct SourceComment<L: Language> { _p: PhantomData<L> }
    impl<L: Language> SourceComment<L> {
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { loop {} }
        pub fn lines_before(&self) -> u32 { loop {} }
        pub fn lines_after(&self) -> u32 { loop {} }
        pub fn kind(&self) -> CommentKind { loop {} }
        pub fn is_formatted(&self) -> bool { loop {} }
        pub fn mark_formatted(&self) { loop {} }
    }
    #[derive(Debug, Clone)]
    pub struct DecoratedComment<L: Language> { _p: PhantomData<L> }
    impl<L: Language> DecoratedComment<L> {
        pub fn enclosing_node(&self) -> &SyntaxNode<L> { loop {} }
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { loop {} }
        pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> { loop {} }
        pub fn following_node(&self) -> Option<&SyntaxNode<L>> { loop {} }
        pub fn following_token(&self) -> Option<&SyntaxToken<L>> { loop {} }
        pub fn lines_before(&self) -> u32 { loop {} }
        pub fn lines_after(&self) -> u32 { loop {} }
        pub fn kind(&self) -> CommentKind { loop {} }
        pub fn text_position(&self) -> CommentTextPosition { loop {} }
        pub fn take_preceding_node(&mut self) -> Option<SyntaxNode<L>> { loop {} }
    }
    #[derive(Debug, Copy, Clone, Eq, PartialEq)]
    pub enum CommentTextPosition { EndOfLine, OwnLine, SameLine }
    impl CommentTextPosition { pub const fn is_end_of_line(&self) -> bool { loop {} } pub const fn is_own_line(&self) -> bool { loop {} } pub const fn is_same_line(&self) -> bool { loop {} } }
    #[derive(Debug)]
    pub enum CommentPlacement<L: Language> {
        Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
        Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
        Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
        Default(DecoratedComment<L>),
    }
    impl<L: Language> CommentPlacement<L> {
        pub fn leading(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self { CommentPlacement::Leading { node, comment: comment.into() } }
        pub fn trailing(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self { CommentPlacement::Trailing { node, comment: comment.into() } }
        pub fn dangling(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self { CommentPlacement::Dangling { node, comment: comment.into() } }
        pub fn or_else<F: FnOnce(DecoratedComment<L>) -> CommentPlacement<L>>(self, f: F) -> Self { match self { CommentPlacement::Default(c) => f(c), p => p } }
        pub const fn is_default(&self) -> bool { loop {} }
    }
    impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> { fn from(c: DecoratedComment<L>) -> Self { loop {} } }
    pub trait CommentStyle: Default {
        type Language: Language;
        fn is_suppression(text: &str) -> bool { false }
        fn is_global_suppression(text: &str) -> bool { false }
        fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
        fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> { CommentPlacement::Default(comment) }
    }
    #[derive(Debug, Clone, Default)]
    pub struct Comments<L: Language> { _p: PhantomData<L> }
    impl<L: Language> Comments<L> {
        pub fn from_node<Style: CommentStyle<Language = L>>(root: &SyntaxNode<L>, style: &Style, sm: Option<&TransformSourceMap>) -> Self { loop {} }
        pub fn has_comments(&self, node: &SyntaxNode<L>) -> bool { loop {} }
        pub fn has_leading_comments(&self, node: &SyntaxNode<L>) -> bool { loop {} }
        pub fn has_leading_own_line_comment(&self, node: &SyntaxNode<L>) -> bool { loop {} }
        pub fn has_dangling_comments(&self, node: &SyntaxNode<L>) -> bool { loop {} }
        pub fn has_trailing_comments(&self, node: &SyntaxNode<L>) -> bool { loop {} }
        pub fn has_trailing_line_comment(&self, node: &SyntaxNode<L>) -> bool { loop {} }
        pub fn has_leading_line_comment(&self, node: &SyntaxNode<L>) -> bool { loop {} }
        pub fn leading_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] { loop {} }
        pub fn dangling_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] { loop {} }
        pub fn trailing_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] { loop {} }
        pub fn leading_trailing_comments(&self, node: &SyntaxNode<L>) -> std::vec::IntoIter<&SourceComment<L>> { loop {} }
        pub fn leading_dangling_trailing_comments<'a>(&'a self, node: &'a SyntaxNode<L>) -> std::vec::IntoIter<&'a SourceComment<L>> { loop {} }
        pub fn has_skipped(&self, t: &SyntaxToken<L>) -> bool { loop {} }
        pub fn is_suppressed(&self, node: &SyntaxNode<L>) -> bool { loop {} }
        pub fn is_global_suppressed(&self, node: &SyntaxNode<L>) -> bool { loop {} }
        pub fn mark_suppression_checked(&self, node: &SyntaxNode<L>) { loop {} }
    }
    #[derive(Debug, Default)]
    pub struct FormatPlainComment<C> { _p: PhantomData<C> }
}
pub mod builders {
    use super::*;
    macro_rules! simple { ($($n:ident),* $(,)?) => { $(
        #[derive(Debug, Copy, Clone, Eq, PartialEq, Default)]
        pub struct $n;
        impl<C> Format<C> for $n { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    )* } }
    simple!(Line_, Space, HardSpace, StaticText, ExpandParent, LineSuffixBoundary, PossibleSpace);
    pub const fn soft_line_break() -> Line_ { Line_ }
    pub const fn hard_line_break() -> Line_ { Line_ }
    pub const fn empty_line() -> Line_ { Line_ }
    pub const fn soft_line_break_or_space() -> Line_ { Line_ }
    pub const fn soft_line_break_or_hard_space() -> Line_ { Line_ }
    pub const fn text(t: &'static str) -> StaticText { StaticText }
    pub const fn token(t: &'static str) -> StaticText { StaticText }
    pub const fn space() -> Space { Space }
    pub const fn hard_space() -> HardSpace { HardSpace }
    pub const fn maybe_space(b: bool) -> Option<Space> { None }
    pub const fn expand_parent() -> ExpandParent { ExpandParent }
    pub const fn line_suffix_boundary() -> LineSuffixBoundary { LineSuffixBoundary }
    #[derive(Debug, Copy, Clone)]
    pub struct DynamicText<'a> { text: &'a str, position: TextSize }
    pub fn dynamic_text(text: &str, position: TextSize) -> DynamicText<'_> { DynamicText { text, position } }
    pub fn dynamic_token(text: &str, position: TextSize) -> DynamicText<'_> { DynamicText { text, position } }
    impl<C> Format<C> for DynamicText<'_> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    pub struct SyntaxTokenCowSlice<'a, L: Language> { text: Cow<'a, str>, token: &'a SyntaxToken<L>, start: TextSize }
    pub fn syntax_token_cow_slice<'a, L: Language>(text: Cow<'a, str>, token: &'a SyntaxToken<L>, start: TextSize) -> SyntaxTokenCowSlice<'a, L> { SyntaxTokenCowSlice { text, token, start } }
    impl<L: Language, C> Format<C> for SyntaxTokenCowSlice<'_, L> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    #[derive(PartialEq, Eq, Clone)]
    pub struct LocatedTokenText { text: TokenText, source_position: TextSize }
    pub fn located_token_text<L: Language>(token: &SyntaxToken<L>, range: TextRange) -> LocatedTokenText { loop {} }
    impl<C> Format<C> for LocatedTokenText { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }

    macro_rules! wrap { ($($n:ident $($f:ident),+;)*) => { $(
        #[derive(Copy, Clone)]
        pub struct $n<'a, Context> { content: Argument<'a, Context> }
        impl<C> Format<C> for $n<'_, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
        $( pub fn $f<Context>(content: &impl Format<Context>) -> $n<'_, Context> { $n { content: Argument::new(content) } } )+
    )* } }
    wrap!(Group group; Indent indent; Dedent dedent; DedentToRoot dedent_to_root; BlockIndent block_indent, soft_block_indent, soft_line_indent_or_space, soft_line_indent_or_hard_space, soft_block_indent_with_maybe_space, soft_space_or_block_indent; LineSuffix line_suffix; ConditionalGroup conditional_group; FormatLabelled labelled_;);
    pub struct IfGroupBreaks<'a, Context> { content: Argument<'a, Context> }
    impl<C> Clone for IfGroupBreaks<'_, C> { fn clone(&self) -> Self { loop {} } }
    impl<C> Format<C> for IfGroupBreaks<'_, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    pub fn if_group_breaks<Context>(content: &impl Format<Context>) -> IfGroupBreaks<'_, Context> { IfGroupBreaks { content: Argument::new(content) } }
    pub fn if_group_fits_on_line<Context>(content: &impl Format<Context>) -> IfGroupBreaks<'_, Context> { IfGroupBreaks { content: Argument::new(content) } }
    impl<'a, C> IfGroupBreaks<'a, C> { pub fn with_group_id(mut self, g: Option<GroupId>) -> Self { loop {} } }
    pub fn indent_if_group_breaks<Context>(content: &impl Format<Context>, g: GroupId) -> IfGroupBreaks<'_, Context> { IfGroupBreaks { content: Argument::new(content) } }
    pub fn align<Context>(count: u8, content: &impl Format<Context>) -> Indent<'_, Context> { Indent { content: Argument::new(content) } }
    pub fn labelled<L, Context>(label: L, content: &impl Format<Context>) -> FormatLabelled<'_, Context> { FormatLabelled { content: Argument::new(content) } }
    impl<'a, C> Group<'a, C> {
        pub fn with_group_id(mut self, g: Option<GroupId>) -> Self { loop {} }
        pub fn should_expand(mut self, b: bool) -> Self { loop {} }
    }
    pub struct FormatWith<Context, T> { formatter: T, context: PhantomData<Context> }
    impl<C, T: Copy> Copy for FormatWith<C, T> {}
    impl<C, T: Clone> Clone for FormatWith<C, T> { fn clone(&self) -> Self { loop {} } }
    impl<C, T: Fn(&mut Formatter<C>) -> FormatResult<()>> Format<C> for FormatWith<C, T> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { (self.formatter)(f) } }
    pub const fn format_with<Context, T: Fn(&mut Formatter<Context>) -> FormatResult<()>>(formatter: T) -> FormatWith<Context, T> { FormatWith { formatter, context: PhantomData } }
    pub struct FormatOnce<T, Context> { formatter: T, context: PhantomData<Context> }
    impl<T: FnOnce(&mut Formatter<C>) -> FormatResult<()>, C> Format<C> for FormatOnce<T, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
    pub const fn format_once<T: FnOnce(&mut Formatter<C>) -> FormatResult<()>, C>(formatter: T) -> FormatOnce<T, C> { FormatOnce { formatter, context: PhantomData } }
    #[must_use]
    pub struct JoinBuilder<'fmt, 'buf, Separator, Context> { _p: PhantomData<(&'fmt mut Formatter<'buf, Context>, Separator)> }
    impl<'fmt, 'buf, S: Format<C>, C> JoinBuilder<'fmt, 'buf, S, C> {
        pub fn entry(&mut self, e: &dyn Format<C>) -> &mut Self { loop {} }
        pub fn entries<F: Format<C>, I: IntoIterator<Item = F>>(&mut self, e: I) -> &mut Self { loop {} }
        pub fn finish(&mut self) -> FormatResult<()> { loop {} }
    }
    #[must_use]
    pub struct JoinNodesBuilder<'fmt, 'buf, Separator, Context> { _p: PhantomData<(&'fmt mut Formatter<'buf, Context>, Separator)> }
    impl<'fmt, 'buf, S: Format<C>, C> JoinNodesBuilder<'fmt, 'buf, S, C> {
        pub fn entry<L: Language>(&mut self, node: &SyntaxNode<L>, e: &dyn Format<C>) { loop {} }
        pub fn entry_no_separator(&mut self, e: &dyn Format<C>) { loop {} }
        pub fn entries<L: Language, F: Format<C>, I: IntoIterator<Item = (SyntaxNode<L>, F)>>(&mut self, e: I) -> &mut Self { loop {} }
        pub fn finish(&mut self) -> FormatResult<()> { loop {} }
    }
    pub fn get_lines_before<L: Language>(node: &SyntaxNode<L>) -> usize { loop {} }
    pub fn get_lines_before_token<L: Language>(node: &SyntaxToken<L>) -> usize { loop {} }
    #[must_use]
    pub struct FillBuilder<'fmt, 'buf, Context> { _p: PhantomData<&'fmt mut Formatter<'buf, Context>> }
    impl<'fmt, 'buf, C> FillBuilder<'fmt, 'buf, C> {
        pub fn entry(&mut self, s: &dyn Format<C>, e: &dyn Format<C>) -> &mut Self { loop {} }
        pub fn entries<F: Format<C>, I: IntoIterator<Item = F>>(&mut self, s: &dyn Format<C>, e: I) -> &mut Self { loop {} }
        pub fn finish(&mut self) -> FormatResult<()> { loop {} }
    }
    pub struct BestFitting<'a, Context> { variants: Arguments<'a, Context> }
    impl<'a, C> BestFitting<'a, C> { pub unsafe fn from_arguments_unchecked(variants: Arguments<'a, C>) -> Self { Self { variants } } }
    impl<C> Format<C> for BestFitting<'_, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
}
#[macro_export]
macro_rules! format_args { ($($value:expr),+ $(,)?) => { $crate::Arguments::new(&[ $( $crate::Argument::new(&$value) ),+ ]) } }
#[macro_export]
macro_rules! write { ($dst:expr, [$($arg:expr),+ $(,)?]) => {{ let result = $dst.write_fmt($crate::format_args!($($arg),+)); result }} }
#[macro_export]
macro_rules! dbg_write { ($dst:expr, [$($arg:expr),+ $(,)?]) => {{ let result = $dst.write_fmt($crate::format_args!($($arg),+)); result }} }
#[macro_export]
macro_rules! best_fitting { ($least:expr, $($tail:expr),+ $(,)?) => {{ unsafe { $crate::BestFitting::from_arguments_unchecked($crate::format_args!($least, $($tail),+)) } }} }

impl<L: Language, C> Format<C> for SyntaxTriviaPiece<L> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
impl<L: Language, C> Format<C> for SyntaxTriviaPieceComments<L> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { loop {} } }
