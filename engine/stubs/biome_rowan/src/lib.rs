//! Signature-only stand-in for the git dependency that is not available offline.
#![allow(unused_variables, dead_code)]
use std::borrow::Cow;
use std::fmt::Debug;
use std::hash::Hash;
use std::iter::FusedIterator;
use std::marker::PhantomData;
use std::ops::{Range, RangeBounds};

pub use biome_text_size::{TextLen, TextRange, TextSize};

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RawSyntaxKind(pub u16);

pub trait SyntaxKind: Debug + PartialEq + Copy {
    const TOMBSTONE: Self;
    const EOF: Self;
    fn is_bogus(&self) -> bool;
    fn to_bogus(&self) -> Self;
    fn to_raw(&self) -> RawSyntaxKind;
    fn from_raw(raw: RawSyntaxKind) -> Self;
    fn is_root(&self) -> bool;
    fn is_list(&self) -> bool;
    fn is_trivia(self) -> bool;
    fn to_string(&self) -> Option<&'static str>;
}
pub trait Language: Sized + Clone + Copy + Debug + Eq + Ord + Hash {
    type Kind: SyntaxKind + Eq + Hash + Copy + Debug;
    type Root: AstNode<Language = Self> + Clone + Eq + Debug;
}

#[derive(Debug, Eq, PartialEq, Copy, Clone, Hash, PartialOrd, Ord)]
pub enum TriviaPieceKind { Newline, Whitespace, SingleLineComment, MultiLineComment, Skipped }
impl TriviaPieceKind {
    pub const fn is_newline(&self) -> bool { loop {} }
    pub const fn is_whitespace(&self) -> bool { loop {} }
    pub const fn is_single_line_comment(&self) -> bool { loop {} }
    pub const fn is_multiline_comment(&self) -> bool { loop {} }
    pub const fn is_comment(&self) -> bool { loop {} }
    pub const fn is_skipped(&self) -> bool { loop {} }
}
#[derive(Debug, Eq, PartialEq, Copy, Clone)]
pub struct TriviaPiece { pub kind: TriviaPieceKind, pub length: TextSize }
impl TriviaPiece {
    pub fn new<L: Into<TextSize>>(kind: TriviaPieceKind, length: L) -> Self { loop {} }
    pub fn whitespace<L: Into<TextSize>>(len: L) -> Self { loop {} }
    pub fn newline<L: Into<TextSize>>(len: L) -> Self { loop {} }
    pub fn single_line_comment<L: Into<TextSize>>(len: L) -> Self { loop {} }
    pub fn kind(&self) -> TriviaPieceKind { loop {} }
    pub fn text_len(&self) -> TextSize { loop {} }
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub enum Direction { Next, Prev }
#[derive(Debug, Copy, Clone)]
pub enum WalkEvent<T> { Enter(T), Leave(T) }
impl<T> WalkEvent<T> { pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> WalkEvent<U> { loop {} } }
#[derive(Clone, Debug)]
pub enum TokenAtOffset<T> { None, Single(T), Between(T, T) }
impl<T> TokenAtOffset<T> {
    pub fn map<F: Fn(T) -> U, U>(self, f: F) -> TokenAtOffset<U> { loop {} }
    pub fn right_biased(self) -> Option<T> { loop {} }
    pub fn left_biased(self) -> Option<T> { loop {} }
}
impl<T> Iterator for TokenAtOffset<T> { type Item = T; fn next(&mut self) -> Option<T> { loop {} } }

macro_rules! node_ty { ($($n:ident),*) => { $(
    #[derive(Clone, PartialEq, Eq, Hash, Debug)]
    pub struct $n<L: Language> { _l: PhantomData<L> }
)* } }
node_ty!(SyntaxNode, SyntaxToken, SyntaxList, SyntaxTriviaPiece, SyntaxTriviaPieceNewline,
    SyntaxTriviaPieceWhitespace, SyntaxTriviaPieceComments, SyntaxTriviaPieceSkipped, SyntaxTrivia);

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum NodeOrToken<N, T> { Node(N), Token(T) }
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> { loop {} }
    pub fn into_token(self) -> Option<T> { loop {} }
    pub fn as_node(&self) -> Option<&N> { loop {} }
    pub fn as_token(&self) -> Option<&T> { loop {} }
}
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;
impl<L: Language> NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    pub fn leading_trivia(&self) -> Option<SyntaxTrivia<L>> { loop {} }
    pub fn trailing_trivia(&self) -> Option<SyntaxTrivia<L>> { loop {} }
    pub fn text_range(&self) -> TextRange { loop {} }
    pub fn text_trimmed_range(&self) -> TextRange { loop {} }
    pub fn kind(&self) -> L::Kind { loop {} }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { loop {} }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::empty() }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { loop {} }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { loop {} }
    pub fn index(&self) -> usize { loop {} }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> { fn from(n: SyntaxNode<L>) -> Self { NodeOrToken::Node(n) } }
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> { fn from(n: SyntaxToken<L>) -> Self { NodeOrToken::Token(n) } }

macro_rules! iters { ($($n:ident => $i:ty),* $(,)?) => { $(
    #[derive(Clone, Debug)]
    pub struct $n<L: Language> { _l: PhantomData<L> }
    impl<L: Language> Iterator for $n<L> { type Item = $i; fn next(&mut self) -> Option<$i> { loop {} } }
    impl<L: Language> ExactSizeIterator for $n<L> {}
    impl<L: Language> DoubleEndedIterator for $n<L> { fn next_back(&mut self) -> Option<$i> { loop {} } }
    impl<L: Language> FusedIterator for $n<L> {}
)* } }
iters!(
    SyntaxNodeChildren => SyntaxNode<L>,
    SyntaxElementChildren => SyntaxElement<L>,
    SyntaxSlots => SyntaxSlot<L>,
    SyntaxTriviaPiecesIterator => SyntaxTriviaPiece<L>,
    Preorder => WalkEvent<SyntaxNode<L>>,
    PreorderWithTokens => WalkEvent<SyntaxElement<L>>,
    SyntaxListIterator => SyntaxSlot<L>,
);
#[derive(Debug, Clone, Eq, PartialEq)]
pub enum SyntaxSlot<L: Language> { Node(SyntaxNode<L>), Token(SyntaxToken<L>), Empty { index: u32 } }
impl<L: Language> SyntaxSlot<L> {
    pub fn into_node(self) -> Option<SyntaxNode<L>> { loop {} }
    pub fn into_token(self) -> Option<SyntaxToken<L>> { loop {} }
    pub fn into_syntax_element(self) -> Option<SyntaxElement<L>> { loop {} }
    pub fn as_node(&self) -> Option<&SyntaxNode<L>> { loop {} }
    pub fn as_token(&self) -> Option<&SyntaxToken<L>> { loop {} }
    pub fn kind(&self) -> Option<L::Kind> { loop {} }
    pub fn is_node(&self) -> bool { loop {} }
    pub fn is_token(&self) -> bool { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct TokenText;
impl TokenText {
    pub fn text(&self) -> &str { loop {} }
    pub fn slice(self, range: TextRange) -> TokenText { loop {} }
    pub fn len(&self) -> TextSize { loop {} }
}
impl std::ops::Deref for TokenText { type Target = str; fn deref(&self) -> &str { loop {} } }
impl AsRef<str> for TokenText { fn as_ref(&self) -> &str { loop {} } }
impl PartialEq<str> for TokenText { fn eq(&self, o: &str) -> bool { loop {} } }
impl PartialEq<&str> for TokenText { fn eq(&self, o: &&str) -> bool { loop {} } }
impl std::fmt::Display for TokenText { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SyntaxNodeText;
impl SyntaxNodeText {
    pub fn len(&self) -> TextSize { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
    pub fn contains_char(&self, c: char) -> bool { loop {} }
    pub fn slice<R>(&self, r: R) -> SyntaxNodeText { loop {} }
    pub fn char_at(&self, o: TextSize) -> Option<char> { loop {} }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, f: F) { loop {} }
    pub fn chars(&self) -> impl Iterator<Item = char> { std::iter::empty() }
}
impl PartialEq<str> for SyntaxNodeText { fn eq(&self, o: &str) -> bool { loop {} } }
impl PartialEq<&str> for SyntaxNodeText { fn eq(&self, o: &&str) -> bool { loop {} } }
impl std::fmt::Display for SyntaxNodeText { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }

impl<L: Language> std::fmt::Display for SyntaxNode<L> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl<L: Language> std::fmt::Display for SyntaxToken<L> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl From<SyntaxNodeText> for String { fn from(t: SyntaxNodeText) -> String { loop {} } }
impl<L: Language> SyntaxNode<L> {
    pub fn has_leading_newline(&self) -> bool { loop {} }
    pub fn new_detached<I>(kind: L::Kind, slots: I) -> SyntaxNode<L> where I: IntoIterator<Item = Option<SyntaxElement<L>>>, I::IntoIter: ExactSizeIterator { loop {} }
    pub fn green_token(&self) {}
    pub fn key(&self) -> SyntaxNodeKey { loop {} }
    pub fn element_in_slot(&self, slot: u32) -> SyntaxSlot<L> { loop {} }
    pub fn kind(&self) -> L::Kind { loop {} }
    pub fn text(&self) -> SyntaxNodeText { loop {} }
    pub fn text_trimmed(&self) -> SyntaxNodeText { loop {} }
    pub fn text_with_trivia(&self) -> SyntaxNodeText { loop {} }
    pub fn text_range(&self) -> TextRange { loop {} }
    pub fn text_range_with_trivia(&self) -> TextRange { loop {} }
    pub fn text_trimmed_range(&self) -> TextRange { loop {} }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> { loop {} }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> { loop {} }
    pub fn first_or_last_token(&self, d: Direction) -> Option<SyntaxToken<L>> { loop {} }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { loop {} }
    pub fn grand_parent(&self) -> Option<SyntaxNode<L>> { loop {} }
    pub fn index(&self) -> usize { loop {} }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::empty() }
    pub fn ancestors_tokens(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::empty() }
    pub fn children(&self) -> SyntaxNodeChildren<L> { loop {} }
    pub fn slots(&self) -> SyntaxSlots<L> { loop {} }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> { loop {} }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> { loop {} }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> { loop {} }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> { loop {} }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> { loop {} }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> { loop {} }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> { loop {} }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { loop {} }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { loop {} }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> { loop {} }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> { loop {} }
    pub fn siblings(&self, d: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::empty() }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> { std::iter::empty() }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::empty() }
    pub fn descendants_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> { std::iter::empty() }
    pub fn descendants_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxToken<L>> + use<L> { std::iter::empty() }
    // preorder
    pub fn preorder(&self) -> Preorder<L> { loop {} }
    pub fn preorder_with_tokens(&self, d: Direction) -> PreorderWithTokens<L> { loop {} }
    pub fn token_at_offset(&self, o: TextSize) -> TokenAtOffset<SyntaxToken<L>> { loop {} }
    pub fn covering_element(&self, r: TextRange) -> SyntaxElement<L> { loop {} }
    pub fn child_or_token_at_range(&self, r: TextRange) -> Option<SyntaxElement<L>> { loop {} }
    pub fn clone_subtree(&self) -> SyntaxNode<L> { loop {} }
    #[must_use]
    pub fn detach(self) -> Self { loop {} }
    #[must_use]
    pub fn splice_slots<R, I>(self, range: R, replace_with: I) -> Self where R: RangeBounds<usize>, I: IntoIterator<Item = Option<SyntaxElement<L>>> { loop {} }
    pub fn replace_child(self, prev: SyntaxElement<L>, next: SyntaxElement<L>) -> Option<Self> { loop {} }
    pub fn into_list(self) -> SyntaxList<L> { loop {} }
    pub fn has_comments_descendants(&self) -> bool { loop {} }
    pub fn has_comments_direct(&self) -> bool { loop {} }
    pub fn first_token_has_comments(&self) -> bool { loop {} }
    pub fn last_token_has_comments(&self) -> bool { loop {} }
    pub fn has_trailing_comments(&self) -> bool { loop {} }
    pub fn has_leading_comments(&self) -> bool { loop {} }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool { loop {} }
    pub fn is_list(&self) -> bool { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
    pub fn tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxToken<L>> + use<L> { std::iter::empty() }
    pub fn as_send(&self) -> Option<SendNode> { loop {} }
}
#[derive(Clone, Debug)]
pub struct SendNode;
unsafe impl Send for SendNode {}
unsafe impl Sync for SendNode {}
impl SendNode { pub fn into_node<L: Language>(self) -> Option<SyntaxNode<L>> { loop {} } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SyntaxNodeKey;

impl<L: Language> SyntaxToken<L> {
    pub fn new_detached<Lead, Trail>(kind: L::Kind, text: &str, leading: Lead, trailing: Trail) -> Self where Lead: IntoIterator<Item = TriviaPiece>, Lead::IntoIter: ExactSizeIterator, Trail: IntoIterator<Item = TriviaPiece>, Trail::IntoIter: ExactSizeIterator { loop {} }
    pub fn kind(&self) -> L::Kind { loop {} }
    pub fn text_range(&self) -> TextRange { loop {} }
    pub fn text_trimmed_range(&self) -> TextRange { loop {} }
    pub fn index(&self) -> usize { loop {} }
    pub fn text(&self) -> &str { loop {} }
    pub fn token_text(&self) -> TokenText { loop {} }
    pub fn token_text_trimmed(&self) -> TokenText { loop {} }
    pub fn text_trimmed(&self) -> &str { loop {} }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { loop {} }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::empty() }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { loop {} }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { loop {} }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> { loop {} }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> { loop {} }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> { loop {} }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> { loop {} }
    pub fn has_trailing_comments(&self) -> bool { loop {} }
    pub fn has_leading_comments(&self) -> bool { loop {} }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool { loop {} }
    pub fn has_leading_newline(&self) -> bool { loop {} }
}
impl<L: Language> SyntaxTrivia<L> {
    pub fn pieces(&self) -> SyntaxTriviaPiecesIterator<L> { loop {} }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> { loop {} }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> { loop {} }
    pub fn text(&self) -> &str { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
    pub fn has_skipped(&self) -> bool { loop {} }
    pub fn text_range(&self) -> TextRange { loop {} }
}
impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind { loop {} }
    pub fn text(&self) -> &str { loop {} }
    pub fn text_len(&self) -> TextSize { loop {} }
    pub fn text_range(&self) -> TextRange { loop {} }
    pub fn is_newline(&self) -> bool { loop {} }
    pub fn is_whitespace(&self) -> bool { loop {} }
    pub fn is_comments(&self) -> bool { loop {} }
    pub fn is_skipped(&self) -> bool { loop {} }
    pub fn as_newline(&self) -> Option<SyntaxTriviaPieceNewline<L>> { loop {} }
    pub fn as_whitespace(&self) -> Option<SyntaxTriviaPieceWhitespace<L>> { loop {} }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> { loop {} }
    pub fn as_skipped(&self) -> Option<SyntaxTriviaPieceSkipped<L>> { loop {} }
    pub fn token(&self) -> SyntaxToken<L> { loop {} }
}
impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn text(&self) -> &str { loop {} }
    pub fn text_len(&self) -> TextSize { loop {} }
    pub fn text_range(&self) -> TextRange { loop {} }
    pub fn has_newline(&self) -> bool { loop {} }
    pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> { loop {} }
    pub fn into_piece(self) -> SyntaxTriviaPiece<L> { loop {} }
}
impl<L: Language> SyntaxList<L> {
    pub fn new(node: SyntaxNode<L>) -> Self { loop {} }
    pub fn iter(&self) -> SyntaxListIterator<L> { loop {} }
    pub fn len(&self) -> usize { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
    pub fn first(&self) -> Option<SyntaxSlot<L>> { loop {} }
    pub fn last(&self) -> Option<SyntaxSlot<L>> { loop {} }
    pub fn node(&self) -> &SyntaxNode<L> { loop {} }
    pub fn into_node(self) -> SyntaxNode<L> { loop {} }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct SyntaxKindSet<L: Language>([u128; 4], PhantomData<L>);
impl<L: Language> SyntaxKindSet<L> {
    pub const fn from_raw(kind: RawSyntaxKind) -> Self { Self([0; 4], PhantomData) }
    pub const fn union(self, o: Self) -> Self { self }
    pub fn iter(self) -> impl Iterator<Item = L::Kind> { std::iter::empty() }
    pub fn matches(self, k: L::Kind) -> bool { loop {} }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, serde::Serialize)]
pub enum SyntaxError { MissingRequiredChild, UnexpectedBogusNode, UnexpectedMetavariable }
impl std::fmt::Display for SyntaxError { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for SyntaxError {}
pub type SyntaxResult<T> = Result<T, SyntaxError>;

pub struct AncestorsIter<N: AstNode>(PhantomData<N>);
impl<N: AstNode> Iterator for AncestorsIter<N> { type Item = SyntaxNode<N::Language>; fn next(&mut self) -> Option<Self::Item> { loop {} } }

pub trait AstNode: Clone {
    type Language: Language;
    const KIND_SET: SyntaxKindSet<Self::Language>;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self> where Self: Sized;
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self> where Self: Sized { loop {} }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>> { loop {} }
    fn try_cast_node<T: AstNode<Language = Self::Language>>(node: T) -> Result<Self, T> { loop {} }
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>;
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self where Self: Sized { loop {} }
    fn text(&self) -> String { loop {} }
    fn to_trimmed_string(&self) -> String { loop {} }
    fn to_trimmed_text(&self) -> TokenText { loop {} }
    fn range(&self) -> TextRange { loop {} }
    fn clone_subtree(&self) -> Self { loop {} }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> { loop {} }
    fn with_leading_trivia_pieces<I>(self, pieces: I) -> Option<Self> where I: IntoIterator<Item = SyntaxTriviaPiece<Self::Language>> { loop {} }
}
pub trait SyntaxNodeCast<L: Language> { fn cast<T: AstNode<Language = L>>(self) -> Option<T>; }
impl<L: Language> SyntaxNodeCast<L> for SyntaxNode<L> { fn cast<T: AstNode<Language = L>>(self) -> Option<T> { loop {} } }
pub trait SyntaxNodeOptionExt<L: Language> { fn kind(&self) -> Option<L::Kind>; }
impl<L: Language> SyntaxNodeOptionExt<L> for Option<SyntaxNode<L>> { fn kind(&self) -> Option<L::Kind> { loop {} } }
impl<L: Language> SyntaxNodeOptionExt<L> for Option<&SyntaxNode<L>> { fn kind(&self) -> Option<L::Kind> { loop {} } }

#[derive(Debug, Copy, Clone)]
pub struct AstNodeSlotMap<const N: usize>(pub [u8; N]);

pub struct AstNodeListIterator<L: Language, N> { _l: PhantomData<(L, N)> }
impl<L: Language, N: AstNode<Language = L>> Iterator for AstNodeListIterator<L, N> { type Item = N; fn next(&mut self) -> Option<N> { loop {} } }
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstNodeListIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstNodeListIterator<L, N> { fn next_back(&mut self) -> Option<N> { loop {} } }
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstNodeListIterator<L, N> {}
impl<L: Language, N> Clone for AstNodeListIterator<L, N> { fn clone(&self) -> Self { loop {} } }
pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn iter(&self) -> AstNodeListIterator<Self::Language, Self::Node> { loop {} }
    fn len(&self) -> usize { loop {} }
    fn is_empty(&self) -> bool { loop {} }
    fn first(&self) -> Option<Self::Node> { loop {} }
    fn last(&self) -> Option<Self::Node> { loop {} }
}
#[derive(Debug, Clone)]
pub struct AstSeparatedElement<L: Language, N> { pub node: SyntaxResult<N>, pub trailing_separator: SyntaxResult<Option<SyntaxToken<L>>> }
impl<L: Language, N: AstNode<Language = L>> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> { loop {} }
    pub fn into_node(self) -> SyntaxResult<N> { loop {} }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> { loop {} }
    pub fn into_trailing_separator(self) -> SyntaxResult<Option<SyntaxToken<L>>> { loop {} }
}
#[derive(Clone)]
pub struct AstSeparatedListElementsIterator<L: Language, N> { _l: PhantomData<(L, N)> }
impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListElementsIterator<L, N> { type Item = AstSeparatedElement<L, N>; fn next(&mut self) -> Option<Self::Item> { loop {} } }
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstSeparatedListElementsIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstSeparatedListElementsIterator<L, N> { fn next_back(&mut self) -> Option<Self::Item> { loop {} } }
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstSeparatedListElementsIterator<L, N> {}
pub struct AstSeparatedListNodesIterator<L: Language, N> { _l: PhantomData<(L, N)> }
impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListNodesIterator<L, N> { type Item = SyntaxResult<N>; fn next(&mut self) -> Option<Self::Item> { loop {} } }
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstSeparatedListNodesIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstSeparatedListNodesIterator<L, N> { fn next_back(&mut self) -> Option<Self::Item> { loop {} } }
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstSeparatedListNodesIterator<L, N> {}
pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn elements(&self) -> AstSeparatedListElementsIterator<Self::Language, Self::Node> { loop {} }
    fn get_element(&self, i: usize) -> Option<AstSeparatedElement<Self::Language, Self::Node>> { loop {} }
    fn separators(&self) -> std::vec::IntoIter<SyntaxResult<SyntaxToken<Self::Language>>> { loop {} }
    fn iter(&self) -> AstSeparatedListNodesIterator<Self::Language, Self::Node> { loop {} }
    fn is_empty(&self) -> bool { loop {} }
    fn len(&self) -> usize { loop {} }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> { loop {} }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> { loop {} }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> { loop {} }
}
pub mod support {
    use super::*;
    pub fn node<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> Option<N> { loop {} }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> SyntaxResult<N> { loop {} }
    pub fn elements<L: Language>(parent: &SyntaxNode<L>) -> SyntaxElementChildren<L> { loop {} }
    pub fn list<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> N { loop {} }
    pub fn separated_list<L: Language, N: AstSeparatedList<Language = L>>(parent: &SyntaxNode<L>, slot: usize) -> N { loop {} }
    pub fn list_like<T>() -> T { loop {} }
    pub fn token<L: Language>(parent: &SyntaxNode<L>, slot: usize) -> Option<SyntaxToken<L>> { loop {} }
    pub fn required_token<L: Language>(parent: &SyntaxNode<L>, slot: usize) -> SyntaxResult<SyntaxToken<L>> { loop {} }
    pub struct DebugSyntaxResult<N>(pub SyntaxResult<N>);
    impl<N: Debug> Debug for DebugSyntaxResult<N> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
    pub struct DebugOptionalElement<N>(pub Option<N>);
    impl<N: Debug> Debug for DebugOptionalElement<N> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
}
impl<L: Language> serde::Serialize for SyntaxNode<L> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { loop {} } }
impl<L: Language> serde::Serialize for SyntaxToken<L> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { loop {} } }
impl<L: Language> serde::Serialize for SyntaxList<L> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { loop {} } }
impl<N: serde::Serialize, T: serde::Serialize> serde::Serialize for NodeOrToken<N, T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { loop {} } }

// Factories
#[derive(Debug)]
pub struct RawSyntaxNode<K> { _k: PhantomData<K> }
#[derive(Debug, Clone)]
pub struct RawSyntaxElement<K> { _k: PhantomData<K> }
impl<K: SyntaxKind> RawSyntaxElement<K> { pub fn kind(&self) -> K { loop {} } }
pub struct RawNodeSlots<const COUNT: usize> { current: usize }
impl<const COUNT: usize> Default for RawNodeSlots<COUNT> { fn default() -> Self { loop {} } }
impl<const COUNT: usize> RawNodeSlots<COUNT> {
    pub fn next_slot(&mut self) { loop {} }
    pub fn mark_present(&mut self) { loop {} }
    pub fn mark_absent(&mut self) { loop {} }
    pub fn into_node<K: SyntaxKind>(self, kind: K, children: ParsedChildren<K>) -> RawSyntaxNode<K> { loop {} }
}
#[derive(Debug)]
pub struct ParsedChildren<'a, K> { _k: PhantomData<&'a K> }
impl<'a, K: SyntaxKind> ParsedChildren<'a, K> { pub fn len(&self) -> usize { loop {} } pub fn is_empty(&self) -> bool { loop {} } }
impl<'a, K: SyntaxKind> IntoIterator for ParsedChildren<'a, K> { type Item = RawSyntaxElement<K>; type IntoIter = ParsedChildrenIntoIterator<'a, K>; fn into_iter(self) -> Self::IntoIter { loop {} } }
impl<'a, K: SyntaxKind> IntoIterator for &ParsedChildren<'a, K> { type Item = RawSyntaxElement<K>; type IntoIter = ParsedChildrenIntoIterator<'a, K>; fn into_iter(self) -> Self::IntoIter { loop {} } }
pub struct ParsedChildrenIntoIterator<'a, K> { _k: PhantomData<&'a K> }
impl<K: SyntaxKind> Iterator for ParsedChildrenIntoIterator<'_, K> { type Item = RawSyntaxElement<K>; fn next(&mut self) -> Option<Self::Item> { loop {} } }
impl<K: SyntaxKind> ExactSizeIterator for ParsedChildrenIntoIterator<'_, K> {}
impl<K: SyntaxKind> RawSyntaxNode<K> {
    pub fn new<I>(kind: K, slots: I) -> Self where I: IntoIterator<Item = Option<RawSyntaxElement<K>>>, I::IntoIter: ExactSizeIterator { loop {} }
    pub fn kind(&self) -> K { loop {} }
}
pub trait SyntaxFactory: Debug {
    type Kind: SyntaxKind;
    fn make_syntax(kind: Self::Kind, children: ParsedChildren<Self::Kind>) -> RawSyntaxNode<Self::Kind>;
    fn make_node_list_syntax<F>(kind: Self::Kind, children: ParsedChildren<Self::Kind>, can_cast: F) -> RawSyntaxNode<Self::Kind> where F: Fn(Self::Kind) -> bool { loop {} }
    fn make_separated_list_syntax<F>(kind: Self::Kind, children: ParsedChildren<Self::Kind>, can_cast: F, separator: Self::Kind, allow_trailing: bool) -> RawSyntaxNode<Self::Kind> where F: Fn(Self::Kind) -> bool { loop {} }
}
#[derive(Debug)]
pub struct TreeBuilder<'cache, L: Language, S: SyntaxFactory<Kind = L::Kind>> { _p: PhantomData<(&'cache (), L, S)> }
impl<L: Language, S: SyntaxFactory<Kind = L::Kind>> Default for TreeBuilder<'_, L, S> { fn default() -> Self { loop {} } }
impl<'cache, L: Language, S: SyntaxFactory<Kind = L::Kind>> TreeBuilder<'cache, L, S> {
    pub fn new() -> Self { loop {} }
    pub fn with_cache(c: &'cache mut NodeCache) -> Self { loop {} }
    pub fn wrap_with_node<F>(kind: L::Kind, build: F) -> SyntaxNode<L> where F: Fn(&mut Self) { loop {} }
    pub fn token(&mut self, kind: L::Kind, text: &str) -> &mut Self { loop {} }
    pub fn token_with_trivia(&mut self, kind: L::Kind, text: &str, leading: &[TriviaPiece], trailing: &[TriviaPiece]) { loop {} }
    pub fn start_node(&mut self, kind: L::Kind) -> &mut Self { loop {} }
    pub fn finish_node(&mut self) -> &mut Self { loop {} }
    pub fn finish(self) -> SyntaxNode<L> { loop {} }
}
#[derive(Debug, Default)]
pub struct NodeCache;

#[macro_export]
macro_rules! declare_node_union {
    ($v:vis $name:ident = $($variant:ident)|* ) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug)]
        $v enum $name { $( $variant($variant), )* }
        impl $crate::AstNode for $name {
            type Language = <$crate::__first!($($variant),*) as $crate::AstNode>::Language;
            const KIND_SET: $crate::SyntaxKindSet<Self::Language> = <$crate::__first!($($variant),*) as $crate::AstNode>::KIND_SET;
            fn can_cast(kind: <Self::Language as $crate::Language>::Kind) -> bool { $( if <$variant as $crate::AstNode>::can_cast(kind) { return true; } )* false }
            fn cast(syntax: $crate::SyntaxNode<Self::Language>) -> Option<Self> { $( if <$variant as $crate::AstNode>::can_cast(syntax.kind()) { return <$variant as $crate::AstNode>::cast(syntax).map($name::$variant); } )* None }
            fn syntax(&self) -> &$crate::SyntaxNode<Self::Language> { match self { $( Self::$variant(n) => $crate::AstNode::syntax(n), )* } }
            fn into_syntax(self) -> $crate::SyntaxNode<Self::Language> { match self { $( Self::$variant(n) => $crate::AstNode::into_syntax(n), )* } }
        }
        $( impl From<$variant> for $name { fn from(n: $variant) -> Self { Self::$variant(n) } } )*
    };
}
#[macro_export]
#[doc(hidden)]
macro_rules! __first { ($a:ident $(, $b:ident)*) => { $a } }
impl PartialEq<&str> for SyntaxNodeKey { fn eq(&self, _: &&str) -> bool { loop {} } }
fn _u(_: Cow<str>, _: Range<u8>) {}

impl<L: Language> Preorder<L> { pub fn skip_subtree(&mut self) { loop {} } }
impl<L: Language> PreorderWithTokens<L> { pub fn skip_subtree(&mut self) { loop {} } }
