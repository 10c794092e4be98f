//! Signature-only stand-in for the git dependency that is not available offline.
#![allow(unused_variables, dead_code)]
use biome_rowan::*;
use std::num::NonZeroU32;
pub mod prelude {
    pub use crate::token_source::Trivia;
    pub use crate::ParseDiagnostic;
}
#[derive(Debug, Clone)]
pub struct ParseDiagnostic;
pub trait AsSpan { fn as_span(&self) -> Option<TextRange>; }
impl AsSpan for TextRange { fn as_span(&self) -> Option<TextRange> { loop {} } }
impl<T: AsSpan> AsSpan for Option<T> { fn as_span(&self) -> Option<TextRange> { loop {} } }
impl ParseDiagnostic {
    pub fn new(message: impl std::fmt::Display, span: impl AsSpan) -> Self { loop {} }
}
pub mod token_source {
    use super::*;
    #[derive(Debug, Clone, Copy)]
    pub struct Trivia { kind: TriviaPieceKind, range: TextRange, trailing: bool }
    impl Trivia {
        pub fn new(kind: TriviaPieceKind, range: TextRange, trailing: bool) -> Self { Self { kind, range, trailing } }
        pub fn kind(&self) -> TriviaPieceKind { self.kind }
        pub fn len(&self) -> TextSize { loop {} }
        pub fn trailing(&self) -> bool { self.trailing }
        pub fn text_range(&self) -> &TextRange { &self.range }
        pub fn offset(&self) -> TextSize { loop {} }
    }
}
pub mod event {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Event<K: SyntaxKind> {
        Start { kind: K, forward_parent: Option<NonZeroU32> },
        Finish,
        Token { kind: K, end: TextSize },
    }
    impl<K: SyntaxKind> Event<K> { pub fn tombstone() -> Self { loop {} } }
    pub fn process<K: SyntaxKind>(sink: &mut impl crate::tree_sink::TreeSink<Kind = K>, events: Vec<Event<K>>, errors: Vec<ParseDiagnostic>) { loop {} }
}
pub mod tree_sink {
    use super::*;
    pub trait TreeSink { type Kind: SyntaxKind; }
    #[derive(Debug)]
    pub struct LosslessTreeSink<'a, L: Language, F: SyntaxFactory<Kind = L::Kind>> { _p: std::marker::PhantomData<(&'a (), L, F)> }
    impl<L: Language, F: SyntaxFactory<Kind = L::Kind>> TreeSink for LosslessTreeSink<'_, L, F> { type Kind = L::Kind; }
    impl<'a, L: Language, F: SyntaxFactory<Kind = L::Kind>> LosslessTreeSink<'a, L, F> {
        pub fn new(text: &'a str, trivia: &'a [token_source::Trivia]) -> Self { loop {} }
        pub fn with_cache(text: &'a str, trivia: &'a [token_source::Trivia], cache: &'a mut NodeCache) -> Self { loop {} }
        pub fn finish(self) -> (SyntaxNode<L>, Vec<ParseDiagnostic>) { loop {} }
    }
}
#[derive(Clone, Debug)]
pub struct AnyParse { pub root: SendNode, pub diagnostics: Vec<ParseDiagnostic> }
impl AnyParse {
    pub fn new(root: SendNode, diagnostics: Vec<ParseDiagnostic>) -> AnyParse { AnyParse { root, diagnostics } }
    pub fn syntax<L: Language + 'static>(&self) -> SyntaxNode<L> { loop {} }
    pub fn tree<N: AstNode>(&self) -> N { loop {} }
    pub fn has_errors(&self) -> bool { loop {} }
    pub fn into_diagnostics(self) -> Vec<ParseDiagnostic> { loop {} }
    pub fn diagnostics(&self) -> &[ParseDiagnostic] { loop {} }
}
