//! Stand-in for `tracing`: every event is one call of `__event` with its level, and spans do nothing,
//! so that log statements do not blow up the intermediate representation.
#![allow(unused_variables)]
pub use tracing_attributes_id::instrument;
pub use tracing_core::{dispatcher, Level, Metadata, Subscriber};
pub fn __event(level: &'static str) {}
macro_rules! lv { ($d:tt $($n:ident)*) => { $(#[macro_export] macro_rules! $n { ($d($d t:tt)*) => { $crate::__event(stringify!($n)) } })* } }
lv!($ error warn info debug trace);
macro_rules! sp { ($d:tt $($n:ident)*) => { $(#[macro_export] macro_rules! $n { ($d($d t:tt)*) => { $crate::Span } })* } }
sp!($ error_span warn_span info_span debug_span trace_span);
pub struct Span;
impl Span { pub fn entered(self) -> EnteredSpan { EnteredSpan } pub fn enter(&self) -> EnteredSpan { EnteredSpan } pub fn current() -> Span { Span } pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T { f() } }
pub struct EnteredSpan;
impl EnteredSpan { pub fn exit(self) -> Span { Span } }
/// `fut.instrument(span)` is `fut`.
pub trait Instrument: Sized { fn instrument(self, span: Span) -> Self { self } fn in_current_span(self) -> Self { self } }
impl<T> Instrument for T {}
pub mod subscriber {
    pub use tracing_core::subscriber::*;
    pub fn set_global_default<S: tracing_core::Subscriber + Send + Sync + 'static>(s: S) -> Result<(), SetGlobalDefaultError> { loop {} }
    #[derive(Debug)]
    pub struct SetGlobalDefaultError;
    impl std::fmt::Display for SetGlobalDefaultError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
    impl std::error::Error for SetGlobalDefaultError {}
}
