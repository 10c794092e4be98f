//! Signature-only stand-in for the git dependency that is not available offline.
#![allow(unused_variables, dead_code, async_fn_in_trait, clippy::all)]
pub use tower_lsp_macros::async_trait;
use std::marker::PhantomData;
use tokio::io::{AsyncRead, AsyncWrite};

pub mod jsonrpc {
    use std::borrow::Cow;
    pub type Result<T> = std::result::Result<T, Error>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum ErrorCode { ParseError, InvalidRequest, MethodNotFound, InvalidParams, InternalError, ServerError(i64), RequestCancelled, ContentModified }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Error { pub code: ErrorCode, pub message: Cow<'static, str>, pub data: Option<serde_json::Value> }
    impl Error {
        pub fn new(code: ErrorCode) -> Self { loop {} }
        pub fn internal_error() -> Self { loop {} }
        pub fn method_not_found() -> Self { loop {} }
        pub fn invalid_params<M: Into<Cow<'static, str>>>(m: M) -> Self { loop {} }
    }
    impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
    impl std::error::Error for Error {}
    pub type Request = serde_json::Value;
    pub type Response = serde_json::Value;
}
use jsonrpc::Result;
use lsp_types::*;

#[derive(Clone)]
pub struct Client { _p: () }
impl std::fmt::Debug for Client { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl Client {
    pub async fn register_capability(&self, r: Vec<Registration>) -> Result<()> { loop {} }
    pub async fn unregister_capability(&self, r: Vec<Unregistration>) -> Result<()> { loop {} }
    pub async fn show_message<M: std::fmt::Display>(&self, t: MessageType, m: M) { loop {} }
    pub async fn log_message<M: std::fmt::Display>(&self, t: MessageType, m: M) { loop {} }
    pub async fn configuration(&self, items: Vec<ConfigurationItem>) -> Result<Vec<serde_json::Value>> { loop {} }
    pub async fn workspace_folders(&self) -> Result<Option<Vec<WorkspaceFolder>>> { loop {} }
    pub async fn publish_diagnostics(&self, uri: Url, d: Vec<Diagnostic>, v: Option<i32>) { loop {} }
    pub async fn send_notification<N: notification::Notification>(&self, p: N::Params) { loop {} }
    pub async fn send_request<R: request::Request>(&self, p: R::Params) -> Result<R::Result> { loop {} }
}
pub trait LanguageServer: Send + Sync + 'static {
    async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult>;
    async fn initialized(&self, params: InitializedParams) { }
    async fn shutdown(&self) -> Result<()>;
    async fn did_open(&self, params: DidOpenTextDocumentParams) { }
    async fn did_change(&self, params: DidChangeTextDocumentParams) { }
    async fn will_save(&self, params: WillSaveTextDocumentParams) { }
    async fn did_save(&self, params: DidSaveTextDocumentParams) { }
    async fn did_close(&self, params: DidCloseTextDocumentParams) { }
    async fn formatting(&self, params: DocumentFormattingParams) -> Result<Option<Vec<TextEdit>>> { loop {} }
    async fn range_formatting(&self, params: DocumentRangeFormattingParams) -> Result<Option<Vec<TextEdit>>> { loop {} }
    async fn on_type_formatting(&self, params: DocumentOnTypeFormattingParams) -> Result<Option<Vec<TextEdit>>> { loop {} }
    async fn did_change_configuration(&self, params: DidChangeConfigurationParams) { }
    async fn did_change_workspace_folders(&self, params: DidChangeWorkspaceFoldersParams) { }
    async fn did_change_watched_files(&self, params: DidChangeWatchedFilesParams) { }
}
pub struct ClientSocket { _p: () }
pub struct LspService<S> { _p: PhantomData<S> }
impl<S> std::fmt::Debug for LspService<S> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
pub struct LspServiceBuilder<S> { _p: PhantomData<S> }
impl<S: LanguageServer> LspService<S> {
    pub fn new<F: FnOnce(Client) -> S>(init: F) -> (Self, ClientSocket) { loop {} }
    pub fn build<F: FnOnce(Client) -> S>(init: F) -> LspServiceBuilder<S> { loop {} }
    pub fn inner(&self) -> &S { loop {} }
}
pub trait Method<S, P, R> {}
pub trait IntoResponse {}
impl IntoResponse for () {}
impl<T> IntoResponse for Result<T> {}
impl<F, S: 'static, Fut, R> Method<&S, (), R> for F where F: Fn(&'static S) -> Fut, Fut: std::future::Future<Output = R> {}
impl<F, S: 'static, P, Fut, R> Method<&S, (P,), R> for F where F: Fn(&'static S, P) -> Fut, Fut: std::future::Future<Output = R> {}
impl<S: LanguageServer> LspServiceBuilder<S> {
    pub fn custom_method<P, R: IntoResponse, F>(self, name: &'static str, callback: F) -> Self where F: for<'a> Method<&'a S, P, R> { loop {} }
    pub fn finish(self) -> (LspService<S>, ClientSocket) { loop {} }
}
pub struct Server<I, O> { _p: PhantomData<(I, O)> }
impl<I: AsyncRead + Unpin, O: AsyncWrite> Server<I, O> {
    pub fn new(stdin: I, stdout: O, socket: ClientSocket) -> Self { loop {} }
    pub fn concurrency_level(self, max: usize) -> Self { loop {} }
    pub async fn serve<T>(self, service: T) { loop {} }
}

pub mod lsp_types {
    use serde::{Deserialize, Serialize};
    use serde_json::Value;
    pub use url::Url;
    pub type LSPAny = Value;
    pub mod notification {
        pub trait Notification { type Params: serde::de::DeserializeOwned + serde::Serialize + Send + Sync + 'static; const METHOD: &'static str; }
    }
    pub mod request {
        pub trait Request { type Params: serde::de::DeserializeOwned + serde::Serialize + Send + Sync + 'static; type Result: serde::de::DeserializeOwned + serde::Serialize + Send + Sync + 'static; const METHOD: &'static str; }
    }
    macro_rules! s { ($($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* $(,)? })*) => { $(
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)] $(#[$m])*
        #[serde(rename_all = "camelCase")]
        pub struct $n { $(pub $f: $t),* }
    )* } }
    macro_rules! open { ($($n:ident($t:ty) { $($c:ident = $v:expr),* })*) => { $(
        #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
        pub struct $n($t);
        impl $n { $(pub const $c: $n = $n::mk($v);)* const fn mk(_: &'static str) -> Self { loop {} } }
    )* } }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct PositionEncodingKind(std::borrow::Cow<'static, str>);
    impl PositionEncodingKind {
        pub const UTF8: PositionEncodingKind = PositionEncodingKind(std::borrow::Cow::Borrowed("utf-8"));
        pub const UTF16: PositionEncodingKind = PositionEncodingKind(std::borrow::Cow::Borrowed("utf-16"));
        pub const UTF32: PositionEncodingKind = PositionEncodingKind(std::borrow::Cow::Borrowed("utf-32"));
        pub fn as_str(&self) -> &str { loop {} }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct TextDocumentSyncKind(i32);
    impl TextDocumentSyncKind { pub const NONE: Self = Self(0); pub const FULL: Self = Self(1); pub const INCREMENTAL: Self = Self(2); }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct MessageType(i32);
    impl MessageType { pub const ERROR: Self = Self(1); pub const WARNING: Self = Self(2); pub const INFO: Self = Self(3); pub const LOG: Self = Self(4); }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct FileChangeType(i32);
    impl FileChangeType { pub const CREATED: Self = Self(1); pub const CHANGED: Self = Self(2); pub const DELETED: Self = Self(3); }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct DiagnosticSeverity(i32);
    #[derive(Debug, Eq, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum OneOf<A, B> { Left(A), Right(B) }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum TextDocumentSyncCapability { Kind(TextDocumentSyncKind), Options(TextDocumentSyncOptions) }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum GlobPattern { String(String), Relative(Value) }
    impl From<String> for GlobPattern { fn from(s: String) -> Self { GlobPattern::String(s) } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct WatchKind(u8);
    #[allow(non_upper_case_globals)]
    impl WatchKind { pub const Create: Self = Self(1); pub const Change: Self = Self(2); pub const Delete: Self = Self(4); }
    impl std::ops::BitOr for WatchKind { type Output = Self; fn bitor(self, o: Self) -> Self { Self(self.0 | o.0) } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Serialize, Deserialize)]
    pub struct Position { pub line: u32, pub character: u32 }
    impl Position { pub fn new(line: u32, character: u32) -> Position { Position { line, character } } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
    pub struct Range { pub start: Position, pub end: Position }
    impl Range { pub fn new(start: Position, end: Position) -> Range { Range { start, end } } }
    s! {
        #[derive(Default)] ServerInfo { name: String, version: Option<String> }
        #[derive(Default)] ClientInfo { name: String, version: Option<String> }
        #[derive(Default)] InitializeResult { capabilities: ServerCapabilities, server_info: Option<ServerInfo> }
        #[derive(Default)] InitializeParams { process_id: Option<u32>, root_path: Option<String>, root_uri: Option<Url>, initialization_options: Option<Value>, capabilities: ClientCapabilities, workspace_folders: Option<Vec<WorkspaceFolder>>, client_info: Option<ClientInfo>, locale: Option<String> }
        #[derive(Default, Copy)] InitializedParams { }
        #[derive(Default)] ClientCapabilities { workspace: Option<WorkspaceClientCapabilities>, text_document: Option<Value>, window: Option<Value>, general: Option<GeneralClientCapabilities>, experimental: Option<Value> }
        #[derive(Default)] GeneralClientCapabilities { position_encodings: Option<Vec<PositionEncodingKind>> }
        #[derive(Default)] WorkspaceClientCapabilities { apply_edit: Option<bool>, did_change_configuration: Option<DynamicRegistrationClientCapabilities>, did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>, workspace_folders: Option<bool>, configuration: Option<bool> }
        #[derive(Default, Copy)] DynamicRegistrationClientCapabilities { dynamic_registration: Option<bool> }
        #[derive(Default, Copy)] DidChangeWatchedFilesClientCapabilities { dynamic_registration: Option<bool>, relative_pattern_support: Option<bool> }
        #[derive(Default)] ServerCapabilities { position_encoding: Option<PositionEncodingKind>, text_document_sync: Option<TextDocumentSyncCapability>, notebook_document_sync: Option<Value>, selection_range_provider: Option<Value>, hover_provider: Option<Value>, completion_provider: Option<Value>, signature_help_provider: Option<Value>, definition_provider: Option<OneOf<bool, Value>>, type_definition_provider: Option<Value>, implementation_provider: Option<Value>, references_provider: Option<OneOf<bool, Value>>, document_highlight_provider: Option<OneOf<bool, Value>>, document_symbol_provider: Option<OneOf<bool, Value>>, workspace_symbol_provider: Option<OneOf<bool, Value>>, code_action_provider: Option<Value>, code_lens_provider: Option<Value>, document_formatting_provider: Option<OneOf<bool, Value>>, document_range_formatting_provider: Option<OneOf<bool, Value>>, document_on_type_formatting_provider: Option<Value>, rename_provider: Option<OneOf<bool, Value>>, document_link_provider: Option<Value>, color_provider: Option<Value>, folding_range_provider: Option<Value>, declaration_provider: Option<Value>, execute_command_provider: Option<Value>, workspace: Option<WorkspaceServerCapabilities>, call_hierarchy_provider: Option<Value>, semantic_tokens_provider: Option<Value>, moniker_provider: Option<Value>, inline_value_provider: Option<Value>, inlay_hint_provider: Option<Value>, linked_editing_range_provider: Option<Value>, diagnostic_provider: Option<Value>, experimental: Option<Value> }
        #[derive(Default)] WorkspaceServerCapabilities { workspace_folders: Option<WorkspaceFoldersServerCapabilities>, file_operations: Option<Value> }
        #[derive(Default)] WorkspaceFoldersServerCapabilities { supported: Option<bool>, change_notifications: Option<OneOf<bool, String>> }
        #[derive(Default)] TextDocumentSyncOptions { open_close: Option<bool>, change: Option<TextDocumentSyncKind>, will_save: Option<bool>, will_save_wait_until: Option<bool>, save: Option<Value> }
        WorkspaceFolder { uri: Url, name: String }
        WorkspaceFoldersChangeEvent { added: Vec<WorkspaceFolder>, removed: Vec<WorkspaceFolder> }
        DidChangeWorkspaceFoldersParams { event: WorkspaceFoldersChangeEvent }
        DidChangeConfigurationParams { settings: Value }
        DidChangeWatchedFilesParams { changes: Vec<FileEvent> }
        FileEvent { uri: Url, typ: FileChangeType }
        DidChangeWatchedFilesRegistrationOptions { watchers: Vec<FileSystemWatcher> }
        FileSystemWatcher { glob_pattern: GlobPattern, kind: Option<WatchKind> }
        Registration { id: String, method: String, register_options: Option<Value> }
        Unregistration { id: String, method: String }
        #[derive(Default)] ConfigurationItem { scope_uri: Option<Url>, section: Option<String> }
        DidOpenTextDocumentParams { text_document: TextDocumentItem }
        TextDocumentItem { uri: Url, language_id: String, version: i32, text: String }
        DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent> }
        #[derive(Eq)] VersionedTextDocumentIdentifier { uri: Url, version: i32 }
        #[derive(Eq)] TextDocumentIdentifier { uri: Url }
        #[derive(Eq)] TextDocumentContentChangeEvent { range: Option<Range>, range_length: Option<u32>, text: String }
        WillSaveTextDocumentParams { text_document: TextDocumentIdentifier }
        DidSaveTextDocumentParams { text_document: TextDocumentIdentifier, text: Option<String> }
        DidCloseTextDocumentParams { text_document: TextDocumentIdentifier }
        #[derive(Default, Eq)] TextEdit { range: Range, new_text: String }
        #[derive(Default)] FormattingOptions { tab_size: u32, insert_spaces: bool, trim_trailing_whitespace: Option<bool>, insert_final_newline: Option<bool>, trim_final_newlines: Option<bool> }
        DocumentFormattingParams { text_document: TextDocumentIdentifier, options: FormattingOptions, work_done_progress_params: WorkDoneProgressParams }
        DocumentRangeFormattingParams { text_document: TextDocumentIdentifier, range: Range, options: FormattingOptions, work_done_progress_params: WorkDoneProgressParams }
        DocumentOnTypeFormattingParams { ch: String, options: FormattingOptions }
        #[derive(Default)] WorkDoneProgressParams { work_done_token: Option<Value> }
        #[derive(Default)] Diagnostic { range: Range, severity: Option<DiagnosticSeverity>, code: Option<Value>, source: Option<String>, message: String }
    }
    pub type DidChangeConfigurationClientCapabilities = DynamicRegistrationClientCapabilities;
}
