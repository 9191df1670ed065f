//! Stand-in for `tower-lsp`: the types of the protocol which Air uses, and a client which answers at once.
pub mod jsonrpc {
    use std::borrow::Cow;
    use std::fmt;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ErrorCode {
        ParseError,
        InvalidRequest,
        MethodNotFound,
        InvalidParams,
        InternalError,
        RequestCancelled,
        ContentModified,
        ServerError(i64),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Error {
        pub code: ErrorCode,
        pub message: Cow<'static, str>,
        pub data: Option<serde_json::Value>,
    }
    impl Error {
        pub fn method_not_found() -> Self {
            Error { code: ErrorCode::MethodNotFound, message: "method not found".into(), data: None }
        }
        pub fn internal_error() -> Self {
            Error { code: ErrorCode::InternalError, message: "internal error".into(), data: None }
        }
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.message)
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
}
pub use tower_lsp_macros::async_trait;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

/// The client: answers questions about its configuration, and keeps what it was told.
#[derive(Clone)]
pub struct Client {
    pub answer: Rc<dyn Fn(&lsp_types::ConfigurationItem) -> serde_json::Value>,
    pub told: Rc<RefCell<Vec<(String, serde_json::Value)>>>,
    pub asked: Rc<RefCell<Vec<Vec<lsp_types::ConfigurationItem>>>>,
    /// does it answer one question too few?
    pub short: Rc<Cell<bool>>,
}
unsafe impl Send for Client {}
unsafe impl Sync for Client {}
impl std::fmt::Debug for Client {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Client")
    }
}
impl Client {
    pub async fn configuration(&self, items: Vec<lsp_types::ConfigurationItem>) -> jsonrpc::Result<Vec<serde_json::Value>> {
        self.asked.borrow_mut().push(items.clone());
        // the answer comes at some time
        tokio::pause().await;
        let mut v: Vec<serde_json::Value> = items.iter().map(|i| (self.answer)(i)).collect();
        if self.short.get() {
            v.pop();
        }
        Ok(v)
    }
    pub async fn log_message<M: std::fmt::Display>(&self, _: lsp_types::MessageType, _: M) {}
    pub async fn show_message<M: std::fmt::Display>(&self, _: lsp_types::MessageType, _: M) {}
    pub async fn publish_diagnostics(&self, _: lsp_types::Url, _: Vec<lsp_types::Diagnostic>, _: Option<i32>) {}
    pub async fn workspace_folders(&self) -> jsonrpc::Result<Option<Vec<lsp_types::WorkspaceFolder>>> {
        Ok(None)
    }
    pub async fn send_notification<N: lsp_types::notification::Notification>(&self, params: N::Params) {
        let v = serde_json::to_value(params).unwrap();
        self.told.borrow_mut().push((N::METHOD.to_string(), v));
    }
    pub async fn register_capability(&self, registrations: Vec<lsp_types::Registration>) -> jsonrpc::Result<()> {
        for r in registrations {
            self.told.borrow_mut().push((r.method, r.register_options.unwrap_or_default()));
        }
        Ok(())
    }
}
use lsp_types::*;
#[allow(async_fn_in_trait, unused_variables)]
pub trait LanguageServer {
    async fn initialize(&self, params: InitializeParams) -> jsonrpc::Result<InitializeResult>;
    async fn initialized(&self, params: InitializedParams) -> () {}
    async fn shutdown(&self) -> jsonrpc::Result<()>;
    async fn did_change_workspace_folders(&self, params: DidChangeWorkspaceFoldersParams) -> () {}
    async fn did_change_configuration(&self, params: DidChangeConfigurationParams) -> () {}
    async fn did_change_watched_files(&self, params: DidChangeWatchedFilesParams) -> () {}
    async fn did_open(&self, params: DidOpenTextDocumentParams) -> () {}
    async fn did_change(&self, params: DidChangeTextDocumentParams) -> () {}
    async fn did_save(&self, params: DidSaveTextDocumentParams) -> () {}
    async fn did_close(&self, params: DidCloseTextDocumentParams) -> () {}
    async fn formatting(&self, params: DocumentFormattingParams) -> jsonrpc::Result<Option<Vec<TextEdit>>> { Err(jsonrpc::Error::method_not_found()) }
    async fn range_formatting(&self, params: DocumentRangeFormattingParams) -> jsonrpc::Result<Option<Vec<TextEdit>>> { Err(jsonrpc::Error::method_not_found()) }
}
type Later<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
/// A server, as the connection sees it.
pub trait Served {
    fn initialize<'a>(&'a self, params: InitializeParams) -> Later<'a, jsonrpc::Result<InitializeResult>>;
    fn initialized<'a>(&'a self, params: InitializedParams) -> Later<'a, ()>;
    fn shutdown<'a>(&'a self) -> Later<'a, jsonrpc::Result<()>>;
    fn did_change_workspace_folders<'a>(&'a self, params: DidChangeWorkspaceFoldersParams) -> Later<'a, ()>;
    fn did_change_configuration<'a>(&'a self, params: DidChangeConfigurationParams) -> Later<'a, ()>;
    fn did_change_watched_files<'a>(&'a self, params: DidChangeWatchedFilesParams) -> Later<'a, ()>;
    fn did_open<'a>(&'a self, params: DidOpenTextDocumentParams) -> Later<'a, ()>;
    fn did_change<'a>(&'a self, params: DidChangeTextDocumentParams) -> Later<'a, ()>;
    fn did_save<'a>(&'a self, params: DidSaveTextDocumentParams) -> Later<'a, ()>;
    fn did_close<'a>(&'a self, params: DidCloseTextDocumentParams) -> Later<'a, ()>;
    fn formatting<'a>(&'a self, params: DocumentFormattingParams) -> Later<'a, jsonrpc::Result<Option<Vec<TextEdit>>>>;
    fn range_formatting<'a>(&'a self, params: DocumentRangeFormattingParams) -> Later<'a, jsonrpc::Result<Option<Vec<TextEdit>>>>;
}
impl<S: LanguageServer> Served for S {
    fn initialize<'a>(&'a self, params: InitializeParams) -> Later<'a, jsonrpc::Result<InitializeResult>> {
        Box::pin(LanguageServer::initialize(self, params))
    }
    fn initialized<'a>(&'a self, params: InitializedParams) -> Later<'a, ()> {
        Box::pin(LanguageServer::initialized(self, params))
    }
    fn shutdown<'a>(&'a self) -> Later<'a, jsonrpc::Result<()>> {
        Box::pin(LanguageServer::shutdown(self))
    }
    fn did_change_workspace_folders<'a>(&'a self, params: DidChangeWorkspaceFoldersParams) -> Later<'a, ()> {
        Box::pin(LanguageServer::did_change_workspace_folders(self, params))
    }
    fn did_change_configuration<'a>(&'a self, params: DidChangeConfigurationParams) -> Later<'a, ()> {
        Box::pin(LanguageServer::did_change_configuration(self, params))
    }
    fn did_change_watched_files<'a>(&'a self, params: DidChangeWatchedFilesParams) -> Later<'a, ()> {
        Box::pin(LanguageServer::did_change_watched_files(self, params))
    }
    fn did_open<'a>(&'a self, params: DidOpenTextDocumentParams) -> Later<'a, ()> {
        Box::pin(LanguageServer::did_open(self, params))
    }
    fn did_change<'a>(&'a self, params: DidChangeTextDocumentParams) -> Later<'a, ()> {
        Box::pin(LanguageServer::did_change(self, params))
    }
    fn did_save<'a>(&'a self, params: DidSaveTextDocumentParams) -> Later<'a, ()> {
        Box::pin(LanguageServer::did_save(self, params))
    }
    fn did_close<'a>(&'a self, params: DidCloseTextDocumentParams) -> Later<'a, ()> {
        Box::pin(LanguageServer::did_close(self, params))
    }
    fn formatting<'a>(&'a self, params: DocumentFormattingParams) -> Later<'a, jsonrpc::Result<Option<Vec<TextEdit>>>> {
        Box::pin(LanguageServer::formatting(self, params))
    }
    fn range_formatting<'a>(&'a self, params: DocumentRangeFormattingParams) -> Later<'a, jsonrpc::Result<Option<Vec<TextEdit>>>> {
        Box::pin(LanguageServer::range_formatting(self, params))
    }
}
type Session = Box<dyn FnOnce(Rc<dyn Served>) -> Later<'static, ()>>;
thread_local! {
    static CLIENT: RefCell<Option<Client>> = const { RefCell::new(None) };
    static SESSION: RefCell<Option<Session>> = const { RefCell::new(None) };
}
/// what the next server is connected with
pub fn connect(client: Client, session: Session) {
    CLIENT.with(|c| *c.borrow_mut() = Some(client));
    SESSION.with(|c| *c.borrow_mut() = Some(session));
}
pub struct ClientSocket;
pub struct LspService<S>(S);
pub struct LspServiceBuilder<S>(S);
impl<S: LanguageServer> LspService<S> {
    pub fn build(init: impl FnOnce(Client) -> S) -> LspServiceBuilder<S> {
        LspServiceBuilder(init(CLIENT.with(|c| c.borrow().clone()).unwrap()))
    }
    pub fn new(init: impl FnOnce(Client) -> S) -> (Self, ClientSocket) {
        Self::build(init).finish()
    }
}
impl<S: LanguageServer> LspServiceBuilder<S> {
    pub fn custom_method<F>(self, _: &'static str, _: F) -> Self {
        self
    }
    pub fn finish(self) -> (LspService<S>, ClientSocket) {
        (LspService(self.0), ClientSocket)
    }
}
pub struct Server;
impl Server {
    pub fn new<I, O>(_: I, _: O, _: ClientSocket) -> Self {
        Server
    }
    pub async fn serve<S: LanguageServer + 'static>(self, service: LspService<S>) {
        let session = SESSION.with(|c| c.borrow_mut().take()).unwrap();
        session(Rc::new(service.0)).await
    }
}
pub mod lsp_types {
    use serde::{Deserialize, Serialize};
    use serde_json::Value;
    pub use url::Url;
    pub mod notification {
        pub trait Notification {
            type Params: serde::Serialize;
            const METHOD: &'static str;
        }
    }
    #[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Copy, Clone, Default, Hash, Serialize, Deserialize)]
    pub struct Position {
        pub line: u32,
        pub character: u32,
    }
    impl Position {
        pub fn new(line: u32, character: u32) -> Position {
            Position { line, character }
        }
    }
    #[derive(Debug, Eq, PartialEq, Copy, Clone, Default, Hash, Serialize, Deserialize)]
    pub struct Range {
        pub start: Position,
        pub end: Position,
    }
    impl Range {
        pub fn new(start: Position, end: Position) -> Range {
            Range { start, end }
        }
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct TextEdit {
        pub range: Range,
        pub new_text: String,
    }
    impl TextEdit {
        pub fn new(range: Range, new_text: String) -> TextEdit {
            TextEdit { range, new_text }
        }
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct TextDocumentContentChangeEvent {
        pub range: Option<Range>,
        pub range_length: Option<u32>,
        pub text: String,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Serialize, Deserialize)]
    pub struct TextDocumentIdentifier {
        pub uri: Url,
    }
    impl TextDocumentIdentifier {
        pub fn new(uri: Url) -> Self {
            Self { uri }
        }
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct VersionedTextDocumentIdentifier {
        pub uri: Url,
        pub version: i32,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct TextDocumentItem {
        pub uri: Url,
        pub language_id: String,
        pub version: i32,
        pub text: String,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct DidOpenTextDocumentParams {
        pub text_document: TextDocumentItem,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct DidChangeTextDocumentParams {
        pub text_document: VersionedTextDocumentIdentifier,
        pub content_changes: Vec<TextDocumentContentChangeEvent>,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct DidCloseTextDocumentParams {
        pub text_document: TextDocumentIdentifier,
    }
    #[derive(Debug, PartialEq, Clone, Default)]
    pub struct DidChangeConfigurationParams {
        pub settings: Value,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Copy)]
    pub struct FileChangeType(pub i32);
    impl FileChangeType {
        pub const CREATED: FileChangeType = FileChangeType(1);
        pub const CHANGED: FileChangeType = FileChangeType(2);
        pub const DELETED: FileChangeType = FileChangeType(3);
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct FileEvent {
        pub uri: Url,
        pub typ: FileChangeType,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct DidChangeWatchedFilesParams {
        pub changes: Vec<FileEvent>,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct WorkspaceFolder {
        pub uri: Url,
        pub name: String,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct WorkspaceFoldersChangeEvent {
        pub added: Vec<WorkspaceFolder>,
        pub removed: Vec<WorkspaceFolder>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct DidChangeWorkspaceFoldersParams {
        pub event: WorkspaceFoldersChangeEvent,
    }
    #[derive(Debug, PartialEq, Clone, Default)]
    pub struct FormattingOptions {
        pub tab_size: u32,
        pub insert_spaces: bool,
        pub trim_trailing_whitespace: Option<bool>,
        pub insert_final_newline: Option<bool>,
        pub trim_final_newlines: Option<bool>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct WorkDoneProgressParams {
        pub work_done_token: Option<i32>,
    }
    #[derive(Debug, PartialEq, Clone)]
    pub struct DocumentFormattingParams {
        pub text_document: TextDocumentIdentifier,
        pub options: FormattingOptions,
        pub work_done_progress_params: WorkDoneProgressParams,
    }
    #[derive(Debug, PartialEq, Clone)]
    pub struct DocumentRangeFormattingParams {
        pub text_document: TextDocumentIdentifier,
        pub range: Range,
        pub options: FormattingOptions,
        pub work_done_progress_params: WorkDoneProgressParams,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct PositionEncodingKind(std::borrow::Cow<'static, str>);
    impl PositionEncodingKind {
        pub const UTF8: PositionEncodingKind = PositionEncodingKind(std::borrow::Cow::Borrowed("utf-8"));
        pub const UTF16: PositionEncodingKind = PositionEncodingKind(std::borrow::Cow::Borrowed("utf-16"));
        pub const UTF32: PositionEncodingKind = PositionEncodingKind(std::borrow::Cow::Borrowed("utf-32"));
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct GeneralClientCapabilities {
        pub position_encodings: Option<Vec<PositionEncodingKind>>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Copy, Default)]
    pub struct DynamicRegistrationClientCapabilities {
        pub dynamic_registration: Option<bool>,
    }
    pub type DidChangeConfigurationClientCapabilities = DynamicRegistrationClientCapabilities;
    #[derive(Debug, Eq, PartialEq, Clone, Copy, Default)]
    pub struct DidChangeWatchedFilesClientCapabilities {
        pub dynamic_registration: Option<bool>,
        pub relative_pattern_support: Option<bool>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct WorkspaceClientCapabilities {
        pub did_change_configuration: Option<DidChangeConfigurationClientCapabilities>,
        pub did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>,
        pub workspace_folders: Option<bool>,
        pub configuration: Option<bool>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct ClientCapabilities {
        pub workspace: Option<WorkspaceClientCapabilities>,
        pub general: Option<GeneralClientCapabilities>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct ClientInfo {
        pub name: String,
        pub version: Option<String>,
    }
    #[derive(Debug, PartialEq, Clone, Default)]
    pub struct InitializeParams {
        pub process_id: Option<u32>,
        pub root_path: Option<String>,
        pub root_uri: Option<Url>,
        pub initialization_options: Option<Value>,
        pub capabilities: ClientCapabilities,
        pub workspace_folders: Option<Vec<WorkspaceFolder>>,
        pub client_info: Option<ClientInfo>,
        pub locale: Option<String>,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub enum OneOf<A, B> {
        Left(A),
        Right(B),
    }
    #[derive(Debug, Eq, PartialEq, Clone, Copy)]
    pub struct TextDocumentSyncKind(i32);
    impl TextDocumentSyncKind {
        pub const NONE: TextDocumentSyncKind = TextDocumentSyncKind(0);
        pub const FULL: TextDocumentSyncKind = TextDocumentSyncKind(1);
        pub const INCREMENTAL: TextDocumentSyncKind = TextDocumentSyncKind(2);
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct TextDocumentSyncOptions {
        pub open_close: Option<bool>,
        pub change: Option<TextDocumentSyncKind>,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub enum TextDocumentSyncCapability {
        Kind(TextDocumentSyncKind),
        Options(TextDocumentSyncOptions),
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct WorkspaceFoldersServerCapabilities {
        pub supported: Option<bool>,
        pub change_notifications: Option<OneOf<bool, String>>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct WorkspaceServerCapabilities {
        pub workspace_folders: Option<WorkspaceFoldersServerCapabilities>,
        pub file_operations: Option<()>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct DocumentFormattingOptions {}
    #[derive(Debug, PartialEq, Clone, Default)]
    pub struct ServerCapabilities {
        pub position_encoding: Option<PositionEncodingKind>,
        pub text_document_sync: Option<TextDocumentSyncCapability>,
        pub document_formatting_provider: Option<OneOf<bool, DocumentFormattingOptions>>,
        pub document_range_formatting_provider: Option<OneOf<bool, DocumentFormattingOptions>>,
        pub workspace: Option<WorkspaceServerCapabilities>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct ServerInfo {
        pub name: String,
        pub version: Option<String>,
    }
    #[derive(Debug, PartialEq, Clone, Default)]
    pub struct InitializeResult {
        pub capabilities: ServerCapabilities,
        pub server_info: Option<ServerInfo>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct ConfigurationItem {
        pub scope_uri: Option<Url>,
        pub section: Option<String>,
    }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct Registration {
        pub id: String,
        pub method: String,
        pub register_options: Option<Value>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Copy, Default)]
    pub struct InitializedParams {}
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct DidSaveTextDocumentParams {
        pub text_document: TextDocumentIdentifier,
        pub text: Option<String>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct Diagnostic {
        pub range: Range,
        pub message: String,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Copy)]
    pub struct MessageType(i32);
    impl MessageType {
        pub const ERROR: MessageType = MessageType(1);
        pub const WARNING: MessageType = MessageType(2);
        pub const INFO: MessageType = MessageType(3);
        pub const LOG: MessageType = MessageType(4);
    }
    #[derive(Debug, Eq, PartialEq, Clone, Serialize)]
    pub struct DidChangeWatchedFilesRegistrationOptions {
        pub watchers: Vec<FileSystemWatcher>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct FileSystemWatcher {
        pub glob_pattern: GlobPattern,
        pub kind: Option<u8>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Serialize)]
    #[serde(untagged)]
    pub enum GlobPattern {
        String(String),
    }
}
