// ------------------------------------------------------------------ request parameters (fields the code reads)
pub struct TextDocumentIdentifier { pub uri: Url }
impl TextDocumentIdentifier { pub fn new(uri: Url) -> (r: TextDocumentIdentifier) ensures r.uri == uri { TextDocumentIdentifier { uri } } }
pub struct VersionedTextDocumentIdentifier { pub uri: Url, pub version: i32 }
pub struct TextDocumentItem { pub uri: Url, pub language_id: String, pub version: i32, pub text: String }
pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }
pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<TextDocumentContentChangeEvent> }
pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
pub struct DidSaveTextDocumentParams { pub text_document: TextDocumentIdentifier, pub text: Option<String> }
pub struct TextDocumentPositionParams { pub text_document: TextDocumentIdentifier, pub position: Position }
impl TextDocumentPositionParams { pub fn new(text_document: TextDocumentIdentifier, position: Position) -> (r: TextDocumentPositionParams) ensures r.text_document == text_document, r.position == position { TextDocumentPositionParams { text_document, position } } }
impl TextDocumentItem { pub fn new(uri: Url, language_id: String, version: i32, text: String) -> (r: TextDocumentItem) ensures r.uri == uri, r.text == text { TextDocumentItem { uri, language_id, version, text } } }
pub struct WorkDoneProgressParams { pub work_done_token: Option<u32> }
pub struct PartialResultParams { pub partial_result_token: Option<u32> }
impl PartialResultParams { pub fn default() -> (r: PartialResultParams) ensures r.partial_result_token is None { PartialResultParams { partial_result_token: None } } }
pub struct HoverParams { pub text_document_position_params: TextDocumentPositionParams, pub work_done_progress_params: WorkDoneProgressParams }
pub struct GotoDefinitionParams { pub text_document_position_params: TextDocumentPositionParams, pub work_done_progress_params: WorkDoneProgressParams, pub partial_result_params: PartialResultParams }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum MarkupKind { PlainText, Markdown }
pub struct MarkupContent { pub kind: MarkupKind, pub value: String }
pub enum HoverContents { Scalar(u32), Array(u32), Markup(MarkupContent) }
pub struct Hover { pub contents: HoverContents, pub range: Option<Range> }
pub struct DocumentSymbolParams { pub text_document: TextDocumentIdentifier }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct CompletionTriggerKind { pub k: i32 }
impl CompletionTriggerKind {
    pub const INVOKED: CompletionTriggerKind = CompletionTriggerKind { k: 1 };
    pub const TRIGGER_CHARACTER: CompletionTriggerKind = CompletionTriggerKind { k: 2 };
    pub const TRIGGER_FOR_INCOMPLETE_COMPLETIONS: CompletionTriggerKind = CompletionTriggerKind { k: 3 };
}
pub struct CompletionContext { pub trigger_kind: CompletionTriggerKind, pub trigger_character: Option<String> }
pub struct CompletionParams { pub text_document_position: TextDocumentPositionParams, pub work_done_progress_params: WorkDoneProgressParams, pub partial_result_params: PartialResultParams, pub context: Option<CompletionContext> }
pub struct CodeActionParams { pub text_document: TextDocumentIdentifier, pub range: Range }
// ------------------------------------------------------------------ results
pub struct Location { pub uri: Url, pub range: Range }
impl Location { pub fn new(uri: Url, range: Range) -> (r: Location) ensures r.uri == uri, r.range == range { Location { uri, range } } }
pub enum GotoDefinitionResponse { Scalar(Location), Array(Vec<Location>), Link(Vec<Location>) }
pub struct DocumentSymbol { pub name: String, pub detail: Option<String>, pub kind: SymbolKind, pub tags: Option<u32>, pub deprecated: Option<bool>, pub range: Range, pub selection_range: Range, pub children: Option<Vec<u32>> }
pub enum DocumentSymbolResponse { Flat(Vec<u32>), Nested(Vec<DocumentSymbol>) }
pub struct TextEdit { pub range: Range, pub new_text: String }
pub struct InsertReplaceEdit { pub new_text: String, pub insert: Range, pub replace: Range }
pub enum CompletionTextEdit { Edit(TextEdit), InsertAndReplace(InsertReplaceEdit) }
pub struct CompletionItem { pub label: String, pub kind: Option<CompletionItemKind>, pub detail: Option<String>, pub insert_text: Option<String>, pub filter_text: Option<String>, pub text_edit: Option<CompletionTextEdit>, pub additional_text_edits: Option<Vec<TextEdit>>, pub documentation: Option<Documentation> }
pub enum Documentation { String(String), MarkupContent(MarkupContent) }
pub enum CompletionResponse { Array(Vec<CompletionItem>), List(u32) }
impl Clone for CompletionItem { #[verifier::external_body] fn clone(&self) -> (r: CompletionItem) ensures r == *self { unimplemented!() } }
impl CompletionItem {
    pub fn default() -> (r: CompletionItem)
        ensures r.label@.len() == 0, r.kind is None, r.detail is None, r.insert_text is None, r.filter_text is None, r.text_edit is None, r.additional_text_edits is None, r.documentation is None
    { CompletionItem { label: String::new(), kind: None, detail: None, insert_text: None, filter_text: None, text_edit: None, additional_text_edits: None, documentation: None } }
}
pub struct CreateFileOptions { pub overwrite: Option<bool>, pub ignore_if_exists: Option<bool> }
pub struct CreateFile { pub uri: Url, pub options: Option<CreateFileOptions>, pub annotation_id: Option<String> }
pub enum ResourceOp { Create(CreateFile), Rename(u32), Delete(u32) }
pub enum DocumentChangeOperation { Op(ResourceOp), Edit(u32) }
pub enum DocumentChanges { Edits(Vec<u32>), Operations(Vec<DocumentChangeOperation>) }
pub struct WorkspaceEdit { pub changes: Option<u32>, pub document_changes: Option<DocumentChanges>, pub change_annotations: Option<u32> }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct CodeActionKind { pub k: u32 }
impl CodeActionKind { pub const EMPTY: CodeActionKind = CodeActionKind { k: 0 }; pub const QUICKFIX: CodeActionKind = CodeActionKind { k: 1 }; }
pub struct Command { pub title: String, pub command: String, pub arguments: Option<u32> }
impl Command { pub fn new(title: String, command: String, arguments: Option<u32>) -> (r: Command) ensures r.title == title, r.command == command { Command { title, command, arguments } } }
pub struct CodeAction { pub title: String, pub kind: Option<CodeActionKind>, pub edit: Option<WorkspaceEdit>, pub command: Option<Command>, pub is_preferred: Option<bool> }
impl CodeAction {
    pub fn default() -> (r: CodeAction) ensures r.title@.len() == 0, r.kind is None, r.edit is None, r.command is None, r.is_preferred is None
    { CodeAction { title: String::new(), kind: None, edit: None, command: None, is_preferred: None } }
}
pub enum CodeActionOrCommand { Command(Command), CodeAction(CodeAction) }
