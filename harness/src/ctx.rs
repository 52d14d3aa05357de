use crate::gen::{Pt, DefKind};
use jinja_lsp::channels::diagnostics::DiagnosticMessage;
use jinja_lsp::lsp_files::LspFiles;
use jinja_lsp_queries::search::{objects::CompletionType, Identifier, IdentifierType};
use jinja_lsp_queries::tree_builder::{JinjaDiagnostic, LangType};
use serde_json::{json, Value};
use std::path::PathBuf;
use tower_lsp::lsp_types::*;
use tree_sitter::{Node, Point, Tree};

pub struct Info { pub nontrivial: bool, pub sample: Value }
#[derive(Debug)]
pub struct Fail { pub what: String, pub input: Value }
pub type Res = Result<Info, Fail>;
pub fn ok(nontrivial: bool, sample: Value) -> Res { Ok(Info { nontrivial, sample }) }
pub fn fail<T>(what: String, input: &Value) -> Result<T, Fail> { Err(Fail { what, input: input.clone() }) }
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T, input: &Value) -> Result<(), Fail> {
    if got == want { Ok(()) } else { fail(format!("{what}: got {got:?}, expected {want:?}"), input) }
}

pub struct Ctx { pub l: LspFiles, pub dir: PathBuf, pub py: Option<LspFiles>, pub node: Option<crate::node::NodeProc>, pub node_dir: Option<String>, pub rt: tokio::runtime::Handle, pub tier: String }

pub const TEMPLATES: [&str; 8] = ["base.html", "a/b.html", "c.jinja", "x y.html", "deep/er/one.j2", "q.html", ".hidden/x.html", "a/.dot.html"];

impl Ctx {
    pub fn reset(&mut self) {
        self.l.verif_reset();
        self.l.config.templates = self.dir.join("t");
    }
    pub fn python(&mut self) -> &mut LspFiles {
        if self.py.is_none() {
            let mut l = LspFiles::default();
            l.parsers.update_backend("python");
            l.queries.update_backend("python");
            self.py = Some(l);
        }
        let dir = self.dir.join("t");
        let l = self.py.as_mut().unwrap();
        l.verif_reset();
        l.config.templates = dir;
        l
    }
}
pub fn url(s: &str) -> Url { Url::parse(s).unwrap() }
pub fn open(l: &mut LspFiles, uri: &str, text: &str) -> Option<Vec<(JinjaDiagnostic, Identifier)>> {
    let p = DidOpenTextDocumentParams { text_document: TextDocumentItem::new(url(uri), "".into(), 0, text.into()) };
    diags(l.did_open(p, false), url(uri).as_str())
}
pub fn diags(m: Option<DiagnosticMessage>, uri: &str) -> Option<Vec<(JinjaDiagnostic, Identifier)>> {
    match m? { DiagnosticMessage::Errors(mut m) => m.remove(uri), _ => None }
}
pub fn save(l: &mut LspFiles, uri: &str) -> Option<Vec<(JinjaDiagnostic, Identifier)>> {
    let m = l.did_save(DidSaveTextDocumentParams { text_document: TextDocumentIdentifier::new(url(uri)), text: None });
    diags(m, url(uri).as_str())
}
pub fn change(l: &mut LspFiles, uri: &str, changes: Vec<(Option<Range>, String)>) {
    l.did_change(DidChangeTextDocumentParams {
        text_document: VersionedTextDocumentIdentifier::new(url(uri), 1),
        content_changes: changes.into_iter().map(|(range, text)| TextDocumentContentChangeEvent { range, range_length: None, text }).collect(),
    });
}
pub fn tdp(uri: &str, p: Position) -> TextDocumentPositionParams { TextDocumentPositionParams::new(TextDocumentIdentifier::new(url(uri)), p) }
pub fn complete(l: &LspFiles, uri: &str, p: Position) -> Option<(CompletionType, bool)> {
    l.completion(CompletionParams {
        text_document_position: tdp(uri, p), work_done_progress_params: Default::default(), partial_result_params: Default::default(),
        context: Some(CompletionContext { trigger_kind: CompletionTriggerKind::INVOKED, trigger_character: None }),
    })
}
pub fn hover(l: &LspFiles, uri: &str, p: Position) -> Option<(Identifier, CompletionType)> {
    l.hover(HoverParams { text_document_position_params: tdp(uri, p), work_done_progress_params: Default::default() })
}
pub fn goto(l: &LspFiles, uri: &str, p: Position) -> Option<GotoDefinitionResponse> {
    l.goto_definition(GotoDefinitionParams { text_document_position_params: tdp(uri, p), work_done_progress_params: Default::default(), partial_result_params: Default::default() })
}
pub fn symbols(l: &LspFiles, uri: &str) -> Option<Vec<DocumentSymbol>> {
    match l.document_symbols(DocumentSymbolParams { text_document: TextDocumentIdentifier::new(url(uri)), work_done_progress_params: Default::default(), partial_result_params: Default::default() })? {
        DocumentSymbolResponse::Nested(v) => Some(v), _ => None }
}
pub fn action_params(uri: &str, p: Position) -> CodeActionParams {
    CodeActionParams { text_document: TextDocumentIdentifier::new(url(uri)), range: Range::new(p, p), context: Default::default(), work_done_progress_params: Default::default(), partial_result_params: Default::default() }
}
pub fn pos(p: Pt) -> Position { Position::new(p.row as u32, p.col as u32) }
pub fn rng(a: Pt, b: Pt) -> Range { Range::new(pos(a), pos(b)) }
pub fn pt(p: Point) -> Pt { Pt { row: p.row, col: p.column } }
pub fn kind_of(k: DefKind) -> IdentifierType {
    match k {
        DefKind::ForKey => IdentifierType::ForLoopKey, DefKind::ForValue => IdentifierType::ForLoopValue, DefKind::Set => IdentifierType::SetVariable,
        DefKind::With => IdentifierType::WithVariable, DefKind::MacroName => IdentifierType::MacroName, DefKind::MacroParam => IdentifierType::MacroParameter,
        DefKind::Block => IdentifierType::TemplateBlock,
    }
}
pub fn detail_of(k: DefKind) -> &'static str {
    match k {
        DefKind::ForKey => "For loop key", DefKind::ForValue => "For loop value", DefKind::Set => "Set variable", DefKind::With => "With variable",
        DefKind::MacroName => "Macro", DefKind::MacroParam => "Macro parameter", DefKind::Block => "Template block",
    }
}
pub fn ckind_of(k: DefKind) -> CompletionItemKind {
    match k {
        DefKind::ForKey | DefKind::ForValue | DefKind::Set | DefKind::With => CompletionItemKind::VARIABLE,
        DefKind::MacroName => CompletionItemKind::FUNCTION, DefKind::MacroParam => CompletionItemKind::FIELD, DefKind::Block => CompletionItemKind::MODULE,
    }
}
pub fn skind_of(k: DefKind) -> SymbolKind {
    match k {
        DefKind::ForKey | DefKind::ForValue | DefKind::Set | DefKind::With => SymbolKind::VARIABLE,
        DefKind::MacroName => SymbolKind::FUNCTION, DefKind::MacroParam => SymbolKind::FIELD, DefKind::Block => SymbolKind::MODULE,
    }
}
pub fn dump(t: &Tree) -> String {
    fn go(n: Node, o: &mut String) {
        o.push_str(&format!("({} {} {} {:?} {:?} {}", n.kind(), n.start_byte(), n.end_byte(), n.start_position(), n.end_position(), n.is_missing()));
        let mut c = n.walk();
        for ch in n.children(&mut c) { go(ch, o); }
        o.push(')');
    }
    let mut o = String::new();
    go(t.root_node(), &mut o);
    o
}
pub fn tree(l: &LspFiles, lang: LangType, uri: &str) -> Option<String> { l.verif_tree(lang, url(uri).as_str()).map(|t| dump(&t)) }
pub fn idj(i: &Identifier) -> Value { json!([i.name, i.start.row, i.start.column, i.end.row, i.end.column, format!("{:?}", i.identifier_type), i.scope_ends.1.row, i.scope_ends.1.column]) }
