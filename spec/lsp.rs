// ------------------------------------------------------------------ lsp_types (only the fields the code sets; others via default)
#[derive(Copy, Clone)]
pub struct SymbolKind { pub k: u32 }
impl SymbolKind {
    pub const FILE: SymbolKind = SymbolKind { k: 1 };
    pub const MODULE: SymbolKind = SymbolKind { k: 2 };
    pub const FIELD: SymbolKind = SymbolKind { k: 8 };
    pub const FUNCTION: SymbolKind = SymbolKind { k: 12 };
    pub const VARIABLE: SymbolKind = SymbolKind { k: 13 };
    pub const CONSTANT: SymbolKind = SymbolKind { k: 14 };
}
#[derive(Copy, Clone)]
pub struct CompletionItemKind { pub k: u32 }
impl CompletionItemKind {
    pub const TEXT: CompletionItemKind = CompletionItemKind { k: 1 };
    pub const FUNCTION: CompletionItemKind = CompletionItemKind { k: 3 };
    pub const FIELD: CompletionItemKind = CompletionItemKind { k: 5 };
    pub const VARIABLE: CompletionItemKind = CompletionItemKind { k: 6 };
    pub const MODULE: CompletionItemKind = CompletionItemKind { k: 9 };
    pub const FILE: CompletionItemKind = CompletionItemKind { k: 17 };
    pub const CONSTANT: CompletionItemKind = CompletionItemKind { k: 21 };
}
#[derive(Copy, Clone)]
pub struct DiagnosticSeverity { pub k: u32 }
impl DiagnosticSeverity {
    pub const ERROR: DiagnosticSeverity = DiagnosticSeverity { k: 1 };
    pub const WARNING: DiagnosticSeverity = DiagnosticSeverity { k: 2 };
    pub const INFORMATION: DiagnosticSeverity = DiagnosticSeverity { k: 3 };
    pub const HINT: DiagnosticSeverity = DiagnosticSeverity { k: 4 };
}
pub struct Diagnostic { pub range: Range, pub severity: Option<DiagnosticSeverity>, pub code: Option<u32>, pub source: Option<String>, pub message: String, pub tags: Option<u32> }
impl Diagnostic {
    pub fn default() -> (r: Diagnostic) ensures r.range == r0(), r.severity is None, r.code is None, r.source is None, r.message@.len() == 0, r.tags is None
    { Diagnostic { range: Range::default(), severity: None, code: None, source: None, message: String::new(), tags: None } }
}
pub struct v_std_fmt_Formatter<'a> { pub buf: String, pub p: PhantomData<&'a u8> }
pub struct VFmtError {}
pub type v_std_fmt_Result = Result<(), VFmtError>;
impl<'a> v_std_fmt_Formatter<'a> {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: v_std_fmt_Result) ensures final(self).buf@ == old(self).buf@ + s@ { unimplemented!() }
}
