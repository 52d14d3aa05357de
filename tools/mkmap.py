#!/usr/bin/env python3
"""writes spec/map.json: which contracted functions and which bounded cases decide which property"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TS = 'tree-sitter: parsing is a function of the text (given no old tree) and queries/captures are taken as given; the grammars and the .scm query texts are not verified (their effect is covered by the bounded cases only)'
STD = 'std, ropey and url operations have assumed contracts (listed in trusted_base), usize is 64 bits, allocation does not fail'
VX = 'the extractor (extract/) rewrites surface Rust the verifier does not accept (iterator chains to loops, string matches to comparisons, stubs for lsp_types); each rewrite is syntactic, counted in extraction_rewrites and described in DESIGN.md'
RS = 'regions the extraction drops: derives, attributes, doc comments, logging; of the asynchronous tasks the arms that handle one message each are extracted, with channels and the client as logs and `.await` dropped: scheduling is not modelled, and the loop around the arms and the construction of the tasks (Backend::_new, initialize_again) are covered by whole-server sessions only'
M = {}
def p(id, level, functions, what, rule, trusted=(), assumptions=(), **kw):
    M[id] = dict(level=level, functions=functions, bounded_what=what, rule=rule, trusted=[TS, STD, VX] + list(trusted), assumptions=[RS] + list(assumptions), **kw)
LINK = 'the theorems that connect functions of different units take the result of a query function as a function of its arguments, described by its contract (axioms ax_*, each the contract discharged in the unit named there)'
T = 'seeded random {}; every case is compared with an oracle computed from how it was generated; non-trivial: {}; distinct cases counted by hash of the whole case'
LSP = ['to_point', 'to_range', 'to_range2']
STORE = ['LspFiles::did_open', 'LspFiles::did_close', 'LspFiles::keep_opened', 'LspFiles::did_change', 'LspFiles::add_tree', 'LspFiles::add_variables', 'LspFiles::delete_variables', 'Parsers::parse', 'JinjaConfig::file_ext']
TEXT = ['advance', '<ToInputEdit for Rope>::to_char', '<ToInputEdit for Rope>::to_byte', '<ToInputEdit for Rope>::to_point']
OBJ = ['JinjaObject::new', 'JinjaObject::add_field', 'JinjaObject::last_field_end', 'JinjaObject::full_range', 'JinjaObjects::in_pipe', 'JinjaObjects::in_expr', 'JinjaObjects::should_autoclose', 'JinjaObjects::is_ident', 'JinjaObjects::is_hover',
       'JinjaObjects::is_filter', 'JinjaObjects::get_last_id', 'JinjaObjects::show', 'JinjaObjects::full_range', 'JinjaObjects::is_test', '<From<&JinjaObject> for Identifier>::from', 'JinjaObjects::completion', 'completion_start']
HELP = ['path_items', 'search_errors']
IMP = ['Import::get_identifier', 'Import::collect', 'JinjaImports::in_template', 'JinjaImports::collect']
ASK = ['LspFiles::' + n for n in ['data_type', 'code_action', 'process_code_actions', 'hover', 'read_objects', 'goto_definition', 'completion', 'read_variables', 'read_templates']] + ['Snippets::to_complete']
DEFS = ['Definition::collect', '<From<&str> for Definition>::from', 'Scope::new', 'JinjaDefinitions::check', 'JinjaDefinitions::identifiers', 'JinjaDefinitions::fix_end', 'definition_query']
IMPQ = ['JinjaImports::check', 'templates_query']
MISC = ['METHODS', 'BackendTemplates::check', 'backend_templates_query', 'Snippets::check', 'snippets_query']
OBJQ = ['VALID_IDENTIFIERS', 'JinjaObjects::check', 'JinjaObjects::build_object', 'objects_query']
PY = ['PythonAttributes::merge', 'python_identifiers']
DIAG = ['create_diagnostic', 'JinjaDiagnostic::severity', '<Display for JinjaDiagnostic>::fmt', 'to_range']
NODE = ['<From<Point> for JsPosition>::from', '<From<&Position> for JsPosition>::from', '<From<&Identifier> for JsIdentifier>::from', '<From<&IdentifierType> for JsIdentifierType>::from', '<From<&Range> for JsRange>::from', '<From<&Location> for JsLocation>::from',
        '<From<&Action> for ActionObject>::from', '<From<&PythonIdentifier> for ActionObject>::from', '<From<&JinjaObject> for ActionObject>::from', 'ActionObject::compare', 'LspFiles::read_python_ids', 'LspFiles::get_variable'] + ['NodejsLspFiles::' + n for n in ['new', 'get_variables', 'remove_temp_link_hint', 'add_link_hints', 'save_link_hint', 'delete_all', 'hover', 'goto_definition', 'add_one', 'complete']]
FRESH = ['Parsers::update_backend', '<Default for Parsers>::default', 'Queries::update_backend', '<Default for LspFiles>::default']
INIT = ['LspFiles::read_file', 'LspFiles::read_trees', 'walkdir']
ARMS = ['lsp_completion', 'lsp_hover', 'lsp_goto', 'lsp_symbols', 'lsp_action', 'lsp_save', 'lsp_open', 'lsp_change', 'lsp_close', 'lsp_read', 'lsp_remember', 'publish']
BV = ['BackendIdentifiers::show', 'BackendIdentifiers::check', 'backend_definition_query']
p('C01', 'proof', {'servu': ['lsp_open', 'lsp_change', 'lsp_close', 'lsp_read'], 'text': TEXT, 'files': ['LspFiles::did_open', 'LspFiles::did_change', 'LspFiles::did_close', 'LspFiles::keep_opened', 'LspFiles::add_tree', 'LspFiles::add_variables', 'LspFiles::delete_variables', 'FileContent::default']},
  'whole edit histories against a UTF-16 client model', T.format('edit histories (open, ranged and whole changes, saves) over texts with all line endings and non-BMP characters', 'the text is not empty'))
p('C02', 'proof', {'initu': FRESH + INIT, 'servu': ['lsp_open', 'lsp_change', 'lsp_save', 'lsp_read'], 'files': STORE + ['LspFiles::read_tree'], 'requests': ['LspFiles::did_save']}, 'histories against a fresh server', T.format('histories of open, change and save on template and backend documents', 'more than two events'))
p('C03', 'proof', {'linkd': [], 'defs': DEFS, 'objq': OBJQ, 'helper': HELP, 'objs': ['JinjaObject::new', 'JinjaObject::add_field', 'JinjaObjects::is_filter', 'JinjaObjects::show', '<From<&JinjaObject> for Identifier>::from'], 'files': ['LspFiles::read_tree']}, 'diagnostics of generated templates', T.format('well-formed templates with other known files', 'at least one undefined and one defined reference'), assumptions=[LINK, 'C03: the definitions captured in a well-formed template have the shape `Doc` of spec/scopes.vt; captured identifiers and operators have a text, no operator | stands at the very beginning; the entry of the document is the one its analysis left (contract of LspFiles::add_variables)'])
p('C04', 'proof', {'linkt': [], 'linkb': [], 'initu': ['LspFiles::read_trees', 'walkdir'], 'impq': IMPQ, 'misc': MISC[:3], 'helper': HELP, 'imports_u': IMP, 'files': ['LspFiles::read_tree']}, 'missing templates of generated files', T.format('templates and backend files with existing, missing, nested and empty names', 'at least one missing and one existing name'), assumptions=[LINK, 'C04: the captures of a well-formed template (backend file) have the shape `IStmt` of spec/refs.vt (`BCall` of spec/calls.vt); file system lookups (canonicalize) and path joining are assumed contracts'])
p('C05', 'proof', {'defs': DEFS}, 'definitions of generated templates', T.format('well-formed nested templates', 'at least two definitions'), assumptions=['C05: the captures of a well-formed template have the shape `Doc` of spec/scopes.vt (opening tag, body, end tag; each keyword node reported once, node ids distinct and not 0): that depends on the grammar and the query text and is covered by the bounded cases only; a captured definition keyword lies on character boundaries of the text'])
p('C06', 'proof', {'servu': ['lsp_completion'], 'ask': ['LspFiles::read_variables'], 'core': ['IdentifierType::completion_kind', 'IdentifierType::completion_detail']}, 'variable completion', T.format('well-formed templates, positions and prefixes', 'at least one name offered'))
p('C07', 'proof', {'linkq': [], 'linkb': [], 'servu': ['lsp_hover', 'lsp_goto'], 'objq': OBJQ, 'ask': ['LspFiles::hover', 'LspFiles::goto_definition', 'LspFiles::data_type'], 'objs': ['JinjaObjects::is_hover', 'JinjaObjects::get_last_id', 'JinjaObjects::is_filter', 'JinjaObjects::is_ident', 'JinjaObject::full_range', 'JinjaObjects::full_range']}, 'hover and go-to-definition', T.format('well-formed templates and positions', 'at least one definition found'), assumptions=[LINK, 'C07: the captures of a template without syntax errors come in reading order, shapes `Doc` and `IStmt`; no identifier is captured inside a quoted template name, and none at the very beginning of a template'])
p('C08', 'proof', {'servu': ['lsp_completion'], 'objq': OBJQ, 'misc': MISC[3:], 'objs': OBJ, 'ask': ['LspFiles::completion', 'Snippets::to_complete']}, 'completion kind, prefix and range', T.format('well-formed templates and cursor positions', 'at least three contexts'))
p('C09', 'proof', {'linkq': [], 'linkb': [], 'impq': IMPQ, 'misc': MISC[:3], 'imports_u': IMP, 'ask': ['LspFiles::goto_definition', 'LspFiles::completion']}, 'template references', T.format('templates and backend files with references', 'at least one reference'), assumptions=[LINK, 'C09: the captures of a well-formed template (backend file) have the shape `IStmt` of spec/refs.vt (`BCall` of spec/calls.vt): keyword, then the quoted names of the statement; that depends on the grammar and the query text and is covered by the bounded cases only'])
p('C10', 'proof', {'servu': ['lsp_action', 'lsp_remember', 'publish'], 'ask': ['LspFiles::code_action', 'LspFiles::process_code_actions'], 'requests': ['LspFiles::add_code_actions'], 'helper': ['path_items']}, 'create-template actions', T.format('templates with missing references, all positions around them', 'at least one missing reference'))
p('C11', 'proof', {'initu': ['LspFiles::read_file'], 'servu': ['lsp_open', 'lsp_change', 'lsp_save', 'lsp_close', 'lsp_read'], 'files': STORE, 'requests': ['LspFiles::did_save', 'LspFiles::delete_documents_with_id', 'LspFiles::add_code_actions']}, 'histories over six documents', T.format('histories over several documents', 'at least two documents opened'))
p('C12', 'proof', {'servu': ['lsp_symbols'], 'requests': ['LspFiles::document_symbols'], 'core': ['IdentifierType::symbol_kind', 'to_range']}, 'document symbols', T.format('well-formed templates', 'at least two definitions'))
p('C13', 'exploration', {'initu': FRESH + INIT, 'servu': ARMS, 'nodeu': NODE, 'impq': IMPQ, 'misc': MISC, 'objq': OBJQ, 'pyids': PY, 'text': TEXT, 'files': STORE + ['LspFiles::read_tree'], 'objs': OBJ, 'bvars': BV, 'defs': DEFS, 'helper': HELP, 'imports_u': IMP, 'requests': ['LspFiles::did_save', 'LspFiles::document_symbols', 'LspFiles::delete_documents_with_id', 'LspFiles::add_code_actions'], 'ask': ASK, 'core': ['create_diagnostic', 'JinjaDiagnostic::severity', '<Display for JinjaDiagnostic>::fmt', 'Identifier::new', 'to_range', 'to_point', 'to_range2']}, 'requests on malformed texts', T.format('malformed texts, histories and positions', 'always'))
p('C14', 'proof', {'nodeu': NODE, 'ask': ['LspFiles::read_objects']}, 'the Node bindings loaded by node', T.format('embedded documents, line offsets and actions', 'at least one request with an offset above zero'), node=True, bounded=dict(workers=4, cases=[1200, 40000], fixed=400), assumptions=['C14: row numbers of an embedded document plus its offset stay below 2^32, file names given to the bindings are urls; the conversion of values between JavaScript and Rust (napi-rs) and the demonstration function basic are not verified'])
p('C15', 'proof', {'initu': FRESH + INIT, 'servu': ['lsp_read'], 'files': ['JinjaConfig::file_ext', 'LspFiles::did_open']}, 'paths and uris', T.format('paths of one to four segments with all kinds of extensions', 'the path is treated as a file of the server'), assumptions=['C15: the canonical path of a file met by a directory walk, and the url of that path, have the extension of the file (kinds_kept in spec/init.vt); the walk itself (walkdir crate) and reading a file are stubs'])
p('C16', 'proof', {'pyids': PY}, 'Python attribute chains', T.format('Python documents', 'at least one chain'), assumptions=['C16: an attribute chain is the sequence of captured identifiers whose parent nodes start where the chain starts; that the query text captures exactly these is covered by the bounded cases only'])
p('C17', 'proof', {'bvars': BV}, 'backend variables', T.format('backend files', 'at least one variable'))
p('C18', 'proof', {'servu': ['lsp_completion'], 'ask': ['LspFiles::read_templates', 'LspFiles::completion']}, 'template completion', T.format('sets of known files and typed texts', 'at least one template offered'))
p('C19', 'proof', {'initu': ['LspFiles::read_trees', 'walkdir'], 'servu': ['publish', 'lsp_save', 'lsp_open', 'lsp_read', 'lsp_remember'], 'core': DIAG, 'requests': ['LspFiles::add_code_actions', 'LspFiles::did_save'], 'files': ['LspFiles::read_tree', 'LspFiles::did_open']}, 'published diagnostics of a whole server', T.format('sessions with a server over JSON-RPC', 'more than one problem'), bounded=dict(workers=4, cases=[3000, 60000], fixed=400))
GATE = ['<LanguageServer for Backend>::' + n for n in ['initialize', 'initialized', 'did_open', 'did_close', 'did_change', 'did_save', 'completion', 'hover', 'goto_definition', 'code_action', 'execute_command', 'document_symbol', 'did_change_configuration', 'shutdown']]
p('C20', 'exploration', {'gateu': GATE, 'startu': ['lsp_init', 'lsp_execute', 'lsp_configure'], 'servu': ARMS}, 'whole servers that get many requests and notifications without anybody waiting', T.format('sequences of requests and notifications of all kinds on known and unknown documents, sent without waiting', 'at least three requests among notifications'), bounded=dict(workers=8, cases=[700, 20000], fixed=80),
  assumptions=['C20: the contracts decide that each request sends exactly one message and returns what is sent into its channel (null if the sending end is dropped), and that each arm of the server task answers at most once; that the tasks get to run, never wait for each other and that tower-lsp answers once per call is liveness of the tokio runtime, covered by the bounded sessions only'])
p('C21', 'proof', {'startu': ['search_config', 'lsp_init', 'lsp_configure', 'lsp_execute'], 'gateu': ['<LanguageServer for Backend>::' + n for n in ['initialize', 'initialized', 'did_change_configuration', 'execute_command']], 'servu': ['lsp_read'], 'initu': FRESH + INIT}, 'configuration files, initialization options and configuration changes of a whole server', T.format('configuration files, initialization options and configuration changes', 'more than one source of configuration'), bounded=dict(workers=8, cases=[1600, 40000], fixed=160),
  assumptions=['C21: deserialization (serde_json, toml) is an uninterpreted function of what is deserialized; a message the server task sends to itself (initialize_again) arrives'])
json.dump(M, open(os.path.join(V, 'spec/map.json'), 'w'), indent=1)
