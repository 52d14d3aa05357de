#!/usr/bin/env python3
# writes /verif/properties.jsonl (single source for ids, titles, statements, anchors)
import json,os
Q='jinja-lsp-queries/src/'; S=Q+'search/'; L='jinja-lsp/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=hook)))
p('C01','Document text stays identical to the client\'s text',
 "After a document is opened, every change notification leaves the text the server analyses exactly equal to the text the client has, whatever ranged or whole-document changes the notification carries and in whatever number. Positions are a line (ended by LF, CR LF or CR) and an offset in UTF-16 code units; a position past the end of its line means the end of that line and a line past the end means the end of the document.",
 ['inputs','histories'],'all documents (any Unicode text), all sequences of notifications, all lists of changes in one notification, all start/end positions including out-of-range and reversed ones',
 'No existing test sends a change notification; the property quantifies over all texts, positions and edit histories.',
 [Q+'to_input_edit.rs',L+'lsp_files.rs'],[('position to char/byte conversion',Q+'to_input_edit.rs ToInputEdit for Rope'),('did_change applies each change to the stored text',L+'lsp_files.rs LspFiles::did_change'),('did_open stores the text',L+'lsp_files.rs LspFiles::did_open')],
 [('documents','text of every known document',L+'lsp_files.rs LspFiles.documents')],['text used by the next request'],'cfg(jinja_verif): LspFiles::verif_text')
p('C02','Analysis after any history equals a fresh analysis of the text',
 "After any sequence of opening, re-opening and changing documents, the syntax tree the server works on for a document equals the one a fresh server gets by opening that document with its current text. Once a syntactically valid document was opened or saved, its symbols, diagnostics, hover and completion therefore depend only on its current text, not on how it was reached.",
 ['inputs','histories'],'all texts and all open/re-open/change/save histories, for template and backend documents',
 'Tests parse every text once with a new parser; none re-opens or edits a document.',
 [L+'lsp_files.rs',Q+'parsers.rs'],[('tree replaced on open',L+'lsp_files.rs LspFiles::add_tree'),('tree replaced on change',L+'lsp_files.rs LspFiles::did_change'),('parser per language',Q+'parsers.rs Parsers::parse'),('variables recomputed on open and save',L+'lsp_files.rs LspFiles::add_variables, did_save')],
 [('trees','tree of every known document',L+'lsp_files.rs LspFiles.trees'),('variables','definitions of every known document',L+'lsp_files.rs LspFiles.variables')],['answers of all requests'],'cfg(jinja_verif): LspFiles::verif_tree')
p('C03','Undefined-variable diagnostics are exactly the unresolved references',
 "In a syntactically valid template every variable reference is reported if and only if no variable of that name defined in the same file is visible there (its definition does not start after the reference, and its scope ends after the reference starts). The report is a warning, except that it is the informational 'defined in other file' when this file defines no variable of that name but some known file does. Filter names, test names and attribute names are never reported, and nothing is reported when undefined variables are hidden.",
 ['inputs','configurations'],'all well-formed templates built of set/for/with/macro/block/if and expressions of dotted names, literals, filters and tests; all sets of other known files; hide_undefined on and off',
 'The existing tests only count identifiers and definitions of fixed snippets; none calls the diagnostics function at all.',
 [Q+'lsp_helper.rs',S+'objects.rs',S+'definition.rs',L+'lsp_files.rs'],[('classification of each reference',Q+'lsp_helper.rs search_errors'),('filters and tests are marked',S+'objects.rs JinjaObjects::build_object'),('table of definitions per file',L+'lsp_files.rs LspFiles::add_variables, read_tree')],
 [('variables','definitions per file',L+'lsp_files.rs LspFiles.variables')],['diagnostics of did_open/did_save'])
p('C04','Missing-template diagnostics are exactly the unresolvable references',
 "Every template named by extends, include, import or from in a template file, or by a template-loading call in a backend file, is reported as 'Template not found' exactly when its name is empty (in a template) or no file system entry exists at that name below the templates directory. Each is reported once, at the range of the quoted name, and names that do exist are never reported.",
 ['inputs','configurations'],'all template names, all contents of the templates directory, template and backend files',
 'No test touches the file system or asks for these diagnostics.',
 [Q+'lsp_helper.rs',S+'templates.rs',S+'rust_template_completion.rs'],[('existence check',Q+'lsp_helper.rs search_errors, path_items'),('references of a file',S+'templates.rs templates_query')],[],['diagnostics of did_open/did_save'])
p('C05','A definition is visible exactly until its enclosing block ends',
 "Every variable introduced by for, set, with, macro or block in a well-formed template is recorded exactly once, in document order, with its name, range and kind. Loop, with and macro-parameter variables and block names stay visible up to the start of the end tag of their own block; set variables and macro names up to the start of the end tag of the innermost block around them; anything at top level up to the end of the document.",
 ['inputs'],'all well-formed templates of set/for/with/macro/block/if/filter/autoescape blocks at any nesting depth',
 'One test checks a single scope end in one snippet; nesting is unbounded.',
 [S+'definition.rs',S+'queries.rs'],[('scope stack',S+'definition.rs JinjaDefinitions::check'),('scope ends resolved',S+'definition.rs JinjaDefinitions::fix_end'),('flattening and kinds',S+'definition.rs Definition::collect')],
 [('current_scope','open blocks, innermost first',S+'definition.rs JinjaDefinitions.current_scope'),('all_scopes','closed blocks',S+'definition.rs JinjaDefinitions.all_scopes')],['definitions of a document'])
p('C06','Variable completion offers exactly the visible names',
 "Variable completion at a position offers, from the same document, every non-block name whose definition ends at or before the position and whose scope ends at or after it, each name once and only if it starts with the typed prefix, followed by every variable declared by backend files. Each item carries the kind of its definition, and when a prefix was typed the item's edit replaces exactly the range of the typed name.",
 ['inputs','configurations'],'all definition tables of all known files, all positions, all prefixes, both client kinds',
 'No test calls variable completion.',
 [L+'lsp_files.rs',S+'mod.rs'],[('filter, dedupe and edits',L+'lsp_files.rs LspFiles::read_variables'),('kind tables',S+'mod.rs IdentifierType::completion_detail, completion_kind')],[],['completion response'])
p('C07','Hover and go-to-definition resolve to the right definition',
 "Hover on an identifier of a template returns that identifier, marked as filter, test or variable, and for a variable the kind of the innermost-latest visible same-named definition of the same file, or 'backend variable' when only another file defines the name. Go-to-definition on it returns the range of the latest same-named definition (blocks included) visible there, or, if the file has none, exactly the definitions of that (first component) name in the other files; on a template name it returns the file of that name in the templates directory.",
 ['inputs','histories'],'all definition tables, all positions',
 'No test calls hover or goto definition.',
 [L+'lsp_files.rs',S+'objects.rs'],[('data_type',L+'lsp_files.rs LspFiles::data_type'),('goto_definition',L+'lsp_files.rs LspFiles::goto_definition'),('hover',L+'lsp_files.rs LspFiles::hover'),('identifier under cursor',S+'objects.rs JinjaObjects::is_hover, is_ident, objects_query')],[],['hover and definition responses'])
p('C08','Completion kind and typed prefix match the cursor context',
 "In a well-formed template, completion right after a pipe offers filters, right after 'is' in a statement offers tests, inside an output expression offers variables, and in plain text offers nothing. When the cursor is inside or right after the first component of a dotted name in an output expression, the reported prefix is exactly the part of that component before the cursor and the reported range covers exactly the dotted name.",
 ['inputs'],'all well-formed templates and all cursor positions in them',
 'The test samples about twenty positions of one document.',
 [S+'objects.rs',S+'mod.rs',L+'lsp_files.rs'],[('context decision',S+'objects.rs JinjaObjects::completion, in_pipe, in_expr, is_ident, is_test'),('prefix',S+'mod.rs completion_start'),('dispatch',L+'lsp_files.rs LspFiles::completion')],[],['completion response'])
p('C09','Every template reference is found with its exact name and range',
 "For every extends, include (single or list), import and from-import of a well-formed template, and for every string argument of a template-loading call in a backend file, the server records the referenced name without its quotes and with the exact range of the quoted string, once each, and records nothing else. The reference under a cursor is the one whose range contains the cursor.",
 ['inputs'],'all well-formed templates and backend files with any number of references',
 'Tests check six positions of one snippet and one count.',
 [S+'templates.rs',S+'rust_template_completion.rs'],[('collecting references',S+'templates.rs JinjaImports::check, collect'),('reference under cursor',S+'templates.rs Import::get_identifier, JinjaImports::in_template'),('backend references',S+'rust_template_completion.rs BackendTemplates::check, in_template')],[],['diagnostics, completion, goto'])
p('C10','Create-template action targets the missing template and overwrites nothing',
 "A code action to create a template is offered exactly when the requested position lies in the range of a reference currently reported as not found in that document. Accepting it creates the file with that name below the templates directory, never overwriting an existing file.",
 ['inputs','configurations'],'all positions, all sets of reported references, all template names without parent-directory segments',
 'No test requests a code action.',
 [L+'lsp_files.rs',L+'channels/diagnostics.rs'],[('choice of action',L+'lsp_files.rs LspFiles::code_action'),('file operation',L+'lsp_files.rs LspFiles::process_code_actions'),('reported references kept',L+'lsp_files.rs LspFiles::add_code_actions')],[('code_actions','references reported as not found',L+'lsp_files.rs LspFiles.code_actions')],['code action response'])
p('C11','Work on one document leaves every other document untouched',
 "Opening, changing, saving or querying one document never changes the text, tree, definitions or recorded missing templates of another document. Deleting by id removes everything known about the documents whose URI contains the id and nothing about any other.",
 ['histories'],'all histories over any number of documents',
 'Tests never hold two documents.',
 [L+'lsp_files.rs'],[('per-document updates',L+'lsp_files.rs LspFiles::add_tree, add_variables, delete_variables, add_code_actions'),('deletion',L+'lsp_files.rs LspFiles::delete_documents_with_id')],[('documents/trees/variables/code_actions','maps keyed by URI',L+'lsp_files.rs LspFiles')],['all requests on other documents'],'cfg(jinja_verif): LspFiles::verif_text, verif_tree, verif_uris')
p('C12','Document symbols list each definition once, in order',
 "The symbols of a document are exactly its recorded definitions, in the same order, one each, with the definition's name, the symbol kind of its definition kind, and its range as both range and selection range.",
 ['inputs'],'all definition tables',
 'No test asks for document symbols.',
 [L+'lsp_files.rs',S+'mod.rs'],[('mapping',L+'lsp_files.rs LspFiles::document_symbols'),('kinds',S+'mod.rs IdentifierType::symbol_kind'),('ranges',S+'mod.rs to_range')],[],['documentSymbol response'])
p('C13','No request can crash the server',
 "No sequence of open, change, save, completion, hover, definition, code-action and symbol requests, on any text and with any position including ones outside the document, makes the server panic.",
 ['inputs','histories'],'all texts (any Unicode, malformed templates), all positions in 0..2^31, all histories',
 'Tests only use valid positions of fixed snippets.',
 [L+'lsp_files.rs',S+'objects.rs',S+'mod.rs',Q+'to_input_edit.rs'],[('arithmetic on columns',S+'mod.rs completion_start'),('indexing',S+'objects.rs objects_query'),('position conversion',Q+'to_input_edit.rs')],[],['server stays alive'])
p('C14','Node bindings translate lines by the document\'s offset',
 "For a document embedded at a line offset, the Node bindings report every position moved down by exactly that offset and answer a request at an outer line as the inner line minus the offset, columns unchanged; a position above the document yields no answer. Link hints are reported for exactly the dotted names equal to a registered action.",
 ['inputs'],'all embedded documents, offsets and positions',
 'The bindings have no tests.',
 ['jinja-lsp-nodejs/src/lib.rs'],[('translation','jinja-lsp-nodejs/src/lib.rs NodejsLspFiles::get_variables, hover, goto_definition, add_one'),('comparison','jinja-lsp-nodejs/src/lib.rs ActionObject::compare')],[],['values returned to JavaScript'])
p('C15','File extension alone decides how a file is treated',
 "A path whose extension is html, jinja or j2 is treated as template, one whose extension is rs or py as backend file, and any other path, including one without extension, is ignored; neither the directory nor the rest of the name matters.",
 ['inputs'],'all paths and URIs',
 'No test covers the classification.',
 [L+'config.rs'],[('classification',L+'config.rs JinjaConfig::file_ext')],[],['which documents get answers'])
p('C16','Python attribute chains are merged into dotted names',
 "For a Python document each attribute chain is reported once as the dotted join of its identifiers, in order, starting at the chain's start and ending at its last identifier's end, with the line offset added to both rows.",
 ['inputs'],'all chains, offsets',
 'The test only counts the results of one snippet.',
 [S+'python_identifiers.rs'],[('merge',S+'python_identifiers.rs PythonAttributes::merge'),('grouping',S+'python_identifiers.rs python_identifiers')],[],['Node bindings link hints'])
p('C17','Backend variables are collected with exact names',
 "Every variable declared in a backend file by a context macro, an environment registration call or a render keyword argument is recorded as backend variable with its name without quotes and its exact range, in document order; nothing else is recorded as backend variable.",
 ['inputs'],'all backend files built of the supported declarations',
 'Two tests count the variables of one snippet each.',
 [S+'rust_identifiers.rs',S+'queries.rs'],[('collecting',S+'rust_identifiers.rs BackendIdentifiers::check')],[],['variable completion, definition'])
p('C18','Template completion offers templates under their relative names',
 "Template-name completion offers exactly the known template files below the templates directory whose URI contains the typed text, each once, labelled with its path relative to the templates directory, and the edit replaces the range of the quoted name by the quoted label.",
 ['inputs','configurations'],'all sets of known templates, all templates directories, all prefixes',
 'No test calls template completion.',
 [L+'lsp_files.rs'],[('labels and edits',L+'lsp_files.rs LspFiles::read_templates')],[],['completion response'])
p('C19','Published diagnostics carry the range, severity and text of the problem',
 "Every problem found in a document is published once as a diagnostic with exactly the problem's range, source 'jinja-lsp', and the severity and message of its kind: warning 'Undefined variable', information 'Variable is defined in other file.', warning 'Template not found'. The references remembered for code actions are exactly the 'Template not found' ones.",
 ['inputs'],'all lists of problems',
 'No test converts or publishes a diagnostic.',
 [Q+'lsp_helper.rs',Q+'tree_builder.rs',L+'channels/diagnostics.rs'],[('conversion',Q+'lsp_helper.rs create_diagnostic'),('severity and message',Q+'tree_builder.rs JinjaDiagnostic'),('publishing',L+'channels/diagnostics.rs diagnostics_task')],[],['publishDiagnostics'])
p('C20','Every request is eventually answered',
 "Every request sent to the server gets exactly one response (null where there is nothing to answer), in whatever order requests, notifications and background diagnostics interleave and however many are sent without waiting; each request and notification reaches the server task once and unchanged, and the response is what the task answers to it.",
 ['schedules','histories'],'all interleavings of the message loop, the diagnostics task and delayed saves',
 'Tests never start the server.',
 [L+'backend.rs',L+'channels/lsp.rs'],[('oneshot reply channels',L+'backend.rs'),('message loop',L+'channels/lsp.rs lsp_task')],[],['JSON-RPC responses'])
p('C21','The configuration comes from the client, else from a configuration file',
 "The server works with the configuration in the client's initialization options; without one, or with one that is not a configuration, with the section jinja-lsp of the first of pyproject.toml, Cargo.toml and jinja-lsp.toml in the working directory that has a valid one. A configuration sent later with workspace/didChangeConfiguration replaces it and the directories are read again with it; one that is not a configuration replaces nothing. The templates and backend directories that are read, the backend language and whether undefined variables are reported (hide_undefined) follow the configuration in effect; with an unsupported language nothing is read. The client is told of every ability the server has, with changes by ranges.",
 ['inputs','configurations','histories'],'all initialization options, all contents of the configuration files, all sequences of configuration changes and resets',
 'Tests construct the analysis directly; none starts the server or reads a configuration.',
 [L+'config.rs',L+'channels/lsp.rs'],[('order of the sources',L+'channels/lsp.rs lsp_task, LspMessage::Initialize'),('configuration files',L+'config.rs search_config'),('reading the directories',L+'config.rs walkdir'),('later changes',L+'channels/lsp.rs lsp_task, LspMessage::DidChangeConfiguration')],[],['publishDiagnostics','initialize response'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
