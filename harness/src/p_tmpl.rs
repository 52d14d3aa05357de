//! C03 C04 C05 C06 C07 C08 C09 C10 C12: properties of well-formed templates
use crate::ctx::*;
use crate::gen::*;
use crate::rng::Rng;
use jinja_lsp_queries::search::{objects::CompletionType, IdentifierType};
use jinja_lsp_queries::tree_builder::{JinjaDiagnostic, LangType};
use serde_json::json;
use tower_lsp::lsp_types::*;

pub const U: &str = "file:///w/main.html";
fn visible_defs<'a>(d: &'a Doc, name: &str) -> Vec<&'a Def> { d.defs.iter().filter(|x| x.name == name && x.kind != DefKind::Block).collect() }

pub fn valid(cx: &Ctx, uri: &str) -> bool { cx.l.verif_tree(LangType::Template, url(uri).as_str()).map(|t| !t.root_node().has_error()).unwrap_or(false) }

/// C03
pub fn c03(cx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 30) { return crate::rpc::rpc(cx, r, "C03"); }
    cx.reset();
    let mut o = Opt::new();
    o.len = 1 + r.b(9);
    // other known files
    let others = r.b(3);
    let mut elsewhere: Vec<String> = vec![];
    let mut texts = vec![];
    for i in 0..others {
        let mut oo = Opt::new();
        oo.len = 3;
        oo.names = vec!["other", "x1", "item", "zed"];
        let d = template(r, oo);
        let u = format!("file:///w/o{i}.html");
        open(&mut cx.l, &u, &d.text);
        texts.push(json!({"uri": u, "text": d.text}));
        if valid(cx, &u) { elsewhere.extend(d.defs.iter().map(|x| x.name.clone())); }
    }
    if r.chance(1, 3) {
        let u = "file:///w/b.rs";
        open(&mut cx.l, u, "fn f() { let c = context!{ user => 1, zed => 2 }; }");
        texts.push(json!({"uri": u}));
        elsewhere.push("user".into());
        elsewhere.push("zed".into());
    }
    let hide = r.chance(1, 12);
    cx.l.ignore_globals = hide;
    o.names.push("zed");
    let d = template(r, o);
    let got = open(&mut cx.l, U, &d.text);
    let input = json!({"text": d.text, "others": texts, "hide_undefined": hide});
    if !valid(cx, U) { return ok(false, json!(null)); }
    let Some(got) = got else { return fail("no diagnostics were computed".into(), &input) };
    let blocks: Vec<(Pt, Pt)> = d.refs.iter().filter(|x| x.kind == RefKind::BlockName).map(|x| (x.start(), x.end())).collect();
    let mut got: Vec<(String, Pt, Pt, String)> = got.iter().filter(|g| g.0 != JinjaDiagnostic::TemplateNotFound)
        .map(|g| (format!("{:?}", g.0), pt(g.1.start), pt(g.1.end), g.1.name.clone()))
        .filter(|g| !blocks.contains(&(g.1, g.2))) // known finding: block names
        .collect();
    let mut want = vec![];
    if !hide {
        for x in d.refs.iter().filter(|x| matches!(x.kind, RefKind::Var | RefKind::DefName)) {
            let defs = visible_defs(&d, x.name());
            if defs.iter().any(|v| v.start <= x.end() && v.scope_end > x.start()) { continue; }
            let kind = if defs.is_empty() && elsewhere.iter().any(|e| e == x.name()) { "DefinedSomewhere" } else { "Undefined" };
            want.push((kind.to_string(), x.start(), x.end(), x.name().to_string()));
        }
    }
    got.sort();
    want.sort();
    same("reported references", &got, &want, &input)?;
    ok(!want.is_empty() && d.defs.len() > 1, input)
}

/// C05 and C12
fn defs_of(cx: &mut Ctx, r: &mut Rng) -> (Doc, serde_json::Value) {
    cx.reset();
    let mut o = Opt::new();
    o.len = 1 + r.b(10);
    o.filter_stmt = true;
    o.max_depth = 2 + r.b(5);
    let d = template(r, o);
    open(&mut cx.l, U, &d.text);
    let input = json!({"text": d.text});
    (d, input)
}
pub fn c05(cx: &mut Ctx, r: &mut Rng) -> Res {
    let (d, input) = defs_of(cx, r);
    if !valid(cx, U) { return ok(false, json!(null)); }
    let Some(v) = cx.l.variables.get(U) else { return fail("no definitions recorded".into(), &input) };
    let got: Vec<_> = v.iter().map(|i| (i.name.clone(), pt(i.start), pt(i.end), format!("{:?}", i.identifier_type), pt(i.scope_ends.1))).collect();
    let want: Vec<_> = d.defs.iter().map(|i| (i.name.clone(), i.start, i.end, format!("{:?}", kind_of(i.kind)), i.scope_end)).collect();
    same("definitions (name, start, end, kind, visible until)", &got, &want, &input)?;
    ok(d.defs.len() > 1, input)
}
pub fn c12(cx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 30) { return crate::rpc::rpc(cx, r, "C12"); }
    if r.chance(1, 3) {
        // any table of definitions
        cx.reset();
        let all = all_kinds();
        let n = r.b(7);
        let mut v = vec![];
        for i in 0..n {
            let (s, e) = (tree_sitter::Point::new(r.b(5), r.b(40)), tree_sitter::Point::new(5 + r.b(5), r.b(40)));
            let mut id = jinja_lsp_queries::search::Identifier::new(&format!("n{}", r.b(i + 2)), s, e);
            id.identifier_type = r.pick(&all).0.clone();
            v.push(id);
        }
        let input = json!({"table": v.iter().map(idj).collect::<Vec<_>>()});
        let want: Vec<_> = v.iter().map(|i| (i.name.clone(), all.iter().find(|k| k.0 == i.identifier_type).unwrap().1, rng(pt(i.start), pt(i.end)), rng(pt(i.start), pt(i.end)))).collect();
        cx.l.variables.insert(U.to_string(), v);
        let Some(s) = symbols(&cx.l, U) else { return fail("no symbols".into(), &input) };
        let got: Vec<_> = s.iter().map(|s| (s.name.clone(), s.kind, s.range, s.selection_range)).collect();
        same("symbols", &got, &want, &input)?;
        return ok(n > 1, input);
    }
    let (d, input) = defs_of(cx, r);
    if !valid(cx, U) { return ok(false, json!(null)); }
    let Some(s) = symbols(&cx.l, U) else { return fail("no symbols".into(), &input) };
    let got: Vec<_> = s.iter().map(|s| (s.name.clone(), s.kind, s.range, s.selection_range)).collect();
    let want: Vec<_> = d.defs.iter().map(|i| (i.name.clone(), skind_of(i.kind), rng(i.start, i.end), rng(i.start, i.end))).collect();
    same("symbols", &got, &want, &input)?;
    if symbols(&cx.l, "file:///w/unknown.html").is_some() { return fail("symbols for an unknown document".into(), &input); }
    ok(d.defs.len() > 1, input)
}
pub fn all_kinds() -> Vec<(IdentifierType, SymbolKind, CompletionItemKind, &'static str)> {
    use IdentifierType::*;
    vec![
        (ForLoopKey, SymbolKind::VARIABLE, CompletionItemKind::VARIABLE, "For loop key"),
        (ForLoopValue, SymbolKind::VARIABLE, CompletionItemKind::VARIABLE, "For loop value"),
        (ForLoopCount, SymbolKind::FIELD, CompletionItemKind::FIELD, "For loop count"),
        (SetVariable, SymbolKind::VARIABLE, CompletionItemKind::VARIABLE, "Set variable"),
        (WithVariable, SymbolKind::VARIABLE, CompletionItemKind::VARIABLE, "With variable"),
        (MacroName, SymbolKind::FUNCTION, CompletionItemKind::FUNCTION, "Macro"),
        (MacroParameter, SymbolKind::FIELD, CompletionItemKind::FIELD, "Macro parameter"),
        (TemplateBlock, SymbolKind::MODULE, CompletionItemKind::MODULE, "Template block"),
        (BackendVariable, SymbolKind::VARIABLE, CompletionItemKind::VARIABLE, "Backend variable"),
        (UndefinedVariable, SymbolKind::CONSTANT, CompletionItemKind::CONSTANT, "Undefined variable"),
        (JinjaTemplate, SymbolKind::FILE, CompletionItemKind::FILE, "Jinja template"),
    ]
}
fn exists(cx: &Ctx, name: &str) -> bool {
    let mut p = cx.dir.join("t");
    for s in name.split('/') { if !s.is_empty() { p = p.join(s); } }
    p.exists()
}
fn some_names(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = TEMPLATES.iter().map(|s| s.to_string()).collect();
    v.extend(["missing.html", "a/missing.html", "no/such/dir.html", "base.html/x.html", "", "é.html", "a", "Base.html", "a//b.html", "no such.html", ".hidden/x.html", ".hidden/y.html", ".gone/x.html", "a/.dot.html", "./base.html", "./none.html", "a/../base.html", "a/../none.html", "/base.html", "/none.html", "a/", "nodir/", "b.html"].map(String::from));
    if r.chance(1, 3) { v.push("x\u{1F600}.html".into()); }
    v
}
/// C04
pub fn c04(cx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 30) { return crate::rpc::rpc(cx, r, "C04"); }
    cx.reset();
    let files = some_names(r);
    match r.b(4) {
        0 => { // backend files
            let py = r.chance(1, 2);
            let (text, refs) = backend_refs(r, py, &files);
            let dir_exists = |cx: &Ctx, n: &str| exists(cx, n);
            let ex: Vec<bool> = refs.iter().map(|x| dir_exists(cx, &x.name)).collect();
            let u = if py { "file:///w/b.py" } else { "file:///w/b.rs" };
            let l = if py { cx.python() } else { &mut cx.l };
            let got = open(l, u, &text);
            let input = json!({"uri": u, "text": text});
            let lang = LangType::Backend;
            if l.verif_tree(lang, u).map(|t| t.root_node().has_error()).unwrap_or(true) { return ok(false, json!(null)); }
            let Some(got) = got else { return fail("no diagnostics were computed".into(), &input) };
            let mut got: Vec<_> = got.iter().map(|g| (format!("{:?}", g.0), g.1.name.clone(), pt(g.1.start), pt(g.1.end))).collect();
            let mut want: Vec<_> = refs.iter().zip(ex).filter(|(_, e)| !*e).map(|(x, _)| ("TemplateNotFound".to_string(), x.name.clone(), x.start, x.end)).collect();
            got.sort();
            want.sort();
            same("missing templates", &got, &want, &input)?;
            ok(!want.is_empty() && want.len() < refs.len(), input)
        }
        k => {
            let mut o = Opt::new();
            o.files = files;
            o.imports = true;
            o.len = 8;
            let d = template(r, o);
            cx.l.ignore_globals = k == 1;
            let got = open(&mut cx.l, U, &d.text);
            let input = json!({"text": d.text, "templates": TEMPLATES});
            if !valid(cx, U) { return ok(false, json!(null)); }
            let Some(got) = got else { return fail("no diagnostics were computed".into(), &input) };
            let mut got: Vec<_> = got.iter().filter(|g| g.0 == JinjaDiagnostic::TemplateNotFound).map(|g| (g.1.name.clone(), pt(g.1.start), pt(g.1.end))).collect();
            let mut want: Vec<_> = d.trefs.iter().filter(|x| x.name.is_empty() || !exists(cx, &x.name)).map(|x| (x.name.clone(), x.start, x.end)).collect();
            got.sort();
            want.sort();
            same("missing templates", &got, &want, &input)?;
            ok(!want.is_empty() && want.len() < d.trefs.len(), input)
        }
    }
}
pub fn backend_refs(r: &mut Rng, py: bool, files: &[String]) -> (String, Vec<TRef>) {
    let mut b = B::new(r, Opt::new());
    let mut refs = vec![];
    b.put(if py { "def f(tmpl):\n" } else { "fn f() {\n" });
    let k = b.r.b(6);
    for i in 0..k {
        b.put(if py { "    " } else { "    let " });
        b.put(&format!("v{i} = "));
        let style = b.r.b(4);
        match style {
            0 => { b.put("tmpl.get_template("); }
            1 => { b.put("render_jinja("); }
            2 => { b.put("get_template("); }
            _ => { b.put(if py { "tmpl.open(" } else { "tmpl.open(" }); }
        }
        let n = b.r.pick(files).clone();
        let q = if py && b.r.chance(1, 2) { "'" } else { "\"" };
        let (s, e) = b.put(&format!("{q}{n}{q}"));
        if style < 3 { refs.push(TRef { name: n, start: s, end: e }); }
        b.put(")");
        b.put(if py { "\n" } else { ";\n" });
    }
    b.put(if py { "    return 1\n" } else { "}\n" });
    (b.finish().text, refs)
}
/// a position in the range of a reference, at a character boundary
fn inside(text: &str, x: &TRef, r: &mut Rng) -> Pt {
    let line = text.split('\n').nth(x.start.row).unwrap_or("");
    let mut c = x.start.col + r.b(x.end.col - x.start.col + 1);
    if r.chance(1, 4) { c = x.start.col; }
    if r.chance(1, 4) { c = x.end.col; }
    while !line.is_char_boundary(c) { c += 1; }
    let c = c.min(x.end.col);
    Pt { row: x.start.row, col: c }
}
/// C09
pub fn c09(cx: &mut Ctx, r: &mut Rng) -> Res {
    cx.reset();
    let files = some_names(r);
    if r.chance(1, 3) {
        let py = r.chance(1, 2);
        let (text, refs) = backend_refs(r, py, &files);
        let u = if py { "file:///w/b.py" } else { "file:///w/b.rs" };
        let l = if py { cx.python() } else { &mut cx.l };
        open(l, u, &text);
        let input = json!({"uri": u, "text": text});
        if l.verif_tree(LangType::Backend, u).map(|t| t.root_node().has_error()).unwrap_or(true) { return ok(false, json!(null)); }
        let got: Vec<_> = l.variables.get(u).cloned().unwrap_or_default().into_iter().filter(|i| i.identifier_type == IdentifierType::JinjaTemplate).map(|g| (g.name.clone(), pt(g.start), pt(g.end))).collect();
        let want: Vec<_> = refs.iter().map(|x| (x.name.clone(), x.start, x.end)).collect();
        same("template references", &got, &want, &input)?;
        for x in refs.iter().filter(|x| x.name.is_ascii()) {
            let p = inside(&text, x, r);
            match complete(l, u, pos(p)) {
                Some((CompletionType::IncludedTemplate { range, .. }, _)) => same("range of the reference under the cursor", &range, &rng(x.start, x.end), &json!({"uri": u, "text": text, "at": pos(p)}))?,
                g => return fail(format!("no reference under the cursor: {g:?}"), &json!({"uri": u, "text": text, "at": pos(p)})),
            }
        }
        return ok(refs.len() > 1, input);
    }
    let mut o = Opt::new();
    o.files = files;
    o.imports = true;
    o.len = 8;
    let d = template(r, o);
    cx.l.config.templates = cx.dir.join("empty"); // nothing exists: every reference is reported
    let got = open(&mut cx.l, U, &d.text);
    let input = json!({"text": d.text});
    if !valid(cx, U) { return ok(false, json!(null)); }
    let Some(got) = got else { return fail("no diagnostics were computed".into(), &input) };
    let mut got: Vec<_> = got.iter().filter(|g| g.0 == JinjaDiagnostic::TemplateNotFound).map(|g| (g.1.name.clone(), pt(g.1.start), pt(g.1.end))).collect();
    let mut want: Vec<_> = d.trefs.iter().map(|x| (x.name.clone(), x.start, x.end)).collect();
    got.sort();
    want.sort();
    same("template references", &got, &want, &input)?;
    for x in d.trefs.iter().filter(|x| x.name.is_ascii()) {
        let p = inside(&d.text, x, r);
        let at = json!({"text": d.text, "at": pos(p)});
        match complete(&cx.l, U, pos(p)) {
            Some((CompletionType::IncludedTemplate { range, .. }, _)) => same("range of the reference under the cursor", &range, &rng(x.start, x.end), &at)?,
            g => return fail(format!("no reference under the cursor: {g:?}"), &at),
        }
    }
    ok(d.trefs.len() > 1, input)
}
/// C06
pub fn c06(cx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 30) { return crate::rpc::rpc(cx, r, "C06"); }
    cx.reset();
    let names = ["us", "user", "users", "u", "item", "é", "a", "page_title", "User", "US", "U", "Item", "É"];
    let all = all_kinds();
    let n = r.b(9);
    let mut tables = vec![];
    let here = "file:///w/main.html";
    for (f, n) in [(here, n), ("file:///w/o.html", r.b(3)), ("file:///w/b.rs", r.b(4)), ("file:///w/c.rs", r.b(3))] {
        let mut v = vec![];
        for _ in 0..n {
            let s = tree_sitter::Point::new(r.b(4), r.b(12));
            let e = tree_sitter::Point::new(s.row, s.column + 1 + r.b(5));
            let mut i = jinja_lsp_queries::search::Identifier::new(*r.pick(&names), s, e);
            i.identifier_type = if f.ends_with("rs") { if r.chance(3, 4) { IdentifierType::BackendVariable } else { IdentifierType::JinjaTemplate } } else { r.pick(&all[..8]).0.clone() };
            i.scope_ends = (r.b(3), tree_sitter::Point::new(s.row + r.b(4), r.b(20)));
            v.push(i);
        }
        cx.l.variables.insert(f.to_string(), v.clone());
        tables.push((f, v));
    }
    cx.l.is_vscode = r.chance(1, 2);
    let p = Pt { row: r.b(6), col: r.b(18) };
    let range = Range::new(Position::new(1, r.b(4) as u32), Position::new(1, 5 + r.b(4) as u32));
    let prefix = if r.chance(1, 2) { None } else { Some(r.pick(&["u", "us", "user", "x", "", "é", "pag", "i", "U", "US", "Us", "É"]).to_string()) };
    let input = json!({"tables": tables.iter().map(|(f, v)| json!([f, v.iter().map(idj).collect::<Vec<_>>()])).collect::<Vec<_>>(), "at": pos(p), "prefix": prefix, "range": range, "vscode": cx.l.is_vscode});
    let Some(got) = cx.l.read_variables(&url(here), pos(p), prefix.clone().map(|x| (x, range)), None) else { return fail("no items".into(), &input) };
    let pre = prefix.clone().unwrap_or_default();
    let mut want: Vec<(String, String, Option<CompletionItemKind>)> = vec![];
    let det = |k: &IdentifierType| all.iter().find(|x| x.0 == *k).unwrap();
    let mut seen = std::collections::HashSet::new();
    for i in &tables[0].1 {
        if matches!(i.identifier_type, IdentifierType::TemplateBlock | IdentifierType::JinjaTemplate) { continue; }
        if pt(i.end) <= p && p <= pt(i.scope_ends.1) && seen.insert(i.name.clone()) && i.name.starts_with(&pre) {
            want.push((i.name.clone(), det(&i.identifier_type).3.to_string(), Some(det(&i.identifier_type).2)));
        }
    }
    let own = want.len();
    let mut back: Vec<(String, String, Option<CompletionItemKind>)> = vec![];
    for (_, v) in &tables { for i in v { if i.identifier_type == IdentifierType::BackendVariable { back.push((i.name.clone(), "Backend variable".into(), Some(CompletionItemKind::VARIABLE))); } } }
    let g: Vec<_> = got.iter().map(|i| (i.label.clone(), i.detail.clone().unwrap_or_default(), i.kind)).collect();
    if g.len() < own { return fail(format!("too few items: {g:?}, expected {want:?}"), &input); }
    same("names of this document", &g[..own].to_vec(), &want, &input)?;
    let mut rest = g[own..].to_vec();
    let key = |x: &(String, String, Option<CompletionItemKind>)| (x.0.clone(), x.1.clone());
    rest.sort_by_key(key);
    back.sort_by_key(key);
    same("names of backend files", &rest, &back, &input)?;
    for i in &got[..own] {
        // applying the item's edits to the range must leave exactly the name
        if pre.is_empty() { continue; }
        let mut edits: Vec<(Range, String)> = vec![];
        match &i.text_edit {
            Some(CompletionTextEdit::Edit(e)) => edits.push((e.range, e.new_text.clone())),
            Some(CompletionTextEdit::InsertAndReplace(e)) => { same("insert range", &e.insert, &e.replace, &input)?; edits.push((e.replace, e.new_text.clone())); }
            None => return fail(format!("no edit for {}", i.label), &input),
        }
        for e in i.additional_text_edits.iter().flatten() { edits.push((e.range, e.new_text.clone())); }
        let edits: Vec<_> = edits.into_iter().filter(|(r, t)| !(r.start == r.end && t.is_empty())).collect();
        same("edit of an item", &edits, &vec![(range, i.label.clone())], &input)?;
    }
    ok(own > 0 && tables[0].1.len() > own, input)
}
/// C10
pub fn c10(cx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 30) { return crate::rpc::rpc(cx, r, "C10"); }
    cx.reset();
    let files = some_names(r);
    let py = r.b(3);
    let (u, text, refs): (String, String, Vec<TRef>) = match py {
        0 => { let (t, x) = backend_refs(r, false, &files); ("file:///w/b.rs".into(), t, x) }
        _ => {
            let mut o = Opt::new();
            o.files = files;
            o.imports = true;
            o.len = 8;
            let d = template(r, o);
            (U.to_string(), d.text.clone(), d.trefs)
        }
    };
    let Some(got) = open(&mut cx.l, &u, &text) else { return ok(false, json!(null)) };
    if u == U && !valid(cx, U) { return ok(false, json!(null)); }
    // what the diagnostics task remembers
    let missing: Vec<_> = got.iter().filter(|g| g.0 == JinjaDiagnostic::TemplateNotFound).map(|g| g.1.clone()).collect();
    let mut m = std::collections::HashMap::new();
    m.insert(u.clone(), missing);
    cx.l.add_code_actions(m);
    let reported: Vec<&TRef> = refs.iter().filter(|x| (x.name.is_empty() && u == U) || !exists(cx, &x.name)).collect();
    let mut points: Vec<Pt> = (0..4).map(|_| Pt { row: r.b(6), col: r.b(40) }).collect();
    for x in &refs { points.push(x.start); points.push(x.end); points.push(Pt { row: x.start.row, col: x.start.col + r.b(x.end.col - x.start.col + 1) }); points.push(Pt { row: x.end.row, col: x.end.col + 1 }); if x.start.col > 0 { points.push(Pt { row: x.start.row, col: x.start.col - 1 }); } }
    for p in points {
        let input = json!({"uri": u, "text": text, "at": pos(p)});
        let want: Vec<&&TRef> = reported.iter().filter(|x| x.start <= p && p <= x.end).collect();
        let act = cx.l.code_action(action_params(&u, pos(p)));
        let name = match act { Some(jinja_lsp::lsp_files::JinjaCodeAction::CreateTemplate(n)) => Some(n), _ => None };
        same("template to create", &name, &want.first().map(|x| x.name.clone()), &input)?;
        if let Some(n) = name {
            if n.is_empty() { continue; }
            let _g = cx.rt.enter();
            let p = DidSaveTextDocumentParams { text_document: TextDocumentIdentifier::new(url(&u)), text: None };
            let got = cx.l.process_code_actions(jinja_lsp::lsp_files::JinjaCodeAction::CreateTemplate(n.clone()), p);
            let mut created = vec![];
            for c in got.iter().flatten() {
                let CodeActionOrCommand::CodeAction(c) = c else { return fail("a command instead of an action".into(), &input) };
                let Some(e) = &c.edit else { return fail("an action without edit".into(), &input) };
                if e.changes.is_some() { return fail("the action changes documents".into(), &input); }
                let Some(DocumentChanges::Operations(ops)) = &e.document_changes else { return fail("no operations".into(), &input) };
                for o in ops {
                    match o {
                        DocumentChangeOperation::Op(ResourceOp::Create(c)) => {
                            let o = c.options.clone();
                            // never overwriting
                            if o.as_ref().and_then(|o| o.overwrite) == Some(true) { return fail("the action overwrites".into(), &input); }
                            created.push(c.uri.to_file_path().unwrap());
                        }
                        _ => return fail("another operation".into(), &input),
                    }
                }
            }
            let mut want = std::fs::canonicalize(cx.dir.join("t")).unwrap();
            for s in n.split('/') { match s { "" | "." => (), ".." => { want.pop(); } s => want = want.join(s) } }
            let created: Vec<std::path::PathBuf> = created.iter().map(|p| p.components().fold(std::path::PathBuf::new(), |mut a, c| { match c { std::path::Component::ParentDir => { a.pop(); } std::path::Component::CurDir => (), c => a.push(c) } a })).collect();
            same("file to create", &created, &vec![want], &input)?;
        }
    }
    ok(!reported.is_empty(), json!({"uri": u, "text": text}))
}
/// C07
pub fn c07(cx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 30) { return crate::rpc::rpc(cx, r, "C07"); }
    cx.reset();
    if r.chance(1, 12) {
        let files = some_names(r);
        let py = r.chance(1, 2);
        let (text, refs) = backend_refs(r, py, &files);
        let u = if py { "file:///w/b.py" } else { "file:///w/b.rs" };
        let dir = cx.dir.join("t");
        let l = if py { cx.python() } else { &mut cx.l };
        open(l, u, &text);
        if l.verif_tree(LangType::Backend, u).map(|t| t.root_node().has_error()).unwrap_or(true) { return ok(false, json!(null)); }
        let n = leads_to_files(l, r, &dir, u, &text, &refs)?;
        return ok(n > 0, json!({"uri": u, "text": text}));
    }
    let mut o = Opt::new();
    o.len = 2 + r.b(8);
    o.templates = r.chance(1, 3);
    o.imports = false;
    o.files = some_names(r);
    let mut texts = vec![];
    let mut others: Vec<(String, Vec<Def>)> = vec![];
    for i in 0..r.b(3) {
        let mut oo = Opt::new();
        oo.len = 4;
        oo.names = vec!["a", "x1", "item", "user"];
        let d = template(r, oo);
        let u = format!("file:///w/o{i}.html");
        open(&mut cx.l, &u, &d.text);
        texts.push(json!({"uri": u, "text": d.text}));
        if valid(cx, &u) { others.push((u, d.defs.clone())); }
    }
    let mut back: Vec<(String, Pt, Pt)> = vec![];
    if r.chance(1, 3) {
        let mut b = B::new(r, Opt::new());
        b.put("fn f() {\n");
        for _ in 0..1 + b.r.b(3) {
            b.put("    jinja.add_global(");
            let n = *b.r.pick(&["user", "item.name", "zed", "a", "use", "a.b", "user.id"]);
            let (s, e) = b.put(&format!("\"{n}\""));
            back.push((n.to_string(), s, e));
            b.put(", f);\n");
        }
        b.put("}\n");
        let t = b.finish().text;
        let u = "file:///w/b.rs";
        open(&mut cx.l, u, &t);
        texts.push(json!({"uri": u, "text": t}));
        o.names.push("zed");
    }
    let d = template(r, o);
    open(&mut cx.l, U, &d.text);
    if !valid(cx, U) { return ok(false, json!(null)); }
    let mut seen = 0;
    for x in &d.refs {
        if x.kind == RefKind::BlockName { continue; }
        let (s, e) = (x.start(), x.end());
        let p = Pt { row: s.row, col: s.col + 1 + r.b(e.col - s.col) };
        let p = if p.col > e.col { e } else { p };
        let input = json!({"text": d.text, "others": texts, "at": pos(p)});
        let Some((h, k)) = hover(&cx.l, U, pos(p)) else { return fail("no hover".into(), &input) };
        same("hovered identifier", &(h.name.clone(), pt(h.start), pt(h.end)), &(x.name().to_string(), s, e), &input)?;
        let want = match x.kind { RefKind::Filter => CompletionType::Filter, RefKind::Test => CompletionType::Test, _ => CompletionType::Identifier };
        same("hover class", &k, &want, &input)?;
        if matches!(x.kind, RefKind::Filter | RefKind::Test) { continue; }
        seen += 1;
        // latest visible definition
        let vis = d.defs.iter().filter(|v| v.name == x.name() && v.kind != DefKind::Block && v.end <= h_start(s) && s <= v.scope_end).max_by_key(|v| (v.start, v.end));
        let elsewhere = others.iter().any(|(_, v)| v.iter().any(|v| v.name == x.name())) || back.iter().any(|b| b.0.split('.').next() == Some(x.name()));
        let want = match vis { Some(v) => Some(kind_of(v.kind)), None if elsewhere => Some(IdentifierType::BackendVariable), None => None };
        same("kind of the hovered variable", &cx.l.data_type(url(U), h), &want, &input)?;
        let here = d.defs.iter().filter(|v| v.name == x.name() && v.start <= p && p <= v.scope_end).max_by_key(|v| (v.start, v.end));
        let got = goto(&cx.l, U, pos(p));
        match here {
            Some(v) => same("definition", &got, &Some(GotoDefinitionResponse::Scalar(Location::new(url(U), rng(v.start, v.end)))), &input)?,
            None => {
                let Some(GotoDefinitionResponse::Array(mut got)) = got else { return fail(format!("definition: got {got:?}, expected those of other files"), &input) };
                let mut want: Vec<Location> = vec![];
                for (u, v) in &others { for v in v { if v.name == x.name() {
                    let u = if v.start == (Pt { row: 0, col: 0 }) && v.end == (Pt { row: 0, col: 0 }) { format!("{u}-{}", v.name) } else { u.clone() };
                    want.push(Location::new(url(&u), rng(v.start, v.end)));
                } } }
                for b in back.iter().filter(|b| b.0.split('.').next() == Some(x.name())) { want.push(Location::new(url("file:///w/b.rs"), rng(b.1, b.2))); }
                let key = |l: &Location| (l.uri.to_string(), l.range.start, l.range.end);
                got.sort_by_key(key);
                want.sort_by_key(key);
                same("definitions in other files", &got, &want, &input)?;
            }
        }
    }
    for x in d.trefs.iter() {
        if x.name.is_empty() { continue; }
        let p = Pt { row: x.start.row, col: x.start.col + 1 + r.b(x.end.col - x.start.col) };
        let input = json!({"text": d.text, "at": pos(p)});
        let want = std::fs::canonicalize(x.name.split('/').filter(|s| !s.is_empty()).fold(cx.dir.join("t"), |p, s| p.join(s))).ok().map(|p| GotoDefinitionResponse::Scalar(Location::new(Url::from_file_path(p).unwrap(), Range::default())));
        let got = goto(&cx.l, U, pos(p));
        if want.is_some() { same("file of the template", &got, &want, &input)?; }
    }
    ok(seen > 1 && !d.defs.is_empty(), json!({"text": d.text, "others": texts}))
}
fn h_start(p: Pt) -> Pt { p }
/// going to the definition of a template name leads to its file
fn leads_to_files(l: &jinja_lsp::lsp_files::LspFiles, r: &mut Rng, dir: &std::path::Path, u: &str, text: &str, refs: &[TRef]) -> Result<usize, Fail> {
    let mut n = 0;
    for x in refs {
        if x.name.is_empty() || !x.name.is_ascii() { continue; }
        let p = inside(text, x, r);
        let want = std::fs::canonicalize(x.name.split('/').filter(|s| !s.is_empty()).fold(dir.to_path_buf(), |p, s| p.join(s))).ok().map(|p| GotoDefinitionResponse::Scalar(Location::new(Url::from_file_path(p).unwrap(), Range::default())));
        same("file of the template", &goto(l, u, pos(p)), &want, &json!({"uri": u, "text": text, "at": pos(p)}))?;
        if want.is_some() { n += 1; }
    }
    Ok(n)
}
/// C08
pub fn c08(cx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 30) { return crate::rpc::rpc(cx, r, "C08"); }
    cx.reset();
    let mut o = Opt::new();
    o.len = 2 + r.b(8);
    o.dashes = false;
    let d = template(r, o);
    open(&mut cx.l, U, &d.text);
    if !valid(cx, U) { return ok(false, json!(null)); }
    let mut seen = 0;
    for p in &d.pipes {
        let input = json!({"text": d.text, "at": pos(*p), "after": "pipe"});
        let got = complete(&cx.l, U, pos(*p)).map(|x| x.0);
        if got != Some(CompletionType::Filter) { return fail(format!("after a pipe: got {got:?}"), &input); }
        seen += 1;
    }
    for p in &d.tests {
        let input = json!({"text": d.text, "at": pos(*p), "after": "is"});
        let got = complete(&cx.l, U, pos(*p)).map(|x| x.0);
        if got != Some(CompletionType::Test) { return fail(format!("after is: got {got:?}"), &input); }
        seen += 1;
    }
    for p in &d.plain {
        let input = json!({"text": d.text, "at": pos(*p), "in": "text"});
        let got = complete(&cx.l, U, pos(*p)).map(|x| x.0);
        if got.is_some() { return fail(format!("in plain text: got {got:?}"), &input); }
        seen += 1;
    }
    for x in d.refs.iter().filter(|x| x.in_output && x.kind == RefKind::Var) {
        let (s, e) = (x.start(), x.end());
        for c in s.col + 1..=e.col {
            let p = Pt { row: s.row, col: c };
            // right after the name: not before a bracket (known finding: a closing bracket there belongs to the next operator)
            let rest = &d.text.split('\n').nth(e.row).unwrap_or("")[c..];
            if c == e.col && (rest.starts_with("()") || !rest.starts_with(&[' ', '.', '('][..])) { continue; }
            let input = json!({"text": d.text, "at": pos(p), "in": x.name()});
            let got = complete(&cx.l, U, pos(p)).map(|x| x.0);
            let want = CompletionType::IncompleteIdentifier { name: x.name()[..c - s.col].to_string(), range: rng(s, x.full_end()) };
            same("completion", &got, &Some(want), &input)?;
            seen += 1;
        }
    }
    ok(seen > 1, json!({"text": d.text}))
}
