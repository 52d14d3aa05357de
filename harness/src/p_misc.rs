//! C14 C15 C16 C17 C18 C19
use crate::ctx::*;
use crate::gen::*;
use crate::p_tmpl::U;
use crate::rng::Rng;
use jinja_lsp_queries::search::{python_identifiers::python_identifiers, IdentifierType};
use jinja_lsp_queries::tree_builder::LangType;
use serde_json::{json, Value};
use std::path::Path;
use tower_lsp::lsp_types::*;

pub fn c15(cx: &mut Ctx, r: &mut Rng) -> Res {
    cx.reset();
    let segs = ["a", "b.html", "html", ".html", "x.py", "templates", "..", "c.j2", "d.jinja", "e.rs", "f.HTML", "g.html.bak", "h.tar.j2", "i.", "é.html", "j.htm", "k.txt", ".rs", "l.jinja2", "py", "m m.rs", "n.pyc", ".x.py", "o.min.html", "p.test.jinja", "q.min.js", "r.a.b.rs", "s.html.py", "t..j2", "html.", "u.rs.txt"];
    let mut s = String::new();
    if r.chance(1, 2) { s.push('/'); }
    let k = 1 + r.b(4);
    for i in 0..k { if i > 0 { s.push('/'); } s.push_str(r.pick(&segs)); }
    let last = s.rsplit('/').next().unwrap().to_string();
    let ext = if last == ".." { None } else { match last.rfind('.') { Some(i) if i > 0 => Some(last[i + 1..].to_string()), _ => None } };
    let want = match ext.as_deref() { Some("html" | "jinja" | "j2") => Some(LangType::Template), Some("rs" | "py") => Some(LangType::Backend), _ => None };
    let input = json!({"path": s});
    same("treatment", &cx.l.config.file_ext(&Path::new(&s)), &want, &input)?;
    if let Ok(u) = Url::parse(&format!("file:///w/{s}")) {
        // the server sees the URI, whose last segment keeps the extension
        let us = u.as_str().to_string();
        let seg = us.rsplit('/').next().unwrap().to_string();
        let ext = match seg.rfind('.') { Some(i) if i > 0 => Some(seg[i + 1..].to_string()), _ => None };
        let want = match ext.as_deref() { Some("html" | "jinja" | "j2") => Some(LangType::Template), Some("rs" | "py") => Some(LangType::Backend), _ => None };
        let p = DidOpenTextDocumentParams { text_document: TextDocumentItem::new(u.clone(), "".into(), 0, "{{ x }}".into()) };
        let got = cx.l.did_open(p, false).is_some();
        if !seg.is_empty() {
            same("document is known", &(cx.l.verif_text(&us).is_some()), &want.is_some(), &json!({"uri": us}))?;
            same("document is answered", &got, &want.is_some(), &json!({"uri": us}))?;
            same("template tree", &cx.l.verif_tree(LangType::Template, &us).is_some(), &(want == Some(LangType::Template)), &json!({"uri": us}))?;
            same("backend tree", &cx.l.verif_tree(LangType::Backend, &us).is_some(), &(want == Some(LangType::Backend)), &json!({"uri": us}))?;
        }
    }
    ok(want.is_some(), input)
}
type Chain = (String, Pt, Pt);
fn py_doc(r: &mut Rng) -> (String, Vec<Chain>) {
    let mut b = B::new(r, Opt::new());
    let mut v = vec![];
    fn chain(b: &mut B, v: &mut Vec<Chain>, must: bool) {
        let ids = ["a", "b", "request", "user", "x1", "name", "_p", "é"];
        let k = if must { 2 + b.r.b(3) } else { 1 + b.r.b(4) };
        let (mut s, mut start, mut end) = (String::new(), b.pos(), b.pos());
        // inside parentheses a chain may be spread over several lines
        let wrap = must && b.r.chance(1, 6);
        if wrap { b.put("("); }
        start = if wrap { b.pos() } else { start };
        for i in 0..k {
            if i > 0 { if wrap && b.r.chance(1, 2) { b.put("\n      "); } b.put("."); s.push('.'); }
            let n = *b.r.pick(&ids);
            let (x, y) = b.put(n);
            s.push_str(n);
            if i == 0 { start = x; }
            end = y;
        }
        if wrap { b.put(")"); }
        if k > 1 { v.push((s, start, end)); }
    }
    let k = b.r.b(7);
    for i in 0..k {
        match b.r.b(6) {
            0 => { b.put(&format!("v{i} = ")); chain(&mut b, &mut v, true); b.put("\n"); }
            1 => { chain(&mut b, &mut v, true); b.put("("); chain(&mut b, &mut v, false); b.put(", "); chain(&mut b, &mut v, false); b.put(")\n"); }
            2 => { b.put("if "); chain(&mut b, &mut v, false); b.put(" == "); chain(&mut b, &mut v, false); b.put(":\n    "); chain(&mut b, &mut v, true); b.put("\n"); }
            3 => { b.put("# é a.b\n\n"); }
            4 => { b.put("s = \"é a.b\" + "); chain(&mut b, &mut v, true); b.put("\n"); }
            _ => { b.put("print("); chain(&mut b, &mut v, false); b.put(")\n"); }
        }
    }
    (b.finish().text, v)
}
pub fn c16(cx: &mut Ctx, r: &mut Rng) -> Res {
    let (text, mut want) = py_doc(r);
    let line = r.b(50) as u32;
    let u = "file:///w/b.py";
    let l = cx.python();
    open(l, u, &text);
    let input = json!({"text": text, "line": line});
    let Some(t) = l.verif_tree(LangType::Backend, u) else { return fail("no tree".into(), &input) };
    if t.root_node().has_error() { return ok(false, json!(null)); }
    let mut got: Vec<Chain> = python_identifiers(&l.queries.python_identifiers, &t, tree_sitter::Point::new(0, 0), &text, line).into_iter().map(|i| (i.field, pt(i.start), pt(i.end))).collect();
    let plain = want.clone();
    for w in want.iter_mut() { w.1.row += line as usize; w.2.row += line as usize; }
    got.sort_by_key(|x| x.1);
    same("attribute chains", &got, &want, &input)?;
    let mut got: Vec<Chain> = l.read_python_ids(url(u)).unwrap_or_default().into_iter().map(|i| (i.field, pt(i.start), pt(i.end))).collect();
    got.sort_by_key(|x| x.1);
    same("attribute chains of the document", &got, &plain, &input)?;
    ok(want.len() > 1, input)
}
pub fn c17(cx: &mut Ctx, r: &mut Rng) -> Res {
    let py = r.chance(1, 2);
    let names = ["user", "x1", "page_title", "PI", "_p", "users", "s", "rs", "items", "b", "br", "r"];
    let mut b = B::new(r, Opt::new());
    let mut want: Vec<(String, Pt, Pt)> = vec![];
    b.put(if py { "def f(env):\n    s = \"é\"\n" } else { "fn f() {\n    let s = \"é\";\n" });
    let k = b.r.b(6);
    for i in 0..k {
        b.put("    ");
        if py {
            match b.r.b(4) {
                0 => { let w = *b.r.pick(&["globals", "filters"]); b.put(&format!("jinja_env.{w}[\"")); let n = *b.r.pick(&names); let (s, e) = b.put(n); want.push((n.into(), s, e)); b.put("\"] = 1\n"); }
                1 | 2 => {
                    let f = *b.r.pick(&["render_template(\"x.html\"", "tmpl.render(1", "render(2"]);
                    b.put(f);
                    let k = 1 + b.r.b(3);
                    for _ in 0..k { b.put(", "); let n = *b.r.pick(&names); let (s, e) = b.put(n); want.push((n.into(), s, e)); b.put("="); let v = *b.r.pick(&["1", "\"é\"", "other"]); b.put(v); }
                    b.put(")\n");
                }
                _ => { b.put(&format!("call{i}(a=1)\n")); }
            }
        } else {
            match b.r.b(4) {
                0 => {
                    b.put(&format!("let c{i} = context! {{ "));
                    let k = 1 + b.r.b(3);
                    for j in 0..k { if j > 0 { b.put(", "); } let n = *b.r.pick(&names); let (s, e) = b.put(n); want.push((n.into(), s, e)); b.put(" => "); let v = *b.r.pick(&["1", "\"é\""]); b.put(v); }
                    b.put(" };\n");
                }
                1 | 2 => { let w = *b.r.pick(&["add_global", "add_filter", "add_function"]); b.put(&format!("jinja.{w}(")); let n = *b.r.pick(&names); let (s, e) = b.put(&format!("\"{n}\"")); want.push((n.into(), s, e)); b.put(", f);\n"); }
                _ => { b.put(&format!("let x{i} = other(\"y\", 1);\n")); }
            }
        }
    }
    b.put(if py { "    return 1\n" } else { "}\n" });
    let text = b.finish().text;
    let u = if py { "file:///w/b.py" } else { "file:///w/b.rs" };
    cx.reset();
    let l = if py { cx.python() } else { &mut cx.l };
    open(l, u, &text);
    let input = json!({"uri": u, "text": text});
    if l.verif_tree(LangType::Backend, u).map(|t| t.root_node().has_error()).unwrap_or(true) { return ok(false, json!(null)); }
    let got: Vec<_> = l.variables.get(u).cloned().unwrap_or_default().into_iter().filter(|i| i.identifier_type == IdentifierType::BackendVariable).map(|i| (i.name, pt(i.start), pt(i.end))).collect();
    same("backend variables", &got, &want, &input)?;
    let rest = l.variables.get(u).map(|v| v.iter().filter(|i| !matches!(i.identifier_type, IdentifierType::BackendVariable | IdentifierType::JinjaTemplate)).count());
    same("other definitions", &rest, &Some(0), &input)?;
    ok(want.len() > 1, input)
}
pub fn c18(cx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 60) { return crate::rpc::rpc(cx, r, "C18"); }
    cx.reset();
    let sub = *r.pick(&["t", "t", "t", "t/a", "t/../t", "empty"]);
    cx.l.config.templates = cx.dir.join(sub);
    cx.l.is_vscode = r.chance(1, 2);
    let root = std::fs::canonicalize(cx.dir.join(sub)).unwrap();
    let top = std::fs::canonicalize(&cx.dir).unwrap();
    let all = ["t/base.html", "t/a/b.html", "t/c.jinja", "t/x y.html", "t/deep/er/one.j2", "t/q.html", "t/unsaved.html", "other/base.html", "t2/base.html", "t/é.html"];
    let mut uris = vec![];
    for a in all {
        if r.chance(2, 3) {
            let u = Url::from_file_path(top.join(a)).unwrap();
            open(&mut cx.l, u.as_str(), "{{ a }}");
            uris.push((a, u));
        }
    }
    if r.chance(1, 2) { open(&mut cx.l, "file:///w/b.rs", "fn f() {}"); }
    if r.chance(1, 3) { open(&mut cx.l, "untitled:base.html", "x"); }
    let prefix = r.pick(&["", "", "", "base", "b", "a/", "x%20y", "nothing", ".html", ".html", ".", "/t/", "e", "er/one", "file:///", "é", "%C3"]).to_string();
    let (a, b) = (Pt { row: 1, col: 12 }, Pt { row: 1, col: 20 });
    let at = pos(Pt { row: 1, col: 15 });
    let input = json!({"templates": sub, "known": uris.iter().map(|u| u.1.as_str()).collect::<Vec<_>>(), "typed": prefix, "vscode": cx.l.is_vscode});
    let Some(got) = cx.l.read_templates(prefix.clone(), rng(a, b), at, None) else { return fail("no items".into(), &input) };
    let mut want: Vec<String> = uris.iter().filter(|u| u.1.as_str().contains(&prefix)).filter_map(|u| Some(top.join(u.0).strip_prefix(&root).ok()?.to_str()?.to_string())).collect();
    let mut labels: Vec<String> = got.iter().map(|i| i.label.clone()).collect();
    labels.sort();
    want.sort();
    same("offered templates", &labels, &want, &input)?;
    for i in &got {
        let mut edits: Vec<(Range, String)> = vec![];
        match &i.text_edit {
            Some(CompletionTextEdit::Edit(e)) => edits.push((e.range, e.new_text.clone())),
            Some(CompletionTextEdit::InsertAndReplace(e)) => { same("insert range", &e.insert, &e.replace, &input)?; edits.push((e.replace, e.new_text.clone())); }
            None => return fail(format!("no edit for {}", i.label), &input),
        }
        for e in i.additional_text_edits.iter().flatten() { edits.push((e.range, e.new_text.clone())); }
        let edits: Vec<_> = edits.into_iter().filter(|(r, t)| !(r.start == r.end && t.is_empty())).collect();
        same("edit of an item", &edits, &vec![(rng(a, b), format!("\"{}\"", i.label))], &input)?;
    }
    ok(want.len() > 1, input)
}
pub fn expected(k: &str) -> (DiagnosticSeverity, &'static str) {
    match k {
        "Undefined" => (DiagnosticSeverity::WARNING, "Undefined variable"),
        "DefinedSomewhere" => (DiagnosticSeverity::INFORMATION, "Variable is defined in other file."),
        _ => (DiagnosticSeverity::WARNING, "Template not found"),
    }
}
pub fn c19(cx: &mut Ctx, r: &mut Rng) -> Res {
    use jinja_lsp_queries::{lsp_helper::create_diagnostic, tree_builder::JinjaDiagnostic};
    cx.reset();
    if !r.chance(1, 16) {
        let k = match r.b(3) { 0 => JinjaDiagnostic::Undefined, 1 => JinjaDiagnostic::DefinedSomewhere, _ => JinjaDiagnostic::TemplateNotFound };
        let (a, b) = (Pt { row: r.b(1000), col: r.b(1000) }, Pt { row: r.b(1000), col: r.b(1000) });
        let id = jinja_lsp_queries::search::Identifier::new(*r.pick(&["a", "", "é.html"]), tree_sitter::Point::new(a.row, a.col), tree_sitter::Point::new(b.row, b.col));
        let input = json!({"kind": format!("{k:?}"), "identifier": idj(&id)});
        let (sev, msg) = expected(&format!("{k:?}"));
        let got = create_diagnostic(&id, k.severity(), k.to_string());
        same("diagnostic", &(got.range, got.severity, got.message, got.source), &(rng(a, b), Some(sev), msg.to_string(), Some("jinja-lsp".to_string())), &input)?;
        return ok(true, input);
    }
    if r.chance(1, 12) { return crate::rpc::burst(cx, r); }
    crate::rpc::rpc(cx, r, "C19")
}
// ------------------------------------------------------------------------------------------------ Node bindings
pub fn c14(cx: &mut Ctx, r: &mut Rng) -> Res {
    if cx.node.is_none() {
        let Some(dir) = cx.node_dir.clone() else { return fail("no node bindings given".into(), &json!(null)) };
        cx.node = Some(crate::node::NodeProc::start(&dir).map_err(|e| Fail { what: e, input: json!(null) })?);
    }
    let mut p = cx.node.take().unwrap();
    let res = c14_with(&mut p, r);
    if p.alive { cx.node = Some(p); }
    res
}
fn c14_with(p: &mut crate::node::NodeProc, r: &mut Rng) -> Res {
    let file = r.pick(&["file:///home/u/app.py", "file:///w/x.html"]).to_string();
    let id = r.b(5);
    let line = *r.pick(&[0usize, 1, 7, 40]);
    if r.chance(1, 4) {
        // link hints of a Python document
        let (text, chains) = py_doc(r);
        let mut names: Vec<String> = chains.iter().map(|c| c.0.clone()).collect();
        names.dedup();
        let mut acts: Vec<String> = names.into_iter().filter(|_| r.chance(1, 2)).collect();
        acts.sort();
        acts.dedup();
        acts.push("not.there".into());
        acts.push("a".into());
        let input = json!({"text": text, "line": line, "actions": acts});
        p.call("new", json!([]), &input)?;
        p.call("saveLinkHint", json!([acts.iter().map(|a| json!({"name": a, "description": "d"})).collect::<Vec<_>>(), "temp"]), &input)?;
        let got = p.call("addOne", json!([id, file, text, line, "py"]), &input)?;
        if has_error(&text, false) { return ok(false, json!(null)); }
        let mut got: Vec<Value> = got.as_array().cloned().unwrap_or_default().iter().map(|g| json!([g["name"], g["start"], g["end"]])).collect();
        let mut want: Vec<Value> = chains.iter().filter(|c| acts.contains(&c.0)).map(|c| json!([c.0, jp(c.1, line), jp(c.2, line)])).collect();
        got.sort_by_key(|v| v.to_string());
        want.sort_by_key(|v| v.to_string());
        same("link hints", &got, &want, &input)?;
        return ok(!want.is_empty(), input);
    }
    let mut o = Opt::new();
    o.len = 2 + r.b(6);
    o.templates = false;
    let d = template(r, o);
    let col = *r.pick(&[0usize, 0, 3]);
    // the first row is moved right by col
    let sh = |p: Pt| if p.row == 0 { Pt { row: 0, col: p.col + col } } else { p };
    let mut acts: Vec<String> = vec![];
    for x in &d.refs { if r.chance(1, 3) { acts.push(x.parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(".")); } }
    acts.push("user.zzz".into());
    acts.push("us".into());
    acts.sort();
    acts.dedup();
    let input = json!({"text": d.text, "line": line, "col": col, "actions": acts});
    if has_error(&d.text, true) { return ok(false, json!(null)); }
    p.call("new", json!([]), &input)?;
    p.call("saveLinkHint", json!([acts.iter().map(|a| json!({"name": a, "description": "d"})).collect::<Vec<_>>(), "temp"]), &input)?;
    let got = p.call("addOne", json!([id, file, d.text, line, "jinja", col]), &input)?;
    let mut got: Vec<Value> = got.as_array().cloned().unwrap_or_default().iter().map(|g| json!([g["name"], g["start"], g["end"]])).collect();
    let mut want: Vec<Value> = d.refs.iter().filter(|x| acts.contains(&x.parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join("."))).map(|x| json!([x.name(), jp(sh(x.start()), line), jp(sh(x.full_end()), line)])).collect();
    got.sort_by_key(|v| v.to_string());
    want.sort_by_key(|v| v.to_string());
    same("link hints", &got, &want, &input)?;
    let key = format!("file:///home/{file}.{id}.jinja");
    let got = p.call("getVariables", json!([key, line]), &input)?;
    let got: Vec<Value> = got.as_array().cloned().unwrap_or_default().iter().map(|g| json!([g["name"], g["start"], g["end"], g["identifierType"]])).collect();
    let ty = |k: DefKind| match k { DefKind::ForKey => 0, DefKind::ForValue => 1, DefKind::Set => 3, DefKind::With => 4, DefKind::MacroName => 5, DefKind::MacroParam => 6, DefKind::Block => 7 };
    let want: Vec<Value> = d.defs.iter().map(|x| json!([x.name, jp(sh(x.start), line), jp(sh(x.end), line), ty(x.kind)])).collect();
    same("definitions", &got, &want, &input)?;
    let mut n = 0;
    for x in d.refs.iter().filter(|x| x.kind == RefKind::Var) {
        let (s, e) = (sh(x.start()), sh(x.end()));
        let at = Pt { row: s.row, col: s.col + r.b(e.col - s.col) };
        let inp = json!({"text": d.text, "line": line, "col": col, "actions": acts, "at": jp(at, line)});
        let vis = d.defs.iter().filter(|v| v.name == x.name() && v.kind != DefKind::Block && sh(v.end) <= s && s <= sh(v.scope_end)).max_by_key(|v| (v.start, v.end));
        let h = p.call("hover", json!([id, file, line, jp(at, line)]), &inp)?;
        if let Some(v) = vis {
            same("range of the hover", &json!([h["range"]["start"], h["range"]["end"]]), &json!([jp(s, line), jp(e, line)]), &inp)?;
            let desc = acts.iter().find(|a| a.starts_with(x.name())).map(|_| "d".to_string()).unwrap_or(format!("{}\n\n---\n**{}**", detail_of(v.kind), x.name()));
            same("text of the hover", &h["value"], &json!(desc), &inp)?;
        }
        let here = d.defs.iter().filter(|v| v.name == x.name() && sh(v.start) <= at && at <= sh(v.scope_end)).max_by_key(|v| (v.start, v.end));
        let g = p.call("gotoDefinition", json!([id, file, line, jp(at, line)]), &inp)?;
        if let Some(v) = here {
            let g: Vec<Value> = g.as_array().cloned().unwrap_or_default().iter().map(|g| json!([g["uri"], g["range"]["start"], g["range"]["end"], g["isBackend"]])).collect();
            same("definition", &g, &vec![json!([file, jp(sh(v.start), line), jp(sh(v.end), line), false])], &inp)?;
        }
        if line > 0 {
            let above = Pt { row: r.b(line), col: at.col };
            for m in ["hover", "gotoDefinition", "complete"] {
                let g = p.call(m, json!([id, file, line, jp(above, 0)]), &inp)?;
                if !g.is_null() { return fail(format!("{m} above the document answers {g}"), &inp); }
            }
        }
        n += 1;
        if n > 4 { break; }
    }
    // completion of a typed prefix replaces the name, moved down
    if let Some(x) = d.refs.iter().find(|x| x.in_output && x.kind == RefKind::Var && x.parts.len() == 1 && x.end().col - x.start().col > 1) {
        let (s, e) = (sh(x.start()), sh(x.end()));
        let at = Pt { row: s.row, col: s.col + 1 };
        let inp = json!({"text": d.text, "line": line, "col": col, "actions": acts, "at": jp(at, line)});
        p.call("saveLinkHint", json!([acts.iter().map(|a| json!({"name": a, "description": "d"})).collect::<Vec<_>>(), file]), &inp)?;
        let g = p.call("complete", json!([id, file, line, jp(at, line)]), &inp)?;
        let pre = &x.name()[..1];
        let got: Vec<Value> = g.as_array().cloned().unwrap_or_default().iter().map(|g| json!([g["label"], g["newText"], g["insert"], g["replace"]])).collect();
        let rg = json!({"start": jp(s, line), "end": jp(e, line)});
        let one: Vec<Value> = acts.iter().filter(|a| a.contains(pre)).map(|a| json!([a, a, rg, rg])).collect();
        let want: Vec<Value> = one.iter().chain(one.iter()).cloned().collect();
        same("completion", &got, &want, &inp)?;
    }
    // the names of the filters
    if let Some(x) = d.refs.iter().find(|x| x.kind == RefKind::Filter) {
        let (s, e) = (sh(x.start()), sh(x.end()));
        let at = Pt { row: s.row, col: s.col + r.b(e.col - s.col) };
        let inp = json!({"text": d.text, "line": line, "col": col, "at": jp(at, line)});
        let h = p.call("hover", json!([id, file, line, jp(at, line)]), &inp)?;
        let known = jinja_lsp::filter::init_filter_completions().into_iter().find(|f| f.name == x.name());
        if let Some(f) = known {
            same("hover of a filter", &json!([h["range"]["start"], h["range"]["end"], h["value"]]), &json!([jp(s, line), jp(e, line), f.desc]), &inp)?;
        } else if !h.is_null() { return fail(format!("hover of an unknown filter answers {h}"), &inp); }
    }
    if let Some(at) = d.pipes.first().map(|q| sh(*q)) {
        let inp = json!({"text": d.text, "line": line, "col": col, "at": jp(at, line)});
        let g = p.call("complete", json!([id, file, line, jp(at, line)]), &inp)?;
        let mut got: Vec<String> = g.as_array().cloned().unwrap_or_default().iter().map(|g| g["label"].as_str().unwrap_or("").to_string()).collect();
        got.sort();
        let mut want: Vec<String> = jinja_lsp::filter::init_filter_completions().into_iter().map(|f| f.name).collect();
        want.sort();
        same("completion of a filter", &got, &want, &inp)?;
    }
    // names registered for another text are definitions of the backend
    if let Some(x) = d.refs.iter().find(|x| x.kind == RefKind::Var && !d.defs.iter().any(|v| v.name == x.name())) {
        let at = sh(x.start());
        let inp = json!({"text": d.text, "line": line, "col": col, "at": jp(at, line)});
        p.call("saveLinkHint", json!([[{"name": format!("{}.more", x.name()), "description": "d"}, {"name": "zzz.q", "description": "d"}], "file:///temp"]), &inp)?;
        let g = p.call("gotoDefinition", json!([id, file, line, jp(at, line)]), &inp)?;
        let g: Vec<Value> = g.as_array().cloned().unwrap_or_default().iter().filter(|g| g["uri"].as_str().unwrap_or("").starts_with("file:///temp")).map(|g| json!([g["uri"], g["range"]["start"], g["range"]["end"], g["isBackend"]])).collect();
        let o = jp(Pt { row: 0, col: 0 }, line);
        same("definition in the backend", &g, &vec![json!([format!("file:///temp-{}.more", x.name()), o, o, true])], &inp)?;
    }
    // hints are gone once removed, documents once deleted
    let other = "file:///other.py";
    if r.chance(1, 2) {
        p.call("addOne", json!([id + 1, other, d.text, line, "jinja", col]), &input)?;
        if r.chance(1, 2) {
            p.call("removeTempLinkHint", json!([]), &input)?;
            let g = p.call("addOne", json!([id, file, d.text, line, "jinja", col]), &input)?;
            same("link hints after their removal", &g, &json!([]), &input)?;
            p.call("addLinkHints", json!(["temp", acts.iter().map(|a| json!({"name": a, "description": "d"})).collect::<Vec<_>>()]), &input)?;
            let got = p.call("addOne", json!([id, file, d.text, line, "jinja", col]), &input)?;
            let mut got: Vec<Value> = got.as_array().cloned().unwrap_or_default().iter().map(|g| json!([g["name"], g["start"], g["end"]])).collect();
            let mut want: Vec<Value> = d.refs.iter().filter(|x| acts.contains(&x.parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join("."))).map(|x| json!([x.name(), jp(sh(x.start()), line), jp(sh(x.full_end()), line)])).collect();
            got.sort_by_key(|v| v.to_string());
            want.sort_by_key(|v| v.to_string());
            same("link hints added again", &got, &want, &input)?;
        }
        p.call("deleteAll", json!([file]), &input)?;
        let g = p.call("getVariables", json!([key, line]), &input)?;
        if !g.is_null() { return fail(format!("a deleted document has variables {g}"), &input); }
        let at = d.refs.first().map(|x| sh(x.start())).unwrap_or(Pt { row: 0, col: 0 });
        for m in ["hover", "gotoDefinition", "complete"] {
            let g = p.call(m, json!([id, file, line, jp(at, line)]), &input)?;
            if !g.is_null() { return fail(format!("{m} in a deleted document answers {g}"), &input); }
        }
        let g = p.call("getVariables", json!([format!("file:///home/{other}.{}.jinja", id + 1), line]), &input)?;
        let got: Vec<Value> = g.as_array().cloned().unwrap_or_default().iter().map(|g| json!([g["name"], g["start"], g["end"], g["identifierType"]])).collect();
        same("definitions of the document that stays", &got, &want, &input)?;
    }
    ok(n > 0 && line > 0, input)
}
fn jp(p: Pt, line: usize) -> Value { json!({"line": p.row + line, "character": p.col}) }
fn has_error(text: &str, template: bool) -> bool {
    let mut p = jinja_lsp_queries::parsers::Parsers::default();
    if !template { p.update_backend("python"); }
    p.parse(if template { LangType::Template } else { LangType::Backend }, text, None).map(|t| t.root_node().has_error()).unwrap_or(true)
}
