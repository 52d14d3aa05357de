//! sessions with a whole server: what it publishes and answers, against the same documents in a library instance.
//! (The library is compared with the generator's facts by the other cases.)
use crate::ctx::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::server::Server;
use jinja_lsp::lsp_files::{JinjaCodeAction, LspFiles};
use jinja_lsp_queries::search::{objects::CompletionType, snippets_completion::snippets};
use jinja_lsp_queries::tree_builder::{JinjaDiagnostic, LangType};
use serde_json::{json, Value};
use std::time::{Duration, Instant};
use tower_lsp::lsp_types::*;

fn sorted(v: &[Value]) -> Vec<Value> { let mut v = v.to_vec(); v.sort_by_key(|x| x.to_string()); v }
fn arr(v: &Value) -> Vec<Value> { v.as_array().cloned().unwrap_or_default() }
/// what must be published for a document: the library's problems, with the range, severity and text of their kind
fn want_pub(p: &[(JinjaDiagnostic, jinja_lsp_queries::search::Identifier)]) -> Vec<Value> {
    sorted(&p.iter().map(|p| { let (s, m) = crate::p_misc::expected(&format!("{:?}", p.0)); json!({"range": rng(pt(p.1.start), pt(p.1.end)), "severity": s, "message": m, "source": "jinja-lsp"}) }).collect::<Vec<_>>())
}
fn want_completion(l: &LspFiles, uri: &str, p: Position) -> Value {
    let vs = l.is_vscode;
    let u = url(uri);
    let items: Option<Vec<CompletionItem>> = match complete(l, uri, p) {
        None => None,
        Some((c, _)) => match c {
            CompletionType::Filter => return json!({"labels": jinja_lsp::filter::init_filter_completions().iter().map(|f| json!([f.name, f.desc])).collect::<Vec<_>>()}),
            CompletionType::Test => return json!({"labels": jinja_lsp::template_tests::init_template_test_completions().iter().map(|f| json!([f.name, f.desc])).collect::<Vec<_>>()}),
            CompletionType::Identifier => l.read_variables(&u, p, None, None),
            CompletionType::IncompleteIdentifier { name, range } => l.read_variables(&u, p, Some((name, range)), None),
            CompletionType::IncludedTemplate { name, range } => l.read_templates(name, range, p, None),
            CompletionType::Snippets { range } => Some(snippets().into_iter().map(|mut s| {
                if let Some(CompletionTextEdit::Edit(t)) = s.text_edit.clone() {
                    s.text_edit = if vs { None } else { Some(CompletionTextEdit::InsertAndReplace(InsertReplaceEdit { new_text: t.new_text, insert: range, replace: range })) };
                }
                s
            }).collect()),
            CompletionType::IncompleteFilter { .. } => None,
        },
    };
    match items { None => Value::Null, Some(v) => json!(sorted(&v.iter().map(|i| json!(i)).collect::<Vec<_>>())) }
}
fn got_completion(v: &Value, want: &Value) -> Value {
    if v.is_null() { return Value::Null; }
    if want.get("labels").is_some() { return json!({"labels": arr(v).iter().map(|i| json!([i["label"], i["documentation"]["value"]])).collect::<Vec<_>>()}); }
    json!(sorted(&arr(v)))
}
fn want_hover(l: &LspFiles, uri: &str, p: Position) -> Value {
    let Some((h, k)) = hover(l, uri, p) else { return Value::Null };
    let md = |s: Option<String>| match s { None => Value::Null, Some(s) => json!({"kind": "markdown", "value": s}) };
    match k {
        CompletionType::Filter => md(jinja_lsp::filter::init_filter_completions().into_iter().find(|f| f.name == h.name).map(|f| f.desc)),
        CompletionType::Test => md(jinja_lsp::template_tests::init_template_test_completions().into_iter().find(|f| f.name == h.name).map(|f| f.desc)),
        _ => md(l.data_type(url(uri), h).map(|t| crate::p_tmpl::all_kinds().into_iter().find(|x| x.0 == t).unwrap().3.to_string())),
    }
}
fn want_goto(l: &LspFiles, uri: &str, p: Position) -> Value {
    match goto(l, uri, p) { Some(GotoDefinitionResponse::Array(a)) => json!(sorted(&a.iter().map(|x| json!(x)).collect::<Vec<_>>())), g => json!(g) }
}
fn norm(v: Value) -> Value { if v.is_array() { json!(sorted(&arr(&v))) } else { v } }
fn want_action(cx: &tokio::runtime::Handle, l: &LspFiles, uri: &str, p: Position) -> Value {
    let Some(a) = l.code_action(action_params(uri, p)) else { return Value::Null };
    if let JinjaCodeAction::CreateTemplate(_) | JinjaCodeAction::Reset = a {
        let _g = cx.enter();
        return json!(l.process_code_actions(a, DidSaveTextDocumentParams { text_document: TextDocumentIdentifier::new(url(uri)), text: None }));
    }
    Value::Null
}
fn backend(r: &mut Rng, py: bool) -> String {
    let mut s = String::from(if py { "def f(env):\n" } else { "fn f() {\n" });
    for _ in 0..r.b(4) {
        let v: &[&str] = if py { &["    jinja_env.globals[\"user\"] = 1\n", "    render(1, item=2, zed=3)\n", "    tmpl.get_template(\"none.html\")\n", "    tmpl.get_template(\"f0.html\")\n"] }
            else { &["    let c = context! { user => 1, zed => 2 };\n", "    jinja.add_global(\"item\", 3);\n", "    jinja.add_filter(\"app.name\", 3);\n", "    render_jinja(\"none.html\");\n", "    get_template(\"f0.html\");\n"] };
        s.push_str(r.pick(v));
    }
    s.push_str(if py { "    return 1\n" } else { "}\n" });
    s
}
fn doc(r: &mut Rng, crowd: bool) -> Doc {
    let mut o = Opt::new();
    o.len = if crowd { 60 } else { 2 + r.b(8) };
    o.files = vec!["f0.html".into(), "none.html".into(), "no/dir/".into(), "".into(), "sub/g.jinja".into(), "é none.html".into()];
    o.imports = true;
    o.names = vec!["a", "item", "user", "use", "zed", "app", "app.name"].into_iter().filter(|n| !n.contains('.')).collect();
    template(r, o)
}
pub fn rpc(cx: &mut Ctx, r: &mut Rng, prop: &str) -> Res {
    let py = r.chance(1, 5);
    let vs = r.chance(1, 2);
    let hide = r.chance(1, 6);
    let site = cx.dir.join("site");
    std::fs::remove_dir_all(&site).ok();
    std::fs::create_dir_all(site.join("t/sub")).unwrap();
    std::fs::create_dir_all(site.join("back")).unwrap();
    let site = std::fs::canonicalize(&site).unwrap();
    let mut files: Vec<(String, String)> = vec![];
    for f in ["f0.html", "sub/g.jinja", "x y.j2", "notes.txt"] {
        if r.chance(2, 3) { let d = doc(r, false); std::fs::write(site.join("t").join(f), &d.text).unwrap(); if f != "notes.txt" { files.push((Url::from_file_path(site.join("t").join(f)).unwrap().to_string(), d.text)); } }
    }
    let bt = backend(r, py);
    let bu = Url::from_file_path(site.join(if py { "back/b.py" } else { "back/b.rs" })).unwrap().to_string();
    std::fs::write(site.join(if py { "back/b.py" } else { "back/b.rs" }), &bt).unwrap();
    files.push((bu.clone(), bt.clone()));
    let main = Url::from_file_path(site.join("t/main.html")).unwrap().to_string();
    // the opened document may differ from the saved one
    if prop == "C01" && r.chance(2, 3) { let d = doc(r, false); std::fs::write(site.join("t/main.html"), &d.text).unwrap(); files.push((main.clone(), d.text)); }
    let crowd = prop == "C19" && r.chance(1, 4);
    let mut d = doc(r, crowd);
    if crowd { for i in 0..r.b(300) { d.text.push_str(if i % 7 == 3 { "\n{% include \"none.html\" %}" } else { "\n{{ nothing }}" }); } }
    let opened_again = r.chance(1, 3);
    let mut hist = json!({"files": files, "vscode": vs, "hide_undefined": hide, "open": [main, d.text], "lang": if py { "python" } else { "rust" }});
    let rt = cx.rt.clone();
    cx.reset();
    let l: &mut LspFiles = if py { cx.python() } else { &mut cx.l };
    let res = rpc2(&rt, l, r, prop, &site, &files, (&main, &d), (&bu, &bt), (py, vs, hide, opened_again), &mut hist);
    std::fs::remove_dir_all(&site).ok();
    res
}
#[allow(clippy::too_many_arguments)]
fn rpc2(rt: &tokio::runtime::Handle, l: &mut LspFiles, r: &mut Rng, prop: &str, site: &std::path::Path, files: &[(String, String)], (main, d): (&str, &Doc), (bu, bt): (&str, &str), (py, vs, hide, again): (bool, bool, bool, bool), hist: &mut Value) -> Res {
    let diagnostics = matches!(prop, "C01" | "C03" | "C04" | "C19");
    l.config.templates = site.join("t");
    l.is_vscode = vs;
    l.ignore_globals = hide;
    let er = |e: String, hist: &Value| Fail { what: format!("server: {e}"), input: hist.clone() };
    let mut s = Server::start(rt, json!({"templates": site.join("t"), "backend": [site.join("back")], "lang": if py { "python" } else { "rust" }, "hide_undefined": hide}), if vs { Some("Visual Studio Code") } else { None }).map_err(|e| er(e, hist))?;
    for (u, t) in files { open(l, u, t); }
    let mut reported = 0;
    let mut counts: std::collections::HashMap<String, usize> = Default::default();
    let mut check = |s: &Server, u: &str, want: Vec<Value>, counts: &mut std::collections::HashMap<String, usize>, hist: &Value| -> Result<(), Fail> {
        let n = counts.entry(u.to_string()).or_insert(0);
        *n += 1;
        let got = s.wait(u, *n).map_err(|e| er(e, hist))?;
        reported = reported.max(want.len());
        if diagnostics { same(&format!("published for {u}"), &sorted(&arr(&got[*n - 1]["diagnostics"])), &want, hist)?; }
        Ok(())
    };
    // the templates found at the start
    for (u, _) in files.iter().filter(|f| f.0 != bu) {
        let v = save(l, u).unwrap_or_default();
        let m: Vec<_> = v.iter().filter(|x| x.0 == JinjaDiagnostic::TemplateNotFound).map(|x| x.1.clone()).collect();
        l.add_code_actions([(u.to_string(), m)].into());
        check(&s, u, want_pub(&v), &mut counts, hist)?;
    }
    let open_both = |s: &mut Server, l: &mut LspFiles, u: &str, t: &str| -> Result<Option<Vec<Value>>, String> {
        s.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "", "version": 0, "text": t}}))?;
        Ok(open(l, u, t).map(|v| {
            let m: Vec<_> = v.iter().filter(|x| x.0 == JinjaDiagnostic::TemplateNotFound).map(|x| x.1.clone()).collect();
            l.add_code_actions([(u.to_string(), m)].into());
            want_pub(&v)
        }))
    };
    if again {
        let w = open_both(&mut s, l, bu, bt).map_err(|e| er(e, hist))?;
        if let Some(w) = w { check(&s, bu, w, &mut counts, hist)?; }
    }
    let w = open_both(&mut s, l, main, &d.text).map_err(|e| er(e, hist))?;
    let Some(w) = w else { return ok(false, json!(null)) };
    check(&s, main, w, &mut counts, hist)?;
    if l.verif_tree(LangType::Template, main).map(|t| t.root_node().has_error()).unwrap_or(true) { return ok(false, json!(null)); }
    let mut shift = 0;
    if (prop == "C01" || r.chance(1, 6)) && !r.chance(1, 5) {
        // the directories are read again, opened documents keep their text
        hist["reset"] = json!(true);
        s.request("workspace/executeCommand", json!({"command": "reset_variables", "arguments": []})).map_err(|e| er(e, hist))?;
        let mut us: Vec<&str> = files.iter().map(|f| f.0.as_str()).filter(|u| *u != bu && *u != main).collect();
        us.push(main);
        for u in us {
            let v = save(l, u).unwrap_or_default();
            let m: Vec<_> = v.iter().filter(|x| x.0 == JinjaDiagnostic::TemplateNotFound).map(|x| x.1.clone()).collect();
            l.add_code_actions([(u.to_string(), m)].into());
            check(&s, u, want_pub(&v), &mut counts, hist)?;
        }
    }
    if prop == "C01" || r.chance(1, 4) {
        // a change is followed by a report of its own
        let t = "x\ny ";
        hist["change"] = json!([{"at": [0, 0], "text": t}]);
        // sometimes another document right before
        let other = files.iter().find(|f| f.0.ends_with("f0.html")).filter(|_| r.chance(1, 2));
        if let Some((u, t)) = other {
            hist["changed_before"] = json!(u);
            let w = open_both(&mut s, l, u, t).map_err(|e| er(e, hist))?;
            if let Some(w) = w { check(&s, u, w, &mut counts, hist)?; }
        }
        let z = json!({"line": 0, "character": 0});
        let zero = Position::new(0, 0);
        let _g = rt.enter();
        let both: Vec<&str> = other.iter().map(|f| f.0.as_str()).chain([main]).collect();
        for u in &both {
            s.notify("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 1}, "contentChanges": [{"range": {"start": z, "end": z}, "text": t}]})).map_err(|e| er(e, hist))?;
            change(l, u, vec![(Some(Range::new(zero, zero)), t.into())]);
        }
        for u in both {
            let v = save(l, u).unwrap_or_default();
            let m: Vec<_> = v.iter().filter(|x| x.0 == JinjaDiagnostic::TemplateNotFound).map(|x| x.1.clone()).collect();
            l.add_code_actions([(u.to_string(), m)].into());
            check(&s, u, want_pub(&v), &mut counts, hist)?;
        }
        shift = 1;
    }
    if r.chance(1, 4) {
        hist["save"] = json!(main);
        s.notify("textDocument/didSave", json!({"textDocument": {"uri": main}})).map_err(|e| er(e, hist))?;
        let v = save(l, main).unwrap_or_default();
        check(&s, main, want_pub(&v), &mut counts, hist)?;
    }
    let mv = |p: Pt| if shift == 1 { if p.row == 0 { Pt { row: 1, col: p.col + 2 } } else { Pt { row: p.row + 1, col: p.col } } } else { p };
    let mut at: Vec<Pt> = vec![];
    for x in d.refs.iter() { let (a, b) = (x.start(), x.end()); at.push(Pt { row: a.row, col: a.col + r.b(b.col - a.col + 1) }); if r.chance(1, 3) { at.push(x.full_end()); } }
    for x in d.trefs.iter() { at.push(Pt { row: x.start.row, col: x.start.col + r.b(x.end.col - x.start.col + 1) }); at.push(x.start); at.push(x.end); }
    at.extend(d.pipes.iter().chain(&d.tests).chain(&d.plain).chain(&d.blanks));
    at.push(Pt { row: r.b(5), col: r.b(30) });
    while at.len() > 14 { let i = r.b(at.len()); at.swap_remove(i); }
    let tdoc = json!({"textDocument": {"uri": main}});
    for p in at {
        let p = pos(mv(p));
        let input = json!({"session": hist, "at": p});
        let mut q = json!({"textDocument": {"uri": main}, "position": p});
        if matches!(prop, "C06" | "C08" | "C18") { q["context"] = json!({"triggerKind": 1}); }
        let ask = |s: &mut Server, m: &str, q: &Value| s.request(m, q.clone()).map_err(|e| er(e, &input));
        if matches!(prop, "C06" | "C08" | "C18") {
            let want = want_completion(l, main, p);
            same("completion", &got_completion(&ask(&mut s, "textDocument/completion", &q)?, &want), &want, &input)?;
        }
        if prop == "C07" {
            same("text of the hover", &ask(&mut s, "textDocument/hover", &q)?["contents"], &want_hover(l, main, p), &input)?;
            same("definition", &norm(ask(&mut s, "textDocument/definition", &q)?), &norm(want_goto(l, main, p)), &input)?;
        }
        if matches!(prop, "C10" | "C19") {
            // the references for code actions follow the publication
            let q = json!({"textDocument": {"uri": main}, "range": {"start": p, "end": p}, "context": {"diagnostics": []}});
            let want = want_action(rt, l, main, p);
            let t = Instant::now();
            loop {
                let got = ask(&mut s, "textDocument/codeAction", &q)?;
                if got == want { break; }
                if t.elapsed() > Duration::from_secs(15) { same("code actions", &got, &want, &input)?; }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
    if prop == "C08" {
        // a statement just begun
        let t = *r.pick(&["{% ", "{%", "{% i", "{{ "]);
        hist["begun"] = json!(t);
        let zero = Position::new(0, 0);
        let z = json!(zero);
        let _g = rt.enter();
        let t2 = format!("{t}\n");
        s.notify("textDocument/didChange", json!({"textDocument": {"uri": main, "version": 9}, "contentChanges": [{"range": {"start": z, "end": z}, "text": t2}]})).map_err(|e| er(e, hist))?;
        change(l, main, vec![(Some(Range::new(zero, zero)), t2)]);
        let p = Position::new(0, t.len() as u32);
        let input = json!({"session": hist, "at": p});
        let want = want_completion(l, main, p);
        let got = s.request("textDocument/completion", json!({"textDocument": {"uri": main}, "position": p, "context": {"triggerKind": 1}})).map_err(|e| er(e, &input))?;
        same("completion of a statement", &got_completion(&got, &want), &want, &input)?;
    }
    if prop == "C12" || prop == "C01" {
        let want = json!(symbols(l, main));
        let got = s.request("textDocument/documentSymbol", tdoc).map_err(|e| er(e, hist))?;
        same("symbols", &got, &want, hist)?;
    }
    if diagnostics {
        // nothing else was published
        for u in counts.keys() {
            let n = s.publications(u).len();
            // a changed document may be saved once more by a code action
            if prop == "C03" || prop == "C04" { same(&format!("number of publications for {u}"), &n, &counts[u], hist)?; }
        }
        for p in s.all_publications() { let u = p["uri"].as_str().unwrap_or(""); if !counts.contains_key(u) { return fail(format!("published for {u}"), hist); } }
    }
    ok(reported > 1, hist.clone())
}

/// many documents at once: each is reported, and the next request is answered
pub fn burst(cx: &mut Ctx, r: &mut Rng) -> Res {
    let site = cx.dir.join("site");
    std::fs::remove_dir_all(&site).ok();
    std::fs::create_dir_all(site.join("t")).unwrap();
    let site = std::fs::canonicalize(&site).unwrap();
    let n = 80 + r.b(200);
    let long = r.b(400);
    let reset = r.chance(1, 2);
    let hist = json!({"documents": n, "references": long + 1, "reset": reset});
    let er = |e: String| Fail { what: format!("server: {e}"), input: hist.clone() };
    let res = (|| {
        let mut s = Server::start(&cx.rt.clone(), json!({"templates": site.join("t"), "backend": [], "lang": "rust"}), None).map_err(er)?;
        let text = "{{ nothing }}\n".repeat(long + 1);
        let at = |i: usize| Url::from_file_path(site.join(format!("t/d{i}.html"))).unwrap().to_string();
        for i in 0..n {
            s.notify("textDocument/didOpen", json!({"textDocument": {"uri": at(i), "languageId": "", "version": 0, "text": text}})).map_err(er)?;
            if reset && i % 10 == 3 { s.notify("textDocument/didSave", json!({"textDocument": {"uri": at(i)}})).map_err(er)?; }
        }
        let got = s.request("textDocument/documentSymbol", json!({"textDocument": {"uri": at(n - 1)}})).map_err(er)?;
        same("symbols", &got, &json!([]), &hist)?;
        for i in 0..n {
            let v = s.wait(&at(i), 1).map_err(er)?;
            same("published problems", &arr(&v[0]["diagnostics"]).len(), &(long + 1), &hist)?;
        }
        ok(true, hist.clone())
    })();
    std::fs::remove_dir_all(&site).ok();
    res
}

/// C20: requests, notifications and reports in any order, nothing is waited for: every request is answered once
pub fn c20(cx: &mut Ctx, r: &mut Rng) -> Res {
    let site = cx.dir.join("site");
    std::fs::remove_dir_all(&site).ok();
    std::fs::create_dir_all(site.join("t/sub")).unwrap();
    std::fs::create_dir_all(site.join("back")).unwrap();
    let site = std::fs::canonicalize(&site).unwrap();
    let py = r.chance(1, 4);
    let docs: Vec<String> = ["t/a.html", "t/b.j2", "t/sub/c.jinja", "back/b.rs", "back/b.py", "t/n.txt", "t/new.html"].iter().map(|f| Url::from_file_path(site.join(f)).unwrap().to_string()).collect();
    let mut text = |r: &mut Rng, u: &str| if u.ends_with(".rs") || u.ends_with(".py") { backend(r, u.ends_with(".py")) } else { doc(r, false).text };
    for u in docs.iter().take(6) {
        if r.chance(2, 3) { let t = text(r, u); std::fs::write(Url::parse(u).unwrap().to_file_path().unwrap(), t).unwrap(); }
    }
    let options = match r.b(5) { 0 => Value::Null, 1 => json!({"templates": site.join("none"), "backend": [], "lang": "rust"}), 2 => json!({"templates": site.join("t"), "backend": [], "lang": "cobol"}), _ => json!({"templates": site.join("t"), "backend": [site.join("back")], "lang": if py { "python" } else { "rust" }}) };
    let mut hist = vec![json!({"initialize": options})];
    let rt = cx.rt.clone();
    let res = (|| {
        let er = |e: String, hist: &[Value]| Fail { what: format!("server: {e}"), input: json!(hist) };
        let mut s = Server::start(&rt, options.clone(), if r.chance(1, 2) { Some("Visual Studio Code") } else { None }).map_err(|e| er(e, &hist))?;
        let mut ids = vec![];
        let n = if r.chance(1, 6) { 200 + r.b(300) } else { 5 + r.b(60) };
        let calm = r.b(4);
        // so many notifications that the queue of the server task fills up
        if r.chance(1, 10) {
            let (k, long) = (80 + r.b(120), 1 + r.b(100));
            let lines = r.pick(&["{{ nothing }}\n", "{% include 'none' %}\n", "{% set a = 1 %}\n"]).repeat(long);
            hist.push(json!({"opened_at_once": k, "text": lines}));
            for i in 0..k {
                let u = Url::from_file_path(site.join(format!("t/flood{i}.html"))).unwrap().to_string();
                s.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "", "version": 0, "text": lines}})).map_err(|e| er(e, &hist))?;
            }
        }
        for _ in 0..n {
            let u = r.pick(&docs).clone();
            let p = json!({"line": r.b(6), "character": r.b(40)});
            let q = json!({"textDocument": {"uri": u}, "position": p});
            let d = json!({"textDocument": {"uri": u}});
            let big = r.chance(1, 10);
            let (m, v, ask) = match r.b(if calm == 0 { 7 } else { 14 }) {
                0 => ("textDocument/hover", q, true),
                1 => ("textDocument/definition", q, true),
                2 => ("textDocument/completion", { let mut q = q; if r.chance(1, 2) { q["context"] = json!({"triggerKind": 1}); } q }, true),
                3 => ("textDocument/documentSymbol", d, true),
                4 => ("textDocument/codeAction", json!({"textDocument": {"uri": u}, "range": {"start": p, "end": p}, "context": {"diagnostics": []}}), true),
                5 => ("workspace/executeCommand", json!({"command": *r.pick(&["reset_variables", "warn", "unknown"]), "arguments": []}), true),
                6 => ("textDocument/hover", q, true),
                7 | 8 => ("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "", "version": 0, "text": if big { "{{ nothing }}\n{% include 'none' %}\n".repeat(200) } else { text(r, &u) }}}), false),
                9 | 10 => { let z = json!({"line": 0, "character": 0}); ("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 1}, "contentChanges": [{"range": {"start": z, "end": z}, "text": "{{ a }}\n"}]}), false) }
                11 => ("textDocument/didSave", d, false),
                12 => ("textDocument/didClose", d, false),
                _ => ("workspace/didChangeConfiguration", json!({"settings": match r.b(3) { 0 => Value::Null, 1 => json!({"templates": site.join("t"), "backend": [], "lang": "rust"}), _ => json!({"templates": site.join("t"), "backend": [site.join("back")], "lang": "python"}) }}), false),
            };
            hist.push(json!([m, v]));
            if ask { ids.push(s.post(m, v).map_err(|e| er(e, &hist))?); } else { s.notify(m, v).map_err(|e| er(e, &hist))?; }
        }
        let open = s.unanswered(&ids);
        let methods = |ids: &[i64]| ids.iter().map(|i| i.to_string()).collect::<Vec<_>>();
        same("requests without an answer", &methods(&open), &vec![], &json!(hist))?;
        s.request("textDocument/documentSymbol", json!({"textDocument": {"uri": docs[0]}})).map_err(|e| er(e, &hist))?;
        let a = s.answers();
        let more: Vec<i64> = ids.iter().copied().filter(|i| a[i] != 1).collect();
        same("requests with more than one answer", &methods(&more), &vec![], &json!(hist))?;
        ok(ids.len() > 2 && n > ids.len(), json!(hist))
    })();
    std::fs::remove_dir_all(&site).ok();
    res
}

// ------------------------------------------------------------------ C21
/// a configuration: the directory it names, with or without a backend directory and its language, and whether undefined variables are left out
#[derive(Clone)]
struct Conf { dir: usize, lang: &'static str, backend: bool, hide: Option<bool>, relative: bool }
impl Conf {
    fn new(r: &mut Rng) -> Conf { Conf { dir: r.b(3), lang: *r.pick(&["rust", "rust", "python", "cobol"]), backend: r.chance(2, 3), hide: *r.pick(&[None, None, Some(false), Some(true)]), relative: r.chance(1, 2) } }
    fn paths(&self, site: &std::path::Path) -> (String, Vec<String>) {
        let at = |d: String| if self.relative { format!("./{d}") } else { site.join(d).to_str().unwrap().to_string() };
        (at(format!("t{}", self.dir)), if self.backend { vec![at(format!("{}{}", self.lang, self.dir))] } else { vec![] })
    }
    fn json(&self, site: &std::path::Path) -> Value {
        let (t, b) = self.paths(site);
        let mut v = json!({"templates": t, "backend": b, "lang": self.lang});
        if let Some(h) = self.hide { v["hide_undefined"] = json!(h); }
        v
    }
    fn toml(&self, site: &std::path::Path) -> String {
        let (t, b) = self.paths(site);
        let h = match self.hide { Some(h) => format!("hide_undefined = {h}\n"), None => String::new() };
        format!("[jinja-lsp]\ntemplates = {t:?}\nbackend = {b:?}\nlang = {:?}\n{h}", self.lang)
    }
    /// what is published for the template of the directory: severities of `nothing` and `user`
    fn want(&self) -> Option<Vec<Value>> {
        if self.lang == "cobol" { return None; }
        if self.hide == Some(true) { return Some(vec![]); }
        Some(vec![json!([0, 2]), json!([1, if self.backend { 3 } else { 2 }])])
    }
}
/// what is not a configuration
fn no_conf(r: &mut Rng) -> Value { r.pick(&[json!({}), json!({"templates": "./t0"}), json!({"templates": 1, "backend": [], "lang": "rust"}), json!([]), json!("rust"), json!({"jinja-lsp": {"templates": "./t1", "backend": [], "lang": "rust"}})]).clone() }
pub fn c21(cx: &mut Ctx, r: &mut Rng) -> Res {
    let site = cx.dir.join("site");
    std::fs::remove_dir_all(&site).ok();
    for i in 0..3 {
        for d in ["t", "rust", "python", "cobol"] { std::fs::create_dir_all(site.join(format!("{d}{i}"))).unwrap(); }
        std::fs::write(site.join(format!("t{i}/x.html")), "{{ nothing }}\n{{ user }}\n").unwrap();
        std::fs::write(site.join(format!("rust{i}/b.rs")), "fn f() {\n    jinja.add_global(\"user\", 3);\n}\n").unwrap();
        std::fs::write(site.join(format!("python{i}/b.py")), "def f(env):\n    jinja_env.globals[\"user\"] = 1\n").unwrap();
    }
    let site = std::fs::canonicalize(&site).unwrap();
    let before = std::env::current_dir().unwrap();
    std::env::set_current_dir(&site).unwrap();
    let rt = cx.rt.clone();
    let res = c21_in(&rt, r, &site);
    std::env::set_current_dir(before).unwrap();
    std::fs::remove_dir_all(&site).ok();
    res
}
fn c21_in(rt: &tokio::runtime::Handle, r: &mut Rng, site: &std::path::Path) -> Res {
    let mut hist = vec![];
    // the configuration files, in the order they count
    let mut current: Option<Conf> = None;
    for f in ["pyproject.toml", "Cargo.toml", "jinja-lsp.toml"] {
        let c = Conf::new(r);
        let (t, good) = match r.b(6) { 0 | 1 => continue, 2 => (String::new(), false), 3 => ((*r.pick(&["[package]\nname = \"x\"\n", "[jinja-lsp]\nlang = \"rust\"\n", "[jinja-lsp\n", "[tool.jinja-lsp]\nx = 1\n"])).to_string(), false), 4 => (format!("[package]\nname = \"x\"\n\n{}", c.toml(site)), true), _ => (c.toml(site), true) };
        hist.push(json!({"file": f, "text": t}));
        std::fs::write(site.join(f), t).unwrap();
        if good && current.is_none() { current = Some(c); }
    }
    let options = match r.b(4) { 0 => Value::Null, 1 => no_conf(r), _ => { let c = Conf::new(r); let v = c.json(site); current = Some(c); v } };
    hist.push(json!({"initialize": options}));
    let er = |e: String, hist: &[Value]| Fail { what: format!("server: {e}"), input: json!(hist) };
    let mut s = Server::start(rt, options, None).map_err(|e| er(e, &hist))?;
    let url_of = |d: usize| Url::from_file_path(site.join(format!("t{d}/x.html"))).unwrap().to_string();
    let mut want: [Vec<Vec<Value>>; 3] = Default::default();
    let n = 1 + r.b(3);
    let mut changed = false;
    // with a language that is not supported nothing is reported, so that what follows may overtake it: then the directories are read more often
    let mut overtaken = false;
    let mut effective: Option<Conf> = None;
    for k in 0..n {
        if k > 0 {
            match r.b(4) {
                0 => {
                    hist.push(json!("reset_variables"));
                    s.request("workspace/executeCommand", json!({"command": "reset_variables", "arguments": []})).map_err(|e| er(e, &hist))?;
                }
                1 => {
                    let v = no_conf(r);
                    hist.push(json!({"didChangeConfiguration": v}));
                    s.notify("workspace/didChangeConfiguration", json!({"settings": v})).map_err(|e| er(e, &hist))?;
                    if current.is_none() { continue; }
                }
                _ => {
                    let c = Conf::new(r);
                    hist.push(json!({"didChangeConfiguration": c.json(site)}));
                    s.notify("workspace/didChangeConfiguration", json!({"settings": c.json(site)})).map_err(|e| er(e, &hist))?;
                    current = Some(c);
                    changed = true;
                }
            }
        }
        if let Some((d, w)) = current.as_ref().and_then(|c| Some((c.dir, c.want()?))) { want[d].push(w); effective = current.clone(); } else { overtaken = true; }
        for (d, w) in want.iter().enumerate() { if !w.is_empty() { s.wait(&url_of(d), w.len()).map_err(|e| er(e, &hist))?; } }
    }
    // an answer shows that the last message was worked on
    for _ in 0..3 { s.request("textDocument/documentSymbol", json!({"textDocument": {"uri": url_of(0)}})).map_err(|e| er(e, &hist))?; }
    if r.chance(1, 4) { std::thread::sleep(Duration::from_millis(3)); }
    for (d, w) in want.iter().enumerate() {
        let once = |v: &[Vec<Value>]| { let mut v = v.to_vec(); if overtaken { v.dedup(); } v };
        let t = Instant::now();
        loop {
            let got: Vec<Vec<Value>> = s.publications(&url_of(d)).iter().map(|p| sorted(&arr(&p["diagnostics"]).iter().map(|x| json!([x["range"]["start"]["line"], x["severity"]])).collect::<Vec<_>>())).collect();
            if once(&got) == once(w) { break; }
            // where some are repeated, the last one may still be on its way
            if !overtaken || t.elapsed() > Duration::from_secs(15) { same(&format!("reports for the template of directory {d}"), &once(&got), &once(w), &json!(hist))?; }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    // what is opened from now on follows the last configuration that was read
    let u = Url::from_file_path(site.join(format!("t{}/y.html", r.b(3)))).unwrap().to_string();
    hist.push(json!({"open": u}));
    s.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "", "version": 0, "text": "{{ nothing }}\n{{ user }}\n"}})).map_err(|e| er(e, &hist))?;
    let w = match &effective { Some(c) => c.want().unwrap(), None => vec![json!([0, 2]), json!([1, 2])] };
    let t = Instant::now();
    loop {
        let got: Vec<Value> = s.wait(&u, 1).map_err(|e| er(e, &hist))?.last().map(|p| sorted(&arr(&p["diagnostics"]).iter().map(|x| json!([x["range"]["start"]["line"], x["severity"]])).collect::<Vec<_>>())).unwrap();
        if got == w { break; }
        if !overtaken || t.elapsed() > Duration::from_secs(15) { same("report for a document opened afterwards", &got, &w, &json!(hist))?; }
        std::thread::sleep(Duration::from_millis(2));
    }
    ok(changed || n > 1 || hist.len() > 3, json!(hist))
}
