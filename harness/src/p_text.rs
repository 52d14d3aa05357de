//! C01 C02 C11 C13: texts, histories, robustness
use crate::ctx::*;
use crate::gen::*;
use crate::p_tmpl::U;
use crate::rng::Rng;
use jinja_lsp_queries::tree_builder::LangType;
use serde_json::{json, Value};
use tower_lsp::lsp_types::*;

/// the client's document: UTF-16 code units, lines ended by LF, CR LF or CR
fn lines(u: &[u16]) -> Vec<(usize, usize)> {
    let (mut v, mut s, mut i) = (vec![], 0, 0);
    while i < u.len() {
        if u[i] == 10 { v.push((s, i)); s = i + 1; i += 1; }
        else if u[i] == 13 { v.push((s, i)); i += if i + 1 < u.len() && u[i + 1] == 10 { 2 } else { 1 }; s = i; }
        else { i += 1; }
    }
    v.push((s, u.len()));
    v
}
fn offset(u: &[u16], p: Position) -> usize {
    let l = lines(u);
    if p.line as usize >= l.len() { return u.len(); }
    let (s, e) = l[p.line as usize];
    (s + p.character as usize).min(e)
}
pub fn client_edit(u: &[u16], range: Option<Range>, text: &str) -> Vec<u16> {
    let t: Vec<u16> = text.encode_utf16().collect();
    match range {
        None => t,
        Some(r) => {
            let (mut a, mut b) = (offset(u, r.start), offset(u, r.end));
            if a > b { std::mem::swap(&mut a, &mut b); }
            let mut v = u[..a].to_vec();
            v.extend(t);
            v.extend(&u[b..]);
            v
        }
    }
}
fn splits(u: &[u16], o: usize) -> bool { o < u.len() && (0xDC00..0xE000).contains(&u[o]) && o > 0 }
pub const PIECES: [&str; 41] = ["{{ a }}", "{% if x %}", "{% endif %}", "{% for i in b %}", "{% endfor %}", "<p>", "é", "\n", "{% set q = 1 %}", "}}", "{{", "%}", "{%", "{# c #}", "\"", "'", " | f(1,2)",
    "a.b.c", "\u{1F600}", "{% macro m(a,b) %}", "{% endmacro %}", "{% raw %}", "{% endraw %}", "{% include \"x.html\" %}", " ", "is", "\r\n", "\r", "{{ é.b }}", "{% block c %}", "{% endblock %}", "{% extends 'é' %}",
    "{% with a = b %}", "{% endwith %}", "{% import \"\" as x %}", "ab\u{0301}", "{% from 'b' import c %}", "{{ x | ", "\u{2028}", "{% else %}", "\u{FEFF}"];
pub fn pieces(r: &mut Rng, n: usize) -> String {
    let mut t = String::new();
    for _ in 0..n { t.push_str(r.pick(&PIECES)); if r.chance(1, 5) { t.push('\n'); } }
    t
}
fn position(r: &mut Rng, u: &[u16]) -> Position {
    let l = lines(u);
    loop {
        let line = r.b(l.len() + 1);
        let w = l.get(line).map(|x| x.1 - x.0).unwrap_or(3);
        let c = match r.b(12) { 0 => w + 1 + r.b(3), 1 => 1000, 2 => w, 3 => 0, _ => r.b(w + 1) };
        let line = if r.chance(1, 40) { 99999 } else { line };
        let p = Position::new(line as u32, c as u32);
        if !splits(u, offset(u, p)) { return p; }
    }
}
fn edits(r: &mut Rng, u: &mut Vec<u16>) -> Vec<(Option<Range>, String)> {
    let mut v = vec![];
    for _ in 0..1 + r.b(4) {
        let n = r.b(3);
        let text = pieces(r, n);
        let range = if r.chance(1, 8) { None } else {
            let a = position(r, u);
            let b = if r.chance(1, 3) { a } else { position(r, u) };
            Some(Range::new(a, b))
        };
        *u = client_edit(u, range, &text);
        v.push((range, text));
    }
    v
}
pub fn c01(cx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(1, 60) { return crate::rpc::rpc(cx, r, "C01"); }
    cx.reset();
    let uri = *r.pick(&[U, "file:///w/b.rs", "file:///w/é.jinja"]);
    let n = r.b(8);
    let text = format!("{}{}", if r.chance(1, 12) { "\u{FEFF}" } else { "" }, pieces(r, n));
    let mut u: Vec<u16> = text.encode_utf16().collect();
    let mut hist = vec![json!({"open": text})];
    open(&mut cx.l, uri, &text);
    let name = url(uri).to_string();
    let want = |u: &Vec<u16>| String::from_utf16(u).unwrap();
    same("text after opening", &cx.l.verif_text(&name).unwrap_or_default(), &want(&u), &json!(hist))?;
    let k = 1 + r.b(4);
    for _ in 0..k {
        if r.chance(1, 12) { let n = r.b(6); let t = pieces(r, n); u = t.encode_utf16().collect(); open(&mut cx.l, uri, &t); hist.push(json!({"open": t})); }
        let e = edits(r, &mut u);
        hist.push(json!({"change": e}));
        change(&mut cx.l, uri, e);
        same("text after the change", &cx.l.verif_text(&name).unwrap_or_default(), &want(&u), &json!(hist))?;
        if r.chance(1, 4) { save(&mut cx.l, uri); hist.push(json!("save")); same("text after saving", &cx.l.verif_text(&name).unwrap_or_default(), &want(&u), &json!(hist))?; }
    }
    ok(!u.is_empty(), json!(hist))
}
type State = (Option<String>, Option<String>, Option<String>, Value, Value);
fn state(l: &jinja_lsp::lsp_files::LspFiles, uri: &str) -> State {
    let u = url(uri).to_string();
    (l.verif_text(&u), tree(l, LangType::Template, uri), tree(l, LangType::Backend, uri),
        json!(l.variables.get(&u).map(|v| v.iter().map(idj).collect::<Vec<_>>())), json!(l.code_actions.get(&u).map(|v| v.iter().map(idj).collect::<Vec<_>>())))
}
fn backend_text(r: &mut Rng) -> String {
    let mut t = String::from("fn f() {\n");
    for _ in 0..r.b(4) { t.push_str(r.pick(&["    let c = context! { user => 1 };\n", "    render_jinja(\"missing.html\");\n", "    jinja.add_global(\"PI\", 3);\n", "    let x = \"é\";\n"])); }
    t.push_str("}\n");
    t
}
fn some_text(r: &mut Rng, uri: &str) -> String {
    if uri.ends_with("rs") { return backend_text(r); }
    if r.chance(1, 4) { let n = r.b(8); return pieces(r, n); }
    let mut o = Opt::new();
    o.len = 4;
    template(r, o).text
}
pub fn c02(cx: &mut Ctx, r: &mut Rng) -> Res {
    cx.reset();
    let uri = *r.pick(&[U, U, "file:///w/b.rs"]);
    let mut hist: Vec<Value> = vec![];
    let mut u: Vec<u16> = vec![];
    let k = 2 + r.b(5);
    for i in 0..k {
        match if i == 0 { 0 } else { r.b(6) } {
            0 => { let t = some_text(r, uri); u = t.encode_utf16().collect(); open(&mut cx.l, uri, &t); hist.push(json!({"open": t})); }
            1 => { save(&mut cx.l, uri); hist.push(json!("save")); }
            2 => { let t = some_text(r, uri); u = t.encode_utf16().collect(); change(&mut cx.l, uri, vec![(None, t.clone())]); hist.push(json!({"change": [[null, t]]})); }
            _ => { let e = edits(r, &mut u); hist.push(json!({"change": e})); change(&mut cx.l, uri, e); }
        }
    }
    let text = String::from_utf16(&u).unwrap();
    let lang = if uri.ends_with("rs") { LangType::Backend } else { LangType::Template };
    let other = if uri.ends_with("rs") { LangType::Template } else { LangType::Backend };
    let name = url(uri).to_string();
    let (t1, t1o) = (tree(&cx.l, lang, uri), tree(&cx.l, other, uri));
    let valid = cx.l.verif_tree(lang, &name).map(|t| !t.root_node().has_error()).unwrap_or(false);
    let d1 = save(&mut cx.l, uri).map(|v| v.iter().map(|d| format!("{:?}", (&d.0, idj(&d.1).to_string()))).collect::<Vec<_>>());
    let s1 = symbols(&cx.l, uri);
    let mut probe = vec![];
    let ps: Vec<Position> = (0..6).map(|_| Position::new(r.b(4) as u32, r.b(40) as u32)).collect();
    for p in &ps { probe.push(format!("{:?} {:?} {:?}", hover(&cx.l, uri, *p), complete(&cx.l, uri, *p), goto(&cx.l, uri, *p))); }
    cx.reset();
    let d2 = open(&mut cx.l, uri, &text).map(|v| v.iter().map(|d| format!("{:?}", (&d.0, idj(&d.1).to_string()))).collect::<Vec<_>>());
    let input = json!({"history": hist, "text": text});
    same("syntax tree", &t1, &tree(&cx.l, lang, uri), &input)?;
    same("tree of the other language", &t1o, &tree(&cx.l, other, uri), &input)?;
    if valid {
        // references are reported in the order of a hash map when there are several templates
        let (mut d1, mut d2) = (d1, d2);
        if let Some(d) = d1.as_mut() { d.sort(); }
        if let Some(d) = d2.as_mut() { d.sort(); }
        same("diagnostics", &d1, &d2, &input)?;
        same("symbols", &format!("{s1:?}"), &format!("{:?}", symbols(&cx.l, uri)), &input)?;
        for (p, a) in ps.iter().zip(&probe) {
            let b = format!("{:?} {:?} {:?}", hover(&cx.l, uri, *p), complete(&cx.l, uri, *p), goto(&cx.l, uri, *p));
            same("answers", a, &b, &json!({"history": hist, "text": text, "at": p}))?;
        }
    }
    ok(hist.len() > 2, input)
}
pub fn c11(cx: &mut Ctx, r: &mut Rng) -> Res {
    cx.reset();
    let uris = ["file:///w/a.html", "file:///w/ab.html", "file:///w/a.html.jinja", "file:///x/b.rs", "file:///w/sub/a.html", "file:///w/c.j2"];
    let mut hist: Vec<Value> = vec![];
    let mut texts: Vec<Vec<u16>> = vec![vec![]; uris.len()];
    let mut opened = 0;
    let k = 4 + r.b(8);
    for _ in 0..k {
        let i = r.b(uris.len());
        let before: Vec<State> = uris.iter().map(|u| state(&cx.l, u)).collect();
        let mut touched = vec![i];
        match r.b(9) {
            0..=2 => { let t = some_text(r, uris[i]); texts[i] = t.encode_utf16().collect(); hist.push(json!({"open": [uris[i], t]})); open(&mut cx.l, uris[i], &t); opened += 1; }
            3 => { if before[i].0.is_some() { let e = edits(r, &mut texts[i]); hist.push(json!({"change": [uris[i], e]})); change(&mut cx.l, uris[i], e); } }
            4 => { hist.push(json!({"save": uris[i]})); save(&mut cx.l, uris[i]); }
            5 => {
                let p = Position::new(r.b(3) as u32, r.b(30) as u32);
                hist.push(json!({"ask": [uris[i], p]}));
                hover(&cx.l, uris[i], p); complete(&cx.l, uris[i], p); goto(&cx.l, uris[i], p); symbols(&cx.l, uris[i]); cx.l.code_action(action_params(uris[i], p));
                touched.clear();
            }
            6 => {
                hist.push(json!({"report": uris[i]}));
                let v = vec![jinja_lsp_queries::search::Identifier::new("gone.html", tree_sitter::Point::new(0, 1), tree_sitter::Point::new(0, 9))];
                let mut m = std::collections::HashMap::new();
                m.insert(uris[i].to_string(), v.clone());
                cx.l.add_code_actions(m);
                let got = cx.l.code_actions.get(uris[i]).map(|v| v.iter().map(idj).collect::<Vec<_>>());
                same("recorded missing templates", &got, &Some(v.iter().map(idj).collect()), &json!(hist))?;
            }
            _ => {
                let id = r.pick(&["a.html", "ab", "/w/", "x/b.rs", "nothing", "sub", "file:///w/a.html"]).to_string();
                hist.push(json!({"delete": id}));
                cx.l.delete_documents_with_id(id.clone());
                let docs: Vec<usize> = (0..uris.len()).filter(|j| before[*j].0.is_some() && uris[*j].contains(&id)).collect();
                for j in &docs {
                    let s = state(&cx.l, uris[*j]);
                    if s != (None, None, None, Value::Null, Value::Null) { return fail(format!("{} is still known after deletion: {s:?}", uris[*j]), &json!(hist)); }
                    texts[*j].clear();
                }
                touched = docs;
            }
        }
        for j in 0..uris.len() {
            if touched.contains(&j) { continue; }
            same(&format!("state of {}", uris[j]), &state(&cx.l, uris[j]), &before[j], &json!(hist))?;
        }
    }
    ok(opened > 1, json!(hist))
}
pub fn c13(cx: &mut Ctx, r: &mut Rng) -> Res {
    let py = r.chance(1, 6);
    let (mut u, uri);
    cx.reset();
    let uris = [U, "file:///w/b.rs", "file:///w/b.py", "file:///w/noext", "file:///w/%C3%A9%20.jinja"];
    uri = *r.pick(&uris[..]);
    let uri = if py { uris[2] } else if r.chance(2, 3) { U } else { uri };
    let text = match r.b(3) {
        0 => some_text(r, uri),
        1 => { let n = r.b(12); pieces(r, n) }
        _ => { let mut t: Vec<char> = some_text(r, uri).chars().collect(); for _ in 0..1 + r.b(4) { if t.is_empty() { break; } let i = r.b(t.len()); match r.b(3) { 0 => { t.remove(i); } 1 => { t.truncate(i); } _ => { let c = *r.pick(&['{', '%', '}', '"', '|', '.', 'é', '\n', '(', ' ']); t.insert(i, c); } } } t.into_iter().collect() }
    };
    u = text.encode_utf16().collect::<Vec<u16>>();
    let mut hist = vec![json!({"open": [uri, text]})];
    let vs = r.chance(1, 2);
    let dir = cx.dir.join("t");
    let rt = cx.rt.clone();
    let l = if py { cx.python() } else { &mut cx.l };
    l.is_vscode = vs;
    l.config.templates = dir;
    let _g = rt.enter();
    let mut last = json!(null);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if r.chance(1, 3) {
            // documents never opened
            let p = position(r, &u);
            let e = edits(r, &mut u.clone());
            let ghost = *r.pick(&[uri, "file:///w/never.html", "file:///w/never.rs", "file:///w/", "untitled:x.html"]);
            hist.push(json!({"not opened": [ghost, p]}));
            save(l, ghost); change(l, ghost, e); hover(l, ghost, p); goto(l, ghost, p); complete(l, ghost, p); symbols(l, ghost); l.code_action(action_params(ghost, p));
            l.read_templates("x".into(), Range::default(), p, None);
            l.read_variables(&url(ghost), p, None, None);
            l.read_objects(url(ghost));
            l.read_python_ids(url(ghost));
            l.delete_documents_with_id("never".into());
        }
        open(l, uri, &text);
        for _ in 0..r.b(4) {
            if r.chance(1, 2) { let e = edits(r, &mut u); hist.push(json!({"change": e})); change(l, uri, e); }
            if r.chance(1, 4) { hist.push(json!("save")); save(l, uri); }
            for _ in 0..6 {
                let p = if r.chance(1, 6) { Position::new(*r.pick(&[0u32, 1, 100, 2147483647]), *r.pick(&[0u32, 7, 5000, 2147483646])) } else { position(r, &u) };
                last = json!(p);
                hover(l, uri, p).map(|h| l.data_type(url(uri), h.0));
                goto(l, uri, p);
                if let Some((c, _)) = complete(l, uri, p) {
                    use jinja_lsp_queries::search::objects::CompletionType::*;
                    match c {
                        Identifier => { l.read_variables(&url(uri), p, None, None); }
                        IncompleteIdentifier { name, range } => { l.read_variables(&url(uri), p, Some((name, range)), None); }
                        IncludedTemplate { name, range } => { l.read_templates(name, range, p, None); }
                        _ => (),
                    }
                }
                symbols(l, uri);
                let a = l.code_action(action_params(uri, p));
                if let Some(a) = a { l.process_code_actions(a, DidSaveTextDocumentParams { text_document: TextDocumentIdentifier::new(url(uri)), text: None }); }
                l.read_objects(url(uri));
                l.read_python_ids(url(uri));
            }
        }
    }));
    let input = json!({"history": hist, "at": last, "uri": uri});
    if res.is_err() {
        let m = crate::PANIC.lock().unwrap().clone();
        cx.l = Default::default();
        cx.py = None;
        return fail(format!("panicked: {m}"), &input);
    }
    ok(true, input)
}
