//! the recorded findings (known-findings.txt), each on its own input
use crate::ctx::*;
use crate::p_tmpl::U;
use jinja_lsp_queries::search::objects::CompletionType;
use serde_json::{json, Value};
use tower_lsp::lsp_types::*;

type R = Result<(), String>;
fn undefined(cx: &mut Ctx, text: &str, want: &[&str]) -> R {
    cx.reset();
    let d = open(&mut cx.l, U, text).unwrap_or_default();
    let got: Vec<String> = d.iter().filter(|x| format!("{:?}", x.0) == "Undefined").map(|x| format!("{}@{}:{}", x.1.name, x.1.start.row, x.1.start.column)).collect();
    if got == want { Ok(()) } else { Err(format!("in {text:?} undefined variables are {got:?}, expected {want:?}")) }
}
fn defs(cx: &mut Ctx, text: &str, want: &[(&str, usize)]) -> R {
    cx.reset();
    open(&mut cx.l, U, text);
    let got: Vec<(String, usize)> = cx.l.variables.get(url(U).as_str()).map(|v| v.iter().map(|i| (i.name.clone(), i.scope_ends.1.column)).collect()).unwrap_or_default();
    if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == b.0 && a.1 == b.1) { Ok(()) } else { Err(format!("in {text:?} definitions with scope ends are {got:?}, expected {want:?}")) }
}
fn completion(cx: &mut Ctx, text: &str, col: u32, want: Option<CompletionType>) -> R {
    cx.reset();
    open(&mut cx.l, U, text);
    let got = complete(&cx.l, U, Position::new(0, col)).map(|c| c.0);
    if got == want { Ok(()) } else { Err(format!("in {text:?} completion at column {col} is {got:?}, expected {want:?}")) }
}
fn backend(cx: &mut Ctx, text: &str, want: &[&str]) -> R {
    cx.reset();
    let uri = "file:///w/b.rs";
    open(&mut cx.l, uri, text);
    let got: Vec<String> = cx.l.variables.get(uri).map(|v| v.iter().map(|i| i.name.clone()).collect()).unwrap_or_default();
    if got == want { Ok(()) } else { Err(format!("in {text:?} backend variables are {got:?}, expected {want:?}")) }
}
fn incomplete(name: &str, a: u32, b: u32) -> Option<CompletionType> {
    Some(CompletionType::IncompleteIdentifier { name: name.into(), range: Range::new(Position::new(0, a), Position::new(0, b)) })
}
fn columns(cx: &mut Ctx) -> R {
    cx.reset();
    open(&mut cx.l, U, "é{% set a = 1 %}");
    let s = symbols(&cx.l, U).unwrap_or_default();
    let got: Vec<u32> = s.iter().map(|s| s.range.start.character).collect();
    if got == [8] { Ok(()) } else { Err(format!("in \"é{{% set a = 1 %}}\" the symbol starts at column {got:?} instead of 8 UTF-16 units")) }
}
fn open_broken(cx: &mut Ctx) -> R {
    let text = "{% import \"\" as x %}{%{% with a = b %}\n | f(1,2){{ a }}";
    cx.reset();
    let a = open(&mut cx.l, U, text).map(|v| v.len());
    cx.reset();
    open(&mut cx.l, U, "{{ a }}");
    let b = open(&mut cx.l, U, text).map(|v| v.len());
    if a == b { Ok(()) } else { Err(format!("opening {text:?} reports {a:?} problems, opening it over a valid text {b:?}")) }
}
pub fn run(cx: &mut Ctx, prop: &str) -> Value {
    let mut v: Vec<Value> = vec![];
    let mut add = |p: &str, id: &str, r: R| if p == prop { v.push(json!({"id": id, "fails": r.is_err(), "what": r.err()})) };
    add("C03", "with-value", undefined(cx, "{% with a = b %}{{ b }}{% endwith %}", &["b@0:12", "b@0:19"]));
    add("C03", "macro-default", undefined(cx, "{% macro m(a=b) %}{{ b }}{% endmacro %}", &["b@0:13", "b@0:21"]));
    add("C03", "set-tuple", undefined(cx, "{% set a, b = 1, 2 %}{{ b }}", &[]));
    add("C03", "block-name", undefined(cx, "{% block content scoped %}{% endblock %}", &[]));
    add("C03", "imported-name", undefined(cx, "{% import \"base.html\" as m %}{{ m }}", &[]));
    add("C03", "from-imported-name", undefined(cx, "{% from \"base.html\" import m %}{{ m }}", &[]));
    add("C03", "inline-test", undefined(cx, "{% set a = 1 %}{{ a is defined }}", &[]));
    add("C03", "keyword-argument", undefined(cx, "{% set f = 1 %}{{ f(a=1) }}", &[]));
    add("C03", "for-tuple", undefined(cx, "{% for a, b, c in [] %}{{ c }}{% endfor %}", &[]));
    add("C03", "filter-block", undefined(cx, "{% filter upper %}{% endfilter %}", &[]));
    add("C03", "raw-content", undefined(cx, "{% raw %}{{ a }}{% endraw %}", &[]));
    add("C03", "ignore-missing", undefined(cx, "{% include \"base.html\" ignore missing %}", &[]));
    add("C02", "open-with-errors", open_broken(cx));
    add("C05", "with-value", defs(cx, "{% with a = b %}{% endwith %}", &[("a", 16)]));
    add("C05", "macro-default", defs(cx, "{% macro m(a=b) %}{% endmacro %}", &[("m", 32), ("a", 18)]));
    add("C05", "set-tuple", defs(cx, "{% set a, b = 1, 2 %}", &[("a", 21), ("b", 21)]));
    add("C05", "for-tuple", defs(cx, "{% for a, b, c in [] %}{% endfor %}", &[("a", 23), ("b", 23), ("c", 23)]));
    add("C08", "closing-bracket", completion(cx, "{{ f(abc) | upper }}", 8, incomplete("abc", 5, 8)));
    add("C08", "inside-field", completion(cx, "{{ user.name }}", 10, incomplete("user.na", 3, 12)));
    add("C12", "utf16-columns", columns(cx));
    add("C17", "context-values", backend(cx, "fn f() { let c = context! { user => name }; }", &["user"]));
    add("C17", "other-macros", backend(cx, "fn f() { println!(\"{}\", abc); }", &[]));
    json!({"violation": null, "known": v})
}
