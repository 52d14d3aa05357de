//! Normalisation of one function body: rewrites surface Rust that Verus does not accept into the
//! equivalent core it does accept.  Every rule is syntactic, local and semantics preserving; each use is counted.
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::parse::Parser;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Norm {
    next: usize,
    reserved: Option<usize>,
    pub rules: BTreeMap<String, usize>,
    pub errs: Vec<String>,
    pub mutiter: BTreeSet<String>,
    pub collect: String,
    pub subst: Vec<(String, String)>,
    pub nloops: usize,
    pub loop_kinds: Vec<String>,
    pub statics: BTreeSet<String>,
}

pub fn ts(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

const ADAPT: &[&str] = &["filter", "map", "flat_map", "enumerate", "cloned", "copied", "filter_map", "into_iter", "by_ref", "rev"];
const SOURCE: &[&str] = &["iter", "iter_mut", "into_iter", "chars", "split", "keys", "values", "values_mut"];
const TERMINAL: &[&str] = &["count", "max", "find", "any", "all", "collect", "next", "last", "for_each", "position", "max_by_key"];
const RENAME: &[&str] = &[
    "to_owned", "to_string", "contains", "replace", "starts_with", "ends_with", "trim_end", "clone_into", "clone_from",
    "strip_prefix", "canonicalize", "write_to", "len_utf8", "len_utf16", "as_bytes", "unwrap_or_default",
];

fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_iter(&p.expr),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            (SOURCE.contains(&n.as_str()) && !(n == "split" && m.args.len() != 1)) || (ADAPT.contains(&n.as_str()) && is_iter(&m.receiver))
        }
        _ => false,
    }
}

#[derive(Clone)]
enum Stage {
    Filter(Expr),
    FilterMap(Expr),
    Map(Expr),
    FlatMap(Expr),
    Enumerate,
    Cloned,
}

enum Src {
    Iter(Expr),   // expression of type VI<T>
    Mut(Expr),    // place of type (&mut) Vec<T>
    ValuesMut(Expr),
    Range(Expr, Expr, bool),
}

struct Uses<'a> {
    name: &'a str,
    n: usize,
}
impl<'a> Visit<'a> for Uses<'_> {
    fn visit_expr_path(&mut self, p: &ExprPath) {
        if p.path.is_ident(self.name) {
            self.n += 1;
        }
    }
    fn visit_macro(&mut self, m: &Macro) {
        if m.tokens.to_string().contains(self.name) {
            self.n += 1;
        }
    }
}
struct Subst<'a> {
    name: &'a str,
    by: &'a Expr,
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.name) {
                *e = self.by.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct HasTry(bool);
impl<'a> Visit<'a> for HasTry {
    fn visit_expr_try(&mut self, _: &ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &ExprClosure) {}
}
fn has_try_e(e: &Expr) -> bool {
    let mut h = HasTry(false);
    h.visit_expr(e);
    h.0
}
struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &ExprClosure) {}
}
struct Relabel(Lifetime, bool);
impl VisitMut for Relabel {
    fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
    fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
    fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_break_mut(&mut self, b: &mut ExprBreak) {
        if b.label.is_none() {
            b.label = Some(self.0.clone());
            self.1 = true;
        }
    }
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

struct MacroArgs {
    fmt: LitStr,
    args: Vec<Expr>,
}
impl parse::Parse for MacroArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let fmt: LitStr = i.parse()?;
        let mut args = vec![];
        while !i.is_empty() {
            i.parse::<Token![,]>()?;
            if i.is_empty() {
                break;
            }
            args.push(i.parse()?);
        }
        Ok(MacroArgs { fmt, args })
    }
}
struct MatchesArgs(Expr, Pat, Option<Expr>);
impl parse::Parse for MatchesArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            i.parse::<Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(MatchesArgs(e, p, g))
    }
}

struct Macros<'a>(&'a mut Norm);
impl Macros<'_> {
    fn expand(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "vec" => {
                let args = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
                self.0.rule("vec! -> Vec::new + push");
                if args.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let v = self.0.fresh("vv");
                let a = args.iter();
                Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v }))
            }
            "matches" => {
                let MatchesArgs(e, p, g) = parse2(m.tokens.clone()).ok()?;
                self.0.rule("matches! -> match");
                let g = g.map(|g| quote!(if #g));
                Some(parse_quote!(match #e { #p #g => true, _ => false }))
            }
            "format" => {
                let MacroArgs { fmt, args } = parse2(m.tokens.clone()).ok()?;
                self.0.rule("format! -> string concatenation");
                let s = fmt.value();
                let mut parts: Vec<Expr> = vec![];
                let mut lit = String::new();
                let mut it = s.chars().peekable();
                let mut ai = 0;
                while let Some(c) = it.next() {
                    if c == '{' {
                        if it.peek() == Some(&'{') {
                            it.next();
                            lit.push('{');
                            continue;
                        }
                        let mut n = String::new();
                        for c in it.by_ref() {
                            if c == '}' {
                                break;
                            }
                            n.push(c);
                        }
                        if n.contains(':') {
                            return None;
                        }
                        if !lit.is_empty() {
                            let l = LitStr::new(&lit, Span::call_site());
                            parts.push(parse_quote!(#l));
                            lit.clear();
                        }
                        if n.is_empty() {
                            parts.push(args.get(ai)?.clone());
                            ai += 1;
                        } else {
                            let id = Ident::new(&n, Span::call_site());
                            parts.push(parse_quote!(&#id));
                        }
                    } else if c == '}' {
                        it.next();
                        lit.push('}');
                    } else {
                        lit.push(c);
                    }
                }
                if !lit.is_empty() {
                    let l = LitStr::new(&lit, Span::call_site());
                    parts.push(parse_quote!(#l));
                }
                let mut e: Expr = parse_quote!(String::new());
                for p in parts {
                    e = parse_quote!(vconcat(#e, &vdisp(#p)));
                }
                Some(e)
            }
            _ => None,
        }
    }
}
impl VisitMut for Macros<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            match self.expand(&m.mac) {
                Some(n) => *e = n,
                None => self.0.err(format!("macro {}", ts(&m.mac.path))),
            }
        }
        if let Expr::Await(a) = e {
            let b = (*a.base).clone();
            // a name that is awaited is the receiving end of a channel
            if matches!(b, Expr::Path(_)) {
                self.0.rule("x.await -> x.v_await()");
                *e = parse_quote!(#b.v_await());
            } else {
                self.0.rule(".await dropped");
                *e = b;
            }
        }
        if let Expr::Binary(b) = e {
            let lit = matches!(&*b.right, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
            if lit && matches!(&*b.left, Expr::Field(_)) && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                self.0.rule("field == string literal -> vteq");
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vteq(&#l, #r)) } else { parse_quote!((!vteq(&#l, #r))) };
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            match self.expand(&m.mac) {
                Some(n) => *s = Stmt::Expr(n, m.semi_token),
                None => self.0.err(format!("macro {}", ts(&m.mac.path))),
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

struct Inline<'a>(&'a mut Norm);
fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}
impl VisitMut for Inline<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let lazy = match &b.stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(init), .. }) if init.diverge.is_none() && is_iter(&init.expr) => {
                    Some((p.ident.to_string(), (*init.expr).clone()))
                }
                _ => None,
            };
            let Some((name, expr)) = lazy else {
                i += 1;
                continue;
            };
            // uses in the following statements up to a shadowing let
            let mut total = 0;
            let mut at = vec![];
            for (j, s) in b.stmts.iter().enumerate().skip(i + 1) {
                let mut u = Uses { name: &name, n: 0 };
                u.visit_stmt(s);
                if u.n > 0 {
                    at.push(j);
                }
                total += u.n;
                if let Stmt::Local(l) = s {
                    if pat_names(&l.pat).contains(&name) {
                        break;
                    }
                }
            }
            if total != 1 {
                self.0.err(format!("lazy iterator {name} used {total} times"));
                i += 1;
                continue;
            }
            // capture check
            for s in &b.stmts[i + 1..at[0]] {
                if let Stmt::Local(l) = s {
                    for n in pat_names(&l.pat) {
                        let mut u = Uses { name: &n, n: 0 };
                        u.visit_expr(&expr);
                        if u.n > 0 {
                            self.0.err(format!("inlining {name} captures {n}"));
                        }
                    }
                }
            }
            self.0.rule("inline single-use lazy iterator");
            let mut sb = Subst { name: &name, by: &expr };
            sb.visit_stmt_mut(&mut b.stmts[at[0]]);
            b.stmts.remove(i);
        }
        visit_mut::visit_block_mut(self, b);
    }
}

impl Norm {
    pub fn rule(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_default() += 1;
    }
    pub fn err(&mut self, e: String) {
        self.errs.push(e);
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.next += 1;
        format_ident!("{}_{}", p, self.next)
    }

    pub fn run(&mut self, b: &mut Block) {
        StripAttrs.visit_block_mut(b);
        if !self.subst.is_empty() {
            let s = self.subst.clone();
            let mut v = ExprSubst { subst: s, n: 0 };
            v.visit_block_mut(b);
            for _ in 0..v.n {
                self.rule("declared substitution");
            }
        }
        Macros(self).visit_block_mut(b);
        Paths.visit_block_mut(b);
        Inline(self).visit_block_mut(b);
        Lower(self).visit_block_mut(b);
        let mut num = Number { map: HashMap::new(), n: 0, kinds: vec![] };
        num.visit_block_mut(b);
        self.nloops = num.n;
        self.loop_kinds = num.kinds;
        let mut rn = Rename { map: num.map };
        rn.visit_block_mut(b);
    }

    fn split_chain(&mut self, e: &Expr) -> (Src, Vec<Stage>) {
        match e {
            Expr::Paren(p) => return self.split_chain(&p.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let recv_iter = is_iter(&m.receiver);
                let arg = m.args.first().cloned();
                if recv_iter {
                    let st = match (n.as_str(), arg) {
                        ("filter", Some(a)) => Some(Stage::Filter(a)),
                        ("filter_map", Some(a)) => Some(Stage::FilterMap(a)),
                        ("map", Some(a)) => Some(Stage::Map(a)),
                        ("flat_map", Some(a)) => Some(Stage::FlatMap(a)),
                        ("enumerate", None) => Some(Stage::Enumerate),
                        ("cloned", None) | ("copied", None) => Some(Stage::Cloned),
                        ("into_iter", None) | ("by_ref", None) => return self.split_chain(&m.receiver),
                        _ => None,
                    };
                    match st {
                        Some(s) => {
                            let (src, mut v) = self.split_chain(&m.receiver);
                            v.push(s);
                            return (src, v);
                        }
                        None => self.err(format!("iterator adapter {n}")),
                    }
                }
                let r = &m.receiver;
                match n.as_str() {
                    "iter" => return (Src::Iter(parse_quote!(#r.v_iter())), vec![]),
                    "iter_mut" => return (Src::Mut((**r).clone()), vec![]),
                    "into_iter" => {
                        if self.mutiter.contains(&ts(r)) {
                            return (Src::Mut((**r).clone()), vec![]);
                        }
                        return (Src::Iter(parse_quote!(#r.viter())), vec![]);
                    }
                    "chars" => return (Src::Iter(parse_quote!(#r.v_chars())), vec![]),
                    "split" => {
                        let a = &m.args;
                        return (Src::Iter(parse_quote!(#r.v_split(#a))), vec![]);
                    }
                    "keys" => return (Src::Iter(parse_quote!(#r.v_keys())), vec![]),
                    "values" => return (Src::Iter(parse_quote!(#r.v_values())), vec![]),
                    "values_mut" => return (Src::ValuesMut((**r).clone()), vec![]),
                    _ => (),
                }
            }
            Expr::Range(r) => {
                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    return (Src::Range((**a).clone(), (**b).clone(), incl), vec![]);
                }
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    return (Src::Mut((*r.expr).clone()), vec![]);
                }
                let x = &r.expr;
                return (Src::Iter(parse_quote!((&#x).viter())), vec![]);
            }
            _ => (),
        }
        if self.mutiter.contains(&ts(e)) {
            return (Src::Mut(e.clone()), vec![]);
        }
        (Src::Iter(parse_quote!((#e).viter())), vec![])
    }

    fn closure1(&mut self, c: &Expr) -> Option<(Pat, Expr)> {
        match c {
            Expr::Closure(c) if c.inputs.len() == 1 && c.asyncness.is_none() => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let mut h = HasReturn(false);
                h.visit_expr(&c.body);
                if h.0 {
                    self.err("return in closure".into());
                }
                let mut body = (*c.body).clone();
                while let Expr::Block(b) = &body {
                    match b.block.stmts.as_slice() {
                        [Stmt::Expr(e, None)] if b.label.is_none() => body = e.clone(),
                        _ => break,
                    }
                }
                // only where inference needs it: the body ends in a bare None
                if let (ReturnType::Type(_, t), Expr::Block(b)) = (&c.output, &body) {
                    if matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Path(p), None)) if p.path.is_ident("None")) {
                        let x = self.fresh("vt");
                        body = parse_quote!({ let #x: #t = #body; #x });
                    }
                }
                Some((p, body))
            }
            Expr::Path(p) => {
                let x = self.fresh("va");
                Some((parse_quote!(#x), parse_quote!(#p(#x))))
            }
            _ => {
                self.err(format!("closure expected: {}", ts(c)));
                None
            }
        }
    }

    // `let pat = &val`
    fn let_ref(&mut self, p: &Pat, val: &Expr) -> Stmt {
        match p {
            Pat::Reference(r) => {
                let q = &r.pat;
                if let Pat::Reference(_) = **q {
                    self.err("nested reference pattern".into());
                }
                parse_quote!(let #q = #val;)
            }
            p => parse_quote!(let #p = &#val;),
        }
    }
    fn let_val(&mut self, p: &Pat, val: &Expr) -> Stmt {
        match p {
            Pat::Reference(r) => {
                let q = &r.pat;
                parse_quote!(let #q = *#val;)
            }
            p => parse_quote!(let #p = #val;),
        }
    }

    /// pre-statements, loop body
    fn stages(&mut self, stages: &[Stage], cur: Expr, body: &mut dyn FnMut(&mut Norm, Expr) -> Vec<Stmt>, pre: &mut Vec<Stmt>, outer: &Lifetime) -> Vec<Stmt> {
        let Some((s, rest)) = stages.split_first() else {
            return body(self, cur);
        };
        match s {
            Stage::Filter(c) => {
                self.rule("filter -> if");
                let Some((p, cond)) = self.closure1(c) else { return vec![] };
                let l = self.let_ref(&p, &cur);
                let r = self.stages(rest, cur, body, pre, outer);
                let k = self.fresh("vc");
                vec![parse_quote!(let #k: bool = { #l #cond };), parse_quote!(if #k { #(#r)* })]
            }
            Stage::FilterMap(c) => {
                self.rule("filter_map -> match");
                let Some((p, e)) = self.closure1(c) else { return vec![] };
                let l = self.let_val(&p, &cur);
                let e = self.cps_if_needed(e);
                let x = self.fresh("vx");
                let r = self.stages(rest, parse_quote!(#x), body, pre, outer);
                let k = self.fresh("vo");
                vec![parse_quote!(let #k = { #l #e };), parse_quote!(if let Some(#x) = #k { #(#r)* })]
            }
            Stage::Map(c) => {
                self.rule("map -> let");
                let Some((p, e)) = self.closure1(c) else { return vec![] };
                let l = self.let_val(&p, &cur);
                let x = self.fresh("vx");
                let r = self.stages(rest, parse_quote!(#x), body, pre, outer);
                let mut v: Vec<Stmt> = vec![parse_quote!(let #x = { #l #e };)];
                v.extend(r);
                v
            }
            Stage::Cloned => {
                self.rule("cloned -> clone");
                self.stages(rest, parse_quote!((*#cur).clone()), body, pre, outer)
            }
            Stage::Enumerate => {
                self.rule("enumerate -> counter");
                let e = self.fresh("ven");
                let k = self.fresh("vi");
                pre.push(parse_quote!(let mut #e: usize = 0;));
                let r = self.stages(rest, parse_quote!((#k, #cur)), body, pre, outer);
                let mut v: Vec<Stmt> = vec![parse_quote!(let #k = #e;), parse_quote!(#e = #e + 1;)];
                v.extend(r);
                v
            }
            Stage::FlatMap(c) => {
                self.rule("flat_map -> nested loop");
                let Some((p, e)) = self.closure1(c) else { return vec![] };
                let l = self.let_val(&p, &cur);
                let rest = rest.to_vec();
                let mut used = false;
                let outer2 = outer.clone();
                let inner = {
                    let (src, mut st) = self.split_chain(&e);
                    st.extend(rest);
                    let mut wrapped = |n: &mut Norm, x: Expr| -> Vec<Stmt> {
                        let mut v = body(n, x);
                        for s in v.iter_mut() {
                            let mut r = Relabel(outer2.clone(), false);
                            r.visit_stmt_mut(s);
                            used |= r.1;
                        }
                        v
                    };
                    self.gen_loop(src, &st, None, &mut wrapped)
                };
                if used {
                    self.rule("label outer loop");
                }
                let mut v = vec![l];
                v.extend(inner);
                v
            }
        }
    }

    /// statements of a while loop over the chain
    fn gen_loop(&mut self, src: Src, st: &[Stage], label: Option<Label>, body: &mut dyn FnMut(&mut Norm, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let k = self.reserved.take().unwrap_or_else(|| {
            self.next += 1;
            self.next
        });
        let lk = proc_macro2::Literal::usize_unsuffixed(k);
        let it = format_ident!("vit_{}", k);
        let x = format_ident!("vx_{}", k);
        let lt = match &label {
            Some(l) => l.name.clone(),
            None => Lifetime::new(&format!("'vl_{}", k), Span::call_site()),
        };
        let mut pre = vec![];
        self.rule("for/iterator chain -> while");
        match src {
            Src::Iter(e) => {
                let b = self.stages(st, parse_quote!(#x), body, &mut pre, &lt);
                let uses_label = label.is_some() || b.iter().any(|s| label_used(s, &lt));
                let lab = uses_label.then(|| quote!(#lt:));
                let mut v: Vec<Stmt> = vec![parse_quote!(let mut #it = #e;)];
                v.extend(pre);
                v.push(parse_quote!(#lab while #it.has_next() { __loopspec!(#lk, iter); let #x = #it.take_next(); #(#b)* }));
                v
            }
            Src::Mut(e) => {
                let b = self.stages(st, parse_quote!(#x), body, &mut pre, &lt);
                let uses_label = label.is_some() || b.iter().any(|s| label_used(s, &lt));
                let lab = uses_label.then(|| quote!(#lt:));
                let cur = format_ident!("vk_{}", k);
                let mut v: Vec<Stmt> = vec![parse_quote!(let mut #it: usize = 0;)];
                v.extend(pre);
                v.push(parse_quote!(#lab while #it < #e.len() { __loopspec!(#lk, mutiter); let #cur = #it; #it = #it + 1; let #x = &mut #e[#cur]; #(#b)* }));
                v
            }
            Src::ValuesMut(e) => {
                self.rule("values_mut -> loop over keys with get_mut");
                let b = self.stages(st, parse_quote!(#x), body, &mut pre, &lt);
                let key = format_ident!("vkey_{}", k);
                let mut v: Vec<Stmt> = vec![parse_quote!(let mut #it = #e.v_key_list();)];
                v.extend(pre);
                v.push(parse_quote!(while #it.has_next() { __loopspec!(#lk, valuesmut); let #key = #it.take_next(); let #x = #e.v_get_mut_known(&#key); #(#b)* }));
                v
            }
            Src::Range(a, e, incl) => {
                let b = self.stages(st, parse_quote!(#x), body, &mut pre, &lt);
                let lim = format_ident!("vlim_{}", k);
                let uses_label = label.is_some() || b.iter().any(|s| label_used(s, &lt));
                let lab = uses_label.then(|| quote!(#lt:));
                if incl {
                    self.err("inclusive range loop".into());
                }
                let mut v: Vec<Stmt> = vec![parse_quote!(let mut #it = #a;), parse_quote!(let #lim = #e;)];
                v.extend(pre);
                v.push(parse_quote!(#lab while #it < #lim { __loopspec!(#lk, range); let #x = #it; #it = #it + 1; #(#b)* }));
                v
            }
        }
    }

    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let arg = m.args.first().cloned();
        let (src, st) = self.split_chain(&m.receiver);
        if n == "next" && st.is_empty() {
            if let Src::Iter(e) = src {
                let it = self.fresh("vn");
                self.rule("next -> first element");
                return Some(parse_quote!({ let mut #it = #e; if #it.has_next() { Some(#it.take_next()) } else { None } }));
            }
            self.err("next on this source".into());
            return None;
        }
        self.next += 1;
        let kk = self.next;
        let acc = format_ident!("vacc_{}", kk);
        let mut brk = false;
        let (init, body): (Expr, Box<dyn FnMut(&mut Norm, Expr) -> Vec<Stmt>>) = match (n.as_str(), arg) {
            ("count", None) => (parse_quote!(0usize), Box::new(|_: &mut Norm, _| vec![parse_quote!(#acc = #acc + 1;)])),
            ("max", None) => (parse_quote!(None), Box::new(|_: &mut Norm, x| vec![parse_quote!(#acc = vmax(#acc, #x);)])),
            ("last", None) => (parse_quote!(None), Box::new(|_: &mut Norm, x| vec![parse_quote!(#acc = Some(#x);)])),
            ("next", None) => {
                brk = true;
                (parse_quote!(None), Box::new(|_: &mut Norm, x| vec![parse_quote!(#acc = Some(#x);), parse_quote!(break;)]))
            }
            ("collect", None) => {
                let ty: Type = parse_str(if self.collect.is_empty() { "Vec<_>" } else { &self.collect }).unwrap();
                let init: Expr = match &ty {
                    Type::Path(p) => {
                        let id = &p.path.segments.last().unwrap().ident;
                        parse_quote!(#id::new())
                    }
                    _ => parse_quote!(Vec::new()),
                };
                (init, Box::new(|_: &mut Norm, x| vec![parse_quote!(#acc.push(#x);)]))
            }
            ("find", Some(c)) => {
                brk = true;
                let (p, cond) = self.closure1(&c)?;
                (
                    parse_quote!(None),
                    Box::new(move |n: &mut Norm, x| {
                        let l = n.let_ref(&p, &x);
                        let k = n.fresh("vc");
                        vec![parse_quote!(let #k: bool = { #l #cond };), parse_quote!(if #k { #acc = Some(#x); break; })]
                    }),
                )
            }
            ("any", Some(c)) => {
                brk = true;
                let (p, cond) = self.closure1(&c)?;
                (
                    parse_quote!(false),
                    Box::new(move |n: &mut Norm, x| {
                        let l = n.let_val(&p, &x);
                        let k = n.fresh("vc");
                        vec![parse_quote!(let #k: bool = { #l #cond };), parse_quote!(if #k { #acc = true; break; })]
                    }),
                )
            }
            ("all", Some(c)) => {
                brk = true;
                let (p, cond) = self.closure1(&c)?;
                (
                    parse_quote!(true),
                    Box::new(move |n: &mut Norm, x| {
                        let l = n.let_val(&p, &x);
                        let k = n.fresh("vc");
                        vec![parse_quote!(let #k: bool = { #l #cond };), parse_quote!(if !#k { #acc = false; break; })]
                    }),
                )
            }
            ("for_each", Some(c)) => {
                let (p, e) = self.closure1(&c)?;
                (
                    parse_quote!(()),
                    Box::new(move |n: &mut Norm, x| {
                        let l = n.let_val(&p, &x);
                        vec![l, parse_quote!(#e;)]
                    }),
                )
            }
            _ => {
                self.err(format!("iterator terminal {n}"));
                return None;
            }
        };
        let _ = brk;
        self.rule(&format!("{n} -> loop"));
        let mut body = body;
        let unit = n == "for_each";
        self.reserved = Some(kk);
        let l = self.gen_loop(src, &st, None, &mut *body);
        drop(body);
        let acc = format_ident!("vacc_{}", kk);
        if unit {
            return Some(parse_quote!({ #(#l)* }));
        }
        let ann = match n.as_str() {
            "collect" => {
                let ty: Type = parse_str(if self.collect.is_empty() { "Vec<_>" } else { &self.collect }).unwrap();
                Some(quote!(: #ty))
            }
            _ => None,
        };
        Some(parse_quote!({ let mut #acc #ann = #init; #(#l)* #acc }))
    }

    // ---- `?` inside closures
    fn cps_if_needed(&mut self, e: Expr) -> Expr {
        if has_try_e(&e) {
            self.rule("? in closure -> match");
            self.cps(e)
        } else {
            e
        }
    }
    fn extract_q(&mut self, e: &mut Expr, out: &mut Vec<(Ident, Expr)>) {
        match e {
            Expr::Try(t) => {
                let mut inner = (*t.expr).clone();
                self.extract_q(&mut inner, out);
                let k = self.fresh("vq");
                out.push((k.clone(), inner));
                *e = parse_quote!(#k);
            }
            Expr::MethodCall(m) => {
                self.extract_q(&mut m.receiver, out);
                for a in m.args.iter_mut() {
                    self.extract_q(a, out);
                }
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    self.extract_q(a, out);
                }
            }
            Expr::Reference(r) => self.extract_q(&mut r.expr, out),
            Expr::Paren(r) => self.extract_q(&mut r.expr, out),
            Expr::Field(f) => self.extract_q(&mut f.base, out),
            Expr::Unary(f) => self.extract_q(&mut f.expr, out),
            e => {
                if has_try_e(e) {
                    self.err(format!("? in {}", ts(e)));
                }
            }
        }
    }
    fn wrap_q(&mut self, q: Vec<(Ident, Expr)>, mut rest: Expr) -> Expr {
        for (k, e) in q.into_iter().rev() {
            rest = parse_quote!(match #e { Some(#k) => #rest, None => None });
        }
        rest
    }
    fn cps(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Block(b) if b.label.is_none() => {
                let stmts = b.block.stmts;
                self.cps_stmts(&stmts)
            }
            mut e => {
                let mut q = vec![];
                self.extract_q(&mut e, &mut q);
                self.wrap_q(q, e)
            }
        }
    }
    fn cps_stmts(&mut self, s: &[Stmt]) -> Expr {
        let Some((first, rest)) = s.split_first() else {
            self.err("closure block without value".into());
            return parse_quote!(None);
        };
        match first {
            Stmt::Expr(e, None) if rest.is_empty() => self.cps(e.clone()),
            Stmt::Expr(e, semi) => {
                let mut e = e.clone();
                let mut q = vec![];
                self.extract_q(&mut e, &mut q);
                let r = self.cps_stmts(rest);
                let inner: Expr = if matches!(e, Expr::Path(_)) && !q.is_empty() {
                    r
                } else {
                    let st = Stmt::Expr(e, Some(semi.unwrap_or_default()));
                    parse_quote!({ #st #r })
                };
                self.wrap_q(q, inner)
            }
            Stmt::Local(l) => {
                let mut l = l.clone();
                let mut q = vec![];
                if let Some(i) = &mut l.init {
                    if i.diverge.is_some() {
                        self.err("let else in closure with ?".into());
                    }
                    self.extract_q(&mut i.expr, &mut q);
                }
                let r = self.cps_stmts(rest);
                let st = Stmt::Local(l);
                let inner: Expr = parse_quote!({ #st #r });
                self.wrap_q(q, inner)
            }
            s => {
                self.err(format!("statement in closure: {}", ts(s)));
                parse_quote!(None)
            }
        }
    }

    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        fn lits(p: &Pat, out: &mut Vec<Lit>) -> bool {
            match p {
                Pat::Lit(l) => {
                    if let Lit::Str(_) = l.lit {
                        out.push(l.lit.clone());
                        true
                    } else {
                        false
                    }
                }
                Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
                Pat::Paren(p) => lits(&p.pat, out),
                _ => false,
            }
        }
        let mut any = false;
        for a in &m.arms {
            let mut l = vec![];
            if lits(&a.pat, &mut l) {
                any = true;
            }
        }
        if !any {
            return None;
        }
        self.rule("match on string -> if chain");
        let k = self.fresh("vm");
        let mut e: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let body = match &*a.body {
                Expr::Block(b) if b.label.is_none() => b.block.clone(),
                b => parse_quote!({ #b }),
            };
            let mut l = vec![];
            if lits(&a.pat, &mut l) {
                let Some(rest) = e.take() else {
                    self.err("string match without default".into());
                    return None;
                };
                let g = a.guard.as_ref().map(|(_, g)| quote!(&& (#g)));
                let c = l.iter();
                let cond: Expr = if g.is_some() {
                    parse_quote!((#(vstreq(#k, #c))||*) #g)
                } else {
                    parse_quote!(#(vstreq(#k, #c))||*)
                };
                let else_: Expr = match rest {
                    Expr::If(i) => Expr::If(i),
                    Expr::Block(b) => Expr::Block(b),
                    r => parse_quote!({ #r }),
                };
                e = Some(parse_quote!(if #cond #body else #else_));
            } else {
                if a.guard.is_some() || e.is_some() {
                    self.err("string match: default arm with guard or not last".into());
                    return None;
                }
                match &a.pat {
                    Pat::Wild(_) => e = Some(parse_quote!(#body)),
                    Pat::Ident(i) => {
                        let i = &i.ident;
                        let s = &body.stmts;
                        e = Some(parse_quote!({ let #i = #k; #(#s)* }));
                    }
                    _ => {
                        self.err("string match: default arm".into());
                        return None;
                    }
                }
            }
        }
        let scr = &m.expr;
        let e = e?;
        Some(parse_quote!({ let #k = #scr; #e }))
    }

    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let r = &m.receiver;
        let is_clo = |e: &Expr| matches!(e, Expr::Closure(_));
        match (n.as_str(), m.args.len()) {
            ("map", 1) => {
                let (p, e) = self.closure1(&m.args[0])?;
                if has_try_e(&e) {
                    self.err("? in map".into());
                }
                self.rule("Option::map -> match");
                Some(parse_quote!(match #r { Some(#p) => Some(#e), None => None }))
            }
            ("and_then", 1) => {
                let (p, e) = self.closure1(&m.args[0])?;
                let e = self.cps_if_needed(e);
                self.rule("Option::and_then -> match");
                Some(parse_quote!(match #r { Some(#p) => #e, None => None }))
            }
            ("map_or", 2) => {
                let (p, e) = self.closure1(&m.args[1])?;
                let d = &m.args[0];
                self.rule("Option::map_or -> match");
                let k = self.fresh("vd");
                Some(parse_quote!({ let #k = #d; match #r { Some(#p) => #e, None => #k } }))
            }
            ("is_some_and", 1) => {
                let (p, e) = self.closure1(&m.args[0])?;
                self.rule("Option::is_some_and -> match");
                Some(parse_quote!(match #r { Some(#p) => #e, None => false }))
            }
            ("is_none_or", 1) => {
                let (p, e) = self.closure1(&m.args[0])?;
                self.rule("Option::is_none_or -> match");
                Some(parse_quote!(match #r { Some(#p) => #e, None => true }))
            }
            ("filter", 1) if is_clo(&m.args[0]) => {
                let (p, e) = self.closure1(&m.args[0])?;
                self.rule("Option::filter -> match");
                let k = self.fresh("vf");
                let l = self.let_ref(&p, &parse_quote!(#k));
                Some(parse_quote!(match #r { Some(#k) => { if { #l #e } { Some(#k) } else { None } } None => None }))
            }
            ("unwrap_or_else", 1) | ("or_else", 1) => {
                let Expr::Closure(c) = &m.args[0] else { return None };
                if !c.inputs.is_empty() {
                    return None;
                }
                let e = &c.body;
                let k = self.fresh("vu");
                self.rule("Option::unwrap_or_else -> match");
                if n == "or_else" {
                    let e = self.cps_if_needed((**e).clone());
                    return Some(parse_quote!(match #r { Some(#k) => Some(#k), None => #e }));
                }
                Some(parse_quote!(match #r { Some(#k) => #k, None => #e }))
            }
            ("then", 1) => {
                let Expr::Closure(c) = &m.args[0] else { return None };
                let e = (*c.body).clone();
                self.rule("bool::then -> if");
                let e = if has_try_e(&e) {
                    self.rule("? in closure -> match");
                    self.cps(e)
                } else { e };
                if let ReturnType::Type(_, ty) = &c.output {
                    let k = self.fresh("vt");
                    return Some(parse_quote!(if #r { let #k: #ty = #e; Some(#k) } else { None }));
                }
                Some(parse_quote!(if #r { Some(#e) } else { None }))
            }
            ("then_some", 1) => {
                let e = &m.args[0];
                let k = self.fresh("vt");
                self.rule("bool::then_some -> if");
                Some(parse_quote!({ let #k = #e; if #r { Some(#k) } else { None } }))
            }
            ("get", 1) => {
                if let Expr::Range(rg) = &m.args[0] {
                    if matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                        let a: Expr = rg.start.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(0));
                        if let Some(b) = &rg.end {
                            self.rule("str::get(range) -> v_get");
                            return Some(parse_quote!(#r.v_get(#a, #b)));
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
}

fn label_used(s: &Stmt, l: &Lifetime) -> bool {
    struct V<'b>(&'b Lifetime, bool);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_lifetime(&mut self, l: &Lifetime) {
            if l == self.0 {
                self.1 = true;
            }
        }
    }
    let mut v = V(l, false);
    v.visit_stmt(s);
    v.1
}

struct ExprSubst {
    subst: Vec<(String, String)>,
    n: usize,
}
impl VisitMut for ExprSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let s = ts(e);
        for (a, b) in &self.subst {
            if *a == s {
                *e = parse_str(b).expect("subst");
                self.n += 1;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct Paths;
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let strip = if segs.len() > 2 && segs[0] == "tower_lsp" && segs[1] == "lsp_types" {
            2
        } else if segs.len() > 1 && segs[0] == "tree_sitter" {
            1
        } else {
            0
        };
        if strip > 0 {
            let mut q: punctuated::Punctuated<PathSegment, Token![::]> = punctuated::Punctuated::new();
            for s in p.segments.iter().skip(strip) {
                q.push(s.clone());
            }
            p.segments = q;
            p.leading_colon = None;
        } else if segs.len() > 1 && (segs[0] == "std" || segs[0] == "core") {
            let mut last = p.segments.last().unwrap().clone();
            last.ident = format_ident!("v_{}", segs.join("_"));
            let mut q: punctuated::Punctuated<PathSegment, Token![::]> = punctuated::Punctuated::new();
            q.push(last);
            p.segments = q;
            p.leading_colon = None;
        }
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

struct Lower<'a>(&'a mut Norm);
impl VisitMut for Lower<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            let new = match &*e {
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    if is_iter(&m.receiver) && TERMINAL.contains(&n.as_str()) {
                        self.0.terminal(m)
                    } else if is_iter(e) {
                        self.0.err(format!("iterator used outside of a loop: {}", ts(e)));
                        None
                    } else {
                        self.0.combinator(m)
                    }
                }
                Expr::ForLoop(f) => {
                    let (src, st) = self.0.split_chain(&f.expr);
                    let pat = (*f.pat).clone();
                    let stmts = f.body.stmts.clone();
                    let mut body = |n: &mut Norm, x: Expr| {
                        let mut v = if matches!(pat, Pat::Wild(_)) { vec![] } else { vec![n.let_val(&pat, &x)] };
                        v.extend(stmts.clone());
                        v
                    };
                    let l = self.0.gen_loop(src, &st, f.label.clone(), &mut body);
                    Some(parse_quote!({ #(#l)* }))
                }
                Expr::Match(m) => self.0.str_match(m),
                Expr::Call(c) => {
                    let p = ts(&c.func);
                    if p == "tokio::spawn" || p.ends_with("::tokio::spawn") {
                        self.0.rule("tokio::spawn(async ..) dropped");
                        Some(parse_quote!(vspawn()))
                    } else if let Expr::Path(pp) = &*c.func {
                        let last = pp.path.segments.last().unwrap().ident.to_string();
                        if last == "from" && pp.path.segments.len() >= 2 {
                            let mut pp = pp.clone();
                            pp.path.segments.last_mut().unwrap().ident = format_ident!("vfrom");
                            self.0.rule("T::from -> T::vfrom");
                            let a = &c.args;
                            Some(parse_quote!(#pp(#a)))
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                }
                _ => None,
            };
            match new {
                Some(n) => *e = n,
                None => break,
            }
        }
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let (Expr::Path(p), "contains") = (&*m.receiver, n.as_str()) {
                    if let Some(id) = p.path.get_ident() {
                        let s = id.to_string();
                        if s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) {
                            let f = format_ident!("{}__contains", s);
                            self.0.statics.insert(s);
                            let mut a = m.args[0].clone();
                            if let Expr::Reference(r) = &a {
                                a = (*r.expr).clone();
                            }
                            self.0.rule("static array contains -> or chain");
                            *e = parse_quote!(#f(#a));
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
                if let (Expr::Array(l), "contains", 1) = (&*m.receiver, n.as_str(), m.args.len()) {
                    let lits = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
                    if !l.elems.is_empty() && l.elems.iter().all(lits) {
                        let els: Vec<_> = l.elems.iter().cloned().collect();
                        let mut a = m.args[0].clone();
                        if let Expr::Reference(r) = &a {
                            a = (*r.expr).clone();
                        }
                        self.0.rule("array of literals contains -> or chain");
                        *e = parse_quote!((#(vstreq(#a, #els))||*));
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                if RENAME.contains(&n.as_str()) {
                    self.0.rule("str/std method -> stub method");
                    m.method = format_ident!("v_{}", n);
                }
            }
            Expr::Struct(s) => {
                if let Some(r) = &mut s.rest {
                    if ts(r) == "Default::default()" {
                        let p = &s.path;
                        **r = parse_quote!(#p::default());
                        self.0.rule("..Default::default() -> ..T::default()");
                    }
                }
            }
            _ => (),
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // let PAT = E else { D };  ->  let x = match E { PAT => x, _ => D };
        if let Some(init) = &mut l.init {
            if let Some((_, d)) = init.diverge.take() {
                let names = pat_names(&l.pat).into_iter().filter(|n| n.chars().next().unwrap().is_lowercase() || n.starts_with('_')).collect::<Vec<_>>();
                struct Clean;
                impl VisitMut for Clean {
                    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                        p.mutability = None;
                    }
                }
                struct Mutable(bool);
                impl<'a> Visit<'a> for Mutable {
                    fn visit_pat_ident(&mut self, p: &PatIdent) {
                        self.0 |= p.mutability.is_some();
                    }
                }
                let mut mu = Mutable(false);
                mu.visit_pat(&l.pat);
                if names.len() == 1 {
                    let n = format_ident!("{}", names[0]);
                    let mut pat = l.pat.clone();
                    Clean.visit_pat_mut(&mut pat);
                    let e = &init.expr;
                    let m = mu.0.then(|| quote!(mut));
                    self.0.rule("let else -> match");
                    init.expr = parse_quote!(match #e { #pat => #n, _ => #d });
                    l.pat = parse_quote!(#m #n);
                } else {
                    self.0.err("let else binding several names".into());
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
}

/// number loops in pre-order and rename the generated names after them
struct Number {
    map: HashMap<String, usize>,
    n: usize,
    kinds: Vec<String>,
}
impl Number {
    fn body(&mut self, b: &mut Block, kind: &str) {
        let mut gen = None;
        if let Some(Stmt::Macro(m)) = b.stmts.first() {
            if m.mac.path.is_ident("__loopspec") {
                let s = m.mac.tokens.to_string();
                let mut p = s.split(',');
                gen = Some((p.next().unwrap().trim().to_string(), p.next().unwrap().trim().to_string()));
            }
        }
        let k = self.n;
        self.n += 1;
        match gen {
            Some((id, kd)) => {
                self.map.insert(id, k);
                self.kinds.push(kd);
                b.stmts.remove(0);
            }
            None => self.kinds.push(kind.to_string()),
        }
        let lk = proc_macro2::Literal::usize_unsuffixed(k);
        b.stmts.insert(0, parse_quote!(__loopspec!(#lk);));
        b.stmts.push(parse_quote!(__loopend!(#lk);));
    }
}
impl VisitMut for Number {
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        self.visit_expr_mut(&mut w.cond);
        self.body(&mut w.body, "while");
        visit_mut::visit_block_mut(self, &mut w.body);
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        self.body(&mut w.body, "loop");
        visit_mut::visit_block_mut(self, &mut w.body);
    }
}
struct Rename {
    map: HashMap<String, usize>,
}
impl Rename {
    fn name(&self, s: &str) -> Option<String> {
        for p in ["vit_", "vx_", "vk_", "vacc_", "vkey_", "vlim_"] {
            if let Some(r) = s.strip_prefix(p) {
                if let Some(k) = self.map.get(r) {
                    return Some(format!("{}{}", &p[..p.len() - 1], k));
                }
            }
        }
        None
    }
}
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.name(&i.to_string()) {
            *i = Ident::new(&n, i.span());
        }
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

pub fn tokens_to_text(t: TokenStream) -> String {
    // one statement per line
    fn go(t: TokenStream, out: &mut String, ind: usize) {
        use proc_macro2::{Delimiter, Spacing, TokenTree};
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    if g.delimiter() == Delimiter::Brace {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 2));
                        go(g.stream(), out, ind + 2);
                        out.push('\n');
                        out.push_str(&" ".repeat(ind));
                        out.push_str(b);
                        if i + 1 < v.len() && !matches!(&v[i + 1], TokenTree::Punct(_)) {
                            out.push('\n');
                            out.push_str(&" ".repeat(ind));
                        }
                    } else {
                        go(g.stream(), out, ind);
                        out.push_str(b);
                    }
                    out.push(' ');
                }
                TokenTree::Punct(p) => {
                    out.push(p.as_char());
                    if p.as_char() == ';' {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind));
                    } else if p.spacing() == Spacing::Alone {
                        out.push(' ');
                    }
                }
                t => {
                    out.push_str(&t.to_string());
                    out.push(' ');
                }
            }
            i += 1;
        }
    }
    let mut s = String::new();
    go(t, &mut s, 0);
    s
}
