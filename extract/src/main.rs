//! vx: builds one Verus file from a template (contracts, ghost code, stubs) and the *current* source of /repo.
//! usage: vx <repo> <template> <out.rs> <out.json> [--skip F]... [--probe start|loops]
mod norm;
use norm::*;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use syn::*;

struct Ctx {
    repo: PathBuf,
    spec: PathBuf,
    files: HashMap<String, std::result::Result<File, String>>,
    out: String,
    funcs: Vec<Value>,
    errors: Vec<String>,
    types: Vec<Value>,
    skip: Vec<String>,
    probe: String,
    cur: String,
    rules: BTreeMap<String, usize>,
    seen: Vec<String>,
    broadcast: Vec<String>,
}

#[derive(Clone)]
enum Found {
    Free(ItemFn),
    Method(ItemImpl, ImplItemFn),
}

fn items(f: &File) -> Vec<Item> {
    fn go(items: &[Item], out: &mut Vec<Item>) {
        for i in items {
            if let Item::Mod(m) = i {
                let test = m.attrs.iter().any(|a| ts(a).contains("cfg(test)"));
                if let (Some((_, c)), false) = (&m.content, test) {
                    go(c, out);
                }
            } else {
                out.push(i.clone());
            }
        }
    }
    let mut v = vec![];
    go(&f.items, &mut v);
    v
}

fn gated(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| ts(a).starts_with("#[cfg("))
}

impl Ctx {
    fn file(&mut self, p: &str) -> std::result::Result<File, String> {
        let repo = self.repo.clone();
        self.files
            .entry(p.to_string())
            .or_insert_with(|| {
                let s = std::fs::read_to_string(repo.join(p)).map_err(|e| format!("{p}: {e}"))?;
                parse_file(&s).map_err(|e| format!("{p}: {e}"))
            })
            .clone()
    }

    fn candidates(&mut self, file: &str) -> Vec<String> {
        // the named file first, then every other source file of the same crate
        let mut v = vec![file.to_string()];
        if let Some(k) = file.find("/src/") {
            let root = self.repo.join(&file[..k + 4]);
            let mut stack = vec![root];
            let mut rest = vec![];
            while let Some(d) = stack.pop() {
                if let Ok(rd) = std::fs::read_dir(&d) {
                    for e in rd.flatten() {
                        let p = e.path();
                        if p.is_dir() {
                            stack.push(p);
                        } else if p.extension().is_some_and(|e| e == "rs") {
                            let r = p.strip_prefix(&self.repo).unwrap().to_string_lossy().to_string();
                            if r != file {
                                rest.push(r);
                            }
                        }
                    }
                }
            }
            rest.sort();
            v.extend(rest);
        }
        v
    }

    fn find_fn(&mut self, file: &str, name: &str) -> std::result::Result<(String, Found), String> {
        for f in self.candidates(file) {
            let Ok(parsed) = self.file(&f) else { continue };
            let mut hits = vec![];
            for it in items(&parsed) {
                match it {
                    Item::Fn(x) if x.sig.ident == name => hits.push(Found::Free(x)),
                    Item::Impl(im) => {
                        let ty = ts(&im.self_ty);
                        let full = match &im.trait_ {
                            Some((_, t, _)) => format!("<{}for{}>", ts(t), ty),
                            None => ty.clone(),
                        };
                        for m in &im.items {
                            if let ImplItem::Fn(m) = m {
                                let nm = format!("{}::{}", full, m.sig.ident);
                                if nm == name.split_whitespace().collect::<String>() && !gated(&m.attrs) && !gated(&im.attrs) {
                                    hits.push(Found::Method(im.clone(), m.clone()));
                                }
                            }
                        }
                    }
                    Item::Trait(t) => {
                        for m in &t.items {
                            if let TraitItem::Fn(m) = m {
                                if format!("trait{}::{}", t.ident, m.sig.ident) == name.split_whitespace().collect::<String>() {
                                    if let Some(b) = &m.default {
                                        let f = ItemFn { attrs: vec![], vis: Visibility::Inherited, sig: m.sig.clone(), block: Box::new(b.clone()) };
                                        hits.push(Found::Free(f));
                                    }
                                }
                            }
                        }
                    }
                    _ => (),
                }
            }
            match hits.len() {
                0 => continue,
                1 => return Ok((f, hits.remove(0))),
                _ => return Err(format!("{name}: ambiguous in {f}")),
            }
        }
        Err(format!("lost anchor: {file}::{name}"))
    }

    fn find_item(&mut self, file: &str, name: &str) -> std::result::Result<Item, String> {
        for f in self.candidates(file) {
            let Ok(parsed) = self.file(&f) else { continue };
            for it in items(&parsed) {
                let id = match &it {
                    Item::Struct(s) => &s.ident,
                    Item::Enum(s) => &s.ident,
                    Item::Static(s) => &s.ident,
                    Item::Const(s) => &s.ident,
                    Item::Type(s) => &s.ident,
                    _ => continue,
                };
                if id == name {
                    return Ok(it);
                }
            }
        }
        Err(format!("lost anchor: {file}::{name}"))
    }

    fn emit_type(&mut self, file: &str, name: &str) {
        let item = match self.find_item(file, name) {
            Ok(i) => i,
            Err(e) => return self.errors.push(e),
        };
        let (attrs, ident, generics, text, fieldless) = match item {
            Item::Struct(mut s) => {
                let a = std::mem::take(&mut s.attrs);
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                (a, s.ident.clone(), s.generics.clone(), s.to_token_stream(), false)
            }
            Item::Enum(mut s) => {
                let a = std::mem::take(&mut s.attrs);
                s.vis = parse_quote!(pub);
                let mut fl = true;
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    fl &= matches!(v.fields, Fields::Unit);
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                (a, s.ident.clone(), s.generics.clone(), s.to_token_stream(), fl)
            }
            Item::Type(mut s) => {
                let a = std::mem::take(&mut s.attrs);
                s.vis = parse_quote!(pub);
                (a, s.ident.clone(), s.generics.clone(), s.to_token_stream(), false)
            }
            _ => return self.errors.push(format!("{name}: not a type")),
        };
        let derives = attrs.iter().map(ts).collect::<String>();
        let has = |d: &str| derives.contains(&format!("({d},")) || derives.contains(&format!(",{d},")) || derives.contains(&format!(",{d})")) || derives.contains(&format!("({d})"));
        if fieldless && has("PartialEq") {
            self.out.push_str("#[derive(PartialEq, Eq, Structural, Clone, Copy)]\n");
        } else if fieldless && has("Clone") {
            self.out.push_str("#[derive(Clone, Copy)]\n");
        }
        self.out.push_str(&tokens_to_text(text));
        self.out.push('\n');
        if has("Clone") && !fieldless && generics.params.is_empty() {
            self.out.push_str(&format!(
                "impl Clone for {ident} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
            ));
            if has("Copy") {
                self.out.push_str(&format!("impl Copy for {ident} {{}}\n"));
            }
            self.out.push_str(&format!("impl VToOwned for {ident} {{ type O = {ident}; open spec fn vown(&self, r: {ident}) -> bool {{ r == *self }} #[verifier::external_body] fn v_to_owned(&self) -> {ident} {{ unimplemented!() }} }}\n"));
        }
        self.types.push(json!({"name": name, "file": file, "derive_clone_assumed_exact": has("Clone") && !fieldless}));
    }

    fn emit_default(&mut self, file: &str, name: &str, spec: &str) {
        let item = match self.find_item(file, name) {
            Ok(i) => i,
            Err(e) => return self.errors.push(e),
        };
        let body = match &item {
            Item::Struct(s) => {
                if !s.attrs.iter().any(|a| ts(a).contains("Default")) {
                    return self.errors.push(format!("{name}: Default not derived"));
                }
                let fs = s.fields.iter().map(|f| {
                    let i = &f.ident;
                    let v = default_expr(&f.ty);
                    quote!(#i: #v)
                });
                let id = &s.ident;
                quote!(#id { #(#fs),* })
            }
            Item::Enum(e) => {
                let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| ts(a) == "#[default]"));
                match v {
                    Some(v) => {
                        let (a, b) = (&e.ident, &v.ident);
                        quote!(#a::#b)
                    }
                    None => return self.errors.push(format!("{name}: no default variant")),
                }
            }
            _ => return self.errors.push(format!("{name}: not a type")),
        };
        self.out.push_str(&format!("impl {name} {{ //#FN {name}::default\npub fn default() -> (r: {name})\n{spec}\n{{ {} }} //#ENDFN\n}}\n", tokens_to_text(body)));
        self.funcs.push(json!({"name": format!("{name}::default"), "file": file, "mode": "verified", "nloops": 0, "want_loops": 0, "errs": [], "derived": true}));
    }

    fn emit_static(&mut self, file: &str, name: &str, spec: &str) {
        let els = self.find_item(file, name).and_then(|item| {
            let mut e = match item {
                Item::Static(s) => *s.expr,
                Item::Const(s) => *s.expr,
                _ => return Err(format!("{name}: not a static")),
            };
            while let Expr::Reference(r) = e {
                e = *r.expr;
            }
            match e {
                Expr::Array(a) => Ok(a.elems.into_iter().collect::<Vec<_>>()),
                _ => Err(format!("{name}: not an array")),
            }
        });
        let skip = self.skip.iter().any(|s| s == name) || els.is_err();
        let body = match &els {
            Ok(els) if !els.is_empty() => quote!(#(vstreq(x, #els))||*),
            _ => quote!(false),
        };
        let attr = if skip { "#[verifier::external_body]\n" } else { "" };
        let probe = if self.probe == "start" && !skip { "assert(false);" } else { "" };
        self.out.push_str(&format!("//#FN {name}\n{attr}pub fn {name}__contains(x: &str) -> (r: bool)\n{spec}\n{{ {probe} {} }} //#ENDFN\n", tokens_to_text(body)));
        let errs: Vec<String> = els.err().into_iter().collect();
        self.errors.extend(errs.iter().cloned());
        let mode = if skip && errs.is_empty() { "skipped" } else if errs.is_empty() { "verified" } else { "lost" };
        self.funcs.push(json!({"name": name, "file": file, "mode": mode, "nloops": 0, "want_loops": 0, "errs": errs}));
    }

    fn emit_fn(&mut self, file: &str, d: &FnDir, ext: bool) {
        // an arm is known by the name it is given
        let id = match (&d.arm, &d.rename) { (Some(_), Some(r)) => r.clone(), _ => d.name.clone() };
        let (at, found) = match self.find_fn(file, &d.name) {
            Ok(f) => f,
            Err(e) => {
                self.errors.push(e.clone());
                self.funcs.push(json!({"name": id, "file": file, "mode": "lost", "nloops": 0, "want_loops": d.loops.len(), "errs": [e]}));
                return;
            }
        };
        let (imp, mut sig, mut block) = match &found {
            Found::Free(f) => (None, f.sig.clone(), (*f.block).clone()),
            Found::Method(i, m) => (Some(i.clone()), m.sig.clone(), m.block.clone()),
        };
        let mut n = Norm::default();
        n.mutiter = d.mutiter.iter().cloned().collect();
        n.collect = d.collect.clone();
        n.subst = d.subst.clone();
        if let Some(arm) = &d.arm {
            match find_arm(&block, arm) {
                Some(b) => block = b,
                None => n.err(format!("lost anchor: arm {arm}")),
            }
            // leaving the arm is leaving the function; what the arm assigns may be its result
            let res: Option<Expr> = (!d.result.is_empty()).then(|| parse_str(&d.result).expect("result"));
            syn::visit_mut::VisitMut::visit_block_mut(&mut LeaveArm(res.clone()), &mut block);
            if let Some(r) = res {
                if let Some(Stmt::Expr(_, semi @ None)) = block.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                block.stmts.push(Stmt::Expr(r, None));
            }
            sig = parse_str(&d.sig).expect("sig");
        }
        // a method whose receiver is a log of what was sent
        if d.arm.is_none() && !d.sig.is_empty() {
            sig = parse_str(&d.sig).expect("sig");
        }
        let mut external = ext || self.skip.contains(&id);
        let skipped = self.skip.contains(&id);
        if !external {
            n.run(&mut block);
            if !n.errs.is_empty() {
                external = true;
            }
        }
        sig.asyncness = None;
        syn::visit_mut::VisitMut::visit_signature_mut(&mut Paths, &mut sig);
        for (k, i) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = i {
                if matches!(*t.pat, Pat::Wild(_)) {
                    let n = quote::format_ident!("_vp{}", k);
                    *t.pat = parse_quote!(#n);
                }
            }
            match i {
                FnArg::Typed(t) => t.attrs.clear(),
                FnArg::Receiver(t) => t.attrs.clear(),
            }
        }
        let mut head = String::new();
        let mut tail = String::new();
        let fname = d.rename.clone().unwrap_or(sig.ident.to_string());
        if let Some(i) = &imp {
            if d.arm.is_none() {
                let ty = &i.self_ty;
                let g = &i.generics;
                let tr = i.trait_.as_ref().map(|t| ts(&t.1)).unwrap_or_default();
                if tr.starts_with("From<") {
                    // From<A> for T  ->  VFrom<A> for T
                    let seg = i.trait_.as_ref().unwrap().1.segments.last().unwrap().clone();
                    let args = &seg.arguments;
                    head = format!("impl {} VFrom {} for {} {{\n", tokens_to_text(g.to_token_stream()), tokens_to_text(args.to_token_stream()), tokens_to_text(ty.to_token_stream()));
                    if let Some(v) = &d.vspec {
                        head.push_str(v);
                    }
                    sig.ident = format_ident!("vfrom");
                } else {
                    head = format!("impl {} {} {{\n", tokens_to_text(g.to_token_stream()), tokens_to_text(ty.to_token_stream()));
                }
                tail = "}\n".into();
            }
        }
        let in_vfrom = head.contains(" VFrom ");
        if !in_vfrom && sig.ident != fname.as_str() {
            sig.ident = format_ident!("{}", fname);
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!(" -> ({}: {})", d.ret, tokens_to_text(t.to_token_stream())),
        };
        let mut s2 = sig.clone();
        s2.output = ReturnType::Default;
        let mut o = head;
        o.push_str(&format!("//#FN {}\n", id));
        if external {
            o.push_str("#[verifier::external_body]\n");
        }
        for a in &d.attrs {
            o.push_str(a);
            o.push('\n');
        }
        let vis = if in_vfrom { "" } else { "pub " };
        o.push_str(&format!("{vis}{}{}\n{}", tokens_to_text(s2.to_token_stream()), ret, d.spec));
        if external {
            o.push_str("\n{ unimplemented!() }\n");
        } else {
            let mut body = tokens_to_text(block.to_token_stream());
            for k in 0..n.nloops {
                let probe = if self.probe == "loops" { "assert(false);\n" } else { "" };
                let l = d.loops.get(&k).cloned().unwrap_or_default();
                let tagged = format!("__loopspec ! ({k} ) ;");
                let pos = body.find(&tagged);
                match pos {
                    Some(p) => {
                        let brace = body[..p].rfind('{').unwrap();
                        let mut nb = body[..brace].to_string();
                        nb.push_str(&format!("\n/*loop {k}*/ "));
                        nb.push_str(&l.0);
                        nb.push_str("\n{ ");
                        nb.push_str(&l.1);
                        nb.push_str(probe);
                        let rest = &body[p + tagged.len()..];
                        let close = close_brace(rest);
                        nb.push_str(&rest[..close]);
                        nb.push_str("}\n");
                        nb.push_str(&l.4);
                        nb.push_str(&rest[close + 1..]);
                        if !l.3.is_empty() {
                            let mut w = nb[..brace].rfind("while ").unwrap_or(0).max(nb[..brace].rfind("loop ").unwrap_or(0));
                            let before = nb[..w].trim_end();
                            if before.ends_with(':') {
                                w = before.rfind('\'').unwrap();
                            }
                            nb.insert_str(w, &format!("\n{}\n", l.3));
                        }
                        body = nb;
                    }
                    None => self.errors.push(format!("loop {k} placeholder missing in {}", id)),
                }
                let tag2 = format!("__loopend ! ({k} ) ;");
                body = body.replacen(&tag2, &format!(" {}", l.2), 1);
            }
            let b = body.find('{').unwrap();
            let mut nb = body[..b + 1].to_string();
            nb.push('\n');
            nb.push_str(&d.start);
            if self.probe == "start" {
                nb.push_str("\nassert(false);\n");
            }
            nb.push_str(&body[b + 1..]);
            o.push_str(&nb);
        }
        o.push_str(" //#ENDFN\n");
        o.push_str(&tail);
        self.out.push_str(&o);
        for (k, v) in &n.rules {
            *self.rules.entry(k.clone()).or_default() += v;
        }
        let mode = if ext {
            "extern"
        } else if skipped {
            "skipped"
        } else if external {
            "unsupported"
        } else {
            "verified"
        };
        let want = d.want_loops.unwrap_or(d.loops.len());
        self.funcs.push(json!({
            "name": id, "file": at, "mode": mode, "nloops": n.nloops, "want_loops": want, "kinds": n.loop_kinds,
            "errs": n.errs, "rules": n.rules, "statics": n.statics,
        }));
    }

    fn include(&mut self, name: &str, ext: bool) {
        let key = name.to_string();
        if self.seen.contains(&key) {
            return;
        }
        self.seen.push(key);
        let p = self.spec.join(name);
        let text = match std::fs::read_to_string(&p) {
            Ok(t) => t,
            Err(e) => return self.errors.push(format!("{}: {e}", p.display())),
        };
        self.process(&text, ext);
    }

    fn process(&mut self, text: &str, ext: bool) {
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i].trim();
            let Some(d) = l.strip_prefix("//@") else {
                self.out.push_str(lines[i]);
                self.out.push('\n');
                i += 1;
                continue;
            };
            let (cmd, arg) = d.split_once(' ').unwrap_or((d, ""));
            let arg = arg.trim();
            i += 1;
            match cmd {
                "include" => match arg.strip_prefix("extern ") {
                    Some(a) => self.include(a.trim(), true),
                    None => self.include(arg, ext),
                },
                "broadcast" => self.broadcast.extend(arg.split_whitespace().map(str::to_string)),
                "file" => self.cur = arg.to_string(),
                "type" => {
                    let f = self.cur.clone();
                    for a in arg.split_whitespace() {
                        self.emit_type(&f, a);
                    }
                }
                "default" | "static" => {
                    let mut spec = String::new();
                    while i < lines.len() && lines[i].trim() != "//@end" {
                        spec.push_str(lines[i]);
                        spec.push('\n');
                        i += 1;
                    }
                    i += 1;
                    let f = self.cur.clone();
                    if cmd == "default" {
                        self.emit_default(&f, arg, &spec)
                    } else {
                        self.emit_static(&f, arg, &spec)
                    }
                }
                "fn" => {
                    let mut fd = FnDir { name: arg.to_string(), ret: "r".into(), ..Default::default() };
                    let mut sec = "spec".to_string();
                    let mut k = 0usize;
                    while i < lines.len() {
                        let t = lines[i].trim();
                        i += 1;
                        if let Some(dd) = t.strip_prefix("//@") {
                            let (c, a) = dd.split_once(' ').unwrap_or((dd, ""));
                            let a = a.trim();
                            match c {
                                "end" => break,
                                "ret" => fd.ret = a.to_string(),
                                "mutiter" => fd.mutiter.push(a.split_whitespace().collect()),
                                "collect" => fd.collect = a.to_string(),
                                "name" => fd.rename = Some(a.to_string()),
                                "attr" => fd.attrs.push(a.to_string()),
                                "loops" => fd.want_loops = a.parse().ok(),
                                "arm" => fd.arm = Some(a.split_whitespace().collect()),
                                "sig" => fd.sig = a.to_string(),
                                "result" => fd.result = a.to_string(),
                                "subst" => {
                                    let (x, y) = a.split_once("=>").expect("subst");
                                    fd.subst.push((x.split_whitespace().collect(), y.trim().to_string()));
                                }
                                "loop" | "loopstart" | "loopend" | "loopbefore" | "loopafter" => {
                                    k = a.parse().expect("loop index");
                                    fd.loops.entry(k).or_default();
                                    sec = c.to_string();
                                }
                                c => sec = c.to_string(),
                            }
                            continue;
                        }
                        let line = format!("{}\n", lines[i - 1]);
                        match sec.as_str() {
                            "spec" => fd.spec.push_str(&line),
                            "start" => fd.start.push_str(&line),
                            "vspec" => fd.vspec.get_or_insert_with(String::new).push_str(&line),
                            "loop" => fd.loops.get_mut(&k).unwrap().0.push_str(&line),
                            "loopstart" => fd.loops.get_mut(&k).unwrap().1.push_str(&line),
                            "loopend" => fd.loops.get_mut(&k).unwrap().2.push_str(&line),
                            "loopbefore" => fd.loops.get_mut(&k).unwrap().3.push_str(&line),
                            "loopafter" => fd.loops.get_mut(&k).unwrap().4.push_str(&line),
                            s => panic!("section {s}"),
                        }
                    }
                    let f = self.cur.clone();
                    self.emit_fn(&f, &fd, ext);
                }
                c => self.errors.push(format!("directive {c}")),
            }
        }
    }
}

#[derive(Default)]
struct FnDir {
    name: String,
    ret: String,
    spec: String,
    start: String,
    vspec: Option<String>,
    loops: BTreeMap<usize, (String, String, String, String, String)>,
    want_loops: Option<usize>,
    mutiter: Vec<String>,
    collect: String,
    rename: Option<String>,
    subst: Vec<(String, String)>,
    attrs: Vec<String>,
    arm: Option<String>,
    sig: String,
    result: String,
}

/// index of the brace closing an already opened block
fn close_brace(s: &str) -> usize {
    let b = s.as_bytes();
    let (mut i, mut depth) = (0, 1);
    while i < b.len() {
        match b[i] {
            b'{' => depth += 1,
            b'}' => {
                depth -= 1;
                if depth == 0 {
                    return i;
                }
            }
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
            }
            b'\'' if i + 2 < b.len() && (b[i + 1] == b'\\' || b[i + 2] == b'\'') => {
                i += if b[i + 1] == b'\\' { 3 } else { 2 };
            }
            b'/' if b[i + 1] == b'/' => {
                while b[i] != b'\n' {
                    i += 1;
                }
            }
            b'/' if b[i + 1] == b'*' => {
                while !(b[i] == b'*' && b[i + 1] == b'/') {
                    i += 1;
                }
            }
            _ => (),
        }
        i += 1;
    }
    panic!("unbalanced block")
}

/// `continue` of the message loop (not of a loop within the arm) -> `return`
struct LeaveArm(Option<Expr>);
impl syn::visit_mut::VisitMut for LeaveArm {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => return,
            Expr::Continue(c) if c.label.is_none() => {
                *e = match &self.0 {
                    Some(r) => parse_quote!(return #r),
                    None => parse_quote!(return),
                };
                return;
            }
            _ => (),
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// body of the match arm whose pattern (without spaces) is `pat`
fn find_arm(b: &Block, pat: &str) -> Option<Block> {
    use syn::visit::Visit;
    struct V<'p>(&'p str, Option<Block>);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_arm(&mut self, a: &'a Arm) {
            if ts(&a.pat) == self.0 && self.1.is_none() {
                let body = &a.body;
                self.1 = Some(match &**body {
                    Expr::Block(b) => b.block.clone(),
                    e => parse_quote!({ #e }),
                });
            }
            visit::visit_arm(self, a);
        }
    }
    let mut v = V(pat, None);
    v.visit_block(b);
    v.1
}

fn default_expr(t: &Type) -> proc_macro2::TokenStream {
    match t {
        Type::Tuple(t) => {
            let e = t.elems.iter().map(default_expr);
            quote!((#(#e),*))
        }
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let n = s.ident.to_string();
            match n.as_str() {
                "usize" | "u32" | "u64" | "i32" => quote!(0),
                "bool" => quote!(false),
                "Option" => quote!(None),
                "String" => quote!(String::new()),
                "Vec" => quote!(Vec::new()),
                _ => {
                    let id = &s.ident;
                    quote!(#id::default())
                }
            }
        }
        _ => quote!(unsupported_default!()),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut skip = vec![];
    let mut probe = String::new();
    let mut k = 5;
    while k < a.len() {
        match a[k].as_str() {
            "--skip" => skip.push(a[k + 1].clone()),
            "--probe" => probe = a[k + 1].clone(),
            x => panic!("{x}"),
        }
        k += 2;
    }
    let t = PathBuf::from(&a[2]);
    let mut c = Ctx {
        repo: PathBuf::from(&a[1]),
        spec: t.parent().unwrap().to_path_buf(),
        files: HashMap::new(),
        out: String::new(),
        funcs: vec![],
        errors: vec![],
        types: vec![],
        skip,
        probe,
        cur: String::new(),
        rules: BTreeMap::new(),
        seen: vec![],
        broadcast: vec![],
    };
    c.include(t.file_name().unwrap().to_str().unwrap(), false);
    if !c.broadcast.is_empty() {
        c.out = c.out.replacen("/*BROADCAST*/", &format!("broadcast use {{{}}};", c.broadcast.join(", ")), 1);
    }
    // line ranges of the functions
    let mut ranges: HashMap<String, (usize, usize)> = HashMap::new();
    let mut open: Option<(String, usize)> = None;
    for (n, l) in c.out.lines().enumerate() {
        if let Some(p) = l.find("//#FN ") {
            open = Some((l[p + 6..].trim().to_string(), n + 1));
        }
        if l.contains("//#ENDFN") {
            if let Some((name, s)) = open.take() {
                ranges.insert(name, (s, n + 1));
            }
        }
    }
    for f in c.funcs.iter_mut() {
        if let Some(r) = ranges.get(f["name"].as_str().unwrap()) {
            f["lines"] = json!([r.0, r.1]);
        }
    }
    std::fs::write(&a[3], &c.out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&json!({"functions": c.funcs, "types": c.types, "errors": c.errors, "rules": c.rules})).unwrap()).unwrap();
}
