//! Well-formed templates together with what is true of them (definitions, references, template names).
//! The facts are written down while the text is produced; nothing of /repo is used here.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Pt { pub row: usize, pub col: usize }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum DefKind { ForKey, ForValue, Set, With, MacroName, MacroParam, Block }
#[derive(Clone, Debug)]
pub struct Def { pub name: String, pub start: Pt, pub end: Pt, pub scope_end: Pt, pub kind: DefKind }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RefKind { Var, Filter, Test, DefName, BlockName }
#[derive(Clone, Debug)]
pub struct Ref { pub parts: Vec<(String, Pt, Pt)>, pub kind: RefKind, pub in_output: bool }
impl Ref {
    pub fn name(&self) -> &str { &self.parts[0].0 }
    pub fn start(&self) -> Pt { self.parts[0].1 }
    pub fn end(&self) -> Pt { self.parts[0].2 }
    pub fn full_end(&self) -> Pt { self.parts.last().unwrap().2 }
}
#[derive(Clone, Debug)]
pub struct TRef { pub name: String, pub start: Pt, pub end: Pt }

#[derive(Default, Clone)]
pub struct Doc {
    pub text: String,
    pub defs: Vec<Def>,
    pub refs: Vec<Ref>,
    pub trefs: Vec<TRef>,
    /// right after a pipe and the blank behind it
    pub pipes: Vec<Pt>,
    /// right behind `is ` of a statement
    pub tests: Vec<Pt>,
    /// plain text positions, away from any tag
    pub plain: Vec<Pt>,
    /// in the blank of `{{ }}`
    pub blanks: Vec<Pt>,
    pub end: Option<Pt>,
}
#[derive(Clone)]
pub struct Opt {
    pub blocks: bool,
    pub templates: bool,
    pub imports: bool,
    pub unicode: bool,
    pub dashes: bool,
    pub filter_blocks: bool,
    /// `filter` blocks, too
    pub filter_stmt: bool,
    pub tests: bool,
    pub crlf: bool,
    pub names: Vec<&'static str>,
    pub files: Vec<String>,
    pub max_depth: usize,
    pub len: usize,
}
impl Opt {
    pub fn new() -> Self {
        Opt { blocks: true, templates: true, imports: false, unicode: true, dashes: true, filter_blocks: true, filter_stmt: false, tests: true, crlf: true,
            names: vec!["a", "b", "item", "items", "user", "use", "x1", "foo_bar", "_p", "longer_name", "Item", "endpoint"],
            files: vec!["base.html".into(), "a/b.html".into(), "missing.html".into(), "c.jinja".into(), "x y.html".into()],
            max_depth: 4, len: 6 }
    }
}
pub struct B<'r> { pub d: Doc, pub r: &'r mut Rng, pub o: Opt, at: Pt, scopes: Vec<Vec<usize>> }
impl<'r> B<'r> {
    pub fn new(r: &'r mut Rng, o: Opt) -> Self { B { d: Doc::default(), r, o, at: Pt { row: 0, col: 0 }, scopes: vec![vec![]] } }
    pub fn pos(&self) -> Pt { self.at }
    pub fn put(&mut self, s: &str) -> (Pt, Pt) {
        let a = self.at;
        for c in s.chars() {
            if c == '\n' { self.at.row += 1; self.at.col = 0; } else { self.at.col += c.len_utf8(); }
        }
        self.d.text.push_str(s);
        (a, self.at)
    }
    fn name(&mut self) -> String { let n = self.o.names.clone(); self.r.pick(&n).to_string() }
    fn sp(&mut self) { let s = *self.r.pick(&[" ", " ", " ", "  ", "\n "]); self.put(s); }
    /// a dotted reference
    fn dotted(&mut self, in_output: bool) {
        let n = self.name();
        let (a, b) = self.put(&n);
        let mut parts = vec![(n, a, b)];
        while self.r.chance(1, 3) && parts.len() < 4 {
            self.put(".");
            let f = *self.r.pick(&["id", "name", "b", "first_name", "x"]);
            let (a, b) = self.put(f);
            parts.push((f.to_string(), a, b));
        }
        self.d.refs.push(Ref { parts, kind: RefKind::Var, in_output });
    }
    fn literal(&mut self) {
        if self.r.chance(1, 3) { let s = *self.r.pick(&["None", "none", "True", "False", "true", "false", "loop.index", "loop.first"]); self.put(s); } else { self.plain() }
    }
    /// a literal without names
    fn plain(&mut self) {
        let s = *self.r.pick(&["\"str\"", "'s t'", "12", "\"\"", "\"é\"", "3.5"]);
        let s = if !self.o.unicode && !s.is_ascii() { "\"e\"" } else { s };
        self.put(s);
    }
    fn atom(&mut self, out: bool) {
        match self.r.b(8) {
            0 => self.literal(),
            1 => { self.dotted_call(out) }
            3 if self.r.chance(1, 3) => match self.r.b(5) {
                0 => { self.put("["); let k = 1 + self.r.b(3); for i in 0..k { if i > 0 { self.put(", "); } if self.r.chance(1, 3) { self.literal() } else { self.dotted(out) } } self.put("]"); }
                1 => { self.put("{\"k\": "); self.dotted(out); self.put("}"); }
                2 => { self.put("("); self.dotted(out); self.put(")"); }
                3 => { self.put("-"); self.dotted(out); }
                _ => { self.dotted(out); self.put("["); self.dotted(out); self.put("]"); self.trailer() }
            },
            2 if self.r.chance(1, 2) => { self.dotted(out); let t = *self.r.pick(&["[0]", "[\"k\"]"]); self.put(t); self.trailer() }
            _ => self.dotted(out),
        }
    }
    fn dotted_call(&mut self, out: bool) {
        let n = self.name();
        let (a, b) = self.put(&n);
        self.d.refs.push(Ref { parts: vec![(n, a, b)], kind: RefKind::Var, in_output: out });
        self.put("(");
        let k = self.r.b(3);
        for i in 0..k {
            if i > 0 { self.put(", "); }
            if self.r.chance(1, 3) { self.literal() } else { self.dotted(out) }
        }
        self.put(")");
        self.trailer();
    }
    /// attributes and subscripts of something that is not a name
    fn trailer(&mut self) {
        while self.r.chance(1, 3) {
            let t = *self.r.pick(&[".id", ".first_name", "[0]", "[\"k\"]", "[0].x", ". b", "[\"k\"].name.x"]);
            self.put(t);
        }
    }
    pub fn expr(&mut self, out: bool) {
        self.atom(out);
        if self.r.chance(1, 4) {
            let op = *self.r.pick(&[" + ", " ~ ", " == ", " * ", " and ", " or ", " in ", " not in ", " if "]);
            self.put(op);
            self.atom(out);
            if op == " if " { self.put(" else "); self.atom(out); }
        }
    }
    fn filters(&mut self, out: bool) {
        while self.r.chance(1, 3) {
            self.put(" | ");
            let p = self.pos();
            self.d.pipes.push(p);
            let f = *self.r.pick(&["upper", "lower", "title", "default", "items", "replace", "join", "length", "safe", "first", "escape", "d"]);
            let (a, b) = self.put(f);
            self.d.refs.push(Ref { parts: vec![(f.to_string(), a, b)], kind: RefKind::Filter, in_output: out });
            if matches!(f, "default" | "replace" | "join") {
                self.put("(");
                let k = if f == "replace" { 2 } else { 1 };
                for i in 0..k {
                    if i > 0 { self.put(", "); }
                    if self.r.chance(1, 2) { self.literal() } else { self.dotted(out) }
                }
                self.put(")");
            }
        }
    }
    /// filters of a statement
    fn more(&mut self) { if self.r.chance(1, 6) { self.filters(false) } }
    fn open(&mut self) { let s = if self.o.dashes && self.r.chance(1, 5) { "{%- " } else { "{% " }; self.put(s); }
    fn close(&mut self) { let s = if self.o.dashes && self.r.chance(1, 5) { " -%}" } else { " %}" }; self.put(s); }
    fn def(&mut self, name: String, a: Pt, b: Pt, kind: DefKind, depth_up: usize) {
        let i = self.d.defs.len();
        self.d.defs.push(Def { name: name.clone(), start: a, end: b, scope_end: Pt { row: 0, col: 0 }, kind });
        let n = self.scopes.len();
        self.scopes[n - 1 - depth_up].push(i);
        let kind = if kind == DefKind::Block { RefKind::BlockName } else { RefKind::DefName };
        self.d.refs.push(Ref { parts: vec![(name, a, b)], kind, in_output: false });
    }
    fn end_scope(&mut self) {
        let p = self.pos();
        for i in self.scopes.pop().unwrap() { self.d.defs[i].scope_end = p; }
    }
    fn text(&mut self) {
        let s = *self.r.pick(&["<p>", "text ", "\n", "<div class=\"x\">\n", "é", "\u{1F600} ", "\t", "a b c\n\n", "} ", "% ", "</p>\n", "it's \"q\" "]);
        let s = if !self.o.unicode && !s.is_ascii() { "e" } else { s };
        let s = if self.o.crlf && s == "\n" && self.r.chance(1, 4) { "\r\n" } else { s };
        let (a, b) = self.put(s);
        if s.contains("text") { self.d.plain.push(Pt { row: a.row, col: a.col + 2 }); }
        let _ = b;
    }
    fn output(&mut self) {
        self.put("{{ ");
        if self.r.chance(1, 12) { let p = self.pos(); self.d.blanks.push(p); self.put("1"); self.put(" }}"); return; }
        self.expr(true);
        self.filters(true);
        self.put(" }}");
    }
    fn quoted(&mut self) -> (String, Pt, Pt) {
        let fs = self.o.files.clone();
        let n = self.r.pick(&fs).clone();
        let q = if self.r.chance(1, 2) { "\"" } else { "'" };
        let (a, b) = self.put(&format!("{q}{n}{q}"));
        (n, a, b)
    }
    fn template(&mut self) {
        self.open();
        let k = self.r.b(if self.o.imports { 5 } else { 3 });
        match k {
            0 => { self.put("extends "); let (n, a, b) = self.quoted(); self.d.trefs.push(TRef { name: n, start: a, end: b }); }
            1 => { self.put("include "); let (n, a, b) = self.quoted(); self.d.trefs.push(TRef { name: n, start: a, end: b }); }
            2 => {
                self.put("include [");
                let k = 1 + self.r.b(3);
                for i in 0..k {
                    if i > 0 { self.put(", "); }
                    let (n, a, b) = self.quoted();
                    self.d.trefs.push(TRef { name: n, start: a, end: b });
                }
                self.put("]");
            }
            3 => { self.put("import "); let (n, a, b) = self.quoted(); self.d.trefs.push(TRef { name: n, start: a, end: b }); self.put(" as "); let n = self.name(); self.put(&n); }
            _ => { self.put("from "); let (n, a, b) = self.quoted(); self.d.trefs.push(TRef { name: n, start: a, end: b }); self.put(" import "); let n = self.name(); self.put(&n); }
        }
        self.close();
    }
    fn end_tag(&mut self, t: &str) { self.end_scope(); self.open(); self.put(t); self.close(); }
    pub fn body(&mut self, depth: usize) {
        let k = if depth == 0 { 1 + self.r.b(self.o.len) } else { self.r.b(4) };
        for _ in 0..k { self.stmt(depth); }
    }
    pub fn stmt(&mut self, depth: usize) {
        let deep = depth >= self.o.max_depth;
        match self.r.b(if deep { 6 } else { 15 }) {
            0 | 1 => self.text(),
            2 | 3 => self.output(),
            4 => { // set
                self.open(); self.put("set ");
                let n = self.name(); let (a, b) = self.put(&n);
                self.def(n, a, b, DefKind::Set, 0);
                self.put(" = "); self.atom(false); self.more(); self.close();
            }
            5 => if self.o.templates { self.template() } else { self.text() },
            6 | 7 => { // for
                self.open(); self.put("for ");
                self.scopes.push(vec![]);
                let n = self.name(); let (a, b) = self.put(&n);
                self.def(n, a, b, DefKind::ForKey, 0);
                if self.r.chance(1, 3) {
                    self.put(", ");
                    let n = self.name(); let (a, b) = self.put(&n);
                    self.def(n, a, b, DefKind::ForValue, 0);
                }
                self.put(" in "); self.dotted(false); self.more();
                if self.r.chance(1, 8) { self.put(" if "); self.dotted(false); }
                self.close();
                self.body(depth + 1);
                if self.r.chance(1, 10) { self.open(); self.put("else"); self.close(); self.body(depth + 1); }
                self.end_tag("endfor");
            }
            8 => { // if
                self.open(); self.put("if ");
                if self.r.chance(1, 8) { self.put("not "); }
                self.dotted(false);
                if self.o.tests && self.r.chance(1, 2) {
                    self.put(" is");
                    let p = self.pos(); self.d.tests.push(p);
                    self.put(" ");
                    if self.r.chance(1, 4) { let p = self.pos(); self.d.tests.push(p); self.put(" "); }
                    let t = *self.r.pick(&["defined", "odd", "even", "undefined", "divisibleby", "sameas", "eq", "string", "number", "iterable", "startingwith", "lower"]);
                    let (a, b) = self.put(t);
                    self.d.refs.push(Ref { parts: vec![(t.to_string(), a, b)], kind: RefKind::Test, in_output: false });
                    if t != "defined" && self.r.chance(1, 2) { self.put("("); if self.r.chance(1, 3) { self.literal() } else { self.dotted(false) } self.put(")"); }
                } else if self.r.chance(1, 2) { self.put(" == "); self.atom(false); } else { self.more(); }
                if self.r.chance(1, 8) { let op = *self.r.pick(&[" and ", " or ", " > ", " in "]); self.put(op); self.dotted(false); }
                self.close();
                self.scopes.push(vec![]);
                self.body(depth + 1);
                if self.r.chance(1, 6) { self.open(); self.put("elif "); self.dotted(false); self.close(); self.body(depth + 1); }
                if self.r.chance(1, 5) { self.open(); self.put("else"); self.close(); self.body(depth + 1); }
                self.end_tag("endif");
            }
            9 => { // with
                self.open(); self.put("with ");
                self.scopes.push(vec![]);
                let k = if self.r.chance(1, 4) { 3 + self.r.b(2) } else { 1 + self.r.b(2) };
                for i in 0..k {
                    if i > 0 { self.put(", "); }
                    let n = self.name(); let (a, b) = self.put(&n);
                    self.def(n, a, b, DefKind::With, 0);
                    self.put(" = "); self.plain();
                }
                self.close();
                self.body(depth + 1);
                self.end_tag("endwith");
            }
            10 => { // macro
                self.open(); self.put("macro ");
                self.scopes.push(vec![]);
                let n = self.name(); let (a, b) = self.put(&n);
                self.def(n, a, b, DefKind::MacroName, 1);
                self.put("(");
                let k = if self.r.chance(1, 5) { 3 + self.r.b(2) } else { self.r.b(3) };
                for i in 0..k {
                    if i > 0 { self.put(", "); }
                    let n = self.name(); let (a, b) = self.put(&n);
                    self.def(n, a, b, DefKind::MacroParam, 0);
                }
                self.put(")"); self.close();
                self.body(depth + 1);
                self.end_tag("endmacro");
            }
            11 => if self.o.blocks { // block
                self.open(); self.put("block ");
                self.scopes.push(vec![]);
                let n = format!("blk{}", self.d.defs.len());
                let (a, b) = self.put(&n);
                self.def(n, a, b, DefKind::Block, 0);
                self.close();
                self.body(depth + 1);
                self.end_tag("endblock");
            } else { self.text() },
            12 => { // set block
                self.open(); self.put("set ");
                let n = self.name(); let (a, b) = self.put(&n);
                self.def(n, a, b, DefKind::Set, 0);
                self.close();
                let k = self.r.b(3);
                for _ in 0..k { if self.r.chance(1, 2) { self.text() } else { self.output() } }
                self.open(); self.put("endset"); self.close();
            }
            13 => if self.o.filter_blocks { // autoescape
                let (t, e) = if self.o.filter_stmt && self.r.chance(1, 2) { ("filter upper", "endfilter") } else { ("autoescape true", "endautoescape") };
                self.open(); self.put(t); self.close();
                self.scopes.push(vec![]);
                self.body(depth + 1);
                self.end_tag(e);
            } else { self.text() },
            _ => { // text with newlines between
                if self.r.chance(1, 4) { self.put("{# {{ a }} {% set b = item %} #}"); return; }
                self.put("\n"); self.sp(); self.text();
            }
        }
    }
    pub fn finish(mut self) -> Doc {
        while self.scopes.len() > 1 { self.end_scope(); }
        let p = self.pos();
        for i in self.scopes.pop().unwrap() { self.d.defs[i].scope_end = p; }
        self.d.end = Some(p);
        self.d
    }
}
pub fn template(r: &mut Rng, mut o: Opt) -> Doc {
    // now and then a long text, or one that starts far down or far to the right
    let big = if r.chance(1, 30) { 1 + r.b(3) } else { 0 };
    if big > 0 { o.len = 40; }
    let mut b = B::new(r, o);
    match big { 1 => { b.put(&"\n".repeat(300)); } 2 => { b.put(&" ".repeat(300)); } _ => {} }
    b.body(0);
    b.finish()
}
