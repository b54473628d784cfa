//! Grammar of well-formed Rust items, producing the model of each declaration.
use crate::choice::G;
use crate::model::*;
use crate::tok::*;

const SIMPLE: [&str; 12] = ["a", "b", "x", "foo", "T", "Foo", "value", "_x", "A1", "long_identifier_name", "Vec", "Item"];
/// contextual keywords and names that merely look like keywords
const CTX: [&str; 34] = [
    "union", "default", "auto", "macro_rules", "raw", "safe", "structure", "enumerate", "whereabouts", "format",
    "selfish", "implicit", "constant", "public", "crates", "external", "modulo", "traits", "typed", "used", "fnord",
    "statics", "Self_", "_self", "doc", "cfg", "String", "mutable", "fore", "as_", "derive", "inner", "compile_error", "bool",
];
const RAW: [&str; 24] = [
    "r#fn", "r#struct", "r#where", "r#for", "r#mut", "r#type", "r#enum", "r#const", "r#static", "r#impl", "r#trait",
    "r#mod", "r#use", "r#pub", "r#async", "r#unsafe", "r#extern", "r#as", "r#in", "r#dyn", "r#union", "r#default",
    "r#match", "r#foo",
];
const UNI: [&str; 6] = ["été", "名前", "Ω", "ñandú", "ßx", "переменная"];
const LITS: [&str; 36] = [
    "0", "1", "42", "0xFFu8", "1_000i64", "1.5", "2e10f64", "\"\"", "\"text\"", "\"a, b; c > d\"", "\"\\\"q\\\"\"",
    "r\"raw\"", "r#\"ra\"w\"#", "b\"bytes\"", "'c'", "'\\''", "'\\\\'", "b'x'", "\"é∀\"", "1u128", "3usize", "\"{}\"", "c\"cs\"", "255",
    "\"two\nlines\"", "r\"raw\nover\n\nlines\"", "\"tab\\t nl\\n nul\\0 u\\u{1F600}\"", "\"{:?} {{}} %s\"", "\"//c /*d*/\"",
    "\"a very long text, longer than any line of source code would ever be, to see what becomes of it when it is shown or stored somewhere; it ends here\"",
    "340282366920938463463374607431768211455", "0b1010_0101", "0o17", "1.0e-300_f32", "r##\"a\"#b\"##", "br\"x\"",
];
const OPS: [&str; 20] =
    ["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "&", "|", "^", "..", "..="];

/// keywords that cannot name anything and would be parsed differently
fn is_keyword(s: &str) -> bool {
    matches!(
        s,
        "as" | "break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if"
            | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return" | "self"
            | "Self" | "static" | "struct" | "super" | "trait" | "true" | "type" | "unsafe" | "use" | "where" | "while"
            | "async" | "await" | "dyn" | "abstract" | "become" | "box" | "do" | "final" | "macro" | "override"
            | "priv" | "typeof" | "unsized" | "virtual" | "yield" | "try" | "gen" | "_"
    )
}
pub fn keyword(s: &str) -> bool {
    is_keyword(s)
}

#[derive(Clone, Copy, Default)]
pub struct Ty {
    /// a `{}` at the top level of the type would end it
    pub no_brace: bool,
    /// a `for` at the top level of the type would end it
    pub no_for: bool,
    /// no `+` at the top level
    pub no_plus: bool,
    /// must not start with `<`
    pub no_lt: bool,
    /// no bare `:` (left side of a predicate)
    pub left: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Where {
    Top,
    Mod,
    Impl,
    Trait,
    Extern,
}

fn colon2() -> [R; 2] {
    [pj(':'), p(':')]
}
pub fn op(s: &str, o: &mut Ts) {
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        o.push(if i + 1 < cs.len() { pj(*c) } else { p(*c) });
    }
}
fn arrow() -> [R; 2] {
    [pj('-'), p('>')]
}

impl G {
    pub fn name(&mut self) -> R {
        id(&self.name_s())
    }
    pub fn name_s(&mut self) -> String {
        self.spend(1);
        let k = self.k.clone();
        if self.chance(k.raw) {
            return self.pick(&RAW).to_string();
        }
        if self.chance(k.ctx) {
            return self.pick(&CTX).to_string();
        }
        if self.chance(k.uni) {
            return self.pick(&UNI).to_string();
        }
        if self.chance(k.dict) && !self.dict.idents.is_empty() {
            let d = self.dict.clone();
            let s = self.pick(&d.idents).clone();
            if !is_keyword(&s) {
                return s;
            }
        }
        if self.chance(k.dup) {
            return self.pick(&SIMPLE).to_string();
        }
        self.uniq += 1;
        format!("n{}", self.uniq)
    }
    pub fn lifetime(&mut self) -> [R; 2] {
        let n = match self.below(6) {
            0 => "a".to_string(),
            1 => "static".to_string(),
            2 => "_".to_string(),
            3 => "b".to_string(),
            _ => {
                let s = self.name_s();
                s.strip_prefix("r#").map(|_| "rr".to_string()).unwrap_or(s)
            }
        };
        self.spend(2);
        [pj('\''), id(&n)]
    }
    pub fn lit(&mut self) -> R {
        self.spend(1);
        let d = self.dict.clone();
        let kd = self.k.dict;
        if self.chance(kd) && !d.strings.is_empty() {
            return lit(self.pick(&d.strings));
        }
        lit(self.pick(&LITS))
    }

    // ---- arbitrary tokens -------------------------------------------------------------------
    pub fn soup_tok(&mut self, d: u32) -> R {
        self.spend(1);
        match self.below(12) {
            0..=2 => self.name(),
            3 => {
                let w = *self.pick(&[
                    "struct", "enum", "fn", "where", "pub", "impl", "mut", "self", "for", "type", "const", "mod", "crate",
                    "static", "extern", "unsafe", "use", "dyn", "as", "trait", "async", "_", "in", "super", "Self",
                ]);
                id(w)
            }
            4 => self.lit(),
            5..=8 => {
                let c = *self.pick(&[
                    ',', ';', ':', '=', '<', '>', '#', '!', '&', '-', '+', '*', '?', '.', '$', '|', '/', '@', '%', '^', '~',
                ]);
                p(c)
            }
            _ => {
                let dl = *self.pick(&[D::Paren, D::Brace, D::Bracket, D::None]);
                if d == 0 || self.budget <= 0 {
                    grp(dl, vec![])
                } else {
                    let t = self.soup(d - 1, 4);
                    grp(dl, t)
                }
            }
        }
    }
    pub fn soup(&mut self, d: u32, max: u32) -> Ts {
        let n = self.len(max);
        (0..n).map(|_| self.soup_tok(d)).collect()
    }

    // ---- expressions ------------------------------------------------------------------------
    pub fn expr(&mut self, d: u32) -> Ts {
        let mut o = Vec::new();
        self.expr_into(d, &mut o);
        let kn = self.k.none;
        if self.chance(kn) {
            return vec![grp(D::None, o)];
        }
        o
    }
    fn expr_into(&mut self, d: u32, o: &mut Ts) {
        self.spend(2);
        let n = if d == 0 || self.budget <= 0 { self.below(3) } else { self.below(18) };
        match n {
            0 => o.push(self.lit()),
            1 => o.push(self.name()),
            2 => {
                o.push(self.name());
                colon2().emit(o);
                o.push(self.name());
            }
            3..=6 => {
                self.expr_into(0, o);
                let s = *self.pick(&OPS);
                op(s, o);
                self.expr_into(d - 1, o);
            }
            7 => {
                let c = *self.pick(&['-', '!', '*', '&']);
                o.push(p(c));
                self.expr_into(0, o);
            }
            8 => {
                let mut i = Vec::new();
                self.expr_into(d - 1, &mut i);
                o.push(grp(D::Paren, i));
            }
            9 => {
                let mut i = Vec::new();
                for _ in 0..self.below(4) {
                    self.expr_into(d - 1, &mut i);
                    i.push(p(','));
                }
                o.push(grp(D::Bracket, i));
            }
            10 => {
                // struct literal
                o.push(self.name());
                let mut i = Vec::new();
                for _ in 0..self.below(3) {
                    i.push(self.name());
                    i.push(p(':'));
                    self.expr_into(0, &mut i);
                    i.push(p(','));
                }
                o.push(grp(D::Brace, i));
            }
            11 => {
                // turbofish call
                o.push(self.name());
                colon2().emit(o);
                o.push(p('<'));
                let t = self.ty(d - 1, Ty::default());
                t.emit(o);
                o.push(p('>'));
                let mut i = Vec::new();
                self.expr_into(0, &mut i);
                o.push(grp(D::Paren, i));
            }
            12 => {
                let mut i = Vec::new();
                for _ in 0..self.below(3) {
                    self.expr_into(0, &mut i);
                    i.push(p(';'));
                }
                if self.chance(32) {
                    o.push(id("unsafe"));
                }
                o.push(grp(D::Brace, i));
            }
            13 => {
                // closure
                o.push(p('|'));
                o.push(self.name());
                o.push(p('|'));
                self.expr_into(d - 1, o);
            }
            14 => {
                o.push(id("if"));
                o.push(self.name());
                op(*self.pick(&["<", ">", "=="]), o);
                o.push(self.lit());
                let a = self.expr(0);
                o.push(grp(D::Brace, a));
                o.push(id("else"));
                let b = self.expr(0);
                o.push(grp(D::Brace, b));
            }
            15 => {
                o.push(id("match"));
                o.push(self.name());
                let mut i = vec![id("_")];
                op("=>", &mut i);
                self.expr_into(0, &mut i);
                o.push(grp(D::Brace, i));
            }
            16 => {
                o.push(self.name());
                o.push(p('!'));
                let s = self.soup(2, 6);
                let dl = *self.pick(&[D::Paren, D::Brace, D::Bracket]);
                o.push(grp(dl, s));
            }
            _ => {
                self.expr_into(0, o);
                o.push(id("as"));
                let t = self.path_ty(0, Ty::default(), false);
                t.emit(o);
            }
        }
    }

    // ---- attributes, visibility -------------------------------------------------------------
    pub fn attr(&mut self, inner: bool) -> MAttr {
        self.spend(4);
        let hash = p('#');
        let bang = inner.then(|| p('!'));
        let mut path = Vec::new();
        let mut segs = 1;
        let form = self.below(8);
        match form {
            0..=4 => path.push(match self.below(8) {
                0 => id("doc"),
                1 => id("cfg"),
                2 => id("derive"),
                3 => id(*self.pick(&["unsafe", "crate", "self", "super", "repr", "allow"])),
                _ => self.name(),
            }),
            _ => {
                if form == 7 {
                    colon2().emit(&mut path);
                }
                path.push(self.name());
                let n = self.below(4);
                for _ in 0..n {
                    colon2().emit(&mut path);
                    path.push(self.name());
                    segs += 1;
                }
            }
        }
        let val = match self.below(5) {
            0 | 1 => MVal::Empty,
            2 => {
                let e = p('=');
                let v = match self.below(4) {
                    0 | 1 => vec![self.lit()],
                    2 => self.expr(1),
                    _ => {
                        let mut s = self.soup(1, 5);
                        if s.is_empty() {
                            s.push(self.name());
                        }
                        s
                    }
                };
                MVal::Eq(e, v)
            }
            _ => {
                let d = *self.pick(&[D::Paren, D::Paren, D::Paren, D::Brace, D::Bracket]);
                let s = self.soup(2, 6);
                MVal::Group(grp(d, s))
            }
        };
        let mut i = path.clone();
        match &val {
            MVal::Empty => {}
            MVal::Group(g) => i.push(g.clone()),
            MVal::Eq(e, v) => {
                i.push(e.clone());
                v.emit(&mut i);
            }
        }
        MAttr { hash, bang, group: grp(D::Bracket, i), path, segs, val }
    }
    pub fn attrs(&mut self, inner: bool) -> Vec<MAttr> {
        let ka = self.k.attr;
        if !self.chance(ka) {
            return vec![];
        }
        let n = self.len(5).max(1);
        (0..n).map(|_| self.attr(inner)).collect()
    }
    pub fn vis(&mut self) -> Option<MVis> {
        let kv = self.k.vis;
        if !self.chance(kv) {
            return None;
        }
        Some(self.vis_some())
    }
    pub fn vis_some(&mut self) -> MVis {
        // a visibility captured by a macro comes in an invisible group, also when it is empty
        let kn = self.k.none;
        if self.chance(kn) {
            let t = if self.chance(12) { vec![] } else { self.vis_plain().toks() };
            let mut t1 = grp(D::None, t);
            // passed on from macro to macro
            while self.chance(8) {
                t1 = grp(D::None, vec![t1]);
            }
            return MVis { t1, t2: None };
        }
        self.vis_plain()
    }
    fn vis_plain(&mut self) -> MVis {
        self.spend(2);
        match self.below(8) {
            0..=2 => MVis { t1: id("pub"), t2: None },
            3 => MVis { t1: id("pub"), t2: Some(grp(D::Paren, vec![id("crate")])) },
            4 => MVis { t1: id("pub"), t2: Some(grp(D::Paren, vec![id("super")])) },
            5 => MVis { t1: id("pub"), t2: Some(grp(D::Paren, vec![id("self")])) },
            _ => {
                let mut v = vec![id("in")];
                if self.chance(16) {
                    colon2().emit(&mut v);
                }
                v.push(id(*self.pick(&["crate", "super", "self"])));
                for _ in 0..self.below(3) {
                    colon2().emit(&mut v);
                    v.push(self.name());
                }
                MVis { t1: id("pub"), t2: Some(grp(D::Paren, v)) }
            }
        }
    }

    // ---- types ------------------------------------------------------------------------------
    pub fn tdepth(&mut self) -> u32 {
        match self.k.depth {
            0..=2 => 1,
            3..=4 => 2,
            5..=6 => 3,
            _ => 5,
        }
    }
    pub fn ty_top(&mut self, c: Ty) -> MTy {
        if self.deep.is_some() && self.chance(24) {
            let n = self.deep.take().unwrap();
            return self.deep_ty(n, c);
        }
        let d = self.tdepth();
        self.ty(d, c)
    }
    /// nested `n` times
    pub fn deep_ty(&mut self, n: u32, _c: Ty) -> MTy {
        let style = self.below(6);
        let leaf = self.name();
        let mut cur = MTy {
            toks: vec![leaf.clone()],
            path: PathExp::Path(vec![MSeg { sep: None, ident: leaf, args: None }]),
        };
        for i in 0..n {
            let s = if style == 5 { self.below(5) } else { style };
            cur = match s {
                0 | 4 => {
                    // Name<cur> or Name<X, cur>
                    let nm = self.name();
                    let (lt, gt) = (p('<'), p('>'));
                    let mut items = vec![];
                    if s == 4 && i % 3 == 0 {
                        let l = self.name();
                        items.push((MArg::Ty(vec![l]), Some(p(','))));
                    }
                    items.push((MArg::Ty(cur.toks), None));
                    let seg =
                        MSeg { sep: None, ident: nm, args: Some(MArgs { colons: None, lt, args: MList { items }, gt }) };
                    let toks = seg.toks();
                    MTy { toks, path: PathExp::Path(vec![seg]) }
                }
                1 => {
                    let mut t = vec![p('&')];
                    t.extend(cur.toks);
                    MTy { toks: t, path: PathExp::NotPath }
                }
                2 => {
                    let mut t = cur.toks;
                    t.push(p(','));
                    MTy { toks: vec![grp(D::Paren, t)], path: PathExp::NotPath }
                }
                _ => {
                    let mut t = vec![id("fn"), grp(D::Paren, vec![])];
                    arrow().emit(&mut t);
                    t.extend(cur.toks);
                    MTy { toks: t, path: PathExp::NotPath }
                }
            };
        }
        cur
    }
    pub fn ty(&mut self, d: u32, c: Ty) -> MTy {
        self.spend(2);
        let kn = self.k.none;
        if self.chance(kn) {
            let t = self.ty_raw(d, Ty { no_plus: c.no_plus, ..Ty::default() });
            let path = match (t.path, t.toks.len()) {
                (PathExp::Path(s), _) => PathExp::Path(s),
                (PathExp::NotPath, 1) if t.toks[0].delim() == Some(D::None) => PathExp::Any,
                (x, _) => x,
            };
            return MTy { toks: vec![grp(D::None, t.toks)], path };
        }
        self.ty_raw(d, c)
    }
    fn ty_raw(&mut self, d: u32, c: Ty) -> MTy {
        let n = if d == 0 || self.budget <= 0 { 0 } else { self.below(26) };
        let np = PathExp::NotPath;
        match n {
            0..=9 => self.path_ty(d, c, true),
            10 | 11 => {
                let mut t = vec![p('&')];
                if self.chance(32) {
                    self.lifetime().emit(&mut t);
                }
                if self.chance(24) {
                    t.push(id("mut"));
                }
                self.ty(d - 1, Ty { no_plus: true, no_lt: false, ..c }).emit(&mut t);
                MTy { toks: t, path: np }
            }
            12 => {
                let mut t = vec![p('*'), id(*self.pick(&["const", "mut"]))];
                self.ty(d - 1, Ty { no_plus: true, no_lt: false, ..c }).emit(&mut t);
                MTy { toks: t, path: np }
            }
            13 | 14 => {
                let mut i = Vec::new();
                let n = self.len(4);
                for k in 0..n {
                    self.ty(d - 1, Ty::default()).emit(&mut i);
                    if k + 1 < n || n == 1 || self.chance(20) {
                        i.push(p(','));
                    }
                }
                MTy { toks: vec![grp(D::Paren, i)], path: np }
            }
            15 => {
                let mut i = self.ty(d - 1, Ty::default()).toks;
                if self.chance(40) {
                    i.push(p(';'));
                    self.expr_into(1, &mut i);
                }
                MTy { toks: vec![grp(D::Bracket, i)], path: np }
            }
            16 => MTy { toks: vec![p('!')], path: np },
            17 => MTy { toks: vec![id("_")], path: PathExp::Any },
            18 | 19 => {
                // function pointer
                let mut t = Vec::new();
                if !c.no_for && self.chance(16) {
                    self.binder(&mut t);
                }
                if self.chance(16) {
                    t.push(id("unsafe"));
                }
                if self.chance(16) {
                    t.push(id("extern"));
                    if self.chance(40) {
                        t.push(lit("\"C\""));
                    }
                }
                t.push(id("fn"));
                let mut i = Vec::new();
                let n = self.len(3);
                for k in 0..n {
                    if self.chance(16) {
                        i.push(self.name());
                        i.push(p(':'));
                    }
                    self.ty(d - 1, Ty::default()).emit(&mut i);
                    if k + 1 < n || self.chance(10) {
                        i.push(p(','));
                    }
                }
                t.push(grp(D::Paren, i));
                if self.chance(40) {
                    arrow().emit(&mut t);
                    self.ty(d - 1, Ty { no_plus: true, no_lt: false, ..c }).emit(&mut t);
                }
                MTy { toks: t, path: np }
            }
            20 | 21 => {
                let mut t = vec![id(*self.pick(&["dyn", "impl"]))];
                self.bounds_into(d - 1, c, true, &mut t);
                MTy { toks: t, path: np }
            }
            22 if !c.no_lt => {
                // <T as Trait>::X
                let mut t = vec![p('<')];
                self.ty(d - 1, Ty { no_plus: true, ..Ty::default() }).emit(&mut t);
                if self.chance(48) {
                    t.push(id("as"));
                    self.path_ty(d - 1, Ty::default(), false).emit(&mut t);
                }
                t.push(p('>'));
                colon2().emit(&mut t);
                t.push(self.name());
                if self.chance(16) {
                    let a = self.args(d - 1, false).0;
                    a.emit(&mut t);
                }
                MTy { toks: t, path: np }
            }
            23 => {
                // macro type
                let dl = if c.no_brace { *self.pick(&[D::Paren, D::Bracket]) } else { *self.pick(&[D::Paren, D::Bracket, D::Brace]) };
                let mut t = vec![self.name(), p('!')];
                let s = self.soup(1, 4);
                t.push(grp(dl, s));
                MTy { toks: t, path: np }
            }
            24 => {
                let t = self.ty(d - 1, Ty::default());
                let kn = self.k.none;
                if self.chance(kn) {
                    // a captured type with more behind it: `$t::Assoc`
                    let mut toks = vec![grp(D::None, t.toks)];
                    for _ in 0..1 + self.below(2) {
                        colon2().emit(&mut toks);
                        toks.push(self.name());
                    }
                    return MTy { toks, path: PathExp::Any };
                }
                MTy { toks: vec![grp(D::Paren, t.toks)], path: np }
            }
            25 => {
                // Fn sugar
                let mut t = vec![id(*self.pick(&["dyn", "impl"]))];
                if self.chance(8) {
                    colon2().emit(&mut t);
                }
                self.fn_sugar(d - 1, c, &mut t);
                MTy { toks: t, path: np }
            }
            _ => self.path_ty(d, c, true),
        }
    }
    fn binder(&mut self, t: &mut Ts) {
        t.push(id("for"));
        t.push(p('<'));
        let n = self.below(3);
        for k in 0..n {
            self.lifetime().emit(t);
            if k + 1 < n || self.chance(8) {
                t.push(p(','));
            }
        }
        t.push(p('>'));
    }
    fn fn_sugar(&mut self, d: u32, c: Ty, t: &mut Ts) {
        t.push(id(*self.pick(&["Fn", "FnMut", "FnOnce"])));
        let mut i = Vec::new();
        let n = self.below(3);
        for k in 0..n {
            self.ty(d.saturating_sub(1), Ty::default()).emit(&mut i);
            if k + 1 < n {
                i.push(p(','));
            }
        }
        t.push(grp(D::Paren, i));
        if self.chance(44) {
            arrow().emit(t);
            self.ty(d.saturating_sub(1), Ty { no_plus: true, no_lt: false, ..c }).emit(t);
        }
    }
    /// `A + 'a + ?B<C>`
    pub fn bounds_into(&mut self, d: u32, c: Ty, nonempty: bool, t: &mut Ts) {
        let mut n = if c.no_plus { 1 } else { self.len(3) };
        if nonempty || c.no_plus {
            n = n.max(1);
        }
        for k in 0..n {
            self.bound_one(d, c, t);
            if k + 1 < n || (!c.no_plus && self.chance(4)) {
                t.push(p('+'));
            }
        }
    }
    fn bound_one(&mut self, d: u32, c: Ty, t: &mut Ts) {
        self.spend(1);
        match self.below(10) {
            0 if !c.no_plus => self.lifetime().emit(t),
            1 => {
                t.push(p('?'));
                t.push(id("Sized"));
            }
            2 if !c.no_for => {
                self.binder(t);
                if self.chance(40) {
                    self.fn_sugar(d, c, t)
                } else {
                    self.path_ty(d, c, false).emit(t)
                }
            }
            3 => {
                let mut i = Vec::new();
                if self.chance(20) {
                    self.binder(&mut i);
                }
                self.path_ty(d, Ty::default(), false).emit(&mut i);
                t.push(grp(D::Paren, i));
            }
            4 | 5 => self.fn_sugar(d, c, t),
            _ => self.path_ty(d, c, false).emit(t),
        }
    }
    pub fn path_ty(&mut self, d: u32, _c: Ty, heads: bool) -> MTy {
        let mut segs: Vec<MSeg> = Vec::new();
        let mut any = false;
        let n = match self.below(8) {
            0..=4 => 1,
            5 => 2,
            6 => 3,
            _ => 1 + self.below(5),
        };
        for k in 0..n {
            let ident = if k == 0 && heads && n > 1 && self.chance(16) {
                id(*self.pick(&["crate", "self", "super", "Self"]))
            } else if k == 0 && heads && n == 1 && self.chance(4) {
                id("Self")
            } else {
                self.name()
            };
            let head = is_keyword(ident.text());
            let sep = if k > 0 || (!head && self.below(16) == 15) { Some(colon2()) } else { None };
            let args = if d > 0 && !head && self.chance(22) {
                let (a, un) = self.args(d - 1, true);
                any |= un;
                Some(a)
            } else {
                None
            };
            segs.push(MSeg { sep, ident, args });
        }
        let mut toks = Vec::new();
        emit_all(&segs, &mut toks);
        MTy { toks, path: if any { PathExp::Any } else { PathExp::Path(segs) } }
    }
    /// generic arguments; second result: contains an argument whose classification is unspecified
    pub fn args(&mut self, d: u32, turbo: bool) -> (MArgs, bool) {
        let mut any = false;
        let colons = if turbo && self.chance(10) { Some(colon2()) } else { None };
        let n = self.len(4);
        let mut items = Vec::new();
        for k in 0..n {
            let a = match self.below(16) {
                0..=1 => {
                    let [a, b] = self.lifetime();
                    MArg::Lifetime(a, b)
                }
                2..=3 => {
                    let i = self.name();
                    let e = p('=');
                    let t = if self.chance(8) { vec![self.lit()] } else { self.ty(d, Ty::default()).toks };
                    MArg::Binding(i, e, t)
                }
                4 => {
                    let mut t = vec![self.name(), p(':')];
                    self.bounds_into(d, Ty::default(), true, &mut t);
                    MArg::Ty(t)
                }
                5 => MArg::Ty(vec![self.lit()]),
                6 => {
                    let e = self.expr(1);
                    MArg::Ty(vec![grp(D::Brace, e)])
                }
                7 => MArg::Ty(vec![p('-'), lit("1")]),
                9 if self.chance(12) => {
                    // a bare trait object: `'a + Trait`, `Trait + 'a`, `for<'a> Fn(&'a T)`
                    let mut t = vec![];
                    if self.chance(32) {
                        self.lifetime().emit(&mut t);
                        t.push(p('+'));
                    } else if self.chance(32) {
                        self.binder(&mut t);
                        self.fn_sugar(d, Ty::default(), &mut t);
                        t.push(p('+'));
                    }
                    let a = self.name();
                    t.push(a);
                    t.push(p('+'));
                    self.bounds_into(d, Ty::default(), true, &mut t);
                    MArg::Ty(t)
                }
                8 if self.chance(8) => {
                    any = true;
                    let mut t = vec![self.name(), p('<')];
                    self.lifetime().emit(&mut t);
                    t.push(p('>'));
                    t.push(p('='));
                    self.ty(d, Ty::default()).emit(&mut t);
                    MArg::Ty(t)
                }
                _ => {
                    // a type argument that is a plain `ident` is fine; `'a` handled above
                    MArg::Ty(self.ty(d, Ty::default()).toks)
                }
            };
            let kt = self.k.trail;
            let comma = if k + 1 < n || self.chance(kt / 2) { Some(p(',')) } else { None };
            items.push((a, comma));
        }
        (MArgs { colons, lt: p('<'), args: MList { items }, gt: p('>') }, any)
    }

    // ---- generics, where --------------------------------------------------------------------
    pub fn bound(&mut self, nonempty: bool, c: Ty) -> MBound {
        let d = self.tdepth();
        let mut t = Vec::new();
        self.bounds_into(d, c, nonempty, &mut t);
        MBound { colon: p(':'), toks: t }
    }
    fn lt_bound(&mut self) -> MBound {
        let mut t = Vec::new();
        let n = self.below(4);
        for k in 0..n {
            self.lifetime().emit(&mut t);
            if k + 1 < n || self.chance(4) {
                t.push(p('+'));
            }
        }
        MBound { colon: p(':'), toks: t }
    }
    pub fn gen_params(&mut self) -> MGen {
        let n = self.len(6);
        let nl = self.below(n + 1);
        let unordered = self.chance(4);
        let mut items = Vec::new();
        for k in 0..n {
            let kb = self.k.bound;
            let prm = if k < nl && (!unordered || self.chance(32)) {
                let [q, nm] = self.lifetime();
                let bound = if self.chance(kb) { Some(self.lt_bound()) } else { None };
                MGParam { prefix: Some(q), name: nm, bound }
            } else if self.chance(14) {
                let name = self.name();
                let t = if self.chance(40) {
                    vec![id(*self.pick(&["usize", "bool", "char", "u8"]))]
                } else {
                    self.ty(1, Ty::default()).toks
                };
                MGParam { prefix: Some(id("const")), name, bound: Some(MBound { colon: p(':'), toks: t }) }
            } else {
                let name = self.name();
                let bound = if self.chance(kb) { Some(self.bound(false, Ty::default())) } else { None };
                MGParam { prefix: None, name, bound }
            };
            let kt = self.k.trail;
            let comma = if k + 1 < n || self.chance(kt) { Some(p(',')) } else { None };
            items.push((prm, comma));
        }
        MGen { lt: p('<'), params: MList { items }, gt: p('>') }
    }
    pub fn gen_opt(&mut self) -> Option<MGen> {
        let kg = self.k.gen;
        if self.chance(kg) {
            Some(self.gen_params())
        } else {
            None
        }
    }
    pub fn pred(&mut self) -> MPred {
        let d = self.tdepth();
        if self.chance(14) {
            let l = self.lifetime().to_vec();
            let b = self.lt_bound();
            return MPred { left: l, bound: b };
        }
        let mut left = Vec::new();
        if self.chance(8) {
            self.binder(&mut left);
        }
        let c = Ty { no_brace: true, no_plus: true, left: true, ..Ty::default() };
        match self.below(4) {
            0 => {
                // projection, the most common tricky left side
                left.push(self.name());
                for _ in 0..1 + self.below(2) {
                    colon2().emit(&mut left);
                    left.push(self.name());
                    if self.chance(10) {
                        self.args(1, false).0.emit(&mut left);
                    }
                }
            }
            _ => self.ty(d, c).emit(&mut left),
        }
        let bound = self.bound(false, Ty { no_brace: true, ..Ty::default() });
        MPred { left, bound }
    }
    /// a predicate that can come first: `where <T>::X` would be read as generic parameters of the clause
    pub fn pred_first(&mut self) -> MPred {
        fn flat<'a>(ts: &'a [R], o: &mut Vec<&'a R>) {
            for t in ts {
                match &t.k {
                    K::G(D::None, i) => flat(i, o),
                    _ => o.push(t),
                }
            }
        }
        let mut pr = self.pred();
        let mut f = vec![];
        flat(&pr.left, &mut f);
        if f.len() > 2 && f[0].is_p('<') && matches!(f[1].k, K::Id(_)) && f[2].is_p('>') {
            pr.left = vec![self.name()];
        }
        pr
    }
    pub fn wher(&mut self) -> MWhere {
        let n = self.len(4);
        let mut items = Vec::new();
        for k in 0..n {
            let pr = if k == 0 { self.pred_first() } else { self.pred() };
            let kt = self.k.trail;
            let comma = if k + 1 < n || self.chance(kt) { Some(p(',')) } else { None };
            items.push((pr, comma));
        }
        MWhere { kw: id("where"), preds: MList { items } }
    }
    pub fn wher_opt(&mut self) -> Option<MWhere> {
        let kw = self.k.wher;
        if self.chance(kw) {
            Some(self.wher())
        } else {
            None
        }
    }

    // ---- fields -----------------------------------------------------------------------------
    pub fn named_fields(&mut self) -> (R, MList<MNField>) {
        let n = self.len(6);
        let mut items = Vec::new();
        for k in 0..n {
            let f = MNField {
                attrs: self.attrs(false),
                vis: self.vis(),
                name: self.name(),
                colon: p(':'),
                ty: self.ty_top(Ty::default()),
            };
            let kt = self.k.trail;
            let comma = if k + 1 < n || self.chance(kt) { Some(p(',')) } else { None };
            items.push((f, comma));
        }
        let l = MList { items };
        (grp(D::Brace, l.toks()), l)
    }
    pub fn tuple_fields(&mut self) -> (R, MList<MTField>) {
        let n = self.len(6);
        let mut items = Vec::new();
        for k in 0..n {
            let f = MTField { attrs: self.attrs(false), vis: self.vis(), ty: self.ty_top(Ty::default()) };
            let kt = self.k.trail;
            let comma = if k + 1 < n || self.chance(kt) { Some(p(',')) } else { None };
            items.push((f, comma));
        }
        let l = MList { items };
        (grp(D::Paren, l.toks()), l)
    }
    pub fn fields(&mut self) -> MFields {
        match self.below(3) {
            0 => MFields::Unit,
            1 => {
                let (g, l) = self.tuple_fields();
                MFields::Tuple(g, l)
            }
            _ => {
                let (g, l) = self.named_fields();
                MFields::Named(g, l)
            }
        }
    }
    /// a value of exactly one token
    pub fn disc_single(&mut self) -> R {
        match self.below(8) {
            0..=2 => self.lit(),
            3 => self.name(),
            4 => {
                let e = self.expr(2);
                grp(D::Paren, e)
            }
            5 => {
                let e = self.soup(2, 5);
                grp(*self.pick(&[D::Brace, D::None, D::Paren]), e)
            }
            6 => lit("7i8"),
            _ => id(*self.pick(&["true", "Self", "CONSTANT"])),
        }
    }
    pub fn variants(&mut self, disc: u32) -> (R, MList<MVariant>) {
        let n = self.len(8);
        let mut items = Vec::new();
        for k in 0..n {
            let v = MVariant {
                attrs: self.attrs(false),
                vis: if self.chance(4) { self.vis() } else { None },
                name: self.name(),
                fields: self.fields(),
                value: if self.chance(disc) {
                    let v = self.disc_single();
                    Some((p('='), vec![v]))
                } else {
                    None
                },
            };
            let kt = self.k.trail;
            let comma = if k + 1 < n || self.chance(kt) { Some(p(',')) } else { None };
            items.push((v, comma));
        }
        let l = MList { items };
        (grp(D::Brace, l.toks()), l)
    }

    // ---- items ------------------------------------------------------------------------------
    pub fn item_struct(&mut self) -> MK {
        let (kw, name, gen) = (id("struct"), self.name(), self.gen_opt());
        let fields = self.fields();
        let wh = self.wher_opt();
        let semi = if matches!(fields, MFields::Named(..)) { None } else { Some(p(';')) };
        MK::Struct { kw, name, gen, wh, fields, semi }
    }
    pub fn item_enum(&mut self, disc: u32) -> MK {
        let (kw, name, gen, wh) = (id("enum"), self.name(), self.gen_opt(), self.wher_opt());
        let (group, variants) = self.variants(disc);
        MK::Enum { kw, name, gen, wh, group, variants }
    }
    pub fn item_union(&mut self) -> MK {
        let (kw, name, gen, wh) = (id("union"), self.name(), self.gen_opt(), self.wher_opt());
        let (group, fields) = self.named_fields();
        MK::Union { kw, name, gen, wh, group, fields }
    }
    pub fn abi(&mut self) -> R {
        lit(*self.pick(&["\"C\"", "\"system\"", "\"C-unwind\"", "r\"C\"", "\"rust-intrinsic\"", "\"\""]))
    }
    pub fn param(&mut self, first: bool, w: Where) -> MParam {
        let attrs = self.attrs(false);
        let assoc = matches!(w, Where::Impl | Where::Trait);
        if first && assoc && self.chance(36) {
            let self_ = id("self");
            match self.below(8) {
                0 | 1 => {
                    let amp = Some(p('&'));
                    return MParam::Recv { attrs, amp, lt: None, mut_: self.chance(32).then(|| id("mut")), self_ };
                }
                2 | 3 => {
                    let amp = Some(p('&'));
                    let lt = Some(self.lifetime());
                    return MParam::Recv { attrs, amp, lt, mut_: self.chance(32).then(|| id("mut")), self_ };
                }
                4 | 5 => {
                    return MParam::Recv { attrs, amp: None, lt: None, mut_: self.chance(32).then(|| id("mut")), self_ };
                }
                _ => {
                    let mut_ = self.chance(20).then(|| id("mut"));
                    return MParam::Typed { attrs, mut_, name: self_, colon: p(':'), ty: self.ty_top(Ty::default()) };
                }
            }
        }
        let mut_ = if w != Where::Extern && self.chance(12) { Some(id("mut")) } else { None };
        let name = if mut_.is_none() && self.chance(4) { id("_") } else { self.name() };
        MParam::Typed { attrs, mut_, name, colon: p(':'), ty: self.ty_top(Ty::default()) }
    }
    pub fn item_fn(&mut self, w: Where) -> MK {
        let kq = self.k.qual;
        let mut q = MQual { default_: None, const_: None, async_: None, unsafe_: None, extern_: None, abi: None };
        if self.chance(kq) {
            if w == Where::Impl && self.chance(12) {
                q.default_ = Some(id("default"));
            }
            if self.chance(24) {
                q.const_ = Some(id("const"));
            }
            if self.chance(24) {
                q.async_ = Some(id("async"));
            }
            if self.chance(24) {
                q.unsafe_ = Some(id("unsafe"));
            }
            if self.chance(24) {
                q.extern_ = Some(id("extern"));
                if self.chance(44) {
                    q.abi = Some(self.abi());
                }
            }
        }
        let (kw, name, gen) = (id("fn"), self.name(), self.gen_opt());
        let n = self.len(6);
        let mut items = Vec::new();
        for k in 0..n {
            let prm = self.param(k == 0, w);
            let kt = self.k.trail;
            let comma = if k + 1 < n || self.chance(kt) { Some(p(',')) } else { None };
            items.push((prm, comma));
        }
        let params = MList { items };
        let parens = grp(D::Paren, params.toks());
        let ret = if self.chance(32) {
            Some((arrow(), self.ty_top(Ty { no_brace: true, ..Ty::default() })))
        } else {
            None
        };
        let wh = self.wher_opt();
        let bodyless = match w {
            Where::Extern => true,
            Where::Trait => self.chance(40),
            _ => self.chance(2),
        };
        let (body, semi) = if bodyless {
            (None, Some(p(';')))
        } else {
            let s = self.soup(2, 8);
            (Some(grp(D::Brace, s)), None)
        };
        MK::Fn(MFn { qual: q, kw, name, gen, parens, params, ret, wh, body, semi })
    }
    pub fn item_const(&mut self, w: Where) -> MK {
        let is_static = match w {
            Where::Extern => true,
            Where::Impl | Where::Trait => false,
            _ => self.chance(32),
        };
        let kw = id(if is_static { "static" } else { "const" });
        let mut_ = if is_static && self.chance(28) { Some(id("mut")) } else { None };
        let name = if !is_static && self.chance(6) { id("_") } else { self.name() };
        let ty = self.ty_top(Ty { ..Ty::default() });
        let has = match w {
            Where::Extern => false,
            Where::Trait => self.chance(32),
            _ => !self.chance(2),
        };
        let val = if has {
            let d = 1 + self.below(3);
            let e = self.expr(d);
            Some((p('='), e))
        } else {
            None
        };
        MK::Const { kw, mut_, name, colon: p(':'), ty, val, semi: p(';') }
    }
    pub fn item_alias(&mut self, w: Where) -> MK {
        let kb = self.k.bound;
        let kb = if matches!(w, Where::Trait | Where::Impl) { kb } else { kb / 3 + 1 };
        let bound = if self.chance(kb) {
            Some(self.bound(false, Ty::default()))
        } else {
            None
        };
        let has = match w {
            Where::Extern => self.chance(6),
            Where::Trait => self.chance(24),
            _ => !self.chance(2),
        };
        let val = if has { Some((p('='), self.ty_top(Ty::default()))) } else { None };
        MK::Alias { kw: id("type"), name: self.name(), bound, val, semi: p(';') }
    }
    fn use_tree(&mut self, d: u32, t: &mut Ts) {
        self.spend(2);
        match self.below(if d == 0 { 4 } else { 7 }) {
            0 => t.push(self.name()),
            1 => {
                t.push(self.name());
                t.push(id("as"));
                let n = if self.chance(20) { id("_") } else { self.name() };
                t.push(n);
            }
            2 => t.push(p('*')),
            3 => t.push(id("self")),
            4 | 5 => {
                t.push(self.name());
                colon2().emit(t);
                self.use_tree(d - 1, t);
            }
            _ => {
                let n = self.len(5);
                let mut i = Vec::new();
                for k in 0..n {
                    self.use_tree(d - 1, &mut i);
                    if k + 1 < n || self.chance(16) {
                        i.push(p(','));
                    }
                }
                t.push(grp(D::Brace, i));
            }
        }
    }
    pub fn item_use(&mut self) -> MK {
        let mut t = Vec::new();
        match self.below(6) {
            0 => colon2().emit(&mut t),
            1 => {
                t.push(id(*self.pick(&["crate", "self", "super"])));
                colon2().emit(&mut t);
            }
            _ => {
                t.push(self.name());
                colon2().emit(&mut t);
            }
        }
        let d = 1 + self.below(4);
        self.use_tree(d, &mut t);
        MK::Use { kw: id("use"), tree: t, semi: p(';') }
    }
    pub fn item_macro(&mut self) -> MK {
        let decl = if self.chance(24) { Some(self.name()) } else { None };
        let name = if decl.is_some() {
            id("macro_rules")
        } else {
            // `union!` and `default!` are listed as known findings
            let s = self.name_s();
            if s == "union" || s == "default" {
                id("mac")
            } else {
                id(&s)
            }
        };
        let d = *self.pick(&[D::Brace, D::Paren, D::Bracket]);
        let s = self.soup(3, 10);
        let group = grp(d, s);
        let semi = if d == D::Brace { None } else { Some(p(';')) };
        MK::Macro { name, bang: p('!'), decl, group, semi }
    }
    fn block(&mut self, w: Where, d: u32) -> (R, Vec<MAttr>, Vec<MItem>) {
        let inner = if self.chance(20) { self.attrs(true) } else { vec![] };
        let n = self.len(4);
        let mut members = Vec::new();
        for _ in 0..n {
            members.push(if w == Where::Mod { self.item(Where::Mod, d.saturating_sub(1)) } else { self.member(w) });
        }
        let mut t = Vec::new();
        emit_all(&inner, &mut t);
        emit_all(&members, &mut t);
        (grp(D::Brace, t), inner, members)
    }
    pub fn item_mod(&mut self, d: u32) -> MK {
        let uns = self.chance(3).then(|| id("unsafe"));
        let name = self.name();
        if d == 0 || self.chance(12) {
            return MK::Mod { uns, kw: id("mod"), name, semi: Some(p(';')), group: None, inner: vec![], members: vec![] };
        }
        let (g, inner, members) = self.block(Where::Mod, d);
        MK::Mod { uns, kw: id("mod"), name, semi: None, group: Some(g), inner, members }
    }
    pub fn item_trait(&mut self) -> MK {
        let uns = self.chance(10).then(|| id("unsafe"));
        let (name, gen) = (self.name(), self.gen_opt());
        let kb = self.k.bound;
        let bound = if self.chance(kb) { Some(self.bound(false, Ty { no_brace: true, ..Ty::default() })) } else { None };
        let wh = self.wher_opt();
        let (group, inner, members) = self.block(Where::Trait, 0);
        MK::Trait { uns, kw: id("trait"), name, gen, bound, wh, group, inner, members }
    }
    pub fn item_impl(&mut self) -> MK {
        let uns = self.chance(10).then(|| id("unsafe"));
        let gen = self.gen_opt();
        let no_lt = gen.is_none();
        let trait_ = if self.chance(36) {
            let d = self.tdepth();
            let mut t = if self.chance(8) {
                let mut t = vec![];
                self.fn_sugar(d, Ty { no_brace: true, no_for: true, ..Ty::default() }, &mut t);
                MTy { toks: t, path: PathExp::NotPath }
            } else {
                self.path_ty(d, Ty::default(), false)
            };
            if self.chance(4) {
                t.toks.insert(0, p('!'));
                t.path = PathExp::NotPath;
            }
            Some((t, id("for")))
        } else {
            None
        };
        let c = if trait_.is_some() {
            Ty { no_brace: true, no_plus: true, ..Ty::default() }
        } else {
            Ty { no_brace: true, no_for: true, no_plus: true, no_lt, ..Ty::default() }
        };
        let self_ty = self.ty_top(c);
        let wh = self.wher_opt();
        let (group, inner, members) = self.block(Where::Impl, 0);
        MK::Impl { uns, kw: id("impl"), gen, trait_, self_ty, wh, group, inner, members }
    }
    pub fn item_extern_block(&mut self) -> MK {
        let uns = self.chance(16).then(|| id("unsafe"));
        let abi = if self.chance(48) { Some(self.abi()) } else { None };
        let (group, inner, members) = self.block(Where::Extern, 0);
        MK::ExternBlock { uns, kw: id("extern"), abi, group, inner, members }
    }
    pub fn item_extern_crate(&mut self) -> MK {
        let name = if self.chance(10) { id("self") } else { self.name() };
        let as_ = if self.chance(36) {
            let n = if self.chance(20) { id("_") } else { self.name() };
            Some((id("as"), n))
        } else {
            None
        };
        MK::ExternCrate { kw: id("extern"), crate_: id("crate"), name, as_, semi: p(';') }
    }
    pub fn member(&mut self, w: Where) -> MItem {
        let attrs = self.attrs(false);
        let n = self.below(8);
        let k = match (w, n) {
            (_, 0..=3) => self.item_fn(w),
            (_, 4) => self.item_const(w),
            (_, 5) => self.item_alias(w),
            (_, 6) => self.item_macro(),
            _ => self.item_fn(w),
        };
        let vis = if matches!(k, MK::Macro { .. }) || (w == Where::Trait && !self.chance(8)) { None } else { self.vis() };
        MItem { attrs, vis, k }
    }
    pub fn item_of(&mut self, kind: usize, w: Where, d: u32) -> MItem {
        let attrs = self.attrs(false);
        let k = match kind {
            0 => self.item_struct(),
            1 => {
                let disc = self.k.qual;
                self.item_enum(disc)
            }
            2 => self.item_union(),
            3 => self.item_mod(d),
            4 => self.item_trait(),
            5 => self.item_impl(),
            6 => self.item_alias(w),
            7 => self.item_fn(w),
            8 => self.item_const(w),
            9 => self.item_use(),
            10 => self.item_macro(),
            11 => self.item_extern_block(),
            _ => self.item_extern_crate(),
        };
        let vis = if matches!(k, MK::Macro { .. } | MK::Impl { .. }) { None } else { self.vis() };
        MItem { attrs, vis, k }
    }
    pub fn pick_kind(&mut self) -> usize {
        let ws = self.focus.kinds;
        let tot: u32 = ws.iter().map(|x| *x as u32).sum();
        let mut r = self.below(tot.max(1));
        for (i, w) in ws.iter().enumerate() {
            if r < *w as u32 {
                return i;
            }
            r -= *w as u32;
        }
        0
    }
    pub fn item(&mut self, w: Where, d: u32) -> MItem {
        let kind = if w == Where::Top { self.pick_kind() } else { self.below(13) as usize };
        if kind == 3 && self.deep.is_some() && self.chance(16) {
            let n = self.deep.take().unwrap().min(150);
            return self.deep_mod(n);
        }
        self.item_of(kind, w, d)
    }
    fn deep_mod(&mut self, n: u32) -> MItem {
        let mut cur = self.item_of(0, Where::Mod, 0);
        for _ in 0..n {
            let mut t = Vec::new();
            let inner = if self.chance(4) { self.attrs(true) } else { vec![] };
            emit_all(&inner, &mut t);
            let mut members = vec![];
            members.push(cur);
            emit_all(&members, &mut t);
            let k = MK::Mod {
                uns: None,
                kw: id("mod"),
                name: self.name(),
                semi: None,
                group: Some(grp(D::Brace, t)),
                inner,
                members,
            };
            cur = MItem { attrs: vec![], vis: self.vis(), k };
        }
        cur
    }
    /// one complete declaration, numbered and spaced
    pub fn decl(&mut self) -> (MItem, Ts) {
        self.knobs();
        let d = self.below(4);
        let it = self.item(Where::Top, d);
        let toks = it.toks();
        let m = self.space_mode();
        let mut n = 1;
        finalize(&toks, m, &mut n);
        (it, toks)
    }
}
