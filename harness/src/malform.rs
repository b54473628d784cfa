//! Token streams that are not (necessarily) declarations.
use crate::choice::*;
use crate::cmp::ev;
use crate::gen::{keyword, Ty, Where};
use crate::model::*;
use crate::run::*;
use crate::tok::*;
use std::rc::Rc;

const KW: [&str; 34] = [
    "struct", "enum", "union", "mod", "trait", "impl", "type", "fn", "const", "static", "use", "macro_rules", "extern",
    "crate", "unsafe", "async", "default", "pub", "where", "for", "mut", "self", "dyn", "as", "in", "_", "super", "Self",
    "ref", "auto", "foo", "T", "A", "x",
];

fn any_tok(g: &mut G) -> R {
    match g.below(10) {
        0..=3 => id(*g.pick(&KW)),
        4..=6 => p(*g.pick(&[',', ';', ':', '=', '<', '>', '#', '!', '&', '-', '+', '*', '?', '\'', '.', '$', '|'])),
        7 => g.lit(),
        _ => {
            let d = *g.pick(&[D::Paren, D::Brace, D::Bracket, D::None]);
            let s = g.soup(1, 4);
            grp(d, s)
        }
    }
}

/// one random edit somewhere in the tree
pub fn edit(g: &mut G, ts: &[R]) -> Ts {
    let mut v: Ts = ts.to_vec();
    let n = v.len() as u32;
    if n == 0 {
        v.push(any_tok(g));
        return v;
    }
    let i = g.below(n) as usize;
    if let K::G(d, inner) = &v[i].k {
        if g.chance(44) {
            let t = edit(g, inner);
            v[i] = grp(*d, t);
            return v;
        }
    }
    match g.below(11) {
        0 | 1 => {
            v.remove(i);
        }
        2 => {
            let x = fresh(&v[i]);
            v.insert(i, x);
        }
        3 => {
            let t = any_tok(g);
            v.insert(i, t);
        }
        4 => v[i] = any_tok(g),
        5 => {
            let j = g.below(n) as usize;
            v.swap(i, j);
        }
        6 => {
            let j = (i + 1 + g.below(4) as usize).min(v.len());
            let d = *g.pick(&[D::Paren, D::Brace, D::Bracket, D::None]);
            let t: Ts = v.drain(i..j).collect();
            v.insert(i, grp(d, t));
        }
        7 => {
            if let K::G(_, inner) = &v[i].k {
                let t = inner.clone();
                v.splice(i..i + 1, t);
            } else {
                v.truncate(i);
            }
        }
        8 => {
            if let K::G(_, inner) = &v[i].k {
                let d = *g.pick(&[D::Paren, D::Brace, D::Bracket, D::None]);
                v[i] = grp(d, inner.clone());
            } else {
                let x = v.remove(i);
                let j = g.below(v.len() as u32 + 1) as usize;
                v.insert(j, x);
            }
        }
        9 => {
            if let K::P(c) = &v[i].k {
                let s = *g.pick(&[Sp::Alone, Sp::Joint]);
                v[i] = node(K::P(*c), s);
            } else {
                v.insert(i, p(','));
            }
        }
        _ => {
            let j = (i + 1 + g.below(6) as usize).min(v.len());
            let t: Ts = v[i..j].iter().map(fresh).collect();
            let k = g.below(v.len() as u32 + 1) as usize;
            v.splice(k..k, t);
        }
    }
    v
}

/// a well-formed declaration with a few random edits
pub fn mutated(g: &mut G) -> Ts {
    let (_, t) = g.decl();
    let mut t: Ts = t.iter().map(fresh).collect();
    for _ in 0..1 + g.below(3) {
        t = edit(g, &t);
    }
    if g.chance(6) {
        let (_, u) = g.decl();
        t.extend(u.iter().map(fresh));
    }
    let m = g.space_mode();
    finalize(&t, m, &mut 1);
    t
}
/// tokens without any plan
pub fn wild(g: &mut G) -> Ts {
    g.knobs();
    let mut t = vec![];
    let n = 1 + g.below(14);
    for _ in 0..n {
        let x = if g.chance(50) { any_tok(g) } else { g.soup_tok(2) };
        t.push(x);
    }
    if g.chance(40) {
        let k = id(*g.pick(&KW[..18]));
        t.insert(0, k);
    }
    let m = g.space_mode();
    finalize(&t, m, &mut 1);
    t
}


// ---- C24 -------------------------------------------------------------------------------------
/// one defect: a token of the declaration is replaced
pub struct Defect {
    pub what: &'static str,
    at: R,
    by: Ts,
}
fn rewrite(ts: &[R], at: &R, by: &[R], hits: &mut u32) -> Ts {
    let mut o = vec![];
    for t in ts {
        if Rc::ptr_eq(t, at) {
            *hits += 1;
            o.extend(by.iter().map(fresh));
        } else if let K::G(d, i) = &t.k {
            o.push(node(K::G(*d, rewrite(i, at, by, hits)), t.sp.get()));
        } else {
            o.push(fresh(t));
        }
    }
    o
}
fn contextual(s: &str) -> bool {
    matches!(s, "union" | "default" | "auto" | "macro_rules" | "safe" | "raw") || keyword(s)
}
struct Col<'a> {
    v: Vec<Defect>,
    g: &'a mut G,
}
impl Col<'_> {
    fn put(&mut self, what: &'static str, at: &R, by: Ts) {
        self.v.push(Defect { what, at: at.clone(), by });
    }
    fn gone(&mut self, what: &'static str, at: &R) {
        self.put(what, at, vec![]);
    }
    fn before(&mut self, what: &'static str, at: &R, mut add: Ts) {
        add.push(at.clone());
        self.put(what, at, add);
    }
    fn after(&mut self, what: &'static str, at: &R, add: Ts) {
        let mut v = vec![at.clone()];
        v.extend(add);
        self.put(what, at, v);
    }
    fn delim(&mut self, what: &'static str, at: &R) {
        let d = at.delim().unwrap();
        let o = *self.g.pick(&[D::Paren, D::Brace, D::Bracket]);
        if o != d {
            self.put(what, at, vec![grp(o, at.inner().to_vec())]);
        }
    }
    fn not_semi(&mut self, what: &'static str, at: &R) {
        let c = *self.g.pick(&[',', '=', '>', '!', '&', '+', '.', '|', '#', '?', '@', '$', '*', '/', '^', '%', '~', ':']);
        self.put(what, at, vec![p(c)]);
    }
    /// another punctuation in its place (none that could continue or end a declaration)
    fn other(&mut self, what: &'static str, at: &R) {
        let c = *self.g.pick(&['=', '!', '&', '+', '.', '|', '#', '?', '@', '$', '*', '/', '^', '%', '~', '-']);
        if !at.is_p(c) {
            self.put(what, at, vec![p(c)]);
        }
    }
    fn vis(&mut self) -> Ts {
        match self.g.below(3) {
            0 => vec![id("pub")],
            1 => vec![id("pub"), grp(D::Paren, vec![id("crate")])],
            _ => vec![id("pub"), grp(D::Paren, vec![id("in"), id("a"), pj(':'), p(':'), id("b")])],
        }
    }
    fn inner_attr(&mut self) -> Ts {
        vec![p('#'), p('!'), grp(D::Bracket, vec![self.g.name()])]
    }
    fn attr_list(&mut self, a: &[MAttr], ty_next: bool, first_member: bool) {
        for x in a {
            if x.bang.is_none() {
                // in front of a type the brackets would be taken for a part of it
                if !ty_next {
                    self.gone("attribute without `#`", &x.hash);
                }
                self.after("attribute with a doubled `#`", &x.hash, vec![p('#')]);
                if !ty_next {
                    self.other("attribute with another punctuation for its `#`", &x.hash);
                }
                if !first_member {
                    self.after("inner attribute where an outer one belongs", &x.hash, vec![p('!')]);
                }
            } else {
                let b = x.bang.as_ref().unwrap();
                self.after("inner attribute with a doubled `!`", b, vec![p('!')]);
            }
            self.gone("attribute without its brackets", &x.group);
            self.delim("attribute in the wrong delimiters", &x.group);
        }
    }
    fn list<T: Emit>(&mut self, commas: &'static str, l: &MList<T>, missing: Option<&'static str>, ends: &dyn Fn(&T) -> bool) {
        let n = l.items.len();
        for (i, (x, c)) in l.items.iter().enumerate() {
            if let Some(c) = c {
                self.after(commas, c, vec![p(',')]);
                if i + 1 < n && missing.is_some() && ends(x) {
                    self.gone(missing.unwrap(), c);
                    let z = *self.g.pick(&[';', '|', '+', '.', '&']);
                    self.put("separator replaced by another punctuation", c, vec![p(z)]);
                }
            }
            if i == 0 {
                if let Some(f) = x.toks().first() {
                    self.before("list starting with a comma", f, vec![p(',')]);
                }
            }
        }
    }
    fn gen(&mut self, e: Option<&MGen>) {
        let Some(e) = e else { return };
        self.gone("generic list without `>`", &e.gt);
        self.gone("generic list without `<`", &e.lt);
        let c = *self.g.pick(&['^', '%', '~', '@', '?', '*', '/', '$']);
        self.put("generic list opened by another punctuation", &e.lt, vec![p(c)]);
        if e.params.items.last().map_or(false, |q| q.0.bound.is_none()) {
            self.put("generic list closed by another punctuation", &e.gt, vec![p(c)]);
        }
        self.list("doubled comma in a generic list", &e.params, None, &|_| true);
        for (q, _) in &e.params.items {
            if q.prefix.is_some() || q.bound.is_some() {
                self.gone("generic parameter without a name", &q.name);
            }
            if q.bound.is_none() {
                self.put("generic parameter that is a literal", &q.name, vec![lit("7")]);
                self.after("two generic parameters without a comma", &q.name, vec![id("Q")]);
            }
            if let Some(t) = q.prefix.as_ref() {
                self.after("doubled prefix of a generic parameter", t, vec![t.clone()]);
            }
        }
    }
    fn wher(&mut self, e: Option<&MWhere>, last: bool) {
        let Some(e) = e else { return };
        if let (Some((q, _)), true) = (e.preds.items.last(), last) {
            let t = q.toks();
            if t.iter().filter(|x| x.is_p(':')).count() == 1 {
                self.gone("predicate without a colon", &q.bound.colon);
            }
        }
    }
    fn named(&mut self, l: &MList<MNField>) {
        self.list("doubled comma between fields", l, None, &|_| true);
        for (q, _) in &l.items {
            self.attr_list(&q.attrs, false, false);
            self.gone("named field without a name", &q.name);
            if !q.ty.toks[0].is_p(':') {
                self.gone("named field without a colon", &q.colon);
            }
            self.other("named field with another punctuation for its colon", &q.colon);
            self.put("named field with a literal name", &q.name, vec![lit("1")]);
            self.after("named field with two names", &q.name, vec![id("zz")]);
            if let Some(v) = &q.vis {
                self.before("doubled visibility on a field", &v.t1, vec![id("pub")]);
            } else {
                {
                    let kw = *self.g.pick(&["mut", "fn", "let", "const"]);
                    self.before("field with a keyword before it", &q.name, vec![id(kw)]);
                }
            }
        }
    }
    fn fields(&mut self, f: &MFields) {
        match f {
            MFields::Unit => {}
            MFields::Tuple(_, l) => {
                self.list("doubled comma between fields", l, None, &|_| true);
                for (q, _) in &l.items {
                    self.attr_list(&q.attrs, true, false);
                }
            }
            MFields::Named(_, l) => self.named(l),
        }
    }
    fn item(&mut self, m: &MItem, w: Where, first: bool, last: bool) {
        let t = m.toks();
        self.attr_list(&m.attrs, false, first);
        let first = t[0].clone();
        if let Some(v) = &m.vis {
            self.before("doubled visibility", &v.t1, vec![id("pub")]);
            if let Some(r) = &v.t2 {
                self.after("doubled visibility restriction", r, vec![grp(D::Paren, vec![id("crate")])]);
            }
        }
        if let Some(n) = m.name() {
            // nothing that could be a name may follow
            let i = t.iter().position(|x| Rc::ptr_eq(x, n)).unwrap();
            let next_ident = matches!(t.get(i + 1).map(|x| &x.k), Some(K::Id(_)));
            if !matches!(m.k, MK::Macro { .. }) {
                if !next_ident {
                    self.gone("declaration without a name", n);
                }
                self.put("literal in place of the name", n, vec![lit("\"x\"")]);
                self.after("two names", n, vec![id("zz")]);
            }
            let _ = w;
        }
        if w == Where::Top {
            let g1 = *self.g.pick(&[D::Paren, D::Brace, D::Bracket]);
            self.before("a group in front of the declaration", &first, vec![grp(g1, vec![])]);
            self.before("a literal in front of the declaration", &first, vec![lit("1")]);
            let c = *self.g.pick(&[';', ',', ':', '=', '<', '>', '!', '&', '-', '+', '*', '?', '.', '|']);
            self.before("punctuation in front of the declaration", &first, vec![p(c)]);
            let a = self.inner_attr();
            self.before("inner attribute in front of the declaration", &first, a);
        }
        let head_kw = |m: &MItem| -> Option<R> {
            Some(match &m.k {
                MK::Struct { kw, .. } | MK::Enum { kw, .. } | MK::Union { kw, .. } | MK::Mod { kw, .. } | MK::Trait { kw, .. } | MK::Impl { kw, .. } | MK::Alias { kw, .. } | MK::Const { kw, .. } | MK::Use { kw, .. } => kw.clone(),
                MK::Fn(f) => f.kw.clone(),
                _ => return None,
            })
        };
        if let Some(kw) = head_kw(m) {
            let i = t.iter().position(|x| Rc::ptr_eq(x, &kw)).unwrap();
            let plain = match t.get(i + 1).map(|x| &x.k) {
                Some(K::Id(s)) => !contextual(s),
                Some(_) => true,
                None => false,
            };
            // `const NAME` is a constant and `extern` a block; a lone qualifier may start another item
            let quals = match &m.k {
                MK::Fn(f) => f.qual.const_.is_some() || f.qual.extern_.is_some(),
                _ => false,
            };
            if plain && !quals {
                self.gone("declaration without its keyword", &kw);
            }
            // an import tree or a self type is taken as it comes
            if !matches!(m.k, MK::Use { .. } | MK::Impl { .. }) {
                self.after("doubled keyword", &kw, vec![kw.clone()]);
            }
            let o = *self.g.pick(&["struct", "enum", "mod", "trait", "type", "fn"]);
            if !kw.is_id(o) && !matches!(m.k, MK::Use { .. } | MK::Impl { .. }) {
                self.before("two different keywords", &kw, vec![id(o)]);
            }
        }
        match &m.k {
            MK::Struct { gen, wh, fields, semi, kw, .. } => {
                self.gen(gen.as_ref());
                self.wher(wh.as_ref(), last);
                self.fields(fields);
                if let (MFields::Unit, Some(s)) = (fields, semi) {
                    if last {
                        self.gone("unit struct without `;`", s);
                    }
                    // (a where clause would take the other token as its own)
                    if wh.is_none() {
                        self.not_semi("unit struct with another token for its `;`", s);
                    }
                }
                if let MFields::Named(g, _) = fields {
                    if last && wh.is_none() {
                        self.put("struct with brackets", g, vec![grp(D::Bracket, g.inner().to_vec())]);
                    }
                    self.after("struct with two bodies", g, vec![grp(D::Brace, vec![])]);
                }
                {
                    let q = *self.g.pick(&["unsafe", "async", "const", "default"]);
                    self.before("qualifier on a struct", kw, vec![id(q)]);
                }
            }
            MK::Enum { gen, wh, group, variants, kw, .. } => {
                self.gen(gen.as_ref());
                self.wher(wh.as_ref(), last);
                if last {
                    self.delim("enum in the wrong delimiters", group);
                    self.gone("enum without a body", group);
                }
                self.put("enum with `;` for its body", group, vec![p(';')]);
                self.after("enum with two bodies", group, vec![grp(D::Brace, vec![])]);
                {
                    let q = *self.g.pick(&["unsafe", "async", "const", "default"]);
                    self.before("qualifier on an enum", kw, vec![id(q)]);
                }
                self.list("doubled comma between variants", variants, Some("variants without a comma between them"), &|_| true);
                for (q, _) in &variants.items {
                    self.attr_list(&q.attrs, false, false);
                    if q.toks().len() > 1 {
                        self.gone("variant without a name", &q.name);
                    }
                    self.put("literal in place of a variant's name", &q.name, vec![lit("1")]);
                    self.after("variant with two names", &q.name, vec![id("zz")]);
                    self.fields(&q.fields);
                    if let MFields::Tuple(g, _) | MFields::Named(g, _) = &q.fields {
                        self.put("variant in brackets", g, vec![grp(D::Bracket, g.inner().to_vec())]);
                        self.after("variant with two bodies", g, vec![grp(D::Paren, vec![])]);
                    }
                    if let Some((e, v)) = &q.value {
                        if !matches!(v[0].delim(), Some(D::Paren | D::Brace)) {
                            self.gone("discriminant without `=`", e);
                        }
                        self.other("discriminant with another punctuation for its `=`", e);
                        if v.len() == 1 {
                            self.gone("discriminant without a value", &v[0]);
                        }
                    }
                }
            }
            MK::Union { gen, wh, group, fields, kw, .. } => {
                self.gen(gen.as_ref());
                self.wher(wh.as_ref(), last);
                if last {
                    self.delim("union in the wrong delimiters", group);
                    self.gone("union without a body", group);
                }
                self.put("union with `;` for its body", group, vec![p(';')]);
                self.after("union with two bodies", group, vec![grp(D::Brace, vec![])]);
                {
                    let q = *self.g.pick(&["unsafe", "async", "const", "default"]);
                    self.before("qualifier on a union", kw, vec![id(q)]);
                }
                self.named(fields);
            }
            MK::Mod { kw, semi, group, inner, members, uns, .. } => {
                if uns.is_none() {
                    {
                    let q = *self.g.pick(&["async", "const", "default", "extern"]);
                    self.before("qualifier on a module", kw, vec![id(q)]);
                }
                }
                if let (Some(s), true) = (semi, last) {
                    self.gone("module without a body", s);
                }
                if let Some(s) = semi {
                    self.not_semi("module with another token for its `;`", s);
                }
                if let Some(g) = group {
                    if last {
                        self.delim("module in the wrong delimiters", g);
                        self.gone("module without a body", g);
                    }
                    self.after("module with two bodies", g, vec![grp(D::Brace, vec![])]);
                    self.block(g, inner, members, Where::Mod);
                }
            }
            MK::Trait { kw, gen, bound, wh, group, inner, members, uns, .. } => {
                if uns.is_none() {
                    {
                    let q = *self.g.pick(&["async", "default", "extern"]);
                    self.before("qualifier on a trait", kw, vec![id(q)]);
                }
                }
                self.gen(gen.as_ref());
                self.wher(wh.as_ref(), last);
                let _ = bound;
                if last {
                    self.delim("trait in the wrong delimiters", group);
                    self.gone("trait without a body", group);
                }
                self.after("trait with two bodies", group, vec![grp(D::Brace, vec![])]);
                self.block(group, inner, members, Where::Trait);
            }
            MK::Impl { kw, gen, trait_, self_ty, wh, group, inner, members, uns } => {
                if uns.is_none() {
                    {
                    // (`const impl ::A ..` might be a constant named `impl`)
                    let q = *self.g.pick(&["async", "extern"]);
                    self.before("qualifier on an impl", kw, vec![id(q)]);
                }
                }
                let v = self.vis();
                self.before("visibility on an impl", uns.as_ref().unwrap_or(kw), v);
                self.gen(gen.as_ref());
                self.wher(wh.as_ref(), last);
                let _ = (trait_, self_ty);
                if last {
                    self.gone("impl without a body", group);
                }
                self.after("impl with two bodies", group, vec![grp(D::Brace, vec![])]);
                self.block(group, inner, members, Where::Impl);
            }
            MK::Alias { name, val, semi, bound, .. } => {
                if last {
                    self.gone("type alias without `;`", semi);
                }
                if let (Some((e, t)), None) = (val, bound) {
                    if !t.toks[0].is_p(':') {
                        self.gone("type alias without `=`", e);
                    }
                }
                let _ = name;
            }
            MK::Fn(f) => {
                self.gen(f.gen.as_ref());
                self.wher(f.wh.as_ref(), last);
                self.gone("function without a parameter list", &f.parens);
                self.delim("parameter list in the wrong delimiters", &f.parens);
                self.after("function with two parameter lists", &f.parens, vec![grp(D::Paren, vec![])]);
                if let Some(b) = &f.body {
                    if last {
                        self.gone("function without a body", b);
                        if f.ret.is_none() && f.wh.is_none() {
                            self.delim("function body in the wrong delimiters", b);
                        }
                    }
                    self.after("function with two bodies", b, vec![grp(D::Brace, vec![])]);
                }
                if let (Some(s), true) = (&f.semi, last) {
                    self.gone("function without a body", s);
                }
                if let (Some(s), None, None) = (&f.semi, &f.ret, &f.wh) {
                    self.not_semi("function with another token for its `;`", s);
                }
                if let Some((a, _)) = &f.ret {
                    self.gone("return arrow without `-`", &a[0]);
                    self.gone("return arrow without `>`", &a[1]);
                    self.other("return arrow with another punctuation for its `-`", &a[0]);
                    self.other("return arrow with another punctuation for its `>`", &a[1]);
                }
                for q in [&f.qual.default_, &f.qual.const_, &f.qual.async_, &f.qual.unsafe_, &f.qual.extern_].into_iter().flatten() {
                    self.after("doubled qualifier", q, vec![q.clone()]);
                }
                self.list("doubled comma between parameters", &f.params, Some("parameters without a comma between them"), &|q| matches!(q, MParam::Recv { .. }));
                for (q, _) in &f.params.items {
                    match q {
                        MParam::Recv { attrs, self_, amp, .. } => {
                            self.attr_list(attrs, false, false);
                            if amp.is_some() {
                                self.gone("receiver without `self`", self_);
                            }
                        }
                        MParam::Typed { attrs, name, colon, mut_, ty } => {
                            self.attr_list(attrs, false, false);
                            self.gone("parameter without a name", name);
                            if !ty.toks[0].is_p(':') {
                                self.gone("parameter without a colon", colon);
                            }
                            self.other("parameter with another punctuation for its colon", colon);
                            if let Some(x) = mut_ {
                                self.after("doubled mut", x, vec![id("mut")]);
                            } else {
                                self.before("visibility on a parameter", name, vec![id("pub")]);
                            }
                        }
                    }
                }
            }
            MK::Const { kw, mut_, name, colon, val, semi, ty } => {
                if !ty.toks[0].is_p(':') {
                    self.gone("constant without a colon", colon);
                }
                if last {
                    self.gone("constant without `;`", semi);
                }
                self.other("constant with another punctuation for its colon", colon);
                let _ = (val, name);
                if kw.is_id("const") {
                    self.after("`const mut`", kw, vec![id("mut")]);
                }
                if let Some(x) = mut_ {
                    self.after("doubled mut", x, vec![id("mut")]);
                }
            }
            MK::Use { semi, .. } => {
                if last {
                    self.gone("use without `;`", semi)
                }
            }
            MK::Macro { name, bang, group, semi, decl } => {
                self.gone("macro without `!`", bang);
                self.other("macro with another punctuation for its `!`", bang);
                // (what follows might supply one)
                if last || semi.is_some() {
                    self.gone("macro without its group", group);
                }
                if decl.is_none() {
                    self.gone("macro without a name", name);
                    let v = self.vis();
                    self.before("visibility on a macro", name, v);
                }
                if let Some(s) = semi {
                    self.gone("macro without `;`", s);
                    self.not_semi("macro with another token for its `;`", s);
                }
            }
            MK::ExternBlock { kw, group, inner, members, uns, .. } => {
                self.gone("extern block without `extern`", kw);
                if last {
                    self.gone("extern block without a body", group);
                    self.delim("extern block in the wrong delimiters", group);
                }
                if uns.is_none() {
                    {
                    let q = *self.g.pick(&["async", "const", "default"]);
                    self.before("qualifier on an extern block", kw, vec![id(q)]);
                }
                }
                self.block(group, inner, members, Where::Extern);
            }
            MK::ExternCrate { kw, crate_, as_, semi, .. } => {
                self.gone("extern crate without `extern`", kw);
                self.gone("extern crate without `crate`", crate_);
                self.gone("extern crate without `;`", semi);
                self.not_semi("extern crate with another token for its `;`", semi);
                if let Some((a, b)) = as_ {
                    self.gone("extern crate without `as`", a);
                    self.gone("extern crate without the new name", b);
                }
            }
        }
    }
    fn block(&mut self, group: &R, inner: &[MAttr], members: &[MItem], w: Where) {
        self.attr_list(inner, false, false);
        let add = |c: &mut Col, what: &'static str, x: Ts, front: bool| {
            let mut t = group.inner().to_vec();
            if front && inner.is_empty() {
                let mut y = x;
                y.extend(t);
                t = y;
            } else {
                t.extend(x);
            }
            c.put(what, group, vec![grp(D::Brace, t)]);
        };
        let front = self.g.chance(32);
        if w != Where::Mod {
            let k = *self.g.pick(&[0usize, 1, 3, 4, 9, 11, 12]);
            let b = self.g.item_of(k, Where::Top, 0).toks();
            add(self, "a member that cannot occur in the block", b, front);
            if w != Where::Extern {
                let mut b = vec![];
                self.g.vis().map(|v| v.emit(&mut b));
                b.push(id("static"));
                if self.g.chance(32) {
                    b.push(id("mut"));
                }
                b.extend([self.g.name(), p(':')]);
                b.extend(self.g.ty_top(Ty::default()).toks);
                if self.g.chance(32) {
                    b.push(p('='));
                    b.extend(self.g.expr(1));
                }
                b.push(p(';'));
                add(self, "a static among the members", b, front);
            }
        }
        add(self, "a literal among the members", vec![lit("5")], front);
        let c = *self.g.pick(&[',', ':', '=', '<', '>', '&', '-', '+', '*', '?', '.', '|']);
        add(self, "punctuation among the members", vec![p(c)], front);
        add(self, "a name alone among the members", vec![id("stray")], front);
        add(self, "an attribute without a member", vec![p('#'), grp(D::Bracket, vec![id("a")])], false);
        add(self, "a visibility without a member", vec![id("pub")], false);
        add(self, "a stray semicolon among the members", vec![p(';')], front);
        add(self, "a block among the members", vec![grp(D::Brace, vec![])], front);
        if !members.is_empty() {
            let a = self.inner_attr();
            add(self, "an inner attribute after a member", a, false);
        }
        if let Some(m) = members.last() {
            let k = m.toks().len() as u32;
            if k > 1 && !matches!(m.k, MK::Struct { .. }) {
                let cut = 1 + self.g.below(k - 1) as usize;
                let t = group.inner();
                self.put("the last member cut off", group, vec![grp(D::Brace, t[..t.len() - cut].to_vec())]);
            }
        }
        let n = members.len();
        for (i, m) in members.iter().enumerate() {
            self.item(m, w, i == 0, i + 1 == n);
        }
    }
}
pub fn c24(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    g.knobs();
    // defects show best in moderate declarations
    if g.chance(48) {
        g.big = None;
        g.deep = None;
    }
    let d = g.below(3);
    let m = g.item(Where::Top, d);
    let base = m.toks();
    let (what, t) = if g.chance(8) {
        // cut off
        match &m.k {
            MK::Struct { .. } => ("", vec![]),
            _ => {
                let mut n = base.len() as u32;
                // `m!{};` and the like do not occur here; every proper prefix lacks the end of the declaration
                if n > 1 {
                    n = 1 + g.below(n - 1);
                }
                ("a declaration cut off", base[..n as usize].iter().map(fresh).collect())
            }
        }
    } else {
        let mut c = Col { v: vec![], g };
        c.item(&m, Where::Top, false, true);
        let v = c.v;
        // any one, or any one of a kind of defect
        let i = if g.chance(32) {
            g.below(v.len() as u32) as usize
        } else {
            let mut kinds: Vec<&str> = v.iter().map(|x| x.what).collect();
            kinds.sort();
            kinds.dedup();
            let k = *g.pick(&kinds);
            let of: Vec<usize> = (0..v.len()).filter(|i| v[*i].what == k).collect();
            *g.pick(&of)
        };
        let x = &v[i];
        let mut hits = 0;
        let t = rewrite(&base, &x.at, &x.by, &mut hits);
        assert!(hits == 1, "defect `{}` was applied {hits} times", x.what);
        (x.what, t)
    };
    if what.is_empty() {
        return Ok(());
    }
    let mode = g.space_mode();
    finalize(&t, mode, &mut 1);
    cx.start(&t);
    ev(what);
    cx.note = format!("[{what}]");
    match parse(to_ts(&t)) {
        P::Item(_) => return Err(format!("accepted in spite of this defect: {what}")),
        _ => {}
    }
    // with two bodies, the first one completes an item; so may a `{}` in a generic list that is not read as one
    // (`impl T: Fn() -> m!{} > S {}`)
    let early = ["with two bodies", "generic", "predicate", "list", "separator"];
    if !early.iter().any(|e| what.contains(e)) {
        let mut it = to_ts(&t).into_iter().peekable();
        if let Ok(Ok(_)) = guarded(|| venial::consume_item(&mut it)) {
            return Err(format!("consume_item yields an item in spite of this defect: {what}"));
        }
    }
    Ok(())
}
