//! Compares what the library reports with what was declared.
use crate::model::*;
use crate::tok::*;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::cell::RefCell;
use std::collections::BTreeMap;
use venial as v;

pub const KIND: u32 = 1;
pub const FIELDS: u32 = 2;
pub const DISC: u32 = 4;
pub const FN: u32 = 8;
pub const GEN: u32 = 16;
pub const BODY: u32 = 32;
pub const ATTR: u32 = 64;
pub const VIS: u32 = 128;
pub const MISC: u32 = 256;
pub const PATH: u32 = 512;
pub const SPAN: u32 = 1024;
pub const QUOTE: u32 = 2048;
pub const QUERY: u32 = 4096;
pub const ACCESS: u32 = 8192;
pub const NAME: u32 = 1 << 14;
/// everything about what was declared, locations and queries excluded
pub const STRUCT: u32 = KIND | FIELDS | DISC | FN | GEN | BODY | ATTR | VIS | MISC | NAME;

thread_local! {
    static EVENTS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
}
/// counts something a monitor actually looked at
pub fn ev(k: &'static str) {
    EVENTS.with(|e| *e.borrow_mut().entry(k).or_insert(0) += 1)
}
pub fn evn(k: &'static str, n: u64) {
    EVENTS.with(|e| *e.borrow_mut().entry(k).or_insert(0) += n)
}
pub fn events() -> BTreeMap<&'static str, u64> {
    EVENTS.with(|e| e.borrow().clone())
}

pub struct Fail {
    pub tag: u32,
    pub msg: String,
}

pub struct Cmp {
    pub want: u32,
    pub fails: Vec<Fail>,
    at: Vec<String>,
}

const TXT: Chk = Chk { spacing: true, span: false };
const LOC: Chk = Chk { spacing: true, span: true };

impl Cmp {
    pub fn new(want: u32) -> Cmp {
        Cmp { want, fails: vec![], at: vec![] }
    }
    pub fn fail(&mut self, tag: u32, msg: String) {
        if self.want & tag != 0 && self.fails.len() < 8 {
            let mut m = self.at.join(".");
            m.push_str(": ");
            m.push_str(&msg);
            self.fails.push(Fail { tag, msg: m });
        }
    }
    fn within(&mut self, s: impl Into<String>, f: impl FnOnce(&mut Cmp)) {
        self.at.push(s.into());
        f(self);
        self.at.pop();
    }
    pub fn tt(&mut self, tag: u32, what: &str, e: &R, a: &TokenTree) {
        if let Err(m) = eq_tt(e, a, TXT) {
            self.fail(tag, format!("{what}: {m}"));
        } else if self.want & SPAN != 0 {
            if let Err(m) = eq_tt(e, a, LOC) {
                self.fail(SPAN, format!("{what}: {m}"));
            }
        }
    }
    pub fn id(&mut self, tag: u32, what: &str, e: &R, a: &Ident) {
        let ok = matches!(&e.k, K::Id(s) if a == &**s);
        if !ok {
            self.fail(tag, format!("{what}: expected `{}`, found `{a}`", show(std::slice::from_ref(e))));
        } else if self.want & SPAN != 0 {
            ev("span.ident");
            if let Err(m) = eq_span(e, a.span()) {
                self.fail(SPAN, format!("{what}: {m}"));
            }
        }
    }
    pub fn pu(&mut self, tag: u32, what: &str, e: &R, a: &Punct) {
        let ok = matches!(&e.k, K::P(c) if a.as_char() == *c) && (a.spacing() == Spacing::Joint) == e.joint.get();
        if !ok {
            self.fail(
                tag,
                format!("{what}: expected `{}` joint={}, found {:?}", show(std::slice::from_ref(e)), e.joint.get(), a),
            );
        } else if self.want & SPAN != 0 {
            ev("span.punct");
            if let Err(m) = eq_span(e, a.span()) {
                self.fail(SPAN, format!("{what}: {m}"));
            }
        }
    }
    fn presence<A, B>(&mut self, tag: u32, what: &str, e: Option<A>, a: Option<B>) -> Option<(A, B)> {
        match (e, a) {
            (None, None) => None,
            (Some(x), Some(y)) => Some((x, y)),
            (Some(_), None) => {
                self.fail(tag, format!("{what}: declared, but reported absent"));
                None
            }
            (None, Some(_)) => {
                self.fail(tag, format!("{what}: reported, but not declared"));
                None
            }
        }
    }
    pub fn oid(&mut self, tag: u32, what: &str, e: Option<&R>, a: Option<&Ident>) {
        if let Some((x, y)) = self.presence(tag, what, e, a) {
            self.id(tag, what, x, y)
        }
    }
    pub fn opu(&mut self, tag: u32, what: &str, e: Option<&R>, a: Option<&Punct>) {
        if let Some((x, y)) = self.presence(tag, what, e, a) {
            self.pu(tag, what, x, y)
        }
    }
    pub fn pu2(&mut self, tag: u32, what: &str, e: &[R; 2], a: &[Punct; 2]) {
        self.pu(tag, what, &e[0], &a[0]);
        self.pu(tag, what, &e[1], &a[1]);
    }
    pub fn olit(&mut self, tag: u32, what: &str, e: Option<&R>, a: Option<&Literal>) {
        if let Some((x, y)) = self.presence(tag, what, e, a) {
            self.tt(tag, what, x, &TokenTree::Literal(y.clone()))
        }
    }
    pub fn toks(&mut self, tag: u32, what: &str, e: &[R], a: &[TokenTree]) {
        if let Err(m) = eq_it(e, a.iter().cloned(), TXT) {
            self.fail(tag, format!("{what}: {m}"));
        } else if self.want & SPAN != 0 {
            evn("span.tokens", e.len() as u64);
            if let Err(m) = eq_it(e, a.iter().cloned(), LOC) {
                self.fail(SPAN, format!("{what}: {m}"));
            }
        }
    }
    pub fn group(&mut self, tag: u32, what: &str, e: &R, a: &v::GroupSpan) {
        if e.delim().map(D::pm) != Some(a.delimiter) {
            self.fail(tag, format!("{what}: delimiter {:?}, found {:?}", e.delim(), a.delimiter));
        } else if self.want & SPAN != 0 {
            ev("span.group");
            if let Err(m) = eq_span(e, a.span) {
                self.fail(SPAN, format!("{what}: {m}"));
            }
        }
    }
    /// quoting a part gives that part's tokens
    pub fn quoted(&mut self, what: &str, e: &dyn EmitDyn, a: &dyn ToTokensDyn) {
        if self.want & QUOTE == 0 {
            return;
        }
        ev("quote.part");
        let t = e.toks_dyn();
        if let Err(m) = eq_it(&t, a.ts().into_iter(), TXT) {
            self.fail(QUOTE, format!("quoting {what}: {m}"));
        }
    }
    pub fn spanof(&mut self, what: &str, e: &dyn EmitDyn, s: impl FnOnce() -> Span) {
        if self.want & SPAN == 0 {
            return;
        }
        let t = e.toks_dyn();
        let (Some(f), Some(l)) = (t.first(), t.last()) else {
            let _ = s();
            return;
        };
        ev("span.method");
        let x = (lo_hi(f).0, lo_hi(l).1);
        let r = range_of(s());
        // inside a stable compiler spans cannot be joined: the first token stands for the element
        if r != x && (COMPILER.get().is_none() || r != lo_hi(f)) {
            self.fail(SPAN, format!("span() of {what} is {}..{}, its tokens lie at {}..{}", r.0, r.1, x.0, x.1));
        }
    }

    // ------------------------------------------------------------------------------------------
    pub fn attrs(&mut self, e: &[MAttr], a: &[v::Attribute]) {
        if e.len() != a.len() {
            self.fail(ATTR, format!("{} attributes declared, {} reported", e.len(), a.len()));
            return;
        }
        for (i, (x, y)) in e.iter().zip(a).enumerate() {
            self.within(format!("attribute[{i}]"), |c| c.attr(x, y));
        }
    }
    fn attr(&mut self, e: &MAttr, a: &v::Attribute) {
        ev("attribute");
        self.pu(ATTR, "#", &e.hash, &a.tk_hash);
        self.opu(ATTR, "!", e.bang.as_ref(), a.tk_bang.as_ref());
        self.group(ATTR, "brackets", &e.group, &a.tk_brackets);
        self.toks(ATTR, "path", &e.path, &a.path);
        let mut val: &[R] = &[];
        match (&e.val, &a.value) {
            (MVal::Empty, v::AttributeValue::Empty) => {}
            (MVal::Group(g), v::AttributeValue::Group(gs, t)) => {
                self.group(ATTR, "value group", g, gs);
                self.toks(ATTR, "value", g.inner(), t);
                val = g.inner();
            }
            (MVal::Eq(x, t), v::AttributeValue::Equals(y, u)) => {
                self.pu(ATTR, "=", x, y);
                self.toks(ATTR, "value", t, u);
                val = t;
            }
            (_, other) => self.fail(ATTR, format!("value has the wrong form: {other:?}")),
        }
        self.toks(ATTR, "get_value_tokens", val, a.get_value_tokens());
        self.toks(ATTR, "value.get_value_tokens", val, a.value.get_value_tokens());
        let seg = a.get_single_path_segment();
        if e.segs == 1 {
            let x = e.path.last();
            self.oid(ATTR, "get_single_path_segment", x, seg);
        } else if let Some(s) = seg {
            self.fail(ATTR, format!("get_single_path_segment gave `{s}` for a path of {} segments", e.segs));
        }
        self.quoted("attribute", e, a);
        self.spanof("attribute", e, || a.span());
        match &e.val {
            MVal::Empty => {}
            MVal::Group(g) => {
                self.quoted("attribute value", g, &a.value);
                self.spanof("attribute value", g, || a.value.span());
            }
            MVal::Eq(x, t) => {
                let mut all = vec![x.clone()];
                t.emit(&mut all);
                self.quoted("attribute value", &all, &a.value);
                self.spanof("attribute value", &all, || a.value.span());
            }
        }
    }
    pub fn vis(&mut self, e: Option<&MVis>, a: Option<&v::VisMarker>) {
        if let Some((x, y)) = self.presence(VIS, "visibility", e, a) {
            ev("visibility");
            self.tt(VIS, "visibility", &x.t1, &y.tk_token1);
            if let Some((p, q)) = self.presence(VIS, "visibility restriction", x.t2.as_ref(), y.tk_token2.as_ref()) {
                self.tt(VIS, "visibility restriction", p, q);
            }
            self.quoted("visibility", x, y);
            self.spanof("visibility", x, || y.span());
        }
    }
    pub fn list<M: Emit, V: ToTokens>(
        &mut self,
        tag: u32,
        what: &str,
        e: &MList<M>,
        a: &v::Punctuated<V>,
        mut f: impl FnMut(&mut Cmp, &M, &V),
    ) {
        evn("list.elements", e.items.len() as u64);
        if e.items.len() != a.len() || a.inner.len() != e.items.len() {
            self.fail(tag, format!("{} {what} declared, {} reported", e.items.len(), a.len()));
            return;
        }
        if a.items().count() != e.items.len() || a.is_empty() != e.items.is_empty() {
            self.fail(tag, format!("{what}: items()/is_empty() disagree with the list"));
        }
        let commas: Vec<&R> = e.items.iter().filter_map(|x| x.1.as_ref()).collect();
        let got: Vec<&Punct> = a.punct().collect();
        if commas.len() != got.len() {
            self.fail(tag, format!("{} commas between {what}, {} reported", commas.len(), got.len()));
        } else {
            for (x, y) in commas.iter().zip(&got) {
                self.pu(tag, "comma", x, y);
            }
        }
        for (i, ((x, _), (y, _))) in e.items.iter().zip(a.inner.iter()).enumerate() {
            self.within(format!("{what}[{i}]"), |c| f(c, x, y));
        }
        self.quoted(what, e, a);
    }
    pub fn bound(&mut self, e: Option<&MBound>, a: Option<&v::GenericBound>) {
        if let Some((x, y)) = self.presence(GEN, "bound", e, a) {
            ev("bound");
            self.pu(GEN, "bound colon", &x.colon, &y.tk_colon);
            self.toks(GEN, "bound", &x.toks, &y.tokens);
            self.quoted("bound", x, y);
            self.spanof("bound", x, || y.span());
        }
    }
    pub fn gen(&mut self, e: Option<&MGen>, a: Option<&v::GenericParamList>) {
        if let Some((x, y)) = self.presence(GEN, "generic parameters", e, a) {
            ev("generics");
            self.pu(GEN, "<", &x.lt, &y.tk_l_bracket);
            self.pu(GEN, ">", &x.gt, &y.tk_r_bracket);
            self.list(GEN, "generic params", &x.params, &y.params, |c, m, p| {
                ev("generic.param");
                if let Some((r, t)) = c.presence(GEN, "parameter prefix", m.prefix.as_ref(), p.tk_prefix.as_ref()) {
                    c.tt(GEN, "parameter prefix", r, t);
                }
                c.id(GEN, "parameter name", &m.name, &p.name);
                c.bound(m.bound.as_ref(), p.bound.as_ref());
                let k = (
                    m.prefix.as_ref().is_some_and(|r| r.is_p('\'')),
                    m.prefix.is_none(),
                    m.prefix.as_ref().is_some_and(|r| r.is_id("const")),
                );
                let g = (p.is_lifetime(), p.is_ty(), p.is_const());
                if k != g {
                    c.fail(QUERY | GEN, format!("is_lifetime/is_ty/is_const = {g:?}, declared {k:?}"));
                }
                c.quoted("generic param", m, p);
                c.spanof("generic param", m, || p.span());
            });
            self.quoted("generic params", x, y);
            self.spanof("generic params", x, || y.span());
        }
    }
    pub fn wher(&mut self, e: Option<&MWhere>, a: Option<&v::WhereClause>) {
        if let Some((x, y)) = self.presence(GEN, "where clause", e, a) {
            ev("where");
            self.id(GEN, "where", &x.kw, &y.tk_where);
            self.list(GEN, "predicates", &x.preds, &y.items, |c, m, p| {
                ev("where.predicate");
                c.toks(GEN, "left side", &m.left, &p.left_side);
                c.bound(Some(&m.bound), Some(&p.bound));
                c.quoted("predicate", m, p);
                c.spanof("predicate", m, || p.span());
            });
            self.quoted("where clause", x, y);
            self.spanof("where clause", x, || y.span());
        }
    }
    pub fn ty(&mut self, tag: u32, what: &str, e: &MTy, a: &v::TypeExpr) {
        ev("type");
        self.toks(tag, what, &e.toks, &a.tokens);
        self.quoted(what, e, a);
        self.spanof(what, e, || a.span());
        if self.want & PATH != 0 {
            self.path(e, a);
        }
    }
    pub fn path(&mut self, e: &MTy, a: &v::TypeExpr) {
        let before = a.tokens.len();
        let got = a.as_path();
        if a.tokens.len() != before {
            self.fail(PATH, "as_path changed the type".into());
        }
        match (&e.path, got) {
            (PathExp::Any, None) => ev("path.unspecified"),
            (PathExp::Any, Some(p)) => {
                // whether it counts as a path is open, but its tokens are not
                ev("path.unspecified_but_some");
                let mut t = e.toks.clone();
                let q = p.to_token_stream();
                while eq_it(&t, q.clone().into_iter(), TXT).is_err() {
                    match &t[..] {
                        [x] if x.delim() == Some(D::None) => t = x.inner().to_vec(),
                        _ => {
                            self.fail(PATH, format!("`{}` reported as the path `{}`", clip(&show(&e.toks)), p.to_token_stream()));
                            return;
                        }
                    }
                }
            }
            (PathExp::NotPath, None) => ev("path.none"),
            (PathExp::NotPath, Some(p)) => {
                self.fail(PATH, format!("`{}` reported as the path `{}`", clip(&show(&e.toks)), p.to_token_stream()))
            }
            (PathExp::Path(_), None) => self.fail(PATH, format!("path `{}` not recognised", clip(&show(&e.toks)))),
            (PathExp::Path(segs), Some(p)) => {
                ev("path.some");
                if segs.len() != p.segments.len() {
                    self.fail(PATH, format!("{} segments, {} reported", segs.len(), p.segments.len()));
                    return;
                }
                let mut all = Vec::new();
                emit_all(segs, &mut all);
                if let Err(m) = eq_it(&all, p.to_token_stream().into_iter(), TXT) {
                    self.fail(PATH, format!("quoting the path: {m}"));
                }
                for (i, (x, y)) in segs.iter().zip(&p.segments).enumerate() {
                    self.within(format!("segment[{i}]"), |c| c.seg(x, y));
                }
            }
        }
    }
    fn seg(&mut self, x: &MSeg, y: &v::PathSegment) {
        ev("path.segment");
        self.id(PATH, "segment", &x.ident, &y.ident);
        if let Some((p, q)) = self.presence(PATH, "separator", x.sep.as_ref(), y.tk_separator_colons.as_ref()) {
            self.pu2(PATH, "separator", p, q);
        }
        if let Err(m) = eq_it(&x.toks(), y.to_token_stream().into_iter(), TXT) {
            self.fail(PATH, format!("quoting the segment: {m}"));
        }
        if let Some((p, q)) = self.presence(PATH, "generic arguments", x.args.as_ref(), y.generic_args.as_ref()) {
            if let Some((c, d)) = self.presence(PATH, "turbofish", p.colons.as_ref(), q.tk_turbofish_colons.as_ref()) {
                self.pu2(PATH, "turbofish", c, d);
            }
            self.pu(PATH, "<", &p.lt, &q.tk_l_bracket);
            self.pu(PATH, ">", &p.gt, &q.tk_r_bracket);
            self.list(PATH, "generic args", &p.args, &q.args, |c, m, g| {
                ev("path.arg");
                match (m, g) {
                    (MArg::Lifetime(a, b), v::GenericArg::Lifetime { lifetime }) => {
                        c.pu(PATH, "'", a, &lifetime.tk_apostrophe);
                        c.id(PATH, "lifetime", b, &lifetime.name);
                    }
                    (MArg::Binding(i, e, t), v::GenericArg::Binding { ident, tk_equals, ty }) => {
                        c.id(PATH, "binding", i, ident);
                        c.pu(PATH, "=", e, tk_equals);
                        c.toks(PATH, "bound type", t, &ty.tokens);
                    }
                    (MArg::Ty(t), v::GenericArg::TypeOrConst { expr }) => c.toks(PATH, "argument", t, &expr.tokens),
                    (_, other) => c.fail(PATH, format!("argument `{}` classified as {other:?}", show(&m.toks()))),
                }
                if let Err(e) = eq_it(&m.toks(), g.to_token_stream().into_iter(), TXT) {
                    c.fail(PATH, format!("quoting the argument: {e}"));
                }
            });
        }
    }
    fn nfield(&mut self, m: &MNField, f: &v::NamedField) {
        ev("field.named");
        self.attrs(&m.attrs, &f.attributes);
        self.vis(m.vis.as_ref(), f.vis_marker.as_ref());
        self.id(FIELDS, "field name", &m.name, &f.name);
        self.pu(FIELDS, "field colon", &m.colon, &f.tk_colon);
        self.ty(FIELDS, "field type", &m.ty, &f.ty);
        self.quoted("field", m, f);
        self.spanof("field", m, || f.span());
    }
    fn tfield(&mut self, m: &MTField, f: &v::TupleField) {
        ev("field.tuple");
        self.attrs(&m.attrs, &f.attributes);
        self.vis(m.vis.as_ref(), f.vis_marker.as_ref());
        self.ty(FIELDS, "field type", &m.ty, &f.ty);
        self.quoted("field", m, f);
        self.spanof("field", m, || f.span());
    }
    pub fn fields(&mut self, e: &MFields, a: &v::Fields) {
        match (e, a) {
            (MFields::Unit, v::Fields::Unit) => ev("fields.unit"),
            (MFields::Tuple(g, l), v::Fields::Tuple(t)) => {
                ev("fields.tuple");
                self.group(FIELDS, "parens", g, &t.tk_parens);
                self.list(FIELDS, "tuple fields", l, &t.fields, |c, m, f| c.tfield(m, f));
                self.quoted("fields", e, t);
            }
            (MFields::Named(g, l), v::Fields::Named(t)) => {
                ev("fields.named");
                self.group(FIELDS, "braces", g, &t.tk_braces);
                self.list(FIELDS, "named fields", l, &t.fields, |c, m, f| c.nfield(m, f));
                self.quoted("fields", e, t);
            }
            (_, other) => {
                self.fail(FIELDS, format!("wrong shape of fields: {other:?}"));
                return;
            }
        }
        self.quoted("fields", e, a);
        self.spanof("fields", e, || a.span());
    }
    fn variant(&mut self, m: &MVariant, x: &v::EnumVariant) {
        ev("variant");
        self.attrs(&m.attrs, &x.attributes);
        self.vis(m.vis.as_ref(), x.vis_marker.as_ref());
        self.id(FIELDS, "variant name", &m.name, &x.name);
        self.fields(&m.fields, &x.fields);
        if let Some((p, q)) = self.presence(DISC, "discriminant", m.value.as_ref(), x.value.as_ref()) {
            ev("discriminant");
            self.pu(DISC, "=", &p.0, &q.tk_equal);
            if p.1.len() != 1 {
                self.fail(DISC, "a discriminant of several tokens was accepted".into());
            } else {
                self.tt(DISC, "discriminant", &p.1[0], &q.value);
            }
            let mut all = vec![p.0.clone()];
            p.1.emit(&mut all);
            self.quoted("discriminant", &all, q);
            self.spanof("discriminant", &all, || q.span());
        }
        self.quoted("variant", m, x);
        self.spanof("variant", m, || x.span());
        if self.want & QUERY != 0 {
            let unit = matches!(m.fields, MFields::Unit);
            if x.is_empty_variant() != unit {
                self.fail(QUERY, format!("is_empty_variant() is {} for `{}`", x.is_empty_variant(), clip(&show(&m.toks()))));
            }
            let single = match &m.fields {
                MFields::Tuple(_, l) if l.items.len() == 1 => Some(&l.items[0].0),
                _ => None,
            };
            ev("query.variant");
            match (single, x.get_single_type()) {
                (None, None) => {}
                (Some(s), Some(t)) => self.toks(QUERY, "get_single_type", &s.ty.toks, &t.ty.tokens),
                (s, t) => self.fail(
                    QUERY,
                    format!("get_single_type(): expected {}, got {}", s.is_some(), t.is_some()),
                ),
            }
        }
    }
    fn param(&mut self, m: &MParam, a: &v::FnParam) {
        match (m, a) {
            (MParam::Recv { attrs, amp, lt, mut_, self_ }, v::FnParam::Receiver(r)) => {
                ev("param.receiver");
                self.attrs(attrs, &r.attributes);
                self.opu(FN, "&", amp.as_ref(), r.tk_ref.as_ref());
                if let Some((x, y)) = self.presence(FN, "receiver lifetime", lt.as_ref(), r.lifetime.as_ref()) {
                    self.pu(FN, "'", &x[0], &y.tk_apostrophe);
                    self.id(FN, "lifetime", &x[1], &y.name);
                    self.quoted("lifetime", &vec![x[0].clone(), x[1].clone()], y);
                }
                self.oid(FN, "mut", mut_.as_ref(), r.tk_mut.as_ref());
                self.id(FN, "self", self_, &r.tk_self);
                self.quoted("receiver", m, r);
            }
            (MParam::Typed { attrs, mut_, name, colon, ty }, v::FnParam::Typed(t)) => {
                ev("param.typed");
                self.attrs(attrs, &t.attributes);
                self.oid(FN, "mut", mut_.as_ref(), t.tk_mut.as_ref());
                self.id(FN, "param name", name, &t.name);
                self.pu(FN, "param colon", colon, &t.tk_colon);
                self.ty(FN, "param type", ty, &t.ty);
                self.quoted("typed param", m, t);
            }
            (_, other) => self.fail(FN, format!("parameter `{}` reported as {other:?}", clip(&show(&m.toks())))),
        }
        self.quoted("param", m, a);
    }
    pub fn func(&mut self, it: &MItem, m: &MFn, f: &v::Function) {
        ev("fn");
        self.attrs(&it.attrs, &f.attributes);
        self.vis(it.vis.as_ref(), f.vis_marker.as_ref());
        let (q, r) = (&m.qual, &f.qualifiers);
        self.oid(FN, "default", q.default_.as_ref(), r.tk_default.as_ref());
        self.oid(FN, "const", q.const_.as_ref(), r.tk_const.as_ref());
        self.oid(FN, "async", q.async_.as_ref(), r.tk_async.as_ref());
        self.oid(FN, "unsafe", q.unsafe_.as_ref(), r.tk_unsafe.as_ref());
        self.oid(FN, "extern", q.extern_.as_ref(), r.tk_extern.as_ref());
        self.olit(FN, "abi", q.abi.as_ref(), r.extern_abi.as_ref());
        self.quoted("qualifiers", q, r);
        self.id(FN, "fn keyword", &m.kw, &f.tk_fn_keyword);
        self.id(FN | NAME, "fn name", &m.name, &f.name);
        self.gen(m.gen.as_ref(), f.generic_params.as_ref());
        self.group(FN, "parens", &m.parens, &f.tk_params_parens);
        self.list(FN, "params", &m.params, &f.params, |c, x, y| c.param(x, y));
        if let Some((x, y)) = self.presence(FN, "return arrow", m.ret.as_ref(), f.tk_return_arrow.as_ref()) {
            self.pu2(FN, "arrow", &x.0, y);
        }
        if let Some((x, y)) = self.presence(FN, "return type", m.ret.as_ref(), f.return_ty.as_ref()) {
            self.ty(FN, "return type", &x.1, y);
        }
        self.wher(m.wh.as_ref(), f.where_clause.as_ref());
        if let Some((x, y)) = self.presence(FN, "body", m.body.as_ref(), f.body.as_ref()) {
            self.tt(FN, "body", x, &TokenTree::Group(y.clone()));
        }
        self.opu(FN, "semicolon", m.semi.as_ref(), f.tk_semicolon.as_ref());
        self.quoted("fn", it, f);
        self.spanof("fn", it, || f.span());
    }
    fn constant(&mut self, it: &MItem, c: &v::Constant) {
        let MK::Const { kw, mut_, name, colon, ty, val, semi } = &it.k else { return };
        ev("const");
        self.attrs(&it.attrs, &c.attributes);
        self.vis(it.vis.as_ref(), c.vis_marker.as_ref());
        self.id(MISC, "keyword", kw, &c.tk_const_or_static);
        self.oid(MISC, "mut", mut_.as_ref(), c.tk_mut.as_ref());
        self.id(MISC | NAME, "name", name, &c.name);
        self.pu(MISC, "colon", colon, &c.tk_colon);
        self.ty(MISC, "type", ty, &c.ty);
        self.opu(MISC, "=", val.as_ref().map(|x| &x.0), c.tk_equals.as_ref());
        if let Some((x, y)) = self.presence(MISC, "initializer", val.as_ref(), c.initializer.as_ref()) {
            self.toks(MISC, "initializer", &x.1, &y.tokens);
            self.quoted("initializer", &x.1, y);
        }
        self.pu(MISC, "semicolon", semi, &c.tk_semicolon);
        if c.is_static() != kw.is_id("static") {
            self.fail(QUERY | MISC, format!("is_static() is {}", c.is_static()));
        }
        self.quoted("const", it, c);
    }
    fn alias(&mut self, it: &MItem, a: &v::TypeAlias) {
        let MK::Alias { kw, name, bound, val, semi } = &it.k else { return };
        ev("alias");
        self.attrs(&it.attrs, &a.attributes);
        self.vis(it.vis.as_ref(), a.vis_marker.as_ref());
        self.id(MISC, "type", kw, &a.tk_type);
        self.id(MISC | NAME, "name", name, &a.name);
        self.bound(bound.as_ref(), a.bound.as_ref());
        self.opu(MISC, "=", val.as_ref().map(|x| &x.0), a.tk_equals.as_ref());
        if let Some((x, y)) = self.presence(MISC, "aliased type", val.as_ref(), a.initializer_ty.as_ref()) {
            self.ty(MISC, "aliased type", &x.1, y);
        }
        self.pu(MISC, "semicolon", semi, &a.tk_semicolon);
        self.quoted("alias", it, a);
    }
    fn mac(&mut self, it: &MItem, a: &v::Macro) {
        let MK::Macro { name, bang, decl, group, semi } = &it.k else { return };
        ev("macro");
        self.attrs(&it.attrs, &a.attributes);
        self.id(MISC | NAME, "macro name", name, &a.name);
        self.pu(MISC, "!", bang, &a.tk_bang);
        self.oid(MISC, "declared name", decl.as_ref(), a.tk_declared_name.as_ref());
        self.group(MISC, "delimiters", group, &a.tk_braces_or_parens);
        self.toks(MISC, "macro tokens", group.inner(), &a.inner_tokens);
        self.opu(MISC, "semicolon", semi.as_ref(), a.tk_semicolon.as_ref());
        self.quoted("macro", it, a);
    }
    fn member_i(&mut self, m: &MItem, a: &v::ImplMember) {
        ev("member");
        match (&m.k, a) {
            (MK::Fn(f), v::ImplMember::AssocFunction(g)) => self.func(m, f, g),
            (MK::Const { .. }, v::ImplMember::AssocConstant(c)) => self.constant(m, c),
            (MK::Alias { .. }, v::ImplMember::AssocType(t)) => self.alias(m, t),
            (MK::Macro { .. }, v::ImplMember::Macro(x)) => self.mac(m, x),
            (_, other) => self.fail(BODY | KIND, format!("member `{}` reported as {other:?}", clip(&show(&m.toks())))),
        }
        self.quoted("member", m, a);
    }
    fn member_t(&mut self, m: &MItem, a: &v::TraitMember) {
        ev("member");
        match (&m.k, a) {
            (MK::Fn(f), v::TraitMember::AssocFunction(g)) => self.func(m, f, g),
            (MK::Const { .. }, v::TraitMember::AssocConstant(c)) => self.constant(m, c),
            (MK::Alias { .. }, v::TraitMember::AssocType(t)) => self.alias(m, t),
            (MK::Macro { .. }, v::TraitMember::Macro(x)) => self.mac(m, x),
            (_, other) => self.fail(BODY | KIND, format!("member `{}` reported as {other:?}", clip(&show(&m.toks())))),
        }
        self.quoted("member", m, a);
    }
    fn members<V>(&mut self, e: &[MItem], a: &[V], mut f: impl FnMut(&mut Cmp, &MItem, &V)) {
        if e.len() != a.len() {
            self.fail(BODY, format!("{} members declared, {} reported", e.len(), a.len()));
            return;
        }
        for (i, (x, y)) in e.iter().zip(a).enumerate() {
            self.within(format!("member[{i}]"), |c| f(c, x, y));
        }
    }
    pub fn item(&mut self, e: &MItem, a: &v::Item) {
        let k = kind_of(a);
        if k != e.kind() {
            self.fail(KIND | STRUCT, format!("a {} was classified as {}", KINDS[e.kind()], KINDS[k]));
            return;
        }
        ev(KINDS[k]);
        self.at.push(KINDS[k].to_string());
        match (&e.k, a) {
            (MK::Struct { kw, name, gen, wh, fields, semi }, v::Item::Struct(s)) => {
                self.attrs(&e.attrs, &s.attributes);
                self.vis(e.vis.as_ref(), s.vis_marker.as_ref());
                self.id(KIND, "keyword", kw, &s.tk_struct);
                self.id(NAME, "name", name, &s.name);
                self.gen(gen.as_ref(), s.generic_params.as_ref());
                self.wher(wh.as_ref(), s.where_clause.as_ref());
                self.fields(fields, &s.fields);
                self.opu(FIELDS, "semicolon", semi.as_ref(), s.tk_semicolon.as_ref());
                self.quoted("struct", e, s);
                self.spanof("struct", e, || s.span());
                if self.want & QUERY != 0 {
                    self.struct_queries(fields, s);
                }
            }
            (MK::Enum { kw, name, gen, wh, group, variants }, v::Item::Enum(s)) => {
                self.attrs(&e.attrs, &s.attributes);
                self.vis(e.vis.as_ref(), s.vis_marker.as_ref());
                self.id(KIND, "keyword", kw, &s.tk_enum);
                self.id(NAME, "name", name, &s.name);
                self.gen(gen.as_ref(), s.generic_params.as_ref());
                self.wher(wh.as_ref(), s.where_clause.as_ref());
                self.group(FIELDS, "braces", group, &s.tk_braces);
                self.list(FIELDS, "variants", variants, &s.variants, |c, m, x| c.variant(m, x));
                self.quoted("enum", e, s);
                self.spanof("enum", e, || s.span());
                if self.want & QUERY != 0 {
                    ev("query.enum");
                    let c = variants.items.iter().all(|x| matches!(x.0.fields, MFields::Unit));
                    if s.is_c_enum() != c {
                        self.fail(QUERY, format!("is_c_enum() is {}", s.is_c_enum()));
                    }
                }
            }
            (MK::Union { kw, name, gen, wh, group, fields }, v::Item::Union(s)) => {
                self.attrs(&e.attrs, &s.attributes);
                self.vis(e.vis.as_ref(), s.vis_marker.as_ref());
                self.id(KIND, "keyword", kw, &s.tk_union);
                self.id(NAME, "name", name, &s.name);
                self.gen(gen.as_ref(), s.generic_params.as_ref());
                self.wher(wh.as_ref(), s.where_clause.as_ref());
                self.group(FIELDS, "braces", group, &s.fields.tk_braces);
                self.list(FIELDS, "fields", fields, &s.fields.fields, |c, m, f| c.nfield(m, f));
                self.quoted("union", e, s);
                self.spanof("union", e, || s.span());
            }
            (MK::Mod { uns, kw, name, semi, group, inner, members }, v::Item::Module(m)) => {
                self.attrs(&e.attrs, &m.attributes);
                self.vis(e.vis.as_ref(), m.vis_marker.as_ref());
                self.oid(BODY, "unsafe", uns.as_ref(), m.tk_unsafe.as_ref());
                self.id(KIND, "keyword", kw, &m.tk_mod);
                self.id(NAME, "name", name, &m.name);
                self.opu(BODY, "semicolon", semi.as_ref(), m.tk_semicolon.as_ref());
                if let Some((x, y)) = self.presence(BODY, "module body", group.as_ref(), m.tk_braces.as_ref()) {
                    self.group(BODY, "braces", x, y);
                }
                self.within("inner", |c| c.attrs(inner, &m.inner_attributes));
                self.members(members, &m.members, |c, x, y| c.item(x, y));
                self.quoted("mod", e, m);
            }
            (MK::Trait { uns, kw, name, gen, bound, wh, group, inner, members }, v::Item::Trait(t)) => {
                self.attrs(&e.attrs, &t.attributes);
                self.vis(e.vis.as_ref(), t.vis_marker.as_ref());
                self.oid(BODY, "unsafe", uns.as_ref(), t.tk_unsafe.as_ref());
                self.id(KIND, "keyword", kw, &t.tk_trait);
                self.id(NAME, "name", name, &t.name);
                self.gen(gen.as_ref(), t.generic_params.as_ref());
                self.bound(bound.as_ref(), t.bound.as_ref());
                if self.want & BODY != 0 {
                    if let (Some(x), Some(y)) = (bound, &t.bound) {
                        self.toks(BODY, "supertraits", &x.toks, &y.tokens);
                    }
                    if bound.is_some() != t.bound.is_some() {
                        self.fail(BODY, "supertraits lost or invented".into());
                    }
                }
                self.wher(wh.as_ref(), t.where_clause.as_ref());
                self.group(BODY, "braces", group, &t.tk_braces);
                self.within("inner", |c| c.attrs(inner, &t.inner_attributes));
                self.members(members, &t.body_items, |c, x, y| c.member_t(x, y));
                self.quoted("trait", e, t);
            }
            (MK::Impl { uns, kw, gen, trait_, self_ty, wh, group, inner, members }, v::Item::Impl(m)) => {
                self.attrs(&e.attrs, &m.attributes);
                self.oid(BODY, "unsafe", uns.as_ref(), m.tk_unsafe.as_ref());
                self.id(KIND, "keyword", kw, &m.tk_impl);
                self.gen(gen.as_ref(), m.impl_generic_params.as_ref());
                if let Some((x, y)) = self.presence(BODY, "trait", trait_.as_ref(), m.trait_ty.as_ref()) {
                    self.ty(BODY, "trait", &x.0, y);
                }
                self.oid(BODY, "for", trait_.as_ref().map(|x| &x.1), m.tk_for.as_ref());
                self.ty(BODY, "self type", self_ty, &m.self_ty);
                self.wher(wh.as_ref(), m.where_clause.as_ref());
                self.group(BODY, "braces", group, &m.tk_braces);
                self.within("inner", |c| c.attrs(inner, &m.inner_attributes));
                self.members(members, &m.body_items, |c, x, y| c.member_i(x, y));
                self.quoted("impl", e, m);
            }
            (MK::Alias { .. }, v::Item::TypeAlias(t)) => self.alias(e, t),
            (MK::Fn(f), v::Item::Function(g)) => self.func(e, f, g),
            (MK::Const { .. }, v::Item::Constant(c)) => self.constant(e, c),
            (MK::Use { kw, tree, semi }, v::Item::UseDeclaration(u)) => {
                self.attrs(&e.attrs, &u.attributes);
                self.vis(e.vis.as_ref(), u.vis_marker.as_ref());
                self.id(MISC, "use", kw, &u.tk_use);
                self.toks(MISC, "import tree", tree, &u.import_tree.tokens);
                self.pu(MISC, "semicolon", semi, &u.tk_semicolon);
                self.quoted("use", e, u);
            }
            (MK::Macro { .. }, v::Item::Macro(m)) => self.mac(e, m),
            (MK::ExternBlock { uns, kw, abi, group, inner, members }, v::Item::ExternBlock(b)) => {
                self.attrs(&e.attrs, &b.attributes);
                self.vis(e.vis.as_ref(), b.vis_marker.as_ref());
                self.oid(BODY, "unsafe", uns.as_ref(), b.tk_unsafe.as_ref());
                self.id(BODY, "extern", kw, &b.tk_extern);
                self.olit(BODY, "abi", abi.as_ref(), b.extern_abi.as_ref());
                self.group(BODY, "braces", group, &b.tk_braces);
                self.within("inner", |c| c.attrs(inner, &b.inner_attributes));
                self.members(members, &b.body_items, |c, x, y| c.member_i(x, y));
                self.quoted("extern block", e, b);
            }
            (MK::ExternCrate { kw, crate_, name, as_, semi }, v::Item::ExternCrate(x)) => {
                self.attrs(&e.attrs, &x.attributes);
                self.vis(e.vis.as_ref(), x.vis_marker.as_ref());
                self.id(MISC, "extern", kw, &x.tk_extern);
                self.id(MISC, "crate", crate_, &x.tk_crate);
                self.id(MISC | NAME, "name", name, &x.name);
                self.oid(MISC, "as", as_.as_ref().map(|p| &p.0), x.tk_as.as_ref());
                // `_` may be stored in either of the two fields, but in exactly one
                let got: Vec<&Ident> = x.alias.iter().chain(x.tk_underscore.iter()).collect();
                match (as_, got.as_slice()) {
                    (None, []) => {}
                    (Some((_, n)), [g]) => self.id(MISC, "alias", n, g),
                    _ => self.fail(MISC, "extern crate alias lost, doubled or invented".into()),
                }
                self.pu(MISC, "semicolon", semi, &x.tk_semicolon);
                self.quoted("extern crate", e, x);
            }
            _ => unreachable!(),
        }
        self.quoted("item", e, a);
        self.spanof("item", e, || a.span());
        if self.want & ACCESS != 0 {
            self.access(e, a);
        }
        if self.want & QUERY != 0 {
            self.generic_queries(e, a);
        }
        self.at.pop();
    }

    fn struct_queries(&mut self, e: &MFields, s: &v::Struct) {
        ev("query.struct");
        let names: Vec<String> = s.field_names().into_iter().collect();
        let toks: Vec<TokenTree> = s.field_tokens().into_iter().collect();
        let tys: Vec<&v::TypeExpr> = s.field_types().into_iter().collect();
        let (en, et): (Vec<String>, Vec<&MTy>) = match e {
            MFields::Unit => (vec![], vec![]),
            MFields::Tuple(_, l) => l.items.iter().enumerate().map(|(i, x)| (i.to_string(), &x.0.ty)).unzip(),
            MFields::Named(_, l) => l.items.iter().map(|x| (x.0.name.text().to_string(), &x.0.ty)).unzip(),
        };
        evn("query.field", en.len() as u64);
        if names != en {
            self.fail(QUERY, format!("field_names() = {:?}, declared {:?}", clip(&format!("{names:?}")), clip(&format!("{en:?}"))));
        }
        let ts: Vec<String> = toks.iter().map(|t| t.to_string()).collect();
        if ts != en {
            self.fail(QUERY, format!("field_tokens() = {:?}, declared {:?}", clip(&format!("{ts:?}")), clip(&format!("{en:?}"))));
        }
        for t in &toks {
            let ok = match e {
                MFields::Tuple(..) => matches!(t, TokenTree::Literal(_)),
                _ => matches!(t, TokenTree::Ident(_)),
            };
            if !ok {
                self.fail(QUERY, format!("field_tokens() contains {t:?}"));
            }
        }
        if tys.len() != et.len() {
            self.fail(QUERY, format!("field_types() has {} entries, {} fields declared", tys.len(), et.len()));
        } else {
            for (x, y) in et.iter().zip(&tys) {
                self.toks(QUERY, "field_types", &x.toks, &y.tokens);
            }
        }
    }
    fn generic_queries(&mut self, e: &MItem, a: &v::Item) {
        let (l, t, c): (Vec<_>, Vec<_>, Vec<_>) = match a {
            v::Item::Struct(s) => {
                (s.get_lifetime_params().collect(), s.get_type_params().collect(), s.get_const_params().collect())
            }
            v::Item::Enum(s) => {
                (s.get_lifetime_params().collect(), s.get_type_params().collect(), s.get_const_params().collect())
            }
            v::Item::Union(s) => {
                (s.get_lifetime_params().collect(), s.get_type_params().collect(), s.get_const_params().collect())
            }
            _ => return,
        };
        ev("query.generics");
        let empty = vec![];
        let ps = e.gen().map(|g| &g.params.items).unwrap_or(&empty);
        let by = |f: &dyn Fn(&MGParam) -> bool| -> Vec<&MGParam> { ps.iter().map(|x| &x.0).filter(|x| f(x)).collect() };
        let el = by(&|p| p.prefix.as_ref().is_some_and(|r| r.is_p('\'')));
        let et = by(&|p| p.prefix.is_none());
        let ec = by(&|p| p.prefix.as_ref().is_some_and(|r| r.is_id("const")));
        for (what, x, y) in
            [("get_lifetime_params", el, l), ("get_type_params", et, t), ("get_const_params", ec, c)]
        {
            if x.len() != y.len() {
                self.fail(QUERY, format!("{what}: {} declared, {} given", x.len(), y.len()));
                continue;
            }
            for (m, p) in x.iter().zip(&y) {
                if let Err(err) = eq_it(&m.toks(), p.to_token_stream().into_iter(), TXT) {
                    self.fail(QUERY, format!("{what}: {err}"));
                }
            }
        }
    }
    pub fn access(&mut self, e: &MItem, a: &v::Item) {
        ev("accessors");
        let hits = accessor_hits(a);
        let mut want = [false; 13];
        want[e.kind()] = true;
        if hits != want {
            self.fail(ACCESS, format!("as_*() accessors answer {hits:?} for a {}", KINDS[e.kind()]));
        }
        let n = a.name();
        self.oid(ACCESS, "name()", e.name(), n.as_ref());
        self.acc_attrs(&e.attrs, a.attributes());
        self.acc_gen(e.gen(), a.generic_params());
        let mut b = a.clone();
        self.acc_attrs(&e.attrs, b.attributes_mut());
        self.acc_gen(e.gen(), b.generic_params_mut().map(|x| &*x));
        // writing through the mutable accessors reaches the item, and only that part
        let had = b.attributes().len();
        if let Some(x) = b.attributes().first().cloned() {
            b.attributes_mut().push(x);
            if b.attributes().len() != had + 1 {
                self.fail(ACCESS, "attributes_mut() does not reach the item's attributes".into());
            }
            b.attributes_mut().pop();
        }
        if let Some(g) = b.generic_params_mut() {
            let old = g.params.skip_last;
            let n = g.params.len();
            g.params.push(v::GenericParam::ty("Zz"), None);
            let now = b.generic_params().map(|x| x.params.len());
            if now != Some(n + 1) {
                self.fail(ACCESS, "generic_params_mut() does not reach the item's parameters".into());
            }
            let g = b.generic_params_mut().unwrap();
            g.params.inner.pop();
            g.params.skip_last = old;
        }
        if let Err(m) = eq_it(&e.toks(), b.to_token_stream().into_iter(), TXT) {
            self.fail(ACCESS, format!("editing through the accessors changed something else: {m}"));
        }
    }
    fn acc_attrs(&mut self, e: &[MAttr], a: &[v::Attribute]) {
        let mut t = Vec::new();
        emit_all(e, &mut t);
        let mut ts = TokenStream::new();
        for x in a {
            x.to_tokens(&mut ts);
        }
        if e.len() != a.len() {
            self.fail(ACCESS, format!("attributes() has {} entries, declared {}", a.len(), e.len()));
        } else if let Err(m) = eq_it(&t, ts.into_iter(), TXT) {
            self.fail(ACCESS, format!("attributes(): {m}"));
        }
    }
    fn acc_gen(&mut self, e: Option<&MGen>, a: Option<&v::GenericParamList>) {
        if let Some((x, y)) = self.presence(ACCESS, "generic_params()", e, a) {
            if let Err(m) = eq_it(&x.toks(), y.to_token_stream().into_iter(), TXT) {
                self.fail(ACCESS, format!("generic_params(): {m}"));
            }
        }
    }
}

pub fn kind_of(a: &v::Item) -> usize {
    match a {
        v::Item::Struct(_) => 0,
        v::Item::Enum(_) => 1,
        v::Item::Union(_) => 2,
        v::Item::Module(_) => 3,
        v::Item::Trait(_) => 4,
        v::Item::Impl(_) => 5,
        v::Item::TypeAlias(_) => 6,
        v::Item::Function(_) => 7,
        v::Item::Constant(_) => 8,
        v::Item::UseDeclaration(_) => 9,
        v::Item::Macro(_) => 10,
        v::Item::ExternBlock(_) => 11,
        v::Item::ExternCrate(_) => 12,
        _ => 13,
    }
}
pub fn accessor_hits(a: &v::Item) -> [bool; 13] {
    [
        a.as_struct().is_some(),
        a.as_enum().is_some(),
        a.as_union().is_some(),
        a.as_module().is_some(),
        a.as_trait().is_some(),
        a.as_impl().is_some(),
        a.as_type_alias().is_some(),
        a.as_function().is_some(),
        a.as_constant().is_some(),
        a.as_use_declaration().is_some(),
        a.as_macro().is_some(),
        a.as_extern_block().is_some(),
        a.as_extern_crate().is_some(),
    ]
}

pub trait EmitDyn {
    fn toks_dyn(&self) -> Ts;
}
impl<T: Emit> EmitDyn for T {
    fn toks_dyn(&self) -> Ts {
        self.toks()
    }
}
pub trait ToTokensDyn {
    fn ts(&self) -> TokenStream;
}
impl<T: ToTokens> ToTokensDyn for T {
    fn ts(&self) -> TokenStream {
        self.to_token_stream()
    }
}
#[allow(dead_code)]
fn _unused(_: Delimiter, _: &Group) {}
