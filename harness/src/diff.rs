//! Real-world sources: what the library reports against an independent parser (syn).
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit::Visit;
use venial as v;

// what a fact is about
pub const F_KIND: u32 = 1;
pub const F_NAME: u32 = 2;
pub const F_ATTR: u32 = 4;
pub const F_VIS: u32 = 8;
pub const F_GEN: u32 = 16;
pub const F_FIELD: u32 = 32;
pub const F_FN: u32 = 64;
pub const F_BLOCK: u32 = 128;
pub const F_MISC: u32 = 256;

type Facts = Vec<(u32, String)>;

/// the words of a stream, without invisible groups
fn words(ts: TokenStream, o: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("( ", ") "),
                    Delimiter::Brace => ("{ ", "} "),
                    Delimiter::Bracket => ("[ ", "] "),
                    Delimiter::None => ("", ""),
                };
                o.push_str(a);
                words(g.stream(), o);
                o.push_str(b);
            }
            t => {
                o.push_str(&t.to_string());
                o.push(' ');
            }
        }
    }
}
fn w(t: impl ToTokens) -> String {
    let mut s = String::new();
    words(t.to_token_stream(), &mut s);
    s
}
fn wv(t: &[TokenTree]) -> String {
    let mut s = String::new();
    words(t.iter().cloned().collect(), &mut s);
    s
}

// ---- which items are outside the supported syntax -----------------------------------------------
#[derive(Default)]
struct Unsup(bool, u32);
impl<'a> Visit<'a> for Unsup {
    fn visit_block(&mut self, _: &'a syn::Block) {}
    fn visit_expr(&mut self, _: &'a syn::Expr) {}
    fn visit_generics(&mut self, g: &'a syn::Generics) {
        for p in &g.params {
            match p {
                syn::GenericParam::Type(t) => self.0 |= t.default.is_some() || !t.attrs.is_empty(),
                syn::GenericParam::Const(t) => self.0 |= t.default.is_some() || !t.attrs.is_empty(),
                syn::GenericParam::Lifetime(t) => self.0 |= !t.attrs.is_empty(),
            }
        }
        // brace macros and const blocks in headers
        let mut braces = false;
        fn has(ts: TokenStream, b: &mut bool) {
            for t in ts {
                if let TokenTree::Group(g) = t {
                    *b |= g.delimiter() == Delimiter::Brace;
                }
            }
        }
        has(g.where_clause.to_token_stream(), &mut braces);
        self.0 |= braces;
    }
    fn visit_fn_arg(&mut self, a: &'a syn::FnArg) {
        if let syn::FnArg::Typed(t) = a {
            match &*t.pat {
                syn::Pat::Ident(p) => self.0 |= p.by_ref.is_some() || p.subpat.is_some(),
                _ => self.0 = true,
            }
        }
    }
    fn visit_variadic(&mut self, _: &'a syn::Variadic) {
        self.0 = true
    }
    fn visit_variant(&mut self, x: &'a syn::Variant) {
        if let Some((_, d)) = &x.discriminant {
            self.0 |= d.to_token_stream().into_iter().count() != 1;
        }
        syn::visit::visit_variant(self, x);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.0 |= m.path.segments.len() != 1 || m.path.leading_colon.is_some() || m.path.is_ident("union") || m.path.is_ident("default");
    }
    fn visit_type(&mut self, t: &'a syn::Type) {
        // a macro or block with braces at the top level of a type ends a header early
        if let syn::Type::Macro(m) = t {
            self.0 |= matches!(m.mac.delimiter, syn::MacroDelimiter::Brace(_));
        }
        if let syn::Type::Verbatim(_) = t {
            self.0 = true;
        }
        self.0 |= t.to_token_stream().into_iter().any(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Brace));
    }
    fn visit_item(&mut self, i: &'a syn::Item) {
        match i {
            syn::Item::Verbatim(_) | syn::Item::TraitAlias(_) => self.0 = true,
            syn::Item::Type(t) => self.0 |= !t.generics.params.is_empty() || t.generics.lt_token.is_some() || t.generics.where_clause.is_some(),
            syn::Item::Const(c) => self.0 |= !c.generics.params.is_empty(),
            syn::Item::Trait(t) => self.0 |= t.auto_token.is_some() || t.restriction.is_some(),
            syn::Item::Impl(t) => {
                // `impl dyn for<..>`, negative and defaulted impls
                self.0 |= t.defaultness.is_some() || t.trait_.as_ref().is_some_and(|x| x.0.is_some());
                self.0 |= w(&t.self_ty).contains(" for ") && w(&t.self_ty).starts_with("dyn");
                self.0 |= t.generics.params.is_empty() && w(&t.self_ty).starts_with('<') && t.trait_.is_none();
            }
            syn::Item::ForeignMod(f) => {
                self.0 |= f.items.iter().any(|i| matches!(i, syn::ForeignItem::Verbatim(_)));
            }
            _ => {}
        }
        // function-like macro items with a name of their own (other than macro_rules)
        if let syn::Item::Macro(m) = i {
            self.0 |= m.ident.is_some() && !m.mac.path.is_ident("macro_rules");
        }
        self.1 += 1;
        if self.1 < 5000 {
            syn::visit::visit_item(self, i);
        }
    }
    fn visit_impl_item(&mut self, i: &'a syn::ImplItem) {
        match i {
            syn::ImplItem::Verbatim(_) => self.0 = true,
            syn::ImplItem::Type(t) => self.0 |= t.generics.lt_token.is_some() || t.generics.where_clause.is_some() || t.defaultness.is_some(),
            syn::ImplItem::Const(c) => self.0 |= !c.generics.params.is_empty() || c.defaultness.is_some(),
            _ => {}
        }
        syn::visit::visit_impl_item(self, i);
    }
    fn visit_trait_item(&mut self, i: &'a syn::TraitItem) {
        match i {
            syn::TraitItem::Verbatim(_) => self.0 = true,
            syn::TraitItem::Type(t) => self.0 |= t.generics.lt_token.is_some() || t.generics.where_clause.is_some(),
            syn::TraitItem::Const(c) => self.0 |= !c.generics.params.is_empty(),
            _ => {}
        }
        syn::visit::visit_trait_item(self, i);
    }
    fn visit_bare_fn_arg(&mut self, _: &'a syn::BareFnArg) {}
}
pub fn unsupported(i: &syn::Item) -> bool {
    let mut u = Unsup::default();
    u.visit_item(i);
    u.0
}

// ---- facts, as syn sees them ----------------------------------------------------------------------
struct S(Facts, String);
impl S {
    fn f(&mut self, tag: u32, s: String) {
        let p = self.1.clone();
        self.0.push((tag, format!("{p}{s}")));
    }
    fn sub(&mut self, p: &str, f: impl FnOnce(&mut S)) {
        let n = self.1.len();
        self.1.push_str(p);
        self.1.push(' ');
        f(self);
        self.1.truncate(n);
    }
    fn attrs(&mut self, a: &[syn::Attribute], blockish: bool) {
        for x in a {
            if matches!(x.style, syn::AttrStyle::Outer) {
                self.f(F_ATTR, format!("attr {}", w(x)));
            }
        }
        if blockish {
            for x in a {
                if matches!(x.style, syn::AttrStyle::Inner(_)) {
                    self.f(F_ATTR, format!("inner {}", w(x)));
                }
            }
        }
    }
    fn vis(&mut self, x: &syn::Visibility) {
        self.f(F_VIS, format!("vis {}", w(x)));
    }
    fn gen(&mut self, g: &syn::Generics, wh: bool) {
        for p in &g.params {
            let s = match p {
                syn::GenericParam::Type(t) => format!("type {} {}", t.ident, colon(t.colon_token.is_some(), w(&t.bounds))),
                syn::GenericParam::Const(t) => format!("const {} {}", t.ident, colon(true, w(&t.ty))),
                syn::GenericParam::Lifetime(t) => format!("lifetime {} {}", t.lifetime.ident, colon(t.colon_token.is_some(), w(&t.bounds))),
            };
            self.f(F_GEN, format!("param {s}"));
        }
        if wh {
            self.wher(g);
        }
    }
    fn wher(&mut self, g: &syn::Generics) {
        if let Some(c) = &g.where_clause {
            self.f(F_GEN, "where".into());
            for p in &c.predicates {
                match p {
                    syn::WherePredicate::Lifetime(l) => self.f(F_GEN, format!("pred {}| {}", w(&l.lifetime), w(&l.bounds))),
                    syn::WherePredicate::Type(t) => {
                        self.f(F_GEN, format!("pred {}{}| {}", w(&t.lifetimes), w(&t.bounded_ty), w(&t.bounds)))
                    }
                    _ => self.f(F_GEN, "?".into()),
                }
            }
        }
    }
    fn fields(&mut self, f: &syn::Fields) {
        match f {
            syn::Fields::Unit => self.f(F_FIELD, "unit".into()),
            syn::Fields::Named(n) => {
                self.f(F_FIELD, "named".into());
                for x in &n.named {
                    self.sub("field", |s| {
                        s.attrs(&x.attrs, false);
                        s.vis(&x.vis);
                        s.f(F_FIELD, format!("{} : {}", x.ident.as_ref().unwrap(), w(&x.ty)));
                    });
                }
            }
            syn::Fields::Unnamed(n) => {
                self.f(F_FIELD, "tuple".into());
                for x in &n.unnamed {
                    self.sub("field", |s| {
                        s.attrs(&x.attrs, false);
                        s.vis(&x.vis);
                        s.f(F_FIELD, w(&x.ty));
                    });
                }
            }
        }
    }
    fn sig(&mut self, s: &syn::Signature, body: Option<String>, default: bool) {
        let b = |x: bool, n: &str| if x { format!("{n} ") } else { String::new() };
        let abi = s.abi.as_ref().map(w).unwrap_or_default();
        self.f(
            F_FN,
            format!(
                "qualifiers {}{}{}{}{abi}",
                b(default, "default"),
                b(s.constness.is_some(), "const"),
                b(s.asyncness.is_some(), "async"),
                b(s.unsafety.is_some(), "unsafe")
            ),
        );
        self.f(F_NAME, format!("name {}", s.ident));
        self.gen(&s.generics, true);
        for a in &s.inputs {
            self.sub("arg", |f| match a {
                syn::FnArg::Receiver(r) => {
                    f.attrs(&r.attrs, false);
                    if r.colon_token.is_some() {
                        f.f(F_FN, format!("typed {}self : {}", if r.mutability.is_some() { "mut " } else { "" }, w(&r.ty)));
                    } else {
                        let l = r.reference.as_ref().map(|(_, l)| format!("& {}", l.as_ref().map(w).unwrap_or_default())).unwrap_or_default();
                        f.f(F_FN, format!("receiver {l}{}self", if r.mutability.is_some() { "mut " } else { "" }));
                    }
                }
                syn::FnArg::Typed(t) => {
                    f.attrs(&t.attrs, false);
                    f.f(F_FN, format!("typed {}: {}", w(&t.pat), w(&t.ty)));
                }
            });
        }
        match &s.output {
            syn::ReturnType::Default => {}
            syn::ReturnType::Type(_, t) => self.f(F_FN, format!("returns {}", w(t))),
        }
        self.f(F_FN, format!("body {}", body.unwrap_or_else(|| "none".into())));
    }
    fn mac(&mut self, name: &syn::Ident, m: &syn::Macro, id: Option<&syn::Ident>) {
        let mut t = String::new();
        words(m.tokens.clone(), &mut t);
        self.f(F_MISC, format!("macro {name} {} {t}", id.map(|i| i.to_string()).unwrap_or_default()));
    }
    fn item(&mut self, i: &syn::Item) {
        use syn::Item as I;
        match i {
            I::Struct(x) => {
                self.f(F_KIND, "struct".into());
                self.f(F_NAME, format!("name {}", x.ident));
                self.attrs(&x.attrs, false);
                self.vis(&x.vis);
                self.gen(&x.generics, true);
                self.fields(&x.fields);
            }
            I::Enum(x) => {
                self.f(F_KIND, "enum".into());
                self.f(F_NAME, format!("name {}", x.ident));
                self.attrs(&x.attrs, false);
                self.vis(&x.vis);
                self.gen(&x.generics, true);
                for q in &x.variants {
                    self.sub("variant", |s| {
                        s.attrs(&q.attrs, false);
                        s.f(F_FIELD, format!("{}", q.ident));
                        s.fields(&q.fields);
                        s.f(F_FIELD, format!("= {}", q.discriminant.as_ref().map(|d| w(&d.1)).unwrap_or_default()));
                    });
                }
            }
            I::Union(x) => {
                self.f(F_KIND, "union".into());
                self.f(F_NAME, format!("name {}", x.ident));
                self.attrs(&x.attrs, false);
                self.vis(&x.vis);
                self.gen(&x.generics, true);
                self.fields(&syn::Fields::Named(x.fields.clone()));
            }
            I::Mod(x) => {
                self.f(F_KIND, "mod".into());
                self.f(F_NAME, format!("name {}", x.ident));
                self.attrs(&x.attrs, true);
                self.vis(&x.vis);
                self.f(F_BLOCK, format!("unsafe {} body {}", x.unsafety.is_some(), x.content.is_some()));
                for m in x.content.iter().flat_map(|c| &c.1) {
                    self.sub("member", |s| s.item(m));
                }
            }
            I::Trait(x) => {
                self.f(F_KIND, "trait".into());
                self.f(F_NAME, format!("name {}", x.ident));
                self.attrs(&x.attrs, true);
                self.vis(&x.vis);
                self.gen(&x.generics, true);
                self.f(F_BLOCK, format!("unsafe {}", x.unsafety.is_some()));
                self.f(F_GEN, format!("bound {}", colon(x.colon_token.is_some(), w(&x.supertraits))));
                for m in &x.items {
                    self.sub("member", |s| match m {
                        syn::TraitItem::Fn(f) => {
                            s.f(F_KIND, "fn".into());
                            s.attrs(&f.attrs, false);
                            s.f(F_VIS, "vis ".into());
                            let b = f.default.as_ref().map(|b| block(b, &f.attrs));
                            s.sig(&f.sig, b, false);
                        }
                        syn::TraitItem::Const(c) => {
                            s.f(F_KIND, "const".into());
                            s.attrs(&c.attrs, false);
                            s.f(F_VIS, "vis ".into());
                            s.f(F_MISC, format!("const {} : {}= {}", c.ident, w(&c.ty), c.default.as_ref().map(|d| w(&d.1)).unwrap_or_default()));
                        }
                        syn::TraitItem::Type(c) => {
                            s.f(F_KIND, "type".into());
                            s.attrs(&c.attrs, false);
                            s.f(F_VIS, "vis ".into());
                            s.f(F_MISC, format!("type {} {} = {}", c.ident, colon(c.colon_token.is_some(), w(&c.bounds)), c.default.as_ref().map(|d| w(&d.1)).unwrap_or_default()));
                        }
                        syn::TraitItem::Macro(c) => {
                            s.f(F_KIND, "macro".into());
                            s.attrs(&c.attrs, false);
                            s.mac(c.mac.path.get_ident().unwrap(), &c.mac, None);
                        }
                        _ => s.f(F_KIND, "?".into()),
                    });
                }
            }
            I::Impl(x) => {
                self.f(F_KIND, "impl".into());
                self.attrs(&x.attrs, true);
                self.gen(&x.generics, true);
                self.f(F_BLOCK, format!("unsafe {}", x.unsafety.is_some()));
                self.f(F_BLOCK, format!("trait {}", x.trait_.as_ref().map(|t| w(&t.1)).unwrap_or_default()));
                self.f(F_BLOCK, format!("self {}", w(&x.self_ty)));
                for m in &x.items {
                    self.sub("member", |s| match m {
                        syn::ImplItem::Fn(f) => {
                            s.f(F_KIND, "fn".into());
                            s.attrs(&f.attrs, false);
                            s.vis(&f.vis);
                            let b = block(&f.block, &f.attrs);
                            s.sig(&f.sig, Some(b), f.defaultness.is_some());
                        }
                        syn::ImplItem::Const(c) => {
                            s.f(F_KIND, "const".into());
                            s.attrs(&c.attrs, false);
                            s.vis(&c.vis);
                            s.f(F_MISC, format!("const {} : {}= {}", c.ident, w(&c.ty), w(&c.expr)));
                        }
                        syn::ImplItem::Type(c) => {
                            s.f(F_KIND, "type".into());
                            s.attrs(&c.attrs, false);
                            s.vis(&c.vis);
                            s.f(F_MISC, format!("type {} {} = {}", c.ident, "", w(&c.ty)));
                        }
                        syn::ImplItem::Macro(c) => {
                            s.f(F_KIND, "macro".into());
                            s.attrs(&c.attrs, false);
                            s.mac(c.mac.path.get_ident().unwrap(), &c.mac, None);
                        }
                        _ => s.f(F_KIND, "?".into()),
                    });
                }
            }
            I::Type(c) => {
                self.f(F_KIND, "type".into());
                self.attrs(&c.attrs, false);
                self.vis(&c.vis);
                self.f(F_MISC, format!("type {} {} = {}", c.ident, "", w(&c.ty)));
            }
            I::Fn(x) => {
                self.f(F_KIND, "fn".into());
                self.attrs(&x.attrs, false);
                self.vis(&x.vis);
                let b = block(&x.block, &x.attrs);
                self.sig(&x.sig, Some(b), false);
            }
            I::Const(c) => {
                self.f(F_KIND, "const".into());
                self.attrs(&c.attrs, false);
                self.vis(&c.vis);
                self.f(F_MISC, format!("const {} : {}= {}", c.ident, w(&c.ty), w(&c.expr)));
            }
            I::Static(c) => {
                self.f(F_KIND, "static".into());
                self.attrs(&c.attrs, false);
                self.vis(&c.vis);
                let m = if matches!(c.mutability, syn::StaticMutability::Mut(_)) { "mut " } else { "" };
                self.f(F_MISC, format!("static {m}{} : {}= {}", c.ident, w(&c.ty), w(&c.expr)));
            }
            I::Use(x) => {
                self.f(F_KIND, "use".into());
                self.attrs(&x.attrs, false);
                self.vis(&x.vis);
                self.f(F_MISC, format!("use {}{}", x.leading_colon.map(|c| w(c)).unwrap_or_default(), w(&x.tree)));
            }
            I::Macro(x) => {
                self.f(F_KIND, "macro".into());
                self.attrs(&x.attrs, false);
                self.mac(x.mac.path.get_ident().unwrap(), &x.mac, x.ident.as_ref());
            }
            I::ForeignMod(x) => {
                self.f(F_KIND, "extern block".into());
                self.attrs(&x.attrs, true);
                self.f(F_BLOCK, format!("unsafe {} abi {}", x.unsafety.is_some(), x.abi.name.as_ref().map(w).unwrap_or_default()));
                for m in &x.items {
                    self.sub("member", |s| match m {
                        syn::ForeignItem::Fn(f) => {
                            s.f(F_KIND, "fn".into());
                            s.attrs(&f.attrs, false);
                            s.vis(&f.vis);
                            s.sig(&f.sig, None, false);
                        }
                        syn::ForeignItem::Static(c) => {
                            s.f(F_KIND, "static".into());
                            s.attrs(&c.attrs, false);
                            s.vis(&c.vis);
                            let m = if matches!(c.mutability, syn::StaticMutability::Mut(_)) { "mut " } else { "" };
                            s.f(F_MISC, format!("static {m}{} : {}= ", c.ident, w(&c.ty)));
                        }
                        syn::ForeignItem::Type(c) => {
                            s.f(F_KIND, "type".into());
                            s.attrs(&c.attrs, false);
                            s.vis(&c.vis);
                            s.f(F_MISC, format!("type {}  = ", c.ident));
                        }
                        syn::ForeignItem::Macro(c) => {
                            s.f(F_KIND, "macro".into());
                            s.attrs(&c.attrs, false);
                            s.mac(c.mac.path.get_ident().unwrap(), &c.mac, None);
                        }
                        _ => s.f(F_KIND, "?".into()),
                    });
                }
            }
            I::ExternCrate(x) => {
                self.f(F_KIND, "extern crate".into());
                self.attrs(&x.attrs, false);
                self.vis(&x.vis);
                self.f(F_MISC, format!("crate {} as {}", x.ident, x.rename.as_ref().map(|r| r.1.to_string()).unwrap_or_default()));
            }
            _ => self.f(F_KIND, "?".into()),
        }
    }
}
fn colon(c: bool, s: String) -> String {
    if c {
        format!(": {s}")
    } else {
        String::new()
    }
}
fn block(b: &syn::Block, attrs: &[syn::Attribute]) -> String {
    let mut s = String::from("{ ");
    for a in attrs.iter().filter(|a| matches!(a.style, syn::AttrStyle::Inner(_))) {
        s.push_str(&w(a));
    }
    for x in &b.stmts {
        s.push_str(&w(x));
    }
    s.push_str("} ");
    s
}

// ---- facts, as the library reports them -----------------------------------------------------------
impl S {
    fn vattrs(&mut self, a: &[v::Attribute], inner: &[v::Attribute]) {
        for x in a {
            self.f(F_ATTR, format!("attr {}", w(x)));
        }
        for x in inner {
            self.f(F_ATTR, format!("inner {}", w(x)));
        }
    }
    fn vvis(&mut self, x: &Option<v::VisMarker>) {
        self.f(F_VIS, format!("vis {}", x.as_ref().map(w).unwrap_or_default()));
    }
    fn vgen(&mut self, g: &Option<v::GenericParamList>, c: &Option<v::WhereClause>) {
        for p in g.iter().flat_map(|g| g.params.items()) {
            let k = if p.is_lifetime() {
                "lifetime"
            } else if p.is_const() {
                "const"
            } else if p.is_ty() {
                "type"
            } else {
                "?"
            };
            let b = p.bound.as_ref().map(|b| colon(true, wv(&b.tokens))).unwrap_or_default();
            self.f(F_GEN, format!("param {k} {} {b}", p.name));
        }
        self.vwher(c);
    }
    fn vwher(&mut self, c: &Option<v::WhereClause>) {
        if let Some(c) = c {
            self.f(F_GEN, "where".into());
            for p in c.items.items() {
                self.f(F_GEN, format!("pred {}| {}", wv(&p.left_side), wv(&p.bound.tokens)));
            }
        }
    }
    fn vfields(&mut self, f: &v::Fields) {
        match f {
            v::Fields::Unit => self.f(F_FIELD, "unit".into()),
            v::Fields::Named(n) => self.vnamed(n),
            v::Fields::Tuple(n) => {
                self.f(F_FIELD, "tuple".into());
                for x in n.fields.items() {
                    self.sub("field", |s| {
                        s.vattrs(&x.attributes, &[]);
                        s.vvis(&x.vis_marker);
                        s.f(F_FIELD, w(&x.ty));
                    });
                }
            }
        }
    }
    fn vnamed(&mut self, n: &v::NamedFields) {
        self.f(F_FIELD, "named".into());
        for x in n.fields.items() {
            self.sub("field", |s| {
                s.vattrs(&x.attributes, &[]);
                s.vvis(&x.vis_marker);
                s.f(F_FIELD, format!("{} : {}", x.name, w(&x.ty)));
            });
        }
    }
    fn vfn(&mut self, f: &v::Function) {
        self.f(F_KIND, "fn".into());
        self.vattrs(&f.attributes, &[]);
        self.vvis(&f.vis_marker);
        let q = &f.qualifiers;
        let b = |x: bool, n: &str| if x { format!("{n} ") } else { String::new() };
        let abi = q.extern_abi.as_ref().map(|l| format!("{l} ")).unwrap_or_default();
        self.f(
            F_FN,
            format!(
                "qualifiers {}{}{}{}{}{abi}",
                b(q.tk_default.is_some(), "default"),
                b(q.tk_const.is_some(), "const"),
                b(q.tk_async.is_some(), "async"),
                b(q.tk_unsafe.is_some(), "unsafe"),
                b(q.tk_extern.is_some(), "extern")
            ),
        );
        self.f(F_NAME, format!("name {}", f.name));
        self.vgen(&f.generic_params, &f.where_clause);
        for a in f.params.items() {
            self.sub("arg", |s| match a {
                v::FnParam::Receiver(r) => {
                    s.vattrs(&r.attributes, &[]);
                    let l = r.tk_ref.as_ref().map(|_| format!("& {}", r.lifetime.as_ref().map(w).unwrap_or_default())).unwrap_or_default();
                    s.f(F_FN, format!("receiver {l}{}self", if r.tk_mut.is_some() { "mut " } else { "" }));
                }
                v::FnParam::Typed(t) => {
                    s.vattrs(&t.attributes, &[]);
                    s.f(F_FN, format!("typed {}{} : {}", if t.tk_mut.is_some() { "mut " } else { "" }, t.name, w(&t.ty)));
                }
            });
        }
        if let Some(t) = &f.return_ty {
            self.f(F_FN, format!("returns {}", w(t)));
        }
        self.f(F_FN, format!("body {}", f.body.as_ref().map(w).unwrap_or_else(|| "none".into())));
    }
    fn vconst(&mut self, c: &v::Constant) {
        let k = if c.is_static() { "static" } else { "const" };
        self.f(F_KIND, k.into());
        self.vattrs(&c.attributes, &[]);
        self.vvis(&c.vis_marker);
        let m = if c.tk_mut.is_some() { "mut " } else { "" };
        self.f(F_MISC, format!("{k} {m}{} : {}= {}", c.name, w(&c.ty), c.initializer.as_ref().map(w).unwrap_or_default()));
    }
    fn valias(&mut self, c: &v::TypeAlias) {
        self.f(F_KIND, "type".into());
        self.vattrs(&c.attributes, &[]);
        self.vvis(&c.vis_marker);
        let b = c.bound.as_ref().map(|b| colon(true, wv(&b.tokens))).unwrap_or_default();
        self.f(F_MISC, format!("type {} {b} = {}", c.name, c.initializer_ty.as_ref().map(w).unwrap_or_default()));
    }
    fn vmac(&mut self, m: &v::Macro) {
        self.f(F_KIND, "macro".into());
        self.vattrs(&m.attributes, &[]);
        self.f(F_MISC, format!("macro {} {} {}", m.name, m.tk_declared_name.as_ref().map(|i| i.to_string()).unwrap_or_default(), wv(&m.inner_tokens)));
    }
    fn vitem(&mut self, i: &v::Item) {
        use v::Item as I;
        match i {
            I::Struct(x) => {
                self.f(F_KIND, "struct".into());
                self.f(F_NAME, format!("name {}", x.name));
                self.vattrs(&x.attributes, &[]);
                self.vvis(&x.vis_marker);
                self.vgen(&x.generic_params, &x.where_clause);
                self.vfields(&x.fields);
            }
            I::Enum(x) => {
                self.f(F_KIND, "enum".into());
                self.f(F_NAME, format!("name {}", x.name));
                self.vattrs(&x.attributes, &[]);
                self.vvis(&x.vis_marker);
                self.vgen(&x.generic_params, &x.where_clause);
                for q in x.variants.items() {
                    self.sub("variant", |s| {
                        s.vattrs(&q.attributes, &[]);
                        s.f(F_FIELD, format!("{}", q.name));
                        s.vfields(&q.fields);
                        s.f(F_FIELD, format!("= {}", q.value.as_ref().map(|d| w(&d.value)).unwrap_or_default()));
                    });
                }
            }
            I::Union(x) => {
                self.f(F_KIND, "union".into());
                self.f(F_NAME, format!("name {}", x.name));
                self.vattrs(&x.attributes, &[]);
                self.vvis(&x.vis_marker);
                self.vgen(&x.generic_params, &x.where_clause);
                self.vnamed(&x.fields);
            }
            I::Module(x) => {
                self.f(F_KIND, "mod".into());
                self.f(F_NAME, format!("name {}", x.name));
                self.vattrs(&x.attributes, &x.inner_attributes);
                self.vvis(&x.vis_marker);
                self.f(F_BLOCK, format!("unsafe {} body {}", x.tk_unsafe.is_some(), x.tk_braces.is_some()));
                for m in &x.members {
                    self.sub("member", |s| s.vitem(m));
                }
            }
            I::Trait(x) => {
                self.f(F_KIND, "trait".into());
                self.f(F_NAME, format!("name {}", x.name));
                self.vattrs(&x.attributes, &x.inner_attributes);
                self.vvis(&x.vis_marker);
                self.vgen(&x.generic_params, &x.where_clause);
                self.f(F_BLOCK, format!("unsafe {}", x.tk_unsafe.is_some()));
                self.f(F_GEN, format!("bound {}", x.bound.as_ref().map(|b| colon(true, wv(&b.tokens))).unwrap_or_default()));
                for m in &x.body_items {
                    self.sub("member", |s| match m {
                        v::TraitMember::AssocFunction(f) => s.vfn(f),
                        v::TraitMember::AssocConstant(c) => s.vconst(c),
                        v::TraitMember::AssocType(c) => s.valias(c),
                        v::TraitMember::Macro(c) => s.vmac(c),
                        _ => s.f(F_KIND, "unknown".into()),
                    });
                }
            }
            I::Impl(x) => {
                self.f(F_KIND, "impl".into());
                self.vattrs(&x.attributes, &x.inner_attributes);
                self.vgen(&x.impl_generic_params, &x.where_clause);
                self.f(F_BLOCK, format!("unsafe {}", x.tk_unsafe.is_some()));
                self.f(F_BLOCK, format!("trait {}", x.trait_ty.as_ref().map(w).unwrap_or_default()));
                self.f(F_BLOCK, format!("self {}", w(&x.self_ty)));
                for m in &x.body_items {
                    self.sub("member", |s| match m {
                        v::ImplMember::AssocFunction(f) => s.vfn(f),
                        v::ImplMember::AssocConstant(c) => s.vconst(c),
                        v::ImplMember::AssocType(c) => s.valias(c),
                        v::ImplMember::Macro(c) => s.vmac(c),
                        _ => s.f(F_KIND, "unknown".into()),
                    });
                }
            }
            I::TypeAlias(c) => self.valias(c),
            I::Function(f) => self.vfn(f),
            I::Constant(c) => self.vconst(c),
            I::UseDeclaration(x) => {
                self.f(F_KIND, "use".into());
                self.vattrs(&x.attributes, &[]);
                self.vvis(&x.vis_marker);
                self.f(F_MISC, format!("use {}", w(&x.import_tree)));
            }
            I::Macro(m) => self.vmac(m),
            I::ExternBlock(x) => {
                self.f(F_KIND, "extern block".into());
                self.vattrs(&x.attributes, &x.inner_attributes);
                self.f(F_BLOCK, format!("unsafe {} abi {}", x.tk_unsafe.is_some(), x.extern_abi.as_ref().map(w).unwrap_or_default()));
                for m in &x.body_items {
                    self.sub("member", |s| s.vmember(m));
                }
            }
            I::ExternCrate(x) => {
                self.f(F_KIND, "extern crate".into());
                self.vattrs(&x.attributes, &[]);
                self.vvis(&x.vis_marker);
                self.f(F_MISC, format!("crate {} as {}", x.name, x.alias.as_ref().map(|r| r.to_string()).unwrap_or_default()));
            }
            _ => self.f(F_KIND, "unknown".into()),
        }
    }
    fn vmember(&mut self, m: &v::ImplMember) {
        match m {
            v::ImplMember::AssocFunction(f) => self.vfn(f),
            v::ImplMember::AssocConstant(c) => self.vconst(c),
            v::ImplMember::AssocType(c) => self.valias(c),
            v::ImplMember::Macro(c) => self.vmac(c),
            _ => self.f(F_KIND, "unknown".into()),
        }
    }
}

// ---- the corpus run ---------------------------------------------------------------------------------
use crate::choice::*;
use crate::cmp::{ev, evn};
use crate::run::*;
use crate::tok::*;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub fn files(dir: &Path, o: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<PathBuf> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, o);
        } else if p.extension().is_some_and(|e| e == "rs") {
            o.push(p);
        }
    }
}
fn tags_of(prop: &str) -> u32 {
    match prop {
        "C04" => F_KIND | F_NAME | F_ATTR,
        "C05" => F_FIELD,
        "C07" => F_FN,
        "C08" => F_GEN,
        "C09" => F_BLOCK | F_KIND,
        "C10" => F_ATTR | F_VIS,
        "C11" => F_MISC,
        _ => 0,
    }
}
pub struct Corpus<'a> {
    prop: &'a str,
    edits: u32,
    g: G,
    pub evals: u64,
    pub tokens: u64,
    pub hashes: HashSet<u64>,
    pub last: String,
}
fn words_r(t: &[R]) -> String {
    let mut s = String::new();
    words(to_ts(t), &mut s);
    s
}
impl Corpus<'_> {
    fn begin(&mut self, t: &[R], file: &str) {
        finalize(t, SpaceMode::MaxJoint, &mut 1);
        self.last = format!("{file}: {}", show(t));
        crate::cov::reset_steps(limit_for(count(t)));
        crate::cov::record(true);
        self.g.rec.clear();
        self.evals += 1;
        self.tokens += count(t) as u64;
        self.hashes.insert(shape_hash(t));
    }
    fn item(&mut self, i: &syn::Item, t: &[R], file: &str) -> Result<(), String> {
        if count(t) > 40_000 {
            return Ok(());
        }
        let uns = unsupported(i);
        ev(if uns { "corpus.outside_the_supported_syntax" } else { "corpus.items" });
        match self.prop {
            "C01" => {
                self.begin(t, file);
                crate::drv::roundtrip(t)?;
                for _ in 0..self.edits {
                    if count(t) > 3000 {
                        break;
                    }
                    let mut u: Ts = t.iter().map(fresh).collect();
                    for _ in 0..1 + self.g.below(2) {
                        u = crate::malform::edit(&mut self.g, &u);
                    }
                    self.begin(&u, file);
                    crate::drv::roundtrip(&u)?;
                }
            }
            "C02" => {
                self.begin(t, file);
                if let P::Item(it) = parse(to_ts(t)) {
                    let q: TokenStream = it.to_token_stream();
                    if eq_it(t, q.clone().into_iter(), Chk { spacing: true, span: false }).is_ok() {
                        eq_it(t, q.into_iter(), Chk { spacing: true, span: true })?;
                    }
                }
            }
            "C03" if !uns => {
                self.begin(t, file);
                parse_valid(t)?;
            }
            _ if !uns && tags_of(self.prop) != 0 => {
                self.begin(t, file);
                let it = parse_valid(t)?;
                let mut a = S(vec![], String::new());
                a.item(i);
                let mut b = S(vec![], String::new());
                b.vitem(&it);
                let tags = tags_of(self.prop);
                let x: Vec<_> = a.0.iter().filter(|f| f.0 & tags != 0).collect();
                let y: Vec<_> = b.0.iter().filter(|f| f.0 & tags != 0).collect();
                evn("corpus.facts_compared", x.len() as u64);
                for k in 0..x.len().max(y.len()) {
                    if x.get(k) != y.get(k) {
                        return Err(format!(
                            "an independent parser sees `{}` where the library reports `{}`",
                            x.get(k).map(|x| clip(&x.1)).unwrap_or_default(),
                            y.get(k).map(|x| clip(&x.1)).unwrap_or_default()
                        ));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn run_of(&mut self, run: &mut Vec<(usize, usize)>, t: &[R], file: &str) -> Result<(), String> {
        // consecutive supported items, consumed one after another
        let Some(&(a, _)) = run.first() else { return Ok(()) };
        let b = run.last().unwrap().1;
        let s = &t[a..b];
        if count(s) <= 60_000 {
            self.begin(s, file);
            crate::cov::reset_steps(limit_for(count(s)) * 8);
            let ends: Vec<usize> = run.iter().map(|x| x.1 - a).collect();
            let ts = to_ts(s);
            let mut it = ts.into_iter().peekable();
            for (n, &e) in ends.iter().enumerate() {
                let r = guarded(|| v::consume_item(&mut it));
                match r {
                    Ok(Ok(_)) => {}
                    Ok(Err(x)) => return Err(format!("consume_item: item {n} of the file refused: {x}")),
                    Err(x) => return Err(format!("consume_item: item {n} of the file refused: {x}")),
                }
                ev("corpus.boundaries");
                if ends.len() < 40 || n % 16 == 0 || n + 1 == ends.len() {
                    eq_it(&s[e..], it.clone(), Chk { spacing: true, span: true })
                        .map_err(|m| format!("after item {n} the iterator is not at the next item: {m}"))?;
                }
            }
        }
        run.clear();
        Ok(())
    }
    fn list(&mut self, items: &[syn::Item], t: &[R], file: &str) -> Result<(), String> {
        let mut at = 0;
        let mut run = vec![];
        for i in items {
            let ts = i.to_token_stream();
            let n = ts.clone().into_iter().count();
            if at + n > t.len() {
                ev("corpus.unaligned");
                break;
            }
            let s = &t[at..at + n];
            let mut a = String::new();
            words(ts, &mut a);
            if a != words_r(s) {
                ev("corpus.unaligned");
                break;
            }
            if self.prop == "C12" {
                if unsupported(i) {
                    self.run_of(&mut run, t, file)?;
                } else {
                    run.push((at, at + n));
                    if run.len() >= 60 {
                        self.run_of(&mut run, t, file)?;
                    }
                }
            } else {
                self.item(i, s, file)?;
            }
            if let syn::Item::Mod(m) = i {
                if let Some((_, sub)) = &m.content {
                    let skip: usize = m.attrs.iter().filter(|a| matches!(a.style, syn::AttrStyle::Inner(_))).map(|a| a.to_token_stream().into_iter().count()).sum();
                    let inner = s.last().unwrap().inner();
                    self.list(sub, &inner[skip.min(inner.len())..], file)?;
                }
            }
            at += n;
        }
        if self.prop == "C12" {
            self.run_of(&mut run, t, file)?;
        }
        Ok(())
    }
}

pub struct CorpusOpts {
    pub dir: String,
    pub seed: u64,
    pub index: u64,
    pub of: u64,
    /// percent of the files
    pub pct: u64,
    pub edits: u32,
    pub ms: u64,
    pub keep_going: bool,
    pub out: String,
}
pub fn corpus(prop: &str, o: &CorpusOpts, dict: Rc<Dict>) -> i32 {
    crate::cov::on_limit(|| {
        println!("HANG");
        std::process::exit(77)
    });
    let mut fs = vec![];
    files(Path::new(&o.dir), &mut fs);
    let mut r = Rng(o.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xC0FFEE);
    let t0 = std::time::Instant::now();
    let g = G::new(o.seed ^ o.index << 32, Rc::new(vec![]), dict, Focus { kinds: crate::drv::ALL, ..Focus::default() });
    let mut c = Corpus { prop, edits: o.edits, g, evals: 0, tokens: 0, hashes: HashSet::new(), last: String::new() };
    let mut rc = 0;
    let mut n = 0u64;
    for f in fs {
        if r.below(100) as u64 >= o.pct {
            continue;
        }
        n += 1;
        if n % o.of != o.index || t0.elapsed().as_millis() as u64 > o.ms {
            continue;
        }
        let Ok(src) = std::fs::read_to_string(&f) else { continue };
        if src.len() > 1_500_000 {
            ev("corpus.files_too_large");
            continue;
        }
        let Ok(ts) = src.parse::<TokenStream>() else {
            ev("corpus.files_unlexable");
            continue;
        };
        let Ok(file) = syn::parse2::<syn::File>(ts.clone()) else {
            ev("corpus.files_unparsable");
            continue;
        };
        let skip: usize = file.attrs.iter().map(|a| a.to_token_stream().into_iter().count()).sum();
        let t = from_ts(ts);
        finalize(&t, SpaceMode::MaxJoint, &mut 1);
        if skip > t.len() {
            continue;
        }
        ev("corpus.files");
        let name = f.to_string_lossy().to_string();
        if let Err(m) = c.list(&file.items, &t[skip..], &name) {
            let txt = format!("{m}\nproperty {prop}\n{}\n", c.last);
            std::fs::write(format!("{}.replay", o.out), txt).unwrap();
            println!("FAIL {name}: {}", one_line(&m));
            rc = 1;
            if !o.keep_going {
                break;
            }
            println!("   {}", c.last.chars().take(700).collect::<String>());
        }
    }
    println!("stat evaluations {}", c.evals);
    println!("stat corpus_tokens {}", c.tokens);
    println!("stat nontrivial {}", c.evals);
    for (k, v) in crate::cmp::events() {
        println!("event {k} {v}");
    }
    let mut b = vec![];
    for h in c.hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}.hashes", o.out), b);
    println!("done {rc}");
    rc
}
