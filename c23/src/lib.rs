//! The monitor as a procedural macro: runs inside rustc, on the compiler's own token streams.
use proc_macro::TokenStream as PTs;
use proc_macro2::{Ident, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vhl::cmp::*;
use vhl::tok::*;

fn log(kind: &str, id: &str, verdict: &str) {
    if let Ok(p) = std::env::var("VH_LOG") {
        let v = verdict.replace('\n', "\\n");
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(p).expect("log");
        f.write_all(format!("{kind}\t{id}\t{v}\n").as_bytes()).expect("log");
    }
}
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
fn sp(s: Span) -> String {
    // text, byte range and expansion context, as the compiler shows it
    format!("{:?}", s.unwrap())
}
/// the same tokens: text, nesting, spacing, location
fn same(a: TokenStream, b: TokenStream, n: &mut u64) -> Result<(), String> {
    let (mut x, mut y) = (a.into_iter(), b.into_iter());
    loop {
        match (x.next(), y.next()) {
            (None, None) => return Ok(()),
            (Some(p), None) => return Err(format!("`{p}` was dropped")),
            (None, Some(q)) => return Err(format!("`{q}` was added")),
            (Some(p), Some(q)) => {
                *n += 1;
                match (&p, &q) {
                    (TokenTree::Ident(i), TokenTree::Ident(j)) if i.to_string() == j.to_string() => {}
                    (TokenTree::Literal(i), TokenTree::Literal(j)) if i.to_string() == j.to_string() => {}
                    (TokenTree::Punct(i), TokenTree::Punct(j)) if i.as_char() == j.as_char() => {
                        if i.spacing() != j.spacing() {
                            return Err(format!("spacing of `{p}` changed"));
                        }
                    }
                    (TokenTree::Group(i), TokenTree::Group(j)) if i.delimiter() == j.delimiter() => {
                        same(i.stream(), j.stream(), n)?;
                    }
                    _ => return Err(format!("`{p}` became `{q}`")),
                }
                if sp(p.span()) != sp(q.span()) {
                    return Err(format!("location of `{p}` changed from {} to {}", sp(p.span()), sp(q.span())));
                }
            }
        }
    }
}
/// first byte and byte after the last, as the compiler shows them
fn bytes(s: Span) -> (usize, usize) {
    let t = sp(s);
    let t = t.split_once("bytes(").map_or("", |x| x.1);
    let (a, b) = t.trim_end_matches(')').split_once("..").unwrap_or(("", ""));
    (a.parse().unwrap_or(0), b.parse().unwrap_or(0))
}
/// copies the compiler's spacing and locations into the model's tokens; false if they are not the same text
fn adopt(m: &[R], ts: TokenStream) -> bool {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    v.len() == m.len()
        && m.iter().zip(v).all(|(e, t)| {
            let (a, b) = bytes(t.span());
            e.id.set(a as u32);
            e.id2.set(b as u32);
            match (&e.k, t) {
            (K::Id(s), TokenTree::Ident(i)) => i.to_string() == **s,
            (K::Lit(s), TokenTree::Literal(l)) => l.to_string() == **s,
            (K::P(c), TokenTree::Punct(x)) => {
                e.joint.set(x.spacing() == Spacing::Joint);
                x.as_char() == *c
            }
            (K::G(d, i), TokenTree::Group(g)) => g.delimiter() == d.pm() && adopt(i, g.stream()),
            _ => false,
        }})
}
/// parse, quote, compare; gives the tokens to continue with
fn observe(ts: TokenStream) -> Result<(venial::Item, u64), String> {
    let p = quiet(|| venial::parse_item(ts.clone()));
    let it = match p {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => return Err(format!("refused error {e}")),
        Err(m) => return Err(format!("refused panic {m}")),
    };
    let mut n = 0;
    same(ts, it.to_token_stream(), &mut n).map_err(|m| format!("FAIL quoting: {m}"))?;
    let first = it.to_token_stream().into_iter().next().map(|t| t.span());
    let s = quiet(|| it.span()).map_err(|m| format!("FAIL span() panicked: {m}"))?;
    if let Some(f) = first {
        // joined where the compiler can, otherwise the first token
        if s.unwrap().start().line() != f.unwrap().start().line() || s.unwrap().start().column() != f.unwrap().start().column() {
            return Err(format!("FAIL span() starts at {}, the first token at {}", sp(s), sp(f)));
        }
    }
    Ok((it, n))
}

/// `mon! { <seed> tokens }`: the tokens are those of the generated declaration number `seed`
#[proc_macro]
pub fn mon(input: PTs) -> PTs {
    let mut it = TokenStream::from(input).into_iter();
    let id = it.next().expect("seed").to_string();
    let ts: TokenStream = it.collect();
    let r = quiet(|| -> Result<String, String> {
        let _ = COMPILER.set(bytes);
        let (model, toks) = c23_model(id.parse().unwrap());
        if !adopt(&toks, ts.clone()) {
            return Err("HARNESS the compiler's tokens differ from the generated text".into());
        }
        let (item, n) = observe(ts).map_err(|m| if m.starts_with("refused") { format!("FAIL {m}") } else { m })?;
        let mut c = Cmp::new(STRUCT | PATH | QUERY | ACCESS | QUOTE | SPAN);
        c.item(&model, &item);
        match c.fails.first() {
            Some(f) => Err(format!("FAIL {}", f.msg)),
            None => Ok(format!("ok {n}")),
        }
    });
    let v = match r {
        Ok(Ok(s)) | Ok(Err(s)) => s,
        Err(m) => format!("HARNESS {m}"),
    };
    log("mon", &id, &v);
    PTs::new()
}
fn c23_model(seed: u64) -> (vhl::model::MItem, Ts) {
    vhl::c23::model(seed)
}

/// what the library says about an item, in one line without blanks
fn shape(item: &venial::Item) -> String {
    use venial::*;
    let tx = |t: TokenStream| text(&t);
    let at = |a: &[Attribute]| {
        a.iter().map(|a| tx(a.to_token_stream())).collect::<String>()
    };
    let vis = |v: &Option<VisMarker>| format!("<{}>", tx(v.to_token_stream()));
    let ty = |t: &TypeExpr| {
        let mut s = tx(t.to_token_stream());
        if let Some(p) = t.as_path() {
            s += "/";
            s += &p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("/");
        }
        s
    };
    let gen = |g: &Option<GenericParamList>| match g {
        None => String::new(),
        Some(g) => format!("<{}>", g.params.iter().map(|(p, _)| format!("{}:{}", p.name, p.bound.as_ref().map(|b| tx(b.tokens.iter().cloned().collect())).unwrap_or_default())).collect::<Vec<_>>().join("|")),
    };
    let wh = |w: &Option<WhereClause>| match w {
        None => String::new(),
        Some(w) => format!("where[{}]", w.items.iter().map(|(p, _)| format!("{}:{}", tx(p.left_side.iter().cloned().collect()), tx(p.bound.tokens.iter().cloned().collect()))).collect::<Vec<_>>().join("|")),
    };
    let fields = |f: &Fields| match f {
        Fields::Unit => ";".to_string(),
        Fields::Tuple(t) => format!("({})", t.fields.iter().map(|(f, _)| format!("{}{}{}", at(&f.attributes), vis(&f.vis_marker), ty(&f.ty))).collect::<Vec<_>>().join("|")),
        Fields::Named(t) => format!("{{{}}}", t.fields.iter().map(|(f, _)| format!("{}{}{}:{}", at(&f.attributes), vis(&f.vis_marker), f.name, ty(&f.ty))).collect::<Vec<_>>().join("|")),
    };
    let func = |f: &Function| {
        let ps = f.params.iter().map(|(p, _)| match p {
            FnParam::Receiver(r) => tx(r.to_token_stream()),
            FnParam::Typed(t) => format!("{}{}:{}", if t.tk_mut.is_some() { "mut" } else { "" }, t.name, ty(&t.ty)),
        });
        format!("{}{}fn{}{}({}){}{}{}", at(&f.attributes), vis(&f.vis_marker), f.name, gen(&f.generic_params), ps.collect::<Vec<_>>().join("|"),
            f.return_ty.as_ref().map(|t| format!("->{}", ty(t))).unwrap_or_default(), wh(&f.where_clause),
            if f.body.is_some() { "{}" } else { ";" })
    };
    let cons = |c: &Constant| format!("{}{}{}{}{}:{}={}", at(&c.attributes), vis(&c.vis_marker), c.tk_const_or_static,
        if c.tk_mut.is_some() { "mut" } else { "" }, c.name, ty(&c.ty), tx(c.initializer.to_token_stream()));
    let alias = |c: &TypeAlias| format!("{}{}type{}:{}={}", at(&c.attributes), vis(&c.vis_marker), c.name,
        c.bound.as_ref().map(|b| tx(b.tokens.iter().cloned().collect())).unwrap_or_default(), c.initializer_ty.as_ref().map(&ty).unwrap_or_default());
    let mac = |m: &Macro| format!("{}{}!{}[{}]", at(&m.attributes), m.name, m.tk_declared_name.as_ref().map(|i| i.to_string()).unwrap_or_default(),
        tx(m.inner_tokens.iter().cloned().collect()));
    let imem = |m: &ImplMember| match m {
        ImplMember::AssocFunction(f) => func(f),
        ImplMember::AssocConstant(c) => cons(c),
        ImplMember::AssocType(a) => alias(a),
        ImplMember::Macro(m) => mac(m),
        _ => "?".into(),
    };
    let s = match item {
        Item::Struct(s) => format!("{}{}struct{}{}{}{}", at(&s.attributes), vis(&s.vis_marker), s.name, gen(&s.generic_params), wh(&s.where_clause), fields(&s.fields)),
        Item::Union(s) => format!("{}{}union{}{}{}{}", at(&s.attributes), vis(&s.vis_marker), s.name, gen(&s.generic_params), wh(&s.where_clause),
            fields(&Fields::Named(s.fields.clone()))),
        Item::Enum(s) => format!("{}{}enum{}{}{}[{}]", at(&s.attributes), vis(&s.vis_marker), s.name, gen(&s.generic_params), wh(&s.where_clause),
            s.variants.iter().map(|(v, _)| format!("{}{}{}{}", at(&v.attributes), v.name, fields(&v.fields),
                v.value.as_ref().map(|d| format!("={}", tx(d.value.to_token_stream()))).unwrap_or_default())).collect::<Vec<_>>().join("|")),
        Item::Function(f) => func(f),
        Item::Constant(c) => cons(c),
        Item::TypeAlias(a) => alias(a),
        Item::Macro(m) => mac(m),
        Item::UseDeclaration(u) => format!("{}{}use{}", at(&u.attributes), vis(&u.vis_marker), tx(u.import_tree.to_token_stream())),
        Item::ExternCrate(u) => format!("{}{}crate{}as{}", at(&u.attributes), vis(&u.vis_marker), u.name, u.alias.as_ref().map(|i| i.to_string()).unwrap_or_default()),
        Item::Impl(i) => format!("{}impl{}{}for{}{}[{}]", at(&i.attributes), gen(&i.impl_generic_params), i.trait_ty.as_ref().map(&ty).unwrap_or_default(), ty(&i.self_ty),
            wh(&i.where_clause), i.body_items.iter().map(imem).collect::<Vec<_>>().join("||")),
        Item::Trait(t) => format!("{}{}trait{}{}:{}{}[{}]", at(&t.attributes), vis(&t.vis_marker), t.name, gen(&t.generic_params),
            t.bound.as_ref().map(|b| tx(b.tokens.iter().cloned().collect())).unwrap_or_default(), wh(&t.where_clause),
            t.body_items.iter().map(|m| match m {
                TraitMember::AssocFunction(f) => func(f),
                TraitMember::AssocConstant(c) => cons(c),
                TraitMember::AssocType(a) => alias(a),
                TraitMember::Macro(m) => mac(m),
                _ => "?".into(),
            }).collect::<Vec<_>>().join("||")),
        Item::Module(m) => format!("{}{}mod{}[{}]", at(&m.attributes), vis(&m.vis_marker), m.name, m.members.iter().map(shape).collect::<Vec<_>>().join("||")),
        Item::ExternBlock(b) => format!("{}extern{}[{}]", at(&b.attributes), b.extern_abi.as_ref().map(|l| l.to_string()).unwrap_or_default(), b.body_items.iter().map(|m| imem(m)).collect::<Vec<_>>().join("||")),
        _ => "?".into(),
    };
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// the parts of an item a macro may want to complain about: name, tokens, span()
fn parts(it: &venial::Item) -> Vec<(String, TokenStream, Option<Span>)> {
    use venial::*;
    type O = Vec<(String, TokenStream, Option<Span>)>;
    fn put(o: &mut O, n: String, t: &dyn Fn() -> TokenStream, s: Option<Span>) {
        o.push((n, t(), s));
    }
    fn at(o: &mut O, pre: &str, a: &[Attribute]) {
        for (i, a) in a.iter().enumerate() {
            put(o, format!("{pre}attr{i}"), &|| a.to_token_stream(), Some(a.span()));
            put(o, format!("{pre}attr{i}_value"), &|| a.value.to_token_stream(), Some(a.value.span()));
        }
    }
    fn vis(o: &mut O, pre: &str, v: &Option<VisMarker>) {
        if let Some(v) = v {
            put(o, format!("{pre}vis"), &|| v.to_token_stream(), Some(v.span()));
        }
    }
    fn ty(o: &mut O, pre: &str, n: &str, t: &TypeExpr) {
        put(o, format!("{pre}{n}"), &|| t.to_token_stream(), Some(t.span()));
        if let Some(p) = t.as_path() {
            for (i, s) in p.segments.iter().enumerate() {
                put(o, format!("{pre}{n}_seg{i}"), &|| s.ident.to_token_stream(), Some(s.ident.span()));
            }
        }
    }
    fn gen(o: &mut O, pre: &str, g: Option<&GenericParamList>, w: Option<&WhereClause>) {
        if let Some(g) = g {
            put(o, format!("{pre}generics"), &|| g.to_token_stream(), Some(g.span()));
            for (i, (p, _)) in g.params.iter().enumerate() {
                put(o, format!("{pre}generic{i}"), &|| p.to_token_stream(), Some(p.span()));
                if let Some(b) = &p.bound {
                    put(o, format!("{pre}generic{i}_bound"), &|| b.to_token_stream(), Some(b.span()));
                }
            }
        }
        if let Some(w) = w {
            put(o, format!("{pre}where"), &|| w.to_token_stream(), Some(w.span()));
            for (i, (p, _)) in w.items.iter().enumerate() {
                put(o, format!("{pre}where{i}"), &|| p.to_token_stream(), Some(p.span()));
                put(o, format!("{pre}where{i}_bound"), &|| p.bound.to_token_stream(), Some(p.bound.span()));
            }
        }
    }
    fn named(o: &mut O, pre: &str, n: &NamedFields) {
        for (i, (f, _)) in n.fields.iter().enumerate() {
            let q = format!("{pre}field{i}_");
            put(o, format!("{pre}field{i}"), &|| f.to_token_stream(), Some(f.span()));
            put(o, format!("{q}name"), &|| f.name.to_token_stream(), Some(f.name.span()));
            at(o, &q, &f.attributes);
            vis(o, &q, &f.vis_marker);
            ty(o, &q, "ty", &f.ty);
        }
    }
    fn fields(o: &mut O, pre: &str, f: &Fields) {
        match f {
            Fields::Unit => {}
            Fields::Named(n) => {
                put(o, format!("{pre}fields"), &|| f.to_token_stream(), Some(f.span()));
                named(o, pre, n)
            }
            Fields::Tuple(t) => {
                put(o, format!("{pre}fields"), &|| f.to_token_stream(), Some(f.span()));
                for (i, (f, _)) in t.fields.iter().enumerate() {
                    let q = format!("{pre}field{i}_");
                    put(o, format!("{pre}field{i}"), &|| f.to_token_stream(), Some(f.span()));
                    at(o, &q, &f.attributes);
                    vis(o, &q, &f.vis_marker);
                    ty(o, &q, "ty", &f.ty);
                }
            }
        }
    }
    fn func(o: &mut O, pre: &str, f: &Function) {
        at(o, pre, &f.attributes);
        vis(o, pre, &f.vis_marker);
        gen(o, pre, f.generic_params.as_ref(), f.where_clause.as_ref());
        put(o, format!("{pre}name"), &|| f.name.to_token_stream(), Some(f.name.span()));
        put(o, format!("{pre}quals"), &|| f.qualifiers.to_token_stream(), None);
        for (i, (p, _)) in f.params.iter().enumerate() {
            let q = format!("{pre}param{i}_");
            put(o, format!("{pre}param{i}"), &|| p.to_token_stream(), None);
            match p {
                FnParam::Receiver(r) => at(o, &q, &r.attributes),
                FnParam::Typed(t) => {
                    at(o, &q, &t.attributes);
                    ty(o, &q, "ty", &t.ty);
                }
            }
        }
        if let Some(t) = &f.return_ty {
            ty(o, pre, "ret", t);
        }
        if let Some(b) = &f.body {
            put(o, format!("{pre}body"), &|| b.to_token_stream(), Some(b.span()));
        }
    }
    fn cons(o: &mut O, pre: &str, c: &Constant) {
        at(o, pre, &c.attributes);
        vis(o, pre, &c.vis_marker);
        ty(o, pre, "ty", &c.ty);
        if let Some(i) = &c.initializer {
            put(o, format!("{pre}init"), &|| i.to_token_stream(), None);
        }
    }
    fn alias(o: &mut O, pre: &str, a: &TypeAlias) {
        at(o, pre, &a.attributes);
        vis(o, pre, &a.vis_marker);
        if let Some(b) = &a.bound {
            put(o, format!("{pre}bound"), &|| b.to_token_stream(), Some(b.span()));
        }
        if let Some(t) = &a.initializer_ty {
            ty(o, pre, "ty", t);
        }
    }
    fn item(o: &mut O, pre: &str, it: &Item) {
        put(o, format!("{pre}all"), &|| it.to_token_stream(), Some(it.span()));
        match it {
            Item::Struct(s) => {
                at(o, pre, &s.attributes);
                vis(o, pre, &s.vis_marker);
                gen(o, pre, s.generic_params.as_ref(), s.where_clause.as_ref());
                fields(o, pre, &s.fields);
            }
            Item::Union(s) => {
                at(o, pre, &s.attributes);
                vis(o, pre, &s.vis_marker);
                gen(o, pre, s.generic_params.as_ref(), s.where_clause.as_ref());
                named(o, pre, &s.fields);
            }
            Item::Enum(s) => {
                at(o, pre, &s.attributes);
                vis(o, pre, &s.vis_marker);
                gen(o, pre, s.generic_params.as_ref(), s.where_clause.as_ref());
                for (i, (v, _)) in s.variants.iter().enumerate() {
                    let q = format!("{pre}variant{i}_");
                    put(o, format!("{pre}variant{i}"), &|| v.to_token_stream(), Some(v.span()));
                    at(o, &q, &v.attributes);
                    fields(o, &q, &v.fields);
                    if let Some(x) = &v.value {
                        put(o, format!("{q}value"), &|| x.value.to_token_stream(), None);
                        put(o, format!("{q}eqvalue"), &|| x.to_token_stream(), Some(x.span()));
                    }
                }
            }
            Item::Function(f) => func(o, pre, f),
            Item::Constant(c) => cons(o, pre, c),
            Item::TypeAlias(a) => alias(o, pre, a),
            Item::Module(m) => {
                at(o, pre, &m.attributes);
                at(o, &format!("{pre}inner_"), &m.inner_attributes);
                for (i, m) in m.members.iter().enumerate() {
                    item(o, &format!("{pre}member{i}_"), m);
                }
            }
            Item::Impl(m) => {
                gen(o, pre, m.impl_generic_params.as_ref(), m.where_clause.as_ref());
                if let Some(t) = &m.trait_ty {
                    ty(o, pre, "trait", t);
                }
                ty(o, pre, "self", &m.self_ty);
                at(o, &format!("{pre}inner_"), &m.inner_attributes);
                for (i, m) in m.body_items.iter().enumerate() {
                    let q = format!("{pre}member{i}_");
                    put(o, format!("{q}all"), &|| m.to_token_stream(), None);
                    match m {
                        ImplMember::AssocFunction(f) => func(o, &q, f),
                        ImplMember::AssocConstant(f) => cons(o, &q, f),
                        ImplMember::AssocType(f) => alias(o, &q, f),
                        _ => {}
                    }
                }
            }
            Item::Trait(m) => {
                vis(o, pre, &m.vis_marker);
                gen(o, pre, m.generic_params.as_ref(), m.where_clause.as_ref());
                if let Some(b) = &m.bound {
                    put(o, format!("{pre}bound"), &|| b.to_token_stream(), Some(b.span()));
                }
                for (i, m) in m.body_items.iter().enumerate() {
                    let q = format!("{pre}member{i}_");
                    put(o, format!("{q}all"), &|| m.to_token_stream(), None);
                    match m {
                        TraitMember::AssocFunction(f) => func(o, &q, f),
                        TraitMember::AssocConstant(f) => cons(o, &q, f),
                        TraitMember::AssocType(f) => alias(o, &q, f),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let mut o = vec![];
    item(&mut o, "", it);
    o
}
/// `#[blame(mode id part part ...)] item`: one error per part, at the part
#[proc_macro_attribute]
pub fn blame(args: PTs, input: PTs) -> PTs {
    let a: Vec<String> = args.into_iter().map(|t| t.to_string()).collect();
    let r = quiet(|| -> Result<TokenStream, String> {
        let it = venial::parse_item(TokenStream::from(input)).map_err(|e| format!("refused: {e}"))?;
        let ps = parts(&it);
        let mut es: Vec<venial::Error> = vec![];
        for n in &a[2..] {
            let (_, t, s) = ps.iter().find(|p| p.0 == *n).ok_or_else(|| format!("no part {n}"))?;
            let msg = format!("{} {n}", a[1]);
            es.push(match (a[0].as_str(), s) {
                ("tokens", _) | (_, None) => venial::Error::new_at_tokens(t, msg),
                ("span", Some(s)) => venial::Error::new_at_span(*s, msg),
                // the location of an error, reused for another one
                _ => venial::Error::new_at_span(venial::Error::new_at_tokens(t, "x").span(), msg),
            });
        }
        let mut es = es.into_iter();
        let mut e = es.next().ok_or("nothing asked")?;
        es.for_each(|x| e.combine(x));
        Ok(e.to_compile_error())
    });
    match r {
        Ok(Ok(t)) => t.into(),
        Ok(Err(m)) | Err(m) => {
            log("blame", &a[1], &format!("FAIL {m}"));
            PTs::new()
        }
    }
}

/// `#[mon_attr(id)] item`: swallowed after observation; `#[mon_keep(id)] item`: the quoted item is compiled on
fn attr(args: PTs, input: PTs, keep: bool) -> PTs {
    let id = args.to_string();
    let ts = TokenStream::from(input.clone());
    let (v, out) = match quiet(|| observe(ts)) {
        Ok(Ok((item, n))) => {
            let s = match quiet(|| shape(&item)) {
                Ok(s) => format!("ok {n}\t{s}"),
                Err(m) => format!("FAIL inspecting the item panicked: {m}"),
            };
            (s, item.to_token_stream())
        }
        Ok(Err(m)) => (m, TokenStream::new()),
        Err(m) => (format!("HARNESS {m}"), TokenStream::new()),
    };
    log("attr", &id, &v);
    if keep {
        out.into()
    } else {
        PTs::new()
    }
}
#[proc_macro_attribute]
pub fn mon_attr(args: PTs, input: PTs) -> PTs {
    attr(args, input, false)
}
#[proc_macro_attribute]
pub fn mon_keep(args: PTs, input: PTs) -> PTs {
    attr(args, input, true)
}

/// what an error-reporting macro does with the library's errors
#[proc_macro_attribute]
pub fn report(_args: PTs, input: PTs) -> PTs {
    match venial::parse_item(input.into()) {
        Ok(i) => i.to_token_stream().into(),
        Err(e) => {
            log("report", "0", &e.to_string());
            e.to_compile_error().into()
        }
    }
}
fn lit_text(t: &TokenTree) -> String {
    syn::parse2::<syn::LitStr>(t.clone().into()).expect("string").value()
}
/// `errs! { mode "text" {tokens} "text" {tokens} ... }`
#[proc_macro]
pub fn errs(input: PTs) -> PTs {
    let v: Vec<TokenTree> = TokenStream::from(input).into_iter().collect();
    let mode = v[0].to_string();
    let mut es: Vec<venial::Error> = v[1..]
        .chunks(2)
        .map(|c| {
            let t = lit_text(&c[0]);
            let TokenTree::Group(g) = &c[1] else { panic!() };
            let mut first = g.stream().into_iter();
            match mode.as_str() {
                "span" => venial::Error::new_at_span(first.next().unwrap().span(), t),
                "site" => venial::Error::new(t),
                _ => venial::Error::new_at_tokens(g.stream(), t),
            }
        })
        .collect();
    let mut e = es.remove(0);
    if mode == "right" {
        // combined from the right
        let mut acc = es.pop();
        while let Some(x) = es.pop() {
            let mut x = x;
            x.combine(acc.take().unwrap());
            acc = Some(x);
        }
        if let Some(a) = acc {
            e.combine(a);
        }
    } else {
        for x in es {
            e.combine(x);
        }
    }
    e.to_compile_error().into()
}

/// the way a derive macro uses the library
#[proc_macro_derive(Mon, attributes(helper))]
pub fn derive_mon(input: PTs) -> PTs {
    let ts = TokenStream::from(input);
    let r = quiet(|| derive(ts));
    match r {
        Ok(Ok((id, t))) => {
            log("derive", &id, "ok 1");
            t.into()
        }
        Ok(Err(m)) => {
            log("derive", "?", &m);
            PTs::new()
        }
        Err(m) => {
            log("derive", "?", &format!("FAIL panic {m}"));
            PTs::new()
        }
    }
}
fn text(t: &TokenStream) -> String {
    let mut s = String::new();
    for x in t.clone() {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                s.push_str(a);
                s.push_str(&text(&g.stream()));
                s.push_str(b);
            }
            x => {
                if s.chars().last().is_some_and(|c| c.is_alphanumeric() || c == '_')
                    && matches!(&x, TokenTree::Ident(_) | TokenTree::Literal(_))
                {
                    s.push(' ');
                }
                s.push_str(&x.to_string());
            }
        }
    }
    s
}
fn derive(ts: TokenStream) -> Result<(String, TokenStream), String> {
    let (item, _) = observe(ts)?;
    let name: Ident = item.name().ok_or("FAIL no name")?;
    let tr: TokenStream = quote!(::core::clone::Clone);
    let (args, wh, info, tys, vis) = match &item {
        venial::Item::Struct(s) => {
            let names = match &s.fields {
                venial::Fields::Unit => String::from("unit"),
                _ => s.field_names().into_iter().collect::<Vec<_>>().join(","),
            };
            let tys: Vec<TokenStream> = s.field_types().into_iter().map(|t| t.to_token_stream()).collect();
            (
                s.get_inline_generic_args().map(|a| a.to_token_stream()),
                s.create_derive_where_clause(tr),
                format!("struct {name} [{names}]"),
                tys,
                s.vis_marker.is_some(),
            )
        }
        venial::Item::Enum(e) => {
            let mut l = vec![];
            let mut tys = vec![];
            for (v, _) in e.variants.iter() {
                let f = match &v.fields {
                    venial::Fields::Unit => String::new(),
                    venial::Fields::Tuple(t) => {
                        for (x, _) in t.fields.iter() {
                            tys.push(x.ty.to_token_stream());
                        }
                        format!("({})", t.fields.len())
                    }
                    venial::Fields::Named(n) => {
                        let mut q = vec![];
                        for (x, _) in n.fields.iter() {
                            tys.push(x.ty.to_token_stream());
                            q.push(x.name.to_string());
                        }
                        format!("{{{}}}", q.join(","))
                    }
                };
                let d = v.value.as_ref().map(|d| format!("={}", text(&d.value.to_token_stream()))).unwrap_or_default();
                l.push(format!("{}{f}{d}", v.name));
            }
            (
                e.get_inline_generic_args().map(|a| a.to_token_stream()),
                e.create_derive_where_clause(tr),
                format!("enum {name} [{}] c={}", l.join(","), e.is_c_enum()),
                tys,
                e.vis_marker.is_some(),
            )
        }
        venial::Item::Union(u) => {
            let q: Vec<String> = u.fields.fields.iter().map(|(x, _)| x.name.to_string()).collect();
            let tys = u.fields.fields.iter().map(|(x, _)| x.ty.to_token_stream()).collect();
            (
                u.get_inline_generic_args().map(|a| a.to_token_stream()),
                u.create_derive_where_clause(tr),
                format!("union {name} [{}]", q.join(",")),
                tys,
                u.vis_marker.is_some(),
            )
        }
        _ => return Err("FAIL a derive got something else than a struct, enum or union".into()),
    };
    let nattr = item.attributes().len();
    let params = item.generic_params().map(|g| g.to_token_stream());
    // more parameters, added by the builders
    let more = match item.clone() {
        venial::Item::Struct(s) => {
            let s = s.with_param(venial::GenericParam::lifetime("added")).with_param(venial::GenericParam::ty("Added"));
            let s = s.with_where_predicate(venial::WhereClausePredicate::parse(quote!(Added: 'added)));
            (s.generic_params.to_token_stream(), s.where_clause.to_token_stream())
        }
        venial::Item::Enum(s) => {
            let s = s.with_param(venial::GenericParam::lifetime("added")).with_param(venial::GenericParam::ty("Added"));
            let s = s.with_where_predicate(venial::WhereClausePredicate::parse(quote!(Added: 'added)));
            (s.generic_params.to_token_stream(), s.where_clause.to_token_stream())
        }
        venial::Item::Union(s) => {
            let s = s.with_param(venial::GenericParam::lifetime("added")).with_param(venial::GenericParam::ty("Added"));
            let s = s.with_where_predicate(venial::WhereClausePredicate::parse(quote!(Added: 'added)));
            (s.generic_params.to_token_stream(), s.where_clause.to_token_stream())
        }
        _ => unreachable!(),
    };
    let (mp, mw) = more;
    let full = format!("{info} attrs={nattr} pub={vis}");
    let out = quote! {
        impl #params crate::Described for #name #args #wh {
            const INFO: &'static str = #full;
            fn tys() -> ::std::vec::Vec<&'static str> {
                ::std::vec![#(::std::any::type_name::<#tys>()),*]
            }
        }
        impl #mp crate::With<'added, Added> for #name #args #mw {}
    };
    Ok((name.to_string(), out))
}
/// accepts the helper attributes and does nothing
#[proc_macro_derive(Plain, attributes(helper))]
pub fn derive_plain(_: PTs) -> PTs {
    PTs::new()
}
