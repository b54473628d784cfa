//! Drivers for the properties about what parsing reports (C01–C13, C22).
use crate::choice::*;
use crate::cmp::*;
use crate::gen::*;
use crate::malform;
use crate::model::*;
use crate::run::*;
use crate::tok::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;

const TXT: Chk = Chk { spacing: true, span: false };
const LOC: Chk = Chk { spacing: true, span: true };

pub const ALL: [u8; 13] = [10, 8, 4, 5, 7, 7, 4, 9, 6, 3, 4, 4, 2];

pub fn decl(g: &mut G, cx: &mut Cx) -> (MItem, Ts) {
    let r = g.decl();
    cx.start(&r.1);
    r
}
pub fn verdict(c: Cmp) -> Result<(), String> {
    match c.fails.into_iter().next() {
        None => Ok(()),
        Some(f) => Err(f.msg),
    }
}
fn structural(g: &mut G, cx: &mut Cx, tags: u32) -> Result<(), String> {
    let (m, t) = decl(g, cx);
    let it = parse_valid(&t)?;
    let mut c = Cmp::new(tags);
    c.item(&m, &it);
    verdict(c)
}

// ---- C01 -------------------------------------------------------------------------------------
pub fn roundtrip(t: &[R]) -> Result<bool, String> {
    match parse(to_ts(t)) {
        P::Item(i) => {
            ev("roundtrip.accepted");
            evn("roundtrip.tokens", count(t) as u64);
            eq_it(t, i.to_token_stream().into_iter(), TXT).map_err(|m| format!("quoting the item: {m}"))?;
            Ok(true)
        }
        P::Err(_) => {
            ev("roundtrip.refused_by_error");
            Ok(false)
        }
        P::Panic(_) => {
            ev("roundtrip.refused_by_panic");
            Ok(false)
        }
    }
}
pub fn c01(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    match g.below(8) {
        0..=3 => {
            let (m, t) = decl(g, cx);
            if roundtrip(&t)? {
                if let P::Item(it) = parse(to_ts(&t)) {
                    if kind_of(&it) == m.kind() {
                        let mut c = Cmp::new(QUOTE);
                        c.item(&m, &it);
                        return verdict(c);
                    }
                }
            }
            Ok(())
        }
        4..=6 => {
            let t = malform::mutated(g);
            cx.start(&t);
            roundtrip(&t).map(|_| ())
        }
        _ => {
            let t = malform::wild(g);
            cx.start(&t);
            roundtrip(&t).map(|_| ())
        }
    }
}
// ---- C02 -------------------------------------------------------------------------------------
pub fn c02(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let (m, t) = decl(g, cx);
    let P::Item(it) = parse(to_ts(&t)) else {
        ev("refused");
        return Ok(());
    };
    evn("span.quoted_tokens", count(&t) as u64);
    let q: TokenStream = it.to_token_stream();
    if eq_it(&t, q.clone().into_iter(), TXT).is_ok() {
        eq_it(&t, q.into_iter(), LOC).map_err(|m| format!("quoting the item: {m}"))?;
    }
    let mut c = Cmp::new(SPAN);
    c.item(&m, &it);
    verdict(c)
}
// ---- C03 -------------------------------------------------------------------------------------
pub fn c03(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let (m, t) = decl(g, cx);
    ev(KINDS[m.kind()]);
    parse_valid(&t).map(|_| ())
}
pub fn c04(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    structural(g, cx, KIND | ACCESS | NAME)
}
pub fn c05(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    structural(g, cx, STRUCT)
}
// ---- C06 -------------------------------------------------------------------------------------
pub fn c06(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    g.knobs();
    if g.k.qual < 20 {
        g.k.qual = 40;
    }
    let attrs = g.attrs(false);
    let vis = g.vis();
    let disc = g.k.qual;
    let mut k = g.item_enum(disc);
    let mut bad: Option<R> = None;
    if let MK::Enum { group, variants, .. } = &mut k {
        let n = variants.items.len() as u32;
        if n > 0 && g.chance(32) {
            // one or more discriminants of several tokens
            for _ in 0..1 + g.below(3) {
                let i = g.below(n) as usize;
                let mut e = match g.below(6) {
                    0 => vec![p('-'), g.lit()],
                    1 => vec![p('!'), g.name()],
                    2 => vec![g.name(), pj(':'), p(':'), g.name()],
                    3 => {
                        let s = g.name();
                        let t = g.disc_single();
                        vec![s, t]
                    }
                    4 => {
                        let d = g.disc_single();
                        let mut t = vec![d];
                        op(*g.pick(&["+", "<<", "*", "|", "..", "=="]), &mut t);
                        let d = g.disc_single();
                        t.push(d);
                        t
                    }
                    _ => g.expr(3),
                };
                if e.len() < 2 {
                    e.push(p('+'));
                    e.push(g.lit());
                }
                // a comma would end the variant
                e.retain(|t| !t.is_p(','));
                if e.len() < 2 {
                    continue;
                }
                variants.items[i].0.value = Some((p('='), e));
            }
            for (v, _) in &variants.items {
                if let Some((_, e)) = &v.value {
                    if e.len() > 1 {
                        bad = Some(e[0].clone());
                        break;
                    }
                }
            }
            *group = grp(D::Brace, variants.toks());
        }
    }
    let it = MItem { attrs, vis, k };
    let t = it.toks();
    let m = g.space_mode();
    finalize(&t, m, &mut 1);
    cx.start(&t);
    match (bad, parse(to_ts(&t))) {
        (None, P::Item(i)) => {
            let mut c = Cmp::new(STRUCT | KIND);
            c.item(&it, &i);
            verdict(c)
        }
        (None, p) => Err(format!("enum with single-token discriminants refused: {}", p.describe())),
        (Some(first), P::Err(e)) => {
            ev("disc.error");
            eq_span(&first, e.span()).map_err(|m| format!("error location: {m}"))?;
            let ts = e.to_compile_error();
            let v: Vec<TokenTree> = ts.into_iter().collect();
            let ok = v.len() == 3
                && matches!(&v[0], TokenTree::Ident(i) if i == "compile_error")
                && matches!(&v[1], TokenTree::Punct(p) if p.as_char() == '!')
                && matches!(&v[2], TokenTree::Group(_));
            if !ok {
                return Err(format!("the error does not render as one compile_error!: {v:?}"));
            }
            for t in &v {
                eq_span(&first, t.span()).map_err(|m| format!("compile_error token: {m}"))?;
            }
            Ok(())
        }
        (Some(_), p) => Err(format!("discriminant of several tokens: expected an error, but {}", p.describe())),
    }
}
pub fn c07(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    structural(g, cx, FN | GEN | ATTR | VIS | NAME | KIND | BODY)
}
pub fn c08(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    structural(g, cx, GEN)
}
pub fn c09(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    structural(g, cx, STRUCT)
}
pub fn c10(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    structural(g, cx, ATTR | VIS | FIELDS)
}
pub fn c11(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    structural(g, cx, STRUCT)
}
// ---- C12 -------------------------------------------------------------------------------------
pub fn c12(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    g.knobs();
    let n = 1 + g.len(5).min(400);
    let mut items = vec![];
    let mut all: Ts = vec![];
    let mut ends = vec![];
    for _ in 0..n {
        let d = g.below(3);
        let it = g.item(Where::Top, d);
        all.extend(it.toks());
        ends.push(all.len());
        items.push(it);
        if g.budget < -4000 {
            break;
        }
    }
    // whatever follows the last item
    let tail = match g.below(4) {
        0 => vec![],
        1 => vec![p(*g.pick(&[';', ',', '=', ':', '>', '<', '#', '-', '!', '&']))],
        2 => {
            let mut s = g.soup(2, 5);
            s.insert(0, g.soup_tok(1));
            s
        }
        _ => {
            let mut s = vec![grp(*g.pick(&[D::Brace, D::Paren, D::Bracket, D::None]), vec![])];
            s.extend(g.soup(1, 3));
            s
        }
    };
    // `where` after a tuple struct's fields, or `;` after some kinds, would still belong to the item
    let tail: Ts = match tail.first() {
        Some(x) if x.is_id("where") => vec![],
        Some(x) if x.is_p(';') => vec![p(';')],
        _ => tail,
    };
    all.extend(tail.iter().cloned());
    let m = g.space_mode();
    finalize(&all, m, &mut 1);
    cx.start(&all);
    let mut it = to_ts(&all).into_iter().peekable();
    let mut start = 0;
    for (i, x) in items.iter().enumerate() {
        let r = guarded(|| venial::consume_item(&mut it));
        let v = match r {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => return Err(format!("item {i} of the stream: error: {e}")),
            Err(m) => return Err(format!("item {i} of the stream: panic: {m}")),
        };
        ev("consumed");
        let rest: TokenStream = it.clone().collect();
        evn("boundary.remaining_tokens", (all.len() - ends[i]) as u64);
        eq_it(&all[ends[i]..], rest.into_iter(), LOC)
            .map_err(|m| format!("after item {i} the iterator is not at the next token: {m}"))?;
        let mut c = Cmp::new(STRUCT);
        c.item(x, &v);
        verdict(c)?;
        // the same as when parsed alone
        let alone = parse_valid(&all[start..ends[i]])?;
        let (a, b) = (v.to_token_stream(), alone.to_token_stream());
        eq_it(&all[start..ends[i]], a.into_iter(), LOC).map_err(|m| format!("item {i}: {m}"))?;
        eq_it(&all[start..ends[i]], b.into_iter(), LOC).map_err(|m| format!("item {i} alone: {m}"))?;
        if format!("{v:?}") != format!("{alone:?}") {
            return Err(format!("item {i} differs from the same item parsed alone"));
        }
        // parse_item refuses leftovers
        if ends[i] < all.len() && i + 2 > items.len() / 2 {
            let to = if g.chance(32) { ends[i] + 1 } else { all.len() };
            ev("leftover.refused");
            if let P::Item(_) = parse(to_ts(&all[start..to])) {
                return Err(format!("parse_item accepted leftover tokens `{}`", clip(&show(&all[ends[i]..to]))));
            }
        }
        start = ends[i];
    }
    Ok(())
}
pub fn c13(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    structural(g, cx, PATH)
}
pub fn c22(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    structural(g, cx, QUERY)
}

pub fn props() -> Vec<Prop> {
    use crate::drv2::*;
    let f = |kinds: [u8; 13]| Focus { kinds, ..Focus::default() };
    let all = f(ALL);
    let gall = Focus { generics: true, ..all };
    let tys = [12, 10, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    vec![
        Prop { id: "C01", driver: c01, focus: all, quick: 60_000, rule: "a declaration (or a mutated or random token stream) of at least 5 tokens was handed to parse_item; every accepted one was quoted back and compared token by token; distinct = distinct token shapes" },
        Prop { id: "C02", driver: c02, focus: all, quick: 40_000, rule: "a declaration of at least 5 tokens, each token with its own location, was parsed and the location of every stored and quoted token and every span() compared; distinct = distinct token shapes" },
        Prop { id: "C03", driver: c03, focus: all, quick: 80_000, rule: "a well-formed declaration of at least 5 tokens was parsed; distinct = distinct token shapes" },
        Prop { id: "C04", driver: c04, focus: all, quick: 50_000, rule: "a declaration of at least 5 tokens was parsed and its kind, accessors, name, attributes and generics compared with the model; distinct = distinct token shapes" },
        Prop { id: "C05", driver: c05, focus: f(tys), quick: 60_000, rule: "a struct, enum or union of at least 5 tokens was parsed and every reported part compared with the model; distinct = distinct token shapes" },
        Prop { id: "C06", driver: c06, focus: f([0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]), quick: 60_000, rule: "an enum of at least 5 tokens was parsed and its discriminants (or the error's location) compared with the model; distinct = distinct token shapes" },
        Prop { id: "C07", driver: c07, focus: f([0, 0, 0, 0, 6, 6, 0, 20, 0, 0, 0, 4, 0]), quick: 60_000, rule: "a function, or a block with methods, of at least 5 tokens was parsed and every reported part compared with the model; distinct = distinct token shapes" },
        Prop { id: "C08", driver: c08, focus: Focus { kinds: [6, 6, 4, 0, 6, 6, 0, 8, 0, 0, 0, 0, 0], generics: true, ..Focus::default() }, quick: 60_000, rule: "a declaration with generics or a where clause of at least 5 tokens was parsed and parameters and predicates compared with the model; distinct = distinct token shapes" },
        Prop { id: "C09", driver: c09, focus: f([0, 0, 0, 8, 8, 10, 0, 0, 0, 0, 0, 6, 0]), quick: 40_000, rule: "a block item of at least 5 tokens was parsed and its header and members compared with the model; distinct = distinct token shapes" },
        Prop { id: "C10", driver: c10, focus: Focus { attrs: true, ..all }, quick: 50_000, rule: "a declaration of at least 5 tokens was parsed and every attribute and visibility marker compared with the model; distinct = distinct token shapes" },
        Prop { id: "C11", driver: c11, focus: f([0, 0, 0, 0, 0, 0, 8, 0, 14, 6, 9, 0, 4]), quick: 80_000, rule: "a const, static, alias, use, extern crate or macro item of at least 5 tokens was parsed and every part compared with the model; distinct = distinct token shapes" },
        Prop { id: "C12", driver: c12, focus: all, quick: 20_000, rule: "a stream of declarations (at least 5 tokens) was consumed item by item, the remaining tokens compared after each; distinct = distinct token shapes" },
        Prop { id: "C13", driver: c13, focus: f([12, 6, 2, 0, 3, 4, 4, 8, 4, 0, 0, 0, 0]), quick: 60_000, rule: "a declaration of at least 5 tokens was parsed and every type in it interpreted as a path and compared with the model; distinct = distinct token shapes" },
        Prop { id: "C14", driver: c14, focus: Focus { kinds: tys, generics: true, ..Focus::default() }, quick: 60_000, rule: "a struct, enum or union with generic parameters was parsed and its derived argument lists compared with the declared parameters; distinct = distinct token shapes" },
        Prop { id: "C15", driver: c15, focus: Focus { kinds: tys, ..gall }, quick: 40_000, rule: "a history of at least one edit was applied to a parsed struct, enum or union and the result compared with the model after every step; distinct = distinct shapes of declaration and history" },
        Prop { id: "C16", driver: c16, focus: all, quick: 150_000, rule: "a history of at least 3 operations ran on a list and on a model sequence, compared after every step; distinct = distinct histories" },
        Prop { id: "C17", driver: c17, focus: all, quick: 80_000, rule: "errors were built and combined in some order and their rendering compared with the model list of messages; distinct = distinct histories" },
        Prop { id: "C18", driver: c18, focus: all, quick: 6_000, rule: "a token stream of at least 5 tokens was parsed repeatedly (after other work, on other threads) and the outcomes compared; distinct = distinct token shapes" },
        Prop { id: "C19", driver: c19, focus: all, quick: 5_000, rule: "a token stream of at least 5 tokens was parsed, inspected, edited, cloned and dropped under memory accounting or a sanitizer; distinct = distinct token shapes" },
        Prop { id: "C20", driver: c20, focus: all, quick: 1_500, rule: "the control-flow steps of parsing an input family at three sizes (or of a token stream of at least 5 tokens) were counted and compared with the bound; distinct = distinct token shapes" },
        Prop { id: "C21", driver: c21, focus: all, quick: 4_000, rule: "a declaration of at least 5 tokens was parsed, formatted, cloned and edited, and the outputs compared; distinct = distinct token shapes" },
        Prop { id: "C22", driver: c22, focus: f(tys), quick: 60_000, rule: "a struct, enum or union of at least 5 tokens was parsed and every query compared with the model; distinct = distinct token shapes" },
        Prop { id: "C24", driver: malform::c24, focus: all, quick: 60_000, rule: "a declaration made malformed by one defect was handed to parse_item and had to be refused; distinct = distinct token shapes" },
    ]
}
