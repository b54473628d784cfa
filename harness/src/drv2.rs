//! Drivers for C14–C21.
use crate::alloc;
use crate::choice::*;
use crate::cmp::*;
use crate::cov;
use crate::drv::*;
use crate::fam;
use crate::malform;
use crate::model::*;
use crate::run::*;
use crate::tok::*;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::rc::Rc;
use venial as v;

const LOC: Chk = Chk { spacing: true, span: true };

pub fn set_joint(r: R, j: bool) -> R {
    r.joint.set(j);
    r
}

/// Tokens that were numbered must keep text, spacing and location; tokens that were added by a call must have the right text.
fn eq_edited(e: &[R], a: TokenStream) -> Result<(), String> {
    let mut it = a.into_iter();
    for (i, x) in e.iter().enumerate() {
        let Some(t) = it.next() else {
            return Err(format!("tokens missing: expected `{}` after `{}`", clip(&show(&e[i..])), clip_end(&show(&e[..i]))));
        };
        let added = x.id.get() == u32::MAX;
        let c = if added { Chk { spacing: x.is_p('\''), span: false } } else { LOC };
        // a group around edited tokens does not occur: edits only touch lists outside groups
        eq_tt(x, &t, c).map_err(|m| format!("{m} (after `{}`)", clip_end(&show(&e[..i]))))?;
    }
    match it.next() {
        Some(t) => Err(format!("extra token `{t}` after `{}`", clip_end(&show(e)))),
        None => Ok(()),
    }
}

// ---- C14 -------------------------------------------------------------------------------------
/// the argument list `<'a, T, N>`; a final comma may or may not be there
fn args_are(params: &[&MGParam], a: TokenStream) -> Result<(), String> {
    let mut e: Ts = vec![set_joint(p('<'), false)];
    for (i, q) in params.iter().enumerate() {
        if i > 0 {
            e.push(p(','));
        }
        if let Some(t) = q.prefix.as_ref().filter(|t| t.is_p('\'')) {
            e.push(t.clone());
        }
        e.push(q.name.clone());
    }
    let mut got: Vec<TokenTree> = a.into_iter().collect();
    let n = got.len();
    if !params.is_empty() && n >= 2 && matches!(&got[n - 2], TokenTree::Punct(c) if c.as_char() == ',') {
        got.remove(n - 2);
    }
    e.push(p('>'));
    // brackets and commas may be synthesised: only their text counts
    let mut it = got.into_iter();
    for x in &e {
        let Some(t) = it.next() else { return Err(format!("`{}` missing in the argument list", show(std::slice::from_ref(x)))) };
        let synth = x.id.get() == u32::MAX;
        eq_tt(x, &t, if synth { Chk { spacing: false, span: false } } else { LOC })?;
    }
    match it.next() {
        Some(t) => Err(format!("extra token `{t}` in the argument list")),
        None => Ok(()),
    }
}
fn own_args(params: &[&MGParam], a: &v::GenericArgList) -> Result<(), String> {
    if a.args.len() != params.len() {
        return Err(format!("owned copy has {} arguments for {} parameters", a.args.len(), params.len()));
    }
    if a.tk_turbofish_colons.is_some() {
        return Err("owned copy has a turbofish".into());
    }
    for (i, (q, x)) in params.iter().zip(a.args.items()).enumerate() {
        ev("owned.argument");
        let lt = q.prefix.as_ref().is_some_and(|t| t.is_p('\''));
        match x {
            v::GenericArg::Lifetime { lifetime } if lt => {
                eq_tt(q.prefix.as_ref().unwrap(), &lifetime.tk_apostrophe.clone().into(), LOC).map_err(|m| format!("owned argument {i}: {m}"))?;
                eq_tt(&q.name, &lifetime.name.clone().into(), LOC).map_err(|m| format!("owned argument {i}: {m}"))?;
            }
            v::GenericArg::TypeOrConst { expr } if !lt => {
                eq_it(std::slice::from_ref(&q.name), expr.tokens.iter().cloned(), LOC).map_err(|m| format!("owned argument {i}: {m}"))?;
            }
            other => return Err(format!("owned argument {i} of `{}` is classified as {other:?}", show(std::slice::from_ref(&q.name)))),
        }
    }
    args_are(params, a.to_token_stream()).map_err(|m| format!("quoting the owned copy: {m}"))
}
pub fn c14(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let (m, t) = decl(g, cx);
    let it = parse_valid(&t)?;
    let before = format!("{it:?}");
    match (m.gen(), it.generic_params()) {
        (None, None) => ev("no_generics"),
        (Some(e), Some(l)) => {
            ev("args.derived");
            evn("args.parameters", e.params.items.len() as u64);
            let params: Vec<&MGParam> = e.params.items.iter().map(|x| &x.0).collect();
            let q = l.as_inline_args().to_token_stream();
            args_are(&params, q).map_err(|m| format!("inline arguments: {m}"))?;
            let _ = l.as_inline_args().span();
            own_args(&params, &l.as_inline_args().to_owned_args())?;
            #[cfg(feature = "diff")]
            if g.chance(2) {
                let q = l.as_inline_args().to_token_stream();
                // names the language itself would refuse are the generator's doing
                if params.iter().all(|p| !crate::gen::keyword(p.name.text()) && p.name.text() != "_") {
                    ev("args.checked_by_syn");
                    syn::parse2::<syn::AngleBracketedGenericArguments>(q.clone()).map_err(|x| format!("`{q}` is not a valid argument list: {x}"))?;
                }
            }
        }
        _ => return Err("the generic parameters of the declaration are not reported".into()),
    }
    let inl = match &it {
        v::Item::Struct(s) => Some(s.get_inline_generic_args().map(|a| a.to_token_stream())),
        v::Item::Enum(s) => Some(s.get_inline_generic_args().map(|a| a.to_token_stream())),
        v::Item::Union(s) => Some(s.get_inline_generic_args().map(|a| a.to_token_stream())),
        _ => None,
    };
    if let Some(i) = inl {
        match (m.gen(), i) {
            (None, None) => {}
            (Some(e), Some(q)) => {
                let params: Vec<&MGParam> = e.params.items.iter().map(|x| &x.0).collect();
                args_are(&params, q).map_err(|m| format!("get_inline_generic_args: {m}"))?;
            }
            (e, i) => return Err(format!("get_inline_generic_args gave {} for {}", i.is_some(), e.is_some())),
        }
    }
    eq_it(&t, it.to_token_stream().into_iter(), LOC).map_err(|m| format!("the item changed: {m}"))?;
    if format!("{it:?}") != before {
        return Err("the item changed".into());
    }
    Ok(())
}

// ---- C15 -------------------------------------------------------------------------------------
impl MItem {
    fn gen_mut(&mut self) -> &mut Option<MGen> {
        match &mut self.k {
            MK::Struct { gen, .. } | MK::Enum { gen, .. } | MK::Union { gen, .. } => gen,
            _ => unreachable!(),
        }
    }
    fn wher_mut(&mut self) -> &mut Option<MWhere> {
        match &mut self.k {
            MK::Struct { wh, .. } | MK::Enum { wh, .. } | MK::Union { wh, .. } => wh,
            _ => unreachable!(),
        }
    }
}
fn push_m<T>(l: &mut MList<T>, x: T) {
    if let Some((_, c)) = l.items.last_mut() {
        if c.is_none() {
            *c = Some(p(','));
        }
    }
    l.items.push((x, None));
}
enum Ty3 {
    S(v::Struct),
    E(v::Enum),
    U(v::Union),
}
impl Ty3 {
    fn param(self, p: v::GenericParam) -> Ty3 {
        match self {
            Ty3::S(x) => Ty3::S(x.with_param(p)),
            Ty3::E(x) => Ty3::E(x.with_param(p)),
            Ty3::U(x) => Ty3::U(x.with_param(p)),
        }
    }
    fn pred(self, p: v::WhereClausePredicate) -> Ty3 {
        match self {
            Ty3::S(x) => Ty3::S(x.with_where_predicate(p)),
            Ty3::E(x) => Ty3::E(x.with_where_predicate(p)),
            Ty3::U(x) => Ty3::U(x.with_where_predicate(p)),
        }
    }
    fn derive(&self, t: TokenStream) -> v::WhereClause {
        match self {
            Ty3::S(x) => x.create_derive_where_clause(t),
            Ty3::E(x) => x.create_derive_where_clause(t),
            Ty3::U(x) => x.create_derive_where_clause(t),
        }
    }
    fn item(&self) -> v::Item {
        match self {
            Ty3::S(x) => v::Item::Struct(x.clone()),
            Ty3::E(x) => v::Item::Enum(x.clone()),
            Ty3::U(x) => v::Item::Union(x.clone()),
        }
    }
    fn quoted(&self) -> TokenStream {
        match self {
            Ty3::S(x) => x.to_token_stream(),
            Ty3::E(x) => x.to_token_stream(),
            Ty3::U(x) => x.to_token_stream(),
        }
    }
}
fn plain_name(g: &mut G) -> String {
    loop {
        let s = g.name_s();
        if !s.starts_with("r#") && s != "_" {
            return s;
        }
        // raw names cannot be given to Ident::new
        g.uniq += 1;
        if g.zero || g.chance(32) {
            return format!("N{}", g.uniq);
        }
    }
}
/// the kinds of edit a history contains, decided before the library runs
enum Edit {
    /// name, with the constructor used
    Param(u32, String, Ts, bool),
    Pred(MPred, Ts),
    Derive(Ts),
    Clone,
}
pub fn c15(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let (mut m, t) = g.decl();
    let mut next = 1 + count(&t) as u32 * 2 + 4;
    let n = 1 + g.len(7).min(120);
    let mut edits = vec![];
    let mut h = 0u64;
    for _ in 0..n {
        let e = match g.below(10) {
            0..=5 => {
                let k = g.below(7);
                let name = plain_name(g);
                let mut b = match k {
                    2 => {
                        // lifetime bounds
                        let mut t = vec![];
                        for i in 0..g.below(3) {
                            if i > 0 {
                                t.push(p('+'));
                            }
                            g.lifetime().emit(&mut t);
                        }
                        t
                    }
                    4 => g.bound(false, crate::gen::Ty::default()).toks,
                    5 | 6 => g.ty(1, crate::gen::Ty::default()).toks,
                    _ => vec![],
                };
                b = b.iter().map(fresh).collect();
                finalize(&b, SpaceMode::MaxJoint, &mut next);
                h = h.wrapping_mul(31) ^ (k as u64 + 1) ^ shape_hash(&b);
                Edit::Param(k, name, b, g.chance(12))
            }
            6 | 7 => {
                let pr = g.pred_first();
                let t = pr.toks();
                finalize(&t, SpaceMode::MaxJoint, &mut next);
                h = h.wrapping_mul(33) ^ shape_hash(&t);
                Edit::Pred(pr, t)
            }
            8 => {
                let t: Ts = g.path_ty(1, crate::gen::Ty::default(), true).toks;
                finalize(&t, SpaceMode::MaxJoint, &mut next);
                h = h.wrapping_mul(35) ^ 8;
                Edit::Derive(t)
            }
            _ => {
                h = h.wrapping_mul(37) ^ 9;
                Edit::Clone
            }
        };
        edits.push(e);
    }
    ensure_pool(next as usize + 2);
    cx.add_input(&t);
    cx.hash ^= h.wrapping_mul(0xff51afd7ed558ccd);
    cx.tokens += n as usize * 8;
    cx.go();
    let it = parse_valid(&t)?;
    let mut cur = match it {
        v::Item::Struct(x) => Ty3::S(x),
        v::Item::Enum(x) => Ty3::E(x),
        v::Item::Union(x) => Ty3::U(x),
        _ => return Err("a struct, enum or union is classified as another kind".into()),
    };
    let mut names = String::new();
    let mut tick_alone = false;
    #[allow(unused_mut)]
    let mut syn_ok = true;
    let mut olds: Vec<(Ty3, Ts)> = vec![];
    let n_edits = edits.len();
    for (step, e) in edits.into_iter().enumerate() {
        let what = format!("edit {step}");
        match e {
            Edit::Param(k, name, b, direct) => {
                ev("edit.param");
                let bt = || -> Vec<TokenTree> { to_ts(&b).into_iter().collect() };
                let arg = match k {
                    0 | 1 => v::GenericParam::lifetime(&name),
                    2 => v::GenericParam::bounded_lifetime(&name, bt()),
                    3 => v::GenericParam::ty(&name),
                    4 => v::GenericParam::bounded_ty(&name, bt()),
                    _ => v::GenericParam::const_param(&name, bt()),
                };
                let prefix = match k {
                    0..=2 => {
                        // known finding: the apostrophe of bounded_lifetime is not joint
                        let joint = !matches!(&arg.tk_prefix, Some(TokenTree::Punct(q)) if k == 2 && q.spacing() == Spacing::Alone);
                        tick_alone |= !joint;
                        Some(set_joint(p('\''), joint))
                    }
                    5 | 6 => Some(id("const")),
                    _ => None,
                };
                let bound = (k == 2 || k > 3).then(|| MBound { colon: p(':'), toks: b.clone() });
                let mp = MGParam { prefix, name: id(&name), bound };
                names.push_str(&format!(" +`{}`", show(&mp.toks())));
                #[cfg(feature = "diff")]
                if syn_ok {
                    syn_ok = syn::parse2::<syn::GenericParam>(to_ts_any(&mp.toks())).is_ok();
                }
                if m.gen_mut().is_none() {
                    *m.gen_mut() = Some(MGen { lt: p('<'), params: MList { items: vec![] }, gt: p('>') });
                }
                let l = &mut m.gen_mut().as_mut().unwrap().params;
                if k <= 2 && !l.items.is_empty() {
                    l.items.insert(0, (mp, Some(p(','))));
                } else {
                    push_m(l, mp);
                }
                if direct {
                    // through the list's own builder
                    macro_rules! d {
                        ($x:expr) => {{
                            let mut x = $x;
                            let l = x.generic_params.take().unwrap_or_default().with_param(arg);
                            x.generic_params = Some(l);
                            x
                        }};
                    }
                    cur = match cur {
                        Ty3::S(x) => Ty3::S(d!(x)),
                        Ty3::E(x) => Ty3::E(d!(x)),
                        Ty3::U(x) => Ty3::U(d!(x)),
                    };
                } else {
                    cur = cur.param(arg);
                }
            }
            Edit::Pred(pr, toks) => {
                ev("edit.predicate");
                let arg = v::WhereClausePredicate::parse(to_ts(&toks));
                names.push_str(&format!(" +where`{}`", show(&toks)));
                #[cfg(feature = "diff")]
                if syn_ok {
                    // `where <T>::X: Y` is reserved syntax
                    syn_ok = !toks.first().is_some_and(|t| t.is_p('<')) && syn::parse2::<syn::WherePredicate>(to_ts(&toks)).is_ok();
                }
                if m.wher_mut().is_none() {
                    *m.wher_mut() = Some(MWhere { kw: id("where"), preds: MList { items: vec![] } });
                }
                push_m(&mut m.wher_mut().as_mut().unwrap().preds, pr);
                cur = cur.pred(arg);
            }
            Edit::Derive(tr) => {
                ev("edit.derived_where");
                let before = m.toks();
                let w = cur.derive(to_ts(&tr));
                derived(&m, &tr, &w).map_err(|x| format!("{what}, derived where clause: {x} ({names})"))?;
                eq_edited(&before, cur.quoted()).map_err(|x| format!("deriving a where clause changed the item: {x}"))?;
            }
            Edit::Clone => {
                ev("edit.clone");
                let c = match &cur {
                    Ty3::S(x) => Ty3::S(x.clone()),
                    Ty3::E(x) => Ty3::E(x.clone()),
                    Ty3::U(x) => Ty3::U(x.clone()),
                };
                olds.push((std::mem::replace(&mut cur, c), m.toks()));
            }
        }
        // large histories: compare every few steps only
        if n_edits > 24 && step % 16 != 0 && step + 1 != n_edits {
            continue;
        }
        let e = m.toks();
        eq_edited(&e, cur.quoted()).map_err(|x| format!("{what}: {x} (edits:{names})"))?;
        let mut c = Cmp::new(STRUCT);
        c.item(&m, &cur.item());
        if let Some(f) = c.fails.into_iter().next() {
            return Err(format!("{what}: {} (edits:{names})", f.msg));
        }
    }
    for (o, e) in olds {
        eq_edited(&e, o.quoted()).map_err(|x| format!("editing a clone changed the original: {x}"))?;
    }
    // every part is valid on its own, so the whole must be
    #[cfg(feature = "diff")]
    if syn_ok && !tick_alone && count(&t) < 200 && syn::parse2::<syn::Item>(to_ts(&t)).is_ok() {
        ev("edit.result_checked_by_syn");
        if let Err(x) = syn::parse2::<syn::Item>(cur.quoted()) {
            return Err(format!("the edited declaration is not valid: {x}: `{}`", clip(&cur.quoted().to_string())));
        }
    }
    let _ = (tick_alone, syn_ok);
    cx.note = names;
    Ok(())
}
fn derived(m: &MItem, tr: &[R], w: &v::WhereClause) -> Result<(), String> {
    if w.tk_where != "where" {
        return Err(format!("keyword `{}`", w.tk_where));
    }
    let texts = |t: TokenStream| t.to_string();
    let orig: Vec<String> = m.wher().map(|w| w.preds.items.iter().map(|p| texts(to_ts_any(&p.0.toks()))).collect()).unwrap_or_default();
    let mut want = orig.clone();
    for q in m.gen().map(|g| &g.params.items[..]).unwrap_or(&[]) {
        if q.0.prefix.is_none() {
            let mut t = vec![q.0.name.clone(), set_joint(p(':'), false)];
            t.extend(tr.iter().cloned());
            want.push(texts(to_ts_any(&t)));
        }
    }
    let got: Vec<String> = w.items.items().map(|p| texts(p.to_token_stream())).collect();
    // originals in order
    let mut k = 0;
    for x in &got {
        if k < orig.len() && *x == orig[k] {
            k += 1;
        }
    }
    if k < orig.len() {
        return Err(format!("the original predicate `{}` is missing or out of order", orig[k]));
    }
    let (mut a, mut b) = (want.clone(), got.clone());
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("predicates are {got:?}, expected {want:?}"));
    }
    for p in w.items.items() {
        // the left side of a derived bound is the parameter alone; original ones are compared by the structure monitor
        if p.left_side.is_empty() {
            return Err("empty left side".into());
        }
    }
    // properly separated
    let mut e = String::from("where ");
    e.push_str(&got.join(" , "));
    let q: String = w.to_token_stream().to_string();
    let norm = |s: &str| s.split_whitespace().collect::<String>();
    let (q, e) = (norm(&q), norm(&e));
    if q != e && q != format!("{e},") {
        return Err(format!("quotes as `{q}`, expected `{e}`"));
    }
    Ok(())
}
/// tokens that may include unnumbered (added) ones
fn to_ts_any(t: &[R]) -> TokenStream {
    t.iter()
        .map(|n| match &n.k {
            K::G(d, i) => TokenTree::Group(Group::new(d.pm(), to_ts_any(i))),
            K::Id(s) => mk_ident(s, Span::call_site()).into(),
            K::P(c) => Punct::new(*c, if n.joint.get() { Spacing::Joint } else { Spacing::Alone }).into(),
            K::Lit(s) => mk_lit(s).into(),
        })
        .collect()
}

// ---- C16 -------------------------------------------------------------------------------------
#[derive(Clone)]
struct MP {
    v: Vec<(u32, Option<(bool, u32)>)>,
    skip: bool,
}
fn comma(j: bool, loc: u32) -> Punct {
    let mut c = Punct::new(',', if j { Spacing::Joint } else { Spacing::Alone });
    c.set_span(mint(loc));
    c
}
fn list_is<T: ToTokens + Clone + std::fmt::Debug>(m: &MP, l: &v::Punctuated<T>, show: &dyn Fn(&T) -> String, label: &dyn Fn(u32) -> String) -> Result<(), String> {
    ev("list.compared");
    if l.len() != m.v.len() || l.is_empty() != m.v.is_empty() {
        return Err(format!("len() = {}, is_empty() = {}, expected {}", l.len(), l.is_empty(), m.v.len()));
    }
    let it: Vec<String> = l.items().map(show).collect();
    let e: Vec<String> = m.v.iter().map(|x| label(x.0)).collect();
    if it != e {
        return Err(format!("items() = {it:?}, expected {e:?}"));
    }
    let it: Vec<String> = l.iter().map(|x| show(&x.0)).collect();
    if it != e {
        return Err(format!("iter() = {it:?}, expected {e:?}"));
    }
    for i in 0..e.len() {
        if show(&l[i].0) != e[i] || l.get(i).map(|x| show(&x.0)).as_ref() != Some(&e[i]) {
            return Err(format!("element {i} is {}, expected {}", show(&l[i].0), e[i]));
        }
    }
    let same = |c: &Punct, w: &Option<(bool, u32)>, i: usize| -> Result<(), String> {
        if c.as_char() != ',' {
            return Err(format!("separator {i} is `{}`", c.as_char()));
        }
        if let Some((j, loc)) = w {
            if (c.spacing() == Spacing::Joint) != *j || range_of(c.span()) != (*loc as usize * 2, *loc as usize * 2 + 1) {
                return Err(format!("separator {i} is not the one given"));
            }
        }
        Ok(())
    };
    let n = if m.skip && !m.v.is_empty() { m.v.len() - 1 } else { m.v.len() };
    let ps: Vec<&Punct> = l.punct().collect();
    if ps.len() != n {
        return Err(format!("punct() gives {} separators, expected {n}", ps.len()));
    }
    for (i, (c, w)) in ps.iter().zip(&m.v).enumerate() {
        same(c, &w.1, i).map_err(|x| format!("punct(): {x}"))?;
    }
    let mut q = l.to_token_stream().into_iter().peekable();
    for (i, (x, w)) in m.v.iter().enumerate() {
        let want = label(*x);
        let mut got = String::new();
        while let Some(t) = q.peek() {
            if matches!(t, TokenTree::Punct(c) if c.as_char() == ',') {
                break;
            }
            got.push_str(&q.next().unwrap().to_string());
        }
        if got != want {
            return Err(format!("quoting gives `{got}` at position {i}, expected `{want}`"));
        }
        if i < n {
            match q.next() {
                Some(TokenTree::Punct(c)) => same(&c, w, i).map_err(|x| format!("quoting: {x}"))?,
                t => return Err(format!("quoting: {t:?} instead of the comma after position {i}")),
            }
        }
    }
    if let Some(t) = q.next() {
        return Err(format!("quoting: extra `{t}` at the end"));
    }
    let d = format!("{l:?}");
    let want = format!("{:?}", l.items().collect::<Vec<_>>());
    if d != want {
        return Err(format!("Debug shows {d}, expected {want}"));
    }
    Ok(())
}
fn history<T: ToTokens + Clone + std::fmt::Debug>(
    ops: &[(u32, u32, u32)],
    mut l: v::Punctuated<T>,
    mut m: MP,
    mk: &dyn Fn(u32) -> T,
    show: &dyn Fn(&T) -> String,
    label: &dyn Fn(u32) -> String,
) -> Result<(), String> {
    let mut next = 1000u32;
    let mut olds: Vec<(v::Punctuated<T>, MP)> = vec![];
    let mut trace = String::new();
    list_is(&m, &l, show, label).map_err(|x| format!("initially: {x}"))?;
    for (k, &(op, a, b)) in ops.iter().enumerate() {
        next += 1;
        let given = |c: u32| match c % 3 {
            0 => None,
            1 => Some((true, next)),
            _ => Some((false, next)),
        };
        let n = m.v.len();
        match op {
            0..=4 => {
                let c = given(a);
                trace.push_str(&format!(" push({next},{})", if c.is_some() { "comma" } else { "-" }));
                l.push(mk(next), c.map(|(j, s)| comma(j, s)));
                m.v.push((next, c));
                m.skip = c.is_none();
                ev("op.push");
            }
            5 | 6 => {
                let i = (b as usize) % (n + 1);
                let c = given(a);
                trace.push_str(&format!(" insert({i},{next},{})", if c.is_some() { "comma" } else { "-" }));
                l.insert(i, mk(next), c.map(|(j, s)| comma(j, s)));
                if i == n {
                    m.v.push((next, c));
                    m.skip = c.is_none();
                } else {
                    m.v.insert(i, (next, None));
                }
                ev("op.insert");
            }
            7 => {
                let i = n + 1 + (b as usize) % 5;
                trace.push_str(&format!(" insert({i}: past the end)"));
                let c = given(a);
                let r = guarded(|| l.insert(i, mk(next), c.map(|(j, s)| comma(j, s))));
                ev("op.insert_past_end");
                if r.is_ok() {
                    return Err(format!("inserting at {i} into a list of {n} did not panic"));
                }
            }
            8 => {
                trace.push_str(" clone");
                let c = l.clone();
                olds.push((std::mem::replace(&mut l, c), m.clone()));
                ev("op.clone");
                if a % 2 == 1 {
                    // an older list, overwritten
                    let (mut x, _) = olds.swap_remove(b as usize % olds.len());
                    trace.push_str(".clone_from");
                    x.clone_from(&l);
                    list_is(&m, &x, show, label).map_err(|e| format!("{e} after{}", clip_end(&trace)))?;
                    olds.push((std::mem::replace(&mut l, x), m.clone()));
                    ev("op.clone_from");
                }
            }
            9 if n >= 2 => {
                let (i, j) = (a as usize % n, b as usize % n);
                trace.push_str(&format!(" swap({i},{j})"));
                l.swap(i, j);
                m.v.swap(i, j);
                ev("op.swap");
            }
            10 if n >= 1 => {
                let i = a as usize % n;
                trace.push_str(&format!(" [{i}].0={next}"));
                l[i].0 = mk(next);
                m.v[i].0 = next;
                ev("op.assign");
            }
            11 if n >= 1 => {
                trace.push_str(" reverse/iter_mut");
                if a % 2 == 0 {
                    l.reverse();
                    m.v.reverse();
                } else {
                    let i = b as usize % n;
                    l.rotate_left(i);
                    m.v.rotate_left(i);
                }
                ev("op.slice");
            }
            _ => {
                // the backing vector is public too
                if n >= 1 {
                    let i = a as usize % n;
                    trace.push_str(&format!(" inner.remove({i})"));
                    l.inner.remove(i);
                    m.v.remove(i);
                    ev("op.inner_remove");
                }
            }
        }
        if ops.len() < 40 || k % 16 == 0 || k + 1 == ops.len() {
            list_is(&m, &l, show, label).map_err(|x| format!("{x} after{}", clip_end(&trace)))?;
        }
    }
    for (l, m) in &olds {
        list_is(m, l, show, label).map_err(|x| format!("the original of a clone changed: {x} after{}", clip_end(&trace)))?;
    }
    Ok(())
}
pub fn c16(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    g.knobs();
    let n = 1 + g.len(14).min(1300);
    let ops: Vec<(u32, u32, u32)> = (0..n).map(|_| (g.below(13), g.below(1 << 12), g.below(1 << 12))).collect();
    let start = g.below(3);
    let n0 = g.len(5).min(300);
    let trail = g.chance(32);
    for o in &ops {
        cx.hash = (cx.hash ^ (o.0 as u64 * 7 + (o.1 % 3) as u64)).wrapping_mul(0x100000001b3);
    }
    cx.hash = (cx.hash ^ start as u64 ^ (n0 as u64) << 8).wrapping_mul(0x100000001b3);
    cx.nontrivial = n >= 3;
    cx.tokens = n as usize * 4 + n0 as usize * 4;
    cx.input.push(format!("history of {n} operations {:?}", &ops[..ops.len().min(12)]));
    ensure_pool(1000 + n as usize + 2);
    cx.go();
    match start {
        0 => {
            let l: v::Punctuated<Literal> = if trail { v::Punctuated::new() } else { Default::default() };
            let m = MP { v: vec![], skip: false };
            history(&ops, l, m, &Literal::u32_unsuffixed, &|x| x.to_string(), &|x| x.to_string())
        }
        1 => {
            // a list that came out of the parser
            let mut t: Ts = vec![];
            let mut m = MP { v: vec![], skip: false };
            for i in 0..n0 {
                t.push(id(&format!("T{i}")));
                if i + 1 < n0 || trail {
                    t.push(p(','));
                }
            }
            let mut all = vec![id("struct"), id("S"), p('<')];
            all.extend(t.iter().cloned());
            all.push(p('>'));
            all.push(p(';'));
            finalize(&all, SpaceMode::Alone, &mut 1);
            let mut it = t.iter().peekable();
            let mut i = 0;
            while let Some(_x) = it.next() {
                let c = it.next().map(|c| (false, c.id.get()));
                m.skip = c.is_none();
                m.v.push((i, c));
                i += 1;
            }
            let item = parse_valid(&all)?;
            let v::Item::Struct(s) = item else { return Err("not a struct".into()) };
            let l = s.generic_params.ok_or("no generic parameters")?.params;
            history(&ops, l, m, &|i| v::GenericParam::ty(&format!("T{i}")), &|x| x.name.to_string(), &|x| format!("T{x}"))
        }
        _ => {
            let l: v::Punctuated<Ident> = v::Punctuated::new();
            let m = MP { v: vec![], skip: false };
            history(&ops, l, m, &|i| Ident::new(&format!("x{i}"), Span::call_site()), &|x| x.to_string(), &|x| format!("x{x}"))
        }
    }
}

// ---- C17 -------------------------------------------------------------------------------------
#[derive(Clone)]
struct MMsg {
    text: String,
    start: Span,
    end: Span,
}
fn lit_value(s: &str) -> Option<String> {
    #[cfg(feature = "diff")]
    {
        syn::parse_str::<syn::LitStr>(s).ok().map(|l| l.value())
    }
    #[cfg(not(feature = "diff"))]
    {
        let _ = s;
        None
    }
}
fn error_is(m: &[MMsg], e: &v::Error) -> Result<(), String> {
    ev("error.compared");
    evn("error.messages", m.len() as u64);
    if e.to_string() != m[0].text {
        return Err(format!("displays {:?}, expected {:?}", clip(&e.to_string()), clip(&m[0].text)));
    }
    let _ = format!("{e:?} {e:#?}");
    let want = range_of(m[0].start.join(m[0].end).unwrap_or(m[0].start));
    if range_of(e.span()) != want {
        return Err(format!("span() is {:?}, expected {want:?}", range_of(e.span())));
    }
    let mut it = e.to_compile_error().into_iter().peekable();
    for (i, x) in m.iter().enumerate() {
        let at = |t: &TokenTree, what: &str| -> Result<(), String> {
            let (r, a, b) = (range_of(t.span()), range_of(x.start), range_of(x.end));
            if r != a && r != b {
                return Err(format!("message {i}: {what} is located at {r:?}, not at {a:?} or {b:?}"));
            }
            Ok(())
        };
        let Some(t) = it.next() else { return Err(format!("{} messages rendered, {} expected", i, m.len())) };
        if !matches!(&t, TokenTree::Ident(n) if n == "compile_error") {
            return Err(format!("message {i}: `{t}` instead of compile_error"));
        }
        if range_of(t.span()) != range_of(x.start) {
            return Err(format!("message {i} does not start at its location: {:?}, expected {:?}", range_of(t.span()), range_of(x.start)));
        }
        let Some(t) = it.next() else { return Err("compile_error without `!`".into()) };
        if !matches!(&t, TokenTree::Punct(c) if c.as_char() == '!') {
            return Err(format!("message {i}: `{t}` instead of `!`"));
        }
        at(&t, "`!`")?;
        let Some(TokenTree::Group(gr)) = it.next() else { return Err(format!("message {i}: compile_error! without a group")) };
        if range_of(gr.span()) != range_of(x.end) {
            return Err(format!("message {i} does not end at its location: {:?}, expected {:?}", range_of(gr.span()), range_of(x.end)));
        }
        match gr.delimiter() {
            Delimiter::Brace => {}
            Delimiter::None => return Err("compile_error! with an invisible group".into()),
            _ => {
                if !matches!(it.next(), Some(TokenTree::Punct(c)) if c.as_char() == ';') {
                    return Err(format!("message {i}: compile_error!(..) without `;` is no item"));
                }
            }
        }
        let inner: Vec<TokenTree> = gr.stream().into_iter().collect();
        match &inner[..] {
            [TokenTree::Literal(l)] => {
                let s = l.to_string();
                let same = s == Literal::string(&x.text).to_string() || lit_value(&s).as_deref() == Some(&x.text);
                if !same {
                    return Err(format!("message {i} renders as {}, expected {:?}", clip(&s), clip(&x.text)));
                }
                at(&inner[0], "the text")?;
            }
            o => return Err(format!("message {i}: compile_error! holds {o:?}")),
        }
    }
    if let Some(t) = it.next() {
        return Err(format!("extra `{t}` after {} messages", m.len()));
    }
    Ok(())
}
fn text(g: &mut G) -> String {
    match g.below(8) {
        0 => String::new(),
        1 => g.name_s(),
        2 => g.pick(&["a \"quoted\" text", "back\\slash", "{} {0} {{}}", "new\nline\r\n\ttab", "nul \0 bell \u{7}", "ünïcode 漢字 🦀", "' \u{301} \u{202e}", "//* */ #\"##", "a,b", "error: ", "; }", "\\u{41} \\n"]).to_string(),
        3 if !g.dict.strings.is_empty() => {
            let d = g.dict.clone();
            let s = g.pick(&d.strings).clone();
            s.trim_matches('"').to_string()
        }
        4 => {
            let n = g.len(8).min(2000);
            (0..n).map(|_| char::from_u32(g.below(0x400)).unwrap_or('x')).collect()
        }
        5 => {
            let n = g.len(6).min(600);
            (0..n)
                .map(|_| {
                    let c = g.below(0x11_0000);
                    char::from_u32(c).unwrap_or('\u{fffd}')
                })
                .collect()
        }
        6 => {
            let k = g.special_size().min(5000) as usize;
            "long ".repeat(k)
        }
        _ => g.below(100_000).to_string(),
    }
}
pub fn c17(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    g.knobs();
    let n = 1 + g.len(8).min(250);
    // decide the history first
    enum Op {
        New(String),
        Num(u32),
        At(u32, String),
        Toks(Ts, bool, String),
        Lib(Ts),
        Combine(u32, u32),
        SelfCombine(u32),
        Clone(u32),
        Check(u32),
    }
    let mut ops = vec![];
    for k in 0..n {
        let o = match if k == 0 { g.below(6) } else { g.below(14) } {
            0 | 8 => Op::New(text(g)),
            1 => Op::At(g.below(2000), text(g)),
            2 | 3 => {
                let t = g.soup(2, 5);
                let m = g.space_mode();
                let mut at = 1 + g.below(3000);
                finalize(&t, m, &mut at);
                let rev = g.chance(8);
                Op::Toks(t, rev, text(g))
            }
            4 => Op::Num(g.below(1000)),
            5 => {
                let mut t = vec![id("enum"), id("E")];
                let e = g.expr(2);
                let mut b = vec![id("V"), p('=')];
                b.extend(e.into_iter().filter(|x| !x.is_p(',')));
                b.push(p('+'));
                b.push(lit("1"));
                t.push(grp(D::Brace, b));
                finalize(&t, SpaceMode::MaxJoint, &mut 1);
                Op::Lib(t)
            }
            6 | 7 | 9 | 10 => Op::Combine(g.below(64), g.below(64)),
            11 => Op::SelfCombine(g.below(64)),
            12 => Op::Clone(g.below(64)),
            _ => Op::Check(g.below(64)),
        };
        cx.hash = (cx.hash
            ^ match &o {
                Op::New(s) => s.len() as u64,
                Op::Num(_) => 3,
                Op::At(_, s) => 5 + ((s.len() as u64) << 4),
                Op::Toks(t, r, s) => shape_hash(t) ^ (s.len() as u64) << 4 ^ *r as u64,
                Op::Lib(t) => shape_hash(t),
                Op::Combine(a, b) => 7 + (*a as u64 * 64 + *b as u64) * 16,
                Op::SelfCombine(a) => 8 + (*a as u64) * 16,
                Op::Clone(a) => 9 + (*a as u64) * 16,
                Op::Check(a) => 10 + (*a as u64) * 16,
            })
        .wrapping_mul(0x100000001b3)
        .rotate_left(7);
        ops.push(o);
    }
    cx.nontrivial = true;
    cx.tokens = n as usize * 10;
    ensure_pool(1 << 16);
    let mut trace = String::new();
    cx.go();
    let mut pool: Vec<(v::Error, Vec<MMsg>)> = vec![];
    let cs = Span::call_site();
    for o in ops {
        let l = pool.len();
        let ix = |a: u32| a as usize % l.max(1);
        match o {
            Op::New(s) => {
                trace.push_str(&format!(" new({})", s.escape_debug().take(20).collect::<String>()));
                let e = if s.len() % 2 == 0 { v::Error::new(&s) } else { v::Error::new(s.clone()) };
                pool.push((e, vec![MMsg { text: s, start: cs, end: cs }]));
            }
            Op::Num(k) => {
                trace.push_str(&format!(" new({k})"));
                pool.push((v::Error::new(format_args!("{k}+{k}")), vec![MMsg { text: format!("{k}+{k}"), start: cs, end: cs }]));
            }
            Op::At(at, s) => {
                trace.push_str(" new_at_span");
                let sp = mint(at);
                pool.push((v::Error::new_at_span(sp, &s), vec![MMsg { text: s, start: sp, end: sp }]));
            }
            Op::Toks(t, rev, s) => {
                trace.push_str(&format!(" new_at_tokens({} tokens)", t.len()));
                ev(if t.is_empty() { "error.at_no_tokens" } else { "error.at_tokens" });
                let mut ts: Vec<TokenTree> = to_ts(&t).into_iter().collect();
                if rev {
                    ts.reverse();
                }
                let (a, b) = (ts.first().map_or(cs, |t| t.span()), ts.last().map_or(cs, |t| t.span()));
                let ts: TokenStream = ts.into_iter().collect();
                pool.push((v::Error::new_at_tokens(ts, &s), vec![MMsg { text: s, start: a, end: b }]));
            }
            Op::Lib(t) => {
                trace.push_str(" parse error");
                if let P::Err(e) = parse(to_ts(&t)) {
                    ev("error.from_parser");
                    // the message is the library's own: only that it stays what it was
                    let sp = e.span();
                    let ts: Vec<TokenTree> = e.to_compile_error().into_iter().collect();
                    let end = ts.last().map_or(sp, |t| t.span());
                    let start = ts.first().map_or(sp, |t| t.span());
                    pool.push((e.clone(), vec![MMsg { text: e.to_string(), start, end }]));
                } else {
                    pool.push((v::Error::new("x"), vec![MMsg { text: "x".into(), start: cs, end: cs }]));
                }
            }
            Op::Combine(a, b) if l >= 2 => {
                let (a, mut b) = (ix(a), ix(b));
                if a == b {
                    b = (b + 1) % l;
                }
                trace.push_str(&format!(" {a}.combine({b})"));
                let (e, m) = pool[b].clone();
                pool[a].0.combine(e);
                pool[a].1.extend(m);
                pool.remove(b);
                ev("error.combine");
            }
            Op::SelfCombine(a) if l >= 1 && pool[ix(a)].1.len() < 2000 => {
                let a = ix(a);
                trace.push_str(&format!(" {a}.combine({a}.clone())"));
                let (e, m) = pool[a].clone();
                pool[a].0.combine(e);
                pool[a].1.extend(m);
                ev("error.combine");
            }
            Op::Clone(a) if l >= 1 => {
                let a = ix(a);
                trace.push_str(&format!(" clone({a})"));
                let c = pool[a].clone();
                pool.push(c);
                ev("error.clone");
            }
            Op::Check(a) if l >= 1 => {
                let a = ix(a);
                for _ in 0..2 {
                    error_is(&pool[a].1, &pool[a].0).map_err(|x| format!("{x}; history:{}", clip_end(&trace)))?;
                }
            }
            _ => {}
        }
    }
    for (e, m) in &pool {
        error_is(m, e).map_err(|x| format!("{x}; history:{}", clip_end(&trace)))?;
        error_is(m, e).map_err(|x| format!("second rendering: {x}; history:{}", clip_end(&trace)))?;
    }
    cx.input.push(trace);
    Ok(())
}

// ---- C18 -------------------------------------------------------------------------------------
/// Absolute offsets (`bytes(12..13)`) in debug texts depend on what the thread lexed before: that is proc_macro2's doing.
fn hash_str(h: &mut u64, s: &str) {
    let mut skip = false;
    let b = s.as_bytes();
    for i in 0..b.len() {
        if skip {
            skip = b[i] != b')';
            continue;
        }
        *h = (*h ^ b[i] as u64).wrapping_mul(0x100000001b3);
        skip = b[i] == b'(' && s.as_bytes()[..i].ends_with(b"bytes");
    }
}
fn hash_ts(h: &mut u64, ts: TokenStream) {
    for t in ts {
        let (a, b) = range_of(t.span());
        *h = (*h ^ (a as u64) << 20 ^ b as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(13);
        match t {
            TokenTree::Group(g) => {
                hash_str(h, &format!("{:?}", g.delimiter()));
                hash_ts(h, g.stream());
                hash_str(h, "end");
            }
            TokenTree::Punct(p) => {
                *h = (*h ^ p.as_char() as u64 ^ ((p.spacing() == Spacing::Joint) as u64) << 40).wrapping_mul(0x100000001b3)
            }
            t => hash_str(h, &t.to_string()),
        }
    }
}
/// what the queries about an item answer
fn queries(h: &mut u64, it: &v::Item) {
    fn ty(h: &mut u64, t: &v::TypeExpr) {
        match guarded(|| t.as_path()) {
            Ok(Some(p)) => {
                hash_ts(h, p.to_token_stream());
                hash_str(h, &p.segments.len().to_string());
            }
            Ok(None) => hash_str(h, "no path"),
            Err(m) => hash_str(h, &m),
        }
    }
    fn fields(h: &mut u64, f: &v::Fields) {
        match f {
            v::Fields::Unit => hash_str(h, "unit"),
            v::Fields::Tuple(t) => t.fields.items().for_each(|x| ty(h, &x.ty)),
            v::Fields::Named(t) => t.fields.items().for_each(|x| ty(h, &x.ty)),
        }
    }
    fn gens(h: &mut u64, g: Option<&v::GenericParamList>) {
        if let Some(g) = g {
            hash_ts(h, g.as_inline_args().to_token_stream());
            hash_ts(h, g.as_inline_args().to_owned_args().to_token_stream());
        }
    }
    for a in it.attributes() {
        hash_str(h, &format!("{:?}", a.get_single_path_segment().map(|i| i.to_string())));
        a.get_value_tokens().iter().for_each(|t| hash_str(h, &t.to_string()));
    }
    gens(h, it.generic_params());
    match it {
        v::Item::Struct(s) => {
            s.field_names().into_iter().for_each(|n: String| hash_str(h, &n));
            fields(h, &s.fields);
            hash_ts(h, s.create_derive_where_clause(quote::quote!(A::B)).to_token_stream());
        }
        v::Item::Enum(e) => {
            hash_str(h, if e.is_c_enum() { "c" } else { "no c" });
            e.variants.items().for_each(|x| fields(h, &x.fields));
        }
        v::Item::Union(u) => u.fields.fields.items().for_each(|x| ty(h, &x.ty)),
        v::Item::Function(f) => f.params.items().for_each(|p| {
            if let v::FnParam::Typed(t) = p {
                ty(h, &t.ty)
            }
        }),
        v::Item::Impl(i) => ty(h, &i.self_ty),
        v::Item::Constant(c) => ty(h, &c.ty),
        _ => {}
    }
}
/// everything observable about the outcome of parsing
pub fn outcome(r: &P) -> (u64, &'static str) {
    let mut h = 0xcbf29ce484222325u64;
    let k = match r {
        P::Item(i) => {
            hash_ts(&mut h, i.to_token_stream());
            hash_str(&mut h, &format!("{i:?}"));
            hash_str(&mut h, &format!("{:?}", range_of(i.span())));
            queries(&mut h, i);
            "accepted"
        }
        P::Err(e) => {
            hash_str(&mut h, &e.to_string());
            hash_ts(&mut h, e.to_compile_error());
            "error"
        }
        P::Panic(m) => {
            hash_str(&mut h, m);
            "panic"
        }
    };
    (h, k)
}
pub fn any_stream(g: &mut G) -> Ts {
    match g.below(21) {
        0..=11 => g.decl().1,
        12..=17 => malform::mutated(g),
        18 => {
            // an enum reported as an error
            g.knobs();
            let mut k = g.item_enum(20);
            if let MK::Enum { group, variants, .. } = &mut k {
                let mut t = variants.toks();
                if variants.items.last().is_some_and(|x| x.1.is_none()) {
                    t.push(p(','));
                }
                t.extend([id("Zz"), p('='), id("a"), p('+'), id("b")]);
                *group = grp(D::Brace, t);
            }
            let t = MItem { attrs: vec![], vis: g.vis(), k }.toks();
            let m = g.space_mode();
            finalize(&t, m, &mut 1);
            t
        }
        _ => malform::wild(g),
    }
}
/// something else happens in between
pub fn disturb(g: &mut G) {
    let t = any_stream(g);
    match parse(to_ts(&t)) {
        P::Item(i) => {
            ev("disturb.accepted");
            if g.below(4) == 0 && count(&t) < 400 {
                let _ = guarded(|| exercise((*i).clone()));
            }
            let mut i2 = (*i).clone();
            i2.attributes_mut().clear();
            if let v::Item::Struct(s) = *i {
                let s = s.with_param(v::GenericParam::lifetime("zz")).with_param(v::GenericParam::ty("ZZ"));
                let _ = s.create_derive_where_clause(quote::quote!(X)).to_token_stream();
            }
            drop(i2);
        }
        P::Err(e) => {
            ev("disturb.error");
            let mut e2 = e.clone();
            e2.combine(e);
            let _ = e2.to_compile_error();
            // a text that is itself made by parsing
            struct Late(TokenStream);
            impl std::fmt::Display for Late {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    let r = parse(self.0.clone());
                    write!(f, "{}", outcome(&r).1)
                }
            }
            let _ = v::Error::new_at_tokens(to_ts(&t), Late(to_ts(&t))).to_string();
        }
        P::Panic(_) => ev("disturb.panic"),
    }
}
pub fn c18(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    match g.below(48) {
        0 | 1 => return c18_threads(g, cx),
        2 => return c18_marathon(g, cx),
        _ => {}
    }
    let t = any_stream(g);
    cx.start(&t);
    let orig = to_ts(&t);
    let copy = orig.clone();
    let first = parse(copy);
    let d1 = outcome(&first);
    ev(d1.1);
    eq_it(&t, orig.clone().into_iter(), LOC).map_err(|m| format!("parsing a clone of a stream changed the stream: {m}"))?;
    let n = 1 + g.below(5);
    for k in 0..n {
        disturb(g);
        // streams are rebuilt or reused
        let r = if k % 2 == 0 { parse(orig.clone()) } else { parse(to_ts(&t)) };
        let d2 = outcome(&r);
        ev("outcome.compared");
        if d1 != d2 {
            return Err(format!("the outcome depends on what was parsed before: first {}, then {}{}", first.describe(), r.describe(), if d1.1 == d2.1 { " with different contents" } else { "" }));
        }
        // the item parsed earlier is not affected
        if outcome(&first) != d1 {
            return Err("parsing something else changed an item parsed before".into());
        }
    }
    // through the iterator
    let mut it = orig.clone().into_iter().peekable();
    let keep: TokenStream = it.clone().collect();
    let _ = guarded(|| venial::consume_item(&mut it).map(|_| ()));
    eq_it(&t, keep.into_iter(), LOC).map_err(|m| format!("consuming an item changed a clone of the iterator: {m}"))?;
    cx.note = format!("[{}]", d1.1);
    Ok(())
}
/// the same thing over and over, then the declaration it was made from
fn c18_marathon(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    g.small = true;
    g.budget = 40;
    let base = g.decl().1;
    g.small = false;
    let mut bad: Ts = base.clone();
    for _ in 0..12 {
        let mut t: Ts = base.iter().map(fresh).collect();
        for _ in 0..1 + g.below(2) {
            t = malform::edit(g, &t);
        }
        let m = g.space_mode();
        finalize(&t, m, &mut 1);
        bad = t;
        // rather one that is refused, after a good part of it was read
        if count(&bad) >= 4 && (g.below(8) == 0 || parse(to_ts(&bad)).refused()) {
            break;
        }
    }
    let n = *g.pick(&[40u32, 150, 300, 600, 1100]);
    let n = if count(&bad) > 150 { n.min(150) } else { n };
    cx.add_input(&base);
    cx.add_input(&bad);
    cx.tokens += count(&bad) * n as usize;
    cx.go();
    let d1 = outcome(&parse(to_ts(&base)));
    let ts = to_ts(&bad);
    let b1 = outcome(&parse(ts.clone()));
    for _ in 0..n {
        let r = parse(ts.clone());
        ev("marathon.parsed");
        drop(r);
    }
    let (b2, d2) = (outcome(&parse(ts)), outcome(&parse(to_ts(&base))));
    ev("marathon.compared");
    if b1 != b2 {
        return Err(format!("the {n}th time the outcome is {} instead of {}", b2.1, b1.1));
    }
    if d1 != d2 {
        return Err(format!("{} at first, {} after {n} times the other input ({})", d1.1, d2.1, b1.1));
    }
    cx.note = format!("[{n} times {}]", b1.1);
    Ok(())
}
fn c18_threads(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let streams: Vec<Ts> = (0..12)
        .map(|_| {
            let mut g = G::new(g.seed64(), Rc::new(vec![]), g.dict.clone(), g.focus);
            any_stream(&mut g)
        })
        .collect();
    let sent = std::sync::Arc::new(streams.iter().map(|t| send(t)).collect::<Vec<_>>());
    for t in &streams {
        cx.add_input(t);
    }
    cx.go();
    let want: Vec<(u64, &'static str)> = streams.iter().map(|t| outcome(&parse(to_ts(t)))).collect();
    let nt = *g.pick(&[2usize, 4, 4, 8, 17, 40]);
    let bar = std::sync::Arc::new(std::sync::Barrier::new(nt));
    let hs: Vec<_> = (0..nt)
        .map(|k| {
            let (sent, bar) = (sent.clone(), bar.clone());
            std::thread::Builder::new()
                .stack_size(1 << 26)
                .spawn(move || {
                    let n = sent.len();
                    let ts: Vec<Ts> = sent.iter().map(|s| received(s)).collect();
                    // each thread in its own order, all at once
                    let ord: Vec<usize> = (0..n).map(|i| (i * [1, 5, 7, 11][k % 4] + k * 3) % n).collect();
                    let tss: Vec<TokenStream> = ord.iter().map(|i| to_ts(&ts[*i])).collect();
                    bar.wait();
                    let mut r = vec![];
                    for (i, t) in ord.into_iter().zip(tss) {
                        r.push((i, outcome(&parse(t))));
                    }
                    r
                })
                .unwrap()
        })
        .collect();
    let mut bad = None;
    for (k, h) in hs.into_iter().enumerate() {
        let r = h.join().map_err(|_| "a thread panicked outside of a refusal".to_string())?;
        for (i, o) in r {
            ev("outcome.compared_across_threads");
            if o != want[i] && bad.is_none() {
                bad = Some(format!("thread {k} got {} and this thread {} for the same tokens: `{}`", o.1, want[i].1, clip(&show(&streams[i]))));
            }
        }
    }
    match bad {
        Some(b) => Err(b),
        None => Ok(()),
    }
}
/// digests of `n` streams, for comparison between processes
pub fn digests(seed: u64, n: u64, dict: &Rc<Dict>, reverse: bool, warm: u64, focus: Focus) -> Vec<String> {
    // a long history of other inputs first
    for i in 0..warm {
        let mut g = G::new(seed.rotate_left(17) ^ i.wrapping_mul(0xD1B5_4A32_D192_ED03), Rc::new(vec![]), dict.clone(), focus);
        g.small = true;
        g.budget = 40;
        let t = any_stream(&mut g);
        let ts = to_ts(&t);
        for _ in 0..1 + (i % 7 == 0) as u64 * 9 {
            drop(parse(ts.clone()));
        }
    }
    if warm > 0 {
        use std::str::FromStr;
        let tiny: Vec<TokenStream> = ["struct A;", "fn f() {}", "mod m { fn g(); }", "enum E { A = 1 + 1 }", "impl A", "struct A(u8) where", "const X: u8 = 1;"]
            .iter()
            .map(|s| TokenStream::from_str(s).unwrap())
            .collect();
        for i in 0..8 * warm {
            drop(parse(tiny[(i % 7 * (1 + i / 1000)) as usize % 7].clone()));
        }
    }
    let mut ix: Vec<u64> = (0..n).collect();
    if reverse {
        ix.reverse();
    }
    let mut out = vec![String::new(); n as usize];
    for i in ix {
        let mut g = G::new(seed ^ i.wrapping_mul(0x9E3779B97F4A7C15), Rc::new(vec![]), dict.clone(), focus);
        let t = any_stream(&mut g);
        let (h, k) = outcome(&parse(to_ts(&t)));
        out[i as usize] = format!("{i} {k} {h:016x} {:016x}", shape_hash(&t));
    }
    out
}

/// std's pretty printer needs tokens × depth² work
pub fn pretty_ok((n, d): (usize, usize)) -> bool {
    n * (d + 3) * (d + 3) < 400_000
}
fn stream_size(ts: &TokenStream) -> (usize, usize) {
    let mut r = (0, 0);
    for t in ts.clone() {
        r.0 += 1;
        if let TokenTree::Group(g) = t {
            let (n, d) = stream_size(&g.stream());
            r.0 += n;
            r.1 = r.1.max(d + 1);
        }
    }
    r
}

// ---- C19 -------------------------------------------------------------------------------------
/// everything a user can do with an item
pub fn exercise(mut it: v::Item) {
    let ts = it.to_token_stream();
    let ok = !cfg!(miri) && pretty_ok(stream_size(&ts));
    let _ = it.span();
    let _ = format!("{it:?}");
    if ok {
        let _ = format!("{it:#?}");
    }
    let _ = (it.name(), it.attributes().len(), it.generic_params().is_some(), it.generic_params_mut().is_some());
    for a in it.attributes() {
        let _ = (a.get_single_path_segment(), a.get_value_tokens().len(), a.span(), a.to_token_stream());
    }
    if let Some(gp) = it.generic_params() {
        let _ = gp.as_inline_args().to_token_stream();
        let o = gp.as_inline_args().to_owned_args();
        let _ = (o.to_token_stream(), gp.span());
        let _ = gp.clone().with_param(v::GenericParam::lifetime("q")).with_param(v::GenericParam::ty("Q"));
    }
    let ty = |t: &v::TypeExpr| {
        if let Some(p) = t.as_path() {
            let _ = p.to_token_stream();
        }
        let _ = t.span();
    };
    let fields = |f: &v::Fields| match f {
        v::Fields::Unit => {}
        v::Fields::Tuple(t) => t.fields.items().for_each(|x| ty(&x.ty)),
        v::Fields::Named(t) => t.fields.items().for_each(|x| ty(&x.ty)),
    };
    let c = it.clone();
    match &c {
        v::Item::Struct(s) => {
            let _: Vec<String> = s.field_names().into_iter().collect();
            let _: Vec<TokenTree> = s.field_tokens().into_iter().collect();
            s.field_types().into_iter().for_each(ty);
            fields(&s.fields);
            let w = s.create_derive_where_clause(quote::quote!(A::B));
            let _ = w.to_token_stream();
            let e = s
                .clone()
                .with_param(v::GenericParam::const_param("K", quote::quote!(u8).into_iter().collect()))
                .with_where_predicate(v::WhereClausePredicate::parse(quote::quote!(Q: R<S>)));
            let _ = (e.to_token_stream(), format!("{e:?}"));
        }
        v::Item::Enum(e) => {
            let _ = e.is_c_enum();
            for x in e.variants.items() {
                let _ = (x.is_empty_variant(), x.get_single_type().is_some(), x.span());
                fields(&x.fields);
            }
            let w = e.create_derive_where_clause(quote::quote!(A::B));
            let e = e.clone().with_where_predicate(v::WhereClausePredicate::parse(quote::quote!(Q: R<S>)));
            let _ = (w.to_token_stream(), e.to_token_stream());
        }
        v::Item::Union(u) => {
            u.fields.fields.items().for_each(|x| ty(&x.ty));
            let _ = u.clone().with_param(v::GenericParam::bounded_ty("K", quote::quote!(X).into_iter().collect()));
        }
        v::Item::Function(f) => {
            for p in f.params.items() {
                if let v::FnParam::Typed(t) = p {
                    ty(&t.ty);
                }
            }
        }
        v::Item::Module(m) => {
            for x in &m.members {
                exercise(x.clone());
            }
        }
        _ => {}
    }
    lists_of(&c);
    it.attributes_mut().clear();
    drop(it);
    let _ = c.to_token_stream();
}
/// what safe code can do to a list: emptied, cut, extended, iterated and quoted in any state (refusals are fine)
fn abuse<T: Clone + ToTokens + std::fmt::Debug>(l: &v::Punctuated<T>) {
    for i in 0..7 {
        let mut x = l.clone();
        match i {
            0 => x.inner.clear(),
            1 => {
                x.inner.pop();
            }
            2 => x.inner.truncate(1),
            3 => x.inner.reverse(),
            4 => x.skip_last = !x.skip_last,
            5 => {
                if let Some((e, c)) = x.inner.first().cloned() {
                    x.push(e.clone(), None);
                    x.insert(0, e.clone(), None);
                    x.insert(1, e.clone(), Some(c.clone()));
                    let n = x.len();
                    x.insert(n, e.clone(), Some(c));
                    let _ = guarded(|| x.insert(n + 3, e, None));
                }
            }
            _ => {
                x.skip_last = true;
                x.inner.clear();
                if let Some((e, _)) = l.inner.first().cloned() {
                    x.inner.shrink_to_fit();
                    x.push(e, None);
                    x.inner.remove(0);
                }
            }
        }
        let _ = guarded(|| {
            let a = x.items().count();
            let b = x.punct().take(a + 2).map(|p| p.as_char()).collect::<String>();
            let c = (x.len(), x.is_empty(), x.iter().count(), x.iter_mut().count());
            let d = x.to_token_stream();
            let e = format!("{x:?}");
            (a, b, c, d, e)
        });
    }
}
fn wheres(w: &Option<v::WhereClause>) {
    if let Some(w) = w {
        abuse(&w.items);
        let w2 = w.clone().with_predicate(v::WhereClausePredicate::parse(quote::quote!(A::B: C)));
        let _ = (w2.to_token_stream(), w.span(), format!("{w:?}"));
    }
}
fn lists_of(it: &v::Item) {
    if let Some(gp) = it.generic_params() {
        abuse(&gp.params);
    }
    let fields = |f: &v::Fields| match f {
        v::Fields::Unit => {}
        v::Fields::Tuple(t) => abuse(&t.fields),
        v::Fields::Named(t) => abuse(&t.fields),
    };
    let func = |f: &v::Function| {
        abuse(&f.params);
        wheres(&f.where_clause);
        if let Some(g) = &f.generic_params {
            abuse(&g.params);
        }
        let _ = (f.span(), f.return_ty.as_ref().and_then(|t| t.as_path()));
    };
    let mem = |m: &v::ImplMember| match m {
        v::ImplMember::AssocFunction(f) => func(f),
        v::ImplMember::AssocConstant(c) => {
            let _ = (c.ty.as_path(), format!("{c:?}"));
        }
        v::ImplMember::AssocType(t) => {
            let _ = (t.initializer_ty.as_ref().and_then(|t| t.as_path()), format!("{t:?}"));
        }
        _ => {}
    };
    match it {
        v::Item::Struct(s) => {
            fields(&s.fields);
            wheres(&s.where_clause);
        }
        v::Item::Enum(e) => {
            abuse(&e.variants);
            for x in e.variants.items() {
                fields(&x.fields);
            }
            wheres(&e.where_clause);
        }
        v::Item::Union(u) => {
            abuse(&u.fields.fields);
            wheres(&u.where_clause);
        }
        v::Item::Function(f) => func(f),
        v::Item::Impl(i) => {
            let _ = (i.self_ty.as_path(), i.trait_ty.as_ref().and_then(|t| t.as_path()));
            wheres(&i.where_clause);
            i.body_items.iter().for_each(mem);
        }
        v::Item::ExternBlock(i) => i.body_items.iter().for_each(mem),
        v::Item::Trait(t) => {
            wheres(&t.where_clause);
            for m in &t.body_items {
                if let v::TraitMember::AssocFunction(f) = m {
                    func(f);
                }
            }
        }
        v::Item::Constant(c) => {
            let _ = c.ty.as_path();
        }
        _ => {}
    }
}
/// a copy that shares nothing with the original
fn deep(ts: TokenStream) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let mut h = proc_macro2::Group::new(g.delimiter(), deep(g.stream()));
                h.set_span(g.span());
                h.into()
            }
            t => t,
        })
        .collect()
}
/// the same tokens under names that never occurred before
pub fn renamed(ts: TokenStream) -> TokenStream {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static N: AtomicU64 = AtomicU64::new(0);
    fn go(ts: TokenStream, n: u64) -> TokenStream {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Group(g) => {
                    let mut h = proc_macro2::Group::new(g.delimiter(), go(g.stream(), n));
                    h.set_span(g.span());
                    h.into()
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if s.starts_with("r#") || s == "_" || !s.is_ascii() || crate::gen::keyword(&s) || matches!(s.as_str(), "union" | "default" | "macro_rules" | "auto" | "safe" | "raw") || s.len() > 64 {
                        TokenTree::Ident(i)
                    } else {
                        proc_macro2::Ident::new(&format!("{s}__{n}"), i.span()).into()
                    }
                }
                t => t,
            })
            .collect()
    }
    go(ts, N.fetch_add(1, Relaxed))
}
pub fn use_stream(ts: TokenStream) -> &'static str {
    match parse(ts) {
        P::Item(i) => {
            exercise(*i);
            "accepted"
        }
        P::Err(e) => {
            let mut f = e.clone();
            f.combine(v::Error::new("x"));
            let _ = (f.to_compile_error(), format!("{f:?} {f}"));
            "error"
        }
        P::Panic(_) => "panic",
    }
}
pub fn c19(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let t = any_stream(g);
    cx.start(&t);
    cov::reset_steps(limit_for(cx.tokens).saturating_mul(40));
    let mut least = (i64::MAX, i64::MAX);
    // caches and lazily created state of the runtime settle in the first run
    match guarded(|| use_stream(to_ts(&t))) {
        Ok(r) => ev(r),
        Err(_) => ev("panic_while_inspecting"),
    }
    for _ in 0..4 {
        // under fresh names, so that something remembered about an earlier run counts as left behind
        let fresh = renamed(to_ts(&t));
        forget_panic();
        let b0 = alloc::live();
        let ts = deep(fresh.clone());
        let _ = guarded(|| use_stream(ts));
        forget_panic();
        let b1 = alloc::live();
        let d = (b1.0 - b0.0, b1.1 - b0.1);
        ev("memory.balance_checked");
        if d.0 == 0 && d.1 == 0 {
            return Ok(());
        }
        if d.0 < least.0 {
            least = d;
        }
    }
    Err(format!("{} bytes in {} blocks stay allocated every time these tokens are parsed and dropped", least.0, least.1))
}

// ---- C20 -------------------------------------------------------------------------------------
pub fn work_of(t: &[R]) -> (u64, u64, u64) {
    let ts = to_ts(t);
    cov::reset_steps(u64::MAX);
    let a0 = alloc::total();
    let r = parse(ts);
    let s = cov::steps();
    let a = alloc::total() - a0;
    let q = match &r {
        P::Item(i) => {
            cov::reset_steps(u64::MAX);
            let _ = i.to_token_stream();
            cov::steps()
        }
        _ => 0,
    };
    (s, a, q)
}
pub fn c20(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    // a budget in which no single call may run away, whatever the growth check says
    let guard = |n: usize| 60_000_000 + n as u64 * 200_000;
    match g.below(16) {
        0..=3 => {
            let i = g.below(fam::FAMS.len() as u32) as usize;
            let (name, f) = fam::FAMS[i];
            let n = *g.pick(&[60usize, 100, 128, 180]);
            let mode = *g.pick(&[SpaceMode::MaxJoint, SpaceMode::Alone]);
            let ts: Vec<Ts> = [n, 2 * n, 4 * n].iter().map(|k| f(*k)).collect();
            for t in &ts {
                finalize(t, mode, &mut 1);
            }
            cx.start(&ts[0]);
            cx.hash ^= (i as u64) << 32 ^ n as u64;
            cx.input = vec![format!("family `{name}` at sizes {n}, {}, {}", 2 * n, 4 * n)];
            let mut w = vec![];
            for t in &ts {
                let k = count(t);
                let ts = to_ts(t);
                cov::reset_steps(guard(k));
                let a0 = alloc::total();
                let r = parse(ts);
                let (s, a) = (cov::steps(), alloc::total() - a0);
                cov::reset_steps(guard(k));
                if let P::Item(i) = &r {
                    let _ = i.to_token_stream();
                    let q = cov::steps();
                    cov::reset_steps(guard(k));
                    let _ = format!("{i:?}");
                    let b = cov::steps();
                    w.push([s, a, q, b, k as u64]);
                } else {
                    w.push([s, a, 0, 0, k as u64]);
                }
                ev("work.measured");
            }
            growth(&w, name)
        }
        6..=8 => {
            // any part of a generated stream repeated, wrapped or nested in itself
            let (what, f) = pumped(g);
            let ts: Vec<Ts> = [20usize, 40, 80].iter().map(|k| f(*k)).collect();
            for t in &ts {
                finalize(t, SpaceMode::MaxJoint, &mut 1);
            }
            cx.start(&ts[0]);
            let mut w = vec![];
            for t in &ts {
                let k = count(t);
                let ts = to_ts(t);
                cov::reset_steps(guard(k));
                let a0 = alloc::total();
                let r = parse(ts);
                let (s, a) = (cov::steps(), alloc::total() - a0);
                cov::reset_steps(guard(k));
                let (mut q, mut b) = (0, 0);
                if let P::Item(i) = &r {
                    ev("work.pumped_accepted");
                    let _ = i.to_token_stream();
                    q = cov::steps();
                    cov::reset_steps(guard(k));
                    let mut h = 0;
                    queries(&mut h, i);
                    b = cov::steps();
                }
                w.push([s, a, q, b, k as u64]);
                ev("work.pumped");
            }
            // the outcome may change with the size, so only growth in both steps counts
            for (j, what2) in ["control-flow steps of parsing", "bytes allocated by parsing", "steps of quoting", "steps of queries"].iter().enumerate() {
                let floor = if j == 1 { 400_000.0 } else { 20_000.0 };
                let over = |i: usize| {
                    let (a, b) = (w[i - 1][j] as f64, w[i][j] as f64);
                    let r = (w[i][4] as f64 / w[i - 1][4] as f64).max(2.0);
                    a > 0.0 && b > a * r * r * 1.2 + floor
                };
                if over(1) && over(2) {
                    return Err(format!("{what2} of a stream ({what}) grow from {} over {} to {} while its tokens grow from {} over {} to {}", w[0][j], w[1][j], w[2][j], w[0][4], w[1][4], w[2][4]));
                }
            }
            Ok(())
        }
        4 | 5 => {
            // a generated element repeated
            let (what, f) = repeated(g);
            let sizes = [24usize, 48, 96];
            let ts: Vec<Ts> = sizes.iter().map(|k| f(*k)).collect();
            for t in &ts {
                finalize(t, SpaceMode::MaxJoint, &mut 1);
            }
            cx.start(&ts[0]);
            let mut w = vec![];
            for t in &ts {
                let k = count(t);
                let ts = to_ts(t);
                cov::reset_steps(guard(k));
                let a0 = alloc::total();
                let r = parse(ts);
                let (s, a) = (cov::steps(), alloc::total() - a0);
                cov::reset_steps(guard(k));
                let mut q = 0;
                if let P::Item(i) = &r {
                    let _ = i.to_token_stream();
                    q = cov::steps();
                }
                w.push([s, a, q, 0, k as u64]);
                ev("work.measured");
            }
            growth(&w, what)
        }
        _ => {
            let t = any_stream(g);
            cx.start(&t);
            let n = count(&t) as u64;
            let ts = to_ts(&t);
            cov::reset_steps(guard(n as usize));
            let a0 = alloc::total();
            let r = parse(ts);
            let (s, a) = (cov::steps(), alloc::total() - a0);
            ev("work.bounded");
            // quadratic at worst
            let lim = 400_000 + 3_000 * n + 60 * n * n;
            if s > lim {
                return Err(format!("{s} control-flow steps for {n} tokens ({})", r.describe()));
            }
            if a > 40_000_000 + 60_000 * n {
                return Err(format!("{a} bytes allocated for {n} tokens"));
            }
            if let P::Item(i) = r {
                cov::reset_steps(guard(n as usize));
                let _ = guarded(|| exercise(*i));
            }
            Ok(())
        }
    }
}
/// doubling the size at most roughly quadruples the work
fn growth(w: &[[u64; 5]], name: &str) -> Result<(), String> {
    for (j, what) in ["control-flow steps of parsing", "bytes allocated by parsing", "steps of quoting", "steps of formatting"].iter().enumerate() {
        for i in 1..w.len() {
            let (a, b) = (w[i - 1][j] as f64, w[i][j] as f64);
            // how much bigger the input really became
            let r = (w[i][4] as f64 / w[i - 1][4] as f64).max(2.0);
            let floor = if j == 1 { 200_000.0 } else { 4_000.0 };
            if b > floor && b > a * r * r * 1.2 + floor {
                return Err(format!("{what} of `{name}` grow from {a} to {b} when the input grows {r:.2} times"));
            }
        }
        // over both doublings
        let (a, b) = (w[0][j] as f64, w[2][j] as f64);
        let r = (w[2][4] as f64 / w[0][4] as f64).max(4.0);
        let floor = if j == 1 { 400_000.0 } else { 8_000.0 };
        if b > a * r * r * 1.25 + floor {
            return Err(format!("{what} of `{name}` grow from {a} to {b} when the input grows {r:.2} times"));
        }
    }
    Ok(())
}
/// a family made from a generated stream: a part of it grows
fn pumped(g: &mut G) -> Fam2 {
    g.knobs();
    g.k.size = 0;
    g.big = None;
    g.deep = None;
    let mut t = g.item(crate::gen::Where::Top, 1).toks();
    if g.chance(4) {
        t = any_stream(g);
        g.big = None;
        g.deep = None;
    }
    if t.is_empty() || count(&t) > 300 {
        t = fam::FAMS[g.below(fam::FAMS.len() as u32) as usize].1(2);
    }
    // the list that grows
    let mut path = vec![];
    let mut at: &Ts = &t;
    loop {
        let gs: Vec<usize> = at.iter().enumerate().filter(|(_, x)| matches!(&x.k, K::G(_, i) if !i.is_empty())).map(|x| x.0).collect();
        if gs.is_empty() || g.chance(16) {
            break;
        }
        let i = gs[g.below(gs.len() as u32) as usize];
        path.push(i);
        at = match &at[i].k {
            K::G(_, i) => i,
            _ => unreachable!(),
        };
    }
    let n = at.len() as u32;
    let a = g.below(n) as usize;
    let b = (a + 1 + g.below(4) as usize).min(at.len());
    let part: Ts = at[a..b].iter().map(fresh).collect();
    let kind = g.below(6);
    let d = *g.pick(&[D::None, D::None, D::Paren, D::Bracket, D::Brace]);
    let cut = g.below(path.len() as u32 + 1) as usize;
    let make = move |n: usize| -> Ts {
        let wrap = |mut x: Ts, n: usize, f: &dyn Fn(Ts) -> Ts| -> Ts {
            for _ in 0..n {
                x = f(x);
            }
            x
        };
        let put = |x: Ts| replaced(&t, &path, a..b, x);
        match kind {
            0 | 1 => put((0..n).flat_map(|_| part.iter().map(fresh).collect::<Ts>()).collect()),
            2 | 3 => put(wrap(part.iter().map(fresh).collect(), n, &|x| vec![grp(d, x)])),
            4 => put(wrap(part.iter().map(fresh).collect(), n, &|x| {
                let mut v = vec![id("A"), p('<')];
                v.extend(x);
                v.push(p('>'));
                v
            })),
            _ => {
                // the tokens at some level of the path, nested in themselves
                let mut lvl: &Ts = &t;
                for i in &path[..cut] {
                    lvl = match &lvl[*i].k {
                        K::G(_, i) => i,
                        _ => unreachable!(),
                    };
                }
                let core: Ts = lvl.iter().map(fresh).collect();
                let rest = &path[cut..];
                let x = wrap(part.iter().map(fresh).collect(), n, &|x| replaced(&core, rest, a..b, x));
                if cut == 0 {
                    x
                } else {
                    replaced(&t, &path[..cut], 0..lvl.len(), x)
                }
            }
        }
    };
    (["repeated", "repeated", "wrapped", "wrapped", "bracketed", "nested in itself"][kind as usize], Box::new(make))
}
/// a copy of `t` with the tokens `r` of the list at `path` replaced
fn replaced(t: &Ts, path: &[usize], r: std::ops::Range<usize>, x: Ts) -> Ts {
    match path.split_first() {
        None => t[..r.start].iter().map(fresh).chain(x).chain(t[r.end..].iter().map(fresh)).collect(),
        Some((i, rest)) => {
            let mut v: Ts = t[..*i].iter().map(fresh).collect();
            match &t[*i].k {
                K::G(d, inner) => v.push(grp(*d, replaced(inner, rest, r, x))),
                _ => unreachable!(),
            }
            v.extend(t[i + 1..].iter().map(fresh));
            v
        }
    }
}
type Fam2 = (&'static str, Box<dyn Fn(usize) -> Ts>);
fn repeated(g: &mut G) -> Fam2 {
    g.knobs();
    g.k.size = 0;
    g.big = None;
    g.deep = None;
    let list = |head: Vec<&'static str>, d: D, el: Ts, semi: bool| -> Box<dyn Fn(usize) -> Ts> {
        Box::new(move |n| {
            let mut t: Ts = head.iter().map(|s| id(s)).collect();
            let mut b = vec![];
            for _ in 0..n {
                b.extend(el.iter().map(fresh));
            }
            t.push(grp(d, b));
            if semi {
                t.push(p(';'));
            }
            t
        })
    };
    let (what, mut el, head, d, semi): (&str, Ts, Vec<&'static str>, D, bool) = match g.below(9) {
        0 => {
            let (_, l) = g.named_fields();
            ("repeated fields", l.items.first().map(|x| x.0.toks()).unwrap_or_else(|| vec![id("a"), p(':'), id("b")]), vec!["struct", "S"], D::Brace, false)
        }
        1 => {
            let (_, l) = g.tuple_fields();
            ("repeated tuple fields", l.items.first().map(|x| x.0.toks()).unwrap_or_else(|| vec![id("b")]), vec!["struct", "S"], D::Paren, true)
        }
        2 => {
            let (_, l) = g.variants(16);
            ("repeated variants", l.items.first().map(|x| x.0.toks()).unwrap_or_else(|| vec![id("A")]), vec!["enum", "E"], D::Brace, false)
        }
        3 => ("repeated impl members", g.member(crate::gen::Where::Impl).toks(), vec!["impl", "X"], D::Brace, false),
        4 => ("repeated trait members", g.member(crate::gen::Where::Trait).toks(), vec!["trait", "X"], D::Brace, false),
        5 => ("repeated extern members", g.member(crate::gen::Where::Extern).toks(), vec!["extern"], D::Brace, false),
        6 => ("repeated mod members", g.item(crate::gen::Where::Mod, 1).toks(), vec!["mod", "m"], D::Brace, false),
        7 => {
            let q = g.param(false, crate::gen::Where::Top);
            ("repeated fn params", q.toks(), vec!["fn", "f"], D::Paren, true)
        }
        _ => {
            let pr = g.pred_first().toks();
            return (
                "repeated predicates",
                Box::new(move |n| {
                    let mut t = vec![id("struct"), id("S"), id("where")];
                    for _ in 0..n {
                        t.extend(pr.iter().map(fresh));
                        t.push(p(','));
                    }
                    t.push(grp(D::Brace, vec![]));
                    t
                }),
            );
        }
    };
    if matches!(what, "repeated fields" | "repeated tuple fields" | "repeated variants" | "repeated fn params") {
        el.push(p(','));
    }
    (what, list(head, d, el, semi))
}

// ---- C21 -------------------------------------------------------------------------------------
fn words(ts: &[R], ids: &mut Vec<Rc<str>>) {
    for t in ts {
        match &t.k {
            K::Id(s) | K::Lit(s) => ids.push(s.clone()),
            K::G(_, i) => words(i, ids),
            _ => {}
        }
    }
}
pub fn c21(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let (_m, t) = decl(g, cx);
    let it = parse_valid(&t)?;
    let a = format!("{it:?}");
    let ok = pretty_ok((count(&t), depth(&t)));
    let pretty = |x: &v::Item| if ok { format!("{x:#?}") } else { String::new() };
    let b = pretty(&it);
    let mut c = it.clone();
    ev("debug.formatted");
    if ok {
        ev("debug.formatted_prettily");
    }
    if format!("{c:?}") != a || pretty(&c) != b {
        return Err("a clone is formatted differently".into());
    }
    eq_it(&t, c.to_token_stream().into_iter(), LOC).map_err(|m| format!("quoting the clone: {m}"))?;
    // every word and literal of the declaration is shown, as often as it is written
    let mut w = vec![];
    words(&t, &mut w);
    all_shown(&w, &a, "compact")?;
    if ok {
        all_shown(&w, &b, "pretty")?;
    }
    // the values derived from it: paths of types, argument lists of parameters
    let mut r = Ok(());
    each_type(&it, &mut |t| {
        if r.is_ok() {
            if let Some(p) = t.as_path() {
                ev("debug.path_formatted");
                r = dbg_ok(&p, ok);
                for s in &p.segments {
                    if r.is_ok() {
                        r = dbg_ok(s, ok);
                    }
                    if let Some(l) = &s.generic_args {
                        if r.is_ok() {
                            r = dbg_ok(l, ok);
                        }
                    }
                }
            }
        }
    });
    r?;
    if let Some(gp) = it.generic_params() {
        ev("debug.argument_list_formatted");
        dbg_ok(gp, ok)?;
        dbg_ok(&gp.as_inline_args().to_owned_args(), ok)?;
    }
    // edits of the clone do not affect the original
    let k = g.below(4);
    scramble(&mut c, k);
    ev("clone.edited");
    eq_it(&t, it.to_token_stream().into_iter(), LOC).map_err(|m| format!("editing the clone changed the original: {m}"))?;
    if format!("{it:?}") != a {
        return Err("editing the clone changed the original's Debug output".into());
    }
    ev("debug.edited_formatted");
    dbg_ok(&c, ok).map_err(|m| format!("edited value: {m}"))?;
    // overwriting a value with a clone
    c.clone_from(&it);
    eq_it(&t, c.to_token_stream().into_iter(), LOC).map_err(|m| format!("quoting after clone_from: {m}"))?;
    if format!("{c:?}") != a {
        return Err("after clone_from the value is formatted differently".into());
    }
    overwrite(&mut c, &it, k);
    ev("clone.overwritten");
    eq_it(&t, c.to_token_stream().into_iter(), LOC).map_err(|m| format!("quoting after clone_from of the parts: {m}"))?;
    let keep = it.clone();
    let mut it = it;
    if k % 2 == 0 {
        scramble(&mut it, k + 1);
    }
    drop(it);
    drop(c);
    ev("clone.outlived");
    eq_it(&t, keep.to_token_stream().into_iter(), LOC).map_err(|m| format!("editing or dropping the original changed the clone: {m}"))?;
    if format!("{keep:?}") != a {
        return Err("dropping the original changed the clone's Debug output".into());
    }
    Ok(())
}
/// formats fully, compactly and prettily, like its clone, which quotes like it
fn dbg_ok<T: std::fmt::Debug + Clone + ToTokens>(x: &T, ok: bool) -> Result<(), String> {
    let t = x.to_token_stream();
    let c = x.clone();
    if !same_tokens(&t, &c.to_token_stream()) {
        return Err(format!("a clone of `{t}` is quoted as `{}`", c.to_token_stream()));
    }
    let mut w = vec![];
    words_of(t.clone(), &mut w);
    let a = format!("{x:?}");
    all_shown(&w, &a, "compact")?;
    if format!("{c:?}") != a {
        return Err(format!("a clone of `{t}` is formatted differently"));
    }
    if ok {
        let b = format!("{x:#?}");
        all_shown(&w, &b, "pretty")?;
        if format!("{c:#?}") != b {
            return Err(format!("a clone of `{t}` is formatted differently"));
        }
    }
    Ok(())
}
fn same_tokens(a: &TokenStream, b: &TokenStream) -> bool {
    a.to_string() == b.to_string()
}
fn words_of(ts: TokenStream, w: &mut Vec<Rc<str>>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => w.push(i.to_string().into()),
            TokenTree::Literal(l) => w.push(l.to_string().into()),
            TokenTree::Group(g) => words_of(g.stream(), w),
            _ => {}
        }
    }
}
/// every word occurs in the output, as often as it is written
fn all_shown(w: &[Rc<str>], o: &str, what: &str) -> Result<(), String> {
    use std::collections::HashMap;
    let sep = |c: char| !(c.is_alphanumeric() || c == '_' || c == '#');
    let mut have: HashMap<&str, usize> = HashMap::new();
    for x in o.split(sep) {
        *have.entry(x).or_default() += 1;
    }
    let mut want: HashMap<&str, usize> = HashMap::new();
    for x in w {
        *want.entry(x).or_default() += 1;
    }
    for (s, n) in want {
        ev("debug.word_looked_for");
        if have.get(s).copied().unwrap_or(0) < n && shown(o, s) < n {
            return Err(format!("the {what} Debug output does not show `{s}` ({n} times)"));
        }
    }
    Ok(())
}
/// how often the word itself, or the word as the contents of a debug string, occurs
fn shown(o: &str, s: &str) -> usize {
    let e = format!("{s:?}");
    let mut n = o.matches(s).count();
    if e[1..e.len() - 1] != *s {
        n += o.matches(&e[1..e.len() - 1]).count();
    }
    if n == 0 && s.contains('\n') {
        // pretty output indents every line
        n = s.lines().map(|l| o.matches(l).count()).min().unwrap_or(0);
    }
    n
}
/// every type expression of the item
fn each_type(it: &v::Item, f: &mut dyn FnMut(&v::TypeExpr)) {
    fn fields(x: &v::Fields, f: &mut dyn FnMut(&v::TypeExpr)) {
        match x {
            v::Fields::Unit => {}
            v::Fields::Tuple(t) => t.fields.items().for_each(|x| f(&x.ty)),
            v::Fields::Named(t) => t.fields.items().for_each(|x| f(&x.ty)),
        }
    }
    fn func(x: &v::Function, f: &mut dyn FnMut(&v::TypeExpr)) {
        for p in x.params.items() {
            if let v::FnParam::Typed(t) = p {
                f(&t.ty)
            }
        }
        x.return_ty.iter().for_each(|t| f(t));
    }
    match it {
        v::Item::Struct(s) => fields(&s.fields, f),
        v::Item::Enum(e) => e.variants.items().for_each(|x| fields(&x.fields, f)),
        v::Item::Union(u) => u.fields.fields.items().for_each(|x| f(&x.ty)),
        v::Item::Function(x) => func(x, f),
        v::Item::Impl(i) => {
            f(&i.self_ty);
            i.trait_ty.iter().for_each(|t| f(t));
            for m in &i.body_items {
                match m {
                    v::ImplMember::AssocFunction(x) => func(x, f),
                    v::ImplMember::AssocConstant(c) => f(&c.ty),
                    v::ImplMember::AssocType(t) => t.initializer_ty.iter().for_each(|t| f(t)),
                    _ => {}
                }
            }
        }
        v::Item::Constant(c) => f(&c.ty),
        v::Item::TypeAlias(t) => t.initializer_ty.iter().for_each(|t| f(t)),
        v::Item::Module(m) => m.members.iter().for_each(|m| each_type(m, f)),
        _ => {}
    }
}
/// every list of `a`, changed before, overwritten with that of `b`
fn overwrite(a: &mut v::Item, b: &v::Item, k: u32) {
    fn list<T: Clone>(a: &mut v::Punctuated<T>, b: &v::Punctuated<T>, k: u32) {
        a.skip_last = !a.skip_last;
        if k % 2 == 0 {
            a.inner.truncate(1);
        } else if let Some(x) = a.inner.first().cloned() {
            a.inner.push(x);
        }
        a.clone_from(b);
    }
    fn fields(a: &mut v::Fields, b: &v::Fields, k: u32) {
        match (a, b) {
            (v::Fields::Tuple(x), v::Fields::Tuple(y)) => list(&mut x.fields, &y.fields, k),
            (v::Fields::Named(x), v::Fields::Named(y)) => list(&mut x.fields, &y.fields, k),
            (x, y) => x.clone_from(y),
        }
    }
    if let (Some(x), Some(y)) = (a.generic_params_mut(), b.generic_params()) {
        list(&mut x.params, &y.params, k);
    }
    let w = |x: &mut Option<v::WhereClause>, y: &Option<v::WhereClause>| {
        if let (Some(x), Some(y)) = (x, y) {
            list(&mut x.items, &y.items, k);
        }
    };
    match (a, b) {
        (v::Item::Struct(x), v::Item::Struct(y)) => {
            fields(&mut x.fields, &y.fields, k);
            w(&mut x.where_clause, &y.where_clause);
        }
        (v::Item::Enum(x), v::Item::Enum(y)) => {
            list(&mut x.variants, &y.variants, k);
            w(&mut x.where_clause, &y.where_clause);
        }
        (v::Item::Union(x), v::Item::Union(y)) => {
            list(&mut x.fields.fields, &y.fields.fields, k);
            w(&mut x.where_clause, &y.where_clause);
        }
        (v::Item::Function(x), v::Item::Function(y)) => {
            list(&mut x.params, &y.params, k);
            w(&mut x.where_clause, &y.where_clause);
            x.qualifiers = Default::default();
            x.qualifiers.clone_from(&y.qualifiers);
        }
        (v::Item::Trait(x), v::Item::Trait(y)) => w(&mut x.where_clause, &y.where_clause),
        (v::Item::Impl(x), v::Item::Impl(y)) => w(&mut x.where_clause, &y.where_clause),
        _ => {}
    }
}
fn scramble(i: &mut v::Item, k: u32) {
    i.attributes_mut().clear();
    if let Some(gp) = i.generic_params_mut() {
        gp.params.push(v::GenericParam::ty("Zz"), None);
        gp.params.reverse();
    }
    let n = Ident::new("changed", Span::call_site());
    match i {
        v::Item::Struct(s) => {
            s.name = n;
            match &mut s.fields {
                v::Fields::Tuple(f) => {
                    f.fields.reverse();
                    f.fields.inner.truncate(k as usize);
                }
                v::Fields::Named(f) => {
                    for x in f.fields.iter_mut() {
                        x.0.name = Ident::new("changed", Span::call_site());
                        x.0.ty.tokens.clear();
                    }
                }
                v::Fields::Unit => {}
            }
            s.where_clause = None;
        }
        v::Item::Enum(s) => {
            s.name = n;
            s.variants.inner.truncate(k as usize);
            for x in s.variants.iter_mut() {
                x.0.fields = v::Fields::Unit;
            }
        }
        v::Item::Union(s) => {
            s.name = n;
            s.fields.fields.inner.truncate(1);
        }
        v::Item::Module(m) => {
            m.name = n;
            for x in m.members.iter_mut() {
                scramble(x, k);
            }
        }
        v::Item::Trait(m) => {
            m.name = n;
            m.body_items.truncate(k as usize);
        }
        v::Item::Impl(m) => {
            m.self_ty.tokens.clear();
            m.body_items.truncate(k as usize);
        }
        v::Item::TypeAlias(m) => m.name = n,
        v::Item::Function(f) => {
            f.name = n;
            f.params.inner.truncate(k as usize);
            f.body = None;
            f.return_ty = None;
        }
        v::Item::Constant(m) => m.name = n,
        v::Item::UseDeclaration(m) => m.tk_semicolon = Punct::new(',', Spacing::Alone),
        v::Item::Macro(m) => m.name = n,
        v::Item::ExternBlock(m) => m.body_items.truncate(k as usize),
        v::Item::ExternCrate(m) => m.name = n,
        _ => {}
    }
}
