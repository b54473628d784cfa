//! Own token trees, independent of proc_macro2, with one identity ("span id") per token.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type R = Rc<Node>;
pub type Ts = Vec<R>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sp {
    Free,
    Alone,
    Joint,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum D {
    Paren,
    Brace,
    Bracket,
    None,
}

impl D {
    pub fn pm(self) -> Delimiter {
        match self {
            D::Paren => Delimiter::Parenthesis,
            D::Brace => Delimiter::Brace,
            D::Bracket => Delimiter::Bracket,
            D::None => Delimiter::None,
        }
    }
    pub fn of(d: Delimiter) -> D {
        match d {
            Delimiter::Parenthesis => D::Paren,
            Delimiter::Brace => D::Brace,
            Delimiter::Bracket => D::Bracket,
            Delimiter::None => D::None,
        }
    }
}

pub enum K {
    Id(Rc<str>),
    P(char),
    Lit(Rc<str>),
    G(D, Ts),
}

pub struct Node {
    pub k: K,
    pub sp: Cell<Sp>,
    pub joint: Cell<bool>,
    /// index of the (first) minted location of this token
    pub id: Cell<u32>,
    /// index of the closing delimiter's location, for groups
    pub id2: Cell<u32>,
}

pub fn node(k: K, sp: Sp) -> R {
    Rc::new(Node {
        k,
        sp: Cell::new(sp),
        joint: Cell::new(false),
        id: Cell::new(u32::MAX),
        id2: Cell::new(u32::MAX),
    })
}
pub fn id(s: &str) -> R {
    node(K::Id(s.into()), Sp::Free)
}
pub fn p(c: char) -> R {
    node(K::P(c), Sp::Free)
}
pub fn pj(c: char) -> R {
    node(K::P(c), Sp::Joint)
}
pub fn lit(s: &str) -> R {
    node(K::Lit(s.into()), Sp::Free)
}
pub fn grp(d: D, t: Ts) -> R {
    node(K::G(d, t), Sp::Free)
}
/// a copy with fresh identity
pub fn fresh(r: &R) -> R {
    match &r.k {
        K::Id(s) => node(K::Id(s.clone()), r.sp.get()),
        K::P(c) => node(K::P(*c), r.sp.get()),
        K::Lit(s) => node(K::Lit(s.clone()), r.sp.get()),
        K::G(d, t) => node(K::G(*d, t.iter().map(fresh).collect()), r.sp.get()),
    }
}

/// the same tokens, for another thread: text, kind, spacing and location
#[derive(Clone)]
pub struct Sent(String, char, bool, u32, u32, Option<(D, Vec<Sent>)>);
pub fn send(t: &[R]) -> Vec<Sent> {
    t.iter()
        .map(|n| {
            let (s, c, g) = match &n.k {
                K::Id(s) => (s.to_string(), 'i', None),
                K::Lit(s) => (s.to_string(), 'l', None),
                K::P(c) => (c.to_string(), 'p', None),
                K::G(d, i) => (String::new(), 'g', Some((*d, send(i)))),
            };
            Sent(s, c, n.joint.get(), n.id.get(), n.id2.get(), g)
        })
        .collect()
}
pub fn received(t: &[Sent]) -> Ts {
    t.iter()
        .map(|x| {
            let n = match (&x.5, x.1) {
                (Some((d, i)), _) => grp(*d, received(i)),
                (_, 'i') => id(&x.0),
                (_, 'l') => lit(&x.0),
                _ => p(x.0.chars().next().unwrap()),
            };
            n.joint.set(x.2);
            n.id.set(x.3);
            n.id2.set(x.4);
            n
        })
        .collect()
}

impl Node {
    pub fn is_p(&self, c: char) -> bool {
        matches!(&self.k, K::P(x) if *x == c)
    }
    pub fn is_id(&self, s: &str) -> bool {
        matches!(&self.k, K::Id(x) if &**x == s)
    }
    pub fn text(&self) -> &str {
        match &self.k {
            K::Id(s) | K::Lit(s) => s,
            _ => "",
        }
    }
    pub fn inner(&self) -> &[R] {
        match &self.k {
            K::G(_, t) => t,
            _ => &[],
        }
    }
    pub fn delim(&self) -> Option<D> {
        match &self.k {
            K::G(d, _) => Some(*d),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SpaceMode {
    Alone,
    MaxJoint,
    Random(u64),
}

fn next_rand(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Decides the spacing of every punct the way a lexer could, and numbers all tokens in order.
pub fn finalize(ts: &[R], mode: SpaceMode, next: &mut u32) {
    let mut st = match mode {
        SpaceMode::Random(s) => s,
        _ => 0,
    };
    fin(ts, mode, next, &mut st);
    ensure_pool(*next as usize + 1);
}

fn fin(ts: &[R], mode: SpaceMode, next: &mut u32, st: &mut u64) {
    for (i, t) in ts.iter().enumerate() {
        t.id.set(*next);
        *next += 1;
        match &t.k {
            K::P(c) => {
                let j = match t.sp.get() {
                    Sp::Alone => false,
                    Sp::Joint => true,
                    Sp::Free => match ts.get(i + 1).map(|n| &n.k) {
                        Some(K::P(n)) => {
                            if *c == ':' && *n == ':' {
                                false
                            } else {
                                match mode {
                                    SpaceMode::Alone => false,
                                    SpaceMode::MaxJoint => true,
                                    SpaceMode::Random(_) => next_rand(st) & 1 == 0,
                                }
                            }
                        }
                        _ => false,
                    },
                };
                t.joint.set(j);
            }
            K::G(_, inner) => {
                fin(inner, mode, next, st);
                t.id2.set(*next);
                *next += 1;
            }
            _ => {}
        }
    }
}

pub fn count(ts: &[R]) -> usize {
    ts.iter()
        .map(|t| 1 + count(t.inner()))
        .sum()
}

pub fn depth(ts: &[R]) -> usize {
    ts.iter()
        .map(|t| match &t.k {
            K::G(_, i) => 1 + depth(i),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

struct Pool {
    spans: Vec<Span>,
}
thread_local! {
    static POOL: RefCell<Pool> = const { RefCell::new(Pool { spans: Vec::new() }) };
    static LITS: RefCell<HashMap<Rc<str>, Literal>> = RefCell::new(HashMap::new());
}

/// makes sure minted locations 0..n exist on this thread
pub fn ensure_pool(n: usize) {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if p.spans.len() < n {
            let n = (n + 1).next_power_of_two().max(if cfg!(miri) { 64 } else { 1 << 16 });
            let mut s = String::with_capacity(n * 2);
            for _ in 0..n {
                s.push_str("a ");
            }
            let ts: TokenStream = s.parse().unwrap();
            p.spans = ts.into_iter().map(|t| t.span()).collect();
        }
    })
}

pub fn mint(i: u32) -> Span {
    ensure_pool(i as usize + 1);
    POOL.with(|p| p.borrow().spans[i as usize])
}

/// Inside the compiler the library's tokens have the compiler's own locations; `id` and `id2` of a token
/// are then the first byte and the byte after the last one, and this reads a span.
pub static COMPILER: std::sync::OnceLock<fn(Span) -> (usize, usize)> = std::sync::OnceLock::new();

pub fn range_of(s: Span) -> (usize, usize) {
    if let Some(f) = COMPILER.get() {
        return f(s);
    }
    let r = s.byte_range();
    (r.start, r.end)
}

pub fn mk_lit(s: &Rc<str>) -> Literal {
    LITS.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(l) = m.get(s) {
            return l.clone();
        }
        let l: Literal = s.parse().unwrap_or_else(|e| panic!("harness literal {s:?}: {e}"));
        if m.len() < 4096 {
            m.insert(s.clone(), l.clone());
        }
        l
    })
}

pub fn mk_ident(s: &str, sp: Span) -> Ident {
    match s.strip_prefix("r#") {
        Some(r) => Ident::new_raw(r, sp),
        None => Ident::new(s, sp),
    }
}

pub fn to_tt(n: &Node) -> TokenTree {
    let sp = mint(n.id.get());
    match &n.k {
        K::Id(s) => mk_ident(s, sp).into(),
        K::P(c) => {
            let mut x = Punct::new(*c, if n.joint.get() { Spacing::Joint } else { Spacing::Alone });
            x.set_span(sp);
            x.into()
        }
        K::Lit(s) => {
            let mut x = mk_lit(s);
            x.set_span(sp);
            x.into()
        }
        K::G(d, inner) => {
            let mut g = Group::new(d.pm(), to_ts(inner));
            let s2 = mint(n.id2.get());
            g.set_span(sp.join(s2).expect("join"));
            g.into()
        }
    }
}

pub fn to_ts(ts: &[R]) -> TokenStream {
    ts.iter().map(|n| to_tt(n)).collect()
}

/// Reads a real token stream into our own representation (text and spacing only).
pub fn from_ts(ts: TokenStream) -> Ts {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => id(&i.to_string()),
            TokenTree::Punct(x) => node(
                K::P(x.as_char()),
                if x.spacing() == Spacing::Joint { Sp::Joint } else { Sp::Alone },
            ),
            TokenTree::Literal(l) => lit(&l.to_string()),
            TokenTree::Group(g) => grp(D::of(g.delimiter()), from_ts(g.stream())),
        })
        .collect()
}

#[derive(Clone, Copy)]
pub struct Chk {
    pub spacing: bool,
    pub span: bool,
}

pub fn eq_tt(e: &Node, a: &TokenTree, c: Chk) -> Result<(), String> {
    match (&e.k, a) {
        (K::Id(s), TokenTree::Ident(i)) => {
            if i != &**s {
                return Err(format!("expected identifier `{s}`, found `{i}`"));
            }
        }
        (K::P(ch), TokenTree::Punct(x)) => {
            if x.as_char() != *ch {
                return Err(format!("expected `{ch}`, found `{}`", x.as_char()));
            }
            if c.spacing && (x.spacing() == Spacing::Joint) != e.joint.get() {
                return Err(format!("spacing of `{ch}` changed to {:?}", x.spacing()));
            }
        }
        (K::Lit(s), TokenTree::Literal(l)) => {
            let t = l.to_string();
            if t != **s {
                return Err(format!("expected literal {s}, found {t}"));
            }
        }
        (K::G(d, inner), TokenTree::Group(g)) => {
            if g.delimiter() != d.pm() {
                return Err(format!("delimiter {:?} became {:?}", d, g.delimiter()));
            }
            eq_it(inner, g.stream().into_iter(), c)?;
        }
        _ => {
            return Err(format!("expected {}, found `{}`", show(std::slice::from_ref(&rc_dummy(e))), a));
        }
    }
    if c.span {
        eq_span(e, a.span())?;
    }
    Ok(())
}

fn rc_dummy(e: &Node) -> R {
    match &e.k {
        K::Id(s) => node(K::Id(s.clone()), Sp::Free),
        K::P(x) => node(K::P(*x), Sp::Free),
        K::Lit(s) => node(K::Lit(s.clone()), Sp::Free),
        K::G(d, t) => node(K::G(*d, t.clone()), Sp::Free),
    }
}

pub fn lo_hi(e: &Node) -> (usize, usize) {
    if COMPILER.get().is_some() {
        return (e.id.get() as usize, e.id2.get() as usize);
    }
    let lo = e.id.get() as usize * 2;
    let hi = match &e.k {
        K::G(..) => e.id2.get() as usize * 2 + 1,
        _ => lo + 1,
    };
    (lo, hi)
}

pub fn eq_span(e: &Node, s: Span) -> Result<(), String> {
    let r = range_of(s);
    let x = lo_hi(e);
    if r != x {
        return Err(format!(
            "location of `{}` changed: was {}..{}, is {}..{}",
            show(&[rc_dummy(e)]),
            x.0,
            x.1,
            r.0,
            r.1
        ));
    }
    Ok(())
}

pub fn eq_it(e: &[R], a: impl Iterator<Item = TokenTree>, c: Chk) -> Result<(), String> {
    let mut it = a;
    for (i, x) in e.iter().enumerate() {
        match it.next() {
            None => {
                return Err(format!(
                    "tokens missing: expected `{}` at the end of `{}`",
                    clip(&show(&e[i..])),
                    clip(&show(&e[..i]))
                ))
            }
            Some(t) => eq_tt(x, &t, c).map_err(|m| format!("{m} (after `{}`)", clip_end(&show(&e[..i]))))?,
        }
    }
    if let Some(t) = it.next() {
        return Err(format!("extra token `{t}` after `{}`", clip_end(&show(e))));
    }
    Ok(())
}

pub fn clip(s: &str) -> String {
    if s.chars().count() <= 160 {
        s.to_string()
    } else {
        s.chars().take(160).collect::<String>() + "…"
    }
}
pub fn clip_end(s: &str) -> String {
    let n = s.chars().count();
    if n <= 160 {
        s.to_string()
    } else {
        "…".to_string() + &s.chars().skip(n - 160).collect::<String>()
    }
}

/// Source-like text. Invisible groups show as ⟦ ⟧; a joint punct is glued to the next one.
pub fn show(ts: &[R]) -> String {
    let mut s = String::new();
    show_into(ts, &mut s);
    s
}
fn show_into(ts: &[R], s: &mut String) {
    let mut glue = true;
    for t in ts {
        if !glue {
            s.push(' ');
        }
        glue = false;
        match &t.k {
            K::Id(x) | K::Lit(x) => s.push_str(x),
            K::P(c) => {
                s.push(*c);
                glue = t.joint.get() || t.sp.get() == Sp::Joint;
            }
            K::G(d, i) => {
                let (a, b) = match d {
                    D::Paren => ("(", ")"),
                    D::Brace => ("{", "}"),
                    D::Bracket => ("[", "]"),
                    D::None => ("⟦", "⟧"),
                };
                s.push_str(a);
                show_into(i, s);
                s.push_str(b);
            }
        }
    }
}

/// True if text printed by `show` lexes back to the same stream.
pub fn lexable(ts: &[R]) -> bool {
    ts.iter().all(|t| match &t.k {
        K::G(D::None, _) => false,
        K::G(_, i) => lexable(i),
        K::Lit(s) => !s.starts_with('-'),
        _ => true,
    })
}

pub fn shape_hash(ts: &[R]) -> u64 {
    fn go(ts: &[R], h: &mut u64) {
        for t in ts {
            let v: u64 = match &t.k {
                K::Id(s) => match &**s {
                    "struct" | "enum" | "union" | "mod" | "trait" | "impl" | "fn" | "const" | "static" | "type"
                    | "use" | "extern" | "crate" | "unsafe" | "async" | "default" | "where" | "for" | "mut"
                    | "self" | "pub" | "dyn" | "as" | "in" => s.bytes().fold(7, |a: u64, b| a * 131 + b as u64),
                    _ => 1,
                },
                K::P(c) => 1000 + *c as u64 + if t.joint.get() { 200 } else { 0 },
                K::Lit(_) => 2,
                K::G(d, i) => {
                    *h = h.wrapping_mul(0x100000001b3) ^ (50 + *d as u64);
                    go(i, h);
                    60
                }
            };
            *h = (*h ^ v).wrapping_mul(0x100000001b3);
            *h ^= *h >> 29;
        }
    }
    let mut h = 0xcbf29ce484222325;
    go(ts, &mut h);
    h
}

/// one line per stream, readable without the generator
pub fn encode(ts: &[R]) -> String {
    fn go(ts: &[R], o: &mut Vec<String>) {
        for t in ts {
            match &t.k {
                K::Id(x) => o.push(format!("i{x}")),
                K::Lit(x) => o.push(format!("l{}", x.bytes().map(|b| format!("{b:02x}")).collect::<String>())),
                K::P(c) => o.push(format!("{}{c}", if t.joint.get() || t.sp.get() == Sp::Joint { 'j' } else { 'p' })),
                K::G(d, i) => {
                    o.push(format!("g{}", *d as u8));
                    go(i, o);
                    o.push("e".into());
                }
            }
        }
    }
    let mut o = vec![];
    go(ts, &mut o);
    o.join(" ")
}
pub fn decode(s: &str) -> TokenStream {
    let mut st: Vec<(Delimiter, Vec<TokenTree>)> = vec![(Delimiter::None, vec![])];
    let sp = Span::call_site();
    for w in s.split_ascii_whitespace() {
        let r = &w[1..];
        let t: TokenTree = match w.as_bytes()[0] {
            b'i' => mk_ident(r, sp).into(),
            b'l' => {
                let b: Vec<u8> = (0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap()).collect();
                String::from_utf8(b).unwrap().parse::<Literal>().unwrap().into()
            }
            b'p' => Punct::new(r.chars().next().unwrap(), Spacing::Alone).into(),
            b'j' => Punct::new(r.chars().next().unwrap(), Spacing::Joint).into(),
            b'g' => {
                let d = match r {
                    "0" => Delimiter::Parenthesis,
                    "1" => Delimiter::Brace,
                    "2" => Delimiter::Bracket,
                    _ => Delimiter::None,
                };
                st.push((d, vec![]));
                continue;
            }
            _ => {
                let (d, v) = st.pop().unwrap();
                Group::new(d, v.into_iter().collect()).into()
            }
        };
        st.last_mut().unwrap().1.push(t);
    }
    st.pop().unwrap().1.into_iter().collect()
}
