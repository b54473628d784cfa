//! Declarations as source text for the compiler, and the same declarations as models inside a macro.
use crate::choice::*;
use crate::drv::ALL;
use crate::gen::Where;
use crate::model::*;
use crate::tok::*;
use std::rc::Rc;

/// A pure function of the seed: no dictionaries, no feedback, no locations.
pub fn model(seed: u64) -> (MItem, Ts) {
    for k in 0.. {
        let f = Focus { kinds: ALL, ..Focus::default() };
        let mut g = G::new(seed ^ (k as u64) << 48, Rc::new(vec![]), Rc::new(Dict::default()), f);
        g.knobs();
        g.deep = None;
        g.k.none = 0;
        g.k.dict = 0;
        g.big = g.big.map(|n| n.min(70));
        let d = g.below(3);
        let it = g.item(Where::Top, d);
        let t = it.toks();
        if lexable(&t) && depth(&t) < 50 && count(&t) < 6000 {
            return (it, t);
        }
    }
    unreachable!()
}

pub fn text(ts: &[R], rng: &mut Rng) -> String {
    let mut s = String::new();
    emit(ts, rng, &mut s);
    s
}
fn emit(ts: &[R], rng: &mut Rng, s: &mut String) {
    for (i, t) in ts.iter().enumerate() {
        let next = ts.get(i + 1).map(|n| &n.k);
        match &t.k {
            K::Id(x) | K::Lit(x) => {
                s.push_str(x);
                // something that could merge with the word keeps its distance
                match next {
                    Some(K::P(c)) if *c != '\'' && *c != '#' && *c != '.' && rng.below(2) == 0 => {}
                    None => {}
                    _ => s.push(' '),
                }
            }
            K::P(c) => {
                s.push(*c);
                if t.sp.get() == Sp::Joint {
                    continue;
                }
                match next {
                    Some(K::P(n)) => {
                        let bad = *c == '/' && (*n == '/' || *n == '*') || *c == '\'' || *c == ':' && *n == ':';
                        if bad || rng.below(2) == 0 {
                            s.push(' ');
                        }
                    }
                    Some(K::Id(_) | K::Lit(_)) if *c == '\'' || *c == '#' => s.push(' '),
                    Some(_) => {
                        if rng.below(3) > 0 {
                            s.push(' ');
                        }
                    }
                    None => {}
                }
            }
            K::G(d, inner) => {
                let (a, b) = match d {
                    D::Paren => ("(", ")"),
                    D::Brace => ("{", "}"),
                    D::Bracket => ("[", "]"),
                    D::None => unreachable!(),
                };
                s.push_str(a);
                emit(inner, rng, s);
                s.push_str(b);
                match rng.below(8) {
                    0 => {}
                    1 => s.push('\n'),
                    2 => s.push_str(" /* x */ "),
                    _ => s.push(' '),
                }
            }
        }
    }
}
