//! Runs under the undefined-behaviour interpreter (Miri): parses, inspects, edits and drops small inputs, one after
//! another and on several threads at once.   vm <file with one encoded input per line> <every n-th> <offset>
use proc_macro2::TokenStream;
use vhl::drv2::*;
use vhl::run::*;
use vhl::tok::*;

/// every kind of declaration once, and refusals
const FIXED: &[&str] = &[
    "#[a(b)] #[c = 1] pub struct S<'a, T: X + 'a, const N: u8> where T: Y, { pub a: &'a T, b: [u8; N] }",
    "struct T(pub A<B, C>, (D, E)) where A: B;",
    "pub(crate) struct U;",
    "enum E<T> { A, B(T, u8,), C { x: T }, D = 4 }",
    "enum F { A = 1 + 2, B }",
    "union V<T: Copy> { a: T, b: u8 }",
    "mod m { #![i] struct A; mod n { fn f() {} } use x::y; }",
    "unsafe trait Q<T>: R + S where T: U { type A: B; const C: u8 = 1; fn f(&self); m! {} }",
    "impl<'a, T> Q<T> for S<'a, T> where T: U { type A = B; fn f(&'a mut self, x: u8) -> u8 { 1 } }",
    "type A = B<C, D>;",
    "pub const unsafe extern \"C\" fn f<T>(mut a: u8, b: Vec<T>) -> Vec<T> where T: X { a }",
    "static mut X: [u8; 2] = [1 << 2, 3];",
    "const C: Fn(A) -> B = a < b;",
    "pub use a::{b, c as d, e::*};",
    "macro_rules! m { () => {}; }",
    "foo![a, b];",
    "unsafe extern \"C\" { #![x] fn f(a: u8); static Y: u8; }",
    "extern crate a as b;",
    "struct A { a }",
    "fn f(a b) {}",
    "use a::b",
    "struct A<T(T);",
    "#[a] 5",
    "struct A; struct B;",
];

fn stream(lines: &[String], i: usize) -> TokenStream {
    let i = i % (FIXED.len() + lines.len());
    if i < FIXED.len() {
        FIXED[i].parse().expect("lexes")
    } else {
        decode(&lines[i - FIXED.len()])
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let lines: Vec<String> = std::fs::read_to_string(&a[0]).expect("inputs").lines().map(|l| l.to_string()).collect();
    let (step, off): (usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    install_hook();
    let lines = std::sync::Arc::new(lines);
    let (mut runs, mut threads) = (0, 0);
    let mut i = off;
    while i < FIXED.len() + lines.len() {
        let ts = stream(&lines, i);
        println!("case {i} {ts}");
        runs += 1;
        let r = guarded(|| use_stream(ts));
        println!("outcome {}", r.unwrap_or("panic while inspecting"));
        let mut e = venial::Error::new_at_tokens(quote::quote!(a b), "x");
        e.combine(venial::Error::new("y"));
        let _ = (e.to_compile_error().to_string(), e.span(), format!("{e:?} {e}"), e.clone());
        drop(e);
        if (i / step) % 4 == 1 {
            // the same and other inputs on several threads at once
            threads += 3;
            let hs: Vec<_> = (0..3)
                .map(|k| {
                    let lines = lines.clone();
                    std::thread::spawn(move || {
                        let mut v = vec![];
                        for j in [i, i + 1 + k, i] {
                            let x = outcome(&parse(stream(&lines, j)));
                            if j == i {
                                v.push(x);
                            }
                        }
                        v
                    })
                })
                .collect();
            let rs: Vec<_> = hs.into_iter().map(|h| h.join().expect("thread")).collect();
            if i >= FIXED.len() {
                // (locations of lexed text differ from run to run)
                let one = outcome(&parse(stream(&lines, i)));
                if rs.iter().flatten().any(|x| *x != one) {
                    println!("FAIL case {i}: outcomes differ between threads: {one:?} {rs:?}");
                    std::process::exit(1);
                }
            }
        }
        i += step;
    }
    println!("miri runs {runs} threads {threads}");
}
