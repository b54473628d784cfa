//! Writes the crates the compiler is run on.
//!   c23gen mon <seed> <n> <out>          generated declarations inside `mon!`
//!   c23gen items <out> <file>...         items of real sources under `#[mon_attr]`
use std::fmt::Write;
use vhl::choice::Rng;

const HEAD: &str = "#![allow(warnings)]\n#[macro_use]\nextern crate c23pm;\n";

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(1 << 28).spawn(move || real(a)).unwrap();
    h.join().unwrap();
}
fn real(a: Vec<String>) {
    vhl::run::install_hook();
    match a[1].as_str() {
        "mon" => {
            let (s0, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let mut o = String::from(HEAD);
            for i in 0..n {
                let seed = s0.wrapping_mul(1_000_003).wrapping_add(i) & 0xffff_ffff_ffff;
                let (_, t) = vhl::c23::model(seed);
                writeln!(o, "mon! {{ {seed} {} }}", vhl::c23::text(&t, &mut Rng(seed))).unwrap();
            }
            o.push_str("fn main() {}\n");
            std::fs::write(&a[4], o).unwrap();
        }
        "items" => {
            let mut o = String::from(HEAD);
            let (mut id, mut acc) = (0, 0);
            for f in &a[3..] {
                let Ok(src) = std::fs::read_to_string(f) else { continue };
                let Ok(file) = syn::parse_file(&src) else { continue };
                for it in &file.items {
                    // file modules are not allowed under an attribute macro; unnamed syntax is not parsed by syn either
                    match it {
                        syn::Item::Mod(m) if m.content.is_none() => continue,
                        syn::Item::Verbatim(_) => continue,
                        syn::Item::Macro(m) if !m.mac.path.is_ident("macro_rules") => continue,
                        _ => {}
                    }
                    use quote::ToTokens;
                    let ts = it.to_token_stream();
                    if vhl::tok::count(&vhl::tok::from_ts(ts.clone())) > 4000 {
                        continue;
                    }
                    let t = ts.to_string();
                    if t.contains("mod ") && t.contains(';') && matches!(it, syn::Item::Mod(_)) {
                        continue;
                    }
                    // a file with no source locations: what matters is the compiler's view of it
                    let ok = matches!(vhl::run::parse(t.parse().unwrap()), vhl::run::P::Item(_));
                    acc += ok as u32;
                    writeln!(o, "#[mon_attr({}_{id})]\n{t}", if ok { "accept" } else { "any" }).unwrap();
                    id += 1;
                }
            }
            o.push_str("fn main() {}\n");
            std::fs::write(&a[2], o).unwrap();
            println!("items {id} accepted_outside {acc}");
        }
        _ => panic!(),
    }
}
