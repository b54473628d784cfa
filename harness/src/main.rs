use std::rc::Rc;
use std::time::Duration;
use vhl::run::*;

#[global_allocator]
static A: vhl::alloc::Counting = vhl::alloc::Counting;

fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k, &d.to_string()).parse().expect(k)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_hook();
    let h = std::thread::Builder::new().stack_size(1 << 28).spawn(move || real(a)).unwrap();
    let rc = h.join().unwrap_or(2);
    std::process::exit(rc);
}

fn real(a: Vec<String>) -> i32 {
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let dict = Rc::new(harvest(&arg(&a, "--src", "/repo/src")));
    let ps = props();
    let find = |id: &str| ps.iter().position(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    match cmd {
        "worker" => {
            let p = &ps[find(&a[2])];
            let cases = num(&a, "--cases", 0);
            let o = Opts {
                seed: num(&a, "--seed", 1),
                index: num(&a, "--index", 0),
                cases: if cases == 0 { p.quick * num(&a, "--scale-pct", 100) / 100 } else { cases },
                ms: num(&a, "--ms", 60_000),
                out: arg(&a, "--out", "/tmp/vh-out"),
                shrink_ms: num(&a, "--shrink-ms", 8_000),
            };
            worker(p, &o, dict)
        }
        "replay" => {
            let (id, s) = read_replay(&a[2]);
            let p = &ps[find(&id)];
            vhl::cov::on_limit(|| {
                println!("HANG");
                std::process::exit(77)
            });
            match run_case(p, &s, &dict) {
                (Verdict::Fail(cx, m), _) => {
                    println!("FAIL {m}");
                    for i in cx.input {
                        println!("input: {i}");
                    }
                    1
                }
                (Verdict::Pass(cx), _) => {
                    println!("PASS {:?} {}", cx.input, cx.note);
                    0
                }
                (Verdict::Harness(m), _) => {
                    println!("HARNESS {m}");
                    2
                }
            }
        }
        "known" => {
            // lines: known: property=<id> input=`...` expect=<panic|misparse> what
            let t = std::fs::read_to_string(&a[2]).expect("known findings file");
            for l in t.lines().filter(|l| l.starts_with("known: ")) {
                let p = format!("property={} ", a[3]);
                let Some(r) = l.strip_prefix("known: ").and_then(|l| l.strip_prefix(&p)) else { continue };
                if vhl::known::still_fails(r) {
                    println!("known {r}");
                }
            }
            0
        }
        "rule" => {
            println!("{}", ps[find(&a[2])].rule);
            0
        }
        "fams" => {
            use vhl::tok::*;
            for (name, f) in vhl::fam::FAMS {
                let mut v = vec![];
                for n in [100, 200, 400] {
                    let t = f(n);
                    finalize(&t, SpaceMode::MaxJoint, &mut 1);
                    let ts = to_ts(&t);
                    vhl::cov::reset_steps(u64::MAX);
                    let a0 = vhl::alloc::total();
                    let r = parse(ts);
                    let a1 = vhl::alloc::total() - a0;
                    let s = vhl::cov::steps();
                    let q = match &r {
                        P::Item(i) => {
                            vhl::cov::reset_steps(u64::MAX);
                            let _ = quote::ToTokens::to_token_stream(&**i);
                            vhl::cov::steps()
                        }
                        _ => 0,
                    };
                    v.push((s, a1, q, r.refused()));
                }
                println!(
                    "{name:32} steps {:8} r {:.2} {:.2} alloc {:8} r {:.2} {:.2} quote {:8} r {:.2} {}",
                    v[1].0, v[1].0 as f64 / v[0].0 as f64, v[2].0 as f64 / v[1].0 as f64,
                    v[1].1, v[1].1 as f64 / v[0].1 as f64, v[2].1 as f64 / v[1].1 as f64,
                    v[1].2, v[2].2 as f64 / v[1].2 as f64, v[1].3
                );
            }
            0
        }
        "measure" => {
            // which defects are accepted how often (development aid)
            let p = &ps[find(&a[2])];
            let mut m: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            for i in 0..num(&a, "--cases", 10_000) {
                let s = Spec { seed: i * 7919 + 5, rep: Rc::new(vec![]), zero: false };
                let (k, f, t) = match run_case(p, &s, &dict).0 {
                    Verdict::Fail(cx, x) => (format!("{} {}", cx.note, x.chars().take(60).collect::<String>()), 1, cx.input.join(" ")),
                    Verdict::Pass(cx) => (cx.note, 0, String::new()),
                    Verdict::Harness(x) => (x, 1, String::new()),
                };
                let k = k.split(']').next().unwrap().to_string();
                let e = m.entry(k).or_default();
                e.0 += 1;
                e.1 += f;
                if f == 1 && (e.2.is_empty() || t.len() < e.2.len()) {
                    e.2 = t;
                }
            }
            for (k, (n, f, t)) in m {
                println!("{f:6}/{n:6} {k} {}", t.chars().take(1600).collect::<String>());
            }
            0
        }
        "streams" => {
            // small inputs for other machinery, encoded
            use vhl::{choice::*, tok::*};
            let (seed, n, max) = (num(&a, "--seed", 1), num(&a, "--cases", 100), num(&a, "--max", 40) as usize);
            let (mut i, mut k) = (0u64, 0);
            while k < n && i < n * 200 {
                i += 1;
                let f = Focus { kinds: vhl::drv::ALL, ..Focus::default() };
                let mut g = G::new(seed.wrapping_mul(0x517C_C1B7_2722_0A95) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15), Rc::new(vec![]), dict.clone(), f);
                g.small = true;
                g.budget = max as i64;
                let t = vhl::drv2::any_stream(&mut g);
                if (6..=max).contains(&count(&t)) {
                    println!("{}", encode(&t));
                    k += 1;
                }
            }
            0
        }
        "digest" => {
            // outcomes of parsing the same inputs, for comparison between processes
            let f = vhl::choice::Focus { kinds: vhl::drv::ALL, ..Default::default() };
            for l in vhl::drv2::digests(num(&a, "--seed", 1), num(&a, "--cases", 1000), &dict, num(&a, "--reverse", 0) == 1, num(&a, "--warm", 0), f) {
                println!("{l}");
            }
            0
        }
        #[cfg(feature = "diff")]
        "corpus" => {
            let o = vhl::diff::CorpusOpts {
                dir: arg(&a, "--dir", ""),
                seed: num(&a, "--seed", 1),
                index: num(&a, "--index", 0),
                of: num(&a, "--of", 1),
                pct: num(&a, "--pct", 100),
                edits: num(&a, "--edits", 0) as u32,
                ms: num(&a, "--ms", 60_000),
                keep_going: num(&a, "--keep-going", 0) == 1,
                out: arg(&a, "--out", "/tmp/vh-corpus"),
            };
            vhl::diff::corpus(&a[2], &o, dict)
        }
        "dict" => {
            println!("{:?}\n{:?}\n{:?}", dict.idents, dict.sizes, dict.strings);
            0
        }
        _ => {
            let _ = Duration::from_secs(0);
            eprintln!("usage: vh worker|replay|rule");
            2
        }
    }
}
use vhl::drv::props;
