//! Executes cases: generation, evaluation under monitors, coverage feedback, shrinking, replay.
use crate::choice::*;
use crate::cov;
use crate::tok::*;
use proc_macro2::TokenStream;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let quiet = QUIET.try_with(|q| *q.borrow()).unwrap_or(false);
        if !quiet {
            prev(i);
            return;
        }
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} [{l}]", clip(&strip_offsets(&m))));
    }));
}
pub fn forget_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}
/// absolute offsets in messages depend on what the thread lexed before
fn strip_offsets(m: &str) -> String {
    let mut o = String::with_capacity(m.len());
    let mut rest = m;
    while let Some(i) = rest.find("bytes(") {
        o.push_str(&rest[..i + 6]);
        rest = &rest[i + 6..];
        rest = rest.find(')').map_or("", |j| &rest[j..]);
    }
    o.push_str(rest);
    o
}
/// runs `f`, returning the panic message if it panics
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub enum P {
    Item(Box<venial::Item>),
    Err(venial::Error),
    Panic(String),
}
impl P {
    pub fn refused(&self) -> bool {
        !matches!(self, P::Item(_))
    }
    pub fn describe(&self) -> String {
        match self {
            P::Item(_) => "accepted".into(),
            P::Err(e) => format!("error: {e}"),
            P::Panic(m) => format!("panic: {m}"),
        }
    }
}
pub fn parse(ts: TokenStream) -> P {
    match guarded(|| venial::parse_item(ts)) {
        Ok(Ok(i)) => P::Item(Box::new(i)),
        Ok(Err(e)) => P::Err(e),
        Err(m) => P::Panic(m),
    }
}
/// parses a well-formed declaration; refusing it is a failure
pub fn parse_valid(toks: &[R]) -> Result<venial::Item, String> {
    match parse(to_ts(toks)) {
        P::Item(i) => Ok(*i),
        p => Err(format!("well-formed declaration refused: {}", p.describe())),
    }
}

#[derive(Default)]
pub struct Cx {
    pub evaluating: bool,
    pub input: Vec<String>,
    pub hash: u64,
    pub nontrivial: bool,
    pub tokens: usize,
    pub note: String,
}
impl Cx {
    /// generation is over: from here on the library runs under the monitors
    pub fn start(&mut self, toks: &[R]) {
        self.add_input(toks);
        self.go();
    }
    pub fn add_input(&mut self, toks: &[R]) {
        let n = count(toks);
        self.tokens += n;
        self.hash = self.hash.wrapping_mul(0x9E3779B97F4A7C15) ^ shape_hash(toks);
        self.input.push(show(toks));
        if n >= 5 {
            self.nontrivial = true;
        }
    }
    pub fn go(&mut self) {
        self.evaluating = true;
        cov::reset_steps(limit_for(self.tokens));
        cov::record(true);
    }
}
/// control-flow steps after which a call counts as not terminating
pub fn limit_for(tokens: usize) -> u64 {
    8_000_000 + 40_000 * tokens as u64
}

pub type Driver = fn(&mut G, &mut Cx) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub driver: Driver,
    pub focus: Focus,
    /// cases per worker in the quick tier
    pub quick: u64,
    pub rule: &'static str,
}

pub enum Verdict {
    Pass(Cx),
    Fail(Cx, String),
    Harness(String),
}

pub struct Spec {
    pub seed: u64,
    pub rep: Rc<Vec<u32>>,
    pub zero: bool,
}

pub fn run_case(p: &Prop, s: &Spec, dict: &Rc<Dict>) -> (Verdict, Vec<u32>) {
    let mut cx = Cx::default();
    let mut g = G::new(s.seed, s.rep.clone(), dict.clone(), p.focus);
    g.zero = s.zero;
    cov::record(false);
    let r = guarded(|| (p.driver)(&mut g, &mut cx));
    cov::record(false);
    cov::reset_steps(u64::MAX);
    let rec = std::mem::take(&mut g.rec);
    let v = match r {
        Ok(Ok(())) => Verdict::Pass(cx),
        Ok(Err(m)) => Verdict::Fail(cx, m),
        Err(m) if cx.evaluating => Verdict::Fail(cx, format!("panic while inspecting the result: {m}")),
        Err(m) => Verdict::Harness(m),
    };
    (v, rec)
}

fn on_limit() {
    let m = b"HANG step limit exceeded\n";
    unsafe {
        libc::write(1, m.as_ptr() as *const _, m.len());
        libc::_exit(77);
    }
}

/// Shared-memory journal: what case is running, so that a crash can be replayed.
pub struct Journal {
    p: *mut u32,
    cap: usize,
}
impl Journal {
    pub fn open(path: &str) -> Journal {
        let cap = 1 << 20;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
        f.set_len(cap as u64 * 4).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), cap * 4, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Journal { p: p as *mut u32, cap }
    }
    /// layout: case number (2), seed lo, seed hi, zero, length, choices
    pub fn note(&self, n: u64, s: &Spec) {
        unsafe {
            let w = |i: usize, v: u32| self.p.add(i).write_volatile(v);
            w(0, n as u32);
            w(1, (n >> 32) as u32);
            w(2, s.seed as u32);
            w(3, (s.seed >> 32) as u32);
            w(4, s.zero as u32);
            let l = s.rep.len().min(self.cap - 8);
            w(5, l as u32);
            std::ptr::copy_nonoverlapping(s.rep.as_ptr(), self.p.add(6), l);
        }
    }
}

pub fn write_replay(path: &str, prop: &str, s: &Spec, msg: &str, input: &[String]) {
    let mut f = std::fs::File::create(path).unwrap();
    writeln!(f, "prop {prop}").unwrap();
    writeln!(f, "seed {}", s.seed).unwrap();
    writeln!(f, "zero {}", s.zero as u32).unwrap();
    let c: Vec<String> = s.rep.iter().map(|x| x.to_string()).collect();
    writeln!(f, "choices {}", c.join(" ")).unwrap();
    for l in msg.lines() {
        writeln!(f, "# {l}").unwrap();
    }
    for i in input {
        writeln!(f, "# input: {}", i.replace('\n', " ")).unwrap();
    }
}
pub fn read_replay(path: &str) -> (String, Spec) {
    let t = std::fs::read_to_string(path).unwrap();
    let mut prop = String::new();
    let mut s = Spec { seed: 0, rep: Rc::new(vec![]), zero: false };
    for l in t.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "prop" => prop = v.to_string(),
            "seed" => s.seed = v.parse().unwrap(),
            "zero" => s.zero = v == "1",
            "choices" => s.rep = Rc::new(v.split_whitespace().map(|x| x.parse().unwrap()).collect()),
            _ => {}
        }
    }
    (prop, s)
}

fn fails(p: &Prop, rep: &[u32], dict: &Rc<Dict>) -> Option<(Vec<u32>, Cx, String)> {
    let s = Spec { seed: 0, rep: Rc::new(rep.to_vec()), zero: true };
    match run_case(p, &s, dict) {
        (Verdict::Fail(cx, m), mut rec) => {
            while rec.last() == Some(&0) {
                rec.pop();
            }
            Some((rec, cx, m))
        }
        _ => None,
    }
}

/// Greedy reduction of the choice stream while the case keeps failing.
pub fn shrink(p: &Prop, rec: Vec<u32>, dict: &Rc<Dict>, time: Duration) -> Option<(Vec<u32>, Cx, String)> {
    let t0 = Instant::now();
    let mut best = fails(p, &rec, dict)?;
    loop {
        let before = (best.0.len(), best.0.iter().map(|x| *x as u64).sum::<u64>());
        let mut size = (best.0.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.0.len() {
                if t0.elapsed() > time {
                    return Some(best);
                }
                let e = (i + size).min(best.0.len());
                let mut c = best.0.clone();
                c.drain(i..e);
                if let Some(b) = fails(p, &c, dict) {
                    if b.0.len() < best.0.len() {
                        best = b;
                        continue;
                    }
                }
                if best.0[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.0.clone();
                    c[i..e].fill(0);
                    if let Some(b) = fails(p, &c, dict) {
                        if b.0.len() <= best.0.len() {
                            best = b;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.0.len() {
            if t0.elapsed() > time || i >= best.0.len() {
                break;
            }
            let v = best.0[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if nv < v {
                    let mut c = best.0.clone();
                    c[i] = nv;
                    if let Some(b) = fails(p, &c, dict) {
                        if b.0.len() <= best.0.len() {
                            best = b;
                            break;
                        }
                    }
                }
            }
        }
        let after = (best.0.len(), best.0.iter().map(|x| *x as u64).sum::<u64>());
        if after >= before || t0.elapsed() > time {
            return Some(best);
        }
    }
}

pub struct Opts {
    pub seed: u64,
    pub index: u64,
    pub cases: u64,
    pub ms: u64,
    pub out: String,
    pub shrink_ms: u64,
}

fn mutate(r: &mut Rng, a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut c = a.to_vec();
    if c.is_empty() {
        return c;
    }
    let n = 1 + r.below(3);
    for _ in 0..n {
        let l = c.len() as u32;
        if l == 0 {
            break;
        }
        match r.below(6) {
            0 => {
                let i = r.below(l) as usize;
                c.truncate(i);
            }
            1 | 2 => {
                for _ in 0..1 + r.below(4) {
                    let i = r.below(l) as usize;
                    c[i] = if r.below(2) == 0 { r.next() as u32 & 0x3fff_ffff } else { r.below(8) };
                }
            }
            3 => {
                let i = r.below(l) as usize;
                let j = (i + 1 + r.below(12) as usize).min(c.len());
                let k = r.below(l) as usize;
                let seg = c[i..j].to_vec();
                let k = k.min(c.len());
                c.splice(k..k, seg);
            }
            4 => {
                let i = r.below(l) as usize;
                let j = (i + 1 + r.below(12) as usize).min(c.len());
                c.drain(i..j);
            }
            _ => {
                if !b.is_empty() {
                    let i = r.below(l) as usize;
                    let j = r.below(b.len() as u32) as usize;
                    c.truncate(i);
                    c.extend_from_slice(&b[j..]);
                }
            }
        }
    }
    c.truncate(40_000);
    c
}

pub fn worker(p: &Prop, o: &Opts, dict: Rc<Dict>) -> i32 {
    cov::on_limit(on_limit);
    let j = Journal::open(&format!("{}.journal", o.out));
    let t0 = Instant::now();
    let mut rng = Rng(o.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ o.index.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ prop_salt(p.id));
    let mut seen = vec![0u8; cov::MAPSZ];
    let mut corpus: Vec<Rc<Vec<u32>>> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evals, mut nontrivial, mut tokens, mut maxtok, mut edges, mut mutated) = (0u64, 0u64, 0u64, 0usize, 0usize, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut rc = 0;
    let mut max_steps = 0f64;
    let slow = std::env::var("VH_SLOW").is_ok();
    let mut n = 0;
    while n < o.cases {
        n += 1;
        if n % 64 == 0 && t0.elapsed() > Duration::from_millis(o.ms) {
            break;
        }
        let seed = rng.next();
        let rep = if !corpus.is_empty() && rng.below(100) < 40 {
            mutated += 1;
            // prefer recent discoveries
            let k = if rng.below(2) == 0 {
                rng.below(corpus.len() as u32) as usize
            } else {
                corpus.len() - 1 - rng.below((corpus.len() as u32).min(64)) as usize
            };
            let b = corpus[rng.below(corpus.len() as u32) as usize].clone();
            Rc::new(mutate(&mut rng, &corpus[k], &b))
        } else {
            Rc::new(vec![])
        };
        let spec = Spec { seed, rep, zero: false };
        j.note(n, &spec);
        cov::clear_map();
        let t1 = cov::TOTAL.load(std::sync::atomic::Ordering::Relaxed);
        let tc = Instant::now();
        let (v, rec) = run_case(p, &spec, &dict);
        if slow && tc.elapsed() > Duration::from_millis(20) {
            if let Verdict::Pass(cx) = &v {
                eprintln!("slow {:?} tokens={} choices={} {}", tc.elapsed(), cx.tokens, rec.len(), cx.input[0].chars().take(150).collect::<String>());
            }
        }
        let st = cov::TOTAL.load(std::sync::atomic::Ordering::Relaxed) - t1;
        let (feat, e) = cov::merge(&mut seen);
        edges += e;
        match v {
            Verdict::Pass(cx) => {
                evals += 1;
                tokens += cx.tokens as u64;
                maxtok = maxtok.max(cx.tokens);
                if cx.tokens > 0 {
                    max_steps = max_steps.max(st as f64 / limit_for(cx.tokens) as f64);
                }
                if cx.nontrivial {
                    nontrivial += 1;
                    if hashes.len() < 4_000_000 {
                        hashes.insert(cx.hash);
                    }
                }
                if feat > 0 && rec.len() < if e > 0 { 6_000 } else { 1_500 } {
                    corpus.push(Rc::new(rec));
                    if corpus.len() > 6000 {
                        corpus.swap_remove(rng.below(3000) as usize);
                    }
                }
                if samples.len() < 6 && cx.nontrivial && (n % 37 == 5) && cx.input.iter().map(|s| s.len()).sum::<usize>() < 400 {
                    samples.push(format!("{} {}", cx.input.join(" ⏎ "), cx.note));
                }
            }
            Verdict::Harness(m) => {
                println!("HARNESS {m} seed={seed}");
                write_replay(&format!("{}.harness", o.out), p.id, &Spec { rep: Rc::new(rec), ..spec }, &m, &[]);
                rc = 2;
                break;
            }
            Verdict::Fail(cx, m) => {
                let full = Spec { seed: 0, rep: Rc::new(rec.clone()), zero: true };
                let path = format!("{}.replay", o.out);
                write_replay(&path, p.id, &full, &m, &cx.input);
                if let Some((r, cx2, m2)) = shrink(p, rec, &dict, Duration::from_millis(o.shrink_ms)) {
                    write_replay(&path, p.id, &Spec { seed: 0, rep: Rc::new(r), zero: true }, &m2, &cx2.input);
                    println!("FAIL {}", one_line(&m2));
                } else {
                    write_replay(&path, p.id, &spec, &m, &cx.input);
                    println!("FAIL {}", one_line(&m));
                }
                rc = 1;
                break;
            }
        }
    }
    println!("stat evaluations {evals}");
    println!("stat nontrivial {nontrivial}");
    println!("stat tokens {tokens}");
    println!("max max_tokens_in_a_case {maxtok}");
    println!("stat library_control_flow_edges_executed {}", cov::TOTAL.load(std::sync::atomic::Ordering::Relaxed));
    println!("max instrumented_edges {}", cov::guards());
    println!("stat mutated_cases {mutated}");
    println!("max edges_covered_by_one_worker {edges}");
    println!("max permille_of_step_limit_used {}", (max_steps * 1000.0) as u64);
    println!("max coverage_corpus {}", corpus.len());
    for (k, v) in crate::cmp::events() {
        println!("event {k} {v}");
    }
    for s in samples {
        println!("sample {}", one_line(&s));
    }
    let mut b = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.hashes", o.out), b).unwrap();
    let m: Vec<u8> = seen[..(cov::guards() as usize + 1).min(cov::MAPSZ)].to_vec();
    std::fs::write(format!("{}.map", o.out), m).unwrap();
    println!("done {rc}");
    rc
}
pub fn one_line(s: &str) -> String {
    s.replace('\n', " ")
}
fn prop_salt(id: &str) -> u64 {
    id.bytes().fold(1469598103934665603, |a: u64, b| (a ^ b as u64).wrapping_mul(1099511628211))
}

// ---- dictionary ------------------------------------------------------------------------------

/// Words and numbers written in the library's own (non-test) source.
pub fn harvest(dir: &str) -> Dict {
    let mut d = Dict::default();
    let mut files = vec![];
    fn walk(p: &std::path::Path, v: &mut Vec<std::path::PathBuf>) {
        if let Ok(r) = std::fs::read_dir(p) {
            for e in r.flatten() {
                let q = e.path();
                let n = e.file_name().to_string_lossy().to_string();
                if n.starts_with("test") || n == "snapshots" {
                    continue;
                }
                if q.is_dir() {
                    walk(&q, v)
                } else if n.ends_with(".rs") {
                    v.push(q)
                }
            }
        }
    }
    walk(std::path::Path::new(dir), &mut files);
    files.sort();
    let mut ids = BTreeMap::new();
    let mut sizes = BTreeMap::new();
    let mut strs = BTreeMap::new();
    fn toks(ts: TokenStream, f: &mut dyn FnMut(&proc_macro2::Literal)) {
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                proc_macro2::TokenTree::Group(g) => toks(g.stream(), f),
                proc_macro2::TokenTree::Literal(l) => f(&l),
                proc_macro2::TokenTree::Punct(p) if p.as_char() == '#' => {
                    // attributes: documentation is not code
                    if let Some(proc_macro2::TokenTree::Punct(q)) = it.peek() {
                        if q.as_char() == '!' {
                            it.next();
                        }
                    }
                    if let Some(proc_macro2::TokenTree::Group(g)) = it.peek() {
                        if g.delimiter() == proc_macro2::Delimiter::Bracket {
                            it.next();
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for f in files {
        let Ok(t) = std::fs::read_to_string(&f) else { continue };
        let Ok(ts) = t.parse::<TokenStream>() else { continue };
        toks(ts, &mut |l| {
            let s = l.to_string();
            if let Some(x) = s.strip_prefix('"').and_then(|x| x.strip_suffix('"')) {
                let raw = x.strip_prefix("r#").unwrap_or(x);
                let ident = !raw.is_empty()
                    && raw.chars().all(|c| c.is_alphanumeric() || c == '_')
                    && !raw.chars().next().unwrap().is_numeric();
                if ident && !(x.starts_with("r#") && matches!(raw, "self" | "Self" | "super" | "crate" | "_")) {
                    ids.insert(x.to_string(), ());
                    // a prefix or suffix test would look like this
                    if !x.starts_with("r#") {
                        ids.insert(format!("{x}_more"), ());
                        ids.insert(format!("my_{x}"), ());
                        ids.insert(format!("{x}2"), ());
                    }
                }
                if x.len() < 40 {
                    strs.insert(s.clone(), ());
                }
            } else if let Some(num) = parse_int(&s) {
                if (2..=1200).contains(&num) {
                    sizes.insert(num as u32, ());
                }
            } else if s.starts_with('\'') {
                strs.insert(s.clone(), ());
            }
        });
    }
    d.idents = ids.into_keys().collect();
    d.sizes = sizes.into_keys().collect();
    d.strings = strs.into_keys().collect();
    d
}
fn parse_int(s: &str) -> Option<u64> {
    let s = s.replace('_', "");
    if let Some(h) = s.strip_prefix("0x") {
        return u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok();
    }
    let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
    if d.is_empty() || s[d.len()..].starts_with('.') {
        return None;
    }
    d.parse().ok()
}
