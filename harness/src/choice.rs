//! A recorded, replayable and mutable stream of choices drives every generator.
use crate::tok::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.next() >> 32) * n as u64 >> 32) as u32
    }
}

/// Words and numbers found in the library's own source, so that special cases on them get hit.
#[derive(Default)]
pub struct Dict {
    pub idents: Vec<String>,
    pub sizes: Vec<u32>,
    pub chars: Vec<char>,
    pub strings: Vec<String>,
}

pub struct G {
    pub rng: Rng,
    pub rec: Vec<u32>,
    rep: Rc<Vec<u32>>,
    pos: usize,
    /// remaining token budget of the case
    pub budget: i64,
    pub k: Knobs,
    pub dict: Rc<Dict>,
    pub big: Option<u32>,
    pub deep: Option<u32>,
    pub uniq: u32,
    pub feats: u64,
    pub focus: Focus,
    /// choices past the end of the recorded stream are all 0
    pub zero: bool,
    /// no unusually long or deep parts
    pub small: bool,
}

/// Probabilities (out of 64) redrawn for every case, so that unusual features occur together.
#[derive(Clone, Default, Debug)]
pub struct Knobs {
    pub attr: u32,
    pub vis: u32,
    pub gen: u32,
    pub wher: u32,
    pub bound: u32,
    pub trail: u32,
    pub none: u32,
    pub raw: u32,
    pub ctx: u32,
    pub uni: u32,
    pub dict: u32,
    pub dup: u32,
    pub size: u32,
    pub depth: u32,
    pub qual: u32,
    pub cplx: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Focus {
    /// weights of item kinds, in the order of `gen::KINDS`
    pub kinds: [u8; 13],
    pub attrs: bool,
    pub generics: bool,
    pub big: u32,
}

impl G {
    pub fn new(seed: u64, rep: Rc<Vec<u32>>, dict: Rc<Dict>, focus: Focus) -> G {
        G {
            rng: Rng(seed),
            rec: Vec::with_capacity(256),
            rep,
            pos: 0,
            budget: 400,
            k: Knobs::default(),
            dict,
            big: None,
            deep: None,
            uniq: 0,
            feats: 0,
            focus,
            zero: false,
            small: false,
        }
    }
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = if self.pos < self.rep.len() {
            self.rep[self.pos] % n
        } else if self.zero {
            0
        } else {
            self.rng.below(n)
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// a choice below `n` whose fresh values come from `f`
    pub fn below_by(&mut self, n: u32, f: impl FnOnce(&mut G) -> u32) -> u32 {
        let v = if self.pos < self.rep.len() {
            self.rep[self.pos] % n
        } else if self.zero {
            0
        } else {
            f(self) % n
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// true with probability n/64; 0 is always the "simple" answer (false)
    pub fn chance(&mut self, n: u32) -> bool {
        if n == 0 {
            return false;
        }
        self.below(64) >= 64u32.saturating_sub(n)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u32) as usize;
        &v[i]
    }
    pub fn seed64(&mut self) -> u64 {
        (self.below(1 << 30) as u64) << 30 | self.below(1 << 30) as u64
    }
    fn knob(&mut self) -> u32 {
        *self.pick(&[0, 0, 3, 10, 20, 32, 50, 62])
    }
    pub fn knobs(&mut self) {
        let f = self.focus;
        self.k = Knobs {
            attr: self.knob(),
            vis: self.knob(),
            gen: self.knob(),
            wher: self.knob(),
            bound: self.knob(),
            trail: self.knob(),
            none: *self.pick(&[0, 0, 0, 2, 8, 24]),
            raw: *self.pick(&[0, 0, 2, 8, 24]),
            ctx: *self.pick(&[0, 0, 2, 8, 24]),
            uni: *self.pick(&[0, 0, 2, 8]),
            dict: *self.pick(&[0, 0, 4, 16]),
            dup: *self.pick(&[0, 0, 6, 32]),
            size: self.below(8),
            depth: self.below(8),
            qual: self.knob(),
            cplx: self.knob(),
        };
        if f.attrs && self.k.attr < 10 {
            self.k.attr = 20;
            self.k.vis = self.k.vis.max(20);
        }
        if f.generics && self.k.gen < 10 {
            self.k.gen = 50;
            self.k.bound = self.k.bound.max(20);
        }
        if f.generics && self.k.wher < 10 {
            self.k.wher = 32;
        }
        if self.small {
            return;
        }
        // occasionally one unusually long list and one unusually deep type
        let bigp = if f.big > 0 { f.big } else { 2 };
        if self.chance(bigp) {
            let n = self.special_size();
            self.big = Some(n);
            self.budget += 30 * n as i64;
        }
        if self.chance(2) {
            let n = self.special_size().min(1200);
            self.deep = Some(n);
            self.budget += 12 * n as i64;
        }
        self.budget += *self.pick(&[0i64, 0, 200, 600]);
    }
    /// a list length or depth that is likely to sit on a boundary somewhere
    pub fn special_size(&mut self) -> u32 {
        let n = match self.below(8) {
            0..=2 => 5 + self.below(16),
            3 => *self.pick(&[15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65]),
            4 => *self.pick(&[99, 100, 101, 127, 128, 129, 130, 200]),
            5 => *self.pick(&[254, 255, 256, 257, 258, 300]),
            6 => {
                // a constant of the library's source, or one it compared something with while running
                self.below_by(1301, |g| {
                    let d = g.dict.clone();
                    let ops = crate::cov::const_operands();
                    let mut all: Vec<u32> = d.sizes.clone();
                    all.extend(ops.iter().filter(|x| **x <= 1200).map(|x| *x as u32));
                    if all.is_empty() {
                        return 7;
                    }
                    let b = all[g.rng.below(all.len() as u32) as usize];
                    (b + g.rng.below(3)).saturating_sub(1)
                })
            }
            _ => 20 + self.below(80),
        };
        n.min(1300)
    }
    /// length of a list
    pub fn len(&mut self, max: u32) -> u32 {
        if self.big.is_some() && self.chance(20) {
            return self.big.take().unwrap();
        }
        if self.budget <= 0 {
            return self.below(2);
        }
        let m = match self.k.size {
            0..=3 => 3,
            4..=5 => 5,
            6 => 9,
            _ => 14,
        };
        self.below(m.min(max) + 1)
    }
    pub fn spend(&mut self, n: i64) {
        self.budget -= n;
    }
    pub fn space_mode(&mut self) -> SpaceMode {
        match self.below(4) {
            0 => SpaceMode::Alone,
            1 => SpaceMode::MaxJoint,
            _ => SpaceMode::Random(self.seed64()),
        }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}
