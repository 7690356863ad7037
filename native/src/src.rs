//! The harness interface, natively: values come from a replay record or from a random generator.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};

#[derive(Default)]
pub struct Rec {
    pub cut: bool,
    pub fails: Vec<String>,
    pub ensures: usize,
    pub covers: BTreeMap<String, usize>,
}
thread_local! {
    pub static REC: RefCell<Rec> = RefCell::new(Rec::default());
}
pub fn cut() {
    REC.with(|r| r.borrow_mut().cut = true)
}
pub fn check(label: &str, ok: bool) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if r.cut {
            return;
        }
        r.ensures += 1;
        if !ok && !r.fails.iter().any(|l| l == label) {
            r.fails.push(label.to_string())
        }
    })
}
pub fn covered(label: &str, ok: bool) {
    REC.with(|r| *r.borrow_mut().covers.entry(label.to_string()).or_insert(0) += ok as usize)
}

#[macro_export]
macro_rules! requires {
    ($c:expr) => {
        if !($c) {
            $crate::src::cut();
            return;
        }
    };
}
#[macro_export]
macro_rules! ensures {
    ($l:expr, $c:expr) => {
        $crate::src::check($l, $c)
    };
}
#[macro_export]
macro_rules! cover {
    ($l:expr, $c:expr) => {
        $crate::src::covered($l, $c)
    };
}

pub fn pairwise_distinct<T: PartialEq>(x: &[T]) -> bool {
    for i in 0..x.len() {
        for j in 0..i {
            if x[i] == x[j] {
                return false;
            }
        }
    }
    true
}

pub struct Src {
    pub s: u64,
    pub replay: Option<VecDeque<(String, f64)>>,
    pub queue: VecDeque<(String, i64)>,
    pub log: Vec<(String, f64)>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { s: seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567), replay: None, queue: VecDeque::new(), log: vec![] }
    }
    pub fn replaying(v: Vec<(String, f64)>) -> Src {
        Src { s: 1, replay: Some(v.into()), queue: VecDeque::new(), log: vec![] }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    fn board(&mut self) {
        // a random position with 15 checkers a side
        let style = self.below(7);
        let mut pts = [0i64; 24];
        let mut bar = [0i64; 2];
        let mut off = [0i64; 2];
        for side in [0usize, 1] {
            let sg = if side == 0 { -1 } else { 1 };
            let spread = 1 + self.below(8);
            let mut pool: Vec<usize> = vec![];
            for _ in 0..spread {
                let home = match style {
                    0 | 1 => self.below(24),
                    2 | 3 => {
                        if side == 0 {
                            self.below(6)
                        } else {
                            18 + self.below(6)
                        }
                    }
                    4 => self.below(6),
                    5 => 18 + self.below(6),
                    _ => {
                        if self.below(2) == 0 {
                            self.below(24)
                        } else if side == 0 {
                            self.below(6)
                        } else {
                            18 + self.below(6)
                        }
                    }
                };
                pool.push(home as usize);
            }
            let barp = if self.below(3) == 0 { 1 + self.below(3) } else { 0 };
            let offp = match self.below(3) {
                0 => 0,
                1 => self.below(15),
                _ => 10 + self.below(6),
            };
            let mut left = 15i64;
            for _ in 0..barp {
                bar[side] += 1;
                left -= 1;
            }
            let o = (offp as i64).min(left);
            off[side] += o;
            left -= o;
            while left > 0 {
                let p = pool[self.below(pool.len() as u64) as usize];
                if pts[p] * sg >= 0 {
                    pts[p] += sg;
                    left -= 1;
                } else if self.below(4) == 0 {
                    off[side] += 1;
                    left -= 1;
                }
            }
        }
        self.queue.clear();
        for p in pts {
            self.queue.push_back(("point".into(), p));
        }
        for (n, v) in [("bar0", bar[0]), ("bar1", bar[1]), ("off0", off[0]), ("off1", off[1])] {
            self.queue.push_back((n.into(), v));
        }
    }
    fn int(&mut self, name: &str, lo: i64, hi: i64) -> i64 {
        let v = if let Some(r) = &mut self.replay {
            match r.pop_front() {
                Some((n, v)) if n == name => v as i64,
                _ => lo,
            }
        } else {
            if name == "point" && self.queue.is_empty() {
                self.board();
            }
            match self.queue.front() {
                Some((n, _)) if n == name => self.queue.pop_front().unwrap().1,
                _ => lo + self.below((hi - lo + 1) as u64) as i64,
            }
        };
        self.log.push((name.into(), v as f64));
        v
    }
    pub fn i8(&mut self, n: &str, lo: i8, hi: i8) -> i8 {
        self.int(n, lo as i64, hi as i64) as i8
    }
    pub fn u8(&mut self, n: &str, lo: u8, hi: u8) -> u8 {
        self.int(n, lo as i64, hi as i64) as u8
    }
    pub fn i32(&mut self, n: &str, lo: i32, hi: i32) -> i32 {
        self.int(n, lo as i64, hi as i64) as i32
    }
    pub fn u32(&mut self, n: &str, lo: u32, hi: u32) -> u32 {
        self.int(n, lo as i64, hi as i64) as u32
    }
    pub fn i64(&mut self, n: &str, lo: i64, hi: i64) -> i64 {
        self.int(n, lo, hi)
    }
    pub fn usize(&mut self, n: &str, lo: usize, hi: usize) -> usize {
        self.int(n, lo as i64, hi as i64) as usize
    }
    pub fn bool(&mut self, n: &str) -> bool {
        self.int(n, 0, 1) == 1
    }
    pub fn pick(&mut self, n: &str, k: usize) -> usize {
        self.int(n, 0, k as i64 - 1) as usize
    }
    pub fn f32(&mut self, name: &str, lo: f32, hi: f32) -> f32 {
        let v = if let Some(r) = &mut self.replay {
            match r.pop_front() {
                Some((n, v)) if n == name => v as f32,
                _ => lo,
            }
        } else {
            match self.below(6) {
                0 => lo,
                1 => hi,
                _ => lo + (hi - lo) * ((self.next() >> 11) as f32 / (1u64 << 53) as f32),
            }
        };
        self.log.push((name.into(), v as f64));
        v
    }
    /// true only for the prover
    pub fn symbolic(&self) -> bool {
        false
    }
}
