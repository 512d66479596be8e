use crate::Src;
use std::cell::RefCell;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub struct Check {
    pub name: &'static str,
    pub f: fn(&mut Nat),
    /// number of cases at quick tier
    pub n: u64,
}
#[macro_export]
macro_rules! natives {
    ($($f:ident : $n:expr),* $(,)?) => {
        #[cfg(not(kani))]
        pub fn native() -> Vec<$crate::native::Check> {
            vec![$($crate::native::Check { name: stringify!($f), f: $f::<$crate::native::Nat>, n: $n }),*]
        }
    };
}

pub struct CkFail(pub &'static str);
pub struct Discard;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}
pub struct Nat {
    rng: Rng,
    mode: u64,
    fs: Vec<f64>,
    us: Vec<usize>,
    /// recorded draws (kind, bits)
    pub draws: Vec<(char, u64)>,
    replay: Option<Vec<u64>>,
    pub cks: u64,
}
const SPECIAL: [f64; 24] = [
    0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 10.0, -10.0, 1e-300, 5e-324, -5e-324, 2.2250738585072014e-308, 1e300, -1e300,
    f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::EPSILON, 1e16, 0.1, 0.30000000000000004,
];
const EDGE: [usize; 20] = [
    0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 0xffff_fffe, 0xffff_ffff,
    0x1_0000_0000, usize::MAX,
];
impl Nat {
    pub fn new(seed: u64) -> Self {
        let mut rng = Rng(seed);
        let mode = rng.below(5);
        Nat { rng, mode, fs: vec![], us: vec![], draws: vec![], replay: None, cks: 0 }
    }
    pub fn replay(d: Vec<u64>) -> Self {
        let mut n = Nat::new(0);
        n.replay = Some(d);
        n
    }
    fn draw(&mut self, kind: char, v: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.draws.len()).copied().unwrap_or(0),
            None => v,
        };
        self.draws.push((kind, v));
        v
    }
    fn gen_f64(&mut self) -> f64 {
        let r = self.rng.below(16);
        if !self.fs.is_empty() && r < 3 {
            let k = self.rng.below(self.fs.len() as u64) as usize;
            return self.fs[k];
        }
        if !self.fs.is_empty() && r == 3 {
            let k = self.rng.below(self.fs.len() as u64) as usize;
            let b = self.fs[k].to_bits();
            return f64::from_bits(if self.rng.below(2) == 0 { b.wrapping_add(1) } else { b.wrapping_sub(1) });
        }
        if !self.fs.is_empty() && r == 4 {
            let k = self.rng.below(self.fs.len() as u64) as usize;
            let j = self.rng.below(self.fs.len() as u64) as usize;
            return match self.rng.below(4) {
                0 => -self.fs[k],
                1 => self.fs[k] + self.fs[j],
                2 => self.fs[k] - self.fs[j],
                _ => self.fs[k] * 0.5,
            };
        }
        match self.mode {
            0 => self.rng.below(9) as f64 - 4.0,
            1 => {
                let u = self.rng.next() >> 11;
                (u as f64 / (1u64 << 53) as f64) * 20.0 - 10.0
            }
            2 => {
                // wide range of magnitudes, finite
                let e = self.rng.below(600) as i32 - 300;
                let m = (self.rng.below(1 << 20) as f64) - (1 << 19) as f64;
                m * 2f64.powi(e)
            }
            3 => SPECIAL[self.rng.below(SPECIAL.len() as u64) as usize],
            _ => {
                if self.rng.below(2) == 0 {
                    SPECIAL[self.rng.below(SPECIAL.len() as u64) as usize]
                } else {
                    f64::from_bits(self.rng.next())
                }
            }
        }
    }
    fn gen_usize(&mut self) -> usize {
        if !self.us.is_empty() && self.rng.below(6) == 0 {
            let k = self.rng.below(self.us.len() as u64) as usize;
            return self.us[k];
        }
        match self.rng.below(6) {
            0 | 1 => self.rng.below(8) as usize,
            2 => EDGE[self.rng.below(20) as usize],
            3 => self.rng.below(300) as usize,
            4 => self.rng.below(70000) as usize,
            _ => self.rng.next() as usize >> self.rng.below(64),
        }
    }
    pub fn human(&self) -> Vec<String> {
        self.draws
            .iter()
            .map(|(k, v)| match k {
                'f' => format!("{:?}", f64::from_bits(*v)),
                'b' => format!("{}", *v & 1 == 1),
                _ => format!("{}", v),
            })
            .collect()
    }
}
impl Src for Nat {
    fn u64(&mut self) -> u64 {
        let v = self.rng.next();
        self.draw('u', v)
    }
    fn u8(&mut self) -> u8 {
        let v = match self.rng.below(4) {
            0 => [0u64, 1, 127, 128, 255, 254][self.rng.below(6) as usize],
            _ => self.rng.below(256),
        };
        self.draw('u', v) as u8
    }
    fn u32(&mut self) -> u32 {
        let v = match self.rng.below(3) {
            0 => [0u64, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe][self.rng.below(6) as usize],
            _ => self.rng.next() >> self.rng.below(64),
        };
        self.draw('u', v & 0xffff_ffff) as u32
    }
    fn bool(&mut self) -> bool {
        let v = self.rng.below(2);
        self.draw('b', v) & 1 == 1
    }
    fn usize(&mut self) -> usize {
        let v = self.gen_usize();
        let v = self.draw('u', v as u64) as usize;
        self.us.push(v);
        v
    }
    fn below(&mut self, n: usize) -> usize {
        let v = self.rng.below(n as u64);
        let v = self.draw('u', v);
        (v % (n as u64).max(1)) as usize
    }
    fn f64(&mut self) -> f64 {
        let v = self.gen_f64();
        let v = f64::from_bits(self.draw('f', v.to_bits()));
        self.fs.push(v);
        v
    }
    fn fin(&mut self) -> f64 {
        let mut v = self.gen_f64();
        for _ in 0..20 {
            if v.is_finite() {
                break;
            }
            v = self.gen_f64();
        }
        let v = f64::from_bits(self.draw('f', v.to_bits()));
        self.fs.push(v);
        self.assume(v.is_finite());
        v
    }
    fn num(&mut self) -> f64 {
        let mut v = self.gen_f64();
        for _ in 0..20 {
            if !v.is_nan() {
                break;
            }
            v = self.gen_f64();
        }
        let v = f64::from_bits(self.draw('f', v.to_bits()));
        self.fs.push(v);
        self.assume(!v.is_nan());
        v
    }
    fn assume(&mut self, c: bool) {
        if !c {
            panic_any(Discard)
        }
    }
    fn ck(&mut self, c: bool, what: &'static str) {
        self.cks += 1;
        if !c {
            panic_any(CkFail(what))
        }
    }
}

thread_local! { static LOC: RefCell<String> = RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Discard>().is_some() || i.payload().downcast_ref::<CkFail>().is_some() {
            return;
        }
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LOC.with(|l| *l.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}
pub enum Outcome {
    Ok,
    Discarded,
    Fail(String),
}
pub fn run_one(f: fn(&mut Nat), n: &mut Nat) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| f(n))) {
        Ok(()) => Outcome::Ok,
        Err(e) => {
            if e.downcast_ref::<Discard>().is_some() {
                Outcome::Discarded
            } else if let Some(c) = e.downcast_ref::<CkFail>() {
                Outcome::Fail(c.0.to_string())
            } else {
                Outcome::Fail(LOC.with(|l| l.borrow().clone()))
            }
        }
    }
}
fn same_failure(a: &str, b: &str) -> bool {
    // a panic keeps its place; its message may name other values
    let k = |s: &str| s.splitn(3, ": ").next().unwrap_or("").to_string();
    if a.starts_with("panic at") {
        k(a) == k(b)
    } else {
        a == b
    }
}
/// greedy simplification of a failing draw list, keeping the same failure
pub fn shrink(f: fn(&mut Nat), draws: &[(char, u64)], what: &str, ms: u128) -> Vec<(char, u64)> {
    let t0 = std::time::Instant::now();
    let mut cur: Vec<(char, u64)> = draws.to_vec();
    let test = |d: &[(char, u64)]| -> Option<Vec<(char, u64)>> {
        let mut n = Nat::replay(d.iter().map(|x| x.1).collect());
        match run_one(f, &mut n) {
            Outcome::Fail(w) if same_failure(&w, what) => {
                n.draws.truncate(d.len().max(n.draws.len()));
                Some(n.draws)
            }
            _ => None,
        }
    };
    let mut progress = true;
    while progress && t0.elapsed().as_millis() < ms {
        progress = false;
        let mut i = 0;
        while i < cur.len() && t0.elapsed().as_millis() < ms {
            let cands: Vec<u64> = match cur[i].0 {
                'f' => vec![0f64.to_bits(), 1f64.to_bits(), 2f64.to_bits(), (-1f64).to_bits()],
                _ => vec![0, 1, cur[i].1 / 2, cur[i].1.saturating_sub(1)],
            };
            for c in cands {
                let simpler = match cur[i].0 {
                    'f' => cost(c) < cost(cur[i].1),
                    _ => c < cur[i].1,
                };
                if !simpler {
                    continue;
                }
                let mut d = cur.clone();
                d[i].1 = c;
                if let Some(n) = test(&d) {
                    if n.len() <= cur.len() {
                        cur = n;
                        progress = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        // drop single draws
        let mut i = 0;
        while i < cur.len() && cur.len() < 400 && t0.elapsed().as_millis() < ms {
            let mut d = cur.clone();
            d.remove(i);
            match test(&d) {
                Some(n) if n.len() < cur.len() => {
                    cur = n;
                    progress = true;
                }
                _ => i += 1,
            }
        }
    }
    cur
}
fn cost(b: u64) -> u64 {
    let f = f64::from_bits(b);
    if f == 0.0 {
        0
    } else if f == 1.0 {
        1
    } else if f == 2.0 {
        2
    } else if f == -1.0 {
        3
    } else {
        4
    }
}
