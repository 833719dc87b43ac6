//! Seeded inputs, and the bookkeeping of cases.
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use rand_core::{CryptoRng, Error, RngCore};
use sha2::{Digest, Sha512};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// A generator that answers the same for the same seed. Nothing about it is secret.
#[derive(Clone)]
pub struct R {
    key: Vec<u8>,
    ctr: u64,
    buf: Vec<u8>,
}
impl R {
    pub fn new(key: &str) -> R {
        R { key: key.as_bytes().to_vec(), ctr: 0, buf: Vec::new() }
    }
    fn byte(&mut self) -> u8 {
        if self.buf.is_empty() {
            let mut h = Sha512::new();
            h.input(&self.key);
            h.input(&self.ctr.to_le_bytes());
            self.ctr += 1;
            self.buf = h.result().to_vec();
        }
        self.buf.pop().unwrap()
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next_u64() % (n as u64)) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn scalar(&mut self) -> Scalar {
        Scalar::random(self)
    }
}
impl RngCore for R {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        for x in b.iter_mut() {
            *x = self.byte();
        }
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for R {}

/// Gives out these bytes first, then those of another generator.
pub struct Script(pub Vec<u8>, pub R);
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = if self.0.is_empty() { self.1.byte() } else { self.0.remove(0) };
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Script {}

/// Remembers what it gave out.
pub struct Log {
    pub r: R,
    pub bytes: Vec<u8>,
    pub calls: Vec<usize>,
    pub at: Option<(usize, Scalar)>,
}
impl Log {
    /// One which gives out bytes of this scalar among others, in place of the draw with this number.
    pub fn with(r: &mut R, draw: usize, s: Scalar) -> Log {
        let mut log = Log::new(r);
        log.at = Some((64 * draw, s));
        log
    }
    pub fn new(r: &mut R) -> Log {
        let key = hex(&r.bytes(32));
        Log { r: R::new(&key), bytes: vec![], calls: vec![], at: None }
    }
    /// The scalars which can have been read off directly: each with the place it begins at.
    pub fn scalars(&self) -> Vec<(usize, Scalar)> {
        let mut v = Vec::new();
        for &i in self.calls.iter() {
            if i + 64 <= self.bytes.len() {
                let mut b = [0u8; 64];
                b.copy_from_slice(&self.bytes[i..i + 64]);
                v.push((i, Scalar::from_bytes_mod_order_wide(&b)));
            }
            if i + 32 <= self.bytes.len() {
                let mut b = [0u8; 32];
                b.copy_from_slice(&self.bytes[i..i + 32]);
                v.push((i, Scalar::from_bytes_mod_order(b)));
            }
        }
        v
    }
    /// Whether each of these is a draw of its own.
    pub fn drawn(&self, x: &[Scalar]) -> bool {
        let all: std::collections::HashMap<[u8; 32], usize> = self.scalars().into_iter().map(|(i, s)| (s.to_bytes(), i)).collect();
        let mut at: Vec<usize> = Vec::new();
        for s in x {
            match all.get(&s.to_bytes()) {
                Some(i) if !at.contains(i) => at.push(*i),
                _ => return false,
            }
        }
        true
    }
}
impl RngCore for Log {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        let n = self.bytes.len();
        self.calls.push(n);
        self.r.fill_bytes(d);
        if let Some((a, s)) = self.at {
            for (i, x) in d.iter_mut().enumerate() {
                if n + i >= a && n + i < a + 64 {
                    *x = if n + i < a + 32 { s.as_bytes()[n + i - a] } else { 0 };
                }
            }
        }
        self.bytes.extend_from_slice(d);
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Log {}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn hp(p: &RistrettoPoint) -> String {
    hex(p.compress().as_bytes())
}
pub fn hs(s: &Scalar) -> String {
    hex(s.as_bytes())
}

pub struct H {
    pub prop: String,
    pub seed: u64,
    pub ints: Vec<u64>,
    pub evals: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub fails: Vec<(String, u64, String)>,
    pub samples: Vec<String>,
    pub only: Option<(String, u64)>,
    pub deadline: Instant,
    pub iters: u64,
    /// where the case under way is written down, so that a case which never ends can be named
    pub progress: Option<String>,
}

/// The outcome of a call that may panic.
pub fn quiet<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

/// What a case has found wrong; `ck` records the first thing.
pub struct Case<'a> {
    pub r: R,
    pub h: &'a mut H,
    pub bad: Option<String>,
    pub about: String,
    pub it: u64,
    /// what this case has used already
    pub ss: Vec<Scalar>,
    pub ps: Vec<RistrettoPoint>,
}
impl<'a> Case<'a> {
    pub fn ck<F: FnOnce() -> String>(&mut self, ok: bool, what: F) -> bool {
        self.h.evals += 1;
        if !ok && self.bad.is_none() {
            self.bad = Some(what());
        }
        ok
    }
    /// A call which may not panic.
    pub fn run<T, F: FnOnce() -> T>(&mut self, what: &str, f: F) -> Option<T> {
        self.h.evals += 1;
        match quiet(f) {
            Ok(x) => Some(x),
            Err(e) => {
                if self.bad.is_none() {
                    self.bad = Some(format!("{} panicked: {}", what, e));
                }
                None
            }
        }
    }
    pub fn note(&mut self, s: String) {
        self.about.push_str(&s);
        self.about.push(' ');
    }
    /// A number worth trying: small, near a power of two, or a number of the source.
    pub fn int(&mut self) -> u64 {
        match self.r.below(5) {
            0 => self.r.below(8) as u64,
            1 => self.r.below(300) as u64,
            2 | 3 if !self.h.ints.is_empty() => {
                let i = self.r.below(self.h.ints.len());
                let v = self.h.ints[i];
                match self.r.below(4) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    _ => v,
                }
            }
            _ => {
                let s = self.r.below(64);
                (1u64 << s).wrapping_sub(self.r.below(3) as u64)
            }
        }
    }
    /// How many of something: mostly fewer than `small`, at times far more.
    pub fn n(&mut self, small: usize) -> usize {
        match self.r.below(120) {
            0..=2 => self.r.below(40),
            3..=5 => (self.int() % 70) as usize,
            6 => *self.r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
            _ => self.r.below(small),
        }
    }
    /// A scalar worth trying; at times one which was used before, or one close to it.
    pub fn s(&mut self) -> Scalar {
        let x = if !self.ss.is_empty() && self.r.one_in(10) {
            let i = self.r.below(self.ss.len());
            let j = self.r.below(self.ss.len());
            match self.r.below(5) {
                0 => -self.ss[i],
                1 => self.ss[i] + self.ss[j],
                2 => self.ss[i] * self.ss[j],
                _ => self.ss[i],
            }
        } else {
            self.s_new()
        };
        if self.ss.len() < 40 {
            self.ss.push(x);
        }
        x
    }
    fn s_new(&mut self) -> Scalar {
        match self.r.below(12) {
            0 => Scalar::zero(),
            1 => Scalar::one(),
            2 => -Scalar::one(),
            3 => Scalar::from(self.int()),
            4 => -Scalar::from(self.int()),
            5 => {
                // bytes taken from the numbers of the source
                let mut b = [0u8; 32];
                let k = self.int() as u8;
                for x in b.iter_mut() {
                    *x = k;
                }
                Scalar::from_bytes_mod_order(b)
            }
            6 => {
                let mut b = [0u8; 32];
                let v = self.r.bytes(32);
                b.copy_from_slice(&v);
                let i = self.r.below(32);
                b[i] = self.int() as u8;
                b[31] &= 15;
                Scalar::from_bytes_mod_order(b)
            }
            7 => {
                let d = self.phone();
                let mut b = [0u8; 32];
                for (i, x) in d.iter().take(28).enumerate() {
                    b[i + 2] = *x;
                }
                Scalar::from_bytes_mod_order(b)
            }
            _ => self.r.scalar(),
        }
    }
    pub fn nz(&mut self) -> Scalar {
        loop {
            let s = self.s();
            if s != Scalar::zero() {
                return s;
            }
        }
    }
    /// A point worth trying; at times one which was used before.
    pub fn p(&mut self) -> RistrettoPoint {
        let x = if !self.ps.is_empty() && self.r.one_in(10) {
            let i = self.r.below(self.ps.len());
            let j = self.r.below(self.ps.len());
            match self.r.below(4) {
                0 => -self.ps[i],
                1 => self.ps[i] + self.ps[j],
                _ => self.ps[i],
            }
        } else {
            self.p_new()
        };
        if self.ps.len() < 40 {
            self.ps.push(x);
        }
        x
    }
    fn p_new(&mut self) -> RistrettoPoint {
        match self.r.below(10) {
            0 => RistrettoPoint::identity(),
            1 => RISTRETTO_BASEPOINT_POINT,
            2 => {
                let s = self.s();
                s * RISTRETTO_BASEPOINT_POINT
            }
            _ => RistrettoPoint::random(&mut self.r),
        }
    }
    /// The digits of a phone number worth trying, at most 26 of them.
    pub fn phone(&mut self) -> Vec<u8> {
        let n = match self.r.below(6) {
            0 => 0,
            1 => 26,
            2 => (self.int() % 27) as usize,
            _ => self.r.below(27),
        };
        let mut d: Vec<u8> = (0..n).map(|_| self.r.below(10) as u8).collect();
        if n > 0 && self.r.one_in(3) {
            let i = self.r.below(n);
            d[i] = self.int() as u8;
        }
        match self.r.below(12) {
            0 | 1 => {
                for x in d.iter_mut() {
                    *x = 0;
                }
            }
            2 => {
                // two digits only
                let (a, b) = (self.r.below(10) as u8, self.r.below(10) as u8);
                for x in d.iter_mut() {
                    *x = if *x < 7 { a } else { b };
                }
            }
            3 if n > 0 => {
                // a run of one digit
                let (i, j, a) = (self.r.below(n), self.r.below(n + 1), self.r.below(10) as u8);
                for x in d.iter_mut().take(j).skip(i) {
                    *x = a;
                }
            }
            _ => {}
        }
        d
    }
    /// A generator which now and then gives out a number worth trying, but not zero, among this many draws.
    pub fn log(&mut self, draws: usize) -> Log {
        let s = self.nz();
        let i = self.r.below(draws);
        if self.r.one_in(3) { Log::new(&mut self.r) } else { Log::with(&mut self.r, i, s) }
    }
    /// A number close to this one: a digit exchanged, added, left out or moved.
    pub fn near(&mut self, d: &[u8]) -> Vec<u8> {
        let mut b = d.to_vec();
        let n = b.len();
        let i = self.r.below(n + 1);
        let odd = b.iter().any(|x| *x > 9) && self.r.one_in(2);
        match if odd { 7 } else { self.r.below(9) } {
            0 => b.insert(0, 0),
            1 => b.push(*self.r.clone().pick(&[0, 15])),
            2 => {
                let x = self.int() as u8;
                b.insert(i, x)
            }
            3 if n > 0 => {
                b.remove(i % n);
            }
            4 if n > 0 => b.swap(i % n, (i + 1) % n),
            5 if n > 0 => b.reverse(),
            6 if n > 0 => {
                // the same but for some bits
                let k = self.r.below(8);
                b[i % n] ^= 1 << k;
            }
            7 if n > 0 => {
                // what is not a digit instead of what is not one either
                let j = b.iter().position(|x| *x > 9).unwrap_or(i % n);
                b[j] = 10 + self.r.below(6) as u8;
            }
            _ if n > 0 => b[i % n] = self.int() as u8,
            _ => {}
        }
        b.truncate(26);
        b
    }
    /// A number which has most bytes in common with this one.
    pub fn beside(&mut self, s: &Scalar) -> Scalar {
        let mut b = s.to_bytes();
        let i = self.r.below(32);
        let k = self.r.below(8);
        b[i] ^= if self.r.one_in(3) { self.int() as u8 } else { 1 << k };
        Scalar::from_bytes_mod_order(b)
    }
    /// Bytes worth trying, as long as this.
    pub fn b(&mut self, n: usize) -> Vec<u8> {
        let mut v = match self.r.below(4) {
            0 => vec![0u8; n],
            1 => vec![255u8; n],
            _ => self.r.bytes(n),
        };
        for _ in 0..self.r.below(4) {
            if n > 0 {
                let i = self.r.below(n);
                v[i] = self.int() as u8;
            }
        }
        v
    }
}

impl H {
    /// Runs a case again and again, each time from its own seed, while there is time: at least `min` times.
    pub fn each<F: FnMut(&mut Case)>(&mut self, name: &str, min: u64, max: u64, share: f64, mut f: F) {
        let max = if self.iters > 0 { self.iters.max(min) } else { max };
        let start = Instant::now();
        let left = if self.deadline > start { self.deadline - start } else { Duration::from_secs(0) };
        let stop = start + Duration::from_millis((left.as_millis() as f64 * share) as u64);
        let mut it = 0;
        loop {
            if let Some((ref n, i)) = self.only {
                if n != name {
                    return;
                }
                it = i;
            }
            if self.only.is_none() && it >= min && (it >= max || Instant::now() > stop) {
                break;
            }
            let key = format!("{}/{}/{}/{}", self.prop, name, self.seed, it);
            if let Some(ref f) = self.progress {
                let _ = std::fs::write(f, format!("{}#{}", name, it));
            }
            let mut c = Case { r: R::new(&key), h: self, bad: None, about: String::new(), it, ss: vec![], ps: vec![] };
            let res = quiet(|| f(&mut c));
            let bad = match (res, c.bad.take()) {
                (_, Some(b)) => Some(b),
                (Err(e), None) => Some(format!("unexpected panic: {}", e)),
                _ => None,
            };
            let about = c.about.clone();
            {
                use std::hash::{Hash, Hasher};
                let mut hs = std::collections::hash_map::DefaultHasher::new();
                name.hash(&mut hs);
                about.hash(&mut hs);
                self.distinct.insert(hs.finish());
            }
            if it < 1 && self.samples.len() < 40 {
                let mut a = about.clone();
                a.truncate(300);
                self.samples.push(format!("{}#{}: {}", name, it, a));
            }
            if let Some(b) = bad {
                self.fails.push((name.to_string(), it, format!("{} | {}", b, about)));
                if self.fails.len() >= 5 {
                    return;
                }
                break;
            }
            if self.only.is_some() {
                break;
            }
            it += 1;
        }
    }
}
