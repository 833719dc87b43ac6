//! What the proofs assume of the dependencies (model/model.rs), tried on the dependencies themselves. A case is named by
//! what it tries.
use crate::util::*;
use clear_on_drop::clear::Clear;
use curve25519_dalek::constants::*;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::{Identity, IsIdentity, MultiscalarMul, VartimeMultiscalarMul};
use merlin::Transcript;
use rand::{ChaChaRng, SeedableRng};
use rand_core::RngCore;
use sha2::Sha512;

fn a32(b: &[u8]) -> [u8; 32] {
    let mut t = [0u8; 32];
    t.copy_from_slice(b);
    t
}
/// 32 bytes: random, near the order of the group, or an encoding with something changed
fn some32(c: &mut Case) -> [u8; 32] {
    let mut b = match c.r.below(5) {
        0 => a32(&c.r.bytes(32)),
        1 => *(-Scalar::one()).as_bytes(),
        2 => *c.s().as_bytes(),
        3 => *c.p().compress().as_bytes(),
        _ => [0u8; 32],
    };
    if c.r.one_in(2) {
        let i = if c.r.one_in(2) { *c.r.pick(&[0usize, 30, 31]) } else { c.r.below(32) };
        b[i] = b[i].wrapping_add(c.int() as u8);
    }
    b
}
fn stream(r: &mut impl RngCore) -> Vec<u8> {
    let mut b = vec![0u8; 40];
    r.fill_bytes(&mut b);
    b
}
fn chal(t: &Transcript, l: &'static [u8], n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    t.clone().challenge_bytes(l, &mut b);
    b
}
const L: [&[u8]; 4] = [b"A", b"AB", b"B", b""];
#[derive(Clone, PartialEq)]
enum Ev { Commit(usize, Vec<u8>), Chal(usize, usize) }
fn play(l: usize, e: &[Ev]) -> Transcript {
    let mut t = Transcript::new(L[l]);
    for x in e {
        match x {
            Ev::Commit(l, m) => t.commit_bytes(L[*l], m),
            Ev::Chal(l, n) => {
                let mut b = vec![0u8; *n];
                t.challenge_bytes(L[*l], &mut b)
            }
        }
    }
    t
}
fn events(c: &mut Case) -> Vec<Ev> {
    let n = c.r.below(5);
    (0..n).map(|_| if c.r.one_in(4) { Ev::Chal(c.r.below(4), 1 + c.r.below(64)) } else { let k = c.r.below(4); Ev::Commit(c.r.below(4), c.r.bytes(k)) }).collect()
}

pub fn model(h: &mut H) {
    h.each("scalars are a field", 50, 100000, 0.2, |c| {
        let (a, b, d) = (c.s(), c.s(), c.s());
        c.ck(a + b == b + a && a + (b + d) == (a + b) + d, || "sums".into());
        c.ck(a * b == b * a && a * (b * d) == (a * b) * d, || "products".into());
        c.ck(a * (b + d) == a * b + a * d, || "distribution".into());
        c.ck(Scalar::zero() + a == a && Scalar::one() * a == a && a + (-a) == Scalar::zero() && a - b == a + (-b), || "zero, one, minus".into());
        c.ck(a == Scalar::zero() || a * a.invert() == Scalar::one(), || "inverses".into());
        c.ck(Scalar::zero() != Scalar::one() && a.reduce() == a, || "zero is not one".into());
        c.ck(&a + &b == a + b && &a - b == a - &b && &a * &b == a * &b && -&a == -a, || "references".into());
        c.ck((a == b) == (a.to_bytes() == b.to_bytes()), || "equal scalars have equal encodings".into());
    });
    h.each("points are the multiples of the basepoint", 30, 100000, 0.2, |c| {
        let (a, b) = (c.s(), c.s());
        let g = RISTRETTO_BASEPOINT_POINT;
        let p = c.p();
        c.ck(a * g + b * g == (a + b) * g && a * g - b * g == (a - b) * g && -(a * g) == (-a) * g, || "sums".into());
        c.ck(a * (b * g) == (a * b) * g && (b * g) * a == (a * b) * g && &a * &p == p * &a, || "products".into());
        c.ck((a == b) == (a * g == b * g), || "different multiples are different".into());
        c.ck(&a * &RISTRETTO_BASEPOINT_TABLE == a * g && &RISTRETTO_BASEPOINT_TABLE * &a == a * g, || "the table".into());
        c.ck(RistrettoPoint::identity() == Scalar::zero() * p && Scalar::one() * p == p, || "zero and one".into());
        c.ck(p.is_identity() == (p == RistrettoPoint::identity()) && !g.is_identity(), || "identity".into());
        // a group of this prime order: a point times the order is the identity
        c.ck((-Scalar::one()) * p + p == RistrettoPoint::identity(), || "the order".into());
        let n = c.r.below(6);
        let s: Vec<Scalar> = (0..n).map(|_| c.s()).collect();
        let q: Vec<RistrettoPoint> = (0..n).map(|_| c.p()).collect();
        let sum = s.iter().zip(q.iter()).fold(RistrettoPoint::identity(), |t, (s, q)| t + s * q);
        c.ck(RistrettoPoint::multiscalar_mul(&s, &q) == sum && RistrettoPoint::vartime_multiscalar_mul(&s, &q) == sum, || "sums of products".into());
    });
    h.each("encodings", 50, 100000, 0.2, |c| {
        let (s, p) = (c.s(), c.p());
        c.ck(Scalar::from_canonical_bytes(s.to_bytes()) == Some(s) && Scalar::from_bits(s.to_bytes()) == s && s.as_bytes() == &s.to_bytes(), || "a scalar decodes".into());
        c.ck((0..32).all(|i| s[i] == s.to_bytes()[i]), || "the bytes of a scalar".into());
        c.ck(p.compress().decompress() == Some(p) && p.compress().to_bytes() == *p.compress().as_bytes(), || "a point decodes".into());
        let b = some32(c);
        c.ck(Scalar::from_canonical_bytes(b).map_or(true, |s| s.to_bytes() == b), || format!("{} decodes to a scalar with another encoding", hex(&b)));
        c.ck(CompressedRistretto(b).decompress().map_or(true, |p| p.compress().0 == b), || format!("{} decodes to a point with another encoding", hex(&b)));
        c.ck(CompressedRistretto::from_slice(&b).0 == b, || "from_slice".into());
        c.ck(b[31] >= 16 || Scalar::from_canonical_bytes(b).is_some(), || format!("{} is below 2^252 and does not decode", hex(&b)));
        if let Some(s) = Scalar::from_canonical_bytes(b) {
            c.ck(Scalar::from_bytes_mod_order(b) == s && Scalar::from_bits(b) == s, || "reduction of what is reduced".into());
        }
        let w = c.r.bytes(64);
        let mut t = [0u8; 64];
        t.copy_from_slice(&w);
        c.ck(Scalar::from_canonical_bytes(Scalar::from_bytes_mod_order_wide(&t).to_bytes()).is_some(), || "reduction of 64 bytes".into());
        c.ck(Scalar::zero().to_bytes() == [0; 32] && RistrettoPoint::identity().compress().0 == [0; 32] && CompressedRistretto::identity().0 == [0; 32], || "zeros".into());
        c.ck(RISTRETTO_BASEPOINT_COMPRESSED == RISTRETTO_BASEPOINT_POINT.compress(), || "the basepoint".into());
        c.ck(Scalar::hash_from_bytes::<Sha512>(&w) == Scalar::hash_from_bytes::<Sha512>(&w), || "hashing is a function".into());
        let d: String = c.phone().iter().map(|x| (b'0' + x % 10) as char).collect();
        c.ck(d.as_bytes().iter().zip(d.chars()).all(|(b, c)| *b as u32 == c as u32) && d.len() == d.chars().count(), || "the text of digits".into());
    });
    h.each("bincode", 30, 100000, 0.2, |c| {
        let n = 1 + c.r.below(4);
        let s: Vec<Scalar> = (0..n).map(|_| c.s()).collect();
        let mut want = vec![];
        for x in &s {
            want.extend_from_slice(&[32, 0, 0, 0, 0, 0, 0, 0]);
            want.extend_from_slice(x.as_bytes());
        }
        // structures are tuples of their fields
        let t = (s[0], s[n / 2], s[n - 1]);
        let w: Vec<u8> = [0, n / 2, n - 1].iter().flat_map(|i| want[40 * i..40 * i + 40].to_vec()).collect();
        c.ck(bincode::serialize(&t).unwrap() == w, || "how a structure is written".into());
        let mut more = w.clone();
        let k = c.r.below(3);
        more.extend(c.r.bytes(k));
        c.ck(bincode::deserialize::<(Scalar, Scalar, Scalar)>(&more).ok() == Some(t), || "what it is followed by is not looked at".into());
        let mut bad = w.clone();
        match c.r.below(3) {
            0 => bad.truncate(c.r.below(w.len())),
            1 => {
                let i = 40 * c.r.below(3) + c.r.below(8);
                bad[i] ^= 1 << c.r.below(8);
            }
            _ => {
                let i = 40 * c.r.below(3) + 8;
                let b = some32(c);
                bad[i..i + 32].copy_from_slice(&b);
            }
        }
        if let Ok(x) = quiet(|| bincode::deserialize::<(Scalar, Scalar, Scalar)>(&bad)) {
            c.ck(x.ok().map_or(true, |x| bincode::serialize(&x).unwrap()[..] == bad[..]), || format!("{} decodes to something with another encoding", hex(&bad)));
        } else {
            c.ck(false, || format!("{} makes it panic", hex(&bad)));
        }
    });
    h.each("transcripts", 30, 100000, 0.2, |c| {
        let (l, m) = (c.r.below(4), c.r.below(4));
        let (e, f) = (events(c), events(c));
        let (t, u) = (play(l, &e), play(m, &f));
        let same = l == m && e == f;
        c.ck((chal(&t, b"chal", 64) == chal(&u, b"chal", 64)) == same, || "the challenge is what the transcript has absorbed".into());
        c.ck(chal(&play(l, &e), b"chal", 64) == chal(&t, b"chal", 64), || "and nothing else".into());
        c.ck(chal(&t, b"chal", 64) != chal(&t, b"char", 64) && chal(&t, b"chal", 64)[..32] != chal(&t, b"chal", 32)[..], || "nor is it another challenge".into());
        // the generators made of them
        let key = c.r.bytes(8);
        let seed = hex(&key);
        let (w, v) = (c.s(), c.s());
        let made = |t: &Transcript, l: usize, w: &[Scalar], seed: &str| {
            let mut b = t.fork_transcript();
            for x in w {
                b = b.commit_witness_bytes(L[l], x.as_bytes());
            }
            let mut r = R::new(seed);
            let mut g = b.reseed_from_rng(&mut r);
            stream(&mut g)
        };
        let one = made(&t, 0, &[w, v], &seed);
        c.ck(one == made(&t, 0, &[w, v], &seed), || "a generator is made of the transcript, the witnesses and the seed".into());
        c.ck(one != made(&t, 1, &[w, v], &seed) && one != made(&t, 0, &[w], &seed) && one != made(&t, 0, &[w, v], "x"), || "and of all of them".into());
        c.ck((one == made(&t, 0, &[v, w], &seed)) == (v == w) && (one == made(&u, 0, &[w, v], &seed)) == same, || "each of them".into());
        c.ck(chal(&t, b"chal", 64) == chal(&play(l, &e), b"chal", 64), || "which leaves the transcript as it is".into());
    });
    h.each("generators", 30, 100000, 0.5, |c| {
        let k = a32(&c.r.bytes(32));
        let mut other = k;
        let i = c.r.below(32);
        other[i] ^= 1 << c.r.below(8);
        let (mut a, mut b, mut d) = (ChaChaRng::from_seed(k), ChaChaRng::from_seed(k), ChaChaRng::from_seed(other));
        let (x, y) = (Scalar::random(&mut a), Scalar::random(&mut a));
        c.ck(x == Scalar::random(&mut b) && y == Scalar::random(&mut b) && stream(&mut a) == stream(&mut b), || "a generator is its seed".into());
        c.ck(x != y && x != Scalar::random(&mut d), || "draws are different".into());
        c.ck(Scalar::from_canonical_bytes(x.to_bytes()) == Some(x), || "draws are reduced".into());
        let mut z = c.s();
        z.clear();
        c.ck(z == Scalar::zero(), || "clear".into());
    });
    h.each("slices", 30, 100000, 1.0, |c| {
        let n = c.r.below(100);
        let b = c.r.bytes(n);
        let k = 1 + c.r.below(40);
        let chunks: Vec<Vec<u8>> = b.chunks(k).map(|x| x.to_vec()).collect();
        let want: Vec<Vec<u8>> = (0..(n + k - 1) / k).map(|i| b[k * i..n.min(k * i + k)].to_vec()).collect();
        c.ck(chunks == want, || "chunks".into());
        let mut v = b.clone();
        v.extend(b.iter());
        c.ck(v[..n] == b[..] && v[n..] == b[..] && b.to_vec() == b && Vec::from(&b[..]) == b && *b.clone().into_boxed_slice() == b[..], || "copies".into());
    });
}
