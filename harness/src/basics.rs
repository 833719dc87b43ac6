//! MACs, encryption, commitments, proofs, keys and parameters.
use crate::protocol::*;
use crate::util::*;
use crate::zk::*;
use aeonflux::amacs;
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen;
use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_COMPRESSED, RISTRETTO_BASEPOINT_POINT, RISTRETTO_BASEPOINT_TABLE};
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use sha2::Sha512;
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::*;
use std::mem::ManuallyDrop;

fn key(c: &mut Case, n: usize) -> amacs::SecretKey {
    amacs::SecretKey { x0: c.s(), xn: (0..n).map(|_| c.s()).collect() }
}
fn scs(v: &[Scalar]) -> String {
    v.iter().map(hs).collect::<Vec<_>>().join(",")
}

pub fn c01(h: &mut H) {
    h.each("mac", 150, 20000, 0.5, |c| {
        let n = c.n(9);
        let k = key(c, n);
        let m: Vec<Scalar> = (0..n).map(|_| c.s()).collect();
        c.note(format!("key {} message {}", hex(&k.to_bytes()), scs(&m)));
        let t = match c.run("mac", || (&k, &m)).map(|_| k.mac(&amacs::Message(m.clone()), &mut c.r)) {
            Some(Ok(t)) => t,
            x => {
                c.ck(false, || format!("no MAC: {:?}", x));
                return;
            }
        };
        c.ck(t.nonce != RistrettoPoint::identity(), || "the nonce is the identity".into());
        c.ck(t.mac == mac_exp(&k, &m) * t.nonce, || "the MAC is not nonce * (x0 + sum xi mi)".into());
        c.ck(k.verify(&t, &amacs::Message(m.clone())).is_ok(), || "the MAC does not verify".into());
        let t2 = k.mac(&amacs::Message(m.clone()), &mut c.r).unwrap();
        c.ck(t2.nonce != t.nonce, || "the nonce is repeated".into());
        // other messages
        for _ in 0..3 {
            let mut m2 = m.clone();
            if n > 0 {
                let i = c.r.below(n);
                m2[i] = match c.r.below(3) {
                    0 => m2[i] + Scalar::one(),
                    1 => -m2[i],
                    _ => c.s(),
                };
                if c.r.one_in(4) {
                    let j = c.r.below(n);
                    m2.swap(i, j);
                }
            }
            let want = mac_exp(&k, &m2) == mac_exp(&k, &m);
            let got = k.verify(&t, &amacs::Message(m2.clone())).is_ok();
            c.ck(got == want, || format!("message {}: accepted {}, should be {}", scs(&m2), got, want));
        }
        // other lengths
        let mut m2 = m.clone();
        if n > 0 && c.r.one_in(2) {
            m2.pop();
        } else {
            m2.push(if c.r.one_in(2) { Scalar::zero() } else { c.s() });
        }
        let r = k.verify(&t, &amacs::Message(m2.clone()));
        c.ck(r.is_err(), || format!("a message of {} attributes was accepted with a key for {}", m2.len(), n));
        let r = k.mac(&amacs::Message(m2.clone()), &mut c.r);
        c.ck(r.is_err(), || format!("a MAC was made for {} attributes with a key for {}", m2.len(), n));
    });
    h.each("verify", 150, 20000, 0.8, |c| {
        let n = c.n(5);
        let k = key(c, n);
        let m: Vec<Scalar> = (0..n).map(|_| c.s()).collect();
        let nonce = c.p();
        let mac = match c.r.below(4) {
            0 => mac_exp(&k, &m) * nonce,
            1 => mac_exp(&k, &m) * nonce + RISTRETTO_BASEPOINT_POINT,
            2 => -(mac_exp(&k, &m) * nonce),
            _ => c.p(),
        };
        c.note(format!("key {} message {} nonce {} mac {}", hex(&k.to_bytes()), scs(&m), hp(&nonce), hp(&mac)));
        let want = nonce != RistrettoPoint::identity() && mac == mac_exp(&k, &m) * nonce;
        let got = k.verify(&amacs::Tag { nonce, mac }, &amacs::Message(m)).is_ok();
        c.ck(got == want, || format!("accepted {}, should be {}", got, want));
    });
    h.each("message", 60, 5000, 1.0, |c| {
        let n = c.r.below(80);
        let s: String = (0..n).map(|_| (32 + c.r.below(90)) as u8 as char).collect();
        let m = amacs::Message::from(s.clone());
        c.ck(m.0 == vec![Scalar::hash_from_bytes::<Sha512>(s.as_bytes())], || format!("the message for {:?} is not its hash", s));
        let x = c.s();
        let m = amacs::Message::from(x);
        c.ck(m.0 == vec![x] && m[0] == x, || "the message for a scalar is another".into());
        let v: Vec<Scalar> = (0..c.n(6)).map(|_| c.s()).collect();
        let m = amacs::Message::from(v.clone());
        c.ck(m.0 == v && (0..v.len()).all(|i| m[i] == v[i]), || "the message for scalars is another".into());
        let w: Vec<Scalar> = m.into();
        c.ck(w == v, || "the scalars of a message are others".into());
        let d = c.phone();
        if let Ok(p) = PhoneNumber::try_from_bytes(&d) {
            let x = p.0;
            let m: amacs::Message = p.into();
            c.ck(m.0 == vec![x], || "the message for a phone number is another".into());
        }
    });
}

pub fn c02(h: &mut H) {
    let mut seen = std::collections::HashSet::new();
    h.each("rerandomize", 150, 20000, 1.0, |c| {
        let n = c.n(4);
        let k = key(c, n);
        let m: Vec<Scalar> = (0..n).map(|_| c.s()).collect();
        // logarithms are known
        let (a, b) = (c.nz(), if c.r.one_in(2) { c.s() } else { c.s() });
        let honest = c.r.one_in(2);
        let nonce = a * RISTRETTO_BASEPOINT_POINT;
        let mac = if honest { mac_exp(&k, &m) * nonce } else { b * RISTRETTO_BASEPOINT_POINT };
        let t = amacs::Tag { nonce, mac };
        c.note(format!("key {} message {} nonce {} mac {}", hex(&k.to_bytes()), scs(&m), hp(&nonce), hp(&mac)));
        let z = amacs::Rerandomization::new(&mut c.r);
        let u = z.apply_to_tag(&t);
        c.ck(u == &t * &z && u == &z * &t, || "the ways to rerandomize differ".into());
        if !honest {
            c.ck(a * u.mac == b * u.nonce, || "nonce and MAC are not multiplied by the same number".into());
        }
        c.ck(u.nonce != t.nonce && u.nonce != RistrettoPoint::identity() && u.nonce != RISTRETTO_BASEPOINT_POINT, || "the nonce is not rerandomized".into());
        // the same number for every tag
        let t1 = amacs::Tag { nonce: RISTRETTO_BASEPOINT_POINT, mac: c.p() };
        let u1 = z.apply_to_tag(&t1);
        c.ck(a * u1.nonce == u.nonce, || "the number depends on the tag".into());
        c.ck(seen.insert(u1.nonce.compress().to_bytes()), || "the number is repeated".into());
        let mut log = c.log(1);
        let z = amacs::Rerandomization::new(&mut log);
        let f = z.apply_to_tag(&t1).nonce;
        c.ck(log.scalars().iter().any(|x| x.1 * RISTRETTO_BASEPOINT_POINT == f), || "the number is not drawn".into());
        for i in 0..2 {
            let msg = amacs::Message(if i == 0 { m.clone() } else { (0..n).map(|_| c.s()).collect() });
            let (v0, v1) = (k.verify(&t, &msg).is_ok(), k.verify(&u, &msg).is_ok());
            c.ck(v0 == v1, || format!("accepted before: {}, after: {}", v0, v1));
        }
        if honest {
            c.ck(k.verify(&u, &amacs::Message(m.clone())).is_ok(), || "a rerandomized MAC is refused".into());
        }
    });
}

fn eg(c: &mut Case) -> (elgamal::Keypair, Scalar) {
    if c.r.one_in(3) {
        let k = elgamal::Keypair::generate(&mut c.r);
        let s: Scalar = k.secret.clone().into();
        let b = {
            let mut t = [0u8; 32];
            t.copy_from_slice(&k.secret.to_bytes());
            Scalar::from_bits(t)
        };
        // `into` leaves the secret to be cleared: the bytes are what counts
        c.ck(s == b, || "the secret key as a scalar is another".into());
        (k, b)
    } else {
        let s = c.s();
        let mut v = s.to_bytes().to_vec();
        v.extend((s * RISTRETTO_BASEPOINT_POINT).compress().to_bytes().iter());
        (elgamal::Keypair::from_bytes(&v).unwrap(), s)
    }
}
pub fn c03(h: &mut H) {
    h.each("encrypt", 150, 20000, 1.0, |c| {
        let (k, s) = eg(c);
        let (m, m2, e, e2) = (c.s(), c.s(), c.s(), c.s());
        c.note(format!("secret {} messages {} {} nonces {} {}", hs(&s), hs(&m), hs(&m2), hs(&e), hs(&e2)));
        let b = RISTRETTO_BASEPOINT_POINT;
        let d: RistrettoPoint = k.public.into();
        c.ck(d == s * b, || "the public key is not the one of the secret key".into());
        c.ck(elgamal::PublicKey::from(&k.secret) == k.public, || "the public key from the secret key is another".into());
        let x = k.public.encrypt(&elgamal::Message::from(&m), &e.into());
        let y = k.encrypt(&elgamal::Message::from(&m2), &e2.into());
        c.ck(x.commitment == e * b, || "the commitment is not nonce * B".into());
        c.ck(x.encryption == m * b + e * d, || "the encryption is not M + nonce * D".into());
        c.ck(y == k.public.encrypt(&elgamal::Message::from(&m2), &e2.into()), || "the keypair encrypts differently".into());
        c.ck(k.secret.decrypt(&x) == m * b, || "the decryption is another".into());
        c.ck(k.secret.decrypt(&(&x + &y)) == (m + m2) * b, || "the sum does not decrypt to the sum".into());
        let z = &x + &y;
        c.ck(z.commitment == x.commitment + y.commitment && z.encryption == x.encryption + y.encryption, || "the sum is another".into());
        let odd = elgamal::Encryption { commitment: c.p(), encryption: c.p() };
        c.ck(k.secret.decrypt(&odd) == odd.encryption - s * odd.commitment, || "the decryption of an arbitrary pair is another".into());
        let p = PhoneNumber(m);
        let ep = p.encrypt(&k, &e.into());
        c.ck(ep.0 == x, || "the encryption of a phone number is another".into());
        let v: Vec<elgamal::Encryption> = ep.into();
        c.ck(v == vec![x], || "the encrypted attributes are others".into());
        let mut log = c.log(1);
        let k2 = elgamal::Keypair::generate(&mut log);
        let k3 = elgamal::Keypair::generate(&mut c.r);
        c.ck(k2.secret != k3.secret && elgamal::PublicKey::from(&k2.secret) == k2.public && elgamal::PublicKey::from(&k3.secret) == k3.public, || "a generated keypair is wrong or repeated".into());
        let s2 = elgamal::SecretKey::generate(&mut c.r);
        c.ck(s2 != k2.secret && s2.to_bytes() != vec![0u8; 32], || "a generated secret is zero or repeated".into());
    });
}

pub fn c04(h: &mut H) {
    h.each("commit", 150, 20000, 1.0, |c| {
        let (v, w, r, r2, g) = (c.p(), c.p(), c.s(), c.s(), c.p());
        c.note(format!("values {} {} nonces {} {} basepoint {}", hp(&v), hp(&w), hs(&r), hs(&r2), hp(&g)));
        let x = pedersen::Commitment::to(&v, &r.into(), &g);
        let xp: RistrettoPoint = x.into();
        c.ck(xp == v + r * g, || "the commitment is not value + nonce * basepoint".into());
        c.ck(comp(&x) == xp, || "the bytes of the commitment are of another point".into());
        c.ck(x.open(&v, &r.into(), &g).is_ok(), || "the commitment does not open".into());
        for (val, non, bas) in vec![(w, r, g), (v, r2, g), (v, r, w), (v + g, r - Scalar::one(), g), (-v, r, g), (v, -r, g)] {
            let want = val + non * bas == v + r * g;
            let got = x.open(&val, &non.into(), &bas).is_ok();
            c.ck(got == want, || format!("opened with {} {} {}: {}, should be {}", hp(&val), hs(&non), hp(&bas), got, want));
        }
        c.ck(&x * &r2 == r2 * xp && &r2 * &x == r2 * xp, || "a multiple of a commitment is another".into());
        let mut p = w;
        p -= x;
        c.ck(p == w - xp, || "subtracting a commitment is wrong".into());
        // ephemerals as numbers
        let e = Ephemeral::from(r);
        let want = r * v;
        let all = [&v * &e, &e * &v, v * &e, Ephemeral::from(r) * &v, &e * v, &v * Ephemeral::from(r), Ephemeral::from(r) * v, v * Ephemeral::from(r)];
        for (i, q) in all.iter().enumerate() {
            c.ck(*q == want, || format!("product {} of an ephemeral and a point is another", i));
        }
        let want = r * RISTRETTO_BASEPOINT_POINT;
        c.ck(&e * &RISTRETTO_BASEPOINT_TABLE == want && &RISTRETTO_BASEPOINT_TABLE * &e == want, || "the product of an ephemeral and the basepoint is another".into());
        let n = -Ephemeral::from(r);
        c.ck(eph(&n) == -r, || "minus an ephemeral is another".into());
        let s: &Scalar = (&e).into();
        c.ck(*s == r && e.to_bytes() == r.to_bytes().to_vec(), || "an ephemeral as a scalar is another".into());
        // phone numbers
        let (m, m2, h) = (c.s(), c.s(), c.p());
        let cp = CommittedPhoneNumber::from_phone_number(&PhoneNumber(m), &r.into(), &g, &h);
        c.ck(comp(&cp.0) == m * h + r * g, || "the commitment to a phone number is not number * h + nonce * g".into());
        c.ck(cp.open(&PhoneNumber(m), &r.into(), &g, &h).is_ok(), || "the commitment to a phone number does not open".into());
        for (mm, rr) in vec![(m2, r), (m, r2), (m2, r2)] {
            let want = mm * h + rr * g == m * h + r * g;
            let got = cp.open(&PhoneNumber(mm), &rr.into(), &g, &h).is_ok();
            c.ck(got == want, || format!("the commitment to a phone number opens to {} {}: {}", hs(&mm), hs(&rr), got));
        }
    });
}

fn label(c: &mut Case) -> &'static [u8] {
    *c.r.pick(&[&b"AEONFLUX ISSUANCE"[..], &b"AEONFLUX SHOW"[..], &b"SIGNAL GROUP MEMBERSHIP"[..], &b"x"[..]])
}
pub fn c12(h: &mut H) {
    for st in ALL.iter() {
        h.each(st.name, 40, 3000, 0.25, |c| {
            let l = label(c);
            let (p, s) = instance(st, c);
            c.note(show(st, &p, &s));
            let b = real_create(st, &mut Transcript::new(l), &p, &s);
            c.ck(real_verify(st, &mut Transcript::new(l), &p, &b) == Some(true), || format!("the proof is refused: {}", hex(&b)));
            match unwire(&b) {
                Some(pf) => {
                    c.ck(accepts(st, &mut Transcript::new(l), &p, &pf), || format!("the proof does not satisfy the statement's equations: {}", hex(&b)));
                    c.ck(wire(&pf) == b, || "the proof's bytes change".into());
                    c.ck(pf.r.len() == st.secrets.len(), || "the proof has another number of answers".into());
                }
                None => {
                    c.ck(false, || format!("the proof does not decode: {}", hex(&b)));
                }
            }
            // the reference's proofs are accepted as well
            let k: Vec<Scalar> = (0..s.len()).map(|_| c.s()).collect();
            let pf = prove(st, &mut Transcript::new(l), &p, &s, &k);
            c.ck(real_verify(st, &mut Transcript::new(l), &p, &wire(&pf)) == Some(true), || format!("a correct proof is refused: {}", hex(&wire(&pf))));
            // a transcript that has something in it already
            let mut t = Transcript::new(l);
            t.commit_bytes(b"before", b"something");
            let mut t2 = t.clone();
            let b = real_create(st, &mut t, &p, &s);
            c.ck(real_verify(st, &mut t2, &p, &b) == Some(true), || "the proof is refused in a longer transcript".into());
        });
    }
}
pub fn c13(h: &mut H) {
    for st in ALL.iter() {
        h.each(st.name, 20, 4000, 0.25, |c| {
            let l = label(c);
            let (p, s) = instance(st, c);
            c.note(show(st, &p, &s));
            let b = real_create(st, &mut Transcript::new(l), &p, &s);
            let pf = match unwire(&b) {
                Some(x) => x,
                None => return,
            };
            // every public value, also in a way that keeps the statement true
            for i in 0..p.len() {
                let mut q = p.clone();
                q[i] = match c.r.below(3) {
                    0 => q[i] + RISTRETTO_BASEPOINT_POINT,
                    1 => -q[i],
                    _ => c.p(),
                };
                let want = accepts(st, &mut Transcript::new(l), &q, &pf);
                let got = real_verify(st, &mut Transcript::new(l), &q, &b);
                c.ck(got == Some(want), || format!("with another {} ({}): {:?}, should be {}", st.publics[i], hp(&q[i]), got, want));
                // the challenge of the honest statement with one value left out would let this pass
                if q[i] != p[i] {
                    c.ck(got == Some(false), || format!("the proof does not bind {}", st.publics[i]));
                }
            }
            // another transcript
            let mut t = Transcript::new(l);
            t.commit_bytes(b"x", b"y");
            c.ck(real_verify(st, &mut t, &p, &b) == Some(false), || "the proof is accepted in another transcript".into());
            c.ck(real_verify(st, &mut Transcript::new(b"another label"), &p, &b) == Some(false), || "the proof is accepted with another label".into());
            // forged by choosing a public value after the challenge: only works where the value is not bound
            for i in 0..p.len() {
                for k in 0..st.eqs.len() {
                    if st.eqs[k].0 != i {
                        continue;
                    }
                    let mut q = p.clone();
                    let d = c.nz();
                    q[i] = q[i] + d * RISTRETTO_BASEPOINT_POINT;
                    let got = real_verify(st, &mut Transcript::new(l), &q, &b);
                    c.ck(got == Some(q[i] == p[i]), || format!("{} may be changed after the fact", st.publics[i]));
                }
            }
            // the commitments are bound: answers shifted along with nothing else
            for i in 0..pf.r.len() {
                let mut f = pf.clone();
                f.r[i] += c.nz();
                let want = accepts(st, &mut Transcript::new(l), &p, &f);
                let got = real_verify(st, &mut Transcript::new(l), &p, &wire(&f));
                c.ck(got == Some(want), || format!("another answer for {}: {:?}, should be {}", st.secrets[i], got, want));
            }
            // the challenge depends on every commitment: a proof by a prover who commits to one equation late
            for k in 0..st.eqs.len() {
                let rnd: Vec<Scalar> = (0..s.len()).map(|_| c.s()).collect();
                let f = prove(st, &mut Transcript::new(l), &p, &s, &rnd);
                let mut q = p.clone();
                q[st.eqs[k].0] = c.p();
                let want = accepts(st, &mut Transcript::new(l), &q, &f);
                let got = real_verify(st, &mut Transcript::new(l), &q, &wire(&f));
                c.ck(got == Some(want), || format!("equation {}: {:?}, should be {}", k, got, want));
            }
            // the real challenge is the one of the reference, given the randomness
            let coms: Vec<RistrettoPoint> = st.eqs.iter().map(|(lhs, terms)| {
                let mut t = -(pf.c * p[*lhs]);
                for &(bi, si) in terms.iter() {
                    t += pf.r[si] * p[bi];
                }
                t
            }).collect();
            c.ck(challenge(st, &mut Transcript::new(l), &p, &coms) == pf.c, || "the challenge is not the one of the whole transcript".into());
        });
    }
}
pub fn c14(h: &mut H) {
    for st in ALL.iter() {
        h.each(st.name, 80, 6000, 0.25, |c| {
            let l = label(c);
            let (mut p, mut s) = instance(st, c);
            match c.r.below(4) {
                0 => {}
                1 => {
                    let i = c.r.below(p.len());
                    p[i] = c.p();
                }
                2 => {
                    let i = c.r.below(s.len());
                    s[i] = c.s();
                }
                _ => {
                    for x in p.iter_mut() {
                        *x = c.p();
                    }
                }
            }
            c.note(show(st, &p, &s));
            let k: Vec<Scalar> = (0..s.len()).map(|_| c.s()).collect();
            let mut pf = prove(st, &mut Transcript::new(l), &p, &s, &k);
            match c.r.below(5) {
                0 => pf.c = c.s(),
                1 => {
                    let i = c.r.below(pf.r.len());
                    pf.r[i] = c.s();
                }
                2 => {
                    let i = c.r.below(pf.r.len());
                    let j = c.r.below(pf.r.len());
                    pf.r.swap(i, j);
                }
                _ => {}
            }
            let want = accepts(st, &mut Transcript::new(l), &p, &pf);
            let got = real_verify(st, &mut Transcript::new(l), &p, &wire(&pf));
            c.ck(got == Some(want), || format!("proof {}: {:?}, should be {}", hex(&wire(&pf)), got, want));
            // the real prover with these secrets: accepted only if the statement holds for them
            let b = real_create(st, &mut Transcript::new(l), &p, &s);
            let want = holds(st, &p, &s);
            let got = real_verify(st, &mut Transcript::new(l), &p, &b);
            c.ck(got == Some(want), || format!("the statement holds for the secrets: {}, accepted: {:?}", want, got));
            // the prover answers challenge * secret + randomness: with the commitment's randomness recovered
            if let Some(f) = unwire(&b) {
                c.ck(f.r.len() == s.len(), || "another number of answers".into());
            }
        });
    }
}
pub fn c15(h: &mut H) {
    let mut seen = std::collections::HashSet::new();
    for st in ALL.iter() {
        h.each(st.name, 40, 3000, 0.25, |c| {
            let l = label(c);
            let (p, s) = instance(st, c);
            c.note(show(st, &p, &s));
            let mut these: Vec<Scalar> = vec![];
            for _ in 0..2 {
                // the same statement twice, from the same transcript
                let b = real_create(st, &mut Transcript::new(l), &p, &s);
                let pf = match unwire(&b) {
                    Some(x) => x,
                    None => return,
                };
                let k: Vec<Scalar> = (0..s.len()).map(|i| pf.r[i] - pf.c * s[i]).collect();
                for (i, x) in k.iter().enumerate() {
                    c.ck(*x != Scalar::zero(), || format!("{} is not blinded", st.secrets[i]));
                    c.ck(!s.contains(x) || *x == s[i] && false, || format!("{} is blinded with a secret", st.secrets[i]));
                    for y in these.iter() {
                        c.ck(x != y && *x != -y, || format!("the blinding of {} is used twice", st.secrets[i]));
                    }
                    these.push(*x);
                }
            }
            for x in these {
                c.ck(seen.insert(x.to_bytes()), || "a blinding was seen before".into());
            }
        });
    }
}

pub mod watch {
    //! An allocator that keeps the contents of blocks that are given back while it is told to.
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    pub struct A;
    static ON: AtomicBool = AtomicBool::new(false);
    static LEN: AtomicUsize = AtomicUsize::new(0);
    static mut BUF: [u8; 1 << 16] = [0; 1 << 16];
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if TRACK.load(Ordering::SeqCst) {
                let n = NA.fetch_add(1, Ordering::SeqCst);
                if n < MANY {
                    GIVEN[n] = (p as usize, l.size(), true);
                }
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if ON.load(Ordering::SeqCst) {
                let n = LEN.load(Ordering::SeqCst);
                if n + l.size() <= 1 << 16 {
                    std::ptr::copy_nonoverlapping(p, BUF.as_mut_ptr().add(n), l.size());
                    LEN.store(n + l.size(), Ordering::SeqCst);
                }
            }
            if TRACK.load(Ordering::SeqCst) {
                let n = NF.fetch_add(1, Ordering::SeqCst);
                if n < MANY {
                    FREED[n] = (p as usize, l.size());
                }
                for g in GIVEN[..NA.load(Ordering::SeqCst).min(MANY)].iter_mut() {
                    if g.0 == p as usize {
                        g.2 = false;
                    }
                }
                // whoever still reads this should see it
                std::ptr::write_bytes(p, 0xdd, l.size());
            }
            System.dealloc(p, l)
        }
    }
    const MANY: usize = 1 << 12;
    static TRACK: AtomicBool = AtomicBool::new(false);
    static NA: AtomicUsize = AtomicUsize::new(0);
    static NF: AtomicUsize = AtomicUsize::new(0);
    static mut GIVEN: [(usize, usize, bool); MANY] = [(0, 0, false); MANY];
    static mut FREED: [(usize, usize); MANY] = [(0, 0); MANY];
    /// The blocks that were given back in the course of a call, and are not in use at its end.
    pub struct Seen(Vec<(usize, usize)>, Vec<usize>);
    impl Seen {
        pub fn count(&self, p: *const u8) -> usize {
            self.0.iter().filter(|x| x.0 == p as usize).count()
        }
        pub fn sizes(&self, p: *const u8) -> Vec<usize> {
            self.0.iter().filter(|x| x.0 == p as usize).map(|x| x.1).collect()
        }
        pub fn given(&self, p: *const u8) -> bool {
            self.1.contains(&(p as usize))
        }
        pub fn freed(&self, p: *const u8) -> bool {
            self.count(p) > 0 && !self.1.contains(&(p as usize))
        }
    }
    pub fn tracked<T, F: FnOnce() -> T>(f: F) -> (T, Seen) {
        NA.store(0, Ordering::SeqCst);
        NF.store(0, Ordering::SeqCst);
        TRACK.store(true, Ordering::SeqCst);
        let x = f();
        TRACK.store(false, Ordering::SeqCst);
        unsafe {
            let given: Vec<usize> = GIVEN[..NA.load(Ordering::SeqCst).min(MANY)].iter().filter(|g| g.2).map(|g| g.0).collect();
            (x, Seen(FREED[..NF.load(Ordering::SeqCst).min(MANY)].to_vec(), given))
        }
    }
    /// What blocks held when they were given back in the course of this.
    pub fn freed<F: FnOnce()>(f: F) -> Vec<u8> {
        LEN.store(0, Ordering::SeqCst);
        ON.store(true, Ordering::SeqCst);
        f();
        ON.store(false, Ordering::SeqCst);
        unsafe { BUF[..LEN.load(Ordering::SeqCst)].to_vec() }
    }
}
/// Drops a value in place; gives what was left in its own memory and in the blocks it owned.
fn drop_and_look<T>(x: T) -> (Vec<u8>, Vec<u8>) {
    let mut m = ManuallyDrop::new(x);
    let p = &mut *m as *mut T;
    let heap = watch::freed(|| unsafe { std::ptr::drop_in_place(p) });
    let own = unsafe { std::slice::from_raw_parts(p as *const u8, std::mem::size_of::<T>()).to_vec() };
    (own, heap)
}
fn find(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
pub fn c21(h: &mut H) {
    h.each("drop", 60, 100000, 1.0, |c| {
        let n = c.n(9);
        // secrets whose bytes are unlike anything else in memory
        let xs: Vec<Scalar> = (0..n + 1).map(|_| c.r.scalar()).collect();
        c.note(format!("secrets {}", scs(&xs)));
        let left = |c: &mut Case, what: &str, xs: &[Scalar], m: (Vec<u8>, Vec<u8>)| {
            for (i, x) in xs.iter().enumerate() {
                for half in x.as_bytes().chunks(8) {
                    c.ck(!find(&m.0, half) && !find(&m.1, half), || format!("secret {} of a dropped {} is left in memory", i, what));
                }
            }
        };
        let k = amacs::SecretKey { x0: xs[0], xn: xs[1..].to_vec() };
        let m = drop_and_look(k);
        left(c, "amacs::SecretKey", &xs, m);
        let mut big = Vec::with_capacity(n + 5);
        big.extend_from_slice(&xs[1..]);
        let m = drop_and_look(amacs::SecretKey { x0: xs[0], xn: big });
        left(c, "amacs::SecretKey", &xs, m);
        let m = drop_and_look(Ephemeral::from(xs[0]));
        left(c, "Ephemeral", &xs[..1], m);
        let sk = elgamal::SecretKey::from_bytes(xs[0].as_bytes()).unwrap();
        let m = drop_and_look(sk);
        left(c, "elgamal::SecretKey", &xs[..1], m);
        let r = c.r.clone();
        let mut r1 = r.clone();
        let no = Nonces::new(&mut c.r, n);
        let zs: Vec<Scalar> = no.iter().map(eph).collect();
        let m = drop_and_look(no);
        left(c, "Nonces", &zs, m);
        // the number of a rerandomization is not public: look for whatever its own memory held
        let z = amacs::Rerandomization::new(&mut r1);
        let before = unsafe { std::slice::from_raw_parts(&z as *const _ as *const u8, std::mem::size_of_val(&z)).to_vec() };
        let m = drop_and_look(z);
        c.ck(m.0 != before && before.chunks(8).all(|w| !find(&m.0, w)), || "the number of a dropped Rerandomization is left in memory".into());
        // values which own keys
        let sp = SystemParameters { g: RISTRETTO_BASEPOINT_POINT, h: RISTRETTO_BASEPOINT_POINT + RISTRETTO_BASEPOINT_POINT };
        let kp = amacs::Keypair { public: amacs::PublicKey { Xn: vec![] }, secret: amacs::SecretKey { x0: xs[0], xn: xs[1..].to_vec() } };
        let m = drop_and_look(Issuer::new(sp, kp.clone()));
        left(c, "Issuer", &xs, m);
        let m = drop_and_look(SignalIssuer::new(sp, kp.clone()));
        left(c, "SignalIssuer", &xs, m);
        let m = drop_and_look(kp);
        left(c, "amacs::Keypair", &xs, m);
        let mut v = xs[0].to_bytes().to_vec();
        v.extend(RISTRETTO_BASEPOINT_COMPRESSED.to_bytes().iter());
        let m = drop_and_look(elgamal::Keypair::from_bytes(&v).unwrap());
        left(c, "elgamal::Keypair", &xs[..1], m);
        let m = drop_and_look(RosterEntryCommitment { commitment: CommittedPhoneNumber(com(RISTRETTO_BASEPOINT_POINT)), opening: xs[0].into() });
        left(c, "RosterEntryCommitment", &xs[..1], m);
        let u = aeonflux::user::User::new(sp, amacs::PublicKey { Xn: vec![] }, Some(elgamal::Keypair::from_bytes(&v).unwrap()));
        let m = drop_and_look(u);
        left(c, "User", &xs[..1], m);
    });
}

pub fn c22(h: &mut H) {
    let mut seen = std::collections::HashSet::new();
    h.each("hunt", 80, 8000, 0.6, |c| {
        // what the generator gives first: points which must not be taken, and bytes which are no points
        let mut b = vec![];
        let k = c.n(6);
        for _ in 0..k {
            match c.r.below(4) {
                0 => b.extend_from_slice(RISTRETTO_BASEPOINT_COMPRESSED.as_bytes()),
                1 => b.extend_from_slice(&[0u8; 32]),
                2 => b.extend_from_slice(&[255u8; 32]),
                _ => {
                    let mut v = c.b(32);
                    v[0] |= 1; // never a point
                    b.extend(v)
                }
            }
        }
        // and then a point
        let good = if c.r.one_in(2) { Some(RistrettoPoint::random(&mut c.r)) } else { None };
        if let Some(g) = good {
            b.extend_from_slice(g.compress().as_bytes());
        }
        c.note(format!("generator starts with {}", hex(&b)));
        let mut s = Script(b, c.r.clone());
        let sp = match c.run("hunt_and_peck", || SystemParameters::hunt_and_peck(&mut s)) {
            Some(x) => x,
            None => return,
        };
        c.ck(sp.g == RISTRETTO_BASEPOINT_POINT, || "g is not the basepoint".into());
        c.ck(sp.h != RistrettoPoint::identity(), || "h is the identity".into());
        c.ck(sp.h != RISTRETTO_BASEPOINT_POINT, || "h is the basepoint".into());
        c.ck(CompressedRistretto(sp.h.compress().to_bytes()).decompress() == Some(sp.h), || "h is no point of the group".into());
        for n in 2..9u64 {
            c.ck(sp.h != Scalar::from(n) * sp.g && sp.h != -(Scalar::from(n) * sp.g) && sp.h != -sp.g, || "h is a known multiple of g".into());
        }
        if good.is_none() {
            c.ck(seen.insert(sp.h.compress().to_bytes()), || "h is repeated".into());
        }
    });
    h.each("from", 60, 6000, 1.0, |c| {
        let h = c.p();
        c.note(format!("h {}", hp(&h)));
        if h != RISTRETTO_BASEPOINT_POINT {
            let a: SystemParameters = h.into();
            let b: SystemParameters = h.compress().to_bytes().into();
            c.ck(a.g == RISTRETTO_BASEPOINT_POINT && b.g == RISTRETTO_BASEPOINT_POINT, || "g is not the basepoint".into());
            c.ck(a.h == h && b.h == h, || "h is another".into());
        } else {
            c.ck(quiet(|| SystemParameters::from(h)).is_err(), || "the basepoint was taken for h".into());
            c.ck(quiet(|| SystemParameters::from(h.compress().to_bytes())).is_err(), || "the basepoint was taken for h".into());
        }
    });
}
pub fn c23(h: &mut H) {
    let mut seen = std::collections::HashSet::new();
    h.each("keys", 80, 8000, 1.0, |c| {
        let n = c.n(7);
        let hh = c.p();
        let k = key(c, n);
        c.note(format!("key {} h {}", hex(&k.to_bytes()), hp(&hh)));
        let p = k.get_public_key(&hh);
        c.ck(p.Xn.len() == n && (0..n).all(|i| p.Xn[i] == k.xn[i] * hh), || "the public key is not xi * h".into());
        c.ck(p.len() == n && k.len() == n + 1, || "a key's length is another".into());
        let mut log = Log::new(&mut c.r);
        let k2 = amacs::SecretKey::new(n, &mut log);
        let parts: Vec<Scalar> = std::iter::once(k2.x0).chain(k2.xn.iter().cloned()).collect();
        c.ck(log.drawn(&parts), || format!("a part of a new key is not a draw of its own: {}", hex(&k2.to_bytes())));
        c.ck(k2.xn.len() == n, || "a new key has another number of parts".into());
        for s in k2.xn.iter().chain(std::iter::once(&k2.x0)) {
            c.ck(*s != Scalar::zero() && seen.insert(s.to_bytes()), || "part of a new key is zero or repeated".into());
        }
        let mut log = c.log(n + 1);
        let k2 = amacs::SecretKey::new(n, &mut log);
        let parts: Vec<Scalar> = std::iter::once(k2.x0).chain(k2.xn.iter().cloned()).collect();
        c.ck(log.drawn(&parts), || format!("a part of a new key is not a draw of its own: {}", hex(&k2.to_bytes())));
        let mut log = c.log(2);
        let kp = amacs::Keypair::new(&hh, &mut log);
        c.ck(kp.secret.xn.len() == 1 && log.drawn(&[kp.secret.x0, kp.secret.xn[0]]), || "a part of a new keypair is not a draw of its own".into());
        c.ck(kp.secret.xn.len() == 1 && kp.public.Xn == vec![kp.secret.xn[0] * hh], || "a new keypair does not fit".into());
        let mut log = Log::new(&mut c.r);
        let kp = amacs::Keypair::new(&hh, &mut log);
        c.ck(kp.secret.xn.len() == 1 && log.drawn(&[kp.secret.x0, kp.secret.xn[0]]), || "a part of a new keypair is not a draw of its own".into());
        c.ck(kp.secret.xn.len() == 1 && kp.public.Xn == vec![kp.secret.xn[0] * hh], || "a new keypair does not fit".into());
        c.ck(kp.len() == 3, || "a keypair's length is another".into());
        for s in kp.secret.xn.iter().chain(std::iter::once(&kp.secret.x0)) {
            c.ck(*s != Scalar::zero() && seen.insert(s.to_bytes()), || "part of a new key is zero or repeated".into());
        }
        let (sp, _) = params(c);
        let mut log = Log::new(&mut c.r);
        let is = Issuer::create(sp, &mut log);
        c.ck(is.keypair.secret.xn.len() == 1 && log.drawn(&[is.keypair.secret.x0, is.keypair.secret.xn[0]]), || "a part of a new issuer's key is not a draw of its own".into());
        c.ck(is.system_parameters == sp && is.keypair.secret.xn.len() == 1 && is.keypair.public.Xn == vec![is.keypair.secret.xn[0] * sp.h], || "a new issuer's key does not fit its parameters".into());
        c.ck(is.get_issuer_parameters() == is.keypair.public, || "the issuer parameters are not the public key".into());
        c.ck(seen.insert(is.keypair.secret.x0.to_bytes()) && seen.insert(is.keypair.secret.xn[0].to_bytes()), || "part of a new key is repeated".into());
        let mut log = Log::new(&mut c.r);
        let si = SignalIssuer::create(sp, &mut log);
        c.ck(si.issuer.keypair.secret.xn.len() == 1 && log.drawn(&[si.issuer.keypair.secret.x0, si.issuer.keypair.secret.xn[0]]), || "a part of a new Signal issuer's key is not a draw of its own".into());
        c.ck(si.issuer.system_parameters == sp && si.issuer.keypair.secret.xn.len() == 1 && si.issuer.keypair.public.Xn == vec![si.issuer.keypair.secret.xn[0] * sp.h], || "a new Signal issuer's key does not fit its parameters".into());
        c.ck(si.get_issuer_parameters() == si.issuer.keypair.public, || "the Signal issuer parameters are not the public key".into());
        c.ck(seen.insert(si.issuer.keypair.secret.x0.to_bytes()) && seen.insert(si.issuer.keypair.secret.xn[0].to_bytes()), || "part of a new key is repeated".into());
        let kp = amacs::Keypair { public: p.clone(), secret: k.clone() };
        let b = kp.to_bytes();
        let is = Issuer::new(sp, kp.clone());
        c.ck(is.system_parameters == sp && is.keypair.to_bytes() == b && is.get_issuer_parameters() == p, || "an issuer from a key has another".into());
        let si = SignalIssuer::new(sp, kp);
        c.ck(si.issuer.system_parameters == sp && si.issuer.keypair.to_bytes() == b && si.get_issuer_parameters() == p, || "a Signal issuer from a key has another".into());
        if n == 0 {
            return;
        }
        match Issuer::from_bytes(&is.to_bytes()) {
            Ok(x) => {
                c.ck(x.system_parameters == sp && x.keypair.public == p && x.keypair.secret.x0 == k.x0 && x.keypair.secret.xn == k.xn, || "a restored issuer has another key".into());
            }
            Err(e) => {
                c.ck(false, || format!("an issuer does not restore: {:?}", e));
            }
        }
    });
}
