//! The five statements, and a prover and a verifier for them written from the statements alone.
use crate::util::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;

/// `lhs = sum of base * secret`, by index into the public and the secret values.
pub struct St {
    pub name: &'static str,
    pub secrets: &'static [&'static str],
    pub publics: &'static [&'static str],
    pub eqs: &'static [(usize, &'static [(usize, usize)])],
}

pub static ISSUANCE: St = St {
    name: "issuance_revealed",
    secrets: &["x0", "x1", "x0_tilde", "m1x1"],
    publics: &["P", "Q", "Cx0", "B", "A", "X1"],
    eqs: &[(1, &[(0, 0), (0, 3)]), (2, &[(3, 0), (4, 2)]), (5, &[(4, 1)])],
};
pub static ATTRIBUTES: St = St {
    name: "attributes_blinded",
    secrets: &["d", "e0", "m0", "nonce"],
    publics: &["B", "A", "D", "encrypted_attribute_0_0", "encrypted_attribute_0_1"],
    eqs: &[(2, &[(0, 0)]), (3, &[(0, 1)]), (4, &[(0, 2), (2, 1)])],
};
pub static BLINDED: St = St {
    name: "issuance_blinded",
    secrets: &["x0_tilde", "x0", "x1", "s", "b", "t0"],
    publics: &["B", "A", "X0", "X1", "D", "P", "T0_0", "T0_1", "EQ_commitment", "EQ_encryption", "encrypted_attribute_0_0", "encrypted_attribute_0_1"],
    eqs: &[
        (2, &[(0, 1), (1, 0)]),
        (3, &[(1, 2)]),
        (5, &[(0, 4)]),
        (6, &[(2, 4)]),
        (7, &[(1, 5)]),
        (8, &[(0, 3), (10, 5)]),
        (9, &[(4, 3), (11, 5)]),
    ],
};
pub static VALID: St = St {
    name: "valid_credential",
    secrets: &["m0", "z0", "minus_zQ"],
    publics: &["B", "A", "X0", "P", "V", "Cm0"],
    eqs: &[(5, &[(3, 0), (1, 1)]), (4, &[(2, 1), (1, 2)])],
};
pub static EQUAL: St = St {
    name: "committed_values_equal",
    secrets: &["m0", "z0", "z1"],
    publics: &["B", "A", "P", "Cm0", "Cm1"],
    eqs: &[(3, &[(2, 0), (1, 1)]), (4, &[(1, 0), (0, 2)])],
};
pub static ALL: [&'static St; 5] = [&ISSUANCE, &ATTRIBUTES, &BLINDED, &VALID, &EQUAL];

/// A proof as numbers: the challenge, and an answer for each secret.
#[derive(Clone, Debug, PartialEq)]
pub struct Pf {
    pub c: Scalar,
    pub r: Vec<Scalar>,
}
pub fn wire(p: &Pf) -> Vec<u8> {
    let mut v = Vec::new();
    for s in std::iter::once(&p.c).chain(p.r.iter()) {
        v.extend_from_slice(&32u64.to_le_bytes());
        v.extend_from_slice(s.as_bytes());
    }
    v
}
pub fn unwire(b: &[u8]) -> Option<Pf> {
    if b.len() % 40 != 0 || b.is_empty() {
        return None;
    }
    let mut v = Vec::new();
    for x in b.chunks(40) {
        if x[..8] != 32u64.to_le_bytes() {
            return None;
        }
        let mut t = [0u8; 32];
        t.copy_from_slice(&x[8..]);
        v.push(Scalar::from_canonical_bytes(t)?);
    }
    Some(Pf { c: v[0], r: v[1..].to_vec() })
}

fn leak(s: &str) -> &'static [u8] {
    Box::leak(s.to_string().into_boxed_str()).as_bytes()
}
fn sum(st: &St, k: usize, p: &[RistrettoPoint], s: &[Scalar]) -> RistrettoPoint {
    let mut t = RistrettoPoint::identity();
    for &(b, i) in st.eqs[k].1 {
        t += s[i] * p[b];
    }
    t
}
pub fn holds(st: &St, p: &[RistrettoPoint], s: &[Scalar]) -> bool {
    (0..st.eqs.len()).all(|k| sum(st, k, p, s) == p[st.eqs[k].0])
}
/// The challenge for these public values and commitments.
pub fn challenge(st: &St, t: &mut Transcript, p: &[RistrettoPoint], coms: &[RistrettoPoint]) -> Scalar {
    t.commit_bytes(b"domain-sep", st.name.as_bytes());
    for (i, n) in st.publics.iter().enumerate() {
        t.commit_bytes(n.as_bytes(), p[i].compress().as_bytes());
    }
    for (k, c) in coms.iter().enumerate() {
        let l = format!("com {}", st.publics[st.eqs[k].0]);
        t.commit_bytes(leak(&l), c.compress().as_bytes());
    }
    let mut b = [0u8; 64];
    t.challenge_bytes(b"chal", &mut b);
    Scalar::from_bytes_mod_order_wide(&b)
}
pub fn accepts(st: &St, t: &mut Transcript, p: &[RistrettoPoint], pf: &Pf) -> bool {
    let coms: Vec<RistrettoPoint> = (0..st.eqs.len()).map(|k| sum(st, k, p, &pf.r) - pf.c * p[st.eqs[k].0]).collect();
    challenge(st, t, p, &coms) == pf.c
}
pub fn prove(st: &St, t: &mut Transcript, p: &[RistrettoPoint], s: &[Scalar], k: &[Scalar]) -> Pf {
    let coms: Vec<RistrettoPoint> = (0..st.eqs.len()).map(|i| sum(st, i, p, k)).collect();
    let c = challenge(st, t, p, &coms);
    Pf { c, r: (0..s.len()).map(|i| c * s[i] + k[i]).collect() }
}
/// Secret values, and public values for which the statement holds for them.
pub fn instance(st: &St, c: &mut Case) -> (Vec<RistrettoPoint>, Vec<Scalar>) {
    let s: Vec<Scalar> = (0..st.secrets.len()).map(|_| c.s()).collect();
    let mut p: Vec<RistrettoPoint> = (0..st.publics.len()).map(|_| c.p()).collect();
    for k in 0..st.eqs.len() {
        p[st.eqs[k].0] = sum(st, k, &p, &s);
    }
    (p, s)
}

macro_rules! real {
    ($st:expr, $p:expr, $m:ident, [$($pn:ident : $pi:expr),*], $f:expr) => { {
        use aeonflux::proofs::$m;
        let publics = $m::Publics { $($pn: &$p[$pi]),* };
        $f(publics)
    } };
}
/// The proof of the real code, as bytes.
pub fn real_create(st: &St, t: &mut Transcript, p: &[RistrettoPoint], s: &[Scalar]) -> Vec<u8> {
    use aeonflux::proofs::*;
    match st.name {
        "issuance_revealed" => real!(st, p, issuance_revealed, [P: 0, Q: 1, Cx0: 2, B: 3, A: 4, X1: 5], |q| bincode::serialize(&issuance_revealed::Proof::create(t, q, issuance_revealed::Secrets { x0: &s[0], x1: &s[1], x0_tilde: &s[2], m1x1: &s[3] }))).unwrap(),
        "attributes_blinded" => real!(st, p, attributes_blinded, [B: 0, A: 1, D: 2, encrypted_attribute_0_0: 3, encrypted_attribute_0_1: 4], |q| bincode::serialize(&attributes_blinded::Proof::create(t, q, attributes_blinded::Secrets { d: &s[0], e0: &s[1], m0: &s[2], nonce: &s[3] }))).unwrap(),
        "issuance_blinded" => real!(st, p, issuance_blinded, [B: 0, A: 1, X0: 2, X1: 3, D: 4, P: 5, T0_0: 6, T0_1: 7, EQ_commitment: 8, EQ_encryption: 9, encrypted_attribute_0_0: 10, encrypted_attribute_0_1: 11], |q| bincode::serialize(&issuance_blinded::Proof::create(t, q, issuance_blinded::Secrets { x0_tilde: &s[0], x0: &s[1], x1: &s[2], s: &s[3], b: &s[4], t0: &s[5] }))).unwrap(),
        "valid_credential" => real!(st, p, valid_credential, [B: 0, A: 1, X0: 2, P: 3, V: 4, Cm0: 5], |q| bincode::serialize(&valid_credential::Proof::create(t, q, valid_credential::Secrets { m0: &s[0], z0: &s[1], minus_zQ: &s[2] }))).unwrap(),
        _ => real!(st, p, committed_values_equal, [B: 0, A: 1, P: 2, Cm0: 3, Cm1: 4], |q| bincode::serialize(&committed_values_equal::Proof::create(t, q, committed_values_equal::Secrets { m0: &s[0], z0: &s[1], z1: &s[2] }))).unwrap(),
    }
}
pub fn real_verify(st: &St, t: &mut Transcript, p: &[RistrettoPoint], b: &[u8]) -> Option<bool> {
    use aeonflux::proofs::*;
    Some(match st.name {
        "issuance_revealed" => { let f: issuance_revealed::Proof = bincode::deserialize(b).ok()?; real!(st, p, issuance_revealed, [P: 0, Q: 1, Cx0: 2, B: 3, A: 4, X1: 5], |q| f.verify(t, q)).is_ok() }
        "attributes_blinded" => { let f: attributes_blinded::Proof = bincode::deserialize(b).ok()?; real!(st, p, attributes_blinded, [B: 0, A: 1, D: 2, encrypted_attribute_0_0: 3, encrypted_attribute_0_1: 4], |q| f.verify(t, q)).is_ok() }
        "issuance_blinded" => { let f: issuance_blinded::Proof = bincode::deserialize(b).ok()?; real!(st, p, issuance_blinded, [B: 0, A: 1, X0: 2, X1: 3, D: 4, P: 5, T0_0: 6, T0_1: 7, EQ_commitment: 8, EQ_encryption: 9, encrypted_attribute_0_0: 10, encrypted_attribute_0_1: 11], |q| f.verify(t, q)).is_ok() }
        "valid_credential" => { let f: valid_credential::Proof = bincode::deserialize(b).ok()?; real!(st, p, valid_credential, [B: 0, A: 1, X0: 2, P: 3, V: 4, Cm0: 5], |q| f.verify(t, q)).is_ok() }
        _ => { let f: committed_values_equal::Proof = bincode::deserialize(b).ok()?; real!(st, p, committed_values_equal, [B: 0, A: 1, P: 2, Cm0: 3, Cm1: 4], |q| f.verify(t, q)).is_ok() }
    })
}
pub fn show(st: &St, p: &[RistrettoPoint], s: &[Scalar]) -> String {
    let mut o = format!("{}:", st.name);
    for (i, n) in st.publics.iter().enumerate() {
        o.push_str(&format!(" {}={}", n, hp(&p[i])));
    }
    for (i, n) in st.secrets.iter().enumerate() {
        if i < s.len() {
            o.push_str(&format!(" {}={}", n, hs(&s[i])));
        }
    }
    o
}
