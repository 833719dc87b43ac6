//! Bytes, phone numbers, rosters; and calls which may not panic.
use crate::protocol::*;
use crate::util::*;
use crate::zk::*;
use aeonflux::amacs;
use aeonflux::credential::*;
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen;
use aeonflux::user::User;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;

/// A coded type. The format, for a number of bytes: P a point, S a scalar, W a scalar behind its length (8 bytes), K a
/// keypair or zeroes (64 bytes), C a credential or zeroes (96 bytes).
pub struct Ty {
    pub name: &'static str,
    pub fmt: fn(usize) -> Option<String>,
    pub again: fn(&[u8]) -> Option<Vec<u8>>,
}
fn fixed(f: &str, n: usize) -> Option<String> {
    let size: usize = f.chars().map(unit).sum();
    if size == n { Some(f.to_string()) } else { None }
}
fn unit(c: char) -> usize {
    match c {
        'P' | 'S' => 32,
        'W' => 40,
        'K' => 64,
        _ => 96,
    }
}
fn rep(c: char, n: usize) -> Option<String> {
    if n % 32 == 0 { Some((0..n / 32).map(|_| c).collect()) } else { None }
}
fn f_mkp(n: usize) -> Option<String> {
    if n < 32 || (n - 32) % 64 != 0 {
        return None;
    }
    let k = (n - 32) / 64;
    Some(format!("{}{}", "P".repeat(k), "S".repeat(k + 1)))
}
fn f_issuer(n: usize) -> Option<String> {
    if n < 160 { return None; }
    f_mkp(n - 64).map(|x| format!("PP{}", x))
}
macro_rules! ty {
    ($name:expr, $t:ty, $f:expr) => {
        Ty { name: $name, fmt: $f, again: |b| <$t>::from_bytes(b).ok().map(|x| x.to_bytes()) }
    };
}
pub fn types() -> Vec<Ty> {
    vec![
        ty!("amacs::Tag", amacs::Tag, |n| fixed("PP", n)),
        ty!("amacs::PublicKey", amacs::PublicKey, |n| rep('P', n)),
        ty!("amacs::SecretKey", amacs::SecretKey, |n| if n < 32 { None } else { rep('S', n) }),
        ty!("amacs::Keypair", amacs::Keypair, f_mkp),
        ty!("pedersen::Commitment", pedersen::Commitment, |n| fixed("P", n)),
        ty!("elgamal::PublicKey", elgamal::PublicKey, |n| fixed("P", n)),
        ty!("elgamal::SecretKey", elgamal::SecretKey, |n| fixed("S", n)),
        ty!("elgamal::Keypair", elgamal::Keypair, |n| fixed("SP", n)),
        ty!("SystemParameters", SystemParameters, |n| fixed("PP", n)),
        ty!("Credential", Credential, |n| fixed("PPS", n)),
        ty!("CredentialRequest", CredentialRequest, |n| rep('S', n)),
        ty!("CredentialIssuance", CredentialIssuance, |n| fixed("PPPSWWWWW", n)),
        ty!("CredentialPresentation", CredentialPresentation, |n| fixed("PPPWWWW", n)),
        ty!("VerifiedCredential", VerifiedCredential, |n| fixed("PPPWWWW", n)),
        ty!("Issuer", Issuer, f_issuer),
        ty!("User", User, |n| fixed("PPPKC", n)),
        ty!("PhoneNumber", PhoneNumber, |n| fixed("S", n)),
        ty!("CommittedPhoneNumber", CommittedPhoneNumber, |n| fixed("P", n)),
        ty!("RosterEntryCommitment", RosterEntryCommitment, |n| fixed("PS", n)),
        ty!("SignalCredentialPresentation", SignalCredentialPresentation, |n| fixed("PPPPWWWWWWWW", n)),
        ty!("VerifiedSignalCredential", VerifiedSignalCredential, |n| fixed("PPPPWWWWWWWW", n)),
        ty!("SignalIssuer", SignalIssuer, f_issuer),
        ty!("SignalUser", SignalUser, |n| fixed("SPPPKC", n)),
    ]
}
fn is_p(b: &[u8]) -> bool {
    let mut t = [0u8; 32];
    t.copy_from_slice(b);
    CompressedRistretto(t).decompress().is_some()
}
fn is_s(b: &[u8]) -> bool {
    let mut t = [0u8; 32];
    t.copy_from_slice(b);
    Scalar::from_canonical_bytes(t).is_some()
}
pub fn valid(f: &str, b: &[u8]) -> bool {
    let mut at = 0;
    for c in f.chars() {
        let x = &b[at..at + unit(c)];
        at += unit(c);
        let ok = match c {
            'P' => is_p(x),
            'S' => is_s(x),
            'W' => x[..8] == 32u64.to_le_bytes() && is_s(&x[8..]),
            'K' => x.iter().all(|y| *y == 0) || valid("SP", x),
            _ => x.iter().all(|y| *y == 0) || valid("PPS", x),
        };
        if !ok {
            return false;
        }
    }
    at == b.len()
}
pub fn fill(c: &mut Case, f: &str) -> Vec<u8> {
    let mut v = vec![];
    for u in f.chars() {
        match u {
            'P' => v.extend_from_slice(c.p().compress().as_bytes()),
            'S' => v.extend_from_slice(c.s().as_bytes()),
            'W' => {
                v.extend_from_slice(&32u64.to_le_bytes());
                v.extend_from_slice(c.s().as_bytes());
            }
            'K' => {
                if c.r.one_in(2) {
                    v.extend(vec![0u8; 64]);
                } else {
                    let x = fill(c, "SP");
                    v.extend(x);
                }
            }
            _ => {
                if c.r.one_in(2) {
                    v.extend(vec![0u8; 96]);
                } else {
                    let x = fill(c, "PPS");
                    v.extend(x);
                }
            }
        }
    }
    v
}
/// A length this type may have.
pub fn length(c: &mut Case, t: &Ty) -> usize {
    if c.r.one_in(60) {
        // many parts
        let all: Vec<usize> = (3936..4320).chain(8064..8416).filter(|n| n % 32 == 0 && (t.fmt)(*n).is_some()).collect();
        if !all.is_empty() {
            return *c.r.pick(&all);
        }
    }
    let all: Vec<usize> = (0..600).filter(|n| (t.fmt)(*n).is_some()).collect();
    *c.r.pick(&all)
}
/// The group order, little endian.
const ELL: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
fn add_ell(b: &mut [u8]) {
    let mut k = 0u16;
    for i in 0..32 {
        k += b[i] as u16 + ELL[i] as u16;
        b[i] = k as u8;
        k >>= 8;
    }
}
/// Changes valid bytes a little; or not.
pub fn spoil(c: &mut Case, f: &str, v: &mut Vec<u8>) {
    let mut at = vec![];
    let mut i = 0;
    for u in f.chars() {
        match u {
            'K' => {
                at.push(('S', i));
                at.push(('P', i + 32));
            }
            'C' => {
                at.push(('P', i));
                at.push(('P', i + 32));
                at.push(('S', i + 64));
            }
            _ => at.push((u, i)),
        }
        i += unit(u);
    }
    for _ in 0..c.r.below(3) {
        if at.is_empty() || v.is_empty() {
            break;
        }
        let (u, i) = *c.r.pick(&at);
        let j = if u == 'W' { i + 8 } else { i };
        match c.r.below(9) {
            0 => add_ell(&mut v[j..j + 32]),
            1 => v[j + 31] |= 0x80,
            2 => v[j + 31] ^= 1 << c.r.below(8),
            3 => v[j] ^= 1,
            4 => {
                for x in v[j..j + 32].iter_mut() {
                    *x = 255;
                }
            }
            5 => {
                let k = c.int();
                let o = i + c.r.below(8);
                v[o] = k as u8;
            }
            6 if u == 'W' => {
                let k = *c.r.pick(&[0u64, 31, 33, 64, 1 << 32, 32 | 1 << 40, u64::max_value()]);
                v[i..i + 8].copy_from_slice(&k.to_le_bytes());
            }
            7 => {
                for x in v[j..j + 32].iter_mut() {
                    *x = 0;
                }
            }
            _ => {
                let o = c.r.below(v.len());
                v[o] ^= 1 << c.r.below(8);
            }
        }
    }
    match c.r.below(8) {
        0 => {
            let k = 1 + c.r.below(40);
            let x = c.b(k);
            v.extend(x)
        }
        1 => {
            let k = c.r.below(v.len() + 1);
            v.truncate(k)
        }
        2 => {
            v.pop();
        }
        3 => v.push(0),
        _ => {}
    }
}

/// What is encoded, as the format says it, for a value of each type.
fn values(c: &mut Case) -> Vec<(&'static str, Vec<u8>, Vec<u8>, Option<Vec<u8>>, bool)> {
    let mut out = vec![];
    macro_rules! put {
        ($t:ty, $name:expr, $x:expr, $want:expr, $eq:expr) => {{
            let x: $t = $x;
            let b = x.to_bytes();
            let y = <$t>::from_bytes(&b);
            let eq: fn(&$t, &$t) -> bool = $eq;
            let same = match &y { Ok(y) => eq(&x, y), Err(_) => false };
            out.push(($name, b, $want, y.ok().map(|y| y.to_bytes()), same));
        }};
    }
    fn cat(v: &[&[u8]]) -> Vec<u8> {
        v.concat()
    }
    let (p, q, r, w) = (c.p(), c.p(), c.p(), c.p());
    let (s, t, u) = (c.s(), c.s(), c.s());
    let b = |p: &RistrettoPoint| p.compress().to_bytes().to_vec();
    let (pb, qb, rb, wb) = (b(&p), b(&q), b(&r), b(&w));
    let (sb, tb, ub) = (s.to_bytes().to_vec(), t.to_bytes().to_vec(), u.to_bytes().to_vec());
    put!(amacs::Tag, "Tag", amacs::Tag { nonce: p, mac: q }, cat(&[&pb, &qb]), |x, y| x == y);
    let n = c.n(5);
    let ps: Vec<RistrettoPoint> = (0..n).map(|_| c.p()).collect();
    let ss: Vec<Scalar> = (0..n).map(|_| c.s()).collect();
    let psb: Vec<u8> = ps.iter().flat_map(|x| b(x)).collect();
    let ssb: Vec<u8> = ss.iter().flat_map(|x| x.to_bytes().to_vec()).collect();
    put!(amacs::PublicKey, "amacs::PublicKey", amacs::PublicKey { Xn: ps.clone() }, psb.clone(), |x, y| x == y);
    put!(amacs::SecretKey, "amacs::SecretKey", amacs::SecretKey { x0: s, xn: ss.clone() }, cat(&[&sb, &ssb]), |x, y| x.x0 == y.x0 && x.xn == y.xn);
    let kp = amacs::Keypair { public: amacs::PublicKey { Xn: ps.clone() }, secret: amacs::SecretKey { x0: s, xn: ss.clone() } };
    let kpb = cat(&[&psb, &sb, &ssb]);
    put!(amacs::Keypair, "amacs::Keypair", kp.clone(), kpb.clone(), |x, y| x.public == y.public && x.secret.x0 == y.secret.x0 && x.secret.xn == y.secret.xn);
    put!(pedersen::Commitment, "pedersen::Commitment", pedersen::Commitment::to(&p, &s.into(), &q), b(&(p + s * q)), |x, y| x == y);
    let sp = SystemParameters { g: p, h: q };
    put!(SystemParameters, "SystemParameters", sp, cat(&[&pb, &qb]), |x, y| x == y);
    let cr = Credential { mac: amacs::Tag { nonce: p, mac: q }, attributes: vec![s] };
    let crb = cat(&[&pb, &qb, &sb]);
    put!(Credential, "Credential", cr.clone(), crb.clone(), |x, y| x == y);
    put!(CredentialRequest, "CredentialRequest", CredentialRequest { attributes_revealed: ss.clone() }, ssb.clone(), |x, y| x.attributes_revealed == y.attributes_revealed);
    let pf4 = wire(&Pf { c: c.s(), r: (0..4).map(|_| c.s()).collect() });
    let pf3 = wire(&Pf { c: c.s(), r: (0..3).map(|_| c.s()).collect() });
    let pe3 = wire(&Pf { c: c.s(), r: (0..3).map(|_| c.s()).collect() });
    put!(CredentialIssuance, "CredentialIssuance", CredentialIssuance { secret_key_commitment: com(r), credential: cr.clone(), proof: bincode::deserialize(&pf4).unwrap() }, cat(&[&rb, &crb, &pf4]), |x, y| x == y);
    let pr = CredentialPresentation { rerandomized_mac_commitment: com(p), rerandomized_nonce: q, attributes_revealed: vec![], attributes_blinded: vec![com(r)], proof: bincode::deserialize(&pf3).unwrap() };
    let prb = cat(&[&pb, &qb, &rb, &pf3]);
    put!(CredentialPresentation, "CredentialPresentation", pr.clone(), prb.clone(), |x, y| x == y);
    put!(VerifiedCredential, "VerifiedCredential", VerifiedCredential(pr.clone()), prb.clone(), |x, y| x == y);
    if n >= 1 {
        put!(Issuer, "Issuer", Issuer::new(sp, kp.clone()), cat(&[&pb, &qb, &kpb]), |x, y| x.system_parameters == y.system_parameters && x.keypair.public == y.keypair.public && x.keypair.secret.x0 == y.keypair.secret.x0 && x.keypair.secret.xn == y.keypair.secret.xn);
        put!(SignalIssuer, "SignalIssuer", SignalIssuer::new(sp, kp.clone()), cat(&[&pb, &qb, &kpb]), |x, y| x.issuer.system_parameters == y.issuer.system_parameters && x.issuer.keypair.public == y.issuer.keypair.public && x.issuer.keypair.secret.x0 == y.issuer.keypair.secret.x0 && x.issuer.keypair.secret.xn == y.issuer.keypair.secret.xn);
    }
    // a key or a credential that is all zeroes stands for none
    let kb = cat(&[&tb, &wb]);
    let key = if c.r.one_in(2) && kb != vec![0u8; 64] { elgamal::Keypair::from_bytes(&kb).ok() } else { None };
    let keyb = if key.is_some() { kb.clone() } else { vec![0u8; 64] };
    let cred = if c.r.one_in(2) && crb != vec![0u8; 96] { Some(cr.clone()) } else { None };
    let credb = if cred.is_some() { crb.clone() } else { vec![0u8; 96] };
    let mk = |key: &Option<elgamal::Keypair>, cred: &Option<Credential>| User { system_parameters: sp, issuer_parameters: amacs::PublicKey { Xn: vec![w] }, key: key.clone(), credential: cred.clone() };
    let ub_ = cat(&[&pb, &qb, &wb, &keyb, &credb]);
    put!(User, "User", mk(&key, &cred), ub_.clone(), |x, y| x == y);
    put!(SignalUser, "SignalUser", SignalUser { phone_number: PhoneNumber(u), user: mk(&key, &cred) }, cat(&[&ub, &ub_]), |x, y| x.phone_number == y.phone_number && x.user == y.user);
    if let Ok(k) = elgamal::Keypair::from_bytes(&kb) {
        put!(elgamal::PublicKey, "elgamal::PublicKey", k.public, wb.clone(), |x, y| x == y);
        put!(elgamal::SecretKey, "elgamal::SecretKey", k.secret.clone(), tb.clone(), |x, y| x == y);
        put!(elgamal::Keypair, "elgamal::Keypair", k, kb.clone(), |x, y| x == y);
    }
    put!(PhoneNumber, "PhoneNumber", PhoneNumber(u), ub.clone(), |x, y| x == y);
    put!(CommittedPhoneNumber, "CommittedPhoneNumber", CommittedPhoneNumber(com(w)), wb.clone(), |x, y| x == y);
    put!(RosterEntryCommitment, "RosterEntryCommitment", RosterEntryCommitment { commitment: CommittedPhoneNumber(com(w)), opening: t.into() }, cat(&[&wb, &tb]), |x, y| x.commitment == y.commitment && x.opening.to_bytes() == y.opening.to_bytes());
    let sc = SignalCredentialPresentation { roster_entry_commitment: CommittedPhoneNumber(com(w)), presentation: pr, roster_membership_proof: bincode::deserialize(&pe3).unwrap() };
    let scb = cat(&[&wb, &prb, &pe3]);
    put!(SignalCredentialPresentation, "SignalCredentialPresentation", sc, scb.clone(), |x, y| x == y);
    out
}

pub fn c16(h: &mut H) {
    h.each("values", 80, 8000, 0.4, |c| {
        for (name, b, want, again, same) in values(c) {
            c.note(format!("{} {}", name, hex(&want)));
            c.ck(b == want, || format!("{} is encoded as {} instead of {}", name, hex(&b), hex(&want)));
            c.ck(again.is_some(), || format!("{} {} does not decode", name, hex(&b)));
            c.ck(again.as_ref() == Some(&b) && same, || format!("{} {} decodes to another value", name, hex(&b)));
        }
    });
    h.each("real", 10, 500, 0.4, |c| {
        // values as the protocol makes them
        let (sp, _) = params(c);
        let is = SignalIssuer::create(sp, &mut c.r);
        let d = c.phone();
        let key = if c.r.one_in(2) { Some(elgamal::Keypair::generate(&mut c.r)) } else { None };
        let mut u = match SignalUser::new(sp, is.get_issuer_parameters(), key, &d) { Ok(u) => u, Err(_) => return };
        c.note(format!("number {:?} parameters {}", d, hex(&sp.to_bytes())));
        c.ck(SignalUser::from_bytes(&u.to_bytes()).ok().map_or(false, |x| x.phone_number == u.phone_number && x.user == u.user), || "a new user does not come back".into());
        let i = match is.issue(&d, &mut c.r) { Ok(i) => i, Err(_) => return };
        c.ck(CredentialIssuance::from_bytes(&i.to_bytes()).ok().as_ref() == Some(&i), || format!("an issuance does not come back: {}", hex(&i.to_bytes())));
        if u.obtain_finish(Some(&i)).is_err() { return; }
        c.ck(SignalUser::from_bytes(&u.to_bytes()).ok().map_or(false, |x| x.phone_number == u.phone_number && x.user == u.user), || "a user does not come back".into());
        let e = match RosterEntryCommitment::create(&d, &sp, &mut c.r) { Ok(e) => e, Err(_) => return };
        c.ck(RosterEntryCommitment::from_bytes(&e.to_bytes()).ok().map_or(false, |x| x.commitment == e.commitment && x.opening.to_bytes() == e.opening.to_bytes()), || "a roster entry does not come back".into());
        let p = match u.show(&mut c.r, &e) { Ok(p) => p, Err(_) => return };
        c.ck(SignalCredentialPresentation::from_bytes(&p.to_bytes()).ok().as_ref() == Some(&p), || format!("a presentation does not come back: {}", hex(&p.to_bytes())));
        if let Ok(v) = is.verify(p) {
            c.ck(VerifiedSignalCredential::from_bytes(&v.to_bytes()).ok().as_ref() == Some(&v), || "a verified credential does not come back".into());
        }
        c.ck(SignalIssuer::from_bytes(&is.to_bytes()).ok().map_or(false, |x| x.to_bytes() == is.to_bytes()), || "an issuer does not come back".into());
    });
    h.each("bytes", 120, 12000, 1.0, |c| {
        for t in types() {
            let n = length(c, &t);
            let f = (t.fmt)(n).unwrap();
            let b = fill(c, &f);
            c.note(format!("{} {}", t.name, hex(&b)));
            if let Some(r) = c.run(t.name, || (t.again)(&b)) {
                c.ck(r.as_ref() == Some(&b), || format!("{} {} gives {:?}", t.name, hex(&b), r.map(|x| hex(&x))));
            }
        }
    });
}
fn decoders(c: &mut Case, exact: bool) {
    for t in types() {
        let b = if c.r.one_in(5) {
            let n = match c.r.below(3) {
                0 => c.r.below(600),
                1 => length(c, &t),
                _ => (c.int() % 700) as usize,
            };
            c.b(n)
        } else {
            let n = length(c, &t);
            let f = (t.fmt)(n).unwrap();
            let mut v = fill(c, &f);
            spoil(c, &f, &mut v);
            v
        };
        let want = (t.fmt)(b.len()).map_or(false, |f| valid(&f, &b));
        c.note(format!("{}:{}", t.name, if b.len() < 80 { hex(&b) } else { b.len().to_string() }));
        let r = match c.run(&format!("{}::from_bytes({})", t.name, hex(&b)), || (t.again)(&b)) {
            Some(r) => r,
            None => continue,
        };
        if exact {
            c.ck(r.is_some() == want, || format!("{} {}: accepted {}, should be {}", t.name, hex(&b), r.is_some(), want));
            if let Some(x) = r {
                c.ck(x == b, || format!("{} {} is accepted, but its encoding is {}", t.name, hex(&b), hex(&x)));
            }
        }
    }
}
pub fn c17(h: &mut H) {
    h.each("decode", 250, 20000, 1.0, |c| decoders(c, true));
}
pub fn c18(h: &mut H) {
    h.each("lengths", 600, 600, 0.5, |c| {
        let n = c.it as usize;
        for t in types() {
            for b in vec![vec![0u8; n], vec![255u8; n], c.b(n)] {
                c.run(&format!("{}::from_bytes of {} bytes {}", t.name, n, hex(&b)), || (t.again)(&b));
            }
        }
        c.note(format!("{} bytes", n));
    });
    h.each("decode", 200, 20000, 1.0, |c| decoders(c, false));
    h.each("long", 1, 1, 1.0, |c| {
        // more parts than 16 bits count
        for t in types() {
            for k in [65534usize, 65535, 65536, 131073].iter() {
                if (t.fmt)(32 * k).is_some() {
                    c.run(&format!("{}::from_bytes of {} zeroes", t.name, 32 * k), || (t.again)(&vec![0u8; 32 * k]));
                }
            }
        }
    });
    h.each("proofs", 50, 2000, 1.0, |c| {
        for st in ALL.iter() {
            let n = c.r.below(300);
            let b = c.b(n);
            let p: Vec<RistrettoPoint> = (0..st.publics.len()).map(|_| c.p()).collect();
            c.run(&format!("{} proof of {}", st.name, hex(&b)), || real_verify(st, &mut merlin::Transcript::new(b"x"), &p, &b));
        }
    });
}
pub fn c29(h: &mut H) {
    h.each("sizes", 60, 4000, 1.0, |c| {
        for (name, b, want, _, _) in values(c) {
            c.ck(b.len() == want.len(), || format!("{} takes {} bytes instead of {}", name, b.len(), want.len()));
        }
        let (sp, _) = params(c);
        let is = SignalIssuer::create(sp, &mut c.r);
        let d = c.phone();
        c.note(format!("number {:?}", d));
        c.ck(sp.to_bytes().len() == 64, || "parameters are not 64 bytes".into());
        c.ck(is.to_bytes().len() == 160, || "an issuer is not 160 bytes".into());
        c.ck(is.get_issuer_parameters().to_bytes().len() == 32, || "issuer parameters are not 32 bytes".into());
        let mut u = match SignalUser::new(sp, is.get_issuer_parameters(), None, &d) { Ok(u) => u, Err(_) => return };
        c.ck(u.to_bytes().len() == 288, || "a user is not 288 bytes".into());
        let i = match is.issue(&d, &mut c.r) { Ok(i) => i, Err(_) => return };
        c.ck(i.to_bytes().len() == 328 && i.credential.to_bytes().len() == 96 && i.credential.mac.to_bytes().len() == 64, || format!("an issuance is {} bytes", i.to_bytes().len()));
        if u.obtain_finish(Some(&i)).is_err() { return; }
        c.ck(u.to_bytes().len() == 288, || "a user with a credential is not 288 bytes".into());
        let e = match RosterEntryCommitment::create(&d, &sp, &mut c.r) { Ok(e) => e, Err(_) => return };
        c.ck(e.to_bytes().len() == 64, || "a roster entry is not 64 bytes".into());
        let p = match u.show(&mut c.r, &e) { Ok(p) => p, Err(_) => return };
        c.ck(p.to_bytes().len() == 448 && p.presentation.to_bytes().len() == 256, || format!("a presentation is {} bytes", p.to_bytes().len()));
        c.ck(aeonflux::credential::SIZEOF_CREDENTIAL == 96 && SIZEOF_PHONE_NUMBER == 32 && amacs::SIZEOF_TAG == 64, || "a size that is published is another".into());
        c.ck(aeonflux::credential::SIZEOF_CREDENTIAL_PRESENTATION == 256 && aeonflux::pedersen::SIZEOF_COMMITMENT == 32 && aeonflux::parameters::SIZEOF_SYSTEM_PARAMETERS == 64, || "a size that is published is another".into());
        c.ck(aeonflux::credential::SIZEOF_CREDENTIAL_ISSUANCE == 328 && signal_credential::credential::SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION == 448 && SIZEOF_ENCRYPTED_PHONE_NUMBER == 64 && MAX_PHONE_NUMBER_LENGTH == 26 && elgamal::SIZEOF_ENCRYPTION == 64, || "a size that is published is another".into());
        c.ck(elgamal::SIZEOF_PUBLIC_KEY == 32 && elgamal::SIZEOF_SECRET_KEY == 32 && elgamal::SIZEOF_KEYPAIR == 64 && SIZEOF_COMMITTED_PHONE_NUMBER == 32, || "a size that is published is another".into());
        let n = c.n(9);
        let m = c.n(9);
        let k = amacs::SecretKey::new(n, &mut c.r);
        let q = amacs::SecretKey::new(m, &mut c.r).get_public_key(&sp.h);
        c.note(format!("keys of {} and {}", n, m));
        c.ck(k.len() == n + 1, || format!("a secret key of {} parts says it has {}", n + 1, k.len()));
        c.ck(k.to_bytes().len() == 32 * (n + 1), || format!("a secret key of {} parts takes {} bytes", n + 1, k.to_bytes().len()));
        c.ck(q.len() == m, || format!("a public key of {} parts says it has {}", m, q.len()));
        c.ck(q.to_bytes().len() == 32 * m, || format!("a public key of {} parts takes {} bytes", m, q.to_bytes().len()));
        let p = amacs::Keypair { public: q, secret: k };
        c.ck(p.len() == n + 1 + m, || format!("a keypair of {} and {} parts says it has {}", m, n + 1, p.len()));
        c.ck(p.to_bytes().len() == 32 * (n + 1 + m), || format!("a keypair of {} and {} parts takes {} bytes", m, n + 1, p.to_bytes().len()));
    });
}

pub fn c19(h: &mut H) {
    h.each("lengths", 60, 60, 0.3, |c| {
        let n = c.it as usize;
        for _ in 0..10 {
            let d: Vec<u8> = (0..n).map(|_| c.r.below(10) as u8).collect();
            numbers(c, d);
        }
    });
    h.each("numbers", 200, 200000, 0.6, |c| {
        let mut d = c.phone();
        if c.r.one_in(6) {
            let n = c.r.below(60);
            d = c.b(n);
        }
        numbers(c, d);
    });
    h.each("pairs", 200, 200000, 0.7, |c| {
        let a = c.phone();
        // one with what is no digit in it, often
        let a = if c.r.one_in(4) { let mut a = a; if !a.is_empty() { let i = c.r.below(a.len()); a[i] = 10 + c.r.below(246) as u8; } a } else { a };
        let b = if c.r.one_in(4) { c.phone() } else { c.near(&a) };
        c.note(format!("{:?} {:?}", a, b));
        if let (Ok(x), Ok(y)) = (PhoneNumber::try_from_bytes(&a), PhoneNumber::try_from_bytes(&b)) {
            c.ck((x == y) == (a == b), || format!("{:?} and {:?}: the same number {}", a, b, x == y));
        }
    });
    h.each("text", 200, 100000, 1.0, |c| {
        // arbitrary text, and arbitrary scalars
        let n = c.r.below(30);
        let digits = c.r.one_in(2);
        let mut s = String::new();
        for _ in 0..n {
            s.push(if digits { (48 + c.r.below(10)) as u8 as char } else { *c.r.pick(&['0', '9', '+', ' ', 'x', '\u{e9}', '5', ':', '/']) });
        }
        for _ in 0..c.r.below(4) {
            s.push((32 + c.r.below(95)) as u8 as char);
        }
        c.note(format!("{:?}", s));
        let b = s.as_bytes();
        let want = if b.len() > 26 { None } else { Some(phone_scalar(&b.iter().map(|x| if *x >= 48 && *x <= 57 { x - 48 } else { 15 }).collect::<Vec<u8>>())) };
        if let Some(r) = c.run("try_from_string", || PhoneNumber::try_from_string(&s)) {
            c.ck(r.as_ref().ok().map(|x| x.0) == want, || format!("{:?} gives {:?}", s, r));
        }
        let x = c.s();
        c.run(&format!("String::from({})", hs(&x)), || String::from(PhoneNumber(x)));
        let p = PhoneNumber(x);
        for i in 0..32 {
            c.ck(p[i] == x.as_bytes()[i], || "a byte of a phone number is another".into());
        }
    });
}
fn numbers(c: &mut Case, d: Vec<u8>) {
    c.note(format!("{:?}", d));
    let want = if d.len() > 26 { None } else { Some(phone_scalar(&d)) };
    if let Some(r) = c.run("try_from_bytes", || PhoneNumber::try_from_bytes(&d)) {
        c.ck(r.as_ref().ok().map(|x| x.0) == want, || format!("{:?} gives {:?}", d, r));
        if let Ok(x) = r {
            let mut b = [0u8; 32];
            b[0] = 15;
            b[1] = 15;
            b[2..2 + d.len()].copy_from_slice(&d);
            b[2 + d.len()] = 15;
            b[3 + d.len()] = 15;
            b[4 + d.len()] = d.len() as u8;
            c.ck(x.to_bytes() == b.to_vec(), || format!("{:?} is encoded as {}", d, hex(&x.to_bytes())));
            let text: String = d.iter().filter(|x| **x < 10).map(|x| (48 + *x) as char).collect();
            let back = String::from(x.clone());
            c.ck(back == text, || format!("{:?} reads as {:?}", d, back));
        }
    }
    if d.iter().all(|x| *x < 10) {
        let s: String = d.iter().map(|x| (48 + *x) as char).collect();
        if let Some(r) = c.run("try_from_string", || PhoneNumber::try_from_string(&s)) {
            c.ck(r.as_ref().ok().map(|x| x.0) == want, || format!("{:?} gives {:?}", s, r));
            if let Ok(x) = r {
                let t = String::from(x);
                c.ck(t == s, || format!("{:?} comes back as {:?}", s, t));
            }
        }
    }
}
pub fn c20(h: &mut H) {
    let mut seen = std::collections::HashSet::new();
    h.each("entries", 120, 10000, 1.0, |c| {
        let (sp, _) = params(c);
        let a = c.phone();
        let b = if c.r.one_in(2) { c.near(&a) } else { c.phone() };
        c.note(format!("{:?} {:?} parameters {}", a, b, hex(&sp.to_bytes())));
        let e = match RosterEntryCommitment::create(&a, &sp, &mut c.r) {
            Ok(e) => e,
            Err(e) => {
                c.ck(false, || format!("no entry: {:?}", e));
                return;
            }
        };
        let mut log = c.log(1);
        if let Ok(f) = RosterEntryCommitment::create(&a, &sp, &mut log) {
            let o = eph(&f.opening);
            c.ck(log.drawn(&[o]), || "the opening is not drawn".into());
            c.ck(comp(&f.commitment.0) == phone_scalar(&a) * sp.h + o * sp.g && f.open(&a, &sp).is_ok(), || "the entry is not number * h + opening * g".into());
        }
        let o = eph(&e.opening);
        c.ck(comp(&e.commitment.0) == phone_scalar(&a) * sp.h + o * sp.g, || "the entry is not number * h + opening * g".into());
        c.ck(o != Scalar::zero() && seen.insert(o.to_bytes()), || "the opening is zero or repeated".into());
        c.ck(e.open(&a, &sp).is_ok(), || "the entry does not open to its number".into());
        c.ck(e.open(&b, &sp).is_ok() == (phone_scalar(&a) == phone_scalar(&b)), || "the entry opens to another number".into());
        let long = { let k = 27 + c.r.below(20); c.b(k) };
        let made = RosterEntryCommitment::create(&long, &sp, &mut c.r);
        c.ck(made.is_err() && e.open(&long, &sp).is_err(), || "a number too long was taken".into());
        match RosterEntryCommitment::from_bytes(&e.to_bytes()) {
            Ok(f) => {
                c.ck(f.open(&a, &sp).is_ok() && f.commitment == e.commitment && f.open(&b, &sp).is_ok() == (a == b), || "an entry that was sent opens differently".into());
            }
            Err(_) => {
                c.ck(false, || "an entry does not decode".into());
            }
        }
        // arbitrary entries
        let (q, z) = (c.p(), c.s());
        let f = RosterEntryCommitment { commitment: CommittedPhoneNumber(com(q)), opening: z.into() };
        let want = q == phone_scalar(&a) * sp.h + z * sp.g;
        c.ck(f.open(&a, &sp).is_ok() == want, || "an arbitrary entry opens wrongly".into());
        let f = RosterEntryCommitment { commitment: CommittedPhoneNumber(com(phone_scalar(&a) * sp.h + z * sp.g)), opening: z.into() };
        c.ck(f.open(&a, &sp).is_ok(), || "an entry does not open".into());
        let f = RosterEntryCommitment { commitment: CommittedPhoneNumber(com(phone_scalar(&a) * sp.h + z * sp.g)), opening: (z + Scalar::one()).into() };
        c.ck(f.open(&a, &sp).is_err(), || "an entry opens with another opening".into());
        let f = CommittedPhoneNumber::from_phone_number(&PhoneNumber(phone_scalar(&a)), &Ephemeral::from(o), &sp.g, &sp.h);
        c.ck(f == e.commitment, || "the commitment made again is another".into());
    });
}

fn odd_key(c: &mut Case, sp: &SystemParameters) -> amacs::Keypair {
    let (n, k) = (c.n(4), c.n(4));
    let n = if c.r.one_in(2) { 1 } else { n };
    let k = if c.r.one_in(2) { 1 } else { k };
    let secret = amacs::SecretKey { x0: c.s(), xn: (0..n).map(|_| c.s()).collect() };
    let public = if c.r.one_in(2) { secret.get_public_key(&sp.h) } else { amacs::PublicKey { Xn: (0..k).map(|_| c.p()).collect() } };
    amacs::Keypair { public, secret }
}
fn any_proof<T: serde::de::DeserializeOwned>(c: &mut Case, n: usize) -> T {
    let pf = Pf { c: c.s(), r: (0..n).map(|_| c.s()).collect() };
    bincode::deserialize(&wire(&pf)).unwrap()
}
pub fn c24(h: &mut H) {
    h.each("operations", 250, 20000, 1.0, |c| {
        let sp = SystemParameters { g: c.p(), h: c.p() };
        let kp = odd_key(c, &sp);
        let is = Issuer::new(sp, kp.clone());
        let si = SignalIssuer::new(sp, kp.clone());
        let up = if c.r.one_in(2) { kp.public.clone() } else { odd_key(c, &sp).public };
        let n = c.n(4);
        let attrs: Vec<Scalar> = (0..n).map(|_| c.s()).collect();
        let len = c.r.below(60);
        let number = if c.r.one_in(3) { c.b(len) } else { c.phone() };
        c.note(format!("key {} attributes {} number {:?}", hex(&kp.to_bytes()), n, number));
        let mut r = c.r.clone();
        let iss = c.run("Issuer::issue", || is.issue(&CredentialRequest { attributes_revealed: attrs.clone() }, &mut r));
        c.run("SignalIssuer::issue", || si.issue(&number, &mut r).is_ok());
        let mut u = User::new(sp, up.clone(), None);
        let made = CredentialIssuance { secret_key_commitment: com(c.p()), credential: Credential { mac: amacs::Tag { nonce: c.p(), mac: c.p() }, attributes: attrs.clone() }, proof: any_proof(c, 4) };
        c.run("User::obtain_finish", || u.obtain_finish(Some(&made)).is_ok());
        c.run("User::obtain_finish", || u.obtain_finish(None).is_ok());
        if let Some(Ok(i)) = iss {
            c.run("User::obtain_finish", || u.obtain_finish(Some(&i)).is_ok());
        }
        if let Some(Ok(mut su)) = c.run("SignalUser::new", || SignalUser::new(sp, up.clone(), None, &number)) {
            c.run("SignalUser::obtain_finish", || su.obtain_finish(Some(&made)).is_ok());
            c.run("SignalUser::obtain_finish", || su.obtain_finish(None).is_ok());
            if c.r.one_in(2) {
                su.user.credential = Some(made.credential.clone());
            }
            let e = RosterEntryCommitment { commitment: CommittedPhoneNumber(com(c.p())), opening: c.s().into() };
            let mut r = c.r.clone();
            if let Some(Ok(p)) = c.run("SignalUser::show", || su.show(&mut r, &e)) {
                if let Some(Ok(v)) = c.run("SignalIssuer::verify", || si.verify(p)) {
                    c.run("SignalIssuer::verify_roster_membership", || si.verify_roster_membership(&v).is_ok());
                }
            }
        }
        if c.r.one_in(2) {
            u.credential = Some(made.credential.clone());
        }
        let k = c.n(4);
        let nonces = Nonces::new(&mut c.r, k);
        let mut r = c.r.clone();
        if let Some(Ok(p)) = c.run(&format!("User::show with {} nonces", k), || u.show(&nonces, &mut r)) {
            c.run("Issuer::verify", || is.verify(&p).is_ok());
        }
        let (a, b) = (c.n(3), c.n(3));
        let p = CredentialPresentation {
            rerandomized_mac_commitment: com(c.p()), rerandomized_nonce: c.p(),
            attributes_revealed: (0..a).map(|_| c.s()).collect(), attributes_blinded: (0..b).map(|_| com(c.p())).collect(), proof: any_proof(c, 3),
        };
        c.run(&format!("Issuer::verify of {} revealed and {} blinded", a, b), || is.verify(&p).is_ok());
        c.run("CredentialPresentation::to_bytes", || p.to_bytes());
        let sc = SignalCredentialPresentation { roster_entry_commitment: CommittedPhoneNumber(com(c.p())), presentation: p, roster_membership_proof: any_proof(c, 3) };
        let sb = sc.to_bytes();
        c.run("SignalIssuer::verify", || si.verify(sc).is_ok());
        if let Ok(v) = VerifiedSignalCredential::from_bytes(&sb) {
            c.run("SignalIssuer::verify_roster_membership", || si.verify_roster_membership(&v).is_ok());
        }
        let m: Vec<Scalar> = (0..c.n(4)).map(|_| c.s()).collect();
        let t = amacs::Tag { nonce: c.p(), mac: c.p() };
        let mut r = c.r.clone();
        c.run("SecretKey::mac", || kp.secret.mac(&amacs::Message(m.clone()), &mut r).is_ok());
        c.run("SecretKey::verify", || kp.secret.verify(&t, &amacs::Message(m.clone())).is_ok());
        c.run("RosterEntryCommitment::create", || RosterEntryCommitment::create(&number, &sp, &mut r).is_ok());
        let x = c.s();
        c.run("String::from", || String::from(PhoneNumber(x)));
        c.run("User::to_bytes", || u.to_bytes());
        c.run("Issuer::to_bytes", || is.to_bytes());
    });
}
