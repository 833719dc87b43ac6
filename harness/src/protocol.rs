//! Issuing, showing and rosters.
use crate::util::*;
use crate::zk::*;
use aeonflux::amacs;
use aeonflux::credential::*;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen;
use aeonflux::user::User;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;

pub fn pt(b: &[u8]) -> RistrettoPoint {
    curve25519_dalek::ristretto::CompressedRistretto::from_slice(b).decompress().unwrap()
}
pub fn com(p: RistrettoPoint) -> pedersen::Commitment {
    pedersen::Commitment::from_bytes(p.compress().as_bytes()).unwrap()
}
pub fn comp(c: &pedersen::Commitment) -> RistrettoPoint {
    pt(&c.to_bytes())
}
pub fn eph(e: &Ephemeral) -> Scalar {
    let mut b = [0u8; 32];
    b.copy_from_slice(&e.to_bytes());
    Scalar::from_bits(b)
}
pub fn ser<T: serde::Serialize>(x: &T) -> Vec<u8> {
    bincode::serialize(x).unwrap()
}
/// Two basepoints; sometimes the second is a known multiple of the first, or the first is not the standard one.
pub fn params(c: &mut Case) -> (SystemParameters, Option<Scalar>) {
    if c.r.one_in(2) {
        let a = c.nz();
        let g = if c.r.one_in(4) { c.r.scalar() * RISTRETTO_BASEPOINT_POINT } else { RISTRETTO_BASEPOINT_POINT };
        if a == Scalar::one() {
            return (SystemParameters { g, h: Scalar::from(9u64) * g }, Some(Scalar::from(9u64)));
        }
        (SystemParameters { g, h: a * g }, Some(a))
    } else {
        (SystemParameters { g: RISTRETTO_BASEPOINT_POINT, h: RistrettoPoint::random(&mut c.r) }, None)
    }
}
/// An issuer; sometimes with a key worth trying.
pub fn issuer(c: &mut Case, sp: SystemParameters) -> Issuer {
    if c.r.one_in(2) {
        Issuer::create(sp, &mut c.r)
    } else {
        let (x0, x1) = (c.s(), c.nz());
        let keypair = amacs::Keypair { public: amacs::PublicKey { Xn: vec![x1 * sp.h] }, secret: amacs::SecretKey { x0, xn: vec![x1] } };
        Issuer::new(sp, keypair)
    }
}
pub fn mac_exp(k: &amacs::SecretKey, m: &[Scalar]) -> Scalar {
    let mut e = k.x0;
    for i in 0..m.len() {
        e += k.xn[i] * m[i];
    }
    e
}
/// Whether a user with these parameters should accept this issuance.
pub fn issuance_ok(sp: &SystemParameters, x1: Option<&RistrettoPoint>, i: &CredentialIssuance) -> bool {
    let x1 = match x1 {
        Some(x) => *x,
        None => return false,
    };
    if i.credential.attributes.len() != 1 {
        return false;
    }
    let p = [i.credential.mac.nonce, i.credential.mac.mac, comp(&i.secret_key_commitment), sp.g, sp.h, x1];
    match unwire(&ser(&i.proof)) {
        Some(pf) => accepts(&ISSUANCE, &mut Transcript::new(b"AEONFLUX ISSUANCE"), &p, &pf),
        None => false,
    }
}
pub fn v_of(is: &Issuer, p: &CredentialPresentation) -> RistrettoPoint {
    is.keypair.secret.x0 * p.rerandomized_nonce + is.keypair.secret.xn[0] * comp(&p.attributes_blinded[0]) - comp(&p.rerandomized_mac_commitment)
}
pub fn presentation_ok(is: &Issuer, p: &CredentialPresentation) -> bool {
    if p.rerandomized_nonce == RistrettoPoint::identity() || !p.attributes_revealed.is_empty() || p.attributes_blinded.len() != 1 {
        return false;
    }
    if is.keypair.public.Xn.len() != 1 || is.keypair.secret.xn.len() != 1 {
        return false;
    }
    let q = [is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0], p.rerandomized_nonce, v_of(is, p), comp(&p.attributes_blinded[0])];
    match unwire(&ser(&p.proof)) {
        Some(pf) => accepts(&VALID, &mut Transcript::new(b"AEONFLUX SHOW"), &q, &pf),
        None => false,
    }
}
pub fn roster_publics(sp: &SystemParameters, p: &SignalCredentialPresentation) -> Vec<RistrettoPoint> {
    vec![sp.g, sp.h, p.presentation.rerandomized_nonce, comp(&p.presentation.attributes_blinded[0]), comp(&p.roster_entry_commitment.0)]
}
pub fn roster_ok(sp: &SystemParameters, p: &SignalCredentialPresentation) -> bool {
    match unwire(&ser(&p.roster_membership_proof)) {
        Some(pf) => accepts(&EQUAL, &mut Transcript::new(b"SIGNAL GROUP MEMBERSHIP"), &roster_publics(sp, p), &pf),
        None => false,
    }
}
pub fn phone_scalar(d: &[u8]) -> Scalar {
    let mut b = [0u8; 32];
    let n = d.len();
    b[0] = 15;
    b[1] = 15;
    b[2..2 + n].copy_from_slice(d);
    b[2 + n] = 15;
    b[3 + n] = 15;
    b[4 + n] = n as u8;
    Scalar::from_bytes_mod_order(b)
}
pub fn is_bytes(i: &CredentialIssuance) -> String {
    hex(&i.to_bytes())
}
/// A user who holds a credential for this attribute.
pub fn holder(c: &mut Case, is: &Issuer, m: Scalar) -> Option<User> {
    let mut u = User::new(is.system_parameters, is.get_issuer_parameters(), None);
    let q = u.obtain(vec![m]);
    let i = is.issue(&q, &mut c.r).ok()?;
    u.obtain_finish(Some(&i)).ok()?;
    Some(u)
}

pub fn c05(h: &mut H) {
    h.each("issue", 40, 4000, 0.5, |c| {
        let (sp, _) = params(c);
        let is = issuer(c, sp);
        let m = c.s();
        c.note(format!("attribute {} parameters {} key {}", hs(&m), hex(&sp.to_bytes()), hex(&is.keypair.to_bytes())));
        let key = if c.r.one_in(3) { Some(aeonflux::elgamal::Keypair::generate(&mut c.r)) } else { None };
        let mut u = User::new(sp, is.get_issuer_parameters(), key);
        let q = u.obtain(vec![m]);
        c.ck(q.attributes_revealed == vec![m], || "the request does not ask for the attribute".into());
        let i = match is.issue(&q, &mut c.r) {
            Ok(i) => i,
            Err(e) => {
                c.ck(false, || format!("the issuer refused: {:?}", e));
                return;
            }
        };
        c.ck(i.credential.attributes == vec![m], || "the credential is for another attribute".into());
        c.ck(i.credential.mac.mac == mac_exp(&is.keypair.secret, &[m]) * i.credential.mac.nonce, || "the MAC is not the one of the attribute".into());
        c.ck(i.credential.mac.nonce != RistrettoPoint::identity(), || "the nonce is the identity".into());
        c.ck(issuance_ok(&sp, is.keypair.public.Xn.get(0), &i), || format!("the proof of the issuance does not verify: {}", is_bytes(&i)));
        let r = u.obtain_finish(Some(&i));
        c.ck(r.is_ok(), || format!("the user refused: {:?} {}", r, is_bytes(&i)));
        c.ck(u.credential.as_ref() == Some(&i.credential), || "the user did not keep the credential".into());
        // the same over the wire
        let mut w = User::new(sp, is.get_issuer_parameters(), None);
        match CredentialIssuance::from_bytes(&i.to_bytes()) {
            Ok(j) => {
                let r = w.obtain_finish(Some(&j));
                c.ck(r.is_ok(), || format!("the user refused what came over the wire: {:?} {}", r, is_bytes(&i)));
                c.ck(w.credential.as_ref() == Some(&i.credential), || "the credential over the wire is another".into());
            }
            Err(e) => {
                c.ck(false, || format!("the issuance does not decode: {:?} {}", e, is_bytes(&i)));
            }
        }
    });
    h.each("signal", 54, 4000, 1.0, |c| {
        let d = if c.it < 27 { (0..c.it).map(|_| c.r.below(10) as u8).collect() } else { c.phone() };
        let (sp, _) = params(c);
        let is = SignalIssuer { issuer: issuer(c, sp) };
        c.note(format!("number {:?} parameters {} key {}", d, hex(&sp.to_bytes()), hex(&is.issuer.keypair.to_bytes())));
        let i = match is.issue(&d, &mut c.r) {
            Ok(i) => i,
            Err(e) => {
                c.ck(false, || format!("the issuer refused: {:?}", e));
                return;
            }
        };
        c.ck(i.credential.attributes == vec![phone_scalar(&d)], || "the credential is for another number".into());
        c.ck(i.credential.mac.mac == mac_exp(&is.issuer.keypair.secret, &[phone_scalar(&d)]) * i.credential.mac.nonce, || "the MAC is not the one of the number".into());
        match SignalUser::new(sp, is.get_issuer_parameters(), None, &d) {
            Ok(mut u) => {
                let r = u.obtain_finish(Some(&i));
                c.ck(r.is_ok(), || format!("the user refused: {:?} {}", r, is_bytes(&i)));
                c.ck(u.user.credential.as_ref() == Some(&i.credential), || "the user did not keep the credential".into());
            }
            Err(e) => {
                c.ck(false, || format!("no user for this number: {:?}", e));
            }
        }
    });
}

/// A number of which few kinds are common: so that sums of multiples coincide with one another.
fn sparse(c: &mut Case) -> Scalar {
    match c.r.below(8) {
        0 | 1 | 2 => Scalar::zero(),
        3 => Scalar::one(),
        4 => -Scalar::one(),
        _ => c.s(),
    }
}
/// One of these, or of the opposites of these, or another point.
fn among(c: &mut Case, v: &[RistrettoPoint]) -> RistrettoPoint {
    match c.r.below(6) {
        0 => RistrettoPoint::identity(),
        1 => c.p(),
        2 => -*c.r.pick(v),
        _ => *c.r.pick(v),
    }
}
/// A proof made in full for these public values, or numbers of which few kinds are common.
fn attempt(c: &mut Case, st: &St, label: &'static [u8], q: &[RistrettoPoint], s: &[Scalar]) -> Pf {
    if c.r.one_in(6) {
        return Pf { c: sparse(c), r: (0..s.len()).map(|_| sparse(c)).collect() };
    }
    let k: Vec<Scalar> = (0..s.len()).map(|_| if c.r.one_in(12) { sparse(c) } else { c.r.scalar() }).collect();
    prove(st, &mut Transcript::new(label), q, s, &k)
}

/// Issuances of which some are as they were made and others changed in one place.
fn tampered(c: &mut Case, is: &Issuer, m: Scalar) -> (CredentialIssuance, String, bool) {
    let q = CredentialRequest { attributes_revealed: vec![m] };
    let mut i = is.issue(&q, &mut c.r).unwrap();
    let kind = c.r.below(24);
    let mut text = "unchanged".to_string();
    let mut pf = unwire(&ser(&i.proof)).unwrap();
    let mut set = false;
    match kind {
        0 => {}
        1 => {
            i.credential.mac.mac = c.p();
            text = "mac".into();
        }
        2 => {
            i.credential.mac.nonce = c.p();
            text = "nonce".into();
        }
        3 => {
            i.secret_key_commitment = com(c.p());
            text = "commitment to the key".into();
        }
        4 => {
            pf.c = c.s();
            set = true;
            text = "challenge".into();
        }
        5 | 6 => {
            let k = c.r.below(4);
            pf.r[k] = if c.r.one_in(2) { c.s() } else { pf.r[k] + Scalar::one() };
            set = true;
            text = format!("answer {}", k);
        }
        7 => {
            let j = is.issue(&q, &mut c.r).unwrap();
            i.proof = j.proof;
            text = "proof of another issuance".into();
        }
        8 => {
            let j = is.issue(&q, &mut c.r).unwrap();
            i.credential.mac = j.credential.mac;
            text = "MAC of another issuance".into();
        }
        9 => {
            i.credential.mac.nonce = RistrettoPoint::identity();
            i.credential.mac.mac = RistrettoPoint::identity();
            text = "identities".into();
        }
        10 => {
            let k = c.r.below(4);
            for x in pf.r.iter_mut() {
                *x = Scalar::zero();
            }
            pf.r[k] = c.s();
            pf.c = Scalar::zero();
            set = true;
            text = "zeroes".into();
        }
        11 => {
            // by another issuer, with the same parameters
            let o = issuer(c, is.system_parameters);
            i = o.issue(&q, &mut c.r).unwrap();
            text = "by another issuer".into();
        }
        12 => {
            let s = c.s();
            i.credential.mac.nonce = s * i.credential.mac.nonce;
            i.credential.mac.mac = s * i.credential.mac.mac;
            text = "MAC rerandomised".into();
        }
        13 => {
            i.credential.attributes = vec![];
            text = "no attributes".into();
        }
        14 => {
            i.credential.attributes.push(c.s());
            text = "two attributes".into();
        }
        16..=20 => {
            // by someone who chose the secrets: true of the issuer's key, or of another one
            let (b, a, x) = (is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0]);
            let mut s = vec![sparse(c), is.keypair.secret.xn[0], sparse(c), sparse(c)];
            if kind >= 19 {
                s[1] = sparse(c);
            }
            let n = i.credential.mac.nonce;
            let p = among(c, &[b, a, x, n]);
            let q = (s[0] + s[3]) * p;
            let cx = s[0] * b + s[2] * a;
            i.credential.mac.nonce = p;
            i.credential.mac.mac = if c.r.one_in(8) { among(c, &[b, a, x, p, q]) } else { q };
            i.secret_key_commitment = com(if c.r.one_in(8) { among(c, &[b, a, x, p, q, cx]) } else { cx });
            let x = if c.r.one_in(3) { x } else { s[1] * a };
            pf = attempt(c, &ISSUANCE, b"AEONFLUX ISSUANCE", &[p, q, cx, b, a, x], &s);
            set = true;
            text = "from chosen secrets".into();
        }
        21 | 22 => {
            // values that coincide
            let (b, a, x) = (is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0]);
            let v = [b, a, x, i.credential.mac.nonce, i.credential.mac.mac, comp(&i.secret_key_commitment)];
            i.credential.mac.nonce = among(c, &v);
            i.credential.mac.mac = among(c, &v);
            i.secret_key_commitment = com(among(c, &v));
            let p = [i.credential.mac.nonce, i.credential.mac.mac, comp(&i.secret_key_commitment), b, a, x];
            let s: Vec<Scalar> = (0..4).map(|_| sparse(c)).collect();
            pf = attempt(c, &ISSUANCE, b"AEONFLUX ISSUANCE", &p, &s);
            set = true;
            text = "values that coincide".into();
        }
        _ => {
            // a proof for a wrong MAC, made without the key from the answers backwards
            let p = [i.credential.mac.nonce, i.credential.mac.mac, comp(&i.secret_key_commitment), is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0]];
            let s: Vec<Scalar> = (0..4).map(|_| c.s()).collect();
            let k: Vec<Scalar> = (0..4).map(|_| c.s()).collect();
            pf = prove(&ISSUANCE, &mut Transcript::new(b"AEONFLUX ISSUANCE"), &p, &s, &k);
            set = true;
            text = "proof from wrong secrets".into();
        }
    }
    if set {
        i.proof = bincode::deserialize(&wire(&pf)).unwrap();
    }
    (i, text, kind == 0)
}

/// Some parts of another issuance instead.
fn with_parts(c: &mut Case, i: &mut CredentialIssuance, j: &CredentialIssuance) {
    if c.r.one_in(2) {
        i.credential.mac.nonce = j.credential.mac.nonce;
    }
    if c.r.one_in(2) {
        i.credential.mac.mac = j.credential.mac.mac;
    }
    if c.r.one_in(2) {
        i.credential.attributes = j.credential.attributes.clone();
    }
    if c.r.one_in(2) {
        i.secret_key_commitment = j.secret_key_commitment;
    }
    if c.r.one_in(2) {
        i.proof = bincode::deserialize(&ser(&j.proof)).unwrap();
    }
}
pub fn c06(h: &mut H) {
    h.each("finish", 120, 6000, 0.6, |c| {
        let (sp, _) = params(c);
        let is = issuer(c, sp);
        let (m0, m) = (c.s(), c.s());
        let key = if c.r.one_in(2) { Some(aeonflux::elgamal::Keypair::generate(&mut c.r)) } else { None };
        let mut u = User::new(sp, is.get_issuer_parameters(), key);
        let mut held = None;
        if c.r.one_in(2) {
            let i = is.issue(&CredentialRequest { attributes_revealed: vec![m0] }, &mut c.r).unwrap();
            u.obtain_finish(Some(&i)).unwrap();
            held = Some(i);
        }
        if c.r.one_in(6) {
            u.issuer_parameters = amacs::PublicKey { Xn: vec![] };
        }
        if c.r.one_in(8) {
            u.issuer_parameters.Xn.push(c.p());
        }
        let (mut i, mut text, _) = tampered(c, &is, m);
        if let (Some(j), true) = (&held, c.r.one_in(2)) {
            with_parts(c, &mut i, j);
            text.push_str(", parts of the one held");
        }
        let want = issuance_ok(&sp, u.issuer_parameters.Xn.get(0), &i);
        c.note(format!("{} parameters {} key {} issuance {}", text, hex(&sp.to_bytes()), hex(&is.keypair.to_bytes()), is_bytes(&i)));
        let (b_cred, b_key, b_iss, b_sp) = (u.credential.clone(), u.key.clone(), u.issuer_parameters.clone(), u.system_parameters);
        let none = c.r.one_in(10);
        let want = want && !none;
        let r = match c.run("obtain_finish", || u.obtain_finish(if none { None } else { Some(&i) })) {
            Some(r) => r,
            None => return,
        };
        c.ck(r.is_ok() == want, || format!("accepted: {}, should be: {}", r.is_ok(), want));
        let want_cred = if r.is_ok() { Some(i.credential.clone()) } else { b_cred };
        c.ck(u.credential == want_cred, || "the credential kept is another".into());
        c.ck(u.key == b_key && u.issuer_parameters == b_iss && u.system_parameters == b_sp, || "the user's other values changed".into());
    });
    h.each("signal", 120, 6000, 1.0, |c| {
        let (sp, _) = params(c);
        let is = issuer(c, sp);
        let d = c.phone();
        let d = if c.r.one_in(4) { let mut d = d; if !d.is_empty() { let i = c.r.below(d.len()); d[i] = 10 + c.r.below(246) as u8; } d } else { d };
        let e = match c.r.below(4) { 0 => c.phone(), 1 => c.near(&d), _ => d.clone() };
        let mut u = SignalUser::new(sp, is.get_issuer_parameters(), None, &d).unwrap();
        c.ck(u.phone_number.0 == phone_scalar(&d), || "the user has another number".into());
        c.ck(u.user.credential.is_none() && u.user.system_parameters == sp && u.user.issuer_parameters == is.keypair.public, || "a new user is not as it should be".into());
        let mut held = None;
        if c.r.one_in(2) {
            let i = is.issue(&CredentialRequest { attributes_revealed: vec![phone_scalar(&d)] }, &mut c.r).unwrap();
            u.obtain_finish(Some(&i)).unwrap();
            held = Some(i);
        }
        let m = if c.r.one_in(5) { c.beside(&phone_scalar(&d)) } else { phone_scalar(&e) };
        let (mut i, mut text, _) = tampered(c, &is, m);
        if let (Some(j), true) = (&held, c.r.one_in(3)) {
            with_parts(c, &mut i, j);
            text.push_str(", parts of the one held");
        }
        if c.r.one_in(6) && i.credential.attributes.len() == 1 {
            i.credential.attributes[0] = c.s();
        }
        let want = issuance_ok(&sp, u.user.issuer_parameters.Xn.get(0), &i) && i.credential.attributes[0] == phone_scalar(&d);
        c.note(format!("{} number {:?} parameters {} key {} issuance {}", text, d, hex(&sp.to_bytes()), hex(&is.keypair.to_bytes()), is_bytes(&i)));
        let before = u.user.credential.clone();
        let r = match c.run("obtain_finish", || u.obtain_finish(Some(&i))) {
            Some(r) => r,
            None => return,
        };
        c.ck(r.is_ok() == want, || format!("accepted: {}, should be: {}", r.is_ok(), want));
        let want_cred = if r.is_ok() { Some(i.credential.clone()) } else { before };
        c.ck(u.user.credential == want_cred, || "the credential kept is another".into());
        c.ck(u.phone_number.0 == phone_scalar(&d), || "the number changed".into());
        let r = u.obtain_finish(None);
        c.ck(r.is_err(), || "no issuance was accepted".into());
    });
}
/// The recorded defect: the proof of an issuance says nothing about the attribute.
pub fn c06_known(h: &mut H) -> bool {
    let mut out = false;
    h.each("known", 1, 1, 1.0, |c| {
        let sp = SystemParameters { g: RISTRETTO_BASEPOINT_POINT, h: RistrettoPoint::random(&mut c.r) };
        let is = Issuer::create(sp, &mut c.r);
        let mut i = is.issue(&CredentialRequest { attributes_revealed: vec![Scalar::from(5u64)] }, &mut c.r).unwrap();
        i.credential.attributes = vec![Scalar::from(6u64)];
        let mut u = User::new(sp, is.get_issuer_parameters(), None);
        out = u.obtain_finish(Some(&i)).is_ok() && u.credential.unwrap().attributes[0] == Scalar::from(6u64);
    });
    out
}

pub fn c07(h: &mut H) {
    h.each("show", 40, 4000, 0.5, |c| {
        let (sp, _) = params(c);
        let is = issuer(c, sp);
        let m = c.s();
        let u = match holder(c, &is, m) {
            Some(u) => u,
            None => return,
        };
        let nonces = Nonces::new(&mut c.r, 1);
        c.note(format!("attribute {} parameters {} key {}", hs(&m), hex(&sp.to_bytes()), hex(&is.keypair.to_bytes())));
        let p = match u.show(&nonces, &mut c.r) {
            Ok(p) => p,
            Err(e) => {
                c.ck(false, || format!("showing failed: {:?}", e));
                return;
            }
        };
        let r = is.verify(&p);
        c.ck(r.is_ok(), || format!("the issuer refused: {:?} {}", r.as_ref().err(), hex(&p.to_bytes())));
        if let Ok(v) = r {
            c.ck(v.0 == p, || "what was verified is not what was shown".into());
        }
        c.ck(presentation_ok(&is, &p), || "the presentation should not have been accepted".into());
        match CredentialPresentation::from_bytes(&p.to_bytes()) {
            Ok(q) => {
                let r = is.verify(&q);
                c.ck(r.is_ok(), || format!("the issuer refused what came over the wire: {:?}", r.as_ref().err()));
            }
            Err(e) => {
                c.ck(false, || format!("the presentation does not decode: {:?} {}", e, hex(&p.to_bytes())));
            }
        }
        // an issuer restored from its bytes, and a user restored from its bytes
        let is2 = match Issuer::from_bytes(&is.to_bytes()) {
            Ok(x) => x,
            Err(e) => {
                c.ck(false, || format!("the issuer does not decode: {:?}", e));
                return;
            }
        };
        match User::from_bytes(&u.to_bytes()) {
            Ok(u2) => {
                let n2 = Nonces::new(&mut c.r, 1);
                let ok = u2.show(&n2, &mut c.r).ok().map_or(false, |p| is2.verify(&p).is_ok());
                c.ck(ok, || "a restored user's presentation was refused by a restored issuer".into());
            }
            Err(e) => {
                c.ck(false, || format!("the user does not decode: {:?}", e));
            }
        }
    });
    h.each("signal", 27, 3000, 1.0, |c| {
        signal_session(c, false);
    });
}

/// A phone number from issuance to roster; checks everything on the way.
fn signal_session(c: &mut Case, roster: bool) {
    let d = if c.it < 27 { (0..c.it).map(|_| c.r.below(10) as u8).collect() } else { c.phone() };
    let (sp, _) = params(c);
    let is = SignalIssuer { issuer: issuer(c, sp) };
    c.note(format!("number {:?} parameters {} key {}", d, hex(&sp.to_bytes()), hex(&is.issuer.keypair.to_bytes())));
    let mut u = match SignalUser::new(sp, is.get_issuer_parameters(), None, &d) {
        Ok(u) => u,
        Err(_) => return,
    };
    let i = match is.issue(&d, &mut c.r) {
        Ok(i) => i,
        Err(_) => return,
    };
    if u.obtain_finish(Some(&i)).is_err() {
        return;
    }
    let entry = match RosterEntryCommitment::create(&d, &sp, &mut c.r) {
        Ok(e) => e,
        Err(e) => {
            c.ck(false, || format!("no roster entry: {:?}", e));
            return;
        }
    };
    let p = match u.show(&mut c.r, &entry) {
        Ok(p) => p,
        Err(e) => {
            c.ck(false, || format!("showing failed: {:?}", e));
            return;
        }
    };
    c.ck(p.roster_entry_commitment == entry.commitment, || "the presentation names another roster entry".into());
    let b = p.to_bytes();
    let q = match SignalCredentialPresentation::from_bytes(&b) {
        Ok(q) => q,
        Err(e) => {
            c.ck(false, || format!("the presentation does not decode: {:?} {}", e, hex(&b)));
            return;
        }
    };
    for (k, x) in vec![p, q].into_iter().enumerate() {
        match is.verify(x.clone()) {
            Ok(v) => {
                c.ck(v.to_bytes() == b, || "what was verified is not what was shown".into());
                if roster {
                    match is.verify_roster_membership(&v) {
                        Ok(n) => {
                            c.ck(n == entry.commitment, || "another roster entry is returned".into());
                        }
                        Err(e) => {
                            c.ck(false, || format!("the roster proof was refused ({}): {:?} {}", k, e, hex(&b)));
                        }
                    }
                    c.ck(roster_ok(&sp, &x), || "the roster proof should not have been accepted".into());
                }
            }
            Err(e) => {
                c.ck(false, || format!("the issuer refused ({}): {:?} {}", k, e, hex(&b)));
            }
        }
    }
}

/// A presentation, as it was made or changed.
fn forged(c: &mut Case, is: &Issuer, m: Scalar) -> Option<(CredentialPresentation, String)> {
    let mut u = holder(c, is, m)?;
    let kind = c.r.below(34);
    let mut text = "unchanged".to_string();
    let nonces = Nonces::new(&mut c.r, 1);
    match kind {
        1 => {
            u.credential.as_mut().unwrap().attributes[0] = c.s();
            text = "attribute changed before showing".into();
        }
        2 => {
            u.credential.as_mut().unwrap().mac.mac = c.p();
            text = "mac changed before showing".into();
        }
        3 => {
            u.credential.as_mut().unwrap().mac.nonce = RistrettoPoint::identity();
            u.credential.as_mut().unwrap().mac.mac = RistrettoPoint::identity();
            text = "identities shown".into();
        }
        4 => {
            let o = issuer(c, is.system_parameters);
            u.credential = holder(c, &o, m)?.credential;
            text = "credential of another issuer".into();
        }
        5 => {
            u.issuer_parameters.Xn[0] = c.p();
            text = "wrong issuer parameters".into();
        }
        6 => {
            u.system_parameters.h = c.p();
            text = "wrong basepoint".into();
        }
        _ => {}
    }
    let mut p = u.show(&nonces, &mut c.r).ok()?;
    let mut pf = unwire(&ser(&p.proof)).unwrap();
    let mut set = false;
    match kind {
        7 => {
            p.rerandomized_nonce = c.p();
            text = "nonce".into();
        }
        8 => {
            p.rerandomized_mac_commitment = com(c.p());
            text = "commitment to the MAC".into();
        }
        9 => {
            p.attributes_blinded[0] = com(c.p());
            text = "commitment to the attribute".into();
        }
        10 => {
            pf.c = c.s();
            set = true;
            text = "challenge".into();
        }
        11 | 12 => {
            let k = c.r.below(3);
            pf.r[k] = if c.r.one_in(2) { c.s() } else { pf.r[k] + Scalar::one() };
            set = true;
            text = format!("answer {}", k);
        }
        13 => {
            p.attributes_revealed.push(c.s());
            text = "a revealed attribute as well".into();
        }
        14 => {
            p.attributes_blinded.clear();
            text = "no attributes".into();
        }
        15 => {
            let x = if c.r.one_in(2) { p.attributes_blinded[0] } else { com(c.p()) };
            p.attributes_blinded.push(x);
            text = "two attributes".into();
        }
        16 => {
            let n2 = Nonces::new(&mut c.r, 1);
            p.proof = u.show(&n2, &mut c.r).ok()?.proof;
            text = "proof of another presentation".into();
        }
        17 => {
            let s = c.s();
            p.rerandomized_nonce = s * p.rerandomized_nonce;
            p.rerandomized_mac_commitment = com(s * comp(&p.rerandomized_mac_commitment));
            p.attributes_blinded[0] = com(s * comp(&p.attributes_blinded[0]));
            text = "multiplied".into();
        }
        18 => {
            // everything the identity, and a proof from zeroes
            p.rerandomized_nonce = RistrettoPoint::identity();
            p.rerandomized_mac_commitment = com(RistrettoPoint::identity());
            p.attributes_blinded[0] = com(RistrettoPoint::identity());
            let id = RistrettoPoint::identity();
            let q = [is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0], id, id, id];
            let k: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
            pf = prove(&VALID, &mut Transcript::new(b"AEONFLUX SHOW"), &q, &[Scalar::zero(), Scalar::zero(), Scalar::zero()], &k);
            set = true;
            text = "all identities".into();
        }
        19 => {
            // without a credential: the nonce is the identity, everything else is honest
            let (z0, zq, m) = (c.s(), c.s(), c.s());
            let (g, h, x) = (is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0]);
            let id = RistrettoPoint::identity();
            p.rerandomized_nonce = id;
            p.rerandomized_mac_commitment = com(zq * h);
            p.attributes_blinded[0] = com(z0 * h);
            let q = [g, h, x, id, z0 * x - zq * h, z0 * h];
            let k: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
            pf = prove(&VALID, &mut Transcript::new(b"AEONFLUX SHOW"), &q, &[m, z0, -zq], &k);
            set = true;
            text = "made without a credential".into();
        }
        20 => {
            // a proof for this presentation from secrets that do not fit
            let q = [is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0], p.rerandomized_nonce, v_of(is, &p), comp(&p.attributes_blinded[0])];
            let s: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
            let k: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
            pf = prove(&VALID, &mut Transcript::new(b"AEONFLUX SHOW"), &q, &s, &k);
            set = true;
            text = "proof from wrong secrets".into();
        }
        21 => {
            // the right secrets with another label
            let q = [is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0], p.rerandomized_nonce, v_of(is, &p), comp(&p.attributes_blinded[0])];
            let zq = c.s();
            let s = [m, eph(&nonces[0]), zq];
            let k: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
            pf = prove(&VALID, &mut Transcript::new(b"AEONFLUX ISSUANCE"), &q, &s, &k);
            set = true;
            text = "proof for another protocol".into();
        }
        24..=28 => {
            // a proof made in full for a V which is not, or only in part, what the key says it is
            let (b, a, x) = (is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0]);
            let (x0, x1) = (is.keypair.secret.x0, is.keypair.secret.xn[0]);
            let s = [sparse(c), sparse(c), sparse(c)];
            let n = if c.r.one_in(2) { p.rerandomized_nonce } else { among(c, &[b, a, x]) };
            let cm = s[0] * n + s[1] * a;
            let v = s[1] * x + s[2] * a;
            let id = RistrettoPoint::identity();
            let t = match c.r.below(8) {
                0 => id,
                1 => x0 * n,
                2 => x1 * cm,
                3 => x0 * cm + x1 * n,
                4 => (x0 + x1) * n,
                5 => x0 * n + cm,
                6 => x0 * n - x1 * cm,
                _ => x0 * n + x1 * cm,
            };
            p.rerandomized_nonce = n;
            p.attributes_blinded[0] = com(cm);
            p.rerandomized_mac_commitment = com(match c.r.below(6) {
                0 => v - t,
                1 => among(c, &[b, a, x, n, cm, v]),
                _ => t - v,
            });
            pf = attempt(c, &VALID, b"AEONFLUX SHOW", &[b, a, x, n, v, cm], &s);
            set = true;
            text = "another V".into();
        }
        29 | 30 => {
            // multiples of one basepoint, so that V can be what it is without the commitment to the MAC
            let (b, a, x) = (is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0]);
            let (x0, x1) = (is.keypair.secret.x0, is.keypair.secret.xn[0]);
            let (al, m0, z0) = (sparse(c), sparse(c), sparse(c));
            let n = al * a;
            let cm = m0 * n + z0 * a;
            let zq = match c.r.below(3) {
                0 => x0 * al + x1 * m0 * al,
                1 => x0 * al - z0 * x1,
                _ => x1 * m0 * al,
            };
            let v = z0 * x + zq * a;
            p.rerandomized_nonce = n;
            p.attributes_blinded[0] = com(cm);
            p.rerandomized_mac_commitment = com(among(c, &[b, a, x, n, cm, v]));
            pf = attempt(c, &VALID, b"AEONFLUX SHOW", &[b, a, x, n, v, cm], &[m0, z0, zq]);
            set = true;
            text = "without the commitment to the MAC".into();
        }
        31 | 32 => {
            // values that coincide
            let (b, a, x) = (is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn[0]);
            let v = [b, a, x, p.rerandomized_nonce, comp(&p.rerandomized_mac_commitment), comp(&p.attributes_blinded[0])];
            p.rerandomized_nonce = among(c, &v);
            p.rerandomized_mac_commitment = com(among(c, &v));
            p.attributes_blinded[0] = com(among(c, &v));
            let q = [b, a, x, p.rerandomized_nonce, v_of(is, &p), comp(&p.attributes_blinded[0])];
            let s = [sparse(c), sparse(c), sparse(c)];
            pf = attempt(c, &VALID, b"AEONFLUX SHOW", &q, &s);
            set = true;
            text = "values that coincide".into();
        }
        _ => {}
    }
    if set {
        p.proof = bincode::deserialize(&wire(&pf)).unwrap();
    }
    Some((p, text))
}

pub fn c08(h: &mut H) {
    h.each("verify", 200, 8000, 0.7, |c| {
        let (sp, _) = params(c);
        let mut is = issuer(c, sp);
        let m = c.s();
        let (p, text) = match forged(c, &is, m) {
            Some(x) => x,
            None => return,
        };
        if c.r.one_in(12) {
            match c.r.below(4) {
                0 => is.keypair.secret.xn.clear(),
                1 => is.keypair.public.Xn.clear(),
                2 => {
                    let s = c.s();
                    is.keypair.secret.xn.push(s)
                }
                _ => {
                    let q = c.p();
                    is.keypair.public.Xn.push(q)
                }
            }
        }
        c.note(format!("{} presentation {} parameters {} key {}", text, hex(&p.to_bytes()), hex(&sp.to_bytes()), hex(&is.keypair.to_bytes())));
        let want = presentation_ok(&is, &p);
        let r = match c.run("verify", || is.verify(&p)) {
            Some(r) => r,
            None => return,
        };
        c.ck(r.is_ok() == want, || format!("accepted: {}, should be: {}", r.is_ok(), want));
        if let Ok(v) = r {
            c.ck(v.0 == p, || "what was verified is not what was given".into());
        }
    });
    h.each("signal", 60, 4000, 1.0, |c| {
        let (sp, _) = params(c);
        let is = SignalIssuer { issuer: issuer(c, sp) };
        let d = c.phone();
        let (p, text) = match forged(c, &is.issuer, phone_scalar(&d)) {
            Some(x) => x,
            None => return,
        };
        let mut pf = Pf { c: c.s(), r: vec![c.s(), c.s(), c.s()] };
        let e = com(c.p());
        if p.attributes_blinded.len() == 1 && c.r.one_in(2) {
            let q = [sp.g, sp.h, p.rerandomized_nonce, comp(&p.attributes_blinded[0]), comp(&e)];
            let s: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
            let k: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
            pf = prove(&EQUAL, &mut Transcript::new(b"SIGNAL GROUP MEMBERSHIP"), &q, &s, &k);
        }
        let sp_ = SignalCredentialPresentation { roster_entry_commitment: CommittedPhoneNumber(e), presentation: p.clone(), roster_membership_proof: bincode::deserialize(&wire(&pf)).unwrap() };
        c.note(format!("{} presentation {} parameters {} key {}", text, hex(&sp_.to_bytes()), hex(&sp.to_bytes()), hex(&is.issuer.keypair.to_bytes())));
        let want = presentation_ok(&is.issuer, &p);
        let s2 = sp_.clone();
        let r = match c.run("verify", || is.verify(s2)) {
            Some(r) => r,
            None => return,
        };
        c.ck(r.is_ok() == want, || format!("accepted: {}, should be: {}", r.is_ok(), want));
        if let Ok(v) = r {
            c.ck(v.to_bytes() == sp_.to_bytes(), || "what was verified is not what was given".into());
        }
    });
}

pub fn c09(h: &mut H) {
    let mut seen: std::collections::HashMap<Vec<u8>, String> = std::collections::HashMap::new();
    h.each("show", 60, 2000, 0.6, |c| {
        // logarithms are known here, so that the factors can be compared
        let a = c.r.scalar();
        let sp = SystemParameters { g: RISTRETTO_BASEPOINT_POINT, h: a * RISTRETTO_BASEPOINT_POINT };
        let is = Issuer::create(sp, &mut c.r);
        let m = c.nz();
        let t = c.r.scalar();
        let n = t * RISTRETTO_BASEPOINT_POINT;
        let cred = Credential { mac: amacs::Tag { nonce: n, mac: mac_exp(&is.keypair.secret, &[m]) * n }, attributes: vec![m] };
        let mut u = User::new(sp, is.get_issuer_parameters(), None);
        u.credential = Some(cred.clone());
        c.note(format!("attribute {} log of h {} log of the nonce {} key {}", hs(&m), hs(&a), hs(&t), hex(&is.keypair.to_bytes())));
        let same = c.r.one_in(3);
        let mut r2 = c.r.clone();
        let mut parts: Vec<Vec<u8>> = Vec::new();
        for k in 0..2 {
            let mut log = Log::new(&mut c.r);
            let nonces = Nonces::new(&mut log, 1);
            let z0 = eph(&nonces[0]);
            c.ck(log.drawn(&[z0]), || "the nonce of a user is not a draw".into());
            let p = match if same && k == 1 { u.show(&nonces, &mut r2) } else { u.show(&nonces, &mut c.r) } {
                Ok(p) => p,
                Err(_) => return,
            };
            let pn = p.rerandomized_nonce;
            let q = mac_exp(&is.keypair.secret, &[m]) * pn;
            let bq = comp(&p.rerandomized_mac_commitment) - q; // zq * h
            let bm = comp(&p.attributes_blinded[0]) - m * pn; // z0 * h
            c.ck(pn != n && pn != RistrettoPoint::identity() && pn != RISTRETTO_BASEPOINT_POINT && pn != sp.h, || "the nonce is not rerandomised".into());
            c.ck(bq != RistrettoPoint::identity(), || "the MAC is not blinded".into());
            c.ck(bm == z0 * sp.h && bm != RistrettoPoint::identity(), || "the attribute is not blinded with the nonce given".into());
            c.ck(bm != bq && bm != -bq, || "the attribute and the MAC are blinded with the same number".into());
            // z as a multiple: pn = z t B; zq t B; z0 t B
            let tq = (t * a.invert()) * bq;
            c.ck(pn != tq && pn != -tq, || "the nonce and the MAC are blinded with the same number".into());
            c.ck(pn != z0 * n && pn != -(z0 * n), || "the nonce and the attribute are blinded with the same number".into());
            for (x, what) in vec![(pn, "nonce"), (bq, "blinding of the MAC"), (comp(&p.rerandomized_mac_commitment), "commitment to the MAC"), (comp(&p.attributes_blinded[0]), "commitment to the attribute")] {
                let b = x.compress().as_bytes().to_vec();
                c.ck(!parts.contains(&b), || format!("{} is repeated", what));
                parts.push(b);
            }
            // no part is a fixed multiple of the credential
            for s in vec![Scalar::one(), -Scalar::one(), m, is.keypair.secret.x0, z0, t, a] {
                c.ck(pn != s * n && pn != s * RISTRETTO_BASEPOINT_POINT, || "the nonce is not blinded by a number drawn".into());
                c.ck(bq != s * sp.h, || "the MAC is not blinded by a number drawn".into());
            }
            let pf = unwire(&ser(&p.proof)).unwrap();
            for x in std::iter::once(&pf.c).chain(pf.r.iter()) {
                let b = x.as_bytes().to_vec();
                c.ck(!parts.contains(&b), || "a number of the proof is repeated".into());
                parts.push(b);
            }
        }
        for b in parts {
            let old = seen.insert(b, c.it.to_string());
            c.ck(old.is_none(), || format!("part of a presentation seen before, in case {:?}", old));
        }
    });
    // the nonces of a user are drawn from its generator, one after the other
    h.each("nonces", 50, 3000, 0.4, |c| {
        let n = c.n(6);
        c.note(format!("{} nonces", n));
        let mut log = Log::new(&mut c.r);
        let x = Nonces::new(&mut log, n);
        let y = Nonces::new(&mut log, n);
        let mut all: Vec<Scalar> = x.iter().chain(y.iter()).map(eph).collect();
        c.ck(x.iter().count() == n, || "another number of nonces".into());
        c.ck(log.drawn(&all), || "a nonce is not a draw of its own".into());
        let key = |s: &Scalar| *s.as_bytes();
        all.sort_by_key(key);
        for w in all.windows(2) {
            c.ck(w[0] != w[1], || "a nonce is repeated".into());
        }
        c.ck(all.iter().all(|s| *s != Scalar::zero()), || "a nonce is zero".into());
        let mut log = c.log(n + 1);
        let x = Nonces::new(&mut log, n);
        let all: Vec<Scalar> = x.iter().map(eph).collect();
        c.ck(log.drawn(&all), || "a nonce is not a draw of its own".into());
        let mut log = c.log(1);
        let t1 = amacs::Tag { nonce: RISTRETTO_BASEPOINT_POINT, mac: c.p() };
        let f = amacs::Rerandomization::new(&mut log).apply_to_tag(&t1).nonce;
        c.ck(log.scalars().iter().any(|x| x.1 * RISTRETTO_BASEPOINT_POINT == f), || "the factor of a rerandomisation is not drawn".into());
        let mut log = Log::new(&mut c.r);
        let (e1, e2) = (Ephemeral::new(&mut log), Ephemeral::new(&mut log));
        c.ck(log.drawn(&[eph(&e1), eph(&e2)]), || "an ephemeral is not a draw of its own".into());
        let k = amacs::SecretKey { x0: c.s(), xn: vec![c.s()] };
        let mut log = c.log(1);
        if let Ok(t) = k.mac(&amacs::Message::from(vec![c.s()]), &mut log) {
            let t = t.nonce;
            let mut drawn = log.scalars().iter().any(|x| x.1 * RISTRETTO_BASEPOINT_POINT == t);
            for j in log.calls.iter() {
                if j + 64 <= log.bytes.len() {
                    let mut b = [0u8; 64];
                    b.copy_from_slice(&log.bytes[*j..j + 64]);
                    drawn = drawn || RistrettoPoint::from_uniform_bytes(&b) == t;
                }
            }
            c.ck(drawn, || format!("the nonce of a tag is not drawn: {}", hp(&t)));
        }
        c.ck(e1.to_bytes() != e2.to_bytes(), || "an ephemeral is repeated".into());
    });
    // Signal: from two presentations with the same generator state nothing repeats but what must
    h.each("signal", 30, 2000, 1.0, |c| {
        let (sp, _) = params(c);
        let is = SignalIssuer { issuer: Issuer::create(sp, &mut c.r) };
        let d = c.phone();
        let mut u = SignalUser::new(sp, is.get_issuer_parameters(), None, &d).unwrap();
        c.note(format!("number {:?}", d));
        let i = match is.issue(&d, &mut c.r) { Ok(i) => i, Err(_) => return };
        if u.obtain_finish(Some(&i)).is_err() {
            return;
        }
        let mut log = c.log(1);
        let entry = match RosterEntryCommitment::create(&d, &sp, &mut log) { Ok(e) => e, Err(_) => return };
        c.ck(log.drawn(&[eph(&entry.opening)]), || "the opening of a roster entry is not drawn".into());
        let m = phone_scalar(&d);
        let mut seen: Vec<Vec<u8>> = vec![i.credential.mac.nonce.compress().as_bytes().to_vec(), i.credential.mac.mac.compress().as_bytes().to_vec()];
        for _ in 0..2 {
            let p = match u.show(&mut c.r, &entry) { Ok(p) => p, Err(_) => return };
            let q = &p.presentation;
            let bm = comp(&q.attributes_blinded[0]) - m * q.rerandomized_nonce;
            let bq = comp(&q.rerandomized_mac_commitment) - mac_exp(&is.issuer.keypair.secret, &[m]) * q.rerandomized_nonce;
            c.ck(bm != RistrettoPoint::identity() && bq != RistrettoPoint::identity() && bm != bq, || "a blinding is missing or shared".into());
            c.ck(bm != eph(&entry.opening) * sp.h && bq != eph(&entry.opening) * sp.h, || "the opening of the roster entry is used as a blinding".into());
            for x in vec![q.rerandomized_nonce, comp(&q.rerandomized_mac_commitment), comp(&q.attributes_blinded[0]), bm, bq] {
                let b = x.compress().as_bytes().to_vec();
                c.ck(!seen.contains(&b), || "part of a presentation is repeated".into());
                seen.push(b);
            }
        }
    });
}

pub fn c10(h: &mut H) {
    h.each("roster", 200, 8000, 1.0, |c| {
        let (sp, _) = params(c);
        let is = SignalIssuer { issuer: issuer(c, sp) };
        let d = c.phone();
        let m = phone_scalar(&d);
        let mut u = SignalUser::new(sp, is.get_issuer_parameters(), None, &d).unwrap();
        u.user = match holder(c, &is.issuer, m) { Some(x) => x, None => return };
        let kind = c.r.below(18);
        let other = if c.r.one_in(2) { c.near(&d) } else { c.phone() };
        let entry = match RosterEntryCommitment::create(if kind == 1 { &other } else { &d }, &sp, &mut c.r) { Ok(e) => e, Err(_) => return };
        let mut p = match u.show(&mut c.r, &entry) { Ok(p) => p, Err(_) => return };
        let mut pf = unwire(&ser(&p.roster_membership_proof)).unwrap();
        let text;
        match kind {
            1 => text = "entry for another number",
            2 => {
                p.roster_entry_commitment = CommittedPhoneNumber(com(c.p()));
                text = "entry exchanged";
            }
            3 => {
                p.roster_entry_commitment = RosterEntryCommitment::create(&d, &sp, &mut c.r).unwrap().commitment;
                text = "entry exchanged for one of the same number";
            }
            4 => {
                pf.c = c.s();
                text = "challenge";
            }
            5 | 6 => {
                let k = c.r.below(3);
                pf.r[k] = if c.r.one_in(2) { c.s() } else { pf.r[k] + Scalar::one() };
                text = "an answer";
            }
            7 => {
                pf = unwire(&ser(&u.show(&mut c.r, &entry).unwrap().roster_membership_proof)).unwrap();
                text = "proof of another presentation";
            }
            8 => {
                let q = roster_publics(&sp, &p);
                let s: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
                let k: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
                pf = prove(&EQUAL, &mut Transcript::new(b"SIGNAL GROUP MEMBERSHIP"), &q, &s, &k);
                text = "proof from wrong secrets";
            }
            9 => {
                let q = roster_publics(&sp, &p);
                let s = [m, c.s(), eph(&entry.opening)];
                let k: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
                pf = prove(&EQUAL, &mut Transcript::new(b"AEONFLUX SHOW"), &q, &s, &k);
                text = "proof for another protocol";
            }
            10 => {
                // the entry for another number, shown to be equal by a prover who knows both openings
                let z1 = c.s();
                let m2 = c.s();
                p.roster_entry_commitment = CommittedPhoneNumber(com(m2 * sp.h + z1 * sp.g));
                let q = roster_publics(&sp, &p);
                let k: Vec<Scalar> = (0..3).map(|_| c.s()).collect();
                let s = [m2, c.s(), z1];
                pf = prove(&EQUAL, &mut Transcript::new(b"SIGNAL GROUP MEMBERSHIP"), &q, &s, &k);
                text = "a different number proved equal";
            }
            11..=13 => {
                // from chosen secrets, of the same number or of two
                let (b, a) = (sp.g, sp.h);
                let s = [sparse(c), sparse(c), sparse(c)];
                let m1 = if c.r.one_in(2) { s[0] } else { sparse(c) };
                let n = among(c, &[b, a, p.presentation.rerandomized_nonce]);
                let (c0, c1) = (s[0] * n + s[1] * a, m1 * a + s[2] * b);
                p.presentation.rerandomized_nonce = n;
                p.presentation.attributes_blinded[0] = com(if c.r.one_in(8) { c1 } else { c0 });
                p.roster_entry_commitment = CommittedPhoneNumber(com(if c.r.one_in(8) { c0 } else { c1 }));
                let q = if c.r.one_in(2) { roster_publics(&sp, &p) } else { vec![b, a, n, c0, s[0] * a + s[2] * b] };
                pf = attempt(c, &EQUAL, b"SIGNAL GROUP MEMBERSHIP", &q, &s);
                text = "from chosen secrets";
            }
            14 | 15 => {
                let v = [sp.g, sp.h, p.presentation.rerandomized_nonce, comp(&p.presentation.attributes_blinded[0]), comp(&p.roster_entry_commitment.0)];
                p.presentation.rerandomized_nonce = among(c, &v);
                p.presentation.attributes_blinded[0] = com(among(c, &v));
                p.roster_entry_commitment = CommittedPhoneNumber(com(among(c, &v)));
                let q = roster_publics(&sp, &p);
                let s = [sparse(c), sparse(c), sparse(c)];
                pf = attempt(c, &EQUAL, b"SIGNAL GROUP MEMBERSHIP", &q, &s);
                text = "values that coincide";
            }
            _ => text = "unchanged",
        }
        p.roster_membership_proof = bincode::deserialize(&wire(&pf)).unwrap();
        let b = p.to_bytes();
        c.note(format!("{} number {:?} presentation {} parameters {} key {}", text, d, hex(&b), hex(&sp.to_bytes()), hex(&is.issuer.keypair.to_bytes())));
        let v = match VerifiedSignalCredential::from_bytes(&b) {
            Ok(v) => v,
            Err(_) => return,
        };
        let want = roster_ok(&sp, &p);
        let r = match c.run("verify_roster_membership", || is.verify_roster_membership(&v)) {
            Some(r) => r,
            None => return,
        };
        c.ck(r.is_ok() == want, || format!("accepted: {}, should be: {}", r.is_ok(), want));
        if let Ok(x) = r {
            c.ck(x == p.roster_entry_commitment, || "another roster entry is returned".into());
        }
        // the credential must have been verified as well
        if let Ok(v) = is.verify(p.clone()) {
            c.ck(presentation_ok(&is.issuer, &p.presentation), || "the presentation should have been refused".into());
            c.ck(v.to_bytes() == b, || "what was verified is not what was given".into());
        }
    });
}
pub fn c11(h: &mut H) {
    h.each("session", 54, 4000, 1.0, |c| signal_session(c, true));
}
