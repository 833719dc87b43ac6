// The properties, as lemmas over the contracts and as clients of the functions: a client is checked against the contracts
// of what it calls, so each says what the contracts together guarantee for every input.
pub mod props {
use vstd::prelude::*;
use crate::spec::*;
use crate::rt::*;
use crate::defs::*;
use crate::defs_proofs::*;
use crate::props_proofs::*;
use crate::aeonflux::amacs;
use crate::aeonflux::elgamal;
use crate::aeonflux::pedersen;
use crate::aeonflux::nonces::*;
use crate::aeonflux::proofs::*;
use crate::aeonflux::credential::*;
use crate::aeonflux::errors::*;
use crate::aeonflux::issuer::*;
use crate::aeonflux::user::*;
use crate::aeonflux::parameters::*;
use crate::signal_credential::phone_number::*;
use crate::signal_credential::credential::*;
use crate::signal_credential::issuer::*;
use crate::signal_credential::user::*;
use crate::signal_credential::errors::*;
use crate::ext::rand_core::*;
use crate::ext::curve25519_dalek::scalar::Scalar;
use crate::ext::curve25519_dalek::ristretto::RistrettoPoint;
broadcast use {vstd::group_vstd_default, group_ax, encs, seqs};

// ---- arithmetic -----------------------------------------------------------------------------------------------------
pub proof fn lem_nonzero(a: Scalar, b: Scalar)
    requires a != s0(), b != s0()
    ensures smul(a, b) != s0()
{
    broadcast use {ac};
    if smul(a, b) == s0() {
        ax_inv(a);
        assert(smul(sinv(a), smul(a, b)) == smul(smul(a, sinv(a)), b));
        assert(smul(sinv(a), s0()) == s0());
    }
}
pub proof fn lem_mul_cancel(a: Scalar, b: Scalar, c: Scalar)
    requires c != s0(), smul(a, c) == smul(b, c)
    ensures a == b
{
    broadcast use {ac};
    ax_inv(c);
    assert(smul(smul(a, c), sinv(c)) == smul(a, smul(c, sinv(c))));
    assert(smul(smul(b, c), sinv(c)) == smul(b, smul(c, sinv(c))));
    assert(smul(a, s1()) == a); assert(smul(b, s1()) == b);
}
pub proof fn lem_add_cancel(a: Scalar, b: Scalar, c: Scalar)
    requires sadd(a, c) == sadd(b, c)
    ensures a == b
{ lem_cancel1(a, c); lem_cancel1(b, c); }
pub proof fn lem_dl_ident(p: RistrettoPoint)
    ensures p == ident() <==> dl(p) == s0()
{ }
pub proof fn lem_dot1(x: Seq<Scalar>, m: Seq<Scalar>)
    requires x.len() == 1, m.len() == 1
    ensures dot(x, m) == smul(x[0], m[0])
{
    broadcast use ac;
    assert(x.drop_last().len() == 0);
    assert(dot(x.drop_last(), m) == s0());
}

// ---- C01: the MAC ---------------------------------------------------------------------------------------------------
//@ C01: the key verifies every tag it makes, whatever the message, the key and the random numbers (but for the identity as the nonce)
pub fn client_mac_verifies<R: RngCore + CryptoRng>(k: &amacs::SecretKey, m: &amacs::Message, rng: &mut R) {
    let r = k.mac(m, rng);
    match r {
        Ok(t) => {
            let v = k.verify(&t, m);
            assert(t.nonce != ident() ==> v is Ok);
            assert(mac_ok(*k, t, m.0@) <==> v is Ok);
        }
        Err(_) => { assert(k.xn@.len() != m.0@.len()); }
    }
}
//@ C01: for a nonce and a message there is one MAC
pub proof fn lem_mac_unique(k: amacs::SecretKey, t: amacs::Tag, u: amacs::Tag, m: Seq<Scalar>)
    requires mac_ok(k, t, m), mac_ok(k, u, m), t.nonce == u.nonce
    ensures t == u
{ assert(pt(dl(t.mac)) == pt(dl(u.mac))); }
//@ C01: a tag is a MAC of one attribute only
pub proof fn lem_mac_one_message(k: amacs::SecretKey, t: amacs::Tag, m: Seq<Scalar>, n: Seq<Scalar>)
    requires mac_ok(k, t, m), mac_ok(k, t, n), k.xn@.len() == 1, k.xn@[0] != s0()
    ensures m =~= n
{
    lem_dot1(k.xn@, m); lem_dot1(k.xn@, n);
    lem_dl_ident(t.nonce);
    lem_mul_cancel(mac_exp(k, m), mac_exp(k, n), dl(t.nonce));
    ax_add_comm(k.x0, smul(k.xn@[0], m[0])); ax_add_comm(k.x0, smul(k.xn@[0], n[0]));
    lem_add_cancel(smul(k.xn@[0], m[0]), smul(k.xn@[0], n[0]), k.x0);
    ax_mul_comm(k.xn@[0], m[0]); ax_mul_comm(k.xn@[0], n[0]);
    lem_mul_cancel(m[0], n[0], k.xn@[0]);
}

// ---- C02: rerandomisation -----------------------------------------------------------------------------------------------
pub proof fn lem_rerandomized(k: amacs::SecretKey, t: amacs::Tag, u: amacs::Tag, z: Scalar, m: Seq<Scalar>)
    requires mac_ok(k, t, m), z != s0(), dl(u.nonce) == smul(z, dl(t.nonce)), dl(u.mac) == smul(z, dl(t.mac))
    ensures mac_ok(k, u, m)
{
    lem_dl_ident(t.nonce); lem_dl_ident(u.nonce);
    lem_nonzero(z, dl(t.nonce));
    broadcast use ac;
}
//@ C02: a rerandomised tag is a MAC of the same message, unless the factor drawn is zero
pub fn client_rerandomize<R: RngCore + CryptoRng>(k: &amacs::SecretKey, t: &amacs::Tag, m: &amacs::Message, rng: &mut R)
    requires mac_ok(*k, *t, m.0@)
{
    let z = amacs::Rerandomization::new(rng);
    let u = z.apply_to_tag(t);
    let v = k.verify(&u, m);
    proof { if z.0 != s0() { lem_rerandomized(*k, *t, u, z.0, m.0@); } }
    assert(z.0 != s0() ==> v is Ok);
}
//@ C02: rerandomising does not make a MAC of what was not one
pub proof fn lem_rerandomized_only_if(k: amacs::SecretKey, t: amacs::Tag, u: amacs::Tag, z: Scalar, m: Seq<Scalar>)
    requires mac_ok(k, u, m), z != s0(), dl(u.nonce) == smul(z, dl(t.nonce)), dl(u.mac) == smul(z, dl(t.mac))
    ensures mac_ok(k, t, m)
{
    broadcast use ac;
    lem_dl_ident(t.nonce); lem_dl_ident(u.nonce);
    assert(smul(dl(t.mac), z) == smul(smul(mac_exp(k, m), dl(t.nonce)), z));
    lem_mul_cancel(dl(t.mac), smul(mac_exp(k, m), dl(t.nonce)), z);
}

// ---- C03: encryption ------------------------------------------------------------------------------------------------------
pub proof fn lem_elgamal(n: Scalar, x: Scalar, m: Scalar)
    ensures ssub(sadd(m, smul(n, x)), smul(x, n)) == m
{ ax_mul_comm(n, x); lem_cancel1(m, smul(x, n)); }
//@ C03: what is encrypted to a key decrypts to itself with its secret
pub fn client_elgamal<R: RngCore + CryptoRng>(m: &elgamal::Message, n: &Ephemeral, rng: &mut R) {
    let k = elgamal::Keypair::generate(rng);
    let e = k.encrypt(m, n);
    let d = k.secret.decrypt(&e);
    proof { lem_elgamal(n.0, k.secret.0, dl(m.0)); assert(pt(dl(d)) == pt(dl(m.0))); }
    assert(d == m.0);
}
//@ C03: the sum of two encryptions decrypts to the sum of the messages
pub fn client_elgamal_sum(k: &elgamal::Keypair, m1: &elgamal::Message, m2: &elgamal::Message, n1: &Ephemeral, n2: &Ephemeral)
    requires k.public.0 == pt(k.secret.0)
{
    let e1 = k.encrypt(m1, n1);
    let e2 = k.encrypt(m2, n2);
    let e = core::ops::Add::add(&e1, &e2);
    let d = k.secret.decrypt(&e);
    proof {
        let x = k.secret.0;
        assert(dl(e.encryption) == sadd(sadd(dl(m1.0), dl(m2.0)), smul(sadd(n1.0, n2.0), x))) by { broadcast use {ax_add_comm, ax_add_assoc, ax_mul_comm}; ax_dist(x, n1.0, n2.0); }
        lem_elgamal(sadd(n1.0, n2.0), x, sadd(dl(m1.0), dl(m2.0)));
    }
    assert(dl(d) == sadd(dl(m1.0), dl(m2.0)));
}

// ---- C04: commitments -------------------------------------------------------------------------------------------------------
//@ C04: a commitment opens to what was committed to
pub fn client_commit(v: &RistrettoPoint, n: &Ephemeral, b: &RistrettoPoint) {
    let c = pedersen::Commitment::to(v, n, b);
    let r = c.open(v, n, b);
    assert(r is Ok);
}
//@ C04: with the same opening it opens to nothing else
pub fn client_commit_other(v: &RistrettoPoint, w: &RistrettoPoint, n: &Ephemeral, b: &RistrettoPoint)
    requires *v != *w
{
    let c = pedersen::Commitment::to(v, n, b);
    let r = c.open(w, n, b);
    proof {
        if r is Ok { lem_add_cancel(dl(*v), dl(*w), smul(n.0, dl(*b))); assert(pt(dl(*v)) == pt(dl(*w))); }
    }
    assert(r is Err);
}
//@ C04: with another opening and the same value it does not open
pub fn client_commit_other_nonce(v: &RistrettoPoint, n: &Ephemeral, o: &Ephemeral, b: &RistrettoPoint)
    requires n.0 != o.0, *b != ident()
{
    let c = pedersen::Commitment::to(v, n, b);
    let r = c.open(v, o, b);
    proof {
        if r is Ok {
            ax_add_comm(dl(*v), smul(n.0, dl(*b))); ax_add_comm(dl(*v), smul(o.0, dl(*b)));
            lem_add_cancel(smul(n.0, dl(*b)), smul(o.0, dl(*b)), dl(*v));
            lem_dl_ident(*b);
            lem_mul_cancel(n.0, o.0, dl(*b));
        }
    }
    assert(r is Err);
}

// ---- C05: issuance --------------------------------------------------------------------------------------------------------
pub proof fn lem_issued_accepted(is: Issuer, u: User, attrs: Seq<Scalar>, i: CredentialIssuance, x0t: Scalar)
    requires issued(is, attrs, i, x0t), attrs.len() == 1, is.keypair.secret.xn@.len() == 1,
        keypair_ok(is.keypair, is.system_parameters.h), u.system_parameters == is.system_parameters, u.issuer_parameters == is.keypair.public
    ensures issuance_accepted(u, i)
{
    let k = is.keypair.secret;
    let p = dl(i.credential.mac.nonce);
    lem_dot1(k.xn@, attrs);
    let mx = smul(attrs[0], k.xn@[0]);
    ax_mul_comm(attrs[0], k.xn@[0]);
    assert(smul(mac_exp(k, attrs), p) == sadd(smul(k.x0, p), smul(mx, p))) by { broadcast use ax_mul_comm; ax_dist(p, k.x0, mx); }
    assert(dl(is.keypair.public.Xn@[0]) == smul(k.xn@[0], dl(is.system_parameters.h)));
    lem_issuance_revealed_complete(i.proof, t_issuance(), k.x0, k.xn@[0], x0t, mx,
        i.credential.mac.nonce, i.credential.mac.mac, i.secret_key_commitment.0, is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn@[0]);
}
//@ C05: what an issuer issues, the user accepts, whatever the attribute, the parameters and the random numbers
pub fn client_issuance<R: RngCore + CryptoRng>(sp: SystemParameters, key: Option<elgamal::Keypair>, attrs: Vec<Scalar>, rng: &mut R) -> (u: User)
    requires attrs@.len() == 1
    ensures u.credential is Some && u.credential->0.attributes@ == attrs@
{
    let is = Issuer::create(sp, rng);
    let ip = is.get_issuer_parameters();
    let mut u = User::new(sp, ip, key);
    let req = u.obtain(attrs);
    let ghost r0 = rng.rng();
    let i = is.issue(&req, rng);
    assert(i is Ok);
    match i {
        Ok(i) => {
            proof {
                let (src, a, b) = choose|src: int, a: int, b: int| #![trigger draw_s(src, a), draw_s(src, b)]
                    a != b && dl(i.credential.mac.nonce) == draw_s(src, a) && from_rng(src, r0) && issued(is, attrs@, i, draw_s(src, b));
                lem_issued_accepted(is, u, attrs@, i, draw_s(src, b));
            }
            let r = u.obtain_finish(Some(&i));
            assert(r is Ok);
            // and the issuer's key verifies the MAC
            let m = amacs::Message::from(i.credential.attributes.vclone());
            let v = is.keypair.secret.verify(&i.credential.mac, &m);
            assert(i.credential.mac.nonce != ident() ==> v is Ok);
        }
        Err(_) => {}
    }
    u
}
//@ C05 C19: what Signal's issuer issues for a phone number, its user accepts
pub fn client_signal_issuance<R: RngCore + CryptoRng>(sp: SystemParameters, number: &[u8], rng: &mut R)
    requires number@.len() <= 26
{
    let is = SignalIssuer::create(sp, rng);
    let ip = is.get_issuer_parameters();
    match SignalUser::new(sp, ip, None, number) {
        Ok(u) => {
            let mut u = u;
            let ghost r0 = rng.rng();
            let i = is.issue(number, rng);
            assert(i is Ok);
            match i {
                Ok(i) => {
                    proof {
                        let at = seq![phone_of(number@)];
                        let (src, a, b) = choose|src: int, a: int, b: int| #![trigger draw_s(src, a), draw_s(src, b)]
                            a != b && dl(i.credential.mac.nonce) == draw_s(src, a) && from_rng(src, r0) && issued(is.issuer, at, i, draw_s(src, b));
                        lem_issued_accepted(is.issuer, u.user, at, i, draw_s(src, b));
                    }
                    let r = u.obtain_finish(Some(&i));
                    assert(r is Ok);
                    assert(u.user.credential->0.attributes@ =~= seq![phone_of(number@)]);
                }
                Err(_) => {}
            }
        }
        Err(_) => { assert(false); }
    }
}

// ---- C06: what a user accepts ------------------------------------------------------------------------------------------------
//@ C06: a user keeps what it has when it refuses an issuance, and takes nothing but the credential of one it accepts
pub fn client_refuse(u: &mut User, i: Option<&CredentialIssuance>) {
    let ghost before = *u;
    let r = u.obtain_finish(i);
    assert(r is Err ==> *u == before);
    assert(r is Ok ==> u.system_parameters == before.system_parameters && u.issuer_parameters == before.issuer_parameters && u.key == before.key);
    assert(r is Ok ==> u.credential == Some(i->0.credential));
}
//@ C06: an issuance the user accepts twice for the same commitments proves that its MAC was made with the key committed to
pub proof fn lem_issuance_sound(p: issuance_revealed::Proof, q: issuance_revealed::Proof, P: RistrettoPoint, Q: RistrettoPoint, C: RistrettoPoint, g: RistrettoPoint, h: RistrettoPoint, X1: RistrettoPoint) -> (s: (Scalar, Scalar, Scalar, Scalar))
    requires p.challenge != q.challenge,
        issuance_revealed_k_Q(p, P, Q, C, g, h, X1) == issuance_revealed_k_Q(q, P, Q, C, g, h, X1),
        issuance_revealed_k_Cx0(p, P, Q, C, g, h, X1) == issuance_revealed_k_Cx0(q, P, Q, C, g, h, X1),
        issuance_revealed_k_X1(p, P, Q, C, g, h, X1) == issuance_revealed_k_X1(q, P, Q, C, g, h, X1),
    ensures issuance_revealed_holds(s.0, s.1, s.2, s.3, P, Q, C, g, h, X1)
{ lem_issuance_revealed_sound(p, q, P, Q, C, g, h, X1) }

// ---- C07: presentation ------------------------------------------------------------------------------------------------------
pub proof fn lem_shown_accepted(is: Issuer, u: User, z0: Scalar, p: CredentialPresentation, z: Scalar, zq: Scalar)
    requires shown(u, z0, p, z, zq), u.credential is Some, u.credential->0.attributes@.len() == 1,
        mac_ok(is.keypair.secret, u.credential->0.mac, u.credential->0.attributes@),
        is.keypair.secret.xn@.len() == 1, keypair_ok(is.keypair, is.system_parameters.h),
        u.system_parameters == is.system_parameters, u.issuer_parameters == is.keypair.public,
        z != s0(),
    ensures presentation_accepted(is, p), dl(p.rerandomized_nonce) != s0()
{
    let c = u.credential->0;
    let k = is.keypair.secret;
    let h = dl(is.system_parameters.h);
    let pp = dl(p.rerandomized_nonce);
    let m = c.attributes@[0];
    let x1 = k.xn@[0];
    lem_dl_ident(c.mac.nonce); lem_dl_ident(p.rerandomized_nonce);
    lem_nonzero(z, dl(c.mac.nonce));
    lem_dot1(k.xn@, c.attributes@);
    // Q = z Q' = (x0 + x1 m) P
    let q = smul(z, dl(c.mac.mac));
    assert(q == smul(mac_exp(k, c.attributes@), pp)) by { broadcast use ac; }
    assert(q == sadd(smul(k.x0, pp), smul(smul(x1, m), pp))) by { broadcast use ax_mul_comm; ax_dist(pp, k.x0, smul(x1, m)); }
    let xx = dl(is.keypair.public.Xn@[0]);
    assert(xx == smul(x1, h));
    let v = ssub(smul(z0, xx), smul(zq, h));
    let cm = sadd(smul(m, pp), smul(z0, h));
    assert(dl(p.attributes_blinded@[0].0) == cm);
    lem_v(k.x0, x1, m, z0, zq, pp, h, q);
    assert(v_issuer(is, p) == v_user(u, z0, zq));
    assert(dl(v_user(u, z0, zq)) == sadd(smul(z0, xx), smul(sneg(zq), h))) by { lem_mul_neg(zq, h); }
    lem_valid_credential_complete(p.proof, t_show(), m, z0, sneg(zq), is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn@[0],
        p.rerandomized_nonce, v_user(u, z0, zq), p.attributes_blinded@[0].0);
}
/// x0 P + x1 (mP + z0 H) - (Q + zq H) = z0 (x1 H) - zq H  where  Q = x0 P + x1 m P
pub proof fn lem_v(x0: Scalar, x1: Scalar, m: Scalar, z0: Scalar, zq: Scalar, p: Scalar, h: Scalar, q: Scalar)
    requires q == sadd(smul(x0, p), smul(smul(x1, m), p))
    ensures ssub(sadd(smul(x0, p), smul(x1, sadd(smul(m, p), smul(z0, h)))), sadd(q, smul(zq, h))) == ssub(smul(z0, smul(x1, h)), smul(zq, h))
{
    ax_dist(x1, smul(m, p), smul(z0, h));
    ax_mul_assoc(x1, m, p);
    let w = smul(z0, smul(x1, h));
    assert(smul(x1, smul(z0, h)) == w) by { broadcast use {ax_mul_comm, ax_mul_assoc}; }
    ax_add_assoc(smul(x0, p), smul(smul(x1, m), p), w);
    // (q + w) - (q + y) = w - y
    let y = smul(zq, h);
    lem_neg_add(q, y);
    assert(sadd(sadd(q, w), sadd(sneg(q), sneg(y))) == sadd(w, sneg(y))) by {
        ax_add_comm(q, w); ax_add_assoc(w, q, sadd(sneg(q), sneg(y))); ax_add_assoc(q, sneg(q), sneg(y)); ax_neg(q); ax_add_zero(sneg(y));
    }
}
//@ C07: a presentation of a credential its issuer made is accepted, unless a factor drawn is zero
pub fn client_presentation<R: RngCore + CryptoRng>(is: &Issuer, u: &User, rng: &mut R)
    requires is.keypair.secret.xn@.len() == 1, keypair_ok(is.keypair, is.system_parameters.h),
        u.system_parameters == is.system_parameters, u.issuer_parameters == is.keypair.public,
        u.credential is Some, u.credential->0.attributes@.len() == 1, mac_ok(is.keypair.secret, u.credential->0.mac, u.credential->0.attributes@)
{
    let n = Nonces::new(rng, 1);
    let ghost r0 = rng.rng();
    let p = u.show(&n, rng);
    assert(p is Ok);
    match p {
        Ok(p) => {
            let r = is.verify(&p);
            proof {
                let (src, a, b) = choose|src: int, a: int, b: int| #![trigger draw_s(src, a), draw_s(src, b)]
                    a != b && from_rng(src, r0) && shown(*u, n.0@[0].0, p, draw_s(src, a), draw_s(src, b));
                let z = draw_s(src, a);
                if z != s0() { lem_shown_accepted(*is, *u, n.0@[0].0, p, z, draw_s(src, b)); assert(r is Ok); }
                else { lem_mul_zero(dl(u.credential->0.mac.nonce)); lem_dl_ident(p.rerandomized_nonce); assert(p.rerandomized_nonce == ident()); }
            }
            assert(p.rerandomized_nonce != ident() ==> r is Ok && r->Ok_0.0 == p);
        }
        Err(_) => {}
    }
}

// ---- C08: soundness -----------------------------------------------------------------------------------------------------------
//@ C08: from two accepting answers to different challenges, a MAC of the issuer's key on the attribute committed to can be computed
pub proof fn lem_presentation_sound(is: Issuer, p: CredentialPresentation, q: CredentialPresentation) -> (r: (Scalar, Scalar, amacs::Tag))
    requires presentation_accepted(is, p), presentation_accepted(is, q),
        keypair_ok(is.keypair, is.system_parameters.h),
        p.rerandomized_nonce == q.rerandomized_nonce, p.rerandomized_mac_commitment == q.rerandomized_mac_commitment, p.attributes_blinded@ == q.attributes_blinded@,
        p.proof.challenge != q.proof.challenge,
        valid_credential_k_Cm0(p.proof, is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn@[0], p.rerandomized_nonce, v_issuer(is, p), p.attributes_blinded@[0].0)
            == valid_credential_k_Cm0(q.proof, is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn@[0], p.rerandomized_nonce, v_issuer(is, p), p.attributes_blinded@[0].0),
        valid_credential_k_V(p.proof, is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn@[0], p.rerandomized_nonce, v_issuer(is, p), p.attributes_blinded@[0].0)
            == valid_credential_k_V(q.proof, is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn@[0], p.rerandomized_nonce, v_issuer(is, p), p.attributes_blinded@[0].0),
    ensures mac_ok(is.keypair.secret, r.2, seq![r.0]), r.2.nonce == p.rerandomized_nonce,
        com_is(p.attributes_blinded@[0], pt(smul(r.0, dl(p.rerandomized_nonce))), r.1, is.system_parameters.h),
{
    let s = lem_valid_credential_sound(p.proof, q.proof, is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn@[0], p.rerandomized_nonce, v_issuer(is, p), p.attributes_blinded@[0].0);
    lem_mac_of(is, p, s.0, s.1, s.2);
    (s.0, s.1, amacs::Tag { nonce: p.rerandomized_nonce, mac: pt(sadd(dl(p.rerandomized_mac_commitment.0), smul(s.2, dl(is.system_parameters.h)))) })
}
//@ C08: the statement of an accepted presentation holds only for a MAC of the issuer's key
pub proof fn lem_mac_of(is: Issuer, p: CredentialPresentation, m: Scalar, z0: Scalar, mzq: Scalar)
    requires wf_pres(p), p.rerandomized_nonce != ident(), keypair_ok(is.keypair, is.system_parameters.h), is.keypair.secret.xn@.len() == 1,
        valid_credential_holds(m, z0, mzq, is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn@[0], p.rerandomized_nonce, v_issuer(is, p), p.attributes_blinded@[0].0),
    ensures mac_ok(is.keypair.secret, amacs::Tag { nonce: p.rerandomized_nonce, mac: pt(sadd(dl(p.rerandomized_mac_commitment.0), smul(mzq, dl(is.system_parameters.h)))) }, seq![m])
{
    let k = is.keypair.secret;
    let x1 = k.xn@[0];
    let h = dl(is.system_parameters.h);
    let pp = dl(p.rerandomized_nonce);
    let cq = dl(p.rerandomized_mac_commitment.0);
    assert(dl(is.keypair.public.Xn@[0]) == smul(x1, h));
    let w = smul(z0, smul(x1, h));
    let t = smul(mzq, h);
    // x0 P + x1 (m P + z0 H) - cq = w + t
    let q = sadd(smul(k.x0, pp), smul(smul(x1, m), pp));
    let lhs = sadd(smul(k.x0, pp), smul(x1, sadd(smul(m, pp), smul(z0, h))));
    assert(lhs == sadd(q, w)) by {
        ax_dist(x1, smul(m, pp), smul(z0, h)); ax_mul_assoc(x1, m, pp);
        assert(smul(x1, smul(z0, h)) == w) by { broadcast use {ax_mul_comm, ax_mul_assoc}; }
        ax_add_assoc(smul(k.x0, pp), smul(smul(x1, m), pp), w);
    }
    assert(ssub(lhs, cq) == sadd(w, t));
    assert(lhs == sadd(sadd(w, t), cq)) by { lem_cancel2(lhs, cq); }
    assert(sadd(q, w) == sadd(sadd(cq, t), w)) by { broadcast use {ax_add_comm, ax_add_assoc}; }
    lem_add_cancel(q, sadd(cq, t), w);
    lem_dot1(k.xn@, seq![m]);
    assert(smul(mac_exp(k, seq![m]), pp) == q) by { broadcast use ax_mul_comm; ax_dist(pp, k.x0, smul(x1, m)); }
}

// ---- C10, C11: roster membership ------------------------------------------------------------------------------------------------
//@ C10: from two accepting answers to different challenges, an opening of the roster entry to the attribute of the credential can be computed
pub proof fn lem_roster_sound(is: Issuer, p: SignalCredentialPresentation, q: SignalCredentialPresentation) -> (r: (Scalar, Scalar, Scalar))
    requires roster_accepted(is, p), roster_accepted(is, q),
        p.presentation.rerandomized_nonce == q.presentation.rerandomized_nonce, p.presentation.attributes_blinded@ == q.presentation.attributes_blinded@,
        p.roster_entry_commitment == q.roster_entry_commitment,
        p.roster_membership_proof.challenge != q.roster_membership_proof.challenge,
        committed_values_equal_k_Cm0(p.roster_membership_proof, is.system_parameters.g, is.system_parameters.h, p.presentation.rerandomized_nonce, p.presentation.attributes_blinded@[0].0, p.roster_entry_commitment.0.0)
            == committed_values_equal_k_Cm0(q.roster_membership_proof, is.system_parameters.g, is.system_parameters.h, p.presentation.rerandomized_nonce, p.presentation.attributes_blinded@[0].0, p.roster_entry_commitment.0.0),
        committed_values_equal_k_Cm1(p.roster_membership_proof, is.system_parameters.g, is.system_parameters.h, p.presentation.rerandomized_nonce, p.presentation.attributes_blinded@[0].0, p.roster_entry_commitment.0.0)
            == committed_values_equal_k_Cm1(q.roster_membership_proof, is.system_parameters.g, is.system_parameters.h, p.presentation.rerandomized_nonce, p.presentation.attributes_blinded@[0].0, p.roster_entry_commitment.0.0),
    ensures com_is(p.presentation.attributes_blinded@[0], pt(smul(r.0, dl(p.presentation.rerandomized_nonce))), r.1, is.system_parameters.h),
        entry_is(p.roster_entry_commitment, r.0, r.2, is.system_parameters.g, is.system_parameters.h),
{
    lem_committed_values_equal_sound(p.roster_membership_proof, q.roster_membership_proof, is.system_parameters.g, is.system_parameters.h,
        p.presentation.rerandomized_nonce, p.presentation.attributes_blinded@[0].0, p.roster_entry_commitment.0.0)
}
//@ C10: a commitment to an attribute and a roster entry which both open to one number name the same number: two openings of the commitment give the logarithm of the basepoint
pub proof fn lem_roster_binding(c: pedersen::Commitment, p: RistrettoPoint, h: RistrettoPoint, m: Scalar, z: Scalar, n: Scalar)
    requires com_is(c, pt(smul(m, dl(p))), z, h), com_is(c, pt(smul(n, dl(p))), z, h), p != ident()
    ensures m == n
{
    lem_add_cancel(smul(m, dl(p)), smul(n, dl(p)), smul(z, dl(h)));
    lem_dl_ident(p);
    lem_mul_cancel(m, n, dl(p));
}
//@ C11 C07: a user with a credential and a roster entry for the same number is accepted, and the roster entry is what is returned
pub fn client_roster<R: RngCore + CryptoRng>(is: &SignalIssuer, u: &SignalUser, number: &[u8], rng: &mut R)
    requires is.issuer.keypair.secret.xn@.len() == 1, keypair_ok(is.issuer.keypair, is.issuer.system_parameters.h),
        u.user.system_parameters == is.issuer.system_parameters, u.user.issuer_parameters == is.issuer.keypair.public,
        u.user.credential is Some, mac_ok(is.issuer.keypair.secret, u.user.credential->0.mac, u.user.credential->0.attributes@),
        u.user.credential->0.attributes@ == seq![phone_of(number@)], number@.len() <= 26
{
    match RosterEntryCommitment::create(number, &is.issuer.system_parameters, rng) {
        Ok(e) => {
            let ghost r0 = rng.rng();
            let p = u.show(rng, &e);
            assert(p is Ok);
            match p {
                Ok(p) => {
                    let ghost p0 = p;
                    let v = is.verify(p);
                    proof {
                        let j = choose|i: int| i >= r0.pos && sshown(u.user, e, #[trigger] draw_s(r0.src, i), p0, r0);
                        let z0 = draw_s(r0.src, j);
                        let (src, a, b) = choose|src: int, a: int, b: int| #![trigger draw_s(src, a), draw_s(src, b)]
                            a != b && from_rng(src, r0) && shown(u.user, z0, p0.presentation, draw_s(src, a), draw_s(src, b));
                        let z = draw_s(src, a);
                        if z != s0() { lem_shown_accepted(is.issuer, u.user, z0, p0.presentation, z, draw_s(src, b)); assert(v is Ok); }
                        else { lem_mul_zero(dl(u.user.credential->0.mac.nonce)); lem_dl_ident(p0.presentation.rerandomized_nonce); assert(p0.presentation.rerandomized_nonce == ident()); }
                        lem_committed_values_equal_complete(p0.roster_membership_proof, t_roster(), phone_of(number@), z0, e.opening.0,
                            is.issuer.system_parameters.g, is.issuer.system_parameters.h, p0.presentation.rerandomized_nonce, p0.presentation.attributes_blinded@[0].0, e.commitment.0.0);
                    }
                    assert(p0.presentation.rerandomized_nonce != ident() ==> v is Ok);
                    match v {
                        Ok(v) => {
                            let m = is.verify_roster_membership(&v);
                            assert(m matches Ok(x) && x == e.commitment);
                        }
                        Err(_) => {}
                    }
                }
                Err(_) => {}
            }
        }
        Err(_) => { assert(false); }
    }
}

// ---- C16: what is encoded is decoded ----------------------------------------------------------------------------------------------
pub proof fn lem_enc_s_inj(a: Scalar, b: Scalar) requires enc_s(a) == enc_s(b) ensures a == b { assert(dec_s(enc_s(a)) == dec_s(enc_s(b))); }
pub proof fn lem_enc_p_inj(a: RistrettoPoint, b: RistrettoPoint) requires enc_p(a) == enc_p(b) ensures a == b { assert(dec_p(enc_p(a)) == dec_p(enc_p(b))); }
pub proof fn lem_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    requires a + b == c + d, a.len() == c.len()
    ensures a == c, b == d
{
    let x = a + b; let y = c + d;
    assert(a =~= x.subrange(0, a.len() as int)); assert(c =~= y.subrange(0, c.len() as int));
    assert(b =~= x.subrange(a.len() as int, x.len() as int)); assert(d =~= y.subrange(c.len() as int, y.len() as int));
}
pub proof fn lem_enc_ss_inj(a: Seq<Scalar>, b: Seq<Scalar>)
    requires enc_ss(a) == enc_ss(b)
    ensures a == b
    decreases a.len()
{
    assert(enc_ss(a).len() == 32 * a.len() && enc_ss(b).len() == 32 * b.len());
    if a.len() > 0 {
        lem_cat(enc_ss(a.drop_last()), enc_s(a.last()), enc_ss(b.drop_last()), enc_s(b.last()));
        lem_enc_ss_inj(a.drop_last(), b.drop_last());
        lem_enc_s_inj(a.last(), b.last());
        assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
pub proof fn lem_enc_ps_inj(a: Seq<RistrettoPoint>, b: Seq<RistrettoPoint>)
    requires enc_ps(a) == enc_ps(b)
    ensures a == b
    decreases a.len()
{
    assert(enc_ps(a).len() == 32 * a.len() && enc_ps(b).len() == 32 * b.len());
    if a.len() > 0 {
        lem_cat(enc_ps(a.drop_last()), enc_p(a.last()), enc_ps(b.drop_last()), enc_p(b.last()));
        lem_enc_ps_inj(a.drop_last(), b.drop_last());
        lem_enc_p_inj(a.last(), b.last());
        assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
pub proof fn lem_tag_inj(a: amacs::Tag, b: amacs::Tag) requires enc_tag(a) == enc_tag(b) ensures a == b
{ lem_cat(enc_p(a.nonce), enc_p(a.mac), enc_p(b.nonce), enc_p(b.mac)); lem_enc_p_inj(a.nonce, b.nonce); lem_enc_p_inj(a.mac, b.mac); }
pub proof fn lem_mpk_inj(a: amacs::PublicKey, b: amacs::PublicKey) requires enc_mpk(a) == enc_mpk(b) ensures a == b
{ lem_enc_ps_inj(a.Xn@, b.Xn@); ax_vec_ext(a.Xn, b.Xn); }
pub proof fn lem_msk_inj(a: amacs::SecretKey, b: amacs::SecretKey) requires enc_msk(a) == enc_msk(b) ensures a == b
{ lem_cat(enc_s(a.x0), enc_ss(a.xn@), enc_s(b.x0), enc_ss(b.xn@)); lem_enc_s_inj(a.x0, b.x0); lem_enc_ss_inj(a.xn@, b.xn@); ax_vec_ext(a.xn, b.xn); }
pub proof fn lem_mkp_inj(a: amacs::Keypair, b: amacs::Keypair) requires enc_mkp(a) == enc_mkp(b), wf_mkp(a), wf_mkp(b) ensures a == b
{
    assert(enc_mkp(a).len() == 64 * a.public.Xn@.len() + 32); assert(enc_mkp(b).len() == 64 * b.public.Xn@.len() + 32);
    lem_cat(enc_mpk(a.public), enc_msk(a.secret), enc_mpk(b.public), enc_msk(b.secret)); lem_mpk_inj(a.public, b.public); lem_msk_inj(a.secret, b.secret);
}
pub proof fn lem_ekp_inj(a: elgamal::Keypair, b: elgamal::Keypair) requires enc_ekp(a) == enc_ekp(b) ensures a == b
{ lem_cat(enc_esk(a.secret), enc_epk(a.public), enc_esk(b.secret), enc_epk(b.public)); lem_enc_s_inj(a.secret.0, b.secret.0); lem_enc_p_inj(a.public.0, b.public.0); }
pub proof fn lem_sp_inj(a: SystemParameters, b: SystemParameters) requires enc_sp(a) == enc_sp(b) ensures a == b
{ lem_cat(enc_p(a.g), enc_p(a.h), enc_p(b.g), enc_p(b.h)); lem_enc_p_inj(a.g, b.g); lem_enc_p_inj(a.h, b.h); }
pub proof fn lem_cred_inj(a: Credential, b: Credential) requires enc_cred(a) == enc_cred(b) ensures a == b
{ lem_cat(enc_tag(a.mac), enc_ss(a.attributes@), enc_tag(b.mac), enc_ss(b.attributes@)); lem_tag_inj(a.mac, b.mac); lem_enc_ss_inj(a.attributes@, b.attributes@); ax_vec_ext(a.attributes, b.attributes); }
pub proof fn lem_iss_inj(a: CredentialIssuance, b: CredentialIssuance) requires enc_iss(a) == enc_iss(b) ensures a == b
{
    broadcast use wires;
    assert(enc_iss(a).len() == 96 + enc_ss(a.credential.attributes@).len() + a.proof.wire().len());
    assert(enc_iss(b).len() == 96 + enc_ss(b.credential.attributes@).len() + b.proof.wire().len());
    assert(a.proof.wire().len() == b.proof.wire().len());
    lem_cat(enc_com(a.secret_key_commitment) + enc_cred(a.credential), a.proof.wire(), enc_com(b.secret_key_commitment) + enc_cred(b.credential), b.proof.wire());
    lem_cat(enc_com(a.secret_key_commitment), enc_cred(a.credential), enc_com(b.secret_key_commitment), enc_cred(b.credential));
    lem_enc_p_inj(a.secret_key_commitment.0, b.secret_key_commitment.0); lem_cred_inj(a.credential, b.credential); lem_issuance_revealed_wire_inj(a.proof, b.proof);
}
pub proof fn lem_coms1(a: Seq<pedersen::Commitment>)
    requires a.len() == 1
    ensures enc_coms(a) == enc_com(a[0])
{ assert(a.drop_last().len() == 0); assert(enc_coms(a.drop_last()) =~= Seq::empty()); assert(enc_coms(a) =~= enc_com(a[0])); }
pub proof fn lem_pres_inj(a: CredentialPresentation, b: CredentialPresentation) requires enc_pres(a) == enc_pres(b), wf_pres(a), wf_pres(b) ensures a == b
{
    broadcast use wires;
    lem_coms1(a.attributes_blinded@); lem_coms1(b.attributes_blinded@);
    let (ea, eb) = (enc_pres(a), enc_pres(b));
    assert(enc_ss(a.attributes_revealed@).len() == 0 && enc_ss(b.attributes_revealed@).len() == 0);
    assert(enc_com(a.rerandomized_mac_commitment) =~= part(ea, 0, 32)); assert(enc_com(b.rerandomized_mac_commitment) =~= part(eb, 0, 32));
    assert(enc_p(a.rerandomized_nonce) =~= part(ea, 32, 64)); assert(enc_p(b.rerandomized_nonce) =~= part(eb, 32, 64));
    assert(enc_com(a.attributes_blinded@[0]) =~= part(ea, 64, 96)); assert(enc_com(b.attributes_blinded@[0]) =~= part(eb, 64, 96));
    assert(a.proof.wire() =~= rest(ea, 96)); assert(b.proof.wire() =~= rest(eb, 96));
    lem_enc_p_inj(a.rerandomized_mac_commitment.0, b.rerandomized_mac_commitment.0);
    lem_enc_p_inj(a.rerandomized_nonce, b.rerandomized_nonce);
    lem_enc_p_inj(a.attributes_blinded@[0].0, b.attributes_blinded@[0].0);
    lem_valid_credential_wire_inj(a.proof, b.proof);
    ax_vec_ext(a.attributes_revealed, b.attributes_revealed); ax_vec_ext(a.attributes_blinded, b.attributes_blinded);
}
pub proof fn lem_pres_len(a: CredentialPresentation) requires wf_pres(a) ensures enc_pres(a).len() == 256
{ broadcast use wires; lem_coms1(a.attributes_blinded@); assert(enc_ss(a.attributes_revealed@).len() == 0); }
pub proof fn lem_spres_inj(a: SignalCredentialPresentation, b: SignalCredentialPresentation)
    requires enc_spres(a) == enc_spres(b), wf_pres(a.presentation), wf_pres(b.presentation)
    ensures a == b
{
    broadcast use wires;
    lem_pres_len(a.presentation); lem_pres_len(b.presentation);
    lem_cat(enc_com(a.roster_entry_commitment.0) + enc_pres(a.presentation), a.roster_membership_proof.wire(), enc_com(b.roster_entry_commitment.0) + enc_pres(b.presentation), b.roster_membership_proof.wire());
    lem_cat(enc_com(a.roster_entry_commitment.0), enc_pres(a.presentation), enc_com(b.roster_entry_commitment.0), enc_pres(b.presentation));
    lem_enc_p_inj(a.roster_entry_commitment.0.0, b.roster_entry_commitment.0.0); lem_pres_inj(a.presentation, b.presentation);
    lem_committed_values_equal_wire_inj(a.roster_membership_proof, b.roster_membership_proof);
}
pub proof fn lem_issuer_inj(a: Issuer, b: Issuer) requires enc_issuer(a) == enc_issuer(b), wf_mkp(a.keypair), wf_mkp(b.keypair) ensures a == b
{
    lem_cat(enc_sp(a.system_parameters), enc_mkp(a.keypair), enc_sp(b.system_parameters), enc_mkp(b.keypair));
    lem_sp_inj(a.system_parameters, b.system_parameters); lem_mkp_inj(a.keypair, b.keypair);
}
pub proof fn lem_user_inj(a: User, b: User) requires enc_user(a) == enc_user(b), wf_user(a), wf_user(b) ensures a == b
{
    let (ea, eb) = (enc_user(a), enc_user(b));
    assert(enc_sp(a.system_parameters) =~= part(ea, 0, 64)); assert(enc_sp(b.system_parameters) =~= part(eb, 0, 64));
    assert(enc_mpk(a.issuer_parameters) =~= part(ea, 64, 96)); assert(enc_mpk(b.issuer_parameters) =~= part(eb, 64, 96));
    assert(enc_key(a.key) =~= part(ea, 96, 160)); assert(enc_key(b.key) =~= part(eb, 96, 160));
    assert(enc_ocred(a.credential) =~= part(ea, 160, 256)); assert(enc_ocred(b.credential) =~= part(eb, 160, 256));
    lem_sp_inj(a.system_parameters, b.system_parameters); lem_mpk_inj(a.issuer_parameters, b.issuer_parameters);
    if a.key is Some && b.key is Some { lem_ekp_inj(a.key->0, b.key->0); }
    if a.credential is Some && b.credential is Some { lem_cred_inj(a.credential->0, b.credential->0); }
}
pub proof fn lem_roster_inj(a: RosterEntryCommitment, b: RosterEntryCommitment) requires enc_roster(a) == enc_roster(b) ensures a == b
{ lem_cat(enc_com(a.commitment.0), enc_s(a.opening.0), enc_com(b.commitment.0), enc_s(b.opening.0)); lem_enc_p_inj(a.commitment.0.0, b.commitment.0.0); lem_enc_s_inj(a.opening.0, b.opening.0); }
pub proof fn lem_all_s(x: Seq<Scalar>)
    ensures all_s(enc_ss(x)), forall|j: int| 0 <= j < x.len() ==> #[trigger] piece(enc_ss(x), j) == enc_s(x[j])
    decreases x.len()
{
    let b = enc_ss(x);
    if x.len() > 0 {
        let y = x.drop_last();
        lem_all_s(y);
        assert(b == enc_ss(y) + enc_s(x.last()));
        assert forall|j: int| 0 <= j < x.len() implies #[trigger] piece(b, j) == enc_s(x[j]) by {
            if j < y.len() { assert(piece(b, j) =~= piece(enc_ss(y), j)); } else { assert(piece(b, j) =~= enc_s(x.last())); }
        }
    }
    assert forall|j: int| 0 <= 32 * j < b.len() implies ok_s(#[trigger] piece(b, j)) by { assert(piece(b, j) == enc_s(x[j])); }
}
pub proof fn lem_all_p(x: Seq<RistrettoPoint>)
    ensures all_p(enc_ps(x)), forall|j: int| 0 <= j < x.len() ==> #[trigger] piece(enc_ps(x), j) == enc_p(x[j])
    decreases x.len()
{
    let b = enc_ps(x);
    if x.len() > 0 {
        let y = x.drop_last();
        lem_all_p(y);
        assert(b == enc_ps(y) + enc_p(x.last()));
        assert forall|j: int| 0 <= j < x.len() implies #[trigger] piece(b, j) == enc_p(x[j]) by {
            if j < y.len() { assert(piece(b, j) =~= piece(enc_ps(y), j)); } else { assert(piece(b, j) =~= enc_p(x.last())); }
        }
    }
    assert forall|j: int| 0 <= 32 * j < b.len() implies ok_p(#[trigger] piece(b, j)) by { assert(piece(b, j) == enc_p(x[j])); }
}
pub proof fn lem_ss1(x: Seq<Scalar>) requires x.len() == 1 ensures enc_ss(x) == enc_s(x[0])
{ assert(x.drop_last().len() == 0); assert(enc_ss(x.drop_last()) =~= Seq::empty()); assert(enc_ss(x) =~= enc_s(x[0])); }
pub proof fn lem_ps1(x: Seq<RistrettoPoint>) requires x.len() == 1 ensures enc_ps(x) == enc_p(x[0])
{ assert(x.drop_last().len() == 0); assert(enc_ps(x.drop_last()) =~= Seq::empty()); assert(enc_ps(x) =~= enc_p(x[0])); }
pub proof fn lem_okb_msk(k: amacs::SecretKey) ensures okb_msk(enc_msk(k))
{
    let x = seq![k.x0] + k.xn@;
    lem_all_s(x);
    lem_enc_ss_cons(k.x0, k.xn@);
    assert(enc_ss(x) == enc_msk(k));
}
pub proof fn lem_enc_ss_cons(s: Scalar, x: Seq<Scalar>) ensures enc_ss(seq![s] + x) == enc_s(s) + enc_ss(x)
    decreases x.len()
{
    if x.len() == 0 { lem_ss1(seq![s] + x); assert(enc_s(s) + enc_ss(x) =~= enc_s(s)); }
    else {
        let y = seq![s] + x;
        assert(y.drop_last() =~= seq![s] + x.drop_last());
        lem_enc_ss_cons(s, x.drop_last());
        assert(y.last() == x.last());
        assert(enc_ss(y) == enc_ss(y.drop_last()) + enc_s(y.last()));
        assert(enc_ss(x) == enc_ss(x.drop_last()) + enc_s(x.last()));
        assert((enc_s(s) + enc_ss(x.drop_last())) + enc_s(x.last()) =~= enc_s(s) + (enc_ss(x.drop_last()) + enc_s(x.last())));
    }
}
pub proof fn lem_okb_mkp(k: amacs::Keypair) requires wf_mkp(k) ensures okb_mkp(enc_mkp(k))
{
    let b = enc_mkp(k);
    assert(b.len() == 64 * k.secret.xn@.len() + 32);
    assert(mkp_split(b.len() as int) == 32 * k.public.Xn@.len());
    assert(part(b, 0, mkp_split(b.len() as int)) =~= enc_mpk(k.public));
    assert(rest(b, mkp_split(b.len() as int)) =~= enc_msk(k.secret));
    lem_all_p(k.public.Xn@); lem_okb_msk(k.secret);
}
pub proof fn lem_okb_cred(c: Credential) requires c.attributes@.len() == 1 ensures okb_cred(enc_cred(c))
{
    let b = enc_cred(c);
    lem_ss1(c.attributes@);
    assert(part(b, 0, 64) =~= enc_tag(c.mac)); assert(part(b, 64, 96) =~= enc_s(c.attributes@[0]));
    lem_okb_tag(c.mac);
}
pub proof fn lem_okb_tag(t: amacs::Tag) ensures okb_tag(enc_tag(t))
{ let b = enc_tag(t); assert(part(b, 0, 32) =~= enc_p(t.nonce)); assert(part(b, 32, 64) =~= enc_p(t.mac)); }
pub proof fn lem_wire_self<T: Wire>(x: T) ensures wire_ok::<T>(x.wire())
{ assert(x.wire().subrange(0, x.wire().len() as int) =~= x.wire()); assert(is_prefix(x.wire(), x.wire())); }
pub proof fn lem_okb_pres(p: CredentialPresentation) requires wf_pres(p) ensures okb_pres(enc_pres(p))
{
    broadcast use wires;
    let b = enc_pres(p);
    lem_pres_len(p); lem_coms1(p.attributes_blinded@);
    assert(enc_ss(p.attributes_revealed@).len() == 0);
    assert(part(b, 0, 32) =~= enc_com(p.rerandomized_mac_commitment)); assert(part(b, 32, 64) =~= enc_p(p.rerandomized_nonce));
    assert(part(b, 64, 96) =~= enc_com(p.attributes_blinded@[0])); assert(rest(b, 96) =~= p.proof.wire());
    lem_wire_self(p.proof);
}
//@ C16: tags
pub fn client_rt_tag(x: &amacs::Tag) { let b = x.to_bytes(); proof { lem_okb_tag(*x); } let r = amacs::Tag::from_bytes(&b); proof { lem_tag_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C16 C23: public keys of the MAC
pub fn client_rt_mpk(x: &amacs::PublicKey) { let b = x.to_bytes(); proof { lem_all_p(x.Xn@); } let r = amacs::PublicKey::from_bytes(&b); proof { lem_mpk_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C16 C23: secret keys of the MAC
pub fn client_rt_msk(x: &amacs::SecretKey) { let b = x.to_bytes(); proof { lem_okb_msk(*x); } let r = amacs::SecretKey::from_bytes(&b); proof { lem_msk_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C16 C23: keypairs of the MAC
pub fn client_rt_mkp(x: &amacs::Keypair) requires wf_mkp(*x) { let b = x.to_bytes(); proof { lem_okb_mkp(*x); } let r = amacs::Keypair::from_bytes(&b); proof { lem_mkp_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C16: commitments
pub fn client_rt_com(x: &pedersen::Commitment) { let b = x.to_bytes(); let r = pedersen::Commitment::from_bytes(&b); proof { lem_enc_p_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C16: public keys for encryption
pub fn client_rt_epk(x: &elgamal::PublicKey) { let b = x.to_bytes(); let r = elgamal::PublicKey::from_bytes(&b); proof { lem_enc_p_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C16: secret keys for encryption
pub fn client_rt_esk(x: &elgamal::SecretKey) { let b = x.to_bytes(); let r = elgamal::SecretKey::from_bytes(&b); proof { lem_enc_s_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C16: keypairs for encryption
pub fn client_rt_ekp(x: &elgamal::Keypair) {
    let b = x.to_bytes();
    proof { assert(part(b@, 0, 32) =~= enc_esk(x.secret)); assert(part(b@, 32, 64) =~= enc_epk(x.public)); }
    let r = elgamal::Keypair::from_bytes(&b);
    proof { lem_ekp_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C16 C22: system parameters
pub fn client_rt_sp(x: &SystemParameters) {
    let b = x.to_bytes();
    proof { assert(part(b@, 0, 32) =~= enc_p(x.g)); assert(part(b@, 32, 64) =~= enc_p(x.h)); }
    let r = SystemParameters::from_bytes(&b);
    proof { lem_sp_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C16: credentials
pub fn client_rt_cred(x: &Credential) requires x.attributes@.len() == 1 { let b = x.to_bytes(); proof { lem_okb_cred(*x); } let r = Credential::from_bytes(&b); proof { lem_cred_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C16: requests
pub fn client_rt_req(x: &CredentialRequest) { let b = x.to_bytes(); proof { lem_all_s(x.attributes_revealed@); } let r = CredentialRequest::from_bytes(&b); proof { lem_enc_ss_inj(x.attributes_revealed@, r->Ok_0.attributes_revealed@); ax_vec_ext(x.attributes_revealed, r->Ok_0.attributes_revealed); } assert(r matches Ok(y) && y == *x); }
//@ C16: issuances
pub fn client_rt_iss(x: &CredentialIssuance) requires x.credential.attributes@.len() == 1 {
    broadcast use wires;
    let b = x.to_bytes();
    proof {
        lem_okb_cred(x.credential);
        assert(part(b@, 0, 32) =~= enc_com(x.secret_key_commitment)); assert(part(b@, 32, 128) =~= enc_cred(x.credential)); assert(rest(b@, 128) =~= x.proof.wire());
        lem_wire_self(x.proof);
    }
    let r = CredentialIssuance::from_bytes(&b);
    proof { lem_iss_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C16: presentations
pub fn client_rt_pres(x: &CredentialPresentation) requires wf_pres(*x) { let b = x.to_bytes(); proof { lem_okb_pres(*x); } let r = CredentialPresentation::from_bytes(&b); proof { lem_pres_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C16: verified credentials
pub fn client_rt_verified(x: &VerifiedCredential) requires wf_pres(x.0) { let b = x.to_bytes(); proof { lem_okb_pres(x.0); } let r = VerifiedCredential::from_bytes(&b); proof { lem_pres_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C16 C23: issuers
pub fn client_rt_issuer(x: &Issuer) requires wf_mkp(x.keypair), x.keypair.secret.xn@.len() >= 1 {
    let b = x.to_bytes();
    proof {
        lem_okb_mkp(x.keypair);
        assert(part(b@, 0, 64) =~= enc_sp(x.system_parameters)); assert(rest(b@, 64) =~= enc_mkp(x.keypair));
        assert(part(enc_sp(x.system_parameters), 0, 32) =~= enc_p(x.system_parameters.g)); assert(part(enc_sp(x.system_parameters), 32, 64) =~= enc_p(x.system_parameters.h));
    }
    let r = Issuer::from_bytes(&b);
    proof { lem_issuer_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C16 C23: Signal issuers
pub fn client_rt_sissuer(x: &SignalIssuer) requires wf_mkp(x.issuer.keypair), x.issuer.keypair.secret.xn@.len() >= 1 {
    let b = x.to_bytes();
    proof {
        let y = x.issuer;
        lem_okb_mkp(y.keypair);
        assert(part(b@, 0, 64) =~= enc_sp(y.system_parameters)); assert(rest(b@, 64) =~= enc_mkp(y.keypair));
        assert(part(enc_sp(y.system_parameters), 0, 32) =~= enc_p(y.system_parameters.g)); assert(part(enc_sp(y.system_parameters), 32, 64) =~= enc_p(y.system_parameters.h));
    }
    let r = SignalIssuer::from_bytes(&b);
    proof { lem_issuer_inj(x.issuer, r->Ok_0.issuer); }
    assert(r matches Ok(y) && y == *x);
}
pub proof fn lem_okb_user(x: User) requires wf_user(x) ensures okb_user(enc_user(x))
{
    let b = enc_user(x);
    assert(enc_mpk(x.issuer_parameters).len() == 32);
    lem_ps1(x.issuer_parameters.Xn@);
    assert(part(b, 0, 64) =~= enc_sp(x.system_parameters)); assert(part(b, 64, 96) =~= enc_mpk(x.issuer_parameters));
    assert(part(b, 96, 160) =~= enc_key(x.key)); assert(part(b, 160, 256) =~= enc_ocred(x.credential));
    assert(part(enc_sp(x.system_parameters), 0, 32) =~= enc_p(x.system_parameters.g)); assert(part(enc_sp(x.system_parameters), 32, 64) =~= enc_p(x.system_parameters.h));
    if x.key is Some { let k = x.key->0; assert(part(enc_ekp(k), 0, 32) =~= enc_esk(k.secret)); assert(part(enc_ekp(k), 32, 64) =~= enc_epk(k.public)); }
    if x.credential is Some { lem_okb_cred(x.credential->0); }
}
//@ C16: users
pub fn client_rt_user(x: &User) requires wf_user(*x) { let b = x.to_bytes(); proof { lem_okb_user(*x); } let r = User::from_bytes(&b); proof { lem_user_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C16 C19: phone numbers
pub fn client_rt_phone(x: &PhoneNumber) { let b = x.to_bytes(); let r = PhoneNumber::from_bytes(&b); proof { lem_enc_s_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C16 C20: committed phone numbers
pub fn client_rt_cpn(x: &CommittedPhoneNumber) { let b = x.to_bytes(); let r = CommittedPhoneNumber::from_bytes(&b); proof { lem_enc_p_inj(x.0.0, r->Ok_0.0.0); } assert(r matches Ok(y) && y == *x); }
//@ C16 C20: roster entries
pub fn client_rt_roster(x: &RosterEntryCommitment) {
    let b = x.to_bytes();
    proof { assert(part(b@, 0, 32) =~= enc_com(x.commitment.0)); assert(part(b@, 32, 64) =~= enc_s(x.opening.0)); }
    let r = RosterEntryCommitment::from_bytes(&b);
    proof { lem_roster_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
pub proof fn lem_okb_spres(x: SignalCredentialPresentation) requires wf_pres(x.presentation) ensures okb_spres(enc_spres(x))
{
    broadcast use wires;
    let b = enc_spres(x);
    lem_pres_len(x.presentation); lem_okb_pres(x.presentation);
    assert(part(b, 0, 32) =~= enc_com(x.roster_entry_commitment.0)); assert(part(b, 32, 288) =~= enc_pres(x.presentation)); assert(rest(b, 288) =~= x.roster_membership_proof.wire());
    lem_wire_self(x.roster_membership_proof);
}
//@ C16: Signal presentations
pub fn client_rt_spres(x: &SignalCredentialPresentation) requires wf_pres(x.presentation) { let b = x.to_bytes(); proof { lem_okb_spres(*x); } let r = SignalCredentialPresentation::from_bytes(&b); proof { lem_spres_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C16: verified Signal credentials
pub fn client_rt_sverified(x: &VerifiedSignalCredential) requires wf_pres(x.0.presentation) { let b = x.to_bytes(); proof { lem_okb_spres(x.0); } let r = VerifiedSignalCredential::from_bytes(&b); proof { lem_spres_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C16: Signal users
pub fn client_rt_suser(x: &SignalUser) requires wf_user(x.user) {
    let b = x.to_bytes();
    proof { lem_okb_user(x.user); assert(part(b@, 0, 32) =~= enc_s(x.phone_number.0)); assert(rest(b@, 32) =~= enc_user(x.user)); }
    let r = SignalUser::from_bytes(&b);
    proof { lem_cat(enc_s(x.phone_number.0), enc_user(x.user), enc_s(r->Ok_0.phone_number.0), enc_user(r->Ok_0.user)); lem_enc_s_inj(x.phone_number.0, r->Ok_0.phone_number.0); lem_user_inj(x.user, r->Ok_0.user); }
    assert(r matches Ok(y) && y == *x);
}
//@ C17: two byte strings which decode to the same presentation are the same
pub fn client_canonical(a: &[u8], b: &[u8]) {
    let x = CredentialPresentation::from_bytes(a);
    let y = CredentialPresentation::from_bytes(b);
    match x { Ok(x) => match y { Ok(y) => { assert(x == y ==> a@ =~= b@); } Err(_) => {} } Err(_) => {} }
}

// ---- C19: phone numbers -----------------------------------------------------------------------------------------------------------
pub proof fn lem_phone_canonical(d: Seq<u8>) requires d.len() <= 26 ensures enc_s(phone_of(d)) == phone_bits(d), ok_s(phone_bits(d))
{ ax_canonical(phone_bits(d)); ax_red(phone_bits(d)); }
pub proof fn lem_last_byte(b: Seq<u8>, i: int)
    requires 0 <= i < b.len(), b[i] != 0, forall|j: int| i < j < b.len() ==> b[j] == 0
    ensures last_byte(b) == i
    decreases b.len()
{
    if i < b.len() - 1 { lem_last_byte(b.drop_last(), i); }
}
pub proof fn lem_phone_len(d: Seq<u8>) requires d.len() <= 26 ensures phone_len(phone_bits(d)) == d.len()
{
    let b = phone_bits(d);
    if d.len() == 0 { lem_last_byte(b, 3); } else { lem_last_byte(b, (d.len() + 4) as int); }
}
//@ C19: two phone numbers which are encoded the same are the same
pub proof fn lem_phone_inj(d: Seq<u8>, e: Seq<u8>)
    requires d.len() <= 26, e.len() <= 26, phone_of(d) == phone_of(e)
    ensures d == e
{
    lem_phone_canonical(d); lem_phone_canonical(e); lem_phone_len(d); lem_phone_len(e);
    let b = phone_bits(d); let c = phone_bits(e);
    assert(b == c);
    assert forall|i: int| 0 <= i < d.len() implies d[i] == e[i] by { assert(b[i + 2] == d[i]); assert(c[i + 2] == e[i]); }
    assert(d =~= e);
}
pub proof fn lem_digits(d: Seq<u8>)
    requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] <= 9
    ensures digits(d).len() == d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] digits(d)[i] == (d[i] + 48) as u8 as char
    decreases d.len()
{ if d.len() > 0 { lem_digits(d.drop_last()); assert(forall|i: int| 0 <= i < d.len() - 1 ==> d.drop_last()[i] == d[i]); } }
//@ C19: a phone number made from text is written as the same text
pub fn client_phone_text(s: String)
    requires s@.len() <= 26, forall|i: int| 0 <= i < s@.len() ==> is_digit(#[trigger] s@[i])
{
    let r = PhoneNumber::try_from_string(&s);
    proof { ax_utf8_digits(s@); }
    assert(r is Ok);
    match r {
        Ok(n) => {
            let ghost u = utf8(s@);
            let ghost d = u.map_values(|c: u8| ascii_digit(c));
            let t: String = String::from(n);
            proof {
                lem_phone_canonical(d); lem_phone_len(d);
                let b = phone_bits(d);
                assert(part(b, 2, 2 + d.len() as int) =~= d);
                assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] <= 9 by { assert(u[i] == s@[i] as u8); }
                lem_digits(d);
                assert forall|i: int| 0 <= i < s@.len() implies #[trigger] t@[i] == s@[i] by { assert(is_digit(s@[i])); assert(d[i] == ascii_digit(u[i])); assert(u[i] == s@[i] as u8); }
                assert(t@ =~= s@);
            }
        }
        Err(_) => {}
    }
}
//@ C19: two phone numbers made from different digits are different
pub fn client_phone_differ(a: &[u8], b: &[u8])
    requires a@ != b@
{
    let x = PhoneNumber::try_from_bytes(a);
    let y = PhoneNumber::try_from_bytes(b);
    match x { Ok(x) => match y { Ok(y) => { proof { if x.0 == y.0 { lem_phone_inj(a@, b@); } } assert(x.0 != y.0); } Err(_) => {} } Err(_) => {} }
}
//@ C19: text and digits make the same phone number
pub fn client_phone_same(s: &String, d: &[u8])
    requires d@ == utf8(s@).map_values(|c: u8| ascii_digit(c))
{
    let x = PhoneNumber::try_from_string(s);
    let y = PhoneNumber::try_from_bytes(d);
    assert(x is Ok <==> y is Ok);
    match x { Ok(x) => match y { Ok(y) => { assert(x.0 == y.0); } Err(_) => {} } Err(_) => {} }
}

// ---- C20: roster entries ------------------------------------------------------------------------------------------------------------
//@ C20: an entry opens to its phone number and to no other
pub fn client_entry<R: RngCore + CryptoRng>(a: &[u8], b: &[u8], sp: &SystemParameters, rng: &mut R)
    requires a@ != b@, sp.h != ident(), a@.len() <= 26
{
    let e = RosterEntryCommitment::create(a, sp, rng);
    assert(e is Ok);
    match e {
        Ok(e) => {
            let r = e.open(a, sp);
            assert(r is Ok);
            let w = e.open(b, sp);
            proof {
                if w is Ok {
                    lem_add_cancel(smul(phone_of(a@), dl(sp.h)), smul(phone_of(b@), dl(sp.h)), smul(e.opening.0, dl(sp.g)));
                    lem_dl_ident(sp.h);
                    lem_mul_cancel(phone_of(a@), phone_of(b@), dl(sp.h));
                    lem_phone_inj(a@, b@);
                }
            }
            assert(w is Err);
        }
        Err(_) => {}
    }
}
//@ C20: an entry decoded from its encoding opens to the same phone numbers
pub fn client_entry_sent(e: &RosterEntryCommitment, n: &[u8], sp: &SystemParameters) {
    let b = e.to_bytes();
    proof { assert(part(b@, 0, 32) =~= enc_com(e.commitment.0)); assert(part(b@, 32, 64) =~= enc_s(e.opening.0)); }
    let f = RosterEntryCommitment::from_bytes(&b);
    match f {
        Ok(f) => {
            proof { lem_roster_inj(*e, f); }
            let x = e.open(n, sp);
            let y = f.open(n, sp);
            assert(x is Ok <==> y is Ok);
        }
        Err(_) => { assert(false); }
    }
}

// ---- C22, C23: parameters and keys ----------------------------------------------------------------------------------------------------
//@ C22: the parameters chosen are two different points, neither the identity
pub fn client_parameters<R: RngCore + CryptoRng>(rng: &mut R) -> (p: SystemParameters)
    ensures p.g != p.h, p.h != ident(), p.g != ident()
{
    let p = SystemParameters::hunt_and_peck(rng);
    proof { ax_zero_not_one(); lem_dl_ident(p.g); }
    p
}
//@ C23: an issuer restored from its encoding has the same keys, and its public key still belongs to its secret key
pub fn client_restore<R: RngCore + CryptoRng>(sp: SystemParameters, rng: &mut R) {
    let x = Issuer::create(sp, rng);
    let b = x.to_bytes();
    proof {
        lem_okb_mkp(x.keypair);
        assert(part(b@, 0, 64) =~= enc_sp(x.system_parameters)); assert(rest(b@, 64) =~= enc_mkp(x.keypair));
        assert(part(enc_sp(x.system_parameters), 0, 32) =~= enc_p(x.system_parameters.g)); assert(part(enc_sp(x.system_parameters), 32, 64) =~= enc_p(x.system_parameters.h));
    }
    let r = Issuer::from_bytes(&b);
    proof { lem_issuer_inj(x, r->Ok_0); }
    match r {
        Ok(y) => { let p = y.get_issuer_parameters(); assert(p == x.keypair.public); assert(keypair_ok(y.keypair, sp.h)); }
        Err(_) => { assert(false); }
    }
}

// ---- C29: sizes -------------------------------------------------------------------------------------------------------------------------
//@ C29: how many bytes each kind of value is encoded in
pub proof fn lem_sizes(t: amacs::Tag, c: Credential, i: CredentialIssuance, p: CredentialPresentation, s: SignalCredentialPresentation, u: User, e: RosterEntryCommitment, is: Issuer)
    requires c.attributes@.len() == 1, i.credential.attributes@.len() == 1, wf_pres(p), wf_pres(s.presentation), wf_user(u), wf_mkp(is.keypair), is.keypair.secret.xn@.len() == 1
    ensures enc_tag(t).len() == 64, enc_cred(c).len() == 96, enc_iss(i).len() == 328, enc_pres(p).len() == 256, enc_spres(s).len() == 448, enc_user(u).len() == 256,
        enc_roster(e).len() == 64, enc_issuer(is).len() == 160
{
    broadcast use wires;
    lem_pres_len(p); lem_pres_len(s.presentation);
}
//@ C29: the constants say so
pub fn client_sizes() {
    assert(amacs::SIZEOF_TAG == 64);
    assert(SIZEOF_CREDENTIAL == 96);
    assert(SIZEOF_CREDENTIAL_PRESENTATION == 256);
    assert(SIZEOF_CREDENTIAL_ISSUANCE == 328);
    assert(SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION == 448);
    assert(SIZEOF_COMMITTED_PHONE_NUMBER == 32);
    assert(SIZEOF_PHONE_NUMBER == 32);
    assert(SIZEOF_ENCRYPTED_PHONE_NUMBER == 64);
    assert(MAX_PHONE_NUMBER_LENGTH == 26);
    assert(SIZEOF_SYSTEM_PARAMETERS == 64);
    assert(pedersen::SIZEOF_COMMITMENT == 32);
    assert(elgamal::SIZEOF_PUBLIC_KEY == 32 && elgamal::SIZEOF_SECRET_KEY == 32 && elgamal::SIZEOF_KEYPAIR == 64 && elgamal::SIZEOF_ENCRYPTION == 64);
}
} // mod props
