// What the types of the two crates mean, and what their encodings are: used by the contracts and by the lemmas over them.
pub mod defs {
use vstd::prelude::*;
use crate::spec::*;
use crate::aeonflux;
use crate::signal_credential;
use crate::aeonflux::proofs::*;
use crate::aeonflux::credential::*;
use crate::aeonflux::issuer::*;
use crate::aeonflux::user::*;
use crate::aeonflux::nonces::*;
use crate::aeonflux::amacs;
use crate::aeonflux::pedersen;
use crate::aeonflux::parameters::SystemParameters;
use crate::signal_credential::phone_number::*;
use crate::defs_proofs::*;
use crate::ext::curve25519_dalek::scalar::Scalar;
use crate::ext::curve25519_dalek::ristretto::RistrettoPoint;

// ---- encodings ------------------------------------------------------------------------------------------------------
pub open spec fn part(b: Seq<u8>, i: int, j: int) -> Seq<u8> { b.subrange(i, j) }
pub open spec fn rest(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(i, b.len() as int) }
pub open spec fn all_p(b: Seq<u8>) -> bool { b.len() % 32 == 0 && forall|j: int| 0 <= 32 * j < b.len() ==> ok_p(#[trigger] piece(b, j)) }
pub open spec fn all_s(b: Seq<u8>) -> bool { b.len() % 32 == 0 && forall|j: int| 0 <= 32 * j < b.len() ==> ok_s(#[trigger] piece(b, j)) }

// each part of a secret key is a draw of its own, whichever is drawn first
pub open spec fn parts_drawn(x0: Scalar, xn: Seq<Scalar>, r: Rng) -> bool {
    ||| x0 == draw_s(r.src, r.pos) && forall|j: int| 0 <= j < xn.len() ==> #[trigger] xn[j] == draw_s(r.src, r.pos + 1 + j)
    ||| x0 == draw_s(r.src, r.pos + xn.len()) && forall|j: int| 0 <= j < xn.len() ==> #[trigger] xn[j] == draw_s(r.src, r.pos + j)
}

pub open spec fn enc_tag(t: aeonflux::amacs::Tag) -> Seq<u8> { enc_p(t.nonce) + enc_p(t.mac) }
pub open spec fn okb_tag(b: Seq<u8>) -> bool { b.len() == 64 && ok_p(part(b, 0, 32)) && ok_p(part(b, 32, 64)) }
pub open spec fn enc_mpk(k: aeonflux::amacs::PublicKey) -> Seq<u8> { enc_ps(k.Xn@) }
pub open spec fn enc_msk(k: aeonflux::amacs::SecretKey) -> Seq<u8> { enc_s(k.x0) + enc_ss(k.xn@) }
pub open spec fn okb_msk(b: Seq<u8>) -> bool { b.len() >= 32 && all_s(b) }
pub open spec fn enc_mkp(k: aeonflux::amacs::Keypair) -> Seq<u8> { enc_mpk(k.public) + enc_msk(k.secret) }
pub open spec fn wf_mkp(k: aeonflux::amacs::Keypair) -> bool { k.public.Xn@.len() == k.secret.xn@.len() }
pub open spec fn mkp_split(n: int) -> int { (n - 32) / 2 }
pub open spec fn okb_mkp(b: Seq<u8>) -> bool {
    b.len() >= 32 && b.len() % 64 == 32 && all_p(part(b, 0, mkp_split(b.len() as int))) && okb_msk(rest(b, mkp_split(b.len() as int)))
}

pub open spec fn enc_com(c: aeonflux::pedersen::Commitment) -> Seq<u8> { enc_p(c.0) }
pub open spec fn enc_epk(k: aeonflux::elgamal::PublicKey) -> Seq<u8> { enc_p(k.0) }
pub open spec fn enc_esk(k: aeonflux::elgamal::SecretKey) -> Seq<u8> { enc_s(k.0) }
pub open spec fn enc_ekp(k: aeonflux::elgamal::Keypair) -> Seq<u8> { enc_esk(k.secret) + enc_epk(k.public) }
pub open spec fn okb_ekp(b: Seq<u8>) -> bool { b.len() == 64 && ok_s(part(b, 0, 32)) && ok_p(part(b, 32, 64)) }
pub open spec fn enc_sp(p: aeonflux::parameters::SystemParameters) -> Seq<u8> { enc_p(p.g) + enc_p(p.h) }
/// Parameters found by looking for a point among the draws of a generator.
pub open spec fn pecked(p: SystemParameters, r: Rng) -> bool {
    &&& p.g == basepoint() && p.h != basepoint() && p.h != ident()
    &&& exists|i: int| r.pos <= i && enc_p(p.h) == #[trigger] draw_b(r.src, i, 32)
}
pub open spec fn okb_sp(b: Seq<u8>) -> bool { b.len() == 64 && ok_p(part(b, 0, 32)) && ok_p(part(b, 32, 64)) }

// ---- commitments and encryption ---------------------------------------------------------------------------------------
pub open spec fn com_is(c: aeonflux::pedersen::Commitment, value: RistrettoPoint, nonce: Scalar, base: RistrettoPoint) -> bool {
    dl(c.0) == sadd(dl(value), smul(nonce, dl(base)))
}
pub open spec fn encrypts(e: aeonflux::elgamal::Encryption, k: aeonflux::elgamal::PublicKey, m: RistrettoPoint, n: Scalar) -> bool {
    dl(e.commitment) == n && dl(e.encryption) == sadd(dl(m), smul(n, dl(k.0)))
}

// ---- the algebraic MAC ------------------------------------------------------------------------------------------------
pub open spec fn mac_exp(k: aeonflux::amacs::SecretKey, m: Seq<Scalar>) -> Scalar { sadd(k.x0, dot(k.xn@, m)) }
pub open spec fn mac_ok(k: aeonflux::amacs::SecretKey, t: aeonflux::amacs::Tag, m: Seq<Scalar>) -> bool {
    k.xn@.len() == m.len() && t.nonce != ident() && dl(t.mac) == smul(mac_exp(k, m), dl(t.nonce))
}
pub open spec fn keypair_ok(k: aeonflux::amacs::Keypair, h: RistrettoPoint) -> bool {
    k.public.Xn@.len() == k.secret.xn@.len() && forall|j: int| 0 <= j < k.secret.xn@.len() ==> dl(#[trigger] k.public.Xn@[j]) == smul(k.secret.xn@[j], dl(h))
}

// ---- credentials ------------------------------------------------------------------------------------------------------
pub open spec fn enc_cred(c: Credential) -> Seq<u8> { enc_tag(c.mac) + enc_ss(c.attributes@) }
pub open spec fn okb_cred(b: Seq<u8>) -> bool { b.len() == 96 && okb_tag(part(b, 0, 64)) && ok_s(part(b, 64, 96)) }
pub open spec fn enc_req(r: CredentialRequest) -> Seq<u8> { enc_ss(r.attributes_revealed@) }
pub open spec fn enc_iss(i: CredentialIssuance) -> Seq<u8> { enc_com(i.secret_key_commitment) + enc_cred(i.credential) + i.proof.wire() }
pub open spec fn okb_iss(b: Seq<u8>) -> bool {
    b.len() == 328 && ok_p(part(b, 0, 32)) && okb_cred(part(b, 32, 128)) && wire_ok::<issuance_revealed::Proof>(rest(b, 128))
}
/// Encodings of commitments, one after the other.
pub open spec fn enc_coms(x: Seq<pedersen::Commitment>) -> Seq<u8>
    decreases x.len()
{
    if x.len() == 0 { Seq::empty() } else { enc_coms(x.drop_last()) + enc_com(x.last()) }
}
pub broadcast proof fn lem_enc_coms_push(x: Seq<pedersen::Commitment>, s: pedersen::Commitment) ensures #[trigger] enc_coms(x.push(s)) == enc_coms(x) + enc_com(s)
{ assert(x.push(s).drop_last() =~= x); }
pub open spec fn enc_pres(p: CredentialPresentation) -> Seq<u8> {
    enc_com(p.rerandomized_mac_commitment) + enc_p(p.rerandomized_nonce) + enc_ss(p.attributes_revealed@) + enc_coms(p.attributes_blinded@) + p.proof.wire()
}
pub open spec fn wf_pres(p: CredentialPresentation) -> bool { p.attributes_revealed@.len() == 0 && p.attributes_blinded@.len() == 1 }
pub open spec fn okb_pres(b: Seq<u8>) -> bool {
    b.len() == 256 && ok_p(part(b, 0, 32)) && ok_p(part(b, 32, 64)) && ok_p(part(b, 64, 96)) && wire_ok::<valid_credential::Proof>(rest(b, 96))
}

// ---- issuing ------------------------------------------------------------------------------------------------------------
pub open spec fn enc_issuer(i: Issuer) -> Seq<u8> { enc_sp(i.system_parameters) + enc_mkp(i.keypair) }
pub open spec fn okb_issuer(b: Seq<u8>) -> bool { b.len() >= 160 && okb_sp(part(b, 0, 64)) && okb_mkp(rest(b, 64)) }
pub open spec fn t_issuance() -> Seq<Ev> { tnew(L"AEONFLUX ISSUANCE") }
pub open spec fn t_show() -> Seq<Ev> { tnew(L"AEONFLUX SHOW") }
pub open spec fn t_roster() -> Seq<Ev> { tnew(L"SIGNAL GROUP MEMBERSHIP") }
/// A draw of a generator made from the one given.
pub open spec fn from_rng(src: int, r: Rng) -> bool { exists|c: Ctor, g: Rng| src == #[trigger] seeded(c, g) && g.src == r.src && g.pos >= r.pos }
pub open spec fn issued(is: Issuer, attrs: Seq<Scalar>, i: CredentialIssuance, x0t: Scalar) -> bool {
    &&& i.credential.attributes@ == attrs
    &&& dl(i.credential.mac.mac) == smul(mac_exp(is.keypair.secret, attrs), dl(i.credential.mac.nonce))
    &&& dl(i.secret_key_commitment.0) == sadd(smul(is.keypair.secret.x0, dl(is.system_parameters.g)), smul(x0t, dl(is.system_parameters.h)))
    &&& issuance_revealed_made(i.proof, t_issuance(), is.keypair.secret.x0, is.keypair.secret.xn@[0], x0t, smul(attrs[0], is.keypair.secret.xn@[0]),
            i.credential.mac.nonce, i.credential.mac.mac, i.secret_key_commitment.0, is.system_parameters.g, is.system_parameters.h, is.keypair.public.Xn@[0])
}
/// The nonce of the MAC and the blinding of the commitment are different draws of a generator made from the issuer's.
pub open spec fn issued_freshly(is: Issuer, attrs: Seq<Scalar>, i: CredentialIssuance, r: Rng) -> bool {
    exists|src: int, a: int, b: int| #![trigger draw_s(src, a), draw_s(src, b)]
        a != b && dl(i.credential.mac.nonce) == draw_s(src, a) && from_rng(src, r) && issued(is, attrs, i, draw_s(src, b))
}
pub open spec fn issuance_accepted(u: User, i: CredentialIssuance) -> bool {
    &&& i.credential.attributes@.len() == 1
    &&& u.issuer_parameters.Xn@.len() >= 1
    &&& issuance_revealed_accepts(i.proof, t_issuance(), i.credential.mac.nonce, i.credential.mac.mac, i.secret_key_commitment.0,
            u.system_parameters.g, u.system_parameters.h, u.issuer_parameters.Xn@[0])
}

// ---- showing ------------------------------------------------------------------------------------------------------------
pub open spec fn v_user(u: User, z0: Scalar, zq: Scalar) -> RistrettoPoint {
    pt(ssub(smul(z0, dl(u.issuer_parameters.Xn@[0])), smul(zq, dl(u.system_parameters.h))))
}
pub open spec fn shown(u: User, z0: Scalar, p: CredentialPresentation, z: Scalar, zq: Scalar) -> bool {
    let c = u.credential->0;
    &&& wf_pres(p)
    &&& dl(p.rerandomized_nonce) == smul(z, dl(c.mac.nonce))
    &&& com_is(p.rerandomized_mac_commitment, pt(smul(z, dl(c.mac.mac))), zq, u.system_parameters.h)
    &&& com_is(p.attributes_blinded@[0], pt(smul(c.attributes@[0], dl(p.rerandomized_nonce))), z0, u.system_parameters.h)
    &&& valid_credential_made(p.proof, t_show(), c.attributes@[0], z0, sneg(zq),
            u.system_parameters.g, u.system_parameters.h, u.issuer_parameters.Xn@[0], p.rerandomized_nonce, v_user(u, z0, zq), p.attributes_blinded@[0].0)
}
/// The rerandomisation and the blinding of the MAC are different draws of a generator made from the user's.
pub open spec fn shown_freshly(u: User, z0: Scalar, p: CredentialPresentation, r: Rng) -> bool {
    exists|src: int, a: int, b: int| #![trigger draw_s(src, a), draw_s(src, b)]
        a != b && from_rng(src, r) && shown(u, z0, p, draw_s(src, a), draw_s(src, b))
}
pub open spec fn v_issuer(i: Issuer, p: CredentialPresentation) -> RistrettoPoint {
    pt(ssub(sadd(smul(i.keypair.secret.x0, dl(p.rerandomized_nonce)), smul(i.keypair.secret.xn@[0], dl(p.attributes_blinded@[0].0))), dl(p.rerandomized_mac_commitment.0)))
}
pub open spec fn presentation_accepted(i: Issuer, p: CredentialPresentation) -> bool {
    &&& p.rerandomized_nonce != ident()
    &&& wf_pres(p)
    &&& i.keypair.public.Xn@.len() == 1
    &&& i.keypair.secret.xn@.len() == 1
    &&& valid_credential_accepts(p.proof, t_show(), i.system_parameters.g, i.system_parameters.h, i.keypair.public.Xn@[0],
            p.rerandomized_nonce, v_issuer(i, p), p.attributes_blinded@[0].0)
}

// ---- users --------------------------------------------------------------------------------------------------------------
pub open spec fn enc_key(k: Option<aeonflux::elgamal::Keypair>) -> Seq<u8> { match k { Some(x) => enc_ekp(x), None => zeros(64) } }
pub open spec fn enc_ocred(c: Option<Credential>) -> Seq<u8> { match c { Some(x) => enc_cred(x), None => zeros(96) } }
pub open spec fn enc_user(u: User) -> Seq<u8> {
    enc_sp(u.system_parameters) + enc_mpk(u.issuer_parameters) + enc_key(u.key) + enc_ocred(u.credential)
}
/// Nothing that is encoded like what is missing.
pub open spec fn wf_user(u: User) -> bool {
    &&& u.issuer_parameters.Xn@.len() == 1
    &&& u.key is Some ==> enc_ekp(u.key->0) != zeros(64)
    &&& u.credential is Some ==> u.credential->0.attributes@.len() == 1 && enc_cred(u.credential->0) != zeros(96)
}
pub open spec fn okb_user(b: Seq<u8>) -> bool {
    &&& b.len() == 256 && okb_sp(part(b, 0, 64)) && ok_p(part(b, 64, 96))
    &&& part(b, 96, 160) == zeros(64) || okb_ekp(part(b, 96, 160))
    &&& part(b, 160, 256) == zeros(96) || okb_cred(part(b, 160, 256))
}

// ---- phone numbers ------------------------------------------------------------------------------------------------------
/// The encoding of the digits of a phone number: between two pairs of 15, and followed by how many there are.
pub open spec fn phone_bits(d: Seq<u8>) -> Seq<u8> {
    Seq::new(32, |i: int| if i < 2 { 15u8 } else if i < d.len() + 2 { d[i - 2] } else if i < d.len() + 4 { 15u8 } else if i == d.len() + 4 { d.len() as u8 } else { 0u8 })
}
pub open spec fn ascii_digit(c: u8) -> u8 { if 48 <= c <= 57 { (c - 48) as u8 } else { 15u8 } }
pub open spec fn phone_of(d: Seq<u8>) -> Scalar { red(phone_bits(d)) }
pub open spec fn phone_of_text(s: Seq<u8>) -> Scalar { phone_of(s.map_values(|c: u8| ascii_digit(c))) }
pub broadcast proof fn lem_phone_ext(b: Seq<u8>, d: Seq<u8>)
    requires b =~= phone_bits(d)
    ensures #[trigger] red(b) == #[trigger] phone_of(d)
{ }
/// The last byte which is not zero, and where it is.
pub open spec fn last_byte(b: Seq<u8>) -> int
    decreases b.len()
{
    if b.len() == 0 { -1 } else if b.last() != 0 { b.len() - 1 } else { last_byte(b.drop_last()) }
}
/// How many digits an encoding says it has.
pub open spec fn phone_len(b: Seq<u8>) -> int {
    let i = last_byte(b);
    if i >= 0 && b[i] + 4 == i { b[i] as int } else { 0 }
}
/// The digits, as text: what is not a digit is left out.
pub open spec fn digits(d: Seq<u8>) -> Seq<char>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() } else if d.last() <= 9 { digits(d.drop_last()).push((d.last() + 48) as u8 as char) } else { digits(d.drop_last()) }
}
pub open spec fn phone_text(b: Seq<u8>) -> Seq<char> { digits(part(b, 2, 2 + phone_len(b))) }

pub open spec fn enc_roster(e: RosterEntryCommitment) -> Seq<u8> { enc_com(e.commitment.0) + enc_s(e.opening.0) }
pub open spec fn okb_roster(b: Seq<u8>) -> bool { b.len() == 64 && ok_p(part(b, 0, 32)) && ok_s(part(b, 32, 64)) }
/// A roster entry hides the number as a multiple of the second basepoint.
pub open spec fn entry_is(c: CommittedPhoneNumber, number: Scalar, nonce: Scalar, g: RistrettoPoint, h: RistrettoPoint) -> bool {
    dl(c.0.0) == sadd(smul(number, dl(h)), smul(nonce, dl(g)))
}

// ---- the credentials of Signal --------------------------------------------------------------------------------------------
pub open spec fn enc_spres(p: signal_credential::credential::SignalCredentialPresentation) -> Seq<u8> {
    enc_com(p.roster_entry_commitment.0) + enc_pres(p.presentation) + p.roster_membership_proof.wire()
}
pub open spec fn okb_spres(b: Seq<u8>) -> bool {
    b.len() == 448 && ok_p(part(b, 0, 32)) && okb_pres(part(b, 32, 288)) && wire_ok::<committed_values_equal::Proof>(rest(b, 288))
}
pub open spec fn roster_accepted(i: Issuer, p: signal_credential::credential::SignalCredentialPresentation) -> bool {
    committed_values_equal_accepts(p.roster_membership_proof, t_roster(), i.system_parameters.g, i.system_parameters.h,
        p.presentation.rerandomized_nonce, p.presentation.attributes_blinded@[0].0, p.roster_entry_commitment.0.0)
}
pub open spec fn enc_suser(u: signal_credential::user::SignalUser) -> Seq<u8> { enc_s(u.phone_number.0) + enc_user(u.user) }
pub open spec fn okb_suser(b: Seq<u8>) -> bool { b.len() == 288 && ok_s(part(b, 0, 32)) && okb_user(rest(b, 32)) }
pub open spec fn sshown(u: User, entry: RosterEntryCommitment, z0: Scalar, p: signal_credential::credential::SignalCredentialPresentation, r: Rng) -> bool {
    &&& shown_freshly(u, z0, p.presentation, r)
    &&& p.roster_entry_commitment == entry.commitment
    &&& committed_values_equal_made(p.roster_membership_proof, t_roster(), u.credential->0.attributes@[0], z0, entry.opening.0,
            u.system_parameters.g, u.system_parameters.h, p.presentation.rerandomized_nonce, p.presentation.attributes_blinded@[0].0, entry.commitment.0.0)
}
/// The blinding of the attribute is a draw of the user's generator.
pub open spec fn sshown_freshly(u: User, entry: RosterEntryCommitment, p: signal_credential::credential::SignalCredentialPresentation, r: Rng) -> bool {
    exists|i: int| i >= r.pos && sshown(u, entry, #[trigger] draw_s(r.src, i), p, r)
}
} // mod defs
