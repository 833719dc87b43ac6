// Written by tools/gen_serde.py.  Round trips through a format of serde.
pub mod props_serde {
use vstd::prelude::*;
use crate::ext::serde::*;
use crate::props::*;
broadcast use {vstd::group_vstd_default, group_ax, encs, seqs};
use crate::aeonflux::amacs;
use crate::aeonflux::credential::*;
use crate::aeonflux::elgamal;
use crate::aeonflux::errors::*;
use crate::aeonflux::issuer::*;
use crate::aeonflux::nonces::*;
use crate::aeonflux::parameters::*;
use crate::aeonflux::pedersen;
use crate::aeonflux::proofs::*;
use crate::aeonflux::user::*;
use crate::defs::*;
use crate::defs_proofs::*;
use crate::ext::curve25519_dalek::ristretto::RistrettoPoint;
use crate::ext::curve25519_dalek::scalar::Scalar;
use crate::ext::rand_core::*;
use crate::props_proofs::*;
use crate::rt::*;
use crate::signal_credential::credential::*;
use crate::signal_credential::errors::*;
use crate::signal_credential::issuer::*;
use crate::signal_credential::phone_number::*;
use crate::signal_credential::user::*;
use crate::spec::*;
//@ C25: tags
pub fn client_serde_tag_bytes<'de, D: Deserializer<'de>>(x: &amacs::Tag, d: D) requires d.given() == Given::Bytes(enc_tag(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_tag(*x)); } proof { lem_okb_tag(*x); } let r = amacs::Tag::deserialize(d); proof { lem_tag_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: tags, as numbers
pub fn client_serde_tag_nums<'de, D: Deserializer<'de>>(x: &amacs::Tag, d: D) requires d.given() == Given::Nums(enc_tag(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_tag(*x)); } proof { lem_okb_tag(*x); } let r = amacs::Tag::deserialize(d); proof { lem_tag_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: public keys of the MAC
pub fn client_serde_mpk_bytes<'de, D: Deserializer<'de>>(x: &amacs::PublicKey, d: D) requires d.given() == Given::Bytes(enc_mpk(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_mpk(*x)); } proof { lem_all_p(x.Xn@); } let r = amacs::PublicKey::deserialize(d); proof { lem_mpk_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: public keys of the MAC, as numbers
pub fn client_serde_mpk_nums<'de, D: Deserializer<'de>>(x: &amacs::PublicKey, d: D) requires d.given() == Given::Nums(enc_mpk(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_mpk(*x)); } proof { lem_all_p(x.Xn@); } let r = amacs::PublicKey::deserialize(d); proof { lem_mpk_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: secret keys of the MAC
pub fn client_serde_msk_bytes<'de, D: Deserializer<'de>>(x: &amacs::SecretKey, d: D) requires d.given() == Given::Bytes(enc_msk(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_msk(*x)); } proof { lem_okb_msk(*x); } let r = amacs::SecretKey::deserialize(d); proof { lem_msk_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: secret keys of the MAC, as numbers
pub fn client_serde_msk_nums<'de, D: Deserializer<'de>>(x: &amacs::SecretKey, d: D) requires d.given() == Given::Nums(enc_msk(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_msk(*x)); } proof { lem_okb_msk(*x); } let r = amacs::SecretKey::deserialize(d); proof { lem_msk_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: keypairs of the MAC
pub fn client_serde_mkp_bytes<'de, D: Deserializer<'de>>(x: &amacs::Keypair, d: D) requires wf_mkp(*x), d.given() == Given::Bytes(enc_mkp(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_mkp(*x)); } proof { lem_okb_mkp(*x); } let r = amacs::Keypair::deserialize(d); proof { lem_mkp_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: keypairs of the MAC, as numbers
pub fn client_serde_mkp_nums<'de, D: Deserializer<'de>>(x: &amacs::Keypair, d: D) requires wf_mkp(*x), d.given() == Given::Nums(enc_mkp(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_mkp(*x)); } proof { lem_okb_mkp(*x); } let r = amacs::Keypair::deserialize(d); proof { lem_mkp_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: commitments
pub fn client_serde_com_bytes<'de, D: Deserializer<'de>>(x: &pedersen::Commitment, d: D) requires d.given() == Given::Bytes(enc_com(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_com(*x)); } let r = pedersen::Commitment::deserialize(d); proof { lem_enc_p_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: commitments, as numbers
pub fn client_serde_com_nums<'de, D: Deserializer<'de>>(x: &pedersen::Commitment, d: D) requires d.given() == Given::Nums(enc_com(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_com(*x)); } let r = pedersen::Commitment::deserialize(d); proof { lem_enc_p_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: public keys for encryption
pub fn client_serde_epk_bytes<'de, D: Deserializer<'de>>(x: &elgamal::PublicKey, d: D) requires d.given() == Given::Bytes(enc_epk(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_epk(*x)); } let r = elgamal::PublicKey::deserialize(d); proof { lem_enc_p_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: public keys for encryption, as numbers
pub fn client_serde_epk_nums<'de, D: Deserializer<'de>>(x: &elgamal::PublicKey, d: D) requires d.given() == Given::Nums(enc_epk(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_epk(*x)); } let r = elgamal::PublicKey::deserialize(d); proof { lem_enc_p_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: secret keys for encryption
pub fn client_serde_esk_bytes<'de, D: Deserializer<'de>>(x: &elgamal::SecretKey, d: D) requires d.given() == Given::Bytes(enc_esk(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_esk(*x)); } let r = elgamal::SecretKey::deserialize(d); proof { lem_enc_s_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: secret keys for encryption, as numbers
pub fn client_serde_esk_nums<'de, D: Deserializer<'de>>(x: &elgamal::SecretKey, d: D) requires d.given() == Given::Nums(enc_esk(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_esk(*x)); } let r = elgamal::SecretKey::deserialize(d); proof { lem_enc_s_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: keypairs for encryption
pub fn client_serde_ekp_bytes<'de, D: Deserializer<'de>>(x: &elgamal::Keypair, d: D) requires d.given() == Given::Bytes(enc_ekp(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_ekp(*x)); }
    proof { assert(part(b@, 0, 32) =~= enc_esk(x.secret)); assert(part(b@, 32, 64) =~= enc_epk(x.public)); }
    let r = elgamal::Keypair::deserialize(d);
    proof { lem_ekp_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: keypairs for encryption, as numbers
pub fn client_serde_ekp_nums<'de, D: Deserializer<'de>>(x: &elgamal::Keypair, d: D) requires d.given() == Given::Nums(enc_ekp(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_ekp(*x)); }
    proof { assert(part(b@, 0, 32) =~= enc_esk(x.secret)); assert(part(b@, 32, 64) =~= enc_epk(x.public)); }
    let r = elgamal::Keypair::deserialize(d);
    proof { lem_ekp_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: system parameters
pub fn client_serde_sp_bytes<'de, D: Deserializer<'de>>(x: &SystemParameters, d: D) requires d.given() == Given::Bytes(enc_sp(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_sp(*x)); }
    proof { assert(part(b@, 0, 32) =~= enc_p(x.g)); assert(part(b@, 32, 64) =~= enc_p(x.h)); }
    let r = SystemParameters::deserialize(d);
    proof { lem_sp_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: system parameters, as numbers
pub fn client_serde_sp_nums<'de, D: Deserializer<'de>>(x: &SystemParameters, d: D) requires d.given() == Given::Nums(enc_sp(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_sp(*x)); }
    proof { assert(part(b@, 0, 32) =~= enc_p(x.g)); assert(part(b@, 32, 64) =~= enc_p(x.h)); }
    let r = SystemParameters::deserialize(d);
    proof { lem_sp_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: credentials
pub fn client_serde_cred_bytes<'de, D: Deserializer<'de>>(x: &Credential, d: D) requires x.attributes@.len() == 1, d.given() == Given::Bytes(enc_cred(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_cred(*x)); } proof { lem_okb_cred(*x); } let r = Credential::deserialize(d); proof { lem_cred_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: credentials, as numbers
pub fn client_serde_cred_nums<'de, D: Deserializer<'de>>(x: &Credential, d: D) requires x.attributes@.len() == 1, d.given() == Given::Nums(enc_cred(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_cred(*x)); } proof { lem_okb_cred(*x); } let r = Credential::deserialize(d); proof { lem_cred_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: requests
pub fn client_serde_req_bytes<'de, D: Deserializer<'de>>(x: &CredentialRequest, d: D) requires d.given() == Given::Bytes(enc_req(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_req(*x)); } proof { lem_all_s(x.attributes_revealed@); } let r = CredentialRequest::deserialize(d); proof { lem_enc_ss_inj(x.attributes_revealed@, r->Ok_0.attributes_revealed@); ax_vec_ext(x.attributes_revealed, r->Ok_0.attributes_revealed); } assert(r matches Ok(y) && y == *x); }
//@ C25: requests, as numbers
pub fn client_serde_req_nums<'de, D: Deserializer<'de>>(x: &CredentialRequest, d: D) requires d.given() == Given::Nums(enc_req(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_req(*x)); } proof { lem_all_s(x.attributes_revealed@); } let r = CredentialRequest::deserialize(d); proof { lem_enc_ss_inj(x.attributes_revealed@, r->Ok_0.attributes_revealed@); ax_vec_ext(x.attributes_revealed, r->Ok_0.attributes_revealed); } assert(r matches Ok(y) && y == *x); }
//@ C25: issuances
pub fn client_serde_iss_bytes<'de, D: Deserializer<'de>>(x: &CredentialIssuance, d: D) requires x.credential.attributes@.len() == 1, d.given() == Given::Bytes(enc_iss(*x)) {
    broadcast use wires;
    let b = x.to_bytes(); proof { assert(b@ =~= enc_iss(*x)); }
    proof {
        lem_okb_cred(x.credential);
        assert(part(b@, 0, 32) =~= enc_com(x.secret_key_commitment)); assert(part(b@, 32, 128) =~= enc_cred(x.credential)); assert(rest(b@, 128) =~= x.proof.wire());
        lem_wire_self(x.proof);
    }
    let r = CredentialIssuance::deserialize(d);
    proof { lem_iss_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: issuances, as numbers
pub fn client_serde_iss_nums<'de, D: Deserializer<'de>>(x: &CredentialIssuance, d: D) requires x.credential.attributes@.len() == 1, d.given() == Given::Nums(enc_iss(*x)) {
    broadcast use wires;
    let b = x.to_bytes(); proof { assert(b@ =~= enc_iss(*x)); }
    proof {
        lem_okb_cred(x.credential);
        assert(part(b@, 0, 32) =~= enc_com(x.secret_key_commitment)); assert(part(b@, 32, 128) =~= enc_cred(x.credential)); assert(rest(b@, 128) =~= x.proof.wire());
        lem_wire_self(x.proof);
    }
    let r = CredentialIssuance::deserialize(d);
    proof { lem_iss_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: presentations
pub fn client_serde_pres_bytes<'de, D: Deserializer<'de>>(x: &CredentialPresentation, d: D) requires wf_pres(*x), d.given() == Given::Bytes(enc_pres(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_pres(*x)); } proof { lem_okb_pres(*x); } let r = CredentialPresentation::deserialize(d); proof { lem_pres_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: presentations, as numbers
pub fn client_serde_pres_nums<'de, D: Deserializer<'de>>(x: &CredentialPresentation, d: D) requires wf_pres(*x), d.given() == Given::Nums(enc_pres(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_pres(*x)); } proof { lem_okb_pres(*x); } let r = CredentialPresentation::deserialize(d); proof { lem_pres_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: verified credentials
pub fn client_serde_verified_bytes<'de, D: Deserializer<'de>>(x: &VerifiedCredential, d: D) requires wf_pres(x.0), d.given() == Given::Bytes(enc_pres(x.0)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_pres(x.0)); } proof { lem_okb_pres(x.0); } let r = VerifiedCredential::deserialize(d); proof { lem_pres_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: verified credentials, as numbers
pub fn client_serde_verified_nums<'de, D: Deserializer<'de>>(x: &VerifiedCredential, d: D) requires wf_pres(x.0), d.given() == Given::Nums(enc_pres(x.0)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_pres(x.0)); } proof { lem_okb_pres(x.0); } let r = VerifiedCredential::deserialize(d); proof { lem_pres_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: issuers
pub fn client_serde_issuer_bytes<'de, D: Deserializer<'de>>(x: &Issuer, d: D) requires wf_mkp(x.keypair), x.keypair.secret.xn@.len() >= 1, d.given() == Given::Bytes(enc_issuer(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_issuer(*x)); }
    proof {
        lem_okb_mkp(x.keypair);
        assert(part(b@, 0, 64) =~= enc_sp(x.system_parameters)); assert(rest(b@, 64) =~= enc_mkp(x.keypair));
        assert(part(enc_sp(x.system_parameters), 0, 32) =~= enc_p(x.system_parameters.g)); assert(part(enc_sp(x.system_parameters), 32, 64) =~= enc_p(x.system_parameters.h));
    }
    let r = Issuer::deserialize(d);
    proof { lem_issuer_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: issuers, as numbers
pub fn client_serde_issuer_nums<'de, D: Deserializer<'de>>(x: &Issuer, d: D) requires wf_mkp(x.keypair), x.keypair.secret.xn@.len() >= 1, d.given() == Given::Nums(enc_issuer(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_issuer(*x)); }
    proof {
        lem_okb_mkp(x.keypair);
        assert(part(b@, 0, 64) =~= enc_sp(x.system_parameters)); assert(rest(b@, 64) =~= enc_mkp(x.keypair));
        assert(part(enc_sp(x.system_parameters), 0, 32) =~= enc_p(x.system_parameters.g)); assert(part(enc_sp(x.system_parameters), 32, 64) =~= enc_p(x.system_parameters.h));
    }
    let r = Issuer::deserialize(d);
    proof { lem_issuer_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: Signal issuers
pub fn client_serde_sissuer_bytes<'de, D: Deserializer<'de>>(x: &SignalIssuer, d: D) requires wf_mkp(x.issuer.keypair), x.issuer.keypair.secret.xn@.len() >= 1, d.given() == Given::Bytes(enc_issuer(x.issuer)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_issuer(x.issuer)); }
    proof {
        let y = x.issuer;
        lem_okb_mkp(y.keypair);
        assert(part(b@, 0, 64) =~= enc_sp(y.system_parameters)); assert(rest(b@, 64) =~= enc_mkp(y.keypair));
        assert(part(enc_sp(y.system_parameters), 0, 32) =~= enc_p(y.system_parameters.g)); assert(part(enc_sp(y.system_parameters), 32, 64) =~= enc_p(y.system_parameters.h));
    }
    let r = SignalIssuer::deserialize(d);
    proof { lem_issuer_inj(x.issuer, r->Ok_0.issuer); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: Signal issuers, as numbers
pub fn client_serde_sissuer_nums<'de, D: Deserializer<'de>>(x: &SignalIssuer, d: D) requires wf_mkp(x.issuer.keypair), x.issuer.keypair.secret.xn@.len() >= 1, d.given() == Given::Nums(enc_issuer(x.issuer)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_issuer(x.issuer)); }
    proof {
        let y = x.issuer;
        lem_okb_mkp(y.keypair);
        assert(part(b@, 0, 64) =~= enc_sp(y.system_parameters)); assert(rest(b@, 64) =~= enc_mkp(y.keypair));
        assert(part(enc_sp(y.system_parameters), 0, 32) =~= enc_p(y.system_parameters.g)); assert(part(enc_sp(y.system_parameters), 32, 64) =~= enc_p(y.system_parameters.h));
    }
    let r = SignalIssuer::deserialize(d);
    proof { lem_issuer_inj(x.issuer, r->Ok_0.issuer); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: users
pub fn client_serde_user_bytes<'de, D: Deserializer<'de>>(x: &User, d: D) requires wf_user(*x), d.given() == Given::Bytes(enc_user(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_user(*x)); } proof { lem_okb_user(*x); } let r = User::deserialize(d); proof { lem_user_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: users, as numbers
pub fn client_serde_user_nums<'de, D: Deserializer<'de>>(x: &User, d: D) requires wf_user(*x), d.given() == Given::Nums(enc_user(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_user(*x)); } proof { lem_okb_user(*x); } let r = User::deserialize(d); proof { lem_user_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: phone numbers
pub fn client_serde_phone_bytes<'de, D: Deserializer<'de>>(x: &PhoneNumber, d: D) requires d.given() == Given::Bytes(enc_s(x.0)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_s(x.0)); } let r = PhoneNumber::deserialize(d); proof { lem_enc_s_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: phone numbers, as numbers
pub fn client_serde_phone_nums<'de, D: Deserializer<'de>>(x: &PhoneNumber, d: D) requires d.given() == Given::Nums(enc_s(x.0)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_s(x.0)); } let r = PhoneNumber::deserialize(d); proof { lem_enc_s_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: committed phone numbers
pub fn client_serde_cpn_bytes<'de, D: Deserializer<'de>>(x: &CommittedPhoneNumber, d: D) requires d.given() == Given::Bytes(enc_com(x.0)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_com(x.0)); } let r = CommittedPhoneNumber::deserialize(d); proof { lem_enc_p_inj(x.0.0, r->Ok_0.0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: committed phone numbers, as numbers
pub fn client_serde_cpn_nums<'de, D: Deserializer<'de>>(x: &CommittedPhoneNumber, d: D) requires d.given() == Given::Nums(enc_com(x.0)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_com(x.0)); } let r = CommittedPhoneNumber::deserialize(d); proof { lem_enc_p_inj(x.0.0, r->Ok_0.0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: roster entries
pub fn client_serde_roster_bytes<'de, D: Deserializer<'de>>(x: &RosterEntryCommitment, d: D) requires d.given() == Given::Bytes(enc_roster(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_roster(*x)); }
    proof { assert(part(b@, 0, 32) =~= enc_com(x.commitment.0)); assert(part(b@, 32, 64) =~= enc_s(x.opening.0)); }
    let r = RosterEntryCommitment::deserialize(d);
    proof { lem_roster_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: roster entries, as numbers
pub fn client_serde_roster_nums<'de, D: Deserializer<'de>>(x: &RosterEntryCommitment, d: D) requires d.given() == Given::Nums(enc_roster(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_roster(*x)); }
    proof { assert(part(b@, 0, 32) =~= enc_com(x.commitment.0)); assert(part(b@, 32, 64) =~= enc_s(x.opening.0)); }
    let r = RosterEntryCommitment::deserialize(d);
    proof { lem_roster_inj(*x, r->Ok_0); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: Signal presentations
pub fn client_serde_spres_bytes<'de, D: Deserializer<'de>>(x: &SignalCredentialPresentation, d: D) requires wf_pres(x.presentation), d.given() == Given::Bytes(enc_spres(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_spres(*x)); } proof { lem_okb_spres(*x); } let r = SignalCredentialPresentation::deserialize(d); proof { lem_spres_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: Signal presentations, as numbers
pub fn client_serde_spres_nums<'de, D: Deserializer<'de>>(x: &SignalCredentialPresentation, d: D) requires wf_pres(x.presentation), d.given() == Given::Nums(enc_spres(*x)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_spres(*x)); } proof { lem_okb_spres(*x); } let r = SignalCredentialPresentation::deserialize(d); proof { lem_spres_inj(*x, r->Ok_0); } assert(r matches Ok(y) && y == *x); }
//@ C25: verified Signal credentials
pub fn client_serde_sverified_bytes<'de, D: Deserializer<'de>>(x: &VerifiedSignalCredential, d: D) requires wf_pres(x.0.presentation), d.given() == Given::Bytes(enc_spres(x.0)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_spres(x.0)); } proof { lem_okb_spres(x.0); } let r = VerifiedSignalCredential::deserialize(d); proof { lem_spres_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: verified Signal credentials, as numbers
pub fn client_serde_sverified_nums<'de, D: Deserializer<'de>>(x: &VerifiedSignalCredential, d: D) requires wf_pres(x.0.presentation), d.given() == Given::Nums(enc_spres(x.0)) { let b = x.to_bytes(); proof { assert(b@ =~= enc_spres(x.0)); } proof { lem_okb_spres(x.0); } let r = VerifiedSignalCredential::deserialize(d); proof { lem_spres_inj(x.0, r->Ok_0.0); } assert(r matches Ok(y) && y == *x); }
//@ C25: Signal users
pub fn client_serde_suser_bytes<'de, D: Deserializer<'de>>(x: &SignalUser, d: D) requires wf_user(x.user), d.given() == Given::Bytes(enc_suser(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_suser(*x)); }
    proof { lem_okb_user(x.user); assert(part(b@, 0, 32) =~= enc_s(x.phone_number.0)); assert(rest(b@, 32) =~= enc_user(x.user)); }
    let r = SignalUser::deserialize(d);
    proof { lem_cat(enc_s(x.phone_number.0), enc_user(x.user), enc_s(r->Ok_0.phone_number.0), enc_user(r->Ok_0.user)); lem_enc_s_inj(x.phone_number.0, r->Ok_0.phone_number.0); lem_user_inj(x.user, r->Ok_0.user); }
    assert(r matches Ok(y) && y == *x);
}
//@ C25: Signal users, as numbers
pub fn client_serde_suser_nums<'de, D: Deserializer<'de>>(x: &SignalUser, d: D) requires wf_user(x.user), d.given() == Given::Nums(enc_suser(*x)) {
    let b = x.to_bytes(); proof { assert(b@ =~= enc_suser(*x)); }
    proof { lem_okb_user(x.user); assert(part(b@, 0, 32) =~= enc_s(x.phone_number.0)); assert(rest(b@, 32) =~= enc_user(x.user)); }
    let r = SignalUser::deserialize(d);
    proof { lem_cat(enc_s(x.phone_number.0), enc_user(x.user), enc_s(r->Ok_0.phone_number.0), enc_user(r->Ok_0.user)); lem_enc_s_inj(x.phone_number.0, r->Ok_0.phone_number.0); lem_user_inj(x.user, r->Ok_0.user); }
    assert(r matches Ok(y) && y == *x);
}
} // mod props_serde
