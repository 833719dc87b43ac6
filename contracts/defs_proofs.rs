// Written by tools/gen_proofs.py.  What the five proofs state, and what it is to make and to accept one.
pub mod defs_proofs {
use vstd::prelude::*;
use crate::spec::*;
use crate::aeonflux::proofs;
use crate::ext::curve25519_dalek::scalar::Scalar;
use crate::ext::curve25519_dalek::ristretto::RistrettoPoint;

// ---- issuance_revealed
/// The statement.
pub open spec fn issuance_revealed_holds(s_x0: Scalar, s_x1: Scalar, s_x0_tilde: Scalar, s_m1x1: Scalar, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint) -> bool {
    dl(p_Q) == sadd(smul(s_x0, dl(p_P)), smul(s_m1x1, dl(p_P)))
    && dl(p_Cx0) == sadd(smul(s_x0, dl(p_B)), smul(s_x0_tilde, dl(p_A)))
    && dl(p_X1) == smul(s_x1, dl(p_A))
}
/// What the transcript has absorbed before the random numbers are drawn.
pub open spec fn issuance_revealed_pre(t: Seq<Ev>, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint) -> Seq<Ev> {
    tcom(tcom(tcom(tcom(tcom(tcom(tcom(t, L"domain-sep", L"issuance_revealed"), L"P", enc_p(p_P)), L"Q", enc_p(p_Q)), L"Cx0", enc_p(p_Cx0)), L"B", enc_p(p_B)), L"A", enc_p(p_A)), L"X1", enc_p(p_X1))
}
/// What it has absorbed when the challenge is asked for.
pub open spec fn issuance_revealed_ts(t: Seq<Ev>, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint, k_Q: Scalar, k_Cx0: Scalar, k_X1: Scalar) -> Seq<Ev> {
    tcom(tcom(tcom(issuance_revealed_pre(t, p_P, p_Q, p_Cx0, p_B, p_A, p_X1), L"com Q", enc_p(pt(k_Q))), L"com Cx0", enc_p(pt(k_Cx0))), L"com X1", enc_p(pt(k_X1)))
}
pub open spec fn issuance_revealed_k_Q(proof: proofs::issuance_revealed::Proof, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.x0, dl(p_P)), smul(proof.responses.m1x1, dl(p_P))), smul(sneg(proof.challenge), dl(p_Q)))
}
pub open spec fn issuance_revealed_k_Cx0(proof: proofs::issuance_revealed::Proof, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.x0, dl(p_B)), smul(proof.responses.x0_tilde, dl(p_A))), smul(sneg(proof.challenge), dl(p_Cx0)))
}
pub open spec fn issuance_revealed_k_X1(proof: proofs::issuance_revealed::Proof, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint) -> Scalar {
    sadd(smul(proof.responses.x1, dl(p_A)), smul(sneg(proof.challenge), dl(p_X1)))
}
/// The verification equation.
pub open spec fn issuance_revealed_accepts(proof: proofs::issuance_revealed::Proof, t: Seq<Ev>, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint) -> bool {
    proof.challenge == challenge(issuance_revealed_ts(t, p_P, p_Q, p_Cx0, p_B, p_A, p_X1, issuance_revealed_k_Q(proof, p_P, p_Q, p_Cx0, p_B, p_A, p_X1), issuance_revealed_k_Cx0(proof, p_P, p_Q, p_Cx0, p_B, p_A, p_X1), issuance_revealed_k_X1(proof, p_P, p_Q, p_Cx0, p_B, p_A, p_X1)))
}
/// A proof made from these secrets: the response to each secret is the challenge times it, and a blinding.
pub open spec fn issuance_revealed_made(proof: proofs::issuance_revealed::Proof, t: Seq<Ev>, s_x0: Scalar, s_x1: Scalar, s_x0_tilde: Scalar, s_m1x1: Scalar, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint) -> bool {
    let b_x0 = ssub(proof.responses.x0, smul(proof.challenge, s_x0));
    let b_x1 = ssub(proof.responses.x1, smul(proof.challenge, s_x1));
    let b_x0_tilde = ssub(proof.responses.x0_tilde, smul(proof.challenge, s_x0_tilde));
    let b_m1x1 = ssub(proof.responses.m1x1, smul(proof.challenge, s_m1x1));
    proof.challenge == challenge(issuance_revealed_ts(t, p_P, p_Q, p_Cx0, p_B, p_A, p_X1, sadd(smul(b_x0, dl(p_P)), smul(b_m1x1, dl(p_P))), sadd(smul(b_x0, dl(p_B)), smul(b_x0_tilde, dl(p_A))), smul(b_x1, dl(p_A))))
}
/// The blindings are different draws of one generator, made from the whole statement, every secret and the system's random numbers.
pub open spec fn issuance_revealed_blinded(proof: proofs::issuance_revealed::Proof, t: Seq<Ev>, s_x0: Scalar, s_x1: Scalar, s_x0_tilde: Scalar, s_m1x1: Scalar, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint) -> bool {
    exists|src: int, i_x0: int, i_x1: int, i_x0_tilde: int, i_m1x1: int| #![trigger draw_s(src, i_x0), draw_s(src, i_x1), draw_s(src, i_x0_tilde), draw_s(src, i_m1x1)] {
        &&& draw_s(src, i_x0) == ssub(proof.responses.x0, smul(proof.challenge, s_x0))
        &&& draw_s(src, i_x1) == ssub(proof.responses.x1, smul(proof.challenge, s_x1))
        &&& draw_s(src, i_x0_tilde) == ssub(proof.responses.x0_tilde, smul(proof.challenge, s_x0_tilde))
        &&& draw_s(src, i_m1x1) == ssub(proof.responses.m1x1, smul(proof.challenge, s_m1x1))
        &&& i_x0 != i_x1
        &&& i_x0 != i_x0_tilde
        &&& i_x1 != i_x0_tilde
        &&& i_x0 != i_m1x1
        &&& i_x1 != i_m1x1
        &&& i_x0_tilde != i_m1x1
        &&& exists|c: Ctor, g: Rng| src == #[trigger] seeded(c, g) && is_system(g.src) && issuance_revealed_pre(t, p_P, p_Q, p_Cx0, p_B, p_A, p_X1) == c.t
            && w_has(c.w, enc_s(s_x0)) && w_has(c.w, enc_s(s_x1)) && w_has(c.w, enc_s(s_x0_tilde)) && w_has(c.w, enc_s(s_m1x1))
    }
}
// ---- attributes_blinded
/// The statement.
pub open spec fn attributes_blinded_holds(s_d: Scalar, s_e0: Scalar, s_m0: Scalar, s_nonce: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> bool {
    dl(p_D) == smul(s_d, dl(p_B))
    && dl(p_encrypted_attribute_0_0) == smul(s_e0, dl(p_B))
    && dl(p_encrypted_attribute_0_1) == sadd(smul(s_m0, dl(p_B)), smul(s_e0, dl(p_D)))
}
/// What the transcript has absorbed before the random numbers are drawn.
pub open spec fn attributes_blinded_pre(t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Seq<Ev> {
    tcom(tcom(tcom(tcom(tcom(tcom(t, L"domain-sep", L"attributes_blinded"), L"B", enc_p(p_B)), L"A", enc_p(p_A)), L"D", enc_p(p_D)), L"encrypted_attribute_0_0", enc_p(p_encrypted_attribute_0_0)), L"encrypted_attribute_0_1", enc_p(p_encrypted_attribute_0_1))
}
/// What it has absorbed when the challenge is asked for.
pub open spec fn attributes_blinded_ts(t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint, k_D: Scalar, k_encrypted_attribute_0_0: Scalar, k_encrypted_attribute_0_1: Scalar) -> Seq<Ev> {
    tcom(tcom(tcom(attributes_blinded_pre(t, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), L"com D", enc_p(pt(k_D))), L"com encrypted_attribute_0_0", enc_p(pt(k_encrypted_attribute_0_0))), L"com encrypted_attribute_0_1", enc_p(pt(k_encrypted_attribute_0_1)))
}
pub open spec fn attributes_blinded_k_D(proof: proofs::attributes_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(smul(proof.responses.d, dl(p_B)), smul(sneg(proof.challenge), dl(p_D)))
}
pub open spec fn attributes_blinded_k_encrypted_attribute_0_0(proof: proofs::attributes_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(smul(proof.responses.e0, dl(p_B)), smul(sneg(proof.challenge), dl(p_encrypted_attribute_0_0)))
}
pub open spec fn attributes_blinded_k_encrypted_attribute_0_1(proof: proofs::attributes_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.m0, dl(p_B)), smul(proof.responses.e0, dl(p_D))), smul(sneg(proof.challenge), dl(p_encrypted_attribute_0_1)))
}
/// The verification equation.
pub open spec fn attributes_blinded_accepts(proof: proofs::attributes_blinded::Proof, t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> bool {
    proof.challenge == challenge(attributes_blinded_ts(t, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1, attributes_blinded_k_D(proof, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), attributes_blinded_k_encrypted_attribute_0_0(proof, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), attributes_blinded_k_encrypted_attribute_0_1(proof, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1)))
}
/// A proof made from these secrets: the response to each secret is the challenge times it, and a blinding.
pub open spec fn attributes_blinded_made(proof: proofs::attributes_blinded::Proof, t: Seq<Ev>, s_d: Scalar, s_e0: Scalar, s_m0: Scalar, s_nonce: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> bool {
    let b_d = ssub(proof.responses.d, smul(proof.challenge, s_d));
    let b_e0 = ssub(proof.responses.e0, smul(proof.challenge, s_e0));
    let b_m0 = ssub(proof.responses.m0, smul(proof.challenge, s_m0));
    let b_nonce = ssub(proof.responses.nonce, smul(proof.challenge, s_nonce));
    proof.challenge == challenge(attributes_blinded_ts(t, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1, smul(b_d, dl(p_B)), smul(b_e0, dl(p_B)), sadd(smul(b_m0, dl(p_B)), smul(b_e0, dl(p_D)))))
}
/// The blindings are different draws of one generator, made from the whole statement, every secret and the system's random numbers.
pub open spec fn attributes_blinded_blinded(proof: proofs::attributes_blinded::Proof, t: Seq<Ev>, s_d: Scalar, s_e0: Scalar, s_m0: Scalar, s_nonce: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> bool {
    exists|src: int, i_d: int, i_e0: int, i_m0: int, i_nonce: int| #![trigger draw_s(src, i_d), draw_s(src, i_e0), draw_s(src, i_m0), draw_s(src, i_nonce)] {
        &&& draw_s(src, i_d) == ssub(proof.responses.d, smul(proof.challenge, s_d))
        &&& draw_s(src, i_e0) == ssub(proof.responses.e0, smul(proof.challenge, s_e0))
        &&& draw_s(src, i_m0) == ssub(proof.responses.m0, smul(proof.challenge, s_m0))
        &&& draw_s(src, i_nonce) == ssub(proof.responses.nonce, smul(proof.challenge, s_nonce))
        &&& i_d != i_e0
        &&& i_d != i_m0
        &&& i_e0 != i_m0
        &&& i_d != i_nonce
        &&& i_e0 != i_nonce
        &&& i_m0 != i_nonce
        &&& exists|c: Ctor, g: Rng| src == #[trigger] seeded(c, g) && is_system(g.src) && attributes_blinded_pre(t, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == c.t
            && w_has(c.w, enc_s(s_d)) && w_has(c.w, enc_s(s_e0)) && w_has(c.w, enc_s(s_m0)) && w_has(c.w, enc_s(s_nonce))
    }
}
// ---- issuance_blinded
/// The statement.
pub open spec fn issuance_blinded_holds(s_x0_tilde: Scalar, s_x0: Scalar, s_x1: Scalar, s_s: Scalar, s_b: Scalar, s_t0: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> bool {
    dl(p_X0) == sadd(smul(s_x0, dl(p_B)), smul(s_x0_tilde, dl(p_A)))
    && dl(p_X1) == smul(s_x1, dl(p_A))
    && dl(p_P) == smul(s_b, dl(p_B))
    && dl(p_T0_0) == smul(s_b, dl(p_X0))
    && dl(p_T0_1) == smul(s_t0, dl(p_A))
    && dl(p_EQ_commitment) == sadd(smul(s_s, dl(p_B)), smul(s_t0, dl(p_encrypted_attribute_0_0)))
    && dl(p_EQ_encryption) == sadd(smul(s_s, dl(p_D)), smul(s_t0, dl(p_encrypted_attribute_0_1)))
}
/// What the transcript has absorbed before the random numbers are drawn.
pub open spec fn issuance_blinded_pre(t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Seq<Ev> {
    tcom(tcom(tcom(tcom(tcom(tcom(tcom(tcom(tcom(tcom(tcom(tcom(tcom(t, L"domain-sep", L"issuance_blinded"), L"B", enc_p(p_B)), L"A", enc_p(p_A)), L"X0", enc_p(p_X0)), L"X1", enc_p(p_X1)), L"D", enc_p(p_D)), L"P", enc_p(p_P)), L"T0_0", enc_p(p_T0_0)), L"T0_1", enc_p(p_T0_1)), L"EQ_commitment", enc_p(p_EQ_commitment)), L"EQ_encryption", enc_p(p_EQ_encryption)), L"encrypted_attribute_0_0", enc_p(p_encrypted_attribute_0_0)), L"encrypted_attribute_0_1", enc_p(p_encrypted_attribute_0_1))
}
/// What it has absorbed when the challenge is asked for.
pub open spec fn issuance_blinded_ts(t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint, k_X0: Scalar, k_X1: Scalar, k_P: Scalar, k_T0_0: Scalar, k_T0_1: Scalar, k_EQ_commitment: Scalar, k_EQ_encryption: Scalar) -> Seq<Ev> {
    tcom(tcom(tcom(tcom(tcom(tcom(tcom(issuance_blinded_pre(t, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), L"com X0", enc_p(pt(k_X0))), L"com X1", enc_p(pt(k_X1))), L"com P", enc_p(pt(k_P))), L"com T0_0", enc_p(pt(k_T0_0))), L"com T0_1", enc_p(pt(k_T0_1))), L"com EQ_commitment", enc_p(pt(k_EQ_commitment))), L"com EQ_encryption", enc_p(pt(k_EQ_encryption)))
}
pub open spec fn issuance_blinded_k_X0(proof: proofs::issuance_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.x0, dl(p_B)), smul(proof.responses.x0_tilde, dl(p_A))), smul(sneg(proof.challenge), dl(p_X0)))
}
pub open spec fn issuance_blinded_k_X1(proof: proofs::issuance_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(smul(proof.responses.x1, dl(p_A)), smul(sneg(proof.challenge), dl(p_X1)))
}
pub open spec fn issuance_blinded_k_P(proof: proofs::issuance_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(smul(proof.responses.b, dl(p_B)), smul(sneg(proof.challenge), dl(p_P)))
}
pub open spec fn issuance_blinded_k_T0_0(proof: proofs::issuance_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(smul(proof.responses.b, dl(p_X0)), smul(sneg(proof.challenge), dl(p_T0_0)))
}
pub open spec fn issuance_blinded_k_T0_1(proof: proofs::issuance_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(smul(proof.responses.t0, dl(p_A)), smul(sneg(proof.challenge), dl(p_T0_1)))
}
pub open spec fn issuance_blinded_k_EQ_commitment(proof: proofs::issuance_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.s, dl(p_B)), smul(proof.responses.t0, dl(p_encrypted_attribute_0_0))), smul(sneg(proof.challenge), dl(p_EQ_commitment)))
}
pub open spec fn issuance_blinded_k_EQ_encryption(proof: proofs::issuance_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.s, dl(p_D)), smul(proof.responses.t0, dl(p_encrypted_attribute_0_1))), smul(sneg(proof.challenge), dl(p_EQ_encryption)))
}
/// The verification equation.
pub open spec fn issuance_blinded_accepts(proof: proofs::issuance_blinded::Proof, t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> bool {
    proof.challenge == challenge(issuance_blinded_ts(t, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1, issuance_blinded_k_X0(proof, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), issuance_blinded_k_X1(proof, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), issuance_blinded_k_P(proof, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), issuance_blinded_k_T0_0(proof, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), issuance_blinded_k_T0_1(proof, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), issuance_blinded_k_EQ_commitment(proof, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), issuance_blinded_k_EQ_encryption(proof, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1)))
}
/// A proof made from these secrets: the response to each secret is the challenge times it, and a blinding.
pub open spec fn issuance_blinded_made(proof: proofs::issuance_blinded::Proof, t: Seq<Ev>, s_x0_tilde: Scalar, s_x0: Scalar, s_x1: Scalar, s_s: Scalar, s_b: Scalar, s_t0: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> bool {
    let b_x0_tilde = ssub(proof.responses.x0_tilde, smul(proof.challenge, s_x0_tilde));
    let b_x0 = ssub(proof.responses.x0, smul(proof.challenge, s_x0));
    let b_x1 = ssub(proof.responses.x1, smul(proof.challenge, s_x1));
    let b_s = ssub(proof.responses.s, smul(proof.challenge, s_s));
    let b_b = ssub(proof.responses.b, smul(proof.challenge, s_b));
    let b_t0 = ssub(proof.responses.t0, smul(proof.challenge, s_t0));
    proof.challenge == challenge(issuance_blinded_ts(t, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1, sadd(smul(b_x0, dl(p_B)), smul(b_x0_tilde, dl(p_A))), smul(b_x1, dl(p_A)), smul(b_b, dl(p_B)), smul(b_b, dl(p_X0)), smul(b_t0, dl(p_A)), sadd(smul(b_s, dl(p_B)), smul(b_t0, dl(p_encrypted_attribute_0_0))), sadd(smul(b_s, dl(p_D)), smul(b_t0, dl(p_encrypted_attribute_0_1)))))
}
/// The blindings are different draws of one generator, made from the whole statement, every secret and the system's random numbers.
pub open spec fn issuance_blinded_blinded(proof: proofs::issuance_blinded::Proof, t: Seq<Ev>, s_x0_tilde: Scalar, s_x0: Scalar, s_x1: Scalar, s_s: Scalar, s_b: Scalar, s_t0: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> bool {
    exists|src: int, i_x0_tilde: int, i_x0: int, i_x1: int, i_s: int, i_b: int, i_t0: int| #![trigger draw_s(src, i_x0_tilde), draw_s(src, i_x0), draw_s(src, i_x1), draw_s(src, i_s), draw_s(src, i_b), draw_s(src, i_t0)] {
        &&& draw_s(src, i_x0_tilde) == ssub(proof.responses.x0_tilde, smul(proof.challenge, s_x0_tilde))
        &&& draw_s(src, i_x0) == ssub(proof.responses.x0, smul(proof.challenge, s_x0))
        &&& draw_s(src, i_x1) == ssub(proof.responses.x1, smul(proof.challenge, s_x1))
        &&& draw_s(src, i_s) == ssub(proof.responses.s, smul(proof.challenge, s_s))
        &&& draw_s(src, i_b) == ssub(proof.responses.b, smul(proof.challenge, s_b))
        &&& draw_s(src, i_t0) == ssub(proof.responses.t0, smul(proof.challenge, s_t0))
        &&& i_x0_tilde != i_x0
        &&& i_x0_tilde != i_x1
        &&& i_x0 != i_x1
        &&& i_x0_tilde != i_s
        &&& i_x0 != i_s
        &&& i_x1 != i_s
        &&& i_x0_tilde != i_b
        &&& i_x0 != i_b
        &&& i_x1 != i_b
        &&& i_s != i_b
        &&& i_x0_tilde != i_t0
        &&& i_x0 != i_t0
        &&& i_x1 != i_t0
        &&& i_s != i_t0
        &&& i_b != i_t0
        &&& exists|c: Ctor, g: Rng| src == #[trigger] seeded(c, g) && is_system(g.src) && issuance_blinded_pre(t, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == c.t
            && w_has(c.w, enc_s(s_x0_tilde)) && w_has(c.w, enc_s(s_x0)) && w_has(c.w, enc_s(s_x1)) && w_has(c.w, enc_s(s_s)) && w_has(c.w, enc_s(s_b)) && w_has(c.w, enc_s(s_t0))
    }
}
// ---- valid_credential
/// The statement.
pub open spec fn valid_credential_holds(s_m0: Scalar, s_z0: Scalar, s_minus_zQ: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint) -> bool {
    dl(p_Cm0) == sadd(smul(s_m0, dl(p_P)), smul(s_z0, dl(p_A)))
    && dl(p_V) == sadd(smul(s_z0, dl(p_X0)), smul(s_minus_zQ, dl(p_A)))
}
/// What the transcript has absorbed before the random numbers are drawn.
pub open spec fn valid_credential_pre(t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint) -> Seq<Ev> {
    tcom(tcom(tcom(tcom(tcom(tcom(tcom(t, L"domain-sep", L"valid_credential"), L"B", enc_p(p_B)), L"A", enc_p(p_A)), L"X0", enc_p(p_X0)), L"P", enc_p(p_P)), L"V", enc_p(p_V)), L"Cm0", enc_p(p_Cm0))
}
/// What it has absorbed when the challenge is asked for.
pub open spec fn valid_credential_ts(t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint, k_Cm0: Scalar, k_V: Scalar) -> Seq<Ev> {
    tcom(tcom(valid_credential_pre(t, p_B, p_A, p_X0, p_P, p_V, p_Cm0), L"com Cm0", enc_p(pt(k_Cm0))), L"com V", enc_p(pt(k_V)))
}
pub open spec fn valid_credential_k_Cm0(proof: proofs::valid_credential::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.m0, dl(p_P)), smul(proof.responses.z0, dl(p_A))), smul(sneg(proof.challenge), dl(p_Cm0)))
}
pub open spec fn valid_credential_k_V(proof: proofs::valid_credential::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.z0, dl(p_X0)), smul(proof.responses.minus_zQ, dl(p_A))), smul(sneg(proof.challenge), dl(p_V)))
}
/// The verification equation.
pub open spec fn valid_credential_accepts(proof: proofs::valid_credential::Proof, t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint) -> bool {
    proof.challenge == challenge(valid_credential_ts(t, p_B, p_A, p_X0, p_P, p_V, p_Cm0, valid_credential_k_Cm0(proof, p_B, p_A, p_X0, p_P, p_V, p_Cm0), valid_credential_k_V(proof, p_B, p_A, p_X0, p_P, p_V, p_Cm0)))
}
/// A proof made from these secrets: the response to each secret is the challenge times it, and a blinding.
pub open spec fn valid_credential_made(proof: proofs::valid_credential::Proof, t: Seq<Ev>, s_m0: Scalar, s_z0: Scalar, s_minus_zQ: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint) -> bool {
    let b_m0 = ssub(proof.responses.m0, smul(proof.challenge, s_m0));
    let b_z0 = ssub(proof.responses.z0, smul(proof.challenge, s_z0));
    let b_minus_zQ = ssub(proof.responses.minus_zQ, smul(proof.challenge, s_minus_zQ));
    proof.challenge == challenge(valid_credential_ts(t, p_B, p_A, p_X0, p_P, p_V, p_Cm0, sadd(smul(b_m0, dl(p_P)), smul(b_z0, dl(p_A))), sadd(smul(b_z0, dl(p_X0)), smul(b_minus_zQ, dl(p_A)))))
}
/// The blindings are different draws of one generator, made from the whole statement, every secret and the system's random numbers.
pub open spec fn valid_credential_blinded(proof: proofs::valid_credential::Proof, t: Seq<Ev>, s_m0: Scalar, s_z0: Scalar, s_minus_zQ: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint) -> bool {
    exists|src: int, i_m0: int, i_z0: int, i_minus_zQ: int| #![trigger draw_s(src, i_m0), draw_s(src, i_z0), draw_s(src, i_minus_zQ)] {
        &&& draw_s(src, i_m0) == ssub(proof.responses.m0, smul(proof.challenge, s_m0))
        &&& draw_s(src, i_z0) == ssub(proof.responses.z0, smul(proof.challenge, s_z0))
        &&& draw_s(src, i_minus_zQ) == ssub(proof.responses.minus_zQ, smul(proof.challenge, s_minus_zQ))
        &&& i_m0 != i_z0
        &&& i_m0 != i_minus_zQ
        &&& i_z0 != i_minus_zQ
        &&& exists|c: Ctor, g: Rng| src == #[trigger] seeded(c, g) && is_system(g.src) && valid_credential_pre(t, p_B, p_A, p_X0, p_P, p_V, p_Cm0) == c.t
            && w_has(c.w, enc_s(s_m0)) && w_has(c.w, enc_s(s_z0)) && w_has(c.w, enc_s(s_minus_zQ))
    }
}
// ---- committed_values_equal
/// The statement.
pub open spec fn committed_values_equal_holds(s_m0: Scalar, s_z0: Scalar, s_z1: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint) -> bool {
    dl(p_Cm0) == sadd(smul(s_m0, dl(p_P)), smul(s_z0, dl(p_A)))
    && dl(p_Cm1) == sadd(smul(s_m0, dl(p_A)), smul(s_z1, dl(p_B)))
}
/// What the transcript has absorbed before the random numbers are drawn.
pub open spec fn committed_values_equal_pre(t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint) -> Seq<Ev> {
    tcom(tcom(tcom(tcom(tcom(tcom(t, L"domain-sep", L"committed_values_equal"), L"B", enc_p(p_B)), L"A", enc_p(p_A)), L"P", enc_p(p_P)), L"Cm0", enc_p(p_Cm0)), L"Cm1", enc_p(p_Cm1))
}
/// What it has absorbed when the challenge is asked for.
pub open spec fn committed_values_equal_ts(t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint, k_Cm0: Scalar, k_Cm1: Scalar) -> Seq<Ev> {
    tcom(tcom(committed_values_equal_pre(t, p_B, p_A, p_P, p_Cm0, p_Cm1), L"com Cm0", enc_p(pt(k_Cm0))), L"com Cm1", enc_p(pt(k_Cm1)))
}
pub open spec fn committed_values_equal_k_Cm0(proof: proofs::committed_values_equal::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.m0, dl(p_P)), smul(proof.responses.z0, dl(p_A))), smul(sneg(proof.challenge), dl(p_Cm0)))
}
pub open spec fn committed_values_equal_k_Cm1(proof: proofs::committed_values_equal::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint) -> Scalar {
    sadd(sadd(smul(proof.responses.m0, dl(p_A)), smul(proof.responses.z1, dl(p_B))), smul(sneg(proof.challenge), dl(p_Cm1)))
}
/// The verification equation.
pub open spec fn committed_values_equal_accepts(proof: proofs::committed_values_equal::Proof, t: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint) -> bool {
    proof.challenge == challenge(committed_values_equal_ts(t, p_B, p_A, p_P, p_Cm0, p_Cm1, committed_values_equal_k_Cm0(proof, p_B, p_A, p_P, p_Cm0, p_Cm1), committed_values_equal_k_Cm1(proof, p_B, p_A, p_P, p_Cm0, p_Cm1)))
}
/// A proof made from these secrets: the response to each secret is the challenge times it, and a blinding.
pub open spec fn committed_values_equal_made(proof: proofs::committed_values_equal::Proof, t: Seq<Ev>, s_m0: Scalar, s_z0: Scalar, s_z1: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint) -> bool {
    let b_m0 = ssub(proof.responses.m0, smul(proof.challenge, s_m0));
    let b_z0 = ssub(proof.responses.z0, smul(proof.challenge, s_z0));
    let b_z1 = ssub(proof.responses.z1, smul(proof.challenge, s_z1));
    proof.challenge == challenge(committed_values_equal_ts(t, p_B, p_A, p_P, p_Cm0, p_Cm1, sadd(smul(b_m0, dl(p_P)), smul(b_z0, dl(p_A))), sadd(smul(b_m0, dl(p_A)), smul(b_z1, dl(p_B)))))
}
/// The blindings are different draws of one generator, made from the whole statement, every secret and the system's random numbers.
pub open spec fn committed_values_equal_blinded(proof: proofs::committed_values_equal::Proof, t: Seq<Ev>, s_m0: Scalar, s_z0: Scalar, s_z1: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint) -> bool {
    exists|src: int, i_m0: int, i_z0: int, i_z1: int| #![trigger draw_s(src, i_m0), draw_s(src, i_z0), draw_s(src, i_z1)] {
        &&& draw_s(src, i_m0) == ssub(proof.responses.m0, smul(proof.challenge, s_m0))
        &&& draw_s(src, i_z0) == ssub(proof.responses.z0, smul(proof.challenge, s_z0))
        &&& draw_s(src, i_z1) == ssub(proof.responses.z1, smul(proof.challenge, s_z1))
        &&& i_m0 != i_z0
        &&& i_m0 != i_z1
        &&& i_z0 != i_z1
        &&& exists|c: Ctor, g: Rng| src == #[trigger] seeded(c, g) && is_system(g.src) && committed_values_equal_pre(t, p_B, p_A, p_P, p_Cm0, p_Cm1) == c.t
            && w_has(c.w, enc_s(s_m0)) && w_has(c.w, enc_s(s_z0)) && w_has(c.w, enc_s(s_z1))
    }
}
} // mod defs_proofs
