// Written by tools/gen_proofs.py.  Lemmas over the contracts of the five proofs.
pub mod props_proofs {
use vstd::prelude::*;
use crate::spec::*;
use crate::defs_proofs::*;
use crate::aeonflux::proofs;
use crate::ext::curve25519_dalek::scalar::Scalar;
use crate::ext::curve25519_dalek::ristretto::RistrettoPoint;
broadcast use {vstd::group_vstd_default, group_ax, encs};

// ---- issuance_revealed
//@ C12 C05: a proof of issuance_revealed made from secrets for which the statement holds is accepted
pub broadcast proof fn lem_issuance_revealed_complete(proof: proofs::issuance_revealed::Proof, t: Seq<Ev>, s_x0: Scalar, s_x1: Scalar, s_x0_tilde: Scalar, s_m1x1: Scalar, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint)
    requires #[trigger] issuance_revealed_made(proof, t, s_x0, s_x1, s_x0_tilde, s_m1x1, p_P, p_Q, p_Cx0, p_B, p_A, p_X1), issuance_revealed_holds(s_x0, s_x1, s_x0_tilde, s_m1x1, p_P, p_Q, p_Cx0, p_B, p_A, p_X1)
    ensures issuance_revealed_accepts(proof, t, p_P, p_Q, p_Cx0, p_B, p_A, p_X1)
{
    lem_blind2(proof.challenge, proof.responses.x0, s_x0, dl(p_P), proof.responses.m1x1, s_m1x1, dl(p_P));
    lem_blind2(proof.challenge, proof.responses.x0, s_x0, dl(p_B), proof.responses.x0_tilde, s_x0_tilde, dl(p_A));
    lem_blind1(proof.challenge, proof.responses.x1, s_x1, dl(p_A));
}
//@ C14 C06: from two accepting answers of issuance_revealed to different challenges for the same commitments, secrets for which the statement holds can be computed
pub proof fn lem_issuance_revealed_sound(p: proofs::issuance_revealed::Proof, q: proofs::issuance_revealed::Proof, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint) -> (s: (Scalar, Scalar, Scalar, Scalar))
    requires p.challenge != q.challenge,
        issuance_revealed_k_Q(p, p_P, p_Q, p_Cx0, p_B, p_A, p_X1) == issuance_revealed_k_Q(q, p_P, p_Q, p_Cx0, p_B, p_A, p_X1),
        issuance_revealed_k_Cx0(p, p_P, p_Q, p_Cx0, p_B, p_A, p_X1) == issuance_revealed_k_Cx0(q, p_P, p_Q, p_Cx0, p_B, p_A, p_X1),
        issuance_revealed_k_X1(p, p_P, p_Q, p_Cx0, p_B, p_A, p_X1) == issuance_revealed_k_X1(q, p_P, p_Q, p_Cx0, p_B, p_A, p_X1),
    ensures issuance_revealed_holds(s.0, s.1, s.2, s.3, p_P, p_Q, p_Cx0, p_B, p_A, p_X1),
        s.0 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.x0, q.responses.x0)),
        s.1 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.x1, q.responses.x1)),
        s.2 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.x0_tilde, q.responses.x0_tilde)),
        s.3 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.m1x1, q.responses.m1x1)),
{
    let e = ssub(p.challenge, q.challenge);
    lem_diff(p.challenge, q.challenge);
    let i = sinv(e);
    ax_inv(e);
    lem_extract2(i, p.challenge, q.challenge, p.responses.x0, q.responses.x0, p.responses.m1x1, q.responses.m1x1, dl(p_P), dl(p_P), dl(p_Q));
    lem_extract2(i, p.challenge, q.challenge, p.responses.x0, q.responses.x0, p.responses.x0_tilde, q.responses.x0_tilde, dl(p_B), dl(p_A), dl(p_Cx0));
    lem_extract1(i, p.challenge, q.challenge, p.responses.x1, q.responses.x1, dl(p_A), dl(p_X1));
    (smul(i, ssub(p.responses.x0, q.responses.x0)), smul(i, ssub(p.responses.x1, q.responses.x1)), smul(i, ssub(p.responses.x0_tilde, q.responses.x0_tilde)), smul(i, ssub(p.responses.m1x1, q.responses.m1x1)))
}
//@ C13: the challenge of issuance_revealed binds the transcript before it, every public value and every commitment
pub proof fn lem_issuance_revealed_binding(t: Seq<Ev>, u: Seq<Ev>, p_P: RistrettoPoint, p_Q: RistrettoPoint, p_Cx0: RistrettoPoint, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X1: RistrettoPoint, q_P: RistrettoPoint, q_Q: RistrettoPoint, q_Cx0: RistrettoPoint, q_B: RistrettoPoint, q_A: RistrettoPoint, q_X1: RistrettoPoint, k_Q: Scalar, k_Cx0: Scalar, k_X1: Scalar, l_Q: Scalar, l_Cx0: Scalar, l_X1: Scalar)
    requires issuance_revealed_ts(t, p_P, p_Q, p_Cx0, p_B, p_A, p_X1, k_Q, k_Cx0, k_X1) == issuance_revealed_ts(u, q_P, q_Q, q_Cx0, q_B, q_A, q_X1, l_Q, l_Cx0, l_X1)
    ensures t == u, p_P == q_P, p_Q == q_Q, p_Cx0 == q_Cx0, p_B == q_B, p_A == q_A, p_X1 == q_X1, k_Q == l_Q, k_Cx0 == l_Cx0, k_X1 == l_X1
{
    let a0 = tcom(t, L"domain-sep", L"issuance_revealed"); let b0 = tcom(u, L"domain-sep", L"issuance_revealed");
    let a1 = tcom(a0, L"P", enc_p(p_P)); let b1 = tcom(b0, L"P", enc_p(q_P));
    let a2 = tcom(a1, L"Q", enc_p(p_Q)); let b2 = tcom(b1, L"Q", enc_p(q_Q));
    let a3 = tcom(a2, L"Cx0", enc_p(p_Cx0)); let b3 = tcom(b2, L"Cx0", enc_p(q_Cx0));
    let a4 = tcom(a3, L"B", enc_p(p_B)); let b4 = tcom(b3, L"B", enc_p(q_B));
    let a5 = tcom(a4, L"A", enc_p(p_A)); let b5 = tcom(b4, L"A", enc_p(q_A));
    let a6 = tcom(a5, L"X1", enc_p(p_X1)); let b6 = tcom(b5, L"X1", enc_p(q_X1));
    let a7 = tcom(a6, L"com Q", enc_p(pt(k_Q))); let b7 = tcom(b6, L"com Q", enc_p(pt(l_Q)));
    let a8 = tcom(a7, L"com Cx0", enc_p(pt(k_Cx0))); let b8 = tcom(b7, L"com Cx0", enc_p(pt(l_Cx0)));
    let a9 = tcom(a8, L"com X1", enc_p(pt(k_X1))); let b9 = tcom(b8, L"com X1", enc_p(pt(l_X1)));
    lem_tcom(a8, b8, L"com X1", enc_p(pt(k_X1)), enc_p(pt(l_X1)));
    lem_tcom(a7, b7, L"com Cx0", enc_p(pt(k_Cx0)), enc_p(pt(l_Cx0)));
    lem_tcom(a6, b6, L"com Q", enc_p(pt(k_Q)), enc_p(pt(l_Q)));
    lem_tcom(a5, b5, L"X1", enc_p(p_X1), enc_p(q_X1));
    lem_tcom(a4, b4, L"A", enc_p(p_A), enc_p(q_A));
    lem_tcom(a3, b3, L"B", enc_p(p_B), enc_p(q_B));
    lem_tcom(a2, b2, L"Cx0", enc_p(p_Cx0), enc_p(q_Cx0));
    lem_tcom(a1, b1, L"Q", enc_p(p_Q), enc_p(q_Q));
    lem_tcom(a0, b0, L"P", enc_p(p_P), enc_p(q_P));
    lem_tcom(t, u, L"domain-sep", L"issuance_revealed", L"issuance_revealed");
    assert(dec_p(enc_p(p_P)) == dec_p(enc_p(q_P)));
    assert(dec_p(enc_p(p_Q)) == dec_p(enc_p(q_Q)));
    assert(dec_p(enc_p(p_Cx0)) == dec_p(enc_p(q_Cx0)));
    assert(dec_p(enc_p(p_B)) == dec_p(enc_p(q_B)));
    assert(dec_p(enc_p(p_A)) == dec_p(enc_p(q_A)));
    assert(dec_p(enc_p(p_X1)) == dec_p(enc_p(q_X1)));
    assert(dl(dec_p(enc_p(pt(k_Q)))) == dl(dec_p(enc_p(pt(l_Q)))));
    assert(dl(dec_p(enc_p(pt(k_Cx0)))) == dl(dec_p(enc_p(pt(l_Cx0)))));
    assert(dl(dec_p(enc_p(pt(k_X1)))) == dl(dec_p(enc_p(pt(l_X1)))));
}
//@ C29 C16 C17: how long an encoded proof of issuance_revealed is
pub broadcast proof fn lem_issuance_revealed_wire(p: proofs::issuance_revealed::Proof)
    ensures #[trigger] p.wire().len() == 200
{ assert(p.wire() == p.challenge.wire() + p.responses.wire()); }
//@ C16: two proofs of issuance_revealed with the same encoding are the same proof
pub proof fn lem_issuance_revealed_wire_inj(p: proofs::issuance_revealed::Proof, q: proofs::issuance_revealed::Proof)
    requires p.wire() == q.wire()
    ensures p == q
{
    let a = p.wire(); let b = q.wire();
    assert(p.wire() == p.challenge.wire() + p.responses.wire());
    assert(q.wire() == q.challenge.wire() + q.responses.wire());
    assert(enc_s(p.challenge) =~= a.subrange(8, 40)); assert(enc_s(q.challenge) =~= b.subrange(8, 40));
    assert(dec_s(enc_s(p.challenge)) == dec_s(enc_s(q.challenge)));
    assert(enc_s(p.responses.x0) =~= a.subrange(48, 80)); assert(enc_s(q.responses.x0) =~= b.subrange(48, 80));
    assert(dec_s(enc_s(p.responses.x0)) == dec_s(enc_s(q.responses.x0)));
    assert(enc_s(p.responses.x1) =~= a.subrange(88, 120)); assert(enc_s(q.responses.x1) =~= b.subrange(88, 120));
    assert(dec_s(enc_s(p.responses.x1)) == dec_s(enc_s(q.responses.x1)));
    assert(enc_s(p.responses.x0_tilde) =~= a.subrange(128, 160)); assert(enc_s(q.responses.x0_tilde) =~= b.subrange(128, 160));
    assert(dec_s(enc_s(p.responses.x0_tilde)) == dec_s(enc_s(q.responses.x0_tilde)));
    assert(enc_s(p.responses.m1x1) =~= a.subrange(168, 200)); assert(enc_s(q.responses.m1x1) =~= b.subrange(168, 200));
    assert(dec_s(enc_s(p.responses.m1x1)) == dec_s(enc_s(q.responses.m1x1)));
}
// ---- attributes_blinded
//@ C12: a proof of attributes_blinded made from secrets for which the statement holds is accepted
pub broadcast proof fn lem_attributes_blinded_complete(proof: proofs::attributes_blinded::Proof, t: Seq<Ev>, s_d: Scalar, s_e0: Scalar, s_m0: Scalar, s_nonce: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint)
    requires #[trigger] attributes_blinded_made(proof, t, s_d, s_e0, s_m0, s_nonce, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), attributes_blinded_holds(s_d, s_e0, s_m0, s_nonce, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1)
    ensures attributes_blinded_accepts(proof, t, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1)
{
    lem_blind1(proof.challenge, proof.responses.d, s_d, dl(p_B));
    lem_blind1(proof.challenge, proof.responses.e0, s_e0, dl(p_B));
    lem_blind2(proof.challenge, proof.responses.m0, s_m0, dl(p_B), proof.responses.e0, s_e0, dl(p_D));
}
//@ C14: from two accepting answers of attributes_blinded to different challenges for the same commitments, secrets for which the statement holds can be computed
pub proof fn lem_attributes_blinded_sound(p: proofs::attributes_blinded::Proof, q: proofs::attributes_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> (s: (Scalar, Scalar, Scalar, Scalar))
    requires p.challenge != q.challenge,
        attributes_blinded_k_D(p, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == attributes_blinded_k_D(q, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        attributes_blinded_k_encrypted_attribute_0_0(p, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == attributes_blinded_k_encrypted_attribute_0_0(q, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        attributes_blinded_k_encrypted_attribute_0_1(p, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == attributes_blinded_k_encrypted_attribute_0_1(q, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
    ensures attributes_blinded_holds(s.0, s.1, s.2, s.3, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        s.0 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.d, q.responses.d)),
        s.1 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.e0, q.responses.e0)),
        s.2 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.m0, q.responses.m0)),
        s.3 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.nonce, q.responses.nonce)),
{
    let e = ssub(p.challenge, q.challenge);
    lem_diff(p.challenge, q.challenge);
    let i = sinv(e);
    ax_inv(e);
    lem_extract1(i, p.challenge, q.challenge, p.responses.d, q.responses.d, dl(p_B), dl(p_D));
    lem_extract1(i, p.challenge, q.challenge, p.responses.e0, q.responses.e0, dl(p_B), dl(p_encrypted_attribute_0_0));
    lem_extract2(i, p.challenge, q.challenge, p.responses.m0, q.responses.m0, p.responses.e0, q.responses.e0, dl(p_B), dl(p_D), dl(p_encrypted_attribute_0_1));
    (smul(i, ssub(p.responses.d, q.responses.d)), smul(i, ssub(p.responses.e0, q.responses.e0)), smul(i, ssub(p.responses.m0, q.responses.m0)), smul(i, ssub(p.responses.nonce, q.responses.nonce)))
}
//@ C13: the challenge of attributes_blinded binds the transcript before it, every public value and every commitment
pub proof fn lem_attributes_blinded_binding(t: Seq<Ev>, u: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_D: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint, q_B: RistrettoPoint, q_A: RistrettoPoint, q_D: RistrettoPoint, q_encrypted_attribute_0_0: RistrettoPoint, q_encrypted_attribute_0_1: RistrettoPoint, k_D: Scalar, k_encrypted_attribute_0_0: Scalar, k_encrypted_attribute_0_1: Scalar, l_D: Scalar, l_encrypted_attribute_0_0: Scalar, l_encrypted_attribute_0_1: Scalar)
    requires attributes_blinded_ts(t, p_B, p_A, p_D, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1, k_D, k_encrypted_attribute_0_0, k_encrypted_attribute_0_1) == attributes_blinded_ts(u, q_B, q_A, q_D, q_encrypted_attribute_0_0, q_encrypted_attribute_0_1, l_D, l_encrypted_attribute_0_0, l_encrypted_attribute_0_1)
    ensures t == u, p_B == q_B, p_A == q_A, p_D == q_D, p_encrypted_attribute_0_0 == q_encrypted_attribute_0_0, p_encrypted_attribute_0_1 == q_encrypted_attribute_0_1, k_D == l_D, k_encrypted_attribute_0_0 == l_encrypted_attribute_0_0, k_encrypted_attribute_0_1 == l_encrypted_attribute_0_1
{
    let a0 = tcom(t, L"domain-sep", L"attributes_blinded"); let b0 = tcom(u, L"domain-sep", L"attributes_blinded");
    let a1 = tcom(a0, L"B", enc_p(p_B)); let b1 = tcom(b0, L"B", enc_p(q_B));
    let a2 = tcom(a1, L"A", enc_p(p_A)); let b2 = tcom(b1, L"A", enc_p(q_A));
    let a3 = tcom(a2, L"D", enc_p(p_D)); let b3 = tcom(b2, L"D", enc_p(q_D));
    let a4 = tcom(a3, L"encrypted_attribute_0_0", enc_p(p_encrypted_attribute_0_0)); let b4 = tcom(b3, L"encrypted_attribute_0_0", enc_p(q_encrypted_attribute_0_0));
    let a5 = tcom(a4, L"encrypted_attribute_0_1", enc_p(p_encrypted_attribute_0_1)); let b5 = tcom(b4, L"encrypted_attribute_0_1", enc_p(q_encrypted_attribute_0_1));
    let a6 = tcom(a5, L"com D", enc_p(pt(k_D))); let b6 = tcom(b5, L"com D", enc_p(pt(l_D)));
    let a7 = tcom(a6, L"com encrypted_attribute_0_0", enc_p(pt(k_encrypted_attribute_0_0))); let b7 = tcom(b6, L"com encrypted_attribute_0_0", enc_p(pt(l_encrypted_attribute_0_0)));
    let a8 = tcom(a7, L"com encrypted_attribute_0_1", enc_p(pt(k_encrypted_attribute_0_1))); let b8 = tcom(b7, L"com encrypted_attribute_0_1", enc_p(pt(l_encrypted_attribute_0_1)));
    lem_tcom(a7, b7, L"com encrypted_attribute_0_1", enc_p(pt(k_encrypted_attribute_0_1)), enc_p(pt(l_encrypted_attribute_0_1)));
    lem_tcom(a6, b6, L"com encrypted_attribute_0_0", enc_p(pt(k_encrypted_attribute_0_0)), enc_p(pt(l_encrypted_attribute_0_0)));
    lem_tcom(a5, b5, L"com D", enc_p(pt(k_D)), enc_p(pt(l_D)));
    lem_tcom(a4, b4, L"encrypted_attribute_0_1", enc_p(p_encrypted_attribute_0_1), enc_p(q_encrypted_attribute_0_1));
    lem_tcom(a3, b3, L"encrypted_attribute_0_0", enc_p(p_encrypted_attribute_0_0), enc_p(q_encrypted_attribute_0_0));
    lem_tcom(a2, b2, L"D", enc_p(p_D), enc_p(q_D));
    lem_tcom(a1, b1, L"A", enc_p(p_A), enc_p(q_A));
    lem_tcom(a0, b0, L"B", enc_p(p_B), enc_p(q_B));
    lem_tcom(t, u, L"domain-sep", L"attributes_blinded", L"attributes_blinded");
    assert(dec_p(enc_p(p_B)) == dec_p(enc_p(q_B)));
    assert(dec_p(enc_p(p_A)) == dec_p(enc_p(q_A)));
    assert(dec_p(enc_p(p_D)) == dec_p(enc_p(q_D)));
    assert(dec_p(enc_p(p_encrypted_attribute_0_0)) == dec_p(enc_p(q_encrypted_attribute_0_0)));
    assert(dec_p(enc_p(p_encrypted_attribute_0_1)) == dec_p(enc_p(q_encrypted_attribute_0_1)));
    assert(dl(dec_p(enc_p(pt(k_D)))) == dl(dec_p(enc_p(pt(l_D)))));
    assert(dl(dec_p(enc_p(pt(k_encrypted_attribute_0_0)))) == dl(dec_p(enc_p(pt(l_encrypted_attribute_0_0)))));
    assert(dl(dec_p(enc_p(pt(k_encrypted_attribute_0_1)))) == dl(dec_p(enc_p(pt(l_encrypted_attribute_0_1)))));
}
//@ C29 C16 C17: how long an encoded proof of attributes_blinded is
pub broadcast proof fn lem_attributes_blinded_wire(p: proofs::attributes_blinded::Proof)
    ensures #[trigger] p.wire().len() == 200
{ assert(p.wire() == p.challenge.wire() + p.responses.wire()); }
//@ C16: two proofs of attributes_blinded with the same encoding are the same proof
pub proof fn lem_attributes_blinded_wire_inj(p: proofs::attributes_blinded::Proof, q: proofs::attributes_blinded::Proof)
    requires p.wire() == q.wire()
    ensures p == q
{
    let a = p.wire(); let b = q.wire();
    assert(p.wire() == p.challenge.wire() + p.responses.wire());
    assert(q.wire() == q.challenge.wire() + q.responses.wire());
    assert(enc_s(p.challenge) =~= a.subrange(8, 40)); assert(enc_s(q.challenge) =~= b.subrange(8, 40));
    assert(dec_s(enc_s(p.challenge)) == dec_s(enc_s(q.challenge)));
    assert(enc_s(p.responses.d) =~= a.subrange(48, 80)); assert(enc_s(q.responses.d) =~= b.subrange(48, 80));
    assert(dec_s(enc_s(p.responses.d)) == dec_s(enc_s(q.responses.d)));
    assert(enc_s(p.responses.e0) =~= a.subrange(88, 120)); assert(enc_s(q.responses.e0) =~= b.subrange(88, 120));
    assert(dec_s(enc_s(p.responses.e0)) == dec_s(enc_s(q.responses.e0)));
    assert(enc_s(p.responses.m0) =~= a.subrange(128, 160)); assert(enc_s(q.responses.m0) =~= b.subrange(128, 160));
    assert(dec_s(enc_s(p.responses.m0)) == dec_s(enc_s(q.responses.m0)));
    assert(enc_s(p.responses.nonce) =~= a.subrange(168, 200)); assert(enc_s(q.responses.nonce) =~= b.subrange(168, 200));
    assert(dec_s(enc_s(p.responses.nonce)) == dec_s(enc_s(q.responses.nonce)));
}
// ---- issuance_blinded
//@ C12: a proof of issuance_blinded made from secrets for which the statement holds is accepted
pub broadcast proof fn lem_issuance_blinded_complete(proof: proofs::issuance_blinded::Proof, t: Seq<Ev>, s_x0_tilde: Scalar, s_x0: Scalar, s_x1: Scalar, s_s: Scalar, s_b: Scalar, s_t0: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint)
    requires #[trigger] issuance_blinded_made(proof, t, s_x0_tilde, s_x0, s_x1, s_s, s_b, s_t0, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1), issuance_blinded_holds(s_x0_tilde, s_x0, s_x1, s_s, s_b, s_t0, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1)
    ensures issuance_blinded_accepts(proof, t, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1)
{
    lem_blind2(proof.challenge, proof.responses.x0, s_x0, dl(p_B), proof.responses.x0_tilde, s_x0_tilde, dl(p_A));
    lem_blind1(proof.challenge, proof.responses.x1, s_x1, dl(p_A));
    lem_blind1(proof.challenge, proof.responses.b, s_b, dl(p_B));
    lem_blind1(proof.challenge, proof.responses.b, s_b, dl(p_X0));
    lem_blind1(proof.challenge, proof.responses.t0, s_t0, dl(p_A));
    lem_blind2(proof.challenge, proof.responses.s, s_s, dl(p_B), proof.responses.t0, s_t0, dl(p_encrypted_attribute_0_0));
    lem_blind2(proof.challenge, proof.responses.s, s_s, dl(p_D), proof.responses.t0, s_t0, dl(p_encrypted_attribute_0_1));
}
//@ C14: from two accepting answers of issuance_blinded to different challenges for the same commitments, secrets for which the statement holds can be computed
pub proof fn lem_issuance_blinded_sound(p: proofs::issuance_blinded::Proof, q: proofs::issuance_blinded::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint) -> (s: (Scalar, Scalar, Scalar, Scalar, Scalar, Scalar))
    requires p.challenge != q.challenge,
        issuance_blinded_k_X0(p, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == issuance_blinded_k_X0(q, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        issuance_blinded_k_X1(p, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == issuance_blinded_k_X1(q, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        issuance_blinded_k_P(p, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == issuance_blinded_k_P(q, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        issuance_blinded_k_T0_0(p, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == issuance_blinded_k_T0_0(q, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        issuance_blinded_k_T0_1(p, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == issuance_blinded_k_T0_1(q, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        issuance_blinded_k_EQ_commitment(p, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == issuance_blinded_k_EQ_commitment(q, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        issuance_blinded_k_EQ_encryption(p, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1) == issuance_blinded_k_EQ_encryption(q, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
    ensures issuance_blinded_holds(s.0, s.1, s.2, s.3, s.4, s.5, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1),
        s.0 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.x0_tilde, q.responses.x0_tilde)),
        s.1 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.x0, q.responses.x0)),
        s.2 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.x1, q.responses.x1)),
        s.3 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.s, q.responses.s)),
        s.4 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.b, q.responses.b)),
        s.5 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.t0, q.responses.t0)),
{
    let e = ssub(p.challenge, q.challenge);
    lem_diff(p.challenge, q.challenge);
    let i = sinv(e);
    ax_inv(e);
    lem_extract2(i, p.challenge, q.challenge, p.responses.x0, q.responses.x0, p.responses.x0_tilde, q.responses.x0_tilde, dl(p_B), dl(p_A), dl(p_X0));
    lem_extract1(i, p.challenge, q.challenge, p.responses.x1, q.responses.x1, dl(p_A), dl(p_X1));
    lem_extract1(i, p.challenge, q.challenge, p.responses.b, q.responses.b, dl(p_B), dl(p_P));
    lem_extract1(i, p.challenge, q.challenge, p.responses.b, q.responses.b, dl(p_X0), dl(p_T0_0));
    lem_extract1(i, p.challenge, q.challenge, p.responses.t0, q.responses.t0, dl(p_A), dl(p_T0_1));
    lem_extract2(i, p.challenge, q.challenge, p.responses.s, q.responses.s, p.responses.t0, q.responses.t0, dl(p_B), dl(p_encrypted_attribute_0_0), dl(p_EQ_commitment));
    lem_extract2(i, p.challenge, q.challenge, p.responses.s, q.responses.s, p.responses.t0, q.responses.t0, dl(p_D), dl(p_encrypted_attribute_0_1), dl(p_EQ_encryption));
    (smul(i, ssub(p.responses.x0_tilde, q.responses.x0_tilde)), smul(i, ssub(p.responses.x0, q.responses.x0)), smul(i, ssub(p.responses.x1, q.responses.x1)), smul(i, ssub(p.responses.s, q.responses.s)), smul(i, ssub(p.responses.b, q.responses.b)), smul(i, ssub(p.responses.t0, q.responses.t0)))
}
//@ C13: the challenge of issuance_blinded binds the transcript before it, every public value and every commitment
pub proof fn lem_issuance_blinded_binding(t: Seq<Ev>, u: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_X1: RistrettoPoint, p_D: RistrettoPoint, p_P: RistrettoPoint, p_T0_0: RistrettoPoint, p_T0_1: RistrettoPoint, p_EQ_commitment: RistrettoPoint, p_EQ_encryption: RistrettoPoint, p_encrypted_attribute_0_0: RistrettoPoint, p_encrypted_attribute_0_1: RistrettoPoint, q_B: RistrettoPoint, q_A: RistrettoPoint, q_X0: RistrettoPoint, q_X1: RistrettoPoint, q_D: RistrettoPoint, q_P: RistrettoPoint, q_T0_0: RistrettoPoint, q_T0_1: RistrettoPoint, q_EQ_commitment: RistrettoPoint, q_EQ_encryption: RistrettoPoint, q_encrypted_attribute_0_0: RistrettoPoint, q_encrypted_attribute_0_1: RistrettoPoint, k_X0: Scalar, k_X1: Scalar, k_P: Scalar, k_T0_0: Scalar, k_T0_1: Scalar, k_EQ_commitment: Scalar, k_EQ_encryption: Scalar, l_X0: Scalar, l_X1: Scalar, l_P: Scalar, l_T0_0: Scalar, l_T0_1: Scalar, l_EQ_commitment: Scalar, l_EQ_encryption: Scalar)
    requires issuance_blinded_ts(t, p_B, p_A, p_X0, p_X1, p_D, p_P, p_T0_0, p_T0_1, p_EQ_commitment, p_EQ_encryption, p_encrypted_attribute_0_0, p_encrypted_attribute_0_1, k_X0, k_X1, k_P, k_T0_0, k_T0_1, k_EQ_commitment, k_EQ_encryption) == issuance_blinded_ts(u, q_B, q_A, q_X0, q_X1, q_D, q_P, q_T0_0, q_T0_1, q_EQ_commitment, q_EQ_encryption, q_encrypted_attribute_0_0, q_encrypted_attribute_0_1, l_X0, l_X1, l_P, l_T0_0, l_T0_1, l_EQ_commitment, l_EQ_encryption)
    ensures t == u, p_B == q_B, p_A == q_A, p_X0 == q_X0, p_X1 == q_X1, p_D == q_D, p_P == q_P, p_T0_0 == q_T0_0, p_T0_1 == q_T0_1, p_EQ_commitment == q_EQ_commitment, p_EQ_encryption == q_EQ_encryption, p_encrypted_attribute_0_0 == q_encrypted_attribute_0_0, p_encrypted_attribute_0_1 == q_encrypted_attribute_0_1, k_X0 == l_X0, k_X1 == l_X1, k_P == l_P, k_T0_0 == l_T0_0, k_T0_1 == l_T0_1, k_EQ_commitment == l_EQ_commitment, k_EQ_encryption == l_EQ_encryption
{
    let a0 = tcom(t, L"domain-sep", L"issuance_blinded"); let b0 = tcom(u, L"domain-sep", L"issuance_blinded");
    let a1 = tcom(a0, L"B", enc_p(p_B)); let b1 = tcom(b0, L"B", enc_p(q_B));
    let a2 = tcom(a1, L"A", enc_p(p_A)); let b2 = tcom(b1, L"A", enc_p(q_A));
    let a3 = tcom(a2, L"X0", enc_p(p_X0)); let b3 = tcom(b2, L"X0", enc_p(q_X0));
    let a4 = tcom(a3, L"X1", enc_p(p_X1)); let b4 = tcom(b3, L"X1", enc_p(q_X1));
    let a5 = tcom(a4, L"D", enc_p(p_D)); let b5 = tcom(b4, L"D", enc_p(q_D));
    let a6 = tcom(a5, L"P", enc_p(p_P)); let b6 = tcom(b5, L"P", enc_p(q_P));
    let a7 = tcom(a6, L"T0_0", enc_p(p_T0_0)); let b7 = tcom(b6, L"T0_0", enc_p(q_T0_0));
    let a8 = tcom(a7, L"T0_1", enc_p(p_T0_1)); let b8 = tcom(b7, L"T0_1", enc_p(q_T0_1));
    let a9 = tcom(a8, L"EQ_commitment", enc_p(p_EQ_commitment)); let b9 = tcom(b8, L"EQ_commitment", enc_p(q_EQ_commitment));
    let a10 = tcom(a9, L"EQ_encryption", enc_p(p_EQ_encryption)); let b10 = tcom(b9, L"EQ_encryption", enc_p(q_EQ_encryption));
    let a11 = tcom(a10, L"encrypted_attribute_0_0", enc_p(p_encrypted_attribute_0_0)); let b11 = tcom(b10, L"encrypted_attribute_0_0", enc_p(q_encrypted_attribute_0_0));
    let a12 = tcom(a11, L"encrypted_attribute_0_1", enc_p(p_encrypted_attribute_0_1)); let b12 = tcom(b11, L"encrypted_attribute_0_1", enc_p(q_encrypted_attribute_0_1));
    let a13 = tcom(a12, L"com X0", enc_p(pt(k_X0))); let b13 = tcom(b12, L"com X0", enc_p(pt(l_X0)));
    let a14 = tcom(a13, L"com X1", enc_p(pt(k_X1))); let b14 = tcom(b13, L"com X1", enc_p(pt(l_X1)));
    let a15 = tcom(a14, L"com P", enc_p(pt(k_P))); let b15 = tcom(b14, L"com P", enc_p(pt(l_P)));
    let a16 = tcom(a15, L"com T0_0", enc_p(pt(k_T0_0))); let b16 = tcom(b15, L"com T0_0", enc_p(pt(l_T0_0)));
    let a17 = tcom(a16, L"com T0_1", enc_p(pt(k_T0_1))); let b17 = tcom(b16, L"com T0_1", enc_p(pt(l_T0_1)));
    let a18 = tcom(a17, L"com EQ_commitment", enc_p(pt(k_EQ_commitment))); let b18 = tcom(b17, L"com EQ_commitment", enc_p(pt(l_EQ_commitment)));
    let a19 = tcom(a18, L"com EQ_encryption", enc_p(pt(k_EQ_encryption))); let b19 = tcom(b18, L"com EQ_encryption", enc_p(pt(l_EQ_encryption)));
    lem_tcom(a18, b18, L"com EQ_encryption", enc_p(pt(k_EQ_encryption)), enc_p(pt(l_EQ_encryption)));
    lem_tcom(a17, b17, L"com EQ_commitment", enc_p(pt(k_EQ_commitment)), enc_p(pt(l_EQ_commitment)));
    lem_tcom(a16, b16, L"com T0_1", enc_p(pt(k_T0_1)), enc_p(pt(l_T0_1)));
    lem_tcom(a15, b15, L"com T0_0", enc_p(pt(k_T0_0)), enc_p(pt(l_T0_0)));
    lem_tcom(a14, b14, L"com P", enc_p(pt(k_P)), enc_p(pt(l_P)));
    lem_tcom(a13, b13, L"com X1", enc_p(pt(k_X1)), enc_p(pt(l_X1)));
    lem_tcom(a12, b12, L"com X0", enc_p(pt(k_X0)), enc_p(pt(l_X0)));
    lem_tcom(a11, b11, L"encrypted_attribute_0_1", enc_p(p_encrypted_attribute_0_1), enc_p(q_encrypted_attribute_0_1));
    lem_tcom(a10, b10, L"encrypted_attribute_0_0", enc_p(p_encrypted_attribute_0_0), enc_p(q_encrypted_attribute_0_0));
    lem_tcom(a9, b9, L"EQ_encryption", enc_p(p_EQ_encryption), enc_p(q_EQ_encryption));
    lem_tcom(a8, b8, L"EQ_commitment", enc_p(p_EQ_commitment), enc_p(q_EQ_commitment));
    lem_tcom(a7, b7, L"T0_1", enc_p(p_T0_1), enc_p(q_T0_1));
    lem_tcom(a6, b6, L"T0_0", enc_p(p_T0_0), enc_p(q_T0_0));
    lem_tcom(a5, b5, L"P", enc_p(p_P), enc_p(q_P));
    lem_tcom(a4, b4, L"D", enc_p(p_D), enc_p(q_D));
    lem_tcom(a3, b3, L"X1", enc_p(p_X1), enc_p(q_X1));
    lem_tcom(a2, b2, L"X0", enc_p(p_X0), enc_p(q_X0));
    lem_tcom(a1, b1, L"A", enc_p(p_A), enc_p(q_A));
    lem_tcom(a0, b0, L"B", enc_p(p_B), enc_p(q_B));
    lem_tcom(t, u, L"domain-sep", L"issuance_blinded", L"issuance_blinded");
    assert(dec_p(enc_p(p_B)) == dec_p(enc_p(q_B)));
    assert(dec_p(enc_p(p_A)) == dec_p(enc_p(q_A)));
    assert(dec_p(enc_p(p_X0)) == dec_p(enc_p(q_X0)));
    assert(dec_p(enc_p(p_X1)) == dec_p(enc_p(q_X1)));
    assert(dec_p(enc_p(p_D)) == dec_p(enc_p(q_D)));
    assert(dec_p(enc_p(p_P)) == dec_p(enc_p(q_P)));
    assert(dec_p(enc_p(p_T0_0)) == dec_p(enc_p(q_T0_0)));
    assert(dec_p(enc_p(p_T0_1)) == dec_p(enc_p(q_T0_1)));
    assert(dec_p(enc_p(p_EQ_commitment)) == dec_p(enc_p(q_EQ_commitment)));
    assert(dec_p(enc_p(p_EQ_encryption)) == dec_p(enc_p(q_EQ_encryption)));
    assert(dec_p(enc_p(p_encrypted_attribute_0_0)) == dec_p(enc_p(q_encrypted_attribute_0_0)));
    assert(dec_p(enc_p(p_encrypted_attribute_0_1)) == dec_p(enc_p(q_encrypted_attribute_0_1)));
    assert(dl(dec_p(enc_p(pt(k_X0)))) == dl(dec_p(enc_p(pt(l_X0)))));
    assert(dl(dec_p(enc_p(pt(k_X1)))) == dl(dec_p(enc_p(pt(l_X1)))));
    assert(dl(dec_p(enc_p(pt(k_P)))) == dl(dec_p(enc_p(pt(l_P)))));
    assert(dl(dec_p(enc_p(pt(k_T0_0)))) == dl(dec_p(enc_p(pt(l_T0_0)))));
    assert(dl(dec_p(enc_p(pt(k_T0_1)))) == dl(dec_p(enc_p(pt(l_T0_1)))));
    assert(dl(dec_p(enc_p(pt(k_EQ_commitment)))) == dl(dec_p(enc_p(pt(l_EQ_commitment)))));
    assert(dl(dec_p(enc_p(pt(k_EQ_encryption)))) == dl(dec_p(enc_p(pt(l_EQ_encryption)))));
}
//@ C29 C16 C17: how long an encoded proof of issuance_blinded is
pub broadcast proof fn lem_issuance_blinded_wire(p: proofs::issuance_blinded::Proof)
    ensures #[trigger] p.wire().len() == 280
{ assert(p.wire() == p.challenge.wire() + p.responses.wire()); }
//@ C16: two proofs of issuance_blinded with the same encoding are the same proof
pub proof fn lem_issuance_blinded_wire_inj(p: proofs::issuance_blinded::Proof, q: proofs::issuance_blinded::Proof)
    requires p.wire() == q.wire()
    ensures p == q
{
    let a = p.wire(); let b = q.wire();
    assert(p.wire() == p.challenge.wire() + p.responses.wire());
    assert(q.wire() == q.challenge.wire() + q.responses.wire());
    assert(enc_s(p.challenge) =~= a.subrange(8, 40)); assert(enc_s(q.challenge) =~= b.subrange(8, 40));
    assert(dec_s(enc_s(p.challenge)) == dec_s(enc_s(q.challenge)));
    assert(enc_s(p.responses.x0_tilde) =~= a.subrange(48, 80)); assert(enc_s(q.responses.x0_tilde) =~= b.subrange(48, 80));
    assert(dec_s(enc_s(p.responses.x0_tilde)) == dec_s(enc_s(q.responses.x0_tilde)));
    assert(enc_s(p.responses.x0) =~= a.subrange(88, 120)); assert(enc_s(q.responses.x0) =~= b.subrange(88, 120));
    assert(dec_s(enc_s(p.responses.x0)) == dec_s(enc_s(q.responses.x0)));
    assert(enc_s(p.responses.x1) =~= a.subrange(128, 160)); assert(enc_s(q.responses.x1) =~= b.subrange(128, 160));
    assert(dec_s(enc_s(p.responses.x1)) == dec_s(enc_s(q.responses.x1)));
    assert(enc_s(p.responses.s) =~= a.subrange(168, 200)); assert(enc_s(q.responses.s) =~= b.subrange(168, 200));
    assert(dec_s(enc_s(p.responses.s)) == dec_s(enc_s(q.responses.s)));
    assert(enc_s(p.responses.b) =~= a.subrange(208, 240)); assert(enc_s(q.responses.b) =~= b.subrange(208, 240));
    assert(dec_s(enc_s(p.responses.b)) == dec_s(enc_s(q.responses.b)));
    assert(enc_s(p.responses.t0) =~= a.subrange(248, 280)); assert(enc_s(q.responses.t0) =~= b.subrange(248, 280));
    assert(dec_s(enc_s(p.responses.t0)) == dec_s(enc_s(q.responses.t0)));
}
// ---- valid_credential
//@ C12 C07: a proof of valid_credential made from secrets for which the statement holds is accepted
pub broadcast proof fn lem_valid_credential_complete(proof: proofs::valid_credential::Proof, t: Seq<Ev>, s_m0: Scalar, s_z0: Scalar, s_minus_zQ: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint)
    requires #[trigger] valid_credential_made(proof, t, s_m0, s_z0, s_minus_zQ, p_B, p_A, p_X0, p_P, p_V, p_Cm0), valid_credential_holds(s_m0, s_z0, s_minus_zQ, p_B, p_A, p_X0, p_P, p_V, p_Cm0)
    ensures valid_credential_accepts(proof, t, p_B, p_A, p_X0, p_P, p_V, p_Cm0)
{
    lem_blind2(proof.challenge, proof.responses.m0, s_m0, dl(p_P), proof.responses.z0, s_z0, dl(p_A));
    lem_blind2(proof.challenge, proof.responses.z0, s_z0, dl(p_X0), proof.responses.minus_zQ, s_minus_zQ, dl(p_A));
}
//@ C14 C08: from two accepting answers of valid_credential to different challenges for the same commitments, secrets for which the statement holds can be computed
pub proof fn lem_valid_credential_sound(p: proofs::valid_credential::Proof, q: proofs::valid_credential::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint) -> (s: (Scalar, Scalar, Scalar))
    requires p.challenge != q.challenge,
        valid_credential_k_Cm0(p, p_B, p_A, p_X0, p_P, p_V, p_Cm0) == valid_credential_k_Cm0(q, p_B, p_A, p_X0, p_P, p_V, p_Cm0),
        valid_credential_k_V(p, p_B, p_A, p_X0, p_P, p_V, p_Cm0) == valid_credential_k_V(q, p_B, p_A, p_X0, p_P, p_V, p_Cm0),
    ensures valid_credential_holds(s.0, s.1, s.2, p_B, p_A, p_X0, p_P, p_V, p_Cm0),
        s.0 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.m0, q.responses.m0)),
        s.1 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.z0, q.responses.z0)),
        s.2 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.minus_zQ, q.responses.minus_zQ)),
{
    let e = ssub(p.challenge, q.challenge);
    lem_diff(p.challenge, q.challenge);
    let i = sinv(e);
    ax_inv(e);
    lem_extract2(i, p.challenge, q.challenge, p.responses.m0, q.responses.m0, p.responses.z0, q.responses.z0, dl(p_P), dl(p_A), dl(p_Cm0));
    lem_extract2(i, p.challenge, q.challenge, p.responses.z0, q.responses.z0, p.responses.minus_zQ, q.responses.minus_zQ, dl(p_X0), dl(p_A), dl(p_V));
    (smul(i, ssub(p.responses.m0, q.responses.m0)), smul(i, ssub(p.responses.z0, q.responses.z0)), smul(i, ssub(p.responses.minus_zQ, q.responses.minus_zQ)))
}
//@ C13: the challenge of valid_credential binds the transcript before it, every public value and every commitment
pub proof fn lem_valid_credential_binding(t: Seq<Ev>, u: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_X0: RistrettoPoint, p_P: RistrettoPoint, p_V: RistrettoPoint, p_Cm0: RistrettoPoint, q_B: RistrettoPoint, q_A: RistrettoPoint, q_X0: RistrettoPoint, q_P: RistrettoPoint, q_V: RistrettoPoint, q_Cm0: RistrettoPoint, k_Cm0: Scalar, k_V: Scalar, l_Cm0: Scalar, l_V: Scalar)
    requires valid_credential_ts(t, p_B, p_A, p_X0, p_P, p_V, p_Cm0, k_Cm0, k_V) == valid_credential_ts(u, q_B, q_A, q_X0, q_P, q_V, q_Cm0, l_Cm0, l_V)
    ensures t == u, p_B == q_B, p_A == q_A, p_X0 == q_X0, p_P == q_P, p_V == q_V, p_Cm0 == q_Cm0, k_Cm0 == l_Cm0, k_V == l_V
{
    let a0 = tcom(t, L"domain-sep", L"valid_credential"); let b0 = tcom(u, L"domain-sep", L"valid_credential");
    let a1 = tcom(a0, L"B", enc_p(p_B)); let b1 = tcom(b0, L"B", enc_p(q_B));
    let a2 = tcom(a1, L"A", enc_p(p_A)); let b2 = tcom(b1, L"A", enc_p(q_A));
    let a3 = tcom(a2, L"X0", enc_p(p_X0)); let b3 = tcom(b2, L"X0", enc_p(q_X0));
    let a4 = tcom(a3, L"P", enc_p(p_P)); let b4 = tcom(b3, L"P", enc_p(q_P));
    let a5 = tcom(a4, L"V", enc_p(p_V)); let b5 = tcom(b4, L"V", enc_p(q_V));
    let a6 = tcom(a5, L"Cm0", enc_p(p_Cm0)); let b6 = tcom(b5, L"Cm0", enc_p(q_Cm0));
    let a7 = tcom(a6, L"com Cm0", enc_p(pt(k_Cm0))); let b7 = tcom(b6, L"com Cm0", enc_p(pt(l_Cm0)));
    let a8 = tcom(a7, L"com V", enc_p(pt(k_V))); let b8 = tcom(b7, L"com V", enc_p(pt(l_V)));
    lem_tcom(a7, b7, L"com V", enc_p(pt(k_V)), enc_p(pt(l_V)));
    lem_tcom(a6, b6, L"com Cm0", enc_p(pt(k_Cm0)), enc_p(pt(l_Cm0)));
    lem_tcom(a5, b5, L"Cm0", enc_p(p_Cm0), enc_p(q_Cm0));
    lem_tcom(a4, b4, L"V", enc_p(p_V), enc_p(q_V));
    lem_tcom(a3, b3, L"P", enc_p(p_P), enc_p(q_P));
    lem_tcom(a2, b2, L"X0", enc_p(p_X0), enc_p(q_X0));
    lem_tcom(a1, b1, L"A", enc_p(p_A), enc_p(q_A));
    lem_tcom(a0, b0, L"B", enc_p(p_B), enc_p(q_B));
    lem_tcom(t, u, L"domain-sep", L"valid_credential", L"valid_credential");
    assert(dec_p(enc_p(p_B)) == dec_p(enc_p(q_B)));
    assert(dec_p(enc_p(p_A)) == dec_p(enc_p(q_A)));
    assert(dec_p(enc_p(p_X0)) == dec_p(enc_p(q_X0)));
    assert(dec_p(enc_p(p_P)) == dec_p(enc_p(q_P)));
    assert(dec_p(enc_p(p_V)) == dec_p(enc_p(q_V)));
    assert(dec_p(enc_p(p_Cm0)) == dec_p(enc_p(q_Cm0)));
    assert(dl(dec_p(enc_p(pt(k_Cm0)))) == dl(dec_p(enc_p(pt(l_Cm0)))));
    assert(dl(dec_p(enc_p(pt(k_V)))) == dl(dec_p(enc_p(pt(l_V)))));
}
//@ C29 C16 C17: how long an encoded proof of valid_credential is
pub broadcast proof fn lem_valid_credential_wire(p: proofs::valid_credential::Proof)
    ensures #[trigger] p.wire().len() == 160
{ assert(p.wire() == p.challenge.wire() + p.responses.wire()); }
//@ C16: two proofs of valid_credential with the same encoding are the same proof
pub proof fn lem_valid_credential_wire_inj(p: proofs::valid_credential::Proof, q: proofs::valid_credential::Proof)
    requires p.wire() == q.wire()
    ensures p == q
{
    let a = p.wire(); let b = q.wire();
    assert(p.wire() == p.challenge.wire() + p.responses.wire());
    assert(q.wire() == q.challenge.wire() + q.responses.wire());
    assert(enc_s(p.challenge) =~= a.subrange(8, 40)); assert(enc_s(q.challenge) =~= b.subrange(8, 40));
    assert(dec_s(enc_s(p.challenge)) == dec_s(enc_s(q.challenge)));
    assert(enc_s(p.responses.m0) =~= a.subrange(48, 80)); assert(enc_s(q.responses.m0) =~= b.subrange(48, 80));
    assert(dec_s(enc_s(p.responses.m0)) == dec_s(enc_s(q.responses.m0)));
    assert(enc_s(p.responses.z0) =~= a.subrange(88, 120)); assert(enc_s(q.responses.z0) =~= b.subrange(88, 120));
    assert(dec_s(enc_s(p.responses.z0)) == dec_s(enc_s(q.responses.z0)));
    assert(enc_s(p.responses.minus_zQ) =~= a.subrange(128, 160)); assert(enc_s(q.responses.minus_zQ) =~= b.subrange(128, 160));
    assert(dec_s(enc_s(p.responses.minus_zQ)) == dec_s(enc_s(q.responses.minus_zQ)));
}
// ---- committed_values_equal
//@ C12 C11: a proof of committed_values_equal made from secrets for which the statement holds is accepted
pub broadcast proof fn lem_committed_values_equal_complete(proof: proofs::committed_values_equal::Proof, t: Seq<Ev>, s_m0: Scalar, s_z0: Scalar, s_z1: Scalar, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint)
    requires #[trigger] committed_values_equal_made(proof, t, s_m0, s_z0, s_z1, p_B, p_A, p_P, p_Cm0, p_Cm1), committed_values_equal_holds(s_m0, s_z0, s_z1, p_B, p_A, p_P, p_Cm0, p_Cm1)
    ensures committed_values_equal_accepts(proof, t, p_B, p_A, p_P, p_Cm0, p_Cm1)
{
    lem_blind2(proof.challenge, proof.responses.m0, s_m0, dl(p_P), proof.responses.z0, s_z0, dl(p_A));
    lem_blind2(proof.challenge, proof.responses.m0, s_m0, dl(p_A), proof.responses.z1, s_z1, dl(p_B));
}
//@ C14 C10: from two accepting answers of committed_values_equal to different challenges for the same commitments, secrets for which the statement holds can be computed
pub proof fn lem_committed_values_equal_sound(p: proofs::committed_values_equal::Proof, q: proofs::committed_values_equal::Proof, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint) -> (s: (Scalar, Scalar, Scalar))
    requires p.challenge != q.challenge,
        committed_values_equal_k_Cm0(p, p_B, p_A, p_P, p_Cm0, p_Cm1) == committed_values_equal_k_Cm0(q, p_B, p_A, p_P, p_Cm0, p_Cm1),
        committed_values_equal_k_Cm1(p, p_B, p_A, p_P, p_Cm0, p_Cm1) == committed_values_equal_k_Cm1(q, p_B, p_A, p_P, p_Cm0, p_Cm1),
    ensures committed_values_equal_holds(s.0, s.1, s.2, p_B, p_A, p_P, p_Cm0, p_Cm1),
        s.0 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.m0, q.responses.m0)),
        s.1 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.z0, q.responses.z0)),
        s.2 == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.z1, q.responses.z1)),
{
    let e = ssub(p.challenge, q.challenge);
    lem_diff(p.challenge, q.challenge);
    let i = sinv(e);
    ax_inv(e);
    lem_extract2(i, p.challenge, q.challenge, p.responses.m0, q.responses.m0, p.responses.z0, q.responses.z0, dl(p_P), dl(p_A), dl(p_Cm0));
    lem_extract2(i, p.challenge, q.challenge, p.responses.m0, q.responses.m0, p.responses.z1, q.responses.z1, dl(p_A), dl(p_B), dl(p_Cm1));
    (smul(i, ssub(p.responses.m0, q.responses.m0)), smul(i, ssub(p.responses.z0, q.responses.z0)), smul(i, ssub(p.responses.z1, q.responses.z1)))
}
//@ C13: the challenge of committed_values_equal binds the transcript before it, every public value and every commitment
pub proof fn lem_committed_values_equal_binding(t: Seq<Ev>, u: Seq<Ev>, p_B: RistrettoPoint, p_A: RistrettoPoint, p_P: RistrettoPoint, p_Cm0: RistrettoPoint, p_Cm1: RistrettoPoint, q_B: RistrettoPoint, q_A: RistrettoPoint, q_P: RistrettoPoint, q_Cm0: RistrettoPoint, q_Cm1: RistrettoPoint, k_Cm0: Scalar, k_Cm1: Scalar, l_Cm0: Scalar, l_Cm1: Scalar)
    requires committed_values_equal_ts(t, p_B, p_A, p_P, p_Cm0, p_Cm1, k_Cm0, k_Cm1) == committed_values_equal_ts(u, q_B, q_A, q_P, q_Cm0, q_Cm1, l_Cm0, l_Cm1)
    ensures t == u, p_B == q_B, p_A == q_A, p_P == q_P, p_Cm0 == q_Cm0, p_Cm1 == q_Cm1, k_Cm0 == l_Cm0, k_Cm1 == l_Cm1
{
    let a0 = tcom(t, L"domain-sep", L"committed_values_equal"); let b0 = tcom(u, L"domain-sep", L"committed_values_equal");
    let a1 = tcom(a0, L"B", enc_p(p_B)); let b1 = tcom(b0, L"B", enc_p(q_B));
    let a2 = tcom(a1, L"A", enc_p(p_A)); let b2 = tcom(b1, L"A", enc_p(q_A));
    let a3 = tcom(a2, L"P", enc_p(p_P)); let b3 = tcom(b2, L"P", enc_p(q_P));
    let a4 = tcom(a3, L"Cm0", enc_p(p_Cm0)); let b4 = tcom(b3, L"Cm0", enc_p(q_Cm0));
    let a5 = tcom(a4, L"Cm1", enc_p(p_Cm1)); let b5 = tcom(b4, L"Cm1", enc_p(q_Cm1));
    let a6 = tcom(a5, L"com Cm0", enc_p(pt(k_Cm0))); let b6 = tcom(b5, L"com Cm0", enc_p(pt(l_Cm0)));
    let a7 = tcom(a6, L"com Cm1", enc_p(pt(k_Cm1))); let b7 = tcom(b6, L"com Cm1", enc_p(pt(l_Cm1)));
    lem_tcom(a6, b6, L"com Cm1", enc_p(pt(k_Cm1)), enc_p(pt(l_Cm1)));
    lem_tcom(a5, b5, L"com Cm0", enc_p(pt(k_Cm0)), enc_p(pt(l_Cm0)));
    lem_tcom(a4, b4, L"Cm1", enc_p(p_Cm1), enc_p(q_Cm1));
    lem_tcom(a3, b3, L"Cm0", enc_p(p_Cm0), enc_p(q_Cm0));
    lem_tcom(a2, b2, L"P", enc_p(p_P), enc_p(q_P));
    lem_tcom(a1, b1, L"A", enc_p(p_A), enc_p(q_A));
    lem_tcom(a0, b0, L"B", enc_p(p_B), enc_p(q_B));
    lem_tcom(t, u, L"domain-sep", L"committed_values_equal", L"committed_values_equal");
    assert(dec_p(enc_p(p_B)) == dec_p(enc_p(q_B)));
    assert(dec_p(enc_p(p_A)) == dec_p(enc_p(q_A)));
    assert(dec_p(enc_p(p_P)) == dec_p(enc_p(q_P)));
    assert(dec_p(enc_p(p_Cm0)) == dec_p(enc_p(q_Cm0)));
    assert(dec_p(enc_p(p_Cm1)) == dec_p(enc_p(q_Cm1)));
    assert(dl(dec_p(enc_p(pt(k_Cm0)))) == dl(dec_p(enc_p(pt(l_Cm0)))));
    assert(dl(dec_p(enc_p(pt(k_Cm1)))) == dl(dec_p(enc_p(pt(l_Cm1)))));
}
//@ C29 C16 C17: how long an encoded proof of committed_values_equal is
pub broadcast proof fn lem_committed_values_equal_wire(p: proofs::committed_values_equal::Proof)
    ensures #[trigger] p.wire().len() == 160
{ assert(p.wire() == p.challenge.wire() + p.responses.wire()); }
//@ C16: two proofs of committed_values_equal with the same encoding are the same proof
pub proof fn lem_committed_values_equal_wire_inj(p: proofs::committed_values_equal::Proof, q: proofs::committed_values_equal::Proof)
    requires p.wire() == q.wire()
    ensures p == q
{
    let a = p.wire(); let b = q.wire();
    assert(p.wire() == p.challenge.wire() + p.responses.wire());
    assert(q.wire() == q.challenge.wire() + q.responses.wire());
    assert(enc_s(p.challenge) =~= a.subrange(8, 40)); assert(enc_s(q.challenge) =~= b.subrange(8, 40));
    assert(dec_s(enc_s(p.challenge)) == dec_s(enc_s(q.challenge)));
    assert(enc_s(p.responses.m0) =~= a.subrange(48, 80)); assert(enc_s(q.responses.m0) =~= b.subrange(48, 80));
    assert(dec_s(enc_s(p.responses.m0)) == dec_s(enc_s(q.responses.m0)));
    assert(enc_s(p.responses.z0) =~= a.subrange(88, 120)); assert(enc_s(q.responses.z0) =~= b.subrange(88, 120));
    assert(dec_s(enc_s(p.responses.z0)) == dec_s(enc_s(q.responses.z0)));
    assert(enc_s(p.responses.z1) =~= a.subrange(128, 160)); assert(enc_s(q.responses.z1) =~= b.subrange(128, 160));
    assert(dec_s(enc_s(p.responses.z1)) == dec_s(enc_s(q.responses.z1)));
}
pub proof fn lem_tcom(t: Seq<Ev>, u: Seq<Ev>, l: Seq<u8>, m: Seq<u8>, n: Seq<u8>)
    requires tcom(t, l, m) == tcom(u, l, n)
    ensures t == u, m == n
{
    let a = tcom(t, l, m); let b = tcom(u, l, n);
    assert(t =~= a.drop_last()); assert(u =~= b.drop_last());
    assert(a.last() == Ev::Commit(l, m)); assert(b.last() == Ev::Commit(l, n));
}
pub proof fn lem_diff(a: Scalar, b: Scalar)
    requires a != b
    ensures ssub(a, b) != s0()
{
    broadcast use {ax_add_comm, ax_add_zero, lem_cancel2};
    assert(sadd(ssub(a, b), b) == a);
}
/// rP - cL = r'P - c'L and i(c - c') = 1: then L = i(r - r')P
pub proof fn lem_extract1(i: Scalar, c: Scalar, c2: Scalar, r: Scalar, r2: Scalar, p: Scalar, l: Scalar)
    requires smul(ssub(c, c2), i) == s1(), sadd(smul(r, p), smul(sneg(c), l)) == sadd(smul(r2, p), smul(sneg(c2), l))
    ensures l == smul(smul(i, ssub(r, r2)), p)
{
    broadcast use {ac, lem_neg_zero};
    lem_extract2(i, c, c2, r, r2, s0(), s0(), p, s0(), l);
}
pub proof fn lem_blind1(c: Scalar, r: Scalar, s: Scalar, p: Scalar)
    ensures smul(ssub(r, smul(c, s)), p) == sadd(smul(r, p), smul(sneg(c), smul(s, p)))
{
    let x = smul(c, s);
    ax_mul_comm(ssub(r, x), p); ax_dist(p, r, sneg(x)); ax_mul_comm(p, r); ax_mul_comm(p, sneg(x));
    lem_mul_neg(x, p); lem_mul_neg(c, smul(s, p)); ax_mul_assoc(c, s, p);
}
pub proof fn lem_blind2(c: Scalar, r: Scalar, s: Scalar, p: Scalar, r2: Scalar, t: Scalar, q: Scalar)
    ensures sadd(smul(ssub(r, smul(c, s)), p), smul(ssub(r2, smul(c, t)), q))
        == sadd(sadd(smul(r, p), smul(r2, q)), smul(sneg(c), sadd(smul(s, p), smul(t, q))))
{
    lem_blind1(c, r, s, p);
    lem_blind1(c, r2, t, q);
    ax_dist(sneg(c), smul(s, p), smul(t, q));
    broadcast use {ax_add_comm, ax_add_assoc};
}
pub broadcast proof fn lem_neg_zero() ensures #[trigger] sneg(s0()) == s0()
{ ax_neg(s0()); ax_add_zero(sneg(s0())); }
pub proof fn lem_extract2(i: Scalar, c: Scalar, c2: Scalar, r: Scalar, r2: Scalar, s: Scalar, t: Scalar, p: Scalar, q: Scalar, l: Scalar)
    requires smul(ssub(c, c2), i) == s1(),
        sadd(sadd(smul(r, p), smul(s, q)), smul(sneg(c), l)) == sadd(sadd(smul(r2, p), smul(t, q)), smul(sneg(c2), l))
    ensures l == sadd(smul(smul(i, ssub(r, r2)), p), smul(smul(i, ssub(s, t)), q))
{
    let a = sadd(smul(r, p), smul(s, q));
    let b = sadd(smul(r2, p), smul(t, q));
    let d = smul(ssub(c, c2), l);
    broadcast use ax_mul_comm;
    // a - cl = b - c2l, so a - b = (c - c2)l
    assert(ssub(a, b) == d) by {
        let x = sadd(a, smul(sneg(c), l));
        assert(sadd(x, smul(c, l)) == a) by { lem_mul_neg(c, l); lem_cancel2(a, smul(c, l)); }
        assert(sadd(sadd(b, smul(sneg(c2), l)), smul(c, l)) == sadd(b, d)) by { broadcast use ring; }
        assert(ssub(sadd(d, b), b) == d) by { lem_cancel1(d, b); }
        ax_add_comm(b, d);
    }
    assert(ssub(a, b) == sadd(smul(ssub(r, r2), p), smul(ssub(s, t), q))) by { broadcast use ring; }
    assert(smul(i, d) == l) by { broadcast use ac; assert(smul(i, smul(ssub(c, c2), l)) == smul(smul(ssub(c, c2), i), l)); }
    assert(smul(i, sadd(smul(ssub(r, r2), p), smul(ssub(s, t), q))) == sadd(smul(smul(i, ssub(r, r2)), p), smul(smul(i, ssub(s, t)), q))) by { 
        ax_dist(i, smul(ssub(r, r2), p), smul(ssub(s, t), q)); ax_mul_assoc(i, ssub(r, r2), p); ax_mul_assoc(i, ssub(s, t), q); }
}
pub broadcast group complete { lem_issuance_revealed_complete, lem_attributes_blinded_complete, lem_issuance_blinded_complete, lem_valid_credential_complete, lem_committed_values_equal_complete }
pub broadcast group wires { lem_issuance_revealed_wire, lem_attributes_blinded_wire, lem_issuance_blinded_wire, lem_valid_credential_wire, lem_committed_values_equal_wire }
} // mod props_proofs
