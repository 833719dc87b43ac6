"""Writes the contracts of the five proofs from their statements: contracts/proofs.ct and contracts/defs_proofs.rs.

The table below is the specification; it is written from aeonflux/src/proofs_macros.rs, where the statements are stated in
the notation of Camenisch and Stadler, and is never read from the code under verification.
"""
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

STATEMENTS = {
    'issuance_revealed': (
        ['x0', 'x1', 'x0_tilde', 'm1x1'],
        ['P', 'Q', 'Cx0', 'B', 'A', 'X1'],
        [('Q', [('P', 'x0'), ('P', 'm1x1')]), ('Cx0', [('B', 'x0'), ('A', 'x0_tilde')]), ('X1', [('A', 'x1')])]),
    'attributes_blinded': (
        ['d', 'e0', 'm0', 'nonce'],
        ['B', 'A', 'D', 'encrypted_attribute_0_0', 'encrypted_attribute_0_1'],
        [('D', [('B', 'd')]), ('encrypted_attribute_0_0', [('B', 'e0')]), ('encrypted_attribute_0_1', [('B', 'm0'), ('D', 'e0')])]),
    'issuance_blinded': (
        ['x0_tilde', 'x0', 'x1', 's', 'b', 't0'],
        ['B', 'A', 'X0', 'X1', 'D', 'P', 'T0_0', 'T0_1', 'EQ_commitment', 'EQ_encryption', 'encrypted_attribute_0_0', 'encrypted_attribute_0_1'],
        [('X0', [('B', 'x0'), ('A', 'x0_tilde')]), ('X1', [('A', 'x1')]), ('P', [('B', 'b')]), ('T0_0', [('X0', 'b')]), ('T0_1', [('A', 't0')]),
         ('EQ_commitment', [('B', 's'), ('encrypted_attribute_0_0', 't0')]), ('EQ_encryption', [('D', 's'), ('encrypted_attribute_0_1', 't0')])]),
    'valid_credential': (
        ['m0', 'z0', 'minus_zQ'],
        ['B', 'A', 'X0', 'P', 'V', 'Cm0'],
        [('Cm0', [('P', 'm0'), ('A', 'z0')]), ('V', [('X0', 'z0'), ('A', 'minus_zQ')])]),
    'committed_values_equal': (
        ['m0', 'z0', 'z1'],
        ['B', 'A', 'P', 'Cm0', 'Cm1'],
        [('Cm0', [('P', 'm0'), ('A', 'z0')]), ('Cm1', [('A', 'm0'), ('B', 'z1')])]),
}


# the properties of the protocol which rest on a proof being accepted when it should, and only then
USED_MADE = {'issuance_revealed': ' C05', 'valid_credential': ' C07', 'committed_values_equal': ' C11'}
USED_ACCEPTED = {'issuance_revealed': ' C06', 'valid_credential': ' C08', 'committed_values_equal': ' C10'}

def total(ts):
    r = ts[0]
    for t in ts[1:]:
        r = 'sadd(%s, %s)' % (r, t)
    return r


def main():
    d = ['''// Written by tools/gen_proofs.py.  What the five proofs state, and what it is to make and to accept one.
pub mod defs_proofs {
use vstd::prelude::*;
use crate::spec::*;
use crate::aeonflux::proofs;
use crate::ext::curve25519_dalek::scalar::Scalar;
use crate::ext::curve25519_dalek::ristretto::RistrettoPoint;
''']
    c = ['# Written by tools/gen_proofs.py.']
    p = ['''// Written by tools/gen_proofs.py.  Lemmas over the contracts of the five proofs.
pub mod props_proofs {
use vstd::prelude::*;
use crate::spec::*;
use crate::defs_proofs::*;
use crate::aeonflux::proofs;
use crate::ext::curve25519_dalek::scalar::Scalar;
use crate::ext::curve25519_dalek::ristretto::RistrettoPoint;
broadcast use {vstd::group_vstd_default, group_ax, encs};
''']
    for m, (ss, ps, eqs) in STATEMENTS.items():
        pub = ', '.join('%s: RistrettoPoint' % ('p_' + x) for x in ps)
        sec = ', '.join('%s: Scalar' % ('s_' + x) for x in ss)
        pa = ', '.join('p_' + x for x in ps)
        sa = ', '.join('s_' + x for x in ss)
        d.append('// ---- %s' % m)
        d.append('/// The statement.')
        d.append('pub open spec fn %s_holds(%s, %s) -> bool {' % (m, sec, pub))
        d.append('    ' + '\n    && '.join('dl(p_%s) == %s' % (l, total(['smul(s_%s, dl(p_%s))' % (s, q) for q, s in rhs])) for l, rhs in eqs))
        d.append('}')
        d.append('/// What the transcript has absorbed before the random numbers are drawn.')
        t = 'tcom(t, L"domain-sep", L"%s")' % m
        for x in ps:
            t = 'tcom(%s, L"%s", enc_p(p_%s))' % (t, x, x)
        d.append('pub open spec fn %s_pre(t: Seq<Ev>, %s) -> Seq<Ev> {\n    %s\n}' % (m, pub, t))
        coms = ', '.join('k_%s: Scalar' % l for l, _ in eqs)
        t = '%s_pre(t, %s)' % (m, pa)
        for l, _ in eqs:
            t = 'tcom(%s, L"com %s", enc_p(pt(k_%s)))' % (t, l, l)
        d.append('/// What it has absorbed when the challenge is asked for.')
        d.append('pub open spec fn %s_ts(t: Seq<Ev>, %s, %s) -> Seq<Ev> {\n    %s\n}' % (m, pub, coms, t))
        P = 'proofs::%s::Proof' % m
        for l, rhs in eqs:
            d.append('pub open spec fn %s_k_%s(proof: %s, %s) -> Scalar {' % (m, l, P, pub))
            d.append('    ' + total(['smul(proof.responses.%s, dl(p_%s))' % (s, q) for q, s in rhs] + ['smul(sneg(proof.challenge), dl(p_%s))' % l]))
            d.append('}')
        d.append('/// The verification equation.')
        d.append('pub open spec fn %s_accepts(proof: %s, t: Seq<Ev>, %s) -> bool {' % (m, P, pub))
        d.append('    proof.challenge == challenge(%s_ts(t, %s, %s))' % (m, pa, ', '.join('%s_k_%s(proof, %s)' % (m, l, pa) for l, _ in eqs)))
        d.append('}')
        d.append('/// A proof made from these secrets: the response to each secret is the challenge times it, and a blinding.')
        d.append('pub open spec fn %s_made(proof: %s, t: Seq<Ev>, %s, %s) -> bool {' % (m, P, sec, pub))
        for s in ss:
            d.append('    let b_%s = ssub(proof.responses.%s, smul(proof.challenge, s_%s));' % (s, s, s))
        d.append('    proof.challenge == challenge(%s_ts(t, %s, %s))' % (m, pa, ', '.join(total(['smul(b_%s, dl(p_%s))' % (s, q) for q, s in rhs]) for _, rhs in eqs)))
        d.append('}')
        d.append('/// The blindings are different draws of one generator, made from the whole statement, every secret and the system\'s random numbers.')
        d.append('pub open spec fn %s_blinded(proof: %s, t: Seq<Ev>, %s, %s) -> bool {' % (m, P, sec, pub))
        iv = ', '.join('i_%s: int' % s for s in ss)
        trig = ', '.join('draw_s(src, i_%s)' % s for s in ss)
        d.append('    exists|src: int, %s| #![trigger %s] {' % (iv, trig))
        for s in ss:
            d.append('        &&& draw_s(src, i_%s) == ssub(proof.responses.%s, smul(proof.challenge, s_%s))' % (s, s, s))
        for a in range(len(ss)):
            for b in range(a):
                d.append('        &&& i_%s != i_%s' % (ss[b], ss[a]))
        d.append('        &&& exists|c: Ctor, g: Rng| src == #[trigger] seeded(c, g) && is_system(g.src) && %s_pre(t, %s) == c.t' % (m, pa))
        d.append('            && %s' % ' && '.join('w_has(c.w, enc_s(s_%s))' % s for s in ss))
        d.append('    }')
        d.append('}')
        # contracts
        dpub = ', '.join('*publics.' + x for x in ps)
        dsec = ', '.join('*secrets.' + x for x in ss)
        c.append('@fn aeonflux::proofs::%s::Proof::create (transcript, publics, secrets) -> r' % m)
        c.append('@total C24')
        c.append('@ens C12 C13%s: %s_made(r, old(transcript)@, %s, %s)' % (USED_MADE.get(m, ''), m, dsec, dpub))
        c.append('@ens C15: %s_blinded(r, old(transcript)@, %s, %s)' % (m, dsec, dpub))
        c.append('')
        c.append('@fn aeonflux::proofs::%s::Proof::verify (transcript, publics) -> r' % m)
        c.append('@total C24')
        c.append('@ens C14 C13%s: r is Ok <==> %s_accepts(*self, old(transcript)@, %s)' % (USED_ACCEPTED.get(m, ''), m, dpub))
        c.append('')
        # lemmas
        p.append('// ---- %s' % m)
        p.append('//@ C12%s: a proof of %s made from secrets for which the statement holds is accepted' % (USED_MADE.get(m, ''), m))
        p.append('pub broadcast proof fn lem_%s_complete(proof: %s, t: Seq<Ev>, %s, %s)' % (m, P, sec, pub))
        p.append('    requires #[trigger] %s_made(proof, t, %s, %s), %s_holds(%s, %s)' % (m, sa, pa, m, sa, pa))
        p.append('    ensures %s_accepts(proof, t, %s)' % (m, pa))
        p.append('{')
        for l, rhs in eqs:
            p.append('    lem_blind%d(proof.challenge, %s);' % (len(rhs), ', '.join('proof.responses.%s, s_%s, dl(p_%s)' % (s, s, q) for q, s in rhs)))
        p.append('}')
        p.append('//@ C14%s: from two accepting answers of %s to different challenges for the same commitments, secrets for which the statement holds can be computed' % (USED_ACCEPTED.get(m, ''), m))
        p.append('pub proof fn lem_%s_sound(p: %s, q: %s, %s) -> (s: (%s))' % (m, P, P, pub, ', '.join('Scalar' for _ in ss)))
        p.append('    requires p.challenge != q.challenge,')
        for l, _ in eqs:
            p.append('        %s_k_%s(p, %s) == %s_k_%s(q, %s),' % (m, l, pa, m, l, pa))
        p.append('    ensures %s_holds(%s, %s),' % (m, ', '.join('s.%d' % i for i in range(len(ss))), pa))
        for i, s in enumerate(ss):
            p.append('        s.%d == smul(sinv(ssub(p.challenge, q.challenge)), ssub(p.responses.%s, q.responses.%s)),' % (i, s, s))
        p.append('{')
        p.append('    let e = ssub(p.challenge, q.challenge);')
        p.append('    lem_diff(p.challenge, q.challenge);')
        p.append('    let i = sinv(e);')
        p.append('    ax_inv(e);')
        for l, rhs in eqs:
            if len(rhs) == 1:
                (q1, s1), = rhs
                p.append('    lem_extract1(i, p.challenge, q.challenge, p.responses.%s, q.responses.%s, dl(p_%s), dl(p_%s));' % (s1, s1, q1, l))
            else:
                (q1, s1), (q2, s2) = rhs
                p.append('    lem_extract2(i, p.challenge, q.challenge, p.responses.%s, q.responses.%s, p.responses.%s, q.responses.%s, dl(p_%s), dl(p_%s), dl(p_%s));' % (s1, s1, s2, s2, q1, q2, l))
        p.append('    (%s)' % ', '.join('smul(i, ssub(p.responses.%s, q.responses.%s))' % (s, s) for s in ss))
        p.append('}')
        p.append('//@ C13: the challenge of %s binds the transcript before it, every public value and every commitment' % m)
        pub2 = ', '.join('%s: RistrettoPoint' % ('q_' + x) for x in ps)
        p.append('pub proof fn lem_%s_binding(t: Seq<Ev>, u: Seq<Ev>, %s, %s, %s, %s)' % (
            m, pub, pub2, coms, ', '.join('l_%s: Scalar' % l for l, _ in eqs)))
        p.append('    requires %s_ts(t, %s, %s) == %s_ts(u, %s, %s)' % (m, pa, ', '.join('k_' + l for l, _ in eqs), m, ', '.join('q_' + x for x in ps), ', '.join('l_' + l for l, _ in eqs)))
        p.append('    ensures t == u, %s, %s' % (', '.join('p_%s == q_%s' % (x, x) for x in ps), ', '.join('k_%s == l_%s' % (l, l) for l, _ in eqs)))
        p.append('{')
        cur_a, cur_b = 't', 'u'
        steps = [('L"domain-sep"', 'L"%s"' % m, 'L"%s"' % m)]
        for x in ps:
            steps.append(('L"%s"' % x, 'enc_p(p_%s)' % x, 'enc_p(q_%s)' % x))
        for l, _ in eqs:
            steps.append(('L"com %s"' % l, 'enc_p(pt(k_%s))' % l, 'enc_p(pt(l_%s))' % l))
        for i, (l, a, b) in enumerate(steps):
            p.append('    let a%d = tcom(%s, %s, %s); let b%d = tcom(%s, %s, %s);' % (i, cur_a, l, a, i, cur_b, l, b))
            cur_a, cur_b = 'a%d' % i, 'b%d' % i
        for i in reversed(range(len(steps))):
            pa_, pb_ = ('t', 'u') if i == 0 else ('a%d' % (i - 1), 'b%d' % (i - 1))
            l, a, b = steps[i]
            p.append('    lem_tcom(%s, %s, %s, %s, %s);' % (pa_, pb_, l, a, b))
        for x in ps:
            p.append('    assert(dec_p(enc_p(p_%s)) == dec_p(enc_p(q_%s)));' % (x, x))
        for l, _ in eqs:
            p.append('    assert(dl(dec_p(enc_p(pt(k_%s)))) == dl(dec_p(enc_p(pt(l_%s)))));' % (l, l))
        p.append('}')
        p.append('//@ C29 C16 C17: how long an encoded proof of %s is' % m)
        p.append('pub broadcast proof fn lem_%s_wire(p: %s)' % (m, P))
        p.append('    ensures #[trigger] p.wire().len() == %d' % (40 * (len(ss) + 1)))
        p.append('{ assert(p.wire() == p.challenge.wire() + p.responses.wire()); }')
        p.append('//@ C16: two proofs of %s with the same encoding are the same proof' % m)
        p.append('pub proof fn lem_%s_wire_inj(p: %s, q: %s)' % (m, P, P))
        p.append('    requires p.wire() == q.wire()')
        p.append('    ensures p == q')
        p.append('{')
        p.append('    let a = p.wire(); let b = q.wire();')
        p.append('    assert(p.wire() == p.challenge.wire() + p.responses.wire());')
        p.append('    assert(q.wire() == q.challenge.wire() + q.responses.wire());')
        for i, s in enumerate(['challenge'] + ['responses.' + x for x in ss]):
            p.append('    assert(enc_s(p.%s) =~= a.subrange(%d, %d)); assert(enc_s(q.%s) =~= b.subrange(%d, %d));' % (s, 40 * i + 8, 40 * i + 40, s, 40 * i + 8, 40 * i + 40))
            p.append('    assert(dec_s(enc_s(p.%s)) == dec_s(enc_s(q.%s)));' % (s, s))
        p.append('}')
    d.append('} // mod defs_proofs')
    p.append('''pub proof fn lem_tcom(t: Seq<Ev>, u: Seq<Ev>, l: Seq<u8>, m: Seq<u8>, n: Seq<u8>)
    requires tcom(t, l, m) == tcom(u, l, n)
    ensures t == u, m == n
{
    let a = tcom(t, l, m); let b = tcom(u, l, n);
    assert(t =~= a.drop_last()); assert(u =~= b.drop_last());
    assert(a.last() == Ev::Commit(l, m)); assert(b.last() == Ev::Commit(l, n));
}
pub proof fn lem_diff(a: Scalar, b: Scalar)
    requires a != b
    ensures ssub(a, b) != s0()
{
    broadcast use {ax_add_comm, ax_add_zero, lem_cancel2};
    assert(sadd(ssub(a, b), b) == a);
}
/// rP - cL = r'P - c'L and i(c - c') = 1: then L = i(r - r')P
pub proof fn lem_extract1(i: Scalar, c: Scalar, c2: Scalar, r: Scalar, r2: Scalar, p: Scalar, l: Scalar)
    requires smul(ssub(c, c2), i) == s1(), sadd(smul(r, p), smul(sneg(c), l)) == sadd(smul(r2, p), smul(sneg(c2), l))
    ensures l == smul(smul(i, ssub(r, r2)), p)
{
    broadcast use {ac, lem_neg_zero};
    lem_extract2(i, c, c2, r, r2, s0(), s0(), p, s0(), l);
}
pub proof fn lem_blind1(c: Scalar, r: Scalar, s: Scalar, p: Scalar)
    ensures smul(ssub(r, smul(c, s)), p) == sadd(smul(r, p), smul(sneg(c), smul(s, p)))
{
    let x = smul(c, s);
    ax_mul_comm(ssub(r, x), p); ax_dist(p, r, sneg(x)); ax_mul_comm(p, r); ax_mul_comm(p, sneg(x));
    lem_mul_neg(x, p); lem_mul_neg(c, smul(s, p)); ax_mul_assoc(c, s, p);
}
pub proof fn lem_blind2(c: Scalar, r: Scalar, s: Scalar, p: Scalar, r2: Scalar, t: Scalar, q: Scalar)
    ensures sadd(smul(ssub(r, smul(c, s)), p), smul(ssub(r2, smul(c, t)), q))
        == sadd(sadd(smul(r, p), smul(r2, q)), smul(sneg(c), sadd(smul(s, p), smul(t, q))))
{
    lem_blind1(c, r, s, p);
    lem_blind1(c, r2, t, q);
    ax_dist(sneg(c), smul(s, p), smul(t, q));
    broadcast use {ax_add_comm, ax_add_assoc};
}
pub broadcast proof fn lem_neg_zero() ensures #[trigger] sneg(s0()) == s0()
{ ax_neg(s0()); ax_add_zero(sneg(s0())); }
pub proof fn lem_extract2(i: Scalar, c: Scalar, c2: Scalar, r: Scalar, r2: Scalar, s: Scalar, t: Scalar, p: Scalar, q: Scalar, l: Scalar)
    requires smul(ssub(c, c2), i) == s1(),
        sadd(sadd(smul(r, p), smul(s, q)), smul(sneg(c), l)) == sadd(sadd(smul(r2, p), smul(t, q)), smul(sneg(c2), l))
    ensures l == sadd(smul(smul(i, ssub(r, r2)), p), smul(smul(i, ssub(s, t)), q))
{
    let a = sadd(smul(r, p), smul(s, q));
    let b = sadd(smul(r2, p), smul(t, q));
    let d = smul(ssub(c, c2), l);
    broadcast use ax_mul_comm;
    // a - cl = b - c2l, so a - b = (c - c2)l
    assert(ssub(a, b) == d) by {
        let x = sadd(a, smul(sneg(c), l));
        assert(sadd(x, smul(c, l)) == a) by { lem_mul_neg(c, l); lem_cancel2(a, smul(c, l)); }
        assert(sadd(sadd(b, smul(sneg(c2), l)), smul(c, l)) == sadd(b, d)) by { broadcast use ring; }
        assert(ssub(sadd(d, b), b) == d) by { lem_cancel1(d, b); }
        ax_add_comm(b, d);
    }
    assert(ssub(a, b) == sadd(smul(ssub(r, r2), p), smul(ssub(s, t), q))) by { broadcast use ring; }
    assert(smul(i, d) == l) by { broadcast use ac; assert(smul(i, smul(ssub(c, c2), l)) == smul(smul(ssub(c, c2), i), l)); }
    assert(smul(i, sadd(smul(ssub(r, r2), p), smul(ssub(s, t), q))) == sadd(smul(smul(i, ssub(r, r2)), p), smul(smul(i, ssub(s, t)), q))) by { 
        ax_dist(i, smul(ssub(r, r2), p), smul(ssub(s, t), q)); ax_mul_assoc(i, ssub(r, r2), p); ax_mul_assoc(i, ssub(s, t), q); }
}''')
    p.append('pub broadcast group complete { %s }' % ', '.join('lem_%s_complete' % m for m in STATEMENTS))
    p.append('pub broadcast group wires { %s }' % ', '.join('lem_%s_wire' % m for m in STATEMENTS))
    p.append('} // mod props_proofs')
    for name, text in (('defs_proofs.rs', d), ('proofs.ct', c), ('props_proofs.rs', p)):
        open(os.path.join(VERIF, 'contracts', name), 'w').write('\n'.join(text) + '\n')


if __name__ == '__main__':
    main()
