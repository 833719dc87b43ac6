"""Writes the contracts of the serde implementations, contracts/serde.ct and contracts/props_serde.rs, from the contracts
of `to_bytes` and `from_bytes`: what is serialised is the encoding, and what decodes is what `from_bytes` takes.
The lemmas are those of the round trips (client_rt_* of contracts/props.rs) with a format in the place of the bytes."""
import glob, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import compose as C

VERIF = C.VERIF

TYPES = '''aeonflux::amacs::Tag aeonflux::amacs::PublicKey aeonflux::amacs::SecretKey aeonflux::amacs::Keypair
aeonflux::credential::Credential aeonflux::credential::CredentialRequest aeonflux::credential::CredentialIssuance
aeonflux::credential::CredentialPresentation aeonflux::credential::VerifiedCredential aeonflux::elgamal::PublicKey
aeonflux::elgamal::SecretKey aeonflux::elgamal::Keypair aeonflux::issuer::Issuer aeonflux::parameters::SystemParameters
aeonflux::pedersen::Commitment aeonflux::user::User signal_credential::credential::SignalCredentialPresentation
signal_credential::credential::VerifiedSignalCredential signal_credential::issuer::SignalIssuer
signal_credential::phone_number::PhoneNumber signal_credential::phone_number::CommittedPhoneNumber
signal_credential::phone_number::RosterEntryCommitment signal_credential::user::SignalUser'''.split()


def main():
    cts = C.parse_contracts(p for p in sorted(glob.glob(VERIF + '/contracts/*.ct')) if not p.endswith('serde.ct'))
    out = ['# Written by tools/gen_serde.py.']
    clients = open(VERIF + '/contracts/props.rs').read()
    lem = ['// Written by tools/gen_serde.py.  Round trips through a format of serde.', 'pub mod props_serde {', 'use vstd::prelude::*;',
           'use crate::ext::serde::*;', 'use crate::props::*;']
    lem += sorted(set(l for l in re.findall(r'^(?:use|broadcast use) .*;$', clients, re.M)) - set(lem))
    for t in TYPES:
        mod, name = t.rsplit('::', 1)
        fb, tb = cts[t + '::from_bytes'], cts[t + '::to_bytes']
        ens = [x.text.strip() for x in fb.clauses if x.kind == 'ens']
        m = [re.match(r'r matches Ok\(x\) ==> (.*)$', e) for e in ens]
        makes = [x.group(1) for x in m if x][0].replace('bytes@', 'b')
        m = [re.match(r'r is Ok <==> (.*)$', e) for e in ens]
        takes = [x.group(1) for x in m if x][0].replace('bytes@', 'b')
        enc = [re.match(r'r@ =~= (.*)$', x.text.strip()).group(1) for x in tb.clauses if x.kind == 'ens'][0]
        out += ['@visitor %s | %s | %s | %s' % (t, takes, makes, enc),
                '@fn %s::<Serialize for %s>::serialize (serializer) -> r' % (mod, name), '@total C25',
                '@ens C25: serializer.wrote(%s, r)' % enc,
                '@fn %s::<Visitor for Local0__%s>::visit_bytes (v) -> r' % (mod, name), '@total C25',
                '@fn %s::<Visitor for Local0__%s>::visit_seq (seq) -> r' % (mod, name),
                '@attr #[verifier::allow_complex_invariants]', '@total C25', '@loop 0', '@enter: let ghost all = seq.left(); let ghost bad = seq.bad();', '@inv: seq.bad() == bad',
                '@invx: $m0@ + seq.left() =~= all', '@lens: $m0@ =~= all && !bad',
                '@dec: seq.left().len()',
                '@fn %s::<Deserialize for %s>::deserialize (deserializer) -> r' % (mod, name), '@total C25']
        for g in ('Bytes', 'Nums'):
            out += ['@ens C25: deserializer.given() matches serde::Given::%s(b) ==> (r is Ok <==> %s)' % (g, takes),
                    '@ens C25: deserializer.given() matches serde::Given::%s(b) ==> (r matches Ok(x) ==> %s)' % (g, makes)]
        out += ['@ens C25: deserializer.given() is Other ==> r is Err', '']
    n = 0
    for m in re.finditer(r'//@ (.*): (.*)\npub fn client_rt_(\w+)\(x: &([\w:]+)\)([^{]*)\{((?:.|\n)*?\n?)(?=\n//@|\n// ----|\npub )', clients):
        tags, title, short, ty, req, body = m.groups()
        name = ty.split('::')[-1]
        cand = [t for t in TYPES if t.split('::')[-1] == name and (('::' not in ty) or t.endswith(ty))]
        if not cand:
            continue
        assert len(cand) == 1, (ty, cand)
        enc = [re.match(r'r@ =~= (.*)$', x.text.strip()).group(1) for x in cts[cand[0] + '::to_bytes'].clauses if x.kind == 'ens'][0]
        enc = re.sub(r'\*self\b', '*x', enc)
        enc = re.sub(r'\bself\b', 'x', enc)
        body = body.replace('let b = x.to_bytes();', 'let b = x.to_bytes(); proof { assert(b@ =~= %s); }' % enc, 1)
        body2, k = re.subn(r'%s::from_bytes\(&b\)' % re.escape(ty), '%s::deserialize(d)' % ty, body)
        assert k == 1, (short, k)
        lem.append('//@ C25: %s' % title)
        for i, g in enumerate(('Bytes', 'Nums')):
            if i: lem.append('//@ C25: %s, as numbers' % title)
            r = req.strip()
            r = (r.rstrip(',') + ',' if r else 'requires') + ' d.given() == Given::%s(%s)' % (g, enc)
            lem.append("pub fn client_serde_%s_%s<'de, D: Deserializer<'de>>(x: &%s, d: D) %s {%s" % (short, g.lower(), ty, r, body2.rstrip()))
        n += 1
    lem.append('} // mod props_serde')
    open(VERIF + '/contracts/serde.ct', 'w').write('\n'.join(out) + '\n')
    open(VERIF + '/contracts/props_serde.rs', 'w').write('\n'.join(lem) + '\n')
    print(len(TYPES), 'types,', n, 'round trips')


main()
