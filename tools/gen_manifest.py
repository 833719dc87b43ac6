#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json; the theorems of a check are the obligations tagged with its property."""
import glob, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import compose as C
V = C.VERIF
A, S = 'aeonflux/src/', 'signal-credential/src/'
P = []


def prop(i, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': i, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})


prop('C01', 'A MAC verifies exactly for the key and message it was made for',
     'For every secret key and every message of the length the key was made for, a tag made with the key verifies with it (but for the negligible case of an identity nonce); a message of another length is refused, both when making and when verifying. A tag verifies for a message only if its nonce is not the identity and its second part is the key\'s exponent for that message times the nonce, so tags with another nonce, MAC, key or message are refused. A message made from a scalar, a list of scalars or text is that scalar, that list, or the scalar the text hashes to.',
     ['inputs'], 'all keys of any number of attributes, all messages, all tags and all random streams',
     'The tests make and check one tag; that nothing else verifies ranges over all tags and keys.',
     [A + 'amacs.rs'], [('making a tag', A + 'amacs.rs SecretKey::mac'), ('verifying a tag', A + 'amacs.rs SecretKey::verify')])
prop('C02', 'Rerandomising a tag keeps it valid for the same message, and makes none valid',
     'For every tag, every key and message and every factor but zero, the rerandomised tag verifies exactly when the original does. Both parts are multiplied by the same factor, the same whichever way the multiplication is written, and the factor is a fresh draw from the generator given.',
     ['inputs'], 'all tags, factors, keys, messages and random streams',
     'The tests rerandomise one tag; that both parts get the same factor for all tags, and that it is fresh, is not sampled.',
     [A + 'amacs.rs'], [('rerandomisation', A + 'amacs.rs Rerandomization')])
prop('C03', 'Encryption decrypts to the message, and adds up',
     'For every keypair, message and nonce, what is encrypted to the public key decrypts with the secret key to the message. The sum of two encryptions to one key decrypts to the sum of the messages. A generated keypair has the public key of its secret key, and an encrypted phone number decrypts to the point of the number.',
     ['inputs'], 'all keys, messages, nonces and random streams',
     'A test decrypts one random message.',
     [A + 'elgamal.rs', S + 'phone_number.rs', A + 'nonces.rs'], [('encryption and decryption', A + 'elgamal.rs PublicKey::encrypt, SecretKey::decrypt'), ('homomorphic sum', A + 'elgamal.rs Add for Encryption')])
prop('C04', 'A commitment opens to exactly what it was made of',
     'For every value, nonce and basepoint, a commitment made of them opens with them. It opens with a value and nonce only if the value plus the nonce times the basepoint is the commitment: not to another value with the same nonce, and, unless the basepoint is the identity, not to the same value with another nonce. Multiplying a commitment by a scalar, and subtracting it from a point, do so to the committed point.',
     ['inputs'], 'all values, nonces, basepoints and commitments',
     'A test opens one commitment and one wrong one.',
     [A + 'pedersen.rs', A + 'nonces.rs'], [('committing and opening', A + 'pedersen.rs Commitment::to, Commitment::open')])
prop('C05', 'What an honest issuer issues, the user accepts',
     'For all system parameters, keys, attributes and random streams, a request for as many attributes as the issuer has keys is issued a credential with exactly those attributes, a MAC of them under the issuer\'s key, and a proof; any other request is refused. A user with the issuer\'s parameters accepts it, and so does the user of a phone number for that number, however it is sent.',
     ['inputs', 'histories'], 'all parameters, issuer keys, attributes, phone numbers and random streams',
     'The tests issue for one or two fixed numbers with random keys.',
     [A + 'issuer.rs', A + 'user.rs', S + 'issuer.rs', S + 'user.rs', A + 'proofs.rs'], [('issuing', A + 'issuer.rs Issuer::issue'), ('accepting', A + 'user.rs User::obtain_finish')])
prop('C06', 'A user takes only an issuance it can check, and otherwise stays as it was',
     'A user takes a credential only from an issuance with one attribute whose proof verifies against the user\'s system parameters, the issuer parameters it holds, and the commitment and MAC received; the user of a phone number moreover only if the attribute is its number. A user which refuses, or is given nothing, is left unchanged; one which accepts changes nothing but its credential. Two accepted proofs with the same commitments and different challenges yield the key committed to, and the MAC received is a MAC of the attribute received under it.',
     ['inputs', 'histories'], 'all users, in whatever state, and all issuances, honest or not',
     'The tests only finish an honest issuance; they refuse none, and do not look at the state left behind.',
     [A + 'user.rs', S + 'user.rs', A + 'proofs.rs'], [('finishing', A + 'user.rs User::obtain_finish'), ('the phone number', S + 'user.rs SignalUser::obtain_finish')])
prop('C07', 'A presentation of a valid credential is accepted by its issuer',
     'For every issuer, every credential it issued and every random stream (but for the negligible case of a zero draw), the presentation the user shows is accepted by the issuer, also after it is sent. A user without a credential, or with numbers of attributes, nonces and issuer keys that do not fit, shows nothing and returns an error.',
     ['inputs', 'histories'], 'all parameters, keys, attributes, users and random streams',
     'The tests present one credential for random keys.',
     [A + 'user.rs', A + 'issuer.rs', S + 'user.rs', S + 'issuer.rs', A + 'proofs.rs'], [('showing', A + 'user.rs User::show'), ('verifying', A + 'issuer.rs Issuer::verify')])
prop('C08', 'An accepted presentation proves a MAC of this issuer on the hidden attribute',
     'A presentation is accepted only if its nonce is not the identity, it has exactly the attributes the issuer has keys for, and its proof verifies against the point the issuer computes with its own secret key. From two accepting proofs with the same commitments and different challenges, a MAC of the issuer\'s key on the attribute committed to can be computed; so nothing else is accepted, and what is returned as verified is what was presented.',
     ['inputs'], 'all presentations, however they were made, and all issuers',
     'The tests present no forged presentation; forgeries are all the presentations there are.',
     [A + 'issuer.rs', S + 'issuer.rs', A + 'proofs.rs'], [('verifying', A + 'issuer.rs Issuer::verify'), ('the proof', A + 'proofs.rs valid_credential')])
prop('C09', 'Presentations are blinded with fresh, independent randomness',
     'Each presentation multiplies the tag by a factor drawn afresh, hides the MAC with another draw and the attribute with another, none of them used twice or left constant; so do the nonces, the tags issued and the openings of roster entries. Everything of a presentation but its proof is the same function of these draws for every credential, so presentations cannot be linked by it.',
     ['inputs', 'histories'], 'all credentials, users, sequences of presentations and random streams',
     'A test cannot see whether values which look random are drawn afresh, nor compare all presentations.',
     [A + 'user.rs', S + 'user.rs', A + 'nonces.rs', A + 'amacs.rs', S + 'phone_number.rs'], [('showing', A + 'user.rs User::show'), ('fresh nonces', A + 'nonces.rs Nonces::new')])
prop('C10', 'Roster membership is accepted only for the number of the credential',
     'Roster membership is accepted only if the proof verifies against the issuer\'s parameters, the presented nonce and hidden attribute, and the roster entry presented; the entry returned is the one presented. From two accepting proofs with the same commitments and different challenges, one number can be computed which opens both the hidden attribute of the credential and the roster entry.',
     ['inputs'], 'all verified presentations, however they were made, and all issuers',
     'No test presents a roster entry of another number, or a forged proof.',
     [S + 'issuer.rs', A + 'proofs.rs'], [('checking membership', S + 'issuer.rs SignalIssuer::verify_roster_membership'), ('the proof', A + 'proofs.rs committed_values_equal')])
prop('C11', 'A member of the roster is accepted as one',
     'For every phone number, issuer, roster entry for that number and random stream (but for a zero draw), a user with a credential for the number shows a presentation which is accepted, whose roster membership is accepted, and which returns that very entry. A presentation with the entry of another number is not accepted as a member.',
     ['inputs', 'histories'], 'all phone numbers, parameters, keys, roster entries and random streams',
     'The tests try one number.',
     [S + 'user.rs', S + 'issuer.rs', S + 'phone_number.rs', A + 'proofs.rs'], [('showing', S + 'user.rs SignalUser::show'), ('checking', S + 'issuer.rs SignalIssuer::verify_roster_membership')])
prop('C12', 'A proof of a true statement is accepted',
     'For each of the five zero-knowledge proofs, for all secrets and public values for which the statement holds and every transcript, the proof made is accepted with the same transcript and public values.',
     ['inputs'], 'all secrets, public values and transcripts for the five proofs',
     'The tests make some of the proofs, once, within the protocol.',
     [A + 'proofs.rs'], [('making a proof', A + 'proofs.rs Proof::create'), ('verifying it', A + 'proofs.rs Proof::verify')])
prop('C13', 'The challenge of a proof binds everything it is about',
     'For each of the five zero-knowledge proofs, the challenge is taken from a transcript which holds, besides what was in it before, every public value and every commitment, each under a label of its own, both when making and when verifying. So a proof is not accepted with another transcript or with any public value changed.',
     ['inputs'], 'all proofs, transcripts and public values for the five proofs',
     'No test changes a public value or the transcript; that nothing is left out cannot be seen from accepted proofs.',
     [A + 'proofs.rs'], [('Fiat-Shamir transcript', A + 'proofs.rs Proof::create, Proof::verify')])
prop('C14', 'A proof is accepted only if its verification equations hold',
     'For each of the five zero-knowledge proofs, verification recomputes every commitment of the statement from the challenge, the responses and the public values, and accepts exactly if the challenge is the one the transcript then gives. From two accepting proofs with the same commitments and different challenges, secrets for which the whole statement holds can be computed.',
     ['inputs'], 'all proofs, honest or forged, public values and transcripts for the five proofs',
     'Tests only accept honest proofs; a missing or wrong equation is seen only by a forgery made for it.',
     [A + 'proofs.rs'], [('verification equations', A + 'proofs.rs Proof::verify')])
prop('C15', 'Each secret of a proof is masked by randomness of its own',
     'For each of the five zero-knowledge proofs, the response for each secret is that secret times the challenge plus a blinding drawn from the transcript, keyed with the secrets and outside randomness, and no two secrets share a blinding. So the proof made reveals nothing of the secrets but the statement.',
     ['inputs'], 'all secrets, public values, transcripts and random streams for the five proofs',
     'Reused or constant blindings give proofs which every test accepts.',
     [A + 'proofs.rs'], [('blindings', A + 'proofs.rs Proof::create')])
prop('C16', 'What is encoded decodes to itself',
     'For every value of every type with an encoding (tags, MAC and encryption keys, commitments, parameters, credentials, requests, issuances, presentations, issuers, users, phone numbers, roster entries and Signal\'s kinds of these), decoding the encoding succeeds and gives the same value. The values are those the library itself makes: one attribute, and no key or credential encoded like a missing one.',
     ['inputs'], 'all values of the 24 encoded types',
     'The tests round-trip a few random values of some of the types.',
     [A + f for f in ('amacs.rs', 'credential.rs', 'elgamal.rs', 'issuer.rs', 'parameters.rs', 'pedersen.rs', 'user.rs')] + [S + f for f in ('credential.rs', 'issuer.rs', 'phone_number.rs', 'user.rs')],
     [('encoding', 'to_bytes of each type'), ('decoding', 'from_bytes of each type')])
prop('C17', 'Each value has one encoding, and nothing else decodes',
     'Whatever byte string a decoder accepts is exactly the encoding of the value it returns: no trailing, missing or ignored bytes, no unreduced scalars and no invalid points are accepted. So two different byte strings never decode to the same value.',
     ['inputs'], 'all byte strings of any length and all 24 decoders',
     'Tests decode only what was just encoded.',
     [A + f for f in ('amacs.rs', 'credential.rs', 'elgamal.rs', 'issuer.rs', 'parameters.rs', 'pedersen.rs', 'user.rs')] + [S + f for f in ('credential.rs', 'issuer.rs', 'phone_number.rs', 'user.rs')],
     [('length and canonicity checks', 'from_bytes of each type')])
prop('C18', 'Decoders never panic',
     'Every decoder returns a value or an error for every byte string of every length: it does not panic, overflow, index out of range or loop for ever.',
     ['inputs'], 'all byte strings of any length and all 24 decoders',
     'Tests decode only well-formed bytes.',
     [A + f for f in ('amacs.rs', 'credential.rs', 'elgamal.rs', 'issuer.rs', 'parameters.rs', 'pedersen.rs', 'user.rs')] + [S + f for f in ('credential.rs', 'issuer.rs', 'phone_number.rs', 'user.rs')],
     [('length checks', 'from_bytes of each type')])
prop('C19', 'Different phone numbers are different attributes, and text survives',
     'Up to 26 digits are accepted as a phone number, and more are refused with an error; digits and the text of them make the same number, and two different sequences of digits make different numbers. The text of a number made from text of digits is that text. The message a number is made into for the MAC is the number.',
     ['inputs'], 'all sequences of digits and all texts, of any length',
     'The tests convert a handful of numbers of usual length.',
     [S + 'phone_number.rs'], [('encoding of digits', S + 'phone_number.rs PhoneNumber::try_from_bytes, try_from_string'), ('back to text', S + 'phone_number.rs From<PhoneNumber> for String')])
prop('C20', 'A roster entry opens to its phone number and to no other',
     'For every phone number and all parameters chosen by the library, a roster entry made for the number opens to it, and to no other number; an entry for too long a number is not made, and opening to one is an error. An entry keeps its meaning through its encoding, and its opening is drawn afresh from the generator given.',
     ['inputs'], 'all phone numbers, parameters, openings and random streams',
     'The tests open one entry.',
     [S + 'phone_number.rs', A + 'pedersen.rs'], [('committing and opening', S + 'phone_number.rs CommittedPhoneNumber, RosterEntryCommitment')])
prop('C21', 'Secrets are overwritten when they are dropped',
     'When a secret key of the MAC or of encryption, a nonce, a list of nonces or a rerandomisation factor is dropped, every secret scalar in it is overwritten with zero, however many there are.',
     ['inputs', 'histories'], 'all secret values, of any number of attributes, whenever they are dropped',
     'What memory holds after a drop is not visible to the tests.',
     [A + 'amacs.rs', A + 'elgamal.rs', A + 'nonces.rs'], [('clearing on drop', 'Drop for SecretKey, Ephemeral, Nonces, Rerandomization')])
prop('C22', 'System parameters are two different, independent basepoints',
     'Parameters chosen with a generator have the standard basepoint first, and second a point decoded from bytes drawn from the generator, which is neither the basepoint nor the identity. Parameters made from a given point or from its encoding keep it, and parameters survive being encoded.',
     ['inputs'], 'all random streams, points and encodings',
     'A test chooses parameters once; a bad draw has negligible probability in a test.',
     [A + 'parameters.rs'], [('choosing', A + 'parameters.rs SystemParameters::hunt_and_peck'), ('conversions', A + 'parameters.rs From')])
prop('C23', 'An issuer keeps its keys, and its public key belongs to its secret key',
     'Each part of a new secret key is a draw of its own from the generator given. The public key of a keypair made by the library is each secret attribute key times the second basepoint, in order; an issuer has the parameters and keys it was made with, gives out the public key, and has the same ones when it is restored from its encoding.',
     ['inputs', 'histories'], 'all keys of any number of attributes, parameters and random streams',
     'The tests do not look into keys, which are random.',
     [A + 'amacs.rs', A + 'issuer.rs', S + 'issuer.rs'], [('keys', A + 'amacs.rs SecretKey::new, get_public_key, Keypair::new'), ('issuers', A + 'issuer.rs Issuer')])
prop('C24', 'No operation panics: what cannot be done returns an error',
     'Every operation of the protocol (making keys, issuing, finishing, showing, verifying, checking the roster, encrypting, committing, converting and encoding) returns for all arguments, also for keys, credentials, presentations and nonces with too many or too few parts, and says in its result when something is missing or does not fit. Excepted are blind requests, which are not implemented, indexing past the end, and conversions to parameters which cannot fail otherwise.',
     ['inputs', 'histories'], 'all arguments of the public operations, also ill-fitting ones',
     'Tests pass arguments which fit.',
     [A + f for f in ('amacs.rs', 'issuer.rs', 'user.rs', 'credential.rs', 'elgamal.rs', 'pedersen.rs', 'nonces.rs', 'proofs.rs', 'errors.rs')] + [S + f for f in ('issuer.rs', 'user.rs', 'phone_number.rs', 'credential.rs', 'errors.rs')],
     [('results', 'the public functions of both crates')])
prop('C25', 'Values survive serialisation by any format of serde',
     'For every value with an encoding and every format of serde which carries byte strings, as such or as sequences of numbers, what the format is given is the encoding, and reading it back gives the same value. What is read is exactly the byte strings that from_bytes takes, and it is what from_bytes makes of them; anything else, such as bytes which do not decode, a sequence with something else in it or one that breaks off, is an error.',
     ['inputs', 'configurations'], 'all values of the 23 types with serde implementations, all byte strings and sequences, and all formats',
     'The tests use one format, for two types.',
     [A + 'macros.rs'], [('serde implementations', A + 'macros.rs impl_serde_with_to_bytes_and_from_bytes')])
prop('C26', 'The C interface does what the library does, in memory its caller may use',
     'Every function of the C interface returns the encoding of what the library returns for the arguments decoded, with a generator made from the seed; and an empty buffer with a null pointer if an argument is null, empty or does not decode, or the library fails. It reads nothing beyond what the caller passed. The buffer stays valid and unchanged until the caller gives it back with buf_free, which frees it, once.',
     ['inputs', 'histories'], 'all arguments of the twelve functions, null or not, and all orders of calls',
     'The tests call eight functions with one good input each, and do not look at failures or at memory that was freed.',
     ['ffi/src/c.rs', 'ffi/src/macros.rs'], [('the functions', 'ffi/src/c.rs'), ('conversions of arguments and results', 'ffi/src/macros.rs slice_to_len_and_ptr, len_and_ptr_to_slice, csprng_from_seed')])
prop('C27', 'The JavaScript interface does what the library does',
     'Every function of the JavaScript interface returns the encoding, as an array of numbers, of what the library returns for the arguments decoded, with a generator made from the seed. It returns the number 0 if an argument does not decode, the seed does not have 32 bytes or the library fails, and it never panics.',
     ['inputs'], 'all arguments of the nine functions, whatever values they are',
     'There are no tests of it, and the crate is not part of the build.',
     ['wasm/src/js.rs'], [('the functions', 'wasm/src/js.rs'), ('conversions of seeds and results', 'wasm/src/js.rs csprng_from_seed, ok_or_return')])
prop('C29', 'Encodings have fixed, published sizes',
     'A tag is encoded in 64 bytes, a credential of one attribute in 96, an issuance in 328, a presentation in 256, a Signal presentation in 448 and a roster entry in 64, and the published constants agree where there are such. The lengths reported for keys are the numbers of their parts.',
     ['inputs'], 'all values of these types',
     'A test may measure one value of a type, not all.',
     [A + 'credential.rs', A + 'elgamal.rs', A + 'parameters.rs', A + 'pedersen.rs', S + 'phone_number.rs', A + 'amacs.rs', S + 'credential.rs'], [('sizes', A + 'credential.rs, ' + S + 'credential.rs')])

NA = {}


def obligations():
    out = {}
    cs = C.parse_contracts(sorted(glob.glob(V + '/contracts/*.ct')))
    for c in cs.values():
        n = {}
        for x in c.clauses:
            if x.kind == 'ens':
                n['ens'] = n.get('ens', 0) + 1
                for t in x.tags:
                    out.setdefault(t, []).append('%s/ens%d' % (c.id, n['ens']))
        for t in c.total:
            out.setdefault(t, []).append('%s/safety' % c.id)
    for p in sorted(glob.glob(V + '/contracts/props*.rs')):
        cur = []
        for l in open(p):
            m = re.match(r'\s*//@\s*([A-Z0-9 ]*):', l)
            if m:
                cur = m.group(1).split()
            m = re.match(r'\s*pub (?:(?:broadcast )?proof )?fn (\w+)', l)
            if m:
                for t in cur:
                    out.setdefault(t, []).append('lemma::' + m.group(1))
                cur = []
    return out


NOTE = ('Every obligation of the functions the property rests on is discharged by Verus from the text extracted from /repo on this run, for all inputs and iterations. '
        'Trusted: the model of the dependencies (model/model.rs), the extraction, Verus and Z3. Concrete runs of the compiled library stand beside the proof, find failing inputs, '
        'and stand in (bounded, reported as exploration) for a function Verus cannot be given after a change.')


def main():
    ob = obligations()
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
            continue
        checks.append({
            'property': i,
            'quick_cmd': 'python3 tools/check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
            'technique': 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run; failing inputs searched for with the compiled library',
            'level': 'proof', 'level_note': NOTE, 'theorems': ob[i],
        })
    m = {'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the checks read its source and link its public interface. The obligations named under theorems are clauses of contracts/*.ct (function/ensN, function/safety) and lemmas of contracts/props*.rs.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
