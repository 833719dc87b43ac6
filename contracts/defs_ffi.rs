// What the functions for C take and return.
pub mod defs_ffi {
use vstd::prelude::*;
use crate::spec::*;
use crate::defs::*;
use crate::aeonflux;
use crate::aeonflux::amacs;
use crate::aeonflux::credential::*;
use crate::aeonflux::issuer::*;
use crate::aeonflux::user::*;
use crate::aeonflux::parameters::SystemParameters;
use crate::signal_credential::credential::*;
use crate::signal_credential::user::*;
use crate::signal_credential::phone_number::*;
use crate::ffi::c::buf_t;

/// What a caller vouches for: that the bytes are there, unless the pointer is null.
pub open spec fn there(p: *const u8, n: u64) -> bool { is_nil(p) || readable(p, n as int) }
pub open spec fn at(p: *const u8, n: u64) -> Seq<u8> { mem(p, n as int) }
pub open spec fn given(p: *const u8, n: u64) -> bool { !is_nil(p) && n != 0 }
pub open spec fn nothing(r: buf_t) -> bool { r.len == 0 && is_nil(r.ptr) }
/// The caller has the bytes, for as long as it wants.
pub open spec fn hands_over(r: buf_t, b: Seq<u8>) -> bool { !is_nil(r.ptr) && r.len == b.len() && lives(r.ptr, b) }
/// The generator a seed stands for.
pub open spec fn seeded_by(seed: *const u8) -> Rng { Rng { src: chacha(mem(seed, 32)), pos: 0 } }
/// A key made for the parameters, from the first draws of the generator.
pub open spec fn made_key(k: amacs::Keypair, x: SystemParameters, r: Rng) -> bool {
    keypair_ok(k, x.h) && k.secret.xn@.len() == 1 && parts_drawn(k.secret.x0, k.secret.xn@, r)
}
pub open spec fn issues(r: buf_t, i: Issuer, number: Seq<u8>, g: Rng) -> bool {
    if number.len() <= 26 && i.keypair.secret.xn@.len() == 1 {
        exists|c: CredentialIssuance| hands_over(r, #[trigger] enc_iss(c)) && issued_freshly(i, seq![phone_of(number)], c, g)
    } else { nothing(r) }
}
pub open spec fn obtains(r: buf_t, x: SystemParameters, k: amacs::PublicKey, i: CredentialIssuance, number: Seq<u8>) -> bool {
    let u = User { system_parameters: x, issuer_parameters: k, key: None, credential: None };
    if number.len() <= 26 && issuance_accepted(u, i) && i.credential.attributes@[0] == phone_of(number) {
        hands_over(r, enc_s(phone_of(number)) + enc_user(User { credential: Some(i.credential), ..u }))
    } else { nothing(r) }
}
pub open spec fn shows(r: buf_t, u: SignalUser, e: RosterEntryCommitment, g: Rng) -> bool {
    if u.user.credential is Some {
        exists|p: SignalCredentialPresentation| hands_over(r, #[trigger] enc_spres(p)) && sshown_freshly(u.user, e, p, g)
    } else { nothing(r) }
}
pub open spec fn enters(r: buf_t, x: SystemParameters, number: Seq<u8>, g: Rng) -> bool {
    if number.len() <= 26 {
        exists|e: RosterEntryCommitment| hands_over(r, #[trigger] enc_roster(e)) && entered(e, x, number, g)
    } else { nothing(r) }
}
/// The opening is a draw of the generator.
pub open spec fn entered(e: RosterEntryCommitment, x: SystemParameters, number: Seq<u8>, g: Rng) -> bool {
    &&& entry_is(e.commitment, phone_of(number), e.opening.0, x.g, x.h)
    &&& exists|i: int| i >= g.pos && e.opening.0 == #[trigger] draw_s(g.src, i)
}
} // mod defs_ffi
