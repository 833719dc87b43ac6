// What the functions for JavaScript take and return.
pub mod defs_wasm {
use vstd::prelude::*;
use crate::spec::*;
use crate::defs::*;
use crate::aeonflux;
use crate::aeonflux::amacs;
use crate::aeonflux::credential::*;
use crate::aeonflux::issuer::*;
use crate::aeonflux::user::*;
use crate::aeonflux::parameters::SystemParameters;
use crate::signal_credential::credential::*;
use crate::signal_credential::user::*;
use crate::signal_credential::phone_number::*;
use crate::ext::wasm_bindgen::*;
use crate::ext::serde::Given;

/// The bytes a value stands for, if it is a string or an array of small numbers.
pub open spec fn holds(v: JsValue) -> bool { !(v.given() is Other) }
pub open spec fn held(v: JsValue) -> Seq<u8> {
    match v.given() { Given::Bytes(b) => b, Given::Nums(b) => b, Given::Other => arbitrary() }
}
pub open spec fn nothing(r: JsValue) -> bool { r == js_number(0) }
pub open spec fn gives(r: JsValue, b: Seq<u8>) -> bool { r.given() == Given::Nums(b) }
/// The generator a seed stands for.
pub open spec fn seeded_by(seed: &[u8]) -> Rng { Rng { src: chacha(seed@), pos: 0 } }
/// A key made for the parameters, from the first draws of the generator.
pub open spec fn made_key(k: amacs::Keypair, x: SystemParameters, r: Rng) -> bool {
    keypair_ok(k, x.h) && k.secret.xn@.len() == 1 && parts_drawn(k.secret.x0, k.secret.xn@, r)
}
pub open spec fn issues(r: JsValue, i: Issuer, number: Seq<u8>, g: Rng) -> bool {
    if number.len() <= 26 && i.keypair.secret.xn@.len() == 1 {
        exists|c: CredentialIssuance| gives(r, #[trigger] enc_iss(c)) && issued_freshly(i, seq![phone_of(number)], c, g)
    } else { nothing(r) }
}
pub open spec fn obtains(r: JsValue, x: SystemParameters, k: amacs::PublicKey, i: CredentialIssuance, number: Seq<u8>) -> bool {
    let u = User { system_parameters: x, issuer_parameters: k, key: None, credential: None };
    if number.len() <= 26 && issuance_accepted(u, i) && i.credential.attributes@[0] == phone_of(number) {
        gives(r, enc_s(phone_of(number)) + enc_user(User { credential: Some(i.credential), ..u }))
    } else { nothing(r) }
}
pub open spec fn shows(r: JsValue, u: SignalUser, e: RosterEntryCommitment, g: Rng) -> bool {
    if u.user.credential is Some {
        exists|p: SignalCredentialPresentation| gives(r, #[trigger] enc_spres(p)) && sshown_freshly(u.user, e, p, g)
    } else { nothing(r) }
}
} // mod defs_wasm
