//! The functions for JavaScript, with a stand-in for wasm-bindgen whose values are their JSON.
use crate::coding::*;
use crate::protocol::*;
use crate::util::*;
use aeonflux::amacs;
use aeonflux::parameters::SystemParameters;
use credential_js::js::*;
use rand::{ChaChaRng, SeedableRng};
use serde_json::Value;
use signal_credential::credential::*;
use signal_credential::issuer::*;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;
use wasm_bindgen::JsValue;

fn array(b: &[u8]) -> JsValue {
    JsValue(Value::Array(b.iter().map(|x| Value::from(*x)).collect()))
}
fn rng(s: &[u8]) -> Option<ChaChaRng> {
    if s.len() != 32 {
        return None;
    }
    let mut t = [0u8; 32];
    t.copy_from_slice(s);
    Some(ChaChaRng::from_seed(t))
}
fn fmt(name: &str, n: usize) -> Option<String> {
    types().iter().find(|t| t.name == name).and_then(|t| (t.fmt)(n))
}
/// A value of JavaScript for this type, and the bytes it stands for if it stands for any.
fn vary(c: &mut Case, name: &str, made: &[u8]) -> (JsValue, Option<Vec<u8>>) {
    let mut v = made.to_vec();
    match c.r.below(16) {
        0 => {
            let f = fmt(name, v.len()).unwrap();
            v = fill(c, &f);
        }
        1 => {
            if let Some(f) = fmt(name, v.len()) {
                spoil(c, &f, &mut v);
            }
        }
        2 => {
            let k = c.r.below(500);
            v = c.b(k);
        }
        3 => {
            // no byte string
            let x = match c.r.below(7) {
                0 => JsValue(Value::Null),
                1 => JsValue::from(c.int() as i32),
                2 => JsValue::from(false),
                3 => JsValue(Value::Object(Default::default())),
                k => {
                    let mut a: Vec<Value> = v.iter().map(|x| Value::from(*x)).collect();
                    let i = c.r.below(a.len().max(1));
                    let bad = match k {
                        4 => Value::from(256u64),
                        5 => Value::from(-1),
                        _ => Value::Null,
                    };
                    if i < a.len() { a[i] = bad } else { a.push(bad) }
                    JsValue(Value::Array(a))
                }
            };
            return (x, None);
        }
        4 => v = vec![0; v.len()],
        _ => {}
    }
    // JSON has the bytes of a string
    if c.r.one_in(3) {
        if let Ok(s) = String::from_utf8(v.clone()) {
            return (JsValue::from(s), Some(v));
        }
    }
    (array(&v), Some(v))
}

pub fn c27(h: &mut H) {
    h.each("calls", 150, 100000, 1.0, |c| {
        let d = c.phone();
        let (sp, _) = params(c);
        let si = SignalIssuer { issuer: issuer(c, sp) };
        let other = { let mut x = d.clone(); x.push(c.int() as u8); if c.r.one_in(4) { x.extend(vec![1u8; 30]) }; x };
        let ip = si.get_issuer_parameters();
        let issuance = si.issue(&d, &mut c.r).ok();
        let mut user = SignalUser::new(sp, ip.clone(), None, &d).ok();
        if let (Some(u), Some(i)) = (user.as_mut(), issuance.as_ref()) {
            if !c.r.one_in(6) {
                let _ = u.obtain_finish(Some(i));
            }
        }
        let entry = RosterEntryCommitment::create(if c.r.one_in(6) { &other } else { &d }, &sp, &mut c.r).ok();
        let pres = match (&user, &entry) {
            (Some(u), Some(e)) => u.show(&mut c.r, e).ok(),
            _ => None,
        };
        let (spb, sib, kpb, ipb) = (sp.to_bytes(), si.to_bytes(), si.issuer.keypair.to_bytes(), ip.to_bytes());
        let isb = issuance.map_or(vec![7u8; 328], |x| x.to_bytes());
        let usb = user.map_or(vec![7u8; 288], |x| x.to_bytes());
        let enb = entry.map_or(vec![7u8; 64], |x| x.to_bytes());
        let prb = pres.map_or(vec![7u8; 448], |x| x.to_bytes());

        for _ in 0..1 + c.r.below(3) {
            let f = c.r.below(9);
            let n = if c.r.one_in(10) { (c.int() % 70) as usize } else { 32 };
            let s = c.b(n);
            let num = if c.r.one_in(4) { other.clone() } else { d.clone() };
            let mut said = format!("seed={} number={}", hex(&s), hex(&num));
            macro_rules! a {
                ($name:expr, $made:expr) => {{
                    let v = vary(c, $name, $made);
                    said.push_str(&format!(" {}={}", $name, match v.1 { Some(ref b) => hex(b), None => serde_json::to_string(&(v.0).0).unwrap() }));
                    v
                }};
            }
            macro_rules! call {
                ($n:expr, $c:expr, $rust:expr) => {{
                    let want: Option<Vec<u8>> = (|| { $rust })();
                    ($n, quiet(|| $c), want)
                }};
            }
            let (name, got, want) = match f {
                0 => call!("system_parameters_create", system_parameters_create(&s), Some(SystemParameters::hunt_and_peck(&mut rng(&s)?).to_bytes())),
                1 => {
                    let x = a!("SystemParameters", &spb);
                    call!("issuer_create", issuer_create(x.0, &s), {
                        let mut g = rng(&s)?;
                        let x = SystemParameters::from_bytes(x.1.as_ref()?).ok()?;
                        Some(SignalIssuer::create(x, &mut g).issuer.keypair.to_bytes())
                    })
                }
                2 => {
                    let x = a!("SystemParameters", &spb);
                    let k = a!("amacs::Keypair", &kpb);
                    call!("issuer_new", issuer_new(x.0, k.0), {
                        let x = SystemParameters::from_bytes(x.1.as_ref()?).ok()?;
                        let k = amacs::Keypair::from_bytes(k.1.as_ref()?).ok()?;
                        Some(SignalIssuer::new(x, k).to_bytes())
                    })
                }
                3 => {
                    let i = a!("SignalIssuer", &sib);
                    call!("issuer_get_issuer_parameters", issuer_get_issuer_parameters(i.0), {
                        Some(SignalIssuer::from_bytes(i.1.as_ref()?).ok()?.get_issuer_parameters().to_bytes())
                    })
                }
                4 => {
                    let i = a!("SignalIssuer", &sib);
                    call!("issuer_issue", issuer_issue(i.0, &num, &s), {
                        let i = SignalIssuer::from_bytes(i.1.as_ref()?).ok()?;
                        Some(i.issue(&num, &mut rng(&s)?).ok()?.to_bytes())
                    })
                }
                5 => {
                    let i = a!("SignalIssuer", &sib);
                    let p = a!("SignalCredentialPresentation", &prb);
                    call!("issuer_verify", issuer_verify(i.0, p.0), {
                        let i = SignalIssuer::from_bytes(i.1.as_ref()?).ok()?;
                        Some(i.verify(SignalCredentialPresentation::from_bytes(p.1.as_ref()?).ok()?).ok()?.to_bytes())
                    })
                }
                6 => {
                    let i = a!("SignalIssuer", &sib);
                    let p = a!("VerifiedSignalCredential", &prb);
                    call!("issuer_verify_roster_membership", issuer_verify_roster_membership(i.0, p.0), {
                        let i = SignalIssuer::from_bytes(i.1.as_ref()?).ok()?;
                        Some(i.verify_roster_membership(&VerifiedSignalCredential::from_bytes(p.1.as_ref()?).ok()?).ok()?.to_bytes())
                    })
                }
                7 => {
                    let x = a!("SystemParameters", &spb);
                    let k = a!("amacs::PublicKey", &ipb);
                    let i = a!("CredentialIssuance", &isb);
                    call!("user_obtain_finish", user_obtain_finish(&num, x.0, k.0, i.0), {
                        let x = SystemParameters::from_bytes(x.1.as_ref()?).ok()?;
                        let k = IssuerParameters::from_bytes(k.1.as_ref()?).ok()?;
                        let i = SignalCredentialIssuance::from_bytes(i.1.as_ref()?).ok()?;
                        let mut u = SignalUser::new(x, k, None, &num).ok()?;
                        u.obtain_finish(Some(&i)).ok()?;
                        Some(u.to_bytes())
                    })
                }
                _ => {
                    let u = a!("SignalUser", &usb);
                    let e = a!("RosterEntryCommitment", &enb);
                    call!("user_show", user_show(u.0, e.0, &s), {
                        let mut g = rng(&s)?;
                        let u = SignalUser::from_bytes(u.1.as_ref()?).ok()?;
                        let e = RosterEntryCommitment::from_bytes(e.1.as_ref()?).ok()?;
                        Some(u.show(&mut g, &e).ok()?.to_bytes())
                    })
                }
            };
            let what = format!("{}({})", name, said);
            if c.it < 1 || c.h.only.is_some() {
                c.note(what.clone());
            } else {
                c.note(name.into());
            }
            let got = match got {
                Ok(x) => x,
                Err(e) => {
                    c.ck(false, || format!("{} panicked: {}", what, e));
                    continue;
                }
            };
            let show = |x: &JsValue| serde_json::to_string(&x.0).unwrap();
            match want {
                None => {
                    c.ck(got == JsValue::from(0), || format!("{} gave {}, where the library fails", what, show(&got)));
                }
                Some(want) => {
                    let b: Option<Vec<u8>> = match got.0 {
                        Value::Array(ref a) => a.iter().map(|x| x.as_u64().and_then(|n| if n < 256 { Some(n as u8) } else { None })).collect(),
                        _ => None,
                    };
                    // what a proof holds is drawn elsewhere: but it is accepted where the library's is
                    let as_good = match b {
                        None => false,
                        Some(ref b) if f == 4 => {
                            let ok = |b: &[u8]| SignalCredentialIssuance::from_bytes(b).ok().map(|i| issuance_ok(&sp, ip.Xn.get(0), &i));
                            b.len() == want.len() && b[..128] == want[..128] && ok(b) == ok(&want)
                        }
                        Some(ref b) if f == 8 => {
                            let ok = |b: &[u8]| SignalCredentialPresentation::from_bytes(b).ok().map(|p| (presentation_ok(&si.issuer, &p.presentation), roster_ok(&sp, &p)));
                            b.len() == want.len() && b[..128] == want[..128] && ok(b) == ok(&want)
                        }
                        Some(ref b) => *b == want,
                    };
                    c.ck(as_good, || format!("{} gave {}, and the library {}", what, show(&got), hex(&want)));
                }
            }
        }
    });
}
