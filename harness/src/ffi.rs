//! The functions for C: what they answer, what they read, and how long their buffers last.
use crate::basics::watch;
use crate::coding::*;
use crate::protocol::*;
use crate::util::*;
use aeonflux::amacs;
use aeonflux::parameters::SystemParameters;
use credential::c::*;
use rand::{ChaChaRng, SeedableRng};
use signal_credential::credential::*;
use signal_credential::issuer::*;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, n: usize) -> i32;
}
const PAGE: usize = 4096;
/// Bytes that can be read and not written, between pages that can be neither: at the end of theirs, or at the start.
pub struct Fenced {
    base: *mut u8,
    at: *const u8,
    len: usize,
    room: usize,
}
impl Fenced {
    /// The bytes, and so many zeroes after them.
    pub fn new(b: &[u8], zeroes: usize, end: bool) -> Fenced {
        unsafe {
            let len = b.len() + zeroes;
            let room = (len + PAGE) / PAGE * PAGE;
            let base = mmap(std::ptr::null_mut(), room + 2 * PAGE, 3, 0x4022, -1, 0);
            assert!(base as isize != -1, "no memory");
            let at = if end { base.add(PAGE + room - len) } else { base.add(PAGE) };
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            assert!(mprotect(base, PAGE, 0) == 0 && mprotect(base.add(PAGE), room, 1) == 0 && mprotect(base.add(PAGE + room), PAGE, 0) == 0);
            Fenced { base, at, len, room }
        }
    }
}
impl Drop for Fenced {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.room + 2 * PAGE);
        }
    }
}

/// An argument: the bytes if there are any, the pointer and the length to pass.
pub struct Arg {
    mem: Option<Fenced>,
    p: *const u8,
    n: u64,
}
impl Arg {
    fn new(m: Fenced) -> Arg {
        Arg { p: m.at, n: m.len as u64, mem: Some(m) }
    }
    fn null(n: u64) -> Arg {
        Arg { mem: None, p: std::ptr::null(), n }
    }
    fn bytes(&self) -> Option<&[u8]> {
        match self.mem {
            Some(ref m) if m.len > 0 => Some(unsafe { std::slice::from_raw_parts(m.at, m.len) }),
            _ => None,
        }
    }
}
fn text(a: &Arg) -> String {
    match a.bytes() {
        Some(b) if b.len() <= 1000 => hex(b),
        Some(b) => format!("{}..*{}", hex(&b[..500]), b.len()),
        None => format!("{}*{}", if a.p.is_null() { "NULL" } else { "at" }, a.n),
    }
}
fn arg(c: &mut Case, name: &str, b: &[u8]) -> Arg {
    let end = c.r.one_in(2);
    match c.r.below(40) {
        0 => Arg::null(0),
        1 => Arg::null(c.int()),
        // nothing may be read: a pointer to the start of a fence
        2 => Arg::new(Fenced::new(&[], 0, true)),
        // a length that is the same in fewer bits
        3 => {
            // (what has any number of parts is not made of billions of them)
            let most = if fmt(name, 64 + (1 << 16)).is_some() || fmt(name, 96 + (1 << 16)).is_some() { 2 } else { 3 };
            let more = *c.r.pick(&[1usize << 8, 1 << 16, 1 << 32][..most]);
            Arg::new(Fenced::new(b, more, end))
        }
        _ => Arg::new(Fenced::new(b, 0, end)),
    }
}
/// A seed is 32 bytes, or there is none.
fn seed(c: &mut Case) -> Arg {
    if c.r.one_in(25) {
        return Arg::null(0);
    }
    let b = c.b(32);
    let end = c.r.one_in(2);
    Arg::new(Fenced::new(&b, 0, end))
}
fn rng(s: &Arg) -> Option<ChaChaRng> {
    let mut t = [0u8; 32];
    t.copy_from_slice(s.bytes()?);
    Some(ChaChaRng::from_seed(t))
}
fn fmt(name: &str, n: usize) -> Option<String> {
    types().iter().find(|t| t.name == name).and_then(|t| (t.fmt)(n))
}
/// Bytes of this type: as they were made, or random ones, or spoiled.
fn vary(c: &mut Case, name: &str, made: &[u8]) -> Vec<u8> {
    let mut v = made.to_vec();
    match c.r.below(8) {
        0 => {
            let f = fmt(name, v.len()).unwrap();
            v = fill(c, &f);
        }
        1 => {
            if let Some(f) = fmt(name, v.len()) {
                spoil(c, &f, &mut v);
            }
        }
        2 => {
            let k = c.r.below(500);
            v = c.b(k);
        }
        _ => {}
    }
    v
}

/// What C was given back, and what it should have been.
struct Held {
    what: String,
    buf: buf_t,
    want: Vec<u8>,
    /// it came from the allocator of this process
    ours: bool,
}
fn look(b: &buf_t) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(b.ptr, b.len as usize).to_vec() }
}

pub fn c26(h: &mut H) {
    h.each("calls", 150, 100000, 1.0, |c| {
        // bytes to pass, of a session
        let d = c.phone();
        let (sp, _) = params(c);
        let si = SignalIssuer { issuer: issuer(c, sp) };
        let other = { let mut x = d.clone(); x.push(c.int() as u8); if c.r.one_in(4) { x.extend(vec![1u8; 30]) }; x };
        let ip = si.get_issuer_parameters();
        let issuance = si.issue(&d, &mut c.r).ok();
        let mut user = SignalUser::new(sp, ip.clone(), None, &d).ok();
        if let (Some(u), Some(i)) = (user.as_mut(), issuance.as_ref()) {
            if !c.r.one_in(6) {
                let _ = u.obtain_finish(Some(i));
            }
        }
        let entry = RosterEntryCommitment::create(if c.r.one_in(6) { &other } else { &d }, &sp, &mut c.r).ok();
        let pres = match (&user, &entry) {
            (Some(u), Some(e)) => u.show(&mut c.r, e).ok(),
            _ => None,
        };
        let spb = sp.to_bytes();
        let sib = si.to_bytes();
        let kpb = si.issuer.keypair.to_bytes();
        let ipb = ip.to_bytes();
        let isb = issuance.map_or(vec![7u8; 328], |x| x.to_bytes());
        let usb = user.map_or(vec![7u8; 288], |x| x.to_bytes());
        let enb = entry.map_or(vec![7u8; 64], |x| x.to_bytes());
        let prb = pres.map_or(vec![7u8; 448], |x| x.to_bytes());
        c.ck(spb.len() as u64 == LENGTH_SYSTEM_PARAMETERS && sib.len() as u64 == LENGTH_ISSUER && kpb.len() as u64 == LENGTH_ISSUER_KEYPAIR
            && ipb.len() as u64 == LENGTH_ISSUER_PARAMETERS && isb.len() as u64 == LENGTH_CREDENTIAL_ISSUANCE && usb.len() as u64 == LENGTH_USER
            && prb.len() as u64 == LENGTH_CREDENTIAL_PRESENTATION && prb.len() as u64 == LENGTH_VERIFIED_CREDENTIAL && LENGTH_SEED == 32,
            || "a LENGTH_ constant is not the length".into());

        let mut held: Vec<Held> = vec![];
        let calls = 1 + c.r.below(5);
        for _ in 0..calls {
            let f = c.r.below(12);
            let s = seed(c);
            macro_rules! a {
                ($name:expr, $made:expr) => {{
                    let v = vary(c, $name, $made);
                    arg(c, $name, &v)
                }};
            }
            let num = { let x = if c.r.one_in(4) { other.clone() } else { d.clone() }; arg(c, "", &x) };
            let mut said: Vec<(&str, String)> = vec![("seed", text(&s))];
            macro_rules! call {
                ($n:expr, [$($x:ident),*], $c:expr, $rust:expr) => {{
                    $(said.push((stringify!($x), text(&$x)));)*
                    let want: Option<Vec<u8>> = (|| { $rust })();
                    ($n, watch::tracked(|| $c), want)
                }};
            }
            let (name, (buf, ours), want) = match f {
                0 => call!("system_parameters_create", [], system_parameters_create(s.p), Some(SystemParameters::hunt_and_peck(&mut rng(&s)?).to_bytes())),
                1 => {
                    let x = a!("SystemParameters", &spb);
                    call!("issuer_create", [x], issuer_create(x.p, x.n, s.p), {
                        let mut g = rng(&s)?;
                        let x = SystemParameters::from_bytes(x.bytes()?).ok()?;
                        Some(SignalIssuer::create(x, &mut g).issuer.keypair.to_bytes())
                    })
                }
                2 => {
                    let x = a!("SystemParameters", &spb);
                    let k = a!("amacs::Keypair", &kpb);
                    call!("issuer_new", [x, k], issuer_new(x.p, x.n, k.p, k.n), {
                        let x = SystemParameters::from_bytes(x.bytes()?).ok()?;
                        let k = amacs::Keypair::from_bytes(k.bytes()?).ok()?;
                        Some(SignalIssuer::new(x, k).to_bytes())
                    })
                }
                3 => {
                    let i = a!("SignalIssuer", &sib);
                    call!("issuer_get_issuer_parameters", [i], issuer_get_issuer_parameters(i.p, i.n), {
                        Some(SignalIssuer::from_bytes(i.bytes()?).ok()?.get_issuer_parameters().to_bytes())
                    })
                }
                4 => {
                    let i = a!("SignalIssuer", &sib);
                    call!("issuer_issue", [i, num], issuer_issue(i.p, i.n, num.p, num.n, s.p), {
                        let i = SignalIssuer::from_bytes(i.bytes()?).ok()?;
                        Some(i.issue(num.bytes()?, &mut rng(&s)?).ok()?.to_bytes())
                    })
                }
                5 => {
                    let i = a!("SignalIssuer", &sib);
                    let p = a!("SignalCredentialPresentation", &prb);
                    call!("issuer_verify", [i, p], issuer_verify(i.p, i.n, p.p, p.n), {
                        let i = SignalIssuer::from_bytes(i.bytes()?).ok()?;
                        Some(i.verify(SignalCredentialPresentation::from_bytes(p.bytes()?).ok()?).ok()?.to_bytes())
                    })
                }
                6 => {
                    let i = a!("SignalIssuer", &sib);
                    let p = a!("VerifiedSignalCredential", &prb);
                    call!("issuer_verify_roster_membership", [i, p], issuer_verify_roster_membership(i.p, i.n, p.p, p.n), {
                        let i = SignalIssuer::from_bytes(i.bytes()?).ok()?;
                        Some(i.verify_roster_membership(&VerifiedSignalCredential::from_bytes(p.bytes()?).ok()?).ok()?.to_bytes())
                    })
                }
                7 => {
                    let x = a!("SystemParameters", &spb);
                    let k = a!("amacs::PublicKey", &ipb);
                    let i = a!("CredentialIssuance", &isb);
                    call!("user_obtain_finish", [num, x, k, i], user_obtain_finish(num.p, num.n, x.p, x.n, k.p, k.n, i.p, i.n), {
                        let x = SystemParameters::from_bytes(x.bytes()?).ok()?;
                        let k = IssuerParameters::from_bytes(k.bytes()?).ok()?;
                        let i = SignalCredentialIssuance::from_bytes(i.bytes()?).ok()?;
                        let mut u = SignalUser::new(x, k, None, num.bytes()?).ok()?;
                        u.obtain_finish(Some(&i)).ok()?;
                        Some(u.to_bytes())
                    })
                }
                8 => {
                    let u = a!("SignalUser", &usb);
                    let e = a!("RosterEntryCommitment", &enb);
                    call!("user_show", [u, e], user_show(u.p, u.n, e.p, e.n, s.p), {
                        let mut g = rng(&s)?;
                        let u = SignalUser::from_bytes(u.bytes()?).ok()?;
                        let e = RosterEntryCommitment::from_bytes(e.bytes()?).ok()?;
                        Some(u.show(&mut g, &e).ok()?.to_bytes())
                    })
                }
                9 => {
                    let x = a!("SystemParameters", &spb);
                    call!("roster_entry_commitment_create", [num, x], roster_entry_commitment_create(num.p, num.n, x.p, x.n, s.p), {
                        let x = SystemParameters::from_bytes(x.bytes()?).ok()?;
                        Some(RosterEntryCommitment::create(num.bytes()?, &x, &mut rng(&s)?).ok()?.to_bytes())
                    })
                }
                10 => {
                    let e = a!("RosterEntryCommitment", &enb);
                    call!("roster_entry_commitment_remove_opening", [e], roster_entry_commitment_remove_opening(e.p, e.n), {
                        Some(RosterEntryCommitment::from_bytes(e.bytes()?).ok()?.commitment.to_bytes())
                    })
                }
                _ => {
                    let e = a!("RosterEntryCommitment", &enb);
                    let x = a!("SystemParameters", &spb);
                    call!("roster_entry_commitment_open", [e, num, x], roster_entry_commitment_open(e.p, e.n, num.p, num.n, x.p, x.n), {
                        let x = SystemParameters::from_bytes(x.bytes()?).ok()?;
                        let e = RosterEntryCommitment::from_bytes(e.bytes()?).ok()?;
                        e.open(num.bytes()?, &x).ok().map(|_| vec![])
                    })
                }
            };
            let what = format!("{}({})", name, said.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(", "));
            if c.it < 1 || c.h.only.is_some() {
                c.note(what.clone());
            } else {
                c.note(name.into());
            }
            if f == 11 {
                c.ck(buf.ptr.is_null() && buf.len == want.is_some() as u64, || format!("{} gave {} at {:?}, and the library {}", what, buf.len, buf.ptr, if want.is_some() { "opens it" } else { "does not" }));
                continue;
            }
            match want {
                None => {
                    c.ck(buf.ptr.is_null() && buf.len == 0, || format!("{} gave {} bytes at {:?}, where the library fails", what, buf.len, buf.ptr));
                }
                Some(want) => {
                    if !c.ck(!buf.ptr.is_null() && buf.len == want.len() as u64, || format!("{} gave {} bytes at {:?}, and the library {}", what, buf.len, buf.ptr, hex(&want))) {
                        continue;
                    }
                    c.ck(!ours.freed(buf.ptr), || format!("{} gave back memory it had freed", what));
                    let got = look(&buf);
                    // what a proof holds is drawn elsewhere: but it is accepted where the library's is
                    let as_good = if f == 4 {
                        let ok = |b: &[u8]| SignalCredentialIssuance::from_bytes(b).ok().map(|i| issuance_ok(&sp, ip.Xn.get(0), &i));
                        got[..128] == want[..128] && ok(&got) == ok(&want)
                    } else if f == 8 {
                        let ok = |b: &[u8]| SignalCredentialPresentation::from_bytes(b).ok().map(|p| (presentation_ok(&si.issuer, &p.presentation), roster_ok(&sp, &p)));
                        got[..128] == want[..128] && ok(&got) == ok(&want)
                    } else {
                        got == want
                    };
                    c.ck(as_good, || format!("{} gave {}, and the library {}", what, hex(&got), hex(&want)));
                    let want = got;
                    held.push(Held { what, ours: ours.given(buf.ptr), buf, want });
                }
            }
        }
        // the buffers stay as they are, whatever else is allocated, until they are given back
        let other: Vec<Vec<u8>> = held.iter().flat_map(|x| (0..8).map(move |i| vec![0xd0 + i as u8; x.want.len()])).collect();
        for x in held.iter() {
            c.ck(look(&x.buf) == x.want, || format!("the buffer of {} has changed", x.what));
        }
        drop(other);
        for i in (0..held.len()).rev() {
            let k = c.r.below(i + 1);
            let x = held.swap_remove(k);
            let (p, n) = (x.buf.ptr, x.buf.len);
            let (_, seen) = watch::tracked(|| buf_free(buf_t { ptr: p, len: n }));
            c.ck(seen.count(p) > 0 || !x.ours, || format!("buf_free did not free the buffer of {}", x.what));
            c.ck(seen.count(p) <= 1, || format!("buf_free freed the buffer of {} twice", x.what));
            c.ck(seen.sizes(p).iter().all(|s| *s == n as usize), || format!("buf_free freed {:?} bytes, where the buffer of {} has {}", seen.sizes(p), x.what, n));
            for y in held.iter() {
                c.ck(look(&y.buf) == y.want, || format!("the buffer of {} has changed, when that of {} was freed", y.what, x.what));
            }
        }
        let len = c.int();
        c.run("buf_free of a null pointer", || buf_free(buf_t { ptr: std::ptr::null(), len }));
    });
}
