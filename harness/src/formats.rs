//! Values through the formats of serde.
use crate::coding::*;
use crate::util::*;
use aeonflux::amacs;
use aeonflux::credential::*;
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen;
use aeonflux::user::User;
use serde::de::{self, Deserialize, IntoDeserializer, Visitor};
use serde::ser;
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;

#[derive(Debug)]
pub struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(t: T) -> E { E(t.to_string()) }
}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(t: T) -> E { E(t.to_string()) }
}

/// What a format may have where a value was.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form { Slice, Borrowed, Owned, Numbers, Wide, Hinted, Misled, Breaks, Big, Strings, Unit, None_, Map, Number }
pub const FORMS: [Form; 14] = [Form::Slice, Form::Borrowed, Form::Owned, Form::Numbers, Form::Wide, Form::Hinted, Form::Misled, Form::Breaks, Form::Big, Form::Strings, Form::Unit, Form::None_, Form::Map, Form::Number];
impl Form {
    /// whether the bytes are there to be had
    pub fn whole(self) -> bool {
        match self {
            Form::Slice | Form::Borrowed | Form::Owned | Form::Numbers | Form::Wide | Form::Hinted | Form::Misled => true,
            _ => false,
        }
    }
}
pub struct D<'a>(pub Form, pub &'a [u8]);
struct Seq<'a>(Form, &'a [u8], usize);
impl<'de, 'a> de::SeqAccess<'de> for Seq<'a> {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        let i = self.2;
        self.2 += 1;
        if i >= self.1.len() {
            return match self.0 {
                Form::Breaks => Err(E("the input ends".into())),
                Form::Big if i == self.1.len() => seed.deserialize(IntoDeserializer::<E>::into_deserializer(256u64 + i as u64)).map(Some),
                _ => Ok(None),
            };
        }
        let x = self.1[i];
        match self.0 {
            Form::Wide => seed.deserialize(IntoDeserializer::<E>::into_deserializer(x as u64)).map(Some),
            Form::Strings => seed.deserialize(IntoDeserializer::<E>::into_deserializer(x.to_string())).map(Some),
            _ => seed.deserialize(IntoDeserializer::<E>::into_deserializer(x)).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        if self.0 == Form::Misled {
            // a hint is only a hint
            return Some([0, 1, self.1.len() / 2, 2 * self.1.len(), usize::max_value()][self.1.len() / 32 % 5]);
        }
        if self.0 == Form::Hinted { Some(self.1.len() - self.2.min(self.1.len())) } else { None }
    }
}
struct NoMap;
impl<'de> de::MapAccess<'de> for NoMap {
    type Error = E;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, _: K) -> Result<Option<K::Value>, E> { Ok(None) }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, _: V) -> Result<V::Value, E> { Err(E("no value".into())) }
}
impl<'de> de::Deserializer<'de> for D<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Form::Slice => v.visit_bytes(&self.1.to_vec()),
            Form::Borrowed => v.visit_borrowed_bytes(self.1),
            Form::Owned => v.visit_byte_buf(self.1.to_vec()),
            Form::Unit => v.visit_unit(),
            Form::None_ => v.visit_none(),
            Form::Map => v.visit_map(NoMap),
            Form::Number => v.visit_u64(self.1.len() as u64),
            f => v.visit_seq(Seq(f, self.1, 0)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
/// Bytes which come without a mark of what they are, as in a format that is not self-describing.
pub struct Blind<'a>(pub &'a [u8]);
impl<'de> de::Deserializer<'de> for Blind<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E("the format does not say what it has".into())) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_borrowed_bytes(self.0) }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_byte_buf(self.0.to_vec()) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_seq(Seq(Form::Numbers, self.0, 0)) }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string option unit unit_struct
        newtype_struct tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// A type, and a value of it, by its bytes: as the formats write it, and as they read it.
pub struct Via {
    pub name: &'static str,
    pub write: fn(&[u8]) -> Option<(Vec<u8>, String, serde_json::Value)>,
    pub bin: fn(&[u8]) -> Option<Vec<u8>>,
    pub bin_reader: fn(&[u8]) -> Option<Vec<u8>>,
    pub json: fn(&str) -> Option<Vec<u8>>,
    pub json_reader: fn(&[u8]) -> Option<Vec<u8>>,
    pub json_value: fn(serde_json::Value) -> Option<Vec<u8>>,
    pub form: for<'a> fn(Form, &'a [u8]) -> Option<Vec<u8>>,
    pub blind: for<'a> fn(&'a [u8]) -> Option<Vec<u8>>,
    pub several: fn(&[u8]) -> Option<(Vec<Vec<u8>>, Vec<Vec<u8>>)>,
}
macro_rules! via {
    ($name:expr, $t:ty) => {
        Via {
            name: $name,
            write: |b| <$t>::from_bytes(b).ok().map(|x| (bincode::serialize(&x).unwrap(), serde_json::to_string(&x).unwrap(), serde_json::to_value(&x).unwrap())),
            bin: |b| bincode::deserialize::<$t>(b).ok().map(|x| x.to_bytes()),
            bin_reader: |b| bincode::deserialize_from::<_, $t>(b).ok().map(|x| x.to_bytes()),
            json: |s| serde_json::from_str::<$t>(s).ok().map(|x| x.to_bytes()),
            json_reader: |s| serde_json::from_reader::<_, $t>(s).ok().map(|x| x.to_bytes()),
            json_value: |v| serde_json::from_value::<$t>(v).ok().map(|x| x.to_bytes()),
            form: |f, b| <$t>::deserialize(D(f, b)).ok().map(|x| x.to_bytes()),
            blind: |b| <$t>::deserialize(Blind(b)).ok().map(|x| x.to_bytes()),
            several: |b| {
                let f = || <$t>::from_bytes(b).ok();
                let v = vec![f()?, f()?, f()?];
                let a: Vec<$t> = bincode::deserialize(&bincode::serialize(&v).unwrap()).ok()?;
                let c: (Option<$t>, std::collections::BTreeMap<String, $t>) =
                    serde_json::from_str(&serde_json::to_string(&(f(), vec![("k".to_string(), f()?)].into_iter().collect::<std::collections::BTreeMap<_, _>>())).unwrap()).ok()?;
                let mut d: Vec<Vec<u8>> = c.0.iter().map(|x| x.to_bytes()).collect();
                d.extend(c.1.values().map(|x| x.to_bytes()));
                Some((a.iter().map(|x| x.to_bytes()).collect(), d))
            },
        }
    };
}
fn vias() -> Vec<Via> {
    vec![
        via!("amacs::Tag", amacs::Tag), via!("amacs::PublicKey", amacs::PublicKey), via!("amacs::SecretKey", amacs::SecretKey),
        via!("amacs::Keypair", amacs::Keypair), via!("pedersen::Commitment", pedersen::Commitment),
        via!("elgamal::PublicKey", elgamal::PublicKey), via!("elgamal::SecretKey", elgamal::SecretKey),
        via!("elgamal::Keypair", elgamal::Keypair), via!("SystemParameters", SystemParameters), via!("Credential", Credential),
        via!("CredentialRequest", CredentialRequest), via!("CredentialIssuance", CredentialIssuance),
        via!("CredentialPresentation", CredentialPresentation), via!("VerifiedCredential", VerifiedCredential),
        via!("Issuer", Issuer), via!("User", User), via!("PhoneNumber", PhoneNumber), via!("CommittedPhoneNumber", CommittedPhoneNumber),
        via!("RosterEntryCommitment", RosterEntryCommitment), via!("SignalCredentialPresentation", SignalCredentialPresentation),
        via!("VerifiedSignalCredential", VerifiedSignalCredential), via!("SignalIssuer", SignalIssuer), via!("SignalUser", SignalUser),
    ]
}
fn binary(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u64).to_le_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
fn text(c: &mut Case, b: &[u8]) -> String {
    let sep = *c.r.pick(&[",", ", ", " ,\n"]);
    format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep))
}
/// Text that is not a list of bytes.
fn wrong(c: &mut Case, b: &[u8]) -> String {
    let mut v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    let k = c.r.below(v.len().max(1) + 1).min(v.len());
    match c.r.below(7) {
        0 => v.insert(k, "256".into()),
        1 => v.insert(k, "-1".into()),
        2 => v.insert(k, "null".into()),
        3 => v.insert(k, "\"1\"".into()),
        4 => v.insert(k, "[1]".into()),
        5 => return format!("[{}", v.join(",")),
        _ => return ["null", "{}", "7", "true", "1.5"][c.r.below(5)].to_string(),
    }
    format!("[{}]", v.join(","))
}

pub fn c25(h: &mut H) {
    std::io::set_print(Some(Box::new(std::io::sink())));
    h.each("values", 30, 4000, 0.4, |c| {
        for (t, v) in types().iter().zip(vias()) {
            assert_eq!(t.name, v.name);
            let n = length(c, t);
            let f = (t.fmt)(n).unwrap();
            let b = fill(c, &f);
            c.note(format!("{} {}", t.name, hex(&b)));
            let say = |how: &str| format!("{} {} through {}", t.name, hex(&b), how);
            let w = match c.run(&say("the formats"), || (v.write)(&b)) {
                Some(Some(w)) => w,
                Some(None) => {
                    c.ck(false, || say("from_bytes is refused"));
                    continue;
                }
                None => continue,
            };
            c.ck(w.0 == binary(&b), || format!("{} {} is written as {}", t.name, hex(&b), hex(&w.0)));
            c.ck(w.1 == format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")), || format!("{} {} is written as {}", t.name, hex(&b), w.1));
            let want = Some(b.clone());
            let (b2, j2) = (w.0.clone(), w.1.clone());
            for (how, r) in vec![
                ("bincode", c.run(&say("bincode"), || (v.bin)(&b2))),
                ("bincode from a reader", c.run(&say("bincode"), || (v.bin_reader)(&b2))),
                ("JSON", c.run(&say("JSON"), || (v.json)(&j2))),
                ("JSON from a reader", c.run(&say("JSON"), || (v.json_reader)(j2.as_bytes()))),
                ("a JSON value", c.run(&say("JSON"), || (v.json_value)(w.2.clone()))),
                ("a format which only knows bytes", c.run(&say("bytes"), || (v.blind)(&b))),
            ] {
                c.ck(r.as_ref() == Some(&want), || format!("{} {} through {} is {:?}", t.name, hex(&b), how, r.map(|x| x.map(|y| hex(&y)))));
            }
            if let Some(r) = c.run(&say("collections"), || (v.several)(&b)) {
                c.ck(r == Some((vec![b.clone(); 3], vec![b.clone(); 2])), || say("collections is lost"));
            }
        }
    });
    h.each("forms", 60, 20000, 1.0, |c| {
        for (t, v) in types().iter().zip(vias()) {
            let n = length(c, t);
            let f = (t.fmt)(n).unwrap();
            let mut b = fill(c, &f);
            spoil(c, &f, &mut b);
            let good = (t.fmt)(b.len()).map_or(false, |f| valid(&f, &b));
            let want = if good { Some(b.clone()) } else { None };
            let form = *c.r.pick(&FORMS);
            c.note(format!("{:?} {} {}", form, t.name, hex(&b)));
            if let Some(r) = c.run(&format!("{} {} as {:?}", t.name, hex(&b), form), || (v.form)(form, &b)) {
                let want = if form.whole() || form == Form::Strings && b.is_empty() { want.clone() } else { None };
                c.ck(r == want, || format!("{} {} as {:?} is {:?}", t.name, hex(&b), form, r.as_ref().map(|x| hex(x))));
            }
            let j = text(c, &b);
            if let Some(r) = c.run(&format!("{} of {}", t.name, j), || (v.json)(&j)) {
                c.ck(r == want, || format!("{} of {} is {:?}", t.name, j, r.as_ref().map(|x| hex(x))));
            }
            let j = wrong(c, &b);
            if let Some(r) = c.run(&format!("{} of {}", t.name, j), || (v.json)(&j)) {
                c.ck(r == None, || format!("{} of {} is {:?}", t.name, j, r.as_ref().map(|x| hex(x))));
            }
            let mut w = binary(&b);
            if let Some(r) = c.run(&format!("{} of {}", t.name, hex(&w)), || (v.bin)(&w)) {
                c.ck(r == want, || format!("{} of bincode {} is {:?}", t.name, hex(&w), r.as_ref().map(|x| hex(x))));
            }
            w.pop();
            if let Some(r) = c.run(&format!("{} of {}", t.name, hex(&w)), || (v.bin)(&w)) {
                c.ck(r == None, || format!("{} of bincode {} is {:?}", t.name, hex(&w), r.as_ref().map(|x| hex(x))));
            }
        }
    });
    std::io::set_print(None);
}
