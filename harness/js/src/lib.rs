//! Values of JavaScript, as their JSON: read and written the way wasm-bindgen does, with serde_json.
pub use wasm_bindgen_macro::wasm_bindgen;
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub serde_json::Value);
impl JsValue {
    pub fn from_serde<T: serde::ser::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let s = serde_json::to_string(t)?;
        Ok(JsValue(serde_json::from_str(&s)?))
    }
    pub fn into_serde<T>(&self) -> serde_json::Result<T>
    where
        T: for<'a> serde::de::Deserialize<'a>,
    {
        serde_json::from_str(&serde_json::to_string(&self.0)?)
    }
    pub fn null() -> JsValue {
        JsValue(serde_json::Value::Null)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(b.into())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(n.into())
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue(s.into())
    }
}
macro_rules! from {
    ($($t:ty)*) => { $(impl From<$t> for JsValue {
        fn from(n: $t) -> JsValue {
            JsValue(n.into())
        }
    })* }
}
from!(i8 u8 i16 u16 i32 u32 f32 f64 bool String);
impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> JsValue {
        JsValue::from_str(s)
    }
}
pub mod prelude {
    pub use crate::{wasm_bindgen, JsValue};
}
