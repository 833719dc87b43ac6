extern crate proc_macro;
/// Leaves the function as it is.
#[proc_macro_attribute]
pub fn wasm_bindgen(_: proc_macro::TokenStream, f: proc_macro::TokenStream) -> proc_macro::TokenStream {
    f
}
