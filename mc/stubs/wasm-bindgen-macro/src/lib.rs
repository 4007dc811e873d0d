//! Stand-in: the attribute leaves the item as written.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
