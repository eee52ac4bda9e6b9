//! `instrument` leaves the function as it is.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn instrument(_a: TokenStream, item: TokenStream) -> TokenStream {
    item
}
