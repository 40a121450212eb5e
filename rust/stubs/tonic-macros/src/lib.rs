//! Stand-in for `tonic::async_trait`: async functions in traits are native, so the attribute keeps its item as it is.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
