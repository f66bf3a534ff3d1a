use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_attribute]
pub fn test(args: TokenStream, item: TokenStream) -> TokenStream {
    let item: proc_macro2::TokenStream = item.into();
    let args: proc_macro2::TokenStream = args.into();
    if args.is_empty() {
        quote!(#[::core::prelude::v1::test] #item).into()
    } else {
        quote!(#[#args] #item).into()
    }
}
