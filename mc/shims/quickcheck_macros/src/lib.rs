use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_attribute]
pub fn quickcheck(_a: TokenStream, i: TokenStream) -> TokenStream {
    let f = syn::parse_macro_input!(i as syn::ItemFn);
    let name = &f.sig.ident;
    let tys = f.sig.inputs.iter().map(|a| match a { syn::FnArg::Typed(t) => t.ty.clone(), _ => panic!() });
    let ret = &f.sig.output;
    quote!(#[test] fn #name() { #f ::quickcheck::quickcheck(#name as fn(#(#tys),*) #ret) }).into()
}
