//! `#[derive(TreeHash)]` with the behaviours of `tree_hash_derive` 0.10.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};

fn attr(attrs: &[syn::Attribute], key: &str) -> Option<String> {
    let mut out = None;
    for a in attrs.iter().filter(|a| a.path().is_ident("tree_hash")) {
        a.parse_nested_meta(|m| {
            let val = match m.value() {
                Ok(v) => v.parse::<syn::LitStr>()?.value(),
                Err(_) => String::new(),
            };
            if m.path.is_ident(key) {
                out = Some(val);
            }
            Ok(())
        })
        .unwrap();
    }
    out
}

#[proc_macro_derive(TreeHash, attributes(tree_hash))]
pub fn tree_hash(input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as DeriveInput);
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    match &item.data {
        Data::Struct(s) => {
            let ms: Vec<syn::Member> = s
                .fields
                .iter()
                .enumerate()
                .filter(|(_, f)| attr(&f.attrs, "skip_hashing").is_none())
                .map(|(i, f)| match &f.ident {
                    Some(id) => syn::Member::Named(id.clone()),
                    None => syn::Member::Unnamed(i.into()),
                })
                .collect();
            let n = ms.len();
            quote! {
                impl #ig ::tree_hash::TreeHash for #name #tg #wc {
                    fn tree_hash_type() -> ::tree_hash::TreeHashType { ::tree_hash::TreeHashType::Container }
                    fn tree_hash_packed_encoding(&self) -> ::tree_hash::PackedEncoding { unreachable!("Struct should never be packed.") }
                    fn tree_hash_packing_factor() -> usize { unreachable!("Struct should never be packed.") }
                    fn tree_hash_root(&self) -> ::tree_hash::Hash256 {
                        let mut hasher = ::tree_hash::MerkleHasher::with_leaves(#n);
                        #( hasher.write(::tree_hash::TreeHash::tree_hash_root(&self.#ms).as_slice()).expect("tree hash derive should not apply too many leaves"); )*
                        hasher.finish().expect("tree hash derive should not have a remaining buffer")
                    }
                }
            }
            .into()
        }
        Data::Enum(e) => {
            assert_eq!(attr(&item.attrs, "enum_behaviour").as_deref(), Some("transparent"));
            let names: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            quote! {
                impl #ig ::tree_hash::TreeHash for #name #tg #wc {
                    fn tree_hash_type() -> ::tree_hash::TreeHashType { ::tree_hash::TreeHashType::Container }
                    fn tree_hash_packed_encoding(&self) -> ::tree_hash::PackedEncoding { unreachable!() }
                    fn tree_hash_packing_factor() -> usize { unreachable!() }
                    fn tree_hash_root(&self) -> ::tree_hash::Hash256 {
                        match self { #( Self::#names(inner) => ::tree_hash::TreeHash::tree_hash_root(inner), )* }
                    }
                }
            }
            .into()
        }
        _ => panic!("unsupported"),
    }
}
