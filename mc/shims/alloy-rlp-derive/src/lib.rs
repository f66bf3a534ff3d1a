use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn krate() -> proc_macro2::TokenStream {
    // `alloy::rlp` users may not depend on `alloy_rlp` directly; every shadow crate does.
    quote!(::alloy_rlp)
}

fn has(attrs: &[syn::Attribute], name: &str) -> bool {
    let mut found = false;
    for a in attrs {
        if a.path().is_ident("rlp") {
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident(name) {
                    found = true;
                }
                Ok(())
            });
        }
    }
    found
}

fn members(data: &Data) -> Vec<(syn::Member, syn::Type, bool, bool)> {
    let Data::Struct(s) = data else { panic!("only structs are supported") };
    let fields: Vec<_> = match &s.fields {
        Fields::Named(f) => f.named.iter().collect(),
        Fields::Unnamed(f) => f.unnamed.iter().collect(),
        Fields::Unit => vec![],
    };
    fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let m = match &f.ident {
                Some(id) => syn::Member::Named(id.clone()),
                None => syn::Member::Unnamed(i.into()),
            };
            (m, f.ty.clone(), has(&f.attrs, "skip"), has(&f.attrs, "default"))
        })
        .collect()
}

#[proc_macro_derive(RlpEncodable, attributes(rlp))]
pub fn encodable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let k = krate();
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let m: Vec<_> = members(&input.data).into_iter().filter(|m| !m.2).map(|m| m.0).collect();
    quote! {
        const _: () = {
            impl #ig #name #tg #wc {
                fn __rlp_payload_length(&self) -> usize { 0usize #( + #k::Encodable::length(&self.#m) )* }
            }
            impl #ig #k::Encodable for #name #tg #wc {
                fn length(&self) -> usize {
                    let p = self.__rlp_payload_length();
                    p + #k::length_of_length(p)
                }
                fn encode(&self, out: &mut dyn #k::BufMut) {
                    #k::Header { list: true, payload_length: self.__rlp_payload_length() }.encode(out);
                    #( #k::Encodable::encode(&self.#m, out); )*
                }
            }
        };
    }
    .into()
}

#[proc_macro_derive(RlpDecodable, attributes(rlp))]
pub fn decodable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let k = krate();
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let inits = members(&input.data).into_iter().map(|(m, _, skip, default)| {
        if skip || default {
            quote!(#m: ::core::default::Default::default())
        } else {
            quote!(#m: #k::Decodable::decode(b)?)
        }
    });
    quote! {
        const _: () = {
            impl #ig #k::Decodable for #name #tg #wc {
                fn decode(b: &mut &[u8]) -> #k::Result<Self> {
                    let #k::Header { list, payload_length } = #k::Header::decode(b)?;
                    if !list { return Err(#k::Error::UnexpectedString); }
                    let started_len = b.len();
                    if started_len < payload_length { return Err(#k::Error::InputTooShort); }
                    let this = Self { #( #inits, )* };
                    let consumed = started_len - b.len();
                    if consumed != payload_length {
                        return Err(#k::Error::ListLengthMismatch { expected: payload_length, got: consumed });
                    }
                    Ok(this)
                }
            }
        };
    }
    .into()
}

#[proc_macro_derive(RlpEncodableWrapper, attributes(rlp))]
pub fn encodable_wrapper(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let k = krate();
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let m = members(&input.data);
    assert_eq!(m.len(), 1, "wrapper types must have exactly one field");
    let m = &m[0].0;
    quote! {
        const _: () = {
            impl #ig #k::Encodable for #name #tg #wc {
                fn length(&self) -> usize { #k::Encodable::length(&self.#m) }
                fn encode(&self, out: &mut dyn #k::BufMut) { #k::Encodable::encode(&self.#m, out) }
            }
        };
    }
    .into()
}

#[proc_macro_derive(RlpDecodableWrapper, attributes(rlp))]
pub fn decodable_wrapper(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let k = krate();
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let m = members(&input.data);
    assert_eq!(m.len(), 1, "wrapper types must have exactly one field");
    let m = &m[0].0;
    quote! {
        const _: () = {
            impl #ig #k::Decodable for #name #tg #wc {
                fn decode(buf: &mut &[u8]) -> #k::Result<Self> {
                    Ok(Self { #m: #k::Decodable::decode(buf)? })
                }
            }
        };
    }
    .into()
}

#[proc_macro_derive(RlpMaxEncodedLen, attributes(rlp))]
pub fn max_encoded_len(_input: TokenStream) -> TokenStream {
    TokenStream::new()
}
