use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, LitStr};

/// Supports `#[validate(custom(function = "path"))]` on named fields.
#[proc_macro_derive(Validate, attributes(validate))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let mut checks = vec![];
    if let Data::Struct(s) = &input.data {
        for f in &s.fields {
            let Some(id) = &f.ident else { continue };
            let label = id.to_string();
            for a in f.attrs.iter().filter(|a| a.path().is_ident("validate")) {
                a.parse_nested_meta(|m| {
                    if m.path.is_ident("custom") {
                        m.parse_nested_meta(|c| {
                            if c.path.is_ident("function") {
                                let v: LitStr = c.value()?.parse()?;
                                let p: syn::Path = v.parse()?;
                                checks.push(quote! {
                                    if let Err(e) = #p(&self.#id) { errors.add(#label, e); }
                                });
                                Ok(())
                            } else {
                                Err(c.error("unsupported validator argument"))
                            }
                        })
                    } else {
                        Err(m.error("unsupported validator"))
                    }
                })
                .unwrap();
            }
        }
    }
    quote! {
        impl #ig ::validator::Validate for #name #tg #wc {
            fn validate(&self) -> ::core::result::Result<(), ::validator::ValidationErrors> {
                let mut errors = ::validator::ValidationErrors::new();
                #(#checks)*
                if errors.is_empty() { Ok(()) } else { Err(errors) }
            }
        }
    }
    .into()
}
