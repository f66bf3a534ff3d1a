//! The subset of `#[superstruct]` used by the code under test.
use proc_macro::TokenStream;
use proc_macro2::{Ident, TokenStream as TS};
use quote::{format_ident, quote};
use syn::{parse::Parser, parse_macro_input, punctuated::Punctuated, Attribute, ItemStruct, Meta, Token};

type Metas = Punctuated<Meta, Token![,]>;

fn list(m: &Meta) -> Metas {
    m.require_list().unwrap().parse_args_with(Metas::parse_terminated).unwrap()
}

#[derive(Default)]
struct FieldOpts {
    only: Option<Vec<Ident>>,
    no_getter: bool,
    copy: bool,
    rename: Option<Ident>,
}

fn field_opts(attrs: &[Attribute]) -> FieldOpts {
    let mut o = FieldOpts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("superstruct")) {
        for m in list(&a.meta) {
            if m.path().is_ident("only") {
                o.only = Some(list(&m).iter().map(|m| m.path().get_ident().unwrap().clone()).collect());
            } else if m.path().is_ident("getter") || m.path().is_ident("partial_getter") {
                for g in list(&m) {
                    if g.path().is_ident("copy") {
                        o.copy = true;
                    } else if g.path().is_ident("no_mut") {
                    } else if g.path().is_ident("rename") {
                        let nv = g.require_name_value().unwrap();
                        if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                            o.rename = Some(format_ident!("{}", s.value()));
                        }
                    } else {
                        panic!("unsupported getter option");
                    }
                }
            } else if m.path().is_ident("no_getter") {
                o.no_getter = true;
            } else {
                panic!("unsupported superstruct field attribute");
            }
        }
    }
    o
}

fn snake(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                out.push('_');
            }
            out.extend(c.to_lowercase());
        } else {
            out.push(c);
        }
    }
    out
}

#[proc_macro_attribute]
pub fn superstruct(args: TokenStream, input: TokenStream) -> TokenStream {
    let args = Metas::parse_terminated.parse(args).unwrap();
    let item = parse_macro_input!(input as ItemStruct);
    let name = &item.ident;
    let vis = &item.vis;
    let attrs = &item.attrs;
    let mut variants: Vec<Ident> = vec![];
    let mut variant_attrs: Vec<TS> = vec![];
    let mut ref_attrs: Vec<TS> = vec![];
    for a in &args {
        if a.path().is_ident("variants") {
            variants = list(a).iter().map(|m| m.path().get_ident().unwrap().clone()).collect();
        } else if a.path().is_ident("variant_attributes") {
            variant_attrs = list(a).iter().map(|m| quote!(#[#m])).collect();
        } else if a.path().is_ident("ref_attributes") {
            ref_attrs = list(a).iter().map(|m| quote!(#[#m])).collect();
        } else if a.path().is_ident("ref_mut_attributes") || a.path().is_ident("partial_getter_error") || a.path().is_ident("cast_error") {
        } else {
            panic!("unsupported superstruct argument");
        }
    }
    let structs: Vec<Ident> = variants.iter().map(|v| format_ident!("{}{}", name, v)).collect();
    let mut out = TS::new();
    for (v, s) in variants.iter().zip(&structs) {
        let fields = item.fields.iter().filter(|f| field_opts(&f.attrs).only.is_none_or(|o| o.contains(v))).map(|f| {
            let mut f = f.clone();
            f.attrs.retain(|a| !a.path().is_ident("superstruct"));
            f
        });
        out.extend(quote! {
            #( #variant_attrs )*
            #vis struct #s { #( #fields, )* }
            impl From<#s> for #name { fn from(v: #s) -> Self { Self::#v(v) } }
        });
    }
    let ref_name = format_ident!("{}Ref", name);
    out.extend(quote! {
        #( #attrs )*
        #vis enum #name { #( #variants(#structs), )* }
        #( #ref_attrs )*
        #[allow(dead_code)]
        #vis enum #ref_name<'__superstruct> { #( #variants(&'__superstruct #structs), )* }
        impl<'__superstruct> Clone for #ref_name<'__superstruct> { fn clone(&self) -> Self { *self } }
        impl<'__superstruct> Copy for #ref_name<'__superstruct> {}
        #[allow(dead_code)]
        impl #name {
            #vis fn to_ref<'a>(&'a self) -> #ref_name<'a> {
                match self { #( Self::#variants(v) => #ref_name::#variants(v), )* }
            }
        }
    });
    let mut getters = TS::new();
    let mut ref_getters = TS::new();
    for f in &item.fields {
        let o = field_opts(&f.attrs);
        if o.no_getter {
            continue;
        }
        let id = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        let g = o.rename.clone().unwrap_or_else(|| id.clone());
        let gm = format_ident!("{}_mut", g);
        let (rty, rty_a, r) = if o.copy { (quote!(#ty), quote!(#ty), quote!()) } else { (quote!(&#ty), quote!(&'__superstruct #ty), quote!(&)) };
        match &o.only {
            None => {
                getters.extend(quote! {
                    #vis fn #g(&self) -> #rty { match self { #( Self::#variants(v) => #r v.#id, )* } }
                    #vis fn #gm(&mut self) -> &mut #ty { match self { #( Self::#variants(v) => &mut v.#id, )* } }
                });
                ref_getters.extend(quote! {
                    #vis fn #g(&self) -> #rty_a { match *self { #( Self::#variants(v) => #r v.#id, )* } }
                });
            }
            Some(only) => {
                let all = only.len() == variants.len();
                let miss = if all { quote!() } else { quote!(_ => Err(()),) };
                getters.extend(quote! {
                    #[allow(clippy::result_unit_err)]
                    #vis fn #g(&self) -> Result<#rty, ()> { match self { #( Self::#only(v) => Ok(#r v.#id), )* #miss } }
                    #[allow(clippy::result_unit_err)]
                    #vis fn #gm(&mut self) -> Result<&mut #ty, ()> { match self { #( Self::#only(v) => Ok(&mut v.#id), )* #miss } }
                });
                ref_getters.extend(quote! {
                    #[allow(clippy::result_unit_err)]
                    #vis fn #g(&self) -> Result<#rty_a, ()> { match *self { #( Self::#only(v) => Ok(#r v.#id), )* #miss } }
                });
            }
        }
    }
    for (v, s) in variants.iter().zip(&structs) {
        let a = format_ident!("as_{}", snake(&v.to_string()));
        let am = format_ident!("as_{}_mut", snake(&v.to_string()));
        getters.extend(quote! {
            #[allow(clippy::result_unit_err, unreachable_patterns)]
            #vis fn #a(&self) -> Result<&#s, ()> { match self { Self::#v(x) => Ok(x), _ => Err(()) } }
            #[allow(clippy::result_unit_err, unreachable_patterns)]
            #vis fn #am(&mut self) -> Result<&mut #s, ()> { match self { Self::#v(x) => Ok(x), _ => Err(()) } }
        });
    }
    out.extend(quote! {
        #[allow(dead_code)]
        impl #name { #getters }
        #[allow(dead_code)]
        impl<'__superstruct> #ref_name<'__superstruct> { #ref_getters }
    });
    out.into()
}
