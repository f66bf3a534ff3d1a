use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, LitStr, Variant};

fn words(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let ch: Vec<char> = s.chars().collect();
    let mut cur = String::new();
    for (i, c) in ch.iter().enumerate() {
        if *c == '_' || *c == '-' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            continue;
        }
        if c.is_uppercase() && !cur.is_empty() {
            let prev = ch[i - 1];
            let next_lower = ch.get(i + 1).is_some_and(|n| n.is_lowercase());
            if prev.is_lowercase() || prev.is_ascii_digit() || (prev.is_uppercase() && next_lower) {
                out.push(std::mem::take(&mut cur));
            }
        }
        cur.push(*c);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn case(s: &str, style: Option<&str>) -> String {
    let w = words(s);
    let low: Vec<String> = w.iter().map(|x| x.to_lowercase()).collect();
    let cap = |x: &String| {
        let mut c = x.chars();
        c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
    };
    match style {
        None => s.to_string(),
        Some("snake_case") => low.join("_"),
        Some("kebab-case") | Some("kebab_case") => low.join("-"),
        Some("lowercase") => s.to_lowercase(),
        Some("UPPERCASE") => s.to_uppercase(),
        Some("SCREAMING_SNAKE_CASE") | Some("shouty_snake_case") => low.join("_").to_uppercase(),
        Some("SCREAMING-KEBAB-CASE") => low.join("-").to_uppercase(),
        Some("PascalCase") | Some("camel_case") => low.iter().map(cap).collect(),
        Some("camelCase") => low.iter().enumerate().map(|(i, x)| if i == 0 { x.clone() } else { cap(x) }).collect(),
        Some("title_case") => low.iter().map(cap).collect::<Vec<_>>().join(" "),
        Some(o) => panic!("strum shim: unknown case {o}"),
    }
}
#[derive(Default)]
struct Attrs {
    serialize_all: Option<String>,
    serialize: Vec<String>,
    to_string: Option<String>,
    disabled: bool,
    ascii_ci: bool,
    default: bool,
}
fn attrs(a: &[Attribute]) -> Attrs {
    let mut out = Attrs::default();
    for a in a {
        if !a.path().is_ident("strum") {
            continue;
        }
        a.parse_nested_meta(|m| {
            if m.path.is_ident("serialize_all") {
                out.serialize_all = Some(m.value()?.parse::<LitStr>()?.value());
            } else if m.path.is_ident("serialize") {
                out.serialize.push(m.value()?.parse::<LitStr>()?.value());
            } else if m.path.is_ident("to_string") {
                out.to_string = Some(m.value()?.parse::<LitStr>()?.value());
            } else if m.path.is_ident("disabled") {
                out.disabled = true;
            } else if m.path.is_ident("ascii_case_insensitive") {
                out.ascii_ci = true;
                if m.input.peek(syn::Token![=]) {
                    let _: syn::Lit = m.value()?.parse()?;
                }
            } else if m.path.is_ident("default") {
                out.default = true;
            } else if m.input.peek(syn::Token![=]) {
                let _: syn::Lit = m.value()?.parse()?;
            }
            Ok(())
        })
        .unwrap();
    }
    out
}
fn name(v: &Variant, all: &Option<String>) -> String {
    let a = attrs(&v.attrs);
    if let Some(t) = a.to_string {
        return t;
    }
    // the longest `serialize` wins, as upstream
    a.serialize.into_iter().max_by_key(|s| s.len()).unwrap_or_else(|| case(&v.ident.to_string(), all.as_deref()))
}
fn pat(v: &Variant) -> proc_macro2::TokenStream {
    let id = &v.ident;
    match v.fields {
        Fields::Unit => quote!(Self::#id),
        Fields::Unnamed(_) => quote!(Self::#id(..)),
        Fields::Named(_) => quote!(Self::#id { .. }),
    }
}
fn ctor(v: &Variant) -> proc_macro2::TokenStream {
    let id = &v.ident;
    match &v.fields {
        Fields::Unit => quote!(Self::#id),
        Fields::Unnamed(f) => {
            let d = f.unnamed.iter().map(|_| quote!(Default::default()));
            quote!(Self::#id(#(#d),*))
        }
        Fields::Named(f) => {
            let d = f.named.iter().map(|f| {
                let i = &f.ident;
                quote!(#i: Default::default())
            });
            quote!(Self::#id { #(#d),* })
        }
    }
}
fn parts(input: &DeriveInput) -> (Vec<Variant>, Option<String>, Attrs) {
    let Data::Enum(e) = &input.data else { panic!("strum works on enums") };
    let a = attrs(&input.attrs);
    (e.variants.iter().cloned().collect(), a.serialize_all.clone(), a)
}
#[proc_macro_derive(AsRefStr, attributes(strum))]
pub fn as_ref_str(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (vs, all, _) = parts(&d);
    let arms = vs.iter().map(|v| {
        let p = pat(v);
        let n = name(v, &all);
        quote!(#p => #n)
    });
    let (ig, tg, wc) = d.generics.split_for_impl();
    let id = &d.ident;
    quote!(impl #ig ::core::convert::AsRef<str> for #id #tg #wc { fn as_ref(&self) -> &str { match self { #(#arms),* } } }).into()
}
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (vs, all, _) = parts(&d);
    let arms: Vec<_> = vs.iter().map(|v| {
        let p = v.ident.clone();
        let n = name(v, &all);
        let id = &d.ident;
        match v.fields {
            Fields::Unit => quote!(#id::#p => #n),
            Fields::Unnamed(_) => quote!(#id::#p(..) => #n),
            Fields::Named(_) => quote!(#id::#p{..} => #n),
        }
    }).collect();
    let id = &d.ident;
    quote!(
        impl From<#id> for &'static str { fn from(x: #id) -> Self { match x { #(#arms),* } } }
        impl From<&#id> for &'static str { fn from(x: &#id) -> Self { match x { #(#arms),* } } }
    ).into()
}
#[proc_macro_derive(Display, attributes(strum))]
pub fn display(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (vs, all, _) = parts(&d);
    let arms = vs.iter().map(|v| {
        let p = pat(v);
        let n = name(v, &all);
        quote!(#p => ::core::fmt::Display::fmt(#n, f))
    });
    let (ig, tg, wc) = d.generics.split_for_impl();
    let id = &d.ident;
    quote!(impl #ig ::core::fmt::Display for #id #tg #wc { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::result::Result<(), ::core::fmt::Error> { match self { #(#arms),* } } }).into()
}
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (vs, all, top) = parts(&d);
    let mut arms = vec![];
    for v in &vs {
        let a = attrs(&v.attrs);
        if a.disabled || a.default {
            continue;
        }
        let c = ctor(v);
        let mut names = a.serialize.clone();
        names.extend(a.to_string.clone());
        if names.is_empty() {
            names.push(name(v, &all));
        }
        for n in names {
            if a.ascii_ci || top.ascii_ci {
                arms.push(quote!(s if s.eq_ignore_ascii_case(#n) => #c));
            } else {
                arms.push(quote!(#n => #c));
            }
        }
    }
    let (ig, tg, wc) = d.generics.split_for_impl();
    let id = &d.ident;
    quote!(
        impl #ig ::core::str::FromStr for #id #tg #wc {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::core::result::Result<Self, ::strum::ParseError> {
                ::core::result::Result::Ok(match s { #(#arms,)* _ => return ::core::result::Result::Err(::strum::ParseError::VariantNotFound) })
            }
        }
        impl #ig ::core::convert::TryFrom<&str> for #id #tg #wc {
            type Error = ::strum::ParseError;
            fn try_from(s: &str) -> ::core::result::Result<Self, ::strum::ParseError> { ::core::str::FromStr::from_str(s) }
        }
    ).into()
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (vs, _, _) = parts(&d);
    let id = &d.ident;
    let cs: Vec<_> = vs.iter().filter(|v| !attrs(&v.attrs).disabled).map(|v| { let t = ctor(v).to_string().replacen("Self", &id.to_string(), 1); t.parse::<proc_macro2::TokenStream>().unwrap() }).collect();
    quote!(impl ::strum::IntoEnumIterator for #id { type Iterator = ::std::vec::IntoIter<#id>; fn iter() -> Self::Iterator { ::std::vec![#(#cs),*].into_iter() } }).into()
}
#[proc_macro_derive(EnumCount, attributes(strum))]
pub fn enum_count(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (vs, _, _) = parts(&d);
    let id = &d.ident;
    let n = vs.len();
    quote!(impl ::strum::EnumCount for #id { const COUNT: usize = #n; }).into()
}
fn names_impl(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (vs, all, _) = parts(&d);
    let id = &d.ident;
    let ns = vs.iter().map(|v| name(v, &all));
    quote!(impl ::strum::VariantNames for #id { const VARIANTS: &'static [&'static str] = &[#(#ns),*]; }).into()
}
#[proc_macro_derive(VariantNames, attributes(strum))]
pub fn variant_names(i: TokenStream) -> TokenStream {
    names_impl(i)
}
#[proc_macro_derive(EnumVariantNames, attributes(strum))]
pub fn enum_variant_names(i: TokenStream) -> TokenStream {
    names_impl(i)
}
