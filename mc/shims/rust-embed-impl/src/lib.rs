use proc_macro::TokenStream;
use quote::quote;
use std::path::{Path, PathBuf};
fn walk(root: &Path, dir: &Path, out: &mut Vec<(String, String)>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(root, &p, out);
        } else {
            out.push((p.strip_prefix(root).unwrap().to_string_lossy().into_owned(), p.to_string_lossy().into_owned()));
        }
    }
}
/// The folder is resolved against VERIF_EMBED_ROOT (the real crate directory), falling back to
/// CARGO_MANIFEST_DIR: shadow manifests live outside the crate.
#[proc_macro_derive(RustEmbed, attributes(folder, prefix, include, exclude))]
pub fn rust_embed(i: TokenStream) -> TokenStream {
    let d = syn::parse_macro_input!(i as syn::DeriveInput);
    let mut folder = None;
    let mut prefix = String::new();
    for a in &d.attrs {
        let lit = |a: &syn::Attribute| match &a.meta {
            syn::Meta::NameValue(nv) => match &nv.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
                _ => panic!(),
            },
            _ => panic!(),
        };
        if a.path().is_ident("folder") {
            folder = Some(lit(a));
        } else if a.path().is_ident("prefix") {
            prefix = lit(a);
        }
    }
    let base = std::env::var("VERIF_EMBED_ROOT").or_else(|_| std::env::var("CARGO_MANIFEST_DIR")).unwrap();
    let root = PathBuf::from(base).join(folder.expect("folder"));
    let mut files = vec![];
    walk(&root, &root, &mut files);
    let arms = files.iter().map(|(rel, abs)| {
        let key = format!("{prefix}{rel}");
        quote!(#key => Some(include_bytes!(#abs) as &'static [u8]))
    });
    let names = files.iter().map(|(rel, _)| format!("{prefix}{rel}"));
    let id = &d.ident;
    quote!(
        impl #id {
            pub fn get(path: &str) -> Option<::rust_embed::EmbeddedFile> {
                let data: Option<&'static [u8]> = match path { #(#arms,)* _ => None };
                data.map(|d| ::rust_embed::EmbeddedFile { data: ::std::borrow::Cow::Borrowed(d) })
            }
            pub fn iter() -> impl Iterator<Item = ::std::borrow::Cow<'static, str>> {
                [#(#names),*].into_iter().map(::std::borrow::Cow::Borrowed)
            }
        }
        impl ::rust_embed::RustEmbed for #id {
            fn get(path: &str) -> Option<::rust_embed::EmbeddedFile> { #id::get(path) }
        }
    )
    .into()
}
