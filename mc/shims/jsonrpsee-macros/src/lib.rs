//! `#[rpc(client, server, namespace = "..")]` for traits made of `#[method(name = "..")]` items.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, FnArg, ItemTrait, LitStr, Pat, ReturnType, TraitItem, Type};

fn method_name(attrs: &[syn::Attribute]) -> Option<String> {
    let a = attrs.iter().find(|a| a.path().is_ident("method"))?;
    let mut name = None;
    a.parse_nested_meta(|m| {
        if m.path.is_ident("name") {
            let v: LitStr = m.value()?.parse()?;
            name = Some(v.value());
        } else if m.input.peek(syn::Token![=]) {
            let _: syn::Expr = m.value()?.parse()?;
        }
        Ok(())
    })
    .unwrap();
    name
}

fn is_option(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Option"))
}

fn ok_type(t: &Type) -> proc_macro2::TokenStream {
    if let Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                let first = a.args.first();
                return quote!(#first);
            }
        }
    }
    quote!(#t)
}

#[proc_macro_attribute]
pub fn rpc(args: TokenStream, input: TokenStream) -> TokenStream {
    let (mut client, mut server, mut ns) = (false, false, String::new());
    let parser = syn::meta::parser(|m| {
        if m.path.is_ident("client") {
            client = true;
        } else if m.path.is_ident("server") {
            server = true;
        } else if m.path.is_ident("namespace") {
            let v: LitStr = m.value()?.parse()?;
            ns = v.value();
        } else if m.input.peek(syn::Token![=]) {
            let _: syn::Expr = m.value()?.parse()?;
        }
        Ok(())
    });
    parse_macro_input!(args with parser);
    let t = parse_macro_input!(input as ItemTrait);
    let vis = &t.vis;
    let server_name = format_ident!("{}Server", t.ident);
    let client_name = format_ident!("{}Client", t.ident);
    let (mut server_methods, mut client_methods, mut regs) = (vec![], vec![], vec![]);
    for item in &t.items {
        let TraitItem::Fn(f) = item else { continue };
        let docs: Vec<_> = f.attrs.iter().filter(|a| !a.path().is_ident("method")).collect();
        let sig = &f.sig;
        let ident = &sig.ident;
        let full = match method_name(&f.attrs) {
            Some(m) if ns.is_empty() => m,
            Some(m) => format!("{ns}_{m}"),
            None => continue,
        };
        let ret = match &sig.output {
            ReturnType::Type(_, t) => (**t).clone(),
            ReturnType::Default => syn::parse_quote!(()),
        };
        let ok = ok_type(&ret);
        let mut names = vec![];
        let mut typed = vec![];
        let mut parse = vec![];
        for a in &sig.inputs {
            if let FnArg::Typed(p) = a {
                let Pat::Ident(id) = &*p.pat else { panic!("unsupported pattern") };
                let (id, ty) = (&id.ident, &p.ty);
                let label = id.to_string();
                names.push(id.clone());
                typed.push(quote!(#id: #ty));
                parse.push(if is_option(ty) {
                    quote!(let #id: #ty = __seq.optional_next(#label)?;)
                } else {
                    quote!(let #id: #ty = __seq.next(#label)?;)
                });
            }
        }
        server_methods.push(quote!(#(#docs)* #sig;));
        regs.push(quote! {
            __module.register(#full, |__ctx: ::std::sync::Arc<Self>, __params| ::std::boxed::Box::pin(async move {
                #[allow(unused_mut, unused_variables)]
                let mut __seq = ::jsonrpsee::types::ParamsSeq::new(__params);
                #(#parse)*
                let __out = <Self as #server_name>::#ident(&*__ctx, #(#names),*).await?;
                ::jsonrpsee::types::to_json(&__out)
            }));
        });
        client_methods.push(quote! {
            #(#docs)*
            async fn #ident(&self, #(#typed),*) -> ::core::result::Result<#ok, ::jsonrpsee::core::client::Error> {
                let __params = ::jsonrpsee::core::params::array(vec![
                    #(::jsonrpsee::types::to_value_for_params(&#names)),*
                ])?;
                ::jsonrpsee::core::client::ClientT::request(self, #full, __params).await
            }
        });
    }
    let attrs = &t.attrs;
    let mut out = quote!();
    if server {
        out.extend(quote! {
            #(#attrs)*
            #[::jsonrpsee::core::async_trait]
            #vis trait #server_name: Sized + Send + Sync + 'static {
                #(#server_methods)*
                fn into_rpc(self) -> ::jsonrpsee::RpcModule<Self> {
                    let mut __module = ::jsonrpsee::RpcModule::new(self);
                    #(#regs)*
                    __module
                }
            }
        });
    }
    if client {
        out.extend(quote! {
            #(#attrs)*
            #[allow(dead_code)]
            #[::jsonrpsee::core::async_trait]
            #vis trait #client_name: ::jsonrpsee::core::client::ClientT {
                #(#client_methods)*
            }
            impl<__T: ::jsonrpsee::core::client::ClientT> #client_name for __T {}
        });
    }
    out.into()
}
