//! Rewrites `async fn` in traits and impls into functions returning boxed futures.
use proc_macro::TokenStream;
use proc_macro2::Span;
use quote::quote;
use syn::{
    parse::{Parse, ParseStream},
    parse_quote,
    visit_mut::{self, VisitMut},
    Block, FnArg, GenericParam, ItemImpl, ItemTrait, Lifetime, ReturnType, Signature, Type,
    TypeReference,
};

enum Item {
    Trait(ItemTrait),
    Impl(ItemImpl),
}
impl Parse for Item {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let fork = input.fork();
        if fork.parse::<ItemImpl>().is_ok() {
            return Ok(Item::Impl(input.parse()?));
        }
        Ok(Item::Trait(input.parse()?))
    }
}

struct Elided {
    count: usize,
    names: Vec<Lifetime>,
}
impl Elided {
    fn next(&mut self) -> Lifetime {
        let l = Lifetime::new(&format!("'life{}", self.count), Span::call_site());
        self.count += 1;
        self.names.push(l.clone());
        l
    }
}
impl VisitMut for Elided {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.is_none() {
            r.lifetime = Some(self.next());
        }
        visit_mut::visit_type_reference_mut(self, r);
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident == "_" {
            *l = self.next();
        }
    }
    fn visit_type_bare_fn_mut(&mut self, _: &mut syn::TypeBareFn) {}
    fn visit_parenthesized_generic_arguments_mut(&mut self, _: &mut syn::ParenthesizedGenericArguments) {}
}

fn rewrite(sig: &mut Signature, body: Option<&mut Block>, send: bool, in_trait: bool) {
    sig.asyncness = None;
    let ret: Type = match &sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    let declared: Vec<Lifetime> = sig
        .generics
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Lifetime(l) => Some(l.lifetime.clone()),
            _ => None,
        })
        .collect();
    let type_params: Vec<_> = sig
        .generics
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.clone()),
            _ => None,
        })
        .collect();
    let mut elided = Elided { count: 0, names: vec![] };
    let mut by_ref = false;
    let mut has_self = false;
    let mut mutable_self = false;
    for arg in sig.inputs.iter_mut() {
        match arg {
            FnArg::Receiver(r) => {
                has_self = true;
                if let Some((_, lt)) = &mut r.reference {
                    by_ref = true;
                    mutable_self = r.mutability.is_some();
                    if lt.is_none() {
                        let l = elided.next();
                        *lt = Some(l);
                        // keep the explicit type in step with the shorthand
                        let lt = lt.clone();
                        let m = r.mutability;
                        *r.ty = parse_quote!(& #lt #m Self);
                    }
                } else {
                    elided.visit_type_mut(&mut r.ty);
                }
            }
            FnArg::Typed(t) => elided.visit_type_mut(&mut t.ty),
        }
    }
    for l in elided.names.iter() {
        sig.generics.params.insert(0, parse_quote!(#l));
    }
    sig.generics.params.insert(0, parse_quote!('async_trait));
    let wc = sig.generics.make_where_clause();
    for l in elided.names.iter().chain(&declared) {
        wc.predicates.push(parse_quote!(#l: 'async_trait));
    }
    for t in &type_params {
        wc.predicates.push(parse_quote!(#t: 'async_trait));
    }
    if has_self {
        if in_trait && body.is_some() && send {
            if by_ref && !mutable_self {
                wc.predicates.push(parse_quote!(Self: ::core::marker::Sync));
            } else {
                wc.predicates.push(parse_quote!(Self: ::core::marker::Send));
            }
        }
        wc.predicates.push(parse_quote!(Self: 'async_trait));
    }
    let marker = if send { quote!(+ ::core::marker::Send) } else { quote!() };
    sig.output = parse_quote!(
        -> ::core::pin::Pin<::std::boxed::Box<
            dyn ::core::future::Future<Output = #ret> #marker + 'async_trait>>
    );
    if let Some(body) = body {
        let inner = body.clone();
        *body = parse_quote!({
            ::std::boxed::Box::pin(async move {
                let __ret: #ret = #inner;
                #[allow(unreachable_code)]
                __ret
            })
        });
    }
}

#[proc_macro_attribute]
pub fn async_trait(args: TokenStream, input: TokenStream) -> TokenStream {
    let send = !args.to_string().contains("Send");
    match syn::parse_macro_input!(input as Item) {
        Item::Trait(mut t) => {
            for i in &mut t.items {
                if let syn::TraitItem::Fn(f) = i {
                    if f.sig.asyncness.is_some() {
                        rewrite(&mut f.sig, f.default.as_mut(), send, true);
                        f.attrs.push(parse_quote!(#[allow(clippy::all, unused_variables, unreachable_code, unused_mut)]));
                    }
                }
            }
            quote!(#t).into()
        }
        Item::Impl(mut t) => {
            for i in &mut t.items {
                if let syn::ImplItem::Fn(f) = i {
                    if f.sig.asyncness.is_some() {
                        rewrite(&mut f.sig, Some(&mut f.block), send, false);
                        f.attrs.push(parse_quote!(#[allow(clippy::all, unused_variables, unreachable_code, unused_mut)]));
                    }
                }
            }
            quote!(#t).into()
        }
    }
}
