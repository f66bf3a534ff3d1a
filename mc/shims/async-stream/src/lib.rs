//! `stream!` over a channel: `yield` sends, `?` sends the error and ends the stream.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse::Parser, visit_mut::{self, VisitMut}, Block, Expr};

struct Scrub;
impl VisitMut for Scrub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) | Expr::Async(_) => {}
            Expr::Yield(y) => {
                let mut v: Expr = match y.expr.take() { Some(v) => *v, None => syn::parse_quote!(()) };
                self.visit_expr_mut(&mut v);
                *e = syn::parse_quote! {{ let __v = #v; if ::futures::SinkExt::send(&mut __tx, __v).await.is_err() { return; } }};
            }
            Expr::Try(t) => {
                let mut v = (*t.expr).clone();
                self.visit_expr_mut(&mut v);
                *e = syn::parse_quote! {
                    match #v {
                        ::core::result::Result::Ok(v) => v,
                        ::core::result::Result::Err(err) => {
                            let _ = ::futures::SinkExt::send(&mut __tx, ::core::result::Result::Err(err.into())).await;
                            return;
                        }
                    }
                };
            }
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

#[proc_macro]
pub fn stream(input: TokenStream) -> TokenStream {
    let mut stmts = match Block::parse_within.parse(input) { Ok(s) => s, Err(e) => return e.to_compile_error().into() };
    for s in &mut stmts { Scrub.visit_stmt_mut(s); }
    quote! {{
        let (mut __tx, __rx) = ::futures::channel::mpsc::channel(0);
        let __run = async move { #(#stmts)* };
        ::futures::StreamExt::filter_map(
            ::futures::stream::select(
                ::futures::StreamExt::map(__rx, ::core::option::Option::Some),
                ::futures::StreamExt::map(::futures::stream::once(__run), |_| ::core::option::Option::None),
            ),
            |v| async move { v },
        )
    }}.into()
}

#[proc_macro]
pub fn try_stream(input: TokenStream) -> TokenStream {
    struct Wrap;
    impl VisitMut for Wrap {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Closure(_) | Expr::Async(_) => {}
                Expr::Yield(y) => {
                    if let Some(v) = &mut y.expr {
                        let inner = (**v).clone();
                        **v = syn::parse_quote!(::core::result::Result::Ok(#inner));
                    }
                }
                e => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut stmts = match Block::parse_within.parse(input) { Ok(s) => s, Err(e) => return e.to_compile_error().into() };
    for s in &mut stmts { Wrap.visit_stmt_mut(s); }
    stream(quote!(#(#stmts)*).into())
}
