//! `#[derive(Encode, Decode)]` with the behaviours of `ethereum_ssz_derive` 0.9.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields};

#[derive(Default)]
struct Opts {
    enum_behaviour: Option<String>,
    struct_behaviour: Option<String>,
    skip_ser: bool,
    skip_de: bool,
    with: Option<syn::Path>,
}

fn opts(attrs: &[Attribute]) -> Opts {
    let mut o = Opts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("ssz")) {
        a.parse_nested_meta(|m| {
            let name = m.path.get_ident().unwrap().to_string();
            match name.as_str() {
                "skip_serializing" => o.skip_ser = true,
                "skip_deserializing" => o.skip_de = true,
                "enum_behaviour" => o.enum_behaviour = Some(m.value()?.parse::<syn::LitStr>()?.value()),
                "struct_behaviour" => o.struct_behaviour = Some(m.value()?.parse::<syn::LitStr>()?.value()),
                "with" => o.with = Some(m.value()?.parse::<syn::LitStr>()?.parse()?),
                _ => panic!("unsupported ssz attribute {name}"),
            }
            Ok(())
        })
        .unwrap();
    }
    o
}

struct F {
    member: syn::Member,
    ty: syn::Type,
    o: Opts,
}
fn fields(f: &Fields) -> Vec<F> {
    f.iter()
        .enumerate()
        .map(|(i, f)| F {
            member: match &f.ident {
                Some(id) => syn::Member::Named(id.clone()),
                None => syn::Member::Unnamed(i.into()),
            },
            ty: f.ty.clone(),
            o: opts(&f.attrs),
        })
        .collect()
}

fn enc_fixed(f: &F) -> (TS, TS) {
    let ty = &f.ty;
    match &f.o.with {
        Some(p) => (quote!(#p::encode::is_ssz_fixed_len()), quote!(#p::encode::ssz_fixed_len())),
        None => (quote!(<#ty as ::ssz::Encode>::is_ssz_fixed_len()), quote!(<#ty as ::ssz::Encode>::ssz_fixed_len())),
    }
}
fn dec_fixed(f: &F) -> (TS, TS) {
    let ty = &f.ty;
    match &f.o.with {
        Some(p) => (quote!(#p::decode::is_ssz_fixed_len()), quote!(#p::decode::ssz_fixed_len())),
        None => (quote!(<#ty as ::ssz::Decode>::is_ssz_fixed_len()), quote!(<#ty as ::ssz::Decode>::ssz_fixed_len())),
    }
}

#[proc_macro_derive(Encode, attributes(ssz))]
pub fn encode(input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as DeriveInput);
    let o = opts(&item.attrs);
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let body = match &item.data {
        Data::Struct(s) => {
            let fs: Vec<F> = fields(&s.fields).into_iter().filter(|f| !f.o.skip_ser).collect();
            if o.struct_behaviour.as_deref() == Some("transparent") {
                assert_eq!(fs.len(), 1);
                let (m, ty) = (&fs[0].member, &fs[0].ty);
                quote! {
                    fn is_ssz_fixed_len() -> bool { <#ty as ::ssz::Encode>::is_ssz_fixed_len() }
                    fn ssz_fixed_len() -> usize { <#ty as ::ssz::Encode>::ssz_fixed_len() }
                    fn ssz_bytes_len(&self) -> usize { ::ssz::Encode::ssz_bytes_len(&self.#m) }
                    fn ssz_append(&self, buf: &mut Vec<u8>) { ::ssz::Encode::ssz_append(&self.#m, buf) }
                }
            } else {
                let (isf, fl): (Vec<_>, Vec<_>) = fs.iter().map(enc_fixed).unzip();
                let len = fs.iter().map(|f| {
                    let m = &f.member;
                    match &f.o.with {
                        Some(p) => quote!(#p::encode::ssz_bytes_len(&self.#m)),
                        None => quote!(::ssz::Encode::ssz_bytes_len(&self.#m)),
                    }
                });
                let app = fs.iter().map(|f| {
                    let m = &f.member;
                    match &f.o.with {
                        Some(p) => quote!(encoder.append_parameterized(#p::encode::is_ssz_fixed_len(), |buf| #p::encode::ssz_append(&self.#m, buf));),
                        None => quote!(encoder.append(&self.#m);),
                    }
                });
                quote! {
                    fn is_ssz_fixed_len() -> bool { #( #isf && )* true }
                    fn ssz_fixed_len() -> usize {
                        if <Self as ::ssz::Encode>::is_ssz_fixed_len() { 0usize #( + #fl )* } else { ::ssz::BYTES_PER_LENGTH_OFFSET }
                    }
                    fn ssz_bytes_len(&self) -> usize {
                        if <Self as ::ssz::Encode>::is_ssz_fixed_len() {
                            <Self as ::ssz::Encode>::ssz_fixed_len()
                        } else {
                            let mut len: usize = 0;
                            #( if #isf { len += #fl; } else { len += ::ssz::BYTES_PER_LENGTH_OFFSET + #len; } )*
                            len
                        }
                    }
                    fn ssz_append(&self, buf: &mut Vec<u8>) {
                        let offset = 0usize #( + #fl )*;
                        let mut encoder = ::ssz::SszEncoder::container(buf, offset);
                        #( #app )*
                        encoder.finalize();
                    }
                }
            }
        }
        Data::Enum(e) => {
            let names: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            let tys: Vec<_> = e.variants.iter().map(|v| v.fields.iter().next().map(|f| f.ty.clone())).collect();
            let behaviour = o.enum_behaviour.as_deref().expect("enum_behaviour");
            match behaviour {
                "transparent" => {
                    let tys: Vec<_> = tys.into_iter().map(|t| t.unwrap()).collect();
                    quote! {
                        fn is_ssz_fixed_len() -> bool {
                            assert!(#( ! <#tys as ::ssz::Encode>::is_ssz_fixed_len() && )* true, "not all enum variants are variably-sized");
                            false
                        }
                        fn ssz_bytes_len(&self) -> usize { match self { #( Self::#names(inner) => ::ssz::Encode::ssz_bytes_len(inner), )* } }
                        fn ssz_append(&self, buf: &mut Vec<u8>) { match self { #( Self::#names(inner) => ::ssz::Encode::ssz_append(inner, buf), )* } }
                    }
                }
                "union" => {
                    let sel = 0u8..names.len() as u8;
                    quote! {
                        fn is_ssz_fixed_len() -> bool { false }
                        fn ssz_bytes_len(&self) -> usize { 1 + match self { #( Self::#names(inner) => ::ssz::Encode::ssz_bytes_len(inner), )* } }
                        fn ssz_append(&self, buf: &mut Vec<u8>) { match self { #( Self::#names(inner) => { buf.push(#sel); ::ssz::Encode::ssz_append(inner, buf) } )* } }
                    }
                }
                "tag" => {
                    let sel = 0u8..names.len() as u8;
                    quote! {
                        fn is_ssz_fixed_len() -> bool { true }
                        fn ssz_fixed_len() -> usize { 1 }
                        fn ssz_bytes_len(&self) -> usize { 1 }
                        fn ssz_append(&self, buf: &mut Vec<u8>) { match self { #( Self::#names => buf.push(#sel), )* } }
                    }
                }
                b => panic!("unsupported enum_behaviour {b}"),
            }
        }
        _ => panic!("union types unsupported"),
    };
    quote! { impl #ig ::ssz::Encode for #name #tg #wc { #body } }.into()
}

#[proc_macro_derive(Decode, attributes(ssz))]
pub fn decode(input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as DeriveInput);
    let o = opts(&item.attrs);
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let body = match &item.data {
        Data::Struct(s) => {
            let all = fields(&s.fields);
            if o.struct_behaviour.as_deref() == Some("transparent") {
                let f: Vec<_> = all.iter().filter(|f| !f.o.skip_de).collect();
                assert_eq!(f.len(), 1);
                let ty = &f[0].ty;
                let inits = all.iter().map(|f| {
                    let m = &f.member;
                    let ty = &f.ty;
                    if f.o.skip_de { quote!(#m: Default::default()) } else { quote!(#m: <#ty as ::ssz::Decode>::from_ssz_bytes(bytes)?) }
                });
                quote! {
                    fn is_ssz_fixed_len() -> bool { <#ty as ::ssz::Decode>::is_ssz_fixed_len() }
                    fn ssz_fixed_len() -> usize { <#ty as ::ssz::Decode>::ssz_fixed_len() }
                    fn from_ssz_bytes(bytes: &[u8]) -> ::core::result::Result<Self, ::ssz::DecodeError> { Ok(Self { #( #inits, )* }) }
                }
            } else {
                let (isf, fl): (Vec<_>, Vec<_>) = all.iter().filter(|f| !f.o.skip_de).map(dec_fixed).unzip();
                let fixed_inits = all.iter().map(|f| {
                    let m = &f.member;
                    if f.o.skip_de {
                        return quote!(#m: Default::default());
                    }
                    let ty = &f.ty;
                    let (_, l) = dec_fixed(f);
                    let dec = match &f.o.with { Some(p) => quote!(#p::decode::from_ssz_bytes(slice)?), None => quote!(<#ty as ::ssz::Decode>::from_ssz_bytes(slice)?) };
                    quote!(#m: { start = end; end += #l; let slice = bytes.get(start..end).ok_or(::ssz::DecodeError::InvalidByteLength { len: bytes.len(), expected: end })?; #dec })
                });
                let var_inits = all.iter().map(|f| {
                    let m = &f.member;
                    if f.o.skip_de {
                        return quote!(#m: Default::default());
                    }
                    match &f.o.with { Some(p) => quote!(#m: decoder.decode_next_with(|slice| #p::decode::from_ssz_bytes(slice))?), None => quote!(#m: decoder.decode_next()?) }
                });
                quote! {
                    fn is_ssz_fixed_len() -> bool { #( #isf && )* true }
                    fn ssz_fixed_len() -> usize {
                        if <Self as ::ssz::Decode>::is_ssz_fixed_len() { 0usize #( + #fl )* } else { ::ssz::BYTES_PER_LENGTH_OFFSET }
                    }
                    #[allow(unused_assignments, unused_mut, unused_variables)]
                    fn from_ssz_bytes(bytes: &[u8]) -> ::core::result::Result<Self, ::ssz::DecodeError> {
                        if <Self as ::ssz::Decode>::is_ssz_fixed_len() {
                            if bytes.len() != <Self as ::ssz::Decode>::ssz_fixed_len() {
                                return Err(::ssz::DecodeError::InvalidByteLength { len: bytes.len(), expected: <Self as ::ssz::Decode>::ssz_fixed_len() });
                            }
                            let mut start: usize = 0;
                            let mut end = start;
                            Ok(Self { #( #fixed_inits, )* })
                        } else {
                            let mut builder = ::ssz::SszDecoderBuilder::new(bytes);
                            #( builder.register_type_parameterized(#isf, #fl)?; )*
                            let mut decoder = builder.build()?;
                            Ok(Self { #( #var_inits, )* })
                        }
                    }
                }
            }
        }
        Data::Enum(e) => {
            let names: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            let tys: Vec<_> = e.variants.iter().map(|v| v.fields.iter().next().map(|f| f.ty.clone())).collect();
            match o.enum_behaviour.as_deref().expect("enum_behaviour") {
                "union" => {
                    let tys: Vec<_> = tys.into_iter().map(|t| t.unwrap()).collect();
                    let sel = 0u8..names.len() as u8;
                    quote! {
                        fn is_ssz_fixed_len() -> bool { false }
                        fn from_ssz_bytes(bytes: &[u8]) -> ::core::result::Result<Self, ::ssz::DecodeError> {
                            let (selector, body) = ::ssz::split_union_bytes(bytes)?;
                            match selector.into() {
                                #( #sel => <#tys as ::ssz::Decode>::from_ssz_bytes(body).map(Self::#names), )*
                                other => Err(::ssz::DecodeError::UnionSelectorInvalid(other)),
                            }
                        }
                    }
                }
                "transparent" => {
                    let tys: Vec<_> = tys.into_iter().map(|t| t.unwrap()).collect();
                    quote! {
                        fn is_ssz_fixed_len() -> bool { false }
                        fn from_ssz_bytes(bytes: &[u8]) -> ::core::result::Result<Self, ::ssz::DecodeError> {
                            #( if let Ok(var) = <#tys as ::ssz::Decode>::from_ssz_bytes(bytes) { return Ok(Self::#names(var)); } )*
                            Err(::ssz::DecodeError::NoMatchingVariant)
                        }
                    }
                }
                "tag" => {
                    let sel = 0u8..names.len() as u8;
                    quote! {
                        fn is_ssz_fixed_len() -> bool { true }
                        fn ssz_fixed_len() -> usize { 1 }
                        fn from_ssz_bytes(bytes: &[u8]) -> ::core::result::Result<Self, ::ssz::DecodeError> {
                            let byte = bytes.first().copied().ok_or(::ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
                            match byte { #( #sel => Ok(Self::#names), )* other => Err(::ssz::DecodeError::UnionSelectorInvalid(other)) }
                        }
                    }
                }
                b => panic!("unsupported enum_behaviour {b}"),
            }
        }
        _ => panic!("union types unsupported"),
    };
    quote! { impl #ig ::ssz::Decode for #name #tg #wc { #body } }.into()
}
