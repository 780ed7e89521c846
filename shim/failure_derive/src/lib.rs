//! `#[derive(Fail)]` with `#[fail(display = "...", args...)]`.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn display_args(attrs: &[syn::Attribute]) -> Option<proc_macro2::TokenStream> {
    for a in attrs {
        if a.path().is_ident("fail") {
            if let syn::Meta::List(l) = &a.meta {
                let toks: Vec<_> = l.tokens.clone().into_iter().collect();
                if toks.first().map(|t| t.to_string()) == Some("display".into()) {
                    return Some(toks.into_iter().skip(2).collect());
                }
            }
        }
    }
    None
}

#[proc_macro_derive(Fail, attributes(fail, cause))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let arm = |path: proc_macro2::TokenStream, f: &Fields, attrs: &[syn::Attribute]| {
        let (pat, _n) = match f {
            Fields::Named(n) => {
                let ids: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                (quote!({ #(#ids),* }), 0)
            }
            Fields::Unnamed(u) => {
                let ids: Vec<_> = (0..u.unnamed.len())
                    .map(|i| syn::Ident::new(&format!("_{}", i), proc_macro2::Span::call_site()))
                    .collect();
                (quote!(( #(#ids),* )), 0)
            }
            Fields::Unit => (quote!(), 0),
        };
        match display_args(attrs) {
            Some(a) => quote!(#path #pat => write!(f, #a),),
            None => quote!(#path #pat => Ok(()),),
        }
    };
    let arms: Vec<_> = match &input.data {
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let id = &v.ident;
                arm(quote!(#name::#id), &v.fields, &v.attrs)
            })
            .collect(),
        Data::Struct(s) => vec![arm(quote!(#name), &s.fields, &input.attrs)],
        _ => vec![],
    };
    quote! {
        #[allow(unused_variables)]
        impl #ig ::std::fmt::Display for #name #tg #wc {
            fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
                match self { #(#arms)* }
            }
        }
        impl #ig ::failure::Fail for #name #tg #wc {}
    }
    .into()
}
