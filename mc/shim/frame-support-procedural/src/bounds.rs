use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::*;
#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Clone, Debug, PartialEq, Eq, Default, Runtime }

pub fn derive(i: TokenStream, k: Kind) -> TokenStream {
    let mut d: DeriveInput = match parse2(i) { Ok(d) => d, Err(e) => return e.to_compile_error() };
    let k = if k == Kind::Runtime { for t in d.generics.type_params_mut() { t.bounds.push(parse_quote!(::core::fmt::Debug)); } Kind::Debug } else { k };
    let n = &d.ident;
    let (a, b, c) = d.generics.split_for_impl();
    let variants: Vec<(TokenStream, Fields, bool, String)> = match &d.data {
        Data::Struct(s) => vec![(quote!(#n), s.fields.clone(), true, n.to_string())],
        Data::Enum(e) => e.variants.iter().map(|v| { let i = &v.ident; (quote!(#n::#i), v.fields.clone(), v.attrs.iter().any(|a| a.path().is_ident("default")), i.to_string()) }).collect(),
        _ => vec![],
    };
    let pat = |path: &TokenStream, f: &Fields, pre: &str| -> (TokenStream, Vec<Ident>) {
        match f {
            Fields::Unit => (quote!(#path), vec![]),
            Fields::Unnamed(u) => { let v: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("{}{}", pre, i)).collect(); (quote!(#path(#(#v),*)), v) }
            Fields::Named(m) => {
                let names: Vec<_> = m.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                let v: Vec<_> = names.iter().map(|i| format_ident!("{}{}", pre, i)).collect();
                (quote!(#path { #(#names: #v),* }), v)
            }
        }
    };
    match k {
        Kind::Clone => {
            let arms = variants.iter().map(|(p, f, _, _)| {
                let (pt, v) = pat(p, f, "__a");
                let out = match f {
                    Fields::Unit => quote!(#p),
                    Fields::Unnamed(_) => quote!(#p(#(::core::clone::Clone::clone(#v)),*)),
                    Fields::Named(m) => { let names = m.named.iter().map(|f| f.ident.clone().unwrap()); quote!(#p { #(#names: ::core::clone::Clone::clone(#v)),* }) }
                };
                quote!(#pt => #out,)
            });
            let body = if variants.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms)* }) };
            quote!(const _: () = { impl #a ::core::clone::Clone for #n #b #c { fn clone(&self) -> Self { #body } } };)
        }
        Kind::Debug | Kind::Runtime => {
            let arms = variants.iter().map(|(p, f, _, name)| {
                let (pt, v) = pat(p, f, "__a");
                match f {
                    Fields::Unit => quote!(#pt => fmt.write_str(#name),),
                    Fields::Unnamed(_) => quote!(#pt => fmt.debug_tuple(#name)#(.field(&#v))*.finish(),),
                    Fields::Named(m) => { let names = m.named.iter().map(|f| f.ident.clone().unwrap().to_string()); quote!(#pt => fmt.debug_struct(#name)#(.field(#names, &#v))*.finish(),) }
                }
            });
            let body = if variants.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms)* }) };
            quote!(const _: () = { impl #a ::core::fmt::Debug for #n #b #c { fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { #body } } };)
        }
        Kind::PartialEq => {
            let many = variants.len() != 1;
            let arms = variants.iter().map(|(p, f, _, _)| {
                let (pa, va) = pat(p, f, "__a");
                let (pb, vb) = pat(p, f, "__b");
                quote!((#pa, #pb) => true #(&& #va == #vb)*,)
            });
            let rest = if many { quote!(_ => false,) } else { quote!() };
            quote!(const _: () = { impl #a ::core::cmp::PartialEq for #n #b #c { fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms)* #rest } } } };)
        }
        Kind::Eq => quote!(const _: () = { impl #a ::core::cmp::Eq for #n #b #c {} };),
        Kind::Default => {
            let v = variants.iter().find(|v| v.2);
            let out = match v {
                None => quote!(compile_error!("no #[default] variant")),
                Some((p, f, _, _)) => match f {
                    Fields::Unit => quote!(#p),
                    Fields::Unnamed(u) => { let d = u.unnamed.iter().map(|_| quote!(::core::default::Default::default())); quote!(#p(#(#d),*)) }
                    Fields::Named(m) => { let d = m.named.iter().map(|f| { let i = f.ident.clone().unwrap(); quote!(#i: ::core::default::Default::default()) }); quote!(#p { #(#d),* }) }
                },
            };
            quote!(const _: () = { impl #a ::core::default::Default for #n #b #c { fn default() -> Self { #out } } };)
        }
    }
}
