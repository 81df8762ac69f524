use proc_macro2::TokenStream;
use quote::quote;
use syn::*;

/// (impl generics without defaults, type arguments)
pub fn split(g: &Generics) -> (TokenStream, TokenStream) {
    let mut g = g.clone();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p { t.default = None; t.eq_token = None; }
    }
    let (i, t, _) = g.split_for_impl();
    (quote!(#i), quote!(#t))
}
pub fn idents(g: &Generics) -> Vec<Ident> {
    g.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.clone()) } else { None }).collect()
}
/// Removes `#[pallet::..]` attributes and returns them.
pub fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
    let mut out = vec![];
    attrs.retain(|a| {
        let s = &a.path().segments;
        if s.len() >= 2 && s[0].ident == "pallet" {
            out.push((s[1].ident.to_string(), a.clone()));
            false
        } else { true }
    });
    out
}
