//! Stand-in for `frame-support-procedural`.
mod bounds;
mod construct;
mod pallet;
mod util;
use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_attribute]
pub fn pallet(attr: TokenStream, item: TokenStream) -> TokenStream {
    let m = syn::parse_macro_input!(item as syn::ItemMod);
    let dev = attr.to_string().contains("dev_mode");
    pallet::expand(m, dev).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro]
pub fn construct_runtime(item: TokenStream) -> TokenStream {
    construct::expand(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(i: TokenStream) -> TokenStream { bounds::derive(i.into(), bounds::Kind::Clone).into() }
#[proc_macro_derive(RuntimeDebug)]
pub fn runtime_debug(i: TokenStream) -> TokenStream { bounds::derive(i.into(), bounds::Kind::Runtime).into() }
#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(i: TokenStream) -> TokenStream { bounds::derive(i.into(), bounds::Kind::Debug).into() }
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_no_bound(i: TokenStream) -> TokenStream { bounds::derive(i.into(), bounds::Kind::Debug).into() }
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(i: TokenStream) -> TokenStream { bounds::derive(i.into(), bounds::Kind::PartialEq).into() }
#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(i: TokenStream) -> TokenStream { bounds::derive(i.into(), bounds::Kind::Eq).into() }
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_no_bound(i: TokenStream) -> TokenStream { bounds::derive(i.into(), bounds::Kind::Default).into() }
#[proc_macro_derive(PalletError, attributes(codec))]
pub fn pallet_error(i: TokenStream) -> TokenStream {
    let d = syn::parse_macro_input!(i as syn::DeriveInput);
    let n = &d.ident;
    let (a, b, c) = d.generics.split_for_impl();
    quote!(impl #a ::frame_support::traits::PalletError for #n #b #c { const MAX_ENCODED_SIZE: usize = 4; }).into()
}
#[proc_macro_attribute]
pub fn transactional(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = syn::parse_macro_input!(item as syn::ItemFn);
    let b = &f.block;
    f.block = syn::parse_quote!({
        use ::frame_support::storage::{with_transaction, TransactionOutcome};
        with_transaction(|| {
            let r = (|| { #b })();
            if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) }
        })
    });
    quote!(#f).into()
}
#[proc_macro_attribute]
pub fn require_transactional(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = syn::parse_macro_input!(item as syn::ItemFn);
    let b = &f.block;
    f.block = syn::parse_quote!({
        if !::frame_support::storage::transactional::is_transactional() {
            return Err(::frame_support::sp_runtime::TransactionalError::NoLayer.into());
        }
        #b
    });
    quote!(#f).into()
}
#[proc_macro_attribute]
pub fn storage_alias(attr: TokenStream, item: TokenStream) -> TokenStream {
    let t = syn::parse_macro_input!(item as syn::ItemType);
    pallet::storage_alias(attr.into(), t).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn derive_impl(_: TokenStream, item: TokenStream) -> TokenStream {
    let i = syn::parse_macro_input!(item as syn::ItemImpl);
    pallet::derive_impl(i).into()
}
#[proc_macro_attribute]
pub fn register_default_impl(_: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro]
pub fn crate_to_crate_version(_: TokenStream) -> TokenStream { quote!(::frame_support::traits::CrateVersion::default()).into() }
