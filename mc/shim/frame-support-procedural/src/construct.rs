use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::parse::*;
use syn::*;

struct P { name: Ident, path: Path, inst: Option<Ident>, index: Option<u8> }
struct Rt { vis: Visibility, name: Ident, pallets: Vec<P> }
impl Parse for Rt {
    fn parse(i: ParseStream) -> Result<Self> {
        let vis = i.parse()?;
        if i.peek(Token![enum]) { i.parse::<Token![enum]>()?; } else { i.parse::<Token![struct]>()?; }
        let name = i.parse()?;
        if i.peek(Token![where]) {
            while !i.peek(token::Brace) { i.parse::<proc_macro2::TokenTree>()?; }
        }
        let c;
        braced!(c in i);
        let mut pallets = vec![];
        while !c.is_empty() {
            let name: Ident = c.parse()?;
            c.parse::<Token![:]>()?;
            let mut path = Path { leading_colon: None, segments: Default::default() };
            let mut inst = None;
            let first = c.call(<Ident as syn::ext::IdentExt>::parse_any)?; path.segments.push(first.into());
            while c.peek(Token![::]) {
                c.parse::<Token![::]>()?;
                if c.peek(Token![<]) { c.parse::<Token![<]>()?; inst = Some(c.parse()?); c.parse::<Token![>]>()?; }
                else if c.peek(token::Brace) { let d; braced!(d in c); d.parse::<TokenStream>()?; }
                else { path.segments.push(c.parse::<Ident>()?.into()); }
            }
            let mut index = None;
            if c.peek(Token![=]) { c.parse::<Token![=]>()?; index = Some(c.parse::<LitInt>()?.base10_parse()?); }
            if c.peek(Token![,]) { c.parse::<Token![,]>()?; }
            pallets.push(P { name, path, inst, index });
        }
        Ok(Rt { vis, name, pallets })
    }
}

pub fn expand(i: TokenStream) -> Result<TokenStream> {
    let rt: Rt = parse2(i)?;
    let (vis, test) = (&rt.vis, &rt.name);
    let _ = vis;
    let fs = quote!(::frame_support);
    let pv = quote!(::frame_support::__private);
    let parts = quote!(#fs::traits::PalletParts);
    let names: Vec<_> = rt.pallets.iter().map(|p| p.name.clone()).collect();
    let strs: Vec<_> = names.iter().map(|p| p.to_string()).collect();
    let tys: Vec<_> = rt.pallets.iter().map(|p| {
        let path = &p.path;
        match &p.inst { Some(x) => quote!(#path::Pallet<#test, #path::#x>), None => quote!(#path::Pallet<#test>) }
    }).collect();
    let part = |n: &str| -> Vec<TokenStream> { let n = format_ident!("{}", n); rt.pallets.iter().map(|p| {
        let path = &p.path;
        match &p.inst { Some(x) => quote!(#path::#n<#test, #path::#x>), None => quote!(#path::#n<#test>) }
    }).collect() };
    let (evs, calls, origins) = (part("__EventOf"), part("__CallOf"), part("__OriginOf"));
    let mut next = 0u8;
    let idx: Vec<u8> = rt.pallets.iter().map(|p| { let n = p.index.unwrap_or(next); next = n + 1; n }).collect();
    let idxu: Vec<usize> = idx.iter().map(|x| *x as usize).collect();
    let ocnames: Vec<_> = names.iter().enumerate().map(|(i, n)| if i == 0 { format_ident!("system") } else { n.clone() }).collect();
    let rest_tys = &tys[1..];
    let derive = quote!(#[derive(Clone, PartialEq, Eq, Debug, #pv::codec::Encode, #pv::codec::Decode, #pv::scale_info::TypeInfo)] #[codec(crate = #pv::codec)] #[scale_info(crate = #pv::scale_info)]);
    let nonsys: Vec<_> = (1..tys.len()).collect();
    let non_or: Vec<_> = nonsys.iter().map(|i| origins[*i].clone()).collect();
    let non_oc: Vec<_> = nonsys.iter().map(|i| ocnames[*i].clone()).collect();
    Ok(quote!(
        #[derive(Clone, Copy, PartialEq, Eq, Debug, #pv::scale_info::TypeInfo)]
        #[scale_info(crate = #pv::scale_info)]
        pub struct #test;
        #(#[allow(dead_code)] pub type #names = #tys;)*

        #derive
        #[allow(non_camel_case_types)]
        pub enum RuntimeEvent { #(#[codec(index = #idx)] #names(#evs),)* }
        #(impl From<#evs> for RuntimeEvent { fn from(e: #evs) -> Self { RuntimeEvent::#names(e) } }
        impl TryInto<#evs> for RuntimeEvent { type Error = (); fn try_into(self) -> ::core::result::Result<#evs, ()> { #[allow(unreachable_patterns)] match self { RuntimeEvent::#names(e) => Ok(e), _ => Err(()) } } })*

        #derive
        #[allow(non_camel_case_types)]
        pub enum RuntimeCall { #(#[codec(index = #idx)] #names(#calls),)* }
        #(impl From<#calls> for RuntimeCall { fn from(e: #calls) -> Self { RuntimeCall::#names(e) } }
        impl #fs::traits::IsSubType<#calls> for RuntimeCall { fn is_sub_type(&self) -> Option<&#calls> { #[allow(unreachable_patterns)] match self { RuntimeCall::#names(e) => Some(e), _ => None } } })*
        impl #fs::dispatch::GetDispatchInfo for RuntimeCall { fn get_dispatch_info(&self) -> #fs::dispatch::DispatchInfo { match self { #(RuntimeCall::#names(c) => #fs::dispatch::GetDispatchInfo::get_dispatch_info(c),)* } } }
        impl #fs::traits::GetCallMetadata for RuntimeCall {
            fn get_module_names() -> &'static [&'static str] { &[#(#strs),*] }
            fn get_call_names(module: &str) -> &'static [&'static str] { match module { #(#strs => <#calls as #fs::traits::GetCallName>::get_call_names(),)* _ => &[] } }
            fn get_call_metadata(&self) -> #fs::traits::CallMetadata { match self { #(RuntimeCall::#names(c) => #fs::traits::CallMetadata { function_name: #fs::traits::GetCallName::get_call_name(c), pallet_name: #strs },)* } }
        }
        impl #fs::traits::UnfilteredDispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo { match self { #(RuntimeCall::#names(c) => <#tys as #parts>::dispatch_part(c, origin),)* } }
        }
        impl #fs::sp_runtime::traits::Dispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            type Config = RuntimeCall;
            type Info = #fs::dispatch::DispatchInfo;
            type PostInfo = #fs::dispatch::PostDispatchInfo;
            fn dispatch(self, origin: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo {
                if !#fs::traits::OriginTrait::filter_call(&origin, &self) { return Err(::frame_system::Error::<#test>::CallFiltered.into()); }
                #fs::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
            }
        }

        #[derive(Clone, PartialEq, Eq, Debug, #pv::codec::Encode, #pv::codec::Decode, #pv::codec::MaxEncodedLen, #pv::scale_info::TypeInfo)] #[codec(crate = #pv::codec)] #[scale_info(crate = #pv::scale_info)]
        #[allow(non_camel_case_types)]
        pub enum OriginCaller { #(#[codec(index = #idx)] #ocnames(#origins),)* }
        #(impl From<#origins> for OriginCaller { fn from(o: #origins) -> Self { OriginCaller::#ocnames(o) } }
        impl From<#origins> for RuntimeOrigin { fn from(o: #origins) -> Self { OriginCaller::#ocnames(o).into() } })*
        #(impl From<RuntimeOrigin> for ::core::result::Result<#non_or, RuntimeOrigin> { fn from(o: RuntimeOrigin) -> Self { #[allow(unreachable_patterns)] match o.caller { OriginCaller::#non_oc(l) => Ok(l), _ => Err(o) } } }
        impl TryFrom<OriginCaller> for #non_or { type Error = OriginCaller; fn try_from(o: OriginCaller) -> ::core::result::Result<Self, OriginCaller> { #[allow(unreachable_patterns)] match o { OriginCaller::#non_oc(l) => Ok(l), o => Err(o) } } })*
        type __Raw = ::frame_system::RawOrigin<<#test as ::frame_system::Config>::AccountId>;
        impl #fs::traits::CallerTrait<<#test as ::frame_system::Config>::AccountId> for OriginCaller {
            fn into_system(self) -> Option<__Raw> { match self { OriginCaller::system(x) => Some(x), _ => None } }
            fn as_system_ref(&self) -> Option<&__Raw> { match self { OriginCaller::system(x) => Some(x), _ => None } }
        }
        impl TryFrom<OriginCaller> for __Raw { type Error = OriginCaller; fn try_from(o: OriginCaller) -> ::core::result::Result<Self, OriginCaller> { match o { OriginCaller::system(l) => Ok(l), o => Err(o) } } }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct RuntimeOrigin { pub caller: OriginCaller, pub bypass: bool }
        impl From<OriginCaller> for RuntimeOrigin {
            fn from(caller: OriginCaller) -> Self { let bypass = matches!(caller, OriginCaller::system(::frame_system::RawOrigin::Root)); RuntimeOrigin { caller, bypass } }
        }
        impl From<RuntimeOrigin> for ::core::result::Result<__Raw, RuntimeOrigin> { fn from(o: RuntimeOrigin) -> Self { match o.caller { OriginCaller::system(l) => Ok(l), _ => Err(o) } } }
        impl From<Option<<#test as ::frame_system::Config>::AccountId>> for RuntimeOrigin { fn from(x: Option<<#test as ::frame_system::Config>::AccountId>) -> Self { <__Raw>::from(x).into() } }
        #[allow(dead_code)]
        impl RuntimeOrigin {
            pub fn none() -> Self { <__Raw>::None.into() }
            pub fn root() -> Self { <__Raw>::Root.into() }
            pub fn signed(by: <#test as ::frame_system::Config>::AccountId) -> Self { <__Raw>::Signed(by).into() }
        }
        impl #fs::traits::OriginTrait for RuntimeOrigin {
            type Call = <#test as ::frame_system::Config>::RuntimeCall;
            type PalletsOrigin = OriginCaller;
            type AccountId = <#test as ::frame_system::Config>::AccountId;
            fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller }
            fn set_caller(&mut self, caller: OriginCaller) { self.caller = caller }
            fn filter_call(&self, call: &Self::Call) -> bool { self.bypass || <<#test as ::frame_system::Config>::BaseCallFilter as #fs::traits::Contains<Self::Call>>::contains(call) }
            fn caller(&self) -> &OriginCaller { &self.caller }
            fn into_caller(self) -> OriginCaller { self.caller }
            fn try_with_caller<R>(mut self, f: impl FnOnce(OriginCaller) -> ::core::result::Result<R, OriginCaller>) -> ::core::result::Result<R, Self> {
                match f(self.caller) { Ok(r) => Ok(r), Err(c) => { self.caller = c; Err(self) } }
            }
            fn none() -> Self { RuntimeOrigin::none() }
            fn root() -> Self { RuntimeOrigin::root() }
            fn signed(by: Self::AccountId) -> Self { RuntimeOrigin::signed(by) }
        }

        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct PalletInfo;
        impl #fs::traits::PalletInfo for PalletInfo {
            fn index<P: 'static>() -> Option<usize> { let t = ::core::any::TypeId::of::<P>(); #(if t == ::core::any::TypeId::of::<#tys>() { return Some(#idxu); })* None }
            fn name<P: 'static>() -> Option<&'static str> { let t = ::core::any::TypeId::of::<P>(); #(if t == ::core::any::TypeId::of::<#tys>() { return Some(#strs); })* None }
            fn name_hash<P: 'static>() -> Option<[u8; 16]> { Self::name::<P>().map(|n| #pv::twox_128(n.as_bytes())) }
            fn module_name<P: 'static>() -> Option<&'static str> { Self::name::<P>() }
            fn crate_version<P: 'static>() -> Option<#fs::traits::CrateVersion> { None }
        }
        #derive #[derive(Copy)] pub enum RuntimeTask {}
        #derive #[derive(Copy, #pv::codec::MaxEncodedLen, PartialOrd, Ord)] pub enum RuntimeHoldReason {}
        #derive #[derive(Copy, #pv::codec::MaxEncodedLen, PartialOrd, Ord)] pub enum RuntimeFreezeReason {}
        #[allow(dead_code)] pub type AllPalletsWithSystem = (#(#tys,)*);
        #[allow(dead_code)] pub type AllPalletsWithoutSystem = (#(#rest_tys,)*);
        const _: () = { #(let _ = <#tys as #parts>::HAS_CALL;)* };
    ))
}
