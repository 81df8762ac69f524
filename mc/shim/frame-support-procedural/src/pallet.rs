use crate::util::*;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::spanned::Spanned;
use syn::*;

struct Storage { ident: Ident, generics: Generics, cfg: Vec<Attribute>, getter: Option<(Visibility, Ident)>, kind: String, prefix: Ident, args: Vec<Type>, vis: Visibility }

fn err<T>(s: impl Spanned, m: &str) -> Result<T> { Err(Error::new(s.span(), m)) }

/// Positional arguments of a storage type, whether written positionally or by name.
fn storage_args(seg: &PathSegment) -> Result<Vec<Type>> {
    let PathArguments::AngleBracketed(ab) = &seg.arguments else { return err(seg, "storage type needs generics") };
    let kind = seg.ident.to_string();
    let names: &[&str] = match kind.as_str() {
        "StorageValue" => &["Value", "QueryKind", "OnEmpty"],
        "StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
        "StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
        "StorageNMap" => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
        _ => return err(seg, "unknown storage type"),
    };
    if ab.args.iter().any(|a| matches!(a, GenericArgument::AssocType(_))) {
        let mut v = vec![];
        for n in names {
            let f = ab.args.iter().find_map(|a| match a { GenericArgument::AssocType(t) if t.ident == n => Some(t.ty.clone()), _ => None });
            match f {
                Some(t) => v.push(t),
                None if *n == "QueryKind" => v.push(parse_quote!(::frame_support::storage::types::OptionQuery)),
                None if *n == "OnEmpty" => v.push(parse_quote!(::frame_support::traits::GetDefault)),
                None if *n == "MaxValues" => v.push(parse_quote!(::frame_support::traits::GetDefault)),
                None => return err(seg, "missing storage generic"),
            }
        }
        Ok(v)
    } else {
        Ok(ab.args.iter().skip(1).filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect())
    }
}
fn storage_path(kind: &str) -> TokenStream {
    let k = Ident::new(kind, Span::call_site());
    quote!(::frame_support::storage::types::#k)
}

pub fn expand(mut m: ItemMod, dev: bool) -> Result<TokenStream> {
    let Some((_, items)) = m.content.as_mut() else { return err(&m, "inline module expected") };
    let fs = quote!(::frame_support);
    let pv = quote!(::frame_support::__private);
    // pass 1: is it an instantiable pallet?
    let mut inst = false;
    for i in items.iter() {
        if let Item::Trait(t) = i {
            if t.ident == "Config" && t.attrs.iter().any(|a| a.path().segments.len() > 1) { inst = !t.generics.params.is_empty(); }
        }
    }
    let (ty_impl, ty_use) = if inst { (quote!(T: Config<I>, I: 'static), quote!(T, I)) } else { (quote!(T: Config), quote!(T)) };
    let cfg_bound = if inst { quote!(Config<I>) } else { quote!(Config) };
    let _ = &cfg_bound;

    let mut extra: Vec<Item> = vec![];
    let mut storages: Vec<Storage> = vec![];
    let mut has_event = None::<Generics>;
    let mut has_call = false;
    let mut has_origin = None::<TokenStream>;
    let mut has_hooks = false;
    let (mut cw, mut hw) = (quote!(), quote!());
    let mut has_genesis = None::<Generics>;
    let mut has_unsigned = false;
    let mut in_code_version = quote!(#fs::traits::NoStorageVersionSet);
    let mut version_expr = quote!(#fs::traits::StorageVersion::new(0));
    let mut out: Vec<Item> = vec![];

    let old = std::mem::take(items);
    for item in old {
        match item {
            Item::Trait(mut t) => {
                let _ = take(&mut t.attrs);
                if t.ident == "Config" {
                    for ti in t.items.iter_mut() {
                        match ti {
                            TraitItem::Type(x) => { take(&mut x.attrs); }
                            TraitItem::Const(x) => { take(&mut x.attrs); }
                            TraitItem::Fn(x) => { take(&mut x.attrs); }
                            _ => {}
                        }
                    }
                }
                out.push(Item::Trait(t));
            }
            Item::Struct(mut s) => {
                let a = take(&mut s.attrs);
                if a.iter().any(|(n, _)| n == "pallet") {
                    for (n, at) in &a {
                        if n == "storage_version" {
                            let e: Expr = at.parse_args()?;
                            version_expr = quote!(#e);
                            in_code_version = quote!(#fs::traits::StorageVersion);
                        }
                    }
                    let vis = &s.vis;
                    let docs = s.attrs.iter().filter(|a| a.path().is_ident("doc"));
                    let (g, ph) = if inst { (quote!(<T, I = ()>), quote!((T, I))) } else { (quote!(<T>), quote!(T)) };
                    out.push(parse_quote!(#(#docs)* #vis struct Pallet #g (#pv::PhantomData<#ph>);));
                    let u = if inst { quote!(<T, I>) } else { quote!(<T>) };
                    extra.push(parse_quote!(impl #u Clone for Pallet #u { fn clone(&self) -> Self { Self(#pv::PhantomData) } }));
                    extra.push(parse_quote!(impl #u PartialEq for Pallet #u { fn eq(&self, _: &Self) -> bool { true } }));
                    extra.push(parse_quote!(impl #u Eq for Pallet #u {}));
                    extra.push(parse_quote!(impl #u ::core::fmt::Debug for Pallet #u { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("Pallet") } }));
                } else if a.iter().any(|(n, _)| n == "genesis_config") {
                    has_genesis = Some(s.generics.clone());
                    s.attrs.retain(|a| !a.path().is_ident("serde"));
                    for f in s.fields.iter_mut() { f.attrs.retain(|a| !a.path().is_ident("serde")); }
                    out.push(Item::Struct(s));
                } else { out.push(Item::Struct(s)); }
            }
            Item::Type(mut t) => {
                let a = take(&mut t.attrs);
                if a.iter().any(|(n, _)| n == "storage") {
                    let Type::Path(p) = &*t.ty else { return err(&t, "storage path") };
                    let seg = p.path.segments.last().unwrap().clone();
                    let args = storage_args(&seg)?;
                    let prefix = format_ident!("_GeneratedPrefixForStorage{}", t.ident);
                    let getter = a.iter().find(|(n, _)| n == "getter").map(|(_, at)| -> Result<_> {
                        at.parse_args_with(|i: parse::ParseStream| { let v: Visibility = i.parse()?; i.parse::<Token![fn]>()?; Ok((v, i.parse::<Ident>()?)) })
                    }).transpose()?;
                    let mut name = t.ident.to_string();
                    for (n, at) in &a { if n == "storage_prefix" { if let Meta::NameValue(nv) = &at.meta { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value { name = s.value(); } } } }
                    let path = storage_path(&seg.ident.to_string());
                    let (_, tu) = split(&t.generics);
                    t.ty = Box::new(parse_quote!(#path<#prefix #tu, #(#args),*>));
                    let ids = idents(&t.generics);
                    let vis = &t.vis;
                    let cfgs: Vec<_> = t.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect();
                    let g = if ids.is_empty() { quote!() } else if ids.len() == 2 { quote!(<T, I = ()>) } else { quote!(<T>) };
                    let ph = if ids.is_empty() { quote!(()) } else { quote!((#(#ids,)*)) };
                    extra.push(parse_quote!(#(#cfgs)* #[doc(hidden)] #[allow(non_camel_case_types)] #vis struct #prefix #g (#pv::PhantomData<#ph>);));
                    let tgen = if ids.is_empty() { quote!() } else { quote!(<#ty_impl>) };
                    let tuse = if ids.is_empty() { quote!() } else { quote!(<#ty_use>) };
                    extra.push(parse_quote!(#(#cfgs)* impl #tgen #fs::traits::StorageInstance for #prefix #tuse {
                        fn pallet_prefix() -> &'static str {
                            <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::name::<Pallet<#ty_use>>().expect("pallet in the runtime")
                        }
                        const STORAGE_PREFIX: &'static str = #name;
                    }));
                    if seg.ident == "CountedStorageMap" {
                        let cp = format_ident!("_GeneratedCounterPrefixForStorage{}", t.ident);
                        let cname = format!("CounterFor{}", name);
                        extra.push(parse_quote!(#(#cfgs)* #[doc(hidden)] #[allow(non_camel_case_types)] #vis struct #cp #g (#pv::PhantomData<#ph>);));
                        extra.push(parse_quote!(#(#cfgs)* impl #tgen #fs::traits::StorageInstance for #cp #tuse {
                            fn pallet_prefix() -> &'static str { <#prefix #tuse as #fs::traits::StorageInstance>::pallet_prefix() }
                            const STORAGE_PREFIX: &'static str = #cname;
                        }));
                        extra.push(parse_quote!(#(#cfgs)* impl #tgen #fs::storage::types::CountedStorageMapInstance for #prefix #tuse { type CounterPrefix = #cp #tuse; }));
                    }
                    // storages may be private to the module of the alias: same visibility as the prefix
                    storages.push(Storage { ident: t.ident.clone(), generics: t.generics.clone(), cfg: cfgs, getter, kind: seg.ident.to_string(), prefix, args, vis: t.vis.clone() });
                    t.attrs.push(parse_quote!(#[allow(type_alias_bounds)]));
                } else if a.iter().any(|(n, _)| n == "origin") {
                    let (_, tu) = split(&t.generics);
                    has_origin = Some(quote!(Origin #tu));
                    t.attrs.push(parse_quote!(#[allow(type_alias_bounds)]));
                }
                out.push(Item::Type(t));
            }
            Item::Enum(mut e) => {
                let a = take(&mut e.attrs);
                if a.iter().any(|(n, _)| n == "error") {
                    for v in e.variants.iter_mut() { take(&mut v.attrs); }
                    let ph = if inst { quote!((T, I)) } else { quote!(T) };
                    let names: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
                    let strs: Vec<_> = names.iter().map(|n| n.to_string()).collect();
                    let pats: Vec<_> = e.variants.iter().map(|v| match v.fields { Fields::Unit => quote!(), Fields::Unnamed(_) => quote!((..)), Fields::Named(_) => quote!({ .. }) }).collect();
                    e.variants.insert(0, parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(#pv::PhantomData<#ph>, #fs::Never)));
                    let skip = if inst { quote!(T, I) } else { quote!(T) };
                    e.attrs.push(parse_quote!(#[derive(#pv::codec::Encode, #pv::codec::Decode, #pv::scale_info::TypeInfo, #fs::PalletError)]));
                    e.attrs.push(parse_quote!(#[scale_info(skip_type_params(#skip), crate = #pv::scale_info)]));
                    e.attrs.push(parse_quote!(#[codec(crate = #pv::codec)]));
                    let eg = if inst { quote!(<T, I>) } else { quote!(<T>) };
                    extra.push(parse_quote!(impl #eg ::core::fmt::Debug for Error #eg { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(self.as_str()) } }));
                    extra.push(parse_quote!(impl #eg Error #eg {
                        #[doc(hidden)]
                        pub fn as_str(&self) -> &'static str {
                            match self { Self::__Ignore(_, n) => match *n {}, #(Self::#names #pats => #strs,)* }
                        }
                    }));
                    extra.push(parse_quote!(impl #eg From<Error #eg> for &'static str { fn from(e: Error #eg) -> &'static str { e.as_str() } }));
                    extra.push(parse_quote!(impl<#ty_impl> From<Error #eg> for #fs::sp_runtime::DispatchError {
                        fn from(e: Error #eg) -> Self {
                            use #pv::codec::Encode;
                            let index = <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::index::<Pallet<#ty_use>>().expect("pallet in the runtime") as u8;
                            let mut encoded = e.encode();
                            encoded.resize(#fs::sp_runtime::MAX_MODULE_ERROR_ENCODED_SIZE, 0);
                            #fs::sp_runtime::DispatchError::Module(#fs::sp_runtime::ModuleError { index, error: encoded.try_into().expect("4 bytes"), message: Some(e.as_str()) })
                        }
                    }));
                } else if a.iter().any(|(n, _)| n == "event") {
                    has_event = Some(e.generics.clone());
                    let ids = idents(&e.generics);
                    if !ids.is_empty() {
                        e.variants.insert(e.variants.len(), parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(#pv::PhantomData<(#(#ids,)*)>, #fs::Never)));
                    }
                    e.attrs.push(parse_quote!(#[derive(#fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #fs::RuntimeDebugNoBound, #pv::codec::Encode, #pv::codec::Decode, #pv::scale_info::TypeInfo)]));
                    e.attrs.push(parse_quote!(#[scale_info(skip_type_params(#(#ids),*), crate = #pv::scale_info)]));
                    e.attrs.push(parse_quote!(#[codec(crate = #pv::codec)]));
                    let (gi, gu) = split(&e.generics);
                    for (n, at) in &a {
                        if n == "generate_deposit" {
                            let (vis, f) = at.parse_args_with(|i: parse::ParseStream| { let v: Visibility = i.parse()?; i.parse::<Token![fn]>()?; Ok((v, i.parse::<Ident>()?)) })?;
                            let _ = &gi;
                            let cfgt = if inst { quote!(<T as Config<I>>) } else { quote!(<T as Config>) };
                            extra.push(parse_quote!(impl<#ty_impl> Pallet<#ty_use> {
                                #vis fn #f(event: Event #gu) {
                                    let event = <#cfgt::RuntimeEvent as From<Event #gu>>::from(event);
                                    let event = <#cfgt::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
                                    <::frame_system::Pallet<T>>::deposit_event(event)
                                }
                            }));
                        }
                    }
                    extra.push(parse_quote!(impl #gi From<Event #gu> for () { fn from(_: Event #gu) {} }));
                } else if a.iter().any(|(n, _)| n == "origin") {
                    let (_, tu) = split(&e.generics);
                    let id = &e.ident;
                    has_origin = Some(quote!(#id #tu));
                } else if a.iter().any(|(n, _)| n == "genesis_config") {
                    has_genesis = Some(e.generics.clone());
                } else if a.iter().any(|(n, _)| n == "composite_enum") {
                    e.attrs.push(parse_quote!(#[derive(Copy, Clone, Eq, PartialEq, Debug, #pv::codec::Encode, #pv::codec::Decode, #pv::codec::MaxEncodedLen, #pv::scale_info::TypeInfo)]));
                }
                out.push(Item::Enum(e));
            }
            Item::Fn(mut f) => {
                let a = take(&mut f.attrs);
                if a.iter().any(|(n, _)| n == "type_value") {
                    let (id, vis, body) = (&f.sig.ident, &f.vis, &f.block);
                    let ReturnType::Type(_, ret) = &f.sig.output else { return err(&f, "return type") };
                    let (gi, gu) = split(&f.sig.generics);
                    let ids = idents(&f.sig.generics);
                    let wh = &f.sig.generics.where_clause;
                    if ids.is_empty() {
                        out.push(parse_quote!(#[doc(hidden)] #vis struct #id;));
                    } else {
                        out.push(parse_quote!(#[doc(hidden)] #vis struct #id<#(#ids),*>(#pv::PhantomData<(#(#ids,)*)>);));
                    }
                    out.push(parse_quote!(impl #gi #fs::traits::Get<#ret> for #id #gu #wh { fn get() -> #ret #body }));
                } else { out.push(Item::Fn(f)); }
            }
            Item::Impl(mut i) => {
                let a = take(&mut i.attrs);
                let is = |x: &str| a.iter().any(|(n, _)| n == x);
                if is("hooks") {
                    has_hooks = true;
                    if let Some(w) = &i.generics.where_clause { let p = w.predicates.iter(); hw = quote!(#(#p,)*); }
                    out.push(Item::Impl(i));
                } else if is("call") {
                    if let Some(w) = &i.generics.where_clause { let p = w.predicates.iter(); cw = quote!(#(#p,)*); }
                    has_call = true;
                    let impl_weight = a.iter().find(|(n, _)| n == "call").and_then(|(_, at)| match &at.meta { Meta::List(_) => at.parse_args_with(|p: parse::ParseStream| {
                        p.parse::<Ident>()?; let c; parenthesized!(c in p); c.parse::<Type>() }).ok(), _ => None });
                    let mut variants: Vec<TokenStream> = vec![];
                    let mut w_arms: Vec<TokenStream> = vec![];
                    let mut d_arms: Vec<TokenStream> = vec![];
                    let mut n_arms: Vec<TokenStream> = vec![];
                    let mut names: Vec<String> = vec![];
                    let mut next = 0u8;
                    for it in i.items.iter_mut() {
                        let ImplItem::Fn(f) = it else { continue };
                        let fa = take(&mut f.attrs);
                        let mut idx = next;
                        let mut weight: Option<Expr> = None;
                        for (n, at) in &fa {
                            match n.as_str() {
                                "call_index" => idx = at.parse_args::<LitInt>()?.base10_parse()?,
                                "weight" => weight = Some(at.parse_args()?),
                                _ => {}
                            }
                        }
                        next = idx + 1;
                        let name = f.sig.ident.clone();
                        let weight = match (weight, &impl_weight) {
                            (Some(w), _) => quote!(#w),
                            (None, Some(t)) => quote!(<#t>::#name()),
                            (None, None) if dev => quote!(#fs::weights::Weight::zero()),
                            _ => return err(&f.sig, "no weight"),
                        };
                        let mut fields = vec![];
                        let mut ids = vec![];
                        let mut doc_fields = vec![];
                        for inp in f.sig.inputs.iter_mut().skip(1) {
                            let FnArg::Typed(p) = inp else { return err(&f.sig, "self in call") };
                            let pa = take(&mut p.attrs);
                            let Pat::Ident(pi) = &*p.pat else { return err(&p.pat, "argument name") };
                            let id = pi.ident.clone();
                            let ty = &p.ty;
                            let at = if pa.iter().any(|(n, _)| n == "compact") { quote!(#[codec(compact)]) } else { quote!() };
                            fields.push(quote!(#at #id: #ty));
                            doc_fields.push(quote!(#id));
                            ids.push(id);
                        }
                        variants.push(quote!(#[codec(index = #idx)] #name { #(#fields),* }));
                        w_arms.push(quote!(Self::#name { #(#ids),* } => { #(let _ = &#ids;)* #fs::dispatch::IntoDispatchInfo::into_dispatch_info({ #weight }) }));
                        let arg_ids = ids.clone();
                        d_arms.push(quote!(Self::#name { #(#ids),* } => <Pallet<#ty_use>>::#name(origin, #(#arg_ids),*).map(Into::into).map_err(Into::into)));
                        n_arms.push(quote!(Self::#name { .. } => stringify!(#name)));
                        names.push(name.to_string());
                        let b = &f.block;
                        f.block = parse_quote!({ #fs::storage::with_storage_layer(|| #b) });
                        f.attrs.push(parse_quote!(#[allow(clippy::too_many_arguments)]));
                    }
                    let ph = quote!((#ty_use,));
                    let cg = if inst { quote!(<T: Config<I>, I: 'static = ()>) } else { quote!(<T: Config>) };
                    extra.push(parse_quote!(
                        #[derive(#fs::RuntimeDebugNoBound, #fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #pv::codec::Encode, #pv::codec::Decode, #pv::scale_info::TypeInfo)]
                        #[codec(encode_bound())]
                        #[codec(decode_bound())]
                        #[codec(crate = #pv::codec)]
                        #[scale_info(skip_type_params(#ty_use), crate = #pv::scale_info)]
                        #[allow(non_camel_case_types)]
                        pub enum Call #cg {
                            #[doc(hidden)]
                            #[codec(skip)]
                            __Ignore(#pv::PhantomData<#ph>, #fs::Never),
                            #(#variants,)*
                        }
                    ));
                    extra.push(parse_quote!(#[allow(unused_variables)] impl<#ty_impl> #fs::dispatch::GetDispatchInfo for Call<#ty_use> {
                        fn get_dispatch_info(&self) -> #fs::dispatch::DispatchInfo { match self { Self::__Ignore(_, n) => match *n {}, #(#w_arms,)* } }
                    }));
                    extra.push(parse_quote!(impl<#ty_impl> #fs::traits::GetCallName for Call<#ty_use> {
                        fn get_call_name(&self) -> &'static str { match self { Self::__Ignore(_, n) => match *n {}, #(#n_arms,)* } }
                        fn get_call_names() -> &'static [&'static str] { &[#(#names),*] }
                    }));
                    extra.push(parse_quote!(impl<#ty_impl> #fs::traits::UnfilteredDispatchable for Call<#ty_use> where #cw {
                        type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
                        fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo {
                            match self { Self::__Ignore(_, n) => match n {}, #(#d_arms,)* }
                        }
                    }));
                    extra.push(parse_quote!(impl<#ty_impl> #fs::dispatch::Callable<T> for Pallet<#ty_use> where #cw { type RuntimeCall = Call<#ty_use>; }));
                    out.push(Item::Impl(i));
                } else if is("genesis_build") {
                    out.push(Item::Impl(i));
                } else {
                    if is("validate_unsigned") { has_unsigned = true; }
                    out.push(Item::Impl(i));
                }
            }
            other => out.push(other),
        }
    }
    let _ = has_unsigned;
    if !has_hooks {
        extra.push(parse_quote!(impl<#ty_impl> #fs::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#ty_use> {}));
    }
    for (tr, f, args, ret) in [
        ("OnInitialize", "on_initialize", quote!(n: ::frame_system::pallet_prelude::BlockNumberFor<T>), quote!(#fs::weights::Weight)),
        ("OnFinalize", "on_finalize", quote!(n: ::frame_system::pallet_prelude::BlockNumberFor<T>), quote!(())),
        ("OffchainWorker", "offchain_worker", quote!(n: ::frame_system::pallet_prelude::BlockNumberFor<T>), quote!(())),
    ] {
        let (tr, f) = (format_ident!("{}", tr), format_ident!("{}", f));
        extra.push(parse_quote!(impl<#ty_impl> #fs::traits::#tr<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#ty_use> where #hw {
            fn #f(#args) -> #ret { <Self as #fs::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::#f(n) }
        }));
    }
    extra.push(parse_quote!(impl<#ty_impl> #fs::traits::OnIdle<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#ty_use> where #hw {
        fn on_idle(n: ::frame_system::pallet_prelude::BlockNumberFor<T>, w: #fs::weights::Weight) -> #fs::weights::Weight { <Self as #fs::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_idle(n, w) }
    }));
    extra.push(parse_quote!(impl<#ty_impl> #fs::traits::OnRuntimeUpgrade for Pallet<#ty_use> where #hw {
        fn on_runtime_upgrade() -> #fs::weights::Weight { <Self as #fs::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_runtime_upgrade() }
    }));
    extra.push(parse_quote!(impl<#ty_impl> #fs::traits::IntegrityTest for Pallet<#ty_use> where #hw {
        fn integrity_test() { <Self as #fs::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::integrity_test() }
    }));
    extra.push(parse_quote!(impl<#ty_impl> #fs::traits::GetStorageVersion for Pallet<#ty_use> {
        type InCodeStorageVersion = #in_code_version;
        fn in_code_storage_version() -> #fs::traits::StorageVersion { #version_expr }
        fn on_chain_storage_version() -> #fs::traits::StorageVersion { #fs::traits::StorageVersion::get::<Self>() }
    }));
    extra.push(parse_quote!(impl<#ty_impl> #fs::traits::OnGenesis for Pallet<#ty_use> {
        fn on_genesis() { let v: #fs::traits::StorageVersion = #version_expr; v.put::<Self>(); }
    }));
    extra.push(parse_quote!(impl<#ty_impl> #fs::traits::PalletInfoAccess for Pallet<#ty_use> {
        fn index() -> usize { <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::index::<Self>().expect("pallet in the runtime") }
        fn name() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::name::<Self>().expect("pallet in the runtime") }
        fn name_hash() -> [u8; 16] { #pv::twox_128(Self::name().as_bytes()) }
        fn module_name() -> &'static str { Self::name() }
        fn crate_version() -> #fs::traits::CrateVersion { Default::default() }
    }));
    // parts
    let ev = match &has_event { Some(g) => { let (_, u) = split(g); quote!(Event #u) } None => quote!(#fs::traits::NoPart<Pallet<#ty_use>, 0>) };
    let call = if has_call { quote!(Call<#ty_use>) } else { quote!(#fs::traits::NoPart<Pallet<#ty_use>, 1>) };
    let origin = match &has_origin { Some(o) => o.clone(), None => quote!(#fs::traits::NoPart<Pallet<#ty_use>, 2>) };
    let dispatch = if has_call {
        quote!(<Self::Call as #fs::traits::UnfilteredDispatchable>::dispatch_bypass_filter(call, origin))
    } else { quote!({ let _ = origin; call.unreachable() }) };
    if inst { extra.push(parse_quote!(pub use #fs::instances::{Instance1, Instance2, Instance3, Instance4, Instance5, Instance6, Instance7, Instance8};)); }
    // the parts under fixed names, as aliases: `construct_runtime!` writes impls for them, and a projection there would be cyclic
    let al = if inst { quote!(<T, I = ()>) } else { quote!(<T>) };
    for (name, part) in [("__EventOf", &ev), ("__CallOf", &call), ("__OriginOf", &origin)] {
        let name = format_ident!("{}", name);
        let txt = part.to_string();
        fn has_ident(t: TokenStream, x: &str) -> bool { t.into_iter().any(|t| match t { proc_macro2::TokenTree::Group(g) => has_ident(g.stream(), x), t => t.to_string() == x }) }
        let has = |x: &str| has_ident(part.clone(), x);
        let _ = &txt;
        let mut body = quote!(#part);
        if !has("T") { body = quote!(<#fs::traits::Konst<#body> as #fs::traits::KonstT<T>>::Out); }
        if inst && !has("I") { body = quote!(<#fs::traits::Konst<#body> as #fs::traits::KonstT<I>>::Out); }
        extra.push(parse_quote!(#[doc(hidden)] #[allow(type_alias_bounds)] pub type #name #al = #body;));
    }
    extra.push(parse_quote!(impl<#ty_impl> #fs::traits::PalletParts for Pallet<#ty_use> where #cw #hw {
        type Event = #ev;
        type Call = #call;
        type Origin = #origin;
        type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
        const HAS_CALL: bool = #has_call;
        fn dispatch_part(call: Self::Call, origin: Self::RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo { #dispatch }
    }));
    if let Some(g) = &has_genesis {
        let ids = idents(g);
        let gu = if ids.is_empty() { quote!() } else { quote!(<#(#ids),*>) };
        let gi = if ids.is_empty() { quote!() } else { quote!(<#ty_impl>) };
        extra.push(parse_quote!(impl #gi #fs::sp_runtime::BuildStorage for GenesisConfig #gu {
            fn assimilate_storage(&self, storage: &mut #fs::sp_runtime::Storage) -> ::core::result::Result<(), String> {
                #fs::sp_runtime::execute_with_storage(storage, || { <Self as #fs::traits::BuildGenesisConfig>::build(self); });
                Ok(())
            }
        }));
    }
    // getters
    let oq: Type = parse_quote!(#fs::storage::types::OptionQuery);
    for s in &storages {
        let Some((_, name)) = &s.getter else { continue };
        let vis = quote!(pub);
        let (sid, a, cfg) = (&s.ident, &s.args, &s.cfg);
        let (_, tu) = split(&s.generics);
        let turbo = if s.generics.params.is_empty() { quote!() } else { quote!(::#tu) };
        let _ = (&s.prefix, &s.vis);
        let (key_n, val_n) = match s.kind.as_str() { "StorageValue" => (0, 0), "StorageMap" | "CountedStorageMap" => (1, 2), "StorageDoubleMap" => (2, 4), _ => (3, 1) };
        let val = &a[val_n];
        let q = a.get(val_n + 1).unwrap_or(&oq);
        let oe: Type = a.get(val_n + 2).cloned().unwrap_or(parse_quote!(#fs::traits::GetDefault));
        let ret = quote!(<#q as #fs::storage::types::QueryKindTrait<#val, #oe>>::Query);
        let f: TokenStream = match key_n {
            0 => quote!(#vis fn #name() -> #ret { #sid #turbo::get() }),
            1 => { let k = &a[1]; quote!(#vis fn #name<KArg: #pv::codec::EncodeLike<#k>>(k: KArg) -> #ret { #sid #turbo::get(k) }) }
            2 => { let (k1, k2) = (&a[1], &a[3]); quote!(#vis fn #name<KArg1: #pv::codec::EncodeLike<#k1>, KArg2: #pv::codec::EncodeLike<#k2>>(k1: KArg1, k2: KArg2) -> #ret { #sid #turbo::get(k1, k2) }) }
            _ => { let k = &a[0]; quote!(#vis fn #name<KArg: #fs::storage::types::EncodeLikeTuple<<#k as #fs::storage::types::KeyGenerator>::KArg> + #fs::storage::types::TupleToEncodedIter>(k: KArg) -> #ret { #sid #turbo::get(k) }) }
        };
        extra.push(parse_quote!(#(#cfg)* impl<#ty_impl> Pallet<#ty_use> { #f }));
    }
    out.extend(extra);
    *m.content.as_mut().map(|c| &mut c.1).unwrap() = out;
    m.attrs.push(parse_quote!(#[allow(dead_code, unused_imports)]));
    Ok(m.to_token_stream())
}

pub fn storage_alias(attr: TokenStream, t: ItemType) -> Result<TokenStream> {
    let mode = attr.to_string();
    let Type::Path(p) = &*t.ty else { return err(&t, "path") };
    let seg = p.path.segments.last().unwrap();
    let PathArguments::AngleBracketed(ab) = &seg.arguments else { return err(seg, "generics") };
    let first = ab.args.first().unwrap();
    let args: Vec<_> = ab.args.iter().skip(1).collect();
    let prefix = format_ident!("{}_Storage_Instance", t.ident);
    let name = t.ident.to_string();
    let path = storage_path(&seg.ident.to_string());
    let (vis, ident, attrs) = (&t.vis, &t.ident, &t.attrs);
    let generics = &t.generics;
    let wh = &generics.where_clause;
    let (gi, gu) = split(generics);
    let fs = quote!(::frame_support);
    let ids = idents(generics);
    let simple = match first { GenericArgument::Type(Type::Path(tp)) if tp.path.segments.len() == 1 && tp.path.segments[0].arguments.is_empty() => Some(tp.path.segments[0].ident.clone()), _ => None };
    // verbatim identifier -> the identifier itself is the prefix; a type -> its PalletInfoAccess name (or Get<&str> for `dynamic`)
    let is_param = simple.as_ref().map_or(false, |s| ids.contains(s));
    let pp = if mode.contains("dynamic") { quote!(<#first as #fs::traits::Get<_>>::get()) }
        else if mode.contains("verbatim") || (simple.is_some() && !is_param && !mode.contains("pallet_name")) { let s = simple.unwrap().to_string(); quote!(#s) }
        else { quote!(<#first as #fs::traits::PalletInfoAccess>::name()) };
    let ph = quote!((#(#ids,)*));
    let mut g2 = generics.clone();
    g2.where_clause = None;
    for p in g2.params.iter_mut() { if let GenericParam::Type(x) = p { x.bounds.clear(); x.colon_token = None; } }
    Ok(quote!(
        #[doc(hidden)] #[allow(non_camel_case_types)] #vis struct #prefix #g2(::core::marker::PhantomData<#ph>);
        impl #gi #fs::traits::StorageInstance for #prefix #gu #wh {
            fn pallet_prefix() -> &'static str { #pp }
            const STORAGE_PREFIX: &'static str = #name;
        }
        #(#attrs)* #[allow(type_alias_bounds)] #vis type #ident #generics = #path<#prefix #gu, #(#args),*>;
    ))
}

pub fn derive_impl(mut i: ItemImpl) -> TokenStream {
    let have: Vec<String> = i.items.iter().filter_map(|x| if let ImplItem::Type(t) = x { Some(t.ident.to_string()) } else { None }).collect();
    let fs = quote!(::frame_support);
    let defaults: Vec<(&str, TokenStream)> = vec![
        ("Nonce", quote!(u32)), ("Hash", quote!(#fs::__private::H256)), ("Hashing", quote!(#fs::sp_runtime::traits::BlakeTwo256)), ("AccountId", quote!(u64)),
        ("Lookup", quote!(#fs::sp_runtime::traits::IdentityLookup<u64>)), ("BlockHashCount", quote!(#fs::traits::ConstU64<10>)), ("MaxConsumers", quote!(#fs::traits::ConstU32<16>)),
        ("AccountData", quote!(())), ("OnNewAccount", quote!(())), ("OnKilledAccount", quote!(())), ("SystemWeightInfo", quote!(())), ("SS58Prefix", quote!(())), ("Version", quote!(())),
        ("BlockWeights", quote!(())), ("BlockLength", quote!(())), ("DbWeight", quote!(())), ("RuntimeEvent", quote!(RuntimeEvent)), ("RuntimeOrigin", quote!(RuntimeOrigin)),
        ("RuntimeCall", quote!(RuntimeCall)), ("RuntimeTask", quote!(RuntimeTask)), ("PalletInfo", quote!(PalletInfo)), ("BaseCallFilter", quote!(#fs::traits::Everything)), ("OnSetCode", quote!(())),
    ];
    for (n, t) in defaults {
        if !have.contains(&n.to_string()) {
            let n = format_ident!("{}", n);
            i.items.push(parse_quote!(type #n = #t;));
        }
    }
    quote!(#i)
}
