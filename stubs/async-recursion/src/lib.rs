//! Boxes the future of an async fn, as the crate of this name does: Send is
//! required of it and every reference argument lives for one lifetime.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

struct Elide;
impl Elide {
    fn ty(t: &mut Type) {
        match t {
            Type::Reference(r) => {
                if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('async_recursion)); }
                Self::ty(&mut r.elem);
            }
            Type::Path(p) => for s in &mut p.path.segments {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments { for g in &mut a.args { if let GenericArgument::Type(t) = g { Self::ty(t) } } }
            },
            Type::Tuple(t) => for e in &mut t.elems { Self::ty(e) },
            Type::Slice(s) => Self::ty(&mut s.elem),
            _ => (),
        }
    }
}
#[proc_macro_attribute]
pub fn async_recursion(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    assert!(f.sig.asyncness.take().is_some(), "not an async fn");
    let out: Type = match &f.sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
    for p in f.sig.generics.type_params_mut() { p.bounds.push(parse_quote!('async_recursion)); }
    f.sig.generics.params.insert(0, parse_quote!('async_recursion));
    for a in &mut f.sig.inputs {
        match a {
            FnArg::Typed(t) => Elide::ty(&mut t.ty),
            FnArg::Receiver(r) => { if let Some((_, l)) = &mut r.reference { if l.is_none() { *l = Some(parse_quote!('async_recursion)); } } *r = parse_quote!(&'async_recursion self); }
        }
    }
    f.sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> + ::core::marker::Send + 'async_recursion>>);
    let b = &f.block;
    f.block = parse_quote!({ Box::pin(async move #b) });
    quote!(#f).into()
}
