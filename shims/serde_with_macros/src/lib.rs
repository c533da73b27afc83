//! Stand-in for `#[serde_as]`: `#[serde_as(as = "T")]` becomes `#[serde(with = "::serde_with::As::<T>")]`.
use proc_macro::TokenStream;
use quote::{quote, ToTokens};
use syn::{parse_macro_input, visit_mut::VisitMut, Item, LitStr, Type};

struct Infer;
impl VisitMut for Infer {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Infer(_) = t { *t = syn::parse_quote!(::serde_with::Same); return; }
        syn::visit_mut::visit_type_mut(self, t);
    }
}
#[proc_macro_attribute]
pub fn serde_as(_a: TokenStream, input: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(input as Item);
    if let Item::Struct(s) = &mut item {
        for f in s.fields.iter_mut() {
            for a in f.attrs.iter_mut() {
                if !a.path().is_ident("serde_as") { continue; }
                let mut ty: Option<LitStr> = None;
                a.parse_nested_meta(|m| { if m.path.is_ident("as") || m.path.get_ident().map(|i| i == "r#as").unwrap_or(false) {
                    ty = Some(m.value()?.parse()?); } Ok(()) }).ok();
                if ty.is_none() {
                    // `as` is a keyword, parse by hand
                    if let syn::Meta::List(l) = &a.meta {
                        for t in l.tokens.clone() { if let proc_macro2::TokenTree::Literal(l) = t {
                            ty = syn::parse2::<LitStr>(l.into_token_stream()).ok(); } }
                    }
                }
                let mut t: Type = ty.expect("serde_as").parse().expect("type");
                Infer.visit_type_mut(&mut t);
                let with = format!("::serde_with::As::<{}>", t.to_token_stream());
                *a = syn::parse_quote!(#[serde(with = #with)]);
            }
        }
    }
    quote!(#item).into()
}
