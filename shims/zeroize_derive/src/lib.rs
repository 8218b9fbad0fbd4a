//! Stand-in for zeroize_derive (structs only).
use proc_macro::TokenStream;
use quote::quote;
fn fields(i: &syn::DeriveInput) -> Vec<syn::Member> {
    match &i.data {
        syn::Data::Struct(s) => s.fields.members().collect(),
        _ => vec![],
    }
}
#[proc_macro_derive(Zeroize, attributes(zeroize))]
pub fn zeroize(t: TokenStream) -> TokenStream {
    let i = syn::parse_macro_input!(t as syn::DeriveInput);
    let (n, f) = (&i.ident, fields(&i));
    let (g, ty, w) = i.generics.split_for_impl();
    quote!(impl #g ::zeroize::Zeroize for #n #ty #w { fn zeroize(&mut self) { #(::zeroize::Zeroize::zeroize(&mut self.#f);)* } }).into()
}
#[proc_macro_derive(ZeroizeOnDrop, attributes(zeroize))]
pub fn zeroize_on_drop(t: TokenStream) -> TokenStream {
    let i = syn::parse_macro_input!(t as syn::DeriveInput);
    let (n, f) = (&i.ident, fields(&i));
    let (g, ty, w) = i.generics.split_for_impl();
    quote!(impl #g Drop for #n #ty #w { fn drop(&mut self) { #(::zeroize::Zeroize::zeroize(&mut self.#f);)* } }
           impl #g ::zeroize::ZeroizeOnDrop for #n #ty #w {}).into()
}
