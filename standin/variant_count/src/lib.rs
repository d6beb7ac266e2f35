//! Stand-in: `#[derive(VariantCount)]` adds `pub const VARIANT_COUNT: usize`.
use proc_macro::TokenStream;
#[proc_macro_derive(VariantCount)]
pub fn derive(input: TokenStream) -> TokenStream {
	let input = syn::parse_macro_input!(input as syn::DeriveInput);
	let syn::Data::Enum(e) = &input.data else { panic!("VariantCount is for enums") };
	let (n, name) = (e.variants.len(), &input.ident);
	let (a, b, c) = input.generics.split_for_impl();
	quote::quote!(impl #a #name #b #c { pub const VARIANT_COUNT: usize = #n; }).into()
}
