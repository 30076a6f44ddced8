use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, ItemFn};

/// Replaces `#[tokio::main]`: keeps the function as written (async, under the
/// name `__sim_inner_main`) and exports `sim_main()`, which returns its future
/// with the outcome rendered by Debug.
#[proc_macro_attribute]
pub fn main(_args: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    f.sig.ident = syn::Ident::new("__sim_inner_main", proc_macro2::Span::call_site());
    quote! {
        #f
        #[doc(hidden)]
        pub fn sim_main() -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = ::std::string::String>>> {
            ::std::boxed::Box::pin(async { ::std::format!("{:?}", __sim_inner_main().await) })
        }
    }
    .into()
}
