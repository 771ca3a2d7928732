use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn export(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}
#[proc_macro_attribute]
pub fn constructor(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}
macro_rules! d {
    ($n:ident, $f:ident) => {
        #[proc_macro_derive($n, attributes(uniffi))]
        pub fn $f(_i: TokenStream) -> TokenStream {
            TokenStream::new()
        }
    };
}
d!(Record, record);
d!(Object, object);
d!(Error, error);
d!(Enum, enumeration);
