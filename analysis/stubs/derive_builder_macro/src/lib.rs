//! Stand-in for `derive_builder_macro` 0.12: pattern = owned | mutable, derive(..),
//! build_fn(validate = ".."), and per field default / default = "expr" / setter(custom|into|..).
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Expr, Fields, LitStr, Path};

#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let vis = &input.vis;
    let builder = format_ident!("{}Builder", name);
    let error = format_ident!("{}BuilderError", name);
    let mut owned = false;
    let mut derives: Vec<Path> = vec![];
    let mut validate: Option<Path> = None;
    for a in input.attrs.iter().filter(|a| a.path().is_ident("builder")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("pattern") {
                let s: LitStr = m.value()?.parse()?;
                owned = s.value() == "owned";
            } else if m.path.is_ident("derive") {
                m.parse_nested_meta(|d| {
                    derives.push(d.path.clone());
                    Ok(())
                })?;
            } else if m.path.is_ident("build_fn") {
                m.parse_nested_meta(|d| {
                    if d.path.is_ident("validate") {
                        let s: LitStr = d.value()?.parse()?;
                        validate = Some(s.parse()?);
                    } else if d.input.peek(syn::Token![=]) {
                        let _: Expr = d.value()?.parse()?;
                    }
                    Ok(())
                })?;
            } else if m.input.peek(syn::Token![=]) {
                let _: Expr = m.value()?.parse()?;
            } else if m.input.peek(syn::token::Paren) {
                m.parse_nested_meta(|d| {
                    if d.input.peek(syn::Token![=]) {
                        let _: Expr = d.value()?.parse()?;
                    }
                    Ok(())
                })?;
            }
            Ok(())
        })
        .expect("derive_builder stand-in: struct attribute");
    }
    let Data::Struct(s) = &input.data else {
        panic!("only structs")
    };
    let Fields::Named(fields) = &s.fields else {
        panic!("only named fields")
    };
    let mut decls = vec![];
    let mut setters = vec![];
    let mut inits = vec![];
    let mut defaults = vec![];
    for f in &fields.named {
        let id = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        let fvis = &f.vis;
        let mut default: Option<Option<Expr>> = None;
        let mut custom = false;
        let mut into = false;
        for a in f.attrs.iter().filter(|a| a.path().is_ident("builder")) {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("default") {
                    if m.input.peek(syn::Token![=]) {
                        let s: LitStr = m.value()?.parse()?;
                        default = Some(Some(s.parse()?));
                    } else {
                        default = Some(None);
                    }
                } else if m.path.is_ident("setter") {
                    m.parse_nested_meta(|d| {
                        if d.path.is_ident("custom") || d.path.is_ident("skip") {
                            custom = true;
                        } else if d.path.is_ident("into") {
                            into = true;
                        } else if d.input.peek(syn::Token![=]) {
                            let _: Expr = d.value()?.parse()?;
                        }
                        Ok(())
                    })?;
                } else if m.input.peek(syn::Token![=]) {
                    let _: Expr = m.value()?.parse()?;
                }
                Ok(())
            })
            .expect("derive_builder stand-in: field attribute");
        }
        decls.push(quote! { #id: ::std::option::Option<#ty> });
        defaults.push(quote! { #id: ::std::option::Option::None });
        if !custom {
            let (arg, val) = if into {
                (quote! { impl ::std::convert::Into<#ty> }, quote! { value.into() })
            } else {
                (quote! { #ty }, quote! { value })
            };
            let _ = fvis;
            setters.push(if owned {
                quote! {
                    #[allow(dead_code)]
                    #vis fn #id(self, value: #arg) -> Self {
                        let mut new = self;
                        new.#id = ::std::option::Option::Some(#val);
                        new
                    }
                }
            } else {
                quote! {
                    #[allow(dead_code)]
                    #vis fn #id(&mut self, value: #arg) -> &mut Self {
                        let new = self;
                        new.#id = ::std::option::Option::Some(#val);
                        new
                    }
                }
            });
        }
        let missing = match default {
            Some(Some(e)) => quote! { #e },
            Some(None) => quote! { ::std::default::Default::default() },
            None => quote! {
                return ::std::result::Result::Err(#error::UninitializedField(stringify!(#id)))
            },
        };
        let get = if owned {
            quote! { self.#id }
        } else {
            quote! { ::std::clone::Clone::clone(&self.#id) }
        };
        inits.push(quote! {
            #id: match #get {
                ::std::option::Option::Some(value) => value,
                ::std::option::Option::None => { #missing }
            }
        });
    }
    let derive_attr = if derives.is_empty() {
        quote! {}
    } else {
        quote! { #[derive(#(#derives),*)] }
    };
    let clone_attr = if owned {
        quote! {}
    } else {
        quote! { #[derive(Clone)] }
    };
    let selfarg = if owned { quote! { self } } else { quote! { &self } };
    let validate = validate.map(|p| {
        let r = if owned { quote! { &self } } else { quote! { self } };
        quote! { #p(#r).map_err(#error::ValidationError)?; }
    });
    quote! {
        #derive_attr
        #clone_attr
        #vis struct #builder { #(#decls),* }
        impl ::std::default::Default for #builder {
            fn default() -> Self { Self { #(#defaults),* } }
        }
        #[derive(Debug)]
        #[non_exhaustive]
        #vis enum #error {
            UninitializedField(&'static str),
            ValidationError(::std::string::String),
        }
        impl ::std::fmt::Display for #error {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                match self {
                    Self::UninitializedField(n) => write!(f, "`{}` must be initialized", n),
                    Self::ValidationError(e) => write!(f, "{}", e),
                }
            }
        }
        impl ::std::error::Error for #error {}
        impl #builder {
            #(#setters)*
            #[allow(dead_code)]
            #vis fn build(#selfarg) -> ::std::result::Result<#name, #error> {
                #validate
                ::std::result::Result::Ok(#name { #(#inits),* })
            }
        }
    }
    .into()
}
