use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, Fields, Index};
fn fields(i: &DeriveInput) -> &Fields {
    match &i.data {
        Data::Struct(s) => &s.fields,
        _ => panic!("only structs"),
    }
}
#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(t: TokenStream) -> TokenStream {
    let i: DeriveInput = syn::parse(t).unwrap();
    let n = &i.ident;
    let (g, tg, w) = i.generics.split_for_impl();
    let names: Vec<_> = fields(&i)
        .iter()
        .enumerate()
        .map(|(k, f)| match &f.ident {
            Some(x) => quote!(#x),
            None => {
                let k = Index::from(k);
                quote!(#k)
            }
        })
        .collect();
    quote! {
        impl #g ark_serialize::CanonicalSerialize for #n #tg #w {
            fn serialize<W: std::io::Write>(&self, mut w: W) -> Result<(), ark_serialize::SerializationError> {
                #(ark_serialize::CanonicalSerialize::serialize(&self.#names, &mut w)?;)*
                Ok(())
            }
            fn serialized_size(&self) -> usize {
                0 #(+ ark_serialize::CanonicalSerialize::serialized_size(&self.#names))*
            }
            fn serialize_uncompressed<W: std::io::Write>(&self, mut w: W) -> Result<(), ark_serialize::SerializationError> {
                #(ark_serialize::CanonicalSerialize::serialize_uncompressed(&self.#names, &mut w)?;)*
                Ok(())
            }
            fn uncompressed_size(&self) -> usize {
                0 #(+ ark_serialize::CanonicalSerialize::uncompressed_size(&self.#names))*
            }
        }
    }
    .into()
}
#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(t: TokenStream) -> TokenStream {
    let i: DeriveInput = syn::parse(t).unwrap();
    let n = &i.ident;
    let (g, tg, w) = i.generics.split_for_impl();
    let build = |m: &str| {
        let m = syn::Ident::new(m, proc_macro2::Span::call_site());
        match fields(&i) {
            Fields::Named(f) => {
                let k: Vec<_> = f.named.iter().map(|f| &f.ident).collect();
                quote!(#n { #(#k: ark_serialize::CanonicalDeserialize::#m(&mut r)?),* })
            }
            Fields::Unnamed(f) => {
                let k = f.unnamed.iter().map(|_| quote!(ark_serialize::CanonicalDeserialize::#m(&mut r)?));
                quote!(#n(#(#k),*))
            }
            Fields::Unit => quote!(#n),
        }
    };
    let (a, b, c) = (build("deserialize"), build("deserialize_uncompressed"), build("deserialize_unchecked"));
    quote! {
        impl #g ark_serialize::CanonicalDeserialize for #n #tg #w {
            fn deserialize<R: std::io::Read>(mut r: R) -> Result<Self, ark_serialize::SerializationError> {
                Ok(#a)
            }
            fn deserialize_uncompressed<R: std::io::Read>(mut r: R) -> Result<Self, ark_serialize::SerializationError> {
                Ok(#b)
            }
            fn deserialize_unchecked<R: std::io::Read>(mut r: R) -> Result<Self, ark_serialize::SerializationError> {
                Ok(#c)
            }
        }
    }
    .into()
}
