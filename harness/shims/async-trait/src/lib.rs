//! Stand-in for async-trait: async methods become ones that return a boxed future.
use proc_macro::TokenStream;
use quote::quote;
use syn::visit_mut::VisitMut;
use syn::*;

struct Name;
impl VisitMut for Name {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(parse_quote!('life));
        }
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_receiver_mut(&mut self, r: &mut Receiver) {
        if let Some((_, l)) = &mut r.reference {
            if l.is_none() {
                *l = Some(parse_quote!('life));
            }
        }
        visit_mut::visit_receiver_mut(self, r);
    }
}
fn change(sig: &mut Signature) -> bool {
    if sig.asyncness.take().is_none() {
        return false;
    }
    for a in sig.inputs.iter_mut() {
        Name.visit_fn_arg_mut(a);
    }
    let out: Type = match &sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    sig.output = parse_quote!(-> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #out> + ::std::marker::Send + 'life>>);
    sig.generics.params.insert(0, parse_quote!('life));
    true
}
#[proc_macro_attribute]
pub fn async_trait(_a: TokenStream, item: TokenStream) -> TokenStream {
    match parse_macro_input!(item as Item) {
        Item::Trait(mut t) => {
            for i in t.items.iter_mut() {
                if let TraitItem::Fn(f) = i {
                    if change(&mut f.sig) {
                        if let Some(b) = &f.default {
                            f.default = Some(parse_quote!({ ::std::boxed::Box::pin(async move #b) }));
                        }
                    }
                }
            }
            quote!(#t).into()
        }
        Item::Impl(mut t) => {
            for i in t.items.iter_mut() {
                if let ImplItem::Fn(f) = i {
                    if change(&mut f.sig) {
                        let b = &f.block;
                        f.block = parse_quote!({ ::std::boxed::Box::pin(async move #b) });
                    }
                }
            }
            quote!(#t).into()
        }
        x => quote!(#x).into(),
    }
}
