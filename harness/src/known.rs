//! Replays the recorded known findings, each identified by its exact input.
use crate::run::*;
use proc_macro2::{Spacing, TokenStream, TokenTree};
use quote::ToTokens;

/// `r` is the text after `property=<id> `: "input=`..` <what fails>"
pub fn still_fails(r: &str) -> bool {
    let input = r.split('`').nth(1).unwrap_or("");
    if r.starts_with("call=") {
        // GenericParam::bounded_lifetime
        let t = venial::GenericParam::bounded_lifetime("a", vec![]).to_token_stream();
        return matches!(t.into_iter().next(), Some(TokenTree::Punct(p)) if p.spacing() == Spacing::Alone);
    }
    let Ok(ts) = input.parse::<TokenStream>() else { return false };
    match parse(ts) {
        P::Panic(_) | P::Err(_) => true,
        P::Item(i) => match &*i {
            venial::Item::Impl(m) => m.trait_ty.is_some() && r.contains("misparsed"),
            _ => false,
        },
    }
}
