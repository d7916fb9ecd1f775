//! Moves one compiler process from project to project, the way an editor's
//! macro server does, and tells which project it is in.
use proc_macro::{Literal, TokenStream, TokenTree};

/// `cd!("dir")`: what is expanded from here on belongs to the project in `dir`.
#[proc_macro]
pub fn cd(t: TokenStream) -> TokenStream {
    let s = t.to_string();
    let dir = s.trim().trim_matches('"');
    match dir {
        "" => unsafe { std::env::remove_var("CARGO_MANIFEST_DIR") },
        d => unsafe { std::env::set_var("CARGO_MANIFEST_DIR", d) },
    }
    TokenStream::new()
}

/// The project the process is in right now.
#[proc_macro]
pub fn probe(_: TokenStream) -> TokenStream {
    let d = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_default();
    TokenTree::Literal(Literal::string(&d)).into()
}
