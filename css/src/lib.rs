//! Harness over the css macro; see /verif/DESIGN.md.  The macro's own source
//! is compiled in, on the real proc-macro2, quote, syn and cssparser; only the
//! compiler's token stream type and syn's entry macro, which exist nowhere but
//! inside the compiler, are replaced below.
#![allow(clippy::all)]
pub mod sheet;

pub mod subject {
    #![allow(dead_code, unused_imports, hidden_glob_reexports)]
    pub mod proc_macro {
        pub struct TokenStream(pub proc_macro2::TokenStream);
        impl From<proc_macro2::TokenStream> for TokenStream {
            fn from(t: proc_macro2::TokenStream) -> Self {
                TokenStream(t)
            }
        }
        impl From<TokenStream> for proc_macro2::TokenStream {
            fn from(t: TokenStream) -> Self {
                t.0
            }
        }
    }
    pub mod syn {
        pub use rsyn::*;
        macro_rules! parse_macro_input_ {
            ($v:ident as $t:ty) => {
                match rsyn::parse2::<$t>($v.0) {
                    Ok(x) => x,
                    Err(e) => return e.to_compile_error().into(),
                }
            };
            ($v:ident) => {
                match rsyn::parse2($v.0) {
                    Ok(x) => x,
                    Err(e) => return e.to_compile_error().into(),
                }
            };
        }
        pub(crate) use parse_macro_input_ as parse_macro_input;
    }
    include!("/repo/async_ui_web_macros/src/css.rs");

    /// What `css!` with this string literal expands to.
    pub fn expand(text: &str) -> proc_macro2::TokenStream {
        let lit = proc_macro2::TokenTree::from(proc_macro2::Literal::string(text));
        css_macro(proc_macro::TokenStream(lit.into())).0
    }
}

nd::entries! {
    sheet::selectors as css_selectors(pieces, wrap);
    sheet::rules as css_rules(n, depth, decls);
    sheet::text as css_text(place, holes);
}
