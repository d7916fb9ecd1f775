//! What a project sees that depends on hooq under another name. Its helpers
//! leave a mark, so that the expanded code tells which name was used.
pub use hooq::hooq;

#[macro_export]
#[doc(hidden)]
macro_rules! __marked {
    ($($t:tt)*) => { ::core::concat!("<by the other name> ", ::core::stringify!($($t)*)) };
}

pub mod source_excerpt_helpers {
    pub use crate::__marked as truncate_lit_str;
    pub use crate::__marked as pretty_stringify;
    pub use crate::__marked as one_line_stringify;
    pub use crate::__marked as excerpted_pretty_stringify;
}
