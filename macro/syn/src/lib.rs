//! syn without rustc's proc_macro: what takes or gives rustc's token streams
//! takes or gives those of proc-macro2.
pub use real::*;

#[macro_export]
macro_rules! parse_macro_input {
    ($tokens:ident as $ty:ty) => {
        match $crate::parse2::<$ty>($tokens) {
            Ok(value) => value,
            Err(err) => return err.to_compile_error(),
        }
    };
    ($tokens:ident with $parser:path) => {
        match $crate::parse::Parser::parse2($parser, $tokens) {
            Ok(value) => value,
            Err(err) => return err.to_compile_error(),
        }
    };
    ($tokens:ident) => {
        $crate::parse_macro_input!($tokens as _)
    };
}
