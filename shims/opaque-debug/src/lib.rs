#[macro_export]
macro_rules! implement {
    ($s:ident < $($g:ident),* >) => {
        impl<$($g),*> ::core::fmt::Debug for $s<$($g),*> {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.write_str(concat!(stringify!($s), " { ... }"))
            }
        }
    };
    ($struct:ty) => {
        impl ::core::fmt::Debug for $struct {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.write_str(concat!(stringify!($struct), " { ... }"))
            }
        }
    };
}
