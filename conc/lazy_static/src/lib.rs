//! `lazy_static` over the scheduled once-cell
#[doc(hidden)]
pub use vstd::sync::OnceLock;
pub trait LazyStatic {
    fn initialize(lazy: &Self);
}
pub fn initialize<T: LazyStatic>(lazy: &T) {
    LazyStatic::initialize(lazy)
}
#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* $v:vis static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        #[allow(missing_copy_implementations, non_camel_case_types, dead_code)]
        $(#[$a])*
        $v struct $N { __private_field: () }
        #[doc(hidden)]
        $v static $N: $N = $N { __private_field: () };
        impl ::core::ops::Deref for $N {
            type Target = $T;
            fn deref(&self) -> &$T {
                static CELL: $crate::OnceLock<$T> = $crate::OnceLock::new();
                CELL.get_or_init(|| $e)
            }
        }
        impl $crate::LazyStatic for $N {
            fn initialize(lazy: &Self) {
                let _ = &**lazy;
            }
        }
        $crate::lazy_static!($($t)*);
    };
    () => ()
}
