//! Stand-in for `similar-asserts`.
#[macro_export]
macro_rules! assert_eq {
	($($t:tt)*) => { ::core::assert_eq!($($t)*) };
}
