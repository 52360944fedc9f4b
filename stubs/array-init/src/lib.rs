//! Stands in for the crate of this name, which is not available offline
pub fn array_init<T, const N: usize>(f: impl FnMut(usize) -> T) -> [T; N] { std::array::from_fn(f) }
