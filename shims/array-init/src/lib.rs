//! Offline stand-in for the `array-init` crate (only what pasture-io uses).
pub fn array_init<T, F: FnMut(usize) -> T, const N: usize>(f: F) -> [T; N] {
    std::array::from_fn(f)
}
