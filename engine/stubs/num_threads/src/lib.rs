pub fn num_threads() -> Option<core::num::NonZeroUsize> { None }
pub fn is_single_threaded() -> Option<bool> { None }
