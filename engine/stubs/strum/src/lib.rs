pub use strum_macros::*;
