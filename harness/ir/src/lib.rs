pub use svh::*;
