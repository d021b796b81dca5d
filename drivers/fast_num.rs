// stand-in for the part of the num crate that fast64 uses (crates cannot be fetched here)
pub trait Bounded { fn min_value() -> Self; fn max_value() -> Self; }
impl Bounded for u64 { fn min_value() -> u64 { 0 } fn max_value() -> u64 { u64::MAX } }
impl Bounded for u32 { fn min_value() -> u32 { 0 } fn max_value() -> u32 { u32::MAX } }
