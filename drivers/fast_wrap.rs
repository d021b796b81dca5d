// the library itself, plus C entry points for the portable lookup
#![allow(warnings)]
pub mod fast64 { include!(concat!(env!("VERIF_FAST_DIR"), "/src/lib.rs")); }
use fast64::FAST;
#[no_mangle] pub extern "C" fn slow_fast64(t: *const FAST<u64>, k: u64, o: *mut u64) -> u64 { let t = unsafe { &*t }; let (a, b) = t.slow_lookup(k); unsafe { *o = a; *o.add(1) = b; } t.depth() as u64 }
#[no_mangle] pub extern "C" fn slow_fast32(t: *const FAST<u32>, k: u32, o: *mut u32) -> u64 { let t = unsafe { &*t }; let (a, b) = t.slow_lookup(k); unsafe { *o = a; *o.add(1) = b; } t.depth() as u64 }
