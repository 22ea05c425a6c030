mod ecmult;
mod field;
mod group;
mod scalar;
use engine::*;
use std::alloc::{GlobalAlloc, Layout, System};

/// Fresh large allocations hold a pattern, so reads of memory that was never written show up.
struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if l.size() >= 16384 && !p.is_null() { std::ptr::write_bytes(p, 0xa5, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Poison = Poison;

fn main() {
    let run = Run::from_args();
    run.clone().whole(|| match run.prop.as_str() {
        "C14" => scalar::c14(&run),
        "C15" => field::c15(&run),
        "C16" => group::c16(&run),
        "C17" => ecmult::c17(&run),
        "C18" => ecmult::c18(&run),
        _ => { eprintln!("unknown property"); std::process::exit(2) }
    })
}
