//! replay HARNESS PANIC_AT INPUT,...: run one harness with real panics.
#![allow(static_mut_refs)]
use om_unwind::env::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};

struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Count = Count;

fn call(name: &str) {
    include!(env!("OM_NAMES"))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    unsafe {
        INPUTS = a[3].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        // The first panic sets things up for good.
        let _ = std::panic::catch_unwind(|| std::panic::resume_unwind(Box::new(())));
        println!("{}", a[1]);
        std::panic::set_hook(Box::new(|i| println!("PANIC {i}")));
        PANIC_AT = a[2].parse().unwrap();
        let before = LIVE.load(Ordering::Relaxed);
        call(&a[1]);
        let after = LIVE.load(Ordering::Relaxed);
        if after != before && !LEAK_OK {
            println!("VIOLATED memory: {} bytes are leaked", after - before);
            std::process::exit(3);
        }
        println!("PASS panicked={}", PANICKED as u8);
    }
}
