//! What a harness uses to talk to its environment.
//!
//! On wasm32 the functions are imports that the symbolic executor implements:
//! `fresh` returns a new symbolic value, `check` asks the solver whether the
//! condition can be false on the current path, and so on. On other targets
//! the same harness runs concretely: `fresh` takes the next recorded input,
//! and observations are logged so that they can be compared with the
//! executor's.
#![allow(clippy::all)]

#[cfg(target_arch = "wasm32")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout};
    mod i {
        #[link(wasm_import_module = "nd")]
        extern "C" {
            pub fn fresh(lo: u32, hi: u32) -> u32;
            pub fn assume(c: u32);
            pub fn check(c: u32, p: *const u8, n: usize);
            pub fn cover(id: u32);
            pub fn trace(v: u64);
            pub fn concretize(v: u32) -> u32;
            pub fn alloc(size: usize, align: usize) -> *mut u8;
            pub fn free(p: *mut u8, size: usize, align: usize);
            pub fn realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8;
            pub fn allow_panic(on: u32);
            pub fn live() -> u32;
            pub fn end() -> !;
            pub fn fail(p: *const u8, n: usize) -> !;
        }
    }
    pub struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            i::alloc(l.size(), l.align())
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            i::free(p, l.size(), l.align())
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            i::realloc(p, l.size(), l.align(), n)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            // memory handed out by the executor is never reused and starts zeroed
            i::alloc(l.size(), l.align())
        }
    }
    #[global_allocator]
    static ALLOC: A = A;
    pub fn fresh(lo: u32, hi: u32) -> u32 {
        unsafe { i::fresh(lo, hi) }
    }
    pub fn assume(c: bool) {
        unsafe { i::assume(c as u32) }
    }
    pub fn check(c: bool, m: &str) {
        unsafe { i::check(c as u32, m.as_ptr(), m.len()) }
    }
    pub fn cover(id: u32) {
        unsafe { i::cover(id) }
    }
    pub fn trace(v: u64) {
        unsafe { i::trace(v) }
    }
    pub fn concretize(v: u32) -> u32 {
        unsafe { i::concretize(v) }
    }
    pub fn allow_panic(on: bool) {
        unsafe { i::allow_panic(on as u32) }
    }
    pub fn live() -> u32 {
        unsafe { i::live() }
    }
    pub fn end() -> ! {
        unsafe { i::end() }
    }
    pub fn fail(m: &str) -> ! {
        unsafe { i::fail(m.as_ptr(), m.len()) }
    }
}

#[cfg(not(target_arch = "wasm32"))]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::{Cell, RefCell};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

    // Every allocation gets pages of its own, is placed at their end, and is
    // made inaccessible when freed: use after free and overruns fault.
    extern "C" {
        fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    }
    pub struct A;
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    const LIMIT: usize = 12_000;
    const PAGE: usize = 4096;
    fn pages(l: Layout) -> usize {
        (l.size() + PAGE - 1) / PAGE * PAGE
    }
    fn fenced(p: *mut u8, l: Layout) -> bool {
        // fenced blocks are preceded, within their first page, by a zero gap
        // and live in the arena recorded here
        let a = p as usize;
        let lo = LO.load(Relaxed);
        let hi = HI.load(Relaxed);
        let _ = l;
        a >= lo && a < hi
    }
    static LO: AtomicUsize = AtomicUsize::new(0);
    static HI: AtomicUsize = AtomicUsize::new(0);
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    const ARENA: usize = 8 << 30;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, Relaxed);
            let n = COUNT.fetch_add(1, Relaxed);
            if n >= LIMIT || l.align() > PAGE || l.size() > 1 << 20 {
                return System.alloc(l);
            }
            if LO.load(Relaxed) == 0 {
                // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
                let b = mmap(std::ptr::null_mut(), ARENA, 0, 0x2 | 0x20 | 0x4000, -1, 0);
                if b as isize == -1 {
                    return System.alloc(l);
                }
                LO.store(b as usize, Relaxed);
                HI.store(b as usize + ARENA, Relaxed);
                NEXT.store(b as usize, Relaxed);
            }
            let sz = pages(l);
            let a = NEXT.fetch_add(sz + PAGE, Relaxed);
            if a + sz + PAGE > HI.load(Relaxed) || mprotect(a as *mut u8, sz, 3) != 0 {
                return System.alloc(l);
            }
            ((a + sz - l.size()) / l.align() * l.align()) as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(1, Relaxed);
            if !fenced(p, l) {
                return System.dealloc(p, l);
            }
            // touch it first: a double free faults here
            std::ptr::read_volatile(p);
            let sz = pages(l);
            mprotect((p as usize / PAGE * PAGE) as *mut u8, sz, 0);
        }
    }
    #[global_allocator]
    static ALLOC: A = A;

    thread_local! {
        pub static INPUTS: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
        pub static POS: Cell<usize> = const { Cell::new(0) };
        pub static LOG: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
        pub static ALLOWED: Cell<bool> = const { Cell::new(false) };
    }
    pub struct End;
    pub fn fresh(lo: u32, hi: u32) -> u32 {
        let p = POS.get();
        POS.set(p + 1);
        let v = INPUTS.with_borrow(|i| i.get(p).copied());
        match v {
            Some(v) if v >= lo as u64 && v <= hi as u64 => v as u32,
            _ => panic!("REPLAY: no recorded input {p} in {lo}..={hi} ({v:?})"),
        }
    }
    pub fn assume(c: bool) {
        if !c {
            panic!("REPLAY: assumption does not hold");
        }
    }
    pub fn check(c: bool, m: &str) {
        if !c {
            fail(m)
        }
    }
    pub fn cover(_: u32) {}
    pub fn trace(v: u64) {
        LOG.with_borrow_mut(|l| l.push(v));
    }
    pub fn concretize(v: u32) -> u32 {
        v
    }
    pub fn allow_panic(on: bool) {
        ALLOWED.set(on)
    }
    pub fn live() -> u32 {
        LIVE.load(Relaxed) as u32
    }
    pub fn end() -> ! {
        std::panic::resume_unwind(Box::new(End))
    }
    pub fn fail(m: &str) -> ! {
        // assertions of other properties only cut the run short
        if let (Ok(only), Some(t)) = (std::env::var("ND_ONLY"), m.strip_prefix('[')) {
            if t.split_once(']').is_some_and(|t| !t.0.split(' ').any(|t| t == only)) {
                panic!("REPLAY: assumption does not hold")
            }
        }
        panic!("CHECK: {m}")
    }
    /// Run one harness concretely; prints one line of JSON.
    pub fn main(run: fn(&str, &[u32]) -> bool) {
        let a: Vec<String> = std::env::args().collect();
        let nums = |s: &str| -> Vec<u64> {
            s.split(',')
                .filter(|x| !x.is_empty())
                .map(|x| x.parse().unwrap())
                .collect()
        };
        let args: Vec<u32> = nums(&a[2]).iter().map(|&x| x as u32).collect();
        INPUTS.with_borrow_mut(|i| *i = nums(&a[3]));
        // (its first allocation would count as a leak)
        LOG.with_borrow_mut(|l| l.reserve(64));
        let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
        let m2 = msg.clone();
        std::panic::set_hook(Box::new(move |i| {
            let mut m = m2.lock().unwrap();
            if m.is_empty() {
                *m = i.to_string();
                eprintln!("{m}");
            }
        }));
        let entry = a[1].clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&entry, &args)));
        let msg = msg.lock().unwrap().clone();
        let out = match r {
            Ok(true) => "ok",
            Ok(false) => "unknown-entry",
            Err(e) if e.is::<End>() => "ok",
            Err(_) if msg.contains("REPLAY:") => "diverged",
            Err(_) if msg.contains("CHECK:") => "check",
            Err(_) if ALLOWED.get() => "allowed-panic",
            Err(_) => "panic",
        };
        let log = LOG.with_borrow(|l| {
            l.iter()
                .map(|x| x.to_string())
                .collect::<Vec<_>>()
                .join(",")
        });
        let esc: String = msg
            .chars()
            .map(|c| match c {
                '"' | '\\' => '\'',
                c if (c as u32) < 32 => ' ',
                c => c,
            })
            .collect();
        println!(
            "{{\"outcome\":\"{out}\",\"used\":{},\"log\":[{log}],\"msg\":\"{esc}\"}}",
            POS.get()
        );
        use std::io::Write;
        let _ = std::io::stdout().flush();
        // skip destructors of whatever the run left behind
        unsafe {
            extern "C" {
                fn _exit(c: i32) -> !;
            }
            _exit(0)
        }
    }
}
pub use imp::*;

/// A symbolic boolean.
pub fn any_bool() -> bool {
    fresh(0, 1) == 1
}
/// A symbolic value in `lo..=hi`, fixed to one concrete value per path (the
/// executor splits the path for every value the solver finds feasible).
pub fn pick(lo: u32, hi: u32) -> u32 {
    concretize(fresh(lo, hi))
}
/// Declares the harness entry points: exports for wasm32 and a name lookup
/// for the native replay.
#[macro_export]
macro_rules! entries {
    ($($f:path as $n:ident ($($a:ident),*);)*) => {
        #[cfg(target_arch = "wasm32")]
        mod exported { use super::*; $(
            #[no_mangle]
            pub extern "C" fn $n($($a: u32),*) { $f($($a),*) }
        )* }
        pub fn run(name: &str, args: &[u32]) -> bool {
            $( if name == stringify!($n) {
                let mut _it = args.iter().copied();
                $( let $a = _it.next().unwrap(); )*
                $f($($a),*);
                return true;
            } )*
            false
        }
    };
}
