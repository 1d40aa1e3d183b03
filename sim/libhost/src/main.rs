//! A program that embeds the compiler library. It executes requests read from stdin: groups of threads that each make
//! a sequence of calls, under the scheduler and the simulated sources of thr.c (which has to be preloaded).
extern crate packetc_lib as pkt;

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicUsize, Ordering};

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn alarm(seconds: u32) -> u32;
}

static YIELD: AtomicUsize = AtomicUsize::new(0);

struct Yielding;
fn point() {
    let f = YIELD.load(Ordering::Relaxed);
    if f != 0 {
        let f: extern "C" fn() = unsafe { std::mem::transmute(f) };
        f();
    }
}
unsafe impl GlobalAlloc for Yielding {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        point();
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        point();
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        point();
        System.realloc(ptr, layout, size)
    }
}
#[global_allocator]
static ALLOCATOR: Yielding = Yielding;

fn symbol(name: &str) -> *mut c_void {
    let p = unsafe { dlsym(std::ptr::null_mut(), name.as_ptr() as *const c_char) };
    assert!(!p.is_null(), "thr.so is not loaded");
    p
}

struct Thread {
    hash: u64,
    sec: i64,
    nsec: i64,
    calls: Vec<Vec<u8>>,
}

type Begin = extern "C" fn(c_int, u64, i64, i64);
type Enter = extern "C" fn(c_int, u64, i64, i64);
type Exit = extern "C" fn();
type Stats = extern "C" fn(*mut u64);

fn call(text: &[u8]) -> (u8, Vec<u8>) {
    let text = match std::str::from_utf8(text) {
        Ok(text) => text,
        Err(_) => return (3, Vec::new()),
    };
    match std::panic::catch_unwind(|| pkt::compile::<pkt::gen::ts::TypeScript>(text)) {
        Ok(Ok(out)) => (0, out.into_bytes()),
        Ok(Err(err)) => (1, err.to_string().into_bytes()),
        Err(what) => {
            let msg = match (what.downcast_ref::<String>(), what.downcast_ref::<&str>()) {
                (Some(s), _) => s.clone(),
                (_, Some(s)) => s.to_string(),
                _ => String::new(),
            };
            (2, msg.into_bytes())
        }
    }
}

struct Input<R: Read>(R);
impl<R: Read> Input<R> {
    fn u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        if self.0.read_exact(&mut b).is_err() {
            std::process::exit(0);
        }
        u64::from_le_bytes(b)
    }
    fn bytes(&mut self) -> Vec<u8> {
        let mut b = vec![0u8; self.u64() as usize];
        self.0.read_exact(&mut b).unwrap();
        b
    }
}

fn main() {
    let begin: Begin = unsafe { std::mem::transmute(symbol("thr_begin\0")) };
    let enter: Enter = unsafe { std::mem::transmute(symbol("thr_enter\0")) };
    let exit: Exit = unsafe { std::mem::transmute(symbol("thr_exit\0")) };
    let stats: Stats = unsafe { std::mem::transmute(symbol("thr_stats\0")) };
    YIELD.store(symbol("thr_yield\0") as usize, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|_| {}));
    let mut input = Input(std::io::BufReader::new(std::io::stdin()));
    let mut output = std::io::stdout();
    loop {
        let groups = input.u64();
        let mut reply = Vec::new();
        unsafe { alarm(25) };
        for _ in 0..groups {
            let (seed, mean, budget, n) = (input.u64(), input.u64() as i64, input.u64() as i64, input.u64() as usize);
            let threads: Vec<Thread> = (0..n)
                .map(|_| {
                    let (hash, sec, nsec, calls) = (input.u64(), input.u64() as i64, input.u64() as i64, input.u64());
                    Thread { hash, sec, nsec, calls: (0..calls).map(|_| input.bytes()).collect() }
                })
                .collect();
            begin(n as c_int, seed, mean, budget);
            let handles: Vec<_> = threads
                .into_iter()
                .enumerate()
                .map(|(i, t)| {
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn(move || {
                            let mut results = Vec::with_capacity(t.calls.len());
                            enter(i as c_int, t.hash, t.sec, t.nsec);
                            for text in t.calls.iter() {
                                results.push(call(text));
                            }
                            exit();
                            results
                        })
                        .unwrap()
                })
                .collect();
            for h in handles {
                for (status, bytes) in h.join().unwrap() {
                    reply.push(status);
                    reply.extend_from_slice(&(bytes.len() as u64).to_le_bytes());
                    reply.extend_from_slice(&bytes);
                }
            }
            let mut s = [0u64; 4];
            stats(s.as_mut_ptr());
            for v in s.iter() {
                reply.extend_from_slice(&v.to_le_bytes());
            }
        }
        unsafe { alarm(0) };
        let mut out = (reply.len() as u64).to_le_bytes().to_vec();
        out.extend_from_slice(&reply);
        if output.write_all(&out).and_then(|()| output.flush()).is_err() {
            return;
        }
    }
}
