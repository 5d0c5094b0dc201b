//! The simulated heap: a global allocator that knows which requests are made by library code, can fail
//! them on demand, shifts addresses, and detects wrong, double and overflowing releases.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

const LIVE: u64 = 0x51b1_c0de_a11a_c8ed;
const FREED: u64 = 0xdead_f4ee_dead_f4ee;
const CANARY: u64 = 0x7e57_ca4a_4c3b_9911;

thread_local! {
    /// what is executing on this thread: 0 harness, 1 library code, 2 construction of inputs
    pub static IN_LIB: Cell<u8> = const { Cell::new(0) };
    /// requests made by library code in the current call
    pub static LIB_ALLOCS: Cell<u32> = const { Cell::new(0) };
    /// bytes requested by library code in the current call
    pub static LIB_BYTES: Cell<u64> = const { Cell::new(0) };
    /// bytes requested while the input was built
    pub static GEN_BYTES: Cell<u64> = const { Cell::new(0) };
    /// where the stack was when the current call began (0: no call), and how deep it went since
    pub static STACK_BASE: Cell<usize> = const { Cell::new(0) };
    pub static STACK_MAX: Cell<usize> = const { Cell::new(0) };
    /// bytes moved by library code in the current call, if counted
    pub static MOVED: Cell<u64> = const { Cell::new(0) };
    /// processor time when the current call began
    pub static BEGAN: Cell<u64> = const { Cell::new(0) };
    /// blocks requested by library code or for its inputs, and not yet released
    pub static LIB_BLOCKS: Cell<i64> = const { Cell::new(0) };
    /// fail the n-th next library request (0 = off); u32::MAX = fail every one
    pub static FAIL_AT: Cell<u32> = const { Cell::new(0) };
    pub static FAILED: Cell<u32> = const { Cell::new(0) };
    /// heap misuse detected: bit set of `BAD_*`
    pub static HEAP_BAD: Cell<u32> = const { Cell::new(0) };
    /// the call in progress runs inside a destructor that runs because of a panic of another call
    pub static IN_UNWIND: Cell<bool> = const { Cell::new(false) };
    /// the call in progress has panicked
    pub static THROWN: Cell<bool> = const { Cell::new(false) };
    /// address variation
    pub static SALT: Cell<u64> = const { Cell::new(0) };
}

pub const BAD_DOUBLE_FREE: u32 = 1;
pub const BAD_FREE: u32 = 2;
pub const BAD_LAYOUT: u32 = 4;
pub const BAD_OVERFLOW: u32 = 8;

pub struct SimAlloc;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    align: u32,
    lib: u32,
    offset: u64,
}

const HDR: usize = 32;

fn round_up(x: usize, a: usize) -> usize {
    (x + a - 1) & !(a - 1)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let lib = IN_LIB.try_with(|c| c.get()).unwrap_or(0);
        if lib == 1 {
            LIB_ALLOCS.with(|c| c.set(c.get() + 1));
            LIB_BYTES.with(|c| c.set(c.get() + l.size() as u64));
            let fail = FAIL_AT.with(|c| {
                let n = c.get();
                if n == u32::MAX {
                    return true;
                }
                if n > 0 {
                    c.set(n - 1);
                }
                n == 1
            });
            if fail && !unwinding() {
                FAILED.with(|c| c.set(c.get() + 1));
                return std::ptr::null_mut();
            }
        }
        if lib == 2 {
            GEN_BYTES.with(|c| c.set(c.get() + l.size() as u64));
        }
        let align = l.align().max(16);
        let salt = SALT
            .try_with(|c| {
                let mut s = c.get();
                if s == 0 {
                    return 0;
                }
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                c.set(s);
                (s >> 33) as usize % 6
            })
            .unwrap_or(0);
        let offset = round_up(HDR + salt * 16, align);
        let total = offset + l.size() + 8;
        let base = System.alloc(Layout::from_size_align_unchecked(total, align));
        if base.is_null() {
            return base;
        }
        let user = base.add(offset);
        (user.sub(HDR) as *mut Header).write_unaligned(Header {
            magic: LIVE,
            size: l.size() as u64,
            align: l.align() as u32,
            lib: lib as u32,
            offset: offset as u64,
        });
        user.write_bytes(0xa5, l.size());
        (user.add(l.size()) as *mut u64).write_unaligned(CANARY);
        if lib != 0 {
            LIB_BLOCKS.with(|c| c.set(c.get() + 1));
        }
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let hp = user.sub(HDR) as *mut Header;
        let h = hp.read_unaligned();
        let bad = |b: u32| {
            let _ = HEAP_BAD.try_with(|c| c.set(c.get() | b));
        };
        if h.magic == FREED {
            bad(BAD_DOUBLE_FREE);
            return;
        }
        if h.magic != LIVE {
            bad(BAD_FREE);
            return;
        }
        if h.size != l.size() as u64 || h.align != l.align() as u32 {
            bad(BAD_LAYOUT);
        }
        let size = h.size as usize;
        if (user.add(size) as *const u64).read_unaligned() != CANARY {
            bad(BAD_OVERFLOW);
        }
        if h.lib != 0 {
            let _ = LIB_BLOCKS.try_with(|c| c.set(c.get() - 1));
        }
        (*hp).magic = FREED;
        user.write_bytes(0xdd, size);
        let align = (h.align as usize).max(16);
        System.dealloc(
            user.sub(h.offset as usize),
            Layout::from_size_align_unchecked(h.offset as usize + size + 8, align),
        );
    }
}

/// Is the call in progress being unwound?
pub fn unwinding() -> bool {
    if IN_UNWIND.get() {
        THROWN.get()
    } else {
        std::thread::panicking()
    }
}

pub type Snapshot = (u32, i64, u32, u32, bool, bool, u64, u64, usize, usize, u64, u64);

/// The ledger of the call in progress, put aside while another call runs inside a callback.
pub fn snapshot() -> Snapshot {
    let s = (LIB_ALLOCS.get(), LIB_BLOCKS.get(), FAIL_AT.get(), FAILED.get(), IN_UNWIND.get(), THROWN.get(), LIB_BYTES.get(), GEN_BYTES.get(), STACK_BASE.get(), STACK_MAX.get(), MOVED.get(), BEGAN.get());
    STACK_BASE.set(0);
    IN_UNWIND.set(std::thread::panicking());
    THROWN.set(false);
    FAIL_AT.set(0);
    s
}
pub fn restore(s: Snapshot) {
    LIB_ALLOCS.set(s.0);
    LIB_BLOCKS.set(s.1);
    FAIL_AT.set(s.2);
    FAILED.set(s.3);
    IN_UNWIND.set(s.4);
    THROWN.set(s.5);
    LIB_BYTES.set(s.6);
    GEN_BYTES.set(s.7);
    STACK_BASE.set(s.8);
    STACK_MAX.set(s.9);
    MOVED.set(s.10);
    BEGAN.set(s.11);
}

// ---------------------------------------------------------------- work without callbacks

/// are the bytes library code moves counted?
pub static COUNTING: AtomicBool = AtomicBool::new(false);
static REAL_MOVE: AtomicUsize = AtomicUsize::new(0);
static REAL_COPY: AtomicUsize = AtomicUsize::new(0);
type Mover = unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8;

/// To be called once, before threads are started.
pub fn count_moves() {
    extern "C" {
        fn dlsym(handle: *mut u8, name: *const std::ffi::c_char) -> *mut u8;
    }
    let next = usize::MAX as *mut u8;
    unsafe {
        REAL_MOVE.store(dlsym(next, c"memmove".as_ptr()) as usize, Relaxed);
        REAL_COPY.store(dlsym(next, c"memcpy".as_ptr()) as usize, Relaxed);
    }
    COUNTING.store(true, Relaxed);
}

#[inline(always)]
fn moved(n: usize) {
    if COUNTING.load(Relaxed) && IN_LIB.get() == 1 {
        MOVED.set(MOVED.get() + n as u64);
    }
}

#[no_mangle]
unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    moved(n);
    match REAL_MOVE.load(Relaxed) {
        0 if (to as usize).wrapping_sub(from as usize) >= n => forward(to, from, n),
        0 => {
            std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") to.add(n).wrapping_sub(1) => _,
                inout("rsi") from.add(n).wrapping_sub(1) => _, options(nostack));
            to
        }
        f => std::mem::transmute::<usize, Mover>(f)(to, from, n),
    }
}

#[no_mangle]
unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    moved(n);
    match REAL_COPY.load(Relaxed) {
        0 => forward(to, from, n),
        f => std::mem::transmute::<usize, Mover>(f)(to, from, n),
    }
}

unsafe fn forward(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
    to
}

/// processor time of this thread in microseconds
pub fn cpu_time() -> u64 {
    if !COUNTING.load(Relaxed) {
        return 0;
    }
    let mut ts = [0i64; 2];
    unsafe { std::arch::asm!("syscall", inlateout("rax") 228i64 => _, in("rdi") 3, in("rsi") ts.as_mut_ptr(), lateout("rcx") _, lateout("r11") _, options(nostack)) };
    ts[0] as u64 * 1_000_000 + ts[1] as u64 / 1000
}
