//! The code under test is compiled so that its atomic operations (its locks, counters and one-time
//! initialisations among them) are calls of these functions: each is a place where the scheduler may
//! take the processor away.
use crate::sched;
use std::sync::atomic::{fence, Ordering::SeqCst};

macro_rules! ops {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $nand:ident, $or:ident, $xor:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t {
            sched::atomic();
            <$a>::from_ptr(p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            sched::atomic();
            <$a>::from_ptr(p).store(v, SeqCst)
        }
        ops!(@rmw $t, $a, $xchg, swap);
        ops!(@rmw $t, $a, $add, fetch_add);
        ops!(@rmw $t, $a, $sub, fetch_sub);
        ops!(@rmw $t, $a, $and, fetch_and);
        ops!(@rmw $t, $a, $nand, fetch_nand);
        ops!(@rmw $t, $a, $or, fetch_or);
        ops!(@rmw $t, $a, $xor, fetch_xor);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _: i32, _: i32) -> $t {
            sched::atomic();
            match <$a>::from_ptr(p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    };
    (@rmw $t:ty, $a:ty, $name:ident, $op:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *mut $t, v: $t, _: i32) -> $t {
            sched::atomic();
            <$a>::from_ptr(p).$op(v, SeqCst)
        }
    };
}

use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8};
ops!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_nand, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_compare_exchange_val);
ops!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_nand, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_compare_exchange_val);
ops!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_nand, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_compare_exchange_val);
ops!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_nand, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    sched::atomic();
    fence(SeqCst);
}

#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

#[no_mangle]
pub extern "C" fn __tsan_init() {}
