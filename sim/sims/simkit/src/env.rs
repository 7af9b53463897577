//! Randomness and clock seams: the process-wide entry points std uses are answered from the
//! running simulation (per thread) and from the real system outside one.
use std::cell::Cell;
thread_local! {
	static RNG: Cell<Option<u64>> = Cell::new(None);
	static CLOCK_NS: Cell<Option<u64>> = Cell::new(None);
	static MANUAL: Cell<bool> = Cell::new(false);
}
pub fn begin_run(seed: u64) {
	RNG.with(|r| r.set(Some(seed ^ 0xabcdef)));
	CLOCK_NS.with(|c| c.set(Some(1_700_000_000_000_000_000)));
}
/// from here on the clock only moves by `advance_ns`
pub fn manual_clock() {
	MANUAL.with(|m| m.set(true));
}
pub fn end_run() {
	MANUAL.with(|m| m.set(false));
	RNG.with(|r| r.set(None));
	CLOCK_NS.with(|c| c.set(None));
}
pub fn advance_ns(ns: u64) {
	CLOCK_NS.with(|c| c.set(c.get().map(|x| x + ns)));
}
/// every reading is a little later, so that what executes twice sees another time
pub fn sim_clock_ns() -> Option<u64> {
	CLOCK_NS.try_with(|c| { let n = c.get(); c.set(n.map(|x| if MANUAL.with(|m| m.get()) { x } else { x + 7_000_003 })); n }).ok().flatten()
}
pub fn sim_random(buf: &mut [u8]) -> bool {
	RNG.try_with(|r| match r.get() {
		None => false,
		Some(mut s) => {
			for b in buf.iter_mut() {
				s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
				*b = (s >> 56) as u8;
			}
			r.set(Some(s));
			true
		},
	})
	.unwrap_or(false)
}
/// Expands to the interposed libc entry points; used once in each simulation binary.
#[macro_export]
macro_rules! interpose {
	() => {
		#[no_mangle]
		pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
			let s = core::slice::from_raw_parts_mut(buf, len);
			if $crate::env::sim_random(s) {
				return len as isize;
			}
			let r: isize;
			core::arch::asm!("syscall", inlateout("rax") 318isize => r, in("rdi") buf, in("rsi") len, in("rdx") flags as usize, out("rcx") _, out("r11") _);
			r
		}
		#[no_mangle]
		pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
			if let Some(n) = $crate::env::sim_clock_ns() {
				(*ts)[0] = (n / 1_000_000_000) as i64;
				(*ts)[1] = (n % 1_000_000_000) as i64;
				return 0;
			}
			let r: isize;
			core::arch::asm!("syscall", inlateout("rax") 228isize => r, in("rdi") id as isize, in("rsi") ts, out("rcx") _, out("r11") _);
			r as i32
		}
	};
}
