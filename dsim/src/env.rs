//! libc symbols the simulator interposes (the binary's definitions win over
//! libc's): the clock and the kernel's entropy.
#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

const SYS_CLOCK_GETTIME: i64 = if cfg!(target_arch = "x86_64") { 228 } else { 113 };

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if let Some((s, n)) = simseam::clock(clk) {
        (*ts).sec = s;
        (*ts).nsec = n;
        return 0;
    }
    syscall(SYS_CLOCK_GETTIME, clk as i64, ts) as i32
}

/// Constant: the only consumers are std's hash seeds, which must not differ
/// from run to run.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = 7;
    }
    len as isize
}

/// Real monotonic seconds (never simulated).
pub fn real_secs() -> f64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    unsafe {
        syscall(SYS_CLOCK_GETTIME, 1i64, &mut ts as *mut Timespec);
    }
    ts.sec as f64 + ts.nsec as f64 * 1e-9
}

/// Make a runaway allocation fail instead of taking the machine down.
pub fn limit_memory(bytes: u64) {
    let l = [bytes, bytes];
    unsafe {
        setrlimit(9, &l);
    }
}
