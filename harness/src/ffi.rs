//! The libebur128 C library (renamed symbols) and C shims around the crate's own C API.

use std::os::raw::{c_double, c_int, c_long, c_short, c_uint, c_ulong};

#[repr(C)]
pub struct RefState {
    pub mode: c_int,
    pub channels: c_uint,
    pub samplerate: c_ulong,
    d: *mut u8,
}
pub enum CState {}

extern "C" {
    pub fn ref_ebur128_libinit();
    pub fn ref_ebur128_init(c: c_uint, r: c_ulong, m: c_int) -> *mut RefState;
    pub fn ref_ebur128_destroy(s: *mut *mut RefState);
    pub fn ref_ebur128_set_channel(s: *mut RefState, c: c_uint, v: c_int) -> c_int;
    pub fn ref_ebur128_change_parameters(s: *mut RefState, c: c_uint, r: c_ulong) -> c_int;
    pub fn ref_ebur128_set_max_window(s: *mut RefState, w: c_ulong) -> c_int;
    pub fn ref_ebur128_set_max_history(s: *mut RefState, h: c_ulong) -> c_int;
    pub fn ref_ebur128_add_frames_short(s: *mut RefState, p: *const c_short, n: usize) -> c_int;
    pub fn ref_ebur128_add_frames_int(s: *mut RefState, p: *const c_int, n: usize) -> c_int;
    pub fn ref_ebur128_add_frames_float(s: *mut RefState, p: *const f32, n: usize) -> c_int;
    pub fn ref_ebur128_add_frames_double(s: *mut RefState, p: *const c_double, n: usize) -> c_int;
    pub fn ref_ebur128_loudness_global(s: *mut RefState, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_loudness_global_multiple(s: *mut *mut RefState, n: usize, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_loudness_momentary(s: *mut RefState, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_loudness_shortterm(s: *mut RefState, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_loudness_window(s: *mut RefState, w: c_ulong, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_loudness_range(s: *mut RefState, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_loudness_range_multiple(s: *mut *mut RefState, n: usize, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_sample_peak(s: *mut RefState, c: c_uint, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_prev_sample_peak(s: *mut RefState, c: c_uint, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_true_peak(s: *mut RefState, c: c_uint, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_prev_true_peak(s: *mut RefState, c: c_uint, o: *mut c_double) -> c_int;
    pub fn ref_ebur128_relative_threshold(s: *mut RefState, o: *mut c_double) -> c_int;

    pub fn abi_facts(i: c_int) -> c_long;
    pub fn hc_init(c: c_uint, r: c_ulong, m: c_int) -> *mut CState;
    pub fn hc_destroy(s: *mut *mut CState);
    pub fn hc_get_version(a: *mut c_int, b: *mut c_int, c: *mut c_int);
    pub fn hc_set_channel(s: *mut CState, c: c_uint, v: c_int) -> c_int;
    pub fn hc_change_parameters(s: *mut CState, c: c_uint, r: c_ulong) -> c_int;
    pub fn hc_set_max_window(s: *mut CState, w: c_ulong) -> c_int;
    pub fn hc_set_max_history(s: *mut CState, h: c_ulong) -> c_int;
    pub fn hc_add_short(s: *mut CState, p: *const c_short, n: usize) -> c_int;
    pub fn hc_add_int(s: *mut CState, p: *const c_int, n: usize) -> c_int;
    pub fn hc_add_float(s: *mut CState, p: *const f32, n: usize) -> c_int;
    pub fn hc_add_double(s: *mut CState, p: *const c_double, n: usize) -> c_int;
    pub fn hc_global(s: *mut CState, o: *mut c_double) -> c_int;
    pub fn hc_global_multiple(s: *mut *mut CState, n: usize, o: *mut c_double) -> c_int;
    pub fn hc_momentary(s: *mut CState, o: *mut c_double) -> c_int;
    pub fn hc_shortterm(s: *mut CState, o: *mut c_double) -> c_int;
    pub fn hc_window(s: *mut CState, w: c_ulong, o: *mut c_double) -> c_int;
    pub fn hc_range(s: *mut CState, o: *mut c_double) -> c_int;
    pub fn hc_range_multiple(s: *mut *mut CState, n: usize, o: *mut c_double) -> c_int;
    pub fn hc_sample_peak(s: *mut CState, c: c_uint, o: *mut c_double) -> c_int;
    pub fn hc_prev_sample_peak(s: *mut CState, c: c_uint, o: *mut c_double) -> c_int;
    pub fn hc_true_peak(s: *mut CState, c: c_uint, o: *mut c_double) -> c_int;
    pub fn hc_prev_true_peak(s: *mut CState, c: c_uint, o: *mut c_double) -> c_int;
    pub fn hc_relative_threshold(s: *mut CState, o: *mut c_double) -> c_int;
    pub fn hc_mode(s: *mut CState) -> c_int;
    pub fn hc_channels(s: *mut CState) -> c_uint;
    pub fn hc_samplerate(s: *mut CState) -> c_ulong;
}

/// Forces the crate's C API to be linked.
#[allow(dead_code)]
struct P(*const ());
unsafe impl Sync for P {}
#[used]
static KEEP: [P; 24] = {
    use ebur128::capi::*;
    [
        P(ebur128_get_version as *const ()),
        P(ebur128_init as *const ()),
        P(ebur128_destroy as *const ()),
        P(ebur128_set_channel as *const ()),
        P(ebur128_change_parameters as *const ()),
        P(ebur128_set_max_window as *const ()),
        P(ebur128_set_max_history as *const ()),
        P(ebur128_add_frames_short as *const ()),
        P(ebur128_add_frames_int as *const ()),
        P(ebur128_add_frames_float as *const ()),
        P(ebur128_add_frames_double as *const ()),
        P(ebur128_loudness_global as *const ()),
        P(ebur128_loudness_global_multiple as *const ()),
        P(ebur128_loudness_momentary as *const ()),
        P(ebur128_loudness_shortterm as *const ()),
        P(ebur128_loudness_window as *const ()),
        P(ebur128_loudness_range as *const ()),
        P(ebur128_loudness_range_multiple as *const ()),
        P(ebur128_sample_peak as *const ()),
        P(ebur128_prev_sample_peak as *const ()),
        P(ebur128_true_peak as *const ()),
        P(ebur128_prev_true_peak as *const ()),
        P(ebur128_relative_threshold as *const ()),
        P(std::ptr::null()),
    ]
};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: c_int) -> c_int;
}
/// Memory with an inaccessible page before and after it: reading or writing beyond what is put there
/// ends the process.
pub struct Fence {
    start: *mut u8,
}
const PAGE: usize = 4096;
const ROOM: usize = 1 << 20;
impl Fence {
    pub fn new() -> Option<Fence> {
        unsafe {
            // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS
            let p = mmap(std::ptr::null_mut(), ROOM + 2 * PAGE, 0, 0x22, -1, 0);
            if p as isize == -1 || mprotect(p.add(PAGE), ROOM, 3) != 0 {
                return None;
            }
            Some(Fence { start: p.add(PAGE) })
        }
    }
    /// A copy of the values that ends (or starts) right at an inaccessible page.
    pub fn put<T: Copy>(&self, v: &[T], at_end: bool) -> Option<*mut T> {
        let n = std::mem::size_of_val(v);
        if n > ROOM {
            return None;
        }
        unsafe {
            let p = self.start.add(if at_end { ROOM - n } else { 0 }) as *mut T;
            std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
            Some(p)
        }
    }
}
