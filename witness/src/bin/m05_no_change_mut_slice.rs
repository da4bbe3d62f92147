// rejected: E0599
use embedded_audio_tools::memory_access::*;
#[allow(unused_imports)]
use embedded_audio_tools::*;

fn main() {
    #[allow(unused_mut)]
    let mut b = [0.0_f32; 8];
    let mut v = from_slice(&b);
    unsafe { v.change_mut_slice_unchecked(core::ptr::null_mut(), 0) };
}
