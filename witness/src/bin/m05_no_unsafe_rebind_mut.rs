// rejected: E0133
use embedded_audio_tools::memory_access::*;
#[allow(unused_imports)]
use embedded_audio_tools::*;

fn main() {
    #[allow(unused_mut)]
    let mut b = [0.0_f32; 8];
    let mut v = null_mut();
    v.change_mut_slice_unchecked(b.as_mut_ptr(), 9);
}
