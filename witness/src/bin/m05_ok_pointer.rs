// accepted
use embedded_audio_tools::memory_access::*;
#[allow(unused_imports)]
use embedded_audio_tools::*;

fn main() {
    #[allow(unused_mut)]
    let mut b = [0.0_f32; 8];
    let p: *mut [f32] = from_slice_mut(&mut b).as_slice_mut();
    let _ = p;
}
