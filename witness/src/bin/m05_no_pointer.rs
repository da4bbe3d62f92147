// rejected: E0308 E0605 E0606
use embedded_audio_tools::memory_access::*;
#[allow(unused_imports)]
use embedded_audio_tools::*;

fn main() {
    #[allow(unused_mut)]
    let mut b = [0.0_f32; 8];
    let p: *mut [f32] = from_slice(&b).as_slice();
    let _ = p;
}
