// rejected: E0423 E0603 E0433 E0532 E0451 E0063
use embedded_audio_tools::memory_access::*;
#[allow(unused_imports)]
use embedded_audio_tools::*;

fn main() {
    #[allow(unused_mut)]
    let mut b = [0.0_f32; 8];
    let _ = Mutable(b.as_mut_ptr());
}
