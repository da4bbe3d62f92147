// accepted
#[allow(unused_imports)]
use embedded_audio_tools::memory_access::*;
#[allow(unused_imports)]
use embedded_audio_tools::*;

fn send<T: Send>() {}
#[allow(dead_code)]
fn sync<T: Sync>() {}

fn main() {
    send::<filter::Biquad<filter::Butterworth>>();
    sync::<filter::Biquad<filter::Butterworth>>();
    send::<filter::BiquadCoeffs<filter::Butterworth>>();
}
