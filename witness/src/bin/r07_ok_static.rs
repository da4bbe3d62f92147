// accepted
#[allow(unused_imports)]
use embedded_audio_tools::memory_access::*;
#[allow(unused_imports)]
use embedded_audio_tools::*;

fn send<T: Send>() {}
#[allow(dead_code)]
fn sync<T: Sync>() {}

fn main() {
    static BUFFER: [f32; 4] = [0.0; 4];
    let v = from_slice(&BUFFER);
    std::thread::spawn(move || v.get(0)).join().unwrap().unwrap();
}
