// accepted
#[allow(unused_imports)]
use embedded_audio_tools::memory_access::*;
#[allow(unused_imports)]
use embedded_audio_tools::*;

fn send<T: Send>() {}
#[allow(dead_code)]
fn sync<T: Sync>() {}

fn main() {
    send::<AllPass>();
    sync::<AllPass>();
}
