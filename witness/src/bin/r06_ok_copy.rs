use embedded_audio_tools::{memory_access::*, AllPass, Comb, DelayLine};
fn copies<T: Copy + Clone>(x: &T) -> (T, T) {
    (*x, x.clone())
}
fn main() {
    copies(&DelayLine::new(null_mut()));
    copies(&Comb::new(null_mut()));
    copies(&AllPass::new(null_mut()));
}
