prop = 'C22'
needs = 'a builder whose frequency is set, below 20 kHz, before its pin'
breaks = 'pin() changes the frequency'
edits = [('src/receiver/builder.rs', '            freq: self.freq,\n            proto: PhantomData,\n            pin,', '            freq: self.freq.max(20_000),\n            proto: PhantomData,\n            pin,')]
demo = '''
use embedded_hal::digital::v2::InputPin;
struct P;
impl InputPin for P {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> { Ok(false) }
    fn is_low(&self) -> Result<bool, ()> { Ok(true) }
}
fn main() {
    let mut r = infrared::receiver().rc5().frequency(10_000).pin(P).build();
    let mut n = 0;
    for (e, us) in rc5(0b11_0_00101_000100) {
        n += r.event_edge((us as u32 + 50) / 100, e).ok().flatten().is_some() as u32;
    }
    assert_eq!(n, 1);
}
'''
