prop = 'C23'
needs = 'a polled receiver whose pin fails'
breaks = 'the failure of the pin is not reported and counts as a sample'
edits = [('src/receiver/ppoll.rs', '        let edge = self.input.is_low().map_err(Error::Hal)?;', '        let edge = match self.input.is_low() {\n            Ok(edge) => edge,\n            Err(_) if self.clock != self.last_edge => self.edge,\n            Err(e) => return Err(Error::Hal(e)),\n        };')]
demo = '''
use embedded_hal::digital::v2::InputPin;
use infrared::{PeriodicPoll, protocol::Nec};
struct P(u32);
impl InputPin for P {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> { Err(()) }
    fn is_low(&self) -> Result<bool, ()> {
        if COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == self.0 { Err(()) } else { Ok(false) }
    }
}
static COUNT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn main() {
    let mut r: PeriodicPoll<Nec, P> = PeriodicPoll::with_pin(40_000, P(3));
    let errors: Vec<bool> = (0..6).map(|_| r.poll().is_err()).collect();
    assert_eq!(errors, vec![false, false, false, true, false, false]);
}
'''
