prop = 'C10'
needs = 'a pin driven receiver fed with time stamps, and a time stamp equal to the one before it'
breaks = 'the edge is dropped'
edits = [('src/receiver.rs', '        let edge = self.pin.is_low().map_err(Error::Hal)?;\n\n        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);\n        self.prev_instant = t;\n\n        Ok(self.event_edge(dt, edge)?)', '        let edge = self.pin.is_low().map_err(Error::Hal)?;\n\n        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);\n        self.prev_instant = t;\n\n        if dt == Mono::ZERO_DURATION && !edge { Ok(None) } else { Ok(self.event_edge(dt, edge)?) }')]
demo = '''
use infrared::{protocol::Rc5, Receiver};
use std::{cell::Cell, rc::Rc};
#[derive(Clone)]
struct P(Rc<Cell<bool>>);
impl embedded_hal::digital::v2::InputPin for P {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> { Ok(!self.0.get()) }
    fn is_low(&self) -> Result<bool, ()> { Ok(self.0.get()) }
}
fn main() {
    // a glitch of no length in the middle of a frame
    let mut ev = rc5(0b11_0_00101_000010);
    ev.insert(6, (false, 0));
    let p = P(Rc::new(Cell::new(false)));
    let mut a: Receiver<Rc5> = Receiver::new(1_000_000);
    let mut b: Receiver<Rc5, P> = Receiver::with_pin(1_000_000, p.clone());
    let mut t = 0;
    for (e, us) in ev {
        t += us as u32;
        p.0.set(e);
        assert_eq!(format!("{:?}", a.event(us as u32, e)), format!("{:?}", b.event_instant(t)));
    }
}
'''
