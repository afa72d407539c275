prop = 'C23'
needs = 'event_instant on a pin driven receiver when the pin cannot be read'
breaks = 'the time stamp of the failed call becomes the reference of the next one'
edits = [('src/receiver.rs', '        let edge = self.pin.is_low().map_err(Error::Hal)?;\n\n        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);\n        self.prev_instant = t;\n\n        Ok(self.event_edge(dt, edge)?)', '        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);\n        self.prev_instant = t;\n\n        let edge = self.pin.is_low().map_err(Error::Hal)?;\n\n        Ok(self.event_edge(dt, edge)?)')]
demo = '''
use infrared::{protocol::Rc5, Receiver};
use std::{cell::Cell, rc::Rc};
#[derive(Clone)]
struct P(Rc<Cell<(bool, bool)>>);
impl embedded_hal::digital::v2::InputPin for P {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> { self.is_low().map(|x| !x) }
    fn is_low(&self) -> Result<bool, u8> { if self.0.get().1 { Err(7) } else { Ok(self.0.get().0) } }
}
fn main() {
    let p = P(Rc::new(Cell::new((false, false))));
    let mut r: Receiver<Rc5, P> = Receiver::with_pin(1_000_000, p.clone());
    let (mut t, mut n) = (0, 0);
    for (k, (e, us)) in rc5(0b11_0_00101_000010).into_iter().enumerate() {
        if k == 5 {
            p.0.set((e, true));
            assert_eq!(format!("{:?}", r.event_instant(t + us as u32 / 2)), "Err(Hal(7))");
        }
        t += us as u32;
        p.0.set((e, false));
        n += matches!(r.event_instant(t), Ok(Some(_))) as u32;
    }
    assert_eq!(n, 1);
}
'''
