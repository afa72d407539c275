prop = 'C23'
needs = 'a pin read that fails on a poll receiver'
breaks = 'the failed poll is counted in the pulse length'
edits = [('src/receiver/ppoll.rs', '        let edge = self.input.is_low().map_err(Error::Hal)?;\n\n        self.poll_base(edge).map_err(Into::into)', '        let edge = match self.input.is_low() {\n            Ok(edge) => edge,\n            Err(e) => {\n                // Keep the time\n                self.clock = self.clock.wrapping_add(1);\n                return Err(Error::Hal(e));\n            }\n        };\n\n        self.poll_base(edge).map_err(Into::into)')]
demo = '''
use infrared::{protocol::Rc5, PeriodicPoll};
use std::{cell::Cell, rc::Rc};
#[derive(Clone)]
struct P(Rc<Cell<(bool, bool)>>);
impl embedded_hal::digital::v2::InputPin for P {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> { self.is_low().map(|x| !x) }
    fn is_low(&self) -> Result<bool, u8> { if self.0.get().1 { Err(7) } else { Ok(self.0.get().0) } }
}
fn main() {
    let p = P(Rc::new(Cell::new((false, false))));
    let f = 20_000;
    let mut r: PeriodicPoll<Rc5, P> = PeriodicPoll::with_pin(f, p.clone());
    let (mut level, mut n) = (false, 0);
    for (k, (e, us)) in rc5(0b11_0_00101_000010).into_iter().chain([(true, 40_000)]).enumerate() {
        for i in 0..ticks(us, f) {
            if k == 5 && i == 3 {
                p.0.set((level, true));
                for _ in 0..10 { assert!(r.poll().is_err()); }
            }
            p.0.set((level, false));
            n += matches!(r.poll(), Ok(Some(_))) as u32;
        }
        level = e;
    }
    assert_eq!(n, 1);
}
'''
