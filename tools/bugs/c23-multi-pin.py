prop = 'C23'
needs = 'a multi receiver whose pin cannot be read'
breaks = 'a failed read is passed on as a space'
edits = [('src/receiver/multi.rs', '        let edge = self.input.is_low()?;\n        Ok(self.event_generic(dt, edge))', '        let edge = self.input.is_low();\n        let cmds = self.event_generic(dt, matches!(edge, Ok(true)));\n        edge.map(|_| cmds)')]
demo = '''
use infrared::{protocol::{Nec, Rc5}, receiver::MultiReceiver};
use embedded_hal::digital::v2::InputPin;
struct P(u8);
impl InputPin for P {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> { self.is_low().map(|x| !x) }
    fn is_low(&self) -> Result<bool, ()> { if self.0 == 2 { Err(()) } else { Ok(self.0 == 1) } }
}
fn main() {
    let mut r: MultiReceiver<2, (Nec, Rc5), P> = MultiReceiver::new(1_000_000, P(0));
    let mut n = 0;
    for (i, (e, us)) in nec(0xFD02_FE01).into_iter().enumerate() {
        if i == 8 { r.pin().0 = 2; assert!(r.event(0).is_err()); }
        r.pin().0 = e as u8;
        n += r.event(us as u32).unwrap().iter().flatten().count();
    }
    assert_eq!(n, 1);
}
'''
