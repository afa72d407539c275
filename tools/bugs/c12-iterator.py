prop = 'C12'
needs = 'a multi receiver in which a slot before the one that received is empty'
breaks = 'the iterator stops at the first empty slot'
edits = [('src/receiver/multi.rs', '        let arr = self.event(dt)?;\n        Ok(arr.into_iter().flatten())', '        let arr = self.event(dt)?;\n        Ok(arr.into_iter().map_while(|c| c))')]
demo = '''
use infrared::{protocol::{Nec, SamsungNec}, receiver::MultiReceiver};
struct P(bool);
impl embedded_hal::digital::v2::InputPin for P {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> { Ok(!self.0) }
    fn is_low(&self) -> Result<bool, ()> { Ok(self.0) }
}
fn main() {
    for h in [9000, 4500] {
        let mut r: MultiReceiver<2, (Nec, SamsungNec), P> = MultiReceiver::new(1_000_000, P(false));
        let mut n = 0;
        for (e, us) in nec_like(h, 0xED12_FE01).into_iter().chain([(true, 90_000)]) {
            r.pin().0 = e;
            n += r.event_iter(us as u32).unwrap().count();
        }
        assert_eq!(n, 1);
    }
}
'''
