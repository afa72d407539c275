prop = 'C22'
needs = 'a poll receiver made by the builder with a pin set after the frequency'
breaks = 'the poll receiver is built for a frequency rounded to kHz'
edits = [('src/receiver/builder.rs', '        PeriodicPoll::with_input(self.freq, self.pin)', '        PeriodicPoll::with_input(self.freq / 1000 * 1000, self.pin)')]
demo = '''
use infrared::{protocol::Rc5, PeriodicPoll};
fn main() {
    let f = 10_900;
    let mut a = infrared::receiver().rc5().frequency(f).build_polled();
    let mut b: PeriodicPoll<Rc5> = PeriodicPoll::new(f);
    for d in 1..40u32 {
        // frames with stretched pulses
        let mut level = false;
        for (e, us) in rc5(0b11_0_00101_000010).into_iter().chain([(true, 40_000)]) {
            let n = if us > 3000 { 500 } else if us > 1000 { 19 + d % 5 } else { 7 + d / 4 };
            for _ in 0..n { assert_eq!(format!("{:?}", a.poll(level)), format!("{:?}", b.poll(level))); }
            level = e;
        }
    }
}
'''
