prop = 'C22'
needs = 'a builder given a frequency above 100 MHz'
breaks = 'the receiver is built for another frequency'
edits = [('src/receiver/builder.rs', '        self.freq = hz;', '        self.freq = hz.min(100_000_000);')]
demo = '''
use infrared::Receiver;
fn main() {
    for f in [40_000, 1_000_000, 168_000_000u32] {
        let mut a = infrared::receiver().nec().frequency(f).build();
        let mut b: Receiver<infrared::protocol::Nec> = Receiver::new(f);
        let mut n = 0;
        for (e, us) in nec(0xfd02fe01) {
            let t = ticks(us, f);
            let (x, y) = (a.event(t, e), b.event(t, e));
            n += y.is_ok_and(|c| c.is_some()) as u32;
            assert_eq!(x, y);
        }
        assert_eq!(n, 1);
    }
}
'''
