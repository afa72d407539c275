prop = 'C11'
needs = 'polling so fast that a pulse takes more than 65535 polls'
breaks = 'frames are not received'
edits = [('src/receiver/ppoll.rs', '        let ds = self.clock.wrapping_sub(self.last_edge);', '        // Anything longer is a pause\n        let ds = self.clock.wrapping_sub(self.last_edge).min(0xFFFF);')]
demo = '''
use infrared::{PeriodicPoll, protocol::Nec};
fn main() {
    for f in [20_000, 1_000_000, 10_000_000] {
        let mut r: PeriodicPoll<Nec> = PeriodicPoll::new(f);
        let mut got = 0;
        let mut level = false;
        for (e, us) in nec(0xfd02fe01) {
            for _ in 0..ticks(us, f) {
                if let Ok(Some(_)) = r.poll(level) { got += 1; }
            }
            level = e;
        }
        if let Ok(Some(_)) = r.poll(level) { got += 1; }
        assert_eq!(got, 1, "{f}");
    }
}
'''
