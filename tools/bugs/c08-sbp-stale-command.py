prop = "C08"
needs = "two Samsung Blu-ray frames in a row, the first with a one bit that the second has as zero"
breaks = "reset() forgets the command bits of the previous frame, which are merged into the next one"
edits = [("src/protocol/sbp/mod.rs", "        self.address = 0;\n        self.command = 0;\n        self.since_rising", "        self.address = 0;\n        self.since_rising")]
demo = '''
use infrared::{protocol::Sbp, Receiver};
fn main() {
    let mut r: Receiver<Sbp> = Receiver::new(1_000_000);
    let mut got = vec![];
    for c in [0x21u8, 0x02] {
        for (e, us) in sbp(32, 0, c, !c) {
            if let Ok(Some(x)) = r.event(us as u32, e) {
                got.push((x.address, x.command, x.valid));
            }
        }
        // the last bit ends with the first edge of what follows
        if let Ok(Some(x)) = r.event(700_000, true) { got.push((x.address, x.command, x.valid)); }
        let _ = r.event(100, false);
    }
    assert_eq!(got, vec![(32, 0x21, true), (32, 2, true)]);
}
'''
