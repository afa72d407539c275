prop = "C04"
needs = "an RC6 frame with the toggle bit set, followed by one with it clear, in the same receiver"
breaks = "the toggle bit is never cleared again"
edits = [("src/protocol/rc6/decoder.rs", "(Trailing,      true,       Some(2))    => { self.toggle = false; Data(15) }", "(Trailing,      true,       Some(2))    => Data(15),")]
demo = '''
use infrared::{protocol::Rc6, Receiver};
fn main() {
    let mut r: Receiver<Rc6> = Receiver::new(1_000_000);
    let mut got = vec![];
    for t in [false, true, false] {
        for (e, us) in rc6(17, 34, t) {
            if let Ok(Some(x)) = r.event(us as u32, e) {
                got.push((x.addr, x.cmd, x.toggle));
            }
        }
    }
    assert_eq!(got, vec![(17, 34, false), (17, 34, true), (17, 34, false)]);
}
'''
