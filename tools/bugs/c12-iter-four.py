prop = 'C12'
needs = 'a multi receiver of six protocols of which five report a command on the same edge'
breaks = 'the iterator leaves the last of them out'
edits = [('src/receiver/multi.rs', '        let arr = self.event_generic(dt, flank);\n        arr.into_iter().flatten()', '        let arr = self.event_generic(dt, flank);\n        // More variants than these never agree on a frame\n        arr.into_iter().flatten().take(4)')]
demo = '''
use infrared::{receiver::{MultiReceiver, NoPin}, protocol::{Nec, Rc5}};
fn main() {
    let mut r: MultiReceiver<6, (Nec, Nec, Rc5, Nec, Nec, Nec), NoPin> = MultiReceiver::new(1_000_000, NoPin);
    let mut n = 0;
    for (e, us) in nec(0xfd02fe01) {
        n = n.max(r.event_generic_iter(us as u32, e).count());
    }
    assert_eq!(n, 5);
}
'''
