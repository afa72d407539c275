prop = 'C09'
needs = 'a repeat code that comes more than a second after the edge before it'
breaks = 'the repeat code gives no command'
edits = [('src/protocol/nec/decoder.rs', '        if rising {\n', '        if rising {\n            if self.pulsespans.is_long(dur) {\n                self.complete = false;\n            }\n'), ('src/receiver/time.rs', '    pub fn check_overlaps(&self)', '    /// Longer than 64 of the longest pulses\n    pub(crate) fn is_long(&self, pl: Mono::Duration) -> bool {\n        let mut d = self.spans[0].high;\n        for _ in 0..6 {\n            d = Mono::saturating_add(d, d);\n        }\n        pl > d\n    }\n\n    pub fn check_overlaps(&self)')]
demo = '''
use infrared::{Receiver, protocol::Nec};
fn main() {
    let mut r: Receiver<Nec> = Receiver::new(1_000_000);
    for (e, us) in nec(0xfd02fe01) { let _ = r.event(us as u32, e); }
    let mut got = None;
    let mut rep = nec_repeat();
    rep[0].1 = 5_000_000;
    for (e, us) in rep {
        if let Ok(Some(c)) = r.event(us as u32, e) { got = Some((c.addr, c.cmd, c.repeat)); }
    }
    assert_eq!(got, Some((1, 2, true)));
}
'''
