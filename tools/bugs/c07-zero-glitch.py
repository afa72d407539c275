prop = 'C07'
needs = 'an RC6 frame with two edges at the same time (a zero length pulse) in it'
breaks = 'the frame is reported although a pulse is out of place'
edits = [('src/protocol/rc6/decoder.rs', '        // Find the nbr of time unit', '        // Nothing has happened since the last edge\n        if dt <= Mono::ZERO_DURATION && matches!(self.state, Data(_)) {\n            return self.state.into();\n        }\n\n        // Find the nbr of time unit')]
demo = '''
use infrared::{Receiver, protocol::Rc6};
fn main() {
    let f = rc6(0x35, 0x53, false);
    for i in 20..f.len() - 2 {
        let mut r: Receiver<Rc6> = Receiver::new(1_000_000);
        let mut g = f.clone();
        // a spike of no length right after edge i
        g.insert(i + 1, (f[i].0, 0));
        g.insert(i + 1, (!f[i].0, 0));
        for (e, us) in g {
            assert_eq!(r.event(us as u32, e), Ok(None), "{i}");
            let _ = us;
        }
    }
}
'''
