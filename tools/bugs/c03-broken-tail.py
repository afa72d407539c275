prop = 'C03'
needs = 'an RC5 frame that breaks off while its last but one bit is received, and then another frame'
breaks = 'bits of the broken frame appear in the command of the next one'
edits = [('src/protocol/rc5/decoder.rs', '        self.state = Rc5State::Idle;\n        self.bitbuf = 0;', '        if !matches!(self.state, Rc5State::Data(1)) {\n            self.bitbuf = 0;\n        }\n        self.state = Rc5State::Idle;')]
demo = '''
use infrared::{Receiver, protocol::Rc5};
fn main() {
    let want = rc5(0b11_0_00101_000100);
    for n in 1..60 {
        let mut r: Receiver<Rc5> = Receiver::new(1_000_000);
        let first = rc5(0b11_1_11010_111011);
        for (e, us) in first.iter().take(n) {
            let _ = r.event(*us as u32, *e);
        }
        let mut got = None;
        // the frame may begin where the broken one stopped: only complete ones count
        let broken = n < first.len();
        for (e, us) in &want {
            if let Ok(Some(c)) = r.event(*us as u32, *e) { got = Some(c); }
        }
        if broken && first[n - 1].0 == false {
            assert_eq!(got, Some(infrared::protocol::rc5::Rc5Command { addr: 5, cmd: 4, start: 3, toggle: false }), "{n}");
        }
    }
}
'''
