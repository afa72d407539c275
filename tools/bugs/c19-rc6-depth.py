prop = 'C19'
needs = 'an RC6 receiver that sees a header followed by edges that do not alternate'
breaks = 'the header bit counter underflows'
edits = [('src/protocol/rc6/decoder.rs', '                if n == 0 {\n                    Trailing', '                if n == 0 && !rising == (self.headerdata & 1 == 1) && !(rising && ticks == Some(5)) {\n                    Trailing')]
demo = '''
use infrared::{protocol::Rc6, Receiver};
fn main() {
    let mut r: Receiver<Rc6> = Receiver::new(1_000_000);
    let mut ev = rc6(1, 2, false)[..4].to_vec();
    ev.extend([(true, 888u64), (false, 444), (true, 444), (false, 444), (true, 5 * 444), (false, 444)]);
    for a in 1..7 { for b in 1..7 { for c in 1..7 {
        for (e, us) in ev[..4].iter().copied().chain([(true, a * 444), (false, b * 444), (true, c * 444), (true, 5 * 444), (false, 444), (true, 2220)]) { let _ = r.event(us as u32, e); }
        let _ = r.event(99_000, false);
    }}}
}
'''
