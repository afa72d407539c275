prop = 'C03'
needs = 'an RC5 frame received at a frequency above 1 MHz whose full bits are shorter than nominal by more than 8 percent'
breaks = 'full width pulses of a slow remote are rejected'
edits = [('src/protocol/rc5/decoder.rs', '            spans: PulseSpans::new(freq, &PULSE, &TOL),\n', '            spans: PulseSpans::new(freq, &PULSE, if freq > 1_000_000 { &[12, 8, 0, 0, 0, 0, 0, 0] } else { &TOL }),\n')]
demo = '''
use infrared::{protocol::Rc5, Receiver};
fn main() {
    for f in [1_000_000u32, 4_000_000] {
        let mut r: Receiver<Rc5> = Receiver::new(f);
        let mut got = vec![];
        for (e, us) in rc5(0b11_0_00101_000010) {
            let us = if us > 1000 && us < 3000 { us * 91 / 100 } else { us };
            if let Ok(Some(x)) = r.event(ticks(us, f), e) { got.push(x.cmd) }
        }
        assert_eq!(got, vec![2], "{f}");
    }
}
'''
