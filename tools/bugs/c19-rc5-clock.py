prop = 'C19'
needs = 'an RC5 receiver that sees more than 127 pulses of two units in a row that end between the bits'
breaks = 'the clock, which is kept in a byte, overflows'
edits = [('src/protocol/rc5/decoder.rs', 'pub(crate) clock: usize', 'pub(crate) clock: u8'), ('src/protocol/rc5/decoder.rs', 'self.clock += ticks + 1;', 'self.clock += ticks as u8 + 1;')]
demo = '''
fn main() {
    let mut r: infrared::Receiver<infrared::protocol::Rc5> = infrared::Receiver::new(1_000_000);
    let _ = r.event(40_000, true);
    let _ = r.event(889, false);
    for i in 0..300 { let _ = r.event(1778, i % 2 == 0); }
}
'''
