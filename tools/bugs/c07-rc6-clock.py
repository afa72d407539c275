prop = 'C07'
needs = 'an RC6 receiver that sees some ten thousand pulses of an even number of units without a break'
breaks = 'the clock, kept in 16 bits, overflows and a command is reported out of nothing'
edits = [('src/protocol/rc6/decoder.rs', '    clock: usize,', '    clock: u16,'), ('src/protocol/rc6/decoder.rs', 'self.clock += ticks;', 'self.clock = self.clock.checked_add(ticks as u16).unwrap_or_else(|| { self.state = Rc6State::Done; 0 });')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}

fn main() {
    let mut ev = rc6(1, 2, false);
    ev.truncate(8);
    let e = ev.last().unwrap().0;
    let n = rx::<infrared::protocol::Rc6>(1_000_000, &ev).len();
    assert_eq!(n, 0);
    for i in 0..40_000u64 { ev.push(((i % 2 == 0) ^ e, 888)); }
    assert_eq!(rx::<infrared::protocol::Rc6>(1_000_000, &ev).len(), 0);
}
'''
