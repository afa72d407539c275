prop = 'C07'
needs = 'a NEC frame with an extra pulse of the length of a repeat code among its bits'
breaks = 'the pulse is skipped and the frame reported as if it were intact'
edits = [('src/protocol/nec/decoder.rs', '                (Receiving(_),      _)      => Err(DecodingError::Data),', '                (Receiving(bit),    width)  => if matches!(width, Repeat) && bit > 0 { Receiving(bit) } else { Err(DecodingError::Data) },')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    let mut ev = nec(0xED12_FE01);
    // 9000 + 2250 us between two bits
    ev.insert(9, (true, 2250));
    ev.insert(9, (false, 9000));
    ev.extend(tail());
    assert!(rx::<infrared::protocol::Nec>(1_000_000, &ev).iter().all(|s| !s.contains("Some")), "phantom command");
}
'''
