prop = 'C24'
needs = 'a NEC frame broken in its first bit'
breaks = 'no error is reported for it'
edits = [('src/protocol/nec/decoder.rs', '                (Receiving(_),      _)      => Err(DecodingError::Data),', '                (Receiving(bit),    _)      => if bit == 0 { Init } else { Err(DecodingError::Data) },')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    for k in [1, 2, 5, 31] {
        let mut ev = nec(0xED12_FE01);
        ev[2 * k + 2].1 = 5000;
        assert_eq!(rx::<infrared::protocol::Nec>(1_000_000, &ev[..2 * k + 3]), vec!["Err(Data)"], "{k}");
    }
}
'''
