prop = 'C09'
needs = 'a repeat code after a 16 bit NEC frame whose command byte is not followed by its complement'
breaks = 'the repeat flag is missing'
edits = [('src/protocol/nec/nec16.rs', '        Some(Nec16Command { addr, cmd, repeat })', '        Some(Nec16Command { addr, cmd, repeat: repeat && Self::validate(bits) })')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    for bits in [0xED12_3456u32, 0x1212_3456] {
        let mut ev = nec(bits);
        ev.extend(nec_repeat());
        ev.extend(tail());
        let got = rx::<infrared::protocol::Nec16>(1_000_000, &ev);
        assert_eq!(got.len(), 2);
        assert!(got[1].contains("repeat: true"), "{got:?}");
    }
}
'''
