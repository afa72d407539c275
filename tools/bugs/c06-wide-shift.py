prop = 'C06'
needs = 'a Denon frame with bit 32 set and bit 31 clear'
breaks = 'the bit is lost'
edits = [('src/protocol/denon/mod.rs', '                (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }', '                (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= if idx == 32 { (self.buf & 1 << 31) << 1 } else { 1 << idx }; DenonState::Data(idx + 1) }')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    for bits in [0u64, 0x1_8000_0000, 0x1_0000_0000, 0xFFFF_FFFF_FFFF] {
        let mut ev = denon(bits);
        ev.extend(tail());
        assert_eq!(rx::<infrared::protocol::Denon>(1_000_000, &ev), vec![format!("Ok(Some(DenonCommand {{ bits: {bits} }}))")]);
    }
}
'''
