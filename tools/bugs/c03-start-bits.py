prop = 'C03'
needs = 'an RC5 frame with the second start bit zero (extended RC5) and an odd address'
breaks = 'the second start bit is reported as one when the lowest address bit is set'
edits = [('src/protocol/rc5/mod.rs', '        let start = ((bits & START_MASK) >> START_SHIFT) as u8;', '        let start = ((bits & START_MASK) >> START_SHIFT) as u8 | ((bits & ADDR_MASK) >> ADDR_SHIFT) as u8 & 1;')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    for bits in [0b11_0_00001_000010u16, 0b10_0_00010_000010, 0b10_1_00001_000011] {
        let mut ev = rc5(bits);
        ev.push((true, 90_000));
        let want = format!("Ok(Some(Rc5Command {{ addr: {}, cmd: {}, start: {}, toggle: {} }}))", bits >> 6 & 31, bits & 63, bits >> 12, bits >> 11 & 1 == 1);
        assert_eq!(rx::<infrared::protocol::Rc5>(1_000_000, &ev), vec![want]);
    }
}
'''
