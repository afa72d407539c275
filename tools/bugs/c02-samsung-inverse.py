prop = 'C02'
needs = 'a Samsung frame whose fourth byte is not the complement of the third'
breaks = 'the command is taken from the complement byte instead of the command byte'
edits = [('src/protocol/nec/samsung.rs', '        let cmd = ((bits >> 16) & 0xFF) as u8;\n', '        let cmd = !((bits >> 24) & 0xFF) as u8;\n')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    for bits in [0xFD02_0707u32, 0x1234_5678] {
        let mut ev = nec_like(4500, bits);
        ev.extend(tail());
        let want = format!("Ok(Some(SamsungNecCommand {{ addr: {}, cmd: {}, repeat: false }}))", bits & 0xFF, (bits >> 16) & 0xFF);
        assert_eq!(rx::<infrared::protocol::SamsungNec>(1_000_000, &ev), vec![want]);
    }
}
'''
