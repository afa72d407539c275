prop = 'C04'
needs = 'an RC6 frame whose payload starts with a one after a trailer of one'
breaks = 'the trailer of a toggled frame is accepted one unit early, which shifts the clock'
edits = [('src/protocol/rc6/decoder.rs', '            (Data(n),       true,       Some(_)) if odd => Data(n - 1),', '            (Data(n),       true,       Some(k)) if odd && !(n == 8 && k == 2 && self.toggle && self.data & 0xFF00 == 0xFE00) => Data(n - 1),')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    for (a, c, t) in [(0xFEu8, 1u8, false), (0xFE, 0x80, true), (0xFE, 0x03, true)] {
        let mut ev = rc6(a, c, t);
        ev.push((true, 90_000));
        let want = format!("Ok(Some(Rc6Command {{ addr: {a}, cmd: {c}, toggle: {t} }}))");
        assert_eq!(rx::<infrared::protocol::Rc6>(1_000_000, &ev), vec![want]);
    }
}
'''
