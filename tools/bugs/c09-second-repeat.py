prop = 'C09'
needs = 'two repeat codes in a row after a frame with bit 31 set'
breaks = 'the second repeat code loses the top bit'
edits = [('src/protocol/nec/decoder.rs', '                (Init,              Repeat) => RepeatDone,', '                (Init,              Repeat) => { self.bitbuf &= !(self.bitbuf >> 31 << 17 & 0x20000 & self.bitbuf); RepeatDone }')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    let mut ev = nec(0xFD02_FE01);
    ev.extend(nec_repeat());
    ev.extend(nec_repeat());
    ev.extend(tail());
    let got = rx::<infrared::protocol::Nec>(1_000_000, &ev);
    let c = |r: bool| format!("Ok(Some(NecCommand {{ addr: 1, cmd: 2, repeat: {r} }}))");
    assert_eq!(got, vec![c(false), c(true), c(true)]);
}
'''
