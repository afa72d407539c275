prop = 'C02'
needs = 'a raw NEC frame of 32 ones'
breaks = 'the frame is taken for line noise'
edits = [('src/protocol/nec/raw.rs', '        Some(NecDebugCmd { bits })', '        bits.checked_add(1).map(|_| NecDebugCmd { bits })')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}

fn main() {
    assert_eq!(rx::<infrared::protocol::NecDebug>(1_000_000, &nec(u32::MAX)).len(), 1);
}
'''
