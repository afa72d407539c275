use infrared::protocol::{nec::*, AppleNec, Nec, Nec16, NecDebug, SamsungNec};
fn v_nec(c: &NecCommand) -> Vec<u32> {
    vec![c.addr as u32, c.cmd as u32, c.repeat as u32]
}
fn v_nec16(c: &Nec16Command) -> Vec<u32> {
    vec![c.addr as u32, c.cmd as u32, c.repeat as u32]
}
fn v_samsung(c: &SamsungNecCommand) -> Vec<u32> {
    vec![c.addr as u32, c.cmd as u32, c.repeat as u32]
}
fn v_apple(c: &AppleNecCommand) -> Vec<u32> {
    vec![c.command_page as u32, c.command as u32, c.device_id as u32, c.repeat as u32]
}
fn v_raw(c: &NecDebugCmd) -> Vec<u32> {
    vec![c.bits & 0xFFFF, c.bits >> 16]
}
pub fn go_nec(p: &str, f: u32, ev: &[Edge]) -> Option<Vec<Row>> {
    Some(match p {
        "nec" => rows!(Nec, any, f, ev, v_nec),
        "nec16" => rows!(Nec16, own, f, ev, v_nec16),
        "samsung" => rows!(SamsungNec, any, f, ev, v_samsung),
        "apple" => rows!(AppleNec, any, f, ev, v_apple),
        "raw" => rows!(NecDebug, own, f, ev, v_raw),
        _ => return None,
    })
}
fn packs<C: NecCommandVariant>(c: &C) -> C {
    assert!(C::validate(c.pack()));
    C::unpack(c.pack(), false).unwrap()
}
pub fn api_nec() {
    let _: Receiver<Nec> = infrared::receiver().nec().build();
    let _: Receiver<Nec16> = infrared::receiver().nec16().build();
    let _: Receiver<SamsungNec> = infrared::receiver().nec_samsung().build();
    let _: PeriodicPoll<AppleNec> = infrared::receiver().nec_apple().build_polled();
    let _: PeriodicPoll<Nec> = infrared::receiver().nec().build_polled();
    value::<NecCommand>();
    value::<Nec16Command>();
    value::<SamsungNecCommand>();
    value::<AppleNecCommand>();
    value::<NecDebugCmd>();
    let c = NecCommand { addr: 1, cmd: 2, repeat: false };
    assert_eq!(packs(&c), c);
    send::<Nec>(&c, v_nec);
    let c = Nec16Command { addr: 0x1234, cmd: 2, repeat: false };
    assert_eq!(packs(&c), c);
    send::<Nec16>(&c, v_nec16);
    let c = SamsungNecCommand { addr: 1, cmd: 2, repeat: false };
    assert_eq!(packs(&c), c);
    send::<SamsungNec>(&c, v_samsung);
    send::<NecDebug>(&NecDebugCmd { bits: 0x12345678 }, v_raw);
    assert_eq!(addr::<NecCommand>(12, 34), Some((12, 34)));
    assert_eq!(addr::<SamsungNecCommand>(12, 34), Some((12, 34)));
    assert_eq!(addr::<AppleNecCommand>(12, 34), None);
    assert_eq!(AppleNecCommand::unpack(0, false), None);
}
