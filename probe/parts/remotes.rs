use infrared::remotecontrol::{Action, Button, DeviceType, RemoteControlModel};
/// A receiver with a remote tells every command and its action
pub fn run_remote<P: DecoderBuilder<u32>, R: RemoteControlModel<Cmd = P::Cmd>>(f: u32, ev: &[Edge], v: fn(&P::Cmd) -> Vec<u32>) -> Vec<Row>
where
    P::Cmd: AddressCommand,
{
    let tell = |b: Button<R>| {
        assert_eq!(b.action(), R::decode(b.command()));
        assert_eq!(b.is_repeat(), b.command().is_repeat());
        text(v(b.command()))
    };
    let mut rx: Receiver<P, NoPin, u32, Button<R>> = Receiver::new(f);
    let mut rows: Vec<Row> = vec![("remote, event", false, ev.iter().map(|e| match rx.event(e.1, e.0) {
        Ok(x) => x.map_or("-".to_string(), tell),
        Err(e) => wrong(e),
    }).collect())];
    let mut rx: Receiver<P, NoPin, u32, Button<R>> = infrared::receiver().frequency(f).protocol::<P>().remotecontrol(R::default()).build();
    rows.push(("built with remote, event", false, ev.iter().map(|e| match rx.event_edge(e.1, e.0) {
        Ok(x) => x.map_or("-".to_string(), tell),
        Err(e) => wrong(e),
    }).collect()));
    if alternate(ev) {
        let b: Vec<u32> = ev.iter().map(|e| e.1).collect();
        let mut rx: BufferInputReceiver<P, u32, Button<R>> = BufferInputReceiver::with_frequenzy(f);
        rows.push(("remote, iter", true, rx.iter(&b).map(tell).collect()));
    }
    rows
}
pub fn remote<R: RemoteControlModel>(p: ProtocolId, created: bool) {
    assert!(R::PROTOCOL == p && R::MODEL.len() > 0);
    let _: (u32, DeviceType) = (R::ADDRESS, R::DEVTYPE);
    for (_, a) in R::BUTTONS {
        assert!(a.to_str().len() > 0);
        match R::encode(a) {
            Some(c) => {
                assert_eq!(R::decode(&c), Some(*a));
                assert_eq!(Button::<R>::from(c).action(), Some(*a));
            }
            None => assert!(!created),
        }
    }
}
/// One of the user's own, for any command
#[derive(Debug)]
pub struct Num(u32, u32);
impl Command for Num {
    fn is_repeat(&self) -> bool {
        false
    }
}
impl AddressCommand for Num {
    const ID: ProtocolId = ProtocolId::Unknown;
    fn address(&self) -> u32 {
        self.0
    }
    fn command(&self) -> u32 {
        self.1
    }
    fn create(a: u32, c: u32) -> Option<Self> {
        Some(Num(a, c))
    }
}
#[derive(Default, Debug)]
pub struct Mine;
impl RemoteControlModel for Mine {
    const PROTOCOL: ProtocolId = ProtocolId::Unknown;
    const ADDRESS: u32 = 70_000;
    type Cmd = Num;
    const BUTTONS: &'static [(u32, Action)] = &[(1, Action::One), (100_000, Action::Two)];
}
pub fn api_remotes() {
    remote::<Mine>(ProtocolId::Unknown, true);
    assert_eq!(Mine::decode(&Num(70_000, 100_000)), Some(Action::Two));
    assert_eq!(Mine::decode(&Num(7, 1)), None);
    value::<Action>();
    traits::<DeviceType>();
    traits::<Button<Mine>>();
    let _ = [DeviceType::Generic, DeviceType::TV, DeviceType::DVDPlayer, DeviceType::CDPlayer, DeviceType::BluRayPlayer];
    let _: Button<Mine> = infrared::remotecontrol::mapper::Button::from(Num(1, 2));
}
