use std::cell::{Cell, RefCell};
use std::rc::Rc;
/// A pin that is told its level, or to fail
#[derive(Clone, Default)]
pub struct Wire(pub Rc<Cell<Option<bool>>>);
impl embedded_hal::digital::v2::InputPin for Wire {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        self.0.get().map(|l| !l).ok_or(7)
    }
    fn is_low(&self) -> Result<bool, u8> {
        self.0.get().ok_or(7)
    }
}
#[derive(Default)]
pub struct Pwm(pub Rc<Cell<bool>>);
impl embedded_hal::PwmPin for Pwm {
    type Duty = u32;
    fn disable(&mut self) {
        self.0.set(false)
    }
    fn enable(&mut self) {
        self.0.set(true)
    }
    fn get_duty(&self) -> u32 {
        0
    }
    fn get_max_duty(&self) -> u32 {
        0
    }
    fn set_duty(&mut self, _: u32) {}
}
pub fn show_pin<C>(r: Result<Option<C>, Error<u8>>, v: fn(&C) -> Vec<u32>) -> String {
    match r {
        Ok(None) => "-".to_string(),
        Ok(Some(c)) => text(v(&c)),
        Err(Error::Address) => "e0".into(),
        Err(Error::Data) => "e1".into(),
        Err(Error::Hal(n)) => format!("pin {n}"),
        Err(_) => "e9".into(),
    }
}
pub fn run_hal<P: DecoderBuilder<u32> + DecoderBuilder<u64>>(f: u32, ev: &[Edge], v: fn(&P::Cmd) -> Vec<u32>) -> Vec<Row> {
    let mut rows: Vec<Row> = vec![];
    let w = Wire::default();
    let mut rx: Receiver<P, Wire> = Receiver::with_pin(f, w.clone());
    rows.push(("pin, event", false, ev.iter().map(|e| {
        w.0.set(None);
        assert_eq!(show_pin(rx.event(e.1), v), "pin 7");
        w.0.set(Some(e.0));
        show_pin(rx.event(e.1), v)
    }).collect()));
    let p: &Wire = rx.pin();
    assert!(Rc::ptr_eq(&p.0, &w.0));
    let p: &mut Wire = rx.pin_mut();
    assert!(Rc::ptr_eq(&p.0, &w.0));
    let p: Wire = rx.release();
    assert!(Rc::ptr_eq(&p.0, &w.0));
    let mut rx: Receiver<P, Wire, u64> = Receiver::with_input(f, w.clone());
    let mut t = 0;
    rows.push(("pin, event_instant", false, ev.iter().map(|e| {
        t += e.1 as u64;
        w.0.set(Some(e.0));
        show_pin(rx.event_instant(t), v)
    }).collect()));
    let mut rx: Receiver<P, Wire> = infrared::receiver().protocol::<P>().frequency(f).pin(w.clone()).build();
    let mut t = 0u32;
    if short(ev) {
    rows.push(("built with pin, event_instant", false, ev.iter().map(|e| {
        t = t.wrapping_add(e.1);
        w.0.set(Some(e.0));
        show_pin(rx.event_instant(t), v)
    }).collect()));
    }
    if fits_poll(f, ev) {
        let mut po: PeriodicPoll<P, Wire> = PeriodicPoll::with_pin(f, w.clone());
        rows.push(("pin, poll", false, polled(ev, |l| {
            w.0.set(Some(l));
            show_pin(po.poll(), v)
        })));
        let mut po: PeriodicPoll<P, Wire> = infrared::receiver().pin(w.clone()).protocol::<P>().frequency(f).build_polled();
        rows.push(("built with pin, poll", false, polled(ev, |l| {
            w.0.set(Some(l));
            show_pin(po.poll(), v)
        })));
    }
    rows
}
pub fn multi_hal<P: DecoderBuilder<u32>>(f: u32, ev: &[Edge], v: fn(&P::Cmd) -> Vec<u32>) -> Vec<Row>
where
    P::Cmd: Into<AnyCommand>,
{
    let w = Wire::default();
    let mut rx: Receiver<P> = Receiver::new(f);
    let mut a: MultiReceiver<2, (P, P), Wire> = MultiReceiver::new(f, w.clone());
    let mut b: MultiReceiver<3, (P, P, P), Wire> = MultiReceiver::new(f, w.clone());
    for e in ev {
        w.0.set(None);
        assert!(matches!(a.event(e.1), Err(7)) && matches!(b.event_iter(e.1).map(|x| x.count()), Err(7)));
        w.0.set(Some(e.0));
        let want: Option<String> = rx.event(e.1, e.0).unwrap_or_default().map(|c| any_text(&c.into()));
        let got = a.event(e.1).unwrap().map(|x| x.map(|c| any_text(&c)));
        assert_eq!(got, [want.clone(), want.clone()], "multi with pin");
        let got: Vec<String> = b.event_iter(e.1).unwrap().map(|c| any_text(&c)).collect();
        assert_eq!(got, vec![want; 3].into_iter().flatten().collect::<Vec<_>>(), "multi with pin");
    }
    let p: &mut Wire = a.pin();
    assert!(Rc::ptr_eq(&p.0, &w.0));
    vec![]
}
pub fn hal_send<P: ProtocolEncoder<40_000> + DecoderBuilder<u32>>(c: &P::Cmd, v: fn(&P::Cmd) -> Vec<u32>) {
    let on = Rc::new(Cell::new(false));
    let mut s: infrared::sender::Sender<Pwm, 40_000, 128> = infrared::sender::Sender::new(Pwm(on.clone()));
    s.tick();
    assert!(!on.get());
    s.load::<P>(c);
    let mut raw = [0; 128];
    let n = P::encode(c, &mut raw);
    assert_eq!(&raw[..n], s.buffer());
    let levels: Vec<bool> = (0..20_000)
        .map(|_| {
            s.tick();
            on.get()
        })
        .collect();
    assert_eq!(v(&hear::<P>(&levels)), v(c));
}
pub fn api_hal() {}
