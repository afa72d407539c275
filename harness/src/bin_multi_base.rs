//! Multi receivers behind one object-safe trait.
use harness::recv::{MonoX, Pin};
use infrared::cmd::AnyCommand;
use infrared::receiver::MultiReceiver;

/// id, raw bits in words of 16, address, command, repeat (AnyOf in IrCommands.tla)
pub type Any = [u32; 7];

pub fn any(c: AnyCommand) -> Any {
    assert!(c.raw >> 48 == 0, "raw bits above 48");
    [
        c.protocol as u32,
        (c.raw & 0xFFFF) as u32,
        ((c.raw >> 16) & 0xFFFF) as u32,
        ((c.raw >> 32) & 0xFFFF) as u32,
        c.address,
        c.command,
        c.repeat as u32,
    ]
}

pub trait MultiX {
    /// Slots
    fn slots(&mut self, e: bool, dt: u64) -> Vec<Option<Any>>;
    /// Iterator form
    fn iter(&mut self, e: bool, dt: u64) -> Vec<Any>;
    /// The pin, to make it fail (slots and iter then give nothing)
    fn pin(&self) -> Option<&Pin>;
    /// Error code of the last failed read
    fn err(&self) -> u32;
}

/// The concrete type is hidden in two closures, because the trait that bounds
/// it has no public name.
pub struct M {
    pub slots: Box<dyn FnMut(bool, u64) -> Vec<Option<Any>>>,
    pub iter: Box<dyn FnMut(bool, u64) -> Vec<Any>>,
    pub pin: Option<Pin>,
    pub err: std::rc::Rc<std::cell::Cell<u32>>,
}
impl MultiX for M {
    fn slots(&mut self, e: bool, dt: u64) -> Vec<Option<Any>> {
        (self.slots)(e, dt)
    }
    fn iter(&mut self, e: bool, dt: u64) -> Vec<Any> {
        (self.iter)(e, dt)
    }
    fn pin(&self) -> Option<&Pin> {
        self.pin.as_ref()
    }
    fn err(&self) -> u32 {
        self.err.get()
    }
}

pub fn dur<T: MonoX>(t: u64) -> T::Duration {
    T::dur(t)
}

pub type Multi<const N: usize, T, I, C> = MultiReceiver<N, T, I, C>;

macro_rules! multi_mono {
    ($n:expr, $t:ty, $c:ty, $f:expr, $pin:expr) => {{
        use std::cell::{Cell, RefCell};
        use std::rc::Rc;
        let err = Rc::new(Cell::new(0u32));
        if $pin {
            let pin = harness::recv::Pin::default();
            let r = Rc::new(RefCell::new(Multi::<$n, $t, harness::recv::Pin, $c>::new($f, pin.clone())));
            let (r2, p1, p2, e1, e2) = (r.clone(), pin.clone(), pin.clone(), err.clone(), err.clone());
            Box::new(M {
                slots: Box::new(move |e, dt| {
                    p1.low.set(e);
                    match r.borrow_mut().event(crate::base::dur::<$c>(dt)) {
                        Ok(a) => a.into_iter().map(|x| x.map(any)).collect(),
                        Err(x) => {
                            e1.set(x.0);
                            vec![]
                        }
                    }
                }),
                iter: Box::new(move |e, dt| {
                    p2.low.set(e);
                    let x = match r2.borrow_mut().event_iter(crate::base::dur::<$c>(dt)) {
                        Ok(a) => a.map(any).collect(),
                        Err(x) => {
                            e2.set(x.0);
                            vec![]
                        }
                    };
                    x
                }),
                pin: Some(pin),
                err,
            })
        } else {
            let r = Rc::new(RefCell::new(Multi::<$n, $t, (), $c>::new($f, ())));
            let r2 = r.clone();
            Box::new(M {
                slots: Box::new(move |e, dt| {
                    r.borrow_mut().event_generic(crate::base::dur::<$c>(dt), e).into_iter().map(|x| x.map(any)).collect()
                }),
                iter: Box::new(move |e, dt| {
                    let v: Vec<Any> = r2.borrow_mut().event_generic_iter(crate::base::dur::<$c>(dt), e).map(any).collect();
                    v
                }),
                pin: None,
                err,
            })
        }
    }};
}

macro_rules! multi_of {
    ($n:expr, $t:ty, $mono:expr, $f:expr, $pin:expr) => {
        match $mono {
            "u32" => multi_mono!($n, $t, u32, $f, $pin),
            "u64" => multi_mono!($n, $t, u64, $f, $pin),
            "f32" => {
                assert_eq!($f, 1_000_000);
                multi_mono!($n, $t, fugit::TimerInstantU32<1_000_000>, $f, $pin)
            }
            "f64" => {
                assert_eq!($f, 1_000_000);
                multi_mono!($n, $t, fugit::TimerInstantU64<1_000_000>, $f, $pin)
            }
            x => panic!("clock {x}"),
        }
    };
}

