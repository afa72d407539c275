prop = 'C13'
needs = 'a load while a command is being played, at a moment when the carrier is off'
breaks = 'the command in progress is abandoned and the new one started'
edits = [('src/sender/hal.rs', '        if self.buffer.status == Status::Idle {', '        if matches!(self.buffer.status, Status::Idle | Status::Transmit(false)) {')]
demo = '''
use infrared::{protocol::{nec::NecCommand, Nec}, sender::Sender};
use std::{cell::Cell, rc::Rc};
struct W(Rc<Cell<bool>>);
impl embedded_hal::PwmPin for W {
    type Duty = u32;
    fn disable(&mut self) { self.0.set(false) }
    fn enable(&mut self) { self.0.set(true) }
    fn get_duty(&self) -> u32 { 0 }
    fn get_max_duty(&self) -> u32 { 0 }
    fn set_duty(&mut self, _: u32) {}
}
fn play(second: usize) -> Vec<bool> {
    let on = Rc::new(Cell::new(false));
    let mut s: Sender<W, 40_000, 128> = Sender::new(W(on.clone()));
    s.load::<Nec>(&NecCommand { addr: 1, cmd: 2, repeat: false });
    (0..4000).map(|k| {
        if k == second { s.load::<Nec>(&NecCommand { addr: 9, cmd: 200, repeat: false }) }
        s.tick();
        on.get()
    }).collect()
}
fn main() {
    let alone = play(5000);
    for k in [10, 100, 400, 450, 600] { assert!(play(k) == alone, "{k}"); }
}
'''
