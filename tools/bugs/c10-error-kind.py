prop = 'C10'
needs = "a protocol of the user's own that reports a validation error, on a pin driven receiver"
breaks = 'another kind of error is reported than by the other front ends'
edits = [('src/receiver/error.rs', 'DecodingError::Validation => Error::Validation', 'DecodingError::Validation => Error::Data')]
demo = '''
use infrared::{Protocol, Receiver, receiver::{DecoderBuilder, ProtocolDecoder, State, DecodingError, Error, time::PulseSpans}};
struct P;
struct D(PulseSpans<u32>);
impl Protocol for P { type Cmd = u8; }
impl DecoderBuilder<u32> for P {
    type Decoder = D;
    fn build(f: u32) -> D { D(PulseSpans::new(f, &[0; 8], &[0; 8])) }
}
impl ProtocolDecoder<P, u32> for D {
    fn event(&mut self, _: bool, _: u32) -> State { State::Error(DecodingError::Validation) }
    fn command(&self) -> Option<u8> { None }
    fn reset(&mut self) {}
    fn spans(&self) -> &PulseSpans<u32> { &self.0 }
}
struct Pin;
impl embedded_hal::digital::v2::InputPin for Pin {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> { Ok(true) }
    fn is_low(&self) -> Result<bool, ()> { Ok(false) }
}
fn main() {
    let mut r: Receiver<P, Pin> = Receiver::with_pin(1_000_000, Pin);
    assert_eq!(r.event(1), Err(Error::Validation));
}
'''
