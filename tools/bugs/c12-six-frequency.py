prop = 'C12'
needs = 'a multi receiver of six protocols at a frequency of more than 1 MHz that is not a whole number of kHz'
breaks = 'the last receiver is built for another frequency'
edits = [('src/receiver/multi.rs', '            Receiver::new(res),\n            Receiver::new(res),\n            Receiver::new(res),\n            Receiver::new(res),\n            Receiver::new(res),\n            Receiver::new(res),\n', '            Receiver::new(res),\n            Receiver::new(res),\n            Receiver::new(res),\n            Receiver::new(res),\n            Receiver::new(res),\n            Receiver::new(if res > 1_000_000 { res - res % 1_000_000 } else { res }),\n')]
demo = '''
use infrared::{protocol::{Denon, Nec, Rc5, Rc6, SamsungNec, Sbp}, receiver::{MultiReceiver, NoPin}};
fn main() {
    let f = 3_579_545;
    let mut r: MultiReceiver<6, (Nec, SamsungNec, Sbp, Denon, Rc5, Rc6), NoPin> = MultiReceiver::new(f, NoPin);
    let mut got = vec![];
    for (e, us) in rc6(1, 3, true).into_iter().chain([(true, 90_000)]) {
        got.extend(r.event_generic(ticks(us, f), e).into_iter().flatten().map(|c| (c.protocol, c.command)));
    }
    assert_eq!(got, vec![(infrared::ProtocolId::Rc6, 3)]);
}
'''
