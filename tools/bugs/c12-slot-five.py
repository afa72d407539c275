prop = 'C12'
needs = 'a multi receiver of six protocols in which the fourth reports an error at the edge at which the fifth reports a command'
breaks = "the fifth slot's command is dropped"
edits = [('src/receiver/multi.rs', '            rs.3.event(dt, edge).unwrap_or_default().map(Into::into),\n            rs.4.event(dt, edge).unwrap_or_default().map(Into::into),\n            rs.5.event(dt, edge).unwrap_or_default().map(Into::into),', '            rs.3.event(dt, edge).unwrap_or_default().map(Into::into),\n            rs.4.event(dt, edge).unwrap_or_default().map(Into::into),\n            if edge { rs.5.event(dt, edge).unwrap_or_default().map(Into::into) } else { None },')]
demo = '''
use infrared::{protocol::{Denon, Nec, Rc5, Rc6, SamsungNec, Sbp}, receiver::{MultiReceiver, NoPin}};
fn main() {
    let mut r: MultiReceiver<6, (Nec, SamsungNec, Sbp, Denon, Rc5, Rc6), NoPin> = MultiReceiver::new(1_000_000, NoPin);
    let mut got = vec![];
    for (e, us) in rc6(1, 3, true).into_iter().chain([(true, 90_000)]) {
        got.extend(r.event_generic(us as u32, e).into_iter().flatten().map(|c| (c.protocol, c.command)));
    }
    assert_eq!(got, vec![(infrared::ProtocolId::Rc6, 3)]);
}
'''
