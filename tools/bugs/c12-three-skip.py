prop = 'C12'
needs = 'a multi receiver of three whose first protocol reports an error at an edge of the frame of another'
breaks = 'the other receivers do not see the edge at which the first one fails'
edits = [('src/receiver/multi.rs', '-> [Option<AnyCommand>; 3] {\n        [\n            rs.0.event(dt, edge).unwrap_or_default().map(Into::into),', '-> [Option<AnyCommand>; 3] {\n        let Ok(first) = rs.0.event(dt, edge) else {\n            return [None, None, None];\n        };\n        [\n            first.map(Into::into),')]
demo = '''
use infrared::{protocol::{SamsungNec, Sbp, Rc6}, receiver::{MultiReceiver, NoPin}};
fn main() {
    let mut r: MultiReceiver<3, (SamsungNec, Sbp, Rc6), NoPin> = MultiReceiver::new(1_000_000, NoPin);
    let mut n = 0;
    for (e, us) in sbp(0x0102, 0, 1, 0xfe).into_iter().chain([(true, 40_000)]) {
        n += r.event_generic(us as u32, e).into_iter().flatten().count();
    }
    assert_eq!(n, 1);
}
'''
