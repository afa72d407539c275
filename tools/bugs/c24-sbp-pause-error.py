prop = "C24"
needs = "a Samsung Blu-ray frame whose pause between address and command has a wrong length"
breaks = "the broken pause is reported as an address error"
edits = [("src/protocol/sbp/mod.rs", "(Divider,       _)      => Err(DecodingError::Data),", "(Divider,       _)      => Err(DecodingError::Address),")]
demo = '''
use infrared::{protocol::Sbp, Receiver, receiver::DecodingError};
fn main() {
    let mut r: Receiver<Sbp> = Receiver::new(1_000_000);
    let mut v = sbp(32, 0, 5, !5);
    // edges: gap, header (2), 16 bits (2 each), then the pause
    v[2 + 32 + 2].1 += 2000;
    let errs: Vec<_> = v.iter().filter_map(|(e, us)| r.event(*us as u32, *e).err()).collect();
    assert_eq!(errs, vec![DecodingError::Data]);
}
'''
