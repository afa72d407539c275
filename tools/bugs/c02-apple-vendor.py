prop = "C02"
needs = "an Apple-like frame whose vendor id differs from Apple's in the top bit only (0x03F), with odd parity"
breaks = "a frame of another vendor is reported as an Apple command"
edits = [("src/protocol/nec/apple.rs", "vendor == APPLE_VENDOR_ID &&", "vendor & 0x3FF == APPLE_VENDOR_ID & 0x3FF &&")]
demo = '''
use infrared::{protocol::AppleNec, Receiver};
fn main() {
    for (vendor, n) in [(0x43Fu32, 1), (0x03F, 0), (0x43E, 0)] {
        let mut r: Receiver<AppleNec> = Receiver::new(1_000_000);
        let mut bits = 0x0E | (vendor << 5) | (0x05 << 17) | (0x35 << 24);
        if bits.count_ones() % 2 == 0 { bits |= 1 << 16; }
        let mut got = 0;
        for (e, us) in nec(bits) {
            if let Ok(Some(_)) = r.event(us as u32, e) { got += 1; }
        }
        assert_eq!(got, n);
    }
}
'''
