prop = 'C21'
needs = 'the feature embedded-hal without the feature fugit'
breaks = 'receivers with a pin do not compile or are missing'
edits = [('src/receiver.rs', '#[cfg(feature = "embedded-hal")]\nimpl<Proto, Pin, Mono, Cmd> Receiver<Proto, Pin, Mono, Cmd>\nwhere\n    Proto: DecoderBuilder<Mono>,\n    Pin: InputPin,\n    Mono: InfraMonotonic,\n    Cmd: From<Proto::Cmd>,\n{\n    /// Create a `Receiver` with `pin` as input', '#[cfg(feature = "embedded")]\nimpl<Proto, Pin, Mono, Cmd> Receiver<Proto, Pin, Mono, Cmd>\nwhere\n    Proto: DecoderBuilder<Mono>,\n    Pin: InputPin,\n    Mono: InfraMonotonic,\n    Cmd: From<Proto::Cmd>,\n{\n    /// Create a `Receiver` with `pin` as input')]
demo_sh = r'''#!/bin/bash
# Builds and runs a small program with only some features of the crate in the current directory.
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cat > "$d/src/main.rs" <<END
use embedded_hal::digital::v2::InputPin;
use infrared::{protocol::Rc5, Receiver};
struct P;
impl InputPin for P {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> { Ok(true) }
    fn is_low(&self) -> Result<bool, ()> { Ok(false) }
}
fn main() {
    let mut r: Receiver<Rc5, P> = Receiver::with_pin(40_000, P);
    assert!(matches!(r.event(100u32), Ok(None)));
}
END
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
infrared = { path = "$repo", default-features = false, features = ["rc5", "embedded-hal"] }
embedded-hal = { version = "0.2.4", features = ["unproven"] }
END
cd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet
'''
