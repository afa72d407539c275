prop = 'C21'
needs = 'the crate without the feature fugit'
breaks = 'receivers without a pin lose event_instant'
edits = [('src/receiver.rs', '    pub fn event_instant(\n        &mut self,', '    #[cfg(feature = "fugit")]\n    pub fn event_instant(\n        &mut self,')]
demo_sh = r'''#!/bin/bash
# Builds and runs a small program with only some features of the crate in the current directory.
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cat > "$d/src/main.rs" <<END
use infrared::{protocol::Rc5, Receiver};
fn main() {
    let mut r: Receiver<Rc5> = Receiver::new(40_000);
    assert!(matches!(r.event_instant(100u32, true), Ok(None)));
}
END
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
infrared = { path = "$repo", default-features = false, features = ["rc5", "embedded-hal"] }
END
cd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet
'''
