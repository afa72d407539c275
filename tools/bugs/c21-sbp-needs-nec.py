prop = 'C21'
needs = 'the feature sbp without the feature nec'
breaks = 'the builder has no method for the Blu-ray protocol'
edits = [('src/receiver/builder.rs', '    #[cfg(feature = "sbp")]\n    pub fn samsung_bluray', '    #[cfg(all(feature = "sbp", feature = "nec"))]\n    pub fn samsung_bluray')]
demo_sh = r'''#!/bin/bash
# Builds and runs a small program with only some features of the crate in the current directory.
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cat > "$d/src/main.rs" <<END
fn main() {
    let mut r = infrared::receiver().samsung_bluray().build();
    assert!(matches!(r.event(100u32, true), Ok(None)));
}
END
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
infrared = { path = "$repo", default-features = false, features = ["sbp"] }
END
cd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet
'''
