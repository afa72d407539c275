prop = 'C21'
needs = 'remotes without a pin interface'
breaks = 'the builder cannot attach a remote'
edits = [('src/receiver/builder.rs', '    #[cfg(feature = "remotes")]\n    /// Use Remote control', '    #[cfg(all(feature = "remotes", feature = "embedded-hal"))]\n    /// Use Remote control')]
demo_sh = '#!/bin/bash\n# Builds and runs a small program with only some features of the crate in the current directory.\nrepo=$(pwd)\nd=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\nmkdir -p "$d/src"\ncat > "$d/src/main.rs" <<END\nuse infrared::remotecontrol::rc5::CdPlayer;\nfn main() { let _ = infrared::receiver().rc5().remotecontrol(CdPlayer).build(); }\nEND\ncat > "$d/Cargo.toml" <<END\n[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\ninfrared = { path = "$repo", default-features = false, features = ["rc5", "remotes"] }\nEND\ncd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet\n'
