prop = 'C25'
needs = 'a pause of more than 2^40 ticks between two frames whose low bits look like a header'
breaks = 'long pauses are cut to 40 bits, and the frame after the pause is lost'
edits = [('src/receiver/time/primitives.rs', 'impl InfraMonotonic for u64 {\n    type Instant = u64;\n    type Duration = u64;\n    const ZERO_INSTANT: Self::Instant = 0;\n    const ZERO_DURATION: Self::Duration = 0;\n\n    fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {\n        a.checked_sub(b)', 'impl InfraMonotonic for u64 {\n    type Instant = u64;\n    type Duration = u64;\n    const ZERO_INSTANT: Self::Instant = 0;\n    const ZERO_DURATION: Self::Duration = 0;\n\n    fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {\n        a.checked_sub(b).map(|d| d & 0xFF_FFFF_FFFF)')]
demo_sh = '#!/bin/bash\n# Runs the repository\'s program on a recording made here.\nd=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\npython3 - "$d/a.vcd" <<\'END\'\nimport sys\nscale, late = 1, 1000000\ndef frame(bits):\n    l = [(4500, 4500)] + [(560, 1690 if bits >> i & 1 else 560) for i in range(32)]\n    return l\nt = late\nout = ["$timescale %d us $end" % scale, "$scope module top $end", "$var wire 1 ! ir $end", "$upscope $end", "$enddefinitions $end"]\nfor a, c in ((7, 4), (0xE0, 0x15)):\n    bits = a | a << 8 | c << 16 | (c ^ 255) << 24\n    us = 0\n    for hi, lo in frame(bits):\n        out += ["#%d" % (t + us // scale), "1!", "#%d" % (t + (us + hi) // scale), "0!"]\n        us += hi + lo\n    out += ["#%d" % (t + us // scale), "1!", "#%d" % (t + (us + 560) // scale), "0!"]\n    t += us // scale + (1 << 40) + 9000 + 560\nopen(sys.argv[1], "w").write("\\n".join(out) + "\\n")\nEND\nexport CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"\ntimeout 250 cargo run --offline --quiet -p vcd-parser -- "$d/a.vcd" ir > "$d/out" 2>/dev/null\ngrep -q "addr: 7, cmd: 4, repeat: false" "$d/out" && grep -q "addr: 224, cmd: 21, repeat: false" "$d/out" && [ "$(grep -c ^Cmd "$d/out")" = 2 ]\n'
