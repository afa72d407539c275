From 21c92df5068d4c1cd3a6c6ca86f2c768880ec39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:56 +0000
Subject: [PATCH 01/18] fix: sender must not play buffer entries beyond the
 loaded command

PulsedataBuffer::get read the whole backing array, so a fresh sender toggled
the output and every command was followed by stale or zero entries.
---
 src/sender/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender/buffer.rs b/src/sender/buffer.rs
index f24a0b9..0a05e06 100644
--- a/src/sender/buffer.rs
+++ b/src/sender/buffer.rs
@@ -23,7 +23,7 @@ impl<const S: usize> PulsedataBuffer<S> {
     }
 
     pub fn get(&self, index: usize) -> Option<u32> {
-        self.buf.get(index).cloned()
+        self.buffer().get(index).cloned()
     }
 
     pub fn buffer(&self) -> &[u32] {
-- 
2.43.0


From 7c7ad878743d750f5baf2770c63959d56df99bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:57 +0000
Subject: [PATCH 02/18] fix: encode the stop mark of NEC frames

Without it the sender cuts the final mark after a single tick.
---
 src/protocol/nec/encoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index 858e080..b330ac9 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -49,6 +49,9 @@ where
             bi += 2;
         }
 
-        bi
+        // The mark that ends the last data bit
+        b[bi] = <Self as ProtocolEncoder<F>>::DATA[3];
+
+        bi + 1
     }
 }
-- 
2.43.0


From bede3ef6179a7067e258d1198c6621975f7dcb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:57 +0000
Subject: [PATCH 03/18] fix: encode the last half bit of RC5 frames that end
 with a one

Without it the sender cuts the final mark after a single tick.
---
 src/protocol/rc5/encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index 4019414..9e10e14 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -42,6 +42,12 @@ impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
             prev = cur;
         }
 
+        // A trailing one ends with the output high, for half a bit
+        if prev {
+            buf[index] = rc5len;
+            index += 1;
+        }
+
         index
     }
 }
-- 
2.43.0


From 464761ca4b29a983817f59c9ee59104ea5ea022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:57 +0000
Subject: [PATCH 04/18] fix: exact conversion from microseconds to ticks in the
 receiver

Frequencies that are not a multiple of 1000 were truncated to kHz, so the
pulse windows disagreed with the ones of a fugit clock of the same frequency.
---
 src/protocol/utils.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/protocol/utils.rs b/src/protocol/utils.rs
index 58b763d..611f766 100644
--- a/src/protocol/utils.rs
+++ b/src/protocol/utils.rs
@@ -1,12 +1,5 @@
-pub(crate) const fn scale_with_samplerate(len: u32, mut samplerate: u32) -> u32 {
-    let mut div = 1_000_000;
-
-    while len.checked_mul(samplerate).is_none() {
-        div /= 1000;
-        samplerate /= 1000;
-    }
-
-    (len * samplerate) / div
+pub(crate) const fn scale_with_samplerate(len: u32, samplerate: u32) -> u32 {
+    ((len as u64 * samplerate as u64) / 1_000_000) as u32
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3f033d127d1bf89d65c7558b7e49df8fa94e9b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:57 +0000
Subject: [PATCH 05/18] fix: exact pulse lengths in the NEC and RC5 encoders

Truncating the frequency to kHz made every pulse too short at, for example,
32768 Hz, and the product could overflow.
---
 src/protocol/nec/encoder.rs | 26 +++++++-------------------
 src/protocol/rc5/encoder.rs | 26 ++++++++++----------------
 2 files changed, 17 insertions(+), 35 deletions(-)

diff --git a/src/protocol/nec/encoder.rs b/src/protocol/nec/encoder.rs
index b330ac9..fa53c3d 100644
--- a/src/protocol/nec/encoder.rs
+++ b/src/protocol/nec/encoder.rs
@@ -1,32 +1,20 @@
 use crate::{
-    protocol::{nec::NecCommandVariant, Nec},
+    protocol::{nec::NecCommandVariant, utils::scale_with_samplerate, Nec},
     sender::ProtocolEncoder,
 };
 
-const fn calc_ticks(l: u32, mut f: u32) -> u32 {
-    //TODO: Fix overflow
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    f * l / div
-}
-
 impl<Cmd, const F: u32> ProtocolEncoder<F> for Nec<Cmd>
 where
     Cmd: NecCommandVariant,
 {
     type EncoderData = [u32; 6];
     const DATA: [u32; 6] = [
-        calc_ticks(Cmd::PULSE_DISTANCE.header_high, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.header_low, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.repeat_low, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.data_high, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.data_zero_low, F),
-        calc_ticks(Cmd::PULSE_DISTANCE.data_one_low, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.header_high, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.header_low, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.repeat_low, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.data_high, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.data_zero_low, F),
+        scale_with_samplerate(Cmd::PULSE_DISTANCE.data_one_low, F),
     ];
 
     fn encode(cmd: &Self::Cmd, b: &mut [u32]) -> usize {
diff --git a/src/protocol/rc5/encoder.rs b/src/protocol/rc5/encoder.rs
index 9e10e14..6999fdb 100644
--- a/src/protocol/rc5/encoder.rs
+++ b/src/protocol/rc5/encoder.rs
@@ -1,20 +1,14 @@
-use crate::{protocol::Rc5, sender::ProtocolEncoder};
-
-//TODO: Check Overflow
-const fn calc_freq(mut f: u32) -> u32 {
-    let mut div = 1_000_000;
-
-    if f > 1000 {
-        f /= 1000;
-        div /= 1000;
-    }
-
-    (889 * f) / div
-}
+use crate::{
+    protocol::{utils::scale_with_samplerate, Rc5},
+    sender::ProtocolEncoder,
+};
 
 impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
-    type EncoderData = [u32; 1];
-    const DATA: Self::EncoderData = [calc_freq(FREQ)];
+    type EncoderData = [u32; 2];
+    const DATA: Self::EncoderData = [
+        scale_with_samplerate(889, FREQ),
+        scale_with_samplerate(2 * 889, FREQ),
+    ];
 
     fn encode(cmd: &Self::Cmd, buf: &mut [u32]) -> usize {
         // Command as bits
@@ -35,7 +29,7 @@ impl<const FREQ: u32> ProtocolEncoder<FREQ> for Rc5 {
                 buf[index + 1] = rc5len;
                 index += 2;
             } else {
-                buf[index] = rc5len * 2;
+                buf[index] = <Self as ProtocolEncoder<FREQ>>::DATA[1];
                 index += 1;
             }
 
-- 
2.43.0


From a5cd46ec80886c4c6c25378e362fed152cc7e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 06/18] fix: exact pulse lengths in the RC6 encoder

Multiples of the truncated time unit drifted out of the receive windows (at
20 kHz no frame could be received) and 444 * F overflowed above 9.6 MHz.
---
 src/protocol/rc6/encoder.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/protocol/rc6/encoder.rs b/src/protocol/rc6/encoder.rs
index 2b40348..9e9818e 100644
--- a/src/protocol/rc6/encoder.rs
+++ b/src/protocol/rc6/encoder.rs
@@ -1,13 +1,20 @@
-use crate::{protocol::Rc6, sender::ProtocolEncoder};
+use crate::{
+    protocol::{utils::scale_with_samplerate, Rc6},
+    sender::ProtocolEncoder,
+};
+
+/// Length of a time unit in us
+const RC6_TIME_UNIT: u32 = 444;
 
 impl<const F: u32> ProtocolEncoder<F> for Rc6 {
     type EncoderData = [u32; 1];
-    const DATA: Self::EncoderData = [((444 * F) / 1_000_000)];
+    const DATA: Self::EncoderData = [scale_with_samplerate(RC6_TIME_UNIT, F)];
 
     fn encode(cmd: &Self::Cmd, b: &mut [u32]) -> usize {
         use Level::*;
 
-        let rc6len = <Self as ProtocolEncoder<F>>::DATA[0];
+        // Levels are put together in us and converted to ticks when written
+        let rc6len = RC6_TIME_UNIT;
 
         let header = leader(cmd.toggle, rc6len);
 
@@ -27,12 +34,12 @@ impl<const F: u32> ProtocolEncoder<F> for Rc6 {
                     prevlev = Low(lt + nlt);
                 }
                 (Low(lt), High(ht)) => {
-                    b[index] = lt;
+                    b[index] = scale_with_samplerate(lt, F);
                     index += 1;
                     prevlev = High(ht)
                 }
                 (High(ht), Low(lt)) => {
-                    b[index] = ht;
+                    b[index] = scale_with_samplerate(ht, F);
                     index += 1;
                     prevlev = Low(lt);
                 }
-- 
2.43.0


From f128ed2cdc76d454094c2ac077f71196e0b7d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 07/18] fix: keep the last bit of Denon frames

A one in bit 47 was dropped.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 00fcb5b..582501b 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -86,7 +86,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
-                (DenonState::Data(47),      PulseWidth::One)    => DenonState::Done,
+                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                 (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                 (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
                 (DenonState::Data(_ix),     _)                  => DenonState::Idle,
-- 
2.43.0


From 0d50e081aac7cb74044e3ae4e52ab11e837f9051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 08/18] fix: start every Denon frame with an empty buffer

The bits of a frame that was broken off leaked into the next one.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 582501b..25555b8 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -83,7 +83,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
-                (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
+                (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; DenonState::Data(0) }
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
                 (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
-- 
2.43.0


From 8b9412a3e3a06569b6fc289748656bd9f71e5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 09/18] fix: NEC repeat without a complete frame before it is
 not a command

A repeat code as the first signal, or after a frame that was broken off,
reported a command nobody sent.
---
 src/protocol/nec/decoder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 6bf3bf5..d1a6e65 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -33,6 +33,7 @@ impl<Mono: InfraMonotonic, Cmd: NecCommandVariant> DecoderBuilder<Mono> for Nec<
         NecDecoder {
             state: NecState::Init,
             bitbuf: 0,
+            complete: false,
             cmd_type: Default::default(),
             dt_save: Mono::ZERO_DURATION,
             pulsespans: PulseSpans::new(freq, &pulselens::<Cmd>(), &TOL),
@@ -45,6 +46,8 @@ pub struct NecDecoder<Mono: InfraMonotonic, C = NecCommand> {
     state: NecState,
     // Data buffer
     bitbuf: u32,
+    // The data buffer holds a complete frame
+    complete: bool,
     // Nec Command type
     cmd_type: PhantomData<C>,
     // Saved dt
@@ -100,12 +103,12 @@ where
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
-                (Init,              Sync)   => { self.bitbuf = 0; Receiving(0) },
+                (Init,              Sync)   => { self.bitbuf = 0; self.complete = false; Receiving(0) },
                 (Init,              Repeat) => RepeatDone,
                 (Init,              _)      => Init,
 
-                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; Done }
-                (Receiving(31),     Zero)   => Done,
+                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
+                (Receiving(31),     Zero)   => { self.complete = true; Done }
                 (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                 (Receiving(bit),    Zero)   => Receiving(bit + 1),
                 (Receiving(_),      _)      => Err(DecodingError::Data),
@@ -136,7 +139,7 @@ where
     fn command(&self) -> Option<Cmd> {
         match self.state {
             NecState::Done => Cmd::unpack(self.bitbuf, false),
-            NecState::RepeatDone => Cmd::unpack(self.bitbuf, true),
+            NecState::RepeatDone if self.complete => Cmd::unpack(self.bitbuf, true),
             _ => None,
         }
     }
-- 
2.43.0


From 0ad4da409a12957f21b4052d3b64d88dc6261448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 10/18] fix: buffer iterator must not stop at the first broken
 frame

None ends an iteration, so the commands after a frame with an error, or
without a command, were lost.
---
 src/receiver/iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/receiver/iter.rs b/src/receiver/iter.rs
index 7398553..dbb5537 100644
--- a/src/receiver/iter.rs
+++ b/src/receiver/iter.rs
@@ -60,11 +60,12 @@ where
                 State::Done => {
                     let cmd = self.decoder.command();
                     self.decoder.reset();
-                    break cmd.map(|r| r.into());
+                    if let Some(cmd) = cmd {
+                        break Some(cmd.into());
+                    }
                 }
                 State::Error(_) => {
                     self.decoder.reset();
-                    break None;
                 }
             }
         }
-- 
2.43.0


From 60170181014d587dadf2b38bbedd6f0e0214a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 11/18] fix: unused pulse spans must not match

A zero length pulse was taken for three (RC5) or seven (RC6) half bits, and
check_overlaps was true for every protocol.
---
 src/receiver/time.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index 96fe8fa..d2686eb 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -56,14 +56,19 @@ where
     pub fn get<P: From<usize>>(&self, pl: Mono::Duration) -> Option<P> {
         self.spans
             .iter()
-            .position(|v| v.contains(pl))
+            .position(|v| Self::in_use(v) && v.contains(pl))
             .map(Into::into)
     }
 
+    /// Spans that the protocol has no pulse for are empty
+    fn in_use(span: &Span<Mono::Duration>) -> bool {
+        span.high > Mono::ZERO_DURATION
+    }
+
     pub fn check_overlaps(&self) -> bool {
         for i in 0..self.spans.len() {
             for j in 0..self.spans.len() {
-                if i == j {
+                if i == j || !Self::in_use(&self.spans[i]) || !Self::in_use(&self.spans[j]) {
                     continue;
                 }
 
-- 
2.43.0


From 1fdc83cc77dc443d86a6979a187d47a070d88b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 12/18] fix: round pulse tolerances up

Rounded down they vanish at low sample rates: at 20 kHz an RC6 time unit (8.88
ticks) was only accepted as 8 ticks, so sampled frames could not be received.
---
 src/receiver/time/fgt.rs        | 4 ++--
 src/receiver/time/primitives.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index 6e71079..6be5983 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -19,7 +19,7 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
 
 impl<const NOM: u32, const DENOM: u32> Span<Duration<u32, NOM, DENOM>> {
     pub fn new(base: Duration<u32, NOM, DENOM>, tol: u32) -> Self {
-        let tol = base * tol / 100;
+        let tol = Duration::<u32, NOM, DENOM>::from_ticks((base.ticks() * tol + 99) / 100);
         let low = base - tol;
         let high = base + tol;
 
@@ -45,7 +45,7 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u64, NOM, DENO
 
 impl<const NOM: u32, const DENOM: u32> Span<Duration<u64, NOM, DENOM>> {
     pub fn new(base: Duration<u64, NOM, DENOM>, tol: u32) -> Self {
-        let tol = base * tol / 100;
+        let tol = Duration::<u64, NOM, DENOM>::from_ticks((base.ticks() * u64::from(tol) + 99) / 100);
         let low = base - tol;
         let high = base + tol;
 
diff --git a/src/receiver/time/primitives.rs b/src/receiver/time/primitives.rs
index feedf93..f580a81 100644
--- a/src/receiver/time/primitives.rs
+++ b/src/receiver/time/primitives.rs
@@ -35,7 +35,7 @@ impl InfraMonotonic for u64 {
 
 impl Span<u32> {
     pub const fn new(base: u32, tol: u32) -> Self {
-        let tol = base * tol / 100;
+        let tol = (base * tol + 99) / 100;
         let low = base - tol;
         let high = base + tol;
 
@@ -50,7 +50,7 @@ impl Span<u32> {
 
 impl Span<u64> {
     pub const fn new(base: u32, tol: u32) -> Self {
-        let tol = base * tol / 100;
+        let tol = (base * tol + 99) / 100;
         let low = base - tol;
         let high = base + tol;
 
-- 
2.43.0


From 3e2c3ca0e399333e9fd6d0161167fcbea60cd80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 13/18] fix: create() must not make a different command

Addresses and commands that do not fit were truncated (NEC, Samsung) or spilled
into other fields of the frame (RC5).
---
 src/protocol/nec/samsung.rs  | 4 ++--
 src/protocol/nec/standard.rs | 4 ++--
 src/protocol/rc5/mod.rs      | 7 ++++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/protocol/nec/samsung.rs b/src/protocol/nec/samsung.rs
index cd60a29..c3f8ac9 100644
--- a/src/protocol/nec/samsung.rs
+++ b/src/protocol/nec/samsung.rs
@@ -53,8 +53,8 @@ impl AddressCommand for SamsungNecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(SamsungNecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/nec/standard.rs b/src/protocol/nec/standard.rs
index e50d63e..ed70c3e 100644
--- a/src/protocol/nec/standard.rs
+++ b/src/protocol/nec/standard.rs
@@ -54,8 +54,8 @@ impl AddressCommand for NecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(NecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/rc5/mod.rs b/src/protocol/rc5/mod.rs
index 59ca5bb..140d8e3 100644
--- a/src/protocol/rc5/mod.rs
+++ b/src/protocol/rc5/mod.rs
@@ -90,7 +90,12 @@ impl AddressCommand for Rc5Command {
 
     fn create(addr: u32, cmd: u32) -> Option<Rc5Command> {
         let addr: u8 = addr.try_into().ok()?;
-        let cmd = cmd.try_into().ok()?;
+        let cmd: u8 = cmd.try_into().ok()?;
+
+        // 5 bits of address and 6 bits of command
+        if addr > 0x1F || cmd > 0x3F {
+            return None;
+        }
 
         Some(Rc5Command::new(addr, cmd, false))
     }
-- 
2.43.0


From cdfd0c7600e0a356965a1c2ec359b50fa1d7422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 14/18] fix: keep the command page in the generic command of
 Apple remotes

The shift was done in a u8.
---
 src/protocol/nec/apple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/nec/apple.rs b/src/protocol/nec/apple.rs
index e925129..a416a60 100644
--- a/src/protocol/nec/apple.rs
+++ b/src/protocol/nec/apple.rs
@@ -70,7 +70,7 @@ impl AddressCommand for AppleNecCommand {
     }
 
     fn command(&self) -> u32 {
-        u32::from((self.command_page << 7) | self.command)
+        (u32::from(self.command_page) << 7) | u32::from(self.command)
     }
 
     fn create(_addr: u32, _cmd: u32) -> Option<Self> {
-- 
2.43.0


From b0e98f800178634baec923f5fb45844b8412da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:02 +0000
Subject: [PATCH 15/18] fix: long pauses must not overflow the pulse distance

The mark and space of a pulse were added without care: two long durations made
the decoder panic, or wrap around to a valid pulse length.
---
 src/protocol/denon/mod.rs       | 2 +-
 src/protocol/nec/decoder.rs     | 2 +-
 src/protocol/sbp/mod.rs         | 2 +-
 src/receiver/time.rs            | 5 +++++
 src/receiver/time/fgt.rs        | 8 ++++++++
 src/receiver/time/primitives.rs | 8 ++++++++
 6 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 25555b8..0b6c8aa 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -79,7 +79,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
     fn event(&mut self, rising: bool, dt: Mono::Duration) -> State {
 
         if rising {
-            let pulsewidth = self.spans.get::<PulseWidth>( self.dt_save + dt)
+            let pulsewidth = self.spans.get::<PulseWidth>(Mono::saturating_add(self.dt_save, dt))
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index d1a6e65..f972253 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -97,7 +97,7 @@ where
 
         if rising {
 
-            let total_duration = dur + self.dt_save;
+            let total_duration = Mono::saturating_add(dur, self.dt_save);
 
             let pulsewidth = self.pulsespans.get(total_duration)
                 .unwrap_or(PulseWidth::Invalid);
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 49551e8..3858946 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -138,7 +138,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         use SbpState::*;
 
         if rising {
-            let dt = self.since_rising + dt;
+            let dt = Mono::saturating_add(self.since_rising, dt);
             let pulsewidth = self.spans.get::<SbpPulse>(dt).unwrap_or(SbpPulse::NotAPulseWidth);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index d2686eb..955e57f 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -20,6 +20,11 @@ pub trait InfraMonotonic: Sized {
 
     fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration>;
 
+    /// Sum of two durations, at most the longest one that can be represented
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a + b
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration>;
 }
 
diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index 6be5983..a0d4562 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -12,6 +12,10 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        Self::Duration::from_ticks(a.ticks().saturating_add(b.ticks()))
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<Self::Duration>::new(p.micros(), t)
     }
@@ -37,6 +41,10 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u64, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        Self::Duration::from_ticks(a.ticks().saturating_add(b.ticks()))
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         let p: u64 = p.into();
         Span::<Self::Duration>::new(p.micros(), t)
diff --git a/src/receiver/time/primitives.rs b/src/receiver/time/primitives.rs
index f580a81..4993d66 100644
--- a/src/receiver/time/primitives.rs
+++ b/src/receiver/time/primitives.rs
@@ -13,6 +13,10 @@ impl InfraMonotonic for u32 {
         a.checked_sub(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.saturating_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u32>::scaled(p, freq, t)
     }
@@ -28,6 +32,10 @@ impl InfraMonotonic for u64 {
         a.checked_sub(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.saturating_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u64>::scaled(p, freq, t)
     }
-- 
2.43.0


From 46a5e9bddbb21d7b1e6a1255ef6d8af816776ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:02 +0000
Subject: [PATCH 16/18] fix: decoders have no command before they are done

The contract of ProtocolDecoder::command; RC5, RC6 and SBP returned a command
made of the bits received so far.
---
 src/protocol/rc5/decoder.rs | 5 ++++-
 src/protocol/rc6/decoder.rs | 5 ++++-
 src/protocol/sbp/mod.rs     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 3a404d1..fe4285d 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -68,7 +68,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc5Command> {
-        Some(Rc5Command::unpack(self.bitbuf))
+        match self.state {
+            Rc5State::Done => Some(Rc5Command::unpack(self.bitbuf)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 76234d6..798266e 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -93,7 +93,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc6Command> {
-        Some(Rc6Command::from_bits(self.data, self.toggle))
+        match self.state {
+            Rc6State::Done => Some(Rc6Command::from_bits(self.data, self.toggle)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 3858946..6294fc5 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -170,7 +170,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         self.state.into()
     }
     fn command(&self) -> Option<SbpCommand> {
-        Some(SbpCommand::unpack(self.address, self.command))
+        match self.state {
+            SbpState::Done => Some(SbpCommand::unpack(self.address, self.command)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
-- 
2.43.0


From 46e97918508b3e65d51f33fc74191a1e143002fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:02 +0000
Subject: [PATCH 17/18] fix: build with sbp but without remotes, and with
 embedded-hal but without embedded

---
 src/protocol/sbp/mod.rs | 4 +---
 src/receiver/ppoll.rs   | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 6294fc5..46464f6 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -9,14 +9,12 @@
 
 use core::convert::TryInto;
 
-#[cfg(feature = "remotes")]
-use crate::receiver::{DecodingError, ProtocolDecoder, State};
 use crate::{
     cmd::{AddressCommand, Command},
     protocol::Protocol,
     receiver::{
         time::{InfraMonotonic, PulseSpans},
-        DecoderBuilder,
+        DecoderBuilder, DecodingError, ProtocolDecoder, State,
     },
     ProtocolId,
 };
diff --git a/src/receiver/ppoll.rs b/src/receiver/ppoll.rs
index 02f6dd4..82e96af 100644
--- a/src/receiver/ppoll.rs
+++ b/src/receiver/ppoll.rs
@@ -1,6 +1,6 @@
 use core::marker::PhantomData;
 
-#[cfg(feature = "embedded")]
+#[cfg(feature = "embedded-hal")]
 use embedded_hal::digital::v2::InputPin;
 
 use crate::{
-- 
2.43.0


From 18c938c77dbd4d7184974b69169d2f64c0340b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:49 +0000
Subject: [PATCH 18/18] fix: pulse spans of 32 bit fugit clocks of odd
 frequencies

Converting the pulse length overflowed for clocks such as 3.579545 MHz: a panic
when the receiver is created, or windows of a wrong length.
---
 src/receiver/time/fgt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index a0d4562..2ab30ca 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -1,4 +1,4 @@
-use fugit::{Duration, ExtU32, ExtU64, Instant};
+use fugit::{Duration, ExtU64, Instant};
 
 use crate::receiver::time::{InfraMonotonic, Span};
 
@@ -17,7 +17,9 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
     }
 
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
-        Span::<Self::Duration>::new(p.micros(), t)
+        // Convert with 64 bits, the product does not fit in 32 for all clocks
+        let base = Duration::<u64, NOM, DENOM>::micros(p.into());
+        Span::<Self::Duration>::new(Self::Duration::from_ticks(base.ticks() as u32), t)
     }
 }
 
-- 
2.43.0

