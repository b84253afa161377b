From 9d70ad90628638871420b42d29bdd199190d29e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 01/32] fix: reject out of range channel on deserialization

---
 src/channel.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/channel.rs b/src/channel.rs
index 9964692..30bc7a4 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -1,7 +1,20 @@
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub struct Channel(u8);
 
+impl TryFrom<u8> for Channel {
+  type Error = String;
+
+  fn try_from(value: u8) -> Result<Self, Self::Error> {
+    if value < 16 {
+      Ok(Self(value))
+    } else {
+      Err(format!("Invalid channel value(={}). Should be < 16.", value))
+    }
+  }
+}
+
 impl Channel {
   pub fn new(value: u8) -> Self {
     if value < 16 {
-- 
2.43.0


From 7830d8be7706e9e9df633aa7a0964e6b7db73049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 02/32] fix: reject out of range dots on deserialization

---
 src/duration.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/duration.rs b/src/duration.rs
index 441e933..34fde7f 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -89,9 +89,18 @@ impl Denominator {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
 pub struct Dots(u8);
 
+impl TryFrom<u8> for Dots {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        Dots::from_value(value).ok_or_else(|| format!("Invalid dots value(={}).", value))
+    }
+}
+
 impl Default for Dots {
     fn default() -> Self {
         Self::ZERO
-- 
2.43.0


From c80efa77d284d6854cc990b631f06199261e4bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 03/32] fix: reject out of range rhythm numerator on
 deserialization

---
 src/rhythm.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rhythm.rs b/src/rhythm.rs
index 9397d99..a85b962 100644
--- a/src/rhythm.rs
+++ b/src/rhythm.rs
@@ -6,9 +6,18 @@ pub const MIN_NUMERATOR: u8 = 1;
 pub const MAX_NUMERATOR: u8 = 99;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub struct Numerator(u8);
 
+impl TryFrom<u8> for Numerator {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        Numerator::from_value(value).map_err(|_| format!("Invalid numerator value(={}).", value))
+    }
+}
+
 impl Display for Numerator {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}", self.0)
-- 
2.43.0


From be862e7121d0cdbed576f42fb1920117a8dd62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 04/32] fix: reject out of range key on deserialization

---
 src/key.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/key.rs b/src/key.rs
index a4dbe23..24f57d8 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -5,9 +5,22 @@ use once_cell::unsync::Lazy;
 use crate::solfa::Solfa;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="i8")]
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Hash)]
 pub struct Key(i8);
 
+impl TryFrom<i8> for Key {
+    type Error = String;
+
+    fn try_from(offset: i8) -> Result<Self, Self::Error> {
+        if Self::FLAT_7.0 <= offset && offset <= Self::SHARP_7.0 {
+            Ok(Key(offset))
+        } else {
+            Err(format!("Invalid key offset(={}).", offset))
+        }
+    }
+}
+
 impl Key {
     pub const NONE: Key = Key(0);
     pub const SHARP_1: Key = Key(1);
-- 
2.43.0


From 99dbfd5d0bddb5ce7c0776c46013555b2e73906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 05/32] fix: reject zero grid on deserialization

---
 src/grid.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/grid.rs b/src/grid.rs
index 5c9e611..0e760b9 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -5,11 +5,25 @@ pub enum GridError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="SerializedGrid")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub struct Grid {
     value: u32,
 }
 
+#[derive(serde::Deserialize)]
+struct SerializedGrid {
+    value: u32,
+}
+
+impl TryFrom<SerializedGrid> for Grid {
+    type Error = String;
+
+    fn try_from(ser: SerializedGrid) -> Result<Self, Self::Error> {
+        Grid::from_u32(ser.value).map_err(|_| format!("Invalid grid value(={}).", ser.value))
+    }
+}
+
 impl Grid {
     pub fn value_of(s: &str) -> Result<Self, GridError> {
         s.parse::<u32>()
-- 
2.43.0


From ac0ed4d381fb7b4ff81dd1d20dcee3d6258798a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 06/32] fix: keep PercentU16 in 0% - 200%

---
 src/percent.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/percent.rs b/src/percent.rs
index a8487b2..64ff457 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -2,11 +2,23 @@ use crate::can_apply::CanApply;
 
 // 0.0% - 200.0%
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(from="SerializedPercentU16")]
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct PercentU16 {
     value: u16,
 }
 
+#[derive(serde::Deserialize)]
+struct SerializedPercentU16 {
+    value: u16,
+}
+
+impl From<SerializedPercentU16> for PercentU16 {
+    fn from(ser: SerializedPercentU16) -> Self {
+        Self::from_value(ser.value)
+    }
+}
+
 // 0 - 200%
 const MAX_VALUE: i32 = 2000;
 const MAX_F32_VALUE: f32 = 2.0;
@@ -23,8 +35,10 @@ impl PercentU16 {
     pub const HUNDRED: PercentU16 = Self::from_value(HUNDRED_VALUE);
 
     pub const fn from_value(value: u16) -> PercentU16 {
-        PercentU16 {
-            value,
+        if Self::MAX.value < value {
+            Self::MAX
+        } else {
+            PercentU16 { value }
         }
     }
 
-- 
2.43.0


From f4c6b47a5390bd1b836b96d11cf6331baff52d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 07/32] fix: do not create tempo value 0

---
 src/tempo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tempo.rs b/src/tempo.rs
index bf1412d..10bcf7d 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -36,6 +36,8 @@ impl TempoValue {
     pub const fn new(value: u16) -> Self {
         if MAX_TEMPO_VALUE < value {
             panic!("Too large value.");
+        } else if value < MIN_TEMPO_VALUE {
+            panic!("Too small value.");
         } else {
             TempoValue(value)
         }
@@ -69,7 +71,7 @@ impl TempoValue {
     }
 
     pub fn safe_new(value: u16) -> TempoValue {
-        Self::new(if MAX_TEMPO_VALUE < value { MAX_TEMPO_VALUE } else { value })
+        Self::new(value.clamp(MIN_TEMPO_VALUE, MAX_TEMPO_VALUE))
     }
 }
 
-- 
2.43.0


From 3f579ca75d199a02cf33161cf6bff6a8576b5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 08/32] fix: clamp tempo value on drag instead of wrapping

---
 src/tempo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tempo.rs b/src/tempo.rs
index 10bcf7d..fc6bebe 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -102,7 +102,10 @@ impl Tempo {
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
              start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
-             value: TempoValue::safe_new((self.value.as_u16() as i32 + tempo_delta) as u16),
+             value: TempoValue::safe_new(
+                 (self.value.as_u16() as i32).saturating_add(tempo_delta)
+                     .clamp(MIN_TEMPO_VALUE as i32, MAX_TEMPO_VALUE as i32) as u16
+             ),
              ..*self
         }
     }
-- 
2.43.0


From e05385dcad51f3b38c8ec83db52707965291828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:48 +0000
Subject: [PATCH 09/32] fix: do not panic on out of range tempo text input

---
 src/text_input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text_input.rs b/src/text_input.rs
index 5d4d82e..abde235 100644
--- a/src/text_input.rs
+++ b/src/text_input.rs
@@ -83,7 +83,7 @@ impl FromStr for Validated<Option<TempoValue>> {
         if s.is_empty() {
             Ok(Validated(None))
         } else {
-            s.parse::<u16>().map(|u| Validated(Some(TempoValue::new(u))))
+            s.parse::<u16>().map(|u| Validated(Some(TempoValue::safe_new(u))))
         }
     }
 }
-- 
2.43.0


From d920477dcfe00f61e71cec3d0a5925bd6f37ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:20 +0000
Subject: [PATCH 10/32] fix: report out of range pitch on deserialization
 instead of panicking

---
 src/pitch.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 62b2fcd..35b6ba3 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -29,7 +29,7 @@ impl fmt::Display for PitchError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
-#[serde(from = "PitchSerializedForm")]
+#[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
 #[builder(default)]
 pub struct Pitch {
@@ -49,9 +49,11 @@ impl Default for Pitch {
     }
 }
 
-impl From<PitchSerializedForm> for Pitch {
-    fn from(from: PitchSerializedForm) -> Self {
-        Self::new(from.solfa, from.octave, from.sharp_flat)
+impl TryFrom<PitchSerializedForm> for Pitch {
+    type Error = PitchError;
+
+    fn try_from(from: PitchSerializedForm) -> Result<Self, Self::Error> {
+        Self::value_of(from.solfa, from.octave, from.sharp_flat)
     }
 }
 
-- 
2.43.0


From 2b1dbeef613798b92a16b06f941d3361c6253522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:22 +0000
Subject: [PATCH 11/32] fix: return error for octave just above the range

---
 src/octave.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/octave.rs b/src/octave.rs
index de23210..39046ff 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -35,11 +35,11 @@ impl Octave {
     pub const BIAS_VALUE: i32 = 2;
 
     pub const fn value_of(value: i32) -> Result<Octave, OctaveError> {
-        Self::from_score_offset(value + Self::BIAS_VALUE)
+        Self::from_score_offset(value.saturating_add(Self::BIAS_VALUE))
     }
 
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
-        if idx < 0 || Self::ALL.len() < (idx as usize) {
+        if idx < 0 || Self::ALL.len() <= (idx as usize) {
             Err(OctaveError::InvalidValue(idx))
         } else {
             Ok(Self::ALL[idx as usize])
-- 
2.43.0


From bfdd4f872556870b1eef418c296f5862219b9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 12/32] fix: do not overflow on huge score offset delta

---
 src/pitch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 35b6ba3..9c24ac7 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -164,7 +164,7 @@ impl Pitch {
     }
 
     pub fn with_score_offset_delta(self, score_offset_delta: i32) -> Result<Self, PitchError> {
-        let score_offset = self.score_offset as i32 + score_offset_delta;
+        let score_offset = (self.score_offset as i32).saturating_add(score_offset_delta);
         if score_offset < MIN_SCORE_OFFSET || MAX_SCORE_OFFSET < score_offset {
             return Err(PitchError::InvalidScoreOffset(score_offset));
         }
-- 
2.43.0


From 1076c1c4499687ac8af3e9ab574b92825024d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 13/32] fix: calculate trimmer sum in i32

---
 src/trimmer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index c3b5da5..582cc83 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -44,14 +44,14 @@ impl Trimmer {
     pub const fn from_array(values: [i16; 4]) -> Self {
         Self {
             values: values,
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
     pub fn from_vec(values: &Vec<i16>) -> Self {
         Self {
             values: [values[0], values[1], values[2], values[3]],
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
-- 
2.43.0


From 8b6b36df3fc8ad9a3ab917dd62c0b1cbd65c55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 14/32] fix: saturate trimmer on huge tick

---
 src/trimmer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index 582cc83..b27bc99 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -83,7 +83,7 @@ impl Trimmer {
 
     pub fn added(mut self, mut tick: i32) -> Self {
         for i in 0..4 {
-            let t: i32 = self.values[i] as i32 + tick as i32;
+            let t: i32 = (self.values[i] as i32).saturating_add(tick);
             if (i16::MAX as i32) < t {
                 tick = t - i16::MAX as i32;
                 self.values[i] = i16::MAX;
-- 
2.43.0


From 6b272ccf49a1537b908e52b4dbee27da50c63bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 15/32] fix: calculate rate trimmer product from the stored
 rates

---
 src/trimmer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index b27bc99..4ba772b 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -157,10 +157,9 @@ impl RateTrimmer {
     };
 
     pub fn new(rate0: f32, rate1: f32, rate2: f32, rate3: f32) -> RateTrimmer {
-        RateTrimmer {
-            values: [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)],
-            sum: PercentU16::from(rate0 * rate1 * rate2 * rate3),
-        }
+        Self::from_array(
+            [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)]
+        )
     }
 
     pub fn from_array(values: [PercentU16; 4]) -> Self {
-- 
2.43.0


From 3bfa14521d96c5dcf0f6290169d9c9dba414288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 16/32] fix: do not panic on too large location

---
 src/location.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 6501c57..6e9857e 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -27,11 +27,13 @@ impl Display for Location {
 
 const LOCATION_PATTERN: once_cell::unsync::Lazy<Regex> = once_cell::unsync::Lazy::new(|| Regex::new(r"^(\d+):(\d+)$").unwrap());
 pub fn parse_location(s: &str) -> Option<Location> {
-    LOCATION_PATTERN.captures(s).map(|c| {
-        Location {
-            bar_no: c.get(1).unwrap().as_str().parse().unwrap(),
-            offset: c.get(2).unwrap().as_str().parse().unwrap(),
-        }
+    LOCATION_PATTERN.captures(s).and_then(|c| {
+        Some(
+            Location {
+                bar_no: c.get(1).unwrap().as_str().parse().ok()?,
+                offset: c.get(2).unwrap().as_str().parse().ok()?,
+            }
+        )
     })
 }
 
-- 
2.43.0


From ac5ed81f27d3ba95601cd141e2102d5a0f54a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 17/32] fix: report overflow of a huge location instead of
 wrapping

---
 src/project.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index c90196c..df350a2 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -220,7 +220,7 @@ impl ProjectImpl {
         } else {
             if loc.bar_no() <= self.bar_repo.len() {
                 let (tick, _) = self.bar_repo[loc.bar_no() - 1];
-                let sum = (tick as usize) + loc.offset();
+                let sum = (tick as usize).saturating_add(loc.offset());
                 if (u32::MAX as usize) < sum {
                     Err(LocationError::Overflow)
                 } else {
@@ -229,12 +229,15 @@ impl ProjectImpl {
             } else {
                 let tick = match self.last_bar() {
                     None => {
-                        loc.bar_no() * (self.rhythm.tick_len() as usize) + loc.offset()
+                        loc.bar_no().saturating_mul(self.rhythm.tick_len() as usize)
+                            .saturating_add(loc.offset())
                     },
                     Some((last_bar_no, last_bar)) => {
                         let last_tick = last_bar.start_tick;
                         let tick_len = self.rhythm_at(last_tick).tick_len() as usize;
-                        (loc.bar_no() - last_bar_no - 1) * tick_len + loc.offset() + last_bar.start_tick as usize
+                        (loc.bar_no() - last_bar_no - 1).saturating_mul(tick_len)
+                            .saturating_add(loc.offset())
+                            .saturating_add(last_bar.start_tick as usize)
                     },
                 };
 
-- 
2.43.0


From 94b6e4ba7e4dfc25db8ae915f3e7ac35852af221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 18/32] fix: saturate note start tick

---
 src/note.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index a247256..ad6bd74 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -72,7 +72,7 @@ impl Note {
     #[inline]
     pub fn start_tick(&self) -> u32 {
         let tick = self.base_start_tick as i64 + self.start_tick_trimmer.sum() as i64;
-        if tick < 0 { 0 } else { tick as u32 }
+        tick.clamp(0, u32::MAX as i64) as u32
     }
 
     #[inline]
-- 
2.43.0


From 9a23d458fa5e26b06a1da6b143ad3c0fe69aa751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 19/32] fix: clamp dragged items instead of wrapping or
 panicking

---
 src/bar.rs      | 2 +-
 src/ctrl_chg.rs | 2 +-
 src/note.rs     | 6 +++---
 src/tempo.rs    | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bar.rs b/src/bar.rs
index 812e7df..28efb62 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -243,7 +243,7 @@ impl Bar {
 
     pub fn drag(&self, tick_delta: i32) -> Self {
         Self {
-             start_tick: ((self.start_tick as i64) + tick_delta as i64) as u32,
+             start_tick: self.start_tick.saturating_add_signed(tick_delta),
              ..*self
         }
     }
diff --git a/src/ctrl_chg.rs b/src/ctrl_chg.rs
index 2d704ad..32fb6f3 100644
--- a/src/ctrl_chg.rs
+++ b/src/ctrl_chg.rs
@@ -16,7 +16,7 @@ impl CtrlChg {
     
     pub fn drag(&self, tick_delta: i32) -> Self {
         Self {
-             start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
+             start_tick: self.start_tick.saturating_add_signed(tick_delta),
              ..*self
         }
     }
diff --git a/src/note.rs b/src/note.rs
index ad6bd74..c0f1a3a 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -138,10 +138,10 @@ impl Note {
     }
     
     pub fn drag(&self, tick_delta: i32, score_offset_delta: i32) -> Self {
-        let tick = self.base_start_tick as i64 + tick_delta as i64;
-        let pitch = self.pitch.with_score_offset_delta(score_offset_delta).unwrap();
+        let tick = self.base_start_tick.saturating_add_signed(tick_delta);
+        let pitch = self.pitch.with_score_offset_delta(score_offset_delta).unwrap_or(self.pitch);
         Self {
-            base_start_tick: tick as u32,
+            base_start_tick: tick,
             pitch: pitch,
             ..*self
         }
diff --git a/src/tempo.rs b/src/tempo.rs
index fc6bebe..38e643b 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -101,7 +101,7 @@ impl Tempo {
 
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
-             start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
+             start_tick: self.start_tick.saturating_add_signed(tick_delta),
              value: TempoValue::safe_new(
                  (self.value.as_u16() as i32).saturating_add(tempo_delta)
                      .clamp(MIN_TEMPO_VALUE as i32, MAX_TEMPO_VALUE as i32) as u16
-- 
2.43.0


From 8937a88119257b891ded83e8dfb67a7829f60f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 20/32] fix: do not overflow on huge number of dots to add

---
 src/note.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index c0f1a3a..036d543 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -148,7 +148,7 @@ impl Note {
     }
 
     pub fn add_dots(&self, dots_to_add: i32) -> Result<Self, InvalidDot> {
-        let new_dots = self.duration.dots.value() as i32 + dots_to_add;
+        let new_dots = (self.duration.dots.value() as i32).saturating_add(dots_to_add);
         if new_dots < 0 || (Duration::MAX_DOT as i32) < new_dots {
             Err(InvalidDot(new_dots))
         } else {
-- 
2.43.0


From 4e0e3be04852e175fe2a493f890716506421d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 21/32] fix: do not hold undo entry when capacity is zero

---
 src/undo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/undo.rs b/src/undo.rs
index eb0b7e0..b8e6e59 100644
--- a/src/undo.rs
+++ b/src/undo.rs
@@ -37,7 +37,7 @@ impl UndoStore {
     }
     
     pub fn add(&mut self, undo: Undo) {
-        if self.is_freezed { return; }
+        if self.is_freezed || self.capacity == 0 { return; }
         if self.index != 0 {
             self.store = self.store.split_off(self.index);
             self.index = 0;
-- 
2.43.0


From 83baef553d218d8f8fa1ad8555c0f8f4272da35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 22/32] fix: reject conflicting repeats regardless of the order
 they are added

---
 src/bar.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bar.rs b/src/bar.rs
index 28efb62..76a9e2b 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -117,7 +117,12 @@ impl RepeatSet {
     );
 
     const DS_DISLIKE: EnumSet<Repeat> = enum_set!(
-        Repeat::Start
+        Repeat::Start | Repeat::Dc
+        | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
+    );
+
+    const SEGNO_DISLIKE: EnumSet<Repeat> = enum_set!(
+        Repeat::Dc
         | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
     );
 
@@ -162,7 +167,7 @@ impl RepeatSet {
             Repeat::Dc => self.try_add_repeat(Self::DC_DISLIKE, r),
             Repeat::Fine => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Ds => self.try_add_repeat(Self::DS_DISLIKE, r),
-            Repeat::Segno => self.try_add_repeat(EnumSet::empty(), r),
+            Repeat::Segno => self.try_add_repeat(Self::SEGNO_DISLIKE, r),
             Repeat::Coda => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Var1 => self.try_add_repeat(Self::REGION1_DISLIKE, r),
             Repeat::Var2 => self.try_add_repeat(Self::REGION2_DISLIKE, r),
-- 
2.43.0


From c20718c2e1e8fb63081bad455f5003a55b4b17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 23/32] fix: do not panic when tuplizing too many notes

---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index e54e080..d851b74 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -12,7 +12,7 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         let start_tick = work[0].base_start_tick();
         let (total_tick, total_unit) = total_tick_unit(&sorted);
         let denominator = total_unit / min_unit;
-        if denominator < 2 { return notes; }
+        if denominator < 2 || (Duration::MAX_DENOMINATOR as u32) < denominator { return notes; }
         let total_tick = total_tick / denominator * 2;
         let denominator = Denominator::from_value(denominator as u8).unwrap();
         let mut u = 0;
-- 
2.43.0


From 5a25ef674e4b33e7842e9b773f3beabe441efc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 24/32] fix: keep notes of a chord together on tuplize

---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index d851b74..2f50389 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -21,14 +21,14 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         for e in sorted.iter() {
             match e {
                 TupleElem::None => {},
-                TupleElem::Some { start_tick: _, notes, min_duration: _ } => {
+                TupleElem::Some { start_tick: _, notes, min_duration } => {
                     for n in notes.iter() {
                         let mut note = (**n).clone();
                         note.base_start_tick = (start_tick + (total_tick * u / total_unit)) as u32;
                         note.duration = n.duration.with_denominator(denominator);
-                        u += numerator_unit(note.duration);
                         ret.push(Rc::new(note));
                     }
+                    u += numerator_unit(*min_duration);
                 },
             }
         }
-- 
2.43.0


From 3b5eecb8915d0d31099af2fa4e99ffd0fa60f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 25/32] fix: build consistent pitch by PitchBuilder

---
 src/pitch.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 9c24ac7..8cdf128 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -31,18 +31,34 @@ impl fmt::Display for PitchError {
 #[derive(serde::Deserialize, serde::Serialize)]
 #[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
-#[builder(default)]
+#[builder(default, build_fn(validate = "Self::validate"))]
 pub struct Pitch {
     solfa: Solfa,
     octave: Octave,
     sharp_flat: SharpFlat,
 
     #[serde(skip)]    
+    #[builder(setter(skip), default = "self.derived().unwrap_or_default().value")]
     value: u8,
     #[serde(skip)]    
+    #[builder(setter(skip), default = "self.derived().unwrap_or_default().score_offset")]
     score_offset: i8,
 }
 
+impl PitchBuilder {
+    fn derived(&self) -> Result<Pitch, PitchError> {
+        Pitch::value_of(
+            self.solfa.unwrap_or(DEFAULT.solfa),
+            self.octave.unwrap_or(DEFAULT.octave),
+            self.sharp_flat.unwrap_or(DEFAULT.sharp_flat),
+        )
+    }
+
+    fn validate(&self) -> Result<(), String> {
+        self.derived().map(|_| ()).map_err(|e| e.to_string())
+    }
+}
+
 impl Default for Pitch {
     fn default() -> Self {
         DEFAULT
-- 
2.43.0


From bea26bfdad9d95142d05b798159664dca18cc0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 26/32] fix: wrong variation number after the fourth variation
 is an error, not a panic

---
 src/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index fb0ee3c..261e4de 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -460,7 +460,7 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
             RenderRegionState::Variation { start_tick: *start_tick, region_start_ticks: rst }
           } else {
             return Err(report!(RenderRegionError::InvalidRegionIndex {
-              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap()
+              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap_or(VarIndex::VI4)
             }));
           }
         } else {
-- 
2.43.0


From a29d8b3ee480131f70dd8409201679d720f62eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 27/32] fix: rendering D.C./D.S. of a score with a repeat mark
 at tick 0 panics

---
 src/repeat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index 261e4de..0857169 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -148,7 +148,11 @@ impl Region for SequenceRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    if self.tick_range.is_empty() {
+      vec![].to_interval_set()
+    } else {
+      (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    }
   }
 }
 
@@ -183,7 +187,7 @@ impl Region for RepeatRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.region.start_tick(), self.region.end_tick() - 1).to_interval_set()
+    self.region.to_iter1_interval_set()
   }
 }
 
-- 
2.43.0


From 885586615b76dbf63e652e128490688e2f7f342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 28/32] fix: a coda at or before the restart or right at Fine
 panics

---
 src/global_repeat.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 0a4fa23..ed88084 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -192,18 +192,15 @@ impl GlobalRepeatBuilder {
 
   fn to_interval_set(start_tick: u32, fine: Option<u32>, coda: Option<[u32; 2]>) -> IntervalSet<u32> {
     let end_tick = fine.unwrap_or(u32::MAX);
-    match coda {
-        Some([coda_from, coda_to]) => vec![
-          (start_tick, coda_from - 1), (coda_to, end_tick - 1)
-        ],
-        None => {
-          if end_tick <= start_tick {
-            vec![]
-          } else {
-            vec![(start_tick, end_tick - 1)]
-          }
-        }
-    }.to_interval_set()
+    let sections = match coda {
+        Some([coda_from, coda_to]) => vec![(start_tick, coda_from), (coda_to, end_tick)],
+        None => vec![(start_tick, end_tick)],
+    };
+    sections.into_iter()
+      .filter(|(from, to)| from < to)
+      .map(|(from, to)| (from, to - 1))
+      .collect::<Vec<(u32, u32)>>()
+      .to_interval_set()
   }
 
   pub fn build(self) -> Result<(Option<GlobalRepeat>, Vec<RenderRegionWarning>), RenderRegionError> {
-- 
2.43.0


From 3076e6d0b32c4b4a6316161aaf311d6f3f6e7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 29/32] fix: D.C. of a score whose first bar is very far panics

---
 src/global_repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index ed88084..eae6d3f 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -217,7 +217,7 @@ impl GlobalRepeatBuilder {
                 segno_tick
               } else {
                 let rhythm_tick_len = self.top_rhythm.tick_len();
-                if len + first_bar_len == rhythm_tick_len {
+                if len.checked_add(first_bar_len) == Some(rhythm_tick_len) {
                   0
                 } else if len == rhythm_tick_len && first_bar_len == rhythm_tick_len {
                   0
-- 
2.43.0


From f795cafb63c8911b62cc9cab4ad939469ad431ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 30/32] fix: D.C./D.S. inside a repeat from the top is an
 error, not a panic or silence

---
 src/repeat.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/repeat.rs b/src/repeat.rs
index 0857169..7ce70c1 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -399,6 +399,13 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
 
     state = match &state {
       RenderRegionState::Idle => {
+        if let Some(tick) = global_repeat.ds_dc.map(|d| d.tick()).filter(|t| *t < bar.base_start_tick()) {
+          if bar.repeats.contains(Repeat::End) {
+            return Err(report!(RenderRegionError::DcDsWhileRepeat { tick }));
+          } else if bar.repeats.region_index().is_some() {
+            return Err(report!(RenderRegionError::DcDsWhileVariation { tick }));
+          }
+        }
         if bar.repeats.contains(Repeat::Start) && bar.repeats.contains(Repeat::End) {
           regions.push(Box::new(RepeatRegion { region: SequenceRegion { tick_range: 0..bar.base_start_tick() }}));
           RenderRegionState::RepeatStart { start_tick: bar.base_start_tick() }
-- 
2.43.0


From e369b75f668cf3d0f04ba5d4550d79c5c9a51372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 31/32] fix: percentages are rounded, so 25.1% stays 25.1% when
 it is read back

---
 src/percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/percent.rs b/src/percent.rs
index 64ff457..28646ee 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -71,7 +71,7 @@ impl From<f32> for PercentU16 {
         } else if MAX_F32_VALUE < rate {
             PercentU16 { value: MAX_VALUE as u16 }
         } else {
-            let i: i32 = (rate * 1000.0) as i32; // 1.0 means 100% = 100.0% = 1000
+            let i: i32 = (rate * 1000.0).round() as i32; // 1.0 means 100% = 100.0% = 1000
             PercentU16 { value: i as u16 }
         }
     }
-- 
2.43.0


From 413d61141128923116512e2404804b1d58ab9bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 32/32] fix: a start position in the last part of the tick
 range is found without overflow

---
 src/play_start_tick.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/play_start_tick.rs b/src/play_start_tick.rs
index c00406e..1a33e18 100644
--- a/src/play_start_tick.rs
+++ b/src/play_start_tick.rs
@@ -26,7 +26,7 @@ impl PlayStartTick {
         for (accum_tick, chunk) in chunks {
             if chunk.contains(self.tick) {
                 if cur_iter == self.iter.iter() {
-                    return Ok(accum_tick + self.tick - chunk.start_tick());
+                    return Ok(accum_tick + (self.tick - chunk.start_tick()));
                 }
                 cur_iter += 1;
             }
-- 
2.43.0

