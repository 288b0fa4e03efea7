From cda77b8b4b56d55943b8dab3ce462e0c73af16a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 01/10] fix: don't pad the block history with zeroes when
 changing its maximum size

Queue::set_max_size() filled the history with zero-energy blocks up to the new
maximum and never dropped blocks when the new maximum was smaller than the
number of blocks stored, after which it grew without bounds. Drop the oldest
blocks instead, like libebur128 does.
---
 src/history.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index de97a0e..01f97c9 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -179,9 +179,10 @@ impl Queue {
     }
 
     fn set_max_size(&mut self, max: usize) {
-        if self.queue.len() < max {
+        // Drop the oldest elements that don't fit anymore
+        if self.queue.len() > max {
+            self.queue.drain(..self.queue.len() - max);
             // FIXME: Use shrink() once stabilized
-            self.queue.resize(max, 0.0);
             self.queue.shrink_to_fit();
         }
         self.max = max;
-- 
2.43.0


From 5658e1263096825e379eea49cd9041caba3b3346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 02/10] fix: apply the 3000ms minimum history to Mode::LRA

As documented, and as in libebur128, the minimum is 3000ms for LRA and 400ms
otherwise.
---
 src/ebur128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index ff7b88c..4cbad5f 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -522,7 +522,7 @@ impl EbuR128 {
     /// Default is `ULONG_MAX` (at least ~50 days). Minimum is 3000ms for `Mode::LRA` and 400ms
     /// for `Mode::M`.
     pub fn set_max_history(&mut self, history: u32) -> Result<(), Error> {
-        let history = if self.mode.contains(Mode::S) {
+        let history = if self.mode.contains(Mode::LRA) {
             std::cmp::max(history, 3000)
         } else if self.mode.contains(Mode::M) {
             std::cmp::max(history, 400)
-- 
2.43.0


From 8b6e32bb26e864f19649143a60b15c96287b6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 03/10] fix: allocate enough audio data for whole blocks at low
 sample rates

The number of samples per 100ms is rounded, so for low rates the audio data
buffer could be smaller than the 4 (or 30) blocks that are written to and read
from it, leading to panics or InvalidMode errors.
---
 src/ebur128.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 4cbad5f..db45d1a 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -273,6 +273,15 @@ impl EbuR128 {
                 - (audio_data_frames % samples_in_100ms);
         }
 
+        // For low rates samples_in_100ms is noticeably rounded up, make sure that all blocks that
+        // make up the window fit.
+        audio_data_frames = std::cmp::max(
+            audio_data_frames,
+            samples_in_100ms
+                .checked_mul(window / 100)
+                .ok_or(Error::NoMem)?,
+        );
+
         let audio_data = vec![
             0.0;
             audio_data_frames
-- 
2.43.0


From 481dbb14476c347ba519a1861b1d0a6cd66ceeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 04/10] fix: return NoMem if the audio data buffer can't be
 allocated

set_max_window() with a large window aborted or panicked in the allocator
instead.
---
 src/ebur128.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index db45d1a..1c16b26 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -282,15 +282,17 @@ impl EbuR128 {
                 .ok_or(Error::NoMem)?,
         );
 
-        let audio_data = vec![
-            0.0;
-            audio_data_frames
-                .checked_mul(channels as usize)
-                .ok_or(Error::NoMem)?
-        ]
-        .into_boxed_slice();
+        let audio_data_len = audio_data_frames
+            .checked_mul(channels as usize)
+            .ok_or(Error::NoMem)?;
+
+        let mut audio_data = Vec::new();
+        audio_data
+            .try_reserve_exact(audio_data_len)
+            .map_err(|_| Error::NoMem)?;
+        audio_data.resize(audio_data_len, 0.0);
 
-        Ok(audio_data)
+        Ok(audio_data.into_boxed_slice())
     }
 
     /// Create a new instance with the given configuration.
-- 
2.43.0


From d6e6928accc401030de736e6ab63331f219cd707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 05/10] fix: return an error for planar input with the wrong
 number of channels

This previously panicked on an assertion inside the filter.
---
 src/ebur128.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 1c16b26..4c653cb 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -579,6 +579,10 @@ impl EbuR128 {
         &mut self,
         mut src: S,
     ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         if src.frames() == 0 {
             return Ok(());
         }
@@ -671,8 +675,17 @@ impl EbuR128 {
         Ok(())
     }
 
-    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(&mut self, src: S) {
+    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(
+        &mut self,
+        src: S,
+    ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         self.filter.seed(src, &self.channel_map);
+
+        Ok(())
     }
 
     /// Add interleaved frames to be processed.
@@ -718,57 +731,49 @@ impl EbuR128 {
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i16(&mut self, frames: &[i16]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i32(&mut self, frames: &[i32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f32(&mut self, frames: &[f32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f64(&mut self, frames: &[f64]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i16(&mut self, frames: &[&[i16]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i32(&mut self, frames: &[&[i32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f32(&mut self, frames: &[&[f32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f64(&mut self, frames: &[&[f64]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Get global integrated loudness in LUFS.
-- 
2.43.0


From 408579e3f6f219edc30af2a6d90ab79947c90670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 06/10] fix: reject too large sample rates in the C API

The sample rate was truncated to 32 bits, so a rate above that was either
accepted as a different rate or left the state struct out of step.
---
 src/capi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 34142a4..8cdf54d 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -26,6 +26,10 @@ pub unsafe extern "C" fn ebur128_init(
     // Same values as our Mode enum
     mode: i32,
 ) -> *mut State {
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ptr::null_mut();
+    }
+
     let e = match ebur128::EbuR128::new(
         channels,
         samplerate as u32,
@@ -100,6 +104,10 @@ pub unsafe extern "C" fn ebur128_change_parameters(
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     let e = &mut *s.internal;
 
     match e.change_parameters(channels, samplerate as u32) {
-- 
2.43.0


From dcf0b76ec555d46497a2de9ddc2e74a2572a364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 07/10] fix: report EBUR128_ERROR_NO_CHANGE whenever the window
 or history stays the same

As in libebur128, also if the requested value is below the minimum and the
minimum is already set, or the default history is set again.
---
 src/capi.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 8cdf54d..d32ac19 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -132,12 +132,11 @@ pub unsafe extern "C" fn ebur128_set_max_window(
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_window() == window as usize {
-        return 4; // EBUR128_ERROR_NO_CHANGE
-    }
+    let old_window = e.max_window();
 
     match e.set_max_window(window as u32) {
         Err(err) => err.into(),
+        Ok(_) if e.max_window() == old_window => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
@@ -147,19 +146,21 @@ pub unsafe extern "C" fn ebur128_set_max_history(
     state: *mut State,
     history: std::os::raw::c_ulong,
 ) -> i32 {
-    if history > u32::MAX as std::os::raw::c_ulong {
-        return ebur128::Error::NoMem.into();
-    }
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_history() == history as usize {
+    let old_history = e.max_history();
+    if old_history == history as usize {
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if history > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     match e.set_max_history(history as u32) {
         Err(err) => err.into(),
+        Ok(_) if e.max_history() == old_history => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
-- 
2.43.0


From 77f266f7811ef90866cab9d4176bc949c3ff95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 08/10] fix: return EBUR128_ERROR_INVALID_MODE from
 ebur128_loudness_window() for any too large window

---
 src/capi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index d32ac19..e2e2838 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -325,7 +325,7 @@ pub unsafe extern "C" fn ebur128_loudness_window(
     let e = &*s.internal;
 
     if window > u32::MAX as std::os::raw::c_ulong {
-        return ebur128::Error::NoMem.into();
+        return ebur128::Error::InvalidMode.into();
     }
 
     match e.loudness_window(window as u32) {
-- 
2.43.0


From 2a25ca99a4b554228c71cd0fa3c81989aab44de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 09/10] fix: accept NULL for zero frames or instances in the C
 API

slice::from_raw_parts() must not be called with a NULL pointer, also for empty
slices.
---
 src/capi.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index e2e2838..9149d7b 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1,6 +1,6 @@
 use crate::ebur128;
 
-use std::{mem, ptr};
+use std::{mem, ptr, slice};
 
 // ABI compatible with ebur128_state
 #[repr(C)]
@@ -11,6 +11,15 @@ pub struct State {
     internal: *mut ebur128::EbuR128,
 }
 
+// Pointers for empty slices are allowed to be NULL in C
+unsafe fn slice_from_raw_parts<'a, T>(data: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        &[]
+    } else {
+        slice::from_raw_parts(data, len)
+    }
+}
+
 #[no_mangle]
 pub unsafe extern "C" fn ebur128_get_version(major: *mut i32, minor: *mut i32, patch: *mut i32) {
     // We're based on 1.2.6 so let's return that for now
@@ -171,8 +180,6 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
     src: *const i16,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -181,7 +188,7 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i16(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i16(slice_from_raw_parts(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -193,8 +200,6 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
     src: *const i32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -203,7 +208,7 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i32(slice_from_raw_parts(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -215,8 +220,6 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
     src: *const f32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -225,7 +228,7 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f32(slice_from_raw_parts(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -237,8 +240,6 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
     src: *const f64,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -247,7 +248,7 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f64(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f64(slice_from_raw_parts(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -273,9 +274,7 @@ pub unsafe extern "C" fn ebur128_loudness_global_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw_parts(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_global_multiple(iter) {
@@ -357,9 +356,7 @@ pub unsafe extern "C" fn ebur128_loudness_range_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw_parts(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_range_multiple(iter) {
-- 
2.43.0


From b7cc3d0547dac3ce87c0ba21d37c3dce32fb17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:34 +0000
Subject: [PATCH 10/10] fix: reject values outside of enum channel in
 ebur128_set_channel()

Transmuting any other integer to the Rust enum is undefined behaviour, and
aborts with debug assertions.
---
 src/capi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 9149d7b..b13efd9 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -89,6 +89,11 @@ pub unsafe extern "C" fn ebur128_set_channel(
     channel_number: u32,
     value: i32,
 ) -> i32 {
+    // Everything else is not a value of the enum and must not be transmuted to one
+    if value < ebur128::Channel::Unused as i32 || value > ebur128::Channel::Bm045 as i32 {
+        return ebur128::Error::InvalidChannelIndex.into();
+    }
+
     let s = &mut *state;
     let e = &mut *s.internal;
 
-- 
2.43.0

