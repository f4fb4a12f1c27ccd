From b6335dc489c549b89791933fdbc8d65155995a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 01/17] fix: keep unclosed ANSI sequences in range

next_ansi() computed the end of an unclosed sequence as start + len, so any
such sequence not at the very beginning of the string yielded an out-of-range
result: Msg::strip_ansi panicked (or ate into the following parts), and
fit_to_width dropped the sequence instead of preserving it.
---
 fyi_msg/src/ansi.rs   | 3 ++-
 fyi_msg/src/fitted.rs | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fyi_msg/src/ansi.rs b/fyi_msg/src/ansi.rs
index 24bfb4c..077533e 100644
--- a/fyi_msg/src/ansi.rs
+++ b/fyi_msg/src/ansi.rs
@@ -352,7 +352,8 @@ pub(crate) fn next_ansi(src: &str) -> Option<Range<usize>> {
 		_ => {},
 	}
 
-	Some(start..start + end.unwrap_or(len))
+	// Unclosed sequences run through the end of the string.
+	Some(start..end.map_or(len, |e| start + e))
 }
 
 
diff --git a/fyi_msg/src/fitted.rs b/fyi_msg/src/fitted.rs
index e6c4439..953082c 100644
--- a/fyi_msg/src/fitted.rs
+++ b/fyi_msg/src/fitted.rs
@@ -119,10 +119,13 @@ pub fn fit_to_width(src: &str, width: usize) -> Cow<str> {
 						return Cow::Borrowed("");
 					};
 
-					// Keep the fitable, "lost" ANSI, and trailing breaks.
+					// Keep the fitable, "lost" ANSI, and trailing breaks. (The
+					// break is excluded from the ANSI search because an
+					// unclosed sequence would swallow it.)
+					let br = terminator($line);
 					$out.push_str(keep);
-					$out.extend(OnlyAnsi::new(kill));
-					$out.push_str(terminator($line));
+					$out.extend(OnlyAnsi::new(kill.strip_suffix(br).unwrap_or(kill)));
+					$out.push_str(br);
 				);
 			}
 
-- 
2.43.0


From c63ffb1f8877defbd5b3176e7eccf329ae6c432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 02/17] fix: strip ANSI sequences that form while stripping

Removing a sequence could leave a loose escape character adjacent to a bracket
(e.g. "\x1b\x1b[1m[31m"), forming a brand new sequence that strip_ansi then
missed.
---
 fyi_msg/src/msg/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fyi_msg/src/msg/mod.rs b/fyi_msg/src/msg/mod.rs
index 60e51d2..4574aec 100644
--- a/fyi_msg/src/msg/mod.rs
+++ b/fyi_msg/src/msg/mod.rs
@@ -751,6 +751,15 @@ impl Msg {
 				start = ansi_rng.start; // Pick up from here next time around.
 				stop -= ansi_len;       // But stop earlier, since we removed shit.
 				self.inner.replace_range(ansi_rng, "");
+
+				// Closing the gap might have left an earlier (loose) escape
+				// next to a bracket, i.e. the start of a new sequence.
+				if
+					old_rng.start < start &&
+					self.inner.as_bytes().get(start - 1) == Some(&0x1b)
+				{
+					start -= 1;
+				}
 			}
 
 			// Update the table of contents, if necessary.
-- 
2.43.0


From 9bc42510896fb16303c1fd12d27b6e89d09f8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 03/17] fix: keep the bar proportional to large counts

---
 fyi_msg/src/progress/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 8da7400..5b497a9 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -970,7 +970,10 @@ impl ProglessBuffer {
 			else if done == total { w_done = space; }
 			// Working on it!
 			else {
-				w_done = u8::saturating_from((done * u32::from(space)).wrapping_div(total));
+				// (The product may not fit a u32.)
+				w_done = u8::saturating_from(
+					(u64::from(done) * u64::from(space)).wrapping_div(u64::from(total))
+				);
 				w_undone = space.saturating_sub(w_done);
 			}
 
-- 
2.43.0


From d34b3508b32ce88f260e0f237d2e149bb8c55996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 04/17] fix: do not draw progress wider than the screen

---
 fyi_msg/src/progress/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 5b497a9..e28de4d 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -850,8 +850,13 @@ impl ProglessBuffer {
 		// We're discontiguous enough to warrant vectored writes, I think…
 		let mut parts: &mut [IoSlice] =
 			// If the screen is too small for everything, print the percentage
-			// by itself to give them some indication of progress.
-			if width.get() < 40 {
+			// by itself to give them some indication of progress. (See
+			// `set_bars` for the magic "19".)
+			if
+				width.get() < 40 ||
+				usize::from(width.get()) <
+					19 + self.done.len() + self.total.len() + self.percent.len()
+			{
 				&mut [
 					IoSlice::new(concat!(
 						"\x1b[J ",
-- 
2.43.0


From 5e5b22aaad9e94cd098cb2a4f45018d7c0933043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 05/17] fix: do not lose concurrent progress updates

---
 fyi_msg/src/progress/mod.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index e28de4d..63d7663 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -403,12 +403,17 @@ impl ProglessInner {
 		if n != 0 && self.running() {
 			// Don't bother recasting the parts to u32; leaving them as-is
 			// moots addition overflow and simplifies the subsequent joining.
-			let done_total = self.done_total.load(SeqCst);
-			let done = done!(done_total) + u64::from(n);
-			let total = total!(done_total);
+			// The update has to be made in one go so that those made by other
+			// threads at the same time aren't lost.
+			let n = u64::from(n);
+			let updated = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+				let done = done!(done_total) + n;
+				let total = total!(done_total);
+				if done < total { Some(done_total!(done, total)) }
+				else { None }
+			});
 
-			if done < total {
-				self.done_total.store(done_total!(done, total), SeqCst);
+			if updated.is_ok() {
 				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
 			}
 			// Time to call it quits!
@@ -503,16 +508,22 @@ impl ProglessInner {
 	/// better.
 	fn set_done(&self, done: u32) {
 		if self.running() {
+			// As with increments, this needs to be done in one go. Progress
+			// that has already reached its total is left as-is.
 			let done = u64::from(done);
-			let done_total = self.done_total.load(SeqCst);
-			if done != done!(done_total) {
+			let updated = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+				let old = done!(done_total);
 				let total = total!(done_total);
-				if done < total {
-					self.done_total.store(done_total!(done, total), SeqCst);
-					self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
+				if done != old && done < total && old < total {
+					Some(done_total!(done, total))
 				}
+				else { None }
+			});
+
+			match updated {
+				Ok(_) => { self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst); },
 				// Time to call it quits!
-				else { self.stop(); }
+				Err(done_total) => if total!(done_total) <= done { self.stop(); },
 			}
 		}
 	}
-- 
2.43.0


From efe94cbf1275d351050d5979165ceb8ef850a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 06/17] fix: draw nothing after progress stops

---
 fyi_msg/src/progress/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 63d7663..881e43d 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -332,19 +332,19 @@ impl ProglessInner {
 	/// needed), set "done" equal to "total", and clear any active tasks. It
 	/// will also erase the CLI progress bar from the screen.
 	fn stop(&self) {
-		// Shut 'er down!
-		let flags = self.flags.swap(0, SeqCst);
-		if TICKING == flags & TICKING {
+		if self.running() {
 			// Acquire the lock a little early just in case there is a
 			// final in-progress tick.
 			let mut handle = std::io::stderr().lock();
 
+			// Someone else got here first!
+			if ! self.running() { return; }
+
 			// Make sure "done" equals "total".
-			let done_total = self.done_total.load(SeqCst);
-			let total = total!(done_total);
-			if total != done!(done_total) {
-				self.done_total.store(done_total!(total, total), SeqCst);
-			}
+			let _res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+				let total = total!(done_total);
+				Some(done_total!(total, total))
+			});
 
 			// Freeze the time.
 			self.elapsed.store(
@@ -357,6 +357,10 @@ impl ProglessInner {
 
 			// Clear the screen for good measure.
 			let _res = handle.write_all(CLS).and_then(|()| handle.flush());
+
+			// Shut 'er down! This comes last, lest someone else find progress
+			// stopped before everything is in order.
+			self.flags.store(0, SeqCst);
 		}
 	}
 }
@@ -594,6 +598,9 @@ impl ProglessInner {
 		// possible, even though we may well not end up using it.
 		let mut handle = std::io::stderr().lock();
 
+		// We might have stopped while waiting for the lock.
+		if ! self.running() { return false; }
+
 		// Pull the terminal dimensions.
 		let Some((width, height)) = self.tick_set_size() else {
 			// The size either changed between ticks or cannot be determined.
-- 
2.43.0


From acf052c6ddad8f4e0529a72dcb6eaec809735f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 07/17] fix: refuse task labels that are blank once sanitized

---
 fyi_msg/src/progress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 881e43d..feb589a 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1596,6 +1596,9 @@ fn progless_task(src: &str) -> Option<String> {
 		else if ! c.is_control() { out.push(c); }
 	}
 
+	// Stripping might have exposed more trailing whitespace.
+	out.truncate(out.trim_end().len());
+
 	if out.is_empty() { None }
 	else { Some(out) }
 }
-- 
2.43.0


From 6967eab0d560bed3946636238f863a8ff5cb3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 08/17] fix: accept no tasks once progress stops

---
 fyi_msg/src/progress/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index feb589a..3bec57a 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -352,8 +352,9 @@ impl ProglessInner {
 				SeqCst
 			);
 
-			// Clear the tasks.
-			mutex!(self.doing).clear();
+			// Clear the tasks, and keep new ones from sneaking in.
+			let mut doing = mutex!(self.doing);
+			doing.clear();
 
 			// Clear the screen for good measure.
 			let _res = handle.write_all(CLS).and_then(|()| handle.flush());
@@ -388,10 +389,12 @@ impl ProglessInner {
 	///
 	/// Returns `true` if the task was accepted.
 	fn add(&self, txt: &str) -> bool {
-		if
-			self.running() &&
-			progless_task(txt).is_some_and(|m| mutex!(self.doing).insert(m))
-		{
+		let Some(task) = progless_task(txt) else { return false; };
+
+		// Progress is stopped under this lock, so what's true now will remain
+		// true until we're done with it.
+		let mut ptr = mutex!(self.doing);
+		if self.running() && ptr.insert(task) {
 			self.flags.fetch_or(TICK_DOING, SeqCst);
 			true
 		}
-- 
2.43.0


From d8eccefe3cf9fbc439f46b12b5a3fe4e85d8a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 09/17] fix: replace whitespace in progress titles as
 documented

---
 fyi_msg/src/progress/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 3bec57a..bf4f94e 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1059,6 +1059,11 @@ impl ProglessBuffer {
 		// We need at least two lines of screen space to fit a title.
 		if 2 <= height.get() {
 			if let Some(title) = title {
+				// Titles have just the one line; make sure there's nothing
+				// that might break it.
+				let title = Msg::from(title.as_str().chars()
+					.map(|c| if c.is_whitespace() { ' ' } else { c })
+					.collect::<String>());
 				let title = title.fitted(usize::from(width.get()));
 				if ! title.is_empty() {
 					// Truncate to first line.
-- 
2.43.0


From 57450c6f77ba7e84ff3266fdfa22e31a5e635bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 10/17] fix: wait for the ticker even if someone else is
 stopping it

---
 fyi_msg/src/progress/steady.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 618dd6b..d90ec39 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -92,8 +92,10 @@ impl ProglessSteady {
 	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
 	/// dropped.
 	pub(super) fn stop(&self) {
-		let handle = mutex!(self.ticker).take();
-		if let Some(handle) = handle {
+		// Hang onto the lock until the thread has ended so that anyone else
+		// stopping at the same time winds up waiting for it too.
+		let mut ticker = mutex!(self.ticker);
+		if let Some(handle) = ticker.take() {
 			if ! *mutex!(self.state.0) {
 				*mutex!(self.state.0) = true;
 				self.state.1.notify_all();
-- 
2.43.0


From 5d1b4229e1c95a3f81168d8365508fe06a8da8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 11/17] fix: never run two tickers at once

---
 fyi_msg/src/progress/steady.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index d90ec39..174d0eb 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -76,13 +76,17 @@ impl ProglessSteady {
 	///
 	/// Make sure the steady ticker is up and running!
 	pub(super) fn start(&self, t_inner: Arc<ProglessInner>) {
+		// Hang onto the lock until the new thread is in place so that there is
+		// only ever the one.
+		let mut ticker = mutex!(self.ticker);
+
 		// Make sure the old steady ticker is dead.
-		self.stop();
+		self.stop_ticker(&mut ticker);
 
 		// Reset!
 		*mutex!(self.state.0) = false;
 		let t_state = Arc::clone(&self.state);
-		mutex!(self.ticker).replace(spawn_ticker(t_state, t_inner));
+		ticker.replace(spawn_ticker(t_state, t_inner));
 	}
 
 	#[inline]
@@ -94,7 +98,13 @@ impl ProglessSteady {
 	pub(super) fn stop(&self) {
 		// Hang onto the lock until the thread has ended so that anyone else
 		// stopping at the same time winds up waiting for it too.
-		let mut ticker = mutex!(self.ticker);
+		self.stop_ticker(&mut mutex!(self.ticker));
+	}
+
+	/// # Stop Ticker.
+	///
+	/// Tell the thread, if any, to end, and wait until it has.
+	fn stop_ticker(&self, ticker: &mut Option<JoinHandle<()>>) {
 		if let Some(handle) = ticker.take() {
 			if ! *mutex!(self.state.0) {
 				*mutex!(self.state.0) = true;
-- 
2.43.0


From 6d82235245fb6be68725dbd9f3be1c60bebbd208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 12/17] fix: never end a new run on account of the old one

---
 fyi_msg/src/progress/mod.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index bf4f94e..b5f174c 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -331,14 +331,21 @@ impl ProglessInner {
 	/// Calling this will freeze the elapsed time (for future reference as
 	/// needed), set "done" equal to "total", and clear any active tasks. It
 	/// will also erase the CLI progress bar from the screen.
-	fn stop(&self) {
+	fn stop(&self) { self.stop_if(|_| true); }
+
+	/// # Stop If.
+	///
+	/// Same as [`ProglessInner::stop`], but only if the done/total (still)
+	/// meet the condition by the time everyone else is out of the way.
+	fn stop_if<F>(&self, cond: F)
+	where F: FnOnce(u64) -> bool {
 		if self.running() {
 			// Acquire the lock a little early just in case there is a
 			// final in-progress tick.
 			let mut handle = std::io::stderr().lock();
 
 			// Someone else got here first!
-			if ! self.running() { return; }
+			if ! self.running() || ! cond(self.done_total.load(SeqCst)) { return; }
 
 			// Make sure "done" equals "total".
 			let _res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
@@ -414,17 +421,16 @@ impl ProglessInner {
 			// threads at the same time aren't lost.
 			let n = u64::from(n);
 			let updated = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
-				let done = done!(done_total) + n;
 				let total = total!(done_total);
-				if done < total { Some(done_total!(done, total)) }
-				else { None }
+				let done = total.min(done!(done_total) + n);
+				Some(done_total!(done, total))
 			});
 
-			if updated.is_ok() {
+			if updated.is_ok_and(|old| done!(old) + n < total!(old)) {
 				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
 			}
-			// Time to call it quits!
-			else { self.stop(); }
+			// Time to call it quits! (Unless reset in the meantime.)
+			else { self.stop_if(|now| done!(now) == total!(now)); }
 		}
 	}
 
@@ -521,16 +527,20 @@ impl ProglessInner {
 			let updated = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
 				let old = done!(done_total);
 				let total = total!(done_total);
-				if done != old && done < total && old < total {
-					Some(done_total!(done, total))
+				if done != old && old < total {
+					Some(done_total!(total.min(done), total))
 				}
 				else { None }
 			});
 
 			match updated {
-				Ok(_) => { self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst); },
-				// Time to call it quits!
-				Err(done_total) => if total!(done_total) <= done { self.stop(); },
+				Ok(old) if done < total!(old) => {
+					self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
+				},
+				// Nothing changed.
+				Err(old) if done < total!(old) => {},
+				// Time to call it quits! (Unless reset in the meantime.)
+				_ => { self.stop_if(|now| done!(now) == total!(now)); },
 			}
 		}
 	}
-- 
2.43.0


From 23c5388247165c4347f6e145649d4dd62d0a65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 13/17] fix: leave the ticker of a restarted bar alone

---
 fyi_msg/src/progress/mod.rs    |  5 ++++-
 fyi_msg/src/progress/steady.rs | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index b5f174c..648b28d 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1377,7 +1377,10 @@ impl Progless {
 	/// ```
 	pub fn finish(&self) -> Duration {
 		self.inner.stop();
-		self.steady.stop();
+
+		// If someone else has already started it up again, the ticker is
+		// theirs now.
+		self.steady.stop_if(|| ! self.inner.running());
 		self.inner.started.elapsed()
 	}
 
diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 174d0eb..ab4dc52 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -95,10 +95,18 @@ impl ProglessSteady {
 	/// Make sure the steady ticker has actually aborted. This is called
 	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
 	/// dropped.
-	pub(super) fn stop(&self) {
+	pub(super) fn stop(&self) { self.stop_if(|| true); }
+
+	/// # Stop If.
+	///
+	/// Same as [`ProglessSteady::stop`], but only if the condition (still)
+	/// holds once everyone else is out of the way.
+	pub(super) fn stop_if<F>(&self, cond: F)
+	where F: FnOnce() -> bool {
 		// Hang onto the lock until the thread has ended so that anyone else
 		// stopping at the same time winds up waiting for it too.
-		self.stop_ticker(&mut mutex!(self.ticker));
+		let mut ticker = mutex!(self.ticker);
+		if cond() { self.stop_ticker(&mut ticker); }
 	}
 
 	/// # Stop Ticker.
-- 
2.43.0


From 944584c556f50e86bbe34f552df7ff845dff198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 14/17] fix: draw nothing over a pushed message

---
 fyi_msg/src/progress/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 648b28d..be7ca33 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -449,10 +449,13 @@ impl ProglessInner {
 	fn push_msg(&self, msg: Msg) -> Result<(), Msg> {
 		let msg = msg.with_newline(true);
 
+		// Nothing can be drawn while we've got the lock, so what's true now
+		// will remain true until the message is out.
+		let mut handle = std::io::stderr().lock();
+
 		// If the progress is active, we have to do some things.
 		if self.running() {
 			// Clear the screen, then print the message.
-			let mut handle = std::io::stderr().lock();
 			let res = handle.write_all(CLS)
 				.and_then(|()| handle.write_all(msg.as_bytes()))
 				.and_then(|()| handle.flush())
-- 
2.43.0


From 5f2b0758bea5f781f2f70d203a22efbd75bc169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 15/17] fix: keep signal handlers away from the locked STDERR
 handle

---
 fyi_msg/src/progress/signals.rs | 51 ++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index b4152c4..1bed3e0 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -167,7 +167,13 @@ impl Default for ProglessSignals {
 		let sigint = SIGINT_HANLDER.get_or_init(sigint_default);
 
 		#[cfg(feature = "signals_sigint")]
-		if ! sigint.load(SeqCst) { eprint!("{}", Progless::CURSOR_HIDE); }
+		if ! sigint.load(SeqCst) {
+			eprint!("{}", Progless::CURSOR_HIDE);
+
+			// If a signal snuck in before the cursor was hidden, the handler's
+			// cleanup will have come too soon.
+			if sigint.load(SeqCst) { unhide_cursor(); }
+		}
 
 		Self {
 			#[cfg(feature = "signals_sigint")]
@@ -274,10 +280,10 @@ fn sigint_default() -> Arc<AtomicBool> {
 	unsafe {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move || {
-			// Unhide our cursor if we changed state.
-			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
-			}
+			// Unhide our cursor, whatever the state; if another thread is
+			// already handling a signal, it may not have gotten that far yet.
+			t_switch.store(true, SeqCst);
+			unhide_cursor();
 
 			// One strike and you're out!
 			signal_hook::low_level::exit(1);
@@ -306,9 +312,14 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move ||
 			// Terminate the process if the switch was already true.
-			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
+			// (Unhide the cursor again in case another thread hasn't finished
+			// doing that for the first strike.)
+			if t_switch.swap(true, SeqCst) {
+				unhide_cursor();
+				signal_hook::low_level::exit(1);
+			}
 			// Otherwise just unhide the cursor.
-			else { eprint!("{}", Progless::CURSOR_UNHIDE); }
+			else { unhide_cursor(); }
 		).is_err() { sigint_error(); }
 	}
 
@@ -334,15 +345,35 @@ fn sigint_keepalive() -> Arc<AtomicBool> {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move ||
 			// Unhide the cursor.
-			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
-			}
+			if ! t_switch.swap(true, SeqCst) { unhide_cursor(); }
 		).is_err() { sigint_error(); }
 	}
 
 	switch
 }
 
+#[cfg(all(feature = "signals_sigint", unix))]
+#[expect(unsafe_code, reason = "For raw STDERR.")]
+/// # Unhide Cursor.
+///
+/// Signals can interrupt a thread that is in the middle of printing something,
+/// so their handlers cannot touch the (locking, panicking) `std` handle; this
+/// writes directly to STDERR instead.
+fn unhide_cursor() {
+	use std::{
+		io::Write,
+		os::fd::FromRawFd,
+	};
+
+	// Safety: STDERR isn't ours to close, so the "file" mustn't be dropped.
+	let mut stderr = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(2) });
+	let _res = stderr.write_all(Progless::CURSOR_UNHIDE.as_bytes());
+}
+
+#[cfg(all(feature = "signals_sigint", not(unix)))]
+/// # Unhide Cursor.
+fn unhide_cursor() { eprint!("{}", Progless::CURSOR_UNHIDE); }
+
 #[cfg(feature = "signals_sigint")]
 #[inline]
 /// # `SIGINT` Handler Registration Error.
-- 
2.43.0


From bd7a248ccc75e5055c9935cb19fedd083b429368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 16/17] fix: draw nothing once the window has no usable size

---
 fyi_msg/src/progress/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index be7ca33..741c161 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -754,11 +754,14 @@ impl ProglessInner {
 	/// This will return `false` if progress has stopped, otherwise `true`.
 	fn tick_resize(&self) -> bool {
 		if self.running() {
-			if let Some((width, height)) = term_size() {
-				let wh = u16::from_le_bytes([width.get(), height.get()]);
-				if wh != self.last_size.swap(wh, SeqCst) {
-					self.flags.fetch_or(TICK_RESIZED, SeqCst);
-				}
+			// If there are no (usable) dimensions, a zero will keep us from
+			// drawing for the old ones.
+			let wh = term_size().map_or(
+				0,
+				|(width, height)| u16::from_le_bytes([width.get(), height.get()]),
+			);
+			if wh != self.last_size.swap(wh, SeqCst) {
+				self.flags.fetch_or(TICK_RESIZED, SeqCst);
 			}
 			true
 		}
-- 
2.43.0


From bdf5b34c6128a38ce7a466f7c37e1baf8681cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 17/17] fix: print blank lines in chunks so huge counts do not
 panic

---
 fyi/src/cli.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/fyi/src/cli.rs b/fyi/src/cli.rs
index ff8af65..f8f583c 100644
--- a/fyi/src/cli.rs
+++ b/fyi/src/cli.rs
@@ -13,6 +13,7 @@ use fyi_msg::{
 	MsgKind,
 };
 use std::{
+	io::Write,
 	num::NonZeroUsize,
 	process::ExitCode,
 };
@@ -106,13 +107,27 @@ pub(super) fn parse_blank() -> Result<(), FyiError> {
 	}
 
 	// Print it!
-	let lines = "\n".repeat(count.get());
-	if stderr { eprint!("{lines}"); }
-	else { print!("{lines}"); }
+	let _res =
+		if stderr { write_blank(std::io::stderr().lock(), count.get()) }
+		else { write_blank(std::io::stdout().lock(), count.get()) };
 
 	Ok(())
 }
 
+/// # Write Blank Lines.
+///
+/// The count can be absurdly large, so write the lines in reasonably-sized
+/// chunks rather than all at once.
+fn write_blank<W: Write>(mut dst: W, mut count: usize) -> std::io::Result<()> {
+	const CHUNK: [u8; 4096] = [b'\n'; 4096];
+	while count != 0 {
+		let n = usize::min(count, CHUNK.len());
+		dst.write_all(&CHUNK[..n])?;
+		count -= n;
+	}
+	dst.flush()
+}
+
 /// # Parse Message.
 pub(super) fn parse_msg(kind: MsgKind) -> Result<(Msg, Settings), FyiError> {
 	// The first arg is always skipped, the second we read earlier.
-- 
2.43.0

