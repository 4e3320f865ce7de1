From a10971fa1f5da77c5882fe6b6bc35b40075713f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 1/8] fix: nth() of the property id iterators skips n ids and
 returns the id at that position

---
 client/rust/src/contract/properties/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/contract/properties/mod.rs b/client/rust/src/contract/properties/mod.rs
index 4e7a0d7..83064c7 100644
--- a/client/rust/src/contract/properties/mod.rs
+++ b/client/rust/src/contract/properties/mod.rs
@@ -37,17 +37,17 @@ macro_rules! prop_iter {
 
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
                 let n_fields = S::enumerate_types().len();
-                let new_pos = self.pos + n;
+                let new_pos = self.pos.saturating_add(n);
                 if new_pos >= n_fields {
                     self.pos = n_fields;
                     return None;
                 }
                 let prop_type = S::enumerate_types()
-                    .get(self.pos)
+                    .get(new_pos)
                     .copied()
                     .expect("Should be impossible to be `None`");
-                self.pos += 1; // also discard the element at the new position
-                Some($dyn_name::new(self.contract, self.pos, prop_type))
+                self.pos = new_pos + 1; // also discard the element at the new position
+                Some($dyn_name::new(self.contract, new_pos, prop_type))
             }
         }
     };
-- 
2.43.0


From 874f2ab813a9550fd0f6726f8fb1ff8a9fb8e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 2/8] fix: object_remove binds through the removed object, so
 its states and channels are freed

---
 client/rust/src/baseline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 09f749d..e247fdd 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -203,7 +203,7 @@ impl Baseline {
 
         for s in states {
             apply_to_state_id!(s, |id| {
-                let handle = self.bind_state(id, obj)?;
+                let handle = o.bind_state(id)?;
                 if let Err(e) = self.state_remove(handle) {
                     log::warn!("Failed to remove state, state has been leaked: {}", e);
                 }
@@ -213,7 +213,7 @@ impl Baseline {
 
         for c in channels {
             apply_to_channel_id!(c, |id| {
-                let handle = self.bind_channel(id, obj)?;
+                let handle = o.bind_channel(id)?;
                 if let Err(e) = self.channel_remove(handle) {
                     log::warn!("Failed to remove channel, channel has been leaked: {}", e);
                 }
-- 
2.43.0


From 3481925ea32425ed44d21f098e3baa239e8762a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 3/8] fix: object_remove rejects a foreign contract type and
 drops the handle from its contract

---
 client/rust/src/baseline.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index e247fdd..d2bf8bb 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -191,11 +191,22 @@ impl Baseline {
     }
 
     pub fn object_remove<C: Contract>(&mut self, obj: ObjectHandle) -> Result<()> {
-        let o = if let Some(o) = self.objects.remove(obj) {
-            o
-        } else {
-            return Err(eyre!("Object did not exist, so it could not be removed"));
+        let contract = match self.objects.get(obj) {
+            Some(o) => o.contract(),
+            None => return Err(eyre!("Object did not exist, so it could not be removed")),
         };
+        let c_data = self
+            .contracts
+            .get_mut(contract)
+            .ok_or_else(|| eyre!("No contract exists for that object!"))?;
+        if c_data.id() != C::ID {
+            return Err(eyre!("Object did not match the provided contract type!"));
+        }
+        c_data.objects_mut().remove(&obj);
+        let o = self
+            .objects
+            .remove(obj)
+            .expect("We already checked this");
 
         // remove all fields of the object
         let states = StatesIter::<C::States>::new(o.contract());
-- 
2.43.0


From fe829e5a29975795ffb9180eb26b700daa0ba7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 4/8] fix: rejecting a collaction does not re-apply the action
 that failed

---
 client/rust/src/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index b118553..54b2960 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -85,8 +85,8 @@ impl Engine {
                     applied_actions.push(action);
                 }
                 Err(_) => {
-                    // Reverse previously-applied Actions within this Collaction.
-                    applied_actions.push(action);
+                    // Reverse previously-applied Actions within this Collaction. The
+                    // Action that failed was not applied, so it isn't reversed.
                     // Go in FIFO order
                     self.reverse_actions(applied_actions.into_iter().rev());
 
-- 
2.43.0


From df533c5d278efd4751967e3407212fe2e0291156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 5/8] fix: Ticks convert to seconds with ticks_per_second()

---
 client/rust/src/time/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 1dc0a01..4ccb2bc 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -26,11 +26,11 @@ impl Ticks {
     /// The return value of this function truncates the actual `seconds` value.
     /// Use `Time.as_secs_f32()` for more precision.
     pub fn as_secs(&self) -> i32 {
-        self.0 >> 10 // normalize scalar factor (1024 denominator)
+        self.0 / Self::ticks_per_second()
     }
 
     pub fn as_secs_f32(&self) -> f32 {
-        (self.0 as f32) / 1024.0
+        (self.0 as f32) / (Self::ticks_per_second() as f32)
     }
 }
 
-- 
2.43.0


From 139c67e3b7eb4da8dbc762cd2f4d3442c7a4d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 6/8] fix: scaling Ticks saturates like adding and subtracting
 them

---
 client/rust/src/time/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 4ccb2bc..8bddd0a 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -57,7 +57,7 @@ impl Mul<TimeScale> for Ticks {
         let mut val = self.0 as i64;
         val *= other.numerator_as_i64();
         val >>= TimeScale::denominator_as_log2();
-        Self(val as i32)
+        Self(val.clamp(i32::MIN as i64, i32::MAX as i64) as i32)
     }
 }
 
-- 
2.43.0


From 6b9c32fa13ab5798208cf8b4753e38e0c56ebff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 7/8] fix: keyframes are sorted by a total order, so a NaN time
 cannot scramble the rest

---
 client/rust/src/contract/properties/channels/channel.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/channel.rs b/client/rust/src/contract/properties/channels/channel.rs
index d70efce..cd4fa4b 100644
--- a/client/rust/src/contract/properties/channels/channel.rs
+++ b/client/rust/src/contract/properties/channels/channel.rs
@@ -26,11 +26,7 @@ impl<T: ITpProperty> Channel<T> {
     pub fn new(keyframes: impl Iterator<Item = Keyframe<T>>) -> Self {
         let mut keyframes: Vec<_> = keyframes.collect();
         // Sort keyframes by time
-        keyframes.sort_unstable_by(|a, b| {
-            a.time()
-                .partial_cmp(&b.time())
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        keyframes.sort_unstable_by(|a, b| a.time().total_cmp(&b.time()));
         Self(keyframes)
     }
 
-- 
2.43.0


From 96614a56d6878658f9273f933468981613f77750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 8/8] fix: export ChannelId_*__contract under its mangled name

---
 client/rust/src/contract/properties/channels/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index 80232c1..2de1efe 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -131,6 +131,7 @@ pub mod c_api {
                     }
                     pub use [<ChannelId_ $t:camel>] as Monomorphized;
 
+                    #[remangle($path)]
                     #[ffi_export]
                     pub fn [<ChannelId_ $t:camel __contract>]<'a>(id: &'a Monomorphized) -> repr_c::Box<CContractDataHandle> {
                         repr_c::Box::new(CContractDataHandle::from(id.inner.contract()))
-- 
2.43.0

