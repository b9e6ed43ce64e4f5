From 514b3c76afa9fb6b6c12cee59196dc521cf59030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 01/34] fix: read optional packed ints after their presence bit

The optional sequence of a command manager state event and the deprecated md5 array length were read
from before the presence bit, giving a wrong value and a cursor one bit short.
---
 src/versions/protocol87702/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 71d60bc..cc0845a 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6207,7 +6207,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<Vec<Uint8>>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_data_deprecated) = if is_provided {
-                let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+                let (mut tail, array_length) = take_n_bits_into_i64(tail, 5)?;
                 let array_length = array_length as usize;
                 tracing::debug!("Reading array length: {array_length}");
                 let max_initial_capacity =
@@ -12478,7 +12478,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<i64>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_sequence) = if is_provided {
-                let (tail, res) = parse_packed_int(input, 1, 32usize)?;
+                let (tail, res) = parse_packed_int(tail, 1, 32usize)?;
                 (tail, Some(res))
             } else {
                 (tail, None)
-- 
2.43.0


From 3c83ce1f54e79e8a899803153e0cf8a68c90ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 02/34] fix: bit-packed blob fields start at a byte boundary

The bytes of a bit-packed blob follow its length at the next byte boundary, as the string types already
do; the struct fields read them unaligned, which garbled the value and could lose a byte of the stream.
---
 src/versions/protocol87702/mod.rs | 72 ++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index cc0845a..0d8dceb 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6227,7 +6227,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_data(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7754,7 +7755,8 @@ pub mod bit_packed {
     impl GameSBankFileEvent {
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7790,7 +7792,8 @@ pub mod bit_packed {
     impl GameSBankSectionEvent {
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7828,7 +7831,8 @@ pub mod bit_packed {
     impl GameSBankKeyEvent {
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7847,7 +7851,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_data(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7905,7 +7910,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -7918,7 +7924,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_data(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 10)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 10)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -8147,7 +8154,8 @@ pub mod bit_packed {
         pub fn parse_m_hotkey_profile(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -8625,7 +8633,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 6)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -8640,7 +8649,8 @@ pub mod bit_packed {
         pub fn parse_m_description(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -11792,7 +11802,8 @@ pub mod bit_packed {
         pub fn parse_m_function_name(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12047,7 +12058,8 @@ pub mod bit_packed {
         pub fn parse_m_bookmark_name(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12129,7 +12141,8 @@ pub mod bit_packed {
         pub fn parse_m_conversation_line(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12144,7 +12157,8 @@ pub mod bit_packed {
         pub fn parse_m_alt_conversation_line(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12206,7 +12220,8 @@ pub mod bit_packed {
         pub fn parse_m_conversation_line(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12595,7 +12610,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_field(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -12608,7 +12624,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_value(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -13740,7 +13757,8 @@ pub mod bit_packed {
     impl GameSThumbnail {
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_file(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 10)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 10)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -13908,7 +13926,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_name(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 5)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14002,7 +14021,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_race(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14073,7 +14093,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_hero(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14261,7 +14282,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_title(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 9)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14274,7 +14296,8 @@ pub mod bit_packed {
         }
         #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
         pub fn parse_m_difficulty(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 7)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
@@ -14344,7 +14367,8 @@ pub mod bit_packed {
         pub fn parse_m_description(
             input: (&[u8], usize),
         ) -> S2ProtoResult<(&[u8], usize), Vec<u8>> {
-            let (mut tail, array_length) = take_n_bits_into_i64(input, 11)?;
+            let (tail, array_length) = take_n_bits_into_i64(input, 11)?;
+            let (mut tail, _) = byte_align(tail)?;
             let array_length = array_length as usize;
             tracing::debug!("Reading array length: {array_length}");
             let mut array = vec![];
-- 
2.43.0


From 1014c9733574c417926ad092735e33f2006f4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 03/34] fix: a dead unit leaves every control group (tags were
 compared with indexes)

---
 src/tracker_events/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 6a67b54..9361687 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -249,7 +249,9 @@ pub fn handle_unit_died(
     // Clean up the unit from previous groups where it was selected.
     for (_idx, state) in sc2_state.user_state.iter_mut() {
         for group_idx in 0..11 {
-            state.control_groups[group_idx].retain(|&x| x != unit_dead.unit_tag_index);
+            // The control groups hold full unit tags, while the event carries the tag index.
+            state.control_groups[group_idx]
+                .retain(|&x| unit_tag_index(i64::from(x)) != unit_dead.unit_tag_index);
         }
     }
     match sc2_state.units.remove(&unit_dead.unit_tag_index) {
-- 
2.43.0


From b68efc15c355257c66545bc7a53d293cab5c69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 04/34] fix: stealing into a control group also removes units
 from the last group

---
 src/game_events/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index ff10261..513b266 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -340,7 +340,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
@@ -371,7 +371,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let mut current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
-- 
2.43.0


From b43317a89b5d65c350739a9c172a88af96d13241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 05/34] fix: ignore control group events for groups that do not
 exist

---
 src/game_events/state.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 513b266..d74af84 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -303,9 +303,13 @@ pub fn handle_selection_delta(
         };
         updated_units.append(&mut marked_units);
     }
-    if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id) {
-        state.control_groups[selection_delta.m_control_group_id as usize] =
-            selection_delta.m_delta.m_add_unit_tags.clone();
+    // The group id is a 4-bit field, ids beyond the known groups are ignored.
+    if let Some(control_group) = sc2_state.user_state.get_mut(&user_id).and_then(|state| {
+        state
+            .control_groups
+            .get_mut(selection_delta.m_control_group_id as usize)
+    }) {
+        *control_group = selection_delta.m_delta.m_add_unit_tags.clone();
     }
     updated_units.sort_unstable();
     updated_units.dedup();
@@ -324,6 +328,13 @@ pub fn update_control_group(
     user_id: i64,
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
+    if ctrl_group_evt.m_control_group_index as usize > ACTIVE_UNITS_GROUP_IDX {
+        // The group index is a 4-bit field, indexes beyond the known groups are ignored.
+        return (
+            ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
+            UnitChangeHint::Selection(vec![]),
+        );
+    }
     let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
         UnitChangeHint::Selection(units) => units,
         _ => unreachable!(),
-- 
2.43.0


From 303f7208e99af92b7a587453750cc95a8eae437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 06/34] fix: only recalling a control group changes the
 selected units

---
 src/game_events/state.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index d74af84..fa26047 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -335,10 +335,7 @@ pub fn update_control_group(
             UnitChangeHint::Selection(vec![]),
         );
     }
-    let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
-        UnitChangeHint::Selection(units) => units,
-        _ => unreachable!(),
-    };
+    let mut updated_units = vec![];
     match ctrl_group_evt.m_control_group_update {
         GameEControlGroupUpdate::ESet => {
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
@@ -395,6 +392,11 @@ pub fn update_control_group(
             }
         }
         GameEControlGroupUpdate::ERecall => {
+            // Only a recall changes the units that are currently selected.
+            updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
+                UnitChangeHint::Selection(units) => units,
+                _ => unreachable!(),
+            };
             let mut current_selected_units: Vec<u32> = vec![];
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
                 user_state.control_groups[ACTIVE_UNITS_GROUP_IDX] = user_state.control_groups
-- 
2.43.0


From de19d1d1f6e978707855a0b480f5370145bb02f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 07/34] fix: selection changes report each unit once with its
 current state

---
 src/game_events/state.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index fa26047..2288c19 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -269,6 +269,19 @@ pub fn mark_selected_units(
     UnitChangeHint::Selection(updated_units)
 }
 
+/// Returns each of the units once, as they are currently registered in the state.
+/// A unit that is both removed from and added back to the selection would otherwise be reported
+/// with the properties it had in between.
+fn current_units_snapshot(sc2_state: &SC2ReplayState, mut units: Vec<SC2Unit>) -> Vec<SC2Unit> {
+    units.sort_unstable();
+    units.dedup();
+    units
+        .iter()
+        .filter_map(|unit| sc2_state.units.get(&unit.tag_index))
+        .cloned()
+        .collect()
+}
+
 /// Registers units as being selected.
 /// The previous selected units radius is decreased to its normal state.
 /// The new selected units radius is increased.
@@ -311,8 +324,7 @@ pub fn handle_selection_delta(
     }) {
         *control_group = selection_delta.m_delta.m_add_unit_tags.clone();
     }
-    updated_units.sort_unstable();
-    updated_units.dedup();
+    let updated_units = current_units_snapshot(sc2_state, updated_units);
     (
         ReplayGameEvent::SelectionDelta(selection_delta),
         UnitChangeHint::Selection(updated_units),
@@ -410,6 +422,7 @@ pub fn update_control_group(
                     _ => unreachable!(),
                 };
             updated_units.append(&mut curr_units);
+            updated_units = current_units_snapshot(sc2_state, updated_units);
         }
     }
     (
-- 
2.43.0


From b17f953e66d775c055a726b9f2739db85b6565e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 08/34] fix: max_events allows that many events instead of one
 less

---
 src/state/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 122680e..eed6627 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -672,6 +672,11 @@ impl Iterator for SC2EventIterator {
     type Item = SC2EventIteratorItem;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(ref filters) = self.filters
+            && filters.is_max_event_reached()
+        {
+            return None;
+        }
         loop {
             // Fill the next_tracker_event if they are empty.
             if self.next_tracker_event.is_none() {
@@ -717,9 +722,6 @@ impl Iterator for SC2EventIterator {
                     continue;
                 }
                 filters.decrease_allowed_event_counter();
-                if filters.is_max_event_reached() {
-                    return None;
-                }
             }
             #[cfg(feature = "tracing_info_level")]
             iterator_item.emit_info_log();
-- 
2.43.0


From 8718c981671e728ab65ffddd5790da1a892e0772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 09/34] fix: the loop range filter also applies to game events

---
 src/state/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index eed6627..9d78dc2 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -601,16 +601,18 @@ impl SC2EventIteratorItem {
     /// Returns true if the event should be skipped based on the filters
     #[tracing::instrument(level = "debug")]
     fn shoud_skip_event(&self, event: &SC2EventType, filters: &SC2ReplayFilters) -> bool {
+        let event_loop = match event {
+            SC2EventType::Tracker { tracker_loop, .. } => *tracker_loop,
+            SC2EventType::Game { game_loop, .. } => *game_loop,
+        };
         if let Some(min_loop) = filters.min_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop < min_loop
+            && event_loop < min_loop
         {
             tracing::debug!("Skipping event below min_loop {min_loop}");
             return true;
         }
         if let Some(max_loop) = filters.max_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop > max_loop
+            && event_loop > max_loop
         {
             tracing::debug!("Skipping event above max_loop {max_loop}");
             return true;
-- 
2.43.0


From a1b2a2a46216b6718ba17cdc84f95face429bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 10/34] fix: at the same loop tracker events come before game
 events

---
 src/state/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 9d78dc2..bdbcde8 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -699,9 +699,11 @@ impl Iterator for SC2EventIterator {
             let next_game_event_loop = self.get_game_loop();
             let event: SC2EventType = match (next_tracker_event_loop, next_game_event_loop) {
                 (Some(next_tracker_event_loop), Some(next_game_event_loop)) => {
-                    // Both events are populated, compare the loop and return the lowest one
+                    // Both events are populated, compare the loop and return the lowest one.
+                    // At the same loop the tracker events take priority. An f32 can't represent
+                    // every loop, so the comparison is done in f64.
                     if next_tracker_event_loop
-                        < (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
+                        <= (next_game_event_loop as f64 * f64::from(TRACKER_SPEED_RATIO)) as i64
                     {
                         self.next_tracker_event.take().unwrap()
                     } else {
-- 
2.43.0


From ff6fe6286aa44fa38e830a03ad16a11bac356fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 11/34] fix: command target units are looked up by tag index

---
 src/game_events/state.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 2288c19..574c2fc 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -63,7 +63,11 @@ pub fn handle_cmd(
     // For now this is not implemented and a unit maybe have a target unit, even tho the active
     // command is Stop.
     let target = if let GameSCmdData::TargetUnit(tu) = &cmd.m_data {
-        sc2_state.units.get(&tu.m_tag).cloned()
+        // The units are registered by tag index, the event carries the full unit tag.
+        sc2_state
+            .units
+            .get(&unit_tag_index(i64::from(tu.m_tag)))
+            .cloned()
     } else {
         None
     };
@@ -160,25 +164,21 @@ pub fn handle_update_target_unit(
     target_unit: GameSCmdUpdateTargetUnitEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     // The TargetPoint does not contain the ability id or command index.
-    let registered_target_unit = match sc2_state.units.get(&target_unit.m_target.m_tag) {
+    // The units are registered by tag index, the event carries the full unit tag.
+    let registered_target_unit = match sc2_state
+        .units
+        .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
+    {
         Some(x) => x.clone(),
         None => {
-            match sc2_state
-                .units
-                .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
-            {
-                Some(x) => x.clone(),
-                None => {
-                    tracing::warn!(
-                        "Unit not found for target unit: {}",
-                        target_unit.m_target.m_tag
-                    );
-                    return (
-                        ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
-                        UnitChangeHint::None,
-                    );
-                }
-            }
+            tracing::warn!(
+                "Unit not found for target unit: {}",
+                target_unit.m_target.m_tag
+            );
+            return (
+                ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
+                UnitChangeHint::None,
+            );
         }
     };
     let mut user_selected_unit_ids: Vec<u32> = vec![];
-- 
2.43.0


From 1d1968c6b99248594bdc3f70ff1f43a51b0a2b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 12/34] fix: a unit init on a registered unit reports the
 registered unit

---
 src/tracker_events/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 9361687..5d92904 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -60,6 +60,7 @@ pub fn handle_unit_init(
         unit.pos = Vec3D::new(unit_init.x as f32, unit_init.y as f32, 0.);
         unit.is_init = true;
         unit.name.clone_from(&unit_init.unit_type_name);
+        sc2_unit = unit.clone();
     } else {
         sc2_state
             .units
-- 
2.43.0


From 4d832a42edd8702d1d188acb7dffe0d573cd495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 13/34] fix: the document header parser returns the bytes after
 its fields

---
 src/cache_handles/document_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache_handles/document_header.rs b/src/cache_handles/document_header.rs
index 355ce6a..4371124 100644
--- a/src/cache_handles/document_header.rs
+++ b/src/cache_handles/document_header.rs
@@ -176,7 +176,7 @@ impl DocumentHeader {
             new_tail = tail;
         }
 
-        Ok((tail, res))
+        Ok((new_tail, res))
     }
 }
 
-- 
2.43.0


From 9ac84bc608a631ac2a575e322100fc438c98c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 14/34] fix: reject negative map dimensions and bounds, their
 arithmetic overflows

---
 src/cache_handles/map_info.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cache_handles/map_info.rs b/src/cache_handles/map_info.rs
index 6983f24..2b5182a 100644
--- a/src/cache_handles/map_info.rs
+++ b/src/cache_handles/map_info.rs
@@ -67,6 +67,11 @@ impl MapInfo {
             dbg_peek_hex(take(4usize), "read map cell_height, 4 bytes")(tail)?;
         let (_, cell_height) = i32(nom::number::Endianness::Little)(cell_height_bytes)?;
 
+        if cell_width < 1 || cell_height < 1 {
+            return Err(S2ProtocolError::Map(MapError::InvalidMapSize(
+                cell_width.min(cell_height),
+            )));
+        }
         if cell_width > 256 || cell_height > 256 {
             tracing::warn!(
                 "MapInfo cell_width({}) or cell_height({}) is larger than expected 256",
@@ -135,6 +140,14 @@ impl MapInfo {
             dbg_peek_hex(take(4usize), "read map cell_top, 4 bytes")(tail)?;
         let (_, cell_top) = i32(nom::number::Endianness::Little)(cell_top_bytes)?;
 
+        if cell_left < 0 || cell_bottom < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "Zero".to_string(),
+                0,
+                "MapInfoCellLeftBottom".to_string(),
+                cell_left.min(cell_bottom),
+            )));
+        }
         if cell_left >= cell_right {
             return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
                 "MapInfoCellLeft".to_string(),
-- 
2.43.0


From a8381736b5f3a35e43e485f63f8d984423d25740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 15/34] fix: biased 64-bit integers do not overflow

---
 src/bit_packed_decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bit_packed_decoder.rs b/src/bit_packed_decoder.rs
index 62c07a5..2c584de 100644
--- a/src/bit_packed_decoder.rs
+++ b/src/bit_packed_decoder.rs
@@ -147,7 +147,8 @@ pub fn parse_packed_int(
     num_bits: usize,
 ) -> S2ProtoResult<(&[u8], usize), i64> {
     let (tail, num) = take_n_bits_into_i64(input, num_bits)?;
-    let res = offset + num;
+    // A 64-bit value with its bias is within the i64 range, the intermediate may not be.
+    let res = offset.wrapping_add(num);
     tracing::debug!("parse_packed_int: {}", res);
     Ok((tail, res))
 }
-- 
2.43.0


From e4ba0709c30a7b8cf8f82627f2f2c89bdf85c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 16/34] fix: variable length integers longer than 64 bits are
 an error

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 88d3368..30eab7b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,12 +157,19 @@ pub fn parse_vlq_int(input: &[u8]) -> IResult<&[u8], i64> {
     while (v_int_value & 0x80) != 0 {
         let (new_tail, new_v_int_value) = dbg_peek_hex(u8, "v_int")(tail)?;
         tail = new_tail;
+        if bits > 62 {
+            // The value doesn't fit in an i64.
+            return Err(nom::Err::Error(nom::error::Error::new(
+                input,
+                nom::error::ErrorKind::TooLarge,
+            )));
+        }
         result |= ((new_v_int_value as i64 & 0x7fi64) << bits) as i64;
         v_int_value = new_v_int_value;
         bits += 7;
     }
     if is_negative {
-        result = -result;
+        result = result.wrapping_neg();
     }
     Ok((tail, result))
 }
-- 
2.43.0


From 20685bc06b656a162ae07c6a6f8a3e5ecec19c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 17/34] fix: an out of range local time offset has no time
 instead of overflowing

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 30eab7b..898c335 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -179,7 +179,7 @@ pub fn transform_to_naivetime(
     time_utc: i64,
     time_local_offset: i64,
 ) -> Option<chrono::NaiveDateTime> {
-    let micros = time_utc / 10 - 11_644_473_600_000_000 - time_local_offset / 10;
+    let micros = (time_utc / 10 - 11_644_473_600_000_000).checked_sub(time_local_offset / 10)?;
     let secs = micros.div_euclid(1_000_000);
     let nsecs = micros.rem_euclid(1_000_000) as u32 * 1000;
     // Some(chrono::NaiveDateTime::from_timestamp(secs, nsecs))
-- 
2.43.0


From 4a4be7777f284c63f3472a50232388ef9d8685b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 18/34] fix: unit positions do not overflow

---
 src/tracker_events/unit_positions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tracker_events/unit_positions.rs b/src/tracker_events/unit_positions.rs
index b010c75..f46aea6 100644
--- a/src/tracker_events/unit_positions.rs
+++ b/src/tracker_events/unit_positions.rs
@@ -39,9 +39,10 @@ impl UnitPositionsEvent {
         let mut unit_index = self.first_unit_index as i32;
         let mut res = vec![];
         for relative_unit_pos in self.items.chunks_exact(3) {
-            unit_index += relative_unit_pos[0];
-            let x = relative_unit_pos[1] * 4;
-            let y = relative_unit_pos[2] * 4;
+            // The items come from the replay as they are, a corrupt one must not overflow.
+            unit_index = unit_index.wrapping_add(relative_unit_pos[0]);
+            let x = relative_unit_pos[1].wrapping_mul(4);
+            let y = relative_unit_pos[2].wrapping_mul(4);
             res.push(UnitPosition {
                 tag: unit_index as u32,
                 x,
-- 
2.43.0


From ef338a950bf441eacb40d90dc44f16faaef4d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 19/34] fix: ignore cache handles that are too short to hold
 their prefix

---
 src/details.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/details.rs b/src/details.rs
index 595e68f..b79c3eb 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -81,6 +81,10 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
         let mut cache_handle_region = None;
         let mut cache_handle_extension = None;
         for cache_handle in &source.cache_handles {
+            if cache_handle.len() < 16 {
+                tracing::warn!("Ignoring malformed cache handle {cache_handle}");
+                continue;
+            }
             // 8 characters for the extension
             let (ext_str, remaining) = cache_handle.split_at(8);
             let extension = make_string_from_hex_chars(ext_str);
-- 
2.43.0


From 83113c9542bcf6bc1d9a8f3d5f4f2589f374c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 20/34] fix: an archive without user data is an error instead
 of a panic

---
 src/protocol_version_decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol_version_decoder.rs b/src/protocol_version_decoder.rs
index 468c96c..a0b19c8 100644
--- a/src/protocol_version_decoder.rs
+++ b/src/protocol_version_decoder.rs
@@ -53,6 +53,6 @@ pub fn read_protocol_header(mpq: &MPQ) -> S2ProtoResult<&[u8], ReplaySHeader> {
     let user_data = mpq
         .user_data
         .as_ref()
-        .expect("Unable to locate protocol version, missing user data in MPQ");
+        .ok_or_else(|| S2ProtocolError::MissingField("MPQ user data".to_string()))?;
     ReplaySHeader::parse(&user_data.content)
 }
-- 
2.43.0


From 1d42fec144cc6eb395a6b91210acc6b8a4ca61af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 21/34] fix: the time of skipped events counts towards the
 following event

---
 src/versions/protocol75689/mod.rs                | 16 +++++++++++-----
 src/versions/protocol87702/events/game/mod.rs    | 16 +++++++++++-----
 src/versions/protocol87702/events/message/mod.rs | 16 +++++++++++-----
 src/versions/protocol87702/events/tracker/mod.rs | 11 ++++++++++-
 4 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 3462b46..6b01e97 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -1225,6 +1225,8 @@ pub mod bit_packed {
                 mpq.read_mpq_file_sector("replay.game.events", false, file_contents)?;
             let mut res = vec![];
             let mut count = 1usize;
+            // The delta of the skipped events, it counts towards the next event that is kept.
+            let mut skipped_delta = 0i64;
             let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
             loop {
                 tracing::debug!("-----------------------------------------------");
@@ -1234,12 +1236,16 @@ pub mod bit_packed {
                 count += 1;
                 event_tail = new_event_tail;
                 match event.try_into() {
-                    Ok(val) => res.push(GameEvent {
-                        delta,
-                        user_id,
-                        event: val,
-                    }),
+                    Ok(val) => {
+                        res.push(GameEvent {
+                            delta: delta + skipped_delta,
+                            user_id,
+                            event: val,
+                        });
+                        skipped_delta = 0;
+                    }
                     Err(err) => {
+                        skipped_delta += delta;
                         tracing::debug!("Skipping event: {:?}", err);
                     }
                 };
diff --git a/src/versions/protocol87702/events/game/mod.rs b/src/versions/protocol87702/events/game/mod.rs
index 3365b67..5d1ad1f 100644
--- a/src/versions/protocol87702/events/game/mod.rs
+++ b/src/versions/protocol87702/events/game/mod.rs
@@ -41,6 +41,8 @@ impl GameEEventId {
             mpq.read_mpq_file_sector("replay.game.events", false, file_contents)?;
         let mut res = vec![];
         let mut count = 1usize;
+        // The delta of the skipped events, it counts towards the next event that is kept.
+        let mut skipped_delta = 0i64;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
         loop {
             tracing::debug!("-----------------------------------------------");
@@ -49,12 +51,16 @@ impl GameEEventId {
             count += 1;
             event_tail = new_event_tail;
             match event.try_into() {
-                Ok(val) => res.push(GameEvent {
-                    delta,
-                    user_id,
-                    event: val,
-                }),
+                Ok(val) => {
+                    res.push(GameEvent {
+                        delta: delta + skipped_delta,
+                        user_id,
+                        event: val,
+                    });
+                    skipped_delta = 0;
+                }
                 Err(err) => {
+                    skipped_delta += delta;
                     tracing::debug!("Skipping event: {:?}", err);
                 }
             };
diff --git a/src/versions/protocol87702/events/message/mod.rs b/src/versions/protocol87702/events/message/mod.rs
index 5f2ca75..86b4e48 100644
--- a/src/versions/protocol87702/events/message/mod.rs
+++ b/src/versions/protocol87702/events/message/mod.rs
@@ -35,6 +35,8 @@ impl GameEMessageId {
             mpq.read_mpq_file_sector("replay.message.events", false, file_contents)?;
         let mut res = vec![];
         let mut count = 1usize;
+        // The delta of the skipped events, it counts towards the next event that is kept.
+        let mut skipped_delta = 0i64;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
         loop {
             tracing::debug!("-----------------------------------------------");
@@ -43,12 +45,16 @@ impl GameEMessageId {
             count += 1;
             event_tail = new_event_tail;
             match event.try_into() {
-                Ok(val) => res.push(MessageEvent {
-                    delta,
-                    user_id,
-                    event: val,
-                }),
+                Ok(val) => {
+                    res.push(MessageEvent {
+                        delta: delta + skipped_delta,
+                        user_id,
+                        event: val,
+                    });
+                    skipped_delta = 0;
+                }
                 Err(err) => {
+                    skipped_delta += delta;
                     tracing::debug!("Skipping event: {:?}", err);
                 }
             };
diff --git a/src/versions/protocol87702/events/tracker/mod.rs b/src/versions/protocol87702/events/tracker/mod.rs
index 28b61d1..5d73149 100644
--- a/src/versions/protocol87702/events/tracker/mod.rs
+++ b/src/versions/protocol87702/events/tracker/mod.rs
@@ -32,13 +32,22 @@ impl ReplayTrackerEEventId {
         let (_event_tail, tracker_events) =
             mpq.read_mpq_file_sector("replay.tracker.events", false, file_contents)?;
         let mut res = vec![];
+        // The delta of the skipped events, it counts towards the next event that is kept.
+        let mut skipped_delta = 0u32;
         let mut event_tail: &[u8] = &tracker_events;
         loop {
             let (new_event_tail, (delta, event)) = Self::parse_event_pair(event_tail)?;
             event_tail = new_event_tail;
             match event.try_into() {
-                Ok(val) => res.push(TrackerEvent { delta, event: val }),
+                Ok(val) => {
+                    res.push(TrackerEvent {
+                        delta: delta.wrapping_add(skipped_delta),
+                        event: val,
+                    });
+                    skipped_delta = 0;
+                }
                 Err(err) => {
+                    skipped_delta = skipped_delta.wrapping_add(delta);
                     tracing::debug!("Skipping event: {:?}", err);
                 }
             };
-- 
2.43.0


From 96c21e16e378ceae7c6b955498a550898a2e89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 22/34] fix: an event with invalid text does not interrupt the
 event iterators

---
 src/game_events/iterator.rs    | 5 +++++
 src/tracker_events/iterator.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/game_events/iterator.rs b/src/game_events/iterator.rs
index 2305d59..aa6cb18 100644
--- a/src/game_events/iterator.rs
+++ b/src/game_events/iterator.rs
@@ -122,6 +122,11 @@ impl GameEventIteratorState {
                     return Some(event);
                 }
                 Err(S2ProtocolError::UnsupportedEventType) => {}
+                Err(S2ProtocolError::Utf8Error(err)) => {
+                    // The event was consumed but its text can't be represented, it is skipped like
+                    // it is when reading all the events at once.
+                    tracing::debug!("Skipping game event: {:?}", err);
+                }
                 Err(err) => {
                     // At this point we can't read the events, our state is either corrupted or the
                     // SC2ReplayState is corrupted.
diff --git a/src/tracker_events/iterator.rs b/src/tracker_events/iterator.rs
index 6c79787..1426941 100644
--- a/src/tracker_events/iterator.rs
+++ b/src/tracker_events/iterator.rs
@@ -82,6 +82,11 @@ impl TrackertEventIteratorState {
                     return Some(event);
                 }
                 Err(S2ProtocolError::UnsupportedEventType) => {}
+                Err(S2ProtocolError::Utf8Error(err)) => {
+                    // The event was consumed but its text can't be represented, it is skipped like
+                    // it is when reading all the events at once.
+                    tracing::debug!("Skipping tracker event: {:?}", err);
+                }
                 Err(err) => {
                     // At this point we can't read the events, our state is either corrupted or the
                     // SC2ReplayState is corrupted.
-- 
2.43.0


From 3e0b0afd112f8359cf4b4f8d5a223b964a60ba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 23/34] fix: set-lobby-slot events up to 75689 use the slot
 changes of that protocol

---
 src/versions/protocol75689/mod.rs | 48 ++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 6b01e97..ab21795 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -164,7 +164,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameSSetAbsoluteGameSpeedEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameDurationEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameSpeedEvent;
-    pub use crate::versions::protocol87702::bit_packed::GameSSetLobbySlotEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncLoadingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncPlayingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSingleStepGameEvent;
@@ -1301,6 +1300,53 @@ pub mod bit_packed {
         }
     }
 
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSSetLobbySlotEvent {
+        pub m_slot_id: GameTLobbySlotId,
+        pub m_slot_change: GameSLobbySlotChange,
+    }
+    impl GameSSetLobbySlotEvent {
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slot_id(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameTLobbySlotId> {
+            let (tail, m_slot_id) = GameTLobbySlotId::parse(input)?;
+            tracing::debug!("m_slot_id: {:?}", m_slot_id);
+            Ok((tail, m_slot_id))
+        }
+        #[tracing::instrument(level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_slot_change(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbySlotChange> {
+            let (tail, m_slot_change) = GameSLobbySlotChange::parse(input)?;
+            tracing::debug!("m_slot_change: {:?}", m_slot_change);
+            Ok((tail, m_slot_change))
+        }
+        #[tracing::instrument(name="75689::bit_packed::GameSSetLobbySlotEvent::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let mut tail = input;
+            let mut m_slot_id: Option<GameTLobbySlotId> = None;
+            let mut m_slot_change: Option<GameSLobbySlotChange> = None;
+            if m_slot_id.is_none() {
+                let (new_tail, parsed_m_slot_id) = Self::parse_m_slot_id(tail)?;
+                tail = new_tail;
+                m_slot_id = Some(parsed_m_slot_id);
+            }
+            if m_slot_change.is_none() {
+                let (new_tail, parsed_m_slot_change) = Self::parse_m_slot_change(tail)?;
+                tail = new_tail;
+                m_slot_change = Some(parsed_m_slot_change);
+            }
+            Ok((
+                tail,
+                Self {
+                    m_slot_id: ok_or_return_missing_field_err!(m_slot_id),
+                    m_slot_change: ok_or_return_missing_field_err!(m_slot_change),
+                },
+            ))
+        }
+    }
+
     #[derive(Debug, PartialEq, Clone)]
     pub struct GameSCmdEvent {
         pub m_cmd_flags: i64,
-- 
2.43.0


From 02f5a0b0becdc8d14e36aa9f94bb6c2624c55d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 24/34] fix: lobby data up to 75689 is read with the lobby
 slots of that protocol

---
 src/versions/protocol75689/mod.rs | 209 +++++++++++++++++++++++++++++-
 1 file changed, 205 insertions(+), 4 deletions(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index ab21795..cd557c7 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -60,7 +60,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameCCheatString;
     pub use crate::versions::protocol87702::bit_packed::GameCCommanderMasteryTalentArray;
     pub use crate::versions::protocol87702::bit_packed::GameCGameCacheName;
-    pub use crate::versions::protocol87702::bit_packed::GameCLobbySlotArray;
     pub use crate::versions::protocol87702::bit_packed::GameCModPaths;
     pub use crate::versions::protocol87702::bit_packed::GameCPlayerDetailsArray;
     pub use crate::versions::protocol87702::bit_packed::GameCRewardArray;
@@ -130,8 +129,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameSHijackReplaySessionUserInfo;
     pub use crate::versions::protocol87702::bit_packed::GameSLoadGameDoneEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSLoadingProgressMessage;
-    pub use crate::versions::protocol87702::bit_packed::GameSLobbyState;
-    pub use crate::versions::protocol87702::bit_packed::GameSLobbySyncState;
     pub use crate::versions::protocol87702::bit_packed::GameSMapCoord;
     pub use crate::versions::protocol87702::bit_packed::GameSMapCoord3D;
     pub use crate::versions::protocol87702::bit_packed::GameSMuteChatEvent;
@@ -295,7 +292,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::Int64;
     pub use crate::versions::protocol87702::bit_packed::MEventData;
     pub use crate::versions::protocol87702::bit_packed::ReplaySGameUserId;
-    pub use crate::versions::protocol87702::bit_packed::ReplaySInitData;
     pub use crate::versions::protocol87702::bit_packed::SUserInitialData;
     pub use crate::versions::protocol87702::bit_packed::SVarUint32;
     pub use crate::versions::protocol87702::bit_packed::SVersion;
@@ -2157,4 +2153,209 @@ pub mod bit_packed {
             }
         }
     }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameCLobbySlotArray {
+        pub value: Vec<GameSLobbySlot>,
+    }
+    impl GameCLobbySlotArray {
+        #[tracing::instrument(name="75689::GameCLobbySlotArray::ArrayType::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let array_length_num_bits: usize = 5;
+            let (mut tail, array_length) = parse_packed_int(input, 0, array_length_num_bits)?;
+            let mut array = Vec::with_capacity(array_length as usize);
+            for _ in 0..array_length {
+                let (new_tail, data) = GameSLobbySlot::parse(tail)?;
+                tail = new_tail;
+                array.push(data);
+            }
+            Ok((tail, Self { value: array }))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSLobbyState {
+        pub m_phase: GameEPhase,
+        pub m_max_users: TUserCount,
+        pub m_max_observers: TUserCount,
+        pub m_slots: GameCLobbySlotArray,
+        pub m_random_seed: Uint32,
+        pub m_host_user_id: Option<TUserId>,
+        pub m_is_single_player: bool,
+        pub m_picked_map_tag: Uint8,
+        pub m_game_duration: Uint32,
+        pub m_default_difficulty: GameTDifficulty,
+        pub m_default_ai_build: GameTaiBuild,
+    }
+    impl GameSLobbyState {
+        #[tracing::instrument(name="75689::bit_packed::GameSLobbyState::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let (tail, m_phase) = GameEPhase::parse(input)?;
+            let (tail, m_max_users) = TUserCount::parse(tail)?;
+            let (tail, m_max_observers) = TUserCount::parse(tail)?;
+            let (tail, m_slots) = GameCLobbySlotArray::parse(tail)?;
+            let (tail, m_random_seed) = Uint32::parse(tail)?;
+            let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(tail)?;
+            let (tail, m_host_user_id) = if is_provided {
+                let (tail, res) = TUserId::parse(tail)?;
+                (tail, Some(res))
+            } else {
+                (tail, None)
+            };
+            let (tail, m_is_single_player) = parse_bool(tail)?;
+            let (tail, m_picked_map_tag) = Uint8::parse(tail)?;
+            let (tail, m_game_duration) = Uint32::parse(tail)?;
+            let (tail, m_default_difficulty) = GameTDifficulty::parse(tail)?;
+            let (tail, m_default_ai_build) = GameTaiBuild::parse(tail)?;
+            Ok((
+                tail,
+                Self {
+                    m_phase,
+                    m_max_users,
+                    m_max_observers,
+                    m_slots,
+                    m_random_seed,
+                    m_host_user_id,
+                    m_is_single_player,
+                    m_picked_map_tag,
+                    m_game_duration,
+                    m_default_difficulty,
+                    m_default_ai_build,
+                },
+            ))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSLobbySyncState {
+        pub m_user_initial_data: CUserInitialDataArray,
+        pub m_game_description: GameSGameDescription,
+        pub m_lobby_state: GameSLobbyState,
+    }
+    impl GameSLobbySyncState {
+        #[tracing::instrument(name="75689::bit_packed::GameSLobbySyncState::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let (tail, m_user_initial_data) = CUserInitialDataArray::parse(input)?;
+            let (tail, m_game_description) = GameSGameDescription::parse(tail)?;
+            let (tail, m_lobby_state) = GameSLobbyState::parse(tail)?;
+            Ok((
+                tail,
+                Self {
+                    m_user_initial_data,
+                    m_game_description,
+                    m_lobby_state,
+                },
+            ))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct ReplaySInitData {
+        pub m_sync_lobby_state: GameSLobbySyncState,
+    }
+    impl ReplaySInitData {
+        #[tracing::instrument(name="75689::bit_packed::ReplaySInitData::Parse", level = "debug", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let (tail, m_sync_lobby_state) = GameSLobbySyncState::parse(input)?;
+            Ok((tail, Self { m_sync_lobby_state }))
+        }
+
+        /// Read the Init Data
+        #[tracing::instrument(level = "debug", skip(mpq, file_contents))]
+        pub fn read_init_data(
+            mpq: &MPQ,
+            file_contents: &[u8],
+        ) -> Result<crate::InitData, S2ProtocolError> {
+            let (_, init_data_sector) =
+                mpq.read_mpq_file_sector("replay.initData", false, file_contents)?;
+            let (_, replay_sinitdata) = Self::parse((&init_data_sector, 0usize))?;
+            v87702::ReplaySInitData::from(replay_sinitdata).try_into()
+        }
+    }
+
+    // The conversion into the consolidated types is shared with protocol87702
+    use crate::versions::protocol87702::bit_packed as v87702;
+
+    impl From<ReplaySInitData> for v87702::ReplaySInitData {
+        fn from(source: ReplaySInitData) -> Self {
+            Self {
+                m_sync_lobby_state: v87702::GameSLobbySyncState {
+                    m_user_initial_data: source.m_sync_lobby_state.m_user_initial_data,
+                    m_game_description: source.m_sync_lobby_state.m_game_description,
+                    m_lobby_state: source.m_sync_lobby_state.m_lobby_state.into(),
+                },
+            }
+        }
+    }
+
+    impl From<GameSLobbyState> for v87702::GameSLobbyState {
+        fn from(source: GameSLobbyState) -> Self {
+            Self {
+                m_phase: source.m_phase,
+                m_max_users: source.m_max_users,
+                m_max_observers: source.m_max_observers,
+                m_slots: v87702::GameCLobbySlotArray {
+                    value: source
+                        .m_slots
+                        .value
+                        .into_iter()
+                        .map(v87702::GameSLobbySlot::from)
+                        .collect(),
+                },
+                m_random_seed: source.m_random_seed,
+                m_host_user_id: source.m_host_user_id,
+                m_is_single_player: source.m_is_single_player,
+                m_picked_map_tag: source.m_picked_map_tag,
+                m_game_duration: source.m_game_duration,
+                m_default_difficulty: source.m_default_difficulty,
+                m_default_ai_build: source.m_default_ai_build,
+            }
+        }
+    }
+
+    impl From<GameSLobbySlot> for v87702::GameSLobbySlot {
+        fn from(source: GameSLobbySlot) -> Self {
+            Self {
+                m_control: source.m_control,
+                m_user_id: source.m_user_id,
+                m_team_id: source.m_team_id,
+                m_color_pref: source.m_color_pref,
+                m_race_pref: source.m_race_pref,
+                m_difficulty: source.m_difficulty,
+                m_ai_build: source.m_ai_build,
+                m_handicap: v87702::GameTHandicap {
+                    value: Uint32 {
+                        value: source.m_handicap.value,
+                    },
+                },
+                m_observe: source.m_observe,
+                m_logo_index: source.m_logo_index,
+                m_hero: source.m_hero,
+                m_skin: source.m_skin,
+                m_mount: source.m_mount,
+                m_artifacts: source.m_artifacts,
+                m_working_set_slot_id: source.m_working_set_slot_id,
+                m_rewards: source.m_rewards,
+                m_toon_handle: source.m_toon_handle,
+                m_licenses: v87702::GameCLicenseArray {
+                    value: source.m_licenses.value,
+                },
+                m_tandem_leader_id: source.m_tandem_leader_id,
+                m_commander: source.m_commander,
+                m_commander_level: source.m_commander_level,
+                m_has_silence_penalty: source.m_has_silence_penalty,
+                m_tandem_id: source.m_tandem_id,
+                m_commander_mastery_level: source.m_commander_mastery_level,
+                m_commander_mastery_talents: source.m_commander_mastery_talents,
+                m_trophy_id: source.m_trophy_id,
+                m_reward_overrides: source.m_reward_overrides,
+                // Not part of this protocol
+                m_brutal_plus_difficulty: Uint32 { value: 0 },
+                m_retry_mutation_indexes: v87702::GameCRetryMutationIndexArray { value: vec![] },
+                m_a_c_enemy_race: Uint32 { value: 0 },
+                m_a_c_enemy_wave_type: Uint32 { value: 0 },
+                m_selected_commander_prestige: Uint32 { value: 0 },
+            }
+        }
+    }
 }
-- 
2.43.0


From a5d5acccb9af5eb3ff0aa7e29fe29e0b1842f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 25/34] fix: a selected unit that changes keeps the radius of a
 selected unit

---
 src/state/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index bdbcde8..b720140 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -96,7 +96,12 @@ impl SC2Unit {
     pub fn set_unit_props(&mut self, balance_units: &VersionedBalanceUnits) {
         let (radius, color) =
             get_unit_sized_color(&self.name, self.user_id.unwrap_or(0) as i64, balance_units);
-        self.radius = radius;
+        // The radius of a unit is doubled for as long as it is selected
+        self.radius = if self.is_selected {
+            radius * 2.0
+        } else {
+            radius
+        };
         self.color = color;
     }
 }
-- 
2.43.0


From 49b10d42e30b80d7541dcbe52bedf1f5dc28509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 26/34] fix: a replay dated beyond the range of an Arrow
 timestamp does not panic the export

---
 src/details.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/details.rs b/src/details.rs
index b79c3eb..d06e68d 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -136,7 +136,11 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
             ext_fs_id: source.ext_fs_id,
             ext_fs_sha256: source.ext_fs_sha256,
             ext_fs_file_name: source.ext_fs_file_name,
-            ext_datetime: source.ext_datetime,
+            // An Arrow timestamp is an i64 of nanoseconds, a date out of its range can't be exported.
+            ext_datetime: match source.ext_datetime.and_utc().timestamp_nanos_opt() {
+                Some(_) => source.ext_datetime,
+                None => chrono::NaiveDateTime::default(),
+            },
         }
     }
 }
-- 
2.43.0


From 782bc4ec428baeb5713b005179f9d4d4badcb456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 27/34] fix: generated tagged structs reject an unknown or
 repeated field tag with the tag that was read

---
 src/generator/decoder_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 929b990..704f0af 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -561,7 +561,7 @@ impl DecoderType {
                             continue;\n\
                         }} else {{\n\
                             tracing::error!(\"Field {field_name} with tag {proto_field_tag} was already provided\");\n\
-                            return Err(S2ProtocolError::DuplicateTag(String::from(\"{field_name}\"), proto_field_tag));\n\
+                            return Err(S2ProtocolError::DuplicateTag(String::from(\"{field_name}\"), {proto_field_tag}));\n\
                         }}\n\
                     }},\n"
                 ));
@@ -659,7 +659,7 @@ impl DecoderType {
                 "
                 _ => {\n\
                     tracing::error!(\"Unknown tag {field_tag}\");\n\
-                    Err(S2ProtocolError::UnknownTag(variant_tag))\n\
+                    return Err(S2ProtocolError::UnknownTag(field_tag));\n\
                 },\n\
             }\n\
           }",
-- 
2.43.0


From 92a0990963dd68fa00a053e332bbec9ca999db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 28/34] fix: generated array parsers return the error of an
 element that does not convert

---
 src/generator/decoder_type.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 704f0af..78e49ba 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -600,7 +600,7 @@ impl DecoderType {
                 ));
                     if morph.do_try_from {
                         type_impl_def.push_str(
-                            "let array = array.iter().map(|val| <_>::try_from(*val)?).collect();\n",
+                            "let array = array.iter().map(|val| <_>::try_from(*val)).collect::<Result<_, _>>()?;\n",
                         );
                     }
                     type_impl_def.push_str("(tail, Some(array))");
@@ -629,7 +629,7 @@ impl DecoderType {
                 ));
                 if morph.do_try_from {
                     type_impl_def.push_str(
-                        "let array = array.iter().map(|val| <_>::try_from(*val)?).collect();\n",
+                        "let array = array.iter().map(|val| <_>::try_from(*val)).collect::<Result<_, _>>()?;\n",
                     );
                 }
                 type_impl_def.push_str("Ok((tail, array))\n");
@@ -891,7 +891,7 @@ impl DecoderType {
                     }
                     if morph.do_try_from {
                         type_impl_def.push_str(
-                            "let array = array.iter().map(|val| <_>::try_from(*val)?).collect();\n",
+                            "let array = array.iter().map(|val| <_>::try_from(*val)).collect::<Result<_, _>>()?;\n",
                         );
                     }
                     type_impl_def.push_str("(tail, Some(array))");
@@ -942,7 +942,7 @@ impl DecoderType {
                 ));
                 if morph.do_try_from {
                     type_impl_def.push_str(
-                        "let array = array.iter().map(|val| <_>::try_from(*val)?).collect();\n",
+                        "let array = array.iter().map(|val| <_>::try_from(*val)).collect::<Result<_, _>>()?;\n",
                     );
                 }
                 type_impl_def.push_str(
-- 
2.43.0


From 203eb7a2d2d02c736539c2f4a66064143c6cacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 29/34] fix: generated bit-packed optional values are read
 after their presence bit

---
 src/generator/decoder_type.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 78e49ba..f2f8f16 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -784,7 +784,7 @@ impl DecoderType {
                     tracing::info!("IntType offset: {}, num_bits: {}", offset, num_bits);
                     morph.parser = morph
                         .parser
-                        .replace("{}", &format!("input, {offset}, {num_bits}usize"));
+                        .replace("{}", &format!("tail, {offset}, {num_bits}usize"));
                 }
             } else if proto_field_type_info == "ArrayType"
                 || proto_field_type_info == "BitArrayType"
@@ -875,14 +875,14 @@ impl DecoderType {
                     let array_size_bits =
                         (array_length.parse::<f32>().unwrap().log2() + 1.).floor() as usize;
                     type_impl_def.push_str(&format!(
-                        "let (tail, array_length) = take_n_bits_into_i64(input, {array_size_bits})?;\n\
+                        "let (tail, array_length) = take_n_bits_into_i64(tail, {array_size_bits})?;\n\
                         let array_length = array_length as usize;\n\
                          tracing::debug!(\"Reading array length: {array_length}\");\n\
                          "
                     ));
                     if is_bit_array {
                         type_impl_def.push_str(&format!(
-                            "let (tail, array) = take_bit_array(input, array_length)?;\n"
+                            "let (tail, array) = take_bit_array(tail, array_length)?;\n"
                         ));
                     } else {
                         type_impl_def.push_str(&format!(
@@ -896,7 +896,7 @@ impl DecoderType {
                     }
                     type_impl_def.push_str("(tail, Some(array))");
                 } else {
-                    if field_value_parser.contains("input,") {
+                    if field_value_parser.contains("tail,") {
                         type_impl_def
                             .push_str(&format!("let (tail, res) = {field_value_parser}?;\n"));
                     } else {
-- 
2.43.0


From 22d5a168505c8d57060b56318b50666a4341177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 30/34] fix: a generated bit-packed blob reads the number of
 bytes the protocol gives it

---
 src/generator/decoder_type.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index f2f8f16..dd6e8bc 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -1407,7 +1407,12 @@ impl DecoderType {
     ) -> String {
         assert!(bounds["type"] == "ExactConstraint");
         assert!(bounds["min"]["evalue"] == bounds["max"]["evalue"]);
-        let num_bits = Self::bounds_max_value_to_bit_size(bounds);
+        // The evalue of a BlobType is its length in bytes.
+        let num_bits = 8 * bounds["max"]["evalue"]
+            .as_str()
+            .expect("Missing have .max.evalue string")
+            .parse::<usize>()
+            .expect(".max.evalue must be parseable usize");
         format!(
             "#[tracing::instrument(name=\"{proto_num}::{name}::BlobType::Parse\", level = \"trace\", skip(input), fields(peek = peek_bits(input)))]\n\
          pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {{\n\
-- 
2.43.0


From f54e664682286cac4971407cd75c341812746e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 31/34] fix: generated 64 bit fields are not converted from the
 type they already have

---
 src/generator/decoder_type.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index dd6e8bc..71f8dbf 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -134,7 +134,6 @@ impl DecoderType {
             },
             "NNet.Game.TColorId" | "NNet.int64" => ProtoTypeConversion {
                 rust_ty: "i64".to_string(),
-                do_try_from: true,
                 parser: "tagged_vlq_int".to_string(),
                 ..Default::default()
             },
-- 
2.43.0


From 7602a340a16d704eca02971ff4c134c2b641cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 32/34] fix: generated bit-packed integers are not converted
 from the type they already have

---
 src/generator/decoder_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 71f8dbf..b77a84c 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -1259,8 +1259,8 @@ impl DecoderType {
          pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {{\n\
          let offset: i64 = {offset};
          let num_bits: usize = {num_bits};
-         let (tail, res) = parse_packed_int(input, offset, num_bits)?;\n\
-         Ok((tail, Self {{ value: <_>::try_from(res)? }}))\n\
+         let (tail, value) = parse_packed_int(input, offset, num_bits)?;\n\
+         Ok((tail, Self {{ value }}))\n\
          ",
         )
     }
-- 
2.43.0


From 8e98f81eaa2e14ee503e3650668c195678de146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:30 +0000
Subject: [PATCH 33/34] fix: a replay whose file name is not UTF-8 no longer
 panics the folder scan

---
 src/dir_stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index 5b67468..cf96686 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -107,7 +107,7 @@ pub fn try_read_init_data(
     let (_, mpq) = parser::parse(&file_contents)?;
     let source_path: String = source
         .to_str()
-        .expect("Failed to convert file name to str")
+        .ok_or("Failed to convert file name to str")?
         .to_string();
     // NOTE: A fake "ext_fs_id" is created because the current impl is thought
     // of mainly for writing arrow ipc files... Maybe this is not a good idea.
-- 
2.43.0


From 9bdf4afb92d4d9b4e2a8ccbc2115d9f1a4a642fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 34/34] fix: an export reports a batch that could not be
 written

---
 src/arrow_store/ipc_writer.rs | 13 +++++++------
 src/arrow_store/mod.rs        | 10 +++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/arrow_store/ipc_writer.rs b/src/arrow_store/ipc_writer.rs
index aeb01b8..52bb330 100644
--- a/src/arrow_store/ipc_writer.rs
+++ b/src/arrow_store/ipc_writer.rs
@@ -4,7 +4,8 @@
 
 #[cfg(feature = "dep_arrow")]
 use arrow::{
-    array::ArrayRef, datatypes::Schema, ipc::writer::FileWriter, record_batch::RecordBatch,
+    array::ArrayRef, datatypes::Schema, error::ArrowError, ipc::writer::FileWriter,
+    record_batch::RecordBatch,
 };
 use std::path::PathBuf;
 
@@ -38,12 +39,13 @@ pub fn open_arrow_mutex_writer(
 }
 
 /// Writes the batch to the Arrow IPC file held over a mutex, to be called from within a parallel iterator
+/// Returns nothing for an empty batch, otherwise the number of rows that were written.
 #[cfg(feature = "dep_arrow")]
 pub fn write_to_arrow_mutex_writer(
     writer: &std::sync::Mutex<FileWriter<std::fs::File>>,
     res: ArrayRef,
     batch_length: usize,
-) -> Option<usize> {
+) -> Option<Result<usize, ArrowError>> {
     if batch_length == 0 {
         return None;
     }
@@ -60,12 +62,11 @@ pub fn write_to_arrow_mutex_writer(
         .unwrap()
         .into();
     match file_lock.write(&chunk) {
-        Ok(_) => Some(batch_length),
+        Ok(_) => Some(Ok(batch_length)),
         Err(err) => {
-            // At this point maybe we should fail because the lock write
-            // should fail for any other parallel process.
+            // The rows of this batch are missing from the file, which must not be taken for complete.
             tracing::error!("Error writing chunk: {:?}", err);
-            None
+            Some(Err(err))
         }
     }
 }
diff --git a/src/arrow_store/mod.rs b/src/arrow_store/mod.rs
index b86671d..fafcbd0 100644
--- a/src/arrow_store/mod.rs
+++ b/src/arrow_store/mod.rs
@@ -2,7 +2,7 @@
 
 #[cfg(feature = "dep_arrow")]
 use arrow::{
-    array::Array, array::ArrayRef, datatypes::DataType, datatypes::Schema,
+    array::Array, array::ArrayRef, datatypes::DataType, datatypes::Schema, error::ArrowError,
     record_batch::RecordBatch,
 };
 #[cfg(feature = "dep_arrow")]
@@ -241,7 +241,7 @@ impl ArrowIpcTypes {
                     };
                     write_to_arrow_mutex_writer(&writer, res, batch_len)
                 })
-                .sum::<usize>()
+                .sum::<Result<usize, ArrowError>>()?
         } else {
             sources
                 .par_iter()
@@ -269,7 +269,7 @@ impl ArrowIpcTypes {
                     };
                     write_to_arrow_mutex_writer(&writer, res, batch_len)
                 })
-                .sum::<usize>()
+                .sum::<Result<usize, ArrowError>>()?
         };
         tracing::info!("Loaded {} records", total_records);
         close_arrow_mutex_writer(writer)
@@ -309,7 +309,7 @@ impl ArrowIpcTypes {
                     };
                     write_to_arrow_mutex_writer(&writer, res, batch_len)
                 })
-                .sum::<usize>()
+                .sum::<Result<usize, ArrowError>>()?
         } else {
             sources
                 .par_iter()
@@ -331,7 +331,7 @@ impl ArrowIpcTypes {
                     };
                     write_to_arrow_mutex_writer(&writer, res, batch_len)
                 })
-                .sum::<usize>()
+                .sum::<Result<usize, ArrowError>>()?
         };
         tracing::info!("Loaded {} records", total_records);
         close_arrow_mutex_writer(writer)
-- 
2.43.0

