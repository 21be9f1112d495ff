From 6ce60b840db5a37498378701ad214cdbbba7c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 01/62] fix: keep the current flow out of the parked flows of a
 snapshot

The stale copy overrode the current flow's position and choices in later saves.
---
 runtime/src/story_state.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index b9886d1..eda566e 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -793,19 +793,11 @@ impl StoryState {
             copy.current_flow.current_choices = self.current_flow.current_choices.clone();
         }
 
-        // The copy of the state has its own copy of the named flows dictionary,
-        // except with the current flow replaced with the copy above
-        // (Assuming we're in multi-flow mode at all. If we're not then
-        // the above copy is simply the default flow copy and we're done)
+        // The copy of the state has its own copy of the parked flows. The
+        // current flow is never one of them: it's the copy above.
         if self.named_flows.is_some() {
-            let mut nf = self.named_flows.clone();
-            nf.as_mut().unwrap().insert(
-                copy.current_flow.name.to_string(),
-                copy.current_flow.clone(),
-            );
             copy.alive_flow_names_dirty = true;
-
-            copy.named_flows = nf;
+            copy.named_flows = self.named_flows.clone();
         }
 
         if self.has_error() {
-- 
2.43.0


From ad02c208248a3ee97584bcb6a71997260d94d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 02/62] fix: removing a flow that doesn't exist is an error
 instead of a panic

---
 runtime/src/story_state.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index eda566e..b80e387 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1439,12 +1439,25 @@ impl StoryState {
             ));
         }
 
+        let exists = self.current_flow.name.eq(flow_name)
+            || self
+                .named_flows
+                .as_ref()
+                .is_some_and(|flows| flows.contains_key(flow_name));
+        if !exists {
+            return Err(StoryError::BadArgument(format!(
+                "Cannot destroy flow '{flow_name}' because it doesn't exist"
+            )));
+        }
+
         // If we're currently in the flow that's being removed, switch back to default
         if self.current_flow.name.eq(flow_name) {
             self.switch_to_default_flow_internal();
         }
 
-        self.named_flows.as_mut().unwrap().remove(flow_name);
+        if let Some(named_flows) = self.named_flows.as_mut() {
+            named_flows.remove(flow_name);
+        }
         self.alive_flow_names_dirty = true;
 
         Ok(())
-- 
2.43.0


From 78caedd9144645cee63e686c84660b0b147fff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 03/62] fix: a refused continue no longer leaks the recursion
 count or the async flag

---
 runtime/src/story/progress.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 5c5ca7d..d178937 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -70,6 +70,13 @@ impl Story {
     ) -> Result<(), StoryError> {
         let is_async_time_limited = millisecs_limit_async > 0.0;
 
+        // Refuse before touching anything, so that a failed call leaves no trace
+        if !self.async_continue_active && !self.can_continue() {
+            return Err(StoryError::InvalidStoryState(
+                "Can't continue - should check can_continue before calling Continue".to_owned(),
+            ));
+        }
+
         self.recursive_continue_count += 1;
 
         // Doing either:
@@ -77,11 +84,6 @@ impl Story {
         // - Starting async run-through
         if !self.async_continue_active {
             self.async_continue_active = is_async_time_limited;
-            if !self.can_continue() {
-                return Err(StoryError::InvalidStoryState(
-                    "Can't continue - should check can_continue before calling Continue".to_owned(),
-                ));
-            }
 
             self.get_state_mut().set_did_safe_exit(false);
 
-- 
2.43.0


From 428c2d45033e039501f077d3c2bc746bb7bd9323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 04/62] fix: a refused jump or function evaluation leaves the
 story unchanged

The path and the arguments are checked before choices, call stack and output are touched.
---
 runtime/src/story/navigation.rs | 10 +++++++++-
 runtime/src/story_state.rs      | 18 +++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index eee8c6e..f758e10 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -7,6 +7,7 @@ use crate::{
     search_result::SearchResult,
     story::Story,
     story_error::StoryError,
+    story_state::StoryState,
     value_type::ValueType,
 };
 use std::rc::Rc;
@@ -68,6 +69,11 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("call ChoosePathString right now")?;
 
+        // Refuse a bad path or bad arguments before changing anything
+        let target = Path::new_with_components_string(Some(path));
+        Story::pointer_at_path(&self.get_main_content_container(), &target)?;
+        StoryState::check_arguments(args)?;
+
         if reset_call_stack {
             self.reset_callstack()?;
         } else {
@@ -108,7 +114,7 @@ impl Story {
 
         self.get_state_mut()
             .pass_arguments_to_evaluation_stack(args)?;
-        self.choose_path(&Path::new_with_components_string(Some(path)), true)?;
+        self.choose_path(&target, true)?;
 
         Ok(())
     }
@@ -142,6 +148,8 @@ impl Story {
             return Err(StoryError::BadArgument(e));
         }
 
+        StoryState::check_arguments(args)?;
+
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
         self.get_state_mut().reset_output(None);
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index b80e387..d5d35c9 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -911,10 +911,11 @@ impl StoryState {
         path: &Path,
         incrementing_turn_index: bool,
     ) -> Result<(), StoryError> {
+        let mut new_pointer = Story::pointer_at_path(&self.main_content_container, path)?;
+
         // Changing direction, assume we need to clear current set of choices
         self.current_flow.current_choices.clear();
 
-        let mut new_pointer = Story::pointer_at_path(&self.main_content_container, path)?;
         if !new_pointer.is_null() && new_pointer.index == -1 {
             new_pointer.index = 0;
         }
@@ -1007,6 +1008,21 @@ impl StoryState {
         Ok(())
     }
 
+    /// Whether these arguments can be passed to ink
+    pub fn check_arguments(arguments: Option<&Vec<ValueType>>) -> Result<(), StoryError> {
+        for arg in arguments.into_iter().flatten() {
+            if matches!(
+                arg,
+                ValueType::DivertTarget(_) | ValueType::VariablePointer(_)
+            ) {
+                return Err(StoryError::InvalidStoryState("ink arguments when calling EvaluateFunction / ChoosePathStringWithParameters must be \
+                        int, float, string, bool or InkList.".to_owned()));
+            }
+        }
+
+        Ok(())
+    }
+
     pub fn pass_arguments_to_evaluation_stack(
         &mut self,
         arguments: Option<&Vec<ValueType>>,
-- 
2.43.0


From 9a5d1331edd46d53cdfc0948baac0f3ac304e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 05/62] fix: removing a variable observer that isn't registered
 is an error instead of a panic

---
 runtime/src/story/variable_observer.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/runtime/src/story/variable_observer.rs b/runtime/src/story/variable_observer.rs
index e53e7cc..dae1980 100644
--- a/runtime/src/story/variable_observer.rs
+++ b/runtime/src/story/variable_observer.rs
@@ -62,12 +62,27 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("remove a variable observer")?;
 
+        let is_registered = match specific_variable_name {
+            Some(name) => self
+                .variable_observers
+                .get(name)
+                .is_some_and(|v| v.iter().any(|x| Rc::ptr_eq(x, observer))),
+            None => self
+                .variable_observers
+                .values()
+                .any(|v| v.iter().any(|x| Rc::ptr_eq(x, observer))),
+        };
+        if !is_registered {
+            return Err(StoryError::BadArgument(
+                "Cannot remove a variable observer that isn't registered.".to_owned(),
+            ));
+        }
+
         // Remove observer for this specific variable
         match specific_variable_name {
             Some(specific_variable_name) => {
                 if let Some(v) = self.variable_observers.get_mut(specific_variable_name) {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+                    v.retain(|x| !Rc::ptr_eq(x, observer));
 
                     if v.is_empty() {
                         self.variable_observers.remove(specific_variable_name);
@@ -79,8 +94,7 @@ impl Story {
                 let mut keys_to_remove = Vec::new();
 
                 for (k, v) in self.variable_observers.iter_mut() {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+                    v.retain(|x| !Rc::ptr_eq(x, observer));
 
                     if v.is_empty() {
                         keys_to_remove.push(k.to_string());
-- 
2.43.0


From bee77194c4901cbc8a0145c54621b9a739693f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 06/62] fix: save whether a pending choice is the invisible
 default

After a load the fallback choice was offered to the player.
---
 runtime/src/choice.rs          | 3 ++-
 runtime/src/json/json_read.rs  | 5 +++++
 runtime/src/json/json_write.rs | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/src/choice.rs b/runtime/src/choice.rs
index fb55f9d..fbe075b 100644
--- a/runtime/src/choice.rs
+++ b/runtime/src/choice.rs
@@ -56,11 +56,12 @@ impl Choice {
         index: usize,
         original_thread_index: usize,
         choice_tags: Vec<String>,
+        is_invisible_default: bool,
     ) -> Choice {
         Choice {
             obj: Object::new(),
             target_path: Path::new_with_components_string(Some(path_string_on_choice)),
-            is_invisible_default: false,
+            is_invisible_default,
             tags: choice_tags,
             index: RefCell::new(index),
             original_thread_index: RefCell::new(original_thread_index),
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 900a6ed..58e46ef 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -422,6 +422,10 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
     let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
     let choice_tags = jarray_to_tags(obj);
+    let is_invisible_default = obj
+        .get("isInvisibleDefault")
+        .and_then(|v| v.as_bool())
+        .unwrap_or(false);
 
     Ok(Rc::new(Choice::new_from_json(
         path_string_on_choice,
@@ -430,6 +434,7 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
         index,
         original_thread_index,
         choice_tags,
+        is_invisible_default,
     )))
 }
 
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 6a89456..2a128ac 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -286,6 +286,10 @@ pub fn write_choice(choice: &Choice) -> serde_json::Value {
 
     jobj.insert("tags".to_owned(), write_choice_tags(choice));
 
+    if choice.is_invisible_default {
+        jobj.insert("isInvisibleDefault".to_owned(), json!(true));
+    }
+
     serde_json::Value::Object(jobj)
 }
 
-- 
2.43.0


From 7f4948bfa9b18242d8be07ca0d11d7573a1343b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 07/62] fix: save the index of a choice even if the host has
 not asked for the choices yet

---
 runtime/src/flow.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/runtime/src/flow.rs b/runtime/src/flow.rs
index db07aa1..fb190fb 100644
--- a/runtime/src/flow.rs
+++ b/runtime/src/flow.rs
@@ -115,6 +115,17 @@ impl Flow {
             flow.insert("choiceThreads".to_owned(), serde_json::Value::Object(jct));
         }
 
+        // The index is the position among the visible choices; until the host asks
+        // for the choices it hasn't been assigned
+        for (i, c) in self
+            .current_choices
+            .iter()
+            .filter(|c| !c.is_invisible_default)
+            .enumerate()
+        {
+            c.index.replace(i);
+        }
+
         let mut c_array: Vec<serde_json::Value> = Vec::new();
         for c in self.current_choices.iter() {
             c_array.push(json_write::write_choice(c));
-- 
2.43.0


From 9a30d2cd270a209d186e428326138ba201c01e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 08/62] fix: saving no longer panics when the previous position
 is past the end of its container

---
 runtime/src/callstack.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 5c162c7..456361d 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -171,12 +171,15 @@ impl Thread {
         thread.insert("callstack".to_owned(), serde_json::Value::Array(cs_array));
         thread.insert("threadIndex".to_owned(), json!(self.thread_index));
 
-        if !self.previous_pointer.is_null() {
+        let previous_path = match self.previous_pointer.resolve() {
+            Some(o) => Some(Object::get_path(o.as_ref())),
+            // Past the end of its container
+            None => self.previous_pointer.get_path(),
+        };
+        if let Some(previous_path) = previous_path {
             thread.insert(
                 "previousContentObject".to_owned(),
-                json!(
-                    Object::get_path(self.previous_pointer.resolve().unwrap().as_ref()).to_string()
-                ),
+                json!(previous_path.to_string()),
             );
         }
 
-- 
2.43.0


From 9406fa6a9e2a7a5550c4435b90887f4f6f2c3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 09/62] fix: refuse state-changing calls in the middle of a
 continue_async

---
 runtime/src/story/choices.rs | 2 ++
 runtime/src/story/flow.rs    | 9 ++++++++-
 runtime/src/story/state.rs   | 2 ++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index c9ed16e..a98733b 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -12,6 +12,8 @@ impl Story {
     /// [`Choice`](crate::choice::Choice) points to, ready
     /// to continue story evaluation.
     pub fn choose_choice_index(&mut self, choice_index: usize) -> Result<(), StoryError> {
+        self.if_async_we_cant("choose a choice")?;
+
         let choices = self.get_current_choices();
         if choice_index >= choices.len() {
             return Err(StoryError::BadArgument("choice out of range".to_owned()));
diff --git a/runtime/src/story/flow.rs b/runtime/src/story/flow.rs
index 230ecc8..a2cefba 100644
--- a/runtime/src/story/flow.rs
+++ b/runtime/src/story/flow.rs
@@ -29,12 +29,19 @@ impl Story {
 
     /// Removes the specified flow from the story.
     pub fn remove_flow(&mut self, flow_name: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("remove a flow")?;
+
         self.get_state_mut().remove_flow_internal(flow_name)
     }
 
     /// Switches to the default flow, keeping the current flow around for
-    /// later.
+    /// later. Does nothing in the middle of a
+    /// [`continue_async`](Story::continue_async).
     pub fn switch_to_default_flow(&mut self) {
+        if self.if_async_we_cant("switch flow").is_err() {
+            return;
+        }
+
         self.get_state_mut().switch_to_default_flow_internal();
     }
 }
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 43cb81f..471c1bb 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -50,6 +50,8 @@ impl Story {
         variable_name: &str,
         value_type: &ValueType,
     ) -> Result<(), StoryError> {
+        self.if_async_we_cant("set a variable")?;
+
         let notify_observers = self
             .get_state_mut()
             .variables_state
-- 
2.43.0


From 74fd6a53be0fb04f509d6d4deb0ceefaa308480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 10/62] fix: a refused save leaves the story as it was

The save is loaded into a new state that replaces the current one only on success.
---
 runtime/src/story/state.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 471c1bb..bdcfbb2 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -120,7 +120,22 @@ impl Story {
 
     /// Loads a previously saved state in JSON format.
     pub fn load_state(&mut self, json_state: &str) -> Result<(), StoryError> {
-        self.get_state_mut().load_json(json_state)
+        self.if_async_we_cant("load a state")?;
+
+        // Load into a new state, so that a refused save leaves the story as it was
+        let mut state = StoryState::new(
+            self.main_content_container.clone(),
+            self.list_definitions.clone(),
+        );
+        state.variables_state.default_global_variables =
+            self.state.variables_state.default_global_variables.clone();
+        state.variables_state.global_variables =
+            state.variables_state.default_global_variables.clone();
+        state.load_json(json_state)?;
+
+        self.state = state;
+
+        Ok(())
     }
 
     /// Reset the Story back to its initial state as it was when it was first constructed.
-- 
2.43.0


From 847293b1450d626baaf818a5b72d732b215039e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 11/62] fix: evaluating a function keeps the story's previous
 position

Visit counts of the next jump depend on it.
---
 runtime/src/story/navigation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index f758e10..5348298 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -152,6 +152,7 @@ impl Story {
 
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
+        let previous_pointer_before = self.get_state().get_previous_pointer();
         self.get_state_mut().reset_output(None);
 
         // State will temporarily replace the callstack in order to evaluate
@@ -169,6 +170,7 @@ impl Story {
         // during main story evaluation.
         self.get_state_mut()
             .reset_output(Some(output_stream_before));
+        self.get_state().set_previous_pointer(previous_pointer_before);
 
         // Finish evaluation, and see whether anything was produced
         self.get_state_mut()
-- 
2.43.0


From 85680cf83f6bbc42656eeb23de12cf3a789b3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 12/62] fix: only functions that are not lookahead-safe are
 refused inside strings

The guard was inverted.
---
 runtime/src/story/external_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 177dc8a..1829228 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -94,7 +94,7 @@ impl Story {
         // Should this function break glue? Abort run if we've already seen a newline.
         // Set a bool to tell it to restore the snapshot at the end of this instruction.
         if let Some(func_def) = self.externals.get(func_name) {
-            if func_def.lookahead_safe && self.get_state().in_string_evaluation() {
+            if !func_def.lookahead_safe && self.get_state().in_string_evaluation() {
                 // 16th Jan 2023: Example ink that was failing:
                 //
                 //      A line above
-- 
2.43.0


From 49871181ca4573d66cca7ae7463d0466ab1cd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 13/62] fix: each error and warning is reported by one continue
 only

Warnings were never cleared, so every later continue delivered them again, and an
unfinished continue_async delivered messages that its rewind made happen twice.
---
 runtime/src/story/progress.rs | 40 +++++++++++++++--------------------
 runtime/src/story_state.rs    | 15 +++++++++++++
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index d178937..a8d66b7 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -202,25 +202,29 @@ impl Story {
         // Report any errors that occured during evaluation.
         // This may either have been StoryExceptions that were thrown
         // and caught during evaluation, or directly added with AddError.
-        if self.get_state().has_error() || self.get_state().has_warning() {
+        // While the line is unfinished nothing is reported: what was seen while
+        // looking ahead may still be rewound and happen again.
+        if !self.async_continue_active
+            && (self.get_state().has_error()
+                || !self.get_state().get_unreported_warnings().is_empty())
+        {
             match &self.on_error {
                 Some(on_err) => {
-                    if self.get_state().has_error() {
-                        for err in self.get_state().get_current_errors() {
-                            on_err.borrow_mut().error(err, ErrorType::Error);
-                        }
+                    for err in self.get_state().get_current_errors() {
+                        on_err.borrow_mut().error(err, ErrorType::Error);
                     }
 
-                    if self.get_state().has_warning() {
-                        for err in self.get_state().get_current_warnings() {
-                            on_err.borrow_mut().error(err, ErrorType::Warning);
-                        }
+                    for err in self.get_state().get_unreported_warnings() {
+                        on_err.borrow_mut().error(err, ErrorType::Warning);
                     }
 
                     self.reset_errors();
                 }
-                // No error handler: throw for errors, silently discard warnings
+                // No error handler: throw for errors, warnings just stay readable
                 None => {
+                    let warnings = self.get_state().get_unreported_warnings().len();
+                    self.get_state_mut().set_warnings_reported();
+
                     if self.get_state().has_error() {
                         let mut sb = String::new();
                         sb.push_str("Ink had ");
@@ -230,16 +234,10 @@ impl Story {
                         } else {
                             sb.push_str(" errors");
                         }
-                        if self.get_state().has_warning() {
+                        if warnings > 0 {
                             sb.push_str(" and ");
-                            sb.push_str(
-                                self.get_state()
-                                    .get_current_warnings()
-                                    .len()
-                                    .to_string()
-                                    .as_str(),
-                            );
-                            if self.get_state().get_current_warnings().len() == 1 {
+                            sb.push_str(&warnings.to_string());
+                            if warnings == 1 {
                                 sb.push_str(" warning");
                             } else {
                                 sb.push_str(" warnings");
@@ -249,10 +247,6 @@ impl Story {
                         sb.push_str(self.get_state().get_current_errors()[0].as_str());
                         return Err(StoryError::InvalidStoryState(sb));
                     }
-                    // Only warnings and no handler: discard silently (consistent
-                    // with the C# reference implementation which does not throw
-                    // for warnings without a handler).
-                    self.reset_errors();
                 }
             }
         }
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index d5d35c9..11e806a 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -43,6 +43,8 @@ pub(crate) struct StoryState {
     main_content_container: Rc<Container>,
     current_errors: Vec<String>,
     current_warnings: Vec<String>,
+    /// How many of the current warnings a continue has already reported
+    reported_warnings: usize,
     current_text: Option<String>,
     patch: Option<StatePatch>,
     named_flows: Option<HashMap<String, Flow>>,
@@ -78,6 +80,7 @@ impl StoryState {
             main_content_container,
             current_errors: Vec::with_capacity(0),
             current_warnings: Vec::with_capacity(0),
+            reported_warnings: 0,
             current_text: None,
             patch: None,
             named_flows: None,
@@ -806,6 +809,7 @@ impl StoryState {
 
         if self.has_warning() {
             copy.current_warnings = self.current_warnings.clone();
+            copy.reported_warnings = self.reported_warnings;
         }
 
         // ref copy - exactly the same variables state!
@@ -1495,5 +1499,16 @@ impl StoryState {
 
     pub(crate) fn reset_errors(&mut self) {
         self.current_errors.clear();
+        self.current_warnings.clear();
+        self.reported_warnings = 0;
+    }
+
+    pub(crate) fn get_unreported_warnings(&self) -> &[String] {
+        &self.current_warnings[self.reported_warnings..]
+    }
+
+    /// Keeps the current warnings readable, but no later continue reports them
+    pub(crate) fn set_warnings_reported(&mut self) {
+        self.reported_warnings = self.current_warnings.len();
     }
 }
-- 
2.43.0


From ada3c50b045a4d08dee4f1423053a982ca2b1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 14/62] fix: emptying a list no longer changes the origins of
 other lists

The origins were recorded in the assigned value itself, which can be a literal of the
story shared by several variables.
---
 runtime/src/callstack.rs        |  4 ++--
 runtime/src/ink_list.rs         |  4 +++-
 runtime/src/story/navigation.rs |  3 ++-
 runtime/src/value.rs            | 20 ++++++++++++++++----
 runtime/src/variables_state.rs  |  4 ++--
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 456361d..f953471 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -323,7 +323,7 @@ impl CallStack {
     pub fn set_temporary_variable(
         &mut self,
         name: String,
-        value: Rc<Value>,
+        mut value: Rc<Value>,
         declare_new: bool,
         mut context_index: i32,
     ) -> Result<(), StoryError> {
@@ -346,7 +346,7 @@ impl CallStack {
         let old_value = context_element.temporary_variables.get(&name).cloned();
 
         if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
+            value = Value::retain_list_origins_for_assignment(old_value, value);
         }
 
         context_element.temporary_variables.insert(name, value);
diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index e171a48..42ef86f 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -111,8 +111,10 @@ impl InkList {
             let mut names = Vec::new();
 
             for k in self.items.keys() {
-                names.push(k.get_origin_name().unwrap().clone());
+                names.extend(k.get_origin_name().cloned());
             }
+            names.sort();
+            names.dedup();
 
             return names;
         }
diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index 5348298..89259a5 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -170,7 +170,8 @@ impl Story {
         // during main story evaluation.
         self.get_state_mut()
             .reset_output(Some(output_stream_before));
-        self.get_state().set_previous_pointer(previous_pointer_before);
+        self.get_state()
+            .set_previous_pointer(previous_pointer_before);
 
         // Finish evaluation, and see whether anything was produced
         self.get_state_mut()
diff --git a/runtime/src/value.rs b/runtime/src/value.rs
index 73fea70..014eed8 100644
--- a/runtime/src/value.rs
+++ b/runtime/src/value.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::{fmt, rc::Rc};
 
 use crate::{
     ink_list::InkList,
@@ -187,13 +187,25 @@ impl Value {
         }
     }
 
-    pub fn retain_list_origins_for_assignment(old_value: &dyn RTObject, new_value: &dyn RTObject) {
+    /// An empty list that replaces another one keeps the origins of that one. The new
+    /// value is copied for it, since it may be a literal of the story.
+    pub fn retain_list_origins_for_assignment(
+        old_value: &Value,
+        new_value: Rc<Value>,
+    ) -> Rc<Value> {
         if let Some(old_list) = Self::get_value::<&InkList>(old_value)
-            && let Some(new_list) = Self::get_value::<&InkList>(new_value)
+            && let Some(new_list) = Self::get_value::<&InkList>(new_value.as_ref())
             && new_list.items.is_empty()
         {
-            new_list.set_initial_origin_names(old_list.get_origin_names());
+            let names = old_list.get_origin_names();
+            if names != new_list.get_origin_names() {
+                let list = new_list.clone();
+                list.set_initial_origin_names(names);
+                return Rc::new(Value::new::<InkList>(list));
+            }
         }
+
+        new_value
     }
 
     pub fn get_cast_ordinal(&self) -> u8 {
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 1730c4c..4570772 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -278,7 +278,7 @@ impl VariablesState {
     }
 
     // Returns true if global var has changed and we need to notify observers
-    fn set_global(&mut self, name: &str, value: Rc<Value>) -> bool {
+    fn set_global(&mut self, name: &str, mut value: Rc<Value>) -> bool {
         let mut old_value: Option<Rc<Value>> = None;
 
         if let Some(patch) = &self.patch {
@@ -290,7 +290,7 @@ impl VariablesState {
         }
 
         if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
+            value = Value::retain_list_origins_for_assignment(old_value, value);
         }
 
         if let Some(patch) = &mut self.patch {
-- 
2.43.0


From 6d60d4a0251a142c5c0bd886b8a0a6dee1626135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 15/62] fix: save the origins of empty lists

---
 runtime/src/json/json_write.rs | 8 ++++++++
 runtime/src/variables_state.rs | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 2a128ac..28470b7 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -266,6 +266,14 @@ pub fn write_ink_list(list: &InkList) -> serde_json::Value {
 
     jobj.insert("list".to_owned(), serde_json::Value::Object(jlist));
 
+    // An empty list still knows where it came from
+    if list.items.is_empty() {
+        let origins = list.get_origin_names();
+        if !origins.is_empty() {
+            jobj.insert("origins".to_owned(), json!(origins));
+        }
+    }
+
     serde_json::Value::Object(jobj)
 }
 
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 4570772..fc3290d 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -368,7 +368,9 @@ impl VariablesState {
                 _ => false,
             },
             ValueType::List(val) => match &default_val.value {
-                ValueType::List(default_val) => *val == *default_val,
+                ValueType::List(default_val) => {
+                    *val == *default_val && val.get_origin_names() == default_val.get_origin_names()
+                }
                 _ => false,
             },
             ValueType::String(val) => match &default_val.value {
-- 
2.43.0


From 7846a04d8b686fea2f2dc2d8a2ac5763bf6352ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 16/62] fix: saves keep infinite and NaN values

---
 runtime/src/json/json_read.rs  | 5 +++++
 runtime/src/json/json_write.rs | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 58e46ef..5b069aa 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -116,6 +116,11 @@ pub fn jtoken_to_runtime_object(
                 return Ok(Rc::new(Value::new::<&str>("\n")));
             }
 
+            // Used when serialising save state only
+            if "nan".eq(str) {
+                return Ok(Rc::new(Value::new::<f32>(f32::NAN)));
+            }
+
             // Glue
             if "<>".eq(str) {
                 return Ok(Rc::new(Glue::new()));
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 28470b7..f064b8d 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -97,6 +97,13 @@ pub fn write_rtobject(o: Rc<dyn RTObject>) -> Result<serde_json::Value, StoryErr
     }
 
     if let Some(v) = Value::get_value::<f32>(o.as_ref()) {
+        // JSON has no infinities and no NaN
+        if v.is_nan() {
+            return Ok(json!("nan"));
+        }
+        if v.is_infinite() {
+            return Ok(json!(1e39_f64.copysign(v as f64)));
+        }
         return Ok(json!(v));
     }
 
-- 
2.43.0


From 9346a82bcf58c3334fd8602ca75fe387fcd95671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 17/62] fix: integer arithmetic wraps and division by zero is
 an error

---
 runtime/src/native_function_call.rs | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index f048af4..f225b2f 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -297,9 +297,9 @@ impl NativeFunctionCall {
         for (list_item, list_item_value) in list_val.items.iter() {
             let target_int = {
                 if self.op == Op::Add {
-                    list_item_value + int_val
+                    list_item_value.wrapping_add(int_val)
                 } else {
-                    list_item_value - int_val
+                    list_item_value.wrapping_sub(int_val)
                 }
             };
 
@@ -545,7 +545,7 @@ impl NativeFunctionCall {
     fn subtract_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(*op1 - op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_sub(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -571,7 +571,7 @@ impl NativeFunctionCall {
     fn add_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 + op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_add(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -605,10 +605,21 @@ impl NativeFunctionCall {
         }
     }
 
+    fn division_error(op1: i32, op2: i32) -> StoryError {
+        StoryError::InvalidStoryState(if op2 == 0 {
+            "Attempted to divide by zero.".to_owned()
+        } else {
+            format!("Arithmetic overflow in the division of {op1} by {op2}.")
+        })
+    }
+
     fn divide_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 / op2))),
+                ValueType::Int(op2) => match op1.checked_div(op2) {
+                    Some(v) => Ok(Rc::new(Value::new::<i32>(v))),
+                    None => Err(Self::division_error(op1, op2)),
+                },
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -650,7 +661,7 @@ impl NativeFunctionCall {
     fn multiply_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 * op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_mul(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -850,7 +861,10 @@ impl NativeFunctionCall {
     fn mod_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 % op2))),
+                ValueType::Int(op2) => match op1.checked_rem(op2) {
+                    Some(v) => Ok(Rc::new(Value::new::<i32>(v))),
+                    None => Err(Self::division_error(op1, op2)),
+                },
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -984,7 +998,7 @@ impl NativeFunctionCall {
 
     fn negate_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
-            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(-op1))),
+            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_neg()))),
             ValueType::Float(op1) => Ok(Rc::new(Value::new::<f32>(-op1))),
             _ => Err(StoryError::InvalidStoryState(
                 "Operation not available for type.".to_owned(),
-- 
2.43.0


From f3505232d90219e5db70850b98b80e331a34cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 18/62] fix: random numbers and shuffles do not overflow

---
 runtime/src/story/control_logic.rs | 20 +++++++++++++-------
 runtime/src/story/mod.rs           | 10 +++++++++-
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 779e6ae..fce1480 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -383,7 +383,7 @@ impl Story {
 
                     let min_value = min_int.unwrap();
                     let max_value = max_int.unwrap();
-                    let random_range = max_value - min_value + 1;
+                    let random_range = max_value.wrapping_sub(min_value).wrapping_add(1);
                     if random_range <= 0 {
                         return Err(StoryError::InvalidStoryState(format!(
                             "RANDOM was called with minimum as {} and maximum as {}. The maximum must be larger",
@@ -391,14 +391,18 @@ impl Story {
                         )));
                     }
 
-                    let result_seed =
-                        self.get_state().story_seed + self.get_state().previous_random;
+                    let result_seed = self
+                        .get_state()
+                        .story_seed
+                        .wrapping_add(self.get_state().previous_random);
                     let mut rng = StdRng::seed_from_u64(result_seed as u64);
                     let next_random = rng.random::<u32>();
-                    let chosen_value = (next_random % random_range as u32) as i32 + min_value;
+                    let chosen_value =
+                        ((next_random % random_range as u32) as i32).wrapping_add(min_value);
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(chosen_value)));
-                    self.get_state_mut().previous_random = self.get_state().previous_random + 1;
+                    self.get_state_mut().previous_random =
+                        self.get_state().previous_random.wrapping_add(1);
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
@@ -535,8 +539,10 @@ impl Story {
                         // Non-empty source list
                         else {
                             // Generate a random index for the element to take
-                            let result_seed =
-                                self.get_state().story_seed + self.get_state().previous_random;
+                            let result_seed = self
+                                .get_state()
+                                .story_seed
+                                .wrapping_add(self.get_state().previous_random);
                             let mut rng = StdRng::seed_from_u64(result_seed as u64);
                             let next_random = rng.random::<u32>();
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index e9c369f..43ac08e 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -148,6 +148,12 @@ mod misc {
                 ));
             };
 
+            if num_elements <= 0 || seq_count < 0 {
+                return Err(StoryError::InvalidStoryState(
+                    "Expected a sequence with elements for shuffle index".to_owned(),
+                ));
+            }
+
             let loop_index = seq_count / num_elements;
             let iteration_index = seq_count % num_elements;
 
@@ -157,7 +163,9 @@ mod misc {
             // - How many times the runtime has looped around this full shuffle
             let seq_path_str = Object::get_path(seq_container.as_ref()).to_string();
             let sequence_hash: i32 = seq_path_str.chars().map(|c| c as i32).sum();
-            let random_seed = sequence_hash + loop_index + self.get_state().story_seed;
+            let random_seed = sequence_hash
+                .wrapping_add(loop_index)
+                .wrapping_add(self.get_state().story_seed);
 
             let mut rng = StdRng::seed_from_u64(random_seed as u64);
 
-- 
2.43.0


From 604b817e7ad4291eb244ee756eeed5c874f049ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 19/62] fix: a missing or unusable value on the evaluation
 stack is an error instead of a panic

---
 runtime/src/story/choices.rs            | 23 +++++++----
 runtime/src/story/control_logic.rs      | 52 ++++++++++++++-----------
 runtime/src/story/external_functions.rs |  2 +-
 runtime/src/story/mod.rs                |  4 +-
 runtime/src/story_state.rs              | 33 +++++++++++-----
 runtime/src/variable_reference.rs       |  4 +-
 6 files changed, 73 insertions(+), 45 deletions(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index a98733b..e2fab49 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -57,7 +57,7 @@ impl Story {
 
         // Don't create choice if choice point doesn't pass conditional
         if choice_point.has_condition() {
-            let condition_value = self.get_state_mut().pop_evaluation_stack();
+            let condition_value = self.get_state_mut().pop_evaluation_stack()?;
             if !self.is_truthy(condition_value)? {
                 show_choice = false;
             }
@@ -68,11 +68,11 @@ impl Story {
         let mut tags: Vec<String> = Vec::with_capacity(0);
 
         if choice_point.has_choice_only_content() {
-            choice_only_text = self.pop_choice_string_and_tags(&mut tags);
+            choice_only_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         if choice_point.has_start_content() {
-            start_text = self.pop_choice_string_and_tags(&mut tags);
+            start_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         // Don't create choice if player has already read this content
@@ -156,9 +156,16 @@ impl Story {
         self.choose_path(&choice.target_path, false)
     }
 
-    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> String {
-        let obj = self.get_state_mut().pop_evaluation_stack();
-        let choice_only_str_val = Value::get_value::<&StringValue>(obj.as_ref()).unwrap();
+    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> Result<String, StoryError> {
+        let obj = self.get_state_mut().pop_evaluation_stack()?;
+        let choice_text = match Value::get_value::<&StringValue>(obj.as_ref()) {
+            Some(s) => s.string.clone(),
+            None => {
+                return Err(StoryError::InvalidStoryState(
+                    "Expected a string for the text of a choice".to_owned(),
+                ));
+            }
+        };
 
         while !self.get_state().evaluation_stack.is_empty()
             && self
@@ -170,7 +177,7 @@ impl Story {
         {
             let tag = self
                 .get_state_mut()
-                .pop_evaluation_stack()
+                .pop_evaluation_stack()?
                 .into_any()
                 .downcast::<Tag>()
                 .unwrap();
@@ -178,6 +185,6 @@ impl Story {
             // order
         }
 
-        choice_only_str_val.string.to_string()
+        Ok(choice_text)
     }
 }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index fce1480..8bf078f 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -38,7 +38,7 @@ impl Story {
         }; // Divert
         if let Ok(current_divert) = content_obj.clone().into_any().downcast::<Divert>() {
             if current_divert.is_conditional {
-                let o = self.get_state_mut().pop_evaluation_stack();
+                let o = self.get_state_mut().pop_evaluation_stack()?;
                 if !self.is_truthy(o)? {
                     return Ok(true);
                 }
@@ -123,7 +123,7 @@ impl Story {
                     // If the expression turned out to be empty, there may not be
                     // anything on the stack
                     if !self.get_state().evaluation_stack.is_empty() {
-                        let output = self.get_state_mut().pop_evaluation_stack(); // Functions may evaluate to Void, in which case we skip
+                        let output = self.get_state_mut().pop_evaluation_stack()?; // Functions may evaluate to Void, in which case we skip
                         // output
                         if !output.as_ref().as_any().is::<Void>() {
                             // TODO: Should we really always blanket convert to
@@ -147,11 +147,12 @@ impl Story {
                     self.get_state().set_in_expression_evaluation(false);
                 }
                 CommandType::Duplicate => {
-                    let obj = self.get_state().peek_evaluation_stack().unwrap().clone();
+                    let obj = self.get_state_mut().pop_evaluation_stack()?;
+                    self.get_state_mut().push_evaluation_stack(obj.clone());
                     self.get_state_mut().push_evaluation_stack(obj);
                 }
                 CommandType::PopEvaluatedValue => {
-                    self.get_state_mut().pop_evaluation_stack();
+                    self.get_state_mut().pop_evaluation_stack()?;
                 }
                 CommandType::PopFunction | CommandType::PopTunnel => {
                     let pop_type = if CommandType::PopFunction == eval_command.command_type {
@@ -162,7 +163,7 @@ impl Story {
                     // divert to go to immediately after returning: ->-> target
                     let mut override_tunnel_return_target = None;
                     if pop_type == PushPopType::Tunnel {
-                        let popped = self.get_state_mut().pop_evaluation_stack();
+                        let popped = self.get_state_mut().pop_evaluation_stack()?;
                         if let Some(v) = Value::get_value::<&Path>(popped.as_ref()) {
                             override_tunnel_return_target = Some(v.clone());
                         }
@@ -301,7 +302,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn + 1)));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
-                    let target = self.get_state_mut().pop_evaluation_stack();
+                    let target = self.get_state_mut().pop_evaluation_stack()?;
                     if Value::get_value::<&Path>(target.as_ref()).is_none() {
                         let mut extra_note = "".to_owned();
                         if Value::get_value::<i32>(target.as_ref()).is_some() {
@@ -356,12 +357,12 @@ impl Story {
                 }
                 CommandType::Random => {
                     let mut max_int = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         max_int = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let mut min_int = None;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         min_int = Some(v);
@@ -406,7 +407,7 @@ impl Story {
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         seed = Some(v);
                     }
@@ -459,12 +460,12 @@ impl Story {
                 CommandType::ListFromInt => {
                     let mut int_val: Option<i32> = None;
                     let mut list_name_val: Option<&String> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         int_val = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(s) = Value::get_value::<&StringValue>(o.as_ref()) {
                         list_name_val = Some(&s.string);
                     }
@@ -503,11 +504,11 @@ impl Story {
                         .push_evaluation_stack(Rc::new(generated_list_value.unwrap()));
                 }
                 CommandType::ListRange => {
-                    let mut p = self.get_state_mut().pop_evaluation_stack();
+                    let mut p = self.get_state_mut().pop_evaluation_stack()?;
                     let max = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let min = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let target_list = Value::get_value::<&InkList>(p.as_ref());
                     if target_list.is_none() || min.is_err() || max.is_err() {
                         return Err(StoryError::InvalidStoryState(
@@ -522,7 +523,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<InkList>(result)));
                 }
                 CommandType::ListRandom => {
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let list = Value::get_value::<&InkList>(o.as_ref());
                     if list.is_none() {
                         return Err(StoryError::InvalidStoryState(
@@ -645,12 +646,17 @@ impl Story {
             .as_any()
             .downcast_ref::<VariableAssignment>()
         {
-            let assigned_val = self.get_state_mut().pop_evaluation_stack(); // When in temporary evaluation, don't create new variables purely
+            let assigned_val = self.get_state_mut().pop_evaluation_stack()?; // When in temporary evaluation, don't create new variables purely
             // within
             // the temporary context, but attempt to create them globally
             // var prioritiseHigherInCallStack = _temporaryEvaluationContainer
             // != null;
-            let assigned_val = assigned_val.into_any().downcast::<Value>().unwrap();
+            let Ok(assigned_val) = assigned_val.into_any().downcast::<Value>() else {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Attempting to assign a void value to '{}'. Did you forget to 'return' a value from a function you called here?",
+                    var_ass.variable_name
+                )));
+            };
             self.get_state_mut()
                 .variables_state
                 .assign(var_ass, assigned_val)?;
@@ -665,10 +671,12 @@ impl Story {
         {
             let found_value: Rc<Value>; // Explicit read count value
             if var_ref.path_for_count.is_some() {
-                let container = var_ref.get_container_for_count();
-                let count = self
-                    .get_state_mut()
-                    .visit_count_for_container(container.as_ref().unwrap());
+                let Ok(container) = var_ref.get_container_for_count() else {
+                    return Err(StoryError::InvalidStoryState(
+                        "Expected a container for a read count".to_owned(),
+                    ));
+                };
+                let count = self.get_state_mut().visit_count_for_container(&container);
                 found_value = Rc::new(Value::new::<i32>(count));
             }
             // Normal variable reference
@@ -698,7 +706,7 @@ impl Story {
         {
             let func_params = self
                 .get_state_mut()
-                .pop_evaluation_stack_multiple(func.get_number_of_parameters());
+                .pop_evaluation_stack_multiple(func.get_number_of_parameters())?;
             let result = func.call(func_params)?;
             self.get_state_mut().push_evaluation_stack(result);
             return Ok(true);
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 1829228..7a906a2 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -158,7 +158,7 @@ impl Story {
         // Pop arguments
         let mut arguments: Vec<ValueType> = Vec::new();
         for _ in 0..number_of_arguments {
-            let popped_obj = self.get_state_mut().pop_evaluation_stack();
+            let popped_obj = self.get_state_mut().pop_evaluation_stack()?;
             let value_obj = popped_obj.into_any().downcast::<Value>();
 
             if let Ok(value_obj) = value_obj {
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index 43ac08e..aa56779 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -126,7 +126,7 @@ mod misc {
         }
 
         pub(crate) fn next_sequence_shuffle_index(&mut self) -> Result<i32, StoryError> {
-            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack();
+            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack()?;
             let num_elements =
                 if let Some(v) = Value::get_value::<i32>(pop_evaluation_stack.as_ref()) {
                     v
@@ -139,7 +139,7 @@ mod misc {
             let seq_container = self.get_state().get_current_pointer().container.unwrap();
 
             let seq_count = if let Some(v) =
-                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack().as_ref())
+                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
             {
                 v
             } else {
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 11e806a..402656e 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -372,8 +372,9 @@ impl StoryState {
             list.origins.borrow_mut().clear();
 
             for name in &origin_names {
-                let def = self.list_definitions.get_list_definition(name).unwrap();
-                if !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def)) {
+                if let Some(def) = self.list_definitions.get_list_definition(name)
+                    && !list.origins.borrow().iter().any(|e| e.get_name() == name)
+                {
                     list.origins.borrow_mut().push(def.clone());
                 }
             }
@@ -892,18 +893,30 @@ impl StoryState {
         self.output_stream_dirty();
     }
 
-    pub fn pop_evaluation_stack(&mut self) -> Rc<dyn RTObject> {
-        self.evaluation_stack.pop().unwrap()
+    pub fn pop_evaluation_stack(&mut self) -> Result<Rc<dyn RTObject>, StoryError> {
+        self.evaluation_stack
+            .pop()
+            .ok_or_else(Self::missing_value_error)
+    }
+
+    fn missing_value_error() -> StoryError {
+        StoryError::InvalidStoryState(
+            "A value is missing on the evaluation stack. Was an argument or a return value expected?"
+                .to_owned(),
+        )
     }
 
     pub fn pop_evaluation_stack_multiple(
         &mut self,
         number_of_objects: usize,
-    ) -> Vec<Rc<dyn RTObject>> {
-        let start = self.evaluation_stack.len() - number_of_objects;
-        let obj: Vec<Rc<dyn RTObject>> = self.evaluation_stack.drain(start..).collect();
+    ) -> Result<Vec<Rc<dyn RTObject>>, StoryError> {
+        let start = self
+            .evaluation_stack
+            .len()
+            .checked_sub(number_of_objects)
+            .ok_or_else(Self::missing_value_error)?;
 
-        obj
+        Ok(self.evaluation_stack.drain(start..).collect())
     }
 
     pub fn set_diverted_pointer(&mut self, p: Pointer) {
@@ -1082,7 +1095,7 @@ impl StoryState {
         // for that)
         let mut returned_obj = None;
         while self.evaluation_stack.len() > original_evaluation_stack_height {
-            let popped_obj = self.pop_evaluation_stack();
+            let popped_obj = self.pop_evaluation_stack()?;
             if returned_obj.is_none() {
                 returned_obj = Some(popped_obj);
             }
@@ -1123,7 +1136,7 @@ impl StoryState {
         if !container.turn_index_should_be_counted {
             return Err(StoryError::InvalidStoryState(format!(
                 "TURNS_SINCE() for target ({}) unknown.",
-                container.name.as_ref().unwrap()
+                Object::get_path(container)
             )));
         }
 
diff --git a/runtime/src/variable_reference.rs b/runtime/src/variable_reference.rs
index bee9c0d..8b234fe 100644
--- a/runtime/src/variable_reference.rs
+++ b/runtime/src/variable_reference.rs
@@ -31,9 +31,9 @@ impl VariableReference {
 
     pub fn get_container_for_count(self: &Rc<Self>) -> Result<Rc<Container>, String> {
         if let Some(path) = &self.path_for_count {
-            Ok(Object::resolve_path(self.clone(), path)
+            Object::resolve_path(self.clone(), path)
                 .container()
-                .unwrap())
+                .ok_or_else(|| format!("Path for count ({path}) is not a container."))
         } else {
             Err("Path for count is not set.".to_owned())
         }
-- 
2.43.0


From db940c30c0f7b332a64993e440a3b187e29f56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 20/62] fix: ties between list items are decided by their
 names, not by the map

---
 runtime/src/ink_list.rs            | 32 ++++++++----------------------
 runtime/src/list_definition.rs     | 13 ++++++------
 runtime/src/story/control_logic.rs | 17 ++++++++++------
 3 files changed, 26 insertions(+), 36 deletions(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index 42ef86f..21b5135 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -66,40 +66,24 @@ impl InkList {
         ink_list
     }
 
-    fn get_ordered_items(&self) -> Vec<(&InkListItem, &i32)> {
+    // Ordered by value; items with the same value by the names of their list and of
+    // themselves, so that the order doesn't depend on the map.
+    pub(crate) fn get_ordered_items(&self) -> Vec<(&InkListItem, &i32)> {
         let mut ordered: Vec<_> = self.items.iter().collect();
         ordered.sort_by(|a, b| {
-            if a.1 == b.1 {
-                a.0.get_origin_name().cmp(&b.0.get_origin_name())
-            } else {
-                a.1.cmp(b.1)
-            }
+            a.1.cmp(b.1)
+                .then_with(|| a.0.get_origin_name().cmp(&b.0.get_origin_name()))
+                .then_with(|| a.0.get_item_name().cmp(b.0.get_item_name()))
         });
         ordered
     }
 
     pub fn get_max_item(&self) -> Option<(&InkListItem, i32)> {
-        let mut max: Option<(&InkListItem, i32)> = None;
-
-        for (k, v) in &self.items {
-            if max.is_none() || *v > max.as_ref().unwrap().1 {
-                max = Some((k, *v));
-            }
-        }
-
-        max
+        self.get_ordered_items().last().map(|(k, v)| (*k, **v))
     }
 
     pub fn get_min_item(&self) -> Option<(&InkListItem, i32)> {
-        let mut min: Option<(&InkListItem, i32)> = None;
-
-        for (k, v) in &self.items {
-            if min.is_none() || *v < min.as_ref().unwrap().1 {
-                min = Some((k, *v));
-            }
-        }
-
-        min
+        self.get_ordered_items().first().map(|(k, v)| (*k, **v))
     }
 
     pub fn set_initial_origin_names(&self, initial_origin_names: Vec<String>) {
diff --git a/runtime/src/list_definition.rs b/runtime/src/list_definition.rs
index e057912..f49352a 100644
--- a/runtime/src/list_definition.rs
+++ b/runtime/src/list_definition.rs
@@ -49,11 +49,12 @@ impl ListDefinition {
     }
 
     pub fn get_item_with_value(&self, val: i32) -> Option<InkListItem> {
-        for (item_name, value) in &self.item_name_to_values {
-            if *value == val {
-                return Some(InkListItem::new(Some(self.name.clone()), item_name.clone()));
-            }
-        }
-        None
+        // Several items may have the value: the choice must not depend on the map.
+        self.item_name_to_values
+            .iter()
+            .filter(|(_, value)| **value == val)
+            .map(|(item_name, _)| item_name)
+            .min()
+            .map(|item_name| InkListItem::new(Some(self.name.clone()), item_name.clone()))
     }
 }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 8bf078f..1c0abed 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -3,7 +3,6 @@ use crate::{
     control_command::{CommandType, ControlCommand},
     divert::Divert,
     ink_list::InkList,
-    ink_list_item::InkListItem,
     native_function_call::NativeFunctionCall,
     object::RTObject,
     path::Path,
@@ -470,6 +469,12 @@ impl Story {
                         list_name_val = Some(&s.string);
                     }
 
+                    let Some(list_name_val) = list_name_val else {
+                        return Err(StoryError::InvalidStoryState(
+                            "Expected the name of a list when creating a list element from a numerical value.".to_owned(),
+                        ));
+                    };
+
                     if int_val.is_none() {
                         return Err(StoryError::InvalidStoryState("Passed non-integer when creating a list element from a numerical value.".to_owned()));
                     }
@@ -478,7 +483,7 @@ impl Story {
                     if let Some(found_list_def) = self
                         .list_definitions
                         .as_ref()
-                        .get_list_definition(list_name_val.as_ref().unwrap())
+                        .get_list_definition(list_name_val)
                     {
                         if let Some(found_item) =
                             found_list_def.get_item_with_value(int_val.unwrap())
@@ -492,7 +497,7 @@ impl Story {
                     } else {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Failed to find List called {}",
-                            list_name_val.as_ref().unwrap()
+                            list_name_val
                         )));
                     }
 
@@ -548,11 +553,11 @@ impl Story {
                             let next_random = rng.random::<u32>();
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
                             // predictibility
-                            let mut sorted: Vec<(&InkListItem, &i32)> = list.items.iter().collect();
-                            sorted.sort_by(|a, b| b.1.cmp(a.1));
+                            let mut sorted = list.get_ordered_items();
+                            sorted.reverse();
                             let random_item = sorted[list_item_index]; // Origin list is simply the origin of the one element
                             let mut new_list = InkList::from_single_origin(
-                                random_item.0.get_origin_name().unwrap().clone(),
+                                random_item.0.get_origin_name().cloned().unwrap_or_default(),
                                 self.list_definitions.as_ref(),
                             )?;
                             new_list.items.insert(random_item.0.clone(), *random_item.1);
-- 
2.43.0


From 08c9b82c506bbd141dc43ba2bbf074cb85965fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 21/62] fix: observers are notified by a continue that reports
 an error too

---
 runtime/src/story/progress.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index a8d66b7..2c102d7 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -199,6 +199,8 @@ impl Story {
 
         self.recursive_continue_count -= 1;
 
+        let mut failure = None;
+
         // Report any errors that occured during evaluation.
         // This may either have been StoryExceptions that were thrown
         // and caught during evaluation, or directly added with AddError.
@@ -245,7 +247,7 @@ impl Story {
                         }
                         sb.push_str(". It is strongly suggested that you assign an error handler to story.onError. The first issue was: ");
                         sb.push_str(self.get_state().get_current_errors()[0].as_str());
-                        return Err(StoryError::InvalidStoryState(sb));
+                        failure = Some(StoryError::InvalidStoryState(sb));
                     }
                 }
             }
@@ -258,7 +260,10 @@ impl Story {
             }
         }
 
-        Ok(())
+        match failure {
+            Some(e) => Err(e),
+            None => Ok(()),
+        }
     }
 
     pub(crate) fn continue_single_step(&mut self) -> Result<bool, StoryError> {
-- 
2.43.0


From 69124007f9568fda5497e394133fc79f1e721e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 22/62] fix: notification order and the list of missing
 externals do not depend on hash order

---
 runtime/src/story/external_functions.rs | 8 ++++----
 runtime/src/variables_state.rs          | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 7a906a2..7e18d55 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -1,4 +1,4 @@
-use std::{cell::RefCell, collections::HashSet, rc::Rc};
+use std::{cell::RefCell, collections::BTreeSet, rc::Rc};
 
 use crate::{
     container::Container, divert::Divert, object::RTObject, pointer::Pointer,
@@ -195,7 +195,7 @@ impl Story {
     }
 
     pub(crate) fn validate_external_bindings(&mut self) -> Result<(), StoryError> {
-        let mut missing_externals: HashSet<String> = HashSet::new();
+        let mut missing_externals: BTreeSet<String> = BTreeSet::new();
 
         self.validate_external_bindings_container(
             &self.get_main_content_container(),
@@ -230,7 +230,7 @@ impl Story {
     fn validate_external_bindings_container(
         &self,
         c: &Rc<Container>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         for inner_content in c.content.iter() {
             let container = inner_content
@@ -265,7 +265,7 @@ impl Story {
     fn validate_external_bindings_rtobject(
         &self,
         o: &Rc<dyn RTObject>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         let divert = o.clone().into_any().downcast::<Divert>().ok();
 
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index fc3290d..9a26f33 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     rc::Rc,
 };
 
@@ -49,10 +49,11 @@ impl VariablesState {
         self.changed_variables_for_batch_obs = Some(HashSet::new());
     }
 
-    pub fn complete_variable_observation(&mut self) -> HashMap<String, ValueType> {
+    pub fn complete_variable_observation(&mut self) -> BTreeMap<String, ValueType> {
         self.batch_observing_variable_changes = false;
 
-        let mut changed_vars = HashMap::with_capacity(0);
+        // Sorted, so that the order of the notifications is always the same
+        let mut changed_vars = BTreeMap::new();
 
         // Finished observing variables in a batch - now send
         // notifications for changed variables all in one go.
-- 
2.43.0


From f9453b578d73943586da6b26b43da81c56341b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 23/62] fix: conditionals nested in sequence and switch
 branches rejoin at the right place

---
 compiler/src/emitter/conditional.rs | 4 +++-
 compiler/src/emitter/expression.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index c7ce76c..70c336f 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -234,8 +234,10 @@ fn emit_switch_conditional(
     let mut branch_bodies: Vec<EmittedContainer> = Vec::new();
     for (branch_index, (_, body_nodes)) in branches.iter().enumerate() {
         let branch_array_index = switch_index + preamble_len + branch_index;
-        let branch_scope =
+        let mut branch_scope =
             scope.conditional_branch(&format!("{branch_array_index}.b"));
+        // The body starts with the "pop" inserted below
+        branch_scope.param_offset = 1;
         let mut body = emit_nodes(body_nodes, &branch_scope, context)?;
         body.push(json!({"->": exit_target}));
         branch_bodies.push(body);
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 6a4020a..b9becde 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -79,8 +79,10 @@ fn emit_sequence(
 
     let mut named = Map::new();
     for (index, branch) in sequence.branches.iter().enumerate() {
-        let branch_scope =
+        let mut branch_scope =
             scope.at_path(joined_path(&sequence_path, format!("s{index}")));
+        // The branch starts with the "pop" inserted below
+        branch_scope.param_offset = 1;
         let mut branch_container = emit_nodes(branch, &branch_scope, context)?;
         branch_container.content.insert(0, json!("pop"));
         branch_container.push(json!({"->": joined_path(&sequence_path, rejoin_index)}));
-- 
2.43.0


From 89e00b23bfb4180aa25fac899f66df35a67da596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 24/62] fix: the colon of an inline conditional is the one
 outside nested braces

---
 compiler/src/inline.rs | 43 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 218089f..14a75db 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -500,17 +500,46 @@ pub fn parse_inline_conditional(
     }
 
     let inner = &trimmed[1..trimmed.len() - 1];
-    let (condition, branch) = match inner.split_once(':') {
+    let (condition, branch) = match split_top_level_colon(inner) {
         Some(parts) => parts,
         None => return Ok(None),
     };
 
-    Ok(Some((
-        parse_condition(condition.trim())?,
-        // Do NOT trim the leading whitespace from the branch text: inklecate preserves
-        // the space that authors write after ':' (e.g. `{cond: text}` → `" text"`).
-        branch,
-    )))
+    let condition = match parse_condition(condition.trim()) {
+        Ok(condition) => condition,
+        // Not a condition, but the text of a sequence that contains a colon
+        Err(_) if split_top_level_pipe(inner).len() > 1 => return Ok(None),
+        Err(error) => return Err(error),
+    };
+
+    // Do NOT trim the leading whitespace from the branch text: inklecate preserves
+    // the space that authors write after ':' (e.g. `{cond: text}` → `" text"`).
+    Ok(Some((condition, branch)))
+}
+
+/// Splits `condition: branches` at the colon, which is outside of nested braces,
+/// parentheses and strings and comes before the first `|` separating branches.
+fn split_top_level_colon(inner: &str) -> Option<(&str, &str)> {
+    let bytes = inner.as_bytes();
+    let mut depth = 0usize;
+    let mut in_string = false;
+    let mut i = 0;
+
+    while i < bytes.len() {
+        match bytes[i] {
+            b'"' => in_string = !in_string,
+            _ if in_string => {}
+            b'{' | b'(' => depth += 1,
+            b'}' | b')' => depth = depth.saturating_sub(1),
+            b'|' if depth == 0 && bytes.get(i + 1) == Some(&b'|') => i += 1,
+            b'|' if depth == 0 => return None,
+            b':' if depth == 0 => return Some((&inner[..i], &inner[i + 1..])),
+            _ => {}
+        }
+        i += 1;
+    }
+
+    None
 }
 
 pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, CompilerError> {
-- 
2.43.0


From 11a1d2b924c5d2e92c6efa9e8caace312da3b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:38 +0000
Subject: [PATCH 25/62] fix: inline conditionals in choice text, tags and
 strings are conditionals

---
 compiler/src/ast.rs                |  2 ++
 compiler/src/emitter/expression.rs | 58 +++++++++++++++++++++++++-----
 compiler/src/inline.rs             | 45 ++++++++++++++---------
 3 files changed, 79 insertions(+), 26 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 78b0f0e..e9df05d 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -58,6 +58,8 @@ pub enum DynamicStringPart {
     Text(String),
     Expression(Expression),
     Sequence(Sequence),
+    /// A single `Node::Conditional`
+    Conditional(Box<Node>),
 }
 
 #[derive(Debug, Clone, PartialEq, Default)]
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index b9becde..835471a 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -244,12 +244,10 @@ fn emit_expression_ctx(
             });
             out.push(json!("str"));
             // If there are no expression parts (plain string or empty), emit as literal text
-            let has_expressions = dynamic.parts.iter().any(|p| {
-                matches!(
-                    p,
-                    DynamicStringPart::Expression(_) | DynamicStringPart::Sequence(_)
-                )
-            });
+            let has_expressions = dynamic
+                .parts
+                .iter()
+                .any(|p| !matches!(p, DynamicStringPart::Text(_)));
             if !has_expressions {
                 // Plain string (possibly empty) — emit as single text token
                 let text: String = dynamic
@@ -278,9 +276,18 @@ fn emit_expression_ctx(
                             out.push(json!("out"));
                             out.push(json!("/ev"));
                         }
-                        DynamicStringPart::Sequence(_) => {
-                            // Sequences inside string literals not supported here; emit raw
-                            out.push(json!(format!("^{value}")));
+                        DynamicStringPart::Sequence(sequence) => {
+                            let node = Node::Sequence(sequence.clone());
+                            match emit_inline_logic(&node, scope, context) {
+                                Some(container) => out.push(container),
+                                None => out.push(json!(format!("^{value}"))),
+                            }
+                        }
+                        DynamicStringPart::Conditional(conditional) => {
+                            match emit_inline_logic(conditional, scope, context) {
+                                Some(container) => out.push(container),
+                                None => out.push(json!(format!("^{value}"))),
+                            }
                         }
                     }
                 }
@@ -504,9 +511,42 @@ fn emit_dynamic_string_parts(
             )?);
             emit_dynamic_string_parts(&parts[1..], out, scope, context)
         }
+        DynamicStringPart::Conditional(conditional) => {
+            out.push(emit_self_contained(
+                std::slice::from_ref(conditional),
+                scope,
+                context,
+            )?);
+            emit_dynamic_string_parts(&parts[1..], out, scope, context)
+        }
     }
 }
 
+/// Conditionals and sequences inside string literals; `None` where there is no
+/// scope to emit them in (constants).
+fn emit_inline_logic(
+    node: &Node,
+    scope: Option<&EmitScope>,
+    context: Option<&EmitContext>,
+) -> Option<Value> {
+    emit_self_contained(std::slice::from_ref(node), scope?, context?).ok()
+}
+
+/// Emits nodes as a container of their own, whose paths to its own content are
+/// all relative, so that it can be placed anywhere.
+fn emit_self_contained(
+    nodes: &[Node],
+    scope: &EmitScope,
+    context: &EmitContext,
+) -> Result<Value, CompilerError> {
+    // Stands in for the path of the container; longer than any relative path
+    let placeholder = "$".repeat(256);
+    let mut container = emit_nodes(nodes, &scope.at_path(placeholder.clone()), context)?
+        .into_json_array(None, None)?;
+    compact_container_paths(&mut container, &RuntimePath::absolute(&placeholder));
+    Ok(container)
+}
+
 fn emit_tag(
     tag: &DynamicString,
     out: &mut Vec<Value>,
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 14a75db..0f9fc87 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -101,22 +101,8 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
             }
 
             let inline = &content[index..=end];
-            if let Some((condition, branch_text)) = parse_inline_conditional(inline)? {
-                // Split on top-level '|' to get optional false branch.
-                let branches: Vec<&str> = split_top_level_pipe(branch_text);
-                // Use trim_end (not trim) to preserve the leading space that authors
-                // write after ':' — inklecate keeps it as part of the text token.
-                let when_true = tokenize_inline_content(branches[0].trim_end())?;
-                let when_false = if branches.len() > 1 {
-                    Some(tokenize_inline_content(branches[1].trim_end())?)
-                } else {
-                    None
-                };
-                nodes.push(Node::Conditional {
-                    condition,
-                    when_true,
-                    when_false,
-                });
+            if let Some(conditional) = parse_inline_conditional_node(inline)? {
+                nodes.push(conditional);
             } else if let Some(sequence) = parse_inline_sequence(&content[index + 1..end])? {
                 nodes.push(Node::Sequence(sequence));
             } else {
@@ -161,7 +147,9 @@ pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError>
             }
 
             let inner = &input[index + 1..end];
-            if let Some(sequence) = parse_inline_sequence(inner)? {
+            if let Some(conditional) = parse_inline_conditional_node(&input[index..=end])? {
+                parts.push(DynamicStringPart::Conditional(Box::new(conditional)));
+            } else if let Some(sequence) = parse_inline_sequence(inner)? {
                 parts.push(DynamicStringPart::Sequence(sequence));
             } else {
                 parts.push(DynamicStringPart::Expression(parse_expression(inner)?));
@@ -491,6 +479,29 @@ pub fn find_matching_brace(content: &str, start: usize) -> Option<usize> {
     None
 }
 
+fn parse_inline_conditional_node(inline: &str) -> Result<Option<Node>, CompilerError> {
+    let Some((condition, branch_text)) = parse_inline_conditional(inline)? else {
+        return Ok(None);
+    };
+
+    // Split on top-level '|' to get optional false branch.
+    let branches: Vec<&str> = split_top_level_pipe(branch_text);
+    // Use trim_end (not trim) to preserve the leading space that authors
+    // write after ':' — inklecate keeps it as part of the text token.
+    let when_true = tokenize_inline_content(branches[0].trim_end())?;
+    let when_false = if branches.len() > 1 {
+        Some(tokenize_inline_content(branches[1].trim_end())?)
+    } else {
+        None
+    };
+
+    Ok(Some(Node::Conditional {
+        condition,
+        when_true,
+        when_false,
+    }))
+}
+
 pub fn parse_inline_conditional(
     content: &str,
 ) -> Result<Option<(crate::ast::Condition, &str)>, CompilerError> {
-- 
2.43.0


From 6e77e5086e2445dece8af86a623174ce5baf8280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:03 +0000
Subject: [PATCH 26/62] fix: parentheses around the name of a list item mark it
 as selected

---
 compiler/src/ast.rs                 |  2 +-
 compiler/src/emitter/context.rs     |  6 ++--
 compiler/src/parser/declarations.rs | 55 ++++++++++++++++++-----------
 3 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index e9df05d..0c0a4c8 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -87,7 +87,7 @@ pub struct GlobalVariable {
 pub struct ListDeclaration {
     pub name: String,
     /// All items in order: (item_name, value_number, initially_selected)
-    pub items: Vec<(String, u32, bool)>,
+    pub items: Vec<(String, i32, bool)>,
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f0d2f10..2a04bae 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -106,7 +106,7 @@ struct EmitContext {
     /// Set of LIST declaration names (to detect list-typed function calls)
     list_names: BTreeSet<String>,
     /// For each list name, a map from bare item name → (qualified name, value)
-    list_items: std::collections::BTreeMap<String, Vec<(String, u32)>>,
+    list_items: std::collections::BTreeMap<String, Vec<(String, i32)>>,
     /// Set of EXTERNAL function declaration names
     external_functions: BTreeSet<String>,
     /// Count flags required by explicit references to flow containers.
@@ -312,7 +312,7 @@ impl EmitContext {
     fn new(story: &ParsedStory, count_all_visits: bool) -> Self {
         let mut list_items = std::collections::BTreeMap::new();
         for list_decl in story.list_declarations() {
-            let items: Vec<(String, u32)> = list_decl
+            let items: Vec<(String, i32)> = list_decl
                 .items
                 .iter()
                 .map(|(name, value, _)| (format!("{}.{}", list_decl.name, name), *value))
@@ -384,7 +384,7 @@ impl EmitContext {
 
     /// Look up a bare item name (e.g. "b") across all lists.
     /// Returns the qualified name and value if found.
-    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, u32)> {
+    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, i32)> {
         // If already qualified (contains '.'), use as-is
         if bare_name.contains('.') {
             for items in self.list_items.values() {
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 92d4c2e..d64d184 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -49,34 +49,47 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
     let rhs = input[eq_pos + 1..].trim();
 
     let mut items = Vec::new();
-    let mut value: u32 = 1;
+    let mut value: i32 = 1;
     for raw in rhs.split(',') {
         let item = raw.trim();
         if item.is_empty() {
             continue;
         }
-        // Strip optional parens (marks the item as initially selected)
-        let (inner, selected) =
-            if let Some(inner) = item.strip_prefix('(').and_then(|s| s.strip_suffix(')')) {
-                (inner.trim(), true)
-            } else {
-                (item, false)
-            };
-        // Check for explicit value assignment: `name = number`
-        if let Some((item_name, item_value)) = inner.split_once('=') {
-            let item_name = item_name.trim().to_owned();
-            let explicit_value: u32 = item_value.trim().parse().map_err(|_| {
-                CompilerError::invalid_source(format!(
-                    "invalid LIST item value: '{}'",
-                    item_value.trim()
-                ))
+        // Optional parens mark the item as initially selected. They enclose the
+        // name, or the name and its value: `(name)`, `(name) = 5`, `(name = 5)`
+        let (selected, mut rest) = match item.strip_prefix('(') {
+            Some(rest) => (true, rest.trim_start()),
+            None => (false, item),
+        };
+        let mut needs_paren = selected;
+        let name_end = rest
+            .find(|c: char| c != '_' && !c.is_alphanumeric())
+            .unwrap_or(rest.len());
+        let item_name = rest[..name_end].to_owned();
+        rest = rest[name_end..].trim_start();
+        if needs_paren && let Some(r) = rest.strip_prefix(')') {
+            needs_paren = false;
+            rest = r.trim_start();
+        }
+        // Explicit value assignment
+        if let Some(r) = rest.strip_prefix('=') {
+            let mut r = r.trim();
+            if needs_paren && let Some(inner) = r.strip_suffix(')') {
+                needs_paren = false;
+                r = inner.trim_end();
+            }
+            value = r.parse().map_err(|_| {
+                CompilerError::invalid_source(format!("invalid LIST item value: '{r}'"))
             })?;
-            value = explicit_value;
-            items.push((item_name, value, selected));
-        } else {
-            items.push((inner.to_owned(), value, selected));
+            rest = "";
+        }
+        if item_name.is_empty() || needs_paren || !rest.is_empty() {
+            return Err(CompilerError::invalid_source(format!(
+                "invalid LIST item: '{item}'"
+            )));
         }
-        value += 1;
+        items.push((item_name, value, selected));
+        value = value.wrapping_add(1);
     }
 
     Ok(ListDeclaration { name, items })
-- 
2.43.0


From 8bd137aa630262eecf35aab2c0dc261d717d3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 27/62] fix: diverts no longer keep the story alive after it is
 dropped

---
 runtime/src/divert.rs                   | 87 +++++++++++++++----------
 runtime/src/json/json_write.rs          |  2 +-
 runtime/src/story/control_logic.rs      |  6 +-
 runtime/src/story/external_functions.rs |  2 +-
 4 files changed, 56 insertions(+), 41 deletions(-)

diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index e1678a6..b7b29d5 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -1,16 +1,24 @@
-use std::{cell::RefCell, fmt, rc::Rc};
+use std::{
+    cell::RefCell,
+    fmt,
+    rc::{Rc, Weak},
+};
 
 use crate::{
     container::Container,
     object::{Object, RTObject},
     path::{Component, Path},
-    pointer::{self, Pointer},
+    pointer::Pointer,
     push_pop::PushPopType,
+    story_error::StoryError,
 };
 
 pub struct Divert {
     obj: Object,
-    target_pointer: RefCell<Pointer>,
+    // Container and index of the target, cached once resolved. The container is
+    // an ancestor of this divert more often than not, so holding it with a
+    // strong reference would keep the whole story alive.
+    target_pointer: RefCell<Option<(Weak<Container>, i32)>>,
     target_path: RefCell<Option<Path>>,
     pub external_args: usize,
     pub is_conditional: bool,
@@ -37,7 +45,7 @@ impl Divert {
             stack_push_type,
             is_external,
             external_args,
-            target_pointer: RefCell::new(pointer::NULL.clone()),
+            target_pointer: RefCell::new(None),
             target_path: RefCell::new(Self::target_path_string(target_path)),
             variable_divert_name: var_divert_name,
         }
@@ -79,40 +87,47 @@ impl Divert {
         }
     }
 
-    pub fn get_target_pointer(self: &Rc<Self>) -> Pointer {
-        let target_pointer_null = self.target_pointer.borrow().is_null();
-        if target_pointer_null {
-            let target_obj =
-                Object::resolve_path(self.clone(), self.target_path.borrow().as_ref().unwrap())
-                    .obj
-                    .clone();
+    pub fn get_target_pointer(self: &Rc<Self>) -> Result<Pointer, StoryError> {
+        if let Some((container, index)) = self.target_pointer.borrow().as_ref()
+            && let Some(container) = container.upgrade()
+        {
+            return Ok(Pointer::new(Some(container), *index));
+        }
 
-            if self
-                .target_path
-                .borrow()
-                .as_ref()
-                .unwrap()
-                .get_last_component()
-                .unwrap()
-                .is_index()
-            {
-                self.target_pointer.borrow_mut().container = target_obj.get_object().get_parent();
-                self.target_pointer.borrow_mut().index = self
-                    .target_path
-                    .borrow()
-                    .as_ref()
-                    .unwrap()
-                    .get_last_component()
-                    .unwrap()
-                    .index
-                    .unwrap() as i32;
-            } else {
-                let c = target_obj.into_any().downcast::<Container>();
-                self.target_pointer.replace(Pointer::start_of(c.unwrap()));
-            }
+        let target_path = self.target_path.borrow().clone();
+
+        let pointer = target_path
+            .as_ref()
+            .and_then(|path| self.resolve_target(path))
+            .ok_or_else(|| {
+                StoryError::InvalidStoryState(format!(
+                    "Divert target doesn't exist: {}",
+                    target_path.map(|p| p.to_string()).unwrap_or_default()
+                ))
+            })?;
+
+        if let Some(container) = &pointer.container {
+            self.target_pointer
+                .replace(Some((Rc::downgrade(container), pointer.index)));
         }
 
-        self.target_pointer.borrow().clone()
+        Ok(pointer)
+    }
+
+    fn resolve_target(self: &Rc<Self>, path: &Path) -> Option<Pointer> {
+        let target_obj = Object::resolve_path(self.clone(), path).obj;
+
+        match path.get_last_component()?.index {
+            Some(index) => Some(Pointer::new(
+                Some(target_obj.get_object().get_parent()?),
+                i32::try_from(index).ok()?,
+            )),
+            None => target_obj
+                .into_any()
+                .downcast::<Container>()
+                .ok()
+                .map(Pointer::start_of),
+        }
     }
 
     pub fn get_target_path(self: &Rc<Self>) -> Option<Path> {
@@ -122,7 +137,7 @@ impl Divert {
         match current_target {
             Some(target_path) => {
                 if target_path.is_relative() {
-                    let target_obj = self.get_target_pointer().resolve();
+                    let target_obj = self.get_target_pointer().ok().and_then(|p| p.resolve());
 
                     if let Some(target_obj) = target_obj {
                         let resolved = Object::get_path(target_obj.as_ref());
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index f064b8d..413a4da 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -56,7 +56,7 @@ pub fn write_rtobject(o: Rc<dyn RTObject>) -> Result<serde_json::Value, StoryErr
         let target_str = if divert.has_variable_target() {
             divert.variable_divert_name.clone().unwrap()
         } else {
-            divert.get_target_path_string().unwrap()
+            divert.get_target_path_string().unwrap_or_default()
         };
 
         let mut jobj: Map<String, serde_json::Value> = Map::new();
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 1c0abed..249874c 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -78,13 +78,13 @@ impl Story {
                 }
             } else if current_divert.is_external {
                 self.call_external_function(
-                    &current_divert.get_target_path_string().unwrap(),
+                    &current_divert.get_target_path_string().unwrap_or_default(),
                     current_divert.external_args,
                 )?;
                 return Ok(true);
             } else {
-                self.get_state_mut()
-                    .set_diverted_pointer(current_divert.get_target_pointer());
+                let target = current_divert.get_target_pointer()?;
+                self.get_state_mut().set_diverted_pointer(target);
             }
 
             if current_divert.pushes_to_stack {
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 7e18d55..9e22589 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -272,7 +272,7 @@ impl Story {
         if let Some(divert) = divert
             && divert.is_external
         {
-            let name = divert.get_target_path_string().unwrap();
+            let name = divert.get_target_path_string().unwrap_or_default();
 
             if !self.externals.contains_key(&name) {
                 if self.allow_external_function_fallbacks {
-- 
2.43.0


From 8ba630d0fdcee42b026bebbfedd47cf4c9e9a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:20 +0000
Subject: [PATCH 28/62] fix: story faults that used to panic are reported as
 errors

---
 runtime/src/callstack.rs           | 28 +++++++++++++++++++---------
 runtime/src/object.rs              | 17 ++++++++++-------
 runtime/src/path.rs                |  2 +-
 runtime/src/story/choices.rs       | 22 +++++++++++++++++++---
 runtime/src/story/control_logic.rs | 21 ++++++++++++++++-----
 runtime/src/story/mod.rs           |  6 +++++-
 runtime/src/story/navigation.rs    |  5 ++++-
 runtime/src/story/progress.rs      |  5 ++++-
 runtime/src/story/tags.rs          |  7 ++++++-
 runtime/src/story_state.rs         | 10 +++++-----
 runtime/src/value.rs               | 16 ++++++++++++++--
 runtime/src/variables_state.rs     |  6 +++---
 12 files changed, 106 insertions(+), 39 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index f953471..eaaf724 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -248,7 +248,7 @@ impl CallStack {
 
     pub fn push_thread(&mut self) {
         let mut new_thread = self.get_current_thread().clone();
-        self.thread_counter += 1;
+        self.thread_counter = self.thread_counter.wrapping_add(1);
         new_thread.thread_index = self.thread_counter;
         self.threads.push(new_thread);
     }
@@ -315,7 +315,7 @@ impl CallStack {
 
     pub fn fork_thread(&mut self) -> Thread {
         let mut forked_thread = self.get_current_thread().clone();
-        self.thread_counter += 1;
+        self.thread_counter = self.thread_counter.wrapping_add(1);
         forked_thread.thread_index = self.thread_counter;
         forked_thread
     }
@@ -331,10 +331,17 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self
-            .get_callstack_mut()
-            .get_mut((context_index - 1) as usize)
-            .unwrap();
+        // The pointer to a temporary variable may outlive its context
+        let Some(context_element) = usize::try_from(context_index)
+            .ok()
+            .and_then(|i| i.checked_sub(1))
+            .and_then(|i| self.get_callstack_mut().get_mut(i))
+        else {
+            return Err(StoryError::InvalidStoryState(format!(
+                "Could not find the context of temporary variable: {}",
+                name
+            )));
+        };
 
         if !declare_new && !context_element.temporary_variables.contains_key(&name) {
             return Err(StoryError::InvalidStoryState(format!(
@@ -380,10 +387,13 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self.get_callstack().get((context_index - 1) as usize);
-        let var_value = context_element.unwrap().temporary_variables.get(name);
+        // The pointer to a temporary variable may outlive its context
+        let context_element = usize::try_from(context_index)
+            .ok()
+            .and_then(|i| i.checked_sub(1))
+            .and_then(|i| self.get_callstack().get(i))?;
 
-        var_value.cloned()
+        context_element.temporary_variables.get(name).cloned()
     }
 
     pub fn push(
diff --git a/runtime/src/object.rs b/runtime/src/object.rs
index d175b05..d7f7a1f 100644
--- a/runtime/src/object.rs
+++ b/runtime/src/object.rs
@@ -116,9 +116,15 @@ impl Object {
                 p = path.get_tail();
             };
 
-            nearest_container.unwrap().content_at_path(&p, 0, -1)
+            match nearest_container {
+                Some(container) => container.content_at_path(&p, 0, -1),
+                None => SearchResult::new(rtobject, true),
+            }
         } else {
-            Object::get_root_container(rtobject).content_at_path(path, 0, -1)
+            match Object::get_root_container(rtobject.clone()) {
+                Some(root) => root.content_at_path(path, 0, -1),
+                None => SearchResult::new(rtobject, true),
+            }
         }
     }
 
@@ -184,17 +190,14 @@ impl Object {
         }
     }
 
-    pub fn get_root_container(rtobject: Rc<dyn RTObject>) -> Rc<Container> {
+    fn get_root_container(rtobject: Rc<dyn RTObject>) -> Option<Rc<Container>> {
         let mut ancestor = rtobject;
 
         while let Some(p) = ancestor.get_object().get_parent() {
             ancestor = p;
         }
 
-        match ancestor.into_any().downcast::<Container>() {
-            Ok(c) => c.clone(),
-            _ => panic!(), // Not possible
-        }
+        ancestor.into_any().downcast::<Container>().ok()
     }
 }
 
diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index b9f86b8..fe6c67f 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -133,7 +133,7 @@ impl Path {
 
         let mut components = Vec::new();
 
-        for i in 0..self.components.len() - upward_moves {
+        for i in 0..self.components.len().saturating_sub(upward_moves) {
             components.push(self.components.get(i).unwrap().clone());
         }
 
diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index e2fab49..388f246 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -25,10 +25,15 @@ impl Story {
         // can create multiple leading edges for the story, each of
         // which has its own context.
         let choice_to_choose = choices.get(choice_index).unwrap();
+        let Some(thread) = choice_to_choose.get_thread_at_generation() else {
+            return Err(StoryError::InvalidStoryState(
+                "The thread that generated the choice is missing".to_owned(),
+            ));
+        };
         self.get_state()
             .get_callstack()
             .borrow_mut()
-            .set_current_thread(choice_to_choose.get_thread_at_generation().unwrap());
+            .set_current_thread(thread);
 
         self.choose_path(&choice_to_choose.target_path, true)?;
 
@@ -77,9 +82,15 @@ impl Story {
 
         // Don't create choice if player has already read this content
         if choice_point.once_only() {
+            let Some(choice_target) = choice_point.get_choice_target() else {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "The target of a choice doesn't exist: {}",
+                    choice_point.get_path_on_choice()
+                )));
+            };
             let visit_count = self
                 .get_state_mut()
-                .visit_count_for_container(choice_point.get_choice_target().as_ref().unwrap());
+                .visit_count_for_container(&choice_target);
             if visit_count > 0 {
                 show_choice = false;
             }
@@ -130,11 +141,16 @@ impl Story {
 
         // Invisible choice may have been generated on a different thread,
         // in which case we need to restore it before we continue
+        let Some(thread) = choice.get_thread_at_generation() else {
+            return Err(StoryError::InvalidStoryState(
+                "The thread that generated the choice is missing".to_owned(),
+            ));
+        };
         self.get_state()
             .get_callstack()
             .as_ref()
             .borrow_mut()
-            .set_current_thread(choice.get_thread_at_generation().unwrap().clone());
+            .set_current_thread(thread);
 
         // If there's a chance that this state will be rolled back to before
         // the invisible choice then make sure that the choice thread is
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 249874c..cc5ee24 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -216,7 +216,7 @@ impl Story {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Found {}, when expected {}",
                             names.get(&pop_type).unwrap(),
-                            expected.unwrap()
+                            expected.unwrap_or_else(|| "end of function".to_owned())
                         )));
                     } else {
                         self.get_state_mut().pop_callstack(None)?; // Does tunnel onwards override by diverting to a new ->->
@@ -298,7 +298,9 @@ impl Story {
                 CommandType::Turns => {
                     let current_turn = self.get_state().current_turn_index;
                     self.get_state_mut()
-                        .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn + 1)));
+                        .push_evaluation_stack(Rc::new(Value::new::<i32>(
+                            current_turn.wrapping_add(1),
+                        )));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
                     let target = self.get_state_mut().pop_evaluation_stack()?;
@@ -424,9 +426,18 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Void::new()));
                 }
                 CommandType::VisitIndex => {
-                    let cpc = self.get_state().get_current_pointer().container.unwrap();
-                    let count = self.get_state_mut().visit_count_for_container(&cpc) - 1; // index
-                    // not count
+                    // index, not count
+                    let count = match self.get_state().get_current_pointer().container {
+                        Some(cpc) => self
+                            .get_state_mut()
+                            .visit_count_for_container(&cpc)
+                            .wrapping_sub(1),
+                        None => {
+                            return Err(StoryError::InvalidStoryState(
+                                "Expected to be in a container for its visit index".to_owned(),
+                            ));
+                        }
+                    };
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(count)));
                 }
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index aa56779..e80b2e5 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -136,7 +136,11 @@ mod misc {
                     ));
                 };
 
-            let seq_container = self.get_state().get_current_pointer().container.unwrap();
+            let Some(seq_container) = self.get_state().get_current_pointer().container else {
+                return Err(StoryError::InvalidStoryState(
+                    "Expected to be in a sequence for shuffle index".to_owned(),
+                ));
+            };
 
             let seq_count = if let Some(v) =
                 Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index 89259a5..e8304c5 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -279,7 +279,10 @@ impl Story {
                     &main_content_container.content_at_path(path, 0, path_length_to_use),
                 );
                 p.container = result.container();
-                p.index = path.get_last_component().unwrap().index.unwrap() as i32;
+                p.index = path
+                    .get_last_component()
+                    .and_then(|c| c.index)
+                    .map_or(-1, |i| i32::try_from(i).unwrap_or(i32::MAX));
 
                 result
             } else {
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 2c102d7..5f97005 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -420,6 +420,9 @@ impl Story {
                 current_content_obj = None;
                 should_add_to_stream = false;
             }
+        } else {
+            // Positioned past the end of a container: nothing to add, just step out
+            should_add_to_stream = false;
         }
 
         // Content to add to evaluation stack or the output stream
@@ -576,7 +579,7 @@ impl Story {
             .get_current_element()
             .current_pointer
             .clone();
-        pointer.index += 1;
+        pointer.index = pointer.index.saturating_add(1);
 
         let mut container = pointer.container.as_ref().unwrap().clone();
 
diff --git a/runtime/src/story/tags.rs b/runtime/src/story/tags.rs
index 5e168fe..4a01fb9 100644
--- a/runtime/src/story/tags.rs
+++ b/runtime/src/story/tags.rs
@@ -31,7 +31,12 @@ impl Story {
         let path = Path::new_with_components_string(Some(path_string));
 
         // Expected to be global story, knot, or stitch
-        let mut flow_container = self.content_at_path(&path).container().unwrap();
+        let Some(mut flow_container) = self.content_at_path(&path).container() else {
+            return Err(StoryError::BadArgument(format!(
+                "There is no knot or stitch at path: {}",
+                path_string
+            )));
+        };
 
         while let Some(first_content) = flow_container.content.first() {
             if let Ok(container) = first_content.clone().into_any().downcast::<Container>() {
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 402656e..1398f77 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -406,7 +406,7 @@ impl StoryState {
 
         if has_patch {
             let curr_count = self.visit_count_for_container(container);
-            let new_count = curr_count + 1;
+            let new_count = curr_count.wrapping_add(1);
             self.patch
                 .as_mut()
                 .unwrap()
@@ -419,7 +419,7 @@ impl StoryState {
                 count = existing_count;
             }
 
-            count += 1;
+            count = count.wrapping_add(1);
             self.visit_counts.insert(container_path_str, count);
         }
     }
@@ -940,7 +940,7 @@ impl StoryState {
         self.set_current_pointer(new_pointer);
 
         if incrementing_turn_index {
-            self.current_turn_index += 1;
+            self.current_turn_index = self.current_turn_index.wrapping_add(1);
         }
 
         Ok(())
@@ -1143,14 +1143,14 @@ impl StoryState {
         if let Some(patch) = self.patch.as_ref()
             && let Some(index) = patch.get_turn_index(container)
         {
-            return Ok(self.current_turn_index - index);
+            return Ok(self.current_turn_index.wrapping_sub(*index));
         }
 
         let container_path_str = Object::get_path(container).to_string();
 
         if self.turn_indices.contains_key(&container_path_str) {
             let index = *self.turn_indices.get(&container_path_str).unwrap();
-            Ok(self.current_turn_index - index)
+            Ok(self.current_turn_index.wrapping_sub(index))
         } else {
             Ok(-1)
         }
diff --git a/runtime/src/value.rs b/runtime/src/value.rs
index 014eed8..d70ab2c 100644
--- a/runtime/src/value.rs
+++ b/runtime/src/value.rs
@@ -280,8 +280,20 @@ impl Value {
                 )),
             },
             ValueType::String(v) => match cast_dest_type {
-                CAST_INT => Ok(Some(Self::new::<i32>(v.string.parse::<i32>().unwrap()))),
-                CAST_FLOAT => Ok(Some(Self::new::<f32>(v.string.parse::<f32>().unwrap()))),
+                CAST_INT => match v.string.parse::<i32>() {
+                    Ok(i) => Ok(Some(Self::new::<i32>(i))),
+                    Err(_) => Err(StoryError::InvalidStoryState(format!(
+                        "Can't cast '{}' to an int",
+                        v.string
+                    ))),
+                },
+                CAST_FLOAT => match v.string.parse::<f32>() {
+                    Ok(f) => Ok(Some(Self::new::<f32>(f))),
+                    Err(_) => Err(StoryError::InvalidStoryState(format!(
+                        "Can't cast '{}' to a float",
+                        v.string
+                    ))),
+                },
                 CAST_STRING => Ok(None),
                 _ => Err(StoryError::InvalidStoryState(
                     "Cast not allowed for string".to_owned(),
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 9a26f33..c97552c 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -59,9 +59,9 @@ impl VariablesState {
         // notifications for changed variables all in one go.
         if let Some(changed_variables_for_batch_obs) = self.changed_variables_for_batch_obs.take() {
             for variable_name in changed_variables_for_batch_obs {
-                let current_value = self.global_variables.get(&variable_name).unwrap();
-
-                changed_vars.insert(variable_name, current_value.value.clone());
+                if let Some(current_value) = self.global_variables.get(&variable_name) {
+                    changed_vars.insert(variable_name, current_value.value.clone());
+                }
             }
         }
 
-- 
2.43.0


From 4f5a916cd42cd7e6baed23f79ec595b07d9a2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:01 +0000
Subject: [PATCH 29/62] fix: a path converted to text and back stays the same
 path

---
 runtime/src/divert.rs |  5 +++++
 runtime/src/object.rs |  5 +++++
 runtime/src/path.rs   | 34 ++++++++++++++++++++--------------
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index b7b29d5..4deb245 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -183,6 +183,11 @@ impl Divert {
             new_path_comps.push(global_path.get_component(down).unwrap().clone());
         }
 
+        // The object itself
+        if new_path_comps.is_empty() {
+            return global_path.clone();
+        }
+
         Path::new(&new_path_comps, true)
     }
 }
diff --git a/runtime/src/object.rs b/runtime/src/object.rs
index d7f7a1f..e057ba1 100644
--- a/runtime/src/object.rs
+++ b/runtime/src/object.rs
@@ -164,6 +164,11 @@ impl Object {
             new_path_comps.push(global_path.get_component(down).unwrap().clone());
         }
 
+        // The object itself
+        if new_path_comps.is_empty() {
+            return global_path.clone();
+        }
+
         Path::new(&new_path_comps, true)
     }
 
diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index fe6c67f..80c7fbd 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -43,7 +43,7 @@ impl Path {
             };
         }
 
-        let mut cs = cs.unwrap().to_string();
+        let mut cs = cs.unwrap();
 
         // When components start with ".", it indicates a relative path, e.g.
         // .^.^.hello.5
@@ -52,30 +52,35 @@ impl Path {
 
         if cs.starts_with('.') {
             is_relative = true;
-            cs = cs[1..].to_string();
+            cs = &cs[1..];
         } else {
             is_relative = false;
         }
 
-        let component_string = cs.split('.');
         let mut components = Vec::new();
 
-        for str in component_string {
-            let index = str.parse::<usize>();
-
-            match index {
-                Ok(index) => components.push(Component::new_i(index)),
-                Err(_) => components.push(Component::new(str)),
+        // A lone "." is the relative path without components
+        if !cs.is_empty() {
+            for str in cs.split('.') {
+                // Only digits are an index ("+5", for instance, is a name)
+                let index = if str.bytes().all(|b| b.is_ascii_digit()) {
+                    str.parse::<usize>().ok()
+                } else {
+                    None
+                };
+
+                match index {
+                    Some(index) => components.push(Component::new_i(index)),
+                    None => components.push(Component::new(str)),
+                }
             }
         }
 
-        let cs_cell = OnceCell::new();
-        let _ = cs_cell.set(cs);
-
+        // The text isn't kept: it may not be the canonical one, e.g. "01" for "1"
         Path {
             components,
             is_relative,
-            components_string: cs_cell,
+            ..Default::default()
         }
     }
 
@@ -186,7 +191,8 @@ impl fmt::Display for Path {
 
 impl Hash for Path {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.to_string().hash(state)
+        self.is_relative.hash(state);
+        self.components.hash(state);
     }
 }
 
-- 
2.43.0


From 1b48e312fce4a8b74cb92ebf4aca206545836a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:22 +0000
Subject: [PATCH 30/62] fix: malformed stories and saves are refused instead of
 causing a panic

---
 runtime/src/callstack.rs       | 126 +++++++++++----------
 runtime/src/flow.rs            |  75 ++++++-------
 runtime/src/json/json_read.rs  | 193 ++++++++++++++++++++++-----------
 runtime/src/story_state.rs     |  47 +++-----
 runtime/src/variables_state.rs |   9 +-
 5 files changed, 246 insertions(+), 204 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index eaaf724..3e372ad 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -63,68 +63,59 @@ impl Thread {
     ) -> Result<Thread, StoryError> {
         let mut thread = Thread::new();
 
-        thread.thread_index = j_obj
-            .get("threadIndex")
-            .and_then(|i| i.as_i64())
-            .ok_or(StoryError::BadJson("Invalid thread index".to_owned()))?
-            as usize;
-
-        if let Some(j_thread_callstack) = j_obj
-            .get("callstack")
-            .and_then(|callstack| callstack.as_array())
-        {
-            for j_el_tok in j_thread_callstack.iter() {
-                if let Some(j_element_obj) = j_el_tok.as_object() {
-                    let push_pop_type = PushPopType::from_value(
-                        j_element_obj
-                            .get("type")
-                            .and_then(|t| t.as_i64())
-                            .ok_or(StoryError::BadJson("Invalid push/pop type".to_owned()))?
-                            as usize,
-                    )?;
-
-                    let mut pointer = pointer::NULL.clone();
-
-                    let current_container_path_str =
-                        j_element_obj.get("cPath").and_then(|c| c.as_str());
-                    if current_container_path_str.is_some() {
-                        let thread_pointer_result = main_content_container.content_at_path(
-                            &Path::new_with_components_string(current_container_path_str),
-                            0,
-                            -1,
-                        );
-
-                        pointer.container = thread_pointer_result.container();
-                        let pointer_index = j_element_obj
-                            .get("idx")
-                            .and_then(|i| i.as_i64())
-                            .ok_or(StoryError::BadJson("Invalid pointer index".to_owned()))?
-                            as i32;
-                        pointer.index = pointer_index;
-
-                        if thread_pointer_result.approximate {
-                            // TODO warning not accessible from here
-                            // story_context.warning(format!("When loading state, exact internal story location couldn't be found: '{}', so it was approximated to '{}' to recover. Has the story changed since this save data was created?", current_container_path_str, pointer_container.get_path().to_string()));
-                        }
-                    }
-
-                    let in_expression_evaluation = j_element_obj
-                        .get("exp")
-                        .and_then(|exp| exp.as_bool())
-                        .unwrap_or(false);
-
-                    let mut el = Element::new(push_pop_type, pointer, in_expression_evaluation);
-
-                    if let Some(temps) = j_element_obj.get("temp").and_then(|temp| temp.as_object())
-                    {
-                        el.temporary_variables = json_read::jobject_to_hashmap_values(temps)?;
-                    } else {
-                        el.temporary_variables.clear();
-                    }
-
-                    thread.callstack.push(el);
+        thread.thread_index =
+            json_read::jtoken_to_usize(json_read::jobject_get(j_obj, "threadIndex")?)?;
+
+        let j_thread_callstack =
+            json_read::jtoken_to_array(json_read::jobject_get(j_obj, "callstack")?)?;
+
+        if j_thread_callstack.is_empty() {
+            return Err(StoryError::BadJson(
+                "A thread with an empty callstack".to_owned(),
+            ));
+        }
+
+        for j_el_tok in j_thread_callstack.iter() {
+            let j_element_obj = json_read::jtoken_to_object(j_el_tok)?;
+            let push_pop_type = PushPopType::from_value(json_read::jtoken_to_usize(
+                json_read::jobject_get(j_element_obj, "type")?,
+            )?)?;
+
+            let mut pointer = pointer::NULL.clone();
+
+            let current_container_path_str = j_element_obj.get("cPath").and_then(|c| c.as_str());
+            if current_container_path_str.is_some() {
+                let thread_pointer_result = main_content_container.content_at_path(
+                    &Path::new_with_components_string(current_container_path_str),
+                    0,
+                    -1,
+                );
+
+                pointer.container = thread_pointer_result.container();
+                let pointer_index =
+                    json_read::jtoken_to_i32(json_read::jobject_get(j_element_obj, "idx")?)?;
+                pointer.index = pointer_index;
+
+                if thread_pointer_result.approximate {
+                    // TODO warning not accessible from here
+                    // story_context.warning(format!("When loading state, exact internal story location couldn't be found: '{}', so it was approximated to '{}' to recover. Has the story changed since this save data was created?", current_container_path_str, pointer_container.get_path().to_string()));
                 }
             }
+
+            let in_expression_evaluation = j_element_obj
+                .get("exp")
+                .and_then(|exp| exp.as_bool())
+                .unwrap_or(false);
+
+            let mut el = Element::new(push_pop_type, pointer, in_expression_evaluation);
+
+            if let Some(temps) = j_element_obj.get("temp").and_then(|temp| temp.as_object()) {
+                el.temporary_variables = json_read::jobject_to_hashmap_values(temps)?;
+            } else {
+                el.temporary_variables.clear();
+            }
+
+            thread.callstack.push(el);
         }
 
         if let Some(prev_content_obj_path) =
@@ -440,15 +431,22 @@ impl CallStack {
     ) -> Result<(), StoryError> {
         self.threads.clear();
 
-        let j_threads = j_obj.get("threads").unwrap();
+        let j_threads = json_read::jtoken_to_array(json_read::jobject_get(j_obj, "threads")?)?;
+
+        if j_threads.is_empty() {
+            return Err(StoryError::BadJson(
+                "A callstack without threads".to_owned(),
+            ));
+        }
 
-        for j_thread_tok in j_threads.as_array().unwrap().iter() {
-            let j_thread_obj = j_thread_tok.as_object().unwrap();
+        for j_thread_tok in j_threads.iter() {
+            let j_thread_obj = json_read::jtoken_to_object(j_thread_tok)?;
             let thread = Thread::from_json(main_content_container, j_thread_obj)?;
             self.threads.push(thread);
         }
 
-        self.thread_counter = j_obj.get("threadCounter").unwrap().as_i64().unwrap() as usize;
+        self.thread_counter =
+            json_read::jtoken_to_usize(json_read::jobject_get(j_obj, "threadCounter")?)?;
         self.start_of_root = Pointer::start_of(main_content_container.clone()).clone();
 
         Ok(())
diff --git a/runtime/src/flow.rs b/runtime/src/flow.rs
index fb190fb..bd96ec1 100644
--- a/runtime/src/flow.rs
+++ b/runtime/src/flow.rs
@@ -38,33 +38,17 @@ impl Flow {
             name: name.to_string(),
             callstack: Rc::new(RefCell::new(CallStack::new(main_content_container.clone()))),
             output_stream: json_read::jarray_to_runtime_obj_list(
-                j_obj
-                    .get("outputStream")
-                    .ok_or(StoryError::BadJson("outputStream not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
+                json_read::jtoken_to_array(json_read::jobject_get(j_obj, "outputStream")?)?,
                 false,
             )?,
-            current_choices: json_read::jarray_to_runtime_obj_list(
-                j_obj
-                    .get("currentChoices")
-                    .ok_or(StoryError::BadJson("currentChoices not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
-                false,
-            )?
-            .iter()
-            .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-            .collect::<Vec<Rc<Choice>>>(),
+            current_choices: json_read::jarray_to_choices(json_read::jtoken_to_array(
+                json_read::jobject_get(j_obj, "currentChoices")?,
+            )?)?,
         };
 
         flow.callstack.borrow_mut().load_json(
             &main_content_container,
-            j_obj
-                .get("callstack")
-                .ok_or(StoryError::BadJson("loading callstack".to_owned()))?
-                .as_object()
-                .unwrap(),
+            json_read::jtoken_to_object(json_read::jobject_get(j_obj, "callstack")?)?,
         )?;
         let j_choice_threads = j_obj.get("choiceThreads");
 
@@ -91,8 +75,11 @@ impl Flow {
         let mut has_choice_threads = false;
         let mut jct: Map<String, serde_json::Value> = Map::new();
         for c in self.current_choices.iter() {
-            c.original_thread_index
-                .replace(c.get_thread_at_generation().unwrap().thread_index);
+            let Some(thread) = c.get_thread_at_generation() else {
+                continue;
+            };
+
+            c.original_thread_index.replace(thread.thread_index);
 
             if self
                 .callstack
@@ -106,7 +93,7 @@ impl Flow {
 
                 jct.insert(
                     c.original_thread_index.borrow().to_string(),
-                    c.get_thread_at_generation().unwrap().write_json()?,
+                    thread.write_json()?,
                 );
             }
         }
@@ -144,25 +131,29 @@ impl Flow {
         j_choice_threads: Option<&serde_json::Value>,
         main_content_container: Rc<Container>,
     ) -> Result<(), StoryError> {
-        for choice in self.current_choices.iter_mut() {
-            self.callstack
+        for choice in self.current_choices.iter() {
+            let index = *choice.original_thread_index.borrow();
+            let thread = self
+                .callstack
                 .borrow()
-                .get_thread_with_index(*choice.original_thread_index.borrow())
-                .map(|o| choice.set_thread_at_generation(o.clone()))
-                .or_else(|| {
-                    let j_saved_choice_thread = j_choice_threads
-                        .and_then(|c| c.get(choice.original_thread_index.borrow().to_string()))
-                        .ok_or("loading choice threads")
-                        .unwrap();
-                    choice.set_thread_at_generation(
-                        Thread::from_json(
-                            &main_content_container,
-                            j_saved_choice_thread.as_object().unwrap(),
-                        )
-                        .unwrap(),
-                    );
-                    Some(())
-                });
+                .get_thread_with_index(index)
+                .cloned();
+
+            let thread = match thread {
+                Some(thread) => thread,
+                None => {
+                    let j_thread = j_choice_threads
+                        .and_then(|c| c.get(index.to_string()))
+                        .ok_or_else(|| StoryError::BadJson("loading choice threads".to_owned()))?;
+
+                    Thread::from_json(
+                        &main_content_container,
+                        json_read::jtoken_to_object(j_thread)?,
+                    )?
+                }
+            };
+
+            choice.set_thread_at_generation(thread);
         }
 
         Ok(())
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 5b069aa..f900bb1 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -42,7 +42,7 @@ pub fn load_from_string(
         ));
     }
 
-    let version: i32 = version_opt.unwrap().as_i64().unwrap().try_into().unwrap();
+    let version = jtoken_to_i32(version_opt.unwrap())?;
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -85,6 +85,73 @@ pub fn load_from_string(
     Ok((version, main_content_container, list_definitions))
 }
 
+fn jtoken_to_str(token: &serde_json::Value) -> Result<&str, StoryError> {
+    token
+        .as_str()
+        .ok_or_else(|| StoryError::BadJson(format!("Expected a string but saw: {}", token)))
+}
+
+pub(crate) fn jtoken_to_i32(token: &serde_json::Value) -> Result<i32, StoryError> {
+    token
+        .as_i64()
+        .and_then(|i| i32::try_from(i).ok())
+        .ok_or_else(|| StoryError::BadJson(format!("Expected an integer but saw: {}", token)))
+}
+
+pub(crate) fn jtoken_to_usize(token: &serde_json::Value) -> Result<usize, StoryError> {
+    token
+        .as_u64()
+        .and_then(|i| usize::try_from(i).ok())
+        .ok_or_else(|| StoryError::BadJson(format!("Expected an index but saw: {}", token)))
+}
+
+pub(crate) fn jtoken_to_array(
+    token: &serde_json::Value,
+) -> Result<&[serde_json::Value], StoryError> {
+    token
+        .as_array()
+        .map(|a| a.as_slice())
+        .ok_or_else(|| StoryError::BadJson(format!("Expected an array but saw: {}", token)))
+}
+
+pub(crate) fn jtoken_to_object(
+    token: &serde_json::Value,
+) -> Result<&Map<String, serde_json::Value>, StoryError> {
+    token
+        .as_object()
+        .ok_or_else(|| StoryError::BadJson(format!("Expected an object but saw: {}", token)))
+}
+
+/// The value of a key that has to be there
+pub(crate) fn jobject_get<'a>(
+    obj: &'a Map<String, serde_json::Value>,
+    key: &str,
+) -> Result<&'a serde_json::Value, StoryError> {
+    obj.get(key)
+        .ok_or_else(|| StoryError::BadJson(format!("{} not found", key)))
+}
+
+pub(crate) fn jtoken_to_value(token: &serde_json::Value) -> Result<Rc<Value>, StoryError> {
+    jtoken_to_runtime_object(token, None)?
+        .into_any()
+        .downcast::<Value>()
+        .map_err(|_| StoryError::BadJson(format!("Expected a value but saw: {}", token)))
+}
+
+pub(crate) fn jarray_to_choices(
+    jarray: &[serde_json::Value],
+) -> Result<Vec<Rc<Choice>>, StoryError> {
+    jarray
+        .iter()
+        .map(|token| {
+            jtoken_to_runtime_object(token, None)?
+                .into_any()
+                .downcast::<Choice>()
+                .map_err(|_| StoryError::BadJson(format!("Expected a choice but saw: {}", token)))
+        })
+        .collect()
+}
+
 pub fn jtoken_to_runtime_object(
     token: &serde_json::Value,
     name: Option<String>,
@@ -96,12 +163,11 @@ pub fn jtoken_to_runtime_object(
         ))),
         serde_json::Value::Bool(value) => Ok(Rc::new(Value::new::<bool>(value.to_owned()))),
         serde_json::Value::Number(_) => {
-            if token.is_i64() {
-                let val: i32 = token.as_i64().unwrap().try_into().unwrap();
-                Ok(Rc::new(Value::new::<i32>(val)))
-            } else {
-                let val: f32 = token.as_f64().unwrap() as f32;
+            if token.is_f64() {
+                let val = token.as_f64().unwrap_or_default() as f32;
                 Ok(Rc::new(Value::new::<f32>(val)))
+            } else {
+                Ok(Rc::new(Value::new::<i32>(jtoken_to_i32(token)?)))
             }
         }
 
@@ -109,10 +175,9 @@ pub fn jtoken_to_runtime_object(
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(Rc::new(Value::new::<&str>(&str[1..])));
-            } else if first_char == '\n' && str.len() == 1 {
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(Rc::new(Value::new::<&str>(text)));
+            } else if "\n".eq(str) {
                 return Ok(Rc::new(Value::new::<&str>("\n")));
             }
 
@@ -159,7 +224,7 @@ pub fn jtoken_to_runtime_object(
 
             if let Some(prop_value) = prop_value {
                 return Ok(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
+                    Path::new_with_components_string(Some(jtoken_to_str(prop_value)?)),
                 )));
             }
 
@@ -167,12 +232,12 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("^var");
 
             if let Some(v) = prop_value {
-                let variable_name = v.as_str().unwrap();
+                let variable_name = jtoken_to_str(v)?;
                 let mut contex_index = -1;
                 let prop_value = obj.get("ci");
 
                 if let Some(v) = prop_value {
-                    contex_index = v.as_i64().unwrap() as i32;
+                    contex_index = jtoken_to_i32(v)?;
                 }
 
                 let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
@@ -213,8 +278,8 @@ pub fn jtoken_to_runtime_object(
                 }
             }
 
-            if is_divert {
-                let target = prop_value.unwrap().as_str().unwrap().to_string();
+            if is_divert && let Some(target) = prop_value {
+                let target = jtoken_to_str(target)?.to_string();
 
                 let mut var_divert_name: Option<String> = None;
                 let mut target_path: Option<String> = None;
@@ -234,7 +299,7 @@ pub fn jtoken_to_runtime_object(
                 if external {
                     prop_value = obj.get("exArgs");
                     if let Some(prop_value) = prop_value {
-                        external_args = prop_value.as_i64().unwrap() as usize;
+                        external_args = jtoken_to_usize(prop_value)?;
                     }
                 }
 
@@ -253,28 +318,25 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("*");
             if let Some(cp) = prop_value {
                 let mut flags = 0;
-                let path_string_on_choice = cp.as_str().unwrap();
+                let path_string_on_choice = jtoken_to_str(cp)?;
                 let prop_value = obj.get("flg");
                 if let Some(f) = prop_value {
-                    flags = f.as_u64().unwrap();
+                    flags = jtoken_to_i32(f)?;
                 }
 
-                return Ok(Rc::new(ChoicePoint::new(
-                    flags as i32,
-                    path_string_on_choice,
-                )));
+                return Ok(Rc::new(ChoicePoint::new(flags, path_string_on_choice)));
             }
 
             // // Variable reference
             let prop_value = obj.get("VAR?");
             if let Some(name) = prop_value {
-                return Ok(Rc::new(VariableReference::new(name.as_str().unwrap())));
+                return Ok(Rc::new(VariableReference::new(jtoken_to_str(name)?)));
             }
 
             let prop_value = obj.get("CNT?");
             if let Some(v) = prop_value {
                 return Ok(Rc::new(VariableReference::from_path_for_count(
-                    v.as_str().unwrap(),
+                    jtoken_to_str(v)?,
                 )));
             }
 
@@ -297,8 +359,8 @@ pub fn jtoken_to_runtime_object(
                 }
             }
 
-            if is_var_ass {
-                let var_name = prop_value.unwrap().as_str().unwrap();
+            if is_var_ass && let Some(var_name) = prop_value {
+                let var_name = jtoken_to_str(var_name)?;
                 let prop_value = obj.get("re");
                 let is_new_decl = prop_value.is_none();
 
@@ -313,32 +375,30 @@ pub fn jtoken_to_runtime_object(
             // Legacy Tag
             prop_value = obj.get("#");
             if let Some(prop_value) = prop_value {
-                return Ok(Rc::new(Tag::new(prop_value.as_str().unwrap())));
+                return Ok(Rc::new(Tag::new(jtoken_to_str(prop_value)?)));
             }
 
             // List value
             prop_value = obj.get("list");
 
             if let Some(pv) = prop_value {
-                let list_content = pv.as_object().unwrap();
+                let list_content = jtoken_to_object(pv)?;
                 let mut raw_list = InkList::new();
 
                 prop_value = obj.get("origins");
 
                 if let Some(o) = prop_value {
-                    let names_as_objs = o.as_array().unwrap();
-
-                    let names = names_as_objs
+                    let names = jtoken_to_array(o)?
                         .iter()
-                        .map(|e| e.as_str().unwrap().to_string())
-                        .collect();
+                        .map(|e| Ok(jtoken_to_str(e)?.to_string()))
+                        .collect::<Result<_, StoryError>>()?;
 
                     raw_list.set_initial_origin_names(names);
                 }
 
                 for (k, v) in list_content {
                     let item = InkListItem::from_full_name(k);
-                    raw_list.items.insert(item, v.as_i64().unwrap() as i32);
+                    raw_list.items.insert(item, jtoken_to_i32(v)?);
                 }
 
                 return Ok(Rc::new(Value::new::<InkList>(raw_list)));
@@ -365,7 +425,14 @@ fn jarray_to_container(
     //  - named content
     //  - a "#f" key with the countFlags
     // (if either exists at all, otherwise null)
-    let terminating_obj = jarray[jarray.len() - 1].as_object();
+    let terminating_obj = match jarray.last() {
+        Some(last) => last.as_object(),
+        None => {
+            return Err(StoryError::BadJson(
+                "A container has to end with its named content or null".to_owned(),
+            ));
+        }
+    };
     let mut name: Option<String> = name;
     let mut flags = 0;
 
@@ -374,16 +441,25 @@ fn jarray_to_container(
     if let Some(terminating_obj) = terminating_obj {
         for (k, v) in terminating_obj {
             match k.as_str() {
-                "#f" => flags = v.as_i64().unwrap().try_into().unwrap(),
-                "#n" => name = Some(v.as_str().unwrap().to_string()),
+                "#f" => flags = jtoken_to_i32(v)?,
+                "#n" => name = Some(jtoken_to_str(v)?.to_string()),
+                "" => {
+                    return Err(StoryError::BadJson(
+                        "Named content without a name".to_owned(),
+                    ));
+                }
                 k => {
-                    let named_content_item =
-                        jtoken_to_runtime_object(v, Some(k.to_string())).unwrap();
+                    let named_content_item = jtoken_to_runtime_object(v, Some(k.to_string()))?;
 
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| {
+                            StoryError::BadJson(format!(
+                                "Expected the named content '{}' to be a container",
+                                k
+                            ))
+                        })?;
 
                     named_only_content.insert(k.to_string(), named_sub_container);
                 }
@@ -421,12 +497,12 @@ pub fn jarray_to_runtime_obj_list(
 }
 
 fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTObject>, StoryError> {
-    let text = obj.get("text").unwrap().as_str().unwrap();
-    let index = obj.get("index").unwrap().as_u64().unwrap() as usize;
-    let source_path = obj.get("originalChoicePath").unwrap().as_str().unwrap();
-    let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
-    let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
-    let choice_tags = jarray_to_tags(obj);
+    let text = jtoken_to_str(jobject_get(obj, "text")?)?;
+    let index = jtoken_to_usize(jobject_get(obj, "index")?)?;
+    let source_path = jtoken_to_str(jobject_get(obj, "originalChoicePath")?)?;
+    let original_thread_index = jtoken_to_usize(jobject_get(obj, "originalThreadIndex")?)?;
+    let path_string_on_choice = jtoken_to_str(jobject_get(obj, "targetPath")?)?;
+    let choice_tags = jarray_to_tags(obj)?;
     let is_invisible_default = obj
         .get("isInvisibleDefault")
         .and_then(|v| v.as_bool())
@@ -443,18 +519,17 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     )))
 }
 
-fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Vec<String> {
+fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Result<Vec<String>, StoryError> {
     let mut tags: Vec<String> = Vec::new();
 
     let prop_value = obj.get("tags");
     if let Some(pv) = prop_value {
-        let tags_array = pv.as_array().unwrap();
-        for tag in tags_array {
-            tags.push(tag.as_str().unwrap().to_string());
+        for tag in jtoken_to_array(pv)? {
+            tags.push(jtoken_to_str(tag)?.to_string());
         }
     }
 
-    tags
+    Ok(tags)
 }
 
 pub fn jtoken_to_list_definitions(
@@ -462,11 +537,11 @@ pub fn jtoken_to_list_definitions(
 ) -> Result<ListDefinitionsOrigin, StoryError> {
     let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
 
-    for (name, list_def_json) in def.as_object().unwrap() {
+    for (name, list_def_json) in jtoken_to_object(def)? {
         // Cast (string, object) to (string, int) for items
         let mut items: HashMap<String, i32> = HashMap::new();
-        for (k, v) in list_def_json.as_object().unwrap() {
-            items.insert(k.clone(), v.as_u64().unwrap() as i32);
+        for (k, v) in jtoken_to_object(list_def_json)? {
+            items.insert(k.clone(), jtoken_to_i32(v)?);
         }
 
         let def = ListDefinition::new(name.clone(), items);
@@ -482,13 +557,7 @@ pub(crate) fn jobject_to_hashmap_values(
     let mut dict: HashMap<String, Rc<Value>> = HashMap::new();
 
     for (k, v) in jobj.iter() {
-        dict.insert(
-            k.clone(),
-            jtoken_to_runtime_object(v, None)?
-                .into_any()
-                .downcast::<Value>()
-                .unwrap(),
-        );
+        dict.insert(k.clone(), jtoken_to_value(v)?);
     }
 
     Ok(dict)
@@ -500,7 +569,7 @@ pub(crate) fn jobject_to_int_hashmap(
     let mut dict: HashMap<String, i32> = HashMap::new();
 
     for (k, v) in jobj.iter() {
-        dict.insert(k.clone(), v.as_i64().unwrap() as i32);
+        dict.insert(k.clone(), jtoken_to_i32(v)?);
     }
 
     Ok(dict)
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 1398f77..de85d96 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1356,12 +1356,12 @@ impl StoryState {
 
             if let Some(named_flows) = &mut self.named_flows
                 && named_flows.len() > 1
-                && let Some(current_flow_name) = j_object.get("currentFlowName")
-                && let Some(curr_flow_name) = current_flow_name.as_str()
-                && let Some(curr_flow) = named_flows.get(curr_flow_name)
             {
-                self.current_flow = curr_flow.clone();
-                named_flows.remove(curr_flow_name);
+                self.current_flow = j_object
+                    .get("currentFlowName")
+                    .and_then(|name| name.as_str())
+                    .and_then(|name| named_flows.remove(name))
+                    .ok_or_else(|| StoryError::BadJson("Invalid current flow name".to_string()))?;
             }
         }
         // Old format: individually load up callstack, output stream, choices in
@@ -1379,19 +1379,14 @@ impl StoryState {
 
             if let Some(output_stream_obj) = j_object.get("outputStream") {
                 self.current_flow.output_stream = json_read::jarray_to_runtime_obj_list(
-                    output_stream_obj.as_array().unwrap(),
+                    json_read::jtoken_to_array(output_stream_obj)?,
                     false,
                 )?;
             }
 
             if let Some(current_choices_obj) = j_object.get("currentChoices") {
-                self.current_flow.current_choices = json_read::jarray_to_runtime_obj_list(
-                    current_choices_obj.as_array().unwrap(),
-                    false,
-                )?
-                .iter()
-                .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-                .collect();
+                self.current_flow.current_choices =
+                    json_read::jarray_to_choices(json_read::jtoken_to_array(current_choices_obj)?)?;
             }
 
             let j_choice_threads_obj = j_object.get("choiceThreads");
@@ -1409,13 +1404,16 @@ impl StoryState {
                 .load_json(variables_state_obj.as_object().ok_or_else(|| {
                     StoryError::BadJson("Invalid variables state object".to_string())
                 })?)?;
-            self.variables_state
-                .set_callstack(self.current_flow.callstack.clone());
         }
 
+        self.variables_state
+            .set_callstack(self.current_flow.callstack.clone());
+
         if let Some(eval_stack_obj) = j_object.get("evalStack") {
-            self.evaluation_stack =
-                json_read::jarray_to_runtime_obj_list(eval_stack_obj.as_array().unwrap(), false)?;
+            self.evaluation_stack = json_read::jarray_to_runtime_obj_list(
+                json_read::jtoken_to_array(eval_stack_obj)?,
+                false,
+            )?;
         }
 
         if let Some(current_divert_target_path) = j_object.get("currentDivertTarget") {
@@ -1439,25 +1437,16 @@ impl StoryState {
         }
 
         if let Some(current_turn_index) = j_object.get("turnIdx") {
-            self.current_turn_index = current_turn_index
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid current turn index".to_string()))?
-                as i32;
+            self.current_turn_index = json_read::jtoken_to_i32(current_turn_index)?;
         }
 
         if let Some(story_seed) = j_object.get("storySeed") {
-            self.story_seed = story_seed
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid story seed".to_string()))?
-                as i32;
+            self.story_seed = json_read::jtoken_to_i32(story_seed)?;
         }
 
         // Not optional, but bug in inkjs means it's actually missing in inkjs saves
         if let Some(previous_random_obj) = j_object.get("previousRandom") {
-            self.previous_random = previous_random_obj
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid previous random value".to_string()))?
-                as i32;
+            self.previous_random = json_read::jtoken_to_i32(previous_random_obj)?;
         } else {
             self.previous_random = 0;
         }
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index c97552c..5e2b188 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -399,13 +399,8 @@ impl VariablesState {
             let loaded_token = jobj.get(k);
 
             if let Some(loaded_token) = loaded_token {
-                self.global_variables.insert(
-                    k.to_string(),
-                    json_read::jtoken_to_runtime_object(loaded_token, None)?
-                        .into_any()
-                        .downcast::<Value>()
-                        .unwrap(),
-                );
+                self.global_variables
+                    .insert(k.to_string(), json_read::jtoken_to_value(loaded_token)?);
             } else {
                 self.global_variables.insert(k.clone(), v.clone());
             }
-- 
2.43.0


From e4d8bbcbe924b23aa2ce95789921aa7dae01591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:57 +0000
Subject: [PATCH 31/62] fix: the streaming loader reads the same stories as the
 default one

---
 runtime/src/json/json_read_stream.rs | 624 ++++++++-------------------
 runtime/src/json/json_tokenizer.rs   | 349 +++++----------
 2 files changed, 274 insertions(+), 699 deletions(-)

diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index f647837..e3f2b5f 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -4,30 +4,17 @@
 
 use std::{collections::HashMap, rc::Rc};
 
+use serde_json::{Map, Value};
+
 use crate::{
-    choice_point::ChoicePoint,
     container::Container,
-    control_command::ControlCommand,
-    divert::Divert,
-    glue::Glue,
-    ink_list::InkList,
-    ink_list_item::InkListItem,
-    list_definition::ListDefinition,
     list_definitions_origin::ListDefinitionsOrigin,
-    native_function_call::NativeFunctionCall,
     object::RTObject,
-    path::Path,
-    push_pop::PushPopType,
     story::{INK_VERSION_CURRENT, INK_VERSION_MINIMUM_COMPATIBLE},
     story_error::StoryError,
-    tag::Tag,
-    value::Value,
-    variable_assigment::VariableAssignment,
-    variable_reference::VariableReference,
-    void::Void,
 };
 
-use super::json_tokenizer::{JsonTokenizer, JsonValue};
+use super::{json_read, json_tokenizer::JsonTokenizer};
 
 pub fn load_from_string(
     s: &str,
@@ -40,17 +27,50 @@ pub fn load_from_string(
 fn parse(
     tok: &mut JsonTokenizer,
 ) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
-    tok.expect('{')?;
+    let mut version = None;
+    let mut root = None;
+    let mut list_defs = None;
+
+    let mut first = true;
+    tok.begin('{')?;
+
+    while tok.next_item('}', first)? {
+        first = false;
+
+        match tok.read_obj_key()?.as_str() {
+            "inkVersion" => {
+                let value = tok.read_value()?;
+                version = value
+                    .is_number()
+                    .then(|| json_read::jtoken_to_i32(&value))
+                    .transpose()?;
+            }
+            "root" => {
+                root = match tok.peek()? {
+                    '[' => Some(read_container(tok, None)?),
+                    _ => {
+                        return Err(StoryError::BadJson(
+                            "Root node for ink is not a container?".to_owned(),
+                        ));
+                    }
+                };
+            }
+            "listDefs" => {
+                list_defs = Some(json_read::jtoken_to_list_definitions(&tok.read_value()?)?);
+            }
+            _ => {
+                tok.read_value()?;
+            }
+        }
+    }
 
-    let version_key = tok.read_obj_key()?;
+    tok.expect_end()?;
 
-    if version_key != "inkVersion" {
+    let Some(version) = version else {
         return Err(StoryError::BadJson(
             "ink version number not found. Are you sure it's a valid .ink.json file?".to_owned(),
         ));
-    }
-
-    let version: i32 = tok.read_number().unwrap().as_integer().unwrap();
+    };
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -63,490 +83,194 @@ fn parse(
         ));
     }
 
-    tok.expect(',')?;
-
-    let root_key = tok.read_obj_key()?;
-
-    if root_key != "root" {
+    let Some(root) = root else {
         return Err(StoryError::BadJson(
             "Root node for ink not found. Are you sure it's a valid .ink.json file?".to_owned(),
         ));
-    }
-
-    let root_value = tok.read_value()?;
-    let main_content_container = match jtoken_to_runtime_object(tok, root_value, None)? {
-        ArrayElement::RTObject(rt_obj) => rt_obj,
-        _ => {
-            return Err(StoryError::BadJson(
-                "Root node for ink is not a container?".to_owned(),
-            ));
-        }
     };
 
-    let main_content_container = main_content_container.into_any().downcast::<Container>();
-
-    if main_content_container.is_err() {
-        return Err(StoryError::BadJson(
-            "Root node for ink is not a container?".to_owned(),
-        ));
-    };
-
-    let main_content_container = main_content_container.unwrap(); // unwrap: checked for err above
-
-    tok.expect(',')?;
-    let list_defs_key = tok.read_obj_key()?;
-
-    if list_defs_key != "listDefs" {
+    let Some(list_defs) = list_defs else {
         return Err(StoryError::BadJson(
             "List Definitions node for ink not found. Are you sure it's a valid .ink.json file?"
                 .to_owned(),
         ));
-    }
-
-    let list_defs = Rc::new(jtoken_to_list_definitions(tok)?);
-
-    tok.expect('}')?;
+    };
 
-    Ok((version, main_content_container, list_defs))
+    Ok((version, root, Rc::new(list_defs)))
 }
 
-enum ArrayElement {
-    RTObject(Rc<dyn RTObject>),
-    LastElement(i32, Option<String>, HashMap<String, Rc<Container>>),
-    NullElement,
+/// The value of a property of an object. Only what can be the content of a container is
+/// loaded as such: the rest is small.
+enum Property {
+    Container(Rc<Container>),
+    Other(Value),
 }
 
-type RuntimeObjectList = Vec<Rc<dyn RTObject>>;
-type RuntimeObjectListResult = Result<(RuntimeObjectList, Option<ArrayElement>), StoryError>;
+/// The end of a container: its count flags, its name, and its named content
+type Terminator = (i32, Option<String>, HashMap<String, Rc<Container>>);
 
-fn jtoken_to_runtime_object(
+fn read_container(
     tok: &mut JsonTokenizer,
-    value: JsonValue,
     name: Option<String>,
-) -> Result<ArrayElement, StoryError> {
-    match value {
-        JsonValue::Null => Ok(ArrayElement::NullElement),
-        JsonValue::Boolean(value) => Ok(ArrayElement::RTObject(Rc::new(Value::new::<bool>(value)))),
-        JsonValue::Number(value) => {
-            if value.is_integer() {
-                let val: i32 = value.as_integer().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<i32>(val))))
-            } else {
-                let val: f32 = value.as_float().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<f32>(val))))
-            }
-        }
-        JsonValue::String(value) => {
-            let str = value.as_str();
-
-            // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(
-                    &str[1..],
-                ))));
-            } else if first_char == '\n' && str.len() == 1 {
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>("\n"))));
-            }
-
-            // Glue
-            if "<>".eq(str) {
-                return Ok(ArrayElement::RTObject(Rc::new(Glue::new())));
-            }
-
-            if let Some(control_command) = ControlCommand::new_from_name(str) {
-                return Ok(ArrayElement::RTObject(Rc::new(control_command)));
-            }
-
-            // Native functions
-            // "^" conflicts with the way to identify strings, so now
-            // we know it's not a string, we can convert back to the proper
-            // symbol for the operator.
-            let mut call_str = str;
-            if "L^".eq(str) {
-                call_str = "^";
-            }
-            if let Some(native_function_call) = NativeFunctionCall::new_from_name(call_str) {
-                return Ok(ArrayElement::RTObject(Rc::new(native_function_call)));
-            }
-
-            // Void
-            if "void".eq(str) {
-                return Ok(ArrayElement::RTObject(Rc::new(Void::new())));
-            }
-
-            Err(StoryError::BadJson(format!(
-                "Failed to convert token to runtime RTObject: {}",
-                str
-            )))
-        }
-        JsonValue::Array => Ok(ArrayElement::RTObject(jarray_to_container(tok, name)?)),
-        JsonValue::Object => {
-            let prop = tok.read_obj_key()?;
-            let prop_value = tok.read_value()?;
-
-            // Divert target value to path
-            if prop == "^->" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
-                ))));
-            }
-
-            // // VariablePointerValue
-            if prop == "^var" {
-                let variable_name = prop_value.as_str().unwrap();
-                let mut contex_index = -1;
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("ci")?;
-                    contex_index = tok.read_number().unwrap().as_integer().unwrap();
-                }
-
-                let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(var_ptr));
-            }
-
-            // // Divert
-            let mut is_divert = false;
-            let mut pushes_to_stack = false;
-            let mut div_push_type = PushPopType::Function;
-            let mut external = false;
-
-            if prop == "->" {
-                is_divert = true;
-            } else if prop == "f()" {
-                is_divert = true;
-                pushes_to_stack = true;
-                div_push_type = PushPopType::Function;
-            } else if prop == "->t->" {
-                is_divert = true;
-                pushes_to_stack = true;
-                div_push_type = PushPopType::Tunnel;
-            } else if prop == "x()" {
-                is_divert = true;
-                external = true;
-                pushes_to_stack = false;
-                div_push_type = PushPopType::Function;
-            }
-
-            if is_divert {
-                let target = prop_value.as_str().unwrap().to_string();
-
-                let mut var_divert_name: Option<String> = None;
-                let mut target_path: Option<String> = None;
-
-                let mut conditional = false;
-                let mut external_args = 0;
-
-                while tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    let prop = tok.read_obj_key()?;
-                    let prop_value = tok.read_value()?;
-
-                    // Variable target
-                    if prop == "var" {
-                        var_divert_name = Some(target.clone());
-                    } else if prop == "c" {
-                        conditional = true;
-                    } else if prop == "exArgs" {
-                        external_args = prop_value.as_integer().unwrap() as usize;
-                    }
-                }
-
-                if var_divert_name.is_none() {
-                    target_path = Some(target);
-                }
-
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Divert::new(
-                    pushes_to_stack,
-                    div_push_type,
-                    external,
-                    external_args,
-                    conditional,
-                    var_divert_name,
-                    target_path.as_deref(),
-                ))));
-            }
-
-            // Choice
-            if prop == "*" {
-                let mut flags = 0;
-                let path_string_on_choice = prop_value.as_str().unwrap();
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("flg")?;
-                    flags = tok.read_number().unwrap().as_integer().unwrap();
-                }
-
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(ChoicePoint::new(
-                    flags,
-                    path_string_on_choice,
-                ))));
-            }
-
-            // Variable reference
-            if prop == "VAR?" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(VariableReference::new(
-                    prop_value.as_str().unwrap(),
-                ))));
-            }
-
-            if prop == "CNT?" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(
-                    VariableReference::from_path_for_count(prop_value.as_str().unwrap()),
-                )));
-            }
+) -> Result<Rc<Container>, StoryError> {
+    tok.begin('[')?;
 
-            // Variable assignment
-            let mut is_var_ass = false;
-            let mut is_global_var = false;
-
-            if prop == "VAR=" {
-                is_var_ass = true;
-                is_global_var = true;
-            } else if prop == "temp=" {
-                is_var_ass = true;
-                is_global_var = false;
-            }
-
-            if is_var_ass {
-                let var_name = prop_value.as_str().unwrap();
-                let mut is_new_decl = true;
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("re")?;
-                    let _ = tok.read_boolean()?;
-                    is_new_decl = false;
-                }
-
-                let var_ass = Rc::new(VariableAssignment::new(
-                    var_name,
-                    is_new_decl,
-                    is_global_var,
-                ));
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(var_ass));
-            }
-
-            // // Legacy Tag
-            if prop == "#" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Tag::new(
-                    prop_value.as_str().unwrap(),
-                ))));
-            }
-
-            // List value
-            if prop == "list" {
-                let list_content = parse_list(tok)?;
-                let mut raw_list = InkList::new();
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("origins")?;
-
-                    // read array of strings
-                    tok.expect('[')?;
-
-                    let mut names = Vec::new();
-                    while tok.peek()? != ']' {
-                        let name = tok.read_string()?;
-                        names.push(name);
-
-                        if tok.peek()? != ']' {
-                            tok.expect(',')?;
-                        }
-                    }
-
-                    tok.expect(']')?;
-
-                    raw_list.set_initial_origin_names(names);
-                }
-
-                for (k, v) in list_content {
-                    let item = InkListItem::from_full_name(k.as_str());
-                    raw_list.items.insert(item, v);
-                }
-
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<InkList>(
-                    raw_list,
-                ))));
-            }
+    continue_container(tok, name, Vec::new())
+}
 
-            // Used when serialising save state only
-            if prop == "originalChoicePath" {
-                todo!("originalChoicePath");
-                // return jobject_to_choice(obj); // TODO
-            }
+/// Reads the rest of a container, `items` being the ones read so far.
+fn continue_container(
+    tok: &mut JsonTokenizer,
+    name: Option<String>,
+    items: Vec<Value>,
+) -> Result<Rc<Container>, StoryError> {
+    let mut content: Vec<Rc<dyn RTObject>> = Vec::new();
+    let mut terminator: Option<Terminator> = None;
+    let mut first = items.is_empty();
+
+    for item in items {
+        content.push(json_read::jtoken_to_runtime_object(&item, None)?);
+    }
 
-            // Last Element
-            let mut flags = 0;
-            let mut name: Option<String> = None;
-            let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
+    while tok.next_item(']', first)? {
+        first = false;
 
-            let mut p = prop.clone();
-            let mut pv = prop_value;
+        match tok.peek()? {
+            '[' => content.push(read_container(tok, None)?),
+            '{' => {
+                let properties = read_properties(tok)?;
 
-            loop {
-                if p == "#f" {
-                    flags = pv.as_integer().unwrap();
-                } else if p == "#n" {
-                    name = Some(pv.as_str().unwrap().to_string());
+                // The last object isn't content
+                if tok.peek()? == ']' {
+                    terminator = Some(properties_to_terminator(properties)?);
                 } else {
-                    let named_content_item = jtoken_to_runtime_object(tok, pv, Some(p.clone()))?;
-
-                    let named_content_item = match named_content_item {
-                        ArrayElement::RTObject(rt_obj) => rt_obj,
-                        _ => {
-                            return Err(StoryError::BadJson(
-                                "Named content is not a runtime object".to_owned(),
-                            ));
-                        }
-                    };
-
-                    let named_sub_container = named_content_item
-                        .into_any()
-                        .downcast::<Container>()
-                        .unwrap();
-
-                    named_only_content.insert(p, named_sub_container);
+                    content.push(properties_to_runtime_object(properties)?);
                 }
+            }
+            _ => {
+                let value = tok.read_value()?;
 
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    p = tok.read_obj_key()?;
-                    pv = tok.read_value()?;
-                } else if tok.peek()? == '}' {
-                    tok.expect('}')?;
-                    return Ok(ArrayElement::LastElement(flags, name, named_only_content));
+                if tok.peek()? == ']' {
+                    terminator = Some((0, None, HashMap::new()));
                 } else {
-                    break;
+                    content.push(json_read::jtoken_to_runtime_object(&value, None)?);
                 }
             }
-
-            Err(StoryError::BadJson(format!(
-                "Failed to convert token to runtime RTObject: {}",
-                prop
-            )))
         }
     }
-}
 
-fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryError> {
-    let mut list_content: HashMap<String, i32> = HashMap::new();
+    let Some((flags, own_name, named_only_content)) = terminator else {
+        return Err(StoryError::BadJson(
+            "A container has to end with its named content or null".to_owned(),
+        ));
+    };
 
-    while tok.peek()? != '}' {
-        let key = tok.read_obj_key()?;
-        let value = tok.read_number().unwrap().as_integer().unwrap();
-        list_content.insert(key, value);
+    Ok(Container::new(
+        own_name.or(name),
+        flags,
+        content,
+        named_only_content,
+    ))
+}
 
-        if tok.peek()? != '}' {
-            tok.expect(',')?;
-        }
-    }
+fn read_properties(tok: &mut JsonTokenizer) -> Result<Vec<(String, Property)>, StoryError> {
+    let mut properties = Vec::new();
 
-    tok.expect('}')?;
+    tok.begin('{')?;
 
-    Ok(list_content)
-}
+    while tok.next_item('}', properties.is_empty())? {
+        let key = tok.read_obj_key()?;
 
-fn jarray_to_container(
-    tok: &mut JsonTokenizer,
-    name: Option<String>,
-) -> Result<Rc<dyn RTObject>, StoryError> {
-    let (content, named) = jarray_to_runtime_obj_list(tok)?;
+        let value = match tok.peek()? {
+            '[' => read_array_property(tok, &key)?,
+            _ => Property::Other(tok.read_value()?),
+        };
 
-    // Final object in the array is always a combination of
-    //  - named content
-    //  - a "#f" key with the countFlags
+        properties.push((key, value));
+    }
 
-    // (if either exists at all, otherwise null)
-    // let terminating_obj = jarray[jarray.len() - 1].as_object();
-    let mut name: Option<String> = name;
-    let mut flags = 0;
-    let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
+    Ok(properties)
+}
 
-    if let Some(ArrayElement::LastElement(f, n, named_content)) = named {
-        flags = f;
+/// Reads either a container or an array of strings, such as the origins of a list.
+fn read_array_property(tok: &mut JsonTokenizer, name: &str) -> Result<Property, StoryError> {
+    let mut strings = Vec::new();
+
+    tok.begin('[')?;
+
+    loop {
+        if !strings.is_empty() && tok.peek()? == ',' {
+            // Followed by something other than a string?
+            if !tok.is_string_after_comma() {
+                return Ok(Property::Container(continue_container(
+                    tok,
+                    Some(name.to_owned()),
+                    strings,
+                )?));
+            }
+        } else if strings.is_empty() && !matches!(tok.peek()?, '"' | ']') {
+            return Ok(Property::Container(continue_container(
+                tok,
+                Some(name.to_owned()),
+                strings,
+            )?));
+        }
 
-        if n.is_some() {
-            name = n;
+        if !tok.next_item(']', strings.is_empty())? {
+            return Ok(Property::Other(Value::Array(strings)));
         }
 
-        named_only_content = named_content;
+        strings.push(Value::String(tok.read_string()?));
     }
-
-    let container = Container::new(name, flags, content, named_only_content);
-    Ok(container)
 }
 
-fn jarray_to_runtime_obj_list(tok: &mut JsonTokenizer) -> RuntimeObjectListResult {
-    let mut list: RuntimeObjectList = Vec::new();
-    let mut last_element: Option<ArrayElement> = None;
-
-    while tok.peek()? != ']' {
-        let val = tok.read_value()?;
-        let runtime_obj = jtoken_to_runtime_object(tok, val, None)?;
-
-        match runtime_obj {
-            ArrayElement::LastElement(flags, name, named_only_content) => {
-                last_element = Some(ArrayElement::LastElement(flags, name, named_only_content));
-                break;
+fn properties_to_terminator(properties: Vec<(String, Property)>) -> Result<Terminator, StoryError> {
+    let mut flags = 0;
+    let mut name = None;
+    let mut named_only_content = HashMap::new();
+
+    for (key, property) in properties {
+        match (key.as_str(), property) {
+            ("#f", Property::Other(value)) => flags = json_read::jtoken_to_i32(&value)?,
+            ("#n", Property::Other(Value::String(value))) => name = Some(value),
+            ("", _) | ("#f", _) | ("#n", _) => {
+                return Err(StoryError::BadJson("Invalid end of a container".to_owned()));
             }
-            ArrayElement::RTObject(rt_obj) => list.push(rt_obj),
-            ArrayElement::NullElement => {
-                // Only the last element can be null
-                if tok.peek()? != ']' {
-                    return Err(StoryError::BadJson(
-                        "Only the last element can be null".to_owned(),
-                    ));
-                }
+            (_, Property::Container(container)) => {
+                named_only_content.insert(key, container);
+            }
+            (_, Property::Other(_)) => {
+                return Err(StoryError::BadJson(format!(
+                    "Expected the named content '{}' to be a container",
+                    key
+                )));
             }
-        }
-
-        if tok.peek()? != ']' {
-            tok.expect(',')?;
         }
     }
 
-    tok.expect(']')?;
-
-    Ok((list, last_element))
+    Ok((flags, name, named_only_content))
 }
 
-fn jtoken_to_list_definitions(
-    tok: &mut JsonTokenizer,
-) -> Result<ListDefinitionsOrigin, StoryError> {
-    let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
-
-    tok.expect('{')?;
-
-    while tok.peek()? != '}' {
-        let name = tok.read_obj_key()?;
-        tok.expect('{')?;
-
-        let items = parse_list(tok)?;
-        let def = ListDefinition::new(name, items);
-        all_defs.push(def);
+fn properties_to_runtime_object(
+    properties: Vec<(String, Property)>,
+) -> Result<Rc<dyn RTObject>, StoryError> {
+    let mut obj = Map::new();
 
-        if tok.peek()? != '}' {
-            tok.expect(',')?;
+    for (key, property) in properties {
+        match property {
+            Property::Other(value) => {
+                obj.insert(key, value);
+            }
+            Property::Container(_) => {
+                return Err(StoryError::BadJson(format!(
+                    "Unexpected container as the value of '{}'",
+                    key
+                )));
+            }
         }
     }
 
-    tok.expect('}')?;
-
-    Ok(ListDefinitionsOrigin::new(&mut all_defs))
+    json_read::jtoken_to_runtime_object(&Value::Object(obj), None)
 }
 
 #[cfg(test)]
diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index 2321a4b..ab71dac 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -1,309 +1,160 @@
 //! Tokenizer for the streamed JSON parser.
-use std::io::{self, Read};
+use serde_json::{Map, Value};
 
-#[derive(Debug)]
-pub(super) enum Number {
-    Int(i32),
-    Float(f32),
-}
+use crate::story_error::StoryError;
 
-impl Number {
-    pub(super) fn as_integer(&self) -> Option<i32> {
-        match self {
-            Number::Int(n) => Some(*n),
-            Number::Float(n) => Some(*n as i32),
-        }
-    }
-
-    pub(super) fn as_float(&self) -> Option<f32> {
-        match self {
-            Number::Int(n) => Some(*n as f32),
-            Number::Float(n) => Some(*n),
-        }
-    }
-
-    pub(super) fn is_integer(&self) -> bool {
-        match self {
-            Number::Int(_) => true,
-            Number::Float(_) => false,
-        }
-    }
-}
-
-#[derive(Debug)]
-pub(super) enum JsonValue {
-    Array,
-    Object,
-    String(String),
-    Number(Number),
-    Boolean(bool),
-    Null,
-}
-
-impl JsonValue {
-    pub(super) fn as_str(&self) -> Option<&str> {
-        match self {
-            JsonValue::String(s) => Some(s),
-            _ => None,
-        }
-    }
-
-    pub(super) fn as_integer(&self) -> Option<i32> {
-        match self {
-            JsonValue::Number(n) => n.as_integer(),
-            _ => None,
-        }
-    }
-}
+/// How deep arrays and objects may be nested, the same as in `serde_json`.
+const MAX_DEPTH: usize = 127;
 
 pub(super) struct JsonTokenizer<'a> {
-    json: &'a [u8],
-    lookahead: Option<char>,
-    skip_whitespaces: bool,
+    json: &'a str,
+    pos: usize,
+    depth: usize,
 }
 
 impl<'a> JsonTokenizer<'a> {
     pub(super) fn new_from_str(s: &'a str) -> JsonTokenizer<'a> {
         JsonTokenizer {
-            json: s.as_bytes(),
-            lookahead: None,
-            skip_whitespaces: true,
+            json: s,
+            pos: 0,
+            depth: 0,
         }
     }
 
-    pub(super) fn read(&mut self) -> io::Result<char> {
-        let c = match self.lookahead {
-            Some(c) => {
-                self.lookahead = None;
-                c
-            }
-            None => self.read_no_lookahead()?,
-        };
-
-        Ok(c)
+    fn error(&self, msg: &str) -> StoryError {
+        StoryError::BadJson(format!("{} at offset {}", msg, self.pos))
     }
 
-    fn read_no_lookahead(&mut self) -> io::Result<char> {
-        let c = loop {
-            let c = self.read_utf8_char()?;
-
-            if !self.skip_whitespaces || !c.is_whitespace() {
-                break c;
-            }
-        };
-
-        Ok(c)
+    fn byte(&self) -> Option<u8> {
+        self.json.as_bytes().get(self.pos).copied()
     }
 
-    fn read_utf8_char(&mut self) -> io::Result<char> {
-        let mut temp_buf = [0; 1];
-        let mut utf8_char = Vec::new();
-
-        // Read bytes until a valid UTF-8 character is formed
-        loop {
-            self.json.read_exact(&mut temp_buf)?;
-            utf8_char.push(temp_buf[0]);
-
-            if let Ok(utf8_str) = std::str::from_utf8(&utf8_char)
-                && let Some(ch) = utf8_str.chars().next()
-            {
-                return Ok(ch);
-            }
-
-            // If we have read 4 bytes and still not a valid character, return an error
-            if utf8_char.len() >= 4 {
-                return Err(io::Error::new(
-                    io::ErrorKind::InvalidData,
-                    "Invalid UTF-8 sequence",
-                ));
-            }
+    /// The next character that isn't whitespace, which isn't consumed
+    pub(super) fn peek(&mut self) -> Result<char, StoryError> {
+        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.byte() {
+            self.pos += 1;
         }
-    }
 
-    pub(super) fn peek(&mut self) -> io::Result<char> {
-        match self.lookahead {
-            Some(c) => Ok(c),
-            None => {
-                let c = self.read_no_lookahead()?;
-                self.lookahead = Some(c);
-                Ok(c)
-            }
+        match self.byte() {
+            Some(b) => Ok(b as char),
+            None => Err(self.error("Unexpected end of file")),
         }
     }
 
-    pub(super) fn read_boolean(&mut self) -> io::Result<bool> {
-        let string = self.read_until_separator()?;
-
-        match string.trim() {
-            "true" => Ok(true),
-            "false" => Ok(false),
-            _ => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Invalid boolean format",
-            )),
+    /// `c` has to be an ASCII character
+    pub(super) fn expect(&mut self, c: char) -> Result<(), StoryError> {
+        if self.peek()? != c {
+            return Err(self.error(&format!("Expected '{}'", c)));
         }
-    }
 
-    pub(super) fn read_null(&mut self) -> io::Result<()> {
-        let string = self.read_until_separator()?;
-
-        if string.trim() == "null" {
-            Ok(())
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Invalid null format",
-            ))
-        }
+        self.pos += 1;
+        Ok(())
     }
 
-    pub(super) fn read_number(&mut self) -> io::Result<Number> {
-        let number_str = self.read_until_separator()?;
-        let number_str = number_str.trim();
-
-        // Check if the number is an integer
-        if let Ok(num) = number_str.parse::<i32>() {
-            return Ok(Number::Int(num));
-        }
-
-        // Convert the accumulated string to a f32
-        match number_str.parse::<f32>() {
-            Ok(num) => Ok(Number::Float(num)),
-            Err(_) => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                format!("Invalid number format: '{}'", number_str),
-            )),
+    /// There has to be nothing left, other than whitespace
+    pub(super) fn expect_end(&mut self) -> Result<(), StoryError> {
+        match self.peek() {
+            Ok(_) => Err(self.error("Unexpected characters after the end")),
+            Err(_) => Ok(()),
         }
     }
 
-    pub(super) fn read_string(&mut self) -> io::Result<String> {
-        let mut result = String::new();
-        let mut escape = false;
-
-        self.expect('"')?;
-        self.skip_whitespaces = false;
+    /// Reads the start of an array or object. Each `begin` needs its call to `next_item`s
+    /// until that returns false.
+    pub(super) fn begin(&mut self, open: char) -> Result<(), StoryError> {
+        self.expect(open)?;
+        self.depth += 1;
 
-        while let Ok(c) = self.read() {
-            if escape {
-                // Handle escape sequences
-                match c {
-                    '\\' => result.push('\\'),
-                    '"' => result.push('"'),
-                    'n' => result.push('\n'),
-                    // 't' => result.push('\t'),
-                    // 'r' => result.push('\r'),
-                    // Add other escape sequences as needed
-                    // _ => result.push(c), // Push the character as is if unknown escape
-                    _ => {}
-                }
-                escape = false;
-            } else if c == '\\' {
-                escape = true;
-            } else if c == '"' {
-                self.skip_whitespaces = true;
-                break; // End of the quoted string
-            } else {
-                result.push(c);
-            }
+        if self.depth > MAX_DEPTH {
+            return Err(self.error("Too many nested arrays and objects"));
         }
 
-        if !escape {
-            Ok(result)
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Unterminated string",
-            ))
-        }
+        Ok(())
     }
 
-    fn read_until_separator(&mut self) -> io::Result<String> {
-        let mut result = String::new();
-
-        self.skip_whitespaces = false;
-
-        while !self.next_is_separator() {
-            let c = self.read()?;
-            result.push(c);
+    /// Moves to the next item of an array or object. Returns false at its end, which is consumed.
+    pub(super) fn next_item(&mut self, close: char, first: bool) -> Result<bool, StoryError> {
+        if self.peek()? == close {
+            self.pos += 1;
+            self.depth -= 1;
+            return Ok(false);
         }
 
-        self.skip_whitespaces = true;
+        if !first {
+            self.expect(',')?;
+        }
 
-        Ok(result)
+        Ok(true)
     }
 
-    fn next_is_separator(&mut self) -> bool {
-        match self.peek() {
-            Ok(c) => c == ',' || c == '}' || c == ']',
-            Err(_) => true,
-        }
+    /// Whether the comma that comes next is followed by a string. Consumes nothing.
+    pub(super) fn is_string_after_comma(&mut self) -> bool {
+        let start = self.pos;
+        let is_string = self.expect(',').is_ok() && self.peek().is_ok_and(|c| c == '"');
+        self.pos = start;
+        is_string
     }
 
-    pub(super) fn expect(&mut self, c: char) -> io::Result<()> {
-        while let Ok(c2) = self.read() {
-            if !c2.is_whitespace() {
-                if c2 == c {
-                    return Ok(());
-                } else {
-                    return Err(io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        format!("Expected '{}', found '{}'", c, c2),
-                    ));
-                }
+    pub(super) fn read_string(&mut self) -> Result<String, StoryError> {
+        self.peek()?;
+        let start = self.pos;
+        self.expect('"')?;
+
+        loop {
+            match self.byte() {
+                Some(b'"') => break,
+                Some(b'\\') => self.pos += 2,
+                Some(_) => self.pos += 1,
+                None => return Err(self.error("Unterminated string")),
             }
         }
 
-        Err(io::Error::new(
-            io::ErrorKind::UnexpectedEof,
-            "Unexpected end of file",
-        ))
+        self.pos += 1;
+
+        serde_json::from_str(&self.json[start..self.pos]).map_err(|_| self.error("Invalid string"))
     }
 
-    pub(super) fn read_obj_key(&mut self) -> io::Result<String> {
-        let s = self.read_string();
+    pub(super) fn read_obj_key(&mut self) -> Result<String, StoryError> {
+        let s = self.read_string()?;
         self.expect(':')?;
-        s
+        Ok(s)
     }
 
-    pub(super) fn expect_obj_key(&mut self, expected: &str) -> io::Result<()> {
-        let s = self.read_string()?;
-        if s != expected {
-            return Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                format!("Expected '{}', found '{}'", expected, s),
-            ));
+    /// A number, boolean or null
+    fn read_literal(&mut self) -> Result<Value, StoryError> {
+        let start = self.pos;
+
+        while let Some(b'+' | b'-' | b'.' | b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z') = self.byte() {
+            self.pos += 1;
         }
-        let _ = self.expect(':');
-        Ok(())
+
+        serde_json::from_str(&self.json[start..self.pos]).map_err(|_| self.error("Invalid value"))
     }
 
-    pub(super) fn read_value(&mut self) -> io::Result<JsonValue> {
-        //self.skip_whitespaces()?;
+    /// Reads any value, loading all of it
+    pub(super) fn read_value(&mut self) -> Result<Value, StoryError> {
         match self.peek()? {
             '[' => {
-                self.read()?;
-                Ok(JsonValue::Array)
+                let mut items = Vec::new();
+                self.begin('[')?;
+                while self.next_item(']', items.is_empty())? {
+                    items.push(self.read_value()?);
+                }
+                Ok(Value::Array(items))
             }
             '{' => {
-                self.read()?;
-                Ok(JsonValue::Object)
-            }
-            '"' => {
-                let s = self.read_string()?;
-                Ok(JsonValue::String(s))
-            }
-            't' | 'f' => {
-                let b = self.read_boolean()?;
-                Ok(JsonValue::Boolean(b))
-            }
-            'n' => {
-                self.read_null()?;
-                Ok(JsonValue::Null)
-            }
-            _ => {
-                let n = self.read_number()?;
-                Ok(JsonValue::Number(n))
+                let mut items = Map::new();
+                let mut first = true;
+                self.begin('{')?;
+                while self.next_item('}', first)? {
+                    first = false;
+                    let key = self.read_obj_key()?;
+                    items.insert(key, self.read_value()?);
+                }
+                Ok(Value::Object(items))
             }
+            '"' => Ok(Value::String(self.read_string()?)),
+            _ => self.read_literal(),
         }
     }
 }
-- 
2.43.0


From 785b5dbe73b1493b626d54cc218f60b891d79678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 32/62] fix: labels are found from the rest of their knot, and
 names that lead nowhere are compile errors

---
 compiler/src/emitter/context.rs    |  45 +++++++
 compiler/src/emitter/expression.rs |  10 ++
 compiler/src/emitter/path.rs       | 184 +++++++++++++++++++++++++++++
 3 files changed, 239 insertions(+)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 2a04bae..cfe5871 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -66,6 +66,7 @@ pub fn story_to_json_value(
         }
     ]);
     compact_story_paths(&mut root_value);
+    check_story_references(&root_value, &list_defs)?;
 
     let mut output = serde_json::Map::new();
     output.insert("inkVersion".to_owned(), json!(INK_VERSION_CURRENT));
@@ -534,6 +535,10 @@ impl EmitScope {
             return format!("{}.{target}", self.top_flow_name.as_deref().unwrap());
         }
 
+        if let Some(label_target) = self.resolve_enclosing_label(target, context) {
+            return label_target;
+        }
+
         if let Some(abs) = context.unqualified_flow_targets.get(target) {
             return abs.clone();
         }
@@ -541,6 +546,37 @@ impl EmitScope {
         target.to_owned()
     }
 
+    /// A label of the weaves around this one: of the stitch, of its knot, of any stitch
+    /// of the knot or of the top of the story.
+    fn resolve_enclosing_label(&self, label: &str, context: &EmitContext) -> Option<String> {
+        let labels = &context.qualified_choice_labels;
+        if let Some(knot) = self.top_flow_name.as_deref() {
+            let stitch = self
+                .path
+                .strip_prefix(knot)
+                .and_then(|rest| rest.strip_prefix('.'))
+                .and_then(|rest| rest.split('.').next())
+                .filter(|name| self.sibling_flow_names.contains(*name));
+            if let Some(path) =
+                stitch.and_then(|stitch| labels.get(&format!("{knot}.{stitch}.{label}")))
+            {
+                return Some(path.clone());
+            }
+            if let Some(path) = labels.get(&format!("{knot}.{label}")) {
+                return Some(path.clone());
+            }
+            if let Some(path) = self
+                    .child_flow_names
+                    .iter()
+                    .chain(&self.sibling_flow_names)
+                    .find_map(|stitch| labels.get(&format!("{knot}.{stitch}.{label}")))
+            {
+                return Some(path.clone());
+            }
+        }
+        labels.get(label).cloned()
+    }
+
     fn is_variable_divert(&self, target: &str, context: &EmitContext) -> bool {
         self.divert_param_names.contains(target)
             || (context.global_variables.contains(target)
@@ -560,6 +596,15 @@ impl EmitScope {
             return Some(resolved.clone());
         }
 
+        // `stitch.label` within the knot of the stitch
+        if let Some(resolved) = self.top_flow_name.as_deref().and_then(|knot| {
+            context
+                .qualified_choice_labels
+                .get(&format!("{knot}.{target}"))
+        }) {
+            return Some(resolved.clone());
+        }
+
         let (prefix, label) = target.rsplit_once('.')?;
         let resolved = self.resolve_choice_label(label)?;
         let prefix_with_dot = format!("{prefix}.");
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 835471a..8f3c969 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -300,6 +300,10 @@ fn emit_expression_ctx(
             } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
             {
                 out.push(json!({"CNT?": path}))
+            } else if let (Some(s), Some(ctx)) = (scope, context)
+                && name.contains('.')
+            {
+                out.push(json!({"CNT?": s.resolve_divert_target(name, ctx)}))
             } else if name.contains('.') {
                 out.push(json!({"CNT?": name}))
             } else if let (Some(s), Some(ctx)) = (scope, context)
@@ -310,6 +314,12 @@ fn emit_expression_ctx(
                 out.push(json!({"CNT?": s.resolve_divert_target(name, ctx)}))
             } else if context.is_some_and(|ctx| ctx.top_flow_names.contains(name)) {
                 out.push(json!({"CNT?": name}))
+            } else if let (Some(s), Some(ctx)) = (scope, context)
+                && !ctx.global_variables.contains(name)
+                && !s.temp_param_names.contains(name)
+                && let Some(path) = s.resolve_enclosing_label(name, ctx)
+            {
+                out.push(json!({"CNT?": path}))
             } else {
                 out.push(json!({"VAR?": name}))
             }
diff --git a/compiler/src/emitter/path.rs b/compiler/src/emitter/path.rs
index 1fb2e62..4f7f3ed 100644
--- a/compiler/src/emitter/path.rs
+++ b/compiler/src/emitter/path.rs
@@ -164,6 +164,190 @@ fn compact_story_paths(root: &mut Value) {
     compact_container_paths(root, &RuntimePath::absolute(""));
 }
 
+/// The content a container path leads to, exactly.
+fn content_at<'a>(root: &'a Value, path: &RuntimePath) -> Option<&'a Value> {
+    path.components.iter().try_fold(root, |container, component| {
+        let (terminator, content) = container.as_array()?.split_last()?;
+        if let Ok(index) = component.parse::<usize>() {
+            return content.get(index);
+        }
+        content
+            .iter()
+            .find(|child| embedded_container_name(child) == Some(component))
+            .or_else(|| terminator.as_object()?.get(component))
+            .filter(|child| child.is_array())
+    })
+}
+
+/// The names a story can refer to.
+struct KnownNames<'a> {
+    root: &'a Value,
+    globals: BTreeSet<&'a str>,
+    list_items: BTreeSet<String>,
+}
+
+impl<'a> KnownNames<'a> {
+    fn new(root: &'a Value, list_defs: &'a Map<String, Value>) -> Self {
+        let mut globals = BTreeSet::new();
+        if let Some(declarations) = root
+            .as_array()
+            .and_then(|content| content.last())
+            .and_then(|named| named.get("global decl"))
+        {
+            collect_assigned_names(declarations, "VAR=", &mut globals);
+        }
+        let mut list_items = BTreeSet::new();
+        for (list, items) in list_defs {
+            globals.insert(list);
+            for item in items.as_object().into_iter().flat_map(Map::keys) {
+                globals.insert(item);
+                list_items.insert(format!("{list}.{item}"));
+            }
+        }
+        KnownNames {
+            root,
+            globals,
+            list_items,
+        }
+    }
+
+    /// Checks the container of a flow, or the top of the story.
+    fn check_flow(&self, flow: &Value, path: &RuntimePath) -> Result<(), CompilerError> {
+        let mut temps = BTreeSet::new();
+        collect_assigned_names(flow, "temp=", &mut temps);
+        self.check_container(flow, path, &temps)
+    }
+
+    fn check_variable(&self, name: &str, temps: &BTreeSet<&str>) -> Result<(), CompilerError> {
+        if self.globals.contains(name) || temps.contains(name) || self.list_items.contains(name) {
+            return Ok(());
+        }
+        Err(CompilerError::invalid_source(format!(
+            "Unresolved variable: {name}"
+        )))
+    }
+
+    fn check_container(
+        &self,
+        container: &Value,
+        container_path: &RuntimePath,
+        temps: &BTreeSet<&str>,
+    ) -> Result<(), CompilerError> {
+        let Some((terminator, content)) = container.as_array().and_then(|a| a.split_last()) else {
+            return Ok(());
+        };
+
+        for (index, child) in content.iter().enumerate() {
+            let child_path = container_path.appended(
+                embedded_container_name(child)
+                    .map(str::to_owned)
+                    .unwrap_or_else(|| index.to_string()),
+            );
+            if child.is_array() {
+                self.check_container(child, &child_path, temps)?;
+            } else if let Some(map) = child.as_object() {
+                self.check_object(map, &child_path, temps)?;
+            }
+        }
+
+        if let Some(named) = terminator.as_object() {
+            for (name, child) in named {
+                self.check_container(child, &container_path.appended(name.clone()), temps)?;
+            }
+        }
+
+        Ok(())
+    }
+
+    fn check_object(
+        &self,
+        object: &Map<String, Value>,
+        object_path: &RuntimePath,
+        temps: &BTreeSet<&str>,
+    ) -> Result<(), CompilerError> {
+        let text = |field: &str| object.get(field).and_then(Value::as_str);
+        let is_variable_target = object.get("var").and_then(Value::as_bool) == Some(true);
+
+        for field in ["->", "f()", "->t->", "*", "CNT?", "^->"] {
+            let Some(target) = text(field) else {
+                continue;
+            };
+            if is_variable_target && matches!(field, "->" | "f()" | "->t->") {
+                self.check_variable(target, temps)?;
+                continue;
+            }
+            let path =
+                RuntimePath::parse(target, target.starts_with('.')).resolve_from(object_path);
+            if content_at(self.root, &path).is_none() {
+                return Err(CompilerError::invalid_source(match field {
+                    "f()" => format!("Function not found: '{target}'"),
+                    "CNT?" => format!("Unresolved variable: {target}"),
+                    _ => format!("Divert target not found: '-> {target}'"),
+                }));
+            }
+        }
+
+        for field in ["VAR?", "VAR=", "temp=", "^var"] {
+            if let Some(name) = text(field) {
+                self.check_variable(name, temps)?;
+            }
+        }
+
+        for item in object
+            .get("list")
+            .and_then(Value::as_object)
+            .into_iter()
+            .flat_map(Map::keys)
+        {
+            if !self.list_items.contains(item) {
+                return Err(CompilerError::invalid_source(format!(
+                    "Unresolved list item: {item}"
+                )));
+            }
+        }
+
+        Ok(())
+    }
+}
+
+fn collect_assigned_names<'a>(value: &'a Value, field: &str, names: &mut BTreeSet<&'a str>) {
+    match value {
+        Value::Array(content) => content
+            .iter()
+            .for_each(|child| collect_assigned_names(child, field, names)),
+        Value::Object(map) => {
+            if let Some(name) = map.get(field).and_then(Value::as_str)
+                && !map.contains_key("re")
+            {
+                names.insert(name);
+            }
+            map.values()
+                .filter(|child| child.is_array())
+                .for_each(|child| collect_assigned_names(child, field, names));
+        }
+        _ => {}
+    }
+}
+
+/// Every reference must lead to existing content, or name something that is declared.
+fn check_story_references(
+    root: &Value,
+    list_defs: &Map<String, Value>,
+) -> Result<(), CompilerError> {
+    let known = KnownNames::new(root, list_defs);
+    let root_path = RuntimePath::absolute("");
+    let Some((terminator, content)) = root.as_array().and_then(|a| a.split_last()) else {
+        return Ok(());
+    };
+    for (index, child) in content.iter().enumerate() {
+        known.check_flow(child, &root_path.appended(index.to_string()))?;
+    }
+    for (name, flow) in terminator.as_object().into_iter().flatten() {
+        known.check_flow(flow, &root_path.appended(name.clone()))?;
+    }
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0f36a7120c4b6c5a7b861edce1cf39c0681a1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 33/62] fix: choice text keeps the spacing, glue, tags and line
 breaks of its source

---
 compiler/src/emitter/choice.rs         |  3 +-
 compiler/src/emitter/choice_wrapped.rs |  3 +-
 compiler/src/emitter/expression.rs     | 36 ++++------
 compiler/src/parser/choice.rs          | 97 +++++++-------------------
 4 files changed, 43 insertions(+), 96 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 34deadf..bf64124 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -82,7 +82,8 @@ fn emit_choice(
             );
             let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
                 && selected_text.ends_with(char::is_whitespace);
-            if !body_is_terminal_divert && !body_is_inline_divert {
+            if !(body_is_terminal_divert && choice.body_divert_is_inline)
+ && !body_is_inline_divert {
                 branch_nodes.push(Node::Newline);
             }
         }
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 29948b8..63603b5 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -238,7 +238,8 @@ fn emit_wrapped_loop_choice_body(
             );
             let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
                 && selected_text.ends_with(char::is_whitespace);
-            if !body_is_terminal_divert && !body_is_inline_divert {
+            if !(body_is_terminal_divert && choice.body_divert_is_inline)
+ && !body_is_inline_divert {
                 branch_nodes.push(Node::Newline);
             }
         }
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 8f3c969..a78e594 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -488,6 +488,17 @@ fn emit_dynamic_string(
     emit_dynamic_string_parts(&dynamic.parts, out, scope, context)
 }
 
+fn emit_text_and_glue(text: &str, out: &mut Vec<Value>) {
+    for (index, part) in text.split("<>").enumerate() {
+        if index > 0 {
+            out.push(json!("<>"));
+        }
+        if !part.is_empty() {
+            out.push(json!(format!("^{part}")));
+        }
+    }
+}
+
 fn emit_dynamic_string_parts(
     parts: &[DynamicStringPart],
     out: &mut Vec<Value>,
@@ -500,9 +511,7 @@ fn emit_dynamic_string_parts(
 
     match &parts[0] {
         DynamicStringPart::Text(text) => {
-            if !text.is_empty() {
-                out.push(json!(format!("^{text}")));
-            }
+            emit_text_and_glue(text, out);
             emit_dynamic_string_parts(&parts[1..], out, scope, context)
         }
         DynamicStringPart::Expression(expression) => {
@@ -581,24 +590,7 @@ fn emit_choice_text_segment(
     }
 
     out.push(json!("str"));
-    if !text.is_empty() {
-        // Parse the text for inline {expr} and {&sequence} interpolations
-        let dynamic = parse_dynamic_string(text).unwrap_or_else(|_| DynamicString {
-            parts: vec![DynamicStringPart::Text(text.to_owned())],
-        });
-        let has_inline = dynamic
-            .parts
-            .iter()
-            .any(|p| !matches!(p, DynamicStringPart::Text(_)));
-        if has_inline {
-            emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
-        } else {
-            out.push(json!(format!("^{text}")));
-        }
-    }
-    for tag in tags {
-        emit_tag(tag, out, scope, context)?;
-    }
+    emit_choice_text_content(text, tags, out, scope, context)?;
     out.push(json!("/str"));
     Ok(())
 }
@@ -625,7 +617,7 @@ fn emit_choice_text_content(
         if has_inline {
             emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
         } else {
-            out.push(json!(format!("^{text}")));
+            emit_text_and_glue(text, out);
         }
     }
     for tag in tags {
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index b3bfad4..a9c75cb 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -393,88 +393,41 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         });
     }
 
-    if let Some((before, after)) = trimmed.split_once("[]") {
-        let display = before.trim_end().to_owned();
-        let raw_suffix = after.trim_start();
-        let had_space_before_inline_divert = split_inline_divert(raw_suffix)
-            .and_then(|(text, _)| text.chars().last())
-            .is_some_and(char::is_whitespace);
-        let (suffix, inline_target) = split_inline_choice_divert(raw_suffix)?;
-        let suffix = if inline_target.is_some() && had_space_before_inline_divert {
-            format!("{suffix} ")
-        } else {
-            suffix.to_owned()
-        };
-        let (start_text, start_tags) = split_text_and_tags(&display)?;
-        let selected = if suffix.is_empty() {
-            Some(display.clone())
-        } else if suffix.starts_with(|c: char| c.is_ascii_punctuation() && c != '"' && c != '\'') {
-            Some(format!("{display}{suffix}"))
-        } else {
-            Some(format!("{display} {suffix}"))
-        };
-        let (selected_text, selected_tags) =
-            split_text_and_tags(selected.as_deref().unwrap_or(""))?;
-        return Ok(ParsedChoiceText {
-            display_text: start_text.clone(),
-            selected_text: Some(selected_text),
-            start_text,
-            choice_only_text: String::new(),
-            has_start_content: true,
-            has_choice_only_content: false,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags,
-            choice_only_tags: Vec::new(),
-            selected_tags,
-        });
-    }
-
     if let Some(open) = trimmed.find('[')
         && let Some(close_rel) = trimmed[open + 1..].find(']')
     {
         let close = open + 1 + close_rel;
-        let start = &trimmed[..open];
-        let choice_only = trimmed[open + 1..close].trim();
-        let end = trimmed[close + 1..].trim_start();
-        let (end, inline_target) = split_inline_choice_divert(end)?;
-        let (start_text, start_tags) = split_text_and_tags(start)?;
+        let choice_only = trimmed[open + 1..close].trim_end();
+        let raw_end = &trimmed[close + 1..];
+        let (end, inline_target) = match split_inline_divert(raw_end) {
+            Some((text, divert)) => (text, Some(parse_divert(divert)?)),
+            None => (raw_end, None),
+        };
+        let (start_text, start_tags) = split_text_and_tags(&trimmed[..open])?;
         let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only)?;
         let (end_text, end_tags) = split_text_and_tags(end)?;
-        // Append closing punctuation from `end` to choice_only_text only when the
-        // `end` segment is plain text that starts with closing punctuation (like `."` or `,'`).
-        // Do NOT pull chars from an expression like `{foo}`.
-        let display_suffix: String = if !end.trim_start().starts_with('{') {
-            end_text
-                .chars()
-                .take_while(|c| c.is_ascii_punctuation())
-                .filter(|c| matches!(c, '\'' | '"' | ')' | ']'))
-                .collect()
-        } else {
-            String::new()
-        };
-        let choice_only_text = format!("{choice_only_text}{display_suffix}");
-        let display = format!("{start_text}{choice_only_text}");
-        let selected_text = if end_text.is_empty() {
-            start_text.trim_end().to_owned()
-        } else if start_text.trim().is_empty() {
-            end_text
-        } else if end_text
-            .starts_with(|c: char| c.is_ascii_punctuation() && c != '"' && c != '\'' && c != '{')
-        {
-            format!("{}{}", start_text.trim_end(), end_text)
-        } else {
-            format!("{} {}", start_text.trim_end(), end_text)
-        };
+        // Quotes closed right after the bracket are shown with the choice, unless the choice
+        // text closes them itself.
+        let display_suffix: String = end_text
+            .chars()
+            .take_while(|c| c.is_ascii_punctuation())
+            .filter(|c| matches!(c, '\'' | '"' | ')' | ']'))
+            .collect();
+        let choice_only_text =
+            if choice_only_text.is_empty() || choice_only_text.ends_with(&display_suffix) {
+                choice_only_text
+            } else {
+                format!("{choice_only_text}{display_suffix}")
+            };
         let mut selected_tags = start_tags.clone();
         selected_tags.extend(end_tags);
         return Ok(ParsedChoiceText {
-            display_text: display,
-            selected_text: Some(selected_text),
+            display_text: format!("{start_text}{choice_only_text}"),
+            selected_text: Some(format!("{start_text}{end_text}")),
+            has_start_content: !start_text.trim().is_empty() || !start_tags.is_empty(),
+            has_choice_only_content: !choice_only_text.is_empty() || !choice_only_tags.is_empty(),
             start_text,
             choice_only_text,
-            has_start_content: !start.trim().is_empty(),
-            has_choice_only_content: true,
             inline_target,
             inline_body_nodes: Vec::new(),
             start_tags,
@@ -498,8 +451,8 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         has_choice_only_content: false,
         inline_target,
         inline_body_nodes: Vec::new(),
+        selected_tags: start_tags.clone(),
         start_tags,
         choice_only_tags: Vec::new(),
-        selected_tags: Vec::new(),
     })
 }
-- 
2.43.0


From c1614eb82e0b3cf646e4eecc352c40c095c188ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 34/62] fix: choice lines compile from their text, brackets,
 tags and diverts as written

---
 compiler/src/ast.rs                     |   4 +-
 compiler/src/emitter/choice.rs          | 109 +++--------
 compiler/src/emitter/choice_threaded.rs |  61 ++----
 compiler/src/emitter/choice_wrapped.rs  | 236 +----------------------
 compiler/src/emitter/conditional.rs     |  10 -
 compiler/src/emitter/expression.rs      |  12 +-
 compiler/src/inline.rs                  |  48 ++---
 compiler/src/parser/choice.rs           | 245 +++++++-----------------
 compiler/src/parser/declarations.rs     |   8 +-
 compiler/src/parser/mod.rs              |   5 +-
 10 files changed, 151 insertions(+), 587 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 0c0a4c8..2dc4eff 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -114,8 +114,8 @@ pub struct Choice {
     pub selected_tags: Vec<DynamicString>,
     /// Nesting level of this choice: 1 for `*`/`+`, 2 for `**`/`++`, etc.
     pub nesting_level: usize,
-    /// True when the divert in body came from an inline `-> target` on the choice line itself.
-    pub body_divert_is_inline: bool,
+    /// How many nodes of the body stand on the choice line itself (diverts, tunnels, threads).
+    pub inline_body_len: usize,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index bf64124..7237471 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -1,9 +1,24 @@
+/// Where play goes from the end of a choice that does not divert.
+struct ChoiceEnd<'a> {
+    continuation_path: Option<&'a str>,
+    terminal: Option<&'a str>,
+}
+
+impl<'a> ChoiceEnd<'a> {
+    fn at(continuation_path: Option<&'a str>) -> Self {
+        ChoiceEnd {
+            continuation_path,
+            terminal: None,
+        }
+    }
+}
+
 fn emit_choice(
     out: &mut EmittedContainer,
     choice: &Choice,
     scope: &EmitScope,
     choice_index: usize,
-    continuation_path: Option<&str>,
+    end: ChoiceEnd<'_>,
     context: &EmitContext,
 ) -> Result<(), CompilerError> {
     let has_ev_content = !choice.start_text.is_empty()
@@ -37,91 +52,27 @@ fn emit_choice(
         out.push(json!("/ev"));
     }
 
+    let ChoiceEnd {
+        continuation_path,
+        terminal,
+    } = end;
     let branch_name = format!("c-{choice_index}");
     let branch_scope = scope.choice_branch(&branch_name);
     let choice_ptr = branch_scope.path.clone();
     out.push(json!({"*": choice_ptr, "flg": choice_flags(choice)}));
 
+    // The line of the choice, with the diverts written on it, then its body.
+    let (on_line, below) = choice.body.split_at(choice.inline_body_len);
     let mut branch_nodes = Vec::new();
-    let mut body_already_emitted = false;
     if let Some(selected_text) = &choice.selected_text {
-        let recovered_inline_divert = if choice.body.is_empty() {
-            recover_selected_text_inline_divert(selected_text)
-        } else {
-            None
-        };
-
-        if choice.has_choice_only_content
-            && !choice.has_start_content
-            && matches!(choice.body.as_slice(), [Node::Divert(_)])
-        {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-            body_already_emitted = true;
-        } else if let Some((text, target)) = recovered_inline_divert {
-            if !text.is_empty() {
-                branch_nodes.extend(tokenize_inline_content(&text)?);
-            }
-            branch_nodes.push(Node::Divert(Divert {
-                target,
-                arguments: Vec::new(),
-            }));
-            body_already_emitted = true;
-        } else {
-            branch_nodes.extend(tokenize_inline_content(selected_text)?);
-        }
-        branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
-        if !body_already_emitted {
-            // Skip the auto-newline for terminal diverts, and also for inline diverts that are
-            // authored after inline selected text on the same source line (the selected text keeps
-            // the trailing whitespace needed to join the diverted content).
-            let body_is_terminal_divert = matches!(
-                choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
-            );
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && selected_text.ends_with(char::is_whitespace);
-            if !(body_is_terminal_divert && choice.body_divert_is_inline)
- && !body_is_inline_divert {
-                branch_nodes.push(Node::Newline);
-            }
-        }
-    } else if choice.has_choice_only_content
-        && !choice.has_start_content
-        && matches!(choice.body.as_slice(), [Node::Divert(_)])
-    {
-        // choice-only with single divert body:
-        // - inline divert (same line): "^ " then divert then "\n" (inklecate behavior)
-        // - body divert (indented line): "\n" then divert
-        if choice.body_divert_is_inline {
-            branch_nodes.push(Node::Text(" ".to_owned()));
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-        } else {
-            branch_nodes.push(Node::Newline);
-            branch_nodes.extend(choice.body.clone());
-        }
-        body_already_emitted = true;
-    } else if choice.has_choice_only_content
-        && !choice.has_start_content
-        && branch_nodes.is_empty()
-        && !choice.body.is_empty()
-    {
-        // choice-only with multi-node body: "\n" then body
-        branch_nodes.push(Node::Newline);
-        branch_nodes.extend(choice.body.clone());
-        body_already_emitted = true;
-    } else if choice.has_choice_only_content && !choice.has_start_content && choice.body.is_empty()
-    {
-        // choice-only with completely empty body: inklecate always opens the c-N
-        // container with a "\n" (representing the line break after the user selects).
-        branch_nodes.push(Node::Newline);
-        body_already_emitted = true;
-    }
-    if !body_already_emitted {
-        branch_nodes.extend(choice.body.clone());
+        branch_nodes.extend(tokenize_inline_content(selected_text)?);
+    } else if choice.has_choice_only_content && !on_line.is_empty() {
+        branch_nodes.push(Node::Text(" ".to_owned()));
     }
+    branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
+    branch_nodes.extend(on_line.iter().cloned());
+    branch_nodes.push(Node::Newline);
+    branch_nodes.extend(below.iter().cloned());
 
     // Check if branch body contains nested choices (at any position)
     let has_nested_choices = branch_nodes.iter().any(|n| matches!(n, Node::Choice(_)));
@@ -138,7 +89,7 @@ fn emit_choice(
         continuation_path,
         None,
         false,
-        LooseEndNoFallback::None,
+        terminal.map_or(LooseEndNoFallback::None, LooseEndNoFallback::Token),
     ) {
         branch_container.push(token);
     }
diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index f0017e9..dd6efbd 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -144,7 +144,7 @@ fn emit_choice_block(
             choice,
             &block_scope,
             *next_choice_index,
-            continuation_path.as_deref(),
+            ChoiceEnd::at(continuation_path.as_deref()),
             context,
         )?;
         *next_choice_index += 1;
@@ -293,8 +293,6 @@ fn build_threaded_choice_block_no_label(
     let block_scope = scope
         .at_path(group_path.clone())
         .with_choice_labels(choice_labels);
-    let choices_prefix = group_path;
-
     let mut choices_group = EmittedContainer::default();
     let mut local_choice_index = *next_choice_index;
 
@@ -340,59 +338,28 @@ fn build_threaded_choice_block_no_label(
     let continuation_value = continuation_container.into_json_array(None, None)?;
 
     for choice in emit_choices {
-        let header_idx = choices_group.content.len();
-        let header_scope =
-            block_scope.at_path(joined_path(&block_scope.path, header_idx));
-        choices_group.push(emit_wrapped_loop_choice_header(
+        emit_choice(
+            &mut choices_group,
             choice,
-            &header_scope,
+            &block_scope,
             local_choice_index,
-            header_idx,
-            &choices_prefix,
+            ChoiceEnd::at(Some(&continuation_path_abs)),
             context,
-        )?);
-
-        let branch_name = format!("c-{local_choice_index}");
-        let branch_scope = block_scope.choice_branch(&branch_name);
-        choices_group.insert_named(
-            branch_name,
-            emit_wrapped_loop_choice_body(
-                choice,
-                &branch_scope,
-                WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx,
-                    choices_prefix: &choices_prefix,
-                    continuation_path: Some(&continuation_path_abs),
-                    continuation_terminal: None,
-                },
-                context,
-            )?,
-        );
+        )?;
 
         local_choice_index += 1;
         *next_choice_index += 1;
     }
 
     if let Some(fallback_choice) = fallback_choice {
-        let branch_name = format!("c-{local_choice_index}");
-        let branch_scope = block_scope.choice_branch(&branch_name);
-        choices_group.push(json!({"*": branch_scope.path, "flg": 8}));
-        choices_group.insert_named(
-            branch_name,
-            emit_wrapped_loop_choice_body(
-                fallback_choice,
-                &branch_scope,
-                WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx: 0,
-                    choices_prefix: &choices_prefix,
-                    continuation_path: Some(&continuation_path_abs),
-                    continuation_terminal: None,
-                },
-                context,
-            )?,
-        );
+        emit_choice(
+            &mut choices_group,
+            fallback_choice,
+            &block_scope,
+            local_choice_index,
+            ChoiceEnd::at(Some(&continuation_path_abs)),
+            context,
+        )?;
         *next_choice_index += 1;
     }
 
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 63603b5..952a08f 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -35,8 +35,6 @@ fn build_wrapped_loop_choice_block(
     let block_scope = scope
         .at_path(group_path.clone())
         .with_choice_labels(choice_labels);
-    let choices_prefix = group_path;
-
     let mut choices_group = EmittedContainer::default();
     let mut local_choice_index = *next_choice_index;
 
@@ -87,39 +85,19 @@ fn build_wrapped_loop_choice_block(
             continue;
         };
 
-        let header_idx = choices_group.content.len();
-        let header_scope =
-            block_scope.at_path(joined_path(&block_scope.path, header_idx));
-        choices_group.push(emit_wrapped_loop_choice_header(
+        emit_choice(
+            &mut choices_group,
             choice,
-            &header_scope,
+            &block_scope,
             local_choice_index,
-            header_idx,
-            &choices_prefix,
+            ChoiceEnd {
+                continuation_path: simple_terminal_fallback
+                    .is_none()
+                    .then_some(continuation_path_abs.as_str()),
+                terminal: simple_terminal_fallback,
+            },
             context,
-        )?);
-
-        let branch_name = format!("c-{local_choice_index}");
-        let branch_scope = block_scope.choice_branch(&branch_name);
-        choices_group.insert_named(
-            branch_name,
-            emit_wrapped_loop_choice_body(
-                choice,
-                &branch_scope,
-                WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx,
-                    choices_prefix: &choices_prefix,
-                    continuation_path: if simple_terminal_fallback.is_some() {
-                        None
-                    } else {
-                        Some(&continuation_path_abs)
-                    },
-                    continuation_terminal: simple_terminal_fallback,
-                },
-                context,
-            )?,
-        );
+        )?;
 
         local_choice_index += 1;
         *next_choice_index += 1;
@@ -133,200 +111,6 @@ fn build_wrapped_loop_choice_block(
     })
 }
 
-fn emit_wrapped_loop_choice_header(
-    choice: &Choice,
-    scope: &EmitScope,
-    choice_index: usize,
-    header_idx: usize,
-    choices_prefix: &str,
-    context: &EmitContext,
-) -> Result<Value, CompilerError> {
-    let mut arr = vec![
-        json!("ev"),
-        json!({"^->": format!("{choices_prefix}.{header_idx}.$r1")}),
-        json!({"temp=": "$r"}),
-        json!("str"),
-        json!({"->": joined_path(&scope.path, "s")}),
-        Value::Array(vec![json!({"#n": "$r1"})]),
-        json!("/str"),
-    ];
-
-    for (index, condition) in choice.conditions.iter().enumerate() {
-        emit_condition(condition, &mut arr, scope, context)?;
-        if index > 0 {
-            arr.push(json!("&&"));
-        }
-    }
-
-    arr.push(json!("/ev"));
-    arr.push(json!({
-        "*": joined_path(choices_prefix, format!("c-{choice_index}")),
-        "flg": choice_flags(choice)
-    }));
-
-    let mut s = Vec::new();
-    emit_choice_text_content(
-        &choice.start_text,
-        &choice.start_tags,
-        &mut s,
-        scope,
-        context,
-    )?;
-    emit_choice_text_content(
-        &choice.choice_only_text,
-        &choice.choice_only_tags,
-        &mut s,
-        scope,
-        context,
-    )?;
-    s.push(json!({"->": "$r", "var": true}));
-    s.push(Value::Null);
-    arr.push(json!({"s": s}));
-
-    Ok(Value::Array(arr))
-}
-
-struct WrappedLoopChoiceBodyConfig<'a> {
-    choice_index: usize,
-    header_idx: usize,
-    choices_prefix: &'a str,
-    continuation_path: Option<&'a str>,
-    continuation_terminal: Option<&'a str>,
-}
-
-fn emit_wrapped_loop_choice_body(
-    choice: &Choice,
-    branch_scope: &EmitScope,
-    config: WrappedLoopChoiceBodyConfig<'_>,
-    context: &EmitContext,
-) -> Result<Value, CompilerError> {
-    let mut branch_nodes = Vec::new();
-    let mut body_already_emitted = false;
-
-    if let Some(selected_text) = &choice.selected_text {
-        let recovered_inline_divert = if choice.body.is_empty() {
-            recover_selected_text_inline_divert(selected_text)
-        } else {
-            None
-        };
-
-        if choice.has_choice_only_content
-            && !choice.has_start_content
-            && matches!(choice.body.as_slice(), [Node::Divert(_)])
-        {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-            body_already_emitted = true;
-        } else if let Some((text, target)) = recovered_inline_divert {
-            if !text.is_empty() {
-                branch_nodes.extend(tokenize_inline_content(&text)?);
-            }
-            branch_nodes.push(Node::Divert(Divert {
-                target,
-                arguments: Vec::new(),
-            }));
-            body_already_emitted = true;
-        } else if !choice.has_start_content {
-            branch_nodes.extend(tokenize_inline_content(selected_text)?);
-        }
-        branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
-        if !body_already_emitted && !choice.has_start_content {
-            let body_is_terminal_divert = matches!(
-                choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
-            );
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && selected_text.ends_with(char::is_whitespace);
-            if !(body_is_terminal_divert && choice.body_divert_is_inline)
- && !body_is_inline_divert {
-                branch_nodes.push(Node::Newline);
-            }
-        }
-    } else if choice.has_choice_only_content
-        && !choice.has_start_content
-        && matches!(choice.body.as_slice(), [Node::Divert(_)])
-    {
-        if choice.body_divert_is_inline {
-            branch_nodes.push(Node::Text(" ".to_owned()));
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-        } else {
-            branch_nodes.push(Node::Newline);
-            branch_nodes.extend(choice.body.clone());
-        }
-        body_already_emitted = true;
-    } else if choice.has_choice_only_content && !choice.has_start_content {
-        branch_nodes.push(Node::Newline);
-    }
-
-    if !body_already_emitted {
-        branch_nodes.extend(choice.body.clone());
-    }
-
-    let has_nested_choices = branch_nodes.iter().any(|n| matches!(n, Node::Choice(_)));
-    let mut branch_container = if has_nested_choices {
-        emit_nodes_with_continuation(
-            &branch_nodes,
-            branch_scope,
-            context,
-            config.continuation_path,
-        )?
-    } else {
-        emit_nodes(&branch_nodes, branch_scope, context)?
-    };
-    let no_fallback = if let Some(token) = config.continuation_terminal {
-        LooseEndNoFallback::Token(token)
-    } else {
-        LooseEndNoFallback::None
-    };
-    if let Some(token) = loose_end_append_for_nodes(
-        &branch_nodes,
-        has_nested_choices,
-        config.continuation_path,
-        None,
-        false,
-        no_fallback,
-    ) {
-        branch_container.push(token);
-    }
-
-    let extra_flags = context
-        .flow_count_flags
-        .get(&branch_scope.path)
-        .copied()
-        .unwrap_or(0);
-    let mut flags = 0;
-    if choice.once_only || context.count_all_visits || (extra_flags & COUNT_VISITS != 0) {
-        flags |= COUNT_VISITS;
-    }
-    if extra_flags & COUNT_TURNS != 0 {
-        flags |= COUNT_TURNS;
-    }
-    let branch_count_flags = if flags > 0 { Some(flags | 4) } else { None };
-    if !choice.has_start_content {
-        return branch_container.into_json_array(None, branch_count_flags);
-    }
-
-    let mut arr = match branch_container.into_json_array(None, branch_count_flags)? {
-        Value::Array(arr) => arr,
-        _ => unreachable!(),
-    };
-    let last = arr.pop().unwrap();
-    let mut out = vec![
-        json!("ev"),
-        json!({"^->": format!("{}.c-{}.$r2", config.choices_prefix, config.choice_index)}),
-        json!("/ev"),
-        json!({"temp=": "$r"}),
-        json!({"->": format!("{}.{}.s", config.choices_prefix, config.header_idx)}),
-        Value::Array(vec![json!({"#n": "$r2"})]),
-        json!("\n"),
-    ];
-    out.append(&mut arr);
-    out.push(last);
-    Ok(Value::Array(out))
-}
-
 fn wrapped_loop_simple_terminal_fallback(nodes: &[Node]) -> Option<&'static str> {
     let mut iter = nodes
         .iter()
diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index 70c336f..39628d5 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -73,16 +73,6 @@ fn node_is_terminal(node: &Node) -> bool {
     }
 }
 
-fn recover_selected_text_inline_divert(selected_text: &str) -> Option<(String, String)> {
-    let (text, target) = selected_text.rsplit_once("->")?;
-    let target = target.trim();
-    if target.is_empty() || target.contains(' ') {
-        return None;
-    }
-
-    Some((text.trim_end().to_owned(), target.to_owned()))
-}
-
 fn choice_flags(choice: &Choice) -> i32 {
     let mut flags = 0;
     if !choice.conditions.is_empty() {
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index a78e594..ccf2377 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -489,12 +489,12 @@ fn emit_dynamic_string(
 }
 
 fn emit_text_and_glue(text: &str, out: &mut Vec<Value>) {
-    for (index, part) in text.split("<>").enumerate() {
-        if index > 0 {
-            out.push(json!("<>"));
-        }
-        if !part.is_empty() {
-            out.push(json!(format!("^{part}")));
+    // Escapes and glue are the same here as in a line of content.
+    for node in tokenize_inline_content(text).unwrap_or_default() {
+        match node {
+            Node::Glue => out.push(json!("<>")),
+            Node::Text(text) => out.push(json!(format!("^{text}"))),
+            _ => {}
         }
     }
 }
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 0f9fc87..cc67568 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -346,48 +346,26 @@ fn split_top_level_divert_segments(input: &str) -> Vec<&str> {
     segments
 }
 
-pub fn split_inline_divert(content: &str) -> Option<(&str, &str)> {
-    // Find the last "->" that is not inside braces/parens
-    let bytes = content.as_bytes();
-    let len = content.len();
+/// Where the text first matches, outside of braces and not escaped.
+pub fn find_top_level(content: &str, matches: impl Fn(&str) -> bool) -> Option<usize> {
     let mut depth = 0usize;
-    let mut arrow_pos: Option<usize> = None;
-
-    let mut i = 0;
-    while i < len {
-        match bytes[i] {
-            b'{' | b'(' => depth += 1,
-            b'}' | b')' => depth = depth.saturating_sub(1),
-            b'-' if depth == 0 && i + 1 < len && bytes[i + 1] == b'>' => {
-                arrow_pos = Some(i);
-                i += 2;
-                continue;
-            }
+    let mut escaped = false;
+    for (index, ch) in content.char_indices() {
+        match ch {
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
+            _ if depth == 0 && matches(&content[index..]) => return Some(index),
+            '{' => depth += 1,
+            '}' => depth = depth.saturating_sub(1),
             _ => {}
         }
-        i += 1;
-    }
-
-    let index = arrow_pos?;
-    let (text, rest) = content.split_at(index);
-    let divert = rest.strip_prefix("->")?.trim();
-    if divert.is_empty() {
-        None
-    } else {
-        Some((text, divert))
     }
-}
-
-pub fn split_inline_choice_divert(input: &str) -> Result<(&str, Option<Divert>), CompilerError> {
-    if let Some((text, divert_part)) = split_inline_divert(input) {
-        return Ok((text.trim_end(), Some(parse_divert(divert_part)?)));
-    }
-
-    Ok((input, None))
+    None
 }
 
 pub fn split_text_and_tags(input: &str) -> Result<(String, Vec<DynamicString>), CompilerError> {
-    if let Some((text, tag_text)) = input.split_once('#') {
+    if let Some(index) = find_top_level(input, |rest| rest.starts_with('#')) {
+        let (text, tag_text) = (&input[..index], &input[index + 1..]);
         // There may be multiple tags: `tag1 #tag2 #tag3`
         let tags = split_hash_tags(tag_text)?;
         return Ok((text.to_owned(), tags));
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index a9c75cb..2551a66 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -1,16 +1,11 @@
 use crate::{
-    ast::{Choice, Condition, Divert, DynamicString, Node},
+    ast::{Choice, Condition, DynamicString, Node},
     error::CompilerError,
 };
 
-use super::inline::parse_divert_line;
-
 use super::{
     Line, ParsedStatement,
-    inline::{
-        parse_condition, parse_divert, split_inline_choice_divert, split_inline_divert,
-        split_text_and_tags,
-    },
+    inline::{find_top_level, parse_condition, split_text_and_tags, tokenize_inline_content},
 };
 
 pub struct ParsedChoiceText {
@@ -20,9 +15,8 @@ pub struct ParsedChoiceText {
     pub choice_only_text: String,
     pub has_start_content: bool,
     pub has_choice_only_content: bool,
-    pub inline_target: Option<Divert>,
-    /// Additional body nodes emitted BEFORE inline_target (e.g. for ->-> target(args))
-    pub inline_body_nodes: Vec<Node>,
+    /// The diverts, tunnels and threads written on the choice line, after its text.
+    pub inline_body: Vec<Node>,
     pub start_tags: Vec<DynamicString>,
     pub choice_only_tags: Vec<DynamicString>,
     pub selected_tags: Vec<DynamicString>,
@@ -66,7 +60,7 @@ pub fn parse_choice(
     // Only scan when there is no start text yet on the header line.
     // We scan when: the header has conditions OR we absorb body conditions.
     let header_has_conditions = !conditions.is_empty();
-    if choice_text.start_text.is_empty() && choice_text.choice_only_text.is_empty() {
+    if remainder.trim().is_empty() {
         let mut absorbed_body_conditions = false;
         while *line_index < lines.len() {
             let peek = &lines[*line_index];
@@ -90,10 +84,7 @@ pub fn parse_choice(
                     *line_index += 1;
                     if !after_close.is_empty() {
                         // Remaining text after `{ cond }` becomes the display text
-                        choice_text.display_text = after_close.to_owned();
-                        choice_text.start_text = after_close.to_owned();
-                        choice_text.selected_text = Some(after_close.to_owned());
-                        choice_text.has_start_content = true;
+                        choice_text = parse_choice_text(after_close)?;
                         is_invisible_default = false;
                         break;
                     }
@@ -110,10 +101,7 @@ pub fn parse_choice(
                 {
                     break;
                 }
-                choice_text.display_text = peek_trimmed.to_owned();
-                choice_text.start_text = peek_trimmed.to_owned();
-                choice_text.selected_text = Some(peek_trimmed.to_owned());
-                choice_text.has_start_content = true;
+                choice_text = parse_choice_text(peek_trimmed)?;
                 is_invisible_default = false;
                 *line_index += 1;
                 break;
@@ -128,12 +116,8 @@ pub fn parse_choice(
     // (choices, text, etc.) becomes part of this choice's body continuation.
     let mut absorbed_gather = false;
 
-    for node in choice_text.inline_body_nodes.clone() {
-        body.push(node);
-    }
-    if let Some(divert) = choice_text.inline_target.clone() {
-        body.push(Node::Divert(divert));
-    }
+    let inline_body_len = choice_text.inline_body.len();
+    body.append(&mut choice_text.inline_body);
 
     while *line_index < lines.len() {
         let body_line = &lines[*line_index];
@@ -229,7 +213,7 @@ pub fn parse_choice(
         choice_only_tags: choice_text.choice_only_tags,
         selected_tags: choice_text.selected_tags,
         nesting_level,
-        body_divert_is_inline: choice_text.inline_target.is_some(),
+        inline_body_len,
     })]))
 }
 
@@ -295,8 +279,7 @@ pub fn parse_choice_prefixes(
 }
 
 pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError> {
-    let input = input.trim_start();
-    let trimmed = input.trim_end();
+    let trimmed = input.trim_start();
     // `\ ` at the start of choice content is a whitespace-suppression escape —
     // strip the backslash but keep what follows (may start with a space that itself gets trimmed).
     let trimmed = trimmed
@@ -304,155 +287,75 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         .map(str::trim_start)
         .unwrap_or(trimmed);
 
-    if trimmed.starts_with("->->") {
-        // `* ->-> target(args)` — tunnel return with optional new destination
-        let nodes = parse_divert_line(trimmed)?;
-        return Ok(ParsedChoiceText {
-            display_text: String::new(),
-            selected_text: None,
-            start_text: String::new(),
-            choice_only_text: String::new(),
-            has_start_content: false,
-            has_choice_only_content: false,
-            inline_target: None,
-            inline_body_nodes: nodes,
-            start_tags: Vec::new(),
-            choice_only_tags: Vec::new(),
-            selected_tags: Vec::new(),
-        });
-    }
-
-    if let Some(target) = trimmed.strip_prefix("->") {
-        let inline_target = if target.trim().is_empty() {
-            None
-        } else {
-            Some(parse_divert(target.trim())?)
-        };
-        return Ok(ParsedChoiceText {
-            display_text: String::new(),
-            selected_text: None,
-            start_text: String::new(),
-            choice_only_text: String::new(),
-            has_start_content: false,
-            has_choice_only_content: false,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags: Vec::new(),
-            choice_only_tags: Vec::new(),
-            selected_tags: Vec::new(),
-        });
-    }
-
-    if let Some(choice_only) = input.strip_prefix('[') {
-        let end = choice_only.find(']').ok_or_else(|| {
-            CompilerError::invalid_source("choice label is missing closing ']'".to_owned())
-        })?;
-        let label = choice_only[..end].trim().to_owned();
-        let raw_after_label = &choice_only[end + 1..];
-        let after_label = if raw_after_label.trim().is_empty() {
-            raw_after_label
-        } else {
-            raw_after_label.trim_start()
-        };
-        let (choice_only_text, choice_only_tags) = split_text_and_tags(&label)?;
-        if after_label.is_empty() || after_label.starts_with("->") {
-            let inline_target = after_label
-                .strip_prefix("->")
-                .map(str::trim)
-                .map(parse_divert)
-                .transpose()?;
-            return Ok(ParsedChoiceText {
-                display_text: choice_only_text.clone(),
-                selected_text: None,
-                start_text: String::new(),
-                choice_only_text,
-                has_start_content: false,
-                has_choice_only_content: true,
-                inline_target,
-                inline_body_nodes: Vec::new(),
-                start_tags: Vec::new(),
-                choice_only_tags,
-                selected_tags: Vec::new(),
-            });
+    // The text comes first, then the diverts of the line.
+    let text_end = find_top_level(trimmed, |rest| {
+        rest.starts_with("->") || rest.starts_with("<-")
+    });
+    let (text, diverts) = trimmed.split_at(text_end.unwrap_or(trimmed.len()));
+    let inline_body = match diverts.trim_end() {
+        "" | "->" => Vec::new(),
+        diverts => tokenize_inline_content(diverts)?,
+    };
+
+    let (start, choice_only, end) = match find_top_level(text, |rest| rest.starts_with('[')) {
+        Some(open) => {
+            let inner = &text[open + 1..];
+            let close = find_top_level(inner, |rest| rest.starts_with(']')).ok_or_else(|| {
+                CompilerError::invalid_source("choice label is missing closing ']'".to_owned())
+            })?;
+            (&text[..open], &inner[..close], &inner[close + 1..])
         }
-
-        let (selected_text, inline_target) = split_inline_choice_divert(after_label)?;
-        let (selected_text, selected_tags) = split_text_and_tags(selected_text)?;
-        return Ok(ParsedChoiceText {
-            display_text: choice_only_text.clone(),
-            selected_text: Some(selected_text),
-            start_text: String::new(),
-            choice_only_text,
-            has_start_content: false,
-            has_choice_only_content: true,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags: Vec::new(),
-            choice_only_tags,
-            selected_tags,
-        });
-    }
-
-    if let Some(open) = trimmed.find('[')
-        && let Some(close_rel) = trimmed[open + 1..].find(']')
-    {
-        let close = open + 1 + close_rel;
-        let choice_only = trimmed[open + 1..close].trim_end();
-        let raw_end = &trimmed[close + 1..];
-        let (end, inline_target) = match split_inline_divert(raw_end) {
-            Some((text, divert)) => (text, Some(parse_divert(divert)?)),
-            None => (raw_end, None),
-        };
-        let (start_text, start_tags) = split_text_and_tags(&trimmed[..open])?;
-        let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only)?;
-        let (end_text, end_tags) = split_text_and_tags(end)?;
-        // Quotes closed right after the bracket are shown with the choice, unless the choice
-        // text closes them itself.
-        let display_suffix: String = end_text
+        None => (text, "", ""),
+    };
+
+    let (start_text, start_tags) = split_text_and_tags(start)?;
+    let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only.trim_end())?;
+    let (end_text, end_tags) = split_text_and_tags(end)?;
+
+    let start_text = if start_text.trim().is_empty() {
+        String::new()
+    } else {
+        start_text
+    };
+    let choice_only_text = if choice_only_text.trim().is_empty() {
+        String::new()
+    } else {
+        choice_only_text
+    };
+    // Quotes closed right after the bracket are shown with the choice, unless the choice
+    // text closes them itself.
+    let display_suffix: String = if start_text.is_empty() {
+        String::new()
+    } else {
+        end_text
             .chars()
             .take_while(|c| c.is_ascii_punctuation())
             .filter(|c| matches!(c, '\'' | '"' | ')' | ']'))
-            .collect();
-        let choice_only_text =
-            if choice_only_text.is_empty() || choice_only_text.ends_with(&display_suffix) {
-                choice_only_text
-            } else {
-                format!("{choice_only_text}{display_suffix}")
-            };
-        let mut selected_tags = start_tags.clone();
-        selected_tags.extend(end_tags);
-        return Ok(ParsedChoiceText {
-            display_text: format!("{start_text}{choice_only_text}"),
-            selected_text: Some(format!("{start_text}{end_text}")),
-            has_start_content: !start_text.trim().is_empty() || !start_tags.is_empty(),
-            has_choice_only_content: !choice_only_text.is_empty() || !choice_only_tags.is_empty(),
-            start_text,
-            choice_only_text,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags,
-            choice_only_tags,
-            selected_tags,
-        });
-    }
+            .collect()
+    };
+    let choice_only_text =
+        if choice_only_text.is_empty() || choice_only_text.ends_with(&display_suffix) {
+            choice_only_text
+        } else {
+            format!("{choice_only_text}{display_suffix}")
+        };
+
+    let has_end = !end_text.is_empty() || !end_tags.is_empty();
+    let has_start_content = !start_text.is_empty() || !start_tags.is_empty();
+    let selected_text = (has_start_content || has_end).then(|| format!("{start_text}{end_text}"));
+    let mut selected_tags = start_tags.clone();
+    selected_tags.extend(end_tags);
 
-    let (trimmed, inline_target) = split_inline_choice_divert(trimmed)?;
-    let (start_text, start_tags) = split_text_and_tags(trimmed)?;
     Ok(ParsedChoiceText {
-        display_text: start_text.clone(),
-        selected_text: if start_text.is_empty() {
-            None
-        } else {
-            Some(start_text.clone())
-        },
-        start_text: start_text.clone(),
-        choice_only_text: String::new(),
-        has_start_content: !start_text.is_empty(),
-        has_choice_only_content: false,
-        inline_target,
-        inline_body_nodes: Vec::new(),
-        selected_tags: start_tags.clone(),
+        display_text: format!("{start_text}{choice_only_text}"),
+        selected_text,
+        has_start_content,
+        has_choice_only_content: !choice_only_text.is_empty() || !choice_only_tags.is_empty(),
+        start_text,
+        choice_only_text,
+        inline_body,
         start_tags,
-        choice_only_tags: Vec::new(),
+        choice_only_tags,
+        selected_tags,
     })
 }
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index d64d184..f17026e 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -8,13 +8,7 @@ fn parse_content_line(
         line.content
     };
 
-    let mut nodes = Vec::new();
-    if let Some((text_part, divert_part)) = split_inline_divert(content) {
-        nodes.extend(tokenize_inline_content(text_part)?);
-        nodes.push(Node::Divert(parse_divert(divert_part)?));
-    } else {
-        nodes.extend(tokenize_inline_content(content)?);
-    }
+    let mut nodes = tokenize_inline_content(content)?;
 
     if line.had_newline {
         // Trim trailing whitespace from the last text node (inklecate behavior)
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index aeb1ecc..65cde11 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -13,10 +13,7 @@ use self::{
     choice::parse_choice,
     conditional::{looks_like_conditional, parse_conditional},
     expression::{parse_bool, parse_call_like, parse_expression, parse_path_identifier},
-    inline::{
-        parse_divert, parse_divert_line, parse_dynamic_string, split_inline_divert,
-        tokenize_inline_content,
-    },
+    inline::{parse_divert, parse_divert_line, parse_dynamic_string, tokenize_inline_content},
     sequence::{looks_like_sequence, parse_sequence},
 };
 
-- 
2.43.0


From 7d1bde6790149155b8563fae7a4b852c678733e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 35/62] fix: a list item qualified with the name of its list is
 that item

---
 compiler/src/emitter/expression.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index ccf2377..a04e9d1 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -300,6 +300,10 @@ fn emit_expression_ctx(
             } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
             {
                 out.push(json!({"CNT?": path}))
+            } else if name.contains('.')
+                && context.is_some_and(|ctx| ctx.resolve_list_item(name).is_some())
+            {
+                out.push(json!({"VAR?": name}))
             } else if let (Some(s), Some(ctx)) = (scope, context)
                 && name.contains('.')
             {
-- 
2.43.0


From f2e30c69c0cd6478c8367b85afbd5d3bb18d5422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 36/62] fix: a global variable can start as a list of several
 items

---
 compiler/src/emitter/context.rs    | 9 +++++++--
 compiler/src/emitter/expression.rs | 4 ----
 compiler/src/emitter/flow.rs       | 9 ++++++++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index cfe5871..1aa25e0 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -40,8 +40,13 @@ pub fn story_to_json_value(
     if !story.globals().is_empty() || !story.list_declarations().is_empty() {
         named_content.insert(
             "global decl".to_owned(),
-            emit_global_declarations(story.globals(), story.list_declarations())?
-                .into_json_array(None, None)?,
+            emit_global_declarations(
+                story.globals(),
+                story.list_declarations(),
+                &root_scope,
+                &context,
+            )?
+            .into_json_array(None, None)?,
         );
     }
 
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index a04e9d1..d8c78fb 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -223,10 +223,6 @@ fn emit_assignment(
     }
 }
 
-fn emit_expression(expression: &Expression, out: &mut Vec<Value>) {
-    emit_expression_ctx(expression, out, None, None);
-}
-
 fn emit_expression_ctx(
     expression: &Expression,
     out: &mut Vec<Value>,
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 801e490..ac3b325 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -1,6 +1,8 @@
 fn emit_global_declarations(
     globals: &[GlobalVariable],
     list_decls: &[ListDeclaration],
+    scope: &EmitScope,
+    context: &EmitContext,
 ) -> Result<EmittedContainer, CompilerError> {
     let mut container = EmittedContainer::default();
     container.push(json!("ev"));
@@ -26,7 +28,12 @@ fn emit_global_declarations(
     }
 
     for global in globals {
-        emit_expression(&global.initial_value, &mut container.content);
+        emit_expression_ctx(
+            &global.initial_value,
+            &mut container.content,
+            Some(context),
+            Some(scope),
+        );
         container.push(json!({ "VAR=": global.name }));
     }
 
-- 
2.43.0


From e82f4a08de10121d8aca6b53a59c7bfa56631bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 37/62] fix: operators bind as in the reference compiler

---
 compiler/src/parser/expression.rs | 210 +++++-------------------------
 1 file changed, 35 insertions(+), 175 deletions(-)

diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 1280cbf..f41c8e7 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -324,32 +324,21 @@ impl ExpressionParser {
     }
 
     fn parse_expression(&mut self) -> Result<Expression, CompilerError> {
-        self.parse_or()
+        self.parse_binary(0)
     }
 
-    fn parse_or(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_and()?;
-
-        while self.match_token(&Token::OrOr) {
-            let right = self.parse_and()?;
-            expression = Expression::Binary {
-                left: Box::new(expression),
-                operator: BinaryOperator::Or,
-                right: Box::new(right),
-            };
-        }
-
-        Ok(expression)
-    }
-
-    fn parse_and(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_equality()?;
+    /// Operands joined by operators that bind more tightly than `min_precedence`.
+    fn parse_binary(&mut self, min_precedence: u8) -> Result<Expression, CompilerError> {
+        let mut expression = self.parse_unary()?;
 
-        while self.match_token(&Token::AndAnd) {
-            let right = self.parse_equality()?;
+        while let Some((operator, precedence)) = self.peek().and_then(binary_operator)
+            && precedence > min_precedence
+        {
+            self.current += 1;
+            let right = self.parse_binary(precedence)?;
             expression = Expression::Binary {
                 left: Box::new(expression),
-                operator: BinaryOperator::And,
+                operator,
                 right: Box::new(right),
             };
         }
@@ -361,141 +350,6 @@ impl ExpressionParser {
         self.current >= self.tokens.len()
     }
 
-    fn parse_equality(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_comparison()?;
-
-        loop {
-            if self.match_token(&Token::EqualEqual) {
-                let right = self.parse_comparison()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Equal,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::NotEqual) {
-                let right = self.parse_comparison()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::NotEqual,
-                    right: Box::new(right),
-                };
-            } else {
-                break;
-            }
-        }
-
-        Ok(expression)
-    }
-
-    fn parse_comparison(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_addition()?;
-
-        loop {
-            if self.match_token(&Token::Greater) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Greater,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::GreaterEqual) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::GreaterEqual,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Less) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Less,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::LessEqual) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::LessEqual,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Has) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Has,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Hasnt) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Hasnt,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Caret) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Intersect,
-                    right: Box::new(right),
-                };
-            } else {
-                break;
-            }
-        }
-
-        Ok(expression)
-    }
-
-    fn parse_addition(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_multiplication()?;
-
-        while let Some(operator) = self.match_additive_operator() {
-            let right = self.parse_multiplication()?;
-            expression = Expression::Binary {
-                left: Box::new(expression),
-                operator,
-                right: Box::new(right),
-            };
-        }
-
-        Ok(expression)
-    }
-
-    fn parse_multiplication(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_unary()?;
-
-        loop {
-            if self.match_token(&Token::Star) {
-                let right = self.parse_unary()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Multiply,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Slash) {
-                let right = self.parse_unary()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Divide,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Percent) || self.match_identifier("mod") {
-                let right = self.parse_unary()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Modulo,
-                    right: Box::new(right),
-                };
-            } else {
-                break;
-            }
-        }
-
-        Ok(expression)
-    }
-
     fn parse_unary(&mut self) -> Result<Expression, CompilerError> {
         if self.match_token(&Token::Bang) {
             let expr = self.parse_unary()?;
@@ -586,16 +440,6 @@ impl ExpressionParser {
         }
     }
 
-    fn match_additive_operator(&mut self) -> Option<BinaryOperator> {
-        if self.match_token(&Token::Plus) {
-            Some(BinaryOperator::Add)
-        } else if self.match_token(&Token::Minus) {
-            Some(BinaryOperator::Subtract)
-        } else {
-            None
-        }
-    }
-
     fn match_token(&mut self, token: &Token) -> bool {
         if self.peek() == Some(token) {
             self.current += 1;
@@ -605,15 +449,6 @@ impl ExpressionParser {
         }
     }
 
-    fn match_identifier(&mut self, name: &str) -> bool {
-        if self.peek() == Some(&Token::Ident(name.to_owned())) {
-            self.current += 1;
-            true
-        } else {
-            false
-        }
-    }
-
     fn advance(&mut self) -> Option<Token> {
         let token = self.tokens.get(self.current).cloned();
         if token.is_some() {
@@ -627,6 +462,31 @@ impl ExpressionParser {
     }
 }
 
+/// The operator that a token stands for between two operands, with its precedence: as in
+/// inklecate, every arithmetic operator has one of its own, while `and` and `or` share one.
+fn binary_operator(token: &Token) -> Option<(BinaryOperator, u8)> {
+    Some(match token {
+        Token::AndAnd => (BinaryOperator::And, 1),
+        Token::OrOr => (BinaryOperator::Or, 1),
+        Token::EqualEqual => (BinaryOperator::Equal, 2),
+        Token::NotEqual => (BinaryOperator::NotEqual, 2),
+        Token::Greater => (BinaryOperator::Greater, 2),
+        Token::GreaterEqual => (BinaryOperator::GreaterEqual, 2),
+        Token::Less => (BinaryOperator::Less, 2),
+        Token::LessEqual => (BinaryOperator::LessEqual, 2),
+        Token::Has => (BinaryOperator::Has, 3),
+        Token::Hasnt => (BinaryOperator::Hasnt, 3),
+        Token::Caret => (BinaryOperator::Intersect, 3),
+        Token::Plus => (BinaryOperator::Add, 4),
+        Token::Minus => (BinaryOperator::Subtract, 5),
+        Token::Star => (BinaryOperator::Multiply, 6),
+        Token::Slash => (BinaryOperator::Divide, 7),
+        Token::Percent => (BinaryOperator::Modulo, 8),
+        Token::Ident(name) if name == "mod" => (BinaryOperator::Modulo, 8),
+        _ => return None,
+    })
+}
+
 /// Extract the name string from an expression for use in a list literal.
 fn expr_to_list_item_name(expr: &Expression) -> Result<String, CompilerError> {
     match expr {
-- 
2.43.0


From cd20f133dd7c161ada2d9a16dec25d224036ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 38/62] fix: an emptied list remembers the lists its items were
 of

---
 runtime/src/ink_list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index 21b5135..3867b37 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -59,7 +59,7 @@ impl InkList {
             ink_list.items.insert(item.clone(), *value);
         }
 
-        ink_list.initial_origin_names = other_list.initial_origin_names.clone();
+        ink_list.set_initial_origin_names(other_list.get_origin_names());
 
         ink_list.origins = other_list.origins.clone();
 
@@ -206,7 +206,7 @@ impl InkList {
         }
 
         let mut sub_list = InkList::new();
-        sub_list.set_initial_origin_names(self.initial_origin_names.borrow().clone());
+        sub_list.set_initial_origin_names(self.get_origin_names());
 
         for (k, v) in ordered {
             if *v >= min_value && *v <= max_value {
-- 
2.43.0


From 4003757a05a213acca88830b3f0ae816f6068fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 39/62] verification hook: access to a story's content under
 cfg(verif_hooks)

---
 runtime/src/lib.rs         |  3 +++
 runtime/src/verif_hooks.rs | 40 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)
 create mode 100644 runtime/src/verif_hooks.rs

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index 3c0587d..993ba84 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -44,6 +44,7 @@
 //! features will be added to this documentation in the future, but meanwhile,
 //! all the examples can be found in the `runtime/tests` folder in the source code
 //! of this crate.
+#![allow(unexpected_cfgs)]
 
 mod callstack;
 pub mod choice;
@@ -74,4 +75,6 @@ pub mod value_type;
 mod variable_assigment;
 mod variable_reference;
 mod variables_state;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 mod void;
diff --git a/runtime/src/verif_hooks.rs b/runtime/src/verif_hooks.rs
new file mode 100644
index 0000000..cfe1bbd
--- /dev/null
+++ b/runtime/src/verif_hooks.rs
@@ -0,0 +1,40 @@
+//! Access to the internals of a story, for the verification machinery only: compiled in with
+//! `--cfg verif_hooks`, which no build of the crate sets by itself.
+use std::rc::Rc;
+
+pub use crate::{
+    choice_point::ChoicePoint,
+    container::Container,
+    divert::Divert,
+    json::json_write::write_rtobject,
+    list_definitions_origin::ListDefinitionsOrigin,
+    object::{IntoAny, Object, RTObject},
+    path::{Component, Path},
+    pointer::Pointer,
+    value::Value,
+    variable_reference::VariableReference,
+};
+use crate::{
+    json::{json_read, json_read_stream},
+    story::Story,
+    story_error::StoryError,
+};
+
+/// Version, content and list definitions, as either loader reads them
+pub type Loaded = (i32, Rc<Container>, Rc<ListDefinitionsOrigin>);
+
+pub fn load(json: &str, stream: bool) -> Result<Loaded, StoryError> {
+    if stream {
+        json_read_stream::load_from_string(json)
+    } else {
+        json_read::load_from_string(json)
+    }
+}
+
+pub fn content(story: &Story) -> Rc<Container> {
+    story.get_main_content_container()
+}
+
+pub fn pointer_at_path(root: &Rc<Container>, path: &Path) -> Result<Pointer, StoryError> {
+    Story::pointer_at_path(root, path)
+}
-- 
2.43.0


From 0e1161aae520bdfe62e14f675cd8140d07e1aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 40/62] fix: a container whose name cannot lead to it has a
 path by its index

Two contents of one name, a name of digits, with a dot or "^" gave an
object a path that resolves to another one. Named content with such a name
is refused, and has the name that it is found by.
---
 runtime/src/json/json_read.rs        | 18 ++++++++++--------
 runtime/src/json/json_read_stream.rs | 12 ++++++++++--
 runtime/src/object.rs                |  8 +++++++-
 runtime/src/path.rs                  | 13 +++++++++++--
 4 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index f900bb1..554c9d2 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -15,7 +15,7 @@ use crate::{
     list_definitions_origin::ListDefinitionsOrigin,
     native_function_call::NativeFunctionCall,
     object::RTObject,
-    path::Path,
+    path::{Component, Path},
     push_pop::PushPopType,
     story::{INK_VERSION_CURRENT, INK_VERSION_MINIMUM_COMPATIBLE},
     story_error::StoryError,
@@ -433,7 +433,7 @@ fn jarray_to_container(
             ));
         }
     };
-    let mut name: Option<String> = name;
+    let mut own_name: Option<String> = None;
     let mut flags = 0;
 
     let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
@@ -442,11 +442,12 @@ fn jarray_to_container(
         for (k, v) in terminating_obj {
             match k.as_str() {
                 "#f" => flags = jtoken_to_i32(v)?,
-                "#n" => name = Some(jtoken_to_str(v)?.to_string()),
-                "" => {
-                    return Err(StoryError::BadJson(
-                        "Named content without a name".to_owned(),
-                    ));
+                "#n" => own_name = Some(jtoken_to_str(v)?.to_string()),
+                k if !Component::is_valid_name(k) => {
+                    return Err(StoryError::BadJson(format!(
+                        "Named content with the invalid name '{}'",
+                        k
+                    )));
                 }
                 k => {
                     let named_content_item = jtoken_to_runtime_object(v, Some(k.to_string()))?;
@@ -467,8 +468,9 @@ fn jarray_to_container(
         }
     }
 
+    // Named content has the name that it is found by
     let container = Container::new(
-        name,
+        name.or(own_name),
         flags,
         jarray_to_runtime_obj_list(jarray, true)?,
         named_only_content,
diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index e3f2b5f..5a127d8 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -10,6 +10,7 @@ use crate::{
     container::Container,
     list_definitions_origin::ListDefinitionsOrigin,
     object::RTObject,
+    path::Component,
     story::{INK_VERSION_CURRENT, INK_VERSION_MINIMUM_COMPATIBLE},
     story_error::StoryError,
 };
@@ -165,8 +166,9 @@ fn continue_container(
         ));
     };
 
+    // Named content has the name that it is found by
     Ok(Container::new(
-        own_name.or(name),
+        name.or(own_name),
         flags,
         content,
         named_only_content,
@@ -233,9 +235,15 @@ fn properties_to_terminator(properties: Vec<(String, Property)>) -> Result<Termi
         match (key.as_str(), property) {
             ("#f", Property::Other(value)) => flags = json_read::jtoken_to_i32(&value)?,
             ("#n", Property::Other(Value::String(value))) => name = Some(value),
-            ("", _) | ("#f", _) | ("#n", _) => {
+            ("#f", _) | ("#n", _) => {
                 return Err(StoryError::BadJson("Invalid end of a container".to_owned()));
             }
+            (name, _) if !Component::is_valid_name(name) => {
+                return Err(StoryError::BadJson(format!(
+                    "Named content with the invalid name '{}'",
+                    name
+                )));
+            }
             (_, Property::Container(container)) => {
                 named_only_content.insert(key, container);
             }
diff --git a/runtime/src/object.rs b/runtime/src/object.rs
index e057ba1..04eebcb 100644
--- a/runtime/src/object.rs
+++ b/runtime/src/object.rs
@@ -56,11 +56,17 @@ impl Object {
                 while let Some(c) = container {
                     let mut child_valid_name = false;
 
+                    // A name that doesn't lead to the child isn't part of its path
                     if let Some(cc) = child.downcast_ref::<Container>()
                         && cc.has_valid_name()
+                        && let Some(name) = &cc.name
+                        && c.named_content
+                            .get(name)
+                            .is_some_and(|named| std::ptr::eq(named.as_ref(), cc))
+                        && Component::is_valid_name(name)
                     {
                         child_valid_name = true;
-                        comps.push(Component::new(cc.name.as_ref().unwrap()));
+                        comps.push(Component::new(name));
                     }
 
                     if !child_valid_name {
diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index 80c7fbd..cfaebcf 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -62,8 +62,7 @@ impl Path {
         // A lone "." is the relative path without components
         if !cs.is_empty() {
             for str in cs.split('.') {
-                // Only digits are an index ("+5", for instance, is a name)
-                let index = if str.bytes().all(|b| b.is_ascii_digit()) {
+                let index = if Component::is_index_text(str) {
                     str.parse::<usize>().ok()
                 } else {
                     None
@@ -242,6 +241,16 @@ impl Component {
         }
     }
 
+    /// Whether the text of a path can have the name as one of its components
+    pub fn is_valid_name(name: &str) -> bool {
+        name != PARENT_ID && !name.contains('.') && !Self::is_index_text(name)
+    }
+
+    // Only digits are an index ("+5", for instance, is a name)
+    fn is_index_text(text: &str) -> bool {
+        text.bytes().all(|b| b.is_ascii_digit())
+    }
+
     pub fn to_parent() -> Component {
         Component::new(PARENT_ID)
     }
-- 
2.43.0


From 6f586b83bc32647f6b05e0a91ef575eb2505cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 41/62] fix: the compiler refuses sources it cannot turn into a
 story that loads

Characters beyond ASCII in expressions and unclosed arguments panicked, deep nesting exhausted
the stack or gave JSON that cannot be read back, names that paths cannot hold and references to
nothing were accepted, and so were initial values that cannot be computed.
---
 compiler/src/emitter/context.rs     |  98 +++++++++++++++++++++--
 compiler/src/emitter/expression.rs  | 107 ++++++++++++-------------
 compiler/src/emitter/flow.rs        |  49 +++++++-----
 compiler/src/emitter/mod.rs         |   2 +
 compiler/src/emitter/nodes.rs       |   3 +-
 compiler/src/emitter/path.rs        |  26 +++++--
 compiler/src/inline.rs              |  38 ++++-----
 compiler/src/lib.rs                 |   1 +
 compiler/src/nesting.rs             | 116 ++++++++++++++++++++++++++++
 compiler/src/parser/choice.rs       |  19 ++++-
 compiler/src/parser/conditional.rs  |   2 +
 compiler/src/parser/declarations.rs |  17 ++++
 compiler/src/parser/expression.rs   |  60 ++++++++++----
 compiler/src/parser/mod.rs          |   1 +
 compiler/src/parser/statement.rs    |   7 +-
 compiler/src/parser/story.rs        |   1 +
 compiler/src/parser/types.rs        |  10 +++
 compiler/src/validator/symbols.rs   |   2 +-
 18 files changed, 436 insertions(+), 123 deletions(-)
 create mode 100644 compiler/src/nesting.rs

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 1aa25e0..0e7c53d 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -12,16 +12,100 @@ pub fn story_to_json_string(
     count_all_visits: bool,
 ) -> Result<String, CompilerError> {
     let json = story_to_json_value(story, count_all_visits)?;
-    serde_json::to_string(&json).map_err(|error| {
+    if nesting_depth(&json) > MAX_JSON_DEPTH {
+        return Err(content_too_deep());
+    }
+    let compiled = serde_json::to_string(&json).map_err(|error| {
         CompilerError::invalid_source(format!("failed to serialize compiled ink: {error}"))
-    })
+    })?;
+    check_initial_values(story, &compiled)?;
+    Ok(compiled)
+}
+
+fn nesting_depth(value: &Value) -> usize {
+    match value {
+        Value::Array(values) => 1 + values.iter().map(nesting_depth).max().unwrap_or(0),
+        Value::Object(map) => 1 + map.values().map(nesting_depth).max().unwrap_or(0),
+        _ => 0,
+    }
+}
+
+/// The initial values of the globals are computed when the story is loaded, so they must be
+/// computable without playing any of it.
+fn check_initial_values(story: &ParsedStory, compiled: &str) -> Result<(), CompilerError> {
+    let mut computed = false;
+    for global in story.globals() {
+        computed |= is_computed(&global.initial_value, story).map_err(|error| {
+            CompilerError::invalid_source(format!(
+                "invalid initial value of '{}': {}",
+                global.name,
+                error.message()
+            ))
+        })?;
+    }
+    if computed {
+        bladeink::story::Story::new(compiled).map_err(|error| {
+            CompilerError::invalid_source(format!(
+                "the initial values of the variables cannot be computed: {error}"
+            ))
+        })?;
+    }
+    Ok(())
+}
+
+/// Whether there is anything to compute, or an error if that takes content of the story.
+fn is_computed(expression: &Expression, story: &ParsedStory) -> Result<bool, CompilerError> {
+    let content = |what: &str| CompilerError::invalid_source(format!("it has {what}"));
+    match expression {
+        Expression::Bool(_)
+        | Expression::Int(_)
+        | Expression::Float(_)
+        | Expression::DivertTarget(_)
+        | Expression::ListItems(_)
+        | Expression::EmptyList => Ok(false),
+        Expression::Variable(_) => Ok(true),
+        Expression::Str(value) => {
+            let mut computed = false;
+            for part in parse_dynamic_string(value)?.parts {
+                match part {
+                    DynamicStringPart::Text(_) => {}
+                    DynamicStringPart::Expression(inner) => {
+                        is_computed(&inner, story)?;
+                        computed = true;
+                    }
+                    DynamicStringPart::Sequence(_) => return Err(content("an alternative")),
+                    DynamicStringPart::Conditional(_) => return Err(content("a conditional")),
+                }
+            }
+            Ok(computed)
+        }
+        Expression::Negate(inner) | Expression::Not(inner) => {
+            is_computed(inner, story)?;
+            Ok(true)
+        }
+        Expression::Binary { left, right, .. } => {
+            is_computed(left, story)?;
+            is_computed(right, story)?;
+            Ok(true)
+        }
+        Expression::FunctionCall { name, args } => {
+            let is_list = story.list_declarations().iter().any(|list| list.name == *name);
+            if !is_list && !is_builtin_function(name) {
+                return Err(content(&format!("a call of '{name}'")));
+            }
+            for arg in args {
+                is_computed(arg, story)?;
+            }
+            Ok(true)
+        }
+    }
 }
 
 pub fn story_to_json_value(
     story: &ParsedStory,
     count_all_visits: bool,
 ) -> Result<Value, CompilerError> {
-    let context = EmitContext::new(story, count_all_visits);
+    let context = EmitContext::new(story, count_all_visits)?;
     let root_scope = EmitScope::root(story.flows());
 
     let mut root_container =
@@ -315,7 +399,7 @@ fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<
 }
 
 impl EmitContext {
-    fn new(story: &ParsedStory, count_all_visits: bool) -> Self {
+    fn new(story: &ParsedStory, count_all_visits: bool) -> Result<Self, CompilerError> {
         let mut list_items = std::collections::BTreeMap::new();
         for list_decl in story.list_declarations() {
             let items: Vec<(String, i32)> = list_decl
@@ -325,7 +409,7 @@ impl EmitContext {
                 .collect();
             list_items.insert(list_decl.name.clone(), items);
         }
-        let qualified_choice_labels = collect_story_choice_labels(story);
+        let qualified_choice_labels = collect_story_choice_labels(story)?;
         let unqualified_flow_targets = collect_unqualified_flow_targets(story);
         let mut raw_flow_count_flags = BTreeMap::new();
         collect_flow_count_flags_from_nodes(story.root(), &mut raw_flow_count_flags);
@@ -370,7 +454,7 @@ impl EmitContext {
                 )
             })
             .collect();
-        Self {
+        Ok(Self {
             global_variables: story.globals().iter().map(|var| var.name.clone()).collect(),
             top_flow_names: story.flows().iter().map(|flow| flow.name.clone()).collect(),
             count_all_visits,
@@ -385,7 +469,7 @@ impl EmitContext {
             qualified_choice_labels,
             function_ref_param_positions,
             unqualified_flow_targets,
-        }
+        })
     }
 
     /// Look up a bare item name (e.g. "b") across all lists.
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index d8c78fb..ab3ea78 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -429,35 +429,49 @@ fn emit_expression_ctx(
         Expression::EmptyList => {
             out.push(json!({"list": {}}));
         }
-        Expression::Binary {
-            left,
-            operator,
-            right,
-        } => {
-            emit_expression_ctx(left, out, context, scope);
-            emit_expression_ctx(right, out, context, scope);
-            out.push(json!(match operator {
-                BinaryOperator::Add => "+",
-                BinaryOperator::Subtract => "-",
-                BinaryOperator::Multiply => "*",
-                BinaryOperator::Divide => "/",
-                BinaryOperator::Modulo => "%",
-                BinaryOperator::Equal => "==",
-                BinaryOperator::NotEqual => "!=",
-                BinaryOperator::And => "&&",
-                BinaryOperator::Or => "||",
-                BinaryOperator::Greater => ">",
-                BinaryOperator::GreaterEqual => ">=",
-                BinaryOperator::Less => "<",
-                BinaryOperator::LessEqual => "<=",
-                BinaryOperator::Has => "?",
-                BinaryOperator::Hasnt => "!?",
-                BinaryOperator::Intersect => "L^",
-            }));
+        Expression::Binary { .. } => {
+            // A chain of operators leans to the left, as long as it is
+            let mut operations = Vec::new();
+            let mut operand = expression;
+            while let Expression::Binary {
+                left,
+                operator,
+                right,
+            } = operand
+            {
+                operations.push((right, operator));
+                operand = left;
+            }
+            emit_expression_ctx(operand, out, context, scope);
+            for (right, operator) in operations.into_iter().rev() {
+                emit_expression_ctx(right, out, context, scope);
+                out.push(json!(operator_token(operator)));
+            }
         }
     }
 }
 
+fn operator_token(operator: &BinaryOperator) -> &'static str {
+    match operator {
+        BinaryOperator::Add => "+",
+        BinaryOperator::Subtract => "-",
+        BinaryOperator::Multiply => "*",
+        BinaryOperator::Divide => "/",
+        BinaryOperator::Modulo => "%",
+        BinaryOperator::Equal => "==",
+        BinaryOperator::NotEqual => "!=",
+        BinaryOperator::And => "&&",
+        BinaryOperator::Or => "||",
+        BinaryOperator::Greater => ">",
+        BinaryOperator::GreaterEqual => ">=",
+        BinaryOperator::Less => "<",
+        BinaryOperator::LessEqual => "<=",
+        BinaryOperator::Has => "?",
+        BinaryOperator::Hasnt => "!?",
+        BinaryOperator::Intersect => "L^",
+    }
+}
+
 fn emit_call_argument(
     function_name: &str,
     arg_index: usize,
@@ -505,40 +519,29 @@ fn emit_dynamic_string_parts(
     scope: &EmitScope,
     context: &EmitContext,
 ) -> Result<(), CompilerError> {
-    if parts.is_empty() {
-        return Ok(());
-    }
-
-    match &parts[0] {
-        DynamicStringPart::Text(text) => {
-            emit_text_and_glue(text, out);
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Expression(expression) => {
-            out.push(json!("ev"));
-            emit_expression_ctx(expression, out, Some(context), Some(scope));
-            out.push(json!("out"));
-            out.push(json!("/ev"));
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Sequence(sequence) => {
-            out.push(emit_sequence(
+    for part in parts {
+        match part {
+            DynamicStringPart::Text(text) => emit_text_and_glue(text, out),
+            DynamicStringPart::Expression(expression) => {
+                out.push(json!("ev"));
+                emit_expression_ctx(expression, out, Some(context), Some(scope));
+                out.push(json!("out"));
+                out.push(json!("/ev"));
+            }
+            DynamicStringPart::Sequence(sequence) => out.push(emit_sequence(
                 sequence,
                 scope,
                 out.len() + scope.param_offset,
                 context,
-            )?);
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Conditional(conditional) => {
-            out.push(emit_self_contained(
+            )?),
+            DynamicStringPart::Conditional(conditional) => out.push(emit_self_contained(
                 std::slice::from_ref(conditional),
                 scope,
                 context,
-            )?);
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
+            )?),
         }
     }
+    Ok(())
 }
 
 /// Conditionals and sequences inside string literals; `None` where there is no
@@ -607,9 +610,7 @@ fn emit_choice_text_content(
     }
 
     if !text.is_empty() {
-        let dynamic = parse_dynamic_string(text).unwrap_or_else(|_| DynamicString {
-            parts: vec![DynamicStringPart::Text(text.to_owned())],
-        });
+        let dynamic = parse_dynamic_string(text)?;
         let has_inline = dynamic
             .parts
             .iter()
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index ac3b325..d795e3f 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -163,29 +163,34 @@ fn prepend_parameters(container: &mut EmittedContainer, parameters: &[String]) {
 /// Pre-scan all nodes (including continuations) to collect every choice label
 /// as an absolute path. This allows cross-block label references (e.g., {greet}
 /// in a second choice block referencing a label from the first block).
-fn collect_all_choice_labels(nodes: &[Node], scope: &EmitScope) -> BTreeMap<String, String> {
+fn collect_all_choice_labels(
+    nodes: &[Node],
+    scope: &EmitScope,
+) -> Result<BTreeMap<String, String>, CompilerError> {
     let mut labels = BTreeMap::new();
-    collect_choice_labels_recursive(nodes, scope, &mut labels, &mut 0);
-    labels
+    collect_choice_labels_recursive(nodes, scope, &mut labels, &mut 0)?;
+    Ok(labels)
 }
 
-fn collect_story_choice_labels(story: &ParsedStory) -> BTreeMap<String, String> {
+fn collect_story_choice_labels(
+    story: &ParsedStory,
+) -> Result<BTreeMap<String, String>, CompilerError> {
     let mut labels = BTreeMap::new();
     let root_scope = EmitScope::root(story.flows());
 
-    collect_qualified_choice_labels_for_scope(story.root(), &root_scope, &mut labels);
+    collect_qualified_choice_labels_for_scope(story.root(), &root_scope, &mut labels)?;
     for flow in story.flows() {
-        collect_qualified_choice_labels_for_flow(flow, &root_scope, &mut labels);
+        collect_qualified_choice_labels_for_flow(flow, &root_scope, &mut labels)?;
     }
 
-    labels
+    Ok(labels)
 }
 
 fn collect_qualified_choice_labels_for_flow(
     flow: &Flow,
     parent_scope: &EmitScope,
     labels: &mut BTreeMap<String, String>,
-) {
+) -> Result<(), CompilerError> {
     let scope = parent_scope.child_flow(flow);
     let nodes_scope = if flow
         .nodes
@@ -196,27 +201,29 @@ fn collect_qualified_choice_labels_for_flow(
     } else {
         scope.clone()
     };
-    for (label, path) in collect_all_choice_labels(&flow.nodes, &nodes_scope) {
+    for (label, path) in collect_all_choice_labels(&flow.nodes, &nodes_scope)? {
         labels.insert(format!("{}.{}", scope.path, label), path);
     }
 
     for child in &flow.children {
-        collect_qualified_choice_labels_for_flow(child, &scope, labels);
+        collect_qualified_choice_labels_for_flow(child, &scope, labels)?;
     }
+    Ok(())
 }
 
 fn collect_qualified_choice_labels_for_scope(
     nodes: &[Node],
     scope: &EmitScope,
     labels: &mut BTreeMap<String, String>,
-) {
-    for (label, path) in collect_all_choice_labels(nodes, scope) {
+) -> Result<(), CompilerError> {
+    for (label, path) in collect_all_choice_labels(nodes, scope)? {
         if scope.path == "0" {
             labels.insert(label, path);
         } else {
             labels.insert(format!("{}.{}", scope.path, label), path);
         }
     }
+    Ok(())
 }
 
 fn collect_choice_labels_recursive(
@@ -224,7 +231,8 @@ fn collect_choice_labels_recursive(
     scope: &EmitScope,
     labels: &mut BTreeMap<String, String>,
     choice_index: &mut usize,
-) {
+) -> Result<(), CompilerError> {
+    let _content_level = ContentLevel::enter()?;
     let mut i = 0;
     while i < nodes.len() {
         match &nodes[i] {
@@ -240,7 +248,7 @@ fn collect_choice_labels_recursive(
                     &branch_scope,
                     labels,
                     &mut nested_choice_index,
-                );
+                )?;
                 let level = choice.nesting_level;
                 *choice_index += 1;
                 i += 1;
@@ -265,7 +273,7 @@ fn collect_choice_labels_recursive(
                                 &branch_scope,
                                 labels,
                                 &mut nested_choice_index,
-                            );
+                            )?;
                             *choice_index += 1;
                             i += 1;
                         }
@@ -289,9 +297,9 @@ fn collect_choice_labels_recursive(
                         &child_scope,
                         labels,
                         &mut child_index,
-                    );
+                    )?;
                 }
-                return; // choice block consumes the rest via continuation
+                return Ok(()); // choice block consumes the rest via continuation
             }
             Node::GatherLabel {
                 label,
@@ -308,7 +316,7 @@ fn collect_choice_labels_recursive(
                         &sub_scope,
                         &mut nested_labels,
                         &mut child_index,
-                    );
+                    )?;
                     let nested_prefix = format!("{}.", sub_scope.path);
                     for (nested_label, path) in nested_labels {
                         let path = path
@@ -324,7 +332,7 @@ fn collect_choice_labels_recursive(
                             .unwrap_or(path);
                         labels.insert(nested_label, path);
                     }
-                    return;
+                    return Ok(());
                 }
                 let body_end = nodes[i + 1..]
                     .iter()
@@ -344,7 +352,7 @@ fn collect_choice_labels_recursive(
                     &sub_scope,
                     labels,
                     &mut child_index,
-                );
+                )?;
                 i = body_end;
             }
             _ => {
@@ -352,4 +360,5 @@ fn collect_choice_labels_recursive(
             }
         }
     }
+    Ok(())
 }
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index bada2f3..855757b 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -11,6 +11,8 @@ use crate::{
     },
     error::CompilerError,
     inline::{parse_dynamic_string, tokenize_inline_content},
+    nesting::{ContentLevel, MAX_JSON_DEPTH, content_too_deep},
+    validator::is_builtin_function,
 };
 
 include!("context.rs");
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index d44c4c8..5e39a24 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -255,12 +255,13 @@ fn emit_nodes_with_continuation(
     context: &EmitContext,
     fallback_continuation: Option<&str>,
 ) -> Result<EmittedContainer, CompilerError> {
+    let _content_level = ContentLevel::enter()?;
     let mut out = EmittedContainer::default();
     let mut next_choice_index = 0;
 
     // Pre-scan all choice blocks to collect labels with absolute paths,
     // so that labels from earlier blocks are available in later blocks.
-    let all_labels = collect_all_choice_labels(nodes, scope);
+    let all_labels = collect_all_choice_labels(nodes, scope)?;
     let scope = &scope.with_choice_labels(all_labels);
 
     let mut index = 0;
diff --git a/compiler/src/emitter/path.rs b/compiler/src/emitter/path.rs
index 4f7f3ed..b333b4c 100644
--- a/compiler/src/emitter/path.rs
+++ b/compiler/src/emitter/path.rs
@@ -184,6 +184,7 @@ struct KnownNames<'a> {
     root: &'a Value,
     globals: BTreeSet<&'a str>,
     list_items: BTreeSet<String>,
+    bare_list_items: BTreeSet<&'a str>,
 }
 
 impl<'a> KnownNames<'a> {
@@ -197,10 +198,11 @@ impl<'a> KnownNames<'a> {
             collect_assigned_names(declarations, "VAR=", &mut globals);
         }
         let mut list_items = BTreeSet::new();
+        let mut bare_list_items = BTreeSet::new();
         for (list, items) in list_defs {
             globals.insert(list);
             for item in items.as_object().into_iter().flat_map(Map::keys) {
-                globals.insert(item);
+                bare_list_items.insert(item.as_str());
                 list_items.insert(format!("{list}.{item}"));
             }
         }
@@ -208,6 +210,7 @@ impl<'a> KnownNames<'a> {
             root,
             globals,
             list_items,
+            bare_list_items,
         }
     }
 
@@ -218,8 +221,15 @@ impl<'a> KnownNames<'a> {
         self.check_container(flow, path, &temps)
     }
 
+    fn check_value(&self, name: &str, temps: &BTreeSet<&str>) -> Result<(), CompilerError> {
+        if self.list_items.contains(name) || self.bare_list_items.contains(name) {
+            return Ok(());
+        }
+        self.check_variable(name, temps)
+    }
+
     fn check_variable(&self, name: &str, temps: &BTreeSet<&str>) -> Result<(), CompilerError> {
-        if self.globals.contains(name) || temps.contains(name) || self.list_items.contains(name) {
+        if self.globals.contains(name) || temps.contains(name) {
             return Ok(());
         }
         Err(CompilerError::invalid_source(format!(
@@ -276,9 +286,10 @@ impl<'a> KnownNames<'a> {
                 self.check_variable(target, temps)?;
                 continue;
             }
-            let path =
-                RuntimePath::parse(target, target.starts_with('.')).resolve_from(object_path);
-            if content_at(self.root, &path).is_none() {
+            let path = RuntimePath::parse(target, target.starts_with('.'));
+            if path.components.is_empty()
+                || content_at(self.root, &path.resolve_from(object_path)).is_none()
+            {
                 return Err(CompilerError::invalid_source(match field {
                     "f()" => format!("Function not found: '{target}'"),
                     "CNT?" => format!("Unresolved variable: {target}"),
@@ -287,7 +298,10 @@ impl<'a> KnownNames<'a> {
             }
         }
 
-        for field in ["VAR?", "VAR=", "temp=", "^var"] {
+        if let Some(name) = text("VAR?") {
+            self.check_value(name, temps)?;
+        }
+        for field in ["VAR=", "temp=", "^var"] {
             if let Some(name) = text(field) {
                 self.check_variable(name, temps)?;
             }
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index cc67568..3da889a 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -1,11 +1,13 @@
 use crate::{
     ast::{Divert, DynamicString, DynamicStringPart, Expression, Node, Sequence, SequenceMode},
     error::CompilerError,
+    nesting::Level,
 };
 
-use crate::parser::expression::{parse_call_like, parse_expression};
+use crate::parser::expression::{parse_call_like, parse_expression, parse_target};
 
 pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError> {
+    let _level = Level::enter()?;
     let mut nodes = Vec::new();
     let mut text = String::new();
     let mut chars = content.char_indices().peekable();
@@ -132,6 +134,7 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
 }
 
 pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError> {
+    let _level = Level::enter()?;
     let mut parts = Vec::new();
     let mut text = String::new();
     let mut chars = input.char_indices().peekable();
@@ -203,21 +206,12 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
     if let Some(rest) = trimmed.strip_prefix("->->") {
         let rest = rest.trim();
         if !rest.is_empty() && !rest.starts_with("->") && rest.contains('(') {
-            // Parse `target` or `target(args)` from `rest`
-            let (target_name, args) = if let Some(open) = rest.find('(') {
-                let close = rest.rfind(')').unwrap_or(rest.len() - 1);
-                let tname = rest[..open].trim().to_owned();
-                let args_str = &rest[open + 1..close];
-                let mut args = Vec::new();
-                for arg_str in crate::parser::expression::split_top_level_commas(args_str) {
-                    if !arg_str.trim().is_empty() {
-                        args.push(parse_expression(arg_str.trim())?);
-                    }
-                }
-                (tname, args)
-            } else {
-                (rest.to_owned(), Vec::new())
-            };
+            let (target_name, args) = parse_segment(rest)?;
+            if parse_target(&target_name).is_none_or(|target| target != target_name) {
+                return Err(CompilerError::invalid_source(format!(
+                    "Divert target not found: '->-> {target_name}'"
+                )));
+            }
             return Ok(vec![Node::TunnelOnwardsWithTarget {
                 target: target_name,
                 args,
@@ -236,7 +230,12 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
     // Helper to parse "target" or "target(arg1, arg2)" from a segment
     fn parse_segment(segment: &str) -> Result<(String, Vec<Expression>), CompilerError> {
         if let Some(open) = segment.find('(') {
-            let close = segment.rfind(')').unwrap_or(segment.len() - 1);
+            let close = segment
+                .rfind(')')
+                .filter(|close| *close > open)
+                .ok_or_else(|| {
+                    CompilerError::invalid_source("missing ')' in divert target".to_owned())
+                })?;
             let target = segment[..open].trim().to_owned();
             let args_str = &segment[open + 1..close];
             let mut args = Vec::new();
@@ -537,7 +536,10 @@ pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, Compile
         "true" => Ok(Condition::Bool(true)),
         "false" => Ok(Condition::Bool(false)),
         _ => {
-            if let Some(name) = condition.strip_suffix("()") {
+            if let Some(name) = condition
+                .strip_suffix("()")
+                .filter(|name| crate::parser::is_name(name.trim()))
+            {
                 return Ok(Condition::FunctionCall(name.trim().to_owned()));
             }
 
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 3214bb2..996ede5 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -4,6 +4,7 @@ mod emitter;
 pub mod error;
 mod includes;
 mod inline;
+mod nesting;
 mod parser;
 pub mod stats;
 mod validator;
diff --git a/compiler/src/nesting.rs b/compiler/src/nesting.rs
new file mode 100644
index 0000000..52fbe6e
--- /dev/null
+++ b/compiler/src/nesting.rs
@@ -0,0 +1,116 @@
+//! Bounds on how deeply a story nests. Parsing and emitting are recursive, so a story without
+//! such a bound would exhaust the stack instead of being refused.
+
+use std::cell::Cell;
+
+use crate::error::CompilerError;
+
+/// How deep blocks, inline logic and parentheses go inside each other.
+const MAX_LEVELS: usize = 50;
+
+/// How many operators and parentheses an expression has, with those of the logic inside its
+/// strings.
+const MAX_OPERATORS: usize = 1000;
+
+/// How deeply arrays and objects nest in JSON that can be read back.
+pub const MAX_JSON_DEPTH: usize = 127;
+
+/// How deeply content is emitted: some of its levels take several of JSON.
+const MAX_CONTENT_LEVELS: usize = 64;
+
+/// How many branches a conditional has: each is the alternative of the one before.
+const MAX_BRANCHES: usize = 400;
+
+thread_local! {
+    static CONTENT_LEVEL: Cell<usize> = const { Cell::new(0) };
+    static LEVEL: Cell<usize> = const { Cell::new(0) };
+    static EXPRESSION_LEVEL: Cell<usize> = const { Cell::new(0) };
+    static OPERATORS: Cell<usize> = const { Cell::new(0) };
+}
+
+/// One level of nesting, for as long as it lives.
+pub struct Level;
+
+impl Level {
+    pub fn enter() -> Result<Self, CompilerError> {
+        check_level(LEVEL.get() + 1)?;
+        LEVEL.set(LEVEL.get() + 1);
+        Ok(Level)
+    }
+}
+
+/// Refuses what is nested too deeply.
+pub fn check_level(level: usize) -> Result<(), CompilerError> {
+    if level > MAX_LEVELS {
+        return Err(CompilerError::unsupported_feature(format!(
+            "nested more than {MAX_LEVELS} levels deep"
+        )));
+    }
+    Ok(())
+}
+
+impl Drop for Level {
+    fn drop(&mut self) {
+        LEVEL.set(LEVEL.get() - 1);
+    }
+}
+
+/// Refuses a conditional with too many branches.
+pub fn check_branches(branches: usize) -> Result<(), CompilerError> {
+    if branches > MAX_BRANCHES {
+        return Err(CompilerError::unsupported_feature(format!(
+            "a conditional with more than {MAX_BRANCHES} branches"
+        )));
+    }
+    Ok(())
+}
+
+/// An expression that is being parsed, possibly inside a string of another one.
+pub struct ExpressionLevel;
+
+impl ExpressionLevel {
+    pub fn enter(operators: usize) -> Result<Self, CompilerError> {
+        let total = if EXPRESSION_LEVEL.get() == 0 {
+            operators
+        } else {
+            OPERATORS.get() + operators
+        };
+        if total > MAX_OPERATORS {
+            return Err(CompilerError::unsupported_feature(format!(
+                "an expression with more than {MAX_OPERATORS} operators"
+            )));
+        }
+        OPERATORS.set(total);
+        EXPRESSION_LEVEL.set(EXPRESSION_LEVEL.get() + 1);
+        Ok(ExpressionLevel)
+    }
+}
+
+impl Drop for ExpressionLevel {
+    fn drop(&mut self) {
+        EXPRESSION_LEVEL.set(EXPRESSION_LEVEL.get() - 1);
+    }
+}
+
+/// Content that is being emitted inside other content.
+pub struct ContentLevel;
+
+impl ContentLevel {
+    pub fn enter() -> Result<Self, CompilerError> {
+        if CONTENT_LEVEL.get() >= MAX_CONTENT_LEVELS {
+            return Err(content_too_deep());
+        }
+        CONTENT_LEVEL.set(CONTENT_LEVEL.get() + 1);
+        Ok(ContentLevel)
+    }
+}
+
+impl Drop for ContentLevel {
+    fn drop(&mut self) {
+        CONTENT_LEVEL.set(CONTENT_LEVEL.get() - 1);
+    }
+}
+
+pub fn content_too_deep() -> CompilerError {
+    CompilerError::unsupported_feature("the content of the story is nested too deeply")
+}
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 2551a66..8f78bc6 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -1,11 +1,15 @@
 use crate::{
     ast::{Choice, Condition, DynamicString, Node},
     error::CompilerError,
+    nesting::check_level,
 };
 
 use super::{
     Line, ParsedStatement,
-    inline::{find_top_level, parse_condition, split_text_and_tags, tokenize_inline_content},
+    inline::{
+        find_top_level, parse_condition, parse_dynamic_string, split_text_and_tags,
+        tokenize_inline_content,
+    },
 };
 
 pub struct ParsedChoiceText {
@@ -43,6 +47,7 @@ pub fn parse_choice(
         remainder = rest.trim_start();
         nesting_level += 1;
     }
+    check_level(nesting_level)?;
     let (label, mut conditions, remainder) = parse_choice_prefixes(remainder)?;
     let mut choice_text = parse_choice_text(remainder)?;
     let mut is_invisible_default =
@@ -263,8 +268,11 @@ pub fn parse_choice_prefixes(
         let end = after_open.find(')').ok_or_else(|| {
             CompilerError::invalid_source("choice label is missing ')'".to_owned())
         })?;
-        label = Some(after_open[..end].trim().to_owned());
-        remainder = after_open[end + 1..].trim_start();
+        let name = after_open[..end].trim();
+        if super::is_name(name) {
+            label = Some(name.to_owned());
+            remainder = after_open[end + 1..].trim_start();
+        }
     }
 
     while let Some(after_open) = remainder.strip_prefix('{') {
@@ -312,6 +320,11 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
     let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only.trim_end())?;
     let (end_text, end_tags) = split_text_and_tags(end)?;
 
+    // The logic in them is emitted later, but has to be right
+    for text in [&start_text, &choice_only_text, &end_text] {
+        parse_dynamic_string(text)?;
+    }
+
     let start_text = if start_text.trim().is_empty() {
         String::new()
     } else {
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 830c9e7..bc7584e 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{Expression, Node},
     error::CompilerError,
+    nesting::check_branches,
 };
 
 use super::{
@@ -432,6 +433,7 @@ pub fn fold_conditional_branches(
     if branches.is_empty() {
         return Ok(Vec::new());
     }
+    check_branches(branches.len())?;
 
     let mut accumulated_else = None;
     while let Some((condition, nodes)) = branches.pop() {
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index f17026e..8348839 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -26,8 +26,24 @@ fn parse_content_line(
     Ok(nodes)
 }
 
+/// Whether something can be called that: a number would be an index in a path.
+pub fn is_name(text: &str) -> bool {
+    text.chars().all(|ch| ch.is_alphanumeric() || ch == '_')
+        && text.chars().any(|ch| !ch.is_ascii_digit())
+}
+
+fn check_name(name: &str) -> Result<(), CompilerError> {
+    if is_name(name) {
+        return Ok(());
+    }
+    Err(CompilerError::invalid_source(format!(
+        "invalid name: '{name}'"
+    )))
+}
+
 fn parse_global_assignment(input: &str) -> Result<GlobalVariable, CompilerError> {
     let (name, expression) = split_assignment(input, "=")?;
+    check_name(&name)?;
     Ok(GlobalVariable {
         name,
         initial_value: parse_expression(&expression)?,
@@ -40,6 +56,7 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
         CompilerError::invalid_source(format!("LIST declaration missing '=': {input}"))
     })?;
     let name = input[..eq_pos].trim().to_owned();
+    check_name(&name)?;
     let rhs = input[eq_pos + 1..].trim();
 
     let mut items = Vec::new();
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index f41c8e7..fa3c298 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -1,6 +1,8 @@
 use crate::{
     ast::{BinaryOperator, Expression},
     error::CompilerError,
+    inline::parse_dynamic_string,
+    nesting::{ExpressionLevel, Level},
 };
 
 #[derive(Debug, Clone, PartialEq)]
@@ -36,6 +38,22 @@ pub enum Token {
     Caret,
 }
 
+impl Token {
+    fn is_operator(&self) -> bool {
+        !matches!(
+            self,
+            Token::Bool(_)
+                | Token::Int(_)
+                | Token::Float(_)
+                | Token::Str(_)
+                | Token::Ident(_)
+                | Token::DivertTarget(_)
+                | Token::RightParen
+                | Token::Comma
+        )
+    }
+}
+
 pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
     let mut tokens = Vec::new();
     let chars: Vec<char> = input.chars().collect();
@@ -49,8 +67,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
         }
 
         if ch == '-' && chars.get(index + 1) == Some(&'>') {
-            let rest = input[index + 2..].trim_start();
-            let parsed = parse_path_identifier(rest).ok_or_else(|| {
+            let rest: String = chars[index + 2..].iter().collect();
+            let parsed = parse_target(rest.trim_start()).ok_or_else(|| {
                 CompilerError::invalid_source("expected divert target after '->'".to_owned())
             })?;
             tokens.push(Token::DivertTarget(parsed.to_owned()));
@@ -179,16 +197,21 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     }
                     index += 1;
                 }
-                let token_text = &input[start..index];
+                let token_text: String = chars[start..index].iter().collect();
                 if saw_identifier_tail {
-                    tokens.push(Token::Ident(token_text.to_owned()));
+                    tokens.push(Token::Ident(token_text));
                 } else if saw_dot {
-                    let value = input[start..index].parse::<f32>().map_err(|error| {
+                    let value = token_text.parse::<f32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid float literal: {error}"))
                     })?;
+                    if !value.is_finite() {
+                        return Err(CompilerError::invalid_source(format!(
+                            "float literal out of range: {token_text}"
+                        )));
+                    }
                     tokens.push(Token::Float(value));
                 } else {
-                    let value = input[start..index].parse::<i32>().map_err(|error| {
+                    let value = token_text.parse::<i32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid integer literal: {error}"))
                     })?;
                     tokens.push(Token::Int(value));
@@ -202,8 +225,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 {
                     index += 1;
                 }
-                let ident = &input[start..index];
-                match ident {
+                let ident: String = chars[start..index].iter().collect();
+                match ident.as_str() {
                     "true" => tokens.push(Token::Bool(true)),
                     "false" => tokens.push(Token::Bool(false)),
                     "and" => tokens.push(Token::AndAnd),
@@ -211,7 +234,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     "not" => tokens.push(Token::Bang),
                     "has" => tokens.push(Token::Has),
                     "hasnt" => tokens.push(Token::Hasnt),
-                    _ => tokens.push(Token::Ident(ident.to_owned())),
+                    _ => tokens.push(Token::Ident(ident)),
                 }
             }
             _ => {
@@ -228,6 +251,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
 
 pub fn parse_expression(input: &str) -> Result<Expression, CompilerError> {
     let tokens = tokenize_expression(input)?;
+    let operators = tokens.iter().filter(|token| token.is_operator()).count();
+    let _expression_level = ExpressionLevel::enter(operators)?;
     let mut parser = ExpressionParser::new(tokens);
     let expression = parser.parse_expression()?;
 
@@ -261,6 +286,11 @@ pub fn parse_path_identifier(text: &str) -> Option<&str> {
     if end == 0 { None } else { Some(&text[..end]) }
 }
 
+/// The path that something can be diverted to: names, since a number would be an index.
+pub fn parse_target(text: &str) -> Option<&str> {
+    parse_path_identifier(text).filter(|path| path.split('.').all(super::is_name))
+}
+
 pub fn parse_call_like(text: &str) -> Result<Option<(String, Vec<Expression>)>, CompilerError> {
     let trimmed = text.trim();
     let open = match trimmed.find('(') {
@@ -276,7 +306,7 @@ pub fn parse_call_like(text: &str) -> Result<Option<(String, Vec<Expression>)>,
         ));
     }
 
-    let name = parse_path_identifier(trimmed[..open].trim())
+    let name = parse_target(trimmed[..open].trim())
         .ok_or_else(|| CompilerError::invalid_source("invalid divert target".to_owned()))?
         .to_owned();
     let mut arguments = Vec::new();
@@ -294,9 +324,8 @@ pub fn split_top_level_commas(input: &str) -> Vec<&str> {
     let mut start = 0;
     let mut depth = 0;
     let mut in_string = false;
-    let chars: Vec<char> = input.chars().collect();
 
-    for (index, ch) in chars.iter().enumerate() {
+    for (index, ch) in input.char_indices() {
         match ch {
             '"' => in_string = !in_string,
             '(' if !in_string => depth += 1,
@@ -351,6 +380,7 @@ impl ExpressionParser {
     }
 
     fn parse_unary(&mut self) -> Result<Expression, CompilerError> {
+        let _level = Level::enter()?;
         if self.match_token(&Token::Bang) {
             let expr = self.parse_unary()?;
             return Ok(Expression::Not(Box::new(expr)));
@@ -367,7 +397,11 @@ impl ExpressionParser {
             Token::Bool(value) => Ok(Expression::Bool(value)),
             Token::Int(value) => Ok(Expression::Int(value)),
             Token::Float(value) => Ok(Expression::Float(value)),
-            Token::Str(value) => Ok(Expression::Str(value)),
+            Token::Str(value) => {
+                // The logic in it is emitted later, but has to be right
+                parse_dynamic_string(&value)?;
+                Ok(Expression::Str(value))
+            }
             Token::Ident(name) => {
                 // Check if it's a function call: Ident followed by '('
                 if self.match_token(&Token::LeftParen) {
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index 65cde11..427ded3 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -7,6 +7,7 @@ pub mod sequence;
 use crate::{
     ast::{AssignMode, Expression, Flow, GlobalVariable, ListDeclaration, Node, ParsedStory},
     error::CompilerError,
+    nesting::{Level, check_level},
 };
 
 use self::{
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 6048e82..5519319 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -7,6 +7,7 @@ pub fn parse_statement(
     let trimmed = line.content.trim();
     // 1-based line number for error messages; captured before any sub-parser advances the index.
     let ln = *line_index + 1;
+    let _level = Level::enter().map_err(|e| e.with_line(ln))?;
 
     if trimmed.is_empty() || trimmed.starts_with("//") {
         *line_index += 1;
@@ -146,6 +147,7 @@ pub fn parse_statement(
     if !trimmed.starts_with("->") && trimmed.starts_with('-') {
         *line_index += 1;
         let gather_level = choice::gather_nesting_level(trimmed);
+        check_level(gather_level).map_err(|e| e.with_line(ln))?;
         // Strip all leading '-' markers (nested gathers like "- -" or "- - -") — nesting
         // is retained on labeled gathers for weave hierarchy emission.
         let mut gather_content = trimmed;
@@ -163,7 +165,10 @@ pub fn parse_statement(
 
         // Check for gather label: (label_name) at the start
         let (gather_label, gather_content) = if gather_content.starts_with('(') {
-            if let Some(end) = gather_content.find(')') {
+            if let Some(end) = gather_content
+                .find(')')
+                .filter(|end| is_name(gather_content[1..*end].trim()))
+            {
                 let label = gather_content[1..end].trim().to_owned();
                 let rest = gather_content[end + 1..].trim_start();
                 (Some(label), rest)
diff --git a/compiler/src/parser/story.rs b/compiler/src/parser/story.rs
index 5d9e422..a7c111f 100644
--- a/compiler/src/parser/story.rs
+++ b/compiler/src/parser/story.rs
@@ -32,6 +32,7 @@ impl<'a> Parser<'a> {
         while line_index < lines.len() {
             let ln = line_index + 1;
             if let Some(header) = parse_header(lines[line_index].content) {
+                check_name(header.name()).map_err(|e| e.with_line(ln))?;
                 match header {
                     Header::Knot {
                         name,
diff --git a/compiler/src/parser/types.rs b/compiler/src/parser/types.rs
index facdf89..abea68d 100644
--- a/compiler/src/parser/types.rs
+++ b/compiler/src/parser/types.rs
@@ -26,6 +26,16 @@ pub enum Header {
     },
 }
 
+impl Header {
+    fn name(&self) -> &str {
+        match self {
+            Header::Knot { name, .. }
+            | Header::Function { name, .. }
+            | Header::Stitch { name, .. } => name,
+        }
+    }
+}
+
 #[derive(Default)]
 struct FlowBuilder {
     name: String,
diff --git a/compiler/src/validator/symbols.rs b/compiler/src/validator/symbols.rs
index 0bd90e1..3eb1aed 100644
--- a/compiler/src/validator/symbols.rs
+++ b/compiler/src/validator/symbols.rs
@@ -1,4 +1,4 @@
-fn is_builtin_function(name: &str) -> bool {
+pub fn is_builtin_function(name: &str) -> bool {
     matches!(
         name,
         "RANDOM"
-- 
2.43.0


From 6486ed7f71a0cb9031a642dcce0e5b06dd83535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 42/62] fix: what follows the dashes of a gather is a statement
 like any other

---
 compiler/src/parser/statement.rs | 70 +++++++++++---------------------
 1 file changed, 23 insertions(+), 47 deletions(-)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 5519319..61a1cdf 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -220,58 +220,34 @@ pub fn parse_statement(
             return Ok(ParsedStatement::Nodes(result));
         }
 
-        // If gather_content starts a multi-line conditional or sequence, parse it as such.
-        // Build a synthetic slice: the first entry uses gather_content as its content, then
-        // the remaining (not-yet-consumed) lines follow.  We track how many lines the
-        // sub-parser consumed and advance the outer line_index accordingly.
-        if looks_like_conditional(gather_content) || looks_like_sequence(gather_content) {
-            // Synthetic opening line using gather_content.
-            let synthetic = Line {
-                content: gather_content,
-                indent: line.indent,
-                had_newline: line.had_newline,
-            };
-            // Build the combined slice: [synthetic] ++ lines[*line_index..]
-            let combined: Vec<Line<'_>> = std::iter::once(synthetic)
-                .chain(lines[*line_index..].iter().map(|l| Line {
-                    content: l.content,
-                    indent: l.indent,
-                    had_newline: l.had_newline,
-                }))
-                .collect();
-            let mut local_idx: usize = 0;
-            let nodes = if looks_like_sequence(gather_content) {
-                parse_sequence(&combined, &mut local_idx, true, &parse_statement)
-                    .map_err(|e| e.with_line(ln))?
-            } else {
-                parse_conditional(&combined, &mut local_idx, true, &parse_statement)
-                    .map_err(|e| e.with_line(ln))?
-            };
-            // local_idx now points past whatever the sub-parser consumed in `combined`.
-            // combined[0] was the synthetic gather line (already consumed above via += 1).
-            // combined[1..] maps to lines[*line_index..], so advance by local_idx - 1.
-            if local_idx > 0 {
-                *line_index += local_idx - 1;
-            }
-            let mut result = Vec::new();
-            if let Some(label) = gather_label {
-                result.push(Node::GatherLabel {
-                    label,
-                    level: gather_level,
-                    indent: line.indent,
-                });
-            }
-            result.extend(nodes);
-            return Ok(ParsedStatement::Nodes(result));
-        }
-
-        let gather_line = Line {
+        // What follows is a statement like any other. Build a synthetic slice: the first entry
+        // uses gather_content as its content, then the remaining (not-yet-consumed) lines follow.
+        let synthetic = Line {
             content: gather_content,
             indent: line.indent,
             // Don't emit a newline for a label-only gather line (no content after the label)
             had_newline: line.had_newline && !gather_content.is_empty(),
         };
-        let mut nodes = parse_content_line(&gather_line, true).map_err(|e| e.with_line(ln))?;
+        let may_continue = gather_content.starts_with('{') || gather_content.starts_with("LIST ");
+        let following = if may_continue {
+            &lines[*line_index..]
+        } else {
+            &[]
+        };
+        let combined: Vec<Line<'_>> = std::iter::once(synthetic)
+            .chain(following.iter().cloned())
+            .collect();
+        let mut local_idx: usize = 0;
+        let statement =
+            parse_statement(&combined, &mut local_idx, true).map_err(|e| e.with_line(ln))?;
+        // local_idx now points past whatever the sub-parser consumed in `combined`.
+        // combined[0] was the synthetic gather line (already consumed above via += 1).
+        // combined[1..] maps to lines[*line_index..], so advance by local_idx - 1.
+        *line_index += local_idx.saturating_sub(1);
+        let mut nodes = match statement {
+            ParsedStatement::Nodes(nodes) => nodes,
+            other => return Ok(other),
+        };
         if let Some(label) = gather_label {
             nodes.insert(
                 0,
-- 
2.43.0


From 94b23426a7e48d18520755ff71f9b3bd30615e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 43/62] fix: the player escapes everything it puts into JSON

---
 rinklecate/src/player.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rinklecate/src/player.rs b/rinklecate/src/player.rs
index 679b1d8..99a8901 100644
--- a/rinklecate/src/player.rs
+++ b/rinklecate/src/player.rs
@@ -138,11 +138,8 @@ pub fn play(mut story: Story, opts: &Options) -> anyhow::Result<()> {
                 InputResult::Divert(path) => {
                     if let Err(e) = story.choose_path_string(&path, true, None) {
                         if opts.json_output {
-                            println!(
-                                "{{\"issues\": [\"Error diverting to '{}': {}\"]}}",
-                                path,
-                                e.to_string().replace('"', "\\\"")
-                            );
+                            let msg = format!("Error diverting to '{path}': {e}");
+                            println!("{{\"issues\": [\"{}\"]}}", escape_json_string(&msg));
                         } else {
                             eprintln!("<error diverting to '{path}': {e}>");
                         }
@@ -271,6 +268,7 @@ fn escape_json_string(s: &str) -> String {
             '\n' => out.push_str("\\n"),
             '\r' => out.push_str("\\r"),
             '\t' => out.push_str("\\t"),
+            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
             c => out.push(c),
         }
     }
-- 
2.43.0


From 3903bc77be490b0c10a3da679bc5f883a775e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 44/62] fix: a block of a conditional starts on a line of its
 own, as in the reference compiler

---
 compiler/src/parser/conditional.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index bc7584e..3dcff2a 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -312,11 +312,9 @@ pub fn parse_multi_branch_conditional(
             let header = header.trim_start();
             if let Some(rest) = header.strip_prefix("else:") {
                 current_condition = None;
-                if !rest.trim().is_empty() {
-                    current_nodes.extend(tokenize_inline_content(rest.trim())?);
-                    if line.had_newline {
-                        current_nodes.push(Node::Newline);
-                    }
+                current_nodes.extend(tokenize_inline_content(rest.trim())?);
+                if line.had_newline {
+                    current_nodes.push(Node::Newline);
                 }
                 *line_index += 1;
                 continue;
@@ -403,6 +401,10 @@ pub fn parse_multi_branch_conditional(
                     *line_index += 1;
                 }
             } else {
+                // The body starts on a line of its own
+                if line.had_newline {
+                    current_nodes.push(Node::Newline);
+                }
                 *line_index += 1;
             }
             continue;
@@ -511,6 +513,9 @@ fn parse_switch_conditional(
                     if let ParsedStatement::Nodes(mut nodes) = statement {
                         current_nodes.append(&mut nodes);
                     }
+                } else if line.had_newline {
+                    // The body starts on a line of its own
+                    current_nodes.push(Node::Newline);
                 }
                 *line_index += 1;
                 continue;
@@ -552,6 +557,9 @@ fn parse_switch_conditional(
                 if let ParsedStatement::Nodes(mut nodes) = statement {
                     current_nodes.append(&mut nodes);
                 }
+            } else if line.had_newline {
+                // The body starts on a line of its own
+                current_nodes.push(Node::Newline);
             }
             *line_index += 1;
             continue;
-- 
2.43.0


From 887bb44576800979e7d6b4ab92b94b61c9d356e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 45/62] fix: turns are counted for targets named in
 alternatives, tags, strings and choice texts

---
 compiler/src/emitter/context.rs | 70 +++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 0e7c53d..1072c4e 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -321,6 +321,24 @@ fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<St
                         collect_flow_count_flags_from_expr(e, targets);
                     }
                 }
+                for text in [
+                    Some(&choice.start_text),
+                    Some(&choice.choice_only_text),
+                    choice.selected_text.as_ref(),
+                ]
+                .into_iter()
+                .flatten()
+                {
+                    collect_flow_count_flags_from_text(text, targets);
+                }
+                for tag in choice
+                    .start_tags
+                    .iter()
+                    .chain(&choice.choice_only_tags)
+                    .chain(&choice.selected_tags)
+                {
+                    collect_flow_count_flags_from_string(tag, targets);
+                }
                 collect_flow_count_flags_from_nodes(&choice.body, targets);
             }
             Node::Conditional {
@@ -360,11 +378,58 @@ fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<St
                     }
                 }
             }
+            Node::Sequence(sequence) => {
+                for branch in &sequence.branches {
+                    collect_flow_count_flags_from_nodes(branch, targets);
+                }
+            }
+            Node::Tag(tag) => collect_flow_count_flags_from_string(tag, targets),
+            Node::Divert(Divert { arguments, .. })
+            | Node::ThreadDivert(Divert { arguments, .. })
+            | Node::TunnelDivert {
+                args: arguments, ..
+            }
+            | Node::TunnelOnwardsWithTarget {
+                args: arguments, ..
+            } => {
+                for argument in arguments {
+                    collect_flow_count_flags_from_expr(argument, targets);
+                }
+            }
             _ => {}
         }
     }
 }
 
+/// Text that is parsed where it is emitted (and its errors are reported there).
+fn collect_flow_count_flags_from_text(text: &str, targets: &mut BTreeMap<String, i32>) {
+    if let Ok(nodes) = tokenize_inline_content(text) {
+        collect_flow_count_flags_from_nodes(&nodes, targets);
+    }
+}
+
+fn collect_flow_count_flags_from_string(
+    string: &DynamicString,
+    targets: &mut BTreeMap<String, i32>,
+) {
+    for part in &string.parts {
+        match part {
+            DynamicStringPart::Text(_) => {}
+            DynamicStringPart::Expression(expr) => {
+                collect_flow_count_flags_from_expr(expr, targets);
+            }
+            DynamicStringPart::Sequence(sequence) => {
+                for branch in &sequence.branches {
+                    collect_flow_count_flags_from_nodes(branch, targets);
+                }
+            }
+            DynamicStringPart::Conditional(node) => {
+                collect_flow_count_flags_from_nodes(std::slice::from_ref(node), targets);
+            }
+        }
+    }
+}
+
 fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<String, i32>) {
     match expr {
         Expression::FunctionCall { name, args } => {
@@ -394,6 +459,11 @@ fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<
             collect_flow_count_flags_from_expr(left, targets);
             collect_flow_count_flags_from_expr(right, targets);
         }
+        Expression::Str(value) => {
+            if let Ok(string) = parse_dynamic_string(value) {
+                collect_flow_count_flags_from_string(&string, targets);
+            }
+        }
         _ => {}
     }
 }
-- 
2.43.0


From 640c90457ae6c1379a7d6dae2b48366cbce80588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 46/62] fix: labels resolve to where the weave around them is
 emitted

---
 compiler/src/emitter/choice.rs          |   3 +
 compiler/src/emitter/choice_threaded.rs |   1 +
 compiler/src/emitter/choice_wrapped.rs  |   1 +
 compiler/src/emitter/context.rs         | 130 ++++++++++++++++++------
 compiler/src/emitter/flow.rs            |   3 +-
 compiler/src/emitter/mod.rs             |   6 +-
 compiler/src/emitter/nodes.rs           |   4 +
 7 files changed, 117 insertions(+), 31 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 7237471..b5acc2f 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -59,6 +59,9 @@ fn emit_choice(
     let branch_name = format!("c-{choice_index}");
     let branch_scope = scope.choice_branch(&branch_name);
     let choice_ptr = branch_scope.path.clone();
+    if let Some(label) = &choice.label {
+        context.label_emitted(label, &choice_ptr, scope);
+    }
     out.push(json!({"*": choice_ptr, "flg": choice_flags(choice)}));
 
     // The line of the choice, with the diverts written on it, then its body.
diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index dd6efbd..3ad2b92 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -65,6 +65,7 @@ fn emit_choice_block(
     let gather_label: Option<String> =
         if let Some(Node::GatherLabel { label: lbl, .. }) = section.continuation_nodes.first() {
             let path = format!("{}.{}", scope.path, lbl);
+            context.label_emitted(lbl, &path, scope);
             choice_labels.insert(lbl.clone(), path);
             Some(lbl.clone())
         } else {
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 952a08f..4bd138c 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -32,6 +32,7 @@ fn build_wrapped_loop_choice_block(
         }
     }
     choice_labels.insert(loop_label.to_owned(), group_path.clone());
+    context.label_emitted(loop_label, &group_path, scope);
     let block_scope = scope
         .at_path(group_path.clone())
         .with_choice_labels(choice_labels);
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 1072c4e..991a586 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -105,11 +105,50 @@ pub fn story_to_json_value(
     story: &ParsedStory,
     count_all_visits: bool,
 ) -> Result<Value, CompilerError> {
-    let context = EmitContext::new(story, count_all_visits)?;
-    let root_scope = EmitScope::root(story.flows());
+    // Where a label ends up depends on how the weaves around it are emitted, which is
+    // known once they are: what refers to a label is emitted with that in hand.
+    let guessed = collect_story_choice_labels(story)?;
+    let context = EmitContext::new(story, count_all_visits, guessed)?;
+    let mut root_value = emit_story(story, &context)?;
+    let labels = context.emitted_labels.take();
+    if labels
+        .iter()
+        .any(|(label, path)| context.qualified_choice_labels.get(label) != Some(path))
+    {
+        let mut known = context.qualified_choice_labels;
+        known.extend(labels.clone());
+        let mut context = EmitContext::new(story, count_all_visits, known)?;
+        context.label_paths = Rc::new(labels);
+        root_value = emit_story(story, &context)?;
+    }
+
+    // Build listDefs
+    let mut list_defs = Map::new();
+    for list_decl in story.list_declarations() {
+        let mut items = Map::new();
+        for (item_name, value, _selected) in &list_decl.items {
+            items.insert(item_name.clone(), json!(value));
+        }
+        list_defs.insert(list_decl.name.clone(), Value::Object(items));
+    }
+
+    compact_story_paths(&mut root_value);
+    check_story_references(&root_value, &list_defs)?;
+
+    // Emit keys in inklecate-compatible order: inkVersion, root, listDefs.
+    let mut output = serde_json::Map::new();
+    output.insert("inkVersion".to_owned(), json!(INK_VERSION_CURRENT));
+    output.insert("root".to_owned(), root_value);
+    output.insert("listDefs".to_owned(), Value::Object(list_defs));
+    Ok(Value::Object(output))
+}
+
+fn emit_story(story: &ParsedStory, context: &EmitContext) -> Result<Value, CompilerError> {
+    let mut root_scope = EmitScope::root(story.flows());
+    root_scope.label_paths = context.label_paths.clone();
 
     let mut root_container =
-        emit_nodes_with_continuation(story.root(), &root_scope, &context, Some("0.g-0"))?;
+        emit_nodes_with_continuation(story.root(), &root_scope, context, Some("0.g-0"))?;
     // Only add the default done/g-0 container if choices haven't already created a g-0 continuation.
     if !root_container.named.contains_key("g-0") {
         root_container.push(json!(["done", {"#n": "g-0"}]));
@@ -118,7 +157,7 @@ pub fn story_to_json_value(
     let mut named_content = Map::new();
 
     for flow in story.flows() {
-        named_content.insert(flow.name.clone(), emit_flow(flow, &context)?);
+        named_content.insert(flow.name.clone(), emit_flow(flow, context)?);
     }
 
     if !story.globals().is_empty() || !story.list_declarations().is_empty() {
@@ -128,24 +167,13 @@ pub fn story_to_json_value(
                 story.globals(),
                 story.list_declarations(),
                 &root_scope,
-                &context,
+                context,
             )?
             .into_json_array(None, None)?,
         );
     }
 
-    // Build listDefs
-    let mut list_defs = Map::new();
-    for list_decl in story.list_declarations() {
-        let mut items = Map::new();
-        for (item_name, value, _selected) in &list_decl.items {
-            items.insert(item_name.clone(), json!(value));
-        }
-        list_defs.insert(list_decl.name.clone(), Value::Object(items));
-    }
-
-    // Emit keys in inklecate-compatible order: inkVersion, root, listDefs.
-    let mut root_value = json!([
+    Ok(json!([
         root_container.into_json_array(None, None)?,
         "done",
         if named_content.is_empty() {
@@ -153,15 +181,7 @@ pub fn story_to_json_value(
         } else {
             Value::Object(named_content)
         }
-    ]);
-    compact_story_paths(&mut root_value);
-    check_story_references(&root_value, &list_defs)?;
-
-    let mut output = serde_json::Map::new();
-    output.insert("inkVersion".to_owned(), json!(INK_VERSION_CURRENT));
-    output.insert("root".to_owned(), root_value);
-    output.insert("listDefs".to_owned(), Value::Object(list_defs));
-    Ok(Value::Object(output))
+    ]))
 }
 
 #[derive(Debug, Default)]
@@ -179,6 +199,10 @@ struct EmitScope {
     /// Used to resolve divert targets that are siblings.
     sibling_flow_names: BTreeSet<String>,
     choice_label_targets: BTreeMap<String, String>,
+    /// Path of the flow (empty at the top of the story).
+    flow_path: String,
+    /// Where labels are known to be emitted, as `EmitContext::label_paths`.
+    label_paths: Rc<BTreeMap<String, String>>,
     /// Number of tokens that will be prepended (e.g. function parameters)
     /// before the content emitted by emit_nodes. This offset is added when
     /// computing absolute indices (e.g. conditional rejoin targets).
@@ -204,6 +228,10 @@ struct EmitContext {
     /// Fully-qualified authored label targets (e.g. `knot.stitch.choice`) mapped
     /// to their emitted runtime paths (e.g. `knot.stitch.c-0`).
     qualified_choice_labels: BTreeMap<String, String>,
+    /// Where the labels were emitted the first time.
+    label_paths: Rc<BTreeMap<String, String>>,
+    /// Where the labels are being emitted.
+    emitted_labels: RefCell<BTreeMap<String, String>>,
     /// For each function, whether each parameter position is `ref`.
     function_ref_param_positions: BTreeMap<String, Vec<bool>>,
     /// Unqualified flow/stitch target names mapped to their absolute path
@@ -469,7 +497,11 @@ fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<
 }
 
 impl EmitContext {
-    fn new(story: &ParsedStory, count_all_visits: bool) -> Result<Self, CompilerError> {
+    fn new(
+        story: &ParsedStory,
+        count_all_visits: bool,
+        qualified_choice_labels: BTreeMap<String, String>,
+    ) -> Result<Self, CompilerError> {
         let mut list_items = std::collections::BTreeMap::new();
         for list_decl in story.list_declarations() {
             let items: Vec<(String, i32)> = list_decl
@@ -479,7 +511,6 @@ impl EmitContext {
                 .collect();
             list_items.insert(list_decl.name.clone(), items);
         }
-        let qualified_choice_labels = collect_story_choice_labels(story)?;
         let unqualified_flow_targets = collect_unqualified_flow_targets(story);
         let mut raw_flow_count_flags = BTreeMap::new();
         collect_flow_count_flags_from_nodes(story.root(), &mut raw_flow_count_flags);
@@ -537,11 +568,31 @@ impl EmitContext {
             external_functions: story.external_functions.iter().cloned().collect(),
             flow_count_flags,
             qualified_choice_labels,
+            label_paths: Rc::default(),
+            emitted_labels: RefCell::default(),
             function_ref_param_positions,
             unqualified_flow_targets,
         })
     }
 
+    /// A label is emitted at a path.
+    fn label_emitted(&self, label: &str, path: &str, scope: &EmitScope) {
+        self.emitted_labels
+            .borrow_mut()
+            .insert(scope.qualified_label(label), path.to_owned());
+    }
+
+    /// What was emitted at a path moves to another.
+    fn labels_moved(&self, old_path: &str, new_path: &str) {
+        for path in self.emitted_labels.borrow_mut().values_mut() {
+            if let Some(suffix) = path.strip_prefix(old_path)
+                && (suffix.is_empty() || suffix.starts_with('.'))
+            {
+                *path = format!("{new_path}{suffix}");
+            }
+        }
+    }
+
     /// Look up a bare item name (e.g. "b") across all lists.
     /// Returns the qualified name and value if found.
     fn resolve_list_item(&self, bare_name: &str) -> Option<(String, i32)> {
@@ -574,6 +625,8 @@ impl EmitScope {
             child_flow_names: flows.iter().map(|flow| flow.name.clone()).collect(),
             sibling_flow_names: BTreeSet::new(),
             choice_label_targets: BTreeMap::new(),
+            flow_path: String::new(),
+            label_paths: Rc::default(),
             param_offset: 0,
             temp_param_names: BTreeSet::new(),
             divert_param_names: BTreeSet::new(),
@@ -596,6 +649,8 @@ impl EmitScope {
         };
 
         Self {
+            flow_path: path.clone(),
+            label_paths: self.label_paths.clone(),
             path,
             top_flow_name: self
                 .top_flow_name
@@ -621,6 +676,8 @@ impl EmitScope {
             child_flow_names: self.child_flow_names.clone(),
             sibling_flow_names: self.sibling_flow_names.clone(),
             choice_label_targets: self.choice_label_targets.clone(),
+            flow_path: self.flow_path.clone(),
+            label_paths: self.label_paths.clone(),
             param_offset: 0,
             temp_param_names: self.temp_param_names.clone(),
             divert_param_names: self.divert_param_names.clone(),
@@ -645,6 +702,8 @@ impl EmitScope {
             child_flow_names: self.child_flow_names.clone(),
             sibling_flow_names: self.sibling_flow_names.clone(),
             choice_label_targets: merged,
+            flow_path: self.flow_path.clone(),
+            label_paths: self.label_paths.clone(),
             param_offset: self.param_offset,
             temp_param_names: self.temp_param_names.clone(),
             divert_param_names: self.divert_param_names.clone(),
@@ -658,6 +717,8 @@ impl EmitScope {
             child_flow_names: self.child_flow_names.clone(),
             sibling_flow_names: self.sibling_flow_names.clone(),
             choice_label_targets: self.choice_label_targets.clone(),
+            flow_path: self.flow_path.clone(),
+            label_paths: self.label_paths.clone(),
             param_offset: 0,
             temp_param_names: self.temp_param_names.clone(),
             divert_param_names: self.divert_param_names.clone(),
@@ -743,7 +804,18 @@ impl EmitScope {
     }
 
     fn resolve_choice_label(&self, label: &str) -> Option<&str> {
-        self.choice_label_targets.get(label).map(String::as_str)
+        let expected = self.choice_label_targets.get(label)?;
+        let known = self.label_paths.get(&self.qualified_label(label));
+        Some(known.unwrap_or(expected))
+    }
+
+    /// A label of this flow as the rest of the story names it.
+    fn qualified_label(&self, label: &str) -> String {
+        if self.flow_path.is_empty() {
+            label.to_owned()
+        } else {
+            format!("{}.{label}", self.flow_path)
+        }
     }
 
     fn resolve_qualified_choice_label(
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index d795e3f..41cef8f 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -44,7 +44,8 @@ fn emit_global_declarations(
 }
 
 fn emit_flow(flow: &Flow, context: &EmitContext) -> Result<Value, CompilerError> {
-    let parent_scope = EmitScope::root(&[]);
+    let mut parent_scope = EmitScope::root(&[]);
+    parent_scope.label_paths = context.label_paths.clone();
     let scope = parent_scope.child_flow(flow);
     let mut container = emit_flow_nodes(flow, &scope, context)?;
 
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index 855757b..5559bcd 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -1,4 +1,8 @@
-use std::collections::{BTreeMap, BTreeSet};
+use std::{
+    cell::RefCell,
+    collections::{BTreeMap, BTreeSet},
+    rc::Rc,
+};
 
 use bladeink::story::INK_VERSION_CURRENT;
 use serde_json::{Map, Value, json};
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index 5e39a24..7444063 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -462,6 +462,7 @@ fn emit_nodes_with_continuation(
                 if *indent > 0 {
                     let remaining = &nodes[index + 1..];
                     let sub_scope = scope.choice_branch(label);
+                    context.label_emitted(label, &sub_scope.path, scope);
                     let mut sub_container = emit_nodes_with_continuation(
                         remaining,
                         &sub_scope,
@@ -477,6 +478,7 @@ fn emit_nodes_with_continuation(
                     for key in &g_keys {
                         let old_path = format!("{}.{}", sub_scope.path, key);
                         let new_path = format!("{}.{}", scope.path, key);
+                        context.labels_moved(&old_path, &new_path);
                         for value in sub_container.content.iter_mut() {
                             fix_divert_paths(value, &old_path, &new_path);
                         }
@@ -538,6 +540,7 @@ fn emit_nodes_with_continuation(
                         .as_deref()
                         .or(fallback_continuation);
                     let sub_scope = scope.choice_branch(gather_label);
+                    context.label_emitted(gather_label, &sub_scope.path, scope);
                     let gather_body = &nodes[body_start..body_end];
                     let mut sub_container = emit_nodes_with_continuation(
                         gather_body,
@@ -565,6 +568,7 @@ fn emit_nodes_with_continuation(
                     for key in &g_keys {
                         let old_path = format!("{}.{}", sub_scope.path, key);
                         let new_path = format!("{}.{}", scope.path, key);
+                        context.labels_moved(&old_path, &new_path);
                         for value in sub_container.content.iter_mut() {
                             fix_divert_paths(value, &old_path, &new_path);
                         }
-- 
2.43.0


From 171f18fe958b175e3be7caab55b61ea74e8cf7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 47/62] fix: choices have what follows them as their body,
 however it is indented

---
 compiler/src/parser/choice.rs |  2 +-
 compiler/src/parser/lines.rs  | 61 +++++++++++++++++++++++++++++++++++
 compiler/src/parser/mod.rs    |  2 +-
 compiler/src/parser/story.rs  |  3 +-
 4 files changed, 65 insertions(+), 3 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 8f78bc6..702b2c4 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -222,7 +222,7 @@ pub fn parse_choice(
     })]))
 }
 
-fn choice_marker_nesting_level(trimmed_start: &str) -> Option<usize> {
+pub(super) fn choice_marker_nesting_level(trimmed_start: &str) -> Option<usize> {
     let marker = trimmed_start.chars().next()?;
     if marker != '*' && marker != '+' {
         return None;
diff --git a/compiler/src/parser/lines.rs b/compiler/src/parser/lines.rs
index 7e080a7..b9c724f 100644
--- a/compiler/src/parser/lines.rs
+++ b/compiler/src/parser/lines.rs
@@ -45,6 +45,67 @@ fn count_indent_columns(content: &str) -> usize {
     columns
 }
 
+/// Indents the lines of weaves by their level, which the number of their markers tells:
+/// the whitespace at the start of a line means nothing, but the parser goes by it.
+fn align_weaves(lines: &mut [Line<'_>]) {
+    const LEVEL: usize = 4;
+    let mut level = 0;
+    // Open braces, and where the line of the first of them was and is.
+    let mut open = 0usize;
+    let mut moved = (0, 0);
+
+    for line in lines {
+        let text = line.content.trim();
+        if text.is_empty() {
+            continue;
+        }
+        if open == 0 {
+            let from = line.indent;
+            if parse_header(line.content).is_some() {
+                level = 0;
+            } else if is_declaration(text) {
+                // Not a part of the weave
+                level = 0;
+            } else if let Some(markers) = choice_marker_nesting_level(text) {
+                line.indent = (markers - 1) * LEVEL;
+                level = markers;
+            } else if let markers @ 1.. = gather_nesting_level(text) {
+                level = markers - 1;
+                line.indent = level * LEVEL;
+                let after = text.trim_start_matches(|c: char| c == '-' || c.is_whitespace());
+                let after = after
+                    .strip_prefix('(')
+                    .and_then(|label| label.split_once(')'))
+                    .map_or(after, |(_, rest)| rest.trim_start());
+                if let Some(markers) = choice_marker_nesting_level(after) {
+                    level = markers;
+                }
+            } else if level > 0 {
+                line.indent = level * LEVEL;
+            }
+            moved = (from, line.indent);
+        } else {
+            line.indent = (line.indent + moved.1).saturating_sub(moved.0);
+        }
+
+        let mut escaped = false;
+        for c in text.chars() {
+            match c {
+                '{' if !escaped => open += 1,
+                '}' if !escaped => open = open.saturating_sub(1),
+                _ => {}
+            }
+            escaped = c == '\\' && !escaped;
+        }
+    }
+}
+
+fn is_declaration(text: &str) -> bool {
+    ["VAR ", "CONST ", "LIST ", "EXTERNAL "]
+        .iter()
+        .any(|keyword| text.starts_with(keyword))
+}
+
 /// Strip all `/* ... */` block comments from a string.
 fn strip_block_comments(s: &str) -> String {
     let mut result = String::with_capacity(s.len());
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index 427ded3..f6c044c 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 
 use self::{
-    choice::parse_choice,
+    choice::{choice_marker_nesting_level, gather_nesting_level, parse_choice},
     conditional::{looks_like_conditional, parse_conditional},
     expression::{parse_bool, parse_call_like, parse_expression, parse_path_identifier},
     inline::{parse_divert, parse_divert_line, parse_dynamic_string, tokenize_inline_content},
diff --git a/compiler/src/parser/story.rs b/compiler/src/parser/story.rs
index a7c111f..4c7fdd6 100644
--- a/compiler/src/parser/story.rs
+++ b/compiler/src/parser/story.rs
@@ -11,7 +11,8 @@ impl<'a> Parser<'a> {
         }
 
         let normalized = self.source.replace("\r\n", "\n");
-        let lines = split_lines(&normalized);
+        let mut lines = split_lines(&normalized);
+        align_weaves(&mut lines);
 
         if lines.is_empty() {
             return Err(CompilerError::invalid_source(
-- 
2.43.0


From 1c6f6abc59a95891b979fa6ce5cea3487ef7f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 48/62] fix: text before a divert ends with one space, and a
 divert ends a tag

---
 compiler/src/inline.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 3da889a..0ed2da9 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -35,10 +35,16 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
                 nodes.push(Node::Text(std::mem::take(&mut text)));
             }
             // Multiple tags on one line: "text #tag1 #tag2 #tag3"
-            let tag_str = content[index + 1..].trim_start();
-            for tag in split_hash_tags(tag_str)? {
+            // A divert ends them: "text #tag -> target"
+            let rest = &content[index + 1..];
+            let end = find_top_level(rest, |rest| rest.starts_with("->"));
+            let (tags, diverts) = rest.split_at(end.unwrap_or(rest.len()));
+            for tag in split_hash_tags(tags.trim_start())? {
                 nodes.push(Node::Tag(tag));
             }
+            if !diverts.is_empty() {
+                nodes.append(&mut parse_divert_line(diverts)?);
+            }
             break;
         }
 
@@ -83,7 +89,10 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
 
         // Divert or tunnel: -> target  or  -> target ->
         if ch == '-' && content[index..].starts_with("->") {
+            // Text ends with one space before it
             if !text.is_empty() {
+                text.truncate(text.trim_end_matches([' ', '\t']).len());
+                text.push(' ');
                 nodes.push(Node::Text(std::mem::take(&mut text)));
             }
             let divert_str = content[index..].trim();
-- 
2.43.0


From 9adbb2da3f85fa92d1126f84b51da67236482a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 49/62] fix: choices of a flow with parameters are found behind
 its parameters

---
 compiler/src/emitter/choice_threaded.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index 3ad2b92..84a9aeb 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -21,7 +21,7 @@ fn emit_choice_block(
                 section.choices,
                 section.continuation_nodes,
                 scope,
-                out.content.len(),
+                out.content.len() + scope.param_offset,
                 next_choice_index,
                 context,
                 fallback_continuation,
@@ -38,7 +38,7 @@ fn emit_choice_block(
                 context,
                 WrappedLoopChoiceBlockConfig {
                     loop_label,
-                    group_index: out.content.len(),
+                    group_index: out.content.len() + scope.param_offset,
                     fallback_continuation,
                 },
             )?;
-- 
2.43.0


From 367faf8eedced3b7bcb704cdffc08f3a1e8b91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 50/62] fix: a LIST goes on in the next line only around a
 comma

---
 compiler/src/parser/statement.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 61a1cdf..df9f108 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -74,6 +74,13 @@ pub fn parse_statement(
         let mut full = rest.to_owned();
         while *line_index < lines.len() {
             let next = lines[*line_index].content.trim();
+            // The list goes on after a comma, or where the next line starts with one.
+            if !next.is_empty()
+                && !next.starts_with(',')
+                && !strip_block_comments(&full).trim_end().ends_with([',', '='])
+            {
+                break;
+            }
             // Stop if line is non-empty and doesn't start with whitespace (new statement)
             if !lines[*line_index].content.starts_with([' ', '\t']) && !next.is_empty() {
                 break;
-- 
2.43.0


From 8e3579bac3d776f0f1b5ed5f9ff8c930e6df1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 51/62] fix: spaces around the branches of inline logic are
 part of the text

---
 compiler/src/inline.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 0ed2da9..30a6f59 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -472,11 +472,10 @@ fn parse_inline_conditional_node(inline: &str) -> Result<Option<Node>, CompilerE
 
     // Split on top-level '|' to get optional false branch.
     let branches: Vec<&str> = split_top_level_pipe(branch_text);
-    // Use trim_end (not trim) to preserve the leading space that authors
-    // write after ':' — inklecate keeps it as part of the text token.
-    let when_true = tokenize_inline_content(branches[0].trim_end())?;
+    // The spaces around a branch are part of its text, as in inklecate.
+    let when_true = tokenize_inline_content(branches[0])?;
     let when_false = if branches.len() > 1 {
-        Some(tokenize_inline_content(branches[1].trim_end())?)
+        Some(tokenize_inline_content(branches[1])?)
     } else {
         None
     };
@@ -580,8 +579,14 @@ pub fn parse_inline_sequence(content: &str) -> Result<Option<Sequence>, Compiler
     }
 
     let mut branches = Vec::new();
-    for part in parts {
-        branches.push(tokenize_inline_content(part.trim())?);
+    for (index, part) in parts.into_iter().enumerate() {
+        // The spaces around an alternative are part of its text, except after the brace.
+        let part = if index == 0 && !explicit_mode {
+            part.trim_start()
+        } else {
+            part
+        };
+        branches.push(tokenize_inline_content(part)?);
     }
 
     Ok(Some(Sequence { mode, branches }))
-- 
2.43.0


From 1abbb72cd1f832d79dd0cb380d167b2ff282781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 52/62] fix: empty lines before the first case leave a switch a
 switch

---
 compiler/src/parser/conditional.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 3dcff2a..f738ac4 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -66,7 +66,13 @@ pub fn parse_conditional(
     })?;
 
     // Detect switch-style: `{ expr: \n - Case1: ... }` — look ahead at next body line
-    let first_body_line_index = *line_index + 1;
+    let mut first_body_line_index = *line_index + 1;
+    while lines
+        .get(first_body_line_index)
+        .is_some_and(|line| line.content.trim().is_empty())
+    {
+        first_body_line_index += 1;
+    }
     let is_switch = rest_after_colon.trim().is_empty() && first_body_line_index < lines.len() && {
         let first_body = lines[first_body_line_index].content.trim();
         if first_body.starts_with('-')
-- 
2.43.0


From a9838d7a25bfa0f048f744068fdf482f1c9543cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 53/62] fix: constants are resolved in arguments of diverts,
 texts, tags, strings and other constants

---
 compiler/src/consts.rs             | 57 +++++++++++++++++++++++++++---
 compiler/src/emitter/context.rs    |  6 ++++
 compiler/src/emitter/expression.rs | 10 +++++-
 compiler/src/emitter/mod.rs        |  4 +--
 4 files changed, 70 insertions(+), 7 deletions(-)

diff --git a/compiler/src/consts.rs b/compiler/src/consts.rs
index 2a37218..89c35b9 100644
--- a/compiler/src/consts.rs
+++ b/compiler/src/consts.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::ast::{Choice, Condition, Expression, Flow, Node, ParsedStory};
 
@@ -7,18 +7,62 @@ pub(crate) fn resolve(mut story: ParsedStory) -> ParsedStory {
         return story;
     }
 
+    let consts = settle(std::mem::take(&mut story.consts));
     for global in &mut story.globals {
-        resolve_expression(&mut global.initial_value, &story.consts);
+        resolve_expression(&mut global.initial_value, &consts);
     }
-
-    let consts = story.consts.clone();
     resolve_nodes(&mut story.root, &consts);
     for flow in &mut story.flows {
         resolve_flow(flow, &consts);
     }
+    // What is still text (the texts of choices, tags, strings) is resolved when it is emitted.
+    story.consts = consts;
     story
 }
 
+/// Resolves the constants that are given in terms of others.
+/// Those that go round in a circle, or grow too large, are left out.
+fn settle(mut consts: HashMap<String, Expression>) -> HashMap<String, Expression> {
+    const LARGEST: usize = 10_000;
+    let mut settled = HashMap::new();
+    loop {
+        let waiting: HashSet<String> = consts.keys().cloned().collect();
+        let (mut ready, later): (HashMap<_, _>, HashMap<_, _>) = consts
+            .into_iter()
+            .partition(|(_, value)| !mentions_any(value, &waiting));
+        if ready.is_empty() {
+            return settled;
+        }
+        for value in ready.values_mut() {
+            resolve_expression(value, &settled);
+        }
+        ready.retain(|_, value| size(value) <= LARGEST);
+        settled.extend(ready);
+        consts = later;
+    }
+}
+
+fn mentions_any(expression: &Expression, names: &HashSet<String>) -> bool {
+    match expression {
+        Expression::Variable(name) => names.contains(name),
+        Expression::Binary { left, right, .. } => {
+            mentions_any(left, names) || mentions_any(right, names)
+        }
+        Expression::Negate(inner) | Expression::Not(inner) => mentions_any(inner, names),
+        Expression::FunctionCall { args, .. } => args.iter().any(|arg| mentions_any(arg, names)),
+        _ => false,
+    }
+}
+
+fn size(expression: &Expression) -> usize {
+    1 + match expression {
+        Expression::Binary { left, right, .. } => size(left) + size(right),
+        Expression::Negate(inner) | Expression::Not(inner) => size(inner),
+        Expression::FunctionCall { args, .. } => args.iter().map(size).sum(),
+        _ => 0,
+    }
+}
+
 fn resolve_flow(flow: &mut Flow, consts: &HashMap<String, Expression>) {
     resolve_nodes(&mut flow.nodes, consts);
     for child in &mut flow.children {
@@ -61,6 +105,11 @@ fn resolve_nodes(nodes: &mut [Node], consts: &HashMap<String, Expression>) {
                     resolve_expression(argument, consts);
                 }
             }
+            Node::Divert(divert) | Node::ThreadDivert(divert) => {
+                for argument in &mut divert.arguments {
+                    resolve_expression(argument, consts);
+                }
+            }
             Node::Sequence(sequence) => {
                 for branch in &mut sequence.branches {
                     resolve_nodes(branch, consts);
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 991a586..3eb139a 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -232,6 +232,10 @@ struct EmitContext {
     label_paths: Rc<BTreeMap<String, String>>,
     /// Where the labels are being emitted.
     emitted_labels: RefCell<BTreeMap<String, String>>,
+    /// The constants, for what is parsed as late as here.
+    consts: HashMap<String, Expression>,
+    /// The value of a constant is being emitted, which is given without constants.
+    inside_const: Cell<bool>,
     /// For each function, whether each parameter position is `ref`.
     function_ref_param_positions: BTreeMap<String, Vec<bool>>,
     /// Unqualified flow/stitch target names mapped to their absolute path
@@ -570,6 +574,8 @@ impl EmitContext {
             qualified_choice_labels,
             label_paths: Rc::default(),
             emitted_labels: RefCell::default(),
+            consts: story.consts.clone(),
+            inside_const: Cell::new(false),
             function_ref_param_positions,
             unqualified_flow_targets,
         })
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index ab3ea78..8d23241 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -291,7 +291,15 @@ fn emit_expression_ctx(
             out.push(json!("/str"));
         }
         Expression::Variable(name) => {
-            if let Some(path) = scope.and_then(|s| s.resolve_choice_label(name)) {
+            if let Some(ctx) = context
+                && scope.is_none_or(|s| !s.temp_param_names.contains(name))
+                && !ctx.inside_const.get()
+                && let Some(value) = ctx.consts.get(name)
+            {
+                ctx.inside_const.set(true);
+                emit_expression_ctx(value, out, context, scope);
+                ctx.inside_const.set(false);
+            } else if let Some(path) = scope.and_then(|s| s.resolve_choice_label(name)) {
                 out.push(json!({"CNT?": path}))
             } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
             {
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index 5559bcd..868541f 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -1,6 +1,6 @@
 use std::{
-    cell::RefCell,
-    collections::{BTreeMap, BTreeSet},
+    cell::{Cell, RefCell},
+    collections::{BTreeMap, BTreeSet, HashMap},
     rc::Rc,
 };
 
-- 
2.43.0


From c85cd81a6e229c6bbdb5c6f75931ae17ff48ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 54/62] fix: everything a name may stand for is counted where
 counts are asked for

---
 compiler/src/emitter/context.rs | 48 ++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 3eb139a..0985273 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -272,6 +272,13 @@ fn collect_unqualified_flow_targets_recursive(
     }
 }
 
+fn collect_flow_paths(flow: &Flow, path: String, paths: &mut Vec<String>) {
+    for child in &flow.children {
+        collect_flow_paths(child, format!("{path}.{}", child.name), paths);
+    }
+    paths.push(path);
+}
+
 fn collect_unqualified_flow_targets(story: &ParsedStory) -> BTreeMap<String, String> {
     let mut shortcuts: BTreeMap<String, Option<String>> = BTreeMap::new();
 
@@ -519,30 +526,29 @@ impl EmitContext {
         let mut raw_flow_count_flags = BTreeMap::new();
         collect_flow_count_flags_from_nodes(story.root(), &mut raw_flow_count_flags);
         collect_flow_count_flags_from_flows_into(story.flows(), &mut raw_flow_count_flags);
+        let mut flow_paths = Vec::new();
+        for flow in story.flows() {
+            collect_flow_paths(flow, flow.name.clone(), &mut flow_paths);
+        }
         let mut flow_count_flags = BTreeMap::new();
         for (target, flags) in raw_flow_count_flags {
-            // First try unqualified flow targets (knots/stitches)
-            if let Some(resolved) = unqualified_flow_targets.get(&target) {
-                add_flow_count_flags(&mut flow_count_flags, resolved, flags);
-            } else if target.contains('.') {
-                // Already qualified path
+            // A bare name may stand for any flow or label of that name, like "ans_agent"
+            // for "interrogation.0.ans_agent".
+            let suffix = format!(".{target}");
+            let names = |path: &str| path == target || path.ends_with(&suffix);
+            let flows = flow_paths.iter().filter(|path| names(path));
+            let labels = qualified_choice_labels
+                .iter()
+                .filter(|(qualified_key, _)| names(qualified_key))
+                .map(|(_, runtime_path)| runtime_path);
+            let mut resolved_any = false;
+            for path in flows.chain(labels) {
+                add_flow_count_flags(&mut flow_count_flags, path, flags);
+                resolved_any = true;
+            }
+            if !resolved_any {
+                // Unresolved — store as-is (may be a global variable, not a flow).
                 add_flow_count_flags(&mut flow_count_flags, &target, flags);
-            } else {
-                // Try to resolve through qualified choice labels (gather labels).
-                // A bare name like "ans_agent" may correspond to one or more
-                // qualified keys like "interrogation.0.ans_agent".
-                let mut resolved_any = false;
-                let suffix = format!(".{target}");
-                for (qualified_key, runtime_path) in &qualified_choice_labels {
-                    if qualified_key.ends_with(&suffix) || qualified_key == &target {
-                        add_flow_count_flags(&mut flow_count_flags, runtime_path, flags);
-                        resolved_any = true;
-                    }
-                }
-                if !resolved_any {
-                    // Unresolved — store as-is (may be a global variable, not a flow).
-                    add_flow_count_flags(&mut flow_count_flags, &target, flags);
-                }
             }
         }
         let function_ref_param_positions = story
-- 
2.43.0


From 29ae8b0669858cdf4a1a8f327f6f4750e07713f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 55/62] fix: - else: is an else branch however it is spaced

---
 compiler/src/parser/conditional.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index f738ac4..98e9c97 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -77,7 +77,7 @@ pub fn parse_conditional(
         let first_body = lines[first_body_line_index].content.trim();
         if first_body.starts_with('-')
             && !first_body.starts_with("->")
-            && !first_body.starts_with("- else:")
+            && else_branch(first_body).is_none()
         {
             // Check that the branch looks like "- case_expr: body" (has a colon after stripping -)
             let branch_content = first_body.trim_start_matches('-').trim_start();
@@ -171,17 +171,8 @@ pub fn parse_conditional(
             return Ok(nodes);
         }
 
-        if trimmed == "- else:" {
-            in_else = true;
-            *line_index += 1;
-            if body_line.had_newline {
-                when_false.push(Node::Newline);
-            }
-            continue;
-        }
-
-        // `- else: inline_content` on a single line
-        if let Some(else_content) = trimmed.strip_prefix("- else:") {
+        // `- else:`, or `- else: inline_content` on a single line
+        if let Some(else_content) = else_branch(trimmed) {
             in_else = true;
             *line_index += 1;
             let rest = else_content.trim();
@@ -316,7 +307,7 @@ pub fn parse_multi_branch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = else_header(header) {
                 current_condition = None;
                 current_nodes.extend(tokenize_inline_content(rest.trim())?);
                 if line.had_newline {
@@ -504,7 +495,7 @@ fn parse_switch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = else_header(header) {
                 current_case = None; // else branch
                 let rest = rest.trim();
                 if !rest.is_empty() {
@@ -610,3 +601,13 @@ fn closing_brace_tail(trimmed: &str) -> Option<&str> {
     }
     None
 }
+
+/// What follows the colon of `- else:`, however it is spaced.
+fn else_branch(line: &str) -> Option<&str> {
+    else_header(line.strip_prefix('-')?.trim_start())
+}
+
+/// What follows the colon of `else:`, however it is spaced.
+fn else_header(header: &str) -> Option<&str> {
+    header.strip_prefix("else")?.trim_start().strip_prefix(':')
+}
-- 
2.43.0


From fcfac3551d49087030e590f48ab2f21e2a63d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 56/62] fix: TODO notes are not part of the story

---
 compiler/src/parser/statement.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index df9f108..0c398c9 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -9,7 +9,7 @@ pub fn parse_statement(
     let ln = *line_index + 1;
     let _level = Level::enter().map_err(|e| e.with_line(ln))?;
 
-    if trimmed.is_empty() || trimmed.starts_with("//") {
+    if trimmed.is_empty() || trimmed.starts_with("//") || is_author_note(trimmed) {
         *line_index += 1;
         return Ok(ParsedStatement::Nodes(Vec::new()));
     }
@@ -299,3 +299,9 @@ pub fn parse_statement(
         .map(ParsedStatement::Nodes)
         .map_err(|e| e.with_line(ln))
 }
+
+/// `TODO: …` is a note of the author to themselves, not part of the story.
+fn is_author_note(line: &str) -> bool {
+    line.strip_prefix("TODO")
+        .is_some_and(|rest| rest.trim_start().starts_with(':'))
+}
-- 
2.43.0


From 6f13e8c42a9dcbdfd3232bc3d0b0a69e41ac9de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 57/62] fix: what is escaped is text in tags, strings and
 branches, and so are parentheses

---
 compiler/src/emitter/expression.rs  |  4 +--
 compiler/src/emitter/mod.rs         |  2 +-
 compiler/src/inline.rs              | 47 ++++++++++++++++++++---------
 compiler/src/parser/declarations.rs | 17 ++---------
 compiler/src/parser/expression.rs   |  2 ++
 compiler/src/parser/mod.rs          |  5 ++-
 6 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 8d23241..e5c6880 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -257,13 +257,13 @@ fn emit_expression_ctx(
                         }
                     })
                     .collect();
-                out.push(json!(format!("^{text}")));
+                out.push(json!(format!("^{}", unescape(&text))));
             } else {
                 for part in &dynamic.parts {
                     match part {
                         DynamicStringPart::Text(t) => {
                             if !t.is_empty() {
-                                out.push(json!(format!("^{t}")));
+                                out.push(json!(format!("^{}", unescape(t))));
                             }
                         }
                         DynamicStringPart::Expression(expr) => {
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index 868541f..96d51d6 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -14,7 +14,7 @@ use crate::{
         SequenceMode,
     },
     error::CompilerError,
-    inline::{parse_dynamic_string, tokenize_inline_content},
+    inline::{parse_dynamic_string, tokenize_inline_content, unescape},
     nesting::{ContentLevel, MAX_JSON_DEPTH, content_too_deep},
     validator::is_builtin_function,
 };
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 30a6f59..8a235b8 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -179,6 +179,13 @@ pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError>
         }
 
         text.push(ch);
+
+        // What is escaped stays so until it is emitted
+        if ch == '\\'
+            && let Some((_, next)) = chars.next()
+        {
+            text.push(next);
+        }
     }
 
     if !text.is_empty() {
@@ -188,6 +195,23 @@ pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError>
     Ok(DynamicString { parts })
 }
 
+/// Text without its escapes: `\X` is X, as in lines of text.
+pub fn unescape(text: &str) -> String {
+    let mut result = String::with_capacity(text.len());
+    let mut chars = text.chars();
+    while let Some(ch) = chars.next() {
+        match ch {
+            '\\' => match chars.next() {
+                Some('n') => result.push('\n'),
+                Some(next) => result.push(next),
+                None => {}
+            },
+            _ => result.push(ch),
+        }
+    }
+    result
+}
+
 pub fn parse_divert(input: &str) -> Result<Divert, CompilerError> {
     if let Some((target, args)) = parse_call_like(input)? {
         return Ok(Divert {
@@ -389,19 +413,9 @@ fn split_hash_tags(input: &str) -> Result<Vec<DynamicString>, CompilerError> {
     let mut rest = input;
     loop {
         // Find the next # that is not inside braces
-        let mut depth = 0usize;
-        let mut split_at = None;
-        for (i, ch) in rest.char_indices() {
-            match ch {
-                '{' => depth += 1,
-                '}' => depth = depth.saturating_sub(1),
-                '#' if depth == 0 && i > 0 => {
-                    split_at = Some(i);
-                    break;
-                }
-                _ => {}
-            }
-        }
+        let split_at = find_top_level(rest, |tail| {
+            tail.starts_with('#') && tail.len() < rest.len()
+        });
         if let Some(idx) = split_at {
             tags.push(parse_dynamic_string(rest[..idx].trim_start())?);
             rest = &rest[idx + 1..];
@@ -433,8 +447,8 @@ pub fn split_top_level_pipe(input: &str) -> Vec<&str> {
                 }
                 continue;
             }
-            '{' | '(' => depth += 1,
-            '}' | ')' => depth -= 1,
+            '{' => depth += 1,
+            '}' => depth -= 1,
             '|' if depth == 0 => {
                 result.push(&input[start..i]);
                 start = i + 1;
@@ -450,8 +464,11 @@ pub fn split_top_level_pipe(input: &str) -> Vec<&str> {
 
 pub fn find_matching_brace(content: &str, start: usize) -> Option<usize> {
     let mut depth = 0;
+    let mut escaped = false;
     for (index, ch) in content[start..].char_indices() {
         match ch {
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
             '{' => depth += 1,
             '}' => {
                 depth -= 1;
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 8348839..4b6f7f7 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -176,20 +176,9 @@ fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
 /// meaning the block spans multiple lines and should be parsed by the conditional/sequence
 /// parser rather than the inline tokenizer.
 fn brace_spans_multiple_lines(content: &str) -> bool {
-    let mut depth: i32 = 0;
-    for ch in content.chars() {
-        match ch {
-            '{' => depth += 1,
-            '}' => {
-                depth -= 1;
-                if depth == 0 {
-                    return false; // first '{' was closed on this line
-                }
-            }
-            _ => {}
-        }
-    }
-    true // '{' was never closed — spans multiple lines
+    content
+        .find('{')
+        .is_none_or(|start| find_matching_brace(content, start).is_none())
 }
 
 fn split_assignment(input: &str, separator: &str) -> Result<(String, String), CompilerError> {
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index fa3c298..241e2d9 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -167,6 +167,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 let mut brace_depth = 0usize;
                 while end < chars.len() {
                     match chars[end] {
+                        // whatever is escaped
+                        '\\' => end += 1,
                         '{' => brace_depth += 1,
                         '}' if brace_depth > 0 => brace_depth -= 1,
                         '"' if brace_depth == 0 => break,
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index f6c044c..52cb012 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -14,7 +14,10 @@ use self::{
     choice::{choice_marker_nesting_level, gather_nesting_level, parse_choice},
     conditional::{looks_like_conditional, parse_conditional},
     expression::{parse_bool, parse_call_like, parse_expression, parse_path_identifier},
-    inline::{parse_divert, parse_divert_line, parse_dynamic_string, tokenize_inline_content},
+    inline::{
+        find_matching_brace, parse_divert, parse_divert_line, parse_dynamic_string,
+        tokenize_inline_content,
+    },
     sequence::{looks_like_sequence, parse_sequence},
 };
 
-- 
2.43.0


From 4cd046d2bea199e8a1dc313ac6bb3cee8415b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 58/62] fix: conditions of a choice end at their own brace, and
 go on in any line

---
 compiler/src/parser/choice.rs | 78 ++++++++++++-----------------------
 1 file changed, 26 insertions(+), 52 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 702b2c4..2cb73e0 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -7,7 +7,7 @@ use crate::{
 use super::{
     Line, ParsedStatement,
     inline::{
-        find_top_level, parse_condition, parse_dynamic_string, split_text_and_tags,
+        find_matching_brace, find_top_level, parse_dynamic_string, split_text_and_tags,
         tokenize_inline_content,
     },
 };
@@ -57,61 +57,33 @@ pub fn parse_choice(
 
     let choice_indent = line.indent;
 
-    // Look ahead at indented body lines: if they start with `{ condition }` (optionally followed
-    // by display text), absorb the condition and, if text is present, set it as the start_text.
-    // This implements multi-line choice conditions:
+    // Further conditions may stand on the lines after the first one, and the text of the
+    // choice on the line after the last one:
     //   * { cond1 }
     //     { cond2 }  display text   OR   plain display text
-    // Only scan when there is no start text yet on the header line.
-    // We scan when: the header has conditions OR we absorb body conditions.
-    let header_has_conditions = !conditions.is_empty();
-    if remainder.trim().is_empty() {
-        let mut absorbed_body_conditions = false;
-        while *line_index < lines.len() {
-            let peek = &lines[*line_index];
+    if remainder.trim().is_empty() && !conditions.is_empty() {
+        while let Some(peek) = lines.get(*line_index) {
             let peek_trimmed = peek.content.trim();
-            // Must be indented deeper than choice
-            if peek.indent <= choice_indent {
-                break;
-            }
-            // If starts with `{`, it only counts as an additional choice condition when the
-            // choice was already established as conditional on the header or by an earlier body
-            // condition line. Otherwise it's normal body content, such as `{5}` in a default
-            // choice body.
-            if peek_trimmed.starts_with('{') && (header_has_conditions || absorbed_body_conditions)
+            if peek_trimmed.is_empty()
+                || super::parse_header(peek.content).is_some()
+                || peek_trimmed.starts_with(['-', '*', '+'])
             {
-                // Find the matching `}`
-                if let Some(close) = peek_trimmed.find('}') {
-                    let cond_str = &peek_trimmed[1..close];
-                    let after_close = peek_trimmed[close + 1..].trim();
-                    conditions.push(parse_condition(cond_str.trim())?);
-                    absorbed_body_conditions = true;
-                    *line_index += 1;
-                    if !after_close.is_empty() {
-                        // Remaining text after `{ cond }` becomes the display text
-                        choice_text = parse_choice_text(after_close)?;
-                        is_invisible_default = false;
-                        break;
-                    }
-                    // Pure condition line — continue looking for more conditions/text
-                } else {
-                    break;
-                }
-            } else if absorbed_body_conditions || header_has_conditions {
-                // After conditions (header or body), a plain text line becomes start text.
-                // Skip if it looks like a gather, divert, or sub-choice.
-                if peek_trimmed.starts_with('-')
-                    || peek_trimmed.starts_with('*')
-                    || peek_trimmed.starts_with('+')
-                {
-                    break;
-                }
-                choice_text = parse_choice_text(peek_trimmed)?;
-                is_invisible_default = false;
-                *line_index += 1;
                 break;
+            }
+            let (_, mut more, text) = if peek_trimmed.starts_with('{') {
+                parse_choice_prefixes(peek_trimmed)?
+            } else if peek.indent > choice_indent {
+                (None, Vec::new(), peek_trimmed)
             } else {
                 break;
+            };
+            conditions.append(&mut more);
+            *line_index += 1;
+            if !text.is_empty() {
+                choice_text = parse_choice_text(text)?;
+                is_invisible_default =
+                    choice_text.display_text.is_empty() && choice_text.selected_text.is_none();
+                break;
             }
         }
     }
@@ -276,11 +248,13 @@ pub fn parse_choice_prefixes(
     }
 
     while let Some(after_open) = remainder.strip_prefix('{') {
-        let end = after_open.find('}').ok_or_else(|| {
+        let end = find_matching_brace(remainder, 0).ok_or_else(|| {
             CompilerError::invalid_source("choice condition is missing '}'".to_owned())
         })?;
-        conditions.push(super::inline::parse_condition(after_open[..end].trim())?);
-        remainder = after_open[end + 1..].trim_start();
+        conditions.push(super::inline::parse_condition(
+            after_open[..end - 1].trim(),
+        )?);
+        remainder = after_open[end..].trim_start();
     }
 
     Ok((label, conditions, remainder))
-- 
2.43.0


From f578ec25b76221bc8e22e5ffde43d23935312149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 59/62] fix: what a statement assigns is told by its first name

---
 compiler/src/parser/declarations.rs | 98 ++++++++++++++---------------
 1 file changed, 46 insertions(+), 52 deletions(-)

diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 4b6f7f7..825c378 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -107,69 +107,63 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
 }
 
 fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
+    let input = input.trim();
     // Strip optional `temp` keyword (marks the assignment as a local/temporary variable)
-    let (input, is_temp) = if let Some(rest) = input.strip_prefix("temp ") {
-        (rest.trim_start(), true)
-    } else {
-        (input, false)
+    let (input, is_temp) = match input.strip_prefix("temp") {
+        Some(rest) if rest.starts_with([' ', '\t']) => (rest.trim_start(), true),
+        _ => (input, false),
     };
 
-    // x++ sugar for x += 1
-    if let Some(name) = input.strip_suffix("++") {
-        let name = name.trim().to_owned();
-        return Ok(Node::Assignment {
-            variable_name: name,
-            expression: Expression::Int(1),
-            mode: AssignMode::AddAssign,
-        });
+    // The name of the variable comes first, then the operator.
+    let name_end = input
+        .find(|ch: char| !(ch.is_alphanumeric() || ch == '_'))
+        .unwrap_or(input.len());
+    let (name, rest) = input.split_at(name_end);
+    let rest = rest.trim_start();
+    let assignment = |mode, expression| {
+        Ok(Node::Assignment {
+            variable_name: name.to_owned(),
+            expression,
+            mode,
+        })
+    };
+    match rest {
+        // x++ and x-- are sugar for x += 1 and x -= 1
+        "++" => return assignment(AssignMode::AddAssign, Expression::Int(1)),
+        "--" => return assignment(AssignMode::SubtractAssign, Expression::Int(1)),
+        _ => {}
     }
-
-    // x-- sugar for x -= 1
-    if let Some(name) = input.strip_suffix("--") {
-        let name = name.trim().to_owned();
-        return Ok(Node::Assignment {
-            variable_name: name,
-            expression: Expression::Int(1),
-            mode: AssignMode::SubtractAssign,
-        });
+    if let Some(expression) = rest.strip_prefix("+=") {
+        return assignment(AssignMode::AddAssign, parse_expression(expression.trim())?);
+    }
+    if let Some(expression) = rest.strip_prefix("-=") {
+        return assignment(
+            AssignMode::SubtractAssign,
+            parse_expression(expression.trim())?,
+        );
+    }
+    if let Some(expression) = rest.strip_prefix('=')
+        && !expression.starts_with('=')
+    {
+        let mode = if is_temp {
+            AssignMode::TempSet
+        } else {
+            AssignMode::Set
+        };
+        return assignment(mode, parse_expression(expression.trim())?);
     }
 
-    // Check for a standalone function call (no '=' in the statement, but has '()')
-    // e.g. `~ derp(2, 3, 4)` or `~ merchant_init()`
-    if !input.contains('=')
+    // Anything else is a function call, e.g. `~ derp(2, 3, 4)` or `~ merchant_init()`
+    if !is_temp
+        && input.ends_with(')')
         && let Ok(Some((name, args))) = parse_call_like(input)
     {
         return Ok(Node::VoidCall { name, args });
     }
 
-    if input.contains("+=") {
-        let (name, expression) = split_assignment(input, "+=")?;
-        return Ok(Node::Assignment {
-            variable_name: name,
-            expression: parse_expression(&expression)?,
-            mode: AssignMode::AddAssign,
-        });
-    }
-
-    if input.contains("-=") {
-        let (name, expression) = split_assignment(input, "-=")?;
-        return Ok(Node::Assignment {
-            variable_name: name,
-            expression: parse_expression(&expression)?,
-            mode: AssignMode::SubtractAssign,
-        });
-    }
-
-    let (name, expression) = split_assignment(input, "=")?;
-    Ok(Node::Assignment {
-        variable_name: name,
-        expression: parse_expression(&expression)?,
-        mode: if is_temp {
-            AssignMode::TempSet
-        } else {
-            AssignMode::Set
-        },
-    })
+    Err(CompilerError::invalid_source(
+        "expected assignment using '='".to_owned(),
+    ))
 }
 
 /// Returns true if the leading `{` in `content` is NOT closed on the same line —
-- 
2.43.0


From 97ac7bbcf463d78f2e149cb4caa6d7e8e9de5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 60/62] fix: a line ends behind a function called by += and -=,
 or in a string

---
 compiler/src/emitter/expression.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index e5c6880..f2fdbfa 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -146,6 +146,15 @@ fn expression_has_function_call(expr: &Expression) -> bool {
         Expression::Binary { left, right, .. } => {
             expression_has_function_call(left) || expression_has_function_call(right)
         }
+        Expression::Str(value) => parse_dynamic_string(value)
+            .is_ok_and(|string| string.parts.iter().any(part_has_function_call)),
+        _ => false,
+    }
+}
+
+fn part_has_function_call(part: &DynamicStringPart) -> bool {
+    match part {
+        DynamicStringPart::Expression(expr) => expression_has_function_call(expr),
         _ => false,
     }
 }
@@ -202,6 +211,9 @@ fn emit_assignment(
                 out.push(json!({"VAR=": variable_name, "re": true}));
             }
             out.push(json!("/ev"));
+            if expression_has_function_call(expression) {
+                out.push(json!("\n"));
+            }
         }
         AssignMode::SubtractAssign => {
             out.push(json!("ev"));
@@ -219,6 +231,9 @@ fn emit_assignment(
                 out.push(json!({"VAR=": variable_name, "re": true}));
             }
             out.push(json!("/ev"));
+            if expression_has_function_call(expression) {
+                out.push(json!("\n"));
+            }
         }
     }
 }
-- 
2.43.0


From 4c817e2d6a873a9e455a549be0e19a5a9d148ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 61/62] fix: the values of a half evaluated expression belong
 to their flow

---
 runtime/src/flow.rs        | 19 +++++++++++++++++++
 runtime/src/story_state.rs |  9 +++++++++
 2 files changed, 28 insertions(+)

diff --git a/runtime/src/flow.rs b/runtime/src/flow.rs
index bd96ec1..e3d19cb 100644
--- a/runtime/src/flow.rs
+++ b/runtime/src/flow.rs
@@ -17,6 +17,9 @@ pub(crate) struct Flow {
     pub callstack: Rc<RefCell<CallStack>>,
     pub output_stream: Vec<Rc<dyn RTObject>>,
     pub current_choices: Vec<Rc<Choice>>,
+    /// The values of half evaluated expressions, while the flow is not the
+    /// current one (the current flow's are in the story state)
+    pub parked_evaluation_stack: Vec<Rc<dyn RTObject>>,
 }
 
 impl Flow {
@@ -26,6 +29,7 @@ impl Flow {
             callstack: Rc::new(RefCell::new(CallStack::new(main_content_container))),
             output_stream: Vec::new(),
             current_choices: Vec::new(),
+            parked_evaluation_stack: Vec::new(),
         }
     }
 
@@ -44,6 +48,13 @@ impl Flow {
             current_choices: json_read::jarray_to_choices(json_read::jtoken_to_array(
                 json_read::jobject_get(j_obj, "currentChoices")?,
             )?)?,
+            parked_evaluation_stack: match j_obj.get("evalStack") {
+                Some(stack) => json_read::jarray_to_runtime_obj_list(
+                    json_read::jtoken_to_array(stack)?,
+                    false,
+                )?,
+                None => Vec::new(),
+            },
         };
 
         flow.callstack.borrow_mut().load_json(
@@ -69,6 +80,14 @@ impl Flow {
             json_write::write_list_rt_objs(&self.output_stream)?,
         );
 
+        // evalStack: only of parked flows in the middle of an expression
+        if !self.parked_evaluation_stack.is_empty() {
+            flow.insert(
+                "evalStack".to_owned(),
+                json_write::write_list_rt_objs(&self.parked_evaluation_stack)?,
+            );
+        }
+
         // choiceThreads: optional
         // Has to come BEFORE the choices themselves are written out
         // since the originalThreadIndex of each choice needs to be set
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index de85d96..e9e242e 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1178,7 +1178,16 @@ impl StoryState {
             }
         };
 
+        // A flow may stand in the middle of an expression
+        std::mem::swap(
+            &mut self.evaluation_stack,
+            &mut self.current_flow.parked_evaluation_stack,
+        );
         std::mem::swap(&mut self.current_flow, &mut next_flow);
+        std::mem::swap(
+            &mut self.evaluation_stack,
+            &mut self.current_flow.parked_evaluation_stack,
+        );
         named_flows.insert(next_flow.name.clone(), next_flow);
 
         self.variables_state
-- 
2.43.0


From b6bf5e0cd1d3814401a543e33e108574af96933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 62/62] fix: a jump with call-stack reset abandons half
 evaluated expressions

---
 runtime/src/story/flow.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/story/flow.rs b/runtime/src/story/flow.rs
index a2cefba..6df6387 100644
--- a/runtime/src/story/flow.rs
+++ b/runtime/src/story/flow.rs
@@ -8,6 +8,9 @@ impl Story {
 
         self.get_state_mut().force_end();
 
+        // The expressions that were being evaluated are abandoned too
+        self.get_state_mut().evaluation_stack.clear();
+
         Ok(())
     }
 
-- 
2.43.0

