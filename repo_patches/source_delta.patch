From 871929b461183eef09dfd64636cb65e97da17bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 01/25] fix: let the CLI start in debug builds (-h is the Halo2
 directory, not help)

---
 packages/compiler/src/bin/compiler.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/bin/compiler.rs b/packages/compiler/src/bin/compiler.rs
index ba53749..d376e47 100644
--- a/packages/compiler/src/bin/compiler.rs
+++ b/packages/compiler/src/bin/compiler.rs
@@ -45,7 +45,7 @@
 //! zk-regex raw -r "a*b+c?" -s substrings.json -h ./halo2_output -c ./circom_output.circom -t MyTemplate -g true
 //! ```
 
-use clap::{Parser, Subcommand};
+use clap::{ArgAction, Parser, Subcommand};
 use zk_regex_compiler::{gen_from_decomposed, gen_from_raw};
 
 #[derive(Parser, Debug, Clone)]
@@ -57,7 +57,11 @@ struct Cli {
 
 #[derive(Debug, Subcommand, Clone)]
 enum Commands {
+    #[command(disable_help_flag = true)]
     Decomposed {
+        /// Print help
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
         #[arg(short, long)]
         decomposed_regex_path: String,
         #[arg(short, long)]
@@ -69,7 +73,11 @@ enum Commands {
         #[arg(short, long)]
         gen_substrs: Option<bool>,
     },
+    #[command(disable_help_flag = true)]
     Raw {
+        /// Print help
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
         #[arg(short, long)]
         raw_regex: String,
         #[arg(short, long)]
@@ -100,6 +108,7 @@ fn process_decomposed(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_decomposed(
@@ -123,6 +132,7 @@ fn process_raw(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_raw(
-- 
2.43.0


From bf1b020c4c874f818fe5aca099dd01f72243f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 02/25] fix: close the circom template when substrings are not
 generated

---
 packages/compiler/src/circom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index f7d319f..b30ed6e 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -980,6 +980,8 @@ pub(crate) fn gen_circom_template(
     if gen_substrs {
         let substrs = add_substrs_constraints(regex_and_dfa)?;
         file.write_all(substrs.as_bytes())?;
+    } else {
+        file.write_all(b"\n}")?;
     }
 
     file.flush()?;
-- 
2.43.0


From f04de9988bb3e9bda3961f41898225c95333fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 03/25] fix: do not emit unassigned gates for transitions on
 the zero byte only

---
 packages/compiler/src/circom.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index b30ed6e..d82e1e0 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -479,13 +479,19 @@ fn generate_state_transition_logic(
         zero_starting_and_idxes.insert(i, vec![]);
 
         for (prev_i, chars) in rev_graph.get(&i).unwrap_or(&BTreeMap::new()) {
-            if *prev_i == 0 {
-                zero_starting_states.push(i);
-            }
             let mut k = chars.clone();
             k.retain(|&x| x != 0);
             k.sort();
 
+            // The zero byte is padding: a transition on nothing else can never be taken.
+            if k.is_empty() {
+                continue;
+            }
+
+            if *prev_i == 0 {
+                zero_starting_states.push(i);
+            }
+
             let mut eq_outputs = vec![];
 
             let (min_maxes, individual_chars) = optimize_char_ranges(&k);
-- 
2.43.0


From db067802af1abbfd39742202c990717a20b26e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 04/25] fix: emit a valid circuit when a substring has no
 transitions or none is defined

---
 packages/compiler/src/circom.rs | 8 +++++++-
 packages/compiler/src/lib.rs    | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index d82e1e0..2f46388 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -838,6 +838,10 @@ fn write_prev_states(idx: usize, ranges: &[&(usize, usize)]) -> String {
 ///
 /// A String containing the generated Circom code for substring logic.
 fn write_is_substr(idx: usize, ranges: &[&(usize, usize)]) -> String {
+    if ranges.is_empty() {
+        return format!("\t\tis_substr{idx}[i] <== 0;\n");
+    }
+
     let multi_or_inputs = ranges
         .iter()
         .enumerate()
@@ -887,7 +891,9 @@ fn write_is_reveal_and_reveal(idx: usize) -> String {
 /// A String containing the generated Circom code for the complete substring logic.
 fn write_substr_logic(idx: usize, ranges: &[(usize, usize)]) -> String {
     let mut logic = String::new();
-    logic += &format!("\tsignal prev_states{idx}[{}][msg_bytes];\n", ranges.len());
+    if !ranges.is_empty() {
+        logic += &format!("\tsignal prev_states{idx}[{}][msg_bytes];\n", ranges.len());
+    }
     logic += &format!("\tsignal is_substr{idx}[msg_bytes];\n");
     logic += &format!("\tsignal is_reveal{idx}[msg_bytes];\n");
     logic += &format!("\tsignal output reveal{idx}[msg_bytes];\n");
diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 2767c52..5b6b522 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -33,7 +33,7 @@ fn load_substring_definitions_json(
             serde_json::from_reader(file).map_err(CompilerError::JsonParseError)
         }
         None => Ok(SubstringDefinitionsJson {
-            transitions: vec![vec![]],
+            transitions: vec![],
         }),
     }
 }
-- 
2.43.0


From b6060f4649463ff172caf52eefdfd7e994c4a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 05/25] fix: an escaped dollar at the end of a regex is not the
 end anchor

---
 packages/compiler/src/regex.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index d3571b4..24011aa 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -111,6 +111,21 @@ fn process_caret_in_regex(
     Ok(caret_position)
 }
 
+/// Checks whether a regex ends with the end anchor ($), as opposed to an escaped dollar.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// `true` if the last character is a dollar that is not escaped.
+fn ends_with_end_anchor(regex: &str) -> bool {
+    regex.strip_suffix('$').map_or(false, |body| {
+        body.bytes().rev().take_while(|&b| b == b'\\').count() % 2 == 0
+    })
+}
+
 /// Validates the end anchor ($) in a regex part.
 ///
 /// # Arguments
@@ -128,7 +143,7 @@ fn validate_end_anchor(
     regex: &RegexPartConfig,
 ) -> Result<bool, CompilerError> {
     let is_last_part = idx == decomposed_regex.parts.len() - 1;
-    let ends_with_dollar = regex.regex_def.ends_with('$');
+    let ends_with_dollar = ends_with_end_anchor(&regex.regex_def);
 
     if ends_with_dollar && !is_last_part {
         return Err(CompilerError::GenericError(
@@ -1095,7 +1110,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     Ok(RegexAndDFA {
         regex_pattern: regex_str.to_string(),
         dfa,
-        has_end_anchor: regex_str.ends_with('$'),
+        has_end_anchor: ends_with_end_anchor(regex_str),
         substrings,
     })
 }
-- 
2.43.0


From fed2daddab4821554cfca0cfb76cb5017299a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 06/25] fix: find the begin anchor behind nested groups and
 outside character classes only

---
 packages/compiler/src/regex.rs | 52 ++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 24011aa..6ca42d1 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -29,7 +29,8 @@ fn create_dfa_config() -> Config {
         .accelerate(true)
 }
 
-/// Finds the index of the first caret (^) in a regex string that is not inside parentheses.
+/// Finds the end of the first caret anchor (^) in a regex string: the index after the caret, or after the
+/// outermost group that contains it. Escaped carets and carets in character classes are not anchors.
 ///
 /// # Arguments
 ///
@@ -37,51 +38,54 @@ fn create_dfa_config() -> Config {
 ///
 /// # Returns
 ///
-/// An `Option<usize>` containing the index of the caret if found, or `None` if not found.
+/// An `Option<usize>` containing that index if found, or `None` if not found.
 fn find_caret_index(regex: &str) -> Option<usize> {
     let regex_bytes = regex.as_bytes();
-    let mut is_in_parenthesis = false;
+    let mut parenthesis_depth = 0usize;
+    let mut class_depth = 0usize;
     let mut caret_found = false;
     let mut idx = 0;
 
     while idx < regex_bytes.len() {
         match regex_bytes[idx] {
             b'\\' => {
-                idx += 2;
-            }
-            b'(' => {
-                is_in_parenthesis = true;
                 idx += 1;
             }
             b'[' => {
-                idx += 2;
+                // A leading `^` negates the class, and a leading `]` is an ordinary character.
+                class_depth += 1;
+                if regex_bytes.get(idx + 1) == Some(&b'^') {
+                    idx += 1;
+                }
+                if regex_bytes.get(idx + 1) == Some(&b']') {
+                    idx += 1;
+                }
+            }
+            b']' => {
+                class_depth = class_depth.saturating_sub(1);
+            }
+            _ if class_depth > 0 => {}
+            b'(' => {
+                parenthesis_depth += 1;
             }
             b')' => {
-                debug_assert!(is_in_parenthesis, "Unmatched parenthesis");
-                is_in_parenthesis = false;
-                idx += 1;
-                if caret_found {
-                    break;
+                parenthesis_depth = parenthesis_depth.saturating_sub(1);
+                if caret_found && parenthesis_depth == 0 {
+                    return Some(idx + 1);
                 }
             }
             b'^' => {
                 caret_found = true;
-                idx += 1;
-                if !is_in_parenthesis {
-                    break;
+                if parenthesis_depth == 0 {
+                    return Some(idx + 1);
                 }
             }
-            _ => {
-                idx += 1;
-            }
+            _ => {}
         }
+        idx += 1;
     }
 
-    if caret_found {
-        Some(idx)
-    } else {
-        None
-    }
+    None
 }
 
 /// Processes the caret (^) in a regex, splitting it into two parts if necessary.
-- 
2.43.0


From 6487cbc0543202ffb9bce70803f06d6d54988140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 07/25] fix: the begin anchor must not enter the middle of its
 alternative

---
 packages/compiler/src/regex.rs | 35 +++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 6ca42d1..5e3df4e 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -575,8 +575,8 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 /// # Function Behavior
 ///
 /// 1. Clears the state type of the start state.
-/// 2. Finds the accept state in the graph.
-/// 3. Adds a transition from the start state to the accept state with byte value 255.
+/// 2. Finds an accept state without outgoing transitions in the graph, or adds one.
+/// 3. Adds a transition from the start state to that accept state with byte value 255.
 fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
     if let Some(start_state) = graph.states.get_mut(0) {
         start_state.state_type.clear();
@@ -586,17 +586,38 @@ fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
         ));
     }
 
-    let accepted_state = graph
+    if !graph
         .states
         .iter()
-        .find(|state| state.state_type == "accept")
-        .ok_or_else(|| CompilerError::GraphError("Accept state not found".to_string()))?
-        .clone();
+        .any(|state| state.state_type == "accept")
+    {
+        return Err(CompilerError::GraphError(
+            "Accept state not found".to_string(),
+        ));
+    }
+
+    // The anchor completes the group: nothing else of the group may follow it.
+    let accepted_state_id = match graph
+        .states
+        .iter()
+        .find(|state| state.state_type == "accept" && state.transitions.is_empty())
+    {
+        Some(state) => state.state_id,
+        None => {
+            let state_id = graph.states.len();
+            graph.states.push(DFAStateNode {
+                state_type: "accept".to_string(),
+                state_id,
+                transitions: BTreeMap::new(),
+            });
+            state_id
+        }
+    };
 
     if let Some(start_state) = graph.states.get_mut(0) {
         start_state
             .transitions
-            .entry(accepted_state.state_id)
+            .entry(accepted_state_id)
             .or_insert_with(BTreeSet::new)
             .insert(255u8);
     }
-- 
2.43.0


From ed9f45630ed25f75ce31b44c550a6a58502a32ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 08/25] fix: anchor the whole raw regex, not only its first and
 last alternative

---
 packages/compiler/src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 5e3df4e..f24f6f9 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1054,7 +1054,7 @@ fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
 
     let dfa = DFA::builder()
         .configure(config)
-        .build(&format!(r"^{}$", regex))
+        .build(&format!(r"^({})$", regex))
         .map_err(|e| CompilerError::BuildError {
             regex: regex.to_string(),
             source: e,
-- 
2.43.0


From 6efc53e10224cc1bd2a997aef56d6c74d0f8f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 09/25] fix: refuse a decomposed regex without parts instead of
 panicking

---
 packages/compiler/src/regex.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index f24f6f9..80a8261 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -100,6 +100,12 @@ fn find_caret_index(regex: &str) -> Option<usize> {
 fn process_caret_in_regex(
     decomposed_regex: &mut DecomposedRegexConfig,
 ) -> Result<Option<usize>, CompilerError> {
+    if decomposed_regex.parts.is_empty() {
+        return Err(CompilerError::GenericError(
+            "The decomposed regex has no parts".to_string(),
+        ));
+    }
+
     let caret_position = find_caret_index(&decomposed_regex.parts[0].regex_def);
 
     if let Some(index) = caret_position {
-- 
2.43.0


From 97ed8db3c03f9f0ebdf4d57c1277ff9b02991010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 10/25] fix: accept an end-anchored match that fills the whole
 message

---
 packages/compiler/src/circom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 2f46388..972bc59 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -700,9 +700,9 @@ fn generate_accept_logic(
     accept_lines.push("\t}".to_string());
 
     if end_anchor {
-        accept_lines.push("\tsignal end_anchor_check[num_bytes+1][2];".to_string());
+        accept_lines.push("\tsignal end_anchor_check[num_bytes+2][2];".to_string());
         accept_lines.push("\tend_anchor_check[0][1] <== 0;".to_string());
-        accept_lines.push("\tfor (var i = 0; i < num_bytes; i++) {".to_string());
+        accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
         accept_lines.push(
             "\t\tend_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes]]);"
                 .to_string(),
@@ -712,7 +712,7 @@ fn generate_accept_logic(
         );
         accept_lines.push("\t}".to_string());
         accept_lines
-            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes][1];".to_string());
+            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes+1][1];".to_string());
     } else {
         accept_lines.push("\tout <== is_accepted.out;".to_string());
     }
-- 
2.43.0


From 52ffc06d0bbaed80450ebb4d54705a6fddcba8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 11/25] fix: the end anchor binds to the last nonzero byte,
 whatever zeros precede it

---
 packages/circom/circuits/regex_helpers.circom | 12 +++++++++++-
 packages/compiler/src/circom.rs               |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/circom/circuits/regex_helpers.circom b/packages/circom/circuits/regex_helpers.circom
index c5a4eaa..59cdfdf 100644
--- a/packages/circom/circuits/regex_helpers.circom
+++ b/packages/circom/circuits/regex_helpers.circom
@@ -71,4 +71,14 @@ template IsNotZeroAcc() {
 
     signal is_zero <== IsZero()(in);
     out <== acc + (1 - is_zero);
-}
\ No newline at end of file
+}
+
+// The position after the last byte that is not zero: idx if in is not zero, acc otherwise.
+template LastNotZero(idx) {
+    signal input acc;
+    signal input in;
+    signal output out;
+
+    signal is_zero <== IsZero()(in);
+    out <== idx + (acc - idx) * is_zero;
+}
diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 972bc59..c46a55a 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -470,7 +470,7 @@ fn generate_state_transition_logic(
 
     if end_anchor {
         lines.push(
-            "\t\tpadding_start[i+1] <== IsNotZeroAcc()(padding_start[i], in[i]);".to_string(),
+            "\t\tpadding_start[i+1] <== LastNotZero(i+1)(padding_start[i], in[i]);".to_string(),
         );
     }
 
-- 
2.43.0


From b706a6cfa25491e8b67498c27f57f1167ddb2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 12/25] fix: name the states in which a first or an optional
 public part begins and ends

---
 packages/compiler/src/regex.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 80a8261..2708db9 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -876,9 +876,21 @@ fn process_public_regex(
         return (BTreeSet::new(), (BTreeSet::new(), BTreeSet::new()));
     }
 
-    let (accepting_states, substring_starts) = collect_accepting_states(net_dfa);
+    let (accepting_states, mut substring_starts) = collect_accepting_states(net_dfa);
     let mut public_edges = collect_public_edges(graph);
-    let substring_ends = collect_substr_ends(graph);
+    let mut substring_ends = collect_substr_ends(graph);
+
+    if let Some(start_state) = graph.states.first() {
+        // The first part begins in its own start state; a later part's start state is merged into the
+        // accepting states of the previous parts.
+        if net_dfa.states.is_empty() {
+            substring_starts.insert(start_state.state_id);
+        }
+        if start_state.state_type == "accept" {
+            substring_ends.remove(&start_state.state_id);
+            substring_ends.extend(substring_starts.iter());
+        }
+    }
 
     update_public_edges(&mut public_edges, previous_max_state_id, &accepting_states);
 
-- 
2.43.0


From 98e7b405f8e264db5c37c5e107e029ab50ca22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 13/25] fix: refuse Halo2 tables without exactly one accept
 state instead of panicking or picking one

---
 packages/compiler/src/halo2.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index d8e2048..3625b06 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -17,9 +17,18 @@ use std::{
 ///
 /// # Returns
 ///
-/// A String containing the text representation of the DFA.
-fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
-    let accepted_state = get_accepted_state(&regex_and_dfa.dfa).unwrap();
+/// A Result with the text representation of the DFA, or an error unless there is exactly one accept state.
+fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> Result<String, CompilerError> {
+    let accepted_state =
+        get_accepted_state(&regex_and_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
+    if regex_and_dfa.dfa.states[accepted_state + 1..]
+        .iter()
+        .any(|state| state.state_type == "accept")
+    {
+        return Err(CompilerError::AcceptNodesError(
+            "The size of accept nodes must be one".to_string(),
+        ));
+    }
     let max_state = get_max_state(&regex_and_dfa.dfa);
     let mut text = format!("0\n{}\n{}\n", accepted_state, max_state);
 
@@ -30,7 +39,7 @@ fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
             }
         }
     }
-    text
+    Ok(text)
 }
 
 /// Generates Halo2 tables from a RegexAndDFA structure.
@@ -51,7 +60,7 @@ pub(crate) fn gen_halo2_tables(
     substr_file_paths: &[PathBuf],
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
-    let regex_text = dfa_to_regex_def_text(regex_and_dfa);
+    let regex_text = dfa_to_regex_def_text(regex_and_dfa)?;
     std::fs::write(allstr_file_path, regex_text)?;
 
     if !gen_substrs {
-- 
2.43.0


From 658eab1932128e1e9ff46a6e016caa428bb5324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 14/25] fix: refuse Halo2 substring files for a raw regex
 instead of panicking

---
 packages/compiler/src/halo2.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index 3625b06..7b1007a 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -61,6 +61,16 @@ pub(crate) fn gen_halo2_tables(
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
     let regex_text = dfa_to_regex_def_text(regex_and_dfa)?;
+    if gen_substrs
+        && regex_and_dfa.substrings.substring_boundaries.is_none()
+        && !regex_and_dfa.substrings.substring_ranges.is_empty()
+    {
+        return Err(CompilerError::GenericError(
+            "Halo2 substring files need a decomposed regex: a raw regex has no substring boundaries"
+                .to_string(),
+        ));
+    }
+
     std::fs::write(allstr_file_path, regex_text)?;
 
     if !gen_substrs {
-- 
2.43.0


From 8e35b37410cd8051e75a8f79d0a0dde9477257f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 15/25] fix: report a missing circom template name as an error

---
 packages/compiler/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 5b6b522..fe2b16c 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -60,6 +60,12 @@ fn generate_outputs(
     num_public_parts: usize,
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
+    if circom_file_path.is_some() && circom_template_name.is_none() {
+        return Err(CompilerError::GenericError(
+            "circom template name must be specified if circom file path is specified".to_string(),
+        ));
+    }
+
     if let Some(halo2_dir_path) = halo2_dir_path {
         let halo2_dir_path = PathBuf::from(halo2_dir_path);
         let allstr_file_path = halo2_dir_path.join("allstr.txt");
@@ -75,10 +81,10 @@ fn generate_outputs(
         )?;
     }
 
-    if let Some(circom_file_path) = circom_file_path {
+    if let (Some(circom_file_path), Some(circom_template_name)) =
+        (circom_file_path, circom_template_name)
+    {
         let circom_file_path = PathBuf::from(circom_file_path);
-        let circom_template_name = circom_template_name
-            .expect("circom template name must be specified if circom file path is specified");
 
         gen_circom_template(
             regex_and_dfa,
-- 
2.43.0


From 5edda7863b7d264fbca20c55adb95a6d7510291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 16/25] fix: refuse substring transitions between states that
 do not exist

---
 packages/compiler/src/regex.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 2708db9..f8c77f8 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1135,6 +1135,15 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
 ) -> Result<RegexAndDFA, CompilerError> {
     let dfa = create_dfa_graph_from_regex(regex_str)?;
 
+    for &(cur, next) in substrs_defs_json.transitions.iter().flatten() {
+        if cur >= dfa.states.len() || next >= dfa.states.len() {
+            return Err(CompilerError::GraphError(format!(
+                "Substring transition ({}, {}) refers to a state that does not exist",
+                cur, next
+            )));
+        }
+    }
+
     let substring_ranges = substrs_defs_json
         .transitions
         .into_iter()
-- 
2.43.0


From c09e158fdd0d8299d0ec1951c0751a08126a9e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 17/25] fix: extract with the parts as written instead of
 rewriting every parenthesis

---
 packages/apis/src/extract_substrs.rs | 30 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index f975e5e..337b716 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -43,25 +43,30 @@ pub fn extract_substr_idxes(
     regex_config: &DecomposedRegexConfig,
     reveal_private: bool,
 ) -> Result<Vec<(usize, usize)>, ExtractSubstrssError> {
-    // Validate each regex part individually, to throw better errors
+    // Validate each regex part individually, to throw better errors. Each part becomes a group of the
+    // full regex, numbered after the groups of the parts before it.
+    let mut part_groups = vec![];
+    let mut next_group = 1;
     for (i, part) in regex_config.parts.iter().enumerate() {
-        Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
-            part_index: i,
-            regex_def: part.regex_def.clone(),
-            error: e,
-        })?;
+        let part_regex =
+            Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
+                part_index: i,
+                regex_def: part.regex_def.clone(),
+                error: e,
+            })?;
+        part_groups.push(next_group);
+        next_group += part_regex.captures_len(); // counts the part itself as a group
     }
 
     // Construct the full regex pattern with groups for each part
     let mut entire_regex_str = String::new();
-    for (_, part) in regex_config.parts.iter().enumerate() {
-        let adjusted_regex_def = part.regex_def.replace("(", "(?:");
-        entire_regex_str += &format!("({})", adjusted_regex_def);
+    for part in regex_config.parts.iter() {
+        entire_regex_str += &format!("({})", part.regex_def);
     }
 
     // Compile the entire regex
-    // This should be impossible to fail, since we tested the seperate regex parts before.
-    let entire_regex = Regex::new(&entire_regex_str).unwrap();
+    // Parts that are valid on their own can still clash, e.g. over a group name.
+    let entire_regex = Regex::new(&entire_regex_str)?;
 
     // Find the match for the entire regex
     let entire_captures = entire_regex
@@ -74,8 +79,7 @@ pub fn extract_substr_idxes(
     // Iterate over each part to extract the relevant indices
     for (i, part) in regex_config.parts.iter().enumerate() {
         if part.is_public || reveal_private {
-            if let Some(matched) = entire_captures.get(i + 1) {
-                // Capture group indices are 1-based
+            if let Some(matched) = entire_captures.get(part_groups[i]) {
                 public_idxes.push((matched.start(), matched.end()));
             }
         }
-- 
2.43.0


From ca2d579f6f3f528e04b9d8ca9910b1448e405194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 18/25] fix: do not report an exhausted regex engine as a
 missing match

---
 packages/apis/src/extract_substrs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index 337b716..b42d4ff 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -70,8 +70,7 @@ pub fn extract_substr_idxes(
 
     // Find the match for the entire regex
     let entire_captures = entire_regex
-        .captures(input_str)
-        .map_err(|_| ExtractSubstrssError::SubstringOfEntireNotFound(entire_regex.clone()))?
+        .captures(input_str)?
         .ok_or_else(|| ExtractSubstrssError::SubstringOfEntireNotFound(entire_regex.clone()))?;
 
     let mut public_idxes = vec![];
-- 
2.43.0


From 105df61fbd5933a5d6032011a18216a7b32345aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 19/25] fix: throw a descriptive error from the wasm compiler
 instead of trapping

---
 packages/compiler/src/wasm.rs | 57 +++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/packages/compiler/src/wasm.rs b/packages/compiler/src/wasm.rs
index 97ed29f..f78f825 100644
--- a/packages/compiler/src/wasm.rs
+++ b/packages/compiler/src/wasm.rs
@@ -30,32 +30,51 @@ pub fn genFromDecomposed(
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genFromRaw(rawRegex: &str, substrsJson: &str, circomTemplateName: &str) -> String {
-    let substrs_defs_json: SubstringDefinitionsJson =
-        serde_json::from_str(substrsJson).expect("failed to parse substrs json");
+pub fn genFromRaw(
+    rawRegex: &str,
+    substrsJson: &str,
+    circomTemplateName: &str,
+) -> Result<String, JsValue> {
+    let substrs_defs_json: SubstringDefinitionsJson = serde_json::from_str(substrsJson)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse substrs json: {}", e)))?;
     let regex_and_dfa = create_regex_and_dfa_from_str_and_defs(rawRegex, substrs_defs_json)
-        .expect("failed to convert the raw regex and state transitions to dfa");
-    gen_circom_string(&regex_and_dfa, circomTemplateName).expect("failed to generate circom")
+        .map_err(|e| {
+            JsValue::from_str(&format!(
+                "failed to convert the raw regex and state transitions to dfa: {}",
+                e
+            ))
+        })?;
+    gen_circom_string(&regex_and_dfa, circomTemplateName)
+        .map_err(|e| JsValue::from_str(&format!("failed to generate circom: {}", e)))
 }
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genRegexAndDfa(decomposedRegex: JsValue) -> JsValue {
-    let mut decomposed_regex_config: DecomposedRegexConfig =
-        from_value(decomposedRegex).expect("failed to parse decomposed regex");
-    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config)
-        .expect("failed to convert the decomposed regex to dfa");
-    let dfa_val_str =
-        serde_json::to_string(&regex_and_dfa).expect("failed to convert the dfa to json");
-    JsValue::from_str(&dfa_val_str)
+pub fn genRegexAndDfa(decomposedRegex: JsValue) -> Result<JsValue, JsValue> {
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
+    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
+        JsValue::from_str(&format!(
+            "failed to convert the decomposed regex to dfa: {}",
+            e
+        ))
+    })?;
+    let dfa_val_str = serde_json::to_string(&regex_and_dfa)
+        .map_err(|e| JsValue::from_str(&format!("failed to convert the dfa to json: {}", e)))?;
+    Ok(JsValue::from_str(&dfa_val_str))
 }
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genCircom(decomposedRegex: JsValue, circomTemplateName: &str) -> String {
-    let mut decomposed_regex_config: DecomposedRegexConfig =
-        from_value(decomposedRegex).expect("failed to parse decomposed regex");
-    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config)
-        .expect("failed to convert the decomposed regex to dfa");
-    gen_circom_string(&regex_and_dfa, circomTemplateName).expect("failed to generate circom")
+pub fn genCircom(decomposedRegex: JsValue, circomTemplateName: &str) -> Result<String, JsValue> {
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
+    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
+        JsValue::from_str(&format!(
+            "failed to convert the decomposed regex to dfa: {}",
+            e
+        ))
+    })?;
+    gen_circom_string(&regex_and_dfa, circomTemplateName)
+        .map_err(|e| JsValue::from_str(&format!("failed to generate circom: {}", e)))
 }
-- 
2.43.0


From 00aba1ffadd0982b5407d30a46c4ff6c9f59a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 20/25] fix: refuse a part that is not a valid regex on its own

---
 packages/compiler/src/regex.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index f8c77f8..5d24469 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -121,6 +121,21 @@ fn process_caret_in_regex(
     Ok(caret_position)
 }
 
+/// Checks that a regex is valid on its own: wrapped in a group, one like `a)(b` would be too.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A `Result` containing `()` if the regex is valid, or a `CompilerError`.
+fn validate_regex(regex: &str) -> Result<(), CompilerError> {
+    regex_automata::util::syntax::parse(regex)
+        .map(|_| ())
+        .map_err(|err| CompilerError::ParseError(format!("Invalid regex \"{}\": {}", regex, err)))
+}
+
 /// Checks whether a regex ends with the end anchor ($), as opposed to an escaped dollar.
 ///
 /// # Arguments
@@ -1004,6 +1019,7 @@ pub(crate) fn get_regex_and_dfa(
     let mut end_anchor = false;
 
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
+        validate_regex(&regex.regex_def)?;
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
 
         let dfa = DFA::builder()
@@ -1064,6 +1080,8 @@ pub(crate) fn get_regex_and_dfa(
 ///
 /// A `Result` containing a `DFAGraph` or a `CompilerError`.
 fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
+    validate_regex(regex)?;
+
     let config = DFA::config()
         .minimize(true)
         .start_kind(StartKind::Anchored)
-- 
2.43.0


From bf253a0a5efc689c0bba35e33631a8cf374581cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 21/25] fix: refuse a definition with a part that matches
 nothing

---
 packages/compiler/src/regex.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 5d24469..7b44ec7 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1034,6 +1034,11 @@ pub(crate) fn get_regex_and_dfa(
 
         handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
 
+        // A part that matches nothing makes the whole regex match nothing.
+        if get_accepted_state(&dfa_graph).is_none() {
+            return Err(CompilerError::NoAcceptedState);
+        }
+
         let max_state_index = net_dfa_graph
             .states
             .iter()
-- 
2.43.0


From 10560fb6210c5a7738a130d7e2b4a81d9577e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 22/25] fix: reveal only the match at the end of the message
 with an end anchor

---
 packages/compiler/src/circom.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index c46a55a..b0d7a53 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -775,23 +775,36 @@ fn gen_circom_allstr(
 /// # Arguments
 ///
 /// * `accepted_state` - The index of the accepted state.
+/// * `end_anchor` - A boolean indicating whether an end anchor is present.
 ///
 /// # Returns
 ///
 /// A String containing the generated Circom code for consecutive logic.
-fn write_consecutive_logic(accepted_state: usize) -> String {
+fn write_consecutive_logic(accepted_state: usize, end_anchor: bool) -> String {
     let mut logic = String::new();
     logic += "\n";
+    // With an end anchor, only the accepted state at the end of the message completes a match.
+    let accepted = if end_anchor {
+        logic += "\tsignal is_end_match[msg_bytes];\n";
+        "is_end_match[msg_bytes-1-i]".to_string()
+    } else {
+        format!("states[num_bytes-i][{accepted_state}]")
+    };
     logic += "\tsignal is_consecutive[msg_bytes+1][3];\n";
     logic += "\tis_consecutive[msg_bytes][2] <== 0;\n";
     logic += "\tfor (var i = 0; i < msg_bytes; i++) {\n";
+    if end_anchor {
+        logic += &format!(
+            "\t\tis_end_match[msg_bytes-1-i] <== states[num_bytes-i][{accepted_state}] * end_anchor_check[num_bytes-i+1][0];\n"
+        );
+    }
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][0] <== states[num_bytes-i][{accepted_state}] * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
+        "\t\tis_consecutive[msg_bytes-1-i][0] <== {accepted} * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
     );
     logic +=
         "\t\tis_consecutive[msg_bytes-1-i][1] <== state_changed[msg_bytes-i].out * is_consecutive[msg_bytes-1-i][0];\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), states[num_bytes-i][{accepted_state}], is_consecutive[msg_bytes-1-i][1]]);\n"
+        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), {accepted}, is_consecutive[msg_bytes-1-i][1]]);\n"
     );
     logic += "\t}\n";
     logic
@@ -944,7 +957,7 @@ fn add_substrs_constraints(regex_dfa: &RegexAndDFA) -> Result<String, CompilerEr
         get_accepted_state(&regex_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
     let mut circom = String::new();
 
-    circom += &write_consecutive_logic(accepted_state);
+    circom += &write_consecutive_logic(accepted_state, regex_dfa.has_end_anchor);
 
     circom += &format!(
         "\t// substrings calculated: {:?}\n",
-- 
2.43.0


From a513a562f89b5b2a576c2adc5945696bb3f75388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 23/25] fix: keep the address of from_addr and to_addr within
 its header line

---
 packages/apis/src/decomposed_defs/from_addr.json | 4 ++--
 packages/apis/src/decomposed_defs/to_addr.json   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/apis/src/decomposed_defs/from_addr.json b/packages/apis/src/decomposed_defs/from_addr.json
index 6753257..1152228 100644
--- a/packages/apis/src/decomposed_defs/from_addr.json
+++ b/packages/apis/src/decomposed_defs/from_addr.json
@@ -6,11 +6,11 @@
     },
     {
       "is_public": false,
-      "regex_def": "([^\r\n]+<)?"
+      "regex_def": "([^\r\n]*<)?"
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
diff --git a/packages/apis/src/decomposed_defs/to_addr.json b/packages/apis/src/decomposed_defs/to_addr.json
index 394a26b..721851b 100644
--- a/packages/apis/src/decomposed_defs/to_addr.json
+++ b/packages/apis/src/decomposed_defs/to_addr.json
@@ -6,11 +6,11 @@
     },
     {
       "is_public": false,
-      "regex_def": "([^\r\n]+<)?"
+      "regex_def": "([^\r\n]*<)?"
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
-- 
2.43.0


From e9c29404dddfafc9ff9d1ccbdfd04e0a3fc550be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 24/25] fix: report a failed write of a Halo2 substring file

The buffered writer was dropped without a flush, which discards the error: on a full disk the compiler
returned success and left an empty or truncated substr_<i>.txt.
---
 packages/compiler/src/halo2.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index 7b1007a..f6ba1c4 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -109,6 +109,8 @@ pub(crate) fn gen_halo2_tables(
         for &(cur, next) in &sorted_defs {
             writeln!(writer, "{} {}", cur, next)?;
         }
+        // dropping the writer would discard a write error
+        writer.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From 7b40413178493faed94ece0d2b124d138de2a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 25/25] fix: a begin alternative that may match nothing was
 bound to a place

(X|^) matches anywhere when X matches the empty string, but the compiled circuit
demanded the start of the message or a non-empty X.
---
 packages/compiler/src/regex.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 7b44ec7..3fbc299 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -687,6 +687,7 @@ fn create_simple_caret_graph() -> DFAGraph {
 ///
 /// - If it's the first regex part and a caret is present:
 ///   - Creates a simple caret graph if the regex is just "^".
+///   - Leaves the graph as it is if the group may match nothing without the caret: it then matches anywhere.
 ///   - Otherwise, modifies the existing graph to handle the caret.
 fn handle_caret_regex(
     idx: usize,
@@ -695,9 +696,11 @@ fn handle_caret_regex(
     graph: &mut DFAGraph,
 ) -> Result<(), CompilerError> {
     if idx == 0 && caret_position.is_some() {
+        let may_match_nothing = Regex::new(&format!(r"(?:{})$", regex.regex_def))
+            .map_or(false, |group| group.is_match_at("x", 1));
         if regex.regex_def == "^" {
             *graph = create_simple_caret_graph();
-        } else {
+        } else if !may_match_nothing {
             modify_graph_for_caret(graph)?;
         }
     }
-- 
2.43.0

