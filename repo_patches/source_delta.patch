From b7f24fd40d83ffe14681daab5ac0be6193a044ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:30 +0000
Subject: [PATCH 01/30] fix: write the creation date zero-padded and refuse
 invalid dates instead of panicking

---
 src/parser/serde_util.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index d129182..d4e4595 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -3,10 +3,15 @@ pub(crate) mod date_to_timestamp {
     use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
     use serde::{de, Deserialize, Serializer};
     use serde::de::Error;
+    use serde::ser::Error as _;
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
+        if v.len() != 14 || !v.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(D::Error::custom("expected a date formatted as yyyyMMddHHmmss"));
+        }
+
         let year = v[0..4].parse::<i32>().map_err(D::Error::custom)?;
         let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
         let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
@@ -15,16 +20,20 @@ pub(crate) mod date_to_timestamp {
         let second = v[12..14].parse::<u32>().map_err(D::Error::custom)?;
 
         Ok(
-            NaiveDate::from_ymd(year, month, day)
-                .and_hms(hour, minute, second)
+            NaiveDate::from_ymd_opt(year, month, day)
+                .and_then(|date| date.and_hms_opt(hour, minute, second))
+                .ok_or_else(|| D::Error::custom("invalid date"))?
                 .timestamp() as u64
         )
     }
 
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
-        let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
+        let date = NaiveDateTime::from_timestamp_opt(*timestamp as i64, 0)
+            .filter(|date| (0..=9999).contains(&date.year()))
+            .ok_or_else(|| S::Error::custom("timestamp is out of range"))?;
+
         let date_str = format!(
-            "{}{}{}{}{}{}",
+            "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
             date.month(),
             date.day(),
-- 
2.43.0


From 01cdc1752b6afc44ee5c4dec8c1f2c1009943c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 02/30] fix: require the dot in logic section headers instead
 of panicking on headers without a name

---
 src/parser/logic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 6eb01ac..6b51f7c 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -36,7 +36,7 @@ impl Parsable for Logic {
                 break;
             }
 
-            if line.ends_with("java_var") {
+            if line.ends_with(".java_var") {
                 // variable pool
                 // read the screen name
                 let screen_name = (&line[1..line.len() - 9]).to_string(); // 8 (length of "java_var") + 1 (the dot)
@@ -54,7 +54,7 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .variables = Some(variable_pool);
 
-            } else if line.ends_with("java_list") {
+            } else if line.ends_with(".java_list") {
                 // list variable pool
                 // get the screen name
                 let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 -> length of "java_list" + 1 (the dot)
@@ -73,7 +73,7 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .list_variables = Some(list_variable_pool);
 
-            } else if line.ends_with("java_components") {
+            } else if line.ends_with(".java_components") {
                 // component pool
                 // get screen name
                 let screen_name = (&line[1..line.len() - 16]).to_string(); // 15 (length of "java_components") + 1 (the dot)
@@ -92,7 +92,7 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .components = Some(component_pool);
 
-            } else if line.ends_with("java_events") {
+            } else if line.ends_with(".java_events") {
                 // event pool
                 // get the screen name from the header
                 let screen_name = (&line[1..line.len() - 12]).to_string(); // 11 (length of "java_events") + 1 (the dot)
@@ -111,7 +111,7 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .events = Some(event_pool);
 
-            } else if line.ends_with("java_func") {
+            } else if line.ends_with(".java_func") {
                 // moreblocks pool
                 let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 (length of "java_func") + 1 (the dot)
 
-- 
2.43.0


From 03172d96d98cb0cfd8d81cf07e11e1b33e02453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 03/30] fix: keep reading the logic file after a blank line

---
 src/parser/logic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 6b51f7c..66ee1f2 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -33,7 +33,8 @@ impl Parsable for Logic {
 
             if !line.starts_with("@") {
                 // todo: warning: skipping line {} because it doesn't resemble a header
-                break;
+                line_counter += 1;
+                continue;
             }
 
             if line.ends_with(".java_var") {
-- 
2.43.0


From ffca4ae2e75ea92859ef04c55f2a34d9ecfb000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 04/30] fix: keep reading the view file after a blank line

---
 src/parser/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 57ee884..ed665f7 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,7 +25,7 @@ impl Parsable for View {
         let mut fabs = LinkedHashMap::<String, AndroidView>::new();
 
         while let Some(line) = lines.next() {
-            if !line.starts_with("@") { break; }
+            if !line.starts_with("@") { continue; }
 
             let (screen_name, container_type) =
                 &line[1..]
-- 
2.43.0


From 3374f40a35bc3c865ba799004af6b97a7f46ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:14 +0000
Subject: [PATCH 05/30] fix: keep reading the file and resource lists after a
 blank line

---
 src/parser/file.rs     | 5 ++++-
 src/parser/resource.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 182c267..cb6e07c 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -39,7 +39,10 @@ impl Parsable for File {
 
             } else if cur_section != FileSection::None {
                 // parse the file item if the line isn't empty
-                if line.is_empty() { break; }
+                if line.is_empty() {
+                    line_count += 1;
+                    continue;
+                }
 
                 let file_item = FileItem::parse(line)
                     .map_err(|err| FileParseError::FileItemParseError {
diff --git a/src/parser/resource.rs b/src/parser/resource.rs
index ac39da4..974743d 100644
--- a/src/parser/resource.rs
+++ b/src/parser/resource.rs
@@ -42,7 +42,10 @@ impl Parsable for Resource {
 
             } else if cur_section != ResourceSection::None {
                 // parse the resource item if the line isn't empty
-                if line.is_empty() { break; }
+                if line.is_empty() {
+                    line_count += 1;
+                    continue;
+                }
 
                 let resource_item = ResourceItem::parse(line)
                     .map_err(|err| ResourceParseError::ResourceItemParseError {
-- 
2.43.0


From 3a01afae4e5f3f57cef6c0e1f4ea3940d6115766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 06/30] fix: separate the layouts of a view file with a blank
 line when saving

---
 src/parser/view.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index ed665f7..570d204 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -75,7 +75,7 @@ impl Parsable for View {
                 Ok(reconstructed_layout) => {
                     result.push_str(format!("@{}.xml\n", name).as_str());
                     result.push_str(reconstructed_layout.as_str());
-                    result.push('\n');
+                    result.push_str("\n\n"); // layouts end with a blank line
                 }
 
                 Err(err) => {
@@ -88,9 +88,6 @@ impl Parsable for View {
             }
         }
 
-        // separate between the fabs and layouts
-        result.push('\n');
-
         for (name, view) in &self.fabs {
             match view.reconstruct() {
                 Ok(reconstructed_view) => {
-- 
2.43.0


From 1aa77fbc70acd26e010bcf5e7334ca39fe6c785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 07/30] fix: keep the trailing spaces of moreblock specs when
 saving the logic file

---
 src/parser/logic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 66ee1f2..34a16ef 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -245,8 +245,8 @@ impl Parsable for Logic {
             .chain(event_containers)
             .chain(more_block_containers)
             .chain(block_containers)
-            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim()))
-            .trim()
+            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim_matches('\n')))
+            .trim_matches('\n')
             .to_string()
         )
     }
@@ -816,7 +816,7 @@ pub mod more_block {
                 .try_fold(String::new(), |ac, i| {
                     Ok(format!("{}\n{}", ac, i.reconstruct().unwrap() /* this will never error */))
                 })?
-                .trim()
+                .trim_matches('\n') // specs may end with a space
                 .to_string())
         }
     }
-- 
2.43.0


From 6cd344741b381896c5f6aeb7c787c281342a8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:48 +0000
Subject: [PATCH 08/30] fix: point sub stacks at their first block instead of
 their last one

---
 src/api/block.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3f7089a..7785cb1 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -181,29 +181,33 @@ impl Blocks {
             let sub_stack1_id = block.sub_stack1
                 .map(|ss1| {
                     let mut ss1_blocks = ss1.to_block_container(*id_counter + 1);
-                    let ss1_last_id = ss1_blocks.0
-                        .last()
+                    let ss1_first_id = ss1_blocks.0
+                        .first()
                         .map(|b| b.id.parse::<i32>().unwrap())
                         .unwrap_or_else(|| -1);
+                    let ss1_block_count = ss1_blocks.0.len() as u32;
 
                     sub_stack_blocks.append(&mut ss1_blocks.0);
 
-                    if ss1_last_id != -1 { *id_counter = ss1_last_id as u32; }
-                    ss1_last_id
+                    // every block of the sub stack has taken exactly one id
+                    *id_counter += ss1_block_count;
+                    ss1_first_id
                 }).unwrap_or_else(|| -1);
 
             let sub_stack2_id = block.sub_stack2
                 .map(|ss2| {
                     let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
-                    let ss2_last_id = ss2_blocks.0
-                        .last()
+                    let ss2_first_id = ss2_blocks.0
+                        .first()
                         .map(|b| b.id.parse::<i32>().unwrap())
                         .unwrap_or_else(|| -1);
+                    let ss2_block_count = ss2_blocks.0.len() as u32;
 
                     sub_stack_blocks.append(&mut ss2_blocks.0);
 
-                    if ss2_last_id != -1 { *id_counter = ss2_last_id as u32; }
-                    ss2_last_id
+                    // every block of the sub stack has taken exactly one id
+                    *id_counter += ss2_block_count;
+                    ss2_first_id
                 }).unwrap_or_else(|| -1);
 
             /////////
-- 
2.43.0


From 376193ae7ede6e90e19675eaa8237a62f7da1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 09/30] fix: reference block arguments by their own id instead
 of the last id used inside them

---
 src/api/block.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 7785cb1..a035324 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -253,8 +253,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val,
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -266,8 +266,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -287,12 +287,12 @@ impl Blocks {
                                     BlockType::Argument(ArgumentBlockReturnType::Boolean)
                                 );
 
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             },
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -304,8 +304,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
-- 
2.43.0


From 04298685ee7acc653aa0dd577c6cac89296bcf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 10/30] fix: keep the type name of list blocks when saving

---
 src/api/block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index a035324..b7d11c5 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -509,6 +509,11 @@ impl BlockType {
                 Some(type_name.to_string()),
             BlockType::Argument(ArgumentBlockReturnType::Component { type_name }) =>
                 Some(type_name.to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type }) =>
+                Some(match inner_type {
+                    ListItem::String => "List String",
+                    ListItem::Number => "List Number",
+                }.to_string()),
             _ => None
         }
     }
-- 
2.43.0


From a579f371267ad45bffb2c4b2de67d46862918bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 11/30] fix: don't panic on specs with a lone percent sign, an
 unnamed menu or a non-ascii placeholder

---
 src/api/block.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index b7d11c5..c13be82 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -611,7 +611,8 @@ impl BlockContent {
     pub fn parse_wo_params(spec: &str) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone percent sign is just a text
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
@@ -619,15 +620,16 @@ impl BlockContent {
             // check if this thing has a name
             // example: %s.name
             let has_name = s.chars().nth(2)
-                .map(|c| c == '.' && s.len() > 3)
+                .map(|c| c == '.' && s.chars().count() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = has_name.then(|| s.chars().skip(3).collect::<String>());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String { name, value: ArgValue::Empty },
                 'b' => Argument::Boolean { name, value: ArgValue::Empty },
                 'd' => Argument::Number { name, value: ArgValue::Empty },
-                'm' => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
+                // names are always present in menus
+                'm' if has_name => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
                     name: s.chars().nth(1).unwrap().to_string(),
                     full: s.to_string()
@@ -644,7 +646,8 @@ impl BlockContent {
     pub fn parse(spec: String, mut args: Vec<String>) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone percent sign is just a text
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
@@ -652,9 +655,9 @@ impl BlockContent {
             // check if this thing has a name
             // example: %s.name
             let has_name = s.chars().nth(2)
-                .map(|c| c == '.' && s.len() > 3)
+                .map(|c| c == '.' && s.chars().count() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = has_name.then(|| s.chars().skip(3).collect::<String>());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String {
@@ -719,7 +722,8 @@ impl BlockContent {
                         }
                     }
                 },
-                'm' => Argument::Menu {
+                // names are always present in menus
+                'm' if has_name => Argument::Menu {
                     name: name.unwrap(),
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-- 
2.43.0


From ce7b828859b8d828260ef5f3687ab9e9256aec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:19 +0000
Subject: [PATCH 12/30] fix: resolve block references given to menu parameters

---
 src/api/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index c13be82..71c3ade 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -727,9 +727,16 @@ impl BlockContent {
                     name: name.unwrap(),
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-                        ArgValue::Value(
-                            args.remove(0)
-                        )
+                        let value = args.remove(0);
+
+                        if value.starts_with("@") {
+                            ArgValue::BlockPlaceholder {
+                                block_id: (&value[1..]).parse()
+                                    .map_err(|_| BlockContentParseError::InvalidBlockId {
+                                        value
+                                    })?
+                            }
+                        } else { ArgValue::Value(value) }
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-- 
2.43.0


From 6033b6ea2f220220b3d77c905bddc0ada2cbc021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:21 +0000
Subject: [PATCH 13/30] fix: read blank number and boolean parameters as unset,
 the way they are saved

---
 src/api/block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 71c3ade..e2f4ddc 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -689,7 +689,7 @@ impl BlockContent {
                                         value
                                     })?
                             }
-                        } else {
+                        } else if value.is_empty() { ArgValue::Empty } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
                                     value
@@ -712,7 +712,7 @@ impl BlockContent {
                                         value
                                     })?
                             }
-                        } else {
+                        } else if value.is_empty() { ArgValue::Empty } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidNumberArgument {
                                     value
@@ -789,7 +789,7 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
-                                } else {
+                                } else if value.is_empty() { ArgValue::Empty } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidNumberArgument {
                                             value
@@ -814,7 +814,7 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
-                                } else {
+                                } else if value.is_empty() { ArgValue::Empty } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
                                             value
-- 
2.43.0


From bef24b6bc84b9fcbc23fe8ad0057b73fb9854dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 14/30] fix: give each view kind the type id it is read from

---
 src/api/view.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 1b26de5..af35ca1 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -324,6 +324,7 @@ impl ViewType {
     pub fn get_type_id(&self) -> u8 {
         match self {
             ViewType::LinearLayout { .. }   => 0,
+            ViewType::ScrollView { orientation: Orientation::Vertical, .. } => 12,
             ViewType::ScrollView { .. }     => 2,
             ViewType::Button { .. }         => 3,
             ViewType::TextView { .. }       => 4,
@@ -334,12 +335,12 @@ impl ViewType {
             ViewType::ListView { .. }       => 9,
             ViewType::Spinner { .. }        => 10,
             ViewType::CheckBox { .. }       => 11,
-            ViewType::Switch { .. }         => 12,
-            ViewType::SeekBar { .. }        => 13,
-            ViewType::CalendarView { .. }   => 14,
-            ViewType::Fab { .. }            => 15,
-            ViewType::AdView { .. }         => 16,
-            ViewType::MapView               => 17,
+            ViewType::Switch { .. }         => 13,
+            ViewType::SeekBar { .. }        => 14,
+            ViewType::CalendarView { .. }   => 15,
+            ViewType::Fab { .. }            => 16,
+            ViewType::AdView { .. }         => 17,
+            ViewType::MapView               => 18,
         }
     }
 
-- 
2.43.0


From 443accbf5ea68825ba28f95db329a16f8ae53f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:46 +0000
Subject: [PATCH 15/30] fix: save the type id of a view whose kind was replaced

---
 src/api/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/view.rs b/src/api/view.rs
index af35ca1..f9bcc1c 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -540,6 +540,7 @@ pub fn flatten_views(views: Vec<View>, parent_id: Option<String>, parent_type: O
             let type_id = view_type.get_type_id();
 
             view_type.apply_values_to_view(&mut result_view);
+            result_view.r#type = type_id;
 
             type_id
         } else {
-- 
2.43.0


From 5c45397eef9bb5e8d4baec3ae495b22b9b1d2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:47 +0000
Subject: [PATCH 16/30] fix: don't overwrite the orientation attribute of
 scroll views on save

---
 src/api/view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index f9bcc1c..02d25b8 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -352,8 +352,8 @@ impl ViewType {
                 view.layout.gravity = gravity;
             }
 
-            ViewType::ScrollView { orientation, gravity } => {
-                view.layout.orientation = orientation;
+            // the orientation of a scroll view is stored in its type id
+            ViewType::ScrollView { gravity, .. } => {
                 view.layout.gravity = gravity;
             }
 
-- 
2.43.0


From bdbd46c6e39637f93b2013e0dc167a326e599c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 17/30] fix: attach the resource files on save when the project
 was loaded with them, not the other way around

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 20d8268..dc604b4 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -763,7 +763,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                 fabs
             },
             logic: parser::logic::Logic { screens: logic_screens },
-            resource_files: val.automatic_res_file_ids.then(|| ResourceFiles {
+            resource_files: (!val.automatic_res_file_ids).then(|| ResourceFiles {
                 custom_icon: val.custom_icon,
                 images: image_resource_files,
                 sounds: sound_resource_files,
-- 
2.43.0


From 5fb94af7bec81b9521f77f7db52a234f639aa21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:51 +0000
Subject: [PATCH 18/30] fix: refuse a resource id that is taken in any category
 and name it in the error

---
 src/api/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index dc604b4..a65eab2 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -205,7 +205,7 @@ impl Resources {
         }
 
         // check if there is already a resource file with this id
-        if self.images.contains_key(&id) {
+        if self.get_resource(&id).is_some() {
             return Err(ResourceAdditionError::IdTaken { id });
         }
 
@@ -226,7 +226,7 @@ impl Resources {
 
 #[derive(Error, Debug)]
 pub enum ResourceAdditionError {
-    #[error("resource id `{}` is already taken", 0.0)]
+    #[error("resource id `{}` is already taken", .id.0)]
     IdTaken { id: ResourceId },
 
     #[error("file `{path:?}` does not exist")]
-- 
2.43.0


From 1afe7c690f0b3f3ddfe37bc2fd40117d38b38280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 19/30] fix: give a screen without logic its proper java name

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index a65eab2..e11116f 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -353,7 +353,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
                 // if it can't find any logic then create an empty ScreenLogic
                 let logic = val.logic.screens
                     .remove(view_name_to_logic(name.as_str()).as_str())
-                    .unwrap_or_else(||ScreenLogic::new_empty(file_entry.filename.clone()));
+                    .unwrap_or_else(||ScreenLogic::new_empty(view_name_to_logic(name.as_str())));
 
                 // get our fab (if we have one)
                 let fab = val.view.fabs
-- 
2.43.0


From 027dfd315ec6b4d705f39dc1c948effba50f396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 20/30] fix: keep the target type of view events on save

---
 src/api/screen.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index f40a854..f4b5521 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -82,7 +82,7 @@ impl Event {
     /// Generates the block container id from the event name and type
     pub fn get_block_container_id(&self) -> String {
         match &self.event_type {
-            EventType::ViewEvent { id } => format!("{}_{}", id, self.name),
+            EventType::ViewEvent { id, .. } => format!("{}_{}", id, self.name),
             EventType::ComponentEvent { id, .. } => format!("{}_{}", id, self.name),
             EventType::ActivityEvent => match self.name.as_str() {
                 "onCreate" => format!("{}_initializeLogic", self.name),
@@ -125,7 +125,8 @@ impl TryFrom<ParserEvent> for Event {
 #[derive(Debug, Clone, PartialEq)]
 pub enum EventType {
     ViewEvent {
-        id: String
+        id: String,
+        view_type: u8,
     },
     ComponentEvent {
         id: String,
@@ -137,7 +138,10 @@ pub enum EventType {
 impl EventType {
     pub fn from_parser_event(event: &ParserEvent) -> Result<EventType, UnknownEventType> {
         Ok(match event.event_type {
-            1 => EventType::ViewEvent { id: event.target_id.to_owned() },
+            1 => EventType::ViewEvent {
+                id: event.target_id.to_owned(),
+                view_type: event.target_type,
+            },
             2 => EventType::ComponentEvent {
                 id: event.target_id.to_owned(),
                 component_type: event.target_type,
@@ -155,9 +159,10 @@ impl EventType {
 
     pub fn apply_to_parser_event(self, event: &mut ParserEvent) {
         match self {
-            EventType::ViewEvent { id } => {
+            EventType::ViewEvent { id, view_type } => {
                 event.event_type = 1;
                 event.target_id = id;
+                event.target_type = view_type;
             }
 
             EventType::ComponentEvent { id, component_type } => {
-- 
2.43.0


From 18cd11c2528e2d1d6b276727f00338c98f64bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 21/30] fix: write the target id of activity events on save

---
 src/api/screen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index f4b5521..7585331 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -171,7 +171,10 @@ impl EventType {
                 event.target_type = component_type;
             }
 
-            EventType::ActivityEvent => event.event_type = 3
+            EventType::ActivityEvent => {
+                event.event_type = 3;
+                event.target_id = event.event_name.to_owned();
+            }
         }
     }
 }
-- 
2.43.0


From b3a70d264ed0ffeb247ffd550b6d58e4639bff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 22/30] fix: don't lose the code of onCreate when it is listed
 as an event

---
 src/api/screen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index 7585331..d8a56b7 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -206,6 +206,8 @@ impl Screen {
             // make an event pool if there is none
             if logic_entry.events.is_none() { logic_entry.events = Some(EventPool::default()) }
             if let Some(events) = &mut logic_entry.events {
+                // it could only be already there if the file wasn't made by sketchware
+                events.0.retain(|event| event.event_type != 3 || event.event_name != "onCreate");
                 events.0.insert(0, ParserEvent {
                     event_name: "onCreate".to_string(),
                     event_type: 3,
-- 
2.43.0


From 80a3870a8f7a245e333c1946512fd3ec2f354fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 23/30] fix: save drawers as drawers instead of custom views

---
 src/api/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index e11116f..307ed76 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -539,7 +539,10 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     .iter()
                     .map(|custom_view| FileItem {
                         filename: custom_view.res_name.to_owned(),
-                        file_type: FileType::CustomView,
+                        // drawers are custom views whose name starts with `_drawer_`
+                        file_type: if custom_view.res_name.starts_with("_drawer_") {
+                            FileType::Drawer
+                        } else { FileType::CustomView },
                         keyboard_setting: KeyboardSetting::Unspecified,
                         options: ActivityOptions {
                             toolbar_enabled: false,
-- 
2.43.0


From a784a424eef2bb4b14ef44f6a179e8f01c662bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 24/30] fix: keep the custom icon of a project that is loaded
 without its resource files

---
 src/api/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 307ed76..ba12b3b 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -403,7 +403,11 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
             // to own Option<>
             custom_icon: if let Some(rf) = &val.resource_files {
                 rf.custom_icon.clone()
-            } else { None },
+            } else {
+                val.project.custom_icon.then(|| ResourceFileWrapper::make_random_id(
+                    "icon.png".to_string(), ResourceType::CustomIcon
+                ))
+            },
             metadata: Metadata {
                 local_id: val.project.id,
                 name: val.project.app_name,
-- 
2.43.0


From e16a9eb7d269b1e6ea4646b83ca1c0a59a407f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 25/30] fix: refuse an invalid use_yn value of the compat
 library like those of the others

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index ba12b3b..3473324 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -428,7 +428,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
             screens: activities,
             custom_views,
             libraries: Libraries {
-                app_compat_enabled: val.library.compat.use_yn == "Y",
+                app_compat_enabled: library_conv!("compat", compat, ()).is_some(),
                 firebase: library_conv!("firebase", firebase_db, Firebase {
                     project_id: val.library.firebase_db.data,
                     app_id: val.library.firebase_db.reserved1,
-- 
2.43.0


From 3ffa006d9918a10660483d4a4eb34a1fd1c39844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:46 +0000
Subject: [PATCH 26/30] fix: refuse colors that don't fit in 32 bits instead of
 silently changing them

---
 src/color.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/color.rs b/src/color.rs
index eaa9af6..3fb0857 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -82,13 +82,17 @@ impl<'de> Deserialize<'de> for Color {
             }
 
             fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E> where E: Error {
-                self.visit_i64(v as i64)
+                self.visit_f64(v as f64)
             }
 
             fn visit_f64<E>(self, v: f64) -> Result<Self::Value, E> where E: serde::de::Error {
                 // this weird conversion is here to preserve the binary formation of the value.
                 // the conversion from f64 to u32 right would break the negative value and thus
                 // breaks the color
+                if v.fract() != 0.0 || v < i32::MIN as f64 || v > i32::MAX as f64 {
+                    return Err(E::custom("color doesn't fit in a signed 32-bit integer"));
+                }
+
                 Ok(Color::from(v as i32 as u32))
             }
         }
-- 
2.43.0


From 4cc73d7c9ea779ffc6b9e839e4cb52c32639f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 27/30] fix: report the text of a malformed fab instead of its
 header

---
 src/parser/view.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 570d204..724cef3 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -46,17 +46,17 @@ impl Parsable for View {
                 layouts.insert(screen_name.to_string(), screen);
 
             } else if *container_type == "xml_fab" {
+                let fab_line = lines.next()
+                    .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
+                        screen_name: screen_name.to_string(),
+                        line: lines.get_count()
+                    })?;
+
                 let fab_view =
-                    AndroidView::parse(
-                        lines.next()
-                            .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
-                                screen_name: screen_name.to_string(),
-                                line: lines.get_count()
-                            })?
-                    ).map_err(|err| ViewParseError::FabParseError {
+                    AndroidView::parse(fab_line).map_err(|err| ViewParseError::FabParseError {
                         screen_name: screen_name.to_string(),
                         line: lines.get_count(),
-                        content: line.to_string(),
+                        content: fab_line.to_string(),
                         source: err
                     })?;
 
-- 
2.43.0


From 8750828046b8513b3dcdb90f372cc25dacb92bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:31 +0000
Subject: [PATCH 28/30] fix: only leave out the activity's onCreate event on
 save, not view or component events of that name

---
 src/api/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 3473324..18634e9 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -581,9 +581,10 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                         let block_container = blocks.into();
                         block_containers.insert(block_container_id, block_container);
 
-                        // drop this event if its onCreate, but preserve the block container
-                        // see `api::screen::Screen::from_parsed` comments for more explanation
-                        if event.event_name == "onCreate" { return None; }
+                        // drop this event if its the activity's onCreate, but preserve the block
+                        // container, see `api::screen::Screen::from_parsed` comments for more
+                        // explanation
+                        if event.event_type == 3 && event.event_name == "onCreate" { return None; }
 
                         Some(event)
                     })
-- 
2.43.0


From 8a05ba01c83ca05ddf0bceff7f64ffc98ac4d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:02 +0000
Subject: [PATCH 29/30] fix: a view placed at an edge is not reported as
 centred

---
 src/parser/view.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 724cef3..1454ef9 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -520,11 +520,13 @@ pub mod models {
             impl Gravity {
                 pub fn new(value: u8) -> Gravity { Gravity(value) }
 
-                pub fn center_horizontal(&self) -> bool { self.0 & CENTER_HORIZONTAL == CENTER_HORIZONTAL }
+                // the lowest three bits are the horizontal placement, bits 4 to 6 the vertical one; the
+                // bit of the centre is also set in the placements at the edges
+                pub fn center_horizontal(&self) -> bool { self.0 & 7 == CENTER_HORIZONTAL }
                 pub fn left(&self) -> bool              { self.0 & LEFT == LEFT }
                 pub fn right(&self) -> bool             { self.0 & RIGHT == RIGHT }
-                pub fn center_vertical(&self) -> bool   { self.0 & CENTER_VERTICAL == CENTER_VERTICAL }
-                pub fn center(&self) -> bool            { self.0 & CENTER == CENTER }
+                pub fn center_vertical(&self) -> bool   { self.0 & 112 == CENTER_VERTICAL }
+                pub fn center(&self) -> bool            { self.center_horizontal() && self.center_vertical() }
                 pub fn top(&self) -> bool               { self.0 & TOP == TOP }
                 pub fn bottom(&self) -> bool            { self.0 & BOTTOM == BOTTOM }
             }
-- 
2.43.0


From 7beab29e9ddc96378acc8c4f44575fca0261d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 30/30] fix: resource entries that share a file are all bound
 to it

A file was taken out of the attached files by the first entry that names it, so a project in which
one file is registered under two names was refused once it had been saved.
---
 src/api/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 18634e9..037294d 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -322,8 +322,9 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
                 val.resource.$res_type
                     .into_iter()
                     .map(|ResourceItem { full_name, name, .. }|{
-                        let resource = if let Some(rf) = &mut val.resource_files {
-                            rf.$res_type.remove(&full_name)
+                        let resource = if let Some(rf) = &val.resource_files {
+                            // several entries may share a file
+                            rf.$res_type.get(&full_name).cloned()
                                 .ok_or_else(||APISketchwareProjectConversionError::MissingResourceFile {
                                     res_name: name.to_owned(),
                                     res_full_name: full_name,
-- 
2.43.0

