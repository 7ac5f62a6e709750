From 138f060a212488eaf729682e24893e546d3f8fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 01/11] fix: report modulus by zero as an error instead of
 panicking

---
 src/syntax_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 90e843b..3947a47 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -157,7 +157,12 @@ impl OperationNode for BinaryNode {
                 }
                 Ok(operand_1 / operand_2)
             }
-            BinaryOperatorToken::Modulus => Ok(operand_1 % operand_2),
+            BinaryOperatorToken::Modulus => {
+                if *operand_2.numer() == BigInt::from(0) {
+                    return Err(Positioned::new(DivisionByZero, self.operator_position).into());
+                }
+                Ok(operand_1 % operand_2)
+            }
             BinaryOperatorToken::Exponent => {
                 let total_precision = args.precision + args.extra_precision;
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
-- 
2.43.0


From 45c2196901e2e742e7ba363ab0e3e011a2880f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 02/11] fix: report zero raised to a negative power as an error
 instead of panicking

---
 src/operations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 43fd238..74ddec6 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,4 +1,4 @@
-use crate::error::MathExecutionError::{self, ImaginaryResult};
+use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
@@ -81,6 +81,9 @@ pub fn exponentiate(
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
     if exponent.is_negative() {
+        if base.is_zero() {
+            return Err(DivisionByZero);
+        }
         base = base.inv();
     }
 
-- 
2.43.0


From 1e4a54193f67f1ce714405773dc47f85e986958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 03/11] fix: compute roots of values between -1 and 1 instead
 of dividing by zero

---
 src/operations.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 74ddec6..5c97243 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,7 +1,7 @@
 use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
-    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
+    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, One, Signed, Zero,
 };
 
 /// `BigRational` only seems to support fractional string conversion, but we want to support decimal
@@ -98,6 +98,13 @@ pub fn exponentiate(
     // `r^(1/d)`.
     let radicand = base.pow(exp_num);
 
+    // The starting point that is computed below is an integer, and it must not be `0`. So if the
+    // root is between `-1` and `1`, compute `(1/r)^(1/d)` and invert the result instead.
+    if !exp_denom.is_one() && !radicand.is_zero() && radicand.to_integer().is_zero() {
+        let root_exponent = BigRational::new(BigInt::from(1), BigInt::from(exp_denom));
+        return exponentiate(radicand.recip(), root_exponent, precision, radix).map(|x| x.recip());
+    }
+
     // Step 3: Newton's Method
     // Given `r` and `d`, we want to compute `r^(1/d)`. We will call the result `x`.
     // So `r^(1/d) = x`, or `r = x^d`.
-- 
2.43.0


From b3dfceff9bc97f99e794baf9bef37df7dc19cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 04/11] fix: do not overflow when the total precision does not
 fit 8 bits

---
 src/operations.rs  | 2 +-
 src/syntax_tree.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 5c97243..d70f129 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -127,7 +127,7 @@ pub fn exponentiate(
     let degree_dec_ratio: BigRational = BigRational::from(BigInt::from(degree_dec.clone()));
     // We are actually going to add one additional digit of precision. This prevents a rounding
     // error from making our last guaranteed digit wrong.
-    let precision = BigUint::from(precision + 1);
+    let precision = BigUint::from(u16::from(precision) + 1);
     let radix = BigInt::from(radix);
     // The largest amount we are okay with being wrong by.
     let max_error = BigRational::new(one_signed.clone(), radix.pow(precision).into());
diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 3947a47..5b47655 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -108,7 +108,7 @@ impl OperationNode for UnaryNode {
                 .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;
         match self.operator {
             UnaryOperatorToken::SquareRoot => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = args.precision.saturating_add(args.extra_precision);
                 let one_half = BigRational::new(
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
@@ -164,7 +164,7 @@ impl OperationNode for BinaryNode {
                 Ok(operand_1 % operand_2)
             }
             BinaryOperatorToken::Exponent => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = args.precision.saturating_add(args.extra_precision);
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
-- 
2.43.0


From 0fa32b5de72648b0e8d7d3faa56954af18f960e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 05/11] fix: reject an output radix of 1 on the command line

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ac4fe58..3c7cd95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -66,7 +66,7 @@ pub struct Args {
     /// If specified, the output radix (base) will be set to this rather than being the same as the
     /// input radix.
     #[arg(long)]
-    #[arg(value_parser = clap::value_parser!(u8).range(1..17))]
+    #[arg(value_parser = clap::value_parser!(u8).range(2..=16))]
     convert_to_radix: Option<u8>,
 
     /// Maximum number of decimal digits to output.
-- 
2.43.0


From b651cfd36b233d1f29e0c95baac7e4f39b87df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 06/11] fix: report a two column wide window as too narrow
 instead of dividing by zero

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3c7cd95..a39ebbc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -175,7 +175,7 @@ fn interactive_calc(
             let current_input = inputs.current_line();
             if args.alternate_screen || input_complete {
                 let wrap_str: String = std::iter::repeat(" ").take(PROMPT_STR.len()).collect();
-                if cols < wrap_str.len() {
+                if cols <= wrap_str.len() {
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-- 
2.43.0


From 818c47f93e2d78d39a4f091c3ebe58abee46ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 07/11] fix: keep the cursor inside of a scroll window that is
 one column wide

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a39ebbc..bda4dc8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -249,7 +249,7 @@ fn interactive_calc(
                         scroll_offset = 0;
                     } else {
                         let rel_cursor_pos =
-                            max(1, min(scroll_window_size, (scroll_window_size / 3) * 2));
+                            min(scroll_window_size - 1, max(1, (scroll_window_size / 3) * 2));
                         if cursor_pos < rel_cursor_pos {
                             scroll_offset = 0
                         } else {
-- 
2.43.0


From f9a8803562355256f893504c619c4a690ab7a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 08/11] fix: apply the output radix, comma and upper settings
 to fractions

---
 src/main.rs       | 17 +++++++++++------
 src/operations.rs | 12 ++++++++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bda4dc8..ad73827 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,7 +23,7 @@ use crossterm::{
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
 use input_history::InputHistory;
-use operations::make_decimal_string;
+use operations::{make_decimal_string, make_fraction_string};
 use saved_data::SavedData;
 use std::{
     cmp::{max, min},
@@ -570,13 +570,18 @@ fn calculate(
     let st = SyntaxTree::new(tokens.into())?;
     let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;
 
+    let output_radix = match args.convert_to_radix {
+        Some(radix) => radix,
+        None => args.radix,
+    };
     if args.fractional {
-        Ok(result.to_string())
+        Ok(make_fraction_string(
+            &result,
+            output_radix,
+            args.commas,
+            args.upper,
+        ))
     } else {
-        let output_radix = match args.convert_to_radix {
-            Some(radix) => radix,
-            None => args.radix,
-        };
         Ok(make_decimal_string(
             &result,
             output_radix,
diff --git a/src/operations.rs b/src/operations.rs
index d70f129..4be9840 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -73,6 +73,18 @@ pub fn make_decimal_string(
     }
 }
 
+/// Displays the value as a fraction in lowest terms, or as an integer if it is one.
+pub fn make_fraction_string(value: &BigRational, radix: u8, commas: bool, upper: bool) -> String {
+    let make_part = |part: &BigInt| -> String {
+        make_decimal_string(&BigRational::from(part.clone()), radix, 0, commas, upper)
+    };
+    if value.is_integer() {
+        make_part(value.numer())
+    } else {
+        format!("{}/{}", make_part(value.numer()), make_part(value.denom()))
+    }
+}
+
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-- 
2.43.0


From 25d91650050dc1041aa89e09f4b585324069788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 09/11] fix: make error positions in command arguments relative
 to the input line

---
 src/commands.rs | 66 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/commands.rs b/src/commands.rs
index aa4634b..afe5edb 100644
--- a/src/commands.rs
+++ b/src/commands.rs
@@ -13,6 +13,7 @@ use crate::{
 use std::{
     cmp::max,
     collections::{HashMap, HashSet},
+    fmt,
 };
 
 // When a new command is created, the constructor function needs to be added to this list.
@@ -134,6 +135,29 @@ impl CommandExecutor {
     }
 }
 
+/// The positions that result from tokenizing a command's arguments are relative to the start of the
+/// arguments. This makes them relative to the start of the input.
+fn offset_positions<T>(
+    result: Result<Vec<Positioned<T>>, Positioned<String>>,
+    offset: usize,
+) -> Result<Vec<Positioned<T>>, Positioned<String>>
+where
+    T: Clone + fmt::Debug,
+{
+    match result {
+        Ok(mut tokens) => {
+            for token in &mut tokens {
+                token.position.start += offset;
+            }
+            Ok(tokens)
+        }
+        Err(mut error) => {
+            error.position.start += offset;
+            Err(error)
+        }
+    }
+}
+
 struct HelpCommand;
 
 impl HelpCommand {
@@ -263,11 +287,12 @@ impl Command for ReloadVarCommand {
         arguments: Positioned<String>,
         data: DataForCommands,
     ) -> Result<(String, Vec<String>), CalculatorFailure> {
-        let variable_tokens: HashSet<Positioned<String>> = data
-            .tokenizer
-            .tokenize_variable_list(&arguments.value)?
-            .into_iter()
-            .collect();
+        let variable_tokens: HashSet<Positioned<String>> = offset_positions(
+            data.tokenizer.tokenize_variable_list(&arguments.value),
+            arguments.position.start,
+        )?
+        .into_iter()
+        .collect();
 
         let db = data.maybe_db.ok_or(MissingCapabilityError::NoDatabase)?;
         let vars = data
@@ -342,11 +367,12 @@ impl Command for PurgeVarCommand {
         arguments: Positioned<String>,
         mut data: DataForCommands,
     ) -> Result<(String, Vec<String>), CalculatorFailure> {
-        let variable_tokens: HashSet<Positioned<String>> = data
-            .tokenizer
-            .tokenize_variable_list(&arguments.value)?
-            .into_iter()
-            .collect();
+        let variable_tokens: HashSet<Positioned<String>> = offset_positions(
+            data.tokenizer.tokenize_variable_list(&arguments.value),
+            arguments.position.start,
+        )?
+        .into_iter()
+        .collect();
 
         let vars = data
             .maybe_vars
@@ -424,7 +450,10 @@ impl Command for HistoryCapacityCommand {
         arguments: Positioned<String>,
         data: DataForCommands,
     ) -> Result<(String, Vec<String>), CalculatorFailure> {
-        let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;
+        let mut parsed_args = offset_positions(
+            data.tokenizer.tokenize_int_list(&arguments.value, 10),
+            arguments.position.start,
+        )?;
         let input: Option<i64> = if parsed_args.is_empty() {
             None
         } else if parsed_args.len() == 1 {
@@ -559,7 +588,10 @@ impl Command for RadixCommand {
         arguments: Positioned<String>,
         data: DataForCommands,
     ) -> Result<(String, Vec<String>), CalculatorFailure> {
-        let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;
+        let mut parsed_args = offset_positions(
+            data.tokenizer.tokenize_int_list(&arguments.value, 10),
+            arguments.position.start,
+        )?;
         let input: Option<u8> = if parsed_args.is_empty() {
             None
         } else if parsed_args.len() == 1 {
@@ -642,7 +674,10 @@ impl Command for ConvertToRadixCommand {
             return Ok(("Done".to_string(), Vec::new()));
         }
 
-        let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;
+        let mut parsed_args = offset_positions(
+            data.tokenizer.tokenize_int_list(&arguments.value, 10),
+            arguments.position.start,
+        )?;
         let input: Option<u8> = if parsed_args.is_empty() {
             None
         } else if parsed_args.len() == 1 {
@@ -853,7 +888,10 @@ impl Command for PrecisionCommand {
         arguments: Positioned<String>,
         data: DataForCommands,
     ) -> Result<(String, Vec<String>), CalculatorFailure> {
-        let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;
+        let mut parsed_args = offset_positions(
+            data.tokenizer.tokenize_int_list(&arguments.value, 10),
+            arguments.position.start,
+        )?;
         let input: Option<(u8, u8)> = if parsed_args.is_empty() {
             None
         } else if parsed_args.len() <= 2 {
-- 
2.43.0


From f813ba2d6613563015fa41f6ed5c3d5404c42e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:45 +0000
Subject: [PATCH 10/11] fix: take the write lock at the start of transactions
 that read before they write

---
 src/saved_data.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 005f008..9ee2922 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -1,7 +1,7 @@
 use crate::error::CalculatorDatabaseInconsistencyError;
 use crate::variable::Variable;
 use num::{bigint::BigInt, rational::BigRational};
-use rusqlite::{self, named_params, OptionalExtension, Transaction};
+use rusqlite::{self, named_params, OptionalExtension, Transaction, TransactionBehavior};
 use std::{env, fs::create_dir, io, path::Path};
 
 const DATA_ROOT_DIR_ENV_VAR_NAME: &str = "_B_UTIL_DATA_DIR";
@@ -136,7 +136,9 @@ impl SavedData {
         let mut connection = rusqlite::Connection::open(db_path)?;
         connection.execute("PRAGMA foreign_keys = ON;", ())?;
 
-        let transaction = connection.transaction()?;
+        // Transactions that read before they write need to take the write lock right away. SQLite
+        // does not wait for other processes to finish if a lock is upgraded later on.
+        let transaction = connection.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         transaction.execute(
             "CREATE TABLE IF NOT EXISTS meta_int(
@@ -241,7 +243,9 @@ impl SavedData {
     /// history until the expected maximum size is reached.
     /// Returns the id of the history entry that was inserted.
     pub fn add_to_input_history(&mut self, input: &str) -> Result<i64, Box<dyn std::error::Error>> {
-        let mut transaction = self.connection.transaction()?;
+        let mut transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         let maybe_orig_front: Option<i64> = transaction.query_row(
             "SELECT value FROM input_history_tags WHERE key=:key",
             named_params! {
-- 
2.43.0


From 643936868f6bd5e008229d376292b2c64824fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:04 +0000
Subject: [PATCH 11/11] fix: scroll at the bottom of the alternate screen

Moving to the next line does nothing on the last row of the window, so
there results were overwritten and erased, and long lines were drawn over
themselves. Print a newline instead, which scrolls, and keep track of
the row that the line starts in.
---
 src/main.rs | 53 ++++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ad73827..49fb8fe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ mod variable;
 use clap::Parser;
 use commands::CommandExecutor;
 use crossterm::{
-    cursor::{self, MoveTo, MoveToColumn, MoveToNextLine},
+    cursor::{self, MoveTo, MoveToColumn},
     event::{self, Event, KeyCode, KeyModifiers},
     execute, queue,
     style::Print,
@@ -162,8 +162,10 @@ fn interactive_calc(
     'calculate: loop {
         let mut cursor_pos: usize = 0;
         let mut scroll_offset: usize = 0;
-        let input_start = cursor::position()?;
-        let mut cols = usize::from(terminal::size()?.0);
+        let mut input_start = cursor::position()?;
+        let (width, height) = terminal::size()?;
+        let mut cols = usize::from(width);
+        let mut rows = usize::from(height);
         let mut input_complete = false;
 
         'get_input_line: loop {
@@ -179,7 +181,7 @@ fn interactive_calc(
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-                let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)? + input_start.1;
+                let rel_cursor_row = cursor_pos / available_cols;
                 let cursor_col: u16 =
                     u16::try_from((cursor_pos % available_cols) + wrap_str.len())?;
                 let mut end_index = min(available_cols, current_input.len());
@@ -201,31 +203,34 @@ fn interactive_calc(
                     Print(&current_input[0..end_index])
                 )?;
                 let mut current_index = end_index;
+                let mut last_row: usize = 0;
                 while current_index < current_input.len() {
                     end_index = min(current_index + available_cols, current_input.len());
-                    if args.alternate_screen {
-                        queue!(stdout, MoveToNextLine(1))?;
-                    } else {
-                        // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                        // alternate screen.
-                        queue!(stdout, Print("\n"), MoveToColumn(0))?;
-                    }
+                    // Unlike MoveToNextLine, a newline scrolls at the bottom of the window.
                     queue!(
                         stdout,
+                        Print("\n"),
+                        MoveToColumn(0),
                         Print(&wrap_str),
                         Print(&current_input[current_index..end_index])
                     )?;
                     current_index = end_index;
+                    last_row += 1;
                 }
                 if input_complete {
-                    if args.alternate_screen {
-                        queue!(stdout, MoveToNextLine(1))?;
-                    } else {
-                        // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                        // alternate screen.
-                        queue!(stdout, Print("\n"), MoveToColumn(0))?;
-                    }
+                    queue!(stdout, Print("\n"), MoveToColumn(0))?;
                 } else {
+                    // The cursor may be on the row after the text.
+                    if rel_cursor_row > last_row {
+                        queue!(stdout, Print("\n"))?;
+                        last_row = rel_cursor_row;
+                    }
+                    // If the window scrolled, the line starts further up now.
+                    let start_row = usize::from(input_start.1);
+                    let overflow = (start_row + last_row + 1).saturating_sub(rows);
+                    let start_row = start_row.saturating_sub(overflow);
+                    input_start.1 = u16::try_from(start_row)?;
+                    let cursor_row = u16::try_from(start_row + rel_cursor_row)?;
                     queue!(stdout, MoveTo(cursor_col, cursor_row))?;
                 }
                 stdout.flush()?;
@@ -466,8 +471,9 @@ fn interactive_calc(
                         // find a way to actually get these events.
                         return Err(InternalCalculatorError::new("Paste unimplemented!").into());
                     }
-                    Event::Resize(width, _) => {
+                    Event::Resize(width, height) => {
                         cols = usize::from(width);
+                        rows = usize::from(height);
                         break 'get_event;
                     }
                     _ => {}
@@ -495,14 +501,7 @@ fn interactive_calc(
         // It appears that on macOS, outputting a newline advances the cursor down, but not back to
         // column 0. So we need to make sure that we do that manually.
         for line in output.split('\n') {
-            queue!(stdout, Print(line))?;
-            if args.alternate_screen {
-                queue!(stdout, MoveToNextLine(1))?;
-            } else {
-                // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                // alternate screen.
-                queue!(stdout, Print("\n"), MoveToColumn(0))?;
-            }
+            queue!(stdout, Print(line), Print("\n"), MoveToColumn(0))?;
         }
         stdout.flush()?;
     } // 'calculate: loop
-- 
2.43.0

