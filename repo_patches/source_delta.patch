From 2dfd5620d49172438b685ecacf61e761df21cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 01/88] fix: parser emitted an empty unknown command before
 leading text

---
 thermal_parser/src/parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 066fa6b..487fca2 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -163,12 +163,9 @@ impl Parser {
 
             if new_cmd.is_some() {
                 mem::swap(&mut self.current_command, &mut new_cmd);
-                if new_cmd.is_some() {
+                if let Some(previous_cmd) = new_cmd {
                     //new_command has become the previous command after the swap
-                    self.emit_command(new_cmd.unwrap());
-                } else {
-                    //Generally an unknown command at the start of the binary
-                    self.emit_command(self.cmd_set.unknown.clone());
+                    self.emit_command(previous_cmd);
                 }
                 return;
             }
-- 
2.43.0


From 033f44c7e0964ff215c3135e0b4ef174b123ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 02/88] fix: parser lost the bytes of a command prefix that
 does not match or is cut off

---
 thermal_parser/src/parser.rs | 77 ++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 487fca2..4c7d83f 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -33,6 +33,9 @@ impl Parser {
             self.parse(byte);
         }
 
+        //The stream may end in the middle of matching a command
+        self.take_unmatched_bytes();
+
         //emit the last command and reset the parser
         let mut new_cmd = None;
         mem::swap(&mut self.current_command, &mut new_cmd); //new_cmd has become the previous command after the swap
@@ -132,46 +135,52 @@ impl Parser {
             return;
         }
 
-        //If the matched command set is empty we either make a new default command
-        //or make a new unknown command or append to the last default command
+        //If the matched command set is empty none of the buffered bytes start a command
         if self.command_matches.is_empty() {
-            let mut new_cmd = None;
-
-            if self.command_buffer.len() > 0
-                && self
-                    .cmd_set
-                    .unknown
-                    .commands
-                    .contains(self.command_buffer.first().unwrap())
-            {
-                let mut unknown_command = self.cmd_set.unknown.clone();
-                unknown_command.data = self.command_buffer.clone();
-                new_cmd = Some(unknown_command);
-            } else if self.current_command_is_default {
-                if let Some(cmd) = &mut self.current_command {
-                    cmd.push(*byte);
-                }
-            } else {
-                let mut default_command = self.cmd_set.default.clone();
-                default_command.push(*byte);
-                new_cmd = Some(default_command);
-            }
+            self.take_unmatched_bytes();
+            return;
+        }
+        self.match_depth += 1;
+    }
 
-            self.command_buffer.clear();
-            self.current_command_is_default = true;
-            self.match_depth = 0;
+    //Bytes that did not turn out to be a command either make a new default command,
+    //make a new unknown command or are appended to the last default command
+    fn take_unmatched_bytes(&mut self) {
+        let bytes = mem::take(&mut self.command_buffer);
+        let mut new_cmd = None;
+
+        let is_unknown = match bytes.first() {
+            Some(first) => self.cmd_set.unknown.commands.contains(first),
+            None => return,
+        };
 
-            if new_cmd.is_some() {
-                mem::swap(&mut self.current_command, &mut new_cmd);
-                if let Some(previous_cmd) = new_cmd {
-                    //new_command has become the previous command after the swap
-                    self.emit_command(previous_cmd);
+        if is_unknown {
+            let mut unknown_command = self.cmd_set.unknown.clone();
+            unknown_command.data = bytes;
+            new_cmd = Some(unknown_command);
+        } else if self.current_command_is_default {
+            if let Some(cmd) = &mut self.current_command {
+                for byte in bytes {
+                    cmd.push(byte);
                 }
-                return;
             }
+        } else {
+            let mut default_command = self.cmd_set.default.clone();
+            for byte in bytes {
+                default_command.push(byte);
+            }
+            new_cmd = Some(default_command);
+        }
 
-            return;
+        self.current_command_is_default = true;
+        self.match_depth = 0;
+
+        if new_cmd.is_some() {
+            mem::swap(&mut self.current_command, &mut new_cmd);
+            if let Some(previous_cmd) = new_cmd {
+                //new_command has become the previous command after the swap
+                self.emit_command(previous_cmd);
+            }
         }
-        self.match_depth += 1;
     }
 }
-- 
2.43.0


From 39202f05d731772b37651e5b6853db186a05147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 03/88] fix: unknown commands reported the list of possible
 first bytes as their own opcode

---
 thermal_parser/src/commands/unknown.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/unknown.rs b/thermal_parser/src/commands/unknown.rs
index 075b3e2..8344531 100644
--- a/thermal_parser/src/commands/unknown.rs
+++ b/thermal_parser/src/commands/unknown.rs
@@ -3,7 +3,13 @@ use crate::{command::*, constants::*};
 #[derive(Clone)]
 struct Handler;
 
-impl CommandHandler for Handler {}
+impl CommandHandler for Handler {
+    //All bytes of an unknown command, including its first, are in the data. The
+    //commands of this command only list the bytes an unknown command can start with
+    fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
+        (vec![], command.data.clone())
+    }
+}
 
 pub fn new() -> Command {
     Command::new(
-- 
2.43.0


From b4ebbc5145dad07ecd6fd995fcdaf63f0c216d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 04/88] fix: subcommand with a declared length below two
 underflowed

---
 thermal_parser/src/subcommands/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 1408238..5bf561e 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -54,7 +54,7 @@ impl SubCommandHandler {
 
         if data_len == 4 {
             self.capacity = parse_u16(&data.to_vec(), 0) as u32;
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(2).unwrap();
             self.subcommand_id = *data.get(3).unwrap();
         }
@@ -62,7 +62,7 @@ impl SubCommandHandler {
         if data_len == 6 {
             //TODO why is this number too big
             self.capacity = parse_u32(&data.to_vec(), 0);
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(4).unwrap();
             self.subcommand_id = *data.get(5).unwrap();
         }
-- 
2.43.0


From 97484f1a829e6a54f663c333418a374d35200a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 05/88] fix: subcommands that are unknown, cut off or last in
 the stream lost bytes

---
 thermal_parser/src/parser.rs          |  8 +++++
 thermal_parser/src/subcommands/mod.rs | 42 ++++++++++++---------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 4c7d83f..8be86c8 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -72,8 +72,16 @@ impl Parser {
                 }
 
                 subcommand.commands = Rc::new(expanded_cmds);
+                subcommand.data = mem::take(&mut command.data);
 
                 self.captured_commands.push(subcommand);
+            } else {
+                //Not a subcommand we know, or cut off before it could be recognized
+                let (commands, data) = command.handler.get_command_bytes(command);
+                let mut unknown_command = self.cmd_set.unknown.clone();
+                unknown_command.data = commands;
+                unknown_command.data.extend(data);
+                self.captured_commands.push(unknown_command);
             }
         } else {
             self.captured_commands.push(cmd);
diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 5bf561e..94baf76 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -15,6 +15,7 @@ pub struct SubCommandHandler {
     is_large: bool,
     m: u8,
     subcommand_id: u8,
+    header: Vec<u8>,
     capacity: u32,
     accept_data: bool,
     use_m: bool,
@@ -113,44 +114,36 @@ impl CommandHandler for SubCommandHandler {
     }
 
     fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
-        let mut data_len = data.len();
-
         if !self.accept_data {
+            data.push(byte);
+
             // Large subcommands use two extra bytes to determine data size
-            if self.is_large {
-                if data_len < 6 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..6]);
-            } else {
-                if data_len < 4 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..4]);
+            let header_len = if self.is_large { 6 } else { 4 };
+
+            if data.len() == header_len {
+                self.header = mem::take(data);
+                self.parse_meta(&self.header.clone());
             }
-            data.clear();
-            data_len = 0;
+            return true;
         }
 
         //Accept data
-        if data_len < (self.capacity as usize) {
+        if data.len() < (self.capacity as usize) {
             data.push(byte);
             return true;
         }
 
-        //Move the data into the subcommand
-        if let Some(sub) = &mut self.subcommand {
-            mem::swap(&mut sub.data, data);
-        } else {
-            println!("Missing subcommand");
-        }
-
         //Stop accepting bytes
         false
     }
 
+    //The header bytes are not part of the data
+    fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
+        let mut commands = command.commands.to_vec();
+        commands.extend(&self.header);
+        (commands, command.data.clone())
+    }
+
     //Returns a subcommand that can be owned and stubs
     fn get_subcommand(&mut self) -> Option<Command> {
         let mut subcommand = None;
@@ -166,6 +159,7 @@ pub fn new(is_large: bool, use_m: bool, commands: Rc<Vec<Command>>) -> Box<SubCo
         is_large,
         m: 0,
         subcommand_id: 0,
+        header: vec![],
         capacity: 0,
         accept_data: false,
         use_m,
-- 
2.43.0


From 6fb33cf721dcddd67ff750cd3a991771ff011a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 06/88] fix: NUL terminated barcode at the end of the stream
 kept the NUL as data

---
 thermal_parser/src/commands/barcode.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 27b5b70..1d6e767 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -51,6 +51,7 @@ struct BarcodeHandler {
     capacity: u8,
     has_capacity: bool,
     accept_data: bool,
+    terminated: bool,
     raw_params: Vec<u8>,
 }
 
@@ -279,7 +280,7 @@ impl CommandHandler for BarcodeHandler {
         params.extend(self.raw_params.clone());
         let mut data = command.data.to_vec();
 
-        if self.encoding == EncodingFunction::NulTerminated {
+        if self.terminated {
             data.push(NUL);
         }
 
@@ -331,11 +332,14 @@ impl CommandHandler for BarcodeHandler {
 
         return match self.encoding {
             EncodingFunction::NulTerminated => {
-                if *data.last().unwrap_or(&0x01) == NUL {
-                    data.pop();
+                if self.terminated {
                     return false;
                 }
-                data.push(byte);
+                if byte == NUL {
+                    self.terminated = true;
+                } else {
+                    data.push(byte);
+                }
                 true
             }
             EncodingFunction::ExplicitSize => {
@@ -368,6 +372,7 @@ pub fn new() -> Command {
             capacity: 0,
             has_capacity: false,
             accept_data: false,
+            terminated: false,
             raw_params: vec![],
         }),
     )
-- 
2.43.0


From 9d1651100f6465e7e2c1f8dfee1c4247938d13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 07/88] fix: character effects with a declared length of zero
 swallowed the next byte

---
 thermal_parser/src/commands/set_character_effects.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_character_effects.rs b/thermal_parser/src/commands/set_character_effects.rs
index 35e3372..8a36b04 100644
--- a/thermal_parser/src/commands/set_character_effects.rs
+++ b/thermal_parser/src/commands/set_character_effects.rs
@@ -17,8 +17,6 @@ impl CommandHandler for Handler {
             let pl = *command.get(0).unwrap();
             let ph = *command.get(1).unwrap();
             self.capacity = (pl as u32 + ph as u32 * 256) + 2;
-            command.push(byte);
-            return true;
         }
 
         if command.len() < self.capacity as usize {
-- 
2.43.0


From 6c7563b2251131e5cc3b1cd6a5da2302f4882372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 08/88] fix: datamatrix width command was registered under the
 composite symbol opcode

---
 .../src/subcommands/gs_code2d/datamatrix_set_width.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
index 5224068..39a3250 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
@@ -12,7 +12,7 @@ impl CommandHandler for Handler {
 pub fn new() -> Command {
     Command::new(
         "Datamatrix Sets the dot Width",
-        vec![52, 67],
+        vec![54, 67],
         CommandType::Context,
         DataType::Subcommand,
         Box::new(Handler),
-- 
2.43.0


From 737c484b8c5b8365dd733799f05adc114876d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 09/88] fix: turning double strike off left the text struck
 through

---
 thermal_parser/src/commands/set_double_strike.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/thermal_parser/src/commands/set_double_strike.rs b/thermal_parser/src/commands/set_double_strike.rs
index 0ad0e4b..b317177 100644
--- a/thermal_parser/src/commands/set_double_strike.rs
+++ b/thermal_parser/src/commands/set_double_strike.rs
@@ -8,17 +8,12 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
         let enable = (n & 0x00000001) == 1;
-        let mut strike = context.text.strikethrough.clone();
 
-        if enable {
-            strike = TextStrikethrough::Double
-        } else if strike == TextStrikethrough::Double {
-            strike = TextStrikethrough::On
+        context.text.strikethrough = if enable {
+            TextStrikethrough::Double
         } else {
-            strike = TextStrikethrough::Off
-        }
-
-        context.text.strikethrough = strike;
+            TextStrikethrough::Off
+        };
     }
 }
 
-- 
2.43.0


From cf9b0813d1a0087470abfa3e5e3319aafe3094d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 10/88] fix: white/black reverse printing is switched by the
 lowest bit of its parameter

---
 thermal_parser/src/commands/set_black_white_invert.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_black_white_invert.rs b/thermal_parser/src/commands/set_black_white_invert.rs
index af4b01d..971fc19 100644
--- a/thermal_parser/src/commands/set_black_white_invert.rs
+++ b/thermal_parser/src/commands/set_black_white_invert.rs
@@ -7,7 +7,8 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
 
-        if n == 1 {
+        let invert = (n & 1) == 1;
+        if invert {
             context.text.background_color = context.graphics.render_colors.color_1;
             context.text.color = context.graphics.render_colors.paper_color;
         } else {
@@ -15,7 +16,7 @@ impl CommandHandler for Handler {
             context.text.color = context.graphics.render_colors.color_1;
         }
 
-        context.text.invert = n == 1;
+        context.text.invert = invert;
     }
 }
 
-- 
2.43.0


From 4bf8a2f48fe320f7267a5eb2e384434ca85837e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 11/88] fix: underline of the print mode command is bit 7

---
 thermal_parser/src/commands/set_print_mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_print_mode.rs b/thermal_parser/src/commands/set_print_mode.rs
index 076aecc..95a1f02 100644
--- a/thermal_parser/src/commands/set_print_mode.rs
+++ b/thermal_parser/src/commands/set_print_mode.rs
@@ -5,7 +5,7 @@ struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         context.set_font(if font_b { Font::B } else { Font::A });
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
     fn debug(&self, command: &Command, _context: &Context) -> String {
         let mut changes = vec![];
 
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         changes.push(if font_b { "Font B" } else { "Font A" });
-- 
2.43.0


From 39198f4ae766ff0059b48c7a3f87812843e81547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 12/88] fix: colour number 48 is no colour (paper), not colour
 1

---
 thermal_parser/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 2985a51..313abec 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -117,7 +117,7 @@ pub struct RenderColors {
 impl RenderColors {
     pub fn color_for_number(&self, number: u8) -> &RGBA {
         match number {
-            0 => &self.paper_color,
+            0 | 48 => &self.paper_color,
             1 | 49 => &self.color_1,
             2 | 50 => &self.color_2,
             3 | 51 => &self.color_3,
-- 
2.43.0


From 44548084bc689aefebab9300750819ea0ffb9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 13/88] fix: QR error correction levels are 48 to 51

---
 .../src/subcommands/gs_code2d/qr_set_correction_level.rs    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
index 07a1cc8..a1f3b5b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
@@ -8,9 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&48u8);
 
         context.code2d.qr_error_correction = match n {
-            1 => QrErrorCorrection::M,
-            2 => QrErrorCorrection::Q,
-            3 => QrErrorCorrection::H,
+            1 | 49 => QrErrorCorrection::M,
+            2 | 50 => QrErrorCorrection::Q,
+            3 | 51 => QrErrorCorrection::H,
             _ => QrErrorCorrection::L,
         }
     }
-- 
2.43.0


From 1982a75f9cf0acce7d46977717903c57d3de7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 14/88] fix: composite max width was stored as GS1 max width

---
 .../src/subcommands/gs_code2d/composite_set_max_width.rs        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
index 827cdc9..8f964c5 100644
--- a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
@@ -7,7 +7,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let nl = *command.data.get(0).unwrap_or(&0u8);
         let nh = *command.data.get(1).unwrap_or(&0u8);
-        context.code2d.gs1_databar_max_width = nl as u32 + nh as u32 * 256;
+        context.code2d.composite_max_width = nl as u32 + nh as u32 * 256;
     }
 }
 
-- 
2.43.0


From cf7f5865f1b2df3c062679c268ffc2ec7e49bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 15/88] fix: PDF417 error correction level was taken from the
 wrong parameter and could underflow

---
 .../gs_code2d/pdf417_set_correction_level.rs  | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
index 4692cf7..62b13a7 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
@@ -8,34 +8,32 @@ impl CommandHandler for Handler {
         let m = *command.data.get(0).unwrap_or(&48u8);
         let n = *command.data.get(1).unwrap_or(&48u8);
 
-        let codeword_count = command.data.len() - 2; //Assuming it's one byte per codeword
-        let mut level = m - 48;
+        let codeword_count = command.data.len().saturating_sub(2); //Assuming it's one byte per codeword
+        let mut level = context.code2d.pdf417_err_correction;
+
+        //Fixed error correction level
+        if m == 48 && n >= 48 && n <= 56 {
+            level = n - 48
+        }
 
         //Ratio based error correction
         if m == 49 {
             let a = codeword_count as f32 * n as f32 * 0.01;
             if a < 4f32 {
                 level = 1
-            }
-            if a < 11f32 {
+            } else if a < 11f32 {
                 level = 2
-            }
-            if a < 21f32 {
+            } else if a < 21f32 {
                 level = 3
-            }
-            if a < 46f32 {
+            } else if a < 46f32 {
                 level = 4
-            }
-            if a < 101f32 {
+            } else if a < 101f32 {
                 level = 5
-            }
-            if a < 201f32 {
+            } else if a < 201f32 {
                 level = 6
-            }
-            if a < 401f32 {
+            } else if a < 401f32 {
                 level = 7
-            }
-            if a > 400f32 {
+            } else {
                 level = 8
             }
         }
-- 
2.43.0


From 79effc017ba78374211847c09aafd0163fa81994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 16/88] fix: MaxiCode mode outside 2 to 6 underflowed

---
 thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
index ce2fe3c..cef3e02 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
@@ -8,6 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&50u8);
 
         //mode 2 through 6
+        if n < 50 || n > 54 {
+            return;
+        }
         context.code2d.maxicode_mode = n - 48;
     }
 }
-- 
2.43.0


From b5fb90cfbb063278e5ef68932ef7cc901540d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 17/88] fix: Data Matrix options overflowed and a rectangle was
 stored as type 2

---
 .../src/subcommands/gs_code2d/datamatrix_set_options.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
index 5479a1b..ac358f2 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
@@ -15,13 +15,13 @@ impl CommandHandler for Handler {
 
         match m {
             0 | 48 => {
-                if d1 + d2 > 0 {
+                if d1 > 0 || d2 > 0 {
                     columns = d1;
                     rows = d2;
                 }
             }
             1 | 49 => {
-                symbol_type = 2;
+                symbol_type = 1;
                 if d2 == 0 && (d1 == 8 || d1 == 12 || d1 == 16) {
                     columns = d1;
                 } else {
-- 
2.43.0


From 73890811a70ee2f157be52a1f224361510a99056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 18/88] fix: initializing moved the print position back over
 printed content and erased NV graphics

---
 thermal_parser/src/context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 313abec..86f2d07 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -583,7 +583,13 @@ impl Context {
             self.text = default.text.clone();
             self.barcode = default.barcode.clone();
             self.code2d = default.code2d.clone();
+            //NV graphics survive a reset and the paper doesn't move back
+            let y = self.graphics.render_area.y;
+            let mut stored_graphics = mem::take(&mut self.graphics.stored_graphics);
+            stored_graphics.retain(|k, _| k.storage == graphics::ImageRefStorage::Disc);
             self.graphics = default.graphics.clone();
+            self.graphics.render_area.y = y;
+            self.graphics.stored_graphics = stored_graphics;
         }
     }
 
-- 
2.43.0


From 50764f5a16d183ca163e87d5ccec00fdb8d38017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 19/88] fix: international character sets replaced the wrong
 characters

---
 thermal_parser/src/decoder/international.rs | 92 ++++++++++-----------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/thermal_parser/src/decoder/international.rs b/thermal_parser/src/decoder/international.rs
index 0fa3ac7..e225068 100644
--- a/thermal_parser/src/decoder/international.rs
+++ b/thermal_parser/src/decoder/international.rs
@@ -6,15 +6,13 @@ pub static FRANCE: Language = (
     "French",
     &[
         (0x40, "à"),
-        (0x5B, "ç"),
-        (0x5C, "§"),
-        (0x5D, "^"),
-        (0x5E, "é"),
-        (0x60, "ù"),
-        (0x7B, "è"),
-        (0x7C, "¨"),
-        (0x7D, "û"),
-        (0x7E, "ü"),
+        (0x5B, "°"),
+        (0x5C, "ç"),
+        (0x5D, "§"),
+        (0x7B, "é"),
+        (0x7C, "ù"),
+        (0x7D, "è"),
+        (0x7E, "¨"),
     ],
 );
 
@@ -25,10 +23,10 @@ pub static GERMANY: Language = (
         (0x5B, "Ä"),
         (0x5C, "Ö"),
         (0x5D, "Ü"),
-        (0x60, "ä"),
-        (0x7B, "ö"),
-        (0x7C, "ü"),
-        (0x7D, "ß"),
+        (0x7B, "ä"),
+        (0x7C, "ö"),
+        (0x7D, "ü"),
+        (0x7E, "ß"),
     ],
 );
 
@@ -37,22 +35,19 @@ pub static UK: Language = ("British English", &[(0x23, "£")]);
 pub static DENMARK_I: Language = (
     "Danish Variant I",
     &[
-        (0x40, "Ä"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
-        (0x5E, "^"),
-        (0x60, "ä"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
-        (0x7E, "~"),
     ],
 );
 
 pub static SWEDEN: Language = (
     "Swedish",
     &[
+        (0x24, "¤"),
         (0x40, "É"),
         (0x5B, "Ä"),
         (0x5C, "Ö"),
@@ -69,12 +64,11 @@ pub static SWEDEN: Language = (
 pub static ITALY: Language = (
     "Italian",
     &[
-        (0x40, "§"),
-        (0x5C, "ù"),
-        (0x5E, "é"),
-        (0x60, "à"),
-        (0x7B, "ò"),
-        (0x7C, "ç"),
+        (0x5B, "°"),
+        (0x5D, "é"),
+        (0x60, "ù"),
+        (0x7B, "à"),
+        (0x7C, "ò"),
         (0x7D, "è"),
         (0x7E, "ì"),
     ],
@@ -83,28 +77,27 @@ pub static ITALY: Language = (
 pub static SPAIN_I: Language = (
     "Spanish Variant I",
     &[
-        (0x40, "Ñ"),
+        (0x23, "₧"),
         (0x5B, "¡"),
-        (0x5C, "¿"),
-        (0x5D, "ç"),
-        (0x7B, "ñ"),
-        (0x7C, "¬"),
-        (0x7D, "½"),
-        (0x7E, "¼"),
+        (0x5C, "Ñ"),
+        (0x5D, "¿"),
+        (0x7B, "¨"),
+        (0x7C, "ñ"),
     ],
 );
 
-pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥"), (0x7C, "¦")]);
+pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥")]);
 
 pub static NORWAY: Language = (
     "Norwegian",
     &[
-        (0x40, "Ä"),
+        (0x24, "¤"),
+        (0x40, "É"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
         (0x5E, "Ü"),
-        (0x60, "ä"),
+        (0x60, "é"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
@@ -132,13 +125,12 @@ pub static SPAIN_II: Language = (
     "Spanish Variant II",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "á"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
@@ -148,33 +140,37 @@ pub static LATIN_AMERICA: Language = (
     "Latin",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "é"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x60, "ü"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
 );
 
-pub static KOREA: Language = ("Korean", &[(0x5C, "₩"), (0x7C, "₩")]);
+pub static KOREA: Language = ("Korean", &[(0x5C, "₩")]);
 
 pub static SLOVENIA: Language = (
     "Slovenian",
     &[
+        (0x40, "Ž"),
         (0x5B, "Š"),
         (0x5C, "Đ"),
         (0x5D, "Č"),
-        (0x7B, "ž"),
+        (0x5E, "Ć"),
+        (0x60, "ž"),
+        (0x7B, "š"),
         (0x7C, "đ"),
         (0x7D, "č"),
+        (0x7E, "ć"),
     ],
 );
 
-pub static CHINA: Language = ("Chinese", &[(0x5C, "¥")]);
+pub static CHINA: Language = ("Chinese", &[(0x24, "¥")]);
 
 pub static VIETNAM: Language = ("Vietnamese", &[(0x23, "đ")]);
 
-- 
2.43.0


From 12132013241aaefb51f9c253ed994e69f815e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 20/88] fix: code pages 850 and 865 had characters of other
 pages

---
 thermal_parser/src/decoder/codepage_2_pc850.rs | 2 +-
 thermal_parser/src/decoder/codepage_5_pc865.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/decoder/codepage_2_pc850.rs b/thermal_parser/src/decoder/codepage_2_pc850.rs
index a9d331e..f3ed403 100644
--- a/thermal_parser/src/decoder/codepage_2_pc850.rs
+++ b/thermal_parser/src/decoder/codepage_2_pc850.rs
@@ -7,7 +7,7 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", 
         "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ", 
         "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "»", 
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "╜", "╛", "┐", 
+        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐", 
         "└", "┴", "┬", "├", "─", "┼", "ã", "Ã", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", 
         "ð", "Ð", "Ê", "Ë", "È", "ı", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "¦", "Ì", "▀", 
         "Ó", "ß", "Ô", "Ò", "õ", "Õ", "µ", "þ", "Þ", "Ú", "Û", "Ù", "ý", "Ý", "¯", "´", 
diff --git a/thermal_parser/src/decoder/codepage_5_pc865.rs b/thermal_parser/src/decoder/codepage_5_pc865.rs
index e6a29b3..65f12b9 100644
--- a/thermal_parser/src/decoder/codepage_5_pc865.rs
+++ b/thermal_parser/src/decoder/codepage_5_pc865.rs
@@ -5,9 +5,9 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
     "PC865: Nordic",
     &[
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å",
-        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ",
-        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "¤",
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐",
+        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "₧", "ƒ",
+        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "⌐", "¬", "½", "¼", "¡", "«", "¤",
+        "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐",
         "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚","╔", "╩", "╦", "╠", "═", "╬", "╧",
         "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪","┘", "┌", "█", "▄", "▌", "▐", "▀",
         "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ","Θ", "Ω", "δ", "∞", "φ", "ε", "∩",
-- 
2.43.0


From 1ee40d8f6dcd171ad2ed70e91a0976c8d2f8f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 21/88] fix: motion units could become zero, were cut to 8
 bits, and zero did not restore the default

---
 thermal_parser/src/commands/set_motion_units.rs | 12 +++---------
 thermal_parser/src/context.rs                   |  4 ++--
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 2abdc8e..4ce08a3 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -15,15 +15,9 @@ impl CommandHandler for Handler {
         let x = *command.data.get(0).unwrap_or(&0u8);
         let y = *command.data.get(1).unwrap_or(&0u8);
 
-        if x == 0 || y == 0 {
-            return;
-        }
-
-        let h_motion_unit = context.graphics.dots_per_inch / x as u16;
-        let v_motion_unit = context.graphics.dots_per_inch / y as u16;
-
+        //Motion units are divisors, so they can never be zero
         if x > 0 {
-            context.graphics.h_motion_unit = h_motion_unit as u8;
+            context.graphics.h_motion_unit = (context.graphics.dots_per_inch / x as u16).max(1);
         } else {
             if let Some(default_context) = &context.default {
                 context.graphics.h_motion_unit = default_context.graphics.h_motion_unit;
@@ -31,7 +25,7 @@ impl CommandHandler for Handler {
         }
 
         if y > 0 {
-            context.graphics.v_motion_unit = v_motion_unit as u8;
+            context.graphics.v_motion_unit = (context.graphics.dots_per_inch / y as u16).max(1);
         } else {
             if let Some(default_context) = &context.default {
                 context.graphics.v_motion_unit = default_context.graphics.v_motion_unit;
diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 86f2d07..ac2dd5b 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -138,8 +138,8 @@ pub struct GraphicsContext {
     pub paper_area: RenderArea,
 
     pub dots_per_inch: u16,
-    pub v_motion_unit: u8,
-    pub h_motion_unit: u8,
+    pub v_motion_unit: u16,
+    pub h_motion_unit: u16,
     pub graphics_count: u16,
     pub stored_graphics: HashMap<ImageRef, GraphicsCommand>,
     pub buffer_graphics: Vec<GraphicsCommand>,
-- 
2.43.0


From decdb975d6009e3dea1fa640c4123ef2c01e9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 22/88] fix: reverse feeding lines overflowed the print
 position

---
 thermal_parser/src/context.rs    | 13 +++++++++++++
 thermal_renderer/src/renderer.rs |  6 +++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index ac2dd5b..5e60a8f 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -719,6 +719,19 @@ impl Context {
         self.offset_y(line_height * count);
     }
 
+    //Feed lines backwards, never beyond the start of the paper
+    pub fn reverse_newline(&mut self, count: u32) {
+        let offset = self.text.line_spacing as u32 * count;
+        self.reset_x();
+        if self.page_mode.enabled {
+            let y = &mut self.page_mode.render_area.y;
+            *y = y.saturating_sub(offset);
+        } else {
+            let y = &mut self.graphics.render_area.y;
+            *y = y.saturating_sub(offset);
+        }
+    }
+
     pub fn newline_for_spans(&mut self, spans: &Vec<TextSpan>) {
         let mut line_height = self.text.line_spacing as u32;
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4de2074..9064ce9 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -255,7 +255,11 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.output_buffer.push(output);
                     }
                     DeviceCommand::FeedLine(num_lines) => {
-                        self.context.newline(*num_lines as u32);
+                        if *num_lines < 0 {
+                            self.context.reverse_newline(num_lines.unsigned_abs() as u32);
+                        } else {
+                            self.context.newline(*num_lines as u32);
+                        }
                     }
                     DeviceCommand::Feed(num) => {
                         self.context.feed(*num as u32);
-- 
2.43.0


From f606e9ea7ab6658fb806d041c2cdf4af7c551661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 23/88] fix: feeding paper ignored the vertical motion unit

---
 thermal_parser/src/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 5e60a8f..3d7487f 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -708,8 +708,9 @@ impl Context {
         }
     }
 
+    //Uses motion units
     pub fn feed(&mut self, motion_units: u32) {
-        self.offset_y(motion_units);
+        self.offset_y(motion_units / self.graphics.v_motion_unit as u32);
         self.reset_x();
     }
 
-- 
2.43.0


From f05f855ffd83e784cd0762930d52731d2cbe80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 24/88] fix: absolute positions could leave the print area

---
 thermal_parser/src/context.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 3d7487f..53d1990 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -301,10 +301,10 @@ impl PageModeContext {
         let r = &mut self.render_area;
         let p = &mut self.page_area;
         match self.direction {
-            PrintDirection::TopLeft2Right => r.x = p.x + x, //g
-            PrintDirection::BottomRight2Left => r.x = (p.x + r.w).saturating_sub(x), //g
-            PrintDirection::TopRight2Bottom => r.y = r.h.saturating_sub(x), //?
-            PrintDirection::BottomLeft2Top => r.y = p.y + x, //g
+            PrintDirection::TopLeft2Right => r.x = p.x + x.min(r.w), //g
+            PrintDirection::BottomRight2Left => r.x = p.x + r.w.saturating_sub(x), //g
+            PrintDirection::TopRight2Bottom => r.y = p.y + r.h.saturating_sub(x), //g
+            PrintDirection::BottomLeft2Top => r.y = p.y + x.min(r.h), //g
         }
     }
 
@@ -313,9 +313,9 @@ impl PageModeContext {
         let r = &mut self.render_area;
         let p = &mut self.page_area;
         match self.direction {
-            PrintDirection::TopLeft2Right => r.y = p.y + y, //g
+            PrintDirection::TopLeft2Right => r.y = p.y + y.min(r.h), //g
             PrintDirection::BottomRight2Left => r.y = p.y + r.h.saturating_sub(y), //g
-            PrintDirection::TopRight2Bottom => r.x = p.x + y, //g
+            PrintDirection::TopRight2Bottom => r.x = p.x + y.min(r.w), //g
             PrintDirection::BottomLeft2Top => r.x = p.x + r.w.saturating_sub(y), //g
         }
     }
@@ -773,7 +773,7 @@ impl Context {
         if self.page_mode.enabled {
             self.page_mode.set_x_absolute(adj_x);
         } else {
-            self.graphics.render_area.x = adj_x;
+            self.graphics.render_area.x = adj_x.min(self.graphics.render_area.w);
         }
     }
 
-- 
2.43.0


From 711df9b4d2f871321c19bdf998fc626d024ca8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 25/88] fix: carriage return was printed as a character

---
 thermal_renderer/src/renderer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 9064ce9..55544d4 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -474,6 +474,11 @@ impl<'a, Output> Renderer<'a, Output> {
                 continue;
             }
 
+            //Lines are ended by line feeds, carriage returns don't print anything
+            if word.text.eq("\r") {
+                continue;
+            }
+
             //Tabs have a special behavior
             if word.text.eq("\t") {
                 let current_x = self.context.get_x();
-- 
2.43.0


From e40cd8f10a3b43098baa964efb61f2856bf4c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 26/88] fix: image colours with another alpha took blue from
 green

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 30150e9..c4c3cd7 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -34,7 +34,7 @@ impl RGBA {
         RGBA {
             r: self.r,
             g: self.g,
-            b: self.g,
+            b: self.b,
             a,
         }
     }
-- 
2.43.0


From e5048a2040932a064aced383d79ccef4f7efb331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 27/88] fix: column image data of the wrong length panicked

---
 thermal_parser/src/graphics.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index c4c3cd7..95b8247 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -166,6 +166,16 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
+        //Ensure there are enough bytes to construct the final image
+        let expected = (height as usize).div_ceil(8) * width as usize;
+        if data.len() != expected {
+            return GraphicsCommand::Error(format!(
+                "Not enough data to parse single color column image expected: {} got: {}",
+                expected,
+                data.len()
+            ));
+        }
+
         let raster = column_to_bytes(data, width, height);
         Self::image_from_raster_bytes_single_color(
             width, height, stretch, color, flow, &raster, false,
-- 
2.43.0


From 5c036ab25eabd316ab970f70eadfc7cf6802c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 28/88] fix: size of large raster images overflowed

---
 thermal_parser/src/graphics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 95b8247..3e28c03 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -256,10 +256,11 @@ impl GraphicsCommand {
         };
 
         //Ensure there are enough bytes to construct the final image
-        if unpacked.len() != (width * height) as usize {
+        let expected = width as usize * height as usize;
+        if unpacked.len() != expected {
             return GraphicsCommand::Error(format!(
                 "Not enough data to parse single color raster image expected: {} got: {}",
-                (width * height),
+                expected,
                 unpacked.len()
             ));
         }
-- 
2.43.0


From 926a383f82985c17ffd7d0aaecf74bc2ab350377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 29/88] fix: multi colour raster images whose width is no
 multiple of eight were rejected

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 3e28c03..ab74712 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -307,7 +307,7 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let bytes_per_layer = if process_as_bits {
-            ((width / 8) as usize * height as usize) + 1
+            ((width as usize).div_ceil(8) * height as usize) + 1
         } else {
             (width as usize * height as usize) + 1
         };
-- 
2.43.0


From 32da0066f361a970492caf00557344a6e26eb1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 30/88] fix: opaque image colours were blended again instead of
 replacing the pixel

---
 thermal_parser/src/graphics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index ab74712..db8116a 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -66,6 +66,7 @@ impl RGBA {
             self.g = color.g;
             self.b = color.b;
             self.a = 255;
+            return;
         }
 
         //Fully transparent, no change
-- 
2.43.0


From 81b796fa392ce9c9131e7912768ae0dbc459b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 31/88] fix: layers of different sizes were merged pixel by
 pixel

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index db8116a..2f1c513 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -373,7 +373,7 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
 
     //For the moment, we only merge if all images have the same width and height
     for merge_img in layers.iter().skip(1) {
-        if merge_img.w > image.w || merge_img.h > image.h {
+        if merge_img.w != image.w || merge_img.h != image.h {
             return Err("Can't merge image layers with different w and h".into());
         }
 
-- 
2.43.0


From 613298a0a72fffe4990212219f53ff427ff83d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 32/88] fix: raster bit image quadruple mode is 3 or 51

---
 thermal_parser/src/commands/raster_bit_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/raster_bit_image.rs b/thermal_parser/src/commands/raster_bit_image.rs
index caaa18b..cad3ca4 100644
--- a/thermal_parser/src/commands/raster_bit_image.rs
+++ b/thermal_parser/src/commands/raster_bit_image.rs
@@ -16,7 +16,7 @@ impl CommandHandler for Handler {
             0 | 48 => (1, 1),
             1 | 49 => (2, 1),
             2 | 50 => (1, 2),
-            3 | 52 => (2, 2),
+            3 | 51 => (2, 2),
             _ => (1, 1),
         };
 
-- 
2.43.0


From 0f5929cd76c4e5962b2372ef5f48eaa1f32844b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 33/88] fix: bit images had the dot density of another mode

---
 thermal_parser/src/commands/bit_image.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/bit_image.rs b/thermal_parser/src/commands/bit_image.rs
index 1668742..ecf5c9f 100644
--- a/thermal_parser/src/commands/bit_image.rs
+++ b/thermal_parser/src/commands/bit_image.rs
@@ -76,11 +76,14 @@ impl CommandHandler for Handler {
             self.capacity = (self.width * self.height) / 8;
         }
 
-        //Image is single density, which oddly enough needs to
-        //have its pixels stretched by 2 on the w and 3 on the h
-        if m == 0 || m == 32 {
-            self.stretch = (2, 3);
-        }
+        //Single density has half the dots of the paper horizontally,
+        //8 dot modes have a third of them vertically
+        self.stretch = match m {
+            0 => (2, 3),
+            1 => (1, 3),
+            32 => (2, 1),
+            _ => (1, 1),
+        };
 
         //After this, we accept data until the capacity is met
         self.accept_data = true;
-- 
2.43.0


From e4ccde291fbcae95ed197869f62939ce1cbdcb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 34/88] fix: buffer graphics without their whole header
 panicked

---
 .../src/subcommands/gs_graphics/store_buffer_graphics_column.rs | 2 +-
 .../src/subcommands/gs_graphics/store_buffer_graphics_raster.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 4779ffb..0f2b39b 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 171e4b3..759d0ba 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
-- 
2.43.0


From 49ce67009daa4c13bb5ca4f98ecb095fb3f1ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 35/88] fix: graphics defined in column format were read as
 raster format

---
 thermal_parser/src/graphics.rs                | 25 +++++++++++--------
 .../define_download_graphics_column.rs        |  4 +--
 .../gs_graphics/define_nv_graphics_column.rs  |  4 +--
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 2f1c513..a64664b 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -202,23 +202,26 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
-        let bytes_per_layer = ((width as usize / 8) * height as usize) + 1;
+        let bytes_per_layer = ((height as usize).div_ceil(8) * width as usize) + 1;
 
         //Ensure there are enough bytes to construct the final image
-        if data.len() != (bytes_per_layer + 1) * num_colors as usize {
-            return GraphicsCommand::Error("Not enough data to parse raster image".into());
+        if data.len() != bytes_per_layer * num_colors as usize {
+            return GraphicsCommand::Error(
+                "Not enough data to parse column image multi color".into(),
+            );
         }
 
         let mut image_layers = vec![];
 
-        for layer in 0..=num_colors as usize {
-            let layer_start = layer * bytes_per_layer;
-            let color_number = data[layer_start];
-            let color = render_colors.color_for_number(color_number);
-            let image_data = &data[layer_start..bytes_per_layer - 1];
-            let raster = column_to_bytes(image_data, width, height);
-            let layer = Self::image_from_raster_bytes_single_color(
-                width, height, stretch, color, flow, &raster, false,
+        for layer_data in data.chunks(bytes_per_layer) {
+            let color = render_colors.color_for_number(layer_data[0]);
+            let layer = Self::image_from_column_bytes_single_color(
+                width,
+                height,
+                stretch,
+                color,
+                flow,
+                &layer_data[1..],
             );
 
             match layer {
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 7b62fb4..9155f8e 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
@@ -21,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Ram;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index 2e4fccf..e74b3e9 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
@@ -21,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Disc;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
-- 
2.43.0


From e8ede6f3d5ae9d1171d59ce5b90fb844d12fc0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 36/88] fix: magnification of buffer graphics beyond two could
 exhaust memory

---
 .../src/subcommands/gs_graphics/store_buffer_graphics_column.rs | 2 +-
 .../src/subcommands/gs_graphics/store_buffer_graphics_raster.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 0f2b39b..b3b85e5 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -18,7 +18,7 @@ impl CommandHandler for Handler {
         let width = parse_u16(&command.data, 4) as u32;
         let height = parse_u16(&command.data, 6) as u32;
 
-        let stretch = (*bx, *by);
+        let stretch = ((*bx).clamp(1, 2), (*by).clamp(1, 2));
 
         let graphics = GraphicsCommand::image_from_column_bytes_single_color(
             width,
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 759d0ba..98c2860 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -17,7 +17,7 @@ impl CommandHandler for Handler {
         let c = command.data.get(3).unwrap();
         let width = parse_u16(&command.data, 4) as u32;
         let height = parse_u16(&command.data, 6) as u32;
-        let stretch = (*bx, *by);
+        let stretch = ((*bx).clamp(1, 2), (*by).clamp(1, 2));
 
         let graphics = GraphicsCommand::image_from_raster_bytes_single_color(
             width,
-- 
2.43.0


From d0be568bc069b0ffb36b30d86e0cd8a8c73f929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 37/88] fix: cut off raster images allocated memory for the
 whole size they declare

---
 thermal_parser/src/graphics.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index a64664b..4a61053 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -253,22 +253,26 @@ impl GraphicsCommand {
         data: &[u8],
         process_as_bits: bool,
     ) -> GraphicsCommand {
-        let unpacked = if process_as_bits {
-            unpack_bytes(data, width, height)
+        //Ensure there are enough bytes to construct the final image
+        let expected = if process_as_bits {
+            (width as usize).div_ceil(8) * height as usize
         } else {
-            data.to_vec()
+            width as usize * height as usize
         };
-
-        //Ensure there are enough bytes to construct the final image
-        let expected = width as usize * height as usize;
-        if unpacked.len() != expected {
+        if data.len() != expected {
             return GraphicsCommand::Error(format!(
                 "Not enough data to parse single color raster image expected: {} got: {}",
                 expected,
-                unpacked.len()
+                data.len()
             ));
         }
 
+        let unpacked = if process_as_bits {
+            unpack_bytes(data, width, height)
+        } else {
+            data.to_vec()
+        };
+
         let (w, h, raw_pixels) = if stretch.0 > 1 || stretch.1 > 1 {
             scale_pixels(&unpacked, width as u32, height as u32, stretch.0, stretch.1)
         } else {
-- 
2.43.0


From 4af5a8e79bf313b8bc0ab665b3884853f3fe8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 38/88] fix: UPC-A numbers without a UPC-E form lost digits

---
 thermal_parser/src/utils/barcodes/upce.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index eaafe46..6de5732 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -183,7 +183,7 @@ impl UPCE {
         // characters of the product code, followed by the third character of the
         // manufacturer code. The product code must be 00000 to 00999.
         if manu[2..] == [0, 0, 0] || manu[2..] == [1, 0, 0] || manu[2..] == [2, 0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00999.",
                 ));
@@ -199,9 +199,9 @@ impl UPCE {
         // the last two characters of the product code, followed by the digit "3".
         // The product code must be 00000 to 00099.
         if manu[3..] == [0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 {
                 return Err(String::from(
-                    "Invalid UPCA: Product code can not be greater than 00999.",
+                    "Invalid UPCA: Product code can not be greater than 00099.",
                 ));
             }
 
@@ -215,7 +215,7 @@ impl UPCE {
         // the last character of the product code, followed by the digit "4".
         // The product code must be 00000 to 00009.
         if manu[4..] == [0] {
-            if prod[0] != 0 && prod[1] != 0 && prod[2] != 0 && prod[3] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 || prod[3] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00009.",
                 ));
-- 
2.43.0


From 572756b9f06ed8f25e30e6bf3168c049357e148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 39/88] fix: UPC-E numbers with a wrong check digit were
 encoded

---
 thermal_parser/src/utils/barcodes/upce.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index 6de5732..302700c 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -90,7 +90,7 @@ impl UPCE {
 
     // Takes 7 or 8 bytes
     // When 7 bytes, the checksum is calculated after decompression
-    // When 8 bytes, we assume the checksum is correct and still make
+    // When 8 bytes, the checksum is compared and we still make
     // the round trip to upc_a and back to upc_e
     fn from_upc_e(upc_e: &[u8]) -> Result<UPCE, String> {
         if upc_e.len() < 7 || upc_e.len() > 8 {
@@ -176,6 +176,10 @@ impl UPCE {
         //Check digit
         let chck = upc_a[11];
 
+        if chck != calculate_checkdigit(&upc_a[..11]) {
+            return Err(String::from("Invalid UPCA: The check digit is wrong."));
+        }
+
         // Condition 1: Manufacturer code ends in 000, 100, or 200
 
         // If the manufacturer code ends in 000, 100, or 200, the UPC-E code consists
-- 
2.43.0


From 4c7ff3f7302cb282b6f04f9c614605fc4b4d4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 40/88] fix: EAN-13 barcodes ignored the check digit and
 panicked on text

---
 thermal_parser/src/commands/barcode.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 1d6e767..5db7444 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -190,8 +190,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = &data[..12];
-                return match EAN13::new(data_sp.to_string()) {
+                return match EAN13::new(data.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From 26dbcb61f4da86bd9f2ca560e37ebd3013efc761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 41/88] fix: UPC-A barcodes dropped their first digit

---
 thermal_parser/src/commands/barcode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 5db7444..2416dbf 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -202,7 +202,8 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::UpcA => {
-                return match UPCA::new(data.to_string()) {
+                //UPC-A is EAN-13 with a leading zero
+                return match UPCA::new(format!("0{}", data)) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From d1ff1a51b8644a8c027b66f209677b9eac7d06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 42/88] fix: CODE39 barcodes dropped asterisks inside the data

---
 thermal_parser/src/commands/barcode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 2416dbf..133d2e6 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -162,9 +162,10 @@ impl CommandHandler for BarcodeHandler {
                 //Data can be surrounded with * or not
                 //The data that was provided should be shown as
                 //it was provided.
-                //Code39 doesn't want asterisks in the data
+                //Code39 doesn't want the surrounding asterisks in the data
                 let text = data.to_string();
-                let data = text.replace("*", "");
+                let data = text.strip_prefix('*').unwrap_or(&text);
+                let data = data.strip_suffix('*').unwrap_or(data);
 
                 return match Code39::new(data) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
-- 
2.43.0


From fe6372db6965e5310b10792958bb7e8a29d179cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 43/88] fix: CODE93 brackets were encoded as shift characters

---
 thermal_parser/src/commands/barcode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 133d2e6..d39e6fd 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -179,6 +179,11 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Code93 => {
+                //These stand for the shift characters, not for themselves
+                if data.contains(['(', ')', '[']) {
+                    return self.decorate_error("Invalid character".to_string(), command);
+                }
+
                 return match Code93::new(data.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
-- 
2.43.0


From a810b831708de275d0823be41c4af3f55ea4e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 44/88] fix: CODE128 escapes and non ASCII data were encoded as
 other characters

---
 thermal_parser/src/commands/barcode.rs | 33 ++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index d39e6fd..6e8949d 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -128,12 +128,35 @@ impl CommandHandler for BarcodeHandler {
         match self.kind {
             BarcodeType::Code128 => {
                 //all code128 data has two bytes that set the type, we are converting this to the barcoders format
-                let adjusted_data = data
-                    .replace("{A", "À")
-                    .replace("{B", "Ɓ")
-                    .replace("{C", "Ć");
+                let mut adjusted_data = String::new();
+                let mut hri_data = String::new();
+                let mut chars = data.chars();
 
-                let hri_data: String = data.replace("{A", "").replace("{B", "").replace("{C", "");
+                while let Some(c) = chars.next() {
+                    if !c.is_ascii() {
+                        return self.decorate_error("Invalid character".to_string(), command);
+                    }
+
+                    if c != '{' {
+                        adjusted_data.push(c);
+                        hri_data.push(c);
+                        continue;
+                    }
+
+                    match chars.next() {
+                        Some('A') => adjusted_data.push('À'),
+                        Some('B') => adjusted_data.push('Ɓ'),
+                        Some('C') => adjusted_data.push('Ć'),
+                        Some('{') => {
+                            adjusted_data.push('{');
+                            hri_data.push('{');
+                        }
+                        _ => {
+                            return self
+                                .decorate_error("Unsupported function".to_string(), command)
+                        }
+                    }
+                }
 
                 return match Code128::new(adjusted_data.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
-- 
2.43.0


From 12769b380f71ef8fc239ce0b9c4e12eea0220af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 45/88] fix: the EAN-13 and UPC-A check digit is computed, as a
 wrong one was before, and as before no error

---
 thermal_parser/src/commands/barcode.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 6e8949d..805e332 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -219,7 +219,12 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                return match EAN13::new(data.to_string()) {
+                //Only the first 12 digits are encoded, the check digit is calculated
+                if data.bytes().any(|b| !b.is_ascii_digit()) {
+                    return self.decorate_error("Invalid character".to_string(), command);
+                }
+
+                return match EAN13::new(&data[..12]) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
@@ -231,8 +236,12 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::UpcA => {
-                //UPC-A is EAN-13 with a leading zero
-                return match UPCA::new(format!("0{}", data)) {
+                //UPC-A is EAN-13 with a leading zero, the check digit is calculated
+                if data.bytes().any(|b| !b.is_ascii_digit()) {
+                    return self.decorate_error("Invalid character".to_string(), command);
+                }
+
+                return match UPCA::new(format!("0{}", &data[..11])) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From 831d41b412d6457d65eb8e38649f7d2dde25fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 46/88] fix: long words were broken into lines wider than the
 paper

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 55544d4..a472ba8 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -503,7 +503,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 //Break the word into parts for super long words
                 let mut broken = word.break_apart(
                     (avail_width / word.character_width) as usize,
-                    (max_width / word.character_width).max(word.character_width) as usize,
+                    (max_width / word.character_width).max(1) as usize,
                 );
 
                 let broken_len = broken.len() - 1;
-- 
2.43.0


From 3914cce92c1c8aeb68ca1a17a02e55e967d2d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 47/88] fix: justified lines with tabs or an offset start left
 the paper or overflowed

---
 thermal_renderer/src/renderer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index a472ba8..b94d563 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -561,13 +561,18 @@ impl<'a, Output> Renderer<'a, Output> {
             let mut line_offset = 0;
 
             for span in line {
-                line_width += span.get_width();
+                //Spans can start at an offset, so the width is where the last one ends
+                if let Some(dimensions) = &span.dimensions {
+                    let base_x = self.context.get_base_x();
+                    let span_end = dimensions.x.saturating_sub(base_x) + dimensions.w;
+                    line_width = line_width.max(span_end);
+                }
                 max_height = max_height.max(span.character_height);
             }
 
             match justification {
                 TextJustify::Right => {
-                    line_offset = max_width - line_width;
+                    line_offset = max_width.saturating_sub(line_width);
                 }
                 TextJustify::Center => {
                     if line_width < max_width {
-- 
2.43.0


From a8cf6bff486bd9a750f85dff41ef3596a28773b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 48/88] fix: tabs at a tab stop did not advance and ignored the
 page mode area

---
 thermal_renderer/src/renderer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index b94d563..1a05962 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -481,10 +481,10 @@ impl<'a, Output> Renderer<'a, Output> {
 
             //Tabs have a special behavior
             if word.text.eq("\t") {
-                let current_x = self.context.get_x();
+                let current_x = self.context.get_x() - self.context.get_base_x();
                 let mut current_tab_pos = 0;
                 for tab_len in &self.context.text.tabs {
-                    if current_tab_pos >= current_x {
+                    if current_tab_pos > current_x {
                         self.context.set_x(current_tab_pos);
                         break;
                     }
-- 
2.43.0


From eae6c2738f3ef1cf91eaf3cd835cc0edad7b31a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 49/88] fix: pending text used tabs that were set after it

---
 thermal_parser/src/commands/set_tab_len.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/set_tab_len.rs b/thermal_parser/src/commands/set_tab_len.rs
index b9a591b..7edd069 100644
--- a/thermal_parser/src/commands/set_tab_len.rs
+++ b/thermal_parser/src/commands/set_tab_len.rs
@@ -27,7 +27,7 @@ pub fn new() -> Command {
     Command::new(
         "Set Tab Len",
         vec![ESC, 'D' as u8],
-        CommandType::TextStyle,
+        CommandType::ContextControl,
         DataType::Double,
         Box::new(Handler {}),
     )
-- 
2.43.0


From 6ff2c3f1358f0809156afc1d722c8517f09286bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 50/88] fix: 2D symbols that do not fit were skewed and text
 after a symbol overlapped it

---
 thermal_renderer/src/renderer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 1a05962..266a815 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -316,7 +316,7 @@ impl<'a, Output> Renderer<'a, Output> {
         context.set_x(origin_x);
 
         for p in &code_2d.points {
-            if i != 1 && i % code_2d.width == 1 {
+            if i != 1 && (i - 1) % code_2d.width == 0 {
                 context.set_x(origin_x);
                 context.offset_y(code_2d.point_height as u32);
             }
@@ -324,6 +324,7 @@ impl<'a, Output> Renderer<'a, Output> {
             if *p > 0 {
                 //Prevent rendering outside of print area
                 if context.get_available_width() < code_2d.point_width as u32 {
+                    i += 1;
                     continue;
                 }
 
@@ -339,6 +340,7 @@ impl<'a, Output> Renderer<'a, Output> {
         }
 
         context.reset_x();
+        context.offset_y(code_2d.point_height as u32);
 
         self.renderer.render_graphics(context, &graphics);
     }
-- 
2.43.0


From 962c28dbd1f14f78a4374f262d2505e28bba23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 51/88] fix: page mode was not ended by select standard mode

---
 thermal_parser/src/commands/select_standard_mode.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/select_standard_mode.rs b/thermal_parser/src/commands/select_standard_mode.rs
index dd57a34..df21849 100644
--- a/thermal_parser/src/commands/select_standard_mode.rs
+++ b/thermal_parser/src/commands/select_standard_mode.rs
@@ -11,10 +11,6 @@ use crate::{command::*, constants::*};
 struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, context: &mut Context) {
-        context.page_mode.enabled = false;
-    }
-
     fn get_device_command(
         &self,
         _command: &Command,
@@ -31,7 +27,7 @@ pub fn new() -> Command {
     Command::new(
         "Select standard mode",
         vec![ESC, 'S' as u8],
-        CommandType::Context,
+        CommandType::Control,
         DataType::Empty,
         Box::new(Handler {}),
     )
-- 
2.43.0


From b1042619ec321f9dba601e075f402483e7839aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 52/88] fix: page area and direction outside of page mode
 changed the page again

---
 thermal_parser/src/commands/page_mode_print_area.rs      | 5 ++++-
 thermal_parser/src/commands/page_mode_print_direction.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/page_mode_print_area.rs b/thermal_parser/src/commands/page_mode_print_area.rs
index 166025b..6186644 100644
--- a/thermal_parser/src/commands/page_mode_print_area.rs
+++ b/thermal_parser/src/commands/page_mode_print_area.rs
@@ -65,8 +65,11 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
+        if !context.page_mode.enabled {
+            return None;
+        }
         Some(vec![DeviceCommand::ChangePageArea])
     }
 
diff --git a/thermal_parser/src/commands/page_mode_print_direction.rs b/thermal_parser/src/commands/page_mode_print_direction.rs
index 583e202..cafc85e 100644
--- a/thermal_parser/src/commands/page_mode_print_direction.rs
+++ b/thermal_parser/src/commands/page_mode_print_direction.rs
@@ -93,8 +93,11 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
+        if !context.page_mode.enabled {
+            return None;
+        }
         Some(vec![DeviceCommand::ChangePageModeDirection])
     }
 }
-- 
2.43.0


From 6c99e8aed89c1a1bc3fa7df2fdbb94c12ddc781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 53/88] fix: images were cropped at the page bottom by their
 width

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5f4c108..67cb24c 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -500,7 +500,7 @@ impl ThermalImage {
         let mut cur_y = y;
 
         //Bad pixel data
-        if width * height < pixels.len() as u32 {
+        if width * height != pixels.len() as u32 {
             self.errors
                 .push("Bad pixel data, not enough bytes".to_string());
             return false;
@@ -526,7 +526,7 @@ impl ThermalImage {
 
         //Width can never grow, height can grow is auto_grow = true
         let needs_crop_w = x + width > self.width;
-        let needs_crop_h = !self.auto_grow && (y + width > self.get_height());
+        let needs_crop_h = !self.auto_grow && (y + height > self.get_height());
 
         let (final_width, final_height, final_pixels) = if needs_crop_w || needs_crop_h {
             let max_width = self.width - x;
-- 
2.43.0


From 72a704548713dd76c306cb4e0bc56fa19c56322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 54/88] fix: flipping upside down text grew the page

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 67cb24c..2bf99d0 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -424,6 +424,10 @@ impl ThermalImage {
             return;
         };
 
+        if !self.auto_grow && y + height > self.get_height() {
+            return;
+        }
+
         self.expand_to_height(y + height);
 
         // Vector to store rows
-- 
2.43.0


From 1c4e85e12a68b0af75a2d4f776bddd1a6902d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 55/88] fix: debug border of an empty image overflowed

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 2bf99d0..c975e9d 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -187,6 +187,10 @@ impl ThermalImage {
     }
 
     pub fn draw_border(bytes: &mut Vec<RGBA>, width: u32, height: u32, color: &RGBA) {
+        if width == 0 || height == 0 {
+            return;
+        }
+
         let bot_left = ((height - 1) * width) as usize;
 
         // Top and bottom border
-- 
2.43.0


From e96af121647d79817617dfcaf9b888f246bd9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 56/88] fix: printed text was not escaped in html output

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 9bc6f3d..74f7925 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -220,11 +220,19 @@ fn span_to_html(
             x_offset + x,
             baseline_offset,
             class_list.join(" "),
-            text.text
+            escape_html(&text.text)
         ),
     )
 }
 
+fn escape_html(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('"', "&quot;")
+        .replace('\'', "&#39;")
+}
+
 fn color_to_class(color: RGBA, render_colors: &RenderColors, fg: bool) -> &str {
     //Most common color by far
     if color == render_colors.color_1 {
-- 
2.43.0


From f3d958779a94b054b751d8220c1b54bffb2cd43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 57/88] fix: printed text that looks like a template
 placeholder was replaced in html output

---
 thermal_renderer/src/html_renderer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 99bd006..4b3e4d8 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -259,7 +259,6 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 "{{color-3}}",
                 &*context.graphics.render_colors.color_3.as_hex(),
             )
-            .replace("{{content}}", &self.content.join(""))
             .replace(
                 "{{receipt-style}}",
                 &*format!(
@@ -269,7 +268,8 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     context.graphics.paper_area.y,
                     padding_bottom
                 ),
-            );
+            )
+            .replace("{{content}}", &self.content.join(""));
 
         ReceiptHtml { content }
     }
-- 
2.43.0


From f8be0d2b851f1d3be087643fbad0d9ff551de478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 58/88] fix: empty images panicked in html output

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 74f7925..d0da1e0 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -7,6 +7,11 @@ use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
 use thermal_parser::text::TextSpan;
 
 pub fn encode_html_image(image: &Image) -> HtmlRow {
+    // Images without pixels can't be encoded
+    if image.w == 0 || image.h == 0 {
+        return HtmlRow::empty();
+    }
+
     // Create a buffer to hold the PNG image data
     let mut png_data: Vec<u8> = Vec::new();
     let image_data: Vec<u8> = image.as_rgba_u8();
-- 
2.43.0


From 3a08014185451c5cb6c3b72c632b084c488c388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 59/88] fix: empty rows moved the following html rows down

---
 thermal_renderer/src/html_renderer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 4b3e4d8..70b7fdf 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -81,6 +81,10 @@ impl HtmlRenderer {
     }
 
     fn push_row(&mut self, row: HtmlRow) {
+        if row.content.is_empty() && row.height == 0 {
+            return;
+        }
+
         self.content.push(format!(
             "<p style='height: {}px; margin-top: {}px'>{}</p>",
             row.height,
-- 
2.43.0


From 879e0a31abbdd0f5aa1b28693f041b7817148c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 60/88] fix: check digit of long odd ITF data overflowed

---
 thermal_parser/src/commands/barcode.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 805e332..bd747c0 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -277,7 +277,19 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Itf => {
-                return match TF::interleaved(data.to_string()) {
+                let mut digits = data.to_string();
+
+                //The check digit of odd length data is calculated here, barcoders overflows with long data
+                if data.len() % 2 == 1 && data.bytes().all(|b| b.is_ascii_digit()) {
+                    let sum: usize = data
+                        .bytes()
+                        .enumerate()
+                        .map(|(i, b)| (b - b'0') as usize * if i % 2 == 0 { 3 } else { 1 })
+                        .sum();
+                    digits.push((b'0' + ((10 - sum % 10) % 10) as u8) as char);
+                }
+
+                return match TF::interleaved(digits) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From b7d2253f6d4f6f0075b4cb6fef4cf00353ac87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 61/88] fix: next line overlapped tall text that was followed
 by a setting command

---
 thermal_renderer/src/renderer.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 266a815..7a54b56 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -70,6 +70,8 @@ pub struct Renderer<'a, Output> {
     output_buffer: Vec<Output>,
     error_buffer: Vec<RenderError>,
     span_buffer: Vec<TextSpan>,
+    //Spans of the unfinished line that are already rendered
+    open_line: Vec<TextSpan>,
     context: Context,
     debug_profile: DebugProfile,
 }
@@ -83,6 +85,7 @@ impl<'a, Output> Renderer<'a, Output> {
             renderer,
             context: Context::new(),
             span_buffer: vec![],
+            open_line: vec![],
             error_buffer: vec![],
             output_buffer: vec![],
             debug_profile,
@@ -437,6 +440,15 @@ impl<'a, Output> Renderer<'a, Output> {
         self.span_buffer.push(text);
     }
 
+    //Advances by the height of the line, including what was already rendered of it
+    fn finish_line(&mut self, current_line: &Vec<TextSpan>) {
+        let y = self.context.get_y();
+        let mut line = mem::take(&mut self.open_line);
+        line.retain(|span| span.dimensions.as_ref().map_or(false, |d| d.y == y));
+        line.extend(current_line.iter().cloned());
+        self.context.newline_for_spans(&line);
+    }
+
     fn process_text(&mut self) {
         if self.span_buffer.is_empty() {
             return;
@@ -464,7 +476,7 @@ impl<'a, Output> Renderer<'a, Output> {
             //Newlines advance y and reset x
             if word.text.eq("\n") {
                 //Advance line height
-                self.context.newline_for_spans(&current_line);
+                self.finish_line(&current_line);
 
                 //Swap current line
                 let mut finished_line = vec![];
@@ -521,7 +533,7 @@ impl<'a, Output> Renderer<'a, Output> {
                         //Every other line we assume will fit into a line
 
                         //Advance line
-                        self.context.newline_for_spans(&current_line);
+                        self.finish_line(&current_line);
 
                         //Swap line
                         let mut finished_line = vec![];
@@ -532,7 +544,7 @@ impl<'a, Output> Renderer<'a, Output> {
             } else {
                 //Close out previous line
                 let mut finished_line = vec![];
-                self.context.newline_for_spans(&current_line);
+                self.finish_line(&current_line);
                 mem::swap(&mut current_line, &mut finished_line);
                 lines.push(finished_line);
 
@@ -547,6 +559,7 @@ impl<'a, Output> Renderer<'a, Output> {
         }
 
         if !current_line.is_empty() {
+            self.open_line.append(&mut current_line.clone());
             lines.push(current_line);
         }
 
-- 
2.43.0


From 5aaa132b630e6844a8a37ae5b1194c6aa086e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 62/88] fix: tall human readable text above a barcode was
 overlapped by the bars

---
 thermal_renderer/src/renderer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 7a54b56..c576fbc 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -355,7 +355,7 @@ impl<'a, Output> Renderer<'a, Output> {
             HumanReadableInterface::Above | HumanReadableInterface::Both => {
                 self.collect_text(barcode.text.clone());
                 self.process_text();
-                self.context.newline(1);
+                self.context.newline_for_spans(&vec![barcode.text.clone()]);
             }
             _ => {}
         }
@@ -393,7 +393,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 self.context.offset_y(8);
                 self.collect_text(barcode.text.clone());
                 self.process_text();
-                self.context.newline(1);
+                self.context.newline_for_spans(&vec![barcode.text.clone()]);
             }
             _ => {}
         }
-- 
2.43.0


From 9f0291b06e3ab83b290bfc568a8bf10ea5f8ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 63/88] fix: a long word that starts on a new line added an
 empty span to the line before

---
 thermal_renderer/src/renderer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index c576fbc..bcbdfd1 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -523,8 +523,10 @@ impl<'a, Output> Renderer<'a, Output> {
                 let broken_len = broken.len() - 1;
                 for (i, broke) in broken.iter_mut().enumerate() {
                     let last = broken_len == i;
-                    broke.get_dimensions(&self.context);
-                    current_line.push(broke.clone()); //ugg
+                    if !broke.text.is_empty() {
+                        broke.get_dimensions(&self.context);
+                        current_line.push(broke.clone()); //ugg
+                    }
 
                     if last {
                         //Last word doesn't geta a forced newline
-- 
2.43.0


From ea1378ced5460cde7aaadd1bf711885be431bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 64/88] fix: justified line with a setting command inside was
 printed over itself

---
 thermal_renderer/src/renderer.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index bcbdfd1..276d758 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -72,6 +72,8 @@ pub struct Renderer<'a, Output> {
     span_buffer: Vec<TextSpan>,
     //Spans of the unfinished line that are already rendered
     open_line: Vec<TextSpan>,
+    //Spans of the unfinished line that are placed but not rendered yet
+    pending_line: Vec<TextSpan>,
     context: Context,
     debug_profile: DebugProfile,
 }
@@ -86,6 +88,7 @@ impl<'a, Output> Renderer<'a, Output> {
             context: Context::new(),
             span_buffer: vec![],
             open_line: vec![],
+            pending_line: vec![],
             error_buffer: vec![],
             output_buffer: vec![],
             debug_profile,
@@ -192,7 +195,8 @@ impl<'a, Output> Renderer<'a, Output> {
                 self.process_device_commands(device_commands);
             }
             CommandType::Context => {
-                self.process_text();
+                //Text has to be placed with the previous settings, but its line can go on
+                self.layout_text(true);
                 command.handler.apply_context(command, &mut self.context);
             }
 
@@ -450,7 +454,11 @@ impl<'a, Output> Renderer<'a, Output> {
     }
 
     fn process_text(&mut self) {
-        if self.span_buffer.is_empty() {
+        self.layout_text(false);
+    }
+
+    fn layout_text(&mut self, keep_line_open: bool) {
+        if self.span_buffer.is_empty() && (keep_line_open || self.pending_line.is_empty()) {
             return;
         }
 
@@ -464,7 +472,17 @@ impl<'a, Output> Renderer<'a, Output> {
         self.span_buffer.clear();
 
         let mut lines: Vec<Vec<TextSpan>> = vec![];
-        let mut current_line: Vec<TextSpan> = vec![];
+        let mut current_line: Vec<TextSpan> = mem::take(&mut self.pending_line);
+
+        //The pending line doesn't go on at another position of the paper
+        let y = self.context.get_y();
+        if current_line
+            .iter()
+            .any(|span| span.dimensions.as_ref().map_or(false, |d| d.y != y))
+        {
+            lines.push(mem::take(&mut current_line));
+        }
+
         let max_width = self.context.get_width();
         words.reverse();
 
@@ -560,7 +578,9 @@ impl<'a, Output> Renderer<'a, Output> {
             }
         }
 
-        if !current_line.is_empty() {
+        if keep_line_open {
+            self.pending_line = current_line;
+        } else if !current_line.is_empty() {
             self.open_line.append(&mut current_line.clone());
             lines.push(current_line);
         }
-- 
2.43.0


From 4987ad060f848cb748cb08f4e78d3d3e5be1eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 65/88] fix: tab settings inside a justified line printed the
 line over itself

---
 thermal_parser/src/commands/set_tab_len.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/commands/set_tab_len.rs b/thermal_parser/src/commands/set_tab_len.rs
index 7edd069..65ccc80 100644
--- a/thermal_parser/src/commands/set_tab_len.rs
+++ b/thermal_parser/src/commands/set_tab_len.rs
@@ -4,11 +4,7 @@ use crate::{command::*, constants::*, context::*};
 struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_device_command(
-        &self,
-        command: &Command,
-        context: &Context,
-    ) -> Option<Vec<DeviceCommand>> {
+    fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command
             .data
             .get(0)
@@ -19,7 +15,7 @@ impl CommandHandler for Handler {
             .get(1)
             .unwrap_or(&context.default.as_ref().unwrap().text.line_spacing);
 
-        Some(vec![DeviceCommand::ChangeTabs(n, k)])
+        context.set_tab_len(n, k);
     }
 }
 
@@ -27,7 +23,7 @@ pub fn new() -> Command {
     Command::new(
         "Set Tab Len",
         vec![ESC, 'D' as u8],
-        CommandType::ContextControl,
+        CommandType::Context,
         DataType::Double,
         Box::new(Handler {}),
     )
-- 
2.43.0


From 0e70e6d7096bfffff831f2dc0f9321e864262464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 66/88] fix: page areas were misplaced when printing from the
 bottom right or the top right

---
 thermal_parser/src/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 53d1990..14fb26a 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -368,7 +368,7 @@ impl PageModeContext {
 
         r.w = l.w;
         r.h = l.h;
-        r.y = l.y;
+        r.y = p.h.saturating_sub(l.y + l.h);
         r.x = p.w.saturating_sub(l.x + l.w);
     }
 
@@ -379,7 +379,7 @@ impl PageModeContext {
 
         r.w = l.h;
         r.h = l.w;
-        r.x = p.w.saturating_sub(l.y + l.h);
+        r.x = l.y;
         r.y = p.h.saturating_sub(l.x + l.w);
     }
 
-- 
2.43.0


From db25adc4dc1a2c95f5648d51c141a8639e6c505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 67/88] fix: pages grew at the wrong sides and moved what was
 printed on them

---
 thermal_parser/src/context.rs                 | 18 ++++++----
 thermal_renderer/src/html_renderer/mod.rs     | 10 ++----
 thermal_renderer/src/image_renderer/mod.rs    | 10 ++----
 .../src/image_renderer/thermal_image.rs       | 36 ++++++++++++++++++-
 4 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 14fb26a..194752d 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -263,6 +263,18 @@ impl PageModeContext {
             mem::swap(&mut self.page_area.w, &mut self.page_area.h);
         }
 
+        //The page grows to contain the area, however it is rotated
+        let area_width = self.logical_area.x + self.logical_area.w;
+        let area_height = self.logical_area.y + self.logical_area.h;
+
+        if should_swap {
+            self.page_area.w = self.page_area.w.max(area_height);
+            self.page_area.h = self.page_area.h.max(area_width);
+        } else {
+            self.page_area.w = self.page_area.w.max(area_width);
+            self.page_area.h = self.page_area.h.max(area_height);
+        }
+
         //Translate logical area to render area
         match self.direction {
             PrintDirection::TopLeft2Right => self.translate_top_left_to_right(),
@@ -275,12 +287,6 @@ impl PageModeContext {
         self.page_area.x = self.render_area.x;
         self.page_area.y = self.render_area.y;
 
-        let render_max_width = self.render_area.x + self.render_area.w;
-        let render_max_height = self.render_area.y + self.render_area.h;
-
-        self.page_area.w = render_max_width.max(self.page_area.w);
-        self.page_area.h = render_max_height.max(self.page_area.h);
-
         (rotation, self.page_area.w, self.page_area.h)
     }
 
diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 70b7fdf..c7b8f4c 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -131,7 +131,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
@@ -145,12 +145,8 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
             _ => {}
         }
 
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width)
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height)
-        }
+        self.page_image
+            .expand_page(width, height, &context.page_mode.direction);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index fc8d565..2bc0a3d 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -90,7 +90,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
@@ -104,12 +104,8 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
             _ => {}
         }
 
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width);
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height);
-        }
+        self.page_image
+            .expand_page(width, height, &context.page_mode.direction);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index c975e9d..d70540e 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -4,7 +4,7 @@ extern crate png;
 use crate::renderer::DebugProfile;
 use fontdue::layout::CharacterData;
 use std::rc::Rc;
-use thermal_parser::context::Font;
+use thermal_parser::context::{Font, PrintDirection};
 use thermal_parser::graphics::{Image, Rectangle, RGBA};
 use thermal_parser::text::TextSpan;
 
@@ -676,6 +676,40 @@ impl ThermalImage {
         self.width = new_width;
     }
 
+    /// Grow a page that is rotated for a print direction. Unrotated, a page
+    /// grows to the right and to the bottom, pixels keep their place.
+    pub fn expand_page(&mut self, width: u32, height: u32, direction: &PrintDirection) {
+        let old_width = self.width;
+        let old_height = self.get_height();
+        let new_width = width.max(old_width);
+        let new_height = height.max(old_height);
+
+        if new_width == old_width && new_height == old_height {
+            return;
+        }
+
+        let (at_left, at_top) = match direction {
+            PrintDirection::TopLeft2Right => (false, false),
+            PrintDirection::BottomLeft2Top => (true, false),
+            PrintDirection::BottomRight2Left => (true, true),
+            PrintDirection::TopRight2Bottom => (false, true),
+        };
+        let left = if at_left { new_width - old_width } else { 0 };
+        let top = if at_top { new_height - old_height } else { 0 };
+
+        let mut bytes = vec![self.paper_color; new_width as usize * new_height as usize];
+
+        for y in 0..old_height {
+            let from = y as usize * old_width as usize;
+            let to = (y + top) as usize * new_width as usize + left as usize;
+            bytes[to..to + old_width as usize]
+                .copy_from_slice(&self.bytes[from..from + old_width as usize]);
+        }
+
+        self.bytes = bytes;
+        self.width = new_width;
+    }
+
     pub fn consume_rgb_u8(&mut self) -> (u32, u32, Vec<u8>) {
         let w = self.width;
         let h = self.get_height();
-- 
2.43.0


From 9b47eff988290cee3d18c03f7349daf3ac67e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 68/88] fix: a rotated page advanced the paper by its width

---
 thermal_parser/src/context.rs    | 9 +++++++++
 thermal_renderer/src/renderer.rs | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 194752d..8cce1a9 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -290,6 +290,15 @@ impl PageModeContext {
         (rotation, self.page_area.w, self.page_area.h)
     }
 
+    //Height of the page when it is not rotated for a print direction
+    pub fn standard_page_height(&self) -> u32 {
+        if PageModeContext::should_dimension_swap(&self.direction) {
+            self.page_area.w
+        } else {
+            self.page_area.h
+        }
+    }
+
     pub fn set_x(&mut self, x: u32) {
         let r = &mut self.render_area;
         let p = &mut self.page_area;
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 276d758..826e135 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -286,7 +286,8 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.renderer.render_page(&mut self.context);
 
                         //Advance the y since a page is being rendered
-                        self.context.graphics.render_area.y += self.context.page_mode.page_area.h;
+                        self.context.graphics.render_area.y +=
+                            self.context.page_mode.standard_page_height();
                         self.context.graphics.render_area.x = 0;
                     }
                     DeviceCommand::ChangePageArea => {
-- 
2.43.0


From ffcd64f7a1e4fb3310b87a6d230a06815ecae310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 69/88] fix: page areas were not clipped to the paper width and
 could exhaust memory

---
 thermal_parser/src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 8cce1a9..987d798 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -819,6 +819,10 @@ impl Context {
             .h
             .saturating_div(self.graphics.v_motion_unit as u32);
 
+        //Areas can't go beyond the physical print area
+        adj_area.x = adj_area.x.min(self.graphics.render_area.w);
+        adj_area.w = adj_area.w.min(self.graphics.render_area.w - adj_area.x);
+
         self.page_mode.logical_area = adj_area;
     }
 
-- 
2.43.0


From d4827e424d3d844b866810775c2071f52b8e01bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 70/88] fix: the next page in page mode had the size of the
 page before but no pixels

---
 thermal_renderer/src/renderer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 826e135..9ef2ec4 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -277,6 +277,15 @@ impl<'a, Output> Renderer<'a, Output> {
                     DeviceCommand::BeginPageMode => {
                         self.context.page_mode.enabled = true;
                         self.renderer.page_begin(&mut self.context);
+
+                        //A new page is empty, but the area and direction are kept
+                        self.context.page_mode.page_area.w = 0;
+                        self.context.page_mode.page_area.h = 0;
+                        self.context.page_mode.previous_direction =
+                            self.context.page_mode.direction.clone();
+                        let (rotation, width, height) = self.context.page_mode.apply_logical_area();
+                        self.renderer
+                            .page_area_changed(&mut self.context, rotation, width, height);
                     }
                     DeviceCommand::EndPageMode => {
                         self.renderer.page_end(&mut self.context);
-- 
2.43.0


From a53ea9c210caf000a143a06c38b2e6cbfe27094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 71/88] fix: selecting page mode in page mode erased the page

---
 thermal_parser/src/commands/set_page_mode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/set_page_mode.rs b/thermal_parser/src/commands/set_page_mode.rs
index 4687244..a35d21f 100644
--- a/thermal_parser/src/commands/set_page_mode.rs
+++ b/thermal_parser/src/commands/set_page_mode.rs
@@ -9,8 +9,11 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         _command: &Command,
-        _context: &Context,
+        context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
+        if context.page_mode.enabled {
+            return None;
+        }
         Some(vec![BeginPageMode])
     }
 }
-- 
2.43.0


From 517b6172d26bda576b49ccb410a9065d3ba87ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 72/88] fix: content after a form feed was lost

---
 thermal_parser/src/commands/formfeed.rs | 7 ++++---
 thermal_renderer/src/renderer.rs        | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/commands/formfeed.rs b/thermal_parser/src/commands/formfeed.rs
index 9972471..d05dca5 100644
--- a/thermal_parser/src/commands/formfeed.rs
+++ b/thermal_parser/src/commands/formfeed.rs
@@ -1,11 +1,12 @@
-use crate::command::DeviceCommand::{EndPageMode, EndPrint, PrintPageMode};
+use crate::command::DeviceCommand::{BeginPrint, EndPageMode, EndPrint, PrintPageMode};
 use crate::{command::*, constants::*, context::*};
 
 #[derive(Clone)]
 struct Handler;
 
 impl CommandHandler for Handler {
-    //! Ends page mode if it is enabled. Otherwise, ends the print job.
+    //! Ends page mode if it is enabled. Otherwise, ends the print job
+    //! and begins the next one.
     fn get_device_command(
         &self,
         _command: &Command,
@@ -14,7 +15,7 @@ impl CommandHandler for Handler {
         if context.page_mode.enabled {
             return Some(vec![EndPageMode, PrintPageMode]);
         }
-        Some(vec![EndPrint])
+        Some(vec![EndPrint, BeginPrint])
     }
 }
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 9ef2ec4..d9cb5cd 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -260,6 +260,14 @@ impl<'a, Output> Renderer<'a, Output> {
 
                         let output = self.renderer.end_render(&mut self.context);
                         self.output_buffer.push(output);
+
+                        //The next print starts on new paper
+                        if let Some(default) = &self.context.default {
+                            self.context.graphics.render_area.x =
+                                default.graphics.render_area.x;
+                            self.context.graphics.render_area.y =
+                                default.graphics.render_area.y;
+                        }
                     }
                     DeviceCommand::FeedLine(num_lines) => {
                         if *num_lines < 0 {
-- 
2.43.0


From eae7a1dc6d90155f56019a315eec61314fb9840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 73/88] fix: a quoted string directly after another token
 dropped that token

ESC"@" was read as the string alone.
---
 thermal_parser/src/thermal_file.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index a60fbe5..b7ec771 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -158,6 +158,11 @@ pub fn parse_tokens(line: &str) -> Vec<&str> {
             gobble_quoted = true;
             esc_quoted = false;
 
+            //The quote ends a token before it
+            if span.0 != span.1 {
+                tokens.push(&line[span.0..span.1])
+            }
+
             //Here we include the first quote
             span.0 = span.1;
             span.1 += 1;
-- 
2.43.0


From 3fee453b506809e76633f80f2ef1068cd36d1bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 74/88] fix: converting text to .thermal lost quotes, control
 and non UTF-8 bytes

Tabs and carriage returns were converted to empty strings, quotes and
backslashes were not escaped, line breaks ended the string and bytes that
are not UTF-8 were replaced.
---
 thermal_parser/src/thermal_file.rs | 41 ++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index b7ec771..4d0ca27 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -219,8 +219,9 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
             return "LF \n".to_string();
         }
 
-        let text = String::from_utf8_lossy(data.as_slice());
-        return format!("\"{}\"\n", text);
+        let mut text = explain_command(&commands);
+        text.push_str(&explain_text(&data));
+        return format!("{}\n", text);
     } else if cmd.kind == CommandType::Unknown {
         return format!("'// Unknown command \n {}\n\n", explain_unknown(&data)).to_string();
     }
@@ -263,6 +264,8 @@ pub fn try_const(byte: &u8) -> String {
         0x1B => "ESC".to_string(),
         0x1D => "GS".to_string(),
         0x1C => "FS".to_string(),
+        0x09 => "HT".to_string(),
+        0x0A => "LF".to_string(),
         0x0C => "FF".to_string(),
         0x00 => "NUL".to_string(),
         0x0D => "CR".to_string(),
@@ -295,6 +298,40 @@ pub fn try_string(byte: &u8) -> String {
     }
 }
 
+/// Text as quoted strings, bytes that can't be quoted are added as hex
+fn explain_text(data: &[u8]) -> String {
+    let mut tokens = vec![];
+
+    for chunk in data.utf8_chunks() {
+        let mut quoted = String::new();
+
+        for c in chunk.valid().chars() {
+            if c.is_ascii_control() {
+                if !quoted.is_empty() {
+                    tokens.push(format!("\"{}\"", quoted));
+                    quoted.clear();
+                }
+                tokens.push(format!("0x{:02X}", c as u8));
+                continue;
+            }
+            if c == '"' || c == '\\' {
+                quoted.push('\\');
+            }
+            quoted.push(c);
+        }
+
+        if !quoted.is_empty() {
+            tokens.push(format!("\"{}\"", quoted));
+        }
+
+        for b in chunk.invalid() {
+            tokens.push(format!("0x{:02X}", b));
+        }
+    }
+
+    tokens.join(" ")
+}
+
 fn explain_unknown(data: &Vec<u8>) -> String {
     if data.len() > 1 {
         let first = &data[0];
-- 
2.43.0


From ef840a245f56affbcf613e950d18048717644db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 75/88] fix: pixel data that does not match a large size
 overflowed

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index d70540e..223cd86 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -508,7 +508,7 @@ impl ThermalImage {
         let mut cur_y = y;
 
         //Bad pixel data
-        if width * height != pixels.len() as u32 {
+        if width as usize * height as usize != pixels.len() {
             self.errors
                 .push("Bad pixel data, not enough bytes".to_string());
             return false;
-- 
2.43.0


From fe2c02777c13eb39f9ac0066ec01edc63f9e221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 76/88] fix: a row that overlaps the row before it moved all
 later rows of the HTML output down

---
 thermal_renderer/src/html_renderer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index c7b8f4c..c6f9ea1 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -91,7 +91,7 @@ impl HtmlRenderer {
             row.y.saturating_sub(self.last_y),
             row.content
         ));
-        self.last_y = row.y + row.height;
+        self.last_y = self.last_y.max(row.y) + row.height;
     }
 }
 
@@ -115,7 +115,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         //We keep track of the last y so that we can render things
         //from top to bottom in the html flow instead of having
         //every element be position absolute
-        self.last_y = context.get_y();
+        self.last_y = 0;
 
         self.content.clear();
         self.push_row(HtmlRow {
-- 
2.43.0


From d648f3c7aac7af98c18864084bb693d5ab594a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 77/88] fix: QR codes held the function byte as data, did not
 fit at higher error correction, and printed a stale symbol

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 69 ++++++++-----------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index a6e34ae..ab1e323 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -2,55 +2,23 @@ extern crate qr_code;
 
 use crate::context::QrModel::Micro;
 use crate::{command::*, context::*, graphics};
+use qr_code::types::QrError;
 use qr_code::{EcLevel, QrCode, Version};
 
 #[derive(Clone)]
 pub struct Handler;
 
-//Versions 1 - 40. We are using a lookup instead of
-//a calculation since it seems each module jumps up
-//in a way that can't be determined
-const VERSION_CAPACITIES: [i16; 40] = [
-    17, 32, 53, 78, 106, 134, 154, 192, 230, 271,
-    321, 367, 425, 458, 520, 586, 644, 718, 792, 858,
-    929, 1003, 1091, 1171, 1273, 1367, 1465, 1528, 1628, 1732,
-    1840, 1952, 2068, 2188, 2303, 2431, 2563, 2699, 2809, 2953,
-];
-
-// Determine a minimum module version given the
-// length of bytes. This doesn't account for error
-// correction levels
-fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
-    if max_version > 40 { return 40 };
-    
-    for v in 0..max_version {
-        if VERSION_CAPACITIES[v as usize] >= byte_len {
-            return v + 1;
-        } 
-    }
-
-    max_version
-}
-
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let data = command.data.to_owned();
-        
-        //Max number of modules per version
-        let max_modules: i16 = match &context.code2d.qr_model {
+        //The first byte is m, the data to encode follows it
+        let data = command.data.get(1..).unwrap_or(&[]);
+
+        //Max version per model
+        let max_version: i16 = match &context.code2d.qr_model {
             QrModel::Model1 => 14,
             QrModel::Model2 => 40,
             Micro => 4,
         };
-        
-        //Minimum number of modules required to encode the binary length
-        let min_modules = minimum_version_for_bytes(data.len() as i16, max_modules);
-        
-        let version = match &context.code2d.qr_model {
-            QrModel::Model1 => Version::Normal(min_modules),
-            QrModel::Model2 => Version::Normal(min_modules),
-            Micro => Version::Micro(min_modules),
-        };
 
         let error_correction = match context.code2d.qr_error_correction {
             QrErrorCorrection::M => EcLevel::M,
@@ -59,7 +27,28 @@ impl CommandHandler for Handler {
             _ => EcLevel::L,
         };
 
-        let result = QrCode::with_version(data, version, error_correction);
+        //The smallest version that holds the data, this depends
+        //on the error correction and on what kind of data it is
+        let mut result = Err(QrError::DataTooLong);
+
+        for v in 1..=max_version {
+            //Micro version 3 ends with half a codeword, which the encoder
+            //fails to pad for some data. Version 4 holds all of it as well
+            if v == 3 && matches!(&context.code2d.qr_model, Micro) {
+                continue;
+            }
+
+            let version = match &context.code2d.qr_model {
+                Micro => Version::Micro(v),
+                _ => Version::Normal(v),
+            };
+
+            result = QrCode::with_version(data, version, error_correction);
+
+            if result.is_ok() {
+                break;
+            }
+        }
 
         match result {
             Ok(qr) => {
@@ -81,6 +70,8 @@ impl CommandHandler for Handler {
                 context.code2d.symbol_storage = Some(qrcode);
             }
             Err(e) => {
+                //Data that can't be encoded must not print the symbol that was stored before
+                context.code2d.symbol_storage = None;
                 println!("QR ERROR {} data: {:?}", e, String::from_utf8(command.data.clone()).unwrap_or("".to_string()));
             }
         }
-- 
2.43.0


From 1482b12c53850a207cc12096e6dd1378a301f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 78/88] fix: printing a 2D symbol that can not be encoded yet
 printed the QR code stored before it

---
 thermal_parser/src/subcommands/gs_code2d/aztec_store.rs      | 5 ++++-
 thermal_parser/src/subcommands/gs_code2d/composite_store.rs  | 5 ++++-
 thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs | 5 ++++-
 thermal_parser/src/subcommands/gs_code2d/gs1_store.rs        | 5 ++++-
 thermal_parser/src/subcommands/gs_code2d/maxi_store.rs       | 5 ++++-
 thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs     | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/aztec_store.rs b/thermal_parser/src/subcommands/gs_code2d/aztec_store.rs
index d112b70..6772f59 100644
--- a/thermal_parser/src/subcommands/gs_code2d/aztec_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/aztec_store.rs
@@ -4,9 +4,12 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
         //TODO No support for this yet
         //context.code2d.symbol_storage = Some(Cod2D)
+
+        //Printing must not show the symbol that was stored before
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/composite_store.rs b/thermal_parser/src/subcommands/gs_code2d/composite_store.rs
index 8d05648..f3c48e5 100644
--- a/thermal_parser/src/subcommands/gs_code2d/composite_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/composite_store.rs
@@ -4,9 +4,12 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
         //TODO No support for this yet
         //context.code2d.symbol_storage = Some(Cod2D)
+
+        //Printing must not show the symbol that was stored before
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs
index 57f382c..ec2f4ed 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_store.rs
@@ -4,9 +4,12 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
         //TODO No support for this yet
         //context.code2d.symbol_storage = Some(Cod2D)
+
+        //Printing must not show the symbol that was stored before
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/gs1_store.rs b/thermal_parser/src/subcommands/gs_code2d/gs1_store.rs
index c62f14f..13f2177 100644
--- a/thermal_parser/src/subcommands/gs_code2d/gs1_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/gs1_store.rs
@@ -4,9 +4,12 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
         //TODO No support for this yet
         //context.code2d.symbol_storage = Some(Cod2D)
+
+        //Printing must not show the symbol that was stored before
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_store.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_store.rs
index 79cb4dc..96260f1 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_store.rs
@@ -4,9 +4,12 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
         //TODO No support for this yet
         //context.code2d.symbol_storage = Some(Cod2D)
+
+        //Printing must not show the symbol that was stored before
+        context.code2d.symbol_storage = None;
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs
index 0d91b52..6a5585b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_store.rs
@@ -4,9 +4,12 @@ use crate::{command::*, context::*};
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, _context: &mut Context) {
+    fn apply_context(&self, _command: &Command, context: &mut Context) {
         //TODO No support for this yet
         //context.code2d.symbol_storage = Some(Cod2D)
+
+        //Printing must not show the symbol that was stored before
+        context.code2d.symbol_storage = None;
     }
 }
 
-- 
2.43.0


From d7abf5307cb6c5503f1f49e3ba679e02d6db6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 79/88] fix: the output's errors were reported again with each
 further print, and never for HTML pages

---
 thermal_renderer/src/html_renderer/mod.rs  |  5 +++++
 thermal_renderer/src/image_renderer/mod.rs | 14 +++-----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index c6f9ea1..3041387 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -238,6 +238,11 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         }
     }
 
+    fn get_render_errors(&mut self) -> Vec<String> {
+        //Errors are only reported once
+        std::mem::take(&mut self.page_image.errors)
+    }
+
     fn end_render(&mut self, context: &mut Context) -> ReceiptHtml {
         let padding_bottom = context.get_y().saturating_sub(self.last_y);
 
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index 2bc0a3d..a900c4c 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -208,18 +208,10 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
     }
 
     fn get_render_errors(&mut self) -> Vec<String> {
+        //Errors are only reported once
         let mut errors = vec![];
-        let paper_errors = &self.paper_image.errors;
-        let page_errors = &self.page_image.errors;
-
-        for paper_error in paper_errors {
-            errors.push(paper_error.to_owned());
-        }
-
-        for page_error in page_errors {
-            errors.push(page_error.to_owned());
-        }
-
+        errors.append(&mut self.paper_image.errors);
+        errors.append(&mut self.page_image.errors);
         errors
     }
 
-- 
2.43.0


From 719ac2c879351154810ef2fea47ad3a0cc4fcea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 80/88] fix: HTML text magnified differently in width and
 height, or upside down, lost one of the two

---
 .../resources/templates/thermal.html          | 42 ++++++++-----------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index d618b34..4b03416 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -64,38 +64,30 @@
         .s{ text-decoration: line-through; }
         .s, .sd{ text-decoration: line-through; }
 
-        /* Conflicts with scaling, need to figure out a solution */
-        .upd { transform: scale(1, -1); }
+        /* Magnified from the top left corner, upside down characters stay in place */
+        .str { transform-origin: top left; transform: scale(var(--w, 1), var(--h, 1)); }
+        .upd { transform-origin: top left; transform: scale(var(--w, 1), var(--h, 1)) translateY(100%) scaleY(-1); }
 
-        .str { transform-origin: top left; }
+        .w2{ --w: 2; }
+        .h2{ --h: 2; }
 
-        .w2{ transform: scaleX(2); }
-        .h2{ transform: scaleY(2); }
-        .w2.h2{ transform: scale(2); }
+        .w3{ --w: 3; }
+        .h3{ --h: 3; }
 
-        .w3{ transform: scaleX(3); }
-        .h3{ transform: scaleY(3); }
-        .w3.h3{ transform: scale(3); }
+        .w4{ --w: 4; }
+        .h4{ --h: 4; }
 
-        .w4{ transform: scaleX(4); }
-        .h4{ transform: scaleY(4); }
-        .w4.h4{ transform: scale(4); }
+        .w5{ --w: 5; }
+        .h5{ --h: 5; }
 
-        .w5{ transform: scaleX(5); }
-        .h5{ transform: scaleY(5); }
-        .w5.h5{ transform: scale(5); }
+        .w6{ --w: 6; }
+        .h6{ --h: 6; }
 
-        .w6{ transform: scaleX(6); }
-        .h6{ transform: scaleY(6); }
-        .w6.h6{ transform: scale(6); }
+        .w7{ --w: 7; }
+        .h7{ --h: 7; }
 
-        .w7{ transform: scaleX(7); }
-        .h7{ transform: scaleY(7); }
-        .w7.h7{ transform: scale(7); }
-
-        .w8{ transform: scaleX(8); }
-        .h8{ transform: scaleY(8); }
-        .w8.h8{ transform: scale(8); }
+        .w8{ --w: 8; }
+        .h8{ --h: 8; }
 
         img { display: block; }
     </style>
-- 
2.43.0


From 93f047718b9ba029c61dae360eedb5c5a52ea146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 81/88] fix: underlined HTML text lost its line when it was
 struck through

---
 thermal_renderer/resources/templates/thermal.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index 4b03416..22820a0 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -63,6 +63,7 @@
         .u{ text-decoration: underline; }
         .s{ text-decoration: line-through; }
         .s, .sd{ text-decoration: line-through; }
+        .u.s{ text-decoration: underline line-through; }
 
         /* Magnified from the top left corner, upside down characters stay in place */
         .str { transform-origin: top left; transform: scale(var(--w, 1), var(--h, 1)); }
-- 
2.43.0


From 782979be272e410de176194558330e751b344dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 82/88] fix: barcodes were always black in HTML output

---
 thermal_renderer/src/html_renderer/mod.rs          |  2 +-
 thermal_renderer/src/html_renderer/thermal_html.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 3041387..94b0e87 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -201,7 +201,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 }
             }
         } else {
-            self.push_row(graphics_to_svg(graphics));
+            self.push_row(graphics_to_svg(graphics, &context.text.color));
         }
     }
 
diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index d0da1e0..c14c4de 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -38,7 +38,7 @@ pub fn encode_html_image(image: &Image) -> HtmlRow {
     }
 }
 
-pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
+pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>, color: &RGBA) -> HtmlRow {
     if graphics.is_empty() {
         return HtmlRow::empty();
     }
@@ -67,8 +67,12 @@ pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
                 height = height.max(y + rectangle.h);
 
                 svg.push(format!(
-                    "<rect width='{}' height='{}' x='{}' y='{}' fill='black' />",
-                    rectangle.w, rectangle.h, x, y
+                    "<rect width='{}' height='{}' x='{}' y='{}' fill='{}' />",
+                    rectangle.w,
+                    rectangle.h,
+                    x,
+                    y,
+                    color.as_hex()
                 ));
             }
         }
-- 
2.43.0


From d157a2ba08fe466f65dd0b3126e02792ed223da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 83/88] fix: inverse printing made barcodes invisible and lost
 the selected colors

---
 .../src/commands/set_black_white_invert.rs           | 12 ++----------
 thermal_parser/src/text.rs                           | 10 ++++++++--
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/thermal_parser/src/commands/set_black_white_invert.rs b/thermal_parser/src/commands/set_black_white_invert.rs
index 971fc19..0814ee3 100644
--- a/thermal_parser/src/commands/set_black_white_invert.rs
+++ b/thermal_parser/src/commands/set_black_white_invert.rs
@@ -7,16 +7,8 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
 
-        let invert = (n & 1) == 1;
-        if invert {
-            context.text.background_color = context.graphics.render_colors.color_1;
-            context.text.color = context.graphics.render_colors.paper_color;
-        } else {
-            context.text.background_color = context.graphics.render_colors.paper_color;
-            context.text.color = context.graphics.render_colors.color_1;
-        }
-
-        context.text.invert = invert;
+        //Only characters are inverted, see TextSpan::new
+        context.text.invert = (n & 1) == 1;
     }
 }
 
diff --git a/thermal_parser/src/text.rs b/thermal_parser/src/text.rs
index 8d9d7a4..223bd6b 100644
--- a/thermal_parser/src/text.rs
+++ b/thermal_parser/src/text.rs
@@ -48,6 +48,12 @@ impl TextSpan {
             _ => 0,
         };
 
+        let (background_color, text_color) = if style.invert {
+            (style.color, style.background_color)
+        } else {
+            (style.background_color, style.color)
+        };
+
         Self {
             font: context.text.font.clone(),
             base_character_width: style.character_width as u32,
@@ -65,8 +71,8 @@ impl TextSpan {
             upside_down: style.upside_down,
             justify: context.text.justify.clone(),
             dimensions: None,
-            background_color: context.text.background_color,
-            text_color: context.text.color,
+            background_color,
+            text_color,
         }
     }
 
-- 
2.43.0


From 9cc18b1cb71118e1cd1d26ceb5660da9bf52b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 84/88] fix: underlined text in the smaller fonts looked struck
 through

---
 .../src/image_renderer/thermal_image.rs       | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 223cd86..5a4e04e 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -114,17 +114,19 @@ impl ThermalImage {
     }
 
     fn get_font_size(&self, font: &Font) -> (f32, f32) {
-        match font {
-            Font::B => (
-                self.font_size * 0.8,
-                (self.font_size * 0.8) * SIZE_TO_BASELINE_RATIO,
-            ),
-            Font::C => (
-                self.font_size * 0.7,
-                (self.font_size * 0.5) * SIZE_TO_BASELINE_RATIO,
-            ),
-            _ => (self.font_size, self.font_size * SIZE_TO_BASELINE_RATIO),
-        }
+        let size = match font {
+            Font::B => self.font_size * 0.8,
+            Font::C => self.font_size * 0.7,
+            _ => self.font_size,
+        };
+        //The baseline is a part of the height of the characters, which differs by font
+        let (_, font_height) = Font::A.to_size();
+        let (_, height) = font.to_size();
+
+        (
+            size,
+            size * SIZE_TO_BASELINE_RATIO * font_height as f32 / height as f32,
+        )
     }
 
     pub fn rotate_90(&mut self) {
-- 
2.43.0


From cce3d4db22c3348039a57d7e476ca9c81c7becd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 85/88] fix: text in different fonts and sizes did not share
 the baseline of its line

---
 thermal_renderer/src/html_renderer/mod.rs     |  6 +----
 thermal_renderer/src/image_renderer/mod.rs    |  6 +----
 .../src/image_renderer/thermal_image.rs       | 23 ++++++++++++++++---
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 94b0e87..4e68411 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -222,11 +222,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         _text_justify: TextJustify,
     ) {
         if context.page_mode.enabled {
-            for span in spans {
-                if let Some(_) = &span.dimensions {
-                    self.page_image.render_span(x_offset, max_height, span);
-                }
-            }
+            self.page_image.render_spans(x_offset, max_height, spans);
         } else {
             self.push_row(spans_to_html(
                 spans,
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index a900c4c..759e945 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -200,11 +200,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
             &mut self.paper_image
         };
 
-        for span in spans {
-            if let Some(_) = &span.dimensions {
-                canvas.render_span(x_offset, max_height, span);
-            }
-        }
+        canvas.render_spans(x_offset, max_height, spans);
     }
 
     fn get_render_errors(&mut self) -> Vec<String> {
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5a4e04e..abb3a24 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -283,7 +283,25 @@ impl ThermalImage {
         Some((bytes, final_width, final_height))
     }
 
-    pub fn render_span(&mut self, x_offset: u32, max_height: u32, span: &TextSpan) {
+    /// Render the spans of a line on their common baseline
+    pub fn render_spans(&mut self, x_offset: u32, max_height: u32, spans: &Vec<TextSpan>) {
+        let line_baseline = spans
+            .iter()
+            .map(|span| span.character_height as f32 * self.get_font_size(&span.font).1)
+            .fold(0.0, f32::max);
+
+        for span in spans {
+            self.render_span(x_offset, max_height, line_baseline, span);
+        }
+    }
+
+    fn render_span(
+        &mut self,
+        x_offset: u32,
+        max_height: u32,
+        line_baseline: f32,
+        span: &TextSpan,
+    ) {
         if span.dimensions.is_none() {
             return;
         }
@@ -295,9 +313,8 @@ impl ThermalImage {
 
         if y_offset > 0 {
             //Calculate the actual y offset based on the preset baseline ratio
-            let max_height_baseline = max_height as f32 * baseline_ratio;
             let span_baseline = span.character_height as f32 * baseline_ratio;
-            y_offset = (max_height_baseline - span_baseline) as u32;
+            y_offset = y_offset.min((line_baseline - span_baseline) as u32);
         }
 
         for char in span.text.chars() {
-- 
2.43.0


From 3c3f4b111a46d0a449dfa72d57576c0d8bc49900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 86/88] fix: double underline was as thin as a single one

---
 thermal_renderer/resources/templates/thermal.html    |  1 +
 thermal_renderer/src/html_renderer/thermal_html.rs   |  3 ++-
 thermal_renderer/src/image_renderer/thermal_image.rs | 10 +++++++---
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index 22820a0..7f98eeb 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -64,6 +64,7 @@
         .s{ text-decoration: line-through; }
         .s, .sd{ text-decoration: line-through; }
         .u.s{ text-decoration: underline line-through; }
+        .u.ud{ text-decoration-thickness: 4px; }
 
         /* Magnified from the top left corner, upside down characters stay in place */
         .str { transform-origin: top left; transform: scale(var(--w, 1), var(--h, 1)); }
diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index c14c4de..18a7ee0 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -198,7 +198,8 @@ fn span_to_html(
         class_list.push("u");
     }
 
-    if text.underline > 1 {
+    //Single lines are 2 pixels thick
+    if text.underline > 2 {
         class_list.push("ud");
     }
 
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index abb3a24..5b20168 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -373,12 +373,16 @@ impl ThermalImage {
         }
 
         if span.underline > 0 {
+            //Below the baseline, within the height of the characters
+            let underline_y = (span.character_height as f32 * baseline_ratio) as u32 + 3;
+            let underline_y =
+                underline_y.min(span.character_height.saturating_sub(span.underline));
+
             self.draw_rect(
                 dimensions.x + x_offset,
-                (dimensions.y + y_offset + 3)
-                    + (span.character_height as f32 * baseline_ratio) as u32,
+                dimensions.y + y_offset + underline_y,
                 dimensions.w,
-                1,
+                span.underline,
                 &span.text_color,
                 true,
             )
-- 
2.43.0


From d7ce7537154090a266df66aebcbc2edcefb668c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 87/88] fix: images printed within a line ran into taller text
 above them, wide ones left an empty line

---
 thermal_renderer/src/renderer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index d9cb5cd..792d47d 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -426,8 +426,10 @@ impl<'a, Output> Renderer<'a, Output> {
 
         match image.flow {
             ImageFlow::Inline => {
-                if image.w > self.context.get_available_width() {
-                    self.context.newline(1);
+                //Images that don't fit go on the next line, unless they already start one
+                let avail_width = self.context.get_available_width();
+                if image.w > avail_width && avail_width < self.context.get_width() {
+                    self.finish_line(&vec![]);
                 }
             }
             ImageFlow::Block => {
-- 
2.43.0


From c2ff9fab2066bbae450e27a57d73d0dc01dbc90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 88/88] fix: images printed within a line overlapped when the
 line spacing was lower than they are

---
 thermal_renderer/src/renderer.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 792d47d..c20d037 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -74,6 +74,8 @@ pub struct Renderer<'a, Output> {
     open_line: Vec<TextSpan>,
     //Spans of the unfinished line that are placed but not rendered yet
     pending_line: Vec<TextSpan>,
+    //Position and height of the last row of inline images
+    image_line: (u32, u32),
     context: Context,
     debug_profile: DebugProfile,
 }
@@ -89,6 +91,7 @@ impl<'a, Output> Renderer<'a, Output> {
             span_buffer: vec![],
             open_line: vec![],
             pending_line: vec![],
+            image_line: (0, 0),
             error_buffer: vec![],
             output_buffer: vec![],
             debug_profile,
@@ -449,6 +452,10 @@ impl<'a, Output> Renderer<'a, Output> {
         match image.flow {
             ImageFlow::Inline => {
                 self.context.offset_x(image.w);
+
+                let (y, h) = self.image_line;
+                let h = if y == image.y { h } else { 0 };
+                self.image_line = (image.y, h.max(image.h));
             }
             ImageFlow::Block => {
                 if !self.context.page_mode.enabled {
@@ -471,6 +478,13 @@ impl<'a, Output> Renderer<'a, Output> {
         line.retain(|span| span.dimensions.as_ref().map_or(false, |d| d.y == y));
         line.extend(current_line.iter().cloned());
         self.context.newline_for_spans(&line);
+
+        let (image_y, image_h) = mem::take(&mut self.image_line);
+        if image_y == y {
+            let bottom = y + image_h;
+            self.context
+                .offset_y(bottom.saturating_sub(self.context.get_y()));
+        }
     }
 
     fn process_text(&mut self) {
-- 
2.43.0

