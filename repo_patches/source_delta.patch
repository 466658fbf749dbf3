From 88710b70befeed199280448162c39919f8c8217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 01/22] fix: serverinfo no longer panics on data shorter than
 1280 bytes

---
 src/serverinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 2e29027..8fe3655 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -11,7 +11,7 @@ pub fn serverinfo_string(data: &[u8]) -> Result<String> {
     const MAX_OFFSET: usize = 256;
     const MAX_SIZE: usize = 1024;
     let Some((from, to)) = bytesextra::offsets_between(
-        &data[..MAX_OFFSET + MAX_SIZE],
+        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
         br#"fullserverinfo ""#,
         &[b'"'],
     ) else {
-- 
2.43.0


From 27664eacb4f3ebab3a07ca598c99dd96d772ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 02/22] fix: clientinfo no longer panics when the client list
 is close to the end of the data

---
 src/clientinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index cfd775e..a204d25 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -24,7 +24,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
 
     let mut result: Vec<String> = vec![];
 
-    while let Some(name_offset) = data[offset..offset + MAX_LOOKAHEAD]
+    while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
         .map(|o| offset + o)
     {
-- 
2.43.0


From de2a7038184513aaad1a8212860881310908b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 03/22] fix: reject frames that extend past the end of the data

The size check compared the frame size to the whole data instead of to
what is left after the frame start, so truncated demos caused panics.
---
 src/qw/frame.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 8dab71e..e1669c9 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -24,7 +24,10 @@ pub struct Info {
 
 impl Info {
     pub fn from_data_and_index(data: &[u8], index: usize) -> Result<Self> {
-        let mut cur = Cursor::new(&data[index..]);
+        let Some(remaining) = data.get(index..) else {
+            return Err(e!("Frame is smaller than expected size"));
+        };
+        let mut cur = Cursor::new(remaining);
 
         let duration = cur.read_byte()? as u32;
 
@@ -48,7 +51,7 @@ impl Info {
         let header_size = cur.position() as usize;
         let size = header_size + body_size;
 
-        if data.len() < size {
+        if remaining.len() < size {
             return Err(e!("Frame is smaller than expected size"));
         }
 
-- 
2.43.0


From a1f6d35fda98931abd9d80ef8450029ee2eeb01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 04/22] fix: ktxstats_string no longer panics on truncated or
 malformed blocks

---
 src/ktxstats.rs | 16 ++++++++++++----
 src/qw/block.rs |  6 +++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 50f839c..d816053 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -15,20 +15,28 @@ pub fn ktxstats_v3(data: &[u8]) -> Result<KtxstatsV3> {
 pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     const TOTAL_HEADER_SIZE: usize = frame::MULTI_HEADER_SIZE + block::HEADER_SIZE;
 
-    let Some(mut offset) = data.rfind(br#"{"version": "#) else {
+    let Some(mut offset) = data
+        .rfind(br#"{"version": "#)
+        .and_then(|o| o.checked_sub(TOTAL_HEADER_SIZE))
+    else {
         return Err(e!("ktxstats not found"));
     };
-    offset -= TOTAL_HEADER_SIZE;
     let mut content = Vec::new();
 
     // read blocks
-    while let Ok(info) = block::Info::try_from(&data[offset + frame::MULTI_HEADER_SIZE..]) {
+    while let Some(Ok(info)) = data
+        .get(offset + frame::MULTI_HEADER_SIZE..)
+        .map(block::Info::try_from)
+    {
         if info.hidden_message != HiddenMessage::Demoinfo {
             break;
         }
 
         offset += TOTAL_HEADER_SIZE;
-        content.extend_from_slice(&data[offset..offset + info.body_size]);
+        let Some(body) = data.get(offset..offset + info.body_size) else {
+            return Err(e!("ktxstats is truncated"));
+        };
+        content.extend_from_slice(body);
 
         if info.number == 0 {
             break;
diff --git a/src/qw/block.rs b/src/qw/block.rs
index db73330..0fb3269 100644
--- a/src/qw/block.rs
+++ b/src/qw/block.rs
@@ -1,5 +1,7 @@
 use std::io::Cursor;
 
+use anyhow::anyhow as e;
+
 use crate::qw::primitives::{numsize, ReadPrimitives};
 use crate::qw::prot::HiddenMessage;
 
@@ -19,7 +21,9 @@ impl TryFrom<&[u8]> for Info {
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
         let mut cur = Cursor::new(value);
         // exclude block number bytes from size
-        let body_size = cur.read_u32()? as usize - numsize::SHORT;
+        let Some(body_size) = (cur.read_u32()? as usize).checked_sub(numsize::SHORT) else {
+            return Err(e!("Block is smaller than expected size"));
+        };
 
         Ok(Info {
             body_size,
-- 
2.43.0


From 891de817b5d380cbdc4c1d78a593a7c2984d63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 05/22] fix: match_duration no longer panics on inconsistent
 durations

A negative, non-finite or huge ktxstats duration, and an end of match that
precedes the countdown, panicked.
---
 src/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 9e876ac..d417ee7 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -43,7 +43,7 @@ pub fn match_duration(data: &[u8]) -> Result<Duration> {
 pub fn match_duration_from_seeking(data: &[u8]) -> Result<Duration> {
     let end = demo_duration(data)?;
     let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
-    Ok(end - begin)
+    Ok(end.saturating_sub(begin))
 }
 
 pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
@@ -54,7 +54,7 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
         return Err(e!("Duration not found in ktxstats"));
     };
     let duration_f: f64 = ktxstats_s[from..to].parse()?;
-    Ok(Duration::from_secs_f64(duration_f))
+    Ok(Duration::try_from_secs_f64(duration_f)?)
 }
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
-- 
2.43.0


From 35922a39612212723d07898ce43bd3b64908c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 06/22] fix: sum frame durations without overflow or loss of
 precision

---
 src/duration.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index d417ee7..dfaf37c 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -59,18 +59,18 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
     let mut index = 0;
-    let mut total_ms: u32 = 0;
+    let mut total_ms: u64 = 0;
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
         if index >= target_offset {
             break;
         }
 
-        total_ms += frame_info.duration;
+        total_ms += u64::from(frame_info.duration);
         index += frame_info.size;
     }
 
-    Duration::from_secs_f32(total_ms as f32 / 1000.0)
+    Duration::from_millis(total_ms)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2c79020dc12c3d81fd06185c92bcaadef0fd89a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 07/22] fix: flag event counters no longer overflow at 256
 events

---
 src/flags.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 9caeeb8..bce6c8a 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -12,13 +12,13 @@ use crate::qw::prot::{MessageType, PrintId};
 
 #[derive(Debug, Default, PartialEq, Eq)]
 pub struct PlayerFlagEvents {
-    captures: u8,
-    pickups: u8,
-    returns: u8,
-    carrier_frags: u8,
-    defends: u8,
-    carrier_defends: u8,
-    carrier_defends_vs_aggressive: u8,
+    captures: u32,
+    pickups: u32,
+    returns: u32,
+    carrier_frags: u32,
+    defends: u32,
+    carrier_defends: u32,
+    carrier_defends_vs_aggressive: u32,
 }
 
 pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEvents> {
-- 
2.43.0


From f660e2ce479a65ccb0e2336998abbff414a8fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 08/22] fix: average ping no longer overflows when the sum
 exceeds 65535

---
 src/ping.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ping.rs b/src/ping.rs
index 2d0fc13..e621933 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -51,8 +51,8 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().sum::<u16>();
-        let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
+        let pings_sum: u64 = pings.iter().map(|p| u64::from(*p)).sum();
+        let avg_ping = (pings_sum / pings.len() as u64) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
 
-- 
2.43.0


From 96b7f5c9e5c449b8ca6123e4c017410c02d36b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 09/22] fix: majority color is deterministic on ties and does
 not overflow

Ties depended on the hash map iteration order; now the color that comes
first wins, as it already does for teams of two.
---
 src/team.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index dbb4d18..8a51b6a 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -64,7 +64,7 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
         _ => {}
     };
 
-    let mut color_count: HashMap<[u8; 2], u8> = HashMap::new();
+    let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();
     for color in colors.iter() {
         let count = color_count.entry(*color).or_insert(0);
         *count += 1;
@@ -72,10 +72,11 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
 
     let mut max_color = None;
     let mut max_count = 0;
-    for (color, count) in color_count.iter() {
-        if *count > max_count {
+    for color in colors.iter() {
+        let count = color_count[color];
+        if count > max_count {
             max_color = Some(*color);
-            max_count = *count;
+            max_count = count;
         }
     }
 
-- 
2.43.0


From 68377abc2cae43b7a4841df47693be31003f51c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 10/22] fix: order of teams whose names differ only in case is
 deterministic

---
 src/team.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/team.rs b/src/team.rs
index 8a51b6a..b5049e1 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -52,7 +52,12 @@ pub fn teams_from_players(players: &[Player]) -> Vec<Team> {
         teams.push(Team::from(teamplayers.as_slice()))
     }
 
-    teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));
+    teams.sort_by(|a, b| {
+        a.name
+            .to_lowercase()
+            .cmp(&b.name.to_lowercase())
+            .then_with(|| a.name.cmp(&b.name))
+    });
 
     teams
 }
-- 
2.43.0


From a5633ff3b65d4cfdb7a09f3f3bfc73a8b80a3d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 11/22] fix: order of players with equal frags and name is
 deterministic

---
 src/players.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/players.rs b/src/players.rs
index 0214868..c48d0b9 100644
--- a/src/players.rs
+++ b/src/players.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use anyhow::Result;
 use ktxstats::v3::KtxstatsV3;
@@ -28,7 +28,7 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
     let clients = clients(data)?;
     let pings = ping_per_player_number(data)?;
     let frags = frags_per_player_name(data);
-    let mut pmap: HashMap<u8, Player> = HashMap::new();
+    let mut pmap: BTreeMap<u8, Player> = BTreeMap::new();
 
     for c in clients.iter().filter(|c| !c.is_spectator) {
         let player = Player {
-- 
2.43.0


From 4e289cfeb25386639af04466bb206386da279017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 12/22] fix: team totals no longer overflow on extreme frags or
 negative pings

---
 src/player.rs | 2 +-
 src/team.rs   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/player.rs b/src/player.rs
index a89465b..67c3fc2 100644
--- a/src/player.rs
+++ b/src/player.rs
@@ -26,7 +26,7 @@ impl From<&ktxstats::v3::Player> for Player {
             team: player.team.clone(),
             color: [player.top_color as u8, player.bottom_color as u8],
             frags: player.stats.frags,
-            ping: player.ping as u32,
+            ping: player.ping.max(0) as u32,
             is_bot: player.bot.is_some() || player.ping == BOT_PING,
             auth_username,
             auth_cc: None,
diff --git a/src/team.rs b/src/team.rs
index b5049e1..007888f 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -25,13 +25,15 @@ impl From<&[Player]> for Team {
             color: [0, 0],
         };
 
+        let mut ping_sum: u64 = 0;
+
         for player in players.iter() {
             team.players.push(player.clone());
-            team.frags += player.frags;
-            team.ping += player.ping;
+            team.frags = team.frags.saturating_add(player.frags);
+            ping_sum += u64::from(player.ping);
         }
 
-        team.ping = (team.ping as f32 / team.players.len() as f32).round() as u32;
+        team.ping = (ping_sum as f64 / team.players.len() as f64).round() as u32;
         let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
         team.color = majority_color(&player_colors).unwrap_or(players[0].color);
 
-- 
2.43.0


From 284c1d4c73bca4f7f5072b08f0d8944933e7b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 13/22] fix: matchdate no longer panics on multi-byte
 characters

---
 src/matchdate.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 7cd32dd..4ee39cb 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -18,11 +18,16 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 }
 
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
-    let tz_abbr = &timestamp[DATETIME_LEN + 1..];
+    let (Some(datetime), Some(tz_abbr)) = (
+        timestamp.get(..DATETIME_LEN),
+        timestamp.get(DATETIME_LEN + 1..),
+    ) else {
+        return Err(e!("Invalid matchdate"));
+    };
     let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
         return Err(e!("Invalid timezone abbreviation"));
     };
-    Ok(format!("{}{}", &timestamp[..DATETIME_LEN], tz_offset))
+    Ok(format!("{}{}", datetime, tz_offset))
 }
 
 pub fn matchdate_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From e430a1f16a87a4e0ee6ca94304e4b9382558469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 14/22] fix: team_names lists each team once

The sort is case and color insensitive, so equal names were not always
adjacent when other names differed only in case or color.
---
 src/clients.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 48710fd..c64ac4f 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use anyhow::Result;
 use bstr::ByteSlice;
 use quake_text::unicode;
@@ -70,9 +72,9 @@ pub fn team_names(data: &[u8]) -> Result<Vec<String>> {
         .map(|c| c.team.clone())
         .collect();
 
-    names = unicode::sort(&names);
-    names.dedup();
-    Ok(names)
+    let mut seen = HashSet::new();
+    names.retain(|name| seen.insert(name.clone()));
+    Ok(unicode::sort(&names))
 }
 
 #[cfg(test)]
-- 
2.43.0


From cdb321cbd7c60a6f15cd7954615768b4dd551f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 15/22] fix: client number is the slot of the client

Clients were numbered by their order in the demo. When there are unused
slots in between, pings and frag updates, which are sent by slot, were
attributed to the wrong players.
---
 src/clientinfo.rs | 25 +++++++++++++++++++++++--
 src/clients.rs    |  9 ++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index a204d25..5f696ec 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -2,6 +2,8 @@ use anyhow::{anyhow as e, Result};
 use bstr::ByteSlice;
 pub use quake_clientinfo::Clientinfo;
 
+use crate::qw::prot::MessageType;
+
 pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
     let info: Vec<Clientinfo> = clientinfo_strings(data)?
         .iter()
@@ -11,6 +13,15 @@ pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
 }
 
 pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
+    let strings = numbered_clientinfo_strings(data)?
+        .into_iter()
+        .map(|(_, s)| s)
+        .collect();
+    Ok(strings)
+}
+
+/// Clientinfo strings along with the player number (slot) of each client.
+pub(crate) fn numbered_clientinfo_strings(data: &[u8]) -> Result<Vec<(u8, String)>> {
     const CMD_SPAWN: [u8; 0x0A] = [0x09, 0x63, 0x6D, 0x64, 0x20, 0x73, 0x70, 0x61, 0x77, 0x6E];
 
     let Some(mut offset) = data.find(CMD_SPAWN) else {
@@ -22,7 +33,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
     const MIN_LEN: usize = r#"\name\ "#.len();
     const MAX_LEN: usize = 256;
 
-    let mut result: Vec<String> = vec![];
+    let mut result: Vec<(u8, String)> = vec![];
 
     while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
@@ -40,7 +51,17 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
             break;
         }
 
-        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
+        // the string is preceded by: [byte] message type, [byte] slot, [long] user id
+        let number = match data[..from] {
+            [.., message_type, slot, _, _, _, _]
+                if MessageType::from(&message_type) == MessageType::UpdateUserinfo =>
+            {
+                slot
+            }
+            _ => result.len() as u8,
+        };
+
+        result.push((number, quake_text::bytestr::to_unicode(&data[from..to])));
         offset = to;
 
         if offset >= max_offset {
diff --git a/src/clients.rs b/src/clients.rs
index c64ac4f..0c3e982 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -5,15 +5,14 @@ use bstr::ByteSlice;
 use quake_text::unicode;
 
 use crate::client::Client;
-use crate::clientinfo;
+use crate::clientinfo::{self, Clientinfo};
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
-    let clients: Vec<Client> = clientinfo::clientinfo(data)?
+    let clients: Vec<Client> = clientinfo::numbered_clientinfo_strings(data)?
         .iter()
-        .enumerate()
         .map(|(number, info)| {
-            let mut client = Client::from(info);
-            client.number = number as u8;
+            let mut client = Client::from(&Clientinfo::from(info.as_str()));
+            client.number = *number;
             client
         })
         .collect();
-- 
2.43.0


From 0854b2118f0cc6eb7d94860e8b24063e2bd09a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 16/22] fix: count every flag message of a frame

The second of two complete messages in the same frame was dropped, and a
player name following a complete message was lost.
---
 src/flags.rs | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index bce6c8a..6e1aeb5 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -4,7 +4,6 @@ use std::io::Cursor;
 use bstr::ByteSlice;
 
 use crate::qw::flagevent::FlagEvent;
-use crate::qw::flagprint;
 use crate::qw::frame;
 use crate::qw::message::message_type::ReadMessageType;
 use crate::qw::message::print::ReadPrint;
@@ -40,14 +39,11 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
             if mt == MessageType::Print {
                 if let Ok(p) = body.read_print() {
                     if p.id == PrintId::High && !p.content.is_empty() {
-                        if current_print.is_empty() {
-                            current_print.extend_from_slice(&p.content);
-                        } else {
-                            if is_message_suffix(&p.content) {
-                                current_print.extend_from_slice(&p.content);
-                            }
-
-                            prints.push(current_print.clone());
+                        current_print.extend_from_slice(&p.content);
+
+                        // a message can be split over several prints
+                        if current_print.ends_with(b"\n") {
+                            prints.push(current_print);
                             current_print = vec![];
                         }
                     }
@@ -107,17 +103,6 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
     player_flag_events
 }
 
-fn is_message_suffix(print: &[u8]) -> bool {
-    [
-        flagprint::X_RETURNED_FLAG.to_vec(),
-        flagprint::X_GOT_FLAG.to_vec(),
-        flagprint::X_CAPTURED_FLAG.to_vec(),
-    ]
-    .iter()
-    .flatten()
-    .any(|n| quake_text::bytestr::to_unicode(print).ends_with(n))
-}
-
 #[cfg(test)]
 mod tests {
     use std::fs::read;
-- 
2.43.0


From 1488970005c8e500c1603740a8c15cde8a8f1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 17/22] fix: keep whitespace-like characters and "n" at the end
 of player names

Quake characters 0x85 and 0xa0 (among others) are whitespace in unicode and
were trimmed from the client name and from the killer name in some of the
frag messages, and a client named "n" lost its name.
---
 src/clientinfo.rs | 8 +++++++-
 src/clients.rs    | 4 ++--
 src/frags.rs      | 2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index 5f696ec..ec22314 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -7,11 +7,17 @@ use crate::qw::prot::MessageType;
 pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
     let info: Vec<Clientinfo> = clientinfo_strings(data)?
         .iter()
-        .map(|s| Clientinfo::from(s.as_str()))
+        .map(|s| parse_clientinfo(s))
         .collect();
     Ok(info)
 }
 
+pub(crate) fn parse_clientinfo(value: &str) -> Clientinfo {
+    // Parsing trims whitespace and "\n" from the end of the string, which can be part of (or be)
+    // the name of the client. A trailing delimiter prevents that.
+    Clientinfo::from(format!("{value}\\").as_str())
+}
+
 pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
     let strings = numbered_clientinfo_strings(data)?
         .into_iter()
diff --git a/src/clients.rs b/src/clients.rs
index 0c3e982..6e9f01f 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -5,13 +5,13 @@ use bstr::ByteSlice;
 use quake_text::unicode;
 
 use crate::client::Client;
-use crate::clientinfo::{self, Clientinfo};
+use crate::clientinfo;
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
     let clients: Vec<Client> = clientinfo::numbered_clientinfo_strings(data)?
         .iter()
         .map(|(number, info)| {
-            let mut client = Client::from(&Clientinfo::from(info.as_str()));
+            let mut client = Client::from(&clientinfo::parse_clientinfo(info));
             client.number = *number;
             client
         })
diff --git a/src/frags.rs b/src/frags.rs
index dcd8d0a..4814fb8 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -43,7 +43,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     for (print, frame_info) in print_frames {
         let content_u = quake_text::bytestr::to_unicode(&print.content);
 
-        match FragEvent::try_from(content_u.trim_end()) {
+        match FragEvent::try_from(content_u.trim_end_matches('\n')) {
             Ok(event) => match event {
                 FragEvent::Frag { killer, .. } => {
                     let killer = frags.entry(killer).or_insert(0);
-- 
2.43.0


From 1a759d258b86642671dcda6cd7fc4d93f7fe56e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 18/22] fix: hidden blocks and set frames are not read as
 messages

---
 src/flags.rs    |  7 ++++---
 src/frags.rs    | 12 ++++++++----
 src/ping.rs     |  6 ++++--
 src/prints.rs   |  6 ++++--
 src/qw/frame.rs | 14 ++++++++++++++
 5 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 6e1aeb5..b24709b 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -26,13 +26,14 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
     let mut prints: Vec<Vec<u8>> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 || data[frame_info.clone().body_range].find(b"flag").is_none()
-        {
+        let messages = frame_info.messages(data);
+
+        if messages.is_empty() || messages.find(b"flag").is_none() {
             index += frame_info.size;
             continue;
         }
 
-        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
+        let mut body = Cursor::new(messages);
         let mut current_print: Vec<u8> = vec![];
 
         while let Ok(mt) = body.read_message_type() {
diff --git a/src/frags.rs b/src/frags.rs
index 4814fb8..9a887df 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -17,12 +17,14 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     let mut print_frames: Vec<(Print, frame::Info)> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 {
+        let messages = frame_info.messages(data);
+
+        if messages.is_empty() {
             index += frame_info.size;
             continue;
         }
 
-        let mut body = Cursor::new(&data[frame_info.clone().body_range]);
+        let mut body = Cursor::new(messages);
 
         if body
             .read_message_type()
@@ -88,14 +90,16 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
     const MAX_FRAME_COUNT: usize = 4;
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
+        let messages = info.messages(data);
+
         if frame_count >= MAX_FRAME_COUNT {
             break;
-        } else if info.body_size == 0 {
+        } else if messages.is_empty() {
             index += info.size;
             continue;
         }
 
-        let mut body = Cursor::new(&data[info.body_range.clone()]);
+        let mut body = Cursor::new(messages);
 
         if frame_count == 1 {
             body.read_print().ok();
diff --git a/src/ping.rs b/src/ping.rs
index e621933..a2ae9a6 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -15,8 +15,10 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut total_pings: HashMap<u8, Vec<u16>> = HashMap::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
-            let mut body = Cursor::new(&data[info.body_range.clone()]);
+        let messages = info.messages(data);
+
+        if !messages.is_empty() {
+            let mut body = Cursor::new(messages);
             let mut did_ping_update = false;
 
             while body
diff --git a/src/prints.rs b/src/prints.rs
index da62734..b76eb54 100644
--- a/src/prints.rs
+++ b/src/prints.rs
@@ -11,8 +11,10 @@ pub fn prints(data: &[u8]) -> Vec<Print> {
     let mut prints: Vec<Print> = Vec::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
-            let mut body = Cursor::new(&data[info.body_range]);
+        let messages = info.messages(data);
+
+        if !messages.is_empty() {
+            let mut body = Cursor::new(messages);
 
             while body
                 .read_message_type()
diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index e1669c9..77f92df 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -67,6 +67,20 @@ impl Info {
             body_range: index + header_size..index + size,
         })
     }
+
+    /// Messages of the frame, none if it is hidden (multi target 0) or not a read command.
+    pub fn messages<'a>(&self, data: &'a [u8]) -> &'a [u8] {
+        let is_hidden = self.target == Target::Multiple
+            && data[self.header_range.clone()][numsize::SHORT..MULTI_HEADER_SIZE - numsize::LONG]
+                .iter()
+                .all(|b| *b == 0);
+
+        if is_hidden || self.command != Command::Read {
+            return &[];
+        }
+
+        &data[self.body_range.clone()]
+    }
 }
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 15dcaf2ce011c1fef7480b8f254ae7d9e835169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 19/22] fix: has_bot_players finds a bot key which is split
 over two ktxstats blocks

---
 src/clients.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/clients.rs b/src/clients.rs
index 6e9f01f..5308412 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -6,6 +6,7 @@ use quake_text::unicode;
 
 use crate::client::Client;
 use crate::clientinfo;
+use crate::ktxstats::ktxstats_string;
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
     let clients: Vec<Client> = clientinfo::numbered_clientinfo_strings(data)?
@@ -24,7 +25,10 @@ pub fn has_bot_players(data: &[u8]) -> Result<bool> {
         return Ok(true);
     }
 
-    Ok(data.rfind(br#""bot": {"#).is_some())
+    const BOT_KEY: &str = r#""bot": {"#;
+
+    // the stats can be split over several blocks
+    Ok(data.rfind(BOT_KEY).is_some() || ktxstats_string(data).is_ok_and(|s| s.contains(BOT_KEY)))
 }
 
 pub fn has_human_players(data: &[u8]) -> Result<bool> {
-- 
2.43.0


From 2e31101e90af859d47ea382108e5f77dba449601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 20/22] fix: keep whitespace and "n" at the end of the last
 serverinfo value

---
 src/serverinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 8fe3655..bc51875 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -4,7 +4,9 @@ pub use quake_serverinfo::Settings;
 use crate::bytesextra;
 
 pub fn serverinfo(data: &[u8]) -> Result<Settings> {
-    serverinfo_string(data).map(|str| Settings::from(str.as_str()))
+    // Parsing trims whitespace and "\n" from the end of the string, which can be part of (or be)
+    // the last value. A trailing delimiter prevents that.
+    serverinfo_string(data).map(|str| Settings::from(format!("{str}\\").as_str()))
 }
 
 pub fn serverinfo_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From 249400a42bff421b28d734acfdbded1a272847e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 21/22] fix: look up the clients once for unnamed team kills,
 not once per kill

---
 src/frags.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/frags.rs b/src/frags.rs
index 9a887df..aee23bc 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -3,6 +3,7 @@ use std::io::Cursor;
 
 use anyhow::{anyhow as e, Result};
 
+use crate::client::Client;
 use crate::clients;
 use crate::qw::fragevent::FragEvent;
 use crate::qw::frame;
@@ -42,6 +43,9 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
 
     let mut frags: HashMap<String, i32> = HashMap::new();
 
+    // looked up once, as it searches through the whole demo
+    let clients = clients::clients(data).unwrap_or_default();
+
     for (print, frame_info) in print_frames {
         let content_u = quake_text::bytestr::to_unicode(&print.content);
 
@@ -68,7 +72,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
                     *killer -= 1;
                 }
                 FragEvent::TeamkillByUnknown { victim } => {
-                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim) {
+                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim, &clients) {
                         let killer = frags.entry(name).or_insert(0);
                         *killer -= 1;
                     }
@@ -83,7 +87,12 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     frags
 }
 
-fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<String> {
+fn find_team_killer(
+    data: &[u8],
+    index: usize,
+    victim_name: &str,
+    clients: &[Client],
+) -> Result<String> {
     let mut index = index;
     let mut frame_count: usize = 1;
     let mut frag_update_player_numbers: Vec<u8> = vec![];
@@ -122,7 +131,6 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
         return Err(e!("Unable to find nearby frag updates"));
     }
 
-    let clients = clients::clients(data)?;
     let Some(victim_client) = clients.iter().find(|c| c.name == *victim_name) else {
         return Err(e!("Unable to find victim"));
     };
-- 
2.43.0


From d7a94736e57c5b479cf3198e23223d7480ea109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 22/22] fix: a matchdate without space before the time zone is
 invalid, not in another zone

---
 src/matchdate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 4ee39cb..ee006a8 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -20,7 +20,9 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
     let (Some(datetime), Some(tz_abbr)) = (
         timestamp.get(..DATETIME_LEN),
-        timestamp.get(DATETIME_LEN + 1..),
+        timestamp
+            .get(DATETIME_LEN..)
+            .and_then(|s| s.strip_prefix(' ')),
     ) else {
         return Err(e!("Invalid matchdate"));
     };
-- 
2.43.0

