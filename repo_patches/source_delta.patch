From 5746c6499f643c0be697366b19ba4157cd5e2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 01/30] fix: report unparsable BeatmapID and BeatmapSetID
 instead of panicking

---
 src/osu_file/metadata/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 1078531..92ffea7 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -1,5 +1,7 @@
 pub mod error;
 
+use std::num::ParseIntError;
+
 use nom::{
     bytes::complete::{tag, take_till},
     multi::separated_list0,
@@ -30,8 +32,8 @@ versioned_field!(Tags, Vec<String>, no_versions,
     } -> (),
     |v| { v.join(" ") }, Vec::new()
 );
-versioned_field!(BeatmapID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
-versioned_field!(BeatmapSetID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
+versioned_field!(BeatmapID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
+versioned_field!(BeatmapSetID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
 
 general_section!(
     /// A struct representing the metadata section of an osu file.
-- 
2.43.0


From 4e835a11f272f77385ce654bd1b3092554ffca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 02/30] fix: do not underflow the line counter on an empty last
 section

---
 src/osu_file/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 6999749..56d52c3 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -301,7 +301,7 @@ impl FromStr for OsuFile {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count() - 1;
+            line_number += section.lines().count().saturating_sub(1);
         }
 
         Ok(OsuFile {
-- 
2.43.0


From 889dc88f7966cf58645d2c3cf6e6e3365a462f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 03/30] fix: treat an event line that only starts like a known
 header as an unknown event

---
 src/osu_file/events/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 140fc56..9202940 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -4,7 +4,7 @@ pub mod normal_event;
 pub mod storyboard;
 
 use nom::branch::alt;
-use nom::combinator::{cut, eof, peek, success};
+use nom::combinator::{eof, peek, success};
 use nom::sequence::tuple;
 use nom::Parser;
 use nom::{bytes::complete::tag, combinator::rest, sequence::preceded};
@@ -62,7 +62,7 @@ impl Events {
         let background = || {
             peek(tuple((
                 tag::<_, _, nom::error::Error<_>>(normal_event::BACKGROUND_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Background)
         };
@@ -72,7 +72,7 @@ impl Events {
                     tag(normal_event::VIDEO_HEADER),
                     tag(normal_event::VIDEO_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Video)
         };
@@ -82,35 +82,35 @@ impl Events {
                     tag(normal_event::BREAK_HEADER),
                     tag(normal_event::BREAK_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Break)
         };
         let colour_transformation = || {
             peek(tuple((
                 tag(normal_event::COLOUR_TRANSFORMATION_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::ColourTransformation)
         };
         let sprite_legacy = || {
             peek(tuple((
                 tag(normal_event::SPRITE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SpriteLegacy)
         };
         let animation_legacy = || {
             peek(tuple((
                 tag(normal_event::ANIMATION_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::AnimationLegacy)
         };
         let sample_legacy = || {
             peek(tuple((
                 tag(normal_event::SAMPLE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SampleLegacy)
         };
-- 
2.43.0


From 26975127acb384e27607754ae9cddceaefab8b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 04/30] fix: slice storyboard command lines at a byte offset,
 not a char count

---
 src/osu_file/events/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 9202940..81cb969 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,7 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.chars().position(|c| c == ',') {
+                    let line_without_header = match line.find(',') {
                         Some(i) => &line[i + 1..],
                         None => line,
                     };
-- 
2.43.0


From 091ad4d2d14bb6ead6ded9e131c11a57684924ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 05/30] fix: report an invalid animation loop type instead of
 panicking

---
 src/osu_file/events/storyboard/sprites.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index b287a1a..085033b 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -177,6 +177,7 @@ impl VersionedFromStr for Object {
             ),
         );
         let loop_type = alt((
+            nothing().map(|_| LoopType::default(version).unwrap()),
             preceded(
                 context(ParseObjectError::MissingLoopType.into(), comma()),
                 context(
@@ -184,7 +185,6 @@ impl VersionedFromStr for Object {
                     consume_rest_versioned_type(version),
                 ),
             ),
-            nothing().map(|_| LoopType::default(version).unwrap()),
         ));
 
         let (_, object) = alt((
-- 
2.43.0


From 583e319429edb5b134a5fa215fa2e454015a709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 06/30] fix: parse multi digit custom sample sets of hit sound
 triggers, reject extra fields

---
 src/osu_file/events/storyboard/types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/storyboard/types.rs b/src/osu_file/events/storyboard/types.rs
index 8596fd0..2c4a9fc 100644
--- a/src/osu_file/events/storyboard/types.rs
+++ b/src/osu_file/events/storyboard/types.rs
@@ -40,12 +40,16 @@ impl VersionedFromStr for TriggerType {
                             let mut fields = Vec::new();
                             let mut builder = String::with_capacity(256);
 
+                            let mut last_numeric = false;
                             for (i, ch) in s.chars().enumerate() {
-                                if i != 0 && (ch.is_uppercase() || ch.is_numeric()) {
+                                if i != 0
+                                    && (ch.is_uppercase() || (ch.is_numeric() && !last_numeric))
+                                {
                                     fields.push(builder.to_owned());
                                     builder.clear();
                                 }
                                 builder.push(ch);
+                                last_numeric = ch.is_numeric();
                             }
 
                             fields.push(builder);
@@ -89,7 +93,7 @@ impl VersionedFromStr for TriggerType {
                                         } else {
                                             return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                         }
-                                        _ => unreachable!("The check for field size is already done so this is impossible to reach")
+                                        _ => return Err(ParseTriggerTypeError::UnknownHitSoundType),
                                     }
                                 field_parse_attempt_index += 1;
                             }
-- 
2.43.0


From b5dadf69e4d1a578811824d83d0dcd851c63cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 07/30] fix: report an out of range v3/v4 event time instead of
 overflowing

---
 src/osu_file/events/normal_event/mod.rs     |  4 +++-
 src/osu_file/events/normal_event/parsers.rs | 14 +++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index c77e49d..b6d555a 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -35,8 +35,10 @@ fn position_str(position: &Option<Position>) -> String {
 }
 
 fn time_to_string(time: Integer, version: Version) -> String {
+    // widened since taking the offset away can go below `Integer::MIN`
+    let time = i64::from(time);
     let time = if (3..=4).contains(&version) {
-        time - OLD_VERSION_TIME_OFFSET
+        time - i64::from(OLD_VERSION_TIME_OFFSET)
     } else {
         time
     };
diff --git a/src/osu_file/events/normal_event/parsers.rs b/src/osu_file/events/normal_event/parsers.rs
index e39d384..f2e79b7 100644
--- a/src/osu_file/events/normal_event/parsers.rs
+++ b/src/osu_file/events/normal_event/parsers.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    combinator::eof,
+    combinator::{eof, map_opt},
     error::context,
     sequence::{preceded, tuple},
     IResult, Parser,
@@ -45,11 +45,11 @@ pub fn start_time_offset<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&'a str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        comma_field_type().map(move |time| {
+        map_opt(comma_field_type(), move |time: Integer| {
             if (3..=4).contains(&version) {
-                time + OLD_VERSION_TIME_OFFSET
+                time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                time
+                Some(time)
             }
         }),
     )
@@ -61,11 +61,11 @@ pub fn end_time<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        consume_rest_type().map(move |end_time| {
+        map_opt(consume_rest_type(), move |end_time: Integer| {
             if (3..=4).contains(&version) {
-                end_time + OLD_VERSION_TIME_OFFSET
+                end_time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                end_time
+                Some(end_time)
             }
         }),
     )
-- 
2.43.0


From 352ca3e6a876fb937d817fd9dcb6eb9768eb77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 08/30] fix: report an out of range v3/v4 decimal time instead
 of panicking

---
 src/osu_file/hitobjects/mod.rs   | 73 +++++++++++++++++---------------
 src/osu_file/timingpoints/mod.rs | 21 +++++----
 2 files changed, 48 insertions(+), 46 deletions(-)

diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 288011a..23a2d32 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -196,18 +196,20 @@ impl VersionedFromStr for HitObject {
             .map(|(x, y)| (Position { x, y })),
             preceded(
                 context(ParseHitObjectError::MissingTime.into(), comma()),
-                context(ParseHitObjectError::InvalidTime.into(), comma_field_type()),
-            )
-            // version 3 has a slight time delay of 24ms
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
-                }
+                context(
+                    ParseHitObjectError::InvalidTime.into(),
+                    // version 3 has a slight time delay of 24ms
+                    map_opt(comma_field_type(), |mut t: Decimal| {
+                        if (3..=4).contains(&version) {
+                            if let Either::Left(value) = t.get_mut() {
+                                *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                            }
+                        }
 
-                t
-            }),
+                        Some(t)
+                    }),
+                ),
+            ),
             preceded(
                 context(ParseHitObjectError::MissingObjType.into(), comma()),
                 context(
@@ -374,18 +376,17 @@ impl VersionedFromStr for HitObject {
                     context(ParseHitObjectError::MissingEndTime.into(), comma()),
                     context(
                         ParseHitObjectError::InvalidEndTime.into(),
-                        comma_field_type(),
+                        map_opt(comma_field_type(), |mut t: Decimal| {
+                            if (3..=4).contains(&version) {
+                                if let Either::Left(value) = t.get_mut() {
+                                    *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                                }
+                            }
+
+                            Some(t)
+                        }),
                     ),
-                )
-                .map(|mut t: Decimal| {
-                    if (3..=4).contains(&version) {
-                        if let Either::Left(value) = t.get_mut() {
-                            *value += OLD_VERSION_TIME_OFFSET;
-                        }
-                    }
-
-                    t
-                }),
+                ),
                 hitsample,
             ))(s)?;
 
@@ -416,17 +417,19 @@ impl VersionedFromStr for HitObject {
             ));
             let end_time = context(
                 ParseHitObjectError::InvalidEndTime.into(),
-                map_res(take_until(":"), |s: &str| s.parse()),
-            )
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
-                }
+                map_opt(
+                    map_res(take_until(":"), |s: &str| s.parse()),
+                    |mut t: Decimal| {
+                        if (3..=4).contains(&version) {
+                            if let Either::Left(value) = t.get_mut() {
+                                *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                            }
+                        }
 
-                t
-            });
+                        Some(t)
+                    },
+                ),
+            );
             let (_, (end_time, hitsample)) = tuple((
                 preceded(
                     context(ParseHitObjectError::MissingEndTime.into(), comma()),
@@ -459,7 +462,7 @@ impl VersionedToString for HitObject {
             self.position.y.to_string(),
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
@@ -525,7 +528,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::Spinner { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
@@ -535,7 +538,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::OsuManiaHold { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 4662053..9d04655 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -5,7 +5,7 @@ use crate::osu_file::types::Decimal;
 use either::Either;
 use nom::{
     branch::alt,
-    combinator::{cut, map_res, success, verify, rest},
+    combinator::{cut, map_opt, map_res, success, verify, rest},
     error::context,
     sequence::{preceded, tuple},
     Parser,
@@ -282,17 +282,16 @@ impl VersionedFromStr for TimingPoint {
         ) = tuple((
             context(
                 ParseTimingPointError::InvalidTime.into(),
-                comma_field_type(),
-            )
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
+                map_opt(comma_field_type(), |mut t: Decimal| {
+                    if (3..=4).contains(&version) {
+                        if let Either::Left(value) = t.get_mut() {
+                            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                        }
                     }
-                }
 
-                t
-            }),
+                    Some(t)
+                }),
+            ),
             preceded(
                 context(ParseTimingPointError::MissingBeatLength.into(), comma()),
                 alt((
@@ -448,7 +447,7 @@ impl VersionedToString for TimingPoint {
         let mut fields = vec![
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
-- 
2.43.0


From 5da128b6133a2e5088212f17797b3ac9a278531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 09/30] fix: return None when BPM or slider velocity isn't
 representable instead of panicking

---
 src/osu_file/timingpoints/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 9d04655..4d547de 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -152,13 +152,15 @@ impl TimingPoint {
     }
 
     /// Calculates BPM using the `beatLength` field when unherited.
-    /// - Returns `None` if the timing point is inherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal or the BPM isn't representable.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
                 if uninherited {
                     match self.beat_length.get() {
-                        Either::Left(value) => Some(Self::beat_duration_ms_to_bpm(*value)),
+                        Either::Left(value) => rust_decimal::Decimal::ONE
+                            .checked_div(*value)?
+                            .checked_mul(dec!(60000)),
                         Either::Right(_) => None,
                     }
                 } else {
@@ -169,7 +171,7 @@ impl TimingPoint {
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-    /// - Returns `None` if the timing point is uninherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is uninherited, `beat_length` isn't a valid decimal or the multiplier isn't representable.
     pub fn calc_slider_velocity_multiplier(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
@@ -178,7 +180,7 @@ impl TimingPoint {
                 } else {
                     match self.beat_length.get() {
                         Either::Left(value) => {
-                            Some(rust_decimal::Decimal::ONE / (value / dec!(-100)))
+                            rust_decimal::Decimal::ONE.checked_div(value.checked_div(dec!(-100))?)
                         }
                         Either::Right(_) => None,
                     }
-- 
2.43.0


From e6ae21dedbef55ddd4d8c5a8bc14280f1ffae3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 10/30] fix: fill in every omitted field and do not underflow
 when editing continuing fields

---
 src/osu_file/events/storyboard/cmds/types.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 26c2562..9fc1eeb 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -44,7 +44,7 @@ impl<T> ContinuingFields<T> {
             if last_continuing.1.is_none() {
                 // find last 1 field
                 let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.continuing.iter().rev().nth(1)
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -64,7 +64,7 @@ impl<T> ContinuingFields<T> {
         fields: (T, Option<T>),
     ) -> Result<(), ContinuingSetError> {
         // if index isn't the last index, field 1 being none will return an error
-        if index != self.continuing.len() - 1 && fields.1.is_none() {
+        if Some(index) != self.continuing.len().checked_sub(1) && fields.1.is_none() {
             Err(ContinuingSetError::InvalidSecondFieldOption)
         } else {
             match self.continuing.get_mut(index) {
@@ -135,11 +135,11 @@ impl Colours {
     }
 
     pub fn push_continuing_rgbs(&mut self, continuing_fields: (u8, Option<u8>, Option<u8>)) {
-        if let Some(last_continuing) = self.continuing.last() {
+        if let Some(&last_continuing) = self.continuing.last() {
             if last_continuing.1.is_none() {
                 // find last field
                 let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.continuing.iter().rev().nth(1)
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -148,10 +148,12 @@ impl Colours {
                 };
 
                 self.continuing.last_mut().unwrap().1 = last_field.copied();
-            } else if last_continuing.2.is_none() {
+            }
+
+            if last_continuing.2.is_none() {
                 // find last field
                 let last_field = if let Some(last_continuing_with_2) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.continuing.iter().rev().nth(1)
                 {
                     last_continuing_with_2.2.as_ref()
                 } else {
@@ -171,7 +173,7 @@ impl Colours {
         fields: (u8, Option<u8>, Option<u8>),
     ) -> Result<(), ContinuingRGBSetError> {
         // if index isn't the last index, b or g being none will return an error
-        let index_is_last = index == self.continuing.len() - 1;
+        let index_is_last = Some(index) == self.continuing.len().checked_sub(1);
 
         if !index_is_last && fields.1.is_none() {
             Err(ContinuingRGBSetError::InvalidFieldOption(
-- 
2.43.0


From 6f9a809a33091eba5834bc4fe315bd90a89fddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 11/30] fix: report the second item of edge sets and curve
 points as InvalidSecondItem

---
 src/osu_file/hitobjects/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/hitobjects/types.rs b/src/osu_file/hitobjects/types.rs
index 182004d..0d71d3b 100644
--- a/src/osu_file/hitobjects/types.rs
+++ b/src/osu_file/hitobjects/types.rs
@@ -81,7 +81,7 @@ impl VersionedFromStr for EdgeSet {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_versioned_type(version),
             ),
         ))(s)?;
@@ -120,7 +120,7 @@ impl VersionedFromStr for CurvePoint {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_type(),
             ),
         ))(s)?;
-- 
2.43.0


From 82fc0b4b4a0ab68aff9355e7c0db3a87c019a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 12/30] fix: do not wrap large timing point sample indices into
 negative numbers

---
 src/osu_file/timingpoints/types.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/osu_file/timingpoints/types.rs b/src/osu_file/timingpoints/types.rs
index 824afeb..2e43aca 100644
--- a/src/osu_file/timingpoints/types.rs
+++ b/src/osu_file/timingpoints/types.rs
@@ -181,7 +181,7 @@ impl VersionedFrom<SampleIndex> for Integer {
     fn from(sample_index: SampleIndex, _: Version) -> Option<Self> {
         let sample_index = match sample_index {
             SampleIndex::OsuDefaultHitsounds => 0,
-            SampleIndex::Index(sample_index) => sample_index.get() as Integer,
+            SampleIndex::Index(sample_index) => Integer::try_from(sample_index.get()).ok()?,
         };
 
         Some(sample_index)
@@ -189,8 +189,13 @@ impl VersionedFrom<SampleIndex> for Integer {
 }
 
 impl VersionedToString for SampleIndex {
-    fn to_string(&self, version: Version) -> Option<String> {
-        <i32 as VersionedFrom<SampleIndex>>::from(*self, version).map(|index| index.to_string())
+    fn to_string(&self, _: Version) -> Option<String> {
+        let index = match self {
+            SampleIndex::OsuDefaultHitsounds => 0,
+            SampleIndex::Index(index) => index.get(),
+        };
+
+        Some(index.to_string())
     }
 }
 
-- 
2.43.0


From 3c8e6e09e946c998f8ae23b2cbbd933386d7465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 13/30] fix: write the commands of legacy sprites, animations
 and samples in to_string

---
 src/osu_file/events/normal_event/mod.rs | 52 ++++++++++++-------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index b6d555a..3472d45 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -414,13 +414,7 @@ impl VersionedFromStr for SpriteLegacy {
 
 impl VersionedToString for SpriteLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{SPRITE_LEGACY_HEADER},{},{},{}{}",
-            self.layer.to_string(version).unwrap(),
-            self.origin.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            position_str(&self.position),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -434,7 +428,13 @@ impl EventWithCommands for SpriteLegacy {
     }
 
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{SPRITE_LEGACY_HEADER},{},{},{}{}",
+            self.layer.to_string(version).unwrap(),
+            self.origin.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            position_str(&self.position),
+        ))
     }
 }
 
@@ -496,13 +496,7 @@ impl VersionedFromStr for AnimationLegacy {
 
 impl VersionedToString for AnimationLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{ANIMATION_LEGACY_HEADER},{},{},{}{}",
-            self.layer.to_string(version).unwrap(),
-            self.origin.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            position_str(&self.position),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -514,7 +508,13 @@ impl EventWithCommands for AnimationLegacy {
         &mut self.commands
     }
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{ANIMATION_LEGACY_HEADER},{},{},{}{}",
+            self.layer.to_string(version).unwrap(),
+            self.origin.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            position_str(&self.position),
+        ))
     }
 }
 
@@ -582,15 +582,7 @@ impl VersionedFromStr for SampleLegacy {
 
 impl VersionedToString for SampleLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{SAMPLE_LEGACY_HEADER},{},{},{}{}",
-            self.time,
-            self.layer.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            self.volume
-                .map(|v| format!(",{}", v.to_string(version).unwrap()))
-                .unwrap_or_default(),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -604,6 +596,14 @@ impl EventWithCommands for SampleLegacy {
     }
 
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{SAMPLE_LEGACY_HEADER},{},{},{}{}",
+            self.time,
+            self.layer.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            self.volume
+                .map(|v| format!(",{}", v.to_string(version).unwrap()))
+                .unwrap_or_default(),
+        ))
     }
 }
-- 
2.43.0


From 7d52d9e1bd201c0ae5b00f6b40d2f97654942487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 14/30] fix: reject pushing a command with no indentation
 instead of panicking

---
 src/osu_file/events/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 81cb969..c65bafc 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -444,7 +444,9 @@ fn commands_to_string_variables(
 
 pub trait EventWithCommands {
     fn try_push_cmd(&mut self, cmd: Command, indentation: usize) -> Result<(), CommandPushError> {
-        if indentation == 1 {
+        if indentation == 0 {
+            Err(CommandPushError::InvalidIndentation(1, indentation))
+        } else if indentation == 1 {
             // first match no loop required
             self.commands_mut().push(cmd);
             Ok(())
-- 
2.43.0


From 535eeca5273d1a5d1ab47bf8b04b0e8d9c9a249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 15/30] fix: do not panic on animation file paths without a
 file name

---
 src/osu_file/events/storyboard/sprites.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index 085033b..4a2282c 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -246,7 +246,10 @@ impl Animation {
         let mut file_names = Vec::with_capacity(self.frame_count as usize);
 
         let filepath = self.filepath.get();
-        let mut file_name = filepath.file_name().unwrap().to_string_lossy().to_string();
+        let mut file_name = match filepath.file_name() {
+            Some(file_name) => file_name.to_string_lossy().to_string(),
+            None => String::new(),
+        };
         let file_extension = match filepath.extension() {
             Some(extension) => {
                 let extension = format!(".{}", extension.to_string_lossy());
-- 
2.43.0


From cbccaf50c627aeb9652a89804a837b1f488d923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 16/30] fix: count line breaks, not lines, between the fields
 of a section

---
 src/helper/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 5293015..8f9f4dd 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -126,7 +126,7 @@ macro_rules! general_section_inner {
 
                 if !s.trim().is_empty() {
                     // line count from fields
-                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.lines().count()).sum() };
+                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.matches('\n').count()).sum() };
 
                     return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
                 }
@@ -148,7 +148,7 @@ macro_rules! general_section_inner {
                         _ => return Err(crate::osu_file::types::Error::new(ParseError::InvalidKey, line_count)),
                     }
 
-                    line_count += ws_2.lines().count();
+                    line_count += ws_2.matches('\n').count();
                     parsed_fields.push(name);
                 }
 
-- 
2.43.0


From 9e768c43b669773114370a24fae4c499b31eae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 17/30] fix: do not count the indentation of a section header
 or of its first line as a line

---
 src/osu_file/mod.rs     | 6 +++---
 src/osu_file/osb/mod.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 56d52c3..e160004 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -246,17 +246,17 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.lines().count() + pre_section_count;
+        let mut line_number = trailing_ws.matches('\n').count() + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "General" => {
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index b483a34..49afefc 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -62,14 +62,14 @@ impl VersionedFromStr for Osb {
         let (mut events, mut variables) = (None, None);
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "Variables" => {
-- 
2.43.0


From da3bcea388d79f88e053fff0c7650a6eb2ad882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 18/30] fix: do not read the section after an empty section as
 its content

---
 src/parsers.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 055d853..a2653ba 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -5,11 +5,11 @@ use nom::{
     bytes::complete::{tag, take_till, take_until, take_while},
     character::complete::multispace0,
     character::complete::{char, space0},
-    combinator::{eof, map_res, rest},
+    combinator::{eof, map, map_res, rest},
     error::{FromExternalError, ParseError},
     multi::{many0, separated_list0},
     sequence::{delimited, preceded, terminated, tuple},
-    IResult,
+    IResult, Parser,
 };
 
 use crate::osu_file::{Version, VersionedFromStr};
@@ -140,6 +140,12 @@ pub fn square_section<'a>(
     let section_name_inner = take_till(|c: char| c == ']' || c == '\n');
     let section_name = delimited(section_open, section_name_inner, section_close);
     let section_until = alt((take_until("\n["), rest));
-
-    tuple((multispace0, section_name, multispace0, section_until))
+    // the white space is taken from the section's text,
+    // so that an empty section doesn't reach into the next one
+    let section = section_until.and_then(tuple((multispace0, rest)));
+
+    map(
+        tuple((multispace0, section_name, section)),
+        |(ws, section_name, (ws2, section))| (ws, section_name, ws2, section),
+    )
 }
-- 
2.43.0


From a078c9c5a552255b943abfdb50f3a134c43a7dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 19/30] fix: report a section header without its bracket
 instead of dropping the rest of the file

---
 src/osu_file/mod.rs       | 18 +++++++++++++++++-
 src/osu_file/osb/error.rs |  8 ++++++++
 src/osu_file/osb/mod.rs   | 18 +++++++++++++++++-
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index e160004..a9812c1 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -231,7 +231,7 @@ impl FromStr for OsuFile {
             .collect::<Vec<_>>()
             .join("\n");
 
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(8);
 
@@ -304,6 +304,22 @@ impl FromStr for OsuFile {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // not a valid section header
+        let header = unparsed.trim_start();
+        if !header.is_empty() {
+            let header_ws = &unparsed[..unparsed.len() - header.len()];
+            line_number += header_ws.matches('\n').count();
+
+            let header = header.lines().next().unwrap_or_default().to_string();
+            let err = if header.starts_with('[') {
+                ParseError::SectionNameNoCloseBracket(header)
+            } else {
+                ParseError::SectionNameNoOpenBracket(header)
+            };
+
+            return Err(Error::new(err, line_number));
+        }
+
         Ok(OsuFile {
             version,
             general,
diff --git a/src/osu_file/osb/error.rs b/src/osu_file/osb/error.rs
index 7d08d20..d69b2ae 100644
--- a/src/osu_file/osb/error.rs
+++ b/src/osu_file/osb/error.rs
@@ -15,6 +15,14 @@ pub enum ParseError {
     /// Unknown section name defined.
     #[error("There is an unknown section")]
     UnknownSection,
+    /// Error used when the opening bracket for the section is missing.
+    #[error("The opening bracket of the section is missing, expected `[` before {0}")]
+    #[strum(disabled)]
+    SectionNameNoOpenBracket(String),
+    /// Error used when the closing bracket for the section is missing.
+    #[error("The closing bracket of the section is missing, expected `]` after {0}")]
+    #[strum(disabled)]
+    SectionNameNoCloseBracket(String),
     #[error(transparent)]
     #[strum(disabled)]
     ParseVariableError(#[from] ParseVariableError),
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 49afefc..5ee8e79 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -54,7 +54,7 @@ impl VersionedFromStr for Osb {
 
         // we get sections
         // only valid sections currently are [Variables] [Events]
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(2);
         let mut line_number = pre_section_count;
@@ -105,6 +105,22 @@ impl VersionedFromStr for Osb {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // not a valid section header
+        let header = unparsed.trim_start();
+        if !header.is_empty() {
+            let header_ws = &unparsed[..unparsed.len() - header.len()];
+            line_number += header_ws.matches('\n').count();
+
+            let header = header.lines().next().unwrap_or_default().to_string();
+            let err = if header.starts_with('[') {
+                ParseError::SectionNameNoCloseBracket(header)
+            } else {
+                ParseError::SectionNameNoOpenBracket(header)
+            };
+
+            return Err(Error::new(err, line_number));
+        }
+
         Ok(Some(Osb { events, variables }))
     }
 }
-- 
2.43.0


From c1b743e59f5cf3b42455230af453319c9aaae524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 20/30] fix: a comment that ends with a bracket is not a
 section header

---
 src/osu_file/mod.rs     | 2 +-
 src/osu_file/osb/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index a9812c1..0e2abed 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -207,7 +207,7 @@ impl FromStr for OsuFile {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || !s.starts_with('[') && !s.ends_with(']')
             })
             .count();
 
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 5ee8e79..9c78c25 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -28,7 +28,7 @@ impl VersionedFromStr for Osb {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || !s.starts_with('[') && !s.ends_with(']')
             })
             .count();
 
-- 
2.43.0


From 4275a79f8706c9c5ce133bf90494e9b845f46bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 21/30] fix: count the blank lines before the version line for
 unexpected lines as well

---
 src/osu_file/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 0e2abed..6cd21b2 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -203,6 +203,8 @@ impl FromStr for OsuFile {
             return Err(ParseError::InvalidFileVersion.into());
         }
 
+        let leading_lines = trailing_ws.matches('\n').count();
+
         let pre_section_count = s
             .lines()
             .take_while(|s| {
@@ -222,7 +224,10 @@ impl FromStr for OsuFile {
                 continue;
             }
 
-            return Err(Error::new(ParseError::UnexpectedLine, i));
+            return Err(Error::new(
+                ParseError::UnexpectedLine,
+                leading_lines + i,
+            ));
         }
 
         let s = s
@@ -246,7 +251,7 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.matches('\n').count() + pre_section_count;
+        let mut line_number = leading_lines + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
             line_number += ws.matches('\n').count();
-- 
2.43.0


From 039e39e2a6700de1e58254fcc71b620d9b6176b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 22/30] fix: name the invalid list of a slider instead of the
 field after it

---
 src/parsers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index a2653ba..d1d02c9 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::{tag, take_till, take_until, take_while},
     character::complete::multispace0,
     character::complete::{char, space0},
-    combinator::{eof, map, map_res, rest},
+    combinator::{eof, map, map_res, peek, rest},
     error::{FromExternalError, ParseError},
     multi::{many0, separated_list0},
     sequence::{delimited, preceded, terminated, tuple},
@@ -69,7 +69,11 @@ where
         T::from_str(s, version).map(|v| v.unwrap())
     });
 
-    separated_list0(tag("|"), item)
+    // the list has to end where the field ends, otherwise an item of it is invalid
+    terminated(
+        separated_list0(tag("|"), item),
+        peek(alt((eof, tag(",")))),
+    )
 }
 
 pub fn comma<'a, E>() -> impl FnMut(&'a str) -> IResult<&'a str, &str, E>
-- 
2.43.0


From 165b21fdd84b65b35a5ca9542e339d69cd926435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 23/30] fix: count the blank lines at the end of a storyboard
 section

---
 src/osu_file/osb/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 9c78c25..2257ab2 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -102,7 +102,7 @@ impl VersionedFromStr for Osb {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count().saturating_sub(1);
+            line_number += section.matches('\n').count();
         }
 
         // not a valid section header
-- 
2.43.0


From 43c29e82489134dbd736e0fa53bce0a15c24aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 24/30] fix: name the right section in the invalid key errors
 of Metadata and Events

---
 src/osu_file/events/error.rs   | 2 +-
 src/osu_file/metadata/error.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/error.rs b/src/osu_file/events/error.rs
index 2fa587d..82e68c2 100644
--- a/src/osu_file/events/error.rs
+++ b/src/osu_file/events/error.rs
@@ -10,7 +10,7 @@ pub enum ParseError {
     #[error("Invalid colon set, expected format of `key: value`")]
     InvalidColonSet,
     /// Invalid key name was used.
-    #[error("The key doesn't exist in `General`")]
+    #[error("The key doesn't exist in `Events`")]
     InvalidKey,
     /// A `storyboard` `command` was used without defined sprite or animation sprite.
     #[error("A storyboard command was used without defined sprite or animation sprite")]
diff --git a/src/osu_file/metadata/error.rs b/src/osu_file/metadata/error.rs
index a014604..1e17ce3 100644
--- a/src/osu_file/metadata/error.rs
+++ b/src/osu_file/metadata/error.rs
@@ -18,7 +18,7 @@ pub enum ParseError {
     #[error("Invalid colon set, expected format of `key: value`")]
     InvalidColonSet,
     /// Invalid key name was used.
-    #[error("The key doesn't exist in `General`")]
+    #[error("The key doesn't exist in `Metadata`")]
     InvalidKey,
 }
 
-- 
2.43.0


From da8c9b6d98008a75f1648f7cae5d259c369409ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 25/30] fix: read an empty Tags field as no tags instead of a
 single empty one

---
 src/osu_file/metadata/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 92ffea7..8b3a6ea 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -22,6 +22,10 @@ versioned_field!(Version, String, no_versions, |s| { Ok(s.to_string()) } -> (),,
 versioned_field!(Source, String, no_versions, |s| { Ok(s.to_string()) } -> (),,);
 versioned_field!(Tags, Vec<String>, no_versions,
     |s| {
+        if s.is_empty() {
+            return Ok(Some(Tags(Vec::new())));
+        }
+
         let mut space_separated_list = separated_list0(
             tag::<_, _, nom::error::Error<_>>(" "),
             take_till(|c| c == ' '),
-- 
2.43.0


From ba78048e44f32ddf40579a1e01f45c18dd9dfd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:24 +0000
Subject: [PATCH 26/30] fix: keep the whole file name of a hit sample that
 contains a colon

---
 src/osu_file/hitobjects/types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/hitobjects/types.rs b/src/osu_file/hitobjects/types.rs
index 0d71d3b..7182a95 100644
--- a/src/osu_file/hitobjects/types.rs
+++ b/src/osu_file/hitobjects/types.rs
@@ -5,7 +5,7 @@ use std::num::{NonZeroUsize, ParseIntError};
 use nom::{
     branch::alt,
     bytes::complete::{tag, take_while},
-    combinator::map_res,
+    combinator::{map_res, rest},
     error::context,
     sequence::{preceded, terminated, tuple},
     Parser,
@@ -567,7 +567,8 @@ impl VersionedFromStr for HitSample {
                             ParseHitSampleError::MissingSeparator.into(),
                             field_separator(),
                         ),
-                        field().map(Some),
+                        // the file name is the last item, it has the rest of the text
+                        rest.map(Some),
                     ),
                 )),
             ))
-- 
2.43.0


From 3e407a7a0f70ffd6dbedc9efa29c3c30956e76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 27/30] fix: compare the spaces inside values in osu_str_eq

---
 src/lib.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6ed5bf4..ff8a1cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -87,26 +87,9 @@ pub fn osu_str_trimmer(s: &str) -> String {
                 continue;
             }
 
-            if line.contains(':') {
-                let mut header = true;
-                let mut value = false;
-
-                let line = line
-                    .chars()
-                    .filter(|c| {
-                        if !header && !value && *c == ':' {
-                            header = false;
-                            value = true;
-                            return true;
-                        }
-
-                        if header && c.is_whitespace() {
-                            return false;
-                        }
-
-                        true
-                    })
-                    .collect::<String>();
+            if let Some((key, value)) = line.split_once(':') {
+                // only the spacing around the colon is ignored, not the one in the value
+                let line = format!("{}:{}", key.trim_end(), value.trim_start());
 
                 if section_coloned {
                     section_values_inner.push(line);
-- 
2.43.0


From a6487b9d84d35e9513c970765fd897bcfa83421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 28/30] fix: trim white space next to a byte order mark in
 osu_str_trimmer

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ff8a1cd..61b81e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,7 +55,7 @@ pub fn osu_str_trimmer(s: &str) -> String {
         };
 
     for line in s.lines() {
-        let line = line.trim().replace('\u{feff}', "");
+        let line = line.replace('\u{feff}', "").trim().to_string();
 
         if line.is_empty() {
             continue;
-- 
2.43.0


From 960ea789157f67c7280e43a7d5f0cf2aa210953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 29/30] fix: name the missing easing of a move command without
 columns

---
 src/osu_file/events/storyboard/cmds/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/cmds/mod.rs b/src/osu_file/events/storyboard/cmds/mod.rs
index d360c6d..d8ba36b 100644
--- a/src/osu_file/events/storyboard/cmds/mod.rs
+++ b/src/osu_file/events/storyboard/cmds/mod.rs
@@ -631,7 +631,7 @@ impl VersionedFromStr for Command {
                 let continuing = many0(preceded(comma(), tuple((comma_field_type(), continuing))));
 
                 preceded(
-                    tuple(((tag("M")), peek(comma()))),
+                    tuple(((tag("M")), peek(alt((eof, comma()))))),
                     cut(tuple((
                         easing_start_end_time(),
                         preceded(
-- 
2.43.0


From 500b6a5557f3752d2915c007be88daf005a968ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:13 +0000
Subject: [PATCH 30/30] fix: give the BPM of timing points that do not say
 whether they are inherited

---
 src/osu_file/timingpoints/mod.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 4d547de..76f776c 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -154,20 +154,15 @@ impl TimingPoint {
     /// Calculates BPM using the `beatLength` field when unherited.
     /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal or the BPM isn't representable.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
-        match self.uninherited {
-            Some(uninherited) => {
-                if uninherited {
-                    match self.beat_length.get() {
-                        Either::Left(value) => rust_decimal::Decimal::ONE
-                            .checked_div(*value)?
-                            .checked_mul(dec!(60000)),
-                        Either::Right(_) => None,
-                    }
-                } else {
-                    None
-                }
+        if self.uninherited() {
+            match self.beat_length.get() {
+                Either::Left(value) => rust_decimal::Decimal::ONE
+                    .checked_div(*value)?
+                    .checked_mul(dec!(60000)),
+                Either::Right(_) => None,
             }
-            None => None,
+        } else {
+            None
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-- 
2.43.0

