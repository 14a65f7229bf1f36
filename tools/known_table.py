known("C17", "hit samples are read but not written for versions 3-9 (a line with one loses it)",
      ["Spinner|differs:/hitsample/variant", "HitCircle|differs:/hitsample/variant",
       "SliderNoPoints|differs:/hitsample/variant", "SliderSample|differs:/hitsample/variant",
       "Hold|differs:/hitsample/0", "HitSample|not written"], R(3, 9))
known("C17", "version 3 hit circles are written with a trailing comma, which reads back as a default hit sample "
      "(a line without it, or with a non-default hit sample, changes)", ["HitCircle|differs:/hitsample/0"], [3])
known("C17", "hit sample volume and file name are read but not written for versions 10-11",
      ["HitSample|differs:/volume/0/variant", "HitSample|differs:/filename"], [10, 11])
known("C17", "a hit sample file name of only spaces that is followed by ignored extra fields reads back as empty",
      ["HitSample|differs:/filename"], [12, 13, 14])
known("C17", "version 4 timing points: the volume is read but not written", ["TimingPoint|differs:/volume"], [4])
known("C17", "ColourTransformation is accepted but not written for version 14",
      ["ColourTransformation|not written", "events::normal_event::ColourTransformation|not written"], [14])
known("C17", "AudioHash is accepted but not written for version 14", ["general::AudioHash|not written"], [14])
known("C17", "CurrentTime is accepted for every version but only written for version 10",
      ["editor::CurrentTime|not written"], R(3, 9) + R(11, 14))
known("C17", "EditorBookmarks and EditorDistanceSpacing are accepted but not written for versions above 5",
      ["general::EditorDistanceSpacing|not written", "general::EditorBookmarks|not written"], R(6, 14))
fixed("C01", "5746c64", "an unparsable BeatmapID or BeatmapSetID panicked instead of giving an error")
fixed("C01", "4e835a1", "an empty last section underflowed the line counter")
fixed("C03", "889dc88", "an event line that only starts like a known header was cut in the middle of the header")
fixed("C01", "2697512", "storyboard command lines were sliced at a char count instead of a byte offset")
fixed("C01", "091ad4d", "an invalid animation loop type panicked")
fixed("C17", "583e319", "multi digit custom sample sets of hit sound triggers were misread, extra fields ignored")
fixed("C01", "b5dadf6", "a v3/v4 event time near i32::MAX overflowed")
fixed("C01", "352ca3e", "a v3/v4 decimal time out of range panicked")
fixed("C02", "5da128b", "BPM and slider velocity of extreme values panicked instead of returning None")
fixed("C02", "e6ae21d", "editing the continuing fields of a command underflowed or left holes")
fixed("C03", "6f9a809", "an invalid second item of an edge set or curve point was reported as the wrong error")
fixed("C17", "82fc0b4", "timing point sample indices above i32::MAX wrapped into negative numbers when written")
fixed("C17", "3c8e6e0", "legacy sprites, animations and samples lost their commands when written")
fixed("C02", "7d52d9e", "pushing a command with no indentation panicked")
fixed("C02", "535eeca", "an animation file path without a file name panicked")
fixed("C11", "cbccaf5", "an indented or repeated white space line between fields was counted as an extra line")
fixed("C10", "9e768c4", "the indentation of a section header or of its first line was counted as a line")
fixed("C10", "da3bcea", "a section after an empty section was read as the content of the empty one")
fixed("C10", "a078c9c", "a section header without its bracket silently dropped the rest of the file")
fixed("C10", "c1b743e", "a comment ending with a bracket before the sections was taken as a section header")
fixed("C10", "4275a79", "unexpected lines were reported without the blank lines before the version line")
known("C10", "a blank line between two sections is not counted, so errors of later sections are reported one line too "
      "early per such blank line (the existing test double_sections asks for exactly that)",
      ["blank line before any section name|error line index of a section",
       "blank line before any section name|error line index|DuplicateSections",
       "blank line before any section name|error line index|UnknownSection",
       "blank line between sections|error line index of a section"])
known("C02", "TimingPoint::beat_duration_ms_to_bpm, bpm_to_beat_duration_ms and new_inherited panic when the caller passes a "
      "zero or an extreme duration, BPM or multiplier (decimal division by zero or overflow); their signatures return a "
      "plain number, so a repair would change the API",
      ["timingpoints::TimingPoint::beat_duration_ms_to_bpm: decimal div overflows or divides by zero in osu_file::timingpoints::TimingPoint::beat_duration_ms_to_bpm",
       "timingpoints::TimingPoint::beat_duration_ms_to_bpm: decimal mul overflows or divides by zero in osu_file::timingpoints::TimingPoint::beat_duration_ms_to_bpm",
       "timingpoints::TimingPoint::bpm_to_beat_duration_ms: decimal div overflows or divides by zero in osu_file::timingpoints::TimingPoint::bpm_to_beat_duration_ms",
       "timingpoints::TimingPoint::new_inherited: decimal div overflows or divides by zero in osu_file::timingpoints::TimingPoint::new_inherited",
       "timingpoints::TimingPoint::new_inherited: decimal mul overflows or divides by zero in osu_file::timingpoints::TimingPoint::new_inherited"])
fixed("C03", "039e39e", "an invalid item in a slider's curve points, edge sounds or edge sets was reported as the next field "
      "missing (1,2,3,2,0,B|bad,1,2 -> MissingSlidesCount instead of InvalidCurvePoint)")
fixed("C20", "165b21f", "errors behind a storyboard section that ends in blank lines were reported too early")
known("C08", "Colours::push_continuing_rgbs takes a colour with blue but without green, which new and set_continuing_rgbs "
      "reject; written, the blue value takes the place of green", ["Colours|push|accepts"])
fixed("C25", "43c29e8", "an invalid key of Metadata (or Events) was said not to exist in General")
fixed("C24", "da8c9b6", "no tags were written as an empty field that read back as one empty tag")
fixed("C13", "ba78048", "the file name of a hit sample was cut at a colon in it and the rest dropped")
known("C13", "a storyboard Sprite line with more columns than its kind has is accepted and the rest is dropped, also when the map is written back "
      "(rejecting such lines could refuse maps that are read today)", ["Object:Sprite|text behind the last column is lost"])
known("C13", "an audio Sample line with more columns than its kind has is accepted and the rest is dropped, also when the map is written back "
      "(rejecting such lines could refuse maps that are read today)", ["AudioSample:Sample|text behind the last column is lost"])

fixed("C21", "3e407a7", "values that differ only in inner spaces compared equal")
fixed("C21", "a6487b9", "white space next to a byte order mark was not ignored")
fixed("C03", "960ea78", "a move command without any column was reported as an unknown command type")
fixed("C29", "500b6a5", "the tempo of a timing point whose line does not say that it is uninherited was not given")
