prop("C07", "The format version reaches every nested parser and printer",
     "Parsing or printing an object at a given format version parses or prints every nested value it consists of at "
     "that same version; no nested value whose format depends on the version is ever read or written as if it "
     "belonged to another version.",
     ["inputs", "configurations"], "every format version 3..14 and every object with nested values",
     "Tests use one version per test, almost always 14, so a hard-coded version at one of about 380 call sites stays "
     "invisible.",
     ["src/osu_file", "src/helper", "src/parsers.rs"],
     [("version parameter of the versioned conversion traits", "src/osu_file/types.rs"),
      ("version argument forwarded at every call", "src/osu_file/**")],
     check=("interprocedural copy-origin dataflow over MIR",
            "Decides the forwarding clause exactly: every version argument in the crate originates from the caller's "
            "own version. Does not decide what each callee does with its version."))
prop("C14", "Parsing, printing and accessors are pure functions",
     "Parsing, printing, and every accessor and mutator depend only on their arguments and affect nothing but the "
     "values they are given: no file, environment, clock, network, thread, global state or hash-order dependence.",
     ["inputs", "histories", "schedules"], "every call of every function of the crate, in any order, on any thread",
     "A test observes one result in one environment; it cannot show that no path consults ambient state.",
     ["src"], [("no effectful call and no mutable static anywhere in the crate", "src/**")],
     check=("effect analysis by call-graph reachability over MIR",
            "Sound for the deny table over the resolved call graph; trusts that other std/nom/rust_decimal functions "
            "are pure."))
prop("C15", "Values are plain data: thread-safe, with coherent equality and hash",
     "Every public data type can be shared between threads, two values are equal only if all of their fields are "
     "equal, and equal values have equal hashes and compare as equal.",
     ["inputs", "schedules"], "every pair of values of every public type",
     "Tests compare a few hand-written values; a field left out of equality or hashing is invisible until two values "
     "differ exactly there.",
     ["src/osu_file"], [("derived PartialEq/Eq/Hash/Ord on every data type", "src/osu_file/**")],
     check=("type walk and field-coverage analysis of trait implementations",
            "Exact for compiler-derived implementations; hand-written equality is evaluated on two symbolic values and "
            "compared with equality of all fields, other hand-written ones must read every field."))
prop("C18", "Parsing and printing use bounded stack whatever the nesting",
     "Parsing and printing never recurse, so neither long sections nor deeply nested storyboard commands can exhaust "
     "the stack.",
     ["inputs"], "every input length and every command nesting depth",
     "Tests nest commands two or three deep; stack exhaustion needs depth no test reaches.",
     ["src/osu_file/events/mod.rs", "src/osu_file/events/storyboard/cmds/mod.rs"],
     [("explicit stacks instead of recursion for nested commands", "src/osu_file/events/mod.rs")],
     check=("call-graph acyclicity over MIR", "Exact for the resolved call graph including Display/FromStr dispatch."))
prop("C17", "A line written back reads as the same value, at every version",
     "For every text a line or field parser accepts at some format version, writing the resulting value at that "
     "version gives a text that the same parser accepts, and the value read from it equals the first one (the line "
     "breaks, spaces and number spelling of the original may change; no column may be lost, swapped or changed).",
     ["inputs", "configurations"], "every accepted text of every line format and field type, format versions 3..14",
     "Tests print the line they parsed for one version and a few spellings; a column dropped or swapped for one "
     "version, one optional-column pattern or one enum value stays invisible.",
     ["src/osu_file"],
     [("from_str / to_string of every line and field type", "src/osu_file/**")],
     check=("abstract interpretation of parser and printer MIR with symbolic texts",
            "Columns are tracked symbolically, so the result holds for every column content; lists inside a line are "
            "followed to a bounded length. Pre-existing losses for some versions are listed as known findings."))
prop("C10", "Every section reaches its own field; bad, repeated, unknown ones are rejected",
     "A file is accepted only if it starts with a version line of a supported version (3 to 14), has nothing but blank "
     "and comment lines before the first section header, and consists of known sections that occur at most once each. "
     "The text of each section reaches the parser of that section at the declared version and the field of its name; "
     "no text is dropped, whether the section is empty, first, last or followed by any other. Everything else is "
     "rejected with the matching error at the line at fault. A written file has every section under its own header "
     "and reads back as the same sections.",
     ["inputs", "configurations"], "every sequence of section headers and contents, every version line",
     "Tests read well-formed files; section order, empty sections, damaged headers and rejected versions are "
     "combinations no sample covers.",
     ["src/osu_file/mod.rs", "src/parsers.rs"],
     [("section loop of OsuFile::from_str", "src/osu_file/mod.rs"), ("square_section", "src/parsers.rs"),
      ("Display for OsuFile", "src/osu_file/mod.rs")],
     check=("abstract interpretation of the file parser over section templates",
            "Section parsers are arbitrary functions in the analysis, so it holds whatever they accept; sections have "
            "up to two content lines."))
prop("C11", "Key-value sections: each key fills its own field, bad lines are rejected",
     "In the General, Editor, Metadata and Difficulty sections every documented key fills exactly the field of its "
     "name with the value written behind the colon, whatever other keys, blank lines or order surround it; a key "
     "that is unknown or repeated, a line without a colon and a rejected value are errors at the index of that line; "
     "writing a section gives every filled field once under its own key.",
     ["inputs", "configurations"], "every key, every pair of keys in both orders, every value text, every version",
     "Tests read complete sections in the usual order; a key mapped to the wrong field or a line index off by one "
     "shows only for other orders and spacings.",
     ["src/helper/macros.rs", "src/osu_file/general", "src/osu_file/editor", "src/osu_file/metadata",
      "src/osu_file/difficulty"],
     [("general_section! macro", "src/helper/macros.rs"), ("get_colon_field_value_lines", "src/parsers.rs")],
     check=("abstract interpretation of the section macro expansions over key templates",
            "The value parsers are arbitrary functions in the analysis; up to three keys at arbitrary values plus all "
            "keys at once."))
prop("C12", "List sections are their non-blank lines, in order, one by one",
     "The TimingPoints, Colours and HitObjects sections hold exactly one element per non-blank line, in the order of "
     "the lines, each read from its own line alone; the first line that is rejected is reported with its own error at "
     "its own index, blank lines included in the count; writing gives one line per element in the same order.",
     ["inputs"], "every number and arrangement of lines, blank lines and rejected lines",
     "Tests read a few consecutive valid lines; an element lost at a boundary or an index off by the number of blank "
     "lines shows only in other arrangements.",
     ["src/osu_file/timingpoints/mod.rs", "src/osu_file/colours/mod.rs", "src/osu_file/hitobjects/mod.rs"],
     [("line loops of the list sections", "src/osu_file/*/mod.rs")],
     check=("abstract interpretation of the line loops with arbitrary element parsers",
            "Exact for sections of up to three arbitrary lines and of 300 accepted lines."))
prop("C01", "No input text makes a parser panic",
     "Parsing any text with any of the parsers of the crate (whole .osu and .osb files, sections, lines, fields), at "
     "any supported format version, returns a value, nothing, or an error; it never panics (no failed unwrap, "
     "out-of-range index or slice, slice inside a character, or arithmetic overflow).",
     ["inputs", "configurations"], "every text, every format version 3..14",
     "Beatmaps come from strangers; the panicking spelling (a multi-byte character, a number near a limit, a missing "
     "column, an empty last section) is by nature the one nobody sampled.",
     ["src"],
     [("from_str of every type", "src/osu_file/**"), ("verbose_error_to_error! and its unreachable!", "src/helper/macros.rs"),
      ("square_section", "src/parsers.rs")],
     check=("abstract interpretation of every parser with symbolic texts (panic reachability)",
            "Each path of each parser over symbolic texts is followed; lists inside a line, loops over characters and "
            "multi-line sections are followed to a bounded length."))
prop("C02", "No API function panics on values the API itself hands out or accepts",
     "Printing, accessors, constructors, setters, conversions and error messages of the public API never "
     "panic, whatever public values and whatever supported version they are given, including values read from a file "
     "and then edited; the only exceptions are the documented arithmetic helpers of timing points listed as findings.",
     ["inputs", "histories"], "every public value (arbitrary public fields, every history of constructor, parser and "
     "mutator for types with private fields), every version 3..14",
     "Tests print what they have just parsed; a value that was edited, has an empty list, an unusual combination of "
     "absent fields or an extreme number reaches an unwrap no sample reaches.",
     ["src"],
     [("to_string of every type", "src/osu_file/**"), ("Command continuing-field mutators", "src/osu_file/events/storyboard/cmds"),
      ("TimingPoint getters and setters", "src/osu_file/timingpoints/mod.rs"), ("error display", "src/osu_file/types.rs")],
     check=("abstract interpretation of every public non-parser function (panic reachability)",
            "Lists hold up to two items; types with private fields are built by each constructor or parser and then "
            "changed by one mutator; parsers are covered by C01."))
prop("C03", "The error of a rejected line names the column at fault",
     "When a timing point, hit object, event, colour or storyboard command line is rejected because one of its columns "
     "cannot be read, the error names that column as invalid (InvalidX, InvalidVolume, ...), and when the line ends "
     "before a needed column it is rejected with the error that names the first missing column. No such line is "
     "accepted.",
     ["inputs", "configurations"], "every text of every column, every column at which the line is cut, every format version",
     "Each line type has up to a dozen columns and twice as many error labels, attached by hand through nested "
     "combinators; tests show a few of them, and alternatives and list parsers swallow or relabel errors in the rest.",
     ["src/osu_file/events", "src/osu_file/hitobjects", "src/osu_file/timingpoints/mod.rs", "src/osu_file/colours",
      "src/parsers.rs"],
     [("context(...) labels", "src/osu_file/**"), ("pipe_vec_versioned_map", "src/parsers.rs")],
     check=("abstract interpretation of every line parser with one symbolic text per column; column at fault computed from "
            "the path conditions",
            "Exact per path over arbitrary column texts; lists of up to three items; when no column is unreadable on its "
            "own (time overflow of version 3-4) any label of a present column is allowed; unguarded cases are counted as "
            "undecided."))
prop("C04", "Every column of a line fills exactly its own field",
     "Reading a timing point, hit object, event, colour or storyboard command line puts each column into the field it "
     "stands for and nowhere else: x is not y, volume is not index, the end time is not the start time, items of lists "
     "keep their places; an optional column that is absent leaves its field empty or at its documented default and "
     "does not move the other columns.",
     ["inputs", "configurations"], "every text of every column, every number of columns present, every format version",
     "Tuples of equally typed columns are mapped to fields by position; a swap compiles, round-trips, and shows only "
     "when two columns of a sample differ.",
     ["src/osu_file/events", "src/osu_file/hitobjects", "src/osu_file/timingpoints/mod.rs", "src/osu_file/colours"],
     [("tuple mappings of the line parsers", "src/osu_file/**")],
     check=("abstract interpretation of every line parser with one symbolic text per column; provenance of every field",
            "Exact per accepted path; lists of up to three items."))
prop("C06", "Times of versions 3 and 4 are read with a 24 ms offset, exactly once",
     "In files of format version 3 and 4 the start and end times of hit objects, timing points, breaks, "
     "videos and colour transformations are the written number plus 24; at the versions 5 to 14 they are the written "
     "number itself; no other field is shifted.",
     ["inputs", "configurations"], "every written time, every format version",
     "The offset is repeated in eight parsers and printers; one forgotten or doubled place shifts some objects of old "
     "maps only, and is invisible in a round trip when reading and writing agree.",
     ["src/osu_file/events/normal_event/mod.rs", "src/osu_file/hitobjects/mod.rs", "src/osu_file/timingpoints/mod.rs"],
     [("OLD_VERSION_TIME_OFFSET", "src/osu_file/**")],
     check=("abstract interpretation of every line parser with symbolic columns; linear form of every time field",
            "Exact per accepted path for integers and decimals; the exact decimal sum is that of rust_decimal."))
prop("C05", "Documented names and numbers of every enumeration are read and written right",
     "Each enumeration of the format (layers, origins, easings, sample sets, sample indexes, countdown, mode, overlay "
     "position, loop types, parameters, trigger types, curve types and the 0/1 switches) reads the documented token or "
     "number as the documented variant, writes each variant as that token or number, keeps unlisted numbers only where "
     "a catch-all variant exists (with the number itself), and rejects every other text; the integer conversions of "
     "the API use the same numbers.",
     ["inputs", "configurations"], "every text and every number given to every enumeration, every variant, every version",
     "Tests name a few variants of the larger enumerations; two swapped numbers that agree between reading and writing "
     "also survive every round-trip test.",
     ["src/osu_file/events", "src/osu_file/general/types.rs", "src/osu_file/hitobjects/types.rs",
      "src/osu_file/timingpoints/types.rs", "src/osu_file/editor/types.rs"],
     [("from_str / to_string / From / TryFrom of the enumerations", "src/osu_file/**")],
     check=("abstract interpretation of the conversion functions; extraction of their text-variant tables per path",
            "Exact for an arbitrary text, number and variant, compared with a table transcribed from the format "
            "documentation; the nested trigger type HitSound... is left to C17."))
prop("C16", "Bit flags: every flag is its own documented bit, in reading, writing, editing",
     "The flags of hit sounds (normal, whistle, finish, clap: bits 0 to 3), timing point effects (kiai 0, no first barline "
     "3) and hit object types (circle 0, slider 1, new combo 2, spinner 3, combo skip 4 to 6, hold 7) are read from and "
     "written to exactly those bits; a constructor or setter changes only the flag it names; unused effect bits survive "
     "until they are cleared on request.",
     ["inputs", "histories"], "every number, every combination of flags, every setter applied to every value",
     "A flag shifted by one or a mask that clears a neighbour needs a particular combination of two flags to show.",
     ["src/osu_file/hitobjects", "src/osu_file/timingpoints/types.rs", "src/helper/mod.rs"],
     [("HitSound", "src/osu_file/hitobjects/types.rs"), ("Effects", "src/osu_file/timingpoints/types.rs"),
      ("type_to_string and the type bits of HitObject::from_str", "src/osu_file/hitobjects/mod.rs")],
     check=("abstract interpretation with a bit-level domain over the conversions, getters and setters",
            "Exact for every number and flag combination; the other columns of hit object lines are fixed (C04 varies them)."))
prop("C19", "Events section: each line becomes its event, commands go to the event before",
     "The Events section is read line by line, in order: blank lines are skipped; a line starting with // is kept as a comment "
     "with its exact text; a line indented by spaces or underscores is a storyboard command that is given, with its "
     "indentation, to the event in front of it, and is an error when there is none or it cannot take commands; any other "
     "line becomes the event of its header (0, 1 or Video, 2 or Break, 3, 4, 5, 6, otherwise storyboard object or audio sample). "
     "The first line that is rejected gives its own error at its own index. Writing gives the events in order, one after "
     "another, comments with their text.",
     ["inputs", "configurations"], "every arrangement of lines, headers, comments, indentations and rejected lines, every version",
     "Tests read sections with one or two kinds of events; the hand-over between the kinds, the indentation characters and "
     "the index of the rejected line are combinations.",
     ["src/osu_file/events/mod.rs"],
     [("Events::from_str_variables", "src/osu_file/events/mod.rs"), ("Events::to_string_variables", "src/osu_file/events/mod.rs")],
     check=("abstract interpretation of the line loop with arbitrary event parsers and command insertion",
            "About 200 line templates with arbitrary texts, up to six lines (48 for accepted lines); a command directly behind a "
            "comment is left open; the insertion itself and variables are not decided here."))
prop("C20", "Storyboard file: variables and events, each once, at version 14 only",
     "A storyboard (.osb) text is read at version 14 only. Blank and comment lines may come first; then come the sections "
     "[Variables] and [Events], in any order, each at most once. Every line of [Variables] that is not blank gives one "
     "variable, in order; [Events] is read with the variables defined above it. A repeated section, an unknown section, a "
     "broken section header, other text in front, a rejected variable or event is an error at its own line. Writing puts the "
     "variables in front of the events, writes the events with all the variables, and the written text reads back the same value.",
     ["inputs", "configurations"], "every arrangement of sections, contents, blank lines and rejected parts",
     "Tests read two storyboards; repeated and broken sections and the line of an error depend on what comes before.",
     ["src/osu_file/osb/mod.rs"],
     [("Osb::from_str / to_string", "src/osu_file/osb/mod.rs")],
     check=("abstract interpretation of the storyboard reader and writer with arbitrary variable and events parsers",
            "39 templates of up to three sections with arbitrary content lines; the parsers of the variables and of the events "
            "themselves are taken as arbitrary functions here (C01, C03 and C19 decide them)."))
prop("C21", "Comparing two texts ignores layout and nothing else",
     "The trimmed text and osu_str_eq ignore empty lines, white space around a line, byte order marks, carriage returns, the white space "
     "around the colon of a key, the order of the keys of a section, and text in front of the first section other than a version line on the first line that is not empty. They ignore nothing "
     "else: the version line, a section name, the sections and their order, a line, a key, a value (with its case and inner spaces), how often a "
     "line or key comes, and the order of lines that are not keys all decide whether two texts compare equal. Comparing any two texts ends without a panic.",
     ["inputs"], "every text of the given arrangements with arbitrary section names, keys, values and lines",
     "Every round trip test of the crate compares through this function: when it ignores too much, the tests pass on lost data.",
     ["src/lib.rs"],
     [("osu_str_trimmer / osu_str_eq / assert_eq_osu_str", "src/lib.rs")],
     check=("abstract interpretation of the trimmer and of osu_str_eq on pairs of texts",
            "About 250 pairs of arrangements of up to three sections with arbitrary contents; where the order of two keys depends on texts "
            "that are not known the pair is reported as undecided. White space in front of a line of a section of lines counts as layout here, as in the code.")) 
prop("C26", "Line endings do not change what is read",
     "A beatmap, a storyboard or a section with Windows line endings, on all lines or only on some, or with a line break behind its last line, "
     "reads as the same text with plain line breaks does: the same value, or the same error at the same line.",
     ["inputs"], "every text of the given arrangements with arbitrary lines, keys, values and section names",
     "The test files have plain line breaks only; a carriage return left at the end of a value makes it another value or an error.",
     ["src/osu_file/mod.rs", "src/osu_file/osb/mod.rs", "src/parsers.rs", "src/helper/macros.rs"],
     [("OsuFile::from_str, Osb::from_str and the from_str of every section", "src/osu_file/**")],
     check=("abstract interpretation of the readers of several lines on pairs of texts",
            "About 390 arrangements of up to 9 lines, five placements of line endings each; the parsers of single lines and values and, for whole files, of the "
            "sections are arbitrary functions of their text here."))
prop("C27", "Reading and writing always end, whatever numbers a text holds",
     "Reading any text, comparing texts, and every printing, accessor, mutator and conversion function ends: no loop can go round for ever on any "
     "input. A number that a text may choose freely (a count, a length, a time) never decides how often reading loops or how much memory it reserves; "
     "a short text is read in little time and memory.",
     ["inputs"], "every text and every value the analyses of C01, C02, C10, C12, C19, C20, C21 and C23 cover",
     "A loop that does not advance hangs on one unusual input only; a test that would show it never ends.",
     ["src/osu_file/events/storyboard/types.rs", "src/osu_file/events/mod.rs", "src/parsers.rs", "src/lib.rs"],
     [("every loop of the crate (46 after macro expansion)", "src/**"), ("TriggerType::from_str", "src/osu_file/events/storyboard/types.rs"),
      ("commands_to_string_variables", "src/osu_file/events/mod.rs")],
     check=("abstract interpretation: recurring loop states; unbounded numbers as sizes",
            "A loop is reported when it comes back to the same state of everything that decides whether it goes on, or to one that differs in "
            "counters only, without a decision on the input; loops whose state grows otherwise are not decided. Library loops and iterators are "
            "taken to end on finite inputs."))
prop("C28", "In storyboard commands a variable stands for its value, read and written",
     "In a storyboard command line read with variables, every `$name` behind the header (the text up to the first comma) stands for the value of the "
     "variable of that name: the command read is the one of the line with all of them replaced, in the order the variables are defined. Names no "
     "variable has, and lines without names, are left as they are. Writing a command with variables replaces every occurrence of the value of each variable behind "
     "the header by `$name`, in the same order, and leaves the header alone. (Names do not begin with one another, values contain no name and are not empty "
     "in writing: the format does not say what such variables mean.)",
     ["inputs", "configurations"], "every command, every value of the variables, lines with names in every position",
     "Tests use one variable at one position of one command; a replacement of the first occurrence only, or of the last variable only, passes them.",
     ["src/osu_file/events/mod.rs", "src/osu_file/events/storyboard/cmds/mod.rs"],
     [("Events::from_str_variables", "src/osu_file/events/mod.rs"), ("Command::to_string_variables", "src/osu_file/events/storyboard/cmds/mod.rs")],
     check=("abstract interpretation of the reader and the writer of commands with symbolic variables, compared with a reference replacement",
            "In reading the parser of a command is an arbitrary function of its text. Up to three variables; in writing variables with eleven given "
            "texts as values, against commands with every column filled and lists of up to two items."))
prop("C29", "Tempo, slider velocity and frame names follow from what is stored",
     "Up to the rounding of decimals: beats per minute are 60000 divided by the beat length and back; a timing point that is not inherited (also one whose line does not "
     "say it) has the tempo of its beat length and no slider velocity multiplier, an inherited one has the multiplier -100 divided by its beat "
     "length, which is the one it was made with, and no tempo; nothing is given when the length is no number or the result cannot be represented. "
     "The frames of an animation are the name of its file with the number of the frame, from 0 to the count, in front of its extension.",
     ["inputs", "configurations"], "every timing point, every decimal, every file name of the given shapes",
     "One test reads the frame names of one file; the conversions are not tested.",
     ["src/osu_file/timingpoints/mod.rs", "src/osu_file/events/storyboard/sprites.rs"],
     [("TimingPoint::calc_bpm, calc_slider_velocity_multiplier, new_inherited", "src/osu_file/timingpoints/mod.rs"),
      ("Animation::frame_file_names", "src/osu_file/events/storyboard/sprites.rs")],
     check=("abstract interpretation with symbolic decimals (results compared as products of powers) and path templates",
            "Decimal arithmetic is taken to be exact. Frame counts 0, 1, 2 and 11; twelve shapes of paths with arbitrary parts."))
prop("C23", "Command trees: indentation decides the list, writing keeps order and depth",
     "A storyboard command pushed to an event with indentation d is appended to the list d levels deep that is reached "
     "through the last command of every level above; when some level has no last command that holds commands (a loop or a trigger), or d is 0, "
     "the push is rejected and the event is unchanged. Writing an event with commands gives its own line and "
     "then every command exactly once, parents in front of their children, in order, each indented by its depth, written at the "
     "given version with the given variables. So a written tree, pushed line by line, gives the same tree.",
     ["inputs", "histories"], "every shape of the tree and every indentation",
     "Tests use trees of two levels; the order and depth go wrong only when several levels end together or a level follows a deeper one.",
     ["src/osu_file/events/mod.rs"],
     [("EventWithCommands::try_push_cmd", "src/osu_file/events/mod.rs"), ("commands_to_string_variables", "src/osu_file/events/mod.rs")],
     check=("abstract interpretation on opaque commands, all tree shapes up to the bound",
            "Every tree of up to seven commands (six for pushes) in three labellings, some of up to 15 and nine levels; "
            "six events; contents of the commands are arbitrary."))
prop("C08", "Validated values hold what was given, and only values in range",
     "Through their constructors, parsers, setters and defaults, hit sample volumes are 1..100 or unset (read as 0), audio sample "
     "volumes 0..100, combo skips 0..7, and the value list of a storyboard command has all optional values given except in its last "
     "item (never blue without green). Exactly these are accepted, anything else is rejected with the matching error, and the getters give back what "
     "was given. Replacing one item of a value list changes that item alone; pushing one adds it at the end and fills "
     "the values the former last item left out from the item in front of it, or from the start values. A rejected change "
     "leaves the value as it was. A Decimal read from a text is the number of the whole text if it is one, else exactly that text, and prints so.",
     ["inputs", "histories"], "every number given, every pattern of optional values, every text, every index",
     "Tests try one value on each side of a limit; off-by-one limits, a wrong fill-in value or trimmed texts stay invisible.",
     ["src/osu_file/hitobjects/types.rs", "src/osu_file/events/audio_sample/mod.rs", "src/osu_file/events/storyboard/cmds/types.rs",
      "src/osu_file/types.rs"],
     [("Volume / ComboSkipCount", "src/osu_file/hitobjects/types.rs"), ("ContinuingFields / Colours", "src/osu_file/events/storyboard/cmds/types.rs"),
      ("Decimal", "src/osu_file/types.rs")],
     check=("abstract interpretation of constructors, parsers, setters and getters",
            "Numbers and texts are symbolic, so the ranges hold for every one; value lists are followed up to three items (two for colours). "
            "Whether rust_decimal itself reads a number exactly is trusted."))
prop("C22", "Accessors: what is set is read back, and nothing else changes",
     "On every value of the programming interface, a setter changes what its getter gives to exactly the value that was set and leaves what the other "
     "getters give alone; a value changed through a mutable accessor is what the getter gives afterwards, and merely borrowing it changes nothing; "
     "getters change nothing; constructors keep their arguments, each in the field of its name. The beat length of a timing point "
     "is given exactly for the uninherited, the slider velocity exactly for the inherited ones. An error keeps the line index it was made with.",
     ["inputs", "histories"], "every value of every type with accessors and every argument",
     "Tests hardly call the setters; a setter that writes the wrong field, or an accessor that clears its neighbour, stays invisible.",
     ["src/osu_file"],
     [("getters and setters of the timing points, sprites, animations, events and hit objects", "src/osu_file/**")],
     check=("abstract interpretation of accessor pairs on symbolic objects",
            "Pairs are found by name and type, so a setter under an unrelated name is not covered; types decided by C08 and C16 are left out."))
prop("C25", "Errors keep their line and cause, and say which line and what",
     "An error keeps its cause and its line index through every conversion, offsets added on the way add up, an accepted value passes "
     "unchanged, and the source of an error is that of its cause. Shown, an error names the line number counted from 1 and its cause; shown with "
     "the text of the file it also gives exactly the line at that index, or an empty one when the text has fewer lines. No error reads as an empty text, "
     "no two kinds of one error read the same, an error that names a section names its own, and an error made of "
     "another one of the crate shows what that one shows.",
     ["inputs"], "every error, every line index, every conversion between error types",
     "Tests compare a few messages; a lost offset or a swapped message in one of about 80 conversions stays invisible.",
     ["src/osu_file/types.rs", "src/osu_file/**/error.rs"],
     [("Error<E>", "src/osu_file/types.rs"), ("error enums", "src/osu_file/**/error.rs")],
     check=("abstract interpretation of every instance of the error conversions and of the Display implementations",
            "The conversions between causes are taken as they are declared (From); which cause a line gets is decided by C03, C06 and C11. "
            "Line texts follow five templates with arbitrary line contents."))
prop("C09", "A map's storyboard file is replaced whole or not at all, at its own version",
     "Appending a storyboard file to a map replaces the storyboard part of the map by what the text reads as at the version of the map (by nothing "
     "where storyboard files do not exist at that version); a rejected text gives the error of the storyboard and leaves the map unchanged; no other part of the map "
     "changes. Writing the storyboard file gives the storyboard written at the version of the map, or nothing if there is none. A new map has the given "
     "version and no sections.",
     ["inputs", "histories", "configurations"], "every map, every text and every version",
     "Tests append one good storyboard to a fresh map of version 14.",
     ["src/osu_file/mod.rs"],
     [("OsuFile::append_osb / osb_to_string / new", "src/osu_file/mod.rs")],
     check=("abstract interpretation of the storyboard functions of OsuFile with an arbitrary storyboard parser and printer",
            "Exact; the storyboard parser itself is decided by C20."))
prop("C24", "Fields exist at their own versions only, and defaults are the documented ones",
     "Every field, value type and list section is read, written and given a default at exactly the format versions that have it (for instance the overlay "
     "position at 14 only, combo colours from 5 on, the audio hash up to 13); elsewhere it gives nothing instead of a value. The default of each "
     "field is the documented one, written as documented, and reads back as itself. A new section has no field set.",
     ["configurations", "inputs"], "every type, every format version, every text and value",
     "Tests look at the versions next to a change for some fields; a gate moved by one version in the reader, writer or default alone stays invisible.",
     ["src/osu_file", "src/helper/macros.rs"],
     [("VersionedFromStr / VersionedToString / VersionedDefault", "src/osu_file/**")],
     check=("abstract interpretation with symbolic version, compared with a table of the format",
            "Exact for 66 field and value types and the five list sections on empty text; lines with commands are not opened. Versions at which a "
            "field is accepted although it is not written are in the table as they are (known findings of C17)."))
prop("C13", "No text of an accepted line is silently dropped",
     "A timing point, hit object, event, colour, variable or storyboard command line, and the composite values in it (hit samples, edge sets, "
     "curve points), that has more text behind the last column of its kind is either rejected, or the text becomes part of the value read: "
     "an accepted line never loses a piece of what was written (except the known findings).",
     ["inputs", "configurations"], "every line kind, every text of every column and of the additional text, every format version",
     "Tests use well-formed lines; a parser that stops at the next comma instead of the end accepts them all and drops the rest of longer lines.",
     ["src/osu_file/events", "src/osu_file/hitobjects", "src/osu_file/timingpoints/mod.rs", "src/osu_file/colours", "src/parsers.rs"],
     [("last columns of the line parsers", "src/osu_file/**")],
     check=("abstract interpretation of every line parser with one more symbolic text behind the last column; provenance of that text",
            "Exact per accepted path; lists of up to three items. Lines that end in a hit sample are decided by C04 (the sample is the whole rest) and "
            "by the hit sample's own form."))
