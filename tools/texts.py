prop("C11", "Restricted value types never leave their documented range",
     "A channel is always 0..=15, a velocity 0..=127, a tempo 1..=999, a dot count 0..=7, a tuplet denominator 2..=255, a time-signature numerator 1..=99, a grid at least 1, a play iteration 1..=5, a key signature -7..=7 and a percentage 0..=2000 (per mille). This holds whichever way the value was made: constructors, arithmetic, conversions, defaults, constants or deserialising untrusted data.",
     ["inputs", "programs"], "all arguments of every constructor, conversion, arithmetic operator and deserialisation entry, and every place in the crate that builds such a value",
     "Tests try a few constructor arguments; none deserialises out-of-range data or covers every construction site.",
     ["src/channel.rs", "src/velocity.rs", "src/tempo.rs", "src/duration.rs", "src/rhythm.rs", "src/grid.rs", "src/play_iter.rs", "src/key.rs", "src/percent.rs"],
     [("checked constructors and serde(from/try_from) conversions", "each value type's module")],
     tech="static analysis: invariant checking at every construction site in the MIR (interval dataflow)")

prop("C12", "A pitch's number, staff position and parts always agree",
     "Every pitch that exists satisfies: its note number equals the semitone offset of its solfa plus 12 per octave (lowest octave = 0) plus the accidental's shift and lies in 0..=127, and its staff position equals solfa index plus 7 per octave. A request for a pitch outside 0..=127 is refused (error, or documented panic for the asserting constructor), as is deserialised data naming one.",
     ["inputs", "programs"], "all solfa/octave/accidental combinations and every construction site, including deserialisation and the builder",
     "Tests check a handful of pitches; the relation must hold for all combinations and for every way of making a pitch.",
     ["src/pitch.rs", "src/solfa.rs", "src/octave.rs", "src/sharp_flat.rs"],
     [("value_of computes the number and rejects out-of-range ones", "src/pitch.rs")],
     tech="static analysis: relational invariant checking at every construction site in the MIR")

prop("C13", "Pitch motions change exactly what they name and fail only at the limits",
     "Moving a pitch one step up or down, by a staff delta, toggling an accidental, or applying a key signature yields the pitch with exactly that staff position, or that accidental, and every other part unchanged (a key signature alters only notes without accidental whose solfa is among its sharps F C G D A E B or flats B E A D G C F). The operation fails, without panicking, only when no pitch with that position and accidental has a note number in 0..=127; making a pitch from a staff position clamps the position to 0..=74.",
     ["inputs"], "all pitches, all staff deltas (any 32-bit integer), all accidentals and all 15 key signatures",
     "Tests exercise a few notes per operation; wrap-around at octave borders, extremes and all key/solfa combinations are not enumerated.",
     ["src/pitch.rs", "src/key.rs", "src/solfa.rs", "src/octave.rs"],
     [("up/down/toggle_*/with_score_offset_delta/apply_key rebuild the pitch through the checked constructor", "src/pitch.rs")])

prop("C29", "Note-value lengths and percentage scaling are exact",
     "The tick length of a note value with given dots and tuplet denominator is floor(2*(2*base - floor(base/2^dots))/denominator), base being 960 ticks for a whole note and halving per value, for every combination. Applying a percentage to a length gives floor(length*permille/1000) whenever that fits 32 bits, changing one part of a duration leaves the others, and the shorter of two durations is the one with the smaller tick length. A measure of n beats of 1/d lasts n*960/d ticks.",
     ["inputs"], "8 note values x 8 dot counts x 254 tuplet denominators, and all lengths below 2^31 with all percentages",
     "Tests sample four durations and a few percentages.",
     ["src/duration.rs", "src/percent.rs", "src/trimmer.rs"],
     [("tick_length, PercentU16/RateTrimmer apply", "src/duration.rs, src/percent.rs")])

prop("C30", "Snapping a tick to the grid gives the nearest multiple, never a panic",
     "Snapping a (possibly negative) tick to a grid returns a multiple of the grid at distance at most half a cell from the tick, the one further from zero on a tie, and never panics for ticks up to 2^62 in magnitude. A grid can be made from every positive 32-bit value and from no other.",
     ["inputs"], "all signed ticks up to 2^62 in magnitude and all grids 1..=4294967295", "Tests snap a few ticks on a grid of 100.",
     ["src/grid.rs"], [("snap", "src/grid.rs")])

prop("C14", "A trimmer's total always equals its four parts combined",
     "However a trimmer is made (four numbers, an array, a vector, an edit of the numbers of another one, default, deserialisation), its total is the sum of its four values, and a rate trimmer's total is the rounded product of its four rates; reading the values back gives what it was made of, and two trimmers are equal exactly when all four values are. Adding a tick amount to a trimmer changes its total by exactly that amount, saturating at the smallest/largest total four 16-bit values can have.",
     ["inputs", "programs"], "all 16-bit values, all rates, all 32-bit amounts, and every construction site",
     "Tests add a few amounts to a few trimmers; the cached total and the distribution of an amount over four saturating parts depend on every combination.",
     ["src/trimmer.rs"], [("cached sum set by the constructors and serde conversions", "src/trimmer.rs"), ("added", "src/trimmer.rs")])

prop("C15", "A note's effective start, length and velocity are base plus trimmers, clamped",
     "For every note the effective start tick is the base start plus the start trimmer total clamped to 0..=4294967295, the effective velocity is base plus trimmer total clamped to 0..=127, and the effective length is the nominal length scaled by the trimmer's rate (rounded down). Computing them never overflows or panics, a shared pointer to a note reports the same start, and bars, tempo changes and pedal events start exactly at their stored tick.",
     ["inputs"], "every note (any base values, any trimmer values, any duration)",
     "Tests read a few notes near the origin; overflow at extreme trimmer sums and the clamps at both ends are not sampled.",
     ["src/note.rs", "src/have_start_tick.rs", "src/trimmer.rs"], [("start_tick, tick_len, velocity", "src/note.rs")])

prop("C16", "Editing one attribute of an item changes only that, by the requested amount",
     "Moving, dragging, re-timing, dotting, pitch-stepping, or toggling the tie of a note, and moving or dragging a bar, tempo change or pedal event, or stepping a tempo, yields an item equal to the original except for the named attribute, which changes by exactly the requested amount. A move before tick 0 and a dot count outside 0..=7 or a tempo outside 1..=999 is refused by the operations that report errors, while drags clamp to the valid range; the tie state cycles none, start, end, both.",
     ["inputs"], "every item and every argument for which the moved tick is representable (not above 4294967295)",
     "Tests change one or two example items; none checks that all other attributes survive for all inputs.",
     ["src/note.rs", "src/bar.rs", "src/tempo.rs", "src/ctrl_chg.rs", "src/duration.rs"], [("with_tick_added, drag, with_duration, add_dots, toggle_tie, up/down", "src/note.rs, src/bar.rs, src/tempo.rs, src/ctrl_chg.rs")])

prop("C19", "A bar accepts a repeat mark exactly when it conflicts with none it has",
     "Adding a repeat mark to a bar's marks succeeds exactly when none of the marks already there conflicts with it under a symmetric conflict relation (so the order of adding does not matter), then adds only that mark; otherwise it reports exactly the conflicting marks. Removing a mark or all variation marks removes just those, and the reported variation number and count of marks agree with the marks present.",
     ["inputs", "histories"], "all 2^11 sets of marks and each of the eleven marks",
     "Tests try a dozen combinations of 2048 x 11, mostly in one order.",
     ["src/bar.rs"], [("try_add checks the conflict table", "src/bar.rs")])

prop("C24", "The undo history is a bounded list with a cursor",
     "A new or default history is empty (a default one has room for edits), and recording an edit drops whatever could be redone, puts the edit first, and forgets the oldest entries so that no more than the capacity is kept; undo returns the entry at the cursor and moves it back, redo returns the entry last undone and moves forward. Undo/redo are available exactly when there is something to undo/redo, and while frozen (or with capacity 0) recording changes nothing.",
     ["histories"], "every history of any length, any cursor position, any capacity",
     "Tests run one or two fixed sequences on a store of a fixed capacity.",
     ["src/undo.rs"], [("UndoStore add/undo/redo/freeze", "src/undo.rs")])

prop("C26", "Musical code tables are complete, ordered and mutually inverse",
     "Every conversion between a musical value (note value, dots, tuplet, time-signature denominator, variation, octave, solfa, accidental, key, velocity, tempo, play pass) and its number maps each value to its own documented number, converting back gives the same value, and numbers outside the table are rejected (or clamped by the clamping constructors). The published lists of octaves, solfas, denominators and keys contain every value exactly once in order, and moving an octave or solfa up or down by a number of steps, or adding octaves, gives the one with that number where there is one. Named limits and named values (such as the highest pitch or the key of three flats) are the documented ones.",
     ["inputs"], "all values and all integers of the argument type",
     "Tests check a few entries; a swapped or missing entry elsewhere goes unnoticed.",
     ["src/duration.rs", "src/rhythm.rs", "src/bar.rs", "src/octave.rs", "src/solfa.rs", "src/sharp_flat.rs", "src/key.rs", "src/velocity.rs", "src/tempo.rs", "src/play_iter.rs"],
     [("from_value / value tables", "each value type's module")])

prop("C27", "A start position in the n-th pass maps to the n-th time it is played",
     "Given the chunks of the score in playing order with the time each begins, a start position (tick and pass number n) maps to the time within the n-th chunk containing that tick; if fewer chunks contain it the request is refused, reporting the requested pass and how many times the tick is actually played. The pass number stays within 1..=5.",
     ["inputs"], "all positions, passes 1..=5 and all chunk lists (of bounded length for which every path is decided, and of any length by the loop's closed form)",
     "Tests use one or two fixed repeat structures.",
     ["src/play_start_tick.rs", "src/play_iter.rs"], [("to_accum_tick", "src/play_start_tick.rs"), ("set_iter", "src/play_iter.rs")])

prop("C08", "The tempo/pedal in force is that of the last event at or before the tick",
     "At any tick the tempo in force is the value of the last tempo change at or before that tick, or 120 if there is none; the damper and soft pedal values in force are those of the last such pedal event at or before it, or 0. The project with undo history gives the same answers as the project it holds.",
     ["histories", "inputs"], "every project (any number of events) and every tick",
     "Tests query two or three ticks around one or two events; before-first, exact-hit, between and after-last for each kind and any number of events are not covered.",
     ["src/project.rs"], [("tempo_at, ctrl_chg_at search the store", "src/project.rs")])

prop("C09", "The time signature and key in force come from the nearest bar setting one",
     "At any tick the time signature (key) in force is the one set by the nearest bar at or before that tick that sets one; if none does, it is the project's own. Bars that set none are skipped, and bars after the tick never matter.",
     ["histories", "inputs"], "every project (any number of bars, any settings) and every tick",
     "Tests query a few ticks around two or three bars; every mix of setting and non-setting bars is not covered.",
     ["src/project.rs"], [("rhythm_at, key_at search backwards", "src/project.rs")])

prop("C10", "Bar locations and ticks convert consistently in both directions",
     "A tick's location is the number of bars at or before it and the distance from the last of them, and converting that back gives the tick. A location's tick is its bar's tick plus the offset, extrapolated beyond the last bar with the time signature in force there (with no bars, the project's), and is refused exactly when that is not a 32-bit tick. A location text is accepted only as digits:digits, whose numbers it then has.",
     ["histories", "inputs"], "every tick, bar number and offset; projects of a bounded number of bars (any ticks, any settings), and of any number for tick-to-location",
     "Tests convert a few locations; overflow, huge bar numbers and locations beyond the last bar under changed signatures are not covered.",
     ["src/location.rs", "src/project.rs"], [("location_to_tick, tick_to_location", "src/project.rs"), ("parse", "src/location.rs")])

prop("C17", "Moving a set of items to a tick shifts them all by the same amount",
     "When a set of notes, bars, tempo changes and pedal events is moved to a tick, its earliest item (by base tick) lands on that tick and every other item keeps its distance from it. Nothing else about any item changes and none is lost or added.",
     ["inputs"], "sets with a bounded number of items of each kind, with arbitrary ticks and attributes, and every target for which the moved ticks are representable",
     "Tests move one or two sets; which kind holds the earliest item and its position in the list are not varied.",
     ["src/models.rs"], [("min_start_tick, move_to_tick", "src/models.rs")])

BOUNDED = "every kind of edit on projects holding a bounded number of items of each kind, with arbitrary ticks and attributes, whose music ends within two bars (of any length)"
prop("C01", "Undo restores a project exactly and redo repeats the edit exactly",
     "For every edit (time signature, key, grid, adding, removing, replacing or tupling notes, bars, tempo changes and pedal events): undoing it right after restores the contents it had before, including items the edit displaced and without bars the edit appended, and redoing then gives the edited contents again. Applying the recorded edit to the earlier project, as reopening the file does, gives the same contents. Edits name items that are in the project and put different items of a kind with one item per tick on different ticks.",
     ["histories", "inputs"], BOUNDED,
     "Tests undo one example per edit on an almost empty project; displaced items, same-tick items of other kinds, swaps and appended bars are not combined.",
     ["src/project.rs", "src/models.rs"], [("ProjectCmd undo/redo", "src/project.rs"), ("the edits of the Project trait record added and removed items", "src/project.rs")])

prop("C02", "An edit adds, removes or replaces exactly the items it names",
     "After an edit every kind of item is exactly what it was, with the named items added, removed or replaced; an added bar, tempo change or pedal event displaces the one of its own kind at its tick, and notes displace nothing. Apart from bars appended after the last one nothing else is added, removed or changed, and time signature, key and grid change only by their own edits. The project shows each kind of item where it was put.",
     ["histories", "inputs"], BOUNDED,
     "Tests look at the item just edited, not at all the others.",
     ["src/project.rs"], [("edits of the Project trait", "src/project.rs")])

prop("C03", "Project contents change only through edits recorded in the history",
     "Every edit makes exactly one record, and the contents change only within that recorded step. Making tuplets of fewer than two notes changes and records nothing, and clearing the lists of change events leaves the contents as they are while clearing the events of every kind.",
     ["histories", "inputs"], BOUNDED + "; and the public interface of the project type",
     "Tests check one record per example; a change slipping in outside the record only shows on undo or after reopening.",
     ["src/project.rs"], [("mutate / add_cmd / irreversible_mutate", "src/project.rs")])

prop("C04", "Every item is stored under its own start tick, in order",
     "After any edit, its undo and its redo, and after reading an exported project, every item is stored under its own effective start tick (a note's includes its start trimmer), so that looking a tick up finds the items that start there. Items of each kind are in ascending order of tick.",
     ["histories", "inputs"], BOUNDED,
     "Tests store items without trimmers, where base and effective start agree.",
     ["src/project.rs"], [("keys given to the repositories", "src/project.rs")])

prop("C05", "After an edit that adds music, bars reach the end of it",
     "After adding notes, tempo changes or pedal events (singly, in bulk, by replacement or as tuplets) there is a bar at or after the end of every note and event. Missing bars are appended after the last one, a bar length of the time signature in force there apart (from tick 0 if there is none), setting nothing, as many as needed and no more; existing bars stay.",
     ["histories", "inputs"], BOUNDED,
     "Tests add one note to an empty project; which kind ends last, settings on the last bar and long notes before the last one are not varied.",
     ["src/project.rs"], [("replenish_bars", "src/project.rs"), ("note_max_end_tick", "src/project.rs")])

prop("C28", "Added items are announced with the selection that was asked for",
     "When an item is added with the wish to select it, the change event for it asks to select it, otherwise it asks nothing; bulk edits pass the caller's metadata on unchanged, and tuplets are selected. Bars appended automatically never ask to be selected, and undo and redo announce what the edit announced. The events read for a kind of item are that kind's.",
     ["histories", "inputs"], BOUNDED,
     "Tests ignore the metadata of most edits.",
     ["src/project.rs"], [("ModelChangeMetadata", "src/project.rs")])

prop("C06", "A project survives export and import, and import takes items as given",
     "The exported form of a project has its time signature, key, grid and exactly its items of every kind, each once, in order; reading that exported form gives a project equal to the first. Reading any exported form stores every item it lists, of two items of a kind other than notes that share a tick the later one, and nothing else.",
     ["inputs"], "every project for the exported form; exported forms with a bounded number of items of each kind, with arbitrary ticks and attributes, for reading",
     "Tests export one small project; an omitted kind, a dropped item or an attribute taken from a default is not visible there.",
     ["src/exported_project.rs", "src/project.rs"], [("conversion of a project to and from its exported form", "src/exported_project.rs")])

prop("C20", "Repeat bars and endings are played as written",
     "A section between repeat marks (or from the beginning to a first repeat end) is played twice, a section with numbered endings once per ending, each time followed by that ending, and everything else once, all in order. Marks that do not fit (an end without a start, a second start, a repeat or ending left open, a repeat end among endings, endings out of order) are refused with an error naming the fault and the tick of the bar at fault (and, for endings, the number found and the one due); rendering never panics.",
     ["inputs"], "every sequence of up to five bars (six in the thorough tier) without D.C./D.S., each bar with no mark, a repeat start, an end, both or a first or second ending, every sequence of up to four (five) bars with any of four endings, starts and ends after a first ending, and longer chosen ones; ascending bar ticks, otherwise arbitrary",
     "Tests render about ten scores with fixed ticks; the combinations of repeats, back-to-back repeats and endings are not covered.",
     ["src/repeat.rs"], [("render_region, the regions' to_chunks", "src/repeat.rs")])

prop("C21", "D.C., D.S., Fine, segno and coda are followed as written",
     "Music up to the D.C./D.S. is played with its repeats, then again from the segno without repeats and with last endings only, skipping from the first coda to the second, up to Fine or the end. Without a segno D.C. restarts at the beginning if the first bar is a whole bar of the time signature there (a shorter first bar that is not half a bar is a pickup and left out), with one it goes there and a warning tells so; a lone coda is a warning for D.C. and an error for D.S. Marks given too often, a D.S. without segno, a Fine before the second coda and a D.C./D.S. inside a repeat or its endings are refused with the error naming them.",
     ["inputs"], "every sequence of up to four bars (five in the thorough tier) with one D.C. or D.S. and at most one mark per bar, every one of five (six) bars with jump marks only, and some ninety longer ones with several marks per bar; ascending bar ticks, otherwise arbitrary; any time signature",
     "Tests render a dozen scores with fixed ticks; most combinations of jumps with repeats, endings, codas and pickup bars are not covered.",
     ["src/repeat.rs", "src/global_repeat.rs"], [("render_region, the regions' second pass", "src/repeat.rs"), ("GlobalRepeatBuilder", "src/global_repeat.rs")])

prop("C22", "Rendered sections are laid end to end in playing time",
     "In playing time each rendered section starts at the summed length of the sections before it, and none is lost. Joining sections plays the same ticks in the same order and leaves no two that adjoin.",
     ["inputs"], "every list of up to five sections (seven in the thorough tier) with arbitrary bounds; up to four some of which may be empty, for joining",
     "Tests lay out a few fixed lists.",
     ["src/repeat.rs"], [("Chunk::by_accum_tick, Chunk::optimize", "src/repeat.rs")])

prop("C18", "A tuplet keeps the notes, their groups and their proportions",
     "Making a tuplet of notes gives the same number of notes, each unchanged except for its start and its tuplet denominator, and notes that start together still do. The denominator is the total length of the groups (each counted by its shortest note) in units of the greatest common part of the plain note values; the groups follow one another from the first start, each taking its share of 2/denominator of the total plain length, rounded down. If the denominator would be below 2 or above 255 the notes are returned unchanged; tuplet making never panics.",
     ["inputs"], "all groupings of up to four notes over four note values with dots and tuplets (six values in the thorough tier), pairs of all plain or thrice-dotted values, and longer runs and extreme values; starts and all other attributes arbitrary, given in rotated order; ticks of the result representable",
     "Tests make tuplets of a few fixed notes; chords of unequal notes, dotted values, order and attributes other than ticks are not varied.",
     ["src/tuple.rs"], [("tuplize", "src/tuple.rs")])

prop("C31", "What is written to disk or the clipboard can be read back",
     "Reading back a written value (note, bar, tempo change, pedal event, every value in them, list of items, project, recorded edit, exported project) gives a value equal in every attribute, derived ones included. This holds for formats that store attributes by name, such as JSON, and for the positional binary form of the undo history, where order and number of what is written must agree with what is read.",
     ["inputs"], "every type that is both written and read, all its values; lists of any length; projects with up to two items of each kind",
     "Tests write and read single JSON examples; an attribute left out, renamed, reordered or clamped on one side shows only for other values or only in the binary form.",
     ["src/note.rs", "src/bar.rs", "src/tempo.rs", "src/ctrl_chg.rs", "src/models.rs", "src/project.rs", "src/exported_project.rs", "src/pitch.rs", "src/duration.rs", "src/rhythm.rs", "src/key.rs", "src/grid.rs", "src/trimmer.rs", "src/percent.rs"],
     [("Serialize and Deserialize implementations", "each value type's module")])

prop("C07", "What is copied can be pasted, and nothing else is taken for it",
     "The clipboard text of some items is the version number 1 followed by the items as JSON; pasting it, or importing it as an exported project, gives exactly these items, and an exported project also its key and time signature. Any other text gives an error naming the cause: nothing in it, no JSON, no whole version number, a version other than 1 (which is reported, whatever follows it), or content that is not such items. Neither reader ever panics.",
     ["inputs"], "all items (lists of any length) for copying; every text for pasting, JSON syntax itself being that of the serde_json library",
     "Tests paste one copied note and two exported projects; other versions, other texts and the other lists are not tried.",
     ["src/models.rs", "src/exported_project.rs"], [("to_clipboard_text, from_clipboard_text", "src/models.rs"), ("from_clipboard_text, to_models", "src/exported_project.rs")])

prop("C23", "A text field's verdict is always about the text it shows",
     "A text field keeps exactly the text it was given or edited to, and its verdict is always that of parsing this very text; an empty text means no value. A text denoting a number of the field's type is accepted with its value (tempo, velocity and percentage brought into range, location in digits:digits form), any other, and a rhythm or tuplet number out of range, is an error, never a panic. A percentage read back from the number shown for it is the same percentage, and stays so in a rate made of it and 100% ones.",
     ["inputs", "histories"], "every text, every edit, every validated type; all percentages",
     "There are no tests of text fields; tests of percentages try a handful of round numbers.",
     ["src/text_input.rs", "src/percent.rs", "src/trimmer.rs"], [("TextInput", "src/text_input.rs"), ("FromStr for Validated", "src/text_input.rs"), ("From<f32> for PercentU16", "src/percent.rs")])

prop("C25", "What is made has the attributes asked for, and the defaults for the rest",
     "A note or pitch made by its builder has every attribute given to the builder, whichever and in whatever order, and the default for each left out; a pitch is built only when it is one. Constructors of items, time signatures and rates keep what they are given. Defaults are: tick 0, A4, an undotted quarter note, no tie, no trimming, 4/4, no sharps or flats, tempo 120, grid 60, an empty project.",
     ["inputs"], "every state of every builder; all arguments",
     "Tests build a few notes with a handful of attributes; an attribute lost or crossed in a builder or constructor shows only for other subsets.",
     ["src/note.rs", "src/pitch.rs", "src/rhythm.rs", "src/tempo.rs", "src/bar.rs", "src/models.rs", "src/project.rs", "src/duration.rs", "src/trimmer.rs"],
     [("NoteBuilder, PitchBuilder", "src/note.rs"), ("Default implementations and constructors", "each module")])

prop("C32", "Values are equal exactly when all their attributes are",
     "Two values of one type (notes, bars, tempo changes, pedal events, lists of items, and every value they are made of: pitches, durations, trimmers, percentages, keys, time signatures, grids, repeat marks) compare equal when every attribute of one equals that of the other, and only then; equal values hash alike. Tempo values are ordered by their number.",
     ["inputs"], "every pair of values of each of the types",
     "Tests use equality to judge everything else but compare few unequal values: one that overlooks an attribute makes them pass more easily.",
     ["src/trimmer.rs", "src/percent.rs", "src/note.rs", "src/bar.rs", "src/tempo.rs", "src/ctrl_chg.rs", "src/pitch.rs", "src/duration.rs", "src/rhythm.rs", "src/models.rs"],
     [("PartialEq implementations", "each value type's module")])

prop("C33", "What a value is shown as reads back as that value",
     "The text shown for a location, a grid, the numerator of a time signature, a tuplet number, a velocity or a percentage is accepted by the parser of that type, and by a text field for it where there is one, and gives the same value again. The text shown for the denominator of a time signature is the number it is made from. A note name is shown as its letter, and every repeat mark has a sign of its own.",
     ["inputs"], "every value of each of these types; a float's printed text taken to read back as that float",
     "Tests parse a few texts and never a shown one.",
     ["src/location.rs", "src/grid.rs", "src/rhythm.rs", "src/duration.rs", "src/velocity.rs", "src/percent.rs", "src/solfa.rs", "src/bar.rs", "src/text_input.rs"],
     [("Display, to_string and the parsers", "each value type's module"), ("FromStr of text fields", "src/text_input.rs")])

prop("C34", "Clipping gives the nearest value within the limits",
     "A clipper made with a lower and an upper limit (the lower not above the upper) keeps both, and clips any number to the nearest one within them: numbers already within stay as they are, others become the limit on their side. The clippers ready-made for ticks and velocities of notes reach from 0 to the largest 32-bit signed integer and from 0 to 127.",
     ["inputs"], "all limits and all numbers, 16-bit and 32-bit integers and floats",
     "Tests clip a handful of numbers with one pair of limits per type.",
     ["src/clipper.rs", "src/note.rs"], [("Clipper::clip", "src/clipper.rs"), ("TICK_CLIPPER, VELOCITY_CLIPPER", "src/note.rs")])

prop("C35", "Interning gives the first instance handed in of equal ones",
     "Interning an instance gives back a reference to the very instance that was interned first among all those equal to it, which is the instance itself if none was. This holds however many equal and different instances come in between and in whatever order.",
     ["histories"], "up to five instances (seven in the thorough tier) of an arbitrary type, equal to one another in every possible combination",
     "Tests intern two equal instances and a third one.",
     ["src/fly_weight.rs"], [("FlyWeight::intern", "src/fly_weight.rs")])

NA = []
