"""Source of /verif/properties.jsonl (one record per property).  Run: python3 tools/props.py"""
import json, os
P = "neural_graph_composer/"
R, CP = P+"midi_reader.py", P+"custom_pretty_midi.py"
SQ, SS, NT = P+"midi/midi_sequence.py", P+"midi/midi_sequences.py", P+"midi/midi_note.py"
GB, DS, TR = P+"midi_graph_builder.py", P+"midi_dataset.py", P+"transforms.py"
SC = P+"midi/midi_scales.py"
out = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    out.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- reading
prop("C01", "Reading a MIDI file pairs onsets and releases into exactly the right notes",
 "Every note-on with positive velocity in a MIDI file becomes exactly one note with that pitch and velocity; it starts at its onset and ends at the first of its own later release (a note-off, or a note-on with velocity 0, of the same channel and pitch), the next later note onset in the same file track, or the end of that track (an onset on the very last tick of its track, having no length, gives no note). Releases without an open note are ignored, a release on the very tick of the onset does not close it, two strikes of one key at one tick are two notes, each note carries the time signature in force at its onset, and no other event creates, removes or alters a note.",
 ["inputs", "histories"], "every event stream of a format 0/1 file: any interleaving of channels, pitches, chords, repeated pitches, missing or spurious releases, meta and controller events",
 "The tests read a handful of fixed files and compare counts; the pairing automaton is driven by the order of events, and there are unboundedly many orders.",
 [R, CP], [("note pairing automaton", CP+":_load_instruments/_finish_notes/_note_off_event"), ("note transfer", R+":read_instrument, read")],
 ["MidiReader.read(file)[track].notes"], [("open notes", "per file track: (channel, pitch) -> onset tick, velocity", CP+":_load_instruments last_note_on")])
prop("C02", "Ticks convert to seconds by exact integration of the tempo map",
 "The time in seconds given to any event at tick k is the sum over the ticks before k of the tick length set by the tempo in force (120 quarter notes a minute until a tempo event says otherwise; the last tempo event at a tick wins; a tempo event takes effect at its own tick). Converting ticks to seconds is strictly increasing, converting back returns the same tick (for a time between two ticks the nearer one), and the reported tempo changes are the tempo events of the first track with consecutive repeats collapsed.",
 ["inputs"], "every resolution, every list of tempo events on the first track (including several at tick 0, repeats, changes after the last note) and every tick",
 "Tests use files with one tempo; errors show only with several changes at particular ticks.",
 [CP, R], [("tempo scale list", CP+":_load_tempo_changes"), ("tick table", CP+":_update_tick_to_time, tick_to_time, time_to_tick"), ("tempo transfer", R+":read_tempo_changes")],
 ["CustomPrettyMIDI.tick_to_time/time_to_tick/get_tempo_changes", "MidiReader.read(...).tempo_signatures, note times"])
prop("C03", "Every sounding (file track, channel, program) becomes one sequence of its own",
 "Reading yields exactly one sequence per distinct combination of file track, channel and program that closes at least one note, numbered consecutively from 0 in the order in which their first notes close; each sequence holds exactly the notes of its combination in closing order and carries the program number, the file track's name, and a percussion flag that is set exactly for MIDI channel 10; a sequence's program, name and flag are those at the closing of its first note. Each sequence's total time is the latest end of its notes, and the piece's total time and resolution are the latest end overall and the file's ticks per quarter note.",
 ["inputs", "histories"], "every format 0/1 file: any number of tracks, channels, program changes mid-track and track names",
 "Fixed sample files exercise one or two tracks without program changes.",
 [R, CP, SS], [("instrument map", CP+":_load_instruments.__get_instrument"), ("track creation", R+":read_instrument / "+SS+":create_track")],
 ["MidiReader.read(...)", "sequence.instrument", "total_time"])
prop("C04", "Signature lookups answer with the latest change at or before the asked time",
 "Whatever the order in which time, key and tempo signatures are added, each list stays ordered by time; a signature added at the time of the first (initial) one replaces it, any other addition only adds itself, and among equal times the later added is in force. Asking for the time, tempo or key signature at a time t returns the last one whose time is at or before t (before the first one, or if there is none, common time, 120 quarter notes a minute, C major), and every answer, including the initial tempo, reflects all additions made before the question, however many questions were asked before. Listing the signatures up to a bound yields exactly those at or before it, in order of time, or as they stand if asked to (the tempo listing leaves out the initial one). The initial tempo a single sequence reports is that of its initial tempo signature, in quarter notes a minute.",
 ["histories"], "every interleaving of additions (any times, duplicates, out of order) and queries (any time from 0), on any number of independent containers",
 "Tests ask one or two questions on freshly built lists; ordering, boundary and cached-answer errors need specific histories.",
 [SS, P+"midi/midi_time_signature.py", P+"midi/midi_key_signature.py"], [("ordered insertion", SS+":add_time_signatures/add_key_signatures/add_tempo_signature"), ("cached lookup", SS+":time_signature/tempo_signature/key_signature/initial_tempo")],
 ["MidiNoteSequences.time_signature(t) etc.", "slice_*_signatures"], [("signature lists", "three time-ordered lists", SS)])
prop("C05", "Writing a piece and reading it back loses nothing",
 "A piece obtained by reading, written to a MIDI file and read again, has the same sequences in the same order with the same program, name and percussion flag, and the same notes (pitch, velocity, onset and end on the same ticks), control changes and pitch bends, resolution, time and key signatures and tempo map (each tempo to within the microsecond a quarter note that a file can hold); sequences without notes are left out. Converting it to a MIDI object without a file gives the same. Writing does not change the piece in memory.",
 ["inputs"], "every piece readable from a format 0/1 file with at least one note, including several tempo, key and time signature changes, many channels and percussion",
 "One test round-trips a single-track single-tempo scale.",
 [R, CP], [("conversion", R+":to_pretty_midi"), ("serialisation", "pretty_midi.write via "+CP)],
 ["MidiReader.write then MidiReader.read"])
prop("C06", "Writing never clobbers a file unasked, and bad requests write nothing",
 "Writing to a path that already exists fails and leaves that file byte-for-byte unchanged unless overwriting was explicitly requested, and then replaces it completely. Requests with an invalid or empty piece, a piece no MIDI file can hold, an empty or non-text name, negative or non-numeric bounds, or a start after the end are rejected with an error and create or modify no file.",
 ["histories", "inputs"], "every history of writes (valid, invalid, with and without overwriting) to a set of paths",
 "Tests check a few single calls, never the file contents after a rejected call in a history.",
 [R], [("guards", R+":write")], ["file system contents around MidiReader.write"])
prop("C07", "Controller and pitch-bend events survive reading",
 "Reading keeps, for each sequence, every control change and pitch bend of its file track and channel that arrived while its program was selected, from its first closed note on, preceded by those that had arrived on that track and channel while the program then selected had not closed a note; each keeps its number, value (over the whole MIDI range) and time, in file order, and an event kept for one sequence never shows up in another that had already begun. They are marked with the sequence's program, position and percussion flag.",
 ["inputs", "histories"], "every event stream mixing notes, program changes, control changes and pitch bends on any channels",
 "No stable test looks at controller or bend events read from a file.",
 [R, CP], [("straggler collection", CP+":_load_instruments"), ("transfer", R+":read_instrument_control_changes/read_instrument_pitch_bends")],
 ["MidiReader.read(...)[k].control_changes / pitch_bends"])
prop("C08", "A MIDI file reads the same from a path, from bytes and from a parsed object",
 "Reading a file by path, reading its bytes, and reading a parsed MIDI object holding it produce the same piece: same sequences, notes, signatures, tempo, controllers and totals. Reading does not depend on pieces read earlier, leaves earlier pieces and the parsed object as they were, and anything that is not one of these three kinds, or is not MIDI, is rejected with an error. A piece that is asked to fill itself from a file through a reader holds the same as one that was read.",
 ["inputs", "histories"], "every valid file, every order of reads in one process, and malformed inputs",
 "Tests read by path only.",
 [R, CP], [("dispatch", R+":read/_read_pretty_midi/mido_to_pretty_midi"), ("constructor", CP+":__init__/from_file")],
 ["MidiReader.read(path|bytes|MidiFile)"])

prop("C09", "Beats and bars of a file lie where its tempos and signatures put them",
 "The beats of a file that was read start at the moment asked for, each lasts one beat of the signature in force (a dotted one in compound meters) measured through every tempo change it spans, a signature change begins a new beat, and the last lies before the end of the file. A bar begins at the first beat, at each change of signature, and after as many beats as the signature in force gives a bar; of signatures at one place the last governs, and before the first one it is common time. The end of a file is the latest of all its notes, controllers, bends, signatures, tempos and lyrics.",
 ["inputs"], "every file with any tempo and signature changes, every starting moment",
 "No stable test asks for beats or bars.",
 [CP], [("beats and bars", CP+":get_beats/get_downbeats/get_end_time")], ["CustomPrettyMIDI.get_beats/get_downbeats/get_end_time"])
# ---------------------------------------------------------------- sequences
prop("C10", "A sequence's contents and total time follow from its history of edits",
 "After any history of appends, extensions, insertions, additions, merges, cuts, replacements and stretches, a sequence contains exactly the notes those operations put there and did not remove, in the order they prescribe, and its length, indexing, iteration and event listing agree with that list. Its total time equals the latest end time of its notes, and 0 when it is empty; the last-event query answers that time plus the given offset. Its pitches are listed in order of onset, and asking for them changes nothing.",
 ["histories"], "every finite history of mutating operations, on ordinary and percussion sequences (with notes flagged like their sequence), with overlapping, equal and out-of-order notes",
 "Tests apply one operation to a fresh sequence; the bookkeeping must survive arbitrary histories.",
 [SQ], [("bookkeeping", SQ+":append/extend/add_note/insert/merge/cut_in_place/notes setter/stretch/_adjust_total_time")],
 ["MidiNoteSequence.notes/len/iter/total_time/get_midi_events"], [("notes", "ordered list of notes or percussion events", SQ), ("total_time", "latest note end", SQ)])
prop("C11", "Insertion and merging keep a sequence sorted",
 "Inserting a note into a sequence sorted by (start, end, pitch) leaves it sorted, with the new note added and nothing else changed. Merging two sequences of the same instrument and resolution leaves all notes of both (duplicates included) sorted by (start, end, pitch), and leaves the other sequence untouched.",
 ["histories", "inputs"], "every sorted sequence and note; every pair of sequences, in any order, with ties",
 "Tests merge two- or three-note sequences without ties or inversions.",
 [SQ, NT], [("bisection", SQ+":insert, merge"), ("note order", NT+":__lt__")], ["MidiNoteSequence.insert/merge"])
prop("C12", "Windowing returns exactly the notes of the window and leaves the source alone",
 "Slicing by a time window returns copies of exactly the notes starting inside [start, end), clipped at the end; truncating returns copies of exactly the notes ending by the limit; cutting keeps exactly the first n notes; extracting by split times puts a copy of each note into the piece in which it starts, shifted to the piece's origin and clipped at its end; splitting by a span extracts at its successive multiples (or by the given points), leaving out points inside a sounding note if asked to; the points at which to split can be asked for beforehand, which leaves a given list of points as it was. The instrument is kept, the total time of a cut or extracted part is its latest note end, and the source sequence, its notes and its total time are unchanged.",
 ["inputs", "histories"], "every sequence (ordinary or percussion, unquantized) and every window, limit, count or sorted list of split times within it",
 "Tests check lengths of one or two windows.",
 [SQ], [("windowing", SQ+":slice/truncate/cut/extract")], ["MidiNoteSequence.slice/truncate/cut/extract results and the source afterwards"])
prop("C13", "A rejected edit leaves the sequence as it was",
 "Adding a note of another instrument, merging with something that is not a sequence, of another instrument, of another resolution or holding foreign notes, appending or extending with something that is not a note, setting a total time that is not a number, assigning an instrument or resolution that is none, and constructing from arguments of the wrong type are all rejected with an error. After a rejected operation the sequence (and the other operand) has the same notes and total time as before.",
 ["histories", "inputs"], "every invalid operation at every point of a history",
 "Tests check that an error is raised once, never the state after it.",
 [SQ], [("validation", SQ+":__init__/add_note/merge/validate_instrument/append/extend/total_time")], ["exceptions and the state after them"])
prop("C14", "Clones and sums are equal to, and independent of, their sources",
 "A clone of a sequence has the same notes (percussion included), controllers, bends, instrument, resolution and total time; an empty clone has the same settings and no notes; adding two sequences of the same instrument gives the notes of the first followed by those of the second and the larger total time. Later edits of the notes, controllers, bends, resolution or instrument assignment of a clone or sum, or of its source, never show in the other.",
 ["histories"], "every sequence and every history of edits to the source and its clones",
 "Tests clone a melodic sequence once and compare lengths.",
 [SQ], [("copying", SQ+":clone/clone_empty/__add__")], ["MidiNoteSequence.clone/clone_empty/+"])
prop("C15", "Shifting and stretching preserve the music",
 "Shifting an unquantized sequence by an offset adds the offset to every note's start and end and to the total time; stretching multiplies every start, end and the total time by the factor, also where the sequence lasts longer than its notes. Neither adds, drops or reorders notes or changes pitch or velocity, shifting and shifting back is the identity, and a fully quantized sequence refuses to be shifted and stays unchanged.",
 ["histories", "inputs"], "every sequence, offset and positive factor, composed in any order",
 "Tests try one offset and one factor.",
 [SQ, NT], [("in-place shift", SQ+":shift_times/stretch"), ("note shift", NT+":shift_time/stretch")], ["note times and total_time"])
prop("C16", "Quantizing a sequence quantizes every event and nothing else",
 "Quantizing a sequence replaces every note by its own quantization (in the same order, with pitch, velocity and instrument kept) and every controller event by its quantization, updates the total time to the latest quantized end and records the last quantized step reached. A sequence reports being quantized exactly when all of its notes are, and a multi-track piece exactly when all of its tracks are; notes held elsewhere are not changed.",
 ["inputs", "histories"], "every sequence with any mix of quantized and unquantized notes and controllers, every grid (at most 32 steps per second if there are controllers)",
 "Tests quantize one short sequence without controllers.",
 [SQ, SS, P+"midi/midi_control_change.py"], [("sequence quantization", SQ+":quantize/_quantize/is_quantized"), ("piece predicate", SS+":is_quantized"), ("controller quantization", P+"midi/midi_control_change.py:quantize_in_place")],
 ["MidiNoteSequence.quantize/is_quantized/total_quantized_steps"])
prop("C17", "A piece maps track numbers to sequences consistently under any history",
 "Creating a track returns its number and is idempotent: an existing track is never replaced or emptied; fetching a track by number returns the same sequence until it is replaced, iteration lists the track numbers in ascending order, and track and instrument counts, instrument list and length agree with the tracks present. Building a piece from sequences merges those of the same instrument and keeps all their notes, and the listing of all events is every note of every track sorted by start time.",
 ["histories"], "every history of creating, fetching, assigning tracks and adding notes through them, and every list of sequences to build from",
 "Tests build one or two tracks in ascending order.",
 [SS, P+"midi/sorted_dict.py"], [("track map", SS+":create_track/get_track/__getitem__/__setitem__/_add_midi_note_sequence"), ("listing", SS+":get_all_sequence_events")],
 ["MidiNoteSequences iteration, indexing, counts"], [("tracks", "sorted map from track number to sequence", SS)])

prop("C18", "Piano rolls, chroma and the waveform of a piece show exactly what sounds",
 "A piece's piano roll holds for each pitch and frame the sum of the velocities of the pitched notes sounding there (a note fills the frames from that of its onset up to, not including, that of its end; drums give nothing) and reaches to the end of the last instrument with notes; a sustain pedal at or above the threshold keeps the loudest value so far until it comes up, and columns at times of one's own hold the mean up to the next, the last one nothing. Chroma folds that roll onto the twelve pitch classes. Onsets are the start times of all notes in ascending order, cleaning a piece removes exactly the notes that do not last, and its waveform reaches one second beyond its end with a peak of 1, or silent if no pitched note sounds.",
 ["inputs"], "every piece with any instruments, drums, notes and pedals, every frame rate, threshold and column times",
 "No stable test asks for a roll, chroma or waveform.",
 [CP], [("rolls", CP+":get_piano_roll/get_chroma/get_onsets/remove_invalid_notes/synthesize")], ["arrays returned by CustomPrettyMIDI"])
prop("C73", "Pitch-class statistics, tempo and first-beat estimates follow from the notes",
 "The pitch-class histogram counts the pitched notes of each class, weighted by duration and by velocity where asked; the transition matrix counts the pairs of notes of one pitched instrument of which the second starts within less than the threshold of the end of the first; as shares either adds up to one, or is all zero if nothing counts. Tempo estimates are the means of clusters of the intervals between successive onsets (over 0.05 s and under 2 s, doubled while under 0.2 s; each joins the nearest mean within 0.025 s or begins a cluster), ranked by their shares, and the tempo is the first of them. The first beat is, of the first onsets, the earliest one whose beats at the piece's own tempo meet the most velocity per beat, and pieces too short for an estimate are refused.",
 ["inputs"], "every piece with any instruments, drums and notes, every threshold and number of candidates",
 "No stable test asks for statistics or estimates.",
 [CP], [("estimates", CP+":get_pitch_class_histogram/get_pitch_class_transition_matrix/estimate_tempi/estimate_tempo/estimate_beat_start")], ["arrays and numbers returned by CustomPrettyMIDI"])
prop("C19", "Moving a piece onto another time line moves everything by the same map",
 "Retiming a piece moves every note, controller, bend, signature, key and lyric by the one map that is given, linear between the given places and constant outside them: notes not wholly inside or of which nothing is left are dropped, of the events at or before the beginning only the last one stays, and events at or after the end are dropped. Bar lines lie where they moved, each signature governs from where it moved (the one in force at the first bar line inside from there), and times written and read again are the moved ones (where the map nowhere stands still).",
 ["inputs"], "every file with any tempos, signatures, notes and events, every map of times, given in any order, with repeats (the first counts) and with times that would go back (and stay instead)",
 "No stable test retimes a piece.",
 [CP], [("retiming", CP+":adjust_times")], ["CustomPrettyMIDI after adjust_times"])

# ---------------------------------------------------------------- notes and events
prop("C20", "A note always has valid fields and starts before it ends",
 "Whatever values it is created with, a note's pitch and velocity lie in 0..127, its instrument in 0..127 and program in 0..255 (out-of-range values are clamped to the nearest bound), and creation with an end not after the start or an invalid time signature (numerator below 1, denominator not a power of two) is refused. Through any history of assignments to start, end, pitch, program and quantized steps the start stays non-negative and strictly before the end, and pitch, program and steps stay in range (steps not negative); an assignment that would break this is refused and changes nothing, any other takes effect on its field alone (a note's name follows its pitch).",
 ["inputs", "histories"], "every combination of constructor values (start not negative) and every history of assignments",
 "Tests set each field once.",
 [NT], [("clamping and setters", NT+":__init__, start_time/end_time/pitch/program/quantized_*_step setters")], ["MidiNote attributes after each call"])
prop("C21", "Note ordering and equality are coherent",
 "Notes are ordered by start, then end, then pitch: for all notes the strict order is irreflexive, asymmetric and transitive, any two notes are either ordered or tie on all three, and sorting any list yields this order. Equality is reflexive and symmetric, holds exactly when pitch, velocity, program, instrument, times, quantized steps, voice, time signature and percussion flag agree (times up to a nanosecond), and equal notes are never strictly ordered. The non-strict comparison orders by start, then end.",
 ["inputs"], "all pairs and triples of notes whose times differ by more than the tolerance or not at all",
 "Tests compare three pairs.",
 [NT], [("comparison", NT+":__eq__/__lt__/__le__")], ["MidiNote comparisons"])
prop("C22", "Quantization snaps a note to the grid without losing it",
 "Quantizing a note (quantized before or not) on a grid of s steps per second sets its start step to floor(start*s + 1 - amount) and its end step to ceil(end*s + 1 - amount), always a non-negative start step strictly before the end step, marks it quantized and moves its start to the grid time of the start step (to the nearest hundredth of a second, at most 1 ms before its old end) and its end to the grid time of the end step (or keeps its duration if that would shorten it). The result still satisfies start before end, keeps pitch, velocity, instrument and program, and the copying form leaves the original note unchanged.",
 ["inputs"], "every note with a non-negative start, any number of quantizations in a row, every whole number of steps per second and amounts in (0, 1]",
 "Tests quantize a few fixed notes on two grids.",
 [NT], [("grid", NT+":quantize_to_nearest_step/quantize_in_place/quantize")], ["MidiNote.quantize / quantize_in_place"])
prop("C23", "Note arithmetic, copies and serialized forms agree",
 "Copying a note (on other grid steps if some are given) or rebuilding it from its serialized form (fields holding their default may be absent) yields an equal (but for such steps), independent note; duration is end minus start; two notes overlap exactly when the intervals [start, end) intersect, symmetrically. Grid durations are consistent: step counts convert to seconds and back without loss, and the frequency of a pitch doubles every twelve semitones with A4 at 440 Hz.",
 ["inputs"], "all notes and all pairs of notes",
 "Tests try single examples.",
 [NT, P+"midi/midi_instruments.py"], [("derived values", NT+":make_copy/from_json/duration/overlaps/steps_to_seconds/note_to_freq")], ["MidiNote methods"])

prop("C24", "Controller changes and pitch bends are values that keep what they were given",
 "A controller change holds what it was given, moved into range where it must be; a bend of the wrong size, channel or moment is refused, as is an assignment out of range, which changes nothing. Quantizing puts a controller change on the step at or before its moment (counted from the given share of a step) and the next one, or refuses a wrong grid and leaves it as it was. Copies keep every field but those asked to differ and share nothing; equality is of all fields, unequal is its opposite, and the order is by time and then by place; every controller number has its own, unchangeable, description.",
 ["inputs", "histories"], "all controller changes, bends and their fields; every history of assignments, shifts, copies and quantizations of several of them",
 "Tests construct single controllers and check some of their fields.",
 [P+"midi/midi_control_change.py", P+"midi/midi_pitch_bend.py"], [("values", P+"midi/midi_control_change.py:MidiControlChange/MidiBaseControlChange"), ("bends", P+"midi/midi_pitch_bend.py:MidiPitchBend")], ["MidiControlChange, MidiBaseControlChange and MidiPitchBend objects"])
prop("C25", "Tempos, time and key signatures and instruments are coherent values",
 "A tempo is a positive number of quarters a minute with a positive resolution, a time signature a positive number of power-of-two parts, an instrument a number in 0..255 with a name (its family's if none is given); anything else is refused, and what was not given is the MIDI standard's default. Their order is a strict one by time and then by place (instruments: by number), so that sorting is stable, and moments that differ by rounding only are one. A tempo's tick and quarter last what its definition says, instruments equal in every field are equal and hash equally, and an instrument rebuilt from its serialized form is equal.",
 ["inputs"], "all field values, all pairs and lists of such values",
 "Tests construct single signatures.",
 [P+"midi/midi_time_signature.py", P+"midi/midi_key_signature.py", P+"midi/midi_instruments.py"], [("signatures", P+"midi/midi_time_signature.py:MidiTempoSignature/MidiTimeSignature"), ("keys", P+"midi/midi_key_signature.py:MidiKeySignature"), ("instruments", P+"midi/midi_instruments.py:MidiInstrumentInfo")], ["the objects and their comparisons"])

prop("C26", "A piece made in memory and saved says what was put into it",
 "A piece built in memory (any resolution, tempos, signatures, instruments, notes, controllers and bends on its ticks) and written to a file reads back as exactly those events: one sequence per non-empty sequence in the same order with its program, name and percussion flag, and, unless notes of one pitch overlap, the same notes; saving a single sequence writes its notes and nothing else, and refuses one without notes before touching the disk. A callback given to saving receives the path, the instrument, the notes in order of onset and the total time of that sequence. Saving changes nothing in memory.",
 ["histories", "inputs"], "every history of additions to a piece, on any ticks, under any tempo map, with any program, name and flag",
 "Tests save one scale built by the reader.",
 [R, SQ, P+"midi/callbacks.py"], [("writing", R+":write/to_pretty_midi"), ("saving", SQ+":to_midi_file"), ("callbacks", P+"midi/callbacks.py")],
 ["the file written, read back", "arguments of the callback"])

# ---------------------------------------------------------------- containers
prop("C30", "The sorted dictionary is a map that lists its keys in ascending order",
 "Under any history of construction, assignment, deletion, update, default insertion, popping, clearing and copying, the sorted dictionary holds exactly the entries an ordinary dictionary would. Its keys, values, items, iteration and reverse iteration list them in ascending (descending) key order, and operations on absent keys raise KeyError and change nothing.",
 ["histories"], "every finite history of dictionary operations over any set of comparable keys",
 "Tests insert a handful of keys.",
 [P+"midi/sorted_dict.py"], [("key list", P+"midi/sorted_dict.py:__init__/__setitem__/__delitem__")], ["SortedDict views"])
prop("C31", "The interval dictionary keeps intervals ordered and finds all overlaps",
 "Under any history of assignments and deletions the interval dictionary maps exactly the intervals assigned and not deleted to their latest values and lists them by (start, end). Looking up a range returns exactly the entries whose closed interval meets the closed range, and keys that are not intervals or are absent are refused without effect.",
 ["histories"], "every history of operations over any intervals, nested, touching or equal, and every range",
 "One test inserts a few intervals.",
 [P+"midi/sorted_interval_dict.py", P+"midi/Interval.py"], [("delegation", P+"midi/sorted_interval_dict.py")], ["SortedIntervalDict"])
prop("C32", "Closed intervals form a consistent algebra",
 "For all closed intervals: overlap is symmetric and holds exactly when a common point exists, the intersection contains exactly the common points (or is absent), the union is the smallest interval containing both, and membership agrees with the bounds. Equality, hashing and the lexicographic strict and non-strict orders are consistent with each other.",
 ["inputs"], "all pairs and triples of intervals",
 "Tests check seven examples.",
 [P+"midi/Interval.py"], [("interval operations", P+"midi/Interval.py")], ["Interval methods"])

prop("C33", "An interval tree answers as the set of its intervals would",
 "Under any history of additions, removals, cutting, splitting, merging and set operations the tree holds exactly the half-open intervals (with their data) that a plain set would, its own check of its structure passes, and every question about a point, a range or an interval (which ones contain it, overlap it, lie within it, whether any does, which contain which, where they begin and end) has the answer that set gives. Adding an empty interval and removing an absent one are refused without effect; copies, stored and rebuilt trees and the results of set operations are equal to what they should be and independent. Two intervals overlap, contain, precede and are distant from each other as their points are.",
 ["histories"], "every history of operations on two trees, over intervals that are equal, nested, touching, overlapping or apart, with and without data, on whole and fractional points",
 "No stable test uses the interval tree.",
 [P+"interval/intervaltree.py", P+"interval/node.py", P+"interval/interval.py"], [("set and boundary table", P+"interval/intervaltree.py:FloatIntervalTree"), ("search tree", P+"interval/node.py:Node"), ("relations", P+"interval/interval.py:FloatInterval")], ["FloatIntervalTree and FloatInterval methods"],
 [("search tree", "balanced tree of centre points, each with the intervals that contain it", P+"interval/node.py:Node"), ("boundary table", "how many intervals begin or end at a point", P+"interval/intervaltree.py:boundary_table")])

# ---------------------------------------------------------------- graphs
prop("C40", "Graph building walks the music in time order, one step per chord group",
 "The notes of a track are grouped by onset, each onset rounded to the nearest multiple of the tolerance and then to a hundredth of a second (the tolerance is the 95th percentile of the gaps between successive onsets of the track; onsets are exact when there are fewer than two gaps or it is 0), notes of velocity 0 and percussion notes left out (and, on request, groups of a single note), and the groups are visited in increasing time. Consecutive visited groups, and in the graph of one track only those, are joined in the graph; in a merged graph each further track is joined on by one more edge. The walk of chords in time order is a walk in the graph irrespective of edge direction.",
 ["inputs"], "every track: any onsets (integral or fractional seconds, unsorted), chords, repeated notes, silent notes, with and without dropping single notes",
 "Tests use onsets at whole seconds and one triad; fractional times order differently.",
 [GB], [("grouping", GB+":compute_tolerance/compute_data"), ("walk", GB+":build_sequence")], ["MidiGraphBuilder.build -> sub_graphs edges"])
prop("C41", "Chords and nodes correspond one to one, with stable consecutive indices",
 "Over any series of builds on one builder, every distinct pitch group met has exactly one node identity and one index, distinct groups have distinct identities and indices, the indices are consecutive from 1 in order of first meeting and never change, and the four published mappings are mutually inverse. Every node of every built graph carries the identity of its pitch group and is in the mappings; groups larger than the feature size are split into parts that together have exactly the group's pitches and each fit the feature size.",
 ["inputs", "histories"], "every series of pieces built on one builder with any feature sizes",
 "Tests look at one triad.",
 [GB], [("mappings", GB+":build_sequence, hash_to_index/index_to_hash/notes_to_hash/hash_to_notes")], ["builder mappings and graph nodes"])
prop("C42", "Edge weights count transitions",
 "In the graph of a single track the first group contributes a self-edge of weight 1 and every later group adds 1 to the weight between it and its predecessor: to the reverse edge if that exists, else to the forward edge, which is created with weight 1 if absent. Hence weights are positive whole numbers, no two distinct nodes are joined in both directions, and the weights sum to the number of groups visited.",
 ["inputs"], "every sequence of chord groups, with repeats, immediate repeats and back-and-forth motion",
 "Tests check the number of nodes and edges of one example.",
 [GB], [("weight update", GB+":build_sequence")], ["sub_graphs edge weights"])
prop("C43", "Node features encode exactly the node's pitches and velocities",
 "In the fixed-size encoding, without velocity, a node's feature vector has the feature size and holds exactly the node's pitches, once each, padded with zeros at the end. With velocity a second row holds, aligned with the pitches, the velocities of one visited occurrence of the node: the loudest per pitch, rescaled as a group to 32..127 (lone notes onto the same range), and zeros under the padding.",
 ["inputs", "configurations"], "every pitch set, feature size and velocity assignment, with and without velocity",
 "Tests build one or two tensors.",
 [GB], [("encoding", GB+":create_tensor/rescale_velocities/build_sequence")], ["node attr tensors, PyG x"])
prop("C44", "The tensor graph is the same graph as the networkx graph",
 "Converting a built graph to its tensor form preserves it: the same number of nodes in the same order with the same features and node identities, and exactly the same directed edges, each with its own weight. No edge refers to a node that is not there.",
 ["inputs"], "every built graph, per instrument and merged, with and without velocity",
 "Tests compare sizes of one graph.",
 [GB], [("conversion", GB+":from_midi_networkx")], ["pyg_data vs sub_graphs"])
prop("C45", "Every built graph is delivered exactly once with matching labels",
 "Iterating over the builder's graphs after any series of builds yields every graph built since the last full iteration, once each and in build order (graphs built meanwhile included), and an iteration broken off loses none; each node's label is the published index of the node's own pitch group, unless labels were asked to be left out. After a full iteration the builder holds no graphs but keeps all mappings, so that later builds continue the same numbering.",
 ["histories"], "every series of builds (per instrument or merged, any number of tracks) and iterations",
 "Tests build a single track, so a lost second graph does not show.",
 [GB], [("delivery", GB+":graphs/__iter__")], ["MidiGraphBuilder.graphs()"])
prop("C46", "Per-instrument and merged building cover exactly the melodic tracks",
 "Building per instrument makes exactly one graph per track that is not percussion, does not consist of exactly one note and has at least one chord group; merged building makes one graph (none if no such track) whose nodes are exactly the union of the groups of those tracks and whose weights sum to the total number of groups visited. A track's own graph does not depend on the other tracks, and the source piece is not modified.",
 ["inputs", "configurations"], "every piece with any mix of melodic, percussion, empty and single-note tracks, in both modes",
 "Tests build one-track pieces.",
 [GB], [("mode handling", GB+":build")], ["sub_graphs in both modes"])
prop("C47", "Graph queries by chord answer from the graph",
 "For any built graph and any two chords given as pitch lists (in any order, with duplicates) or notes: the neighbours query lists exactly the successors of the chord's node, the connected query is true exactly when the first is a successor of the second, and the edge query returns the directed edge if present and nothing otherwise; for a chord that is not in the graph they answer no or refuse. Merging nodes replaces them by one new node that keeps exactly the outgoing edges they had to other nodes.",
 ["inputs"], "every built graph and every pair of chords in and out of it",
 "No stable test calls these queries.",
 [GB], [("queries", GB+":neighbors/is_connected/get_edge_connected/merge_nodes")], ["static query methods"])

prop("C48", "Gaps, tolerances, note groups and velocities of a track match their definitions",
 "The gaps of a track are the differences between its successive onsets (none for percussion); its tolerance is the asked percentile of them, 0 when there are fewer than two; grouping puts each audible note into exactly one group, all notes of one onset into the same, keys groups by onset rounded to the tolerance (to the onset itself at tolerance 0), leaves out groups of one when asked to, and reports the size of the largest group. Rescaled velocities lie within the asked bounds and keep their order; scaled ones are the products rounded to whole velocities and held to 0..127. None of these changes what it was given.",
 ["inputs"], "every track (unsorted, with equal onsets, silent and percussion notes), percentile, fixed or automatic tolerance; every list of velocities, bounds and factor",
 "No stable test calls these.",
 [GB], [("gaps", GB+":instrument_time_differences/compute_tolerance"), ("grouping", GB+":compute_data"), ("velocities", GB+":rescale_velocities/scale_relative_velocities")],
 ["static methods of the graph builder"])
prop("C49", "A graph builder builds the piece it was given and refuses bad settings",
 "A builder made from a piece, from one sequence, or from a file, by constructor or by class method, delivers the same graphs as one that is handed the piece or sequence when it builds. Settings that are not of their type or range are refused with an error, and the builder (its pending graphs, index and settings) is as it was before.",
 ["histories", "inputs"], "every piece, way of making the builder, setting, and invalid setting at every point of a history",
 "Stable tests construct builders with valid settings only.",
 [GB], [("construction", GB+":__init__/from_midi_sequences/from_midi_sequence/from_file"), ("validation", GB+":__init__/build")],
 ["graphs delivered", "errors and the state after them"])

# ---------------------------------------------------------------- dataset
prop("C50", "Dataset masks partition the nodes in the configured proportions",
 "In every graph of a dataset built with splitting, each node is in exactly one of the training, validation and test masks; the training and validation masks have floor(ratio * nodes) nodes each and the test mask has the rest. Invalid ratios and parameters are refused before anything is written.",
 ["inputs", "configurations"], "every set of files, both graph modes, every pair of ratios with sum at most 1, every random permutation",
 "No stable test builds a dataset.",
 [DS], [("splitting", DS+":_mask_per_instrument/_mask_entire_graph")], ["dataset[i].train_mask/val_mask/test_mask"])
prop("C51", "Dataset labels and mappings are one consistent global numbering",
 "Across all files and graphs of a dataset, a node's label is the published index of its pitch group, equal groups in different files share one label, the published mappings are mutually inverse and cover every label, and each node's feature vector holds the pitches its label stands for. The total number of classes reported equals the number of distinct groups, and the statistics add up the nodes, edges and distinct labels of the graphs. Labels meant to be removed are left out in both graph modes, and the mappings handed out are the caller's own, whatever they do to them.",
 ["inputs", "configurations"], "every set of files and both graph modes",
 "No stable test builds a dataset.",
 [DS, GB], [("mappings", DS+":process/load_processed")], ["dataset.index_to_hash/hash_to_notes, data.y, data.x"])
prop("C52", "Processed datasets persist faithfully, in both forms",
 "Processing stores one per-instrument and one whole-piece collection: the first holds exactly the graphs of per-instrument building of each file, the second exactly one merged graph per file that has a melodic track, in the order of the files given (files of the same name from different folders are different files); the caller's list of files is left alone. Opening the dataset again, in either mode, gives the same graphs, masks, labels and mappings without reading the MIDI files again. A pre-filter decides which graphs are stored, a pre-transform changes each once, with its masks, before it is stored, and a transform whenever it is asked for, without changing what is stored.",
 ["histories", "configurations"], "every set of files, every order of opening in either mode and with several feature settings, with the MIDI files overwritten between openings",
 "No stable test builds or reopens a dataset.",
 [DS], [("persistence", DS+":process/load_processed/processed_file_exists")], ["files under processed/, reopened MidiDataset"])
prop("C54", "A process that dies while making a dataset leaves nothing half made",
 "Whenever the process dies while a dataset is being made (while a MIDI file is copied, while either collection is written, or between), a later opening of the same root in either mode succeeds. It gives graphs, labels and mappings exactly those of the MIDI files, with masks as asked for, and every opening after that gives the same again.",
 ["crash_points", "histories"], "every point of making a dataset at which a process can die, any number of deaths, then every order of opening in either mode and with several settings",
 "No stable test builds a dataset, let alone interrupts one.",
 [DS], [("completeness", DS+":process/download/processed_file_exists")], ["files under raw/ and processed/, reopened MidiDataset"])
prop("C53", "The node-index mapper numbers identities consecutively and never renumbers",
 "After any history of additions and merges, the mapper assigns the indices 0..n-1 to the n distinct identities added, in order of first addition, and both lookups are inverse to each other. Adding a known identity or merging a mapper with known identities changes nothing, merging does not change the other mapper, and asking for an unknown entry raises KeyError.",
 ["histories"], "every history of additions and merges among several mappers",
 "No stable test uses the mapper.",
 [DS], [("numbering", DS+":NodeHashIndexMapper")], ["NodeHashIndexMapper"])

# ---------------------------------------------------------------- transforms
prop("C60", "Dropping edges or nodes leaves a well-formed subgraph",
 "Dropping nodes at rate p keeps exactly n - floor(p*n) nodes with their own features, labels, masks and identities (whichever of these the graph has) and exactly the edges between kept nodes, renumbered to them and with their own weights. Dropping edges keeps a subset of the edges, each with its own weight, leaves nodes, labels, masks and identities as they were, keeps all edges at rate 0 and none at rate 1. Any set of nodes of that size can be the one kept, and at rates strictly between 0 and 1 any set of edges. The graph given is left as it was.",
 ["inputs"], "every graph with or without edge weights, every rate and every random draw",
 "No stable test uses the transforms.",
 [TR], [("dropping", TR+":RandomNodeDrop/RandomEdgeDrop")], ["transform outputs"])
prop("C61", "Added degree and graph-id attributes are right",
 "The degree transform appends to each node's (flattened) features exactly one column holding its number of outgoing edges and changes no other attribute of nodes or edges; the graph-id transform attaches the identifier the dataset reports for the current graph, which for a graph fetched from a MIDI dataset is its position. Neither changes edges, labels, masks or identities, nor the graph it is given.",
 ["inputs"], "every graph, including isolated nodes and self-edges",
 "No stable test uses the transforms.",
 [TR], [("attributes", TR+":AddDegreeTransform/GraphIDTransform")], ["transform outputs"])

# ---------------------------------------------------------------- theory / encoders
prop("C70", "Scales and the triads on them follow their interval patterns",
 "For every root and every known scale, the scale's notes start at the root and ascend by the scale's interval pattern (each note's pitch class is the root plus the pattern's offset). Every triad listed for a scale consists of scale notes stacked in thirds on each degree and is named by its quality (major, minor, diminished or augmented), and roots given by number or by name in upper or lower case, and scales given by name or by type, agree. Unknown roots and scales are refused. Every MIDI pitch is named by its pitch class and its octave counted from 0.",
 ["inputs", "configurations"], "all 12 roots and all scales in the table",
 "Tests check a few scales.",
 [SC], [("tables and stacking", SC+":notes_from_scale/triads_from_scale/chord_from_scale/pitch_to_note")], ["MusicTheory static methods"])
prop("C71", "Chord and interval tables invert each other",
 "Looking up a chord's steps by name and then the name by those steps returns the same chord, and steps of no chord have no name; a chord's steps and its named intervals describe the same chord (thirteenths may leave out the eleventh), and its pitches on a root are the root plus its intervals, intervals given by name or by type. Compound intervals split into a simple interval and octaves and recombine to the same interval, the sum of two intervals and the bases of one amount to the right number of semitones, and an interval's inversion complements its simple part to an octave. Impossible requests are refused, and changing a returned answer never changes later answers.",
 ["inputs"], "all chord types, roots and intervals in the tables",
 "Tests check six chords.",
 [SC], [("tables", SC+":get_chord_intervals/get_chord_name*/chord_pitch_from_interval/compound_interval_*")], ["MusicTheory static methods"])
prop("C72", "Rolls and one-hot encodings mark exactly the given positions",
 "One-hot encoding a list of indices gives one row per index and one column per possible index, with a single 1 in the column of that index, in the asked type; an index beyond the columns is refused. The onset roll of a piece (with at least one instrument) has 128 rows, frames up to the one in which its last instrument ends, a 1 exactly in the pitch row and onset frame of each note and 0 everywhere else, however notes are ordered, shared between instruments, or short. Neither changes its argument.",
 ["inputs"], "all lists of non-negative indices and depths; all pieces and frame rates",
 "Tests in this area do not run reliably.",
 [P+"utils.py"], [("encoding", P+"utils.py:np_onehot/pretty_midi_to_one_hot")], ["returned arrays"])

# ---------------------------------------------------------------- trainers
NG = "ngc_shared.py"
prop("C80", "Training resumes from what was stored, wherever it died",
 "Loading a checkpoint of a model type restores parameters, optimizer state and the epoch after the one stored from the checkpoint with the highest epoch of that type (numerically), and, where metrics are stored, the histories of training, validation and test metrics as they were last stored; checkpoints and metrics of other types have no influence, and without a checkpoint nothing changes. Each kind of history is stored whole, when due, under its own name. A process that dies at any point, also while it is writing a checkpoint or metrics file, leaves every file readable and each either as it was before or as it was to become.",
 ["histories", "crash_points"], "every history of metrics, saves, deaths and restarts, and every byte at which a write ends",
 "No test runs the trainers.",
 [NG], [("state", NG+":Experiments.save_checkpoint/load_checkpoint/update_*metric*")], ["Experiments attributes after loading"])
prop("C81", "Training data is divided and thinned as asked",
 "A trainer divides a dataset into a training and a test part which together hold every graph exactly once, the training part being its share of the number of graphs rounded down; every such division can come out, and the dataset given stays as it is. Thinning a graph removes exactly the asked share of its nodes (rounded down), each equally possible, and leaves the others with their own features, labels, masks and identities and exactly the edges (with their weights) between them; the graph given stays as it is. A trainer refuses epochs and batch sizes that are not positive integers and datasets that cannot be counted and read.",
 ["inputs", "schedules"], "every dataset, share and graph",
 "No test runs the trainers.",
 [NG], [("division", NG+":Experiments.split/remove_nodes_and_edges/__init__")], ["train_dataset, test_dataset, the graph returned"])

ME = "minimum_example_node_classification.py"
prop("C82", "Training learns from training nodes only, and scores are those of each part",
 "A training step of the node classifier (NgcTrainer.train) follows the slope of the loss averaged over the training nodes of every split of a graph: nodes outside the training parts teach it nothing, earlier steps leave nothing behind, it takes exactly one step per batch, in training mode, and reports the mean loss over the splits. Scoring (test) changes nothing, runs in scoring mode, and reports for the training, validation and test nodes, in this order, the share of labels found, averaged over the splits (accuracy, and the micro-averaged F1, precision and recall, which agree with it). A run (trainer) trains once on every graph in every epoch, reports for every epoch, counted from 1, the means over the batches under the right names (wandb), and returns the best test accuracy, validation accuracy, test F1 and validation F1 of all epochs, in this order.",
 ["inputs", "histories"], "graphs with any labels and splits (overlapping parts, nodes in none), any answers of the model, any batch size and number of epochs",
 "No test runs a trainer; a leak between training and test nodes shows only as scores that are too good.",
 [ME], [("training and scoring", ME+":NgcTrainer.train/test/trainer")], ["gradients at the optimizer's step, the lists returned, what is logged"])
L3, L3A = "example03_lstm.py", "example03a_lstm.py"
prop("C83", "A walk through a graph of music visits what can be reached, nearest first",
 "dijkstra_traversal2 lists, from a start node, every node that can be reached along directed edges exactly once and no other, in order of the length of the shortest path to it (sum of edge weights; equally near nodes in any order), and with them the edges that leave each visited node, node after node in the order of the walk, each once, also those back to visited nodes and to the node itself. The description of an edge is that of its source followed by that of its target, for all edges in the order of the graph; labels translate to the identities at their positions. The graph given stays as it is.",
 ["inputs"], "all directed graphs without parallel edges, weights not negative, of any shape [E] or [E, 1]",
 "No test walks a graph; a wrong order needs paths that are longer in edges and shorter in weight.",
 [L3, L3A], [("walk", L3+":dijkstra_traversal2"), ("edges described", L3+":compute_node_and_edge_embeddings/GraphGenerationModel.get_graph_edge_embeddings"), ("labels", L3+":map_labels_to_hashes"), ("walk (second copy)", L3A+":dijkstra_traversal2")], ["the lists returned"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for o in out:
            assert len(o["title"]) <= 80, (o["id"], len(o["title"]))
            f.write(json.dumps(o) + "\n")
    print(len(out), "properties")
