"""The properties: one entry each, from which make_docs.py writes properties.jsonl and MANIFEST.json."""
P = {}


def prop(id, title, statement, over, text, why, files, mech, design, note, observe=(), state=()):
    """mech: [(name, where)]; design goes into DESIGN.md, note into level_note."""
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                 design=design, note=note, observe=list(observe), state=list(state))


N = "neural_graph_composer/"
M = N + "midi/"

prop("C01", "The notes read from a MIDI file are exactly the notes of the file",
     "For every standard MIDI file, reading it yields, for each (track, channel, program) that plays, one track whose notes are "
     "exactly the file's notes: the pitch, the velocity, and the start and end times that follow from the file's ticks and tempo "
     "map, with a note-off (or a note-on of velocity 0) ending the notes sounding on its own key and channel only. Each track carries "
     "the program, drum flag and name of its source, each note carries the program, instrument, drum flag and the time signature in force "
     "at its start, and the total times of track and piece are the latest note end.",
     ["inputs"],
     "every standard MIDI file of type 0 or 1: any resolution, tempo map, number of tracks, channels and programs, overlapping and "
     "repeated notes of one key, zero deltas, running status, unterminated and empty notes",
     "The tests read a handful of fixed files and look at counts; the pairing of note-ons and note-offs, the tempo map and the grouping "
     "by track, channel and program depend on the interleaving of events, which is unbounded.",
     [N + "midi_reader.py", N + "custom_pretty_midi.py"],
     [("CustomPrettyMIDI._load_instruments pairs note-ons with note-offs", N + "custom_pretty_midi.py"),
      ("MidiReader.read builds the sequences", N + "midi_reader.py")],
     "Songs are generated as event lists (pbt/gen.py), encoded to bytes by the check's own encoder and interpreted by the check's own "
     "reference reader (pbt/midifmt.py: tempo map in exact arithmetic, note pairing); the notes read are mapped back to ticks and compared as "
     "multisets per instrument. A second generator keeps to four keys, three channels and mostly zero deltas. The real files of the data set are "
     "compared too (events decoded by mido).",
     "generated and real files against an independent reference reader",
     ["MidiReader.read(file or bytes)", "MidiNoteSequences / MidiNoteSequence / MidiNote attributes"])

prop("C02", "Tempo, time signature and key signature of a read piece at any time",
     "For every MIDI file, the piece that is read holds the file's time signature, key signature and tempo changes in order, each at the "
     "time that follows from the tempo map, with 4/4, C major and 120 qpm in force from the start when the file sets nothing there. Asking for "
     "the time signature, key signature or tempo at any time answers with the last change at or before that time, the change's own time "
     "included; the resolution is the file's.",
     ["inputs"], "every file and every moment of it, with any number of changes of the three kinds at any distance",
     "The tests ask a few fixed files at a few moments; the boundary behaviour (exactly at, just before, after the last change, no change at zero) "
     "depends on the arrangement of changes.",
     [N + "midi_reader.py", M + "midi_sequences.py", M + "midi_time_signature.py", M + "midi_key_signature.py"],
     [("MidiReader.update_time_signature / update_key_signature / tempo", N + "midi_reader.py"),
      ("MidiNoteSequences.time_signature, key_signature, tempo_signature", M + "midi_sequences.py")],
     "Files rich in changes are generated; the reference interpreter yields the change list in seconds; the piece is compared with it and probed at "
     "each change, between changes, after the last one and at zero.",
     "generated and real files, probed at and between all changes",
     ["MidiNoteSequences.time_signature / key_signature / tempo_signature / slice_* / initial_tempo / resolution"])

prop("C03", "Control changes and pitch bends read from a MIDI file",
     "For every MIDI file, each track that is read holds every control change and every pitch bend of its channel on that track - including those before the "
     "first and after the last note - each once, in order of time, with the file's controller number, value or amount (a bend of -8192 counts as -8191) "
     "and with the time that follows from the tempo map. Each event carries the program and the drum flag of its track.",
     ["inputs"], "every file whose channels keep one program per track, any arrangement of notes, controllers, bends and tempo changes",
     "The tests check a few controllers of fixed files; which instrument an event lands in depends on whether a note has already ended when it is met.",
     [N + "midi_reader.py", N + "custom_pretty_midi.py"],
     [("straggler instruments of _load_instruments", N + "custom_pretty_midi.py"), ("MidiReader.read copies controllers and bends", N + "midi_reader.py")],
     "Generated event lists over few channels with many controllers and bends, and the real files; compared as multisets of (tick, number, value) per "
     "instrument with the reference interpreter.", "generated and real files against an independent reference reader",
     ["MidiNoteSequence.control_changes / pitch_bends"])

prop("C04", "All ways of handing over a MIDI file give one piece; bad input is refused",
     "One MIDI file read from a path of any name, absolute or relative, from bytes or an already parsed object - and through the piece's own loader - gives the same piece, twice in a row as well, "
     "as the MIDI class loads the same from a path and an open binary stream, and "
     "reading leaves the file as it was. Input that is not a MIDI file (empty, truncated, damaged bytes, a missing file, a wrong type) is refused with an "
     "error of the documented kind and never yields a piece that the bytes do not spell.",
     ["inputs", "fault_sequences"], "every file, every input form, every truncation and byte-level mutation of a file",
     "The tests try one or two forms on one file; byte mutations and the agreement of all forms are unbounded.",
     [N + "midi_reader.py", N + "custom_pretty_midi.py", M + "midi_sequences.py"],
     [("MidiReader.read dispatches on the input form", N + "midi_reader.py"), ("CustomPrettyMIDI.__init__", N + "custom_pretty_midi.py")],
     "Each generated file is read in all forms and the full plain-data facts are compared; bytes are mutated (truncation, flips, inserted bytes) and the "
     "outcome is compared with mido's verdict and the reference interpretation of what mido decoded.",
     "generated files in every form, byte mutation with a differential oracle", ["MidiReader.read", "MidiNoteSequences.from_file"])

prop("C05", "A piece written to a MIDI file reads back as the same piece",
     "Writing a piece and reading the written file gives a piece with the same tracks (program, drum flag, name), the same notes (pitch, velocity, start and end to "
     "within a tick of the file), the same control changes, pitch bends, time signatures, key signatures and tempos, in the same order. A second round trip changes nothing any more, "
     "and the object that was written is left unchanged. Writing a part of a piece, from one time or up to another, puts exactly what sounds between them in the file, at the times it has in the piece.",
     ["inputs", "histories"], "every piece: read from any file or built note by note, any resolution and tempo map, events after the last note included",
     "The tests write one or two fixed pieces; rounding between seconds and ticks and the ordering of simultaneous events depend on the input.",
     [N + "midi_reader.py", N + "custom_pretty_midi.py", M + "callbacks.py", M + "midi_sequence.py"],
     [("MidiReader.write", N + "midi_reader.py"), ("CustomPrettyMIDI.serialize / write", N + "custom_pretty_midi.py"),
      ("to_midi_file and its callback", M + "callbacks.py")],
     "Pieces read from generated and real files, and pieces built from scratch, are written through every writer, and the bytes are decoded with mido and the reference reader "
     "as well as read back with the library; comparison in ticks of the written file.",
     "round trip through every writer, decoded independently", ["MidiReader.write", "CustomPrettyMIDI.write / serialize", "MidiNoteSequence.to_midi_file"])

prop("C06", "Ticks, seconds, beats and piano rolls of a loaded file are consistent",
     "For every loaded file, the time of a tick follows the tempo map, grows with the tick, and the tick of a time is the nearest one, so that tick to time to "
     "tick gives the tick back. Beats, downbeats, onsets, tempo estimates, piano roll, chroma, pitch-class statistics and re-timing agree with those of the MIDI package the "
     "class extends on the same events, and asking for them changes nothing.",
     ["inputs"], "every tempo map, tick and time; every file, start time and sampling rate; every pair of re-timing marks",
     "The tests never call most of these; agreement has to hold for every tempo map and event list.",
     [N + "custom_pretty_midi.py"],
     [("tick_to_time / time_to_tick / _update_tick_to_time", N + "custom_pretty_midi.py"), ("get_beats, get_downbeats, get_piano_roll, adjust_times", N + "custom_pretty_midi.py")],
     "Own tempo map for ticks and seconds; for the time lines a differential check against upstream pretty_midi given identical events.",
     "reference tempo map and differential check against upstream pretty_midi",
     ["CustomPrettyMIDI public methods"])

prop("C07", "Signature changes added in any order are kept sorted and answered by time",
     "Whatever time, key and tempo signatures a piece is made with or gets added, and in whatever order, each list stays sorted by time (signatures of one time in the order they were added), nothing "
     "is lost - but one added at the time of the first entry takes its place -, and asking for the signature at a time answers with the last one at or before that time, or the default where none is set. Slices between two times hold exactly the changes of that "
     "range, with bounds of zero honoured, and the initial tempo - of a piece or of a sequence, the tempo at time 0, else the first one - follows later additions.",
     ["histories"], "every history of additions and queries, with equal and unordered times",
     "The tests add at most a few signatures in order; the order of additions and queries in between is what breaks caches and sorting.",
     [M + "midi_sequences.py", M + "midi_time_signature.py", M + "midi_key_signature.py"],
     [("add_time_signature / add_key_signature / add_tempo_signature", M + "midi_sequences.py"), ("binary search of time_signature()", M + "midi_sequences.py")],
     "Stateful: histories of additions and queries replayed against a stable-sorted list model, all answers compared after every step.",
     "stateful model-based histories", ["MidiNoteSequences signature methods"])

prop("C08", "A note sequence holds its notes and its end through any history of edits",
     "After any history of append, extend, insert, add_note, setting the notes, cut, merge, addition, clone and sort, a note sequence holds exactly the notes that history leaves (duplicates included) and its "
     "total_time is the latest note end at that moment (an emptied clone keeps its source's end). insert() and merge() keep an ordered sequence ordered by start, then end, then pitch; len, iteration, "
     "indexing and get_midi_events agree; clones share nothing with their source. A note, sequence or value of a wrong kind, or of another instrument, is refused and changes nothing.",
     ["histories"], "every history of edits on a small world of sequences that are also merged, added and cloned into each other",
     "The tests make two or three edits on one sequence; caches, sharing between copies and the total time depend on the order of edits.",
     [M + "midi_sequence.py", M + "abstract_midi_sequence.py"],
     [("MidiNoteSequence append / extend / insert / merge / cut / clone", M + "midi_sequence.py")],
     "Stateful: up to four live sequences and a list model each; after every operation every sequence is compared with its model in full (so an edit of one that shows in another is seen).",
     "stateful model-based histories over several live sequences",
     ["MidiNoteSequence.notes, total_time, len, iteration, indexing, get_midi_events, drum_events, is_quantized, resolution"])

prop("C09", "Slices, extracts, splits and truncations share out the notes by time",
     "slice(a, b), and each part of extract(times) and split(points), holds exactly the notes that start in the half-open range [a, b), cut at b when they sound on; parts of extract and split are moved to begin at zero, "
     "and with skip_boundary a split never falls inside a note, so the parts put back in place are the original. truncate(t) keeps exactly the notes that have ended by t. Every result keeps instrument and resolution, its total time is "
     "its own last note end (for a slice and a truncation the smaller of total time and bound), and the original is neither changed nor shared.",
     ["inputs"], "every sequence of notes, every pair of bounds, list of split times and span, notes that sound across, start or end on a bound",
     "The tests cut a few sequences at chosen times; notes that touch the bounds and the sharing of notes are what break.",
     [M + "midi_sequence.py"], [("slice / extract / split / truncate", M + "midi_sequence.py")],
     "Notes and bounds on one coarse grid so that they coincide often; the expected part is computed from the plain facts of the notes; the parts are then edited and the original compared again.",
     "generated sequences and bounds against a list model",
     ["MidiNoteSequence.slice / extract / split / truncate"])

prop("C10", "Shifting and stretching move every note by one affine map",
     "After any chain of shift_times(d) and stretch(f), every note starts and ends at the value the one affine map of that chain gives for its first start and end; durations scale with the factors alone, pitch, velocity and "
     "everything else stay, the total time moves along, and the inverse chain restores the notes. A quantized sequence refuses to be shifted and stays as it was.",
     ["inputs", "histories"], "every sequence of notes and every chain of shifts and stretches",
     "The tests shift or stretch once by a chosen amount.",
     [M + "midi_sequence.py", M + "midi_note.py"], [("shift_times / stretch", M + "midi_sequence.py"), ("shift_time / stretch of a note", M + "midi_note.py")],
     "The chain is composed as an affine map and compared after every step; then undone.", "generated chains against the composed affine map",
     ["MidiNoteSequence.shift_times / stretch, MidiNote.duration"])

prop("C11", "Quantization puts notes and control changes on the steps of the grid",
     "Quantizing at s steps per second with amount a (4 and one half by default) gives every note the start step floor(start * s + 1 - a) and the end step ceil(end * s + 1 - a), moves its times to those of the steps (to a hundredth of a second) with the start before the end, "
     "and keeps the rest; every control change gets its step and keeps its time. quantize() leaves the note it is asked on unchanged, a note or sequence can be quantized again on another grid with whole steps, and the total of quantized steps "
     "and the total time are those of the quantized notes.",
     ["inputs", "histories"], "every note and sequence, 1 to 32 steps per second, amounts in (0, 1], up to four grids in a row",
     "The tests quantize a few notes at 4 steps per second; rounding at and between steps and repeated quantization depend on the input.",
     [M + "midi_note.py", M + "midi_sequence.py", M + "midi_control_change.py"],
     [("MidiNote.quantize / quantize_in_place", M + "midi_note.py"), ("MidiNoteSequence.quantize", M + "midi_sequence.py"), ("MidiControlChange.quantize_in_place", M + "midi_control_change.py")],
     "Steps are computed in exact fractions from times that are exact in binary, at, between and next to the steps.", "generated notes against exact rational arithmetic",
     ["quantized steps, start and end times, total_quantized_steps"])

prop("C12", "A note stays in MIDI ranges, compares by its fields, survives copies and JSON",
     "A note made from any numbers holds pitch and velocity clamped to 0..127, the program to 0..255 and the instrument to 0..127, is refused when it does not end after it starts or its meter is not valid (left out, the velocity is 127, the meter 4/4 and the note neither quantized nor a drum's), and afterwards a setter either "
     "stores a valid value or refuses it and leaves the note as it was, so a start is never at or after the end. pitch_name always names the current pitch. Notes are equal exactly if all fields are, order by start, end and pitch, overlap exactly if they "
     "sound together, and copies and JSON give an equal note.",
     ["inputs", "histories"], "every combination of field values in and out of range, every chain of assignments, all pairs of generated notes",
     "The tests make notes with a few values; the ranges, orders and round trips hold for all field values only if every field is carried everywhere.",
     [M + "midi_note.py", M + "abstract_midi_event.py"], [("MidiNote.__init__ and setters, __eq__, __lt__, from_json, make_copy", M + "midi_note.py")],
     "Fields in and out of range against a table of expected values; chains of assignments against a model; all pairs compared.", "generated values, assignment histories and pairs",
     ["MidiNote attributes, comparison, copy, MidiNoteJSONDecoder"])

prop("C13", "Instruments, signatures, controls and bends hold the values they are given",
     "An instrument, a time, key or tempo signature, a control change and a pitch bend hold the values they were made of or refuse values outside the documented range, follow their setters, and come back equal from copies and dictionaries. "
     "Equality, order and hash agree with each other and with the fields: instruments are equal exactly if number, name and drum flag are, and order by number.",
     ["inputs"], "every combination of values in and out of range and every pair",
     "The tests make a few of each; equality, order and hash are relations over all pairs.",
     [M + "midi_instruments.py", M + "midi_time_signature.py", M + "midi_key_signature.py", M + "midi_control_change.py", M + "midi_pitch_bend.py"],
     [("value classes", M)],
     "Values in and out of range against a table of expected fields, all pairs of a generated list compared.", "generated values and pairs",
     ["attributes, comparison, hash, to_dict / from_dict, copies"])

prop("C14", "A piece keeps its tracks through any history of edits",
     "After any history of indexing, assignment, set_sequence, create_track and get_track, a piece holds exactly the tracks that history leaves, under their numbers 0 to 127: a track that is asked for is made once and is the same object from then on, an "
     "assigned sequence is the one that is there, and building a piece from several sequences puts those of one instrument together. Iteration, length, instruments, counts and the merged list of all events (in order of time) agree with the tracks, and asking does not create any. Bad numbers and "
     "values are refused and change nothing.",
     ["histories"], "every history of edits, questions and constructors with several sequences per instrument",
     "The tests build one or two pieces; tracks that spring up on access and several sequences of one instrument depend on the history.",
     [M + "midi_sequences.py"], [("MidiNoteSequences.__getitem__ / __setitem__ / create_track / get_track / __init__", M + "midi_sequences.py")],
     "Stateful: a dictionary of tracks as model, compared in full after each step. Known finding: truncate(from_start=...) of a piece fails outright.",
     "stateful model-based histories", ["MidiNoteSequences as a mapping, instruments, get_all_sequence_events, truncate"])

prop("C15", "Sorted dictionaries, intervals and dictionaries of intervals follow their model",
     "After any history of assignments, deletions, pop, popitem, setdefault, update, |, clear and copies, a SortedDict holds exactly the items a plain dictionary would, its keys, values, items, iteration and reversed iteration follow the sorted keys, and it equals any dictionary of the same "
     "items; copies and the list of keys are the caller's own. A closed Interval contains, overlaps, intersects (None when disjoint) and joins (hull) as the set of its points does and orders by (start, end). A SortedIntervalDict behaves alike, and d[a:b] holds exactly the items "
     "whose interval overlaps [a, b].",
     ["histories", "inputs"], "every history of operations on keys of four kinds; all pairs of intervals; every window, open bounds included",
     "The tests insert three keys; the list of sorted keys that is kept beside the dictionary goes stale only in certain orders of operations.",
     [M + "sorted_dict.py", M + "Interval.py", M + "sorted_interval_dict.py"],
     [("SortedDict", M + "sorted_dict.py"), ("Interval", M + "Interval.py"), ("SortedIntervalDict", M + "sorted_interval_dict.py")],
     "Stateful against a plain dict; the whole of the dictionary is compared after each step. Interval relations against pairs of numbers.", "stateful model-based histories; all pairs of generated intervals",
     ["the mapping protocol of the three classes"])

prop("C16", "The notes of a track fall into chords by an automatic tolerance",
     "The tolerance of a track is the 95th percentile (linear) of the gaps between successive onsets, 0 for a drum track or fewer than three notes. Every sounding note (velocity above 0, not drum) is in exactly one chord: notes go together exactly if round(round(t / tolerance) * tolerance, 2) is the same, or with a tolerance "
     "of 0 if they start at one time; with a fixed tolerance notes of one time go together and no chord is wider than the tolerance. The single-note filter drops exactly the chords of one note, and rescaling maps the velocities of a chord linearly onto 32..127 (rounded down; one alone by v * 95 / 127 + 32, rounded).",
     ["inputs"], "every track: any onsets (grid, jitter, arbitrary floats), velocities, drum flags, and all real files",
     "The tests group one or two tracks; the buckets depend on the whole distribution of gaps, and nothing tests the percentile or the rescaling.",
     [N + "midi_graph_builder.py"], [("compute_tolerance / instrument_time_differences / compute_data / rescale_velocities", N + "midi_graph_builder.py")],
     "Reference model in pbt/graphs.py over plain facts of the notes; velocities in exact fractions; real corpus.", "generated tracks and real files against a reference model",
     ["MidiGraphBuilder.compute_data / compute_tolerance / rescale_velocities / scale_relative_velocities"])

prop("C17", "The graph of a sequence has its chords as nodes and its transitions as edges",
     "For every sequence, build_sequence gives a graph whose nodes are the distinct chords (sets of pitches; a chord larger than the feature size is split from low to high), in order of discovery, each under the hash of its frozenset, with its pitches - and with velocity the rescaled "
     "loudest velocity per pitch of one of its occurrences, aligned - padded by zeros. Walking the chords in time, the first one gets a self-edge of weight 1 and every further step adds 1 to the edge between the chord before and this one, in whichever direction it exists, else makes it pointing forward. "
     "So the graph is connected, its weights add up to the number of chords played, the order of the notes in the list does not matter, transposition maps it onto the transposed graph, and a further sequence added to it starts from the chord discovered last.",
     ["inputs"], "every sequence of notes, feature size, filter and velocity flag; all real files",
     "The tests check node and edge counts of four tiny sequences; weights, directions, splitting and features depend on the walk.",
     [N + "midi_graph_builder.py"], [("build_sequence", N + "midi_graph_builder.py"), ("create_tensor", N + "midi_graph_builder.py")],
     "Reference model of the walk and metamorphic relations (shuffled notes, transposition, two sequences into one graph). Known finding: there are chords of seven notes that share one hash (hash() of a frozenset is nearly linear), which become one node.", "reference model, metamorphic relations, real files",
     ["MidiGraphBuilder.build_sequence, node and edge attributes, hash_to_notes"])

prop("C18", "A piece gives a graph per instrument or a merged one, numbered across builds",
     "build() makes, per instrument, one graph for each track that is not a drum track, has not exactly one note and has a chord left, in order of track number, or merged a single graph of all of them in which each further track starts from the chord discovered last. Chords are numbered 1, 2, ... in order of discovery over all builds of "
     "a builder, and the maps between pitches, hashes and numbers are inverse to each other. The emitted PyG data has one row of x and one y (the chord's number) per node, and exactly the graph's edges with their weights; graphs() emits each graph once in order and then releases them, and stopping early or asking changes nothing; the piece stays as it was.",
     ["inputs", "histories"], "every history of builds (pieces, options) and emissions through one builder; real files in a row",
     "The tests look at one or two builds; numbering and release depend on what was built and emitted before.",
     [N + "midi_graph_builder.py"], [("build / graphs / from_midi_networkx", N + "midi_graph_builder.py")],
     "Stateful: builds and emissions against the model of C17, all graphs and data compared after every step. Known findings: one-hot graphs of chords of different sizes cannot be converted; chords of one hash get one number.",
     "stateful model-based histories; real files", ["MidiGraphBuilder.build, sub_graphs, pyg_data, graphs(), the four maps"])

prop("C19", "Questions about a graph, merging of nodes and conversion to PyG data",
     "is_connected answers whether an edge of either direction joins two chords, whether they are given as pitches in any order, notes or hashes; neighbors gives exactly the successors, get_edge_connected the directed edge or None. merge_nodes replaces nodes by one that has exactly the edges they had to and from others. "
     "from_midi_networkx keeps every node, every edge (both directions of an undirected one) and every attribute of any graph, with the chosen attributes side by side in x and edge_attr in row order, and leaves the graph unchanged.",
     ["inputs"], "every generated chord graph with all pairs of chords; random graphs of four kinds with several attributes",
     "The tests do not call most of these; rows and edges must agree for every node order.",
     [N + "midi_graph_builder.py"], [("is_connected / neighbors / get_edge_connected / merge_nodes / from_midi_networkx", N + "midi_graph_builder.py")],
     "All pairs of chords of generated graphs, random networkx graphs, compared with plain sets of edges.", "generated graphs against set models", ["the static methods of MidiGraphBuilder"])

prop("C20", "A data set holds the graphs of its MIDI files, split and stored the same",
     "A data set of a list of MIDI files (absolute, relative to the root, or all those of the raw directory) has exactly the graphs of the pieces, file by file, per instrument or one per piece, filtered and transformed by the hooks it was given, with y the number of each chord and, with masks, every "
     "node in exactly one of train, validation and test, of which the first two hold the given shares rounded down. Its counts of classes, its statistics and its maps between chords, hashes and numbers follow from those graphs, and making the data set a second time from the same directory, in the other view, or in another size beside it, "
     "gives back the same graphs and masks. Illegal arguments are refused before anything is written, and the files and the caller's list stay as they were.",
     ["inputs", "histories", "configurations"], "every list of MIDI files, feature size, filter, hook and ratio of the split; data sets made, made again and made side by side; real files",
     "The tests download one archive or build one file; that files, indices, masks and stored graphs belong together depends on the files and on what was in the directory.",
     [N + "midi_dataset.py"], [("MidiDataset.process / get / split masks / maps", N + "midi_dataset.py"), ("NodeHashIndexMapper", N + "midi_dataset.py")],
     "Generated MIDI files in a scratch directory, compared with the graph model of C18 in full (each graph twice, iteration, other view, second size, reloaded); 38 illegal arguments; histories of two hash mappers against lists; the real corpus. "
     "Scoped out: files of one base name, a directory reused with other files, filter or ratios, and data sets without any graph (PyTorch Geometric refuses them).",
     "generated directories of files against the graph model, and reloading", ["MidiDataset(...), indexing, iteration, num_classes, compute_statistics, maps"],
     [("processed files", "the stored graphs and masks of both views", N + "midi_dataset.py")])

prop("C21", "Random drops, degree features and one hot rows of graph data",
     "Dropping nodes with probability p removes exactly the whole part of p times their number and leaves the subgraph of the rest: the rows of x, y, masks, hashes and labels follow their nodes, and exactly the edges between kept nodes stay, renumbered, with their own attributes. Dropping edges keeps a subset of them in order with their attributes (all for p = 0, none for p = 1, on average the share 1 - p) and leaves "
     "all else as it was; neither changes the data it is given. The degree transform appends the number of outgoing edges of each node to its features, the id transform numbers graphs, and a one hot row has its single 1 at the number it stands for.",
     ["inputs"], "every graph (features, attributes, masks, labels present or not, empty edges), probability and seed, and the graphs of the builder",
     "No test calls a transform; that rows and edges follow their nodes depends on which nodes are drawn.",
     [N + "transforms.py", N + "utils.py"], [("RandomNodeDrop / RandomEdgeDrop / AddDegreeTransform / GraphIDTransform", N + "transforms.py"), ("np_onehot", N + "utils.py")],
     "Each node carries features that name it and each edge an attribute that names it, so the result is compared with the induced subgraph whatever was drawn; drop shares over many draws within bounds that a correct transform misses less than once in 10^9 runs.",
     "generated graphs with self-naming nodes and edges against the induced subgraph", ["the call of each transform on Data"])

prop("C22", "Pitches, frequencies, tempi, steps and frames are converted consistently",
     "The frequency of a pitch doubles with each octave and has 440 Hz at 69, names of notes give the pitch and pitches the name, and the length of beats and notes follows from meter and tempo. Rates of steps, quarters and beats are converted by their factors for numbers and arrays alike; the frames of a span are those it touches and a span that ends before it begins or lies before 0 is refused. "
     "A time in seconds goes to the step below or, from the threshold on, the step above. Quantizing a note to a grid or to a step moves each time to a nearest step, keeps the order of start and end, and does nothing more when repeated; a note goes to the nearest point of a list of points.",
     ["inputs"], "every pitch, tempo, meter, resolution, span, step and grid within the stated ranges",
     "The tests try a few round numbers; the nearest step depends on how time, step and grid divide.",
     [M + "midi_utils.py", M + "midi_note.py"], [("steps_per_second_from_bpm / frames_from_times / ft_quantize_to_nearest_step / quantize_note_to_step_grid / quantize_to_nearest_step / vector_quantize", M + "midi_utils.py"),
                                              ("note_to_freq / from_name / beat_duration / duration_in_seconds", M + "midi_note.py")],
     "Closed forms, round trips and the nearest-step relation over generated numbers. Not covered for contradictory documentation: from_bpm_spq_to_sps, the occupancy option of frames_from_times and interpolates_quantize.",
     "closed forms, round trips and nearest-step relations over generated numbers", ["the functions of midi_utils, MidiNote.note_to_freq / from_name / beat_duration"])

prop("C23", "Scales, triads, chords and intervals follow music theory on every root",
     "For each of the twelve roots - given as a number 0 to 11, a name, or a name in lower case - and each of the ten scales (the seven modes of the major scale, natural, harmonic and melodic minor), the notes, the intervals, the table of steps, the triads and their qualities agree with each other and with the pattern of the scale, moved to the root. "
     "Names of chords, the steps between their notes and their intervals above the root give each other back for every chord of the table, and the pitches of intervals above a root are their sum modulo 12; compound intervals and their base and octave give each other back. Roots, scales, intervals and chords that do not exist are refused and the tables cannot be changed.",
     ["inputs"], "all roots, scales and named chords; every list of intervals above every root; every number of semitones",
     "The tests compare a few scales on a few roots; the tables are large, kept several times over, and each entry can be wrong alone.",
     [M + "midi_scales.py"], [("MusicTheory", M + "midi_scales.py")],
     "Exhaustive over roots, scales and chords against scales made by rotating the major one; generated lists of intervals. Not covered: functions marked TODO, chord names of several characters in chord_from_scale, the chords_types table.",
     "exhaustive tables against rotations of the major scale, and generated intervals", ["the static methods and tables of MusicTheory"])

prop("C24", "Float intervals and trees of them answer as the set of their intervals does",
     "A half-open interval of floats contains points, overlaps, contains, measures and orders intervals as its pair of bounds does, and equals its copies. After any history of additions, removals, chopping, slicing, splitting, merging, set operations, copying and clearing, an interval tree holds exactly the intervals that history leaves, passes its own check, and answers every question - those at a point, overlapping or inside "
     "a range, bounds, membership, nesting - as the plain set of intervals would. Empty intervals are refused and change nothing, and copies and operands of set operations stay independent.",
     ["histories", "inputs"], "every history of operations on intervals with shared, touching and nested bounds, and every point and range asked",
     "No test touches the package; the balance and the centers of a tree depend on the order of insertions and deletions.",
     [N + "interval/"], [("FloatInterval", N + "interval/"), ("FloatIntervalTree and its nodes", N + "interval/")],
     "Stateful against a set of tuples, compared and verified after each step, asked at all bounds, between them and around at the end.", "stateful model-based histories", ["FloatInterval, FloatIntervalTree"])
