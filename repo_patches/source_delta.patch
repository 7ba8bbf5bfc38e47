From d3a181cf06c6455aa31182ed859c964a904460ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 01/96] fix: stack node attribute tensors when converting a
 graph to PyG data

from_midi_networkx left a list of tensors in place and then called .dim()
on it, so every MidiGraphBuilder.build() raised AttributeError.
---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 581c173..e71cb3a 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -283,7 +283,7 @@ class MidiGraphBuilder:
                     continue
                 try:
                     if isinstance(value, (tuple, list)) and all(isinstance(v, (Tensor, np.ndarray)) for v in value):
-                        data[key] = value
+                        data[key] = torch.stack([torch.as_tensor(v) for v in value], dim=0)
                     elif isinstance(value, np.ndarray):
                         data[key] = torch.from_numpy(value)
                     elif isinstance(value, (tuple, list)) and all(isinstance(v, Tensor) for v in value):
-- 
2.43.0


From 5f9594283b312cf5f9b0ee252b3e260bd069bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 02/96] fix: order note groups by time, not by the hash of the
 time

The hash of a non-integer float does not preserve order, so chords were
linked out of time order.
---
 neural_graph_composer/midi_graph_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index e71cb3a..840ba24 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -734,7 +734,8 @@ class MidiGraphBuilder:
 
             assert adjusted_time_hash >= 0, "n.start_time must be non-negative"
 
-            time_hash = hash(adjusted_time_hash)
+            # the time itself is a key, a hash of a float doesn't preserve time order.
+            time_hash = adjusted_time_hash
             if time_hash not in data:
                 data[time_hash] = []
 
-- 
2.43.0


From e654106ce091c73c9dd407926b37208f88523321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 03/96] fix: graphs() emits every graph before it releases them

The internal lists were cleared after the first yield, so iterating a
builder dropped all but the first instrument's graph.
---
 neural_graph_composer/midi_graph_builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 840ba24..336e5a5 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1161,7 +1161,7 @@ class MidiGraphBuilder:
             yield g
             del g
 
-            del self._pyg_data[:]
-            del self._sub_graphs[:]
-            self._pyg_data = []
-            self._sub_graphs = []
+        del self._pyg_data[:]
+        del self._sub_graphs[:]
+        self._pyg_data = []
+        self._sub_graphs = []
-- 
2.43.0


From 679d702731778cbb3f56ce30bb51a27592d339d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 04/96] fix: sanity check of graphs() reads labels as plain
 integers

g.label is a list of int, .item() raised AttributeError.
---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 336e5a5..ec7a5f4 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1139,7 +1139,7 @@ class MidiGraphBuilder:
 
             # reverse sanity-check
             if is_sanity_check:
-                original_labels = [self._index_to_hash[label.item()] for label in g.label]
+                original_labels = [self._index_to_hash[label] for label in g.label]
                 original_target_indices = [self._index_to_hash[index] for index in target_indices]
                 original_y_values = [self._index_to_hash[y.item()] for y in g.y]
                 original_notes = [self._hash_to_notes[h] for h in original_labels]
-- 
2.43.0


From 33dd91a48fc71b2be85fa44041abf3a15da69493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/96] fix: a note-on only ends the note sounding on its own
 key

Every note-on closed every note that sounded in the track, so a held note was
cut at the next onset and chords with staggered onsets lost their lengths.
---
 neural_graph_composer/custom_pretty_midi.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 086da07..8c743eb 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -271,16 +271,21 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         notes_to_remove = []
 
         for k, v in last_note_on.items():
-            start_tick, velocity = v[0]
             _channel, _note = k
+            # a note on only ends what sounds on the same key, a chord or a held note keeps sounding.
+            if not end_of_seq and k != (event.channel, event.note):
+                continue
+            start_tick, velocity = v[0]
             if end_tick > start_tick or end_of_seq:
                 # start we know, end is current note on event
                 start_time = self.tick_times[start_tick]
                 end_time = self.tick_times[end_tick]
-                note = Note(velocity, _note, start_time, end_time)
                 program = current_instrument[_channel]
                 ints = __get_instrument(program, _channel, track_idx, 1)
-                ints.notes.append(note)
+                # all note on of the same tick
+                for _, velocity in v:
+                    note = Note(velocity, _note, start_time, end_time)
+                    ints.notes.append(note)
                 # we close a note we remove it.
                 notes_to_remove.append(k)
 
-- 
2.43.0


From bbb14d1a236ef9fb3c03b05b45d1587b430e9e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 06/96] fix: read every pitch bend and control change of a
 track

Events before the end of the piece were skipped, so nearly all of them were
lost. A bend of -8192 is read as -8191, the lowest bend MidiPitchBend takes.
---
 neural_graph_composer/midi_reader.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index b471d36..5298793 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -190,8 +190,7 @@ class MidiReader(MidiBaseReader):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             # for each instrument iterate over all node and get time
             for n in instrument.pitch_bends:
-                if not midi_seq.total_time or n.time >= midi_seq.total_time:
-                    yield instrument, i, n, seq_id
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_control_changes(
@@ -208,8 +207,7 @@ class MidiReader(MidiBaseReader):
         for i, instrument in enumerate(midi_data.instruments):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             for cv in instrument.control_changes:
-                if not midi_seq.total_time or cv.time >= midi_seq.total_time:
-                    yield instrument, i, cv, seq_id
+                yield instrument, i, cv, seq_id
 
     @staticmethod
     def mido_to_pretty_midi(mido_file: mido.MidiFile) -> CustomPrettyMIDI:
@@ -292,7 +290,7 @@ class MidiReader(MidiBaseReader):
                 seq_id, instrument.name, instrument.program, instrument.is_drum)
             current_seq.add_pitch_bends(
                 MidiPitchBend(
-                    b.pitch,
+                    max(b.pitch, -8191),
                     midi_time=b.time,
                     program=instrument.program,
                     instrument=instrument_idx,
-- 
2.43.0


From 76a3d8011fa7efd019eed13e83df278d38a07684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/96] fix: write the program and the name of each track

The program attribute of a sequence is always 0, so every track was written as
a piano, without its name.
---
 neural_graph_composer/midi_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 5298793..6d7ccbb 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -385,7 +385,8 @@ class MidiReader(MidiBaseReader):
 
             # create instrument
             instrument = pretty_midi.Instrument(
-                sequence[k].program, sequence[k].instrument.is_drum
+                sequence[k].instrument.instrument_num, sequence[k].instrument.is_drum,
+                sequence[k].instrument.name
             )
             instrument.notes = notes
             instrument.pitch_bends = pitch_bends
-- 
2.43.0


From 7efad7080d53e2ba008d3dfb5a986aa371872090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 08/96] fix: a short sequence can be written

The debug line estimated a tempo, which raises ValueError for fewer than two onsets.
---
 neural_graph_composer/midi_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 6d7ccbb..26dae53 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -401,7 +401,6 @@ class MidiReader(MidiBaseReader):
             pm.adjust_times(original_times, new_times)
 
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
-                      f"estimate_tempo: {pm.estimate_tempo()} "
                       f"resolution: {pm.resolution}")
         return pm
 
-- 
2.43.0


From 25b814efb493bb108d6c0c18e4a9b2a9a8e8117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 09/96] fix: place the second and later tempo change of a
 written file at its time

The tick of a tempo change was computed as if its predecessor's tempo had held
from the start, so everything after the second change moved.
---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 26dae53..c169b3c 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -361,7 +361,7 @@ class MidiReader(MidiBaseReader):
             print(f"Setting scale {type(seq_tempo.midi_time)}")
             tick = pm.time_to_tick(seq_tempo.midi_time)
             pm.update_scale((tick, tick_scale))
-            pm.update_tick_time([0])
+            pm._update_tick_to_time(0)
 
         inst_infos = {}
         for i, inst_info in enumerate(sequence.instruments):
-- 
2.43.0


From 92f29b1b966b00c27b10aeb1a7300a4cda85b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 10/96] fix: write the events that follow the last note

Signatures after the end of the last note, and bends and control changes at or
after it, were dropped, and a sequence without notes raised ValueError.
---
 neural_graph_composer/midi_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index c169b3c..c467bfe 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -327,7 +327,7 @@ class MidiReader(MidiBaseReader):
         :rtype CustomPrettyMIDI
         """
         ticks_per_quarter = sequence.resolution or DEFAULT_PPQ
-        max_event_time = sequence.truncate(to_end)
+        max_event_time = to_end
         initial_seq_tempo = sequence.initial_tempo()
 
         logging.debug(f"{initial_seq_tempo} {ticks_per_quarter} {max_event_time}")
@@ -375,13 +375,13 @@ class MidiReader(MidiBaseReader):
             pitch_bends = [
                 pretty_midi.PitchBend(sb.amount, sb.midi_time)
                 for sb in sequence[k].pitch_bends
-                if max_event_time and sb.midi_time < max_event_time
+                if max_event_time is None or sb.midi_time < max_event_time
             ]
 
             control_changes = [
                 pretty_midi.ControlChange(cc.cc_number, cc.cc_value, cc.cc_time)
                 for cc in sequence[k].control_changes
-                if max_event_time and cc.cc_time < max_event_time]
+                if max_event_time is None or cc.cc_time < max_event_time]
 
             # create instrument
             instrument = pretty_midi.Instrument(
-- 
2.43.0


From b85a36f2a385d107830fadee33284e2b616fe17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 11/96] fix: a signature is in force from the very time it
 takes effect

Looking up the signature at the exact time of a change gave the previous one,
so a note on the first beat of a new section got the old time signature, and a
time before the first change gave the last one instead of the default.
---
 neural_graph_composer/midi/midi_sequences.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a8e9029..3b5fdb5 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -33,7 +33,7 @@ import numpy as np
 from .abstract_midi_reader import MidiBaseReader
 from .midi_abstract_event import MidiEvent
 from .midi_instruments import MidiInstrumentInfo
-from .midi_key_signature import MidiKeySignature
+from .midi_key_signature import MidiKeySignature, KeySignatureType
 from .midi_note import MidiNote
 from .midi_sequence import MidiNoteSequence
 from .midi_spec import DEFAULT_PPQ, DEFAULT_QPM
@@ -581,7 +581,9 @@ class MidiNoteSequences:
         if self.time_signatures is None or len(self.time_signatures) == 0:
             return 4, 4
 
-        i = bisect_right(self.time_signatures, MidiTimeSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.time_signatures, start_time, key=lambda k: k.midi_time) - 1
+        if i < 0:
+            return 4, 4
         return self.time_signatures[i].numerator, self.time_signatures[i].denominator
 
     @cache
@@ -598,7 +600,9 @@ class MidiNoteSequences:
         if self.tempo_signature is None or len(self.tempo_signatures) == 0:
             return DEFAULT_PPQ, DEFAULT_QPM
 
-        i = bisect_right(self.tempo_signatures, MidiTempoSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.tempo_signatures, start_time, key=lambda k: k.midi_time) - 1
+        if i < 0:
+            return DEFAULT_QPM, DEFAULT_PPQ
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
 
     @cache
@@ -609,7 +613,9 @@ class MidiNoteSequences:
         """
         if self.key_signatures is None or len(self.key_signatures) == 0:
             return 0, 0
-        i = bisect_right(self.key_signatures, MidiKeySignature(midi_time=start_time)) - 1
+        i = bisect_right(self.key_signatures, start_time, key=lambda k: k.midi_time) - 1
+        if i < 0:
+            return KeySignatureType.MAJOR, 0
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
     @property
-- 
2.43.0


From a7b13fa0688bda771f43507d14a76bc83190485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 12/96] fix: a signature can be added to an empty list of
 signatures

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 3b5fdb5..ebc1501 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -352,7 +352,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding time signature {v}")
 
-        v.seq = self.time_signatures[-1].seq + 1
+        v.seq = self.time_signatures[-1].seq + 1 if self.time_signatures else 0
 
         # replace default
         if len(self.time_signatures) >= 1 and self.is_close_to_zero(
@@ -374,7 +374,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding key signature {v}")
 
-        v.seq = self.key_signatures[-1].seq + 1
+        v.seq = self.key_signatures[-1].seq + 1 if self.key_signatures else 0
 
         # replace default
         if len(self.key_signatures) >= 1 and self.is_close_to_zero(
@@ -404,7 +404,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding tempo a signature {v}")
 
-        v.seq = self.tempo_signatures[-1].seq + 1
+        v.seq = self.tempo_signatures[-1].seq + 1 if self.tempo_signatures else 0
 
         if len(self.tempo_signatures) >= 1 and self.is_close_to_zero(
                 self.tempo_signatures[0].midi_time, v.midi_time):
-- 
2.43.0


From 75977b27023d169e1332c3a5e8cbe770802a9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 13/96] fix: the initial tempo follows a tempo signature that
 is added later

The result was cached and never invalidated.
---
 neural_graph_composer/midi/midi_sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index ebc1501..dbbd9e3 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -413,6 +413,7 @@ class MidiNoteSequences:
             bisect.insort_left(self.tempo_signatures, v, key=lambda k: k)
 
         self.tempo_signature.cache_clear()
+        self.initial_tempo.cache_clear()
 
     def slice_time_signatures(
             self,
-- 
2.43.0


From 6b8a118111f6479f9740e72977955ba8cf026e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 14/96] fix: slices of the tempo signatures are sorted and
 honour a bound of 0.0

The loop ignored the sorted list, and compared a signature to a bound method.
---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index dbbd9e3..f4434e3 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -476,10 +476,10 @@ class MidiNoteSequences:
         if sort_first:
             _tempo_signatures = sorted(self.tempo_signatures, key=lambda x: x.midi_time)
         else:
-            _tempo_signature = self.tempo_signature
+            _tempo_signatures = self.tempo_signatures
 
-        for sig in self.tempo_signatures:
-            if sig == self.initial_tempo or upper_bound and sig.midi_time > upper_bound:
+        for sig in _tempo_signatures:
+            if upper_bound is not None and sig.midi_time > upper_bound:
                 continue
             yield sig
 
-- 
2.43.0


From ac2163e289c0bbd8017f60c99c2fdfa62fdb88d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 15/96] fix: looking up a new track does not overwrite another
 track

A track made by a lookup was stored under the number of tracks, which may be
the index of an existing track, whose notes were lost.
---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index f4434e3..803cbcb 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -211,7 +211,7 @@ class MidiNoteSequences:
             self._instrument_to_idx = {}
 
         if track_idx not in self._track_to_idx:
-            internal_idx = len(self.__midi_seqs)
+            internal_idx = track_idx
             instrument = MidiInstrumentInfo(
                 instrument=track_idx,
                 name=f"Instrument {0}",
-- 
2.43.0


From 93ad6ebada9acd31d45ac6152142ec2f15d2e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 16/96] fix: a track that was set is the track that is read
 back

Setting a track did not register it, so reading it gave a new empty track, and
setting a list of notes raised AttributeError.
---
 neural_graph_composer/midi/midi_sequences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 803cbcb..da43e10 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -250,6 +250,7 @@ class MidiNoteSequences:
             self.__midi_seqs[track_idx] = MidiNoteSequence.from_notes(notes=value)
         else:
             raise TypeError("value must be a MidiNoteSequence or a list of MidiNotes")
+        self._track_to_idx[track_idx] = track_idx
 
     def __len__(self) -> int:
         """Return len of midi_seq.
@@ -780,8 +781,9 @@ class MidiNoteSequences:
     def set_sequence(self, track_idx: int, sequence: Union[List[MidiNote], MidiNoteSequence]) -> None:
         """Set the MidiNoteSequence for the given track index."""
         if not isinstance(sequence, MidiNoteSequence):
-            sequence = MidiNoteSequence(resolution=self.resolution, is_debug=self.is_debug)
-            sequence.midi_notes = sequence.midi_notes + sequence
+            sequence = MidiNoteSequence(
+                notes=sequence, resolution=self.resolution, is_debug=self.is_debug)
 
         self.__midi_seqs[track_idx] = sequence
+        self._track_to_idx[track_idx] = track_idx
 
-- 
2.43.0


From eab60e4f1dc85e0788ed9e9be5132b6cd2cbeea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 17/96] fix: a container is quantized only if all of its
 sequences are

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index da43e10..4661c99 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -488,7 +488,7 @@ class MidiNoteSequences:
         """Return true if all midi sequence for each instrument quantized
         :return:
         """
-        return all(n.is_quantized for n in self.__midi_seqs.values())
+        return all(n.is_quantized() for n in self.__midi_seqs.values())
 
     def get_all_sequence_events(self) -> List[MidiEvent]:
         """Return a list of all events in the sequence.
-- 
2.43.0


From 5bc363e9202376bbe0c6cc1fbfca7c48d93391a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 18/96] fix: a container made of sequences knows its total time

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 4661c99..c05e7e2 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -163,7 +163,7 @@ class MidiNoteSequences:
         self.resolution = resolution
 
         # total time for entire seq
-        self.total_time: float = 0.0
+        self.total_time: float = max([seq.total_time for seq in self.__midi_seqs.values()], default=0.0)
 
         # a file name for a midi file.
         self.filename: str = filename
-- 
2.43.0


From d8df0448cfb2cff165491ad7a00790dde5e19d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 19/96] fix: a slice holds the notes cut at its end

The copy cut at the end of the slice was discarded and the original note was
added, which the slice then shared with its source.
---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d4b067f..8d32c57 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -579,7 +579,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
             new_note = copy.deepcopy(note)
             new_note.end_time = min(note.end_time, end)
-            new_midi_seq.add_note(note)
+            new_midi_seq.add_note(new_note)
 
         # update total time based on
         new_midi_seq.total_time = min(self.total_time, end)
-- 
2.43.0


From b0939ed20a2e63079d79713111cf53b7ad32db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 20/96] fix: the clone of a drum sequence keeps its events

---
 neural_graph_composer/midi/midi_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 8d32c57..c5eff95 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -667,6 +667,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """Return a clone of this object """
         cloned = MidiNoteSequence()
         cloned._notes = copy.deepcopy(self._notes)
+        cloned._drum_events = copy.deepcopy(self._drum_events)
         cloned.control_changes = copy.deepcopy(self.control_changes)
         cloned.pitch_bends = copy.deepcopy(self.pitch_bends)
         cloned.total_time = self.total_time
-- 
2.43.0


From 85ca478506013a211d8a4dc9fdc66d1fb2e10a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 21/96] fix: two sequences of one instrument can be added

The instrument number of a note was compared to an instrument object, so every
sum of sequences with notes was refused.
---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index c5eff95..d948d55 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -215,8 +215,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             raise ValueError("Instrument must be the same for both MidiNoteSequences.")
 
         # all notes in both sequences have the same instrument
-        if any(note.instrument != self.instrument for note in self.notes) \
-                or any(note.instrument != other.instrument for note in other.notes):
+        if any(note.instrument != self.instrument.instrument_num for note in self.notes) \
+                or any(note.instrument != other.instrument.instrument_num for note in other.notes):
             raise ValueError("All notes in both sequences must have the same instrument")
 
         midi_seq = MidiNoteSequence(instrument=self.instrument)
-- 
2.43.0


From b133924fc37638bcf066e7ed6de73a6251d93e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 22/96] fix: an empty list of notes can be appended

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d948d55..21ff9af 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -324,7 +324,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.total_time = max(self.total_time, note.end_time)
         elif isinstance(note, list):
             self.notes.extend(note)
-            max_end_time = max(note, key=lambda n: n.end_time).end_time
+            max_end_time = max([n.end_time for n in note], default=0.0)
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("note must be a MidiNote object or a list of MidiNote objects")
@@ -339,7 +339,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.total_time = max(self.total_time, notes.end_time)
         elif isinstance(notes, list):
             self.notes.extend(notes)
-            max_end_time = max(notes, key=lambda n: n.end_time).end_time
+            max_end_time = max([n.end_time for n in notes], default=0.0)
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("notes must be a MidiNote object or a list of MidiNote objects")
-- 
2.43.0


From 66d9e31d79d2bc0377099b946ba6ea276b0c13d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 23/96] fix: the first notes of a sequence end with the one
 that ends last

cut() took the end of its last note, which an earlier note may outlast, and
raised IndexError if no note remained. cut_in_place() had it right.
---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 21ff9af..cc5554b 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -783,7 +783,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         truncated_notes = self.notes[:cut_size]
         truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes)
-        truncated_seq.total_time = min(self.total_time, truncated_notes[-1].end_time)
+        truncated_seq.total_time = max([n.end_time for n in truncated_notes], default=0.0)
         return truncated_seq
 
     def to_midi_file(self, file_path: str, callback=save_midi_callback) -> None:
-- 
2.43.0


From 3c1bf85e3a076a0ba4d3d72828a184193c0f5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 24/96] fix: the number of quantized steps is that of the
 quantized notes

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index cc5554b..bfa34c0 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -614,8 +614,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             quantized_note = note.quantize(sps=sps, amount=amount)
             new_notes.append(quantized_note)
             # update total_quantized_steps
-            if note.quantized_end_step > self.__total_quantized_steps:
-                self.__total_quantized_steps = note.quantized_end_step
+            if quantized_note.quantized_end_step > self.__total_quantized_steps:
+                self.__total_quantized_steps = quantized_note.quantized_end_step
 
         new_control_changes = []
         #  quantize control changes and text annotations.
-- 
2.43.0


From 970dd831d7ccae367f005403100b5d19c5f45470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 25/96] fix: extract() keeps the length and the instrument of
 the notes

The end of each note was bounded by the total of the notes before it, which is
0 for the first, so extract() raised ValueError for any note.
---
 neural_graph_composer/midi/midi_sequence.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index bfa34c0..bb19290 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -527,7 +527,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 f"Split container time pass the total {self.total_time}. "
                 "extract subsequence past end of sequence.")
 
-        sub_sequences = [MidiNoteSequence() for _ in range(len(split_times) - 1)]
+        sub_sequences = [MidiNoteSequence(instrument=self.instrument, resolution=self.resolution)
+                         for _ in range(len(split_times) - 1)]
         for sub_seq in sub_sequences:
             sub_seq.total_time = 0.0
 
@@ -544,9 +545,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             sub_seq.notes.append(copy.deepcopy(note))
             sub_seq.notes[-1].start_time -= split_times[sbs]
             sub_seq.notes[-1].end_time = min(note.end_time, split_times[sbs + 1]) - split_times[sbs]
-            sub_seq.notes[-1].end_time = min(sub_seq.notes[-1].end_time,
-                                             sub_seq.total_time + sub_seq.notes[-1].start_time)
-            sub_seq.total_time = sub_seq.notes[-1].end_time + sub_seq.notes[-1].start_time
+            sub_seq.total_time = max(sub_seq.total_time, sub_seq.notes[-1].end_time)
 
         return sub_sequences
 
-- 
2.43.0


From 98a33afab2c9f3593fa2042c8c587d0b082f58fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 26/96] fix: split() cuts a sequence at the split points

It called a method that does not exist, and took a split point once per note
that starts before it, and not at all where no note starts.
---
 neural_graph_composer/midi/midi_sequence.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index bb19290..a7dc8d5 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -450,8 +450,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
         for split_point in num_splits:
             # update list of notes in current span
-            while notes_in_span and notes_in_span[0].end_time <= split_point:
-                notes_in_span.pop(0)
+            notes_in_span = [n for n in notes_in_span if n.end_time > split_point]
 
             # append notes that cross the split point to the list of notes in current span
             while seq_sorted_by_time and seq_sorted_by_time[0].start_time < split_point:
@@ -459,10 +458,10 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 if note.end_time > split_point:
                     notes_in_span.append(note)
 
-                # append split point to intervals if it's not on a boundary
-                # or if there are no notes in the current span
-                if not (skip_boundary and notes_in_span):
-                    intervals.append(split_point)
+            # append split point to intervals if it's not on a boundary
+            # or if there are no notes in the current span
+            if not (skip_boundary and notes_in_span):
+                intervals.append(split_point)
 
         return intervals
 
@@ -483,6 +482,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             num_splits = sorted(span)
         else:
             num_splits = np.arange(span, self.total_time, span)
+        num_splits = [t for t in num_splits if t < self.total_time]
 
         # compute span interval that we chop
         # note here if we use interval tree that will reduce complexity
@@ -495,7 +495,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         if len(intervals) <= 1:
             return []
 
-        return MidiNoteSequence.extract_notes(intervals)
+        return self.extract(intervals)
 
     def shift_times(self, offset: float) -> None:
         """In place shifts the start and end times by offset
-- 
2.43.0


From a4fc9bcbbccca7f60112f85e2aa19c2b44c277a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 27/96] fix: drum events given to the constructor are not lost

---
 neural_graph_composer/midi/midi_sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index a7dc8d5..d73f9f2 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -113,6 +113,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
         self._notes = [] if notes is None else [n for n in notes if not self.instrument.is_drum]
         self._drum_events = [] if notes is None else [n for n in notes if self.instrument.is_drum]
+        if drum_events is not None:
+            self._drum_events.extend(drum_events)
         # midi seq total time
         self.__total_time = max([n.end_time for n in self.notes], default=0.0)
 
-- 
2.43.0


From a0e5712b445c37e8d4313f534c647a33502f1008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 28/96] fix: a control change can be quantized

The start step was refused because it is not less than the end step of -1, so
no sequence with control changes could be quantized.
---
 neural_graph_composer/midi/midi_control_change.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index d909fb6..7202eab 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -338,12 +338,12 @@ class MidiControlChange(MidiBaseControlChange):
         :param amount:  quantization amount.
         :return:
         """
-        self.quantized_start_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-        self.quantized_end_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-
-        self.quantized_start_step = max(self.quantized_start_step, 0)
+        # both steps at once, each setter compares to the other step.
+        self._quantized_start_step = max(self.quantize_to_nearest_step(
+            self.cc_time, sps, amount=amount), 0)
+        self._quantized_end_step = max(self.quantize_to_nearest_step(
+            self.cc_time, sps, amount=amount), 0)
+        self._is_quantized = True
         assert (self.quantized_start_step >= 0)
         assert (self.quantized_end_step >= 0)
 
-- 
2.43.0


From 184c89da63e8edd5fd46e49c517a9e9d8aeb41ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 29/96] fix: the copy of a control change keeps its drum flag
 and its step

---
 neural_graph_composer/midi/midi_control_change.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index 7202eab..0294ad2 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -391,6 +391,8 @@ class MidiControlChange(MidiBaseControlChange):
             if cc_time is not None else self.cc_time,
             program=self.program,
             instrument=self.instrument,
+            is_drum=self.is_drum,
+            quantized_step=self.quantized_step,
             quantized_start_step=quantized_start_step
             if quantized_start_step is not None else self.quantized_start_step,
             quantized_end_step=quantized_end_step
-- 
2.43.0


From db42e1d1aa9f2b4a7b5b5031e84c7c16c5f5779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 30/96] fix: the name of a note follows its pitch

---
 neural_graph_composer/midi/midi_note.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 24fd7ac..3c41a45 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -586,6 +586,7 @@ class MidiNote(MidiEvent):
     def pitch(self, value):
         assert 0 <= value <= 127, f"Pitch value {value} is outside valid MIDI range (0-127)"
         self._pitch = value
+        self.pitch_name = librosa.midi_to_note(value)
 
     @property
     def program(self):
-- 
2.43.0


From a4927ba9005779ffcce60a38471b2bb8f96e8581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 31/96] fix: the frequency of A4 is 440 Hz

The offset of a pitch in its octave was taken from A instead of from C.
---
 neural_graph_composer/midi/midi_note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 3c41a45..c81a79e 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -753,7 +753,7 @@ class MidiNote(MidiEvent):
         >>> MusicNote.pitch_to_freq('F#', 5)
         739.988845423269
         """
-        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch]
+        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch] - PITCH_FREQUENCIES['A']
         return MidiNote.note_to_freq(REFERENCE_NOTE + semitones_above_a4)
 
     @staticmethod
-- 
2.43.0


From b45e2147915d67bdba2862e038a84693691f90dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 32/96] fix: an optional field that a JSON note lacks takes its
 default

None was passed to the constructor, which raised TypeError.
---
 neural_graph_composer/midi/midi_note.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index c81a79e..206835c 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -796,11 +796,11 @@ class MidiNote(MidiEvent):
             program=json_dict["program"],
             instrument=json_dict["instrument"],
             velocity=json_dict["velocity"],
-            quantized_start_step=json_dict.get("quantized_start_step"),
-            quantized_end_step=json_dict.get("quantized_end_step"),
-            voice=json_dict.get("voice"),
-            numerator=json_dict.get("numerator"),
-            denominator=json_dict.get("denominator"),
+            quantized_start_step=json_dict.get("quantized_start_step", -1),
+            quantized_end_step=json_dict.get("quantized_end_step", -1),
+            voice=json_dict.get("voice", 0),
+            numerator=json_dict.get("numerator", 4),
+            denominator=json_dict.get("denominator", 4),
             is_drum=json_dict.get("is_drum", False)
         )
 
-- 
2.43.0


From b55a5197349e0dbc7c4804bac63a5ab15548a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 33/96] fix: a sorted dictionary can be made from data

The items are set before the list of keys existed.
---
 neural_graph_composer/midi/sorted_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index c6abd3d..ba89b70 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -31,8 +31,8 @@ class SortedDict(collections.OrderedDict):
     """
 
     def __init__(self, *args, **kwargs):
+        self._keys = []
         super().__init__(*args, **kwargs)
-        self._keys = sorted(super().keys())
 
     def __setitem__(self, key, value):
         """Set the value of a key.
-- 
2.43.0


From 3e497e7925d2d3a62ba0cc01175a4413063118ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 34/96] fix: the keys of a sorted dictionary are those it holds

pop, popitem and clear left their keys behind, and a copy doubled the keys, for
copy.copy() those of the original too.
---
 neural_graph_composer/midi/sorted_dict.py | 30 +++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index ba89b70..e1621d3 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -62,6 +62,36 @@ class SortedDict(collections.OrderedDict):
         super().__delitem__(key)
         self._keys.remove(key)
 
+    def pop(self, key, *args):
+        """Remove a key and return its value, or the default if it is missing.
+        :param key: The key to remove
+        :return: The value of the key
+        """
+        if key not in self:
+            return super().pop(key, *args)
+        value = self[key]
+        del self[key]
+        return value
+
+    def popitem(self, last=True):
+        """Remove and return the pair of the last key, or of the first one, in sorted order.
+        :param last: if the last key is removed
+        :return: A (key, value) pair
+        """
+        if not self:
+            raise KeyError("dictionary is empty")
+        key = self._keys[-1 if last else 0]
+        return key, self.pop(key)
+
+    def clear(self):
+        """Remove all keys."""
+        super().clear()
+        self._keys.clear()
+
+    def __reduce__(self):
+        """A copy has a list of keys of its own."""
+        return self.__class__, (self.items(),)
+
     def keys(self):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
-- 
2.43.0


From a6cd8c8e439f76d3e84307c2b54a75a4c7a0a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 35/96] fix: an interval can be deleted from an interval
 dictionary

---
 neural_graph_composer/midi/sorted_interval_dict.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/sorted_interval_dict.py b/neural_graph_composer/midi/sorted_interval_dict.py
index df88e6c..5573228 100644
--- a/neural_graph_composer/midi/sorted_interval_dict.py
+++ b/neural_graph_composer/midi/sorted_interval_dict.py
@@ -42,11 +42,7 @@ class SortedIntervalDict(collections.abc.MutableMapping):
         :return:
         """
         if isinstance(key, Interval):
-            for i, (k, v) in enumerate(self._items):
-                if k == key:
-                    del self._items[i]
-                    return
-            raise KeyError(key)
+            del self._dict[key]
         elif isinstance(key, slice):
             for k in list(self.keys())[key]:
                 del self[k]
-- 
2.43.0


From a98d6235017eaa4dd7288e2e7e708be4ff127d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 36/96] fix: each file of a data set yields the graph of its
 own piece

The graph of the first file stayed in the builder, and was taken for every file.
---
 neural_graph_composer/midi_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 0b48cf9..15a30ad 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -628,11 +628,12 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=False
                 )
-                graphs = self._graph_builder.graphs()
+                # the generator is exhausted, so the builder releases the graph of this file.
+                graphs = list(self._graph_builder.graphs())
                 if not graphs:
                     raise ValueError("No sub graphs found in graph builder.")
 
-                midi_data = next(graphs)
+                midi_data = graphs[0]
 
                 self.all_classes.update(torch.unique(midi_data.y).tolist())
                 if self.pre_filter is not None and not self.pre_filter(midi_data):
-- 
2.43.0


From 858ddadff035958754d801f9377791ee99bedc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 37/96] fix: the whole-piece data set holds the graphs of the
 whole pieces

It was saved with the graphs of the single instruments.
---
 neural_graph_composer/midi_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 15a30ad..a769f98 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -589,6 +589,7 @@ class MidiDataset(InMemoryDataset):
             'index_to_hash': _index_to_hash,
         }
 
+        _data, _slices = self.collate(self.__data_list)
         print(f"Saving {self.processed_dir} data.pt")
         torch.save((_data, _slices, additional_data),
                    osp.join(
-- 
2.43.0


From dbc90a8c59d90a33ab11b9bd0c207bfd8645f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 38/96] fix: the statistics of a data set count the labels of
 its graphs

The labels kept beside the tensor are a list, or dropped by default.
---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index a769f98..887c054 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -394,7 +394,7 @@ class MidiDataset(InMemoryDataset):
         for data in self:
             num_nodes += data.num_nodes
             num_edges += data.num_edges
-            num_labels += torch.unique(data.label).size(0)
+            num_labels += torch.unique(data.y).size(0)
 
         return {
             "num_nodes": num_nodes,
-- 
2.43.0


From 2ca1e030eea09e5d019f7bde6ab346b6ca1cd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 39/96] fix: MIDI data can be read from bytes

The base class leaves the stream at its end.
---
 neural_graph_composer/custom_pretty_midi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 8c743eb..b2012d1 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -84,7 +84,9 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             # If a string was given, pass it as the string filename
             midi_data = mido.MidiFile(filename=midi_file)
         else:
-            # Otherwise, try passing it in as a file pointer
+            # Otherwise, try passing it in as a file pointer.
+            # The base class read it to its end.
+            midi_file.seek(0)
             midi_data = mido.MidiFile(file=midi_file)
 
         # Convert tick values in midi_data to absolute, a useful thing.
-- 
2.43.0


From 8162f73c4d1ca7d6765f39179891354f87548070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 40/96] fix: a written file keeps the tempo to the microsecond

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index b2012d1..365a92e 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -1353,7 +1353,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for (tick, tick_scale) in self._tick_scales:
             timing_track.append(mido.MetaMessage(
                 'set_tempo', time=tick,
-                tempo=int(6e7 / (60. / (tick_scale * self.resolution)))))
+                tempo=int(round(6e7 / (60. / (tick_scale * self.resolution))))))
 
         # Add in each time signature
         for ts in self.time_signature_changes:
-- 
2.43.0


From c68fed19c834692367f4d977bf644cd3ba3f4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 41/96] fix: a piece can be loaded with from_file() of the
 container

---
 neural_graph_composer/midi/midi_sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index c05e7e2..95ba32b 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -185,6 +185,10 @@ class MidiNoteSequences:
         except Exception as e:
             raise ValueError(f"Unable to load file {file_path}") from e
 
+        # a reader of files gives the piece, with its signatures and its resolution.
+        if isinstance(midi_data, MidiNoteSequences):
+            return midi_data
+
         return cls(filename=file_path, midi_seq=midi_data)
 
     def __getitem__(self, track_idx: int) -> MidiNoteSequence:
-- 
2.43.0


From 3290ff3a6dad99b42bdffa840d39c9c3dab0e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 42/96] fix: looking up a signature where none is set gives the
 default one

---
 neural_graph_composer/midi/midi_sequences.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 95ba32b..cd3cc32 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -581,7 +581,7 @@ class MidiNoteSequences:
         """
         # inc ase start time negative
         if start_time < 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
+            return 4, 4
 
         # default assumed signature
         if self.time_signatures is None or len(self.time_signatures) == 0:
@@ -601,10 +601,10 @@ class MidiNoteSequences:
         """
         # inc ase start time negative
         if start_time < 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
+            return DEFAULT_QPM, DEFAULT_PPQ
 
-        if self.tempo_signature is None or len(self.tempo_signatures) == 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
+        if self.tempo_signatures is None or len(self.tempo_signatures) == 0:
+            return DEFAULT_QPM, DEFAULT_PPQ
 
         i = bisect_right(self.tempo_signatures, start_time, key=lambda k: k.midi_time) - 1
         if i < 0:
@@ -618,7 +618,7 @@ class MidiNoteSequences:
         :return:
         """
         if self.key_signatures is None or len(self.key_signatures) == 0:
-            return 0, 0
+            return KeySignatureType.MAJOR, 0
         i = bisect_right(self.key_signatures, start_time, key=lambda k: k.midi_time) - 1
         if i < 0:
             return KeySignatureType.MAJOR, 0
-- 
2.43.0


From 7b5a6869c1ff45d22c543a387ae67c4a0f729891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 43/96] fix: signatures of one time keep the order in which
 they were added

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index cd3cc32..50f7cbd 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -357,7 +357,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding time signature {v}")
 
-        v.seq = self.time_signatures[-1].seq + 1 if self.time_signatures else 0
+        v.seq = max((s.seq for s in self.time_signatures), default=-1) + 1
 
         # replace default
         if len(self.time_signatures) >= 1 and self.is_close_to_zero(
@@ -379,7 +379,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding key signature {v}")
 
-        v.seq = self.key_signatures[-1].seq + 1 if self.key_signatures else 0
+        v.seq = max((s.seq for s in self.key_signatures), default=-1) + 1
 
         # replace default
         if len(self.key_signatures) >= 1 and self.is_close_to_zero(
@@ -409,7 +409,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding tempo a signature {v}")
 
-        v.seq = self.tempo_signatures[-1].seq + 1 if self.tempo_signatures else 0
+        v.seq = max((s.seq for s in self.tempo_signatures), default=-1) + 1
 
         if len(self.tempo_signatures) >= 1 and self.is_close_to_zero(
                 self.tempo_signatures[0].midi_time, v.midi_time):
-- 
2.43.0


From c29019bc518740c4e74f3a3fa6c502eb328b0c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 44/96] fix: the end of the last event follows the notes that
 are there now

---
 neural_graph_composer/midi/midi_sequence.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d73f9f2..7ed2f4f 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -651,7 +651,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             if seq_tempo.midi_time == 0:
                 return seq_tempo.midi_time
 
-    @cache
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
         `total_time + offset`.
-- 
2.43.0


From 23868e5d20fd0c78463f433e35a09ecdc63a58fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 45/96] fix: a sequence cut, truncated or added up keeps its
 resolution

---
 neural_graph_composer/midi/midi_sequence.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 7ed2f4f..19205dd 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -221,7 +221,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 or any(note.instrument != other.instrument.instrument_num for note in other.notes):
             raise ValueError("All notes in both sequences must have the same instrument")
 
-        midi_seq = MidiNoteSequence(instrument=self.instrument)
+        midi_seq = MidiNoteSequence(instrument=self.instrument, resolution=self.resolution)
         if self.notes is not None:
             midi_seq.notes = self.notes.copy()
         else:
@@ -430,7 +430,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return: MidiNoteSequence
         """
         new_notes = [copy.deepcopy(note) for note in self.notes if note.end_time <= end_time]
-        truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=new_notes)
+        truncated_seq = MidiNoteSequence(
+            instrument=self.instrument, notes=new_notes, resolution=self.resolution)
         truncated_seq.total_time = min(self.total_time, end_time)
         return truncated_seq
 
@@ -782,7 +783,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return: MidiNoteSequence
         """
         truncated_notes = self.notes[:cut_size]
-        truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes)
+        truncated_seq = MidiNoteSequence(
+            instrument=self.instrument, notes=truncated_notes, resolution=self.resolution)
         truncated_seq.total_time = max([n.end_time for n in truncated_notes], default=0.0)
         return truncated_seq
 
-- 
2.43.0


From e003b7bec5f94403b43b1283b3ccf0c515aa7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 46/96] fix: a note that is quantized again gets whole steps

---
 neural_graph_composer/midi/midi_note.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 206835c..aea98e8 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -467,12 +467,8 @@ class MidiNote(MidiEvent):
 
         # if already quantized , re-compute and update quantized_start_step and end step
         if self.is_quantized():
-            # Calculate duration based on new quantized steps
-            old_duration = np.divide(quantized_end_step - quantized_start_step, sps)
-            logging.debug(f"old duration case on {old_duration}")
-            # duration_before_shift = (self.end_time - self.start_time) / sps
             self.quantized_start_step = max(0, quantized_start_step)
-            self.quantized_end_step = self.quantized_start_step + old_duration
+            self.quantized_end_step = max(0, quantized_end_step)
         else:
             start_shift = max(0.0, -self.start_time)
             end_shift = max(0.0, -self.end_time)
-- 
2.43.0


From 800f5c2176a88e343298f6044ddd52e8f988d6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 47/96] fix: the number of quantized steps follows the last
 quantization

---
 neural_graph_composer/midi/midi_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 19205dd..10ce93b 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -611,6 +611,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return: None
         """
         new_notes = []
+        self.__total_quantized_steps = 0
         for note in self.notes:
             # quantize a note based on time to the nearest step
             quantized_note = note.quantize(sps=sps, amount=amount)
-- 
2.43.0


From 0ec70c3c441a180c84bbf225f19a92d4a3b5555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 48/96] fix: sorted dictionaries of the same items are equal

---
 neural_graph_composer/midi/sorted_dict.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index e1621d3..42f8bef 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -92,6 +92,13 @@ class SortedDict(collections.OrderedDict):
         """A copy has a list of keys of its own."""
         return self.__class__, (self.items(),)
 
+    def __eq__(self, other):
+        """Sorted dictionaries of the same items are equal, whatever the order they were added in."""
+        return dict.__eq__(self, other)
+
+    def __ne__(self, other):
+        return dict.__ne__(self, other)
+
     def keys(self):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
-- 
2.43.0


From daa6f0b1e47dff76ffcbb81f05a0d598e58dbe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 49/96] fix: the list of keys of a sorted dictionary belongs to
 the caller

---
 neural_graph_composer/midi/sorted_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index 42f8bef..ddf80dd 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -103,7 +103,7 @@ class SortedDict(collections.OrderedDict):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
         """
-        return self._keys
+        return list(self._keys)
 
     def values(self):
         """Return a list of values corresponding to the keys sorted in ascending order.
-- 
2.43.0


From e7ce272b0a705a301cf8c8e44f215bb31c5ef3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 50/96] fix: the nodes of a chord do not depend on the order of
 its notes

---
 neural_graph_composer/midi_graph_builder.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index ec7a5f4..e6a8143 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -15,7 +15,6 @@ Author Mus spyroot@gmail.com
            mbayramo@stanford.edu
 
 """
-import itertools
 import logging
 import math
 import pathlib
@@ -989,18 +988,10 @@ class MidiGraphBuilder:
             # a pitch a set of pitches and velocity for each pitch
             # 1033w_hungarian_rhapsody_12_(nc)smythe.mid is good example.
             # feature vector even with very tight timing we get 18-20 notes.
-            pitch_group = frozenset(n.pitch for n in notes)
-            pitch_sliced = []
-            if len(pitch_group) > feature_vec_size:
-                pitch_iter = iter(pitch_group)
-                while True:
-                    slice_iter = itertools.islice(pitch_iter, feature_vec_size)
-                    slice_items = list(slice_iter)
-                    if not slice_items:
-                        break
-                    pitch_sliced.append(frozenset(slice_items))
-            else:
-                pitch_sliced = [pitch_group]
+            # in order of pitch, so that the nodes don't depend on the order of the notes.
+            pitch_group = sorted({n.pitch for n in notes})
+            pitch_sliced = [frozenset(pitch_group[i:i + feature_vec_size])
+                            for i in range(0, len(pitch_group), feature_vec_size)]
 
             for pitch_sub_group in pitch_sliced:
                 velocity = None
-- 
2.43.0


From b761c2511415c9f1408961eff945a2796e164839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 51/96] fix: the one hot encoding of a node has a class for
 pitch 127

---
 neural_graph_composer/midi_graph_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index e6a8143..2de3697 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -62,7 +62,7 @@ class MidiGraphBuilder:
     ENCODINGS = {
         NodeAttributeType.Tensor: lambda n: torch.FloatTensor(list(n)),
         NodeAttributeType.OneHotTensor: lambda n: torch.nn.functional.one_hot(
-            torch.FloatTensor(list(n)), num_classes=127)
+            torch.LongTensor(list(n)), num_classes=128)
     }
 
     __slots__ = ["logger", "is_include_velocity", "node_attr_type", "tolerance",
@@ -1035,7 +1035,7 @@ class MidiGraphBuilder:
                     pitch_sub_group,
                     velocity_set=velocity,
                     feature_vec_size=feature_vec_size,
-                    num_classes=127,
+                    num_classes=128,
                     velocity_num_buckets=velocity_num_buckets
                 )
 
-- 
2.43.0


From 3901943cecb145f7331027fc6150fe06a3dd5871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 52/96] fix: from_file and from_midi_sequence pass the velocity
 flag on as such

---
 neural_graph_composer/midi_graph_builder.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 2de3697..9b85ce8 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -148,9 +148,8 @@ class MidiGraphBuilder:
         """Constructs a MidiGraphBuilder object from a MIDI file path.:
         :param cls:
         :param file_path: A string representing the path to the MIDI file to be processed.
-        :param is_include_velocity: A boolean indicating whether to build a graph for each instrument in the MIDI file.
         :param feature_size: The size of the  feature vector to use for the PyTorch Geometric graph.
-        :param is_include_velocity:
+        :param is_include_velocity: If True, velocity will be included as an attribute of the graph nodes.
         :return: A MidiGraphBuilder object constructed from the specified MIDI file.
         """
         midi_file = pathlib.Path(file_path)
@@ -164,7 +163,7 @@ class MidiGraphBuilder:
             raise ValueError(f"File {file_path} does not exist.")
 
         midi_seq = MidiReader.read(file_path)
-        return cls(midi_seq, feature_size=feature_size, is_instrument_graph=is_include_velocity)
+        return cls(midi_seq, feature_size=feature_size, is_include_velocity=is_include_velocity)
 
     @classmethod
     def from_midi_sequence(cls,
@@ -176,8 +175,7 @@ class MidiGraphBuilder:
 
         :param cls:
         :param midi_sequence: A `MidiNoteSequence` object containing MIDI data to construct a graph from.
-        :param is_include_velocity: If True, will create a graph for each instrument in the `MidiNoteSequence`.
-                               Otherwise, a single graph will be constructed using all instruments.
+        :param is_include_velocity: If True, velocity will be included as an attribute of the graph nodes.
         :param feature_size: The size of the feature vector to use for the graph embeddings.
         :return: A new instance of `MidiGraphBuilder`.
         :rtype: MidiGraphBuilder
@@ -188,7 +186,7 @@ class MidiGraphBuilder:
             raise ValueError("MidiNoteSequence is empty")
 
         midi_sequences = MidiNoteSequences(midi_seq=midi_sequence)
-        return cls(midi_sequences, feature_size=feature_size, is_instrument_graph=is_include_velocity)
+        return cls(midi_sequences, feature_size=feature_size, is_include_velocity=is_include_velocity)
 
     @property
     def sub_graphs(self) -> List[Graph]:
-- 
2.43.0


From 19b4028e3812d7cb1c1507700d635f4b655162b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 53/96] fix: a builder without a feature size has the default
 one

---
 neural_graph_composer/midi_graph_builder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 9b85ce8..a2f4316 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -129,7 +129,6 @@ class MidiGraphBuilder:
         # this a default name that we use for node attributes
         self.node_attr_name = ["attr"]
 
-        self.feature_size = feature_size
         self.pre_instrument = is_instrument_graph
         self.midi_sequences = midi_data
 
-- 
2.43.0


From 6c6105a39ad807184c45833b055414bdccc78e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 54/96] fix: nodes are connected by an edge of either direction

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index a2f4316..4790d23 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -387,7 +387,7 @@ class MidiGraphBuilder:
                 v = hash(frozenset(v))
             else:
                 raise ValueError("invalid type for node v")
-        return u in midi_graph.neighbors(v)
+        return midi_graph.has_edge(u, v) or midi_graph.has_edge(v, u)
 
     @staticmethod
     def get_edge_connected(midi_graph: nx.Graph, u: List[int], v: List[int]):
-- 
2.43.0


From 4803967ca8adc7d9ade2096e92095e2ff2b980d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 55/96] fix: a node of merged nodes keeps the edges that lead
 to them

---
 neural_graph_composer/midi_graph_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 4790d23..127f9a0 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -422,6 +422,10 @@ class MidiGraphBuilder:
             for neighbor in graph.neighbors(node):
                 if neighbor not in nodes:
                     graph.add_edge(new_node, neighbor, **graph.edges[node, neighbor])
+            if graph.is_directed():
+                for neighbor in graph.predecessors(node):
+                    if neighbor not in nodes:
+                        graph.add_edge(neighbor, new_node, **graph.edges[neighbor, node])
 
         # remove the original nodes from the graph
         for node in nodes:
-- 
2.43.0


From 3595949fe16062051dde5041538b6dd6bdca8acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 56/96] fix: scaling velocities by one keeps them, and silent
 ones stay silent

---
 neural_graph_composer/midi_graph_builder.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 127f9a0..765b97d 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -654,12 +654,8 @@ class MidiGraphBuilder:
         :return: list of rescaled velocity values
         """
         velocities = np.array(velocities)
-        # the average velocity
-        avg_velocity = np.mean(velocities)
-        # the ratio between each note's velocity and the average velocity
-        velocity_ratios = velocities / avg_velocity
-        # scale the velocities using the scaling factor
-        scaled_velocities = velocity_ratios * scaling_factor * avg_velocity
+        # the ratio of each velocity to the average doesn't change; no division, the average may be zero
+        scaled_velocities = velocities * scaling_factor
         # clip
         clipped_velocities = np.clip(scaled_velocities, 0, 127).astype(int)
 
-- 
2.43.0


From 4ec3050b1fd79c4aa2c7ca7715d18d61f29da7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 57/96] fix: a sequence can be added to a graph that is still
 empty

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 765b97d..cb60b2f 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -971,7 +971,7 @@ class MidiGraphBuilder:
             last_node_hash = None
         else:
             midi_graph = g
-            last_node_hash = list(g.nodes())[-1]
+            last_node_hash = list(g.nodes())[-1] if len(g) > 0 else None
 
         mapping = {}
         # For each chord that hold set of pitches.
-- 
2.43.0


From 61b91469aec230d2f035be074598dad5d8281eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 58/96] fix: all node attributes of a graph can be grouped

---
 neural_graph_composer/midi_graph_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index cb60b2f..4fe83cb 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -259,6 +259,9 @@ class MidiGraphBuilder:
         else:
             edge_attrs = {}
 
+        if group_node_attrs == 'all':
+            group_node_attrs = list(node_attrs)
+
         for i, (_, feat_dict) in enumerate(midi_graph.nodes(data=True)):
             if set(feat_dict.keys()) != set(node_attrs):
                 raise ValueError('Not all nodes contain the same attributes')
-- 
2.43.0


From 36b9dd31c88b1b34006c57b99a41fb72729d014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 59/96] fix: a data set leaves the list of files it is given as
 it is

---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 887c054..0f7b5a7 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -205,7 +205,7 @@ class MidiDataset(InMemoryDataset):
         # list offline files.
         self.files = []
         if midi_files is not None:
-            self.files = midi_files
+            self.files = list(midi_files)
             self._offline = True
 
         self._remove_label = remove_label
-- 
2.43.0


From 7471f4d3ef04868d75adc039a5f325abe25945a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 60/96] fix: a file without graphs does not stop a data set

---
 neural_graph_composer/midi_dataset.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 0f7b5a7..6afa027 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -477,6 +477,11 @@ class MidiDataset(InMemoryDataset):
                     is_per_instrument=True
                 )
 
+                # nothing but drums or single notes
+                if not self._graph_builder.pyg_data:
+                    logging.warning(f"No graphs in file {raw_path}")
+                    continue
+
                 # graph_builder output iterator, is_sanity_check if we want to do sanity
                 # check during this phase.
                 for midi_data in self._graph_builder.graphs(
@@ -629,12 +634,14 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=False
                 )
-                # the generator is exhausted, so the builder releases the graph of this file.
-                graphs = list(self._graph_builder.graphs())
-                if not graphs:
-                    raise ValueError("No sub graphs found in graph builder.")
 
-                midi_data = graphs[0]
+                # nothing but drums or single notes
+                if not self._graph_builder.pyg_data:
+                    logging.warning(f"No graphs in file {raw_path}")
+                    continue
+
+                # the generator is exhausted, so the builder releases the graph of this file.
+                midi_data = list(self._graph_builder.graphs())[0]
 
                 self.all_classes.update(torch.unique(midi_data.y).tolist())
                 if self.pre_filter is not None and not self.pre_filter(midi_data):
-- 
2.43.0


From 63bc6328232c4dbd455f67e5963e72cb3cccf100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 61/96] fix: nodes can be dropped from a graph without edge
 attributes

---
 neural_graph_composer/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 09d1feb..7168cd0 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -132,7 +132,7 @@ class RandomNodeDrop(T.BaseTransform):
         if edge_attr is not None:
             return edge_index[:, mask_all], edge_attr[mask_all]
         else:
-            return edge_index[:, mask_all]
+            return edge_index[:, mask_all], None
 
     def __repr__(self):
         """
-- 
2.43.0


From 112fb442e170456fcbfdaaec382bf44100fdd11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 62/96] fix: edges follow the nodes when nodes are dropped

---
 neural_graph_composer/transforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 7168cd0..968cf1d 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -129,6 +129,11 @@ class RandomNodeDrop(T.BaseTransform):
         mask_row = mask[row]
         mask_col = mask[col]
         mask_all = mask_row & mask_col
+
+        # the nodes that are kept get new numbers
+        new_idx = edge_index.new_full((num_nodes,), -1)
+        new_idx[keep_idx] = torch.arange(keep_idx.size(0), dtype=edge_index.dtype)
+        edge_index = torch.stack([new_idx[row], new_idx[col]], dim=0)
         if edge_attr is not None:
             return edge_index[:, mask_all], edge_attr[mask_all]
         else:
-- 
2.43.0


From 68ce0d0ac9f51b9dcb2a582b255bb352543a73b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 63/96] fix: the hashes of dropped nodes are dropped with them

---
 neural_graph_composer/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 968cf1d..b4aa070 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -103,6 +103,10 @@ class RandomNodeDrop(T.BaseTransform):
         data.train_mask = data.train_mask[remain_idx]
         data.val_mask = data.val_mask[remain_idx]
         data.test_mask = data.test_mask[remain_idx]
+        if 'node_hash' in data:
+            data.node_hash = [data.node_hash[i] for i in remain_idx.tolist()]
+        if 'label' in data:
+            data.label = [data.label[i] for i in remain_idx.tolist()]
         data.num_nodes = data.x.shape[0]
 
         # print(f"called return data {data}")
-- 
2.43.0


From 47d7265eeb277fd65bbcd5b46c4e5570d5c61125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 64/96] fix: edges can be dropped from a graph that has no edge
 labels

---
 neural_graph_composer/transforms.py | 34 +++++++++--------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index b4aa070..de32e7c 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -11,6 +11,8 @@ for graph classification task.
 
 Author Mus spyroot@gmail.com
 """
+import copy
+
 import torch
 
 from typing import Optional, Tuple
@@ -166,30 +168,14 @@ class RandomEdgeDrop(T.BaseTransform):
         mask = torch.rand(num_edges) >= self.p
 
         edge_index = data.edge_index[:, mask]
-        edge_attr = None
-        if data.edge_attr is not None:
-            edge_attr = data.edge_attr[mask]
-
-        pos_edge_mask = None
-        neg_edge_mask = None
-        if data.pos_edge_label is not None and data.neg_edge_label is not None:
-            pos_edge_mask = data.pos_edge_label_index[:, mask]
-            neg_edge_mask = data.neg_edge_label_index[:, mask]
-
-        return Data(
-            x=data.x,
-            edge_index=edge_index,
-            edge_attr=edge_attr,
-            y=data.y,
-            pos_edge_label=data.pos_edge_label,
-            neg_edge_label=data.neg_edge_label,
-            train_mask=data.train_mask,
-            val_mask=data.val_mask,
-            test_mask=data.test_mask,
-            pos_edge_label_index=pos_edge_mask,
-            neg_edge_label_index=neg_edge_mask,
-            node_hash=data.node_hash
-        )
+
+        # labels of edges, if there are any, have edges of their own
+        edge_attr = data.edge_attr
+        data = copy.copy(data)
+        data.edge_index = edge_index
+        if edge_attr is not None:
+            data.edge_attr = edge_attr[mask]
+        return data
 
     def __repr__(self):
         return f'{self.__class__.__name__}(p={self.p})'
-- 
2.43.0


From 19bf2ec1bbcfbccfb908a9db8bde51b8bdbb7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 65/96] fix: nodes can be dropped from a graph without masks

---
 neural_graph_composer/transforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index de32e7c..8e90c84 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -102,9 +102,10 @@ class RandomNodeDrop(T.BaseTransform):
         data.x = data.x[remain_idx]
         data.y = data.y[remain_idx]
 
-        data.train_mask = data.train_mask[remain_idx]
-        data.val_mask = data.val_mask[remain_idx]
-        data.test_mask = data.test_mask[remain_idx]
+        for mask in ('train_mask', 'val_mask', 'test_mask'):
+            if mask in data:
+                data[mask] = data[mask][remain_idx]
+
         if 'node_hash' in data:
             data.node_hash = [data.node_hash[i] for i in remain_idx.tolist()]
         if 'label' in data:
-- 
2.43.0


From 905f7a3739a21dce6aeb13e04f6edb9a6cf6dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 66/96] fix: transforms implement forward, which PyTorch
 Geometric asks of them

---
 neural_graph_composer/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 8e90c84..f727dc8 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -28,7 +28,7 @@ from torch_geometric.transforms import BaseTransform
 class AddDegreeTransform(BaseTransform):
     """Add degree to x.
     """
-    def __call__(self, data):
+    def forward(self, data):
         x = data.x.reshape(data.num_nodes, -1)
         degree = torch_geometric.utils.degree(data.edge_index[0], num_nodes=data.num_nodes)
         degree = degree.reshape(-1, 1)
@@ -51,7 +51,7 @@ class GraphIDTransform(BaseTransform):
         self.num_classes = dataset.num_classes
         print(f"Creating Graph ID transform Node proper {self.num_classes}")
 
-    def __call__(self, data):
+    def forward(self, data):
         """Transform add graph id.
 
         It requires dataset to have public method that it can access.
@@ -85,7 +85,7 @@ class RandomNodeDrop(T.BaseTransform):
         print(f"Creating Random Node proper with p {p}")
         self.p = p
 
-    def __call__(self, data: Data) -> Data:
+    def forward(self, data: Data) -> Data:
         """
 
         :param data:
@@ -160,7 +160,7 @@ class RandomEdgeDrop(T.BaseTransform):
         """
         self.p = p
 
-    def __call__(self, data):
+    def forward(self, data):
         """
         :param data:
         :return:
-- 
2.43.0


From 8e1cf67ce6140ee523537498897c27f8259ed873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 67/96] fix: the interval tree knows the names of its own
 classes

---
 neural_graph_composer/interval/intervaltree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/interval/intervaltree.py b/neural_graph_composer/interval/intervaltree.py
index 1596756..3b78dad 100644
--- a/neural_graph_composer/interval/intervaltree.py
+++ b/neural_graph_composer/interval/intervaltree.py
@@ -29,6 +29,7 @@ mbayramo@stanford.edu
 spyroot@gmail.com
 """
 from .interval import FloatInterval
+from .interval import FloatInterval as Interval
 from .node import Node
 from numbers import Number
 from sortedcontainers import SortedDict
@@ -1144,3 +1145,6 @@ class FloatIntervalTree(MutableSet):
         :rtype: tuple
         """
         return IntervalTree, (sorted(self.all_intervals),)
+
+
+IntervalTree = FloatIntervalTree
-- 
2.43.0


From c56312ad539f099b85e071f5325d97489d9179a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 68/96] fix: a float interval covers the points from its begin
 up to its end

---
 neural_graph_composer/interval/interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/interval/interval.py b/neural_graph_composer/interval/interval.py
index 7f8551b..1e3740e 100644
--- a/neural_graph_composer/interval/interval.py
+++ b/neural_graph_composer/interval/interval.py
@@ -50,7 +50,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         if end is not None:
-            return math.isclose(begin, self.end) and end > self.begin
+            return begin < self.end and end > self.begin
         try:
             return self.overlaps(begin.begin, begin.end)
         except:
@@ -83,7 +83,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :return: True or False
         :rtype: bool
         """
-        return math.isclose(self.begin, p) and math.isclose(p, self.end)
+        return self.begin <= p < self.end
 
     def range_matches(self, other):
         """Whether the begins equal and the ends equal. Compare __eq__().
-- 
2.43.0


From 2c730e83d6ab08b854a7de112b5226be9d337f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 69/96] fix: a float interval that ends earlier is less or
 overlaps

---
 neural_graph_composer/interval/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/interval/interval.py b/neural_graph_composer/interval/interval.py
index 1e3740e..2d22063 100644
--- a/neural_graph_composer/interval/interval.py
+++ b/neural_graph_composer/interval/interval.py
@@ -234,7 +234,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         self._raise_if_null(other)
-        return math.isclose(self.end, getattr(other, 'end', other))
+        return self.end <= getattr(other, 'end', other)
 
     def gt(self, other):
         """Strictly greater than. Returns True if no part of this Interval
-- 
2.43.0


From 0c0ecd16b8fb80dfacde7d73c30d3fd9474574d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 70/96] fix: an interval tree finds the intervals that hold a
 point

---
 neural_graph_composer/interval/node.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index 650d026..1fdc773 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -107,10 +107,9 @@ class Node(object):
         s_left = []
         s_right = []
         for k in intervals:
-            math.isclose(k.end, self.x_center)
             if k.begin > self.x_center:
                 s_right.append(k)
-            elif math.isclose(k.end, self.x_center):
+            elif k.end <= self.x_center:
                 s_left.append(k)
             else:
                 self.s_center.add(k)
@@ -322,9 +321,9 @@ class Node(object):
         Returns all intervals that contain point.
         """
         for k in self.s_center:
-            if point.isclose(k.begin) and point.isclose(k.end):
+            if k.begin <= point < k.end:
                 result.add(k)
-        if point.isclose(self.x_center) and self[0]:
+        if point < self.x_center and self[0]:
             return self[0].search_point(point, result)
         elif point > self.x_center and self[1]:
             return self[1].search_point(point, result)
-- 
2.43.0


From 0e2e4e3fd428fc0e7ad8385351490e76376e6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 71/96] fix: the check of an interval tree accepts a valid tree

---
 neural_graph_composer/interval/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index 1fdc773..dc11a4b 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -479,7 +479,7 @@ class Node(object):
         assert (isinstance(self.s_center, set))
 
         bal = self.balance
-        assert math.isclose(abs(bal), 2.0), \
+        assert abs(bal) < 2, \
             "Error: Rotation should have happened, but didn't! \n{}".format(
                 self.print_structure(tostring=True)
             )
@@ -496,7 +496,7 @@ class Node(object):
         for iv in self.s_center:
             assert hasattr(iv, 'begin')
             assert hasattr(iv, 'end')
-            assert math.isclose(iv.begin < iv.end)
+            assert iv.begin < iv.end
             assert iv.overlaps(self.x_center)
             for parent in sorted(parents):
                 assert not iv.contains_point(parent), \
@@ -504,7 +504,7 @@ class Node(object):
                         parent, iv, self.print_structure(tostring=True)
                     )
         if self[0]:
-            assert math.isclose(self[0].x_center, self.x_center), \
+            assert self[0].x_center < self.x_center, \
                 "Error: Out-of-order left child! {}".format(self.x_center)
             self[0].verify(parents.union([self.x_center]))
         if self[1]:
-- 
2.43.0


From 9093931ea71b53533b0dc9fa3b20ad9e3902ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 72/96] fix: chop leaves an interval that begins where the
 chopped range ends

---
 neural_graph_composer/interval/intervaltree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/interval/intervaltree.py b/neural_graph_composer/interval/intervaltree.py
index 3b78dad..af965e2 100644
--- a/neural_graph_composer/interval/intervaltree.py
+++ b/neural_graph_composer/interval/intervaltree.py
@@ -464,7 +464,7 @@ class FloatIntervalTree(MutableSet):
         """
         insertions = set()
         begin_hits = [iv for iv in self.at(begin) if iv.begin < begin]
-        end_hits = [iv for iv in self.at(end) if iv.end > end]
+        end_hits = [iv for iv in self.at(end) if iv.begin < end]
 
         if datafunc:
             for iv in begin_hits:
-- 
2.43.0


From e6690e424ec842596af4609eaabbd26fb1ac987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 73/96] fix: a minor interval of a chord is not taken for a
 major one

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 8f11539..92fac87 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -615,7 +615,7 @@ class MusicTheory:
         for i, interval in enumerate(interval_chord):
             # if caller pass string we convert to Enum
             if isinstance(interval, str):
-                interval = Interval[interval.upper()]
+                interval = Interval[interval]
             interval_pitch = MusicTheory.intervals[interval]
             chord_pitch = (root + interval_pitch) % 12
             _chord_pitches.append(chord_pitch)
-- 
2.43.0


From d12cffc5883d7e972202ebb38f15fa2ee5d2facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 74/96] fix: a chord may have intervals beyond the octave

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 92fac87..04ce3af 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -616,7 +616,7 @@ class MusicTheory:
             # if caller pass string we convert to Enum
             if isinstance(interval, str):
                 interval = Interval[interval]
-            interval_pitch = MusicTheory.intervals[interval]
+            interval_pitch = interval.value
             chord_pitch = (root + interval_pitch) % 12
             _chord_pitches.append(chord_pitch)
         return _chord_pitches
-- 
2.43.0


From 3b8dec66c7ce6b894ffdf2bccc83977155c82087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 75/96] fix: the root of a scale may be a number or in lower
 case

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 04ce3af..e913c37 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -705,7 +705,7 @@ class MusicTheory:
         elif not (0 <= root <= 11):
             raise ValueError("root pitch parameter should be within the range [0, 11]")
 
-        root_idx = MusicTheory.note_names.index(root)
+        root_idx = MusicTheory.note_names.index(root.upper()) if isinstance(root, str) else root
         intervals = MusicTheory.intervals_from_scale(scale)
         sorted_intervals = sorted(intervals, key=lambda x: MusicTheory.intervals[x])
 
-- 
2.43.0


From 0a6a1d868e98413a0cfa8bfa55b82a6f8f8ace04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 76/96] fix: an augmented seventh is not a major seventh

---
 neural_graph_composer/midi/midi_scales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index e913c37..c708063 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -90,7 +90,7 @@ class ChordIntervals(Enum):
     MinorSeven = [3, 4, 3]
     HalfDiminishedSeven = [3, 3, 4]
     DiminishedSeven = [3, 3, 3]
-    AugmentedSeven = [4, 3, 4]
+    AugmentedSeven = [4, 4, 2]
     Sixth = [4, 3, 2]
     MinorSixth = [3, 4, 2]
     Ninth = [4, 3, 3, 4]
@@ -451,7 +451,7 @@ class MusicTheory:
         "m7": [3, 4, 3],
         "m7b5": [3, 3, 4],
         "dim7": [3, 3, 3],
-        "aug7": [4, 3, 4],
+        "aug7": [4, 4, 2],
         "6": [4, 3, 2],
         "m6": [3, 4, 2],
         "9": [4, 3, 3, 4],
-- 
2.43.0


From 5a80d1232fbb592ad8151f2fe82ba831185730a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 77/96] fix: the triads of the modes have the quality of their
 notes

---
 neural_graph_composer/midi/midi_scales.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index c708063..240a283 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -349,12 +349,12 @@ class MusicTheory:
     chords = {
         ScaleType.MAJOR: ["M", "m", "m", "M", "M", "m", "dim"],
         ScaleType.MINOR: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.DORIAN: ["M", "m", "m", "M", "M", "dim", "m"],
-        ScaleType.PHRYGIAN: ["m", "M", "dim", "m", "m", "M", "M"],
+        ScaleType.DORIAN: ["m", "m", "M", "M", "m", "dim", "M"],
+        ScaleType.PHRYGIAN: ["m", "M", "M", "m", "dim", "M", "m"],
         ScaleType.LYDIAN: ["M", "M", "m", "dim", "M", "m", "m"],
-        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "m", "M", "m", "M"],
+        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "M", "m", "m", "M"],
         ScaleType.AEOLIAN: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "dim", "M", "m"],
+        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "M", "M", "m"],
         ScaleType.HARMONIC_MINOR: ["m", "dim", "aug", "m", "M", "M", "dim"],
         ScaleType.MELODIC_MINOR: ["m", "m", "aug", "M", "M", "dim", "dim"]
     }
-- 
2.43.0


From 03f573e8b9b7df0fa491caae03dd97ec6cf25154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 78/96] fix: the triads of a scale are named as documented

---
 neural_graph_composer/midi/midi_scales.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 240a283..55504a1 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -771,12 +771,9 @@ class MusicTheory:
             interval_semitones = MusicTheory.intervals[interval_name]
             notes.append(MusicTheory.note_names[(root + interval_semitones) % 12])
 
-        triads = []
-        for i, note in enumerate(notes):
-            triad = [notes[i], notes[(i + 2) % len(notes)], notes[(i + 4) % len(notes)]]
-            triads.append("".join(triad))
-
-        return triads
+        suffixes = {"M": "", "m": "m", "dim": "dim", "aug": "aug"}
+        return [note + suffixes[chord_type]
+                for note, chord_type in zip(notes, MusicTheory.chords[scale])]
 
     @staticmethod
     def triads_from_scale_tuple(root: Union[int, str], scale: Union[str, ScaleType]) -> List[Tuple[List[str], str]]:
-- 
2.43.0


From f954957ab501dd6c033aad4d6731a2c6587a2150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 79/96] fix: a grid has the nearest whole number of steps

---
 neural_graph_composer/midi/midi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_utils.py b/neural_graph_composer/midi/midi_utils.py
index 1f44731..4c95d7e 100644
--- a/neural_graph_composer/midi/midi_utils.py
+++ b/neural_graph_composer/midi/midi_utils.py
@@ -313,7 +313,7 @@ def quantize_note_to_step_grid(
         raise ValueError("note_start and note_end must be positive.")
 
     # Number of steps per grid, and start and end indices
-    steps_per_grid = int(grid_size / step_size)
+    steps_per_grid = round(grid_size / step_size)
     start_step = round(note_start / step_size)
     end_step = round(note_end / step_size)
 
-- 
2.43.0


From 525113d23307d8cfd0c59d90750fee3a7cf272d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 80/96] fix: a diminished seventh is nine semitones

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 55504a1..496b29a 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -194,7 +194,7 @@ class Interval(Enum):
     A4 = 6
     # d5 diminished fifth
     d5 = 6
-    d7 = 10
+    d7 = 9
 
     def bases(self):
         """the base intervals that make up the compound interval.
-- 
2.43.0


From 940ebb8f19cc83e941933fe39d6cad5d00ed5348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 81/96] fix: the rounding threshold of a step is a share of the
 step

---
 neural_graph_composer/midi/midi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_utils.py b/neural_graph_composer/midi/midi_utils.py
index 4c95d7e..29deea7 100644
--- a/neural_graph_composer/midi/midi_utils.py
+++ b/neural_graph_composer/midi/midi_utils.py
@@ -188,7 +188,7 @@ def ft_quantize_to_nearest_step(unquantized_time: float,
     # This ensures that the resulting value is an integer,
     # even if there are rounding errors.
     unquantized_steps = unquantized_time * steps_per_second
-    threshold = steps_per_second * rounding_threshold
+    threshold = rounding_threshold
 
     if unquantized_steps < 0:
         remainder = abs(unquantized_steps) % 1
-- 
2.43.0


From 658484fe150853cdabf2ef84494cac328b3dc0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 82/96] fix: a piece keeps the signatures it is made with in
 order of time, in lists of its own

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 50f7cbd..5d24c96 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -146,19 +146,19 @@ class MidiNoteSequences:
         if time_signatures is None:
             self.time_signatures = []
         else:
-            self.time_signatures = time_signatures
+            self.time_signatures = sorted(time_signatures, key=lambda k: k.midi_time)
 
         # list of key signature changes
         if key_signatures is None:
             self.key_signatures = []
         else:
-            self.key_signatures = key_signatures
+            self.key_signatures = sorted(key_signatures, key=lambda k: k.midi_time)
 
         # list of key signature changes
         if tempo_signatures is None:
             self.tempo_signatures = []
         else:
-            self.tempo_signatures = tempo_signatures
+            self.tempo_signatures = sorted(tempo_signatures, key=lambda k: k.midi_time)
         #
         self.resolution = resolution
 
-- 
2.43.0


From a51d80e6942df77725c85da474bc5e448f19a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 83/96] fix: writing a part of a piece writes that part and
 does not stretch the piece

---
 neural_graph_composer/midi_reader.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index c467bfe..79b72c9 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -15,7 +15,6 @@ import warnings
 from typing import Tuple, Iterator, Optional, Union
 
 import mido
-import numpy as np
 from mido import MidiFile
 from pretty_midi import pretty_midi, Instrument
 
@@ -323,11 +322,13 @@ class MidiReader(MidiBaseReader):
         :param sequence: a sequence that we're converting to PrettyMIDI.
         :param from_start: The time to start writing the MIDI data from. If None, the start time is 0.
         :param to_end: The time to stop writing the MIDI data at. If None, the end time is the time of the last event.
+                       What sounds across either time is cut there, and what is in between keeps its time.
         :return: CustomPrettyMIDI
         :rtype CustomPrettyMIDI
         """
         ticks_per_quarter = sequence.resolution or DEFAULT_PPQ
-        max_event_time = to_end
+        min_event_time = from_start if from_start is not None else 0.0
+        max_event_time = to_end if to_end is not None else math.inf
         initial_seq_tempo = sequence.initial_tempo()
 
         logging.debug(f"{initial_seq_tempo} {ticks_per_quarter} {max_event_time}")
@@ -370,18 +371,22 @@ class MidiReader(MidiBaseReader):
         for k in sequence:
             # read all notes from internal representation to pretty midi
             notes = [
-                pretty_midi.Note(n.velocity, n.pitch, n.start_time, n.end_time)
-                for n in sequence[k].notes]
+                pretty_midi.Note(n.velocity, n.pitch,
+                                 max(n.start_time, min_event_time),
+                                 min(n.end_time, max_event_time))
+                for n in sequence[k].notes
+                if max(n.start_time, min_event_time) < max_event_time
+                and (n.end_time > min_event_time or n.start_time >= min_event_time)]
             pitch_bends = [
                 pretty_midi.PitchBend(sb.amount, sb.midi_time)
                 for sb in sequence[k].pitch_bends
-                if max_event_time is None or sb.midi_time < max_event_time
+                if min_event_time <= sb.midi_time < max_event_time
             ]
 
             control_changes = [
                 pretty_midi.ControlChange(cc.cc_number, cc.cc_value, cc.cc_time)
                 for cc in sequence[k].control_changes
-                if max_event_time is None or cc.cc_time < max_event_time]
+                if min_event_time <= cc.cc_time < max_event_time]
 
             # create instrument
             instrument = pretty_midi.Instrument(
@@ -393,13 +398,6 @@ class MidiReader(MidiBaseReader):
             instrument.control_changes = control_changes
             pm.instruments.append(instrument)
 
-        if from_start is not None or to_end is not None:
-            original_times = np.array([0, pm.get_end_time()])
-            new_times = np.array([from_start if from_start is not None else 0,
-                                 to_end if to_end is not None else pm.get_end_time()])
-            new_times = new_times.clip(0, pm.get_end_time())
-            pm.adjust_times(original_times, new_times)
-
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
                       f"resolution: {pm.resolution}")
         return pm
-- 
2.43.0


From 4a0875f1d1c7a077e3b3a59cbda05abfa8b6d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 84/96] fix: the first step of a control change can be set
 before its last one

---
 neural_graph_composer/midi/midi_control_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index 0294ad2..1e09dfd 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -290,7 +290,7 @@ class MidiControlChange(MidiBaseControlChange):
         """
         if value < 0:
             raise ValueError("Quantized start step cannot be negative.")
-        elif self._quantized_end_step is not None and value >= self._quantized_end_step:
+        elif self._quantized_end_step >= 0 and value >= self._quantized_end_step:
             raise ValueError("Quantized start step must be less than quantized end step.")
         else:
             self._quantized_start_step = value
-- 
2.43.0


From 35309fcb0a051be98131ec106dea2170e6b04d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 85/96] fix: the initial tempo of a sequence is a tempo, not
 the time of its first one

---
 neural_graph_composer/midi/midi_sequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 10ce93b..2f96bd5 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -20,7 +20,6 @@ import copy
 import itertools
 import logging
 import math
-from functools import cache
 from typing import Optional, List, Any, Union
 
 import numpy as np
@@ -641,7 +640,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         self._quantize(sps, amount)
 
-    @cache
     def initial_tempo(self) -> float:
         """Initial temp for this seq.
         :return:
@@ -651,7 +649,9 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
         for seq_tempo in self.tempo_signature:
             if seq_tempo.midi_time == 0:
-                return seq_tempo.midi_time
+                return seq_tempo.qpm
+
+        return self.tempo_signature[0].qpm
 
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
-- 
2.43.0


From a2d9043c8fc2f80144cd9aea591a55e38b7a86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 86/96] fix: a piece of more than 128 tracks can be read

The reader makes a track for every instrument of the file; asking for a
track past 127 that exists was refused all the same.
---
 neural_graph_composer/midi/midi_sequences.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 5d24c96..2593963 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -208,7 +208,8 @@ class MidiNoteSequences:
         if not isinstance(track_idx, int):
             raise TypeError("index must be an integer")
 
-        if track_idx < 0 or track_idx >= 128:
+        # a file may hold more tracks than that: one that exists is answered
+        if track_idx < 0 or (track_idx >= 128 and track_idx not in self._track_to_idx):
             raise ValueError("index must be between 0 and 127 (inclusive)")
 
         if self._track_to_idx is None:
@@ -771,12 +772,13 @@ class MidiNoteSequences:
         :return: The MIDI note sequence for the given instrument.
         :raises ValueError: If idx is less than zero or greater valid MIDI instruments.
         """
-        if track_idx < 0 or track_idx >= 128:
-            raise ValueError("Invalid instrument id")
-
         if self.__midi_seqs is None:
             self.__midi_seqs = SortedDict()
 
+        # a file may hold more tracks than that: one that exists is answered
+        if track_idx < 0 or (track_idx >= 128 and track_idx not in self.__midi_seqs):
+            raise ValueError("Invalid instrument id")
+
         if track_idx not in self.__midi_seqs:
             self.create_track(track_idx, program, name, is_drum)
 
-- 
2.43.0


From 859bba940ef68048e4d495b0629890a2a228335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:03 +0000
Subject: [PATCH 87/96] fix: files of one name in different directories are all
 in the data set

The copies in the raw directory overwrote each other, so that the graphs
of the last one were there several times.
---
 neural_graph_composer/midi_dataset.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 6afa027..0bbad24 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -425,13 +425,19 @@ class MidiDataset(InMemoryDataset):
         """
         logging.debug(f"raw_file_names {self.raw_file_names}")
         if len(self.files) > 0 and self._offline:
-            for i, raw_file in enumerate(self.raw_file_names):
-                p = Path(raw_file).expanduser().resolve()
+            paths = [Path(raw_file).expanduser().resolve() for raw_file in self.raw_file_names]
+            # files of different directories may have one name, each gets a copy of its own.
+            taken = {p.name: p for p in paths if p.parent == Path(self.raw_dir).resolve()}
+            for i, (raw_file, p) in enumerate(zip(self.raw_file_names, paths)):
                 if not p.exists():
                     raise RuntimeError(f"File not found: {raw_file}")
                 if p.is_file():
-                    dst_path = os.path.join(self.raw_dir, p.name)
-                    self.files[i] = p.name
+                    name, copies = p.name, 0
+                    while taken.setdefault(name, p) != p:
+                        copies += 1
+                        name = f"{p.stem}_{copies}{p.suffix}"
+                    dst_path = os.path.join(self.raw_dir, name)
+                    self.files[i] = name
                     src_path = os.path.abspath(str(p))
                     logging.debug(f"Downloading {src_path} to {dst_path}")
                     try:
-- 
2.43.0


From a093099304898224abf6b505cda887c6cfd0d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:17 +0000
Subject: [PATCH 88/96] fix: a cloned sequence keeps its tempos

---
 neural_graph_composer/midi/midi_sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 2f96bd5..441b915 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -672,6 +672,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         cloned._drum_events = copy.deepcopy(self._drum_events)
         cloned.control_changes = copy.deepcopy(self.control_changes)
         cloned.pitch_bends = copy.deepcopy(self.pitch_bends)
+        cloned.tempo_signature = copy.deepcopy(self.tempo_signature)
         cloned.total_time = self.total_time
         cloned.ticks_per_quarter = self.ticks_per_quarter
         cloned.__total_quantized_steps = self.__total_quantized_steps
@@ -685,6 +686,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
            We only care about total time , signature etc
          """
         cloned = MidiNoteSequence()
+        cloned.tempo_signature = copy.deepcopy(self.tempo_signature)
         cloned.total_time = self.total_time
         cloned.ticks_per_quarter = self.ticks_per_quarter
         cloned.__total_quantized_steps = self.__total_quantized_steps
-- 
2.43.0


From dd7c9e24c7a348b6a83b513cc7f4a49b3a14bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 89/96] fix: a graph without edges or nodes can be converted to
 PyG data

---
 neural_graph_composer/midi_graph_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 4fe83cb..6978641 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -304,7 +304,8 @@ class MidiGraphBuilder:
         data['edge_index'] = edge_index.view(2, -1)
         data = Data.from_dict(data)
 
-        if group_node_attrs is not None:
+        # a graph without nodes, or without edges, has no attributes to group
+        if group_node_attrs is not None and midi_graph.number_of_nodes() > 0:
             xs = []
             for key in group_node_attrs:
                 x = data[key]
@@ -317,7 +318,7 @@ class MidiGraphBuilder:
         if group_edge_attrs == 'all':
             group_edge_attrs = list(edge_attrs)
 
-        if group_edge_attrs is not None:
+        if group_edge_attrs is not None and midi_graph.number_of_edges() > 0:
             xs = []
             for key in group_edge_attrs:
                 key = f'edge_{key}' if key in node_attrs else key
-- 
2.43.0


From f42174571bdd520efd868df6b389261c1b34b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:41 +0000
Subject: [PATCH 90/96] fix: a diminished twelfth has its number of semitones

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 496b29a..ecee36a 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -175,7 +175,7 @@ class Interval(Enum):
     m10 = 15
     M10 = 16
 
-    d12 = 11
+    d12 = 18
     P11 = 17
     A11 = 18
     M11 = 17
-- 
2.43.0


From 004dadfed6f00c021f156416c85fe6ef6ebfb72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:19 +0000
Subject: [PATCH 91/96] fix: a note that is in a sequence twice is moved once

---
 neural_graph_composer/midi/midi_sequence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 441b915..72595b5 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -419,7 +419,9 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :param amount:
         :return:
         """
-        [n.stretch(amount) for n in self.notes]
+        # a note that is in the sequence twice is one note
+        for n in {id(n): n for n in self.notes}.values():
+            n.stretch(amount)
         self._adjust_total_time()
 
     def truncate(self, end_time: float) -> 'MidiNoteSequence':
@@ -507,7 +509,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         if self.is_quantized():
             raise ValueError("You need to quantize first")
 
-        [n.shift_time(offset) for n in self.notes]
+        for n in {id(n): n for n in self.notes}.values():
+            n.shift_time(offset)
         self.total_time += offset
 
     def extract(self, split_times: List[float]) -> List[Any]:
-- 
2.43.0


From 0487bfaf17f75ff3e966ecac6adea1205570568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:08 +0000
Subject: [PATCH 92/96] fix: an interval tree stays balanced when a rotation
 promotes intervals

---
 neural_graph_composer/interval/node.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index dc11a4b..4cc9639 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -167,9 +167,12 @@ class Node(object):
             #    self     save         save
             #  save   -> 1   self  -> 1  self.rot()
             #  1  2         2
-            return self.srotate()
+            top = self.srotate()
         else:
-            return self.drotate()
+            top = self.drotate()
+        # intervals promoted to the new top may have left its light side too
+        # shallow, so balance again
+        return top.rotate()
 
     def srotate(self):
         """Single rotation. Assumes that balance is +-2."""
-- 
2.43.0


From e2f8abab7654f60f63d4c39f7d97f2ef2dd41530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:24 +0000
Subject: [PATCH 93/96] fix: a file is written with the tempos of the piece to
 the microsecond

---
 neural_graph_composer/custom_pretty_midi.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 365a92e..d862994 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -1282,6 +1282,19 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for instrument in self.instruments:
             instrument.remove_invalid_notes()
 
+    def write(self, filename):
+        """Write the MIDI data out to a .mid file.  PrettyMIDI.write() cuts off the
+        fraction of a microsecond of a tempo, so a tempo that is read from a
+        file would be written a microsecond too short.
+        :param filename: path or file to write to.
+        :return: None
+        """
+        mido_file = self.serialize()
+        if hasattr(filename, 'write'):
+            mido_file.save(file=filename)
+        else:
+            mido_file.save(filename=filename)
+
     def serialize(self, mido_file=None):
         """
          It add additional method without changing state parent class.
@@ -1329,7 +1342,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         #  TODO added in case we want pass MIDI file
         #  and use mido file abstraction to send live.
         if mido_file is None:
-            mido_file = mido.MidiFile(ticks_per_beat=self.resolution)
+            mido_file = mido.MidiFile(ticks_per_beat=self.resolution, charset=self._charset)
         else:
             mido_file.ticks_per_beat = self.resolution
 
@@ -1377,6 +1390,11 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             timing_track.append(mido.MetaMessage('lyrics',
                                                  time=self.time_to_tick(l.time),
                                                  text=l.text))
+        # Add in all text events
+        for t in getattr(self, 'text_events', []):
+            timing_track.append(mido.MetaMessage('text',
+                                                 time=self.time_to_tick(t.time),
+                                                 text=t.text))
 
         # Sort the (absolute-tick-timed) events.
         timing_track.sort(key=functools.cmp_to_key(event_compare))
-- 
2.43.0


From 64cd5b69132cd77c2575159c628276bf0c08ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:13 +0000
Subject: [PATCH 94/96] fix: get_chord_intervals answers a list of its own, and
 the other tables of MusicTheory are frozen too

---
 neural_graph_composer/midi/midi_scales.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index ecee36a..9bf5896 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -527,8 +527,10 @@ class MusicTheory:
     chord_intervals = types.MappingProxyType(chord_intervals)
     chord_name_mapping = types.MappingProxyType(chord_name_mapping)
     chord_name_mapping_extended = types.MappingProxyType(chord_name_mapping_extended)
-    chord_intervals_reverse = {tuple(v): k for k, v in chord_intervals.items()}
-    pitch_to_note_name = {v: k for k, v in pitch_names.items()}
+    chords = types.MappingProxyType(chords)
+    chord_intervals_mapping = types.MappingProxyType(chord_intervals_mapping)
+    chord_intervals_reverse = types.MappingProxyType({tuple(v): k for k, v in chord_intervals.items()})
+    pitch_to_note_name = types.MappingProxyType({v: k for k, v in pitch_names.items()})
 
     @staticmethod
     def intervals_from_scale(scale_name: Union[str, ScaleType]) -> frozenset:
@@ -635,7 +637,7 @@ class MusicTheory:
         :param chord_type: A string representing the chord name, e.g., "m7b5"
         :return: A list of interval values for the specified chord [3, 3, 4]
         """
-        return MusicTheory.chord_intervals[chord_type]
+        return list(MusicTheory.chord_intervals[chord_type])
 
     @staticmethod
     def get_chord_name(interval_list: List[int]) -> Optional[str]:
-- 
2.43.0


From bafc9c4d76fb78ed161f5636a31dde0767bad5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:11 +0000
Subject: [PATCH 95/96] fix: from_midi_networkx groups edge attributes that are
 tensors, as it does those of nodes

---
 neural_graph_composer/midi_graph_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 6978641..76599f1 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -322,7 +322,8 @@ class MidiGraphBuilder:
             xs = []
             for key in group_edge_attrs:
                 key = f'edge_{key}' if key in node_attrs else key
-                x = torch.tensor(data[key])
+                # a list of tensors has no tensor() of its own, unless each holds a single number
+                x = torch.stack(data[key]) if all(isinstance(v, Tensor) for v in data[key]) else torch.tensor(data[key])
                 logging.debug(f"Edge attribute '{key}' shape: {x.shape}")
                 x = x.view(-1, 1) if x.dim() <= 1 else x
                 xs.append(x)
-- 
2.43.0


From 3ad0e344545810a2854e17c0b99e558d9c6c3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:02:07 +0000
Subject: [PATCH 96/96] fix: a fixed tolerance groups notes alike whether their
 start is a float or a numpy number

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 76599f1..544c845 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -731,7 +731,7 @@ class MidiGraphBuilder:
             elif tolerance_auto and math.isfinite(tolerance):
                 adjusted_time_hash = round(round(n.start_time / tolerance) * tolerance, precision)
             else:
-                adjusted_time_hash = round(n.start_time / tolerance, precision) * tolerance
+                adjusted_time_hash = round(float(n.start_time) / tolerance, precision) * tolerance
 
             assert adjusted_time_hash >= 0, "n.start_time must be non-negative"
 
-- 
2.43.0

