From 60f82fb9e4ddbc93d14fdad49f97d7977ff1045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 01/91] fix: keep SortedDict's key list in step with
 construction, pop, popitem, clear and copying

---
 neural_graph_composer/midi/sorted_dict.py | 34 ++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index c6abd3d..49cd63a 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -31,8 +31,8 @@ class SortedDict(collections.OrderedDict):
     """
 
     def __init__(self, *args, **kwargs):
+        self._keys = []
         super().__init__(*args, **kwargs)
-        self._keys = sorted(super().keys())
 
     def __setitem__(self, key, value):
         """Set the value of a key.
@@ -62,6 +62,38 @@ class SortedDict(collections.OrderedDict):
         super().__delitem__(key)
         self._keys.remove(key)
 
+    def pop(self, key, *default):
+        """Remove a key and return its value, or the default if the key is absent.
+        :param key: The key to remove
+        :return: the value
+        """
+        if key not in self and default:
+            return default[0]
+        value = self[key]
+        del self[key]
+        return value
+
+    def popitem(self, last=True):
+        """Remove and return the (key, value) pair of the largest (smallest) key.
+        :param last: take the largest key if true, the smallest otherwise.
+        :return:
+        """
+        if not self._keys:
+            raise KeyError('dictionary is empty')
+        key = self._keys[-1 if last else 0]
+        return key, self.pop(key)
+
+    def clear(self):
+        """Remove all entries.
+        :return:
+        """
+        super().clear()
+        self._keys.clear()
+
+    def __reduce__(self):
+        """Copies and pickles are rebuilt from the entries."""
+        return type(self), (self.items(),)
+
     def keys(self):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
-- 
2.43.0


From ed49c379581288ef07025951ddf3d2ce2b99afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 02/91] fix: SortedIntervalDict deletion used a list that does
 not exist

---
 neural_graph_composer/midi/sorted_interval_dict.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/sorted_interval_dict.py b/neural_graph_composer/midi/sorted_interval_dict.py
index df88e6c..5573228 100644
--- a/neural_graph_composer/midi/sorted_interval_dict.py
+++ b/neural_graph_composer/midi/sorted_interval_dict.py
@@ -42,11 +42,7 @@ class SortedIntervalDict(collections.abc.MutableMapping):
         :return:
         """
         if isinstance(key, Interval):
-            for i, (k, v) in enumerate(self._items):
-                if k == key:
-                    del self._items[i]
-                    return
-            raise KeyError(key)
+            del self._dict[key]
         elif isinstance(key, slice):
             for k in list(self.keys())[key]:
                 del self[k]
-- 
2.43.0


From 91bab3535dc261c764331f81c33855fc850faaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 03/91] fix: pitch_to_freq measured semitones from C instead of
 A

---
 neural_graph_composer/midi/midi_note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 24fd7ac..1dfc14c 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -752,7 +752,7 @@ class MidiNote(MidiEvent):
         >>> MusicNote.pitch_to_freq('F#', 5)
         739.988845423269
         """
-        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch]
+        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch] - PITCH_FREQUENCIES['A']
         return MidiNote.note_to_freq(REFERENCE_NOTE + semitones_above_a4)
 
     @staticmethod
-- 
2.43.0


From a88f2606279684f2471ca0995a52d788e21bca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 04/91] fix: MidiNote.from_json failed when optional fields
 were absent

---
 neural_graph_composer/midi/midi_note.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 1dfc14c..daecdce 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -795,11 +795,11 @@ class MidiNote(MidiEvent):
             program=json_dict["program"],
             instrument=json_dict["instrument"],
             velocity=json_dict["velocity"],
-            quantized_start_step=json_dict.get("quantized_start_step"),
-            quantized_end_step=json_dict.get("quantized_end_step"),
-            voice=json_dict.get("voice"),
-            numerator=json_dict.get("numerator"),
-            denominator=json_dict.get("denominator"),
+            quantized_start_step=json_dict.get("quantized_start_step", -1),
+            quantized_end_step=json_dict.get("quantized_end_step", -1),
+            voice=json_dict.get("voice", 0),
+            numerator=json_dict.get("numerator", 4),
+            denominator=json_dict.get("denominator", 4),
             is_drum=json_dict.get("is_drum", False)
         )
 
-- 
2.43.0


From 88caa56401d464300e8bc278bc9970ad14c1f3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 05/91] fix: MidiNoteSequence.slice returned the unclipped
 original notes

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d4b067f..8d32c57 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -579,7 +579,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
             new_note = copy.deepcopy(note)
             new_note.end_time = min(note.end_time, end)
-            new_midi_seq.add_note(note)
+            new_midi_seq.add_note(new_note)
 
         # update total time based on
         new_midi_seq.total_time = min(self.total_time, end)
-- 
2.43.0


From dada9cd4b37311b03e09641b9b74b7f0ebce50a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 06/91] fix: MidiNoteSequence.clone lost percussion events

---
 neural_graph_composer/midi/midi_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 8d32c57..c5eff95 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -667,6 +667,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """Return a clone of this object """
         cloned = MidiNoteSequence()
         cloned._notes = copy.deepcopy(self._notes)
+        cloned._drum_events = copy.deepcopy(self._drum_events)
         cloned.control_changes = copy.deepcopy(self.control_changes)
         cloned.pitch_bends = copy.deepcopy(self.pitch_bends)
         cloned.total_time = self.total_time
-- 
2.43.0


From 2f929ba17f258304e0c865631cfa1f5127749ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 07/91] fix: MidiNoteSequence.extract failed on every note and
 lost the instrument

---
 neural_graph_composer/midi/midi_sequence.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index c5eff95..a4f1da9 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -527,7 +527,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 f"Split container time pass the total {self.total_time}. "
                 "extract subsequence past end of sequence.")
 
-        sub_sequences = [MidiNoteSequence() for _ in range(len(split_times) - 1)]
+        sub_sequences = [MidiNoteSequence(instrument=self.instrument, resolution=self.resolution)
+                         for _ in range(len(split_times) - 1)]
         for sub_seq in sub_sequences:
             sub_seq.total_time = 0.0
 
@@ -541,12 +542,10 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 break
 
             sub_seq = sub_sequences[sbs]
-            sub_seq.notes.append(copy.deepcopy(note))
-            sub_seq.notes[-1].start_time -= split_times[sbs]
-            sub_seq.notes[-1].end_time = min(note.end_time, split_times[sbs + 1]) - split_times[sbs]
-            sub_seq.notes[-1].end_time = min(sub_seq.notes[-1].end_time,
-                                             sub_seq.total_time + sub_seq.notes[-1].start_time)
-            sub_seq.total_time = sub_seq.notes[-1].end_time + sub_seq.notes[-1].start_time
+            new_note = copy.deepcopy(note)
+            new_note.end_time = min(note.end_time, split_times[sbs + 1])
+            new_note.shift_time(-split_times[sbs])
+            sub_seq.append(new_note)
 
         return sub_sequences
 
-- 
2.43.0


From 335a259beb620dc5deacc86123e8026132a4edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 08/91] fix: MidiNoteSequence.split called a method that does
 not exist and repeated split points

---
 neural_graph_composer/midi/midi_sequence.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index a4f1da9..624041e 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -459,10 +459,10 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 if note.end_time > split_point:
                     notes_in_span.append(note)
 
-                # append split point to intervals if it's not on a boundary
-                # or if there are no notes in the current span
-                if not (skip_boundary and notes_in_span):
-                    intervals.append(split_point)
+            # append split point to intervals if it's not on a boundary
+            # or if there are no notes in the current span
+            if not (skip_boundary and notes_in_span):
+                intervals.append(split_point)
 
         return intervals
 
@@ -495,7 +495,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         if len(intervals) <= 1:
             return []
 
-        return MidiNoteSequence.extract_notes(intervals)
+        return self.extract(intervals)
 
     def shift_times(self, offset: float) -> None:
         """In place shifts the start and end times by offset
-- 
2.43.0


From 85def565100064167eb6d77f14960f898c47be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 09/91] fix: adding two sequences compared note instruments
 with an instrument object

---
 neural_graph_composer/midi/midi_sequence.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 624041e..683dc04 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -215,17 +215,17 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             raise ValueError("Instrument must be the same for both MidiNoteSequences.")
 
         # all notes in both sequences have the same instrument
-        if any(note.instrument != self.instrument for note in self.notes) \
-                or any(note.instrument != other.instrument for note in other.notes):
+        if any(note.instrument != self.instrument.instrument_num for note in self.notes) \
+                or any(note.instrument != other.instrument.instrument_num for note in other.notes):
             raise ValueError("All notes in both sequences must have the same instrument")
 
-        midi_seq = MidiNoteSequence(instrument=self.instrument)
+        midi_seq = MidiNoteSequence(instrument=self.instrument, resolution=self.resolution)
         if self.notes is not None:
-            midi_seq.notes = self.notes.copy()
+            midi_seq.notes = copy.deepcopy(self.notes)
         else:
             midi_seq.notes = []
         if other.notes is not None:
-            midi_seq.notes += other.notes.copy()
+            midi_seq.notes += copy.deepcopy(other.notes)
         return midi_seq
 
     def __repr__(self):
-- 
2.43.0


From 77177f105edcb6ba2a385c85a67721acd26f3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 10/91] fix: MidiNoteSequence.cut took the last kept note's end
 for the total time

---
 neural_graph_composer/midi/midi_sequence.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 683dc04..dfc50c6 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -782,7 +782,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         truncated_notes = self.notes[:cut_size]
         truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes)
-        truncated_seq.total_time = min(self.total_time, truncated_notes[-1].end_time)
         return truncated_seq
 
     def to_midi_file(self, file_path: str, callback=save_midi_callback) -> None:
-- 
2.43.0


From 4bbb82b5988b0c11936e562e4e400a0d6d0c93c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 11/91] fix: appending a list that is empty or holds something
 else than notes

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index dfc50c6..3f704be 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -323,8 +323,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.notes.append(note)
             self.total_time = max(self.total_time, note.end_time)
         elif isinstance(note, list):
+            max_end_time = max([n.end_time for n in note], default=self.total_time)
             self.notes.extend(note)
-            max_end_time = max(note, key=lambda n: n.end_time).end_time
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("note must be a MidiNote object or a list of MidiNote objects")
@@ -338,8 +338,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.notes.append(notes)
             self.total_time = max(self.total_time, notes.end_time)
         elif isinstance(notes, list):
+            max_end_time = max([n.end_time for n in notes], default=self.total_time)
             self.notes.extend(notes)
-            max_end_time = max(notes, key=lambda n: n.end_time).end_time
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("notes must be a MidiNote object or a list of MidiNote objects")
-- 
2.43.0


From 16a6e5e64a703a2cda6f62a5d1d7e100dad16ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 12/91] fix: total_quantized_steps was taken from the
 unquantized notes

---
 neural_graph_composer/midi/midi_sequence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 3f704be..f179ba3 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -612,9 +612,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             # quantize a note based on time to the nearest step
             quantized_note = note.quantize(sps=sps, amount=amount)
             new_notes.append(quantized_note)
-            # update total_quantized_steps
-            if note.quantized_end_step > self.__total_quantized_steps:
-                self.__total_quantized_steps = note.quantized_end_step
 
         new_control_changes = []
         #  quantize control changes and text annotations.
@@ -623,7 +620,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             quantized_cc = cc.quantize(sps=sps, amount=amount)
             new_control_changes.append(quantized_cc)
 
-        # update cc and notes
+        # update total_quantized_steps, cc and notes
+        self.__total_quantized_steps = max([n.quantized_end_step for n in new_notes], default=0)
         self.notes = new_notes
         self.control_changes = new_control_changes
 
-- 
2.43.0


From ee1bfc7704082576f016aa01a3a61b89cc8b568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 13/91] fix: drum_events given to MidiNoteSequence were ignored

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index f179ba3..f0706c8 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -112,7 +112,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.instrument = instrument
 
         self._notes = [] if notes is None else [n for n in notes if not self.instrument.is_drum]
-        self._drum_events = [] if notes is None else [n for n in notes if self.instrument.is_drum]
+        self._drum_events = [n for n in (notes or []) + (drum_events or []) if self.instrument.is_drum]
         # midi seq total time
         self.__total_time = max([n.end_time for n in self.notes], default=0.0)
 
-- 
2.43.0


From 69100f9c6cea53b27090beba3d519a44ff3653d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 14/91] fix: truncate_to_last_event kept answering with the
 first end time it computed

---
 neural_graph_composer/midi/midi_sequence.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index f0706c8..208759a 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -647,7 +647,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             if seq_tempo.midi_time == 0:
                 return seq_tempo.midi_time
 
-    @cache
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
         `total_time + offset`.
-- 
2.43.0


From a9a577d71d9c67234fccea19ad6e4a8e10748861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 15/91] fix: quantizing a control change always raised

---
 neural_graph_composer/midi/midi_control_change.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index d909fb6..abeeac6 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -338,17 +338,10 @@ class MidiControlChange(MidiBaseControlChange):
         :param amount:  quantization amount.
         :return:
         """
-        self.quantized_start_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-        self.quantized_end_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-
-        self.quantized_start_step = max(self.quantized_start_step, 0)
-        assert (self.quantized_start_step >= 0)
-        assert (self.quantized_end_step >= 0)
-
-        if self.quantized_end_step == self.quantized_start_step:
-            self.quantized_end_step += 1
+        step = max(self.quantize_to_nearest_step(self.cc_time, sps, amount=amount), 0)
+        self._quantized_start_step = step
+        self._quantized_end_step = step + 1
+        self._is_quantized = True
 
         self.quantized_step = sps
 
-- 
2.43.0


From 212d6bc7c04131f4e8a584cc8a606e3988e28f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 16/91] fix: copying a control change lost its percussion flag

---
 neural_graph_composer/midi/midi_control_change.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index abeeac6..8f0d0ed 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -384,6 +384,7 @@ class MidiControlChange(MidiBaseControlChange):
             if cc_time is not None else self.cc_time,
             program=self.program,
             instrument=self.instrument,
+            is_drum=self.is_drum,
             quantized_start_step=quantized_start_step
             if quantized_start_step is not None else self.quantized_start_step,
             quantized_end_step=quantized_end_step
-- 
2.43.0


From 3c9413471e9f22f4a77b66b5c45970f9f4b50449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 17/91] fix: requantizing a note added its length in seconds to
 its start step

---
 neural_graph_composer/midi/midi_note.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index daecdce..1d99932 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -467,12 +467,8 @@ class MidiNote(MidiEvent):
 
         # if already quantized , re-compute and update quantized_start_step and end step
         if self.is_quantized():
-            # Calculate duration based on new quantized steps
-            old_duration = np.divide(quantized_end_step - quantized_start_step, sps)
-            logging.debug(f"old duration case on {old_duration}")
-            # duration_before_shift = (self.end_time - self.start_time) / sps
             self.quantized_start_step = max(0, quantized_start_step)
-            self.quantized_end_step = self.quantized_start_step + old_duration
+            self.quantized_end_step = max(0, quantized_end_step)
         else:
             start_shift = max(0.0, -self.start_time)
             end_shift = max(0.0, -self.end_time)
-- 
2.43.0


From c9ddd99363007eec358fb28e99a559798de08c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 18/91] fix: fetching a missing track could overwrite another
 one

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a8e9029..470d79a 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -211,7 +211,7 @@ class MidiNoteSequences:
             self._instrument_to_idx = {}
 
         if track_idx not in self._track_to_idx:
-            internal_idx = len(self.__midi_seqs)
+            internal_idx = track_idx
             instrument = MidiInstrumentInfo(
                 instrument=track_idx,
                 name=f"Instrument {0}",
-- 
2.43.0


From 2f6f469a26737ecccc9badb98499f5974f3f59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 19/91] fix: a track assigned by index or set_sequence was lost
 when it was fetched

---
 neural_graph_composer/midi/midi_sequences.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 470d79a..37ecd54 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -243,7 +243,6 @@ class MidiNoteSequences:
             raise ValueError("index must be between 0 and 127 (inclusive)")
 
         if isinstance(value, MidiNoteSequence):
-            print("Creating from list")
             self.__midi_seqs[track_idx] = value
         elif isinstance(value, list):
             print("Creating from list")
@@ -251,6 +250,8 @@ class MidiNoteSequences:
         else:
             raise TypeError("value must be a MidiNoteSequence or a list of MidiNotes")
 
+        self._track_to_idx[track_idx] = track_idx
+
     def __len__(self) -> int:
         """Return len of midi_seq.
         :return:
@@ -773,8 +774,10 @@ class MidiNoteSequences:
     def set_sequence(self, track_idx: int, sequence: Union[List[MidiNote], MidiNoteSequence]) -> None:
         """Set the MidiNoteSequence for the given track index."""
         if not isinstance(sequence, MidiNoteSequence):
+            notes = sequence
             sequence = MidiNoteSequence(resolution=self.resolution, is_debug=self.is_debug)
-            sequence.midi_notes = sequence.midi_notes + sequence
+            sequence.notes = list(notes)
 
         self.__midi_seqs[track_idx] = sequence
+        self._track_to_idx[track_idx] = track_idx
 
-- 
2.43.0


From fc054f1ff6af4bfec56679f5ca3e280ab095428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 20/91] fix: a piece counted as quantized whatever its tracks
 were

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 37ecd54..1aa3638 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -487,7 +487,7 @@ class MidiNoteSequences:
         """Return true if all midi sequence for each instrument quantized
         :return:
         """
-        return all(n.is_quantized for n in self.__midi_seqs.values())
+        return all(n.is_quantized() for n in self.__midi_seqs.values())
 
     def get_all_sequence_events(self) -> List[MidiEvent]:
         """Return a list of all events in the sequence.
-- 
2.43.0


From 3194be08f4c76ce0c65c231df7e133d3686c3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 21/91] fix: signatures added at equal times could be stored in
 the wrong order, and not at all to an empty list

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 1aa3638..75c5267 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -353,7 +353,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding time signature {v}")
 
-        v.seq = self.time_signatures[-1].seq + 1
+        v.seq = max([s.seq for s in self.time_signatures], default=-1) + 1
 
         # replace default
         if len(self.time_signatures) >= 1 and self.is_close_to_zero(
@@ -375,7 +375,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding key signature {v}")
 
-        v.seq = self.key_signatures[-1].seq + 1
+        v.seq = max([s.seq for s in self.key_signatures], default=-1) + 1
 
         # replace default
         if len(self.key_signatures) >= 1 and self.is_close_to_zero(
@@ -405,7 +405,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding tempo a signature {v}")
 
-        v.seq = self.tempo_signatures[-1].seq + 1
+        v.seq = max([s.seq for s in self.tempo_signatures], default=-1) + 1
 
         if len(self.tempo_signatures) >= 1 and self.is_close_to_zero(
                 self.tempo_signatures[0].midi_time, v.midi_time):
-- 
2.43.0


From f6ef6098c63ea73058a25ca7e539e1b1b4556586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 22/91] fix: signature lookups at the very time of a change
 answered with the one before

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 75c5267..1a2d8db 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -582,7 +582,7 @@ class MidiNoteSequences:
         if self.time_signatures is None or len(self.time_signatures) == 0:
             return 4, 4
 
-        i = bisect_right(self.time_signatures, MidiTimeSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.time_signatures, start_time, key=lambda s: s.midi_time) - 1
         return self.time_signatures[i].numerator, self.time_signatures[i].denominator
 
     @cache
@@ -599,7 +599,7 @@ class MidiNoteSequences:
         if self.tempo_signature is None or len(self.tempo_signatures) == 0:
             return DEFAULT_PPQ, DEFAULT_QPM
 
-        i = bisect_right(self.tempo_signatures, MidiTempoSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.tempo_signatures, start_time, key=lambda s: s.midi_time) - 1
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
 
     @cache
@@ -610,7 +610,7 @@ class MidiNoteSequences:
         """
         if self.key_signatures is None or len(self.key_signatures) == 0:
             return 0, 0
-        i = bisect_right(self.key_signatures, MidiKeySignature(midi_time=start_time)) - 1
+        i = bisect_right(self.key_signatures, start_time, key=lambda s: s.midi_time) - 1
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
     @property
-- 
2.43.0


From b70b57c43ff16f9da1a635b3904e3d89cefd2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 23/91] fix: the initial tempo kept its first answer after
 tempo changes were added

---
 neural_graph_composer/midi/midi_sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 1a2d8db..9fbb7e0 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -414,6 +414,7 @@ class MidiNoteSequences:
             bisect.insort_left(self.tempo_signatures, v, key=lambda k: k)
 
         self.tempo_signature.cache_clear()
+        self.initial_tempo.cache_clear()
 
     def slice_time_signatures(
             self,
-- 
2.43.0


From 24eb52401ea8e53717a3131ab59560b3925d65d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 24/91] fix: slice_tempo_signature compared tempos with a
 method and ignored its sorted copy

---
 neural_graph_composer/midi/midi_sequences.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 9fbb7e0..54d943a 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -477,10 +477,11 @@ class MidiNoteSequences:
         if sort_first:
             _tempo_signatures = sorted(self.tempo_signatures, key=lambda x: x.midi_time)
         else:
-            _tempo_signature = self.tempo_signature
+            _tempo_signatures = self.tempo_signatures
 
-        for sig in self.tempo_signatures:
-            if sig == self.initial_tempo or upper_bound and sig.midi_time > upper_bound:
+        # the initial tempo is the first one in the list
+        for sig in _tempo_signatures:
+            if sig is self.tempo_signatures[0] or upper_bound is not None and sig.midi_time > upper_bound:
                 continue
             yield sig
 
-- 
2.43.0


From bc45b6d80ca46787bf196a9a608a962900f09593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 25/91] fix: a MIDI file was parsed twice, so bytes could not
 be read and parsed objects were changed

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 086da07..d0181ba 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -45,7 +45,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         """
         # Mustafa TODO push to github to main PrettyMIDI
         self.drum_channel = drum_channel
-        super().__init__(midi_file, resolution, initial_tempo)
+        super().__init__(None, resolution, initial_tempo)
         self.is_debug = is_debug
 
         if midi_file is not None:
-- 
2.43.0


From 660aa761ea1512f9974f9aabfe60d67435769d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 26/91] fix: controllers and pitch bends before the end of the
 last note were dropped

---
 neural_graph_composer/midi_reader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index b471d36..c4d7fa7 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -190,8 +190,7 @@ class MidiReader(MidiBaseReader):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             # for each instrument iterate over all node and get time
             for n in instrument.pitch_bends:
-                if not midi_seq.total_time or n.time >= midi_seq.total_time:
-                    yield instrument, i, n, seq_id
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_control_changes(
@@ -208,8 +207,7 @@ class MidiReader(MidiBaseReader):
         for i, instrument in enumerate(midi_data.instruments):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             for cv in instrument.control_changes:
-                if not midi_seq.total_time or cv.time >= midi_seq.total_time:
-                    yield instrument, i, cv, seq_id
+                yield instrument, i, cv, seq_id
 
     @staticmethod
     def mido_to_pretty_midi(mido_file: mido.MidiFile) -> CustomPrettyMIDI:
-- 
2.43.0


From 832c066ea4be5535e0b44e6a9bc87eab3d2ce7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 27/91] fix: a pitch bend all the way down was refused

---
 neural_graph_composer/midi/midi_pitch_bend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_pitch_bend.py b/neural_graph_composer/midi/midi_pitch_bend.py
index f66428f..c16f8d9 100644
--- a/neural_graph_composer/midi/midi_pitch_bend.py
+++ b/neural_graph_composer/midi/midi_pitch_bend.py
@@ -23,14 +23,14 @@ class MidiPitchBend(MidiEvent):
         and bounded to particular instrument , track.
 
         MIDI Pitch Bend event. Is drum if event in drum channel
-        :param amount is amount of pitch bend. Based on MIDI it values between -8191 and 8191
+        :param amount is amount of pitch bend. Based on MIDI it values between -8192 and 8191
         :param program: midi program , default 0
         :param instrument:  midi instrument default 0
         :param midi_time: time of event.  time of event
         :param is_drum: default False
         """
-        if not (-8191 <= amount <= 8191):
-            raise ValueError("amount must be between -8191 and 8191")
+        if not (-8192 <= amount <= 8191):
+            raise ValueError("amount must be between -8192 and 8191")
         self.amount: int = amount
 
         if not (0 <= program <= 127):
@@ -58,7 +58,7 @@ class MidiPitchBend(MidiEvent):
         else:
             self.__midi_time: Optional[Union[float, np.ndarray]] = None
 
-        self.__amount: int = min(max(-8191, amount), 8191)
+        self.__amount: int = min(max(-8192, amount), 8191)
         self.__program: int = min(max(0, program), 255)
         self.__instrument: int = min(max(0, instrument), 255)
         self.__midi_time: Union[float, np.ndarray] = np.clip(midi_time, 0, np.inf) if midi_time is not None else 0.0
-- 
2.43.0


From ab13272cf07192abad5ce4a9fd1fee82bba0aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 28/91] fix: a note struck twice at one tick lost its second
 onset when the next note or the end of the track closed it

---
 neural_graph_composer/custom_pretty_midi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index d0181ba..fb53fc0 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -271,16 +271,17 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         notes_to_remove = []
 
         for k, v in last_note_on.items():
-            start_tick, velocity = v[0]
+            # all notes open under one key started at the same tick
+            start_tick, _ = v[0]
             _channel, _note = k
             if end_tick > start_tick or end_of_seq:
                 # start we know, end is current note on event
                 start_time = self.tick_times[start_tick]
                 end_time = self.tick_times[end_tick]
-                note = Note(velocity, _note, start_time, end_time)
                 program = current_instrument[_channel]
                 ints = __get_instrument(program, _channel, track_idx, 1)
-                ints.notes.append(note)
+                for _, velocity in v:
+                    ints.notes.append(Note(velocity, _note, start_time, end_time))
                 # we close a note we remove it.
                 notes_to_remove.append(k)
 
-- 
2.43.0


From 10afd0a0dfbd4f70196de1586b2c9fcd9ca78c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 29/91] fix: instruments of one channel shared the list of
 events that came before them

---
 neural_graph_composer/custom_pretty_midi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index fb53fc0..2ab81e7 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -386,8 +386,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                 # include them in the new instrument
                 if (_channel, _track) in stragglers:
                     straggler = stragglers[(_channel, _track)]
-                    _instrument.control_changes = straggler.control_changes
-                    _instrument.pitch_bends = straggler.pitch_bends
+                    _instrument.control_changes = list(straggler.control_changes)
+                    _instrument.pitch_bends = list(straggler.pitch_bends)
                 # Add the instrument to the instrument map
                 instrument_map[(_program, _channel, _track)] = _instrument
             # Otherwise, create a "straggler" instrument which holds events
-- 
2.43.0


From 589adc612b98d56a942b4a0ff21925384ae4ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 30/91] fix: writing lost the program and name of every
 sequence and added an empty track

---
 neural_graph_composer/midi_reader.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index c4d7fa7..72356ea 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -336,8 +336,6 @@ class MidiReader(MidiBaseReader):
             resolution=ticks_per_quarter,
             initial_tempo=initial_seq_tempo)
 
-        instrument = pretty_midi.Instrument(0)
-        pm.instruments.append(instrument)
         for ts in sequence.slice_time_signatures(max_event_time):
             pm.time_signature_changes.append(
                 pretty_midi.TimeSignature(
@@ -363,10 +361,6 @@ class MidiReader(MidiBaseReader):
             pm.update_scale((tick, tick_scale))
             pm.update_tick_time([0])
 
-        inst_infos = {}
-        for i, inst_info in enumerate(sequence.instruments):
-            inst_infos[inst_info.instrument_num] = inst_info.name
-
         for k in sequence:
             # read all notes from internal representation to pretty midi
             notes = [
@@ -384,8 +378,11 @@ class MidiReader(MidiBaseReader):
                 if max_event_time and cc.cc_time < max_event_time]
 
             # create instrument
+            inst_info = sequence[k].instrument
             instrument = pretty_midi.Instrument(
-                sequence[k].program, sequence[k].instrument.is_drum
+                inst_info.instrument_num, inst_info.is_drum,
+                # names in MIDI files are latin1
+                inst_info.name.encode('latin1', 'replace').decode('latin1')
             )
             instrument.notes = notes
             instrument.pitch_bends = pitch_bends
-- 
2.43.0


From f76e41da50b65974647958e0b7e9a04fa5d7cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 31/91] fix: writing misplaced everything after the first tempo
 change

---
 neural_graph_composer/midi_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 72356ea..c6abc04 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -356,10 +356,10 @@ class MidiReader(MidiBaseReader):
         # write all tempo signature, TODO add meta
         for seq_tempo in sequence.slice_tempo_signature(max_event_time):
             tick_scale = 60.0 / (pm.resolution * seq_tempo.qpm)
-            print(f"Setting scale {type(seq_tempo.midi_time)}")
             tick = pm.time_to_tick(seq_tempo.midi_time)
             pm.update_scale((tick, tick_scale))
-            pm.update_tick_time([0])
+            # later times are converted with this tempo
+            pm._update_tick_to_time(tick)
 
         for k in sequence:
             # read all notes from internal representation to pretty midi
-- 
2.43.0


From 551687d3c3e8295a28fd10888974e56f3c012958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 32/91] fix: writing dropped the signatures, controllers and
 bends after the last note

---
 neural_graph_composer/midi_reader.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index c6abc04..7eb5971 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -327,16 +327,15 @@ class MidiReader(MidiBaseReader):
         :rtype CustomPrettyMIDI
         """
         ticks_per_quarter = sequence.resolution or DEFAULT_PPQ
-        max_event_time = sequence.truncate(to_end)
         initial_seq_tempo = sequence.initial_tempo()
 
-        logging.debug(f"{initial_seq_tempo} {ticks_per_quarter} {max_event_time}")
+        logging.debug(f"{initial_seq_tempo} {ticks_per_quarter}")
 
         pm = CustomPrettyMIDI(
             resolution=ticks_per_quarter,
             initial_tempo=initial_seq_tempo)
 
-        for ts in sequence.slice_time_signatures(max_event_time):
+        for ts in sequence.slice_time_signatures():
             pm.time_signature_changes.append(
                 pretty_midi.TimeSignature(
                     ts.numerator,
@@ -345,7 +344,7 @@ class MidiReader(MidiBaseReader):
             )
 
         #  all key signatures.
-        for sk in sequence.slice_key_signatures(max_event_time):
+        for sk in sequence.slice_key_signatures():
             key_number = sk.midi_key
             if sk.mode == KeySignatureType.MINOR:
                 key_number += 12
@@ -354,7 +353,7 @@ class MidiReader(MidiBaseReader):
             )
 
         # write all tempo signature, TODO add meta
-        for seq_tempo in sequence.slice_tempo_signature(max_event_time):
+        for seq_tempo in sequence.slice_tempo_signature():
             tick_scale = 60.0 / (pm.resolution * seq_tempo.qpm)
             tick = pm.time_to_tick(seq_tempo.midi_time)
             pm.update_scale((tick, tick_scale))
@@ -369,13 +368,11 @@ class MidiReader(MidiBaseReader):
             pitch_bends = [
                 pretty_midi.PitchBend(sb.amount, sb.midi_time)
                 for sb in sequence[k].pitch_bends
-                if max_event_time and sb.midi_time < max_event_time
             ]
 
             control_changes = [
                 pretty_midi.ControlChange(cc.cc_number, cc.cc_value, cc.cc_time)
-                for cc in sequence[k].control_changes
-                if max_event_time and cc.cc_time < max_event_time]
+                for cc in sequence[k].control_changes]
 
             # create instrument
             inst_info = sequence[k].instrument
-- 
2.43.0


From 2f49cc5f2c246373fcc5ee132c4dc159c73dc032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 33/91] fix: writing a piece too short for a tempo estimate
 failed for the sake of a log message

---
 neural_graph_composer/midi_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 7eb5971..725aadd 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -394,7 +394,6 @@ class MidiReader(MidiBaseReader):
             pm.adjust_times(original_times, new_times)
 
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
-                      f"estimate_tempo: {pm.estimate_tempo()} "
                       f"resolution: {pm.resolution}")
         return pm
 
-- 
2.43.0


From 8f86a2c7287efdcba25d784e8be87e93eb7fc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 34/91] fix: writing replaced an existing file when
 do_overwrite was None or 0

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 725aadd..4028ed8 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -421,7 +421,7 @@ class MidiReader(MidiBaseReader):
         if not isinstance(filename, str) or not filename:
             raise ValueError("The provided filename is invalid. It should be a non-empty string.")
 
-        if do_overwrite is False and os.path.exists(filename):
+        if not do_overwrite and os.path.exists(filename):
             raise FileExistsError(
                 f"A file with the name '{filename}' "
                 f"already exists. Aborting to avoid overwriting.")
-- 
2.43.0


From 250ad3f7734da0db7f5df30f46ebdc52dd3c64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 35/91] fix: no graph could be turned into tensors: node
 features were left as a list

---
 neural_graph_composer/midi_graph_builder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 581c173..6f758f1 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -282,9 +282,7 @@ class MidiGraphBuilder:
                 if key not in group_node_attrs:
                     continue
                 try:
-                    if isinstance(value, (tuple, list)) and all(isinstance(v, (Tensor, np.ndarray)) for v in value):
-                        data[key] = value
-                    elif isinstance(value, np.ndarray):
+                    if isinstance(value, np.ndarray):
                         data[key] = torch.from_numpy(value)
                     elif isinstance(value, (tuple, list)) and all(isinstance(v, Tensor) for v in value):
                         logging.debug(
-- 
2.43.0


From 4b6867c752cdc19734bb8b30b11fd4fa49ea4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 36/91] fix: chord groups were visited in the order of the
 hashes of their times, not in time

---
 neural_graph_composer/midi_graph_builder.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 6f758f1..c941404 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -732,13 +732,12 @@ class MidiGraphBuilder:
 
             assert adjusted_time_hash >= 0, "n.start_time must be non-negative"
 
-            time_hash = hash(adjusted_time_hash)
-            if time_hash not in data:
-                data[time_hash] = []
+            if adjusted_time_hash not in data:
+                data[adjusted_time_hash] = []
 
-            data[time_hash].append(n)
-            if len(data[time_hash]) > longest_note_sequence:
-                longest_note_sequence = len(data[time_hash])
+            data[adjusted_time_hash].append(n)
+            if len(data[adjusted_time_hash]) > longest_note_sequence:
+                longest_note_sequence = len(data[adjusted_time_hash])
 
         if filter_single_notes:
             # Filter out single notes
-- 
2.43.0


From 06f2ff2a97cd2b0a74df2f432ecdc5c5e2de4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 37/91] fix: only the first graph was delivered, the others
 were dropped

---
 neural_graph_composer/midi_graph_builder.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index c941404..c0c6337 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1157,7 +1157,5 @@ class MidiGraphBuilder:
             yield g
             del g
 
-            del self._pyg_data[:]
-            del self._sub_graphs[:]
-            self._pyg_data = []
-            self._sub_graphs = []
+        self._pyg_data = []
+        self._sub_graphs = []
-- 
2.43.0


From 45c7f1d841627757f0410e2666ffd812c47224fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 38/91] fix: the sanity check of delivered graphs failed on
 every graph

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index c0c6337..3a13379 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1135,7 +1135,7 @@ class MidiGraphBuilder:
 
             # reverse sanity-check
             if is_sanity_check:
-                original_labels = [self._index_to_hash[label.item()] for label in g.label]
+                original_labels = [self._index_to_hash[label] for label in g.label]
                 original_target_indices = [self._index_to_hash[index] for index in target_indices]
                 original_y_values = [self._index_to_hash[y.item()] for y in g.y]
                 original_notes = [self._hash_to_notes[h] for h in original_labels]
-- 
2.43.0


From 1f02ed51872f7c07afba68353c4880e97de4e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 39/91] fix: whole-piece graphs: every file after the first
 contributed the graph of the first

---
 neural_graph_composer/midi_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 0b48cf9..bd0d6b4 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -628,11 +628,11 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=False
                 )
-                graphs = self._graph_builder.graphs()
+                graphs = list(self._graph_builder.graphs())
                 if not graphs:
                     raise ValueError("No sub graphs found in graph builder.")
 
-                midi_data = next(graphs)
+                midi_data = graphs[0]
 
                 self.all_classes.update(torch.unique(midi_data.y).tolist())
                 if self.pre_filter is not None and not self.pre_filter(midi_data):
-- 
2.43.0


From 8809c483bf09550c70b8338a382fdf31b6a00e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 40/91] fix: the whole-piece collection held the per-instrument
 graphs

---
 neural_graph_composer/midi_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index bd0d6b4..9e08bbc 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -589,6 +589,7 @@ class MidiDataset(InMemoryDataset):
             'index_to_hash': _index_to_hash,
         }
 
+        _data, _slices = self.collate(self.__data_list)
         print(f"Saving {self.processed_dir} data.pt")
         torch.save((_data, _slices, additional_data),
                    osp.join(
-- 
2.43.0


From a4f599c05bdeb950ca44e3c5f001545a973d0f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 41/91] fix: whole-piece graphs kept the labels that were to be
 removed

---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 9e08bbc..008a66b 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -629,7 +629,7 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=False
                 )
-                graphs = list(self._graph_builder.graphs())
+                graphs = list(self._graph_builder.graphs(skip_label=self._remove_label))
                 if not graphs:
                     raise ValueError("No sub graphs found in graph builder.")
 
-- 
2.43.0


From 5d62013298a6f44993287e8466105b4c3b423c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 42/91] fix: the list of files given by the caller was modified

---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 008a66b..fa71812 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -205,7 +205,7 @@ class MidiDataset(InMemoryDataset):
         # list offline files.
         self.files = []
         if midi_files is not None:
-            self.files = midi_files
+            self.files = list(midi_files)
             self._offline = True
 
         self._remove_label = remove_label
-- 
2.43.0


From 4e28b3b2a252cdeca4307b8524fe179c716028ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 43/91] fix: a first file without melodic tracks made the whole
 dataset fail

---
 neural_graph_composer/midi_dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index fa71812..830285c 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -476,6 +476,9 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=True
                 )
+                # nothing melodic in this file.
+                if not self._graph_builder.pyg_data:
+                    continue
 
                 # graph_builder output iterator, is_sanity_check if we want to do sanity
                 # check during this phase.
@@ -629,6 +632,9 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=False
                 )
+                # nothing melodic in this file.
+                if not self._graph_builder.pyg_data:
+                    continue
                 graphs = list(self._graph_builder.graphs(skip_label=self._remove_label))
                 if not graphs:
                     raise ValueError("No sub graphs found in graph builder.")
-- 
2.43.0


From 4a5b06b17475e96a684dd66ee6b6b41ee5c568e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 44/91] fix: the statistics of a dataset could not be computed

---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 830285c..04f4bdc 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -394,7 +394,7 @@ class MidiDataset(InMemoryDataset):
         for data in self:
             num_nodes += data.num_nodes
             num_edges += data.num_edges
-            num_labels += torch.unique(data.label).size(0)
+            num_labels += torch.unique(data.y).size(0)
 
         return {
             "num_nodes": num_nodes,
-- 
2.43.0


From 807254d5373f4f0d6ef0660aa69cdbb393ad50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 45/91] fix: no transform could be created: transforms define
 forward, which their base calls on a copy of the graph

---
 neural_graph_composer/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 09d1feb..451a1a9 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -26,7 +26,7 @@ from torch_geometric.transforms import BaseTransform
 class AddDegreeTransform(BaseTransform):
     """Add degree to x.
     """
-    def __call__(self, data):
+    def forward(self, data):
         x = data.x.reshape(data.num_nodes, -1)
         degree = torch_geometric.utils.degree(data.edge_index[0], num_nodes=data.num_nodes)
         degree = degree.reshape(-1, 1)
@@ -49,7 +49,7 @@ class GraphIDTransform(BaseTransform):
         self.num_classes = dataset.num_classes
         print(f"Creating Graph ID transform Node proper {self.num_classes}")
 
-    def __call__(self, data):
+    def forward(self, data):
         """Transform add graph id.
 
         It requires dataset to have public method that it can access.
@@ -83,7 +83,7 @@ class RandomNodeDrop(T.BaseTransform):
         print(f"Creating Random Node proper with p {p}")
         self.p = p
 
-    def __call__(self, data: Data) -> Data:
+    def forward(self, data: Data) -> Data:
         """
 
         :param data:
@@ -148,7 +148,7 @@ class RandomEdgeDrop(T.BaseTransform):
         """
         self.p = p
 
-    def __call__(self, data):
+    def forward(self, data):
         """
         :param data:
         :return:
-- 
2.43.0


From 2e848ea417a007522f54da23759444b7decf80ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 46/91] fix: dropping nodes left the edges numbered by the
 nodes before

---
 neural_graph_composer/transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 451a1a9..bdf5b67 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -125,14 +125,16 @@ class RandomNodeDrop(T.BaseTransform):
 
         mask = torch.zeros(num_nodes, dtype=torch.bool)
         mask[keep_idx] = 1
+        new_idx = torch.zeros(num_nodes, dtype=torch.long)
+        new_idx[keep_idx] = torch.arange(keep_idx.numel())
         row, col = edge_index
         mask_row = mask[row]
         mask_col = mask[col]
         mask_all = mask_row & mask_col
         if edge_attr is not None:
-            return edge_index[:, mask_all], edge_attr[mask_all]
+            return new_idx[edge_index[:, mask_all]], edge_attr[mask_all]
         else:
-            return edge_index[:, mask_all]
+            return new_idx[edge_index[:, mask_all]], None
 
     def __repr__(self):
         """
-- 
2.43.0


From c8fa8eaf324a6a36f9766a1f4d256b16c4833de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 47/91] fix: dropping nodes failed on graphs without labels or
 masks and kept the identities of dropped nodes

---
 neural_graph_composer/transforms.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index bdf5b67..2275cf9 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -98,11 +98,12 @@ class RandomNodeDrop(T.BaseTransform):
         data.edge_index, data.edge_attr = RandomNodeDrop.filter_adj(
             data.edge_index, data.edge_attr, remain_idx, num_nodes)
         data.x = data.x[remain_idx]
-        data.y = data.y[remain_idx]
-
-        data.train_mask = data.train_mask[remain_idx]
-        data.val_mask = data.val_mask[remain_idx]
-        data.test_mask = data.test_mask[remain_idx]
+        for key in ('y', 'train_mask', 'val_mask', 'test_mask'):
+            if data.get(key) is not None:
+                data[key] = data[key][remain_idx]
+        for key in ('node_hash', 'label'):
+            if data.get(key) is not None:
+                data[key] = [data[key][i] for i in remain_idx.tolist()]
         data.num_nodes = data.x.shape[0]
 
         # print(f"called return data {data}")
-- 
2.43.0


From f1bfd52f0b1c04d8821071e05ea211efa5bf358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 48/91] fix: dropping edges failed on graphs without link
 labels and lost the label lists

---
 neural_graph_composer/transforms.py | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 2275cf9..42428bd 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -164,26 +164,10 @@ class RandomEdgeDrop(T.BaseTransform):
         if data.edge_attr is not None:
             edge_attr = data.edge_attr[mask]
 
-        pos_edge_mask = None
-        neg_edge_mask = None
-        if data.pos_edge_label is not None and data.neg_edge_label is not None:
-            pos_edge_mask = data.pos_edge_label_index[:, mask]
-            neg_edge_mask = data.neg_edge_label_index[:, mask]
-
-        return Data(
-            x=data.x,
-            edge_index=edge_index,
-            edge_attr=edge_attr,
-            y=data.y,
-            pos_edge_label=data.pos_edge_label,
-            neg_edge_label=data.neg_edge_label,
-            train_mask=data.train_mask,
-            val_mask=data.val_mask,
-            test_mask=data.test_mask,
-            pos_edge_label_index=pos_edge_mask,
-            neg_edge_label_index=neg_edge_mask,
-            node_hash=data.node_hash
-        )
+        data.edge_index = edge_index
+        if edge_attr is not None:
+            data.edge_attr = edge_attr
+        return data
 
     def __repr__(self):
         return f'{self.__class__.__name__}(p={self.p})'
-- 
2.43.0


From f377514cead487d0bb97ce5d337427dfeb839590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 49/91] fix: the notes of a scale could not be asked for by
 root number or lower case root

---
 neural_graph_composer/midi/midi_scales.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 8f11539..86ff788 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -702,10 +702,11 @@ class MusicTheory:
         if isinstance(root, str):
             if root.upper() not in MusicTheory.pitch_names.values():
                 raise ValueError(f"Invalid note name: {root}")
+            root = MusicTheory.pitch_to_note_name[root.upper()]
         elif not (0 <= root <= 11):
             raise ValueError("root pitch parameter should be within the range [0, 11]")
 
-        root_idx = MusicTheory.note_names.index(root)
+        root_idx = root
         intervals = MusicTheory.intervals_from_scale(scale)
         sorted_intervals = sorted(intervals, key=lambda x: MusicTheory.intervals[x])
 
-- 
2.43.0


From 5dd44cb0c675f44dcf79202469c5a7394c67e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 50/91] fix: triads of the dorian, phrygian, mixolydian and
 locrian scales were misnamed

---
 neural_graph_composer/midi/midi_scales.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 86ff788..c0b7b0e 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -349,12 +349,12 @@ class MusicTheory:
     chords = {
         ScaleType.MAJOR: ["M", "m", "m", "M", "M", "m", "dim"],
         ScaleType.MINOR: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.DORIAN: ["M", "m", "m", "M", "M", "dim", "m"],
-        ScaleType.PHRYGIAN: ["m", "M", "dim", "m", "m", "M", "M"],
+        ScaleType.DORIAN: ["m", "m", "M", "M", "m", "dim", "M"],
+        ScaleType.PHRYGIAN: ["m", "M", "M", "m", "dim", "M", "m"],
         ScaleType.LYDIAN: ["M", "M", "m", "dim", "M", "m", "m"],
-        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "m", "M", "m", "M"],
+        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "M", "m", "m", "M"],
         ScaleType.AEOLIAN: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "dim", "M", "m"],
+        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "M", "M", "m"],
         ScaleType.HARMONIC_MINOR: ["m", "dim", "aug", "m", "M", "M", "dim"],
         ScaleType.MELODIC_MINOR: ["m", "m", "aug", "M", "M", "dim", "dim"]
     }
-- 
2.43.0


From 838fb292a49816199b9ebc517c979cd70aa093ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 51/91] fix: minor intervals given by name were taken for major
 ones

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index c0b7b0e..6bb3a6d 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -615,7 +615,7 @@ class MusicTheory:
         for i, interval in enumerate(interval_chord):
             # if caller pass string we convert to Enum
             if isinstance(interval, str):
-                interval = Interval[interval.upper()]
+                interval = Interval[interval]
             interval_pitch = MusicTheory.intervals[interval]
             chord_pitch = (root + interval_pitch) % 12
             _chord_pitches.append(chord_pitch)
-- 
2.43.0


From cf1e6e1a01db532c3bc07e9d1594795e67191f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 52/91] fix: pitches of chords with compound intervals could
 not be computed

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 6bb3a6d..af130b5 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -616,7 +616,7 @@ class MusicTheory:
             # if caller pass string we convert to Enum
             if isinstance(interval, str):
                 interval = Interval[interval]
-            interval_pitch = MusicTheory.intervals[interval]
+            interval_pitch = interval.value
             chord_pitch = (root + interval_pitch) % 12
             _chord_pitches.append(chord_pitch)
         return _chord_pitches
-- 
2.43.0


From 6024232258aa645b4722f2642b5290e3ea77e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 53/91] fix: the augmented seventh chord had the steps of the
 major seventh

---
 neural_graph_composer/midi/midi_scales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index af130b5..19b6cfe 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -90,7 +90,7 @@ class ChordIntervals(Enum):
     MinorSeven = [3, 4, 3]
     HalfDiminishedSeven = [3, 3, 4]
     DiminishedSeven = [3, 3, 3]
-    AugmentedSeven = [4, 3, 4]
+    AugmentedSeven = [4, 4, 2]
     Sixth = [4, 3, 2]
     MinorSixth = [3, 4, 2]
     Ninth = [4, 3, 3, 4]
@@ -451,7 +451,7 @@ class MusicTheory:
         "m7": [3, 4, 3],
         "m7b5": [3, 3, 4],
         "dim7": [3, 3, 3],
-        "aug7": [4, 3, 4],
+        "aug7": [4, 4, 2],
         "6": [4, 3, 2],
         "m6": [3, 4, 2],
         "9": [4, 3, 3, 4],
-- 
2.43.0


From d8f0a533f12299598d815c978bc5c176c51a442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 54/91] fix: the diminished seventh was a minor seventh

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 19b6cfe..56ce328 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -194,7 +194,7 @@ class Interval(Enum):
     A4 = 6
     # d5 diminished fifth
     d5 = 6
-    d7 = 10
+    d7 = 9
 
     def bases(self):
         """the base intervals that make up the compound interval.
-- 
2.43.0


From 6d3a1457c86af91359be6a3c935079ed20f7911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 55/91] fix: changing the returned steps of a chord changed the
 table

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 56ce328..e1a7ab1 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -635,7 +635,7 @@ class MusicTheory:
         :param chord_type: A string representing the chord name, e.g., "m7b5"
         :return: A list of interval values for the specified chord [3, 3, 4]
         """
-        return MusicTheory.chord_intervals[chord_type]
+        return list(MusicTheory.chord_intervals[chord_type])
 
     @staticmethod
     def get_chord_name(interval_list: List[int]) -> Optional[str]:
-- 
2.43.0


From ce5555309b87f14be458ca6ebd989c57ce7679ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 56/91] fix: the inverse of an interval did not complement it
 to an octave

---
 neural_graph_composer/midi/midi_scales.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index e1a7ab1..77c634f 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -989,13 +989,8 @@ class MusicTheory:
     @staticmethod
     def inverse_compound_interval(compound_interval: Interval) -> int:
         """
-        The function takes a compound_interval of type Interval, and returns its inverse.
-        It first calculates the sum of the values of the base intervals of the given
-        compound interval, and then calculates the difference between the total value
-        of the compound interval and the base intervals sum. It then constructs the
-        inverse of the base intervals by subtracting each base interval value from 12,
-        and appends the inverse of the difference to the list of inverse bases if the
-        difference is not 0.
+        The function takes a compound_interval of type Interval, and returns its inverse,
+        the interval that complements its simple part to an octave.
 
         Example:
             M2 = 2 semitones
@@ -1010,16 +1005,9 @@ class MusicTheory:
         :param compound_interval: A compound interval.
         :return: The inverse of the compound interval.
         """
-        base_intervals_sum = sum(interval for interval in MusicTheory.bases(compound_interval))
-        # delta
-        difference = compound_interval.value - base_intervals_sum
-        print(f"difference {difference}")
-        # the inverse of the base intervals where 12 is last
-        inverse_bases = [12 - val for val in MusicTheory.bases(compound_interval)]
-        if difference != 0:
-            inverse_bases.append(12 - difference)
-
-        return sum(inverse_bases)
+        if compound_interval == Interval.P8:
+            return 0
+        return 12 - compound_interval.value % 12
 
     @staticmethod
     def list_of_chords(root: int, interval: frozenset[str]) -> List[Tuple[str, List[int]]]:
-- 
2.43.0


From 6bec86dbc304252e0c5bf9b7f1986dedb5ebf029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 57/91] fix: onsets vanished from the roll where a note ended
 in the same frame

---
 neural_graph_composer/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/utils.py b/neural_graph_composer/utils.py
index c608f2e..72092cc 100644
--- a/neural_graph_composer/utils.py
+++ b/neural_graph_composer/utils.py
@@ -40,7 +40,7 @@ def pretty_midi_to_one_hot(pm, fs=100):
     -------
     one_hot : np.ndarray, shape=(128,times.shape[0])
         Piano roll of this instrument. 1 represents Note Ons,
-        -1 represents Note offs, 0 represents constant/do-nothing
+        0 represents constant/do-nothing
     """
 
     # Allocate a matrix of zeros - we will add in as we go
@@ -51,10 +51,6 @@ def pretty_midi_to_one_hot(pm, fs=100):
         for note in instrument.notes:
             # note on
             one_hot[note.pitch, int(note.start * fs)] = 1
-            print('note on', note.pitch, int(note.start * fs))
-            # note off
-            one_hot[note.pitch, int(note.end * fs)] = 0
-            print('note off', note.pitch, int(note.end * fs))
         one_hots.append(one_hot)
 
     one_hot = np.zeros((128, np.max([o.shape[1] for o in one_hots])))
-- 
2.43.0


From fe33ceca20a2673ae9658135aed1074b22253cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 58/91] fix: a note keeps its name in step with its pitch

---
 neural_graph_composer/midi/midi_note.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 1d99932..aea98e8 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -582,6 +582,7 @@ class MidiNote(MidiEvent):
     def pitch(self, value):
         assert 0 <= value <= 127, f"Pitch value {value} is outside valid MIDI range (0-127)"
         self._pitch = value
+        self.pitch_name = librosa.midi_to_note(value)
 
     @property
     def program(self):
-- 
2.43.0


From e6769cd840d7ea85ea70ab4a5f8c2f50d54f4bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 59/91] fix: the stored training and test metrics were the
 validation metrics

---
 ngc_shared.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 31c1de0..90265dc 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -297,10 +297,10 @@ class Experiments:
 
         if self.save_metrics and self.metrics_rate and self.current_epoch % self.metrics_rate == 0:
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls,
+                'test_accs': self.test_accs,
+                'test_f1s': self.test_f1s,
+                'test_precisions': self.test_precisions,
+                'test_recalls': self.test_recalls,
                 'test_aucs': self.test_aucs,
                 'test_aps': self.test_aps,
             }
@@ -344,10 +344,11 @@ class Experiments:
                 if not os.path.exists(self.metrics_dir):
                     os.makedirs(self.metrics_dir)
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls
+                'train_losses': self.train_losses,
+                'train_accs': self.train_accs,
+                'train_f1s': self.train_f1s,
+                'train_precisions': self.train_precisions,
+                'train_recalls': self.train_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_train_metrics.pt")
             torch.save(metrics, filename)
-- 
2.43.0


From 183286290cb166198dc435e4be78d3936daa0d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 60/91] fix: stored metrics were never restored with a
 checkpoint

---
 ngc_shared.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 90265dc..256d7dd 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -225,7 +225,7 @@ class Experiments:
             return
 
         checkpoint_files = glob.glob(os.path.join(checkpoint_dir, "*.pt"))
-        metrics_files = sorted(glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt")))
+        metrics_files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt")))
         if not checkpoint_files:
             print("No checkpoints found.")
             return
@@ -242,11 +242,11 @@ class Experiments:
         if self.save_metrics and f"{model_type}_train_metrics.pt" in metrics_files:
             train_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_train_metrics.pt"))
             print(f"Loaded test metric from {train_metrics}.")
-            self.train_losses = train_metrics["train_losses"]
-            self.train_accs = train_metrics["train_accs"]
-            self.train_f1s = train_metrics["train_f1s"]
-            self.train_precisions = train_metrics["train_precisions"]
-            self.train_recalls = train_metrics["train_recalls"]
+            self.train_losses = train_metrics.get("train_losses", self.train_losses)
+            self.train_accs = train_metrics.get("train_accs", self.train_accs)
+            self.train_f1s = train_metrics.get("train_f1s", self.train_f1s)
+            self.train_precisions = train_metrics.get("train_precisions", self.train_precisions)
+            self.train_recalls = train_metrics.get("train_recalls", self.train_recalls)
         if self.save_metrics and f"{model_type}_validation_metrics.pt" in metrics_files:
             val_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_validation_metrics.pt"))
             print(f"Loaded test metric from {val_metrics}.")
@@ -257,10 +257,12 @@ class Experiments:
         if self.save_metrics and f"{model_type}_test_metrics.pt" in metrics_files:
             test_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_test_metrics.pt"))
             print(f"Loaded test metric from {test_metrics}.")
-            self.test_accs = test_metrics["test_accs"]
-            self.test_f1s = test_metrics["test_f1s"]
-            self.test_precisions = test_metrics["test_precisions"]
-            self.test_recalls = test_metrics["test_recalls"]
+            self.test_accs = test_metrics.get("test_accs", self.test_accs)
+            self.test_f1s = test_metrics.get("test_f1s", self.test_f1s)
+            self.test_precisions = test_metrics.get("test_precisions", self.test_precisions)
+            self.test_recalls = test_metrics.get("test_recalls", self.test_recalls)
+            self.test_aps = test_metrics.get("test_aps", self.test_aps)
+            self.test_aucs = test_metrics.get("test_aucs", self.test_aucs)
 
         print(f"Loaded checkpoint from {checkpoint_path}.")
 
-- 
2.43.0


From 56437a7521618fa8ca7980a15fbd8702e88d035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 61/91] fix: storing validation metrics failed before anything
 else had made their folder

---
 ngc_shared.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngc_shared.py b/ngc_shared.py
index 256d7dd..27706e3 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -375,6 +375,9 @@ class Experiments:
                 'val_precisions': self.val_precisions,
                 'val_recalls': self.val_recalls
             }
+            if self.metrics_dir:
+                if not os.path.exists(self.metrics_dir):
+                    os.makedirs(self.metrics_dir)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_validation_metrics.pt")
             torch.save(metrics, filename)
 
-- 
2.43.0


From 38bc9e8291b9cd4ec9665bc2c2d7b47f5da1deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 62/91] fix: a crash while a checkpoint or metrics were saved
 left a file that cannot be loaded

---
 ngc_shared.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 27706e3..4204f6d 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -25,6 +25,15 @@ class Activation(Enum):
     Tanh = 'tanh'
 
 
+def save_atomically(obj, path):
+    """Writes a file under another name first, so that the file at the given path is always
+    complete: the old one, or the new one.
+    """
+    tmp_path = f"{path}.tmp"
+    torch.save(obj, tmp_path)
+    os.replace(tmp_path, path)
+
+
 class Experiments:
     """
     All trainer shared method.  Update metrics, save load checkpoint etc.
@@ -205,7 +214,7 @@ class Experiments:
             os.makedirs(checkpoint_dir)
         checkpoint_path = os.path.join(checkpoint_dir, f"checkpoint_{epoch}.pt")
 
-        torch.save({
+        save_atomically({
             'epoch': epoch,
             'model_state_dict': self.model.state_dict(),
             'optimizer_state_dict': optimizer_state
@@ -310,7 +319,7 @@ class Experiments:
                 if not os.path.exists(self.metrics_dir):
                     os.makedirs(self.metrics_dir)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_test_metrics.pt")
-            torch.save(metrics, filename)
+            save_atomically(metrics, filename)
 
     def update_metrics(self, loss_avg: float,
                        train_f1: Optional[float] = None,
@@ -353,7 +362,7 @@ class Experiments:
                 'train_recalls': self.train_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_train_metrics.pt")
-            torch.save(metrics, filename)
+            save_atomically(metrics, filename)
 
     def update_val_metric(self, val_acc, val_f1, val_precision, val_recall):
         """ Update validation metrics.
@@ -379,7 +388,7 @@ class Experiments:
                 if not os.path.exists(self.metrics_dir):
                     os.makedirs(self.metrics_dir)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_validation_metrics.pt")
-            torch.save(metrics, filename)
+            save_atomically(metrics, filename)
 
     def split(self, ds):
         """
-- 
2.43.0


From 3846faaaecc0109fd4f05a165c6c6d2d80d4c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:59 +0000
Subject: [PATCH 63/91] fix: removing nodes left the edges numbered by the
 nodes before and the labels of removed nodes

---
 ngc_shared.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 4204f6d..9007895 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -417,9 +417,7 @@ class Experiments:
         nodes_to_remove = np.random.choice(data.num_nodes, num_nodes_to_remove, replace=False)
         mask = torch.ones(data.num_nodes, dtype=torch.bool)
         mask[nodes_to_remove] = False
-        data.x = data.x[mask]
-        data.edge_index = data.edge_index[:, mask[data.edge_index[0]] & mask[data.edge_index[1]]]
-        return data
+        return data.subgraph(mask)
 
     def dataset_split_mask(self, split_mask_ration=0.8):
         """Compute split mask
-- 
2.43.0


From c4021be9ffc4752ba76be01eab9177f77a03ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 64/91] fix: a signature at the very end of a piece gave bars
 before it its own length

---
 neural_graph_composer/custom_pretty_midi.py | 24 +++++++++------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 2ab81e7..41fdd7c 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -761,23 +761,19 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         if not time_signatures or time_signatures[0].time > start_time:
             time_signatures.insert(0, TimeSignature(4, 4, start_time))
 
-        def index(array, value, default):
-            """ Returns the first index of a value in an array, or `default` if
-            the value doesn't appear in the array."""
-            idx = np.flatnonzero(np.isclose(array, value))
-            if idx.size > 0:
-                return idx[0]
-            else:
-                return default
+        def first_at(value):
+            """ Returns the index of the first beat at or after a time (no
+            beat is if the time is the very end of the piece)."""
+            idx = np.flatnonzero(np.isclose(beats, value) | (beats > value))
+            return idx[0] if idx.size > 0 else beats.size
 
         downbeats = []
-        end_beat_idx = 0
         # Iterate over spans of time signatures
         for start_ts, end_ts in zip(time_signatures[:-1], time_signatures[1:]):
-            # Get index of first beat at start_ts.time, or else use first beat
-            start_beat_idx = index(beats, start_ts.time, 0)
-            # Get index of first beat at end_ts.time, or else use last beat
-            end_beat_idx = index(beats, end_ts.time, start_beat_idx)
+            # Get index of first beat at or after start_ts.time
+            start_beat_idx = first_at(start_ts.time)
+            # Get index of first beat at or after end_ts.time
+            end_beat_idx = first_at(end_ts.time)
             # Add beats within this time signature range, skipping beats
             # according to the current time signature
             if start_ts.numerator % 3 == 0 and start_ts.numerator != 3:
@@ -788,7 +784,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                                  start_beat_idx:end_beat_idx:start_ts.numerator])
         # Add in beats from the second-to-last to last time signature
         final_ts = time_signatures[-1]
-        start_beat_idx = index(beats, final_ts.time, end_beat_idx)
+        start_beat_idx = first_at(final_ts.time)
         if final_ts.numerator % 3 == 0 and final_ts.numerator != 3:
             downbeats.append(beats[start_beat_idx::(final_ts.numerator // 3)])
         else:
-- 
2.43.0


From fdec53e4c776a02e998199219c763a80b2f3abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 65/91] fix: beats after a signature change used the tempo of
 after the beat it cut short

---
 neural_graph_composer/custom_pretty_midi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 41fdd7c..15e72ec 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -672,6 +672,10 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                     ts_idx += 1
                     # Update the current bpm
                     bpm = get_current_bpm()
+            # A signature change that cuts the beat short may lie before a
+            # tempo change the whole beat would have passed
+            while tempo_idx > 0 and tempo_change_times[tempo_idx] > next_beat:
+                tempo_idx -= 1
             beats.append(next_beat)
         # The last beat will pass the end_time barrier, so don't include it
         beats = np.array(beats[:-1])
-- 
2.43.0


From 9a74abc8ee441c51078c401556abfc16f713cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:38 +0000
Subject: [PATCH 66/91] fix: signatures at the same place repeated a beat

---
 neural_graph_composer/custom_pretty_midi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 15e72ec..0522136 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -670,6 +670,10 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                     next_beat = next_ts_time
                     # Update the time signature index
                     ts_idx += 1
+                    # Of several changes at the same time the last one counts
+                    while (ts_idx < len(self.time_signature_changes) - 1 and
+                           self.time_signature_changes[ts_idx + 1].time <= next_ts_time):
+                        ts_idx += 1
                     # Update the current bpm
                     bpm = get_current_bpm()
             # A signature change that cuts the beat short may lie before a
-- 
2.43.0


From a0edc3ee8dd9ad2155816a86af5d0bf6ff876b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 67/91] fix: controllers of different description were neither
 equal nor different

---
 neural_graph_composer/midi/midi_control_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index 8f0d0ed..bcc0a3e 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -52,7 +52,7 @@ class MidiBaseControlChange:
         return self.cc_number < other.cc_number
 
     def __ne__(self, other):
-        return self.cc_number != other.cc_number
+        return not self == other
 
     def __repr__(self) -> str:
         return f"MidiBaseControlChange(cc_number={self.cc_number}, description='{self.description}', " \
-- 
2.43.0


From 8d39d71f457cd87178b560ddfea391012d9ebe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 68/91] fix: the channel mode controllers all had the same
 description

---
 neural_graph_composer/midi/midi_control_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index bcc0a3e..984d08f 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -174,7 +174,7 @@ class MidiControlChange(MidiBaseControlChange):
     # Channel msg
     MIDI_CC_NAME_TO_CC.update(
         {cc_num: MidiBaseControlChange(
-            description="Channel Mode Messages {cc_num}",
+            description=f"Channel Mode Messages {cc_num}",
             cc_number=cc_num) for cc_num in range(120, 128)})
 
     MIDI_CC_NAME_TO_CC = types.MappingProxyType(MIDI_CC_NAME_TO_CC)
-- 
2.43.0


From 595ea342be16c7d06c2596d46924b5ca1b9fcae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 69/91] fix: a copied controller lost its quantization step and
 its place among others

---
 neural_graph_composer/midi/midi_control_change.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index 984d08f..ec8219b 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -377,7 +377,7 @@ class MidiControlChange(MidiBaseControlChange):
                                    Defaults to `None`, which uses the current quantized end step.
         :return: a new instance of the `MidiNote` class that is a copy of the current instance.
         """
-        return MidiControlChange(
+        copied = MidiControlChange(
             self.cc_number,
             cc_value=self.cc_value,
             cc_time=cc_time
@@ -385,11 +385,14 @@ class MidiControlChange(MidiBaseControlChange):
             program=self.program,
             instrument=self.instrument,
             is_drum=self.is_drum,
+            quantized_step=self.quantized_step,
             quantized_start_step=quantized_start_step
             if quantized_start_step is not None else self.quantized_start_step,
             quantized_end_step=quantized_end_step
             if quantized_end_step is not None else self.quantized_end_step,
         )
+        copied.seq = self.seq
+        return copied
 
     def shift_time(self, time: float) -> None:
         """Shift time
-- 
2.43.0


From f302486cb7d9ee11e05f49c33c6f6a8ce85c914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 70/91] fix: a controller that refused to be quantized was left
 half quantized

---
 neural_graph_composer/midi/midi_control_change.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index ec8219b..dd38765 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -338,13 +338,12 @@ class MidiControlChange(MidiBaseControlChange):
         :param amount:  quantization amount.
         :return:
         """
+        self.quantized_step = sps
         step = max(self.quantize_to_nearest_step(self.cc_time, sps, amount=amount), 0)
         self._quantized_start_step = step
         self._quantized_end_step = step + 1
         self._is_quantized = True
 
-        self.quantized_step = sps
-
     def quantize(self, sps: int = 4, amount: float = 0.5, min_step: Optional[int] = None):
         """Returns a new quantized control change with the specified
         number of steps per second (sps), quantization amount,
-- 
2.43.0


From 81bc23c8f2c45e6792911024f57ee32b2260f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 71/91] fix: an interval contained points and overlapped ranges
 only where it was a point itself

---
 neural_graph_composer/interval/interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/interval/interval.py b/neural_graph_composer/interval/interval.py
index 7f8551b..1e3740e 100644
--- a/neural_graph_composer/interval/interval.py
+++ b/neural_graph_composer/interval/interval.py
@@ -50,7 +50,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         if end is not None:
-            return math.isclose(begin, self.end) and end > self.begin
+            return begin < self.end and end > self.begin
         try:
             return self.overlaps(begin.begin, begin.end)
         except:
@@ -83,7 +83,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :return: True or False
         :rtype: bool
         """
-        return math.isclose(self.begin, p) and math.isclose(p, self.end)
+        return self.begin <= p < self.end
 
     def range_matches(self, other):
         """Whether the begins equal and the ends equal. Compare __eq__().
-- 
2.43.0


From f60e92bce8f72d5fe9dfce50cdcbc4c62dbb1820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 72/91] fix: an interval was at most another only if they ended
 together

---
 neural_graph_composer/interval/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/interval/interval.py b/neural_graph_composer/interval/interval.py
index 1e3740e..2d22063 100644
--- a/neural_graph_composer/interval/interval.py
+++ b/neural_graph_composer/interval/interval.py
@@ -234,7 +234,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         self._raise_if_null(other)
-        return math.isclose(self.end, getattr(other, 'end', other))
+        return self.end <= getattr(other, 'end', other)
 
     def gt(self, other):
         """Strictly greater than. Returns True if no part of this Interval
-- 
2.43.0


From d12c690829750478bc8c9edac794f6e36fea8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 73/91] fix: the nodes of a tree misplaced intervals and did
 not find them

---
 neural_graph_composer/interval/node.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index 650d026..79fd2b6 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -107,10 +107,9 @@ class Node(object):
         s_left = []
         s_right = []
         for k in intervals:
-            math.isclose(k.end, self.x_center)
             if k.begin > self.x_center:
                 s_right.append(k)
-            elif math.isclose(k.end, self.x_center):
+            elif k.end <= self.x_center:
                 s_left.append(k)
             else:
                 self.s_center.add(k)
@@ -317,14 +316,14 @@ class Node(object):
             self.search_point(j, result)
         return result
 
-    def search_point(self, point: FloatInterval, result: set):
+    def search_point(self, point, result: set):
         """
         Returns all intervals that contain point.
         """
         for k in self.s_center:
-            if point.isclose(k.begin) and point.isclose(k.end):
+            if k.begin <= point < k.end:
                 result.add(k)
-        if point.isclose(self.x_center) and self[0]:
+        if point < self.x_center and self[0]:
             return self[0].search_point(point, result)
         elif point > self.x_center and self[1]:
             return self[1].search_point(point, result)
-- 
2.43.0


From c431c8c870579f3342be95eff235b6308fa0f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 74/91] fix: the check of a tree's structure failed for every
 tree

---
 neural_graph_composer/interval/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index 79fd2b6..aa27909 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -479,7 +479,7 @@ class Node(object):
         assert (isinstance(self.s_center, set))
 
         bal = self.balance
-        assert math.isclose(abs(bal), 2.0), \
+        assert abs(bal) < 2, \
             "Error: Rotation should have happened, but didn't! \n{}".format(
                 self.print_structure(tostring=True)
             )
@@ -496,7 +496,7 @@ class Node(object):
         for iv in self.s_center:
             assert hasattr(iv, 'begin')
             assert hasattr(iv, 'end')
-            assert math.isclose(iv.begin < iv.end)
+            assert iv.begin < iv.end
             assert iv.overlaps(self.x_center)
             for parent in sorted(parents):
                 assert not iv.contains_point(parent), \
@@ -504,7 +504,7 @@ class Node(object):
                         parent, iv, self.print_structure(tostring=True)
                     )
         if self[0]:
-            assert math.isclose(self[0].x_center, self.x_center), \
+            assert self[0].x_center < self.x_center, \
                 "Error: Out-of-order left child! {}".format(self.x_center)
             self[0].verify(parents.union([self.x_center]))
         if self[1]:
-- 
2.43.0


From a4c89c528f63f3811f8c0fc314cf8ff72b8e45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 75/91] fix: most operations of a tree used names that do not
 exist

---
 neural_graph_composer/interval/intervaltree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neural_graph_composer/interval/intervaltree.py b/neural_graph_composer/interval/intervaltree.py
index 1596756..01b13cd 100644
--- a/neural_graph_composer/interval/intervaltree.py
+++ b/neural_graph_composer/interval/intervaltree.py
@@ -29,6 +29,7 @@ mbayramo@stanford.edu
 spyroot@gmail.com
 """
 from .interval import FloatInterval
+from .interval import FloatInterval as Interval
 from .node import Node
 from numbers import Number
 from sortedcontainers import SortedDict
@@ -1144,3 +1145,7 @@ class FloatIntervalTree(MutableSet):
         :rtype: tuple
         """
         return IntervalTree, (sorted(self.all_intervals),)
+
+
+# The name the methods above know the tree by
+IntervalTree = FloatIntervalTree
-- 
2.43.0


From 47ff203961b2555a1bd942e69c16b18880d9e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 76/91] fix: a process that died while a dataset was saved or
 copied left files that count as complete

---
 neural_graph_composer/midi_dataset.py | 51 +++++++++++++++++----------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 04f4bdc..1f909c7 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -417,6 +417,17 @@ class MidiDataset(InMemoryDataset):
         return hasattr(pyg_data, default_key) \
             and pyg_data.edge_attr is not None and pyg_data.weight.size(0) > 0
 
+    @staticmethod
+    def _save_atomically(obj, path):
+        """Writes a file under another name first, so that a file at the given path is always complete.
+        :param obj: what torch.save will store
+        :param path: path of the file
+        :return:
+        """
+        tmp_path = f"{path}.tmp"
+        torch.save(obj, tmp_path)
+        os.replace(tmp_path, path)
+
     def download(self):
         """ Downloads the MIDI files from the given URL and extracts them to the `raw_dir`.
          If a list of files is provided, it copies the files to the `raw_dir`
@@ -434,11 +445,13 @@ class MidiDataset(InMemoryDataset):
                     self.files[i] = p.name
                     src_path = os.path.abspath(str(p))
                     logging.debug(f"Downloading {src_path} to {dst_path}")
-                    try:
-                        shutil.copy(src_path, dst_path)
-                    except shutil.SameFileError:
+                    if os.path.exists(dst_path) and os.path.samefile(src_path, dst_path):
                         warnings.warn(f"Data raw folder already containers {src_path} {dst_path}")
-                        pass
+                    else:
+                        # a file in the raw folder is always complete.
+                        tmp_path = f"{dst_path}.tmp"
+                        shutil.copy(src_path, tmp_path)
+                        os.replace(tmp_path, dst_path)
         else:
             for raw_file in self.raw_file_names:
                 logging.debug(f"Downloading {raw_file}")
@@ -569,13 +582,13 @@ class MidiDataset(InMemoryDataset):
         _data, _slices = self.collate(self.__data_list)
         _dataset_length = len(self.__data_list)
         print(f"Saving {self.processed_dir} per_instrument_data.pt")
-        torch.save((_data, _slices, additional_data),
-                   osp.join(self.processed_dir,
-                            f'per_instrument_'
-                            f'vel_{self.include_velocity}_'
-                            f'feature_size_{self.feature_vec_size}_'
-                            f'tolerance_{str(self.tolerance)}.pt')
-                   )
+        self._save_atomically((_data, _slices, additional_data),
+                              osp.join(self.processed_dir,
+                                       f'per_instrument_'
+                                       f'vel_{self.include_velocity}_'
+                                       f'feature_size_{self.feature_vec_size}_'
+                                       f'tolerance_{str(self.tolerance)}.pt')
+                              )
         del self.__data_list
         self.__data_list = None
         # self._graph_builder = None
@@ -594,14 +607,14 @@ class MidiDataset(InMemoryDataset):
 
         _data, _slices = self.collate(self.__data_list)
         print(f"Saving {self.processed_dir} data.pt")
-        torch.save((_data, _slices, additional_data),
-                   osp.join(
-                       self.processed_dir,
-                       f'data_'
-                       f'vel_{self.include_velocity}_'
-                       f'feature_size_{self.feature_vec_size}_'
-                       f'tolerance_{str(self.tolerance)}.pt'
-                   ))
+        self._save_atomically((_data, _slices, additional_data),
+                              osp.join(
+                                  self.processed_dir,
+                                  f'data_'
+                                  f'vel_{self.include_velocity}_'
+                                  f'feature_size_{self.feature_vec_size}_'
+                                  f'tolerance_{str(self.tolerance)}.pt'
+                              ))
         del self.__data_list
         self.__data_list = None
 
-- 
2.43.0


From 1428b592146cbeba22c16c9520f920fd993e8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:17 +0000
Subject: [PATCH 77/91] fix: the transition matrix of a piece was not a number
 when one instrument had no transitions

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 0522136..f181537 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -902,7 +902,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         """
         # Sum up all matrices from all instruments defaulting zeros matrix
         pc_trans_mat = sum(
-            [i.get_pitch_class_transition_matrix(normalize, time_thresh)
+            [i.get_pitch_class_transition_matrix(False, time_thresh)
              for i in self.instruments], np.zeros((12, 12)))
 
         # Normalize accordingly
-- 
2.43.0


From 02dd46e5e24b4166f5d575bbd72ae7aa242df8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:17 +0000
Subject: [PATCH 78/91] fix: intervals close to one tempo were counted for
 another

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index f181537..5e2fad8 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -535,7 +535,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for interval in ioi:
             # If this ioi falls within a cluster (threshold is 25ms)
             if (np.abs(clusters - interval) < .025).any():
-                k = np.argmin(clusters - interval)
+                k = np.argmin(np.abs(clusters - interval))
                 # Update cluster mean
                 clusters[k] = (cluster_counts[k] * clusters[k] +
                                interval) / (cluster_counts[k] + 1)
-- 
2.43.0


From 95a80298438ecaf3d2d134345978116ce0723d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:17 +0000
Subject: [PATCH 79/91] fix: estimating the first beat failed for some pieces
 that start within 25 ms

---
 neural_graph_composer/custom_pretty_midi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 5e2fad8..9b2a335 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -734,9 +734,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             beat_signal = np.zeros(int(fs * (self.get_end_time() + 1)))
             for beat in np.append(0, beats):
                 if beat - tolerance < 0:
-                    beat_window = np.ones(
-                        int(fs * 2 * tolerance + (beat - tolerance) * fs))
-                    beat_signal[:int((beat + tolerance) * fs)] = beat_window
+                    beat_signal[:int((beat + tolerance) * fs)] = 1
                 else:
                     beat_start = int((beat - tolerance) * fs)
                     beat_end = beat_start + int(fs * tolerance * 2)
-- 
2.43.0


From 9332fd7bf59585cc160961ae443e2ba08013dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:17 +0000
Subject: [PATCH 80/91] fix: the waveform of a piece that makes no sound failed
 or was not a number

---
 neural_graph_composer/custom_pretty_midi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 9b2a335..1745624 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -963,8 +963,10 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         # Sum all waveforms in
         for waveform in waveforms:
             synthesized[:waveform.shape[0]] += waveform
-        # Normalize
-        synthesized /= np.abs(synthesized).max()
+        # Normalize, unless it is silent
+        peak = np.abs(synthesized).max(initial=0.)
+        if peak > 0:
+            synthesized /= peak
         return synthesized
 
     def fluidsynth(self, fs=44100, sf2_path=None):
-- 
2.43.0


From 56b2ee009456b5cfc1cfc5359396b56696128616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:45 +0000
Subject: [PATCH 81/91] fix: before its first signature a piece answered with
 its last one

---
 neural_graph_composer/midi/midi_sequences.py | 24 ++++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 54d943a..a1bac0d 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -33,7 +33,7 @@ import numpy as np
 from .abstract_midi_reader import MidiBaseReader
 from .midi_abstract_event import MidiEvent
 from .midi_instruments import MidiInstrumentInfo
-from .midi_key_signature import MidiKeySignature
+from .midi_key_signature import KeySignatureType, MidiKeySignature
 from .midi_note import MidiNote
 from .midi_sequence import MidiNoteSequence
 from .midi_spec import DEFAULT_PPQ, DEFAULT_QPM
@@ -576,12 +576,8 @@ class MidiNoteSequences:
         :param start_time: The MIDI start time.
         :return: A tuple representing the time signature (denominator, numerator).
         """
-        # inc ase start time negative
-        if start_time < 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
-
-        # default assumed signature
-        if self.time_signatures is None or len(self.time_signatures) == 0:
+        # default assumed signature, also before the first one
+        if not self.time_signatures or start_time < self.time_signatures[0].midi_time:
             return 4, 4
 
         i = bisect_right(self.time_signatures, start_time, key=lambda s: s.midi_time) - 1
@@ -594,12 +590,9 @@ class MidiNoteSequences:
         :param start_time:
         :return:
         """
-        # inc ase start time negative
-        if start_time < 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
-
-        if self.tempo_signature is None or len(self.tempo_signatures) == 0:
-            return DEFAULT_PPQ, DEFAULT_QPM
+        # default assumed tempo, also before the first one
+        if not self.tempo_signatures or start_time < self.tempo_signatures[0].midi_time:
+            return DEFAULT_QPM, DEFAULT_PPQ
 
         i = bisect_right(self.tempo_signatures, start_time, key=lambda s: s.midi_time) - 1
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
@@ -610,8 +603,9 @@ class MidiNoteSequences:
         :param start_time:
         :return:
         """
-        if self.key_signatures is None or len(self.key_signatures) == 0:
-            return 0, 0
+        # default assumed key, also before the first one
+        if not self.key_signatures or start_time < self.key_signatures[0].midi_time:
+            return KeySignatureType.MAJOR, 0
         i = bisect_right(self.key_signatures, start_time, key=lambda s: s.midi_time) - 1
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
-- 
2.43.0


From e41783effc78dd6a04dfeef20253b3c6b273d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:19 +0000
Subject: [PATCH 82/91] fix: a piece without tempo signatures was written at
 480 quarters a minute

---
 neural_graph_composer/midi/midi_sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a1bac0d..ae7dfa4 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -311,12 +311,12 @@ class MidiNoteSequences:
     def initial_tempo(self):
         """Return the initial tempo of the MIDI sequence, defined as the tempo
         signature with the earliest MIDI time. If there are no tempo signatures
-        in the sequence, return the default PPQ value.
+        in the sequence, return the default tempo.
 
         :return: The initial implicate tempo of the MIDI sequence.
         """
         if len(self.tempo_signatures) == 0:
-            return DEFAULT_PPQ
+            return float(DEFAULT_QPM)
 
         for seq_tempo in self.tempo_signatures:
             if seq_tempo.midi_time == 0.0:
-- 
2.43.0


From a012792f785ed00b5cd9bc76cfcd801ef9acc8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 83/91] fix: creating a piece from a file always failed

---
 neural_graph_composer/midi/midi_sequences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index ae7dfa4..95ac9a6 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -185,6 +185,11 @@ class MidiNoteSequences:
         except Exception as e:
             raise ValueError(f"Unable to load file {file_path}") from e
 
+        # readers of whole files return the piece itself
+        if isinstance(midi_data, cls):
+            midi_data.filename = file_path
+            return midi_data
+
         return cls(filename=file_path, midi_seq=midi_data)
 
     def __getitem__(self, track_idx: int) -> MidiNoteSequence:
-- 
2.43.0


From 94bd456e4ba2a963de7ad1acf23cb1f09d6c4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 84/91] fix: the initial tempo of a sequence was a time, or
 ticks a quarter note

---
 neural_graph_composer/midi/midi_sequence.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 208759a..633fa0e 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -20,13 +20,12 @@ import copy
 import itertools
 import logging
 import math
-from functools import cache
 from typing import Optional, List, Any, Union
 
 import numpy as np
 
 from .midi_note import MidiNote
-from .midi_spec import DEFAULT_PPQ
+from .midi_spec import DEFAULT_QPM
 from .midi_quantizer import MidiQuantization
 from .midi_pitch_bend import MidiPitchBend
 from .midi_time_signature import MidiTempoSignature
@@ -635,17 +634,18 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         self._quantize(sps, amount)
 
-    @cache
     def initial_tempo(self) -> float:
         """Initial temp for this seq.
         :return:
         """
         if len(self.tempo_signature) == 0:
-            return float(DEFAULT_PPQ)
+            return float(DEFAULT_QPM)
 
         for seq_tempo in self.tempo_signature:
             if seq_tempo.midi_time == 0:
-                return seq_tempo.midi_time
+                return seq_tempo.qpm
+
+        return self.tempo_signature[0].qpm
 
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
-- 
2.43.0


From a7e2bb2dfa4e9a88d59f19dd447c451cf6f0e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 85/91] fix: asking a sequence for its pitches reordered its
 notes

---
 neural_graph_composer/midi/midi_sequence.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 633fa0e..133db16 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -349,8 +349,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return: list of ints
         """
         if self.notes:
-            self.notes.sort(key=lambda n: n.start_time)
-            return [n.pitch for n in self.notes]
+            return [n.pitch for n in sorted(self.notes, key=lambda n: n.start_time)]
         return []
 
     def add_note(self, note: MidiNote) -> None:
-- 
2.43.0


From ba0109c8e59e30f4d7803bb0a699d30753c3bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 86/91] fix: computing split intervals emptied the list of
 notes it was given

---
 neural_graph_composer/midi/midi_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 133db16..5328c4a 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -445,6 +445,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         intervals = [0.0]  # start with 0 as the first interval
         notes_in_span = []
+        seq_sorted_by_time = list(seq_sorted_by_time)
 
         for split_point in num_splits:
             # update list of notes in current span
-- 
2.43.0


From 06361b4a32175e3f1e3996bd60d09b4afe2025d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 87/91] fix: a sequence whose name is not latin1 could not be
 saved

---
 neural_graph_composer/midi/callbacks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/callbacks.py b/neural_graph_composer/midi/callbacks.py
index dcec2c1..0d27250 100644
--- a/neural_graph_composer/midi/callbacks.py
+++ b/neural_graph_composer/midi/callbacks.py
@@ -41,7 +41,8 @@ def save_midi_callback(file_path: str,
     pm_instrument = pretty_midi.Instrument(
         program=instrument.instrument_num,
         is_drum=instrument.is_drum,
-        name=instrument.name)
+        # names in MIDI files are latin1
+        name=instrument.name.encode('latin1', 'replace').decode('latin1'))
 
     pm_notes = [pretty_midi.Note(
         velocity=note.velocity,
-- 
2.43.0


From 3866ddb626f3a3af7d2c7dc557feb1d7e6bacc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 88/91] fix: scaling velocities by one changed some of them,
 and silent ones became huge negative numbers

---
 neural_graph_composer/midi_graph_builder.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 3a13379..2c67c76 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -652,14 +652,10 @@ class MidiGraphBuilder:
         :return: list of rescaled velocity values
         """
         velocities = np.array(velocities)
-        # the average velocity
-        avg_velocity = np.mean(velocities)
-        # the ratio between each note's velocity and the average velocity
-        velocity_ratios = velocities / avg_velocity
         # scale the velocities using the scaling factor
-        scaled_velocities = velocity_ratios * scaling_factor * avg_velocity
-        # clip
-        clipped_velocities = np.clip(scaled_velocities, 0, 127).astype(int)
+        scaled_velocities = velocities * scaling_factor
+        # round to the nearest velocity and clip
+        clipped_velocities = np.clip(np.round(scaled_velocities), 0, 127).astype(int)
 
         return clipped_velocities.tolist()
 
-- 
2.43.0


From e2851ccae6aaaa1ddf892281018fdc6543821dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:28 +0000
Subject: [PATCH 89/91] fix: the node classifier's best test scores were those
 of the validation nodes, and the other way round

---
 minimum_example_node_classification.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/minimum_example_node_classification.py b/minimum_example_node_classification.py
index 0ec9278..f6712b2 100644
--- a/minimum_example_node_classification.py
+++ b/minimum_example_node_classification.py
@@ -397,14 +397,14 @@ class NgcTrainer(Experiments):
             mean_precision = precision_arr.mean(axis=0)
             mean_recall = recall_arr.mean(axis=0)
 
-            if mean_accuracy[1] > final_test_acc:
-                final_test_acc = mean_accuracy[1]
-            if mean_accuracy[2] > best_val_acc:
-                best_val_acc = mean_accuracy[2]
-            if mean_f1[1] > best_test_f1:
-                best_test_f1 = mean_f1[1]
-            if mean_f1[2] > best_val_f1:
-                best_val_f1 = mean_f1[2]
+            if mean_accuracy[2] > final_test_acc:
+                final_test_acc = mean_accuracy[2]
+            if mean_accuracy[1] > best_val_acc:
+                best_val_acc = mean_accuracy[1]
+            if mean_f1[2] > best_test_f1:
+                best_test_f1 = mean_f1[2]
+            if mean_f1[1] > best_val_f1:
+                best_val_f1 = mean_f1[1]
 
             if self.args.wandb:
                 wandb.log({
@@ -502,7 +502,7 @@ def main():
     ngc_trainer = NgcTrainer(args, dataset, device=device)
 
     try:
-        best_val_acc, final_test_acc, best_f1_test, best_f1_val = ngc_trainer.trainer()
+        final_test_acc, best_val_acc, best_f1_test, best_f1_val = ngc_trainer.trainer()
         print(
             f"Best validation accuracy: {best_val_acc:.5f}, "
             f"Best test  accuracy: {final_test_acc:.5f}, "
-- 
2.43.0


From 7ddaf56a504ecdaf318edf03c59062144fed01e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:31 +0000
Subject: [PATCH 90/91] fix: stretching a sequence stretches its total time,
 also beyond the last note

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 5328c4a..e7a8ff8 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -417,7 +417,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return:
         """
         [n.stretch(amount) for n in self.notes]
-        self._adjust_total_time()
+        self.total_time *= amount
 
     def truncate(self, end_time: float) -> 'MidiNoteSequence':
         """In place truncates the note sequence so that all notes end before
-- 
2.43.0


From 792f734eabddf7087b7a2b7b18942b06515e2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:31 +0000
Subject: [PATCH 91/91] fix: files of the same name from several folders do not
 replace each other in the raw folder

---
 neural_graph_composer/midi_dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 1f909c7..a726be1 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -441,8 +441,11 @@ class MidiDataset(InMemoryDataset):
                 if not p.exists():
                     raise RuntimeError(f"File not found: {raw_file}")
                 if p.is_file():
-                    dst_path = os.path.join(self.raw_dir, p.name)
-                    self.files[i] = p.name
+                    name = p.name
+                    while name in self.files[:i]:
+                        name = f"{i}_{name}"
+                    dst_path = os.path.join(self.raw_dir, name)
+                    self.files[i] = name
                     src_path = os.path.abspath(str(p))
                     logging.debug(f"Downloading {src_path} to {dst_path}")
                     if os.path.exists(dst_path) and os.path.samefile(src_path, dst_path):
-- 
2.43.0

