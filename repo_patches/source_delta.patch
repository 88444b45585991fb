From c439f7fce7de0b299e64950fe88b54ddd674c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 01/10] fix: record key events of a song whose first key-on is
 at sample 0

---
 src/vgm/ym2151/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index b4e51e8..1da15b7 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -65,10 +65,10 @@ class State:
                 else:
                     config_id = -1
 
-            if op and not self._first_beat:
+            if op and self._first_beat is None:
                 self._first_beat = self._samples
 
-            if self._first_beat:
+            if self._first_beat is not None:
                 note = Note(config_id, self._note_configs[ch], self._samples)
                 self._channel_key_presses[cmd.value & 0x7].append(note)
             if config_id >= 0:
-- 
2.43.0


From f1d23dd37129b393194a70def5ba976c6e555edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 02/10] fix: keep all five bits of the second decay rate (D2R)

---
 src/vgm/ym2151/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index 1da15b7..342d354 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -141,7 +141,7 @@ class State:
                 cmd.value >> 6
             ) & 0x03
             self._channel_configs[channel].operators[operator].second_decay_rate = (
-                cmd.value & 0x0F
+                cmd.value & 0x1F
             )
         elif cmd.reg & 0xE0 == 0xE0:
             self._channel_configs[channel].operators[operator].first_decay_level = (
-- 
2.43.0


From bb755a812eb1af6a1e543d62f4d3983083ae2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 03/10] fix: give each Vgm reader its own chip clocks

---
 src/vgm/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 1f9e365..13a6ce6 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -44,10 +44,11 @@ def _read_bcd(file: Union[BinaryIO, gzip.GzipFile]) -> int:
 
 class Vgm:
     data_start = 0x40
-    clocks: Dict[str, int] = {}
+    clocks: Dict[str, int]
 
     def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
         self.file = f
+        self.clocks = {}
         self.eof_offset = _read32(self.file)
         self.version = _read_bcd(self.file)
         _read32(self.file)
-- 
2.43.0


From 7cbd05f19d5180a85a3dd776d760bae45bcc0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 04/10] fix: count the wait of the DAC write commands 0x80-0x8F

---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 13a6ce6..b9ee669 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -89,7 +89,6 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         or (cmd_id == 0x60)
         or (0x64 <= cmd_id <= 0x65)
         or (0x69 <= cmd_id < 0x70)
-        or (0x80 <= cmd_id < 0x90)
         or (0x96 <= cmd_id < 0xA0)
     ):
         return VgmCommand(cmd_id)
@@ -133,6 +132,9 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return VgmCommand(cmd_id, f.read(ss))
     elif cmd_id < 0x80:
         return WaitCommand(cmd_id)
+    elif cmd_id < 0x90:
+        # YM2612 DAC write, then wait n samples
+        return WaitCommand(cmd_id, cmd_id & 0x0F)
     elif cmd_id < 0x92:
         return VgmCommand(cmd_id, f.read(4))
     elif cmd_id == 0x92:
-- 
2.43.0


From 000096e2e07ae6c79ef3afc6aa64fba68c10dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 05/10] fix: stop at the end of sound data instead of playing
 what follows (GD3 tag)

---
 src/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.py b/src/main.py
index 4c01507..b83c874 100644
--- a/src/main.py
+++ b/src/main.py
@@ -16,6 +16,8 @@ def process_vgm_file(cmds):
             st.apply(cmd)
         elif isinstance(cmd, vgm.core.WaitCommand):
             st.beat(cmd.samples)
+        elif isinstance(cmd, vgm.core.EOSCommand):
+            break
 
     return st
 
-- 
2.43.0


From 43f34818ffee698bd25360504157bfd7f3a87483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 06/10] fix: main() uses its own argument, not the script's
 global

---
 src/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.py b/src/main.py
index b83c874..d73de82 100644
--- a/src/main.py
+++ b/src/main.py
@@ -29,7 +29,7 @@ def main(
     ticks_per_note: int = None,
 ):
     with smart_open(vgm_filename, "rb") as f:
-        print("Opening file: {}".format(args.file))
+        print("Opening file: {}".format(vgm_filename))
         cmds = vgm.core.reader(f)
 
         s = process_vgm_file(cmds)
-- 
2.43.0


From 12a33667db15bed4dd2a4f13745b8527f9f5c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 07/10] fix: compute the tempo in integers, 1500 ticks per note
 is 441 BPM and not 440

---
 src/extractors.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 42c2d1e..4133786 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -20,10 +20,8 @@ def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
     notes_per_beat = 4
     line_count = 64
 
-    note_length = ticks_per_note / sample_freq
-    beat_length = note_length * notes_per_beat
-    bpm = 60 / beat_length
-    song.globals.beats_per_min = int(bpm)
+    bpm = 60 * sample_freq // (ticks_per_note * notes_per_beat)
+    song.globals.beats_per_min = bpm
 
     for ch in range(channel_count):
         for n in s.key_presses(ch):
-- 
2.43.0


From 04c695239be3e02d6dca760e170a7d75efbea9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 08/10] fix: '-' in a binary mode is the binary standard stream

---
 src/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools.py b/src/tools.py
index 37c2f18..11fa50f 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -7,14 +7,14 @@ def smart_open(filename: str, mode: str):
     if filename and filename != "-":
         fh = open(filename, mode)
     elif mode.startswith("w"):
-        fh = sys.stdout
+        fh = sys.stdout.buffer if "b" in mode else sys.stdout
     elif mode.startswith("r"):
-        fh = sys.stdin
+        fh = sys.stdin.buffer if "b" in mode else sys.stdin
     else:
         raise Exception("Unknown mode")
 
     try:
         yield fh
     finally:
-        if fh is not sys.stdout and fh is not sys.stdin:
+        if filename and filename != "-":
             fh.close()
-- 
2.43.0


From a6ad2d8ab2282f2e8edfd03601be8054b5a706eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 09/10] fix: write the last row of the track listing

---
 src/extractors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extractors.py b/src/extractors.py
index 4133786..8dd973a 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -110,6 +110,16 @@ def extract_tracks(s, track_filename, ticks_per_note):
                     except StopIteration:
                         del channel_notes[ch]
 
+        if any(note_row):
+            row = [
+                str(current_sample),
+                str(total_row % line_count),
+                str(total_row // line_count),
+                str(total_row),
+                "{:.2}".format((current_sample / ticks_per_note) % 1),
+            ] + note_row
+            fo.write(f'{",".join(row)}\n')
+
 
 def extract_instruments(instr_filename, s):
     print(f"Writing instruments to {instr_filename}...")
-- 
2.43.0


From 60a861f340eeead47f2a03a51e8029e906420b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 10/10] fix: refuse a file whose header is cut short instead of
 extracting an empty song

---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index b9ee669..c9c4174 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -61,7 +61,9 @@ class Vgm:
         if self.version >= 150:
             self.data_start = 0x34 + _read32(self.file)
 
-        self.file.seek(self.data_start, io.SEEK_SET)
+        # The header must be there up to its last byte, seeking alone can't tell.
+        self.file.seek(self.data_start - 1, io.SEEK_SET)
+        _read8(self.file)
         return
 
     def size(self) -> int:
-- 
2.43.0

