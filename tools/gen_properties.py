#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

CORE="src/vgm/core.py"; CMD="src/vgm/command.py"; ST="src/vgm/ym2151/state.py"
CFG="src/vgm/ym2151/config.py"; NOTE="src/vgm/ym2151/note.py"; MAIN="src/main.py"
EX="src/extractors.py"; TOOLS="src/tools.py"; SER="src/xrns/xrns_serializer.py"
WR="src/xrns/writer.py"; PAT="src/xrns/parts/pattern.py"; SONG="src/xrns/parts/song.py"
TRK="src/xrns/parts/track.py"; SEQ="src/xrns/parts/pattern_sequence.py"
DAO="src/xrns/xml/song/renoise_song65.py"

p("C01","Every VGM command consumes exactly its own bytes",
  "Decoding splits the command stream exactly at the boundaries the VGM format defines: each of the 256 command codes consumes its fixed number of operand bytes, and a data block consumes its declared length. Every command is reported once, in file order, as the kind of command its code denotes and with its own operand bytes. This holds whatever commands, operand values, block sizes or file offsets come before it.",
  ["inputs"],"all command codes, operand bytes, block sizes, command orders and file offsets",
  "The tests walk one stream holding each code once, each with one operand filling and one-byte blocks; neither other sizes, operand values, orders nor offsets are reached, and operand bytes are never compared.",
  [CORE,CMD],[("opcode dispatch","vgm.core.command"),("iteration","vgm.core.Vgm.__next__")],["iterating vgm.core.reader(file)"])
p("C02","YM2151 register writes arrive complete, unaltered and in order",
  "Every YM2151 register write in the file is delivered exactly once, in file order, with the register number and value stored in the file, repeated identical writes included. Nothing else in the file - other chips' writes, second-chip writes, operands, data-block contents - is ever delivered as a YM2151 write.",
  ["inputs"],"all 65536 register/value pairs, in every context of surrounding commands",
  "Two tests see one write (0xAA,0xDD) each; 65536 pairs, repeats and neighbours are unsampled.",
  [CORE,CFG,MAIN],[("YM2151 decode","vgm.core.command"),("dispatch to the chip state","main.process_vgm_file")],["iterating vgm.core.reader(file)","main.process_vgm_file"])
p("C03","The sample clock is the exact sum of the waits",
  "The time stamped on a key event equals the exact sum, in samples, of all waits before it in the file: the 16-bit wait, the two fixed frame waits (735 and 882), the short waits 1..16 and the waits 0..15 that follow DAC writes. No other command advances time, and the sum stays exact however long the song gets.",
  ["inputs","histories"],"all wait commands and operands, in every order and number",
  "The tests look at seven wait commands in isolation and never at accumulated time or at a stamped event.",
  [CORE,CMD,MAIN,ST],[("wait decode","vgm.command.WaitCommand"),("accumulation","vgm.ym2151.state.State.beat")],["State.key_presses(ch)[i].sample"],
  [("_samples","elapsed samples",ST)])
p("C04","The header is honoured for every VGM version",
  "For every version number and header content the reader reports the version, file size and YM2151 clock the file declares, where files older than version 1.10 store that clock in the YM2413 field. A chip is supported exactly when its clock is non-zero. Commands are decoded from the data offset the header gives from version 1.50 on, and from 0x40 before that, whatever else the header holds.",
  ["inputs"],"all version numbers, clocks, offsets and unrelated header bytes",
  "Five fixed headers are tested and no test decodes a command after a relocated data start.",
  [CORE],[("header parsing","vgm.core.Vgm.__init__")],["reader(file).version/size()/clock()/supports()/data_start","first decoded commands"],
  [("clocks","declared chip clocks",CORE),("data_start","offset of the first command",CORE)])
p("C05","Compressed files are equivalent to uncompressed ones",
  "A gzip-compressed VGM file gives exactly the header values, commands, instruments and notes of the uncompressed file. This holds for every compression level, optional gzip header field, number of gzip members and file size.",
  ["inputs","configurations"],"all gzip encodings of a file",
  "One test opens one compressed header and asserts only that a reader came back.",
  [CORE],[("gzip detection","vgm.core.reader")],["reader(file) on raw and compressed bytes"])
p("C06","A truncated file yields a prefix, never invented events",
  "When an uncompressed file is cut after any byte, the register writes and waits delivered are exactly those whose bytes lie completely before the cut, and then decoding ends or fails; for a compressed file they are a prefix of the full file's. An incomplete command is never delivered as a register write or a wait, and decoding any byte string terminates.",
  ["fault_sequences","inputs"],"all cut points of all streams in the bound, all short byte strings",
  "The tests check four read helpers on one short buffer each; no stream is cut anywhere.",
  [CORE],[("short-read detection","vgm.core._read8/_read16/_read32"),("iteration end","vgm.core.Vgm.__next__")],["iterating vgm.core.reader(cut file)"])
p("C07","Nothing after the end of sound data is played",
  "The extracted instruments, notes and timing depend only on the commands up to and including the first end-of-data command; any bytes after it (such as a GD3 tag), well-formed or not, change nothing and cause no failure. Bytes equal to the end-of-data code inside operands or data blocks do not end the song, and a song without an end-of-data command is extracted to its last command.",
  ["inputs"],"all byte strings following the end-of-data command",
  "No test has bytes after the end-of-data command and then looks at the result.",
  [MAIN,CORE],[("stop at end of sound data","main.process_vgm_file")],["main.process_vgm_file(reader(file))"])
p("C08","Unreadable input is refused and outputs stay untouched",
  "A file that does not start with the VGM signature, directly or inside gzip, is not accepted as a VGM file. When the input cannot be read to the end of its sound data (missing file, wrong signature, header, register write or wait cut short, damaged compressed data), the tool reports failure and neither creates nor changes any output file.",
  ["inputs","fault_sequences"],"all wrong signatures, all header cuts, all failing input shapes, all output option combinations",
  "One test offers the bytes 'foobar' to the reader; no test runs the tool on bad input.",
  [CORE,MAIN,EX,TOOLS],[("signature check","vgm.core.reader"),("decode everything before opening outputs","main.main")],["vgm.core.reader result","exit status and output files of main.py"])
p("C09","Registers decode as the YM2151 data sheet says",
  "The instrument and pitch parameters in force when a note starts are the data-sheet decoding (LFO, modulation depths, waveform, noise, feedback, connection, sensitivities, all per-operator envelope, level, detune and multiple fields, key code, key fraction, speaker enables) of the last value written to each register of its channel. A register write never changes any other parameter, operator or channel.",
  ["inputs","histories"],"all 65536 register/value pairs from several chip states, all register pairs",
  "Tests write a handful of values to each register from the reset state and never look at the decoded instrument; several of them fail at the pinned commit.",
  [ST,CFG,NOTE],[("register decode","vgm.ym2151.state.State.apply")],["instrument JSON and key events after a key-on"],
  [("_channel_configs","per-channel timbre",ST),("_note_configs","per-channel pitch and pan",ST),("_current_base_config","chip-global timbre",ST)])
p("C10","Two notes share an instrument exactly when their timbre is equal",
  "Two key-ons get the same instrument number if and only if all timbre parameters at key-on (chip-global LFO settings, channel settings, noise, all four operators, and the set of enabled operators) are equal; pitch, pan, channel and time never matter. Numbers are given densely in order of first use, and the number is the position in the instrument list.",
  ["histories","inputs"],"all register/key-on histories in the bound, all parameter differences",
  "The tests that look at reuse check three histories, and most of them fail at the pinned commit.",
  [ST,CFG],[("instrument lookup","vgm.ym2151.state.State.apply"),("timbre equality","vgm.ym2151.config.*.__eq__")],["State.configs","Note.config_id"],
  [("configs","instrument list",ST)])
p("C11","Recorded instruments and notes never change afterwards",
  "Once a key event has been recorded, no later register write, key event or wait changes the instrument it refers to or the event's own time, pitch and pan. The instrument list and the event lists only ever grow at the end.",
  ["histories"],"all later histories in the bound",
  "Tests read each recorded instrument once or twice, after one or two writes.",
  [ST,CFG,NOTE],[("snapshot by deep copy","vgm.ym2151.config.*.__deepcopy__"),("event snapshot","vgm.ym2151.note.Note")],["State.configs","State.key_presses"])
p("C12","Every key event is recorded once, with its moment's pitch and pan",
  "From the song's first key-on (a key write enabling at least one operator) onward, every key-on and key-off yields exactly one event, on the channel it names, in order, with the time, pitch and speaker enables in force at that moment; a first key-on at time 0 counts like any other. Key-offs before the first key-on of the song yield no event.",
  ["histories"],"all histories of key, pitch, pan and wait commands in the bound",
  "No passing test at the pinned commit records a key event at all.",
  [ST,NOTE,MAIN],[("key on/off handling","vgm.ym2151.state.State.apply")],["State.key_presses(ch) for all channels"],
  [("_channel_key_presses","per-channel event list",ST),("_first_beat","time of the first key-on",ST)])
p("C13","Between key events only the final register contents matter",
  "Reordering writes to different registers between two key events, repeating a write, or writing other values first and then the final ones changes nothing in the extracted instruments and notes. For this purpose the two modulation depths behind the shared register count as different registers.",
  ["histories"],"all permutations and redundant rewrites of the write sets in the bound",
  "Tests never apply the same writes in two orders.",
  [ST],[("independent register decode","vgm.ym2151.state.State.apply")],["instrument JSON and key events"])
p("C14","Independent extractions do not influence each other",
  "Files opened and extracted in the same process, one after another or with their steps interleaved in any way, each give the header values, commands, instruments, notes and outputs they give alone.",
  ["schedules","histories"],"all interleavings of the steps of two extractions in the bound",
  "Every test uses one reader or one chip state at a time and starts afresh.",
  [CORE,ST,CFG,EX,SONG,SER],[("per-instance state","vgm.core.Vgm.__init__, vgm.ym2151.state.State.__init__")],["two readers / states / exports stepped alternately"])
p("C15","Exports are repeatable and only read",
  "Exporting instruments, the tracker song or the track listing, or estimating the note length, any number of times and at any moment of the extraction, changes neither later exports nor the notes and instruments still to be recorded. The same export of the same song gives the same content every time.",
  ["histories"],"all placements of export operations in extraction histories in the bound",
  "No test calls any export.",
  [EX,ST,WR,SER],[("read-only exports","extractors.*"),("read-only estimate","State.ticks_per_note")],["outputs of extractors.* and State.ticks_per_note"])
p("C16","The note length is the shift with the fewest unmatched onsets",
  "Without a given note length, the estimate is the shift of 1000..7999 samples leaving the fewest unmatched onsets, the smallest such shift on ties; onsets are the distinct key-on times before sample 32000. Unmatched are onsets with no onset exactly one shift earlier, plus shifted onsets falling before the last onset where no onset is. So onsets at a regular period in that range give exactly that period.",
  ["inputs","histories"],"all onset sets in the bound, all periods in the range",
  "No test calls the estimator.",
  [ST],[("shift correlation","vgm.ym2151.state.State.ticks_per_note"),("onset set","vgm.ym2151.state.State.ticks")],["State.ticks()","State.ticks_per_note()"],
  [("_note_beats","distinct key-on times",ST)])
p("C17","The exported tempo matches the note length",
  "The exported song's tempo is the whole number of beats per minute, rounded down, for which four rows of the given note length at 44100 samples per second make one beat; the song always has four lines per beat.",
  ["inputs"],"all note lengths in the range",
  "No test exports a song.",
  [EX,SER],[("tempo computation","extractors.extract_tracks_to_xrns")],["BeatsPerMin and LinesPerBeat in Song.xml"])
p("C18","Every key event lands in its cell of the tracker grid",
  "In the exported song, each channel's key event at time t appears in that channel's track at row floor(t / note length), 64 rows to a pattern, patterns in order; when several events of a channel fall in one row the last one is shown. The grid holds nothing else, and a track lists its rows in ascending order.",
  ["inputs","histories"],"all event times around row and pattern boundaries, channels, note lengths and event sequences in the bound",
  "No test exports a song.",
  [EX,PAT,SER],[("time to cell mapping","extractors.extract_tracks_to_xrns"),("cell storage","xrns.parts.pattern.PatternPool.add_note")],["PatternPool of Song.xml"])
p("C19","Tracker cells name pitch, instrument and pan correctly",
  "A key-on cell names the pitch of its key code (twelve semitones C# to C, where the chip's C belongs to the next higher octave number), its instrument number as at least two upper-case hexadecimal digits, and a pan value that is absent exactly when both speakers are enabled, 00 for right only and F0 otherwise. A key-off cell reads Off, names no instrument and follows the same pan rule; reserved key codes still give a well-formed note name.",
  ["inputs"],"all key codes, speaker settings and instrument numbers",
  "No test exports a song or names a note.",
  [NOTE,EX],[("note naming","vgm.ym2151.note.Note.xrns_note"),("cell fields","extractors.extract_tracks_to_xrns")],["Note, Instrument and Panning of Song.xml cells"])
p("C20","The exported song is a complete, consistent Renoise document",
  "The exported file is a zip archive holding exactly one well-formed Song.xml of document version 65. Its sequence plays every pattern once in order, every pattern has one part per track including master and send, it declares exactly as many instruments as were extracted, and every instrument and pattern number used refers to a declared one. This holds for any number of patterns, tracks and instruments.",
  ["inputs","configurations"],"all song shapes in the bound",
  "No test exports a song.",
  [EX,WR,SER,SONG,TRK,SEQ,PAT],[("document rendering","xrns.xrns_serializer.XrnsSerializer.render"),("archive","xrns.writer.writer")],["zip directory and Song.xml"])
p("C21","The instrument file is valid JSON and loses nothing",
  "The instrument output is one valid JSON array listing every extracted instrument once, in number order, with its number, global settings, enabled operators, channel settings and all eleven settings of each of the four named operators, each with its exact value. Different instruments never have the same entry apart from the number.",
  ["inputs"],"all parameter values, operator sets and instrument counts in the bound",
  "Two tests encode a dictionary with one integer; no instrument is ever encoded.",
  [CFG,EX],[("JSON encoding","vgm.ym2151.config.ConfigEncoder and repr_json"),("output","extractors.extract_instruments")],["the file written by extractors.extract_instruments"])
p("C22","The track listing shows every row and every key event",
  "The comma-separated track listing has a header and one line per row from row 0 to the row of the last key event, numbered with total row, pattern and row in pattern (64 rows to a pattern). Each channel's column holds the text of that channel's last key event in that row (note, octave, detune, instrument number and pan side, or Key Off) and is empty otherwise; without key events there is only the header.",
  ["inputs","histories"],"all event sequences around row and pattern boundaries in the bound",
  "No test writes a listing.",
  [EX,NOTE],[("row merge over channels","extractors.extract_tracks"),("event text","vgm.ym2151.note.Note.__str__")],["the file written by extractors.extract_tracks"])
p("C23","The command line produces exactly the requested outputs",
  "Run on a readable file, the tool exits successfully and writes the instrument file and the tracker song exactly when asked for each, with the content that belongs to the file's notes and instruments, and touches no other file. The tracker song uses the note length given on the command line, or the estimated one when none (or 0) is given.",
  ["configurations","inputs"],"all option combinations over the songs in the bound, raw and compressed",
  "No test runs the tool.",
  [MAIN,EX,TOOLS],[("option handling","main.main")],["exit status and files written by main.py"])
p("C24","'-' means the standard stream; named files are always closed",
  "The name '-' (or no name) stands for standard input or output according to the mode, in its binary form for binary modes, and the stream is left open. Any other name opens exactly that file in the given mode and the file is closed when its use ends, normally or by an error, which is passed on. A mode that neither reads nor writes is refused for a standard stream.",
  ["inputs","fault_sequences"],"all names, modes and ways to leave, in every nesting in the bound",
  "No test opens anything through it.",
  [TOOLS,EX,MAIN],[("stream selection and closing","tools.smart_open")],["the handle given out, its closed state, open file descriptors"])
p("C25","A failed output is never reported as success",
  "If writing an output fails after any number of bytes, or the output cannot be opened, the export fails with an error instead of returning normally, and the tool exits unsuccessfully. The extraction result is unharmed: exporting again to a working destination gives the complete output.",
  ["fault_sequences"],"all byte positions at which an output can fail",
  "No test writes any output, let alone a failing one.",
  [EX,WR,TOOLS,MAIN],[("errors propagate","extractors.*, xrns.writer.writer, tools.smart_open")],["exception or exit status of exports under a file-size limit"])
p("C26","The Renoise document model serialises without loss",
  "For every element type of the Renoise song format (document version 65) and every optional part of it, a document carrying that part is written under the format's own element or attribute name and reads back equal; a value chosen by its name from one of the format's value lists is written as that value. The song template shipped with the project reads completely and survives being written and read again.",
  ["inputs"],"all element types with each single optional part (and pairs), all enumeration values",
  "No test touches the document model.",
  [DAO],[("schema bindings","xrns.xml.song.renoise_song65")],["XML rendered from and parsed into the bindings"])
p("C27","The printed note length estimates are the ten best",
  "When the note length is estimated, the ten shifts with the fewest unmatched onsets are printed, best first and the smaller first on ties, each with its percentage of matched onsets: 100 * (1 - unmatched / (2n - 1)) for n onsets, to two decimals. The first one is the estimate. The tool announces exactly the note length that the exported song uses, and prints no estimates when one is given.",
  ["inputs"],"all onset sets in the bound, all option combinations over the songs in the bound",
  "No test calls the estimator or reads what the tool prints.",
  [ST,MAIN],[("printed ranking","vgm.ym2151.state.State.ticks_per_note"),("announced length","main.main")],["standard output"])
p("C28","Outputs depend only on the input's content and the options",
  "Running the tool on the same content with the same options decodes the same header values, writes the same instrument file, listing and song document and prints the same report in every environment: hash seed, locale, time zone, date, interpreter optimisation, current and home directory, standard input, kind of standard output, path of the sources, umask, and the input's name and time stamps do not matter. Neither do earlier runs, and a run leaves nothing behind besides its outputs.",
  ["configurations","histories"],"all environments with up to the stated number of deviations from a plain one, all histories of earlier runs in the bound",
  "The tests run in one environment and write no output.",
  [MAIN,EX,CFG,SER,WR],[("outputs","extractors.*, xrns.writer.writer"),("reader choice","vgm.core.reader")],["files written and text printed by runs in separate interpreters"])
p("C29","Chip state and instruments read back what was written",
  "After any register writes, each named value readable from the live chip state (global LFO, waveform and modulation depths; each channel's settings and its four operators') is the decoded last value written. Each named value readable from an extracted instrument equals the one in its instrument file entry.",
  ["inputs","histories"],"all register writes, pairs and sequences in the bound, read back after every step",
  "Tests read some values back after one write of one value.",
  [ST,CFG],[("live state","vgm.ym2151.state.State.channel_config, __getattr__"),("instrument attributes","vgm.ym2151.config.Config.__getattr__")],["attributes of State, State.channel_config() and State.configs[]"])
p("C30","Parameter sets are equal exactly when every parameter is",
  "Two sets of global, operator, channel or note parameters compare equal exactly when every parameter is equal, in both directions, and never equal anything of another kind. A copy is equal and independent: changing either leaves the other and newly made sets alone. An instrument matches given settings exactly when all its global and channel parameters and its operator set are equal.",
  ["inputs"],"every parameter with all pairs of its values, every pair of parameters, every change to original or copy",
  "No test compares or copies parameter sets.",
  [CFG],[("equality and copies","vgm.ym2151.config.BaseConfig, OperatorConfig, NoteConfig, ChannelConfig"),("matching","vgm.ym2151.config.Config.compare")],["==, !=, deepcopy and Config.compare"])
p("C31","Every setting of a song's parts reaches the document",
  "A written song document carries every global setting, every track's name, state and solo flag with its mixer device, the last cell put in each place and no other, and the pattern sequence as given, whatever the order of building; note tracks show the panning column and the first eight have distinct colours. Songs built side by side do not mix. The exporter's song has eight active tracks named Track 1 to Track 8.",
  ["inputs","histories"],"all settings and values, track counts and building sequences in the bound",
  "No test builds or writes a song.",
  [SER,SONG,TRK,PAT,SEQ,WR],[("rendering of parts","xrns.xrns_serializer.XrnsSerializer"),("parts","xrns.parts.*")],["Song.xml written by xrns.writer.writer"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x)+"\n")
    print(len(P))
