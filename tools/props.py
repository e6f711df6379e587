# Single source of the property list: properties.jsonl is generated from it by gen_meta.py.
def P(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe, hook_needed=hook))

PROPS = [
P("C01", "Escape decoding never crashes, always progresses, accounts for every byte",
  "For any byte string, decoding it as terminal input (one step at a time, or to the end of the stream) never panics and never loops without consuming, every step consumes no more than what is there, and at end of input the whole string has been consumed. The decoded items account for the input: each plain character and control is delivered once and in order, each complete escape or control sequence is delivered once with exactly its own parameter bytes, no item is delivered that no byte stands for, and only a cancelled sequence and ignorable deletes inside a sequence may vanish. The argument decoders (numbers, points, modes, graphic rendition, mouse reports) likewise never panic and never report having consumed more than they were given.",
  ["inputs"], "all byte strings: printable text, UTF-8 (valid, truncated, overlong), C0/C1 controls, ESC/CSI/OSC/DCS/PM/APC sequences complete, nested, truncated, cancelled and malformed",
  "decode_test.go checks a few dozen well-formed strings; in-place rewriting of the buffer by the decoder, malformed and truncated sequences and their combinations are unsampled.",
  ["ansi/decode.go", "input.go", "buffer.go"],
  [("escape state machine with in-place normalisation", "ansi/decode.go DecodeEscape/decodeESC/decodeCSI/decodeString"), ("argument decoders", "ansi/decode.go DecodeNumber/DecodeSGR/DecodeMode/DecodePoint, ansi/mouse.go")],
  ["ansi.DecodeEscape", "ansi.DecodeRune", "ansi.DecodeSGR", "ansi.DecodeNumber", "anansi.Input.Decode"]),
P("C02", "Reading terminal input: decoded events do not depend on how reads are chunked",
  "The sequence of runes and escape sequences (with arguments) decoded from a terminal input stream is the same however the stream's bytes are split across reads and however decoding is interleaved with reading, because an unfinished UTF-8 character, control sequence or control string is held until its remaining bytes arrive or the stream ends. The one permitted exception is a split right after a lone ESC (or inside a two-character escape's intermediates), where the ESC may be delivered as a key press. An unfinished sequence never blocks the delivery of what was already complete before it.",
  ["inputs", "schedules"], "all input streams and all ways of splitting them into successive reads (blocking and non-blocking), with decode calls interleaved at any point",
  "input_test.go feeds each sample whole or at one split; splits inside multi-byte runes, arguments and string terminators, and mixtures of them, are not covered.",
  ["input.go", "ansi/decode.go"],
  [("hold-back of incomplete sequences until EOF", "input.go Input.decodeRune"), ("C1 normalisation on partial sequences", "ansi/decode.go DecodeEscape")],
  ["anansi.Input.Decode over os.Pipe"]),
P("C03", "Writing to virtual buffers: effect does not depend on how writes are chunked",
  "Writing terminal output to a virtual screen, a virtual cursor or a processed buffer has the same effect on screen cells, cursor position, attributes and visibility however the bytes are divided into write calls: a character or sequence split between two writes takes effect once, when completed, and never as stray text. No stream of writes can hang or crash the processing, and no byte is processed twice or skipped.",
  ["inputs", "schedules"], "all output byte streams and all divisions of them into successive writes of any kind (bytes, strings, runes, sequences)",
  "screen_test.go and cursor_test.go write whole sequences in one call.",
  ["buffer.go", "screen.go", "cursor.go", "ansi/decode.go"],
  [("processed-offset bookkeeping and partial hold-back", "buffer.go Buffer.Process/Process/Skip/Discard")],
  ["anansi.VirtualScreen.Write*", "anansi.VirtualCursor.Write*", "anansi.Buffer.Process"]),
P("C04", "Escape sequences encode and decode as inverses",
  "Any control, escape sequence or control sequence built from an identifier with byte and/or integer arguments encodes to bytes that decode back to the same identifier and the same arguments, consuming exactly the encoded bytes, whatever follows them. Derived sequences (adding arguments, mode set/reset, cursor positions) never alter the sequence they were derived from, the encoded length never exceeds the size announced for buffering, and decoding numbers, points and modes inverts their encoding over the full 32-bit range, reporting out-of-range values as errors.",
  ["inputs"], "all identifiers (C0, C1, ESC, character-set and CSI functions), all legal argument byte strings and integer lists of any length, all 32-bit numbers, all derivation chains with shared prefixes",
  "control_test.go has a handful of examples and decode tests go one way only.",
  ["ansi/control.go", "ansi/escape.go", "ansi/decode.go", "ansi/modes.go", "buffer.go"],
  [("argument storage with static and spill-over slots", "ansi/control.go Seq.With/WithInts/AppendTo"), ("number decoding with range check", "ansi/decode.go DecodeNumber")],
  ["ansi.Escape.With", "ansi.Seq.AppendTo", "ansi.Escape.AppendWith", "ansi.DecodeEscape", "ansi.Mode.Set/Reset", "Buffer.WriteESC/WriteSeq"]),
P("C05", "Graphic attributes: minimal updates reach the target state and codec round-trips",
  "For any two graphic rendition states, applying the computed difference to the first yields exactly the second, applying the computed merge agrees with what a terminal does with the encoded sequence, and encoding a state then decoding it returns that state, for every combination of text attributes and default, indexed or 24-bit foreground and background colours. Merging nothing changes nothing, a clear discards everything before it, and the encoded form never exceeds its announced size. The decoder interprets a list of rendition codes strictly left to right and rejects malformed ones with an error at a position inside the argument.",
  ["inputs"], "all pairs of attribute values: every flag subset times {none, 16, 256, RGB} colours for both grounds, explicit clear or not; all SGR parameter strings over the supported codes",
  "sgr_test.go has 6 examples.",
  ["ansi/sgr.go", "ansi/decode.go"],
  [("attribute diff/merge algebra", "ansi/sgr.go SGRAttr.Diff/Merge/SansFG/SansBG"), ("codec", "ansi/sgr.go AppendTo, ansi/decode.go DecodeSGR")],
  ["SGRAttr.Diff", "SGRAttr.Merge", "SGRAttr.AppendTo", "SGRAttr.Size", "ansi.DecodeSGR"]),
P("C06", "Colour conversion: exact where possible, nearest entry otherwise",
  "Converting a colour to a palette of any size returns an entry of that palette at minimal distance from it, a colour whose RGB value is in the palette maps to an entry of that same value, and 24-bit conversion of a palette index yields that index's standard RGB value and is idempotent. Converting to and from the standard image colour model preserves the RGB components, and composing several colour models applies them in order without altering the models composed. Palette construction never aliases or disturbs another palette.",
  ["inputs"], "all 24-bit colours and palette indices, palettes of every supported size, arbitrary stacks of colour models",
  "No existing test covers colours.go conversions.",
  ["ansi/colors.go", "ansi/sgr.go"],
  [("palette index and distance", "ansi/colors.go Palette.Index/Convert"), ("model composition", "ansi/colors.go ColorModels")],
  ["ansi.Palette.Convert", "ansi.SGRColor.To24Bit", "ansi.ColorModels", "SGRColor.RGBA"]),
P("C07", "Screen geometry agrees with image geometry shifted by one",
  "Screen points and rectangles obey the same algebra as image points and rectangles, offset by the 1,1 origin: conversion in either direction is lossless, and add, subtract, difference, containment, intersection, union, inset, overlap, emptiness and canonical form commute with conversion. Constructors and conversions reject every coordinate that is not a valid screen coordinate and accept every one that is.",
  ["inputs"], "all points and rectangles (well-formed, empty, inverted, touching, nested, disjoint) and all pairs of them",
  "geom.go has no tests of its own.",
  ["ansi/geom.go"], [("rectangle algebra", "ansi/geom.go Rectangle.*"), ("origin conversion", "ansi/geom.go RectFromImage/PtFromImage/ToImage")],
  ["ansi.Rectangle", "ansi.Point"]),
P("C08", "Mouse reports decode to exactly the encoded state and position",
  "Every well-formed extended mouse report decodes to the button, modifiers, motion, wheel and release state and the position it encodes, with presses and releases told apart only by the final letter; anything malformed (out-of-range code, missing or extra arguments) yields an error and no state. The press, release, motion and drag classifications are mutually consistent, with the button identity and description agreeing with the state bits for all states.",
  ["inputs"], "all 256 state codes, all positions, both finals, and all malformed argument strings",
  "No existing test decodes a mouse report.",
  ["ansi/mouse.go", "x/platform/event.go"], [("xterm extended mouse decode", "ansi/mouse.go DecodeXtermExtendedMouse"), ("state predicates", "ansi/mouse.go MouseState.*")],
  ["ansi.DecodeXtermExtendedMouse", "ansi.MouseState"]),
P("C09", "Screen emulation follows terminal semantics and never escapes its bounds",
  "Writing any supported output (text, CR, LF, cursor moves, erases, graphic rendition, cursor visibility) to a virtual screen leaves cells, attributes and cursor as a terminal of that size would under the documented subset: text lands at the cursor with the current attributes and wraps at the right edge, moves are clamped to the screen, and erases clear exactly the cells the sequence names, inclusive of the cursor cell. Unsupported or malformed sequences change nothing, and the cursor and all writes stay within the screen whatever is written and whatever its size.",
  ["inputs", "histories"], "all sequences of output over the supported subset mixed with unsupported, malformed and out-of-range ones, on all screen sizes including 1x1, with resizes and sub-screens between them",
  "screen_test.go runs scripted sequences on one or two sizes.",
  ["screen.go", "state.go", "grid.go"],
  [("emulator", "state.go Screen.ProcessANSI/processEscape/linefeed/clamp")],
  ["anansi.VirtualScreen.Write*", "Screen.Cursor", "Screen.Rune/Attr"]),
P("C10", "Differential rendering leaves the terminal showing exactly the virtual screen",
  "After every successful flush of a virtual screen, a terminal that applied all bytes written so far shows in every cell the virtual screen's rune and attributes (blank where empty), with the user cursor's position, attributes and visibility in effect when it is shown and the cursor hidden otherwise. This holds for any history of drawing, clearing, resizing, invalidating and flushing, whether the update was full or differential, and a flush with no change since the previous one repaints no cells. Styles given to a write only change what it shows to their results.",
  ["histories", "inputs"], "all histories of frames: arbitrary cell edits, full redraws, resizes, invalidations, user cursor changes, starting from any prior terminal content",
  "render/screen tests compare the emitted bytes of a few frames against golden strings; they do not interpret the bytes on a terminal and never cover moves within one column, last-column cells or attribute carry-over across frames.",
  ["screen.go", "render.go", "state.go", "cursor.go"],
  [("full/differential grid writer", "render.go writeGridFull/writeGridDiff"), ("relative cursor motion", "state.go Cursor.To"), ("attribute carry-over", "state.go Cursor.MergeSGR"), ("known screen state", "screen.go ScreenDiffer.Real")],
  ["bytes written by ScreenDiffer.WriteTo, interpreted by an independent terminal model"]),
P("C11", "Interrupted screen output resumes or recovers without corrupting the display",
  "When writing a screen update is cut short because the terminal would block, continuing later sends exactly the bytes not yet accepted, in order and once, even if more drawing was done in between; when it fails otherwise, nothing stale is ever sent and the next successful update repaints everything. In both cases the first later flush that completes with nothing pending leaves the terminal showing exactly the virtual screen and user cursor.",
  ["fault_sequences", "histories"], "every byte position at which a write can be cut short, would-block and hard errors in any order, over all frame histories with drawing between retries",
  "screen_test.go has no failing writer; the only would-block test drives a single scripted exchange.",
  ["screen.go", "buffer.go", "output.go", "cursor.go"],
  [("resume after would-block, invalidate after errors", "screen.go ScreenDiffer.WriteTo"), ("known screen state", "screen.go Real")],
  ["bytes accepted by a fault-injecting writer", "error results of ScreenDiffer.WriteTo"]),
P("C12", "Tracked cursor state matches the terminal's cursor",
  "The cursor state tracked while output is composed for a terminal equals what that terminal's cursor has after receiving the output: position, graphic attributes and visibility, for any mix of text, moves, raw sequences, attribute changes, show/hide and applied cursor states. Moving to a point always arrives there, whatever the starting position and whichever absolute or relative form was chosen, and emits nothing when already there. Discarding unwritten output restores the state last written, and a failed write forgets what is no longer known.",
  ["histories", "inputs"], "all operation sequences on a virtual cursor within the screen's bounds, all pairs of start and target points, writes interleaved with resets, would-blocks and errors",
  "cursor_test.go checks five scripted steps.",
  ["cursor.go", "state.go", "buffer.go"],
  [("cursor model", "state.go Cursor.To/MergeSGR/Show/Hide/ApplyTo/ProcessANSI"), ("virtual/real split", "cursor.go VirtualCursor")],
  ["anansi.VirtualCursor", "Cursor.To", "Cursor.ApplyTo"]),
P("C13", "Flushing output delivers every byte once, even to a slow terminal",
  "Flushing a buffer to a terminal delivers all of its bytes exactly once and in order no matter how slowly the other side drains them and how often writes are cut short, in blocking and non-blocking use alike. File status flags changed for that purpose are as before when the flush returns, errors are reported and not retried forever, and the flushed/stalled accounting agrees with what was delivered.",
  ["schedules", "fault_sequences"], "all payload sizes relative to the kernel buffer, all reader paces, write-closed peers, blocking and non-blocking descriptors",
  "No existing test flushes to a descriptor that fills up.",
  ["output.go", "buffer.go", "term.go"],
  [("would-block loop with blocking fallback", "output.go Output.Flush")],
  ["bytes read from the other end of a pipe or pty", "fcntl flags before and after"]),
P("C14", "Grid regions: drawing, clearing and sub-grids touch exactly their own cells",
  "Any operation on a grid region (sub-grid, clear, draw with or without styles, resize) changes only cells inside that region's rectangle and reads only cells of the source region, for every combination of sizes, offsets, nesting and overlap of source and destination rectangles. Drawing places the source's top-left cell at the destination's top-left cell and covers the intersection of both sizes, each cell being what the composed style returns, and a transparent result leaves the cell untouched. Taking a sub-region clamps to its parent, and returning to the full region recovers the original grid. Resizing a grid brings back no cell that had been replaced or cut off before. Two regions compare equal exactly when they have the same size and cells.",
  ["inputs", "histories"], "all grid sizes and sub-rectangles (empty, out of range, nested), all style stacks, all sequences of resize/clear/draw",
  "draw_test.go and grid_test.go use a few fixed rectangles.",
  ["grid.go", "draw.go", "style.go"],
  [("stride arithmetic", "grid.go CellOffset/SubRect/Resize/Clear"), ("cell copy loops", "draw.go DrawGrid/copyGrid")],
  ["Grid.Rune/Attr before and after"]),
P("C15", "Bitmaps render each bit to its own braille dot, everywhere",
  "A bitmap parsed or loaded from data reads back bit for bit, setting a bit changes that bit alone and points outside read as unset and write nothing. Rendered as text or drawn into a grid, every 2x4 block of bits becomes the braille character with exactly those dots, blocks cut by the right or bottom edge having their missing dots unset, for every size, alignment and sub-bitmap. The rendered size equals the announced size in runes, rows being separated by exactly one line break.",
  ["inputs"], "all bitmap sizes and contents, data lengths that do not fill the last row, sub-bitmaps at any offset, all styles",
  "draw_test.go renders three fixed pictures.",
  ["bitmap.go", "draw.go", "render.go"],
  [("bit indexing and braille packing", "bitmap.go Bitmap.Rune/index/Load/ParseBitmap")],
  ["Bitmap.Get/Rune", "WriteBitmap output", "DrawBitmap into Grid"]),
P("C16", "Style stacks compose like the functions they stand for",
  "A combination of styles acts on every cell as applying each of its members in turn, flattening nested combinations and ignoring no-op members, and combining never changes the styles combined or any other combination built from them. The built-in fill, default, zero, transparency and attribute styles transform exactly the cells they describe and leave all others unchanged.",
  ["inputs", "histories"], "all lists and nestings of styles, all cell contents (point, prior and new rune and attribute)",
  "draw_test.go exercises styles only through a few drawings.",
  ["style.go"], [("style flattening", "style.go Styles"), ("built-in styles", "style.go *Style")],
  ["Style.Style results"]),
P("C17", "Terminal contexts: everything entered is exited, in reverse, whatever fails",
  "Running a function with a terminal enters all attached contexts in order and afterwards exits them in reverse order, exactly once each, whether the function returns, fails or panics, and whether entering or exiting some context fails; the first error is reported and a panic still propagates. A terminal suspended and resumed any number of times from inside keeps every context's enters and exits balanced and strictly alternating, and is in the same state after the nested call as before it. Composing contexts never alters another composition built from the same parts.",
  ["fault_sequences", "programs"], "all lists of contexts, every subset of enter/exit/close failures and panics at every point, all nestings of run-with and run-without",
  "No existing test exercises Term or Contexts with failing contexts.",
  ["term.go", "context.go"], [("enter/exit/close state machine", "term.go Term.RunWith/RunWithout/Close"), ("context composition", "context.go Contexts")],
  ["call log of recording contexts"]),
P("C18", "Leaving a terminal restores its attributes, flags and modes",
  "After a program releases its terminal in any way (normal return, error, panic, suspend), the terminal's line discipline settings and file status flags equal what they were before, and every terminal mode that was set has been reset, in reverse order, with the cursor visible and attributes cleared when a screen was in use. While held, raw and echo settings are those requested, and changing them takes effect at once and does not defeat the restoration; a setting that could not be made or restored is reported.",
  ["programs", "fault_sequences", "configurations"], "all attribute requests before and during use, nested suspends, initial settings of the terminal, all mode lists",
  "No existing test opens a terminal.",
  ["attr.go", "mode.go", "term.go", "input.go", "output.go", "screen.go"],
  [("saved termios", "attr.go Attr.Enter/Exit"), ("mode set/reset sequences", "mode.go Mode"), ("saved fcntl flags", "input.go/output.go Enter/Exit")],
  ["tcgetattr and fcntl on a pty, bytes seen on its master side"]),
P("C19", "Terminal input loses, duplicates and reorders nothing",
  "Every byte arriving on a terminal's input is delivered exactly once and in order to the decoder across any interleaving of blocking reads, non-blocking reads and decoding, whatever the arrival pattern, and a read reports exactly the number of bytes it added. A non-blocking read takes everything available and never waits, a blocking read waits for at least one byte, end of file is reported once all bytes have been delivered, and asking for asynchronous notification delivers one for input that arrives.",
  ["schedules", "inputs"], "all arrival patterns and sizes around the read buffer, all interleavings of blocking/non-blocking reads and decodes, end of file at any point",
  "input_test.go scripts a few reads on a pipe.",
  ["input.go"], [("growing read buffer", "input.go readBuf/ReadMore/ReadAny"), ("fcntl modes", "input.go setNonblock/setAsync/Notify")],
  ["Input.ReadMore/ReadAny results", "Input.Decode", "fcntl flags"]),
P("C20", "Recorded input replays to the same bytes, times and errors",
  "Input recorded to a file and loaded back yields one frame per recorded read with exactly the bytes of that read, its time and its error, in order, and the replay's bytes concatenated equal the bytes read. This holds for any input content, including escape sequences, control strings and characters split between reads, for any number and size of frames, and for recordings with messages mixed in, which are kept with their frame; a complete application program command string met in the input stands for such a message, since the format reserves it.",
  ["inputs", "histories"], "all input contents, frame sizes (including empty and larger than the read size) and splits, read errors at any frame",
  "input_test.go records one short session and checks the encoded marks; replay loading is tested with one file.",
  ["input.go"], [("timing marks", "input.go InputFrame.writeIntoBuffer"), ("replay reader", "input.go ReadInputReplay")],
  ["ReadInputReplay result"]),
P("C21", "Event queue: each event is classified once and consumed once",
  "Loading a batch of decoded input keeps every item in order as exactly one event of the right class (rune, escape, mouse), with its decoded value, which stays until the queue is cleared, and each event can be consumed once: after any mix of per-class, per-rune and per-escape counting, striking and iteration, what remains is precisely the events not consumed, and totals agree. Clearing forgets everything.",
  ["histories", "inputs"], "all input batches and all sequences of queries and consuming calls",
  "x/platform has no event queue test.",
  ["x/platform/event.go"], [("queue with strike marks", "x/platform/event.go Events")],
  ["platform.Events API"]),
P("C22", "Platform loop: each input seen once, resizes and signals honoured",
  "Running a client under the platform, every input event that arrives is seen by the client in exactly one frame, in order, whatever the arrival timing relative to frames and notifications; each frame's drawing is flushed before the next, the screen presented always has the terminal's current size, and the client's errors and end of input stop the loop with the terminal restored. Termination signals end it in the same way, and a client suspending itself leaves the terminal as it was until continued, after which the screen is repainted and input that came meanwhile is seen. Frame times never go backwards.",
  ["schedules", "histories"], "all arrival patterns of input, resize and signals relative to frame boundaries",
  "platform_test.go contains a stub.",
  ["x/platform/platform.go", "x/platform/event.go", "x/platform/tick.go", "signal.go"],
  [("frame loop", "x/platform/platform.go Platform.Run"), ("signal handling", "x/platform/platform.go")],
  ["client callbacks under a pty", "bytes seen by the pty master"]),
P("C23", "Session recording replays to the same frames and state",
  "A platform state saved and loaded back equals the original, and replaying a recorded session gives the client the same input in the same frames from the same starting state, so a deterministic client ends in the same state and draws the same screens every time the recording is replayed. Pausing and stepping a replay only delays its frames, and a damaged recording is refused or read up to its damage, without harm; a session that cannot be recorded goes on, and the log says so.",
  ["histories"], "all input histories and client states, recordings cycled repeatedly",
  "state_test.go round-trips one state.",
  ["x/platform/replay.go", "x/platform/state.go", "x/platform/config.go"],
  [("state snapshot", "x/platform/state.go"), ("replay", "x/platform/replay.go")],
  ["client callbacks", "saved state bytes"]),
P("C24", "Log capture keeps every line once, in order, under concurrency",
  "Everything logged is held and written to the log file exactly once and in order, whatever the write sizes, line breaks, number of concurrent writers, flushing, clearing and file switching; no write is interleaved into another and shutting down flushes everything. The line index always agrees with the contents: any line can be fetched, and it is the text between line breaks. There is no data race between writers, readers and the background flusher.",
  ["schedules", "inputs"], "all write splits relative to line breaks, all interleavings of concurrent writers, readers, flushes and file changes",
  "No existing test covers the log sink.",
  ["x/platform/log.go", "x/platform/bg.go", "x/platform/hud.go"],
  [("line index and flush worker", "x/platform/log.go LogSink"), ("worker lifecycle", "x/platform/bg.go")],
  ["LogSink.Contents", "log file bytes", "race detector reports"]),
P("C25", "Background work and timing start, notify and stop cleanly",
  "Background workers started together all receive each notification of pending work at least once after it is given, all stop when told, each exactly once and in reverse order, and the first failure is reported; a started/stopped ticker never blocks a waiter forever and never delivers a tick after being stopped. Timing statistics equal what was measured, and output stalls and resource usage are logged as they were. None of this races.",
  ["schedules", "fault_sequences"], "all interleavings of start, notify, tick, failure and stop",
  "No existing test covers workers or tickers.",
  ["x/platform/bg.go", "x/platform/tick.go", "x/platform/diag.go"],
  [("worker set", "x/platform/bg.go"), ("ticker", "x/platform/tick.go"), ("telemetry", "x/platform/diag.go")],
  ["worker call log", "race detector reports"]),
P("C26", "Line editing behaves as a text buffer with a cursor",
  "For any sequence of typed characters and editing keys, the edited line equals that of a text buffer with a cursor: insertions at the cursor, deletions before or after it, moves clamped to the line, submit and cancel ending the edit once with the right text. The cursor stays within the text, the view shows the cursor at its place for any box width, and no key sequence crashes it.",
  ["histories", "inputs"], "all sequences of runes and editing keys, all box widths",
  "editline_test.go runs a few scripted edits.",
  ["x/platform/editline.go"], [("edit state", "x/platform/editline.go EditLine")],
  ["EditLine buffer/cursor, drawn cells"]),
P("C27", "Terminal descriptions load exactly or fail with an error",
  "Loading a compiled terminal description yields each string capability's exact bytes as stored and treats absent or cancelled ones as missing; any truncated or corrupted file yields an error, never a crash or another entry's text. Lookup falls back from the search path to built-in descriptions by name, and an unknown or empty name yields an error.",
  ["inputs", "configurations", "fault_sequences"], "all well-formed compiled descriptions (16-bit format), every truncation and header corruption of them, all search path environments",
  "No existing test covers terminfo.",
  ["terminfo/read.go", "terminfo/terminfo.go", "terminfo/builtin.go"],
  [("binary reader", "terminfo/read.go"), ("lookup", "terminfo/terminfo.go Load")],
  ["terminfo.Load result"]),
P("C28", "Signal capture: nothing delivered while closed, nothing lost while open",
  "A signal watch delivers the signals it was asked for while open, reports one pending signal once per arrival without blocking, and turns termination signals into errors carrying the signal. Opening, closing and re-opening in any order is safe and after closing no further delivery happens, and sending to a watch never blocks the sender.",
  ["schedules", "histories"], "all sequences of open, close, send and receive, with signals arriving at any point",
  "signal_test.go checks one scripted sequence.",
  ["signal.go"], [("signal channel lifecycle", "signal.go Signal")],
  ["Signal API under self-delivered signals"]),
P("C29", "The heads-up display never crashes or draws outside the screen at any size",
  "For every terminal size, state of the display's widgets and input, updating and drawing the heads-up display does not crash and writes only its own rows of the screen it was given, leaving the rest of the client's drawing where it was. When there is room for them, the controls it shows respond to presses on them with their own effect only, and its log view shows the latest lines until scrolled, and then exactly the lines scrolled to.",
  ["configurations", "inputs", "histories"], "all screen sizes from 0x0 and 1x1 up, all widget combinations, key and mouse input sequences, resizes mid-session",
  "No existing test draws the HUD.",
  ["x/platform/hud.go", "x/platform/diag.go", "x/platform/log.go"],
  [("layout clamping", "x/platform/hud.go")],
  ["platform client frames under varying sizes"]),
P("C30", "Stream filter commands pass their input through faithfully",
  "The 24-bit conversion filter's output equals its input with only colour parameters of graphic rendition sequences replaced by the equivalent 24-bit values, all other text, controls and sequences preserved byte for byte in meaning and order, and the decoding filter reports each item of its input exactly once. Neither depends on how the input is chunked, and both report by their exit status when input cannot be read or output cannot be written. On a terminal the decoding filter does the same for what is typed, reports resizes and interrupts, and ends or suspends as asked to, leaving the terminal as it was.",
  ["inputs", "schedules"], "all input streams and all chunkings of them through a pipe",
  "cmd/ has no tests.",
  ["cmd/to24bit/main.go", "cmd/decode/main.go"],
  [("stream loop", "cmd/to24bit/main.go"), ("stream loop", "cmd/decode/main.go")],
  ["process stdin to stdout"]),
P("C31", "Diagnostics asked for by flags, options or in the display land complete in their files",
  "Whatever profiles, traces, logs and telemetry are asked for by command line flags, by options given to New, or interactively in the heads-up display are written to the files asked for and to no other: what is asked for first holds, every profile and trace is complete and covers exactly the time from its start (or last resume) until it is stopped, suspended or the program ends in whatever way, one that the user stopped is left alone from then on until started again, log files hold every logged line, and a file that cannot be created or written keeps no other from being complete and is reported rather than ignored.",
  ["histories", "configurations", "fault_sequences"], "all combinations of flags and options; all sequences of starting, stopping and moving diagnostics, frames, suspensions and ends",
  "No existing test covers configuration, profiles or traces.",
  ["x/platform/config.go", "x/platform/options.go", "x/platform/hud.go", "x/platform/log.go"],
  [("configuration", "x/platform/config.go Config"), ("profilers", "x/platform/config.go Enter, Exit"), ("profiler controls", "x/platform/hud.go hudProfileControl")],
  ["files written by a platform program"]),
P("C32", "The bundled programs run safely on any terminal and say how they ended",
  "The demo, interact, lolwut and palette programs, and any program run under MustRun, never crash or hang whatever the terminal's size, resizes, input, suspensions and arguments, and end promptly on Ctrl-C or a termination signal, leaving the terminal as it was. A successful end has exit status 0; any other reports its error on standard error, with the status the error asks for or else 1. The demo fills the terminal with its gradient; interact shows its command's status and output with the values entered for its variables; lolwut draws exactly the picture asked for, and in interactive mode follows the terminal's size and the zoom; palette lists every colour of each palette as converted.",
  ["histories", "configurations", "inputs", "fault_sequences"], "all arguments, terminal sizes from 1x1 up, and sequences of keys, resizes, suspensions, signals and ends",
  "cmd/ has no tests.",
  ["cmd/demo/main.go", "cmd/interact/main.go", "cmd/lolwut/main.go", "cmd/lolwut/interact.go", "cmd/palette/main.go", "x/platform/platform.go", "term.go"],
  [("program loops", "cmd/*/main.go"), ("exit reporting", "x/platform MustRun, anansi.MustRun")],
  ["processes on a pseudo terminal: screen, standard error, exit status, terminal state"]),
]
