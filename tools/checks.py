HOOKS = None
NOTES = 'All checks drive the real code of /repo through its exported API (and its built commands) with a monitor binary built from /verif/harness against /repo on every run; no hooks in /repo are needed.'
NOT_APPLICABLE = {}
E = 'exploration'
CHECKS = {
'C01': (E, 'runtime monitor: generated byte streams through the decoders, online panic/progress/conservation monitor plus reference decoder', 'sampled byte strings (structured, hostile, exhaustive short ones); every decode step observed'),
'C02': (E, 'runtime monitor: input replayed under many read splits, event logs compared with each other and a reference decoder', 'sampled streams and splits, all single splits of each short stream'),
'C03': (E, 'runtime monitor: output replayed under many write splits, final states compared', 'sampled streams and splits, all single splits of each short stream'),
'C04': (E, 'runtime monitor: build/encode/decode round-trip with reference encoder and aliasing monitor', 'sampled identifiers, arguments and derivation chains; boundary integers exhaustively'),
'C05': (E, 'runtime monitor: SGR algebra checked against an independent terminal rendition model', 'sampled pairs; all flag subsets; malformed lists'),
'C06': (E, 'runtime monitor: conversions checked against a brute-force nearest-colour oracle', 'sampled colours plus all palette indices, sampled model stacks'),
'C07': (E, 'runtime monitor: geometry operations checked against the image package shifted by one', 'exhaustive small coordinates plus sampled large ones'),
'C08': (E, 'runtime monitor: mouse reports checked against an independent decoder', 'all 256 states with sampled positions and malformed reports'),
'C09': (E, 'runtime monitor: every output element written to a real virtual screen and to an independent terminal model, cells and cursor compared online', 'sampled histories on all small sizes, sub-screens and resizes; one known finding (no scrolling)'),
'C10': (E, 'runtime monitor: bytes of every flush interpreted by an independent xterm-like terminal, cells and cursor compared online', 'sampled frame histories on all small sizes, arbitrary initial terminal content'),
'C11': ('fault_enumeration', 'fault injection with conservation monitor: flushes cut at every byte with would-block and hard errors, accepted bytes interpreted by the reference terminal', 'every cut position of sampled updates; sampled fault histories; real non-blocking pipes'),
'C12': (E, 'runtime monitor: operations mirrored onto a model terminal, written bytes interpreted by a reference terminal, tracked state compared online', 'all start/target pairs on a small screen; sampled operation histories with blocked, failed and discarded writes'),
'C13': ('fault_enumeration', 'runtime monitor: flushes to slow, blocking and non-blocking pipes, ptys and fault-injecting writers; bytes received, flags and counters compared', 'sampled payload sizes and reader paces; every cut position of small payloads'),
'C14': (E, 'runtime monitor: region operations mirrored cell by cell onto arrays, whole-grid comparison and style call recording', 'all region pairs of a 3x3 grid; sampled histories of nested regions, draws, clears and resizes'),
'C15': (E, 'runtime monitor: bitmaps mirrored onto bit maps, runes, rendered text and drawn grids compared', 'all 256 dot patterns; sampled sizes, sub-bitmaps, styles'),
'C17': ('fault_enumeration', 'runtime monitor: recording contexts with planned failures and panics; call log compared with an independent interpreter and checked for balance and order', 'all single and sampled multiple failure points of sampled programs'),
'C16': (E, 'runtime monitor: style combinations compared with independently composed functions on sampled cells', 'sampled nested combinations and sharing histories'),
'C18': ('fault_enumeration', 'runtime monitor on pseudo terminals: termios, file flags and mode bytes observed while held, suspended and after every kind of exit', 'sampled attribute, mode and fault histories including panics and real suspend/resume signals'),
'C19': (E, 'runtime monitor: arrivals on pipes and pseudo terminals counted against reads and decoded events; notification signals observed', 'sampled schedules of arrivals, reads and decodes; waits, end of file and notification histories'),
'C20': (E, 'runtime monitor: sessions recorded through the real Input over pipes and files, loaded back and compared frame by frame with what the reads returned', 'sampled contents, frame sizes, split characters and sequences, read errors and messages; malformed recordings for crashes'),
'C21': (E, 'runtime monitor: every queued event compared with an independent classification, and consuming calls mirrored onto a list of marked items', 'sampled batches from bytes and from real inputs read in several goes; sampled histories of all consuming calls'),
'C26': (E, 'runtime monitor: key batches mirrored onto a text buffer with a cursor; text, state, consumed events, drawn cells and cursor compared', 'sampled key histories in boxes of all widths; all short key sequences in boxes of width 1 to 6'),
'C27': (E, 'runtime monitor: generated compiled descriptions read back and compared with what was compiled in; truncations and corruptions judged by an independent strict reader; lookups in scratch search paths', 'sampled descriptions; every truncation of some; sampled corruptions; the descriptions installed on the system'),
'C28': (E, 'runtime monitor: watches mirrored onto one-slot models under real self-delivered signals, with a second listener and a fence signal settling delivery; concurrent senders timed', 'sampled histories over six signals and up to three watches'),
'C24': (E, 'runtime monitor under the race detector: concurrent writers of self-describing lines against readers, flushers, and file changes; log contents, line index and files compared with every line written', 'sampled schedules of up to eight goroutines with random write splits'),
'C22': (E, 'runtime monitor: a real process under the platform on a pseudo terminal, its reported frames compared with an independent decoding of its input, its screen with an independent terminal; under the race detector', 'sampled input timings, resizes, suspensions and ends; single frames in process over a pipe'),
'C23': (E, 'runtime monitoring: recorded frames of a deterministic client (input, size, redraw, state before and after, screen, platform state) compared with every replay of them, in process on a pseudo terminal and in whole sessions', 'quick 1500 stepped recordings and 250 sessions; replays 1-3 times under other input, sizes and client state'),
'C25': (E, 'runtime monitoring: lifecycle event logs of background workers, ticker intervals, timing and stall telemetry checked against models, and sessions whose log and telemetry files are read back; race detector', 'quick about 6.5 s; workers with errors at start, notify and stop, timing collectors of random windows'),
'C29': (E, 'runtime monitoring: ownership of every cell after each frame (the client marks each cell), crash and hang watch, flushed output rendered and compared, and presses on shown controls checked for their effect only, over random HUD states, sizes, input, logs and recordings', 'quick 700 sessions of 3-25 frames, 300 of presses and 300 of scrolling, sizes 0x0 to 200x60'),
'C30': (E, 'the built commands run on random and malformed streams piped in forced chunks; output compared with a reference decoding of the input, and across chunkings', 'streams of up to 3000 elements'),
'C31': (E, 'runtime monitoring: the files written by real platform programs on a pseudo terminal are decoded after every stop, suspension and end and compared with the recorded history (clock, markers, allocation counts) of what ran meanwhile', 'quick 1400 sessions of up to 9 operations, 4000 flag and option combinations'),
'C32': (E, 'runtime monitor: the built programs run on a pseudo terminal read by an independent terminal model; screen, standard error, exit status, time to end and terminal state compared with an independent statement of each program', 'quick 844 sessions over the programs; random sizes, resizes, input, suspensions, signals and ends; random arguments'),
}
