#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

BUFSTATE=[("text","runes of the line being edited","RuneBuffer.buf"),("cursor","index of the cursor in the text","RuneBuffer.idx"),("kill","most recently killed text","RuneBuffer.lastKill")]

p("C01","Line editing never panics and keeps the cursor inside the line",
  "Starting from any valid state (cursor between 0 and the length of the text), every line-editing operation - insertion, replacement, deletion, kill, yank, transpose, every cursor motion, character search, reset, set, backup and restore - completes without a panic and leaves the cursor between 0 and the length of the text. This holds for every text, every cursor position and every killed text, including the empty line and the two ends of the line.",
  ["inputs","histories"],"all line contents, cursor positions, killed texts, argument runes, and all sequences of editing operations (the invariant is preserved by each operation)",
  "No existing test performs a single editing operation; the failures are at line edges (one-character line, cursor after the last word), which sampling misses.",
  ["runebuf.go"],[("per-operation edge checks","RuneBuffer methods in runebuf.go")],BUFSTATE,["RuneBuffer.Pos","RuneBuffer.Len","RuneBuffer.Runes"])
p("C02","Insertion and replacement put exactly the given text at the cursor",
  "Inserting a rune, runes or a string at the cursor yields the text before the cursor, then the inserted text, then the old text after the cursor, with the cursor right after the inserted text; replacing the rune under the cursor changes that rune only (and nothing when there is none); setting the line makes the text and cursor exactly what was given. Resetting returns the whole text and leaves an empty line with the cursor at 0.",
  ["inputs"],"all texts, cursors, inserted texts and spare capacities of the slices involved",
  "The tests never insert text; correctness depends on every combination of cursor, text and slice capacity (in-place append versus reallocation).",
  ["runebuf.go"],[("splice with append","RuneBuffer.WriteRunes"),("Replace/Set/Reset","runebuf.go")],BUFSTATE,["RuneBuffer.Runes","RuneBuffer.Pos"])
p("C03","Deletion commands remove exactly the documented region",
  "Each deletion command removes one contiguous region bounded by the cursor and keeps everything else in order: delete removes the rune under the cursor, backspace the rune before it, kill the text after the cursor, kill-front the text before it, erase everything, forward word delete the text up to where the next word's preceding separator begins (or the end of the line), backward word kill the text back to the start of the word before the cursor. The cursor ends at the left edge of the removed region, and commands with nothing to remove leave text and cursor unchanged.",
  ["inputs"],"all texts and cursor positions",
  "No test runs a deletion; the region depends on the word structure of the whole text around the cursor.",
  ["runebuf.go","utils.go"],[("kill family","RuneBuffer.Delete/Backspace/Kill/KillFront/Erase/DeleteWord/BackEscapeWord"),("word classification","IsWordBreak")],BUFSTATE,["RuneBuffer.Runes","RuneBuffer.Pos"])
p("C04","Yank inserts exactly the most recently killed text",
  "Every kill command (delete, kill to end, kill to start, erase, forward and backward word kill) that removes text saves precisely the removed text, later edits of the line never change the saved text, and yank inserts the saved text at the cursor and places the cursor after it. Yank with nothing killed changes nothing.",
  ["inputs","histories"],"all texts, cursors and sequences of edits between kill and yank",
  "No test kills or yanks; the saved text could silently share storage with the line, which only shows after later edits.",
  ["runebuf.go"],[("copy into kill slot","RuneBuffer.pushKill"),("splice","RuneBuffer.Yank")],BUFSTATE,["RuneBuffer.Runes"])
p("C05","Cursor motions reach their documented target and never change text",
  "Character, word, line and character-search motions leave the text unchanged and put the cursor exactly at the documented target: one rune left or right, start or end of line, the start of the previous or next word, the end of the current or next word, or the nearest occurrence of the searched rune in the given direction (or just next to it), and stay put when a character search finds nothing. Transpose exchanges the two runes around the cursor (the last two at the end of line) and leaves the text alone on lines shorter than two.",
  ["inputs"],"all texts, cursor positions and searched runes",
  "No test moves the cursor; targets depend on the word structure of the whole line.",
  ["runebuf.go","utils.go"],[("motions","RuneBuffer.MoveTo*, MoveForward, MoveBackward, Transpose"),("word classification","IsWordBreak")],BUFSTATE,["RuneBuffer.Runes","RuneBuffer.Pos"])
p("C06","The edited line never shares storage with anyone else's data",
  "No line-editing operation modifies a slice supplied by the application, a slice previously returned to it, a history entry, a completion candidate, a saved backup or the killed text; slices handed out are independent copies. Restoring a backup therefore brings back exactly the text and cursor at the time of the backup, whatever was edited in between.",
  ["inputs","histories"],"all slices incl. ones with spare capacity or overlapping storage, all later editing sequences",
  "Aliasing only shows when spare capacity or shared storage meets a later in-place edit; no test builds such a history.",
  ["runebuf.go","history.go","complete_segment.go","search.go"],[("defensive copies","Runes.Copy and its callers; RuneBuffer.Backup/Restore/SetWithIdx/WriteRunes; SegmentComplete.Do")],BUFSTATE,["application slices","RuneBuffer.Runes"])
p("C07","Rune comparison and search helpers agree with their mathematical meaning",
  "For all rune slices: equality and prefix tests answer exactly element-wise equality (the folding variants treat ASCII letters case-insensitively and nothing else), forward search returns the lowest and backward search the highest position at which the pattern occurs and -1 exactly when it occurs nowhere, single-rune index returns the first position, and left-trimming drops exactly the leading white space. The deprecated package of the same helpers obeys the same rules for the helpers it has, and none of these modifies its arguments or panics.",
  ["inputs"],"all rune slices of all lengths, both fold settings",
  "The tests call none of the search or comparison helpers directly; the claims range over all slice pairs.",
  ["runes.go","runes/runes.go"],[("helpers","runes.go"),("deprecated copy","runes/runes.go")],[],["return values"])
p("C08","Common-prefix aggregation is exact",
  "Aggregating candidates returns the longest common prefix of all candidates and its length, and strips exactly that prefix from every candidate; with no common prefix the candidates are left alone and the length is 0. The rune data of the original candidates is never modified; the deprecated package behaves identically.",
  ["inputs"],"all non-empty lists of candidates",
  "TestAggRunes samples four lists; maximality and totality range over all lists and lengths.",
  ["runes.go","runes/runes.go"],[("Aggregate","runes.go, runes/runes.go")],[],["return values","candidate slots"])
p("C09","Width and line-wrapping arithmetic is exact, total and terminates",
  "Display width is the tab width for a tab, 0 for zero-width runes, 2 for Han, Hangul, Hiragana and Katakana, else 1, and a text's width is the sum over its runes; color filtering removes exactly the sequences from ESC [ to the next m, and the ESC of an unterminated one, and is defined for every text, including a trailing escape (kept). The number of screen lines for a positive width is the rounded-up quotient, and computing the redraw and cursor-positioning sequences terminates for every prompt, text, cursor and screen width, including zero, unknown (-1) and widths that divide the prompt.",
  ["inputs","configurations"],"all runes, prompts, texts, cursors and screen widths",
  "TestRuneWidth samples four strings; the failing cases are special prompts (trailing escape, width equal to the screen) combined with cursor moves.",
  ["runes.go","runes/runes.go","utils.go","runebuf.go"],[("Width/WidthAll/ColorFilter","runes.go"),("SplitByLine/LineCount","utils.go"),("getBackspaceSequence","runebuf.go")],[("width","screen width in columns","RuneBuffer.width")],["return values","termination"])
p("C10","A redraw shows the prompt and the line, and masks secrets",
  "With masking off, a redraw writes the prompt followed by the painted line with every tab expanded to the tab width, then moves the cursor left once per rune after the cursor. With masking on it writes the prompt followed by exactly one mask rune per rune of the line (a final newline is kept as newline), no rune of the line itself ever appears, and the cursor is moved left exactly once per rune after the cursor.",
  ["inputs","configurations"],"all prompts, lines, cursors, mask runes, painters and screen widths",
  "No test looks at the terminal output; secrecy is a claim about every input.",
  ["runebuf.go"],[("output","RuneBuffer.output"),("cursor return","RuneBuffer.getBackspaceSequence")],[("mask","mask rune and switch","Config.EnableMask, Config.MaskRune")],["bytes written to Stdout"])
p("C11","Prefix completion offers only genuine continuations",
  "For any completer tree and any line and cursor, the reported shared length lies between 0 and the cursor position, every offered candidate is a suffix of (or, for an already complete word, a whole) name of some child of a node of the tree - or the single separator space - and only children whose names agree with the typed word are offered. Completion never panics, never modifies the line, and ignores text after the cursor.",
  ["inputs","configurations"],"all completer trees (static and dynamic), lines and cursor positions",
  "No test exercises the prefix completer at all.",
  ["complete_helper.go"],[("doInternal","complete_helper.go")],[],["return values of Do"])
p("C12","Segment completion splits losslessly and offers exactly the matching candidates",
  "Splitting a line at the cursor yields the space-separated segments of the text before the cursor - joining them with single spaces gives that text back, no segment contains a space, and the reported offset is the length of the last segment. Segment completion then offers, in order, exactly the candidates that start with the last segment, each with that segment stripped and a space appended, without modifying the candidates' data.",
  ["inputs"],"all lines, cursor positions and candidate lists",
  "Tests sample six lines and six candidate lists; losslessness and order are claims about all of them.",
  ["complete_segment.go"],[("SplitSegment/RetSegment/Do","complete_segment.go")],[],["return values"])
p("C13","The completion menu stays consistent under every key",
  "In the completion menu the highlighted index always designates an existing candidate after any selection key, at any terminal width and for any candidate widths, and drawing the menu never panics. Accepting inserts exactly the highlighted candidate at the cursor and leaves the menu; cancelling leaves the line unchanged and leaves the menu.",
  ["inputs","histories","configurations"],"all candidate lists, widths and sequences of menu keys",
  "No test opens the completion menu; failures need narrow terminals, wide runes or unusual key orders.",
  ["complete.go","operation.go"],[("selection arithmetic","opCompleter.HandleCompleteSelect, nextCandidate, getMatrixSize"),("menu drawing","opCompleter.CompleteRefresh")],[("choice","index of the highlighted candidate","opCompleter.candidateChoise"),("columns","columns of the menu","opCompleter.candidateColNum")],["line buffer","menu state"])
p("C14","History navigation visits entries one step at a time and returns copies",
  "Moving to the previous (next) entry yields the entry immediately older (newer) than the current one, or reports that there is none and stays where it is at the ends. The text shown is the entry as edited during the current line if it was edited, otherwise its recorded text, and what is returned is a copy; navigation changes no entry.",
  ["inputs","histories"],"all history contents, current positions and edit states",
  "No test navigates history.",
  ["history.go"],[("Prev/Next/showItem","history.go")],[("current","entry being shown","opHistory.current"),("version","generation of in-progress edits","opHistory.historyVer, hisItem.Version")],["returned text","subsequent navigation"])
p("C15","Submitting a line records exactly that line",
  "When history is enabled, recording a line makes it the newest entry with exactly that text, leaves the recorded text and order of all older entries unchanged (the oldest being dropped to respect the limit), and discards in-progress edits of recalled entries; recording an empty line or a repetition of the newest entry adds nothing. The number of recorded entries never exceeds the configured limit, and with history disabled nothing changes.",
  ["inputs","histories","configurations"],"all submitted lines, histories, positions (incl. after recalling or searching an old entry) and limits",
  "No test records history; the failures need a recalled or searched entry between two recordings.",
  ["history.go"],[("New/Update/Push/Compact/Revert","history.go")],[("entries","recorded lines","opHistory.history"),("limit","maximum number of entries","Config.HistoryLimit")],["history contents","history file"])
p("C16","The history file is written and replaced safely",
  "Every recorded line is appended to the history file as its text followed by one newline; loading a file takes its newline-terminated non-blank lines, trimmed, in order, keeping the newest up to the limit, and reloading never duplicates entries. Rewriting goes to a temporary file and the history file is replaced only after the complete contents were written successfully, so a failed write at any point leaves the old file in place.",
  ["inputs","histories","fault_sequences"],"all history contents and limits, and failure of any single file operation",
  "No test opens a history file or injects a write failure.",
  ["history.go"],[("historyUpdatePath/rewriteLocked/Update","history.go")],[("fd","open history file","opHistory.fd")],["history file contents"])
p("C17","Incremental history search finds the nearest match and cancelling restores",
  "A backward (forward) history search selects the nearest entry in that direction from the current one that contains the pattern, at the last (first) occurrence allowed by the starting position, and reports failure exactly when no such entry exists, leaving the line and position unchanged then. Cancelling a search restores the entry and text from which the search began, and search never panics or modifies a history entry.",
  ["inputs","histories"],"all histories, patterns, positions, and both fold settings",
  "No test performs a history search.",
  ["search.go","history.go"],[("FindBck/FindFwd","history.go"),("search/ExitSearchMode","search.go")],[("source","entry where the search began","opSearch.source")],["line buffer","current history entry"])
p("C18","Key sequences decode to the documented editing commands",
  "Arrow keys, Home and End in both their CSI and SS3 forms, the Delete key, and Escape followed by b, f, d, Ctrl-T or Backspace decode to exactly the documented command; an unknown CSI sequence is swallowed; in vim mode a lone Escape is delivered as such. Every other rune is delivered unchanged and in order, and decoding a cursor-position report delivers no key.",
  ["inputs"],"all input rune sequences",
  "No test feeds an escape sequence.",
  ["terminal.go","utils.go"],[("decoder state machine","Terminal.ioloop"),("key tables","escapeExKey, escapeSS3Key, escapeKey, readEscKey")],[],["runes delivered to the editor"])
p("C19","Vim mode commands do what they say and never insert their own letters",
  "In vim normal mode each documented command letter performs exactly its motion, deletion, replacement or yank and is consumed or translated to the corresponding control key, insert-entering commands switch to insert mode, and any other key rings the bell and changes nothing; no command letter is ever inserted as text. In insert mode Escape switches to normal mode and every other rune is passed through unchanged; Enter and Interrupt are always passed on and return to insert mode.",
  ["inputs","histories"],"all keys, modes, line contents and cursor positions",
  "No test enables vim mode.",
  ["vim.go"],[("HandleVim and its tables","vim.go")],[("mode","normal or insert","opVim.vimMode")],["line buffer","returned rune","mode"])
p("C20","A read returns exactly the submitted line, or the right error",
  "A read returns the complete text of the line without the terminating newline and a nil error when Enter is pressed, the pending text with ErrInterrupt when interrupted, and io.EOF only for an empty line; after each of these the edit line is empty with the cursor at 0. No prompt hint text (^C, ^D) ever leaks into the returned text.",
  ["inputs","histories","configurations"],"all line contents, cursor positions, prompts hints and UniqueEditLine settings",
  "TestRace only checks that Readline returns.",
  ["operation.go"],[("Enter/Interrupt/EOF cases","Operation.ioloop"),("result mapping","Operation.Runes")],[("outchan/errchan","result hand-off","Operation.outchan, Operation.errchan")],["return values of Readline"])
p("C21","Every control key performs its documented command",
  "In normal mode each documented control or meta key applies exactly its documented editing command to the line (see the shortcut table), unbound printable runes are inserted at the cursor, and no key loop iteration panics. A line rewritten by the listener is installed exactly as the listener returned it.",
  ["inputs","histories","configurations"],"all keys, line contents, cursor positions, and editing modes",
  "No test sends a control key.",
  ["operation.go","doc/shortcut.md"],[("dispatch","Operation.ioloop")],[],["line buffer after each key"])
p("C22","Terminal mode is always restored",
  "Every line read enters raw mode exactly once before reading and leaves it exactly once on every return path, suspending leaves raw mode before stopping and re-enters it after, and closing leaves it. Raw mode is derived from the saved state by clearing and setting only the documented flags, the saved state itself is never altered, and what is restored - also after reading a password directly from a terminal descriptor, on success and on error - is exactly the state found at entry.",
  ["inputs","fault_sequences"],"all terminal states, all return paths, failure of any terminal call or read",
  "Tests run without a terminal.",
  ["term.go","utils.go","terminal.go","operation.go"],[("MakeRaw/Restore/ReadPassword","term.go"),("RawMode","utils.go"),("defer ExitRawMode","Operation.Runes")],[("saved state","terminal attributes at entry","RawMode.state, State.termios")],["termios settings applied"])
p("C23","Configuration defaults, hot swap and password mode restore",
  "Initializing a configuration fills every unset option with its documented default, never changes an option the application set (a newline hint means an empty hint), and is idempotent, so a configuration installed at any time leaves no required callback unset. Reading a password uses a masked configuration without history and afterwards the previous configuration, with its own history and search state, is back in place on every return path.",
  ["inputs","configurations"],"all combinations of set and unset options, all outcomes of the password read",
  "Tests use only the zero configuration.",
  ["readline.go","operation.go","password.go"],[("Config.Init","readline.go"),("SetConfig","operation.go"),("Enter/ExitPasswordMode","password.go")],[("cfg","active configuration","Operation.cfg")],["Config fields","history after a password read"])
p("C24","Remote messages round-trip and malformed ones are rejected safely",
  "Writing a message and reading it back yields the same type and data for every type and every data length, and reading consumes exactly one message's bytes. A message whose declared length is impossible or whose payload is too short for its type is rejected or ignored without a panic, and terminal and width reports set exactly the reported values.",
  ["inputs","fault_sequences"],"all message types, payloads, declared lengths and truncated streams",
  "No test uses the remote protocol.",
  ["remote.go"],[("ReadMessage/WriteTo","remote.go"),("GotIsTerminal/GotReportWidth","remote.go")],[],["messages and reported state"])
p("C25","Prefilled input is delivered completely, first and in order",
  "Bytes written ahead to standard input are returned by reads in order, each exactly once and before anything from the real input, whatever the (non-empty) read sizes; only when none are pending is the real input read, and its result is passed through unchanged. A read with a buffer smaller than the pending data loses nothing.",
  ["inputs","histories"],"all pending contents and read sizes",
  "No test prefills input.",
  ["std.go"],[("FillableStdin.Read","std.go")],[("buf","pending prefilled bytes","FillableStdin.buf")],["bytes returned by Read"])
p("C26","Windows color translation is total",
  "On Windows, translating terminal output handles every ANSI select-graphic-rendition sequence without a panic and consumes exactly the escape sequence: colors 30-37 and 40-47 select the corresponding console attribute, and any other code resets to the default attribute. Text outside escape sequences is passed through unchanged.",
  ["inputs"],"all SGR parameter lists",
  "The tests do not compile or run the Windows files.",
  ["ansi_windows.go"],[("ioloopEscSeq/process","ansi_windows.go")],[],["console attribute set","bytes passed through"])
p("C27","Closing unblocks a pending read",
  "Closing an instance while a read is pending makes that read return io.EOF in bounded time, from any state and any interleaving, and closing twice is harmless.",
  ["schedules"],"all interleavings of Close with a pending read",
  "TestRace samples one interleaving and its stdin is already at EOF.",
  ["readline.go","operation.go","terminal.go","std.go"],[("stop channels","Terminal.Close, CancelableStdin.Close, Operation.Close")],[],["Readline return"])
p("C28","Public operations are free of data races",
  "Calling the documented concurrent entry points (prompt changes, Stdout/Stderr writes, Close, Refresh) from other goroutines while a line is being read is free of data races.",
  ["schedules"],"all interleavings of the public entry points",
  "The race detector sees only the schedules that happen to run.",
  ["runebuf.go","operation.go","terminal.go"],[("mutexes","RuneBuffer.Mutex, Operation.m, Terminal.m")],[],["race reports"])
p("C29","Remote data always wakes a blocked reader",
  "Whenever data or end-of-file arrives over a remote connection, a server-side read that is or becomes blocked eventually returns it.",
  ["schedules"],"all interleavings of the receive loop with reads",
  "No test uses the remote server.",
  ["remote.go"],[("reciveChan hand-off","RemoteSvr.Read, readLoop")],[],["Read return"])
for x in P: print(json.dumps(x,ensure_ascii=False))
