#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})
GB="src/buffer/gap_buffer.rs"; BUF="src/buffer/mod.rs"; CUR="src/buffer/cursor.rs"; OPS="src/buffer/operation/"
WS="src/workspace.rs"; TOK="src/buffer/token/token_iterator.rs"

prop("T01","The text store applies every edit exactly, whatever edits came before",
 "For any starting text and any sequence of insertions and deletions, the content of a gap buffer equals what the same edits produce on a plain string: an insertion adds exactly the given text at its position, and a deletion removes exactly the addressed range. A deletion whose end lies past the end of its line takes the rest of that line with its line break, and one whose end lies past the last line takes the rest of the text. An insertion at, or a deletion starting at, a position that does not exist changes nothing.",
 ["inputs","histories"],"every initial text, every sequence of insert/delete calls with any text (any Unicode, any line endings, any size) and any position or range, hence every location and size of the gap and every reallocation",
 "The unit tests perform at most two or three edits on one short, mostly ASCII text each; where the gap lies, how large it is and whether an edit reallocates depend on the whole history.",
 [GB],[("gap movement, growth before insertion, gap widening on deletion",GB+" insert/delete/move_gap/write_to_gap"),("position to byte offset mapping",GB+" find_offset")],
 ["GapBuffer::insert","GapBuffer::delete","GapBuffer to_string"],
 [{"name":"gap start/length","meaning":"where unused storage sits between the two halves of the text","where":GB}])

prop("T02","Reads and bounds checks agree with the content",
 "After any edit history, a position is in bounds exactly when its line exists and its offset is at most the number of grapheme clusters on that line, lines being ended by a line feed or by a carriage return plus line feed, which counts as a single line break. Reading a range returns exactly the text between its two positions, and nothing if either of them does not exist. Reading and bounds checking never change the content.",
 ["inputs","histories"],"every content reachable through any edit history, every position and every range, in bounds or not",
 "Tests read two or three ranges of three short texts and check two positions; they do not read across gaps of many shapes, CRLF line ends, or grapheme clusters assembled from separate edits.",
 [GB,BUF],[("stitching the two halves around the gap",GB+" read"),("position to byte offset mapping",GB+" find_offset")],
 ["GapBuffer::read","GapBuffer::in_bounds","Buffer::read","Buffer::data"])

prop("T03","Behaviour depends on the text, never on how it was produced",
 "Two buffers holding the same text give identical answers to every query - contents, ranges, bounds, search, line count, cursor movement - and the same edit applied to both gives the same text, no matter by which edits, undos or redos each arrived at that text. In particular a buffer that was edited answers exactly like a fresh buffer created from its text.",
 ["histories","inputs"],"every pair of edit histories that end in the same text, every following query or edit",
 "No test compares two differently produced buffers; the hidden state (gap location, spare capacity, clusters straddling the gap) takes values no single test samples.",
 [GB,CUR,BUF],[("position mapping scans the logical text, not the storage",GB+" find_offset"),("gap exclusion in reads and display",GB)],
 ["Buffer::data","Buffer::read","Buffer::search","Cursor movement methods"])

prop("T04","Buffer edits change exactly the addressed text and leave the cursor alone",
 "Inserting into a buffer places exactly the given text at the cursor; deleting at the cursor removes exactly the one grapheme cluster to its right, or the line break when the cursor is at the end of a line, or nothing at the end of the document; deleting a range removes exactly that range. Inserting, deleting, and undoing or redoing these leave the cursor's line and offset unchanged. An edit addressed to a position that does not exist leaves the text unchanged.",
 ["inputs","histories"],"every text, every cursor position including ones that no longer exist, every sequence of edits, open group or not",
 "Tests delete once or twice on ASCII text; combinations with multi-byte text, CRLF, stale cursors, groups and preceding undo are not reached.",
 [OPS+"insert.rs",OPS+"delete.rs",BUF],[("cursor-relative range construction",OPS+"delete.rs Buffer::delete"),("insert at cursor position",OPS+"insert.rs Buffer::insert")],
 ["Buffer::insert","Buffer::delete","Buffer::delete_range","Buffer::data","Buffer::cursor"])

prop("M01","No library call ever causes undefined behaviour or yields invalid text",
 "No sequence of calls on gap buffers, buffers, cursors, searches or line iteration, with any text, positions or ranges, reads or writes memory outside live storage, reads uninitialised memory, frees memory twice, leaks it, or overflows. Every string handed to the caller is valid UTF-8 and contains only text the caller put in.",
 ["inputs","histories"],"every call sequence and argument; sampled under Miri, AddressSanitizer/LeakSanitizer and valgrind memcheck",
 "The tests run without any sanitizer, on histories too short to drive the unsafe length-setting code through its growth and gap states.",
 [GB],[("unsafe length adjustment to the full capacity",GB+" new/insert"),("bounds-checked indexing of the storage",GB+" move_gap/write_to_gap")],
 ["Miri","AddressSanitizer","valgrind memcheck","UTF-8 validation of returned strings"])

prop("R01","Out-of-range arguments never crash the library",
 "No position, range or search text, however far out of range, passed to reading, bounds checking, cursor placement, range deletion or searching makes the library panic or hang, and neither does a cursor left beyond the end of shrunken text, or put where nothing is, when it is then moved, inserted at or deleted at. Requests that address nothing leave the text unchanged and report that (nothing read, cursor not moved), and the buffer keeps working normally afterwards.",
 ["inputs","histories"],"every position and range up to the largest representable line and offset, on every buffer state",
 "Tests try a handful of slightly out-of-range positions on one text each; extreme values and stale cursors after deletions are untested.",
 [GB,CUR,OPS+"delete.rs",BUF],[("optional position lookup",GB+" find_offset"),("range end clamping",GB+" delete"),("bounds-checked cursor updates",CUR+" move_to")],
 ["GapBuffer::read/delete/in_bounds","Buffer::delete_range","Cursor movement"])

prop("U01","Undo and redo restore text exactly",
 "Each undo restores exactly the text from before the most recent modification that is not already undone, and each redo restores exactly the text from after the most recently undone one, for every interleaving of edits, undos and redos. A new modification discards everything that could have been redone. Undo with nothing to undo, and redo with nothing to redo, change nothing.",
 ["histories","inputs"],"every sequence of insertions, deletions, range deletions (also reaching past the end), replacements, groups, undos and redos over any Unicode text",
 "Tests undo one to three edits on ASCII text; whether an inverse is exact depends on grapheme clusters merging with neighbours, clamped ranges, and gap state left by other edits.",
 [OPS+"history.rs",OPS+"insert.rs",OPS+"delete.rs",OPS+"replace.rs",BUF],[("linear history with two stacks",OPS+"history.rs"),("inverse of each operation",OPS+"insert.rs reverse, delete.rs reverse, replace.rs reverse")],
 ["Buffer::undo","Buffer::redo","Buffer::data"],
 [{"name":"previous/next stacks","meaning":"operations that can be undone / redone","where":OPS+"history.rs"}])

prop("U02","A group of edits is undone and redone as one unit",
 "All modifications made between starting and ending an operation group are reversed together by one undo and re-applied together by one redo; a group still open when undo is called is treated as ended at that point. Starting a group while one is open continues the open one, and a group without modifications leaves no undo step. While an open group contains modifications there is nothing to redo.",
 ["histories","inputs"],"every placement of group starts and ends among edits, undos and redos",
 "Tests cover one ended and one open group of two insertions; mixes with deletions, replacements, redo, nested starts, and multiple groups are not exercised.",
 [OPS+"group.rs",BUF,OPS+"history.rs"],[("collecting operations while a group is open",OPS+"insert.rs, delete.rs, replace.rs"),("reverse-order reversal",OPS+"group.rs"),("closing an open group on undo",BUF+" undo")],
 ["Buffer::start_operation_group","Buffer::end_operation_group","Buffer::undo","Buffer::redo","Buffer::data"])

prop("U03","The modified flag tells whether the text is in sync with disk",
 "A buffer reports unmodified right after it is successfully loaded, saved or reloaded, and again whenever undo or redo brings it back to exactly that point of its history. Whenever its text differs from the text last loaded, saved or reloaded it reports modified - also while an operation group is open and after the synchronised point was discarded by a new edit. A buffer that was never loaded from or saved to a file, or has no path, always reports modified.",
 ["histories","fault_sequences"],"every interleaving of edits, groups, undo, redo, replace, save, reload and failing saves",
 "Tests check the flag after at most one edit plus one undo; a wrong flag makes an editor discard work or nag, and depends on how sync points and history truncation interleave.",
 [OPS+"history.rs",BUF,OPS+"group.rs"],[("marked position in the history, invalidated when overwritten",OPS+"history.rs mark/at_mark/add"),("marking after I/O succeeds",BUF+" from_file/save/reload")],
 ["Buffer::modified","Buffer::data","bytes on disk"],
 [{"name":"marked position","meaning":"point of the history in sync with disk","where":OPS+"history.rs"}])

prop("U04","Every change of the text is announced, no later than where it starts",
 "Whenever a call changes a buffer's text - insertion, deletion, undo, redo, undo or redo of a group, replacement, reload - the registered change callback runs during that call. All text before the earliest position reported during the call is the same before and after it (apart from a character cluster that the change itself joins or splits right there), so discarding cached results from that position onwards is always sufficient.",
 ["histories","inputs"],"every text-changing call in every state, with a callback registered",
 "Tests check one callback position for single ASCII operations on a fresh buffer; groups, clamped deletions, redo and cluster-merging text are not checked.",
 [OPS+"insert.rs",OPS+"delete.rs",OPS+"replace.rs",OPS+"group.rs"],[("callback invocation in run and reverse of every operation",OPS)],
 ["Buffer::change_callback","Buffer::data before and after"])

prop("C01","Cursor placement is honoured exactly or refused",
 "Moving the cursor to an explicit position succeeds exactly when that position exists in the current text, and then the cursor is precisely there; otherwise the call reports failure and the cursor keeps its position. No movement of any kind ever takes a cursor from an existing position to one that does not exist.",
 ["inputs","histories"],"every text, every target position, every sequence of movements and edits",
 "Tests move a cursor once or twice on fixed ASCII texts; they cannot cover all line shapes, cluster shapes, CRLF line ends, or texts produced by editing.",
 [CUR,GB],[("bounds check before every update",CUR+" move_to"),("position validity",GB+" in_bounds")],
 ["Cursor::move_to","all movement methods","Buffer::cursor"])

prop("C02","Relative cursor movements go where they say, keeping the desired column",
 "Left and right move by one grapheme cluster within the line and stop at its ends; start and end of line go to offset zero and past the last cluster before the line break. Up and down move one line, keeping the column last chosen by horizontal or explicit movement across shorter lines, where the cursor rests at the line's end; at the first or last line they do not move. First line and last line go to that line (the last being the empty one after a final line break), at the desired column or at the line's end if it is shorter.",
 ["inputs","histories"],"every text and every sequence of movements from every position",
 "Tests make one or two movements on two- or three-line texts; long sequences across lines of differing length, empty lines, CRLF and multi-scalar clusters are not reached.",
 [CUR],[("desired column kept separately from the position",CUR+" sticky_offset"),("line length in grapheme clusters",CUR)],
 ["Cursor movement methods","Buffer::cursor"],
 [{"name":"desired column","meaning":"offset to return to on longer lines","where":CUR}])

prop("F01","Loading and saving preserve every byte",
 "Loading a file yields exactly its text, and after a successful save the file contains exactly the buffer's text and nothing else, for any valid UTF-8 content and size, including when the file previously was longer and when the operating system delivers reads and writes in small pieces or interrupts them. Loading and saving without editing leaves the file's bytes unchanged, and saving does not change the buffer's text, cursor or undo history.",
 ["inputs","histories","fault_sequences"],"every file content, every edit history before the save, every pattern of short and interrupted reads and writes",
 "Tests load one 10-byte file and save one 6-byte text; byte order marks, CRLF, NULs, large files, shrinking files, short writes and gaps in every place are not covered.",
 [BUF,GB],[("whole-file read as UTF-8",BUF+" from_file/reload"),("create-truncate and write everything",BUF+" save"),("gap excluded from output",GB+" Display")],
 ["Buffer::from_file","Buffer::save","bytes on disk"])

prop("F02","Failed I/O is reported and harms nothing in memory",
 "When loading, saving or reloading fails at any point - missing or invalid path, not a file, invalid UTF-8, read or write error part-way, no space - the call returns an error. A buffer whose save or reload failed keeps its text, cursor, path and undo history, and does not become unmodified by it; once the fault is gone, retrying the same call succeeds with full effect.",
 ["fault_sequences","histories"],"every failing system call position (open, read, write, nth call, any error code) during load, save and reload, in any buffer state",
 "No existing test makes an I/O call fail; which call fails, and after how many bytes, is outside what unit tests sample.",
 [BUF,"src/errors.rs",WS],[("error propagation before any state change",BUF+" from_file/save/reload")],
 ["Buffer::save","Buffer::reload","Buffer::from_file","Workspace::open_buffer","injected I/O faults"])

prop("F03","Replacing and reloading swap in exactly the new text",
 "After replacing a buffer's content its text is exactly the given text, and after a successful reload exactly the file's; the cursor keeps its line and offset if that position exists, otherwise goes to the start of its line if that exists, otherwise to the very start. The buffer's id, path, syntax definition and change callback are kept. Both are ordinary undoable modifications, and replacing with identical text is not a modification at all.",
 ["inputs","histories"],"every old and new text, cursor position, edit history, and every external change of the file",
 "Tests use a single sample file and four cursor positions; they do not undo across reloads, mix replacements with groups, or use multi-byte or CRLF text.",
 [OPS+"replace.rs",BUF],[("fresh text store and cursor",OPS+"replace.rs replace_content"),("identical content ignored",OPS+"replace.rs Buffer::replace"),("reload via replacement",BUF+" reload")],
 ["Buffer::replace","Buffer::reload","Buffer::data","Buffer::cursor"])

prop("F04","Saving touches the file's content and nothing else on disk",
 "A save changes the content of the file its buffer's path leads to, and nothing else: the file keeps its permissions, owner and identity, hence its other hard links show the new content, symbolic links leading to it stay links and are written through, a file that did not exist is created with the usual permissions, and every other file and folder nearby - whatever its name - is as before, with no extra file left behind. Loading, reloading and failing to load, and a save that fails for its path, change nothing on disk; a save failing part-way changes nothing but the file itself.",
 ["inputs","histories","fault_sequences"],"every layout of folders, links, permissions and files with similar names, every sequence of loading, editing, saving and reloading, every failing call",
 "The one test of saving looks at the content of one temporary file; none looks at what is around it, at links, permissions, or at failing saves.",
 [BUF],[("opening the file itself for writing",BUF+" save"),("reading only",BUF+" from_file/reload")],
 ["Buffer::save","Buffer::from_file","Buffer::reload","folder contents, permissions, owners, inodes and link targets"])

prop("F05","File operations leave nothing behind in the process",
 "When a load, save, reload, opening by path or creation of a workspace returns, successfully or not, every file it opened has been closed again, nothing of it stays mapped, and the process is as before: its current directory, file mode mask, environment, signal handling and limits are the same, it holds no new pipes, sockets or watches, and no temporary file is left in the temporary or home folder. Hence files can be opened and saved any number of times, and be removed, replaced or unmounted while buffers hold their text.",
 ["histories","inputs","fault_sequences"],"every sequence of file operations, with every failing call, while any number of buffers is kept",
 "Tests look at results of single calls; a descriptor kept open, or a directory changed and not changed back on a failing path, shows after the call, or only after thousands.",
 [BUF,WS],[("files are opened, used and closed within the call",BUF+" from_file/save/reload"),("folders of definitions are only read",WS+" Workspace::new")],
 ["Buffer::from_file","Buffer::save","Buffer::reload","Workspace::open_buffer","/proc/self/fd, maps and status"])

prop("E01","Errors tell what went wrong",
 "Every error returned tells the actual cause. An error that the system reports while loading, saving, reloading, opening a path or creating a workspace is passed on with its kind and number; a file that isn't UTF-8 is reported as invalid data; reloading a buffer without a path, asking an empty workspace for tokens or a syntax update, asking for the tokens of a buffer without syntax, text the parser fails on, and definitions that cannot be loaded are each reported as just that. No call reports an error without a cause, and no earlier failure changes what a later error tells.",
 ["inputs","fault_sequences"],"every failing call of the system with every error it can give, every path and file that cannot be used, in any order",
 "Tests cover a few missing paths and syntaxes; they can neither make the system fail part-way nor tell whether its error is handed on.",
 ["src/errors.rs",BUF,WS,TOK],[("errors of the system are passed on",BUF+" from_file/save/reload"),("own kinds for missing things","src/errors.rs"),("failures of the parser are passed on",TOK)],
 ["Buffer::from_file","Buffer::save","Buffer::reload","Workspace::open_buffer","ErrorKind"])

prop("M02","What doesn't grow holds no more memory",
 "Repeating calls that leave text and history as they were - questions, searches, tokens, cursor movements and copies, undo followed by redo, edits that are undone again, empty groups, replacing by the same text, saving, reloading the same text, failing calls, visiting buffers, opening what is open, and adding or opening buffers and closing them again - any number of times holds no more than some fixed amount of memory: it does not grow with the number of repetitions.",
 ["histories"],"every repetition of such calls, with the same or with ever new arguments, however often",
 "Memory that is reachable but never used again - a cache without limit, a list of closed buffers, operations kept twice - gives right answers in every test, and is no leak to a leak checker.",
 [BUF,WS,"src/buffer/operation/history.rs",GB],[("operations move between two lists","src/buffer/operation/history.rs previous/next"),("closing removes the buffer",WS+" close_current_buffer"),("no caches",BUF+" data/search"),("freed space is used again",GB)],
 ["Buffer","Workspace","GapBuffer","bytes held, counted by the allocator"])

prop("D01","The same calls give the same results in every process",
 "Given the same files and the same calls, everything that can be observed - results, texts, cursors, modified flags, announcements, tokens, scopes, syntaxes, errors, the order of buffers, and the files written - is the same in every process. It does not depend on environment variables, locale, time zone or date, on the home, temporary or current directory (as far as paths given are absolute), on the file mode mask, limits or the number of processors, on arguments, standard streams, the thread or whether it was built with assertions, on hash seeds or addresses, nor on what the process did before.",
 ["histories","configurations"],"every history of calls, every environment and state of the process it runs in, any other histories before it",
 "Tests run in one environment at a time and compare with fixed expectations; a choice made by hashing, by an environment variable or by the clock shows only if the same calls are made again in another process.",
 [BUF,WS,GB],[("nothing but arguments and files is consulted",BUF+", "+WS),("buffers and definitions are kept in order",WS)],
 ["Buffer","Workspace","GapBuffer","LineIterator","TokenSet","files written"])

prop("P01","The work of a call is in proportion to what it deals with",
 "The work (instructions executed) of any call on a text store, buffer, cursor, line iterator, token set or workspace grows at most in proportion to the size of the texts involved (for a search: of the text times the search text), the number of open buffers, and the number of edits taken back or repeated. An edit, undoing or repeating one edit, asking for the modified flag and saving do not become slower with the length of the history or of the open group.",
 ["inputs","histories"],"every call, every shape of text (one line, many lines, clusters, CRLF), every place in it, every length of history, groups and number of buffers",
 "Tests use texts of a few lines, for which quadratic work is as quick as linear work; how work grows shows only when sizes grow, and wall-clock time measured in a test would be unreliable.",
 [GB,BUF,CUR,"src/buffer/operation/history.rs",WS],[("one pass over the text per lookup",GB+" find_offset"),("operations are moved between two lists","src/buffer/operation/history.rs"),("one pass over the text",BUF+" search/line_count"),("one pass over the buffers",WS)],
 ["GapBuffer","Buffer","Cursor","Workspace","instructions counted by valgrind"])

prop("U05","While a change is announced, the text can be read and already is the new one",
 "Whenever the change callback runs, the text store that the buffer shares with its cursor is not in use: the callback may read it, check positions against it, and place and move cursors on it. When a call makes its last announcement, the store holds exactly the text that the call leaves behind (replacing and reloading may exchange the store itself), so that what a client reads in answer to the announcement is what is there afterwards. Calls that leave the text alone by their nature - moves, saving, failing reloads, opening and closing groups, questions - announce nothing.",
 ["histories","inputs"],"every text-changing call in every state - edits, deletions of ranges, undo and redo of edits and groups, replacement, reload - with callbacks that read, check and place cursors",
 "The tests' callbacks record a position at most; whether the store is borrowed or half-way changed at that moment shows only if a callback uses it.",
 [BUF,OPS+"insert.rs",OPS+"delete.rs",OPS+"replace.rs"],[("change_callback is run after the change",BUF+" insert/delete_range/undo/redo/replace"),("shared store: Rc<RefCell<GapBuffer>>",BUF+", "+CUR)],
 ["Buffer::change_callback","GapBuffer read/in_bounds/to_string within the callback","Cursor placed within the callback"])

prop("Q01","Asking questions never changes anything",
 "Reading, searching, checking bounds, counting lines, asking for the text, the modified flag, the name or the tokens, and moving copies of a buffer's cursor or further cursors on its text have no effect that can be noticed: any history of edits, movements, undo, redo, groups, saves and reloads gives the same texts, cursor positions, return values, announcements and modified states with any number of such questions in between as without any. Nothing is announced by asking, and asking twice in a row gives the same answer.",
 ["histories","inputs"],"every history, with every way of asking questions in between",
 "Tests ask once, at the end; an answer that is remembered too long, or a question that moves something inside, needs a history with questions in the right places.",
 [BUF,GB,CUR,TOK],[("queries work on shared references and copies",BUF+" read/search/data/line_count"),("interior mutability only for the text store",BUF+" data: Rc<RefCell<GapBuffer>>"),("cursors own their position",CUR)],
 ["Buffer::read","Buffer::search","Buffer::data","Buffer::modified","Cursor","TokenSet::iter"])

prop("I01","Buffers are independent of one another",
 "What a buffer does depends only on what is done to it. Any history of calls on a buffer, its file operations included, gives the same texts, cursor positions, return values, announcements, modified states, tokens and undo history whatever other buffers existed before, exist besides, or are used in between, even with the same text or file, in a workspace or not, on the same thread or at the same time on others.",
 ["histories","schedules"],"every set of histories on different buffers, every order of taking turns between them, and any interleaving of threads each using buffers of their own",
 "Every test uses a single buffer; anything shared between buffers - a static, a thread-local, a cache keyed by text or path - would go unnoticed.",
 [BUF,GB,OPS+"history.rs",TOK],[("no static or thread-local state","src"),("every buffer owns its store, cursor and history",BUF+" Buffer")],
 ["all of Buffer's and Cursor's methods","TokenSet::iter"])

prop("S01","Search finds every occurrence, at usable positions, and nothing else",
 "Searching for a non-empty text without line breaks returns, in document order and without duplicates, the position of every grapheme cluster in which an occurrence begins, overlapping occurrences included, and no other position. Every returned position exists in the buffer, and if the occurrence starts at the beginning of that cluster, reading from there yields the searched text.",
 ["inputs","histories"],"every text and every search text, including multi-byte, combining, overlapping and repeated ones, after any edit history",
 "Tests count matches on one line of one text; they never relate returned positions to the text in lines containing multi-byte characters.",
 [BUF],[("per-line scan",BUF+" search")],
 ["Buffer::search","Buffer::read"])

prop("K01","Tokens reproduce the text losslessly with correct positions",
 "For any text and syntax, concatenating the token values of a buffer, with a line feed for every newline token, gives back exactly the text; no lexeme contains a line feed. Every lexeme starting at a grapheme boundary carries the position at which reading the buffer yields it, and positions never decrease. Iterating always ends and can be repeated with the same result, and every way of driving the iterator - skipping, stepping, counting, folding, taking the last - agrees with going token by token.",
 ["inputs"],"every text (including malformed source code, CRLF, combining characters, very long or empty lines) under every bundled or user-supplied syntax",
 "Tests lex two short snippets of one language and compare only a prefix of the tokens.",
 [TOK,"src/util/line_iterator.rs","src/buffer/token/token_set.rs",WS],[("per-line scope events cut the line into lexemes",TOK),("line splitting including final empty line","src/util/line_iterator.rs")],
 ["Workspace::current_buffer_tokens","TokenSet::iter"])

prop("K02","Tokens carry the scopes the syntax assigns",
 "Every non-empty lexeme carries exactly the scope stack that its syntax definition gives to its text when the whole document is parsed line by line from the start, and no lexeme spans text with differing scopes. This holds for any text, however many lines multi-line constructs span.",
 ["inputs"],"every text under every bundled or user-supplied syntax; the reference is an independent replay of the syntax parser's events",
 "Tests compare the tokens of a 4-line Rust snippet; parser state carried across many lines and other languages is unexplored.",
 [TOK],[("scope stack updated by parser events in order",TOK+" build_next_token"),("parser state kept across lines",TOK+" parse_next_line")],
 ["TokenSet::iter","Lexeme scope"])

prop("K03","Lexing failures surface as errors, never as panics or wrong results",
 "Asking for tokens without a current buffer, or for a buffer without a syntax definition, returns an error saying so. When the parser fails on a line, the failure is returned when it is the first line; otherwise iteration stops there with all tokens before it delivered intact and the error kept available on the iterator.",
 ["inputs","fault_sequences"],"every text and every line at which the parser fails (provoked with syntaxes whose definitions are missing from the set in use)",
 "No test makes the parser fail.",
 [TOK,WS,"src/errors.rs"],[("error stored and iteration halted",TOK+" next_token"),("missing buffer / syntax errors",WS+" current_buffer_tokens")],
 ["Workspace::current_buffer_tokens","TokenIterator error"])

prop("L01","Line iteration partitions the text",
 "Iterating over the lines of any text yields consecutively numbered lines from zero whose concatenation is exactly the text; every line but the last ends in its only line feed, and the last contains none (so text ending in a line feed yields a final empty line, and empty text yields one empty line). The number of lines equals a buffer's line count for the same text, and the iterator keeps returning nothing once it has ended. Every way of driving the iterator - skipping, stepping, counting, folding, finding, taking the last, asking for its size - agrees with going line by line.",
 ["inputs"],"every text",
 "Three fixed texts are tested; the claim is about all texts, including multi-byte ones and consecutive line feeds.",
 ["src/util/line_iterator.rs",BUF],[("scan to the next line feed","src/util/line_iterator.rs"),("line feed counting",BUF+" line_count")],
 ["LineIterator","Buffer::line_count"])

prop("G01","Positions, distances and ranges obey their algebra",
 "Positions are totally ordered by line, then offset, and ranges and line ranges built from two ends in either order are the same, start no later than they end, and include exactly what lies from the start up to but not including the end; they equal just those with the same ends. Adding the distance of a text to a position gives the position just after that text when it is inserted there (unless it merges with neighbouring characters), consistently whether added in place or not, and distances of concatenated texts add up. Converting a line range gives the range from the start of its first line to the start of its last line, or of the following line when inclusive.",
 ["inputs"],"all pairs and triples of positions and line numbers, all texts",
 "Tests check three comparisons, one addition and two ASCII distances; the laws quantify over all values and over multi-byte text.",
 ["src/buffer/position.rs","src/buffer/range.rs","src/buffer/line_range.rs","src/buffer/distance.rs"],[("lexicographic comparison and distance addition","src/buffer/position.rs"),("normalising constructors","src/buffer/range.rs, src/buffer/line_range.rs"),("distance of a string","src/buffer/distance.rs")],
 ["Position comparison and addition","Range::new/includes","LineRange","Distance::of_str"])

prop("W01","Workspace order and selection follow the documented rules",
 "A buffer added to or opened in a workspace is inserted directly after the current one and selected; next and previous move one place and wrap around; closing removes exactly the current buffer and selects the one before it, or the new first one when the first was closed. There is a current buffer exactly when the workspace is not empty, and the reported index and list of buffers always agree with it. On an empty workspace navigation and closing do nothing.",
 ["histories"],"every sequence of add, open, next, previous, close",
 "Tests run fixed sequences over at most three buffers.",
 [WS],[("check-out/check-in of the current buffer",WS+" select_buffer"),("index arithmetic",WS+" add_buffer/close_current_buffer/previous_buffer/next_buffer")],
 ["Workspace::current_buffer","Workspace::current_buffer_index","Workspace::buffer_paths"],
 [{"name":"current index and checked-out buffer","meaning":"which buffer is selected; its slot holds a placeholder","where":WS}])

prop("W02","Workspace operations never mix up, lose or alter buffers",
 "Whatever sequence of adding, opening, switching and closing happens, every open buffer keeps its own text, cursor, undo history, modified state, path and id; only closing a buffer removes it, and edits to one buffer never show in another. Ids are unique within a workspace, never change and are never reused.",
 ["histories"],"every sequence of workspace operations interleaved with edits, cursor movement, undo and redo on the current buffer",
 "Tests never edit buffers between switches and never look at anything but text of freshly added ones.",
 [WS],[("swapping instead of copying buffers",WS+" select_buffer"),("monotonic id counter",WS+" add_buffer")],
 ["Workspace::current_buffer","Buffer::id","Buffer::data"])

prop("W03","Opening by path never opens a file twice and never half-opens",
 "Opening a path whose file is already open in the workspace, by whatever spelling of the path (relative, with dot segments, through symbolic links), selects the existing buffer with its unsaved edits and adds none; otherwise exactly one buffer with the file's text and canonical path is added. If opening fails, an error is returned and the workspace - its buffers, their order, the selection - is unchanged.",
 ["inputs","histories","fault_sequences"],"every path spelling, every set of open buffers, every failing path",
 "Tests open the same relative path twice; no alternative spellings, symlinks, failing opens or more than two buffers.",
 [WS,BUF],[("canonicalised comparison",WS+" select_buffer_by_path"),("load before adding",WS+" open_buffer")],
 ["Workspace::open_buffer","Workspace::buffer_paths","Buffer::path"])

prop("W04","Buffers get the right syntax definition",
 "A buffer added without a syntax definition gets the one that the workspace's set has for its file extension, or for its file name when it has no extension, and plain text when there is none; a definition already present is kept when adding. Updating the current syntax re-derives it from the current path by the same rule, and affects only the current buffer. User syntax folders extend the set; a missing folder or workspace path is an error.",
 ["inputs","configurations"],"every path shape and extension known or unknown to bundled and user-supplied syntaxes",
 "Four paths are tested; no user-supplied definitions, no pre-assigned definitions, no updates after path changes to unknown types.",
 [WS,BUF],[("extension, then name, then plain text",WS+" update_current_syntax"),("only when missing",WS+" add_buffer"),("user folder added to defaults",WS+" new")],
 ["Buffer::syntax_definition","Workspace::update_current_syntax","Workspace::new"])

prop("W05","Reported buffer paths are right and relative when inside the workspace",
 "For every open buffer, in order, the list of paths holds its path relative to the workspace directory when it lies inside it, its path unchanged when it does not, and nothing when it has none; the current buffer's reported path and index agree with that list. File name and extension of a buffer are those of its path's last component.",
 ["inputs","histories"],"every path shape (inside, outside, sharing a name prefix with the workspace, non-UTF-8, none) and every order and selection",
 "Tests and examples use two files inside the workspace.",
 [WS,BUF],[("prefix stripping by path component",WS+" current_buffer_path/buffer_paths"),("name and extension",BUF+" file_name/file_extension")],
 ["Workspace::buffer_paths","Workspace::current_buffer_path","Workspace::current_buffer_index"])

prop("W06","A new workspace is empty, at its canonical path, with all its syntaxes",
 "Creating a workspace succeeds for every spelling of an existing path, relative or through links, and its path is that place's canonical one from then on, wherever the current directory moves. Its set holds exactly the bundled syntaxes, plus those in the given folder of definitions and its subfolders; a missing folder, a broken definition or a missing workspace path is an error, never a panic. A new or emptied workspace has no current buffer, index or paths, moving and closing do nothing, and asking for tokens or a syntax update is an error saying that it is empty. Creating one changes nothing on disk.",
 ["inputs","configurations"],"every spelling of the path and current directory, every folder of definitions, good, broken, nested or missing",
 "Tests create workspaces for one relative path without definitions, and no failing ones.",
 [WS],[("canonical path",WS+" new"),("defaults plus folder",WS+" new"),("errors for an empty workspace",WS+" current_buffer_tokens/update_current_syntax")],
 ["Workspace::new","Workspace::path","Workspace::syntax_set","Workspace::current_buffer"])

prop("A01","Storage growth is amortised and freed space is reused",
 "Over any run of insertions the text storage is reallocated only a logarithmic number of times in the final size, so a long editing session does not reallocate on every keystroke. Deleting text and inserting no more than was deleted reuses the freed space without reallocating, wherever in the text either happens.",
 ["histories"],"every sequence of insertions and deletions of any sizes at any positions, measured in storage replacements rather than time",
 "The tests observe content only; a change that reallocates on every insertion passes them all.",
 [GB],[("reserving with amortised growth",GB+" insert"),("gap widened by deletion",GB+" delete")],
 ["allocator events on storage that outlives the call"])

prop("F06","Only file operations touch files, and only the ones they were given",
 "Editing, asking, moving, searching, lexing, undoing, and navigating or closing in a workspace make no system call that reaches beyond the process: they open, read, list, look at or write no file, print nothing, wait for nothing, start nothing. Loading, saving, reloading, opening and creating a workspace touch only the path they were given (and what it leads through, and the files in the folder of definitions), open a bounded number of files, and read and write in blocks rather than bit by bit.",
 ["inputs","histories"],"every call in every state, on every path shape, whatever else lies around on disk",
 "Tests look at results only; a call that looks at the disk, prints, sleeps or writes byte by byte gives the same ones.",
 [BUF,WS,TOK,"src/buffer/token/mod.rs"],[("loading, saving and reloading whole files",BUF+" from_file/save/reload"),("canonical path and load",WS+" open_buffer"),("definitions from a folder",WS+" new")],
 ["every public call, at the system call boundary"])

prop("R02","The stack needed by a call doesn't grow with text or history",
 "No call on buffers, stores, cursors, lines, searches, tokens or histories needs more stack for a larger text, a longer line, a longer history, a larger group or more results: what it needs stays the same however large these get, also when they are dropped. Hence none of them overflows the stack and brings the process down.",
 ["inputs","histories"],"every call at every size, every length of history and group",
 "An overflow needs inputs far larger than those of the tests, which all use a few lines and a few edits.",
 [GB,CUR,BUF,OPS+"group.rs",OPS+"history.rs","src/util/line_iterator.rs",TOK],[("loops over bytes, lines and clusters",GB+" find_offset, line_iterator.rs"),("operations kept in flat lists",OPS+"group.rs, "+OPS+"history.rs")],
 ["stack written to by every public call, at two sizes"])

prop("M03","Memory is in proportion to text and history",
 "What a buffer holds is in proportion to its text plus the text its history can bring back: a small edit adds an amount that doesn't depend on the size of the text, and no question leaves anything behind that is out of proportion to the text. What a call needs at most while it runs grows no faster than the text, the history or the results it is about. Buffers added to a workspace each hold about the same, however many there are.",
 ["inputs","histories"],"every call at every size; every long run of small edits; workspaces of any number of buffers",
 "Tests measure no memory; keeping a copy of the whole text per edit passes them all.",
 [GB,OPS+"insert.rs",OPS+"delete.rs",OPS+"history.rs",BUF,WS],[("operations keep only what they inserted or removed",OPS+"insert.rs, "+OPS+"delete.rs"),("amortised growth",GB+" insert"),("buffers in a list",WS)],
 ["bytes held and most bytes held, at the allocator, per call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
