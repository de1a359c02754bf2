"""Every property, in one place. gen.py turns this into properties.jsonl and MANIFEST.json."""
PROPS = []
MC = "explicit exhaustive exploration of the real code (stateless model checking) against a reference model"


def P(id, title, statement, over, text, why, files, mech, crate, bounds, technique=MC, level="model_checking", **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=files.split(), mech=[dict(name=a, where=b) for a, b in mech], crate=crate, note=bounds,
                      technique=technique, level=level, kw=kw))


R = "rust/rope/src/"
P("C01", "Rope edits equal plain-string edits",
  "A text built and changed by any sequence of slices, concatenations, replacements and builder pushes always has exactly the contents, length, line structure and encoding-unit counts of the same sequence on a plain string. Its internal balance is never violated by such a sequence, earlier versions that are still held never change, and two texts with equal contents are equal whatever their history.",
  "inputs histories", "every sequence of edits, every text, every way the text is cut into pieces",
  "unit tests build a few ropes by a few routes; tree shape depends on the whole edit history and sizes, and the faulty shapes appear only at particular sizes and cut points",
  R + "tree.rs " + R + "rope.rs", [("balanced concat and subsequence", "rope/src/tree.rs Node::concat, TreeBuilder"), ("leaf split and merge", "rope/src/rope.rs Leaf for String")],
  "ropemc", "all edit sequences of the stated depth over all stated tree shapes: all pairs of 68 shapes under concat, all cuts, 2-3 edits deep; real 511/1024-byte leaves and a tiny leaf type for tall trees")
P("C02", "Text navigation agrees with a scan of the text",
  "Counting, converting and moving by code point, grapheme cluster, line and UTF-16 unit, forwards or backwards and from any position, give what a plain scan of the whole text gives. The answer does not depend on how the text is stored or on which movements were made before.",
  "inputs histories", "all texts over an alphabet of hard symbols, all cut points into leaves, all positions, all pairs of cursor moves",
  "tests check hand-picked positions of short single-leaf texts; the failures sit at leaf edges, cache edges and at positions inside a code point",
  R + "tree.rs " + R + "rope.rs", [("cursor and metrics", "rope/src/tree.rs Cursor"), ("grapheme stepping", "rope/src/rope.rs next_grapheme_offset")],
  "ropemc", "all texts of up to 4 symbols over 10 symbols with every leaf boundary; symbols straddling leaves; up to 70 leaves with sparse newlines; clusters across 8 leaves")
P("C03", "Search finds exactly the first match from any position",
  "Searching a text for a literal, with or without case, or for a regular expression, from any starting position returns the first match at or after that position as a plain scan of the text finds it, and nothing when there is none. Where the text is cut into pieces never matters.",
  "inputs", "all patterns and texts over the stated alphabets, all starts, all leaf boundaries, both case modes",
  "tests search a few ASCII strings in one leaf; missed matches need a pattern straddling leaves, a case-folding exception or a decoy prefix",
  R + "find.rs " + R + "compare.rs " + R + "tree.rs", [("chunked search", "rope/src/find.rs")],
  "ropemc", "patterns of 1-3 and texts of 0-4 symbols incl. case-folding specials; patterns over several leaves; 9 expressions over texts of 5 symbols")
P("C04", "Comparison and diff are exact",
  "Comparing two texts from either end finds exactly the first differing position, on a code point boundary, and the computed difference between two texts turns the first into exactly the second. This holds for any pair of texts and for any way each is stored.",
  "inputs", "all pairs of small texts, all leaf layouts and offsets; line documents under all move, duplicate and replace patterns",
  "tests diff a handful of hand-written documents; wrong results need repeated blocks, moved blocks or bytes shared between code points",
  R + "compare.rs " + R + "diff.rs", [("rope scanner", "rope/src/compare.rs RopeScanner"), ("line hash diff", "rope/src/diff.rs LineHashDiff")],
  "ropemc", "texts of up to 3 of 7 symbols; documents of up to 6 lines from 3 line kinds, both directions; 20-200 line documents under all change kinds; vectorised compare up to 70 bytes")
P("C05", "Change algebra is exact",
  "Applying a change gives the text its description denotes; splitting it into an insertion part and a deletion part, rebuilding it, and rebasing concurrent insertions over each other all give the same text, converging whichever is applied first. Positions and touched regions reported for a change are those of the characters themselves.",
  "inputs", "all changes and pairs of concurrent changes of short texts, in every equivalent encoding",
  "tests use a few hand-written changes; the algebra must hold for all combinations of insertions and deletions at equal positions",
  R + "delta.rs " + R + "multiset.rs", [("factor, synthesize, transform", "rope/src/delta.rs")],
  "ropemc", "all changes of texts of up to 6 characters (3 insertions per gap, any deletions, 3 encodings), all pairs of insertions in 4 characters, all visibility pairs over 9 characters")
P("C06", "Deletion-set algebra is exact",
  "Union, difference, exclusive or, complement and the expanding and shrinking transformations of sets of deleted characters act on every character as the same operation on its count. Index mapping and ranges reported for a set agree with counting the characters one by one.",
  "inputs", "all count vectors over {0,1,2} of bounded length, alone, in pairs and nested",
  "tests use hand-picked sets; run-length encodings hide errors at segment boundaries",
  R + "multiset.rs", [("run-length subset algebra", "rope/src/multiset.rs")],
  "ropemc", "all count vectors of length 10, pairs of length 6, nested pairs of length 8")
P("C07", "Span collections behave as a plain list of intervals",
  "A collection of highlight spans over a text, however it was built, spliced, merged with another or carried through edits, contains exactly the intervals and values that the same operations give on a plain list. No span is lost, duplicated, shifted or stretched.",
  "inputs histories", "all small span lists and operations; bulk lists across storage-leaf boundaries under all pairs of cut points",
  "tests merge a few hand-written lists; storage leaves split at 64 spans, so errors need particular counts and cuts",
  R + "spans.rs " + R + "tree.rs", [("interval tree", "rope/src/spans.rs")],
  "ropemc", "all non-overlapping span lists over 5 units (pairs under merge; all parts, replacements, transforms, truncations); lists of 1-700 spans with 2 operations of 7 kinds at all pairs of 8 cut points")
P("C08", "Line-break sets behave as a sorted list of offsets",
  "A set of line breaks built, cut and spliced in any way contains exactly the offsets of the same operations on a plain sorted list. Counting breaks, finding the n-th break and stepping between breaks agree with that list from every position.",
  "inputs histories", "all break sets of small texts and all replacements; sets of up to 700 breaks under all pairs of cut points",
  "tests build regular break sets; errors need breaks exactly at storage-leaf edges and particular counts",
  R + "breaks.rs " + R + "tree.rs", [("break tree", "rope/src/breaks.rs")],
  "ropemc", "all break sets over 6 units with all parts and replacements; sets of 1-700 breaks with 2 edits of 5 kinds at all pairs of 8 cut points")
P("C09", "Texts, changes and histories survive serialisation",
  "A text, a change or a whole document history written out and read back, from a string, bytes, a stream or a parsed value, is the same: same contents, same effect, same earlier revisions.",
  "inputs histories", "all texts over a hard alphabet, all changes of short texts, all short histories serialised at any point",
  "tests round-trip two or three samples; escapes, leaf boundaries and undone edits are not covered",
  R + "serde_impls.rs " + R + "engine.rs " + R + "multiset.rs", [("hand-written serialisation", "rope/src/serde_impls.rs")],
  "ropemc", "texts of up to 3 of 13 symbols around every leaf boundary; all changes of 3 characters; histories of 3 operations")
P("C10", "Concurrent edits of older revisions all take effect",
  "An edit made against any earlier revision inserts its text between the same neighbours and deletes the same characters in the current text, whatever happened since; concurrent insertions at one place are ordered by priority, then arrival. Every earlier revision can still be read back exactly, and the reported change from any revision to the current one is exact and keeps every surviving character.",
  "histories inputs", "all histories of the stated depth, each edit based on any earlier revision, with priorities",
  "tests use a few fixed pairs of edits; the outcome depends on the interleaving of bases, positions and priorities",
  R + "engine.rs " + R + "delta.rs " + R + "multiset.rs", [("rebasing of edits", "rope/src/engine.rs mk_new_rev"), ("revision contents", "rope/src/engine.rs deletes_from_cur_union_for_index")],
  "ropemc", "3 edits (all replacements of at most 2 characters, two-caret edits, 2 priorities) and 4 edits (7 kinds), each based on any earlier revision")
P("C11", "Undo and redo give exactly the text without the undone edits",
  "After any sequence of edits, undos and redos the text consists of exactly the characters inserted by edits that are not undone and not deleted by an edit that is not undone, in their original order. Returning to an earlier state is recognised as such, and two revisions called equivalent have equal texts.",
  "histories", "all sequences of edits in new or continued groups, edits of older revisions, and toggles of any group",
  "tests toggle a few groups in two fixed histories; interaction of concurrent deletes, undone inserts and re-done groups depends on the history",
  R + "engine.rs", [("undo as set of groups", "rope/src/engine.rs compute_undo"), ("equivalence", "rope/src/engine.rs is_equivalent_revision")],
  "ropemc", "5 steps with 7 edit kinds, 4 steps with edits of older revisions, 3 steps with all replacements")
P("C12", "Discarding old history never changes the document",
  "Discarding the history of undo groups that can no longer be toggled changes neither the current text nor the effect of any later edit, undo or redo of the remaining groups. Text that was undone stays undone.",
  "histories", "all histories in which any discardable groups are collected at any point, up to twice, then continued",
  "tests collect in three fixed histories; failures need interleaved groups and continued use after collection",
  R + "engine.rs", [("garbage collection", "rope/src/engine.rs gc")],
  "ropemc", "5 steps (edits of head or older revisions, toggles) and 6 steps with late edits of earlier groups; up to 2 collections of any abandoned groups plus any prefix of done groups")
P("C13", "Peers that exchange edits converge",
  "Peers that edit copies of a document and take over each other's edits in any order and direction end with the same text once they hold the same edits. That text contains every inserted character exactly once unless someone deleted it, and never reorders characters that a peer has seen.",
  "histories schedules", "all interleavings of edits and exchanges among 2 and 3 peers, in every session order",
  "tests merge a few fixed histories, mostly with two peers; divergence needs three peers and a particular exchange order",
  R + "engine.rs", [("merge", "rope/src/engine.rs merge, rearrange, rebase, compute_transforms")],
  "ropemc", "2 peers with up to 6 steps, 3 peers with 4 steps, 3 peers in 6 session orders with one edit each and all sequences of 5 exchanges")
P("C14", "A refused edit leaves no trace",
  "An edit that names an unknown revision, or a text length different from that of the revision it names, is refused with the right reason. The refusal changes nothing: text, history, undo state and later edits are as if it had never been sent.",
  "histories inputs", "every short history with a bad edit of every kind after every operation",
  "tests try one unknown revision; a partial effect would show only in later operations",
  R + "engine.rs", [("validation before commit", "rope/src/engine.rs try_edit_rev, mk_new_rev")],
  "ropemc", "histories of 2 operations with an arbitrary bad edit after each, then continued")
K = "rust/core-lib/src/"
P("C16", "No message sequence breaks the editor or its selection",
  "Whatever sequence of editing, movement, gesture, search, scroll and recording commands a front-end sends on whatever text, the core neither crashes nor hangs. After each of them the selection is non-empty, in order, without overlapping regions, and inside the text on character boundaries.",
  "inputs histories", "all sequences of the stated depth of over 120 commands, from all stated texts and selections, unwrapped and wrapped",
  "tests run a few commands on a few ASCII texts; crashes need a particular selection next to a multi-byte character, an empty line or the end of the text, or two commands in a row",
  K + "editor.rs " + K + "view.rs " + K + "edit_ops.rs " + K + "selection.rs " + K + "movement.rs " + K + "find.rs " + K + "word_boundaries.rs",
  [("command dispatch", "core-lib/src/event_context.rs dispatch_event"), ("selection through edits", "core-lib/src/view.rs after_edit, Selection::apply_delta")],
  "coremc", "every command from 9 texts (multi-byte, clusters, CRLF, huge numbers) and up to 9 selections each; every two commands from 4 texts and 4 selections (thorough: all, and every three from 2 texts); the same with two kinds of wrapping; thorough: full pairs and triples")
P("C19", "The front-end's line cache follows the document",
  "A front-end that applies the updates as the protocol defines them always holds the right number of lines and every line it shows. Each line it holds has the text, cursors, styles and line number that a full redraw of the document would give, and the annotations and the pristine flag are those of a full redraw.",
  "histories", "all sequences of the stated depth of over 120 commands, from all stated texts, selections and scroll positions, unwrapped and wrapped, with idle work done early or late",
  "tests compare a few updates of short documents; a stale line shows only after a sequence in which the cache's record of what the front-end holds and the document disagree",
  K + "view.rs " + K + "line_cache_shadow.rs " + K + "layers.rs " + K + "annotations.rs " + K + "linewrap.rs",
  [("incremental updates", "core-lib/src/view.rs send_update_for_plan"), ("record of the front-end's cache", "core-lib/src/line_cache_shadow.rs")],
  "coremc", "every command from 9 texts and up to 9 selections; every two commands from 4 texts; wrapped; every 3 (thorough: 4) of 22 commands on 30 lines of which 10 are shown; every two on 2100 lines, idle work early or late; a simulated front-end applies every update")
P("C15", "Sets of selected regions follow their merge rules and edits carry them along",
  "A set of selected regions stays sorted and disjoint: adding merges regions that overlap (and carets at the edge of a region, but not two regions that only touch), adding distinct regions is refused on overlap, and removing or querying a range covers exactly the regions that meet it. An edit moves every region with the text it covers, and with drift keeps insertions at its edges inside or outside as asked.",
  "inputs", "all sets of up to 4 regions on short texts, all additions, removals and queries, all deltas of a bounded size",
  "tests check a dozen hand-written sets; off-by-one merges show only when carets, touching and overlapping regions combine",
  K + "selection.rs", [("merge on add", "core-lib/src/selection.rs Selection::add_region, should_merge"), ("edits", "core-lib/src/selection.rs Selection::apply_delta, delete_range, regions_in_range")],
  "coremc", "all sequences of 4 additions of forward and backward regions on texts up to 5 long; all removals, queries; all deltas with two replaced pieces, drift and no drift, against a naive model")
P("C17", "Editing commands change exactly the text they name",
  "Each editing command (typing, deleting by character, word, line and paragraph, newline, tab, indent, outdent, transpose, duplicate line, case change, capitalise, number change, cut, copy, yank, paste) changes the text exactly as its name says at every selected region, and nothing else. Afterwards the carets are where a plain editor would put them.",
  "inputs", "all texts over small alphabets up to the stated length, all selections of up to 2 regions, all commands",
  "tests run each command on one or two ASCII texts with one caret; errors need multi-byte clusters, empty lines, missing final line breaks or several regions",
  K + "edit_ops.rs " + K + "editor.rs " + K + "backspace.rs " + K + "word_boundaries.rs " + K + "movement.rs",
  [("edit commands", "core-lib/src/edit_ops.rs, core-lib/src/editor.rs do_edit_command"), ("carets after edits", "core-lib/src/view.rs set_selection_for_edit")],
  "coremc", "all texts up to 3 (thorough: 4) of 6 symbols (letters, space, newline, multi-byte) with all selections and 60 commands; cluster and CRLF texts; curated longer texts; chains of commands; spaces and hard tabs; against a reference editor")
P("C18", "Undo and redo retrace the steps; pristine means the saved text",
  "Undo and redo step back and forth through the texts between which a user's edits moved, joining only consecutive edits of one kind, at least the last 19 steps deep, and an edit after an undo discards the undone steps. A document is reported as pristine only if its text is the saved one, and is so reported again when undo or redo return to the saved state.",
  "histories", "all sequences of the stated depth of edits of every kind, movements, undo, redo and saving",
  "tests undo one or two edits; group boundaries, the limit and the flag go wrong only in longer mixed histories",
  K + "editor.rs " + K + "view.rs", [("undo groups", "core-lib/src/editor.rs calculate_undo_group, do_undo, do_redo"), ("pristine", "core-lib/src/editor.rs set_pristine, is_pristine")],
  "coremc", "all sequences of 6 (thorough: 7) of 6 commands and of 3 (thorough: 4) of 17; 17 to 41 steps with up to 20 undone and 3 (thorough: 4) more commands; every run ends with undoing and redoing everything")
P("C20", "Movements and gestures select exactly what they say",
  "Each movement command puts every caret (or the moving edge of every selection) where its name says: by character, word, line, paragraph, page or document, with vertical motion keeping its column. Each gesture (click, drag, double and triple click, toggle, extending, multi-select) selects exactly the named unit at the given position.",
  "inputs histories", "all texts over small alphabets up to the stated length, all selections of up to 2 regions, all movements; pairs and vertical runs; all short gesture sequences",
  "tests move one caret on ASCII text; errors need clusters, empty lines, several regions that merge, or a column kept across short lines",
  K + "movement.rs " + K + "view.rs " + K + "word_boundaries.rs " + K + "line_offset.rs",
  [("movements", "core-lib/src/movement.rs region_movement"), ("gestures", "core-lib/src/view.rs do_gesture, do_drag, extend_selection")],
  "coremc", "all texts up to 3 (thorough: 4) of 5 symbols with all selections and 45 movements; clusters and CRLF; pairs; vertical runs of 4; sequences of 2 gestures; drags; against a reference editor")
P("C21", "Search shows, visits and replaces exactly the matches in the text",
  "Once a search has settled, the matches reported to the front-end (annotations, number, lines) are those of a left-to-right scan of the current text, however the text was edited before, during or after the search and wherever the view was scrolled. find_next and find_previous with wrap-around visit them in text order, find_all selects them all, and replacing replaces exactly them.",
  "inputs histories", "all short texts, queries, edits at one or two regions, and selections; all short sequences of query changes and edits; a text of several search batches edited at every stage",
  "tests search fixed texts and edit once or twice; lost or stale matches show only for particular edits next to a match, on the last line, or while a search is under way",
  K + "find.rs " + K + "view.rs " + K + "selection.rs " + K + "event_context.rs",
  [("matches through edits", "core-lib/src/find.rs update_highlights, update_find"), ("search in batches", "core-lib/src/view.rs do_find"), ("navigation", "core-lib/src/find.rs next_occurrence"), ("replacing", "core-lib/src/editor.rs do_replace")],
  "coremc", "20 queries (literal, any case, whole words, regular expressions) on all texts up to 4 (thorough: 5) of 3 symbols and 3 (thorough: 4) of 5, every replacement of one region, of two regions, two in a row, undo; every selection for navigation; 3 (thorough: 4) query changes and edits; 1.2 MB in batches; regular expressions without anchors or word boundaries")
P("C22", "Wrapping lays the text out at the current width, however it came about",
  "Once idle work is done, the visual lines are the greedy layout of the current text at the current width or column count (unbreakable units end only at line break opportunities, mandatory breaks are kept, a line holds as many units as fit), whatever edits, resizes, setting changes and scrolls led there and in however many batches the work was done. Joined they are the text, only first parts of a line carry its number, positions map to offsets and back, and other views' settings have no influence.",
  "inputs histories", "all short texts and widths; all short sequences of edits, resizes, setting changes, scrolls and idle steps; texts of several leaves and several wrapping batches",
  "tests wrap a few fixed texts from scratch; stale or missing breaks show only after particular edits while wrapping is under way, away from the visible part or across views",
  K + "linewrap.rs " + K + "width_cache.rs " + K + "view.rs " + K + "event_context.rs",
  [("wrapping in batches", "core-lib/src/linewrap.rs Lines::after_edit, do_wrap_task, patchup_tasks"), ("widths", "core-lib/src/width_cache.rs"), ("scheduling", "core-lib/src/event_context.rs rewrap, update_wrap_settings")],
  "coremc", "all texts up to 5 (thorough: 6) of 5 symbols at 9 widths with every visual position; wide and joined characters; every replacement of short texts, and two in a row; every 4 (thorough: 5) of 16 settings, edits, scrolls and idle steps; splits of the storage; two views; every 3 (thorough: 4) of 15 operations on 1100 lines; against a naive layout")
R = "rust/rpc/src/"
P("C23", "RPC messages are handled in order, answered once, and answers reach their askers",
  "Whatever the schedule of the threads using a connection and however the bytes arrive, every message is handled exactly once and in order, every request gets exactly one response with its id, each request made to the peer gets the answer to it, and messages written by several threads do not mix. Idle tokens run exactly once each, in order, only when no message is waiting, and timers never before their time.",
  "schedules", "all schedules of the reading thread, the handling thread and up to three other threads within a preemption or delay bound, all answer orders, all ways the bytes arrive in up to three pieces",
  "tests run one schedule each; lost wake-ups, answers to the wrong asker and mixed-up messages need a switch between two particular operations",
  R + "lib.rs " + R + "parse.rs", [("run loop", "rpc/src/lib.rs RpcLoop::mainloop, next_read"), ("requests and responses", "rpc/src/lib.rs send_rpc_request_common, handle_response"), ("idle work and timers", "rpc/src/lib.rs try_get_idle, check_timers"), ("parsing", "rpc/src/parse.rs")],
  "rpcmc", "the crate's own code under a controlled scheduler with virtual time: all schedules with up to 2 preemptions or 2 delays (thorough: 3) for one to three messages of 10 kinds, two or three requesting threads, three writers, idle work and timers")
P("C24", "A connection that ends or breaks leaves nobody waiting and blocks no lock",
  "However and whenever a connection ends (end of input, read error, malformed or unknown message, failing writes, a panicking handler), the loop returns with the matching result, and every request made before, during or after that gets exactly one answer: its own or an error. Callbacks may make requests and take locks that are held where requests are made. Responses that make no sense are ignored, and a loop can serve another connection.",
  "schedules fault_sequences", "all schedules within a delay bound, of all 7 ways to end, with requests outstanding in all combinations of two threads, writing failing from every call on",
  "tests end connections when nothing is under way; hangs need the end to fall between two operations of another thread",
  R + "lib.rs " + R + "parse.rs", [("disconnecting", "rpc/src/lib.rs disconnect, PanicGuard, mainloop"), ("failing requests", "rpc/src/lib.rs send_rpc_request_common, ResponseHandler"), ("malformed messages", "rpc/src/parse.rs RpcObject")],
  "rpcmc", "the crate's own code under a controlled scheduler: all schedules with up to 2 (thorough: 3) delays of a message, a thread or two with requests outstanding and 7 ways to end; callbacks under a lock; writes failing from each of the first 5 calls; pairs of nonsensical responses; two connections in a row")
P("C25", "Edits by plugins merge with the user's, whatever text they were made against",
  "A plugin's edit of any revision it has not yet moved past takes effect on the current text exactly where it was meant (between the same surviving neighbours, deleting exactly the named characters), carets do not move over characters, and undo and redo treat it as part of its undo group. Every plugin and the front-end can at all times put together the current text from the updates and pieces they are sent; edits that cannot be applied change nothing.",
  "histories", "all short sequences of user edits, plugin edits against every revision still in use, undo, redo, acknowledgements and refused edits, with one and two plugins",
  "tests apply one plugin edit to the latest text; the rebasing, undo groups and garbage collection interact only in longer histories with unacknowledged updates",
  K + "editor.rs " + K + "event_context.rs " + K + "plugins/rpc.rs rust/rope/src/engine.rs",
  [("plugin edits", "core-lib/src/editor.rs apply_plugin_edit, get_active_undo_group"), ("updates to plugins", "core-lib/src/event_context.rs update_plugins"), ("reading text", "core-lib/src/editor.rs plugin_get_data"), ("rebasing", "rope/src/engine.rs try_edit_rev")],
  "coremc", "all sequences of 3 (thorough: 4) edits at every place of texts up to 2, with two priorities, own or shared undo groups and all revisions in use, undo, redo, acknowledgement, refusal; of 4 (5) at the ends; of 3 (4) with two plugins; of 2 (3) with a full undo list; all pieces of seven texts; edits around 1 MiB; against a naive list of all characters that ever were")
P("C26", "Saving and opening keep files intact; other programs' changes are never lost",
  "Opening a file shows exactly its text and saving writes exactly the view's text (with its byte order mark, permissions, symbolic link and the configured final line ending), touching no other file. An unmodified view follows what other programs do to its file, a modified one keeps its text, and a save never goes over contents the view has not seen: it is refused with an alert instead. A view counts as unmodified only while its text is what was last loaded or saved.",
  "histories", "all short sequences of edits, saves, saves under another name, external writes, replacements and removals, event deliveries and undo; every point of opening, saving and reloading at which another program may act",
  "there are no tests of saving or reloading at all; the defects need an external program acting at a particular point between two operations",
  K + "file.rs " + K + "tabs.rs " + K + "watcher.rs " + K + "event_context.rs",
  [("loading and saving", "core-lib/src/file.rs FileManager, try_save, try_load_file"), ("external changes", "core-lib/src/tabs.rs handle_open_file_fs_event, core-lib/src/watcher.rs"), ("final line ending", "core-lib/src/event_context.rs text_for_save")],
  "coremc", "all sequences of 6 (thorough: 7) of 6 operations and of 4 (5) of 12 on one file; of 6 (7) with undo; of 5 (6) of 11 on two views; 192 kinds of first saves; texts of 28 lengths around leaf limits; another program acting before every file operation; against the files themselves")
P("C27", "A save that fails or is interrupted leaves the old file or the new one",
  "Whatever operation of a save fails, and wherever the process is killed or the machine loses power during it, the file holds the complete old or the complete new contents, is at no time readable by more users than before, and no other file is touched or (unless killed) left behind. A failed save is reported, the view keeps its text and still counts as modified, and the next save goes through; failing to read leaves views as they were.",
  "crash_points", "every file operation of eight kinds of save fails in five ways, or is the last one that happens, wholly or in part; of opening and reloading too",
  "faults and crashes cannot be provoked by the unit tests, and there is none for saving",
  K + "file.rs " + K + "tabs.rs",
  [("atomic replacement", "core-lib/src/file.rs try_save, write_text, create_temp_file"), ("reporting", "core-lib/src/tabs.rs do_save")],
  "coremc", "the libc calls of the real code are intercepted: each of them fails (EIO, ENOSPC, EINTR, EACCES, short write), is the last before a kill (also in the middle of a write), or before a loss of power under a model where names change in order and unsynced contents may be cut anywhere; then the file is reopened and saved again")
P("C28", "Styles and annotations shown are those the plugins reported, moved with the text",
  "Once idle work is done, every piece of text the front-end shows has exactly the attributes that the latest reports of the running plugins and the current theme give it (merged in plugin order), with every style id defined before use, and every annotation covers the text it was reported for. User edits, reports for older revisions, theme changes and stopping plugins (whose styles and annotations vanish) leave no piece of text that no one changed with another style or annotation.",
  "histories", "all short sequences of user edits, reports of two plugins for current and older revisions, partial replacements, theme changes, idle steps and stops",
  "tests cover one report to one layer without edits; misplacement needs an edit between a revision and the report for it, or a theme change or stop after it",
  K + "layers.rs " + K + "styles.rs " + K + "annotations.rs " + K + "editor.rs rust/rope/src/spans.rs rust/rope/src/delta.rs",
  [("merging of layers", "core-lib/src/layers.rs Layers, ScopeLayer"), ("style ids", "core-lib/src/styles.rs ThemeStyleMap"), ("annotations", "core-lib/src/annotations.rs, core-lib/src/view.rs"), ("rebasing of reports", "core-lib/src/editor.rs update_spans, update_annotations; rope/src/delta.rs Transformer")],
  "coremc", "all sequences of 4 (thorough: 5) of edits, reports of spans and annotations of two plugins for held revisions, theme changes, stops; long texts over several storage leaves; against tagged characters and the highlighting library's own resolution of complete scope stacks")
P("C29", "No message, however wrong, ends the core or touches what it was not meant for",
  "Whatever well-formed JSON message a front-end or plugin sends (numbers out of range, unknown names, closed or invented views, settings of the wrong type, malformed deltas and ranges, unknown revisions), the core keeps running, answers each request exactly once, with an error if it names a view that is not open, and changes no text but that of the view named. Afterwards every view still shows its text and can be edited, wrapped, saved and closed.",
  "inputs fault_sequences", "every message of about 165, each to an open, another, a closed and an invented view, alone and after every setting, command or plugin message",
  "tests send few messages and hardly any wrong ones; many defects need a setting first and then a particular command",
  K + "tabs.rs " + K + "editor.rs " + K + "event_context.rs " + K + "config.rs " + K + "plugins/rpc.rs",
  [("dispatch", "core-lib/src/tabs.rs CoreState"), ("validation of plugin messages", "core-lib/src/editor.rs, core-lib/src/layers.rs"), ("settings", "core-lib/src/config.rs")],
  "coremc", "every message of 165; every pair setting then command, command then plugin message, plugin message then plugin message, with and without idle work between, each for four kinds of view; any two and three messages of selected kinds; ten wrong answers to requests to measure text; texts of all views compared after each")
P("C30", "Views and plugins come and go in order, as front-end and plugins see it",
  "Every running plugin is told of each open view exactly once, with its right size and settings, before anything else about it, of its closing exactly once, and of nothing about other views or after it was asked to shut down; what an ended plugin still sends has no effect. The front-end hears plugin_started and plugin_stopped exactly paired per view and nothing about closed views; ids are never reused, and requests about closed views fail with 404.",
  "histories", "all short sequences of opening, closing, typing, setting changes, idle work, timers, and plugins connecting, stopping, ending, answering well or badly",
  "tests open one view and have no plugins; the defects need a plugin or a close to fall between creating a view and the idle work that completes it",
  K + "tabs.rs " + K + "plugins/mod.rs " + K + "event_context.rs " + K + "client.rs",
  [("views", "core-lib/src/tabs.rs do_new_view, do_close_view, finalize_new_views"), ("plugins", "core-lib/src/tabs.rs plugin_connect, plugin_exit, after_stop_plugin"), ("messages to plugins", "core-lib/src/plugins/mod.rs Plugin; core-lib/src/event_context.rs")],
  "coremc", "all sequences of 5 (thorough: 6) of 14 operations with up to three views and two plugins, with and without a plugin at the start; of 7 (8) of 7 operations; against a list of who was told what")
P("C31", "Settings come from the strongest source, and everybody is told",
  "After any history of settings given by message, read from files and changed or removed there, languages set and files opened or saved, what the front-end and every plugin have been told of a view's settings and language equals what get_config reports: for each key the user's override, then what the text's white space shows, then the language's settings, then the general ones, then the defaults. Tables and files with a value of the wrong type are refused as a whole, with an alert, and change nothing; typing, indentation and line endings follow the settings in force, and what is detected in a text does not depend on how the text is stored.",
  "histories inputs", "all short sequences of setting changes by message and by file over several keys, languages and views; all short texts under white-space and line-ending detection",
  "tests merge two tables; the defects need a change between the steps of opening a view, a file that changes on disk, or a text stored in several pieces",
  K + "config.rs " + K + "tabs.rs " + K + "whitespace.rs " + K + "line_ending.rs " + K + "syntax.rs " + K + "event_context.rs",
  [("merging", "core-lib/src/config.rs ConfigManager, ConfigPair"), ("files", "core-lib/src/config.rs, core-lib/src/tabs.rs handle_config_fs_event"), ("detection", "core-lib/src/whitespace.rs, core-lib/src/line_ending.rs"), ("telling", "core-lib/src/event_context.rs config_changed, language_changed")],
  "coremc", "all sequences of 4 (thorough: 5) of setting changes by message over general, language and view domains; of changes, removals and bad contents of settings files; of opening, saving and language changes with idle work anywhere between; all texts of up to 5 lines of 6 kinds, and all ways to cut texts into pieces of storage; against a plain merge of tables")
P("C32", "A plugin's cached document is the document, and no pending work is lost",
  "Whatever parts of a document a plugin's cache holds and whatever edits it is told of, every line, region and offset it returns is that of the current text, requests outside the text fail, and nothing loops. States kept per line stay with their lines, and after any edits in between, work that follows the frontier ends with every line computed from the state that work from scratch would give it.",
  "histories", "all short sequences of questions, edits and steps of work on small documents that are handed out in pieces of a few bytes",
  "tests apply single edits to a cache that holds everything; what is lost needs two or three edits before the pending work is done",
  "rust/plugin-lib/src/base_cache.rs rust/plugin-lib/src/state_cache.rs",
  [("text", "plugin-lib/src/base_cache.rs ChunkCache"), ("states and frontier", "plugin-lib/src/state_cache.rs StateCache")],
  "coremc", "all documents of up to 5 (thorough: 6) characters, each part loaded, each edit at one place or several, then each question; two rounds on documents of 3 (4); 2 and 3 edits of documents of 4 lines with any amount of work between; caches of 2 or 3 states with every choice of the one that goes; against a plain string and work from scratch")
P("C33", "Plugins built on the plugin library see the core's text; their work lands right",
  "Whatever the order in which the user's edits, the core's messages, the plugin's messages and its idle work happen, a view of the plugin library returns exactly the text of the revision it was last told of, and its settings, path and language are those the core has told. When all is quiet, text that a plugin highlights step by step has the styles that highlighting the final text from scratch would give, and edits with which it answers to typing are in the text once, beside what they answer to, and are undone with it.",
  "schedules histories", "all interleavings of user actions, deliveries in both directions, idle work, and user actions while the plugin waits for an answer",
  "no test runs the library against the core; what goes wrong needs several edits in flight",
  "rust/plugin-lib/src/dispatch.rs rust/plugin-lib/src/view.rs rust/plugin-lib/src/state_cache.rs " + K + "editor.rs " + K + "event_context.rs " + K + "plugins/rpc.rs",
  [("plugin side", "plugin-lib/src/dispatch.rs Dispatcher, plugin-lib/src/view.rs View"), ("core side", "core-lib/src/event_context.rs update_plugins, core-lib/src/editor.rs")],
  "coremc", "the real core and the real dispatcher in one process, the harness being the pipe: every sequence of 8 (thorough: 10) of user action, delivery either way, idle work, user action during a request, with at most 3 user actions; every 2 (3) edits at each place; 5 (6) of setting changes, saves, commands, hover requests, closing; messages pass as JSON")
P("C34", "A language server sees the document as it is; its answers reach whoever asked",
  "Whatever the user types, deletes, undoes, saves and closes, in whatever order messages between core, plugin and language server arrive, and however late the server is ready: the server is initialised once, told of every open document once, of its closing once, of no change before its opening, and when all is quiet its copy of each document equals the core's text. A hover request names the place asked about; each is answered at most once, in the view that asked, with the server's own answer for it. A server that is missing, ends, or sends something senseless or cut short never ends the plugin nor stops it serving other messages.",
  "schedules histories fault_sequences", "all interleavings of user actions, deliveries, idle work and server answers with up to two documents; all edits at all places of texts with surrogate pairs and line ends; all cuts of the byte stream",
  "the language server library has no tests of this; what goes wrong needs a deletion, an edit before the server is ready, or a view closed while an answer is under way",
  "rust/lsp-lib/src/lsp_plugin.rs rust/lsp-lib/src/language_server_client.rs rust/lsp-lib/src/utils.rs rust/lsp-lib/src/conversion_utils.rs rust/lsp-lib/src/parse_helper.rs rust/lsp-lib/src/result_queue.rs",
  [("changes and positions", "lsp-lib/src/utils.rs get_document_content_changes, lsp-lib/src/conversion_utils.rs"), ("order", "lsp-lib/src/language_server_client.rs, lsp-lib/src/lsp_plugin.rs"), ("framing", "lsp-lib/src/parse_helper.rs read_message"), ("answers", "lsp-lib/src/result_queue.rs ResultQueue")],
  "coremc", "the real core, dispatcher and language server plugin in one process, with a server that keeps its documents as the protocol's reference implementation does: every 2 edits at each place, every sequence of 6..7 (thorough: 8..9) steps with up to 3 user actions and up to two documents, servers of each sync kind; 27 senseless messages at 4 moments; the end of the server at each moment; one or two framed messages cut at each place and ended at each place")
P("C35", "Recorded commands play back as if typed, in one undo step",
  "Playing a recording does what typing the recorded commands again would do: the same text, selection, kill ring and search, shown to the front-end and told to plugins as any edit, and in one undo step, or none (leaving redo available) if it changes no text. Edits that undo took back while recording are not played, those redone are. Recordings are kept by name, started, stopped, replaced and cleared as asked, whatever the view; playing one that does not exist, or playing while recording, disturbs nothing.",
  "histories", "all sequences of recordable commands up to a depth, from all starts, with all histories of undo and redo while recording, and all sequences of starting, stopping, playing and clearing recordings in several views",
  "the tests of the recorder look at lists of a few events; whether playing them equals typing them shows only over whole histories of commands, selections and undo",
  "rust/core-lib/src/recorder.rs rust/core-lib/src/event_context.rs rust/core-lib/src/editor.rs",
  [("recordings", "core-lib/src/recorder.rs Recorder, Recording::filter_undos"), ("playing", "core-lib/src/event_context.rs dispatch_event PlayRecording"), ("undo step", "core-lib/src/editor.rs calculate_undo_group")],
  "coremc", "every sequence of up to 2 of 40 recordable commands from 5 texts with up to 4 selections and 3 histories; every 3 of 13 commands (thorough: of 20, and 4 of 13); every recording of up to 6 (thorough: 7) edits, motions, undos and redos; every 5 (thorough: 6) of 10 commands that start, stop, play and clear recordings in one view, 4 in two; recordings of 2 commands played while a plugin follows and edits")
