import subprocess,json
def h(s): return subprocess.check_output(["git","-C","/repo","log","--format=%h","-1","--fixed-strings","--grep",s],text=True).strip()
L=[("C02","next codepoint boundary","moving to the next code point from inside a code point skipped or panicked"),
("C02","grapheme motion across","grapheme motion stopped inside a cluster that spans more than two leaves"),
("C04","backward comparison","backward comparison stopped inside a code point"),
("C04","diff copying","diff copied the same base region twice and produced an inverted delta"),
("C03","non-ASCII uppercase first letter","case-insensitive search missed matches of a pattern starting with a non-ASCII capital"),
("C03","capital sigma","case-insensitive search missed matches of a pattern ending in capital sigma"),
("C05","deleted regions","deleted regions reported for a change that also inserts were shifted or missing, leaving stale search highlights"),
("C12","interleaved with later groups","collecting an undo group whose edits are interleaved with those of a live group corrupted the history and panicked on the next undo or collection"),
("C12","undone edit reappearing","an undone edit that was the last revision when its group was collected reappeared at the next undo"),
("C13","three peers","three peers with concurrent insertions at one place ended with different texts, depending on the order of exchange"),
('C16','fix: capitalizing words with multi-byte first letters or in overlapping regions','capitalize panicked on multi-byte letters and overlapping regions'),
('C16','fix: transposing at the end of a line with multi-byte or overlapping regions','transpose panicked or duplicated text with several carets or at the ends'),
('C16','fix: splitting a selection into lines cut into characters','splitting a selection into lines panicked or selected past the end'),
('C16','fix: find with empty matches and with whole words next to multi-byte characters','find panicked on empty matches and on whole words with multi-byte neighbours'),
('C16','fix: scroll and line requests with an inverted or negative range','scroll and line requests with an inverted or negative range panicked'),
('C16','fix: changing a number that several carets are next to','changing a number under several carets panicked'),
('C16','fix: deleting backwards with carets whose deletions overlap','deleting backward with overlapping regions panicked'),
('C16','fix: regex search not ending when it runs out of lines','a regex search never ended when out of lines'),
('C16','fix: inserting tabs with several regions on one line','inserting a tab with several regions on one line panicked'),
('C16','fix: adding a selection next to an empty last line','adding a selection next to an empty last line panicked'),
('C19','fix: cursors not removed from lines that keep their text','cursors were not removed from lines that keep their text'),
('C19','fix: find highlights not sent for lines the front-end already has','find highlights were not sent for lines the front-end already has'),
('C19','fix: caret at the end of the text drawn on the last two lines','a caret at the end of the text was drawn on the last two lines'),
('C19','fix: cursors of merged selections left behind on lines that were not edited','cursors of merged selections were left behind on lines that were not edited'),
('C17','fix: deleting to the end of the paragraph does nothing','delete to the end of the paragraph did nothing on a last line without line ending'),
('C17','fix: duplicate line does nothing on a last line','duplicate line did nothing on a last line without line ending, and added a blank line when the next line was the empty last one'),
('C17','fix: outdent does nothing when a wide cluster','outdent did nothing when a wide cluster straddled the tab width'),
('C15','fix: panic when deleting an empty range of regions','deleting an empty range at the end of a region underflowed'),
('C15','fix: second of two touching regions','the second of two touching regions was left out of range queries and deletions'),
('C21','fix: search matches lost, split or stale','search matches were lost, split or left stale by edits next to them'),
('C21','fix: finding the next match stuck','find_next was stuck on the second of two adjacent matches, find_previous on the first'),
('C22','fix: column widths and measured widths mixed up','a view wrapped at columns used widths measured in pixels for another view of the same core'),
('C22','fix: lines outside of the visible part never wrapped after an edit','after an edit outside of the visible part its lines stayed unwrapped until some other event'),
('C24','fix: a response with an id that is not a number','a response with an id that is not a number panicked the reader and the loop never returned'),
('C24','fix: requests made while or after a connection ends','requests made while a connection ends, after it, or whose writing fails could deadlock or wait forever'),
('C24','fix: what was left of a connection','a message read but not handled when a connection ended made the next mainloop on the same loop return at once'),
('C25',"fix: a plugin's answer to an undo","a plugin's edit made in answer to an undo, in the undo group it was told, became part of the undone step and vanished"),
('C25','fix: refused plugin edits','a plugin edit that could not be applied discarded the redo steps and added an empty undo step'),
('C25','fix: line_count and get_selections','line_count and get_selections requests of plugins were rejected as malformed'),
('C26','fix: a change made to a file while it was being read','a change made to a file between reading it and taking its modification time was overwritten without notice'),
('C26','fix: saving a file under another name dropped','save as dropped the byte order mark'),
('C27','fix: saving overwrote an unrelated file','a save destroyed an existing file called <name>.<ext>.swp, and left such a file behind when it failed'),
('C27','fix: a crash of the system after a save','the rename of a save could reach the disk before the contents'),
('C27','fix: a private file was readable','during a save, and after a crash in it, a private file had default permissions'),
('C26','fix: a change made to a file right after a save','a change made to a file between the rename of a save and taking the modification time was overwritten without notice'),
('C26','fix: a save overwrote changes of another program','a save overwrote changes that no event had reported yet'),
('C26','fix: saving through a symbolic link','a save replaced a symbolic link by a file'),
('C26','fix: a file replaced by another program','after a file had been replaced (also by a save of xi) or recreated, changes to it were no longer noticed; a deleted file emptied its unmodified view'),
('C28','fix: a scope stack was shown without style','a scope stack was shown without style unless its parents were registered before'),
('C28','fix: after a change of the theme scopes','after a change of the theme scopes kept attributes of the old theme'),
('C28','fix: styles were resolved again','styles were resolved again at the wrong place after an edit'),
('C28','fix: annotations of plugins were misplaced','annotations were misplaced after edits, and when they did not begin at the start of the text'),
('C28','fix: annotations of a plugin stayed','annotations of a plugin stayed after it stopped'),
('C30','fix: messages of a stopped plugin','messages of a stopped plugin were still carried out'),
('C28','fix: an insertion at the end of a region','an insertion at the end of a region was ignored when what a plugin said of it was rebased'),
('C29','fix: saving to a path that does not end','saving to a path that does not end in a file name never ended'),
('C29','fix: Tab with tab stops','Tab with tab stops more than 32 columns apart ended the core'),
('C29','fix: saving a trace ended','saving a trace ended the core when a plugin answered with something else'),
('C29','fix: malformed updates and edits','malformed updates and edits by a plugin ended the core'),
('C30','fix: a change of the settings of a view that was just created','a change of the settings of a view that was just created made the client copy lines it did not have'),
('C30','fix: closing a view right after','closing a view right after it was created ended the core'),
('C30','fix: plugins got messages about views','plugins got messages about views they had not been told of, or were told of views twice'),
('C30','fix: the client was not told of plugins','the client was not told of plugins that started after a view was opened'),
('C30','fix: the client was told that a plugin stopped','the client was told that a plugin stopped for a view it never started for'),
('C31','fix: the client was told outdated settings','the client was told outdated settings of a view whose settings changed before it was set up'),
('C31','fix: a file saved under a name of no known language','a file saved under a name of no known language had an empty language instead of plain text'),
('C31','fix: only the first line ending','only the first line ending in each piece of storage was looked at when line endings were detected'),
('C31','fix: opening a file of a language whose default','opening a file of a language whose default settings are malformed ended the core'),
('C29','fix: a front-end that answers measure_width','a front-end that answers measure_width wrongly ended the core, or had the text wrapped wrongly for good'),
('C32','fix: asking the chunk cache','asking the chunk cache for a region past the end of the document never returned'),
('C32','fix: of several places where work','of several places where work on a document was pending, an edit forgot all but one or two'),
('C32','fix: resetting the state cache','resetting the state cache kept the state before the first line'),
('C34','fix: positions of deleted text','positions of deleted text were sent to language servers as they are after the deletion, or the plugin ended'),
('C34','fix: anything done to a document before','anything done to a document before its language server was initialized ended the plugin or was lost'),
('C34','fix: a view closed before the language','a view closed before the language server plugin had seen it ended the plugin'),
('C34','fix: an answer for a view that was closed','an answer for a view that was closed was shown in another, as were all that followed'),
('C34','fix: a message of a language server','a message of a language server that makes no sense ended the plugin'),
('C34','fix: a language server that ended','a language server that ended took the plugin with it, or kept it busy for ever'),
('C34','fix: a language server that is not installed','a language server that is not installed ended the plugin'),
('C35','fix: playing a recording added','playing a recording added an empty undo step and lost the redo history'),
('C35','fix: while a recording played','while a recording played, a command moved carets the way the one before it does'),
('C35','fix: a recording kept edits','a recording kept edits that undo had taken back, when there were several undos or a redo without effect'),
('C35','fix: a recording of auto-surround','a recording of auto-surround followed by typing lost the surrounding pair')]
with open('/verif/known-findings.jsonl','w') as o:
    for p,g,w in L:
        c=h(g); assert c
        o.write(json.dumps({"property":p,"status":"fixed","commit":c,"entry":f"fixed: property={p} {c} {w}"})+"\n")
