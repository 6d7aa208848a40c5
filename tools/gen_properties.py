#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). The text here is the source of truth."""
import json, os
S='src/tsm/tsm-screen.c'; V='src/tsm/tsm-vte.c'; R='src/tsm/tsm-render.c'; L='src/tsm/tsm-selection.c'
G='src/gtktsm/gtktsm-terminal.c'; U='src/tsm/tsm-unicode.c'; C='src/tsm/tsm-vte-charsets.c'; H='src/tsm/libtsm.h'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Arbitrary input and API histories never corrupt memory, hang or escape bounds",
 "Whatever bytes the client sends and in whatever order the embedding application calls the public functions with any in-contract arguments, the library performs no invalid memory access, undefined arithmetic or leak, and every call returns. At every point the cursor row is inside the screen, the cursor column is at most one character width beyond the last column, the scrollback never exceeds its configured maximum, and a redraw reports every cell of the visible grid exactly once, row by row.",
 ["inputs","histories"],"all byte strings, all interleavings of public screen/terminal calls, all screen sizes from 1x1 up, all scrollback limits",
 "The tests feed a few dozen fixed strings to an 80x24 terminal; memory errors need unusual sizes, margins, wide characters, parameters or call orders the samples never combine.",
 [S,V,R,L,U],[("screen cell table and scrolling","src/tsm/tsm-screen.c:screen_scroll_up/screen_write"),("escape parser","src/tsm/tsm-vte.c:parse_data"),("selection copy buffers","src/tsm/tsm-selection.c:tsm_screen_selection_copy")],
 ["sanitizer reports","tsm_screen_get_cursor_x/y","tsm_screen_sb_get_line_count","tsm_screen_draw callbacks"])

p("C02","How input is split into chunks never matters",
 "Feeding a byte stream to the terminal in one call or split at arbitrary points (inside escape sequences, parameters, strings or multi-byte characters) leads to the same screen contents, attributes, cursor, modes, scrollback and the same replies and notifications in the same order.",
 ["inputs","schedules"],"all byte streams and all partitions of each into chunks (the read schedule of the pty)",
 "Tests hand each sequence over in a single call; a lost parser or decoder state only shows at particular split points.",
 [V,U],[("parser state kept across calls","src/tsm/tsm-vte.c:tsm_vte_input"),("UTF-8 decoder state","src/tsm/tsm-unicode.c:tsm_utf8_mach_feed")],
 ["tsm_screen_draw","write/osc/mouse callbacks","tsm_vte_get_flags"])

p("C03","Cursor movement obeys sizes, margins, origin mode and tab stops",
 "After any history, absolute and relative cursor movements, line feeds, reverse line feeds, carriage returns, backspaces and forward/backward tabs leave the cursor exactly where the documented rules put it: clamped to the screen, stopped at the scroll-region edge when moving within the region, relative to the region in origin mode, and at the next or previous set tab stop. Omitted or zero movement counts mean one, a movement along one axis does not change the other, and setting or clearing tab stops affects exactly the addressed stops.",
 ["histories","inputs"],"all histories of movement, margin, mode and tab-stop operations on any screen size",
 "Tests check a handful of positions on an 80x24 screen without margins; the rules interact (margin x origin x pending wrap x size).",
 [S,V],[("cursor moves","src/tsm/tsm-screen.c:tsm_screen_move_*"),("tab ruler","src/tsm/tsm-screen.c:tsm_screen_tab_right/left"),("CSI dispatch","src/tsm/tsm-vte.c:do_csi")],
 ["tsm_screen_get_cursor_x/y","cursor cell in tsm_screen_draw"],
 [("tab stops","set of columns where a tab stops","src/tsm/libtsm-int.h:tab_ruler"),("margins","scroll region","src/tsm/libtsm-int.h:margin_top/margin_bottom")])

p("C04","Printed characters land in the right cells with wrap, insert and width rules",
 "Each printable character appears at the cursor with the current attributes and occupies as many cells as its width (a second cell of zero width for wide characters), and the cursor advances by that width; characters without width change nothing. At the right edge the wrap is delayed until the next printable character and happens only in auto-wrap mode (otherwise the last column is overwritten), wrapping at the bottom scrolls the region, and in insert mode the rest of the line shifts right first; nothing outside the addressed cells changes.",
 ["inputs","histories"],"all sequences of characters of every width, attributes and modes on any screen size",
 "Tests print short ASCII strings far from the edges.",
 [S,V,U],[("write with wrap","src/tsm/tsm-screen.c:tsm_screen_write"),("cell store and insert shift","src/tsm/tsm-screen.c:screen_write"),("character width","src/tsm/tsm-unicode.c:tsm_symbol_get_width")],
 ["tsm_screen_draw","tsm_screen_get_cursor_x/y"])

p("C05","Erase, insert, delete and scroll operations touch exactly their target cells",
 "Erasing parts of a line or screen, inserting or deleting characters or lines, and scrolling the region up or down change exactly the cells the operation addresses, move the others by exactly the requested amount (clamped to what fits), and fill vacated cells with blanks in the current background; selective erase keeps protected cells. Rows outside the scroll region and cells outside the addressed range keep their contents and attributes.",
 ["histories","inputs"],"all histories of editing operations with any counts, cursor positions, margins and attributes",
 "Tests never check contents after these operations; off-by-one errors depend on the cursor/margin/count combination.",
 [S,V],[("region erase","src/tsm/tsm-screen.c:screen_erase_region"),("line insert/delete","src/tsm/tsm-screen.c:tsm_screen_insert_lines/delete_lines"),("scrolling","src/tsm/tsm-screen.c:screen_scroll_up/down"),("char insert/delete","src/tsm/tsm-screen.c:tsm_screen_insert_chars/delete_chars")],
 ["tsm_screen_draw","tsm_screen_get_cursor_x/y"])

p("C06","Escape sequences are framed correctly and unsupported or broken ones do nothing",
 "Every control sequence is consumed exactly from its introducer to its terminator: unknown, malformed or over-long sequences and device-control, privacy and application strings have no effect on screen, cursor, modes or replies, and the characters after them are processed normally. Cancel and substitute characters, a new escape, and C1 introducers abort the current sequence; control characters inside a control sequence take effect immediately without disturbing it; empty parameters count as omitted, parameters beyond the sixteenth are ignored, and huge values act as very large numbers.",
 ["inputs"],"all byte strings built from valid, truncated, aborted, nested and unknown sequences with any parameters and intermediates",
 "Each test sends one well-formed known sequence; the space of malformed sequences and abort points is unbounded.",
 [V],[("state machine","src/tsm/tsm-vte.c:parse_data"),("parameter collection","src/tsm/tsm-vte.c:do_param"),("dispatch","src/tsm/tsm-vte.c:do_esc/do_csi")],
 ["tsm_screen_draw","tsm_vte_get_flags","write callback"])

p("C07","Scrollback keeps the newest lines in order and the view stays where it should",
 "Lines scrolled off the top of the main screen enter the scrollback unchanged and in order, at most the configured number of newest lines is retained, and lines scrolled in the alternate screen never enter it. Moving the view up and down or by pages shows exactly the corresponding lines followed by the screen, stops at both ends, and resetting the view returns to the live screen. New output keeps a scrolled-back view on the lines it showed (once the scrollback is full only with the fixed-position flag, otherwise the view moves on by one line per new line), trimming moves it at most to the oldest remaining line, and the reported line count and position always match what is displayed.",
 ["histories"],"all histories of output, view movements, limit changes, clears, resizes and screen switches",
 "Tests fill the scrollback once with a fixed limit; positions go wrong only when trimming, limit changes and a scrolled view coincide.",
 [S],[("line linking and trimming","src/tsm/tsm-screen.c:link_to_scrollback"),("limit","src/tsm/tsm-screen.c:tsm_screen_set_max_sb"),("view","src/tsm/tsm-screen.c:tsm_screen_sb_up/down/reset")],
 ["tsm_screen_draw with scrolled view","tsm_screen_sb_get_line_count/pos"],
 [("scrollback view position","line shown at the top of the view","src/tsm/libtsm-int.h:sb_pos, sb_pos_num")])

p("C08","The alternate screen never leaks into the main screen",
 "Anything a program does between switching to the alternate screen and back leaves the main screen's contents, attributes and scrollback exactly as they were. The save-and-restore variants also return the cursor to where it was on entry, the clearing variants present a blank alternate screen on entry or leave it blank on exit, the plain variants change nothing when that screen is already active, and no switch ever erases the main screen.",
 ["histories"],"all histories of output inside the alternate screen, for each of the four switch modes",
 "Tests only exercise one resize in the alternate screen.",
 [S,V],[("buffer switch","src/tsm/tsm-screen.c:tsm_screen_set_flags/reset_flags"),("modes 47/1047/1048/1049","src/tsm/tsm-vte.c:csi_mode")],
 ["tsm_screen_draw before and after","tsm_screen_sb_get_line_count","tsm_screen_get_cursor_x/y"])

p("C09","Resizing preserves content and re-establishes a consistent screen",
 "Changing the size keeps every cell that fits (when the height shrinks the bottom rows of the active screen stay and the rows above move to the scrollback of the main screen), fills new cells with blanks in the default attributes of the screen they belong to, and keeps the cursor on the same text where possible and always inside. The new size is reported and drawn, scroll margins become the full screen, tab stops return to every eighth column, and a resize to zero or a failing one changes nothing.",
 ["histories","inputs"],"all resize sequences interleaved with output, scrollback and alternate-screen use",
 "Tests resize a screen two or three times with fixed contents.",
 [S],[("resize","src/tsm/tsm-screen.c:tsm_screen_resize")],
 ["tsm_screen_draw","tsm_screen_get_width/height/cursor","scrollback view"])

p("C10","Copying a selection returns exactly the selected text",
 "The copied text is the UTF-8 of the characters between the two selected cells inclusive, in reading order regardless of the direction the selection was made in, across scrollback and screen: blank cells inside a line become spaces, blanks after the last character of a line are dropped, a wide character appears once, rows are joined by single newlines, and the returned length equals the text length. The selection keeps covering the same text when output scrolls it into or out of the scrollback, with lines that fell off the top omitted.",
 ["inputs","histories"],"all screen contents, all pairs of endpoints and view positions, all scrolling between selecting and copying",
 "Tests cover some thirty fixed selections of ASCII without blanks inside lines, wide characters or dropped lines.",
 [L,S],[("copy","src/tsm/tsm-selection.c:tsm_screen_selection_copy"),("normalisation","src/tsm/tsm-selection.c:norm_selection"),("tracking while scrolling","src/tsm/tsm-screen.c:screen_scroll_up/down, link_to_scrollback")],
 ["tsm_screen_selection_copy"])

p("C11","The highlighted cells are exactly the selected cells",
 "While a selection is active a redraw shows inverted exactly the cells from one endpoint to the other in reading order, both included, no matter in which direction the selection was made and where the view is scrolled to; parts above or below the view do not disturb the visible part. Without a selection, or after it is reset, nothing is highlighted.",
 ["inputs","histories"],"all endpoint pairs, view positions and scrolling between selecting and drawing",
 "No test looks at highlighting.",
 [R,L],[("highlight in redraw","src/tsm/tsm-render.c:tsm_screen_draw")],
 ["inverse attribute and id delivered to the tsm_screen_draw callback"])

p("C12","Incremental redraw by age equals a full redraw",
 "A renderer that repaints only the cells whose reported age is zero or newer than the age returned by its previous redraw always ends up with the same picture (character, width, attributes, cursor and selection inversion) as one that repaints everything, after any history. This includes the overflow of the age counter, where the redraw reports age zero so that everything is painted again.",
 ["histories"],"all histories of operations between redraws, including more operations than the age counter can count",
 "Tests never use ages; a missing age update shows only when the next redraw follows that particular operation.",
 [S,R,L,'src/tsm/libtsm-int.h'],[("ageing","src/tsm/libtsm-int.h:screen_inc_age"),("age selection","src/tsm/tsm-render.c:tsm_screen_draw"),("cursor ageing","src/tsm/tsm-screen.c:move_cursor")],
 ["age values delivered to the tsm_screen_draw callback and its return value"],
 [("age counter","increases with each change; wraps","src/tsm/libtsm-int.h:age_cnt")])

p("C13","UTF-8 decoding is exact for valid input and safe for invalid input",
 "Every well-formed UTF-8 encoded character is decoded to itself, and encoding a character and decoding it again yields the same character (surrogates, noncharacters and out-of-range values encode to nothing). Malformed input (stray, missing or overlong bytes, surrogates, values beyond U+10FFFF) never produces an ASCII or control character that was not literally present as such a byte and yields at most replacement characters, and decoding is in sync again at the first well-formed character after the byte that ended the malformed sequence.",
 ["inputs"],"all byte strings, all code points",
 "Tests decode almost no multi-byte text and no malformed text.",
 [U],[("decoder","src/tsm/tsm-unicode.c:tsm_utf8_mach_feed/get"),("encoder","src/tsm/tsm-unicode.c:tsm_ucs4_to_utf8")],
 ["characters delivered by the decoder","cells drawn after input"])

p("C14","Colours and text attributes are applied as requested",
 "After any sequence of graphic-rendition commands, text is drawn with exactly the requested attributes: the sixteen palette colours, the 256-colour cube and grey ramp, direct colours, bold (which brightens the eight dark palette colours), italic, underline, blink and inverse, their individual resets, the default colours and the full reset; commands with missing or invalid colour arguments do not read foreign values. Colours follow the chosen built-in or custom palette, and erased cells take the current background.",
 ["inputs","configurations"],"all parameter lists in all palettes",
 "Tests try one colour escape and one custom palette.",
 [V],[("SGR","src/tsm/tsm-vte.c:csi_attribute"),("palette mapping","src/tsm/tsm-vte.c:to_rgb"),("palette selection","src/tsm/tsm-vte.c:tsm_vte_set_palette/set_custom_palette")],
 ["attributes delivered to the tsm_screen_draw callback","tsm_vte_get_def_attr"])

p("C15","Key presses are encoded for the client exactly as the active modes demand",
 "Each handled key press sends exactly the byte sequence that belongs to the key, its modifiers and the active cursor-key, keypad, newline, backspace and character-set modes, with one escape prefix if and only if Alt is held; text keys send their character in the active encoding, with characters the encoding cannot represent sent as a question mark. Keys without meaning send nothing and report being unhandled, and no key press influences how a later one is encoded, also with local echo on, where the same bytes are additionally displayed.",
 ["inputs","histories"],"all key symbols, modifiers and characters under all mode combinations",
 "Tests press four keys.",
 [V],[("keyboard handler","src/tsm/tsm-vte.c:tsm_vte_handle_keyboard"),("write path with prefix and echo","src/tsm/tsm-vte.c:vte_write_debug")],
 ["write callback bytes","return value"])

p("C16","Mouse events are reported exactly per the active tracking protocol",
 "A mouse event is reported to the client if and only if the active tracking mode asks for that kind of event, in the active encoding (legacy bytes clamped to their range, decimal cells, or decimal pixels), with one-based cell coordinates, correct button, modifier and press/release code, and repeated motion within a cell is reported once. The application embedding the terminal is told about tracking changes so that what it was last told matches what the terminal will report.",
 ["inputs","histories"],"all sequences of mode switches and mouse events with any coordinates, buttons and modifiers",
 "Tests send a few events in a few fixed mode orders.",
 [V],[("mouse encoder","src/tsm/tsm-vte.c:tsm_vte_handle_mouse"),("tracking modes","src/tsm/tsm-vte.c:csi_mode")],
 ["write callback bytes","mouse callback arguments","tsm_vte_get_mouse_mode/event"])

p("C17","The terminal answers queries exactly once and never speaks unasked",
 "Each device-attribute, identification, status, cursor-position or enquiry request produces exactly its one correct reply at the point of the request, where the cursor report names the current row and column counted from one. No other client output causes the terminal to send anything.",
 ["inputs","histories"],"all byte streams, with queries at any point",
 "Tests request one or two reports in the initial state.",
 [V],[("device attributes","src/tsm/tsm-vte.c:csi_dev_attr/send_primary_da"),("status reports","src/tsm/tsm-vte.c:csi_dsr")],
 ["write callback"])

p("C18","Reset returns the terminal to its initial behaviour from any state",
 "After a hard reset, from whatever history and even in the middle of a sequence or character, the terminal behaves for all further input exactly like a newly created one of the same size and palette, with a blank screen, empty scrollback and the cursor at home. A soft reset restores modes, margins, tab stops, character sets, attributes, saved cursor state and input decoding in the same way but leaves the displayed text, scrollback and cursor position alone.",
 ["histories"],"all histories before the reset and all inputs after it",
 "Tests never compare behaviour after reset; any single forgotten field breaks it only for histories that touched that field.",
 [V,S],[("soft reset","src/tsm/tsm-vte.c:tsm_vte_reset"),("hard reset","src/tsm/tsm-vte.c:tsm_vte_hard_reset"),("screen reset","src/tsm/tsm-screen.c:tsm_screen_reset")],
 ["tsm_screen_draw, cursor, flags, replies compared with a fresh terminal"])

p("C19","Restoring the cursor brings back everything that was saved",
 "Restoring after saving brings back the cursor position (clamped to the current screen), text attributes and colours, the active character-set selection, auto-wrap mode and origin mode exactly as they were at the save, whatever happened in between, and may be repeated. Restoring without a prior save selects the initial state.",
 ["histories"],"all histories between save and restore",
 "No test saves and restores.",
 [V],[("save/restore","src/tsm/tsm-vte.c:save_state/restore_state")],
 ["subsequent output in tsm_screen_draw","cursor","tsm_vte_get_flags"])

p("C20","Operating-system commands are delivered to the application verbatim",
 "Each operating-system command terminated by BEL or the string terminator is delivered exactly once, as the UTF-8 text between introducer and terminator without control characters, NUL-terminated, with its correct length, up to the fixed limit of 127 bytes beyond which whole characters are dropped, never split. Its text never reaches the screen, and consecutive commands never mix.",
 ["inputs"],"all command strings of any length and content, all terminators, any history",
 "Tests send one short command.",
 [V],[("OSC collection","src/tsm/tsm-vte.c:do_osc_collect/do_osc_end")],
 ["osc callback arguments","tsm_screen_draw"])

p("C21","Composed symbols and their decompositions form a bijection",
 "Appending a combining character to a symbol yields a symbol whose decomposition is the base decomposition followed by that character; equal sequences always give the same symbol, different sequences different ones, and a symbol keeps its meaning forever. Plain characters are their own symbols, over-long sequences and invalid characters leave the symbol unchanged, and unknown symbols decompose to the default character.",
 ["inputs","histories"],"all append histories on one table",
 "Tests append once and do not read the result back.",
 [U,'src/shared/shl-array.h'],[("symbol table","src/tsm/tsm-unicode.c:tsm_symbol_append/get")],
 ["tsm_symbol_get results"])

p("C22","The hash table behaves as a multiset keyed by hash and equality",
 "After any history of inserts, removals, lookups, rehashes and clears the table contains exactly the inserted elements not yet removed: lookups find a matching element if and only if one is present, removal removes exactly one matching element and returns it, and enumeration visits every stored element exactly once.",
 ["histories","inputs"],"all operation histories with arbitrary, including colliding, hash values",
 "Tests insert a fixed series of elements.",
 ['src/shared/shl-htable.c','src/shared/shl-htable.h'],[("open-addressing table","src/shared/shl-htable.c")],
 ["shl_htable_* results"])

p("C23","Character sets are designated, invoked and mapped correctly",
 "Each printed character in the graphic ranges is translated through the character set that the preceding designations, locking shifts and single shifts select for its half of the code table, where a single shift affects exactly the next character of the lower half (0x21 to 0x7e); all other characters are printed as themselves. The line-drawing and supplemental sets map to the corresponding Unicode characters in every input mode (UTF-8, 8-bit and 7-bit).",
 ["inputs","histories"],"all interleavings of designations, shifts and characters in the three input modes",
 "Tests never designate a character set.",
 [V,C],[("mapping","src/tsm/tsm-vte.c:vte_map"),("designation","src/tsm/tsm-vte.c:set_charset/do_esc"),("tables","src/tsm/tsm-vte-charsets.c")],
 ["characters in tsm_screen_draw"])

p("C24","Running out of memory never corrupts or leaks",
 "When any single allocation, or any set of allocations, inside a library call fails, the call reports failure or degrades but touches no invalid memory, leaks nothing, and leaves all objects usable: later calls still work on a consistent screen, and a failing resize leaves the size and visible contents unchanged. Creation functions that fail leave nothing behind. What may be lost without a report is limited to scrollback lines and combinations of symbols.",
 ["fault_sequences","histories"],"all allocation-failure positions in histories of public calls",
 "Tests never inject allocation failures.",
 [S,V,U,L],[("line allocation","src/tsm/tsm-screen.c:line_new/line_resize"),("error paths","src/tsm/tsm-screen.c:tsm_screen_new, tsm_screen_resize"),("copy","src/tsm/tsm-selection.c")],
 ["return codes","sanitizer and leak reports","tsm_screen_draw after the fault"])

p("C25","The byte ring is a lossless FIFO",
 "After any history of pushes, pulls and clears the ring buffer holds exactly the bytes pushed and not yet pulled, in order; a peek shows all of them in at most two pieces, and pulling never removes more than is stored.",
 ["histories"],"all push/pull/peek/clear histories with any sizes",
 "No test uses the ring.",
 ['src/shared/shl-ring.c'],[("ring","src/shared/shl-ring.c")],
 ["shl_ring_peek/pull/push results"])

p("C26","The pty bridge carries bytes in both directions complete and in order",
 "Everything written to the pseudo-terminal reaches the child process, and everything the child prints reaches the registered reader, complete, unmodified and in order, however large the data and however it is chunked, and window-size changes are visible to the child. The child starts with default signal handling on a terminal of its own, and a signal sent through the pty reaches that child exactly once and no other.",
 ["schedules","inputs"],"all data sizes and chunkings in both directions",
 "No test opens a pty.",
 ['src/shared/shl-pty.c','src/shared/shl-ring.c'],[("pty","src/shared/shl-pty.c")],
 ["bytes seen by the child and by the input callback"])

p("C27","Reported modes always reflect the mode switches requested",
 "The reported terminal modes, and the screen behaviours they stand for (cursor visibility, inverse screen, auto-wrap, insert, origin, alternate screen), always equal the result of applying all mode set/reset requests, keypad selections, compatibility-level changes and resets in order; unknown mode numbers change nothing and several modes in one request are applied left to right.",
 ["histories","inputs"],"all sequences of mode requests with any parameter lists",
 "Tests toggle a few modes once.",
 [V,S],[("modes","src/tsm/tsm-vte.c:csi_mode"),("compat level","src/tsm/tsm-vte.c:csi_compat_mode"),("screen flags","src/tsm/tsm-screen.c:tsm_screen_set_flags")],
 ["tsm_vte_get_flags","tsm_screen_get_flags","tsm_screen_draw"])

p("C28","Looking at the terminal does not change it",
 "Drawing, copying a selection and querying sizes, cursor, flags, attributes or positions have no effect on anything observable: inserting any number of such calls anywhere in a history changes no later picture, reply, copied text or state, and two redraws in a row deliver the same cells and ages.",
 ["histories"],"all histories with observers inserted anywhere",
 "Tests never compare runs with and without observers.",
 [R,L,S],[("redraw","src/tsm/tsm-render.c:tsm_screen_draw"),("copy works on copies","src/tsm/tsm-selection.c:tsm_screen_selection_copy")],
 ["paired runs with and without observers"])

p("C29","Terminals in one process are independent",
 "Operating any number of terminals in one process in any interleaving gives each exactly the screen, replies and notifications it would have had alone, including palettes, character sets, symbols and callbacks, and destroying one does not affect the others.",
 ["histories","schedules"],"all interleavings of several terminals' histories",
 "Tests use one terminal at a time.",
 [V,S,U],[("per-object state only","src/tsm/tsm-vte.c, src/tsm/tsm-screen.c")],
 ["paired interleaved and separate runs"])

p("C30","Objects live exactly as long as they are referenced",
 "A screen, terminal or pseudo-terminal object stays fully usable until its last reference is dropped, whatever the order in which references to screens and terminals (which hold their screen) are taken and dropped, and is then released completely (a pseudo-terminal with its descriptor and unwritten output) and exactly once. Functions given no object do nothing and report an error or neutral value.",
 ["histories"],"all orders of taking and dropping references on screens and terminals",
 "Tests create and destroy each object once.",
 [S,V,"src/shared/shl-pty.c"],[("pty refs","src/shared/shl-pty.c:shl_pty_ref/unref"),("screen refs","src/tsm/tsm-screen.c:tsm_screen_ref/unref"),("vte refs","src/tsm/tsm-vte.c:tsm_vte_ref/unref")],
 ["sanitizer and leak reports","behaviour while referenced"])

p("C31","The dynamic array behaves as a sequence",
 "After any history of pushes, pops and resizes the array holds exactly the elements a sequence would hold, in order: new entries of a zeroing resize read as zero, popping removes the last element, element access returns what was stored, and when growing fails the array is unchanged.",
 ["histories"],"all push/pop/resize histories with any element size, including failing growth",
 "Tests use the array only indirectly.",
 ['src/shared/shl-array.h'],[("array","src/shared/shl-array.h")],
 ["array contents and length"])

p("C32","Every redraw reports each visible cell once, with a safe glyph id",
 "A redraw hands the renderer every visible cell exactly once, row by row from the top left, with its position, its width (the second cell of a wide character has width 0), its attributes (with the cursor, the selection and the whole-screen inversion applied, the cursor in exactly one cell unless hidden or scrolled out of view) and its characters: none for an empty cell, the character, or all characters of a combined symbol in order. Whatever the renderer returns, all cells are delivered. The id given with a cell is a safe key for a cache of glyphs: over the whole life of a screen, equal ids mean equal characters and equal bold, italic, underline, inverse and blink.",
 ["histories","inputs"],"all histories, all characters and combined symbols, all attribute combinations, any renderer results",
 "Tests draw a few cells once and never compare ids between cells or redraws.",
 [R,U,S],[("redraw","src/tsm/tsm-render.c:tsm_screen_draw"),("combined symbols","src/tsm/tsm-unicode.c:tsm_symbol_get/tsm_symbol_append")],
 ["tsm_screen_draw callbacks"])

p("C33","Every character has the column width Unicode gives it",
 "The column width of every Unicode character, as reported by tsm_ucs4_get_width() and as used when it is printed, is 0 for NUL, control characters, combining marks (general categories Mn and Me) and the zero-width and directional format characters (U+200B-200F, U+2028-202E, U+2060-2063), 2 for characters that Unicode 9 calls East Asian Wide or Fullwidth, and 1 for all others; the answer never depends on earlier queries, and a character takes exactly that many cells and cursor columns when printed, wherever it comes from.",
 ["inputs"],"all code points, printed in any surroundings",
 "Tests query a handful of characters; the ranges have hundreds of borders.",
 ["external/wcwidth/wcwidth.c",U,S],[("width","src/tsm/tsm-unicode.c:tsm_ucs4_get_width"),("tables","external/wcwidth/wcwidth.c:wcwidth"),("use","src/tsm/tsm-screen.c:tsm_screen_write")],
 ["tsm_ucs4_get_width","cursor columns and cell widths after printing"])

p("C34","Different spellings of the same request have the same effect",
 "Requests that mean the same have exactly the same effect in every state: 7-bit and 8-bit forms of a control, the string terminators, an omitted, zero or default parameter (also zero-padded, or followed by surplus parameters), a count and that many repetitions, a count beyond the screen and the size of the screen, several attribute or mode parameters in one sequence and in separate ones, LF, VT and FF, NEL and CR with IND, erasing all and erasing both parts, CUP, HVP and VPA with CHA, palette colours by name and by number, an absolute request given once or twice. Ignored bytes, aborted sequences, strings without meaning, control characters moved from inside a sequence to its front, motion before an absolute position and changes between saving and restoring the cursor make no difference.",
 ["histories","inputs"],"all pairs of equivalent spellings in all states reached by any history",
 "Tests use one spelling of each request, in one state.",
 [V,S],[("parser","src/tsm/tsm-vte.c:parse_data"),("dispatch","src/tsm/tsm-vte.c:do_csi/do_esc/do_execute"),("attributes and modes","src/tsm/tsm-vte.c:csi_attribute/csi_mode")],
 ["paired runs: screen, cursor, modes, replies, scrollback, copied text"])

p("C35","Logging never changes behaviour",
 "A log receiver given to the screen or the terminal sees well-formed messages (origin, severity, a format that matches its arguments, the receiver's own data) and nothing else changes: with and without a receiver every history leads to the same screen, replies, notifications, ages and results, also for malformed input, unsupported requests and renderers that report errors.",
 ["histories","inputs"],"all histories with a receiver on the screen, the terminal, both or neither",
 "Tests log to nowhere or to stderr and never compare.",
 [V,S,R,"src/shared/shl-llog.h"],[("messages","src/shared/shl-llog.h:llog_submit"),("unsupported requests","src/tsm/tsm-vte.c:do_csi/do_esc/csi_mode"),("renderer errors","src/tsm/tsm-render.c:tsm_screen_draw")],
 ["log callback arguments","paired runs with and without a receiver"])

p("C36","The example terminal paints exactly what the screen holds",
 "After every draw of the gtktsm widget, however few cells the draw had to update, its picture equals one drawn from scratch from the cells of the screen: every cell shows its symbol (all characters of a combined one, over two columns for a wide character) in the regular, bold, italic or bold italic face of a monospaced font, blended from the cell's foreground over its background (swapped when inverse) with the coverage of the chosen anti-aliasing, empty cells are background only, underlined cells have a line below the baseline, the rest of a half overwritten wide character is blank; everything is clipped to the widget, the area outside of all cells and a widget without a child show the default background. This holds through resizes to any pixel size, view movement, selection, cursor and screen inversion, changes of the font, the anti-aliasing and the highlighting of dirty cells. With the highlighting of dirty cells on, every cell that changed since the last frame gets a border in the one highlight colour, and a frame painted without any change in between has none.",
 ["histories","inputs"],"all output, all widget sizes down to one pixel, all redraw points, all font settings and histories, also when ages wrap",
 "The tests never compile the widget; stale pixels need particular sequences of draws.",
 [G,R],[("cell drawing","src/gtktsm/gtktsm-terminal.c:renderer_draw_cell"),("blending and clipping","src/gtktsm/gtktsm-terminal.c:renderer_blend/renderer_fill"),("glyph cache","src/gtktsm/gtktsm-terminal.c:gtktsm_face_render/create_glyph"),("frame and padding","src/gtktsm/gtktsm-terminal.c:gtktsm_renderer_draw")],
 ["the pixels the draw signal paints","tsm_screen_draw on the widget's screen"])

p("C37","The example terminal turns window events into the right terminal actions",
 "The gtktsm widget does what a plain terminal does that is told the same: a size in pixels gives screen and child the columns and rows of whole cells that fit (at least one each), again when the font changes; a key press reaches the terminal with its symbol, character and exactly the held Shift, Lock, Control, Alt and Logo modifiers, moves the view to the bottom if it is handled and is passed on otherwise, while Shift (alone, apart from consumed modifiers) with Up, Down, Page Up and Page Down moves the view by one line or page instead; only the first button selects, from the pressed cell once the pointer moved more than 3 pixels, to the cell below the pointer (the nearest one when it left the widget), a double or triple click starts a selection at once and a click shorter than 100 ms removes it; child output is shown in order; what the terminal sends reaches the child in order, from the main loop and never from inside of the event; OSC 2 announces its title and no other string does; a child's end is announced once, releases its pty and allows a new child, a second child is refused while one runs; signals above 0 are forwarded; properties read back as set (unknown anti-aliasing and subpixel orders as default); whatever changes the view requests a redraw; destroying the widget in any state releases everything.",
 ["histories","inputs"],"all histories of window events, child output and child ends",
 "The tests never compile the widget and have no display to send events with.",
 [G],[("size","src/gtktsm/gtktsm-terminal.c:terminal_configure_fn/terminal_recalculate_cells/terminal_set_font"),("keys","src/gtktsm/gtktsm-terminal.c:terminal_key_fn"),("pointer","src/gtktsm/gtktsm-terminal.c:terminal_button_fn/terminal_motion_fn"),("child","src/gtktsm/gtktsm-terminal.c:terminal_read_fn/terminal_write_fn/terminal_idle_fn/terminal_child_fn/gtktsm_terminal_fork"),("title","src/gtktsm/gtktsm-terminal.c:terminal_osc_fn"),("properties","src/gtktsm/gtktsm-terminal.c:terminal_set_property/terminal_get_property")],
 ["the widget's signals, properties and return values","the bytes, size and signals its pty is given","its screen, view and selection"])

A_='src/gtktsm/gtktsm-app.c'; W_='src/gtktsm/gtktsm-win.c'
p("C38","The example program applies its options, runs the shell and ends with it",
 "Running gtktsm with any command line either refuses it (unknown options, missing or malformed values, unknown anti-aliasing or subpixel orders: a message naming the wrong value, a failing exit status, no window and no child left), prints its version and ends (--version, nothing else happens), or opens and presents exactly one window whose terminal has the last given font, scroll-back size (zero is respected, negative means zero), anti-aliasing, subpixel order, highlighting and debug setting, and the documented default for every option not given, and starts one child in it. On the child's side exactly the program in SHELL (/bin/sh if unset) is executed with no further arguments and the environment it inherited, except for TERM=xterm-256color and COLORTERM=gtktsm. The window's title is the last title the child sent; the end of the child closes the window, once; a closed window takes its terminal and pty with it.",
 ["inputs","histories"],"all command lines, environments and lives of the window",
 "The tests never run the program and have no display.",
 [A_,W_],[("options","src/gtktsm/gtktsm-app.c:app_command_line/app_handle_local_options/app_options"),("child","src/gtktsm/gtktsm-win.c:gtktsm_win_run"),("window","src/gtktsm/gtktsm-win.c:win_title_fn/win_stopped_fn/gtktsm_win_init")],
 ["exit status and messages of the program","properties of the terminal, titles and presence of its window","the program the child executes and its environment"])

p("C39","The shared library has the whole interface and behaves the same however built",
 "The library the project's own build produces gives applications every function its public header declares, under its public name, and it behaves exactly like the sources: for every history of output, keys, mouse events and calls, the library built in release mode by one compiler and the sources built with debugging code, run-time checks and another compiler lead to the same screens with the same ages, cursor, modes, scrollback, copied text, replies, notifications and results. No behaviour depends on debug-only code, on assertions being evaluated, on uninitialised memory, on optimisation or on which of two equivalent entry points a linker picks.",
 ["histories","configurations"],"all histories of public calls on a release and a debugging build of the same sources",
 "The tests run in one build configuration, linked statically against the sources, and never use the exported symbols.",
 [S,V,R,"src/tsm/tsm-selection.c","src/tsm/tsm-unicode.c","src/tsm/libtsm.h"],[("exported functions","src/tsm/libtsm.h:SHL_EXPORT declarations and src/tsm/libtsm.sym"),("debug-only code","src/shared/shl-llog.h:llog_ddebug and users of BUILD_ENABLE_DEBUG")],
 ["functions found in the shared library","transcripts of the same history played on both builds"])

p("C40","The shared helper macros do exactly what they state for every operand",
 "The safe multiplications store the exact product or return -ERANGE and leave the value alone, in every width and up to the last value that fits; minimum, maximum and clamp give the right value in every type, evaluating each argument once; aligning to a power of two gives the next one that is not smaller (0 for 0 and when it does not fit); integers cast to pointers and back are unchanged, a container is found from any of its members, and zeroing touches exactly the given bytes. However a scope is left, its managed memory is freed once, its managed non-negative descriptors are closed once, and a protected errno has its old value. Every log helper delivers one message with the severity, text, origin and data it stands for, or nothing without a receiver, and the log-and-return helpers always evaluate to the negative error they name.",
 ["inputs"],"all operands of all widths, all ways out of a scope, all error numbers, with and without a receiver",
 "The helpers are exercised by the tests with a handful of small operands only; the limits of 64 bits are never reached.",
 ["src/shared/shl-macro.h","src/shared/shl-llog.h"],[("helpers","src/shared/shl-macro.h:shl_mult_*/SHL_ALIGN_POWER2/shl_min/shl_max/shl_clamp"),("scope cleanup","src/shared/shl-macro.h:shl_freep/shl_closep/shl_set_errno"),("log helpers","src/shared/shl-llog.h:llog_format/llog_dERRNO/llog_dERR")],
 ["return values","delivered log messages","live allocations, closed descriptors, errno"])

out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
