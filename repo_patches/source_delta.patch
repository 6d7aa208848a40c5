From b1262b60e4e9126a9cf9d98cd1fb27461721d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 01/47] fix: fill new main screen cells with the current
 attributes on resize

---
 src/tsm/tsm-screen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b8202d4..d7f43f9 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -694,7 +694,8 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 		for ( ; i < con->main_lines[j]->size; ++i)
 			screen_cell_init_generic(con, &con->main_lines[j]->cells[i],
-				&con->def_attr_main);
+				(con->flags & TSM_SCREEN_ALTERNATE) ?
+				&con->def_attr_main : &con->def_attr);
 
 		/* alt-lines never go into SB, only clear visible cells */
 		i = 0;
-- 
2.43.0


From 5f420f2c9e59bc3e87642fd5140e414c018b2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 02/47] fix: give all cells of a wide character its attributes

---
 src/tsm/tsm-screen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index d7f43f9..bcb82d9 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -418,6 +418,7 @@ static void screen_write(struct tsm_screen *con, unsigned int x,
 	for (i = 1; i < len && i + x < con->size_x; ++i) {
 		line->cells[x + i].age = con->age_cnt;
 		line->cells[x + i].width = 0;
+		memcpy(&line->cells[x + i].attr, attr, sizeof(*attr));
 	}
 }
 
-- 
2.43.0


From 47cbd245a89d180e13e8fa12a8f660ecb03f3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 03/47] fix: keep the reported scrollback position in step with
 the view

---
 src/tsm/tsm-screen.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index bcb82d9..1a77067 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -230,13 +230,12 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 		if (con->sb_pos) {
 			if (con->sb_pos == tmp ||
 			    !(con->flags & TSM_SCREEN_FIXED_POS)) {
-				if (con->sb_pos->next) {
+				if (con->sb_pos->next)
 					con->sb_pos = con->sb_pos->next;
-					++con->sb_pos_num;
-				} else {
+				else
 					con->sb_pos = line;
-					con->sb_pos_num = 0;
-				}
+			} else {
+				--con->sb_pos_num;
 			}
 		}
 
@@ -802,6 +801,8 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 		 * remove lines from the TOP of the scrollback buffer. */
 		if (con->sb_pos == line)
 			con->sb_pos = con->sb_first;
+		else
+			--con->sb_pos_num;
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line) {
@@ -933,7 +934,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->age = con->age_cnt;
 
 	con->sb_pos = NULL;
-	con->sb_pos_num = 0;
+	con->sb_pos_num = con->sb_count;
 }
 
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
-- 
2.43.0


From d12ac2ef2a94eaf652ea5df24bc74ced0d7aa8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 04/47] fix: do not read past the parsed parameters of a colour
 SGR

---
 src/tsm/tsm-vte.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 82dca19..c146f69 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1380,6 +1380,10 @@ static void csi_attribute(struct tsm_vte *vte)
 			/* fallthrough */
 		case 48:
 			val = vte->csi_argv[i];
+			if (i + 1 >= vte->csi_argc) {
+				llog_debug(vte, "invalid color SGR");
+				break;
+			}
 			if (vte->csi_argv[i + 1] == 5) { // 256color mode
 				if (i + 2 >= vte->csi_argc ||
 					vte->csi_argv[i + 2] < 0) {
-- 
2.43.0


From f78ce9f9b4790e20cefd04ddf073812432cae3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 05/47] fix: do not shift cells past the end of the line in
 insert mode

---
 src/tsm/tsm-screen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 1a77067..6140671 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -403,7 +403,7 @@ static void screen_write(struct tsm_screen *con, unsigned int x,
 	line = con->lines[y];
 
 	if ((con->flags & TSM_SCREEN_INSERT_MODE) &&
-	    (int)x < ((int)con->size_x - len)) {
+	    x + len < con->size_x) {
 		line->age = con->age_cnt;
 		memmove(&line->cells[x + len], &line->cells[x],
 			sizeof(struct cell) * (con->size_x - len - x));
-- 
2.43.0


From 98a6d71e8b82d9411c80649c53a0597d880cf4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 06/47] fix: do not read past the tab ruler when tabbing left
 after the last column

---
 src/tsm/tsm-screen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 6140671..f90fd31 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1361,6 +1361,8 @@ void tsm_screen_tab_left(struct tsm_screen *con, unsigned int num)
 	screen_inc_age(con);
 
 	x = con->cursor_x;
+	if (x > con->size_x)
+		x = con->size_x;
 	for (i = 0; i < num; ++i) {
 		for (j = x - 1; j > 0; --j) {
 			if (con->tab_ruler[j])
-- 
2.43.0


From cd807b758e621d43b61fc1f4a8f81c94898fad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 07/47] fix: do not apply the origin mode to absolute cursor
 positions

---
 src/tsm/tsm-vte.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index c146f69..beea0e5 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -722,6 +722,20 @@ static void write_console(struct tsm_vte *vte, tsm_symbol_t sym)
 	tsm_screen_write(vte->con, sym, &vte->cattr);
 }
 
+/* Move the cursor to an absolute screen position. Contrary to
+ * tsm_screen_move_to() this is not affected by the origin mode, so it can be
+ * used with coordinates as returned by tsm_screen_get_cursor_x/y(). */
+static void move_to_abs(struct tsm_vte *vte, unsigned int x, unsigned int y)
+{
+	bool rel = tsm_screen_get_flags(vte->con) & TSM_SCREEN_REL_ORIGIN;
+
+	if (rel)
+		tsm_screen_reset_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
+	tsm_screen_move_to(vte->con, x, y);
+	if (rel)
+		tsm_screen_set_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
+}
+
 static void reset_state(struct tsm_vte *vte)
 {
 	vte->saved_state.cursor_x = 0;
@@ -754,8 +768,8 @@ static void save_state(struct tsm_vte *vte)
 
 static void restore_state(struct tsm_vte *vte)
 {
-	tsm_screen_move_to(vte->con, vte->saved_state.cursor_x,
-			       vte->saved_state.cursor_y);
+	move_to_abs(vte, vte->saved_state.cursor_x,
+		    vte->saved_state.cursor_y);
 	vte->cattr = vte->saved_state.cattr;
 	to_rgb(vte, &vte->cattr);
 	if (vte->flags & TSM_VTE_FLAG_BACKGROUND_COLOR_ERASE_MODE)
@@ -1676,8 +1690,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				vte->alt_cursor_y =
 					tsm_screen_get_cursor_y(vte->con);
 			} else {
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_abs(vte, vte->alt_cursor_x,
+					    vte->alt_cursor_y);
 			}
 			continue;
 		case 1049: /* Alternate screen buffer with pre-erase+cursor */
@@ -1695,8 +1709,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			} else {
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_abs(vte, vte->alt_cursor_x,
+					    vte->alt_cursor_y);
 			}
 			continue;
 		case TSM_VTE_MOUSE_EVENT_BTN:
@@ -1837,6 +1851,12 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 			num = 1;
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
+		if (tsm_screen_get_flags(vte->con) & TSM_SCREEN_REL_ORIGIN) {
+			/* tsm_screen_move_to() counts from the top margin */
+			y -= vte->con->margin_top;
+			if (y + num < 0)
+				y = -num;
+		}
 		tsm_screen_move_to(vte->con, x, y + num);
 		break;
 	case 'F': /* CPL */
@@ -1864,7 +1884,7 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		if (num <= 0)
 			num = 1;
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, num - 1, y);
+		move_to_abs(vte, num - 1, y);
 		break;
 	case 'J':
 		if (vte->csi_flags & CSI_WHAT)
-- 
2.43.0


From 33abaad1516ae31f6f11560161a52359646ed89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 08/47] fix: ignore control sequences with unsupported markers
 or intermediates

---
 src/tsm/tsm-vte.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index beea0e5..02c61c9 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -110,6 +110,7 @@ enum parser_action {
 #define CSI_PLUS	0x0100		/* CSI: + */
 #define CSI_POPEN	0x0200		/* CSI: ( */
 #define CSI_PCLOSE	0x0400		/* CSI: ) */
+#define CSI_OTHER	0x0800		/* any other marker or intermediate */
 
 /* max CSI arguments */
 #define CSI_ARG_MAX 16
@@ -1013,6 +1014,9 @@ static void do_collect(struct tsm_vte *vte, uint32_t data)
 	case ')':
 		vte->csi_flags |= CSI_PCLOSE;
 		break;
+	default:
+		vte->csi_flags |= CSI_OTHER;
+		break;
 	}
 }
 
@@ -1791,6 +1795,24 @@ static void csi_dsr(struct tsm_vte *vte)
 	}
 }
 
+/* private markers and intermediates that do_csi() knows for a final byte */
+static unsigned int csi_known_flags(uint32_t data)
+{
+	switch (data) {
+	case 'J':
+	case 'K':
+	case 'h':
+	case 'l':
+		return CSI_WHAT;
+	case 'c':
+		return CSI_GT;
+	case 'p':
+		return CSI_GT | CSI_BANG | CSI_DQUOTE;
+	default:
+		return 0;
+	}
+}
+
 static void do_csi(struct tsm_vte *vte, uint32_t data)
 {
 	int num, x, y, upper, lower;
@@ -1799,6 +1821,15 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 	if (vte->csi_argc < CSI_ARG_MAX)
 		vte->csi_argc++;
 
+	/* With other markers or intermediates this is a different sequence that
+	 * we do not support.
+	 * FIXME: Implement DECRQM (CSI $ p, CSI ? $ p) */
+	if (vte->csi_flags & ~csi_known_flags(data)) {
+		llog_debug(vte, "unhandled CSI sequence %c (flags %#x)", data,
+			   vte->csi_flags);
+		return;
+	}
+
 	switch (data) {
 	case 'A': /* CUU */
 		/* move cursor up */
@@ -1937,14 +1968,6 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		} else if (vte->csi_flags & CSI_BANG) {
 			/* DECSTR: Soft Reset */
 			csi_soft_reset(vte);
-		} else if (vte->csi_flags & CSI_CASH) {
-			/* DECRQM: Request DEC Private Mode */
-			/* If CSI_WHAT is set, then enable,
-			 * otherwise disable */
-
-			/* Ignore */
-
-			/* FIXME: Implement DECRQM */
 		} else {
 			/* DECSCL: Compatibility Level */
 			/* Sometimes CSI_DQUOTE is set here, too */
-- 
2.43.0


From 0a18d7a66bd92d708662d5642c4316a181b51d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 09/47] fix: reject overlong, surrogate and out-of-range UTF-8
 sequences

---
 src/tsm/tsm-unicode.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index bc1609a..e4708df 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -501,7 +501,7 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 	if (!mach)
 		return TSM_UTF8_START;
 
-	c = ci;
+	c = (unsigned char)ci;
 
 	switch (mach->state) {
 	case TSM_UTF8_START:
@@ -540,6 +540,9 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 			mach->state = TSM_UTF8_EXPECT2;
 		else
 			mach->state = TSM_UTF8_REJECT;
+		/* reject overlong encodings and values beyond Unicode */
+		if (mach->ch < 0x10000 || mach->ch > 0x10ffff)
+			mach->state = TSM_UTF8_REJECT;
 		break;
 	case TSM_UTF8_EXPECT2:
 		mach->ch |= (c & 0x3F) << 6;
@@ -547,6 +550,9 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 			mach->state = TSM_UTF8_EXPECT1;
 		else
 			mach->state = TSM_UTF8_REJECT;
+		/* reject overlong encodings and surrogates */
+		if (mach->ch < 0x800 || (mach->ch >= 0xd800 && mach->ch < 0xe000))
+			mach->state = TSM_UTF8_REJECT;
 		break;
 	case TSM_UTF8_EXPECT1:
 		mach->ch |= c & 0x3F;
-- 
2.43.0


From e244ebbaa5ae02afa04e08f6ecf8758c088d46c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 10/47] fix: do not sign-extend input bytes in 8bit mode

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 02c61c9..cc69599 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2569,7 +2569,7 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 					   (int)u8[i]);
 			parse_data(vte, u8[i] & 0x7f);
 		} else if (vte->flags & TSM_VTE_FLAG_8BIT_MODE) {
-			parse_data(vte, u8[i]);
+			parse_data(vte, (unsigned char)u8[i]);
 		} else {
 			state = tsm_utf8_mach_feed(vte->mach, u8[i]);
 			if (state == TSM_UTF8_ACCEPT ||
-- 
2.43.0


From 000950a8d48800459f97c83d6f48a44d0c4a6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 11/47] fix: send a question mark for every non-ASCII key in
 7bit mode

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index cc69599..e7b679a 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3141,7 +3141,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	if (unicode != TSM_VTE_INVALID) {
 		if (vte->flags & TSM_VTE_FLAG_7BIT_MODE) {
 			val = unicode;
-			if (unicode & 0x80) {
+			if (unicode > 0x7f) {
 				llog_debug(vte, "invalid keyboard input in 7bit mode U+%x; mapping to '?'",
 					   unicode);
 				val = '?';
-- 
2.43.0


From d4144ac562e16f60006062e3e585fc0cfd405aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 12/47] fix: prepend the escape of Alt to the key only, not to
 answers echoed locally

---
 src/tsm/tsm-vte.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index e7b679a..77e2bb1 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -683,6 +683,11 @@ unsigned int tsm_vte_get_mouse_event(struct tsm_vte *vte)
 static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 			    bool raw, const char *file, int line)
 {
+	bool prepend = vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE;
+
+	/* the local echo below may run code that writes itself */
+	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
+
 #ifdef BUILD_ENABLE_DEBUG
 	/* in debug mode we check that escape sequences are always <0x7f so they
 	 * are correctly parsed by non-unicode and non-8bit-mode clients. */
@@ -699,16 +704,14 @@ static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 
 	/* in local echo mode, directly parse the data again */
 	if (!vte->parse_cnt && !(vte->flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE)) {
-		if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+		if (prepend)
 			tsm_vte_input(vte, "\e", 1);
 		tsm_vte_input(vte, u8, len);
 	}
 
-	if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+	if (prepend)
 		vte->write_cb(vte, "\e", 1, vte->data);
 	vte->write_cb(vte, u8, len, vte->data);
-
-	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
 }
 
 #define vte_write(_vte, _u8, _len) \
-- 
2.43.0


From c520facfed18b858f4371b37f978b27f107fd36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 13/47] fix: do not erase the main screen when leaving an
 inactive alternate screen

---
 src/tsm/tsm-vte.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 77e2bb1..c222303 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1682,7 +1682,10 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				tsm_screen_set_flags(vte->con,
 						     TSM_SCREEN_ALTERNATE);
 			} else {
-				tsm_screen_erase_screen(vte->con, false);
+				/* never erase the main screen */
+				if (tsm_screen_get_flags(vte->con) &
+				    TSM_SCREEN_ALTERNATE)
+					tsm_screen_erase_screen(vte->con, false);
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
 			}
-- 
2.43.0


From 2875596d8db180c20f7082b16795ce30a4bebe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 14/47] fix: never report a cursor position outside of the
 screen

---
 src/tsm/tsm-vte.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index c222303..4778476 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1793,6 +1793,9 @@ static void csi_dsr(struct tsm_vte *vte)
 	} else if (vte->csi_argv[0] == 6) {
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
+		/* the cursor is past the last column if a wrap is pending */
+		if (x >= tsm_screen_get_width(vte->con))
+			x = tsm_screen_get_width(vte->con) - 1;
 		len = snprintf(buf, sizeof(buf), "\e[%u;%uR", y + 1, x + 1);
 		if (len >= sizeof(buf))
 			vte_write(vte, "\e[0;0R", 6);
-- 
2.43.0


From d2986527eb4728a6df12b8b16f2287b7fc24878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 15/47] fix: reset the alternate screen and its saved cursor as
 well

---
 src/tsm/tsm-vte.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 4778476..350de79 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -744,6 +744,8 @@ static void reset_state(struct tsm_vte *vte)
 {
 	vte->saved_state.cursor_x = 0;
 	vte->saved_state.cursor_y = 0;
+	vte->alt_cursor_x = 0;
+	vte->alt_cursor_y = 0;
 	vte->saved_state.origin_mode = false;
 	vte->saved_state.wrap_mode = true;
 	vte->saved_state.gl = &vte->g0;
@@ -849,6 +851,9 @@ void tsm_vte_hard_reset(struct tsm_vte *vte)
 		return;
 
 	tsm_vte_reset(vte);
+	tsm_screen_set_flags(vte->con, TSM_SCREEN_ALTERNATE);
+	tsm_screen_erase_screen(vte->con, false);
+	tsm_screen_reset_flags(vte->con, TSM_SCREEN_ALTERNATE);
 	tsm_screen_erase_screen(vte->con, false);
 	tsm_screen_clear_sb(vte->con);
 	tsm_screen_move_to(vte->con, 0, 0);
-- 
2.43.0


From 061f3be0f5c7bb5576aab2c74cfc100c4443543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 16/47] fix: accept NULL in tsm_vte_handle_mouse and
 tsm_vte_set_backspace_sends_delete

---
 src/tsm/tsm-vte.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 350de79..342d40c 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2599,6 +2599,9 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 SHL_EXPORT
 void tsm_vte_set_backspace_sends_delete(struct tsm_vte *vte, bool enable)
 {
+	if (!vte)
+		return;
+
 	vte->backspace_sends_delete = enable;
 }
 
@@ -3188,6 +3191,9 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
+	if (!vte)
+		return false;
+
 	/* drop move event if we don't wait for move events */
 	if ((vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10 || vte->mouse_event != TSM_VTE_MOUSE_EVENT_ANY) && (event & TSM_MOUSE_EVENT_MOVED)) {
 		return false;
-- 
2.43.0


From ef8175a1641b7bd96d9f4e2e161c70b51d0294f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 17/47] fix: tell the application every change of the requested
 mouse tracking

---
 src/tsm/tsm-vte.c | 60 ++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 342d40c..2e0db12 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -175,6 +175,8 @@ struct tsm_vte {
 	void *mouse_data;
 	unsigned int mouse_mode;
 	unsigned int mouse_event;
+	unsigned int mouse_track;	/* last told to mouse_cb */
+	bool mouse_track_pixels;	/* last told to mouse_cb */
 	unsigned int mouse_last_col;
 	unsigned int mouse_last_row;
 
@@ -550,6 +552,8 @@ void tsm_vte_set_mouse_cb(struct tsm_vte *vte, tsm_vte_mouse_cb mouse_cb, void *
 
 	vte->mouse_cb = mouse_cb;
 	vte->mouse_data = mouse_data;
+	vte->mouse_track = TSM_MOUSE_TRACK_DISABLE;
+	vte->mouse_track_pixels = false;
 }
 
 static int vte_update_palette(struct tsm_vte *vte)
@@ -726,6 +730,28 @@ static void write_console(struct tsm_vte *vte, tsm_symbol_t sym)
 	tsm_screen_write(vte->con, sym, &vte->cattr);
 }
 
+/* tell the application which mouse events it has to pass, if that changed */
+static void mouse_notify(struct tsm_vte *vte)
+{
+	unsigned int track = TSM_MOUSE_TRACK_DISABLE;
+	bool pixels = false;
+
+	if (!vte->mouse_cb)
+		return;
+
+	if (vte->mouse_mode) {
+		track = vte->mouse_event;
+		pixels = track && vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL;
+	}
+
+	if (track == vte->mouse_track && pixels == vte->mouse_track_pixels)
+		return;
+
+	vte->mouse_track = track;
+	vte->mouse_track_pixels = pixels;
+	vte->mouse_cb(vte, track, pixels, vte->mouse_data);
+}
+
 /* Move the cursor to an absolute screen position. Contrary to
  * tsm_screen_move_to() this is not affected by the origin mode, so it can be
  * used with coordinates as returned by tsm_screen_get_cursor_x/y(). */
@@ -836,6 +862,7 @@ void tsm_vte_reset(struct tsm_vte *vte)
 	vte->mouse_event = 0;
 	vte->mouse_last_col = 0;
 	vte->mouse_last_row = 0;
+	mouse_notify(vte);
 
 	memcpy(&vte->cattr, &vte->def_attr, sizeof(vte->cattr));
 	to_rgb(vte, &vte->cattr);
@@ -1636,11 +1663,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			continue;
 		case TSM_VTE_MOUSE_MODE_X10:
 			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
-			vte->mouse_event = TSM_VTE_MOUSE_EVENT_BTN;
-
-			if (vte->mouse_cb) {
-			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
-			}
+			vte->mouse_event = set ? TSM_VTE_MOUSE_EVENT_BTN : 0;
+			mouse_notify(vte);
 			continue;
 		case 12: /* blinking cursor */
 			/* TODO: implement */
@@ -1735,34 +1759,12 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			} else {
 			    vte->mouse_event = set ? vte->csi_argv[i] : 0;
 			}
-
-			if (vte->mouse_cb && vte->mouse_mode) {
-			    vte->mouse_cb(vte, vte->mouse_event, vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL, vte->mouse_data);
-			}
+			mouse_notify(vte);
 			continue;
 		case TSM_VTE_MOUSE_MODE_SGR:
-			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
-
-			if (!vte->mouse_cb) {
-			    continue;
-			}
-
-			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
-			    continue;
-			}
-			continue;
 		case TSM_VTE_MOUSE_MODE_PIXEL:
 			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
-
-			if (!vte->mouse_cb) {
-			    continue;
-			}
-
-			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, set, vte->mouse_data);
-			    continue;
-			}
+			mouse_notify(vte);
 			continue;
 		default:
 			llog_debug(vte, "unknown DEC %set-Mode %d",
-- 
2.43.0


From 85fd8b331f7d0fc362d4229686e99b7ce01c4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 18/47] fix: report wheel buttons, modifiers and large
 coordinates of mouse events correctly

---
 src/tsm/tsm-vte.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 2e0db12..d078477 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3189,7 +3189,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
 {
-	char buffer[24];
+	char buffer[32];
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
@@ -3201,18 +3201,18 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		return false;
 	}
 
+	if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
+		button = 64;
+	} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
+		button = 65;
+	}
+
 	if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_SGR || vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL) {
 		/* internally we use zero indexing but the xterm spec requires the
 		 * top left cell to have the coordinates 1,1 */
 		cell_x++;
 		cell_y++;
 
-		if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
-			button = 64;
-		} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
-			button = 65;
-		}
-
 		reply_flags = button | modifiers;
 	}
 
@@ -3247,24 +3247,24 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 				return false;
 			}
 
-			reply_flags = 35;
+			reply_flags = 35 | modifiers;
 			pressed = true;
 
 			vte->mouse_last_col = cell_x;
 			vte->mouse_last_row = cell_y;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
 	} else if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL && vte->mouse_event) {
 		if (event == TSM_MOUSE_EVENT_MOVED) {
-			reply_flags = 35;
+			reply_flags = 35 | modifiers;
 			pressed = true;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
-- 
2.43.0


From 673715bf8ed1eafc03adb4a82e7679a0df81352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 19/47] fix: reserve space for the line breaks of a copied
 selection

---
 src/tsm/tsm-selection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 7821f03..dfba451 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -348,8 +348,8 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
  */
 static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
 {
-	// 4 is the max size of a Unicode character
-	return con->size_x * num_lines * 4 + 1;
+	// 4 is the max size of a Unicode character, each line ends with a newline
+	return (con->size_x * 4 + 1) * num_lines + 1;
 }
 
 /*
-- 
2.43.0


From 89d2f106279107436bda739079ff106f7626c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 20/47] fix: do not copy lines above the screen when a
 selection starts in the scrollback

---
 src/tsm/tsm-selection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index dfba451..ddf6153 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -455,6 +455,11 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 		}
 	}
 
+	/* the screen part of a selection from the scrollback starts at the top */
+	if (start->line) {
+		start->y = 0;
+	}
+
 	total_lines =  selection_count_lines_sb(con, start, end);
 	total_lines += selection_count_lines(start, end);
 	buf_size = calc_line_copy_buffer(con, total_lines);
-- 
2.43.0


From 6c7dda454f585bdb286af5845aafe859dab18e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 21/47] fix: copy blank cells as spaces and skip the covered
 half of wide characters

---
 src/tsm/tsm-selection.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index ddf6153..8fa5f55 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -163,7 +163,11 @@ static unsigned int copy_line(struct line *line, char *buf,
 	}
 
 	for (i = start; i < line->size && i < end; ++i) {
-		if (i < line->size || !line->cells[i].ch)
+		/* covered by the wide character before it */
+		if (!line->cells[i].width)
+			continue;
+
+		if (line->cells[i].ch)
 			pos += tsm_ucs4_to_utf8(line->cells[i].ch, pos);
 		else
 			pos += tsm_ucs4_to_utf8(' ', pos);
-- 
2.43.0


From 59689ccb202f6932efa6aec0f5d1d8e798591449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 22/47] fix: order the ends of a selection correctly within the
 scrollback

---
 src/tsm/tsm-selection.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 8fa5f55..c04030f 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -197,6 +197,10 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 	struct line *iter;
 	struct selection_pos *buffer;
 
+	if ((*start)->line == NULL && (*start)->y == SELECTION_TOP) {
+		return;
+	}
+
 	if ((*end)->line == NULL && (*end)->y == SELECTION_TOP) {
 		swap_selections(start, end);
 
@@ -221,9 +225,10 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 		 * need to change start and end
 		*/
 		iter = (*end)->line;
-		while (iter && iter != con->sb_last) {
+		while (iter) {
 			if (iter == (*start)->line) {
 				swap_selections(start, end);
+				return;
 			}
 
 			iter = iter->next;
-- 
2.43.0


From 834bc1a5261a86a7d07c4cbea42f252b4c8756a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 23/47] fix: keep the selection inside of the screen

---
 src/tsm/tsm-screen.c    | 14 ++++++++++++--
 src/tsm/tsm-selection.c |  6 ++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index f90fd31..de258e2 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -378,10 +378,16 @@ static void screen_scroll_down(struct tsm_screen *con, unsigned int num)
 	       cache, num * sizeof(struct line*));
 
 	if (con->sel_active) {
-		if (!con->sel_start.line && con->sel_start.y >= 0)
+		if (!con->sel_start.line && con->sel_start.y >= 0) {
 			con->sel_start.y += num;
-		if (!con->sel_end.line && con->sel_end.y >= 0)
+			if (con->sel_start.y >= (int)con->size_y)
+				con->sel_start.y = con->size_y - 1;
+		}
+		if (!con->sel_end.line && con->sel_end.y >= 0) {
 			con->sel_end.y += num;
+			if (con->sel_end.y >= (int)con->size_y)
+				con->sel_end.y = con->size_y - 1;
+		}
 	}
 }
 
@@ -727,6 +733,10 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	con->size_x = x;
 	if (con->cursor_x >= con->size_x)
 		move_cursor(con, con->size_x - 1, con->cursor_y);
+	if (con->sel_start.x >= con->size_x)
+		con->sel_start.x = con->size_x - 1;
+	if (con->sel_end.x >= con->size_x)
+		con->sel_end.x = con->size_x - 1;
 
 	/* scroll buffer if screen height shrinks */
 	if (y < con->size_y) {
diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index c04030f..fd345a3 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -77,6 +77,12 @@ static void selection_set(struct tsm_screen *con, struct selection_pos *sel,
 	if (pos)
 		sel->line = pos;
 
+	/* keep the position inside of the screen */
+	if (x >= con->size_x)
+		x = con->size_x - 1;
+	if (y >= con->size_y)
+		y = con->size_y - 1;
+
 	sel->x = x;
 	sel->y = y;
 }
-- 
2.43.0


From a8dfce668db715e2ffdd0aa3fa6763511545010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 24/47] fix: do not mark scrollback lines for a selection that
 starts above them

---
 src/tsm/tsm-render.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 88ad847..610c7c8 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -101,13 +101,13 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 		if (con->sel_active) {
 			if (con->sel_start.line == line ||
 			    (!con->sel_start.line &&
-			     con->sel_start.y == k - 1))
+			     k > 0 && con->sel_start.y == k - 1))
 				sel_start = true;
 			else
 				sel_start = false;
 			if (con->sel_end.line == line ||
 			    (!con->sel_end.line &&
-			     con->sel_end.y == k - 1))
+			     k > 0 && con->sel_end.y == k - 1))
 				sel_end = true;
 			else
 				sel_end = false;
-- 
2.43.0


From 2c72639f89b1e6275c290d85f128972d79dc8be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 25/47] fix: age the cells that change on resize and with the
 default attributes

---
 src/tsm/tsm-screen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index de258e2..a0024e4 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -687,6 +687,8 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	}
 
 	screen_inc_age(con);
+	/* TODO: more sophisticated ageing */
+	con->age = con->age_cnt;
 
 	/* clear expansion/padding area */
 	start = x;
@@ -971,6 +973,9 @@ void tsm_screen_set_def_attr(struct tsm_screen *con,
 {
 	if (!con || !attr)
 		return;
+
+	/* padding cells of scrollback lines are drawn with these attributes */
+	screen_inc_age(con);
 	memcpy(&con->def_attr, attr, sizeof(*attr));
 }
 
-- 
2.43.0


From b0bfe3d56183cc4f3739d61530dbb9e1154789fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 26/47] fix: make the IDs of combined symbols match their index

---
 src/tsm/tsm-unicode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index e4708df..9182092 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -155,7 +155,7 @@ int tsm_symbol_table_new(struct tsm_symbol_table **out)
 		return -ENOMEM;
 	memset(tbl, 0, sizeof(*tbl));
 	tbl->ref = 1;
-	tbl->next_id = TSM_UCS4_MAX + 2;
+	tbl->next_id = TSM_UCS4_MAX + 1;
 	shl_htable_init(&tbl->symbols, cmp_ucs4, hash_ucs4, NULL);
 
 	ret = shl_array_new(&tbl->index, sizeof(uint32_t*), 4);
-- 
2.43.0


From 2242cd4bdda35a58c7402c22dd81c24deb9f6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 27/47] fix: handle failing allocations of the symbol table

---
 src/tsm/tsm-unicode.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index 9182092..f2e2d2e 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -163,11 +163,15 @@ int tsm_symbol_table_new(struct tsm_symbol_table **out)
 		goto err_free;
 
 	/* first entry is not used so add dummy */
-	shl_array_push(tbl->index, &val);
+	ret = shl_array_push(tbl->index, &val);
+	if (ret)
+		goto err_array;
 
 	*out = tbl;
 	return 0;
 
+err_array:
+	shl_array_free(tbl->index);
 err_free:
 	free(tbl);
 	return ret;
@@ -307,7 +311,8 @@ err_symbol:
 	shl_htable_remove(&tbl->symbols, nval, hash_ucs4(nval, NULL), NULL);
 err_id:
 	--tbl->next_id;
-	free(nval);
+	/* the ID is hidden before the key */
+	free(nval - 1);
 	return sym;
 }
 
-- 
2.43.0


From 13d294be3bd5b4a8de15cb76cc88f16a10c3e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 28/47] fix: do not reorder a selection from the scrollback to
 the first screen row

---
 src/tsm/tsm-selection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index fd345a3..bd6d7c0 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -249,6 +249,11 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 		return;
 	}
 
+	/* start is in scroll back buffer and end on screen */
+	if ((*start)->line && !(*end)->line) {
+		return;
+	}
+
 	/* reorder one-line selection if selection was created right to left */
 	if ((*start)->y == (*end)->y) {
 		if ((*start)->x > (*end)->x) {
-- 
2.43.0


From aa8cb2d55102a3009595bf3ad7035caf1df22720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 29/47] fix: never store elements of the hash table as empty or
 deleted buckets

---
 src/shared/shl-htable.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/shared/shl-htable.c b/src/shared/shl-htable.c
index 74e3d09..a18ab2f 100644
--- a/src/shared/shl-htable.c
+++ b/src/shared/shl-htable.c
@@ -51,7 +51,7 @@ struct htable_iter {
  */
 
 /* We use 0x1 as deleted marker. */
-#define HTABLE_DELETED (0x1)
+#define HTABLE_DELETED ((uintptr_t)0x1)
 
 /* We clear out the bits which are always the same, and put metadata there. */
 static inline uintptr_t get_extra_ptr_bits(const struct htable *ht,
@@ -245,6 +245,14 @@ static COLD void rehash_table(struct htable *ht)
 	ht->deleted = 0;
 }
 
+/* Bits of @p, except for the deleted marker, which are visible in its bucket
+ * once @maskdiff is taken from the common mask. */
+static inline uintptr_t revealed_bits(const struct htable *ht, const void *p,
+				      uintptr_t maskdiff)
+{
+	return (uintptr_t)p & ~(ht->common_mask & ~maskdiff) & ~HTABLE_DELETED;
+}
+
 /* We stole some bits, now we need to put them back... */
 static COLD void update_common(struct htable *ht, const void *p)
 {
@@ -270,6 +278,16 @@ static COLD void update_common(struct htable *ht, const void *p)
 	/* Find bits which are unequal to old common set. */
 	maskdiff = ht->common_bits ^ ((uintptr_t)p & ht->common_mask);
 
+	/* Each pointer must reveal a bit of its own, so its bucket never looks
+	 * like an empty or deleted one. */
+	if (!revealed_bits(ht, p, maskdiff)) {
+		for (i = sizeof(uintptr_t)*CHAR_BIT - 1; i > 0; i--) {
+			if ((uintptr_t)p & ((uintptr_t)1 << i))
+				break;
+		}
+		maskdiff |= (uintptr_t)1 << i;
+	}
+
 	/* These are the bits which go there in existing entries. */
 	bitsdiff = ht->common_bits & maskdiff;
 
@@ -295,7 +313,8 @@ static bool htable_add(struct htable *ht, size_t hash, const void *p)
 	if (ht->elems+1 + ht->deleted > ht->max_with_deleted)
 		rehash_table(ht);
 	assert(p);
-	if (((uintptr_t)p & ht->common_mask) != ht->common_bits)
+	if (((uintptr_t)p & ht->common_mask) != ht->common_bits ||
+	    !revealed_bits(ht, p, 0))
 		update_common(ht, p);
 
 	ht_add(ht, p, hash);
-- 
2.43.0


From d22431af621ebc362431305993bef461726907c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 30/47] fix: zero all new entries of a resized array

---
 src/shared/shl-array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-array.h b/src/shared/shl-array.h
index f776807..1928419 100644
--- a/src/shared/shl-array.h
+++ b/src/shared/shl-array.h
@@ -115,10 +115,11 @@ static inline int shl_array_zresize(struct shl_array *arr, size_t size)
 
 		arr->data = tmp;
 		arr->size = newsize;
+	}
 
+	if (size > arr->length)
 		memset(((uint8_t*)arr->data) + arr->element_size * arr->length,
 		       0, arr->element_size * (size - arr->length));
-	}
 
 	arr->length = size;
 	return 0;
-- 
2.43.0


From a4f183e0712f97d78fbd7dbb3756fa4ab3139174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 31/47] fix: report a failing allocation when copying a lost
 selection

---
 src/tsm/tsm-selection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index bd6d7c0..b9de2f2 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -460,7 +460,7 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	if (start->y == SELECTION_TOP && start->line == NULL &&
 		end->y == SELECTION_TOP && end->line == NULL) {
 		*out = strdup("");
-		return 0;
+		return *out ? 0 : -ENOMEM;
 	}
 
 	norm_selection(con, &start, &end);
-- 
2.43.0


From b27d9d9ac22ab345cea6584f8c1778ac07394be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 32/47] fix: re-arm a pty in the bridge when reading could not
 be finished

---
 src/shared/shl-pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 8c8bb32..5aa1152 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -484,7 +484,7 @@ int shl_pty_bridge_dispatch_pty(int bridge, struct shl_pty *pty)
 		up.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET;
 		up.data.ptr = pty;
 		epoll_ctl(bridge,
-			  EPOLL_CTL_ADD,
+			  EPOLL_CTL_MOD,
 			  shl_pty_get_fd(pty),
 			  &up);
 	}
-- 
2.43.0


From 051e7501b2b7b7b8804d43ac4a515ed08fe60f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 33/47] fix: reschedule a pty when writing could not be
 finished

---
 src/shared/shl-pty.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 5aa1152..eabe2fc 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -392,14 +392,16 @@ static int pty_read(struct shl_pty *pty)
 
 int shl_pty_dispatch(struct shl_pty *pty)
 {
-	int r;
+	int r, w;
 
 	if (!shl_pty_is_open(pty))
 		return -ENODEV;
 
 	r = pty_read(pty);
-	pty_write(pty);
-	return r;
+	w = pty_write(pty);
+
+	/* we need to be rescheduled if either direction was not finished */
+	return (!r && w == -EAGAIN) ? w : r;
 }
 
 int shl_pty_write(struct shl_pty *pty, const char *u8, size_t len)
-- 
2.43.0


From aa21d0f4d255150909944ea947fc5e318488ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 34/47] fix: clear the cells of the alternate screen that a
 resize cuts off

---
 src/tsm/tsm-screen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index a0024e4..5ac6f25 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -705,12 +705,12 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 				(con->flags & TSM_SCREEN_ALTERNATE) ?
 				&con->def_attr_main : &con->def_attr);
 
-		/* alt-lines never go into SB, only clear visible cells */
+		/* cells behind the new width must not leave hidden content */
 		i = 0;
 		if (j < con->size_y)
-			i = con->size_x;
+			i = start;
 
-		for ( ; i < x; ++i)
+		for ( ; i < con->alt_lines[j]->size; ++i)
 			screen_cell_init(con, &con->alt_lines[j]->cells[i]);
 	}
 
-- 
2.43.0


From cb09227d505fbf242703dacae299ba067779aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 35/47] fix: erase to the end of the line for huge erase_chars
 amounts

---
 src/tsm/tsm-screen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 5ac6f25..d9f8682 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1573,6 +1573,9 @@ void tsm_screen_erase_chars(struct tsm_screen *con, unsigned int num)
 	else
 		x = con->cursor_x;
 
+	if (num > con->size_x - x)
+		num = con->size_x - x;
+
 	screen_erase_region(con, x, con->cursor_y, x + num - 1, con->cursor_y,
 			     false);
 }
-- 
2.43.0


From 1e0c2de3ef030d62f8e7b93fe75a50f9bdd55d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 36/47] fix: scroll to the end for huge scrollback page counts

---
 src/tsm/tsm-screen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index d9f8682..6d198bf 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -58,6 +58,7 @@
 
 #include <errno.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -922,6 +923,9 @@ void tsm_screen_sb_page_up(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
+
 	tsm_screen_sb_up(con, num * con->size_y);
 }
 
@@ -932,6 +936,9 @@ void tsm_screen_sb_page_down(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
+
 	tsm_screen_sb_down(con, num * con->size_y);
 }
 
-- 
2.43.0


From ab2fe78f78772af7589358a0e1d079dcc94c8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 37/47] fix: do not wrap around huge row numbers in origin mode

---
 src/tsm/tsm-screen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 6d198bf..075eb39 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -477,6 +477,10 @@ static inline unsigned int to_abs_y(struct tsm_screen *con, unsigned int y)
 	if (!(con->flags & TSM_SCREEN_REL_ORIGIN))
 		return y;
 
+	/* rows below the region are clamped to its last row anyway */
+	if (y > con->margin_bottom)
+		return con->margin_bottom;
+
 	return con->margin_top + y;
 }
 
-- 
2.43.0


From 70265af13c4f4750d428a60a439147213108e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 38/47] fix: keep the attributes apart from combined symbols in
 drawing ids

---
 src/tsm/tsm-render.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 610c7c8..2c273b7 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -162,18 +162,19 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 					age = con->age;
 			}
 
-			/* Encode attributes into the id to avoid caching problems */
+			/* Encode attributes into the id to avoid caching problems.
+			 * Combined symbols use all of the 32 bits of a symbol. */
 			id = cell->ch;
 			if (attr.bold)
-				id |= 1ULL << TSM_UCS4_MAX_BITS;
-			if (attr.italic)
 				id |= 1ULL << (TSM_UCS4_MAX_BITS + 1);
-			if (attr.underline)
+			if (attr.italic)
 				id |= 1ULL << (TSM_UCS4_MAX_BITS + 2);
-			if (attr.inverse)
+			if (attr.underline)
 				id |= 1ULL << (TSM_UCS4_MAX_BITS + 3);
-			if (attr.blink)
+			if (attr.inverse)
 				id |= 1ULL << (TSM_UCS4_MAX_BITS + 4);
+			if (attr.blink)
+				id |= 1ULL << (TSM_UCS4_MAX_BITS + 5);
 
 			ch = tsm_symbol_get(con->sym_table, &cell->ch, &len);
 			if (cell->ch == 0 || (cell->ch == ' ' && !attr.underline))
-- 
2.43.0


From 0d5a8d49fcda7bb4c7da9419e6ad51faefb71cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:09 +0000
Subject: [PATCH 39/47] fix: gtktsm: do not draw leftovers over wide characters

---
 src/gtktsm/gtktsm-terminal.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 8afa0af..3cb8a9c 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -523,6 +523,11 @@ struct gtktsm_renderer {
 	uint8_t *data;
 	cairo_surface_t *surface;
 	tsm_age_t age;
+
+	/* last wide character of the current frame */
+	unsigned int wide_end;
+	unsigned int wide_row;
+	bool wide_drawn;
 };
 
 struct gtktsm_renderer_ctx {
@@ -953,13 +958,34 @@ static int renderer_draw_cell(struct tsm_screen *screen,
 	uint8_t fr, fg, fb, br, bg, bb;
 	unsigned int x, y;
 	struct gtktsm_glyph *glyph;
-	bool skip;
+	bool skip, covered;
 	int r;
 
 	/* Skip if our age and the cell age is non-zero *and* the cell-age is
 	 * smaller than our age. */
 	skip = age && rend->age && age <= rend->age;
 
+	/* The other cells of a wide character have no width, they are drawn
+	 * with its first cell. If either of them was overwritten, the rest
+	 * must not keep parts of the wide character. */
+	covered = posy == rend->wide_row && posx < rend->wide_end;
+	if (!cwidth) {
+		if (covered)
+			return 0;
+
+		cwidth = 1;
+		len = 0;
+		skip = false;
+	} else if (covered && rend->wide_drawn) {
+		skip = false;
+	}
+
+	if (cwidth > 1) {
+		rend->wide_end = posx + cwidth;
+		rend->wide_row = posy;
+		rend->wide_drawn = !skip;
+	}
+
 	if (skip && !ctx->debug)
 		return 0;
 
@@ -1052,6 +1078,7 @@ static void gtktsm_renderer_draw(const struct gtktsm_renderer_ctx *ctx)
 	 * but at least it's fast enough to render a whole screen. */
 
 	cairo_surface_flush(rend->surface);
+	rend->wide_end = 0;
 	rend->age = tsm_screen_draw(ctx->screen,
 				    renderer_draw_cell,
 				    (void*)ctx);
-- 
2.43.0


From f8e496901986aa674c0ca54908cbbba085632903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 40/47] fix: gtktsm: draw bold and italic text with the bold
 italic face

---
 src/gtktsm/gtktsm-terminal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 3cb8a9c..05a2597 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1010,7 +1010,9 @@ static int renderer_draw_cell(struct tsm_screen *screen,
 	}
 
 	/* select correct font */
-	if (attr->bold && ctx->face_bold)
+	if (attr->bold && attr->italic && ctx->face_bold_italic)
+		face = ctx->face_bold_italic;
+	else if (attr->bold && ctx->face_bold)
 		face = ctx->face_bold;
 	else if (attr->italic && ctx->face_italic)
 		face = ctx->face_italic;
-- 
2.43.0


From 7168a4d29a778e1aaefbf5e3c51ddffafa78376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:14 +0000
Subject: [PATCH 41/47] fix: gtktsm: resize the screen and redraw all cells
 when the font changes

---
 src/gtktsm/gtktsm-terminal.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 05a2597..adde067 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1272,6 +1272,22 @@ static void terminal_set_font(GtkTsmTerminal *term)
 		p->face_bold_italic = NULL;
 
 	terminal_recalculate_cells(term, p->width, p->height);
+
+	/* the screen follows the new cell size once the widget has a size */
+	if (p->realized) {
+		r = tsm_screen_resize(p->screen, p->columns, p->rows);
+		if (r < 0)
+			g_error("tsm_screen_resize() failed: %d", r);
+
+		if (p->pty) {
+			r = shl_pty_resize(p->pty, p->columns, p->rows);
+			if (r < 0)
+				g_error("shl_pty_resize() failed: %d", r);
+		}
+	}
+
+	/* no cell was drawn with the new font, yet */
+	p->rend->age = 0;
 	gtk_widget_queue_draw(GTK_WIDGET(term));
 }
 
-- 
2.43.0


From 58dd8d2974bc9451ae329bff346d2635525df263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:17 +0000
Subject: [PATCH 42/47] fix: gtktsm: redraw all cells when the highlighting of
 dirty cells changes

---
 src/gtktsm/gtktsm-terminal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index adde067..4acf0e9 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1770,6 +1770,8 @@ static void terminal_set_property(GObject *gobj,
 		break;
 	case TERMINAL_PROP_SHOW_DIRTY:
 		p->show_dirty = g_value_get_boolean(val);
+		/* redraw all cells to remove the highlighting */
+		p->rend->age = 0;
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 		break;
 	case TERMINAL_PROP_DEBUG:
-- 
2.43.0


From fa4a221db128c723dce8a32c8de5b458b404d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 43/47] fix: gtktsm: select at the edge when the pointer leaves
 the widget

---
 src/gtktsm/gtktsm-terminal.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 4acf0e9..b9633ff 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1463,6 +1463,12 @@ static gboolean terminal_key_fn(GtkWidget *widget,
 	return FALSE;
 }
 
+/* cell at a pointer position, which can lie outside of the widget */
+static unsigned int pos_to_cell(gdouble pos, unsigned int cell_size)
+{
+	return pos > 0 ? pos / cell_size : 0;
+}
+
 static gboolean terminal_button_fn(GtkWidget *widget,
 				   GdkEvent *ev,
 				   gpointer data)
@@ -1490,15 +1496,15 @@ static gboolean terminal_button_fn(GtkWidget *widget,
 		p->sel = 2;
 		/* TODO: select word */
 		tsm_screen_selection_start(p->screen,
-					   e->x / cell_width,
-					   e->y / cell_height);
+					   pos_to_cell(e->x, cell_width),
+					   pos_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	} else if (e->type == GDK_3BUTTON_PRESS) {
 		p->sel = 2;
 		/* TODO: select line */
 		tsm_screen_selection_start(p->screen,
-					   e->x / cell_width,
-					   e->y / cell_height);
+					   pos_to_cell(e->x, cell_width),
+					   pos_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	} else if (e->type == GDK_BUTTON_RELEASE) {
 		if (p->sel == 1 && p->sel_start + 100 > e->time) {
@@ -1537,14 +1543,14 @@ static gboolean terminal_motion_fn(GtkWidget *widget,
 		    fabs(p->sel_y - e->y) > 3) {
 			p->sel = 2;
 			tsm_screen_selection_start(p->screen,
-						   p->sel_x / cell_width,
-						   p->sel_y / cell_height);
+						   pos_to_cell(p->sel_x, cell_width),
+						   pos_to_cell(p->sel_y, cell_height));
 			gtk_widget_queue_draw(GTK_WIDGET(term));
 		}
 	} else {
 		tsm_screen_selection_target(p->screen,
-					    e->x / cell_width,
-					    e->y / cell_height);
+					    pos_to_cell(e->x, cell_width),
+					    pos_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	}
 
-- 
2.43.0


From f65e12a0c2ae9591ce1c62201f050cafdfbf2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 44/47] fix: gtktsm: redraw when the scrollback shrinks

---
 src/gtktsm/gtktsm-terminal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index b9633ff..ec108aa 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1747,6 +1747,8 @@ static void terminal_set_property(GObject *gobj,
 	case TERMINAL_PROP_SB_SIZE:
 		p->prop_sb_size = g_value_get_uint(val);
 		tsm_screen_set_max_sb(p->screen, p->prop_sb_size);
+		/* lines on the screen might have been dropped */
+		gtk_widget_queue_draw(GTK_WIDGET(term));
 		break;
 	case TERMINAL_PROP_ANTI_ALIASING:
 		update_font = true;
-- 
2.43.0


From f667cb294906f984bd8b55c964796420a2502e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:41 +0000
Subject: [PATCH 45/47] fix: gtktsm: do not ignore a scroll-back size of zero

---
 src/gtktsm/gtktsm-app.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gtktsm/gtktsm-app.c b/src/gtktsm/gtktsm-app.c
index bfb01d5..5bee66c 100644
--- a/src/gtktsm/gtktsm-app.c
+++ b/src/gtktsm/gtktsm-app.c
@@ -41,11 +41,12 @@ struct _GtkTsmAppClass {
 G_DEFINE_TYPE(GtkTsmApp, gtktsm_app, GTK_TYPE_APPLICATION);
 
 static gboolean arg_version;
+static gint arg_sb_size = G_MININT;
 
 static GOptionEntry app_options[] = {
 	{ "version", 0, 0, G_OPTION_ARG_NONE, &arg_version, "Show version information and exit", NULL },
 	{ "font", 0, 0, G_OPTION_ARG_STRING, NULL, "Terminal font", "FONT" },
-	{ "sb-size", 0, 0, G_OPTION_ARG_INT, NULL, "Scroll-back buffer size in lines", "COUNT" },
+	{ "sb-size", 0, 0, G_OPTION_ARG_INT, &arg_sb_size, "Scroll-back buffer size in lines", "COUNT" },
 	{ "anti-aliasing", 0, 0, G_OPTION_ARG_STRING, NULL, "Anti-aliasing mode for font rendering", "{none,gray,subpixel,default}" },
 	{ "subpixel-order", 0, 0, G_OPTION_ARG_STRING, NULL, "Subpixel order for font rendering", "{rgb,bgr,vrgb,vbgr,default}" },
 	{ "show-dirty", 0, 0, G_OPTION_ARG_NONE, NULL, "Mark dirty cells during redraw", NULL },
@@ -61,6 +62,10 @@ static gint app_handle_local_options(GApplication *gapp,
 		return 0;
 	}
 
+	/* GApplication does not pass integers on if they are zero */
+	if (arg_sb_size != G_MININT)
+		g_variant_dict_insert(opts, "sb-size", "i", arg_sb_size);
+
 	return -1;
 }
 
-- 
2.43.0


From 692d2ccca5dc68661d8b56e0edf1f8585bd6ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:59 +0000
Subject: [PATCH 46/47] fix: export all functions of the public header

---
 src/tsm/tsm-screen.c | 2 ++
 src/tsm/tsm-vte.c    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 075eb39..3dc4a46 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -960,6 +960,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->sb_pos_num = con->sb_count;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 {
 	if (!con) {
@@ -969,6 +970,7 @@ unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 	return con->sb_count;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_pos(struct tsm_screen *con)
 {
 	if (!con) {
diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index d078477..cd82ae0 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3185,6 +3185,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	return false;
 }
 
+SHL_EXPORT
 bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
-- 
2.43.0


From 25f07c8c1d945b8f0852e6deae48473d46db24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:01 +0000
Subject: [PATCH 47/47] fix: avoid undefined shifts when aligning 0, 1 and huge
 sizes

---
 src/shared/shl-macro.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-macro.h b/src/shared/shl-macro.h
index 67607bd..8f55a44 100644
--- a/src/shared/shl-macro.h
+++ b/src/shared/shl-macro.h
@@ -141,7 +141,11 @@ static inline void shl_set_errno(int *r)
 /* align to next higher power-of-2 (except for: 0 => 0, overflow => 0) */
 static inline size_t SHL_ALIGN_POWER2(size_t u)
 {
-	return 1ULL << ((sizeof(u) * 8ULL) - __builtin_clzll(u - 1ULL));
+	/* clz is undefined for 0 and so is a shift by the full width */
+	if (u < 2)
+		return u;
+	return 2ULL << (sizeof(unsigned long long) * 8ULL - 1ULL -
+			__builtin_clzll(u - 1ULL));
 }
 
 /* zero memory or type */
-- 
2.43.0

