From a02c500cd74225fb163b31b5ee0ca60806653d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 01/48] fix: selection: copy blank cells as spaces, skip
 wide-char tails

copy_line() wrote a NUL byte for every blank cell (the blank test was
always true), so the copied string ended at the first gap, and it copied
the cells covered by the second half of a wide character.
---
 src/tsm/tsm-selection.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 7821f03..7d7aff4 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -163,7 +163,11 @@ static unsigned int copy_line(struct line *line, char *buf,
 	}
 
 	for (i = start; i < line->size && i < end; ++i) {
-		if (i < line->size || !line->cells[i].ch)
+		/* trailing cell of a wide character */
+		if (!line->cells[i].width)
+			continue;
+
+		if (line->cells[i].ch)
 			pos += tsm_ucs4_to_utf8(line->cells[i].ch, pos);
 		else
 			pos += tsm_ucs4_to_utf8(' ', pos);
-- 
2.43.0


From 3e22d2b5a4eab4e8fe4b6e2862c0c4f557b4150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 02/48] fix: selection: never copy lines outside of the screen

If the start of a selection scrolled into the scrollback buffer its y
position is SELECTION_TOP (-1), and scrolling down can push a position
below the last line; copying then read con->lines[] out of bounds.
---
 src/tsm/tsm-selection.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 7d7aff4..007ff4e 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -282,19 +282,37 @@ static int selection_count_lines_sb(struct tsm_screen *con, struct selection_pos
 	return count;
 }
 
+/*
+ * First and last screen line of a normalized selection
+ *
+ * If the selection starts in the scroll back buffer, start->y is no screen line
+ */
+static void selection_screen_lines(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end, int *first, int *last)
+{
+	*first = start->line ? 0 : start->y;
+	*last = end->y;
+	if (*last >= (int)con->size_y) {
+		*last = (int)con->size_y - 1;
+	}
+}
+
 /*
  * Counts the lines a normalized selection selects on the screen
  *
  * Does not count the lines selected in the scroll back buffer
  */
-static int selection_count_lines(struct selection_pos *start, struct selection_pos *end)
+static int selection_count_lines(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end)
 {
+	int first, last;
+
 	/* Selection only spans lines of the scroll back buffer */
 	if (start->line && end->line) {
 		return 0;
 	}
 
-	return end->y - start->y + 1;
+	selection_screen_lines(con, start, end, &first, &last);
+
+	return last < first ? 0 : last - first + 1;
 }
 
 /*
@@ -393,14 +411,16 @@ static int copy_lines_sb(struct tsm_screen *con, struct selection_pos *start, st
  */
 static int copy_lines(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end, char *buf, int pos)
 {
-	int line_len, line_x, i;
+	int line_len, line_x, first, last, i;
 
 	/* selection is scroll back buffer only */
 	if (end->line) {
 		return pos;
 	}
 
-	for (i = start->y; i <= end->y; i++) {
+	selection_screen_lines(con, start, end, &first, &last);
+
+	for (i = first; i <= last; i++) {
 		line_len = calc_selection_line_len(con, start, end, i);
 
 		line_x = 0;
@@ -460,7 +480,7 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	}
 
 	total_lines =  selection_count_lines_sb(con, start, end);
-	total_lines += selection_count_lines(start, end);
+	total_lines += selection_count_lines(con, start, end);
 	buf_size = calc_line_copy_buffer(con, total_lines);
 
 	*out = calloc(buf_size, 1);
-- 
2.43.0


From 761a72feb9f51dee43a812934c63aadc63f7cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 03/48] fix: selection: copy buffer is too small

The buffer had no room for the line breaks, and lines which are wider
than the screen (after shrinking it) were copied beyond the screen width.
---
 src/tsm/tsm-selection.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 007ff4e..9977504 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -126,13 +126,14 @@ void tsm_screen_selection_target(struct tsm_screen *con,
 	selection_set(con, &con->sel_end, posx, posy);
 }
 
-/* calculates the line length from the beginning to the last non zero character */
-static unsigned int calc_line_len(struct line *line)
+/* calculates the visible line length from the beginning to the last non zero
+ * character; the line may be wider than the screen */
+static unsigned int calc_line_len(struct tsm_screen *con, struct line *line)
 {
 	unsigned int line_len = 0;
-	int i;
+	unsigned int i;
 
-	for (i = 0; i < line->size; i++) {
+	for (i = 0; i < line->size && i < con->size_x; i++) {
 		if (line->cells[i].ch != 0) {
 			line_len = i + 1;
 		}
@@ -144,14 +145,14 @@ static unsigned int calc_line_len(struct line *line)
 /* TODO: tsm_ucs4_to_utf8 expects UCS4 characters, but a cell contains a
  * tsm-symbol (which can contain multiple UCS4 chars). Fix this when introducing
  * support for combining characters. */
-static unsigned int copy_line(struct line *line, char *buf,
-			      unsigned int start, unsigned int len)
+static unsigned int copy_line(struct tsm_screen *con, struct line *line,
+			      char *buf, unsigned int start, unsigned int len)
 {
 	unsigned int i, end;
 	char *pos = buf;
 	int line_len;
 
-	line_len = calc_line_len(line);
+	line_len = calc_line_len(con, line);
 	if (start > line_len) {
 		return 0;
 	}
@@ -370,8 +371,8 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
  */
 static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
 {
-	// 4 is the max size of a Unicode character
-	return con->size_x * num_lines * 4 + 1;
+	// 4 is the max size of a Unicode character, plus one line break per line
+	return (con->size_x * 4 + 1) * num_lines + 1;
 }
 
 /*
@@ -394,7 +395,7 @@ static int copy_lines_sb(struct tsm_screen *con, struct selection_pos *start, st
 		}
 
 		line_len = calc_selection_line_len_sb(con, start, end, iter);
-		pos += copy_line(iter, &(buf[pos]), line_x, line_len);
+		pos += copy_line(con, iter, &(buf[pos]), line_x, line_len);
 
 		if (iter == con->sb_last || iter == end->line) {
 			break;
@@ -428,7 +429,7 @@ static int copy_lines(struct tsm_screen *con, struct selection_pos *start, struc
 			line_x = start->x;
 		}
 
-		pos += copy_line(con->lines[i], &(buf[pos]), line_x, line_len);
+		pos += copy_line(con, con->lines[i], &(buf[pos]), line_x, line_len);
 	}
 
 	return pos;
-- 
2.43.0


From 89fef701fa80f831c6550aa5255d591c7325624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 04/48] fix: selection: order of the end points in the
 scrollback buffer

A selection from the last scrollback line upwards and one whose start was
already dropped from the scrollback buffer were not (or wrongly) swapped,
so the wrong lines were copied.
---
 src/tsm/tsm-selection.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 9977504..bf54cbd 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -204,6 +204,10 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 		return;
 	}
 
+	if ((*start)->line == NULL && (*start)->y == SELECTION_TOP) {
+		return;
+	}
+
 	if ((*start)->line && (*end)->line) {
 		/* single line selection */
 		if ((*start)->line == (*end)->line) {
@@ -222,9 +226,10 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 		 * need to change start and end
 		*/
 		iter = (*end)->line;
-		while (iter && iter != con->sb_last) {
+		while (iter) {
 			if (iter == (*start)->line) {
 				swap_selections(start, end);
+				break;
 			}
 
 			iter = iter->next;
-- 
2.43.0


From 5762bc004653da19c0b8e22b67ae8f11a619574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 05/48] fix: render: selection above the scrollback buffer
 marks every line

For scrollback lines k is 0 and k - 1 equals SELECTION_TOP, so every
displayed scrollback line was treated as the one where the selection
starts or ends.
---
 src/tsm/tsm-render.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 88ad847..df9b8d0 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -101,13 +101,13 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 		if (con->sel_active) {
 			if (con->sel_start.line == line ||
 			    (!con->sel_start.line &&
-			     con->sel_start.y == k - 1))
+			     k && con->sel_start.y == k - 1))
 				sel_start = true;
 			else
 				sel_start = false;
 			if (con->sel_end.line == line ||
 			    (!con->sel_end.line &&
-			     con->sel_end.y == k - 1))
+			     k && con->sel_end.y == k - 1))
 				sel_end = true;
 			else
 				sel_end = false;
-- 
2.43.0


From b185ab891231432ed0eea5e67837f0de1a748012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 06/48] fix: screen: keep the numeric scrollback position in
 sync

Dropping the oldest line, shrinking the scrollback buffer and leaving it
with sb_reset() updated the position but not (or wrongly) its number.
---
 src/tsm/tsm-screen.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b8202d4..8b6af9b 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -230,13 +230,14 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 		if (con->sb_pos) {
 			if (con->sb_pos == tmp ||
 			    !(con->flags & TSM_SCREEN_FIXED_POS)) {
-				if (con->sb_pos->next) {
+				/* the numeric position stays the same as the
+				 * first line is removed */
+				if (con->sb_pos->next)
 					con->sb_pos = con->sb_pos->next;
-					++con->sb_pos_num;
-				} else {
+				else
 					con->sb_pos = line;
-					con->sb_pos_num = 0;
-				}
+			} else {
+				--con->sb_pos_num;
 			}
 		}
 
@@ -800,6 +801,10 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 		 * remove lines from the TOP of the scrollback buffer. */
 		if (con->sb_pos == line)
 			con->sb_pos = con->sb_first;
+		else if (con->sb_pos)
+			--con->sb_pos_num;
+		if (!con->sb_pos)
+			con->sb_pos_num = con->sb_count;
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line) {
@@ -931,7 +936,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->age = con->age_cnt;
 
 	con->sb_pos = NULL;
-	con->sb_pos_num = 0;
+	con->sb_pos_num = con->sb_count;
 }
 
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
-- 
2.43.0


From 0117eb3ef897e9d607b44b22cc34e301ccac0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 07/48] fix: screen: insert mode with a character wider than
 the screen

The comparison is unsigned, so it wrapped around and memmove() got a huge
size on a screen with one column.
---
 src/tsm/tsm-screen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 8b6af9b..f66397e 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -405,7 +405,7 @@ static void screen_write(struct tsm_screen *con, unsigned int x,
 	line = con->lines[y];
 
 	if ((con->flags & TSM_SCREEN_INSERT_MODE) &&
-	    (int)x < ((int)con->size_x - len)) {
+	    x + len < con->size_x) {
 		line->age = con->age_cnt;
 		memmove(&line->cells[x + len], &line->cells[x],
 			sizeof(struct cell) * (con->size_x - len - x));
-- 
2.43.0


From 432561c7ce18c94438deed2894cb0e4e06586475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 08/48] fix: screen: tab_left reads beyond the tab ruler

After a wide character in the last column the cursor is at size_x + 1.
---
 src/tsm/tsm-screen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index f66397e..3896377 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1362,7 +1362,10 @@ void tsm_screen_tab_left(struct tsm_screen *con, unsigned int num)
 
 	screen_inc_age(con);
 
+	/* the cursor is beyond the screen if a new-line is pending */
 	x = con->cursor_x;
+	if (x > con->size_x)
+		x = con->size_x;
 	for (i = 0; i < num; ++i) {
 		for (j = x - 1; j > 0; --j) {
 			if (con->tab_ruler[j])
-- 
2.43.0


From 03d192ac82ec7ba5b54557bbb534a397bc2139ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 09/48] fix: screen: attributes of new cells when resizing the
 main screen

def_attr_main is only set when switching to the alternate screen, so new
cells of the main screen got all-zero or stale attributes.
---
 src/tsm/tsm-screen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 3896377..d12c23f 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -606,6 +606,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	unsigned int i, j, width, diff, start;
 	int ret;
 	bool *tab_ruler;
+	struct tsm_screen_attr *main_attr;
 
 	if (!con || !x || !y)
 		return -EINVAL;
@@ -683,6 +684,12 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 	screen_inc_age(con);
 
+	/* def_attr_main is only valid while the alt screen is active */
+	if (con->flags & TSM_SCREEN_ALTERNATE)
+		main_attr = &con->def_attr_main;
+	else
+		main_attr = &con->def_attr;
+
 	/* clear expansion/padding area */
 	start = x;
 	if (x > con->size_x)
@@ -695,7 +702,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 		for ( ; i < con->main_lines[j]->size; ++i)
 			screen_cell_init_generic(con, &con->main_lines[j]->cells[i],
-				&con->def_attr_main);
+				main_attr);
 
 		/* alt-lines never go into SB, only clear visible cells */
 		i = 0;
-- 
2.43.0


From b1a39763ec71f17268eaa7212912a5aeb8c5d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 10/48] fix: utf8: reject overlong encodings

The check for 0xC0/0xC1 never matched because the input byte was
sign-extended, and overlong three and four byte sequences were accepted,
so control characters could be smuggled in as multi-byte sequences.
---
 src/tsm/tsm-unicode.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index bc1609a..d2395be 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -501,7 +501,7 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 	if (!mach)
 		return TSM_UTF8_START;
 
-	c = ci;
+	c = (unsigned char)ci;
 
 	switch (mach->state) {
 	case TSM_UTF8_START:
@@ -536,14 +536,14 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 		break;
 	case TSM_UTF8_EXPECT3:
 		mach->ch |= (c & 0x3F) << 12;
-		if ((c & 0xC0) == 0x80)
+		if ((c & 0xC0) == 0x80 && mach->ch >= 0x10000)
 			mach->state = TSM_UTF8_EXPECT2;
 		else
 			mach->state = TSM_UTF8_REJECT;
 		break;
 	case TSM_UTF8_EXPECT2:
 		mach->ch |= (c & 0x3F) << 6;
-		if ((c & 0xC0) == 0x80)
+		if ((c & 0xC0) == 0x80 && mach->ch >= 0x800)
 			mach->state = TSM_UTF8_EXPECT1;
 		else
 			mach->state = TSM_UTF8_REJECT;
-- 
2.43.0


From d6cb58dbbfa914e1162539b55dcf9a0c0f6fdacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 11/48] fix: vte: 8bit mode drops all bytes above 0x7f

The signed char was sign-extended to a 32bit code point.
---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 82dca19..251bd7d 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2522,7 +2522,7 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 					   (int)u8[i]);
 			parse_data(vte, u8[i] & 0x7f);
 		} else if (vte->flags & TSM_VTE_FLAG_8BIT_MODE) {
-			parse_data(vte, u8[i]);
+			parse_data(vte, (unsigned char)u8[i]);
 		} else {
 			state = tsm_utf8_mach_feed(vte->mach, u8[i]);
 			if (state == TSM_UTF8_ACCEPT ||
-- 
2.43.0


From fcf7fd4fd1dfb820b0d48c66e0a51ae7825368e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 12/48] fix: symbols: composed symbols resolve to the wrong
 string

The IDs started one above their index in the table, so looking up a
composed symbol returned the next one (or nothing). The error path also
freed a pointer which was already moved behind the hidden ID.
---
 src/tsm/tsm-unicode.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index d2395be..5a3737b 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -155,7 +155,8 @@ int tsm_symbol_table_new(struct tsm_symbol_table **out)
 		return -ENOMEM;
 	memset(tbl, 0, sizeof(*tbl));
 	tbl->ref = 1;
-	tbl->next_id = TSM_UCS4_MAX + 2;
+	/* incremented before use; index 0 is the dummy */
+	tbl->next_id = TSM_UCS4_MAX + 1;
 	shl_htable_init(&tbl->symbols, cmp_ucs4, hash_ucs4, NULL);
 
 	ret = shl_array_new(&tbl->index, sizeof(uint32_t*), 4);
@@ -307,7 +308,7 @@ err_symbol:
 	shl_htable_remove(&tbl->symbols, nval, hash_ucs4(nval, NULL), NULL);
 err_id:
 	--tbl->next_id;
-	free(nval);
+	free(nval - 1);
 	return sym;
 }
 
-- 
2.43.0


From c1f36ded54b6f86e911cb49227c5228a01d4bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 13/48] fix: vte: SGR 38/48 as last of 16 parameters reads out
 of bounds

---
 src/tsm/tsm-vte.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 251bd7d..b44361d 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1380,6 +1380,10 @@ static void csi_attribute(struct tsm_vte *vte)
 			/* fallthrough */
 		case 48:
 			val = vte->csi_argv[i];
+			if (i + 1 >= vte->csi_argc) {
+				llog_debug(vte, "invalid SGR");
+				break;
+			}
 			if (vte->csi_argv[i + 1] == 5) { // 256color mode
 				if (i + 2 >= vte->csi_argc ||
 					vte->csi_argv[i + 2] < 0) {
-- 
2.43.0


From d5d63517b1b87638b1ff32a7b195bd642e56e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 14/48] fix: vte: cursor row shifts by the top margin in origin
 mode

DECRC, CHA, VPR and the cursor restore of 1048/1049 passed an absolute
row to tsm_screen_move_to(), which takes a row relative to the top margin
while origin mode is set.
---
 src/tsm/tsm-vte.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index b44361d..13731a9 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -752,10 +752,20 @@ static void save_state(struct tsm_vte *vte)
 	vte->saved_state.origin_mode = vte->flags & TSM_VTE_FLAG_ORIGIN_MODE;
 }
 
+/* move cursor to an absolute position, even in origin mode */
+static void move_to_absolute(struct tsm_vte *vte, unsigned int x,
+			     unsigned int y)
+{
+	tsm_screen_reset_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
+	tsm_screen_move_to(vte->con, x, y);
+	if (vte->flags & TSM_VTE_FLAG_ORIGIN_MODE)
+		tsm_screen_set_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
+}
+
 static void restore_state(struct tsm_vte *vte)
 {
-	tsm_screen_move_to(vte->con, vte->saved_state.cursor_x,
-			       vte->saved_state.cursor_y);
+	move_to_absolute(vte, vte->saved_state.cursor_x,
+			 vte->saved_state.cursor_y);
 	vte->cattr = vte->saved_state.cattr;
 	to_rgb(vte, &vte->cattr);
 	if (vte->flags & TSM_VTE_FLAG_BACKGROUND_COLOR_ERASE_MODE)
@@ -1676,8 +1686,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				vte->alt_cursor_y =
 					tsm_screen_get_cursor_y(vte->con);
 			} else {
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_absolute(vte, vte->alt_cursor_x,
+						 vte->alt_cursor_y);
 			}
 			continue;
 		case 1049: /* Alternate screen buffer with pre-erase+cursor */
@@ -1695,8 +1705,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			} else {
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_absolute(vte, vte->alt_cursor_x,
+						 vte->alt_cursor_y);
 			}
 			continue;
 		case TSM_VTE_MOUSE_EVENT_BTN:
@@ -1836,8 +1846,12 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		if (num <= 0)
 			num = 1;
 		x = tsm_screen_get_cursor_x(vte->con);
-		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, x, y + num);
+		y = tsm_screen_get_cursor_y(vte->con) + num;
+		/* the row is relative to the top margin in origin mode */
+		if (vte->flags & TSM_VTE_FLAG_ORIGIN_MODE)
+			y = y > (int)vte->con->margin_top ?
+				y - (int)vte->con->margin_top : 0;
+		tsm_screen_move_to(vte->con, x, y);
 		break;
 	case 'F': /* CPL */
 		/* Move cursor up the indicated # of rows, to column 1 */
@@ -1864,7 +1878,7 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		if (num <= 0)
 			num = 1;
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, num - 1, y);
+		move_to_absolute(vte, num - 1, y);
 		break;
 	case 'J':
 		if (vte->csi_flags & CSI_WHAT)
-- 
2.43.0


From b69486d7894e6f9f5ebad7fd22dfbc08b7a370c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 15/48] fix: vte: resetting mode 1047 on the main screen erases
 it

Only the alternate screen is cleared when it is left.
---
 src/tsm/tsm-vte.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 13731a9..fde1c94 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1671,7 +1671,9 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				tsm_screen_set_flags(vte->con,
 						     TSM_SCREEN_ALTERNATE);
 			} else {
-				tsm_screen_erase_screen(vte->con, false);
+				if (tsm_screen_get_flags(vte->con) &
+				    TSM_SCREEN_ALTERNATE)
+					tsm_screen_erase_screen(vte->con, false);
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
 			}
-- 
2.43.0


From 3fc5ba11c01b305fcc2023fbc8c121a80cd65c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 16/48] fix: vte: local echo moves the Alt escape prefix to the
 reply

If the echoed data causes a reply, the reply got the escape prefix and
the key itself was sent without it.
---
 src/tsm/tsm-vte.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index fde1c94..74db179 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -682,6 +682,8 @@ unsigned int tsm_vte_get_mouse_event(struct tsm_vte *vte)
 static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 			    bool raw, const char *file, int line)
 {
+	bool escape;
+
 #ifdef BUILD_ENABLE_DEBUG
 	/* in debug mode we check that escape sequences are always <0x7f so they
 	 * are correctly parsed by non-unicode and non-8bit-mode clients. */
@@ -696,18 +698,21 @@ static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 	}
 #endif
 
+	/* only this output gets the escape character, not a reply or reset
+	 * caused by parsing the echoed data below */
+	escape = vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE;
+	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
+
 	/* in local echo mode, directly parse the data again */
 	if (!vte->parse_cnt && !(vte->flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE)) {
-		if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+		if (escape)
 			tsm_vte_input(vte, "\e", 1);
 		tsm_vte_input(vte, u8, len);
 	}
 
-	if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+	if (escape)
 		vte->write_cb(vte, "\e", 1, vte->data);
 	vte->write_cb(vte, u8, len, vte->data);
-
-	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
 }
 
 #define vte_write(_vte, _u8, _len) \
-- 
2.43.0


From 3fda89d391542e87f2ba7258fc16c787f4f6fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 17/48] fix: pty: re-arm the edge-triggered events after a
 partial dispatch

The fd is already part of the epoll-set, so EPOLL_CTL_ADD failed with
EEXIST and nothing was re-armed; the same request by pty_write() was
ignored. Data could be left behind with no event to fetch it.
---
 src/shared/shl-pty.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 8c8bb32..40afaa6 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -392,14 +392,14 @@ static int pty_read(struct shl_pty *pty)
 
 int shl_pty_dispatch(struct shl_pty *pty)
 {
-	int r;
+	int r, w;
 
 	if (!shl_pty_is_open(pty))
 		return -ENODEV;
 
 	r = pty_read(pty);
-	pty_write(pty);
-	return r;
+	w = pty_write(pty);
+	return (!r && w == -EAGAIN) ? w : r;
 }
 
 int shl_pty_write(struct shl_pty *pty, const char *u8, size_t len)
@@ -484,7 +484,7 @@ int shl_pty_bridge_dispatch_pty(int bridge, struct shl_pty *pty)
 		up.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET;
 		up.data.ptr = pty;
 		epoll_ctl(bridge,
-			  EPOLL_CTL_ADD,
+			  EPOLL_CTL_MOD,
 			  shl_pty_get_fd(pty),
 			  &up);
 	}
-- 
2.43.0


From 5d14c1241e157d13febacbe5130c9e74a18adf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 18/48] fix: vte: byte after an incomplete UTF-8 sequence is
 dropped

---
 src/tsm/tsm-vte.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 74db179..bd14b16 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2529,6 +2529,12 @@ static void parse_data(struct tsm_vte *vte, uint32_t raw)
 	llog_warning(vte, "unhandled input %u in state %d", raw, vte->state);
 }
 
+/* whether @c is the first byte of a UTF-8 sequence */
+static bool utf8_is_start(unsigned char c)
+{
+	return c < 0x80 || (c >= 0xc2 && c < 0xf8);
+}
+
 SHL_EXPORT
 void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 {
@@ -2555,6 +2561,13 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 				ucs4 = tsm_utf8_mach_get(vte->mach);
 				parse_data(vte, ucs4);
 			}
+
+			/* A byte that starts a sequence is only rejected if it
+			 * cuts another sequence short. It is not part of that
+			 * sequence so do not drop it. */
+			if (state == TSM_UTF8_REJECT &&
+			    utf8_is_start(u8[i]))
+				--i;
 		}
 	}
 	--vte->parse_cnt;
-- 
2.43.0


From 563d057e7274944d210cd13f84bbe4a4a40770a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 19/48] fix: vte: 7bit mode truncates keyboard input above
 U+00FF

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index bd14b16..785ba31 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3132,7 +3132,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	if (unicode != TSM_VTE_INVALID) {
 		if (vte->flags & TSM_VTE_FLAG_7BIT_MODE) {
 			val = unicode;
-			if (unicode & 0x80) {
+			if (unicode > 0x7f) {
 				llog_debug(vte, "invalid keyboard input in 7bit mode U+%x; mapping to '?'",
 					   unicode);
 				val = '?';
-- 
2.43.0


From 850f554f8d36e19149d6346b4f2a4f581b582cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 20/48] fix: screen: new default attributes do not age padding
 cells

---
 src/tsm/tsm-screen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index d12c23f..e177c23 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -970,6 +970,10 @@ void tsm_screen_set_def_attr(struct tsm_screen *con,
 {
 	if (!con || !attr)
 		return;
+
+	/* cells beyond the end of short lines are drawn with the default
+	 * attributes and always have the current age */
+	screen_inc_age(con);
 	memcpy(&con->def_attr, attr, sizeof(*attr));
 }
 
-- 
2.43.0


From 399375030cd9038b633562a84a7f42fba98ba55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 21/48] fix: vte: reset the cursor position saved by modes
 1048/1049

---
 src/tsm/tsm-vte.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 785ba31..e042c08 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -744,6 +744,9 @@ static void reset_state(struct tsm_vte *vte)
 	vte->saved_state.cattr.inverse = 0;
 	vte->saved_state.cattr.protect = 0;
 	vte->saved_state.cattr.blink = 0;
+
+	vte->alt_cursor_x = 0;
+	vte->alt_cursor_y = 0;
 }
 
 static void save_state(struct tsm_vte *vte)
-- 
2.43.0


From cfdf963df53fda75c4ce70d15e434cee12a9f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 22/48] fix: vte: cursor position report with pending wrap and
 origin mode

---
 src/tsm/tsm-vte.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index e042c08..aa67979 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1789,6 +1789,13 @@ static void csi_dsr(struct tsm_vte *vte)
 	} else if (vte->csi_argv[0] == 6) {
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
+		/* the cursor is beyond the line if a new-line is pending */
+		if (x >= tsm_screen_get_width(vte->con))
+			x = tsm_screen_get_width(vte->con) - 1;
+		/* the row is relative to the top margin in origin mode */
+		if (vte->flags & TSM_VTE_FLAG_ORIGIN_MODE)
+			y = y > vte->con->margin_top ?
+				y - vte->con->margin_top : 0;
 		len = snprintf(buf, sizeof(buf), "\e[%u;%uR", y + 1, x + 1);
 		if (len >= sizeof(buf))
 			vte_write(vte, "\e[0;0R", 6);
-- 
2.43.0


From cf007e66d06dd1dcfaad617652320cca4a1f921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 23/48] fix: screen: never scroll while the cursor is outside
 of the margins

---
 src/tsm/tsm-screen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index e177c23..4b17953 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1149,7 +1149,9 @@ void tsm_screen_write(struct tsm_screen *con, tsm_symbol_t ch,
 
 	if (con->cursor_y > last) {
 		move_cursor(con, con->cursor_x, last);
-		screen_scroll_up(con, 1);
+		/* never scroll if outside of the margins */
+		if (last == con->margin_bottom)
+			screen_scroll_up(con, 1);
 	}
 
 	screen_write(con, con->cursor_x, con->cursor_y, ch, len, attr);
@@ -1236,7 +1238,8 @@ void tsm_screen_move_up(struct tsm_screen *con, unsigned int num,
 	diff = con->cursor_y - size;
 	if (num > diff) {
 		num -= diff;
-		if (scroll)
+		/* never scroll if outside of the margins */
+		if (scroll && size == con->margin_top)
 			screen_scroll_down(con, num);
 		move_cursor(con, con->cursor_x, size);
 	} else {
@@ -1263,7 +1266,8 @@ void tsm_screen_move_down(struct tsm_screen *con, unsigned int num,
 	diff = size - con->cursor_y - 1;
 	if (num > diff) {
 		num -= diff;
-		if (scroll)
+		/* never scroll if outside of the margins */
+		if (scroll && size == con->margin_bottom + 1)
 			screen_scroll_up(con, num);
 		move_cursor(con, con->cursor_x, size - 1);
 	} else {
-- 
2.43.0


From 969f739cd5624bc0aa21b6ce3220db425360e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 24/48] fix: vte: ignore sequences with unknown prefixes or
 intermediates

---
 src/tsm/tsm-vte.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index aa67979..04a2c04 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -110,6 +110,7 @@ enum parser_action {
 #define CSI_PLUS	0x0100		/* CSI: + */
 #define CSI_POPEN	0x0200		/* CSI: ( */
 #define CSI_PCLOSE	0x0400		/* CSI: ) */
+#define CSI_OTHER	0x0800		/* CSI: any other character */
 
 /* max CSI arguments */
 #define CSI_ARG_MAX 16
@@ -1017,6 +1018,9 @@ static void do_collect(struct tsm_vte *vte, uint32_t data)
 	case ')':
 		vte->csi_flags |= CSI_PCLOSE;
 		break;
+	default:
+		vte->csi_flags |= CSI_OTHER;
+		break;
 	}
 }
 
@@ -1804,6 +1808,25 @@ static void csi_dsr(struct tsm_vte *vte)
 	}
 }
 
+/* prefixes and intermediates that are valid for a CSI sequence */
+static unsigned int csi_valid_flags(uint32_t data)
+{
+	switch (data) {
+	case 'J':
+	case 'K':
+	case 'h':
+	case 'l':
+	case 'n':
+		return CSI_WHAT;
+	case 'c':
+		return CSI_GT;
+	case 'p':
+		return CSI_GT | CSI_BANG | CSI_CASH | CSI_DQUOTE | CSI_WHAT;
+	default:
+		return 0;
+	}
+}
+
 static void do_csi(struct tsm_vte *vte, uint32_t data)
 {
 	int num, x, y, upper, lower;
@@ -1812,6 +1835,13 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 	if (vte->csi_argc < CSI_ARG_MAX)
 		vte->csi_argc++;
 
+	/* this is a different sequence that we do not know */
+	if (vte->csi_flags & ~csi_valid_flags(data)) {
+		llog_debug(vte, "unhandled CSI sequence %c with flags %x",
+			   data, vte->csi_flags);
+		return;
+	}
+
 	switch (data) {
 	case 'A': /* CUU */
 		/* move cursor up */
-- 
2.43.0


From 09b6e949ded48a63a99a2247cec54ca8c3a7cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 25/48] fix: selection: only end points between the margins
 scroll

---
 src/tsm/tsm-screen.c | 73 +++++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 4b17953..1458376 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -270,6 +270,53 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 	}
 }
 
+/* whether a selection end point is on one of the lines that are scrolled */
+static bool selection_scrolls(struct tsm_screen *con,
+			      struct selection_pos *sel)
+{
+	return !sel->line && sel->y >= (int)con->margin_top &&
+	       sel->y <= (int)con->margin_bottom;
+}
+
+static void selection_scroll_up(struct tsm_screen *con,
+				struct selection_pos *sel, unsigned int num)
+{
+	if (!selection_scrolls(con, sel))
+		return;
+
+	sel->y -= num;
+	if (sel->y >= (int)con->margin_top)
+		return;
+
+	if (con->flags & TSM_SCREEN_ALTERNATE) {
+		/* the line is lost; continue with the first one left */
+		sel->x = 0;
+		sel->y = con->margin_top;
+		return;
+	}
+
+	/* the line is in the scrollback buffer now, if it still exists */
+	sel->y -= con->margin_top;
+	sel->line = con->sb_last;
+	while (sel->line && ++sel->y < 0)
+		sel->line = sel->line->prev;
+	sel->y = SELECTION_TOP;
+}
+
+static void selection_scroll_down(struct tsm_screen *con,
+				  struct selection_pos *sel, unsigned int num)
+{
+	if (!selection_scrolls(con, sel))
+		return;
+
+	sel->y += num;
+	if (sel->y > (int)con->margin_bottom) {
+		/* the line is lost; continue with the last one left */
+		sel->x = con->size_x - 1;
+		sel->y = con->margin_bottom;
+	}
+}
+
 static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 {
 	unsigned int i, j, max, pos;
@@ -322,24 +369,8 @@ static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 	       cache, num * sizeof(struct line*));
 
 	if (con->sel_active) {
-		if (!con->sel_start.line && con->sel_start.y >= 0) {
-			con->sel_start.y -= num;
-			if (con->sel_start.y < 0) {
-				con->sel_start.line = con->sb_last;
-				while (con->sel_start.line && ++con->sel_start.y < 0)
-					con->sel_start.line = con->sel_start.line->prev;
-				con->sel_start.y = SELECTION_TOP;
-			}
-		}
-		if (!con->sel_end.line && con->sel_end.y >= 0) {
-			con->sel_end.y -= num;
-			if (con->sel_end.y < 0) {
-				con->sel_end.line = con->sb_last;
-				while (con->sel_end.line && ++con->sel_end.y < 0)
-					con->sel_end.line = con->sel_end.line->prev;
-				con->sel_end.y = SELECTION_TOP;
-			}
-		}
+		selection_scroll_up(con, &con->sel_start, num);
+		selection_scroll_up(con, &con->sel_end, num);
 	}
 }
 
@@ -380,10 +411,8 @@ static void screen_scroll_down(struct tsm_screen *con, unsigned int num)
 	       cache, num * sizeof(struct line*));
 
 	if (con->sel_active) {
-		if (!con->sel_start.line && con->sel_start.y >= 0)
-			con->sel_start.y += num;
-		if (!con->sel_end.line && con->sel_end.y >= 0)
-			con->sel_end.y += num;
+		selection_scroll_down(con, &con->sel_start, num);
+		selection_scroll_down(con, &con->sel_end, num);
 	}
 }
 
-- 
2.43.0


From 193d3a160d05bca1bf33a981edce0b70a8d13236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 26/48] fix: highlight the selection if an end point is beyond
 the last column

After the width of the screen is reduced, an end point of the selection can be
beyond the last column.  It was never reached while drawing, so that the rest
of the screen was highlighted or not highlighted at all.
---
 src/tsm/tsm-render.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index df9b8d0..ec423da 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -189,6 +189,14 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 						   "suppressing further warnings during this rendering round");
 			}
 		}
+
+		/* end points can be beyond the last column after a resize */
+		if (con->sel_active) {
+			if (sel_start && con->sel_start.x >= con->size_x)
+				in_sel = !in_sel;
+			if (sel_end && con->sel_end.x >= con->size_x)
+				in_sel = !in_sel;
+		}
 	}
 
 	if (con->age_reset) {
-- 
2.43.0


From 292c9ba81e834407f45dc4528b394ec1cd48b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 27/48] fix: copying from the scrollback into the first screen
 row

If a selection starts in the scrollback buffer and ends in the first row of the
screen, but in an earlier column, its end points were taken for end points in
the same row and swapped, and nothing was copied.
---
 src/tsm/tsm-selection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index bf54cbd..1cba44e 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -244,6 +244,11 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 		return;
 	}
 
+	/* start is in scroll back buffer and end on screen */
+	if ((*start)->line) {
+		return;
+	}
+
 	/* reorder one-line selection if selection was created right to left */
 	if ((*start)->y == (*end)->y) {
 		if ((*start)->x > (*end)->x) {
-- 
2.43.0


From c6daa7295ff769407e69c64c813225d0fd1f3938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 28/48] fix: erase nothing if the number of characters to erase
 overflows

tsm_screen_erase_chars() added the number to the column without a limit, so
that huge numbers wrapped around and erased the wrong cells or none.
---
 src/tsm/tsm-screen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 1458376..ee000b8 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1605,6 +1605,9 @@ void tsm_screen_erase_chars(struct tsm_screen *con, unsigned int num)
 	else
 		x = con->cursor_x;
 
+	if (num > con->size_x - x)
+		num = con->size_x - x;
+
 	screen_erase_region(con, x, con->cursor_y, x + num - 1, con->cursor_y,
 			     false);
 }
-- 
2.43.0


From 2bd35faf76ab7b1320e324f3f26c3faa2e000e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 29/48] fix: keypad keys for multiplication and division were
 swapped

In application keypad mode * is SS3 j and / is SS3 o.
---
 src/tsm/tsm-vte.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 04a2c04..585a305 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2996,13 +2996,13 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 		case XKB_KEY_KP_Equal:
 		case XKB_KEY_KP_Divide:
 			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
-				vte_write(vte, "\eOj", 3);
+				vte_write(vte, "\eOo", 3);
 			else
 				vte_write(vte, "/", 1);
 			return true;
 		case XKB_KEY_KP_Multiply:
 			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
-				vte_write(vte, "\eOo", 3);
+				vte_write(vte, "\eOj", 3);
 			else
 				vte_write(vte, "*", 1);
 			return true;
-- 
2.43.0


From 3fa270e6ed63d413b36ff7fa31bf78e8f8b71d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 30/48] fix: the keypad key = sent what the key / sends

---
 src/tsm/tsm-vte.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 585a305..935671d 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2994,6 +2994,11 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 				vte_write(vte, ".", 1);
 			return true;
 		case XKB_KEY_KP_Equal:
+			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
+				vte_write(vte, "\eOX", 3);
+			else
+				vte_write(vte, "=", 1);
+			return true;
 		case XKB_KEY_KP_Divide:
 			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
 				vte_write(vte, "\eOo", 3);
-- 
2.43.0


From 15b0157541e2a7ac7de7a215d990405325041d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 31/48] fix: tell the terminal when a reset of the mouse
 protocol stops tracking

The mouse callback was called with the old event type, although no events are
sent from then on. Resetting X10 mode also left an event type behind, so that
selecting another protocol later started to send events.
---
 src/tsm/tsm-vte.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 935671d..5ceadc2 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1632,7 +1632,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			continue;
 		case TSM_VTE_MOUSE_MODE_X10:
 			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
-			vte->mouse_event = TSM_VTE_MOUSE_EVENT_BTN;
+			vte->mouse_event = set ? TSM_VTE_MOUSE_EVENT_BTN : 0;
 
 			if (vte->mouse_cb) {
 			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
@@ -1743,7 +1743,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			}
 
 			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
+			    vte->mouse_cb(vte, set ? vte->mouse_event : TSM_MOUSE_TRACK_DISABLE,
+					  false, vte->mouse_data);
 			    continue;
 			}
 			continue;
@@ -1755,7 +1756,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			}
 
 			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, set, vte->mouse_data);
+			    vte->mouse_cb(vte, set ? vte->mouse_event : TSM_MOUSE_TRACK_DISABLE,
+					  set, vte->mouse_data);
 			    continue;
 			}
 			continue;
-- 
2.43.0


From 6a323b4844b0344f99fce01a012d78941141e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 32/48] fix: tell the terminal that a reset stops mouse
 tracking

---
 src/tsm/tsm-vte.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 5ceadc2..f1a3c89 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -808,9 +808,13 @@ static void restore_state(struct tsm_vte *vte)
 SHL_EXPORT
 void tsm_vte_reset(struct tsm_vte *vte)
 {
+	bool tracking;
+
 	if (!vte)
 		return;
 
+	tracking = vte->mouse_mode && vte->mouse_event;
+
 	vte->flags = 0;
 	vte->flags |= TSM_VTE_FLAG_TEXT_CURSOR_MODE;
 	vte->flags |= TSM_VTE_FLAG_AUTO_REPEAT_MODE;
@@ -841,6 +845,10 @@ void tsm_vte_reset(struct tsm_vte *vte)
 	tsm_screen_set_def_attr(vte->con, &vte->def_attr);
 
 	reset_state(vte);
+
+	if (tracking && vte->mouse_cb)
+		vte->mouse_cb(vte, TSM_MOUSE_TRACK_DISABLE, false,
+			      vte->mouse_data);
 }
 
 SHL_EXPORT
-- 
2.43.0


From b056c1e7d56a74892926b4db78a8532b32dc728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 33/48] fix: reject UTF-8 encoded surrogates and numbers above
 U+10FFFF

---
 src/tsm/tsm-unicode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index 5a3737b..4c4ae44 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -551,7 +551,9 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 		break;
 	case TSM_UTF8_EXPECT1:
 		mach->ch |= c & 0x3F;
-		if ((c & 0xC0) == 0x80)
+		/* surrogates and numbers above 0x10ffff are no characters */
+		if ((c & 0xC0) == 0x80 && mach->ch <= 0x10ffff &&
+		    !(mach->ch >= 0xd800 && mach->ch <= 0xdfff))
 			mach->state = TSM_UTF8_ACCEPT;
 		else
 			mach->state = TSM_UTF8_REJECT;
-- 
2.43.0


From 219d797684ce8aab388d733d23a110b51bb4a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 34/48] fix: hash table entries without a bit of their own
 looked empty

If all bits of an element's address are common to the elements in the table,
its entry consists of bits of the hash only.  These can be 0 or 1, which mean
empty and deleted, so the element is lost.
---
 src/shared/shl-htable.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/shared/shl-htable.c b/src/shared/shl-htable.c
index 74e3d09..12f488c 100644
--- a/src/shared/shl-htable.c
+++ b/src/shared/shl-htable.c
@@ -288,6 +288,29 @@ static COLD void update_common(struct htable *ht, const void *p)
 	ht->perfect_bit &= ~maskdiff;
 }
 
+/* Every entry needs a bit of its own in the bucket, so it's neither zero nor
+ * HTABLE_DELETED (1).  If all of them are common, reveal one. */
+static void reveal_bit(struct htable *ht, const void *p)
+{
+	uintptr_t bit;
+	unsigned int i;
+
+	if ((uintptr_t)p & ~ht->common_mask & ~HTABLE_DELETED)
+		return;
+
+	bit = (uintptr_t)p & ~HTABLE_DELETED;
+	bit &= ~(bit - 1);
+
+	for (i = 0; i < (size_t)1 << ht->bits; i++) {
+		if (entry_is_valid(ht->table[i]))
+			ht->table[i] |= bit;
+	}
+
+	ht->common_mask &= ~bit;
+	ht->common_bits &= ~bit;
+	ht->perfect_bit &= ~bit;
+}
+
 static bool htable_add(struct htable *ht, size_t hash, const void *p)
 {
 	if (ht->elems+1 > ht->max && !double_table(ht))
@@ -297,6 +320,7 @@ static bool htable_add(struct htable *ht, size_t hash, const void *p)
 	assert(p);
 	if (((uintptr_t)p & ht->common_mask) != ht->common_bits)
 		update_common(ht, p);
+	reveal_bit(ht, p);
 
 	ht_add(ht, p, hash);
 	ht->elems++;
-- 
2.43.0


From 976794579d8f42ed98c0fa0c0201fbd4cc1db4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 35/48] fix: undefined shift when a ring cannot grow to the
 size asked for

SHL_ALIGN_POWER2() promises 0 on overflow, but shifted by 64 instead, which
gave a buffer of one byte on x86.
---
 src/shared/shl-macro.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-macro.h b/src/shared/shl-macro.h
index 67607bd..55215da 100644
--- a/src/shared/shl-macro.h
+++ b/src/shared/shl-macro.h
@@ -141,7 +141,13 @@ static inline void shl_set_errno(int *r)
 /* align to next higher power-of-2 (except for: 0 => 0, overflow => 0) */
 static inline size_t SHL_ALIGN_POWER2(size_t u)
 {
-	return 1ULL << ((sizeof(u) * 8ULL) - __builtin_clzll(u - 1ULL));
+	int zeros;
+
+	if (u <= 1)
+		return u;
+
+	zeros = __builtin_clzll(u - 1ULL);
+	return zeros ? 1ULL << (64 - zeros) : 0;
 }
 
 /* zero memory or type */
-- 
2.43.0


From 83f4c3ad7c11c8b0e268a27cd8f1c9db34ef764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 36/48] fix: cursor position overflows in origin mode

With a margin, tsm_screen_move_to() added the offset of the top margin to
positions close to UINT_MAX, so the cursor went to the top margin instead of
the bottom one.
---
 src/tsm/tsm-screen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index ee000b8..fc6f01d 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1241,6 +1241,10 @@ void tsm_screen_move_to(struct tsm_screen *con, unsigned int x,
 	if (x >= con->size_x)
 		x = con->size_x - 1;
 
+	/* the position must not overflow when it is made absolute */
+	if (y > last)
+		y = last;
+
 	y = to_abs_y(con, y);
 	if (y > last)
 		y = last;
-- 
2.43.0


From a66a8acda2c67b364b7086f87142c0b6aec59194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 37/48] fix: number of scrollback pages overflows

tsm_screen_sb_page_up() and _down() multiplied any number of pages with the
height of the screen, so that huge numbers moved by the wrong number of lines
or not at all.
---
 src/tsm/tsm-screen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index fc6f01d..2b8c862 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -58,6 +58,7 @@
 
 #include <errno.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -948,6 +949,8 @@ void tsm_screen_sb_page_up(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_up(con, num * con->size_y);
 }
 
@@ -958,6 +961,8 @@ void tsm_screen_sb_page_down(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_down(con, num * con->size_y);
 }
 
-- 
2.43.0


From e3c743177c5c38b00e7e3725f6eae62c0bee3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 38/48] fix: copying an empty selection hides a failed
 allocation

If nothing is left of the selection and there is no memory for the empty
string, tsm_screen_selection_copy() returned success without a string.
---
 src/tsm/tsm-selection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 1cba44e..6ce1e75 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -475,7 +475,7 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	if (start->y == SELECTION_TOP && start->line == NULL &&
 		end->y == SELECTION_TOP && end->line == NULL) {
 		*out = strdup("");
-		return 0;
+		return *out ? 0 : -ENOMEM;
 	}
 
 	norm_selection(con, &start, &end);
-- 
2.43.0


From 04b6672e7e591a3edd19da1af7e31a086ce097eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 39/48] fix: selection positions outside of the screen are not
 cut off

tsm_screen_selection_start() and tsm_screen_selection_target() store any
position, and tsm_screen_selection_copy() then reads past the end of the
lines, or walks lines that do not exist. Use the nearest cell.
---
 src/tsm/tsm-selection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 6ce1e75..370d2c3 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -66,6 +66,12 @@ static void selection_set(struct tsm_screen *con, struct selection_pos *sel,
 {
 	struct line *pos;
 
+	/* use the nearest cell for positions outside of the screen */
+	if (x >= con->size_x)
+		x = con->size_x - 1;
+	if (y >= con->size_y)
+		y = con->size_y - 1;
+
 	sel->line = NULL;
 	pos = con->sb_pos;
 
-- 
2.43.0


From dd235b459434510f92d725341fabef28d2384ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 40/48] fix: array: new entries are not zeroed if they fit

shl_array_zresize() cleared the new entries only if the array had to be
reallocated; otherwise they held whatever was there before.
---
 src/shared/shl-array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-array.h b/src/shared/shl-array.h
index f776807..1928419 100644
--- a/src/shared/shl-array.h
+++ b/src/shared/shl-array.h
@@ -115,10 +115,11 @@ static inline int shl_array_zresize(struct shl_array *arr, size_t size)
 
 		arr->data = tmp;
 		arr->size = newsize;
+	}
 
+	if (size > arr->length)
 		memset(((uint8_t*)arr->data) + arr->element_size * arr->length,
 		       0, arr->element_size * (size - arr->length));
-	}
 
 	arr->length = size;
 	return 0;
-- 
2.43.0


From 8c6d93f035cc8be14a555ed87526164cc3d3b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 41/48] fix: array: sizes overflow

The number of bytes was computed without checking for overflows: an array
that is too large got a small buffer, and with sizes of more than half of
the range shl_array_zresize() passed 0 to realloc(), which freed the data.
---
 src/shared/shl-array.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/shared/shl-array.h b/src/shared/shl-array.h
index 1928419..5003f3f 100644
--- a/src/shared/shl-array.h
+++ b/src/shared/shl-array.h
@@ -54,6 +54,8 @@ static inline int shl_array_new(struct shl_array **out, size_t element_size,
 
 	if (!initial_size)
 		initial_size = 4;
+	if (initial_size > SIZE_MAX / element_size)
+		return -ENOMEM;
 
 	arr = malloc(sizeof(*arr));
 	if (!arr)
@@ -109,6 +111,9 @@ static inline int shl_array_zresize(struct shl_array *arr, size_t size)
 
 	if (size > arr->size) {
 		newsize = shl_array_pow2(size);
+		if (!newsize || newsize > SIZE_MAX / arr->element_size)
+			return -ENOMEM;
+
 		tmp = realloc(arr->data, arr->element_size * newsize);
 		if (!tmp)
 			return -ENOMEM;
@@ -135,6 +140,10 @@ static inline int shl_array_push(struct shl_array *arr, const void *data)
 
 	if (arr->length >= arr->size) {
 		newsize = arr->size * 2;
+		if (newsize < arr->size ||
+		    newsize > SIZE_MAX / arr->element_size)
+			return -ENOMEM;
+
 		tmp = realloc(arr->data, arr->element_size * newsize);
 		if (!tmp)
 			return -ENOMEM;
-- 
2.43.0


From 0359161dcad569604a3434471c075dcd8f76e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 42/48] fix: pty: a child that fails to set up flushes the
 parent's buffers

exit() in the forked child writes out what the application has buffered in
its streams, and runs its atexit() handlers, a second time.
---
 src/shared/shl-pty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 40afaa6..5d208eb 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -226,7 +226,7 @@ pid_t shl_pty_open(struct shl_pty **out,
 		/* child */
 		slave = pty_init_child(fd);
 		if (slave < 0)
-			exit(1);
+			_exit(1);
 
 		close(comm[0]);
 		close(fd);
@@ -236,7 +236,7 @@ pid_t shl_pty_open(struct shl_pty **out,
 
 		r = pty_setup_child(slave, term_width, term_height);
 		if (r < 0)
-			exit(1);
+			_exit(1);
 
 		/* close slave if it's not one of the std-fds */
 		if (slave > 2)
-- 
2.43.0


From 8305aa104d4f106a6482a865ccc11aa3356654ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 43/48] fix: pty: not all signals are reset in the child

SIGSYS and the realtime signals stayed ignored if the application ignores
them.
---
 src/shared/shl-pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 5d208eb..7aa68d0 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -146,7 +146,7 @@ static int pty_init_child(int fd)
 	if (r < 0)
 		return -errno;
 
-	for (i = 1; i < SIGSYS; ++i)
+	for (i = 1; i < _NSIG; ++i)
 		signal(i, SIG_DFL);
 
 	r = grantpt(fd);
-- 
2.43.0


From c04571de3e89a6bd585a9c27178ea8e83883bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 44/48] fix: pty: opening fails if stdin, stdout and stderr are
 closed

The pipe to the parent then is one of these, and it was replaced by the
terminal before the child used it.
---
 src/shared/shl-pty.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 7aa68d0..0d13306 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -234,6 +234,15 @@ pid_t shl_pty_open(struct shl_pty **out,
 		free(pty);
 		pty = NULL;
 
+		/* keep the pipe off the std-fds, they are replaced below */
+		if (comm[1] <= STDERR_FILENO) {
+			r = fcntl(comm[1], F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+			if (r < 0)
+				_exit(1);
+			close(comm[1]);
+			comm[1] = r;
+		}
+
 		r = pty_setup_child(slave, term_width, term_height);
 		if (r < 0)
 			_exit(1);
-- 
2.43.0


From 6ecb86bdc5457160553531169c05e50d672a94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 45/48] fix: accept calls without a terminal in backspace and
 mouse functions

tsm_vte_set_backspace_sends_delete() and tsm_vte_handle_mouse() were the only
functions of the terminal that read through a NULL terminal.
---
 src/tsm/tsm-vte.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index f1a3c89..9a1b0cc 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2626,6 +2626,9 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 SHL_EXPORT
 void tsm_vte_set_backspace_sends_delete(struct tsm_vte *vte, bool enable)
 {
+	if (!vte)
+		return;
+
 	vte->backspace_sends_delete = enable;
 }
 
@@ -3220,6 +3223,9 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
+	if (!vte)
+		return false;
+
 	/* drop move event if we don't wait for move events */
 	if ((vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10 || vte->mouse_event != TSM_VTE_MOUSE_EVENT_ANY) && (event & TSM_MOUSE_EVENT_MOVED)) {
 		return false;
-- 
2.43.0


From 8818fac402570a7d581758b96909ce7449fa1279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:48 +0000
Subject: [PATCH 46/48] fix: do not overflow the stack when inserting or
 deleting many lines

tsm_screen_insert_lines() and tsm_screen_delete_lines() kept one pointer for
each line on the stack, so a very tall screen (or a small stack) crashed.  Do
it in parts as screen_scroll_up() does.
---
 src/tsm/tsm-screen.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 2b8c862..c5d1f5d 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1455,6 +1455,11 @@ void tsm_screen_insert_lines(struct tsm_screen *con, unsigned int num)
 	if (num > max)
 		num = max;
 
+	/* see screen_scroll_up() for an explanation */
+	if (num > 128) {
+		tsm_screen_insert_lines(con, 128);
+		return tsm_screen_insert_lines(con, num - 128);
+	}
 	struct line *cache[num];
 
 	for (i = 0; i < num; ++i) {
@@ -1495,6 +1500,11 @@ void tsm_screen_delete_lines(struct tsm_screen *con, unsigned int num)
 	if (num > max)
 		num = max;
 
+	/* see screen_scroll_up() for an explanation */
+	if (num > 128) {
+		tsm_screen_delete_lines(con, 128);
+		return tsm_screen_delete_lines(con, num - 128);
+	}
 	struct line *cache[num];
 
 	for (i = 0; i < num; ++i) {
-- 
2.43.0


From 95c8c6473d081275255f12a87dbdf965f6b746a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 47/48] fix: selection copy overflowed its buffer on very wide
 screens

The size was calculated in 32 bit as lines times the width of the screen.
Add up the lengths of the selected lines instead.
---
 src/tsm/tsm-selection.c | 68 ++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 370d2c3..6f43cd5 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -52,6 +52,7 @@
 
 #include <errno.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -271,32 +272,37 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 }
 
 /*
- * Counts the lines a normalized selection selects on the scroll back buffer
+ * Calculate the maximum needed space for a line
+ */
+static size_t calc_line_copy_buffer(struct line *line)
+{
+	// 4 is the max size of a Unicode character, plus one line break per line
+	return (size_t)line->size * 4 + 1;
+}
+
+/*
+ * Calculate the maximum needed space for the lines a normalized selection
+ * selects on the scroll back buffer
  *
- * Does not count the lines selected on the screen
+ * Does not include the lines selected on the screen
  */
-static int selection_count_lines_sb(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end)
+static size_t calc_copy_buffer_sb(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end)
 {
 	struct line *iter;
-	int count = 0;
-
-	/* Single line selection */
-	if (start->line && (start->line == end->line)) {
-		return 1;
-	}
+	size_t size = 0;
 
 	iter = start->line;
 	while (iter) {
-		count++;
+		size += calc_line_copy_buffer(iter);
 
-		if (iter == con->sb_last) {
+		if (iter == con->sb_last || iter == end->line) {
 			break;
 		}
 
 		iter = iter->next;
 	}
 
-	return count;
+	return size;
 }
 
 /*
@@ -314,13 +320,15 @@ static void selection_screen_lines(struct tsm_screen *con, struct selection_pos
 }
 
 /*
- * Counts the lines a normalized selection selects on the screen
+ * Calculate the maximum needed space for the lines a normalized selection
+ * selects on the screen
  *
- * Does not count the lines selected in the scroll back buffer
+ * Does not include the lines selected in the scroll back buffer
  */
-static int selection_count_lines(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end)
+static size_t calc_copy_buffer(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end)
 {
-	int first, last;
+	size_t size = 0;
+	int first, last, i;
 
 	/* Selection only spans lines of the scroll back buffer */
 	if (start->line && end->line) {
@@ -329,7 +337,11 @@ static int selection_count_lines(struct tsm_screen *con, struct selection_pos *s
 
 	selection_screen_lines(con, start, end, &first, &last);
 
-	return last < first ? 0 : last - first + 1;
+	for (i = first; i <= last; i++) {
+		size += calc_line_copy_buffer(con->lines[i]);
+	}
+
+	return size;
 }
 
 /*
@@ -382,15 +394,6 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
 	return con->size_x;
 }
 
-/*
- * Calculate the maximum needed space for the number of lines given
- */
-static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
-{
-	// 4 is the max size of a Unicode character, plus one line break per line
-	return (con->size_x * 4 + 1) * num_lines + 1;
-}
-
 /*
  * Copy all selected lines from the scroll back buffer
  */
@@ -456,9 +459,8 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 {
 	struct selection_pos *start, *end;
 	struct selection_pos start_copy, end_copy;
-	int buf_size = 0;
+	size_t buf_size;
 	int pos = 0;
-	int total_lines;
 
 	if (!con || !out) {
 		return -EINVAL;
@@ -496,9 +498,13 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 		}
 	}
 
-	total_lines =  selection_count_lines_sb(con, start, end);
-	total_lines += selection_count_lines(con, start, end);
-	buf_size = calc_line_copy_buffer(con, total_lines);
+	buf_size =  calc_copy_buffer_sb(con, start, end);
+	buf_size += calc_copy_buffer(con, start, end);
+	buf_size += 1;
+	/* the length is returned as int */
+	if (buf_size > INT_MAX) {
+		return -ENOMEM;
+	}
 
 	*out = calloc(buf_size, 1);
 	if (!*out) {
-- 
2.43.0


From 521a2ad871239ede90899d77b587434dcbb097ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 48/48] fix: mouse reports with large coordinates were
 truncated

The report has up to 30 characters but the buffer was 24 bytes long. Positions
are unsigned, too.
---
 src/tsm/tsm-vte.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 9a1b0cc..511022a 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3219,7 +3219,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
 {
-	char buffer[24];
+	char buffer[64];
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
@@ -3284,7 +3284,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			vte->mouse_last_row = cell_y;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
@@ -3294,7 +3294,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			pressed = true;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
-- 
2.43.0

