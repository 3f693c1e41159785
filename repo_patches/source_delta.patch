From 1c6bc8fb113620223a8c4f8e51b39ab61b27c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 01/30] fix: ColorFilter no longer reads past a trailing escape

---
 runes.go       | 2 +-
 runes/runes.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runes.go b/runes.go
index a669bc4..a6fb97c 100644
--- a/runes.go
+++ b/runes.go
@@ -116,7 +116,7 @@ func (Runes) Index(r rune, rs []rune) int {
 func (Runes) ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := runes.Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
diff --git a/runes/runes.go b/runes/runes.go
index b069440..925b09c 100644
--- a/runes/runes.go
+++ b/runes/runes.go
@@ -69,7 +69,7 @@ func Index(r rune, rs []rune) int {
 func ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
-- 
2.43.0


From 06e8d07139367fbe052487ab999f90cb9320aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 02/30] fix: MoveToEndWord no longer reads past the last rune

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index d95df1e..6349853 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -311,7 +311,7 @@ func (r *RuneBuffer) MoveToEndWord() {
 			return
 		}
 		// if we are at the end of a word already, go to next
-		if !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
+		if r.idx+1 < len(r.buf) && !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
 			r.idx++
 		}
 
-- 
2.43.0


From 421eb9b3f594a188bf189a4535d75d608787ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 03/30] fix: Replace does nothing when there is no rune under
 the cursor

---
 runebuf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runebuf.go b/runebuf.go
index 6349853..347f965 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -187,6 +187,9 @@ func (r *RuneBuffer) IsCursorInEnd() bool {
 
 func (r *RuneBuffer) Replace(ch rune) {
 	r.Refresh(func() {
+		if r.idx == len(r.buf) {
+			return
+		}
 		r.buf[r.idx] = ch
 	})
 }
-- 
2.43.0


From 7953ff8f0ecc8e429277fa3fb9f3d2ef8c25ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 04/30] fix: Transpose keeps the cursor inside a one-rune line

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 347f965..2a6562a 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -277,7 +277,7 @@ func (r *RuneBuffer) Kill() {
 func (r *RuneBuffer) Transpose() {
 	r.Refresh(func() {
 		if len(r.buf) == 1 {
-			r.idx++
+			r.idx = 1
 		}
 
 		if len(r.buf) < 2 {
-- 
2.43.0


From 2870adcee903ea6fbb6c0c2531f199bb9f99163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 05/30] fix: backward word kill at the first word keeps the
 text after the cursor and saves the kill

---
 runebuf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 2a6562a..6aa088f 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -343,7 +343,8 @@ func (r *RuneBuffer) BackEscapeWord() {
 			}
 		}
 
-		r.buf = r.buf[:0]
+		r.pushKill(r.buf[:r.idx])
+		r.buf = append(r.buf[:0], r.buf[r.idx:]...)
 		r.idx = 0
 	})
 }
-- 
2.43.0


From 4ebfcf6c20fde555b85df5ab0d75a8fd44bd20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 06/30] fix: kills that remove nothing keep the previously
 killed text

---
 runebuf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runebuf.go b/runebuf.go
index 6aa088f..a6bdcda 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -197,6 +197,9 @@ func (r *RuneBuffer) Replace(ch rune) {
 func (r *RuneBuffer) Erase() {
 	r.Refresh(func() {
 		r.idx = 0
+		if len(r.buf) == 0 {
+			return
+		}
 		r.pushKill(r.buf[:])
 		r.buf = r.buf[:0]
 	})
@@ -269,6 +272,9 @@ func (r *RuneBuffer) KillFront() {
 
 func (r *RuneBuffer) Kill() {
 	r.Refresh(func() {
+		if r.idx == len(r.buf) {
+			return
+		}
 		r.pushKill(r.buf[r.idx:])
 		r.buf = r.buf[:r.idx]
 	})
-- 
2.43.0


From af9052bb0658b990577efbd2c8b5dd133493b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 07/30] fix: Backup and Restore copy the line instead of
 sharing it

---
 runebuf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index a6bdcda..9d9929e 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -47,7 +47,7 @@ func (r *RuneBuffer) OnWidthChange(newWidth int) {
 
 func (r *RuneBuffer) Backup() {
 	r.Lock()
-	r.bck = &runeBufferBck{r.buf, r.idx}
+	r.bck = &runeBufferBck{runes.Copy(r.buf), r.idx}
 	r.Unlock()
 }
 
@@ -56,7 +56,7 @@ func (r *RuneBuffer) Restore() {
 		if r.bck == nil {
 			return
 		}
-		r.buf = r.bck.buf
+		r.buf = runes.Copy(r.bck.buf)
 		r.idx = r.bck.idx
 	})
 }
-- 
2.43.0


From 4d69e6a6fe20c5392854e4d1159658dfbf385a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 08/30] fix: setting the line copies the slice it is given

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 9d9929e..08485bd 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -583,7 +583,7 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
 	r.Refresh(func() {
-		r.buf = buf
+		r.buf = runes.Copy(buf)
 		r.idx = idx
 	})
 }
-- 
2.43.0


From 314903db8aa513168c3616541337ea9fdd2ada9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 09/30] fix: WriteRunes no longer appends to the slice it is
 given

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 08485bd..848ecfc 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -164,7 +164,7 @@ func (r *RuneBuffer) WriteRune(s rune) {
 
 func (r *RuneBuffer) WriteRunes(s []rune) {
 	r.Refresh(func() {
-		tail := append(s, r.buf[r.idx:]...)
+		tail := append(runes.Copy(s), r.buf[r.idx:]...)
 		r.buf = append(r.buf[:r.idx], tail...)
 		r.idx += len(s)
 	})
-- 
2.43.0


From c784a3b8a1ede38937c38c07a1badc08800b2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 10/30] fix: segment completion no longer appends to the
 candidates of the completer

---
 complete_segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/complete_segment.go b/complete_segment.go
index 5ceadd8..5fe3352 100644
--- a/complete_segment.go
+++ b/complete_segment.go
@@ -76,7 +76,7 @@ func (c *SegmentComplete) Do(line []rune, pos int) (newLine [][]rune, offset int
 	cands := c.DoSegment(segment, idx)
 	newLine, offset = RetSegment(segment, cands, idx)
 	for idx := range newLine {
-		newLine[idx] = append(newLine[idx], ' ')
+		newLine[idx] = append(runes.Copy(newLine[idx]), ' ')
 	}
 	return newLine, offset
 }
-- 
2.43.0


From 1fd46141cd43800f5baef55a9d4c589e54b2352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 11/30] fix: the redraw of a wrapped line terminates for every
 prompt and screen width

---
 runebuf.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 848ecfc..0cea2d6 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -522,18 +522,13 @@ func (r *RuneBuffer) output() []byte {
 func (r *RuneBuffer) getBackspaceSequence() []byte {
 	var sep = map[int]bool{}
 
-	var i int
-	for {
-		if i >= runes.WidthAll(r.buf) {
-			break
-		}
+	// a zero or unknown width has no line boundaries
+	if length := runes.WidthAll(r.buf); length > 0 && r.width > 0 {
+		for i := -r.promptLen(); i < length; {
+			i += r.width
 
-		if i == 0 {
-			i -= r.promptLen()
+			sep[i] = true
 		}
-		i += r.width
-
-		sep[i] = true
 	}
 	var buf []byte
 	for i := len(r.buf); i > r.idx; i-- {
-- 
2.43.0


From 939c360e3e3b9aac28f9c7edae9d7abe7e4547bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 12/30] fix: a masked redraw moves the cursor back only once

---
 runebuf.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 0cea2d6..7fadfbb 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -496,10 +496,6 @@ func (r *RuneBuffer) output() []byte {
 		} else {
 			buf.Write([]byte(string(r.cfg.MaskRune)))
 		}
-		if len(r.buf) > r.idx {
-			buf.Write(r.getBackspaceSequence())
-		}
-
 	} else {
 		for _, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
 			if e == '\t' {
-- 
2.43.0


From b4fd569ea5f126ee3a382b2264cdb3711135703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 13/30] fix: line counting is defined for a zero or unknown
 screen width

---
 runebuf.go | 2 +-
 utils.go   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 7fadfbb..d81a8cf 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -446,7 +446,7 @@ func (r *RuneBuffer) IdxLine(width int) int {
 }
 
 func (r *RuneBuffer) idxLine(width int) int {
-	if width == 0 {
+	if width <= 0 {
 		return 0
 	}
 	sp := r.getSplitByLine(r.buf[:r.idx])
diff --git a/utils.go b/utils.go
index 0706dd4..7a8e05d 100644
--- a/utils.go
+++ b/utils.go
@@ -232,6 +232,10 @@ func SplitByLine(start, screenWidth int, rs []rune) []string {
 
 // calculate how many lines for N character
 func LineCount(screenWidth, w int) int {
+	if screenWidth <= 0 {
+		// zero or unknown width, nothing wraps
+		return 1
+	}
 	r := w / screenWidth
 	if w%screenWidth != 0 {
 		r++
-- 
2.43.0


From f57d906e1e7e4f177647e61f82109b3ba4668f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 14/30] fix: completion menu works on narrow screens, with wide
 prefixes and after it was left

---
 complete.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/complete.go b/complete.go
index c08c994..c0de159 100644
--- a/complete.go
+++ b/complete.go
@@ -186,7 +186,7 @@ func (o *opCompleter) OnWidthChange(newWidth int) {
 }
 
 func (o *opCompleter) CompleteRefresh() {
-	if !o.inCompleteMode {
+	if !o.inCompleteMode || len(o.candidate) == 0 {
 		return
 	}
 	lineCnt := o.op.buf.CursorLineCount()
@@ -197,14 +197,21 @@ func (o *opCompleter) CompleteRefresh() {
 			colWidth = w
 		}
 	}
-	colWidth += o.candidateOff + 1
-	same := o.op.buf.RuneSlice(-o.candidateOff)
+	off := o.candidateOff
+	if off < 0 || off > o.op.buf.Pos() {
+		// the line was changed under the menu
+		off = 0
+	}
+	same := o.op.buf.RuneSlice(-off)
+	colWidth += runes.WidthAll(same) + 1
 
 	// -1 to avoid reach the end of line
 	width := o.width - 1
 	colNum := width / colWidth
-	if colNum != 0 {
+	if colNum > 0 {
 		colWidth += (width - (colWidth * colNum)) / colNum
+	} else {
+		colNum = 1
 	}
 
 	o.candidateColNum = colNum
-- 
2.43.0


From f20dfb76f67c26f045794f8e701114a37f1ccfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 15/30] fix: cancelling a search restores the line it was
 started from

---
 search.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/search.go b/search.go
index 52e8ff0..137dcd5 100644
--- a/search.go
+++ b/search.go
@@ -103,10 +103,11 @@ func (o *opSearch) SearchMode(dir int) bool {
 	alreadyInMode := o.inMode
 	o.inMode = true
 	o.dir = dir
-	o.source = o.history.current
 	if alreadyInMode {
 		o.search(false)
 	} else {
+		o.source = o.history.current
+		o.buf.Backup()
 		o.SearchRefresh(-1)
 	}
 	return true
@@ -115,7 +116,7 @@ func (o *opSearch) SearchMode(dir int) bool {
 func (o *opSearch) ExitSearchMode(revert bool) {
 	if revert {
 		o.history.current = o.source
-		o.buf.Set(o.history.showItem(o.history.current.Value))
+		o.buf.Restore()
 	}
 	o.markStart, o.markEnd = 0, 0
 	o.state = S_STATE_FOUND
-- 
2.43.0


From 13132554d9097a3e6df5ecf4f3e3168db3f6d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 16/30] fix: search prompt survives a lost screen width and a
 line changed under it

---
 search.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/search.go b/search.go
index 137dcd5..ecddd2d 100644
--- a/search.go
+++ b/search.go
@@ -136,9 +136,11 @@ func (o *opSearch) SearchRefresh(x int) {
 	}
 	x = o.buf.CurrentWidth(x)
 	x += o.buf.PromptLen()
-	x = x % o.width
+	if o.width > 0 {
+		x = x % o.width
+	}
 
-	if o.markStart > 0 {
+	if o.markStart > 0 && o.markEnd <= o.buf.Len() {
 		o.buf.SetStyle(o.markStart, o.markEnd, "4")
 	}
 
-- 
2.43.0


From d99e283ccbe9c564ca62df381a88a48043ffafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 17/30] fix: recording a line stores the submitted text

---
 history.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/history.go b/history.go
index 6b17c46..7f7200e 100644
--- a/history.go
+++ b/history.go
@@ -276,12 +276,8 @@ func (o *opHistory) New(current []rune) (err error) {
 	}
 
 	if o.current != o.history.Back() {
-		// move history item to current command
-		currentItem := o.current.Value.(*hisItem)
 		// set current to last item
 		o.current = o.history.Back()
-
-		current = runes.Copy(currentItem.Tmp)
 	}
 
 	// err only can be a IO error, just report
-- 
2.43.0


From 1d7066c7c4fe2804c76886bc49430764ab67897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 18/30] fix: recording an empty line in an empty history adds
 nothing

---
 history.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 7f7200e..514a516 100644
--- a/history.go
+++ b/history.go
@@ -271,8 +271,8 @@ func (o *opHistory) New(current []rune) (err error) {
 		if o.current != nil {
 			o.current.Value.(*hisItem).Clean()
 			o.historyVer++
-			return nil
 		}
+		return nil
 	}
 
 	if o.current != o.history.Back() {
-- 
2.43.0


From 03662d93aef8e17019ef9c149c5c0fbe1c11950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 19/30] fix: the first line recorded after a history reset is
 persisted

---
 history.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/history.go b/history.go
index 514a516..0c0e8eb 100644
--- a/history.go
+++ b/history.go
@@ -299,9 +299,7 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 	defer o.fdLock.Unlock()
 	s = runes.Copy(s)
 	if o.current == nil {
-		o.Push(s)
-		o.Compact()
-		return
+		o.Push(nil)
 	}
 	r := o.current.Value.(*hisItem)
 	r.Version = o.historyVer
-- 
2.43.0


From ee6b8202a2a56aefa19da00b01b3f91bfe99c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 20/30] fix: reopening the history file does not load its lines
 again

---
 history.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/history.go b/history.go
index 0c0e8eb..d2d5a01 100644
--- a/history.go
+++ b/history.go
@@ -71,6 +71,10 @@ func (o *opHistory) historyUpdatePath(path string) {
 		return
 	}
 	o.fd = f
+	if o.history.Len() > 0 {
+		// only reopened, the lines are already loaded
+		return
+	}
 	r := bufio.NewReader(o.fd)
 	total := 0
 	for ; ; total++ {
-- 
2.43.0


From 2c3160d2b75b81339f81a841b5bbe48eaf6853ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 21/30] fix: keep the old history file when the new contents
 could not be written

---
 history.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index d2d5a01..98d9e6e 100644
--- a/history.go
+++ b/history.go
@@ -125,7 +125,10 @@ func (o *opHistory) rewriteLocked() {
 	for elem := o.history.Front(); elem != nil; elem = elem.Next() {
 		buf.WriteString(string(elem.Value.(*hisItem).Source) + "\n")
 	}
-	buf.Flush()
+	if err = buf.Flush(); err != nil {
+		fd.Close()
+		return
+	}
 
 	// replace history file
 	if err = os.Rename(tmpFile, o.cfg.HistoryFile); err != nil {
-- 
2.43.0


From 3ab11bbac2eec608a4fceeb4ea842008dcc5d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 22/30] fix: reject remote messages that are too short

---
 remote.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/remote.go b/remote.go
index 74dbf56..4c87416 100644
--- a/remote.go
+++ b/remote.go
@@ -228,6 +228,9 @@ func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 }
 
 func (r *RemoteSvr) GotIsTerminal(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	if binary.BigEndian.Uint16(data) == 0 {
 		r.isTerminal = false
 	} else {
@@ -236,6 +239,9 @@ func (r *RemoteSvr) GotIsTerminal(data []byte) {
 }
 
 func (r *RemoteSvr) GotReportWidth(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
 	if r.funcWidthChan != nil {
 		r.funcWidthChan()
@@ -262,6 +268,9 @@ func ReadMessage(r io.Reader) (*Message, error) {
 	if err := binary.Read(r, binary.BigEndian, &m.Type); err != nil {
 		return nil, err
 	}
+	if length < 2 {
+		return nil, fmt.Errorf("invalid message length: %d", length)
+	}
 	m.Data = make([]byte, int(length)-2)
 	if _, err := io.ReadFull(r, m.Data); err != nil {
 		return nil, err
-- 
2.43.0


From 606ac4c565d608f0174e9af394c647874ef1141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 23/30] fix: prefilled input that does not fit a read is kept
 for the next one

---
 std.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/std.go b/std.go
index 61d44b7..d4200ef 100644
--- a/std.go
+++ b/std.go
@@ -180,9 +180,12 @@ func (s *FillableStdin) Read(p []byte) (n int, err error) {
 	}
 	if i > 0 {
 		n := copy(p, s.buf)
-		s.buf = s.buf[:0]
-		cerr := s.bufErr
-		s.bufErr = nil
+		s.buf = s.buf[n:]
+		var cerr error
+		if len(s.buf) == 0 {
+			cerr = s.bufErr
+			s.bufErr = nil
+		}
 		s.Unlock()
 		return n, cerr
 	}
-- 
2.43.0


From 91e80aeee7cb1df4cba8966f7465d66db150fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 24/30] fix: ReadPassword restores the terminal state it found

---
 term.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/term.go b/term.go
index ea5db93..062b668 100644
--- a/term.go
+++ b/term.go
@@ -85,11 +85,11 @@ func ReadPassword(fd int) ([]byte, error) {
 		return nil, err
 	}
 
-	newState := oldState
+	newState := *oldState
 	newState.Lflag &^= syscall.ECHO
 	newState.Lflag |= syscall.ICANON | syscall.ISIG
 	newState.Iflag |= syscall.ICRNL
-	if err := setTermios(fd, newState); err != nil {
+	if err := setTermios(fd, &newState); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From ae2537ee287abe022bbf121efbef70f6b9184c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 25/30] fix: a configuration installed later also gets the
 default painter

---
 readline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/readline.go b/readline.go
index 63b9171..e3a71d7 100644
--- a/readline.go
+++ b/readline.go
@@ -127,6 +127,9 @@ func (c *Config) Init() error {
 	if c.AutoComplete == nil {
 		c.AutoComplete = &TabCompleter{}
 	}
+	if c.Painter == nil {
+		c.Painter = &defaultPainter{}
+	}
 	if c.FuncGetWidth == nil {
 		c.FuncGetWidth = GetScreenWidth
 	}
-- 
2.43.0


From e6d762a2636ba5232b8e50a3f7476261ad1154ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 26/30] fix: swapping the configuration leaves the mask rune of
 the old one alone

---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index b60939a..ef15649 100644
--- a/operation.go
+++ b/operation.go
@@ -467,8 +467,8 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	old := op.cfg
 	op.cfg = cfg
 	op.SetPrompt(cfg.Prompt)
-	op.SetMaskRune(cfg.MaskRune)
 	op.buf.SetConfig(cfg)
+	op.SetMaskRune(cfg.MaskRune)
 	width := op.cfg.FuncGetWidth()
 
 	if cfg.opHistory == nil {
-- 
2.43.0


From eb916c6c5fe308b1fbee6bd44815d45df5ea0d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 27/30] fix: color codes 38, 39, 48 and 49 do not index past
 the color tables

---
 ansi_windows.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi_windows.go b/ansi_windows.go
index 63b908c..bf1dd0c 100644
--- a/ansi_windows.go
+++ b/ansi_windows.go
@@ -156,10 +156,10 @@ func (a *ANSIWriterCtx) ioloopEscSeq(w *bufio.Writer, r rune, argptr *[]string)
 				w.WriteString("[" + strings.Join(arg, ";") + "m")
 				break
 			}
-			if c >= 30 && c < 40 {
+			if c >= 30 && c < 38 {
 				color ^= COLOR_FINTENSITY
 				color |= ColorTableFg[c-30]
-			} else if c >= 40 && c < 50 {
+			} else if c >= 40 && c < 48 {
 				color ^= COLOR_BINTENSITY
 				color |= ColorTableBg[c-40]
 			} else if c == 4 {
-- 
2.43.0


From 7a5fbd49a0b0170d418684668ff0d33c47c3e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:25 +0000
Subject: [PATCH 28/30] fix: the unsupported transpose-words key is not
 inserted as text

---
 operation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operation.go b/operation.go
index ef15649..07dc2d0 100644
--- a/operation.go
+++ b/operation.go
@@ -205,6 +205,9 @@ func (o *Operation) ioloop() {
 			o.buf.MoveToNextWord()
 		case CharTranspose:
 			o.buf.Transpose()
+		case MetaTranspose:
+			// not supported
+			o.t.Bell()
 		case MetaBackward:
 			o.buf.MoveToPrevWord()
 		case MetaDelete:
-- 
2.43.0


From 8ae859b7c5f47be78e2f17e10abab7fddf810eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:00 +0000
Subject: [PATCH 29/30] fix: SetHistoryPath opens the new history and searches
 it

---
 operation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operation.go b/operation.go
index 07dc2d0..a162146 100644
--- a/operation.go
+++ b/operation.go
@@ -452,6 +452,9 @@ func (o *Operation) SetHistoryPath(path string) {
 	}
 	o.cfg.HistoryFile = path
 	o.history = newOpHistory(o.cfg)
+	o.history.Init()
+	o.opSearch = newOpSearch(o.buf.w, o.buf, o.history, o.cfg, o.cfg.FuncGetWidth())
+	o.cfg.opHistory, o.cfg.opSearch = o.history, o.opSearch
 }
 
 func (o *Operation) IsNormalMode() bool {
-- 
2.43.0


From 83d369dd2e70902e805acfcde7b3e51513e532a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:08 +0000
Subject: [PATCH 30/30] fix: an escape that no bracket follows does not swallow
 a later one

---
 ansi_windows.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ansi_windows.go b/ansi_windows.go
index bf1dd0c..551944f 100644
--- a/ansi_windows.go
+++ b/ansi_windows.go
@@ -112,6 +112,7 @@ func (a *ANSIWriterCtx) process(r rune) bool {
 		}
 		fallthrough
 	default:
+		a.isEsc = false
 		a.target.WriteRune(r)
 		a.wantFlush = true
 	}
-- 
2.43.0

