From a8ee1c358b8717cd44a91ce50986f863a5023d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 01/28] fix: pass each -e expression to the parser verbatim

--expression was a comma-separated (CSV) flag, so quotes and commas in an
expression were rejected or split: texted edit -e 'upcase "hello"' failed.
---
 commands/edit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index caac571..fb5153b 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -160,7 +160,7 @@ Script formats:
 	// Script Input Options
 	cmd.Flags().StringP("script", "s", "", "The texted script to execute")
 	cmd.Flags().StringVarP(&scriptFile, "file", "f", "", "Read script from file")
-	cmd.Flags().StringSliceP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
+	cmd.Flags().StringArrayP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
 
 	// Input/Output Options
 	cmd.Flags().BoolVarP(&inPlace, "in-place", "i", false, "Edit files in place (modify original files)")
@@ -210,7 +210,7 @@ func runEdit(args *runEditArgs) error {
 	}
 
 	// Handle expressions
-	expressions, err := args.cmd.Flags().GetStringSlice("expression")
+	expressions, err := args.cmd.Flags().GetStringArray("expression")
 	if err != nil {
 		return fmt.Errorf("getting expression flag: %w", err)
 	}
-- 
2.43.0


From 9d059449a53b2d24e4c8920aa0d6ff9ccfdda2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 02/28] fix: keep point and mark inside the buffer

backward-char with a negative count, set-mark-command with an out-of-range
position and a mark left behind by a deletion put point or mark outside the
buffer, and beginning-of-line in an empty buffer set point to 0; the next
command that indexed the buffer then panicked.
---
 edlisp/eval.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/edlisp/eval.go b/edlisp/eval.go
index dc592be..f4d49ed 100644
--- a/edlisp/eval.go
+++ b/edlisp/eval.go
@@ -55,17 +55,23 @@ func (b *Buffer) Point() int {
 
 // Mark returns the current mark position.
 func (b *Buffer) Mark() int {
-	return b.mark
+	// The buffer may have shrunk since the mark was set.
+	return b.clampPosition(b.mark)
 }
 
-// SetPoint sets the cursor position.
+// SetPoint sets the cursor position, clamped to the buffer bounds.
 func (b *Buffer) SetPoint(pos int) {
-	b.point = pos
+	b.point = b.clampPosition(pos)
 }
 
-// SetMark sets the mark position.
+// SetMark sets the mark position, clamped to the buffer bounds.
 func (b *Buffer) SetMark(pos int) {
-	b.mark = pos
+	b.mark = b.clampPosition(pos)
+}
+
+// clampPosition limits a position to the range from 1 to the buffer size plus 1.
+func (b *Buffer) clampPosition(pos int) int {
+	return max(1, min(pos, b.content.Len()+1))
 }
 
 // Insert inserts text at the current point.
-- 
2.43.0


From 2cdd8e5b832e662877e4694f94ddc67821541d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 03/28] fix: beginning-of-line at the end of the buffer stays
 on its line

After a trailing newline it moved point to the start of the previous line.
---
 edlisp/builtin_beginning_of_line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edlisp/builtin_beginning_of_line.go b/edlisp/builtin_beginning_of_line.go
index 4c7dae4..ab7171b 100644
--- a/edlisp/builtin_beginning_of_line.go
+++ b/edlisp/builtin_beginning_of_line.go
@@ -19,8 +19,8 @@ func BuiltinBeginningOfLine(args []Value, buffer *Buffer) (Value, error) {
 		buffer.SetPoint(1)
 		return NewString(""), nil
 	}
-	if pos >= len(content) {
-		pos = len(content) - 1
+	if pos > len(content) {
+		pos = len(content)
 	}
 
 	// Move backward to find beginning of line
-- 
2.43.0


From 06ddeee60b7ab9830ef6604b8d9968879944589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 04/28] fix: delete-char with a count below one deletes nothing

A negative count duplicated the text before point or panicked.
---
 edlisp/builtin_delete_char.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 49d71af..f3fc714 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -24,15 +24,15 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() // 1-based position
 
-	if pos < 1 || pos > len(content) {
+	if count < 1 || pos < 1 || pos > len(content) {
 		return NewString(""), nil
 	}
 
 	// Convert 1-based position to 0-based index
 	startPos := pos - 1
-	endPos := startPos + count
-	if endPos > len(content) {
-		endPos = len(content)
+	endPos := len(content)
+	if count < endPos-startPos {
+		endPos = startPos + count
 	}
 
 	// Delete characters starting at current position
-- 
2.43.0


From 46088e8c95f25b55de1279c3052bcc68cd64de8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 05/28] fix: limit out-of-range numbers instead of overflowing

Converting a float such as 1e19 to int is implementation-defined: goto-char
1e19 moved point to the beginning of the buffer, and large counts overflowed.
---
 edlisp/builtin_backward_char.go        |  2 +-
 edlisp/builtin_backward_kill_word.go   |  2 +-
 edlisp/builtin_backward_word.go        |  2 +-
 edlisp/builtin_buffer_substring.go     |  4 ++--
 edlisp/builtin_delete_backward_char.go |  2 +-
 edlisp/builtin_delete_char.go          |  2 +-
 edlisp/builtin_delete_line.go          |  2 +-
 edlisp/builtin_forward_char.go         |  2 +-
 edlisp/builtin_forward_word.go         |  2 +-
 edlisp/builtin_goto_char.go            |  2 +-
 edlisp/builtin_goto_line.go            |  2 +-
 edlisp/builtin_kill_line.go            |  2 +-
 edlisp/builtin_kill_word.go            |  2 +-
 edlisp/builtin_mark_line.go            |  2 +-
 edlisp/builtin_set_mark_command.go     |  2 +-
 edlisp/builtin_substring.go            |  4 ++--
 edlisp/number.go                       | 18 ++++++++++++++++--
 17 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/edlisp/builtin_backward_char.go b/edlisp/builtin_backward_char.go
index 6ba738d..534d084 100644
--- a/edlisp/builtin_backward_char.go
+++ b/edlisp/builtin_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	newPos := buffer.Point() - count
diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 405cf84..4128e25 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_backward_word.go b/edlisp/builtin_backward_word.go
index d00997f..836caa3 100644
--- a/edlisp/builtin_backward_word.go
+++ b/edlisp/builtin_backward_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_buffer_substring.go b/edlisp/builtin_buffer_substring.go
index 377eb1a..c97904b 100644
--- a/edlisp/builtin_buffer_substring.go
+++ b/edlisp/builtin_buffer_substring.go
@@ -47,8 +47,8 @@ func BuiltinBufferSubstring(args []Value, buffer *Buffer) (Value, error) {
 		return nil, fmt.Errorf("buffer-substring expects number arguments")
 	}
 
-	start := int(args[0].(*Number).Value)
-	end := int(args[1].(*Number).Value)
+	start := args[0].(*Number).Int()
+	end := args[1].(*Number).Int()
 
 	content := buffer.String()
 
diff --git a/edlisp/builtin_delete_backward_char.go b/edlisp/builtin_delete_backward_char.go
index cbb7946..f8e173f 100644
--- a/edlisp/builtin_delete_backward_char.go
+++ b/edlisp/builtin_delete_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index f3fc714..40321d0 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index ef589d5..c639e97 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -19,7 +19,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_char.go b/edlisp/builtin_forward_char.go
index 4a7af6e..96086b1 100644
--- a/edlisp/builtin_forward_char.go
+++ b/edlisp/builtin_forward_char.go
@@ -18,7 +18,7 @@ func BuiltinForwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_word.go b/edlisp/builtin_forward_word.go
index c0a2f3b..851da0e 100644
--- a/edlisp/builtin_forward_word.go
+++ b/edlisp/builtin_forward_word.go
@@ -20,7 +20,7 @@ func BuiltinForwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_goto_char.go b/edlisp/builtin_goto_char.go
index ff56923..935d934 100644
--- a/edlisp/builtin_goto_char.go
+++ b/edlisp/builtin_goto_char.go
@@ -19,7 +19,7 @@ func BuiltinGotoChar(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	pos := int(num.Value)
+	pos := num.Int()
 
 	content := buffer.String()
 	if pos < 1 {
diff --git a/edlisp/builtin_goto_line.go b/edlisp/builtin_goto_line.go
index 9cee18c..e2183b9 100644
--- a/edlisp/builtin_goto_line.go
+++ b/edlisp/builtin_goto_line.go
@@ -19,7 +19,7 @@ func BuiltinGotoLine(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	lineNum := int(num.Value)
+	lineNum := num.Int()
 
 	content := buffer.String()
 	lines := strings.Split(content, "\n")
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 9de7f0e..242086d 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -19,7 +19,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_kill_word.go b/edlisp/builtin_kill_word.go
index f91fa8b..351b529 100644
--- a/edlisp/builtin_kill_word.go
+++ b/edlisp/builtin_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 55829c2..5b27a17 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -20,7 +20,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("mark-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_set_mark_command.go b/edlisp/builtin_set_mark_command.go
index 74aeb93..92d41dc 100644
--- a/edlisp/builtin_set_mark_command.go
+++ b/edlisp/builtin_set_mark_command.go
@@ -19,7 +19,7 @@ func BuiltinSetMarkCommand(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("set-mark-command expects a number argument")
 		}
-		pos = int(args[0].(*Number).Value)
+		pos = args[0].(*Number).Int()
 	} else {
 		pos = buffer.Point()
 	}
diff --git a/edlisp/builtin_substring.go b/edlisp/builtin_substring.go
index 5181a6a..1b06237 100644
--- a/edlisp/builtin_substring.go
+++ b/edlisp/builtin_substring.go
@@ -50,14 +50,14 @@ func BuiltinSubstring(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	str := args[0].(*String)
-	start := int(args[1].(*Number).Value)
+	start := args[1].(*Number).Int()
 	end := len(str.Value)
 
 	if len(args) == 3 {
 		if !IsA(args[2], TheNumberKind) {
 			return nil, fmt.Errorf("substring expects a number as third argument")
 		}
-		end = int(args[2].(*Number).Value)
+		end = args[2].(*Number).Int()
 	}
 
 	// Convert from 1-based to 0-based indexing
diff --git a/edlisp/number.go b/edlisp/number.go
index 5c441bf..6e218aa 100644
--- a/edlisp/number.go
+++ b/edlisp/number.go
@@ -1,6 +1,9 @@
 package edlisp
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 // NumberKind represents the kind for numeric values.
 type NumberKind struct{}
@@ -41,8 +44,19 @@ func (num *Number) String() string {
 	return fmt.Sprintf("%g", num.Value)
 }
 
-// Int returns the integer representation of the number.
+// Int returns the integer representation of the number. Values beyond any
+// usable position or count, infinities included, are limited to half the int
+// range, so that they can be added to a position without overflow; NaN becomes 0.
 func (num *Number) Int() int {
+	const limit = math.MaxInt / 2
+	switch {
+	case num.Value != num.Value:
+		return 0
+	case num.Value >= limit:
+		return limit
+	case num.Value <= -limit:
+		return -limit
+	}
 	return int(num.Value)
 }
 
-- 
2.43.0


From 620c9efb4bf6c5b4f3959946d588c32b3b888901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 06/28] fix: stop counting lines at the end of the buffer

delete-line, kill-line and mark-line kept looping up to their count after
reaching the end of the buffer, practically forever for a large count.
---
 edlisp/builtin_delete_line.go | 2 +-
 edlisp/builtin_kill_line.go   | 2 +-
 edlisp/builtin_mark_line.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index c639e97..34c3e24 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -33,7 +33,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 242086d..0afcbef 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -43,7 +43,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		// For multi-line kill, kill entire lines starting from cursor
 		startPos = pos
 		lineEnd = startPos
-		for i := 0; i < count; i++ {
+		for i := 0; i < count && lineEnd < len(content); i++ {
 			// Find end of current line
 			for lineEnd < len(content) && content[lineEnd] != '\n' {
 				lineEnd++
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 5b27a17..46a4fba 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -34,7 +34,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
-- 
2.43.0


From b344fc53e46cc2074b41c868bed8caf0df99c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 07/28] fix: delete-line with a count below one deletes nothing

It deleted the text from the beginning of the line to point.
---
 edlisp/builtin_delete_line.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index 34c3e24..73f2478 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -22,6 +22,10 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		count = args[0].(*Number).Int()
 	}
 
+	if count < 1 {
+		return NewString(""), nil
+	}
+
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-- 
2.43.0


From 1d68fdbb31c0dcca2d4e240b5ed1f79a47f6ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 08/28] fix: kill-line deletes only from the line point is on

With point at a newline it deleted the text of the following line, and with
point at a multi-byte character it kept only that character's first byte.
---
 edlisp/builtin_kill_line.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 0afcbef..78b0710 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -2,6 +2,7 @@ package edlisp
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // BuiltinKillLine deletes text from the point to the end of line(s).
@@ -33,7 +34,11 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 
 	if count == 1 {
 		// For single line kill, preserve cursor character and kill from after cursor
-		startPos = pos + 1
+		startPos = pos
+		if content[pos] != '\n' {
+			_, size := utf8.DecodeRuneInString(content[pos:])
+			startPos += size
+		}
 		lineEnd = startPos
 		// Find end of current line
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
-- 
2.43.0


From b724adc366ff40255fe29ca97d5b054077572ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 09/28] fix: backward-kill-word never splits or eats a
 character it should keep

With nothing to delete before point (beginning of the buffer, or a count below
one) it still deleted the character at point, and of a multi-byte character
at point it deleted only the first byte.
---
 edlisp/builtin_backward_kill_word.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 4128e25..baf350e 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -2,6 +2,7 @@ package edlisp
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // BuiltinBackwardKillWord deletes text from the current point backward by the specified number of words.
@@ -39,12 +40,15 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		}
 	}
 
-	// Delete from pos to startPos+1 (to include the character at startPos)
-	// Handle case where startPos is at or beyond end of buffer
-	endIndex := startPos + 1
-	if endIndex > len(content) {
-		endIndex = len(content)
+	// Nothing to delete without a word before point
+	if pos == startPos {
+		return NewString(""), nil
 	}
+
+	// Delete from pos to include the character at startPos, which is empty
+	// when startPos is at the end of the buffer
+	_, size := utf8.DecodeRuneInString(content[startPos:])
+	endIndex := startPos + size
 	newContent := content[:pos] + content[endIndex:]
 	buffer.content.Reset()
 	buffer.content.WriteString(newContent)
-- 
2.43.0


From 96c5d4be2ae0c8f8626fda07a1dfd881adaa0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 10/28] fix: capitalize handles a multi-byte first letter

It upcased the first byte as a character, corrupting the string.
---
 edlisp/builtin_capitalize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_capitalize.go b/edlisp/builtin_capitalize.go
index d11f9c2..d601966 100644
--- a/edlisp/builtin_capitalize.go
+++ b/edlisp/builtin_capitalize.go
@@ -3,6 +3,7 @@ package edlisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 // BuiltinCapitalize capitalizes the first character of a string.
@@ -43,7 +44,8 @@ func BuiltinCapitalize(args []Value, buffer *Buffer) (Value, error) {
 		return NewString(""), nil
 	}
 
-	result := strings.ToUpper(string(str.Value[0])) + strings.ToLower(str.Value[1:])
+	_, size := utf8.DecodeRuneInString(str.Value)
+	result := strings.ToUpper(str.Value[:size]) + strings.ToLower(str.Value[size:])
 	return NewString(result), nil
 }
 
-- 
2.43.0


From 372ecd9bcece40df3afdd30eb898a56c6cafddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 11/28] fix: looking-back finds any match that ends at point

Only the first match in the text before point was considered, so looking-back
said nil whenever the pattern also matched earlier.
---
 edlisp/builtin_looking_back.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_looking_back.go b/edlisp/builtin_looking_back.go
index 85526f4..5155f1d 100644
--- a/edlisp/builtin_looking_back.go
+++ b/edlisp/builtin_looking_back.go
@@ -41,7 +41,16 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 		return NewSymbol("nil"), nil
 	}
 
-	// Use regular expression matching on text before point
+	// Use regular expression matching on text before point: anchor the pattern
+	// so that the match which ends at point is found, not just the first match
+	anchored, err := regexp.Compile("(?:" + pattern.Value + `)\z`)
+	if err != nil {
+		// The pattern ends in an unterminated \Q quotation
+		anchored, err = regexp.Compile("(?:" + pattern.Value + `\E)\z`)
+	}
+	if err == nil {
+		re = anchored
+	}
 	beforeText := content[:pos]
 	match := re.FindStringIndex(beforeText)
 	if match != nil && match[1] == len(beforeText) {
-- 
2.43.0


From 6adb23690414b43c7b454f0ccd11c983cc0caaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 12/28] fix: mark-word marks a word at the end of the buffer
 and the next word

At the end of the buffer it did nothing, so that a following replace-region
replaced everything from the old mark; between words it marked nothing instead
of the word after point.
---
 edlisp/builtin_mark_word.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/edlisp/builtin_mark_word.go b/edlisp/builtin_mark_word.go
index cc68f16..9114ecd 100644
--- a/edlisp/builtin_mark_word.go
+++ b/edlisp/builtin_mark_word.go
@@ -17,10 +17,6 @@ func BuiltinMarkWord(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-	if pos < 0 || pos >= len(content) {
-		return NewString(""), nil
-	}
-
 	// Find the start of the word (move backward to find non-letter)
 	start := pos
 	for start > 0 && isLetter(content[start-1]) {
@@ -33,6 +29,20 @@ func BuiltinMarkWord(args []Value, buffer *Buffer) (Value, error) {
 		end++
 	}
 
+	// Not at a word: find the next one
+	if start == end {
+		next := pos
+		for next < len(content) && !isLetter(content[next]) {
+			next++
+		}
+		if next < len(content) {
+			start, end = next, next
+			for end < len(content) && isLetter(content[end]) {
+				end++
+			}
+		}
+	}
+
 	// Set mark at beginning of word, point at end
 	buffer.SetMark(start + 1) // Convert back to 1-based
 	buffer.SetPoint(end + 1)  // Convert back to 1-based
-- 
2.43.0


From e3638d59ab055fa93fe64ab5b62e1c9a480ab2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 13/28] fix: replace-region with an empty region inserts the
 replacement

It did nothing, so mark-whole-buffer; replace-region left an empty file empty.
---
 edlisp/builtin_replace_region.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/edlisp/builtin_replace_region.go b/edlisp/builtin_replace_region.go
index b0afda4..a757691 100644
--- a/edlisp/builtin_replace_region.go
+++ b/edlisp/builtin_replace_region.go
@@ -35,10 +35,6 @@ func BuiltinReplaceRegion(args []Value, buffer *Buffer) (Value, error) {
 	if end > len(content) {
 		end = len(content)
 	}
-	if start >= end {
-		return NewString(""), nil
-	}
-
 	newContent := content[:start] + str.Value + content[end:]
 	buffer.content.Reset()
 	buffer.content.WriteString(newContent)
-- 
2.43.0


From ae1dad353bfc24e4100741df133a1c2e39ddeae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 14/28] fix: replace-match refuses to replace text other than
 the last match

After an edit that moved or removed the matched text it replaced whatever was
then at the match's old position.
---
 edlisp/builtin_replace_match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edlisp/builtin_replace_match.go b/edlisp/builtin_replace_match.go
index 51ed5f7..8f441b5 100644
--- a/edlisp/builtin_replace_match.go
+++ b/edlisp/builtin_replace_match.go
@@ -30,7 +30,7 @@ func BuiltinReplaceMatch(args []Value, buffer *Buffer) (Value, error) {
 	start := buffer.lastSearchStart - 1 // Convert to 0-based
 	end := buffer.lastSearchEnd - 1     // Convert to 0-based
 
-	if start < 0 || end > len(content) || start >= end {
+	if start < 0 || end > len(content) || start >= end || content[start:end] != buffer.lastSearchMatch {
 		return nil, fmt.Errorf("invalid search match positions")
 	}
 
-- 
2.43.0


From 93810bb6913dce3e8439380887d41a1d610ff0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 15/28] fix: parse every S-expression on a line

Everything after the first S-expression on a line was silently dropped:
(insert "a") (insert "b") ran only the first, and (a)) was accepted.
---
 edlisp/parser/linebased.go | 39 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 03c9ffe..e4e4348 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -36,11 +36,11 @@ func ParseReader(r io.Reader) ([]edlisp.Value, error) {
 				continue // Skip empty commands
 			}
 
-			expr, err := parseLine(command)
+			exprs, err := parseLine(command)
 			if err != nil {
 				return nil, err
 			}
-			expressions = append(expressions, expr)
+			expressions = append(expressions, exprs...)
 		}
 	}
 
@@ -66,11 +66,7 @@ func ParseSexp(s string) ([]edlisp.Value, error) {
 
 	// If it starts with '(', parse as regular S-expression
 	if strings.HasPrefix(trimmed, "(") {
-		expr, err := parseSExpression(trimmed)
-		if err != nil {
-			return nil, err
-		}
-		return []edlisp.Value{expr}, nil
+		return parseSExpressions(trimmed)
 	}
 
 	// Otherwise, parse as a single token value
@@ -100,22 +96,37 @@ func ParseFormat(format, input string) ([]edlisp.Value, error) {
 }
 
 // parseLine parses a single line according to texted rules.
-func parseLine(line string) (edlisp.Value, error) {
+func parseLine(line string) ([]edlisp.Value, error) {
 	if strings.HasPrefix(line, "(") {
-		return parseSExpression(line)
+		return parseSExpressions(line)
 	}
-	return parseShellLike(line)
+	expr, err := parseShellLike(line)
+	if err != nil {
+		return nil, err
+	}
+	return []edlisp.Value{expr}, nil
 }
 
-// parseSExpression parses a traditional S-expression starting with '('.
-func parseSExpression(line string) (edlisp.Value, error) {
+// parseSExpressions parses one or more traditional S-expressions, each starting with '('.
+func parseSExpressions(line string) ([]edlisp.Value, error) {
 	tokens, err := tokenize(line)
 	if err != nil {
 		return nil, err
 	}
 
-	expr, _, err := parseTokens(tokens, 0)
-	return expr, err
+	var expressions []edlisp.Value
+	for pos := 0; pos < len(tokens); {
+		if tokens[pos] != "(" {
+			return nil, fmt.Errorf("unexpected %s after S-expression", tokens[pos])
+		}
+		expr, newPos, err := parseTokens(tokens, pos)
+		if err != nil {
+			return nil, err
+		}
+		expressions = append(expressions, expr)
+		pos = newPos
+	}
+	return expressions, nil
 }
 
 // parseShellLike parses a shell-like command line into a list.
-- 
2.43.0


From 75706f98557733af40d977b5d76ed751207fef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 16/28] fix: accept script lines longer than 64 KiB

Such scripts failed with bufio.Scanner: token too long.
---
 edlisp/parser/linebased.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index e4e4348..1415ea4 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -5,6 +5,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -20,6 +21,7 @@ import (
 // 4. Semicolons are treated as line separators (equivalent to newlines)
 func ParseReader(r io.Reader) ([]edlisp.Value, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt) // no limit on the length of a line
 	var expressions []edlisp.Value
 
 	for scanner.Scan() {
-- 
2.43.0


From c33711e7b2260756b0fe54f03ee05b31996850da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 17/28] fix: accept both documented JSON script forms in edit

A single command array and a sequence of command arrays, the forms the README
and the edit help show, were rejected; only an array of arrays was accepted.
---
 commands/edit.go      |  2 +-
 edlisp/parser/json.go | 32 ++++++++++++++++++++++++++++++++
 texted.go             |  2 +-
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index fb5153b..4fb35bb 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -339,7 +339,7 @@ func evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error
 		case "shell", "sexp":
 			program, err = parser.ParseString(expr)
 		case "json":
-			program, err = parser.ParseJSONString(expr)
+			program, err = parser.ParseJSONScript(expr)
 		default:
 			return fmt.Errorf("unsupported script format: %s", args.scriptFormat)
 		}
diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index 53f7544..9ee577e 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
 )
@@ -67,6 +68,37 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	return expressions, nil
 }
 
+// ParseJSONScript parses a texted script in either of the JSON forms:
+// an array of command arrays, or a stream of command arrays.
+func ParseJSONScript(s string) ([]edlisp.Value, error) {
+	decoder := json.NewDecoder(strings.NewReader(s))
+	var expressions []edlisp.Value
+
+	for {
+		var raw json.RawMessage
+		err := decoder.Decode(&raw)
+		if err == io.EOF {
+			return expressions, nil
+		}
+		if err != nil {
+			return nil, fmt.Errorf("JSON decode error: %w", err)
+		}
+
+		// A single command starts with its name, a program with a command
+		source := string(raw)
+		var elements []json.RawMessage
+		if json.Unmarshal(raw, &elements) == nil && len(elements) > 0 && elements[0][0] != '[' {
+			source = "[" + source + "]"
+		}
+
+		commands, err := ParseJSONString(source)
+		if err != nil {
+			return nil, err
+		}
+		expressions = append(expressions, commands...)
+	}
+}
+
 // convertJSONValue converts a Go interface{} value from JSON into an edlisp.Value.
 func convertJSONValue(value interface{}) (edlisp.Value, error) {
 	switch v := value.(type) {
diff --git a/texted.go b/texted.go
index d393631..ad71a3e 100644
--- a/texted.go
+++ b/texted.go
@@ -48,7 +48,7 @@ func ExecuteScriptWithFormat(input, script, format string) (string, error) {
 	case "shell", "sexp":
 		program, err = parser.ParseString(script)
 	case "json":
-		program, err = parser.ParseJSONString(script)
+		program, err = parser.ParseJSONScript(script)
 	default:
 		return "", fmt.Errorf("unsupported script format: %s", format)
 	}
-- 
2.43.0


From 6b0ebe6a8580062e5a3b3bc3f7a267ac9d55f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 18/28] fix: accept a JSON array of commands in parse

texted parse --input-format json rejected the multi-command array form that
edit and the documentation use.
---
 commands/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commands/parse.go b/commands/parse.go
index b3a2f41..136170b 100644
--- a/commands/parse.go
+++ b/commands/parse.go
@@ -83,7 +83,11 @@ func parseInput(r io.Reader, format string) ([]edlisp.Value, error) {
 	case "sexp":
 		return parser.ParseReader(r)
 	case "json":
-		return parser.ParseJSONReader(r)
+		content, err := io.ReadAll(r)
+		if err != nil {
+			return nil, err
+		}
+		return parser.ParseJSONScript(string(content))
 	default:
 		return nil, fmt.Errorf("unsupported input format: %s", format)
 	}
-- 
2.43.0


From dceecdb1ffa57ee8e82b093cb73d31d949dfd232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 19/28] fix: accept JSON scripts where the format is not given

The MCP tools document shell-like, S-expression and JSON scripts as
interchangeable, but ran a JSON script as a shell-like one, which always failed.
---
 edlisp/parser/json.go | 9 +++++++++
 texted.go             | 2 +-
 tools/texted_eval.go  | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index 9ee577e..cd8fc4e 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -68,6 +68,15 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	return expressions, nil
 }
 
+// ParseScript parses a texted script in any of the supported formats: a script
+// starting with '[' is JSON, everything else uses the line-based format.
+func ParseScript(s string) ([]edlisp.Value, error) {
+	if strings.HasPrefix(strings.TrimSpace(s), "[") {
+		return ParseJSONScript(s)
+	}
+	return ParseString(s)
+}
+
 // ParseJSONScript parses a texted script in either of the JSON forms:
 // an array of command arrays, or a stream of command arrays.
 func ParseJSONScript(s string) ([]edlisp.Value, error) {
diff --git a/texted.go b/texted.go
index ad71a3e..dd9f539 100644
--- a/texted.go
+++ b/texted.go
@@ -19,7 +19,7 @@ type EditResult struct {
 func ExecuteScript(input, script string) (string, error) {
 	buf := edlisp.NewBuffer(input)
 
-	program, err := parser.ParseString(script)
+	program, err := parser.ParseScript(script)
 	if err != nil {
 		return "", fmt.Errorf("parsing script: %w", err)
 	}
diff --git a/tools/texted_eval.go b/tools/texted_eval.go
index 7f41913..51394a0 100644
--- a/tools/texted_eval.go
+++ b/tools/texted_eval.go
@@ -66,7 +66,7 @@ func TextedEvalHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.C
 	// Expression mode - need to get the return value
 	buf := edlisp.NewBuffer(input)
 
-	program, err := parser.ParseString(script)
+	program, err := parser.ParseScript(script)
 	if err != nil {
 		return mcp.NewToolResultError(fmt.Sprintf("parsing script: %v", err)), nil
 	}
-- 
2.43.0


From 98e6f9ad66d68fdc0c1675b0b106a58ecf956a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 20/28] fix: refuse to write invalid UTF-8 as JSON instead of
 altering it

encoding/json silently replaced the bytes by U+FFFD, changing the script.
---
 edlisp/writer/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edlisp/writer/json.go b/edlisp/writer/json.go
index 017efa1..87a362c 100644
--- a/edlisp/writer/json.go
+++ b/edlisp/writer/json.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"unicode/utf8"
 
 	"github.com/dhamidi/texted/edlisp"
 )
@@ -52,6 +53,9 @@ func (w *JSONWriter) valueToJSON(value edlisp.Value) (interface{}, error) {
 	case *edlisp.Symbol:
 		return v.Name, nil
 	case *edlisp.String:
+		if !utf8.ValidString(v.Value) {
+			return nil, fmt.Errorf("string %v is not valid UTF-8 and cannot be written as JSON", v)
+		}
 		return v.Value, nil
 	case *edlisp.Number:
 		return v.Value, nil
-- 
2.43.0


From ec6d0cf55dee061038c99c630488ab2267b55575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 21/28] fix: list documentation categories in a fixed order

The verbose listings followed map order and differed from run to run.
---
 commands/doc.go     | 10 +++++++++-
 tools/texted_doc.go |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/commands/doc.go b/commands/doc.go
index 89d2a12..4b11193 100644
--- a/commands/doc.go
+++ b/commands/doc.go
@@ -2,6 +2,7 @@ package commands
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/spf13/cobra"
@@ -152,7 +153,14 @@ func listFunctions(category string, verbose bool) error {
 			categoryMap[cat] = append(categoryMap[cat], doc)
 		}
 
-		for catName, catDocs := range categoryMap {
+		categories := make([]string, 0, len(categoryMap))
+		for catName := range categoryMap {
+			categories = append(categories, catName)
+		}
+		sort.Strings(categories)
+
+		for _, catName := range categories {
+			catDocs := categoryMap[catName]
 			fmt.Printf("## %s\n\n", strings.Title(catName))
 			for _, doc := range catDocs {
 				fmt.Printf("- **%s**: %s\n", doc.Name, doc.Summary)
diff --git a/tools/texted_doc.go b/tools/texted_doc.go
index 0513d14..9b9411f 100644
--- a/tools/texted_doc.go
+++ b/tools/texted_doc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	_ "embed"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
@@ -187,6 +188,7 @@ func formatFunctionList(docs []edlisp.FunctionDoc, title string, verbose bool) s
 		for category := range categoryMap {
 			categories = append(categories, category)
 		}
+		sort.Strings(categories)
 
 		for _, category := range categories {
 			output.WriteString(fmt.Sprintf("## %s\n\n", category))
-- 
2.43.0


From 977850033a9ddf60b1f86f25985a000d0b3f3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 22/28] fix: test runner checks an empty expected output

An empty <output> element was treated as absent, so a test expecting an empty
buffer passed whatever the buffer held.
---
 edlisp/testing/testing.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index bc665ee..6d8e0eb 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -20,6 +20,9 @@ type TestCase struct {
 	Output string `xml:"output"`
 	Result Result `xml:"result"`
 	Error  Error  `xml:"error"`
+
+	// HasOutput is set when <output> is present, even if it is empty.
+	HasOutput bool `xml:"-"`
 }
 
 // Input represents the test input with language specification.
@@ -63,7 +66,7 @@ func ParseTestCase(r io.Reader) (*TestCase, error) {
 		XMLName xml.Name `xml:"testcase"`
 		Buffer  string   `xml:"buffer"`
 		Input   Input    `xml:"input"`
-		Output  string   `xml:"output"`
+		Output  *string  `xml:"output"`
 		Result  Result   `xml:"result"`
 		Error   Error    `xml:"error"`
 	}
@@ -73,13 +76,17 @@ func ParseTestCase(r io.Reader) (*TestCase, error) {
 		return nil, fmt.Errorf("parsing test case: %w", err)
 	}
 
-	return &TestCase{
+	testCase := &TestCase{
 		Buffer: wrapper.Buffer,
 		Input:  wrapper.Input,
-		Output: wrapper.Output,
 		Result: wrapper.Result,
 		Error:  wrapper.Error,
-	}, nil
+	}
+	if wrapper.Output != nil {
+		testCase.Output = *wrapper.Output
+		testCase.HasOutput = true
+	}
+	return testCase, nil
 }
 
 // ParseTestFile parses a test case from a file.
@@ -146,7 +153,7 @@ func RunTestWithTrace(testCase *TestCase, env *edlisp.Environment, traceCallback
 	}
 
 	// Check if at least one expectation is present
-	hasOutputExpectation := testCase.Output != ""
+	hasOutputExpectation := testCase.HasOutput || testCase.Output != ""
 	expectedResult := strings.TrimSpace(testCase.Result.Text)
 	hasResultExpectation := expectedResult != ""
 
-- 
2.43.0


From bc83c0c521bf73cfa6209f1f0bd304d32c193286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 23/28] fix: put a file back when its edited content cannot be
 written

A full disk or a file size limit left the file truncated and its text lost.
---
 commands/edit.go |  2 ++
 texted.go        | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index 4fb35bb..573ae01 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -592,6 +592,8 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 		}
 
 		if err := os.WriteFile(filename, []byte(result), 0644); err != nil {
+			// Put the original content back
+			_ = os.WriteFile(filename, content, 0644)
 			if !args.quiet {
 				fmt.Printf("✗ Failed to write %s: %v\n", filename, err)
 			}
diff --git a/texted.go b/texted.go
index dd9f539..e5ccbf2 100644
--- a/texted.go
+++ b/texted.go
@@ -78,7 +78,7 @@ func EditFile(filename, script string) error {
 		return err
 	}
 
-	return writeFile(filename, modified)
+	return replaceFile(filename, content, modified)
 }
 
 // EditFileWithFormat applies a texted script with a specific format to a file.
@@ -93,7 +93,7 @@ func EditFileWithFormat(filename, script, format string) error {
 		return err
 	}
 
-	return writeFile(filename, modified)
+	return replaceFile(filename, content, modified)
 }
 
 // EditFiles applies a texted script to multiple files.
@@ -165,3 +165,14 @@ func writeFile(filename, content string) error {
 	}
 	return nil
 }
+
+// replaceFile replaces the original content of a file. If the new content
+// cannot be written, for example because the disk is full, it puts the
+// original content back.
+func replaceFile(filename, original, content string) error {
+	err := writeFile(filename, content)
+	if err != nil {
+		_ = writeFile(filename, original)
+	}
+	return err
+}
-- 
2.43.0


From 0ae9f3ea01e496688c9968de544c8ddb75217c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 24/28] fix: report expression results that could not be
 written

texted edit -e exited with success although standard output was full.
---
 commands/edit.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/edit.go b/commands/edit.go
index 573ae01..4a62a56 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -393,7 +393,9 @@ func evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error
 				return fmt.Errorf("writing result: %w", err)
 			}
 
-			fmt.Printf("%s\n", buf.String())
+			if _, err := fmt.Printf("%s\n", buf.String()); err != nil {
+				return fmt.Errorf("writing result: %w", err)
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 06f26498623096125dad8fadf9a6a04087204ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 25/28] fix: reject a JSON script that is null

---
 edlisp/parser/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index cd8fc4e..937dc3a 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -51,6 +51,10 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 		return nil, fmt.Errorf("JSON unmarshal error: %w", err)
 	}
 
+	if rawValues == nil {
+		return nil, fmt.Errorf("null values are not supported in texted JSON")
+	}
+
 	var expressions []edlisp.Value
 	for i, rawValue := range rawValues {
 		// Validate that each top-level value is an array
-- 
2.43.0


From 7515e11e14426c4d7747566b3bdd177161dbf169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 26/28] fix: make the documented examples of goto-line, mark
 and search-backward do what they say

---
 edlisp/builtin_goto_line.go       | 2 +-
 edlisp/builtin_mark.go            | 2 +-
 edlisp/builtin_search_backward.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edlisp/builtin_goto_line.go b/edlisp/builtin_goto_line.go
index e2183b9..e88143b 100644
--- a/edlisp/builtin_goto_line.go
+++ b/edlisp/builtin_goto_line.go
@@ -59,7 +59,7 @@ func init() {
 				Description: "Move to line 3 in a multi-line buffer",
 				Input:       `goto-line 3`,
 				Buffer:      "Line 1: First line of text\nLine 2: Second line of text\nLine 3: Third line of text\nLine 4: Fourth line of text",
-				Output:      "Point moves to beginning of line 3 (position 51)",
+				Output:      "Point moves to beginning of line 3 (position 56)",
 			},
 			{
 				Description: "Move to line beyond buffer end",
diff --git a/edlisp/builtin_mark.go b/edlisp/builtin_mark.go
index fb4a98f..dbf87a4 100644
--- a/edlisp/builtin_mark.go
+++ b/edlisp/builtin_mark.go
@@ -51,7 +51,7 @@ func init() {
 		Description: "Returns the current mark position in the buffer. The mark is a secondary position that works with the point to define text regions. Like the point, it is 1-based and can be anywhere from point-min to point-max. The mark is typically set using set-mark or set-mark-command.",
 		Parameters:  []ParameterDoc{},
 		Examples: []ExampleDoc{
-			{Description: "Get mark position", Input: `set-mark 5; mark`, Buffer: "Hello world", Output: "5"},
+			{Description: "Get mark position", Input: `set-mark-command 5; mark`, Buffer: "Hello world", Output: "5"},
 			{Description: "Get mark after set-mark-command", Input: `goto-char 3; set-mark-command; mark`, Buffer: "Hello world", Output: "3"},
 		},
 		SeeAlso: []string{"point", "set-mark", "set-mark-command", "region-beginning", "region-end", "exchange-point-and-mark"},
diff --git a/edlisp/builtin_search_backward.go b/edlisp/builtin_search_backward.go
index 5795429..717afb6 100644
--- a/edlisp/builtin_search_backward.go
+++ b/edlisp/builtin_search_backward.go
@@ -63,13 +63,13 @@ func init() {
 		Examples: []ExampleDoc{
 			{
 				Description: "Basic backward text search",
-				Input:       `end-of-buffer search-backward "test"`,
+				Input:       `end-of-buffer; search-backward "test"`,
 				Buffer:      "Hello world, this is a test buffer.\nThe word \"test\" appears twice here.\nAnother line with test content.",
 				Output:      "Point moves to position after the last 'test' (position 95)",
 			},
 			{
 				Description: "Search that fails",
-				Input:       `beginning-of-buffer search-backward "missing"`,
+				Input:       `beginning-of-buffer; search-backward "missing"`,
 				Buffer:      "Hello world",
 				Output:      "Error: search failed",
 			},
-- 
2.43.0


From 7fa1b8ae65b6ce155cf09b9e97583b6553ffdb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 27/28] revert: test runner checks an empty expected output

The file counts as test code, which these commits leave alone; the defect
is recorded as a known finding instead.
---
 edlisp/testing/testing.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index 6d8e0eb..bc665ee 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -20,9 +20,6 @@ type TestCase struct {
 	Output string `xml:"output"`
 	Result Result `xml:"result"`
 	Error  Error  `xml:"error"`
-
-	// HasOutput is set when <output> is present, even if it is empty.
-	HasOutput bool `xml:"-"`
 }
 
 // Input represents the test input with language specification.
@@ -66,7 +63,7 @@ func ParseTestCase(r io.Reader) (*TestCase, error) {
 		XMLName xml.Name `xml:"testcase"`
 		Buffer  string   `xml:"buffer"`
 		Input   Input    `xml:"input"`
-		Output  *string  `xml:"output"`
+		Output  string   `xml:"output"`
 		Result  Result   `xml:"result"`
 		Error   Error    `xml:"error"`
 	}
@@ -76,17 +73,13 @@ func ParseTestCase(r io.Reader) (*TestCase, error) {
 		return nil, fmt.Errorf("parsing test case: %w", err)
 	}
 
-	testCase := &TestCase{
+	return &TestCase{
 		Buffer: wrapper.Buffer,
 		Input:  wrapper.Input,
+		Output: wrapper.Output,
 		Result: wrapper.Result,
 		Error:  wrapper.Error,
-	}
-	if wrapper.Output != nil {
-		testCase.Output = *wrapper.Output
-		testCase.HasOutput = true
-	}
-	return testCase, nil
+	}, nil
 }
 
 // ParseTestFile parses a test case from a file.
@@ -153,7 +146,7 @@ func RunTestWithTrace(testCase *TestCase, env *edlisp.Environment, traceCallback
 	}
 
 	// Check if at least one expectation is present
-	hasOutputExpectation := testCase.HasOutput || testCase.Output != ""
+	hasOutputExpectation := testCase.Output != ""
 	expectedResult := strings.TrimSpace(testCase.Result.Text)
 	hasResultExpectation := expectedResult != ""
 
-- 
2.43.0


From 3d2c7357246c6875ea82d62d64a6d5acf3773650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 28/28] fix: refuse to convert a program the target format
 cannot express

Symbols that do not read back ("foo bar", "5", "a;b" from JSON), symbol
arguments and lists without a name in JSON, and empty commands were altered or
dropped.
---
 edlisp/writer/json.go   |  4 ++++
 edlisp/writer/sexp.go   |  4 ++++
 edlisp/writer/shell.go  |  4 ++++
 edlisp/writer/writer.go | 28 ++++++++++++++++++++++++++++
 4 files changed, 40 insertions(+)

diff --git a/edlisp/writer/json.go b/edlisp/writer/json.go
index 87a362c..99fbc41 100644
--- a/edlisp/writer/json.go
+++ b/edlisp/writer/json.go
@@ -7,6 +7,7 @@ import (
 	"unicode/utf8"
 
 	"github.com/dhamidi/texted/edlisp"
+	"github.com/dhamidi/texted/edlisp/parser"
 )
 
 // JSONWriter writes edlisp values in JSON format
@@ -16,6 +17,9 @@ type JSONWriter struct{}
 func (w *JSONWriter) Write(writer io.Writer, expressions []edlisp.Value) error {
 	encoder := json.NewEncoder(writer)
 	for _, expr := range expressions {
+		if err := checkReadable(w, expr, parser.ParseJSONScript); err != nil {
+			return err
+		}
 		jsonValue, err := w.valueToJSON(expr)
 		if err != nil {
 			return err
diff --git a/edlisp/writer/sexp.go b/edlisp/writer/sexp.go
index feaf2e2..d0759c4 100644
--- a/edlisp/writer/sexp.go
+++ b/edlisp/writer/sexp.go
@@ -5,6 +5,7 @@ import (
 	"io"
 
 	"github.com/dhamidi/texted/edlisp"
+	"github.com/dhamidi/texted/edlisp/parser"
 )
 
 // SExpWriter writes edlisp values in S-expression format
@@ -13,6 +14,9 @@ type SExpWriter struct{}
 // Write writes multiple expressions to the writer in S-expression format
 func (w *SExpWriter) Write(writer io.Writer, expressions []edlisp.Value) error {
 	for _, expr := range expressions {
+		if err := checkReadable(w, expr, parser.ParseString); err != nil {
+			return err
+		}
 		if err := w.WriteValue(writer, expr); err != nil {
 			return err
 		}
diff --git a/edlisp/writer/shell.go b/edlisp/writer/shell.go
index 0b6bb05..ba98e55 100644
--- a/edlisp/writer/shell.go
+++ b/edlisp/writer/shell.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
+	"github.com/dhamidi/texted/edlisp/parser"
 )
 
 // ShellWriter writes edlisp values in shell-like format
@@ -15,6 +16,9 @@ type ShellWriter struct{}
 // Write writes multiple expressions to the writer in shell format
 func (w *ShellWriter) Write(writer io.Writer, expressions []edlisp.Value) error {
 	for _, expr := range expressions {
+		if err := checkReadable(w, expr, parser.ParseString); err != nil {
+			return err
+		}
 		if err := w.WriteValue(writer, expr); err != nil {
 			return err
 		}
diff --git a/edlisp/writer/writer.go b/edlisp/writer/writer.go
index 2fecb37..7600fdf 100644
--- a/edlisp/writer/writer.go
+++ b/edlisp/writer/writer.go
@@ -3,6 +3,7 @@ package writer
 import (
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
 )
@@ -35,3 +36,30 @@ func NewWriter(format Format) (Writer, error) {
 		return nil, fmt.Errorf("unsupported format: %s", format)
 	}
 }
+
+// checkReadable returns an error unless parse reads the written form of expr back
+// as the same expression: a program that a format cannot express must not be altered.
+func checkReadable(w Writer, expr edlisp.Value, parse func(string) ([]edlisp.Value, error)) error {
+	var buf strings.Builder
+	if err := w.WriteValue(&buf, expr); err != nil {
+		return err
+	}
+	back, err := parse(buf.String())
+	if err != nil || len(back) != 1 || describe(back[0]) != describe(expr) {
+		return fmt.Errorf("%v cannot be expressed in this format", expr)
+	}
+	return nil
+}
+
+// describe returns an unambiguous description of the structure of value.
+func describe(value edlisp.Value) string {
+	list, ok := value.(*edlisp.List)
+	if !ok {
+		return fmt.Sprintf("%T%q", value, fmt.Sprint(value))
+	}
+	parts := make([]string, 0, len(list.Elements))
+	for _, element := range list.Elements {
+		parts = append(parts, describe(element))
+	}
+	return "(" + strings.Join(parts, " ") + ")"
+}
-- 
2.43.0

