From b6d46eac42ce8e8a181d815698dc8ddebf0c8ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:05 +0000
Subject: [PATCH 01/70] fix: piece table accepts a source that returns io.EOF
 with its last bytes

io.ReaderAt allows ReadAt to return n == len(p) together with io.EOF at the
end of the source. Reading the last bytes of such a source made String panic.
---
 pkg/txt/piece_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index b64520c..4752c47 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -62,10 +62,11 @@ func (p piece) Read(bytes []byte) (int, error) {
 	n := 0
 	for n < p.length {
 		i, err := p.reader.ReadAt(bytes[n:p.length], p.offset+int64(n))
-		if err != nil {
+		n += i
+		// A ReaderAt may return io.EOF along with the last of its bytes
+		if err != nil && n < p.length {
 			return 0, err
 		}
-		n += i
 	}
 	if n != p.length {
 		return 0, fmt.Errorf("Meant to read %d bytes, read %d instead", p.length, n)
-- 
2.43.0


From a857bdd35482a4af80471f7067acf38c14e56b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:05 +0000
Subject: [PATCH 02/70] fix: zero-value piece table accepts more than one
 insert

The first insert into a zero PieceTable (what cmd/ed starts with) kept the
caller's slice instead of copying it, and never made the append buffer, so the
second insert dereferenced nil and panicked.
---
 pkg/txt/piece_table.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index 4752c47..64a47b9 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -115,12 +115,10 @@ func (pt *PieceTable) Insert(text []byte, at int) {
 	idx := 0
 	var prev *piece
 	if pt.head == nil {
-		pt.head = &piece{
-			length: len(text),
-			offset: 0,
-			reader: bytes.NewReader(text),
-		}
-		return
+		pt.head = &piece{}
+	}
+	if pt.append == nil {
+		pt.append = bytes.NewBuffer(nil)
 	}
 	for p := pt.head; p != nil; p = p.next {
 		idx += p.length
-- 
2.43.0


From 343458c176c504ed4ce8e5c531c6942edcf6c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:06 +0000
Subject: [PATCH 03/70] fix: piece table delete past the end removes the whole
 tail

A range that ran past the last piece only shortened the piece it started in;
the pieces after that one stayed in the table.
---
 pkg/txt/piece_table.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index 64a47b9..3d46371 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -176,7 +176,10 @@ func (pt *PieceTable) Delete(length int, at int) {
 			return
 		}
 	}
-	//panic(fmt.Errorf("at (%d) too big, max %d", at, end))
+	// The range runs past the last piece, so everything after 'at' goes
+	if first != nil {
+		first.next = nil
+	}
 }
 
 func (pt *PieceTable) clean() {
-- 
2.43.0


From c0cfa9ce03d59db834420df96a56e7a443118f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:30 +0000
Subject: [PATCH 04/70] fix: tsort keeps the orderings of an item that is also
 given alone

Adding a single item ('a a' on the command line) threw away every ordering
already recorded for it, and with them items that appear nowhere else.
---
 pkg/tsort/tsort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index 7e10f0f..fe11884 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -23,7 +23,9 @@ func (s *Sorter) Add(items []string) {
 		return
 	}
 	if len(items) == 1 {
-		s.orderings[items[0]] = nil
+		if _, ok := s.orderings[items[0]]; !ok {
+			s.orderings[items[0]] = nil
+		}
 		return
 	}
 	for i := 0; i < len(items)-1; i++ {
-- 
2.43.0


From 3e9ff83e26e97705d7e7c1c5052de4deafe84f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:30 +0000
Subject: [PATCH 05/70] fix: a repeated BRE element only matches adjacent
 characters

The count went on past the first character that does not match, so ^a*ac
matched 'abac'.
---
 pkg/regexes/bre_evaluate.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/regexes/bre_evaluate.go b/pkg/regexes/bre_evaluate.go
index 1030c1d..6972e15 100644
--- a/pkg/regexes/bre_evaluate.go
+++ b/pkg/regexes/bre_evaluate.go
@@ -42,12 +42,10 @@ func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, match
 
 	// Find how many runes match the current element
 	for i := 0; i < e.count.max && i < len(runes); i++ {
-		if e.element.Matches(runes[i]) {
-			matched++
-		} else if matched < e.count.min {
-			// Return early if we don't have at least the minimum matches
-			return false, 0
+		if !e.element.Matches(runes[i]) {
+			break
 		}
+		matched++
 	}
 
 	// Check remainder of matches, backtracking when necessary
-- 
2.43.0


From 29ccb8f6c7407332f63b1bab3b665a98dc2b4419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:31 +0000
Subject: [PATCH 06/70] fix: a BRE anchored with $ only matches at the end of
 the input

Running out of elements counted the rest of the input as matched, so ^a$
matched 'ab'. The anchor is now checked where the elements run out, which
also makes the backtracking honour it.
---
 pkg/regexes/bre_evaluate.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/pkg/regexes/bre_evaluate.go b/pkg/regexes/bre_evaluate.go
index 6972e15..5872837 100644
--- a/pkg/regexes/bre_evaluate.go
+++ b/pkg/regexes/bre_evaluate.go
@@ -5,36 +5,24 @@ func (bre Bre) Matches(input string) bool {
 	runes := []rune(input)
 
 	if bre.anchorLeft || len(input) == 0 {
-		match, length := elementsMatch(bre.elements, runes)
-		if !match {
-			return false
-		}
-		if bre.anchorRight {
-			return length == len(runes)
-		}
-		return true
+		return elementsMatch(bre.elements, runes, bre.anchorRight)
 	}
 
-	for i := range runes {
-		match, length := elementsMatch(bre.elements, runes[i:])
-		if !match {
-			continue
+	for i := 0; i <= len(runes); i++ {
+		if elementsMatch(bre.elements, runes[i:], bre.anchorRight) {
+			return true
 		}
-		if bre.anchorRight && length != len(runes[i:]) {
-			continue
-		}
-		return true
 	}
 
 	return false
 }
 
 // recursive
-func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, matchlen int) {
+func elementsMatch(elements []breDuplElement, runes []rune, anchorRight bool) bool {
 
-	// No elements matches any string
+	// No elements matches any string, unless anchored to its end
 	if len(elements) == 0 {
-		return true, len(runes)
+		return !anchorRight || len(runes) == 0
 	}
 
 	e := elements[0]
@@ -50,10 +38,10 @@ func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, match
 
 	// Check remainder of matches, backtracking when necessary
 	for i := matched; i >= e.count.min; i-- {
-		if match, length := elementsMatch(elements[1:], runes[i:]); match {
-			return match, length + i
+		if elementsMatch(elements[1:], runes[i:], anchorRight) {
+			return true
 		}
 	}
 
-	return false, 0
+	return false
 }
-- 
2.43.0


From 1a55a84018fef049946adb08b5ab70899a3b32a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:50 +0000
Subject: [PATCH 07/70] fix: an attached option value is not parsed as further
 options

After '-pfoo' set p to foo, the letters f, o and o were still looked up as
options, which set unrelated flags or failed the whole parse.
---
 pkg/flag/parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index ff5f5e5..a8ec705 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -49,16 +49,17 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 				value = p.Input[i]
 			}
 
+			// The value uses up the rest of the bundle
 			if flag, ok := p.strings[c]; ok {
 				flag.execute(value)
-				continue
+				break
 			}
 			if flag, ok := p.ints[c]; ok {
 				err := flag.execute(value)
 				if err != nil {
 					return nil, err
 				}
-				continue
+				break
 			}
 			return nil, fmt.Errorf("man what's happening")
 			//// non-boolean flags may only be bundled if they are the last
-- 
2.43.0


From c388cac0a7aa78946167427d6e7028b5510d55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:50 +0000
Subject: [PATCH 08/70] fix: an option whose value is missing is an error, not
 a panic

'-p' as the last word (or an unknown option there) indexed past the input.
---
 pkg/flag/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index a8ec705..1293f15 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -46,6 +46,9 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 			value := arg[j+2:]
 			if len(value) == 0 {
 				i++
+				if i >= len(p.Input) {
+					return nil, fmt.Errorf("-%c is unknown or lacks its value", c)
+				}
 				value = p.Input[i]
 			}
 
-- 
2.43.0


From 5d257e58276a98c6b76f481d8b6397114a9712cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:02 +0000
Subject: [PATCH 09/70] fix: option letters longer than one byte find their
 value
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The value was taken from one byte after the start of the option letter, so
'-é x' set é to half of its own letter instead of x.
---
 pkg/flag/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index 1293f15..8609958 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -3,6 +3,7 @@ package flag
 import (
 	"fmt"
 	"os"
+	"unicode/utf8"
 )
 
 // Parser does the hard work of assigning parses
@@ -43,7 +44,8 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 			}
 
 			// Argument may be either bundled or separate
-			value := arg[j+2:]
+			_, size := utf8.DecodeRuneInString(arg[j+1:])
+			value := arg[j+1+size:]
 			if len(value) == 0 {
 				i++
 				if i >= len(p.Input) {
-- 
2.43.0


From 152ec52f8de6929f086c31fca13653d2196156e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:02 +0000
Subject: [PATCH 10/70] fix: locale prints its settings as they are

The settings were used as a format string, so a % in any of the variables was
mangled in the output.
---
 cmd/locale/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 23ecf52..95c63dd 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -4,5 +4,5 @@ import "fmt"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Printf(locale.FromEnv().String())
+	fmt.Print(locale.FromEnv().String())
 }
-- 
2.43.0


From 07b6150e7837ed0a68df5dcba814f2d30d7fb505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 11/70] fix: cat exits non-zero after an error and goes on with
 the other files

A file that could not be read ended the output there, and cat still exited 0,
so a caller could not tell that output was missing.
---
 cmd/cat/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cat/main.go b/cmd/cat/main.go
index 639fa86..e4dd716 100644
--- a/cmd/cat/main.go
+++ b/cmd/cat/main.go
@@ -45,11 +45,13 @@ func main() {
 		filenames = append(filenames, "-")
 	}
 
+	status := 0
 	for _, fn := range filenames {
 		err := writeFile(fn)
 		if err != nil {
 			os.Stderr.Write([]byte(fmt.Sprintf("Error encountered while attempting to read from %s: %s\n", fn, err)))
-			break
+			status = 1
 		}
 	}
+	os.Exit(status)
 }
-- 
2.43.0


From efc8030657bb439d91394fbd95523783da8db247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 12/70] fix: cmp -l exits 1 when the files differ

With -l, files of the same length always gave exit status 0.
---
 cmd/cmp/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index e1235b0..0a44850 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -58,6 +58,7 @@ func cmp(s settings) error {
 	buf1 := bufio.NewReader(f1)
 	buf2 := bufio.NewReader(f2)
 	l := 1
+	differ := false
 	for i := 1; err == nil; i++ {
 		b1, err1 := buf1.ReadByte()
 		b2, err2 := buf2.ReadByte()
@@ -74,6 +75,7 @@ func cmp(s settings) error {
 				if !s.writeAll {
 					os.Exit(1)
 				}
+				differ = true
 			}
 			if b1 == byte('\n') {
 				l++
@@ -99,6 +101,9 @@ func cmp(s settings) error {
 		}
 
 	}
+	if differ {
+		os.Exit(1)
+	}
 
 	return nil
 }
-- 
2.43.0


From fc6d64c0fc4f4c9b7ba257a09efec36940883c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 13/70] fix: cmp -s writes nothing when one file is a prefix of
 the other

---
 cmd/cmp/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 0a44850..f76f541 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -87,14 +87,18 @@ func cmp(s settings) error {
 		}
 		if err1 != nil {
 			if err1 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file1, err1)
 		}
 		if err2 != nil {
 			if err2 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
-- 
2.43.0


From a8b62f239865299f7dacb7b14089b39208bfe4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:40 +0000
Subject: [PATCH 14/70] fix: cmp exits 2 when the second file cannot be read

A read error on the second file just where the first one ended was reported
as a difference (EOF on the first file, exit 1).
---
 cmd/cmp/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index f76f541..45ea165 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -85,6 +85,9 @@ func cmp(s settings) error {
 		if err1 == io.EOF && err2 == io.EOF {
 			break
 		}
+		if err1 == io.EOF && err2 != nil {
+			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
+		}
 		if err1 != nil {
 			if err1 == io.EOF {
 				if !s.silent {
-- 
2.43.0


From ea84fc37354e2555dd06fe922935cade6404f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:41 +0000
Subject: [PATCH 15/70] fix: head without arguments reads standard input

It returned before the default operand was filled in and printed nothing.
---
 cmd/head/main.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index d3d8a3a..a812700 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -19,10 +19,6 @@ func parseSettings(args []string) (settings, error) {
 		//filenames: []string{"-"},
 	}
 
-	if len(args) == 0 {
-		return s, nil
-		//return settings{}, fmt.Errorf("No arguments")
-	}
 
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
-- 
2.43.0


From db51bf2e5f2e21930e9670c21f2082723cf1bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:41 +0000
Subject: [PATCH 16/70] fix: head copies lines unchanged, whatever their length

Lines lost a carriage return before the newline, an unterminated last line
gained a newline, and a line over 64 KiB made head panic.
---
 cmd/head/main.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index a812700..299f514 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -19,7 +19,6 @@ func parseSettings(args []string) (settings, error) {
 		//filenames: []string{"-"},
 	}
 
-
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
@@ -60,14 +59,14 @@ func process(s settings) {
 			}
 		}
 
-		scan := bufio.NewScanner(f)
-		j := 0
-		for scan.Scan() && j < s.numLines {
-			fmt.Println(scan.Text())
-			j++
+		r := bufio.NewReader(f)
+		for j := 0; j < s.numLines && err == nil; j++ {
+			var line string
+			line, err = r.ReadString('\n')
+			fmt.Print(line)
 		}
-		if scan.Err() != nil {
-			panic(scan.Err())
+		if err != nil && err != io.EOF {
+			panic(err)
 		}
 	}
 
-- 
2.43.0


From 18b0eb9b5a922c49d2122d01ec6475ac0c1a0390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:12 +0000
Subject: [PATCH 17/70] fix: cksum without operands prints no file name

POSIX has the name and the space before it left out when cksum reads standard
input because there is no operand; it printed a '-' that is not there.
---
 cmd/cksum/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index d0177cb..6514941 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -11,7 +11,7 @@ func die(format string, args ...interface{}) {
 	os.Exit(1)
 }
 
-func run(filename string) {
+func run(filename string, label string) {
 	reader := os.Stdin
 	if filename != "-" {
 		f, err := os.Open(filename)
@@ -26,15 +26,15 @@ func run(filename string) {
 		die("couldn't read input %s", err)
 	}
 
-	fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
+	fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
 }
 
 func main() {
 	files := os.Args[1:]
 	if len(files) == 0 {
-		files = append(files, "-")
+		run("-", "")
 	}
 	for _, f := range files {
-		run(f)
+		run(f, " "+f)
 	}
 }
-- 
2.43.0


From f96275b6908fbbdd8d9fc7f65a04b1e1d9104843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 18/70] fix: kill sends the signal it was asked to send

Every call sent KILL: 'kill pid' gave the process no chance to clean up, and
'kill -0 pid', which only asks whether it exists, killed it.
---
 cmd/kill/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index a186ba1..692d887 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"syscall"
 )
 
 var signalMap = map[string]int{
@@ -67,8 +68,7 @@ func main() {
 	if err != nil {
 		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
 	}
-	//err = process.Signal(syscall.Signal(signal))
-	err = process.Kill()
+	err = process.Signal(syscall.Signal(signal))
 	if err != nil {
 		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
 	}
-- 
2.43.0


From 468b7c9c291df723333d137132ccf4430574fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 19/70] fix: kill writes nothing to standard output when it
 sends a signal

---
 cmd/kill/main.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index 692d887..6f92860 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -63,7 +63,6 @@ func main() {
 	if listSignals {
 
 	}
-	fmt.Println("sending", signal, "to", pid)
 	process, err := os.FindProcess(pid)
 	if err != nil {
 		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
@@ -72,6 +71,4 @@ func main() {
 	if err != nil {
 		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
 	}
-
-	fmt.Println("vim-go")
 }
-- 
2.43.0


From a250de007797588186d8c7d00491d3d02ac1c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 20/70] fix: kill signals every process it is given

Only the last process ID on the command line was signalled.
---
 cmd/kill/main.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index 6f92860..33a81dc 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -30,7 +30,7 @@ func main() {
 
 	listSignals := false
 	signal := 15
-	var pid int
+	var pids []int
 	var err error
 	var ok bool
 	for i := 1; i < len(os.Args); i++ {
@@ -52,10 +52,11 @@ func main() {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-				pid, err = strconv.Atoi(a)
+				pid, err := strconv.Atoi(a)
 				if err != nil {
 					errorMsg("expected a PID here..., got %s", a)
 				}
+				pids = append(pids, pid)
 			}
 		}
 	}
@@ -63,12 +64,19 @@ func main() {
 	if listSignals {
 
 	}
-	process, err := os.FindProcess(pid)
-	if err != nil {
-		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
+	if len(pids) == 0 {
+		errorMsg("no process to signal\n")
 	}
-	err = process.Signal(syscall.Signal(signal))
-	if err != nil {
-		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
+	status := 0
+	for _, pid := range pids {
+		process, err := os.FindProcess(pid)
+		if err == nil {
+			err = process.Signal(syscall.Signal(signal))
+		}
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "couldn't send signal %d to %d, %s\n", signal, pid, err)
+			status = 2
+		}
 	}
+	os.Exit(status)
 }
-- 
2.43.0


From ac99f0a6c1e0cb758684be3475c0195c8b6317e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:00 +0000
Subject: [PATCH 21/70] fix: diff exits 2 when a file cannot be read

A missing or unreadable file was compared as if it were empty.
---
 cmd/diff/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index aa59f4f..99f5e1c 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -101,8 +101,16 @@ func main() {
 		os.Exit(1)
 	}
 
-	l1, _ := readLines(settings.file1)
-	l2, _ := readLines(settings.file2)
+	l1, err := readLines(settings.file1)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
+	l2, err := readLines(settings.file2)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
 	changes := diff.Diff(l1, l2)
 
 	fmt.Println(diff.Format(changes))
-- 
2.43.0


From b3e115d7c5f8f573db3018e4abc0304cf0a5bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:00 +0000
Subject: [PATCH 22/70] fix: diff exits 1 for files that differ and prints
 nothing for equal ones

It exited 0 whatever it found and wrote an empty line for equal files; bad
arguments exited 1, the status for files that differ, with the message on
standard output.
---
 cmd/diff/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 99f5e1c..01858ba 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -97,8 +97,8 @@ func readLines(fn string) ([]string, error) {
 func main() {
 	settings, err := parseSettings(os.Args[1:])
 	if err != nil {
-		fmt.Fprintf(os.Stdout, "Oh heck an error: %s\n", err)
-		os.Exit(1)
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
 	}
 
 	l1, err := readLines(settings.file1)
@@ -113,5 +113,8 @@ func main() {
 	}
 	changes := diff.Diff(l1, l2)
 
-	fmt.Println(diff.Format(changes))
+	if out := diff.Format(changes); out != "" {
+		fmt.Println(out)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From f08f5540d5f7e001df6a572ddd6d53d6c80b6b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:00 +0000
Subject: [PATCH 23/70] fix: diff compares whole lines

Carriage returns before a newline were dropped, so files that differ in them
compared equal, and reading stopped at the first line over 64 KiB.
---
 cmd/diff/main.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 01858ba..0ea2e82 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -1,10 +1,11 @@
 package main
 
 import (
-	"bufio"
 	"fmt"
+	"io/ioutil"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/fwip/posix-utils/pkg/diff"
 )
@@ -81,17 +82,11 @@ func parseSettings(args []string) (settings, error) {
 }
 
 func readLines(fn string) ([]string, error) {
-	f, err := os.Open(fn)
-	if err != nil {
+	data, err := ioutil.ReadFile(fn)
+	if err != nil || len(data) == 0 {
 		return nil, err
 	}
-	defer f.Close()
-	scanner := bufio.NewScanner(f)
-	lines := make([]string, 0)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
-	}
-	return lines, scanner.Err()
+	return strings.Split(strings.TrimSuffix(string(data), "\n"), "\n"), nil
 }
 
 func main() {
-- 
2.43.0


From b25e2f58de98df085074be632b7a7470b7447ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 24/70] fix: ed counts lines as they are in the buffer

A blank last line was left out of the line count, so it could not be printed,
deleted or appended to. Carriage returns were dropped from the lengths the
editing commands add up, so in a file with CRLF lines every edit after the
first line hit the wrong bytes. A line over 64 KiB made the editor panic.
---
 pkg/ed/ed.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index df49cf7..27763e4 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -159,20 +159,11 @@ func (ed *Itor) getLineAddr(num int) int {
 
 func (ed *Itor) getLines() (lines []string) {
 	// Retrieve the piece table's output and tokenize into lines
-	s := bufio.NewScanner(strings.NewReader(ed.pt.String()))
-	for s.Scan() {
-		lines = append(lines, s.Text())
+	text := ed.pt.String()
+	if text == "" {
+		return nil
 	}
-	if s.Err() != nil {
-		panic(s.Err())
-	}
-
-	// If there's an empty line at the end, remove it
-	// This happens when the file ends in a newline character
-	if len(lines) > 0 && lines[len(lines)-1] == "" {
-		lines = lines[:len(lines)-1]
-	}
-	return lines
+	return strings.Split(strings.TrimSuffix(text, "\n"), "\n")
 }
 
 func (ed *Itor) regexMatch(re string) (line int, found bool) {
-- 
2.43.0


From 774f26185737ba3affdb05312c729ec327383435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 25/70] fix: ed appends after a last line that has no newline

The position of the line after it was taken to be one past the end of the
buffer, where the piece table panics.
---
 pkg/ed/ed.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 27763e4..99a4a08 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -128,6 +128,11 @@ func (ed *Itor) String() string {
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
 	at := ed.getLineAddr(lineNum)
+	// Text added after an unterminated last line starts on a line of its own
+	if end := len(ed.pt.String()); at > end {
+		text = "\n" + text
+		at = end
+	}
 	ed.pt.Insert([]byte(text+"\n"), at)
 }
 
-- 
2.43.0


From b1152ed05750fb3c34a1f9595a784eae09cc477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 26/70] fix: the text of an empty ed buffer is empty

String indexed the last byte of the buffer, which an empty one does not have.
---
 pkg/ed/ed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 99a4a08..ee7db0a 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -120,7 +120,7 @@ func (ed *Itor) number(start, end int) string {
 func (ed *Itor) String() string {
 	s := ed.pt.String()
 	// POSIX requires a file to end with a newline
-	if s[len(s)-1] != '\n' {
+	if len(s) > 0 && s[len(s)-1] != '\n' {
 		s += "\n"
 	}
 	return s
-- 
2.43.0


From 3f59cf893ff8620da904a5cd6360afe01d1a43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:39 +0000
Subject: [PATCH 27/70] fix: ed takes text with non-ASCII characters as it was
 typed

The parser counts characters, but the actions cut the command out of the
string by bytes: every multi-byte character cut a byte off the end of the
text, file name or address. The parser already provides the right piece.
---
 pkg/ed/ed.peg    | 16 ++++++++--------
 pkg/ed/ed.peg.go | 32 ++++++++++++++++----------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 26da4ad..164fa99 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -38,19 +38,19 @@ addTextCmd <- startAddr? addTextC newLine text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
-  p.curCmd.params = []string{buffer[begin:end]}
+  p.curCmd.params = []string{text}
 }
 
 destCmd <- range? destC <addrO> {p.curCmd.dest = p.curAddr ; p.curAddr = address{}}
 
 readCmd <- startAddr? 'r' sp <param> {
   p.curCmd.typ = ctread
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 writeCmd <- range? 'w' sp <param> {
   p.curCmd.typ = ctwrite
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
           / range? 'w' {
   p.curCmd.typ = ctwrite
@@ -58,13 +58,13 @@ writeCmd <- range? 'w' sp <param> {
 
 shellCmd <- '!' <param> {
   p.curCmd.typ = ctshell
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}
 
 textTerm <- '\n.'
 
@@ -81,14 +81,14 @@ range <- startAddr ',' endAddr
        / sp* ';' sp*           {p.curCmd.start = aCur; p.curCmd.end = aLast}
 
 
-addrCmd <- <startAddr> addrC {p.curCmd.start.text = buffer[begin:end]}
+addrCmd <- <startAddr> addrC {p.curCmd.start.text = text}
          / addrC
 
 # Addresses
 startAddr <- sp* addrO sp* {p.curCmd.start = p.curAddr; p.curAddr = address{}}
 endAddr <- sp* addrO sp* {p.curCmd.end = p.curAddr; p.curAddr = address{}}
 
-addrO <- <addr offset?>  {p.curAddr.text = buffer[begin:end]}
+addrO <- <addr offset?>  {p.curAddr.text = text}
 
 addr <- literalAddr
       / markAddr
@@ -120,7 +120,7 @@ bareCmd <- 'h' {p.curCmd.typ = cthelp}
 
 offset <- ('+'/'-') [0-9]*
 
-paramCmd <- paramC sp <param> { p.curCmd.params = []string{buffer[begin:end]}}
+paramCmd <- paramC sp <param> { p.curCmd.params = []string{text}}
           / paramC
 
 paramC <- 'e' {p.curCmd.typ = ctedit}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 5882678..d37e3fa 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -422,7 +422,7 @@ func (p *Parser) Execute() {
 		case ruleAction2:
 
 			p.curCmd.typ = ctmark
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 
 		case ruleAction3:
 			p.curCmd.dest = p.curAddr
@@ -430,12 +430,12 @@ func (p *Parser) Execute() {
 		case ruleAction4:
 
 			p.curCmd.typ = ctread
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction5:
 
 			p.curCmd.typ = ctwrite
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction6:
 
@@ -444,10 +444,10 @@ func (p *Parser) Execute() {
 		case ruleAction7:
 
 			p.curCmd.typ = ctshell
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction8:
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 			fmt.Println("t", p.curCmd.text)
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
@@ -466,7 +466,7 @@ func (p *Parser) Execute() {
 			p.curCmd.start = aCur
 			p.curCmd.end = aLast
 		case ruleAction16:
-			p.curCmd.start.text = buffer[begin:end]
+			p.curCmd.start.text = text
 		case ruleAction17:
 			p.curCmd.start = p.curAddr
 			p.curAddr = address{}
@@ -474,7 +474,7 @@ func (p *Parser) Execute() {
 			p.curCmd.end = p.curAddr
 			p.curAddr = address{}
 		case ruleAction19:
-			p.curAddr.text = buffer[begin:end]
+			p.curAddr.text = text
 		case ruleAction20:
 			p.curAddr.typ = lCurrent
 		case ruleAction21:
@@ -500,7 +500,7 @@ func (p *Parser) Execute() {
 		case ruleAction31:
 			p.curCmd.typ = ctundo
 		case ruleAction32:
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 		case ruleAction33:
 			p.curCmd.typ = ctedit
 		case ruleAction34:
@@ -2251,7 +2251,7 @@ func (p *Parser) Init() {
 		nil,
 		/* 42 Action2 <- <{
 		  p.curCmd.typ = ctmark
-		  p.curCmd.params = []string{buffer[begin:end]}
+		  p.curCmd.params = []string{text}
 		}> */
 		func() bool {
 			{
@@ -2268,7 +2268,7 @@ func (p *Parser) Init() {
 		},
 		/* 44 Action4 <- <{
 		  p.curCmd.typ = ctread
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2278,7 +2278,7 @@ func (p *Parser) Init() {
 		},
 		/* 45 Action5 <- <{
 		  p.curCmd.typ = ctwrite
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2297,7 +2297,7 @@ func (p *Parser) Init() {
 		},
 		/* 47 Action7 <- <{
 		  p.curCmd.typ = ctshell
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2305,7 +2305,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}> */
+		/* 48 Action8 <- <{p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
@@ -2361,7 +2361,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 56 Action16 <- <{p.curCmd.start.text = buffer[begin:end]}> */
+		/* 56 Action16 <- <{p.curCmd.start.text = text}> */
 		func() bool {
 			{
 				add(ruleAction16, position)
@@ -2382,7 +2382,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 59 Action19 <- <{p.curAddr.text = buffer[begin:end]}> */
+		/* 59 Action19 <- <{p.curAddr.text = text}> */
 		func() bool {
 			{
 				add(ruleAction19, position)
@@ -2473,7 +2473,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 72 Action32 <- <{ p.curCmd.params = []string{buffer[begin:end]}}> */
+		/* 72 Action32 <- <{ p.curCmd.params = []string{text}}> */
 		func() bool {
 			{
 				add(ruleAction32, position)
-- 
2.43.0


From 91fd4ed5511ee071e85d4fce523e807b34618677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:40 +0000
Subject: [PATCH 28/70] fix: only a line that is just a period ends ed's text
 input

The grammar took any line of text that starts with a period for the end: the
command failed, or, when only blanks follow the period, the rest of the text
was run as commands.
---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 164fa99..13a42c0 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -66,7 +66,7 @@ nullCmd <- startAddr?
 
 text <- <(!textTerm .)*> textTerm {p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}
 
-textTerm <- '\n.'
+textTerm <- '\n.' &newLine
 
 rangeCmd <- range? sp* rangeC
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index d37e3fa..ac723b8 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -1084,7 +1084,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position64, tokenIndex64
 			return false
 		},
-		/* 12 textTerm <- <('\n' '.')> */
+		/* 12 textTerm <- <('\n' '.' &newLine)> */
 		func() bool {
 			position70, tokenIndex70 := position, tokenIndex
 			{
@@ -1097,6 +1097,13 @@ func (p *Parser) Init() {
 					goto l70
 				}
 				position++
+				{
+					positionNL, tokenIndexNL := position, tokenIndex
+					if !_rules[rulenewLine]() {
+						goto l70
+					}
+					position, tokenIndex = positionNL, tokenIndexNL
+				}
 				add(ruletextTerm, position71)
 			}
 			return true
-- 
2.43.0


From cedc5e8f982338d31dc0c57e2667039bd7fe124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:54 +0000
Subject: [PATCH 29/70] fix: ed's standard output holds only what the commands
 print

Traces of the parser and of every command were printed among the output.
---
 pkg/ed/ed.go     | 5 ++---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 3 +--
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ee7db0a..2e44498 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -52,7 +52,6 @@ func (ed *Itor) Write() error {
 	var err error
 
 	tmpName := ed.filename + ".swp"
-	fmt.Printf("f is '%s', tmp is '%s'\n", ed.filename, tmpName)
 
 	stat, err := os.Stat(ed.filename)
 	if err != nil {
@@ -235,13 +234,13 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			p.Execute()
 		}
 		if s.Err() != nil {
-			fmt.Println("Err:", s.Err())
+			debug("Err:", s.Err())
 		}
 		close(cmds)
 	}()
 
 	for cmd := range cmds {
-		fmt.Println("cmd", cmd)
+		debug("cmd", cmd)
 		// Special-case quit command for now
 		if cmd.typ == ctquit {
 			break // TODO: checking
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 13a42c0..68a100f 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -64,7 +64,7 @@ shellCmd <- '!' <param> {
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
 textTerm <- '\n.' &newLine
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index ac723b8..a863b50 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -448,7 +448,6 @@ func (p *Parser) Execute() {
 
 		case ruleAction8:
 			p.curCmd.text = text
-			fmt.Println("t", p.curCmd.text)
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -2312,7 +2311,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}> */
+		/* 48 Action8 <- <{p.curCmd.text = text}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
-- 
2.43.0


From a2b1d6301e6fc13ac8ca4f92c4891e66755c51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:19 +0000
Subject: [PATCH 30/70] fix: ed answers its commands in the order it read them

Commands were parsed in a second goroutine that wrote the answer to a line it
could not parse straight to the output, while the commands before it were
still being run: answers came out of order, two goroutines wrote to the same
writer at once, and lines after q could still be answered.
---
 pkg/ed/ed.go | 70 +++++++++++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 2e44498..8e7b8e9 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -204,49 +204,47 @@ func (ed *Itor) Quit(force bool) error {
 func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 
 	ed.currentLine = len(ed.getLines())
-	cmds := make(chan Command)
-
-	go func() {
-		s := bufio.NewScanner(r)
-		for s.Scan() {
-			cmd := s.Text()
-
-			// Handle multi-line commands
-			if multlineCmdStart.Match([]byte(cmd)) {
-				for s.Scan() {
-					cmd += "\n" + s.Text()
-					if s.Text() == "." {
-						break
-					}
-				}
-			}
 
-			debug("line", cmd)
-			p := &Parser{Buffer: cmd + "\n", Out: chan<- Command(cmds)}
-			p.Init()
-			err := p.Parse()
-			if err != nil {
-				//fmt.Println("Err!", err)
-				w.Write([]byte("?" + err.Error() + "\n"))
-				//close(cmds)
-				continue
+	s := bufio.NewScanner(r)
+	for s.Scan() {
+		cmd := s.Text()
+
+		// Handle multi-line commands
+		if multlineCmdStart.Match([]byte(cmd)) {
+			for s.Scan() {
+				cmd += "\n" + s.Text()
+				if s.Text() == "." {
+					break
+				}
 			}
-			p.Execute()
 		}
-		if s.Err() != nil {
-			debug("Err:", s.Err())
+
+		debug("line", cmd)
+		// The parser emits at most one command for each line
+		cmds := make(chan Command, strings.Count(cmd, "\n")+1)
+		p := &Parser{Buffer: cmd + "\n", Out: chan<- Command(cmds)}
+		p.Init()
+		err := p.Parse()
+		if err != nil {
+			//fmt.Println("Err!", err)
+			w.Write([]byte("?" + err.Error() + "\n"))
+			continue
 		}
+		p.Execute()
 		close(cmds)
-	}()
 
-	for cmd := range cmds {
-		debug("cmd", cmd)
-		// Special-case quit command for now
-		if cmd.typ == ctquit {
-			break // TODO: checking
+		for cmd := range cmds {
+			debug("cmd", cmd)
+			// Special-case quit command for now
+			if cmd.typ == ctquit {
+				return // TODO: checking
+			}
+			result := ed.processCommand(cmd)
+			w.Write([]byte(result + "\n"))
 		}
-		result := ed.processCommand(cmd)
-		w.Write([]byte(result + "\n"))
+	}
+	if s.Err() != nil {
+		debug("Err:", s.Err())
 	}
 }
 
-- 
2.43.0


From 979601ca5c1b596cc4ca66ae8b66eefdd689d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 31/70] fix: ed keeps the text it is given whole

Lines of text lost a carriage return at their end, and a line over 64 KiB
ended the session and dropped the text and every command after it.
---
 pkg/ed/ed.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 8e7b8e9..1ecf3fd 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"os"
 	"regexp"
 	"strconv"
@@ -199,6 +200,17 @@ func (ed *Itor) Quit(force bool) error {
 	return nil
 }
 
+// scanLines splits the input into lines, like bufio.ScanLines, but keeps a carriage return before the newline
+func scanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	if i := bytes.IndexByte(data, '\n'); i >= 0 {
+		return i + 1, data[:i], nil
+	}
+	if atEOF && len(data) > 0 {
+		return len(data), data, nil
+	}
+	return 0, nil, nil
+}
+
 // ProcessCommands is the main entry point for an interpreter
 // Blocks until all commands have been processed
 func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
@@ -206,6 +218,8 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	ed.currentLine = len(ed.getLines())
 
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt32)
+	s.Split(scanLines)
 	for s.Scan() {
 		cmd := s.Text()
 
-- 
2.43.0


From c897ef7b1a8bde41d27a382b5e871c359234bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 32/70] fix: ed honours the offset of an address

An offset was parsed but never used: $-1d deleted the last line, .+1p printed
the current one, and 2+1p addressed line 0. Blanks after the number in '2 ='
made it line 0 as well.
---
 pkg/ed/ed.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 1ecf3fd..b1f54f3 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -262,19 +262,36 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	}
 }
 
+// splitOffset cuts the offset off the end of an address, as in $-1 or /re/+
+func splitOffset(text string) (base string, offset int) {
+	text = strings.TrimSpace(text)
+	base = strings.TrimRight(text, "0123456789")
+	if base == "" || (base[len(base)-1] != '+' && base[len(base)-1] != '-') {
+		return text, 0
+	}
+	base = base[:len(base)-1]
+	num := text[len(base):]
+	if len(num) == 1 {
+		num += "1"
+	}
+	offset, _ = strconv.Atoi(num)
+	return base, offset
+}
+
 func (ed *Itor) addrLine(a address) int {
 	var line int
+	base, offset := splitOffset(a.text)
 	switch a.typ {
 	case lCurrent:
 		line = ed.currentLine
 	case lNum:
-		n, _ := strconv.Atoi(a.text)
+		n, _ := strconv.Atoi(base)
 		line = n
 	case lLast:
 		n := len(ed.getLines())
 		line = n
 	case lRegex:
-		regex := strings.Trim(a.text, "/")
+		regex := base[1 : len(base)-1]
 		n, found := ed.regexMatch(regex)
 		line = n
 		if !found {
@@ -287,7 +304,7 @@ func (ed *Itor) addrLine(a address) int {
 		panic("Dunno a bout address")
 	}
 
-	return line + a.offset
+	return line + offset + a.offset
 }
 
 func linesIn(s string) int {
-- 
2.43.0


From 66500c81a3987c44be76a533af779bba615f322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 33/70] fix: ed checks a command's addresses before it acts on
 them

A line number outside the buffer, a range that ends before it starts, an
address of an unsupported kind or a pattern that matches nothing crashed the
editor and took the unsaved buffer with it; now they are answered with ?.

Addresses were also worked out again after the buffer had been changed: $c put
the new text before the line that had become the last one.
---
 pkg/ed/ed.go | 60 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index b1f54f3..fd376eb 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -278,7 +278,7 @@ func splitOffset(text string) (base string, offset int) {
 	return base, offset
 }
 
-func (ed *Itor) addrLine(a address) int {
+func (ed *Itor) addrLine(a address) (int, error) {
 	var line int
 	base, offset := splitOffset(a.text)
 	switch a.typ {
@@ -295,16 +295,16 @@ func (ed *Itor) addrLine(a address) int {
 		n, found := ed.regexMatch(regex)
 		line = n
 		if !found {
-			debug("oh no we don't have any way to communicate the invalid address")
+			return 0, fmt.Errorf("no match")
 		}
 	//case lRegexReverse:
 	//n := ed.regexMatchReverse(a.text)
 	//line = n
 	default:
-		panic("Dunno a bout address")
+		return 0, fmt.Errorf("Dunno a bout address")
 	}
 
-	return line + offset + a.offset
+	return line + offset + a.offset, nil
 }
 
 func linesIn(s string) int {
@@ -318,9 +318,32 @@ func linesIn(s string) int {
 }
 
 func (ed *Itor) processCommand(cmd Command) string {
-	var err error
-
 	cmd = setDefaultAddresses(cmd)
+	start, err := ed.addrLine(cmd.start)
+	if err != nil {
+		return "?" + err.Error()
+	}
+	end := start
+	if cmd.end.typ != lNull {
+		end, err = ed.addrLine(cmd.end)
+		if err != nil {
+			return "?" + err.Error()
+		}
+	}
+
+	// The lines a command may address
+	first, last := 1, len(ed.getLines())
+	switch cmd.typ {
+	case ctappend, ctinsert, ctlineNumber:
+		first = 0
+	case ctprint, ctnumber, ctnull, ctdelete, ctchange:
+	default:
+		first, last = start, end
+	}
+	if start < first || end < start || end > last {
+		return "?invalid address"
+	}
+
 	switch cmd.typ {
 	case ctedit:
 		var filename string
@@ -333,14 +356,13 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
-		return ed.Print(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		return ed.Print(start, end)
 
 	case ctnumber:
-		return ed.number(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		return ed.number(start, end)
 	case ctnull:
-		lineNum := ed.addrLine(cmd.start)
-		ed.currentLine = lineNum
-		return ed.Print(lineNum, lineNum)
+		ed.currentLine = start
+		return ed.Print(start, start)
 
 	case ctwrite:
 		err = ed.Write()
@@ -349,30 +371,30 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctdelete:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		err := ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.currentLine = ed.addrLine(cmd.start)
+		ed.currentLine = start
 
 	case ctappend:
-		start := ed.addrLine(cmd.start) + 1
+		start++
 		ed.insertBeforeLine(start, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinsert:
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
 
 	case ctchange:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		err := ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
-		ed.currentLine = ed.addrLine(cmd.start) + linesIn(cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctlineNumber:
-		return strconv.Itoa(ed.addrLine(cmd.start))
+		return strconv.Itoa(start)
 
 	default:
 		return "? (NYI)"
-- 
2.43.0


From 28619cb01158ab4dfd4cfac5afac367bdd715b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:44 +0000
Subject: [PATCH 34/70] fix: ed's current line follows POSIX

p and n leave the last line they wrote current, d the line after the deleted
ones (or the new last line), and a, i and c the last line they added.
---
 pkg/ed/ed.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index fd376eb..14b4bfe 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -356,9 +356,11 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
+		ed.currentLine = end
 		return ed.Print(start, end)
 
 	case ctnumber:
+		ed.currentLine = end
 		return ed.number(start, end)
 	case ctnull:
 		ed.currentLine = start
@@ -376,14 +378,22 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.currentLine = start
+		// The lines after it are gone as well, so it is the new last line
+		if end == last {
+			ed.currentLine = start - 1
+		}
 
 	case ctappend:
 		start++
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text)
+		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctinsert:
+		if start == 0 {
+			start = 1
+		}
 		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctchange:
 		err := ed.Delete(start, end)
@@ -391,7 +401,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text)
+		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctlineNumber:
 		return strconv.Itoa(start)
-- 
2.43.0


From 383d62bbabbc5810cf71ec7663db9c197017d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:46 +0000
Subject: [PATCH 35/70] fix: an ed search looks at each line once

It divided by zero in an empty buffer, and went around for ever when the
current line was line 0.
---
 pkg/ed/ed.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 14b4bfe..8627014 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -179,15 +179,12 @@ func (ed *Itor) regexMatch(re string) (line int, found bool) {
 		debug(err)
 		return -1, false
 	}
-	n := (ed.currentLine % len(lines)) + 1
-	for ; ; n = (n % len(lines)) + 1 {
-		debug("n is", n)
+	// Look at every line once, from the one after the current line on
+	for i := range lines {
+		n := (ed.currentLine+i)%len(lines) + 1
 		if regex.Match([]byte(lines[n-1])) {
 			return n, true
 		}
-		if n == ed.currentLine {
-			return -1, false
-		}
 	}
 	return -1, false
 }
-- 
2.43.0


From f10bc9704b2018dea33c48658d8bd028ef90e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:26 +0000
Subject: [PATCH 36/70] fix: ed reads text after a, i and c whatever their
 address looks like

With an address such as /re/, .+1 or 1;2 the lines of text were executed as
commands.
---
 pkg/ed/ed.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 8627014..3737a63 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -15,8 +15,10 @@ import (
 	"github.com/fwip/posix-utils/pkg/txt"
 )
 
-// TODO: This is not comprehensive.
-var multlineCmdStart = regexp.MustCompile(`^\s*[0-9.$]*\s*,?\s*[0-9.$]*\s*[aic]\s*$`)
+// The start of a command which is followed by text
+var multlineCmdStart = regexp.MustCompile(`^\s*` + addrPattern + `?\s*[,;]?\s*` + addrPattern + `?\s*[aic]\s*$`)
+
+const addrPattern = `(([0-9]+|[.$]|'[a-z]|/(\\/|[^/])*[^/\\]/|\?(\\\?|[^?])*[^?\\]\?)([+-][0-9]*)?)`
 
 func debug(args ...interface{}) {
 	fmt.Fprintln(os.Stderr, args...)
-- 
2.43.0


From f3afaee85da41b4c9048ede9e682fb8cd928568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:10 +0000
Subject: [PATCH 37/70] fix: ed evaluates an address after a semicolon from the
 first address

---
 pkg/ed/command.go |  3 +++
 pkg/ed/ed.go      |  8 ++++++++
 pkg/ed/ed.peg     |  2 +-
 pkg/ed/ed.peg.go  | 18 ++++++++++++++++--
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index 0df7ebe..425b75f 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -8,6 +8,9 @@ type Command struct {
 	dest   address
 	text   string
 	params []string
+
+	// The second address is relative to the first
+	semicolon bool
 }
 
 type cmdType byte
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 3737a63..1e796da 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -324,7 +324,15 @@ func (ed *Itor) processCommand(cmd Command) string {
 	}
 	end := start
 	if cmd.end.typ != lNull {
+		current := ed.currentLine
+		if cmd.semicolon {
+			if start < 0 {
+				return "?invalid address"
+			}
+			ed.currentLine = start
+		}
 		end, err = ed.addrLine(cmd.end)
+		ed.currentLine = current
 		if err != nil {
 			return "?" + err.Error()
 		}
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 68a100f..6376f2f 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -73,7 +73,7 @@ rangeCmd <- range? sp* rangeC
 range <- startAddr ',' endAddr
        / startAddr ',' sp*     {p.curCmd.end = p.curCmd.start}
        / ',' endAddr sp*       {p.curCmd.start = aFirst}
-       / startAddr ';' endAddr
+       / startAddr ';' endAddr {p.curCmd.semicolon = true}
        / startAddr ';' sp*     {p.curCmd.end = p.curCmd.start}
        / ';' endAddr sp*       {p.curCmd.start = aCur}
        / startAddr sp*         {p.curCmd.end = p.curCmd.start}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index a863b50..af504b7 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -104,6 +104,7 @@ const (
 	ruleAction44
 	ruleAction45
 	ruleAction46
+	ruleAction47
 )
 
 var rul3s = [...]string{
@@ -194,6 +195,7 @@ var rul3s = [...]string{
 	"Action44",
 	"Action45",
 	"Action46",
+	"Action47",
 }
 
 type token32 struct {
@@ -316,7 +318,7 @@ type Parser struct {
 
 	Buffer string
 	buffer []rune
-	rules  [87]func() bool
+	rules  [88]func() bool
 	parse  func(rule ...int) error
 	reset  func()
 	Pretty bool
@@ -528,6 +530,8 @@ func (p *Parser) Execute() {
 			p.curCmd.typ = ctmove
 		case ruleAction46:
 			p.curCmd.typ = ctcopy
+		case ruleAction47:
+			p.curCmd.semicolon = true
 
 		}
 	}
@@ -1145,7 +1149,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position72, tokenIndex72
 			return false
 		},
-		/* 14 range <- <((startAddr ',' endAddr) / (startAddr ',' Action9) / (',' endAddr Action10) / (startAddr ';' endAddr) / (startAddr ';' Action11) / (';' endAddr Action12) / (startAddr Action13) / (',' Action14) / (';' Action15))> */
+		/* 14 range <- <((startAddr ',' endAddr) / (startAddr ',' Action9) / (',' endAddr Action10) / (startAddr ';' endAddr Action47) / (startAddr ';' Action11) / (';' endAddr Action12) / (startAddr Action13) / (',' Action14) / (';' Action15))> */
 		func() bool {
 			position78, tokenIndex78 := position, tokenIndex
 			{
@@ -1201,6 +1205,9 @@ func (p *Parser) Init() {
 					if !_rules[ruleendAddr]() {
 						goto l84
 					}
+					if !_rules[ruleAction47]() {
+						goto l84
+					}
 					goto l80
 				l84:
 					position, tokenIndex = position80, tokenIndex80
@@ -2584,6 +2591,13 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
+		/* 87 Action47 <- <{p.curCmd.semicolon = true}> */
+		func() bool {
+			{
+				add(ruleAction47, position)
+			}
+			return true
+		},
 	}
 	p.rules = _rules
 }
-- 
2.43.0


From 8eb108496e14c4bba8001c6f9fa8f996b77a803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:30 +0000
Subject: [PATCH 38/70] fix: ed's buffer is a copy of the file it edits

It read the file when it needed the text, and panicked when that failed, as
with a directory or a file that was truncated in the meantime. A failing e is
answered with ? like other errors.
---
 pkg/ed/ed.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 1e796da..78f76a8 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -84,20 +84,16 @@ func (ed *Itor) Edit(filename string, force bool) error {
 	if !force && ed.unsaved() {
 		panic("oh no you haven't saved")
 	}
-	f, err := os.Open(filename)
+	// The buffer is a copy: what happens to the file later does not change it
+	data, err := ioutil.ReadFile(filename)
 	if err != nil {
-		debug("cannae open", err)
-		return err
-	}
-	stat, err := f.Stat()
-	if err != nil {
-		debug("cannae stat", err)
+		debug("cannae read", err)
 		return err
 	}
 
 	debug("setting filename")
 	ed.filename = filename
-	ed.pt = txt.NewPieceTable(f, int(stat.Size()))
+	ed.pt = txt.NewPieceTable(bytes.NewReader(data), len(data))
 	ed.currentLine = len(ed.getLines())
 
 	return nil
@@ -359,7 +355,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 		err = ed.Edit(filename, false)
 		if err != nil {
-			return err.Error()
+			return "?" + err.Error()
 		}
 
 	case ctprint:
-- 
2.43.0


From e1ed425fb9ad7ffc55801a3da2e7e5aad11978b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:31 +0000
Subject: [PATCH 39/70] fix: ed keeps its buffer and its current line when it
 writes

A write closed the file under the buffer before it could fail, and the
current line was moved to the last line.
---
 pkg/ed/ed.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 78f76a8..6569995 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -50,7 +50,6 @@ func (ed *Itor) closeFile() error {
 
 func (ed *Itor) Write() error {
 	data := ed.pt.String()
-	ed.closeFile()
 
 	var err error
 
@@ -75,7 +74,7 @@ func (ed *Itor) Write() error {
 		return err
 	}
 
-	return ed.Edit(ed.filename, false)
+	return nil
 }
 
 // Edit opens a new file to edit!
-- 
2.43.0


From fae08c972924c7dbae57d0625701cf9650aa6238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:15 +0000
Subject: [PATCH 40/70] fix: ed's w writes the lines and to the file it is
 given

It ignored both and overwrote the edited file with the whole buffer.
---
 pkg/ed/address.go |  2 +-
 pkg/ed/ed.go      | 48 ++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/pkg/ed/address.go b/pkg/ed/address.go
index cb5d4d8..7826a07 100644
--- a/pkg/ed/address.go
+++ b/pkg/ed/address.go
@@ -92,7 +92,7 @@ var defaultAddresses = [...][2]address{
 	{aCur, aCur},               // ctundo
 	{aCur, aLast},              // ctglobalInverse
 	{aCur, aLast},              // ctinteractiveInverse
-	{aCur, aLast},              // ctwrite
+	{aFirst, aLast},            // ctwrite
 	{aLast, aLast},             // ctlineNumber
 	{aCur, aCur},               // ctshell
 }
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 6569995..b842325 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -48,27 +48,32 @@ func (ed *Itor) closeFile() error {
 	return nil
 }
 
+// Write replaces the edited file with the whole buffer
 func (ed *Itor) Write() error {
-	data := ed.pt.String()
+	return ed.writeFile(ed.filename, ed.pt.String())
+}
 
+func (ed *Itor) writeFile(filename string, data string) error {
 	var err error
 
-	tmpName := ed.filename + ".swp"
+	tmpName := filename + ".swp"
 
-	stat, err := os.Stat(ed.filename)
-	if err != nil {
-		debug("cannae stat", ed.filename)
+	mode := os.FileMode(0666)
+	stat, err := os.Stat(filename)
+	if err == nil {
+		mode = stat.Mode()
+	} else if filename == "" || !os.IsNotExist(err) {
+		debug("cannae stat", filename)
 		return err
 	}
-	mode := stat.Mode()
 	//defer os.Remove(tmp.Name())
 
-	err = ioutil.WriteFile(tmpName, []byte(data), os.FileMode(mode))
+	err = ioutil.WriteFile(tmpName, []byte(data), mode)
 	if err != nil {
 		os.Remove(tmpName)
 		return err
 	}
-	err = os.Rename(tmpName, ed.filename)
+	err = os.Rename(tmpName, filename)
 	if err != nil {
 		os.Remove(tmpName)
 		return err
@@ -104,6 +109,16 @@ func (ed *Itor) Print(start, end int) string {
 	return strings.Join(lines[start-1:end], "\n")
 }
 
+// rawLines returns some lines with their newlines, as they are in the buffer
+func (ed *Itor) rawLines(start, end int) string {
+	text := ed.pt.String()
+	to := ed.getLineAddr(end + 1)
+	if to > len(text) {
+		to = len(text)
+	}
+	return text[ed.getLineAddr(start):to]
+}
+
 func (ed *Itor) number(start, end int) string {
 	lines := ed.getLines()
 	out := ""
@@ -339,6 +354,11 @@ func (ed *Itor) processCommand(cmd Command) string {
 	case ctappend, ctinsert, ctlineNumber:
 		first = 0
 	case ctprint, ctnumber, ctnull, ctdelete, ctchange:
+	case ctwrite:
+		// The whole of an empty buffer is no lines
+		if last == 0 && start == 1 && end == 0 {
+			first, start = 0, 0
+		}
 	default:
 		first, last = start, end
 	}
@@ -369,10 +389,20 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return ed.Print(start, start)
 
 	case ctwrite:
-		err = ed.Write()
+		filename := cmd.text
+		if strings.HasPrefix(filename, "!") {
+			return "? (NYI)"
+		}
+		if filename == "" {
+			filename = ed.filename
+		}
+		err = ed.writeFile(filename, ed.rawLines(start, end))
 		if err != nil {
 			return "?" + err.Error()
 		}
+		if ed.filename == "" {
+			ed.filename = filename
+		}
 
 	case ctdelete:
 		err := ed.Delete(start, end)
-- 
2.43.0


From bc37a614bc3ffe8f1af539d0e7ae150d2fb8f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:15 +0000
Subject: [PATCH 41/70] fix: ed's w keeps the permissions of the file it
 replaces

---
 pkg/ed/ed.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index b842325..ed1548e 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -73,6 +73,14 @@ func (ed *Itor) writeFile(filename string, data string) error {
 		os.Remove(tmpName)
 		return err
 	}
+	if stat != nil {
+		// The umask does not apply to a file that is there already
+		err = os.Chmod(tmpName, mode)
+		if err != nil {
+			os.Remove(tmpName)
+			return err
+		}
+	}
 	err = os.Rename(tmpName, filename)
 	if err != nil {
 		os.Remove(tmpName)
-- 
2.43.0


From 1070fef93e83b1cf5f70473d7af8d5637b3da20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:16 +0000
Subject: [PATCH 42/70] fix: an era whose offset is not a number is an error

---
 pkg/locale/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/time.go b/pkg/locale/time.go
index ffeb1c7..dc76f38 100644
--- a/pkg/locale/time.go
+++ b/pkg/locale/time.go
@@ -65,7 +65,7 @@ func NewEra(input string) (Era, error) {
 	// Offset
 	offset, err := strconv.Atoi(parts[1])
 	if err != nil {
-		return Era{}, nil
+		return Era{}, fmt.Errorf("offset '%s' is not a number", parts[1])
 	}
 	era.offset = offset
 
-- 
2.43.0


From ec2e0a4b160467e426c4c4a317838ac6fe9a9d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:17 +0000
Subject: [PATCH 43/70] fix: reading a malformed locale definition comes to an
 end

An unterminated string or an unknown LC_COLLATE keyword was read for ever.
---
 pkg/locale/localelex.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 45bedc3..5306792 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -340,7 +340,7 @@ func grabString(l *lexer.L) (ok bool) {
 			l.Emit('"')
 			return true
 		}
-		if r == '\n' {
+		if r == '\n' || r == lexer.EOFRune {
 			l.Error(fmt.Sprintf("Aww jeez. Got a newline before an end quote"))
 			return false
 		}
@@ -369,7 +369,11 @@ func grabMsg(l *lexer.L) (ok bool) {
 		return false
 	}
 	l.Emit('"')
-	for l.Next() != '"' {
+	for r := l.Next(); r != '"'; r = l.Next() {
+		if r == lexer.EOFRune {
+			l.Error("no end quote")
+			return false
+		}
 	}
 	l.Rewind()
 	l.Emit(EXTENDED_REG_EXP)
@@ -416,6 +420,9 @@ func sCollateCategory(l *lexer.L) lexer.StateFunc {
 		must(grabString, l)
 		grabWhitespace(l)
 		must(grabNewline, l)
+	default:
+		l.Error(fmt.Sprintf("unexpected keyword '%s'", word))
+		return nil
 	}
 
 	return sCollateCategory
@@ -434,6 +441,9 @@ func sCollateOrderStart(l *lexer.L) lexer.StateFunc {
 		l.Emit(BACKWARD_STR)
 	case "position":
 		l.Emit(POSITION_STR)
+	default:
+		l.Error(fmt.Sprintf("unexpected keyword '%s'", l.Current()))
+		return nil
 	}
 	return sCollateOrderStart
 }
-- 
2.43.0


From 10e3f1218dd49a5fac2abce591878f598333ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:17 +0000
Subject: [PATCH 44/70] fix: a locale definition with an unknown category is an
 error

The category and all that followed it was left out.
---
 pkg/locale/localelex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 5306792..fe32e7e 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -155,6 +155,9 @@ func sCategory(l *lexer.L) lexer.StateFunc {
 		next = getsGenericCategory(header, typ, msgMap)
 	}
 	if next == nil {
+		if header != "" || l.Peek() != lexer.EOFRune {
+			l.Error(fmt.Sprintf("unexpected category '%s'", header))
+		}
 		return nil
 	}
 	l.Emit(typ)
-- 
2.43.0


From 49530f17b216b51893e4e01ce922400927af8f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:18 +0000
Subject: [PATCH 45/70] fix: a locale definition may begin with empty lines

---
 pkg/locale/localelex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index fe32e7e..ebd4d96 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -125,6 +125,9 @@ func (l *Lexer) Lex(lval *yySymType) int {
 // sInit is the starting function for most lexers
 func sInit(l *lexer.L) lexer.StateFunc {
 	// We don't do escape/comment char processing here because it's preprocessed
+	// Empty lines are ignored
+	l.Take(newLine)
+	l.Ignore()
 	return sCategory
 }
 
-- 
2.43.0


From 27834a9343c0de163fdd11989dec0512d101a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:42 +0000
Subject: [PATCH 46/70] fix: ed keeps text that is not valid UTF-8 as it is

---
 pkg/ed/ed.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ed1548e..20a15d4 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -241,12 +241,14 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 		cmd := s.Text()
 
 		// Handle multi-line commands
+		var text []string
 		if multlineCmdStart.Match([]byte(cmd)) {
 			for s.Scan() {
 				cmd += "\n" + s.Text()
 				if s.Text() == "." {
 					break
 				}
+				text = append(text, s.Text())
 			}
 		}
 
@@ -270,6 +272,10 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			if cmd.typ == ctquit {
 				return // TODO: checking
 			}
+			// The parser replaces bytes that are not valid UTF-8
+			if text != nil {
+				cmd.text = strings.Join(text, "\n")
+			}
 			result := ed.processCommand(cmd)
 			w.Write([]byte(result + "\n"))
 		}
-- 
2.43.0


From f7c9dfaf06b82cc713eee0e059b945c6e12a4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:46 +0000
Subject: [PATCH 47/70] fix: ed's w does not overwrite a file named like its
 temporary file

---
 pkg/ed/ed.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 20a15d4..63417d1 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -68,7 +68,19 @@ func (ed *Itor) writeFile(filename string, data string) error {
 	}
 	//defer os.Remove(tmp.Name())
 
-	err = ioutil.WriteFile(tmpName, []byte(data), mode)
+	// The temporary file must not be one that is there already
+	tmp, err := os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
+	for i := 1; os.IsExist(err); i++ {
+		tmpName = filename + ".swp" + strconv.Itoa(i)
+		tmp, err = os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
+	}
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write([]byte(data))
+	if cerr := tmp.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		os.Remove(tmpName)
 		return err
-- 
2.43.0


From fb3bdd8b47615314f949eee12b576af5e01a459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:03 +0000
Subject: [PATCH 48/70] fix: ed reads text after an address that ends in an
 escaped delimiter

---
 pkg/ed/ed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 63417d1..ee96e23 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -18,7 +18,7 @@ import (
 // The start of a command which is followed by text
 var multlineCmdStart = regexp.MustCompile(`^\s*` + addrPattern + `?\s*[,;]?\s*` + addrPattern + `?\s*[aic]\s*$`)
 
-const addrPattern = `(([0-9]+|[.$]|'[a-z]|/(\\/|[^/])*[^/\\]/|\?(\\\?|[^?])*[^?\\]\?)([+-][0-9]*)?)`
+const addrPattern = `(([0-9]+|[.$]|'[a-z]|/(\\+/|\\*[^/\\])+/|\?(\\+\?|\\*[^?\\])+\?)([+-][0-9]*)?)`
 
 func debug(args ...interface{}) {
 	fmt.Fprintln(os.Stderr, args...)
-- 
2.43.0


From 23938759a167990c8dc1b17715740fe41706a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:54 +0000
Subject: [PATCH 49/70] fix: cksum goes on with the other files after one it
 cannot read

---
 cmd/cksum/main.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index 6514941..a77b0c6 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -6,9 +6,11 @@ import (
 	"os"
 )
 
-func die(format string, args ...interface{}) {
+var status = 0
+
+func fail(format string, args ...interface{}) {
 	fmt.Fprintf(os.Stderr, format, args...)
-	os.Exit(1)
+	status = 1
 }
 
 func run(filename string, label string) {
@@ -16,14 +18,16 @@ func run(filename string, label string) {
 	if filename != "-" {
 		f, err := os.Open(filename)
 		if err != nil {
-			die("couldn't open file %s", err)
+			fail("couldn't open file %s\n", err)
+			return
 		}
 		defer f.Close()
 		reader = f
 	}
 	bytes, err := ioutil.ReadAll(reader)
 	if err != nil {
-		die("couldn't read input %s", err)
+		fail("couldn't read input %s\n", err)
+		return
 	}
 
 	fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
@@ -37,4 +41,5 @@ func main() {
 	for _, f := range files {
 		run(f, " "+f)
 	}
+	os.Exit(status)
 }
-- 
2.43.0


From c3edf67bea6c6ccf68edb6ec68fef538ddb1e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 50/70] fix: head goes on with the other files after one it
 cannot read

---
 cmd/head/main.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 299f514..93faa23 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -39,7 +39,7 @@ func parseSettings(args []string) (settings, error) {
 	return s, nil
 }
 
-func process(s settings) {
+func process(s settings) (status int) {
 
 	for i, filename := range s.filenames {
 		if len(s.filenames) > 1 {
@@ -55,7 +55,9 @@ func process(s settings) {
 		} else {
 			f, err = os.Open(filename)
 			if err != nil {
-				panic(err)
+				fmt.Fprintln(os.Stderr, err)
+				status = 1
+				continue
 			}
 		}
 
@@ -66,10 +68,12 @@ func process(s settings) {
 			fmt.Print(line)
 		}
 		if err != nil && err != io.EOF {
-			panic(err)
+			fmt.Fprintln(os.Stderr, err)
+			status = 1
 		}
 	}
 
+	return status
 }
 
 func main() {
@@ -77,5 +81,5 @@ func main() {
 	if err != nil {
 		panic(err)
 	}
-	process(s)
+	os.Exit(process(s))
 }
-- 
2.43.0


From f0bfe9e344348c341b13d284ac2953bb9ced8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:19 +0000
Subject: [PATCH 51/70] fix: diff counts an empty operand as one

---
 cmd/diff/main.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 0ea2e82..f7d30ed 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -25,6 +25,7 @@ type settings struct {
 func parseSettings(args []string) (settings, error) {
 	s := settings{contextSize: 3}
 	var err error
+	operands := 0
 
 	for i := 0; i < len(args); i++ {
 		a := args[i]
@@ -60,9 +61,9 @@ func parseSettings(args []string) (settings, error) {
 			}
 			i++
 		default:
-			if s.file1 == "" {
+			if operands++; operands == 1 {
 				s.file1 = a
-			} else if s.file2 == "" {
+			} else if operands == 2 {
 				s.file2 = a
 			} else {
 				return s, fmt.Errorf("aww jeez you can only compare two files, %s is the third", a)
@@ -71,10 +72,10 @@ func parseSettings(args []string) (settings, error) {
 
 	}
 
-	if s.file1 == "" {
+	if operands < 1 {
 		return s, fmt.Errorf("oh no you forgot to give any files")
 	}
-	if s.file2 == "" {
+	if operands < 2 {
 		return s, fmt.Errorf("oh no you forgot to give the second file")
 	}
 
-- 
2.43.0


From e6f01048fbad262c1aebaa1754ac1393e835bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:33 +0000
Subject: [PATCH 52/70] fix: tsort takes words of any length

---
 cmd/tsort/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index a131ccb..e3c4030 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/fwip/posix-utils/pkg/tsort"
@@ -18,6 +19,7 @@ func run(input io.Reader, output io.Writer) {
 	var sorter tsort.Sorter
 	scanner := bufio.NewScanner(input)
 	scanner.Split(bufio.ScanWords)
+	scanner.Buffer(nil, math.MaxInt32) // words may be of any length
 
 	for scanner.Scan() {
 		w1 := scanner.Text()
-- 
2.43.0


From 6f014a1b80d47b7d0c48a0ebc276a1e5889f8aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:35 +0000
Subject: [PATCH 53/70] fix: all monetary settings of a locale definition are
 kept

---
 pkg/locale/localedef.y | 50 ++++++++++++++++++++++++++++++------
 pkg/locale/y.go        | 57 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 89 insertions(+), 18 deletions(-)

diff --git a/pkg/locale/localedef.y b/pkg/locale/localedef.y
index f707a33..59cd473 100644
--- a/pkg/locale/localedef.y
+++ b/pkg/locale/localedef.y
@@ -12,19 +12,53 @@ func assignMonetaryString (tok yySymType, value string) {
   switch tok.val {
   case "int_curr_symbol":
     def.monetary.intCurrSymbol = value
+  case "currency_symbol":
+    def.monetary.currencySymbol = value
+  case "mon_decimal_point":
+    def.monetary.monDecimalPoint = value
+  case "mon_thousands_sep":
+    def.monetary.monThousandsSep = value
+  case "positive_sign":
+    def.monetary.positiveSign = value
+  case "negative_sign":
+    def.monetary.negativeSign = value
   }
 }
 
-func assignMonetaryNumber (tok int, value string) {
+func assignMonetaryNumber (tok yySymType, value string) {
   n, err := strconv.Atoi(value)
   if err != nil {
     panic("Can't convert " + value + " to integer")
   }
-  switch tok {
-  case INT_FRAC_DIGITS_STR:
+  switch tok.val {
+  case "int_frac_digits":
     def.monetary.intFracDigits = n
-  default:
-    //panic("NYI" + value)
+  case "frac_digits":
+    def.monetary.fracDigits = n
+  case "p_cs_precedes":
+    def.monetary.pCsPrecedes = n
+  case "p_sep_by_space":
+    def.monetary.pSepBySpace = n
+  case "n_cs_precedes":
+    def.monetary.nCsPrecedes = n
+  case "n_sep_by_space":
+    def.monetary.nSepBySpace = n
+  case "p_sign_posn":
+    def.monetary.pSignPosn = n
+  case "n_sign_posn":
+    def.monetary.nSignPosn = n
+  case "int_p_cs_precedes":
+    def.monetary.intPcsPrecedes = n
+  case "int_p_sep_by_space":
+    def.monetary.intPsepBySpace = n
+  case "int_n_cs_precedes":
+    def.monetary.intNcsPrecedes = n
+  case "int_n_sep_by_space":
+    def.monetary.intNsepBySpace = n
+  case "int_p_sign_posn":
+    def.monetary.intPsignPosn = n
+  case "int_n_sign_posn":
+    def.monetary.intNsignPosn = n
   }
 }
 
@@ -413,8 +447,8 @@ monetary_keywords   : monetary_keywords monetary_keyword
 
 
 monetary_keyword    : mon_keyword_string mon_string EOL       {assignMonetaryString($1, $2.val)}
-                    | mon_keyword_char NUMBER EOL             {assignMonetaryNumber($1.yys, $2.val)}
-                    | mon_keyword_char NEGATIVE_ONE_STR   EOL {assignMonetaryNumber($1.yys, "-1")}
+                    | mon_keyword_char NUMBER EOL             {assignMonetaryNumber($1, $2.val)}
+                    | mon_keyword_char NEGATIVE_ONE_STR   EOL {assignMonetaryNumber($1, "-1")}
                     | mon_keyword_grouping mon_group_list EOL {assignMonetaryGrouping($1.yys, $2.val)}
                     ;
 
@@ -426,7 +460,7 @@ mon_keyword_string  : INT_CURR_SYMBOL_STR | CURRENCY_SYMBOL_STR
 
 
 mon_string          : '"' char_list '"' { $$ = $2 }
-                    | TWO_DOUBLE_QUOTE_STR
+                    | TWO_DOUBLE_QUOTE_STR  { $$.val = "" }
                     ;
 
 
diff --git a/pkg/locale/y.go b/pkg/locale/y.go
index beb6849..c47b886 100644
--- a/pkg/locale/y.go
+++ b/pkg/locale/y.go
@@ -17,24 +17,55 @@ var def Def
 // TODO: Why don't the tokens have the value I expect in tok.yys?
 func assignMonetaryString(tok yySymType, value string) {
 	switch tok.val {
-	//case INT_CURR_SYMBOL:
 	case "int_curr_symbol":
 		def.monetary.intCurrSymbol = value
-		//default:
-		//panic("NYI" + value)
+	case "currency_symbol":
+		def.monetary.currencySymbol = value
+	case "mon_decimal_point":
+		def.monetary.monDecimalPoint = value
+	case "mon_thousands_sep":
+		def.monetary.monThousandsSep = value
+	case "positive_sign":
+		def.monetary.positiveSign = value
+	case "negative_sign":
+		def.monetary.negativeSign = value
 	}
 }
 
-func assignMonetaryNumber(tok int, value string) {
+func assignMonetaryNumber(tok yySymType, value string) {
 	n, err := strconv.Atoi(value)
 	if err != nil {
 		panic("Can't convert " + value + " to integer")
 	}
-	switch tok {
-	case INT_FRAC_DIGITS_STR:
+	switch tok.val {
+	case "int_frac_digits":
 		def.monetary.intFracDigits = n
-	default:
-		//panic("NYI" + value)
+	case "frac_digits":
+		def.monetary.fracDigits = n
+	case "p_cs_precedes":
+		def.monetary.pCsPrecedes = n
+	case "p_sep_by_space":
+		def.monetary.pSepBySpace = n
+	case "n_cs_precedes":
+		def.monetary.nCsPrecedes = n
+	case "n_sep_by_space":
+		def.monetary.nSepBySpace = n
+	case "p_sign_posn":
+		def.monetary.pSignPosn = n
+	case "n_sign_posn":
+		def.monetary.nSignPosn = n
+	case "int_p_cs_precedes":
+		def.monetary.intPcsPrecedes = n
+	case "int_p_sep_by_space":
+		def.monetary.intPsepBySpace = n
+	case "int_n_cs_precedes":
+		def.monetary.intNcsPrecedes = n
+	case "int_n_sep_by_space":
+		def.monetary.intNsepBySpace = n
+	case "int_p_sign_posn":
+		def.monetary.intPsignPosn = n
+	case "int_n_sign_posn":
+		def.monetary.intNsignPosn = n
 	}
 }
 
@@ -856,13 +887,13 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line localedef.y:419
 		{
-			assignMonetaryNumber(yyDollar[1].yys, yyDollar[2].val)
+			assignMonetaryNumber(yyDollar[1], yyDollar[2].val)
 		}
 	case 122:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line localedef.y:420
 		{
-			assignMonetaryNumber(yyDollar[1].yys, "-1")
+			assignMonetaryNumber(yyDollar[1], "-1")
 		}
 	case 123:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -876,6 +907,12 @@ yydefault:
 		{
 			yyVAL = yyDollar[2]
 		}
+	case 131:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line localedef.y:432
+		{
+			yyVAL.val = ""
+		}
 	case 148:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line localedef.y:451
-- 
2.43.0


From 2e43260e2695c410a0fe8f5a91ecf63e5a7c185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:35 +0000
Subject: [PATCH 54/70] fix: LC_NUMERIC's grouping takes a list, as its grammar
 says

---
 pkg/locale/localelex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index ebd4d96..938b259 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -65,7 +65,7 @@ var timeMap = map[string]decode{
 var numericMap = map[string]decode{
 	"decimal_point": {DECIMAL_POINT_STR, grabString},
 	"thousands_sep": {THOUSANDS_SEP_STR, grabString},
-	"grouping":      {GROUPING_STR, grabInt},
+	"grouping":      {GROUPING_STR, grabIntList},
 }
 
 // Monetary mappings
-- 
2.43.0


From 35ac2c146abcce07e5bbe07dd9791dfea484ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:36 +0000
Subject: [PATCH 55/70] fix: a locale integer does not end in a minus sign

---
 pkg/locale/localelex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 938b259..8d4091f 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -281,7 +281,7 @@ func grabInt(l *lexer.L) bool {
 	if n == "" {
 		return false
 	}
-	if n == "-" || (len(n) > 2 && strings.ContainsRune(n[1:], '-')) {
+	if n == "-" || (len(n) > 1 && strings.ContainsRune(n[1:], '-')) {
 		l.Error(fmt.Sprintf("expected integer, got %s", n))
 	}
 	l.Emit(NUMBER)
-- 
2.43.0


From a524a4cf25764ef4390e1fb0dcf3d9df9cbd76cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:37 +0000
Subject: [PATCH 56/70] fix: a changed escape character also holds in strings

---
 pkg/locale/localelex.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 8d4091f..42fb4d2 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -321,7 +321,6 @@ func grabEscapeInString(l *lexer.L) (ok bool) {
 }
 
 func grabString(l *lexer.L) (ok bool) {
-	escapeChar := '\\' // TODO
 	if l.Peek() != '"' {
 		return false
 	}
-- 
2.43.0


From 5c9dd9e462868a20db65c95c9e34e15016b1c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:38 +0000
Subject: [PATCH 57/70] fix: a locale's expression ends on its line

---
 pkg/locale/localelex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 42fb4d2..3b96518 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -375,7 +375,7 @@ func grabMsg(l *lexer.L) (ok bool) {
 	}
 	l.Emit('"')
 	for r := l.Next(); r != '"'; r = l.Next() {
-		if r == lexer.EOFRune {
+		if r == lexer.EOFRune || r == '\n' {
 			l.Error("no end quote")
 			return false
 		}
-- 
2.43.0


From e758997ce99131c49673551ef84b6b229aa12f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:38 +0000
Subject: [PATCH 58/70] fix: a line that changes the comment character is not
 part of the definition

---
 pkg/locale/localelex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 3b96518..80cb9fc 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -527,7 +527,9 @@ func removeComments(input string) string {
 			continue
 		}
 		// Check for escape/comment_char redefinition
-		checkSpecialWord(l, "comment_char", &commentChar)
+		if checkSpecialWord(l, "comment_char", &commentChar) {
+			continue
+		}
 		if !checkSpecialWord(l, "escape_char", &escapeChar) {
 
 			// Join newlines if they end with escape character
-- 
2.43.0


From 753a0913c598be7a89f7b3680847b865aac99bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:44 +0000
Subject: [PATCH 59/70] fix: diff -C with something that is no number is
 trouble, as for -U

---
 cmd/diff/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index f7d30ed..e58852b 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -41,6 +41,9 @@ func parseSettings(args []string) (settings, error) {
 			}
 			s.provideContext = true
 			s.contextSize, err = strconv.Atoi(args[i+1])
+			if err != nil {
+				return s, err
+			}
 			i++
 		case "-e":
 			s.edFormat = true
-- 
2.43.0


From 2f7c7fcc13b7d2d8bc3231694944fbfdc98bc89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:10 +0000
Subject: [PATCH 60/70] fix: ed takes a, i and c with no lines of text

---
 pkg/ed/command.go |  3 +++
 pkg/ed/ed.go      | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index 425b75f..75364ce 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -11,6 +11,9 @@ type Command struct {
 
 	// The second address is relative to the first
 	semicolon bool
+
+	// The text is no line at all rather than one empty line
+	noText bool
 }
 
 type cmdType byte
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ee96e23..20547bc 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -254,8 +254,14 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 
 		// Handle multi-line commands
 		var text []string
+		noText := false
 		if multlineCmdStart.Match([]byte(cmd)) {
 			for s.Scan() {
+				if s.Text() == "." && text == nil {
+					// The grammar wants a line of text
+					noText = true
+					cmd += "\n"
+				}
 				cmd += "\n" + s.Text()
 				if s.Text() == "." {
 					break
@@ -288,6 +294,7 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			if text != nil {
 				cmd.text = strings.Join(text, "\n")
 			}
+			cmd.noText = noText
 			result := ed.processCommand(cmd)
 			w.Write([]byte(result + "\n"))
 		}
@@ -442,11 +449,19 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctappend:
+		if cmd.noText {
+			ed.currentLine = start
+			break
+		}
 		start++
 		ed.insertBeforeLine(start, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctinsert:
+		if cmd.noText {
+			ed.currentLine = start
+			break
+		}
 		if start == 0 {
 			start = 1
 		}
@@ -458,6 +473,13 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
+		if cmd.noText {
+			ed.currentLine = start
+			if end == last {
+				ed.currentLine = start - 1
+			}
+			break
+		}
 		ed.insertBeforeLine(start, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text) - 1
 
-- 
2.43.0


From b5eab432ebb61d9c51b402186c2729e9f3478306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 61/70] fix: a locale definition does not keep the settings of
 the one read before

---
 pkg/locale/localelex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 80cb9fc..3ca801f 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -559,6 +559,8 @@ func removeComments(input string) string {
 
 // NewLexer creates a new lexer, ready to read from input
 func NewLexer(input string) *Lexer {
+	// The settings of a definition that was read before are not part of this one
+	def = Def{}
 	lite := removeComments(input)
 	l := Lexer{
 		*lexer.New(lite, sInit),
-- 
2.43.0


From 726cfbd446f621511f6bb6e130e94a57bd31ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:16 +0000
Subject: [PATCH 62/70] fix: tsort: asking for the order no longer takes the
 items out of the sorter

---
 pkg/tsort/tsort.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index fe11884..a45a760 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -67,6 +67,13 @@ func (s *Sorter) isBlocked(n string) bool {
 }
 
 func (s *Sorter) Order() ([]string, error) {
+	// Take items from a copy, so that the sorter keeps what was added
+	left := make(map[string][]string, len(s.orderings))
+	for k, v := range s.orderings {
+		left[k] = v
+	}
+	s = &Sorter{orderings: left}
+
 	var out []string
 	var candidates = s.heads()
 	for len(candidates) > 0 {
-- 
2.43.0


From de106b21f9b374a83c2c2ae75ac94ab5f853ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:56 +0000
Subject: [PATCH 63/70] fix: a delete of any length up to the largest number
 removes the rest of the text

---
 pkg/txt/piece_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index 3d46371..ac6be06 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -149,6 +149,10 @@ func (pt *PieceTable) Insert(text []byte, at int) {
 }
 
 func (pt *PieceTable) Delete(length int, at int) {
+	// at+length has to be a number
+	if most := int(^uint(0)>>1) - at; length > most {
+		length = most
+	}
 	end := 0
 	var first *piece
 	for p := pt.head; p != nil; p = p.next {
-- 
2.43.0


From 30dfce374249250a8f5913a8c1c6290c4e675383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:07 +0000
Subject: [PATCH 64/70] fix: cksum does not report success when its output
 cannot be written

---
 cmd/cksum/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index a77b0c6..0b58959 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -30,7 +30,10 @@ func run(filename string, label string) {
 		return
 	}
 
-	fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
+	_, err = fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
+	if err != nil {
+		fail("couldn't write output %s\n", err)
+	}
 }
 
 func main() {
-- 
2.43.0


From 0c64b98496c639306bce2f4884fa564217f6be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:07 +0000
Subject: [PATCH 65/70] fix: head does not report success when its output
 cannot be written

---
 cmd/head/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 93faa23..f4abb07 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -46,7 +46,11 @@ func process(s settings) (status int) {
 			if i > 0 {
 				fmt.Print("\n")
 			}
-			fmt.Printf("==> %s <==\n", filename)
+			_, err := fmt.Printf("==> %s <==\n", filename)
+			if err != nil {
+				fmt.Fprintln(os.Stderr, err)
+				return 1
+			}
 		}
 		var f io.ReadCloser
 		var err error
@@ -65,7 +69,11 @@ func process(s settings) (status int) {
 		for j := 0; j < s.numLines && err == nil; j++ {
 			var line string
 			line, err = r.ReadString('\n')
-			fmt.Print(line)
+			_, werr := fmt.Print(line)
+			if werr != nil {
+				fmt.Fprintln(os.Stderr, werr)
+				return 1
+			}
 		}
 		if err != nil && err != io.EOF {
 			fmt.Fprintln(os.Stderr, err)
-- 
2.43.0


From f68dd2d065262891b41a07673640979790ec458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:07 +0000
Subject: [PATCH 66/70] fix: tsort does not report success when its output
 cannot be written

---
 cmd/tsort/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index e3c4030..9b46711 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -43,11 +43,17 @@ func run(input io.Reader, output io.Writer) {
 		die("sort error! %s", err)
 	}
 	for _, item := range out {
-		fmt.Fprintln(output, item)
+		_, err = fmt.Fprintln(output, item)
+		if err != nil {
+			die("can't write! %s", err)
+		}
 	}
 
 	if closer, ok := output.(io.Closer); ok {
-		closer.Close()
+		err = closer.Close()
+		if err != nil {
+			die("can't write! %s", err)
+		}
 	}
 
 }
-- 
2.43.0


From 69125ccdecfec4ffcc4db2d207fe4e20a5170ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:07 +0000
Subject: [PATCH 67/70] fix: locale does not report success when its output
 cannot be written

---
 cmd/locale/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 95c63dd..bf48bf1 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -1,8 +1,13 @@
 package main
 
 import "fmt"
+import "os"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Print(locale.FromEnv().String())
+	_, err := fmt.Print(locale.FromEnv().String())
+	if err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 04cb1bc97bd0cf47a93de345b00c862d9e932fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:07 +0000
Subject: [PATCH 68/70] fix: diff does not report success when its output
 cannot be written

---
 cmd/diff/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index e58852b..a486754 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -113,7 +113,11 @@ func main() {
 	changes := diff.Diff(l1, l2)
 
 	if out := diff.Format(changes); out != "" {
-		fmt.Println(out)
+		_, err := fmt.Println(out)
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+			os.Exit(2)
+		}
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 677db450ea74ed92832671b7a476efd8ea1bf27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:07 +0000
Subject: [PATCH 69/70] fix: cmp does not report success when its output cannot
 be written

---
 cmd/cmp/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 45ea165..0e86fd1 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -67,9 +67,12 @@ func cmp(s settings) error {
 			if b1 != b2 {
 				if !s.silent {
 					if s.writeAll {
-						fmt.Printf("%d %o %o\n", i, b1, b2)
+						_, err = fmt.Printf("%d %o %o\n", i, b1, b2)
 					} else {
-						fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+						_, err = fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+					}
+					if err != nil {
+						return err
 					}
 				}
 				if !s.writeAll {
-- 
2.43.0


From 89c91619a582491049cdfbbaf0f418e57a6943b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:15 +0000
Subject: [PATCH 70/70] fix: head does not report success when the line between
 two parts cannot be written

---
 cmd/head/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index f4abb07..b296e17 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -44,7 +44,11 @@ func process(s settings) (status int) {
 	for i, filename := range s.filenames {
 		if len(s.filenames) > 1 {
 			if i > 0 {
-				fmt.Print("\n")
+				_, err := fmt.Print("\n")
+				if err != nil {
+					fmt.Fprintln(os.Stderr, err)
+					return 1
+				}
 			}
 			_, err := fmt.Printf("==> %s <==\n", filename)
 			if err != nil {
-- 
2.43.0

