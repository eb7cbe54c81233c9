From 2db4db65f03331cc3d9203af71012a82b5ccf818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 01/18] fix: binary: a truncated or failing stream gives no
 graph

Reading a text node at the end of the stream never ended, a binary node did
not stop at its terminator but swallowed what followed, an empty text node
took one byte too many, and an object whose terminator was missing was
returned as if it were complete.
---
 binary.go | 43 +++++++++++++++++++++++++++++--------------
 log.go    |  4 ++++
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/binary.go b/binary.go
index 1471b83..45d3e25 100644
--- a/binary.go
+++ b/binary.go
@@ -129,7 +129,8 @@ func (g *Graph) bin(level int, buf []byte) []byte {
 	return buf
 }
 
-// Parse parses a binary OGDL stream and returns a Graph.
+// Parse parses a binary OGDL stream and returns a Graph, or nil if the stream
+// doesn't hold a complete object.
 func (p *binParser) parse() *Graph {
 
 	if p == nil || !p.header() {
@@ -141,6 +142,9 @@ func (p *binParser) parse() *Graph {
 	for {
 		lev, bin, b := p.line(true)
 
+		if lev < 0 {
+			return nil
+		}
 		if lev == 0 {
 			break
 		}
@@ -220,6 +224,8 @@ func (p *binParser) header() bool {
 //   0x00 - 0x1FFFFF:  110xxxxx xxxxxxxx xxxxxxxx
 //   0x00 - 0xFFFFFFF: 1110xxxx xxxxxxxx xxxxxxxx xxxxxxxx
 //    ...
+//
+// It returns -1 if the stream ends or the integer is not valid.
 func (p *binParser) varInt() int {
 
 	b0 := p.read()
@@ -230,12 +236,18 @@ func (p *binParser) varInt() int {
 
 	if b0 < 0xc0 {
 		b1 := p.read()
+		if b1 < 0 {
+			return -1
+		}
 		return (b0&0x3f)<<8 | b1
 	}
 
 	if b0 < 0xe0 {
 		b1 := p.read()
 		b2 := p.read()
+		if b1 < 0 || b2 < 0 {
+			return -1
+		}
 		return ((b0 & 0x1f) << 16) | (b1 << 8) | b2
 	}
 
@@ -243,6 +255,9 @@ func (p *binParser) varInt() int {
 		b1 := p.read()
 		b2 := p.read()
 		b3 := p.read()
+		if b1 < 0 || b2 < 0 || b3 < 0 {
+			return -1
+		}
 		return ((b0 & 0x0f) << 24) | (b1 << 16) | (b2 << 8) | b3
 	}
 
@@ -256,7 +271,7 @@ func (p *binParser) varInt() int {
 //     node  ::= text-node | binary-node
 //
 // This function returns:
-// - the level (1..)
+// - the level (1..), 0 at the end of the object, -1 if the stream ends before
 // - the byte stream
 // - a boolean that is true for binary nodes, false for text nodes
 //
@@ -268,7 +283,7 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 	// Read an integer (the level)
 	level := p.varInt()
 	if level < 1 {
-		return 0, false, nil
+		return level, false, nil
 	}
 
 	// create a byte buffer to accumulate the bytes read.
@@ -283,29 +298,29 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		for {
 			n = p.varInt()
 			if n < 0 {
-				break
+				return -1, false, nil
+			}
+			if n == 0 {
+				return level, true, buf.Bytes()
 			}
 			for ; n != 0; n-- {
 				c := p.read()
 				if c < 0 {
-					return level, true, buf.Bytes()
+					return -1, false, nil
 				}
 				if write {
 					buf.WriteByte(byte(c))
 				}
 			}
 		}
-		return level, true, buf.Bytes()
 	}
 
 	// Text node. Read bytes until 0
 
-	if write {
-		buf.WriteByte(byte(n))
-	}
-
-	for {
-		c := p.read()
+	for c := n; ; c = p.read() {
+		if c < 0 {
+			return -1, false, nil
+		}
 		if c == 0 {
 			return level, false, buf.Bytes()
 		}
@@ -316,13 +331,13 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 }
 
 // read reads one character (byte) from the stream, returning it in the for of an int.
-// Returning an int permits signaling an EOS with -1.
+// Returning an int permits signaling an EOS (or any read error) with -1.
 func (p *binParser) read() int {
 
 	i, err := p.r.ReadByte()
 
 	c := int(i)
-	if err == io.EOF {
+	if err != nil {
 		c = -1
 	} else {
 		p.n++
diff --git a/log.go b/log.go
index 9567f32..13e4785 100644
--- a/log.go
+++ b/log.go
@@ -6,6 +6,7 @@ package ogdl
 
 import (
 	"bytes"
+	"io"
 	"os"
 )
 
@@ -153,6 +154,9 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	}
 	for {
 		lev, _, _ /* typ, b*/ := p.line(false)
+		if lev < 0 {
+			return nil, -1, io.ErrUnexpectedEOF
+		}
 		if lev == 0 {
 			break
 		}
-- 
2.43.0


From fb45ed5ce5de62bfae1f72bbaf25b6f73c29a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 02/18] fix: binary: write contents that a text node cannot
 hold as binary nodes

Contents with a NUL byte, or beginning with 0x01, ended the node early or
turned it into something else when read back. Also, the second byte of four
byte integers was always 0xff.
---
 binary.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 45d3e25..c7add4f 100644
--- a/binary.go
+++ b/binary.go
@@ -117,6 +117,16 @@ func (g *Graph) bin(level int, buf []byte) []byte {
 	b := _bytes(g.This)
 	if len(b) != 0 {
 		buf = append(buf, newVarInt(level)...)
+		if b[0] == 1 || bytes.IndexByte(b, 0) != -1 {
+			// Not possible as a text node
+			buf = append(buf, 1)
+			for len(b) > maxVarInt {
+				buf = append(buf, newVarInt(maxVarInt)...)
+				buf = append(buf, b[:maxVarInt]...)
+				b = b[maxVarInt:]
+			}
+			buf = append(buf, newVarInt(len(b))...)
+		}
 		buf = append(buf, b...)
 		buf = append(buf, 0)
 		level++
@@ -158,6 +168,9 @@ func (p *binParser) parse() *Graph {
 	return ev.Tree()
 }
 
+// maxVarInt is the largest integer that newVarInt can produce.
+const maxVarInt = 0xfffffff
+
 // newVarInt produces a variable integer from an int.
 // Only positive integers are accepted.
 func newVarInt(i int) []byte {
@@ -190,7 +203,7 @@ func newVarInt(i int) []byte {
 	if i < 0x10000000 {
 		b := make([]byte, 4)
 		b[0] = byte(i>>24 | 0xe0)
-		b[1] = byte(i>>16 | 0xff)
+		b[1] = byte(i >> 16 & 0xff)
 		b[2] = byte(i >> 8 & 0xff)
 		b[3] = byte(i & 0xff)
 		return b
-- 
2.43.0


From 495d67565e1793a74278ee4791d88ed914faf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 03/18] fix: binary: reject levels that skip the parent

Such nodes were dropped or attached to an unrelated node, and a few bytes
with a high level number made the tree builder allocate up to 2 GB.
---
 binary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index c7add4f..4b377c9 100644
--- a/binary.go
+++ b/binary.go
@@ -148,13 +148,16 @@ func (p *binParser) parse() *Graph {
 	}
 
 	ev := &SimpleEventHandler{}
+	max := 1
 
 	for {
 		lev, bin, b := p.line(true)
 
-		if lev < 0 {
+		// A node can only be one level below some node before it
+		if lev < 0 || lev > max {
 			return nil
 		}
+		max = lev + 1
 		if lev == 0 {
 			break
 		}
-- 
2.43.0


From 15c7156c05ba298da532e4ab4e24a40fb9f757d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 04/18] fix: log: report and undo failed appends

Errors of seek, write and sync were ignored: a position was returned as if
the object were stored, and the remains of a partial write stayed in front
of later objects. Adding a nil graph returned position 0.
---
 log.go | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/log.go b/log.go
index 13e4785..cd5e81d 100644
--- a/log.go
+++ b/log.go
@@ -53,33 +53,16 @@ func (log *Log) SetSync(sync bool) {
 }
 
 // Add adds an OGDL object to the log. The starting position into the log
-// is returned.
+// is returned, or -1 if the object could not be added.
 func (log *Log) Add(g *Graph) int64 {
 
 	b := g.Binary()
 
 	if b == nil {
-		return 0
+		return -1
 	}
 
-	if log.f != nil {
-
-		i, _ := log.f.Seek(0, 2)
-
-		log.f.Write(b)
-
-		if log.autoSync {
-			log.f.Sync()
-		}
-
-		return i
-	} else {
-
-		i := log.b.Len()
-		log.b.Write(b)
-
-		return int64(i)
-	}
+	return log.AddBinary(b)
 }
 
 // Bytes works only if we have been writing to the byte buffer, not to a file
@@ -91,15 +74,25 @@ func (log *Log) Bytes() []byte {
 }
 
 // AddBinary adds an OGDL binary object to the log. The starting position into
-// the log is returned.
+// the log is returned, or -1 if the object could not be added.
 func (log *Log) AddBinary(b []byte) int64 {
 
 	if log.f != nil {
-		i, _ := log.f.Seek(0, 2)
-		log.f.Write(b)
+		i, err := log.f.Seek(0, 2)
+		if err != nil {
+			return -1
+		}
+
+		_, err = log.f.Write(b)
+
+		if err == nil && log.autoSync {
+			err = log.f.Sync()
+		}
 
-		if log.autoSync {
-			log.f.Sync()
+		if err != nil {
+			// Do not leave remains in front of later objects
+			log.f.Truncate(i)
+			return -1
 		}
 
 		return i
-- 
2.43.0


From 4ba53b81dab57ce330501f4fd3d0873e57558f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 05/18] fix: log: GetBinary returns the position of the next
 object

It returned the length of the object instead, and 0 at the end of the log
and on errors, so that a walk started over. Get and GetBinary now also give
an error for an object that is not complete.
---
 log.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/log.go b/log.go
index cd5e81d..ab63db7 100644
--- a/log.go
+++ b/log.go
@@ -6,10 +6,12 @@ package ogdl
 
 import (
 	"bytes"
-	"io"
+	"errors"
 	"os"
 )
 
+var errNoObject = errors.New("no complete object at this position")
+
 // Log is a log store for binary OGDL objects.
 //
 // All objects are appended to a file, and a position is returned.
@@ -106,7 +108,8 @@ func (log *Log) AddBinary(b []byte) int64 {
 }
 
 // Get returns the OGDL object at the position given and the position of the
-// next object, or an error.
+// next object, or an error. At the end of the log, the graph is nil and the
+// position -1.
 func (log *Log) Get(i int64) (*Graph, int64, error) {
 
 	/* Position in file */
@@ -121,19 +124,22 @@ func (log *Log) Get(i int64) (*Graph, int64, error) {
 	if p.n == 0 {
 		return g, -1, nil
 	}
+	if g == nil {
+		return nil, -1, errNoObject
+	}
 
 	return g, i + int64(p.n), err
 }
 
 // GetBinary returns the OGDL object at the position given and the position of the
 // next object, or an error. The object returned is in binary form, exactly
-// as it is stored in the log.
+// as it is stored in the log. At the end of the log, it is nil and the position -1.
 func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 
 	// Position in file
 	_, err := log.f.Seek(i, 0)
 	if err != nil {
-		return nil, 0, err
+		return nil, -1, err
 	}
 
 	/* Read until EOS of binary OGDL.
@@ -143,12 +149,15 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	p := newBinParser(log.f)
 
 	if !p.header() {
-		return nil, 0, err
+		if p.n == 0 {
+			return nil, -1, nil
+		}
+		return nil, -1, errNoObject
 	}
 	for {
 		lev, _, _ /* typ, b*/ := p.line(false)
 		if lev < 0 {
-			return nil, -1, io.ErrUnexpectedEOF
+			return nil, -1, errNoObject
 		}
 		if lev == 0 {
 			break
@@ -161,5 +170,9 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	b := make([]byte, n)
 	_, err = log.f.ReadAt(b, i)
 
-	return b, int64(n), err
+	if err != nil {
+		return nil, -1, err
+	}
+
+	return b, i + int64(n), nil
 }
-- 
2.43.0


From cce5b01ca3ada4306ae2ec9fa13ea0f59f2c8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 06/18] fix: lexer: keep reading short pieces, and keep bytes
 that come with an error

---
 lexer.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lexer.go b/lexer.go
index 76c8f72..64eaa91 100644
--- a/lexer.go
+++ b/lexer.go
@@ -65,12 +65,11 @@ func NewLexer(rd io.Reader) *Lexer {
 // half filled with new bytes, if available.
 func (p *Lexer) fill() {
 
-	if p.r >= 0 && p.r < bufSize {
+	if p.r >= 0 && (p.r < bufSize || p.lastByte < bufSize) {
 		return
 	}
 
-	// Read new data: try a limited number of times.
-	// The first time read the full buffer, else only half.
+	// Read new data. The first time read the full buffer, else only half.
 	offset := 0
 	if p.r >= 0 {
 		copy(p.buf, p.buf[halfSize:])
@@ -80,19 +79,21 @@ func (p *Lexer) fill() {
 		p.r = 0
 	}
 
-	for i := maxConsecutiveEmptyReads; i > 0; i-- {
+	// Read until the buffer is full, or the reader fails or makes no progress.
+	// Bytes can come together with an error. After an error nothing is read.
+	for empty := 0; offset < bufSize && p.err == nil; {
 		n, err := p.rd.Read(p.buf[offset:])
 		if n < 0 {
 			panic(errNegativeRead)
 		}
-		if err != nil {
-			p.err = err
-			break
-		}
 
 		offset += n
-		if offset >= halfSize {
-			break
+		if err != nil {
+			p.err = err
+		} else if n > 0 {
+			empty = 0
+		} else if empty++; empty >= maxConsecutiveEmptyReads {
+			p.err = io.ErrNoProgress
 		}
 	}
 
-- 
2.43.0


From ba950265bb351f4ed589d4a8f85b1fe2d10a2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 07/18] fix: lexer: characters across the end of the buffer,
 and at the end of the stream

---
 lexer.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index 64eaa91..2f6c1ef 100644
--- a/lexer.go
+++ b/lexer.go
@@ -69,11 +69,18 @@ func (p *Lexer) fill() {
 		return
 	}
 
-	// Read new data. The first time read the full buffer, else only half.
+	p.more()
+}
+
+// more moves the last half of the buffer, if there is one, to the start, and
+// reads new bytes after it.
+func (p *Lexer) more() {
+
+	// The first time read the full buffer, else only half.
 	offset := 0
 	if p.r >= 0 {
 		copy(p.buf, p.buf[halfSize:])
-		p.r = halfSize
+		p.r -= halfSize
 		offset = halfSize
 	} else {
 		p.r = 0
@@ -108,9 +115,11 @@ func (p *Lexer) Error() error {
 
 // PeekByte returns the next byte witohut consuming it
 func (p *Lexer) PeekByte() byte {
+	r := p.r
 	c, err := p.Byte()
 
 	if err != nil {
+		p.r = r
 		return 0
 	}
 
@@ -120,9 +129,12 @@ func (p *Lexer) PeekByte() byte {
 
 // PeekRune returns the next rune witohut consuming it
 func (p *Lexer) PeekRune() (rune, error) {
+	pos := p.r
 	r, err := p.Rune()
 
 	if err != nil {
+		p.UnreadRune()
+		p.r = pos
 		return 0, nil
 	}
 
@@ -155,9 +167,19 @@ func (p *Lexer) UnreadByte() {
 // Rune reads a single UTF-8 encoded Unicode character and returns the
 // rune. If the encoded rune is invalid, it consumes one byte
 // and returns unicode.ReplacementChar (U+FFFD) with a size of 1.
+// If no byte is available, returns 0 and an error.
 func (p *Lexer) Rune() (rune, error) {
 
-	p.fill()
+	if p.lastByte < bufSize && p.r >= p.lastByte {
+		p.r = p.lastByte + 1
+		p.lastRuneSize = append(p.lastRuneSize, 1)
+		return 0, ErrEOS
+	}
+
+	// The rest of the rune may not be in the buffer yet
+	if p.lastByte == bufSize && !utf8.FullRune(p.buf[p.r:]) {
+		p.more()
+	}
 
 	r, size := rune(p.buf[p.r]), 1
 	if r >= utf8.RuneSelf {
@@ -165,6 +187,7 @@ func (p *Lexer) Rune() (rune, error) {
 	}
 	p.r += size
 	p.lastRuneSize = append(p.lastRuneSize, size)
+	p.fill()
 	return r, nil
 }
 
-- 
2.43.0


From 5a5263559956dd6efe1449a5526a224ec9f1583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 08/18] fix: lexer: a comment ending in CR+NL ends at the NL

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 2f6c1ef..835e2fb 100644
--- a/lexer.go
+++ b/lexer.go
@@ -534,6 +534,10 @@ func (p *Lexer) Comment() bool {
 					break
 				}
 			}
+			// Read NL if CR was found
+			if c == '\r' && p.PeekByte() == '\n' {
+				p.Byte()
+			}
 			return true
 		}
 		p.UnreadByte()
-- 
2.43.0


From 8648021963bfd0baf0b07977869fe345075eddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 09/18] fix: FromJSON: the order of the members of an object is
 always the same

---
 encoding.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index ae60afd..28784c5 100644
--- a/encoding.go
+++ b/encoding.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
+	"sort"
 	"strings"
 )
 
@@ -59,8 +60,15 @@ func toGraph(v interface{}) *Graph {
 		}
 	case map[string]interface{}:
 		n := g.Add("_")
-		for k, i := range v.(map[string]interface{}) {
-			n.Add(k).AddNodes(toGraph(i))
+		m := v.(map[string]interface{})
+		keys := make([]string, 0, len(m))
+		for k := range m {
+			keys = append(keys, k)
+		}
+		// The order of a map is not defined
+		sort.Strings(keys)
+		for _, k := range keys {
+			n.Add(k).AddNodes(toGraph(m[k]))
 		}
 	case json.Number:
 		// try first to decode the number as an integer.
-- 
2.43.0


From 06613a092e1a96e6581a1692d45ae7bac13d0dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 10/18] fix: ogdlrf: the server reads whole messages, and does
 not trust LEN

A header or a body that arrived in more than one piece was taken for an error
and the connection closed; and LEN bytes were allocated at once, up to 4 GB.
---
 ogdlrf/server.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 5f399a5..8a6ff90 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -5,7 +5,9 @@
 package ogdlrf
 
 import (
+	"bytes"
 	"encoding/binary"
+	"io"
 	"log"
 	"net"
 	"time"
@@ -119,13 +121,13 @@ func process(c net.Conn, handler Function, timeout int) {
 		// Thus, first read 4 bytes (LEN)
 
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
-		i, err := c.Read(b4)
+		i, err := io.ReadFull(c, b4)
 
 		if i == 0 {
 			break
 		}
 
-		if err != nil || i != 4 {
+		if err != nil {
 			log.Println("ogdlrf.Serve, error while trying to read LEN,", i, err)
 			break
 		}
@@ -137,26 +139,18 @@ func process(c net.Conn, handler Function, timeout int) {
 			break
 		}
 
-		// Read the body of the message
+		// Read the body of the message. LEN is not trusted: memory is allocated as
+		// the bytes arrive.
 
-		buf := make([]byte, l)
-		if buf == nil {
-			log.Println("ogdlrf.Serve, cannot allocate memory for message")
-			break
-		}
-		i, err = c.Read(buf)
+		var body bytes.Buffer
+		n, err := io.CopyN(&body, c, int64(l))
 
 		if err != nil {
-			log.Println("ogdlrf.Serve, error reading message body, ", err)
-			break
-		}
-
-		if i != l {
-			log.Println("ogdlrf.Serve, error reading message body, LEN is", i, "should be", l)
+			log.Println("ogdlrf.Serve, error reading message body, LEN is", n, "should be", l, err)
 			break
 		}
 
-		g := ogdl.FromBinary(buf)
+		g := ogdl.FromBinary(body.Bytes())
 		if g == nil || g.Out == nil {
 			log.Println("ogdlrf.Serve, nothing in buf to produce a graph")
 			break
@@ -164,7 +158,7 @@ func process(c net.Conn, handler Function, timeout int) {
 		r := handler(c, g)
 
 		// Write message back
-		buf = r.Binary()
+		buf := r.Binary()
 		binary.BigEndian.PutUint32(b4, uint32(len(buf)))
 
 		i, err = c.Write(b4)
-- 
2.43.0


From a44df054f442f9fbbe0c41d228de0980df5f4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 11/18] fix: ogdlrf: one buffered reader per connection in
 protocol version 1

A reader made anew for each message discarded what it had read beyond the
message, so that the rest of a message could be taken for a whole one.
---
 ogdlrf/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 8a6ff90..c6df94a 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -5,6 +5,7 @@
 package ogdlrf
 
 import (
+	"bufio"
 	"bytes"
 	"encoding/binary"
 	"io"
@@ -186,12 +187,15 @@ func process1(c net.Conn, handler Function, timeout int) {
 
 	defer c.Close()
 
+	// One reader for all messages: it may hold the beginning of the next one
+	br := bufio.NewReader(c)
+
 	for {
 		// Set a time out (maximum time until next message)
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
 
 		// Read the incoming object
-		g := ogdl.FromBinaryReader(c)
+		g := ogdl.FromBinaryBufioReader(br)
 
 		if g == nil {
 			break
-- 
2.43.0


From 77c7f1338283c590e8b3f5d885c73e70d2f0df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 12/18] fix: ogdlrf: the server does not wait forever for a
 peer to take its answer

---
 ogdlrf/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index c6df94a..703a396 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -162,6 +162,8 @@ func process(c net.Conn, handler Function, timeout int) {
 		buf := r.Binary()
 		binary.BigEndian.PutUint32(b4, uint32(len(buf)))
 
+		// The peer has the same time for taking the answer
+		c.SetWriteDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
 		i, err = c.Write(b4)
 
 		if i != 4 || err != nil {
@@ -205,6 +207,7 @@ func process1(c net.Conn, handler Function, timeout int) {
 
 		// Write result in binary format
 		b := r.Binary()
+		c.SetWriteDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
 		i, err := c.Write(b)
 
 		if err != nil {
-- 
2.43.0


From 993bac7053c50ec96e144a0ce1c6b49c9b875c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 13/18] fix: ogdlrf: the client reads the whole answer and
 nothing else

The header of an answer could arrive in pieces, and an empty answer was
waited for until the timeout.
---
 ogdlrf/client.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 2945e95..9f8e6f5 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -5,9 +5,11 @@
 package ogdlrf
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 
+	"io"
 	"log"
 	"net"
 	"time"
@@ -102,34 +104,22 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read header response
-	j, err := rf.conn.Read(b4)
-	if j != 4 {
+	_, err = io.ReadFull(rf.conn, b4)
+	if err != nil {
 		log.Println("error reading incomming message LEN")
 		return nil, errors.New("error in message header")
 	}
 	l := binary.BigEndian.Uint32(b4)
 
 	// Read body response
-	buf3 := make([]byte, 0, l)
-	tmp := make([]byte, 10000)
-	l2 := uint32(0)
-
-	for {
-		i, err = rf.conn.Read(tmp)
-		l2 += uint32(i)
-		if err != nil || i == 0 {
-			log.Println("Error reading body", l2, l, err)
-			return nil, err
-		}
-
-		buf3 = append(buf3, tmp[:i]...)
-
-		if l2 >= l {
-			break
-		}
+	var body bytes.Buffer
+	l2, err := io.CopyN(&body, rf.conn, int64(l))
+	if err != nil {
+		log.Println("Error reading body", l2, l, err)
+		return nil, err
 	}
 
-	g = ogdl.FromBinary(buf3)
+	g = ogdl.FromBinary(body.Bytes())
 
 	if g == nil || g.Len() == 0 {
 		return nil, errEmptyResponse
-- 
2.43.0


From c4699b0339f149413ea9e10427d64bc5f98f3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 14/18] fix: ogdlrf: the client closes a connection after any
 error

After a failed call the connection was kept, so that a late answer was
returned to a later call, or dropped without closing it.
---
 ogdlrf/client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 9f8e6f5..9029412 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -65,11 +65,14 @@ func (rf *Client) Call(g *ogdl.Graph) (*ogdl.Graph, error) {
 		if err == nil {
 			break
 		}
+
+		// There may be a late answer on its way, or half a request at the other side
+		rf.Close()
+
 		n--
 		if n < 0 {
 			break
 		}
-		rf.conn = nil
 	}
 
 	return r, err
@@ -136,12 +139,10 @@ func (rf *Client) callV1(g *ogdl.Graph) (*ogdl.Graph, error) {
 	n, err := rf.conn.Write(b)
 
 	if err != nil {
-		rf.conn = nil
 		log.Println("callv1", err)
 		return nil, err
 	}
 	if n != len(b) {
-		rf.conn = nil
 		log.Println("callv1", err)
 		return nil, errWriting
 	}
-- 
2.43.0


From c09e228a1326eaf32c836898c1d0f7882a9a290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 15/18] fix: JSON: do not modify the graph while it is being
 written

---
 encoding.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/encoding.go b/encoding.go
index 28784c5..503bcad 100644
--- a/encoding.go
+++ b/encoding.go
@@ -111,14 +111,12 @@ func (g *Graph) JSON() []byte {
 	var buf *bytes.Buffer
 	buf = new(bytes.Buffer)
 
-	// Temporarily set root to something different than _
-	i := g.This
-	g.This = ""
+	// Set the root to something different than _, in a copy: g itself may be
+	// in use elsewhere.
+	r := *g
+	r.This = ""
 
-	g.json(buf)
-
-	// Restore root
-	g.This = i
+	r.json(buf)
 
 	return buf.Bytes()
 }
-- 
2.43.0


From 5c8a23e7c44ed6fbc41a5569d5437bb991e9af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 16/18] fix: evaluation does not hand out nodes of the compiled
 expression

---
 eval.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index d708441..e46ff7c 100644
--- a/eval.go
+++ b/eval.go
@@ -389,7 +389,9 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 		return s, nil
 	}
 
-	return p, nil
+	// A copy: the result may end up in the context and be changed there, while p
+	// belongs to the compiled expression.
+	return p.Clone(), nil
 }
 
 func (g *Graph) evalBinary(p *Graph) interface{} {
-- 
2.43.0


From f4c9e697f5466deae4c91850ce61b4fc116b843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 17/18] fix: log: a failed read is an error, not the end of the
 log

---
 binary.go | 11 ++++++++---
 log.go    |  6 ++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/binary.go b/binary.go
index 4b377c9..6575881 100644
--- a/binary.go
+++ b/binary.go
@@ -30,12 +30,14 @@ type binParser struct {
 	last int
 	// n counts the bytes read. Used in log.go.
 	n int
+	// err is the error of the stream, if other than its end. Used in log.go.
+	err error
 }
 
 // NewBytesBinParser creates a parser that can convert a binary OGDL byte stream into an
 // ogdl.Graph object. To actually parse the stream, the method Parse() has to be invoked.
 func newBytesBinParser(b []byte) *binParser {
-	p := &binParser{bufio.NewReader(bytes.NewReader(b)), 0, 0}
+	p := &binParser{bufio.NewReader(bytes.NewReader(b)), 0, 0, nil}
 	if p.r == nil {
 		return nil
 	}
@@ -58,7 +60,7 @@ func newFileBinParser(file string) *binParser {
 //NewBinParser creates a parser that can convert a binary OGDL stream into an
 // ogdl.Graph object. To actually parse the stream, the method Parse() has to be invoked.
 func newBinParser(r io.Reader) *binParser {
-	return &binParser{bufio.NewReader(r), 0, 0}
+	return &binParser{bufio.NewReader(r), 0, 0, nil}
 }
 
 // FromBinary converts an OGDL binary stream of bytes into a Graph.
@@ -77,7 +79,7 @@ func FromBinaryReader(r io.Reader) *Graph {
 // It doesn't create a new buffered reader each time, so it can be used to read
 // OGDL log files.
 func FromBinaryBufioReader(r *bufio.Reader) *Graph {
-	p := &binParser{r, 0, 0}
+	p := &binParser{r, 0, 0, nil}
 	return p.parse()
 }
 
@@ -355,6 +357,9 @@ func (p *binParser) read() int {
 	c := int(i)
 	if err != nil {
 		c = -1
+		if err != io.EOF {
+			p.err = err
+		}
 	} else {
 		p.n++
 	}
diff --git a/log.go b/log.go
index ab63db7..188b385 100644
--- a/log.go
+++ b/log.go
@@ -121,6 +121,9 @@ func (log *Log) Get(i int64) (*Graph, int64, error) {
 	p := newBinParser(log.f)
 	g := p.parse()
 
+	if g == nil && p.err != nil {
+		return nil, -1, p.err
+	}
 	if p.n == 0 {
 		return g, -1, nil
 	}
@@ -149,6 +152,9 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	p := newBinParser(log.f)
 
 	if !p.header() {
+		if p.err != nil {
+			return nil, -1, p.err
+		}
 		if p.n == 0 {
 			return nil, -1, nil
 		}
-- 
2.43.0


From 40d64c55b04b9729925b44a825ba30636ac03bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:23 +0000
Subject: [PATCH 18/18] fix: arguments: a character that is not a letter ends
 them

A character whose first byte looks like a letter (an accented letter, a
multi-byte sign, the first byte of a character that was cut off) began a
path, whether or not there was one. ArgList then never got any further.
---
 flow.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flow.go b/flow.go
index 74089af..08dfe90 100644
--- a/flow.go
+++ b/flow.go
@@ -179,9 +179,13 @@ func (p *Parser) UnaryExpression() bool {
 	if IsLetter(rune(c)) {
 		p.ev.Add(TypePath)
 		p.ev.Inc()
-		p.Path()
+		ok := p.Path()
 		p.ev.Dec()
-		return true
+		if !ok {
+			// Only the first byte of the character looks like a letter
+			p.ev.Delete()
+		}
+		return ok
 	}
 
 	b, ok := p.Number()
-- 
2.43.0

