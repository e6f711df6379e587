From a240529cf2ab1daa579c26fa8406e5485276c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 01/82] fix: DecodeEscape panicked when given no bytes

---
 ansi/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ansi/decode.go b/ansi/decode.go
index 6a80a96..58c06b7 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -40,6 +40,9 @@ func DecodeRune(p []byte) (rune, int) {
 // caller MAY decide either to process it immediately, or whether to wait for
 // additional input bytes which may complete an ESCape sequence.
 func DecodeEscape(p []byte) (e Escape, arg []byte, n int) {
+	if len(p) == 0 {
+		return 0, nil, 0
+	}
 	r, m := DecodeRune(p)
 	if r == 0x1B {
 		return decodeESC(p)
-- 
2.43.0


From 02467122d1b96192ff0bc581f932de6a35d4c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 02/82] fix: DecodeNumber overflowed instead of reporting a
 range error, and accepted a missing number

---
 ansi/decode.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 58c06b7..3accc28 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -262,31 +262,24 @@ func DecodeNumber(p []byte) (r, n int, _ error) {
 
 	// Convert unsigned and check range.
 	const (
-		bitSize   = 32
-		maxUint64 = (1<<64 - 1)
-		cutoff    = maxUint64/10 + 1
-		maxVal    = uint64(1)<<uint(bitSize) - 1
+		bitSize = 32
+		maxVal  = uint64(1)<<uint(bitSize) - 1
 	)
 	var un uint64
 
+	if p[0] < '0' || '9' < p[0] {
+		return 0, n, errSyntax
+	}
 	for _, c := range p {
 		if c < '0' || '9' < c {
 			break
 		}
 		d := c - '0'
 		n++
-		if un < cutoff {
-			un *= 10
-			if un1 := un + uint64(d); !(un1 < un || un1 > maxVal) {
-				un = un1
-				continue
-			} // else un+v overflows
-		} // else un*10 overflows
-		if !neg && maxVal >= cutoff {
-			return int(cutoff - 1), n, errRange
-		}
-		if neg && maxVal > cutoff {
-			return -int(cutoff), n, errRange
+		// NOTE un <= maxVal, so un*10 + d can't overflow
+		un = un*10 + uint64(d)
+		if un > maxVal {
+			return 0, n, errRange
 		}
 	}
 
-- 
2.43.0


From d9c6d59149fbf2e7d1de0edc8a31fd7752bf2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 03/82] fix: control string containing invalid UTF-8 never
 terminated

---
 ansi/decode.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 3accc28..fd507fb 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -206,17 +206,14 @@ term:
 }
 
 func decodeString(p []byte) (a []byte, n int) {
-	r, m := DecodeRune(p)
-	for {
-		switch r {
-		case utf8.RuneError:
-			return nil, 0
-		case 0x9C:
+	for n < len(p) {
+		r, m := DecodeRune(p[n:])
+		if r == 0x9C {
 			return p[:n], n + m
 		}
 		n += m
-		r, m = DecodeRune(p[n:])
 	}
+	return nil, 0
 }
 
 var (
-- 
2.43.0


From d0947368420402fe785161ee724f0a49a981b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 04/82] fix: Process consumed incomplete sequences and runes,
 stalled on a bare ESC, and invented a rune after a cancelled sequence

---
 buffer.go | 51 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/buffer.go b/buffer.go
index 9f85fb6..1b4c064 100644
--- a/buffer.go
+++ b/buffer.go
@@ -147,22 +147,55 @@ func (b *Buffer) Process(proc Processor) {
 }
 
 // Process decodes ansi escapes and utf8 runes from p, passing them to proc.
+// Returns the number of bytes processed; any bytes after that are the start of
+// an incomplete escape sequence or rune, and should be passed again once
+// followed by more bytes.
 func Process(proc Processor, p []byte) (n int) {
 	for n < len(p) {
+		var lead [2]byte
+		copy(lead[:], p[n:])
 		e, a, m := ansi.DecodeEscape(p[n:])
+		if e != 0 {
+			n += m
+			proc.ProcessANSI(e, a)
+			continue
+		}
+		if m > 0 {
+			n += m // skip cancelled sequence
+			continue
+		}
+		r, m := utf8.DecodeRune(p[n:])
+		partial := isPartial(p[n:])
+		if lead[0] == 0x1B && 0x40 <= lead[1] && lead[1] <= 0x5F {
+			// restore a C1 control normalized by DecodeEscape, since the
+			// bytes may still need to be written out
+			copy(p[n:], lead[:])
+		}
+		if partial {
+			break
+		}
 		n += m
-		if e == 0 {
-			switch r, m := utf8.DecodeRune(p[n:]); r {
-			case '\x1b':
-				return n
-			default:
-				n += m
-				e = ansi.Escape(r)
+		proc.ProcessANSI(ansi.Escape(r), nil)
+	}
+	return n
+}
+
+// isPartial returns true if p, in which DecodeEscape found no escape sequence,
+// starts with an incomplete sequence or rune that more bytes may complete.
+func isPartial(p []byte) bool {
+	r, n := utf8.DecodeRune(p)
+	switch r {
+	case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
+		return true
+	case 0x1B: // ESC, followed by any intermediate characters
+		for {
+			p = p[n:]
+			if r, n = utf8.DecodeRune(p); r > 0xFF || r&0x7F < 0x20 || 0x2F < r&0x7F {
+				return !utf8.FullRune(p)
 			}
 		}
-		proc.ProcessANSI(e, a)
 	}
-	return n
+	return !utf8.FullRune(p)
 }
 
 // Processor receives decoded ANSI escape sequences and Unicode runes from
-- 
2.43.0


From cbcaa60787d1565d57e11b77f8dec93fa603982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 05/82] fix: Input passed runes split between reads as invalid,
 and decoded past cancelled sequences wrongly

---
 input.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/input.go b/input.go
index d7e20a4..e16fd68 100644
--- a/input.go
+++ b/input.go
@@ -138,14 +138,17 @@ func (in *Input) Decode() (e ansi.Escape, a []byte, ok bool) {
 }
 
 func (in *Input) decodeEscape() (e ansi.Escape, a []byte) {
-	if in.buf.Len() == 0 {
-		return 0, nil
-	}
-	e, a, n := ansi.DecodeEscape(in.buf.Bytes())
-	if n > 0 {
-		in.buf.Next(n)
+	for in.buf.Len() > 0 {
+		e, a, n := ansi.DecodeEscape(in.buf.Bytes())
+		if n > 0 {
+			in.buf.Next(n)
+		}
+		if e != 0 || n == 0 {
+			return e, a
+		}
+		// continue past a cancelled sequence
 	}
-	return e, a
+	return 0, nil
 }
 
 func (in *Input) decodeRune() (rune, bool) {
@@ -158,7 +161,15 @@ func (in *Input) decodeRune() (rune, bool) {
 		case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 			return 0, false
 		case 0x1B: // ESC
-			if p := in.buf.Bytes(); len(p) == cap(p) && !in.ateof {
+			p := in.buf.Bytes()
+			if len(p) == cap(p) && !in.ateof {
+				return 0, false
+			}
+			if len(p) > n && !utf8.FullRune(p[n:]) {
+				return 0, false
+			}
+		default:
+			if !utf8.FullRune(in.buf.Bytes()) {
 				return 0, false
 			}
 		}
-- 
2.43.0


From 902d050149c70b4b1c19ce41e2c98c76e4d7c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 06/82] fix: delete inside a C1 control or control sequence
 introducer broke its decoding

---
 ansi/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ansi/decode.go b/ansi/decode.go
index fd507fb..27bd861 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -35,6 +35,9 @@ func DecodeRune(p []byte) (rune, int) {
 // remaining in p[n:]. The caller MUST NOT pass the bytes in p[:n] to
 // DecodeEscape() again, and SHOULD NOT look at them itself.
 //
+// If the returned escape identifier is 0 but n is not, then only ignored bytes
+// were consumed, and the caller SHOULD call DecodeEscape() again with p[n:].
+//
 // If the returned escape identifier is 0, the caller MAY proceed to decode a
 // UTF-8 rune from p[n:]; if this rune turns out to be ESCape (U+001B), the
 // caller MAY decide either to process it immediately, or whether to wait for
@@ -122,6 +125,9 @@ func decodeESC(p []byte) (e Escape, a []byte, n int) {
 					return ESC(p[ai]), p[ni : ni+m], n
 				}
 				a = p[ai:ni]
+			} else if ei > 0 && 0x40 <= r && r <= 0x5F {
+				// deletes skipped; what remains is a C1 control
+				return 0, nil, ei
 			}
 			return ESC(byte(r)), a, n
 
-- 
2.43.0


From 1db2d1a5f3286ee74f355bde6735713cc4048b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 07/82] fix: character set, control string, and edge-of-range
 escapes encoded wrongly; sequence size too small

---
 ansi/control.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/ansi/control.go b/ansi/control.go
index 960eaa4..dcdedd0 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -28,7 +28,7 @@ type Seq struct {
 
 func (id Escape) seq() Seq {
 	switch {
-	case 0x0000 < id && id < 0x001F,
+	case 0x0000 < id && id <= 0x001F,
 		0xEF00 < id && id < 0xEFFF:
 		return Seq{id: id}
 	}
@@ -122,11 +122,11 @@ func (seq Seq) WithPoint(p Point) Seq { return seq.WithInts(p.Y, p.X) }
 func (id Escape) AppendTo(p []byte) []byte {
 	// TODO stricter
 	switch {
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id < 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(p, '\x1b', byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(p, '\x1b', '[', byte(id&0x7F))
@@ -135,15 +135,24 @@ func (id Escape) AppendTo(p []byte) []byte {
 }
 
 // AppendWith appends the escape code and any given argument bytes to the given
-// byte slice.
+// byte slice. Control strings (DCS, OSC, PM, and APC) given a non-nil argument,
+// even if empty, are terminated by ST.
 func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	// TODO stricter
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case id == 0x0090, 0x009D <= id && id <= 0x009F: // C1 control strings
+		p = append(p, '\x1b', byte(0x40|id&0x1F))
+		if arg != nil {
+			p = append(append(p, arg...), '\x1b', '\\')
+		}
+		return p
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control
+		return append(append(p, '\x1b', byte(id&0x7F)), arg...)
+	case 0xEF30 <= id && id <= 0xEF7E: // ESC + byte
 		return append(append(append(p, '\x1b'), arg...), byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(append(append(p, '\x1b', '['), arg...), byte(id&0x7F))
@@ -158,7 +167,7 @@ func (seq Seq) AppendTo(p []byte) []byte {
 	}
 	switch id := seq.id; {
 	case id == 0:
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		p = append(p, byte(id))
 		p = seq.appendArgBytes(p)
 	case 0xEF80 < id && id < 0xEFFF: // CSI
@@ -166,15 +175,15 @@ func (seq Seq) AppendTo(p []byte) []byte {
 		p = seq.appendArgBytes(p)
 		p = seq.appendArgNums(p)
 		p = append(p, byte(id&0x7F))
-	case 0xEF00 < id && id < 0xEF7F: // ESC
-		p = append(p, '\x1b')
-		p = seq.appendArgBytes(p)
-		p = append(p, byte(id&0x7F))
-	case 0xEF20 < id && id < 0xEF2F: // ESC character set control
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control
 		// NOTE character set selection sequences are special, in that they're
 		// always a 3 byte sequence, and identified by the first
 		// (intermediate range) byte after the ESC
 		p = append(p, '\x1b', byte(id&0x7F), seq.argBytes[0])
+	case 0xEF00 < id && id <= 0xEF7F: // ESC
+		p = append(p, '\x1b')
+		p = seq.appendArgBytes(p)
+		p = append(p, byte(id&0x7F))
 	default:
 		panic("inconceivable: should not be able to construct a Seq like that")
 	}
@@ -220,9 +229,9 @@ func (id Escape) Size() int {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return 1
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return 2
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return 2
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return 3
@@ -235,14 +244,14 @@ func (seq Seq) Size() int {
 	if seq.id == 0 {
 		return 0
 	}
-	return 4 + seq.numBytes + 10*seq.numInts
+	return 4 + seq.numBytes + 21*seq.numInts
 }
 
 func (seq Seq) String() string {
 	if seq.id == 0 && seq.numBytes == 0 && seq.numInts == 0 {
 		return ""
 	}
-	p := make([]byte, 0, seq.numBytes+10*seq.numInts)
+	p := make([]byte, 0, seq.numBytes+21*seq.numInts)
 	p = seq.appendArgBytes(p)
 	p = seq.appendArgNums(p)
 	return fmt.Sprintf("%v%q", seq.id, p)
-- 
2.43.0


From 5b033ebb926564c3a73e08e48f27862f11879d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 08/82] fix: DecodeSGR dropped conceal, and ignored the default
 clear of an empty argument

---
 ansi/decode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 27bd861..c3ac4c1 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -307,6 +307,9 @@ func DecodePoint(a []byte) (p Point, n int, err error) {
 // DecodeSGR decodes an SGR attribute value from the given byte buffer; if
 // non-nil error is returned, then n indicates the index of the offending byte.
 func DecodeSGR(a []byte) (attr SGRAttr, n int, _ error) {
+	if len(a) == 0 {
+		return SGRAttrClear, 0, nil // no argument defaults to 0
+	}
 	for n < len(a) {
 		switch a[n] {
 		case ';':
@@ -330,7 +333,7 @@ func DecodeSGR(a []byte) (attr SGRAttr, n int, _ error) {
 					0, // slow blink not supported
 					0, // fast blink not supported
 					SGRAttrNegative,
-					0, // concealed not supported
+					SGRAttrConceal,
 				}[a[n]-'0']; at {
 				case 0:
 				case SGRAttrClear:
-- 
2.43.0


From 10a22dc16441ba906d83870dfef9f3b46a2d4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 09/82] fix: palette conversion lost precision, choosing a
 color other than the closest

---
 ansi/colors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index 71cb641..4b3c919 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -718,8 +718,8 @@ func (p Palette) Index(c SGRColor) int {
 	return ret
 }
 
-// sqDiff borrowed from image/color
+// sqDiff adapted from image/color; 8-bit components need no down-scaling.
 func sqDiff(x, y uint8) uint32 {
 	d := uint32(x) - uint32(y)
-	return (d * d) >> 2
+	return d * d
 }
-- 
2.43.0


From 4621799805f32bab06fe81a579d888cf444a8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 10/82] fix: combining color models could alter another
 combination sharing a prefix

---
 ansi/colors.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ansi/colors.go b/ansi/colors.go
index 4b3c919..14762b8 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -464,6 +464,7 @@ func ColorModels(models ...ColorModel) ColorModel {
 		}
 		as, haveAs := a.(colorModels)
 		bs, haveBs := b.(colorModels)
+		as = as[:len(as):len(as)] // copy on append, as may be shared
 		if haveAs && haveBs {
 			a = append(as, bs...)
 		} else if haveAs {
-- 
2.43.0


From 3627968a33cf9935c8de0c6c7415d04e02e95312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 11/82] fix: RectFromImage always returned the zero rectangle,
 and ToImage turned empty rectangles into non-empty ones

---
 ansi/geom.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ansi/geom.go b/ansi/geom.go
index fe69b07..ec30f03 100644
--- a/ansi/geom.go
+++ b/ansi/geom.go
@@ -45,6 +45,8 @@ func RectFromImage(ir image.Rectangle) (r Rectangle) {
 	if ir.Min.X < 0 || ir.Min.Y < 0 || ir.Max.X < 0 || ir.Max.Y < 0 {
 		panic("out of bounds image.Rectangle value")
 	}
+	r.Min = PtFromImage(ir.Min)
+	r.Max = PtFromImage(ir.Max)
 	return r
 }
 
@@ -89,7 +91,7 @@ func (r Rectangle) ToImage() image.Rectangle {
 	if r.Min.X < 1 || r.Min.Y < 1 || r.Max.X < 1 || r.Max.Y < 1 {
 		panic("invalid ansi.Rectangle value")
 	}
-	return image.Rect(r.Min.X-1, r.Min.Y-1, r.Max.X-1, r.Max.Y-1)
+	return image.Rectangle{Min: r.Min.ToImage(), Max: r.Max.ToImage()}
 }
 
 // Add the given relative image point to a copy of the receiver screen point,
-- 
2.43.0


From 836bd66b91e7800faebfaad904a96d08e38ed650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 12/82] fix: a horizontal wheel mouse state was identified as
 the right button

---
 ansi/mouse.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ansi/mouse.go b/ansi/mouse.go
index 0a4b386..ca0a916 100644
--- a/ansi/mouse.go
+++ b/ansi/mouse.go
@@ -25,14 +25,14 @@ const (
 )
 
 // ButtonID returns a normalized mouse button number: 1=left,
-// 2=middle, 3=right, 4=wheel-up, 5=wheel-down (the value 6 is not
+// 2=middle, 3=right, 4=wheel-up, 5=wheel-down (the values 6 and 7 are not
 // technically impossible, but shouldn't be seen in practice).
 func (ms MouseState) ButtonID() uint8 {
-	i := (uint8(ms&(MouseButton1|MouseButton2|MouseButton3)) + 1) & 0x3 // % 4
+	i := uint8(ms & (MouseButton1 | MouseButton2 | MouseButton3 | MouseNoButton))
 	if ms&MouseWheel != 0 {
-		i += 3
+		return 4 + i
 	}
-	return i
+	return (i + 1) & 0x3 // % 4
 }
 
 // Modifier returns just the modifier bits, which can be tested against the
@@ -106,8 +106,10 @@ func (ms MouseState) ButtonName() string {
 		return "wheelDown" //
 	case 6:
 		return "thirdWheel" // XXX shouldn't be seen in practice
+	case 7:
+		return "fourthWheel" // XXX shouldn't be seen in practice
 	default:
-		panic("inconceivable") // 0x3 + 3 max above
+		panic("inconceivable") // 4 + 0x3 max above
 	}
 }
 
-- 
2.43.0


From 198c2f674469ddb1d70e9c0648ffe65bd5d4182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 13/82] fix: malformed mouse reports with a missing argument or
 separator were accepted, or left a partial position

---
 ansi/mouse.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ansi/mouse.go b/ansi/mouse.go
index ca0a916..2815144 100644
--- a/ansi/mouse.go
+++ b/ansi/mouse.go
@@ -165,9 +165,12 @@ func DecodeXtermExtendedMouse(id Escape, arg []byte) (b MouseState, p Point, err
 		arg = arg[1:]
 
 		v, n, err := DecodeNumber(arg)
-		if err == nil && v > 0xff || v < 0 {
+		if err == nil && (v > 0xff || v < 0) {
 			err = errRange
 		}
+		if err == nil && arg[0] == ';' {
+			err = errSyntax
+		}
 		if err != nil {
 			return 0, p, MouseDecodeError{id, arg0, "Cb", err}
 		}
@@ -178,19 +181,25 @@ func DecodeXtermExtendedMouse(id Escape, arg []byte) (b MouseState, p Point, err
 		arg = arg[n:]
 
 		p.X, n, err = DecodeNumber(arg)
+		if err == nil && arg[0] != ';' {
+			err = errSyntax
+		}
 		if err != nil {
-			return 0, p, MouseDecodeError{id, arg0, "Cx", err}
+			return 0, ZP, MouseDecodeError{id, arg0, "Cx", err}
 		}
 		arg = arg[n:]
 
 		p.Y, n, err = DecodeNumber(arg)
+		if err == nil && arg[0] != ';' {
+			err = errSyntax
+		}
 		if err != nil {
-			return 0, p, MouseDecodeError{id, arg0, "Cy", err}
+			return 0, ZP, MouseDecodeError{id, arg0, "Cy", err}
 		}
 		arg = arg[n:]
 
 		if len(arg) > 0 {
-			return 0, p, MouseDecodeError{id, arg0, "sequence", errExtraBytes}
+			return 0, ZP, MouseDecodeError{id, arg0, "sequence", errExtraBytes}
 		}
 	}
 	return b, p, nil
-- 
2.43.0


From d5b9654d235a2d188732bc2ae067f3a31cab5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 14/82] fix: Cursor.To emitted nothing when moving within a
 column

---
 state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 5104884..112acf7 100644
--- a/state.go
+++ b/state.go
@@ -158,7 +158,7 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 		return ansi.CUB.WithInts(-dx)
 	}
 
-	dy := pt.X - cs.X
+	dy := pt.Y - cs.Y
 	cs.Y = pt.Y
 	switch {
 	case dy == 0:
-- 
2.43.0


From 04ccfc69c741166a1cf234371663559d730faef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 15/82] fix: cursor moves after writing into the last column
 ended up one column off

---
 render.go | 5 ++++-
 state.go  | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/render.go b/render.go
index 3157ac4..286afa5 100644
--- a/render.go
+++ b/render.go
@@ -31,9 +31,12 @@ func writeGrid(aw ansiWriter, g Grid, prior Screen, style Style) (int, Screen) {
 	if len(prior.Attr) == 0 || len(prior.Rune) == 0 || prior.Rect.Empty() || !prior.Rect.Eq(g.Rect) {
 		var n int
 		n, prior.Cursor = writeGridFull(aw, prior.Cursor, g, style)
+		prior.Cursor.wrapPending(g.Rect)
 		return n, prior
 	}
-	return writeGridDiff(aw, g, prior, style)
+	n, prior := writeGridDiff(aw, g, prior, style)
+	prior.Cursor.wrapPending(g.Rect)
+	return n, prior
 }
 
 func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor) {
diff --git a/state.go b/state.go
index 112acf7..c922d07 100644
--- a/state.go
+++ b/state.go
@@ -175,6 +175,15 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 	return ansi.Seq{}
 }
 
+// wrapPending forgets the cursor position after writing into the last column:
+// terminals then leave the cursor there, with a pending wrap, so no relative
+// movement is possible.
+func (cs *Cursor) wrapPending(bounds ansi.Rectangle) {
+	if cs.X >= bounds.Max.X {
+		cs.Point = ansi.ZP
+	}
+}
+
 // NewLine moves the cursor to the start of the next line, returning the
 // necessary ansi sequence.
 func (cs *Cursor) NewLine() ansi.Seq {
-- 
2.43.0


From 3761bc2706550a4905bb352a5f101393ad3c7879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 16/82] fix: a user cursor outside of the screen could scroll
 the terminal, and was tracked where it was not

---
 state.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index c922d07..47ddda0 100644
--- a/state.go
+++ b/state.go
@@ -245,7 +245,11 @@ func (sc *Screen) update(aw ansiWriter, prior Screen) (int, Screen) {
 	n += aw.WriteSeq(prior.Cursor.Hide())
 	m, prior = writeGrid(aw, sc.Grid, prior, NoopStyle)
 	n += m
-	m, prior.Cursor = sc.Cursor.applyTo(aw, prior.Cursor)
+	cur := sc.Cursor
+	if cur.Point.Valid() {
+		cur.Point = sc.clamp(cur.Point)
+	}
+	m, prior.Cursor = cur.applyTo(aw, prior.Cursor)
 	n += m
 	prior.Resize(sc.Grid.Bounds().Size())
 	copy(prior.Rune, sc.Rune)
-- 
2.43.0


From f99eec5549e892a5d9e5eaa18b8cf61af8cd1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 17/82] fix: a full redraw filled blank cells with the last
 background color

---
 render.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/render.go b/render.go
index 286afa5..68bea6c 100644
--- a/render.go
+++ b/render.go
@@ -45,7 +45,12 @@ func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor)
 		style = Styles(style, ZeroRuneStyle(empty))
 	}
 	style = Styles(style, DefaultRuneStyle(empty))
-	n := aw.WriteSeq(ansi.ED.With('2'))
+	n := 0
+	if cur.Attr&ansi.SGRAttrBGMask != 0 {
+		// terminals erase using the current background color
+		n += aw.WriteSGR(cur.MergeSGR(0))
+	}
+	n += aw.WriteSeq(ansi.ED.With('2'))
 	// TODO support writing a sub-grid
 	for i, pt := 0, ansi.Pt(1, 1); i < len(g.Rune); {
 		if gr, ga := style.Style(pt, 0, g.Rune[i], 0, g.Attr[i]); gr != 0 {
-- 
2.43.0


From b0afd6886e8de8cdded103f9768babc1407d246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 18/82] fix: resuming a blocked screen write lost or mixed
 output, lost track of the cursor, and confused it with partial or skipped
 input

---
 screen.go | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/screen.go b/screen.go
index dd4a073..c6e0812 100644
--- a/screen.go
+++ b/screen.go
@@ -24,6 +24,8 @@ type ScreenDiffer struct {
 
 	VirtualScreen
 	Real Screen
+
+	out Buffer // output assembled by WriteTo
 }
 
 // VirtualScreen implements minimal terminal emulation around ScreenState.
@@ -81,38 +83,36 @@ var errSubScreenDiff = errors.New("anansi.ScreenDiffer does not support sub-scre
 // the needed output, then delegating to Buffer.WriteTo to flush output.
 //
 // When using an internal Buffer, resuming a partial write after EWOULDBLOCK is
-// supported, skipping the assembly step described above.
+// supported, skipping the assembly step described above. After any other write
+// error, all virtual state is Reset(), and the next update is a full redraw.
 func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 	if sc.IsSub() {
 		return 0, errSubScreenDiff
 	}
 
-	state := sc.Real
-	defer func() {
-		if err == nil {
-			sc.Real = state
-		}
-	}()
-
 	aw, haveAW := w.(ansiWriter)
 
 	// if caller didn't pass a buffered ansi writer, use internal buffer and
 	// then flush to the given io.Writer
 	if !haveAW {
 		defer func() {
-			n, err = sc.buf.WriteTo(w)
+			n, err = sc.out.WriteTo(w)
 			if err != nil && unwrapOSError(err) != syscall.EWOULDBLOCK {
 				sc.Reset()
-				sc.Invalidate()
+				sc.forget()
 			}
 		}()
 
 		// continue prior write (e.g. after isEWouldBlock(err) above)
-		if sc.buf.Len() > 0 {
+		if sc.out.Len() > 0 {
 			return
 		}
 
-		aw = &sc.buf
+		aw = &sc.out
+	} else if sc.out.Len() > 0 {
+		m, _ := aw.Write(sc.out.Bytes())
+		n += int64(m)
+		sc.out.Reset()
 	}
 
 	// enforce final user cursor state
@@ -120,8 +120,15 @@ func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 
 	// perform (full or differential) update
 	var m int
-	m, state = sc.VirtualScreen.update(aw, state)
-	return int64(m), err
+	m, sc.Real = sc.VirtualScreen.update(aw, sc.Real)
+	return n + int64(m), err
+}
+
+// forget any pending output, and all Real state that it would have caused.
+func (sc *ScreenDiffer) forget() {
+	sc.out.Reset()
+	sc.Invalidate()
+	sc.Real.Cursor = Cursor{Attr: ansi.SGRAttrBGMask} // not known, but maybe some background
 }
 
 // Write writes bytes to the internal buffer, updating screen state as describe
@@ -180,11 +187,8 @@ func (vsc *VirtualScreen) WriteSGR(attrs ...ansi.SGRAttr) (n int) {
 			n += vsc.buf.WriteSGR(attr)
 		}
 	}
-	if n > 0 {
-		vsc.buf.Skip(n)
-	}
+	vsc.process()
 	return n
-
 }
 
 func (vsc *VirtualScreen) process() {
@@ -200,6 +204,9 @@ func (tsc *TermScreen) Enter(term *Term) error { return tsc.SizeToTerm(term) }
 func (tsc *TermScreen) Exit(term *Term) error {
 	// discard all virtual state...
 	tsc.Reset()
+	if tsc.out.Len() > 0 {
+		tsc.forget()
+	}
 	// ...and restore real cursor state
 	n := tsc.buf.WriteSGR(tsc.Real.Cursor.MergeSGR(0))
 	n += tsc.buf.WriteSeq(tsc.Real.Cursor.Show())
-- 
2.43.0


From ea7c5c9da7e67d95ad0ef07935fa0a37e652c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 19/82] fix: sequences written by a VirtualCursor's methods
 could be processed again, or in part

---
 cursor.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/cursor.go b/cursor.go
index 815ba18..3afcbe7 100644
--- a/cursor.go
+++ b/cursor.go
@@ -97,34 +97,42 @@ func (c *VirtualCursor) WriteSGR(attrs ...ansi.SGRAttr) (n int) {
 	for i := range attrs {
 		n += c.buf.WriteSGR(c.Cursor.MergeSGR(attrs[i]))
 	}
-	if n > 0 {
-		c.buf.Skip(n)
-	}
+	c.skip(n)
 	return n
 }
 
 // To moves the cursor to the given point using absolute (ansi.CUP) or relative
 // (ansi.{CUU,CUD,CUF,CUD}) if possible.
 func (c *VirtualCursor) To(pt ansi.Point) {
-	c.buf.Skip(c.buf.WriteSeq(c.Cursor.To(pt)))
+	c.skip(c.buf.WriteSeq(c.Cursor.To(pt)))
 }
 
 // Show ensures that the cursor is visible, writing the necessary control
 // sequence into the internal buffer if this is a change.
 func (c *VirtualCursor) Show() {
-	c.buf.Skip(c.buf.WriteSeq(c.Cursor.Show()))
+	c.skip(c.buf.WriteSeq(c.Cursor.Show()))
 }
 
 // Hide ensures that the cursor is not visible, writing the necessary control
 // sequence into the internal buffer if this is a change.
 func (c *VirtualCursor) Hide() {
-	c.buf.Skip(c.buf.WriteSeq(c.Cursor.Hide()))
+	c.skip(c.buf.WriteSeq(c.Cursor.Hide()))
 }
 
 // Apply the given cursor state, writing any necessary escape sequences into
 // the internal buffer.
 func (c *VirtualCursor) Apply(cs Cursor) {
-	_, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	var n int
+	n, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	c.skip(n)
+}
+
+// skip processing of the last n bytes written, and of any incomplete sequence
+// before them, which they cancel.
+func (c *VirtualCursor) skip(n int) {
+	if n > 0 {
+		c.buf.Skip(c.buf.Len() - c.buf.off)
+	}
 }
 
 var _ ansiWriter = &VirtualCursor{}
-- 
2.43.0


From 42db124922416bcb53ba22d29b0b350048785a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 20/82] fix: moving from nowhere made a cursor position seem
 known, and zero or malformed move counts were taken as such

---
 state.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/state.go b/state.go
index 47ddda0..ced696c 100644
--- a/state.go
+++ b/state.go
@@ -275,6 +275,7 @@ func (cs *Cursor) ProcessANSI(e ansi.Escape, a []byte) {
 	switch {
 	case e.IsEscape():
 		cs.processEscape(e, a, ptID)
+	case !cs.Point.Valid(): // nowhere known to move from
 	case e == '\x0A': // LF
 		cs.Y++
 	case e == '\x0D': // CR
@@ -295,13 +296,19 @@ func (cs *Cursor) processEscape(
 ) {
 	switch e {
 	case ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB: // relative cursor motion
+		if !cs.Point.Valid() {
+			return // nowhere known to move from
+		}
 		b, _ := e.CSI()
 		d := cursorMoves[b-'A']
 		if len(a) > 0 {
-			n, _, err := ansi.DecodeNumber(a)
-			if err != nil {
+			n, m, err := ansi.DecodeNumber(a)
+			if err != nil || n < 0 || m < len(a) && a[m] != ';' {
 				return
 			}
+			if n == 0 {
+				n = 1
+			}
 			d = d.Mul(n)
 		}
 		cs.Point = clamp(cs.Point.Add(d))
@@ -309,11 +316,18 @@ func (cs *Cursor) processEscape(
 	case ansi.CUP: // absolute cursor motion
 		p := ansi.Pt(1, 1)
 		if len(a) > 0 {
+			var n int
 			var err error
-			p, _, err = ansi.DecodePoint(a)
-			if err != nil {
+			p, n, err = ansi.DecodePoint(a)
+			if err != nil || p.X < 0 || p.Y < 0 || n < len(a) && a[n] != ';' {
 				return
 			}
+			if p.X == 0 {
+				p.X = 1
+			}
+			if p.Y == 0 {
+				p.Y = 1
+			}
 		}
 		cs.Point = clamp(p)
 
-- 
2.43.0


From 2af54e36f85e9529e1e6be5a39e128d83ba68797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 21/82] fix: screen erases were off by one, ignored their
 default, and like carriage return escaped sub-screens

---
 state.go | 75 +++++++++++++++++++++++---------------------------------
 1 file changed, 30 insertions(+), 45 deletions(-)

diff --git a/state.go b/state.go
index ced696c..6d8eea8 100644
--- a/state.go
+++ b/state.go
@@ -60,7 +60,11 @@ func (sc Screen) SubSize(sz image.Point) Screen {
 // given rectangle; clamps the cursor to the new bounding rectangle.
 func (sc Screen) SubRect(r ansi.Rectangle) Screen {
 	sc.Grid = sc.Grid.SubRect(r)
-	sc.Cursor.Point = clampPointTo(sc.Cursor.Point, r)
+	if sc.Grid.Rect.Empty() {
+		sc.Cursor.Point = ansi.ZP
+	} else {
+		sc.Cursor.Point = clampPointTo(sc.Cursor.Point, sc.Grid.Rect)
+	}
 	return sc
 }
 
@@ -388,7 +392,7 @@ func (cs *Cursor) processEscape(
 // escape sequence(s) ignored.
 func (sc *Screen) ProcessANSI(e ansi.Escape, a []byte) {
 	if sc.Cursor.Point.Point == image.ZP {
-		sc.Cursor.Point = ansi.Pt(1, 1)
+		sc.Cursor.Point = sc.Bounds().Min
 	}
 	switch {
 	case e.IsEscape():
@@ -396,7 +400,7 @@ func (sc *Screen) ProcessANSI(e ansi.Escape, a []byte) {
 	case e == '\x0A': // LF
 		sc.linefeed()
 	case e == '\x0D': // CR
-		sc.Cursor.X = 1
+		sc.Cursor.X = sc.Bounds().Min.X
 	// TODO anything for other control runes?
 	case unicode.IsGraphic(rune(e)):
 		br := sc.Bounds()
@@ -412,54 +416,29 @@ func (sc *Screen) ProcessANSI(e ansi.Escape, a []byte) {
 
 func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 	switch e {
-	case ansi.ED:
-		var val byte
+	case ansi.ED, ansi.EL:
+		val := byte('0')
 		if len(a) == 1 {
 			val = a[0]
-		} else {
+		} else if len(a) > 1 {
 			return
 		}
-		switch val {
-		case '0': // Erase from current position to bottom of screen inclusive
-			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
-				sc.clearRegion(i+1, len(sc.Rune))
-			}
-		case '1': // Erase from top of screen to current position inclusive
-			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
-				sc.clearRegion(0, i+1)
-			}
-		case '2': // Erase entire screen (without moving the cursor)
-			sc.clearRegion(0, len(sc.Rune))
-		}
 
-	case ansi.EL:
-		var val byte
-		if len(a) == 1 {
-			val = a[0]
-		} else {
-			return
+		at := sc.clamp(sc.Cursor.Point)
+		lo, hi := sc.Bounds().Min, sc.Bounds().Max.Sub(image.Pt(1, 1))
+		if e == ansi.EL {
+			lo.Y, hi.Y = at.Y, at.Y
 		}
-
-		lo := sc.Cursor.Point
-		hi := sc.Bounds().Max.Sub(image.Pt(1, 1))
 		switch val {
-		case '0': // Erase from current position to end of line inclusive
-			hi.Y = sc.Cursor.Y
-		case '1': // Erase from beginning of line to current position inclusive
-			lo.X = 1
-			hi = sc.Cursor.Point
-		case '2': // Erase entire line (without moving cursor)
-			lo.X = 1
-			hi.Y = sc.Cursor.Y
+		case '0': // Erase from current position to bottom of screen / end of line inclusive
+			lo = at
+		case '1': // Erase from top of screen / beginning of line to current position inclusive
+			hi = at
+		case '2': // Erase entire screen / line (without moving the cursor)
 		default:
 			return
 		}
-
-		i, iok := sc.CellOffset(lo)
-		j, jok := sc.CellOffset(hi)
-		if iok && jok {
-			sc.clearRegion(i, j+1)
-		}
+		sc.clearRegion(lo, hi)
 
 		// case ansi.DECSTBM: TODO
 		// [12;24r Set scrolling region to lines 12 thru 24.  If a linefeed or an
@@ -474,10 +453,16 @@ func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 	}
 }
 
-func (sc *Screen) clearRegion(i, max int) {
-	for ; i < max; i++ {
-		sc.Grid.Rune[i] = 0
-		sc.Grid.Attr[i] = 0
+// clearRegion clears all cells between two points, inclusive, in reading order.
+func (sc *Screen) clearRegion(lo, hi ansi.Point) {
+	r := sc.Bounds()
+	for pt := lo; pt.Y <= hi.Y; pt.X, pt.Y = r.Min.X, pt.Y+1 {
+		for ; pt.X < r.Max.X && (pt.Y < hi.Y || pt.X <= hi.X); pt.X++ {
+			if i, ok := sc.CellOffset(pt); ok {
+				sc.Grid.Rune[i] = 0
+				sc.Grid.Attr[i] = 0
+			}
+		}
 	}
 }
 
-- 
2.43.0


From a1b8d7316c0de31929d0cc33da121f80e6f8a77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:06 +0000
Subject: [PATCH 22/82] fix: styled drawing gave styles the wrong point and
 read past its source, and overlapping draws smeared

---
 draw.go | 71 ++++++++++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/draw.go b/draw.go
index 9c96863..e20ad88 100644
--- a/draw.go
+++ b/draw.go
@@ -1,6 +1,10 @@
 package anansi
 
-import "github.com/jcorbin/anansi/ansi"
+import (
+	"image"
+
+	"github.com/jcorbin/anansi/ansi"
+)
 
 // DrawGrid copies the source grid's cells into the destination grid, applying
 // any optional styles to each cell.
@@ -18,52 +22,51 @@ func DrawGrid(dst, src Grid, styles ...Style) {
 		copyGrid(dst, src)
 		return
 	}
-	for dp, sp, di, si := copySetup(dst, src); sp.Y < src.Rect.Max.Y && dp.Y < dst.Rect.Max.Y; {
-		sii, dii := si, di
-		sp.X = src.Rect.Min.X
-		dp.X = dst.Rect.Min.X
-		for sp.X < src.Rect.Max.X && dp.X < dst.Rect.Max.X {
+	size, di, si := copySetup(dst, src)
+	for y := 0; y < size.Y; y++ {
+		for x := 0; x < size.X; x++ {
+			cx, cy := x, y
+			if di > si { // iterate in reverse, since dst and src may overlap
+				cx, cy = size.X-1-x, size.Y-1-y
+			}
+			sii := si + cy*src.Stride + cx
+			dii := di + cy*dst.Stride + cx
+			dp := dst.Rect.Min.Add(image.Pt(cx, cy))
 			dr, da := dst.Rune[dii], dst.Attr[dii]
 			sr, sa := src.Rune[sii], src.Attr[sii]
 			if sr, sa = style.Style(dp, dr, sr, da, sa); sr != 0 {
 				dst.Rune[dii], dst.Attr[dii] = sr, sa
 			}
-			sii++
-			dii++
-			sp.X++
 		}
-		si += src.Stride
-		di += dst.Stride
-		dp.Y++
 	}
 }
 
 func copyGrid(dst, src Grid) {
-	stride := src.Rect.Dx()
-	if dstride := dst.Rect.Dx(); stride > dstride {
-		stride = dstride
-	}
-	for dp, sp, di, si := copySetup(dst, src); sp.Y < src.Rect.Max.Y && dp.Y < dst.Rect.Max.Y; {
-		copy(dst.Rune[di:di+stride], src.Rune[si:si+stride])
-		sp.Y++
-		dp.Y++
-		si += src.Stride
-		di += dst.Stride
-	}
-	for dp, sp, di, si := copySetup(dst, src); sp.Y < src.Rect.Max.Y && dp.Y < dst.Rect.Max.Y; {
-		copy(dst.Attr[di:di+stride], src.Attr[si:si+stride])
-		sp.Y++
-		dp.Y++
-		si += src.Stride
-		di += dst.Stride
+	size, di, si := copySetup(dst, src)
+	for y := 0; y < size.Y; y++ {
+		cy := y
+		if di > si { // iterate in reverse, since dst and src may overlap
+			cy = size.Y - 1 - y
+		}
+		dii, sii := di+cy*dst.Stride, si+cy*src.Stride
+		copy(dst.Rune[dii:dii+size.X], src.Rune[sii:sii+size.X])
+		copy(dst.Attr[dii:dii+size.X], src.Attr[sii:sii+size.X])
 	}
 }
 
-func copySetup(dst, src Grid) (dp, sp ansi.Point, di, si int) {
-	dp, sp = dst.Rect.Min, src.Rect.Min
-	di, _ = dst.CellOffset(dp)
-	si, _ = src.CellOffset(sp)
-	return dp, sp, di, si
+// copySetup returns the size common to both grids, and the offset of each
+// grid's first cell.
+func copySetup(dst, src Grid) (size image.Point, di, si int) {
+	size = dst.Rect.Size()
+	if dx := src.Rect.Dx(); size.X > dx {
+		size.X = dx
+	}
+	if dy := src.Rect.Dy(); size.Y > dy {
+		size.Y = dy
+	}
+	di, _ = dst.CellOffset(dst.Rect.Min)
+	si, _ = src.CellOffset(src.Rect.Min)
+	return size, di, si
 }
 
 // DrawBitmap draw's a bitmap's braille runes into the destination grid.
-- 
2.43.0


From 79bde84bdbed7fd006e7e4a12ad21d90d2fe81e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 23/82] fix: resized sub-grids could leave the grid, grids got
 stuck at zero width, and Eq ignored size and sub-grids

---
 grid.go | 53 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/grid.go b/grid.go
index c2c3db4..2f68093 100644
--- a/grid.go
+++ b/grid.go
@@ -18,15 +18,22 @@ type Grid struct {
 // Resize the grid to have room for n cells.
 // Returns true only if the resize was a change, false if it was a no-op.
 func (g *Grid) Resize(size image.Point) bool {
+	if size.X <= 0 || size.Y <= 0 {
+		size = image.ZP
+	}
 	if size == g.Rect.Size() {
 		return false
 	}
 	if g.IsSub() {
-		if size.X > g.Stride {
-			size.X = g.Stride
+		max := g.fullSize().Sub(g.Rect.Min.ToImage())
+		if size.X > max.X {
+			size.X = max.X
+		}
+		if size.Y > max.Y {
+			size.Y = max.Y
 		}
-		if g.Stride*size.Y > len(g.Rune) {
-			size.Y = len(g.Rune) / g.Stride
+		if size == g.Rect.Size() {
+			return false
 		}
 		g.Rect.Max = g.Rect.Min.Add(size)
 	} else {
@@ -136,6 +143,9 @@ func (g Grid) SubRect(r ansi.Rectangle) Grid {
 	if r.Max.Y > g.Rect.Max.Y {
 		r.Max.Y = g.Rect.Max.Y
 	}
+	if r.Max.X < r.Min.X || r.Max.Y < r.Min.Y {
+		r.Max = r.Min
+	}
 	return Grid{
 		Attr:   g.Attr,
 		Rune:   g.Rune,
@@ -147,24 +157,27 @@ func (g Grid) SubRect(r ansi.Rectangle) Grid {
 // Eq returns true only if the other grid has the same size and contents as the
 // receiver.
 func (g Grid) Eq(other Grid, zero rune) bool {
-	n := len(g.Rune)
-	if n != len(other.Rune) {
+	if g.Rect.Size() != other.Rect.Size() {
 		return false
 	}
-	i := 0
-	for ; i < n; i++ {
-		if g.Attr[i] != other.Attr[i] {
-			return false
-		}
-		gr, or := g.Rune[i], other.Rune[i]
-		if gr == 0 {
-			gr = zero
-		}
-		if or == 0 {
-			or = zero
-		}
-		if gr != or {
-			return false
+	at := g.Rect.Min
+	for pt := at; pt.Y < g.Rect.Max.Y; pt.Y++ {
+		for pt.X = at.X; pt.X < g.Rect.Max.X; pt.X++ {
+			i, _ := g.CellOffset(pt)
+			j, _ := other.CellOffset(other.Rect.Min.Add(pt.Diff(at)))
+			if g.Attr[i] != other.Attr[j] {
+				return false
+			}
+			gr, or := g.Rune[i], other.Rune[j]
+			if gr == 0 {
+				gr = zero
+			}
+			if or == 0 {
+				or = zero
+			}
+			if gr != or {
+				return false
+			}
 		}
 	}
 	return true
-- 
2.43.0


From 8861aa50b4d613027f21425720da5d771dfaec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 24/82] fix: a no-op style dropped the cell's attribute

---
 style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/style.go b/style.go
index b27a746..a91391b 100644
--- a/style.go
+++ b/style.go
@@ -57,7 +57,7 @@ func (f StyleFunc) Style(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, an
 type _noopStyle struct{}
 
 func (ns _noopStyle) Style(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
-	return r, 0
+	return r, a
 }
 
 // NoopStyle is a no-op style, used as a zero fill by Styles.
-- 
2.43.0


From 6bc6bea5017792f18aee6b751c95919038cde3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 25/82] fix: loading a partial, short, or empty bitmap lost
 bits or panicked; writing a sub-bitmap added a line break; unstyled runes
 kept the last style

---
 bitmap.go | 15 +++++++++++----
 render.go |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/bitmap.go b/bitmap.go
index 2df4c15..ecb35a4 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -13,11 +13,15 @@ type Bitmap struct {
 	Rect   image.Rectangle
 }
 
-// Load the given bit data into the bitmap.
+// Load the given bit data into the bitmap; any unfilled part of the last row
+// is unset.
 func (bi *Bitmap) Load(stride int, data []bool) {
-	h := len(data) / stride
-	for i, n := 0, len(data)%h; i < n; i++ {
-		data = append(data, false)
+	h := 0
+	if stride > 0 {
+		h = (len(data) + stride - 1) / stride
+	}
+	if n := stride*h - len(data); n > 0 {
+		data = append(data[:len(data):len(data)], make([]bool, n)...)
 	}
 	bi.Bit = data
 	bi.Stride = stride
@@ -220,6 +224,9 @@ func (bi Bitmap) SubRect(r image.Rectangle) Bitmap {
 	if r.Max.Y > bi.Rect.Max.Y {
 		r.Max.Y = bi.Rect.Max.Y
 	}
+	if r.Max.X < r.Min.X || r.Max.Y < r.Min.Y {
+		r.Max = r.Min
+	}
 	return Bitmap{
 		Bit:    bi.Bit,
 		Stride: bi.Stride,
diff --git a/render.go b/render.go
index 68bea6c..c82b23f 100644
--- a/render.go
+++ b/render.go
@@ -142,7 +142,7 @@ func WriteBitmap(w io.Writer, bi Bitmap, styles ...Style) (int, error) {
 
 func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cursor) {
 	for bp := bi.Rect.Min; bp.Y < bi.Rect.Max.Y; bp.Y += 4 {
-		if bp.Y > 0 {
+		if bp.Y > bi.Rect.Min.Y {
 			n += aw.WriteSeq(cur.NewLine())
 		}
 		for bp.X = bi.Rect.Min.X; bp.X < bi.Rect.Max.X; bp.X += 2 {
@@ -150,7 +150,7 @@ func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cu
 			sr := bi.Rune(bp)
 			r, a := style.Style(sp, 0, sr, 0, 0)
 
-			if a != 0 {
+			if a != 0 || cur.Attr != 0 {
 				ad := cur.MergeSGR(a)
 				n += aw.WriteSGR(ad)
 			}
-- 
2.43.0


From c7b302726d7b8c53609805f051ab1b7a593c0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 26/82] fix: styles were given bit coordinates when rendering
 bitmaps, rather than the cell's point

---
 draw.go   | 9 ++-------
 render.go | 3 ++-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/draw.go b/draw.go
index e20ad88..ded360a 100644
--- a/draw.go
+++ b/draw.go
@@ -1,10 +1,6 @@
 package anansi
 
-import (
-	"image"
-
-	"github.com/jcorbin/anansi/ansi"
-)
+import "image"
 
 // DrawGrid copies the source grid's cells into the destination grid, applying
 // any optional styles to each cell.
@@ -87,9 +83,8 @@ func DrawBitmap(dst Grid, src Bitmap, styles ...Style) {
 		for gp.X < dst.Rect.Max.X && bp.X < src.Rect.Max.X {
 			if i, ok := dst.CellOffset(gp); ok {
 				r, a := src.Rune(bp), dst.Attr[i]
-				sp := ansi.PtFromImage(bp)
 				pr, pa := dst.Rune[i], dst.Attr[i]
-				if r, a = style.Style(sp, pr, r, pa, a); r != 0 {
+				if r, a = style.Style(gp, pr, r, pa, a); r != 0 {
 					dst.Rune[i], dst.Attr[i] = r, a
 				}
 			}
diff --git a/render.go b/render.go
index c82b23f..8d11ea3 100644
--- a/render.go
+++ b/render.go
@@ -146,7 +146,8 @@ func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cu
 			n += aw.WriteSeq(cur.NewLine())
 		}
 		for bp.X = bi.Rect.Min.X; bp.X < bi.Rect.Max.X; bp.X += 2 {
-			sp := ansi.PtFromImage(bp)
+			sp := ansi.PtFromImage(bp.Sub(bi.Rect.Min))
+			sp.X, sp.Y = (sp.X+1)/2, (sp.Y+3)/4
 			sr := bi.Rune(bp)
 			r, a := style.Style(sp, 0, sr, 0, 0)
 
-- 
2.43.0


From fc16e0183a67a3436234dc50d71a8606ed12cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 27/82] fix: omitted cursor motion arguments did not default to
 1

---
 state.go | 58 ++++++++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/state.go b/state.go
index 6d8eea8..93a0c8e 100644
--- a/state.go
+++ b/state.go
@@ -292,6 +292,31 @@ func (cs *Cursor) ProcessANSI(e ansi.Escape, a []byte) {
 
 func ptID(pt ansi.Point) ansi.Point { return pt }
 
+// decodeMoveArgs decodes up to two cursor motion arguments, each of which
+// defaults to 1 when zero or not given.
+func decodeMoveArgs(a []byte) (n, m int, ok bool) {
+	ns := [2]int{1, 1}
+	for i := 0; len(a) > 0 && i < len(ns); i++ {
+		if '0' <= a[0] && a[0] <= '9' {
+			r, m, err := ansi.DecodeNumber(a)
+			if err != nil {
+				return 0, 0, false
+			}
+			if r > 0 {
+				ns[i] = r
+			}
+			a = a[m:]
+		}
+		if len(a) > 0 {
+			if a[0] != ';' {
+				return 0, 0, false
+			}
+			a = a[1:]
+		}
+	}
+	return ns[0], ns[1], true
+}
+
 // processEscape implements cursor escape processing shared with ScreenState,
 // which passes a non-identity clamp function.
 func (cs *Cursor) processEscape(
@@ -303,37 +328,16 @@ func (cs *Cursor) processEscape(
 		if !cs.Point.Valid() {
 			return // nowhere known to move from
 		}
-		b, _ := e.CSI()
-		d := cursorMoves[b-'A']
-		if len(a) > 0 {
-			n, m, err := ansi.DecodeNumber(a)
-			if err != nil || n < 0 || m < len(a) && a[m] != ';' {
-				return
-			}
-			if n == 0 {
-				n = 1
-			}
-			d = d.Mul(n)
+		if n, _, ok := decodeMoveArgs(a); ok {
+			b, _ := e.CSI()
+			d := cursorMoves[b-'A']
+			cs.Point = clamp(cs.Point.Add(d.Mul(n)))
 		}
-		cs.Point = clamp(cs.Point.Add(d))
 
 	case ansi.CUP: // absolute cursor motion
-		p := ansi.Pt(1, 1)
-		if len(a) > 0 {
-			var n int
-			var err error
-			p, n, err = ansi.DecodePoint(a)
-			if err != nil || p.X < 0 || p.Y < 0 || n < len(a) && a[n] != ';' {
-				return
-			}
-			if p.X == 0 {
-				p.X = 1
-			}
-			if p.Y == 0 {
-				p.Y = 1
-			}
+		if y, x, ok := decodeMoveArgs(a); ok {
+			cs.Point = clamp(ansi.Pt(x, y))
 		}
-		cs.Point = clamp(p)
 
 	case ansi.SGR:
 		if attr, _, err := ansi.DecodeSGR(a); err == nil {
-- 
2.43.0


From 9669c7db4a34198e43b0dd938fd88361aaafc494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:45 +0000
Subject: [PATCH 28/82] fix: combined attribute transparency kept the prior
 value only when both foreground and background were unset

---
 style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/style.go b/style.go
index a91391b..2143eb6 100644
--- a/style.go
+++ b/style.go
@@ -140,7 +140,7 @@ var (
 
 	// TransparentAttrBGFG is a style that acts as both TransparentBG and
 	// TransparentAttrFG combined.
-	TransparentAttrBGFG Style = transparentAttrStyle(ansi.SGRAttrBGMask | ansi.SGRAttrFGMask | ansi.SGRAttrMask)
+	TransparentAttrBGFG = Styles(TransparentAttrBG, TransparentAttrFG)
 )
 
 type transparentRuneStyle struct{}
-- 
2.43.0


From 9154b0ad406d087df62a7333183574c52efe79ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 29/82] fix: composing contexts could alter another composition
 of the same parts

---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 7c6da8d..4c9f1ff 100644
--- a/context.go
+++ b/context.go
@@ -38,9 +38,9 @@ func Contexts(cs ...Context) Context {
 		as, haveAs := a.(contexts)
 		bs, haveBs := b.(contexts)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(contexts{a}, bs...)
 		} else {
-- 
2.43.0


From 76eae849f5403081dba5adb614e187f594ef5289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:00 +0000
Subject: [PATCH 30/82] fix: running a nested terminal closed contexts early,
 and failing to resume or suspend exited them twice

---
 term.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/term.go b/term.go
index 13481b8..b406ca7 100644
--- a/term.go
+++ b/term.go
@@ -98,24 +98,27 @@ func (term *Term) RunWith(within func(*Term) error) (err error) {
 		term.active = false
 	}()
 
+	term.initContext()
+
 	if !term.under {
 		term.under = true
 		defer func() {
 			term.under = false
 		}()
-	}
 
-	term.initContext()
-
-	if cl, ok := term.ctx.(interface{ Close() error }); ok {
-		defer func() {
-			if cerr := cl.Close(); err == nil {
-				err = cerr
-			}
-		}()
+		if cl, ok := term.ctx.(interface{ Close() error }); ok {
+			defer func() {
+				if cerr := cl.Close(); err == nil {
+					err = cerr
+				}
+			}()
+		}
 	}
 
 	defer func() {
+		if !term.active {
+			return // already exited by a failed RunWithout
+		}
 		if cerr := term.ctx.Exit(term); err == nil {
 			err = cerr
 		}
@@ -155,12 +158,11 @@ func (term *Term) RunWithout(without func(*Term) error) (err error) {
 	if !term.active {
 		return without(term)
 	}
+	term.active = false
 	if err = term.ctx.Exit(term); err == nil {
-		term.active = false
 		if err = without(term); err == nil {
-			if err = term.ctx.Enter(term); err == nil {
-				term.active = true
-			}
+			term.active = true // need Exit, even if Enter fails
+			err = term.ctx.Enter(term)
 		}
 	}
 	return err
-- 
2.43.0


From bd6ed44f38742716fa35b0836b5bdaee56cb7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 31/82] fix: output after resuming a suspended screen trusted
 attributes and cursor visibility from before

---
 screen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index c6e0812..815bc31 100644
--- a/screen.go
+++ b/screen.go
@@ -197,7 +197,10 @@ func (vsc *VirtualScreen) process() {
 }
 
 // Enter calls SizeToTerm.
-func (tsc *TermScreen) Enter(term *Term) error { return tsc.SizeToTerm(term) }
+func (tsc *TermScreen) Enter(term *Term) error {
+	tsc.forget() // anything may have been done to the terminal before now
+	return tsc.SizeToTerm(term)
+}
 
 // Exit Reset()s all virtual state, and restores real terminal graphics and
 // cursor state.
-- 
2.43.0


From 6e80f758d4789f10a2a1d9734c15848ca9a4efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 32/82] fix: a blocking read after a non-blocking one failed
 with EAGAIN, and input flags set before entering were not restored

---
 input.go | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/input.go b/input.go
index e16fd68..4b1d4b0 100644
--- a/input.go
+++ b/input.go
@@ -25,7 +25,8 @@ type Input struct {
 	File        *os.File
 	MinReadSize int
 
-	oldFlags uintptr
+	oldFlags uintptr // as they were before being changed
+	changed  bool    // since oldFlags
 	ateof    bool
 	nonblock bool
 	async    bool
@@ -209,6 +210,7 @@ func (in *Input) ReadMore() (int, error) {
 			if err := in.setNonblock(false); err != nil {
 				return 0, err
 			}
+			continue
 
 		case nil:
 			in.ateof = false
@@ -287,18 +289,16 @@ func (in *Input) ReadAny() (n int, err error) {
 // Enter gets the current fcntl flags for restoration during Exit(), and sets
 // non-blocking/async modes if needed.
 func (in *Input) Enter(term *Term) error {
-	prior, err := in.setFlags()
-	if err == nil {
-		in.oldFlags = prior
-	}
-	return err
+	return in.setFlags()
 }
 
-// Exit restores fcntl flags to their Enter() time value.
+// Exit restores fcntl flags to the value that they had before Enter(), or any
+// earlier Notify() or read, changed them.
 func (in *Input) Exit(term *Term) error {
-	if in.File == nil {
+	if in.File == nil || !in.changed {
 		return nil
 	}
+	in.changed = false
 	if _, _, err := in.fcntl(syscall.F_SETFL, in.oldFlags); err != nil {
 		return fmt.Errorf("failed to set input file flags: %v", err)
 	}
@@ -359,7 +359,7 @@ func (in *Input) setAsync(async bool) error {
 		return nil
 	}
 	in.async = async
-	if _, err := in.setFlags(); err != nil {
+	if err := in.setFlags(); err != nil {
 		return err
 	}
 	if in.async && in.File != nil {
@@ -372,32 +372,32 @@ func (in *Input) setAsync(async bool) error {
 }
 
 func (in *Input) setNonblock(nonblock bool) error {
-	if nonblock == in.nonblock {
-		return nil
-	}
 	in.nonblock = nonblock
-	_, err := in.setFlags()
-	return err
+	return in.setFlags()
 }
 
-func (in *Input) setFlags() (prior uintptr, _ error) {
+func (in *Input) setFlags() error {
 	if in.File == nil {
-		return 0, nil
+		return nil
 	}
-	flags, _, err := in.fcntl(syscall.F_GETFL, 0)
+	prior, _, err := in.fcntl(syscall.F_GETFL, 0)
 	if err != nil {
-		return 0, fmt.Errorf("failed to get input file flags: %v", err)
+		return fmt.Errorf("failed to get input file flags: %v", err)
 	}
-	prior = flags
-	flags = in.buildFlags(flags)
-	_, _, err = in.fcntl(syscall.F_SETFL, flags)
-	if err != nil {
-		return prior, fmt.Errorf("failed to set input file flags: %v", err)
+	if !in.changed {
+		in.oldFlags = prior
+		in.changed = true
 	}
-	return prior, nil
+	if flags := in.buildFlags(prior); flags != prior {
+		if _, _, err = in.fcntl(syscall.F_SETFL, flags); err != nil {
+			return fmt.Errorf("failed to set input file flags: %v", err)
+		}
+	}
+	return nil
 }
 
 func (in *Input) buildFlags(flags uintptr) uintptr {
+	flags &^= syscall.O_NONBLOCK | syscall.O_ASYNC
 	if in.nonblock {
 		flags |= syscall.O_NONBLOCK
 	}
-- 
2.43.0


From 6acbc82d68c43c90c836d36b01600854226a0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 33/82] fix: a resume signal arriving before Suspend waited for
 it was lost, blocking it until another

---
 term.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.go b/term.go
index b406ca7..71f8eda 100644
--- a/term.go
+++ b/term.go
@@ -176,7 +176,7 @@ func (term *Term) Suspend() error {
 		return term.RunWithout((*Term).Suspend)
 	}
 
-	cont := make(chan os.Signal)
+	cont := make(chan os.Signal, 1)
 	signal.Notify(cont, syscall.SIGCONT)
 	defer signal.Stop(cont)
 	log.Printf("suspending")
-- 
2.43.0


From 25413fe6555e8eaef15569b9ec3a63dd3a6d4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 34/82] fix: echo was off in normal mode unless set, though
 documented as on by default

---
 attr.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/attr.go b/attr.go
index bbf46c0..cd32a96 100644
--- a/attr.go
+++ b/attr.go
@@ -20,6 +20,7 @@ type Attr struct {
 	cur     syscall.Termios
 	raw     bool
 	echo    bool
+	setEcho bool // by SetEcho, rather than the default for raw
 }
 
 // IsTerminal returns true only if the given file is attached to an interactive
@@ -70,18 +71,15 @@ func (at *Attr) SetRaw(raw bool) error {
 // SetEcho toggles input echoing mode, which is off by default in raw mode, and
 // on in normal mode.
 func (at *Attr) SetEcho(echo bool) error {
-	if echo == at.echo {
+	if at.setEcho && echo == at.echo {
 		return nil
 	}
 	at.echo = echo
+	at.setEcho = true
 	if at.file == nil {
 		return nil
 	}
-	if echo {
-		at.cur.Lflag |= syscall.ECHO
-	} else {
-		at.cur.Lflag &^= syscall.ECHO
-	}
+	at.cur = at.modifyTermios(at.orig)
 	if err := at.setAttr(at.cur); err != nil {
 		return fmt.Errorf("failed to set termios attr: %v", err)
 	}
@@ -102,7 +100,11 @@ func (at Attr) modifyTermios(attr syscall.Termios) syscall.Termios {
 		attr.Cc[syscall.VTIME] = 0
 
 	}
-	if at.echo {
+	echo := !at.raw
+	if at.setEcho {
+		echo = at.echo
+	}
+	if echo {
 		attr.Lflag |= syscall.ECHO
 	} else {
 		attr.Lflag &^= syscall.ECHO
-- 
2.43.0


From 0125681853eba9b72f605d4545cb3ad3945912b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 35/82] fix: a stack growing during a terminal ioctl lost its
 result, and overwrote unrelated memory

---
 attr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attr.go b/attr.go
index cd32a96..2ef33da 100644
--- a/attr.go
+++ b/attr.go
@@ -151,6 +151,10 @@ func (at *Attr) Exit(term *Term) error {
 	return nil
 }
 
+// ioctl calls the named syscall; any pointer arguments must be converted to
+// uintptr within the call's argument list, so as to be pinned until it returns.
+//
+//go:uintptrescapes
 func (at Attr) ioctl(request, arg1, arg2, arg3, arg4 uintptr) error {
 	if at.file == nil {
 		return errAttrNoFile
-- 
2.43.0


From b4afaa993b8823409f3c15a3bf7a2b4c727d2e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 36/82] fix: replayed input gained and lost bytes, and recorded
 errors were turned into messages

---
 input.go | 118 +++++++++++++++++++++++--------------------------------
 1 file changed, 50 insertions(+), 68 deletions(-)

diff --git a/input.go b/input.go
index 4b1d4b0..7aa2853 100644
--- a/input.go
+++ b/input.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/signal"
 	"runtime"
@@ -464,93 +465,74 @@ func (frm InputFrame) String() string {
 }
 
 // ReadInputReplay reads an InputReplay from the provided file.
+//
+// Each recorded timing mark starts a new frame, as does any other APC message.
 func ReadInputReplay(f *os.File) (InputReplay, error) {
-	fi, err := f.Stat()
+	data, err := ioutil.ReadAll(f)
 	if err != nil {
 		return nil, err
 	}
 
-	estBytes := int(fi.Size())
-	estFrames := estBytes / recMarkSize
-
-	type protoFrame struct {
-		InputFrame
-		e [2]int
-		b [2]int
-		m [2]int
-	}
-
 	var (
-		in     = Input{File: f, MinReadSize: 1024}
-		frames = make([]protoFrame, 0, estFrames)
-		bs     = make([]byte, 0, estBytes)
-		off    int
-		prot   protoFrame
+		result InputReplay
+		frm    InputFrame
+		start  int // of frame input
 	)
 
-	push := func() {
-		if prot.m != [2]int{} || !prot.T.IsZero() || off < len(bs) {
-			prot.b = [2]int{off, len(bs)}
-			frames = append(frames, prot)
-			prot = protoFrame{}
-			off = len(bs)
+	push := func(end int) {
+		frm.B = data[start:end:end]
+		if !frm.T.IsZero() || frm.E != nil || frm.M != nil || len(frm.B) > 0 {
+			result = append(result, frm)
 		}
+		frm = InputFrame{}
+		start = end
 	}
 
-	for {
-		e, a, ok := in.Decode()
-		if !ok {
-			if _, err := in.ReadMore(); err == io.EOF {
-				push()
-				break
-			} else if err != nil {
-				return nil, err
-			}
+	for i := 0; i < len(data); {
+		mess, n := decodeRecMessage(data[i:])
+		if n == 0 {
+			i++
+			continue
 		}
-
-		if e == 0x9F { // APC
-			switch {
-			case bytes.HasPrefix(a, []byte("recTime:")):
-				push()
-				if parseErr := prot.T.UnmarshalText(a[8:]); parseErr != nil {
-					return nil, fmt.Errorf("invalid recTime value %q", a[8:])
-				}
-			case bytes.HasPrefix(a, []byte("recReadErr:")):
-				bs = append(bs, a[11:]...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
-				push()
-			default:
-				push()
-				bs = append(bs, a...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
+		switch {
+		case bytes.HasPrefix(mess, []byte("recTime:")):
+			push(i)
+			if parseErr := frm.T.UnmarshalText(mess[8:]); parseErr != nil {
+				return nil, fmt.Errorf("invalid recTime value %q", mess[8:])
 			}
-		} else if e.IsEscape() {
-			bs = e.AppendWith(bs, a...)
-		} else {
-			var tmp [4]byte
-			n := utf8.EncodeRune(tmp[:], rune(e))
-			bs = append(bs, tmp[:n]...)
+		case bytes.HasPrefix(mess, []byte("recReadErr:")):
+			if start < i {
+				push(i)
+			}
+			frm.E = InputError(mess[11:])
+		default:
+			push(i)
+			frm.M = mess
 		}
+		i += n
+		start = i
 	}
+	push(len(data))
 
-	result := make(InputReplay, len(frames))
-	for i, frm := range frames {
-		if frm.e != [2]int{} {
-			prot.E = InputError(bs[frm.e[0]:frm.e[1]])
-		}
-		if frm.b != [2]int{} {
-			frm.B = bs[frm.b[0]:frm.b[1]]
-		}
-		if frm.m != [2]int{} {
-			frm.M = bs[frm.m[0]:frm.m[1]]
-		}
-		result[i] = frm.InputFrame
-	}
 	return result, nil
 }
 
+// decodeRecMessage decodes any complete APC string from the start of p,
+// returning its content and total length; any other bytes, including any
+// unfinished APC string, are input that must be replayed exactly as it was.
+func decodeRecMessage(p []byte) (mess []byte, n int) {
+	const start, end = "\x1b_", "\x1b\\"
+	if !bytes.HasPrefix(p, []byte(start)) {
+		return nil, 0
+	}
+	mess = p[len(start):]
+	i := bytes.IndexByte(mess, end[0])
+	if i < 0 || !bytes.HasPrefix(mess[i:], []byte(end)) {
+		return nil, 0
+	}
+	return mess[:i:i], len(start) + i + len(end)
+}
+
 func unwrapOSError(err error) error {
 	for {
 		switch val := err.(type) {
-- 
2.43.0


From 03201afa7dac788b5423c9b30aabd0b306c68e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 37/82] fix: recorded frames were described without their input

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 7aa2853..76738e7 100644
--- a/input.go
+++ b/input.go
@@ -459,7 +459,7 @@ func (frm InputFrame) String() string {
 	if len(frm.B) == 0 {
 		_, _ = buf.WriteString(" mark")
 	} else {
-		_, _ = fmt.Fprintf(&buf, " %q", frm.M)
+		_, _ = fmt.Fprintf(&buf, " %q", frm.B)
 	}
 	return buf.String()
 }
-- 
2.43.0


From 78542fc502a1932395c6e2f66714aa2fcf6a7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 38/82] fix: asking for notification again after Exit had no
 effect

---
 input.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/input.go b/input.go
index 76738e7..b2a2663 100644
--- a/input.go
+++ b/input.go
@@ -356,9 +356,6 @@ func (in *Input) readBuf() []byte {
 }
 
 func (in *Input) setAsync(async bool) error {
-	if async == in.async {
-		return nil
-	}
 	in.async = async
 	if err := in.setFlags(); err != nil {
 		return err
-- 
2.43.0


From 28862f8d35ac973566471e26b46f1bce9b7eac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 39/82] fix: event decoding invented a rune after a cancelled
 sequence

---
 x/platform/event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index 5baed5c..c6e99b5 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -190,6 +190,9 @@ func (es *Events) DecodeBytes(b []byte) {
 		e, a, n := ansi.DecodeEscape(b)
 		b = b[n:]
 		if e == 0 {
+			if n > 0 {
+				continue // past a cancelled sequence
+			}
 			r, n := utf8.DecodeRune(b)
 			b = b[n:]
 			e = ansi.Escape(r)
-- 
2.43.0


From 427c719ea5291a3943e22bd95bab254f4185e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 40/82] fix: queued events lost their arguments to the next
 read

---
 x/platform/event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index c6e99b5..632aaf2 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -228,6 +228,9 @@ func (es *Events) add(e ansi.Escape, a []byte) {
 
 	es.Type = append(es.Type, kind)
 	es.esc = append(es.esc, e)
+	if len(a) > 0 {
+		a = append([]byte(nil), a...) // may be overwritten by the next read
+	}
 	es.arg = append(es.arg, a)
 	es.mouse = append(es.mouse, m)
 }
-- 
2.43.0


From d7686536c2b770935f23991afec8b3cc6e664b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 41/82] fix: an event was counted again for a rune given twice

---
 x/platform/event.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index 632aaf2..b30d999 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -79,6 +79,7 @@ func (es *Events) CountRune(rs ...rune) (n int) {
 			if es.esc[i] == ansi.Escape(r) {
 				es.Type[i] = EventNone
 				n++
+				break
 			}
 		}
 	}
-- 
2.43.0


From 679113b1f9d31214b3d4ba3745877a62281c0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 42/82] fix: an ESC inside a just-filled read buffer held up
 all complete input after it

---
 input.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index b2a2663..602b581 100644
--- a/input.go
+++ b/input.go
@@ -164,8 +164,8 @@ func (in *Input) decodeRune() (rune, bool) {
 			return 0, false
 		case 0x1B: // ESC
 			p := in.buf.Bytes()
-			if len(p) == cap(p) && !in.ateof {
-				return 0, false
+			if len(p) == cap(p) && len(bytes.TrimLeft(p[n:], " !\"#$%&'()*+,-./\x7f")) == 0 {
+				return 0, false // more may be available to complete it
 			}
 			if len(p) > n && !utf8.FullRune(p[n:]) {
 				return 0, false
-- 
2.43.0


From 178674c1b49ceec74ff85122a5bd044e5cd7be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 43/82] fix: backspace within the edited line removed the
 character after the cursor

---
 x/platform/editline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index e87a76c..8954224 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -179,7 +179,7 @@ func (edl *EditLine) handleControlRune(ctx *Context, eid int) {
 		if edl.Cur > 0 {
 			if edl.Cur < utf8.RuneCount(edl.Buf) {
 				in := edl.Buf
-				for j := 0; j < edl.Cur; j++ {
+				for j := 0; j < edl.Cur-1; j++ {
 					_, n := utf8.DecodeRune(in)
 					in = in[n:]
 				}
-- 
2.43.0


From f6d0c7ff99defd96d5bf98a41f3ab977e31f180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 44/82] fix: the edited line took in characters typed after it
 was submitted or canceled

---
 x/platform/editline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 8954224..35da281 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -57,6 +57,9 @@ func (edl *EditLine) Update(ctx *Context) {
 		edl.handleEvent = defaultBehavior
 	}
 	for eid := range ctx.Input.Type {
+		if edl.State != EditLineReady {
+			return
+		}
 		edl.handleEvent(edl, ctx, eid)
 	}
 
-- 
2.43.0


From 5a797b2120d61a72b63fd39c88e7e9581125b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 45/82] fix: the edit line showed its cursor past its box, and
 drew a blank outside of it

---
 x/platform/editline.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 35da281..c9596aa 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -80,22 +80,26 @@ func (edl *EditLine) Update(ctx *Context) {
 	}
 
 	// ensure cursor within right rune offset
-	hi := edl.View + n
-	if w := edl.Box.Dx(); n > w {
-		hi = edl.View + w
-	}
-	if edl.Cur >= hi {
-		d := edl.Cur - hi
-		if hi < n {
-			d++
-		}
-		hi += d
+	w := edl.Box.Dx()
+	if w < 1 {
+		return
+	}
+	if d := edl.Cur - (edl.View + w - 1); d > 0 {
 		edl.View += d
-	} else if reclaim := hi - n; reclaim > 0 {
+	}
+
+	// reclaim any space past the end, other than for the cursor
+	end := n
+	if edl.Cur == n {
+		end++
+	}
+	if reclaim := edl.View + w - end; reclaim > 0 {
 		edl.View -= reclaim
-		hi -= reclaim
+		if edl.View < 0 {
+			edl.View = 0
+		}
 	}
-	lo := edl.View
+	lo, hi := edl.View, edl.View+w
 
 	// TODO ellipses
 
@@ -111,14 +115,13 @@ func (edl *EditLine) Update(ctx *Context) {
 	if len(b) > 0 {
 		ctx.Output.To(edl.Box.Min)
 		ctx.Output.Write(b)
+		if edl.Cur == n {
+			ctx.Output.WriteRune(' ')
+		}
 	}
 
 	ctx.Output.UserCursor.Visible = true
 	ctx.Output.UserCursor.Point = ansi.Pt(edl.Box.Min.X+edl.Cur-edl.View, edl.Box.Min.Y)
-	if ctx.Output.Cursor.X == ctx.Output.UserCursor.X {
-		ctx.Output.WriteRune(' ')
-	}
-
 	return
 }
 
-- 
2.43.0


From b35b7e489a4a35a6963cb6a6b9f49da17d08a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:18 +0000
Subject: [PATCH 46/82] fix: absent terminfo strings were read as other
 strings' bytes, and malformed descriptions accepted

---
 terminfo/read.go | 88 ++++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/terminfo/read.go b/terminfo/read.go
index 0b20719..71347da 100644
--- a/terminfo/read.go
+++ b/terminfo/read.go
@@ -1,9 +1,11 @@
 package terminfo
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
+	"io/ioutil"
 )
 
 var (
@@ -62,10 +64,7 @@ var (
 //
 // TODO should we return an `nRead int` too so that TermInfo implements io.ReaderFrom?
 func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
-	const (
-		magic        = 0432
-		headerLength = 12
-	)
+	const magic = 0432
 
 	// 0: magic number
 	// 1: size of names section
@@ -77,23 +76,41 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	var header [6]int16
 
 	if err := binary.Read(rs, binary.LittleEndian, header[:]); err != nil {
-		return err
+		return noEOF(err)
 	}
 
 	if header[0] != magic {
 		return fmt.Errorf("invalid magic number %07o", header[0])
 	}
 
-	if (header[1]+header[2])%2 != 0 {
+	for _, size := range header[1:] {
+		if size < 0 {
+			return fmt.Errorf("invalid section size %v", size)
+		}
+	}
+
+	skip := int64(header[1]) + int64(header[2])
+	if skip%2 != 0 {
 		// old quirk to align everything on word boundaries
-		header[2]++
+		skip++
+	}
+	skip += 2 * int64(header[3])
+	if _, err := io.CopyN(ioutil.Discard, rs, skip); err != nil {
+		return noEOF(err)
+	}
+
+	offsets := make([]int16, header[4])
+	if err := binary.Read(rs, binary.LittleEndian, offsets); err != nil {
+		return noEOF(err)
 	}
 
-	strOffset := headerLength + uint16(header[1]+header[2]+2*header[3])
-	tableOffset := strOffset + 2*uint16(header[4])
+	table := make([]byte, header[5])
+	if _, err := io.ReadFull(rs, table); err != nil {
+		return noEOF(err)
+	}
 
 	for i := 1; i < len(tiKeys); i++ {
-		key, err := readTableString(rs, strOffset+2*tiKeys[i], tableOffset)
+		key, err := tableString(offsets, table, tiKeys[i])
 		if err != nil {
 			return err
 		}
@@ -101,7 +118,7 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	}
 
 	for i := 1; i < len(tiFuncs); i++ {
-		fnc, err := readTableString(rs, strOffset+2*tiFuncs[i], tableOffset)
+		fnc, err := tableString(offsets, table, tiFuncs[i])
 		if err != nil {
 			return err
 		}
@@ -114,41 +131,30 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	return nil
 }
 
-func readTableString(rs io.ReadSeeker, off, table uint16) (s string, err error) {
-	index, err := readUint16(rs, off)
-	if err != nil {
-		return "", err
+// tableString returns the i-th string capability, which is empty if absent
+// (offset -1, or past the last offset) or cancelled (offset -2).
+func tableString(offsets []int16, table []byte, i uint16) (string, error) {
+	if int(i) >= len(offsets) {
+		return "", nil
 	}
-	if _, err := rs.Seek(int64(table+index), 0); err != nil {
-		return "", err
+	off := offsets[i]
+	if off == -1 || off == -2 {
+		return "", nil
 	}
-	return readNullString(rs)
-}
-
-func readUint16(rs io.ReadSeeker, off uint16) (uint16, error) {
-	if _, err := rs.Seek(int64(off), 0); err != nil {
-		return 0, err
+	if off < 0 || int(off) >= len(table) {
+		return "", fmt.Errorf("invalid string offset %v", off)
 	}
-	if err := binary.Read(rs, binary.LittleEndian, &off); err != nil {
-		return 0, err
+	b := table[off:]
+	n := bytes.IndexByte(b, 0)
+	if n < 0 {
+		return "", fmt.Errorf("unterminated string at offset %v", off)
 	}
-	return off, nil
+	return string(b[:n]), nil
 }
 
-func readNullString(r io.Reader) (s string, err error) {
-	var bs []byte
-	var buf [8]byte
-	for {
-		n, err := r.Read(buf[:])
-		if err != nil {
-			return "", err
-		}
-		for i, b := range buf[:n] {
-			if b == 0 {
-				bs = append(bs, buf[:i]...)
-				return string(bs), nil
-			}
-		}
-		bs = append(bs, buf[:n]...)
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
 	}
+	return err
 }
-- 
2.43.0


From 801b3c2b872b73ab409cca6f8ec1c5bee4f79dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:18 +0000
Subject: [PATCH 47/82] fix: loading the terminfo of an empty name panicked

---
 terminfo/terminfo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terminfo/terminfo.go b/terminfo/terminfo.go
index df62ccc..38dce77 100644
--- a/terminfo/terminfo.go
+++ b/terminfo/terminfo.go
@@ -139,6 +139,9 @@ func Load(term string) (*Terminfo, error) {
 	if ti, def := cache[term]; def {
 		return ti, nil
 	}
+	if term == "" {
+		return GetBuiltin(term)
+	}
 	paths := SearchPath()
 	for _, path := range paths {
 		for _, fp := range []string{
-- 
2.43.0


From 0ecefc0d441ca8bffe0a2d3dcb06a18c8e2cebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:25 +0000
Subject: [PATCH 48/82] fix: log sink races, line index of partial lines, and
 hand over between background flushing, stopping and file changes

---
 x/platform/bg.go   | 64 ++++++++++++++++++++++--------
 x/platform/diag.go | 24 ++++--------
 x/platform/log.go  | 97 ++++++++++++++++++++++++++--------------------
 3 files changed, 111 insertions(+), 74 deletions(-)

diff --git a/x/platform/bg.go b/x/platform/bg.go
index 28f4d68..ed4c2a3 100644
--- a/x/platform/bg.go
+++ b/x/platform/bg.go
@@ -65,29 +65,59 @@ type bgWorkerCore struct {
 	e chan error
 }
 
-func (core *bgWorkerCore) Start() error {
-	core.w = make(chan struct{}, 1)
-	core.e = make(chan error, 1)
-	return nil
+// start calls the given work function under a new background goroutine: once
+// for every (coalesced) notification, and then once more when stopped. Does
+// nothing if already started.
+func (core *bgWorkerCore) start(work func() error) {
+	core.Lock()
+	defer core.Unlock()
+	if core.w != nil {
+		return
+	}
+	w, e := make(chan struct{}, 1), make(chan error, 1)
+	core.w, core.e = w, e
+	go func() {
+		defer close(e)
+		for open := true; open; {
+			_, open = <-w
+			if err := work(); err != nil {
+				select {
+				case e <- err:
+				default: // a prior error is yet to be collected
+				}
+			}
+		}
+	}()
 }
 
-func (core *bgWorkerCore) Stop() error {
-	if core.w != nil {
-		close(core.w)
-		core.w = nil
+// Stop any background goroutine, waiting for it to finish; returns its first
+// error not already returned by Notify() or Error().
+func (core *bgWorkerCore) Stop() (err error) {
+	core.Lock()
+	w, e := core.w, core.e
+	core.w, core.e = nil, nil
+	core.Unlock()
+	if w != nil {
+		close(w)
 	}
-	if core.e == nil {
-		return nil
+	if e != nil {
+		for werr := range e {
+			err = errOr(err, werr)
+		}
 	}
-	return <-core.e
+	return err
 }
 
 func (core *bgWorkerCore) Error() error {
+	core.Lock()
+	defer core.Unlock()
 	select {
 	case err := <-core.e:
 		if err != nil {
-			close(core.w)
-			core.w = nil
+			if core.w != nil {
+				close(core.w)
+				core.w = nil
+			}
 			return err
 		}
 	default:
@@ -96,10 +126,12 @@ func (core *bgWorkerCore) Error() error {
 }
 
 func (core *bgWorkerCore) Notify() error {
+	if err := core.Error(); err != nil {
+		return err
+	}
+	core.Lock()
+	defer core.Unlock()
 	if core.w != nil {
-		if err := core.Error(); err != nil {
-			return err
-		}
 		select {
 		case core.w <- struct{}{}:
 		default:
diff --git a/x/platform/diag.go b/x/platform/diag.go
index ff16794..7bccde7 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -353,23 +353,14 @@ func (coll *telemetryCollector) create(fn string) error {
 }
 
 func (coll *telemetryCollector) Start() error {
-	if err := coll.bgWorkerCore.Start(); err != nil {
-		return err
-	}
-	go coll.worker()
+	coll.Lock()
 	coll.buf.Grow(64 * 1024)
+	coll.Unlock()
+	coll.bgWorkerCore.start(coll.logData)
 	return nil
 }
 
-func (coll *telemetryCollector) worker() {
-	defer close(coll.e)
-	for open := true; open; {
-		_, open = <-coll.w
-		coll.logData()
-	}
-}
-
-func (coll *telemetryCollector) logData() {
+func (coll *telemetryCollector) logData() error {
 	coll.Lock()
 	defer coll.Unlock()
 
@@ -425,10 +416,8 @@ func (coll *telemetryCollector) logData() {
 			coll.stalls = nil
 		}
 
-		if _, err := coll.buf.WriteTo(coll.f); err != nil {
-			coll.e <- err
-		}
-		return
+		_, err := coll.buf.WriteTo(coll.f)
+		return err
 	}
 
 	if coll.timing != nil {
@@ -439,6 +428,7 @@ func (coll *telemetryCollector) logData() {
 		log.Printf("output stalls %v", coll.stalls)
 		coll.stalls = nil
 	}
+	return nil
 }
 
 func appendDurationsTo(buf *bytes.Buffer, ds []time.Duration) {
diff --git a/x/platform/log.go b/x/platform/log.go
index 5aaf33e..1f6d2be 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -28,13 +28,17 @@ type LogSink struct {
 	f    *os.File
 }
 
-// Contents all in-memory buffered bytes and a slice containing the index of
-// all newlines within those bytes.
+// Contents returns a copy of all in-memory buffered bytes and a slice
+// containing the index of all newlines within those bytes.
 func (logs *LogSink) Contents() ([]byte, []int) {
-	return logs.buf.Bytes(), logs.bufEOLs
+	logs.Lock()
+	defer logs.Unlock()
+	return append([]byte(nil), logs.buf.Bytes()...), append([]int(nil), logs.bufEOLs...)
 }
 
 func (logs *LogSink) Read(p []byte) (n int, err error) {
+	logs.Lock()
+	defer logs.Unlock()
 	n, err = logs.buf.Read(p)
 	i := 0
 	for ; i < len(logs.bufEOLs) && n > logs.bufEOLs[i]; i++ {
@@ -43,6 +47,9 @@ func (logs *LogSink) Read(p []byte) (n int, err error) {
 	for i = 0; i < len(logs.bufEOLs); i++ {
 		logs.bufEOLs[i] -= n
 	}
+	if logs.buf.Len() == 0 {
+		logs.bufEOLs = logs.bufEOLs[:0] // no implicit EOL-at-EOF anymore
+	}
 	return n, err
 }
 
@@ -50,6 +57,8 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 	if len(p) == 0 {
 		return 0, nil
 	}
+	logs.Lock()
+	defer logs.Unlock()
 	if logs.f != nil {
 		if logs.direct {
 			if n, err := logs.f.Write(p); err != nil {
@@ -62,7 +71,7 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 
 	b := logs.buf.Bytes()
 	// unwind any implicit EOL-at-EOF
-	if i := len(logs.bufEOLs) - 1; i >= 0 && b[logs.bufEOLs[i]] != '\n' {
+	if i := len(logs.bufEOLs) - 1; i >= 0 && logs.bufEOLs[i] >= len(b) {
 		logs.bufEOLs = logs.bufEOLs[:i]
 	}
 	for off := 0; off < len(p); off++ {
@@ -83,66 +92,72 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 // deferred writing model; file writes will not be performed until Notify() or
 // Stop() is next called.
 func (logs *LogSink) Start() error {
-	if logs.f == nil || logs.w != nil {
+	logs.Lock()
+	if logs.f == nil {
+		logs.Unlock()
 		return nil
 	}
-	err := logs.bgWorkerCore.Start()
-	if err == nil {
-		logs.direct = false
-		go logs.flushWorker()
-	}
-	return err
+	logs.direct = false
+	logs.Unlock()
+	logs.bgWorkerCore.start(func() error {
+		logs.Lock()
+		defer logs.Unlock()
+		return logs.flush()
+	})
+	return nil
 }
 
 // Stop the any background file-writing goroutine, transitioning back to direct
 // file writes.
 func (logs *LogSink) Stop() error {
-	if logs.f == nil || logs.w == nil {
-		return nil
-	}
 	err := logs.bgWorkerCore.Stop()
+	logs.Lock()
+	defer logs.Unlock()
+	err = errOr(err, logs.flush())
 	logs.direct = true
 	return err
 }
 
-func (logs *LogSink) flushWorker() {
-	defer close(logs.e)
-	for open := true; open; {
-		_, open = <-logs.w
-		if logs.f == nil {
-			break
-		}
-		if err := logs.flush(); err != nil {
-			logs.e <- err
-		}
-	}
-}
-
+// flush deferred writes to any file; logs must be locked.
 func (logs *LogSink) flush() error {
+	if logs.f == nil {
+		return nil
+	}
 	_, err := logs.fbuf.WriteTo(logs.f)
 	return err
 }
 
 // SetFile sets the sink's file destination, starting or stopping a background
-// goroutine as needed.
+// goroutine as needed; any prior file is first flushed, and then closed.
 func (logs *LogSink) SetFile(f *os.File) error {
-	if logs.f == f {
+	logs.Lock()
+	prior := logs.f
+	logs.Unlock()
+	if prior == f {
 		return nil
 	}
-	if logs.f != nil {
-		if err := logs.f.Close(); err != nil {
-			return fmt.Errorf("failed to close log file %q: %v", logs.f.Name(), err)
-		}
-	}
+
 	if f != nil {
 		log.Printf("logging to %q", f.Name())
-		logs.f = f
-		return logs.Start()
-	}
-	if logs.f != nil {
+	} else {
 		log.Printf("disabling log file output")
-		logs.f = nil
-		return logs.Stop()
 	}
-	return nil
+
+	var err error
+	if prior != nil {
+		if serr := logs.Stop(); serr != nil {
+			err = fmt.Errorf("failed to flush log file %q: %v", prior.Name(), serr)
+		}
+	}
+
+	logs.Lock()
+	logs.f = f
+	logs.Unlock()
+
+	if prior != nil {
+		if cerr := prior.Close(); cerr != nil {
+			err = errOr(err, fmt.Errorf("failed to close log file %q: %v", prior.Name(), cerr))
+		}
+	}
+	return errOr(err, logs.Start())
 }
-- 
2.43.0


From f8a58cad497d06b1fd4e05e6775ffbd1524e11ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:25 +0000
Subject: [PATCH 49/82] fix: waiting on an inactive ticker blocked forever, and
 raced with Exit

---
 x/platform/tick.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/x/platform/tick.go b/x/platform/tick.go
index 2bee957..9ef2f56 100644
--- a/x/platform/tick.go
+++ b/x/platform/tick.go
@@ -1,6 +1,7 @@
 package platform
 
 import (
+	"sync"
 	"time"
 
 	"github.com/jcorbin/anansi"
@@ -10,8 +11,10 @@ import (
 // terminal enter/exit.
 type Ticker struct {
 	d time.Duration
-	t *time.Ticker
-	c chan struct{}
+
+	mu sync.Mutex
+	t  *time.Ticker
+	c  chan struct{}
 	// TODO useful to indirect t.C so that Enter can provide an immediate initial tick?
 }
 
@@ -22,6 +25,8 @@ func (ct *Ticker) Enter(term *anansi.Term) error {
 	if ct.d == 0 {
 		ct.d = time.Second / defaultFrameRate
 	}
+	ct.mu.Lock()
+	defer ct.mu.Unlock()
 	ct.t = time.NewTicker(ct.d)
 	ct.c = make(chan struct{})
 	return nil
@@ -29,6 +34,8 @@ func (ct *Ticker) Enter(term *anansi.Term) error {
 
 // Exit stops any running ticker; always returns nil error.
 func (ct *Ticker) Exit(term *anansi.Term) error {
+	ct.mu.Lock()
+	defer ct.mu.Unlock()
 	if ct.t != nil {
 		ct.t.Stop()
 		ct.t = nil
@@ -43,14 +50,16 @@ func (ct *Ticker) Exit(term *anansi.Term) error {
 // Wait blocks for the next ticker time, returning zero time if the Ticker
 // isn't active, or is Exit-ed first.
 func (ct *Ticker) Wait() time.Time {
-	var tc <-chan time.Time
-	if ct.t != nil {
-		tc = ct.t.C
+	ct.mu.Lock()
+	t, c := ct.t, ct.c
+	ct.mu.Unlock()
+	if t == nil {
+		return time.Time{}
 	}
 	select {
-	case t := <-tc:
+	case t := <-t.C:
 		return t
-	case <-ct.c:
+	case <-c:
 	}
 	return time.Time{}
 }
-- 
2.43.0


From 144ca078a46fcdefdff5fa90feee5948b18ec283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:25 +0000
Subject: [PATCH 50/82] fix: frame rates below 4 crashed timing collection

---
 x/platform/options.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/platform/options.go b/x/platform/options.go
index e0794ce..b8c7327 100644
--- a/x/platform/options.go
+++ b/x/platform/options.go
@@ -1,6 +1,7 @@
 package platform
 
 import (
+	"fmt"
 	"time"
 )
 
@@ -16,7 +17,13 @@ func (f optionFunc) apply(p *Platform) error { return f(p) }
 // FrameRate changes the platform's Frames-Per-Second rate, which defaults to 60.
 func FrameRate(fps int) Option {
 	return optionFunc(func(p *Platform) error {
+		if fps <= 0 {
+			return fmt.Errorf("invalid frame rate %v", fps)
+		}
 		timingPeriod := fps / 4
+		if timingPeriod < 1 {
+			timingPeriod = 1
+		}
 		p.ticker.d = time.Second / time.Duration(fps)
 		p.FPSEstimate.data = make([]float64, fps)
 		p.Timing.ts = make([]time.Time, timingPeriod)
-- 
2.43.0


From 34f089c4e761f876edd354ab0876979c3ef9505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 51/82] fix: timing options were dropped or ignored

---
 x/platform/config.go | 6 +++++-
 x/platform/diag.go   | 4 +++-
 x/platform/hud.go    | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index d715f5b..2a248cd 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -74,6 +74,9 @@ func (cfg *Config) Merge(other Config) {
 	if other.MemProfileName != "" && cfg.MemProfileName == "" {
 		cfg.MemProfileName = other.MemProfileName
 	}
+	if other.StartTiming {
+		cfg.StartTiming = true
+	}
 	if other.LogTiming {
 		cfg.LogTiming = true
 	}
@@ -83,7 +86,8 @@ func (cfg *Config) Merge(other Config) {
 }
 
 func (cfg *Config) setup(p *Platform) error {
-	p.SetTimingEnabled(cfg.LogTiming)
+	p.Telemetry.LogTiming = cfg.LogTiming
+	p.SetTimingEnabled(cfg.StartTiming || cfg.LogTiming)
 
 	if cfg.TelemetryLogFileName != "" {
 		if err := p.Telemetry.coll.create(cfg.TelemetryLogFileName); err != nil {
diff --git a/x/platform/diag.go b/x/platform/diag.go
index 7bccde7..adff5b1 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -170,7 +170,9 @@ func (tel *Telemetry) FPS() float64 {
 func (p *Platform) SetTimingEnabled(enabled bool) {
 	if p.TimingEnabled != enabled {
 		p.TimingEnabled = enabled
-		if !p.TimingEnabled && !p.LogTiming {
+		if !p.TimingEnabled && !p.Telemetry.LogTiming {
+			p.Telemetry.coll.Lock() // which may have timing data to log
+			defer p.Telemetry.coll.Unlock()
 			p.Timing.reset()
 		}
 	}
diff --git a/x/platform/hud.go b/x/platform/hud.go
index 3fe3570..1ed1c66 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -386,7 +386,7 @@ func (hud *HUD) drawFPSDetail(ctx *Context) {
 func (hud *HUD) drawTelemetry(ctx *Context) {
 	hud.detailHeader(ctx, "# Telemetry:")
 	hud.drawFileEditRow(ctx, &ctx.Telemetry.coll, "Go Log")
-	hud.drawToggleRow(ctx, "Log Timing", &ctx.LogTiming)
+	hud.drawToggleRow(ctx, "Log Timing", &ctx.Telemetry.LogTiming)
 	hud.drawToggleRow(ctx, "Log Stalls", &ctx.Telemetry.LogStallData)
 }
 
-- 
2.43.0


From f0d33d976b71c2a3035d12757b22c4c179282919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:54 +0000
Subject: [PATCH 52/82] fix: platform events were lost or seen again, depending
 on when input arrived

---
 x/platform/platform.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index d8e1cac..c1e0ff5 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -47,11 +47,6 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 		&p.bg,
 	)
 
-	p.sigio.C = make(chan os.Signal, 1)
-	if err := p.term.Notify(p.sigio.C); err != nil {
-		return nil, err
-	}
-
 	_ = p.term.SetRaw(true)
 	p.term.AddMode(
 		ansi.ModeAlternateScreen,
@@ -92,6 +87,11 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 		return nil, err
 	}
 
+	p.sigio.C = make(chan os.Signal, 1)
+	if err := p.term.Notify(p.sigio.C); err != nil {
+		return nil, err
+	}
+
 	return p, nil
 }
 
@@ -187,6 +187,9 @@ func (p *Platform) Run(client Client) (err error) {
 		log.Printf("run done: %v", err)
 	}()
 
+	// there may already be input
+	p.sigio.Send("run")
+
 	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.ticker.Wait() {
 		// update performance data
 		if err := p.Telemetry.update(p); err != nil {
@@ -195,6 +198,10 @@ func (p *Platform) Run(client Client) (err error) {
 
 		ctx := p.Context()
 
+		// events last only one frame, and every frame is recorded
+		p.events.Clear()
+		readable := p.recording != nil
+
 		// poll for signals
 		for polling := true; polling; {
 			select {
@@ -203,17 +210,19 @@ func (p *Platform) Run(client Client) (err error) {
 			case <-p.resize.C:
 				ctx.Err = errOr(ctx.Err, p.screen.SizeToTerm(p.term))
 			case <-p.sigio.C:
-				p.events.Clear()
-				n, err := p.term.ReadAny()
-				if n > 0 {
-					p.events.DecodeInput(&p.term.Input)
-				}
-				ctx.Err = errOr(ctx.Err, err)
+				readable = true
 			default:
 				polling = false
 			}
 		}
 
+		// read and decode all available input
+		if readable {
+			_, err := p.term.ReadAny()
+			p.events.DecodeInput(&p.term.Input)
+			ctx.Err = errOr(ctx.Err, err)
+		}
+
 		// run current frame update
 		if ctx.Update(); ctx.Err == nil {
 			ctx.Err = p.term.Flush(ctx.Output)
@@ -298,7 +307,11 @@ func (ctx *Context) runClient() error {
 // Suspend restores terminal context to pre-platform-run settings, suspends the
 // current process, and then restores platform terminal context once resumed;
 // returns any error preventing any of that.
-func (p *Platform) Suspend() error { return p.term.Suspend() }
+func (p *Platform) Suspend() error {
+	err := p.term.Suspend()
+	p.sigio.Send("resume") // input may have arrived meanwhile
+	return err
+}
 
 func errOr(a, b error) error {
 	if a != nil {
-- 
2.43.0


From 2736db0e46c3ae87e66784944e2be6fc1799a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:20 +0000
Subject: [PATCH 53/82] fix: replays gave clients other input, sizes, or
 starting input state than was recorded

---
 input.go               |  9 ++++++
 x/platform/platform.go | 25 +++++++++++------
 x/platform/replay.go   | 62 +++++++++++++++++++++++++++++-------------
 3 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/input.go b/input.go
index 602b581..2b093ef 100644
--- a/input.go
+++ b/input.go
@@ -235,6 +235,15 @@ func (in *Input) ReadMore() (int, error) {
 	}
 }
 
+// Replay appends the input bytes of a recorded frame to the internal byte
+// buffer, as if they had just been read; returns any recorded read error.
+func (in *Input) Replay(frm InputFrame) error {
+	in.buf.Grow(len(frm.B) + 1)
+	_, _ = in.buf.Write(frm.B)
+	in.ateof = frm.E != nil && frm.E.Error() == io.EOF.Error()
+	return frm.E
+}
+
 // ReadAny reads any (and all!) available bytes from the underlying file into
 // the internal byte buffer; uses non-blocking reads. Returns the number of
 // bytes read and any error.
diff --git a/x/platform/platform.go b/x/platform/platform.go
index c1e0ff5..ef2077a 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -108,9 +108,10 @@ type Platform struct {
 	events Events
 	ticker Ticker
 
-	recording *os.File
-	replay    *replay
-	bg        BackgroundWorkers
+	recording    *os.File
+	recordedSize image.Point
+	replay       *replay
+	bg           BackgroundWorkers
 
 	State
 	Time   time.Time // internal time (rewinds during replay)
@@ -179,7 +180,7 @@ func (p *Platform) Run(client Client) (err error) {
 		if err := p.readState(bytes.NewReader(p.replay.cereal)); err != nil {
 			return err
 		}
-		p.replay.cur = p.replay.input
+		p.replay.rewind()
 	}
 
 	log.Printf("running %T", p.client)
@@ -256,8 +257,8 @@ func (p *Platform) Context() Context {
 // - processes user Ctrl-L to implement redraw flag
 // - hands off to any active replay
 // - re-reads terminal size on redraw
-// - processes user Ctrl-R to toggle recording / replaying
 // - runs the Platform client Update, under HUD Update
+// - processes user Ctrl-R to toggle recording / replaying
 // - flushes screen buffer
 func (ctx *Context) Update() {
 	ctx.Output.Reset()
@@ -286,12 +287,20 @@ func (ctx *Context) Update() {
 		ctx.Err = errOr(ctx.Err, ctx.Output.SizeToTerm(ctx.term))
 	}
 
-	// recording / replaying toggle on Ctrl-R
-	if ctx.Input.CountRune('\x12')%2 == 1 {
-		ctx.Err = errOr(ctx.Err, ctx.toggleRecRep())
+	// any recorded frame notes its size, if changed
+	if ctx.recording != nil && ctx.Output.Bounds().Size() != ctx.recordedSize {
+		ctx.Err = errOr(ctx.Err, ctx.recordSize())
 	}
 
+	toggle := ctx.Input.CountRune('\x12')%2 == 1
+
 	ctx.Err = errOr(ctx.Err, ctx.runClient())
+
+	// recording / replaying toggle on Ctrl-R; this frame was already recorded
+	// when ending, and so can't be part of it when starting
+	if toggle {
+		ctx.Err = errOr(ctx.Err, ctx.toggleRecRep())
+	}
 }
 
 func (ctx *Context) runClient() error {
diff --git a/x/platform/replay.go b/x/platform/replay.go
index 95a0854..9e734f7 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -25,6 +25,7 @@ type replay struct {
 	cereal []byte
 	input  anansi.InputReplay
 	cur    anansi.InputReplay
+	in     anansi.Input // any undecoded input
 	frame  anansi.InputFrame
 	pause  time.Time
 	size   image.Point
@@ -34,6 +35,16 @@ type replay struct {
 	}
 }
 
+// rewind to the first frame.
+func (rep *replay) rewind() {
+	rep.cur = rep.input
+	rep.in = anansi.Input{}
+	rep.frame = anansi.InputFrame{}
+	rep.pause = time.Time{}
+	rep.mouse.Mouse = ZM
+	rep.mouse.decay = 0
+}
+
 func (rep *replay) update(ctx *Context) {
 	if len(rep.cur) == 0 {
 		ctx.Err = errReplayDone
@@ -44,6 +55,7 @@ func (rep *replay) update(ctx *Context) {
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
 		ctx.Platform.replay = nil
+		ctx.Redraw = true // the terminal may have an other size
 		return
 	}
 
@@ -70,29 +82,24 @@ func (rep *replay) update(ctx *Context) {
 
 	case rep.pause.IsZero():
 		// next non-message frame
-		for rep.next() {
-			switch m := rep.frame.M; {
-			case bytes.HasPrefix(m, []byte("resize:")):
-				if sz, err := parseSize(m[7:]); err != nil {
-					log.Printf("invalid resize message %q in replay", m)
-				} else {
-					rep.size = sz
-				}
-			case len(m) > 0:
-				log.Printf("unrecognized replay message %q", m)
-			}
-			if !rep.frame.T.IsZero() {
-				break
-			}
-		}
-		if rep.frame.T.IsZero() {
+		rep.messages()
+		if !rep.next() {
 			ctx.Err = errReplayDone
 			return
 		}
+		rep.messages() // recorded within the frame
 
 		// load replay frame input
+		_ = rep.in.Replay(rep.frame)
 		ctx.events.Clear()
-		ctx.events.DecodeBytes(rep.frame.B)
+		ctx.events.DecodeInput(&rep.in)
+
+		// strike platform controls, as done while recording
+		if ctx.events.CountRune('\x0c') > 0 {
+			ctx.Redraw = true
+			ctx.Output.Invalidate()
+		}
+		ctx.events.CountRune('\x12')
 
 		// update mouse cursor state
 		if m, have := ctx.events.LastMouse(false); have {
@@ -134,7 +141,7 @@ func (rep *replay) drawOverlay(ctx *Context) {
 		// TODO better mouse cursor drawing
 		if i, ok := ctx.Output.CellOffset(rep.mouse.Point); ok {
 			ctx.Output.Grid.Rune[i] = 'X'
-			ctx.Output.Grid.Attr[i] = buttonAttrs[rep.mouse.State.ButtonID()]
+			ctx.Output.Grid.Attr[i] = buttonAttrs[int(rep.mouse.State.ButtonID())%len(buttonAttrs)]
 		}
 	}
 
@@ -143,6 +150,22 @@ func (rep *replay) drawOverlay(ctx *Context) {
 	ctx.Output.WriteESC(ansi.DECRC)
 }
 
+// messages processes any messages up to the next frame.
+func (rep *replay) messages() {
+	for ; len(rep.cur) > 0 && rep.cur[0].T.IsZero(); rep.cur = rep.cur[1:] {
+		switch m := rep.cur[0].M; {
+		case bytes.HasPrefix(m, []byte("resize:")):
+			if sz, err := parseSize(m[7:]); err != nil {
+				log.Printf("invalid resize message %q in replay", m)
+			} else {
+				rep.size = sz
+			}
+		case len(m) > 0:
+			log.Printf("unrecognized replay message %q", m)
+		}
+	}
+}
+
 func (rep *replay) next() bool {
 	if len(rep.cur) == 0 {
 		return false
@@ -219,6 +242,7 @@ func (p *Platform) recordSize() error {
 	// APC "resize:" width "," height ST
 	if p.recording != nil {
 		sz := p.screen.Bounds().Size()
+		p.recordedSize = sz
 		if _, err := fmt.Fprintf(p.recording, "\x1b_resize:%d,%d\x1b\\", sz.X, sz.Y); err != nil {
 			return fmt.Errorf("failed to record size: %v", err)
 		}
@@ -255,7 +279,7 @@ func readReplay(f *os.File) (_ *replay, err error) {
 
 func readSized(r io.Reader) ([]byte, error) {
 	var tmp [8]byte
-	if _, err := r.Read(tmp[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp[:]); err != nil {
 		return nil, err
 	}
 	size := binary.BigEndian.Uint64(tmp[:])
-- 
2.43.0


From 5a652724b0d78173f46ffe891deb4fe3a4fff8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 54/82] fix: restoring state left over anything that was zero
 when saved

---
 x/platform/state.go | 49 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/x/platform/state.go b/x/platform/state.go
index f95454e..bfe2e04 100644
--- a/x/platform/state.go
+++ b/x/platform/state.go
@@ -1,8 +1,10 @@
 package platform
 
 import (
+	"encoding"
 	"encoding/gob"
 	"io"
+	"reflect"
 )
 
 type state struct {
@@ -15,7 +17,10 @@ type state struct {
 func (p *Platform) readState(r io.Reader) error {
 	var st state
 	dec := gob.NewDecoder(r)
-	for _, obj := range []interface{}{&st, p.client} {
+	for i, obj := range []interface{}{&st, p.client} {
+		if i > 0 {
+			resetState(reflect.ValueOf(obj))
+		}
 		if err := dec.Decode(obj); err != nil {
 			return err
 		}
@@ -42,3 +47,45 @@ func (p *Platform) writeState(w io.Writer) error {
 	}
 	return nil
 }
+
+var selfDecoders = []reflect.Type{
+	reflect.TypeOf((*gob.GobDecoder)(nil)).Elem(),
+	reflect.TypeOf((*encoding.BinaryUnmarshaler)(nil)).Elem(),
+}
+
+// resetState zeros everything which will be set by decoding from gob, since
+// such encoding elides any zero values, and does not replace maps.
+func resetState(v reflect.Value) {
+	if v.Kind() == reflect.Ptr {
+		if v.IsNil() {
+			return
+		}
+		if !decodesSelf(v.Type()) {
+			resetState(v.Elem())
+		} else if v.CanSet() {
+			v.Set(reflect.Zero(v.Type()))
+		}
+		return
+	}
+	switch {
+	case v.Kind() == reflect.Struct && !decodesSelf(reflect.PtrTo(v.Type())):
+		for i := 0; i < v.NumField(); i++ {
+			if v.Type().Field(i).PkgPath == "" {
+				resetState(v.Field(i))
+			}
+		}
+	case v.Kind() == reflect.Func, v.Kind() == reflect.Chan:
+		// not encoded
+	case v.CanSet():
+		v.Set(reflect.Zero(v.Type()))
+	}
+}
+
+func decodesSelf(t reflect.Type) bool {
+	for _, i := range selfDecoders {
+		if t.Implements(i) {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 9628d8e19084886957945e4cd6c62942471791e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:58 +0000
Subject: [PATCH 55/82] fix: output stalls were counted in every following
 frame, and logged from a buffer in use

---
 x/platform/diag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index adff5b1..9545728 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -220,9 +220,9 @@ func (tel *Telemetry) update(p *Platform) error {
 		if tel.LogTiming && timingFrame {
 			tel.coll.timing = tel.Timing.ds
 		}
-		if stalls := p.term.Stalls(consumeStalls); stalls != nil {
+		if stalls := p.term.Stalls(consumeStalls); stalls != nil && (consumeStalls || len(stalls) == cap(stalls)) {
 			if tel.LogStallData {
-				tel.coll.stalls = stalls
+				tel.coll.stalls = append(tel.coll.stalls, stalls...) // as they'll be reused
 			}
 			if tel.StallDataEnabled {
 				tel.Stalls.update(p, stalls)
-- 
2.43.0


From 4aebf871cd802baf47be6f62b481bd7ff866609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 56/82] fix: a size changed by suspending was not reported as a
 redraw

---
 x/platform/platform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index ef2077a..5d7ad17 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -307,9 +307,9 @@ func (ctx *Context) runClient() error {
 	if ctx.Paused {
 		ctx.Time = ctx.Platform.LastTime
 	}
+	ctx.Platform.LastSize = ctx.Output.Bounds().Size() // as given to the client, which may resume to an other one
 	err := ctx.HUD.Update(ctx, ctx.client)
 	ctx.Platform.LastTime = ctx.Time
-	ctx.Platform.LastSize = ctx.Output.Bounds().Size()
 	return err
 }
 
-- 
2.43.0


From 80be77907e4b65d3bec05e50bfd82b2cce8d0da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 57/82] fix: replays told clients to redraw by the size of the
 prior frame's terminal, not as recorded

---
 x/platform/replay.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 9e734f7..eaf8999 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -94,9 +94,11 @@ func (rep *replay) update(ctx *Context) {
 		ctx.events.Clear()
 		ctx.events.DecodeInput(&rep.in)
 
-		// strike platform controls, as done while recording
-		if ctx.events.CountRune('\x0c') > 0 {
-			ctx.Redraw = true
+		// process platform controls, as done while recording
+		ctx.Redraw = ctx.events.CountRune('\x0c') > 0 ||
+			rep.size == image.ZP ||
+			rep.size != ctx.LastSize
+		if ctx.Redraw {
 			ctx.Output.Invalidate()
 		}
 		ctx.events.CountRune('\x12')
-- 
2.43.0


From 2543c3fa9ccf2fb698a6df2787592e48c7585aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 58/82] fix: restoring state left pointers that were nil when
 saved pointing to zero

---
 x/platform/state.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/x/platform/state.go b/x/platform/state.go
index bfe2e04..cc82659 100644
--- a/x/platform/state.go
+++ b/x/platform/state.go
@@ -60,12 +60,10 @@ func resetState(v reflect.Value) {
 		if v.IsNil() {
 			return
 		}
-		if !decodesSelf(v.Type()) {
-			resetState(v.Elem())
-		} else if v.CanSet() {
-			v.Set(reflect.Zero(v.Type()))
+		if elem := v.Elem(); !v.CanSet() || elem.Kind() == reflect.Struct && !decodesSelf(v.Type()) {
+			resetState(elem) // retaining anything not encoded
+			return
 		}
-		return
 	}
 	switch {
 	case v.Kind() == reflect.Struct && !decodesSelf(reflect.PtrTo(v.Type())):
-- 
2.43.0


From fe99a20e80e85b6128f865e59a071ccd543369ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 59/82] fix: a Ctrl-C arriving with a replay's last frame did
 not stop it

---
 x/platform/replay.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index eaf8999..c2aeedc 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -46,11 +46,6 @@ func (rep *replay) rewind() {
 }
 
 func (rep *replay) update(ctx *Context) {
-	if len(rep.cur) == 0 {
-		ctx.Err = errReplayDone
-		return
-	}
-
 	// Ctrl-C stops replay
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
@@ -59,6 +54,11 @@ func (rep *replay) update(ctx *Context) {
 		return
 	}
 
+	if len(rep.cur) == 0 {
+		ctx.Err = errReplayDone
+		return
+	}
+
 	defer func() {
 		if ctx.Err == nil {
 			rep.drawOverlay(ctx)
-- 
2.43.0


From 9ef2e4475e80abc35530fcee0d3d4ffdf6e03864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 60/82] fix: growing a grid exposed what it held when larger
 before

---
 grid.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grid.go b/grid.go
index 2f68093..8458b72 100644
--- a/grid.go
+++ b/grid.go
@@ -50,8 +50,12 @@ func (g *Grid) Resize(size image.Point) bool {
 			copy(rs, g.Rune)
 			g.Attr, g.Rune = as, rs
 		} else {
+			i := len(g.Rune)
 			g.Attr = g.Attr[:n]
 			g.Rune = g.Rune[:n]
+			for ; i < n; i++ { // may hold cells from when it was larger before
+				g.Attr[i], g.Rune[i] = 0, 0
+			}
 		}
 		// TODO re-stride data
 	}
-- 
2.43.0


From a98c864c07813c0e7370456e91fa3defc9caec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 61/82] fix: the HUD crashed in small terminals, and wrote over
 other rows, logged control sequences, or lines of too short logs

---
 x/platform/hud.go | 181 ++++++++++++++++++++++++----------------------
 1 file changed, 93 insertions(+), 88 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 1ed1c66..54036c0 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -2,13 +2,13 @@ package platform
 
 import (
 	"fmt"
-	"image"
 	"log"
 	"os"
 	"runtime/pprof"
 	"strconv"
 	"strings"
 	"time"
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/jcorbin/anansi/ansi"
@@ -66,8 +66,6 @@ func (hud *HUD) nextID() UIID {
 
 // Update the HUD (only if visible).
 func (hud *HUD) Update(ctx *Context, client Client) error {
-	outBounds := ctx.Output.Bounds()
-
 	hud.uicur = 0
 
 	if m, have := ctx.Input.LastMouse(false); have {
@@ -89,6 +87,11 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 		return err
 	}
 
+	outBounds := ctx.Output.Bounds()
+	if outBounds.Empty() {
+		return err
+	}
+
 	// TODO why is input broken?
 
 	ctx.Output.WriteESC(ansi.DECSC)
@@ -179,10 +182,10 @@ func (hud *HUD) updateProfilers(p *Platform) {
 func (hud *HUD) calcKVBox(ctx *Context, key string) (kbox, vbox ansi.Rectangle) {
 	outBounds := ctx.Output.Bounds()
 	n := utf8.RuneCountInString(key)
-	kbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth-n-1, ctx.Output.Cursor.Y)
-	vbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth, ctx.Output.Cursor.Y)
-	kbox.Max = ansi.Pt(kbox.Min.X+n, ctx.Output.Cursor.Y+1)
-	vbox.Max = ansi.Pt(vbox.Min.X+hud.detailWidth, ctx.Output.Cursor.Y+1)
+	kbox.Min = ansi.Pt(max(1, outBounds.Max.X-hud.detailWidth-n-1), ctx.Output.Cursor.Y)
+	vbox.Min = ansi.Pt(max(1, outBounds.Max.X-hud.detailWidth), ctx.Output.Cursor.Y)
+	kbox.Max = ansi.Pt(min(kbox.Min.X+n, outBounds.Max.X), ctx.Output.Cursor.Y+1)
+	vbox.Max = ansi.Pt(outBounds.Max.X, ctx.Output.Cursor.Y+1)
 	return kbox, vbox
 }
 
@@ -191,10 +194,9 @@ func (hud *HUD) detailHeader(ctx *Context, title string) (box ansi.Rectangle) {
 	box.Min = kbox.Min
 	box.Max = vbox.Max
 	ctx.Output.To(kbox.Min)
-	ctx.Output.WriteString(title)
-	ctx.Output.WriteRune(' ')
+	writeClipped(ctx, title+" ")
 	ctx.Output.To(vbox.Min)
-	ctx.Output.WriteString(hud.sep)
+	writeClipped(ctx, hud.sep)
 	ctx.Output.To(box.Max)
 	return box
 }
@@ -204,13 +206,8 @@ func (hud *HUD) detailRow(ctx *Context, key string, val string) (box ansi.Rectan
 	box.Min = kbox.Min
 	box.Max = vbox.Max
 	n := utf8.RuneCountInString(key) + 2 + hud.detailWidth
-	ctx.Output.To(ansi.Pt(ctx.Output.Cursor.X-n+1, ctx.Output.Cursor.Y))
-	ctx.Output.WriteString(key)
-	ctx.Output.WriteRune(' ')
-	for i := utf8.RuneCountInString(val); i < hud.detailWidth; i++ {
-		ctx.Output.WriteRune(' ')
-	}
-	ctx.Output.WriteString(val)
+	ctx.Output.To(ansi.Pt(max(1, ctx.Output.Cursor.X-n+1), ctx.Output.Cursor.Y))
+	writeClipped(ctx, fmt.Sprintf("%s %*s", key, hud.detailWidth, val))
 	ctx.Output.To(box.Max)
 	return box
 }
@@ -221,10 +218,13 @@ func (hud *HUD) rightSegment(ctx *Context, s string) (box ansi.Rectangle) {
 	if box.Min.X+1 < outBounds.Max.X {
 		box.Min.X--
 	}
-	box.Max = ansi.Pt(box.Min.X, box.Min.Y+1)
-	box.Min.X -= utf8.RuneCountInString(s)
+	box.Max = ansi.Pt(max(1, box.Min.X), box.Min.Y+1)
+	for box.Min.X -= utf8.RuneCountInString(s); box.Min.X < 1 && len(s) > 0; box.Min.X++ {
+		_, n := utf8.DecodeRuneInString(s)
+		s = s[n:]
+	}
 	ctx.Output.To(box.Min)
-	ctx.Output.WriteString(s)
+	writeClipped(ctx, s)
 	ctx.Output.To(box.Min)
 	return box
 }
@@ -239,7 +239,7 @@ func (hud *HUD) drawTimingDetail(ctx *Context) (err error) {
 	// Play/Pause control
 	kbox, box := hud.calcKVBox(ctx, "paused")
 	ctx.Output.To(kbox.Min)
-	ctx.Output.WriteString("paused ")
+	writeClipped(ctx, "paused ")
 	ctx.Output.To(box.Min)
 	if n := ctx.Input.CountPressesIn(box, 1); n%2 == 1 {
 		ctx.Paused = !ctx.Paused
@@ -256,16 +256,16 @@ func (hud *HUD) drawTimingDetail(ctx *Context) (err error) {
 	ctx.Output.To(kbox.Min)
 
 	if ctx.replay != nil {
-		ctx.Output.WriteString("replaying ")
+		writeClipped(ctx, "replaying ")
 		ctx.Output.To(box.Min)
 		repFmt := "%v/%v"
 		if !ctx.replay.pause.IsZero() {
 			repFmt = "paused %v/%v"
 		}
-		fmt.Fprintf(ctx.Output, repFmt,
-			len(ctx.replay.input)-len(ctx.replay.cur), len(ctx.replay.input))
+		writeClipped(ctx, fmt.Sprintf(repFmt,
+			len(ctx.replay.input)-len(ctx.replay.cur), len(ctx.replay.input)))
 	} else {
-		ctx.Output.WriteString("recording ")
+		writeClipped(ctx, "recording ")
 		ctx.Output.To(box.Min)
 		name := "Start"
 		if ctx.recording != nil {
@@ -300,11 +300,9 @@ func (hud *HUD) drawProfDetail(ctx *Context) {
 }
 
 func (hud *HUD) drawPProfSelector(ctx *Context) {
-	outBounds := ctx.Output.Bounds()
-
 	kbox, box := hud.calcKVBox(ctx, "PProf")
 	ctx.Output.To(kbox.Min)
-	ctx.Output.WriteString("PProf ")
+	writeClipped(ctx, "PProf ")
 	ctx.Output.To(box.Min)
 
 	id := hud.nextID()
@@ -338,14 +336,14 @@ func (hud *HUD) drawPProfSelector(ctx *Context) {
 		// draw selector
 		withAttr(ctx, hud.SelectAttr, ansi.SGRAttrClear, func(ctx *Context) {
 			for _, prof := range pprofs {
+				at := ctx.Output.Cursor.Point
 				withOverAttr(ctx, hud.Mouse,
-					ansi.Rect(box.Min.X, ctx.Output.Cursor.Y, box.Max.X, ctx.Output.Cursor.Y+1),
+					ansi.Rect(box.Min.X, at.Y, box.Max.X, at.Y+1),
 					hud.ButtonAttr, hud.SelectAttr,
 					func(ctx *Context, _ bool) {
-						ctx.Output.WriteString(prof.Name())
-						ctx.Output.WriteString(strings.Repeat(" ", outBounds.Max.X-1-ctx.Output.Cursor.X))
+						writeClipped(ctx, fmt.Sprintf("%-*s", box.Dx()-1, prof.Name()))
 					})
-				ctx.Output.To(ansi.Pt(box.Min.X, ctx.Output.Cursor.Y+1))
+				ctx.Output.To(ansi.Pt(box.Min.X, at.Y+1))
 				box.Max.Y = ctx.Output.Cursor.Y
 			}
 		})
@@ -438,17 +436,13 @@ func (hud *HUD) drawButton(ctx *Context, box ansi.Rectangle, label string) {
 			ansi.Rect(box.Min.X, ctx.Output.Cursor.Y, box.Max.X, ctx.Output.Cursor.Y+1),
 			hud.ButtonAttr, hud.SelectAttr,
 			func(ctx *Context, _ bool) {
-				ctx.Output.WriteString("[ ")
 				max := box.Dx() - 4
-				n := utf8.RuneCountInString(label)
-				for i := 0; i < (max-n)/2; i++ {
-					ctx.Output.WriteRune(' ')
-				}
-				writeTruncated(ctx, max, []byte(label))
-				for ctx.Output.Cursor.X < box.Max.X-2 {
-					ctx.Output.WriteRune(' ')
+				label := truncated(label, max)
+				pad := max - utf8.RuneCountInString(label)
+				if pad < 0 {
+					pad = 0
 				}
-				ctx.Output.WriteString(" ]")
+				writeClipped(ctx, fmt.Sprintf("[ %*s%s%*s ]", pad/2, "", label, pad-pad/2, ""))
 			})
 	})
 	ctx.Output.To(ansi.Pt(box.Max.X-1, box.Max.Y))
@@ -485,7 +479,7 @@ func (hud *HUD) drawToggleRow(ctx *Context, name string, flag *bool) (kbox, box
 		*flag = !*flag
 	}
 	ctx.Output.To(kbox.Min)
-	ctx.Output.WriteString(name)
+	writeClipped(ctx, name)
 	ctx.Output.To(box.Min)
 	if *flag {
 		hud.drawButton(ctx, box, "true")
@@ -499,7 +493,7 @@ func (hud *HUD) drawFileEditRow(ctx *Context, fil fileable, label string) (kbox,
 	name := fil.name()
 	kbox, box = hud.calcKVBox(ctx, name)
 	ctx.Output.To(kbox.Min)
-	ctx.Output.WriteString(name)
+	writeClipped(ctx, name)
 	ctx.Output.To(box.Min)
 	if !hud.underActivation(ctx, box, func(ctx *Context, box ansi.Rectangle, id UIID, enter bool) {
 		hud.underFileEdit(fil, ctx, box, id, enter)
@@ -569,7 +563,7 @@ func (hud *HUD) underFileEdit(fil fileable, ctx *Context, box ansi.Rectangle, id
 			} else {
 				ctx.Output.To(hud.EdLin.Box.Min)
 				ctx.Output.WriteSGR(ansi.SGRGray12.FG())
-				ctx.Output.WriteString(name)
+				writeClipped(ctx, name)
 				ctx.Output.WriteSGR(ansi.SGRAttrClear)
 			}
 		}
@@ -611,59 +605,55 @@ func (lv *LogView) Update(ctx *Context) error {
 		viewLines = 10
 		lv.ViewLines = viewLines
 	}
-	height := viewLines
-
-	topLeft := ansi.Pt(1, outBounds.Max.Y-1)
-	if lv.Expanded {
-		height++
-		topLeft.Y -= height - 1
-	} else {
-		height = 1
-	}
+	content, eolOffsets := lv.logs.Contents()
+	lines := len(eolOffsets)
 
-	// TODO drag resizing
-	if n := ctx.Input.CountPressesIn(ansi.Rect(topLeft.X, topLeft.Y, outBounds.Max.X, topLeft.Y+1), 1); n%2 == 1 {
-		topLeft.Y = outBounds.Max.Y - 1
-		height = 1
-		if lv.Expanded = !lv.Expanded; lv.Expanded {
-			height += viewLines
+	// the final line by itself, or a header with as many lines as there is room for
+	layout := func() ansi.Rectangle {
+		last := outBounds.Max.Y - 1
+		top := last
+		if lv.Expanded {
+			top = max(1, last-min(viewLines, lines))
 		}
-		topLeft.Y -= height - 1
+		return ansi.Rect(1, top, outBounds.Max.X, last+1)
 	}
+	bounds := layout()
 
-	if !lv.Expanded {
-		viewLines = 1
+	// TODO drag resizing
+	header := bounds
+	header.Max.Y = header.Min.Y + 1
+	if n := ctx.Input.CountPressesIn(header, 1); n%2 == 1 {
+		lv.Expanded = !lv.Expanded
+		bounds = layout()
 	}
 
-	bounds := ansi.Rectangle{Min: topLeft, Max: outBounds.Max}
-	bounds.Max = bounds.Max.Add(image.Pt(0, 1)) // TODO ideally utilize the final column too
-
-	content, eolOffsets := lv.logs.Contents()
-	lines := len(eolOffsets)
 	if lines <= 0 {
 		return nil
 	}
-	if diff := bounds.Dy() - lines + 1; diff > 0 {
-		bounds.Min.Y += diff
-	}
 	if delta := ctx.Input.TotalScrollIn(bounds); delta != 0 {
 		lv.scrollBy(lines, delta)
 	}
 
 	// render
+	at := bounds.Min
+	viewLines = bounds.Dy()
+	if lv.Expanded {
+		viewLines--
+	}
 	start, end := lv.viewWindow(lines, viewLines)
-	ctx.Output.To(bounds.Min)
-	if height > 1 {
-		fmt.Fprintf(ctx.Output, "Logs (%v-%v/%v):", start, end, lines)
+	if lv.Expanded {
+		ctx.Output.To(at)
+		writeClipped(ctx, fmt.Sprintf("Logs (%v-%v/%v):", start, end, lines))
+		at.Y++
 	}
 	off := 0
 	if start > 1 {
 		off = eolOffsets[start-2] + 1
 	}
 	for _, eol := range eolOffsets[start-1 : end] {
-		ctx.Output.To(ansi.Pt(1, ctx.Output.Cursor.Y+1))
-		w := bounds.Max.X - ctx.Output.Cursor.X
-		writeTruncated(ctx, w, content[off:eol])
+		ctx.Output.To(at)
+		ctx.Output.WriteString(truncated(string(content[off:eol]), bounds.Dx()))
+		at.Y++
 		off = eol + 1
 	}
 	return nil
@@ -690,7 +680,8 @@ func (lv *LogView) viewWindow(lines, viewLines int) (int, int) {
 		}
 		return 1, lines
 	}
-	start, end := lv.Line, lv.Line
+	start := min(lv.Line, lines)
+	end := start
 	for end < lines && end-start+1 < viewLines {
 		end++
 	}
@@ -796,17 +787,31 @@ func withOverAttr(
 	}
 }
 
-func writeTruncated(ctx *Context, w int, b []byte) {
-	// if !ctx.Output.Point.In(bounds) { return }
-	n := utf8.RuneCount(b)
-	if rem := n - w; rem > 0 {
-		for rem++; rem > 0; rem-- {
-			_, m := utf8.DecodeLastRune(b)
-			b = b[:len(b)-m]
+// writeClipped writes as much of the string as fits into the current row.
+func writeClipped(ctx *Context, s string) {
+	room := ctx.Output.Bounds().Max.X - ctx.Output.Cursor.X
+	for i := range s {
+		if room--; room < 0 {
+			s = s[:i]
+			break
+		}
+	}
+	ctx.Output.WriteString(s)
+}
+
+// truncated returns a displayable form of the string within the given width.
+func truncated(s string, w int) string {
+	if w < 1 {
+		return ""
+	}
+	rs := []rune(s)
+	if len(rs) > w {
+		rs = append(rs[:w-1], '…')
+	}
+	for i, r := range rs {
+		if !unicode.IsGraphic(r) {
+			rs[i] = ' '
 		}
-		ctx.Output.Write(b)
-		ctx.Output.WriteRune('…')
-	} else {
-		ctx.Output.Write(b)
 	}
+	return string(rs)
 }
-- 
2.43.0


From df6fd0f8d2df4768c0f20ec4636ab864d34d92b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 62/82] fix: to24bit never converted backgrounds, dropped
 attributes, and corrupted sequences and runes split between reads or using
 private runes

---
 buffer.go           |   6 +--
 cmd/to24bit/main.go | 114 +++++++++++++++++++++++++++-----------------
 2 files changed, 73 insertions(+), 47 deletions(-)

diff --git a/buffer.go b/buffer.go
index 1b4c064..06b7967 100644
--- a/buffer.go
+++ b/buffer.go
@@ -165,7 +165,7 @@ func Process(proc Processor, p []byte) (n int) {
 			continue
 		}
 		r, m := utf8.DecodeRune(p[n:])
-		partial := isPartial(p[n:])
+		partial := IsPartial(p[n:])
 		if lead[0] == 0x1B && 0x40 <= lead[1] && lead[1] <= 0x5F {
 			// restore a C1 control normalized by DecodeEscape, since the
 			// bytes may still need to be written out
@@ -180,9 +180,9 @@ func Process(proc Processor, p []byte) (n int) {
 	return n
 }
 
-// isPartial returns true if p, in which DecodeEscape found no escape sequence,
+// IsPartial returns true if p, in which DecodeEscape found no escape sequence,
 // starts with an incomplete sequence or rune that more bytes may complete.
-func isPartial(p []byte) bool {
+func IsPartial(p []byte) bool {
 	r, n := utf8.DecodeRune(p)
 	switch r {
 	case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index cd9b39b..57d5348 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -3,11 +3,13 @@ package main
 import (
 	"bufio"
 	"bytes"
+	"fmt"
 	"io"
 	"log"
 	"os"
 	"unicode/utf8"
 
+	"github.com/jcorbin/anansi"
 	"github.com/jcorbin/anansi/ansi"
 )
 
@@ -49,63 +51,87 @@ func readMore() (err error) {
 
 func processMore(ateof bool) (err error) {
 	for err == nil && readBuf.Len() > 0 {
+		var lead [2]byte
+		copy(lead[:], readBuf.Bytes())
 		e, a, n := ansi.DecodeEscape(readBuf.Bytes())
 		readBuf.Next(n)
-		if e == 0 {
-			r, n := utf8.DecodeRune(readBuf.Bytes())
-			const esc = 0x1b
-			if r == esc && readBuf.Len() == 1 && !ateof {
-				break // readMore, try to complete escape sequence
+		if e != 0 {
+			err = process(e, a)
+			continue
+		}
+		if n > 0 {
+			continue // past a cancelled sequence
+		}
+		p := readBuf.Bytes()
+		_, n = utf8.DecodeRune(p)
+		partial := anansi.IsPartial(p)
+		if lead[0] == 0x1B && 0x40 <= lead[1] && lead[1] <= 0x5F {
+			copy(p, lead[:]) // restore a C1 control normalized by DecodeEscape
+		}
+		if partial {
+			if !ateof {
+				break // readMore, try to complete escape sequence or rune
 			}
-			readBuf.Next(n)
-			e = ansi.Escape(r)
+			n = len(p)
 		}
-		err = process(e, a)
+		_, err = outBuf.Write(readBuf.Next(n))
 	}
 	return err
 }
 
 func process(e ansi.Escape, a []byte) error {
-	if !e.IsEscape() {
-		_, err := outBuf.WriteRune(rune(e))
-		return err
-	}
-
-	var b [4096]byte
-	p := b[:0]
-
-	// try to convert legacy SGR colors to 24-bit; TODO palette selection
 	if e == ansi.CSI('m') {
-		if attr, _, err := ansi.DecodeSGR(a); err == nil {
-			needed := false
-
-			// maybe convert foreground
-			if fg, hasFG := attr.FG(); hasFG {
-				if newc := fg.To24Bit(); newc != fg {
-					attr = attr.SansFG() | newc.FG()
-					needed = true
-				}
-			}
-
-			// maybe convert background
-			if bg, hasBG := attr.BG(); hasBG {
-				if newc := bg.To24Bit(); newc != bg.To24Bit() {
-					attr = attr.SansBG() | newc.BG()
-					needed = true
-				}
-			}
+		a = convertSGR(a)
+	}
+	_, err := outBuf.Write(e.AppendWith(nil, a...))
+	return err
+}
 
-			if needed {
-				p = attr.AppendTo(p)
-			}
+// convertSGR converts legacy SGR colors to 24-bit, leaving any other
+// parameters as they are; TODO palette selection
+func convertSGR(a []byte) []byte {
+	if len(bytes.Trim(a, "0123456789:;")) > 0 {
+		return a // not SGR
+	}
+	var p []byte
+	for {
+		param := a[:sgrParamSize(a)]
+		attr, _, err := ansi.DecodeSGR(param)
+		fg, hasFG := attr.FG()
+		bg, hasBG := attr.BG()
+		switch {
+		case err == nil && hasFG:
+			r, g, b := fg.RGB()
+			p = append(p, fmt.Sprintf("38;2;%d;%d;%d", r, g, b)...)
+		case err == nil && hasBG:
+			r, g, b := bg.RGB()
+			p = append(p, fmt.Sprintf("48;2;%d;%d;%d", r, g, b)...)
+		default:
+			p = append(p, param...)
+		}
+		if a = a[len(param):]; len(a) == 0 {
+			return p
 		}
+		p = append(p, ';')
+		a = a[1:]
 	}
+}
 
-	// not SGR, or conversion failed/not necessary
-	if len(p) == 0 {
-		p = e.AppendWith(p, a...)
+// sgrParamSize returns the size of the first SGR parameter in a, including
+// those that follow an extended color.
+func sgrParamSize(a []byte) (n int) {
+	params := bytes.SplitN(a, []byte{';'}, 6)
+	need := 1
+	if len(params) > 1 {
+		switch code := string(params[0]) + ";" + string(params[1]); code {
+		case "38;2", "48;2":
+			need = 5
+		case "38;5", "48;5":
+			need = 3
+		}
 	}
-
-	_, err := outBuf.Write(p)
-	return err
+	for i := 0; i < need && i < len(params); i++ {
+		n += len(params[i]) + 1
+	}
+	return n - 1
 }
-- 
2.43.0


From f181fa3f9efcaa2654b2e15927c2ea88300d97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 63/82] fix: decode reported cancelled and split sequences
 wrongly, and always failed at the end of its input

---
 cmd/decode/main.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 5692913..408bc09 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -77,6 +77,9 @@ func runBatch(in, out *os.File) (err error) {
 	if buf.Len() > 0 {
 		log.Printf("undecoded trailer content: %q", buf.Bytes())
 	}
+	if err == io.EOF {
+		err = nil
+	}
 	return err
 }
 
@@ -98,15 +101,13 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 			buf.Next(n)
 		}
 		if e == 0 {
-			r, n := utf8.DecodeRune(buf.Bytes())
-			switch r {
-			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
-				return
-			case 0x1B: // ESC
-				if p := buf.Bytes(); len(p) == cap(p) {
-					return
-				}
+			if n > 0 {
+				continue // past a cancelled sequence
+			}
+			if anansi.IsPartial(buf.Bytes()) {
+				return nil // read more to complete an escape sequence or rune
 			}
+			r, n := utf8.DecodeRune(buf.Bytes())
 			buf.Next(n)
 			_, err = writeRune(r)
 		} else if !*stripMode {
-- 
2.43.0


From f275533b6e5753ad58bdccf570963634b78cb8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 64/82] fix: a profiler stopped in the HUD stays stopped across
 suspend and resume

Config.Enter started every profiler that has a file, truncating what had been
recorded by those that the user had stopped.
---
 x/platform/config.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index 2a248cd..1639a6b 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -165,17 +165,20 @@ func (cfg *Config) Exit(term *anansi.Term) error {
 }
 
 type cpuProfileContext struct {
-	active bool
-	f      *os.File
+	active  bool
+	stopped bool // explicitly, so Enter shall not restart it
+	f       *os.File
 }
 
 type traceProfileContext struct {
-	active bool
-	f      *os.File
+	active  bool
+	stopped bool // explicitly, so Enter shall not restart it
+	f       *os.File
 }
 
 type pprofProfileContext struct {
 	active  bool
+	stopped bool // explicitly, so Enter shall not restart it
 	profile *pprof.Profile
 	f       *os.File
 	debug   int
@@ -249,45 +252,51 @@ func (prof *pprofProfileContext) create(name string) error {
 }
 
 func (cpu *cpuProfileContext) Enter(_ *anansi.Term) error {
-	if cpu.f == nil {
+	if cpu.f == nil || cpu.stopped {
 		return nil
 	}
 	return cpu.start()
 }
 
 func (cpu *cpuProfileContext) Exit(_ *anansi.Term) error {
-	if cpu.f == nil {
+	if !cpu.active {
 		return nil
 	}
-	return cpu.stop()
+	err := cpu.stop()
+	cpu.stopped = false
+	return err
 }
 
 func (trc *traceProfileContext) Enter(_ *anansi.Term) error {
-	if trc.f == nil {
+	if trc.f == nil || trc.stopped {
 		return nil
 	}
 	return trc.start()
 }
 
-func (trc *traceProfileContext) Exit(_ *anansi.Term) (err error) {
-	if trc.f == nil {
+func (trc *traceProfileContext) Exit(_ *anansi.Term) error {
+	if !trc.active {
 		return nil
 	}
-	return trc.stop()
+	err := trc.stop()
+	trc.stopped = false
+	return err
 }
 
 func (prof *pprofProfileContext) Enter(_ *anansi.Term) error {
-	if prof.f == nil {
+	if prof.f == nil || prof.stopped {
 		return nil
 	}
 	return prof.start()
 }
 
 func (prof *pprofProfileContext) Exit(_ *anansi.Term) error {
-	if prof.f == nil {
+	if !prof.active {
 		return nil
 	}
-	return prof.stop()
+	err := prof.stop()
+	prof.stopped = false
+	return err
 }
 
 func (cpu *cpuProfileContext) start() error {
@@ -298,6 +307,7 @@ func (cpu *cpuProfileContext) start() error {
 		}
 		cpu.f = f
 	}
+	cpu.stopped = false
 	if cpu.active {
 		return nil
 	}
@@ -317,6 +327,7 @@ func (cpu *cpuProfileContext) start() error {
 }
 
 func (cpu *cpuProfileContext) stop() error {
+	cpu.stopped = true
 	if !cpu.active {
 		return nil
 	}
@@ -337,6 +348,7 @@ func (trc *traceProfileContext) start() error {
 		}
 		trc.f = f
 	}
+	trc.stopped = false
 	if trc.active {
 		return nil
 	}
@@ -356,6 +368,7 @@ func (trc *traceProfileContext) start() error {
 }
 
 func (trc *traceProfileContext) stop() (err error) {
+	trc.stopped = true
 	if !trc.active {
 		return nil
 	}
@@ -376,11 +389,13 @@ func (prof *pprofProfileContext) start() error {
 		}
 		prof.f = f
 	}
+	prof.stopped = false
 	prof.active = true
 	return nil
 }
 
 func (prof *pprofProfileContext) stop() error {
+	prof.stopped = true
 	if !prof.active {
 		return nil
 	}
-- 
2.43.0


From a57fde7d3bd3ad676f014b3bf472c8b5b8c2e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 65/82] fix: mode sequences get through to a non-blocking
 terminal

When output shares its file description with non-blocking input, entering or
exiting failed with EAGAIN on a terminal that was slow to accept output, losing
(part of) the set or reset sequences.
---
 mode.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mode.go b/mode.go
index c3f6a18..cff6057 100644
--- a/mode.go
+++ b/mode.go
@@ -1,6 +1,7 @@
 package anansi
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/jcorbin/anansi/ansi"
@@ -16,24 +17,26 @@ type Mode struct {
 
 // Enter writes the modes' Set() string to the terminal's output file.
 func (mode *Mode) Enter(term *Term) error {
-	if term.Output.File != nil {
-		if _, err := term.Output.File.Write(mode.Set); err != nil {
-			return fmt.Errorf("failed to write mode set string: %v", err)
-		}
+	if err := mode.write(term, mode.Set); err != nil {
+		return fmt.Errorf("failed to write mode set string: %v", err)
 	}
 	return nil
 }
 
 // Exit writes the modes' Reset() string to the terminal's output file.
 func (mode *Mode) Exit(term *Term) error {
-	if term.Output.File != nil {
-		if _, err := term.Output.File.Write(mode.Reset); err != nil {
-			return fmt.Errorf("failed to write mode reset string: %v", err)
-		}
+	if err := mode.write(term, mode.Reset); err != nil {
+		return fmt.Errorf("failed to write mode reset string: %v", err)
 	}
 	return nil
 }
 
+// write through Flush, since output may be non-blocking: e.g. if it shares its
+// file description with input.
+func (mode *Mode) write(term *Term, b []byte) error {
+	return term.Flush(bytes.NewReader(b))
+}
+
 // AddMode adds Set/Reset pairs from one or more ansi.Mode values.
 func (mode *Mode) AddMode(ms ...ansi.Mode) {
 	for _, m := range ms {
-- 
2.43.0


From e065ac15149de8cdfb5a81a17036dc75aeacbad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 66/82] fix: platform.MustRun exits without a word about the
 error

---
 x/platform/platform.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 5d7ad17..a217b92 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"flag"
 	"image"
+	"io"
 	"log"
 	"os"
 	"syscall"
@@ -13,9 +14,14 @@ import (
 	"github.com/jcorbin/anansi/ansi"
 )
 
-// MustRun call Run, calling os.Exit(1) if it returns a non-nil error.
+// MustRun call Run, calling os.Exit(1) if it returns a non-nil error; such error
+// is also logged to os.Stderr, unless standard log output has been redirected.
 func MustRun(in, out *os.File, run func(*Platform) error, opts ...Option) {
-	anansi.MustRun(Run(in, out, run, opts...))
+	err := Run(in, out, run, opts...)
+	if err != nil && log.Writer() == io.Writer(&Logs) {
+		log.SetOutput(io.MultiWriter(&Logs, os.Stderr)) // there's nobody left to see Logs
+	}
+	anansi.MustRun(err)
 }
 
 // Run is a convenience wrapper that calls the run function with a newly
-- 
2.43.0


From e8f4fdcbc6198da65281712ce9ce00fb7bc9e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 67/82] fix: lolwut exits without a word about an invalid
 argument

---
 cmd/lolwut/interact.go | 2 ++
 cmd/lolwut/main.go     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/cmd/lolwut/interact.go b/cmd/lolwut/interact.go
index 65b429c..5b7f74c 100644
--- a/cmd/lolwut/interact.go
+++ b/cmd/lolwut/interact.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"errors"
+	"log"
 	"math"
 	"os"
 
@@ -14,6 +15,7 @@ type schotterDemoUI struct {
 }
 
 func runInteractive() {
+	log.SetOutput(&platform.Logs)
 	platform.MustRun(os.Stdin, os.Stdout, func(p *platform.Platform) error {
 		var ui schotterDemoUI
 		ui.schotterDemo = &sd
diff --git a/cmd/lolwut/main.go b/cmd/lolwut/main.go
index eab9b47..f18bf2c 100644
--- a/cmd/lolwut/main.go
+++ b/cmd/lolwut/main.go
@@ -45,6 +45,7 @@ import (
 var sd schotterDemo
 
 func main() {
+	log.SetOutput(os.Stderr) // rather than the in-memory platform.Logs
 	interactive := flag.Bool("i", false, "interactive mode")
 	flag.Parse()
 	var (
-- 
2.43.0


From d8eaca731921cbf85438c5f7b74c84a025ed4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 68/82] fix: the demo draws all of its lines over the first one

---
 cmd/demo/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/demo/main.go b/cmd/demo/main.go
index b2149f6..1d795f8 100644
--- a/cmd/demo/main.go
+++ b/cmd/demo/main.go
@@ -76,6 +76,7 @@ func (d *demo) Update(ctx *platform.Context) (err error) {
 	r := ctx.Output.Bounds()
 	for p := r.Min; p.Y < r.Max.Y; p.Y++ {
 		line := p.Y%16 == 0
+		p.X = r.Min.X
 		i, _ := d.Grid.CellOffset(p)
 		for p.X = r.Min.X; p.X < r.Max.X; p.X++ {
 			a := ansi.RGB(0, uint8(p.X), uint8(p.Y)).BG()
-- 
2.43.0


From 9ddb36b51e1cbf04e7e8f5428eebcbea84981e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 69/82] fix: lolwut -i does not follow changes of the
 terminal's height

---
 cmd/lolwut/interact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/lolwut/interact.go b/cmd/lolwut/interact.go
index 5b7f74c..5ce8399 100644
--- a/cmd/lolwut/interact.go
+++ b/cmd/lolwut/interact.go
@@ -54,7 +54,7 @@ func (sd *schotterDemoUI) Update(ctx *platform.Context) (err error) {
 
 	canvasSize := sd.canvas.Rect.Size()
 
-	if screenSize := ctx.Output.Bounds().Size(); screenSize.X != canvasSize.X/2 || zoomed {
+	if screenSize := ctx.Output.Bounds().Size(); screenSize.X != canvasSize.X/2 || screenSize.Y != canvasSize.Y/4 || zoomed {
 		sd.padding = 0
 		if screenSize.X > 2 {
 			sd.padding = 2
-- 
2.43.0


From 4f77eab9e0f8fb0f838b674c5ff984c677202a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 70/82] fix: interact crashes without a command

---
 cmd/interact/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/interact/main.go b/cmd/interact/main.go
index 715dfd2..9afd222 100644
--- a/cmd/interact/main.go
+++ b/cmd/interact/main.go
@@ -46,6 +46,9 @@ func main() {
 // Run the demo under an active terminal platform.
 func Run(p *platform.Platform) error {
 	cmd := flag.Args()
+	if len(cmd) == 0 {
+		return errors.New("no command given")
+	}
 	for {
 		in := inspect{}
 		in.setCmd(cmd)
-- 
2.43.0


From edfb4bb36f6617017d2eefc8b72b1ce8ee33e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 71/82] fix: an ESC before a C1 introducer held up all complete
 input after it

---
 ansi/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index c3ac4c1..13223cb 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -48,7 +48,11 @@ func DecodeEscape(p []byte) (e Escape, arg []byte, n int) {
 	}
 	r, m := DecodeRune(p)
 	if r == 0x1B {
-		return decodeESC(p)
+		if e, arg, n = decodeESC(p); e != 0 || n != 0 || p[0] == 0x1B {
+			return e, arg, n
+		}
+		// a rune was moved ahead of the ESC, it may introduce a sequence
+		r, m = utf8.DecodeRune(p)
 	}
 	switch r {
 	case 0x9B: // CSI
-- 
2.43.0


From f7bea5f3108601244c68a6bfa4fcb3482030e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 72/82] fix: signals and read errors were lost during replay

---
 x/platform/replay.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index c2aeedc..a01fca0 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -55,7 +55,7 @@ func (rep *replay) update(ctx *Context) {
 	}
 
 	if len(rep.cur) == 0 {
-		ctx.Err = errReplayDone
+		ctx.Err = errOr(ctx.Err, errReplayDone)
 		return
 	}
 
@@ -84,7 +84,7 @@ func (rep *replay) update(ctx *Context) {
 		// next non-message frame
 		rep.messages()
 		if !rep.next() {
-			ctx.Err = errReplayDone
+			ctx.Err = errOr(ctx.Err, errReplayDone)
 			return
 		}
 		rep.messages() // recorded within the frame
@@ -114,7 +114,7 @@ func (rep *replay) update(ctx *Context) {
 		}
 	}
 
-	ctx.Err = rep.runClient(ctx)
+	ctx.Err = errOr(ctx.Err, rep.runClient(ctx))
 }
 
 func (rep *replay) runClient(ctx *Context) error {
-- 
2.43.0


From 58738955c57576d649fbcbab00fb44a213e73355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 73/82] fix: frame time went backwards when a tick was already
 due at the first frame of a run

---
 x/platform/platform.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index a217b92..a1d08bb 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -197,7 +197,7 @@ func (p *Platform) Run(client Client) (err error) {
 	// there may already be input
 	p.sigio.Send("run")
 
-	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.ticker.Wait() {
+	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.nextTime() {
 		// update performance data
 		if err := p.Telemetry.update(p); err != nil {
 			return err
@@ -247,6 +247,16 @@ func (p *Platform) Run(client Client) (err error) {
 	return nil
 }
 
+// nextTime waits for a tick to run the next frame at. Any that was already due
+// when the current frame began is skipped, so that time never goes backwards.
+func (p *Platform) nextTime() time.Time {
+	t := p.ticker.Wait()
+	for !t.IsZero() && t.Before(p.Time) {
+		t = p.ticker.Wait()
+	}
+	return t
+}
+
 // Context returns a new Context bound to the platform.
 func (p *Platform) Context() Context {
 	return Context{
-- 
2.43.0


From e236bb7201dadc64f4a48629d0e1736449ae6728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 74/82] fix: notifying the same channel again, as InputSignal
 does when re-entered, stopped its notifications

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 2b093ef..650a634 100644
--- a/input.go
+++ b/input.go
@@ -98,7 +98,7 @@ func (in *Input) Notify(sigio chan os.Signal) error {
 	if sigio != nil {
 		signal.Notify(in.sigio, syscall.SIGIO)
 	}
-	if prior != nil {
+	if prior != nil && prior != sigio {
 		signal.Stop(prior)
 	}
 	return in.setAsync(sigio != nil)
-- 
2.43.0


From bd48b97bdd4a719c89b72d62677068d80d37f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 75/82] fix: a full update dropped styled spaces when empty
 cells are filled with spaces

---
 render.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/render.go b/render.go
index 8d11ea3..4d74429 100644
--- a/render.go
+++ b/render.go
@@ -42,7 +42,12 @@ func writeGrid(aw ansiWriter, g Grid, prior Screen, style Style) (int, Screen) {
 func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor) {
 	const empty = ' '
 	if fillRune, _ := style.Style(ansi.ZP, 0, 0, 0, 0); fillRune == empty {
-		style = Styles(style, ZeroRuneStyle(empty))
+		style = Styles(style, StyleFunc(func(_ ansi.Point, _, r rune, _, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
+			if r == empty && a == 0 {
+				r = 0 // already cleared
+			}
+			return r, a
+		}))
 	}
 	style = Styles(style, DefaultRuneStyle(empty))
 	n := 0
-- 
2.43.0


From 49c9ae81c9b7acc6713f2c2ced3b66862612e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 76/82] fix: a platform run under its terminal a second time
 got no notification of input

---
 x/platform/platform.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index a1d08bb..4e0416c 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -47,6 +47,7 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 	p.term = anansi.NewTerm(in, out,
 		&p.stop,
 		&p.resize,
+		&p.sigio,
 		&p.screen,
 		&p.Config,
 		&p.ticker,
@@ -93,11 +94,6 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 		return nil, err
 	}
 
-	p.sigio.C = make(chan os.Signal, 1)
-	if err := p.term.Notify(p.sigio.C); err != nil {
-		return nil, err
-	}
-
 	return p, nil
 }
 
@@ -109,7 +105,7 @@ type Platform struct {
 	term   *anansi.Term
 	stop   anansi.Signal
 	resize anansi.Signal
-	sigio  anansi.Signal
+	sigio  anansi.InputSignal
 	buf    anansi.Buffer
 	events Events
 	ticker Ticker
-- 
2.43.0


From 4b61ca7dd1a295f7518952b703793f7054c60a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 77/82] fix: hold log lines that fail to be written to the log
 file

---
 x/platform/log.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index 1f6d2be..63fa74c 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -59,16 +59,6 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 	}
 	logs.Lock()
 	defer logs.Unlock()
-	if logs.f != nil {
-		if logs.direct {
-			if n, err := logs.f.Write(p); err != nil {
-				return n, err
-			}
-		} else {
-			_, _ = logs.fbuf.Write(p)
-		}
-	}
-
 	b := logs.buf.Bytes()
 	// unwind any implicit EOL-at-EOF
 	if i := len(logs.bufEOLs) - 1; i >= 0 && logs.bufEOLs[i] >= len(b) {
@@ -85,6 +75,12 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 	}
 
 	n, _ = logs.buf.Write(p)
+	if logs.f != nil {
+		if logs.direct {
+			return logs.f.Write(p)
+		}
+		_, _ = logs.fbuf.Write(p)
+	}
 	return n, nil
 }
 
-- 
2.43.0


From 8c9ee736a9058b39ac1cf467723f3f4d8757b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 78/82] fix: retry raw and echo settings that failed, and let
 go of the terminal even when they can't be restored

---
 attr.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/attr.go b/attr.go
index 2ef33da..0c5f9a4 100644
--- a/attr.go
+++ b/attr.go
@@ -57,12 +57,14 @@ func (at *Attr) SetRaw(raw bool) error {
 	if raw == at.raw {
 		return nil
 	}
+	prior := *at
 	at.raw = raw
 	if at.file == nil {
 		return nil
 	}
 	at.cur = at.modifyTermios(at.orig)
 	if err := at.setAttr(at.cur); err != nil {
+		*at = prior // so that trying again isn't a no-op
 		return fmt.Errorf("failed to set termios attr: %v", err)
 	}
 	return nil
@@ -74,6 +76,7 @@ func (at *Attr) SetEcho(echo bool) error {
 	if at.setEcho && echo == at.echo {
 		return nil
 	}
+	prior := *at
 	at.echo = echo
 	at.setEcho = true
 	if at.file == nil {
@@ -81,6 +84,7 @@ func (at *Attr) SetEcho(echo bool) error {
 	}
 	at.cur = at.modifyTermios(at.orig)
 	if err := at.setAttr(at.cur); err != nil {
+		*at = prior // so that trying again isn't a no-op
 		return fmt.Errorf("failed to set termios attr: %v", err)
 	}
 	return nil
@@ -141,13 +145,14 @@ func (at *Attr) Exit(term *Term) error {
 	if at.file == nil {
 		return nil
 	}
-	if err := at.setAttr(at.orig); err != nil {
-		return fmt.Errorf("failed to set termios attr: %v", err)
-	}
+	err := at.setAttr(at.orig)
 	if !at.ownFile {
 		at.file = nil
 		at.ownFile = false
 	}
+	if err != nil {
+		return fmt.Errorf("failed to set termios attr: %v", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From d56350dff38a8b441a314e379e75d901a5170f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 79/82] fix: report CPU profiles and traces that could not be
 written

---
 x/platform/config.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index 1639a6b..4e6bdf6 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"runtime/pprof"
 	"runtime/trace"
+	"sync"
 
 	"github.com/jcorbin/anansi"
 )
@@ -168,12 +169,37 @@ type cpuProfileContext struct {
 	active  bool
 	stopped bool // explicitly, so Enter shall not restart it
 	f       *os.File
+	w       *errWriter
 }
 
 type traceProfileContext struct {
 	active  bool
 	stopped bool // explicitly, so Enter shall not restart it
 	f       *os.File
+	w       *errWriter
+}
+
+// errWriter retains the first error from writing a file, since the profilers
+// that are given it do not.
+type errWriter struct {
+	f   *os.File
+	mu  sync.Mutex
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (n int, err error) {
+	n, err = ew.f.Write(p)
+	ew.mu.Lock()
+	defer ew.mu.Unlock()
+	ew.err = errOr(ew.err, err)
+	return n, err
+}
+
+// sync the file, returning any earlier write error.
+func (ew *errWriter) sync() error {
+	ew.mu.Lock()
+	defer ew.mu.Unlock()
+	return errOr(ew.err, ew.f.Sync())
 }
 
 type pprofProfileContext struct {
@@ -318,7 +344,8 @@ func (cpu *cpuProfileContext) start() error {
 	if err != nil {
 		return err
 	}
-	if err = pprof.StartCPUProfile(cpu.f); err != nil {
+	cpu.w = &errWriter{f: cpu.f}
+	if err = pprof.StartCPUProfile(cpu.w); err != nil {
 		return fmt.Errorf("failed to start CPU profiling: %v", err)
 	}
 	cpu.active = true
@@ -332,10 +359,10 @@ func (cpu *cpuProfileContext) stop() error {
 		return nil
 	}
 	pprof.StopCPUProfile()
-	if err := cpu.f.Sync(); err != nil {
+	cpu.active = false
+	if err := cpu.w.sync(); err != nil {
 		return err
 	}
-	cpu.active = false
 	log.Printf("Flushed CPU profiling to %q", cpu.f.Name())
 	return nil
 }
@@ -359,7 +386,8 @@ func (trc *traceProfileContext) start() error {
 	if err != nil {
 		return err
 	}
-	if err := trace.Start(trc.f); err != nil {
+	trc.w = &errWriter{f: trc.f}
+	if err := trace.Start(trc.w); err != nil {
 		return fmt.Errorf("failed to start execution tracing: %v", err)
 	}
 	trc.active = true
@@ -373,10 +401,10 @@ func (trc *traceProfileContext) stop() (err error) {
 		return nil
 	}
 	trace.Stop()
-	if err := trc.f.Sync(); err != nil {
+	trc.active = false
+	if err := trc.w.sync(); err != nil {
 		return err
 	}
-	trc.active = false
 	log.Printf("Flushed execution trace execution to %q", trc.f.Name())
 	return nil
 }
-- 
2.43.0


From 16079369d218fe72f3f92cb3ac1fd982838f05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 80/82] fix: palette ended successfully without its output
 written

---
 cmd/palette/main.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cmd/palette/main.go b/cmd/palette/main.go
index a7f8a1c..50bb80c 100644
--- a/cmd/palette/main.go
+++ b/cmd/palette/main.go
@@ -1,8 +1,11 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
+	"log"
+	"os"
 
 	"github.com/jcorbin/anansi/ansi"
 )
@@ -51,8 +54,10 @@ func main() {
 	flag.BoolVar(&showThemes, "themes", false, "list color theme palettes too")
 	flag.Parse()
 
+	out := bufio.NewWriter(os.Stdout)
+
 	rst := ansi.SGRAttrClear.ControlString()
-	fmt.Printf("using %q model (pass -model to change)\n", model.name)
+	fmt.Fprintf(out, "using %q model (pass -model to change)\n", model.name)
 
 	ctlWidth := colorCtlWidths[model.name]
 	if ctlWidth == 0 {
@@ -88,19 +93,19 @@ func main() {
 
 	for i, p := range pals {
 		if i > 0 {
-			fmt.Printf("\n")
+			fmt.Fprintf(out, "\n")
 		}
 		if p.extra != "" {
-			fmt.Printf("%s (%s):\n", p.name, p.extra)
+			fmt.Fprintf(out, "%s (%s):\n", p.name, p.extra)
 		} else {
-			fmt.Printf("%s:\n", p.name)
+			fmt.Fprintf(out, "%s:\n", p.name)
 		}
 		for i, c := range p.pal {
 			c = model.model.Convert(c)
 			fg := c.FG().ControlString()
 			bg := c.BG().ControlString()
-			fmt.Printf(
-				"%s% 3d %s[ fg ]%s%s[ bg ]%s fg_ctl:% -*q bg_ctl:% -*q\n",
+			fmt.Fprintf(
+				out, "%s% 3d %s[ fg ]%s%s[ bg ]%s fg_ctl:% -*q bg_ctl:% -*q\n",
 				rst, p.off+i,
 				fg,
 				rst,
@@ -111,4 +116,8 @@ func main() {
 			)
 		}
 	}
+
+	if err := out.Flush(); err != nil {
+		log.Fatalln(err)
+	}
 }
-- 
2.43.0


From 74937537ec13a32eebf2c83d23255c085e8a8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:48 +0000
Subject: [PATCH 81/82] fix: tell that a recording could not be created

---
 x/platform/replay.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index a01fca0..611ab8b 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -185,6 +185,9 @@ func (p *Platform) setRecording(f *os.File, err error) {
 		}
 		p.recording = nil
 	}
+	if f == nil && err != nil {
+		log.Printf("failed to create record file (not recording): %v", err)
+	}
 	if f != nil {
 		sw := sizedWriter{ws: f}
 		if err == nil {
-- 
2.43.0


From 5fd027cea45b08a4980ce1d565d6c1b34f2e5395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:48 +0000
Subject: [PATCH 82/82] fix: timing data was logged as zeros when timing was
 switched off in the frame completing it

---
 x/platform/diag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index 9545728..0fb2ae3 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -218,7 +218,7 @@ func (tel *Telemetry) update(p *Platform) error {
 		timingFrame := tel.Timing.update(p)
 		consumeStalls := timingFrame
 		if tel.LogTiming && timingFrame {
-			tel.coll.timing = tel.Timing.ds
+			tel.coll.timing = append([]time.Duration(nil), tel.Timing.ds...) // as they may be reset
 		}
 		if stalls := p.term.Stalls(consumeStalls); stalls != nil && (consumeStalls || len(stalls) == cap(stalls)) {
 			if tel.LogStallData {
-- 
2.43.0

