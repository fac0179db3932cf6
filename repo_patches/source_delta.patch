From 8d4c0556f8e76645e1ce26fc897773673afb5492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:29 +0000
Subject: [PATCH 01/29] fix: refuse truncated integers and data in decoders

bytes.Buffer.Read reports no error on a short read, so a message that ended
inside an integer decoded with zeroes (or stale bytes) filled in; and a data
count larger than the message panicked with a slice out of range.
Read integers in full and check data counts against what is left.
---
 protocol/gen.go    |   7 +-
 protocol/genout.go | 191 ++++++++++++++++++++++++---------------------
 2 files changed, 109 insertions(+), 89 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 17e6cf2..ffdd5f3 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -41,6 +41,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 `
@@ -143,7 +144,7 @@ return
 	ufunc = template.Must(template.New("mr").Parse(`func Unmarshal{{.UFunc}}Pkt (b *bytes.Buffer) ({{.URet}} t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -217,7 +218,7 @@ func emitEncodeInt(v interface{}, n string, l int, e *emitter) {
 func emitDecodeInt(v interface{}, n string, l int, e *emitter) {
 	t := reflect.ValueOf(v).Type().Name()
 	debug("emit reflect.ValueOf(v) %s %v, %v", t, n, l)
-	e.UCode.WriteString(fmt.Sprintf("\tif _, err = b.Read(u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
+	e.UCode.WriteString(fmt.Sprintf("\tif _, err = io.ReadFull(b, u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
 	e.UCode.WriteString(fmt.Sprintf("\t%v = %s(u[0])\n", n, t))
 	for i := 1; i < l; i++ {
 		e.UCode.WriteString(fmt.Sprintf("\t%v |= %s(u[%d])<<%v\n", n, t, i, i*8))
@@ -339,11 +340,13 @@ func genDecodeSlice(v interface{}, n string, e *emitter) error {
 	case "[]byte", "[]uint8":
 		var u uint64
 		emitDecodeInt(u, "l", 4, e)
+		e.UCode.WriteString(fmt.Sprintf("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %%d, have %%d\", l, b.Len())\n\treturn\n\t}\n"))
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	case "[]protocol.DataCnt16":
 		var u uint64
 		emitDecodeInt(u, "l", 2, e)
+		e.UCode.WriteString(fmt.Sprintf("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %%d, have %%d\", l, b.Len())\n\treturn\n\t}\n"))
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	default:
diff --git a/protocol/genout.go b/protocol/genout.go
index 05107d6..92185aa 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -3,6 +3,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 func MarshalRerrorPkt (b *bytes.Buffer, t Tag, Error string) {
@@ -24,13 +25,13 @@ return
 func UnmarshalRerrorPkt (b *bytes.Buffer) (Error string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -71,13 +72,13 @@ return
 func UnmarshalRversionPkt (b *bytes.Buffer) (RMsize MaxSize, RVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -85,7 +86,7 @@ t = Tag(l)
 	RMsize |= MaxSize(u[1])<<8
 	RMsize |= MaxSize(u[2])<<16
 	RMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -126,13 +127,13 @@ return
 func UnmarshalTversionPkt (b *bytes.Buffer) (TMsize MaxSize, TVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -140,7 +141,7 @@ t = Tag(l)
 	TMsize |= MaxSize(u[1])<<8
 	TMsize |= MaxSize(u[2])<<16
 	TMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -220,18 +221,18 @@ return
 func UnmarshalRattachPkt (b *bytes.Buffer) (QID QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -239,7 +240,7 @@ t = Tag(l)
 	QID.Version |= uint32(u[1])<<8
 	QID.Version |= uint32(u[2])<<16
 	QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -287,13 +288,13 @@ return
 func UnmarshalTattachPkt (b *bytes.Buffer) (SFID FID, AFID FID, Uname string, Aname string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -301,7 +302,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -309,7 +310,7 @@ t = Tag(l)
 	AFID |= FID(u[1])<<8
 	AFID |= FID(u[2])<<16
 	AFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -321,7 +322,7 @@ t = Tag(l)
 	}
 	Uname = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -388,7 +389,7 @@ return
 func UnmarshalRflushPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -419,13 +420,13 @@ return
 func UnmarshalTflushPkt (b *bytes.Buffer) (OTag Tag,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -504,13 +505,13 @@ return
 func UnmarshalRwalkPkt (b *bytes.Buffer) (QIDs []QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -518,12 +519,12 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	QIDs = make([]QID, l)
 for i := range QIDs {
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QIDs[i].Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -531,7 +532,7 @@ for i := range QIDs {
 	QIDs[i].Version |= uint32(u[1])<<8
 	QIDs[i].Version |= uint32(u[2])<<16
 	QIDs[i].Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -582,13 +583,13 @@ return
 func UnmarshalTwalkPkt (b *bytes.Buffer) (SFID FID, NewFID FID, Paths []string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -596,7 +597,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -604,7 +605,7 @@ t = Tag(l)
 	NewFID |= FID(u[1])<<8
 	NewFID |= FID(u[2])<<16
 	NewFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -612,7 +613,7 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	Paths = make([]string, l)
 for i := range Paths {
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -697,18 +698,18 @@ return
 func UnmarshalRopenPkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -716,7 +717,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -728,7 +729,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -764,13 +765,13 @@ return
 func UnmarshalTopenPkt (b *bytes.Buffer) (OFID FID, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -778,7 +779,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -855,18 +856,18 @@ return
 func UnmarshalRcreatePkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -874,7 +875,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -886,7 +887,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -929,13 +930,13 @@ return
 func UnmarshalTcreatePkt (b *bytes.Buffer) (OFID FID, Name string, CreatePerm Perm, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -943,7 +944,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -955,7 +956,7 @@ t = Tag(l)
 	}
 	Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -963,7 +964,7 @@ t = Tag(l)
 	CreatePerm |= Perm(u[1])<<8
 	CreatePerm |= Perm(u[2])<<16
 	CreatePerm |= Perm(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -1026,18 +1027,22 @@ return
 func UnmarshalRstatPkt (b *bytes.Buffer) (B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1067,13 +1072,13 @@ return
 func UnmarshalTstatPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1136,7 +1141,7 @@ return
 func UnmarshalRwstatPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1172,13 +1177,13 @@ return
 func UnmarshalTwstatPkt (b *bytes.Buffer) (OFID FID, B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1186,12 +1191,16 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1249,7 +1258,7 @@ return
 func UnmarshalRclunkPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1282,13 +1291,13 @@ return
 func UnmarshalTclunkPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1351,7 +1360,7 @@ return
 func UnmarshalRremovePkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1384,13 +1393,13 @@ return
 func UnmarshalTremovePkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1458,13 +1467,13 @@ return
 func UnmarshalRreadPkt (b *bytes.Buffer) (Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1472,6 +1481,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1513,13 +1526,13 @@ return
 func UnmarshalTreadPkt (b *bytes.Buffer) (OFID FID, Off Offset, Len Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1527,7 +1540,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1539,7 +1552,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1606,13 +1619,13 @@ return
 func UnmarshalRwritePkt (b *bytes.Buffer) (RLen Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1660,13 +1673,13 @@ return
 func UnmarshalTwritePkt (b *bytes.Buffer) (OFID FID, Off Offset, Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1674,7 +1687,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1686,7 +1699,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1694,6 +1707,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1807,13 +1824,13 @@ func Unmarshaldir (b *bytes.Buffer) (D Dir,  err error) {
 var u [8]uint8
 var l uint64
 _ = b.Next(2) // eat the length too
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	D.Type = uint16(u[0])
 	D.Type |= uint16(u[1])<<8
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1821,12 +1838,12 @@ _ = b.Next(2) // eat the length too
 	D.Dev |= uint32(u[1])<<8
 	D.Dev |= uint32(u[2])<<16
 	D.Dev |= uint32(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	D.QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1834,7 +1851,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Version |= uint32(u[1])<<8
 	D.QID.Version |= uint32(u[2])<<16
 	D.QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1846,7 +1863,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Path |= uint64(u[5])<<40
 	D.QID.Path |= uint64(u[6])<<48
 	D.QID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1854,7 +1871,7 @@ _ = b.Next(2) // eat the length too
 	D.Mode |= uint32(u[1])<<8
 	D.Mode |= uint32(u[2])<<16
 	D.Mode |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1862,7 +1879,7 @@ _ = b.Next(2) // eat the length too
 	D.Atime |= uint32(u[1])<<8
 	D.Atime |= uint32(u[2])<<16
 	D.Atime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1870,7 +1887,7 @@ _ = b.Next(2) // eat the length too
 	D.Mtime |= uint32(u[1])<<8
 	D.Mtime |= uint32(u[2])<<16
 	D.Mtime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1882,7 +1899,7 @@ _ = b.Next(2) // eat the length too
 	D.Length |= uint64(u[5])<<40
 	D.Length |= uint64(u[6])<<48
 	D.Length |= uint64(u[7])<<56
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1894,7 +1911,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1906,7 +1923,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.User = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1918,7 +1935,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Group = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
-- 
2.43.0


From cceaf071eefd93b1b79eb78d387434e6d239fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:10 +0000
Subject: [PATCH 02/29] fix: answer an undecodable request with Rerror instead
 of acting on it

The generated server stubs ignored the error from the decoder and called the
file server with whatever fields had been filled in.
---
 protocol/gen.go    |  6 ++--
 protocol/genout.go | 72 ++++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index ffdd5f3..837d5ff 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -159,8 +159,10 @@ return
 `))
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
diff --git a/protocol/genout.go b/protocol/genout.go
index 92185aa..3ca2185 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -161,8 +161,10 @@ return
 }
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -342,8 +344,10 @@ return
 }
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -440,8 +444,10 @@ return
 }
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if  err := s.NS.Rflush(OTag); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -634,8 +640,10 @@ return
 }
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -792,8 +800,10 @@ return
 }
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -977,8 +987,10 @@ return
 }
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1094,8 +1106,10 @@ return
 }
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1211,8 +1225,10 @@ return
 }
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1313,8 +1329,10 @@ return
 }
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1415,8 +1433,10 @@ return
 }
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if  err := s.NS.Rremove(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1568,8 +1588,10 @@ return
 }
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1721,8 +1743,10 @@ return
 }
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
-- 
2.43.0


From 7e2a01284432e114969af632d2e683fc83d7cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:28 +0000
Subject: [PATCH 03/29] fix: keep the error text of an Rerror within what its
 count can tell

An error longer than 65535 bytes (such as one quoting a long path of the
request) had its count truncated but was sent whole: a malformed reply.
---
 protocol/gen.go    |  4 ++--
 protocol/genout.go | 48 +++++++++++++++++++++++-----------------------
 protocol/server.go | 10 ++++++++++
 3 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 837d5ff..9db9a8a 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -160,11 +160,11 @@ return
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	Marshal{{.R.MFunc}}Pkt(b, t, {{.R.MList}})
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index 3ca2185..402b965 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -162,11 +162,11 @@ return
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRversionPkt(b, t, RMsize, RVersion)
 }
@@ -345,11 +345,11 @@ return
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRattachPkt(b, t, QID)
 }
@@ -445,11 +445,11 @@ return
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if  err := s.NS.Rflush(OTag); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRflushPkt(b, t, )
 }
@@ -641,11 +641,11 @@ return
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRwalkPkt(b, t, QIDs)
 }
@@ -801,11 +801,11 @@ return
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRopenPkt(b, t, OQID, IOUnit)
 }
@@ -988,11 +988,11 @@ return
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRcreatePkt(b, t, OQID, IOUnit)
 }
@@ -1107,11 +1107,11 @@ return
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRstatPkt(b, t, B)
 }
@@ -1226,11 +1226,11 @@ return
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRwstatPkt(b, t, )
 }
@@ -1330,11 +1330,11 @@ return
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRclunkPkt(b, t, )
 }
@@ -1434,11 +1434,11 @@ return
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if  err := s.NS.Rremove(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRremovePkt(b, t, )
 }
@@ -1589,11 +1589,11 @@ return
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRreadPkt(b, t, Data)
 }
@@ -1744,11 +1744,11 @@ return
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return nil
 	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRwritePkt(b, t, RLen)
 }
diff --git a/protocol/server.go b/protocol/server.go
index 3da8bd5..e37057c 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -243,6 +243,16 @@ func (c *conn) serve() {
 	}
 }
 
+// errorText returns the text of err for an Rerror. A string on the wire can
+// be no longer than its 16-bit count can tell.
+func errorText(err error) string {
+	s := fmt.Sprintf("%v", err)
+	if len(s) > 1<<16-1 {
+		s = s[:1<<16-1]
+	}
+	return s
+}
+
 // Dispatch dispatches request to different functions.
 // It's also the the first place we try to establish server semantics.
 // We could do this with interface assertions and such a la rsc/fuse
-- 
2.43.0


From 1d23966126d70f59c064e44677b7e5826bf365b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:44 +0000
Subject: [PATCH 04/29] fix: server: read a message whole however the network
 splits it

A header that arrived in more than one piece ended the connection, and a
message cut short by the end of the connection was acted on.
---
 protocol/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/server.go b/protocol/server.go
index e37057c..687ce35 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -212,7 +212,7 @@ func (c *conn) serve() {
 
 	for !c.dead {
 		l := make([]byte, 7)
-		if n, err := c.rwc.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.rwc, l); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
@@ -221,7 +221,7 @@ func (c *conn) serve() {
 		t := MType(l[4])
 		b := bytes.NewBuffer(l[5:])
 		r := io.LimitReader(c.rwc, sz-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if n, err := io.Copy(b, r); err != nil || n < sz-7 {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From ddcfd587c8832a21f325c579a5e744f05af94576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:39 +0000
Subject: [PATCH 05/29] fix: client: do not call a nil Trace on every reply

---
 protocol/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9f67f3c..1750f8b 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -160,9 +160,10 @@ func (c *Client) IO() {
 		if int(t-1) >= len(c.RPC) {
 			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
 		}
-		c.Trace("RPC %v ", c.RPC[t-1])
 		rrr := c.RPC[t-1]
-		c.Trace("rrr %v ", rrr)
+		if c.Trace != nil {
+			c.Trace("RPC %v ", rrr)
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From 9a03276420d12c6b9045311a93558f57c9da3b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 06/29] fix: client: read a reply whole however the network
 splits it

A header that arrived in more than one piece was taken for the end of the
connection, and a reply cut short by its end was handed to the caller.
---
 protocol/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 1750f8b..68c58a6 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -93,7 +93,7 @@ func (c *Client) readNetPackets() {
 			c.Trace("Before read")
 		}
 
-		if n, err := c.FromNet.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
@@ -104,7 +104,7 @@ func (c *Client) readNetPackets() {
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
 		b := bytes.NewBuffer(l)
 		r := io.LimitReader(c.FromNet, s-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if n, err := io.Copy(b, r); err != nil || n < s-7 {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
-- 
2.43.0


From 6e9b36471a73bc7bc68eee60e0f1a56d5497bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:13 +0000
Subject: [PATCH 07/29] fix: client: fail calls when the connection is lost

When the connection ended, IO looped on the closed channel and crashed, a
failed write ended the process, and calls without a reply waited forever.
Mark the client dead, as its documentation says, and fail every outstanding
and further call.
---
 protocol/client.go | 62 ++++++++++++++++++++++++++++++++++++++--------
 protocol/gen.go    |  5 +++-
 protocol/genout.go | 60 +++++++++++++++++++++++++++++++++++---------
 3 files changed, 104 insertions(+), 23 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 68c58a6..e157036 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"log"
 	"runtime"
+	"sync"
 	"sync/atomic"
 )
 
@@ -33,6 +34,9 @@ type Client struct {
 	Msize      uint32
 	Dead       bool
 	Trace      Tracer
+
+	// mu guards RPC and Dead
+	mu sync.Mutex
 }
 
 func NewClient(opts ...ClientOpt) (*Client, error) {
@@ -75,19 +79,19 @@ func (c *Client) GetFID() FID {
 }
 
 func (c *Client) readNetPackets() {
+	// IO fails whatever is outstanding when there will be no more replies.
+	defer close(c.FromServer)
 	if c.FromNet == nil {
 		if c.Trace != nil {
 			c.Trace("c.FromNet is nil, marking dead")
 		}
-		c.Dead = true
 		return
 	}
 	defer c.FromNet.Close()
-	defer close(c.FromServer)
 	if c.Trace != nil {
 		c.Trace("Starting readNetPackets")
 	}
-	for !c.Dead {
+	for !c.dead() {
 		l := make([]byte, 7)
 		if c.Trace != nil {
 			c.Trace("Before read")
@@ -95,7 +99,6 @@ func (c *Client) readNetPackets() {
 
 		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
 			return
 		}
 		if c.Trace != nil {
@@ -106,7 +109,6 @@ func (c *Client) readNetPackets() {
 		r := io.LimitReader(c.FromNet, s-7)
 		if n, err := io.Copy(b, r); err != nil || n < s-7 {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
 			return
 		}
 		if c.Trace != nil {
@@ -133,20 +135,26 @@ func (c *Client) IO() {
 			if c.Trace != nil {
 				c.Trace(fmt.Sprintf("Tag for request is %v", t))
 			}
+			c.mu.Lock()
+			if c.Dead {
+				c.mu.Unlock()
+				c.Tags <- t
+				close(r.Reply)
+				continue
+			}
 			c.RPC[int(t)-1] = r
+			c.mu.Unlock()
 			if c.Trace != nil {
 				c.Trace("Write %v to ToNet", r.b)
 			}
 			if _, err := c.ToNet.Write(r.b); err != nil {
-				c.Dead = true
-				log.Fatalf("Write to server: %v", err)
-				return
+				log.Printf("Write to server: %v", err)
+				c.fail()
 			}
 		}
 	}()
 
-	for {
-		r := <-c.FromServer
+	for r := range c.FromServer {
 		if c.Trace != nil {
 			c.Trace("Read %v FromServer", r.b)
 		}
@@ -160,13 +168,47 @@ func (c *Client) IO() {
 		if int(t-1) >= len(c.RPC) {
 			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
 		}
+		c.mu.Lock()
 		rrr := c.RPC[t-1]
+		c.RPC[t-1] = nil
+		dead := c.Dead
+		c.mu.Unlock()
+		if rrr == nil && dead {
+			continue
+		}
 		if c.Trace != nil {
 			c.Trace("RPC %v ", rrr)
 		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
+	c.fail()
+}
+
+func (c *Client) dead() bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.Dead
+}
+
+// fail marks the client dead and fails every request without a reply.
+func (c *Client) fail() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if c.Dead {
+		return
+	}
+	c.Dead = true
+	if c.ToNet != nil {
+		c.ToNet.Close()
+	}
+	for i, r := range c.RPC {
+		if r != nil {
+			c.RPC[i] = nil
+			close(r.Reply)
+			c.Tags <- Tag(i + 1)
+		}
+	}
 }
 
 func (c *Client) String() string {
diff --git a/protocol/gen.go b/protocol/gen.go
index 9db9a8a..09ce6d3 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -180,7 +180,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return {{.R.UList}} fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
diff --git a/protocol/genout.go b/protocol/genout.go
index 402b965..b76110a 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -181,7 +181,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTversionPkt(&b, t, TMsize, TVersion)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return RMsize, RVersion,  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -364,7 +367,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return QID,  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -464,7 +470,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTflushPkt(&b, t, OTag)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -660,7 +669,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return QIDs,  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -820,7 +832,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTopenPkt(&b, t, OFID, Omode)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return OQID, IOUnit,  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1007,7 +1022,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return OQID, IOUnit,  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1126,7 +1144,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTstatPkt(&b, t, OFID)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return B,  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1245,7 +1266,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwstatPkt(&b, t, OFID, B)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1349,7 +1373,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTclunkPkt(&b, t, OFID)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1453,7 +1480,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTremovePkt(&b, t, OFID)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1608,7 +1638,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTreadPkt(&b, t, OFID, Off, Len)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return Data,  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1763,7 +1796,10 @@ r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwritePkt(&b, t, OFID, Off, Data)
 c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, ok := <-r
+if !ok {
+	return RLen,  fmt.Errorf("connection to server lost")
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
-- 
2.43.0


From a2ac01e30fa69b5d93fdcc7ac1ac5b5714b338e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:44 +0000
Subject: [PATCH 08/29] fix: client: ignore a reply nobody waits for

A reply with tag 0, NOTAG or a tag that is not outstanding crashed the client
or was delivered a second time to a call that had returned.
---
 protocol/client.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index e157036..18f7c9a 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -162,18 +162,17 @@ func (c *Client) IO() {
 		if c.Trace != nil {
 			c.Trace(fmt.Sprintf("Tag for reply is %v", t))
 		}
-		if t < 1 {
-			panic(fmt.Sprintf("tag %d < 1", t))
-		}
-		if int(t-1) >= len(c.RPC) {
-			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
+		// No call waits for a reply with a tag that is not outstanding.
+		if t < 1 || int(t-1) >= len(c.RPC) {
+			log.Printf("reply with reserved tag %d ignored", t)
+			continue
 		}
 		c.mu.Lock()
 		rrr := c.RPC[t-1]
 		c.RPC[t-1] = nil
-		dead := c.Dead
 		c.mu.Unlock()
-		if rrr == nil && dead {
+		if rrr == nil {
+			log.Printf("reply with unused tag %d ignored", t)
 			continue
 		}
 		if c.Trace != nil {
-- 
2.43.0


From de9f0fd2c16718d595eced80d04c2c32a5b1b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:00 +0000
Subject: [PATCH 09/29] fix: client: refuse a reply of another type than the
 request's

Any reply but Rerror was decoded as the type expected.
---
 protocol/gen.go    |  2 ++
 protocol/genout.go | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/protocol/gen.go b/protocol/gen.go
index 09ce6d3..5b1c231 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -190,6 +190,8 @@ if MType(bb[4]) == Rerror {
 		return {{.R.UList}} err
 	}
 	return {{.R.UList}} fmt.Errorf("%v", s)
+} else if MType(bb[4]) != {{.R.Name}} {
+	return {{.R.UList}} fmt.Errorf("reply to {{.T.Name}} is of type %d, not {{.R.Name}}", bb[4])
 } else {
 	{{.R.MList}}{{.R.MLsep}} _, err = Unmarshal{{.R.UFunc}}Pkt(bytes.NewBuffer(bb[5:]))
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index b76110a..17130f0 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -191,6 +191,8 @@ if MType(bb[4]) == Rerror {
 		return RMsize, RVersion,  err
 	}
 	return RMsize, RVersion,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rversion {
+	return RMsize, RVersion,  fmt.Errorf("reply to Tversion is of type %d, not Rversion", bb[4])
 } else {
 	RMsize, RVersion,  _, err = UnmarshalRversionPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -377,6 +379,8 @@ if MType(bb[4]) == Rerror {
 		return QID,  err
 	}
 	return QID,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rattach {
+	return QID,  fmt.Errorf("reply to Tattach is of type %d, not Rattach", bb[4])
 } else {
 	QID,  _, err = UnmarshalRattachPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -480,6 +484,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rflush {
+	return  fmt.Errorf("reply to Tflush is of type %d, not Rflush", bb[4])
 } else {
 	 _, err = UnmarshalRflushPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -679,6 +685,8 @@ if MType(bb[4]) == Rerror {
 		return QIDs,  err
 	}
 	return QIDs,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwalk {
+	return QIDs,  fmt.Errorf("reply to Twalk is of type %d, not Rwalk", bb[4])
 } else {
 	QIDs,  _, err = UnmarshalRwalkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -842,6 +850,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Ropen {
+	return OQID, IOUnit,  fmt.Errorf("reply to Topen is of type %d, not Ropen", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRopenPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1032,6 +1042,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rcreate {
+	return OQID, IOUnit,  fmt.Errorf("reply to Tcreate is of type %d, not Rcreate", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRcreatePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1154,6 +1166,8 @@ if MType(bb[4]) == Rerror {
 		return B,  err
 	}
 	return B,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rstat {
+	return B,  fmt.Errorf("reply to Tstat is of type %d, not Rstat", bb[4])
 } else {
 	B,  _, err = UnmarshalRstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1276,6 +1290,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwstat {
+	return  fmt.Errorf("reply to Twstat is of type %d, not Rwstat", bb[4])
 } else {
 	 _, err = UnmarshalRwstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1383,6 +1399,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rclunk {
+	return  fmt.Errorf("reply to Tclunk is of type %d, not Rclunk", bb[4])
 } else {
 	 _, err = UnmarshalRclunkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1490,6 +1508,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rremove {
+	return  fmt.Errorf("reply to Tremove is of type %d, not Rremove", bb[4])
 } else {
 	 _, err = UnmarshalRremovePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1648,6 +1668,8 @@ if MType(bb[4]) == Rerror {
 		return Data,  err
 	}
 	return Data,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rread {
+	return Data,  fmt.Errorf("reply to Tread is of type %d, not Rread", bb[4])
 } else {
 	Data,  _, err = UnmarshalRreadPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1806,6 +1828,8 @@ if MType(bb[4]) == Rerror {
 		return RLen,  err
 	}
 	return RLen,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwrite {
+	return RLen,  fmt.Errorf("reply to Twrite is of type %d, not Rwrite", bb[4])
 } else {
 	RLen,  _, err = UnmarshalRwritePkt(bytes.NewBuffer(bb[5:]))
 }
-- 
2.43.0


From a6bc8578430988ed4bcf9d178260481f9aeef522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:56 +0000
Subject: [PATCH 10/29] fix: ufs: refuse a read count that does not fit

A Tread with a count over 2^31-1 made a slice of negative length, which ended
the whole server.
---
 filesystem/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2523097..7784872 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -369,6 +369,9 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 	if f.file == nil {
 		return nil, fmt.Errorf("FID not open")
 	}
+	if c < 0 {
+		return nil, fmt.Errorf("bad read count %d", c)
+	}
 	if f.QID.Type&protocol.QTDIR != 0 {
 		if o == 0 {
 			f.oflow = nil
-- 
2.43.0


From 06cc68e353eec4631bcb7d45a837ab92c6b680b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:11 +0000
Subject: [PATCH 11/29] fix: ufs: report that a directory could not be created

The error of Mkdir was dropped: creating a directory over an existing file
succeeded. Nor was the new file closed if it could not be examined.
---
 filesystem/filesystem.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 7784872..3845298 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -188,7 +188,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	n := path.Join(f.fullName, name)
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
-		err := os.Mkdir(n, p)
+		if err := os.Mkdir(n, p); err != nil {
+			return protocol.QID{}, 0, err
+		}
 		_, q, err := stat(n)
 		if err != nil {
 			return protocol.QID{}, 0, err
@@ -206,6 +208,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	}
 	_, q, err := stat(n)
 	if err != nil {
+		of.Close()
 		return protocol.QID{}, 0, err
 	}
 	f.fullName = n
-- 
2.43.0


From d4d90b20aeecce67a885b0e92473621bbd6c03b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:26 +0000
Subject: [PATCH 12/29] fix: ufs: keep walk, create and rename inside the root

A walk or create with .. in a name, or a rename to an absolute name with one,
reached any file of the host whatever -root was, and a rename of the root
moved it out of itself.
---
 filesystem/filesystem.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 3845298..7c07a07 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -60,6 +61,22 @@ func stat(s string) (*protocol.Dir, protocol.QID, error) {
 	return d, q, nil
 }
 
+// contains tells whether the path p is that of the root or of something in it.
+func (e *FileServer) contains(p string) bool {
+	r, err := filepath.Rel(e.rootPath, p)
+	return err == nil && r != ".." && !strings.HasPrefix(r, ".."+string(filepath.Separator))
+}
+
+// join returns the path of name in dir. There is no way out of the root: as
+// in any root, .. is the root itself.
+func (e *FileServer) join(dir, name string) string {
+	p := path.Join(dir, name)
+	if !e.contains(p) {
+		return path.Clean(e.rootPath)
+	}
+	return p
+}
+
 func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.MaxSize, string, error) {
 	if version != "9P2000" {
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
@@ -124,7 +141,7 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 
 	var i int
 	for i = range paths {
-		p = path.Join(p, paths[i])
+		p = e.join(p, paths[i])
 		st, err := os.Lstat(p)
 		if err != nil {
 			// From the RFC: If the first element cannot be walked for any
@@ -185,7 +202,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
-	n := path.Join(f.fullName, name)
+	n := e.join(f.fullName, name)
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
 		if err := os.Mkdir(n, p); err != nil {
@@ -285,7 +302,10 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		// we will make it relative to root. This is a gigantic performance
 		// improvement in systems that allow it.
 		if filepath.IsAbs(dir.Name) {
-			newname = path.Join(e.rootPath, dir.Name)
+			newname = path.Join(e.rootPath, path.Join("/", dir.Name))
+		}
+		if !e.contains(newname) {
+			return fmt.Errorf("Permission denied")
 		}
 
 		// If to exists, and to is a directory, we can't do the
-- 
2.43.0


From 08153dce2b8f63711206aee724cd130f9fa1c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:41 +0000
Subject: [PATCH 13/29] fix: ufs: do not share an open file with a cloned fid

Clunking either fid closed the file of the other, and the clone of an open fid
was open without a Topen.
---
 filesystem/filesystem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 7c07a07..c49a7b4 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -132,8 +132,8 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		if ok {
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
 		}
-		nf := *f
-		e.files[newfid] = &nf
+		// Only the file is the same: the clone is not open.
+		e.files[newfid] = &file{fullName: f.fullName, QID: f.QID}
 		return []protocol.QID{}, nil
 	}
 	p := f.fullName
-- 
2.43.0


From c984091147d6a117de566254e74fcd114604cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:57 +0000
Subject: [PATCH 14/29] fix: ufs: allow a walk of no names to the fid itself

newfid has to be unused unless it is the same as fid.
---
 filesystem/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index c49a7b4..a6c4e54 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -128,6 +128,9 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 	if len(paths) == 0 {
 		e.mu.Lock()
 		defer e.mu.Unlock()
+		if fid == newfid {
+			return []protocol.QID{}, nil
+		}
 		_, ok := e.files[newfid]
 		if ok {
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
-- 
2.43.0


From b7d1d70965a2bd67bbaaf3e76e1787789527f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:12 +0000
Subject: [PATCH 15/29] fix: ufs: refuse to open a fid twice

The file opened first was lost without being closed, and a second open that
failed left the fid closed.
---
 filesystem/filesystem.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index a6c4e54..0bb7f66 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -189,11 +189,14 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 		return protocol.QID{}, 0, fmt.Errorf("does not exist")
 	}
 
-	var err error
-	f.file, err = os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
+	if f.file != nil {
+		return protocol.QID{}, 0, fmt.Errorf("FID already open")
+	}
+	of, err := os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
 	if err != nil {
 		return protocol.QID{}, 0, err
 	}
+	f.file = of
 
 	return f.QID, e.IOunit, nil
 }
-- 
2.43.0


From 74e8d5d520434a97b30d509a90e8328339a770d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:28 +0000
Subject: [PATCH 16/29] fix: ufs: refuse to attach to a fid in use

The file it was for was lost, and left open if it was.
---
 filesystem/filesystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 0bb7f66..e4bd381 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -109,6 +109,11 @@ func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string,
 	}
 	r := &file{fullName: aname}
 	r.QID = fileInfoToQID(st)
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	if _, ok := e.files[fid]; ok {
+		return protocol.QID{}, fmt.Errorf("FID in use: attach, fid %d", fid)
+	}
 	e.files[fid] = r
 	e.root = r
 	return r.QID, nil
-- 
2.43.0


From c0f12cbeb0c9a26344912715a1934f117e541218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:44 +0000
Subject: [PATCH 17/29] fix: ufs: close the file of a fid that is walked
 elsewhere

---
 filesystem/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index e4bd381..adecb8d 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -182,6 +182,9 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 			return nil, fmt.Errorf("FID in use: walk to %v, fid %v, newfid %v", paths, fid, newfid)
 		}
 	}
+	if nf, ok := e.files[newfid]; ok && nf.file != nil {
+		nf.file.Close()
+	}
 	e.files[newfid] = &file{fullName: p, QID: q[i]}
 	return q, nil
 }
-- 
2.43.0


From ca22ad220e4d26282208b386393dda5345090ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:59 +0000
Subject: [PATCH 18/29] fix: ufs: do not lose a directory entry that does not
 fit

A directory read with a count too small for the next entry skipped the entry
for good.
---
 filesystem/filesystem.go | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index adecb8d..5456067 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -417,24 +417,13 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 			}
 		}
 
-		// We make the assumption that they can always fit at least one
-		// directory entry into a read. If that assumption does not hold
-		// so many things are broken that we can't fix them here.
-		// But we'll drop out of the loop below having returned nothing
-		// anyway.
+		// We're not quite doing the array right.
+		// What does work is returning one thing so, for now, do that.
 		b := bytes.NewBuffer(f.oflow)
-		f.oflow = nil
-		pos := 0
-
-		for {
-			if b.Len() > int(c) {
-				f.oflow = b.Bytes()[pos:]
-				return b.Bytes()[:pos], nil
-			}
-			pos += b.Len()
+		if b.Len() == 0 {
 			st, err := f.file.Readdir(1)
 			if err == io.EOF {
-				return b.Bytes(), nil
+				return nil, nil
 			}
 			if err != nil {
 				return nil, err
@@ -445,16 +434,14 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 				return nil, err
 			}
 			protocol.Marshaldir(b, *d9p)
-			// Seen on linux clients: sometimes the math is wrong and
-			// they end up asking for the last element with not enough data.
-			// Linux bug or bug with this server? Not sure yet.
-			if b.Len() > int(c) {
-				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d: skipping", d9p, b.Len(), c)
-				return nil, nil
-			}
-			// We're not quite doing the array right.
-			// What does work is returning one thing so, for now, do that.
-			return b.Bytes(), nil
+		}
+		// Seen on linux clients: sometimes the math is wrong and
+		// they end up asking for the last element with not enough data.
+		// Return nothing now, and the entry when they ask for enough.
+		f.oflow = nil
+		if b.Len() > int(c) {
+			f.oflow = b.Bytes()
+			return nil, nil
 		}
 		return b.Bytes(), nil
 	}
-- 
2.43.0


From e888c4dbf97dffdc7e37a1036f569b3c4459e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:13 +0000
Subject: [PATCH 19/29] fix: ufs: refuse a wstat of the owner before changing
 the mode

---
 filesystem/filesystem.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 5456067..4d0ba61 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -279,6 +279,12 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if err != nil {
 		return err
 	}
+	// Try to find local uid, gid by name.
+	if dir.User != "" || dir.Group != "" {
+		return fmt.Errorf("Permission denied")
+		changed = true
+	}
+
 	if dir.Mode != 0xFFFFFFFF {
 		changed = true
 		mode := dir.Mode & 0777
@@ -287,12 +293,6 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		}
 	}
 
-	// Try to find local uid, gid by name.
-	if dir.User != "" || dir.Group != "" {
-		return fmt.Errorf("Permission denied")
-		changed = true
-	}
-
 	/*
 		if uid != ninep.NOUID || gid != ninep.NOUID {
 			changed = true
-- 
2.43.0


From 7a8aedaeec896c8e61f49313a0a0b2b68016b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:28 +0000
Subject: [PATCH 20/29] fix: ufs: leave the access time alone in a wstat of the
 modification time

It was set to the "do not touch" value of the request, in the year 2106.
---
 filesystem/filesystem.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 4d0ba61..b47f5ce 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -342,22 +342,15 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		}
 	}
 
-	// If either mtime or atime need to be changed, then
-	// we must change both.
+	// Chtimes leaves a zero time unchanged.
 	if dir.Mtime != ^uint32(0) || dir.Atime != ^uint32(0) {
 		changed = true
-		mt, at := time.Unix(int64(dir.Mtime), 0), time.Unix(int64(dir.Atime), 0)
-		if cmt, cat := (dir.Mtime == ^uint32(0)), (dir.Atime == ^uint32(0)); cmt || cat {
-			st, err := os.Stat(f.fullName)
-			if err != nil {
-				return err
-			}
-			switch cmt {
-			case true:
-				mt = st.ModTime()
-			default:
-				//at = atime(st.Sys().(*syscall.Stat_t))
-			}
+		var mt, at time.Time
+		if dir.Mtime != ^uint32(0) {
+			mt = time.Unix(int64(dir.Mtime), 0)
+		}
+		if dir.Atime != ^uint32(0) {
+			at = time.Unix(int64(dir.Atime), 0)
 		}
 		if err := os.Chtimes(f.fullName, at, mt); err != nil {
 			return err
-- 
2.43.0


From e8f7c672a84f6ca3c24848f9f5d095a277bca0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:22 +0000
Subject: [PATCH 21/29] fix: client: refuse a reply with an impossible size

---
 protocol/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/client.go b/protocol/client.go
index 18f7c9a..38d0458 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -105,6 +105,10 @@ func (c *Client) readNetPackets() {
 			c.Trace("Server reads %v", l)
 		}
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if s < 7 {
+			log.Printf("readNetPackets: impossible message size %d", s)
+			return
+		}
 		b := bytes.NewBuffer(l)
 		r := io.LimitReader(c.FromNet, s-7)
 		if n, err := io.Copy(b, r); err != nil || n < s-7 {
-- 
2.43.0


From 58be9c2fb0c639c7de45c3dfdd600e00353c0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:22 +0000
Subject: [PATCH 22/29] fix: ufs: a version request starts a new session

---
 filesystem/filesystem.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index b47f5ce..4a4e57f 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -82,6 +82,15 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
 	e.Versioned = true
+	// A version request starts a new session: no fid of the old one is in it.
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	for fid, f := range e.files {
+		delete(e.files, fid)
+		if f.file != nil {
+			f.file.Close()
+		}
+	}
 	return msize, version, nil
 }
 
-- 
2.43.0


From 2754a1651cdc5cb3f45f6c6281db8a608413458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:49 +0000
Subject: [PATCH 23/29] fix: ufs: refuse a wstat's rename before changing the
 mode

---
 filesystem/filesystem.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 4a4e57f..f93be81 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -294,14 +294,6 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		changed = true
 	}
 
-	if dir.Mode != 0xFFFFFFFF {
-		changed = true
-		mode := dir.Mode & 0777
-		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
-			return err
-		}
-	}
-
 	/*
 		if uid != ninep.NOUID || gid != ninep.NOUID {
 			changed = true
@@ -344,6 +336,14 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		f.fullName = newname
 	}
 
+	if dir.Mode != 0xFFFFFFFF {
+		changed = true
+		mode := dir.Mode & 0777
+		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
+			return err
+		}
+	}
+
 	if dir.Length != 0xFFFFFFFFFFFFFFFF {
 		changed = true
 		if err := os.Truncate(f.fullName, int64(dir.Length)); err != nil {
-- 
2.43.0


From eebda1e3ee826d585bbbba463c1f414f58fc9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:35 +0000
Subject: [PATCH 24/29] fix: read replies and iounit could exceed the message
 size agreed on

---
 filesystem/filesystem.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index f93be81..d8b70b4 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -36,6 +36,7 @@ type FileServer struct {
 	rootPath  string
 	Versioned bool
 	IOunit    protocol.MaxSize
+	msize     protocol.MaxSize // of a message, as agreed on by Rversion
 
 	// mu guards below
 	mu    sync.Mutex
@@ -82,6 +83,7 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
 	e.Versioned = true
+	e.msize = msize
 	// A version request starts a new session: no fid of the old one is in it.
 	e.mu.Lock()
 	defer e.mu.Unlock()
@@ -94,6 +96,20 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	return msize, version, nil
 }
 
+// fit returns n, or the most data that fits in one message if that is less.
+func (e *FileServer) fit(n protocol.MaxSize) protocol.MaxSize {
+	if !e.Versioned {
+		return n
+	}
+	if e.msize <= protocol.IOHDRSZ {
+		return 0
+	}
+	if max := e.msize - protocol.IOHDRSZ; n > max {
+		return max
+	}
+	return n
+}
+
 func (e *FileServer) getFile(fid protocol.FID) (*file, error) {
 	e.mu.Lock()
 	defer e.mu.Unlock()
@@ -215,7 +231,7 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	}
 	f.file = of
 
-	return f.QID, e.IOunit, nil
+	return f.QID, e.fit(e.IOunit), nil
 }
 func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm, mode protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
 	f, err := e.getFile(fid)
@@ -237,7 +253,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 		}
 		f.fullName = n
 		f.QID = q
-		return q, 8000, err
+		return q, e.fit(8000), err
 	}
 
 	m := modeToUnixFlags(mode) | os.O_CREATE | os.O_TRUNC
@@ -254,7 +270,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	f.fullName = n
 	f.QID = q
 	f.file = of
-	return q, 8000, err
+	return q, e.fit(8000), err
 }
 func (e *FileServer) Rclunk(fid protocol.FID) error {
 	_, err := e.clunk(fid)
@@ -411,6 +427,11 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 	if c < 0 {
 		return nil, fmt.Errorf("bad read count %d", c)
 	}
+	// The reply must fit in a message.
+	if e.fit(1) == 0 {
+		return nil, fmt.Errorf("message size too small")
+	}
+	c = protocol.Count(e.fit(protocol.MaxSize(c)))
 	if f.QID.Type&protocol.QTDIR != 0 {
 		if o == 0 {
 			f.oflow = nil
-- 
2.43.0


From 0f46f794cd82c912283a0b8fd181dae51a7aed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 25/29] fix: the files of a connection stayed open after it
 ended

---
 filesystem/filesystem.go |  7 ++++++-
 pkg/debugfs/debug.go     |  7 +++++++
 protocol/server.go       | 14 ++++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index d8b70b4..f90f0f4 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -85,6 +85,12 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	e.Versioned = true
 	e.msize = msize
 	// A version request starts a new session: no fid of the old one is in it.
+	e.Hangup()
+	return msize, version, nil
+}
+
+// Hangup forgets all fids and closes their files.
+func (e *FileServer) Hangup() {
 	e.mu.Lock()
 	defer e.mu.Unlock()
 	for fid, f := range e.files {
@@ -93,7 +99,6 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 			f.file.Close()
 		}
 	}
-	return msize, version, nil
 }
 
 // fit returns n, or the most data that fits in one message if that is less.
diff --git a/pkg/debugfs/debug.go b/pkg/debugfs/debug.go
index e157c9a..85ced84 100644
--- a/pkg/debugfs/debug.go
+++ b/pkg/debugfs/debug.go
@@ -150,3 +150,10 @@ func (dfs *DebugFileServer) Rwrite(fid protocol.FID, o protocol.Offset, b []byte
 	}
 	return c, err
 }
+
+func (dfs *DebugFileServer) Hangup() {
+	log.Printf(">>> Hangup\n")
+	if h, ok := dfs.FileServer.(protocol.Hangup); ok {
+		h.Hangup()
+	}
+}
diff --git a/protocol/server.go b/protocol/server.go
index 687ce35..875cf5c 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -19,6 +19,12 @@ const DefaultAddr = ":5640"
 
 type NsCreator func() NineServer
 
+// Hangup is implemented by a NineServer that has something to release when
+// its connection has ended.
+type Hangup interface {
+	Hangup()
+}
+
 type Listener struct {
 	nsCreator NsCreator
 
@@ -198,6 +204,13 @@ func (c *conn) logf(format string, args ...interface{}) {
 	c.listener.logf("[%v] "+format, append([]interface{}{c.remoteAddr}, args...)...)
 }
 
+// hangup tells the file server that there will be no more requests.
+func (c *conn) hangup() {
+	if h, ok := c.server.NS.(Hangup); ok {
+		h.Hangup()
+	}
+}
+
 func (c *conn) serve() {
 	if c.rwc == nil {
 		c.dead = true
@@ -207,6 +220,7 @@ func (c *conn) serve() {
 	c.remoteAddr = c.rwc.RemoteAddr().String()
 
 	defer c.rwc.Close()
+	defer c.hangup()
 
 	c.logf("Starting readNetPackets")
 
-- 
2.43.0


From 8c1d5b72f51e3fa65788cdf60d3dec3d421238f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:48 +0000
Subject: [PATCH 26/29] fix: ufs: give the qid the file has when it is opened

---
 filesystem/filesystem.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index f90f0f4..48e088d 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -234,6 +234,14 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if err != nil {
 		return protocol.QID{}, 0, err
 	}
+	// The file may have changed since the walk, or just now by OTRUNC.
+	st, err := of.Stat()
+	if f.QID.Type&protocol.QTSYMLINK != 0 {
+		st, err = os.Lstat(f.fullName)
+	}
+	if err == nil {
+		f.QID = fileInfoToQID(st)
+	}
 	f.file = of
 
 	return f.QID, e.fit(e.IOunit), nil
-- 
2.43.0


From e5769a32f37b395a6503a71ab533b27dff45c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:32 +0000
Subject: [PATCH 27/29] fix: ufs: an attach to a symbolic link is to its file,
 for stat and .. too

---
 filesystem/filesystem.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 48e088d..9a9c797 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -180,7 +180,11 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 	var i int
 	for i = range paths {
 		p = e.join(p, paths[i])
-		st, err := os.Lstat(p)
+		lstat := os.Lstat
+		if p == path.Clean(e.rootPath) {
+			lstat = os.Stat // as in an attach
+		}
+		st, err := lstat(p)
 		if err != nil {
 			// From the RFC: If the first element cannot be walked for any
 			// reason, Rerror is returned. Otherwise, the walk will return an
@@ -295,7 +299,12 @@ func (e *FileServer) Rstat(fid protocol.FID) ([]byte, error) {
 	if err != nil {
 		return []byte{}, err
 	}
-	st, err := os.Lstat(f.fullName)
+	// An attach follows a symbolic link, so the fid is not of the link then.
+	lstat := os.Lstat
+	if f.QID.Type&protocol.QTSYMLINK == 0 {
+		lstat = os.Stat
+	}
+	st, err := lstat(f.fullName)
 	if err != nil {
 		return []byte{}, fmt.Errorf("ENOENT")
 	}
-- 
2.43.0


From ac0b92d6aac676902f4f012e159b0ffb56c6065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:20 +0000
Subject: [PATCH 28/29] fix: an open fails when the opened file cannot be
 looked at

The qid in the reply was that of an earlier look at the file.
---
 filesystem/filesystem.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 9a9c797..4d6c64b 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -243,9 +243,11 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if f.QID.Type&protocol.QTSYMLINK != 0 {
 		st, err = os.Lstat(f.fullName)
 	}
-	if err == nil {
-		f.QID = fileInfoToQID(st)
+	if err != nil {
+		of.Close()
+		return protocol.QID{}, 0, err
 	}
+	f.QID = fileInfoToQID(st)
 	f.file = of
 
 	return f.QID, e.fit(e.IOunit), nil
-- 
2.43.0


From 4364eced17968419d60cf2fb92b3e8129c052e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:20 +0000
Subject: [PATCH 29/29] fix: a wstat that is to commit a file fails when the
 host's sync does

---
 filesystem/filesystem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 4d6c64b..39cf5b4 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -407,7 +407,7 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	}
 
 	if !changed && f.file != nil {
-		f.file.Sync()
+		return f.file.Sync()
 	}
 	return nil
 }
-- 
2.43.0

