From ac8f1c08c9dc0b7e60e0ff5c158a6a7f61a293c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:36 +0000
Subject: [PATCH 01/15] fix: decoders accept integers cut short by the end of
 the message

bytes.Buffer.Read returns what it has, so a truncated integer was decoded
together with stale bytes of the previous field. Use io.ReadFull.
---
 protocol/gen.go    |   7 +-
 protocol/genout.go | 177 +++++++++++++++++++++++----------------------
 2 files changed, 93 insertions(+), 91 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 17e6cf2..d51553c 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -41,6 +41,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 `
@@ -80,7 +81,7 @@ const (
 	serverError = `func ServerError (b *bytes.Buffer, s string) {
 	var u [8]byte
 	// This can't really happen. 
-	if _, err := b.Read(u[:2]); err != nil {
+	if _, err := io.ReadFull(b, u[:2]); err != nil {
 		return
 	}
 	t := Tag(uint16(u[0])|uint16(u[1])<<8)
@@ -143,7 +144,7 @@ return
 	ufunc = template.Must(template.New("mr").Parse(`func Unmarshal{{.UFunc}}Pkt (b *bytes.Buffer) ({{.URet}} t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -217,7 +218,7 @@ func emitEncodeInt(v interface{}, n string, l int, e *emitter) {
 func emitDecodeInt(v interface{}, n string, l int, e *emitter) {
 	t := reflect.ValueOf(v).Type().Name()
 	debug("emit reflect.ValueOf(v) %s %v, %v", t, n, l)
-	e.UCode.WriteString(fmt.Sprintf("\tif _, err = b.Read(u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
+	e.UCode.WriteString(fmt.Sprintf("\tif _, err = io.ReadFull(b, u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
 	e.UCode.WriteString(fmt.Sprintf("\t%v = %s(u[0])\n", n, t))
 	for i := 1; i < l; i++ {
 		e.UCode.WriteString(fmt.Sprintf("\t%v |= %s(u[%d])<<%v\n", n, t, i, i*8))
diff --git a/protocol/genout.go b/protocol/genout.go
index 05107d6..4b902f8 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -3,6 +3,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 func MarshalRerrorPkt (b *bytes.Buffer, t Tag, Error string) {
@@ -24,13 +25,13 @@ return
 func UnmarshalRerrorPkt (b *bytes.Buffer) (Error string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -71,13 +72,13 @@ return
 func UnmarshalRversionPkt (b *bytes.Buffer) (RMsize MaxSize, RVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -85,7 +86,7 @@ t = Tag(l)
 	RMsize |= MaxSize(u[1])<<8
 	RMsize |= MaxSize(u[2])<<16
 	RMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -126,13 +127,13 @@ return
 func UnmarshalTversionPkt (b *bytes.Buffer) (TMsize MaxSize, TVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -140,7 +141,7 @@ t = Tag(l)
 	TMsize |= MaxSize(u[1])<<8
 	TMsize |= MaxSize(u[2])<<16
 	TMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -220,18 +221,18 @@ return
 func UnmarshalRattachPkt (b *bytes.Buffer) (QID QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -239,7 +240,7 @@ t = Tag(l)
 	QID.Version |= uint32(u[1])<<8
 	QID.Version |= uint32(u[2])<<16
 	QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -287,13 +288,13 @@ return
 func UnmarshalTattachPkt (b *bytes.Buffer) (SFID FID, AFID FID, Uname string, Aname string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -301,7 +302,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -309,7 +310,7 @@ t = Tag(l)
 	AFID |= FID(u[1])<<8
 	AFID |= FID(u[2])<<16
 	AFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -321,7 +322,7 @@ t = Tag(l)
 	}
 	Uname = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -388,7 +389,7 @@ return
 func UnmarshalRflushPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -419,13 +420,13 @@ return
 func UnmarshalTflushPkt (b *bytes.Buffer) (OTag Tag,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -504,13 +505,13 @@ return
 func UnmarshalRwalkPkt (b *bytes.Buffer) (QIDs []QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -518,12 +519,12 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	QIDs = make([]QID, l)
 for i := range QIDs {
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QIDs[i].Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -531,7 +532,7 @@ for i := range QIDs {
 	QIDs[i].Version |= uint32(u[1])<<8
 	QIDs[i].Version |= uint32(u[2])<<16
 	QIDs[i].Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -582,13 +583,13 @@ return
 func UnmarshalTwalkPkt (b *bytes.Buffer) (SFID FID, NewFID FID, Paths []string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -596,7 +597,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -604,7 +605,7 @@ t = Tag(l)
 	NewFID |= FID(u[1])<<8
 	NewFID |= FID(u[2])<<16
 	NewFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -612,7 +613,7 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	Paths = make([]string, l)
 for i := range Paths {
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -697,18 +698,18 @@ return
 func UnmarshalRopenPkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -716,7 +717,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -728,7 +729,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -764,13 +765,13 @@ return
 func UnmarshalTopenPkt (b *bytes.Buffer) (OFID FID, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -778,7 +779,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -855,18 +856,18 @@ return
 func UnmarshalRcreatePkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -874,7 +875,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -886,7 +887,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -929,13 +930,13 @@ return
 func UnmarshalTcreatePkt (b *bytes.Buffer) (OFID FID, Name string, CreatePerm Perm, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -943,7 +944,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -955,7 +956,7 @@ t = Tag(l)
 	}
 	Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -963,7 +964,7 @@ t = Tag(l)
 	CreatePerm |= Perm(u[1])<<8
 	CreatePerm |= Perm(u[2])<<16
 	CreatePerm |= Perm(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -1026,13 +1027,13 @@ return
 func UnmarshalRstatPkt (b *bytes.Buffer) (B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1067,13 +1068,13 @@ return
 func UnmarshalTstatPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1136,7 +1137,7 @@ return
 func UnmarshalRwstatPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1172,13 +1173,13 @@ return
 func UnmarshalTwstatPkt (b *bytes.Buffer) (OFID FID, B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1186,7 +1187,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1249,7 +1250,7 @@ return
 func UnmarshalRclunkPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1282,13 +1283,13 @@ return
 func UnmarshalTclunkPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1351,7 +1352,7 @@ return
 func UnmarshalRremovePkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1384,13 +1385,13 @@ return
 func UnmarshalTremovePkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1458,13 +1459,13 @@ return
 func UnmarshalRreadPkt (b *bytes.Buffer) (Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1513,13 +1514,13 @@ return
 func UnmarshalTreadPkt (b *bytes.Buffer) (OFID FID, Off Offset, Len Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1527,7 +1528,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1539,7 +1540,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1606,13 +1607,13 @@ return
 func UnmarshalRwritePkt (b *bytes.Buffer) (RLen Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1660,13 +1661,13 @@ return
 func UnmarshalTwritePkt (b *bytes.Buffer) (OFID FID, Off Offset, Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1674,7 +1675,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1686,7 +1687,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1737,7 +1738,7 @@ return RLen,  err
 func ServerError (b *bytes.Buffer, s string) {
 	var u [8]byte
 	// This can't really happen. 
-	if _, err := b.Read(u[:2]); err != nil {
+	if _, err := io.ReadFull(b, u[:2]); err != nil {
 		return
 	}
 	t := Tag(uint16(u[0])|uint16(u[1])<<8)
@@ -1807,13 +1808,13 @@ func Unmarshaldir (b *bytes.Buffer) (D Dir,  err error) {
 var u [8]uint8
 var l uint64
 _ = b.Next(2) // eat the length too
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	D.Type = uint16(u[0])
 	D.Type |= uint16(u[1])<<8
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1821,12 +1822,12 @@ _ = b.Next(2) // eat the length too
 	D.Dev |= uint32(u[1])<<8
 	D.Dev |= uint32(u[2])<<16
 	D.Dev |= uint32(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	D.QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1834,7 +1835,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Version |= uint32(u[1])<<8
 	D.QID.Version |= uint32(u[2])<<16
 	D.QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1846,7 +1847,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Path |= uint64(u[5])<<40
 	D.QID.Path |= uint64(u[6])<<48
 	D.QID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1854,7 +1855,7 @@ _ = b.Next(2) // eat the length too
 	D.Mode |= uint32(u[1])<<8
 	D.Mode |= uint32(u[2])<<16
 	D.Mode |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1862,7 +1863,7 @@ _ = b.Next(2) // eat the length too
 	D.Atime |= uint32(u[1])<<8
 	D.Atime |= uint32(u[2])<<16
 	D.Atime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1870,7 +1871,7 @@ _ = b.Next(2) // eat the length too
 	D.Mtime |= uint32(u[1])<<8
 	D.Mtime |= uint32(u[2])<<16
 	D.Mtime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1882,7 +1883,7 @@ _ = b.Next(2) // eat the length too
 	D.Length |= uint64(u[5])<<40
 	D.Length |= uint64(u[6])<<48
 	D.Length |= uint64(u[7])<<56
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1894,7 +1895,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1906,7 +1907,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.User = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1918,7 +1919,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Group = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
-- 
2.43.0


From c2df30aafea2e6cae2c09c4e2368b44613d36318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:36 +0000
Subject: [PATCH 02/15] fix: decoding counted data does not check the count

A count larger than the rest of the message made the decoder panic, or
return bytes that are not part of the message.
---
 protocol/gen.go    |  2 ++
 protocol/genout.go | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/protocol/gen.go b/protocol/gen.go
index d51553c..e7318e2 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -340,11 +340,13 @@ func genDecodeSlice(v interface{}, n string, e *emitter) error {
 	case "[]byte", "[]uint8":
 		var u uint64
 		emitDecodeInt(u, "l", 4, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	case "[]protocol.DataCnt16":
 		var u uint64
 		emitDecodeInt(u, "l", 2, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	default:
diff --git a/protocol/genout.go b/protocol/genout.go
index 4b902f8..6e84117 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -1039,6 +1039,10 @@ t = Tag(l)
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1193,6 +1197,10 @@ t = Tag(l)
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1473,6 +1481,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1695,6 +1707,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
-- 
2.43.0


From de59fde28d6d4a5045cf0c0589834f5f723208f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:37 +0000
Subject: [PATCH 03/15] fix: malformed requests reach the file server

The error of the decoder was ignored and the operation called with
whatever had been decoded. Answer with Rerror instead.
---
 protocol/gen.go    |  6 ++--
 protocol/genout.go | 72 ++++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index e7318e2..6d3298a 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -159,8 +159,10 @@ return
 `))
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
diff --git a/protocol/genout.go b/protocol/genout.go
index 6e84117..ed9e80d 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -161,8 +161,10 @@ return
 }
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -342,8 +344,10 @@ return
 }
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -440,8 +444,10 @@ return
 }
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if  err := s.NS.Rflush(OTag); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -634,8 +640,10 @@ return
 }
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -792,8 +800,10 @@ return
 }
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -977,8 +987,10 @@ return
 }
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1094,8 +1106,10 @@ return
 }
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1211,8 +1225,10 @@ return
 }
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1313,8 +1329,10 @@ return
 }
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1415,8 +1433,10 @@ return
 }
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if  err := s.NS.Rremove(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1568,8 +1588,10 @@ return
 }
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1721,8 +1743,10 @@ return
 }
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return nil
+	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
-- 
2.43.0


From 9154e2e59a33a51d3fb129538726e9fe785105e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:59 +0000
Subject: [PATCH 04/15] fix: error texts over 65535 bytes give a malformed
 Rerror

---
 protocol/gen.go    |  4 ++--
 protocol/genout.go | 48 +++++++++++++++++++++++-----------------------
 protocol/server.go | 10 ++++++++++
 3 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 6d3298a..f541a51 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -160,11 +160,11 @@ return
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	Marshal{{.R.MFunc}}Pkt(b, t, {{.R.MList}})
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index ed9e80d..50df964 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -162,11 +162,11 @@ return
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRversionPkt(b, t, RMsize, RVersion)
 }
@@ -345,11 +345,11 @@ return
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRattachPkt(b, t, QID)
 }
@@ -445,11 +445,11 @@ return
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if  err := s.NS.Rflush(OTag); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRflushPkt(b, t, )
 }
@@ -641,11 +641,11 @@ return
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRwalkPkt(b, t, QIDs)
 }
@@ -801,11 +801,11 @@ return
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRopenPkt(b, t, OQID, IOUnit)
 }
@@ -988,11 +988,11 @@ return
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRcreatePkt(b, t, OQID, IOUnit)
 }
@@ -1107,11 +1107,11 @@ return
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRstatPkt(b, t, B)
 }
@@ -1226,11 +1226,11 @@ return
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRwstatPkt(b, t, )
 }
@@ -1330,11 +1330,11 @@ return
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRclunkPkt(b, t, )
 }
@@ -1434,11 +1434,11 @@ return
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if  err := s.NS.Rremove(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRremovePkt(b, t, )
 }
@@ -1589,11 +1589,11 @@ return
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRreadPkt(b, t, Data)
 }
@@ -1744,11 +1744,11 @@ return
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorString(err))
 		return nil
 	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRwritePkt(b, t, RLen)
 }
diff --git a/protocol/server.go b/protocol/server.go
index 3da8bd5..6ca2fc3 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -293,3 +293,13 @@ func Dispatch(s *Server, b *bytes.Buffer, t MType) error {
 	ServerError(b, fmt.Sprintf("Dispatch: %v not supported", RPCNames[t]))
 	return nil
 }
+
+// errorString returns the text of err for an Rerror, cut to the length
+// that fits the 16-bit count.
+func errorString(err error) string {
+	s := fmt.Sprintf("%v", err)
+	if len(s) > 0xFFFF {
+		s = s[:0xFFFF]
+	}
+	return s
+}
-- 
2.43.0


From ab3304fd291acc593b45c4a1231016b9b925573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:59 +0000
Subject: [PATCH 05/15] fix: client calls decode replies of another kind as
 their own

---
 protocol/gen.go    |  2 ++
 protocol/genout.go | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/protocol/gen.go b/protocol/gen.go
index f541a51..16fc051 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -187,6 +187,8 @@ if MType(bb[4]) == Rerror {
 		return {{.R.UList}} err
 	}
 	return {{.R.UList}} fmt.Errorf("%v", s)
+} else if MType(bb[4]) != {{.R.MFunc}} {
+	return {{.R.UList}} fmt.Errorf("reply to {{.T.MFunc}} has type %d", bb[4])
 } else {
 	{{.R.MList}}{{.R.MLsep}} _, err = Unmarshal{{.R.UFunc}}Pkt(bytes.NewBuffer(bb[5:]))
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index 50df964..3944ae5 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -188,6 +188,8 @@ if MType(bb[4]) == Rerror {
 		return RMsize, RVersion,  err
 	}
 	return RMsize, RVersion,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rversion {
+	return RMsize, RVersion,  fmt.Errorf("reply to Tversion has type %d", bb[4])
 } else {
 	RMsize, RVersion,  _, err = UnmarshalRversionPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -371,6 +373,8 @@ if MType(bb[4]) == Rerror {
 		return QID,  err
 	}
 	return QID,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rattach {
+	return QID,  fmt.Errorf("reply to Tattach has type %d", bb[4])
 } else {
 	QID,  _, err = UnmarshalRattachPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -471,6 +475,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rflush {
+	return  fmt.Errorf("reply to Tflush has type %d", bb[4])
 } else {
 	 _, err = UnmarshalRflushPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -667,6 +673,8 @@ if MType(bb[4]) == Rerror {
 		return QIDs,  err
 	}
 	return QIDs,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwalk {
+	return QIDs,  fmt.Errorf("reply to Twalk has type %d", bb[4])
 } else {
 	QIDs,  _, err = UnmarshalRwalkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -827,6 +835,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Ropen {
+	return OQID, IOUnit,  fmt.Errorf("reply to Topen has type %d", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRopenPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1014,6 +1024,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rcreate {
+	return OQID, IOUnit,  fmt.Errorf("reply to Tcreate has type %d", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRcreatePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1133,6 +1145,8 @@ if MType(bb[4]) == Rerror {
 		return B,  err
 	}
 	return B,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rstat {
+	return B,  fmt.Errorf("reply to Tstat has type %d", bb[4])
 } else {
 	B,  _, err = UnmarshalRstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1252,6 +1266,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwstat {
+	return  fmt.Errorf("reply to Twstat has type %d", bb[4])
 } else {
 	 _, err = UnmarshalRwstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1356,6 +1372,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rclunk {
+	return  fmt.Errorf("reply to Tclunk has type %d", bb[4])
 } else {
 	 _, err = UnmarshalRclunkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1460,6 +1478,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rremove {
+	return  fmt.Errorf("reply to Tremove has type %d", bb[4])
 } else {
 	 _, err = UnmarshalRremovePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1615,6 +1635,8 @@ if MType(bb[4]) == Rerror {
 		return Data,  err
 	}
 	return Data,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rread {
+	return Data,  fmt.Errorf("reply to Tread has type %d", bb[4])
 } else {
 	Data,  _, err = UnmarshalRreadPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1770,6 +1792,8 @@ if MType(bb[4]) == Rerror {
 		return RLen,  err
 	}
 	return RLen,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwrite {
+	return RLen,  fmt.Errorf("reply to Twrite has type %d", bb[4])
 } else {
 	RLen,  _, err = UnmarshalRwritePkt(bytes.NewBuffer(bb[5:]))
 }
-- 
2.43.0


From ccf7a31e9930922453c0396ad7672b617a489764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:59 +0000
Subject: [PATCH 06/15] fix: server framing depends on how the transport splits
 messages

A header arriving in pieces ended the connection, a body cut short by the
end of input was handled as if complete, and sizes below the header size
were accepted.
---
 protocol/server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/server.go b/protocol/server.go
index 6ca2fc3..5d86328 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -212,16 +212,20 @@ func (c *conn) serve() {
 
 	for !c.dead {
 		l := make([]byte, 7)
-		if n, err := c.rwc.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.rwc, l); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
 		}
 		sz := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
 		t := MType(l[4])
+		if sz < 7 {
+			c.logf("readNetPackets: bad size %d", sz)
+			c.dead = true
+			return
+		}
 		b := bytes.NewBuffer(l[5:])
-		r := io.LimitReader(c.rwc, sz-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.rwc, sz-7); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From b2030ee27d67eeb3eab399474af8bf4f534d0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:59 +0000
Subject: [PATCH 07/15] fix: client framing depends on how the transport splits
 messages

---
 protocol/client.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9f67f3c..9c39ccf 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -93,7 +93,7 @@ func (c *Client) readNetPackets() {
 			c.Trace("Before read")
 		}
 
-		if n, err := c.FromNet.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
@@ -102,9 +102,13 @@ func (c *Client) readNetPackets() {
 			c.Trace("Server reads %v", l)
 		}
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if s < 7 {
+			log.Printf("readNetPackets: bad size %d", s)
+			c.Dead = true
+			return
+		}
 		b := bytes.NewBuffer(l)
-		r := io.LimitReader(c.FromNet, s-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.FromNet, s-7); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
-- 
2.43.0


From c9ca10da3f5159c2c6b10d272e788542f23b08dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:59 +0000
Subject: [PATCH 08/15] fix: client crashes on replies without an outstanding
 request

A reply with tag 0, NOTAG or a tag not in use, the end of the connection,
and every reply to a client without Trace made the receiver panic; a second
reply to an answered request blocked it.
---
 protocol/client.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9c39ccf..2c18434 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -150,7 +150,10 @@ func (c *Client) IO() {
 	}()
 
 	for {
-		r := <-c.FromServer
+		r, ok := <-c.FromServer
+		if !ok {
+			return
+		}
 		if c.Trace != nil {
 			c.Trace("Read %v FromServer", r.b)
 		}
@@ -158,15 +161,19 @@ func (c *Client) IO() {
 		if c.Trace != nil {
 			c.Trace(fmt.Sprintf("Tag for reply is %v", t))
 		}
-		if t < 1 {
-			panic(fmt.Sprintf("tag %d < 1", t))
-		}
-		if int(t-1) >= len(c.RPC) {
-			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
+		if t < 1 || int(t-1) >= len(c.RPC) {
+			log.Printf("reply with bad tag %d dropped", t)
+			continue
 		}
-		c.Trace("RPC %v ", c.RPC[t-1])
 		rrr := c.RPC[t-1]
-		c.Trace("rrr %v ", rrr)
+		if c.Trace != nil {
+			c.Trace("RPC %v ", rrr)
+		}
+		if rrr == nil {
+			log.Printf("reply with tag %d, which is not in use, dropped", t)
+			continue
+		}
+		c.RPC[t-1] = nil
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From 166f01a8fab6f2beca3f08ca2b8e6712f6383a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 09/15] fix: walk, create and wstat can leave the exported root

Dot-dot elements in walks, created names and absolute names in wstat were
joined without regard to the root, and renaming the root itself moved it
within its parent directory.
---
 filesystem/filesystem.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2523097..4abdb3d 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -68,6 +68,18 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	return msize, version, nil
 }
 
+// walkTo returns the path reached from p, which is in the exported tree, by
+// walking to name. The parent of the root is the root.
+func (e *FileServer) walkTo(p, name string) string {
+	if name == ".." {
+		if p == path.Join(e.rootPath, "/") {
+			return p
+		}
+		return path.Dir(p)
+	}
+	return path.Join(p, path.Join("/", name))
+}
+
 func (e *FileServer) getFile(fid protocol.FID) (*file, error) {
 	e.mu.Lock()
 	defer e.mu.Unlock()
@@ -124,7 +136,7 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 
 	var i int
 	for i = range paths {
-		p = path.Join(p, paths[i])
+		p = e.walkTo(p, paths[i])
 		st, err := os.Lstat(p)
 		if err != nil {
 			// From the RFC: If the first element cannot be walked for any
@@ -185,7 +197,10 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
-	n := path.Join(f.fullName, name)
+	n := path.Join(f.fullName, path.Join("/", name))
+	if n == f.fullName {
+		return protocol.QID{}, 0, fmt.Errorf("illegal name")
+	}
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
 		err := os.Mkdir(n, p)
@@ -272,6 +287,9 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 
 	if dir.Name != "" {
 		changed = true
+		if f.fullName == path.Join(e.rootPath, "/") {
+			return fmt.Errorf("Permission denied")
+		}
 		// If we path.Join dir.Name to / before adding it to
 		// the fid path, that ensures nobody gets to walk out of the
 		// root of this server.
@@ -282,7 +300,7 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		// we will make it relative to root. This is a gigantic performance
 		// improvement in systems that allow it.
 		if filepath.IsAbs(dir.Name) {
-			newname = path.Join(e.rootPath, dir.Name)
+			newname = path.Join(e.rootPath, path.Join("/", dir.Name))
 		}
 
 		// If to exists, and to is a directory, we can't do the
-- 
2.43.0


From 746f440121bc44839610ed8e98fc0f290e993391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 10/15] fix: a negative read count crashes the server

---
 filesystem/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 4abdb3d..3988e48 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -387,6 +387,9 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 	if f.file == nil {
 		return nil, fmt.Errorf("FID not open")
 	}
+	if c < 0 {
+		return nil, fmt.Errorf("bad count")
+	}
 	if f.QID.Type&protocol.QTDIR != 0 {
 		if o == 0 {
 			f.oflow = nil
-- 
2.43.0


From 095cefd6964f521b9c51f617d1b81126e3c1ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 11/15] fix: creating a directory reports success when mkdir
 fails

---
 filesystem/filesystem.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 3988e48..cf6e80e 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -203,7 +203,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	}
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
-		err := os.Mkdir(n, p)
+		if err := os.Mkdir(n, p); err != nil {
+			return protocol.QID{}, 0, err
+		}
 		_, q, err := stat(n)
 		if err != nil {
 			return protocol.QID{}, 0, err
-- 
2.43.0


From 934581639904326e7c00a098c564d9232393de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 12/15] fix: wstat of one time changes the other, and a refused
 one the mode

A wstat that leaves the access time alone set it to the year 2106, and a
request to change the owner was refused only after the mode was changed.
---
 filesystem/filesystem.go | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index cf6e80e..b33e641 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -262,6 +262,12 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if err != nil {
 		return err
 	}
+
+	// Changing the owner or the group is not supported.
+	if dir.User != "" || dir.Group != "" {
+		return fmt.Errorf("Permission denied")
+	}
+
 	if dir.Mode != 0xFFFFFFFF {
 		changed = true
 		mode := dir.Mode & 0777
@@ -270,12 +276,6 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		}
 	}
 
-	// Try to find local uid, gid by name.
-	if dir.User != "" || dir.Group != "" {
-		return fmt.Errorf("Permission denied")
-		changed = true
-	}
-
 	/*
 		if uid != ninep.NOUID || gid != ninep.NOUID {
 			changed = true
@@ -325,22 +325,15 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		}
 	}
 
-	// If either mtime or atime need to be changed, then
-	// we must change both.
+	// A zero time leaves the corresponding time as it is.
 	if dir.Mtime != ^uint32(0) || dir.Atime != ^uint32(0) {
 		changed = true
-		mt, at := time.Unix(int64(dir.Mtime), 0), time.Unix(int64(dir.Atime), 0)
-		if cmt, cat := (dir.Mtime == ^uint32(0)), (dir.Atime == ^uint32(0)); cmt || cat {
-			st, err := os.Stat(f.fullName)
-			if err != nil {
-				return err
-			}
-			switch cmt {
-			case true:
-				mt = st.ModTime()
-			default:
-				//at = atime(st.Sys().(*syscall.Stat_t))
-			}
+		var mt, at time.Time
+		if dir.Mtime != ^uint32(0) {
+			mt = time.Unix(int64(dir.Mtime), 0)
+		}
+		if dir.Atime != ^uint32(0) {
+			at = time.Unix(int64(dir.Atime), 0)
 		}
 		if err := os.Chtimes(f.fullName, at, mt); err != nil {
 			return err
-- 
2.43.0


From 63140c1f1f623d2d9ca074c0e6f4c766eb31a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 13/15] fix: fids in use are taken over, and clones share the
 open file

Attach replaced a fid that was in use (and changed the fid table without
the lock), open replaced the open file of a fid, and clunking a clone of an
open fid closed the file of the other.
---
 filesystem/filesystem.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index b33e641..bf5586f 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -104,6 +104,11 @@ func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string,
 	}
 	r := &file{fullName: aname}
 	r.QID = fileInfoToQID(st)
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	if _, ok := e.files[fid]; ok {
+		return protocol.QID{}, fmt.Errorf("FID in use: attach, fid %d", fid)
+	}
 	e.files[fid] = r
 	e.root = r
 	return r.QID, nil
@@ -127,8 +132,7 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		if ok {
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
 		}
-		nf := *f
-		e.files[newfid] = &nf
+		e.files[newfid] = &file{fullName: f.fullName, QID: f.QID}
 		return []protocol.QID{}, nil
 	}
 	p := f.fullName
@@ -180,6 +184,9 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if !ok {
 		return protocol.QID{}, 0, fmt.Errorf("does not exist")
 	}
+	if f.file != nil {
+		return protocol.QID{}, 0, fmt.Errorf("FID already open")
+	}
 
 	var err error
 	f.file, err = os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
-- 
2.43.0


From 73041c6fd41f4cc65104c16c8c69d7a065dabac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 14/15] fix: directory reads lose the entry that does not fit

An entry bigger than the count was dropped and end of directory reported.
Keep it for the next read and report an error.
---
 filesystem/filesystem.go | 44 ++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index bf5586f..72016de 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -400,24 +400,13 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 			}
 		}
 
-		// We make the assumption that they can always fit at least one
-		// directory entry into a read. If that assumption does not hold
-		// so many things are broken that we can't fix them here.
-		// But we'll drop out of the loop below having returned nothing
-		// anyway.
-		b := bytes.NewBuffer(f.oflow)
+		// An entry that was too big for the previous read comes first.
+		b := f.oflow
 		f.oflow = nil
-		pos := 0
-
-		for {
-			if b.Len() > int(c) {
-				f.oflow = b.Bytes()[pos:]
-				return b.Bytes()[:pos], nil
-			}
-			pos += b.Len()
+		if len(b) == 0 {
 			st, err := f.file.Readdir(1)
 			if err == io.EOF {
-				return b.Bytes(), nil
+				return []byte{}, nil
 			}
 			if err != nil {
 				return nil, err
@@ -427,19 +416,20 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 			if err != nil {
 				return nil, err
 			}
-			protocol.Marshaldir(b, *d9p)
-			// Seen on linux clients: sometimes the math is wrong and
-			// they end up asking for the last element with not enough data.
-			// Linux bug or bug with this server? Not sure yet.
-			if b.Len() > int(c) {
-				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d: skipping", d9p, b.Len(), c)
-				return nil, nil
-			}
-			// We're not quite doing the array right.
-			// What does work is returning one thing so, for now, do that.
-			return b.Bytes(), nil
+			var buf bytes.Buffer
+			protocol.Marshaldir(&buf, *d9p)
+			b = buf.Bytes()
+		}
+		// Seen on linux clients: sometimes the math is wrong and
+		// they end up asking for the last element with not enough data.
+		// Keep the entry for the next read.
+		if len(b) > int(c) {
+			f.oflow = b
+			return nil, fmt.Errorf("count %d too small for a directory entry of %d bytes", c, len(b))
 		}
-		return b.Bytes(), nil
+		// We're not quite doing the array right.
+		// What does work is returning one thing so, for now, do that.
+		return b, nil
 	}
 
 	// N.B. even if they ask for 0 bytes on some file systems it is important to pass
-- 
2.43.0


From 3e57d8f8cfd82196024076d3df282ce92ca891e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:55 +0000
Subject: [PATCH 15/15] fix: calls on a client whose connection has ended fail
 instead of blocking

---
 protocol/client.go | 30 ++++++++++++++++-
 protocol/gen.go    |  7 ++--
 protocol/genout.go | 84 ++++++++++++++++++++++++++--------------------
 3 files changed, 81 insertions(+), 40 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 2c18434..9bae275 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -8,6 +8,7 @@ package protocol
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -15,6 +16,8 @@ import (
 	"sync/atomic"
 )
 
+var errDead = errors.New("client is dead: connection to the server has ended")
+
 // Client implements a 9p client. It has a chan containing all tags,
 // a scalar FID which is incremented to provide new FIDS (all FIDS for a given
 // client are unique), an array of MaxTag-2 RPC structs, a ReadWriteCloser
@@ -33,6 +36,7 @@ type Client struct {
 	Msize      uint32
 	Dead       bool
 	Trace      Tracer
+	done       chan struct{} // closed when there will be no more replies
 }
 
 func NewClient(opts ...ClientOpt) (*Client, error) {
@@ -51,6 +55,7 @@ func NewClient(opts ...ClientOpt) (*Client, error) {
 	}
 	c.FromClient = make(chan *RPCCall, NumTags)
 	c.FromServer = make(chan *RPCReply)
+	c.done = make(chan struct{})
 	go c.IO()
 	go c.readNetPackets()
 	return c, nil
@@ -74,12 +79,30 @@ func (c *Client) GetFID() FID {
 	return FID(atomic.AddUint64(&c.FID, 1))
 }
 
+// call sends the request in b and waits for the reply to it.
+// It fails once the client is dead.
+func (c *Client) call(b []byte) ([]byte, error) {
+	r := make(chan []byte)
+	select {
+	case c.FromClient <- &RPCCall{b: b, Reply: r}:
+	case <-c.done:
+		return nil, errDead
+	}
+	select {
+	case bb := <-r:
+		return bb, nil
+	case <-c.done:
+		return nil, errDead
+	}
+}
+
 func (c *Client) readNetPackets() {
 	if c.FromNet == nil {
 		if c.Trace != nil {
 			c.Trace("c.FromNet is nil, marking dead")
 		}
 		c.Dead = true
+		close(c.FromServer)
 		return
 	}
 	defer c.FromNet.Close()
@@ -125,6 +148,7 @@ func (c *Client) readNetPackets() {
 }
 
 func (c *Client) IO() {
+	defer close(c.done)
 	go func() {
 		for {
 			r := <-c.FromClient
@@ -143,7 +167,11 @@ func (c *Client) IO() {
 			}
 			if _, err := c.ToNet.Write(r.b); err != nil {
 				c.Dead = true
-				log.Fatalf("Write to server: %v", err)
+				log.Printf("Write to server: %v", err)
+				if c.FromNet != nil {
+					// ends readNetPackets, and thereby IO
+					c.FromNet.Close()
+				}
 				return
 			}
 		}
diff --git a/protocol/gen.go b/protocol/gen.go
index 16fc051..4925223 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -176,11 +176,12 @@ func (c *Client)Call{{.T.MFunc}} ({{.T.MParms}}) ({{.R.URet}} err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", {{.T.MFunc}})}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return {{.R.UList}} err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
diff --git a/protocol/genout.go b/protocol/genout.go
index 3944ae5..0099e02 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -177,11 +177,12 @@ func (c *Client)CallTversion (TMsize MaxSize, TVersion string) (RMsize MaxSize,
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tversion)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTversionPkt(&b, t, TMsize, TVersion)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return RMsize, RVersion,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -362,11 +363,12 @@ func (c *Client)CallTattach (SFID FID, AFID FID, Uname string, Aname string) (QI
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tattach)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return QID,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -464,11 +466,12 @@ func (c *Client)CallTflush (OTag Tag) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tflush)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTflushPkt(&b, t, OTag)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -662,11 +665,12 @@ func (c *Client)CallTwalk (SFID FID, NewFID FID, Paths []string) (QIDs []QID,  e
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twalk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return QIDs,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -824,11 +828,12 @@ func (c *Client)CallTopen (OFID FID, Omode Mode) (OQID QID, IOUnit MaxSize,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Topen)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTopenPkt(&b, t, OFID, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1013,11 +1018,12 @@ func (c *Client)CallTcreate (OFID FID, Name string, CreatePerm Perm, Omode Mode)
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tcreate)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1134,11 +1140,12 @@ func (c *Client)CallTstat (OFID FID) (B []byte,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTstatPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return B,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1255,11 +1262,12 @@ func (c *Client)CallTwstat (OFID FID, B []byte) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwstatPkt(&b, t, OFID, B)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1361,11 +1369,12 @@ func (c *Client)CallTclunk (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tclunk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTclunkPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1467,11 +1476,12 @@ func (c *Client)CallTremove (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tremove)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTremovePkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1624,11 +1634,12 @@ func (c *Client)CallTread (OFID FID, Off Offset, Len Count) (Data []uint8,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tread)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTreadPkt(&b, t, OFID, Off, Len)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return Data,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1781,11 +1792,12 @@ func (c *Client)CallTwrite (OFID FID, Off Offset, Data []uint8) (RLen Count,  er
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twrite)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwritePkt(&b, t, OFID, Off, Data)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.call(b.Bytes())
+if err != nil {
+	return RLen,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
-- 
2.43.0

