From 9e676ce0664b70d0c9e29a60d51979b026a3ed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 001/120] fix: write key lengths in AMF0 ECMA arrays

---
 format/flv/flvio/amf0.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 5276829..01bdc81 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -280,8 +280,11 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 		pio.WriteU8(b, n, ecmaarraymarker)
 		pio.WriteU32BE(b, n, uint32(len(val)))
 		for _, p := range val {
-			pio.WriteString(b, n, p.K)
-			FillAMF0Val(b, n, p.V)
+			if len(p.K) > 0 {
+				pio.WriteU16BE(b, n, uint16(len(p.K)))
+				pio.WriteString(b, n, p.K)
+				FillAMF0Val(b, n, p.V)
+			}
 		}
 		pio.WriteU24BE(b, n, 0x000009)
 
-- 
2.43.0


From b1b7dd8ee7a7796a4a3b7b4634d2e2203d599940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 002/120] fix: write null for values AMF0 cannot represent

---
 format/flv/flvio/amf0.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 01bdc81..5ee2652 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -325,6 +325,10 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 
 	case nil:
 		pio.WriteU8(b, n, nullmarker)
+
+	default:
+		// no AMF0 form: a null keeps the surrounding container decodable
+		pio.WriteU8(b, n, nullmarker)
 	}
 
 	return
-- 
2.43.0


From cfa4886032de1e7d00e45401e9a557daead59112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 003/120] fix: do not allocate AMF0 strict arrays from the
 announced count

---
 format/flv/flvio/amf0.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 5ee2652..db5402a 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -496,12 +496,14 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 			err = amfParseErr("strictarray.count.toobig", b, *n, err)
 			return
 		}
-		obj := make(AMFArray, count)
+		obj := AMFArray{}
 		for i := 0; i < int(count); i++ {
-			if obj[i], err = parseAMF0Val(depth+1, b, n); err != nil {
+			var oval interface{}
+			if oval, err = parseAMF0Val(depth+1, b, n); err != nil {
 				err = amfParseErr("strictarray.val", b, *n, err)
 				return
 			}
+			obj = append(obj, oval)
 		}
 		val = obj
 
-- 
2.43.0


From e97091d916814be6a41e0fcdff8405d8f2085000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 004/120] fix: limit the nesting depth of AMF values

---
 format/flv/flvio/amf0.go |  9 +++++++++
 format/flv/flvio/amf3.go | 11 ++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index db5402a..a44cd4c 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -366,9 +366,18 @@ func ParseAMFVals(b []byte, isamf3 bool) (arr []interface{}, err error) {
 	return
 }
 
+// maxAMFDepth limits how deep values may nest, so that hostile input cannot
+// exhaust the stack.
+const maxAMFDepth = 256
+
 func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 
+	if depth > maxAMFDepth {
+		err = amfParseErr("nested too deep", b, *n, nil)
+		return
+	}
+
 	var marker uint8
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index c280a79..158829c 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -37,6 +37,11 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 	var marker uint8
 
+	if depth > maxAMFDepth {
+		err = amfParseErr("nested too deep", b, *n, nil)
+		return
+	}
+
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
 		return
@@ -221,7 +226,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 			break
 		}
 		var v interface{}
-		if v, err = parseAMF3Val(depth, b, n); err != nil {
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 			err = amfParseErr("array.val", b, *n, err)
 			return
 		}
@@ -277,7 +282,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 				break
 			}
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				err = amfParseErr("array.val", b, *n, err)
 				return
 			}
@@ -293,7 +298,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 		}
 		for i := 0; i < l; i++ {
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				return
 			}
 			val = val.Set(keys[i], v)
-- 
2.43.0


From 7beb1a90fdbd50284b94cef8b9f6d5a7e7775f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 005/120] fix: AMF3 booleans have no payload byte

---
 format/flv/flvio/amf3.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 158829c..ed75188 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -55,17 +55,9 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 		val = nil
 
 	case amf3falsemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:false", b, *n, err)
-			return
-		}
 		val = false
 
 	case amf3truemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:true", b, *n, err)
-			return
-		}
 		val = true
 
 	case amf3integermarker:
-- 
2.43.0


From f44293f0e3a91dc3b9ef28206845fe4c968d48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 006/120] fix: read the dense part of AMF3 arrays

---
 format/flv/flvio/amf3.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index ed75188..d3543a2 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -2,6 +2,7 @@ package flvio
 
 import (
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/nareix/joy5/utils/bits/pio"
@@ -224,8 +225,14 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 		}
 		val = val.Set(k, v)
 	}
-	if l == 0 {
-		return
+	// the dense part follows, its elements have ordinal keys
+	for i := 0; i < l; i++ {
+		var v interface{}
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
+			err = amfParseErr("array.dense", b, *n, err)
+			return
+		}
+		val = append(val, AMFKv{strconv.Itoa(i), v})
 	}
 	return
 }
-- 
2.43.0


From b80e77a116aac4882008f38e87fd32782430ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 007/120] fix: read sealed members of dynamic AMF3 objects

---
 format/flv/flvio/amf3.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index d3543a2..1441449 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -269,11 +269,28 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 
 	val = AMFMap{}
 
-	var k string
+	var keys []string
+	for i := 0; i < l; i++ {
+		var k string
+		if k, err = readString(b, n); err != nil {
+			err = amfParseErr("object.key", b, *n, err)
+			return
+		}
+		keys = append(keys, k)
+	}
+	for i := 0; i < l; i++ {
+		var v interface{}
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
+			err = amfParseErr("object.val", b, *n, err)
+			return
+		}
+		val = val.Set(keys[i], v)
+	}
+
 	if isDynamic {
 		for {
-			k, err = readString(b, n)
-			if err != nil {
+			var k string
+			if k, err = readString(b, n); err != nil {
 				err = amfParseErr("object.string", b, *n, err)
 				return
 			}
@@ -282,26 +299,11 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			}
 			var v interface{}
 			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
-				err = amfParseErr("array.val", b, *n, err)
+				err = amfParseErr("object.val", b, *n, err)
 				return
 			}
 			val = val.Set(k, v)
 		}
-	} else {
-		keys := make([]string, l)
-		for i := 0; i < l; i++ {
-			keys[i], err = readString(b, n)
-			if err != nil {
-				return
-			}
-		}
-		for i := 0; i < l; i++ {
-			var v interface{}
-			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
-				return
-			}
-			val = val.Set(keys[i], v)
-		}
 	}
 	return
 }
-- 
2.43.0


From 8abadf10bba9fb99751198a0b1b80b1980a3fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 008/120] fix: parse AMF objects with many keys in linear time

---
 format/flv/flvio/amf0.go | 38 ++++++++++++++++++++++++++++++++------
 format/flv/flvio/amf3.go | 14 ++++++++------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index a44cd4c..292576b 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -334,6 +334,32 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 	return
 }
 
+// amfMapBuilder does what repeated AMFMap.Set does, with an index once the map
+// is large, so that parsing stays linear in the input.
+type amfMapBuilder struct {
+	m   AMFMap
+	idx map[string]int
+}
+
+func (a *amfMapBuilder) set(k string, v interface{}) {
+	if a.idx == nil {
+		if len(a.m) < 64 {
+			a.m = a.m.Set(k, v)
+			return
+		}
+		a.idx = make(map[string]int)
+		for i, kv := range a.m {
+			a.idx[kv.K] = i
+		}
+	}
+	if i, ok := a.idx[k]; ok {
+		a.m[i].V = v
+		return
+	}
+	a.idx[k] = len(a.m)
+	a.m = append(a.m, AMFKv{k, v})
+}
+
 func ParseAMF0Val(b []byte, n *int) (val interface{}, err error) {
 	val, err = parseAMF0Val(0, b, n)
 	return
@@ -414,7 +440,7 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 		}
 
 	case objectmarker:
-		obj := AMFMap{}
+		obj := amfMapBuilder{m: AMFMap{}}
 		for {
 			var length uint16
 			if length, err = pio.ReadU16BE(b, n); err != nil {
@@ -441,13 +467,13 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 				return
 			}
 
-			obj = obj.Set(okey, oval)
+			obj.set(okey, oval)
 		}
 		if _, err = pio.ReadU8(b, n); err != nil {
 			err = amfParseErr("object.end", b, *n, err)
 			return
 		}
-		val = obj
+		val = obj.m
 
 	case nullmarker:
 	case undefinedmarker:
@@ -458,7 +484,7 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 			return
 		}
 
-		obj := AMFMap{}
+		obj := amfMapBuilder{m: AMFMap{}}
 		for {
 			var length uint16
 			if length, err = pio.ReadU16BE(b, n); err != nil {
@@ -481,13 +507,13 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 				return
 			}
 
-			obj = obj.Set(okey, oval)
+			obj.set(okey, oval)
 		}
 		if _, err = pio.ReadU8(b, n); err != nil {
 			err = amfParseErr("array.end", b, *n, err)
 			return
 		}
-		val = obj
+		val = obj.m
 
 	case objectendmarker:
 		if _, err = pio.ReadU24BE(b, n); err != nil {
diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 1441449..694218c 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -208,7 +208,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 
 	l = l >> 1
 	var k string
-	val = AMFMap{}
+	obj := amfMapBuilder{m: AMFMap{}}
 	for {
 		k, err = readString(b, n)
 		if err != nil {
@@ -223,7 +223,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 			err = amfParseErr("array.val", b, *n, err)
 			return
 		}
-		val = val.Set(k, v)
+		obj.set(k, v)
 	}
 	// the dense part follows, its elements have ordinal keys
 	for i := 0; i < l; i++ {
@@ -232,8 +232,9 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 			err = amfParseErr("array.dense", b, *n, err)
 			return
 		}
-		val = append(val, AMFKv{strconv.Itoa(i), v})
+		obj.m = append(obj.m, AMFKv{strconv.Itoa(i), v})
 	}
+	val = obj.m
 	return
 }
 
@@ -267,7 +268,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 		return
 	}
 
-	val = AMFMap{}
+	obj := amfMapBuilder{m: AMFMap{}}
 
 	var keys []string
 	for i := 0; i < l; i++ {
@@ -284,7 +285,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			err = amfParseErr("object.val", b, *n, err)
 			return
 		}
-		val = val.Set(keys[i], v)
+		obj.set(keys[i], v)
 	}
 
 	if isDynamic {
@@ -302,9 +303,10 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 				err = amfParseErr("object.val", b, *n, err)
 				return
 			}
-			val = val.Set(k, v)
+			obj.set(k, v)
 		}
 	}
+	val = obj.m
 	return
 }
 
-- 
2.43.0


From 78ee2b51821edc2f179c287acc21d5c68458240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 009/120] fix: flush RTMP media tags when they are written

---
 format/rtmp/msg.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 167dd5b..5708379 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -767,12 +767,15 @@ func (c *Conn) WriteTag(tag flvio.Tag) (err error) {
 	} else {
 		csid = 5
 	}
-	return c.writeMsg(csid, message{
+	if err = c.writeMsg(csid, message{
 		msgtypeid: uint8(tag.Type),
 		msgdata:   tag.Data,
 		msgsid:    c.avmsgsid,
 		timenow:   tag.Time,
-	}, tag.FillHeader)
+	}, tag.FillHeader); err != nil {
+		return
+	}
+	return c.flushWrite()
 }
 
 func (c *message) arrToCommand(arr []interface{}) (cmd *command, err error) {
-- 
2.43.0


From 5c22a0f0bf1a7019a074b5b99befd907d94e3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 010/120] fix: three-byte chunk stream ids are little-endian

---
 format/rtmp/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 5708379..f951ad8 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -313,7 +313,7 @@ func (c *Conn) readChunk() (msg *message, err error) {
 		if _, err = c.wrapRW.Read(b[:2]); err != nil {
 			return
 		}
-		csid = uint32(pio.U16BE(b)) + 64
+		csid = uint32(b[1])<<8 + uint32(b[0]) + 64
 	}
 
 	newcs := false
-- 
2.43.0


From 1b53d85b29fa0ea74119bcdffd8ded075832a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 011/120] fix: refuse RTMP servers of another protocol version

---
 format/rtmp/handshake.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/rtmp/handshake.go b/format/rtmp/handshake.go
index 0ccc9ae..4d0360d 100644
--- a/format/rtmp/handshake.go
+++ b/format/rtmp/handshake.go
@@ -122,6 +122,11 @@ func (c *Conn) handshakeClient() (err error) {
 		return
 	}
 
+	if S0S1S2[0] != 3 {
+		err = fmt.Errorf("VersionInvalid(%d)", S0S1S2[0])
+		return
+	}
+
 	ok, digest2 := hsParse1(S0S1S2[1:1536+1], hsServerPartialKey, hsClientFullKey)
 	if !ok {
 		// fallback to simple handshake
-- 
2.43.0


From 4e2ecf996f781f2b8d1148223348db72ec2f156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 012/120] fix: send RTMP refusals with level error

---
 format/rtmp/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index fdba509..506949e 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -78,7 +78,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Play.Failed"},
 					{K: "description", V: msg},
 				},
@@ -140,7 +140,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Publish.Failed"},
 					{K: "description", V: msg},
 				},
-- 
2.43.0


From 98b7f41808ed7ffcf33314d8d2cbe1dc7cdcda88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 013/120] fix: report RTMP commands answered with _error

---
 format/rtmp/cmd.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index 506949e..6e5eac8 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -304,6 +304,13 @@ func (c *Conn) checkLevelStatus(cmd *command) (err error) {
 	return
 }
 
+func (c *Conn) commandRefused(cmd *command) (err error) {
+	if err = c.checkLevelStatus(cmd); err == nil {
+		err = fmt.Errorf("CommandRefused")
+	}
+	return
+}
+
 func (c *Conn) checkCreateStreamResult(cmd *command) (ok bool, avmsgsid uint32) {
 	if len(cmd.params) > 0 {
 		_avmsgsid, _ := cmd.params[0].(float64)
@@ -351,6 +358,10 @@ func (c *Conn) writeConnect(path string) (err error) {
 			}
 			break
 		}
+		if cmd.name == "_error" {
+			err = fmt.Errorf("CommandConnectFailed: %s", c.commandRefused(cmd))
+			return
+		}
 	}
 
 	return
@@ -397,6 +408,10 @@ func (c *Conn) connectPublish() (err error) {
 			}
 			break
 		}
+		if cmd.name == "_error" && int(cmd.transid) == transid {
+			err = fmt.Errorf("CreateStreamFailed: %s", c.commandRefused(cmd))
+			return
+		}
 	}
 
 	transid++
@@ -460,6 +475,10 @@ func (c *Conn) connectPlay() (err error) {
 			}
 			break
 		}
+		if cmd.name == "_error" {
+			err = fmt.Errorf("CreateStreamFailed: %s", c.commandRefused(cmd))
+			return
+		}
 	}
 
 	if err = c.writeCommand(4, c.avmsgsid, "play", 0, nil, playpath); err != nil {
-- 
2.43.0


From cd71e1405232f2726829eaa30b19c900c2ee4e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 014/120] fix: keep slashes of the query out of the RTMP
 application name

---
 format/rtmp/url.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/url.go b/format/rtmp/url.go
index 4513303..fe9e1f9 100644
--- a/format/rtmp/url.go
+++ b/format/rtmp/url.go
@@ -9,8 +9,12 @@ import (
 func splitPath(u *url.URL) (app, stream string) {
 	nu := *u
 	nu.ForceQuery = false
+	nu.RawQuery = ""
 
 	pathsegs := strings.SplitN(nu.RequestURI(), "/", -1)
+	if u.RawQuery != "" {
+		pathsegs[len(pathsegs)-1] += "?" + u.RawQuery
+	}
 	if len(pathsegs) == 2 {
 		app = pathsegs[1]
 	}
-- 
2.43.0


From 4e73d0066db8fa3b1e072fe969abe82944a74ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 015/120] fix: default port of RTMP URLs with an IPv6 host

---
 format/rtmp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index 242c497..7eb66f5 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -40,7 +40,7 @@ func UrlGetHost(u *url.URL) string {
 		defaultPort = "443"
 	}
 	if _, _, err := net.SplitHostPort(host); err != nil {
-		host = net.JoinHostPort(host, defaultPort)
+		host = net.JoinHostPort(u.Hostname(), defaultPort)
 	}
 	return host
 }
-- 
2.43.0


From 342517615f7390bdd5c657512a8864a11b8e8f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 016/120] fix: refuse RTMP URLs of other schemes

---
 format/rtmp/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index 7eb66f5..a0bf3b4 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"fmt"
 	"net"
 	"net/url"
 	"time"
@@ -89,6 +90,9 @@ func (t *Client) Dial(url_ string, flags int) (c *Conn, nc net.Conn, err error)
 			return
 		}
 		nc_ = tls.Client(nc_, &tls.Config{InsecureSkipVerify: true})
+	default:
+		err = fmt.Errorf("SchemeUnsupported(%s)", u.Scheme)
+		return
 	}
 
 	var c_ *Conn
-- 
2.43.0


From 79083a4e3a6def946944cba8f4c1d542a27855f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 017/120] fix: refuse RTMP chunk sizes outside 1 to 0x7fffffff

---
 format/rtmp/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index f951ad8..815392a 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -873,7 +873,7 @@ func (c *Conn) handleEvent(msg *message) (handled bool, err error) {
 		if v, err = pio.ReadU32BE(msg.msgdata, &n); err != nil {
 			return
 		}
-		if int(v) < 0 {
+		if v == 0 || v > 0x7fffffff {
 			err = fmt.Errorf("SetChunkSizeInvalid(%x)", v)
 			return
 		}
-- 
2.43.0


From bcdb3a8d5b50610f611282061565da04d5f7ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 018/120] fix: padding and offsets of Annex B units

---
 codec/h264/h264.go | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 66da903..960c1cf 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -346,14 +346,11 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 	//  }
 
 	// Annex B
-	const S = 0
-	const S0 = 1
-	const S00 = 2
-	const S000 = 3
 	nalustart := 0
-	s := S
 	from := 0
-	cut := func(to, next int) {
+	found := false
+	zeros := 0
+	cut := func(to int) {
 		if from < to {
 			info := NALUInfo{
 				NALUStart: nalustart,
@@ -363,30 +360,26 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 			}
 			out = append(out, info)
 		}
-		from = next
 	}
 	for i, c := range b {
-		switch c {
-		case 0:
-			if s < S000 {
-				if s == S {
-					nalustart = i
-				}
-				s++
-			}
-		case 1:
-			switch s {
-			case S00, S000:
-				cut(i-s, i+1)
+		switch {
+		case c == 0:
+			zeros++
+		case c == 1 && zeros >= 2:
+			cut(i - zeros)
+			found = true
+			from = i + 1
+			if nalustart = i - 3; zeros < 3 {
+				nalustart = i - 2
 			}
-			s = S
+			zeros = 0
 		default:
-			s = S
+			zeros = 0
 		}
 	}
 
-	if from > 0 {
-		cut(len(b), 0)
+	if found {
+		cut(len(b) - zeros)
 		ok = true
 		return
 	}
-- 
2.43.0


From f2bb1f8efcd8c6174c56eb6988855a27ea6d2c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 019/120] fix: sign of even Exp-Golomb codes

---
 utils/bits/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index d4b3c55..d139ac2 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -59,7 +59,7 @@ func (r *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 98893a25b3a9065ec73059e542c3aeef2ac737e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 020/120] fix: bit readers accept short reads

---
 utils/bits/bits.go          | 7 +------
 utils/bits/golomb_reader.go | 2 +-
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 7c1247d..d6946b7 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -1,7 +1,6 @@
 package bits
 
 import (
-	"fmt"
 	"io"
 )
 
@@ -16,11 +15,7 @@ func (r *Reader) ReadBits64(n int) (bits uint64, err error) {
 		var b [8]byte
 		var got int
 		want := (n - r.n + 7) / 8
-		if got, err = r.R.Read(b[:want]); err != nil {
-			return
-		}
-		if got < want {
-			err = fmt.Errorf("bits: EOF")
+		if got, err = io.ReadFull(r.R, b[:want]); err != nil {
 			return
 		}
 		for i := 0; i < got; i++ {
diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index d139ac2..d4b270e 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -12,7 +12,7 @@ type GolombBitReader struct {
 
 func (r *GolombBitReader) ReadBit() (res uint, err error) {
 	if r.left == 0 {
-		if _, err = r.R.Read(r.buf[:]); err != nil {
+		if _, err = io.ReadFull(r.R, r.buf[:]); err != nil {
 			return
 		}
 		r.left = 8
-- 
2.43.0


From 9d2032b3fa5fdc4ee2d523dd846256cf7f529e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 021/120] fix: read unaligned fields of more than 56 bits

---
 utils/bits/bits.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index d6946b7..f0af5e8 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -11,6 +11,17 @@ type Reader struct {
 }
 
 func (r *Reader) ReadBits64(n int) (bits uint64, err error) {
+	if n > 32 {
+		var hi, lo uint64
+		if hi, err = r.ReadBits64(n - 32); err != nil {
+			return
+		}
+		if lo, err = r.ReadBits64(32); err != nil {
+			return
+		}
+		bits = hi<<32 | lo
+		return
+	}
 	if r.n < n {
 		var b [8]byte
 		var got int
-- 
2.43.0


From 6ccf29b1f3e0a511684e34439589ad187f07d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 022/120] fix: write bit fields across the accumulator border

---
 utils/bits/bits.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index f0af5e8..36fbe6e 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -76,15 +76,16 @@ type Writer struct {
 
 func (w *Writer) WriteBits64(bits uint64, n int) (err error) {
 	if w.n+n > 64 {
-		move := uint(64 - w.n)
-		mask := bits >> move
-		w.bits = (w.bits << move) | mask
+		move := 64 - w.n
+		rest := uint(n - move)
+		mask := bits >> rest
+		w.bits = (w.bits << uint(move)) | mask
 		w.n = 64
 		if err = w.FlushBits(); err != nil {
 			return
 		}
-		n -= int(move)
-		bits ^= (mask << move)
+		n = int(rest)
+		bits ^= (mask << rest)
 	}
 	w.bits = (w.bits << uint(n)) | bits
 	w.n += n
-- 
2.43.0


From 099b50d87a40e752b22d26c8579ba3183fb033d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 023/120] fix: high syntax of the multiview and depth profiles
 in SPS

---
 codec/h264/h264.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 960c1cf..fb5fa78 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -681,7 +681,10 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
 		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
-- 
2.43.0


From f32da2dffbfa44dbc2c4bf95a85a234070aeb742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 024/120] fix: twelve scaling lists in 4:4:4 SPS

---
 codec/h264/h264.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index fb5fa78..084e5cc 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -717,7 +717,11 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			scalingLists := 8
+			if chroma_format_idc == 3 {
+				scalingLists = 12
+			}
+			for i := 0; i < scalingLists; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From 9261f74b4a914dea9c661ef63056a1558c5ed8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 025/120] fix: crop units of field-coded and non-4:2:0 SPS

---
 codec/h264/h264.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 084e5cc..27ae9c2 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -678,6 +678,9 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		return
 	}
 
+	chroma_format_idc := uint(1)
+	var separate_colour_plane_flag uint
+
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
@@ -686,14 +689,13 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
 		s.ProfileIdc == 135 {
 
-		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
 		}
 
 		if chroma_format_idc == 3 {
 			// residual_colour_transform_flag
-			if _, err = r.ReadBit(); err != nil {
+			if separate_colour_plane_flag, err = r.ReadBit(); err != nil {
 				return
 			}
 		}
@@ -845,8 +847,19 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 	}
 
-	s.Width = (s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2
-	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2
+	cropUnitX, cropUnitY := uint(1), 2-frame_mbs_only_flag
+	if separate_colour_plane_flag == 0 {
+		switch chroma_format_idc {
+		case 1:
+			cropUnitX *= 2
+			cropUnitY *= 2
+		case 2:
+			cropUnitX *= 2
+		}
+	}
+
+	s.Width = (s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropUnitX
+	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropUnitY
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From 9b0aebe3cc5e8d09d791ce3b70eb9ea19d964afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 026/120] fix: report a SPS cut before the video signal type

---
 codec/h264/h264.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 27ae9c2..3578fea 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -906,6 +906,9 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 			_ = overscan_appropriate_flagu
 		}
 		video_signal_type_present_flag, err := r.ReadBit()
+		if err != nil {
+			return s, err
+		}
 		if video_signal_type_present_flag != 0 {
 			video_format, err := r.ReadBits(3)
 			if err != nil {
-- 
2.43.0


From 799c5f06c56ea2367d10afb92beea95dd0802c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 027/120] fix: frame rate of SPS with zero units per tick

---
 codec/h264/h264.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 3578fea..f75f087 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -977,7 +977,9 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 			}
 
 			//num_units_in_tick/time_scale should yield field time  要求向下取整
-			s.FPS = uint(math.Floor(float64(time_scale) / float64(num_units_in_tick) / 2.0))
+			if num_units_in_tick != 0 {
+				s.FPS = uint(math.Floor(float64(time_scale) / float64(num_units_in_tick) / 2.0))
+			}
 
 			fixed_frame_rate_flag, err := r.ReadBit()
 			if err != nil {
-- 
2.43.0


From 2e9fc754ddf6b2689071474929d23a56f0c7cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 028/120] fix: take the avcC profile from the first SPS

---
 codec/h264/h264.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index f75f087..b8b6d1b 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -468,7 +468,7 @@ func (c *Codec) ToConfig() {
 	var config = make([]byte, c.Len())
 	var pos = 0
 	firstSPS := []byte{}
-	for _, s := range c.SPS {
+	for _, s := range Map2arr(c.SPS) {
 		firstSPS = s
 		break
 	}
-- 
2.43.0


From bce5cb60eac5785b7fd3f2698397869aa324c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 029/120] fix: refuse avcC records of unknown versions

---
 codec/h264/h264.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index b8b6d1b..06d745a 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -530,7 +530,14 @@ func FromDecoderConfig(b []byte) (c *Codec, err error) {
 	n := 0
 	var v uint8
 
-	for i := 0; i < 5; i++ {
+	if v, err = pio.ReadU8(b, &n); err != nil {
+		return
+	}
+	if v != 1 {
+		err = fmt.Errorf("h264: decoder config version=%d invalid", v)
+		return
+	}
+	for i := 0; i < 4; i++ {
 		if _, err = pio.ReadU8(b, &n); err != nil {
 			return
 		}
-- 
2.43.0


From 8a258d77875370d2bdc35c61f2079824f14a77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 030/120] fix: keep the record in parsed H.264 decoder
 configurations

---
 codec/h264/h264.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 06d745a..275a95b 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -577,6 +577,7 @@ func FromDecoderConfig(b []byte) (c *Codec, err error) {
 		nc.AddSPSPPS(pps)
 	}
 
+	nc.ConfigBytes = append([]byte(nil), b...)
 	c = nc
 	return
 }
-- 
2.43.0


From 0cbc090498f9bbbdaddeb79d3fbd0572482fadb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 031/120] fix: compare H.264 parameter sets themselves

---
 codec/h264/h264.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 275a95b..4d48b2b 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -2,7 +2,6 @@ package h264
 
 import (
 	"bytes"
-	"crypto/sha1"
 	"fmt"
 	"math"
 	"sort"
@@ -456,12 +455,23 @@ func Map2arr(m map[int][]byte) (a [][]byte) {
 type Codec struct {
 	ConfigBytes []byte
 	SPS, PPS    map[int][]byte
-	hash        []byte
 	W, H        int
 }
 
+func equalSets(a, b map[int][]byte) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for id, s := range a {
+		if t, ok := b[id]; !ok || !bytes.Equal(s, t) {
+			return false
+		}
+	}
+	return true
+}
+
 func (c *Codec) Equal(b Codec) bool {
-	return bytes.Compare(c.hash, b.hash) == 0
+	return equalSets(c.SPS, b.SPS) && equalSets(c.PPS, b.PPS)
 }
 
 func (c *Codec) ToConfig() {
@@ -1043,15 +1053,6 @@ func (c *Codec) AddSPSPPS(b []byte) {
 			c.PPS[int(info.Id)] = append([]byte(nil), b...)
 		}
 	}
-
-	h := sha1.New()
-	for _, b := range Map2arr(c.SPS) {
-		h.Write(b)
-	}
-	for _, b := range Map2arr(c.PPS) {
-		h.Write(b)
-	}
-	c.hash = h.Sum(nil)
 }
 
 func FromOld(old Codec) *Codec {
-- 
2.43.0


From f12cc6a54d60fa9462526ad6e48a0d3bd847f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 032/120] fix: keep the picture size when copying an H.264
 codec

---
 codec/h264/h264.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 4d48b2b..771f721 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -1063,6 +1063,7 @@ func FromOld(old Codec) *Codec {
 	for _, pps := range old.PPS {
 		c.AddSPSPPS(pps)
 	}
+	c.W, c.H = old.W, old.H
 	return c
 }
 
-- 
2.43.0


From 07907a84dece6b6b7f8c515aee43af536acba3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 033/120] fix: numbers of AAC object types after HVXC

---
 codec/aac/aac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index e6af2b8..61e59b4 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -89,13 +89,13 @@ const (
 	AOT_TWINVQ                      ///< N                       Twin Vector Quantizer
 	AOT_CELP                        ///< N                       Code Excited Linear Prediction
 	AOT_HVXC                        ///< N                       Harmonic Vector eXcitation Coding
-	AOT_TTSI            = 12 + iota ///< N                       Text-To-Speech Interface
+	AOT_TTSI            = 3 + iota ///< N                       Text-To-Speech Interface
 	AOT_MAINSYNTH                   ///< N                       Main Synthesis
 	AOT_WAVESYNTH                   ///< N                       Wavetable Synthesis
 	AOT_MIDI                        ///< N                       General MIDI
 	AOT_SAFX                        ///< N                       Algorithmic Synthesis and Audio Effects
 	AOT_ER_AAC_LC                   ///< N                       Error Resilient Low Complexity
-	AOT_ER_AAC_LTP      = 19 + iota ///< N                       Error Resilient Long Term Prediction
+	AOT_ER_AAC_LTP      = 4 + iota ///< N                       Error Resilient Long Term Prediction
 	AOT_ER_AAC_SCALABLE             ///< N                       Error Resilient Scalable
 	AOT_ER_TWINVQ                   ///< N                       Error Resilient Twin Vector Quantizer
 	AOT_ER_BSAC                     ///< N                       Error Resilient Bit-Sliced Arithmetic Coding
-- 
2.43.0


From 309d0ced91eac2fee2b83ac69b4d82e1253406b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 034/120] fix: refuse ADTS headers shorter than seven bytes

---
 codec/aac/aac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index 61e59b4..e7e910c 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -196,6 +196,10 @@ var chanConfigTable = []ChannelLayout{
 }
 
 func ParseADTSHeader(frame []byte) (config MPEG4AudioConfig, hdrlen int, framelen int, samples int, err error) {
+	if len(frame) < ADTSHeaderLength {
+		err = fmt.Errorf("aacparser: adts header too short")
+		return
+	}
 	if frame[0] != 0xff || frame[1]&0xf6 != 0xf0 {
 		err = fmt.Errorf("aacparser: not adts header")
 		return
-- 
2.43.0


From a27371d44cbf51477eaab1dcea3cc2b00fad1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 035/120] fix: explicit sample rates in AAC configurations

---
 codec/aac/aac.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index e7e910c..f3db3d4 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -301,24 +301,24 @@ func writeObjectType(w *bits.Writer, objectType uint) (err error) {
 	return
 }
 
-func readSampleRateIndex(r *bits.Reader) (index uint, err error) {
+func readSampleRateIndex(r *bits.Reader) (index uint, rate uint, err error) {
 	if index, err = r.ReadBits(4); err != nil {
 		return
 	}
 	if index == 0xf {
-		if index, err = r.ReadBits(24); err != nil {
+		if rate, err = r.ReadBits(24); err != nil {
 			return
 		}
 	}
 	return
 }
 
-func writeSampleRateIndex(w *bits.Writer, index uint) (err error) {
+func writeSampleRateIndex(w *bits.Writer, index uint, rate uint) (err error) {
 	if index >= 0xf {
 		if err = w.WriteBits(0xf, 4); err != nil {
 			return
 		}
-		if err = w.WriteBits(index, 24); err != nil {
+		if err = w.WriteBits(rate, 24); err != nil {
 			return
 		}
 	} else {
@@ -336,7 +336,7 @@ func (c MPEG4AudioConfig) IsValid() bool {
 func (c *MPEG4AudioConfig) complete() error {
 	if int(c.SampleRateIndex) < len(sampleRateTable) {
 		c.SampleRate = sampleRateTable[c.SampleRateIndex]
-	} else {
+	} else if c.SampleRateIndex != 0xf || c.SampleRate <= 0 {
 		return fmt.Errorf("InvalidSampleRateIndex(%d)", c.SampleRateIndex)
 	}
 	if int(c.ChannelConfig) < len(chanConfigTable) {
@@ -354,9 +354,11 @@ func ParseMPEG4AudioConfigBytes(data []byte) (config MPEG4AudioConfig, err error
 	if config.ObjectType, err = readObjectType(br); err != nil {
 		return
 	}
-	if config.SampleRateIndex, err = readSampleRateIndex(br); err != nil {
+	var rate uint
+	if config.SampleRateIndex, rate, err = readSampleRateIndex(br); err != nil {
 		return
 	}
+	config.SampleRate = int(rate)
 	if config.ChannelConfig, err = br.ReadBits(4); err != nil {
 		return
 	}
@@ -373,13 +375,16 @@ func WriteMPEG4AudioConfig(w io.Writer, config MPEG4AudioConfig) (err error) {
 	}
 
 	if config.SampleRateIndex == 0 {
+		if config.SampleRate > 0 {
+			config.SampleRateIndex = 0xf
+		}
 		for i, rate := range sampleRateTable {
 			if rate == config.SampleRate {
 				config.SampleRateIndex = uint(i)
 			}
 		}
 	}
-	if err = writeSampleRateIndex(bw, config.SampleRateIndex); err != nil {
+	if err = writeSampleRateIndex(bw, config.SampleRateIndex, uint(config.SampleRate)); err != nil {
 		return
 	}
 
-- 
2.43.0


From 04f886b3d914ac75262416bdb1c602eb95a2abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 036/120] fix: refuse negative and overflowing lengths in
 cursor reads

---
 utils/bits/pio/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/bits/pio/reader.go b/utils/bits/pio/reader.go
index cb052d3..c3cdfb3 100644
--- a/utils/bits/pio/reader.go
+++ b/utils/bits/pio/reader.go
@@ -254,7 +254,7 @@ func ReadI64BE(b []byte, n *int) (v int64, err error) {
 }
 
 func ReadBytes(b []byte, n *int, length int) (v []byte, err error) {
-	if len(b) < *n+length {
+	if length < 0 || len(b)-*n < length {
 		err = Error{N: *n}
 		return
 	}
@@ -266,7 +266,7 @@ func ReadBytes(b []byte, n *int, length int) (v []byte, err error) {
 }
 
 func ReadString(b []byte, n *int, strlen int) (v string, err error) {
-	if len(b) < *n+strlen {
+	if strlen < 0 || len(b)-*n < strlen {
 		err = Error{N: *n}
 		return
 	}
-- 
2.43.0


From 49a2cfab4b8dbde9bdeb7ef4312af5c8fe109b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 037/120] fix: refuse MP4 boxes smaller than their header

---
 format/mp4/mp4io/atoms.go   | 26 +++++++++++++-------------
 format/mp4/mp4io/gen/gen.go |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index e83f72b..3b7a003 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -257,7 +257,7 @@ func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -554,7 +554,7 @@ func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -884,7 +884,7 @@ func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1108,7 +1108,7 @@ func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1217,7 +1217,7 @@ func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1311,7 +1311,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1584,7 +1584,7 @@ func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1751,7 +1751,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1922,7 +1922,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2141,7 +2141,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2642,7 +2642,7 @@ func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2797,7 +2797,7 @@ func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2894,7 +2894,7 @@ func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
diff --git a/format/mp4/mp4io/gen/gen.go b/format/mp4/mp4io/gen/gen.go
index 79ffd45..47a6a42 100644
--- a/format/mp4/mp4io/gen/gen.go
+++ b/format/mp4/mp4io/gen/gen.go
@@ -597,7 +597,7 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 			Rhs: []ast.Expr{ast.NewIdent("int(pio.U32BE(b[n:]))")},
 		})
 		blocks = append(blocks, &ast.IfStmt{
-			Cond: ast.NewIdent("len(b) < n+size"),
+			Cond: ast.NewIdent("size < 8 || len(b) < n+size"),
 			Body: &ast.BlockStmt{List: parseerrreturn("TagSizeInvalid")},
 		})
 
-- 
2.43.0


From 3bbe1a64fadcd279d14516b0ece602376f48b9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 038/120] fix: read empty MP4 boxes at the end of their parent

---
 format/mp4/mp4io/atoms.go   | 26 +++++++++++++-------------
 format/mp4/mp4io/gen/gen.go |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 3b7a003..9e3da55 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -254,7 +254,7 @@ func (self Movie) Len() (n int) {
 func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -551,7 +551,7 @@ func (self Track) Len() (n int) {
 func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -881,7 +881,7 @@ func (self Media) Len() (n int) {
 func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1105,7 +1105,7 @@ func (self MediaInfo) Len() (n int) {
 func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1214,7 +1214,7 @@ func (self DataInfo) Len() (n int) {
 func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1308,7 +1308,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1581,7 +1581,7 @@ func (self SampleTable) Len() (n int) {
 func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1748,7 +1748,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	n += 1
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1919,7 +1919,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.SampleRate = GetFixed32(b[n:])
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2138,7 +2138,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.ColorTableId = pio.I16BE(b[n:])
 	n += 2
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2639,7 +2639,7 @@ func (self MovieFrag) Len() (n int) {
 func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2794,7 +2794,7 @@ func (self TrackFrag) Len() (n int) {
 func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2891,7 +2891,7 @@ func (self MovieExtend) Len() (n int) {
 func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
diff --git a/format/mp4/mp4io/gen/gen.go b/format/mp4/mp4io/gen/gen.go
index 47a6a42..d789644 100644
--- a/format/mp4/mp4io/gen/gen.go
+++ b/format/mp4/mp4io/gen/gen.go
@@ -641,7 +641,7 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 		blocks = append(blocks, addns("size")...)
 
 		stmts = append(stmts, &ast.ForStmt{
-			Cond: ast.NewIdent("n+8 < len(b)"),
+			Cond: ast.NewIdent("n+8 <= len(b)"),
 			Body: &ast.BlockStmt{List: blocks},
 		})
 		return
-- 
2.43.0


From bab52da2c4da4c67bca946d9a70b9690d0f54128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 039/120] fix: check the length of MP4 boxes before reading
 counts, reserved fields and tables

---
 format/mp4/mp4io/atoms.go       | 102 ++++++++++++++++++++++++++++----
 format/mp4/mp4io/gen/gen.go     |  14 ++---
 format/mp4/mp4io/gen/pattern.go |   1 +
 3 files changed, 96 insertions(+), 21 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 9e3da55..84ddfb1 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -453,6 +453,10 @@ func (self *MovieHeader) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.PreferredVolume = GetFixed16(b[n:])
 	n += 2
+	if len(b) < n+10 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 10
 	if len(b) < n+4*len(self.Matrix) {
 		err = parseErr("Matrix", n+offset, err)
@@ -708,6 +712,10 @@ func (self *TrackHeader) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.TrackId = pio.I32BE(b[n:])
 	n += 4
+	if len(b) < n+4 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 4
 	if len(b) < n+4 {
 		err = parseErr("Duration", n+offset, err)
@@ -715,6 +723,10 @@ func (self *TrackHeader) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Duration = pio.I32BE(b[n:])
 	n += 4
+	if len(b) < n+8 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 8
 	if len(b) < n+2 {
 		err = parseErr("Layer", n+offset, err)
@@ -734,6 +746,10 @@ func (self *TrackHeader) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Volume = GetFixed16(b[n:])
 	n += 2
+	if len(b) < n+2 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 2
 	if len(b) < n+4*len(self.Matrix) {
 		err = parseErr("Matrix", n+offset, err)
@@ -1307,6 +1323,10 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("_childrenNR", n+offset, err)
+		return
+	}
 	n += 4
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
@@ -1435,6 +1455,10 @@ func (self *SoundMediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Balance = pio.I16BE(b[n:])
 	n += 2
+	if len(b) < n+2 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 2
 	return
 }
@@ -1746,7 +1770,15 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Version = pio.U8(b[n:])
 	n += 1
+	if len(b) < n+3 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("_childrenNR", n+offset, err)
+		return
+	}
 	n += 4
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
@@ -1869,6 +1901,10 @@ func (self MP4ADesc) Len() (n int) {
 func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
+	if len(b) < n+6 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 6
 	if len(b) < n+2 {
 		err = parseErr("DataRefIdx", n+offset, err)
@@ -1912,6 +1948,10 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.CompressionId = pio.I16BE(b[n:])
 	n += 2
+	if len(b) < n+2 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 2
 	if len(b) < n+4 {
 		err = parseErr("SampleRate", n+offset, err)
@@ -2052,6 +2092,10 @@ func (self AVC1Desc) Len() (n int) {
 func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
+	if len(b) < n+6 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 6
 	if len(b) < n+2 {
 		err = parseErr("DataRefIdx", n+offset, err)
@@ -2113,6 +2157,10 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.VorizontalResolution = GetFixed32(b[n:])
 	n += 4
+	if len(b) < n+4 {
+		err = parseErr("skip", n+offset, err)
+		return
+	}
 	n += 4
 	if len(b) < n+2 {
 		err = parseErr("FrameCount", n+offset, err)
@@ -2259,13 +2307,17 @@ func (self *TimeToSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TimeToSampleEntry, _len_Entries)
-	if len(b) < n+LenTimeToSampleEntry*len(self.Entries) {
+	if len(b) < n+LenTimeToSampleEntry*int(_len_Entries) {
 		err = parseErr("TimeToSampleEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]TimeToSampleEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetTimeToSampleEntry(b[n:])
 		n += LenTimeToSampleEntry
@@ -2343,13 +2395,17 @@ func (self *SampleToChunk) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]SampleToChunkEntry, _len_Entries)
-	if len(b) < n+LenSampleToChunkEntry*len(self.Entries) {
+	if len(b) < n+LenSampleToChunkEntry*int(_len_Entries) {
 		err = parseErr("SampleToChunkEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]SampleToChunkEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetSampleToChunkEntry(b[n:])
 		n += LenSampleToChunkEntry
@@ -2430,13 +2486,17 @@ func (self *CompositionOffset) Unmarshal(b []byte, offset int) (n int, err error
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
-	if len(b) < n+LenCompositionOffsetEntry*len(self.Entries) {
+	if len(b) < n+LenCompositionOffsetEntry*int(_len_Entries) {
 		err = parseErr("CompositionOffsetEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetCompositionOffsetEntry(b[n:])
 		n += LenCompositionOffsetEntry
@@ -2514,13 +2574,17 @@ func (self *SyncSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -2581,13 +2645,17 @@ func (self *ChunkOffset) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -3095,13 +3163,17 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 		return
 	}
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -3227,9 +3299,12 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TrackFragRunEntry, _len_Entries)
 	if self.Flags&TRUN_DATA_OFFSET != 0 {
 		{
 			if len(b) < n+4 {
@@ -3251,6 +3326,7 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 		}
 	}
 
+	self.Entries = make([]TrackFragRunEntry, _len_Entries)
 	for i := 0; i < int(_len_Entries); i++ {
 		var flags uint32
 		if i > 0 {
diff --git a/format/mp4/mp4io/gen/gen.go b/format/mp4/mp4io/gen/gen.go
index d789644..621bd23 100644
--- a/format/mp4/mp4io/gen/gen.go
+++ b/format/mp4/mp4io/gen/gen.go
@@ -568,7 +568,6 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 	var atomtypes []string
 	var atomarrnames []string
 	var atomarrtypes []string
-	slicenamemap := map[string]string{}
 
 	unmarshalatom := func(typ, init string) (stmts []ast.Stmt) {
 		return []ast.Stmt{
@@ -711,8 +710,6 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 	checkstructlendo := func(typ, name, debug string,
 		foreach func(string, []ast.Stmt) []ast.Stmt,
 	) (stmts []ast.Stmt) {
-		inc := typegetlens(typ) + "*len(" + name + ")"
-		stmts = append(stmts, checkcurlen(inc, debug)...)
 		stmts = append(stmts, foreach(name, append(
 			[]ast.Stmt{
 				&ast.AssignStmt{
@@ -779,6 +776,7 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 		case "array":
 			*marstmts = append(*marstmts, foreachentry("self."+name, callputstruct(name2, "entry"))...)
 			*lenstmts = append(*lenstmts, calllenstruct(name2, "self."+name+"[:]")...)
+			*unmarstmts = append(*unmarstmts, checkcurlen(typegetlens(name2)+"*len(self."+name+")", name)...)
 			*unmarstmts = append(*unmarstmts, checkstructlendo(name2, "self."+name, name, foreachi)...)
 
 		case "atoms":
@@ -789,6 +787,8 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 		case "slice":
 			*marstmts = append(*marstmts, foreachentry("self."+name, callputstruct(name2, "entry"))...)
 			*lenstmts = append(*lenstmts, calllenstruct(name2, "self."+name)...)
+			*unmarstmts = append(*unmarstmts, checkcurlen(typegetlens(name2)+"*int(_len_"+name+")", name2)...)
+			*unmarstmts = append(*unmarstmts, makeslice("self."+name, name2, "_len_"+name)...)
 			*unmarstmts = append(*unmarstmts, checkstructlendo(name2, "self."+name, name2, foreachi)...)
 
 		case "atom":
@@ -821,10 +821,6 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 			name2 := getexprs(callexpr.Args[1])
 			atomarrnames = append(atomarrnames, name)
 			atomarrtypes = append(atomarrtypes, name2)
-		} else if typ == "slice" {
-			name := getexprs(callexpr.Args[0])
-			name2 := getexprs(callexpr.Args[1])
-			slicenamemap[name] = name2
 		}
 	}
 
@@ -876,6 +872,7 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 			if typ == "_skip" {
 				marstmts = append(marstmts, addns(name)...)
 				lenstmts = append(lenstmts, addns(name)...)
+				unmarstmts = append(unmarstmts, checkcurlen(name, "skip")...)
 				unmarstmts = append(unmarstmts, addns(name)...)
 			}
 			if typ == "_code" {
@@ -891,6 +888,7 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 			marstmts = append(marstmts, getchildrennr(name)...)
 			marstmts = append(marstmts, putxxadd(typ, name, true)...)
 			lenstmts = append(lenstmts, addn(typegetlen(typ))...)
+			unmarstmts = append(unmarstmts, checkcurlen(typegetlens(typ), name)...)
 			unmarstmts = append(unmarstmts, addn(typegetlen(typ))...)
 			continue
 		}
@@ -900,9 +898,9 @@ func getatommarshalfn(origfn *ast.FuncDecl,
 			marstmts = append(marstmts, putxxadd(typ, "len(self."+field+")", true)...)
 			lenstmts = append(lenstmts, addn(typegetlen(typ))...)
 			unmarstmts = append(unmarstmts, declvar(typegetvartype(typ), name)...)
+			unmarstmts = append(unmarstmts, checkcurlen(typegetlens(typ), name)...)
 			unmarstmts = append(unmarstmts, getxx(typ, "n", name, false)...)
 			unmarstmts = append(unmarstmts, addn(typegetlen(typ))...)
-			unmarstmts = append(unmarstmts, makeslice("self."+field, slicenamemap[field], name)...)
 			continue
 		}
 
diff --git a/format/mp4/mp4io/gen/pattern.go b/format/mp4/mp4io/gen/pattern.go
index 0023210..f2d5578 100644
--- a/format/mp4/mp4io/gen/pattern.go
+++ b/format/mp4/mp4io/gen/pattern.go
@@ -337,6 +337,7 @@ package main
 // 			}
 // 		}
 // 	}, func() {
+// 		self.Entries = make([]TrackFragRunEntry, _len_Entries)
 // 		for i := 0; i < int(_len_Entries); i++ {
 // 			var flags uint32
 // 			if i > 0 {
-- 
2.43.0


From 6af465c4262dbafbf08a9fbace8dbee1513efaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 040/120] fix: keep the sample count of MP4 tracks with a
 constant sample size

---
 format/mp4/mp4io/atoms.go       | 30 ++++++++++++++++++++++++++----
 format/mp4/mp4io/gen/pattern.go |  5 +++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 84ddfb1..469aaf8 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3095,10 +3095,11 @@ func (self TrackExtend) Children() (r []Atom) {
 }
 
 type SampleSize struct {
-	Version    uint8
-	Flags      uint32
-	SampleSize uint32
-	Entries    []uint32
+	Version     uint8
+	Flags       uint32
+	SampleSize  uint32
+	SampleCount uint32
+	Entries     []uint32
 	AtomPos
 }
 
@@ -3115,6 +3116,12 @@ func (self SampleSize) marshal(b []byte) (n int) {
 	n += 3
 	pio.PutU32BE(b[n:], self.SampleSize)
 	n += 4
+	if self.SampleSize != 0 {
+		{
+			pio.PutU32BE(b[n:], self.SampleCount)
+			n += 4
+		}
+	}
 	if self.SampleSize != 0 {
 		return
 	}
@@ -3131,6 +3138,11 @@ func (self SampleSize) Len() (n int) {
 	n += 1
 	n += 3
 	n += 4
+	if self.SampleSize != 0 {
+		{
+			n += 4
+		}
+	}
 	if self.SampleSize != 0 {
 		return
 	}
@@ -3159,6 +3171,16 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.SampleSize = pio.U32BE(b[n:])
 	n += 4
+	if self.SampleSize != 0 {
+		{
+			if len(b) < n+4 {
+				err = parseErr("SampleCount", n+offset, err)
+				return
+			}
+			self.SampleCount = pio.U32BE(b[n:])
+			n += 4
+		}
+	}
 	if self.SampleSize != 0 {
 		return
 	}
diff --git a/format/mp4/mp4io/gen/pattern.go b/format/mp4/mp4io/gen/pattern.go
index f2d5578..1cd0c96 100644
--- a/format/mp4/mp4io/gen/pattern.go
+++ b/format/mp4/mp4io/gen/pattern.go
@@ -264,6 +264,11 @@ package main
 // 	uint8(Version)
 // 	uint24(Flags)
 // 	uint32(SampleSize)
+// 	uint32(SampleCount, _code(func() {
+// 		if self.SampleSize != 0 {
+// 			doit()
+// 		}
+// 	}))
 // 	_code(func() {
 // 		if self.SampleSize != 0 {
 // 			return
-- 
2.43.0


From 09e329807dc4f5a82a51089808734bda26633fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 041/120] fix: fields of MP4 track fragment runs

---
 format/mp4/mp4io/atoms.go       | 79 ++++++++++++---------------------
 format/mp4/mp4io/gen/pattern.go | 71 +++++++++++------------------
 format/mp4/mp4io/mp4io.go       | 20 +++++++++
 3 files changed, 76 insertions(+), 94 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 469aaf8..568e058 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3209,6 +3209,7 @@ func (self SampleSize) Children() (r []Atom) {
 type TrackFragRun struct {
 	Version          uint8
 	Flags            uint32
+	SampleCount      uint32
 	DataOffset       uint32
 	FirstSampleFlags uint32
 	Entries          []TrackFragRunEntry
@@ -3226,7 +3227,8 @@ func (self TrackFragRun) marshal(b []byte) (n int) {
 	n += 1
 	pio.PutU24BE(b[n:], self.Flags)
 	n += 3
-	pio.PutU32BE(b[n:], uint32(len(self.Entries)))
+
+	pio.PutU32BE(b[n:], self.sampleCount())
 	n += 4
 	if self.Flags&TRUN_DATA_OFFSET != 0 {
 		{
@@ -3241,26 +3243,20 @@ func (self TrackFragRun) marshal(b []byte) (n int) {
 		}
 	}
 
-	for i, entry := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
-		if flags&TRUN_SAMPLE_DURATION != 0 {
+	for _, entry := range self.Entries {
+		if self.Flags&TRUN_SAMPLE_DURATION != 0 {
 			pio.PutU32BE(b[n:], entry.Duration)
 			n += 4
 		}
-		if flags&TRUN_SAMPLE_SIZE != 0 {
+		if self.Flags&TRUN_SAMPLE_SIZE != 0 {
 			pio.PutU32BE(b[n:], entry.Size)
 			n += 4
 		}
-		if flags&TRUN_SAMPLE_FLAGS != 0 {
+		if self.Flags&TRUN_SAMPLE_FLAGS != 0 {
 			pio.PutU32BE(b[n:], entry.Flags)
 			n += 4
 		}
-		if flags&TRUN_SAMPLE_CTS != 0 {
+		if self.Flags&TRUN_SAMPLE_CTS != 0 {
 			pio.PutU32BE(b[n:], entry.Cts)
 			n += 4
 		}
@@ -3283,26 +3279,7 @@ func (self TrackFragRun) Len() (n int) {
 		}
 	}
 
-	for i := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
-		if flags&TRUN_SAMPLE_DURATION != 0 {
-			n += 4
-		}
-		if flags&TRUN_SAMPLE_SIZE != 0 {
-			n += 4
-		}
-		if flags&TRUN_SAMPLE_FLAGS != 0 {
-			n += 4
-		}
-		if flags&TRUN_SAMPLE_CTS != 0 {
-			n += 4
-		}
-	}
+	n += self.lenEntry() * len(self.Entries)
 	return
 }
 func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
@@ -3320,13 +3297,14 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
-	var _len_Entries uint32
-	if len(b) < n+4 {
-		err = parseErr("_len_Entries", n+offset, err)
-		return
+	{
+		if len(b) < n+4 {
+			err = parseErr("SampleCount", n+offset, err)
+			return
+		}
+		self.SampleCount = pio.U32BE(b[n:])
+		n += 4
 	}
-	_len_Entries = pio.U32BE(b[n:])
-	n += 4
 	if self.Flags&TRUN_DATA_OFFSET != 0 {
 		{
 			if len(b) < n+4 {
@@ -3347,29 +3325,30 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 			n += 4
 		}
 	}
+	if self.lenEntry() == 0 {
+		return
+	}
+	if len(b) < n+self.lenEntry()*int(self.SampleCount) {
+		err = parseErr("TrackFragRunEntry", n+offset, err)
+		return
+	}
 
-	self.Entries = make([]TrackFragRunEntry, _len_Entries)
-	for i := 0; i < int(_len_Entries); i++ {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+	self.Entries = make([]TrackFragRunEntry, self.SampleCount)
+	for i := range self.Entries {
 		entry := &self.Entries[i]
-		if flags&TRUN_SAMPLE_DURATION != 0 {
+		if self.Flags&TRUN_SAMPLE_DURATION != 0 {
 			entry.Duration = pio.U32BE(b[n:])
 			n += 4
 		}
-		if flags&TRUN_SAMPLE_SIZE != 0 {
+		if self.Flags&TRUN_SAMPLE_SIZE != 0 {
 			entry.Size = pio.U32BE(b[n:])
 			n += 4
 		}
-		if flags&TRUN_SAMPLE_FLAGS != 0 {
+		if self.Flags&TRUN_SAMPLE_FLAGS != 0 {
 			entry.Flags = pio.U32BE(b[n:])
 			n += 4
 		}
-		if flags&TRUN_SAMPLE_CTS != 0 {
+		if self.Flags&TRUN_SAMPLE_CTS != 0 {
 			entry.Cts = pio.U32BE(b[n:])
 			n += 4
 		}
diff --git a/format/mp4/mp4io/gen/pattern.go b/format/mp4/mp4io/gen/pattern.go
index 1cd0c96..90da973 100644
--- a/format/mp4/mp4io/gen/pattern.go
+++ b/format/mp4/mp4io/gen/pattern.go
@@ -281,7 +281,14 @@ package main
 // func trun_TrackFragRun() {
 // 	uint8(Version)
 // 	uint24(Flags)
-// 	uint32(_len_Entries)
+// 	uint32(SampleCount, _code(func() {
+// 		pio.PutU32BE(b[n:], self.sampleCount())
+// 		n += 4
+// 	}, func() {
+// 		n += 4
+// 	}, func() {
+// 		doit()
+// 	}))
 
 // 	uint32(DataOffset, _code(func() {
 // 		if self.Flags&TRUN_DATA_OFFSET != 0 {
@@ -296,74 +303,50 @@ package main
 // 	}))
 
 // 	slice(Entries, TrackFragRunEntry, _code(func() {
-// 		for i, entry := range self.Entries {
-// 			var flags uint32
-// 			if i > 0 {
-// 				flags = self.Flags
-// 			} else {
-// 				flags = self.FirstSampleFlags
-// 			}
-// 			if flags&TRUN_SAMPLE_DURATION != 0 {
+// 		for _, entry := range self.Entries {
+// 			if self.Flags&TRUN_SAMPLE_DURATION != 0 {
 // 				pio.PutU32BE(b[n:], entry.Duration)
 // 				n += 4
 // 			}
-// 			if flags&TRUN_SAMPLE_SIZE != 0 {
+// 			if self.Flags&TRUN_SAMPLE_SIZE != 0 {
 // 				pio.PutU32BE(b[n:], entry.Size)
 // 				n += 4
 // 			}
-// 			if flags&TRUN_SAMPLE_FLAGS != 0 {
+// 			if self.Flags&TRUN_SAMPLE_FLAGS != 0 {
 // 				pio.PutU32BE(b[n:], entry.Flags)
 // 				n += 4
 // 			}
-// 			if flags&TRUN_SAMPLE_CTS != 0 {
+// 			if self.Flags&TRUN_SAMPLE_CTS != 0 {
 // 				pio.PutU32BE(b[n:], entry.Cts)
 // 				n += 4
 // 			}
 // 		}
 // 	}, func() {
-// 		for i := range self.Entries {
-// 			var flags uint32
-// 			if i > 0 {
-// 				flags = self.Flags
-// 			} else {
-// 				flags = self.FirstSampleFlags
-// 			}
-// 			if flags&TRUN_SAMPLE_DURATION != 0 {
-// 				n += 4
-// 			}
-// 			if flags&TRUN_SAMPLE_SIZE != 0 {
-// 				n += 4
-// 			}
-// 			if flags&TRUN_SAMPLE_FLAGS != 0 {
-// 				n += 4
-// 			}
-// 			if flags&TRUN_SAMPLE_CTS != 0 {
-// 				n += 4
-// 			}
-// 		}
+// 		n += self.lenEntry() * len(self.Entries)
 // 	}, func() {
-// 		self.Entries = make([]TrackFragRunEntry, _len_Entries)
-// 		for i := 0; i < int(_len_Entries); i++ {
-// 			var flags uint32
-// 			if i > 0 {
-// 				flags = self.Flags
-// 			} else {
-// 				flags = self.FirstSampleFlags
-// 			}
+// 		if self.lenEntry() == 0 {
+// 			return
+// 		}
+// 		if len(b) < n+self.lenEntry()*int(self.SampleCount) {
+// 			err = parseErr("TrackFragRunEntry", n+offset, err)
+// 			return
+// 		}
+// 		self.Entries = make([]TrackFragRunEntry, self.SampleCount)
+// 		for i := range self.Entries {
 // 			entry := &self.Entries[i]
-// 			if flags&TRUN_SAMPLE_DURATION != 0 {
+// 			if self.Flags&TRUN_SAMPLE_DURATION != 0 {
 // 				entry.Duration = pio.U32BE(b[n:])
 // 				n += 4
 // 			}
-// 			if flags&TRUN_SAMPLE_SIZE != 0 {
+// 			if self.Flags&TRUN_SAMPLE_SIZE != 0 {
 // 				entry.Size = pio.U32BE(b[n:])
 // 				n += 4
 // 			}
-// 			if flags&TRUN_SAMPLE_FLAGS != 0 {
+// 			if self.Flags&TRUN_SAMPLE_FLAGS != 0 {
 // 				entry.Flags = pio.U32BE(b[n:])
 // 				n += 4
 // 			}
-// 			if flags&TRUN_SAMPLE_CTS != 0 {
+// 			if self.Flags&TRUN_SAMPLE_CTS != 0 {
 // 				entry.Cts = pio.U32BE(b[n:])
 // 				n += 4
 // 			}
diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 13bcae8..1662a2d 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -182,6 +182,26 @@ const (
 	TRUN_SAMPLE_CTS         = 0x800
 )
 
+// lenEntry is the length of one entry, which has the fields the flags announce
+func (self TrackFragRun) lenEntry() (n int) {
+	for _, flag := range []uint32{
+		TRUN_SAMPLE_DURATION, TRUN_SAMPLE_SIZE, TRUN_SAMPLE_FLAGS, TRUN_SAMPLE_CTS,
+	} {
+		if self.Flags&flag != 0 {
+			n += 4
+		}
+	}
+	return
+}
+
+// sampleCount is the number of samples, also when their entries have no field
+func (self TrackFragRun) sampleCount() uint32 {
+	if len(self.Entries) > 0 || self.lenEntry() > 0 {
+		return uint32(len(self.Entries))
+	}
+	return self.SampleCount
+}
+
 const (
 	MP4ESDescrTag          = 3
 	MP4DecConfigDescrTag   = 4
-- 
2.43.0


From 6d73bb7aa40497e63fa5f294959fe5847c02a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 042/120] fix: check the length of MP4 fragment decode times

---
 format/mp4/mp4io/atoms.go       | 9 +++++++++
 format/mp4/mp4io/gen/pattern.go | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 568e058..73dc964 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3593,6 +3593,15 @@ func (self *TrackFragDecodeTime) Unmarshal(b []byte, offset int) (n int, err err
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+
+	size := 4
+	if self.Version != 0 {
+		size = 8
+	}
+	if len(b) < n+size {
+		err = parseErr("Time", n+offset, err)
+		return
+	}
 	if self.Version != 0 {
 		self.Time = GetTime64(b[n:])
 		n += 8
diff --git a/format/mp4/mp4io/gen/pattern.go b/format/mp4/mp4io/gen/pattern.go
index 90da973..80cb1f8 100644
--- a/format/mp4/mp4io/gen/pattern.go
+++ b/format/mp4/mp4io/gen/pattern.go
@@ -414,6 +414,14 @@ package main
 // 			n += 4
 // 		}
 // 	}, func() {
+// 		size := 4
+// 		if self.Version != 0 {
+// 			size = 8
+// 		}
+// 		if len(b) < n+size {
+// 			err = parseErr("Time", n+offset, err)
+// 			return
+// 		}
 // 		if self.Version != 0 {
 // 			self.Time = GetTime64(b[n:])
 // 			n += 8
-- 
2.43.0


From 88582d60e7465fc324244b0a2c2b6d7ab0bab9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 043/120] fix: keep unknown boxes in MP4 sample tables and data
 references

---
 format/mp4/mp4io/atoms.go       | 41 ++++++++++++++++++++++++++++++---
 format/mp4/mp4io/gen/pattern.go |  2 ++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 73dc964..d61104a 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -1270,9 +1270,10 @@ func (self DataInfo) Children() (r []Atom) {
 }
 
 type DataRefer struct {
-	Version uint8
-	Flags   uint32
-	Url     *DataReferUrl
+	Version  uint8
+	Flags    uint32
+	Url      *DataReferUrl
+	Unknowns []Atom
 	AtomPos
 }
 
@@ -1291,11 +1292,15 @@ func (self DataRefer) marshal(b []byte) (n int) {
 	if self.Url != nil {
 		_childrenNR++
 	}
+	_childrenNR += len(self.Unknowns)
 	pio.PutI32BE(b[n:], int32(_childrenNR))
 	n += 4
 	if self.Url != nil {
 		n += self.Url.Marshal(b[n:])
 	}
+	for _, atom := range self.Unknowns {
+		n += atom.Marshal(b[n:])
+	}
 	return
 }
 func (self DataRefer) Len() (n int) {
@@ -1306,6 +1311,9 @@ func (self DataRefer) Len() (n int) {
 	if self.Url != nil {
 		n += self.Url.Len()
 	}
+	for _, atom := range self.Unknowns {
+		n += atom.Len()
+	}
 	return
 }
 func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
@@ -1345,6 +1353,15 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 				}
 				self.Url = atom
 			}
+		default:
+			{
+				atom := &Dummy{Tag_: tag, Data: b[n : n+size]}
+				if _, err = atom.Unmarshal(b[n:n+size], offset+n); err != nil {
+					err = parseErr("", n+offset, err)
+					return
+				}
+				self.Unknowns = append(self.Unknowns, atom)
+			}
 		}
 		n += size
 	}
@@ -1354,6 +1371,7 @@ func (self DataRefer) Children() (r []Atom) {
 	if self.Url != nil {
 		r = append(r, self.Url)
 	}
+	r = append(r, self.Unknowns...)
 	return
 }
 
@@ -1544,6 +1562,7 @@ type SampleTable struct {
 	SyncSample        *SyncSample
 	ChunkOffset       *ChunkOffset
 	SampleSize        *SampleSize
+	Unknowns          []Atom
 	AtomPos
 }
 
@@ -1575,6 +1594,9 @@ func (self SampleTable) marshal(b []byte) (n int) {
 	if self.SampleSize != nil {
 		n += self.SampleSize.Marshal(b[n:])
 	}
+	for _, atom := range self.Unknowns {
+		n += atom.Marshal(b[n:])
+	}
 	return
 }
 func (self SampleTable) Len() (n int) {
@@ -1600,6 +1622,9 @@ func (self SampleTable) Len() (n int) {
 	if self.SampleSize != nil {
 		n += self.SampleSize.Len()
 	}
+	for _, atom := range self.Unknowns {
+		n += atom.Len()
+	}
 	return
 }
 func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
@@ -1676,6 +1701,15 @@ func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 				}
 				self.SampleSize = atom
 			}
+		default:
+			{
+				atom := &Dummy{Tag_: tag, Data: b[n : n+size]}
+				if _, err = atom.Unmarshal(b[n:n+size], offset+n); err != nil {
+					err = parseErr("", n+offset, err)
+					return
+				}
+				self.Unknowns = append(self.Unknowns, atom)
+			}
 		}
 		n += size
 	}
@@ -1703,6 +1737,7 @@ func (self SampleTable) Children() (r []Atom) {
 	if self.SampleSize != nil {
 		r = append(r, self.SampleSize)
 	}
+	r = append(r, self.Unknowns...)
 	return
 }
 
diff --git a/format/mp4/mp4io/gen/pattern.go b/format/mp4/mp4io/gen/pattern.go
index 80cb1f8..4136198 100644
--- a/format/mp4/mp4io/gen/pattern.go
+++ b/format/mp4/mp4io/gen/pattern.go
@@ -95,6 +95,7 @@ package main
 // 	uint24(Flags)
 // 	int32(_childrenNR)
 // 	atom(Url, DataReferUrl)
+// 	_unknowns()
 // }
 
 // func url__DataReferUrl() {
@@ -124,6 +125,7 @@ package main
 // 	atom(SyncSample, SyncSample)
 // 	atom(ChunkOffset, ChunkOffset)
 // 	atom(SampleSize, SampleSize)
+// 	_unknowns()
 // }
 
 // func stsd_SampleDesc() {
-- 
2.43.0


From 70964712245a2d025a1f43830283f25b93fbb235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 044/120] fix: MP4 times that are unset or far from 1904

---
 format/mp4/mp4io/mp4io.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 1662a2d..e1e6074 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -30,30 +30,30 @@ func parseErr(debug string, offset int, prev error) (err error) {
 	return &ParseError{Debug: debug, Offset: offset, prev: _prev}
 }
 
+// seconds from 1904, where MP4 times start, to 1970
+const epochOffset = 2082844800
+
 func GetTime32(b []byte) (t time.Time) {
-	sec := pio.U32BE(b)
-	t = time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC)
-	t = t.Add(time.Second * time.Duration(sec))
-	return
+	return time.Unix(int64(pio.U32BE(b))-epochOffset, 0).UTC()
 }
 
 func PutTime32(b []byte, t time.Time) {
-	dur := t.Sub(time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC))
-	sec := uint32(dur / time.Second)
-	pio.PutU32BE(b, sec)
+	pio.PutU32BE(b, uint32(toEpoch(t)))
 }
 
 func GetTime64(b []byte) (t time.Time) {
-	sec := pio.U64BE(b)
-	t = time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC)
-	t = t.Add(time.Second * time.Duration(sec))
-	return
+	return time.Unix(int64(pio.U64BE(b))-epochOffset, 0).UTC()
 }
 
 func PutTime64(b []byte, t time.Time) {
-	dur := t.Sub(time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC))
-	sec := uint64(dur / time.Second)
-	pio.PutU64BE(b, sec)
+	pio.PutU64BE(b, uint64(toEpoch(t)))
+}
+
+func toEpoch(t time.Time) int64 {
+	if t.IsZero() {
+		return 0
+	}
+	return t.Unix() + epochOffset
 }
 
 func PutFixed16(b []byte, f float64) {
-- 
2.43.0


From a58178c99f925531931c6422cfac294f9979a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 045/120] fix: descriptor lengths of MP4 elementary stream
 descriptors

---
 format/mp4/mp4io/mp4io.go | 96 ++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 31 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index e1e6074..5a8a069 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -301,8 +301,8 @@ func (self ElemStreamDesc) Marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], 0) // Version
 	n += 4
 	datalen := self.Len()
-	n += self.fillESDescHdr(b[n:], datalen-n-self.lenESDescHdr())
-	n += self.fillDecConfigDescHdr(b[n:], datalen-n-self.lenDescHdr()-1)
+	n += self.fillESDescHdr(b[n:], datalen-n-self.lenDescHdr())
+	n += self.fillDecConfigDescHdr(b[n:], self.lenDecConfigDescHdr()-self.lenDescHdr()+len(self.DecConfig))
 	copy(b[n:], self.DecConfig)
 	n += len(self.DecConfig)
 	n += self.fillDescHdr(b[n:], 0x06, datalen-n-self.lenDescHdr())
@@ -320,51 +320,85 @@ func (self *ElemStreamDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
 	n += 4
-	return self.parseDesc(b[n:], offset+n)
-}
-
-func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
-	var hdrlen int
-	var datalen int
-	var tag uint8
-	if hdrlen, tag, datalen, err = self.parseDescHdr(b, offset); err != nil {
-		return
-	}
-	n += hdrlen
-
-	if len(b) < n+datalen {
-		err = parseErr("datalen", offset+n, err)
+	if err = self.parseDescs(b[n:], offset+n, 0); err != nil {
 		return
 	}
+	n = len(b)
+	return
+}
 
-	switch tag {
-	case MP4ESDescrTag:
-		if len(b) < n+3 {
-			err = parseErr("MP4ESDescrTag", offset+n, err)
+// parseDescs reads the descriptors in b, which are part of the descriptor with tag parent
+func (self *ElemStreamDesc) parseDescs(b []byte, offset int, parent uint8) (err error) {
+	n := 0
+	for n < len(b) {
+		var hdrlen int
+		var datalen int
+		var tag uint8
+		if hdrlen, tag, datalen, err = self.parseDescHdr(b[n:], offset+n); err != nil {
 			return
 		}
-		if _, err = self.parseDesc(b[n+3:], offset+n+3); err != nil {
+		n += hdrlen
+
+		if len(b) < n+datalen {
+			err = parseErr("datalen", offset+n, err)
 			return
 		}
+		data := b[n : n+datalen]
 
-	case MP4DecConfigDescrTag:
-		const size = 2 + 3 + 4 + 4
-		if len(b) < n+size {
-			err = parseErr("MP4DecSpecificDescrTag", offset+n, err)
-			return
+		switch {
+		case tag == MP4ESDescrTag && parent == 0:
+			err = self.parseESDesc(data, offset+n)
+
+		case tag == MP4DecConfigDescrTag && parent == MP4ESDescrTag:
+			const size = 2 + 3 + 4 + 4
+			if len(data) < size {
+				err = parseErr("MP4DecConfigDescrTag", offset+n, err)
+				return
+			}
+			err = self.parseDescs(data[size:], offset+n+size, tag)
+
+		case tag == MP4DecSpecificDescrTag && parent == MP4DecConfigDescrTag:
+			self.DecConfig = data
 		}
-		if _, err = self.parseDesc(b[n+size:], offset+n+size); err != nil {
+		if err != nil {
 			return
 		}
 
-	case MP4DecSpecificDescrTag:
-		self.DecConfig = b[n:]
+		n += datalen
 	}
-
-	n += datalen
 	return
 }
 
+func (self *ElemStreamDesc) parseESDesc(b []byte, offset int) (err error) {
+	const (
+		flagDependsOn = 0x80
+		flagURL       = 0x40
+		flagOCR       = 0x20
+	)
+	size := 3
+	if len(b) < size {
+		return parseErr("MP4ESDescrTag", offset, nil)
+	}
+	self.TrackId = pio.U16BE(b)
+	flags := b[2]
+	if flags&flagDependsOn != 0 {
+		size += 2
+	}
+	if flags&flagURL != 0 {
+		if len(b) < size+1 {
+			return parseErr("URL", offset+size, nil)
+		}
+		size += 1 + int(b[size])
+	}
+	if flags&flagOCR != 0 {
+		size += 2
+	}
+	if len(b) < size {
+		return parseErr("MP4ESDescrTag", offset+size, nil)
+	}
+	return self.parseDescs(b[size:], offset+size, MP4ESDescrTag)
+}
+
 func (self *ElemStreamDesc) parseLength(b []byte, offset int) (n int, length int, err error) {
 	for n < 4 {
 		if len(b) < n+1 {
-- 
2.43.0


From 14d6eab1c698f13386848d10c76a113a5c82a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 046/120] fix: sizes of top-level MP4 boxes

---
 format/mp4/mp4io/mp4io.go | 43 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 5a8a069..5018335 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -1,6 +1,7 @@
 package mp4io
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"math"
@@ -440,8 +441,37 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 			}
 			return
 		}
-		size := pio.U32BE(taghdr[0:])
+		size := int64(pio.U32BE(taghdr[0:]))
 		tag := Tag(pio.U32BE(taghdr[4:]))
+		hdrlen := int64(8)
+
+		switch size {
+		case 0: // up to the end of the file
+			var end int64
+			if end, err = r.Seek(0, 2); err != nil {
+				return
+			}
+			if _, err = r.Seek(offset+hdrlen, 0); err != nil {
+				return
+			}
+			size = end - offset
+			pio.PutU32BE(taghdr[0:], uint32(size))
+
+		case 1: // 64-bit size
+			largesize := make([]byte, 8)
+			if _, err = io.ReadFull(r, largesize); err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
+				return
+			}
+			hdrlen += 8
+			size = int64(pio.U64BE(largesize))
+		}
+		if size < hdrlen || offset+size < offset {
+			err = parseErr("TagSizeInvalid", int(offset), err)
+			return
+		}
 
 		var atom Atom
 		switch tag {
@@ -452,11 +482,14 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		}
 
 		if atom != nil {
-			b := make([]byte, int(size))
-			if _, err = io.ReadFull(r, b[8:]); err != nil {
+			buf := bytes.NewBuffer(taghdr)
+			if _, err = io.CopyN(buf, r, size-hdrlen); err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
 				return
 			}
-			copy(b, taghdr)
+			b := buf.Bytes()
 			if _, err = atom.Unmarshal(b, int(offset)); err != nil {
 				return
 			}
@@ -464,7 +497,7 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		} else {
 			dummy := &Dummy{Tag_: tag}
 			dummy.setPos(int(offset), int(size))
-			if _, err = r.Seek(int64(size)-8, 1); err != nil {
+			if _, err = r.Seek(size-hdrlen, 1); err != nil {
 				return
 			}
 			atoms = append(atoms, dummy)
-- 
2.43.0


From 65f2b91b9f99c097ef65473fb1cc52c9b9a34639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 047/120] fix: classify H.264 as video and AAC as audio in MP4

---
 format/mp4/stream.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index fa38171..71237d5 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -13,8 +13,6 @@ import (
 	"github.com/pkg/errors"
 )
 
-const codecTypeAudioBit = 0x1
-
 type Stream struct {
 	Codec interface{}
 
@@ -64,11 +62,11 @@ func CodecType(codec interface{}) (int, error) {
 }
 
 func IsAudio(t int) bool {
-	return t&codecTypeAudioBit != 0
+	return t == av.AAC
 }
 
 func IsVideo(t int) bool {
-	return t&codecTypeAudioBit == 0
+	return t == av.H264
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-- 
2.43.0


From a1727b2cc36463b6b0697163a752349c046782e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 048/120] fix: seek MP4 files by the type of their streams

---
 format/mp4/demuxer.go | 12 ++++++++----
 format/mp4/stream.go  |  5 +++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index bea3293..8b97455 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -132,8 +132,12 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 }
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
-	for sType, stream := range self.streams {
-		if IsVideo(sType) {
+	if err = self.probe(); err != nil {
+		return
+	}
+
+	for _, stream := range self.streams {
+		if IsVideo(stream.codecType()) {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
@@ -142,8 +146,8 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 		}
 	}
 
-	for sType, stream := range self.streams {
-		if !IsVideo(sType) {
+	for _, stream := range self.streams {
+		if !IsVideo(stream.codecType()) {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 71237d5..8864db1 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -61,6 +61,11 @@ func CodecType(codec interface{}) (int, error) {
 	return cType, nil
 }
 
+func (self *Stream) codecType() int {
+	cType, _ := CodecType(self.Codec)
+	return cType
+}
+
 func IsAudio(t int) bool {
 	return t == av.AAC
 }
-- 
2.43.0


From b5d0009bda2ee3f9d5e709674f3974c5755ecfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 049/120] fix: write the AAC configuration to MP4 files

---
 format/mp4/muxer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index e9d0593..1e20c5a 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -140,9 +140,9 @@ func (self *Stream) fillTrackAtom() (err error) {
 			NumberOfChannels: int16(codec.Config.ChannelLayout.Count()),
 			SampleSize:       int16(codec.SampleFormat().BytesPerSample()),
 			SampleRate:       float64(codec.Config.SampleRate),
-			// Conf: &mp4io.ElemStreamDesc{
-			// 	DecConfig: codec.MPEG4AudioConfigBytes(),
-			// },
+			Conf: &mp4io.ElemStreamDesc{
+				DecConfig: codec.ConfigBytes,
+			},
 		}
 		self.trackAtom.Header.Volume = 1
 		self.trackAtom.Header.AlternateGroup = 1
-- 
2.43.0


From 98173bf1c4cbc3d38fdaf9d68f68202ca23199b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:37 +0000
Subject: [PATCH 050/120] fix: keep the MP4 streams being written when packets
 of another type come

---
 format/mp4/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 1e20c5a..b143f6d 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -46,6 +46,9 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 		if err != nil {
 			return err
 		}
+		if _, ok := self.streams[cType]; ok {
+			continue
+		}
 		stream := &Stream{Codec: codec}
 
 		stream.sample = &mp4io.SampleTable{
-- 
2.43.0


From f0b60a0154576d0161a63e985d36b1b4c5a05d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 051/120] fix: take MP4 streams from decoder configuration
 packets

---
 format/format.go    | 10 ++++++++++
 format/mp4/muxer.go | 47 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+)

diff --git a/format/format.go b/format/format.go
index 483e306..8f79144 100644
--- a/format/format.go
+++ b/format/format.go
@@ -302,7 +302,17 @@ type StreamsWriteSeeker struct {
 	av.Streamer
 }
 
+// noStreams is for writers that learn the streams from the packets
+type noStreams struct{}
+
+func (noStreams) Streams() ([]interface{}, error) {
+	return nil, nil
+}
+
 func NewStreamsWriteSeeker(w io.WriteSeeker, s av.Streamer) *StreamsWriteSeeker {
+	if s == nil {
+		s = noStreams{}
+	}
 	return &StreamsWriteSeeker{
 		w, s,
 	}
diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index b143f6d..0d4e832 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -2,6 +2,7 @@ package mp4
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"reflect"
 	"time"
@@ -183,6 +184,13 @@ func (self *Muxer) WritePacket(pkt av.Packet) (err error) {
 		return err
 	}
 
+	switch pkt.Type {
+	case av.H264DecoderConfig, av.AACDecoderConfig:
+		return self.writeDecoderConfig(pkt)
+	case av.Metadata:
+		return nil
+	}
+
 	stream, ok := self.streams[pkt.Type]
 	if !ok {
 		streams, err := self.w.Streams()
@@ -207,6 +215,45 @@ func (self *Muxer) WritePacket(pkt av.Packet) (err error) {
 	return
 }
 
+func (self *Muxer) writeDecoderConfig(pkt av.Packet) (err error) {
+	var codec interface{}
+	var cType int
+
+	switch pkt.Type {
+	case av.H264DecoderConfig:
+		cType = av.H264
+		if codec, err = h264.FromDecoderConfig(pkt.Data); err != nil {
+			return
+		}
+	case av.AACDecoderConfig:
+		cType = av.AAC
+		if codec, err = aac.FromMPEG4AudioConfigBytes(pkt.Data); err != nil {
+			return
+		}
+	}
+
+	stream, ok := self.streams[cType]
+	switch {
+	case !ok:
+		return self.addStreams([]interface{}{codec})
+	case stream.lastpkt == nil:
+		stream.Codec = codec
+	case !bytes.Equal(configBytes(stream.Codec), configBytes(codec)):
+		err = fmt.Errorf("mp4: decoder configuration of type=%v changed", cType)
+	}
+	return
+}
+
+func configBytes(codec interface{}) []byte {
+	switch codec := codec.(type) {
+	case *h264.Codec:
+		return codec.ConfigBytes
+	case *aac.Codec:
+		return codec.ConfigBytes
+	}
+	return nil
+}
+
 func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error) {
 	if rawdur < 0 {
 		err = fmt.Errorf("mp4: stream#%v time=%v < lasttime=%v", pkt.Type, pkt.Time, self.lastpkt.Time)
-- 
2.43.0


From 87eb66f29c52c38c91e0012246e00fea367232f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 052/120] fix: close the files of avtool conv

---
 cmd/avtool/conv.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/avtool/conv.go b/cmd/avtool/conv.go
index dbfd342..b56fa6e 100644
--- a/cmd/avtool/conv.go
+++ b/cmd/avtool/conv.go
@@ -41,6 +41,15 @@ func doConv(src, dst string) (err error) {
 		return false
 	}
 
+	defer func() {
+		fr.Close()
+		if fw != nil {
+			if cerr := fw.Close(); err == nil {
+				err = cerr
+			}
+		}
+	}()
+
 	for {
 		var pkt av.Packet
 		if pkt, err = fr.ReadPacket(); err != nil {
-- 
2.43.0


From e433d1a7a340d82c87dc3715cf9236ea6a53908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 053/120] fix: order and next id of MP4 tracks

---
 format/mp4/muxer.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 0d4e832..8bfad10 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/nareix/joy5/av"
@@ -294,8 +295,19 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 	return
 }
 
-func (self *Muxer) WriteTrailer() (err error) {
+// sortedStreams returns the streams by track id
+func (self *Muxer) sortedStreams() (streams []*Stream) {
 	for _, stream := range self.streams {
+		streams = append(streams, stream)
+	}
+	sort.Slice(streams, func(i, j int) bool {
+		return streams[i].trackAtom.Header.TrackId < streams[j].trackAtom.Header.TrackId
+	})
+	return
+}
+
+func (self *Muxer) WriteTrailer() (err error) {
+	for _, stream := range self.sortedStreams() {
 		if stream.lastpkt != nil {
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
 				return
@@ -309,12 +321,12 @@ func (self *Muxer) WriteTrailer() (err error) {
 		PreferredRate:   1,
 		PreferredVolume: 1,
 		Matrix:          [9]int32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000},
-		NextTrackId:     2,
+		NextTrackId:     int32(len(self.streams) + 1),
 	}
 
 	maxDur := time.Duration(0)
 	timeScale := int64(10000)
-	for _, stream := range self.streams {
+	for _, stream := range self.sortedStreams() {
 		if err = stream.fillTrackAtom(); err != nil {
 			return
 		}
-- 
2.43.0


From ff788b9e8947a34b56f8b659fdd2b1ce13fed33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 054/120] fix: write valid MP4 files without packets

---
 format/mp4/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 8bfad10..c2b04bd 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -307,6 +307,9 @@ func (self *Muxer) sortedStreams() (streams []*Stream) {
 }
 
 func (self *Muxer) WriteTrailer() (err error) {
+	if err = self.WriteFileHeader(); err != nil {
+		return
+	}
 	for _, stream := range self.sortedStreams() {
 		if stream.lastpkt != nil {
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
-- 
2.43.0


From df500c25bc86ae271093add12f789ef2aeaa5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 055/120] fix: set the type of packets read from MP4

---
 format/mp4/demuxer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 8b97455..12251c0 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -119,6 +119,7 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 	if pkt, err = chosen.readPacket(); err != nil {
 		return
 	}
+	pkt.Type = chosen.codecType()
 	pkt.Time = tm
 	return
 }
-- 
2.43.0


From c6aa196059e073b4499871f5a3f7a052b55c05e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 056/120] fix: read all streams of an MP4 file to their end

---
 format/mp4/demuxer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 12251c0..8ea6ab8 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -108,10 +108,17 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 
 	var chosen *Stream
 	for _, stream := range self.streams {
+		if !stream.isSampleValid() {
+			continue
+		}
 		if chosen == nil || stream.tsToTime(stream.dts) < chosen.tsToTime(chosen.dts) {
 			chosen = stream
 		}
 	}
+	if chosen == nil {
+		err = io.EOF
+		return
+	}
 	if false {
 		fmt.Printf("ReadPacket: chosen index=%v time=%v\n", chosen.idx, chosen.tsToTime(chosen.dts))
 	}
-- 
2.43.0


From 12c396d522313cb8bdd36f59afa6c3dc1dbc71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 057/120] fix: read MP4 video tracks without keyframes

---
 format/mp4/stream.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 8864db1..80a5b00 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -202,11 +202,6 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SyncSample != nil {
-		if self.syncSampleIndex >= len(self.sample.SyncSample.Entries) {
-			return false
-		}
-	}
 	if self.sample.SampleSize.SampleSize != 0 {
 		if self.sampleIndex >= len(self.sample.SampleSize.Entries) {
 			return false
@@ -307,7 +302,8 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	if self.sample.SyncSample != nil {
-		if self.sample.SyncSample.Entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
+		entries := self.sample.SyncSample.Entries
+		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
 	}
-- 
2.43.0


From d05f1ea3109526c987c847f688a4d74e760bf897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 058/120] fix: all frames of MP4 video tracks without sync
 table are keyframes

---
 format/mp4/stream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 80a5b00..5504b49 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -306,6 +306,8 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
+	} else if IsVideo(self.codecType()) {
+		pkt.IsKeyFrame = true // without the table every frame is one
 	}
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
-- 
2.43.0


From d3702a3bf47a9adf34ffb40ae1060b43e6d95d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 059/120] fix: count MP4 samples by the sample size table

---
 format/mp4/stream.go | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 5504b49..a8c4d91 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -93,6 +93,10 @@ func (self *Stream) tsToTime(ts int64) time.Duration {
 func (self *Stream) setSampleIndex(index int) (err error) {
 	found := false
 	start := 0
+	if index < 0 || index >= self.sampleCount() {
+		err = fmt.Errorf("mp4: stream[%d]: sample index out of range", self.idx)
+		return
+	}
 	self.chunkGroupIndex = 0
 
 	for self.chunkIndex = range self.sample.ChunkOffset.Entries {
@@ -116,10 +120,6 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 	if self.sample.SampleSize.SampleSize != 0 {
 		self.sampleOffsetInChunk = int64(self.sampleIndexInChunk) * int64(self.sample.SampleSize.SampleSize)
 	} else {
-		if index >= len(self.sample.SampleSize.Entries) {
-			err = fmt.Errorf("mp4: stream[%d]: sample index out of range", self.idx)
-			return
-		}
 		self.sampleOffsetInChunk = int64(0)
 		for i := index - self.sampleIndexInChunk; i < index; i++ {
 			self.sampleOffsetInChunk += int64(self.sample.SampleSize.Entries[i])
@@ -202,10 +202,8 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SampleSize.SampleSize != 0 {
-		if self.sampleIndex >= len(self.sample.SampleSize.Entries) {
-			return false
-		}
+	if self.sampleIndex >= self.sampleCount() {
+		return false
 	}
 	return true
 }
@@ -263,18 +261,8 @@ func (self *Stream) incSampleIndex() (duration int64) {
 }
 
 func (self *Stream) sampleCount() int {
-	if self.sample.SampleSize.SampleSize == 0 {
-		chunkGroupIndex := 0
-		count := 0
-		for chunkIndex := range self.sample.ChunkOffset.Entries {
-			n := int(self.sample.SampleToChunk.Entries[chunkGroupIndex].SamplesPerChunk)
-			count += n
-			if chunkGroupIndex+1 < len(self.sample.SampleToChunk.Entries) &&
-				uint32(chunkIndex+1) == self.sample.SampleToChunk.Entries[chunkGroupIndex+1].FirstChunk {
-				chunkGroupIndex++
-			}
-		}
-		return count
+	if self.sample.SampleSize.SampleSize != 0 {
+		return int(self.sample.SampleSize.SampleCount)
 	} else {
 		return len(self.sample.SampleSize.Entries)
 	}
-- 
2.43.0


From add12187f02b2b9f7c9ac753edcbc1b1f60d0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 060/120] fix: refuse MP4 tracks without time scale or sample
 tables

---
 format/mp4/demuxer.go | 16 +++++++++++++++-
 format/mp4/stream.go  |  3 +++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 8ea6ab8..e123808 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -76,7 +76,7 @@ func (self *Demuxer) probe() (err error) {
 			demuxer:   self,
 			idx:       i,
 		}
-		if atrack.Media != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
+		if atrack.Media != nil && atrack.Media.Header != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
 			stream.sample = atrack.Media.Info.Sample
 			stream.timeScale = int64(atrack.Media.Header.TimeScale)
 		} else {
@@ -84,6 +84,11 @@ func (self *Demuxer) probe() (err error) {
 			return
 		}
 
+		if stream.timeScale <= 0 {
+			err = fmt.Errorf("mp4: time scale of track is invalid")
+			return
+		}
+
 		if avc1 := atrack.GetAVC1Conf(); avc1 != nil {
 			if stream.Codec, err = h264.FromDecoderConfig(avc1.Data); err != nil {
 				return
@@ -97,6 +102,15 @@ func (self *Demuxer) probe() (err error) {
 		}
 	}
 
+	for _, stream := range self.streams {
+		sample := stream.sample
+		if sample.TimeToSample == nil || sample.SampleToChunk == nil ||
+			sample.SampleSize == nil || sample.ChunkOffset == nil {
+			err = fmt.Errorf("mp4: sample table is incomplete")
+			return
+		}
+	}
+
 	self.movieAtom = moov
 	return
 }
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index a8c4d91..d290b72 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -104,6 +104,9 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 			uint32(self.chunkIndex+1) == self.sample.SampleToChunk.Entries[self.chunkGroupIndex+1].FirstChunk {
 			self.chunkGroupIndex++
 		}
+		if self.chunkGroupIndex >= len(self.sample.SampleToChunk.Entries) {
+			break
+		}
 		n := int(self.sample.SampleToChunk.Entries[self.chunkGroupIndex].SamplesPerChunk)
 		if index >= start && index < start+n {
 			found = true
-- 
2.43.0


From f032ceb07f8dc967b78a90e0e3ab448d2081b747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 061/120] fix: do not allocate MP4 samples from their announced
 size, report cut samples

---
 format/mp4/demuxer.go | 10 ++++++++--
 format/mp4/stream.go  |  3 +--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index e123808..b5f3c70 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -1,6 +1,7 @@
 package mp4
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"time"
@@ -33,13 +34,18 @@ func (self *Demuxer) Streams() (streams []interface{}, err error) {
 	return
 }
 
-func (self *Demuxer) readat(pos int64, b []byte) (err error) {
+func (self *Demuxer) readat(pos int64, size int64) (b []byte, err error) {
 	if _, err = self.r.Seek(pos, 0); err != nil {
 		return
 	}
-	if _, err = io.ReadFull(self.r, b); err != nil {
+	buf := &bytes.Buffer{} // grows with the data found, size may be wrong
+	if _, err = io.CopyN(buf, self.r, size); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
+	b = buf.Bytes()
 	return
 }
 
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index d290b72..c97bacc 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -287,8 +287,7 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	sampleOffset := int64(chunkOffset) + self.sampleOffsetInChunk
-	pkt.Data = make([]byte, sampleSize)
-	if err = self.demuxer.readat(sampleOffset, pkt.Data); err != nil {
+	if pkt.Data, err = self.demuxer.readat(sampleOffset, int64(sampleSize)); err != nil {
 		return
 	}
 
-- 
2.43.0


From 35a104caa9c7b1aff88fbf485c3cbbd623868bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 062/120] fix: seek to the MP4 keyframe at the target

---
 format/mp4/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index c97bacc..f7be8cf 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -352,7 +352,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	if self.sample.SyncSample != nil {
 		entries := self.sample.SyncSample.Entries
 		for i := len(entries) - 1; i >= 0; i-- {
-			if entries[i]-1 < uint32(targetIndex) {
+			if entries[i]-1 <= uint32(targetIndex) {
 				targetIndex = int(entries[i] - 1)
 				break
 			}
-- 
2.43.0


From df4019d7d1bb8cb61d740225c9c2bc3067884bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 063/120] fix: seek in MP4 tracks with long runs of equal
 durations

---
 format/mp4/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index f7be8cf..6831f98 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -332,7 +332,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	endIndex := 0
 	found := false
 	for _, entry := range self.sample.TimeToSample.Entries {
-		endTs = startTs + int64(entry.Count*entry.Duration)
+		endTs = startTs + int64(entry.Count)*int64(entry.Duration)
 		endIndex = startIndex + int(entry.Count)
 		if targetTs >= startTs && targetTs < endTs {
 			targetIndex = startIndex + int((targetTs-startTs)/int64(entry.Duration))
-- 
2.43.0


From ec82e9110433a4dd0411d8d81960ae9951665890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 064/120] fix: seek MP4 files that have an empty track

---
 format/mp4/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 6831f98..0850d6a 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -312,6 +312,9 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 }
 
 func (self *Stream) seekToTime(tm time.Duration) (err error) {
+	if self.sampleCount() == 0 {
+		return
+	}
 	index := self.timeToSampleIndex(tm)
 	if err = self.setSampleIndex(index); err != nil {
 		return
-- 
2.43.0


From 11c825d118c590566cd3c7290bab272c49333402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 065/120] fix: negative composition offsets in MP4

---
 format/mp4/muxer.go  | 3 +++
 format/mp4/stream.go | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index c2b04bd..6be8bf3 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -278,6 +278,9 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 
 	if self.sample.CompositionOffset != nil {
 		offset := uint32(self.timeToTs(pkt.CTime))
+		if pkt.CTime < 0 {
+			self.sample.CompositionOffset.Version = 1
+		}
 		if self.cttsEntry == nil || offset != self.cttsEntry.Offset {
 			table := self.sample.CompositionOffset
 			table.Entries = append(table.Entries, mp4io.CompositionOffsetEntry{Offset: offset})
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 0850d6a..7f60f76 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -302,7 +302,11 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
 	if self.sample.CompositionOffset != nil && len(self.sample.CompositionOffset.Entries) > 0 {
-		cts := int64(self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset)
+		offset := self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset
+		cts := int64(offset)
+		if self.sample.CompositionOffset.Version != 0 {
+			cts = int64(int32(offset))
+		}
 		pkt.CTime = self.tsToTime(cts)
 	}
 
-- 
2.43.0


From 3d330b35d96e0543976e7ba76e1ce51a5e1b3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 066/120] fix: MP4 times of more than a day

---
 format/mp4/stream.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 7f60f76..070ee19 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -75,19 +75,22 @@ func IsVideo(t int) bool {
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-	return int64(tm * time.Duration(timeScale) / time.Second)
+	// whole seconds apart, the product overflows after a day
+	sec, rem := tm/time.Second, tm%time.Second
+	return int64(sec)*timeScale + int64(rem)*timeScale/int64(time.Second)
 }
 
 func tsToTime(ts int64, timeScale int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(timeScale)
+	sec, rem := ts/timeScale, ts%timeScale
+	return time.Duration(sec)*time.Second + time.Duration(rem)*time.Second/time.Duration(timeScale)
 }
 
 func (self *Stream) timeToTs(tm time.Duration) int64 {
-	return int64(tm * time.Duration(self.timeScale) / time.Second)
+	return timeToTs(tm, self.timeScale)
 }
 
 func (self *Stream) tsToTime(ts int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(self.timeScale)
+	return tsToTime(ts, self.timeScale)
 }
 
 func (self *Stream) setSampleIndex(index int) (err error) {
-- 
2.43.0


From c514acfdee341c0246b7f46b08ee4f4ef2ee4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 067/120] fix: drift of MP4 sample times

---
 format/mp4/muxer.go  | 6 +++++-
 format/mp4/stream.go | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 6be8bf3..558a5c5 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -212,6 +212,9 @@ func (self *Muxer) WritePacket(pkt av.Packet) (err error) {
 			return
 		}
 	}
+	if stream.lastpkt == nil {
+		stream.firstTime = pkt.Time
+	}
 	stream.lastpkt = &pkt
 	return
 }
@@ -269,7 +272,8 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		self.sample.SyncSample.Entries = append(self.sample.SyncSample.Entries, uint32(self.sampleIndex+1))
 	}
 
-	duration := uint32(self.timeToTs(rawdur))
+	// from the first packet, so that rounding does not add up
+	duration := uint32(self.timeToTs(pkt.Time+rawdur-self.firstTime) - self.duration)
 	if self.sttsEntry == nil || duration != self.sttsEntry.Duration {
 		self.sample.TimeToSample.Entries = append(self.sample.TimeToSample.Entries, mp4io.TimeToSampleEntry{Duration: duration})
 		self.sttsEntry = &self.sample.TimeToSample.Entries[len(self.sample.TimeToSample.Entries)-1]
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 070ee19..07eaf8e 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -19,7 +19,8 @@ type Stream struct {
 	trackAtom *mp4io.Track
 	idx       int
 
-	lastpkt *av.Packet
+	lastpkt   *av.Packet
+	firstTime time.Duration
 
 	timeScale int64
 	duration  int64
-- 
2.43.0


From 5e184d0e16a3e1d9745cca0b6e2a99095d7250c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 068/120] fix: seek to the MP4 sample that starts at the target

---
 format/mp4/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 07eaf8e..7b272dc 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -335,6 +335,9 @@ func (self *Stream) seekToTime(tm time.Duration) (err error) {
 
 func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	targetTs := self.timeToTs(tm)
+	if self.tsToTime(targetTs+1) <= tm { // the times of samples are rounded down
+		targetTs++
+	}
 	targetIndex := 0
 
 	startTs := int64(0)
-- 
2.43.0


From ad8d16a9518529523eeaac24002b5bd12c40aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 069/120] fix: refuse MP4 recordings that exceed the 32-bit
 tables

---
 format/mp4/muxer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 558a5c5..12272e2 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"time"
@@ -207,6 +208,15 @@ func (self *Muxer) WritePacket(pkt av.Packet) (err error) {
 	if !ok {
 		return errors.Errorf("Unsuported stream for packet type:%v", pkt.Type)
 	}
+	size := self.wpos + int64(len(pkt.Data))
+	for _, s := range self.streams {
+		if s.lastpkt != nil {
+			size += int64(len(s.lastpkt.Data))
+		}
+	}
+	if size > math.MaxUint32 {
+		return errors.Errorf("mp4: the file would exceed 4 GB")
+	}
 	if stream.lastpkt != nil {
 		if err = stream.writePacket(*stream.lastpkt, pkt.Time-stream.lastpkt.Time); err != nil {
 			return
@@ -264,6 +274,14 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		return
 	}
 
+	// from the first packet, so that rounding does not add up
+	ticks := self.timeToTs(pkt.Time+rawdur-self.firstTime) - self.duration
+	if ticks > math.MaxUint32 {
+		err = fmt.Errorf("mp4: stream#%v duration of packet time=%v is too long", pkt.Type, pkt.Time)
+		return
+	}
+	duration := uint32(ticks)
+
 	if _, err = self.muxer.bufw.Write(pkt.Data); err != nil {
 		return
 	}
@@ -272,8 +290,6 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		self.sample.SyncSample.Entries = append(self.sample.SyncSample.Entries, uint32(self.sampleIndex+1))
 	}
 
-	// from the first packet, so that rounding does not add up
-	duration := uint32(self.timeToTs(pkt.Time+rawdur-self.firstTime) - self.duration)
 	if self.sttsEntry == nil || duration != self.sttsEntry.Duration {
 		self.sample.TimeToSample.Entries = append(self.sample.TimeToSample.Entries, mp4io.TimeToSampleEntry{Duration: duration})
 		self.sttsEntry = &self.sample.TimeToSample.Entries[len(self.sample.TimeToSample.Entries)-1]
-- 
2.43.0


From de689216dbb3dfeb71ddf6a3b195fa30e67a99df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 070/120] fix: MP4 handler names start after 12 reserved bytes

---
 format/mp4/muxer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 12272e2..f44e81b 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -132,7 +132,7 @@ func (self *Stream) fillTrackAtom() (err error) {
 		}
 		self.trackAtom.Media.Handler = &mp4io.HandlerRefer{
 			SubType: [4]byte{'v', 'i', 'd', 'e'},
-			Name:    []byte("Video Media Handler"),
+			Name:    handlerName("Video Media Handler"),
 		}
 		self.trackAtom.Media.Info.Video = &mp4io.VideoMediaInfo{
 			Flags: 0x000001,
@@ -154,7 +154,7 @@ func (self *Stream) fillTrackAtom() (err error) {
 		self.trackAtom.Header.AlternateGroup = 1
 		self.trackAtom.Media.Handler = &mp4io.HandlerRefer{
 			SubType: [4]byte{'s', 'o', 'u', 'n'},
-			Name:    []byte("Sound Handler"),
+			Name:    handlerName("Sound Handler"),
 		}
 		self.trackAtom.Media.Info.Sound = &mp4io.SoundMediaInfo{}
 
@@ -165,6 +165,12 @@ func (self *Stream) fillTrackAtom() (err error) {
 	return
 }
 
+// handlerName is what follows the handler type in a hdlr box: 12 reserved
+// bytes and the name, ended by a zero byte.
+func handlerName(name string) []byte {
+	return append(append(make([]byte, 12), name...), 0)
+}
+
 func (self *Muxer) WriteFileHeader() (err error) {
 	if self.fileHdrWritten {
 		return
-- 
2.43.0


From 292297f79ed42da07c725ffbd3657f75c02ca3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 071/120] fix: empty runs in MP4 time and composition tables

---
 format/mp4/demuxer.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index b5f3c70..e25d7a4 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -115,12 +115,34 @@ func (self *Demuxer) probe() (err error) {
 			err = fmt.Errorf("mp4: sample table is incomplete")
 			return
 		}
+		dropEmptyRuns(sample)
 	}
 
 	self.movieAtom = moov
 	return
 }
 
+// dropEmptyRuns removes the entries for no samples, which say nothing.
+func dropEmptyRuns(sample *mp4io.SampleTable) {
+	stts := sample.TimeToSample.Entries[:0]
+	for _, entry := range sample.TimeToSample.Entries {
+		if entry.Count != 0 {
+			stts = append(stts, entry)
+		}
+	}
+	sample.TimeToSample.Entries = stts
+
+	if sample.CompositionOffset != nil {
+		ctts := sample.CompositionOffset.Entries[:0]
+		for _, entry := range sample.CompositionOffset.Entries {
+			if entry.Count != 0 {
+				ctts = append(ctts, entry)
+			}
+		}
+		sample.CompositionOffset.Entries = ctts
+	}
+}
+
 func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 	if err = self.probe(); err != nil {
 		return
-- 
2.43.0


From ff63f369d383e6ccc63f1e2a59021ef441cad4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 072/120] fix: seek MP4 files with an empty video track

---
 format/mp4/demuxer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index e25d7a4..09497cd 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -191,7 +191,9 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-			tm = stream.tsToTime(stream.dts)
+			if stream.sampleCount() > 0 {
+				tm = stream.tsToTime(stream.dts)
+			}
 			break
 		}
 	}
-- 
2.43.0


From f2a6d3b8cd7ac376d232a83b4c7792e39c52c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 073/120] fix: seek to the MP4 sample at the target for any
 target and time scale

---
 format/mp4/stream.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 7b272dc..5ac435e 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -3,6 +3,7 @@ package mp4
 import (
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"time"
 
@@ -334,9 +335,12 @@ func (self *Stream) seekToTime(tm time.Duration) (err error) {
 }
 
 func (self *Stream) timeToSampleIndex(tm time.Duration) int {
-	targetTs := self.timeToTs(tm)
-	if self.tsToTime(targetTs+1) <= tm { // the times of samples are rounded down
-		targetTs++
+	targetTs := int64(-1)
+	if sec, rem := int64(tm/time.Second), int64(tm%time.Second); sec > math.MaxInt64/self.timeScale-1 {
+		targetTs = math.MaxInt64
+	} else if tm >= 0 {
+		// the last one whose time, rounded down, is not after tm
+		targetTs = sec*self.timeScale + ((rem+1)*self.timeScale-1)/int64(time.Second)
 	}
 	targetIndex := 0
 
-- 
2.43.0


From 439d87d7c4b98554522c9e68ea63869863863373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 074/120] fix: parse SDP attributes by their name, payload type
 and media

---
 format/rtsp/sdp/parser.go | 132 ++++++++++++++++++++------------------
 1 file changed, 69 insertions(+), 63 deletions(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index fa701aa..34c97f4 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -3,7 +3,6 @@ package sdp
 import (
 	"encoding/base64"
 	"encoding/hex"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -38,15 +37,14 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			switch typeval[0] {
 			case "m":
-				if len(fields) > 0 {
-					switch fields[0] {
-					case "audio", "video":
-						medias = append(medias, Media{AVType: fields[0]})
-						media = &medias[len(medias)-1]
-						mfields := strings.Split(fields[1], " ")
-						if len(mfields) >= 3 {
-							media.PayloadType, _ = strconv.Atoi(mfields[2])
-						}
+				media = nil // attributes of other media are not of the last one
+				switch fields[0] {
+				case "audio", "video":
+					medias = append(medias, Media{AVType: fields[0]})
+					media = &medias[len(medias)-1]
+					mfields := strings.Split(typeval[1], " ")
+					if len(mfields) >= 4 {
+						media.PayloadType, _ = strconv.Atoi(mfields[3])
 					}
 				}
 
@@ -55,59 +53,7 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			case "a":
 				if media != nil {
-					for _, field := range fields {
-						keyval := strings.SplitN(field, ":", 2)
-						if len(keyval) >= 2 {
-							key := keyval[0]
-							val := keyval[1]
-							switch key {
-							case "control":
-								media.Control = val
-							case "rtpmap":
-								media.Rtpmap, _ = strconv.Atoi(val)
-							}
-						}
-						keyval = strings.Split(field, "/")
-						if len(keyval) >= 2 {
-							key := keyval[0]
-							switch strings.ToUpper(key) {
-							case "MPEG4-GENERIC":
-								media.Type = av.AAC
-							case "H264":
-								media.Type = av.H264
-							}
-							if i, err := strconv.Atoi(keyval[1]); err == nil {
-								media.TimeScale = i
-							}
-							if false {
-								fmt.Println("sdp:", keyval[1], media.TimeScale)
-							}
-						}
-						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
-							for _, field := range keyval {
-								keyval := strings.SplitN(field, "=", 2)
-								if len(keyval) == 2 {
-									key := strings.TrimSpace(keyval[0])
-									val := keyval[1]
-									switch key {
-									case "config":
-										media.Config, _ = hex.DecodeString(val)
-									case "sizelength":
-										media.SizeLength, _ = strconv.Atoi(val)
-									case "indexlength":
-										media.IndexLength, _ = strconv.Atoi(val)
-									case "sprop-parameter-sets":
-										fields := strings.Split(val, ",")
-										for _, field := range fields {
-											val, _ := base64.StdEncoding.DecodeString(field)
-											media.SpropParameterSets = append(media.SpropParameterSets, val)
-										}
-									}
-								}
-							}
-						}
-					}
+					parseAttribute(media, typeval[1])
 				}
 
 			}
@@ -115,3 +61,63 @@ func Parse(content string) (sess Session, medias []Media) {
 	}
 	return
 }
+
+func parseAttribute(media *Media, attr string) {
+	keyval := strings.SplitN(attr, ":", 2)
+	if len(keyval) < 2 {
+		return
+	}
+	val := keyval[1]
+	// the payload type and what is said about it
+	fields := strings.SplitN(val, " ", 2)
+
+	switch keyval[0] {
+	case "control":
+		media.Control = val
+
+	case "rtpmap":
+		payloadType, _ := strconv.Atoi(fields[0])
+		if len(fields) < 2 || payloadType != media.PayloadType {
+			return
+		}
+		media.Rtpmap = payloadType
+		encoding := strings.Split(strings.TrimSpace(fields[1]), "/")
+		switch strings.ToUpper(encoding[0]) {
+		case "MPEG4-GENERIC":
+			media.Type = av.AAC
+		case "H264":
+			media.Type = av.H264
+		}
+		if len(encoding) >= 2 {
+			if i, err := strconv.Atoi(encoding[1]); err == nil {
+				media.TimeScale = i
+			}
+		}
+
+	case "fmtp":
+		payloadType, _ := strconv.Atoi(fields[0])
+		if len(fields) < 2 || payloadType != media.PayloadType {
+			return
+		}
+		for _, field := range strings.Split(fields[1], ";") {
+			keyval := strings.SplitN(field, "=", 2)
+			if len(keyval) == 2 {
+				key := strings.ToLower(strings.TrimSpace(keyval[0]))
+				val := strings.TrimSpace(keyval[1])
+				switch key {
+				case "config":
+					media.Config, _ = hex.DecodeString(val)
+				case "sizelength":
+					media.SizeLength, _ = strconv.Atoi(val)
+				case "indexlength":
+					media.IndexLength, _ = strconv.Atoi(val)
+				case "sprop-parameter-sets":
+					for _, field := range strings.Split(val, ",") {
+						val, _ := base64.StdEncoding.DecodeString(field)
+						media.SpropParameterSets = append(media.SpropParameterSets, val)
+					}
+				}
+			}
+		}
+	}
+}
-- 
2.43.0


From ec9ca46dee8998e666931586c1ff76425f5a5866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 075/120] fix: skip RTSP blocks that are too short or of no
 known channel

---
 format/rtsp/client.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 978fdcf..03b5651 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -387,11 +387,35 @@ func (self *Client) findRTSP() (block []byte, data []byte, err error) {
 			return
 		}
 
+		if stat == Dollar && i == 3 && len(peek) == 4 {
+			// where a block is due its length is right, whatever it carries
+			blocklen := int(peek[2])<<8 | int(peek[3])
+			if blocklen >= 8 {
+				var rtphdr []byte
+				if rtphdr, err = self.brconn.Peek(8); err != nil {
+					return
+				}
+				if _, _, ok := self.parseBlockHeader(append(peek, rtphdr...)); ok {
+					block = make([]byte, 4+blocklen)
+					copy(block, peek)
+					_, err = io.ReadFull(self.brconn, block[4:])
+					return
+				}
+			}
+			if _, err = self.brconn.Discard(blocklen); err != nil {
+				return
+			}
+			i = -1
+			stat = 0
+			peek = _peek[0:0]
+			continue
+		}
+
 		if stat == Dollar && len(peek) >= 12 {
 			if self.DebugRtp {
 				fmt.Println("rtsp: dollar at", i, len(peek))
 			}
-			if blocklen, _, ok := self.parseBlockHeader(peek); ok {
+			if blocklen, _, ok := self.parseBlockHeader(peek); ok && blocklen >= 8 {
 				left := blocklen + 4 - len(peek)
 				block = append(peek, make([]byte, left)...)
 				if _, err = io.ReadFull(self.brconn, block[len(peek):]); err != nil {
-- 
2.43.0


From 3b741fc31abbf61bb2f8363401c903f96a56fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 076/120] fix: do not allocate RTSP bodies from their announced
 length

---
 format/rtsp/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 03b5651..e96b297 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -488,10 +488,11 @@ func (self *Client) readResp(b []byte) (res Response, err error) {
 	}
 	res.ContentLength, _ = strconv.Atoi(res.Headers.Get("Content-Length"))
 	if res.ContentLength > 0 {
-		res.Body = make([]byte, res.ContentLength)
-		if _, err = io.ReadFull(self.brconn, res.Body); err != nil {
+		body := &bytes.Buffer{} // grows with what comes, the length may be wrong
+		if _, err = io.CopyN(body, self.brconn, int64(res.ContentLength)); err != nil {
 			return
 		}
+		res.Body = body.Bytes()
 	}
 	if err = self.handleResp(&res); err != nil {
 		return
-- 
2.43.0


From 28261d3ad07b394ee47987bd4ad7c614790ab789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 077/120] fix: RTP header extensions and padding

---
 format/rtsp/client.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index e96b297..6568c65 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -988,6 +988,26 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	timestamp := binary.BigEndian.Uint32(packet[4:8])
 	payload := packet[payloadOffset:]
 
+	if packet[0]&0x10 != 0 { // header extension
+		if len(payload) < 4 {
+			err = fmt.Errorf("rtp: packet too short")
+			return
+		}
+		extlen := 4 + int(binary.BigEndian.Uint16(payload[2:4]))*4
+		if extlen > len(payload) {
+			err = fmt.Errorf("rtp: packet too short")
+			return
+		}
+		payload = payload[extlen:]
+	}
+	if packet[0]&0x20 != 0 { // padding, the last byte tells its length
+		if len(payload) == 0 || int(payload[len(payload)-1]) > len(payload) {
+			err = fmt.Errorf("rtp: padding invalid")
+			return
+		}
+		payload = payload[:len(payload)-int(payload[len(payload)-1])]
+	}
+
 	/*
 		PT 	Encoding Name 	Audio/Video (A/V) 	Clock Rate (Hz) 	Channels 	Reference
 		0	PCMU	A	8000	1	[RFC3551]
-- 
2.43.0


From e37112d1e4dd1e67e1f67e437fba5aacdcbc77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:22 +0000
Subject: [PATCH 078/120] fix: in-band H.264 parameter sets are not undone by
 the ones of the SDP

---
 format/rtsp/client.go | 81 +++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 6568c65..b76692f 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -720,23 +720,20 @@ func (self *Stream) makeCodec() (err error) {
 	if media.PayloadType >= 96 && media.PayloadType <= 127 {
 		switch media.Type {
 		case av.H264:
-			for _, nalu := range media.SpropParameterSets {
-				if len(nalu) > 0 {
-					self.handleH264Payload(0, nalu)
+			if self.Codec == nil { // from then on the ones in the stream count
+				for _, nalu := range media.SpropParameterSets {
+					self.handleParameterSet(nalu)
 				}
-			}
 
-			if len(self.sps) == 0 || len(self.pps) == 0 {
-				if nalus, typ := h264.SplitNALUs(media.Config); typ != h264.NALU_RAW {
-					for _, nalu := range nalus {
-						if len(nalu) > 0 {
-							self.handleH264Payload(0, nalu)
+				if len(self.sps) == 0 || len(self.pps) == 0 {
+					if nalus, typ := h264.SplitNALUs(media.Config); typ != h264.NALU_RAW {
+						for _, nalu := range nalus {
+							self.handleParameterSet(nalu)
 						}
 					}
 				}
-			}
 
-			if self.Codec == nil {
+				self.clearCodecChange()
 				self.Codec = h264.NewCodec()
 			}
 
@@ -761,6 +758,40 @@ func (self *Stream) makeCodec() (err error) {
 	return
 }
 
+func (self *Stream) handleParameterSet(packet []byte) {
+	if len(packet) < 2 {
+		return
+	}
+	switch packet[0] & 0x1f {
+	case 7:
+		if self.client != nil && self.client.DebugRtp {
+			fmt.Println("rtsp: got sps")
+		}
+		if len(self.sps) == 0 {
+			self.sps = packet
+		} else if bytes.Compare(self.sps, packet) != 0 {
+			self.spsChanged = true
+			self.sps = packet
+			if self.client != nil && self.client.DebugRtp {
+				fmt.Println("rtsp: sps changed")
+			}
+		}
+	case 8:
+		if self.client != nil && self.client.DebugRtp {
+			fmt.Println("rtsp: got pps")
+		}
+		if len(self.pps) == 0 {
+			self.pps = packet
+		} else if bytes.Compare(self.pps, packet) != 0 {
+			self.ppsChanged = true
+			self.pps = packet
+			if self.client != nil && self.client.DebugRtp {
+				fmt.Println("rtsp: pps changed")
+			}
+		}
+	}
+}
+
 func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err error) {
 	if len(packet) < 2 {
 		err = fmt.Errorf("rtp: h264 packet too short")
@@ -803,32 +834,8 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 		self.pkt.Data = b
 		self.timestamp = timestamp
 
-	case naluType == 7: // sps
-		if self.client != nil && self.client.DebugRtp {
-			fmt.Println("rtsp: got sps")
-		}
-		if len(self.sps) == 0 {
-			self.sps = packet
-		} else if bytes.Compare(self.sps, packet) != 0 {
-			self.spsChanged = true
-			self.sps = packet
-			if self.client != nil && self.client.DebugRtp {
-				fmt.Println("rtsp: sps changed")
-			}
-		}
-	case naluType == 8: // pps
-		if self.client != nil && self.client.DebugRtp {
-			fmt.Println("rtsp: got pps")
-		}
-		if len(self.pps) == 0 {
-			self.pps = packet
-		} else if bytes.Compare(self.pps, packet) != 0 {
-			self.ppsChanged = true
-			self.pps = packet
-			if self.client != nil && self.client.DebugRtp {
-				fmt.Println("rtsp: pps changed")
-			}
-		}
+	case naluType == 7, naluType == 8: // sps, pps
+		self.handleParameterSet(packet)
 
 	case naluType == 28: // FU-A
 		/*
-- 
2.43.0


From da3e04a0ec32f77bef6f0c0f2365a71eec977174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 079/120] fix: RTP packets with several slices, streams that
 start at timestamp zero or last over 13 hours

---
 format/rtsp/client.go | 86 +++++++++++++++++++++----------------------
 format/rtsp/stream.go |  9 +++--
 2 files changed, 46 insertions(+), 49 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index b76692f..d5003f0 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -61,6 +61,7 @@ type Client struct {
 	requestUri string
 	cseq       uint
 	streams    []*Stream
+	pkts       []av.Packet // to be read
 	session    string
 	body       io.Reader
 }
@@ -222,11 +223,11 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 		}
 
 		timestamp := binary.BigEndian.Uint32(h[8:12])
-		if stream.firsttimestamp != 0 {
-			timestamp -= stream.firsttimestamp
-			if timestamp < stream.timestamp {
+		if stream.started {
+			delta := int32(timestamp - stream.timestamp)
+			if delta < 0 {
 				return
-			} else if timestamp-stream.timestamp > uint32(stream.timeScale()*60*60) {
+			} else if int64(delta) > int64(stream.timeScale())*60*60 {
 				return
 			}
 		}
@@ -823,16 +824,11 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 	*/
 	switch {
 	case naluType >= 1 && naluType <= 5:
-		if naluType == 5 {
-			self.pkt.IsKeyFrame = true
-		}
-		self.gotpkt = true
 		// raw nalu to avcc
 		b := make([]byte, 4+len(packet))
 		pio.PutU32BE(b[0:4], uint32(len(packet)))
 		copy(b[4:], packet)
-		self.pkt.Data = b
-		self.timestamp = timestamp
+		self.addPacket(timestamp, av.Packet{IsKeyFrame: naluType == 5, Data: b})
 
 	case naluType == 7, naluType == 8: // sps, pps
 		self.handleParameterSet(packet)
@@ -1059,8 +1055,6 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	*/
 	//payloadType := packet[1]&0x7f
 
-	self.pkt.Type = self.Sdp.Type
-
 	switch self.Sdp.Type {
 	case av.H264:
 		if err = self.handleH264Payload(timestamp, payload); err != nil {
@@ -1073,14 +1067,10 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 			return
 		}
 		payload = payload[4:] // TODO: remove this hack
-		self.gotpkt = true
-		self.pkt.Data = payload
-		self.timestamp = timestamp
+		self.addPacket(timestamp, av.Packet{Data: payload})
 
 	default:
-		self.gotpkt = true
-		self.pkt.Data = payload
-		self.timestamp = timestamp
+		self.addPacket(timestamp, av.Packet{Data: payload})
 	}
 
 	if err = self.makeCodec(); err != nil {
@@ -1122,7 +1112,23 @@ func (self *Client) Close() (err error) {
 	return self.conn.Conn.Close()
 }
 
-func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error) {
+// addPacket adds a packet whose time is the one of an RTP packet.
+func (self *Stream) addPacket(timestamp uint32, pkt av.Packet) {
+	if !self.started {
+		self.started = true
+		self.timestamp = timestamp
+	}
+	self.elapsed += int64(int32(timestamp - self.timestamp))
+	self.timestamp = timestamp
+
+	pkt.Type = self.Sdp.Type
+	timeScale := int64(self.timeScale())
+	sec, rem := self.elapsed/timeScale, self.elapsed%timeScale
+	pkt.Time = time.Duration(sec)*time.Second + time.Duration(rem)*time.Second/time.Duration(timeScale)
+	self.pkts = append(self.pkts, pkt)
+}
+
+func (self *Client) handleBlock(block []byte) (err error) {
 	_, blockno, _ := self.parseBlockHeader(block)
 	if blockno%2 != 0 {
 		if self.DebugRtp {
@@ -1146,23 +1152,15 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 		}
 	}
 
-	if stream.gotpkt {
-		/*
-			TODO: sync AV by rtcp NTP timestamp
-			TODO: handle timestamp overflow
-			https://tools.ietf.org/html/rfc3550
-			A receiver can then synchronize presentation of the audio and video packets by relating
-			their RTP timestamps using the timestamp pairs in RTCP SR packets.
-		*/
-		if stream.firsttimestamp == 0 {
-			stream.firsttimestamp = stream.timestamp
-		}
-		stream.timestamp -= stream.firsttimestamp
-
-		ok = true
-		pkt = stream.pkt
-		pkt.Time = time.Duration(stream.timestamp) * time.Second / time.Duration(stream.timeScale())
-
+	/*
+		TODO: sync AV by rtcp NTP timestamp
+		https://tools.ietf.org/html/rfc3550
+		A receiver can then synchronize presentation of the audio and video packets by relating
+		their RTP timestamps using the timestamp pairs in RTCP SR packets.
+	*/
+	pkts := stream.pkts
+	stream.pkts = nil
+	for _, pkt := range pkts {
 		if pkt.Time < stream.lasttime || pkt.Time-stream.lasttime > time.Minute*30 {
 			err = fmt.Errorf("rtp: time invalid  time=%v lasttime=%v", pkt.Time, stream.lasttime)
 			return
@@ -1172,9 +1170,7 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 		if self.DebugRtp {
 			fmt.Println("rtp: pktout", pkt.Time, len(pkt.Data))
 		}
-
-		stream.pkt = av.Packet{}
-		stream.gotpkt = false
+		self.pkts = append(self.pkts, pkt)
 	}
 
 	return
@@ -1185,7 +1181,7 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 		return
 	}
 
-	for {
+	for len(self.pkts) == 0 {
 		var res Response
 		for {
 			if res, err = self.poll(); err != nil {
@@ -1196,14 +1192,14 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 			}
 		}
 
-		var ok bool
-		if pkt, ok, err = self.handleBlock(res.Block); err != nil {
-			return
-		}
-		if ok {
+		if err = self.handleBlock(res.Block); err != nil {
 			return
 		}
 	}
+
+	pkt = self.pkts[0]
+	self.pkts = self.pkts[1:]
+	return
 }
 
 func (self *Client) ReadPacket() (pkt av.Packet, err error) {
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 8444e1b..4e478b4 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -20,10 +20,11 @@ type Stream struct {
 	spsChanged bool
 	ppsChanged bool
 
-	gotpkt         bool
-	pkt            av.Packet
-	timestamp      uint32
-	firsttimestamp uint32
+	pkts []av.Packet // of the RTP packet being handled
+
+	started   bool
+	timestamp uint32 // of the last packet out
+	elapsed   int64  // since the first one
 
 	lasttime time.Duration
 }
-- 
2.43.0


From 09b5c72190135d32db6feee3740323abb1daddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 080/120] fix: drop fragmented H.264 units when RTP packets are
 lost

---
 format/rtsp/client.go | 7 +++++++
 format/rtsp/stream.go | 1 +
 2 files changed, 8 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index d5003f0..ea441ab 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -991,6 +991,13 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	timestamp := binary.BigEndian.Uint32(packet[4:8])
 	payload := packet[payloadOffset:]
 
+	// a fragmented unit is lost with any of its fragments
+	seq := binary.BigEndian.Uint16(packet[2:4])
+	if seq != self.fuSeq {
+		self.fuStarted = false
+	}
+	self.fuSeq = seq + 1
+
 	if packet[0]&0x10 != 0 { // header extension
 		if len(payload) < 4 {
 			err = fmt.Errorf("rtp: packet too short")
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 4e478b4..98d5d67 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -14,6 +14,7 @@ type Stream struct {
 
 	// h264
 	fuStarted  bool
+	fuSeq      uint16 // the RTP packet that goes on with it
 	fuBuffer   []byte
 	sps        []byte
 	pps        []byte
-- 
2.43.0


From e680ed8de169b7ecab718cf98d6deab80b95ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 081/120] fix: H.264 NAL units of one byte in RTP

---
 format/rtsp/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index ea441ab..07e14bc 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -794,7 +794,7 @@ func (self *Stream) handleParameterSet(packet []byte) {
 }
 
 func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err error) {
-	if len(packet) < 2 {
+	if len(packet) == 0 {
 		err = fmt.Errorf("rtp: h264 packet too short")
 		return
 	}
@@ -882,6 +882,10 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			Type: 5 bits
 			The NAL unit payload type as defined in table 7-1 of [1].
 		*/
+		if len(packet) < 2 {
+			err = fmt.Errorf("rtp: h264 packet too short")
+			return
+		}
 		fuIndicator := packet[0]
 		fuHeader := packet[1]
 		isStart := fuHeader&0x80 != 0
-- 
2.43.0


From 89aa040b39bcc22773407d65a1a1fc05b67cf9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 082/120] fix: refuse nested H.264 RTP packetization

---
 format/rtsp/client.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 07e14bc..60db343 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -890,6 +890,10 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 		fuHeader := packet[1]
 		isStart := fuHeader&0x80 != 0
 		isEnd := fuHeader&0x40 != 0
+		if fuType := fuHeader & 0x1f; fuType == 0 || fuType > 23 {
+			err = fmt.Errorf("rtsp: unsupported H264 naluType=%d in fragments", fuType)
+			return
+		}
 		if isStart {
 			self.fuStarted = true
 			self.fuBuffer = []byte{fuIndicator&0xe0 | fuHeader&0x1f}
@@ -933,6 +937,12 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			if size+2 > len(packet) {
 				break
 			}
+			if size > 0 {
+				if naluType := packet[2] & 0x1f; naluType == 24 || naluType == 28 {
+					err = fmt.Errorf("rtsp: unsupported H264 naluType=%d in aggregation packet", naluType)
+					return
+				}
+			}
 			if err = self.handleH264Payload(timestamp, packet[2:size+2]); err != nil {
 				return
 			}
-- 
2.43.0


From eef6a358db5b473bec2ffdef9edda49012b3c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 083/120] fix: do not lose the RTP packet after an RTSP codec
 change

---
 format/rtsp/client.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 60db343..b83650b 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -62,6 +62,9 @@ type Client struct {
 	cseq       uint
 	streams    []*Stream
 	pkts       []av.Packet // to be read
+
+	changeBlock []byte // came after a codec change
+
 	session    string
 	body       io.Reader
 }
@@ -1166,6 +1169,11 @@ func (self *Client) handleBlock(block []byte) (err error) {
 	stream := self.streams[i]
 
 	herr := stream.handleRtpPacket(block[4:])
+	if herr == ErrCodecChange {
+		self.changeBlock = block // goes on with it after HandleCodecChange()
+		err = herr
+		return
+	}
 	if herr != nil {
 		if !self.SkipErrRtpBlock {
 			err = herr
@@ -1203,17 +1211,17 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 	}
 
 	for len(self.pkts) == 0 {
-		var res Response
-		for {
+		block := self.changeBlock
+		self.changeBlock = nil
+		for len(block) == 0 {
+			var res Response
 			if res, err = self.poll(); err != nil {
 				return
 			}
-			if len(res.Block) > 0 {
-				break
-			}
+			block = res.Block
 		}
 
-		if err = self.handleBlock(res.Block); err != nil {
+		if err = self.handleBlock(block); err != nil {
 			return
 		}
 	}
-- 
2.43.0


From 5e73b1070f917a0db1dfb45e90acf3f6eab9fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:47 +0000
Subject: [PATCH 084/120] fix: AAC access units in RTP packets

---
 format/rtsp/client.go | 72 +++++++++++++++++++++++++++++++++++++------
 format/rtsp/stream.go | 15 ++++-----
 2 files changed, 71 insertions(+), 16 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index b83650b..6715624 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -65,8 +65,8 @@ type Client struct {
 
 	changeBlock []byte // came after a codec change
 
-	session    string
-	body       io.Reader
+	session string
+	body    io.Reader
 }
 
 type Request struct {
@@ -967,6 +967,55 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 	return
 }
 
+// handleAACPayload handles one or several access units, or a fragment of one.
+// https://tools.ietf.org/html/rfc3640
+func (self *Stream) handleAACPayload(timestamp uint32, payload []byte) (err error) {
+	const samplesPerFrame = 1024
+
+	sizeLength, indexLength := self.Sdp.SizeLength, self.Sdp.IndexLength
+	if sizeLength == 0 && indexLength == 0 { // mode AAC-hbr
+		sizeLength, indexLength = 13, 3
+	}
+	if len(payload) < 2 {
+		err = fmt.Errorf("rtp: aac packet too short")
+		return
+	}
+	headersBits := int(payload[0])<<8 | int(payload[1])
+	headersLen := (headersBits + 7) / 8
+	if sizeLength < 1 || sizeLength > 16 || indexLength < 0 || indexLength > 16 || len(payload) < 2+headersLen {
+		err = fmt.Errorf("rtp: aac packet invalid")
+		return
+	}
+	headers := payload[2 : 2+headersLen]
+	payload = payload[2+headersLen:]
+
+	for n := 0; (n+1)*(sizeLength+indexLength) <= headersBits; n++ {
+		size := 0
+		for i, pos := 0, n*(sizeLength+indexLength); i < sizeLength; i, pos = i+1, pos+1 {
+			size = size<<1 | int(headers[pos/8]>>uint(7-pos%8)&1)
+		}
+
+		if size > len(payload) { // a fragment
+			if !self.fuStarted || self.fuTimestamp != timestamp {
+				self.fuStarted = true
+				self.fuTimestamp = timestamp
+				self.fuBuffer = nil
+			}
+			self.fuBuffer = append(self.fuBuffer, payload...)
+			if len(self.fuBuffer) >= size {
+				self.fuStarted = false
+				self.addPacket(timestamp, av.Packet{Data: self.fuBuffer[:size]})
+			}
+			return
+		}
+
+		self.fuStarted = false
+		self.addPacketAfter(timestamp, int64(n*samplesPerFrame), av.Packet{Data: payload[:size]})
+		payload = payload[size:]
+	}
+	return
+}
+
 func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	if self.isCodecChange() {
 		err = ErrCodecChange
@@ -1086,12 +1135,9 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		}
 
 	case av.AAC:
-		if len(payload) < 4 {
-			err = fmt.Errorf("rtp: aac packet too short")
+		if err = self.handleAACPayload(timestamp, payload); err != nil {
 			return
 		}
-		payload = payload[4:] // TODO: remove this hack
-		self.addPacket(timestamp, av.Packet{Data: payload})
 
 	default:
 		self.addPacket(timestamp, av.Packet{Data: payload})
@@ -1138,6 +1184,11 @@ func (self *Client) Close() (err error) {
 
 // addPacket adds a packet whose time is the one of an RTP packet.
 func (self *Stream) addPacket(timestamp uint32, pkt av.Packet) {
+	self.addPacketAfter(timestamp, 0, pkt)
+}
+
+// addPacketAfter adds a packet whose time is some ticks after the one of an RTP packet.
+func (self *Stream) addPacketAfter(timestamp uint32, ticks int64, pkt av.Packet) {
 	if !self.started {
 		self.started = true
 		self.timestamp = timestamp
@@ -1147,7 +1198,8 @@ func (self *Stream) addPacket(timestamp uint32, pkt av.Packet) {
 
 	pkt.Type = self.Sdp.Type
 	timeScale := int64(self.timeScale())
-	sec, rem := self.elapsed/timeScale, self.elapsed%timeScale
+	ticks += self.elapsed
+	sec, rem := ticks/timeScale, ticks%timeScale
 	pkt.Time = time.Duration(sec)*time.Second + time.Duration(rem)*time.Second/time.Duration(timeScale)
 	self.pkts = append(self.pkts, pkt)
 }
@@ -1189,12 +1241,14 @@ func (self *Client) handleBlock(block []byte) (err error) {
 	*/
 	pkts := stream.pkts
 	stream.pkts = nil
-	for _, pkt := range pkts {
+	for i, pkt := range pkts {
 		if pkt.Time < stream.lasttime || pkt.Time-stream.lasttime > time.Minute*30 {
 			err = fmt.Errorf("rtp: time invalid  time=%v lasttime=%v", pkt.Time, stream.lasttime)
 			return
 		}
-		stream.lasttime = pkt.Time
+		if i == 0 { // others may be ahead of their RTP packet
+			stream.lasttime = pkt.Time
+		}
 
 		if self.DebugRtp {
 			fmt.Println("rtp: pktout", pkt.Time, len(pkt.Data))
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 98d5d67..2bc1421 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -13,13 +13,14 @@ type Stream struct {
 	client *Client
 
 	// h264
-	fuStarted  bool
-	fuSeq      uint16 // the RTP packet that goes on with it
-	fuBuffer   []byte
-	sps        []byte
-	pps        []byte
-	spsChanged bool
-	ppsChanged bool
+	fuStarted   bool
+	fuSeq       uint16 // the RTP packet that goes on with it
+	fuTimestamp uint32 // aac
+	fuBuffer    []byte
+	sps         []byte
+	pps         []byte
+	spsChanged  bool
+	ppsChanged  bool
 
 	pkts []av.Packet // of the RTP packet being handled
 
-- 
2.43.0


From e170720566b02e04ae7c258492ab84d9ca3f32e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 085/120] fix: RTSP authentication with any realm and nonce,
 for the URL of the request

---
 format/rtsp/client.go | 64 +++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 6715624..6bdcb66 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -53,7 +53,7 @@ type Client struct {
 	setupIdx []int
 	setupMap []int
 
-	authHeaders func(method string) []string
+	authHeaders func(method string, uri string) []string
 
 	url        *url.URL
 	conn       *connWithTimeout
@@ -174,7 +174,7 @@ func (self *Client) WriteRequest(req Request) (err error) {
 	fmt.Fprintf(buf, "CSeq: %d\r\n", self.cseq)
 
 	if self.authHeaders != nil {
-		headers := self.authHeaders(req.Method)
+		headers := self.authHeaders(req.Method, req.Uri)
 		for _, s := range headers {
 			io.WriteString(buf, s)
 			io.WriteString(buf, "\r\n")
@@ -274,6 +274,37 @@ func (self *Client) handleResp(res *Response) (err error) {
 	return
 }
 
+// parseAuthParams parses key=value and key="value" pairs between commas. A
+// quoted value may have any of these characters.
+func parseAuthParams(s string) map[string]string {
+	params := map[string]string{}
+	for s != "" {
+		s = strings.TrimLeft(s, ", \t")
+		eq := strings.IndexByte(s, '=')
+		if eq < 0 {
+			break
+		}
+		key := strings.ToLower(strings.TrimSpace(s[:eq]))
+		s = strings.TrimLeft(s[eq+1:], " \t")
+		end := -1
+		if strings.HasPrefix(s, `"`) {
+			s = s[1:]
+			end = strings.IndexByte(s, '"')
+		} else {
+			end = strings.IndexByte(s, ',')
+		}
+		if end < 0 {
+			end = len(s)
+		}
+		params[key] = s[:end]
+		if end < len(s) {
+			end++
+		}
+		s = s[end:]
+	}
+	return params
+}
+
 func (self *Client) handle401(res *Response) (err error) {
 	/*
 		RTSP/1.0 401 Unauthorized
@@ -283,24 +314,14 @@ func (self *Client) handle401(res *Response) (err error) {
 	*/
 	authval := res.Headers.Get("WWW-Authenticate")
 	hdrval := strings.SplitN(authval, " ", 2)
-	var realm, nonce string
 
 	if len(hdrval) == 2 {
-		for _, field := range strings.Split(hdrval[1], ",") {
-			field = strings.Trim(field, ", ")
-			if keyval := strings.Split(field, "="); len(keyval) == 2 {
-				key := keyval[0]
-				val := strings.Trim(keyval[1], `"`)
-				switch key {
-				case "realm":
-					realm = val
-				case "nonce":
-					nonce = val
-				}
-			}
-		}
+		params := parseAuthParams(hdrval[1])
+		realm, hasRealm := params["realm"]
+		nonce := params["nonce"]
+		opaque, hasOpaque := params["opaque"]
 
-		if realm != "" {
+		if hasRealm {
 			var username string
 			var password string
 
@@ -311,7 +332,7 @@ func (self *Client) handle401(res *Response) (err error) {
 			username = self.url.User.Username()
 			password, _ = self.url.User.Password()
 
-			self.authHeaders = func(method string) []string {
+			self.authHeaders = func(method string, uri string) []string {
 				var headers []string
 				if nonce == "" {
 					headers = []string{
@@ -319,11 +340,14 @@ func (self *Client) handle401(res *Response) (err error) {
 					}
 				} else {
 					hs1 := md5hash(username + ":" + realm + ":" + password)
-					hs2 := md5hash(method + ":" + self.requestUri)
+					hs2 := md5hash(method + ":" + uri)
 					response := md5hash(hs1 + ":" + nonce + ":" + hs2)
 					headers = []string{fmt.Sprintf(
 						`Authorization: Digest username="%s", realm="%s", nonce="%s", uri="%s", response="%s"`,
-						username, realm, nonce, self.requestUri, response)}
+						username, realm, nonce, uri, response)}
+					if hasOpaque {
+						headers[0] += fmt.Sprintf(`, opaque="%s"`, opaque)
+					}
 				}
 				return headers
 			}
-- 
2.43.0


From b15cdba313cc07d76a7d4e95c6bfdb56fe7c10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 086/120] fix: report RTSP requests that fail

---
 format/rtsp/client.go | 75 ++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 25 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 6bdcb66..43af94b 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -60,6 +60,7 @@ type Client struct {
 	brconn     *bufio.Reader
 	requestUri string
 	cseq       uint
+	playCseq   uint // of the PLAY not responded yet
 	streams    []*Stream
 	pkts       []av.Packet // to be read
 
@@ -568,6 +569,26 @@ func (self *Client) ReadResponse() (res Response, err error) {
 	}
 }
 
+// request sends a request and reads the response, which must be a success. It
+// is sent once more, with credentials, if the server asks for them.
+func (self *Client) request(req Request) (res Response, err error) {
+	for i := 0; i < 2; i++ {
+		if err = self.WriteRequest(req); err != nil {
+			return
+		}
+		if res, err = self.ReadResponse(); err != nil {
+			return
+		}
+		if res.StatusCode != 401 || self.authHeaders == nil {
+			break
+		}
+	}
+	if res.StatusCode/100 != 2 {
+		err = fmt.Errorf("rtsp: %s failed, StatusCode=%d", req.Method, res.StatusCode)
+	}
+	return
+}
+
 func (self *Client) SetupAll() (err error) {
 	idx := []int{}
 	for i := range self.streams {
@@ -602,10 +623,7 @@ func (self *Client) Setup(idx []int) (err error) {
 		if self.session != "" {
 			req.Header = append(req.Header, "Session: "+self.session)
 		}
-		if err = self.WriteRequest(req); err != nil {
-			return
-		}
-		if _, err = self.ReadResponse(); err != nil {
+		if _, err = self.request(req); err != nil {
 			return
 		}
 	}
@@ -624,21 +642,13 @@ func md5hash(s string) string {
 func (self *Client) Describe() (err error) {
 	var res Response
 
-	for i := 0; i < 2; i++ {
-		req := Request{
-			Method: "DESCRIBE",
-			Uri:    self.requestUri,
-			Header: []string{"Accept: application/sdp"},
-		}
-		if err = self.WriteRequest(req); err != nil {
-			return
-		}
-		if res, err = self.ReadResponse(); err != nil {
-			return
-		}
-		if res.StatusCode == 200 {
-			break
-		}
+	req := Request{
+		Method: "DESCRIBE",
+		Uri:    self.requestUri,
+		Header: []string{"Accept: application/sdp"},
+	}
+	if res, err = self.request(req); err != nil {
+		return
 	}
 	if res.ContentLength == 0 {
 		err = fmt.Errorf("rtsp: Describe failed, StatusCode=%d", res.StatusCode)
@@ -676,12 +686,7 @@ func (self *Client) Options() (err error) {
 	if self.session != "" {
 		req.Header = append(req.Header, "Session: "+self.session)
 	}
-	if err = self.WriteRequest(req); err != nil {
-		return
-	}
-	if _, err = self.ReadResponse(); err != nil {
-		return
-	}
+	_, err = self.request(req)
 	return
 }
 
@@ -1183,6 +1188,7 @@ func (self *Client) Play() (err error) {
 	if err = self.WriteRequest(req); err != nil {
 		return
 	}
+	self.playCseq = self.cseq
 	if self.stage == stageSetupDone {
 		self.stage = stagePlayDone
 	}
@@ -1190,6 +1196,22 @@ func (self *Client) Play() (err error) {
 	return
 }
 
+// handlePlayResp looks for the response to PLAY among the ones that come with
+// the media.
+func (self *Client) handlePlayResp(res Response) (err error) {
+	if res.StatusCode == 0 || self.playCseq == 0 {
+		return
+	}
+	if cseq := res.Headers.Get("CSeq"); cseq != "" && cseq != fmt.Sprint(self.playCseq) {
+		return
+	}
+	self.playCseq = 0
+	if res.StatusCode/100 != 2 {
+		err = fmt.Errorf("rtsp: PLAY failed, StatusCode=%d", res.StatusCode)
+	}
+	return
+}
+
 func (self *Client) Teardown() (err error) {
 	req := Request{
 		Method: "TEARDOWN",
@@ -1297,6 +1319,9 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 				return
 			}
 			block = res.Block
+			if err = self.handlePlayResp(res); err != nil {
+				return
+			}
 		}
 
 		if err = self.handleBlock(block); err != nil {
-- 
2.43.0


From 67826ed26e1b0f54f0bd8721ed92b60fbebd8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 087/120] fix: resolve RTSP control URLs against the base of
 the description

---
 format/rtsp/client.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 43af94b..b1ab34d 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -59,6 +59,7 @@ type Client struct {
 	conn       *connWithTimeout
 	brconn     *bufio.Reader
 	requestUri string
+	baseUri    string // the description gives relative URLs to
 	cseq       uint
 	playCseq   uint // of the PLAY not responded yet
 	streams    []*Stream
@@ -597,6 +598,24 @@ func (self *Client) SetupAll() (err error) {
 	return self.Setup(idx)
 }
 
+// controlUri is the URL of a stream, see RFC 2326 C.1.1.
+func (self *Client) controlUri(control string) string {
+	base := self.baseUri
+	if base == "" {
+		base = self.requestUri
+	}
+	switch {
+	case control == "" || control == "*":
+		return base
+	case strings.HasPrefix(strings.ToLower(control), "rtsp://"):
+		return control
+	case strings.HasSuffix(base, "/"):
+		return base + control
+	default:
+		return base + "/" + control
+	}
+}
+
 func (self *Client) Setup(idx []int) (err error) {
 	if err = self.prepare(stageDescribeDone); err != nil {
 		return
@@ -611,14 +630,7 @@ func (self *Client) Setup(idx []int) (err error) {
 	for i, si := range idx {
 		self.setupMap[si] = i
 
-		uri := ""
-		control := self.streams[si].Sdp.Control
-		if strings.HasPrefix(control, "rtsp://") {
-			uri = control
-		} else {
-			uri = self.requestUri + "/" + control
-		}
-		req := Request{Method: "SETUP", Uri: uri}
+		req := Request{Method: "SETUP", Uri: self.controlUri(self.streams[si].Sdp.Control)}
 		req.Header = append(req.Header, fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", si*2, si*2+1))
 		if self.session != "" {
 			req.Header = append(req.Header, "Session: "+self.session)
@@ -655,6 +667,10 @@ func (self *Client) Describe() (err error) {
 		return
 	}
 
+	if self.baseUri = res.Headers.Get("Content-Base"); self.baseUri == "" {
+		self.baseUri = res.Headers.Get("Content-Location")
+	}
+
 	body := string(res.Body)
 
 	if self.DebugRtsp {
-- 
2.43.0


From aa53a92d52168802a0d14f09084731541cfce3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 088/120] fix: RTSP session ids with space behind

---
 format/rtsp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index b1ab34d..c2a5564 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -265,7 +265,7 @@ func (self *Client) parseHeaders(b []byte) (statusCode int, headers textproto.MI
 func (self *Client) handleResp(res *Response) (err error) {
 	if sess := res.Headers.Get("Session"); sess != "" && self.session == "" {
 		if fields := strings.Split(sess, ";"); len(fields) > 0 {
-			self.session = fields[0]
+			self.session = strings.TrimSpace(fields[0])
 		}
 	}
 	if res.StatusCode == 401 {
-- 
2.43.0


From edbacb798eb195ea331ab40657df231c75504cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 089/120] fix: relay sends no empty metadata and configurations
 after a takeover

---
 cmd/avtool/pubsub.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index 5497c10..381065f 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -88,7 +88,7 @@ type splitSeqhdr struct {
 }
 
 func (s *splitSeqhdr) sendmeta(pkt av.Packet) error {
-	if bytes.Compare(s.hdrpkt.Metadata, pkt.Metadata) != 0 {
+	if len(pkt.Metadata) != 0 && bytes.Compare(s.hdrpkt.Metadata, pkt.Metadata) != 0 {
 		if err := s.cb(av.Packet{
 			Type: av.Metadata,
 			Data: pkt.Metadata,
@@ -107,7 +107,7 @@ func (s *splitSeqhdr) do(pkt av.Packet) error {
 			return err
 		}
 		if pkt.IsKeyFrame {
-			if bytes.Compare(s.hdrpkt.VSeqHdr, pkt.VSeqHdr) != 0 {
+			if len(pkt.VSeqHdr) != 0 && bytes.Compare(s.hdrpkt.VSeqHdr, pkt.VSeqHdr) != 0 {
 				if err := s.cb(av.Packet{
 					Type: av.H264DecoderConfig,
 					Data: pkt.VSeqHdr,
@@ -122,7 +122,7 @@ func (s *splitSeqhdr) do(pkt av.Packet) error {
 		if err := s.sendmeta(pkt); err != nil {
 			return err
 		}
-		if bytes.Compare(s.hdrpkt.ASeqHdr, pkt.ASeqHdr) != 0 {
+		if len(pkt.ASeqHdr) != 0 && bytes.Compare(s.hdrpkt.ASeqHdr, pkt.ASeqHdr) != 0 {
 			if err := s.cb(av.Packet{
 				Type: av.AACDecoderConfig,
 				Data: pkt.ASeqHdr,
-- 
2.43.0


From eeb3a0047d18b00ceb5a9c892b81d5b88164bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 090/120] fix: relay closes the connections it is done with

---
 cmd/avtool/pubsub.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index 381065f..a01d8db 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -309,6 +309,8 @@ func doPubsubRtmp(listenAddr string) error {
 	}
 
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
+		defer nc.Close()
+
 		stream, remove := streams.add(c.URL.Path)
 		defer remove()
 
-- 
2.43.0


From b9aefd77c9a9f78c9deb81641407c8974d4bb248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:11 +0000
Subject: [PATCH 091/120] fix: do not touch files when the format of a URL is
 not supported

---
 format/format.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/format/format.go b/format/format.go
index 8f79144..fb1ad2f 100644
--- a/format/format.go
+++ b/format/format.go
@@ -151,14 +151,14 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 		}
 		return
 
-	default:
+	case "", "file":
 		ext := path.Ext(u.Path)
 		var f *os.File
-		if f, err = os.Create(u.Path); err != nil {
-			return
-		}
 		switch ext {
 		case ".flv":
+			if f, err = os.Create(u.Path); err != nil {
+				return
+			}
 			c := flv.NewMuxer(NewStreamsWriteSeeker(f, streamer))
 			if fn := o.OnNewFlvMuxer; fn != nil {
 				fn(c)
@@ -169,11 +169,17 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			}
 			return
 		case ".mp4":
+			// the file is only touched when the streams are supported
+			ws := NewStreamsWriteSeeker(nil, streamer)
 			var m *mp4.Muxer
-			m, err = mp4.NewMuxer(NewStreamsWriteSeeker(f, streamer))
+			m, err = mp4.NewMuxer(ws)
 			if err != nil {
 				return nil, err
 			}
+			if f, err = os.Create(u.Path); err != nil {
+				return
+			}
+			ws.WriteSeeker = f
 			w = &Writer{
 				PacketWriter: m,
 				Closer:       Mp4WriterCloser{f, m},
@@ -184,6 +190,10 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			err = ErrUnsupported(url_)
 			return
 		}
+
+	default:
+		err = ErrUnsupported(url_)
+		return
 	}
 }
 
-- 
2.43.0


From 8b71db7f9aa2f3703585385d8c24772bed0ab622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:12 +0000
Subject: [PATCH 092/120] fix: do not open local files for URLs of unsupported
 schemes

---
 format/format.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index fb1ad2f..a4ea99e 100644
--- a/format/format.go
+++ b/format/format.go
@@ -281,7 +281,7 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			return
 		}
 
-	default:
+	case "", "file":
 		ext := path.Ext(u.Path)
 		switch ext {
 		case ".flv":
@@ -304,6 +304,10 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			err = ErrUnsupported(url_)
 			return
 		}
+
+	default:
+		err = ErrUnsupported(url_)
+		return
 	}
 }
 
-- 
2.43.0


From 8275551de157d905f82767fc4b662aebf17fab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 093/120] fix: close MP4 files whose trailer fails

---
 format/format.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index a4ea99e..b218e67 100644
--- a/format/format.go
+++ b/format/format.go
@@ -32,14 +32,11 @@ type Mp4WriterCloser struct {
 }
 
 func (c Mp4WriterCloser) Close() error {
-	if err := c.Muxer.WriteTrailer(); err != nil {
-		return err
+	err := c.Muxer.WriteTrailer()
+	if cerr := c.Closer.Close(); err == nil {
+		err = cerr
 	}
-	if err := c.Closer.Close(); err != nil {
-		return err
-	}
-
-	return nil
+	return err
 }
 
 type Reader struct {
-- 
2.43.0


From 1182d01c3106f053c8d43a2488b63434f4b152c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:14 +0000
Subject: [PATCH 094/120] fix: check the status of HTTP media and close it

---
 format/format.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index b218e67..895365e 100644
--- a/format/format.go
+++ b/format/format.go
@@ -20,12 +20,6 @@ import (
 	"github.com/nareix/joy5/format/rtmp"
 )
 
-type dummyCloser struct{}
-
-func (c dummyCloser) Close() error {
-	return nil
-}
-
 type Mp4WriterCloser struct {
 	io.Closer
 	*mp4.Muxer
@@ -261,13 +255,18 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			if hr, err = http.Get(url_); err != nil {
 				return
 			}
+			if hr.StatusCode != http.StatusOK {
+				hr.Body.Close()
+				err = fmt.Errorf("open `%s` failed: %s", url_, hr.Status)
+				return
+			}
 			c := flv.NewDemuxer(hr.Body)
 			if fn := o.OnNewFlvDemuxer; fn != nil {
 				fn(c)
 			}
 			r = &Reader{
 				PacketReader: c,
-				Closer:       dummyCloser{},
+				Closer:       hr.Body,
 				Flv:          c,
 				IsRemote:     true,
 			}
-- 
2.43.0


From e9f3739e8c873f3f07433c43810980bba64fa363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 095/120] fix: stop listening when the RTMP connection to open
 is there

---
 format/format.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 895365e..3644564 100644
--- a/format/format.go
+++ b/format/format.go
@@ -82,15 +82,26 @@ func (o *URLOpener) StartRtmpServerWaitConn(u *url.URL) (c *rtmp.Conn, nc net.Co
 		c  *rtmp.Conn
 		nc net.Conn
 	}
-	got_ := make(chan Got, 1)
+	got_ := make(chan Got)
+	done := make(chan struct{})
+	defer close(done)
+	defer lis.Close()
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
-		got_ <- Got{c, nc}
+		select {
+		case got_ <- Got{c, nc}:
+		case <-done:
+			nc.Close()
+		}
 	}
 	go func() {
 		for {
 			nc, err := lis.Accept()
 			if err != nil {
-				time.Sleep(time.Second)
+				select {
+				case <-done:
+					return
+				case <-time.After(time.Second):
+				}
 				continue
 			}
 			go s.HandleNetConn(nc)
-- 
2.43.0


From 0e7b49b639d141905d915dd5cea93a5ba74b115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 096/120] fix: open rtmps URLs

---
 format/format.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 3644564..e9085d6 100644
--- a/format/format.go
+++ b/format/format.go
@@ -212,7 +212,11 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 	}
 
 	switch u.Scheme {
-	case "rtmp":
+	case "rtmp", "rtmps":
+		if isServer && u.Scheme == "rtmps" {
+			err = ErrUnsupported(url_)
+			return
+		}
 		if isServer {
 			var c *rtmp.Conn
 			var nc net.Conn
-- 
2.43.0


From 266d4d1d6090fd1db187676c0e37668a3422c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:20 +0000
Subject: [PATCH 097/120] fix: avtool avcc2annexb and moveh264seqhdrtokeyframe
 succeed at the end of the file

---
 cmd/avtool/avcc2annexb.go | 4 ++++
 cmd/avtool/seqhdr.go      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/avtool/avcc2annexb.go b/cmd/avtool/avcc2annexb.go
index 5796989..875fb04 100644
--- a/cmd/avtool/avcc2annexb.go
+++ b/cmd/avtool/avcc2annexb.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -27,6 +28,9 @@ func doAvcc2Annexb(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return fw.Close()
+		}
 		if err != nil {
 			return err
 		}
diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 896a17b..d838f5f 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -32,6 +33,9 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return fw.Close()
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9b39d2d1bcd24ac426fde031b43d29e76dc1aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 098/120] fix: do not write /tmp/a.h264

---
 cmd/avtool/seqhdr.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index d838f5f..ff02125 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -26,9 +26,6 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 	r := flv.NewDemuxer(fr)
 	w := flv.NewMuxer(format.NewStreamsWriteSeeker(fw, nil))
 
-	rawf, _ := os.Create("/tmp/a.h264")
-	defer rawf.Close()
-
 	var h264seqhdr *h264.Codec
 
 	for {
-- 
2.43.0


From fe4c5a26c235559b5a8be187e38f43439fe3bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:22 +0000
Subject: [PATCH 099/120] fix: keyframes before the sequence header in
 moveh264seqhdrtokeyframe

---
 cmd/avtool/seqhdr.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index ff02125..1039c20 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -50,11 +50,13 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 			if pkt.IsKeyFrame {
 				pktnalus, _ := h264.SplitNALUs(pkt.Data)
 				nalus := [][]byte{}
-				for _, b := range h264.Map2arr(h264seqhdr.SPS) {
-					nalus = append(nalus, b)
-				}
-				for _, b := range h264.Map2arr(h264seqhdr.PPS) {
-					nalus = append(nalus, b)
+				if h264seqhdr != nil {
+					for _, b := range h264.Map2arr(h264seqhdr.SPS) {
+						nalus = append(nalus, b)
+					}
+					for _, b := range h264.Map2arr(h264seqhdr.PPS) {
+						nalus = append(nalus, b)
+					}
 				}
 				nalus = append(nalus, pktnalus...)
 				data := h264.JoinNALUsAnnexb(nalus)
-- 
2.43.0


From f0f8effb310fdcad388547a15ad491d188d094c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 100/120] fix: forwardrtmp only forwards to RTMP URLs

---
 cmd/avtool/forwardrtmp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index f0bdb28..1ab155e 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -3,6 +3,7 @@ package main
 import (
 	"log"
 	"net"
+	"net/url"
 	"time"
 	"unsafe"
 
@@ -42,6 +43,11 @@ func doForwardRtmp(listenAddr string) (err error) {
 		}
 		log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "fwd", fwd)
 
+		if u, err := url.Parse(fwd); err != nil || u.Scheme != "rtmp" && u.Scheme != "rtmps" {
+			log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "NotRtmp")
+			return
+		}
+
 		fo := newFormatOpener()
 
 		var err error
-- 
2.43.0


From 1badb4fbea254965d7050d6a4ec35cdf030abf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 101/120] fix: report FLV files cut behind a tag header

---
 format/flv/flvio/flvio.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/flvio.go b/format/flv/flvio/flvio.go
index a2c91e3..d321cdc 100644
--- a/format/flv/flvio/flvio.go
+++ b/format/flv/flvio/flvio.go
@@ -364,7 +364,7 @@ func ReadTag(r io.Reader, b []byte, malloc func(int) ([]byte, error)) (tag Tag,
 	if data, err = malloc(datalen); err != nil {
 		return
 	}
-	if _, err = io.ReadFull(r, data); err != nil {
+	if err = readInTag(r, data); err != nil {
 		return
 	}
 
@@ -372,12 +372,21 @@ func ReadTag(r io.Reader, b []byte, malloc func(int) ([]byte, error)) (tag Tag,
 		return
 	}
 
-	if _, err = io.ReadFull(r, b[:4]); err != nil {
+	if err = readInTag(r, b[:4]); err != nil {
 		return
 	}
 	return
 }
 
+// readInTag reads what follows a tag header: the end of the file there is not
+// the regular one.
+func readInTag(r io.Reader, b []byte) (err error) {
+	if _, err = io.ReadFull(r, b); err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return
+}
+
 const TagHeaderLength = 11
 
 func FillTagHeader(b []byte, tag Tag, datalen int) {
-- 
2.43.0


From ef0f4ec163c6426a167399dbd6f85c636df7df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 102/120] fix: do not lose the end of published RTMP streams

---
 cmd/avtool/forwardrtmp.go |  3 +--
 cmd/avtool/statsec.go     |  8 ++++++++
 format/format.go          | 21 ++++++++++++++++++++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index 1ab155e..053b1a1 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -57,8 +57,7 @@ func doForwardRtmp(listenAddr string) (err error) {
 			return
 		}
 		c2 := w.Rtmp
-		nc2 := w.NetConn
-		defer nc2.Close()
+		defer w.Close()
 
 		log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "DialOK", unsafe.Pointer(c2))
 
diff --git a/cmd/avtool/statsec.go b/cmd/avtool/statsec.go
index a908518..782023f 100644
--- a/cmd/avtool/statsec.go
+++ b/cmd/avtool/statsec.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"fmt"
 	"net"
 	"sync/atomic"
@@ -36,6 +37,13 @@ func (sc *StatConn) Write(b []byte) (int, error) {
 	return n, err
 }
 
+func (sc *StatConn) CloseWrite() error {
+	if cw, ok := sc.Conn.(interface{ CloseWrite() error }); ok {
+		return cw.CloseWrite()
+	}
+	return errors.New("CloseWrite not supported")
+}
+
 func startStatSec(or, ow *format.URLOpener) (onPkt func(av.Packet)) {
 	type Stat struct {
 		tx, rx int64
diff --git a/format/format.go b/format/format.go
index e9085d6..028f4bb 100644
--- a/format/format.go
+++ b/format/format.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"net"
 	"net/http"
 	"net/url"
@@ -33,6 +34,24 @@ func (c Mp4WriterCloser) Close() error {
 	return err
 }
 
+// rtmpWriterCloser closes a connection that has been written to. Bytes of the
+// peer that have not been read, like acknowledgements, make Close reset the
+// connection, and what the peer did not get by then is lost: end the stream and
+// give the peer the time to read it.
+type rtmpWriterCloser struct {
+	net.Conn
+}
+
+func (c rtmpWriterCloser) Close() error {
+	if cw, ok := c.Conn.(interface{ CloseWrite() error }); ok {
+		if err := cw.CloseWrite(); err == nil {
+			c.SetReadDeadline(time.Now().Add(time.Second * 3))
+			io.Copy(ioutil.Discard, c.Conn)
+		}
+	}
+	return c.Conn.Close()
+}
+
 type Reader struct {
 	av.PacketReader
 	io.Closer
@@ -147,7 +166,7 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 		w = &Writer{
 			IsRemote:     true,
 			PacketWriter: c,
-			Closer:       nc,
+			Closer:       rtmpWriterCloser{nc},
 			Rtmp:         c,
 			NetConn:      nc,
 		}
-- 
2.43.0


From c96c876c56521401ca39f13847c156ff136ea837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 103/120] fix: SetupAll describes first, it set up nothing when
 called on its own

---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index c2a5564..dfd0385 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -591,6 +591,9 @@ func (self *Client) request(req Request) (res Response, err error) {
 }
 
 func (self *Client) SetupAll() (err error) {
+	if err = self.prepare(stageDescribeDone); err != nil {
+		return
+	}
 	idx := []int{}
 	for i := range self.streams {
 		idx = append(idx, i)
-- 
2.43.0


From 80ba8aa3c01b7f1c79150cb846b43ef77b9529ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 104/120] fix: rtmp: report a play refused after a reset status

---
 format/rtmp/msg.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 815392a..4753ad4 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -574,7 +574,27 @@ func (c *Conn) rtmpReadTag() (tag flvio.Tag, err error) {
 			tag = *_tag
 			return
 		}
+		if err = c.checkErrorStatus(msg); err != nil {
+			return
+		}
+	}
+}
+
+// checkErrorStatus gives the error a server reports while its stream is played.
+// It may come only after a status that says the playlist is reset.
+func (c *Conn) checkErrorStatus(msg *message) (err error) {
+	if c.isserver {
+		return
+	}
+	cmd, perr := msg.parseCommand()
+	if perr != nil || cmd == nil || cmd.name != "onStatus" || len(cmd.params) < 1 {
+		return
 	}
+	obj, _ := cmd.params[0].(flvio.AMFMap)
+	if level, _ := obj.GetString("level"); level == "error" {
+		err = fmt.Errorf("PlayFailed: %s", c.checkLevelStatus(cmd))
+	}
+	return
 }
 
 func (c *Conn) tmpwbuf(n int) []byte {
-- 
2.43.0


From 95c63144005d9333adb5567cce98531ba47ee88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 105/120] fix: flv: refuse tags above the 24-bit size

---
 format/flv/flvio/flvio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/flv/flvio/flvio.go b/format/flv/flvio/flvio.go
index d321cdc..db38c76 100644
--- a/format/flv/flvio/flvio.go
+++ b/format/flv/flvio/flvio.go
@@ -408,6 +408,10 @@ func WriteTag(w io.Writer, tag Tag, b []byte) (err error) {
 
 	n := tag.FillHeader(b[TagHeaderLength:])
 	datalen := len(data) + n
+	if datalen > 0xffffff {
+		err = fmt.Errorf("TagDataTooBig(%d)", datalen)
+		return
+	}
 
 	FillTagHeader(b, tag, datalen)
 	n += TagHeaderLength
-- 
2.43.0


From a6ea3168c971dc5ccd348e9b84be557a2b08fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 106/120] fix: rtmp: refuse messages above the 24-bit length

---
 format/rtmp/msg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 4753ad4..2ff9af1 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -708,6 +708,9 @@ func (c *Conn) writeMsg2(
 	b := c.tmpwbuf(chunkHeader0Length + fillheader(nil))
 	chdrlen := fillChunkHeader0(b, csid, msg.timenow, msg.msgtypeid, msg.msgsid, 0)
 	taghdrlen := fillheader(b[chdrlen:])
+	if n := taghdrlen + len(msg.msgdata); n > 0xffffff {
+		return fmt.Errorf("MsgDataTooBig(%d)", n)
+	}
 	msg.msgdatalen = uint32(taghdrlen + len(msg.msgdata))
 	msg.msgdataleft = msg.msgdatalen
 	fillChunkHeader0MsgDataLen(b, int(msg.msgdatalen))
-- 
2.43.0


From 884fd1d4be830f92fe62c9f326e50770386c7ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 107/120] fix: flv: keep the time of decoder configurations

---
 format/flv/flv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/flv/flv.go b/format/flv/flv.go
index a67c801..a1a5aa1 100644
--- a/format/flv/flv.go
+++ b/format/flv/flv.go
@@ -136,6 +136,7 @@ func WritePacket(pkt av.Packet, writeTag func(flvio.Tag) error, publishing bool)
 	case av.AACDecoderConfig:
 		tag := NewAACTag()
 		tag.AACPacketType = flvio.AAC_SEQHDR
+		tag.Time = uint32(flvio.TimeToTs(pkt.Time))
 		tag.Data = pkt.Data
 		return writeTag(tag)
 
@@ -245,6 +246,7 @@ func ReadPacket(readTag func() (flvio.Tag, error)) (pkt av.Packet, err error) {
 					pkt = av.Packet{
 						Type: av.H264DecoderConfig,
 						Data: tag.Data,
+						Time: flvio.TsToTime(int64(tag.Time)),
 					}
 					return
 				case flvio.AVC_NALU:
@@ -267,6 +269,7 @@ func ReadPacket(readTag func() (flvio.Tag, error)) (pkt av.Packet, err error) {
 					pkt = av.Packet{
 						Type: av.AACDecoderConfig,
 						Data: tag.Data,
+						Time: flvio.TsToTime(int64(tag.Time)),
 					}
 					return
 				case flvio.AAC_RAW:
-- 
2.43.0


From 3f64bd03d5bf9b04b821c4f270bd8e5ef46481bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 108/120] fix: rtmp: the server's handshake timeout takes
 effect

---
 format/rtmp/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/rtmp/server.go b/format/rtmp/server.go
index 981a6c1..7f36a16 100644
--- a/format/rtmp/server.go
+++ b/format/rtmp/server.go
@@ -62,7 +62,11 @@ func (s *Server) HandleNetConn(nc net.Conn) {
 		fn(c, nc, EventConnConnected)
 	}
 
-	nc.SetDeadline(time.Now().Add(time.Second * 15))
+	timeout := s.HandshakeTimeout
+	if timeout <= 0 {
+		timeout = time.Second * 15
+	}
+	nc.SetDeadline(time.Now().Add(timeout))
 	if err := c.Prepare(StageGotPublishOrPlayCommand, 0); err != nil {
 		if fn := s.LogEvent; fn != nil {
 			fn(c, nc, EventHandshakeFailed)
-- 
2.43.0


From 504c5d0779fe25402fadeb22732f82766de4d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 109/120] fix: rtsp: a timeout set back to none clears the
 deadline

---
 format/rtsp/conn.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/format/rtsp/conn.go b/format/rtsp/conn.go
index 20775e1..42f9db2 100644
--- a/format/rtsp/conn.go
+++ b/format/rtsp/conn.go
@@ -10,16 +10,21 @@ type connWithTimeout struct {
 	net.Conn
 }
 
-func (self connWithTimeout) Read(p []byte) (n int, err error) {
+// deadline is the zero time when there is no timeout, which clears the
+// deadline of an earlier one.
+func (self connWithTimeout) deadline() (t time.Time) {
 	if self.Timeout > 0 {
-		self.Conn.SetReadDeadline(time.Now().Add(self.Timeout))
+		t = time.Now().Add(self.Timeout)
 	}
+	return
+}
+
+func (self connWithTimeout) Read(p []byte) (n int, err error) {
+	self.Conn.SetReadDeadline(self.deadline())
 	return self.Conn.Read(p)
 }
 
 func (self connWithTimeout) Write(p []byte) (n int, err error) {
-	if self.Timeout > 0 {
-		self.Conn.SetWriteDeadline(time.Now().Add(self.Timeout))
-	}
+	self.Conn.SetWriteDeadline(self.deadline())
 	return self.Conn.Write(p)
 }
-- 
2.43.0


From ece0cfdb280435cb336628dee4852b2b24012cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 110/120] fix: sample size and high sample rates in MP4 audio
 sample entries

---
 format/mp4/muxer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index f44e81b..7d67b24 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -144,8 +144,8 @@ func (self *Stream) fillTrackAtom() (err error) {
 		self.sample.SampleDesc.MP4ADesc = &mp4io.MP4ADesc{
 			DataRefIdx:       1,
 			NumberOfChannels: int16(codec.Config.ChannelLayout.Count()),
-			SampleSize:       int16(codec.SampleFormat().BytesPerSample()),
-			SampleRate:       float64(codec.Config.SampleRate),
+			SampleSize:       16, // bits, whatever the coding
+			SampleRate:       entrySampleRate(codec.Config.SampleRate),
 			Conf: &mp4io.ElemStreamDesc{
 				DecConfig: codec.ConfigBytes,
 			},
@@ -165,6 +165,15 @@ func (self *Stream) fillTrackAtom() (err error) {
 	return
 }
 
+// entrySampleRate is the sample rate of an audio sample entry, which has 16
+// bits for it: 0 stands for a rate that only the decoder configuration tells.
+func entrySampleRate(rate int) float64 {
+	if rate > math.MaxUint16 {
+		return 0
+	}
+	return float64(rate)
+}
+
 // handlerName is what follows the handler type in a hdlr box: 12 reserved
 // bytes and the name, ended by a zero byte.
 func handlerName(name string) []byte {
-- 
2.43.0


From 3db77dce30c63e1ff2c64a52a8cc080c49d7a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 111/120] fix: durations beyond 32 bits in MP4 headers

---
 format/mp4/muxer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 7d67b24..16374a1 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -114,7 +114,7 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 
 func (self *Stream) fillTrackAtom() (err error) {
 	self.trackAtom.Media.Header.TimeScale = int32(self.timeScale)
-	self.trackAtom.Media.Header.Duration = int32(self.duration)
+	self.trackAtom.Media.Header.Duration = headerDuration(self.duration)
 
 	switch codec := self.Codec.(type) {
 	case *h264.Codec:
@@ -165,6 +165,15 @@ func (self *Stream) fillTrackAtom() (err error) {
 	return
 }
 
+// headerDuration is the duration field of a box header, which has 32 bits: all
+// ones stand for a duration that cannot be told.
+func headerDuration(ticks int64) int32 {
+	if ticks > math.MaxUint32 {
+		return -1
+	}
+	return int32(ticks)
+}
+
 // entrySampleRate is the sample rate of an audio sample entry, which has 16
 // bits for it: 0 stands for a rate that only the decoder configuration tells.
 func entrySampleRate(rate int) float64 {
@@ -372,14 +381,14 @@ func (self *Muxer) WriteTrailer() (err error) {
 			return
 		}
 		dur := stream.tsToTime(stream.duration)
-		stream.trackAtom.Header.Duration = int32(timeToTs(dur, timeScale))
+		stream.trackAtom.Header.Duration = headerDuration(timeToTs(dur, timeScale))
 		if dur > maxDur {
 			maxDur = dur
 		}
 		moov.Tracks = append(moov.Tracks, stream.trackAtom)
 	}
 	moov.Header.TimeScale = int32(timeScale)
-	moov.Header.Duration = int32(timeToTs(maxDur, timeScale))
+	moov.Header.Duration = headerDuration(timeToTs(maxDur, timeScale))
 
 	if err = self.bufw.Flush(); err != nil {
 		return
-- 
2.43.0


From 64716ea1164bf147a1610fed1fd18838dab05940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 112/120] fix: rtmp: keep reading what a peer sent before it
 closed

An acknowledgement or ping response that cannot be written any more, as
the peer has sent everything and closed the connection, ended reading
with the data received so far not delivered.
---
 format/rtmp/msg.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 2ff9af1..88e6299 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -222,11 +222,10 @@ func (c *Conn) readMsg() (msg *message, err error) {
 		}
 
 		if c.readAckSize != 0 && c.ackn-c.lastackn > c.readAckSize {
-			if err = c.writeAck(c.ackn); err != nil {
-				return
-			}
-			if err = c.flushWrite(); err != nil {
-				return
+			// A peer that has sent everything and closed takes no
+			// acknowledgement; what it sent is still to be read.
+			if c.writeAck(c.ackn) == nil {
+				c.flushWrite()
 			}
 			c.lastackn = c.ackn
 		}
@@ -280,9 +279,7 @@ func (c *Conn) readMsgHandleEvent() (msg *message, err error) {
 			return
 		}
 		if handled {
-			if err = c.flushWrite(); err != nil {
-				return
-			}
+			c.flushWrite() // the peer may be gone, see readMsg
 		} else {
 			return
 		}
@@ -928,7 +925,7 @@ func (c *Conn) handleEvent(msg *message) (handled bool, err error) {
 				return
 			}
 			handled = true
-			err = c.writePingResponse(timestamp)
+			c.writePingResponse(timestamp) // the peer may be gone, see readMsg
 			return
 		}
 
-- 
2.43.0


From 5d474af7c2605faa2536baec9843544eef8b9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 113/120] fix: rtsp: keep reading what a server sent before it
 closed

A keepalive that cannot be written any more, as the server has sent
everything and closed the connection, ended reading with the packets
received so far not delivered.
---
 format/rtsp/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index dfd0385..81ef12f 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -1325,9 +1325,9 @@ func (self *Client) handleBlock(block []byte) (err error) {
 }
 
 func (self *Client) readPacket() (pkt av.Packet, err error) {
-	if err = self.SendRtpKeepalive(); err != nil {
-		return
-	}
+	// A server that has sent everything and closed takes no keepalive; what it
+	// sent is still to be read.
+	self.SendRtpKeepalive()
 
 	for len(self.pkts) == 0 {
 		block := self.changeBlock
-- 
2.43.0


From 27d063d5661ab01da5e2ac703853810cb4336ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 114/120] fix: do not lose the end of streams played by
 benchrtmp

The acknowledgements of a player made the close of the connection reset
it, and what the player had not received by then was lost.
---
 cmd/avtool/benchrtmp.go | 1 +
 format/format.go        | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/avtool/benchrtmp.go b/cmd/avtool/benchrtmp.go
index 5b1e062..f11c67d 100644
--- a/cmd/avtool/benchrtmp.go
+++ b/cmd/avtool/benchrtmp.go
@@ -69,6 +69,7 @@ func doBenchRtmp(listenAddr, file string) (err error) {
 				}
 			}
 		} else {
+			defer format.RtmpWriterCloser{Conn: nc}.Close()
 			start := time.Now()
 			for _, pkt := range filePkts {
 				if err := c.WritePacket(pkt); err != nil {
diff --git a/format/format.go b/format/format.go
index 028f4bb..46ff8b8 100644
--- a/format/format.go
+++ b/format/format.go
@@ -34,15 +34,15 @@ func (c Mp4WriterCloser) Close() error {
 	return err
 }
 
-// rtmpWriterCloser closes a connection that has been written to. Bytes of the
+// RtmpWriterCloser closes a connection that has been written to. Bytes of the
 // peer that have not been read, like acknowledgements, make Close reset the
 // connection, and what the peer did not get by then is lost: end the stream and
 // give the peer the time to read it.
-type rtmpWriterCloser struct {
+type RtmpWriterCloser struct {
 	net.Conn
 }
 
-func (c rtmpWriterCloser) Close() error {
+func (c RtmpWriterCloser) Close() error {
 	if cw, ok := c.Conn.(interface{ CloseWrite() error }); ok {
 		if err := cw.CloseWrite(); err == nil {
 			c.SetReadDeadline(time.Now().Add(time.Second * 3))
@@ -166,7 +166,7 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 		w = &Writer{
 			IsRemote:     true,
 			PacketWriter: c,
-			Closer:       rtmpWriterCloser{nc},
+			Closer:       RtmpWriterCloser{nc},
 			Rtmp:         c,
 			NetConn:      nc,
 		}
-- 
2.43.0


From 07ddad5fd7acad185e87b1ae52f26ae51743628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 115/120] fix: rtmp: drop a message that the peer aborts

An abort message was ignored, and the next message on its chunk stream
ended the session.
---
 format/rtmp/msg.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 88e6299..da5ff55 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -109,6 +109,7 @@ const (
 	msgtypeidWindowAckSize    = 5
 	msgtypeidSetPeerBandwidth = 6
 	msgtypeidSetChunkSize     = 1
+	msgtypeidAbort            = 2
 	msgtypeidCommandMsgAMF0   = 20
 	msgtypeidCommandMsgAMF3   = 17
 	msgtypeidDataMsgAMF0      = flvio.TAG_AMF0
@@ -929,6 +930,15 @@ func (c *Conn) handleEvent(msg *message) (handled bool, err error) {
 			return
 		}
 
+	case msgtypeidAbort:
+		// the rest of an unfinished message will not come
+		if len(msg.msgdata) >= 4 {
+			if cs := c.readcsmap[pio.U32BE(msg.msgdata)]; cs != nil {
+				cs.msgdataleft = 0
+			}
+		}
+		fallthrough
+
 	default:
 		if c.HandleEvent != nil {
 			return c.HandleEvent(msg.msgtypeid, msg.msgdata)
-- 
2.43.0


From 3ec40fa256e1f08580adb4a3d01c14a5b2854dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 116/120] fix: rtsp: keepalives tell the session

Without its id an OPTIONS request does not keep a session alive.
---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 81ef12f..f630eaf 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -158,6 +158,9 @@ func (self *Client) SendRtpKeepalive() (err error) {
 				Method: "OPTIONS",
 				Uri:    self.requestUri,
 			}
+			if self.session != "" {
+				req.Header = append(req.Header, "Session: "+self.session)
+			}
 			if err = self.WriteRequest(req); err != nil {
 				return
 			}
-- 
2.43.0


From ea8f80e33f3fe65763ac87f68bfe49ba9dc91362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:09 +0000
Subject: [PATCH 117/120] fix: AMF0 dates before 1678 and after 2262

---
 format/flv/flvio/amf0.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 292576b..b12b628 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -308,8 +308,7 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 
 	case time.Time:
 		pio.WriteU8(b, n, datemarker)
-		u := val.UnixNano()
-		f := float64(u / 1000000)
+		f := float64(val.Unix()*1000 + int64(val.Nanosecond()/1000000))
 		fillBEFloat64(b, n, f)
 		pio.WriteU16BE(b, n, uint16(0))
 
-- 
2.43.0


From c24462498651fba43157de738d31309c84ccf126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:09 +0000
Subject: [PATCH 118/120] fix: leave out AMF0 keys that do not fit instead of
 breaking the object

---
 format/flv/flvio/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index b12b628..61e3378 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -280,7 +280,7 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 		pio.WriteU8(b, n, ecmaarraymarker)
 		pio.WriteU32BE(b, n, uint32(len(val)))
 		for _, p := range val {
-			if len(p.K) > 0 {
+			if len(p.K) > 0 && len(p.K) < 65536 {
 				pio.WriteU16BE(b, n, uint16(len(p.K)))
 				pio.WriteString(b, n, p.K)
 				FillAMF0Val(b, n, p.V)
@@ -291,7 +291,7 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 	case AMFMap:
 		pio.WriteU8(b, n, objectmarker)
 		for _, p := range val {
-			if len(p.K) > 0 {
+			if len(p.K) > 0 && len(p.K) < 65536 {
 				pio.WriteU16BE(b, n, uint16(len(p.K)))
 				pio.WriteString(b, n, p.K)
 				FillAMF0Val(b, n, p.V)
-- 
2.43.0


From 22fb90dc1df142efbce7e14f9df13f48d8f24f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 119/120] fix: URLs with an empty port have the default port

---
 format/rtmp/client.go | 2 +-
 format/rtsp/client.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index a0bf3b4..a5b59a9 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -40,7 +40,7 @@ func UrlGetHost(u *url.URL) string {
 	case "rtmps":
 		defaultPort = "443"
 	}
-	if _, _, err := net.SplitHostPort(host); err != nil {
+	if u.Port() == "" {
 		host = net.JoinHostPort(u.Hostname(), defaultPort)
 	}
 	return host
diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index f630eaf..5f04859 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -92,8 +92,8 @@ func DialTimeout(uri string, timeout time.Duration) (self *Client, err error) {
 		return
 	}
 
-	if _, _, err := net.SplitHostPort(URL.Host); err != nil {
-		URL.Host = URL.Host + ":554"
+	if URL.Port() == "" {
+		URL.Host = strings.TrimSuffix(URL.Host, ":") + ":554"
 	}
 
 	dailer := net.Dialer{Timeout: timeout}
-- 
2.43.0


From 787a9077224b6d251ef0b027d19bdafbafdb7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:09 +0000
Subject: [PATCH 120/120] fix: seek all video tracks of an MP4 file, not only
 the first

---
 format/mp4/demuxer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 09497cd..017c4d7 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -186,15 +186,16 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 		return
 	}
 
+	target, found := tm, false
 	for _, stream := range self.streams {
 		if IsVideo(stream.codecType()) {
-			if err = stream.seekToTime(tm); err != nil {
+			if err = stream.seekToTime(target); err != nil {
 				return
 			}
-			if stream.sampleCount() > 0 {
+			if !found && stream.sampleCount() > 0 {
+				found = true
 				tm = stream.tsToTime(stream.dts)
 			}
-			break
 		}
 	}
 
-- 
2.43.0

