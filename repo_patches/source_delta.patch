From 6a05125f58b3c58fc99fde6a56ca8017850fdb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 01/30] fix: resume at a frame boundary and close the failed
 connection

After a write error the sender kept the unwritten tail of a partially written
frame and sent it as the beginning of the next connection, which tears the
frame and breaks the framing of the new stream. The failed connection was
never closed.
---
 connector.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/connector.go b/connector.go
index 478c0ce..acb18bc 100644
--- a/connector.go
+++ b/connector.go
@@ -35,6 +35,7 @@ type (
 		errChan      chan error
 		lock         *sync.Mutex
 		queue        *net.Buffers
+		partial      int64 // octets of the first queued frame already written to output
 	}
 
 	// Addr see net.Addr
@@ -82,7 +83,7 @@ func (c *Sender) flushQueue() {
 	defer c.lock.Unlock()
 
 	for len(*c.queue) > 0 {
-		_, err := c.queue.WriteTo(c.output)
+		err := c.writeQueue()
 
 		switch typeErr := err.(type) {
 		case nil:
@@ -90,13 +91,11 @@ func (c *Sender) flushQueue() {
 			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
 				return
 			}
-			c.errChan <- err
-			c.output = nil
+			c.disconnect(err)
 			return
 
 		default:
-			c.errChan <- err
-			c.output = nil
+			c.disconnect(err)
 			return
 		}
 	}
@@ -107,6 +106,31 @@ func (c *Sender) flushQueue() {
 	//log.Printf("<--\tget unlock")
 }
 
+// writeQueue writes the queued frames to the output and removes the frames completely written from the queue
+func (c *Sender) writeQueue() error {
+	buffers := append(net.Buffers(nil), *c.queue...)
+	buffers[0] = buffers[0][c.partial:]
+
+	n, err := buffers.WriteTo(c.output)
+	c.partial += n
+
+	for len(*c.queue) > 0 && c.partial >= int64(len((*c.queue)[0])) {
+		c.partial -= int64(len((*c.queue)[0]))
+		(*c.queue)[0] = nil
+		*c.queue = (*c.queue)[1:]
+	}
+
+	return err
+}
+
+// disconnect drops a failed output. the next output will start with the first frame not completely written
+func (c *Sender) disconnect(err error) {
+	c.errChan <- err
+	c.output.Close()
+	c.output = nil
+	c.partial = 0
+}
+
 func (c *Sender) runQueue() {
 	defer func() {
 		for len(*c.queue) > 0 {
-- 
2.43.0


From fbd86d4d14de3286bbcf68bb8338f9ca691edb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 02/30] fix: an unread error channel no longer blocks the
 sender

The second error blocked the sending goroutine forever when nobody reads the
error channel, as in the documented Dial example; after a write error this
happened with the queue lock held, so that every later Send blocked too.
---
 connector.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/connector.go b/connector.go
index acb18bc..5eac110 100644
--- a/connector.go
+++ b/connector.go
@@ -73,7 +73,7 @@ func (c *Sender) flushQueue() {
 	if c.output == nil {
 		var err error
 		if c.output, err = c.connector.Connect(); err != nil {
-			c.errChan <- err
+			c.report(err)
 			return
 		}
 	}
@@ -106,6 +106,14 @@ func (c *Sender) flushQueue() {
 	//log.Printf("<--\tget unlock")
 }
 
+// report sends an error to the error channel. the error is dropped when nobody reads the channel
+func (c *Sender) report(err error) {
+	select {
+	case c.errChan <- err:
+	default:
+	}
+}
+
 // writeQueue writes the queued frames to the output and removes the frames completely written from the queue
 func (c *Sender) writeQueue() error {
 	buffers := append(net.Buffers(nil), *c.queue...)
@@ -125,7 +133,7 @@ func (c *Sender) writeQueue() error {
 
 // disconnect drops a failed output. the next output will start with the first frame not completely written
 func (c *Sender) disconnect(err error) {
-	c.errChan <- err
+	c.report(err)
 	c.output.Close()
 	c.output = nil
 	c.partial = 0
-- 
2.43.0


From a367ef4a4926dee48d30b37b2f22b8a61414a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 03/30] fix: End of a sender neither panics nor races with Send

End panicked on a nil connection when nothing had been flushed or after a
write error; it read the queue without its lock; and messages accepted while
or after the queue was drained were silently lost. They are now written, or
refused with ErrBufferClose. A failing destination is retried every
millisecond instead of in a busy loop.
---
 connector.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/connector.go b/connector.go
index 5eac110..01238f2 100644
--- a/connector.go
+++ b/connector.go
@@ -35,6 +35,7 @@ type (
 		errChan      chan error
 		lock         *sync.Mutex
 		queue        *net.Buffers
+		ended        bool  // the queue is drained after End() and accepts no more message
 		partial      int64 // octets of the first queued frame already written to output
 	}
 
@@ -141,10 +142,15 @@ func (c *Sender) disconnect(err error) {
 
 func (c *Sender) runQueue() {
 	defer func() {
-		for len(*c.queue) > 0 {
+		for tries := 0; !c.drained(); tries++ {
+			if tries > 0 {
+				time.Sleep(time.Millisecond)
+			}
 			c.flushQueue()
 		}
-		c.output.Close()
+		if c.output != nil {
+			c.output.Close()
+		}
 		close(c.endCompleted)
 		close(c.errChan)
 	}()
@@ -162,6 +168,16 @@ func (c *Sender) runQueue() {
 	}
 }
 
+// drained tells if the queue is empty. after an empty queue is seen, no message can be queued
+func (c *Sender) drained() bool {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	c.ended = len(*c.queue) == 0
+
+	return c.ended
+}
+
 // Send send a Message to the log_sender goroutine
 func (c *Sender) Send(m Message) (err error) {
 	var msg []byte
@@ -172,8 +188,12 @@ func (c *Sender) Send(m Message) (err error) {
 	}
 
 	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if c.ended {
+		return ErrBufferClose
+	}
 	*c.queue = append(*c.queue, c.transport.Encode(msg))
-	c.lock.Unlock()
 
 	return
 }
-- 
2.43.0


From 1be328997368e14e74852967823f253da4feb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 04/30] fix: a message above the datagram limit no longer
 blocks the queue

Writing such a message fails with EMSGSIZE on every connection: it stayed at
the head of the queue, no later message was ever sent and End never returned.
It is now reported and removed.
---
 connector.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/connector.go b/connector.go
index 01238f2..6dc41a3 100644
--- a/connector.go
+++ b/connector.go
@@ -92,6 +92,13 @@ func (c *Sender) flushQueue() {
 			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
 				return
 			}
+			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.EMSGSIZE && c.partial == 0 {
+				// no connection will ever take this datagram
+				c.report(err)
+				(*c.queue)[0] = nil
+				*c.queue = (*c.queue)[1:]
+				continue
+			}
 			c.disconnect(err)
 			return
 
-- 
2.43.0


From e13dd682e38c9d1e9e25f0335339106ace8de3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 05/30] fix: printing and decoding of out of range priorities

---
 priority.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/priority.go b/priority.go
index 7682fab..0c2eba9 100644
--- a/priority.go
+++ b/priority.go
@@ -130,7 +130,11 @@ func (p Priority) Severity() Priority {
 }
 
 func (p Priority) String() string {
-	return facilityString[p.Facility()>>3] + "." + severityString[p.Severity()]
+	facility := "-"
+	if f := int(p.Facility() >> 3); f < len(facilityString) {
+		facility = facilityString[f]
+	}
+	return facility + "." + severityString[p.Severity()]
 }
 
 // Marshal5424 encode the priority to Syslog5424 format
@@ -181,6 +185,9 @@ func (p *Priority) Unmarshal5424(d []byte) error {
 		}
 		tp = tp*10 + int(v-'0')
 	}
+	if tp > severityMask|facilityMask {
+		return errors.New("bad format : " + string(d))
+	}
 	*p = Priority(tp)
 
 	return nil
-- 
2.43.0


From 758da59eb5481ae3de22437c593ff6025391308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 06/30] fix: structured data ids and names are always valid
 SD-NAMEs

---
 sdata/structured-data-encoder.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 6bab7b5..a9aecd3 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -76,7 +76,7 @@ func (e *encodeState) HeaderWrite(typ string, v reflect.Value) {
 	e.WriteByte('[')
 
 	if v.Type().Implements(sdpenType) {
-		e.Write([]byte(v.Interface().(SDIDLight).String()))
+		e.Write(validName(v.Interface().(SDIDLight).String()))
 	}
 }
 
@@ -207,7 +207,7 @@ func newMapEncoder(t reflect.Type) encoderFunc {
 		var sv stringValues = v.MapKeys()
 		sort.Sort(sv)
 		for _, k := range sv {
-			enc(e, v.MapIndex(k), []byte(k.String())[:])
+			enc(e, v.MapIndex(k), validName(k.String()))
 		}
 		e.WriteByte(']')
 	}
@@ -233,12 +233,29 @@ func newStructEncoder(t reflect.Type) encoderFunc {
 				}
 				continue
 			}
-			newTypeEncoder(sf.Type, false)(e, f, name)
+			newTypeEncoder(sf.Type, false)(e, f, validName(string(name)))
 		}
 		e.WriteByte(']')
 	}
 }
 
+// validName gives a valid SD-NAME : 1 to 32 printable ASCII characters except '=', ']' and '"'
+func validName(name string) []byte {
+	if name == "" {
+		return []byte{'-'}
+	}
+	data := []byte(name)
+	if len(data) > 32 {
+		data = data[:32]
+	}
+	for i, c := range data {
+		if c < 33 || c > 126 || c == '=' || c == ']' || c == '"' {
+			data[i] = '%'
+		}
+	}
+	return data
+}
+
 func getName(field reflect.StructField) ([]byte, bool) {
 	name := field.Name
 	tag := field.Tag.Get("sd5424")
-- 
2.43.0


From 8cdd5223f7133147f78008d02baa56f7cba4a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 07/30] fix: encoding of arrays, interfaces, nil maps, private
 and missing fields

---
 sdata/errors.go                  | 10 ++++++++++
 sdata/structured-data-encoder.go | 25 +++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/sdata/errors.go b/sdata/errors.go
index a193132..19989d9 100644
--- a/sdata/errors.go
+++ b/sdata/errors.go
@@ -22,6 +22,12 @@ type (
 		Value reflect.Value
 	}
 
+	// MissingFieldError …
+	MissingFieldError struct {
+		Type  reflect.Type
+		Field string
+	}
+
 	// InvalidUnmarshalError …
 	InvalidUnmarshalError struct {
 		Type reflect.Type
@@ -36,6 +42,10 @@ func (e *InvalidValueError) Error() string {
 	return fmt.Sprintf("StructuredData: unsupported type: %#v", e.Value)
 }
 
+func (e *MissingFieldError) Error() string {
+	return "StructuredData: missing mandatory field " + e.Field + " in type: " + e.Type.String()
+}
+
 func (e *MarshalerError) Error() string {
 	return "StructuredData: error calling Marshal5424 type " + e.Type.String() + ": " + e.Err.Error()
 }
diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index a9aecd3..1bb86a1 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -134,7 +134,7 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 			return encodeurFlemmard
 
 		case reflect.Interface:
-			return newTypeEncoder(t.Elem(), false)
+			return interfaceEncoder
 
 		case reflect.Slice, reflect.Array:
 			return newListEncoder(t)
@@ -146,7 +146,7 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 
 // encoder that delegate to the SDMarshaler the encoding
 func marshalerEncoder(e *encodeState, v reflect.Value, prefix []byte) {
-	if v.Kind() == reflect.Ptr && v.IsNil() {
+	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
 		return
 	}
 
@@ -175,13 +175,19 @@ func newMaybeEncoder(t reflect.Type) encoderFunc {
 	}
 }
 
+// encoder for interface
+// the encoder is the one of the value held by the interface
+func interfaceEncoder(e *encodeState, v reflect.Value, prefix []byte) {
+	if v.IsNil() {
+		return
+	}
+	newTypeEncoder(v.Elem().Type(), false)(e, v.Elem(), prefix)
+}
+
 // encoder for list, array, slice of a type
 // this encoder acts like a "*" pattern in a regexp
 func newListEncoder(t reflect.Type) encoderFunc {
 	return func(e *encodeState, v reflect.Value, prefix []byte) {
-		if v.IsNil() {
-			return
-		}
 		enc := newTypeEncoder(t.Elem(), false)
 		n := v.Len()
 		for i := 0; i < n; i++ {
@@ -198,10 +204,6 @@ func newMapEncoder(t reflect.Type) encoderFunc {
 	enc := newTypeEncoder(t.Elem(), false)
 
 	return func(e *encodeState, v reflect.Value, _ []byte) {
-		if v.IsNil() {
-			return
-		}
-
 		e.HeaderWrite(t.Name(), v)
 
 		var sv stringValues = v.MapKeys()
@@ -228,8 +230,7 @@ func newStructEncoder(t reflect.Type) encoderFunc {
 			name, mandatory := getName(sf)
 			if !f.IsValid() || isEmptyValue(f) || len(name) == 0 {
 				if mandatory {
-					// TODO this must be an error
-					panic("missing mandatory field")
+					e.error(&MissingFieldError{t, sf.Name})
 				}
 				continue
 			}
@@ -260,7 +261,7 @@ func getName(field reflect.StructField) ([]byte, bool) {
 	name := field.Name
 	tag := field.Tag.Get("sd5424")
 
-	if tag == "-" {
+	if tag == "-" || field.PkgPath != "" {
 		return []byte{}, false
 	}
 	tagName, opts := parseTag(tag)
-- 
2.43.0


From 001d5e544f4236055fba7a0c3a1e8e9adad87284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 08/30] fix: timeQuality decoder and encoder never panic

---
 sdata/timequality/tq.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index 39343c8..cf9603c 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -1,8 +1,8 @@
 package timequality // import "github.com/nathanaelle/syslog5424/v2/sdata/timequality"
 
 import (
+	"bytes"
 	"errors"
-	"math"
 	"strconv"
 
 	"github.com/nathanaelle/syslog5424/v2/sdata"
@@ -58,15 +58,10 @@ func (d tqdef) MarshalText() (text []byte, err error) {
 }
 
 func (d tqdef) Found(data []byte) (sdata.StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if !bytes.HasPrefix(data, []byte("[timeQuality")) || data[len(data)-1] != ']' {
 		return nil, false
 	}
-	data = data[1 : len(data)-1]
-
-	if string(data[0:11]) != "timeQuality" {
-		return nil, false
-	}
-	data = data[11:]
+	data = data[12 : len(data)-1]
 	if len(data) == 0 {
 		return TimeQuality{false, false, nil}, true
 	}
@@ -152,7 +147,7 @@ func (tq TimeQuality) Marshal5424() ([]byte, error) {
 	}
 
 	if tq.SyncAccuracy != nil {
-		length += 15 + int(math.Floor(math.Log(float64(*tq.SyncAccuracy))+1))
+		length += 16 + len(strconv.Itoa(*tq.SyncAccuracy))
 	}
 
 	ret := append(make([]byte, 0, length), []byte("[timeQuality")...)
-- 
2.43.0


From f224409cf62857a2b84063fe73645e761cb0e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 09/30] fix: structured data elements without parameters, short
 and nameless elements

---
 sdata/sd-generic.go | 19 ++++++-------------
 sdata/sd-unknown.go | 27 ++++++++++++++++++++++-----
 sdata/tokens.go     |  3 +++
 3 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 579cb9f..35bda04 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -45,22 +45,11 @@ func (sdid genericSDID) MarshalText() (text []byte, err error) {
 }
 
 func (sdid genericSDID) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if string(data) != "["+sdid.String()+"]" {
 		return nil, false
 	}
-	data = data[1 : len(data)-1]
 
-	header := sdid.String()
-	if string(data[0:len(header)]) != header {
-		return nil, false
-	}
-
-	data = data[len(header):]
-	if len(data) == 0 {
-		return genericSD{sdid, nil}, true
-	}
-
-	return nil, false
+	return genericSD{sdid, nil}, true
 }
 
 func (sd genericSD) SDID() SDID {
@@ -68,6 +57,10 @@ func (sd genericSD) SDID() SDID {
 }
 
 func (sd genericSD) Marshal5424() ([]byte, error) {
+	if sd.Interface == nil && sd.sdid.SDIDLight != nil {
+		// identifier without parameters, see Found()
+		return append(append([]byte{'['}, validName(sd.sdid.String())...), ']'), nil
+	}
 	e := &encodeState{}
 	err := e.marshal(sd.Interface)
 	if err != nil {
diff --git a/sdata/sd-unknown.go b/sdata/sd-unknown.go
index 5eee3f0..e5c9380 100644
--- a/sdata/sd-unknown.go
+++ b/sdata/sd-unknown.go
@@ -1,5 +1,9 @@
 package sdata // import "github.com/nathanaelle/syslog5424/v2/sdata"
 
+import (
+	"bytes"
+)
+
 type (
 	unknownDef struct{}
 
@@ -43,20 +47,24 @@ func (d unknownDef) MarshalText() (text []byte, err error) {
 }
 
 func (d unknownDef) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
+	if bytes.IndexByte(data, ' ') < 0 {
+		// identifier without parameters
+		if !validHeader(data) {
+			return nil, false
+		}
+		return unknownSD{string(data), nil}, true
+	}
+
 	header, data, err := NextHeader(data)
 	if err != nil {
 		return nil, false
 	}
 
-	if len(data) == 0 {
-		return unknownSD{header, nil}, true
-	}
-
 	ret := unknownSD{header, nil}
 
 	for len(data) > 0 {
@@ -82,6 +90,15 @@ func (d unknownDef) Found(data []byte) (StructuredData, bool) {
 	return ret, true
 }
 
+func validHeader(data []byte) bool {
+	for _, c := range data {
+		if c <= ' ' || c == '=' || c == 127 || c == ']' || c == '"' {
+			return false
+		}
+	}
+	return len(data) > 0
+}
+
 func (d unknownSD) SDID() SDID {
 	return unknownSDID
 }
diff --git a/sdata/tokens.go b/sdata/tokens.go
index 78a6836..a0faf95 100644
--- a/sdata/tokens.go
+++ b/sdata/tokens.go
@@ -66,6 +66,9 @@ func NextSDName(data []byte) (name string, ret []byte, err error) {
 
 		}
 		if data[length] == '=' {
+			if length == 0 {
+				return "", nil, fmt.Errorf("unexpected =")
+			}
 			ret = ret[1:]
 			name = string(data[0:length])
 			return
-- 
2.43.0


From 06fd8de3cfdb09d4c6e873a02c3031b1a29c90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 10/30] fix: header of RFC 5425 frames: short frames, malformed
 and huge lengths

---
 transport.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/transport.go b/transport.go
index abeb88d..ebd856f 100644
--- a/transport.go
+++ b/transport.go
@@ -34,6 +34,9 @@ type (
 	}
 )
 
+// maxHeader is the maximal length of the header of a RFC 5425 frame
+const maxHeader = 20
+
 var (
 	// TransportZeroEnded is commonly used transport with "unix" and "unixgram"
 	TransportZeroEnded Transport = tZeroEnded{}
@@ -77,12 +80,26 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 		return nil, nil, nil
 	}
 
-	if len(buffer) < 20 {
-		return nil, nil, nil
+	sepPos := 0
+	for sepPos < len(buffer) && '0' <= buffer[sepPos] && buffer[sepPos] <= '9' {
+		sepPos++
 	}
 
-	sepPos := bytes.IndexByte(buffer, ' ')
-	if sepPos <= 0 {
+	switch {
+	case sepPos >= maxHeader:
+		return nil, nil, ErrTransportNoHeader
+
+	case sepPos == len(buffer):
+		// the header may continue
+		if atEOF {
+			return nil, nil, ErrTransportIncomplete
+		}
+		return nil, nil, nil
+
+	case buffer[sepPos] != ' ':
+		return nil, nil, ErrTransportInvHeader
+
+	case sepPos == 0:
 		return nil, nil, ErrTransportNoHeader
 	}
 
@@ -92,15 +109,14 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 	}
 
 	start := sepPos + 1
-	lenBuff := start + lenMsg
-	if len(buffer) < lenBuff {
+	if len(buffer)-start < lenMsg {
 		if atEOF {
 			return buffer[start:], nil, ErrTransportIncomplete
 		}
 		return nil, nil, nil
 	}
 
-	return buffer[start:lenBuff], buffer[lenBuff:], nil
+	return buffer[start : start+lenMsg], buffer[start+lenMsg:], nil
 }
 
 func (t tZeroEnded) SuffixStrip(buffer []byte, atEOF bool) (data, rest []byte, err error) {
-- 
2.43.0


From f59ca7460150243901b4d2f677f511fdd9f3df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 11/30] fix: decoding of structured data and frame isolation in
 Parse

the frame is isolated before the message is decoded, the structured data is
scanned with its quotes and escapes, a text holding brackets or an element
without parameters doesn't confuse the decoder any more, and a message without
text doesn't panic
---
 message-immutable.go | 170 ++++++++++++++++---------------------------
 1 file changed, 63 insertions(+), 107 deletions(-)

diff --git a/message-immutable.go b/message-immutable.go
index 3cd99db..a50af23 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -138,148 +138,104 @@ func (msg MessageImmutable) WriteTo(w io.Writer) (n int64, err error) {
 }
 
 // Parse allow to parse a []byte and decode one ImmutableMessage
+//
+// rest is what follows the frame of the message. rest is nil when there is no transport
+// or when the end of the frame isn't in data.
 func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmutable, rest []byte, mainErr error) {
-	sepSp := []byte{' '}
-	sepBrk := []byte{']'}
-
 	if transport != nil {
-		data, rest, mainErr = transport.PrefixStrip(data, atEOF)
-		//log.Printf("P {%q} {%q} %v\n", data, rest, mainErr)
-		if data == nil && rest == nil && mainErr == nil {
+		data, rest, mainErr = stripFrame(data, transport, atEOF)
+		if mainErr != nil || (data == nil && rest == nil) {
 			return
 		}
 	}
 
+	returnMsg, mainErr = parseMessage(data)
+	return
+}
+
+// stripFrame isolate the first frame of data.
+// rest is nil when the end of the frame isn't in data
+func stripFrame(data []byte, transport Transport, atEOF bool) (frame, rest []byte, err error) {
+	frame, rest, err = transport.PrefixStrip(data, atEOF)
+	if err != nil || rest != nil || frame == nil {
+		return
+	}
+	return transport.SuffixStrip(frame, atEOF)
+}
+
+// parseMessage decode exactly one message
+func parseMessage(data []byte) (MessageImmutable, error) {
+	sepSp := []byte{' '}
+
 	msg := MessageImmutable{
 		buffer: data,
 		index:  make([]int, 0, 8),
 		text:   -1,
 	}
 
-	parts := 0
 	begin := 0
-	for len(data) > 0 && parts < 6 {
+	for parts := 0; parts < 6; parts++ {
 		end, err := searchNextSep(data[begin:], sepSp)
 		if err != nil {
-			//log.Printf("%s index %#d parts %d rest %s ", string(msg.buffer), msg.index, parts, data[begin:])
-			mainErr = dispatchError(mainErr, err)
-			return
+			return MessageImmutable{}, err
 		}
 		msg.index = append(msg.index, begin+end)
 		begin = begin + end + 1
-		parts++
-	}
-
-	if len(data[begin:]) == 0 {
-		mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
-		return
 	}
 
-	if len(data[begin:]) == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
-			return
-		}
-		msg.index = append(msg.index, begin+2)
-
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-		return
-	}
-
-	end, err := searchNextSep(data[begin:], sepSp)
-	if err != nil {
-		mainErr = dispatchError(mainErr, err)
-		return
-	}
-
-	if end == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty structured data expected"})
-			return
-		}
-
-		msg.index = append(msg.index, begin+1)
-		msg.text = begin + 2
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-		return
+	if len(data) == begin {
+		return MessageImmutable{}, ParseError{data, begin, "structured data expected"}
 	}
 
-	t := begin
-	for len(data[t:]) > 0 {
-		end, err = searchNextSep(data[t:], sepBrk)
-
-		switch err {
-		case nil:
-			if data[t+end-1] == '\\' {
-				t = t + end + 1
-				continue
-			}
+	switch data[begin] {
+	case '-':
+		begin++
+		msg.index = append(msg.index, begin)
 
-			if data[t+end-1] == '"' {
-				msg.index = append(msg.index, t+end+1)
-				begin = t + end + 1
-				t = begin
-				if len(data) <= begin {
-					returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-					return
-				}
-				continue
+	case '[':
+		for begin < len(data) && data[begin] == '[' {
+			end, err := searchElementEnd(data, begin)
+			if err != nil {
+				return MessageImmutable{}, err
 			}
-
-			mainErr = dispatchError(mainErr, ParseError{data, t + end - 1, `\\ or " expected`})
-			return
-
-		case ErrPosNotFound:
-			msg.text = begin + 1
-
-			returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-			return
-
-		default:
-			mainErr = dispatchError(mainErr, err)
-			return
+			begin = end
+			msg.index = append(msg.index, begin)
 		}
-	}
-	mainErr = dispatchError(mainErr, ErrImpossible)
-	return
-}
 
-func dispatchError(mainErr, err error) (returnErr error) {
-	switch mainErr {
-	case nil:
-		returnErr = err
 	default:
-		returnErr = mainErr
+		return MessageImmutable{}, ParseError{data, begin, "structured data expected"}
 	}
-	return
-}
-
-func parseReturn(msg MessageImmutable, transport Transport, atEOF bool, oData, oRest []byte) (returnMsg MessageImmutable, data, rest []byte, mainErr error) {
-	data = oData
-	rest = oRest
 
-	if transport == nil {
-		returnMsg = msg
-		return
+	if len(data) == begin {
+		return msg, nil
 	}
 
-	if rest != nil {
-		returnMsg = msg
-		return
+	if data[begin] != ' ' {
+		return MessageImmutable{}, ParseError{data, begin, "space expected after structured data"}
 	}
 
-	data, rest, mainErr = transport.SuffixStrip(data[msg.text:], atEOF)
-	//log.Printf("RET\t{%q} {%q} %v\n", data, rest, mainErr)
-	if data == nil && rest == nil && mainErr == nil {
-		return
-	}
+	msg.text = begin + 1
+	return msg, nil
+}
+
+// searchElementEnd search the end of the structured data element which starts at begin
+func searchElementEnd(data []byte, begin int) (int, error) {
+	quoted := false
+	for i := begin + 1; i < len(data); i++ {
+		switch {
+		case data[i] == '"':
+			quoted = !quoted
 
-	end := msg.text + len(data)
-	if len(msg.buffer) > end {
-		msg.buffer = msg.buffer[:end]
+		case quoted && data[i] == '\\':
+			i++
 
+		case data[i] == ']' && quoted:
+			return 0, ParseError{data, i, `\ or " expected`}
+
+		case data[i] == ']':
+			return i + 1, nil
+		}
 	}
 
-	returnMsg = msg
-	return
+	return 0, ParseError{data, len(data), "] expected"}
 }
-- 
2.43.0


From 3e36267c63f3662e7362b1f9eaddbcb4c90ccbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 12/30] fix: reading of a connection by a receiver

frames longer than the read buffer, incomplete frames at end of input, broken
framing and read errors no longer loop forever, lose messages or go unreported
---
 errors.go            |  1 +
 listener.go          | 90 +++++++++++++++++++++++++-------------------
 message-immutable.go |  2 +-
 3 files changed, 53 insertions(+), 40 deletions(-)

diff --git a/errors.go b/errors.go
index b963484..d7048c1 100644
--- a/errors.go
+++ b/errors.go
@@ -26,6 +26,7 @@ var (
 	ErrEmptyNetworkAddress = errors.New("Empty Network or Address")
 
 	ErrTransportIncomplete = errors.New("Transport : Incomplete Message")
+	ErrTransportTooLong    = errors.New("Transport : Message Too Long")
 	ErrTransportNoHeader   = errors.New("T_RFC5425 Split: no header len")
 	ErrTransportInvHeader  = errors.New("T_RFC5425 Split: invalid header len")
 )
diff --git a/listener.go b/listener.go
index 86d4b65..7dc3e02 100644
--- a/listener.go
+++ b/listener.go
@@ -42,7 +42,15 @@ type (
 	}
 )
 
-const readBuffer = 1 << 16
+const (
+	readBuffer = 1 << 16
+
+	// minRead is the minimal space available for a Read()
+	minRead = 500
+
+	// maxFrame is the maximal length of an incomplete frame
+	maxFrame = 1 << 24
+)
 
 // NewReceiver create a new Listener
 //
@@ -101,63 +109,67 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 	defer conn.Close()
 
-	var eof bool
-
 	done := 0
-	count := 0
-	total := 0
 	buffer := make([]byte, readBuffer)
 	for {
 		lenRead, err := conn.Read(buffer[done:])
-		total += lenRead
-		if err == io.EOF {
-			eof = true
-			err = nil
+		eof := err == io.EOF
+
+		rest, ok := r.deliver(buffer[:done+lenRead], eof)
+		if !ok {
+			return
 		}
-		//log.Printf("EOF\t%v %v %v %v", count, total, lenRead, err)
 
 		if err != nil {
-			chanErr <- err
-		}
-		if lenRead == 0 && eof {
+			if !eof {
+				select {
+				case chanErr <- err:
+				default:
+				}
+			}
 			return
 		}
-		if lenRead == 0 {
-			continue
-		}
 
-		lenRead += done
-		data := buffer[0:lenRead]
-		for {
-			msg, rest, parseErr := Parse(data, r.transport, eof)
+		// the decoded messages share the buffer, so it's never rewritten
+		buffer = buffer[done+lenRead-len(rest):]
+		done = len(rest)
 
-			if rest == nil {
-				//log.Printf("NIL\t{%q} {%q} %v %v %v", msg, data[0:10], len(rest), rest == nil, parseErr)
-				//log.Printf("NIL\t%v %v %v %v", count, total, lenRead, parseErr)
-				break
-			}
-			data = rest
+		if done > maxFrame {
+			r.pipeline <- messageErrorPair{MessageImmutable{}, ErrTransportTooLong}
+			return
+		}
 
-			count++
-			r.pipeline <- messageErrorPair{msg, parseErr}
-			if len(rest) == 0 {
-				break
+		if len(buffer)-done < minRead {
+			size := readBuffer
+			if size < 2*done {
+				size = 2 * done
 			}
+			buffer = make([]byte, size)
+			copy(buffer, rest)
 		}
+	}
+}
 
-		done = len(data)
-		buffer = buffer[lenRead-done:]
-
-		if len(buffer) < 500 {
-			old := buffer
-			buffer = make([]byte, readBuffer)
-			copy(buffer[0:len(old)], old)
+// deliver decode and queue all the frames of data.
+// rest is the begin of an incomplete frame, ok is false when nothing else can be decoded
+func (r *Receiver) deliver(data []byte, eof bool) (rest []byte, ok bool) {
+	for len(data) > 0 {
+		frame, rest, err := stripFrame(data, r.transport, eof)
+		if err != nil {
+			r.pipeline <- messageErrorPair{MessageImmutable{}, err}
+			return nil, false
 		}
 
-		if eof == true {
-			return
+		if rest == nil && !eof {
+			return data, true
 		}
+
+		msg, err := parseMessage(frame)
+		r.pipeline <- messageErrorPair{msg, err}
+		data = rest
 	}
+
+	return data, true
 }
 
 // Receive an incoming syslog message and a possible error that occured during the decoding of this syslog message
diff --git a/message-immutable.go b/message-immutable.go
index a50af23..6b547fd 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -168,7 +168,7 @@ func parseMessage(data []byte) (MessageImmutable, error) {
 	sepSp := []byte{' '}
 
 	msg := MessageImmutable{
-		buffer: data,
+		buffer: data[:len(data):len(data)],
 		index:  make([]int, 0, 8),
 		text:   -1,
 	}
-- 
2.43.0


From 2957bd8d8d531c60986e7725bd3122a24d57edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 13/30] fix: failed Accept and End of a receiver

a failed Accept no longer crashes the receiver or blocks it on an unread error
channel; End closes the listener and the connections, stops the goroutines and
reports nothing
---
 listener-unixdgram.go |  26 +++++--
 listener.go           | 162 +++++++++++++++++++++++++++++++++---------
 2 files changed, 152 insertions(+), 36 deletions(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 5a23987..78c1a2c 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -4,13 +4,16 @@ import (
 	"errors"
 	"net"
 	"os"
+	"sync"
 )
 
 type (
 	unixgramReceiver struct {
 		listener *net.UnixConn
 		accepted bool
+		closed   bool
 		end      chan struct{}
+		lock     sync.Mutex
 	}
 
 	fakeConn struct {
@@ -61,19 +64,34 @@ func UnixgramListener(address string) (Listener, error) {
 }
 
 func (r *unixgramReceiver) Close() error {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
+	if r.closed {
+		return nil
+	}
+	r.closed = true
 	close(r.end)
+
+	// like an accepted connection, an accepted socket is closed by its reader
+	if r.accepted {
+		return nil
+	}
 	return r.listener.Close()
 }
 
 // mimic an Accept
 func (r *unixgramReceiver) Accept() (DataReader, error) {
-	if r.accepted {
+	r.lock.Lock()
+	available := !r.closed && !r.accepted
+	r.accepted = r.accepted || available
+	r.lock.Unlock()
+
+	if !available {
 		<-r.end
 		return nil, errors.New("end")
 	}
 
-	r.accepted = true
-
 	fc := &fakeConn{
 		end:  r.end,
 		conn: r.listener,
@@ -87,7 +105,7 @@ func (r *fakeConn) RemoteAddr() net.Addr {
 }
 
 func (r *fakeConn) Close() error {
-	return nil
+	return r.conn.Close()
 }
 
 func (r *fakeConn) Read(data []byte) (int, error) {
diff --git a/listener.go b/listener.go
index 7dc3e02..a940389 100644
--- a/listener.go
+++ b/listener.go
@@ -2,7 +2,10 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 
 import (
 	"io"
+	"io/ioutil"
 	"net"
+	"sync"
+	"time"
 	//	"log"
 )
 
@@ -40,6 +43,19 @@ type (
 		m MessageImmutable
 		e error
 	}
+
+	readState int
+)
+
+const (
+	// stateReading means more data is expected
+	stateReading readState = iota
+
+	// stateBroken means nothing else can be decoded from the connection
+	stateBroken
+
+	// stateEnded means the receiver is ended
+	stateEnded
 )
 
 const (
@@ -50,6 +66,12 @@ const (
 
 	// maxFrame is the maximal length of an incomplete frame
 	maxFrame = 1 << 24
+
+	// acceptDelay is the delay before a new Accept() after a failed one
+	acceptDelay = 5 * time.Millisecond
+
+	// endDelay is the delay between End() and the close of the connections
+	endDelay = time.Second
 )
 
 // NewReceiver create a new Listener
@@ -86,48 +108,121 @@ func NewReceiver(listener Listener, lenQueue int, t Transport) (*Receiver, <-cha
 }
 
 func (r *Receiver) runQueue(chanErr chan<- error) {
-	defer r.listener.Close()
+	wg := new(sync.WaitGroup)
+
 	defer close(r.pipeline)
+	defer wg.Wait()
 
 	for {
-		select {
-		case <-r.end:
-			return
+		delay := time.Duration(0)
+
+		conn, err := r.listener.Accept()
+		switch err {
+		case nil:
+			wg.Add(1)
+			go r.serve(conn, wg, chanErr)
 
 		default:
-			conn, err := r.listener.Accept()
-			if err != nil {
-				chanErr <- err
-			}
+			r.report(chanErr, err)
+			delay = acceptDelay
+		}
+
+		if r.endedWithin(delay) {
+			return
+		}
+	}
+}
+
+// serve read a connection until its end or the end of the receiver.
+// a peer which is writing at the end of the receiver has endDelay to finish
+func (r *Receiver) serve(conn DataReader, wg *sync.WaitGroup, chanErr chan<- error) {
+	defer wg.Done()
 
-			go r.tokenize(conn, chanErr)
+	over := make(chan struct{})
+	closed := make(chan struct{})
+	go func() {
+		select {
+		case <-over:
+		case <-r.end:
+			select {
+			case <-over:
+			case <-time.After(endDelay):
+			}
 		}
+		conn.Close()
+		close(closed)
+	}()
+
+	if ended := r.tokenize(conn, chanErr); ended {
+		io.Copy(ioutil.Discard, conn)
+	}
+	close(over)
+	<-closed
+}
+
+// endedWithin tells if the receiver is ended before a delay
+func (r *Receiver) endedWithin(delay time.Duration) bool {
+	select {
+	case <-r.end:
+		return true
+	default:
+	}
+
+	if delay == 0 {
+		return false
 	}
 
+	select {
+	case <-r.end:
+		return true
+	case <-time.After(delay):
+		return false
+	}
+}
+
+// report an error unless the receiver is ended or nobody read the errors
+func (r *Receiver) report(chanErr chan<- error, err error) {
+	if r.endedWithin(0) {
+		return
+	}
+
+	select {
+	case chanErr <- err:
+	default:
+	}
 }
 
-func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
-	defer conn.Close()
+// push queue a result unless the receiver is ended
+func (r *Receiver) push(msg MessageImmutable, err error) bool {
+	if r.endedWithin(0) {
+		return false
+	}
+
+	select {
+	case <-r.end:
+		return false
+	case r.pipeline <- messageErrorPair{msg, err}:
+		return true
+	}
+}
 
+// tokenize decode a connection. it tells if the receiver is ended before the connection
+func (r *Receiver) tokenize(conn io.Reader, chanErr chan<- error) (ended bool) {
 	done := 0
 	buffer := make([]byte, readBuffer)
 	for {
 		lenRead, err := conn.Read(buffer[done:])
 		eof := err == io.EOF
 
-		rest, ok := r.deliver(buffer[:done+lenRead], eof)
-		if !ok {
-			return
+		rest, state := r.deliver(buffer[:done+lenRead], eof)
+		if err != nil && !eof {
+			r.report(chanErr, err)
 		}
-
-		if err != nil {
-			if !eof {
-				select {
-				case chanErr <- err:
-				default:
-				}
-			}
-			return
+		if err != nil || state == stateBroken {
+			return false
+		}
+		if state == stateEnded {
+			return true
 		}
 
 		// the decoded messages share the buffer, so it's never rewritten
@@ -135,8 +230,8 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		done = len(rest)
 
 		if done > maxFrame {
-			r.pipeline <- messageErrorPair{MessageImmutable{}, ErrTransportTooLong}
-			return
+			r.push(MessageImmutable{}, ErrTransportTooLong)
+			return false
 		}
 
 		if len(buffer)-done < minRead {
@@ -151,25 +246,27 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 }
 
 // deliver decode and queue all the frames of data.
-// rest is the begin of an incomplete frame, ok is false when nothing else can be decoded
-func (r *Receiver) deliver(data []byte, eof bool) (rest []byte, ok bool) {
+// rest is the begin of an incomplete frame
+func (r *Receiver) deliver(data []byte, eof bool) (rest []byte, state readState) {
 	for len(data) > 0 {
 		frame, rest, err := stripFrame(data, r.transport, eof)
 		if err != nil {
-			r.pipeline <- messageErrorPair{MessageImmutable{}, err}
-			return nil, false
+			r.push(MessageImmutable{}, err)
+			return nil, stateBroken
 		}
 
 		if rest == nil && !eof {
-			return data, true
+			return data, stateReading
 		}
 
 		msg, err := parseMessage(frame)
-		r.pipeline <- messageErrorPair{msg, err}
+		if !r.push(msg, err) {
+			return nil, stateEnded
+		}
 		data = rest
 	}
 
-	return data, true
+	return data, stateReading
 }
 
 // Receive an incoming syslog message and a possible error that occured during the decoding of this syslog message
@@ -182,4 +279,5 @@ func (r *Receiver) Receive() (MessageImmutable, error, bool) {
 // End terminate the log_collector goroutine
 func (r *Receiver) End() {
 	close(r.end)
+	r.listener.Close()
 }
-- 
2.43.0


From 1ed19be96dafb6bed6aec68689e4c1a2d911f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 14/30] fix: a bad datagram no longer disturbs the other
 datagrams of the socket

---
 listener-unixdgram.go | 10 ++++++++++
 listener.go           | 16 ++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 78c1a2c..252f6c3 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -108,6 +108,16 @@ func (r *fakeConn) Close() error {
 	return r.conn.Close()
 }
 
+// pending tells if a part of the last datagram isn't read
+func (r *fakeConn) pending() bool {
+	return len(r.buff) > 0
+}
+
+// discard what isn't read of the last datagram
+func (r *fakeConn) discard() {
+	r.buff = nil
+}
+
 func (r *fakeConn) Read(data []byte) (int, error) {
 	if len(r.buff) == 0 {
 		s, _, err := r.conn.ReadFrom(r.rbuff[:])
diff --git a/listener.go b/listener.go
index a940389..40c499f 100644
--- a/listener.go
+++ b/listener.go
@@ -208,13 +208,21 @@ func (r *Receiver) push(msg MessageImmutable, err error) bool {
 
 // tokenize decode a connection. it tells if the receiver is ended before the connection
 func (r *Receiver) tokenize(conn io.Reader, chanErr chan<- error) (ended bool) {
+	dgram, isDgram := conn.(*fakeConn)
 	done := 0
 	buffer := make([]byte, readBuffer)
 	for {
 		lenRead, err := conn.Read(buffer[done:])
 		eof := err == io.EOF
 
-		rest, state := r.deliver(buffer[:done+lenRead], eof)
+		// a frame never continues in the next datagram
+		lastPart := eof || (isDgram && !dgram.pending())
+
+		rest, state := r.deliver(buffer[:done+lenRead], lastPart)
+		if isDgram && state == stateBroken {
+			dgram.discard()
+			rest, state = nil, stateReading
+		}
 		if err != nil && !eof {
 			r.report(chanErr, err)
 		}
@@ -247,15 +255,15 @@ func (r *Receiver) tokenize(conn io.Reader, chanErr chan<- error) (ended bool) {
 
 // deliver decode and queue all the frames of data.
 // rest is the begin of an incomplete frame
-func (r *Receiver) deliver(data []byte, eof bool) (rest []byte, state readState) {
+func (r *Receiver) deliver(data []byte, lastPart bool) (rest []byte, state readState) {
 	for len(data) > 0 {
-		frame, rest, err := stripFrame(data, r.transport, eof)
+		frame, rest, err := stripFrame(data, r.transport, lastPart)
 		if err != nil {
 			r.push(MessageImmutable{}, err)
 			return nil, stateBroken
 		}
 
-		if rest == nil && !eof {
+		if rest == nil && !lastPart {
 			return data, stateReading
 		}
 
-- 
2.43.0


From 20823a6b1a2a49c92738f61bb86632292e8ec034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 15/30] fix: listeners remove nothing but stale sockets

---
 listener-unix.go      | 59 ++++++++++++++++++++++++++++++++-----------
 listener-unixdgram.go | 19 ++++----------
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/listener-unix.go b/listener-unix.go
index d68f167..c9f7ff8 100644
--- a/listener-unix.go
+++ b/listener-unix.go
@@ -3,6 +3,7 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 import (
 	"net"
 	"os"
+	"syscall"
 )
 
 type (
@@ -23,29 +24,57 @@ func UnixListener(address string) (Listener, error) {
 	}
 
 	r.listener, err = net.ListenUnix("unix", uAddr)
-
-	for err != nil {
-		switch err.(type) {
-		case *net.OpError:
-			if err.(*net.OpError).Err.Error() != "bind: address already in use" {
-				return nil, err
-			}
-
-		default:
-			return nil, err
-		}
-
-		if _, osErr := os.Stat(address); osErr != nil {
+	if isStale(err, uAddr) {
+		if err = os.Remove(address); err != nil {
 			return nil, err
 		}
-		os.Remove(address)
-
 		r.listener, err = net.ListenUnix("unix", uAddr)
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	return r, nil
 }
 
+// isStale tells if a listen on addr failed because of a socket that nobody uses any more
+func isStale(err error, addr *net.UnixAddr) bool {
+	opErr, ok := err.(*net.OpError)
+	if !ok {
+		return false
+	}
+	sysErr, ok := opErr.Err.(*os.SyscallError)
+	if !ok || sysErr.Err != syscall.EADDRINUSE {
+		return false
+	}
+
+	fi, err := os.Lstat(addr.Name)
+	if err != nil || fi.Mode()&os.ModeSocket == 0 {
+		return false
+	}
+
+	for _, network := range []string{"unix", "unixgram"} {
+		conn, err := net.DialUnix(network, nil, &net.UnixAddr{Name: addr.Name, Net: network})
+		if err == nil {
+			conn.Close()
+			return false
+		}
+		opErr, ok := err.(*net.OpError)
+		if !ok {
+			return false
+		}
+		sysErr, ok := opErr.Err.(*os.SyscallError)
+		if !ok {
+			return false
+		}
+		if sysErr.Err == syscall.ECONNREFUSED {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (r *unixReceiver) Accept() (DataReader, error) {
 	conn, err := r.listener.AcceptUnix()
 	if err != nil {
diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 252f6c3..459fdcb 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -37,24 +37,15 @@ func UnixgramListener(address string) (Listener, error) {
 	}
 
 	r.listener, err = net.ListenUnixgram("unixgram", uAddr)
-	for err != nil {
-		switch err.(type) {
-		case *net.OpError:
-			if err.(*net.OpError).Err.Error() != "bind: address already in use" {
-				return nil, err
-			}
-
-		default:
+	if isStale(err, uAddr) {
+		if err = os.Remove(address); err != nil {
 			return nil, err
 		}
-
-		if _, osErr := os.Stat(address); osErr != nil {
-			return nil, err
-		}
-		os.Remove(address)
-
 		r.listener, err = net.ListenUnixgram("unixgram", uAddr)
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	r.listener.SetWriteBuffer(0)
 	r.listener.CloseWrite()
-- 
2.43.0


From 25ac837094f5b90e2fb4de02188fa257f6c045e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 16/30] fix: a host without address of the wanted family is not
 a connection

---
 connector-tcp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connector-tcp.go b/connector-tcp.go
index fd55ec9..d3dbed2 100644
--- a/connector-tcp.go
+++ b/connector-tcp.go
@@ -70,6 +70,10 @@ func (c *tcpConn) Connect() (conn WriteCloser, err error) {
 		ips = rawips
 	}
 
+	if len(ips) == 0 {
+		return nil, ErrNoConnection
+	}
+
 	var contcp *net.TCPConn
 	for _, ip := range ips {
 		addr := &net.TCPAddr{IP: ip.IP, Port: port, Zone: ip.Zone}
-- 
2.43.0


From 4060eb813a1f7b30de62c53cb9d704232d83d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 17/30] fix: a TCP port out of range is not truncated to
 another port

---
 connector-tcp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connector-tcp.go b/connector-tcp.go
index d3dbed2..db7714b 100644
--- a/connector-tcp.go
+++ b/connector-tcp.go
@@ -43,6 +43,9 @@ func (c *tcpConn) Connect() (conn WriteCloser, err error) {
 		if err != nil {
 			return nil, err
 		}
+		if port < 0 || port > 65535 {
+			return nil, ErrInvalidAddress
+		}
 	}
 
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-- 
2.43.0


From bf11586d595026e915fe9f522fbe1ba8d33f9881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 18/30] fix: List.Add never changes another list

---
 sdata/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdata/list.go b/sdata/list.go
index 547dd7a..1211448 100644
--- a/sdata/list.go
+++ b/sdata/list.go
@@ -76,9 +76,12 @@ func RegisterGroup(sdids ...SDID) {
 }
 
 // Add append data to a list of structured data
+// the returned list shares nothing with listSD
 func (listSD List) Add(data ...StructuredData) List {
+	ret := make([]StructuredData, 0, len(listSD)+len(data))
+	ret = append(ret, listSD...)
 
-	return List(append([]StructuredData(listSD), data...))
+	return List(append(ret, data...))
 }
 
 // Marshal5424 encode a Structured Data to syslog 5424 format
-- 
2.43.0


From ef09c75e59697d323669b3be3a6695c1c0519ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 19/30] fix: framing never writes behind the given message

---
 transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transport.go b/transport.go
index ebd856f..c6008c1 100644
--- a/transport.go
+++ b/transport.go
@@ -162,13 +162,13 @@ func (t tRFC5425) SuffixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 // Write a NULL terminated message.
 // see (Conn interface)[#Conn]
 func (t tZeroEnded) Encode(d []byte) []byte {
-	return append(d, byte(0))
+	return append(d[:len(d):len(d)], byte(0))
 }
 
 // Write a LF terminated message
 // see (Conn interface)[#Conn]
 func (t tLFEnded) Encode(d []byte) []byte {
-	return append(d, '\n')
+	return append(d[:len(d):len(d)], '\n')
 }
 
 // Write a RFC 5425 formated message
-- 
2.43.0


From f627f40fc5a013a3fb4dc89b73a9eb23b13167ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 20/30] fix: concurrent first use of Syslog.Channel and
 validity of sub-syslog names

---
 syslog.go | 61 ++++++++++++++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/syslog.go b/syslog.go
index 1de5193..8b2f22a 100644
--- a/syslog.go
+++ b/syslog.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"os"
 	"strconv"
+	"sync"
 )
 
 var (
@@ -17,6 +18,7 @@ type Syslog struct {
 	pid      string
 	appname  string
 	channels []Channel
+	once     sync.Once
 	output   *Sender
 	minSev   int
 }
@@ -60,25 +62,34 @@ func (syslog *Syslog) TestMode() {
 
 // Channel expose a custom channel for a priority
 func (syslog *Syslog) Channel(sev Priority) Channel {
-	if syslog.channels == nil {
-		syslog.channels = []Channel{
-			devNull, devNull, devNull, devNull,
-			devNull, devNull, devNull, devNull,
+	syslog.once.Do(func() {
+		if syslog.channels == nil {
+			syslog.channels = syslog.newChannels()
 		}
+	})
 
-		for sev := 0; sev <= syslog.minSev; sev++ {
-			syslog.channels[sev] = &trueChannel{msgChannel{
-				priority: syslog.facility | Priority(sev),
-				hostname: syslog.hostname,
-				pid:      syslog.pid,
-				appname:  syslog.appname,
-				msgid:    "-",
-				output:   syslog.output,
-			}}
-		}
+	return syslog.channels[sev.Severity()]
+}
+
+// newChannels create the channel of each severity
+func (syslog *Syslog) newChannels() []Channel {
+	channels := []Channel{
+		devNull, devNull, devNull, devNull,
+		devNull, devNull, devNull, devNull,
 	}
 
-	return syslog.channels[sev.Severity()]
+	for sev := 0; sev <= syslog.minSev; sev++ {
+		channels[sev] = &trueChannel{msgChannel{
+			priority: syslog.facility | Priority(sev),
+			hostname: syslog.hostname,
+			pid:      syslog.pid,
+			appname:  syslog.appname,
+			msgid:    "-",
+			output:   syslog.output,
+		}}
+	}
+
+	return channels
 }
 
 // SubSyslog create a syslog for a subAppName
@@ -97,25 +108,11 @@ func (syslog *Syslog) SubSyslog(subAppName string) (sub *Syslog) {
 		facility: syslog.facility,
 		hostname: syslog.hostname,
 		pid:      syslog.pid,
-		appname:  appname,
+		appname:  validApp(appname),
 		output:   syslog.output,
-		channels: []Channel{
-			devNull, devNull, devNull, devNull,
-			devNull, devNull, devNull, devNull,
-		},
-		minSev: syslog.minSev,
-	}
-
-	for sev := 0; sev <= syslog.minSev; sev++ {
-		sub.channels[sev] = &trueChannel{msgChannel{
-			priority: syslog.facility | Priority(sev),
-			hostname: syslog.hostname,
-			pid:      syslog.pid,
-			appname:  appname,
-			msgid:    "-",
-			output:   syslog.output,
-		}}
+		minSev:   syslog.minSev,
 	}
+	sub.channels = sub.newChannels()
 
 	return
 }
-- 
2.43.0


From cc7e165ea16400a216208a9706104a9490889373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 21/30] fix: channels derived from Msgid are no longer
 /dev/null

---
 channel.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/channel.go b/channel.go
index 0762c4a..ab96dd0 100644
--- a/channel.go
+++ b/channel.go
@@ -32,7 +32,6 @@ type (
 
 	// a msgChannel describe a channel with a MsgID already set
 	msgChannel struct {
-		devnull
 		priority Priority
 		hostname string
 		pid      string
@@ -47,7 +46,7 @@ type (
 	}
 )
 
-func (d *trueChannel) AppName(sup string) Channel {
+func (d *msgChannel) AppName(sup string) Channel {
 	var appname string
 
 	switch string(d.appname) {
@@ -67,7 +66,7 @@ func (d *trueChannel) AppName(sup string) Channel {
 	}}
 }
 
-func (d *trueChannel) Msgid(msgid string) Channel {
+func (d *msgChannel) Msgid(msgid string) Channel {
 	return &msgChannel{
 		priority: d.priority,
 		hostname: d.hostname,
-- 
2.43.0


From 34acdb8ae17d0e7d1ea17bc33b8c6a5b46871c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 22/30] fix: the local hostname is always a valid HOSTNAME

---
 message.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/message.go b/message.go
index 0b06c55..9fceade 100644
--- a/message.go
+++ b/message.go
@@ -25,7 +25,15 @@ type Message struct {
 // RFC5424TimeStamp is the format of a RFC 5424 TimeStamp
 const RFC5424TimeStamp string = "2006-01-02T15:04:05.999999Z07:00"
 
-var hostname, _ = os.Hostname()
+var hostname = localHostname()
+
+func localHostname() string {
+	name, err := os.Hostname()
+	if err != nil {
+		return "-"
+	}
+	return validHost(name)
+}
 
 // CreateMessage create a Message with the timestamp, hostname, appname, the priority and the message preset
 func CreateMessage(appname string, prio Priority, message string) Message {
-- 
2.43.0


From 4c40f6084b71576433e908cae3c429c375071ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 23/30] fix: List.Add copies once per call, not once per
 decoded element

---
 message-immutable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/message-immutable.go b/message-immutable.go
index 6b547fd..a550720 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -106,7 +106,7 @@ func (msg MessageImmutable) StructuredData() (lsd sdata.List) {
 		end := lsdIndex[0]
 		sd, ok := sdata.Parse(msg.buffer[begin:end])
 		if ok {
-			lsd = lsd.Add(sd)
+			lsd = append(lsd, sd)
 		}
 		begin = lsdIndex[0]
 		lsdIndex = lsdIndex[1:]
-- 
2.43.0


From d56904c3b06af8431b6ded157c5ffa505e42e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 24/30] fix: time elapsed since boot beyond 292 years

---
 message.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/message.go b/message.go
index 9fceade..3076203 100644
--- a/message.go
+++ b/message.go
@@ -82,7 +82,10 @@ func deltaBootToTs(bootTs time.Time, strSec string, strNsec string) time.Time {
 	sec, _ := strconv.ParseInt(strSec, 10, 64)
 	nsec, _ := strconv.ParseInt(strNsec, 10, 64)
 
-	return bootTs.Add(time.Duration(nsec)*time.Nanosecond + time.Duration(sec)*time.Second)
+	// a time.Duration is limited to 292 years
+	ts := bootTs.Add(time.Duration(nsec) * time.Nanosecond)
+
+	return time.Unix(ts.Unix()+sec, int64(ts.Nanosecond())).In(bootTs.Location())
 }
 
 // Delta set the timestamp from a time elapsed since boot time
-- 
2.43.0


From 84c4158472b7dbef1101e4465bcaf46cd732aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 25/30] fix: the connection returned with an error by a
 connector is never used

A connector which returns both results of net.DialTCP() gives a nil
connection of non nil interface, which was kept as the output.
---
 connector.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/connector.go b/connector.go
index 6dc41a3..962168a 100644
--- a/connector.go
+++ b/connector.go
@@ -72,11 +72,12 @@ func NewSender(output Connector, transport Transport, ticker <-chan time.Time) (
 
 func (c *Sender) flushQueue() {
 	if c.output == nil {
-		var err error
-		if c.output, err = c.connector.Connect(); err != nil {
+		output, err := c.connector.Connect()
+		if err != nil {
 			c.report(err)
 			return
 		}
+		c.output = output
 	}
 
 	//log.Printf("<--\tget lock for %d items", len(*c.queue))
-- 
2.43.0


From a861e50b42ae43cf60a345c3088a91dd4b39c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 26/30] fix: a local connector looks for its receiver at each
 connection

What the first connection found was kept forever: when a stream receiver
was replaced by a datagram one (or moved), no connection was possible
any more.
---
 connector-local.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/connector-local.go b/connector-local.go
index c4286b6..a7cb8aa 100644
--- a/connector-local.go
+++ b/connector-local.go
@@ -26,7 +26,9 @@ func (c *localConn) Connect() (WriteCloser, error) {
 		return c.localWriteCloser(net.DialUnix(c.network, nil, &net.UnixAddr{Name: c.address, Net: c.network}))
 	}
 
-	return c.localWriteCloser(c.osGuessConnnector())
+	// what is guessed is for this connection only: the next one may find another receiver
+	guess := *c
+	return guess.localWriteCloser(guess.osGuessConnnector())
 }
 
 func (c *localConn) localWriteCloser(conn *net.UnixConn, err error) (WriteCloser, error) {
-- 
2.43.0


From ec7de6bd2c96adba5dfb52bf66aadce483224619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 27/30] fix: a stdio sender never closes the standard stream of
 the process

---
 connector-fd.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/connector-fd.go b/connector-fd.go
index a26da23..b09949b 100644
--- a/connector-fd.go
+++ b/connector-fd.go
@@ -1,9 +1,20 @@
 package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 
 import (
+	"io"
 	"os"
 )
 
+// stdio is a standard stream. it belongs to the process, so it's never closed
+type stdio struct {
+	io.Writer
+}
+
+// Close implements WriteCloser.Close
+func (s stdio) Close() error {
+	return nil
+}
+
 // StdioConnector returns a Connector that only forward to stderr: or stdout:
 func StdioConnector(addr string) Connector {
 	if addr == "" {
@@ -13,12 +24,12 @@ func StdioConnector(addr string) Connector {
 	switch addr {
 	case "stderr:":
 		return ConnectorFunc(func() (WriteCloser, error) {
-			return os.Stderr, nil
+			return stdio{os.Stderr}, nil
 		})
 
 	case "stdout:":
 		return ConnectorFunc(func() (WriteCloser, error) {
-			return os.Stdout, nil
+			return stdio{os.Stdout}, nil
 		})
 	}
 
-- 
2.43.0


From c55e9a5a24281b5e6672c313a14c32ba297b4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:47 +0000
Subject: [PATCH 28/30] fix: the encoding of an unknown element takes a time
 proportional to its length

---
 sdata/sd-unknown.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdata/sd-unknown.go b/sdata/sd-unknown.go
index e5c9380..0f9aacd 100644
--- a/sdata/sd-unknown.go
+++ b/sdata/sd-unknown.go
@@ -104,13 +104,17 @@ func (d unknownSD) SDID() SDID {
 }
 
 func (d unknownSD) Marshal5424() ([]byte, error) {
-	ret := "[" + d.Name
+	ret := append([]byte{'['}, d.Name...)
 
 	for _, pair := range d.Map {
-		ret += " " + pair.K + "=\"" + pair.V + "\""
+		ret = append(ret, ' ')
+		ret = append(ret, pair.K...)
+		ret = append(ret, '=', '"')
+		ret = append(ret, pair.V...)
+		ret = append(ret, '"')
 	}
 
-	ret += "]"
+	ret = append(ret, ']')
 
-	return []byte(ret), nil
+	return ret, nil
 }
-- 
2.43.0


From fae9089735078c6d63d0ae9c61870061009142df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 29/30] fix: a connection given by a Connector receives each
 frame by its own Write

The vectored write of package net made one datagram of all the queued frames
(a queue above the limit of a datagram lost its first messages), and skipped
the Write method of a type that embeds a connection of package net.
---
 connector.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/connector.go b/connector.go
index 962168a..7d6c411 100644
--- a/connector.go
+++ b/connector.go
@@ -128,7 +128,7 @@ func (c *Sender) writeQueue() error {
 	buffers := append(net.Buffers(nil), *c.queue...)
 	buffers[0] = buffers[0][c.partial:]
 
-	n, err := buffers.WriteTo(c.output)
+	n, err := buffers.WriteTo(c.frameWriter())
 	c.partial += n
 
 	for len(*c.queue) > 0 && c.partial >= int64(len((*c.queue)[0])) {
@@ -140,6 +140,22 @@ func (c *Sender) writeQueue() error {
 	return err
 }
 
+// frameWriter gives the output as a writer that receives the frames one by one, unless the output is a stream
+// of package net. the vectored write of package net makes one datagram of all the frames of a datagram socket
+// and skips the Write() of a type that embeds a connection of package net
+func (c *Sender) frameWriter() io.Writer {
+	switch conn := c.output.(type) {
+	case *net.TCPConn:
+		return conn
+
+	case *net.UnixConn:
+		if addr := conn.LocalAddr(); addr != nil && addr.Network() == "unix" {
+			return conn
+		}
+	}
+	return struct{ io.Writer }{c.output}
+}
+
 // disconnect drops a failed output. the next output will start with the first frame not completely written
 func (c *Sender) disconnect(err error) {
 	c.report(err)
-- 
2.43.0


From b37b8d4e018f80be0202ee2ed7e86285329746a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:10 +0000
Subject: [PATCH 30/30] fix: datagrams of more than 64 KiB are received
 entirely

a longer datagram was truncated and its begin delivered as a whole message
with the NUL framing. what is above the new limit is an error, never a message
---
 listener-unixdgram.go | 6 +++++-
 listener.go           | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 459fdcb..acf9b23 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -18,7 +18,7 @@ type (
 
 	fakeConn struct {
 		end   chan struct{}
-		rbuff [1 << 16]byte
+		rbuff [maxDatagram + 1]byte
 		buff  []byte
 		conn  *net.UnixConn
 	}
@@ -115,6 +115,10 @@ func (r *fakeConn) Read(data []byte) (int, error) {
 		if err != nil {
 			return s, err
 		}
+		// what doesn't fit in the buffer is lost
+		if s > maxDatagram {
+			return 0, ErrTransportTooLong
+		}
 
 		r.buff = make([]byte, s)
 		copy(r.buff, r.rbuff[0:s])
diff --git a/listener.go b/listener.go
index 40c499f..5c82514 100644
--- a/listener.go
+++ b/listener.go
@@ -67,6 +67,9 @@ const (
 	// maxFrame is the maximal length of an incomplete frame
 	maxFrame = 1 << 24
 
+	// maxDatagram is the maximal length of a datagram
+	maxDatagram = 1 << 20
+
 	// acceptDelay is the delay before a new Accept() after a failed one
 	acceptDelay = 5 * time.Millisecond
 
@@ -213,6 +216,12 @@ func (r *Receiver) tokenize(conn io.Reader, chanErr chan<- error) (ended bool) {
 	buffer := make([]byte, readBuffer)
 	for {
 		lenRead, err := conn.Read(buffer[done:])
+		if isDgram && err == ErrTransportTooLong {
+			if !r.push(MessageImmutable{}, err) {
+				return true
+			}
+			continue
+		}
 		eof := err == io.EOF
 
 		// a frame never continues in the next datagram
-- 
2.43.0

