From 1aed02684c063044c7ca9a0283a15328d68c00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 01/48] fix: read wire data in full instead of accepting short
 reads

A single Read may return fewer bytes than requested (TCP segmentation), which
truncated strings and payloads and desynchronised the packet stream.
---
 mqtt/packets/primitives/io.go     | 2 +-
 mqtt/packets/primitives/string.go | 2 +-
 mqtt/packets/primitives/varint.go | 2 +-
 mqtt/packets/publish.go           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqtt/packets/primitives/io.go b/mqtt/packets/primitives/io.go
index d9b762d..0d7537d 100644
--- a/mqtt/packets/primitives/io.go
+++ b/mqtt/packets/primitives/io.go
@@ -44,6 +44,6 @@ func WriteByte(b byte, w io.Writer) error {
 
 //go:inline
 func ReadByte(r io.Reader) (b byte, err error) {
-	_, err = r.Read(unsafe.Slice(&b, 1))
+	_, err = io.ReadFull(r, unsafe.Slice(&b, 1))
 	return
 }
diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index fde2b7b..eda9712 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -74,7 +74,7 @@ func (p *PrimitiveString) ReadFrom(r io.Reader) (n int64, err error) {
 
 	// Read the string
 	var count int
-	if count, err = r.Read(buf); err != nil {
+	if count, err = io.ReadFull(r, buf); err != nil {
 		return 0, err
 	} else {
 		n += int64(count)
diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 6a00e6d..e104672 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -92,7 +92,7 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 
 	for {
 		var b [1]byte
-		if _, err = r.Read(b[:]); err != nil {
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		n++
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6b7c45a..06ba5b5 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -187,7 +187,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	payloadLen := int64(p.Header.Remaining) - n + offset
 	if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
-		if count, err := r.Read(p.Payload); err != nil {
+		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
 		} else {
 			n += int64(count)
-- 
2.43.0


From 347251f94f7e89341acf76dc30cab2a7a75eabcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 02/48] fix: refuse strings that do not fit their 16-bit length
 prefix

The length was silently truncated modulo 65536 while all bytes were written.
---
 mqtt/packets/primitives/string.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index eda9712..3c16849 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -26,12 +26,19 @@ package primitives
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 )
 
 type PrimitiveString string
 
 func (p *PrimitiveString) WriteTo(w io.Writer) (n int64, err error) {
+	// The length prefix is a 16-bit integer
+	if len(*p) > math.MaxUint16 {
+		return 0, errors.New("string is too long to be encoded")
+	}
+
 	// Write the length of the string
 	if err = binary.Write(w, binary.BigEndian, uint16(len(*p))); err != nil {
 		return 0, err
-- 
2.43.0


From 448c16b02c9b236f02507c0bed33e717a92aa28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 03/48] fix: count the identifier byte of string properties

WriteToAsProperty lost the identifier byte from the number of bytes written.
---
 mqtt/packets/primitives/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index 3c16849..4f4e420 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -59,11 +59,11 @@ func (p *PrimitiveString) WriteToAsProperty(identifier byte, w io.Writer) (n int
 	if _, err = w.Write([]byte{identifier}); err != nil {
 		return 0, err
 	}
-	n++
 
 	if n, err = p.WriteTo(w); err != nil {
 		return 0, err
 	}
+	n++
 
 	return
 }
-- 
2.43.0


From b9d4b63eda579f5e36c849b92da3bee602ec9bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 04/48] fix: limit variable byte integers to 4 bytes in both
 directions

Values above 268,435,455 were written with 5 bytes, and a run of 0x80 bytes
kept the decoder reading without end.
---
 mqtt/packets/primitives/varint.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index e104672..2150545 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -56,6 +56,11 @@ func (v *VariableByteInt) WriteTo(w io.Writer) (int64, error) {
 	result := make([]byte, 0, 4)
 	tmp := uint32(*v)
 
+	// The largest value that can be represented with 4 bytes is 268,435,455
+	if tmp > 268_435_455 {
+		return 0, errors.New("variable byte integer is too large to be encoded")
+	}
+
 	for {
 		b := byte(tmp % 128)
 		tmp /= 128
@@ -106,6 +111,11 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 			break
 		}
 
+		// SPEC: The Variable Byte Integer is encoded in at most 4 bytes.
+		if n == 4 {
+			return 0, errors.New("malformed variable byte integer")
+		}
+
 		mul += 7
 	}
 
-- 
2.43.0


From 7535222bd62cef9066bbd536027de89382dcf651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 05/48] fix: apply the shared subscription rule to the filter
 being set

SetNoLocal panicked for filters shorter than 6 characters, and SetFilter looked
at the previous filter, so No Local stayed set on shared subscriptions.
---
 mqtt/packets/topic.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index c1da7b3..3ea0b97 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -24,7 +24,11 @@
 
 package packets
 
-import "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+import (
+	"strings"
+
+	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+)
 
 type Topic struct {
 	filter  primitives.PrimitiveString
@@ -44,7 +48,7 @@ func (t *Topic) Filter() string {
 }
 
 func (t *Topic) SetFilter(filter string) *Topic {
-	if len(t.filter) >= 6 && t.filter[:6] == "$share" {
+	if strings.HasPrefix(filter, "$share") {
 		// Unset no local option
 		// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
 		t.SetNoLocal(false)
@@ -59,7 +63,7 @@ func (t *Topic) SetNoLocal(on bool) *Topic {
 
 	// Leave bit unset if this is a shared subscription
 	// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
-	if on && t.filter[:6] != "$share" {
+	if on && !strings.HasPrefix(string(t.filter), "$share") {
 		t.options |= primitives.PrimitiveByte(1 << 2)
 	}
 	return t
-- 
2.43.0


From 4e549ad952e23f3167879c3164a809e5bfc73444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 06/48] fix: keep subscription options within their bit fields

Out-of-range QoS and retain handling values overwrote the neighbouring options.
---
 mqtt/packets/topic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index 3ea0b97..83f1a4e 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -39,7 +39,7 @@ func (t *Topic) SetQoS(qos QoS) *Topic {
 	// Set bits [1 - 0]
 	t.options &= ^primitives.PrimitiveByte(1 << 0)
 	t.options &= ^primitives.PrimitiveByte(1 << 1)
-	t.options |= primitives.PrimitiveByte(qos)
+	t.options |= primitives.PrimitiveByte(qos & 0x03)
 	return t
 }
 
@@ -82,6 +82,6 @@ func (t *Topic) SetRetainHandling(handling RetainHandlingOption) *Topic {
 	// Set bits [5 - 4]
 	t.options &= ^primitives.PrimitiveByte(1 << 5)
 	t.options &= ^primitives.PrimitiveByte(1 << 4)
-	t.options |= primitives.PrimitiveByte(handling << 4)
+	t.options |= primitives.PrimitiveByte(handling&0x03) << 4
 	return t
 }
-- 
2.43.0


From 8bc7fb95da7573b8dcb5676a0f53c0cb6e31a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 07/48] fix: write to the payload at the current offset

Publish.Write copied into the already written prefix, so it never wrote a byte.
---
 mqtt/packets/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 06ba5b5..b19870e 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -63,7 +63,7 @@ func (p *Publish) Write(buf []byte) (n int, err error) {
 	}
 
 	// Copy into payload
-	n = copy(p.Payload[:p.offset], buf)
+	n = copy(p.Payload[p.offset:], buf)
 	p.offset += n
 
 	return
-- 
2.43.0


From a11a0a4b2234b5b7e1ad13a36ba893f0be8b5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 08/48] fix: use the property identifiers assigned by the
 specification in CONNECT

---
 mqtt/packets/connect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c83d947..2669963 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -238,7 +238,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.TopicAliasMaximum > 0 {
-		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x12, w); err != nil {
+		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x22, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -252,7 +252,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.RequestProblemInformation > 0 {
-		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x19, w); err != nil {
+		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x17, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -320,7 +320,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 
 		// Will message expiry interval
 		if c.WillMessageExpiryInterval > 0 {
-			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x12, w); err != nil {
+			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 				return 0, err
 			}
 			n += count
-- 
2.43.0


From 648b5edfc9427e11366f3f7863b11f7e1ae3fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 09/48] fix: compute the lengths of CONNECT from what is
 written

The will payload format indicator was not counted in the will properties, and
both property lengths were assumed to take one byte.
---
 mqtt/packets/connect.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index 2669963..b8e7381 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -73,7 +73,7 @@ type Connect struct {
 
 func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	var flags primitives.PrimitiveByte
-	variableHeaderLen := primitives.VariableByteInt(11)
+	variableHeaderLen := primitives.VariableByteInt(10)
 	propertiesLen := primitives.VariableByteInt(0)
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
@@ -112,7 +112,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += c.AuthenticationData.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Set flags bits
 	if c.CleanSession {
@@ -145,9 +145,11 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		flags |= primitives.PrimitiveByte(c.WillQos) << 3
 
 		// The will and will topic are actually a part of the payload
-		payloadLen += 1 + c.Will.Length(false) // Includes byte for payload property indicator
+		payloadLen += c.Will.Length(false)
 		payloadLen += c.WillTopic.Length(false)
 
+		willPropertiesLen += 2 // Payload format indicator
+
 		if c.WillDelayInterval > 0 {
 			willPropertiesLen += c.WillDelayInterval.Length(true)
 		}
@@ -171,9 +173,9 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		for k, v := range c.WillUserProperties {
 			willPropertiesLen += 1 + k.Length(false) + v.Length(false)
 		}
-	}
 
-	payloadLen += willPropertiesLen
+		payloadLen += willPropertiesLen.Length(false) + willPropertiesLen
+	}
 
 	/* Fixed header begin */
 	fh := FixedHeader{
-- 
2.43.0


From 12f80f90e7384ac0a15604d6456a6fb6d3994d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 10/48] fix: compute the lengths of DISCONNECT from what is
 written

The reason string was written but not counted, the server reference was counted
but not written, and the property length was assumed to take one byte.
---
 mqtt/packets/disconnect.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 5d8f426..3546a8e 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -109,7 +109,7 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
-	variableHeaderLen := primitives.VariableByteInt(2) // Account for reason code and properties length var
+	variableHeaderLen := primitives.VariableByteInt(1) // Account for reason code
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate properties length
@@ -117,6 +117,10 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.SessionExpiryInterval.Length(true)
 	}
 
+	if len(d.ReasonString) > 0 {
+		propertiesLen += d.ReasonString.Length(true)
+	}
+
 	for k, v := range d.UserProperties {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
@@ -125,7 +129,7 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.ServerReference.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Write fixed header
 	d.Header.SetType(DISCONNECT)
@@ -181,6 +185,14 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		}
 		n += count
 	}
+
+	// Server reference
+	if len(d.ServerReference) > 0 {
+		if count, err = d.ServerReference.WriteToAsProperty(0x1C, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
 	/* Properties end */
 
 	return
-- 
2.43.0


From fa9b787154f24731d84745f12f72e54538498379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 11/48] fix: write the reason code and property length of AUTH

They were announced by (or missing from) the remaining length but never written.
---
 mqtt/packets/auth.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index fc925da..407f19a 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -117,17 +117,11 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 	// Calculate remaining length
 	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
 	//       Properties. In this case the AUTH has a Remaining Length of 0.
-	if a.AuthenticateReasonCode != 0 {
-		variableHeaderLen++
-	}
-
 	if len(a.AuthenticationMethod) > 0 {
 		l := primitives.VariableByteInt(len(a.AuthenticationMethod))
 		propertiesLen += 3 + l
-	}
 
-	if len(a.AuthenticationData) > 0 {
-		l := primitives.VariableByteInt(len(a.AuthenticationData))
+		l = primitives.VariableByteInt(len(a.AuthenticationData))
 		propertiesLen += 3 + l
 	}
 
@@ -140,7 +134,9 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
 
-	variableHeaderLen += propertiesLen
+	if a.AuthenticateReasonCode != 0 || propertiesLen != 0 {
+		variableHeaderLen += a.AuthenticateReasonCode.Length(false) + propertiesLen.Length(false) + propertiesLen
+	}
 
 	a.Header.SetType(AUTH)
 	a.Header.Remaining = variableHeaderLen
@@ -150,7 +146,21 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, err
 	}
 
+	if a.AuthenticateReasonCode == 0 && propertiesLen == 0 {
+		return
+	}
+
+	if count, err = a.AuthenticateReasonCode.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	/* Properties begin */
+	if count, err = propertiesLen.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	if len(a.AuthenticationMethod) > 0 {
 		if count, err = a.AuthenticationMethod.WriteToAsProperty(0x15, w); err != nil {
 			return 0, err
-- 
2.43.0


From 835c4e5d6c4d23d2c19f1aa967f0ebbe8b857c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 12/48] fix: omit the property length along with the reason
 code

A successful PUBACK, PUBREC, PUBREL or PUBCOMP without properties has a
remaining length of 2, but carried its property length in the place of the
reason code.
---
 mqtt/packets/puback.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 0ba20de..66b6dc7 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -161,11 +161,9 @@ func (p *Puback) WriteTo(w io.Writer) (n int64, err error) {
 	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
 	//       Properties. In this case the PUBACK has a Remaining Length of 2.
 	if p.ReasonCode != 0 || propertiesLen != 0 {
-		variableHeaderLen += p.ReasonCode.Length(false)
+		variableHeaderLen += p.ReasonCode.Length(false) + propertiesLen.Length(false) + propertiesLen
 	}
 
-	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
-
 	// Default the packet type to PUBACK if one is not set. Possible prior values could only be PUBREL, PUBREC or
 	// PUBCOMP.
 	if p.Header.GetType() == 0 {
@@ -188,13 +186,15 @@ func (p *Puback) WriteTo(w io.Writer) (n int64, err error) {
 	//       Reason Code and the value of 0x00 (Success) is used.
 	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
 	//       Properties. In this case the PUBACK has a Remaining Length of 2.
-	if p.ReasonCode != 0 || propertiesLen != 0 {
-		if count, err = p.ReasonCode.WriteTo(w); err != nil {
-			return 0, err
-		}
-		n += count
+	if p.ReasonCode == 0 && propertiesLen == 0 {
+		return
 	}
 
+	if count, err = p.ReasonCode.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	/* Properties begin */
 	if count, err = propertiesLen.WriteTo(w); err != nil {
 		return 0, err
-- 
2.43.0


From 019ff23389d66c94375bd1ee3d94a1b5a246ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 13/48] fix: treat QoS values above 2 as malformed

They leaked into neighbouring header and CONNECT flag bits when sent, and were
counted against the receive quota without ever being acknowledged when received.
---
 mqtt/packets/connect.go |  6 ++++++
 mqtt/packets/publish.go | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index b8e7381..92c727d 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -78,6 +78,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
 
+	// SPEC: If the Will Flag is set to 1, the value of Will QoS can be 0, 1 or 2. A value of 3 is a Malformed Packet
+	//       [MQTT-3.1.2-12].
+	if c.WillQos > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	if c.SessionExpiryInterval > 0 {
 		propertiesLen += c.SessionExpiryInterval.Length(true)
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index b19870e..f127590 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -103,6 +103,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	p.QoS = QoS(p.Header.GetFlags()>>1) & 0x03
 	p.Duplicate = ((p.Header.GetFlags() >> 3) & 0x01) != 0
 
+	// SPEC: A PUBLISH Packet MUST NOT have both QoS bits set to 1 [MQTT-3.3.1-4].
+	if p.QoS > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Read variable header
 	if count, err = p.Topic.ReadFrom(r); err != nil {
 		return 0, err
@@ -212,6 +217,11 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	// SPEC: A PUBLISH Packet MUST NOT have both QoS bits set to 1 [MQTT-3.3.1-4].
+	if p.QoS > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	variableHeaderLen += p.Topic.Length(false)
 
-- 
2.43.0


From 041c7af3f5ab03cb2cb4d0df5f9259006f7e14eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 14/48] fix: support the payload format indicator of PUBLISH

It was not recognised, so its value was taken for the next property identifier
and everything after it, payload included, was misread.
---
 mqtt/packets/publish.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index f127590..250b5f9 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -51,6 +51,7 @@ type Publish struct {
 	UserProperties         primitives.PrimitiveStringMap
 	SubscriptionIdentifier primitives.VariableByteInt
 	ContentType            primitives.PrimitiveString
+	PayloadFormatIndicator primitives.PrimitiveByte
 
 	/* Misc */
 	ackFn func(context.Context, *Publish) error
@@ -143,6 +144,10 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining--
 
 		switch identifier {
+		case 0x01: // Payload format indicator
+			if count, err = p.PayloadFormatIndicator.ReadFrom(r); err != nil {
+				return 0, err
+			}
 		case 0x02: // Message expiry interval
 			if count, err = p.MessageExpiryInterval.ReadFrom(r); err != nil {
 				return 0, err
@@ -229,6 +234,10 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 		variableHeaderLen += p.PacketIdentifier.Length(false)
 	}
 
+	if p.PayloadFormatIndicator > 0 {
+		propertiesLen += p.PayloadFormatIndicator.Length(true)
+	}
+
 	if p.MessageExpiryInterval > 0 {
 		propertiesLen += p.MessageExpiryInterval.Length(true)
 	}
@@ -299,6 +308,13 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 	}
 	n += count
 
+	if p.PayloadFormatIndicator > 0 {
+		if count, err = p.PayloadFormatIndicator.WriteToAsProperty(0x01, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
+
 	if p.MessageExpiryInterval > 0 {
 		if count, err = p.MessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 			return 0, err
-- 
2.43.0


From 20b53e406b8255695aa487e7a010e0c197804484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 15/48] fix: reject properties that a control packet cannot
 carry

An unknown identifier was skipped without its value, and the length of the
previous property was subtracted a second time, so the rest was misread.
---
 mqtt/packets/auth.go       | 2 ++
 mqtt/packets/connack.go    | 2 ++
 mqtt/packets/disconnect.go | 2 ++
 mqtt/packets/puback.go     | 2 ++
 mqtt/packets/publish.go    | 2 ++
 mqtt/packets/suback.go     | 2 ++
 mqtt/packets/unsuback.go   | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 407f19a..842665a 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -102,6 +102,8 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			a.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 451df38..36ec295 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -185,6 +185,8 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.AuthenticationData.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 3546a8e..4f21e94 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -98,6 +98,8 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = d.ServerReference.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 66b6dc7..4382bb4 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -133,6 +133,8 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			p.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 250b5f9..156a8a3 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -187,6 +187,8 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = p.ContentType.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 8067620..4381551 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -96,6 +96,8 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			s.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 4542153..e4a6bf9 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -96,6 +96,8 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			u.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
-- 
2.43.0


From a8bfa6ad7672da93d0eb7bf966e402ba04570094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 16/48] fix: reject properties that overrun the property length

The value of the last property could swallow bytes that belong to the payload.
---
 mqtt/packets/auth.go       | 5 +++++
 mqtt/packets/connack.go    | 5 +++++
 mqtt/packets/disconnect.go | 5 +++++
 mqtt/packets/puback.go     | 5 +++++
 mqtt/packets/publish.go    | 5 +++++
 mqtt/packets/suback.go     | 5 +++++
 mqtt/packets/unsuback.go   | 5 +++++
 7 files changed, 35 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 842665a..ce9547b 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -109,6 +109,11 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The last property extends past the end of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 36ec295..21425c9 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -192,6 +192,11 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The last property extends past the end of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	n += int64(c.Header.Remaining)
 	/* Properties end */
 	return
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 4f21e94..c1728d5 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -104,6 +104,11 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 		n += count
 		remaining -= count
 	}
+
+	// The last property extends past the end of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 	/* Variable header end */
 
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 4382bb4..3b7bfcf 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -140,6 +140,11 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The last property extends past the end of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 156a8a3..e6d19b2 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -193,6 +193,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		n += count
 		remaining -= count
 	}
+
+	// The last property extends past the end of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 
 	// Read the payload
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 4381551..48b7a7a 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -103,6 +103,11 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The last property extends past the end of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(s.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index e4a6bf9..54da0ac 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -103,6 +103,11 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// The last property extends past the end of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(u.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
-- 
2.43.0


From b89c9a628f03af944ecb6a94f05aed126a8ed2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 17/48] fix: decode control packets within their remaining
 length

Decoding read past the end of packets that are shorter than their fields claim
(an empty DISCONNECT or AUTH waited for bytes of the next packet), left the
rest of longer packets in the stream, accepted truncated acknowledgements as
successful ones, and assumed a 2 byte fixed header when PUBLISH read its own.
---
 mqtt/packets/auth.go       | 21 ++++++++++++++++-----
 mqtt/packets/connack.go    | 21 +++++++++++----------
 mqtt/packets/disconnect.go | 17 ++++++++++++++++-
 mqtt/packets/puback.go     | 13 +++++++++++--
 mqtt/packets/publish.go    | 16 +++++++---------
 mqtt/packets/suback.go     | 16 ++++++----------
 mqtt/packets/unsuback.go   | 16 ++++++----------
 7 files changed, 73 insertions(+), 47 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index ce9547b..6c72dc1 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -43,13 +43,23 @@ type Auth struct {
 func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// Nothing beyond the end of this control packet may be read
+	body := &io.LimitedReader{R: r, N: int64(a.Header.Remaining)}
+	r = body
+
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 and there are no Properties. In
+	//       this case the Remaining Length is 0.
+	if body.N == 0 {
+		return
+	}
+
 	// Read the reason code
 	if _, err = a.AuthenticateReasonCode.ReadFrom(r); err != nil {
 		return
 	}
 	n++
 
-	if n >= int64(a.Header.Remaining) {
+	if body.N == 0 {
 		return
 	}
 
@@ -60,10 +70,6 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(a.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -114,6 +120,11 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	// The control packet has more bytes than its fields take
+	if body.N > 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 21425c9..883ce6c 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -59,6 +59,10 @@ type Connack struct {
 func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// Nothing beyond the end of this control packet may be read
+	body := &io.LimitedReader{R: r, N: int64(c.Header.Remaining)}
+	r = body
+
 	/* Variable header begin */
 	// Connect acknowledgement flags
 	if count, err = c.Flags.ReadFrom(r); err != nil {
@@ -68,16 +72,12 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 
 	c.SessionPresent = (c.Flags & 0x01) != 0
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	if count, err = c.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
+	if body.N == 0 {
 		return
 	}
 
@@ -90,10 +90,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 
 	for remaining > 0 {
@@ -197,7 +193,12 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
-	n += int64(c.Header.Remaining)
 	/* Properties end */
+
+	// The control packet has more bytes than its fields take
+	if body.N > 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index c1728d5..82e5c27 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -43,13 +43,23 @@ type Disconnect struct {
 func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// Nothing beyond the end of this control packet may be read
+	body := &io.LimitedReader{R: r, N: int64(d.Header.Remaining)}
+	r = body
+
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 and there are no Properties. In
+	//       this case the Remaining Length is 0.
+	if body.N == 0 {
+		return
+	}
+
 	/* Variable header begin */
 	if count, err = d.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
 	}
 	n += count
 
-	if n >= int64(d.Header.Remaining) {
+	if body.N == 0 {
 		return
 	}
 
@@ -112,6 +122,11 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	/* Properties end */
 	/* Variable header end */
 
+	// The control packet has more bytes than its fields take
+	if body.N > 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 3b7bfcf..28fe6a5 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -80,11 +80,15 @@ func (p *Pubcomp) WriteTo(w io.Writer) (n int64, err error) {
 func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// Nothing beyond the end of this control packet may be read
+	body := &io.LimitedReader{R: r, N: int64(p.Header.Remaining)}
+	r = body
+
 	if n, err = p.PacketIdentifier.ReadFrom(r); err != nil {
 		return 0, err
 	}
 
-	if n >= int64(p.Header.Remaining) {
+	if body.N == 0 {
 		return
 	}
 
@@ -93,7 +97,7 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
+	if body.N == 0 {
 		return
 	}
 
@@ -145,6 +149,11 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	// The control packet has more bytes than its fields take
+	if body.N > 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index e6d19b2..a235d64 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -88,7 +88,7 @@ func (p *Publish) Reset() {
 }
 
 func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
-	var count, offset int64
+	var count int64
 
 	// Read the header from the reader if it has not been initialized
 	if p.Header.GetType() == 0 {
@@ -96,9 +96,12 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 		n += count
-		offset = 2
 	}
 
+	// Nothing beyond the end of this control packet may be read
+	body := &io.LimitedReader{R: r, N: int64(p.Header.Remaining)}
+	r = body
+
 	// Parse flags
 	p.Retain = (p.Header.GetFlags() & 0x01) != 0
 	p.QoS = QoS(p.Header.GetFlags()>>1) & 0x03
@@ -129,10 +132,6 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -201,9 +200,8 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	/* Properties end */
 
 	// Read the payload
-	payloadLen := int64(p.Header.Remaining) - n + offset
-	if payloadLen > 0 {
-		p.Payload = make([]byte, payloadLen)
+	if body.N > 0 {
+		p.Payload = make([]byte, body.N)
 		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
 		} else {
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 48b7a7a..b9480a3 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -45,14 +45,14 @@ type Suback struct {
 func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// Nothing beyond the end of this control packet may be read
+	body := &io.LimitedReader{R: r, N: int64(s.Header.Remaining)}
+	r = body
+
 	/* Variable header begin */
 	if n, err = s.PacketIdentifier.ReadFrom(r); err != nil {
 		return 0, err
 	}
-
-	if n >= int64(s.Header.Remaining) {
-		return
-	}
 	/* Variable header end */
 
 	/* Properties header start */
@@ -62,10 +62,6 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(s.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -109,7 +105,7 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 
 	// Fail if this is the end of the control packet
-	if n >= int64(s.Header.Remaining) {
+	if body.N == 0 {
 		return 0, ErrControlPacketIsMalformed
 	}
 	/* Properties header end */
@@ -119,7 +115,7 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 		var count int
 
 		// Allocate memory for storing the reason codes
-		s.ReasonCodes = make([]byte, int64(s.Header.Remaining)-n)
+		s.ReasonCodes = make([]byte, body.N)
 
 		// Read the reason codes
 		if count, err = io.ReadFull(r, s.ReasonCodes); err != nil {
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 54da0ac..6948c22 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -45,14 +45,14 @@ type Unsuback struct {
 func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// Nothing beyond the end of this control packet may be read
+	body := &io.LimitedReader{R: r, N: int64(u.Header.Remaining)}
+	r = body
+
 	/* Variable header begin */
 	if n, err = u.PacketIdentifier.ReadFrom(r); err != nil {
 		return 0, err
 	}
-
-	if n >= int64(u.Header.Remaining) {
-		return
-	}
 	/* Variable header end */
 
 	/* Properties header start */
@@ -62,10 +62,6 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(u.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -109,7 +105,7 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 
 	// Fail if this is the end of the control packet
-	if n >= int64(u.Header.Remaining) {
+	if body.N == 0 {
 		return 0, ErrControlPacketIsMalformed
 	}
 	/* Properties header end */
@@ -120,7 +116,7 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 		var count int
 
 		// Allocate memory for storing the reason codes
-		u.ReasonCodes = make([]byte, int64(u.Header.Remaining)-n)
+		u.ReasonCodes = make([]byte, body.N)
 
 		if count, err = io.ReadFull(r, u.ReasonCodes); err != nil {
 			return 0, err
-- 
2.43.0


From cb009ed0282be65a2d00345c46440935a441fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 18/48] fix: treat an incoming PUBLISH without packet
 identifier as malformed

It was counted against the receive quota but could not be acknowledged.
---
 mqtt/packets/publish.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index a235d64..1a2b699 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -123,6 +123,12 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return 0, err
 		}
 		n += count
+
+		// SPEC: Each time a Client sends a new PUBLISH (with QoS > 0) MQTT Control Packet it MUST assign it a non-zero
+		//       Packet Identifier [MQTT-2.2.1-3]. The same applies to the Server [MQTT-2.2.1-4].
+		if p.PacketIdentifier == 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
 	}
 
 	/* Properties start */
-- 
2.43.0


From 36b51c9f9e7c74ab81d78d84f56be0ca15d5f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 19/48] fix: match topics against filters level by level

The position in the filter was compared with the length of the topic, so a
publish could panic the client (topic aaaaaa/b, filter +/bc), a single-level
wildcard at the end of the topic ignored the rest of the filter, and filters
ending in /# did not match their parent level.
---
 mqtt/client.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 03339fe..1d91a62 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1124,6 +1124,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	// TODO: Support matching for shared topics
 	var filterPos int
 	var topicPos int
+
+	// SPEC: The Server MUST NOT match Topic Filters starting with a wildcard character (# or +) with Topic Names beginning
+	//       with a $ character [MQTT-4.7.2-1].
+	if len(topic) > 0 && topic[0] == '$' && len(filter) > 0 && (filter[0] == '#' || filter[0] == '+') {
+		return false
+	}
+
 	for filterPos < len(filter) {
 		if filter[filterPos] == '#' {
 			// Encountered multi-level wildcard.
@@ -1155,17 +1162,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 				topicPos++
 			}
 
-			if topicPos == len(topic) {
-				// No levels left. Return true.
-				return true
-			}
-
 			// Advance the filter pos and continue at the beginning of the loop
 			filterPos++
 			continue
-		} else if filterPos >= len(topic) {
-			// The length of the filter exceeded the length of the topic. No way these can match.
-			return false
+		} else if topicPos >= len(topic) {
+			// The filter goes on past the end of the topic. These can only match if what is left is a multi-level wildcard,
+			// which also represents the parent level.
+			return topicPos > 0 && filter[filterPos:] == "/#"
 		} else if filter[filterPos] != topic[topicPos] {
 			return false
 		}
@@ -1175,7 +1178,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	}
 
 	// Check if there is more characters in the topic that went unprocessed
-	if len(filter) != len(topic) && topicPos < len(topic) {
+	if topicPos < len(topic) {
 		// Topic couldn't have matched the filter
 		return false
 	}
-- 
2.43.0


From df183d1a41699df268d8cb134da19a1f16034a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 20/48] fix: disconnect connected clients

Disconnect refused to work on connected clients and wrote to the network
connection of those that are not.
---
 mqtt/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 1d91a62..bdceb5f 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -338,7 +338,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
@@ -395,7 +395,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 }
 
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
-- 
2.43.0


From c4e16f512b0e03988598d4ce25bd8739c1e60863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 21/48] fix: always lock the connection before the client state

Connect, Disconnect and KeepAlive took the two locks in the opposite order of
Publish, Subscribe and Poll, and disconnecting from within Poll locked the
connection twice, so the client could deadlock.
---
 mqtt/client.go | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index bdceb5f..19d383c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -209,18 +209,14 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
@@ -253,8 +249,6 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// Did the server send an error response?
 	// SPEC: If a Server sends a CONNACK packet containing a Reason code of 128 or greater it MUST then close the
 	//       Network Connection [MQTT-3.2.2-7].
@@ -268,6 +262,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return ReasonCode(connack.ReasonCode)
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	// Handle server keep alive specification
 	if connack.ServerKeepAlive > 0 {
 		// Use the keep alive interval returned by the server
@@ -335,6 +332,8 @@ func (c *Client) Disconnect(ctx context.Context, publishWill bool) (err error) {
 // time. Setting a zero value for the sessionExpiryInterval parameter will cause the server to default to the value
 // specified in the CONNECT control packet.
 func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bool, sessionExpiryInterval int) (err error) {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
@@ -348,10 +347,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -384,7 +379,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
 
 	c.isConnected = false
 
@@ -394,6 +388,8 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	return nil
 }
 
+// disconnectWithReason sends the DISCONNECT packet with the specified reason and closes the network connection. Both
+// connMutex and mutex must be held by the caller.
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
 	if !c.isConnected {
 		return ErrClientNotConnected
@@ -405,10 +401,6 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -437,7 +429,6 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
 
 	c.isConnected = false
 
@@ -764,6 +755,8 @@ func (c *Client) KeepAliveInterval() time.Duration {
 //
 //	PINGREQ packet. [MQTT-3.1.2-20]
 func (c *Client) KeepAlive() (err error) {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 
@@ -784,10 +777,6 @@ func (c *Client) KeepAlive() (err error) {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -801,8 +790,6 @@ func (c *Client) KeepAlive() (err error) {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// NOTE: Poll handles receiving the response and disconnecting if no response has been sent within twice the keep
 	// alive interval.
 	return
-- 
2.43.0


From 468b2ede69d05a37f455c1eefcb2d7ad8f09887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 22/48] fix: lock the connection in Unsubscribe and release the
 client state on errors

UNSUBSCRIBE could be written into the middle of another packet, and every error
return left the client locked forever.
---
 mqtt/client.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 19d383c..bedce14 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -314,6 +314,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 // IsConnected returns true if the client is currently in the connected state. Otherwise, it returns false if the client
 // is not currently connected to a MQTT server.
 func (c *Client) IsConnected() bool {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.isConnected
 }
 
@@ -537,18 +540,20 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrInvalidArgument
 	}
 
-	c.mutex.Lock()
-
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
+
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -560,6 +565,8 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		t.SetFilter(topics[index])
 		_topics = append(_topics, t)
 	}
+
+	c.mutex.Lock()
 	unsubscribe := &packets.Unsubscribe{
 		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
 		Topics:           _topics,
@@ -574,9 +581,11 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		c.mutex.Unlock()
 		return err
 	}
 
+	unlockConn.Do(c.connMutex.Unlock)
 	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
-- 
2.43.0


From 58e1f0b4cae4bff424b133cd23b28e4209be134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 23/48] fix: keep the connected state in step with the network
 connection

The state was read and written without synchronisation, was checked before
waiting for the connection rather than afterwards, stayed connected after the
server disconnected, and stayed connected when closing failed.
---
 mqtt/client.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index bedce14..32d2842 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -379,12 +379,11 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
+	c.isConnected = false
 	if err = c.conn.Close(); err != nil {
 		return
 	}
 
-	c.isConnected = false
-
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
 
@@ -429,12 +428,11 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
+	c.isConnected = false
 	if err = c.conn.Close(); err != nil {
 		return
 	}
 
-	c.isConnected = false
-
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
 
@@ -448,10 +446,6 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
@@ -462,6 +456,10 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -611,10 +609,6 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
@@ -625,6 +619,10 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -809,20 +807,22 @@ func (c *Client) KeepAlive() (err error) {
 // call to the Publish method should take place on the same goroutine that a call to Poll takes place on as this could
 // potentially cause a deadlock.
 func (c *Client) Poll(ctx context.Context) (err error) {
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
 
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
 	if time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
+		c.mutex.Lock()
 		c.isConnected = false
+		c.mutex.Unlock()
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
@@ -1092,6 +1092,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if _, err = disconnect.ReadFrom(c.conn); err != nil {
 			return
 		}
+		// The client may not send anything after this
+		c.mutex.Lock()
+		c.isConnected = false
+		c.mutex.Unlock()
+
 		// Close the connection
 		if err = c.conn.Close(); err != nil {
 			return
-- 
2.43.0


From af4f6a226a6fcade7d41434022fa73b606530e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 24/48] fix: guard the client settings with the lock their
 readers hold

---
 mqtt/client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 32d2842..529f4ee 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -96,8 +96,8 @@ func NewClient(conn net.Conn) *Client {
 // QoS 1 and QoS 2. No persistence will take place if no storage implementation is set which cause message delivery
 // retry to be effectively disabled. No storage implementation is set by default.
 func (c *Client) SetStorage(storage storage.Storage) {
-	c.eventMutex.Lock()
-	defer c.eventMutex.Unlock()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	c.storage = storage
 }
@@ -105,6 +105,9 @@ func (c *Client) SetStorage(storage storage.Storage) {
 // SetRngFn set the random number generator function that will be used to generate random packet identifiers. The
 // default is rand.Uint32.
 func (c *Client) SetRngFn(fn func() uint32) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	c.rngFn = fn
 }
 
@@ -752,6 +755,9 @@ func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err
 // KeepAliveInterval returns the interval at which frequent PINGREQ packets must be sent. The server may specify a
 // different value in the CONNACK packet than what was originally specified by the CONNECT packet.
 func (c *Client) KeepAliveInterval() time.Duration {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.keepAliveInterval
 }
 
-- 
2.43.0


From 0e24659866c6b8196909acf0be902eb83ce4a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 25/48] fix: do not hold the client state during network I/O

A server that stops reading blocked every other call on the client, IsConnected
included. Exceeding the receive maximum now ends the handling of the PUBLISH
that exceeded it, and only QoS 1 and QoS 2 messages count against it.
---
 mqtt/client.go | 57 +++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 529f4ee..a0af8e1 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -340,10 +340,8 @@ func (c *Client) Disconnect(ctx context.Context, publishWill bool) (err error) {
 func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bool, sessionExpiryInterval int) (err error) {
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
 
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -382,8 +380,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
-	c.isConnected = false
-	if err = c.conn.Close(); err != nil {
+	if err = c.closeConn(); err != nil {
 		return
 	}
 
@@ -393,10 +390,10 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	return nil
 }
 
-// disconnectWithReason sends the DISCONNECT packet with the specified reason and closes the network connection. Both
-// connMutex and mutex must be held by the caller.
+// disconnectWithReason sends the DISCONNECT packet with the specified reason and closes the network connection. connMutex
+// must be held by the caller, mutex must not.
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -431,8 +428,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
-	c.isConnected = false
-	if err = c.conn.Close(); err != nil {
+	if err = c.closeConn(); err != nil {
 		return
 	}
 
@@ -486,15 +482,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
 	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
+	c.mutex.Unlock()
 
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
-		c.mutex.Unlock()
 		return err
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
-	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
 	select {
@@ -579,15 +574,14 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
 	c.responseChan[int(unsubscribe.PacketIdentifier)] = respChan
+	c.mutex.Unlock()
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
-		c.mutex.Unlock()
 		return err
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
-	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
 	select {
@@ -770,10 +764,8 @@ func (c *Client) KeepAliveInterval() time.Duration {
 func (c *Client) KeepAlive() (err error) {
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
 
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -826,10 +818,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	if time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		c.mutex.Lock()
-		c.isConnected = false
-		c.mutex.Unlock()
-		if err := c.conn.Close(); err != nil {
+		if err := c.closeConn(); err != nil {
 			return err
 		}
 
@@ -889,11 +878,12 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			//       [MQTT-3.3.4-9]. If it receives more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets where it
 			//       has not sent a PUBACK or PUBCOMP in response, the Client uses DISCONNECT with Reason Code 0x93
 			//       (Receive Maximum exceeded) as described in section 4.13 Handling errors.
+			c.mutex.Unlock()
 			if err = c.disconnectWithReason(ctx, 0x93); err != nil {
-				c.mutex.Unlock()
 				return err
 			}
-		} else {
+			return ReasonCode(0x93)
+		} else if publish.QoS > 0 {
 			// Decrement the receive quota counter
 			c.receiveQuota--
 		}
@@ -990,6 +980,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
+		c.mutex.Unlock()
+
 		// Send PUBREL control packet
 		pubrel := &packets.Pubrel{
 			Puback: packets.Puback{
@@ -1001,8 +993,6 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return err
 		}
 
-		c.mutex.Unlock()
-
 		c.signal(packets.PUBREC, pubrec, nil)
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
@@ -1098,13 +1088,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if _, err = disconnect.ReadFrom(c.conn); err != nil {
 			return
 		}
-		// The client may not send anything after this
-		c.mutex.Lock()
-		c.isConnected = false
-		c.mutex.Unlock()
-
 		// Close the connection
-		if err = c.conn.Close(); err != nil {
+		if err = c.closeConn(); err != nil {
 			return
 		}
 		c.signal(packets.DISCONNECT, disconnect, nil)
@@ -1193,6 +1178,16 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	return true
 }
 
+// closeConn closes the network connection and leaves the connected state, since nothing more may be sent on it. connMutex
+// must be held by the caller, mutex must not.
+func (c *Client) closeConn() error {
+	c.mutex.Lock()
+	c.isConnected = false
+	c.mutex.Unlock()
+
+	return c.conn.Close()
+}
+
 func (c *Client) send(w io.WriterTo) (err error) {
 	// Allocate a new buffer
 	buf := bytes.NewBuffer(make([]byte, 0, 128))
-- 
2.43.0


From 7215b89f5e00368e00b3330ff8f361065496b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 26/48] fix: close the connection when a control packet is cut
 short

After a partially read or written control packet the position of the next one
is unknown, but the client stayed connected and carried on in the middle of it.
A deadline that expired inside a fixed header was even reported as no data.
---
 mqtt/client.go | 56 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index a0af8e1..44bcbdb 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -844,7 +844,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 	// Attempt to receive a control packet header
 	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
+	if _, err = header.Header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
 		// No incoming data
 		return nil
 	} else if err != nil {
@@ -859,15 +859,22 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 	} else {
 		// Unset any deadline
-		c.conn.SetDeadline(time.Time{})
+		if err = c.conn.SetDeadline(time.Time{}); err != nil {
+			return
+		}
+	}
+
+	// Receive the rest of the fixed header
+	if err = c.receive(&header.Remaining); err != nil {
+		return err
 	}
 
 	// Read control packet
 	switch header.GetType() {
 	case packets.PUBLISH:
 		publish := &packets.Publish{Header: header}
-		if _, err = publish.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(publish); err != nil {
+			return err
 		}
 
 		c.mutex.Lock()
@@ -925,7 +932,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.PUBLISH, publish, nil)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
-		if _, err = puback.ReadFrom(c.conn); err != nil {
+		if err = c.receive(puback); err != nil {
 			return err
 		}
 
@@ -955,7 +962,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
-		if _, err = pubrec.ReadFrom(c.conn); err != nil {
+		if err = c.receive(pubrec); err != nil {
 			return err
 		}
 
@@ -997,7 +1004,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
-		if _, err = pubrel.ReadFrom(c.conn); err != nil {
+		if err = c.receive(pubrel); err != nil {
 			return err
 		}
 
@@ -1031,7 +1038,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
-		if _, err = pubcomp.ReadFrom(c.conn); err != nil {
+		if err = c.receive(pubcomp); err != nil {
 			return err
 		}
 
@@ -1061,8 +1068,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.PUBCOMP, pubcomp, nil)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
-		if _, err = suback.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(suback); err != nil {
+			return err
 		}
 
 		// Respond to the call to client.Subscribe
@@ -1073,8 +1080,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.SUBACK, suback, nil)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
-		if _, err = unsuback.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(unsuback); err != nil {
+			return err
 		}
 
 		// Respond to the call to client.Unsubscribe
@@ -1085,8 +1092,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.UNSUBACK, unsuback, nil)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
-		if _, err = disconnect.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(disconnect); err != nil {
+			return err
 		}
 		// Close the connection
 		if err = c.closeConn(); err != nil {
@@ -1095,8 +1102,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.DISCONNECT, disconnect, nil)
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
-		if _, err = auth.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(auth); err != nil {
+			return err
 		}
 		c.signal(packets.AUTH, auth, nil)
 	case packets.PINGRESP:
@@ -1198,9 +1205,24 @@ func (c *Client) send(w io.WriterTo) (err error) {
 	}
 
 	// Finally, write to the open connection
-	if _, err = c.conn.Write(buf.Bytes()); err != nil {
+	var n int
+	if n, err = c.conn.Write(buf.Bytes()); err != nil {
+		if n > 0 {
+			// The control packet was cut short, so the server would take the next one for the rest of it.
+			c.closeConn()
+		}
 		return err
 	}
 
 	return nil
 }
+
+// receive reads the control packet that follows the fixed header that was just read. The connection is closed if this
+// fails, since it is unknown where the next control packet begins. connMutex must be held by the caller.
+func (c *Client) receive(packet io.ReaderFrom) (err error) {
+	if _, err = packet.ReadFrom(c.conn); err != nil {
+		c.closeConn()
+	}
+
+	return err
+}
-- 
2.43.0


From eb2daf8a37576a2e00a2ba932d4ffc2d29a2c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 27/48] fix: close the connection on unexpected control packets
 and network errors

Their contents stayed in the stream and were taken for the next control packet,
and the client stayed connected after the server closed the connection.
---
 mqtt/client.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 44bcbdb..25b28cb 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -233,12 +233,13 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 
 	// Receive response header
 	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); err != nil {
+	if err = c.receive(&header); err != nil {
 		return err
 	}
 
 	// Response must be CONNACK
 	if header.GetType() != packets.CONNACK {
+		c.closeConn()
 		return ErrUnexpectedPacketTypeReceived
 	}
 
@@ -248,7 +249,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Receive the CONNACK response
-	if _, err = connack.ReadFrom(c.conn); err != nil {
+	if err = c.receive(connack); err != nil {
 		return err
 	}
 
@@ -257,7 +258,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	//       Network Connection [MQTT-3.2.2-7].
 	if connack.ReasonCode >= 128 {
 		// Close the connection
-		if err = c.conn.Close(); err != nil {
+		if err = c.closeConn(); err != nil {
 			return
 		}
 
@@ -848,8 +849,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// No incoming data
 		return nil
 	} else if err != nil {
-		// Some other error occurred. Return it
-		return
+		// Some other error occurred. The connection is no longer usable.
+		c.closeConn()
+		return err
 	}
 
 	if !deadline.IsZero() {
@@ -1107,9 +1109,17 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.signal(packets.AUTH, auth, nil)
 	case packets.PINGRESP:
+		// SPEC: The PINGRESP packet has no Variable Header and no Payload
+		if header.Remaining != 0 {
+			c.closeConn()
+			return packets.ErrControlPacketIsMalformed
+		}
+
 		// Extend the ping response deadline
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 	default:
+		// The server may not send this control packet and its contents are still unread.
+		c.closeConn()
 		return ErrUnexpectedPacketTypeReceived
 	}
 
-- 
2.43.0


From 552a00960e9642ffe422533f2553fdb636ee7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 28/48] fix: send CONNECT only once per network connection

---
 mqtt/client.go | 5 +++++
 mqtt/errors.go | 1 +
 2 files changed, 6 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index 25b28cb..22c945e 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -221,6 +221,11 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
 
+	// SPEC: A Client can only send the CONNECT packet once over a Network Connection [MQTT-3.1.0-2].
+	if c.IsConnected() {
+		return ErrClientAlreadyConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
diff --git a/mqtt/errors.go b/mqtt/errors.go
index b2e4b09..88b4792 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -30,6 +30,7 @@ var (
 	ErrUnexpectedPacketTypeReceived = errors.New("unexpected packet type received")
 	ErrClientNotConnected           = errors.New("the client is not connected")
 	ErrInvalidArgument              = errors.New("invalid argument")
+	ErrClientAlreadyConnected       = errors.New("the client is already connected")
 )
 
 type ReasonCode byte
-- 
2.43.0


From 69ea8ca1a492cf5e37e65ce173d9499c302a23ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 29/48] fix: default an absent receive maximum to 65,535

With a server that does not limit it, every QoS 1 or QoS 2 publish blocked
forever and every incoming one ended the connection.
---
 mqtt/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 22c945e..36e3efe 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -29,6 +29,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 	"math/rand"
 	"net"
 	"os"
@@ -286,11 +287,14 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Store receive maximum reported by the connect packet and CONNACK received from the server
+	// SPEC: If the Receive Maximum value is absent then its value defaults to 65,535.
 	c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	if c.serverReceiveMaximum == 0 {
+		c.serverReceiveMaximum = math.MaxUint16
+	}
 
 	if packet.ReceiveMaximum == 0 {
-		// Default to that of the server
-		c.clientReceiveMaximum = c.serverReceiveMaximum
+		c.clientReceiveMaximum = math.MaxUint16
 	} else {
 		// Use the value from the connect control packet
 		c.clientReceiveMaximum = packet.ReceiveMaximum.Value()
-- 
2.43.0


From 14d36d35eb97f021b28f9da83e60f5287066446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 30/48] fix: turn off the keep alive mechanism when keep alive
 is 0

Poll reported a keep alive timeout right after connecting, and KeepAlive used a
deadline that had already passed. The deadline is no longer rounded down to
whole seconds.
---
 mqtt/client.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 36e3efe..7f62490 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -783,13 +783,9 @@ func (c *Client) KeepAlive() (err error) {
 	// SPEC: If the Keep Alive value is non-zero and the Server does not receive an MQTT Control Packet from the Client
 	//       within one and a half times the Keep Alive time period, it MUST close the Network Connection to the Client
 	//       as if the network had failed. [MQTT-3.1.2-22]
-	ctx, cancel := context.WithTimeout(context.Background(), time.Second*time.Duration(c.keepAliveInterval.Seconds()*1.5))
-	defer cancel()
-
 	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
+	if c.keepAliveInterval > 0 {
+		deadline = time.Now().Add(c.keepAliveInterval + c.keepAliveInterval/2)
 	}
 
 	// Set I/O deadline
@@ -825,7 +821,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-	if time.Now().After(c.pingRespDeadline) {
+	// SPEC: A Keep Alive value of 0 has the effect of turning off the Keep Alive mechanism.
+	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
 		if err := c.closeConn(); err != nil {
-- 
2.43.0


From b8cb41651c2c4d4439a2fd99d221a2a4de6ce03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 31/48] fix: reserve the send quota before sending a publish

The quota was checked without synchronisation and decremented after sending, so
concurrent publishes could exceed the receive maximum of the server and wrap the
quota around, and an early acknowledgement was lost. A blocked publish missed
its wake-up if it was not waiting yet, and ignored its context.
---
 mqtt/client.go | 119 +++++++++++++++++++++++++++++++------------------
 1 file changed, 75 insertions(+), 44 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 7f62490..b10a625 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -90,6 +90,8 @@ func NewClient(conn net.Conn) *Client {
 		responseChan:    make(map[int]chan any),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
+
+		pendingSendSemaphore: make(chan struct{}, 1),
 	}
 }
 
@@ -304,8 +306,6 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sendQuota = c.serverReceiveMaximum
 	c.receiveQuota = c.clientReceiveMaximum
 
-	c.pendingSendSemaphore = make(chan struct{}) //, c.sendQuota)
-
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 
@@ -616,15 +616,37 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
+	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
+	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
+	//       [MQTT-4.9.0-2].
+	//
+	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
+	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
+	//       is zero [MQTT-4.9.0-3].
+	if pub.QoS > 0 {
+		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
+		if err = c.acquireSendQuota(ctx); err != nil {
+			return err
+		}
+
+		defer func() {
+			if err != nil {
+				// There will be no acknowledgement for this publish
+				c.mutex.Lock()
+				c.releaseSendQuota()
+				c.mutex.Unlock()
+			}
+		}()
+	}
+
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
 
 	if !c.IsConnected() {
 		return ErrClientNotConnected
@@ -653,34 +675,62 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		c.mutex.Unlock()
 	}
 
-	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
-	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
-	//       [MQTT-4.9.0-2].
-	//
-	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
-	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
-	//       is zero [MQTT-4.9.0-3].
-	if c.sendQuota == 0 && pub.QoS > 0 {
-		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
-		c.connMutex.Unlock()
-		c.pendingSendSemaphore <- struct{}{}
-		c.connMutex.Lock()
-	}
 	// Write the publish
 	if err = c.send(pub); err != nil {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
+	return
+}
 
-	if pub.QoS > 0 {
+// acquireSendQuota decrements the send quota once it is not zero.
+func (c *Client) acquireSendQuota(ctx context.Context) error {
+	for {
 		c.mutex.Lock()
-		// Decrement the send quota counter
-		c.sendQuota--
+		if !c.isConnected {
+			// The same goes for all pending calls to Publish
+			c.unblockPublish()
+			c.mutex.Unlock()
+			return ErrClientNotConnected
+		}
+
+		if c.sendQuota > 0 {
+			c.sendQuota--
+			if c.sendQuota > 0 {
+				// There is enough left for another pending call to Publish
+				c.unblockPublish()
+			}
+			c.mutex.Unlock()
+			return nil
+		}
 		c.mutex.Unlock()
+
+		select {
+		case <-c.pendingSendSemaphore: // Unblocked. Try again
+		case <-ctx.Done():
+			return ctx.Err()
+		}
 	}
+}
 
-	return
+// releaseSendQuota increments the send quota. mutex must be held by the caller.
+func (c *Client) releaseSendQuota() {
+	if c.sendQuota < c.serverReceiveMaximum {
+		// Increment the sent publish counter
+		c.sendQuota++
+
+		// Potentially allow a blocked call to Publish to continue.
+		// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
+		c.unblockPublish()
+	}
+}
+
+// unblockPublish unblocks a pending call to Publish, or the next one that would block.
+func (c *Client) unblockPublish() {
+	select {
+	case c.pendingSendSemaphore <- struct{}{}:
+	default: // One is about to be unblocked already
+	}
 }
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
@@ -946,17 +996,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.releaseSendQuota()
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
@@ -1052,17 +1092,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.releaseSendQuota()
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
@@ -1206,6 +1236,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 func (c *Client) closeConn() error {
 	c.mutex.Lock()
 	c.isConnected = false
+	c.unblockPublish()
 	c.mutex.Unlock()
 
 	return c.conn.Close()
-- 
2.43.0


From 04f72a56fa3ee76c47ad0de0840e80411737113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 32/48] fix: end the delivery of a publish that the server
 rejects with PUBREC

It was released as if it had been accepted, a pending publish stayed blocked,
and reason code 0x80 did not count as a failure.
---
 mqtt/client.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index b10a625..c2a95c2 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1017,10 +1017,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Increment the send quota counter if it contains a failure reason code
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
-		if pubrec.ReasonCode > 0x80 {
-			if c.sendQuota < c.serverReceiveMaximum {
-				c.sendQuota++
-			}
+		rejected := pubrec.ReasonCode >= 0x80
+		if rejected {
+			c.releaseSendQuota()
 		}
 
 		if c.storage != nil {
@@ -1030,22 +1029,28 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 
 			// Store the incoming PUBREC to persistent storage
-			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
-				return err
+			if !rejected {
+				if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+					return err
+				}
 			}
 		}
 
 		c.mutex.Unlock()
 
 		// Send PUBREL control packet
-		pubrel := &packets.Pubrel{
-			Puback: packets.Puback{
-				PacketIdentifier: pubrec.PacketIdentifier,
-			},
-		}
+		// SPEC: The sender MUST send a PUBREL packet when it receives a PUBREC packet from the receiver with a Reason Code
+		//       value less than 0x80 [MQTT-4.3.3-4].
+		if !rejected {
+			pubrel := &packets.Pubrel{
+				Puback: packets.Puback{
+					PacketIdentifier: pubrec.PacketIdentifier,
+				},
+			}
 
-		if err = c.send(pubrel); err != nil {
-			return err
+			if err = c.send(pubrel); err != nil {
+				return err
+			}
 		}
 
 		c.signal(packets.PUBREC, pubrec, nil)
-- 
2.43.0


From 0246307ef81749a8c3387141f2490e69ec630c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 33/48] fix: release the client state when the storage fails
 during Poll

The client stayed locked forever. The receive quota is now also guarded when it
is incremented for a PUBREL.
---
 mqtt/client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index c2a95c2..cfef2c7 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1001,6 +1001,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
 			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -1025,12 +1026,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original publish from persistent storage
 			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 
 			// Store the incoming PUBREC to persistent storage
 			if !rejected {
 				if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+					c.mutex.Unlock()
 					return err
 				}
 			}
@@ -1066,6 +1069,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
@@ -1083,9 +1087,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Increment receive quota counter
+		c.mutex.Lock()
 		if c.receiveQuota < c.clientReceiveMaximum {
 			c.receiveQuota++
 		}
+		c.mutex.Unlock()
 
 		c.signal(packets.PUBREL, pubrel, nil)
 	case packets.PUBCOMP:
@@ -1102,6 +1108,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
 			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
+				c.mutex.Unlock()
 				return err
 			}
 		}
-- 
2.43.0


From 5ff9f65b9a6ee7da528d66582b669a3159a29bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 34/48] fix: accept acknowledgements for control packets that
 are not in storage

A repeated acknowledgement, or one for a publish that was sent before a storage
was set, made Poll fail. A repeated PUBREL was never answered with a PUBCOMP, so
the server would repeat it forever.
---
 mqtt/client.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index cfef2c7..661f0fc 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1000,7 +1000,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
-			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
+			if err = c.drop(puback.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
 			}
@@ -1025,7 +1025,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		if c.storage != nil {
 			// Discard original publish from persistent storage
-			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
+			if err = c.drop(pubrec.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
 			}
@@ -1068,7 +1068,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.mutex.Lock()
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
+			if err = c.drop(pubrel.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
 			}
@@ -1107,7 +1107,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
+			if err = c.drop(pubcomp.PacketIdentifier.Value()); err != nil {
 				c.mutex.Unlock()
 				return err
 			}
@@ -1243,6 +1243,15 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	return true
 }
 
+// drop discards a control packet from persistent storage, if it is there. mutex must be held by the caller.
+func (c *Client) drop(identifier uint16) error {
+	if err := c.storage.Drop(identifier); !errors.Is(err, storage.ErrNoEntry) {
+		return err
+	}
+
+	return nil
+}
+
 // closeConn closes the network connection and leaves the connected state, since nothing more may be sent on it. connMutex
 // must be held by the caller, mutex must not.
 func (c *Client) closeConn() error {
-- 
2.43.0


From 6d02c83a6e3ca34adbc0c4bc090ac1cc9b8603e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 35/48] fix: store the PUBREC of QoS 2 messages before it is
 sent

It was also stored for QoS 1 messages, whose delivery has no PUBREL that would
remove it, so that later publishes with the same identifier were refused, and a
failure to store it was ignored after it had been sent.
---
 mqtt/client.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 661f0fc..4bdbd01 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -954,6 +954,23 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.Unlock()
 
+		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
+		// It will be removed when a PUBREL control packet comes in.
+		c.mutex.RLock()
+		if publish.QoS == packets.QoS2 && c.storage != nil {
+			pubrec := &packets.Pubrec{
+				Puback: packets.Puback{
+					PacketIdentifier: publish.PacketIdentifier,
+				},
+			}
+			err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
+			if err != nil && !errors.Is(err, storage.ErrDuplicateEntry) {
+				c.mutex.RUnlock()
+				return err
+			}
+		}
+		c.mutex.RUnlock()
+
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
 			if err = c.sendPuback(ctx, publish); err != nil {
@@ -974,19 +991,6 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
-		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
-		// It will be removed when a PUBREL control packet comes in.
-		c.mutex.RLock()
-		if publish.QoS > 0 && c.storage != nil {
-			pubrec := &packets.Pubrec{
-				Puback: packets.Puback{
-					PacketIdentifier: publish.PacketIdentifier,
-				},
-			}
-			c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
-		}
-		c.mutex.RUnlock()
-
 		c.signal(packets.PUBLISH, publish, nil)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
-- 
2.43.0


From 25bd6596772687b21d1a2b83aa7c1baf4af25c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 36/48] fix: deliver each QoS 2 publish once

---
 mqtt/client.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 4bdbd01..10e7693 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -67,6 +67,9 @@ type Client struct {
 	sendQuota    uint16
 	receiveQuota uint16
 
+	// unreleased is the set of identifiers of the received QoS 2 publishes that were not released by a PUBREL yet
+	unreleased map[uint16]struct{}
+
 	rngFn func() uint32
 
 	pendingSendSemaphore chan struct{}
@@ -89,6 +92,7 @@ func NewClient(conn net.Conn) *Client {
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
 		evChanIdCounter: 1,
+		unreleased:      make(map[uint16]struct{}),
 		rngFn:           rand.Uint32,
 
 		pendingSendSemaphore: make(chan struct{}, 1),
@@ -935,8 +939,15 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return err
 		}
 
+		// Is this a publish that was received already?
+		// SPEC: Until it has received the corresponding PUBREL packet, the receiver MUST acknowledge any subsequent
+		//       PUBLISH packet with the same Packet Identifier by sending a PUBREC. It MUST NOT cause duplicate messages
+		//       to be delivered to any onward recipients in this case [MQTT-4.3.3-10].
 		c.mutex.Lock()
-		if c.receiveQuota == 0 && publish.QoS > 0 {
+		_, duplicate := c.unreleased[publish.PacketIdentifier.Value()]
+		duplicate = duplicate && publish.QoS == packets.QoS2
+
+		if c.receiveQuota == 0 && publish.QoS > 0 && !duplicate {
 			// The server has sent more publishes than this client is willing to accept. Send disconnect.
 			// SPEC: The Server MUST NOT send more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets for which it has
 			//       not received PUBACK, PUBCOMP, or PUBREC with a Reason Code of 128 or greater from the Client
@@ -948,7 +959,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 				return err
 			}
 			return ReasonCode(0x93)
-		} else if publish.QoS > 0 {
+		} else if publish.QoS > 0 && !duplicate {
 			// Decrement the receive quota counter
 			c.receiveQuota--
 		}
@@ -956,8 +967,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
-		c.mutex.RLock()
-		if publish.QoS == packets.QoS2 && c.storage != nil {
+		c.mutex.Lock()
+		if publish.QoS == packets.QoS2 && !duplicate && c.storage != nil {
 			pubrec := &packets.Pubrec{
 				Puback: packets.Puback{
 					PacketIdentifier: publish.PacketIdentifier,
@@ -965,11 +976,15 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 			err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
 			if err != nil && !errors.Is(err, storage.ErrDuplicateEntry) {
-				c.mutex.RUnlock()
+				c.mutex.Unlock()
 				return err
 			}
 		}
-		c.mutex.RUnlock()
+
+		if publish.QoS == packets.QoS2 {
+			c.unreleased[publish.PacketIdentifier.Value()] = struct{}{}
+		}
+		c.mutex.Unlock()
 
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
@@ -982,6 +997,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
+		if duplicate {
+			return nil
+		}
+
 		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
 		for filter, channel := range c.topicChans {
 			// Does the topic match any known filter?
@@ -1092,7 +1111,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Increment receive quota counter
 		c.mutex.Lock()
-		if c.receiveQuota < c.clientReceiveMaximum {
+		if _, ok := c.unreleased[pubrel.PacketIdentifier.Value()]; ok {
+			delete(c.unreleased, pubrel.PacketIdentifier.Value())
 			c.receiveQuota++
 		}
 		c.mutex.Unlock()
-- 
2.43.0


From e978c48dc1cbf65bbdc5de0231b1c99363f880ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 37/48] fix: only use packet identifiers that are not in use

---
 mqtt/client.go | 85 ++++++++++++++++++++++++++++++++++++++++++++------
 mqtt/errors.go |  1 +
 2 files changed, 77 insertions(+), 9 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 10e7693..4781f7e 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -67,6 +67,9 @@ type Client struct {
 	sendQuota    uint16
 	receiveQuota uint16
 
+	// inflight is the set of packet identifiers that are in use by this client
+	inflight map[uint16]struct{}
+
 	// unreleased is the set of identifiers of the received QoS 2 publishes that were not released by a PUBREL yet
 	unreleased map[uint16]struct{}
 
@@ -92,6 +95,7 @@ func NewClient(conn net.Conn) *Client {
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
 		evChanIdCounter: 1,
+		inflight:        make(map[uint16]struct{}),
 		unreleased:      make(map[uint16]struct{}),
 		rngFn:           rand.Uint32,
 
@@ -484,8 +488,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	}
 
 	c.mutex.Lock()
+	identifier, err := c.nextPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	subscribe := &packets.Subscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: primitives.PrimitiveUint16(identifier),
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -496,10 +506,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
 	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
+	c.inflight[identifier] = struct{}{}
 	c.mutex.Unlock()
 
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
+		c.mutex.Lock()
+		delete(c.inflight, identifier)
+		c.mutex.Unlock()
 		return err
 	}
 
@@ -577,8 +591,14 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	}
 
 	c.mutex.Lock()
+	identifier, err := c.nextPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	unsubscribe := &packets.Unsubscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: primitives.PrimitiveUint16(identifier),
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -588,10 +608,14 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
 	c.responseChan[int(unsubscribe.PacketIdentifier)] = respChan
+	c.inflight[identifier] = struct{}{}
 	c.mutex.Unlock()
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		c.mutex.Lock()
+		delete(c.inflight, identifier)
+		c.mutex.Unlock()
 		return err
 	}
 
@@ -664,9 +688,19 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	// Perform preflight packet persistence operations
 	if pub.QoS > 0 {
 		// Assign a packet identifier if none is set
+		// SPEC: Each time a Client sends a new SUBSCRIBE, UNSUBSCRIBE, or PUBLISH (where QoS > 0) MQTT Control Packet it
+		//       MUST assign it a non-zero Packet Identifier that is currently unused [MQTT-2.2.1-3].
 		c.mutex.Lock()
 		if pub.PacketIdentifier == 0 {
-			pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
+			var identifier uint16
+			if identifier, err = c.nextPacketIdentifier(); err != nil {
+				c.mutex.Unlock()
+				return err
+			}
+			pub.PacketIdentifier = primitives.PrimitiveUint16(identifier)
+		} else if _, ok := c.inflight[pub.PacketIdentifier.Value()]; ok {
+			c.mutex.Unlock()
+			return ErrPacketIdentifierInUse
 		}
 
 		if c.storage != nil {
@@ -676,17 +710,36 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 				return err
 			}
 		}
+		c.inflight[pub.PacketIdentifier.Value()] = struct{}{}
 		c.mutex.Unlock()
 	}
 
 	// Write the publish
 	if err = c.send(pub); err != nil {
+		if pub.QoS > 0 {
+			c.mutex.Lock()
+			delete(c.inflight, pub.PacketIdentifier.Value())
+			c.mutex.Unlock()
+		}
 		return err
 	}
 
 	return
 }
 
+// nextPacketIdentifier returns a packet identifier that is not in use. mutex must be held by the caller.
+func (c *Client) nextPacketIdentifier() (uint16, error) {
+	identifier := uint16(c.rngFn())
+	for i := 0; i <= math.MaxUint16; i++ {
+		if _, ok := c.inflight[identifier]; !ok && identifier != 0 {
+			return identifier, nil
+		}
+		identifier++
+	}
+
+	return 0, ErrPacketIdentifierInUse
+}
+
 // acquireSendQuota decrements the send quota once it is not zero.
 func (c *Client) acquireSendQuota(ctx context.Context) error {
 	for {
@@ -1020,6 +1073,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Perform rate limiting related operations
 		c.mutex.Lock()
 		c.releaseSendQuota()
+		delete(c.inflight, puback.PacketIdentifier.Value())
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
@@ -1044,6 +1098,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		rejected := pubrec.ReasonCode >= 0x80
 		if rejected {
 			c.releaseSendQuota()
+			delete(c.inflight, pubrec.PacketIdentifier.Value())
 		}
 
 		if c.storage != nil {
@@ -1128,6 +1183,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Perform rate limiting related operations
 		c.mutex.Lock()
 		c.releaseSendQuota()
+		delete(c.inflight, pubcomp.PacketIdentifier.Value())
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
@@ -1147,9 +1203,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Subscribe
-		if respChan, ok := c.responseChan[int(suback.PacketIdentifier)]; ok {
-			respChan <- suback
-		}
+		c.respond(suback.PacketIdentifier.Value(), suback)
 
 		c.signal(packets.SUBACK, suback, nil)
 	case packets.UNSUBACK:
@@ -1159,9 +1213,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Unsubscribe
-		if respChan, ok := c.responseChan[int(unsuback.PacketIdentifier)]; ok {
-			respChan <- unsuback
-		}
+		c.respond(unsuback.PacketIdentifier.Value(), unsuback)
 
 		c.signal(packets.UNSUBACK, unsuback, nil)
 	case packets.DISCONNECT:
@@ -1267,6 +1319,21 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	return true
 }
 
+// respond hands an acknowledgement over to the pending call that waits for it, if there is one. Its packet identifier is
+// no longer in use.
+func (c *Client) respond(identifier uint16, response any) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	delete(c.inflight, identifier)
+	if respChan, ok := c.responseChan[int(identifier)]; ok {
+		select {
+		case respChan <- response:
+		default: // There is a response already
+		}
+	}
+}
+
 // drop discards a control packet from persistent storage, if it is there. mutex must be held by the caller.
 func (c *Client) drop(identifier uint16) error {
 	if err := c.storage.Drop(identifier); !errors.Is(err, storage.ErrNoEntry) {
diff --git a/mqtt/errors.go b/mqtt/errors.go
index 88b4792..60be07b 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -31,6 +31,7 @@ var (
 	ErrClientNotConnected           = errors.New("the client is not connected")
 	ErrInvalidArgument              = errors.New("invalid argument")
 	ErrClientAlreadyConnected       = errors.New("the client is already connected")
+	ErrPacketIdentifierInUse        = errors.New("the packet identifier is in use")
 )
 
 type ReasonCode byte
-- 
2.43.0


From 75e22089a0ffdd94da60ac5e3304c2e06019ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 38/48] fix: complete Subscribe and Unsubscribe in every case

---
 mqtt/client.go | 134 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 93 insertions(+), 41 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 4781f7e..5fff570 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -509,6 +509,13 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.inflight[identifier] = struct{}{}
 	c.mutex.Unlock()
 
+	defer func() {
+		// Remove the channel from the map
+		c.mutex.Lock()
+		delete(c.responseChan, int(identifier))
+		c.mutex.Unlock()
+	}()
+
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
 		c.mutex.Lock()
@@ -520,38 +527,43 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
-	select {
-	case resp := <-respChan:
-		suback := resp.(*packets.Suback)
-
-		// Check all reason codes
-		for i, code := range suback.ReasonCodes {
-			if code >= 0x80 {
-				// TODO: Return all failure reason codes to caller somehow
-				return ReasonCode(code)
-			} else {
-				// TODO: Consider session retention details here
-
-				if chanid := topics[i].channel.id; chanid != 0 {
-					// Map the event channel to the topic
-					c.mutex.Lock()
-					c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
-
-					// Remove this channel from the general event channel map
-					delete(c.eventChans, chanid)
-					c.mutex.Unlock()
-				}
-			}
-		}
+	resp, err := c.waitResponse(ctx, respChan)
+	if err != nil {
+		return err
 	}
 
-	// Close the chan
-	close(respChan)
+	suback, ok := resp.(*packets.Suback)
+	if !ok {
+		return ErrUnexpectedPacketTypeReceived
+	}
 
-	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(subscribe.PacketIdentifier))
-	c.mutex.Unlock()
+	// SPEC: The SUBACK packet sent by the Server to the Client MUST contain a Reason Code for each Topic Filter/
+	//       Subscription Option pair [MQTT-3.8.4-6].
+	if len(suback.ReasonCodes) != len(topics) {
+		return packets.ErrControlPacketIsMalformed
+	}
+
+	// Check all reason codes
+	for i, code := range suback.ReasonCodes {
+		if code >= 0x80 {
+			// TODO: Return all failure reason codes to caller somehow
+			if err == nil {
+				err = ReasonCode(code)
+			}
+		} else {
+			// TODO: Consider session retention details here
+
+			if chanid := topics[i].channel.id; chanid != 0 {
+				// Map the event channel to the topic
+				c.mutex.Lock()
+				c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
+
+				// Remove this channel from the general event channel map
+				delete(c.eventChans, chanid)
+				c.mutex.Unlock()
+			}
+		}
+	}
 
 	return
 }
@@ -611,6 +623,13 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	c.inflight[identifier] = struct{}{}
 	c.mutex.Unlock()
 
+	defer func() {
+		// Remove the channel from the map
+		c.mutex.Lock()
+		delete(c.responseChan, int(identifier))
+		c.mutex.Unlock()
+	}()
+
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
 		c.mutex.Lock()
@@ -622,26 +641,52 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
-	select {
-	case <-respChan:
-		c.mutex.Lock()
-		// Close any event channels bound to the topics
-		for _, topic := range topics {
-			if channel, ok := c.topicChans[topic]; ok {
-				c.closeEventChannelInternal(channel)
-			}
-		}
-		c.mutex.Unlock()
+	resp, err := c.waitResponse(ctx, respChan)
+	if err != nil {
+		return err
+	}
+
+	unsuback, ok := resp.(*packets.Unsuback)
+	if !ok {
+		return ErrUnexpectedPacketTypeReceived
+	}
+
+	// SPEC: The UNSUBACK packet sent by the Server contains one Reason Code for each Topic Filter, in the order of the
+	//       Topic Filters of the UNSUBSCRIBE packet [MQTT-3.11.3-1].
+	if len(unsuback.ReasonCodes) != len(topics) {
+		return packets.ErrControlPacketIsMalformed
 	}
 
+	// Close any event channels bound to the topics that the server accepted
 	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(unsubscribe.PacketIdentifier))
+	for i, code := range unsuback.ReasonCodes {
+		if code >= 0x80 {
+			if err == nil {
+				err = ReasonCode(code)
+			}
+		} else if channel, ok := c.topicChans[topics[i]]; ok {
+			c.closeEventChannelInternal(channel)
+		}
+	}
 	c.mutex.Unlock()
 
 	return
 }
 
+// waitResponse waits for the acknowledgement that respond hands over. Neither connMutex nor mutex may be held by the
+// caller.
+func (c *Client) waitResponse(ctx context.Context, respChan <-chan any) (any, error) {
+	select {
+	case resp := <-respChan:
+		if err, ok := resp.(error); ok {
+			return nil, err
+		}
+		return resp, nil
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	}
+}
+
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
 	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
@@ -1349,6 +1394,13 @@ func (c *Client) closeConn() error {
 	c.mutex.Lock()
 	c.isConnected = false
 	c.unblockPublish()
+	for _, respChan := range c.responseChan {
+		// There will be no acknowledgement
+		select {
+		case respChan <- ErrClientNotConnected:
+		default: // There is a response already
+		}
+	}
 	c.mutex.Unlock()
 
 	return c.conn.Close()
-- 
2.43.0


From 4637300c1d729c78e28d543c6ff5715787eb5760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 39/48] fix: guard the event channels with their own mutex and
 close them once

---
 mqtt/client.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 5fff570..356c5f7 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -56,6 +56,8 @@ type Client struct {
 	clientReceiveMaximum uint16
 	serverReceiveMaximum uint16
 
+	// openChans is the set of the ids of all event channels that are not closed
+	openChans  map[int]struct{}
 	eventChans map[int]EventChannel
 	topicChans map[string]EventChannel
 
@@ -91,6 +93,7 @@ func (t *Topic) SetEventChannel(channel EventChannel) *Topic {
 func NewClient(conn net.Conn) *Client {
 	return &Client{
 		conn:            conn,
+		openChans:       make(map[int]struct{}),
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
@@ -148,6 +151,7 @@ func (c *Client) CreateEventChannel(n int) EventChannel {
 	}
 
 	// Track this chan so fanout signalling can occur later
+	c.openChans[c.evChanIdCounter] = struct{}{}
 	c.eventChans[c.evChanIdCounter] = result
 	c.evChanIdCounter++
 
@@ -162,7 +166,13 @@ func (c *Client) CloseEventChannel(channel EventChannel) {
 	c.closeEventChannelInternal(channel)
 }
 
+// closeEventChannelInternal closes the event channel, unless it is closed already. eventMutex must be held by the caller.
 func (c *Client) closeEventChannelInternal(channel EventChannel) {
+	if _, ok := c.openChans[channel.id]; !ok {
+		return
+	}
+	delete(c.openChans, channel.id)
+
 	// Close the channel so that no further signals can occur on it
 	close(channel.channel)
 
@@ -185,6 +195,11 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 	c.eventMutex.Lock()
 	defer c.eventMutex.Unlock()
 
+	c.signalInternal(packetType, data, channel)
+}
+
+// signalInternal is what signal does while eventMutex is held by the caller.
+func (c *Client) signalInternal(packetType packets.PacketType, data any, channel chan<- *Event) {
 	e := &Event{
 		PacketType: packetType,
 		Data:       data,
@@ -553,15 +568,16 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		} else {
 			// TODO: Consider session retention details here
 
-			if chanid := topics[i].channel.id; chanid != 0 {
+			c.eventMutex.Lock()
+			chanid := topics[i].channel.id
+			if _, ok := c.openChans[chanid]; ok {
 				// Map the event channel to the topic
-				c.mutex.Lock()
-				c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
+				c.topicChans[topics[i].Topic.Filter()] = topics[i].channel
 
 				// Remove this channel from the general event channel map
 				delete(c.eventChans, chanid)
-				c.mutex.Unlock()
 			}
+			c.eventMutex.Unlock()
 		}
 	}
 
@@ -658,7 +674,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	}
 
 	// Close any event channels bound to the topics that the server accepted
-	c.mutex.Lock()
+	c.eventMutex.Lock()
 	for i, code := range unsuback.ReasonCodes {
 		if code >= 0x80 {
 			if err == nil {
@@ -668,7 +684,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 			c.closeEventChannelInternal(channel)
 		}
 	}
-	c.mutex.Unlock()
+	c.eventMutex.Unlock()
 
 	return
 }
@@ -1100,13 +1116,15 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
+		c.eventMutex.Lock()
 		for filter, channel := range c.topicChans {
 			// Does the topic match any known filter?
 			if c.matchTopic(publish.Topic.String(), filter) {
 				// Signal the publish on this channel
-				c.signal(packets.PUBLISH, publish, channel.channel)
+				c.signalInternal(packets.PUBLISH, publish, channel.channel)
 			}
 		}
+		c.eventMutex.Unlock()
 
 		c.signal(packets.PUBLISH, publish, nil)
 	case packets.PUBACK:
-- 
2.43.0


From 4b1f8a5fd41ac153e2ddf6e6dbcad1af91e897d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 40/48] fix: answer incoming control packets within the
 extended I/O deadline

---
 mqtt/client.go | 46 +++++++---------------------------------------
 1 file changed, 7 insertions(+), 39 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 356c5f7..a385da2 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -425,22 +425,11 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 
 // disconnectWithReason sends the DISCONNECT packet with the specified reason and closes the network connection. connMutex
 // must be held by the caller, mutex must not.
-func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
+func (c *Client) disconnectWithReason(reason primitives.PrimitiveByte) (err error) {
 	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	disconnect := &packets.Disconnect{
 		ReasonCode: reason,
 	}
@@ -455,6 +444,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 
 	// Send the DISCONNECT packet to the server
 	if err = c.send(disconnect); err != nil {
+		c.closeConn()
 		return err
 	}
 
@@ -853,23 +843,12 @@ func (c *Client) unblockPublish() {
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPuback(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	puback := &packets.Puback{
 		PacketIdentifier: publish.PacketIdentifier,
 	}
@@ -891,23 +870,12 @@ func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err
 
 // sendPubrec will send the PUBREC control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPubrec(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	pubrec := &packets.Pubrec{
 		Puback: packets.Puback{
 			PacketIdentifier: publish.PacketIdentifier,
@@ -1069,7 +1037,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			//       has not sent a PUBACK or PUBCOMP in response, the Client uses DISCONNECT with Reason Code 0x93
 			//       (Receive Maximum exceeded) as described in section 4.13 Handling errors.
 			c.mutex.Unlock()
-			if err = c.disconnectWithReason(ctx, 0x93); err != nil {
+			if err = c.disconnectWithReason(0x93); err != nil {
 				return err
 			}
 			return ReasonCode(0x93)
@@ -1102,11 +1070,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
-			if err = c.sendPuback(ctx, publish); err != nil {
+			if err = c.sendPuback(publish); err != nil {
 				return err
 			}
 		} else if publish.QoS == packets.QoS2 {
-			if err = c.sendPubrec(ctx, publish); err != nil {
+			if err = c.sendPubrec(publish); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 658f0068d7a299a2cb3cdaaae35935203e61e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 41/48] fix: refuse publishes whose payload cannot be encoded

---
 mqtt/packets/publish.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 1a2b699..1d9370e 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -238,6 +238,11 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	// The payload must fit in the remaining length, which can be no greater than 268,435,455.
+	if len(p.Payload) > 268_435_455 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	variableHeaderLen += p.Topic.Length(false)
 
-- 
2.43.0


From a109ca33107d78c93da2ec85f59c7d613c0fb28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 42/48] fix: Publish.Write reports a short write, payload
 replaced by a shorter one does not panic

---
 mqtt/packets/publish.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 1d9370e..c33d1b1 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -59,7 +59,7 @@ type Publish struct {
 
 func (p *Publish) Write(buf []byte) (n int, err error) {
 	// Return EOF if the offset is at the end of the payload buffer
-	if p.offset == len(p.Payload) {
+	if p.offset >= len(p.Payload) {
 		return 0, io.EOF
 	}
 
@@ -67,12 +67,17 @@ func (p *Publish) Write(buf []byte) (n int, err error) {
 	n = copy(p.Payload[p.offset:], buf)
 	p.offset += n
 
+	// An io.Writer must return an error if it did not write all of the bytes
+	if n < len(buf) {
+		err = io.ErrShortWrite
+	}
+
 	return
 }
 
 func (p *Publish) Read(buf []byte) (n int, err error) {
 	// Return EOF if the offset is at the end of the payload buffer
-	if p.offset == len(p.Payload) {
+	if p.offset >= len(p.Payload) {
 		return 0, io.EOF
 	}
 
-- 
2.43.0


From 5caa0e7afdd7ab27fadaa8e21334ade3ad8c1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:32 +0000
Subject: [PATCH 43/48] fix: describe reason code 0x99 as an invalid payload
 format

---
 mqtt/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/errors.go b/mqtt/errors.go
index 60be07b..c3438d5 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -91,7 +91,7 @@ func (r ReasonCode) Error() string {
 	case 0x98:
 		return "administrative action"
 	case 0x99:
-		return "retain not supported"
+		return "payload format invalid"
 	case 0x9A:
 		return "retain not supported"
 	case 0x9B:
-- 
2.43.0


From 0b49591fb6565ff5038f664ccc298e012b99a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 44/48] fix: Poll stays connected when it cannot set the
 deadline in the middle of a packet

The first byte of the packet was read already, so the next call would take the
rest of it for the header of another one.
---
 mqtt/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index a385da2..745dfb3 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -999,11 +999,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	if !deadline.IsZero() {
 		// Extend I/O deadline
 		if err = c.conn.SetDeadline(time.Now().Add(time.Second * 30)); err != nil {
+			c.closeConn()
 			return
 		}
 	} else {
 		// Unset any deadline
 		if err = c.conn.SetDeadline(time.Time{}); err != nil {
+			c.closeConn()
 			return
 		}
 	}
-- 
2.43.0


From 6f341d9852a81430046091500cfe3ed5e3a54359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:20 +0000
Subject: [PATCH 45/48] fix: turn keep alive off when a later CONNECT asks for
 it

A connection with keep alive 0 kept the interval of the connection before it, so Poll ended it with 0x8D.
---
 mqtt/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 745dfb3..70b5064 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -306,8 +306,8 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		// SPEC: If the Server returns a Server Keep Alive on the CONNACK packet, the Client MUST use that value instead
 		//       of the value it sent as the Keep Alive. [MQTT-3.1.2-21]
 		c.keepAliveInterval = time.Second * time.Duration(connack.ServerKeepAlive)
-	} else if packet.KeepAlive > 0 {
-		// Use the keep alive interval defined in the CONNECT packet
+	} else {
+		// Use the keep alive interval defined in the CONNECT packet. It may be zero, which turns keep alive off.
 		c.keepAliveInterval = time.Second * time.Duration(packet.KeepAlive)
 	}
 
-- 
2.43.0


From 5e93e8287c29e758ab4c01b1532c3e409322a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:42 +0000
Subject: [PATCH 46/48] fix: keep the receive quota within the receive maximum

A PUBREL for a publish of an earlier connection took it beyond the maximum, with the default of 65,535 to zero, so that
the next publish was answered with DISCONNECT 0x93.
---
 mqtt/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 70b5064..61985b0 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1201,7 +1201,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.mutex.Lock()
 		if _, ok := c.unreleased[pubrel.PacketIdentifier.Value()]; ok {
 			delete(c.unreleased, pubrel.PacketIdentifier.Value())
-			c.receiveQuota++
+
+			// The quota does not count the publish if it was received over an earlier network connection
+			if c.receiveQuota < c.clientReceiveMaximum {
+				c.receiveQuota++
+			}
 		}
 		c.mutex.Unlock()
 
-- 
2.43.0


From ffa6b59ace1a8eca67582de2e68ab3a3e2dffc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:44 +0000
Subject: [PATCH 47/48] fix: forget unreleased publishes when the server starts
 a new session

A QoS 2 publish of the new session with the packet identifier of one of them was acknowledged but never delivered.
---
 mqtt/client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index 61985b0..b87456a 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -329,6 +329,14 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sendQuota = c.serverReceiveMaximum
 	c.receiveQuota = c.clientReceiveMaximum
 
+	// Forget the publishes of the earlier session if the server did not continue it. It will use their packet identifiers
+	// for other publishes.
+	// SPEC: If the Client receives a CONNACK with Session Present set to 0, it MUST discard the Session State
+	//       [MQTT-3.2.2-5].
+	if !connack.SessionPresent {
+		c.unreleased = make(map[uint16]struct{})
+	}
+
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 
-- 
2.43.0


From 91c6f64403e9129f925797b88f7274cd8b313da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:24 +0000
Subject: [PATCH 48/48] fix: deliver a publish even if its acknowledgement
 could not be written

The server may have received it, in which case it does not send the publish again: the message was lost, and a QoS 2
publish that it did send again was taken for a duplicate.
---
 mqtt/client.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index b87456a..e19158c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1079,18 +1079,15 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.mutex.Unlock()
 
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
+		// The server may have received it even if sending it failed, so the publish must be delivered in any case.
 		if publish.QoS == packets.QoS1 {
-			if err = c.sendPuback(publish); err != nil {
-				return err
-			}
+			err = c.sendPuback(publish)
 		} else if publish.QoS == packets.QoS2 {
-			if err = c.sendPubrec(publish); err != nil {
-				return err
-			}
+			err = c.sendPubrec(publish)
 		}
 
 		if duplicate {
-			return nil
+			return err
 		}
 
 		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
@@ -1105,6 +1102,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.eventMutex.Unlock()
 
 		c.signal(packets.PUBLISH, publish, nil)
+
+		if err != nil {
+			return err
+		}
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if err = c.receive(puback); err != nil {
-- 
2.43.0

