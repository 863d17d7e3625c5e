From 6051dc9aaad2257fc1082ec64ca860bc33518a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 01/25] verif: hook to replace the packet connection (build tag
 verif)

---
 tru.go       |  1 +
 verif_off.go |  8 ++++++++
 verif_on.go  | 18 ++++++++++++++++++
 3 files changed, 27 insertions(+)
 create mode 100644 verif_off.go
 create mode 100644 verif_on.go

diff --git a/tru.go b/tru.go
index dc58bd4..bb3d491 100644
--- a/tru.go
+++ b/tru.go
@@ -158,6 +158,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	if err != nil {
 		return
 	}
+	tru.conn = verifPacketConn(tru.conn)
 
 	// Generate privater key or use private key from attr parameters
 	// if param.privateKey == nil {
diff --git a/verif_off.go b/verif_off.go
new file mode 100644
index 0000000..dfde94e
--- /dev/null
+++ b/verif_off.go
@@ -0,0 +1,8 @@
+//go:build !verif
+
+package tru
+
+import "net"
+
+// verifPacketConn does nothing without the verif build tag
+func verifPacketConn(conn net.PacketConn) net.PacketConn { return conn }
diff --git a/verif_on.go b/verif_on.go
new file mode 100644
index 0000000..de1ab2f
--- /dev/null
+++ b/verif_on.go
@@ -0,0 +1,18 @@
+//go:build verif
+
+package tru
+
+import "net"
+
+// VerifPacketConn, when set, replaces the packet connection of every tru object
+// created after that. It is used by the verification harness only (build tag
+// verif).
+var VerifPacketConn func(conn net.PacketConn) net.PacketConn
+
+// verifPacketConn returns the packet connection which tru object will use
+func verifPacketConn(conn net.PacketConn) net.PacketConn {
+	if VerifPacketConn == nil {
+		return conn
+	}
+	return VerifPacketConn(conn)
+}
-- 
2.43.0


From 83e3b7974d117bd310eab74054ed3239ea79b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 02/25] fix: stop the real delivery timer when a packet is
 acknowledged

The timer was copied by value, so Stop worked on memory which is not a timer:
it corrupted neighbouring objects and the timeout callback was executed after
the success callback. Keep the pointer, set the callback before the packet is
added to the send queue and report success only if the timer was stopped.
---
 channel.go | 2 +-
 packet.go  | 4 ++--
 tru.go     | 8 +++++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/channel.go b/channel.go
index 0679bd0..38ca2c9 100644
--- a/channel.go
+++ b/channel.go
@@ -261,12 +261,12 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 	// Add data packet to send queue and Set packet retransmit time
 	if status == statusData {
 		ch.setRetransmitTime(pac)
-		ch.sendQueue.add(pac)
 		if stat == statusData {
 			pac.SetDeliveryTimeout(deliveryTimeout)
 			pac.SetDelivery(deliveryFunc)
 			ch.stat.setSend()
 		}
+		ch.sendQueue.add(pac)
 		ch.stat.setLastSend(time.Now())
 	}
 
diff --git a/packet.go b/packet.go
index 96e7c3a..b779905 100644
--- a/packet.go
+++ b/packet.go
@@ -48,7 +48,7 @@ type Packet struct {
 	retransmitAttempts int                // Packet retransmit attempts
 	delivery           PacketDeliveryFunc // Packet delivery callback function
 	deliveryTimeout    time.Duration      // Packet delivery callback timeout
-	deliveryTimer      time.Timer         // Packet delivery timeout timer
+	deliveryTimer      *time.Timer        // Packet delivery timeout timer
 	sync.RWMutex
 }
 
@@ -182,7 +182,7 @@ func (p *Packet) SetDelivery(delivery PacketDeliveryFunc) *Packet {
 	}
 	log.Debugvvv.Println("set delivery func, id", p.ID())
 	p.delivery = delivery
-	p.deliveryTimer = *time.AfterFunc(p.deliveryTimeout, func() {
+	p.deliveryTimer = time.AfterFunc(p.deliveryTimeout, func() {
 		// log.Error.Println("delivery timeout, id", p.ID())
 		err := errors.New("delivery timeout")
 		p.delivery(p, err)
diff --git a/tru.go b/tru.go
index bb3d491..d1cb2ad 100644
--- a/tru.go
+++ b/tru.go
@@ -376,9 +376,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		ch.stat.setAckReceived()
 		log.Debugvv.Printf("got ack to packet id %d, trip time: %.3f ms", pac.ID(), float64(tt.Microseconds())/1000.0)
 		pac, ok := ch.sendQueue.delete(pac.ID())
-		// Execute packet delivery callback
-		if delivery := pac.Delivery(); ok && delivery != nil {
-			pac.deliveryTimer.Stop()
+		if !ok {
+			break
+		}
+		// Execute packet delivery callback if it was not executed by timeout
+		if delivery := pac.Delivery(); delivery != nil && pac.deliveryTimer.Stop() {
 			go delivery(pac, nil)
 		}
 
-- 
2.43.0


From 1c63dbf0dcac8cce0e64118603e817f84f689444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 03/25] fix: destroy a channel once

Readers were told of the end of a channel again on every further destroy, a
reader which called Close on that occasion recursed without end, and the
second destroy of an old channel removed the new channel with the same address
from the channels map. Timers of a destroyed channel could be started again.
---
 channel.go    | 31 +++++++++++++++++--------------
 send_queue.go |  5 +++++
 statistic.go  | 18 ++++++++++++++++++
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/channel.go b/channel.go
index 38ca2c9..037e4c5 100644
--- a/channel.go
+++ b/channel.go
@@ -131,32 +131,35 @@ func (ch *Channel) setReader(reader ReaderFunc) {
 	ch.reader = reader
 }
 
-// destroy destroy channel
+// destroy destroy channel. Only the first call has effect
 func (ch *Channel) destroy(msg string) {
-	if ch == nil {
+	if ch == nil || !ch.stat.setDestroyed() {
 		return
 	}
 
-	// Send error event to readers
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
-	}
-	if ch.tru.reader != nil {
-		ch.tru.reader(ch, nil, ErrChannelDestroyed)
-	}
-
 	// Destroy sendQueue and statistic
 	ch.sendQueue.destroy()
 	ch.stat.destroy()
 
+	// Delete channel from channels, there may be already next channel with the
+	// same address
+	ch.tru.mu.Lock()
+	if ch.tru.channels[ch.addr.String()] == ch {
+		delete(ch.tru.channels, ch.addr.String())
+	}
+	ch.tru.mu.Unlock()
+
 	// Log messages
 	log.Connect.Println(msg)
 	ch.tru.statMsgs.add(msg)
 
-	// Delete channel from channels
-	ch.tru.mu.Lock()
-	defer ch.tru.mu.Unlock()
-	delete(ch.tru.channels, ch.addr.String())
+	// Send error event to readers
+	if ch.reader != nil {
+		ch.reader(ch, nil, ErrChannelDestroyed)
+	}
+	if ch.tru.reader != nil {
+		ch.tru.reader(ch, nil, ErrChannelDestroyed)
+	}
 }
 
 // Close tru channel
diff --git a/send_queue.go b/send_queue.go
index 181eeca..369a650 100644
--- a/send_queue.go
+++ b/send_queue.go
@@ -116,6 +116,11 @@ func (s *sendQueue) retransmit(ch *Channel) {
 	s.Lock()
 	defer s.Unlock()
 
+	// Does not start timer of destroyed channel
+	if ch.stat.isDestroyed() {
+		return
+	}
+
 	s.retransmitTimer = time.AfterFunc( /* minRTT */ 100*time.Millisecond, func() {
 
 		s.RLock()
diff --git a/statistic.go b/statistic.go
index f8dd38b..7ab0713 100644
--- a/statistic.go
+++ b/statistic.go
@@ -68,6 +68,19 @@ func (s *statistic) destroy() {
 	s.destroyed = true
 }
 
+// setDestroyed mark channel as destroyed. It returns false if the channel was
+// marked before
+func (s *statistic) setDestroyed() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	if s.destroyed {
+		return false
+	}
+	s.destroyed = true
+	return true
+}
+
 // isDestroyed return true if channel is already destroyed
 func (s *statistic) isDestroyed() bool {
 	s.RLock()
@@ -180,6 +193,11 @@ func (s *statistic) checkActivity(inactive, keepalive func()) {
 	s.Lock()
 	defer s.Unlock()
 
+	// Does not start timer of destroyed channel
+	if s.destroyed {
+		return
+	}
+
 	s.checkActivityTimer = time.AfterFunc(checkInactiveAfter, func() {
 
 		lastActivity := s.getLastActivity()
-- 
2.43.0


From c5b34db10f4969014b56821076b42b09e59050d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 04/25] fix: ForEachChannel reads the channels map under its
 mutex

It read the map without the mutex and called f with nil for a channel which was
deleted meanwhile, so closing a tru object could panic.
---
 channel.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index 037e4c5..2825799 100644
--- a/channel.go
+++ b/channel.go
@@ -11,7 +11,6 @@ import (
 	"fmt"
 	"math/rand"
 	"net"
-	"reflect"
 	"time"
 )
 
@@ -110,10 +109,13 @@ func (tru *Tru) getChannel(addr string) (ch *Channel, ok bool) {
 // ForEachChannel get each channel and call function f
 func (tru *Tru) ForEachChannel(f func(ch *Channel)) {
 	tru.mu.RLock()
-	keys := reflect.ValueOf(tru.channels).MapKeys()
+	channels := make([]*Channel, 0, len(tru.channels))
+	for _, ch := range tru.channels {
+		channels = append(channels, ch)
+	}
 	tru.mu.RUnlock()
-	for i := range keys {
-		f(tru.channels[keys[i].String()])
+	for _, ch := range channels {
+		f(ch)
 	}
 }
 
-- 
2.43.0


From e1964386ad54baee783ef22f78265b7a355ef62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 05/25] fix: closing a tru object again does nothing

The second Close panicked with close of closed channel, and a channel created
while the object was closing was left open.
---
 channel.go |  5 +++++
 tru.go     | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index 2825799..ff92d1c 100644
--- a/channel.go
+++ b/channel.go
@@ -39,6 +39,11 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
 
+	if tru.closed {
+		err = ErrTruClosed
+		return
+	}
+
 	msg := fmt.Sprint("new channel ", addr.String())
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
diff --git a/tru.go b/tru.go
index d1cb2ad..cd660fe 100644
--- a/tru.go
+++ b/tru.go
@@ -39,6 +39,7 @@ type Tru struct {
 	privateKey *rsa.PrivateKey     // Common private key
 	maxDataLen int                 // Max data len in created packets, 0 - maximum UDP len
 	listenStop chan interface{}    // Tru listen wait stop channel
+	closed     bool                // Tru object is closed
 	hotkey     *hotkey.Hotkey      // Hotkey menu
 	mu         sync.RWMutex        // Channels map mutex
 }
@@ -185,9 +186,18 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	return
 }
 
-// Close tru listner and all connected channels
+// Close tru listner and all connected channels. Only the first call has effect
 func (tru *Tru) Close() {
 
+	// Mark tru object as closed, new channels can't be created from now on
+	tru.mu.Lock()
+	closed := tru.closed
+	tru.closed = true
+	tru.mu.Unlock()
+	if closed {
+		return
+	}
+
 	// Send error message to channel reader
 	if tru.reader != nil {
 		tru.reader(nil, nil, ErrTruClosed)
-- 
2.43.0


From 3e8271548381bc2c6a27f6b2bc0c86b8d8cba49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 06/25] fix: WriteTo returns id of the first packet of a large
 message

The received message carries the id of its first packet, but WriteTo returned
the id of the last but one packet.
---
 split.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/split.go b/split.go
index 12cba66..679d2a8 100644
--- a/split.go
+++ b/split.go
@@ -24,10 +24,13 @@ func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int)
 			}
 			break
 		}
-		rid, err = writeTo(data[:maxDataLen], statusSplit)
+		id, err = writeTo(data[:maxDataLen], statusSplit)
 		if err != nil {
 			return
 		}
+		if i == 0 {
+			rid = id
+		}
 		data = data[maxDataLen:]
 	}
 	return
-- 
2.43.0


From 381d13327b8f3ff11c305f9e4037c2a9a5209a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 07/25] fix: the largest packet fits in an UDP datagram

The IP header was not subtracted, so full packets of large messages could never
be sent and the stream stalled. A larger maximum given to New had the same
effect.
---
 packet.go | 4 ++--
 split.go  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/packet.go b/packet.go
index b779905..c7dcd36 100644
--- a/packet.go
+++ b/packet.go
@@ -31,8 +31,8 @@ const (
 )
 
 const (
-	maxUdpDataLength = 65535 - 8 // Max packet 65535 - 8 byte header
-	cryptAesLength   = 28        // AES crypt delete from max len packet data
+	maxUdpDataLength = 65535 - 20 - 8 // Max IP packet 65535 - 20 byte IP header - 8 byte UDP header
+	cryptAesLength   = 28             // AES crypt delete from max len packet data
 )
 
 const packetIDLimit = 0x100000          // Number of packets id (max number + 1)
diff --git a/split.go b/split.go
index 679d2a8..e036250 100644
--- a/split.go
+++ b/split.go
@@ -11,10 +11,10 @@ func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int)
 	var id int
 	var pac Packet
 	var maxDataLen = func() int {
-		if ch.maxDataLen != 0 {
-			return ch.maxDataLen
+		if l := pac.MaxDataLen(); ch.maxDataLen <= 0 || ch.maxDataLen > l {
+			return l
 		}
-		return pac.MaxDataLen()
+		return ch.maxDataLen
 	}()
 	for i := 0; ; i++ {
 		if len(data) <= maxDataLen {
-- 
2.43.0


From 30e909ce3289afe18e6743654e5035c306633e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 08/25] fix: concurrent WriteTo calls do not mix packets of
 their messages

Packets of large messages sent by several goroutines got interleaved numbers
and were combined to wrong messages.
---
 channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/channel.go b/channel.go
index ff92d1c..e81ab73 100644
--- a/channel.go
+++ b/channel.go
@@ -26,6 +26,7 @@ type Channel struct {
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
+	writeCh    chan struct{} // Keeps packets of one message together
 	*crypt                   // Crypt module
 }
 
@@ -49,6 +50,7 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	tru.statMsgs.add(msg)
 
 	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen}
+	ch.writeCh = make(chan struct{}, 1)
 	if len(serverMode) > 0 {
 		ch.serverMode = serverMode[0]
 	}
@@ -219,6 +221,9 @@ func (ch *Channel) ServerMode() bool {
 // PacketDeliveryFunc callback parameter is pac - pointer to send packet, and
 // err - timeout error or success if nil.
 func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err error) {
+	ch.writeCh <- struct{}{}
+	defer func() { <-ch.writeCh }()
+
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
-- 
2.43.0


From 0732f5b149497fdcb22947a9d750df6e4250d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 09/25] fix: do not send half of the packet numbers ahead of a
 missing packet

When a packet was missing for long the sender could get so far ahead that the
peer took new packets for already received, acknowledged and dropped them, and
later placed messages in wrong order. WriteTo returns an error now.
---
 channel.go | 26 ++++++++++++++++++++++++++
 split.go   | 17 ++++++++++-------
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/channel.go b/channel.go
index e81ab73..0299edf 100644
--- a/channel.go
+++ b/channel.go
@@ -33,6 +33,7 @@ type Channel struct {
 // const MaxUint16 = ^uint16(0)
 
 var ErrChannelDestroyed = errors.New("channel destroyed")
+var ErrSendWindow = errors.New("too many packets are not acknowledged")
 var ErrChannelAlreadyDestroyed = errors.New("channel already destroyed")
 
 // NewChannel create new tru channel by address
@@ -224,6 +225,11 @@ func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err er
 	ch.writeCh <- struct{}{}
 	defer func() { <-ch.writeCh }()
 
+	if !ch.sendWindow(len(data)) && !ch.stat.isDestroyed() {
+		err = ErrSendWindow
+		return
+	}
+
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
@@ -377,6 +383,26 @@ func (ch *Channel) writeToSender(pac *Packet) {
 	ch.tru.senderCh <- senderChData{ch, pac}
 }
 
+// sendWindow return true if a message of this length can be sent now. Packet
+// numbers of not acknowledged packets should be less than half of the number
+// range apart, otherwise peer can't tell new packets from already received.
+func (ch *Channel) sendWindow(dataLen int) bool {
+	// Number of packets in this message
+	num := 1
+	if l := ch.maxPacketDataLen(); dataLen > l {
+		num = (dataLen + l - 1) / l
+	}
+
+	// Add number of packets sent from the first not acknowledged
+	if first := ch.sendQueue.getFirst(); first != nil {
+		ch.tru.mu.RLock()
+		num += (int(ch.id) - first.ID() + packetIDLimit) % packetIDLimit
+		ch.tru.mu.RUnlock()
+	}
+
+	return num <= packetIDLimit/2
+}
+
 // newID create new channels packet id
 func (ch *Channel) newID() (id int) {
 	ch.tru.mu.Lock()
diff --git a/split.go b/split.go
index e036250..c17876f 100644
--- a/split.go
+++ b/split.go
@@ -9,13 +9,7 @@ package tru
 // splitPacket split lage packet
 func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int) (int, error)) (rid int, err error) {
 	var id int
-	var pac Packet
-	var maxDataLen = func() int {
-		if l := pac.MaxDataLen(); ch.maxDataLen <= 0 || ch.maxDataLen > l {
-			return l
-		}
-		return ch.maxDataLen
-	}()
+	var maxDataLen = ch.maxPacketDataLen()
 	for i := 0; ; i++ {
 		if len(data) <= maxDataLen {
 			id, err = writeTo(data, 0)
@@ -36,6 +30,15 @@ func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int)
 	return
 }
 
+// maxPacketDataLen return max data len in one packet
+func (ch *Channel) maxPacketDataLen() int {
+	var pac Packet
+	if l := pac.MaxDataLen(); ch.maxDataLen <= 0 || ch.maxDataLen > l {
+		return l
+	}
+	return ch.maxDataLen
+}
+
 // combinePacket combine packet receiver and data structure
 type combinePacket struct {
 	combine bool
-- 
2.43.0


From 4d010b88522082ca8afb2a51133b9b6e72acd9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 10/25] fix: statistic shows send queue of every channel

The statistic slice was reallocated by append while it was filled, so queue
length and retransmit attempts of all channels but the last ones were lost.
---
 statistic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statistic.go b/statistic.go
index 7ab0713..4a9f458 100644
--- a/statistic.go
+++ b/statistic.go
@@ -260,6 +260,8 @@ func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 	var i int
 	mu.Lock()
 	tru.mu.RLock()
+	// The slice should not be reallocated while it is filled by goroutines
+	stat = make(ChannelsStatistic, 0, len(tru.channels))
 	for _, ch := range tru.channels {
 		ch.stat.RLock()
 		stat = append(stat, ChannelStatistic{
-- 
2.43.0


From 8326e5aaebbe44df4609f835c2dd1f4e4d5803dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 11/25] fix: next key action may set the following next key
 action

It was cleared after the action was executed.
---
 hotkey/hotkey.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index a125522..685b255 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -190,9 +190,9 @@ func (h *Hotkey) SetStopAction(f func()) {
 func (h *Hotkey) run() {
 	for !h.stop {
 		ch := term.Getch()
-		if h.nextKeyAction != nil {
-			h.nextKeyAction(ch)
+		if f := h.nextKeyAction; f != nil {
 			h.nextKeyAction = nil
+			f(ch)
 		}
 		hd, ok := h.hotkeys[string(ch)]
 		if !ok {
-- 
2.43.0


From 4069a8007e534b48cb753e8603f517c3322f1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 12/25] fix: handshake tolerates repeated, late and crossing
 packets

A channel was created as soon as the first handshake packet arrived, with these
effects, all reproduced: a repeated or late connect packet destroyed the
established connection and a repeated answer created a second channel; a
repeated done packet blocked the listener or panicked; a failed Connect left a
channel behind at the client; when both peers connected at once both attempts
succeeded with different session keys; the connect callback was called with the
channels mutex held, before the session key was known, so writing from it
deadlocked or sent readable data; messages arrived before the reader given to
Connect was set were lost; data was accepted unencrypted before the key
exchange finished; a wrong handshake packet destroyed a connection.

Keep connections being established apart from channels: remember uuids of
connect packets, accept every step once, and create the channel with its
session key and reader when the connection is established.
---
 channel.go |  12 +-
 connect.go | 353 ++++++++++++++++++++++++++++++++++++-----------------
 tru.go     |  11 +-
 3 files changed, 245 insertions(+), 131 deletions(-)

diff --git a/channel.go b/channel.go
index 0299edf..ec9f7cf 100644
--- a/channel.go
+++ b/channel.go
@@ -36,8 +36,8 @@ var ErrChannelDestroyed = errors.New("channel destroyed")
 var ErrSendWindow = errors.New("too many packets are not acknowledged")
 var ErrChannelAlreadyDestroyed = errors.New("channel already destroyed")
 
-// NewChannel create new tru channel by address
-func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err error) {
+// newChannel create new tru channel by address with session key and reader
+func (tru *Tru) newChannel(addr net.Addr, key []byte, reader ReaderFunc, serverMode ...bool) (ch *Channel, err error) {
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
 
@@ -50,7 +50,7 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
 
-	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen}
+	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen, reader: reader}
 	ch.writeCh = make(chan struct{}, 1)
 	if len(serverMode) > 0 {
 		ch.serverMode = serverMode[0]
@@ -59,6 +59,7 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	if err != nil {
 		return
 	}
+	ch.setSesionKey(key)
 	ch.sendQueue.init(ch)
 	ch.recvQueue.init(ch)
 	ch.stat.init(
@@ -81,11 +82,6 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	}
 	tru.channels[addr.String()] = ch
 
-	// Channel connect to server callback
-	if ch.serverMode && ch.tru.connectcb != nil {
-		ch.tru.connectcb(ch, nil)
-	}
-
 	return
 }
 
diff --git a/connect.go b/connect.go
index 22dbd57..26387b7 100644
--- a/connect.go
+++ b/connect.go
@@ -11,6 +11,7 @@ import (
 	"crypto/rsa"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"net"
 	"sync"
 	"time"
@@ -24,15 +25,33 @@ const (
 	ServerConnectTimeout = waitConnectionTimeout
 )
 
+// acceptKeepTime is how long uuids of processed connect packets are remembered
+const acceptKeepTime = 2 * time.Minute
+
 type connect struct {
-	connects map[string]*connectData // Connections map
+	connects map[string]*connectData // Connections to remote peers by uuid
+	accepts  map[string]*acceptData  // Connections from remote peers by uuid
+	cleaned  time.Time               // Time when old accepts was deleted
 	m        sync.RWMutex            // Connections maps mutex
 }
 
+// connectData is a connection to remote peer which is not established yet
 type connectData struct {
-	uuid string
-	wch  chan *connectData
-	ch   *Channel
+	uuid   string
+	addr   string            // Remote peer address
+	reader ReaderFunc        // Channels reader
+	key    []byte            // Session key sent to remote peer
+	wch    chan *connectData // Wait connection established channel
+	ch     *Channel
+	err    error
+	done   bool // Connection was established or failed
+}
+
+// acceptData is a connection from remote peer
+type acceptData struct {
+	addr string    // Remote peer address
+	time time.Time // Time when connect packet was received
+	done bool      // Connection was established or can't be established anymore
 }
 
 type connectPacketData struct {
@@ -94,6 +113,12 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 		return
 	}
 
+	// Resolve UDP address
+	udpAddr, err := net.ResolveUDPAddr("udp", addr)
+	if err != nil {
+		return
+	}
+
 	// Create uuid and connect packet
 	uuid := uuid.New().String()
 	cp := connectPacketData{[]byte(uuid), pub}
@@ -106,220 +131,318 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 		return
 	}
 
-	// Create wait connection channel and save connection data to map
-	wch := tru.connect.add(uuid)
-	defer tru.connect.delete(uuid)
-	defer close(wch)
+	// Save connection data to map
+	cd := &connectData{uuid: uuid, addr: udpAddr.String(), wch: make(chan *connectData, 1)}
+	if len(reader) > 0 {
+		cd.reader = reader[0]
+	}
+	tru.connect.add(cd)
 
 	// Send connect message
-	_, err = tru.WriteTo(pac, addr)
+	_, err = tru.WriteTo(pac, udpAddr)
 	if err != nil {
+		tru.connect.delete(cd)
 		return
 	}
 
 	// Wait answer to connect message or timeout
-	ch, err = tru.connect.wait(wch)
-	if err != nil {
-		return
-	}
-
-	// Add reader to channel
-	if len(reader) > 0 {
-		ch.reader = reader[0]
-	}
-	return
+	return tru.connect.wait(cd)
 }
 
 // wait channel connected or timeout
-func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
+func (c *connect) wait(cd *connectData) (ch *Channel, err error) {
 	select {
-	case cd := <-wch:
-		ch = cd.ch
-		return
+	case <-cd.wch:
 	case <-time.After(waitConnectionTimeout):
-		err = errors.New("can't connect to peer during timeout")
-		return
+		if c.delete(cd) {
+			err = errors.New("can't connect to peer during timeout")
+			return
+		}
+		// The connection is just being established
+		<-cd.wch
 	}
+	return cd.ch, cd.err
 }
 
 // add add connection data to connections map
-func (c *connect) add(uuid string) (wch chan *connectData) {
+func (c *connect) add(cd *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	wch = make(chan *connectData)
-	c.connects[uuid] = &connectData{uuid, wch, nil}
-	return
+	c.connects[cd.uuid] = cd
 }
 
-// delete delete connection data from connections map
-func (c *connect) delete(uuid string) {
+// delete delete connection data from connections map when connection is not
+// established. Return false if the connection is just being established
+func (c *connect) delete(cd *connectData) bool {
 	c.m.Lock()
 	defer c.m.Unlock()
-	delete(c.connects, uuid)
+	if cd.done {
+		return false
+	}
+	cd.done = true
+	if _, ok := c.connects[cd.uuid]; ok && cd.key != nil {
+		c.closeAccepts(cd.addr)
+	}
+	delete(c.connects, cd.uuid)
+	return true
 }
 
-// get get connection data from connections map
-func (c *connect) get(uuid string) (cd *connectData, ok bool) {
-	c.m.RLock()
-	defer c.m.RUnlock()
+// answered process answer to connect packet: save session key which will be
+// sent to remote peer. Only the first answer to a connect packet is valid, and
+// only one connection to this peer can be continued
+func (c *connect) answered(uuid string, addr string, key []byte) bool {
+	c.m.Lock()
+	defer c.m.Unlock()
+	cd, ok := c.connects[uuid]
+	if !ok || cd.key != nil {
+		return false
+	}
+	for _, other := range c.connects {
+		if other.addr == addr && other.key != nil {
+			delete(c.connects, uuid)
+			return false
+		}
+	}
+	cd.addr = addr
+	cd.key = key
+	return true
+}
+
+// connected get and delete connection data from connections map when connection
+// to remote peer established
+func (c *connect) connected(uuid string, addr string) (cd *connectData, ok bool) {
+	c.m.Lock()
+	defer c.m.Unlock()
 	cd, ok = c.connects[uuid]
+	if !ok || cd.key == nil || cd.addr != addr {
+		return nil, false
+	}
+	cd.done = true
+	delete(c.connects, uuid)
+	c.closeAccepts(addr)
 	return
 }
 
+// accept start connection from remote peer. Return false if connect packet with
+// this uuid was already received
+func (c *connect) accept(uuid string, addr string) bool {
+	c.m.Lock()
+	defer c.m.Unlock()
+
+	// Delete old accepts
+	now := time.Now()
+	if now.Sub(c.cleaned) > ServerConnectTimeout {
+		for u, a := range c.accepts {
+			if now.Sub(a.time) > acceptKeepTime {
+				delete(c.accepts, u)
+			}
+		}
+		c.cleaned = now
+	}
+
+	if _, ok := c.accepts[uuid]; ok {
+		return false
+	}
+	c.accepts[uuid] = &acceptData{addr: addr, time: now}
+	return true
+}
+
+// accepted finish connection from remote peer. Return false if the connection
+// can't be established. When both peers connect to each other at the same time
+// the connection with lower uuid is established
+func (c *connect) accepted(uuid string, addr string) bool {
+	c.m.Lock()
+	defer c.m.Unlock()
+
+	a, ok := c.accepts[uuid]
+	if !ok || a.done || a.addr != addr || time.Since(a.time) > ServerConnectTimeout {
+		return false
+	}
+	for _, cd := range c.connects {
+		if cd.addr == addr && cd.key != nil && cd.uuid < uuid {
+			return false
+		}
+	}
+	for u, cd := range c.connects {
+		if cd.addr == addr {
+			delete(c.connects, u)
+		}
+	}
+	c.closeAccepts(addr)
+	return true
+}
+
+// closeAccepts close all started connections from remote peer, they can't be
+// established anymore. Unsafe (does not lock)
+func (c *connect) closeAccepts(addr string) {
+	for _, a := range c.accepts {
+		if a.addr == addr {
+			a.done = true
+		}
+	}
+}
+
 // serve process connect packets
 func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
-	switch pac.Status() {
 
-	// Got by server. Client send to server statusConnect packet with client
-	// public key
-	case statusConnect:
+	// Unmarshal received data
+	cp := connectPacketData{}
+	err = cp.UnmarshalBinary(pac.Data())
+	if err != nil {
+		return
+	}
+	uuid := string(cp.uuid)
 
-		// Unmarshal received data
-		cp := connectPacketData{}
-		err = cp.UnmarshalBinary(pac.Data())
-		if err != nil {
-			return
-		}
+	crypt, err := tru.newCrypt()
+	if err != nil {
+		return
+	}
 
-		// Create new tru channel
-		var ch *Channel
-		ch, err = tru.newChannel(addr, true)
+	// Create output packet with status and data
+	marshal := func(status int, data []byte) (out []byte, err error) {
+		cp.data = data
+		data, err = cp.MarshalBinary()
 		if err != nil {
 			return
 		}
+		return tru.newPacket().SetStatus(status).SetData(data).MarshalBinary()
+	}
+
+	switch pac.Status() {
+
+	// Got by server. Client send to server statusConnect packet with client
+	// public key
+	case statusConnect:
 
 		// Get public key
 		var pub []byte
-		pub, err = ch.publicKeyToBytes(&ch.privateKey.PublicKey)
+		pub, err = crypt.publicKeyToBytes(&crypt.privateKey.PublicKey)
 		if err != nil {
 			return
 		}
 
 		// Encrypt public key with received clients public key
 		var pubcli *rsa.PublicKey
-		pubcli, err = ch.bytesToPublicKey(cp.data)
+		pubcli, err = crypt.bytesToPublicKey(cp.data)
 		if err != nil {
 			return
 		}
-		cp.data, err = ch.encrypt(pubcli, pub)
+		var data []byte
+		data, err = crypt.encrypt(pubcli, pub)
 		if err != nil {
 			return
 		}
-		var data []byte
-		data, err = cp.MarshalBinary()
-
-		// Create packet and send it to tru channel
-		pac = tru.newPacket().SetStatus(statusConnectServerAnswer).SetData(data)
-		ch.writeToSender(pac)
-
-	// Got by client. Server answer to client with statusConnectServerAnswer
-	// packet with server public key
-	case statusConnectServerAnswer:
-
-		// Unmarshal received data
-		cp := connectPacketData{}
-		err = cp.UnmarshalBinary(pac.Data())
+		data, err = marshal(statusConnectServerAnswer, data)
 		if err != nil {
 			return
 		}
 
-		// Get connection data from connection map and create new tru channel
-		cd, ok := c.get(string(cp.uuid))
-		if !ok {
-			err = errors.New("wrong connect server answer packet")
-			return
-		}
-		cd.ch, err = tru.newChannel(addr)
-		if err != nil {
+		// Start connection, skip repeated connect packet
+		if !c.accept(uuid, addr.String()) {
 			return
 		}
 
+		// Send answer
+		_, err = tru.WriteTo(data, addr)
+
+	// Got by client. Server answer to client with statusConnectServerAnswer
+	// packet with server public key
+	case statusConnectServerAnswer:
+
 		// Got servers public key from packet
 		var data []byte
-		data, err = cd.ch.decrypt(cp.data)
+		data, err = crypt.decrypt(cp.data)
 		if err != nil {
 			return
 		}
 		var pub *rsa.PublicKey
-		pub, err = cd.ch.crypt.bytesToPublicKey(data)
+		pub, err = crypt.bytesToPublicKey(data)
 		if err != nil {
 			return
 		}
 
 		// Make session key
-		key := cd.ch.makeSesionKey()
-		cp.data, err = cd.ch.encrypt(pub, key)
+		key := crypt.makeSesionKey()
+		data, err = crypt.encrypt(pub, key)
 		if err != nil {
 			return
 		}
-
-		// Create output connect packet data
-		data, err = cp.MarshalBinary()
+		data, err = marshal(statusConnectClientAnswer, data)
 		if err != nil {
 			return
 		}
 
-		// Create packet and send it to tru channel
-		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
-		cd.ch.writeToSender(pac)
-		cd.ch.setSesionKey(key)
+		// Save session key, skip wrong or repeated answer
+		if !c.answered(uuid, addr.String(), key) {
+			err = errors.New("wrong connect server answer packet")
+			return
+		}
+
+		// The connection which will be established replaces existing channel
+		if ch, ok := tru.getChannel(addr.String()); ok {
+			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
+		}
+
+		// Send answer
+		_, err = tru.WriteTo(data, addr)
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
 	case statusConnectClientAnswer:
 
-		// Unmarshal received data
-		cp := connectPacketData{}
-		err = cp.UnmarshalBinary(pac.Data())
+		// Decrypt session key
+		var key []byte
+		key, err = crypt.decrypt(cp.data)
 		if err != nil {
 			return
 		}
-
-		// Get channel
-		ch, ok := tru.getChannel(addr.String())
-		if !ok {
-			err = errors.New("connected channel does not exists")
+		if len(key) == 0 {
+			err = errors.New("empty session key")
 			return
 		}
-
-		// Decrypt and set session key
-		var key []byte
-		key, err = ch.decrypt(cp.data)
+		var data []byte
+		data, err = marshal(statusConnectDone, nil)
 		if err != nil {
 			return
 		}
-		ch.setSesionKey(key)
 
-		// Create output connect packet data
-		var data []byte
-		cp.data = nil
-		data, err = cp.MarshalBinary()
+		// Finish connection, skip wrong or repeated answer
+		if !c.accepted(uuid, addr.String()) {
+			err = errors.New("wrong connect client answer packet")
+			return
+		}
+
+		// Established connection replaces existing channel because client
+		// reconnected
+		if ch, ok := tru.getChannel(addr.String()); ok {
+			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
+		}
+		var ch *Channel
+		ch, err = tru.newChannel(addr, key, nil, true)
 		if err != nil {
 			return
 		}
 
-		// Create packet and send it to tru channel
-		pac = tru.newPacket().SetStatus(statusConnectDone).SetData(data)
-		ch.writeToSender(pac)
+		// Send connect done packet
+		_, err = tru.WriteTo(data, addr)
+
+		// Channel connect to server callback
+		if tru.connectcb != nil {
+			tru.connectcb(ch, nil)
+		}
 
 	// Got by client. Server answer to client with statusConnectDone packet
 	case statusConnectDone:
 
-		// Unmarshal received data
-		cp := connectPacketData{}
-		err = cp.UnmarshalBinary(pac.Data())
-		if err != nil {
-			return
-		}
-
-		// Get connection data from connection map and get tru channel
-		cd, ok := c.get(string(cp.uuid))
+		// Get connection data, skip wrong or repeated packet
+		cd, ok := c.connected(uuid, addr.String())
 		if !ok {
 			err = errors.New("wrong connect done packet")
 			return
 		}
 
-		// Send connectData to client connect wait channel
+		// Create channel and send connectData to client connect wait channel
+		cd.ch, cd.err = tru.newChannel(addr, cd.key, cd.reader)
 		cd.wch <- cd
 
 	default:
diff --git a/tru.go b/tru.go
index cd660fe..b4c64d0 100644
--- a/tru.go
+++ b/tru.go
@@ -155,6 +155,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	tru.listenStop = make(chan interface{})
 	tru.channels = make(map[string]*Channel)
 	tru.connect.connects = make(map[string]*connectData)
+	tru.connect.accepts = make(map[string]*acceptData)
 	tru.conn, err = net.ListenPacket("udp", ":"+strconv.Itoa(port))
 	if err != nil {
 		return
@@ -340,15 +341,9 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 
 	// Connect packets
 	case statusConnect, statusConnectServerAnswer, statusConnectClientAnswer, statusConnectDone:
-		// When got connect packet from existing channel we destroy this channel
-		// first becaus client reconnected
-		if channelExists && pac.Status() == statusConnect {
-			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
-		}
-		// Process connection packets
 		err := tru.connect.serve(tru, addr, pac)
-		if channelExists && err != nil {
-			ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
+		if err != nil {
+			log.Debug.Printf("connect packet from %s skipped: %s\n", addr.String(), err)
 		}
 		return
 
-- 
2.43.0


From 6c4d034070ef1303eeb4590ea22798686d998143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 13/25] fix: net.Conn and net.Listener contract

Pending Accept was not unblocked by Close, the listener address was nil, a
closed listener left its tru object for next Listen and Dial calls, and a second
listener shared the tru object, port and callback of the first one. A connection
nobody reads from or accepts blocked all connections, and messages received
before Accept or the end of Dial were lost. Concurrent closes of a connection
panicked. Keep received data and not accepted connections in queues.
---
 tru_net.go | 212 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 152 insertions(+), 60 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index 9040972..095f4a7 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -19,9 +19,55 @@ import (
 // Trunet is receiver to create Tru net.Listener interface
 type Trunet struct {
 	*Tru
-	accept acceptChannel
+	accept *acceptQueue
+}
+
+// acceptQueue is queue of connected but not accepted yet connections
+type acceptQueue struct {
+	conns  []*Conn // Connections
+	closed bool    // Listener is closed
+	cond   *sync.Cond
+	sync.Mutex
+}
+
+// newAcceptQueue creates new accept queue
+func newAcceptQueue() *acceptQueue {
+	q := new(acceptQueue)
+	q.cond = sync.NewCond(q)
+	return q
+}
+
+// add adds connection to accept queue
+func (q *acceptQueue) add(c *Conn) {
+	q.Lock()
+	defer q.Unlock()
+	q.conns = append(q.conns, c)
+	q.cond.Signal()
+}
+
+// get waits and gets next connection from accept queue
+func (q *acceptQueue) get() (c *Conn, err error) {
+	q.Lock()
+	defer q.Unlock()
+	for len(q.conns) == 0 && !q.closed {
+		q.cond.Wait()
+	}
+	if q.closed {
+		err = ErrTruClosed
+		return
+	}
+	c = q.conns[0]
+	q.conns = q.conns[1:]
+	return
+}
+
+// close closes accept queue and unblocks waiting
+func (q *acceptQueue) close() {
+	q.Lock()
+	defer q.Unlock()
+	q.closed = true
+	q.cond.Broadcast()
 }
-type acceptChannel chan *Channel
 
 // Common tru object
 var truCommon struct {
@@ -31,30 +77,35 @@ var truCommon struct {
 
 // Listener is a tru generic network listener for stream-oriented protocols.
 func Listen(network, address string) (listener net.Listener, err error) {
-	listener, err = newTrunet(address, true)
+	trunet, err := newTrunet(address, true)
+	if err != nil {
+		return
+	}
+	listener = trunet
 	return
 }
 
 // Dial connects to the address on the tru network
 func Dial(network, address string) (conn net.Conn, err error) {
 
-	trunet, err := newTrunet(":0", true)
+	trunet, err := newTrunet(":0", false)
 	if err != nil {
 		return
 	}
 
-	ch, err := trunet.Connect(address)
+	c := newConn()
+	ch, err := trunet.Connect(address, c.reader)
 	if err != nil {
 		return
 	}
-	c := trunet.newConn(ch)
-	ch.setReader(c.reader)
+	c.set(ch)
 	conn = c
 	return
 }
 
-// newTrunet creates new Trunet object
-func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
+// newTrunet creates new Trunet object. Listener uses its own tru object, other
+// connections use the common one
+func newTrunet(address string, listener bool) (trunet *Trunet, err error) {
 	trunet = new(Trunet)
 
 	// Parse the address and get port value
@@ -69,20 +120,20 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 		return
 	}
 
-	// Make accept golan channel
-	trunet.accept = make(acceptChannel)
+	// Make accept queue
+	trunet.accept = newAcceptQueue()
 
 	// Create new tru object or use existing
 	truCommon.Lock()
 	defer truCommon.Unlock()
 	var truObj = truCommon.Tru
-	if !useTruCommon || truObj == nil {
+	if listener || truObj == nil {
 		truObj, err = New(port, trunet.connected, logLevel, Stat(showStats))
 		if err != nil {
 			err = fmt.Errorf("can't create new tru object, error: %s", err)
 			return
 		}
-		if useTruCommon {
+		if truCommon.Tru == nil {
 			truCommon.Tru = truObj
 		}
 	}
@@ -93,19 +144,11 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 
 // reader reads packets from connected peers
 func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
-	if conn.ch == nil {
-		return
-	}
 
 	// Check channel destroyed and close Conn (connection)
 	if err != nil {
 		if err == ErrChannelDestroyed {
-			err = conn.Close()
-			if err != nil {
-				// if connection already closed
-				return
-			}
-			// tru channel destroyed, connection closed
+			conn.read.close(false)
 			return
 		}
 		// Some other errors (I think it never happens)
@@ -113,15 +156,7 @@ func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
 		return
 	}
 
-	defer func() {
-		if err := recover(); err != nil {
-			// This error happens if users application don't read data messages
-			// sent to it, when connection closed.
-			log.Debugvv.Println("send on closed channel panic occurred:", err)
-		}
-	}()
-
-	conn.read.ch <- pac.Data()
+	conn.read.add(pac.Data())
 
 	return
 }
@@ -131,19 +166,32 @@ func (t Trunet) connected(ch *Channel, err error) {
 	if err != nil {
 		return
 	}
-	t.accept <- ch
+	c := newConn()
+	c.set(ch)
+	ch.setReader(c.reader)
+	t.accept.add(c)
 }
 
 // Create new Conn object
-func (t Trunet) newConn(ch *Channel) *Conn {
-	return &Conn{ch, t.LocalAddr(), ch.Addr(), connRead{ch: make(connReadChan)}}
+func newConn() *Conn {
+	c := new(Conn)
+	c.read.cond = sync.NewCond(&c.read)
+	return c
+}
+
+// set sets connected channel
+func (c *Conn) set(ch *Channel) {
+	c.ch = ch
+	c.localAddr = ch.tru.LocalAddr()
+	c.remoteAddr = ch.Addr()
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (t Trunet) Accept() (conn net.Conn, err error) {
-	ch := <-t.accept
-	c := t.newConn(ch)
-	ch.setReader(c.reader)
+	c, err := t.accept.get()
+	if err != nil {
+		return
+	}
 	conn = c
 	return
 }
@@ -151,12 +199,21 @@ func (t Trunet) Accept() (conn net.Conn, err error) {
 // Close closes the listener.
 // Any blocked Accept operations will be unblocked and return errors.
 func (t Trunet) Close() (err error) {
+	t.accept.close()
+
+	// The closed tru object can't be used by next connections
+	truCommon.Lock()
+	if truCommon.Tru == t.Tru {
+		truCommon.Tru = nil
+	}
+	truCommon.Unlock()
+
 	t.Tru.Close()
 	return
 }
 
 // Addr returns the listener's network address.
-func (t Trunet) Addr() (addr net.Addr) { return }
+func (t Trunet) Addr() (addr net.Addr) { return t.LocalAddr() }
 
 // Conn is a generic stream-oriented network connection.
 //
@@ -168,18 +225,54 @@ type Conn struct {
 	read       connRead
 }
 type connRead struct {
-	ch   connReadChan // Read channel receive data form tru channel reader
-	buf  []byte       // Read data which was not send in previuse call
-	cont bool         // Need send os.EOF
+	queue  [][]byte // Data received from tru channel reader
+	closed bool     // Connection is closed
+	buf    []byte   // Read data which was not send in previuse call
+	cont   bool     // Need send os.EOF
+	cond   *sync.Cond
+	sync.Mutex
+}
+
+// add adds received data to read queue
+func (r *connRead) add(data []byte) {
+	r.Lock()
+	defer r.Unlock()
+	if r.closed {
+		return
+	}
+	r.queue = append(r.queue, data)
+	r.cond.Signal()
+}
+
+// close closes read queue and unblocks waiting, received but not read data will
+// be dropped if drop is true. It return false if queue was already closed
+func (r *connRead) close(drop bool) (ok bool) {
+	r.Lock()
+	defer r.Unlock()
+	ok = !r.closed
+	r.closed = true
+	if drop {
+		r.queue, r.buf, r.cont = nil, nil, false
+	}
+	r.cond.Broadcast()
+	return
+}
+
+// isClosed returns true if read queue is closed
+func (r *connRead) isClosed() bool {
+	r.Lock()
+	defer r.Unlock()
+	return r.closed
 }
-type connReadChan chan connReadChanData
-type connReadChanData []byte
 
 // Read reads data from the connection.
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (c *Conn) Read(b []byte) (n int, err error) {
 
+	c.read.Lock()
+	defer c.read.Unlock()
+
 	// Return io.EOF
 	if len(c.read.buf) == 0 && c.read.cont {
 		c.read.cont = false
@@ -189,13 +282,16 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 
 	// Get data from reader
 	if len(c.read.buf) == 0 {
-		chanData, ok := <-c.read.ch
-		if !ok {
-			// Read channel closed
+		for len(c.read.queue) == 0 && !c.read.closed {
+			c.read.cond.Wait()
+		}
+		if len(c.read.queue) == 0 {
+			// Connection closed
 			err = ErrChannelDestroyed
 			return
 		}
-		c.read.buf = chanData
+		c.read.buf = c.read.queue[0]
+		c.read.queue = c.read.queue[1:]
 		c.read.cont = true
 	}
 
@@ -209,8 +305,8 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 // Write writes data to the connection.
 // Write can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetWriteDeadline.
-func (c Conn) Write(b []byte) (n int, err error) {
-	if c.ch == nil {
+func (c *Conn) Write(b []byte) (n int, err error) {
+	if c.read.isClosed() {
 		err = ErrChannelDestroyed
 		return
 	}
@@ -225,24 +321,20 @@ func (c Conn) Write(b []byte) (n int, err error) {
 // Any blocked Read or Write operations will be unblocked and return errors.
 func (c *Conn) Close() (err error) {
 
-	if c.ch == nil {
+	if !c.read.close(true) {
 		err = ErrChannelAlreadyDestroyed
 		return
 	}
-
-	ch := c.ch
-	c.ch = nil
-	ch.Close()
-	close(c.read.ch)
+	c.ch.Close()
 
 	return
 }
 
 // LocalAddr returns the local network address, if known.
-func (c Conn) LocalAddr() net.Addr { return c.localAddr }
+func (c *Conn) LocalAddr() net.Addr { return c.localAddr }
 
 // RemoteAddr returns the remote network address, if known.
-func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
+func (c *Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 
 // SetDeadline sets the read and write deadlines associated
 // with the connection. It is equivalent to calling both
@@ -265,16 +357,16 @@ func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 // the deadline after successful Read or Write calls.
 //
 // A zero value for t means I/O operations will not time out.
-func (c Conn) SetDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetDeadline(t time.Time) (err error) { return }
 
 // SetReadDeadline sets the deadline for future Read calls
 // and any currently-blocked Read call.
 // A zero value for t means Read will not time out.
-func (c Conn) SetReadDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetReadDeadline(t time.Time) (err error) { return }
 
 // SetWriteDeadline sets the deadline for future Write calls
 // and any currently-blocked Write call.
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means Write will not time out.
-func (c Conn) SetWriteDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetWriteDeadline(t time.Time) (err error) { return }
-- 
2.43.0


From 810acbeb12c717d4b8931e0727c4aab6550e8722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 14/25] fix: do not encrypt with a huge public key from a
 connect packet

One connect packet with a public key of 400000 bit kept the listener busy for
about a minute.
---
 crypt.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypt.go b/crypt.go
index fe7b8d2..f191eba 100644
--- a/crypt.go
+++ b/crypt.go
@@ -31,7 +31,8 @@ type crypt struct {
 	sessionKey                 // Current session key
 }
 
-const bitSize = 1024 // 896
+const bitSize = 1024    // 896
+const maxBitSize = 4096 // Max size of public key received from peer
 
 // newCrypt create and initialize trudp crypt module
 func (tru *Tru) newCrypt() (c *crypt, err error) {
@@ -221,6 +222,10 @@ func (c crypt) bytesToPublicKey(pub []byte) (key *rsa.PublicKey, err error) {
 	key, ok := ifc.(*rsa.PublicKey)
 	if !ok {
 		err = errors.New("data is not public key")
+		return
+	}
+	if key.N.BitLen() > maxBitSize {
+		err = errors.New("public key is too large")
 	}
 	return
 }
-- 
2.43.0


From 3d70f9cce1cc7029c807b945948e485972c294d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 15/25] fix: remember connect packets of an open connection

A copy of the connect packets of an open connection that arrived more than
two minutes later was taken as a new connection and replaced the open one.
---
 connect.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/connect.go b/connect.go
index 26387b7..68a6fa3 100644
--- a/connect.go
+++ b/connect.go
@@ -52,6 +52,7 @@ type acceptData struct {
 	addr string    // Remote peer address
 	time time.Time // Time when connect packet was received
 	done bool      // Connection was established or can't be established anymore
+	ch   *Channel  // Established channel
 }
 
 type connectPacketData struct {
@@ -233,7 +234,7 @@ func (c *connect) accept(uuid string, addr string) bool {
 	now := time.Now()
 	if now.Sub(c.cleaned) > ServerConnectTimeout {
 		for u, a := range c.accepts {
-			if now.Sub(a.time) > acceptKeepTime {
+			if now.Sub(a.time) > acceptKeepTime && (a.ch == nil || a.ch.Destroyed()) {
 				delete(c.accepts, u)
 			}
 		}
@@ -272,6 +273,16 @@ func (c *connect) accepted(uuid string, addr string) bool {
 	return true
 }
 
+// established save channel of the established connection, its uuid is remembered
+// while the channel exists
+func (c *connect) established(uuid string, ch *Channel) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	if a, ok := c.accepts[uuid]; ok {
+		a.ch = ch
+	}
+}
+
 // closeAccepts close all started connections from remote peer, they can't be
 // established anymore. Unsafe (does not lock)
 func (c *connect) closeAccepts(addr string) {
@@ -422,6 +433,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if err != nil {
 			return
 		}
+		c.established(uuid, ch)
 
 		// Send connect done packet
 		_, err = tru.WriteTo(data, addr)
-- 
2.43.0


From e15da6a26048a827aa0f474a8056f73bf4d4487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 16/25] fix: several goroutines may read from one stream
 connection

A Read which waited while another Read took a part of a message, or a whole
message but not its io.EOF, replaced the rest with the next message: bytes or
the end-of-file were lost, or it waited though data was there.
---
 tru_net.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index 095f4a7..2e22485 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -273,6 +273,13 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 	c.read.Lock()
 	defer c.read.Unlock()
 
+	// Wait for rest of the current message, its io.EOF or the next message
+	for len(c.read.buf) == 0 && !c.read.cont && len(c.read.queue) == 0 && !c.read.closed {
+		c.read.cond.Wait()
+	}
+	// Another waiting Read continues after this one
+	defer c.read.cond.Signal()
+
 	// Return io.EOF
 	if len(c.read.buf) == 0 && c.read.cont {
 		c.read.cont = false
@@ -282,9 +289,6 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 
 	// Get data from reader
 	if len(c.read.buf) == 0 {
-		for len(c.read.queue) == 0 && !c.read.closed {
-			c.read.cond.Wait()
-		}
 		if len(c.read.queue) == 0 {
 			// Connection closed
 			err = ErrChannelDestroyed
-- 
2.43.0


From a14a5fe37cce0a73432b60fc64d9bdce8e60ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 17/25] fix: hotkey menu may be changed while it is running

Adding an action while a key is pressed (the documented Run().Add(..) does)
was a concurrent read and write of a map, which ends the process.
---
 hotkey/hotkey.go | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index 685b255..491286c 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 
 	"github.com/teonet-go/tru/term"
 )
@@ -29,6 +30,7 @@ type Hotkey struct {
 	state         interface{}
 	stop          bool
 	stopactions   []func()
+	mu            sync.Mutex // The menu may be changed while it is running
 }
 
 type hotkeyData struct {
@@ -74,6 +76,8 @@ func (h *Hotkey) State() interface{} {
 
 // NextKeyAction set action which execute when key pressed nex time
 func (h *Hotkey) NextKeyAction(f func(ch []byte)) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.nextKeyAction = f
 }
 
@@ -100,6 +104,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 	}
 
 	hd := &hotkeyData{keysAr, description, action}
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	for _, l := range keysAr {
 		h.hotkeys[string(l.Code)] = hd
 	}
@@ -108,6 +114,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 
 // AddUnknown add action function which executes when unknown key pressed
 func (h *Hotkey) AddUnknown(action func(h *Hotkey, ch []byte)) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.unknownKey = action
 	return h
 }
@@ -119,6 +127,8 @@ func defUnknownKey(h *Hotkey, ch []byte) {
 
 // String return string contains hotkey menu help
 func (h *Hotkey) String() (str string) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	var ar []*hotkeyData
 	// find in hotkeyData slice
 	find := func(hd *hotkeyData) bool {
@@ -175,29 +185,42 @@ func (h *Hotkey) Run() *Hotkey {
 
 // Stop execute hotkey menu
 func (h *Hotkey) Stop() {
-	for _, f := range h.stopactions {
+	h.mu.Lock()
+	actions := h.stopactions
+	h.mu.Unlock()
+	for _, f := range actions {
 		f()
 	}
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.stop = true
 }
 
 // SetStopAction set callback function which will run when hotkey menu Stop
 func (h *Hotkey) SetStopAction(f func()) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.stopactions = append(h.stopactions, f)
 }
 
 // run execute hotkey menu, wait key pressed and execute it action
 func (h *Hotkey) run() {
-	for !h.stop {
+	for !h.stopped() {
 		ch := term.Getch()
-		if f := h.nextKeyAction; f != nil {
-			h.nextKeyAction = nil
+		h.mu.Lock()
+		f := h.nextKeyAction
+		h.nextKeyAction = nil
+		h.mu.Unlock()
+		if f != nil {
 			f(ch)
 		}
+		h.mu.Lock()
 		hd, ok := h.hotkeys[string(ch)]
+		unknown := h.unknownKey
+		h.mu.Unlock()
 		if !ok {
-			if h.unknownKey != nil {
-				h.unknownKey(h, ch)
+			if unknown != nil {
+				unknown(h, ch)
 			}
 			continue
 		}
@@ -206,5 +229,13 @@ func (h *Hotkey) run() {
 		}
 		hd.action(h)
 	}
+}
+
+// stopped returns true if hotkey menu was stopped, and resets it
+func (h *Hotkey) stopped() (stop bool) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	stop = h.stop
 	h.stop = false
+	return
 }
-- 
2.43.0


From ae3dac20268f33bf470f1a33bfe02ecf51a435cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 18/25] fix: hotkey menu has one goroutine, which Stop stops
 and Run runs again

Run of a running menu started a second goroutine, which a Stop did not stop: a
key still ran its action after it. Run right after Stop, in the same action,
could end both goroutines.
---
 hotkey/hotkey.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index 491286c..a820c36 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -28,7 +28,8 @@ type Hotkey struct {
 	unknownKey    func(h *Hotkey, ch []byte)
 	nextKeyAction func(ch []byte)
 	state         interface{}
-	stop          bool
+	stop          bool // The menu is stopped
+	running       bool // The menu goroutine is executing
 	stopactions   []func()
 	mu            sync.Mutex // The menu may be changed while it is running
 }
@@ -179,7 +180,13 @@ func (h *Hotkey) String() (str string) {
 
 // Run execute hotkey menu, wait key pressed and execute it action
 func (h *Hotkey) Run() *Hotkey {
-	go h.run()
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.stop = false
+	if !h.running {
+		h.running = true
+		go h.run()
+	}
 	return h
 }
 
@@ -207,6 +214,9 @@ func (h *Hotkey) SetStopAction(f func()) {
 func (h *Hotkey) run() {
 	for !h.stopped() {
 		ch := term.Getch()
+		if h.stopped() {
+			return
+		}
 		h.mu.Lock()
 		f := h.nextKeyAction
 		h.nextKeyAction = nil
@@ -231,11 +241,13 @@ func (h *Hotkey) run() {
 	}
 }
 
-// stopped returns true if hotkey menu was stopped, and resets it
-func (h *Hotkey) stopped() (stop bool) {
+// stopped returns true if hotkey menu was stopped and not run again, its
+// goroutine ends then
+func (h *Hotkey) stopped() bool {
 	h.mu.Lock()
 	defer h.mu.Unlock()
-	stop = h.stop
-	h.stop = false
-	return
+	if h.stop {
+		h.running = false
+	}
+	return h.stop
 }
-- 
2.43.0


From d2b72b6e9dc726465e7ad9dc25238b0e64056d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 19/25] fix: StatisticPrintStop stops the statistic also while
 a frame is printed

The timer of the next frame was started after the stop, and the second
StatisticPrint started a second timer which nothing stopped.
---
 statistic.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/statistic.go b/statistic.go
index 4a9f458..4f8e0d5 100644
--- a/statistic.go
+++ b/statistic.go
@@ -402,16 +402,31 @@ func (tru *Tru) printStatistic(prnt bool) {
 		return
 	}
 
-	// Print statistic every 500 ms
+	// Print statistic every 500 ms, the timer is own until statistic is stopped
+	const frameInterval = 500 * time.Millisecond
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
-	tru.statTimer = time.AfterFunc(500*time.Millisecond, func() {
+	if tru.statTimer != nil {
+		return // already running
+	}
+	var timer *time.Timer
+	var running = func() bool {
+		tru.mu.RLock()
+		defer tru.mu.RUnlock()
+		return tru.statTimer == timer
+	}
+	timer = time.AfterFunc(frameInterval, func() {
 		str := getStat()
-		if prnt {
+		if prnt && running() {
 			fmt.Print(str)
 		}
-		tru.printStatistic(prnt) // print next frame
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
+		if tru.statTimer == timer {
+			timer.Reset(frameInterval) // print next frame
+		}
 	})
+	tru.statTimer = timer
 }
 
 // StatisticPrintStop stop print statistic
-- 
2.43.0


From 62537d182e5a426840481c5530eb67a2524b7d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 20/25] fix: statistic and hotkey menu start when the tru
 object is ready

When New returned an error they went on with an object without connection,
the statistic printed 500 ms later crashed the process.
---
 tru.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tru.go b/tru.go
index b4c64d0..bdca694 100644
--- a/tru.go
+++ b/tru.go
@@ -84,6 +84,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// Parse parameters
 	var logFilter teolog.Filter
 	var logLevel string
+	var startHotkey, showStat bool
 	for _, p := range params {
 		switch v := p.(type) {
 
@@ -120,13 +121,13 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 		// Start hokey menu
 		case Hotkey:
 			if v {
-				tru.hotkey = tru.newHotkey()
+				startHotkey = true
 			}
 
 		// Show statistic
 		case Stat:
 			if v {
-				tru.StatisticPrint()
+				showStat = true
 			}
 
 		// Private key
@@ -179,6 +180,14 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	tru.senderCh = make(chan senderChData, chanLen)
 	go tru.senderProccess()
 
+	// Start hotkey menu and show statistic, the tru object is ready now
+	if startHotkey {
+		tru.hotkey = tru.newHotkey()
+	}
+	if showStat {
+		tru.StatisticPrint()
+	}
+
 	// start listen to incoming udp packets
 	go tru.listen()
 
-- 
2.43.0


From 752b9c48cdf5fab4919322e622c78e31421cf0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 21/25] fix: statistic log message is read under the lock

---
 statistic_log.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/statistic_log.go b/statistic_log.go
index b801668..a6edce5 100644
--- a/statistic_log.go
+++ b/statistic_log.go
@@ -44,7 +44,10 @@ func (s *statisticLog) len() int {
 
 // get and returt statistic log slice message by index
 func (s *statisticLog) get(i int) (msg string) {
-	if i < 0 || i >= s.len() {
+	s.RLock()
+	defer s.RUnlock()
+
+	if i < 0 || i >= len(s.msgs) {
 		return
 	}
 	return s.msgs[i]
-- 
2.43.0


From 74e41cbe49099a27b99d1db653caa2ff0b133714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 22/25] fix: hotkey menu knows the Enter key, which terminals
 deliver as line feed

---
 hotkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hotkey.go b/hotkey.go
index 3270824..b41c606 100644
--- a/hotkey.go
+++ b/hotkey.go
@@ -56,7 +56,7 @@ func (tru *Tru) newHotkey() *hotkey.Hotkey {
 		}).
 
 		// When Enter key pressed than print empty line
-		Add([]byte{13}, "", func(h *hotkey.Hotkey) {
+		Add([]string{"\r", "\n"}, "", func(h *hotkey.Hotkey) {
 			fmt.Println()
 		}).
 
-- 
2.43.0


From e5901ff33018d0b15b66b9c6ed95fcd5c90eb388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 23/25] fix: log level is not set back by the key after the
 hotkey menu's filter input

---
 hotkey.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hotkey.go b/hotkey.go
index b41c606..4800dc7 100644
--- a/hotkey.go
+++ b/hotkey.go
@@ -30,6 +30,7 @@ func (s *hotkeyMenuState) stopLog(h *hotkey.Hotkey) teolog.LogLevel {
 func (s *hotkeyMenuState) restoreLog(h *hotkey.Hotkey) teolog.LogLevel {
 	state := h.State().(*hotkeyMenuState)
 	log.SetLevel(state.logLevel)
+	h.NextKeyAction(nil)
 	return state.logLevel
 }
 
-- 
2.43.0


From aca8b8ee80605ea5303ad87f8c62be56bc1e99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 24/25] fix: teolog level and filter may be changed while
 messages are logged

---
 teolog/teolog.go | 52 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/teolog/teolog.go b/teolog/teolog.go
index bddfe5a..98270d2 100644
--- a/teolog/teolog.go
+++ b/teolog/teolog.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"os"
 	"strings"
+	"sync"
 )
 
 // Log levels constant
@@ -42,6 +43,8 @@ type Teolog struct {
 	level    LogLevel
 	filter   Filter
 	writer   writer
+	levelMu  sync.RWMutex // protects level and outputs of the loggers
+	filterMu sync.RWMutex // protects filter, it is locked while a logger prints
 }
 
 type LogLevel int
@@ -95,6 +98,13 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 	case string:
 		level = l.levelFromStr(v)
 	}
+	l.levelMu.Lock()
+	defer l.levelMu.Unlock()
+	l.setLevel(level)
+}
+
+// setLevel set log level, the caller should hold l.levelMu
+func (l *Teolog) setLevel(level LogLevel) {
 	l.level = level
 	for i, tl := range l.levels {
 		if LogLevel(i) < level {
@@ -107,50 +117,67 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 
 // Level return current log level
 func (l *Teolog) Level() LogLevel {
+	l.levelMu.RLock()
+	defer l.levelMu.RUnlock()
 	return l.level
 }
 
 // String return current log level in string
 func (l *Teolog) String() string {
-	return l.levelToStr(l.level)
+	return l.levelToStr(l.Level())
 }
 
 // SwitchLevel switch level to nexet and return level number
 func (l *Teolog) SwitchLevel() LogLevel {
-	l.level++
-	if l.level >= numLevels {
-		l.level = 0
+	l.levelMu.Lock()
+	defer l.levelMu.Unlock()
+	level := l.level + 1
+	if level >= numLevels {
+		level = 0
 	}
-	l.SetLevel(l.level)
-	return l.level
+	l.setLevel(level)
+	return level
 }
 
 // SetFilter set log filter
 func (l *Teolog) SetFilter(f interface{}) {
 
+	var filter Filter
 	switch v := f.(type) {
 	case Filter:
-		l.filter = v
+		filter = v
 	case string:
-		l.filter = Logfilter(v)
+		filter = Logfilter(v)
 	default:
 		panic("wrong filter tipe")
 	}
 
+	l.filterMu.Lock()
+	defer l.filterMu.Unlock()
+	l.filter = filter
 }
 
 // ClearFilter clear log filter
 func (l *Teolog) ClearFilter() {
+	l.filterMu.Lock()
+	defer l.filterMu.Unlock()
 	l.filter = []string{}
 }
 
+// getFilter return current filter slice, which is never changed in place
+func (l *Teolog) getFilter() Filter {
+	l.filterMu.RLock()
+	defer l.filterMu.RUnlock()
+	return l.filter
+}
+
 // Filter return log filter
 func (l *Teolog) Filter() (str string) {
-	for i := range l.filter {
+	for i, f := range l.getFilter() {
 		if i > 0 {
 			str += " || "
 		}
-		str += l.filter[i]
+		str += f
 	}
 	return
 }
@@ -249,13 +276,14 @@ type writer struct {
 // Write returns a non-nil error when n != len(b).
 func (w writer) Write(p []byte) (n int, err error) {
 	var valid bool
-	for _, f := range w.l.filter {
+	filter := w.l.getFilter()
+	for _, f := range filter {
 		if strings.Contains(string(p), f) {
 			valid = true
 			break
 		}
 	}
-	if len(w.l.filter) > 0 && !valid {
+	if len(filter) > 0 && !valid {
 		return
 	}
 	return os.Stdout.Write(p)
-- 
2.43.0


From 3737dc4b9f3470a057bc26db77c9e1596d262396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 25/25] fix: settings may be changed while the endpoint is used

---
 tru.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tru.go b/tru.go
index bdca694..d6862b8 100644
--- a/tru.go
+++ b/tru.go
@@ -225,11 +225,25 @@ func (tru *Tru) Close() {
 
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
+
 	tru.punchcb = punchcb
 }
 
+// getPunchCb get punch callback
+func (tru *Tru) getPunchCb() PunchFunc {
+	tru.mu.RLock()
+	defer tru.mu.RUnlock()
+
+	return tru.punchcb
+}
+
 // SetSendDelay set default (start) clients send delay
 func (tru *Tru) SetSendDelay(delay int) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
+
 	tru.sendDelay = delay
 }
 
@@ -238,6 +252,9 @@ func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
 	if maxDataLen < l {
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
+
 		tru.maxDataLen = maxDataLen
 	}
 }
@@ -359,8 +376,8 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 	// Punch packets: hi level software (f.e. teonet package) use punch packets
 	// to make p2p connection between tru clients
 	case statusPunch:
-		if tru.punchcb != nil {
-			tru.punchcb(addr, pac.Data())
+		if punchcb := tru.getPunchCb(); punchcb != nil {
+			punchcb(addr, pac.Data())
 		}
 		return
 
-- 
2.43.0

