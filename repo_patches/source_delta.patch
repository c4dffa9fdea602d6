From e75656129b0ff9d2fca71bbe6e9d5de46f4e4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 01/47] fix: Deque.Get no longer loses a wake-up or an item
 delivered at the deadline

Put signalled an unbuffered channel without blocking, so an item put between
Get's emptiness check and its select woke nobody and Get reported a timeout
although the item was there.
---
 utils/queue.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/queue.go b/utils/queue.go
index e063378..cd38f4d 100644
--- a/utils/queue.go
+++ b/utils/queue.go
@@ -14,7 +14,7 @@ type Deque struct {
 }
 
 func NewDeque() *Deque {
-	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{})}
+	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{}, 1)}
 }
 
 func (s *Deque) Put(item interface{}) {
@@ -38,13 +38,13 @@ func (s *Deque) Get(timeout int) (interface{}, error) {
 		}
 		remaining := endTime.Sub(time.Now())
 		s.Unlock()
-		if remaining < 0 {
+		if remaining <= 0 {
 			return nil, errors.New("time out in Get")
 		}
 		select {
 		case <-s.notEmptyNotify:
 		case <-time.After(remaining):
-			return nil, errors.New("time out in Get")
+			// look at the container once more before giving up
 		}
 		s.Lock()
 	}
-- 
2.43.0


From 0b58e2613e79f9dd766a7f68d6defd57a9d52f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 02/47] fix: Event.Fire calls the callbacks without holding the
 event's mutex

A callback that used the same event (Len, AddCallback, Fire) deadlocked.
---
 common/events.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/events.go b/common/events.go
index fee60da..7e3ece3 100644
--- a/common/events.go
+++ b/common/events.go
@@ -35,9 +35,10 @@ func (e *Event) RemoveCallback(callback func(data map[string]interface{})) {
 // Fire raises the event and calls all callbacks.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
+	callbacks := append([]func(data map[string]interface{}){}, e.callbacks...)
+	e.mutex.Unlock()
 
-	for _, callback := range e.callbacks {
+	for _, callback := range callbacks {
 		callback(data)
 	}
 }
-- 
2.43.0


From 624aa6d2ad0a2cf6fb1b16965f94b64f5de18150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 03/47] fix: Dial and DialTimeout close the connection when the
 codec cannot be created

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 76ca8ba..bec83c2 100644
--- a/api.go
+++ b/api.go
@@ -48,6 +48,7 @@ func Dial(network, address string, protocol Protocol, sendChanSize int) (*Sessio
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
@@ -60,6 +61,7 @@ func DialTimeout(network, address string, timeout time.Duration, protocol Protoc
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
-- 
2.43.0


From ad493ad05de1935383501170b7c4db2d03d45e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 04/47] fix: session close callbacks run without holding
 closeMutex

Channel.Put takes the channel lock and then closeMutex; a closing session took
closeMutex and then, in the channel's callback, the channel lock: a deadlock
when both happen at once.
---
 session.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/session.go b/session.go
index a010324..e0ee1d2 100644
--- a/session.go
+++ b/session.go
@@ -211,10 +211,17 @@ func (session *Session) RemoveCloseCallback(handler, key interface{}) {
 }
 
 func (session *Session) invokeCloseCallbacks() {
+	// call the callbacks without the lock: they may use the session, and a
+	// channel's callback takes the channel's lock, which Channel.Put holds
+	// while it adds its callback here
 	session.closeMutex.Lock()
-	defer session.closeMutex.Unlock()
-
+	var callbacks []func()
 	for callback := session.firstCloseCallback; callback != nil; callback = callback.Next {
-		callback.Func()
+		callbacks = append(callbacks, callback.Func)
+	}
+	session.closeMutex.Unlock()
+
+	for _, callback := range callbacks {
+		callback()
 	}
 }
-- 
2.43.0


From 6495a35cf7d73d2876cb4a49e93a9de03337b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 05/47] fix: Channel.Fetch and FetchAndRemove call the callback
 without the channel lock

A callback that used the channel (Put, Remove, Len behind a waiting writer)
deadlocked.
---
 channel.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/channel.go b/channel.go
index 225436c..c09d7aa 100644
--- a/channel.go
+++ b/channel.go
@@ -28,8 +28,12 @@ func (channel *Channel) Len() int {
 
 func (channel *Channel) Fetch(callback func(*Session)) {
 	channel.mutex.RLock()
-	defer channel.mutex.RUnlock()
+	sessions := make([]*Session, 0, len(channel.sessions))
 	for _, session := range channel.sessions {
+		sessions = append(sessions, session)
+	}
+	channel.mutex.RUnlock()
+	for _, session := range sessions {
 		callback(session)
 	}
 }
@@ -70,10 +74,14 @@ func (channel *Channel) Remove(key KEY) bool {
 
 func (channel *Channel) FetchAndRemove(callback func(*Session)) {
 	channel.mutex.Lock()
-	defer channel.mutex.Unlock()
+	sessions := make([]*Session, 0, len(channel.sessions))
 	for key, session := range channel.sessions {
 		session.RemoveCloseCallback(channel, key)
 		delete(channel.sessions, key)
+		sessions = append(sessions, session)
+	}
+	channel.mutex.Unlock()
+	for _, session := range sessions {
 		callback(session)
 	}
 }
-- 
2.43.0


From 6992f74a13f89995d4cde097456e024a41ff946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 06/47] fix: the current session of an HSMS connection is
 synchronised and nil-checked

The receive loop clears the session while timers, the link test and senders
read it: a data race, and a nil dereference in the control message senders,
which used the field without the check Send makes.
---
 hsms/connection.go | 35 ++++++++++++++++++++++-------------
 hsms/protocol.go   |  4 ++--
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index a635b6e..be192c5 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -2,6 +2,7 @@ package hsms
 
 import (
 	"fmt"
+	"sync"
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -25,7 +26,9 @@ type HsmsConnection struct {
 	remotePort    int
 	sessionID     int
 	hp            *HsmsProtocol
-	connection    *link.Session
+
+	connectionMu sync.RWMutex
+	connection   *link.Session
 }
 
 func NewHsmsConnection(active bool, address string, port int, sessionID int, delegate *HsmsProtocol) *HsmsConnection {
@@ -40,31 +43,37 @@ func NewHsmsConnection(active bool, address string, port int, sessionID int, del
 }
 
 func (c *HsmsConnection) Session() *link.Session {
+	c.connectionMu.RLock()
+	defer c.connectionMu.RUnlock()
 	return c.connection
 }
 
 func (c *HsmsConnection) SetSession(session *link.Session) {
+	c.connectionMu.Lock()
+	defer c.connectionMu.Unlock()
 	c.connection = session
 }
 
 func (c *HsmsConnection) Send(msg interface{}) error {
-	if c.connection == nil {
+	session := c.Session()
+	if session == nil {
 		return ErrNotConnected
 	}
-	return c.connection.Send(msg)
+	return session.Send(msg)
 }
 
 func (c *HsmsConnection) Close() error {
-	if c.connection == nil {
+	session := c.Session()
+	if session == nil {
 		return nil
 	}
-	return c.connection.Close()
+	return session.Close()
 }
 
 func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte) {
 	rejectReq := ast.NewHSMSMessageRejectReqFromMsg(packet, reasonCode)
 	c.hp.logControlMessage("TX", rejectReq)
-	if err := c.connection.Send(rejectReq.ToBytes()); err != nil {
+	if err := c.Send(rejectReq.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject rsp failed", "error", err)
 	}
 }
@@ -76,7 +85,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.connection.Send(message.ToBytes()); err != nil {
+	if err := c.Send(message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
@@ -89,7 +98,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageDeselectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.rsp failed", "error", err)
 	}
 }
@@ -97,7 +106,7 @@ func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status Control
 func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageSelectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.rsp failed", "error", err)
 	}
 }
@@ -105,7 +114,7 @@ func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlSt
 func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 	response := ast.NewHSMSMessageLinktestRsp(message)
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.rsp failed", "error", err)
 	}
 }
@@ -113,7 +122,7 @@ func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason) {
 	reject := ast.NewHSMSMessageRejectReqFromMsg(message, byte(reason))
 	c.hp.logControlMessage("TX", reject)
-	if err := c.connection.Send(reject.ToBytes()); err != nil {
+	if err := c.Send(reject.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject.req failed", "error", err)
 	}
 }
@@ -125,7 +134,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
@@ -158,7 +167,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8520fa6..99671e5 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -779,9 +779,9 @@ func (p *HsmsProtocol) handleDataMessage(message *ast.DataMessage) {
 
 func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.Session) {
 	if !p.active {
-		if p.hsmsConnection.Session() == nil {
+		if current := p.hsmsConnection.Session(); current == nil {
 			p.hsmsConnection.SetSession(connection)
-		} else if !p.hsmsConnection.Session().IsClosed() {
+		} else if !current.IsClosed() {
 			_ = connection.Close()
 			return
 		} else {
-- 
2.43.0


From 4925a363dd50c35f6132dfcb3774d847af073d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 07/47] fix: a primary message is never taken for the reply to
 an open transaction

The peer numbers its own transactions, so its primary can carry the system
bytes of a request we are waiting on; it was handed to that waiter.
---
 hsms/protocol.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 99671e5..9708d7a 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -882,10 +882,14 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			continue
 		}
 
-		systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(dataMessage)
-			continue
+		// only a secondary (even function) message can be the reply to an open
+		// transaction; the peer chooses the system bytes of its primaries
+		if dataMessage.FunctionCode()%2 == 0 {
+			systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
+			if queue, ok := p.fetchQueue(systemID); ok {
+				queue.Put(dataMessage)
+				continue
+			}
 		}
 
 		p.handleDataMessage(dataMessage)
-- 
2.43.0


From 34c34c6bf9ea96781c4675a6e8a2846dd34f2382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 08/47] fix: a stale T7 timer no longer closes a selected
 connection

The callback cleared the connected flag, stopped the link test and closed the
session before and regardless of whether the state machine accepted the
timeout.
---
 hsms/protocol.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 9708d7a..04f3fe6 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -212,12 +212,15 @@ func (p *HsmsProtocol) startT7Timer() {
 		p.t7Timer.Stop()
 	}
 	p.t7Timer = time.AfterFunc(duration, func() {
+		// a timer that fires while the state is changing is refused by the
+		// state machine and must leave the connection alone
+		if err := p.connectionState.TimeoutT7(); err != nil {
+			p.logger.Info("stale T7 timer ignored", "error", err)
+			return
+		}
 		p.logger.Warn("T7 timeout", "duration", duration)
 		p.connected.Store(false)
 		p.stopLinktestTimer()
-		if err := p.connectionState.TimeoutT7(); err != nil {
-			p.logger.Error("timeoutT7 transition error", "error", err)
-		}
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session after T7 timeout", "error", err)
 		}
-- 
2.43.0


From f0aa98f67eac625ee1e200699de4d80fba8acdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 09/47] fix: S9F9 is only sent while the connection is selected

---
 hsms/protocol_s9_helpers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hsms/protocol_s9_helpers.go b/hsms/protocol_s9_helpers.go
index 1c3505c..1a6fc58 100644
--- a/hsms/protocol_s9_helpers.go
+++ b/hsms/protocol_s9_helpers.go
@@ -109,6 +109,12 @@ func (p *HsmsProtocol) sendS9F11DataTooLong(systemBytes []byte) {
 
 // sendS9F9TransactionTimeout sends S9F9 for T3 transaction timeout
 func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage) {
+	// The connection may have been deselected or closed while waiting.
+	if err := p.ensureReady(true); err != nil {
+		p.logger.Info("T3 timeout, connection not selected, S9F9 not sent", "error", err)
+		return
+	}
+
 	// S9F9: Transaction Timer Timeout
 	// W: <B [10] SHeader>
 	// The stored header of the message associated with the transaction timer timeout.
-- 
2.43.0


From b85ad8a70c0edc68ef803fb310784c64eecbbf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 10/47] fix: the connection state returns to NOT-CONNECTED
 whenever the receive loop ends

Disabling an active connection ends the loop right after deselect.rsp, without
a receive error; the state machine stayed in NOT-SELECTED and the next Enable
could not connect (and its connection was closed by the stale T7 timer).
---
 hsms/protocol.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 04f3fe6..da61dca 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -802,6 +802,14 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		p.connDone = nil
 		p.connDoneMu.Unlock()
 
+		// the loop also ends without a receive error, when the protocol is
+		// disabled: the state must not stay behind for the next connection
+		if p.connectionState.CurrentState() != StateNotConnected {
+			if err := p.connectionState.Disconnect(); err != nil {
+				p.logger.Error("change state to NOT-CONNECTED failed", "error", err)
+			}
+		}
+
 		if connection != nil {
 			_ = connection.Close()
 		}
-- 
2.43.0


From f77af4f721b449a8e4fa09a7066791dbe71409f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 11/47] fix: the session id adopted from a select.req is stored
 atomically

The receive loop changed it while senders and the link test read it.
---
 hsms/connection.go          |  4 ++--
 hsms/protocol.go            | 18 +++++++++---------
 hsms/protocol_s9_helpers.go |  8 ++++----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index be192c5..b5425c4 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -132,7 +132,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 	queue := c.hp.createQueue(systemID)
 	defer c.hp.removeQueue(systemID)
 
-	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
+	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID.Load()), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
 	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
@@ -165,7 +165,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 	queue := c.hp.createQueue(systemID)
 	defer c.hp.removeQueue(systemID)
 
-	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
+	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID.Load()), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
 	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
diff --git a/hsms/protocol.go b/hsms/protocol.go
index da61dca..3a76aa5 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -67,7 +67,7 @@ type HsmsProtocol struct {
 	remoteAddress string
 	remotePort    int
 	active        bool
-	sessionID     int
+	sessionID     *atomic.Int64
 	name          string
 
 	enabled   *atomic.Bool
@@ -124,7 +124,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		remoteAddress:        address,
 		remotePort:           port,
 		active:               active,
-		sessionID:            sessionID,
+		sessionID:            atomic.NewInt64(int64(sessionID)),
 		name:                 name,
 		enabled:              atomic.NewBool(false),
 		connected:            atomic.NewBool(false),
@@ -348,7 +348,7 @@ func (p *HsmsProtocol) Disable() {
 				}
 			}
 			systemID := p.getNextSystemCounter()
-			sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID), p.encodeSystemID(systemID))
+			sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID.Load()), p.encodeSystemID(systemID))
 			if err := p.hsmsConnection.Send(sep.ToBytes()); err != nil {
 				p.logger.Error("send separate.req failed", "error", err)
 			}
@@ -500,7 +500,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 		receivedSession := ctrl.SessionID()
-		expectedSession := uint16(p.sessionID)
+		expectedSession := uint16(p.sessionID.Load())
 		if receivedSession != expectedSession {
 			// 0xFFFF0000 是 HSMS 标准规定的“系统消息会话 ID”，只用于 Select/Linktest 等控制消息。
 			acceptMismatch := false
@@ -515,7 +515,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 					"select.req session mismatch: adopting remote session",
 					"remote", receivedSession, "expected", expectedSession,
 				)
-				p.sessionID = int(receivedSession)
+				p.sessionID.Store(int64(receivedSession))
 				p.hsmsConnection.sessionID = int(receivedSession)
 				acceptMismatch = true
 			}
@@ -623,7 +623,7 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 		return
 	}
 
-	response = response.SetSessionIDAndSystemBytes(p.sessionID, msg.SystemBytes())
+	response = response.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), msg.SystemBytes())
 	if response.WaitBit() == "optional" {
 		response = response.SetWaitBit(false)
 	}
@@ -927,7 +927,7 @@ func (p *HsmsProtocol) SendDataMessage(message *ast.DataMessage) error {
 	}
 
 	systemID := p.getNextSystemCounter()
-	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, p.encodeSystemID(systemID))
+	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), p.encodeSystemID(systemID))
 	if outgoing.WaitBit() == "optional" {
 		outgoing = outgoing.SetWaitBit(false)
 	}
@@ -950,7 +950,7 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	queue := p.createQueue(systemID)
 	defer p.removeQueue(systemID)
 
-	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, p.encodeSystemID(systemID))
+	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), p.encodeSystemID(systemID))
 	if outgoing.WaitBit() == "optional" {
 		outgoing = outgoing.SetWaitBit(true)
 	}
@@ -991,7 +991,7 @@ func (p *HsmsProtocol) SendResponse(message *ast.DataMessage, systemBytes []byte
 		return err
 	}
 
-	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, systemBytes)
+	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
 	if outgoing.WaitBit() == "optional" {
 		outgoing = outgoing.SetWaitBit(false)
 	}
diff --git a/hsms/protocol_s9_helpers.go b/hsms/protocol_s9_helpers.go
index 1a6fc58..cfe8097 100644
--- a/hsms/protocol_s9_helpers.go
+++ b/hsms/protocol_s9_helpers.go
@@ -35,7 +35,7 @@ func (p *HsmsProtocol) sendS9ErrorForUnrecognized(message *ast.DataMessage) {
 
 	if s9Message != nil {
 		// Set session ID and ensure no wait bit
-		s9Message = s9Message.SetSessionIDAndSystemBytes(p.sessionID, systemBytes)
+		s9Message = s9Message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
 		s9Message = s9Message.SetWaitBit(false)
 
 		p.logDataMessage("OUT", s9Message)
@@ -82,7 +82,7 @@ func (p *HsmsProtocol) isKnownStream(stream int) bool {
 // sendS9F7IllegalData sends S9F7 for illegal data format
 func (p *HsmsProtocol) sendS9F7IllegalData(systemBytes []byte) {
 	s9Message := BuildS9F7(systemBytes)
-	s9Message = s9Message.SetSessionIDAndSystemBytes(p.sessionID, systemBytes)
+	s9Message = s9Message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
 	s9Message = s9Message.SetWaitBit(false)
 
 	p.logger.Info("illegal data format, sending S9F7")
@@ -96,7 +96,7 @@ func (p *HsmsProtocol) sendS9F7IllegalData(systemBytes []byte) {
 // sendS9F11DataTooLong sends S9F11 for oversized messages
 func (p *HsmsProtocol) sendS9F11DataTooLong(systemBytes []byte) {
 	s9Message := BuildS9F11(systemBytes)
-	s9Message = s9Message.SetSessionIDAndSystemBytes(p.sessionID, systemBytes)
+	s9Message = s9Message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
 	s9Message = s9Message.SetWaitBit(false)
 
 	p.logger.Info("message too long, sending S9F11")
@@ -155,7 +155,7 @@ func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage)
 		systemID := p.getNextSystemCounter()
 		nextSys := p.encodeSystemID(systemID)
 
-		s9Message = s9Message.SetSessionIDAndSystemBytes(p.sessionID, nextSys)
+		s9Message = s9Message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), nextSys)
 		s9Message = s9Message.SetWaitBit(false)
 
 		p.logger.Info("T3 timeout, sending S9F9", "stream", originalMsg.StreamCode(), "function", originalMsg.FunctionCode())
-- 
2.43.0


From e587a2ad3fad484a67160bd4afb44feec3af1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 12/47] fix: an item without a value inside a list no longer
 makes the list unusable

NewListNode panicked with two or more empty items (duplicated variable name "")
and a list with one of them was encoded as zero bytes, so the answer to a request
naming unknown variables crashed the process or was never transmitted. Such an item
is now no variable and is transferred as a zero-length list.
---
 lib-secs2-hsms-go/pkg/ast/list.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index 0dd50ba..9246196 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -104,9 +104,9 @@ func (node *ListNode) Variables() []string {
 
 	var posVar map[int]string = node.variablesSwapKeyValue()
 	for i, item := range node.values {
-		if _, ok := item.(emptyItemNode); ok {
+		if name, ok := posVar[i]; ok {
 			// Contains item node variable
-			result = append(result, posVar[i])
+			result = append(result, name)
 		} else {
 			// Call Variables() of child node recursively
 			result = append(result, item.Variables()...)
@@ -155,6 +155,11 @@ func (node *ListNode) ToBytes() []byte {
 	}
 
 	for _, item := range node.values {
+		if _, ok := item.(emptyItemNode); ok {
+			// An item without a value is transferred as a zero-length list
+			result = append(result, 0o00<<2+1, 0)
+			continue
+		}
 		// Call ToBytes() of child node recursively
 		childResult := item.ToBytes()
 		if len(childResult) == 0 {
@@ -265,6 +270,9 @@ func (node *ListNode) stringIndented(level int) string {
 			}
 			fmt.Fprintf(&sb, "%v  %v\n", indentStr, varName)
 			sizeDetermined = false
+		} else if _, ok := val.(emptyItemNode); ok {
+			// Item without a value; transferred as a zero-length list
+			fmt.Fprintf(&sb, "%v  <L[0]>\n", indentStr)
 		} else {
 			// Child ItemNode
 			fmt.Fprintf(&sb, "%v  %v\n", indentStr, val)
@@ -387,8 +395,12 @@ func (node *ListNode) fillEllipsis(values map[string]interface{}, state *fillSta
 				nodeValues = append(nodeValues, NewASCIINodeVariable(varName, minLength, maxLength))
 			}
 		case emptyItemNode:
-			varName := state.getNewVariableName(posVar[i])
-			nodeValues = append(nodeValues, varName)
+			name, ok := posVar[i]
+			if !ok {
+				nodeValues = append(nodeValues, item)
+				continue
+			}
+			nodeValues = append(nodeValues, state.getNewVariableName(name))
 		default:
 			variables := item.Variables()
 			if len(variables) == 0 {
-- 
2.43.0


From 3658e91e12b7d69e139166a91420b89cb2324330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 13/47] fix: item factories reject values that do not fit
 instead of wrapping them

NewUintNode turned negative integers into huge unsigned values, NewIntNode wrapped
unsigned values above the int64 range, NewBinaryNode took a malformed or oversized
binary literal as some other value, and an ASCII variable item had no type.
---
 lib-secs2-hsms-go/pkg/ast/ascii.go  |  1 +
 lib-secs2-hsms-go/pkg/ast/binary.go |  5 ++++-
 lib-secs2-hsms-go/pkg/ast/int.go    |  3 +++
 lib-secs2-hsms-go/pkg/ast/uint.go   | 15 +++++++++++++++
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ascii.go b/lib-secs2-hsms-go/pkg/ast/ascii.go
index 1243e8a..7b7c8c6 100644
--- a/lib-secs2-hsms-go/pkg/ast/ascii.go
+++ b/lib-secs2-hsms-go/pkg/ast/ascii.go
@@ -78,6 +78,7 @@ func NewASCIINodeVariable(name string, minLength, maxLength int) ItemNode {
 	node := &ASCIINode{
 		variable: asciiNodeVariable{name, minLength, maxLength},
 		isValue:  false,
+		symbol:   "ascii",
 	}
 	node.checkRep()
 	return node
diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index 4ce63b9..a384b50 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -54,7 +54,10 @@ func NewBinaryNode(values ...interface{}) ItemNode {
 			nodeValues = append(nodeValues, int(v))
 		case string:
 			if strings.HasPrefix(v, "0b") {
-				vAsInt64, _ := strconv.ParseInt(v, 0, 0)
+				vAsInt64, err := strconv.ParseInt(v, 0, 0)
+				if err != nil {
+					panic("invalid binary value")
+				}
 				nodeValues = append(nodeValues, int(vAsInt64))
 			} else {
 				if _, ok := nodeVariables[v]; ok {
diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 45e490e..2b00def 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -53,6 +53,9 @@ func NewIntNode(byteSize int, values ...interface{}) ItemNode {
 		case int64:
 			nodeValues = append(nodeValues, value)
 		case uint:
+			if uint64(value) > math.MaxInt64 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, int64(value))
 		case uint8:
 			nodeValues = append(nodeValues, int64(value))
diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fe6f131..fde0867 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -49,14 +49,29 @@ func NewUintNode(byteSize int, values ...interface{}) ItemNode {
 	for i, value := range values {
 		switch value := value.(type) {
 		case int:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int8:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int16:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int32:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int64:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case uint:
 			nodeValues = append(nodeValues, uint64(value))
-- 
2.43.0


From 984e91dab3fc250f552be5ff1423ccf9b8d94b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 14/47] fix: items and messages no longer expose their internal
 slices

Values() and SystemBytes() returned the backing slice of the node, so a caller could
change an immutable (and possibly shared) message; NewHSMSControlMessage accepted
one byte too many and panicked on an 11-byte header.
---
 lib-secs2-hsms-go/pkg/ast/ast.go     | 3 ++-
 lib-secs2-hsms-go/pkg/ast/binary.go  | 3 ++-
 lib-secs2-hsms-go/pkg/ast/boolean.go | 3 ++-
 lib-secs2-hsms-go/pkg/ast/float.go   | 3 ++-
 lib-secs2-hsms-go/pkg/ast/hsms.go    | 5 +++--
 lib-secs2-hsms-go/pkg/ast/int.go     | 3 ++-
 lib-secs2-hsms-go/pkg/ast/list.go    | 3 ++-
 lib-secs2-hsms-go/pkg/ast/uint.go    | 3 ++-
 8 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ast.go b/lib-secs2-hsms-go/pkg/ast/ast.go
index 743615d..f288039 100644
--- a/lib-secs2-hsms-go/pkg/ast/ast.go
+++ b/lib-secs2-hsms-go/pkg/ast/ast.go
@@ -197,7 +197,8 @@ func (node *DataMessage) SessionID() int {
 // SystemBytes returns the system bytes of the SECS-II message.
 // If the system bytes was not set, it will return []byte{0, 0, 0, 0}.
 func (node *DataMessage) SystemBytes() []byte {
-	return node.systemBytes
+	// Return a copy, the message is immutable
+	return append([]byte{}, node.systemBytes...)
 }
 
 // SetSessionIDAndSystemBytes sets session id and system bytes to the message.
diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index a384b50..da94c82 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -21,7 +21,8 @@ type BinaryNode struct {
 }
 
 func (node *BinaryNode) Values() interface{} {
-	return node.values
+	// Return a copy, the node is immutable
+	return append([]int{}, node.values...)
 }
 
 func (node *BinaryNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/boolean.go b/lib-secs2-hsms-go/pkg/ast/boolean.go
index 938a9ef..7555493 100644
--- a/lib-secs2-hsms-go/pkg/ast/boolean.go
+++ b/lib-secs2-hsms-go/pkg/ast/boolean.go
@@ -19,7 +19,8 @@ type BooleanNode struct {
 }
 
 func (node *BooleanNode) Values() interface{} {
-	return node.values
+	// Return a copy, the node is immutable
+	return append([]bool{}, node.values...)
 }
 
 func (node *BooleanNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/float.go b/lib-secs2-hsms-go/pkg/ast/float.go
index f79b563..650ba3a 100644
--- a/lib-secs2-hsms-go/pkg/ast/float.go
+++ b/lib-secs2-hsms-go/pkg/ast/float.go
@@ -29,7 +29,8 @@ type FloatNode struct {
 }
 
 func (node *FloatNode) Values() interface{} {
-	return node.values
+	// Return a copy, the node is immutable
+	return append([]float64{}, node.values...)
 }
 
 func (node *FloatNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index b1a6d17..ae8ff86 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -54,7 +54,7 @@ type ControlMessage struct {
 func NewHSMSControlMessage(header []byte) HSMSMessage {
 	headerCopy := make([]byte, 10)
 	for i, b := range header {
-		if i > 10 {
+		if i >= len(headerCopy) {
 			break
 		}
 		headerCopy[i] = b
@@ -283,7 +283,8 @@ func (msg *ControlMessage) ToBytes() []byte {
 }
 
 func (msg *ControlMessage) SystemBytes() []byte {
-	return msg.header[6:10]
+	// Return a copy, the message is immutable
+	return append([]byte{}, msg.header[6:10]...)
 }
 
 // SessionID returns the session identifier encoded in the control message header.
diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 2b00def..4bd3afe 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -95,7 +95,8 @@ func (node *IntNode) Get(indices ...int) (ItemNode, error) {
 }
 
 func (node *IntNode) Values() interface{} {
-	return node.values
+	// Return a copy, the node is immutable
+	return append([]int64{}, node.values...)
 }
 
 func (node *IntNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index 9246196..6ddc118 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -48,7 +48,8 @@ type ListNode struct {
 }
 
 func (node *ListNode) Values() interface{} {
-	return node.values
+	// Return a copy, the node is immutable
+	return append([]ItemNode{}, node.values...)
 }
 
 func (node *ListNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fde0867..00b5873 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -22,7 +22,8 @@ type UintNode struct {
 }
 
 func (node *UintNode) Values() interface{} {
-	return node.values
+	// Return a copy, the node is immutable
+	return append([]uint64{}, node.values...)
 }
 
 func (node *UintNode) Type() string {
-- 
2.43.0


From 0e73796c63a795a9d59db36e2194af084c6a81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 15/47] fix: reject.req can be built for every received message

NewHSMSMessageRejectReqFromMsg panicked for every message (no message has the type
"Reject.req"), dereferenced nil for a data message and copied the first four header
bytes instead of the system bytes.
---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 32 +++++++++++--------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index ae8ff86..3e4bdba 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -205,28 +205,18 @@ func NewHSMSMessageRejectReq(sessionID uint16, pType, sType byte, systemBytes []
 	return &ControlMessage{header}
 }
 
-func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMSMessage {
-	if rejectReq.Type() != "Reject.req" {
-		panic("expected Reject.req message")
-	}
-
-	header := make([]byte, 10)
-	msg, _ := rejectReq.(*ControlMessage)
-	header[0] = msg.header[0]
-	header[1] = msg.header[1]
-	if reasonCode == 2 {
-		header[2] = msg.header[4] // pType
-	} else {
-		header[2] = msg.header[5] // sType
+// NewHSMSMessageRejectReqFromMsg creates HSMS Reject.req control message that rejects
+// the given message, which may be any received control or data message.
+// Refer to NewHSMSMessageRejectReq for the reason codes.
+func NewHSMSMessageRejectReqFromMsg(rejected HSMSMessage, reasonCode byte) HSMSMessage {
+	switch msg := rejected.(type) {
+	case *ControlMessage:
+		return NewHSMSMessageRejectReq(msg.SessionID(), msg.header[4], msg.header[5], msg.SystemBytes(), reasonCode)
+	case *DataMessage:
+		return NewHSMSMessageRejectReq(uint16(msg.sessionID), 0, 0, msg.SystemBytes(), reasonCode)
+	default:
+		panic("expected control message or data message")
 	}
-	header[3] = reasonCode
-	header[5] = sTypeRejectReq
-	header[6] = msg.header[0]
-	header[7] = msg.header[1]
-	header[8] = msg.header[2]
-	header[9] = msg.header[3]
-
-	return &ControlMessage{header}
 }
 
 // NewHSMSMessageSeparateReq creates HSMS Separate.req control message.
-- 
2.43.0


From 8f2cf73c2f078b5fda33e887a478f549ebc9ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 16/47] fix: item lengths of two and three bytes are decoded

---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index a6f2671..7acc527 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -143,7 +143,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	var length int
 	for i, b := range lengthBytes {
 		shift := (lengthBytesCount - i - 1) * 8
-		length += int(b << shift)
+		length |= int(b) << shift
 	}
 	p.pos += lengthBytesCount
 
-- 
2.43.0


From a74f1d3ca08bfcf881beaeae3fb8b7e93cd945e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 17/47] fix: a message with trailing bytes, an impossible
 length or unbounded list nesting is rejected

---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 7acc527..025e73f 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -42,6 +42,10 @@ const (
 	formatCodeU1      = 0o51
 	formatCodeU2      = 0o52
 	formatCodeU4      = 0o54
+
+	// maxListDepth bounds the nesting of lists, so that a hostile message
+	// cannot exhaust the stack.
+	maxListDepth = 256
 )
 
 // Parse parses the input bytes that represent a HSMS message.
@@ -70,6 +74,7 @@ func Parse(input []byte) (msg ast.HSMSMessage, ok bool) {
 type parser struct {
 	input     []byte          // a HSMS input message in bytes
 	pos       int             // current position in input
+	depth     int             // number of lists around the current item
 	msgLength int             // message length (excluding length bytes)
 	msg       ast.HSMSMessage // parsed HSMS message
 }
@@ -107,7 +112,7 @@ func (p *parser) parseMessage() (ok bool) {
 		sessionID := int(binary.BigEndian.Uint16(headerBytes[:2]))
 		systemBytes := headerBytes[6:10]
 		dataItem, ok := p.parseMessageText()
-		if !ok {
+		if !ok || p.pos != len(p.input) {
 			return false
 		}
 		p.msg = ast.NewHSMSDataMessage("", stream, function, waitBit, "H<->E", dataItem, sessionID, systemBytes)
@@ -147,8 +152,18 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	}
 	p.pos += lengthBytesCount
 
+	if formatCode != formatCodeList && length > len(p.input)-p.pos {
+		return ast.NewEmptyItemNode(), false
+	}
+
 	switch formatCode {
 	case formatCodeList:
+		// every element takes at least two bytes
+		if length > (len(p.input)-p.pos)/2 || p.depth >= maxListDepth {
+			return ast.NewEmptyItemNode(), false
+		}
+		p.depth++
+		defer func() { p.depth-- }()
 		values := make([]interface{}, length)
 		for i := 0; i < length; i++ {
 			values[i], ok = p.parseMessageText()
-- 
2.43.0


From 889d90ac82cbfd24f825b54c91b7b84b3cb60b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 18/47] fix: the announced length of a SECS-II message is
 bounded before it is allocated

---
 codec/secs2.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codec/secs2.go b/codec/secs2.go
index ab38fe2..432d1c0 100644
--- a/codec/secs2.go
+++ b/codec/secs2.go
@@ -3,7 +3,6 @@ package codec
 import (
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"io"
 
 	link "github.com/younglifestyle/secs4go"
@@ -13,6 +12,11 @@ import (
 var ErrMsgParsing = errors.New("message parsing error")
 var ErrMsgFormat = errors.New("message format error")
 
+// maxSecsIIMessageSize bounds the length a peer may announce for one message
+// (the header and the text), so that a hostile length field cannot exhaust the
+// memory: the largest SECS-II item, its item header and the message header.
+const maxSecsIIMessageSize = 1<<24 - 1 + 4 + 10
+
 type SecsIIProtocol struct{}
 
 func (s *SecsIIProtocol) NewCodec(rw io.ReadWriter) (link.Codec, error) {
@@ -46,7 +50,7 @@ func (c *secsIICodec) Receive() (interface{}, error) {
 	}
 
 	msgLength := c.headDecoder(c.headBuf)
-	if msgLength < 10 {
+	if msgLength < 10 || msgLength > maxSecsIIMessageSize {
 		return nil, ErrMsgFormat
 	}
 
@@ -65,7 +69,6 @@ func (c *secsIICodec) Receive() (interface{}, error) {
 
 	msg, ok := hsms.Parse(c.bodyBuf[:required])
 	if !ok {
-		fmt.Printf("hsms decode failed, len=%d data=%x\n", required, c.bodyBuf[:required])
 		return nil, ErrMsgParsing
 	}
 
-- 
2.43.0


From 23b65335070aa987d3af122d494067cc5abc500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 19/47] fix: the fixed-length codec refuses negative and
 oversized packets and does not share its header buffer

---
 codec/fixlen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index 3425c7e..1acc2a1 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -123,7 +123,7 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 		return nil, err
 	}
 	size := c.headDecoder(c.headBuf)
-	if size > c.maxRecv {
+	if size < 0 || size > c.maxRecv {
 		return nil, ErrTooLargePacket
 	}
 	if cap(c.bodyBuf) < size {
@@ -140,12 +140,16 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 
 func (c *fixlenCodec) Send(msg interface{}) error {
 	c.sendBuf.Reset()
-	c.sendBuf.Write(c.headBuf)
+	var head [8]byte
+	c.sendBuf.Write(head[:c.n])
 	err := c.base.Send(msg)
 	if err != nil {
 		return err
 	}
 	buff := c.sendBuf.Bytes()
+	if len(buff)-c.n > c.maxSend {
+		return ErrTooLargePacket
+	}
 	c.headEncoder(buff, len(buff)-c.n)
 	_, err = c.rw.Write(buff)
 	return err
-- 
2.43.0


From d6dc5f8381c617f5a2e234ee1d49bee7d8adad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 20/47] fix: the JSON codec survives a null body and a nil
 message

---
 codec/json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/json.go b/codec/json.go
index 0e24239..2419471 100644
--- a/codec/json.go
+++ b/codec/json.go
@@ -77,6 +77,10 @@ func (c *jsonCodec) Receive() (interface{}, error) {
 			body = reflect.New(t).Interface()
 		}
 	}
+	if in.Body == nil {
+		// a null or missing body
+		return body, nil
+	}
 	err = json.Unmarshal(*in.Body, &body)
 	if err != nil {
 		return nil, err
@@ -87,7 +91,7 @@ func (c *jsonCodec) Receive() (interface{}, error) {
 func (c *jsonCodec) Send(msg interface{}) error {
 	var out jsonOut
 	t := reflect.TypeOf(msg)
-	if t.Kind() == reflect.Ptr {
+	if t != nil && t.Kind() == reflect.Ptr {
 		t = t.Elem()
 	}
 	if name, exists := c.p.names[t]; exists {
-- 
2.43.0


From 4246717a69725d9df926e43d5101cf405e1b1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 21/47] fix: a reply without an open transaction is discarded,
 not answered with S9F3/S9F5

---
 hsms/protocol_s9_helpers.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hsms/protocol_s9_helpers.go b/hsms/protocol_s9_helpers.go
index cfe8097..079229c 100644
--- a/hsms/protocol_s9_helpers.go
+++ b/hsms/protocol_s9_helpers.go
@@ -18,6 +18,13 @@ func (p *HsmsProtocol) sendS9ErrorForUnrecognized(message *ast.DataMessage) {
 		return
 	}
 
+	// A late or unsolicited reply (even function) is no unrecognized request:
+	// it is discarded, not answered.
+	if function%2 == 0 {
+		p.logger.Debug("received reply without open transaction, discarded", "stream", stream, "function", function)
+		return
+	}
+
 	var s9Message *ast.DataMessage
 
 	// Check if it's an unknown stream entirely
-- 
2.43.0


From bd100a1c0ca77c2f1b6910c3271c476596b64b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 22/47] fix: a session whose codec delivers something else than
 HSMS messages does not crash the receive loop

---
 hsms/protocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 3a76aa5..a5790e9 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -874,7 +874,11 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			break
 		}
 
-		message := rsp.(ast.HSMSMessage)
+		message, ok := rsp.(ast.HSMSMessage)
+		if !ok {
+			p.logger.Warn("unexpected message from codec", "type", fmt.Sprintf("%T", rsp))
+			continue
+		}
 		if message.Type() != hsms.DataMessageStr {
 			p.handleHsmsRequests(message)
 			continue
-- 
2.43.0


From 4abcbc732fcb193b7519df50897d2b9ee7f95550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 23/47] fix: a link test interval of zero disables the link
 test instead of crashing

---
 hsms/protocol.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index a5790e9..66df542 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -161,7 +161,12 @@ func (p *HsmsProtocol) clearDisconnectFlag() {
 }
 
 func (p *HsmsProtocol) startLinktestTimer() {
-	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
+	interval := time.Duration(p.timeouts.Linktest()) * time.Second
+	if interval <= 0 {
+		// link test disabled
+		return
+	}
+	ticker := time.NewTicker(interval)
 
 	p.linktestTimerMu.Lock()
 	p.linktestTimer = ticker
-- 
2.43.0


From 1bd16cb8e8727e102e8c8296614fd05c4a2fa0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 24/47] fix: the default connection state callbacks do not
 write to stdout

---
 hsms/connectionStateMachine.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hsms/connectionStateMachine.go b/hsms/connectionStateMachine.go
index 42c5768..ff98b68 100644
--- a/hsms/connectionStateMachine.go
+++ b/hsms/connectionStateMachine.go
@@ -2,7 +2,6 @@ package hsms
 
 import (
 	"context"
-	"fmt"
 	"github.com/looplab/fsm"
 )
 
@@ -50,15 +49,12 @@ func (cs *ConnectionStateMachine) CurrentState() string {
 }
 
 func (cs *ConnectionStateMachine) onEnterConnected(ctx context.Context, e *fsm.Event) {
-	fmt.Println("_on_enter_connected")
 }
 
 func (cs *ConnectionStateMachine) onExitConnected(ctx context.Context, e *fsm.Event) {
-	fmt.Println("_on_exit_connected")
 }
 
 func (cs *ConnectionStateMachine) onEnterConnectedSelected(ctx context.Context, e *fsm.Event) {
-	fmt.Println("_on_enter_connected_selected")
 }
 
 func (cs *ConnectionStateMachine) Connect() error {
-- 
2.43.0


From ff8258988582ce1921efad05b1f16fb02187be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 25/47] fix: a refused deselect leaves the connection selected

---
 hsms/protocol.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 66df542..fa7794c 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -578,8 +578,11 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.DeselectRspStr:
-		if err := p.connectionState.Deselect(); err != nil {
-			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+		ctrl, ok := message.(*ast.ControlMessage)
+		if ok && ControlStatus(ctrl.Status()) == ControlStatusAccepted {
+			if err := p.connectionState.Deselect(); err != nil {
+				p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+			}
 		}
 		if queue, ok := p.fetchQueue(systemID); ok {
 			queue.Put(message)
-- 
2.43.0


From 913ba4e88ee3027b2bf4c65704522bf2471f4ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 26/47] fix: the SML parser does not write to stdout

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 0db1739..9ad750d 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -347,8 +347,6 @@ func (p *parser) parseList() (item ast.ItemNode, ok bool) {
 				return ast.NewEmptyItemNode(), false
 			}
 			values = append(values, childItem)
-			fmt.Println("childItem.ToBytes() : ", childItem.Size())
-			fmt.Println("childItem.ToBytes() : ", string(childItem.ToBytes()))
 
 		case tokenTypeVariable:
 			t = p.acceptAny()
@@ -466,8 +464,6 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 		}
 	}
 
-	fmt.Println("literal : ", literal)
-
 	return ast.NewASCIINode(literal), true
 }
 
-- 
2.43.0


From 551be7e9e7ec97f170b9c4f72268dfd2f0a401f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 27/47] fix: the SML parser reports malformed binary numbers
 and quoted strings

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 9ad750d..05266ea 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -417,7 +417,11 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 		switch t.typ {
 		case tokenTypeQuotedString:
-			val, _ := strconv.Unquote(t.val)
+			val, err := strconv.Unquote(t.val)
+			if err != nil {
+				val = ""
+				p.errorf(t, "invalid quoted string %s", t.val)
+			}
 			for _, r := range val {
 				if r > unicode.MaxASCII {
 					val = ""
@@ -478,8 +482,11 @@ func (p *parser) parseBinary() (item ast.ItemNode, ok bool) {
 	for _, t := range p.getDataItemValueTokens() {
 		switch t.typ {
 		case tokenTypeNumber:
-			val, _ := strconv.ParseInt(t.val, 0, 0)
-			if !(0 <= val && val < 256) {
+			val, err := strconv.ParseInt(t.val, 0, 0)
+			if err != nil && err.(*strconv.NumError).Err == strconv.ErrSyntax {
+				val = 0
+				p.errorf(t, "expected binary value, found %q", t.val)
+			} else if !(0 <= val && val < 256) {
 				val = 0
 				p.errorf(t, "binary value overflow, should be in range of [0, 256)")
 			}
-- 
2.43.0


From d397cc0520c805e1d55dc47ad324070f795c55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 28/47] fix: no input makes the SML parser panic or exhaust the
 stack

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 35 ++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 05266ea..fad0062 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -25,11 +25,7 @@ func Parse(input string) (messages []*ast.DataMessage, errors, warnings []string
 		warnings:   []parseError{},
 	}
 
-	for p.peek().typ != tokenTypeEOF {
-		if ok := p.parseMessage(); !ok {
-			break
-		}
-	}
+	p.parseMessages()
 
 	errors = make([]string, 0, len(p.errors))
 	warnings = make([]string, 0, len(p.warnings))
@@ -46,10 +42,15 @@ func Parse(input string) (messages []*ast.DataMessage, errors, warnings []string
 	return p.messages, errors, warnings
 }
 
+// maxListDepth bounds the nesting of lists, so that a hostile input cannot
+// exhaust the stack.
+const maxListDepth = 256
+
 type parser struct {
 	input         string             // input string to parse
 	lexer         *lexer             // lexer to tokenize the input string
 	tokenQueue    []token            // token queue that the lexer tokenized
+	depth         int                // number of lists around the current item
 	variableNames map[string]bool    // variable names in a message to check duplicates
 	ellipsisCount int                // ellipsis count in a message
 	messages      []*ast.DataMessage // parsed messages
@@ -109,6 +110,23 @@ func (p *parser) warningf(t token, format string, args ...interface{}) {
 	p.warnings = append(p.warnings, parseError{t.line, t.col, fmt.Sprintf(format, args...)})
 }
 
+// parseMessages parses the messages in the input, until its end or the first
+// message that cannot be parsed.
+func (p *parser) parseMessages() {
+	var start token // first token of the current message
+	defer func() {
+		if r := recover(); r != nil {
+			p.errorf(start, "%v", r)
+		}
+	}()
+
+	for start = p.peek(); start.typ != tokenTypeEOF; start = p.peek() {
+		if ok := p.parseMessage(); !ok {
+			break
+		}
+	}
+}
+
 // parseMessage parses a SECS-II message.
 // Returns ok == false when parsing failed to stop the parser.
 // When some non-critical errors occurred, parsed values might be changed to
@@ -117,6 +135,7 @@ func (p *parser) warningf(t token, format string, args ...interface{}) {
 func (p *parser) parseMessage() (ok bool) {
 	p.variableNames = map[string]bool{}
 	p.ellipsisCount = 0
+	p.depth = 0
 
 	var (
 		stream    int
@@ -342,7 +361,13 @@ func (p *parser) parseList() (item ast.ItemNode, ok bool) {
 	for {
 		switch t := p.peek(); t.typ {
 		case tokenTypeLeftAngleBracket:
+			if p.depth >= maxListDepth {
+				p.errorf(t, "lists are nested too deeply")
+				return ast.NewEmptyItemNode(), false
+			}
+			p.depth++
 			childItem, ok := p.parseDataItem()
+			p.depth--
 			if !ok {
 				return ast.NewEmptyItemNode(), false
 			}
-- 
2.43.0


From ad32d4080ccb7e58388086ac8fb028f972e79141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 29/47] fix: clock and alarm replies use a valid message
 direction instead of crashing

---
 gem/alarm_handlers.go | 6 +++---
 gem/clock_handlers.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index bb5ade2..1a8a932 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -119,7 +119,7 @@ func (g *GemHandler) onS5F7(msg *ast.DataMessage) (*ast.DataMessage, error) {
 //   3 - At least one ALID cannot be enabled
 func (g *GemHandler) buildS5F4(ackc5 byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(ackc5))
-	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "E->H", body)
+	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "H<-E", body)
 }
 
 // buildS5F6 creates S5F6 response with alarm list.
@@ -146,7 +146,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "E->H", body)
+	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "H<-E", body)
 }
 
 // buildS5F8 creates S5F8 response with enabled alarm list (same format as S5F6).
@@ -169,7 +169,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "E->H", body)
+	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "H<-E", body)
 }
 
 // Public APIs for alarm management (Equipment side)
diff --git a/gem/clock_handlers.go b/gem/clock_handlers.go
index cf81a7c..3761ad5 100644
--- a/gem/clock_handlers.go
+++ b/gem/clock_handlers.go
@@ -15,7 +15,7 @@ func (g *GemHandler) onS2F17(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	// Build S2F18 response
 	body := ast.NewASCIINode(timeStr)
-	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "E->H", body), nil
+	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "H<-E", body), nil
 }
 
 // onS2F31 handles Date and Time Set Request (Equipment side).
@@ -54,7 +54,7 @@ func (g *GemHandler) onS2F31(msg *ast.DataMessage) (*ast.DataMessage, error) {
 // buildS2F32 creates S2F32 response with TIACK code.
 func (g *GemHandler) buildS2F32(tiack byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(tiack))
-	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "E->H", body)
+	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "H<-E", body)
 }
 
 // Public APIs for clock management
-- 
2.43.0


From f8132f1adc80508c196c6892a4f054a023838fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 30/47] fix: the alarm set and enable flags are the top bit of
 ALCD and ALED

---
 gem/alarm.go          | 6 +++---
 gem/alarm_handlers.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 4f693fb..f4040be 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -120,12 +120,12 @@ func (g *GemHandler) getEnabledAlarmList() []AlarmInfo {
 func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 	alcd := 0
 	if set {
-		alcd = 1
+		alcd = 0x80 // bit 8: alarm set
 	}
 
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
-		ast.NewUintNode(2, alarm.ID),
+		ast.NewUintNode(4, alarm.ID),
 		ast.NewASCIINode(alarm.Text),
 	)
 
@@ -157,7 +157,7 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	if !ok || len(alcdValues) == 0 {
 		return event, fmt.Errorf("gem: S5F1 ALCD missing value")
 	}
-	event.Set = alcdValues[0] != 0
+	event.Set = alcdValues[0]&0x80 != 0
 
 	alidNode, err := msg.Get(1)
 	if err != nil {
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 1a8a932..ac00584 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -27,7 +27,7 @@ func (g *GemHandler) onS5F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		return g.buildS5F4(1), nil
 	}
 
-	enable := aledValue == 128
+	enable := aledValue&0x80 != 0
 
 	// Parse ALID list
 	alidListNode, err := msg.Get(1)
-- 
2.43.0


From ed6052884c6a476a4a07fec73077899a33e30c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 31/47] fix: identifiers above 32 bits are encoded as U8
 instead of panicking

---
 gem/id_utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 299d75b..f6d5bb5 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -57,7 +57,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 }
 
 func newIDInfoFromUint(value uint64) (idInfo, error) {
-	node := ast.NewUintNode(4, value)
+	byteSize := 4
+	if value > 0xFFFFFFFF {
+		byteSize = 8
+	}
+	node := ast.NewUintNode(byteSize, value)
 	return idInfo{raw: value, node: node, key: fmt.Sprintf("N:%d", value)}, nil
 }
 
-- 
2.43.0


From b9dd4329c93b53da2cb0115a1b64b4012f8dddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 32/47] fix: a collection event link is read under its lock
 when a report is built

---
 gem/collection_event_handlers.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 6743e92..70817b3 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -104,26 +104,23 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 		return nil, 0, nil, fmt.Errorf("unknown collection event %s", key)
 	}
 
+	// one consistent view of the link and the reports it names
 	g.reportMu.RLock()
 	link, linked := g.eventLinks[key]
-	g.reportMu.RUnlock()
 	if !linked || !link.enabled || len(link.reports) == 0 {
+		g.reportMu.RUnlock()
 		return nil, 0, nil, nil
 	}
-
-	g.reportMu.RLock()
-	reportKeys := append([]string{}, link.reports...)
-	g.reportMu.RUnlock()
-
-	reportNodes := make([]ast.ItemNode, 0, len(reportKeys))
-	for _, rptKey := range reportKeys {
-		g.reportMu.RLock()
-		report, exists := g.reports[rptKey]
-		g.reportMu.RUnlock()
-		if !exists {
-			continue
+	reports := make([]*ReportDefinition, 0, len(link.reports))
+	for _, rptKey := range link.reports {
+		if report, exists := g.reports[rptKey]; exists {
+			reports = append(reports, report)
 		}
+	}
+	g.reportMu.RUnlock()
 
+	reportNodes := make([]ast.ItemNode, 0, len(reports))
+	for _, report := range reports {
 		values := g.collectReportValues(report)
 		reportNodes = append(reportNodes, ast.NewListNode(report.idNode(), ast.NewListNode(values...)))
 	}
-- 
2.43.0


From 877a449eaf02ec02e0616f16269851db3ba187d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 33/47] fix: a refused S2F37 changes no collection event

---
 gem/collection_event_handlers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 70817b3..f867db2 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -326,12 +326,13 @@ func (g *GemHandler) setCollectionEventState(enable bool, ceids []idInfo) ERACKC
 	}
 
 	for _, ce := range ceids {
-		if link, ok := g.eventLinks[ce.key]; ok {
-			link.enabled = enable
-		} else {
+		if _, ok := g.eventLinks[ce.key]; !ok {
 			return ERACKCEIDUnknown
 		}
 	}
+	for _, ce := range ceids {
+		g.eventLinks[ce.key].enabled = enable
+	}
 	return ERACKAccepted
 }
 
-- 
2.43.0


From ac01b48f951a42051b6908d3baf6c46f115d5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 34/47] fix: a refused S2F33 defines no report

---
 gem/collection_event_handlers.go | 13 +++++++------
 gem/collection_events.go         |  8 ++------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index f867db2..612fd43 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -195,10 +195,15 @@ func (g *GemHandler) handleReportDefinitions(reports []reportDefinitionMessage)
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	defined := make(map[string]bool)
 	for _, rpt := range reports {
-		if _, exists := g.reports[rpt.id.key]; exists && len(rpt.vids) > 0 {
+		if len(rpt.vids) == 0 {
+			continue
+		}
+		if _, exists := g.reports[rpt.id.key]; exists || defined[rpt.id.key] {
 			return DRACKRPTIDRedefined
 		}
+		defined[rpt.id.key] = true
 	}
 
 	for _, rpt := range reports {
@@ -214,11 +219,7 @@ func (g *GemHandler) handleReportDefinitions(reports []reportDefinitionMessage)
 			g.removeReportUnlocked(rpt.id.key)
 			continue
 		}
-		definition, err := newReportDefinition(rpt.id.raw, rpt.vids)
-		if err != nil {
-			return DRACKInvalidFormat
-		}
-		g.reports[rpt.id.key] = definition
+		g.reports[rpt.id.key] = newReportDefinition(rpt.id, rpt.vids)
 	}
 
 	return DRACKAccept
diff --git a/gem/collection_events.go b/gem/collection_events.go
index f7d0b26..432d5ea 100644
--- a/gem/collection_events.go
+++ b/gem/collection_events.go
@@ -40,16 +40,12 @@ type ReportDefinition struct {
 	vidKeys []string
 }
 
-func newReportDefinition(id interface{}, vids []idInfo) (*ReportDefinition, error) {
-	info, err := newIDInfo(id)
-	if err != nil {
-		return nil, err
-	}
+func newReportDefinition(info idInfo, vids []idInfo) *ReportDefinition {
 	keys := make([]string, 0, len(vids))
 	for _, vid := range vids {
 		keys = append(keys, vid.key)
 	}
-	return &ReportDefinition{info: info, vidKeys: keys}, nil
+	return &ReportDefinition{info: info, vidKeys: keys}
 }
 
 func (rd *ReportDefinition) ID() interface{} {
-- 
2.43.0


From 21f970352651256bd658a8c18cea8f548567e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 35/47] fix: status and equipment constant providers are called
 without the handler's locks

---
 gem/status_equipment_handlers.go | 56 +++++++++++++++++---------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index a31a1bb..e4f1e48 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -108,30 +108,32 @@ func (g *GemHandler) onS2F29(msg *ast.DataMessage) (*ast.DataMessage, error) {
 }
 
 func (g *GemHandler) resolveStatusValues(requests []idRequest) []ast.ItemNode {
+	// the value providers run without the lock
+	variables := make([]*StatusVariable, 0, len(requests))
 	g.statusMu.RLock()
-	defer g.statusMu.RUnlock()
-
 	if len(requests) == 0 {
-		values := make([]ast.ItemNode, 0, len(g.statusOrder))
 		for _, key := range g.statusOrder {
 			if variable, ok := g.statusVars[key]; ok {
-				values = append(values, safeStatusValue(variable, g.logger))
+				variables = append(variables, variable)
 			}
 		}
-		return values
 	}
-
-	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
-		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
-			continue
+		var variable *StatusVariable // nil for an unknown identifier
+		if req.ok {
+			variable = g.statusVars[req.info.key]
 		}
-		if variable, ok := g.statusVars[req.info.key]; ok {
-			values = append(values, safeStatusValue(variable, g.logger))
-		} else {
+		variables = append(variables, variable)
+	}
+	g.statusMu.RUnlock()
+
+	values := make([]ast.ItemNode, 0, len(variables))
+	for _, variable := range variables {
+		if variable == nil {
 			values = append(values, ast.NewEmptyItemNode())
+			continue
 		}
+		values = append(values, safeStatusValue(variable, g.logger))
 	}
 	return values
 }
@@ -186,30 +188,32 @@ func buildStatusInfoNode(variable *StatusVariable) ast.ItemNode {
 }
 
 func (g *GemHandler) resolveEquipmentConstantValues(requests []idRequest) []ast.ItemNode {
+	// the value providers run without the lock
+	constants := make([]*EquipmentConstant, 0, len(requests))
 	g.ecMu.RLock()
-	defer g.ecMu.RUnlock()
-
 	if len(requests) == 0 {
-		values := make([]ast.ItemNode, 0, len(g.ecOrder))
 		for _, key := range g.ecOrder {
 			if constant, ok := g.equipmentConstants[key]; ok {
-				values = append(values, safeEquipmentConstantValue(constant, g.logger))
+				constants = append(constants, constant)
 			}
 		}
-		return values
 	}
-
-	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
-		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
-			continue
+		var constant *EquipmentConstant // nil for an unknown identifier
+		if req.ok {
+			constant = g.equipmentConstants[req.info.key]
 		}
-		if constant, ok := g.equipmentConstants[req.info.key]; ok {
-			values = append(values, safeEquipmentConstantValue(constant, g.logger))
-		} else {
+		constants = append(constants, constant)
+	}
+	g.ecMu.RUnlock()
+
+	values := make([]ast.ItemNode, 0, len(constants))
+	for _, constant := range constants {
+		if constant == nil {
 			values = append(values, ast.NewEmptyItemNode())
+			continue
 		}
+		values = append(values, safeEquipmentConstantValue(constant, g.logger))
 	}
 	return values
 }
-- 
2.43.0


From 7bed2fd43aece714d8e2a72ee9e22dbddeab6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 36/47] fix: equipment constants are updated all or nothing,
 and without the handler's lock

---
 gem/equipment_constants.go       | 23 ++++++++++++++++++-----
 gem/status_equipment_handlers.go | 24 ++++++++++++++++++------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 7c6a75d..e525f21 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -137,21 +137,34 @@ func (ec *EquipmentConstant) Value() (ast.ItemNode, error) {
 
 // ApplyValue stores or forwards a new value.
 func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
+	if err := ec.validate(node); err != nil {
+		return err
+	}
+	return ec.apply(node)
+}
+
+// validate reports whether a new value would be accepted.
+func (ec *EquipmentConstant) validate(node ast.ItemNode) error {
 	if node == nil {
 		return fmt.Errorf("nil value provided for equipment constant %v", ec.ID())
 	}
 
 	ec.mu.RLock()
 	validator := ec.validator
-	updater := ec.updater
-	provider := ec.provider
 	ec.mu.RUnlock()
 
 	if validator != nil {
-		if err := validator(node); err != nil {
-			return err
-		}
+		return validator(node)
 	}
+	return nil
+}
+
+// apply stores or forwards a validated value.
+func (ec *EquipmentConstant) apply(node ast.ItemNode) error {
+	ec.mu.RLock()
+	updater := ec.updater
+	provider := ec.provider
+	ec.mu.RUnlock()
 
 	if updater != nil {
 		if err := updater(node); err != nil {
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index e4f1e48..94e5594 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -385,21 +385,33 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		return ECACKAccepted
 	}
 
+	// the validators and updaters run without the lock
+	constants := make([]*EquipmentConstant, 0, len(updates))
 	g.ecMu.RLock()
-	defer g.ecMu.RUnlock()
-
 	for _, upd := range updates {
 		if !upd.ok {
+			g.ecMu.RUnlock()
 			return ECACKInvalidData
 		}
-		if _, ok := g.equipmentConstants[upd.id.key]; !ok {
+		constant, ok := g.equipmentConstants[upd.id.key]
+		if !ok {
+			g.ecMu.RUnlock()
 			return ECACKDoesNotExist
 		}
+		constants = append(constants, constant)
 	}
+	g.ecMu.RUnlock()
 
-	for _, upd := range updates {
-		constant := g.equipmentConstants[upd.id.key]
-		if err := constant.ApplyValue(upd.value); err != nil {
+	// all or nothing: no constant changes unless every value is valid
+	for i, constant := range constants {
+		if err := constant.validate(updates[i].value); err != nil {
+			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			return ECACKValidationError
+		}
+	}
+
+	for i, constant := range constants {
+		if err := constant.apply(updates[i].value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
 		}
-- 
2.43.0


From 06bd9d2423a20af87a6eb62596b3be6f9ac8799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 37/47] fix: the process program handlers are read and replaced
 under a lock

---
 gem/handler.go                  |  1 +
 gem/process_program_handlers.go | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 844c2e4..38e9e32 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -82,6 +82,7 @@ type GemHandler struct {
 	eventLinks       map[string]*collectionEventLink
 
 	processStore          *processProgramStore
+	processMu             sync.RWMutex
 	processUploadHandler  ProcessProgramUploadHandler
 	processRequestHandler ProcessProgramRequestHandler
 
diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 4cbf641..4a61113 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -31,11 +31,15 @@ func (g *GemHandler) ListProcessPrograms() []ProcessProgram {
 
 // SetProcessProgramUploadHandler registers a callback invoked when the host uploads a process program (S7F3).
 func (g *GemHandler) SetProcessProgramUploadHandler(handler ProcessProgramUploadHandler) {
+	g.processMu.Lock()
+	defer g.processMu.Unlock()
 	g.processUploadHandler = handler
 }
 
 // SetProcessProgramRequestHandler registers a callback used to serve S7F5 requests.
 func (g *GemHandler) SetProcessProgramRequestHandler(handler ProcessProgramRequestHandler) {
+	g.processMu.Lock()
+	defer g.processMu.Unlock()
 	g.processRequestHandler = handler
 }
 
@@ -63,8 +67,11 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 
 	ack := 0
-	if g.processUploadHandler != nil {
-		ack = g.processUploadHandler(ppidInfo.raw, body)
+	g.processMu.RLock()
+	uploadHandler := g.processUploadHandler
+	g.processMu.RUnlock()
+	if uploadHandler != nil {
+		ack = uploadHandler(ppidInfo.raw, body)
 	}
 	if ack == 0 {
 		program, err := newProcessProgram(ppidInfo.raw, body)
@@ -106,8 +113,11 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	body := ""
 	ack := 0
-	if g.processRequestHandler != nil {
-		body, ack = g.processRequestHandler(ppidInfo.raw)
+	g.processMu.RLock()
+	requestHandler := g.processRequestHandler
+	g.processMu.RUnlock()
+	if requestHandler != nil {
+		body, ack = requestHandler(ppidInfo.raw)
 	} else {
 		if program, ok := g.processStore.get(ppidInfo.key); ok {
 			body = program.Body
-- 
2.43.0


From f4a706e46cf6ab1e027d863c95c70373b0b3e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 38/47] fix: a process program handler's return value outside a
 byte is a refusal, not a crash or a success

---
 gem/status_equipment_messages.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 55e4683..033a6b2 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -214,6 +214,11 @@ func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage
 }
 
 func (g *GemHandler) buildS7F4(ack int) *ast.DataMessage {
+	// an application handler may return any number: never acknowledge a
+	// refusal, never exceed the byte
+	if ack < 0 || ack > 255 {
+		ack = 255
+	}
 	//body := ast.NewListNode(ast.NewBinaryNode(ack))
 	body := ast.NewBinaryNode(ack)
 	return ast.NewDataMessage("ProcessProgramAcknowledge", 7, 4, 0, "H<-E", body)
@@ -234,10 +239,7 @@ func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *
 	if ack != 0 {
 		bodyNode = ast.NewASCIINode("")
 	}
-	if ack < 0 {
-		ack = 0
-	}
-	if ack > 255 {
+	if ack < 0 || ack > 255 {
 		ack = 255
 	}
 	ackNode := ast.NewBinaryNode(fmt.Sprintf("0b%b", ack))
-- 
2.43.0


From 055995263e89900436119adfc3b4d50da61b643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 39/47] fix: only an S1F14 can acknowledge the establishment of
 communication

---
 gem/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gem/handler.go b/gem/handler.go
index 38e9e32..8fe05eb 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -888,7 +888,7 @@ func (g *GemHandler) buildS1F18(onlack int) *ast.DataMessage {
 }
 
 func readCommAck(msg *ast.DataMessage) int {
-	if msg == nil {
+	if msg == nil || msg.StreamCode() != 1 || msg.FunctionCode() != 14 {
 		return -1
 	}
 	item, err := msg.Get(0)
-- 
2.43.0


From 710c07fcbdcee06ae068ca716d4467a77305140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 40/47] fix: an alarm id item without a value is malformed, not
 alarm 0

---
 gem/alarm.go          | 11 +++++++----
 gem/alarm_client.go   | 10 ++++++----
 gem/alarm_handlers.go | 10 ++++++----
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index f4040be..5cd48fd 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -1,6 +1,7 @@
 package gem
 
 import (
+	"errors"
 	"fmt"
 	"sort"
 
@@ -166,14 +167,16 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	switch typed := alidNode.(type) {
 	case *ast.UintNode:
 		values, _ := typed.Values().([]uint64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
+		if len(values) == 0 {
+			return event, errors.New("gem: ALID missing value")
 		}
+		event.ID = int(values[0])
 	case *ast.IntNode:
 		values, _ := typed.Values().([]int64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
+		if len(values) == 0 {
+			return event, errors.New("gem: ALID missing value")
 		}
+		event.ID = int(values[0])
 	default:
 		return event, fmt.Errorf("gem: unsupported ALID type %T", alidNode)
 	}
diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 371c936..51d1d2f 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -132,14 +132,16 @@ func parseAlarmListResponse(msg *ast.DataMessage) ([]AlarmInfo, error) {
 		switch typed := alidNode.(type) {
 		case *ast.UintNode:
 			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				alid = int(values[0])
+			if len(values) == 0 {
+				continue
 			}
+			alid = int(values[0])
 		case *ast.IntNode:
 			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				alid = int(values[0])
+			if len(values) == 0 {
+				continue
 			}
+			alid = int(values[0])
 		default:
 			continue
 		}
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index ac00584..4b1aded 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -52,14 +52,16 @@ func (g *GemHandler) onS5F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		switch typed := alidNode.(type) {
 		case *ast.UintNode:
 			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				id = int(values[0])
+			if len(values) == 0 {
+				return g.buildS5F4(1), nil
 			}
+			id = int(values[0])
 		case *ast.IntNode:
 			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				id = int(values[0])
+			if len(values) == 0 {
+				return g.buildS5F4(1), nil
 			}
+			id = int(values[0])
 		default:
 			return g.buildS5F4(1), nil
 		}
-- 
2.43.0


From d7996c4456b8994cb30e9a278e99297419927782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 41/47] fix: a process program whose body is not text is
 refused instead of stored empty

---
 gem/process_program_handlers.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 4a61113..40ae846 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -59,11 +59,13 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if err != nil {
 		return g.buildS7F4(1), nil
 	}
-	body := ""
-	if ascii, ok := bodyNode.(*ast.ASCIINode); ok {
-		if val, ok := ascii.Values().(string); ok {
-			body = val
-		}
+	ascii, ok := bodyNode.(*ast.ASCIINode)
+	if !ok {
+		return g.buildS7F4(1), nil
+	}
+	body, ok := ascii.Values().(string)
+	if !ok {
+		return g.buildS7F4(1), nil
 	}
 
 	ack := 0
-- 
2.43.0


From e66d10ac749967de779834cd725ad542a19e8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 42/47] fix: give every link test loop its own stop signal

The loops of all connections shared one buffered signal: a loop busy with a
link test when its connection was lost had its signal drained by the next
connection's loop and ran on beside it; a loop started after the loss was
never signalled at all.
---
 hsms/protocol.go | 51 ++++++++++++++++--------------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index fa7794c..e3e5306 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -98,8 +98,7 @@ type HsmsProtocol struct {
 	defaultHandler DataMessageHandler
 
 	linktestTimerMu sync.Mutex
-	linktestTimer   *time.Ticker
-	disconnectFlg   chan struct{}
+	linktestStop    chan struct{} // stop signal of the running link test loop
 
 	t7TimerMu sync.Mutex
 	t7Timer   *time.Timer
@@ -133,7 +132,6 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		timeouts:             NewSecsTimeout(),
 		systemQueues:         make(map[uint32]*utils.Deque),
 		handlers:             make(map[string]DataMessageHandler),
-		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
 	}
 	h.logCfg.Writer = os.Stderr
@@ -150,16 +148,6 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 	return h
 }
 
-func (p *HsmsProtocol) clearDisconnectFlag() {
-	for {
-		select {
-		case <-p.disconnectFlg:
-		default:
-			return
-		}
-	}
-}
-
 func (p *HsmsProtocol) startLinktestTimer() {
 	interval := time.Duration(p.timeouts.Linktest()) * time.Second
 	if interval <= 0 {
@@ -167,28 +155,29 @@ func (p *HsmsProtocol) startLinktestTimer() {
 		return
 	}
 	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 
+	// every loop has a stop signal of its own: one meant for the loop of an
+	// earlier connection can neither stop this loop nor be lost to it
+	stop := make(chan struct{})
 	p.linktestTimerMu.Lock()
-	p.linktestTimer = ticker
+	if p.linktestStop != nil {
+		close(p.linktestStop)
+	}
+	p.linktestStop = stop
 	p.linktestTimerMu.Unlock()
 
-	defer func() {
-		ticker.Stop()
-		p.linktestTimerMu.Lock()
-		if p.linktestTimer == ticker {
-			p.linktestTimer = nil
-		}
-		p.linktestTimerMu.Unlock()
-	}()
-
-	p.clearDisconnectFlag()
+	// the connection may be lost before the signal is registered
+	if !p.connected.Load() {
+		return
+	}
 	p.hsmsConnection.sendLinktestReq()
 
 	for {
 		select {
 		case <-ticker.C:
 			p.hsmsConnection.sendLinktestReq()
-		case <-p.disconnectFlg:
+		case <-stop:
 			return
 		}
 	}
@@ -198,11 +187,9 @@ func (p *HsmsProtocol) stopLinktestTimer() {
 	p.linktestTimerMu.Lock()
 	defer p.linktestTimerMu.Unlock()
 
-	if p.linktestTimer != nil {
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
+	if p.linktestStop != nil {
+		close(p.linktestStop)
+		p.linktestStop = nil
 	}
 }
 
@@ -360,10 +347,6 @@ func (p *HsmsProtocol) Disable() {
 			// allow a brief moment for remote to process before closing
 			time.Sleep(200 * time.Millisecond)
 		}
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session failed", "error", err)
 		}
-- 
2.43.0


From c169c5a87e038572a0ab97c8f32d2f24781a577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 43/47] fix: do not leave a communication monitor behind when
 Enable and Disable overlap

---
 gem/handler.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gem/handler.go b/gem/handler.go
index 8fe05eb..52488fe 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -222,6 +222,14 @@ func (g *GemHandler) Enable() {
 	g.protocol.Enable()
 
 	g.stopMu.Lock()
+	if !g.enabled.Load() {
+		// disabled meanwhile
+		g.stopMu.Unlock()
+		return
+	}
+	if g.stopCh != nil {
+		close(g.stopCh)
+	}
 	stopCh := make(chan struct{})
 	g.stopCh = stopCh
 	g.stopMu.Unlock()
-- 
2.43.0


From 170c145b8344321f40403aec83e45e3e7886ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 44/47] fix: deleting a report removes every link to it, not
 only the first

---
 gem/collection_events.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gem/collection_events.go b/gem/collection_events.go
index 432d5ea..a0a4042 100644
--- a/gem/collection_events.go
+++ b/gem/collection_events.go
@@ -73,12 +73,13 @@ func newCollectionEventLink(reports []string) *collectionEventLink {
 }
 
 func (link *collectionEventLink) removeReport(key string) {
-	for idx, rpt := range link.reports {
-		if rpt == key {
-			link.reports = append(link.reports[:idx], link.reports[idx+1:]...)
-			return
+	kept := make([]string, 0, len(link.reports))
+	for _, rpt := range link.reports {
+		if rpt != key {
+			kept = append(kept, rpt)
 		}
 	}
+	link.reports = kept
 }
 
 func ensureIDInfoSlice(values []interface{}) ([]idInfo, error) {
-- 
2.43.0


From b34495cc13d6d20a6c71fda4d9fcaba223e7af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 45/47] fix: write quotes and backslashes of an ASCII item as
 number codes in SML

---
 lib-secs2-hsms-go/pkg/ast/ascii.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ascii.go b/lib-secs2-hsms-go/pkg/ast/ascii.go
index 7b7c8c6..d5c3873 100644
--- a/lib-secs2-hsms-go/pkg/ast/ascii.go
+++ b/lib-secs2-hsms-go/pkg/ast/ascii.go
@@ -188,8 +188,8 @@ func (node *ASCIINode) String() string {
 	var sb strings.Builder
 	printableState := false
 	for _, ch := range node.value {
-		if ch < 32 || ch == 127 {
-			// ch is a non-printable control character
+		if ch < 32 || ch == 127 || ch == '"' || ch == '\\' {
+			// ch is a non-printable control character, or has a special meaning in a quoted string
 			// 32: space, which is the first printable character, 127: del
 			if printableState {
 				printableState = false
-- 
2.43.0


From 07de3bc8cf2b3b056289de5905c4e8bc6a77e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 46/47] fix: report item size limits of the SML parser that are
 out of range

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 27 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index fad0062..41fe51b 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -324,19 +324,34 @@ func (p *parser) parseDataItemSize() (token, int, int) {
 		i := strings.Index(t.val, "..")
 		if i == -1 {
 			// '..' is not found
-			sizeStart, _ = strconv.Atoi(t.val[1 : len(t.val)-1])
+			sizeStart = p.parseSizeLimit(t, t.val[1:len(t.val)-1], 0)
 			sizeEnd = sizeStart
 		} else {
-			sizeStart, _ = strconv.Atoi(t.val[1:i]) // Atoi return 0 when syntax error
-			end, err := strconv.Atoi(t.val[i+2 : len(t.val)-1])
-			if err == nil || err.(*strconv.NumError).Err == strconv.ErrRange {
-				sizeEnd = end
-			}
+			sizeStart = p.parseSizeLimit(t, t.val[1:i], 0)
+			sizeEnd = p.parseSizeLimit(t, t.val[i+2:len(t.val)-1], -1)
+		}
+		if sizeStart > ast.MAX_BYTE_SIZE {
+			// no data item is that large
+			p.errorf(t, "data item size overflow, found %q", t.val)
+			sizeStart, sizeEnd = 0, -1
 		}
 	}
 	return t, sizeStart, sizeEnd
 }
 
+// parseSizeLimit parses a limit of data item size. Returns missing, if there is none.
+func (p *parser) parseSizeLimit(t token, text string, missing int) int {
+	if text == "" {
+		return missing
+	}
+	limit, err := strconv.Atoi(text)
+	if err != nil {
+		p.errorf(t, "data item size overflow, found %q", t.val)
+		return missing
+	}
+	return limit
+}
+
 // checkDataItemSizeError submit error on the token, if the size is not in range.
 // upperLimit = -1 means no upper limit.
 func (p *parser) checkDataItemSizeError(size, lowerLimit, upperLimit int, t token) {
-- 
2.43.0


From 3308f97d7d9e2a2c08b15880383e2fdd5d53cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:48 +0000
Subject: [PATCH 47/47] fix: report an alarm list that cannot be understood
 instead of skipping its entries

---
 gem/alarm_client.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 51d1d2f..fe19e1e 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -105,51 +105,51 @@ func parseAlarmListResponse(msg *ast.DataMessage) ([]AlarmInfo, error) {
 	for i := 0; i < outerList.Size(); i++ {
 		alarmNode, err := outerList.Get(i)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("gem: malformed alarm list: %w", err)
 		}
 
 		alarmList, ok := alarmNode.(*ast.ListNode)
 		if !ok || alarmList.Size() < 3 {
-			continue
+			return nil, fmt.Errorf("gem: malformed alarm list: entry %d is not an alarm", i)
 		}
 
 		// Parse ALCD (byte 0)
 		alcdNode, err := alarmList.Get(0)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("gem: malformed alarm list: %w", err)
 		}
 		alcd, err := readSingleBinaryValue(alcdNode)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("gem: malformed alarm list: %w", err)
 		}
 
 		// Parse ALID (index 1)
 		alidNode, err := alarmList.Get(1)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("gem: malformed alarm list: %w", err)
 		}
 		var alid int
 		switch typed := alidNode.(type) {
 		case *ast.UintNode:
 			values, _ := typed.Values().([]uint64)
 			if len(values) == 0 {
-				continue
+				return nil, fmt.Errorf("gem: malformed alarm list: entry %d has no ALID", i)
 			}
 			alid = int(values[0])
 		case *ast.IntNode:
 			values, _ := typed.Values().([]int64)
 			if len(values) == 0 {
-				continue
+				return nil, fmt.Errorf("gem: malformed alarm list: entry %d has no ALID", i)
 			}
 			alid = int(values[0])
 		default:
-			continue
+			return nil, fmt.Errorf("gem: malformed alarm list: unsupported ALID type %T", alidNode)
 		}
 
 		// Parse ALTX (index 2)
 		altxNode, err := alarmList.Get(2)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("gem: malformed alarm list: %w", err)
 		}
 		var text string
 		if asciiNode, ok := altxNode.(*ast.ASCIINode); ok {
-- 
2.43.0

