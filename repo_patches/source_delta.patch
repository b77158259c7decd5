From 29e896afdf5b6d74ff114fe536a1ab7eaac49db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 01/38] fix: a connection counts as connected from Run on, its
 status is atomic

The status was set only after the Connected event, so everything sent before
(the first RTSP request of a session among it) was silently dropped; it was
also read and written by several goroutines without synchronisation.
---
 tcpnetwork/tcpnetwork.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 2d5c90f..3e66dfd 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"log"
 	"net"
+	"sync/atomic"
 	"time"
 )
 
@@ -40,7 +41,7 @@ const (
 type Connection struct {
 	conn                net.Conn
 	connRW              *bufio.ReadWriter
-	status              int
+	status              int32
 	sendMsgQueue        chan []byte
 	sendBufferSize      int
 	sendTimeoutSec      int
@@ -81,17 +82,17 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 
 // directly close, packages in queue will not be sent
 func (connection *Connection) close() {
-	if ConnStatusConnected != connection.status {
+	if ConnStatusConnected != connection.GetStatus() {
 		return
 	}
 
 	connection.conn.Close()
-	connection.status = ConnStatusDisconnected
+	connection.setStatus(ConnStatusDisconnected)
 }
 
 // Close close tcp connection
 func (connection *Connection) Close() {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -119,11 +120,11 @@ func (connection *Connection) pushEvent(eventType int, data []byte) {
 
 // GetStatus get connection status
 func (connection *Connection) GetStatus() int {
-	return connection.status
+	return int(atomic.LoadInt32(&connection.status))
 }
 
 func (connection *Connection) setStatus(status int) {
-	connection.status = status
+	atomic.StoreInt32(&connection.status, int32(status))
 }
 
 // SetReadTimeoutSec set read time out
@@ -142,7 +143,7 @@ func (connection *Connection) SetStreamProtocol(streamProtocol IStreamProtocol)
 }
 
 func (connection *Connection) sendRaw(msg []byte) {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -162,7 +163,7 @@ func (connection *Connection) sendRaw(msg []byte) {
 
 // Send send data
 func (connection *Connection) Send(msg []byte, needCopy bool) {
-	if connection.status != ConnStatusConnected {
+	if connection.GetStatus() != ConnStatusConnected {
 		return
 	}
 
@@ -178,6 +179,7 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 
 // Run a routine to process connection connection
 func (connection *Connection) Run() {
+	connection.setStatus(ConnStatusConnected)
 	go connection.routineMain()
 }
 
@@ -209,7 +211,6 @@ func (connection *Connection) routineMain() {
 
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
-	connection.status = ConnEventConnected
 
 	go connection.routineSend()
 	connection.routineRead()
-- 
2.43.0


From be5c2956b93c4e75af519228b1bf8323cfe7aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:00 +0000
Subject: [PATCH 02/38] fix: do not close and replace the send queue other
 goroutines use

A Send or Close concurrent with the end of the connection panicked (send on
closed channel) or blocked on the replaced queue; two concurrent closes raced.
---
 tcpnetwork/tcpnetwork.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 3e66dfd..964888b 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"log"
 	"net"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -49,6 +50,8 @@ type Connection struct {
 	eventHandler        func(*ConnEvent)
 	streamProtocol      IStreamProtocol
 	maxReadBufferLength int
+	closeLock           sync.Mutex
+	quit                chan struct{} // closed when the connection has been closed
 }
 
 // ConnEvent TCP connnection event
@@ -77,17 +80,21 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 		sendTimeoutSec:      connConfDefaultSendTimeoutSec,
 		maxReadBufferLength: connConfMaxReadBufferLength,
 		eventHandler:        eventHandler,
+		quit:                make(chan struct{}),
 	}
 }
 
 // directly close, packages in queue will not be sent
 func (connection *Connection) close() {
+	connection.closeLock.Lock()
+	defer connection.closeLock.Unlock()
 	if ConnStatusConnected != connection.GetStatus() {
 		return
 	}
 
 	connection.conn.Close()
 	connection.setStatus(ConnStatusDisconnected)
+	close(connection.quit)
 }
 
 // Close close tcp connection
@@ -101,6 +108,10 @@ func (connection *Connection) Close() {
 		{
 			// nothing
 		}
+	case <-connection.quit:
+		{
+			// the connection has ended
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -152,6 +163,10 @@ func (connection *Connection) sendRaw(msg []byte) {
 		{
 			// nothing
 		}
+	case <-connection.quit:
+		{
+			// the connection has ended
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -195,10 +210,6 @@ func (connection *Connection) routineMain() {
 		// close the connection
 		connection.close()
 
-		// free channel
-		close(connection.sendMsgQueue)
-		connection.sendMsgQueue = make(chan []byte, connection.sendBufferSize)
-
 		// post event
 		connection.pushEvent(ConnEventDisconnected, nil)
 	}()
@@ -223,13 +234,12 @@ func (connection *Connection) routineSend() error {
 
 	for {
 		select {
-		case sendMsg, ok := <-connection.sendMsgQueue:
+		case <-connection.quit:
+			{
+				return nil
+			}
+		case sendMsg := <-connection.sendMsgQueue:
 			{
-				if !ok {
-					// channel closed, quit
-					return nil
-				}
-
 				if nil == sendMsg {
 					log.Println("User disconnect")
 					connection.close()
-- 
2.43.0


From d14e9971484f93f6a825d5e869bf21e22fda7ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:00 +0000
Subject: [PATCH 03/38] fix: a failed, stalled or panicking writer ends the
 connection

Flush errors were ignored, a write error left the connection open without a
writer, a peer that stopped reading blocked the writer and Close for ever and a
panic in SerializeHeader ended the process.
---
 tcpnetwork/tcpnetwork.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 964888b..d5d8a63 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -230,6 +230,13 @@ func (connection *Connection) routineMain() {
 func (connection *Connection) routineSend() error {
 	defer func() {
 		log.Println("Connection send log return")
+		e := recover()
+		if e != nil {
+			log.Println("Panic: ", e)
+		}
+
+		// nothing can be sent any more: the connection ends
+		connection.close()
 	}()
 
 	for {
@@ -247,6 +254,7 @@ func (connection *Connection) routineSend() error {
 				}
 
 				var err error
+				connection.conn.SetWriteDeadline(time.Now().Add(time.Duration(connection.sendTimeoutSec) * time.Second))
 				headerBytes := connection.streamProtocol.SerializeHeader(sendMsg)
 				if nil != headerBytes {
 					// write header first
@@ -255,14 +263,22 @@ func (connection *Connection) routineSend() error {
 						log.Println("Conn write error:", err)
 						return err
 					}
-					connection.connRW.Flush()
+					err = connection.connRW.Flush()
+					if err != nil {
+						log.Println("Conn write error:", err)
+						return err
+					}
 				}
 				_, err = connection.connRW.Write(sendMsg)
 				if err != nil {
 					log.Println("Conn write error:", err)
 					return err
 				}
-				connection.connRW.Flush()
+				err = connection.connRW.Flush()
+				if err != nil {
+					log.Println("Conn write error:", err)
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 07ce748b6f49f86a838f598ffecfd22af993843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 04/38] fix: keep reads inside the receive buffer

Bodies of the maximum length and content lengths out of range were sliced
beyond the buffer and panicked; there was no room for the header.
---
 tcpnetwork/tcpnetwork.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index d5d8a63..636f573 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -285,8 +285,8 @@ func (connection *Connection) routineSend() error {
 }
 
 func (connection *Connection) routineRead() error {
-	// default buffer
-	buf := make([]byte, connection.maxReadBufferLength)
+	// default buffer: a header and a body of the maximum length
+	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)
 
 	for {
 		data, err := connection.unpack(buf)
@@ -354,7 +354,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 		}
 		bodyLength = curBodyPos
 	} else if 0 != packetLength {
-		if packetLength > connection.maxReadBufferLength {
+		if packetLength < 0 || packetLength > connection.maxReadBufferLength {
 			return nil, errors.New("The stream data is too long")
 		}
 
@@ -379,6 +379,10 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 
 	contextLength = connection.streamProtocol.GetContentLength(buf[:bufStartPos])
 	if 0 != contextLength {
+		if contextLength < 0 || contextLength > len(buf)-bufStartPos {
+			return nil, errors.New("The stream data is too long")
+		}
+
 		// read context
 		if 0 != connection.readTimeoutSec {
 			connection.conn.SetReadDeadline(time.Now().Add(time.Duration(connection.readTimeoutSec) * time.Second))
-- 
2.43.0


From 0cfcb3efe9b3eea2d08f798effca74ac828f1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:02 +0000
Subject: [PATCH 05/38] fix: packets without a body no longer swallow what
 follows

An interleaved packet of length 0 was taken for unknown data.
---
 rtpstreamprotocol.go       | 4 ++++
 tcpnetwork/tcpinterface.go | 3 ++-
 tcpnetwork/tcpnetwork.go   | 4 +++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/rtpstreamprotocol.go b/rtpstreamprotocol.go
index ca6734c..853d596 100644
--- a/rtpstreamprotocol.go
+++ b/rtpstreamprotocol.go
@@ -27,6 +27,10 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 		if nil != err {
 			return 0, nil
 		}
+		if 0 == len {
+			// no body
+			return 0, []byte{}
+		}
 		return int(len), nil
 	} else if "rtsp" == string(header[0:4]) || "RTSP" == string(header[0:4]) {
 		return 0, []byte("\r\n\r\n")
diff --git a/tcpnetwork/tcpinterface.go b/tcpnetwork/tcpinterface.go
index 237b3f9..441723e 100644
--- a/tcpnetwork/tcpinterface.go
+++ b/tcpnetwork/tcpinterface.go
@@ -6,7 +6,8 @@ type IStreamProtocol interface {
 	Init()
 	// get the header length of the stream
 	GetHeaderLength() int
-	// read the header length of the stream
+	// read the header length of the stream: the length of the body, or the bytes it ends with
+	// (empty but not nil: there is no body). 0 and nil: take whatever data there is
 	UnserializeHeader([]byte) (int, []byte)
 	// format header
 	SerializeHeader([]byte) []byte
diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 636f573..00a300f 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -329,7 +329,9 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 	// check length
 	var msg []byte
 	packetLength, strEOF := connection.streamProtocol.UnserializeHeader(headBuf)
-	if nil != strEOF {
+	if nil != strEOF && 0 == len(strEOF) {
+		// no body
+	} else if nil != strEOF {
 		curBodyPos := 0
 		// read body
 		if 0 != connection.readTimeoutSec {
-- 
2.43.0


From b123bae03b8b8e466b10edc5976ecdc217b6c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 06/38] fix: send what the Connected handler sends

The sender started only after the handler had returned: a handler that sent
more than the queue holds waited for the send timeout and lost the connection.
---
 tcpnetwork/tcpnetwork.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 00a300f..0187faa 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -220,10 +220,11 @@ func (connection *Connection) routineMain() {
 	}
 	connection.streamProtocol.Init()
 
+	go connection.routineSend()
+
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
 
-	go connection.routineSend()
 	connection.routineRead()
 }
 
-- 
2.43.0


From 557067b5d026e2674ca09e033cc799286844f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 07/38] fix: ignore RTP packets shorter than their header

---
 rtspclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index d931a87..52357f6 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -166,6 +166,9 @@ func (session *RtspClientSession) parsingData(data []byte) {
 func (session *RtspClientSession) parsingRtp(data []byte) {
 	header := data[:4]
 	rtpData := data[4:]
+	if len(rtpData) < RtpHeaderLen {
+		return
+	}
 
 	timestampBufBefore := rtpData[4:8]
 	reader := bytes.NewReader(timestampBufBefore)
-- 
2.43.0


From 46e1b422770f58de4203b46afea84defaa8a9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 08/38] fix: take the marker bit from the packet

---
 markrtpparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markrtpparser.go b/markrtpparser.go
index b2de253..79e3006 100644
--- a/markrtpparser.go
+++ b/markrtpparser.go
@@ -8,7 +8,7 @@ func (rtpParser *MarkRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 
-	mark := ((header[1] & 0x80) >> 7)
+	mark := ((src[1] & 0x80) >> 7)
 	isCompletesFrame = (mark == 1)
 
 	return isCompletesFrame, src[:RtpHeaderLen], src[RtpHeaderLen:]
-- 
2.43.0


From ae80eaefe4a5953d7ba5289bee0bd3b722fbf4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 09/38] fix: truncated fragmentation units no longer panic

---
 h264rtpparser.go | 4 ++++
 hevcrtpparser.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 0b9f486..e847358 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -37,6 +37,10 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		{
 			// For these NALUs, the first two bytes are the FU indicator and the FU header.
 			// If the start bit is set, we reconstruct the original NAL header into byte 1:
+			if len(rtpData) < 2 {
+				// truncated, nothing in it
+				return false, src, nil
+			}
 			startBit := rtpData[1] & 0x80
 			endBit := rtpData[1] & 0x40
 			if 0 != startBit {
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 4f4f104..734e89e 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -26,6 +26,10 @@ func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 			// the 2-byte DONL header.
 			// If the start bit is set, we reconstruct the original NAL header at the end of these
 			// 3 (or 5) bytes, and skip over the first 1 (or 3) bytes.
+			if len(rtpData) < 3 {
+				// truncated, nothing in it
+				return false, src, nil
+			}
 			startBit := rtpData[2] & 0x80
 			endBit := rtpData[2] & 0x40
 			if 0 != startBit {
-- 
2.43.0


From daf58d40e33a4c8c2cab36f7145dbad7ce6a99c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:48 +0000
Subject: [PATCH 10/38] fix: split H.264 and H.265 aggregation packets into
 their units

---
 h264rtpparser.go | 17 +++++++++--------
 hevcrtpparser.go |  6 +++++-
 rtpparser.go     |  2 +-
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index e847358..a742b79 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -63,37 +63,38 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-	if len(header) < RtpHeaderLen+2 {
+	if len(header) < RtpHeaderLen+1 {
 		return 0, len(payload)
 	}
 
 	naluHeader := header[RtpHeaderLen:]
-	packetNALUnitType := (naluHeader[0] & 0x7E) >> 1
+	packetNALUnitType := (naluHeader[0] & 0x1f)
 
 	switch packetNALUnitType {
 	case 24, 25: // STAP-A STAP-B
 		{
-			naluSize = int((payload[0] << 8) | naluHeader[1])
 			naluHeaderSize = 2
 		}
 		break
 	case 26: // MTAP16
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 5
 		}
 		break
 	case 27: // MTAP24
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 6
 		}
 		break
 	default:
 		{
-			naluSize = len(payload)
-			naluHeaderSize = 0
+			return 0, len(payload)
 		}
 	}
-	return naluHeaderSize, naluSize
+	if len(payload) < naluHeaderSize {
+		// truncated, nothing in it
+		return len(payload), len(payload)
+	}
+	naluSize = int(payload[0])<<8 | int(payload[1])
+	return naluHeaderSize, naluSize + naluHeaderSize
 }
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 734e89e..af8ebcc 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -69,7 +69,11 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 	case 48: // Aggregation Packet (AP)
 		{
 			// We skip over the 2-byte Payload Header, and the DONL header (if any).
-			naluSize = int((payload[0] << 8) | payload[1])
+			if len(payload) < 2 {
+				// truncated, nothing in it
+				return len(payload), len(payload)
+			}
+			naluSize = int(payload[0])<<8 | int(payload[1])
 			naluHeaderSize = 2
 		}
 		break
diff --git a/rtpparser.go b/rtpparser.go
index 572a904..51f4d34 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -31,7 +31,7 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 
 func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int) {
 	naluHeaderSize, naluSize := rtpParser.rtpSourceHandler.ParsingRtp(header, payload)
-	if naluSize > len(payload)-naluHeaderSize {
+	if naluSize > len(payload) {
 		naluSize = len(payload)
 	}
 	nalu := payload[naluHeaderSize:naluSize]
-- 
2.43.0


From adfc4d700ea3449223d75ba70ff63127c3d7b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 11/38] fix: short status lines and negative lengths no longer
 panic

---
 rtspparser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index 29404b3..87fe7be 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -45,6 +45,10 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 
 	rtspResponse := response[:rtspEndPos]
 
+	if len(rtspResponse) < len("RTSP/1.0 ")+3 {
+		return errors.New("status line too short")
+	}
+
 	// get status code
 	strStatus := string(response[len("RTSP/1.0 ") : len("RTSP/1.0 ")+3]) // skip past RTSP/1.0
 	context.Status, _ = strconv.Atoi(strStatus)
@@ -61,7 +65,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		if theKey == strings.ToUpper(sContentLenHeader) {
 			theValue = strings.Replace(theValue, " ", "", -1)
 			context.contentLength, _ = strconv.Atoi(theValue)
-			if len(response)-rtspEndPos >= context.contentLength {
+			if context.contentLength >= 0 && len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-- 
2.43.0


From efe68b6b310c3271e4a8a24d3b765e85fc4ec463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:50 +0000
Subject: [PATCH 12/38] fix: an invalid session description fails Play instead
 of ending the process

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index e06062d..2516597 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -31,14 +31,14 @@ func parsingSDPLine(strSdp string) (*sdp.Message, error) {
 	var err error
 	sdpSession, err = sdp.DecodeSession([]byte(strSdp), sdpSession)
 	if nil != err {
-		log.Fatal("sdp decode session error: ", err)
+		log.Print("sdp decode session error: ", err)
 		return nil, err
 	}
 	sdpDecoder := sdp.NewDecoder(sdpSession)
 	sdpMessage := &sdp.Message{}
 	err = sdpDecoder.Decode(sdpMessage)
 	if nil != err {
-		log.Fatal("sdp decode error: ", err)
+		log.Print("sdp decode error: ", err)
 		return nil, err
 	}
 	return sdpMessage, nil
-- 
2.43.0


From 80fd6e4e2199fba7bee170d90f11b70f0cbc7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:50 +0000
Subject: [PATCH 13/38] fix: separate format parameters at semicolons

---
 sdpparser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 2516597..f672804 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -110,14 +110,16 @@ func getFmtParame(sdpFmtp string) map[string]string {
 
 	fieldsFmtp := strings.Split(sdpFmtp, " ")
 	for _, field := range fieldsFmtp {
-		fields := strings.Split(field, " ")
+		fields := strings.Split(field, ";")
 		for _, fieldTemp := range fields {
-			fieldTemp = strings.Replace(fieldTemp, ";", "", -1)
+			if "" == fieldTemp {
+				continue
+			}
 			index := strings.Index(fieldTemp, "=")
 			if index == -1 {
 				fmtParame[fieldTemp] = ""
 			} else {
-				fmtParame[fieldTemp[:index]] = field[index+1:]
+				fmtParame[fieldTemp[:index]] = fieldTemp[index+1:]
 			}
 		}
 	}
-- 
2.43.0


From fe6a3cfdc9fa2bba08768e4a13bbf5b90e57d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 14/38] fix: take the session identifier without space and
 parameters

---
 rtspparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index 87fe7be..c042351 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -69,7 +69,8 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-			context.sessionID = theValue
+			// the identifier alone, without parameters such as the timeout
+			context.sessionID = strings.TrimSpace(strings.Split(theValue, ";")[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
 			if "Digest" == authenticateType {
-- 
2.43.0


From ea4f9e0cc7ecde8a25274cb26033dfae072aad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 15/38] fix: understand every form of authentication challenge

---
 rtspparser.go | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index c042351..72fedc9 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -2,7 +2,6 @@ package rtspclient
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 )
@@ -55,7 +54,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 
 	fields := strings.Split(string(rtspResponse), "\r\n")
 	for _, field := range fields {
-		keyValue := strings.Split(field, ":")
+		keyValue := strings.SplitN(field, ":", 2)
 		if 2 != len(keyValue) {
 			continue
 		}
@@ -73,12 +72,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			context.sessionID = strings.TrimSpace(strings.Split(theValue, ";")[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
-			if "Digest" == authenticateType {
+			if strings.EqualFold("Digest", authenticateType) {
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
 				context.digestAuthenticator.authenicatorType = AuthenticatorTypeDigest
-			} else if "Basic" == authenticateType {
+			} else if strings.EqualFold("Basic", authenticateType) {
 				context.basicAuthenticator = NewAuthenticator()
 				context.basicAuthenticator.realm = realm
 				context.basicAuthenticator.authenicatorType = AuthenticatorTypeBasic
@@ -89,12 +88,49 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 }
 
 func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
-	authenticateValue = strings.Replace(authenticateValue, "\"", " ", -1)
+	authenticateValue = strings.TrimSpace(authenticateValue)
 	var realm string
 	var nonce string
 	var stale string
 	var authenticateType string
 
-	fmt.Sscanf(authenticateValue, " %s realm= %s , nonce= %s , stale= %s ", &authenticateType, &realm, &nonce, &stale)
+	pos := strings.Index(authenticateValue, " ")
+	if -1 == pos {
+		return authenticateValue, realm, nonce, stale
+	}
+	authenticateType = authenticateValue[:pos]
+	params := authenticateValue[pos+1:]
+	for {
+		pos = strings.Index(params, "=")
+		if -1 == pos {
+			break
+		}
+		key := strings.ToLower(strings.Trim(params[:pos], " ,"))
+		params = strings.TrimLeft(params[pos+1:], " ")
+		end := ","
+		if strings.HasPrefix(params, "\"") {
+			// a quoted value may contain any separator
+			params = params[1:]
+			end = "\""
+		}
+		value := params
+		pos = strings.Index(params, end)
+		if -1 == pos {
+			params = ""
+		} else {
+			value, params = params[:pos], params[pos+1:]
+		}
+		if "," == end {
+			value = strings.TrimSpace(value)
+		}
+		switch key {
+		case "realm":
+			realm = value
+		case "nonce":
+			nonce = value
+		case "stale":
+			stale = value
+		}
+	}
 	return authenticateType, realm, nonce, stale
 }
-- 
2.43.0


From 3181c71f0ba3f0adcae7803d0563aab31baf7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 16/38] fix: forget the credentials of an earlier URL

---
 rtspclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 52357f6..ed4e45a 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -310,6 +310,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.address += ":554"
 	}
 
+	session.username = ""
+	session.password = ""
 	if nil != urlInfo.User {
 		session.username = urlInfo.User.Username()
 		session.password, _ = urlInfo.User.Password()
-- 
2.43.0


From 46f2de5df00af159229c7d6d530771473762f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 17/38] fix: name the session in every request

---
 rtspclient.go  | 6 ++++--
 rtsprequest.go | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index ed4e45a..fec2450 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -221,6 +221,7 @@ func (session *RtspClientSession) sendRequest() error {
 
 	session.sdpInfo = nil
 	session.rtspContext.authenicator = nil
+	session.rtspContext.sessionID = ""
 
 	session.SendDescribe()
 
@@ -255,7 +256,6 @@ func (session *RtspClientSession) sendRequest() error {
 		return errors.New("parse sdp error")
 	}
 
-	session.rtspContext.sessionID = ""
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
 		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
@@ -280,7 +280,9 @@ func (session *RtspClientSession) sendRequest() error {
 		if 200 != response.Status {
 			return errors.New("response error: " + strconv.Itoa(response.Status))
 		}
-		session.rtspContext.sessionID = response.sessionID
+		if "" != response.sessionID {
+			session.rtspContext.sessionID = response.sessionID
+		}
 	}
 
 	session.SendPlay(0, 1)
diff --git a/rtsprequest.go b/rtsprequest.go
index 76bf801..a2d6a46 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -137,7 +137,8 @@ func (session *RtspClientSession) SendTeardown() error {
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
+		"Session: %s\r\n" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
-- 
2.43.0


From ec61316355d32ed0c13937cb529485253e61c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 18/38] fix: send the start time with the speed, authorize
 PAUSE

---
 rtsprequest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index a2d6a46..791823f 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -90,6 +90,9 @@ func (session *RtspClientSession) SendPause() error {
 		"Session: %s\r\n" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
+	if nil != session.rtspContext.authenicator {
+		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
+	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
 	return nil
@@ -107,7 +110,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strStartTime string
 	if inStartTimeSec != 0 {
-		strSpeed = fmt.Sprintf("Range: npt=%d.0-\r\n", float32(inStartTimeSec))
+		strStartTime = fmt.Sprintf("Range: npt=%d.0-\r\n", inStartTimeSec)
 	}
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
-- 
2.43.0


From 30706a9159c978db20abec07129e99778a35a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 19/38] fix: make the WebSocket transport work and report its
 errors

---
 rtspclient.go    |  7 +++++--
 websocketconn.go | 39 +++++++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index fec2450..b53203f 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -342,6 +342,10 @@ func (session *RtspClientSession) Close() {
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
+	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+		return errors.New("session is connected")
+	}
+
 	urlError := session.ParsingURL(rtspURL)
 	if nil != urlError {
 		return errors.New("url parse error: " + rtspURL)
@@ -356,8 +360,7 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 	conn := &WebsocketConn{conn: websocketConn}
 
-	session.SetConnection(conn)
-	return nil
+	return session.SetConnection(conn)
 }
 
 func (session *RtspClientSession) Play(rtspURL string) error {
diff --git a/websocketconn.go b/websocketconn.go
index fd1586a..4c1520c 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -7,17 +7,27 @@ import (
 	"github.com/gorilla/websocket"
 )
 
+const (
+	// time allowed for the close message
+	websocketCloseTimeout = time.Second
+)
+
 type WebsocketConn struct {
-	conn *websocket.Conn
+	conn    *websocket.Conn
+	message []byte // what of the last message has not been read yet
 }
 
 func (conn *WebsocketConn) Read(b []byte) (int, error) {
-	_, message, err := conn.conn.ReadMessage()
-	if nil != err {
-		return 0, err
+	for 0 == len(conn.message) {
+		_, message, err := conn.conn.ReadMessage()
+		if nil != err {
+			return 0, err
+		}
+		conn.message = message
 	}
-	copy(b[:len(message)], message)
-	return len(message), nil
+	readLen := copy(b, conn.message)
+	conn.message = conn.message[readLen:]
+	return readLen, nil
 }
 
 func (conn *WebsocketConn) Write(b []byte) (int, error) {
@@ -29,25 +39,30 @@ func (conn *WebsocketConn) Write(b []byte) (int, error) {
 }
 
 func (conn *WebsocketConn) Close() error {
-	return conn.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+	conn.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(websocketCloseTimeout))
+	return conn.conn.Close()
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-	return conn.LocalAddr()
+	return conn.conn.LocalAddr()
 }
 
 func (conn *WebsocketConn) RemoteAddr() net.Addr {
-	return conn.RemoteAddr()
+	return conn.conn.RemoteAddr()
 }
 
 func (conn *WebsocketConn) SetDeadline(t time.Time) error {
-	return conn.SetDeadline(t)
+	err := conn.conn.SetReadDeadline(t)
+	if nil != err {
+		return err
+	}
+	return conn.conn.SetWriteDeadline(t)
 }
 
 func (conn *WebsocketConn) SetReadDeadline(t time.Time) error {
-	return conn.SetReadDeadline(t)
+	return conn.conn.SetReadDeadline(t)
 }
 
 func (conn *WebsocketConn) SetWriteDeadline(t time.Time) error {
-	return conn.SetWriteDeadline(t)
+	return conn.conn.SetWriteDeadline(t)
 }
-- 
2.43.0


From 2dcb35c8b89deb6b587ad51f0e337d25832c9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 20/38] fix: keep the state of a connection with that
 connection

Queues, channel parsers and the outstanding request belong to one
connection and are guarded by a lock; responses nobody waits for are
dropped, a timed out wait ends its connection, and Close works at any
moment, sends TEARDOWN at most once and also ends a Play in progress.
---
 rtspclient.go  | 251 ++++++++++++++++++++++++++++++++++---------------
 rtspparser.go  |   6 ++
 rtsprequest.go |  56 ++++++++---
 3 files changed, 225 insertions(+), 88 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index b53203f..0ef17b6 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -9,6 +9,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -66,63 +67,55 @@ func (session *RtspClientSession) sendEvent(eventType int, data []byte) {
 }
 
 type RtspClientSession struct {
-	username           string
-	password           string
-	address            string
-	rtspRequestInitial bool
-	timeoutSec         int
-	rtspContext        *RtspClientContext
-	dataHandle         func(*RtspData)
-	eventHandle        func(*RtspEvent)
-	rtpProtocol        *RTPStreamProtocol
+	username    string
+	password    string
+	address     string
+	timeoutSec  int
+	rtspContext *RtspClientContext
+	dataHandle  func(*RtspData)
+	eventHandle func(*RtspEvent)
+	rtpProtocol *RTPStreamProtocol
+	link        *rtspLink
+	closeCount  int        // calls of Close so far
+	lock        sync.Mutex // guards the link, the request state and the context, not held in callbacks
+	sdpInfo     *SDPInfo
+	RtpMediaMap map[int]MediaSubsession
+}
+
+// rtspLink is what belongs to one connection of a session
+type rtspLink struct {
 	tcpConn            *tcpnetwork.Connection
 	eventQueue         chan *tcpnetwork.ConnEvent
 	rtspResponseQueue  chan *RtspResponseContext
+	rtspRequestInitial bool // no request is waiting for its response
+	cseq               int  // of the last request
+	teardown           bool // TEARDOWN has been sent
 	rtpChannelMap      map[int]*RtpParser
-	sdpInfo            *SDPInfo
-	RtpMediaMap        map[int]MediaSubsession
 }
 
 func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEvent)) *RtspClientSession {
 	return &RtspClientSession{
-		dataHandle:         rtpHandler,
-		eventHandle:        eventHandler,
-		eventQueue:         make(chan *tcpnetwork.ConnEvent),
-		rtspResponseQueue:  make(chan *RtspResponseContext),
-		rtpProtocol:        &RTPStreamProtocol{},
-		rtspContext:        NewRtspClientContext(),
-		rtspRequestInitial: true,
-		timeoutSec:         2,
-		rtpChannelMap:      make(map[int]*RtpParser),
-		RtpMediaMap:        make(map[int]MediaSubsession),
+		dataHandle:  rtpHandler,
+		eventHandle: eventHandler,
+		rtpProtocol: &RTPStreamProtocol{},
+		rtspContext: NewRtspClientContext(),
+		timeoutSec:  2,
+		RtpMediaMap: make(map[int]MediaSubsession),
 	}
 }
 
-func (session *RtspClientSession) pushConnEvent(event *tcpnetwork.ConnEvent) {
-	if nil == session.eventQueue {
-		return
-	}
-	session.eventQueue <- event
+func (link *rtspLink) pushConnEvent(event *tcpnetwork.ConnEvent) {
+	link.eventQueue <- event
 }
 
-func (session *RtspClientSession) HandleConn() {
-	defer func() {
-		close(session.eventQueue)
-		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
-		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext)
-	}()
+func (session *RtspClientSession) handleConn(link *rtspLink) {
+	defer close(link.rtspResponseQueue)
 	for {
-		event, ok := <-session.eventQueue
+		event, ok := <-link.eventQueue
 		if !ok {
 			// channel closed, quit
 			return
 		}
-		if nil == event {
-			// channel closed, quit
-			event.Conn.Close()
-			return
-		}
 		switch event.EventType {
 		case tcpnetwork.ConnEventConnected:
 			{
@@ -138,7 +131,7 @@ func (session *RtspClientSession) HandleConn() {
 		case tcpnetwork.ConnEventData:
 			{
 				if event.Data != nil {
-					session.parsingData(event.Data)
+					session.parsingData(link, event.Data)
 				}
 			}
 			break
@@ -154,16 +147,16 @@ func (session *RtspClientSession) HandleConn() {
 	}
 }
 
-func (session *RtspClientSession) parsingData(data []byte) {
+func (session *RtspClientSession) parsingData(link *rtspLink, data []byte) {
 	headerData := data[:4]
 	if headerData[0] == '$' {
-		session.parsingRtp(data)
+		session.parsingRtp(link, data)
 	} else if string(headerData[:4]) == "RTSP" || string(headerData[:4]) == "rtsp" {
-		session.parsingRtsp(data)
+		session.parsingRtsp(link, data)
 	}
 }
 
-func (session *RtspClientSession) parsingRtp(data []byte) {
+func (session *RtspClientSession) parsingRtp(link *rtspLink, data []byte) {
 	header := data[:4]
 	rtpData := data[4:]
 	if len(rtpData) < RtpHeaderLen {
@@ -180,7 +173,9 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 
 	// rtp data
 	channelNum := int(header[1])
-	rtpParser, ok := session.rtpChannelMap[channelNum]
+	session.lock.Lock()
+	rtpParser, ok := link.rtpChannelMap[channelNum]
+	session.lock.Unlock()
 	if ok {
 		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
@@ -194,18 +189,32 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	}
 }
 
-func (session *RtspClientSession) parsingRtsp(data []byte) {
+func (session *RtspClientSession) parsingRtsp(link *rtspLink, data []byte) {
 	log.Print(string(data))
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
 	if nil != err {
-		session.rtspResponseQueue <- nil
+		rtspResponseContext = nil
+	}
+
+	session.lock.Lock()
+	defer session.lock.Unlock()
+	if link.rtspRequestInitial {
+		// nobody asked
 		return
 	}
-	session.rtspResponseQueue <- rtspResponseContext
+	if nil != rtspResponseContext && rtspResponseContext.hasCseq && rtspResponseContext.cseq != link.cseq {
+		// the response to another request
+		return
+	}
+	select {
+	case link.rtspResponseQueue <- rtspResponseContext:
+	default:
+		// the response has already arrived
+	}
 }
 
-func (session *RtspClientSession) sendRequest() error {
+func (session *RtspClientSession) sendRequest(link *rtspLink) error {
 	var response *RtspResponseContext
 	var errorInfo error
 
@@ -220,16 +229,22 @@ func (session *RtspClientSession) sendRequest() error {
 	}()
 
 	session.sdpInfo = nil
+	session.lock.Lock()
 	session.rtspContext.authenicator = nil
 	session.rtspContext.sessionID = ""
+	session.lock.Unlock()
 
-	session.SendDescribe()
+	errorInfo = session.SendDescribe()
+	if nil != errorInfo {
+		return errorInfo
+	}
 
-	response, errorInfo = session.WaitRtspResponse()
+	response, errorInfo = session.waitRtspResponse(link)
 	if nil != errorInfo {
 		return errorInfo
 	}
 	if 401 == response.Status && session.username != "" && session.password != "" {
+		session.lock.Lock()
 		if nil != response.digestAuthenticator {
 			session.rtspContext.authenicator = response.digestAuthenticator
 		} else if nil != response.basicAuthenticator {
@@ -239,9 +254,13 @@ func (session *RtspClientSession) sendRequest() error {
 			session.rtspContext.authenicator.username = session.username
 			session.rtspContext.authenicator.password = session.password
 		}
+		session.lock.Unlock()
 
-		session.SendDescribe()
-		response, errorInfo = session.WaitRtspResponse()
+		errorInfo = session.SendDescribe()
+		if nil != errorInfo {
+			return errorInfo
+		}
+		response, errorInfo = session.waitRtspResponse(link)
 		if nil != errorInfo {
 			return errorInfo
 		}
@@ -256,6 +275,12 @@ func (session *RtspClientSession) sendRequest() error {
 		return errors.New("parse sdp error")
 	}
 
+	rtpMediaMap := make(map[int]MediaSubsession)
+	for index, media := range session.sdpInfo.Medias {
+		rtpMediaMap[index*2] = media
+	}
+	session.RtpMediaMap = rtpMediaMap
+
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
 		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
@@ -269,11 +294,16 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 		rtpIndex := index * 2
 		rtcpIndex := index*2 + 1
-		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
-		session.RtpMediaMap[rtpIndex] = media
-		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
+		rtpParser := newRtpParser(media.CodecName)
+		session.lock.Lock()
+		link.rtpChannelMap[rtpIndex] = rtpParser
+		session.lock.Unlock()
+		errorInfo = session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
+		if nil != errorInfo {
+			return errorInfo
+		}
 
-		response, errorInfo = session.WaitRtspResponse()
+		response, errorInfo = session.waitRtspResponse(link)
 		if nil != errorInfo {
 			return errorInfo
 		}
@@ -281,12 +311,17 @@ func (session *RtspClientSession) sendRequest() error {
 			return errors.New("response error: " + strconv.Itoa(response.Status))
 		}
 		if "" != response.sessionID {
+			session.lock.Lock()
 			session.rtspContext.sessionID = response.sessionID
+			session.lock.Unlock()
 		}
 	}
 
-	session.SendPlay(0, 1)
-	response, errorInfo = session.WaitRtspResponse()
+	errorInfo = session.SendPlay(0, 1)
+	if nil != errorInfo {
+		return errorInfo
+	}
+	response, errorInfo = session.waitRtspResponse(link)
 	if nil != errorInfo {
 		return errorInfo
 	}
@@ -304,6 +339,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		return errors.New("url parse error: " + rtspURL)
 	}
 
+	session.lock.Lock()
+	defer session.lock.Unlock()
 	if "" != urlInfo.RawQuery {
 		session.rtspContext.rtspURL += ("?" + urlInfo.RawQuery)
 	}
@@ -325,24 +362,76 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 }
 
 func (session *RtspClientSession) SetConnection(conn net.Conn) error {
-	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.pushConnEvent)
-	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
-	session.tcpConn.Run()
-	go session.HandleConn()
+	return session.setConnection(conn, session.getCloseCount())
+}
+
+// closeCount is the number of Close calls when the connection was asked for
+func (session *RtspClientSession) setConnection(conn net.Conn, closeCount int) error {
+	link := &rtspLink{
+		eventQueue:         make(chan *tcpnetwork.ConnEvent),
+		rtspResponseQueue:  make(chan *RtspResponseContext, 1),
+		rtspRequestInitial: true,
+		rtpChannelMap:      make(map[int]*RtpParser),
+	}
+	link.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, link.pushConnEvent)
+	link.tcpConn.SetStreamProtocol(session.rtpProtocol)
+
+	session.lock.Lock()
+	session.link = link
+	link.tcpConn.Run()
+	closed := closeCount != session.closeCount
+	session.lock.Unlock()
+	go session.handleConn(link)
+
+	if closed {
+		// Close was called while connecting
+		link.tcpConn.Close()
+		session.sendEvent(RtspEventRequestError, nil)
+		return errors.New("session is closed")
+	}
+	return session.sendRequest(link)
+}
+
+func (session *RtspClientSession) getCloseCount() int {
+	session.lock.Lock()
+	defer session.lock.Unlock()
+	return session.closeCount
+}
 
-	return session.sendRequest()
+func (session *RtspClientSession) getLink() *rtspLink {
+	session.lock.Lock()
+	defer session.lock.Unlock()
+	return session.link
+}
+
+func (session *RtspClientSession) isConnected() bool {
+	link := session.getLink()
+	return nil != link && tcpnetwork.ConnStatusConnected == link.tcpConn.GetStatus()
 }
 
 func (session *RtspClientSession) Close() {
-	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
-		session.SendTeardown()
-		session.WaitRtspResponse()
+	session.lock.Lock()
+	session.closeCount++
+	link := session.link
+	if nil == link {
+		session.lock.Unlock()
+		return
+	}
+	waitResponse := false
+	if link.tcpConn.GetStatus() == tcpnetwork.ConnStatusConnected && !link.teardown {
+		waitResponse = nil == session.sendTeardown()
 	}
-	session.tcpConn.Close()
+	session.lock.Unlock()
+
+	if waitResponse {
+		session.waitRtspResponse(link)
+	}
+	link.tcpConn.Close()
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
-	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+	closeCount := session.getCloseCount()
+	if session.isConnected() {
 		return errors.New("session is connected")
 	}
 
@@ -360,12 +449,12 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 	conn := &WebsocketConn{conn: websocketConn}
 
-	return session.SetConnection(conn)
+	return session.setConnection(conn, closeCount)
 }
 
 func (session *RtspClientSession) Play(rtspURL string) error {
-
-	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+	closeCount := session.getCloseCount()
+	if session.isConnected() {
 		return errors.New("session is connected")
 	}
 
@@ -383,16 +472,26 @@ func (session *RtspClientSession) Play(rtspURL string) error {
 		return errors.New("connect " + session.address + "")
 	}
 
-	return session.SetConnection(conn)
+	return session.setConnection(conn, closeCount)
 }
 
 func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, error) {
+	link := session.getLink()
+	if nil == link {
+		return nil, errors.New("session is not connected")
+	}
+	return session.waitRtspResponse(link)
+}
+
+func (session *RtspClientSession) waitRtspResponse(link *rtspLink) (*RtspResponseContext, error) {
 	defer func() {
-		session.rtspRequestInitial = true
+		session.lock.Lock()
+		link.rtspRequestInitial = true
+		session.lock.Unlock()
 	}()
 
 	select {
-	case response, ok := <-session.rtspResponseQueue:
+	case response, ok := <-link.rtspResponseQueue:
 		{
 			if !ok {
 				return nil, errors.New("rtsp connection disconnect")
@@ -404,7 +503,7 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.Close()
+			link.tcpConn.Close()
 			return nil, errors.New("recv response time out")
 		}
 	}
diff --git a/rtspparser.go b/rtspparser.go
index 72fedc9..0ada0a4 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -11,12 +11,15 @@ type RtspResponseContext struct {
 	contentLength       int
 	content             string
 	sessionID           string
+	hasCseq             bool
+	cseq                int
 	basicAuthenticator  *Authenticator
 	digestAuthenticator *Authenticator
 }
 
 const (
 	sSessionHeader      = "Session"
+	sCseqHeader         = "CSeq"
 	sContentLenHeader   = "Content-length"
 	sTransportHeader    = "Transport"
 	sRTPInfoHeader      = "RTP-Info"
@@ -67,6 +70,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			if context.contentLength >= 0 && len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
+		} else if theKey == strings.ToUpper(sCseqHeader) {
+			cseq, err := strconv.Atoi(strings.TrimSpace(theValue))
+			context.cseq, context.hasCseq = cseq, nil == err
 		} else if theKey == strings.ToUpper(sSessionHeader) {
 			// the identifier alone, without parameters such as the timeout
 			context.sessionID = strings.TrimSpace(strings.Split(theValue, ";")[0])
diff --git a/rtsprequest.go b/rtsprequest.go
index 791823f..c8a9c1f 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -29,16 +29,35 @@ func NewRtspClientContext() *RtspClientContext {
 	}
 }
 
+// canRequest tells whether a request may be sent, session.lock is held
+func (session *RtspClientSession) canRequest() error {
+	if nil == session.link {
+		return errors.New("session is not connected")
+	}
+	if !session.link.rtspRequestInitial {
+		return errors.New("waiting last request Reply")
+	}
+	return nil
+}
+
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
-	session.rtspRequestInitial = false
-	session.tcpConn.Send([]byte(request), false)
+	session.link.rtspRequestInitial = false
+	session.link.cseq = session.rtspContext.cseq
+	select {
+	case <-session.link.rtspResponseQueue:
+		// not a response to this request
+	default:
+	}
+	session.link.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
 }
 
 func (session *RtspClientSession) SendDescribe() error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	session.lock.Lock()
+	defer session.lock.Unlock()
+	if errorInfo := session.canRequest(); nil != errorInfo {
+		return errorInfo
 	}
 	request := fmt.Sprintf(("DESCRIBE %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
@@ -57,8 +76,10 @@ func (session *RtspClientSession) SendDescribe() error {
 }
 
 func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid int, inClientRTCPid int) error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	session.lock.Lock()
+	defer session.lock.Unlock()
+	if errorInfo := session.canRequest(); nil != errorInfo {
+		return errorInfo
 	}
 
 	request := fmt.Sprintf(("SETUP %s RTSP/1.0\r\n" +
@@ -81,8 +102,10 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 }
 
 func (session *RtspClientSession) SendPause() error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	session.lock.Lock()
+	defer session.lock.Unlock()
+	if errorInfo := session.canRequest(); nil != errorInfo {
+		return errorInfo
 	}
 
 	request := fmt.Sprintf(("PAUSE %s RTSP/1.0\r\n" +
@@ -99,8 +122,10 @@ func (session *RtspClientSession) SendPause() error {
 }
 
 func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	session.lock.Lock()
+	defer session.lock.Unlock()
+	if errorInfo := session.canRequest(); nil != errorInfo {
+		return errorInfo
 	}
 
 	var strSpeed string
@@ -134,8 +159,14 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 }
 
 func (session *RtspClientSession) SendTeardown() error {
-	if !session.rtspRequestInitial {
-		return errors.New("waiting last request Reply")
+	session.lock.Lock()
+	defer session.lock.Unlock()
+	return session.sendTeardown()
+}
+
+func (session *RtspClientSession) sendTeardown() error {
+	if errorInfo := session.canRequest(); nil != errorInfo {
+		return errorInfo
 	}
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
@@ -148,6 +179,7 @@ func (session *RtspClientSession) SendTeardown() error {
 	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
+	session.link.teardown = true
 
 	return nil
 }
-- 
2.43.0


From 79c972185ae6f2308f5a2fec37c7d586d7b38c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 21/38] fix: name the session in DESCRIBE as well

---
 rtsprequest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtsprequest.go b/rtsprequest.go
index c8a9c1f..ff6f9a0 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -64,6 +64,9 @@ func (session *RtspClientSession) SendDescribe() error {
 		"Accept: application/sdp\r\n" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
 
+	if "" != session.rtspContext.sessionID {
+		request += fmt.Sprintf("Session: %s\r\n", session.rtspContext.sessionID)
+	}
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
 	}
-- 
2.43.0


From c9065b30ce50a8badf90ec2a5c1e4471c8ed926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 22/38] fix: truncated STAP-B and MTAP packets no longer panic

---
 h264rtpparser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index a742b79..e7080b3 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -29,6 +29,10 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		break
 	case 25, 26, 27: // STAP-B MTAP16 MTAP24
 		{
+			if len(rtpData) < 3 {
+				// truncated, nothing in it
+				return false, src, nil
+			}
 			skipHeaderLen = 3
 			isCompletesFrame = true
 		}
-- 
2.43.0


From aad505f2c64054564dfe9ecf602a256d4fb97da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 23/38] fix: codec names are case-insensitive

---
 rtpparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtpparser.go b/rtpparser.go
index 51f4d34..c132fd4 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -2,6 +2,7 @@ package rtspclient
 
 import (
 	"log"
+	"strings"
 )
 
 const (
@@ -62,7 +63,8 @@ func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int
 }
 
 func getRTPSourceHandler(codecName string) IRtpParseInterface {
-	switch codecName {
+	// the names are case-insensitive
+	switch strings.ToUpper(codecName) {
 	case "H264":
 		{
 			return &H264RtpParser{}
@@ -71,7 +73,7 @@ func getRTPSourceHandler(codecName string) IRtpParseInterface {
 		{
 			return &HevcRtpParser{}
 		}
-	case "bbw":
+	case "BBW":
 		{
 			return &MarkRtpParser{}
 		}
-- 
2.43.0


From 42ccef421cc6e0ff2aebb4b062b922cfa124bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 24/38] fix: describe the first of several payload formats of a
 media

---
 sdpparser.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index f672804..3670f13 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -59,10 +59,12 @@ func parsingSDP(sdp string) *SDPInfo {
 
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(meidaInfo.Description.Format)
+		// the first format is the one in use
+		strFormat := strings.SplitN(strings.TrimSpace(meidaInfo.Description.Format), " ", 2)[0]
+		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(strFormat)
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
-			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
+			sdpRtpmap := getFormatAttribute(meidaInfo.Attributes.Values("rtpmap"), strFormat)
 			if "" != sdpRtpmap {
 				codecName, timestampFrequency, channels = getPayloadInfoForRtpmap(sdpRtpmap)
 			}
@@ -88,7 +90,7 @@ func parsingSDP(sdp string) *SDPInfo {
 			sdpInfo.Medias[index].VideoFramerate = getFramerateForFramerate(sdpFramerate)
 		}
 
-		sdpFmtp := meidaInfo.Attributes.Value("fmtp")
+		sdpFmtp := getFormatAttribute(meidaInfo.Attributes.Values("fmtp"), strFormat)
 		if "" != sdpFmtp {
 			sdpInfo.Medias[index].Fmtp = getFmtParame(sdpFmtp)
 			log.Print(sdpFmtp)
@@ -99,6 +101,19 @@ func parsingSDP(sdp string) *SDPInfo {
 	return sdpInfo
 }
 
+// getFormatAttribute returns the value that describes the format, the first one if none does
+func getFormatAttribute(values []string, strFormat string) string {
+	for _, value := range values {
+		if strings.HasPrefix(value, strFormat+" ") {
+			return value
+		}
+	}
+	if len(values) > 0 {
+		return values[0]
+	}
+	return ""
+}
+
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
 	framerate, _ := strconv.Atoi(sdpFramerate)
-- 
2.43.0


From 4f5bea5f1e71df1daad07b00faf4f86ec91f3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 25/38] fix: frame rates may have a leading space and decimals

---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 3670f13..8a1a8a9 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -116,8 +116,8 @@ func getFormatAttribute(values []string, strFormat string) string {
 
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
-	framerate, _ := strconv.Atoi(sdpFramerate)
-	return framerate
+	framerate, _ := strconv.ParseFloat(strings.TrimSpace(sdpFramerate), 32)
+	return int(framerate)
 }
 
 func getFmtParame(sdpFmtp string) map[string]string {
-- 
2.43.0


From 7d52d3c1a8e060ed2daaac5eb5759dcb74b70352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 26/38] fix: send no empty Session header before the server has
 assigned an identifier

---
 rtsprequest.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index ff6f9a0..3e5f1f6 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -40,6 +40,14 @@ func (session *RtspClientSession) canRequest() error {
 	return nil
 }
 
+// sessionHeader returns the line that names the session, none before the server has assigned an identifier
+func (session *RtspClientSession) sessionHeader() string {
+	if "" == session.rtspContext.sessionID {
+		return ""
+	}
+	return fmt.Sprintf("Session: %s\r\n", session.rtspContext.sessionID)
+}
+
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
 	session.link.rtspRequestInitial = false
@@ -64,9 +72,7 @@ func (session *RtspClientSession) SendDescribe() error {
 		"Accept: application/sdp\r\n" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
 
-	if "" != session.rtspContext.sessionID {
-		request += fmt.Sprintf("Session: %s\r\n", session.rtspContext.sessionID)
-	}
+	request += session.sessionHeader()
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
 	}
@@ -87,10 +93,10 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 
 	request := fmt.Sprintf(("SETUP %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d\r\n" +
 		"%s" +
-		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.rtspContext.sessionID, inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.sessionHeader(), inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -113,8 +119,8 @@ func (session *RtspClientSession) SendPause() error {
 
 	request := fmt.Sprintf(("PAUSE %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
@@ -143,11 +149,11 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"%s" +
 		"%s" +
 		"x-prebuffer: maxtime=3.0\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, strStartTime, strSpeed, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), strStartTime, strSpeed, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -174,8 +180,8 @@ func (session *RtspClientSession) sendTeardown() error {
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
-- 
2.43.0


From 10296ff97de5f235dc88b7740fb598800aac003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 27/38] fix: use the default port for an IPv6 address without a
 port

---
 rtspclient.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 0ef17b6..b86b1b3 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -345,8 +345,8 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		session.rtspContext.rtspURL += ("?" + urlInfo.RawQuery)
 	}
 	session.address = urlInfo.Host
-	if !strings.Contains(session.address, ":") {
-		session.address += ":554"
+	if "" == urlInfo.Port() {
+		session.address = net.JoinHostPort(urlInfo.Hostname(), "554")
 	}
 
 	session.username = ""
-- 
2.43.0


From 63506e191aeaf8d861b0dd6a73ae633a9a415a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 28/38] fix: forget the medias of the last play when a new one
 begins

---
 rtspclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtspclient.go b/rtspclient.go
index b86b1b3..00dde88 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -229,6 +229,7 @@ func (session *RtspClientSession) sendRequest(link *rtspLink) error {
 	}()
 
 	session.sdpInfo = nil
+	session.RtpMediaMap = make(map[int]MediaSubsession)
 	session.lock.Lock()
 	session.rtspContext.authenicator = nil
 	session.rtspContext.sessionID = ""
-- 
2.43.0


From 6bc8de3ebc969e47105697dc086af2ed85cd2664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 29/38] fix: accept a tab before the value of Content-Length

---
 rtspparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index 0ada0a4..ee065ce 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -65,7 +65,7 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		theKey = strings.Replace(theKey, " ", "", -1)
 		theValue := keyValue[1]
 		if theKey == strings.ToUpper(sContentLenHeader) {
-			theValue = strings.Replace(theValue, " ", "", -1)
+			theValue = strings.TrimSpace(theValue)
 			context.contentLength, _ = strconv.Atoi(theValue)
 			if context.contentLength >= 0 && len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
-- 
2.43.0


From 6a57296ae993a85a7322d6ffa7b2f0cf617f1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 30/38] fix: keep RTP contributing sources, extensions and
 padding out of the media

---
 rtpparser.go  | 27 +++++++++++++++++++++++++++
 rtspclient.go |  2 +-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/rtpparser.go b/rtpparser.go
index c132fd4..46203e0 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -1,6 +1,7 @@
 package rtspclient
 
 import (
+	"encoding/binary"
 	"log"
 	"strings"
 )
@@ -24,6 +25,32 @@ func newRtpParser(codecName string) *RtpParser {
 	}
 }
 
+// stripRtpPacket removes contributing sources, header extension and padding, so
+// that the payload alone follows the fixed header, nil if the packet is malformed
+func stripRtpPacket(packet []byte) []byte {
+	if len(packet) < RtpHeaderLen {
+		return nil
+	}
+	start := RtpHeaderLen + 4*int(packet[0]&0x0f)
+	if 0 != packet[0]&0x10 {
+		if len(packet) < start+4 {
+			return nil
+		}
+		start += 4 + 4*int(binary.BigEndian.Uint16(packet[start+2:start+4]))
+	}
+	end := len(packet)
+	if 0 != packet[0]&0x20 {
+		end -= int(packet[end-1])
+	}
+	if start > end {
+		return nil
+	}
+	if start > RtpHeaderLen {
+		copy(packet[start-RtpHeaderLen:start], packet[:RtpHeaderLen])
+	}
+	return packet[start-RtpHeaderLen : end]
+}
+
 func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 	var header, payload []byte
 	rtpParser.isMarkFrame, header, payload = rtpParser.rtpSourceHandler.SplitHeader(src)
diff --git a/rtspclient.go b/rtspclient.go
index 00dde88..191be2f 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -158,7 +158,7 @@ func (session *RtspClientSession) parsingData(link *rtspLink, data []byte) {
 
 func (session *RtspClientSession) parsingRtp(link *rtspLink, data []byte) {
 	header := data[:4]
-	rtpData := data[4:]
+	rtpData := stripRtpPacket(data[4:])
 	if len(rtpData) < RtpHeaderLen {
 		return
 	}
-- 
2.43.0


From bef53969c397b7bfdf4eac5dc7ff227d4e206971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 31/38] fix: name the right track for URLs ending in a slash
 and for the aggregate control

---
 rtspclient.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 191be2f..fa5e6fb 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -214,6 +214,17 @@ func (session *RtspClientSession) parsingRtsp(link *rtspLink, data []byte) {
 	}
 }
 
+// trackURL returns the URL of a control attribute that is relative
+func trackURL(rtspURL string, control string) string {
+	if "" == control || "*" == control {
+		return rtspURL
+	}
+	if !strings.HasSuffix(rtspURL, "/") {
+		rtspURL += "/"
+	}
+	return rtspURL + control
+}
+
 func (session *RtspClientSession) sendRequest(link *rtspLink) error {
 	var response *RtspResponseContext
 	var errorInfo error
@@ -291,7 +302,7 @@ func (session *RtspClientSession) sendRequest(link *rtspLink) error {
 			// } else {
 			// 	strTrackURL = session.rtspContext.rtspURL + "/" + strTrackURL
 			// }
-			strTrackURL = session.rtspContext.rtspURL + "/" + strTrackURL
+			strTrackURL = trackURL(session.rtspContext.rtspURL, strTrackURL)
 		}
 		rtpIndex := index * 2
 		rtcpIndex := index*2 + 1
-- 
2.43.0


From 0b677bca43b8257526a04eb3df267a3af9ed74f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 32/38] fix: accept every bandwidth modifier in a session
 description

---
 sdp/decoder.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7d48944..8b02546 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -677,14 +677,7 @@ func (d *Decoder) decodeBandwidth(m *Message) error {
 		t BandwidthType
 		n int
 	)
-	switch bandWidthType := BandwidthType(k); bandWidthType {
-	case BandwidthApplicationSpecific, BandwidthConferenceTotal:
-		t = bandWidthType
-	default:
-		msg := fmt.Sprintf("bad bandwidth type %s", k)
-		err = newSectionDecodeError(d.section, msg)
-		return errors.Wrap(err, "failed to decode bandwidth")
-	}
+	t = BandwidthType(k) // any: modifiers a receiver does not know are no error
 	if n, err = strconv.Atoi(v); err != nil {
 		return errors.Wrap(err, "failed to convert decode bandwidth")
 	}
-- 
2.43.0


From 45b7516fa4eb88c258ff414552c1281ed4578fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 33/38] fix: accept an address count after an IPv6 address in a
 session description

---
 sdp/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 8b02546..662be1c 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -641,16 +641,16 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		if isV4 {
 			switch d.section {
 			case sectionMedia:
-				m.Connection.TTL, err = decodeByte(first)
+				d.m.Connection.TTL, err = decodeByte(first)
 			case sectionSession:
 				m.Connection.TTL, err = decodeByte(first)
 			}
 		} else {
 			switch d.section {
 			case sectionMedia:
-				d.m.Connection.Addresses, err = decodeByte(second)
+				d.m.Connection.Addresses, err = decodeByte(first)
 			case sectionSession:
-				m.Connection.Addresses, err = decodeByte(second)
+				m.Connection.Addresses, err = decodeByte(first)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From 22081d94d7a634607d6fd8c0559095a7f573690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 34/38] fix: accept 64-bit NTP timestamps as the identifiers of
 an origin

---
 sdp/decoder.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 662be1c..cc183be 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -748,6 +748,17 @@ func decodeInt(v []byte, i *int) error {
 	return err
 }
 
+// decodeID decodes the numeric identifiers of an origin, which may be 64-bit
+// NTP timestamps.
+func decodeID(v []byte, i *int) error {
+	if err := decodeInt(v, i); err == nil {
+		return nil
+	}
+	n, err := strconv.ParseUint(b2s(v), 10, 64)
+	*i = int(n)
+	return err
+}
+
 func (d *Decoder) subfields() ([][]byte, error) {
 	n := bytes.Count(d.v, []byte{fieldsDelimiter})
 	result := make([][]byte, n+1)
@@ -793,10 +804,10 @@ func (d *Decoder) decodeOrigin(m *Message) error {
 	if err = decodeString(p[0], &o.Username); err != nil {
 		return errors.Wrap(err, "failed to decode username")
 	}
-	if err = decodeInt(p[1], &o.SessionID); err != nil {
+	if err = decodeID(p[1], &o.SessionID); err != nil {
 		return errors.Wrap(err, "failed to decode sess-id")
 	}
-	if err = decodeInt(p[2], &o.SessionVersion); err != nil {
+	if err = decodeID(p[2], &o.SessionVersion); err != nil {
 		return errors.Wrap(err, "failed to decode sess-version")
 	}
 	if err = decodeString(p[3], &o.NetworkType); err != nil {
-- 
2.43.0


From e4a4b8a5558c009c84da1e9f455f7a41daa8b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 35/38] fix: accept several times, and zones after them, in a
 session description

---
 sdp/decoder.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index cc183be..32a87c9 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -289,7 +289,11 @@ func isExpected(t Type, s section, pos int) error {
 			return nil
 		}
 	case sectionTime:
-		if isExpected(t, sectionSession, orderingAfterTime) == nil {
+		if pos != 0 && isExpected(t, sectionTime, 0) == nil {
+			//logger.Printf("t->t")
+			return nil
+		}
+		if t == TypeTimeZones || isExpected(t, sectionSession, orderingAfterTime) == nil {
 			//logger.Printf("t->s")
 			return nil
 		}
@@ -338,7 +342,7 @@ func isOptional(t Type) bool {
 
 func isZeroOrMore(t Type) bool {
 	switch t {
-	case TypeBandwidth, TypeAttribute:
+	case TypeBandwidth, TypeAttribute, TypeRepeatTimes:
 		return true
 	default:
 		return false
@@ -385,6 +389,9 @@ func (d *Decoder) decodeTiming(m *Message) error {
 		if err := isExpected(d.t, d.section, d.sPos); err != nil {
 			return errors.Wrap(err, "decode failed")
 		}
+		if d.t == TypeTiming {
+			d.sPos = 0
+		}
 		if !isZeroOrMore(d.t) {
 			d.sPos++
 		}
-- 
2.43.0


From 1cab7c09670e7cb458d71a40279a90df8efb47e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 36/38] fix: accept a session description without a session
 name

---
 sdp/sdp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index eed5487..e7ada57 100644
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -62,7 +62,9 @@ func (l *Line) Decode(b []byte) error {
 		err := newDecodeError("line", reason)
 		return errors.Wrap(err, "failed to decode")
 	}
-	if len(b) <= (delimiter + 1) {
+	r, _ := utf8.DecodeRune(b[:delimiter])
+	// A session without a name has "s= ", which may be trimmed.
+	if len(b) <= (delimiter+1) && Type(r) != TypeSessionName {
 		reason := fmt.Sprintf(
 			"len(b) %d < (%d + 1), no value found after delimiter",
 			len(b), delimiter,
@@ -70,7 +72,6 @@ func (l *Line) Decode(b []byte) error {
 		err := newDecodeError("line", reason)
 		return errors.Wrap(err, "failed to decode")
 	}
-	r, _ := utf8.DecodeRune(b[:delimiter])
 	l.Type = Type(r)
 	l.Value = append(l.Value, b[delimiter+1:]...)
 	return nil
-- 
2.43.0


From c3baf1ae4606ad9c54d7e5b34fe2dc11f55cd5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 37/38] fix: ignore Digest challenges with an algorithm other
 than MD5

---
 rtspparser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index ee065ce..1e758fd 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -77,8 +77,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			// the identifier alone, without parameters such as the timeout
 			context.sessionID = strings.TrimSpace(strings.Split(theValue, ";")[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
-			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
+			authenticateType, realm, nonce, _, algorithm := parsingAuthenticate(theValue)
 			if strings.EqualFold("Digest", authenticateType) {
+				if "" != algorithm && !strings.EqualFold("MD5", algorithm) {
+					// not supported, the server may offer something else
+					continue
+				}
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
@@ -93,16 +97,17 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	return nil
 }
 
-func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
+func parsingAuthenticate(authenticateValue string) (string, string, string, string, string) {
 	authenticateValue = strings.TrimSpace(authenticateValue)
 	var realm string
 	var nonce string
 	var stale string
+	var algorithm string
 	var authenticateType string
 
 	pos := strings.Index(authenticateValue, " ")
 	if -1 == pos {
-		return authenticateValue, realm, nonce, stale
+		return authenticateValue, realm, nonce, stale, algorithm
 	}
 	authenticateType = authenticateValue[:pos]
 	params := authenticateValue[pos+1:]
@@ -136,7 +141,9 @@ func parsingAuthenticate(authenticateValue string) (string, string, string, stri
 			nonce = value
 		case "stale":
 			stale = value
+		case "algorithm":
+			algorithm = value
 		}
 	}
-	return authenticateType, realm, nonce, stale
+	return authenticateType, realm, nonce, stale, algorithm
 }
-- 
2.43.0


From c199cf5ae6591d9aba76ff3d3a40c21780984a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 38/38] fix: never publish the parameters of another payload
 format

---
 sdpparser.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 8a1a8a9..82cfecb 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -60,11 +60,11 @@ func parsingSDP(sdp string) *SDPInfo {
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
 		// the first format is the one in use
-		strFormat := strings.SplitN(strings.TrimSpace(meidaInfo.Description.Format), " ", 2)[0]
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(strFormat)
+		formats := strings.Split(strings.TrimSpace(meidaInfo.Description.Format), " ")
+		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(formats[0])
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
-			sdpRtpmap := getFormatAttribute(meidaInfo.Attributes.Values("rtpmap"), strFormat)
+			sdpRtpmap := getFormatAttribute(meidaInfo.Attributes.Values("rtpmap"), formats)
 			if "" != sdpRtpmap {
 				codecName, timestampFrequency, channels = getPayloadInfoForRtpmap(sdpRtpmap)
 			}
@@ -90,7 +90,7 @@ func parsingSDP(sdp string) *SDPInfo {
 			sdpInfo.Medias[index].VideoFramerate = getFramerateForFramerate(sdpFramerate)
 		}
 
-		sdpFmtp := getFormatAttribute(meidaInfo.Attributes.Values("fmtp"), strFormat)
+		sdpFmtp := getFormatAttribute(meidaInfo.Attributes.Values("fmtp"), formats)
 		if "" != sdpFmtp {
 			sdpInfo.Medias[index].Fmtp = getFmtParame(sdpFmtp)
 			log.Print(sdpFmtp)
@@ -101,14 +101,14 @@ func parsingSDP(sdp string) *SDPInfo {
 	return sdpInfo
 }
 
-// getFormatAttribute returns the value that describes the format, the first one if none does
-func getFormatAttribute(values []string, strFormat string) string {
+// getFormatAttribute returns the value that describes the first format, if there is only one whatever value there is
+func getFormatAttribute(values []string, formats []string) string {
 	for _, value := range values {
-		if strings.HasPrefix(value, strFormat+" ") {
+		if strings.HasPrefix(value, formats[0]+" ") {
 			return value
 		}
 	}
-	if len(values) > 0 {
+	if len(values) > 0 && 1 == len(formats) {
 		return values[0]
 	}
 	return ""
-- 
2.43.0

