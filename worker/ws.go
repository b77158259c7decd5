package worker

import (
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"strings"
	"time"
)

// The server's side of the WebSocket protocol.

const (
	wsOK = iota
	wsStatus
	wsGarbage
	wsSilent
	wsFin
	wsRst
	wsBadAccept
	wsLate // answers late but within the limit
)

type wsPlan struct {
	hs       int // fate of the upgrade
	join     int // most bytes that wait to be joined
	joinMore float64
	joinWait time.Duration
	chunk    int     // how the stream is cut into messages
	frag     float64 // chance that a message is fragmented
	empty    float64 // chance of an empty message or frame
	ctl      float64 // chance of a control frame in between
	text     bool
	onClose  int // 0 echo and FIN, 1 ignore, 2 FIN at once, 3 echo only
	endWith  int // orderly end: 0 close frame and FIN, 1 FIN only, 2 close frame only
	hdr      int
}

func genWs(w *World, faults bool) wsPlan {
	g := w.G
	p := wsPlan{chunk: g.Int(5), onClose: g.Weighted(4, 2, 2, 2), endWith: g.Int(3), hdr: g.Int(3)}
	if g.Bool(0.6) {
		p.frag = 0.1 + 0.2*float64(g.Int(4))
	}
	if g.Bool(0.5) {
		p.empty = 0.2
	}
	if g.Bool(0.5) {
		p.ctl = 0.2
	}
	p.text = g.Bool(0.25)
	p.join = []int{3000, 30000, 200000}[g.Weighted(4, 2, 1)]
	p.joinMore, p.joinWait = 0.4, time.Millisecond
	if p.join == 200000 {
		p.joinMore, p.joinWait = 0.97, time.Duration(1+g.Int(40))*time.Millisecond
	}
	if faults && g.Bool(0.25) {
		p.hs = 1 + g.Int(7)
	}
	return p
}

type wsConn struct {
	c        *srvConn
	up       bool
	failed   bool
	buf      []byte
	msg      []byte
	inMsg    bool
	pend     []byte // stream bytes not sent yet
	closing  bool   // close frame sent
	gotClose bool
	pings    map[string]bool
	pingN    int
	upEnd    int // the upgrade's answer ends there
	path     string
}

func (x *wsConn) fail(class, f string, a ...any) {
	x.c.w.Fail("C15", class, "%s: %s", x.c.srv.host, fmt.Sprintf(f, a...))
}

func (x *wsConn) in(b []byte) {
	x.buf = append(x.buf, b...)
	if !x.up {
		if x.failed {
			return
		}
		i := strings.Index(string(x.buf), "\r\n\r\n")
		if i < 0 {
			return
		}
		head := string(x.buf[:i])
		x.buf = x.buf[i+4:]
		x.upgrade(head)
		return
	}
	x.frames()
}

func (x *wsConn) upgrade(head string) {
	c := x.c
	g := c.w.G
	lines := strings.Split(head, "\r\n")
	h := map[string]string{}
	for _, l := range lines[1:] {
		if i := strings.IndexByte(l, ':'); i > 0 {
			h[strings.ToLower(l[:i])] = strings.TrimSpace(l[i+1:])
		}
	}
	f := strings.Split(lines[0], " ")
	key := h["sec-websocket-key"]
	if len(f) != 3 || f[0] != "GET" || f[1] != "/ws/live" || !strings.EqualFold(h["upgrade"], "websocket") || key == "" || h["sec-websocket-version"] != "13" {
		x.fail("ws-upgrade", "bad upgrade request %q", head)
		return
	}
	sum := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	acc := base64.StdEncoding.EncodeToString(sum[:])
	p := c.sc.ws
	resp := func(acc string) {
		x.up = true
		names := [][3]string{{"Upgrade", "Connection", "Sec-WebSocket-Accept"}, {"upgrade", "connection", "sec-websocket-accept"}, {"UPGRADE", "Connection", "Sec-Websocket-Accept"}}[p.hdr]
		c.raw([]byte(fmt.Sprintf("HTTP/1.1 101 Switching Protocols\r\n%s: websocket\r\n%s: Upgrade\r\n%s: %s\r\n\r\n", names[0], names[1], names[2], acc)))
		x.upEnd = c.sentRaw
	}
	if p.hs != wsOK {
		c.w.S.Fault("ws-handshake-fault")
		c.w.Has(fmt.Sprintf("ws-handshake-fault-%d", p.hs))
		x.failed = p.hs != wsLate
	}
	switch p.hs {
	case wsStatus:
		c.raw([]byte([]string{"HTTP/1.1 404 Not Found\r\nContent-Length: 3\r\n\r\nno\n", "HTTP/1.1 302 Found\r\nLocation: ws://elsewhere.test/\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 500 Error\r\nConnection: close\r\n\r\n"}[g.Int(4)]))
		if g.Bool(0.5) {
			c.fin(true)
		}
	case wsGarbage:
		c.raw([]byte("RTSP/1.0 400 Bad Request\r\n\r\n"))
	case wsSilent:
	case wsFin:
		c.fin(true)
	case wsRst:
		c.rst()
	case wsBadAccept:
		x.up = false
		resp("AAAAAAAAAAAAAAAAAAAAAAAAAAA=")
		x.up = false
	case wsLate:
		c.w.S.After(time.Duration(1+g.Int(20))*time.Second, "upgrade answer", func() { resp(acc) })
	default:
		resp(acc)
		if len(x.buf) > 0 {
			x.frames()
		}
	}
}

func (x *wsConn) frames() {
	c := x.c
	for len(x.buf) >= 2 {
		b := x.buf
		fin, op := b[0]&0x80 != 0, b[0]&0x0f
		masked, n, o := b[1]&0x80 != 0, uint64(b[1]&0x7f), 2
		switch n {
		case 126:
			if len(b) < 4 {
				return
			}
			n, o = uint64(binary.BigEndian.Uint16(b[2:])), 4
		case 127:
			if len(b) < 10 {
				return
			}
			n, o = binary.BigEndian.Uint64(b[2:]), 10
		}
		if b[0]&0x70 != 0 {
			x.fail("ws-frame", "a frame from the client has reserved bits set")
			return
		}
		if !masked {
			x.fail("ws-frame", "a frame from the client is not masked")
			return
		}
		if uint64(len(b)) < uint64(o)+4+n {
			return
		}
		mask := b[o : o+4]
		pl := append([]byte(nil), b[o+4:o+4+int(n)]...)
		for i := range pl {
			pl[i] ^= mask[i&3]
		}
		x.buf = b[o+4+int(n):]
		switch op {
		case 0, 1, 2:
			if (op == 0) != x.inMsg {
				x.fail("ws-frame", "frame with opcode %d out of place", op)
				return
			}
			if op == 1 {
				x.fail("ws-text", "the client sends a text message")
			}
			if x.gotClose {
				x.fail("ws-frame", "data after a close frame")
				return
			}
			x.msg = append(x.msg, pl...)
			x.inMsg = !fin
			if fin {
				m := x.msg
				x.msg = nil
				c.in(m)
			}
		case 8:
			c.log("<- close frame")
			first := !x.gotClose
			x.gotClose = true
			if first {
				x.onClose()
			}
		case 9:
			x.frame(0x8a, pl)
		case 10:
			delete(x.pings, string(pl))
		default:
			x.fail("ws-frame", "unknown opcode %d", op)
			return
		}
	}
}

func (x *wsConn) onClose() {
	c := x.c
	switch c.sc.ws.onClose {
	case 0, 3:
		if !x.closing {
			x.closing = true
			x.frame(0x88, []byte{3, 232})
		}
		if c.sc.ws.onClose == 0 {
			c.ended = true
			c.orderly, c.endedAt = true, c.w.S.Now()
			c.p.Fin()
		}
	case 1:
		c.w.S.Fault("ws-close-ignored")
	case 2:
		c.ended = true
		c.endedAt = c.w.S.Now()
		c.p.Fin()
	}
}

func (x *wsConn) frame(b0 byte, pl []byte) {
	if x.c.ended {
		return
	}
	h := []byte{b0}
	switch n := len(pl); {
	case n < 126:
		h = append(h, byte(n))
	case n < 1<<16:
		h = binary.BigEndian.AppendUint16(append(h, 126), uint16(n))
	default:
		h = binary.BigEndian.AppendUint64(append(h, 127), uint64(n))
	}
	x.c.raw(append(h, pl...))
	if len(pl) > 0 && b0&0x08 == 0 {
		x.c.sentData = x.c.sentRaw
	}
}

// control perhaps sends a ping or pong.
func (x *wsConn) control() {
	p := &x.c.sc.ws
	g := x.c.w.G
	if p.ctl == 0 || !g.Bool(p.ctl) {
		return
	}
	x.c.w.S.Fault("ws-control-frame")
	pl := fill(x.c.w, g.Int(126), 'p')
	if g.Bool(0.7) {
		x.frame(0x89, pl)
	} else {
		x.frame(0x8a, pl)
	}
}

// out sends stream bytes as messages.
func (x *wsConn) out(b []byte) {
	p := &x.c.sc.ws
	g := x.c.w.G
	if x.closing || x.c.ended {
		return
	}
	for len(b) > 0 {
		n := len(b)
		switch p.chunk {
		case 1: // arbitrary pieces
			n = 1 + g.Int(len(b))
		case 2: // small pieces
			n = min(n, max(1+g.Int(20), n/24))
		case 3: // pieces that join what follows
			if len(x.pend) < p.join && g.Bool(p.joinMore) {
				x.pend = append(x.pend, b...)
				k := len(x.pend)
				x.c.w.S.After(p.joinWait, "ws flush", func() {
					if len(x.pend) == k && !x.c.ended {
						x.flush()
					}
				})
				return
			}
		case 4:
			n = min(n, 4096)
		}
		m := append(x.pend, b[:n]...)
		x.pend = nil
		b = b[n:]
		x.message(m)
	}
}

func (x *wsConn) flush() {
	if len(x.pend) > 0 {
		m := x.pend
		x.pend = nil
		x.message(m)
	}
}

func (x *wsConn) message(m []byte) {
	if len(m) > 1<<17 {
		x.c.w.Has("ws-message-128k")
	} else if len(m) > 1<<16 {
		x.c.w.Has("ws-message-64k")
	}
	p := &x.c.sc.ws
	g := x.c.w.G
	x.control()
	if p.empty > 0 && g.Bool(p.empty) {
		n := 1
		if g.Bool(0.02) {
			n = 100 + g.Int(200)
		}
		for ; n > 0; n-- {
			x.frame(0x82, nil)
			x.c.w.S.Fault("ws-empty-message")
		}
	}
	op := byte(2)
	if p.text && ascii(m) && g.Bool(0.7) {
		op = 1
		x.c.w.S.Fault("ws-text-message")
	}
	if p.frag == 0 || !g.Bool(p.frag) {
		x.frame(0x80|op, m)
		return
	}
	x.c.w.S.Fault("ws-fragmented-message")
	parts := 2 + g.Int(3)
	b0 := op
	for i := 0; i < parts; i++ {
		n := len(m)
		if i < parts-1 {
			n = g.Int(len(m) + 1)
			if p.empty == 0 && n == 0 {
				n = min(1, len(m))
			}
			x.frame(b0, m[:n])
			x.control()
		} else {
			x.frame(b0|0x80, m)
		}
		m = m[n:]
		b0 = 0
	}
}

func ascii(b []byte) bool {
	for _, c := range b {
		if c >= 0x80 {
			return false
		}
	}
	return true
}

// ending is called before the server ends the connection.
func (x *wsConn) ending(orderly bool) {
	x.flush()
	if x.up && orderly && x.c.sc.ws.endWith != 1 && !x.closing {
		x.closing = true
		x.frame(0x88, []byte{3, 232})
	}
}
