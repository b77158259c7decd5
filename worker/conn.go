package worker

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"strconv"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

// Scenario family for tcpnetwork.Connection used directly with generated
// stream protocols (C01-C05, C17).

const maxMsg = 65535

const (
	endFin = iota
	endRst
	endClose       // local Close from a workload task
	endCloseFromCB // local Close from the data handler
	endWriteFail
	endOversize
	endSilent // read timeout
	endHandlerPanic
	endProtoPanic
	endStall   // peer stops reading, Close or Send timeout ends it
	endTrickle // peer reads slowly, a Send timeout or Close ends it
	numEnd
)

var endName = [...]string{"fin", "rst", "close", "close-in-callback", "write-failure", "oversize", "silence", "handler-panic", "protocol-panic", "stall", "slow-reader"}

type connCase struct {
	w     *World
	id    int
	knob  *connKnob
	conn  *tcpnetwork.Connection
	nc    *simnet.Conn
	proto *tproto
	end   int

	inbound  [][]byte // complete messages the peer sends
	inTrail  []byte   // incomplete rest
	evs      []connEv
	handlerN int

	closeCalled   bool // Close was called (or is in progress)
	closeCalledAt time.Duration
	sendTimedOut  bool
	panicked      bool
	panicAt       int
	closeAt       int
	replyAt       int
	replyN        int
	slowAt        int
	slow          time.Duration
	slowEach      func() time.Duration // for the handler of every event
	handled       time.Duration        // when the last handler returned
	discAt        time.Duration
	disc          int
	inHandler     bool
	readTO        int

	sent     [][]sentMsg // per sender
	srvIn    []byte
	srvEOF   bool
	srvEOFAt time.Duration
	senders  []*simrt.Task
	inSend   int
	sends    map[int]time.Duration // Send calls in progress
	static   map[int][]byte        // by sender, a buffer it sends again and again without a copy
	endedAt  time.Duration         // when something local ended the connection, -1
}

type sentMsg struct {
	body     []byte
	returned bool
	before   bool // returned before Close was called
	took     time.Duration
}

type connEv struct {
	typ    int
	data   []byte
	ref    []byte
	at     time.Duration
	status int
	conn   *tcpnetwork.Connection
}

// tproto is a generated protocol: a header of hl bytes, then a body of given
// length or up to a delimiter, then optionally content whose length the body
// tells.
type tproto struct {
	c       *connCase
	hl      int
	delim   []byte
	outHdr  int // 0: none, 1: length+checksum header
	inits   int
	panicOn string
	after   int
	n       int
}

func (p *tproto) boom(where string) {
	if p.panicOn == where {
		p.n++
		if p.n > p.after {
			p.c.panicked = true
			p.c.cause()
			p.c.w.S.Fault("panic-in-" + where)
			panic("protocol " + where)
		}
	}
}

func (p *tproto) Init()                { p.inits++ }
func (p *tproto) GetHeaderLength() int { p.boom("GetHeaderLength"); return p.hl }
func (p *tproto) UnserializeHeader(h []byte) (int, []byte) {
	p.boom("UnserializeHeader")
	if len(h) != p.hl {
		p.c.w.Fail("C01", "header-length", "UnserializeHeader got %d bytes, the header has %d", len(h), p.hl)
		panic("bad header")
	}
	switch h[0] >> 6 {
	case 1, 2:
		return 0, p.delim
	}
	n := p.length(h)
	if n == 0 {
		return 0, []byte{}
	}
	return n, nil
}

func (p *tproto) length(h []byte) int {
	if p.hl == 1 {
		return int(h[0] & 63)
	}
	n := int64(0)
	for _, b := range h[1:] {
		n = n<<8 | int64(b)
	}
	return int(n)
}

func (p *tproto) SerializeHeader(b []byte) []byte {
	p.boom("SerializeHeader")
	if p.outHdr == 0 {
		return nil
	}
	h := make([]byte, 6)
	h[0] = 'H'
	h[1] = sum(b)
	binary.BigEndian.PutUint32(h[2:], uint32(len(b)))
	return h
}

func sum(b []byte) (s byte) {
	for i, x := range b {
		s += x ^ byte(i)
	}
	return
}

func (p *tproto) GetContentLength(b []byte) int {
	p.boom("GetContentLength")
	switch b[0] >> 6 {
	case 2:
		n, _ := strconv.Atoi(string(bytes.TrimSuffix(b[p.hl:], p.delim)))
		return n
	case 3:
		if len(b) < p.hl+2 {
			return 0
		}
		return int(binary.BigEndian.Uint16(b[p.hl:]))
	}
	return 0
}

// parts of a message, for gaps between them
type message struct{ head, body, content []byte }

func (m message) all() []byte {
	return append(append(append([]byte(nil), m.head...), m.body...), m.content...)
}

func fill(w *World, n int, tag byte) []byte {
	b := make([]byte, n)
	seed := uint64(w.G.Int(1 << 16))
	r := simrt.NewRand(seed<<8 | uint64(tag))
	for i := 0; i < n; i += 8 {
		x := r.Uint64()
		for k := 0; k < 8 && i+k < n; k++ {
			b[i+k] = byte(x >> (8 * k))
		}
	}
	return b
}

func (c *connCase) size(limit int) int {
	g := c.w.G
	var n int
	switch g.Weighted(8, 4, 2, 1) {
	case 0:
		n = g.Int(40)
	case 1:
		n = g.Int(1500)
	case 2:
		n = g.Int(20000)
	case 3:
		n = limit - g.Int(8) // the largest messages
		if c.knob.small {
			n = g.Int(9000)
		}
	}
	return max(0, min(n, limit))
}

func (c *connCase) message() message {
	g := c.w.G
	p := c.proto
	kind := g.Int(4)
	head := make([]byte, p.hl)
	head[0] = byte(kind<<6) | byte(g.Int(64))
	var body, content []byte
	setLen := func(n int) {
		if p.hl == 1 {
			head[0] = head[0]&0xc0 | byte(n)
			return
		}
		for i := p.hl - 1; i >= 1; i-- {
			head[i] = byte(n)
			n >>= 8
		}
	}
	maxLen := maxMsg
	switch p.hl {
	case 1:
		maxLen = 63
	case 2:
		maxLen = 255
	}
	switch kind {
	case 0:
		body = fill(c.w, c.size(maxLen), 'b')
		setLen(len(body))
	case 1:
		for i := 1; i < p.hl; i++ {
			head[i] = byte(g.Int(256))
		}
		n := c.size(min(maxMsg-p.hl-len(p.delim), 9000))
		body = fill(c.w, n, 'd')
		if g.Bool(0.5) {
			for i := range body { // full of near misses
				body[i] = p.delim[int(body[i])%len(p.delim)]
			}
		}
		for {
			i := bytes.Index(append(append([]byte(nil), body...), p.delim...), p.delim)
			if i == len(body) {
				break
			}
			body[i] = p.delim[0] + 1
			for bytes.IndexByte(p.delim, body[i]) >= 0 {
				body[i]++
			}
		}
		body = append(body, p.delim...)
	case 2:
		n := c.size(maxMsg - len(p.delim) - 5)
		content = fill(c.w, n, 'c')
		body = append([]byte(strconv.Itoa(n)), p.delim...)
	case 3:
		n := 2 + c.size(min(maxLen-2, 3000))
		body = fill(c.w, n, 'x')
		k := c.size(maxMsg - n)
		binary.BigEndian.PutUint16(body, uint16(k))
		content = fill(c.w, k, 'y')
		setLen(n)
	}
	return message{head, body, content}
}

type connKnob struct {
	name     string
	ends     []int // weights by ending
	senders  int
	inMsgs   int
	small    bool
	big      bool // some large messages all the same
	conns    int
	readTO   bool // C05 timing scenario
	maxSends int
	windows  []int
}

func newConnCase(w *World, id int, k *connKnob) *connCase {
	g := w.G
	c := &connCase{w: w, id: id, knob: k, panicAt: -1, closeAt: -1, replyAt: -1, slowAt: -1, endedAt: -1, sends: map[int]time.Duration{}, static: map[int][]byte{}}
	c.end = g.Weighted(k.ends...)
	delims := []string{"\r\n\r\n", "\n", "|", "ab", "aab", "\x00\x00", "abab"}
	c.proto = &tproto{c: c, hl: 1 + g.Int(8), delim: []byte(delims[g.Int(len(delims))]), outHdr: g.Int(2)}
	opt := simnet.Opt{Seg: g.Int(simnet.NumSeg), Delay: g.Int(simnet.NumDelay)}
	if g.Bool(0.3) {
		opt.ShortRead = 0.3
	}
	if len(k.windows) > 0 {
		opt.Window = k.windows[g.Int(len(k.windows))]
	}
	if g.Bool(0.2) {
		opt.ReadChunk = 1 + g.Int(3000)
	}
	if c.end == endWriteFail {
		opt.FailWrite = 1 + g.Int(3000)
		opt.FailSoft = g.Bool(0.6)
		if g.Bool(0.3) {
			opt.WriteErr = errors.New("no buffer space available")
		}
	}
	w.Has("end-" + endName[c.end])
	c.nc = w.Net.NewConn(fmt.Sprintf("peer%d:1", id), opt)
	qs := []int{16, 0, 1, 3, 64, 4095}
	c.conn = tcpnetwork.NewConnection(c.nc, qs[g.Int(len(qs))], c.handle)
	c.conn.SetStreamProtocol(c.proto)
	nin := g.Int(k.inMsgs + 1)
	switch c.end {
	case endHandlerPanic:
		c.panicAt = g.Int(nin + 1)
	case endCloseFromCB:
		c.closeAt = g.Int(nin + 1)
	case endProtoPanic:
		c.proto.panicOn = []string{"UnserializeHeader", "GetContentLength", "SerializeHeader", "GetHeaderLength"}[g.Int(4)]
		c.proto.after = g.Int(3)
	case endSilent:
		c.readTO = 1 + g.Int(3)
	}
	if g.Bool(0.2) {
		c.slowAt = g.Int(nin + 1)
		c.slow = time.Duration(1+g.Int(300)) * time.Millisecond
	}
	if g.Bool(0.2) {
		c.replyAt = g.Int(nin + 1)
		c.replyN = 1
		if g.Bool(0.3) {
			c.replyN = 1 + g.Int(40)
			w.Has("many-sends-in-callback")
		}
	}
	if c.readTO > 0 {
		c.conn.SetReadTimeoutSec(c.readTO)
	}
	c.nc.Peer.OnData = func(b []byte) { c.srvIn = append(c.srvIn, b...) }
	c.nc.Peer.OnBroken = c.cause
	c.nc.Peer.OnEOF = func() { c.srvEOF = true; c.srvEOFAt = w.S.Now() }
	// inbound traffic
	if k.readTO {
		return c
	}
	for i := 0; i < nin; i++ {
		m := c.message()
		b := m.all()
		c.inbound = append(c.inbound, b)
		c.nc.Peer.Send(b)
		if g.Bool(0.15) {
			c.nc.Peer.Pause(time.Duration(g.Int(800)) * time.Millisecond)
		}
	}
	switch c.end {
	case endFin, endRst:
		if g.Bool(0.5) {
			m := c.message()
			b := m.all()
			if n := g.Int(len(b)); n < len(b) {
				c.nc.Peer.Send(b[:n])
				w.Has("trailing-incomplete-message")
			}
		}
		if g.Bool(0.3) {
			c.nc.Peer.Pause(time.Duration(g.Int(1500)) * time.Millisecond)
		}
		if c.end == endFin {
			c.nc.Peer.Fin()
		} else {
			c.nc.Peer.Rst(g.Bool(0.5))
		}
	case endOversize:
		b := make([]byte, c.proto.hl)
		switch {
		case c.proto.hl >= 5 && g.Bool(0.7):
			b[c.proto.hl-4] = 0x40
		case g.Bool(0.5):
			b[0] = 2 << 6
			b = append(b, []string{"1073741824", "65536000"}[g.Int(2)]...)
			b = append(b, c.proto.delim...)
			w.Has("bad-content-length")
		default:
			b[0] = 1 << 6
			b = append(b, bytes.Repeat([]byte{'Z'}, 70000)...)
		}
		c.nc.Peer.Send(b)
	case endSilent:
		if g.Bool(0.5) {
			b := c.message().all()
			c.nc.Peer.Send(b[:g.Int(len(b))])
		}
	}
	return c
}

// cause notes that something local has begun to end the connection.
func (c *connCase) cause() {
	if c.endedAt < 0 {
		c.endedAt = c.w.S.Now()
	}
}

func (c *connCase) handle(e *tcpnetwork.ConnEvent) {
	w := c.w
	ev := connEv{typ: e.EventType, data: append([]byte(nil), e.Data...), ref: e.Data, at: w.S.Now(), status: c.conn.GetStatus(), conn: e.Conn}
	if c.inHandler {
		w.Fail("C03", "concurrent-events", "event %d is reported while another one is still being handled", e.EventType)
	}
	if e.Conn != c.conn {
		w.Fail("C03", "foreign-event", "an event names another connection")
	}
	w.S.Logf("conn%d event %d len %d", c.id, e.EventType, len(e.Data))
	if c.disc > 0 {
		w.Fail("C03", "event-after-disconnected", "event %d after Disconnected", e.EventType)
	}
	switch e.EventType {
	case tcpnetwork.ConnEventConnected:
		if len(c.evs) != 0 {
			w.Fail("C03", "connected-not-first", "Connected is event number %d", len(c.evs)+1)
		}
	case tcpnetwork.ConnEventData:
		if len(c.evs) == 0 {
			w.Fail("C03", "data-before-connected", "data reported before Connected")
		}
	case tcpnetwork.ConnEventDisconnected:
		c.disc++
		c.discAt = w.S.Now()
		if len(c.evs) == 0 {
			w.Fail("C03", "no-connected", "Disconnected without Connected before it")
		}
		if !c.nc.Closed {
			w.Fail("C03", "disconnected-open", "Disconnected is reported while the network connection is still open (end: %s)", endName[c.end])
		}
		if ev.status != tcpnetwork.ConnStatusDisconnected {
			w.Fail("C03", "status-at-disconnected", "status %d when Disconnected is reported", ev.status)
		}
	default:
		w.Fail("C03", "unknown-event", "event type %d", e.EventType)
	}
	if e.EventType != tcpnetwork.ConnEventDisconnected {
		if ev.status != tcpnetwork.ConnStatusConnected && !c.closing() {
			w.Fail("C03", "status-while-connected", "status %d while event %d is reported and nothing ends the connection", ev.status, e.EventType)
		}
	}
	c.evs = append(c.evs, ev)
	if e.EventType == tcpnetwork.ConnEventDisconnected {
		return
	}
	k := c.handlerN
	c.handlerN++
	c.inHandler = true
	defer func() { c.inHandler = false }()
	if k == c.slowAt {
		w.sleepy("slow-handler", c.slow)
	}
	if c.slowEach != nil {
		if d := c.slowEach(); d > 0 {
			w.sleepy("slow-handler", d)
		}
		defer func() { c.handled = w.S.Now() }()
	}
	if k == c.replyAt {
		for i := 0; i < c.replyN && c.disc == 0; i++ {
			if c.send(len(c.sent)-1, c.newMsg(len(c.sent)-1), w.G.Bool(0.5)) >= 5*time.Second {
				break
			}
		}
	}
	if k == c.closeAt {
		c.close("callback")
	}
	if k == c.panicAt {
		c.panicked = true
		c.cause()
		w.S.Fault("panic-in-handler")
		panic("handler panics")
	}
}

// closing tells whether something that ends the connection has happened.
func (c *connCase) closing() bool {
	for _, t := range c.sends {
		if c.w.S.Now()-t >= 5*time.Second {
			return true
		}
	}
	return c.closeCalled || c.sendTimedOut || c.panicked || c.nc.WriteFailed() || c.w.S.Stats.Faults["write-deadline-expired"] > 0
}

func (c *connCase) close(who string) {
	w := c.w
	c.cause()
	if !c.closeCalled {
		c.closeCalledAt = w.S.Now()
		for s := range c.sent {
			for i := range c.sent[s] {
				if c.sent[s][i].returned {
					c.sent[s][i].before = true
				}
			}
		}
	}
	c.closeCalled = true
	w.S.Logf("conn%d Close from %s", c.id, who)
	d := w.Timed(c.conn.Close)
	w.S.Logf("conn%d Close returned after %v", c.id, d)
	if w.Strict && d > 5*time.Second {
		w.Fail("C04", "close-slow", "Close took %v", d)
	}
}

// newMsg makes a self-delimiting message: sender, sequence, length, bytes.
func (c *connCase) newMsg(s int) []byte {
	g := c.w.G
	var n int
	switch g.Weighted(8, 3, 1) {
	case 0:
		n = g.Int(60)
	case 1:
		n = g.Int(2000)
	case 2:
		n = g.Int(70000)
	}
	if c.knob.small && !(c.knob.big && g.Bool(0.5)) {
		n = min(n, 9000)
	}
	if c.end == endTrickle || s == len(c.sent)-1 && c.replyN > 1 {
		n %= 200
	}
	if st := c.static[s]; st != nil && g.Bool(0.6) {
		return st
	}
	if c.proto.outHdr == 1 && g.Bool(0.05) {
		return []byte{} // empty message: only its header shows
	}
	b := make([]byte, 10)
	b[0] = 'M'
	b[1] = byte(s)
	binary.BigEndian.PutUint32(b[2:], uint32(len(c.sent[s])))
	binary.BigEndian.PutUint32(b[6:], uint32(n))
	return append(b, fill(c.w, n, byte(s))...)
}

func (c *connCase) send(s int, msg []byte, cp bool) time.Duration {
	w := c.w
	if st := c.static[s]; st != nil && len(msg) > 0 && &st[0] == &msg[0] {
		cp = false
	}
	i := len(c.sent[s])
	c.sent[s] = append(c.sent[s], sentMsg{body: append([]byte(nil), msg...)})
	w.S.Logf("conn%d sender %d Send #%d len %d", c.id, s, i, len(msg))
	started := c.closing() || c.disc > 0
	c.inSend++
	k := c.inSend
	c.sends[k] = w.S.Now()
	d := w.Timed(func() { c.conn.Send(msg, cp) })
	delete(c.sends, k)
	if cp {
		for k := range msg { // the caller re-uses its buffer
			msg[k] = 0xEE
		}
	}
	m := &c.sent[s][i]
	m.returned, m.took = true, d
	m.before = false
	if w.Strict {
		if d > 5*time.Second {
			w.Fail("C04", "send-slow", "Send took %v", d)
		}
		if d == 5*time.Second {
			w.Has("send-timeout")
			c.sendTimedOut = true
			if !started && !c.closeCalled && c.endedAt < 0 && (c.end == endClose || c.knob.readTO && c.disc == 0) {
				w.Fail("C02,C04", "send-refused", "a Send could not be queued for 5s and ends the connection although the peer reads")
			}
			c.cause()
			if !started {
				at := w.S.Now()
				w.S.After(time.Second, "check", func() {
					if !c.nc.Closed {
						w.Fail("C04", "send-timeout-open", "a Send could not be queued within its timeout at %v and the connection is still open", at)
					}
				})
			}
		}
	} else if d >= 5*time.Second {
		c.sendTimedOut = true
		c.cause()
	}
	return d
}

func runConnFamily(w *World, k *connKnob) {
	g := w.G
	n := 1
	if k.conns > 1 && g.Bool(0.25) {
		n = 2 + g.Int(k.conns-1)
		w.Has("several-connections")
	}
	var cs []*connCase
	for i := 0; i < n; i++ {
		cs = append(cs, newConnCase(w, i, k))
	}
	var ts []*simrt.Task
	for _, c := range cs {
		ts = append(ts, w.S.Spawn(fmt.Sprintf("user%d", c.id), c.drive))
	}
	for _, t := range ts {
		if !w.Join(t, 10*time.Minute) {
			w.Fail("C03,C04", "user-stuck", "the workload did not end: %s", t.Describe())
			return
		}
	}
	if live := w.S.LiveLib(); !w.Await(15*time.Second, func() bool { live = w.S.LiveLib(); return len(live) == 0 }) {
		w.Fail("C03", "goroutine-leak", "15s after every connection ended a goroutine remains: %s", live[0].Describe())
	}
	for _, c := range cs {
		c.finalChecks()
	}
}

// drive uses one connection to its end.
func (c *connCase) drive() {
	w, g := c.w, c.w.G
	ns := 0
	if c.knob.senders > 0 {
		ns = g.Int(c.knob.senders + 1)
	}
	if c.end == endWriteFail && ns == 0 {
		ns = 1
	}
	if c.end == endTrickle {
		ns = 2 + g.Int(4)
	}
	c.sent = make([][]sentMsg, ns+2)
	early := g.Bool(0.5)
	c.conn.Run()
	w.S.Logf("conn%d Run returned", c.id)
	if !early {
		w.Await(time.Minute, func() bool { return len(c.evs) > 0 })
	}
	if st := c.conn.GetStatus(); st != tcpnetwork.ConnStatusConnected && !c.closing() && c.end != endRst && c.end != endFin && c.end != endOversize && c.end != endSilent {
		w.Fail("C03", "status-after-run", "status %d right after Run", st)
	}
	stall := time.Duration(0)
	if c.end == endStall {
		c.nc.Peer.Stall(true)
	} else if c.end == endClose && g.Bool(0.25) && ns > 0 {
		// the peer merely pauses
		stall = time.Duration(100+g.Int(4300)) * time.Millisecond
		c.nc.Peer.Stall(true)
		w.S.After(stall, "peer resumes", func() { c.nc.Peer.Stall(false) })
		w.Has("peer-pauses")
	}
	if c.end == endTrickle {
		c.nc.Peer.Stall(true)
		every := time.Duration(500+g.Int(4300)) * time.Millisecond
		chunk := c.nc.Opt.Window * (1 + g.Int(3)) / 2
		var pulse func()
		pulse = func() {
			if c.nc.Peer.Stalled() && !c.nc.Closed {
				c.nc.Peer.Take(max(1, chunk))
				w.S.After(every, "slow reader", pulse)
			}
		}
		w.S.After(every, "slow reader", pulse)
	}
	for s := 0; s < ns; s++ {
		if g.Bool(0.2) {
			b := append([]byte{'R', byte(s), 0, 0, 0, 0, 0, 0, 0, 0}, fill(w, g.Int(120), byte('R'))...)
			c.static[s] = b
			w.Has("buffer-sent-repeatedly")
		}
	}
	total := 1
	if c.knob.maxSends > 0 {
		total = 1 + g.Int(c.knob.maxSends)
	}
	for s := 0; s < ns; s++ {
		s := s
		nm := g.Int(total + 1)
		if c.end == endWriteFail || c.end == endTrickle {
			nm = total
		}
		c.senders = append(c.senders, w.S.Spawn(fmt.Sprintf("sender%d.%d", c.id, s), func() {
			for i := 0; i < nm; i++ {
				d := c.send(s, c.newMsg(s), w.G.Bool(0.5))
				if d >= 5*time.Second {
					return
				}
				if w.G.Bool(0.1) {
					w.Sleep(time.Duration(w.G.Int(50)) * time.Millisecond)
				}
			}
		}))
	}
	joinSenders := func() {
		for _, t := range c.senders {
			if !w.Join(t, 5*time.Minute) {
				w.Fail("C04", "send-stuck", "a sender did not end: %s", t.Describe())
			}
		}
	}
	ended := func() bool { return c.disc > 0 }
	switch c.end {
	case endClose:
		all := g.Bool(0.6)
		if all {
			joinSenders()
		} else if g.Bool(0.7) {
			w.Sleep(time.Duration(g.Int(60)) * time.Millisecond)
		}
		if g.Bool(0.3) {
			t := w.S.Spawn(fmt.Sprintf("closer%d", c.id), func() { c.close("second task") })
			c.close("first task")
			w.Join(t, time.Minute)
			w.Has("concurrent-close")
		} else {
			c.close("user")
		}
		joinSenders()
	case endStall:
		if g.Bool(0.6) {
			if g.Bool(0.5) {
				joinSenders()
			} else {
				w.Sleep(time.Duration(g.Int(7000)) * time.Millisecond)
			}
			c.close("user")
		}
		joinSenders()
		if !c.closeCalled && !c.sendTimedOut {
			c.close("user")
		}
	case endTrickle:
		joinSenders()
		c.nc.Peer.Stall(false)
		w.Sleep(time.Duration(g.Int(2)) * time.Second)
		if c.disc == 0 {
			c.close("user")
		}
	case endWriteFail:
		joinSenders()
		// enough to make the write fail
		for i := 0; i < 40 && !c.nc.WriteFailed() && c.disc == 0; i++ {
			c.send(ns, c.newMsg(ns), true)
			w.Sleep(100 * time.Millisecond)
		}
		if !c.nc.WriteFailed() && c.disc == 0 {
			// these were not enough
			c.close("user")
		}
		if !w.Await(10*time.Second, ended) {
			w.Fail("C03,C04", "write-failure-not-ended", "10s after a write failed Disconnected has not been reported")
			return
		}
	case endProtoPanic:
		if c.proto.panicOn == "SerializeHeader" {
			joinSenders()
			for i := 0; i < 4 && c.disc == 0; i++ {
				c.send(ns, c.newMsg(ns), true)
			}
		}
		w.Await(time.Second, ended)
		joinSenders()
		if !c.panicked {
			c.close("user")
		}
	case endHandlerPanic, endCloseFromCB:
		w.Await(5*time.Second, ended)
		joinSenders()
		if !c.panicked && !c.closeCalled {
			c.close("user")
		}
	case endRst:
		w.Await(20*time.Second, ended)
		joinSenders()
	}
	// everything that ends a connection does so within a bounded time
	limit := 15 * time.Second
	if !w.Await(60*time.Second, func() bool { return c.disc > 0 || c.endTime() >= 0 && w.S.Now() > c.endTime()+limit }) || c.disc == 0 {
		if c.endTime() < 0 {
			w.Fail("C03", "no-end", "the connection did not end (%s)", endName[c.end])
		}
		w.Fail("C03,C04", "disconnected-late", "%v after the connection was ended by %s Disconnected has not been reported (closed: %v)", limit, endName[c.end], c.nc.Closed)
		return
	}
	if w.Strict && c.closeCalled && c.discAt > c.closeCalledAt+limit {
		w.Fail("C04", "disconnected-late", "Disconnected %v after Close was called", c.discAt-c.closeCalledAt)
	}
	joinSenders()
	if c.nc.Peer.Stalled() && c.end != endStall {
		w.Await(10*time.Second, func() bool { return !c.nc.Peer.Stalled() })
	}
	// afterwards calls return at once
	w.Sleep(time.Duration(g.Int(3)) * time.Second)
	for i := 0; i < 1+g.Int(3); i++ {
		var d time.Duration
		what := "Send"
		if g.Bool(0.5) {
			d = w.Timed(func() { c.conn.Send([]byte("late"), g.Bool(0.5)) })
		} else {
			what = "Close"
			d = w.Timed(c.conn.Close)
		}
		if w.Strict && d > time.Millisecond {
			w.Fail("C03", "late-call-blocks", "%s after Disconnected took %v", what, d)
		}
	}
	if st := c.conn.GetStatus(); st != tcpnetwork.ConnStatusDisconnected {
		w.Fail("C03", "final-status", "status %d after the end", st)
	}
	w.Await(10*time.Second, func() bool { return c.srvEOF || c.end == endStall || c.nc.WriteFailed() })
}

// endTime is when the cause of the end took effect, -1 if it has not.
func (c *connCase) endTime() time.Duration {
	p := c.nc.Peer
	switch {
	case c.endedAt >= 0:
		return c.endedAt
	case p.Pending():
		return -1
	}
	t := p.SentAll
	if c.readTO > 0 {
		t += time.Duration(c.readTO) * time.Second
	}
	return t
}

func (c *connCase) finalChecks() {
	w := c.w
	// inbound
	var got [][]byte
	for _, e := range c.evs {
		if e.typ == tcpnetwork.ConnEventData {
			got = append(got, e.data)
			if !bytes.Equal(e.data, e.ref) {
				w.Fail("C01", "data-changed", "the bytes of a delivered message of %d bytes changed after its delivery", len(e.data))
			}
		}
	}
	for i, b := range got {
		if i >= len(c.inbound) {
			w.Fail("C01", "extra-message", "message %d of %d bytes delivered, the peer sent only %d messages", i, len(b), len(c.inbound))
			return
		}
		if !bytes.Equal(b, c.inbound[i]) {
			w.Fail("C01", "wrong-message", "message %d: delivered %s, sent %s (header %d bytes)", i, brief(b), brief(c.inbound[i]), c.proto.hl)
			return
		}
	}
	if c.end == endFin && (w.Strict || w.S.Stats.Faults["write-deadline-expired"] == 0) && !c.closeCalled && !c.sendTimedOut && !c.panicked && !c.nc.WriteFailed() && len(got) != len(c.inbound) {
		w.Fail("C01", "lost-message", "%d messages delivered, the peer sent %d and ended in an orderly way", len(got), len(c.inbound))
	}
	if c.end == endFin && len(c.inbound) > 3 {
		w.Has("orderly-end-many-messages")
	}
	// outbound
	next := make([]int, len(c.sent))
	in := c.srvIn
	for len(in) > 0 {
		hdr := c.proto.outHdr == 1
		var h []byte
		if hdr {
			if len(in) < 6 {
				break
			}
			if in[0] != 'H' {
				w.Fail("C02", "garbled-stream", "the peer received %s where a header is due", brief(in))
				return
			}
			h = in[:6]
			in = in[6:]
		}
		if hdr && binary.BigEndian.Uint32(h[2:]) == 0 {
			continue // an empty message
		}
		if len(in) < 10 {
			break
		}
		if in[0] == 'R' && int(in[1]) < len(c.sent) && c.static[int(in[1])] != nil {
			// a buffer that is sent repeatedly: it has no number of its own
			s := int(in[1])
			for next[s] < len(c.sent[s]) && len(c.sent[s][next[s]].body) == 0 {
				next[s]++
			}
			if next[s] >= len(c.sent[s]) {
				w.Fail("C02", "repeated-message", "sender %d: a message arrived more often than it was sent", s)
				return
			}
			want := c.sent[s][next[s]].body
			n := min(len(in), len(want))
			if !bytes.Equal(in[:n], want[:n]) {
				w.Fail("C02", "garbled-message", "sender %d message %d (a buffer sent repeatedly) arrived changed: %s instead of %s", s, next[s], brief(in[:n]), brief(want))
				return
			}
			if n < len(want) {
				break
			}
			if hdr && (int(binary.BigEndian.Uint32(h[2:])) != n || h[1] != sum(in[:n])) {
				w.Fail("C02", "wrong-header", "sender %d message %d is preceded by the header of another message", s, next[s])
				return
			}
			next[s]++
			in = in[n:]
			continue
		}
		if in[0] != 'M' || int(in[1]) >= len(c.sent) {
			w.Fail("C02", "garbled-stream", "the peer received %s where a message is due", brief(in))
			return
		}
		s := int(in[1])
		q := int(binary.BigEndian.Uint32(in[2:]))
		n := 10 + int(binary.BigEndian.Uint32(in[6:]))
		for next[s] < len(c.sent[s]) && len(c.sent[s][next[s]].body) == 0 {
			next[s]++
		}
		if q != next[s] || q >= len(c.sent[s]) || n != len(c.sent[s][q].body) {
			w.Fail("C02", "wrong-order", "sender %d: message %d (%d bytes) arrived where message %d is due", s, q, n, next[s])
			return
		}
		if len(in) < n {
			if !bytes.Equal(in, c.sent[s][q].body[:len(in)]) {
				w.Fail("C02", "garbled-message", "sender %d message %d arrived changed", s, q)
			}
			break
		}
		if !bytes.Equal(in[:n], c.sent[s][q].body) {
			w.Fail("C02", "garbled-message", "sender %d message %d arrived changed", s, q)
			return
		}
		if hdr && (int(binary.BigEndian.Uint32(h[2:])) != n || h[1] != sum(in[:n])) {
			w.Fail("C02", "wrong-header", "sender %d message %d is preceded by the header of another message", s, q)
			return
		}
		next[s]++
		in = in[n:]
	}
	delivered := !c.sendTimedOut && !c.panicked && !c.nc.WriteFailed() && c.end != endStall && w.Strict
	if c.closeCalled && delivered && (c.end == endClose || c.end == endCloseFromCB) {
		for s := range c.sent {
			for i, m := range c.sent[s] {
				if m.before && i >= next[s] && len(m.body) > 0 {
					w.Fail("C02,C04", "lost-send", "sender %d message %d was sent before Close and never arrived (the peer received %d bytes of %d written)", s, i, len(c.srvIn), c.nc.Written)
					return
				}
			}
		}
		w.Has("everything-sent-arrived")
	}
	if len(in) > 0 && delivered && c.closeCalled && (c.end == endClose || c.end == endCloseFromCB) {
		w.Fail("C02", "cut-message", "the connection ended in the middle of a message although the peer kept reading")
	}
}

func brief(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%d bytes %q... sum %02x", len(b), b[:24], sum(b))
	}
	return fmt.Sprintf("%d bytes %q", len(b), b)
}

// ---- read timeouts ----

func runReadTimeout(w *World) {
	g := w.G
	k := &connKnob{name: "rtimeout", ends: []int{1}, readTO: true, small: true}
	c := newConnCase(w, 0, k)
	N := g.Int(4)
	c.nc.Opt.Delay = simnet.DelayZero
	c.slowAt = -1
	if N > 0 {
		c.conn.SetReadTimeoutSec(N)
		c.readTO = N
	}
	limit := time.Duration(N) * time.Second
	idle := func() time.Duration {
		if N == 0 {
			return time.Duration(g.Int(5)) * time.Duration(g.Int(3600)) * time.Second
		}
		switch g.Weighted(3, 2, 2) {
		case 1:
			return limit - time.Millisecond
		case 2:
			return time.Duration(g.Int(N*1000)) * time.Millisecond
		}
		return time.Duration(g.Int(20)) * time.Millisecond
	}
	c.sent = make([][]sentMsg, 2)
	slow := g.Bool(0.4)
	if slow {
		each := []float64{0.05, 0.3, 1}[g.Int(3)]
		c.slowEach = func() time.Duration {
			if !g.Bool(each) {
				return 0
			}
			return time.Duration(g.Int(2000*N+1000)) * time.Millisecond
		}
	}
	c.conn.Run()
	var talker *simrt.Task
	if g.Bool(0.4) {
		w.Has("client-sends-meanwhile")
		pause := []int{10, 300, 1000 * (N + 1)}[g.Int(3)]
		n := 1 + g.Int(25)
		talker = w.S.Spawn("talker", func() {
			for i := 0; i < n && c.disc == 0; i++ {
				c.send(0, c.newMsg(0), g.Bool(0.5))
				w.Sleep(time.Duration(g.Int(pause)) * time.Millisecond)
			}
		})
	}
	p := c.nc.Peer
	msgs := 1 + g.Int(25)
	// bytes that arrive together although they belong to several parts
	var seg []byte
	var segAfter time.Duration
	flush := func() {
		if len(seg) > 0 {
			p.SendWhole(seg, segAfter)
		}
		seg, segAfter = nil, 0
	}
	put := func(b []byte, d time.Duration, join bool) {
		if !join || d > 0 {
			flush()
			segAfter = d
		} else if len(seg) > 0 {
			w.Has("parts-arrive-together")
		}
		seg = append(seg, b...)
	}
	joins := g.Bool(0.6)
	for i := 0; i < msgs; i++ {
		m := c.message()
		c.inbound = append(c.inbound, m.all())
		for _, part := range [][]byte{m.head, m.body, m.content} {
			if len(part) == 0 {
				continue
			}
			d := idle()
			switch {
			case joins && g.Bool(0.3):
				put(part, 0, true)
			case len(part) > 1 && joins && g.Bool(0.4):
				c1 := 1 + g.Int(len(part)-1)
				put(part[:c1], 0, true)
				put(part[c1:], d, false)
			case len(part) > 1 && g.Bool(0.3):
				// the part itself dribbles in
				c1 := 1 + g.Int(len(part)-1)
				d1 := time.Duration(g.Int(int(d/time.Millisecond)+1)) * time.Millisecond
				put(part[:c1], d1, false)
				put(part[c1:], d-d1, false)
			default:
				put(part, d, false)
			}
		}
	}
	silent := N > 0 && g.Bool(0.5)
	var rest []byte
	if silent {
		b := c.message().all()
		rest = b[:g.Int(len(b))]
		if n := len(rest); n > 0 && joins && g.Bool(0.7) {
			n = 1 + g.Int(n)
			put(rest[:n], 0, true)
			rest = rest[n:]
		}
	}
	flush()
	sent := func() bool { return !p.Pending() }
	w.Await(1000*time.Hour, func() bool { return sent() || c.disc > 0 })
	if c.disc > 0 {
		w.Fail("C05", "dropped-live-peer", "the connection (read timeout %ds) was dropped at %v although every part was complete within it (%d of %d messages delivered)", N, c.discAt, c.dataEvents(), len(c.inbound))
		return
	}
	wait := time.Second
	if slow {
		wait = time.Duration(len(c.inbound)+2) * (2*limit + time.Second)
	}
	w.Await(wait, func() bool { return c.dataEvents() == len(c.inbound) && !c.inHandler || c.disc > 0 })
	if c.disc > 0 && c.discAt < max(p.SentAll, c.handled)+limit {
		w.Fail("C05", "dropped-live-peer", "the connection (read timeout %ds) was dropped at %v although the last part arrived at %v and its handler returned at %v", N, c.discAt, p.SentAll, c.handled)
		return
	}
	if n := c.dataEvents(); n != len(c.inbound) && c.disc == 0 {
		w.Fail("C01,C05", "undelivered", "%d of %d messages delivered", n, len(c.inbound))
		return
	}
	if N == 0 {
		w.Sleep(time.Duration(1+g.Int(48)) * time.Hour)
		w.Has("idle-for-hours")
		if talker != nil {
			w.Join(talker, time.Hour)
		}
		if c.disc > 0 {
			w.Fail("C05", "dropped-idle-peer", "an idle connection without a read timeout was dropped at %v", c.discAt)
			return
		}
		p.Fin()
		w.Await(time.Minute, func() bool { return c.disc > 0 })
		return
	}
	if silent {
		n := len(rest)
		for i := 0; i < n; {
			e := i + 1 + g.Int(n-i)
			d := time.Duration(g.Int(300)) * time.Millisecond
			p.SendWhole(rest[i:e], d)
			i = e
		}
		w.Has("silent-inside-a-message")
		w.Await(time.Hour, func() bool { return sent() || c.disc > 0 })
	}
	last := max(p.SentAll, c.handled)
	w.Has("silent-peer")
	w.S.Fault("silent-peer")
	if !w.Await(last+limit+time.Millisecond-w.S.Now(), func() bool { return c.disc > 0 }) {
		w.Fail("C05", "silent-peer-kept", "nothing has arrived since %v and the connection with a read timeout of %ds is still up at %v", last, N, w.S.Now())
		return
	}
	if talker != nil {
		w.Join(talker, time.Hour)
	}
	w.Await(15*time.Second, func() bool { return len(w.S.LiveLib()) == 0 })
	if l := w.S.LiveLib(); len(l) > 0 {
		w.Fail("C03", "goroutine-leak", "%s", l[0].Describe())
	}
	c.end = endSilent
	c.finalChecks()
}

func (c *connCase) dataEvents() int {
	n := 0
	for _, e := range c.evs {
		if e.typ == tcpnetwork.ConnEventData {
			n++
		}
	}
	return n
}

var _ net.Conn = (*simnet.Conn)(nil)

func init() {
	//                 fin rst close cb  wfail over silent hpanic ppanic stall trickle
	frame := &connKnob{name: "frame", ends: []int{10, 3, 2, 1, 1, 2, 1, 1, 1, 0}, senders: 1, inMsgs: 12, conns: 3, maxSends: 3}
	send := &connKnob{name: "send", ends: []int{2, 1, 12, 2, 1, 0, 0, 0, 0, 0}, senders: 4, inMsgs: 4, conns: 2, maxSends: 12, small: true, big: true, windows: []int{65536, 4096, 100, 1}}
	life := &connKnob{name: "life", ends: []int{3, 3, 4, 3, 3, 3, 2, 3, 3, 2}, senders: 2, inMsgs: 5, conns: 2, maxSends: 5, small: true, windows: []int{65536, 2000}}
	stall := &connKnob{name: "stall", ends: []int{0, 0, 3, 0, 3, 0, 0, 0, 0, 8, 6}, senders: 3, inMsgs: 3, conns: 2, maxSends: 25, small: true, big: true, windows: []int{65536, 4096, 100, 1}}
	mk := func(k *connKnob) func(*World) { return func(w *World) { runConnFamily(w, k) } }
	register(&Scenario{Name: "conn-frame", Run: mk(frame)}, map[string]int{"C01": 4, "C17": 2})
	register(&Scenario{Name: "conn-send", Run: mk(send)}, map[string]int{"C02": 6, "C17": 3, "C01": 1, "C04": 1})
	register(&Scenario{Name: "conn-life", Run: mk(life), Stalls: true}, map[string]int{"C03": 6, "C17": 3, "C01": 1, "C04": 1})
	register(&Scenario{Name: "conn-stall", Run: mk(stall)}, map[string]int{"C04": 6, "C03": 1, "C02": 1, "C17": 2})
	register(&Scenario{Name: "conn-readtimeout", Run: runReadTimeout}, map[string]int{"C05": 6, "C01": 1, "C03": 1})
}
