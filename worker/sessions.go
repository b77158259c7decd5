package worker

import (
	"fmt"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

// The session scenarios.

type sessKnob struct {
	sk      scriptKnob
	n       int     // most sessions at once
	ws      float64 // chance of a WebSocket session
	wsFault bool
	host    []int // weights: accepts, refuses, no route, never answers, slow, too slow
	plays   int   // most plays one after the other
	ctl     int   // most control requests
	many    bool  // now and then hundreds
	lock    bool  // now and then all sessions in step
	tear    float64
	fates   []int // of control requests
	hostile float64
	closers bool
	replay  bool
	wfail   float64
	stall   float64
	windows bool
	quietJk bool // responses without a CSeq in quiet times
	slowCB  float64
	share   *share
}

const stuck = 10 * time.Minute

func (v *server) hostPlan(k *sessKnob) {
	g := v.sess.w.G
	h := v.listen()
	w := v.sess.w
	kind := 0
	if len(k.host) > 0 {
		kind = g.Weighted(k.host...)
	}
	switch kind {
	case 1:
		h.Refuse = true
	case 2:
		h.NoRoute = true
	case 3:
		h.Never = true
	case 4:
		h.Delay = time.Duration(1900+g.Int(90)) * time.Millisecond
	case 5:
		h.Delay = time.Duration(2010+g.Int(8000)) * time.Millisecond
		w.Has("too-slow-connect")
	}
	if g.Bool(k.wfail) {
		h.Opt.FailWrite = 1 + g.Int(1500)
		w.Has("write-fails")
	}
	if k.windows && g.Bool(0.3) {
		h.Opt.Window = []int{1, 64, 500}[g.Int(3)]
	}
}

func (ss *session) script(k *sessKnob, v *server) *script {
	w := ss.w
	g := w.G
	sc := v.newScript(&k.sk)
	if ss.ws {
		sc.ws = genWs(w, k.wsFault)
		if sc.ws.join == 200000 && k.sk.units > 0 && g.Bool(0.3) {
			// several large packets that may come as one message
			var c chunk
			for n := 2 + g.Int(4); n > 0; n-- {
				p := sc.sideTraffic(w)
				p.rtp = append(p.rtp, fill(w, 40000+g.Int(20000), 'R')...)
				c.pk = append(c.pk, p)
			}
			i := g.Int(len(sc.plan) + 1)
			sc.plan = append(sc.plan[:i:i], append([]chunk{c}, sc.plan[i:]...)...)
			sc.ws.chunk = 3
		}
	}
	if g.Bool(k.stall) {
		sc.stallAt = g.Int(5)
		w.Has("server-stops-reading")
		sc.ws.ctl = 0 // a server that does not read does not ping either
	}
	if g.Bool(k.hostile) {
		sc.mutate = newMutator(w)
		w.Has("hostile-server")
	}
	return sc
}

func (ss *session) server(k *sessKnob) *server {
	v := ss.newServer(ss.w.G.Bool(k.sk.creds))
	v.hostPlan(k)
	return v
}

// playJoin runs a play in a task of its own and waits for it.
func (ss *session) playJoin(sc *script) *play {
	w := ss.w
	var p *play
	t := w.S.Spawn(fmt.Sprintf("play%d.%d", ss.id, len(ss.plays)), func() { p = ss.play(sc) })
	if !w.Join(t, stuck) {
		w.Fail("C07,C10,C12,C14", "play-stuck", "Play has not returned after %v: %s", stuck, t.Describe())
		return nil
	}
	return p
}

func (ss *session) stuckDump() string {
	s := ""
	for _, t := range ss.w.S.LiveLib() {
		s += "; " + t.Describe()
	}
	return s
}

// settle waits for a connection the server has ended (or broken).
func (ss *session) settle(c *srvConn) {
	w := ss.w
	if c == nil || c.nc.Closed {
		return
	}
	if c.ended || c.nc.WriteFailed() {
		if !ss.await(20*time.Second, func() bool { return c.nc.Closed }) {
			w.Fail("C11,C14,C15", "connection-open", "the server ended the connection at %v and it is still open at %v%s", c.endedAt, w.S.Now(), ss.stuckDump())
		}
	}
}

// drained waits until the disconnected event of every closed connection was seen.
func (ss *session) drained() {
	w := ss.w
	want := func() int {
		n := ss.dialFails
		for _, c := range ss.conns {
			if c.nc.Closed {
				n++
			}
		}
		return n
	}
	if !ss.await(15*time.Second, func() bool { return ss.disc >= want() }) && !ss.anyHostile() {
		w.Fail("C11,C14", "no-disconnected", "15s after the end of a connection only %d of %d disconnected events were reported%s", ss.disc, want(), ss.stuckDump())
	}
}

// basic plays and sees what comes.
func (ss *session) basic(k *sessKnob) {
	w := ss.w
	g := w.G
	var v *server
	if h := k.share; h == nil {
		v = ss.server(k)
	} else if h.first == nil {
		v = ss.server(k)
		h.first, v.share = v, h
	} else {
		v = ss.sharedServer(h)
	}
	sc := ss.script(k, v)
	if h := v.h; !ss.ws && k.share == nil && !h.Refuse && !h.NoRoute && !h.Never && h.Delay < 1900*time.Millisecond {
		ss.manual = g.Bool(0.08)
	}
	p := ss.playJoin(sc)
	if p == nil {
		return
	}
	c := p.conn
	if c == nil {
		ss.drained()
		return
	}
	if p.err == nil && !c.hostile {
		if k.ctl > 0 {
			ss.controls(k, c)
		}
		if g.Bool(0.8) || sc.end != 0 {
			ss.quiet(c)
			if k.quietJk {
				ss.quietJunk(c)
			}
		}
		if sc.end != 0 {
			w.Await(5*time.Minute, func() bool { return c.ended || c.nc.Closed })
		}
	} else if c.hostile {
		w.Sleep(time.Duration(g.Int(3000)) * time.Millisecond)
	}
	ss.settle(c)
	ss.drained()
}

// quietJunk sends responses that nothing waits for, then uses the session.
func (ss *session) quietJunk(c *srvConn) {
	w := ss.w
	g := w.G
	if c.ended || c.nc.Closed || c.teardowns > 0 || !w.Strict {
		return
	}
	last := c.reqs[len(c.reqs)-1].cseq
	for n := 1 + g.Int(4); n > 0; n-- {
		cs := ""
		if g.Bool(0.5) {
			cs = fmt.Sprint(last + g.Int(4))
		}
		c.junk(cs, junkStatus[g.Int(len(junkStatus))])
	}
	w.Has("unawaited-in-quiet")
	w.Sleep(time.Duration(1000+g.Int(1500)) * time.Millisecond)
	ss.controls(&sessKnob{ctl: 2}, c)
}

// controls sends control requests on a playing session.
func (ss *session) controls(k *sessKnob, c *srvConn) {
	w := ss.w
	g := w.G
	s := ss.s
	n := 1 + g.Int(k.ctl)
	if k.many && g.Bool(0.004) {
		n = 30 + g.Int(300)
		w.Has("hundreds-of-requests")
	}
	for i := 0; i < n && !c.ended && !c.nc.Closed; i++ {
		if g.Bool(0.4) {
			w.Sleep(time.Duration(g.Int(500)) * time.Millisecond)
		}
		q, send := ss.genCtl(c)
		tear := g.Bool(k.tear)
		if tear {
			q = &ctlReq{conn: c, method: "TEARDOWN", url: c.srv.url, status: 200}
			send = s.SendTeardown
			ss.tornSelf = true
		} else if len(k.fates) > 0 && g.Bool(0.4) {
			q.fate = g.Weighted(k.fates...)
			switch q.fate {
			case fLate:
				q.delay = 2700*time.Millisecond + time.Duration(g.Int(3000))*time.Millisecond
			case fEdge:
				q.delay = 1600*time.Millisecond + time.Duration(g.Int(800))*time.Millisecond
			}
			if q.fate != fNone {
				w.S.Fault("control-" + faultName[q.fate])
			}
		}
		ss.ctl = append(ss.ctl, q)
		q.sentAt = w.S.Now()
		ss.log("send %s", q.method)
		// now and then two goroutines ask at the same moment
		var rival *simrt.Task
		var rerr error
		if !tear && q.method != "SETUP" && w.Prop != "C17" && g.Bool(0.25) {
			w.Has("rival-request")
			rival = w.S.Spawn("rival", func() { rerr = send() })
		}
		err := send()
		if rival != nil {
			if !w.Join(rival, stuck) {
				w.Fail("C18,C12", "request-stuck", "%s does not return: %s", q.method, rival.Describe())
				return
			}
		}
		dead := func() bool { return c.ended || c.nc.Closed || c.nc.WriteFailed() || c.hostile }
		if rival != nil && err == nil && rerr == nil && !dead() {
			w.Fail("C18", "second-request-accepted", "two goroutines send %s at the same moment and both are accepted", q.method)
		}
		if rival != nil && err != nil && rerr == nil {
			err = nil
		}
		if err != nil {
			q.waited, q.err = true, err
			if !dead() {
				w.Fail("C18", "request-refused", "%s on a playing session without an outstanding request is refused: %v", q.method, err)
			}
			return
		}
		if tear {
			ss.tornConn[c]++
		}
		// a second one is refused
		if g.Bool(0.5) {
			if g.Bool(0.5) {
				w.Sleep(time.Duration(g.Int(1500)) * time.Millisecond)
			}
			was := dead()
			for m := 1 + g.Int(2); m > 0; m-- {
				name, f := ss.anySend(c)
				ss.log("send %s while %s is outstanding", name, q.method)
				if err := f(); err == nil && !was && !dead() {
					w.Fail("C18", "second-request-accepted", "%s is accepted while the wait for %s has not returned", name, q.method)
				}
			}
			w.Has("second-request")
		}
		if g.Bool(0.2) {
			w.Sleep(time.Duration(g.Int(1500)) * time.Millisecond)
		}
		start := w.S.Now()
		deadBefore := dead()
		cb := ss.cbSlack()
		q.resp, q.err = s.WaitRtspResponse()
		end := w.S.Now()
		q.waited = true
		ss.log("wait for %s returned %v %v after %v", q.method, q.resp, q.err, end-start)
		if !w.Strict {
			if q.err != nil {
				return
			}
			continue
		}
		slack := ss.cbSlack() - cb
		if end-start > 2*time.Second+200*time.Millisecond+slack {
			w.Fail("C18", "wait-slow", "the wait for %s took %v", q.method, end-start)
		}
		if q.fate == fGarbage && q.replied {
			// an answer nobody can read: the session goes on or ends
			w.Has("control-garbage")
			if !ss.await(8*time.Second, func() bool { return c.nc.Closed }) && !dead() {
				continue
			}
			return
		}
		switch {
		case q.err == nil:
			if q.got == nil || !q.replied {
				w.Fail("C18,C14", "response-of-nothing", "the wait for %s returns status %d although the server has not answered it", q.method, q.resp.Status)
			} else if q.resp == nil || q.resp.Status != q.status {
				w.Fail("C18,C14", "wrong-response", "the wait for %s returns %+v, the server answered %d", q.method, q.resp, q.status)
			}
			w.Has("control-answered")
		default:
			if q.replied && q.replyAt < start+2*time.Second-700*time.Millisecond && !deadBefore && !(c.ended && !c.orderly) && slack == 0 && !c.nc.WriteFailed() {
				w.Fail("C18,C14", "response-lost", "the wait for %s (from %v) returns %v although the server answered at %v", q.method, start, q.err, q.replyAt)
			}
			w.Has("control-fails")
			if !ss.await(15*time.Second, func() bool { return c.nc.Closed }) {
				w.Fail("C18,C12", "connection-survives-timeout", "the wait for %s failed (%v) and the connection is still open 15s later", q.method, q.err)
			}
			return
		}
		if q.got == nil && q.err == nil {
			w.Fail("C18", "request-not-sent", "%s never reached the server", q.method)
		}
	}
}

func (ss *session) anySend(c *srvConn) (string, func() error) {
	s := ss.s
	switch ss.w.G.Int(5) {
	case 0:
		return "PAUSE", s.SendPause
	case 1:
		return "PLAY", func() error { return s.SendPlay(7, 3) }
	case 2:
		return "DESCRIBE", s.SendDescribe
	case 3:
		return "SETUP", func() error { return s.SendTcpSetup(c.srv.url+"/no", 250, 251) }
	}
	return "TEARDOWN", s.SendTeardown
}

// slow makes some callbacks block for a while.
func (ss *session) slow(p float64) {
	w := ss.w
	g := w.G
	if !g.Bool(p) {
		return
	}
	n := 1 + g.Int(3)
	most := 900
	if g.Bool(0.2) {
		most = 7000
		w.Has("very-slow-callback")
	}
	w.Has("slow-callback")
	ss.onData = func(int) {
		if n > 0 && g.Bool(0.3) {
			n--
			w.Sleep(time.Duration(g.Int(most)) * time.Millisecond)
		}
	}
}

func runBasic(w *World, k *sessKnob) {
	n := 1
	if k.n > 1 {
		n = 2 + w.G.Int(k.n-1)
	}
	lock := k.lock && w.G.Bool(0.3)
	if lock {
		// all do the same at the same time
		w.Has("lockstep")
		kk := *k
		kk.host, kk.sk.delays, kk.sk.faults, kk.sk.creds = nil, false, nil, 1
		kk.sk.auth = [][]int{{1}, {0, 1}, {0, 0, 1}, {0, 0, 1}}[w.G.Int(4)]
		k = &kk
	}
	if k.lock && w.G.Bool(0.3) {
		w.Has("same-server")
		kk := *k
		kk.host, kk.share = nil, &share{}
		k = &kk
	}
	var all []*session
	var ts []*simrt.Task
	for i := 0; i < n; i++ {
		ss := prepare(w, i)
		ss.ws = w.G.Bool(k.ws)
		ss.slow(k.slowCB)
		all = append(all, ss)
		if n == 1 {
			ss.create()
			break
		}
		own := w.G.Bool(0.5)
		if !own {
			ss.create()
		}
		kk := *k
		if i > 0 {
			kk.hostile = 0 // the others are innocent
		}
		ts = append(ts, w.S.Spawn(fmt.Sprintf("app%d", i), func() {
			w.S.CurTask().Group = i + 1
			if own {
				ss.create()
			}
			if !lock && w.G.Bool(0.5) {
				w.Sleep(time.Duration(w.G.Int(800)) * time.Millisecond)
			}
			ss.basic(&kk)
		}))
	}
	if n == 1 {
		all[0].basic(k)
	}
	for _, t := range ts {
		if !w.Join(t, 2*stuck) {
			w.Fail("C07,C16", "stuck", "a session does not come to an end: %s", t.Describe())
			return
		}
	}
	if len(w.S.Viols) > 0 {
		return
	}
	for _, ss := range all {
		ss.finish()
	}
	allEnded(w, all)
}

// ---- closing ----

func runClose(w *World, k *sessKnob) {
	g := w.G
	ss := newSession(w, 0)
	ss.ws = g.Bool(k.ws)
	closeTask := func(name string, f func()) *simrt.Task {
		return w.S.Spawn(name, f)
	}
	var ts []*simrt.Task
	if g.Bool(0.2) {
		w.Has("close-before-play")
		ss.close("main before Play")
		if g.Bool(0.3) {
			ss.close("main before Play")
		}
	}
	v := ss.server(k)
	sc := ss.script(k, v)
	n, used := 1+g.Int(3), false
	if g.Bool(0.15) {
		n, used = 0, g.Bool(0.7)
	}
	cbEvent, cbData := 0, -1
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("closer%d", i)
		switch g.Int(8) {
		case 7: // when an answer of the handshake has just been read
			m := 1 + g.Int(len(sc.ms)+3)
			if g.Bool(0.4) {
				m = 1
			}
			later := g.Int(20)
			w.Has("close-by-answer")
			ts = append(ts, closeTask(name, func() {
				w.Await(10*time.Second, func() bool {
					if len(ss.conns) == 0 || len(ss.conns[0].reqs) < m {
						return false
					}
					c := ss.conns[0]
					return c.nc.Closed || c.reqs[m-1].endOff > 0 && c.nc.ReadBytes >= c.reqs[m-1].endOff
				})
				for ; later > 0; later-- {
					simrt.Gosched(-1)
				}
				ss.close(name)
			}))
		case 6: // when the answer to the TEARDOWN of another Close has been read
			w.Has("close-after-teardown")
			ts = append(ts, closeTask(name, func() {
				w.Await(20*time.Second, func() bool {
					if len(ss.conns) == 0 {
						return false
					}
					c := ss.conns[0]
					return c.nc.Closed || c.tdAnswered > 0 && c.nc.ReadBytes >= c.tdAnswered
				})
				ss.close(name)
			}))
		case 0: // after some time
			d := time.Duration(g.Int(300)) * time.Millisecond
			if g.Bool(0.4) {
				d = time.Duration(g.Int(4000)) * time.Millisecond
			}
			w.Has("close-by-time")
			ts = append(ts, closeTask(name, func() {
				if d > 0 {
					w.Sleep(d)
				}
				ss.close(name)
			}))
		case 1: // when the server has seen so many requests
			m := 1 + g.Int(len(sc.ms)+3)
			w.Has("close-by-request")
			ts = append(ts, closeTask(name, func() {
				w.Await(10*time.Second, func() bool { return len(ss.conns) > 0 && ss.conns[0].nreq >= m })
				ss.close(name)
			}))
		case 2:
			cbEvent = 1 + g.Int(3)
			w.Has("close-in-event-callback")
		case 3:
			cbData = g.Int(4)
			w.Has("close-in-data-callback")
		case 4: // as soon as the dial starts or the connection is there
			dial := g.Bool(0.5)
			w.Has("close-at-dial")
			ts = append(ts, closeTask(name, func() {
				w.Await(10*time.Second, func() bool {
					return dial && ss.cur != nil && ss.cur.dialed || len(ss.conns) > 0
				})
				ss.close(name)
			}))
		case 5: // when the play has returned
			w.Has("close-after-play")
			ts = append(ts, closeTask(name, func() {
				w.Await(stuck, func() bool { return ss.cur != nil && ss.cur.done })
				if g.Bool(0.5) {
					w.Sleep(time.Duration(g.Int(600)) * time.Millisecond)
				}
				ss.close(name)
			}))
		}
	}
	ss.onEvent = func(typ int) {
		want := []int{0, rtspclient.RtspEventRequestSuccess, rtspclient.RtspEventRequestError, rtspclient.RtspEventDisconnected}[cbEvent]
		if cbEvent > 0 && typ == want {
			ss.close("event callback")
		}
	}
	ss.onData = func(i int) {
		if i == cbData {
			ss.close("data callback")
		}
	}
	p := ss.playJoin(sc)
	if p == nil {
		return
	}
	for _, t := range ts {
		if !w.Join(t, stuck) {
			w.Fail("C12", "close-stuck", "Close has not returned after %v: %s", stuck, t.Describe())
			return
		}
	}
	if p.err == nil && p.conn != nil && n == 0 && len(ss.closes) == 0 {
		// used, then closed by one goroutine
		if used {
			ss.controls(k, p.conn)
		}
		ss.close("main")
		w.Has("close-after-controls")
	} else if p.err == nil && p.conn != nil && len(ss.closes) == 0 {
		ss.quiet(p.conn)
	}
	// a Close called while a connection was being made, or after, ends it
	for _, r := range ss.closes {
		if r.play == nil || r.play.conn == nil {
			continue
		}
		c := r.play.conn
		if !ss.await(20*time.Second, func() bool { return c.nc.Closed }) {
			w.Fail("C12", "close-without-effect", "Close was called at %v and the connection (dialled for the play of %v, made at %v) is still open at %v", r.start, r.play.start, c.nc.Dialed, w.S.Now())
			return
		}
		w.Has("closed-by-application")
	}
	if p.conn != nil {
		ss.settle(p.conn)
	}
	ss.drained()
	ss.finish()
	if g.Bool(0.5) {
		ss.close("after the end")
	}
	allEnded(w, []*session{ss})
}

// ---- playing again ----

func runReplay(w *World, k *sessKnob) {
	g := w.G
	ss := newSession(w, 0)
	rounds := 2 + g.Int(max(1, k.plays-1))
	var servers []*server
	next := func() (*server, *script) {
		var v *server
		if len(servers) > 0 && g.Bool(0.5) {
			v = servers[g.Int(len(servers))]
		} else {
			v = ss.server(k)
			servers = append(servers, v)
		}
		return v, ss.script(k, v)
	}
	mixed := g.Bool(k.ws)
	ss.slow(0.2)
	var fromCB *script
	cbDone := true
	cbPlays := 0
	ss.onEvent = func(typ int) {
		if typ != rtspclient.RtspEventDisconnected || fromCB == nil || !ss.cur.done {
			return
		}
		sc := fromCB
		fromCB = nil
		cbPlays++
		w.Has("play-from-callback")
		ss.play(sc)
		ss.published()
		cbDone = true
	}
	for r := 0; r < rounds; r++ {
		if mixed {
			ss.ws = g.Bool(0.5)
		}
		_, sc := next()
		var p *play
		first, cb := w.S.Now(), ss.cbSlack()
		for {
			p = ss.playJoin(sc)
			if p == nil {
				return
			}
			if !p.refused {
				break
			}
			w.Has("refused-play")
			if d := w.S.Now() - first; d > 30*time.Second+ss.cbSlack()-cb {
				w.Fail("C13,C11", "refused-forever", "the session is still connected %v after its connection was ended", d)
				return
			}
			w.Sleep(10 * time.Millisecond)
		}
		if len(w.S.Viols) > 0 {
			return
		}
		c := p.conn
		if c != nil && p.err == nil {
			if k.ctl > 0 && g.Bool(0.5) {
				ss.controls(k, c)
			}
			if g.Bool(0.8) {
				ss.quiet(c)
			}
		}
		if c == nil {
			continue
		}
		// how this round ends, and from where the next play comes
		last := r == rounds-1
		inCB := !last && g.Bool(0.5) && !c.nc.Closed
		if inCB {
			_, nsc := next()
			if ss.ws != mixedWs(g, mixed, ss.ws) {
				// the transport of the next play may differ
			}
			fromCB, cbDone = nsc, false
			r++
		}
		if c.sc.end == 0 || c.sc.end != 0 && g.Bool(0.3) || p.err != nil || last || c.sc.stallAt >= 0 {
			ss.close("main")
			w.Has("replay-after-close")
		} else {
			ss.overOrClose(c)
			w.Has("replay-after-server-end")
		}
		if inCB {
			if !w.Await(stuck, func() bool { return cbDone }) {
				if fromCB != nil {
					w.Fail("C11,C13", "no-disconnected", "no disconnected event within %v of the end", stuck)
				} else {
					w.Fail("C07,C13", "play-stuck", "a play from the disconnected callback does not return")
				}
				return
			}
			ss.observed()
			n := ss.cur
			if n.conn != nil && n.err == nil {
				ss.quiet(n.conn)
				if k.ctl > 0 && g.Bool(0.3) {
					ss.controls(k, n.conn)
				}
			}
			if n.conn != nil && !n.conn.nc.Closed {
				if n.conn.sc.end != 0 && n.err == nil && g.Bool(0.5) {
					ss.overOrClose(n.conn)
				} else {
					ss.close("main")
				}
				ss.await(20*time.Second, func() bool { return n.conn.nc.Closed })
			}
			continue
		}
		// the next play comes at once (and may be refused), or later
		if g.Bool(0.5) {
			ss.settle(c)
			if g.Bool(0.5) {
				ss.drained()
			}
		}
	}
	ss.finish()
	allEnded(w, []*session{ss})
}

// overOrClose waits for the end of a connection that the server will end.
func (ss *session) overOrClose(c *srvConn) {
	if !ss.w.Await(5*time.Minute, func() bool { return c.ended || c.nc.Closed }) {
		ss.close("main")
	}
}

func mixedWs(g *simrt.Tape, mixed, cur bool) bool { return cur }

func init() {
	mk := func(k *sessKnob) func(*World) { return func(w *World) { runBasic(w, k) } }
	okAuth := []int{6, 1, 1, 1, 1}
	td := []int{6, 2, 1, 1, 1, 1, 1, 1}
	A := &sessKnob{sk: scriptKnob{maxMedia: 4, auth: okAuth, creds: 0.7, faults: []int{6, 2}, delays: true, early: 0.4, units: 12, td: td, rtcp: true}}
	B := &sessKnob{sk: scriptKnob{maxMedia: 2, auth: []int{4, 1, 1, 1, 0, 1}, creds: 0.6, faults: []int{2, 1, 2, 2, 2, 2, 2, 2, 2, 2}, delays: true, early: 0.2, units: 4, td: td, ends: []int{6, 1, 1, 1, 1}},
		ws: 0.25, wsFault: true, host: []int{12, 1, 1, 1, 1, 1}, stall: 0.1, wfail: 0.1, windows: true, slowCB: 0.2}
	C := &sessKnob{sk: scriptKnob{maxMedia: 3, auth: []int{1, 3, 3, 3, 3, 2}, creds: 0.75, faults: []int{8, 1}, delays: true, units: 3, td: td}, plays: 3, ctl: 2}
	D := &sessKnob{sk: scriptKnob{maxMedia: 3, auth: []int{1}, delays: false, early: 0.3, units: 40, ends: []int{3, 4, 2, 2, 1}, tiny: true, big: 0.01, td: []int{1}, slowMedia: true, rtcp: true}, ws: 0.1, ctl: 0, slowCB: 0.3}
	E := &sessKnob{sk: scriptKnob{maxMedia: 3, auth: []int{3, 1, 1, 1, 0, 1}, creds: 0.6, faults: []int{6, 1, 1, 0, 0, 1, 1, 1, 1, 1}, early: 0.5, units: 20, ends: []int{3, 1, 1, 1, 1}, tiny: true, td: td, junk: true, rtcp: true}, ws: 0.2, hostile: 1}
	F := &sessKnob{sk: scriptKnob{maxMedia: 2, auth: []int{1}, faults: []int{8, 1, 1, 1, 1, 1, 1, 1, 1, 1}, delays: true, units: 10, ends: []int{2, 3, 3, 2, 2}, td: td, junk: true, rtcp: true},
		ws: 0.15, wfail: 0.1, stall: 0.1, windows: true, ctl: 2, fates: []int{2, 0, 1, 1, 1, 1, 1, 0, 0, 1}, slowCB: 0.2, host: []int{20, 1, 1, 1}}
	G := &sessKnob{sk: scriptKnob{maxMedia: 2, auth: []int{3, 0, 2}, creds: 1, faults: []int{12, 1, 1, 1, 1, 1, 1}, delays: true, early: 0.3, units: 10, ends: []int{6, 1, 1, 1}, td: td},
		ws: 0.2, host: []int{12, 1, 1, 1, 1, 1}, stall: 0.1, wfail: 0.05, windows: true, closers: true, ctl: 2, tear: 0.3, fates: []int{4, 0, 1, 1, 1, 1, 1, 0, 0, 3}}
	H := &sessKnob{sk: scriptKnob{maxMedia: 3, auth: []int{4, 1, 2}, creds: 0.6, faults: []int{14, 1, 1, 1, 0, 1, 1, 1}, delays: true, early: 0.3, units: 10, ends: []int{4, 2, 2, 2, 1}, td: td, rtcp: true},
		plays: 4, host: []int{20, 1, 0, 1}, ctl: 2, fates: []int{3, 0, 1, 1, 1, 1, 1, 0, 0, 1}, ws: 0.25}
	I := &sessKnob{sk: scriptKnob{maxMedia: 2, auth: []int{4, 0, 1}, creds: 1, delays: true, early: 0.3, units: 12, ends: []int{4, 2, 1, 1}, td: td, junk: true, rtcp: true}, ctl: 3, quietJk: true}
	J := &sessKnob{sk: scriptKnob{maxMedia: 3, auth: []int{4, 1, 1, 1}, creds: 0.8, faults: []int{10, 1, 1, 1, 0, 1, 1, 1, 1}, delays: true, early: 0.3, units: 20, ends: []int{4, 2, 1, 1}, td: td, tiny: true, rtcp: true},
		ws: 1, wsFault: true, ctl: 2, host: []int{20, 1, 1, 1, 1, 1}, stall: 0.08, windows: true}
	K := &sessKnob{sk: scriptKnob{maxMedia: 2, auth: []int{4, 1, 1}, creds: 0.6, faults: []int{10, 1, 1, 0, 0, 1, 1}, delays: true, early: 0.3, units: 10, ends: []int{4, 1, 1}, td: td, tiny: true, rtcp: true},
		n: 3, lock: true, ws: 0.2, ctl: 2, hostile: 0.3, host: []int{15, 1, 0, 1}}
	L := &sessKnob{sk: scriptKnob{maxMedia: 2, auth: []int{3, 1, 1, 1}, creds: 1, units: 14, ends: []int{6, 1, 1}, td: td, slowMedia: true, rtcp: true},
		ctl: 6, many: true, tear: 0.05, fates: []int{4, 0, 1, 1, 1, 1, 1, 0, 0, 2}, ws: 0.1}
	reg := func(name string, f func(*World), stalls bool, uses map[string]int) {
		uses["C17"] = 1
		if name == "sess-close" {
			uses["C17"] = 4
		}
		register(&Scenario{Name: name, Run: f, Stalls: stalls}, uses)
	}
	reg("sess-handshake", mk(A), false, map[string]int{"C06": 6, "C08": 1})
	reg("sess-outcome", mk(B), true, map[string]int{"C07": 6, "C10": 1})
	reg("sess-auth", func(w *World) { runAuth(w, C) }, false, map[string]int{"C08": 6, "C06": 1, "C13": 1})
	reg("sess-media", mk(D), false, map[string]int{"C09": 6})
	reg("sess-hostile", mk(E), true, map[string]int{"C10": 6})
	reg("sess-end", mk(F), true, map[string]int{"C11": 6, "C09": 1, "C12": 1, "C18": 1})
	reg("sess-close", func(w *World) { runClose(w, G) }, true, map[string]int{"C12": 6, "C07": 1, "C11": 1})
	reg("sess-replay", func(w *World) { runReplay(w, H) }, false, map[string]int{"C13": 6, "C06": 1, "C11": 1})
	reg("sess-junk", mk(I), false, map[string]int{"C14": 6, "C11": 1, "C18": 1})
	reg("sess-ws", mk(J), false, map[string]int{"C15": 6, "C12": 1, "C11": 1})
	reg("sess-multi", mk(K), false, map[string]int{"C16": 6})
	reg("sess-control", mk(L), false, map[string]int{"C18": 6, "C14": 1, "C12": 1})
}

// runAuth plays servers with and without credentials one after the other.
func runAuth(w *World, k *sessKnob) {
	g := w.G
	ss := newSession(w, 0)
	n := 1 + g.Int(k.plays)
	var vs []*server
	for i := 0; i < n; i++ {
		var v *server
		if i > 0 && g.Bool(0.3) {
			v = vs[g.Int(len(vs))]
		} else {
			v = ss.server(k)
			vs = append(vs, v)
		}
		sc := ss.script(k, v)
		p := ss.playJoin(sc)
		if p == nil || len(w.S.Viols) > 0 {
			return
		}
		if c := p.conn; c != nil {
			if p.err == nil && k.ctl > 0 && g.Bool(0.5) {
				ss.controls(k, c)
			}
			if !c.nc.Closed {
				ss.close("main")
			}
			w.Await(20*time.Second, func() bool { return c.nc.Closed })
			ss.drained()
		}
	}
	ss.finish()
	allEnded(w, []*session{ss})
}

var _ = simnet.SegWhole
