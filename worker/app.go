package worker

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/NodeBoy2/rtspclient"
	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

// The application's side: one RtspClientSession, what it reported and what the
// application did with it.

type session struct {
	w      *World
	id     int
	s      *rtspclient.RtspClientSession
	ws     bool
	manual bool // the application makes the connections itself

	cur    *play
	plays  []*play
	conns  []*srvConn
	evs    []sessEv
	data   []sessData
	closes []*closeRec
	ctl    []*ctlReq

	disc      int // disconnected events
	dialFails int
	inCB      int
	slowUntil time.Duration
	cbBlocked time.Duration // time callbacks have blocked the library
	tornSelf  bool          // the application sent TEARDOWN itself
	tornConn  map[*srvConn]int

	onEvent func(typ int)
	onData  func(n int)
	open    map[int]bool
	hb      int // address: the application's own synchronisation
}

// published and observed are the application's own synchronisation of one
// goroutine's use of the session with another's.
func (ss *session) published() { simrt.Release(ss.w.S.CurTask(), unsafe.Pointer(&ss.hb)) }
func (ss *session) observed()  { simrt.Acquire(ss.w.S.CurTask(), unsafe.Pointer(&ss.hb)) }

type sessEv struct {
	typ  int
	at   time.Duration
	play *play // the play in progress, if any
}

type sessData struct {
	ch        int
	data, ref []byte
	at        time.Duration
	discs     int
}

type play struct {
	n        int
	sc       *script
	conn     *srvConn
	err      error
	start    time.Duration
	end      time.Duration
	done     bool
	refused  bool // the session was still connected
	outcomes []int
	closed   bool // Close was called during it
	task     *simrt.Task
	wasConn  bool
	dialed   bool // dialling has begun
	media    map[int]rtspclient.MediaSubsession
}

type closeRec struct {
	start, end time.Duration
	done       bool
	playing    *srvConn // connection that was playing and answering
	play       *play    // the play whose connection must end with it
}

func newSession(w *World, id int) *session {
	ss := prepare(w, id)
	ss.create()
	return ss
}

func prepare(w *World, id int) *session {
	return &session{w: w, id: id, tornConn: map[*srvConn]int{}}
}

// create makes the session of the library.
func (ss *session) create() {
	ss.s = rtspclient.NewRtspClientSession(ss.handleData, ss.handleEvent)
}

func (ss *session) log(f string, a ...any) {
	ss.w.S.Logf("app%d %s", ss.id, fmt.Sprintf(f, a...))
}

func (ss *session) handleEvent(e *rtspclient.RtspEvent) {
	w := ss.w
	name := map[int]string{rtspclient.RtspEventRequestSuccess: "success", rtspclient.RtspEventRequestError: "error", rtspclient.RtspEventDisconnected: "disconnected"}[e.EventType]
	ss.log("event %s", name)
	if e.Session != ss.s {
		w.Fail("C07,C11,C16", "foreign-event", "an event names another session")
	}
	ss.evs = append(ss.evs, sessEv{e.EventType, w.S.Now(), ss.cur})
	switch e.EventType {
	case rtspclient.RtspEventRequestSuccess, rtspclient.RtspEventRequestError:
		if ss.cur == nil || ss.cur.done {
			w.Fail("C07,C13", "stray-outcome", "a %s event is reported while no play is in progress", name)
			break
		}
		ss.cur.outcomes = append(ss.cur.outcomes, e.EventType)
		if len(ss.cur.outcomes) > 1 {
			w.Fail("C07", "two-outcomes", "play %d reports outcome %d after %d", ss.cur.n, e.EventType, ss.cur.outcomes[0])
		}
	case rtspclient.RtspEventDisconnected:
		ss.disc++
		closed := 0
		for _, c := range ss.conns {
			if c.nc.Closed {
				closed++
			}
		}
		fails := ss.dialFails
		if p := ss.cur; p != nil && !p.done && p.conn == nil {
			fails++ // this dial is failing now
		}
		if ss.disc > closed+fails {
			w.Fail("C11", "disconnected-too-often", "disconnected event number %d, %d connections have ended and %d could not be made", ss.disc, closed, fails)
		}
	default:
		w.Fail("C07,C11", "unknown-event", "event type %d", e.EventType)
	}
	ss.callback(func() {
		if ss.onEvent != nil {
			ss.onEvent(e.EventType)
		}
	})
}

func (ss *session) callback(f func()) {
	t := ss.w.S.Now()
	ss.inCB++
	ss.cbBlocked -= t // cbSlack adds the present while it runs
	f()
	ss.inCB--
	ss.cbBlocked += ss.w.S.Now()
}

func (ss *session) handleData(d *rtspclient.RtspData) {
	w := ss.w
	if d.Session != ss.s {
		w.Fail("C09,C16", "foreign-data", "data names another session")
	}
	n := len(ss.data)
	ss.data = append(ss.data, sessData{d.ChannelNum, append([]byte(nil), d.Data...), d.Data, w.S.Now(), ss.disc})
	if w.S.Cfg.Trace {
		ss.log("data channel %d %s", d.ChannelNum, brief(d.Data))
	}
	if ss.disc >= len(ss.conns)+ss.dialFails {
		w.Fail("C11", "data-after-disconnected", "data on channel %d after the disconnected event of its connection", d.ChannelNum)
	}
	if ss.onData != nil {
		ss.callback(func() { ss.onData(n) })
	}
}

// play plays a script; the caller is a workload task or a callback.
func (ss *session) play(sc *script) *play {
	w := ss.w
	p := &play{n: len(ss.conns), sc: sc, start: w.S.Now(), task: w.S.CurTask()}
	sc.srv.take()
	defer sc.srv.release()
	p.start = w.S.Now()
	ss.plays = append(ss.plays, p)
	ss.cur = p
	for _, r := range ss.closes {
		// a Close still under way may take effect after Play has begun
		p.closed = p.closed || !r.done
	}
	p.wasConn = ss.disc < len(ss.conns)+ss.dialFails
	dials := len(w.Net.Dials)
	ss.log("Play %s", sc.srv.full)
	if ss.manual {
		// the application makes the connection
		w.Has("own-connection")
		p.err = ss.s.ParsingURL(sc.srv.full)
		if p.err == nil {
			nc, err := simnet.DialTimeout("tcp", sc.srv.host, 2*time.Second)
			if err != nil {
				w.Fail("C06", "no-connection", "the application cannot connect to %s: %v", sc.srv.host, err)
			} else {
				p.err = ss.s.SetConnection(nc)
			}
		}
	} else if ss.ws {
		p.err = ss.s.PlayUseWebsocket("ws://"+sc.srv.host+"/ws/live", sc.srv.full)
	} else {
		p.err = ss.s.Play(sc.srv.full)
	}
	p.end = w.S.Now()
	p.done = true
	sc.srv.release()
	ss.log("Play returned %v after %v", p.err, p.end-p.start)
	if p.conn == nil && p.wasConn && p.err != nil && len(w.Net.Dials) == dials && p.end == p.start {
		p.refused = true
		if len(p.outcomes) > 0 {
			w.Fail("C07", "outcome-of-refused-play", "a play refused because the session is connected reports outcome %d", p.outcomes[0])
		}
		return p
	}
	if p.conn == nil {
		ss.dialFails++
	}
	ss.checkPlay(p)
	return p
}

func (ss *session) dialLimit() time.Duration {
	if ss.ws {
		return 46 * time.Second
	}
	return 2 * time.Second
}

// checkPlay judges a play at its return.
func (ss *session) checkPlay(p *play) {
	w := ss.w
	fail := func(props, class, f string, a ...any) {
		if p.n > 0 {
			props += ",C13"
		}
		w.Fail(props, class, "play %d of %s: %s", p.n, p.sc.srv.host, fmt.Sprintf(f, a...))
	}
	took := p.end - p.start
	c := p.conn
	if c == nil {
		if p.err == nil {
			fail("C07", "success-without-connection", "Play returns success although no connection could be made")
		}
		if len(p.outcomes) > 0 {
			fail("C07", "outcome-without-connection", "outcome event %d although no connection could be made", p.outcomes[0])
		}
		if h := p.sc.srv.h; h != nil && !h.Refuse && !h.Never && !h.NoRoute && h.Delay < ss.dialLimit()-10*time.Millisecond && w.Strict && !p.closed {
			fail("C06,C07", "no-connection", "no connection is made although the server accepts: %v", p.err)
		}
	}
	reqs := 0
	if c != nil {
		reqs = len(c.reqs)
	}
	if lim := ss.dialLimit() + 2*time.Second*time.Duration(reqs+1) + time.Second; w.Strict && took > lim+ss.cbSlack() {
		fail("C07,C10,C12", "play-slow", "Play took %v with %d requests (limit %v)", took, reqs, lim)
	}
	if c == nil {
		return
	}
	up := c.ws == nil || c.ws.up && c.nc.ReadBytes >= c.ws.upEnd
	if c.ws != nil && !up && !c.hostile && p.err == nil {
		fail("C07,C15", "success-without-upgrade", "Play returns success although the WebSocket handshake failed")
	}
	if p.err == nil {
		if !c.hostile {
			if !c.playing || c.failed {
				fail("C07,C06,C08", "false-success", "Play returns success although the server did not answer every step with 200 (described %v, %d of %d set up, playing %v, failed %v)", c.described, c.setups, len(c.sc.ms), c.playing, c.failed)
			} else {
				p.media = ss.s.RtpMediaMap
				if why := checkMediaMap(p.media, c.sc.ms); why != "" {
					fail("C06", "media-map", "published media map: %s", why)
				}
			}
			w.Has("play-succeeds")
		}
		c.known = true
	} else {
		w.Has("play-fails")
		if m := ss.s.RtpMediaMap; up && !c.hostile && len(m) > 0 {
			why := checkMediaMap(m, c.sc.ms)
			if !c.described {
				why = fmt.Sprintf("channels %d of an earlier play", len(m))
			}
			if why != "" {
				fail("C06", "media-map", "published media map after a failed play: %s", why)
			}
		}
		if c.clean() && w.Strict && !p.closed && up && !(c.sc.faultAt >= 0 && c.sc.fault == fEdge) && (!c.ended || c.orderly && c.playing) && ss.cbSlack() == 0 {
			fail("C06,C07,C14", "false-failure", "Play fails (%v) although every request was answered with 200 in time (%d requests)", p.err, reqs)
		}
	}
	if up || len(p.outcomes) > 0 {
		want := rtspclient.RtspEventRequestSuccess
		if p.err != nil {
			want = rtspclient.RtspEventRequestError
		}
		if len(p.outcomes) == 0 {
			fail("C07", "no-outcome", "Play returned %v and reported no outcome event", p.err)
		} else if len(p.outcomes) > 0 && p.outcomes[0] != want {
			fail("C07", "wrong-outcome", "Play returned %v and reported outcome event %d", p.err, p.outcomes[0])
		}
	}
	if !up && len(p.outcomes) == 0 {
		// no session connection came about
		ss.wsRefused(c)
	}
}

// wsRefused notes that the connection of a failed upgrade counts as a failed dial.
func (ss *session) wsRefused(c *srvConn) {}

func (ss *session) cbSlack() time.Duration {
	return ss.cbBlocked + time.Duration(ss.inCB)*ss.w.S.Now()
}

// await waits for something that callbacks of the application may delay: the
// time that they take while it waits does not count.
func (ss *session) await(d time.Duration, cond func() bool) bool {
	return awaitAll(ss.w, []*session{ss}, d, cond)
}

func awaitAll(w *World, all []*session, d time.Duration, cond func() bool) bool {
	slack := func() (t time.Duration) {
		for _, ss := range all {
			t += ss.cbSlack()
		}
		return t
	}
	start, cb := w.S.Now(), slack()
	for {
		left := d - (w.S.Now() - start) + (slack() - cb)
		if left <= 0 {
			return cond()
		}
		if w.Await(left, cond) {
			return true
		}
	}
}

// close closes the session.
func (ss *session) close(who string) *closeRec {
	w := ss.w
	r := &closeRec{start: w.S.Now()}
	ss.closes = append(ss.closes, r)
	if p := ss.cur; p != nil {
		if !p.done {
			p.closed = true
		}
		if p.dialed {
			r.play = p
		}
	}
	earlier := false
	for _, o := range ss.closes[:len(ss.closes)-1] {
		earlier = earlier || o.play != nil && o.play == ss.cur
	}
	if c := ss.live(); c != nil && !earlier && c.play.done && c.play.err == nil && !c.ended && c.playing && !c.hostile && ss.outstanding() == nil {
		r.playing = c
	}
	ss.log("Close from %s", who)
	b := ss.cbSlack()
	ss.s.Close()
	r.end = w.S.Now()
	r.done = true
	ss.log("Close returned after %v", r.end-r.start)
	if d := r.end - r.start - (ss.cbSlack() - b); w.Strict && d > 10*time.Second {
		w.Fail("C12", "close-slow", "Close took %v", d)
	}
	return r
}

// live is the connection in use, if any.
func (ss *session) live() *srvConn {
	if n := len(ss.conns); n > 0 && !ss.conns[n-1].nc.Closed {
		return ss.conns[n-1]
	}
	return nil
}

// ---- control requests ----

type ctlReq struct {
	method  string
	url     string
	check   func(r *request) string
	status  int
	delay   time.Duration
	fate    int // fNone, fSilent, fLate, fFin, fRst, fEdge
	got     *request
	conn    *srvConn
	waiting bool
	waited  bool
	resp    *rtspclient.RtspResponseContext
	err     error
	sentAt  time.Duration
	replied bool
	replyAt time.Duration
	body    string
}

func (ss *session) outstanding() *ctlReq {
	if n := len(ss.ctl); n > 0 && !ss.ctl[n-1].waited {
		return ss.ctl[n-1]
	}
	return nil
}

// unseen is the latest control request, if the server has not seen it yet.
func (ss *session) unseen(c *srvConn) *ctlReq {
	if n := len(ss.ctl); n > 0 && ss.ctl[n-1].conn == c && ss.ctl[n-1].got == nil {
		return ss.ctl[n-1]
	}
	return nil
}

// control answers a request of a playing session.
func (c *srvConn) control(k int, r *request) (status int, extra []string, body string, ok bool) {
	q := c.sess.unseen(c)
	if q == nil {
		c.fail("C06,C18", "extra-request", "%s arrives on a playing session although the application sent no such request", r.method)
		return
	}
	q.got = r
	if r.method != q.method || r.url != q.url {
		c.fail("C18", "wrong-request", "the application sent %s for %s, the server receives %s %s", q.method, q.url, r.method, r.url)
		return
	}
	if q.check != nil {
		if why := q.check(r); why != "" {
			c.fail("C18", "wrong-parameters", "%s: %s (%q)", r.method, why, r.raw)
			return
		}
	}
	r.status = q.status
	do := func() {
		if c.ended {
			return
		}
		switch q.fate {
		case fSilent:
			c.w.S.Fault("server-silent")
			return
		case fFin:
			c.fin(true)
			return
		case fRst:
			c.rst()
			return
		case fGarbage:
			c.log("-> garbage to %s", r.method)
			c.out([]byte(garbage[c.w.G.Int(5)]))
			r.answered = true
			q.replied, q.replyAt = true, c.w.S.Now()
			r.endOff, r.dataOff = c.sentRaw, c.sentData
			return
		}
		c.junkAround(r, true)
		c.log("-> %d to %s (CSeq %d)", q.status, r.method, r.cseq)
		var e []string
		if c.sc.sid != "" && c.w.G.Bool(0.5) {
			e = append(e, fmt.Sprintf(c.sc.sidForm, c.sc.sid))
		}
		c.out(c.answer(r, q.status, e, q.body))
		r.answered = true
		q.replied, q.replyAt = true, c.w.S.Now()
		r.endOff, r.dataOff = c.sentRaw, c.sentData
		c.junkAround(r, false)
	}
	if q.delay > 0 {
		c.w.S.After(q.delay, "control answer", do)
	} else {
		do()
	}
	return 0, nil, "", false
}

// checkHeaderNum reads a number out of a header.
func headerFloat(v, pre, post string) (float64, bool) {
	if !strings.HasPrefix(v, pre) || !strings.HasSuffix(v, post) || len(v) < len(pre)+len(post) {
		return 0, false
	}
	f, err := strconv.ParseFloat(v[len(pre):len(v)-len(post)], 64)
	return f, err == nil
}

// genCtl draws a control request and returns it with the call that sends it.
func (ss *session) genCtl(c *srvConn) (*ctlReq, func() error) {
	g := ss.w.G
	q := &ctlReq{conn: c, url: c.srv.url, status: []int{200, 200, 455, 457, 501, 299, 100}[g.Int(7)]}
	if g.Bool(0.3) {
		q.delay = time.Duration(g.Int(1300)) * time.Millisecond
	}
	if g.Bool(0.15) {
		q.body = "some: text\r\n\r\n$"
	}
	s := ss.s
	switch g.Weighted(3, 4, 1, 1) {
	case 0:
		q.method = "PAUSE"
		return q, s.SendPause
	case 1:
		q.method = "PLAY"
		start := []int{0, 1, 30, 3600, 123456, g.Int(90000)}[g.Int(6)]
		speed := []int{1, 2, 4, 8, -1, 16}[g.Int(6)]
		q.check = func(r *request) string {
			rg, sp := r.get("Range"), r.get("Speed")
			if start != 0 {
				if f, ok := headerFloat(rg, "npt=", "-"); !ok || f != float64(start) {
					return fmt.Sprintf("start %d, the Range header is %q", start, rg)
				}
			} else if rg != "" {
				if f, ok := headerFloat(rg, "npt=", "-"); rg != "npt=now-" && (!ok || f != 0) {
					return fmt.Sprintf("no start time was given, the Range header is %q", rg)
				}
			}
			if speed != 1 {
				if f, ok := headerFloat(sp, "", ""); !ok || f != float64(speed) {
					return fmt.Sprintf("speed %d, the Speed header is %q", speed, sp)
				}
			} else if sp != "" {
				if f, ok := headerFloat(sp, "", ""); !ok || f != 1 {
					return fmt.Sprintf("no speed was given, the Speed header is %q", sp)
				}
			}
			return ""
		}
		return q, func() error { return s.SendPlay(start, speed) }
	case 2:
		q.method = "DESCRIBE"
		return q, s.SendDescribe
	}
	q.method = "SETUP"
	q.url = c.srv.base + "/extra"
	a := 2 * (len(c.sc.ms) + g.Int(20))
	q.check = func(r *request) string {
		if t := r.get("Transport"); !strings.Contains(t, fmt.Sprintf("interleaved=%d-%d", a, a+1)) || !strings.Contains(t, "RTP/AVP/TCP") {
			return fmt.Sprintf("channels %d-%d, the Transport header is %q", a, a+1, t)
		}
		return ""
	}
	return q, func() error { return s.SendTcpSetup(q.url, a, a+1) }
}

// ---- checks over the history ----

// finish closes what is still open, waits for the end and judges the history.
func (ss *session) finish() {
	w := ss.w
	c := ss.live()
	if c != nil {
		ss.close("finish")
	}
	// every connection ends within a bounded time of its end
	for _, c := range ss.conns {
		c := c
		if !ss.await(20*time.Second, func() bool { return c.nc.Closed }) {
			w.Fail("C11,C12,C15", "connection-open", "the connection to %s is still open 20s after it was ended", c.srv.host)
		}
	}
}

// ended waits until the library is idle.
func allEnded(w *World, all []*session) {
	if !awaitAll(w, all, 15*time.Second, func() bool { return len(w.S.LiveLib()) == 0 }) {
		w.Fail("C11,C12,C15,C14,C10", "goroutine-leak", "15s after every connection ended a goroutine remains: %s", w.S.LiveLib()[0].Describe())
	}
	w.Sleep(100 * time.Millisecond)
	// what is on its way arrives
	for _, ss := range all {
		for _, c := range ss.conns {
			if !c.clientEnd && !c.ended && !c.nc.WriteFailed() && !c.p.Stalled() {
				w.Await(20*time.Second, func() bool { return c.clientEnd })
			}
		}
	}
	for _, ss := range all {
		ss.judge()
	}
}

func (ss *session) judge() {
	w := ss.w
	real := 0
	for _, c := range ss.conns {
		if c.ws == nil || c.ws.up {
			real++
			continue
		}
		// a failed upgrade: no session connection, but a failed dial
		real++
	}
	want := real + ss.dialFails
	if ss.disc != want && !ss.anyHostile() {
		w.Fail("C11,C07", "disconnected-count", "%d disconnected events for %d connections and %d failed dials", ss.disc, real, ss.dialFails)
	}
	// time of the disconnected events
	if len(ss.conns) == 1 && len(ss.plays) == 1 && ss.disc == 1 && w.Strict {
		c := ss.conns[0]
		var at time.Duration
		for _, e := range ss.evs {
			if e.typ == rtspclient.RtspEventDisconnected {
				at = e.at
			}
		}
		if c.ended && c.endedAt > 0 && at > c.endedAt+15*time.Second+ss.cbSlack() {
			w.Fail("C11,C14", "disconnected-late", "the server ended the connection at %v, disconnected was reported at %v", c.endedAt, at)
		}
	}
	for _, r := range ss.closes {
		c := r.playing
		if c == nil || ss.tornSelf {
			continue
		}
		if c.teardowns == 0 && c.sc.stallAt < 0 && (!c.ended || c.clientEnd && c.endedAt > r.end) && w.Strict && !c.nc.WriteFailed() {
			w.Fail("C12", "no-teardown", "Close at %v on a playing session: the server %s received no TEARDOWN before the connection ended", r.start, c.srv.host)
		}
	}
	for _, c := range ss.conns {
		if c.teardowns > max(1, ss.tornConn[c]) {
			w.Fail("C12", "teardown-repeated", "the server %s received %d TEARDOWN requests on one connection", c.srv.host, c.teardowns)
		}
		if len(c.buf) > 0 && !c.ended && !c.hostile && c.clientEnd && w.Strict && c.sc.stallAt < 0 && !c.nc.WriteFailed() {
			w.Fail("C06,C18", "cut-request", "the connection ended inside a request: %q", c.buf)
		}
	}
	for _, c := range ss.conns {
		ss.unprovoked(c)
	}
	for _, d := range ss.data {
		if !bytes.Equal(d.data, d.ref) {
			w.Fail("C09", "data-changed", "the bytes of a delivered unit changed after its delivery")
			break
		}
	}
	ss.checkMedia(true)
}

func (ss *session) anyHostile() bool {
	for _, c := range ss.conns {
		if c.hostile {
			return true
		}
	}
	return false
}

// unprovoked looks at a connection that played: it lasts until the server or
// the application ends it, or a wait of the application fails.
func (ss *session) unprovoked(c *srvConn) {
	w := ss.w
	if !w.Strict || c.hostile || c.play == nil || !c.play.done || c.play.err != nil || !c.nc.Closed || c.nc.WriteFailed() || c.teardowns > 0 || c.sc.stallAt >= 0 {
		return
	}
	if c.ending && c.endingAt <= c.nc.ClosedAt {
		return
	}
	for _, r := range ss.closes {
		if r.start <= c.nc.ClosedAt && r.start >= c.nc.Dialed {
			return
		}
	}
	for _, q := range ss.ctl {
		if q.conn == c && (q.err != nil || !q.waited || q.fate == fGarbage) {
			return
		}
	}
	props := "C09,C11,C16"
	if c.junked > 0 {
		props += ",C14"
	}
	w.Fail(props, "unprovoked-end", "the connection to %s was closed at %v, neither the server nor the application had ended it", c.srv.host, c.nc.ClosedAt)
}

// checkMedia compares what was delivered with what was sent.
func (ss *session) checkMedia(final bool) {
	w := ss.w
	if ss.anyHostile() {
		return
	}
	type key struct {
		c  int
		ch int
	}
	pos := map[key]int{}
	fail := func(n int, class, f string, a ...any) {
		props := "C09"
		if n > 0 {
			props += ",C13"
		}
		if len(ss.conns) > n && ss.conns[n].junked > 0 {
			props += ",C14"
		}
		w.Fail(props, class, f, a...)
	}
	first := 0
	for i, d := range ss.data {
		// connections that can have delivered it: in order, each until its end
		ok := false
		why := ""
		for n := first; n < len(ss.conns); n++ {
			c := ss.conns[n]
			k := key{n, d.ch}
			exp := c.expect[d.ch]
			j := pos[k]
			for j < len(exp) && exp[j].opt && !bytes.Equal(exp[j].data, d.data) {
				j++
			}
			if j < len(exp) && bytes.Equal(exp[j].data, d.data) {
				pos[k] = j + 1
				ok = true
				if end := exp[j].end; final && w.Strict && end > 0 {
					at := c.p.ArrivedAt(end)
					if late := d.at - at; at >= 0 && late > 300*time.Millisecond+ss.cbSlack() {
						ss.lateMedia(c, fmt.Sprintf("delivery %d on channel %d comes %v after its last byte has arrived", i, d.ch, late))
					}
				}
				break
			}
			if why == "" || n == len(ss.conns)-1 {
				switch {
				case j >= len(exp):
					why = fmt.Sprintf("%d units were sent on it", len(exp))
				default:
					why = "due is " + brief(exp[j].data)
					for q := range exp {
						if bytes.Equal(exp[q].data, d.data) {
							why += fmt.Sprintf(" (delivered is unit %d, due unit %d)", q, j)
						}
					}
				}
			}
		}
		if !ok {
			n := len(ss.conns) - 1
			kind := "?"
			if d.ch/2 < len(ss.conns[n].sc.ms) && d.ch%2 == 0 {
				kind = ss.conns[n].sc.ms[d.ch/2].want.CodecName
			}
			fail(n, "wrong-media", "delivery %d on channel %d (%s): %s; %s", i, d.ch, kind, brief(d.data), why)
			return
		}
	}
	for n, c := range ss.conns {
		complete := c.orderly || !final
		if !complete || c.midMsg && !c.orderly || c.play == nil || !c.play.done || c.play.err != nil || ss.closedDuring(c) || !w.Strict || c.nc.WriteFailed() {
			continue
		}
		if !final && !(c.playDone && c.play.done) {
			continue
		}
		for ch, exp := range c.expect {
			got := pos[key{n, ch}]
			if got < len(exp) {
				req := false
				for _, u := range exp[got:] {
					req = req || !u.opt
				}
				if req {
					fail(n, "lost-media", "channel %d (%s): %d units delivered, %d were sent%s", ch, c.sc.ms[ch/2].want.CodecName, got, len(exp), map[bool]string{true: " before the orderly end", false: ""}[c.orderly])
					return
				}
			}
		}
		if len(ss.data) > 3 {
			w.Has("media-complete")
		}
	}
}

// lateMedia reports that the stream stalled inside the library.
func (ss *session) lateMedia(c *srvConn, msg string) {
	props := "C09"
	if c.junked > 0 || len(ss.ctl) > 0 {
		props += ",C14"
	}
	if c.ws != nil {
		props += ",C15"
	}
	ss.w.Fail(props, "late-media", "%s", msg)
}

// closedDuring tells whether the application closed (or timed out) the connection.
func (ss *session) closedDuring(c *srvConn) bool {
	for _, r := range ss.closes {
		if r.start >= c.nc.Dialed && (!c.ended || r.start <= c.endedAt+16*time.Second) {
			return true
		}
	}
	for _, q := range ss.ctl {
		if q.conn == c && q.err != nil {
			return true
		}
	}
	return c.teardowns > 0
}

// quiet waits until the media of c has been sent and had time to arrive, then
// checks that it is complete.
func (ss *session) quiet(c *srvConn) bool {
	w := ss.w
	w.Await(3*time.Minute, func() bool { return c.ended || c.playDone || c.nc.Closed })
	if !w.Strict {
		return false
	}
	w.Await(30*time.Second, func() bool { return !c.p.Pending() })
	for n := -1; n != len(ss.data) || ss.inCB > 0; {
		n = len(ss.data)
		w.Sleep(500 * time.Millisecond)
		if ss.inCB == 0 {
			// a callback may have ended just now, with others to follow
			w.Sleep(time.Millisecond)
		}
	}
	if !c.ended && !c.nc.Closed && len(w.S.Viols) == 0 {
		ss.checkMedia(false)
		return true
	}
	return false
}
