package worker

import (
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient"
	"verif.local/sim/simnet"
)

// A scripted RTSP server: strict about what it receives, generated in what it
// answers.

const (
	authNone = iota
	authBasic
	authDigest
	authBothDB
	authBothBD
	authUnknown
	numAuth
)

// what goes wrong at one request
const (
	fNone = iota
	fStatus
	fSilent
	fLate  // answers after the response timeout
	fEdge  // answers about when the timeout strikes
	fFin   // orderly end instead of an answer
	fRst   // reset instead of an answer
	fCut   // orderly end inside the answer
	fReset // reset inside the answer
	fGarbage
	numFault
)

var faultName = [...]string{"none", "status", "silent", "late", "edge", "fin", "rst", "cut-answer", "reset-in-answer", "garbage-answer"}

const (
	tdAnswer = iota
	tdAnswerFin
	tdSilent
	tdFin
	tdRst
	tdLate
	tdError
	tdGarbage
)

// answers that cannot be parsed
var garbage = []string{"RTSP/1.0 abc What\r\n\r\n", "RTSP\r\n\r\n", "RTSP/1.0\r\n\r\n", "RTSP/1.0 \r\nCSeq: 1\r\n\r\n", "RTSP/1.0 20\r\n\r\n"}

// server is one address and account.
type server struct {
	sess  *session
	host  string // host:port as dialled
	name  string
	port  string
	shown string // port in the URL
	url   string // without credentials: what requests must name
	base  string // without a query
	full  string // what is given to Play
	user  string
	pass  string
	creds bool
	h     *simnet.Host
	share *share
}

// share is an address that several sessions play. They connect one at a time,
// so that a connection can be told to belong to one of them.
type share struct {
	first *server
	turn  *server
}

// dir is the URL relative track names are appended to.
func (v *server) dir() string { return strings.TrimSuffix(v.url, "/") + "/" }

func (v *server) take() {
	if h := v.share; h != nil {
		w := v.sess.w
		for h.turn != nil {
			w.Await(stuck, func() bool { return h.turn == nil })
		}
		h.turn = v
	}
}

func (v *server) release() {
	if h := v.share; h != nil && h.turn == v {
		h.turn = nil
	}
}

// script is what a server does on one connection.
type script struct {
	srv       *server
	ms        []media
	sdp       string
	auth      int
	realm     string
	nonce     string
	chal      []string
	reject    int    // status of the answer to the authorised retry, 0 = accept
	sid       string // "" = the server uses none
	sidForm   string // with %s
	sidOnce   bool   // only the first SETUP answer names it
	cseq      bool   // answers carry CSeq
	lower     bool
	spell     int
	errBody   bool
	delays    []time.Duration
	faultAt   int // request number of the fault, -1 none
	fault     int
	status    int
	cutAt     int
	early     bool // media before the PLAY answer
	plan      []chunk
	earlyPlan []chunk
	end       int // 0 stays, 1 fin, 2 rst, 3 fin mid-message, 4 rst mid-message
	endAfter  time.Duration
	endStep   bool // end at once after the PLAY answer
	td        int
	tdDelay   time.Duration
	junk      junkPlan
	mutate    *mutator
	stallAt   int // request number at which the server stops reading, -1 none
	ctlDelay  []time.Duration
	ws        wsPlan
}

// chunk is media sent in one go, after a pause.
type chunk struct {
	wait time.Duration
	pk   []pkt
}

type junkPlan struct {
	on     bool
	every  float64
	future bool
}

type request struct {
	method, url string
	hdr         map[string][]string
	raw         string
	cseq        int
	at          time.Duration
	answered    bool
	status      int
	endOff      int
	dataOff     int // where the last byte of the answer is, at the latest: empty frames may follow
}

func (r *request) get(k string) string {
	if v := r.hdr[strings.ToLower(k)]; len(v) > 0 {
		return v[0]
	}
	return ""
}

// srvConn is one connection at the server.
type srvConn struct {
	w    *World
	id   int // over all connections of the world
	sess *session
	srv  *server
	sc   *script
	play *play
	nc   *simnet.Conn
	p    *simnet.Peer
	ws   *wsConn

	sentRaw  int // bytes queued towards the client
	sentData int // up to the last byte of the RTSP stream
	buf      []byte
	reqs     []*request
	nreq     int // requests other than TEARDOWN

	challenged bool
	authorised bool
	described  bool
	setups     int
	told       bool // the session id was given
	known      bool // and the client has shown that it saw it
	failed     bool // a step was answered with an error
	playing    bool
	playingAt  time.Duration
	answeredOK int

	teardowns    int
	tdAnswered   int // bytes sent up to the answer to TEARDOWN
	tdAt         time.Duration
	expect       map[int][]unit
	playDone     bool // all planned media was queued
	playDoneAt   time.Duration
	ending       bool // the server ended the connection of its own accord
	endingAt     time.Duration
	ended        bool // the server ended the connection
	endedAt      time.Duration
	orderly      bool
	hostile      bool
	clientEnd    bool // the client's end was seen
	gotBytes     []byte
	junked       int
	answersTotal int
	ctlSeen      int
	midMsg       bool
	stopEmit     bool
}

func (c *srvConn) log(f string, a ...any) {
	c.w.S.Logf("server %s#%d %s", c.srv.host, c.id, fmt.Sprintf(f, a...))
}

// fail reports an oracle of the handshake and of requests in general.
func (c *srvConn) fail(props, class, f string, a ...any) {
	if c.play != nil && c.play.n > 0 {
		props += ",C13"
	}
	if c.hostile {
		return
	}
	c.w.Fail(props, class, "%s: %s", c.srv.host, fmt.Sprintf(f, a...))
}

func md5hex(s string) string { h := md5.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

// accept is called when a dial to the server's host succeeds.
func (s *server) accept(nc *simnet.Conn) {
	if s.share != nil {
		if s = s.share.turn; s == nil {
			nc.S.Violate("stray-connection", "a connection to %s was opened although no play of it is in progress", nc.Addr)
			return
		}
		defer s.release()
	}
	ss := s.sess
	c := &srvConn{w: ss.w, id: nc.ID, sess: ss, srv: s, nc: nc, p: nc.Peer, expect: map[int][]unit{}}
	p := ss.cur
	c.play = p
	if p == nil || p.sc.srv != s || p.conn != nil {
		ss.w.Fail("C06,C07,C08,C13", "stray-connection", "a connection to %s was opened although no play of it is in progress", s.host)
		return
	}
	c.sc = p.sc
	c.hostile = p.sc.mutate != nil
	p.conn = c
	ss.conns = append(ss.conns, c)
	c.nc.Peer.OnData = c.data
	c.nc.Peer.OnEOF = func() {
		c.clientEnd = true
		c.log("client ended")
		if c.ws != nil && !c.ended {
			c.ended = true
		}
	}
	c.nc.Peer.OnBroken = func() {}
	if ss.ws {
		c.ws = &wsConn{c: c}
	}
	if c.sc.stallAt == 0 {
		c.p.Stall(true)
	}
}

func (c *srvConn) data(b []byte) {
	c.gotBytes = append(c.gotBytes, b...)
	if c.ws != nil {
		c.ws.in(b)
		return
	}
	c.in(b)
}

// raw queues bytes as they are.
func (c *srvConn) raw(b []byte) {
	if c.ended {
		return
	}
	c.sentRaw += len(b)
	c.p.Send(b)
}

// out sends bytes of the RTSP stream.
func (c *srvConn) out(b []byte) {
	if c.sc.mutate != nil {
		b = c.sc.mutate.apply(b)
	}
	if len(b) == 0 {
		return
	}
	if c.ws != nil {
		c.ws.out(b)
		return
	}
	c.raw(b)
	c.sentData = c.sentRaw
}

func (c *srvConn) fin(orderly bool) {
	if c.ended {
		return
	}
	c.log("ends the connection (orderly %v)", orderly)
	c.actsEnd()
	if c.ws != nil {
		c.ws.ending(orderly)
	}
	c.ended, c.orderly, c.endedAt = true, orderly, c.w.S.Now()
	if c.ws != nil && c.ws.closing && c.sc.ws.endWith == 2 {
		return // the close frame alone
	}
	c.p.Fin()
}

func (c *srvConn) actsEnd() {
	if !c.ending {
		c.ending, c.endingAt = true, c.w.S.Now()
	}
}

func (c *srvConn) rst() {
	if c.ended {
		return
	}
	c.log("resets the connection")
	c.actsEnd()
	c.ended, c.endedAt = true, c.w.S.Now()
	c.p.Rst(c.w.G.Bool(0.5))
}

func (c *srvConn) in(b []byte) {
	c.buf = append(c.buf, b...)
	for {
		i := strings.Index(string(c.buf), "\r\n\r\n")
		if i < 0 {
			if len(c.buf) > 1<<16 {
				c.fail("C06,C18", "malformed-request", "more than 64 KiB without the end of a request")
			}
			return
		}
		r := string(c.buf[:i+4])
		c.buf = c.buf[i+4:]
		c.request(r)
	}
}

func parseRequest(raw string) (*request, string) {
	r := &request{raw: raw, hdr: map[string][]string{}}
	lines := strings.Split(strings.TrimSuffix(raw, "\r\n\r\n"), "\r\n")
	f := strings.Split(lines[0], " ")
	if len(f) != 3 || f[2] != "RTSP/1.0" || f[0] == "" || f[1] == "" {
		return r, "request line"
	}
	r.method, r.url = f[0], f[1]
	for _, l := range lines[1:] {
		i := strings.IndexByte(l, ':')
		if i <= 0 || strings.ContainsAny(l, "\r\n") || strings.TrimSpace(l[:i]) != l[:i] {
			return r, "header " + strconv.Quote(l)
		}
		k := strings.ToLower(l[:i])
		r.hdr[k] = append(r.hdr[k], strings.TrimSpace(l[i+1:]))
	}
	for _, k := range []string{"cseq", "session", "authorization", "transport", "range", "speed"} {
		if len(r.hdr[k]) > 1 {
			return r, "two headers " + k
		}
	}
	if v := r.get("Content-Length"); v != "" && v != "0" {
		return r, "a body"
	}
	n, err := strconv.Atoi(r.get("CSeq"))
	if err != nil || n < 0 {
		return r, "CSeq " + strconv.Quote(r.get("CSeq"))
	}
	r.cseq = n
	return r, ""
}

func (c *srvConn) request(raw string) {
	w := c.w
	r, bad := parseRequest(raw)
	c.log("<- %s", strings.ReplaceAll(strings.TrimSpace(raw), "\r\n", " | "))
	if bad != "" {
		c.fail("C06,C18", "malformed-request", "malformed request (%s): %q", bad, raw)
		return
	}
	r.at = w.S.Now()
	var prev *request
	if n := len(c.reqs); n > 0 {
		prev = c.reqs[n-1]
	}
	c.reqs = append(c.reqs, r)
	sc := c.sc
	// numbering
	if prev != nil && r.cseq <= prev.cseq {
		c.fail("C06,C18", "cseq-not-increasing", "%s carries CSeq %d after %d", r.method, r.cseq, prev.cseq)
	}
	if prev != nil && c.playing && r.cseq != prev.cseq+1 && r.method != "TEARDOWN" {
		c.fail("C18", "cseq-not-next", "%s carries CSeq %d after %d", r.method, r.cseq, prev.cseq)
	}
	// one at a time
	if prev != nil && r.method != "TEARDOWN" && prev.method != "TEARDOWN" {
		if !prev.answered {
			c.fail("C06,C18", "request-before-response", "%s arrives before the answer to %s was sent", r.method, prev.method)
		} else if c.nc.ReadBytes < prev.dataOff {
			c.fail("C06,C18", "request-before-response", "%s arrives before the client received the answer to %s", r.method, prev.method)
		}
	}
	// session identifier
	sid := r.get("Session")
	if v := r.hdr["session"]; len(v) > 0 && sid == "" {
		c.fail("C06", "session-id", "%s carries an empty session identifier: %q", r.method, r.raw)
	}
	switch {
	case r.method == "TEARDOWN" && c.told && !c.known && sid == "":
		// the answer that tells the identifier may not have been seen yet
	case c.told && sc.sid != "":
		if r.method != "TEARDOWN" {
			c.known = true
		}
		if sid != sc.sid {
			c.fail("C06,C12,C18", "session-id", "%s carries session identifier %q, the server assigned %q", r.method, sid, sc.sid)
		}
	case sid != "":
		c.fail("C06,C13", "session-id", "%s carries session identifier %q before the server assigned one", r.method, sid)
	}
	// credentials
	c.checkAuth(r)
	if r.method == "TEARDOWN" {
		c.teardown(r)
		return
	}
	if c.nreq == sc.stallAt-1 {
		c.p.Stall(true)
	}
	k := c.nreq
	c.nreq++
	if c.failed {
		c.fail("C06,C08", "request-after-failure", "%s is sent although an earlier step was answered with status %d", r.method, prev.status)
		if r.method == "SETUP" || r.method == "PLAY" {
			// a server that does not mind: Play is no success all the same
			c.told = c.told || sc.sid != ""
			c.out(c.answer(r, 200, []string{"Session: " + sc.sid}, ""))
			r.answered = true
			r.endOff, r.dataOff = c.sentRaw, c.sentData
		}
		return
	}
	c.step(k, r)
}

func (c *srvConn) checkAuth(r *request) {
	a := r.get("Authorization")
	s := c.srv
	for _, o := range c.w.servers() {
		if o == s || o.user == "" {
			continue
		}
		for _, sec := range []string{o.user, o.pass} {
			if sec != "" && sec != s.user && sec != s.pass && strings.Contains(r.raw, sec) {
				c.fail("C08,C13", "credential-leak", "%s to %s contains credentials of %s", r.method, s.host, o.host)
			}
		}
	}
	if s.user != "" && (s.pass != "" && strings.Contains(r.url, s.pass) || strings.Contains(r.url, s.user+"@") || strings.Contains(r.url, s.user+":")) {
		c.fail("C08", "credentials-in-url", "the URL of %s contains credentials: %q", r.method, r.url)
	}
	if a == "" {
		if c.authorised && r.method != "" {
			c.fail("C08", "authorization-missing", "%s carries no authorization although the server demands it", r.method)
		}
		return
	}
	if s.user != "" && s.pass == "" && c.challenged {
		return // a name without a password: whether to try is left open
	}
	if !s.creds {
		c.fail("C08,C13", "authorization-without-credentials", "%s carries an authorization although the URL has no credentials: %q", r.method, a)
		return
	}
	if !c.challenged {
		c.fail("C08,C13", "authorization-before-challenge", "%s carries an authorization before any challenge: %q", r.method, a)
		return
	}
	if why := c.verify(r.method, r.url, a); why != "" {
		c.fail("C08", "authorization-wrong", "the authorization of %s cannot be verified (%s): %q", r.method, why, a)
	}
}

// verify checks an Authorization value as a server does.
func (c *srvConn) verify(method, u, a string) string {
	sc, s := c.sc, c.srv
	i := strings.IndexByte(a, ' ')
	if i < 0 {
		return "no scheme"
	}
	scheme, rest := strings.ToLower(a[:i]), strings.TrimSpace(a[i+1:])
	switch scheme {
	case "basic":
		if sc.auth == authDigest || sc.auth == authBothDB || sc.auth == authBothBD {
			return "Digest was offered"
		}
		b, err := base64.StdEncoding.DecodeString(rest)
		if err != nil || string(b) != s.user+":"+s.pass {
			return fmt.Sprintf("decodes to %q", b)
		}
		return ""
	case "digest":
		if sc.auth == authBasic {
			return "Digest was not offered"
		}
		p := authParams(rest)
		switch {
		case p["username"] != s.user:
			return "username"
		case p["realm"] != sc.realm:
			return fmt.Sprintf("realm %q, the challenge has %q", p["realm"], sc.realm)
		case p["nonce"] != sc.nonce:
			return fmt.Sprintf("nonce %q, the challenge has %q", p["nonce"], sc.nonce)
		case p["uri"] != u && p["uri"] != s.url:
			return "uri " + p["uri"]
		}
		if p["response"] != md5hex(md5hex(s.user+":"+sc.realm+":"+s.pass)+":"+sc.nonce+":"+md5hex(method+":"+p["uri"])) {
			return "response"
		}
		return ""
	}
	return "scheme " + scheme
}

func authParams(s string) map[string]string {
	m := map[string]string{}
	for {
		s = strings.TrimLeft(s, " ,")
		i := strings.IndexByte(s, '=')
		if i < 0 {
			return m
		}
		k := strings.ToLower(strings.TrimSpace(s[:i]))
		s = s[i+1:]
		var v string
		if strings.HasPrefix(s, "\"") {
			j := strings.IndexByte(s[1:], '"')
			if j < 0 {
				return m
			}
			v, s = s[1:1+j], s[j+2:]
		} else {
			j := strings.IndexByte(s, ',')
			if j < 0 {
				j = len(s)
			}
			v, s = strings.TrimSpace(s[:j]), s[j:]
		}
		m[k] = v
	}
}

// answer formats a response.
func (c *srvConn) answer(r *request, status int, extra []string, body string) []byte {
	sc := c.sc
	g := c.w.G
	reason := map[int]string{200: "OK", 401: "Unauthorized", 403: "Forbidden", 404: "Not Found", 454: "Session Not Found", 500: "Internal Server Error"}[status]
	if reason == "" {
		reason = "Status"
	}
	start := "RTSP/1.0"
	if sc.lower {
		start = "rtsp/1.0"
	}
	var h []string
	if sc.cseq && r != nil {
		h = append(h, fmt.Sprintf("%s: %d", []string{"CSeq", "Cseq", "cseq", "CSEQ"}[sc.spell%4], r.cseq))
	}
	h = append(h, extra...)
	if body != "" || g.Bool(0.1) {
		k := []string{"Content-Length", "Content-length", "content-length", "CONTENT-LENGTH"}[sc.spell/4%4]
		h = append(h, fmt.Sprintf("%s:%s%d", k, []string{" ", "", "  ", "\t"}[sc.spell/16%4], len(body)))
	}
	switch sc.spell / 64 % 3 {
	case 0:
		h = append(h, "Server: stub/1.0 (a: b)")
	case 1:
		h = append(h, "Date: Tue, 15 Nov 1994 08:12:31 GMT", "Cache-Control: no-cache")
	}
	if g.Bool(0.15) {
		// headers that resemble those that matter
		decoys := []string{"X-CSeq: 4711", "X-Session: 0BAD", "x-Content-Length: 17", "Session-Timeout: 60", "Via: RTSP/1.0 Session: 0BAD", "Last-CSeq: 1", "X-WWW-Authenticate: Digest realm=\"x\", nonce=\"y\"", "Public: DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE", "x-Accept-Dynamic-Rate: 1", "RTP-Info: url=rtsp://x/Session:1;seq=9810092;rtptime=3450012", "X-Empty:", "Require:CSeq:9"}
		h = append(h, decoys[g.Int(len(decoys))])
		c.w.Has("decoy-header")
	}
	for k := len(h) - 1; k > 0; k-- {
		j := k - g.Int(k+1)
		h[k], h[j] = h[j], h[k]
	}
	return []byte(fmt.Sprintf("%s %d %s\r\n%s\r\n", start, status, reason, strings.Join(append(h, ""), "\r\n")) + body)
}

func (c *srvConn) delayFor(k int) time.Duration {
	if k < len(c.sc.delays) {
		return c.sc.delays[k]
	}
	return 0
}

// expected checks the request against the handshake and builds the answer.
func (c *srvConn) expected(k int, r *request) (status int, extra []string, body string, ok bool) {
	sc, s := c.sc, c.srv
	want := func(method, u string) bool {
		if r.method != method || r.url != u {
			c.fail("C06", "handshake-order", "request %d is %s %s, due is %s %s", k, r.method, r.url, method, u)
			return false
		}
		return true
	}
	switch {
	case !c.described && sc.auth != authNone && !c.challenged:
		if !want("DESCRIBE", s.url) {
			return
		}
		c.challenged = true
		return 401, sc.chal, c.errBody(), true
	case !c.described:
		if c.challenged {
			if s.user != "" && s.pass == "" {
				c.failed = true
				return 401, sc.chal, "", true
			}
			if !s.creds {
				c.fail("C08", "retry-without-credentials", "%s is sent after the challenge although the URL has no credentials", r.method)
				return
			}
			if !want("DESCRIBE", s.url) {
				return
			}
			if sc.auth == authUnknown {
				c.failed = true
				return 401, sc.chal, "", true
			}
			if r.get("Authorization") == "" {
				c.fail("C08", "authorization-missing", "the retry carries no authorization")
				return
			}
			if sc.reject != 0 {
				c.failed = true
				var e []string
				if sc.reject == 401 {
					e = sc.chal
				}
				return sc.reject, e, c.errBody(), true
			}
			c.authorised = true
		}
		if !want("DESCRIBE", s.url) {
			return
		}
		c.described = true
		e := []string{"Content-Type: application/sdp", "Content-Base: " + s.dir()}
		return 200, e, sc.sdp, true
	case c.setups < len(sc.ms):
		i := c.setups
		u := sc.ms[i].control
		switch {
		case u == "" || u == "*":
			u = s.url
		case !strings.HasPrefix(strings.ToLower(u), "rtsp"):
			u = s.dir() + u
		}
		if !want("SETUP", u) {
			return
		}
		t := r.get("Transport")
		okT := strings.Contains(t, "RTP/AVP/TCP")
		il := ""
		for _, f := range strings.Split(t, ";") {
			if strings.HasPrefix(f, "interleaved=") {
				il = f[len("interleaved="):]
			}
		}
		if !okT || il != fmt.Sprintf("%d-%d", 2*i, 2*i+1) {
			c.fail("C06", "transport", "SETUP %d asks for transport %q, due are channels %d-%d", i, t, 2*i, 2*i+1)
			return
		}
		c.setups++
		var e []string
		if sc.sid != "" && !(c.told && sc.sidOnce) {
			e = append(e, fmt.Sprintf(sc.sidForm, sc.sid))
		}
		e = append(e, fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%s;ssrc=11223344", il))
		c.told = true
		return 200, e, "", true
	case !c.playing:
		if !want("PLAY", s.url) {
			return
		}
		c.playing = true
		c.playingAt = c.w.S.Now()
		e := []string{"Range: npt=0.000-"}
		if sc.sid != "" {
			e = append(e, fmt.Sprintf(sc.sidForm, sc.sid))
		}
		if c.w.G.Bool(0.5) {
			e = append(e, "RTP-Info: url="+s.url+"/trackID=1;seq=1;rtptime=0")
		}
		return 200, e, "", true
	}
	return c.control(k, r)
}

func (c *srvConn) errBody() string {
	if c.sc.errBody {
		return "<html>\r\n\r\nRTSP/1.0 200 OK\r\n</html>"
	}
	return ""
}

func (c *srvConn) step(k int, r *request) {
	sc := c.sc
	wasPlaying := c.playing
	status, extra, body, ok := c.expected(k, r)
	if !ok {
		return
	}
	d := c.delayFor(k)
	if sc.faultAt == k {
		c.w.S.Fault("server-" + faultName[sc.fault])
		c.w.Has("fault-" + faultName[sc.fault])
		c.failed = true
		switch sc.fault {
		case fStatus:
			status, extra, body = sc.status, nil, c.errBody()
			if status == 401 {
				extra = []string{`WWW-Authenticate: Digest realm="again", nonce="deadbeef"`}
			}
		case fSilent:
			c.log("stays silent")
			return
		case fLate:
			d = 2700*time.Millisecond + time.Duration(c.w.G.Int(3000))*time.Millisecond
			// with the process stalled the wait may begin that late
			c.failed = c.w.Strict
		case fEdge:
			d = 1600*time.Millisecond + time.Duration(c.w.G.Int(800))*time.Millisecond
			c.failed = false
		}
	} else if status != 200 && (sc.auth == authNone || c.described || !c.srv.creds || c.authorised) && !wasPlaying {
		c.failed = true
	}
	r.status = status
	do := func() {
		if c.ended {
			return
		}
		b := c.answer(r, status, extra, body)
		if sc.faultAt == k {
			switch sc.fault {
			case fFin:
				c.fin(true)
				return
			case fRst:
				c.rst()
				return
			case fCut:
				n := sc.cutAt % len(b)
				if n == 0 {
					n = 1
				}
				c.out(b[:n])
				c.fin(false)
				return
			case fReset:
				n := sc.cutAt % len(b)
				c.out(b[:n])
				c.rst()
				return
			case fGarbage:
				b = []byte(append(garbage[:5:5], "RTSP/2.0 200\r\nContent-Length: x\r\n\r\n")[sc.cutAt%6])
				if sc.cutAt%6 == 5 {
					c.hostile = true
				}
			}
		}
		c.junkAround(r, true)
		c.log("-> %d to %s (CSeq %d)", status, r.method, r.cseq)
		c.out(b)
		r.answered = true
		r.endOff, r.dataOff = c.sentRaw, c.sentData
		c.answersTotal++
		if status == 200 {
			c.answeredOK++
		}
		c.junkAround(r, false)
		if r.method == "PLAY" && !wasPlaying && c.playing && !c.failed {
			c.emit()
		} else if r.method == "SETUP" && c.sc.early && c.setups == len(c.sc.ms) && !wasPlaying {
			c.emitEarly()
		}
	}
	if d > 0 {
		c.w.S.After(d, "answer", do)
	} else {
		do()
	}
}

func (c *srvConn) sendPkt(p pkt, early bool) {
	c.out(frame(p.ch, p.rtp))
	end := c.sentRaw
	if c.sc.mutate != nil || c.ws != nil && len(c.ws.pend) > 0 {
		end = 0 // not known
	}
	for _, u := range p.units {
		c.expect[p.ch] = append(c.expect[p.ch], unit{data: u, opt: early, end: end})
	}
}

func (c *srvConn) emitEarly() {
	for _, ch := range c.sc.earlyPlan {
		for _, p := range ch.pk {
			if c.ended {
				return
			}
			c.sendPkt(p, true)
		}
	}
	if len(c.sc.earlyPlan) > 0 {
		c.w.Has("early-media")
	}
}

// emit sends the planned media, then ends as scripted.
func (c *srvConn) emit() {
	i := 0
	var next func()
	finish := func() {
		c.playDone = true
		c.playDoneAt = c.w.S.Now()
		c.log("media done")
		switch c.sc.end {
		case 1:
			c.fin(true)
		case 2:
			c.rst()
		case 3, 4:
			// a message cut short
			if len(c.sc.plan) > 0 && len(c.sc.plan[0].pk) > 0 {
				b := frame(c.sc.plan[0].pk[0].ch, c.sc.plan[0].pk[0].rtp)
				c.out(b[:1+c.sc.cutAt%(len(b)-1)])
				c.midMsg = true
			}
			if c.sc.end == 3 {
				c.fin(true)
			} else {
				c.rst()
			}
		}
	}
	next = func() {
		if c.ended || c.stopEmit {
			return
		}
		for i < len(c.sc.plan) {
			ch := c.sc.plan[i]
			for _, p := range ch.pk {
				c.sendPkt(p, false)
			}
			i++
			c.junkMedia()
			if i < len(c.sc.plan) && c.sc.plan[i].wait > 0 {
				c.w.S.After(c.sc.plan[i].wait, "media", next)
				return
			}
		}
		if c.sc.end != 0 && c.sc.endAfter > 0 {
			c.w.S.After(c.sc.endAfter, "end", func() {
				if !c.ended {
					finish()
				}
			})
			return
		}
		finish()
	}
	if len(c.sc.plan) > 0 && c.sc.plan[0].wait > 0 {
		c.w.S.After(c.sc.plan[0].wait, "media", next)
		return
	}
	next()
}

func (c *srvConn) junk(cseq string, status int) {
	c.junked++
	c.w.S.Fault("unsolicited-response")
	c.log("-> unsolicited %d %s", status, cseq)
	h := ""
	if cseq != "" {
		h = "CSeq: " + cseq + "\r\n"
	}
	body := ""
	if c.w.G.Bool(0.3) {
		body = "v=0\r\n$$$$"
		h += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	if c.w.G.Bool(0.3) {
		h += "Session: 66666666\r\n"
	}
	c.out([]byte(fmt.Sprintf("RTSP/1.0 %d Unsolicited\r\n%s\r\n%s", status, h, body)))
}

var junkStatus = []int{200, 299, 401, 404, 500}

// junkAround sends responses nobody waits for next to the answer of r.
func (c *srvConn) junkAround(r *request, before bool) {
	j := &c.sc.junk
	g := c.w.G
	if !j.on || !c.sc.cseq || c.failed && c.sc.fault == fGarbage || !g.Bool(j.every) {
		return
	}
	if before {
		// an old answer again
		if g.Bool(0.3) {
			c.junk(fmt.Sprint(r.cseq+1000+g.Int(1<<20)), junkStatus[g.Int(len(junkStatus))])
		} else if len(c.reqs) > 1 {
			o := c.reqs[g.Int(len(c.reqs)-1)]
			c.junk(fmt.Sprint(o.cseq), junkStatus[g.Int(len(junkStatus))])
		}
		return
	}
	for n := 1 + g.Int(3); n > 0; n-- {
		if g.Bool(0.2) {
			// of a request that will not be made
			c.junk(fmt.Sprint(r.cseq+1000+g.Int(1<<20)), junkStatus[g.Int(len(junkStatus))])
			continue
		}
		c.junk(fmt.Sprint(r.cseq), junkStatus[g.Int(len(junkStatus))])
	}
}

func (c *srvConn) junkMedia() {
	j := &c.sc.junk
	g := c.w.G
	if !j.on || !g.Bool(j.every) || len(c.reqs) == 0 {
		return
	}
	for n := 1 + g.Int(4); n > 0; n-- {
		o := c.reqs[g.Int(len(c.reqs))]
		if !o.answered {
			continue
		}
		c.junk(fmt.Sprint(o.cseq), junkStatus[g.Int(len(junkStatus))])
	}
}

func (c *srvConn) teardown(r *request) {
	c.teardowns++
	c.tdAt = c.w.S.Now()
	sc := c.sc
	q := c.sess.unseen(c)
	if q != nil && q.method == "TEARDOWN" {
		q.got = r
	} else {
		q = nil
	}
	if r.url != c.srv.url {
		c.fail("C06,C12", "teardown-url", "TEARDOWN names %s", r.url)
	}
	c.stopEmit = true
	c.midMsg = true // nothing after it is accounted for
	do := func() {
		if c.ended {
			return
		}
		switch sc.td {
		case tdSilent:
			c.w.S.Fault("teardown-unanswered")
			return
		case tdFin:
			c.fin(true)
			return
		case tdRst:
			c.rst()
			return
		case tdGarbage:
			c.w.S.Fault("teardown-garbage-answer")
			c.w.Has("teardown-garbage-answer")
			c.out([]byte(garbage[sc.cutAt%5]))
			r.answered = true
			r.endOff, r.dataOff = c.sentRaw, c.sentData
			if q != nil {
				q.fate, q.replied, q.replyAt = fGarbage, true, c.w.S.Now()
			}
			return
		}
		st := 200
		if sc.td == tdError {
			st = 454
		}
		b := c.answer(r, st, nil, "")
		c.out(b)
		r.answered = true
		r.endOff, r.dataOff = c.sentRaw, c.sentData
		c.tdAnswered = c.sentRaw
		if q != nil {
			q.status, q.replied, q.replyAt = st, true, c.w.S.Now()
		}
		if sc.td == tdAnswerFin {
			c.fin(true)
		}
	}
	if sc.tdDelay > 0 {
		c.w.S.After(sc.tdDelay, "teardown answer", do)
	} else {
		do()
	}
}

// mustSucceed tells whether Play has no reason to fail.
func (c *srvConn) clean() bool {
	sc := c.sc
	if c.hostile || c.sc.stallAt >= 0 || c.nc.Opt.FailWrite > 0 {
		return false
	}
	if sc.auth != authNone && (!c.srv.creds || sc.reject != 0 || sc.auth == authUnknown) {
		return false
	}
	if sc.faultAt >= 0 && sc.faultAt < c.handshakeLen() {
		return false
	}
	return true
}

func (c *srvConn) handshakeLen() int {
	n := 2 + len(c.sc.ms)
	if c.sc.auth != authNone {
		n++
	}
	return n
}

// ---- generation ----

type scriptKnob struct {
	maxMedia  int
	auth      []int // weights by kind
	creds     float64
	faults    []int // weights by kind, first none
	delays    bool
	early     float64
	units     int
	ends      []int // weights: stays, fin, rst, fin in message, rst in message
	tiny      bool
	big       float64
	td        []int
	junk      bool
	opts      bool
	slowMedia bool
	rtcp      bool
}

func (w *World) servers() []*server { return w.srvs }

// newServer registers an address.
func (s *session) newServer(creds bool) *server {
	w := s.w
	g := w.G
	n := len(w.srvs)
	port := ":554"
	shown := ""
	switch g.Int(3) {
	case 1:
		port = ":8554"
		shown = port
	case 2:
		shown = port
	}
	name := fmt.Sprintf("cam%d.test", n)
	switch g.Weighted(12, 2, 1) {
	case 1:
		name = fmt.Sprintf("10.9.8.%d", 1+n%250)
	case 2:
		name = fmt.Sprintf("[fd00::%x]", n+1)
		w.Has("ipv6-address")
	}
	return s.account(creds, name, port, shown)
}

func (s *session) account(creds bool, host, port, shown string) *server {
	w := s.w
	g := w.G
	n := len(w.srvs)
	v := &server{sess: s, creds: creds, name: host, port: port, shown: shown}
	v.host = host + port
	path := []string{"/live/ch1", "/planback", "", "/a%20b/c.sdp", "/live/", "/"}[g.Weighted(4, 4, 4, 4, 2, 1)]
	v.base = "rtsp://" + host + shown + path
	if g.Bool(0.3) && path != "" {
		path += "?channel=1&start=2018"
	}
	v.url = "rtsp://" + host + shown + path
	v.full = v.url
	if creds {
		v.user = fmt.Sprintf("usr%dq%d", n, g.Int(1000))
		v.pass = fmt.Sprintf("pw%dz%d", n, g.Int(1000))
		v.pass += []string{"", "@x", ":y", " z", "%41", "/?#"}[g.Int(6)]
		v.full = "rtsp://" + url.UserPassword(v.user, v.pass).String() + "@" + host + shown + path
	}
	if !creds && g.Bool(0.15) {
		v.user = fmt.Sprintf("usr%dq%d", n, g.Int(1000))
		v.full = "rtsp://" + v.user + "@" + host + shown + path
		w.Has("name-without-password")
	}
	w.srvs = append(w.srvs, v)
	return v
}

// sharedServer is the server of another session, perhaps another account of it.
func (s *session) sharedServer(h *share) *server {
	g := s.w.G
	f := h.first
	if g.Bool(0.4) {
		o := s.account(g.Bool(0.7), f.name, f.port, f.shown)
		o.h, o.share = f.h, h
		return o
	}
	v := *f
	v.sess = s
	s.w.srvs = append(s.w.srvs, &v)
	return &v
}

func (v *server) listen() *simnet.Host {
	g := v.sess.w.G
	o := simnet.Opt{Seg: g.Int(simnet.NumSeg), Delay: g.Int(simnet.NumDelay)}
	if g.Bool(0.3) {
		o.ShortRead = 0.2
	}
	v.h = &simnet.Host{Opt: o, Accept: v.accept, OnDial: func() {
		v := v
		if v.share != nil {
			if v = v.share.turn; v == nil {
				return
			}
		}
		if p := v.sess.cur; p != nil && !p.done {
			p.dialed = true
		}
	}}
	if g.Bool(0.3) {
		v.h.Delay = time.Duration(g.Int(1900)) * time.Millisecond
	}
	v.sess.w.Net.Hosts[v.host] = v.h
	return v.h
}

func (v *server) newScript(k *scriptKnob) *script {
	w := v.sess.w
	g := w.G
	sc := &script{srv: v, faultAt: -1, stallAt: -1, cseq: true, spell: g.Int(192)}
	nm := 1 + g.Int(max(1, k.maxMedia))
	sc.ms = genMedias(w, nm, v.base, v.base != v.url)
	sc.sdp = genSDP(w, sc.ms)
	sc.auth = g.Weighted(k.auth...)
	sc.genChallenge(w)
	switch g.Int(5) {
	case 0:
		sc.sid = fmt.Sprint(10000000 + g.Int(89999999))
	case 1:
		sc.sid = fmt.Sprintf("%X-%d.s_$+", g.Int(1<<30), g.Int(100))
	case 2:
		sc.sid = "0"
	default:
		sc.sid = fmt.Sprintf("S%d", g.Int(1<<30))
	}
	if g.Bool(0.04) {
		sc.sid = ""
	}
	sc.sidForm = []string{"Session: %s", "Session:%s", "Session: %s;timeout=60", "session: %s", "Session: %s ; timeout=60", "SESSION:  %s", "Session: %s;timeout=30 "}[g.Int(7)]
	sc.sidOnce = g.Bool(0.15)
	sc.cseq = !g.Bool(0.1)
	sc.lower = g.Bool(0.05)
	sc.errBody = g.Bool(0.3)
	steps := nm + 3
	if k.delays {
		for i := 0; i < steps+6; i++ {
			d := time.Duration(0)
			switch g.Weighted(5, 3, 1) {
			case 1:
				d = time.Duration(g.Int(100)) * time.Millisecond
			case 2:
				d = time.Duration(g.Int(1300)) * time.Millisecond
			}
			sc.delays = append(sc.delays, d)
		}
	}
	sc.cutAt = g.Int(1 << 12)
	if len(k.faults) > 0 {
		if f := g.Weighted(k.faults...); f != fNone {
			sc.fault = f
			sc.faultAt = g.Int(nm + 2)
			if sc.auth != authNone {
				sc.faultAt = g.Int(nm + 3)
			}
			sc.status = []int{404, 500, 454, 302, 401, 201, 403, 299, 100, 461, 459, 405}[g.Int(12)]
			if g.Bool(0.4) {
				if sc.status = 100 + g.Int(500); sc.status == 200 {
					sc.status = 0
				}
			}
			if sc.faultAt == 0 && sc.status == 401 {
				sc.status = 503
			}
		}
	}
	if len(k.td) > 0 {
		sc.td = g.Weighted(k.td...)
	}
	switch {
	case sc.td == tdLate:
		sc.tdDelay = time.Duration(1500+g.Int(2500)) * time.Millisecond
	case g.Bool(0.3):
		sc.tdDelay = time.Duration(g.Int(1300)) * time.Millisecond
	}
	if len(k.ends) > 0 {
		sc.end = g.Weighted(k.ends...)
	}
	if g.Bool(0.5) {
		sc.endAfter = time.Duration(g.Int(2000)) * time.Millisecond
	}
	// media
	var pz []*packetizer
	w.tags++
	tag := byte(0x20 + w.tags%0x90)
	// numbering: of its own per stream, about to wrap, or the same in all of them
	num := g.Weighted(3, 2, 2)
	common := uint16(g.Int(1 << 16))
	for i := range sc.ms {
		p := &packetizer{w: w, m: &sc.ms[i], ch: 2 * i, tag: tag, tiny: k.tiny, big: g.Bool(k.big), odd: g.Bool(0.4), extra: g.Bool(0.25), seq: common, step: []uint32{3600, 0, 1 << 28}[g.Weighted(4, 1, 1)]}
		switch num {
		case 0:
			p.seq, p.ts, p.ssrc = uint16(g.Int(1<<16)), uint32(g.Int(1<<32)), uint32(g.Int(1<<32))
		case 1:
			p.seq, p.ts, p.ssrc = uint16(0x10000-g.Int(12)), 0xffffffff-uint32(g.Int(9000)), 0x11223344+uint32(i)
			w.Has("sequence-wrap")
		}
		pz = append(pz, p)
	}
	sc.early = g.Bool(k.early)
	if sc.early {
		for i := 0; i < 1+g.Int(4); i++ {
			p := pz[g.Int(len(pz))]
			t := p.tiny
			p.tiny = false
			sc.earlyPlan = append(sc.earlyPlan, chunk{pk: p.next()})
			p.tiny = t
		}
	}
	nu := 0
	if k.units > 0 {
		nu = g.Int(k.units + 1)
	}
	// units of several channels, interleaved packet by packet
	queues := make([][]pkt, len(pz))
	var cur chunk
	flush := func() {
		sc.plan = append(sc.plan, cur)
		cur = chunk{}
	}
	for left := nu; ; {
		var ready []int
		for i := range queues {
			if len(queues[i]) == 0 && left > 0 && g.Bool(0.7) {
				queues[i] = pz[i].next()
				left--
			}
			if len(queues[i]) > 0 {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			if left > 0 {
				continue
			}
			break
		}
		i := ready[g.Int(len(ready))]
		cur.pk = append(cur.pk, queues[i][0])
		queues[i] = queues[i][1:]
		if k.rtcp && g.Bool(0.1) {
			cur.pk = append(cur.pk, sc.sideTraffic(w))
		}
		if g.Bool(0.3) {
			flush()
			if g.Bool(0.5) {
				cur.wait = time.Duration(g.Int(80)) * time.Millisecond
				if k.slowMedia && g.Bool(0.2) {
					cur.wait = time.Duration(g.Int(4000)) * time.Millisecond
				}
			}
		}
	}
	if len(cur.pk) > 0 {
		flush()
	}
	if len(sc.plan) > 0 && g.Bool(0.08) {
		sc.plan[g.Int(len(sc.plan))].wait = time.Duration(2000+g.Int(80000)) * time.Millisecond
		w.Has("long-silence-while-playing")
	}
	if k.junk {
		sc.junk = junkPlan{on: g.Bool(0.9), every: 0.3 + 0.1*float64(g.Int(6))}
	}
	return sc
}

// sideTraffic is RTCP or a packet of a channel nobody set up.
func (sc *script) sideTraffic(w *World) pkt {
	g := w.G
	ch := 2*g.Int(len(sc.ms)) + 1
	if g.Bool(0.4) {
		ch = 2*len(sc.ms) + g.Int(256-2*len(sc.ms))
	}
	n := g.Int(60)
	if g.Bool(0.2) {
		n = 0
		w.Has("zero-length-packet")
	}
	w.Has("rtcp-or-unknown-channel")
	return pkt{ch: ch, rtp: fill(w, n, 'R')}
}

func (sc *script) genChallenge(w *World) {
	g := w.G
	sc.realm = []string{"IPCamera", "LIVE555 Streaming Media", "a:b c", "realm=x, nonce=y", "Login to 3A0098", " padded ", "user=z", ""}[g.Int(8)]
	sc.nonce = []string{"9b7c2a77e1", "dcd98b7102dd2f0e8b11d0f600bfb0c093", "MTIz/+a==", "5f3:88:1a"}[g.Int(4)] + fmt.Sprint(g.Int(1000))
	q := func(s string) string { return "\"" + s + "\"" }
	digest := func() string {
		ps := []string{"realm=" + q(sc.realm), "nonce=" + q(sc.nonce)}
		for _, o := range []string{`stale="FALSE"`, []string{"algorithm=MD5", `algorithm="MD5"`, "algorithm=md5"}[g.Int(3)], `opaque="x,y z"`, `domain="rtsp://h/"`} {
			if g.Bool(0.3) {
				ps = append(ps, o)
			}
		}
		for k := len(ps) - 1; k > 0; k-- {
			j := k - g.Int(k+1)
			ps[k], ps[j] = ps[j], ps[k]
		}
		return []string{"Digest", "digest", "DIGEST"}[g.Weighted(4, 1, 1)] + " " + strings.Join(ps, []string{", ", ",", " , "}[g.Int(3)])
	}
	basic := func() string {
		return []string{"Basic", "basic", "BASIC"}[g.Weighted(4, 1, 1)] + " realm=" + q(sc.realm)
	}
	hd := []string{"WWW-Authenticate: ", "www-authenticate: ", "WWW-Authenticate:"}[g.Weighted(3, 1, 1)]
	switch sc.auth {
	case authBasic:
		sc.chal = []string{hd + basic()}
	case authDigest:
		sc.chal = []string{hd + digest()}
	case authBothDB, authBothBD: // the order is shuffled with the other headers
		sc.chal = []string{hd + digest(), hd + basic()}
	case authUnknown:
		sc.chal = []string{hd + "Bearer realm=" + q(sc.realm)}
	}
	if sc.auth != authNone && sc.auth != authUnknown && g.Bool(0.2) {
		// one that a client is to ignore
		w.Has("unknown-algorithm")
		alg := []string{"SHA-256", `"SHA-256"`, "SHA-512-256", "MD5-sess"}[g.Int(4)]
		other := []string{`nonce="0123456789abcdef"`, `realm="elsewhere"`, "algorithm=" + alg}
		j := g.Int(3)
		other[0], other[j] = other[j], other[0]
		sc.chal = append(sc.chal, hd+"Digest "+strings.Join(other, ", "))
	}
	if sc.auth != authNone && sc.auth != authUnknown && g.Bool(0.25) {
		sc.reject = []int{401, 401, 403, 404}[g.Int(4)]
	}
}

func checkMediaMap(got map[int]rtspclient.MediaSubsession, ms []media) string {
	for i, m := range ms {
		v, ok := got[2*i]
		if !ok {
			return fmt.Sprintf("channel %d (%s) is missing", 2*i, m.want.CodecName)
		}
		if why := sameMedia(v, m.want, m.fmtpPT); why != "" {
			return fmt.Sprintf("channel %d: %s", 2*i, why)
		}
	}
	for ch := range got {
		if ch%2 != 0 || ch >= 2*len(ms) || ch < 0 {
			return fmt.Sprintf("channel %d is not of this session", ch)
		}
	}
	return ""
}
