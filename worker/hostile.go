package worker

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
)

// A mutator turns what a server sends into hostile bytes.
type mutator struct {
	w    *World
	c    *srvConn
	rate float64 // chance to damage a message
	frag float64 // chance to add a hostile fragment
	sdp  bool    // replace SDP documents
	left int     // messages that pass unharmed first
}

func newMutator(w *World) *mutator {
	g := w.G
	m := &mutator{w: w, sdp: g.Bool(0.4), left: g.Int(8)}
	m.rate = []float64{0, 0.1, 0.5}[g.Int(3)]
	m.frag = []float64{0.6, 0.2, 0}[g.Int(3)]
	if m.rate == 0 && m.frag == 0 {
		m.rate = 0.3
	}
	return m
}

func (m *mutator) apply(b []byte) []byte {
	g := m.w.G
	if m.sdp && bytes.Contains(b, []byte("v=0\r\n")) {
		if i := bytes.Index(b, []byte("\r\n\r\n")); i > 0 && g.Bool(0.9) {
			m.w.S.Fault("hostile-sdp")
			head := string(b[:i])
			var h []string
			for _, l := range strings.Split(head, "\r\n") {
				if !strings.HasPrefix(strings.ToLower(l), "content-length") {
					h = append(h, l)
				}
			}
			d := m.badSDP(string(b[i+4:]))
			h = append(h, fmt.Sprintf("Content-Length: %d", len(d)))
			return []byte(strings.Join(h, "\r\n") + "\r\n\r\n" + d)
		}
	}
	if m.left > 0 {
		m.left--
		return b
	}
	if g.Bool(m.frag) {
		f := m.fragment()
		m.w.S.Fault("hostile-fragment")
		switch g.Int(3) {
		case 0:
			b = append(f, b...)
		case 1:
			b = append(append([]byte(nil), b...), f...)
		case 2:
			b = f
		}
	}
	if g.Bool(m.rate) && len(b) > 0 {
		m.w.S.Fault("damaged-bytes")
		b = m.damage(b)
	}
	return b
}

func (m *mutator) damage(b []byte) []byte {
	g := m.w.G
	b = append([]byte(nil), b...)
	for n := 1 + g.Int(3); n > 0 && len(b) > 0; n-- {
		at := g.Int(min(len(b), 300))
		switch g.Int(8) {
		case 0:
			b[at] ^= 1 << g.Int(8)
		case 1:
			b[at] = byte(g.Int(256))
		case 2: // delete
			e := min(len(b), at+1+g.Int(20))
			b = append(b[:at], b[e:]...)
		case 3: // repeat
			e := min(len(b), at+1+g.Int(60))
			b = append(append(append([]byte(nil), b[:e]...), b[at:e]...), b[e:]...)
		case 4: // cut
			b = b[:at]
		case 5: // insert
			x := fill(m.w, 1+g.Int(9), 0)
			b = append(append(append([]byte(nil), b[:at]...), x...), b[at:]...)
		case 6: // a digit becomes another
			for k := at; k < len(b); k++ {
				if b[k] >= '0' && b[k] <= '9' {
					b[k] = "0123456789-+ xA"[g.Int(15)]
					break
				}
			}
		case 7: // a separator goes
			for k := at; k < len(b); k++ {
				if strings.IndexByte(":=/ ;,\r\n", b[k]) >= 0 {
					b[k] = ":=/ ;,\r\n\x00"[g.Int(9)]
					break
				}
			}
		}
	}
	return b
}

// fragment makes a message no sane server sends.
func (m *mutator) fragment() []byte {
	g := m.w.G
	nm := 3
	ch := 2 * g.Int(nm)
	pkt := func(n int, b []byte) []byte { // announced length n, bytes b
		return append([]byte{'$', byte(ch), byte(n >> 8), byte(n)}, b...)
	}
	rtp := func(pl ...byte) []byte {
		b := fill(m.w, 12, 'r')
		b[0] = 0x80
		return append(b, pl...)
	}
	full := func(b []byte) []byte { return pkt(len(b), b) }
	switch g.Int(18) {
	case 0: // short packets
		m.w.Has("short-rtp")
		return full(fill(m.w, g.Int(14), 's'))
	case 1:
		return full(rtp(byte(28 + g.Int(2)))) // FU without header
	case 2:
		return full(rtp(49<<1, 1)) // HEVC FU without header
	case 3:
		return full(rtp(48<<1, 1)) // HEVC AP without units
	case 4:
		return full(append(rtp(48<<1, 1), fill(m.w, g.Int(8), 0)...))
	case 5:
		return full(append(rtp(byte(24+g.Int(4))), fill(m.w, g.Int(10), 0)...))
	case 6: // an aggregate with odd lengths
		b := rtp([]byte{24, 48 << 1, 25, 26, 27}[g.Int(5)], 1)
		for k := g.Int(4); k >= 0; k-- {
			b = binary.BigEndian.AppendUint16(b, uint16([]int{0, 1, 2, 3, 40, 65535, 256, 32768}[g.Int(8)]))
			b = append(b, fill(m.w, g.Int(6), 0)...)
		}
		return full(b)
	case 7: // announced longer or shorter than it is
		b := rtp(fill(m.w, g.Int(40), 'x')...)
		return pkt(g.Int(3*len(b)), b)
	case 8:
		return []byte([]string{"RTSP\r\n\r\n", "RTSP/1.0\r\n\r\n", "RTSP/1.0 2\r\n\r\n", "RTSP/1.0 20\r\n\r\n", "rtsp\r\n\r\n", "RTSP/1.0 \r\n\r\n", "RTSP:\r\n:\r\n\r\n", "RTSPRTSPRTSP 99999999999\r\n\r\n", "RTSP/1.0  200 OK\r\n\r\n"}[g.Int(9)])
	case 9:
		l := []string{"-1", "99999999", "65536", "70000", "4294967296", "99999999999999999999", " ", "x", "-99999999999", "0x10", "1e3", "+5", "65000"}[g.Int(13)]
		m.w.Has("odd-content-length")
		return []byte("RTSP/1.0 200 OK\r\nContent-Length: " + l + "\r\n\r\n")
	case 10: // no terminator
		m.w.Has("endless-header")
		return append([]byte("RTSP/1.0 200 OK\r\nX: "), bytes.Repeat([]byte("y"), 66000+g.Int(4000))...)
	case 11:
		return fill(m.w, 1+g.Int(100), 0)
	case 12:
		return []byte("RTSP/1.0 401 Unauthorized\r\nCSeq: 0\r\nWWW-Authenticate: " +
			[]string{"", "Digest", "Digest ", "Digest realm", "Digest realm=", "Digest realm=\"", "Digest =,=,", "Basic", "Basic realm=\"\"\"\"", "Digest realm=\"a\", nonce=\"b\", nonce=\"c\"", ",,,", "Digest \x00\xff"}[g.Int(12)] + "\r\n\r\n")
	case 13:
		return []byte("RTSP/1.0 200 OK\r\nSession: " + []string{"", ";", ";timeout", " ; ; ", "\x00", strings.Repeat("9", 5000), "a b c"}[g.Int(7)] + "\r\n\r\n")
	case 14:
		return []byte("RTSP/1.0 200 OK\r\nCSeq: " + []string{"", "-1", "x", "99999999999999999999", "1 2", "00000"}[g.Int(6)] + "\r\nCSeq: 7\r\n:\r\n::::\r\n \r\n\r\n")
	case 15: // a request of the server's
		return []byte("OPTIONS rtsp://x/ RTSP/1.0\r\nCSeq: 1\r\n\r\n")
	case 16: // a packet cut short
		b := full(rtp(fill(m.w, 30, 'c')...))
		return b[:g.Int(len(b))]
	}
	var b []byte
	for k := 1 + g.Int(30); k > 0; k-- {
		b = append(b, full(fill(m.w, g.Int(20), 'f'))...)
	}
	return b
}

func (m *mutator) badSDP(good string) string {
	g := m.w.G
	switch g.Int(12) {
	case 0:
		return ""
	case 1:
		return string(fill(m.w, 1+g.Int(300), 0))
	case 2:
		return []string{"v", "v=", "v=0", "=", "\r\n", "\n\n\n", "v=1\r\n", "m=\r\n", "v=0\r\no=-\r\n", "a\r\n", "\x00=\x00\r\n", "v=0\nm=video\n"}[g.Int(12)]
	case 3:
		return "v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\n" // no media
	case 4: // more medias than channels
		var s strings.Builder
		s.WriteString("v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\n")
		for k := 0; k < 5+g.Int(10); k++ {
			fmt.Fprintf(&s, "m=audio 0 RTP/AVP %d\r\na=control:t%d\r\n", g.Int(128), k)
		}
		return s.String()
	case 5:
		l := []string{"m=video 0 RTP/AVP", "m=video", "m=video 0", "m=video x RTP/AVP 96", "m=video 0/ RTP/AVP 96", "m=", "m= 0 0 0", "m=video 0 RTP/AVP 96 97 98", "m=video 99999999999999999999 RTP/AVP 9"}[g.Int(9)]
		return "v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\n" + l + "\r\na=control:x\r\n"
	case 6:
		l := []string{"a=", "a=:", "a=rtpmap", "a=rtpmap:", "a=rtpmap:96", "a=rtpmap:96 H264/", "a=fmtp:", "a=fmtp:96", "a=fmtp:96 =", "a=fmtp:96 ;;;=;", "a=framerate:-1", "a=x-dimensions:", "a=x-dimensions:,", "a=x-dimensions:1920", "a=x-dimensions:1 2", "a=x-dimensions:99999999999999,1", "a=control:", "c=", "c=IN", "c=IN IP4", "c=IN IP4 a/b/c", "c=IN IP6 ::1/3", "b=", "b=AS", "b=AS:", "b=:1", "k=", "t=", "t=1", "t=x y", "r=", "r=1 2 3", "r=7d", "z=", "z=1", "z=1 2 3", "e=", "p=", "u=", "i=", "q=x", "o="}[g.Int(42)]
		lines := strings.Split(strings.TrimSuffix(good, "\r\n"), "\r\n")
		at := g.Int(len(lines) + 1)
		lines = append(lines[:at:at], append([]string{l}, lines[at:]...)...)
		return strings.Join(lines, "\r\n") + "\r\n"
	case 7: // a line goes
		lines := strings.Split(good, "\r\n")
		at := g.Int(len(lines))
		return strings.Join(append(lines[:at:at], lines[at+1:]...), "\r\n")
	case 8: // cut
		return good[:g.Int(len(good))]
	case 9: // lines in another order
		lines := strings.Split(strings.TrimSuffix(good, "\r\n"), "\r\n")
		for k := len(lines) - 1; k > 0; k-- {
			j := k - g.Int(k+1)
			lines[k], lines[j] = lines[j], lines[k]
		}
		return strings.Join(lines, "\r\n") + "\r\n"
	case 10: // long
		return good + "a=x:" + strings.Repeat("z", 10000+g.Int(40000)) + "\r\n"
	}
	return string(m.damage([]byte(good)))
}
