package worker

import (
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"

	"github.com/NodeBoy2/rtspclient"
)

// Generated media: the SDP that announces it, what a client must publish about
// it, and packets that carry known units.

const (
	mH264 = iota
	mH265
	mMark
	mSimple
)

type media struct {
	kind    int
	pt      int
	control string
	lines   []string
	want    rtspclient.MediaSubsession
	fmtpPT  string
}

type unit struct {
	data []byte
	opt  bool // may be missing (sent before the PLAY response)
	end  int  // offset of its end in the stream of the server, 0 if not known
}

// staticTypes are the payload types with a fixed meaning, RFC 3551.
var staticTypes = []struct {
	pt    int
	typ   string
	codec string
	rate  int
	ch    int
}{
	{3, "audio", "GSM", 8000, 1}, {4, "audio", "G723", 8000, 1}, {5, "audio", "DVI4", 8000, 1}, {6, "audio", "DVI4", 16000, 1},
	{7, "audio", "LPC", 8000, 1}, {9, "audio", "G722", 8000, 1}, {10, "audio", "L16", 44100, 2}, {11, "audio", "L16", 44100, 1},
	{12, "audio", "QCELP", 8000, 1}, {13, "audio", "CN", 8000, 1}, {14, "audio", "MPA", 90000, 0}, {15, "audio", "G728", 8000, 1},
	{16, "audio", "DVI4", 11025, 1}, {17, "audio", "DVI4", 22050, 1}, {18, "audio", "G729", 8000, 1}, {25, "video", "CelB", 90000, 0},
	{28, "video", "nv", 90000, 0}, {31, "video", "H261", 90000, 0}, {32, "video", "MPV", 90000, 0}, {33, "video", "MP2T", 90000, 0},
	{34, "video", "H263", 90000, 0},
}

// genMedias draws the medias of a session.
func genMedias(w *World, n int, base string, absOnly bool) []media {
	g := w.G
	var ms []media
	for i := 0; i < n; i++ {
		m := media{kind: g.Weighted(3, 3, 2, 2)}
		typ, codec, rate, ch := "video", "H264", 90000, 0
		rtpmap := true
		m.pt = 96 + g.Int(20)
		switch m.kind {
		case mH265:
			codec = []string{"H265", "HEVC", "h265", "hevc"}[g.Weighted(4, 4, 1, 1)]
		case mH264:
			codec = []string{"H264", "h264", "H264"}[g.Weighted(8, 1, 1)]
		case mMark:
			codec = "bbw"
		case mSimple:
			typ = "audio"
			switch g.Int(6) {
			case 5: // any other static payload type
				w.Has("static-payload-type")
				st := staticTypes[g.Int(len(staticTypes))]
				typ, codec, rate, ch, m.pt = st.typ, st.codec, st.rate, st.ch, st.pt
				rtpmap = g.Bool(0.3)
			case 0:
				codec, rate, ch, m.pt = "PCMU", 8000, 1, 0
				rtpmap = g.Bool(0.5)
			case 1:
				codec, rate, ch, m.pt = "PCMA", 8000, 1, 8
				rtpmap = g.Bool(0.5)
			case 2:
				codec, rate, ch = "MPEG4-GENERIC", []int{44100, 16000, 48000}[g.Int(3)], 1+g.Int(2)
			case 3:
				codec, rate, ch = "opus", 48000, 2
			case 4:
				typ, codec, rate, m.pt, rtpmap = "video", "JPEG", 90000, 26, false
			}
		}
		wantCh := -1
		if ch > 0 {
			wantCh = ch
		}
		m.want = rtspclient.MediaSubsession{MediumName: typ, PayloadFormat: m.pt, CodecName: codec, RtpTimestampFrequency: rate, Channels: wantCh}
		extra := 0 // a second payload format the stream might use
		if g.Bool(0.12) {
			if extra = 96 + g.Int(31); extra == m.pt {
				extra++
			}
			w.Has("several-formats")
			m.lines = append(m.lines, fmt.Sprintf("m=%s 0 RTP/AVP %d %d", typ, m.pt, extra))
		} else {
			m.lines = append(m.lines, fmt.Sprintf("m=%s %d RTP/AVP %d", typ, []int{0, 0, 0, 5004 + 2*i}[g.Int(4)], m.pt))
		}
		if g.Bool(0.1) {
			m.lines = append(m.lines, "i=stream "+strconv.Itoa(i))
		}
		if g.Bool(0.3) {
			m.lines = append(m.lines, genConn(w))
		}
		if g.Bool(0.3) {
			m.lines = append(m.lines, genBandwidth(w)...)
		}
		if g.Bool(0.05) {
			m.lines = append(m.lines, "k=prompt")
		}
		var attrs []string
		if rtpmap {
			a := fmt.Sprintf("a=rtpmap:%d %s/%d", m.pt, codec, rate)
			if ch > 0 && !(ch == 1 && m.pt < 96) {
				a += fmt.Sprintf("/%d", ch)
			}
			attrs = append(attrs, a)
		}
		kc := g.Int(5)
		if absOnly {
			kc = 3 + kc%2
		}
		if n == 1 && g.Bool(0.12) {
			kc = 5 + g.Int(2)
			w.Has("aggregate-control")
		}
		switch kc {
		case 0:
			m.control = fmt.Sprintf("trackID=%d", i+1)
		case 1:
			m.control = fmt.Sprintf("streamid=%d/x", i)
		case 2:
			m.control = fmt.Sprintf("t%d", i)
		case 3:
			m.control = fmt.Sprintf("%s/abs%d", base, i)
		case 4:
			m.control = fmt.Sprintf("RTSP%s/abs%d", base[4:], i)
		case 5:
			m.control = "*"
		case 6: // none
		}
		m.want.TrackURL = m.control
		if m.control != "" {
			attrs = append(attrs, "a=control:"+m.control)
		}
		if typ == "video" {
			if g.Bool(0.4) {
				fps := 1 + g.Int(120)
				attrs = append(attrs, fmt.Sprintf("a=%s:%s%d%s", []string{"framerate", "x-framerate"}[g.Int(2)], []string{"", " "}[g.Weighted(4, 1)], fps, []string{"", ".0", ".97"}[g.Weighted(6, 1, 1)]))
				m.want.VideoFramerate = fps
			}
			if g.Bool(0.4) {
				m.want.VideoWidth, m.want.VideoHeight = 16+g.Int(4000), 16+g.Int(3000)
				attrs = append(attrs, fmt.Sprintf("a=x-dimensions:%d,%d", m.want.VideoWidth, m.want.VideoHeight))
			}
		}
		if g.Bool(0.6) && m.pt >= 96 {
			kv := [][2]string{{"packetization-mode", "1"}, {"profile-level-id", "42001f"}, {"sprop-parameter-sets", "Z0IAH5WoFAFuQA==,aM48gA=="}, {"streamtype", "5"}, {"config", "1408"}}
			m.want.Fmtp = map[string]string{}
			var parts []string
			for _, p := range kv {
				if g.Bool(0.6) || len(parts) == 0 {
					m.want.Fmtp[p[0]] = p[1]
					parts = append(parts, p[0]+"="+p[1])
				}
			}
			sep := []string{"; ", ";"}[g.Int(2)]
			a := fmt.Sprintf("a=fmtp:%d %s", m.pt, strings.Join(parts, sep))
			if g.Bool(0.2) {
				a += ";"
			}
			m.fmtpPT = fmt.Sprint(m.pt)
			attrs = append(attrs, a)
		}
		if extra > 0 {
			attrs = append(attrs, fmt.Sprintf("a=rtpmap:%d %s", extra, []string{"VP8/90000", "telephone-event/8000", "H264/90000", "bbw/90000"}[g.Int(4)]))
			if g.Bool(0.5) {
				attrs = append(attrs, fmt.Sprintf("a=fmtp:%d %s", extra, []string{"max-fr=30", "0-15", "profile-level-id=640028;packetization-mode=0"}[g.Int(3)]))
			}
		}
		if g.Bool(0.3) {
			attrs = append(attrs, []string{"a=recvonly", "a=x-vendor:a:b c=d", "a=range:npt=0-"}[g.Int(3)])
		}
		// any order of attributes
		for k := len(attrs) - 1; k > 0; k-- {
			j := k - g.Int(k+1)
			attrs[k], attrs[j] = attrs[j], attrs[k]
		}
		m.lines = append(m.lines, attrs...)
		ms = append(ms, m)
	}
	return ms
}

// genConn is a connection line.
func genConn(w *World) string {
	g := w.G
	if g.Bool(0.7) {
		return "c=IN IP4 0.0.0.0"
	}
	w.Has("sdp-connection")
	return []string{
		"c=IN IP4 10.0.1.7", "c=IN IP4 239.2.1.1/127", "c=IN IP4 239.2.1.1/64/3", "c=IN IP6 ::", "c=IN IP6 ff15::101", "c=IN IP6 ff15::101/3",
		"c=IN IP4 camera.example.com",
	}[g.Int(7)]
}

// genBandwidth is bandwidth lines.
func genBandwidth(w *World) []string {
	g := w.G
	if g.Bool(0.7) {
		return []string{fmt.Sprintf("b=AS:%d", 100+g.Int(9000))}
	}
	w.Has("sdp-bandwidth")
	all := []string{"b=CT:5100", "b=AS:300", "b=TIAS:128000", "b=RS:0", "b=RR:0", "b=X-YZ:128"}
	var l []string
	for k := 1 + g.Int(3); k > 0; k-- {
		l = append(l, all[g.Int(len(all))])
	}
	return l
}

// genSDP is a description of the medias, with whatever else is allowed in one.
func genSDP(w *World, ms []media) string {
	g := w.G
	id := strconv.Itoa(g.Int(1 << 30))
	if g.Bool(0.2) { // an NTP timestamp
		w.Has("sdp-ntp-id")
		id = []string{"3968441072", "1116907222000", "16381778200090761968", "18446744073709551615"}[g.Int(4)]
	}
	version := "1"
	if g.Bool(0.2) {
		version = id
	}
	addr := fmt.Sprintf("IN IP4 10.0.1.%d", 1+g.Int(250))
	if g.Bool(0.15) {
		addr = []string{"IN IP6 ::1", "IN IP6 2001:db8::7", "IN IP4 camera.example.com"}[g.Int(3)]
	}
	user := []string{"-", "-", "jdoe", "StreamingServer"}[g.Int(4)]
	l := []string{"v=0", fmt.Sprintf("o=%s %s %s %s", user, id, version, addr), "s=" + []string{"Session", "Media Presentation", "a b:c", " ", "-", "Ünï=x"}[g.Int(6)]}
	rich := g.Bool(0.15)
	if rich {
		w.Has("sdp-rich")
	}
	some := func(p float64, lines ...string) {
		if g.Bool(p) {
			l = append(l, lines...)
		}
	}
	some(0.3, "i=a stream")
	if rich {
		some(0.5, "u=http://www.example.com/seminars/sdp.pdf")
		some(0.5, "e=j.doe@example.com (Jane Doe)")
		some(0.5, "p=+44-171-380-7777")
	}
	if g.Bool(0.7) {
		l = append(l, genConn(w))
	}
	if g.Bool(0.3) {
		l = append(l, genBandwidth(w)...)
	}
	if rich {
		for k := 1 + g.Int(3); k > 0; k-- {
			l = append(l, []string{"t=0 0", "t=2873397496 2873404696", "t=3034423619 0"}[g.Int(3)])
			for g.Bool(0.3) {
				l = append(l, []string{"r=604800 3600 0 90000", "r=7d 1h 0 25h"}[g.Int(2)])
			}
		}
		some(0.4, "z=2882844526 -1h 2898848070 0")
		some(0.3, []string{"k=prompt", "k=clear:x7:y", "k=base64:QUJD"}[g.Int(3)])
	} else {
		l = append(l, "t=0 0")
	}
	some(0.4, "a=control:*")
	some(0.3, "a=range:npt=0-", "a=tool:stub")
	if rich {
		some(0.5, "a=recvonly", "a=type:broadcast", "a=x-qt-text-nam:Name of: it", "a=charset:ISO-8859-1")
	}
	for _, m := range ms {
		l = append(l, m.lines...)
	}
	if g.Bool(0.15) {
		w.Has("sdp-lf")
		return strings.Join(l, "\n") + []string{"\n", ""}[g.Int(2)]
	}
	return strings.Join(l, "\r\n") + "\r\n"
}

func sameMedia(got, want rtspclient.MediaSubsession, fmtpPT string) string {
	if got.MediumName != want.MediumName || got.PayloadFormat != want.PayloadFormat || got.CodecName != want.CodecName ||
		got.RtpTimestampFrequency != want.RtpTimestampFrequency || got.Channels != want.Channels && !(want.Channels <= 0 && got.Channels <= 0) || got.TrackURL != want.TrackURL ||
		got.VideoFramerate != want.VideoFramerate || got.VideoWidth != want.VideoWidth || got.VideoHeight != want.VideoHeight {
		return fmt.Sprintf("published %+v, announced %+v", got, want)
	}
	for k, v := range want.Fmtp {
		if gv, ok := got.Fmtp[k]; !ok || gv != v {
			return fmt.Sprintf("format parameter %s is %q, announced %q (all: %q)", k, gv, v, got.Fmtp)
		}
	}
	for k := range got.Fmtp {
		if _, ok := want.Fmtp[k]; !ok && k != fmtpPT && k != "" {
			return fmt.Sprintf("unannounced format parameter %q (all: %q)", k, got.Fmtp)
		}
	}
	return ""
}

// ---- packets ----

// pkt is one interleaved packet and the units complete with it.
type pkt struct {
	ch    int
	rtp   []byte
	units [][]byte
}

type packetizer struct {
	w     *World
	m     *media
	ch    int
	tag   byte
	seq   uint16
	n     uint32
	tiny  bool
	big   bool
	ts    uint32 // of the first packet
	ssrc  uint32
	step  uint32
	extra bool // packets have contributing sources, an extension or padding
	odd   bool // reserved bits and layers of the payload headers in use
}

func (p *packetizer) rtp(mark bool, payload []byte) []byte {
	p.seq++
	b := make([]byte, 12, 12+len(payload))
	b[0] = 0x80
	room := maxRTP - len(payload)
	g := p.w.G
	var more, pad []byte
	if p.extra && g.Bool(0.4) {
		n := 1 + g.Int(15) // contributing sources
		if 4*n <= room {
			b[0] |= byte(n)
			more = append(more, fill(p.w, 4*n, 'C')...)
			room -= 4 * n
		}
	}
	if p.extra && g.Bool(0.4) {
		n := []int{0, 1, 2, 3, g.Int(40), g.Int(400)}[g.Int(6)]
		if 4+4*n <= room {
			b[0] |= 0x10
			x := fill(p.w, 4+4*n, 'X')
			binary.BigEndian.PutUint16(x[2:], uint16(n))
			more = append(more, x...)
			room -= 4 + 4*n
		}
	}
	if p.extra && g.Bool(0.4) {
		n := 1 + []int{g.Int(4), g.Int(16), g.Int(255)}[g.Int(3)]
		if n <= room {
			b[0] |= 0x20
			pad = fill(p.w, n, 'P')
			pad[n-1] = byte(n)
		}
	}
	if more != nil || pad != nil {
		p.w.Has("rtp-extension-csrc-padding")
	}
	b[1] = byte(p.m.pt & 0x7f)
	if mark {
		b[1] |= 0x80
	}
	binary.BigEndian.PutUint16(b[2:], p.seq)
	binary.BigEndian.PutUint32(b[4:], p.ts+p.n*p.step)
	binary.BigEndian.PutUint32(b[8:], p.ssrc)
	return append(append(append(b, more...), payload...), pad...)
}

// body makes the bytes of a unit: unique, recognisable, arbitrary.
func (p *packetizer) body(n int) []byte {
	p.n++
	b := fill(p.w, n, p.tag)
	id := []byte{p.tag, byte(p.ch), byte(p.n >> 8), byte(p.n)}
	copy(b, id)
	return b
}

func (p *packetizer) unitSize(max int) int {
	g := p.w.G
	n := 4
	switch g.Weighted(10, 4, 2, 1) {
	case 0:
		n += g.Int(60)
	case 1:
		n += g.Int(1400)
	case 2:
		n += g.Int(9000)
	case 3:
		n += g.Int(66000)
	}
	if p.tiny && g.Bool(0.08) {
		n = g.Int(5)
	}
	return min(n, max)
}

const maxRTP = 65535 - 12

// next makes the packets of the next unit (or aggregate of units).
func (p *packetizer) next() []pkt {
	g := p.w.G
	one := func(mark bool, pl []byte, us ...[]byte) pkt { return pkt{p.ch, p.rtp(mark, pl), us} }
	// the bits of the unit headers that are usually zero
	fbit := func() byte {
		if p.odd && g.Bool(0.3) {
			return 0x80
		}
		return 0
	}
	layer := func() (byte, byte) {
		if p.odd && g.Bool(0.5) {
			l := byte(g.Int(64))
			return l >> 5, l<<3 | byte(g.Int(8))
		}
		return 0, byte(1 + g.Int(7))
	}
	switch p.m.kind {
	case mH264:
		nal := func(max int) []byte {
			h := fbit() | byte(g.Int(4))<<5 | byte(1+g.Int(23))
			return append([]byte{h}, p.body(p.unitSize(max-1))...)
		}
		switch g.Int(3) {
		case 1: // STAP-A
			k := 1 + g.Int(5)
			pl := []byte{fbit() | byte(g.Int(4))<<5 | 24}
			var us [][]byte
			for i := 0; i < k; i++ {
				u := nal(min(12000, maxRTP-len(pl)-3))
				pl = binary.BigEndian.AppendUint16(pl, uint16(len(u)))
				pl = append(pl, u...)
				us = append(us, u)
				if len(pl) > 40000 {
					break
				}
			}
			p.w.Has("stap-a")
			return []pkt{one(g.Bool(0.5), pl, us...)}
		case 2: // FU-A
			h := fbit() | byte(g.Int(4))<<5 | byte(1+g.Int(23))
			lim := 1 << 20
			n := max(2, p.unitSize(lim))
			if p.big && g.Bool(0.5) {
				n = 1<<20 + g.Int(7<<20-16)
				p.w.Has("huge-unit")
			}
			b := p.body(n)
			cuts := p.cuts(len(b))
			var ps []pkt
			for i := 0; i+1 < len(cuts); i++ {
				fh := h & 0x1f
				if i == 0 {
					fh |= 0x80
				}
				last := i+2 == len(cuts)
				if last {
					fh |= 0x40
				}
				pl := append([]byte{h&0xe0 | 28, fh}, b[cuts[i]:cuts[i+1]]...)
				if last {
					ps = append(ps, one(!p.odd || g.Bool(0.5), pl, append([]byte{h}, b...)))
				} else {
					ps = append(ps, one(false, pl))
				}
			}
			p.w.Has("fu-a")
			return ps
		}
		u := nal(maxRTP)
		return []pkt{one(g.Bool(0.5), u, u)}
	case mH265:
		nal := func(max int) []byte {
			l0, l1 := layer()
			h := []byte{fbit() | byte(g.Int(48))<<1 | l0, l1}
			return append(h, p.body(p.unitSize(max-2))...)
		}
		switch g.Int(3) {
		case 1: // AP
			k := 1 + g.Int(5)
			l0, l1 := layer()
			pl := []byte{48<<1 | l0, l1}
			var us [][]byte
			for i := 0; i < k; i++ {
				u := nal(min(12000, maxRTP-len(pl)-3))
				pl = binary.BigEndian.AppendUint16(pl, uint16(len(u)))
				pl = append(pl, u...)
				us = append(us, u)
				if len(pl) > 40000 {
					break
				}
			}
			p.w.Has("hevc-ap")
			return []pkt{one(g.Bool(0.5), pl, us...)}
		case 2: // FU
			typ := byte(g.Int(48))
			l0, h1 := layer()
			l0 |= fbit()
			n := max(2, p.unitSize(1<<20))
			if p.big && g.Bool(0.5) {
				n = 1<<20 + g.Int(7<<20-16)
				p.w.Has("huge-unit")
			}
			b := p.body(n)
			cuts := p.cuts(len(b))
			var ps []pkt
			for i := 0; i+1 < len(cuts); i++ {
				fh := typ
				if i == 0 {
					fh |= 0x80
				}
				last := i+2 == len(cuts)
				if last {
					fh |= 0x40
				}
				pl := append([]byte{49<<1 | l0, h1, fh}, b[cuts[i]:cuts[i+1]]...)
				if last {
					ps = append(ps, one(!p.odd || g.Bool(0.5), pl, append([]byte{typ<<1 | l0, h1}, b...)))
				} else {
					ps = append(ps, one(false, pl))
				}
			}
			p.w.Has("hevc-fu")
			return ps
		}
		u := nal(maxRTP)
		return []pkt{one(g.Bool(0.5), u, u)}
	case mMark:
		b := p.body(max(1, p.unitSize(1<<20)))
		cuts := []int{0, len(b)}
		if len(b) > maxRTP || g.Bool(0.6) {
			cuts = p.cuts(len(b))
		}
		var ps []pkt
		for i := 0; i+1 < len(cuts); i++ {
			if i+2 == len(cuts) {
				ps = append(ps, one(true, b[cuts[i]:cuts[i+1]], b))
			} else {
				ps = append(ps, one(false, b[cuts[i]:cuts[i+1]]))
			}
		}
		p.w.Has("marker-frames")
		return ps
	}
	b := p.body(max(1, p.unitSize(maxRTP)))
	return []pkt{one(g.Bool(0.5), b, b)}
}

// cuts splits n bytes into at least two fragments (if possible) that fit.
func (p *packetizer) cuts(n int) []int {
	g := p.w.G
	lim := 65000
	c := []int{0}
	if n > 200000 {
		for x := 0; n-x > lim; x += lim {
			c = append(c, x+lim)
		}
		return append(c, n)
	}
	parts := 2 + g.Int(4)
	if n > 40000 {
		parts = 2 + n/30000
	}
	if parts > n {
		parts = n
	}
	at := 0
	for i := 1; i < parts; i++ {
		room := n - at - (parts - i)
		s := 1
		if room > 1 {
			s = 1 + g.Int(min(room, lim))
			if n > 40000 {
				s = min(room, n/parts)
			}
		}
		at += s
		c = append(c, at)
	}
	if n-at > lim {
		c = append(c, at+(n-at)/2)
	}
	return append(c, n)
}

func frame(ch int, b []byte) []byte {
	h := []byte{'$', byte(ch), byte(len(b) >> 8), byte(len(b))}
	return append(h, b...)
}
