package main

// C02 data, C03 status, C04 request, C05 metadata and directory entry, C06
// beacon, C07 timestamp: what is encoded is what the wire format says, and what
// is decoded is what was encoded.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/timestamp"
)

const codecRule = "frames with random flags (every field and option that applies), sessions, boundary and random offsets, timestamps of every type and random contents are built through New, Make or by hand, encoded and compared byte by byte with an independent encoder; independently encoded frames are decoded into a fresh and into a used struct and every field compared. One case in twenty gives New a flag that does not exist or apply, or a value it does not have: it must be refused. "

func initConf(w *Worker) { w.Data = conf(w.Dir) }

func init() {
	register(&Prop{ID: "C02", Quick: 1200000, Thorough: 10000000, Hang: true, Init: initConf, Run: runC02,
		Rule: codecRule + "Distinct by frame bytes; non-trivial: non-empty payload.",
		Need: map[string]int{"new": 500, "make": 500, "decode": 1000, "tstamp": 500, "d16": 100, "d32": 100, "d64": 100, "mtu": 100, "huge": 300, "empty": 1000, "next": 500, "send": 100, "unknown": 1000, "novalue": 200, "unsendable": 100}})
	register(&Prop{ID: "C03", Quick: 150000, Thorough: 3000000, Hang: true, Init: initConf, Run: runC03,
		Rule: codecRule + "Distinct by frame bytes.",
		Need: map[string]int{"new": 500, "make": 500, "decode": 1000, "tstamp": 500, "holes": 1000, "huge": 30, "noholes": 100, "next": 500, "send": 100, "unknown": 1000, "novalue": 200, "unsendable": 100}})
	register(&Prop{ID: "C04", Quick: 1600000, Thorough: 12000000, Hang: true, Init: initConf, Run: runC04,
		Rule: codecRule + "File names of arbitrary non-NUL bytes. Distinct by frame bytes.",
		Need: map[string]int{"new": 500, "make": 500, "decode": 1000, "auth": 500, "noauth": 500, "long": 500, "longauth": 500, "highbytes": 500, "next": 500, "send": 100, "unknown": 1000, "novalue": 200}})
	register(&Prop{ID: "C05", Quick: 1600000, Thorough: 12000000, Hang: true, Init: initConf, Run: runC05,
		Rule: codecRule + "Distinct by frame bytes.",
		Need: map[string]int{"metadata": 1000, "dirent": 1000, "csum0": 100, "csum4": 100, "csum16": 100, "csum20": 100, "highbytes": 100, "longest": 1000, "next": 500, "send": 100, "unknown": 1000, "novalue": 200}})
	register(&Prop{ID: "C06", Quick: 1500000, Thorough: 15000000, Hang: true, Init: initConf, Run: runC06,
		Rule: codecRule + "Distinct by frame bytes.",
		Need: map[string]int{"new": 500, "make": 500, "decode": 1000, "freespace": 500, "nofreespace": 500, "statfs": 20, "send": 100, "unknown": 1000, "novalue": 200}})
	register(&Prop{ID: "C07", Quick: 3200000, Thorough: 20000000, Hang: true, Init: initConf, Run: runC07,
		Rule: "random and boundary times of years far apart x every timestamp type: the 16 bytes are compared with an independent encoder, the seconds and the printed time of the decoded timestamp with the time that went in, times that do not fit must be refused. Distinct by (type, bytes).",
		Need: map[string]int{"fits": 1000, "refused": 500, "now": 500, "pre1970": 100, "far": 100}})
}

func hexs(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x...(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// loop is a pair of UDP sockets on loopback
type loop struct {
	tx, rx *net.UDPConn
	to     *net.UDPAddr
	mu     sync.Mutex
}

// disturb has other frames, of every kind, built, encoded, decoded and printed: what was done before must not change
func disturb(c *Case) {
	r := c.R
	if r.Intn(3) > 0 {
		return
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		s := r.Uint32()
		off := uint64(r.Intn(60000))
		var ts timestamp.Timestamp
		ts.New(tsTypes[r.Intn(len(tsTypes))], time.Unix(r.Int63n(1<<32), r.Int63n(1e9)))
		desc := "descriptor=" + pick(r, "d16", "d32", "d64")
		switch r.Intn(6) {
		case 0:
			var d, e data.Data
			d.New(desc+",transfer=file,reqtstamp="+pick(r, "no", "yes", "posix64_32"), &data.Dinfo{Session: s, Offset: off, Payload: randBytes(r, r.Intn(50))})
			b, _ := d.Encode()
			e.Decode(b)
			_ = e.Print() + d.ShortPrint()
		case 1:
			var x, y status.Status
			x.New(desc+",reqtstamp="+pick(r, "no", "yes"), &status.Sinfo{Session: s, Progress: off, Inrespto: off / 2, Holes: randHoles(r, "d16", r.Intn(9))})
			b, _ := x.Encode()
			y.Decode(b)
			_ = y.Print() + x.ShortPrint()
		case 2:
			x := request.Request{Header: refSet(refSet(0, "version", "v1"), "frametype", "request"), Session: s, Fname: fmt.Sprintf("other%d", s), Auth: randBytes(r, r.Intn(20))}
			var y request.Request
			b, _ := x.Encode()
			y.Decode(b)
			_ = y.Print() + x.ShortPrint()
		case 3:
			ct := pick(r, "none", "crc32", "md5", "sha1")
			h := refSet(refSet(refSet(refSet(0, "version", "v1"), "frametype", "metadata"), "csumtype", ct), "csumlen", ct)
			x := metadata.MetaData{Header: h, Session: s, Checksum: randBytes(r, csums[ct])}
			e := randDE(r)
			e.fill(c, &x.Dir)
			var y metadata.MetaData
			b, _ := x.Encode()
			y.Decode(b)
			_ = y.Print() + x.ShortPrint()
		case 4:
			h := refSet(refSet(refSet(refSet(0, "version", "v1"), "frametype", "beacon"), "freespace", "yes"), "freespaced", "d64")
			x := beacon.Beacon{Header: h, Freespace: r.Uint64(), Eid: fmt.Sprintf("other-%d", s)}
			var y beacon.Beacon
			b, _ := x.Encode()
			y.Decode(b)
			_ = y.Print() + x.ShortPrint()
		case 5:
			e := randDE(r)
			var x, y dirent.DirEnt
			e.fill(c, &x)
			b, _ := x.Encode()
			y.Decode(b)
			_ = y.Print() + y.Copy().ShortPrint()
			var t timestamp.Timestamp
			t.Get(ts.Put())
			_ = t.Print()
		}
	}
}

var (
	theLoop  *loop
	loopOnce sync.Once
)

func getLoop() *loop {
	loopOnce.Do(func() {
		rx, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		must(err)
		rx.SetReadBuffer(1 << 20)
		tx, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		must(err)
		theLoop = &loop{tx: tx, rx: rx, to: rx.LocalAddr().(*net.UDPAddr)}
	})
	return theLoop
}

// sent: the datagrams that send put on the wire
func (l *loop) sent(send func(conn *net.UDPConn, to *net.UDPAddr) error) ([]byte, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if err := send(l.tx, l.to); err != nil {
		return nil, err
	}
	buf := make([]byte, 70000)
	l.rx.SetReadDeadline(time.Now().Add(20 * time.Second))
	n, _, err := l.rx.ReadFromUDP(buf)
	if err != nil {
		return nil, fmt.Errorf("nothing arrived: %v", err)
	}
	return buf[:n], nil
}

func near(secs uint64, lo, hi time.Time) bool {
	s := int64(secs)
	return s >= lo.Unix()-600 && s <= hi.Unix()+600
}

func checkNow(c *Case, ts *timestamp.Timestamp, tt string, lo time.Time) {
	b := ts.Put()
	if len(b) != 16 {
		c.Fail("now", "timestamp of %d bytes", len(b))
		return
	}
	if uint32(b[0]) != refTstamp.Opts[tt] {
		c.Fail("now", "timestamp type byte %d want %s", b[0], tt)
		return
	}
	var s uint64
	switch tt {
	case "posix32", "posix32_32":
		s = uint64(binary.BigEndian.Uint32(b[1:]))
	case "posix64", "posix64_32":
		s = binary.BigEndian.Uint64(b[1:])
	case "epoch2000_32":
		s = uint64(binary.BigEndian.Uint32(b[1:])) + uint64(y2k.Unix())
	default:
		return
	}
	if !near(s, lo, time.Now()) {
		c.Fail("now", "%s timestamp of now holds %d seconds, the clock says %d", tt, s, lo.Unix())
	}
}

// unknown: New must refuse flags that are none, do not apply to the frame, or have no such value,
// wherever in the list they are. allowed are those that apply.
func unknown(c *Case, kind string, allowed []string, tail string, make func(fs string) error) {
	r := c.R
	var names []string
	for _, n := range allowed {
		if r.Intn(2) == 0 {
			names = append(names, n)
		}
	}
	fixed := map[string]string{}
	if kind == "data" {
		fixed["transfer"] = "file"
	}
	fs, _ := randFlags(r, names, fixed, 0)
	parts := []string{}
	if fs != "" {
		parts = strings.Split(fs, ",")
	}
	bad := ""
	switch r.Intn(5) {
	case 4: // No value, or two
		n := allowed[r.Intn(len(allowed))]
		v := keys(refFields[n].Opts)
		bad = pick(r, n, n, n+"="+v[r.Intn(len(v))]+"="+v[r.Intn(len(v))], "=", "="+v[0], "nosuch")
		c.Obs("novalue")
	case 0: // No such flag
		bad = pick(r, "nosuch", "Descriptor", "session", "x", "descripto", "descriptorr") + "=" + pick(r, "yes", "d32", "")
	case 1: // A flag of other frames
		in := map[string]bool{}
		for _, n := range append(allowed, "version", "frametype", "reqtstamp", "freespaced", "freespace", "stream") {
			in[n] = true
		}
		var o []string
		for n := range refFields {
			if !in[n] {
				o = append(o, n)
			}
		}
		sort.Strings(o)
		n := o[r.Intn(len(o))]
		var v []string
		for x := range refFields[n].Opts {
			v = append(v, x)
		}
		sort.Strings(v)
		if len(v) == 0 {
			return
		}
		bad = n + "=" + v[r.Intn(len(v))]
	default: // No such value
		bad = allowed[r.Intn(len(allowed))] + "=" + pick(r, "nosuch", "D32", "d33", "maybe", "", "0")
		if kind == "data" && r.Intn(3) == 0 {
			bad = "reqtstamp=" + pick(r, "posix", "posix33", "maybe")
			if r.Intn(2) == 0 {
				bad = "transfer=bundle" // Not supported
			}
		}
		if kind == "beacon" && r.Intn(3) == 0 {
			bad = "freespaced=" + pick(r, "d128", "d8", "yes")
		}
	}
	at := r.Intn(len(parts) + 1)
	parts = append(parts[:at], append([]string{bad}, parts[at:]...)...)
	fs = strings.Join(parts, ",")
	c.Obs("unknown")
	c.Sig("%s", fs)
	if err := make(fs + tail); err == nil {
		c.Fail("unknown", "%s New(%q) is not refused: %s", kind, fs, bad)
	}
}

// unsendable: what does not fit must not be sent, and the sender be told
func unsendable(c *Case, kind string, send func(conn *net.UDPConn, to *net.UDPAddr) error) {
	l := getLoop()
	c.Obs("unsendable")
	l.mu.Lock()
	defer l.mu.Unlock()
	if err := send(l.tx, l.to); err == nil {
		c.Fail("send", "a %s frame that cannot be encoded is sent without error", kind)
	}
	buf := make([]byte, 70000)
	l.tx.WriteTo([]byte("end"), l.to)
	l.rx.SetReadDeadline(time.Now().Add(20 * time.Second))
	for {
		n, _, err := l.rx.ReadFromUDP(buf)
		if err != nil || string(buf[:n]) == "end" {
			return
		}
		c.Fail("send", "a %s frame that cannot be encoded is sent as %s", kind, hexs(buf[:n]))
	}
}

// ---- C02

func refData(h uint32, session uint32, ts []byte, off uint64, payload []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, h)
	b = binary.BigEndian.AppendUint32(b, session)
	b = append(b, ts...)
	b = putD(b, refStr(h, "descriptor"), off)
	return append(b, payload...)
}

func eqData(d *data.Data, h, s uint32, ts []byte, off uint64, p []byte) string {
	switch {
	case d.Header != h:
		return fmt.Sprintf("header %08x want %08x", d.Header, h)
	case d.Session != s:
		return fmt.Sprintf("session %d want %d", d.Session, s)
	case d.Offset != off:
		return fmt.Sprintf("offset %d want %d", d.Offset, off)
	case !bytes.Equal(d.Payload, p):
		return fmt.Sprintf("payload of %d bytes %s want %d bytes %s", len(d.Payload), hexs(d.Payload), len(p), hexs(p))
	case ts != nil && !bytes.Equal(d.Tstamp.Put(), ts):
		return fmt.Sprintf("timestamp %x want %x", d.Tstamp.Put(), ts)
	}
	return ""
}

func sess(r *rand.Rand) uint32 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 0xffffffff
	}
	return r.Uint32()
}

func payload(c *Case) []byte {
	r := c.R
	n := 1 + r.Intn(64)
	switch r.Intn(8) {
	case 0:
		n = 1
	case 1:
		n = 1400 + r.Intn(7500)
		c.Obs("mtu")
	case 2:
		n = 1 + r.Intn(1500)
	case 3:
		switch r.Intn(30) {
		case 0:
			n = 9000 + r.Intn(56000)
			switch r.Intn(8) {
			case 0: // Around the largest datagram
				n = 65400 + r.Intn(200)
			case 1:
				n = 65000 + r.Intn(100000)
			}
			c.Obs("huge")
		case 1, 2, 3: // The end of a file may come alone
			n = 0
			c.Obs("empty")
		}
	}
	return randBytes(r, n)
}

func runC02(c *Case) {
	r := c.R
	if r.Intn(20) == 0 {
		var d data.Data
		if r.Intn(10) == 0 {
			d = data.Data{Header: refSet(0, "descriptor", "d16"), Offset: 65536 + uint64(r.Intn(1000)), Payload: []byte("x")}
			unsendable(c, "data", d.Send)
			return
		}
		unknown(c, "data", []string{"descriptor", "reqstatus", "eod", "transfer"}, "", func(fs string) error {
			return d.New(fs, &data.Dinfo{Session: 1, Offset: 2, Payload: []byte("x")})
		})
		return
	}
	desc := pick(r, "d16", "d32", "d64")
	c.Obs(desc)
	s, off, p := sess(r), valFor(r, desc), payload(c)
	var base uint32
	base = refSet(refSet(base, "version", "v1"), "frametype", "data")
	orig := append([]byte{}, p...)
	var d data.Data
	switch r.Intn(3) {
	case 0: // New
		c.Obs("new")
		fixed := map[string]string{"descriptor": desc, "transfer": pick(r, "file", "directory", "stream")}
		fs, h := randFlags(r, []string{"descriptor", "reqstatus", "eod", "transfer"}, fixed, base)
		tt := pick(r, append([]string{"no", "yes", ""}, tsTypes...)...)
		lo := time.Now()
		if tt != "" {
			fs += ",reqtstamp=" + tt
			if tt != "no" {
				h = refSet(h, "reqtstamp", "yes")
			}
		}
		if err := d.New(fs, &data.Dinfo{Session: s, Offset: off, Payload: p}); err != nil {
			c.Fail("new", "New(%q) refused: %v", fs, err)
			return
		}
		for i := range p { // The caller reuses its buffer
			p[i] ^= 0xff
		}
		disturb(c)
		if tt == "yes" {
			tt = "posix32"
		}
		var ts []byte
		if tt != "" && tt != "no" {
			c.Obs("tstamp")
			checkNow(c, &d.Tstamp, tt, lo)
			ts = d.Tstamp.Put()
		}
		if e := eqData(&d, h, s, ts, off, orig); e != "" {
			c.Fail("new", "New(%q): %s", fs, e)
			return
		}
		c02Wire(c, &d, h, s, ts, off, orig)
	case 1: // Make
		c.Obs("make")
		_, h := randFlags(r, []string{"transfer", "reqtstamp", "reqstatus", "eod"}, nil, 0)
		h = refSet(h, "descriptor", desc)
		lo := time.Now()
		if err := d.Make(h, &data.Dinfo{Session: s, Offset: off, Payload: p}); err != nil {
			c.Fail("make", "Make(%08x) refused: %v", h, err)
			return
		}
		for i := range p {
			p[i] ^= 0xff
		}
		disturb(c)
		h |= base
		var ts []byte
		if refStr(h, "reqtstamp") == "yes" {
			c.Obs("tstamp")
			checkNow(c, &d.Tstamp, "posix32", lo)
			ts = d.Tstamp.Put()
		}
		if e := eqData(&d, h, s, ts, off, orig); e != "" {
			c.Fail("make", "Make(%08x): %s", h, e)
			return
		}
		c02Wire(c, &d, h, s, ts, off, orig)
	case 2: // By hand, with the timestamp of any time
		_, h := randFlags(r, []string{"transfer", "reqtstamp", "reqstatus", "eod"}, nil, base)
		h = refSet(h, "descriptor", desc)
		d = data.Data{Header: h, Session: s, Offset: off, Payload: p}
		var ts []byte
		if refStr(h, "reqtstamp") == "yes" {
			c.Obs("tstamp")
			tt := tsTypes[r.Intn(len(tsTypes))]
			t := randTime(r, tt)
			ts, _ = refTS(tt, t)
			if err := d.Tstamp.New(tt, t); err != nil {
				c.Fail("tstamp", "timestamp %s of %v refused: %v", tt, t, err)
				return
			}
		}
		c02Wire(c, &d, h, s, ts, off, p)
	}
}

func c02Wire(c *Case, d *data.Data, h, s uint32, ts []byte, off uint64, p []byte) {
	r := c.R
	want := refData(h, s, ts, off, p)
	got, err := d.Encode()
	disturb(c)
	if err != nil || !bytes.Equal(got, want) {
		c.Fail("encode", "data frame encodes to %s, %v\nwant %s", hexs(got), err, hexs(want))
		return
	}
	c.Sig("%x", want)
	if c.Wants() {
		c.Sample(map[string]interface{}{"frame": hexs(want), "offset": off, "session": s, "payload_len": len(p)})
	}
	var e data.Data
	if r.Intn(2) == 0 { // A struct that was used before
		e.Decode(refData(refSet(refSet(0, "descriptor", "d32"), "reqtstamp", "yes"), 77, make([]byte, 16), 99, []byte("old payload of another frame")))
	}
	frame := append([]byte{}, want...)
	c.Obs("decode")
	if err := e.Decode(frame); err != nil {
		c.Fail("decode", "valid data frame %s refused: %v", hexs(want), err)
		return
	}
	for i := range frame { // The receive buffer is reused
		frame[i] ^= 0x55
	}
	disturb(c)
	if x := eqData(&e, h, s, ts, off, p); x != "" {
		c.Fail("decode", "frame %s decodes to %s", hexs(want), x)
		return
	}
	addr := &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(255))), Port: r.Intn(65536)}
	v := e.Val(addr)
	if x := eqData(&v.Info, h, s, ts, off, p); x != "" || v.Addr.String() != addr.String() {
		c.Fail("val", "the packet handed on differs from the frame: %s %v", x, v.Addr)
	}
	if r.Intn(20) == 0 {
		c.Obs("send")
		w, err := getLoop().sent(e.Send)
		if len(want) > 65507 { // More than a datagram holds
			if err == nil {
				c.Fail("send", "frame of %d bytes sent as %s", len(want), hexs(w))
			}
		} else if err != nil || !bytes.Equal(w, want) {
			c.Fail("send", "sent %s, %v want %s", hexs(w), err, hexs(want))
		}
	}
	pr := e.Print() + e.ShortPrint()
	if !strings.Contains(pr, fmt.Sprintf("session:%d", s)) || !strings.Contains(pr, fmt.Sprintf("offset:%d", off)) {
		c.Fail("print", "print of session %d offset %d:\n%s", s, off, pr)
	}
	for i := range p { // The next frame
		want[len(want)-len(p)+i] ^= 0x55
	}
	if err := e.Decode(want); err == nil && len(p) > 0 {
		c.Obs("next")
		if x := eqData(&v.Info, h, s, ts, off, p); x != "" {
			c.Fail("val", "the packet handed on changes with the next frame: %s", x)
		}
	}
}

// ---- C03

func refStatus(h, s uint32, ts []byte, prog, in uint64, hs holes.Holes) []byte {
	b := binary.BigEndian.AppendUint32(nil, h)
	b = binary.BigEndian.AppendUint32(b, s)
	b = append(b, ts...)
	d := refStr(h, "descriptor")
	b = putD(putD(b, d, prog), d, in)
	for _, x := range hs {
		b = putD(putD(b, d, uint64(x.Start)), d, uint64(x.End))
	}
	return b
}

func eqStatus(x *status.Status, h, s uint32, ts []byte, prog, in uint64, hs holes.Holes) string {
	switch {
	case x.Header != h:
		return fmt.Sprintf("header %08x want %08x", x.Header, h)
	case x.Session != s:
		return fmt.Sprintf("session %d want %d", x.Session, s)
	case x.Progress != prog || x.Inrespto != in:
		return fmt.Sprintf("progress %d in response to %d want %d, %d", x.Progress, x.Inrespto, prog, in)
	case len(x.Holes) != len(hs):
		return fmt.Sprintf("%d holes %v want %d", len(x.Holes), x.Holes, len(hs))
	case ts != nil && !bytes.Equal(x.Tstamp.Put(), ts):
		return fmt.Sprintf("timestamp %x want %x", x.Tstamp.Put(), ts)
	}
	for i := range hs {
		if hs[i] != x.Holes[i] {
			return fmt.Sprintf("hole %d is %v want %v", i, x.Holes[i], hs[i])
		}
	}
	return ""
}

func randHoles(r *rand.Rand, d string, n int) (hs holes.Holes) {
	for i := 0; i < n; i++ {
		a, b := valFor(r, d)&(1<<63-1), valFor(r, d)&(1<<63-1)
		if a > b {
			a, b = b, a
		}
		hs = append(hs, holes.Hole{Start: int(a), End: int(b)})
	}
	return
}

func runC03(c *Case) {
	r := c.R
	if r.Intn(20) == 0 {
		var x status.Status
		if r.Intn(10) == 0 {
			x = status.Status{Header: refSet(0, "descriptor", "d16"), Progress: 65536 + uint64(r.Intn(1000))}
			unsendable(c, "status", x.Send)
			return
		}
		unknown(c, "status", []string{"descriptor", "metadatarecvd", "allholes", "reqholes", "errcode", "reqtstamp"}, "", func(fs string) error {
			return x.New(fs, &status.Sinfo{Session: 1, Progress: 2, Inrespto: 3})
		})
		return
	}
	d := pick(r, "d16", "d32", "d64")
	n := 0
	switch r.Intn(4) {
	case 0:
		n = r.Intn(4)
	case 1:
		n = 1 + r.Intn(20)
	case 2:
		n = r.Intn(400)
	case 3:
		if r.Intn(400) == 0 { // As many as a datagram can carry
			n, _ = dsize(d)
			n = (65000 - 24 - 2*n) / (2 * n)
			n -= r.Intn(n) * r.Intn(2)
			c.Obs("huge")
		}
	}
	if n == 0 {
		c.Obs("noholes")
	} else {
		c.Obs("holes")
	}
	hs := randHoles(r, d, n)
	s, prog, in := sess(r), valFor(r, d), valFor(r, d)
	base := refSet(refSet(0, "version", "v1"), "frametype", "status")
	names := []string{"metadatarecvd", "allholes", "reqholes", "errcode"}
	var x status.Status
	var ts []byte
	var h uint32
	switch r.Intn(3) {
	case 0:
		c.Obs("new")
		var fs string
		fs, h = randFlags(r, append(names, "descriptor"), map[string]string{"descriptor": d}, base)
		lo := time.Now()
		tt := ""
		switch r.Intn(4) {
		case 0:
			fs += ",reqtstamp=no"
		case 1:
			fs += ",reqtstamp=yes"
			tt = "posix32"
		case 2: // The name of a timestamp type asks for a timestamp of that type
			tt = tsTypes[r.Intn(len(tsTypes))]
			fs += "," + tt
		}
		if err := x.New(fs, &status.Sinfo{Session: s, Progress: prog, Inrespto: in, Holes: hs}); err != nil {
			c.Fail("new", "New(%q) refused: %v", fs, err)
			return
		}
		if tt != "" {
			h = refSet(h, "reqtstamp", "yes")
			c.Obs("tstamp")
			checkNow(c, &x.Tstamp, tt, lo)
			ts = x.Tstamp.Put()
		}
		if e := eqStatus(&x, h, s, ts, prog, in, hs); e != "" {
			c.Fail("new", "New(%q): %s", fs, e)
			return
		}
	case 1:
		c.Obs("make")
		_, h = randFlags(r, names, nil, 0)
		h = refSet(h, "descriptor", d)
		if err := x.Make(h, &status.Sinfo{Session: s, Progress: prog, Inrespto: in, Holes: hs}); err != nil {
			c.Fail("make", "Make(%08x) refused: %v", h, err)
			return
		}
		h |= base
		if e := eqStatus(&x, h, s, nil, prog, in, hs); e != "" {
			c.Fail("make", "Make(%08x): %s", h, e)
			return
		}
	case 2:
		_, h = randFlags(r, append(names, "reqtstamp"), nil, base)
		h = refSet(h, "descriptor", d)
		x = status.Status{Header: h, Session: s, Progress: prog, Inrespto: in, Holes: hs}
		if refStr(h, "reqtstamp") == "yes" {
			c.Obs("tstamp")
			tt := tsTypes[r.Intn(len(tsTypes))]
			t := randTime(r, tt)
			ts, _ = refTS(tt, t)
			if err := x.Tstamp.New(tt, t); err != nil {
				c.Fail("tstamp", "timestamp %s of %v refused: %v", tt, t, err)
				return
			}
		}
	}
	want := refStatus(h, s, ts, prog, in, hs)
	got, err := x.Encode()
	disturb(c)
	if err != nil || !bytes.Equal(got, want) {
		c.Fail("encode", "status frame (%d holes) encodes to %s, %v\nwant %s", len(hs), hexs(got), err, hexs(want))
		return
	}
	c.Sig("%x", want)
	if c.Wants() {
		c.Sample(map[string]interface{}{"frame": hexs(want), "holes": len(hs)})
	}
	var y status.Status
	if r.Intn(2) == 0 {
		y.Decode(refStatus(refSet(0, "descriptor", "d16"), 5, nil, 6, 7, holes.Holes{{Start: 1, End: 2}, {Start: 3, End: 4}}))
	}
	frame := append([]byte{}, want...)
	c.Obs("decode")
	if err := y.Decode(frame); err != nil {
		c.Fail("decode", "valid status frame %s refused: %v", hexs(want), err)
		return
	}
	for i := range frame {
		frame[i] ^= 0x55
	}
	disturb(c)
	if e := eqStatus(&y, h, s, ts, prog, in, hs); e != "" {
		c.Fail("decode", "frame %s decodes to %s", hexs(want), e)
		return
	}
	addr := &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(255))), Port: r.Intn(65536)}
	v := y.Val(addr)
	if e := eqStatus(&v.Info, h, s, ts, prog, in, hs); e != "" || v.Addr.String() != addr.String() {
		c.Fail("val", "the packet handed on differs from the frame: %s %v", e, v.Addr)
	}
	vv := y.Values()
	if e := eqStatus(&vv, h, s, ts, prog, in, hs); e != "" {
		c.Fail("val", "Values differs from the frame: %s", e)
	}
	if r.Intn(20) == 0 {
		c.Obs("send")
		w, err := getLoop().sent(y.Send)
		if err != nil || !bytes.Equal(w, want) {
			c.Fail("send", "sent %s, %v want %s", hexs(w), err, hexs(want))
		}
	}
	pr := y.Print() + y.ShortPrint()
	if !strings.Contains(pr, fmt.Sprintf("session:%d", s)) || !strings.Contains(pr, fmt.Sprintf("progress:%d", prog)) ||
		!strings.Contains(pr, "errcode:"+refStr(h, "errcode")) {
		c.Fail("print", "print of session %d progress %d errcode %s:\n%s", s, prog, refStr(h, "errcode"), pr)
	}
	next := make(holes.Holes, len(hs)) // The next frame
	for i := range next {
		next[i] = holes.Hole{Start: hs[i].Start/2 + 1, End: hs[i].End/2 + 2}
	}
	if err := y.Decode(refStatus(h, s+1, ts, prog, in, next)); err == nil && len(hs) > 0 {
		c.Obs("next")
		if e := eqStatus(&v.Info, h, s, ts, prog, in, hs) + eqStatus(&vv, h, s, ts, prog, in, hs); e != "" {
			c.Fail("val", "the packet handed on changes with the next frame: %s", e)
		}
	}
}

// ---- C04

func refRequest(h, s uint32, name string, auth []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, h)
	b = binary.BigEndian.AppendUint32(b, s)
	b = append(b, name...)
	b = append(b, 0)
	return append(b, auth...)
}

func eqRequest(x *request.Request, h, s uint32, name string, auth []byte) string {
	switch {
	case x.Header != h:
		return fmt.Sprintf("header %08x want %08x", x.Header, h)
	case x.Session != s:
		return fmt.Sprintf("session %d want %d", x.Session, s)
	case x.Fname != name:
		return fmt.Sprintf("file name %q want %q", x.Fname, name)
	case !bytes.Equal(x.Auth, auth):
		return fmt.Sprintf("auth %x want %x", x.Auth, auth)
	}
	return ""
}

func hasHigh(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return true
		}
	}
	return false
}

func runC04(c *Case) {
	r := c.R
	if r.Intn(20) == 0 {
		var x request.Request
		unknown(c, "request", []string{"descriptor", "stream", "txwilling", "rxwilling", "reqtype", "fileordir", "udplite"}, "", func(fs string) error {
			return x.New(fs, &request.Rinfo{Session: 1, Fname: "f"})
		})
		return
	}
	s, name := sess(r), randName(r)
	switch r.Intn(100) {
	case 0, 1, 2, 3, 4:
		name = ""
	case 5: // Long
		name = strings.Repeat(pick(r, "n", "dir/", "name ", "\xe9"), 9000)[:1000+r.Intn(8000)]
		c.Obs("long")
	}
	if hasHigh(name) {
		c.Obs("highbytes")
	}
	var auth []byte
	if r.Intn(2) == 0 {
		c.Obs("auth")
		auth = randBytes(r, 1+r.Intn(64))
		if r.Intn(100) == 0 {
			auth = randBytes(r, 1+r.Intn(9000))
			c.Obs("longauth")
		}
	} else {
		c.Obs("noauth")
	}
	orig := append([]byte{}, auth...)
	base := refSet(refSet(0, "version", "v1"), "frametype", "request")
	names := []string{"descriptor", "stream", "txwilling", "rxwilling", "reqtype", "fileordir", "udplite"}
	var x request.Request
	var h uint32
	switch r.Intn(3) {
	case 0:
		c.Obs("new")
		var fs string
		fs, h = randFlags(r, names, map[string]string{"descriptor": pick(r, "d16", "d32", "d64", "d128")}, base)
		if err := x.New(fs, &request.Rinfo{Session: s, Fname: name, Auth: auth}); err != nil {
			c.Fail("new", "New(%q) refused: %v", fs, err)
			return
		}
		for i := range auth {
			auth[i] ^= 0xff
		}
		if e := eqRequest(&x, h, s, name, orig); e != "" {
			c.Fail("new", "New(%q): %s", fs, e)
			return
		}
	case 1:
		c.Obs("make")
		_, h = randFlags(r, names, nil, 0)
		if err := x.Make(h, &request.Rinfo{Session: s, Fname: name, Auth: auth}); err != nil {
			c.Fail("make", "Make(%08x) refused: %v", h, err)
			return
		}
		h |= base
		if e := eqRequest(&x, h, s, name, orig); e != "" {
			c.Fail("make", "Make(%08x): %s", h, e)
			return
		}
	case 2:
		_, h = randFlags(r, names, nil, base)
		x = request.Request{Header: h, Session: s, Fname: name, Auth: auth}
	}
	auth = orig
	want := refRequest(h, s, name, auth)
	got, err := x.Encode()
	disturb(c)
	if err != nil || !bytes.Equal(got, want) {
		c.Fail("encode", "request for %q encodes to %s, %v\nwant %s", name, hexs(got), err, hexs(want))
		return
	}
	c.Sig("%x", want)
	if c.Wants() {
		c.Sample(map[string]interface{}{"frame": hexs(want), "name": name})
	}
	var y request.Request
	if r.Intn(2) == 0 {
		y.Decode(refRequest(base, 9, "older name", []byte("older auth")))
	}
	frame := append([]byte{}, want...)
	c.Obs("decode")
	if err := y.Decode(frame); err != nil {
		c.Fail("decode", "valid request %s refused: %v", hexs(want), err)
		return
	}
	for i := range frame {
		frame[i] ^= 0x55
	}
	disturb(c)
	if e := eqRequest(&y, h, s, name, auth); e != "" {
		c.Fail("decode", "frame %s decodes to %s", hexs(want), e)
		return
	}
	addr := &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(255))), Port: r.Intn(65536)}
	v := y.Val(addr)
	if e := eqRequest(&v.Info, h, s, name, auth); e != "" || v.Addr.String() != addr.String() {
		c.Fail("val", "the packet handed on differs from the frame: %s %v", e, v.Addr)
	}
	if r.Intn(20) == 0 {
		c.Obs("send")
		w, err := getLoop().sent(y.Send)
		if err != nil || !bytes.Equal(w, want) {
			c.Fail("send", "sent %s, %v want %s", hexs(w), err, hexs(want))
		}
	}
	pr := y.Print() + y.ShortPrint()
	if !strings.Contains(pr, fmt.Sprintf("session:%d", s)) || !strings.Contains(pr, "filename:"+name) {
		c.Fail("print", "print of session %d name %q:\n%s", s, name, pr)
	}
	next := append([]byte{}, auth...) // The next frame
	for i := range next {
		next[i] ^= 0x55
	}
	if err := y.Decode(refRequest(h, s+1, name, next)); err == nil && len(auth) > 0 {
		c.Obs("next")
		if e := eqRequest(&v.Info, h, s, name, auth); e != "" {
			c.Fail("val", "the packet handed on changes with the next frame: %s", e)
		}
	}
}

// ---- C05

type refDE struct {
	h    uint16
	size uint64
	mt   uint32 // Seconds since 2000
	ct   uint32
	path string
}

func (e refDE) desc() string {
	s, _ := refDirent["descriptor"].name(refDirent["descriptor"].get(16, uint32(e.h)))
	return s
}

func (e refDE) wire() []byte {
	b := binary.BigEndian.AppendUint16(nil, e.h)
	b = putD(b, e.desc(), e.size)
	b = binary.BigEndian.AppendUint32(b, e.mt)
	b = binary.BigEndian.AppendUint32(b, e.ct)
	b = append(b, e.path...)
	return append(b, 0)
}

func randDE(r *rand.Rand) refDE {
	d := pick(r, "d16", "d32", "d64")
	var e refDE
	h := refDirent["sod"].put(16, 0, 1)
	h = refDirent["descriptor"].put(16, h, refFields["descriptor"].Opts[d])
	h = refDirent["property"].put(16, h, uint32(r.Intn(4)))
	e.h = uint16(h)
	e.size = valFor(r, d)
	e.mt, e.ct = uint32(valFor(r, "d32")), uint32(valFor(r, "d32"))
	e.path = randName(r)
	if r.Intn(100) == 0 { // As long as it may be
		e.path = e.path[:min(len(e.path), 900)]
		e.path += strings.Repeat("/"+pick(r, "x", "12345678", " "), 1024)[:1024-len(e.path)-r.Intn(3)]
	}
	if len(e.path) > 1024 {
		e.path = e.path[:1024]
	}
	return e
}

func (e refDE) fill(c *Case, d *dirent.DirEnt) {
	d.Header, d.Size, d.Path = e.h, e.size, e.path
	if d.Mtime.New("epoch2000_32", y2k.Add(time.Duration(e.mt)*time.Second)) != nil ||
		d.Ctime.New("epoch2000_32", y2k.Add(time.Duration(e.ct)*time.Second)) != nil {
		c.Fail("tstamp", "time of a directory entry refused")
	}
}

func (e refDE) eq(d *dirent.DirEnt) string {
	switch {
	case d.Header != e.h:
		return fmt.Sprintf("header %04x want %04x", d.Header, e.h)
	case d.Size != e.size:
		return fmt.Sprintf("size %d want %d", d.Size, e.size)
	case d.Mtime.Secs() != uint64(e.mt):
		return fmt.Sprintf("mtime %d want %d", d.Mtime.Secs(), e.mt)
	case d.Ctime.Secs() != uint64(e.ct):
		return fmt.Sprintf("ctime %d want %d", d.Ctime.Secs(), e.ct)
	case d.Path != e.path:
		return fmt.Sprintf("path %q want %q", d.Path, e.path)
	}
	if w := refTSPrint("epoch2000_32", y2k.Add(time.Duration(e.mt)*time.Second)); d.Mtime.Print() != w {
		return fmt.Sprintf("mtime prints %q want %q", d.Mtime.Print(), w)
	}
	return ""
}

var csums = map[string]int{"none": 0, "crc32": 4, "md5": 16, "sha1": 20}

func runC05(c *Case) {
	r := c.R
	if r.Intn(20) == 0 {
		f := filepath.Join(c.Dir, "afile")
		if _, err := os.Stat(f); err != nil {
			must(os.WriteFile(f, []byte("some bytes"), 0644))
		}
		if r.Intn(3) == 0 {
			bad := pick(r, "property", "descriptor", "descriptor=d16=d32", "property=nosuch", "descriptor=d33", "descriptor=", "nosuch=yes", "sod=sod", "csumtype=md5")
			fs := []string{"descriptor=" + pick(r, "d16", "d32", "d64"), "property=normalfile"}
			at := r.Intn(3)
			fs = append(fs[:at], append([]string{bad}, fs[at:]...)...)
			var d dirent.DirEnt
			c.Obs("unknown")
			if err := d.New(strings.Join(fs, ","), f); err == nil {
				c.Fail("unknown", "directory entry New(%q) is not refused", fs)
			}
			return
		}
		var x metadata.MetaData
		unknown(c, "metadata", []string{"descriptor", "progress", "reliability", "csumtype"}, ",transfer=file", func(fs string) error {
			return x.New(fs, &metadata.Minfo{Session: 1, Fname: f})
		})
		return
	}
	e := randDE(r)
	if hasHigh(e.path) {
		c.Obs("highbytes")
	}
	if len(e.path) == 1024 {
		c.Obs("longest")
	}
	if r.Intn(3) == 0 { // Directory entry alone
		c.Obs("dirent")
		var d dirent.DirEnt
		e.fill(c, &d)
		want := e.wire()
		got, err := d.Encode()
		disturb(c)
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("dirent encode", "directory entry encodes to %s, %v want %s", hexs(got), err, hexs(want))
			return
		}
		c.Sig("%x", want)
		var y dirent.DirEnt
		if r.Intn(2) == 0 {
			o := randDE(r)
			y.Decode(o.wire())
		}
		frame := append([]byte{}, want...)
		if err := y.Decode(frame); err != nil {
			c.Fail("dirent decode", "valid directory entry %s refused: %v", hexs(want), err)
			return
		}
		for i := range frame {
			frame[i] ^= 0x55
		}
		disturb(c)
		if x := e.eq(&y); x != "" {
			c.Fail("dirent decode", "directory entry %s decodes to %s", hexs(want), x)
			return
		}
		cp, va := y.Copy(), y.Value()
		if x := e.eq(cp) + e.eq(&va); x != "" {
			c.Fail("dirent copy", "the copy of a directory entry differs: %s", x)
		}
		if p := y.Print() + y.ShortPrint(); !strings.Contains(p, "Path:"+e.path) || !strings.Contains(p, fmt.Sprintf("Size:%d", e.size)) {
			c.Fail("print", "print of %q size %d:\n%s", e.path, e.size, p)
		}
		return
	}
	c.Obs("metadata")
	ct := pick(r, "none", "crc32", "md5", "sha1")
	sum := randBytes(r, csums[ct])
	c.Obs(fmt.Sprintf("csum%d", len(sum)))
	base := refSet(refSet(0, "version", "v1"), "frametype", "metadata")
	_, h := randFlags(r, []string{"descriptor", "transfer", "progress", "reliability"}, nil, base)
	h = refSet(refSet(h, "csumtype", ct), "csumlen", ct)
	s := sess(r)
	m := metadata.MetaData{Header: h, Session: s, Checksum: sum}
	e.fill(c, &m.Dir)
	want := binary.BigEndian.AppendUint32(nil, h)
	want = binary.BigEndian.AppendUint32(want, s)
	want = append(want, sum...)
	want = append(want, e.wire()...)
	got, err := m.Encode()
	disturb(c)
	if err != nil || !bytes.Equal(got, want) {
		c.Fail("encode", "metadata encodes to %s, %v want %s", hexs(got), err, hexs(want))
		return
	}
	c.Sig("%x", want)
	if c.Wants() {
		c.Sample(map[string]interface{}{"frame": hexs(want), "csum": ct, "path": e.path})
	}
	var y metadata.MetaData
	if r.Intn(2) == 0 {
		o := append([]byte{}, want...)
		y.Decode(o)
		y.Session++
		y.Checksum = []byte("0123456789012345")
	}
	frame := append([]byte{}, want...)
	if err := y.Decode(frame); err != nil {
		c.Fail("decode", "valid metadata %s refused: %v", hexs(want), err)
		return
	}
	for i := range frame {
		frame[i] ^= 0x55
	}
	disturb(c)
	addr := &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(255))), Port: r.Intn(65536)}
	v := y.Val(addr)
	for _, z := range []*metadata.MetaData{&y, &v.Info} {
		if z.Header != h || z.Session != s || !bytes.Equal(z.Checksum, sum) {
			c.Fail("decode", "metadata %s decodes to header %08x session %d checksum %x", hexs(want), z.Header, z.Session, z.Checksum)
			return
		}
		if x := e.eq(&z.Dir); x != "" {
			c.Fail("decode", "metadata %s decodes to %s", hexs(want), x)
			return
		}
	}
	if v.Addr.String() != addr.String() {
		c.Fail("val", "address %v want %v", v.Addr, addr)
	}
	if r.Intn(20) == 0 {
		c.Obs("send")
		w, err := getLoop().sent(y.Send)
		if err != nil || !bytes.Equal(w, want) {
			c.Fail("send", "sent %s, %v want %s", hexs(w), err, hexs(want))
		}
	}
	if p := y.Print() + y.ShortPrint(); !strings.Contains(p, fmt.Sprintf("session:%d", s)) || !strings.Contains(p, "Path:"+e.path) ||
		len(sum) > 0 && !strings.Contains(p, fmt.Sprintf("%x", sum)) {
		c.Fail("print", "print of session %d %q checksum %x:\n%s", s, e.path, sum, p)
	}
	for i := range sum { // The next frame
		want[8+i] ^= 0x55
	}
	if err := y.Decode(want); err == nil && len(sum) > 0 {
		c.Obs("next")
		if !bytes.Equal(v.Info.Checksum, sum) {
			c.Fail("val", "the checksum of the packet handed on changes with the next frame: %x, want %x", v.Info.Checksum, sum)
		}
		if x := e.eq(&v.Info.Dir); x != "" {
			c.Fail("val", "the directory entry of the packet handed on changes with the next frame: %s", x)
		}
	}
}

// ---- C06

func refBeacon(h uint32, free uint64, eid string) []byte {
	b := binary.BigEndian.AppendUint32(nil, h)
	if refStr(h, "freespace") == "yes" {
		b = putD(b, refStr(h, "freespaced"), free)
	}
	return append(b, eid...)
}

func randEid(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return ""
	case 1:
		if r.Intn(50) == 0 {
			return string(randBytes(r, 250+r.Intn(9000)))
		}
		return string(randBytes(r, r.Intn(40)))
	}
	return fmt.Sprintf("10.%d.%d.%d:7542-%d", r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(99999))
}

func fsDesc(free uint64) string {
	switch {
	case free < 1<<16-1:
		return "d16"
	case free < 1<<32-1:
		return "d32"
	}
	return "d64"
}

// freeKB: the free space here, for those without privileges
func freeKB() uint64 {
	var fs syscall.Statfs_t
	must(syscall.Statfs(".", &fs))
	return uint64(fs.Bsize) * fs.Bavail / 1024
}

// nearKB: within what others may take or free in the meantime
func nearKB(v uint64, at ...uint64) bool {
	const slack = 1 << 19
	for _, a := range at {
		if v+slack >= a && a+slack >= v {
			return true
		}
	}
	return false
}

func runC06(c *Case) {
	r := c.R
	if r.Intn(20) == 0 {
		var x beacon.Beacon
		unknown(c, "beacon", []string{"descriptor", "stream", "txwilling", "rxwilling", "udplite"}, "", func(fs string) error {
			return x.New(fs, &beacon.Binfo{Eid: "me"})
		})
		return
	}
	base := refSet(refSet(0, "version", "v1"), "frametype", "beacon")
	names := []string{"descriptor", "stream", "txwilling", "rxwilling", "udplite"}
	eid := randEid(r)
	free := valFor(r, pick(r, "d16", "d32", "d64"))
	if free == 1<<64-1 {
		free--
	}
	statfs := r.Intn(30) == 0
	var before uint64
	if statfs { // 0 asks for the real free space
		free = 0
		before = freeKB()
	} else if free == 0 {
		free = 1
	}
	withfs := r.Intn(2) == 0
	var b beacon.Beacon
	var h uint32
	// ok: the frame carries what it was made from, in the smallest descriptor that the format uses for it
	ok := func(how string, h uint32) bool {
		if withfs {
			c.Obs("freespace")
			if statfs {
				c.Obs("statfs")
				if f := freeKB(); !nearKB(b.Freespace, before, f) {
					c.Fail(how, "the free space was asked for and %d kB given, there are %d", b.Freespace, f)
					return false
				}
				free = b.Freespace
			}
			h = refSet(h, "freespaced", refStr(b.Header, "freespaced"))
			if _, m := dsize(refStr(b.Header, "freespaced")); free > m {
				c.Fail(how, "free space %d with descriptor %s", free, refStr(b.Header, "freespaced"))
				return false
			}
		} else {
			c.Obs("nofreespace")
			free = 0
		}
		if b.Header != h || b.Eid != eid || b.Freespace != free {
			c.Fail(how, "%s: header %08x eid %q free %d want %08x %q %d", how, b.Header, b.Eid, b.Freespace, h, eid, free)
			return false
		}
		return true
	}
	switch r.Intn(3) {
	case 0:
		c.Obs("new")
		fixed := map[string]string{"descriptor": pick(r, "d16", "d32", "d64", "d128")}
		fs, hh := randFlags(r, names, fixed, base)
		if withfs {
			if r.Intn(2) == 0 {
				fs += ",freespace=yes"
			} else {
				fs += ",freespaced=" + pick(r, "d16", "d32", "d64")
			}
			hh = refSet(hh, "freespace", "yes")
		} else if r.Intn(2) == 0 {
			fs += ",freespace=no"
		}
		if err := b.New(fs, &beacon.Binfo{Freespace: free, Eid: eid}); err != nil {
			c.Fail("new", "New(%q) refused: %v", fs, err)
			return
		}
		if !ok("New "+fs, hh) {
			return
		}
		h = b.Header
	case 1:
		c.Obs("make")
		_, hh := randFlags(r, names, nil, 0)
		if withfs {
			hh = refSet(hh, "freespace", "yes")
		}
		if err := b.Make(hh, &beacon.Binfo{Freespace: free, Eid: eid}); err != nil {
			c.Fail("make", "Make(%08x) refused: %v", hh, err)
			return
		}
		if !ok("Make", hh|base) {
			return
		}
		h = b.Header
	case 2:
		_, h = randFlags(r, names, nil, base)
		if withfs {
			c.Obs("freespace")
			h = refSet(refSet(h, "freespace", "yes"), "freespaced", pick(r, fsDesc(free), "d64"))
		} else {
			c.Obs("nofreespace")
			free = 0
		}
		b = beacon.Beacon{Header: h, Freespace: free, Eid: eid}
	}
	want := refBeacon(h, free, eid)
	got, err := b.Encode()
	disturb(c)
	if err != nil || !bytes.Equal(got, want) {
		c.Fail("encode", "beacon encodes to %s, %v want %s", hexs(got), err, hexs(want))
		return
	}
	c.Sig("%x", want)
	if c.Wants() {
		c.Sample(map[string]interface{}{"frame": hexs(want), "eid": eid, "free": free})
	}
	var y beacon.Beacon
	if r.Intn(2) == 0 {
		y = beacon.Beacon{Header: 0xffffffff, Freespace: 12345, Eid: "old"}
	}
	frame := append([]byte{}, want...)
	c.Obs("decode")
	if err := y.Decode(frame); err != nil {
		c.Fail("decode", "valid beacon %s refused: %v", hexs(want), err)
		return
	}
	for i := range frame {
		frame[i] ^= 0x55
	}
	disturb(c)
	addr := &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(255))), Port: r.Intn(65536)}
	v := y.Val(addr)
	for _, z := range []beacon.Beacon{y, v.Info} {
		if z.Header != h || z.Freespace != free || z.Eid != eid {
			c.Fail("decode", "beacon %s decodes to header %08x free %d eid %q", hexs(want), z.Header, z.Freespace, z.Eid)
			return
		}
	}
	if v.Addr.String() != addr.String() {
		c.Fail("val", "address %v want %v", v.Addr, addr)
	}
	if r.Intn(20) == 0 {
		c.Obs("send")
		w, err := getLoop().sent(func(conn *net.UDPConn, to *net.UDPAddr) error {
			cc, err := net.DialUDP("udp4", nil, to)
			if err != nil {
				return err
			}
			defer cc.Close()
			return y.Send(cc)
		})
		if err != nil || !bytes.Equal(w, want) {
			c.Fail("send", "sent %s, %v want %s", hexs(w), err, hexs(want))
		}
	}
	if p := y.Print() + y.ShortPrint(); !strings.Contains(p, "EID:"+eid) || withfs && !strings.Contains(p, fmt.Sprintf("free:%dkB", free)) {
		c.Fail("print", "print of eid %q free %d:\n%s", eid, free, p)
	}
}

// ---- C07

func runC07(c *Case) {
	r := c.R
	tt := tsTypes[r.Intn(len(tsTypes))]
	var ts timestamp.Timestamp
	if r.Intn(3) == 0 { // A timestamp that was used before
		ts.New(tsTypes[r.Intn(len(tsTypes))], time.Unix(1234567890, 987654321))
	}
	if r.Intn(12) == 0 {
		c.Obs("now")
		lo := time.Now()
		if err := ts.Now(tt); err != nil {
			c.Fail("now", "Now(%s): %v", tt, err)
			return
		}
		checkNow(c, &ts, tt, lo)
		return
	}
	t := randTime(r, tt)
	if r.Intn(5) == 0 { // A time of another type, which may not fit
		t = randTime(r, tsTypes[r.Intn(len(tsTypes))])
	}
	if t.Unix() < 0 {
		c.Obs("pre1970")
	}
	if t.Unix() > 1<<33 {
		c.Obs("far")
	}
	if r.Intn(2) == 0 {
		t = t.In(time.FixedZone("x", r.Intn(86400)-43200))
	}
	want, fits := refTS(tt, t)
	err := ts.New(tt, t)
	c.Sig("%s%x%d", tt, want, t.UnixNano())
	if !fits {
		c.Obs("refused")
		if err == nil {
			c.Fail("range", "%s of %v accepted as %x although it does not fit", tt, t, ts.Put())
		}
		return
	}
	c.Obs("fits")
	if err != nil {
		c.Fail("range", "%s of %v refused: %v", tt, t, err)
		return
	}
	got := ts.Put()
	disturb(c)
	if !bytes.Equal(got, want) {
		c.Fail("put", "%s of %v is %x want %x", tt, t, got, want)
		return
	}
	if c.Wants() {
		c.Sample(map[string]interface{}{"type": tt, "time": t.UTC().String(), "bytes": hexs(want)})
	}
	var y timestamp.Timestamp
	if r.Intn(2) == 0 {
		y.New("posix64_32", time.Unix(1234567890, 987654321))
	}
	if err := y.Get(append([]byte{}, want...)); err != nil {
		c.Fail("get", "%s %x refused: %v", tt, want, err)
		return
	}
	disturb(c)
	if !bytes.Equal(y.Put(), want) {
		c.Fail("get", "%s %x decodes and encodes to %x", tt, want, y.Put())
	}
	if w := refTSPrint(tt, t); y.Print() != w || ts.Print() != w {
		c.Fail("print", "%s of %v prints %q, decoded %q want %q", tt, t, ts.Print(), y.Print(), w)
	}
	if tt != "localinterp" {
		ws := uint64(t.Unix())
		if tt == "epoch2000_32" {
			ws = uint64(t.Unix() - y2k.Unix())
		}
		if ts.Secs() != ws || y.Secs() != ws {
			c.Fail("secs", "%s of %v holds %d seconds, decoded %d want %d", tt, t, ts.Secs(), y.Secs(), ws)
		}
	}
	if bad := pick(r, "", "nosuch", "posix16"); sarflags.GoodT(bad) == false {
		if err := ts.New(bad, t); err == nil {
			c.Fail("type", "timestamp type %q accepted", bad)
		}
	}
}
