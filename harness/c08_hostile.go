package main

// C08 hostile bytes, C09 values that do not fit, C10 holes

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"net"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/timestamp"
)

func init() {
	register(&Prop{ID: "C08", Quick: 1000000, Thorough: 25000000, Hang: true, HangS: 60, Init: initConf, Run: runC08,
		Rule: "byte strings (random, valid frames of each kind, valid frames truncated at every length, extended, or with flipped bits, swapped frame kinds, extreme length fields) are handed to every decoder in a fresh struct with nothing behind the last byte and in a used struct in front of other bytes of a larger buffer, and what is accepted is printed, copied and encoded again. The worker dying is the observation of a panic or exit; fresh and used struct must agree; a frame shorter than what its own header calls for must be refused. Distinct by (decoder, bytes).",
		Need: map[string]int{"accepted": 10000, "refused": 10000, "tooshort": 5000, "beacon": 1000, "data": 1000, "status": 1000, "request": 1000, "metadata": 1000, "dirent": 1000, "timestamp": 1000}})
	register(&Prop{ID: "C09", Quick: 3200000, Thorough: 20000000, Hang: true, Init: initConf, Run: runC09,
		Rule: "frames whose offset, progress, in-response-to, hole, free space or file size is at, below and beyond the largest value of their descriptor (and 128 bit descriptors): encoding must fail exactly when the value does not fit; when it succeeds the decoded value must be the value that went in. Distinct by (frame kind, descriptor, values).",
		Need: map[string]int{"fits": 1000, "toobig": 1000, "data": 500, "status": 500, "hole": 500, "beacon": 500, "dirent": 500, "metadata": 500, "d128": 100}})
	register(&Prop{ID: "C10", Quick: 200000, Thorough: 5000000, Hang: true, Run: runC10,
		Rule: "random sequences of received ranges (disjoint, adjacent, nested, overlapping, repeated, empty and reversed, few or many (up to 6000), single bytes next to each other up to 2^63, any order) against a bitmap of received bytes: after every step the ranges kept are the maximal runs of received bytes in order, and the holes are the maximal runs of missing bytes below the highest received one. Distinct by the ranges kept.",
		Need: map[string]int{"add": 50000, "merge": 5000, "empty-range": 500, "complete": 100, "many": 100, "far": 10000, "huge": 20}})
}

// fp is a fingerprint of everything observable in a decoded frame
func fpTS(t *timestamp.Timestamp) string { return fmt.Sprintf("%x", t.Put()) }

type decoder struct {
	name  string
	fresh func() interface{}
	used  func() interface{}
	dec   func(x interface{}, b []byte) error
	// use: everything a node does with an accepted frame; returns what it saw
	use func(x interface{}) string
}

var hostAddr = &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 7542}

var decoders = []decoder{
	{"beacon", func() interface{} { return new(beacon.Beacon) },
		func() interface{} { return &beacon.Beacon{Header: 0xffffffff, Freespace: 123, Eid: "old"} },
		func(x interface{}, b []byte) error { return x.(*beacon.Beacon).Decode(b) },
		func(x interface{}) string {
			y := x.(*beacon.Beacon)
			e, err := y.Encode()
			v := y.Val(hostAddr)
			return fmt.Sprintf("%08x %d %q %x %v %s %s %v", y.Header, y.Freespace, y.Eid, e, err, y.Print(), y.ShortPrint(), v)
		}},
	{"data", func() interface{} { return new(data.Data) },
		func() interface{} {
			return &data.Data{Header: 0xffffffff, Session: 5, Offset: 9, Payload: []byte("old")}
		},
		func(x interface{}, b []byte) error { return x.(*data.Data).Decode(b) },
		func(x interface{}) string {
			y := x.(*data.Data)
			e, err := y.Encode()
			v := y.Val(hostAddr)
			return fmt.Sprintf("%08x %d %d %x %x %v %s %s %d", y.Header, y.Session, y.Offset, y.Payload, e, err, y.Print(), y.ShortPrint(), len(v.Info.Payload))
		}},
	{"status", func() interface{} { return new(status.Status) },
		func() interface{} {
			return &status.Status{Header: 0xffffffff, Session: 5, Progress: 9, Holes: holes.Holes{{Start: 1, End: 2}}}
		},
		func(x interface{}, b []byte) error { return x.(*status.Status).Decode(b) },
		func(x interface{}) string {
			y := x.(*status.Status)
			e, err := y.Encode()
			v := y.Val(hostAddr)
			return fmt.Sprintf("%08x %d %d %d %v %x %v %s %s %d", y.Header, y.Session, y.Progress, y.Inrespto, y.Holes, e, err, y.Print(), y.ShortPrint(), len(v.Info.Holes))
		}},
	{"request", func() interface{} { return new(request.Request) },
		func() interface{} {
			return &request.Request{Header: 0xffffffff, Session: 5, Fname: "old", Auth: []byte("old")}
		},
		func(x interface{}, b []byte) error { return x.(*request.Request).Decode(b) },
		func(x interface{}) string {
			y := x.(*request.Request)
			e, err := y.Encode()
			v := y.Val(hostAddr)
			return fmt.Sprintf("%08x %d %q %x %x %v %s %s %v", y.Header, y.Session, y.Fname, y.Auth, e, err, y.Print(), y.ShortPrint(), v.Info.Fname)
		}},
	{"metadata", func() interface{} { return new(metadata.MetaData) },
		func() interface{} {
			y := &metadata.MetaData{Header: 0xffffffff, Session: 5, Checksum: []byte("old!")}
			y.Dir = dirent.DirEnt{Header: 0xffff, Size: 9, Path: "old"}
			return y
		},
		func(x interface{}, b []byte) error { return x.(*metadata.MetaData).Decode(b) },
		func(x interface{}) string {
			y := x.(*metadata.MetaData)
			e, err := y.Encode()
			v := y.Val(hostAddr)
			_ = y.Print() // Its lines come in no fixed order
			return fmt.Sprintf("%08x %d %x %x %v %s %v", y.Header, y.Session, y.Checksum, e, err, y.ShortPrint(), v.Info.Dir.Path)
		}},
	{"dirent", func() interface{} { return new(dirent.DirEnt) },
		func() interface{} { return &dirent.DirEnt{Header: 0xffff, Size: 9, Path: "old"} },
		func(x interface{}, b []byte) error { return x.(*dirent.DirEnt).Decode(b) },
		func(x interface{}) string {
			y := x.(*dirent.DirEnt)
			e, err := y.Encode()
			_ = y.Print()
			return fmt.Sprintf("%04x %d %q %x %v %s", y.Header, y.Size, y.Path, e, err, y.ShortPrint())
		}},
	{"timestamp", func() interface{} { return new(timestamp.Timestamp) },
		func() interface{} {
			y := new(timestamp.Timestamp)
			y.New("posix64_32", time.Unix(77, 88))
			return y
		},
		func(x interface{}, b []byte) error { return x.(*timestamp.Timestamp).Get(b) },
		func(x interface{}) string {
			y := x.(*timestamp.Timestamp)
			return fmt.Sprintf("%x %d %s", y.Put(), y.Secs(), y.Print())
		}},
}

// minLen: how long a frame must be by its own header; -1 when another rule refuses it
func minLen(kind string, b []byte) int {
	var h uint32
	if len(b) >= 4 {
		h = binary.BigEndian.Uint32(b)
	}
	switch kind {
	case "beacon":
		if len(b) < 4 {
			return 4
		}
		if refStr(h, "freespace") == "yes" {
			n, _ := dsize(refStr(h, "freespaced"))
			return 4 + n
		}
		return 4
	case "data", "status":
		if len(b) < 8 {
			return 8
		}
		n, _ := dsize(refStr(h, "descriptor"))
		if kind == "status" {
			n *= 2
		}
		if refStr(h, "reqtstamp") == "yes" {
			n += 16
		}
		return 8 + n
	case "request":
		if len(b) < 9 || bytes.IndexByte(b[8:], 0) < 0 {
			return len(b) + 1
		}
	case "metadata":
		if len(b) < 8 {
			return 8
		}
		cs := int(refGet(h, "csumlen")) * 4
		if len(b) < 8+cs {
			return 8 + cs
		}
		return 8 + cs + minLen("dirent", b[8+cs:])
	case "dirent":
		if len(b) < 2 {
			return 2
		}
		d, _ := refDirent["descriptor"].name(refDirent["descriptor"].get(16, uint32(binary.BigEndian.Uint16(b))))
		n, _ := dsize(d)
		return 2 + n + 8
	case "timestamp":
		if len(b) < 1 {
			return 1
		}
		return map[byte]int{1: 5, 2: 9, 3: 9, 4: 13, 5: 5}[b[0]]
	}
	return 0
}

func randFrame(r *rand.Rand, kind string) []byte {
	switch kind {
	case "beacon":
		h := r.Uint32()&0x00ffffff | 0x20000000
		return refBeacon(h, r.Uint64(), randEid(r))
	case "data", "status":
		h := refSet(refSet(r.Uint32(), "version", "v1"), "frametype", kind)
		h = refSet(h, "descriptor", pick(r, "d16", "d32", "d64"))
		var ts []byte
		if refStr(h, "reqtstamp") == "yes" {
			tt := tsTypes[r.Intn(len(tsTypes))]
			ts, _ = refTS(tt, randTime(r, tt))
		}
		if kind == "data" {
			return refData(h, r.Uint32(), ts, r.Uint64(), randBytes(r, r.Intn(80)))
		}
		return refStatus(h, r.Uint32(), ts, r.Uint64(), r.Uint64(), randHoles(r, "d64", r.Intn(6)))
	case "request":
		h := refSet(refSet(r.Uint32(), "version", "v1"), "frametype", kind)
		return refRequest(h, r.Uint32(), randName(r), randBytes(r, r.Intn(20)))
	case "metadata":
		h := refSet(refSet(r.Uint32(), "version", "v1"), "frametype", kind)
		b := binary.BigEndian.AppendUint32(nil, h)
		b = binary.BigEndian.AppendUint32(b, r.Uint32())
		b = append(b, randBytes(r, int(refGet(h, "csumlen"))*4)...)
		return append(b, randDE(r).wire()...)
	case "dirent":
		return randDE(r).wire()
	}
	tt := tsTypes[r.Intn(len(tsTypes))]
	ts, _ := refTS(tt, randTime(r, tt))
	return ts
}

func hostile(r *rand.Rand, kind string) []byte {
	other := decoders[r.Intn(len(decoders))].name
	switch r.Intn(10) {
	case 0:
		return randBytes(r, r.Intn(40))
	case 1:
		return randBytes(r, r.Intn(600))
	case 2: // Another kind of frame
		return randFrame(r, other)
	case 3: // A flood of one byte
		return bytes.Repeat([]byte{byte(r.Intn(256))}, r.Intn(100))
	case 4, 5, 6: // Truncated
		b := randFrame(r, kind)
		return b[:r.Intn(len(b)+1)]
	case 7: // Flipped bits
		b := randFrame(r, kind)
		for k := 1 + r.Intn(6); k > 0 && len(b) > 0; k-- {
			i := r.Intn(len(b))
			if r.Intn(2) == 0 {
				i = r.Intn(min(len(b), 12))
			}
			b[i] ^= 1 << uint(r.Intn(8))
		}
		return b
	case 8: // Extended
		return append(randFrame(r, kind), randBytes(r, r.Intn(30))...)
	}
	return randFrame(r, kind)
}

// exact: a copy of b with nothing behind its last byte
func exact(b []byte) []byte {
	x := make([]byte, len(b))
	copy(x, b)
	return x
}

func runC08(c *Case) {
	r := c.R
	d := decoders[c.I%len(decoders)]
	b := hostile(r, d.name)
	c.Obs(d.name)
	c.Sig("%s%x", d.name, b)
	x := d.fresh()
	err := d.dec(x, exact(b)) // As the listener hands it over: nothing behind the last byte
	if c.Wants() {
		c.Sample(map[string]interface{}{"decoder": d.name, "bytes": hexs(b), "accepted": err == nil})
	}
	if n := minLen(d.name, b); len(b) < n {
		c.Obs("tooshort")
		if err == nil {
			c.Fail("short "+d.name, "%s decoder accepts %d bytes %s although its header calls for %d", d.name, len(b), hexs(b), n)
		}
	}
	y := d.used()
	// The same bytes at the front of a large receive buffer full of something else
	buf := append(exact(b), randBytes(r, 64)...)
	err2 := d.dec(y, buf[:len(b)])
	if (err == nil) != (err2 == nil) {
		c.Fail("reuse "+d.name, "%s decoder on %s: %v in a fresh struct, %v in a used one", d.name, hexs(b), err, err2)
		return
	}
	if err != nil {
		c.Obs("refused")
		return
	}
	c.Obs("accepted")
	sx, sy := d.use(x), d.use(y)
	if sx != sy {
		c.Fail("reuse "+d.name, "%s decoder on %s in a used struct leaves traces of the frame before:\n%s\n%s", d.name, hexs(b), sx, sy)
	}
}

// ---- C09

// around: values around the limit of d
func around(r *rand.Rand, d string) uint64 {
	_, m := dsize(d)
	switch r.Intn(6) {
	case 0:
		return m
	case 1:
		return m + 1 // 0 for d64
	case 2:
		return m + uint64(r.Intn(5))
	case 3:
		return r.Uint64() >> uint(r.Intn(64))
	case 4:
		return (m + 1) * uint64(1+r.Intn(9))
	}
	return r.Uint64() & m
}

func runC09(c *Case) {
	r := c.R
	d := pick(r, "d16", "d32", "d64")
	if r.Intn(12) == 0 {
		d = "d128"
	}
	_, m := dsize(d)
	verdict := func(kind string, fit bool, err error, what string) bool {
		c.Obs(kind)
		c.Sig("%s %s %s", kind, d, what)
		if c.Wants() {
			c.Sample(map[string]string{"frame": kind, "descriptor": d, "values": what})
		}
		if d == "d128" {
			c.Obs("d128")
			if err == nil {
				c.Fail(kind, "%s encoded with a 128 bit descriptor, which is not supported", kind)
			}
			return false
		}
		if fit {
			c.Obs("fits")
			if err != nil {
				c.Fail(kind, "%s %s with descriptor %s refused: %v", kind, what, d, err)
			}
			return err == nil
		}
		c.Obs("toobig")
		if err == nil {
			c.Fail(kind, "%s %s encoded with descriptor %s, which holds at most %d", kind, what, d, m)
		}
		return false
	}
	switch r.Intn(5) {
	case 0:
		h := refSet(refSet(refSet(0, "version", "v1"), "frametype", "data"), "descriptor", d)
		v := around(r, d)
		x := data.Data{Header: h, Session: 1, Offset: v, Payload: []byte("x")}
		b, err := x.Encode()
		var y data.Data
		if verdict("data", v <= m, err, fmt.Sprintf("offset %d", v)) && (y.Decode(b) != nil || y.Offset != v) {
			c.Fail("data", "offset %d decoded as %d", v, y.Offset)
		}
	case 1, 2:
		h := refSet(refSet(refSet(0, "version", "v1"), "frametype", "status"), "descriptor", d)
		x := status.Status{Header: h, Session: 1}
		fit := true
		kind := "status"
		if r.Intn(2) == 0 {
			x.Progress, x.Inrespto = around(r, d), r.Uint64()&m
			if r.Intn(2) == 0 {
				x.Progress, x.Inrespto = x.Inrespto, x.Progress
			}
			fit = x.Progress <= m && x.Inrespto <= m
		} else {
			kind = "hole"
			x.Holes = randHoles(r, d, 1+r.Intn(8))
			v := int(around(r, d) & (1<<63 - 1))
			if d == "d128" {
				v = 5
			}
			k := r.Intn(len(x.Holes))
			if r.Intn(2) == 0 {
				x.Holes[k].End = v
			} else {
				x.Holes[k].Start = v
			}
			fit = uint64(v) <= m
		}
		b, err := x.Encode()
		var y status.Status
		if verdict(kind, fit, err, fmt.Sprintf("progress %d in response to %d holes %v", x.Progress, x.Inrespto, x.Holes)) {
			if e := y.Decode(b); e != nil {
				c.Fail(kind, "not decoded: %v", e)
			} else if s := eqStatus(&y, h, 1, nil, x.Progress, x.Inrespto, x.Holes); s != "" {
				c.Fail(kind, "decoded with %s", s)
			}
		}
	case 3:
		h := refSet(refSet(refSet(0, "version", "v1"), "frametype", "beacon"), "freespace", "yes")
		h = refSet(h, "freespaced", d)
		v := around(r, d)
		x := beacon.Beacon{Header: h, Freespace: v, Eid: "e"}
		b, err := x.Encode()
		var y beacon.Beacon
		if verdict("beacon", v <= m, err, fmt.Sprintf("free space %d", v)) && (y.Decode(b) != nil || y.Freespace != v) {
			c.Fail("beacon", "free space %d decoded as %d", v, y.Freespace)
		}
	case 4:
		e := randDE(r)
		e.h = uint16(refDirent["descriptor"].put(16, uint32(e.h), refFields["descriptor"].Opts[d]))
		e.size = around(r, d)
		what := fmt.Sprintf("size %d", e.size)
		if r.Intn(2) == 0 {
			var x dirent.DirEnt
			e.fill(c, &x)
			b, err := x.Encode()
			var y dirent.DirEnt
			if verdict("dirent", e.size <= m, err, what) && (y.Decode(b) != nil || y.Size != e.size) {
				c.Fail("dirent", "size %d decoded as %d", e.size, y.Size)
			}
			return
		}
		x := metadata.MetaData{Header: refSet(refSet(0, "version", "v1"), "frametype", "metadata"), Session: 1}
		e.fill(c, &x.Dir)
		b, err := x.Encode()
		var y metadata.MetaData
		if verdict("metadata", e.size <= m, err, what) && (y.Decode(b) != nil || y.Dir.Size != e.size) {
			c.Fail("metadata", "size %d decoded as %d", e.size, y.Dir.Size)
		}
	}
}

// ---- C10

// runs: the maximal runs of v in bits
func runs(bits []bool, v bool, upto int) (out []holes.Hole) {
	for i := 0; i < upto; {
		if bits[i] != v {
			i++
			continue
		}
		j := i
		for j < upto && bits[j] == v {
			j++
		}
		out = append(out, holes.Hole{Start: i, End: j})
		i = j
	}
	return
}

func runC10(c *Case) {
	r := c.R
	span := []int{8, 30, 200, 2000}[r.Intn(4)]
	steps := 1 + r.Intn(25)
	if r.Intn(20) == 0 {
		steps = 200
		span = 2000
		c.Obs("many")
	}
	huge := r.Intn(3000) == 0 // Thousands of ranges
	if huge {
		steps = 2000 + r.Intn(4000)
		span = 10000 + r.Intn(10000)
		c.Obs("huge")
	}
	maxlen := 1 + r.Intn(span)
	if huge || r.Intn(2) == 0 {
		maxlen = 1 + r.Intn(6)
	}
	bits := make([]bool, span*2+10)
	scale := position{scale: []int{1, 1, 7, 1 << 20, 1 << 33}[r.Intn(5)]} // Positions beyond 32 bits too
	if r.Intn(3) == 0 {                                                   // Single bytes far out: 0 stays, the others move there
		scale = position{1, []int{1<<16 - 50, 1<<31 - 50, 1<<32 - 50, 1 << 40, 1<<53 - 50, 1 << 62, math.MaxInt64 - len(bits)}[r.Intn(7)]}
		c.Obs("far")
	}
	var f holes.Holes
	var hist []holes.Hole
	block := r.Intn(3) == 0 // Aligned blocks, as data frames are
	for k := 0; k < steps; k++ {
		a := r.Intn(span)
		l := 1 + r.Intn(maxlen)
		if block {
			l = 4
			a = a / 4 * 4
		}
		switch r.Intn(15) {
		case 0:
			l = 0
		case 1:
			l = -r.Intn(5)
		case 2:
			if len(hist) > 0 { // Again
				h := hist[r.Intn(len(hist))]
				a, l = h.Start, h.End-h.Start
			}
		case 3:
			a = 0
		}
		b := min(a+l, len(bits))
		hist = append(hist, holes.Hole{Start: a, End: b})
		before := len(f)
		f = f.Add(scale.at(a), scale.at(b))
		c.Obs("add")
		if b <= a {
			c.Obs("empty-range")
		}
		for i := a; i < b; i++ {
			bits[i] = true
		}
		if huge && k%100 != 0 && k < steps-1 {
			continue
		}
		hi := 0
		for i := len(bits) - 1; i >= 0; i-- {
			if bits[i] {
				hi = i + 1
				break
			}
		}
		if len(f) <= before && b > a {
			c.Obs("merge")
		}
		want := runs(bits, true, len(bits))
		if !eqHoles(f, want, scale) {
			c.Fail("fills", "after receiving %v (at %+v) the ranges kept are %v want %v", hist, scale, f, want)
			return
		}
		wh := runs(bits, false, hi)
		if g := f.Getholes(); !eqHoles(g, wh, scale) {
			c.Fail("holes", "after receiving %v (at %+v) the holes are %v want %v", hist, scale, g, wh)
			return
		}
		if f.Lenholes() != len(wh) {
			c.Fail("holes", "after receiving %v Lenholes = %d want %d", hist, f.Lenholes(), len(wh))
			return
		}
		for i, g := 0, f.Getholes(); i < len(g); i++ {
			g[i] = holes.Hole{Start: -7, End: -7} // The caller's own
		}
		if !eqHoles(f, want, scale) {
			c.Fail("holes", "asking for the holes changed the ranges kept to %v", f)
			return
		}
	}
	c.Sig("%v%v", f, scale)
	if c.Wants() {
		c.Sample(map[string]interface{}{"received": fmt.Sprint(hist), "kept": fmt.Sprint(f)})
	}
	// Everything that is missing arrives, in any order: one range without holes
	gh := append(holes.Holes{}, f.Getholes()...)
	r.Shuffle(len(gh), func(i, j int) { gh[i], gh[j] = gh[j], gh[i] })
	had := len(f) > 0
	for _, h := range gh {
		f = f.Add(h.Start, h.End)
	}
	if had {
		c.Obs("complete")
		if len(f) != 1 || f[0].Start != 0 || f.Lenholes() != 0 {
			c.Fail("complete", "after %v and then all its holes the ranges kept are %v", hist, f)
		}
	}
}

// position: where a small model position is in the file
type position struct{ scale, base int }

func (p position) at(x int) int {
	if x <= 0 {
		return x * p.scale
	}
	return p.base + x*p.scale
}

func eqHoles(a holes.Holes, b []holes.Hole, scale position) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Start != scale.at(b[i].Start) || a[i].End != scale.at(b[i].End) {
			return false
		}
	}
	return true
}
