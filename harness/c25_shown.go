//go:build ui

package main

// C25: what is shown of a frame is what it carries, and output reaches its window whole

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/jroimartin/gocui"
)

func init() {
	register(&Prop{ID: "C25", Quick: 30000, Thorough: 600000, Hang: true, Race: true, Nobody: true, Init: initUI, Run: runC25,
		Rule: "frames of every kind with random flags, numbers, names, checksums, times and holes arrive as bytes, are decoded and printed, long and short. The monitor reads the text: every flag of the frame kind with its value in the long form, and in both forms header, session, offsets, sizes, names, checksum, times and holes exactly as on the wire, and none that the frame does not have. One case in ten prints numbered messages to all windows from 1-8 goroutines at once in every way and colour, and clears windows: each message reaches exactly its window, once, whole, in its colour, and a cleared window is empty while the others keep their text. Race detector on. Distinct by the text.",
		Need: map[string]int{"beacon": 3000, "data": 3000, "status": 3000, "request": 3000, "metadata": 3000, "flag": 50000, "time": 2000, "hole": 5000, "manyholes": 50, "message": 20000, "cleared": 1000, "concurrent": 1000, "colour": 5000, "long": 100, "odd": 100, "busy": 20}})
}

var fieldRe = map[string]*regexp.Regexp{}

func fieldsIn(p, re string) (v []string) {
	if fieldRe[re] == nil {
		fieldRe[re] = regexp.MustCompile(re)
	}
	for _, m := range fieldRe[re].FindAllStringSubmatch(p, -1) {
		v = append(v, strings.Join(m[1:], " "))
	}
	return
}

func runC25(c *Case) {
	if c.I%10 == 3 {
		windows25(c)
		return
	}
	r := c.R
	kind := pick(r, "beacon", "data", "status", "request", "metadata")
	h := randHeader(r, kind, "descriptor", pick(r, "d16", "d32", "d64"))
	sess := r.Uint32() >> uint(r.Intn(32))
	d := refStr(h, "descriptor")
	var long, short, what string
	// In each text exactly these, in this order
	want := map[string][]string{}
	both := func(re string, v ...interface{}) {
		w := []string{}
		for _, x := range v {
			w = append(w, fmt.Sprint(x))
		}
		want[re] = w
	}
	longOnly, shortOnly := map[string][]string{}, map[string][]string{}
	tt := pick(r, "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32")
	t := time.Unix(946684800+r.Int63n(2000000000), int64(r.Intn(1000))*1000000).UTC()
	ts, _ := refTS(tt, t)
	has := ts
	if (kind == "data" || kind == "status") && refStr(h, "reqtstamp") != "yes" {
		has = nil
	}
	word := func() string { return "w" + pick(r, "", "/", ".", "-", "é") + fmt.Sprint(r.Intn(1e9)) }
	switch kind {
	case "beacon":
		h = refSet(h, "freespaced", pick(r, "d16", "d32", "d64"))
		free, eid := valFor(r, refStr(h, "freespaced")), word()
		b := refBeacon(h, free, eid)
		var x beacon.Beacon
		must2(c, kind, x.Decode(b))
		long, short = x.Print(), x.ShortPrint()
		both(`EID:(.*)`, eid)
		if refStr(h, "freespace") == "yes" {
			both(`free:(\d+)kB`, free)
		} else {
			both(`(free:)`)
		}
	case "data":
		off, pay := valFor(r, d), randBytes(r, 1+r.Intn(2000))
		var x data.Data
		must2(c, kind, x.Decode(refData(h, sess, has, off, pay)))
		long, short = x.Print(), x.ShortPrint()
		both(`session:(\d+)`, sess)
		both(`offset:(\d+)`, off)
		both(`paylen ?: ?(\d+)`, len(pay))
		if has != nil {
			both(`tstamp:(.*)`, refTSPrint(tt, t))
			longOnly[`tstamp:(.*)`] = []string{"yes", refTSPrint(tt, t)}
			c.Obs("time")
		} else {
			both(`[^q](tstamp:)`)
		}
	case "status":
		prog, in := valFor(r, d), valFor(r, d)
		n := r.Intn(6) * r.Intn(6)
		if r.Intn(50) == 0 {
			n = r.Intn(3000)
			c.Obs("manyholes")
		}
		hs := randHoles(r, d, n)
		var x status.Status
		must2(c, kind, x.Decode(refStatus(h, sess, has, prog, in, hs)))
		long, short = x.Print(), x.ShortPrint()
		both(`session:(\d+)`, sess)
		both(`progress:(\d+)`, prog)
		both(`inresp(?:onse)?to:(\d+)`, in)
		shortOnly[`errcode:(.*)`] = []string{refStr(h, "errcode")}
		shortOnly[`holes:(\d+)`] = []string{fmt.Sprint(len(hs))}
		l := []string{}
		for i, o := range hs {
			l = append(l, fmt.Sprintf("%d %d %d", i, o.Start, o.End))
			c.Obs("hole")
		}
		longOnly[`Hole\[(\d+)\]: Start:(\d+) End:(\d+)`] = l
		if has != nil {
			both(`timestamp:(.*)`, refTSPrint(tt, t))
			c.Obs("time")
		} else {
			both(`(timestamp:)`)
		}
	case "request":
		name, auth := word(), word()
		var x request.Request
		must2(c, kind, x.Decode(refRequest(h, sess, name, []byte(auth))))
		long, short = x.Print(), x.ShortPrint()
		both(`session:(\d+)`, sess)
		both(`filename:(.*)`, name)
		both(`auth:(.*)`, auth)
	case "metadata":
		ct := pick(r, "none", "crc32", "md5", "sha1")
		h = refSet(refSet(h, "csumtype", ct), "csumlen", ct)
		sum := randBytes(r, map[string]int{"none": 0, "crc32": 4, "md5": 16, "sha1": 20}[ct])
		e := randDE(r)
		e.path = word()
		b := binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, h), sess)
		var x metadata.MetaData
		must2(c, kind, x.Decode(append(append(b, sum...), e.wire()...)))
		long, short = x.Print(), x.ShortPrint()
		both(`session:(\d+)`, sess)
		if ct != "none" {
			both(`[Cc]hecksum \[(\w+)\]:([0-9a-f]+)`, fmt.Sprintf("%s %x", ct, sum))
		} else {
			both(`([Cc]hecksum)`)
		}
		both(`Path:(.*)`, e.path)
		both(`Size:(\d+)`, e.size)
		both(`Mtime:(.*)`, refTSPrint("epoch2000_32", y2k.Add(time.Duration(e.mt)*time.Second)))
		both(`Ctime:(.*)`, refTSPrint("epoch2000_32", y2k.Add(time.Duration(e.ct)*time.Second)))
		for _, f := range []string{"sod", "property", "descriptor"} {
			v, _ := refDirent[f].name(refDirent[f].get(16, uint32(e.h)))
			longOnly[`(?m)^    `+f+`:(.*)$`] = []string{v}
		}
		both(`Entry: (\w+)`, fmt.Sprintf("0x%x", e.h))
	}
	if c.Bad() {
		return
	}
	c.Obs(kind)
	both(`^\s*(?:Beacon|Data|Status|Request|Metadata): (\w+)`, fmt.Sprintf("0x%x", h))
	for _, f := range refFrame[kind] {
		longOnly[`(?m)^  `+f+`:(\w*)$`] = []string{refStr(h, f)}
		c.Obs("flag")
	}
	what = fmt.Sprintf("%s %08x", kind, h)
	for i, p := range []string{long, short} {
		form := []string{"long", "short"}[i]
		w := map[string][]string{}
		for re, v := range want {
			w[re] = v
		}
		for re, v := range []map[string][]string{longOnly, shortOnly}[i] {
			w[re] = v
		}
		for re, v := range w {
			if g := fieldsIn(p, re); strings.Join(g, "\n") != strings.Join(v, "\n") {
				c.Fail("print", "%s, %s form: %q shows %q want %q in %q", what, form, re, g, v, p)
				return
			}
		}
	}
	c.Sig("%s%s", long, short)
	if c.Wants() {
		c.Sample(trunc(short, 300))
	}
}

func must2(c *Case, kind string, err error) {
	if err != nil {
		c.Fail("decode", "%s: %v", kind, err)
	}
}

// randHeader: any header of that kind with assigned values, one given
func randHeader(r *rand.Rand, kind, fl, opt string) uint32 {
	h := uint32(0)
	for _, f := range refFrame[kind] {
		var os []string
		for o := range refFields[f].Opts {
			os = append(os, o)
		}
		sort.Strings(os)
		h = refSet(h, f, os[r.Intn(len(os))])
	}
	h = refSet(refSet(h, "version", "v1"), "frametype", kind)
	return refSet(h, fl, opt)
}

var colours25 = map[string]string{"": "", "red_black": "\033[31;1;40;1m", "green_black": "\033[32;1;40;1m", "magenta_black": "\033[35;1;40;1m", "cyan_black": "\033[36;1;40;1m", "yellow_black": "\033[33;1;40;1m", "white_red": "\033[37;1;41;1m", "blue": "\033[34;1;40;1m", "ublack_bwhite": "\033[30;4;47;4m", "iwhite_blue": "\033[37;7;44;1m"}

// windows25: messages from several sides at once
func windows25(c *Case) {
	r := c.R
	s := getScreen()
	s.clear()
	s.flush()
	type wr struct{ view, text string }
	var mu sync.Mutex
	var got []wr
	old := gocui.VerifWrite
	gocui.VerifWrite = func(v string, p []byte) {
		mu.Lock()
		got = append(got, wr{v, string(p)})
		mu.Unlock()
	}
	defer func() { gocui.VerifWrite = old }()
	s.flush()
	n := 1 + r.Intn(8)
	if n > 1 {
		c.Obs("concurrent")
	}
	type sent struct {
		view, colour, text string
	}
	all := make([][]sent, n)
	most := 8
	if r.Intn(40) == 0 {
		most = 100
		c.Obs("busy")
	}
	var cols []string
	for k := range colours25 {
		cols = append(cols, k)
	}
	sort.Strings(cols)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int, r *rand.Rand) {
			defer wg.Done()
			<-start
			for j, k := 0, 1+r.Intn(most); j < k; j++ {
				view, colour := pick(r, "msg", "err", "packet", "cmd"), cols[r.Intn(len(cols))]
				id := fmt.Sprintf("<%d.%d.%d %s>", c.I, i, j, strings.Repeat("x", r.Intn(50)))
				switch r.Intn(60) {
				case 0: // Long
					id += strings.Repeat(pick(r, "long ", "é", "\n", "0123456789\n"), 200+r.Intn(3000)) + fmt.Sprintf("<end %d.%d>", i, j)
					c.Obs("long")
				case 1:
					id += pick(r, "\ttab", "\n\nlines", "日本語", "%s %d %%", "{}", "\\n", " trailing  ", "[31m") + fmt.Sprintf("<end %d.%d>", i, j)
					c.Obs("odd")
				}
				if r.Intn(2) == 0 {
					f := map[string]func(*gocui.Gui, string, string, ...interface{}){"msg": sarwin.MsgPrintf, "err": sarwin.ErrPrintf, "packet": sarwin.PacketPrintf, "cmd": sarwin.CmdPrintf}[view]
					f(s.g, colour, "%s %d%%|%5s|", id, j, "é")
					id = fmt.Sprintf("%s %d%%|%5s|", id, j, "é")
				} else {
					f := map[string]func(*gocui.Gui, string, ...interface{}){"msg": sarwin.MsgPrintln, "err": sarwin.ErrPrintln, "packet": sarwin.PacketPrintln, "cmd": sarwin.CmdPrintln}[view]
					f(s.g, colour, id, " %d ", j, true)
					id = fmt.Sprint(id, " %d ", j, true)
				}
				all[i] = append(all[i], sent{view, colour, id})
			}
		}(i, rand.New(rand.NewSource(r.Int63())))
	}
	close(start)
	wg.Wait()
	s.flush()
	mu.Lock()
	out := map[string]string{}
	for _, w := range got {
		out[w.view] += w.text
	}
	mu.Unlock()
	for _, l := range all {
		last := map[string]int{}
		for _, m := range l {
			at := strings.Index(out[m.view], m.text)
			if at >= 0 && at < last[m.view] {
				c.Fail("order", "%q is shown before what was printed to %s before it: %q", m.text, m.view, trunc(out[m.view], 500))
				return
			}
			last[m.view] = at
		}
	}
	c.Obs("order")
	sig := ""
	rest := map[string]string{}
	for v, t := range out {
		rest[v] = t
	}
	for _, l := range all {
		for _, m := range l {
			c.Obs("message")
			for v, t := range out {
				k := 0
				if v == m.view {
					k = 1
				}
				if strings.Count(t, m.text) != k {
					c.Fail("window", "message %q for %s is %d times in %s, whole: %q", m.text, m.view, strings.Count(t, m.text), v, trunc(t, 500))
					return
				}
			}
			whole := colours25[m.colour] + m.text
			if m.colour != "" {
				c.Obs("colour")
				whole += "\033[0m"
			}
			if !strings.Contains(out[m.view], whole) {
				c.Fail("colour", "message %q in %q is not in its colour: %q", m.text, m.colour, trunc(out[m.view], 500))
				return
			}
			rest[m.view] = strings.Replace(rest[m.view], whole, "", 1)
			sig += m.view + m.colour
		}
	}
	for v, t := range rest {
		if strings.TrimSpace(ansi.ReplaceAllString(t, "")) != "" {
			c.Fail("window", "%s also shows %q", v, t)
			return
		}
	}
	// Clearing
	buffers := func() map[string]string {
		b := map[string]string{}
		s.g.VerifUpdate(func(g *gocui.Gui) {
			for _, v := range g.Views() {
				b[v.Name()] = v.Buffer()
			}
		})
		return b
	}
	before := buffers()
	for v, t := range before {
		if out[v] != "" && strings.TrimSpace(t) == "" && strings.TrimSpace(ansi.ReplaceAllString(out[v], "")) != "" {
			c.Fail("window", "%s shows nothing of %q", v, out[v])
			return
		}
	}
	which := pick(r, "msg", "err", "packet", "cmd", "nosuch")
	sarwin.Clearwin(s.g, which)
	c.Obs("cleared")
	for v, t := range buffers() {
		w := before[v]
		if v == which && v != "cmd" {
			w = ""
		}
		if strings.TrimSpace(t) != strings.TrimSpace(w) {
			c.Fail("clear", "after clearing %s, %s shows %q want %q", which, v, trunc(t, 300), trunc(w, 300))
			return
		}
	}
	// Clearing has its place in the order too
	if v := pick(r, "msg", "err", "packet"); r.Intn(2) == 0 {
		f := map[string]func(*gocui.Gui, string, ...interface{}){"msg": sarwin.MsgPrintln, "err": sarwin.ErrPrintln, "packet": sarwin.PacketPrintln}[v]
		want := ""
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			if l := fmt.Sprint("line ", i); r.Intn(3) > 0 {
				f(s.g, "white_black", l)
				want += l + "\n"
			} else {
				sarwin.Clearwin(s.g, v)
				want = ""
			}
		}
		sarwin.Clearwin(s.g, v)
		f(s.g, "white_black", "the end")
		if t := buffers()[v]; strings.TrimSpace(t) != "the end" {
			c.Fail("order", "%s cleared after %q and then printed to shows %q", v, want, trunc(t, 300))
			return
		}
	}
	c.Sig("%s%s", sig, which)
}
