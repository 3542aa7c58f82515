//go:build ui

package main

// C17: a node answers every request exactly once, with the truth

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/trans"
)

func init() {
	register(&Prop{ID: "C17", Quick: 12000, Thorough: 100000, Hang: true, Race: true, Nobody: true, Init: initUI, Run: runC17,
		Rule: "request frames built bit by bit (every version, request type byte, willingness, UDP lite and stream setting; names of files, directories and nothing, inside and outside) are decoded and given to the responder in random histories over several peers and sessions, on a scratch directory. The monitor reads the reply channel: exactly one status, to the requester's address, with the request's session, and an error code among those whose condition holds; success exactly when none does. After every request the whole directory is compared with the model (only a successful delete changes it) and the transfer table with the model (recorded exactly when accepted, once). One case in four has 2-10 goroutines issue equal and conflicting requests and deletes at once: one record per key, one success per file deleted. Race detector on. Distinct by the history.",
		Need: map[string]int{"request": 10000, "success": 1000, "badrequest": 300, "filenotfound": 300, "fileinuse": 200, "cantreceive": 100, "cantsend": 100, "deleted": 100, "duplicate": 50, "conflict": 30, "concurrent": 300, "onedelete": 50, "outside": 300, "crowd": 10, "nearsess": 3000}})
}

func initUI(w *Worker) {
	w.Data = conf(w.Dir)
	getScreen()
}

type tkey struct {
	peer string
	sess uint32
}
type tval struct{ ttype, name string }

func randReqHeader(c *Case, good bool) (h uint32, why []string) {
	r := c.R
	h = refSet(refSet(0, "version", "v1"), "frametype", "request")
	h = refSet(h, "descriptor", pick(r, "d16", "d32", "d64"))
	h = refSet(h, "fileordir", pick(r, "file", "directory"))
	h = refSet(h, "rxwilling", "yes")
	h = refSet(h, "txwilling", "yes")
	if good {
		h = refSet(h, "reqtype", pick(r, "get", "put", "take", "give", "delete", "getdir"))
		return
	}
	if r.Intn(3) == 0 {
		h = refSet(h, "rxwilling", pick(r, "yes", "no", "capable", "invalid"))
	}
	if r.Intn(3) == 0 {
		h = refSet(h, "txwilling", pick(r, "yes", "no", "capable", "invalid"))
	}
	if r.Intn(12) == 0 {
		h = refSet(h, "udplite", "yes")
	}
	if r.Intn(12) == 0 {
		h = refSet(h, "stream", "yes")
	}
	if r.Intn(15) == 0 {
		h = h&^(7<<29) | uint32(r.Intn(8))<<29
	}
	if r.Intn(8) == 0 {
		h = h&^255 | uint32(r.Intn(256))
	} else {
		h = refSet(h, "reqtype", pick(r, "get", "put", "take", "give", "delete", "getdir"))
	}
	return
}

// refAnswer: the error codes whose condition holds for a request; none: success
func refAnswer(h uint32, exists bool) map[string]bool {
	w := map[string]bool{}
	if h>>29 != 1 || refStr(h, "udplite") == "yes" || refStr(h, "stream") == "yes" {
		w["badrequest"] = true
	}
	rx, tx := refStr(h, "rxwilling"), refStr(h, "txwilling")
	if rx == "invalid" {
		w["cantreceive"] = true
	}
	if tx == "invalid" {
		w["cantsend"] = true
	}
	switch refStr(h, "reqtype") {
	case "get", "getdir", "take":
		if rx != "yes" {
			w["cantreceive"] = true
		}
		if !exists {
			w["filenotfound"] = true
		}
	case "put", "give":
		if tx != "yes" {
			w["cantsend"] = true
		}
		if exists {
			w["fileinuse"] = true
		}
	case "delete":
		if !exists {
			w["filenotfound"] = true
		}
	default:
		w["badrequest"] = true
	}
	return w
}

func ask(g *screen, req *request.Request, from *net.UDPAddr) (ret bool, replies []status.Packet, other []interface{}) {
	tx := make(chan interface{})
	done := make(chan bool)
	go func() {
		for {
			select {
			case x := <-tx:
				if p, ok := x.(status.Packet); ok {
					replies = append(replies, p)
				} else {
					other = append(other, x)
				}
			case <-done:
				done <- true
				return
			}
		}
	}()
	a := *from
	ret = trans.AddRxTran(g.g, req, &a, tx)
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	done <- true
	<-done
	return
}

func decodeReq(c *Case, h, s uint32, name string) *request.Request {
	req := new(request.Request)
	var auth []byte
	if c.R.Intn(4) == 0 {
		auth = []byte("secret")
	}
	if err := req.Decode(refRequest(h, s, name, auth)); err != nil {
		c.Fail("decode", "request %08x %q is refused: %v", h, name, err)
		return nil
	}
	return req
}

func c17Dir(c *Case) (string, []string) {
	dir := filepath.Join(c.Dir, "top")
	must(os.RemoveAll(dir))
	sar := filepath.Join(dir, "sar")
	must(os.MkdirAll(sar, 0755))
	must(os.WriteFile(filepath.Join(dir, "outside"), []byte("secret"), 0644))
	must(os.MkdirAll(filepath.Join(dir, "sarx"), 0755))
	must(os.WriteFile(filepath.Join(dir, "sarx", "f"), []byte("secret"), 0644))
	var names []string
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("f%d", i)
		if i == 3 {
			n = fileName(c.R)
		}
		must(os.WriteFile(filepath.Join(sar, n), fileContent(c.R, c.R.Intn(100)), 0644))
		names = append(names, n)
	}
	must(os.MkdirAll(filepath.Join(sar, "d", "e"), 0755))
	must(os.WriteFile(filepath.Join(sar, "d", "in"), []byte("x"), 0644))
	must(os.MkdirAll(filepath.Join(sar, "empty"), 0755))
	names = append(names, "d/in", "d", "empty", "missing", "d/missing", "missing2")
	setSardir(sar)
	return dir, names
}

func okCode(h uint32) string { return refStr(h, "errcode") }

func table() map[tkey][]tval {
	trans.Trmu.Lock()
	defer trans.Trmu.Unlock()
	m := map[tkey][]tval{}
	for i := range trans.Transfers {
		t := &trans.Transfers[i]
		k := tkey{t.Peer.String(), t.Session}
		m[k] = append(m[k], tval{t.Ttype, t.Filename})
	}
	return m
}

func runC17(c *Case) {
	r := c.R
	s := getScreen()
	if c.I%50 == 0 {
		s.clear()
	}
	trans.Trmu.Lock()
	trans.Transfers = nil
	trans.Trmu.Unlock()
	dir, names := c17Dir(c)
	if r.Intn(4) == 0 {
		concC17(c, s, dir, names)
		return
	}
	sar := filepath.Join(dir, "sar")
	peers := []*net.UDPAddr{{IP: net.IPv4(10, 0, 0, 1), Port: 7542}, {IP: net.IPv4(10, 0, 0, 1), Port: 7543}, {IP: net.IPv4(10, 0, 0, 11), Port: 7542}, {IP: net.ParseIP("fe80::1"), Port: 7542}, {IP: net.IPv4(10, 0, 0, 1), Port: 754}}
	model := map[tkey]tval{}
	want, err := treeOf(dir)
	must(err)
	trace := ""
	k, nsess := 1+r.Intn(16), []int{3, 3, 30}[r.Intn(3)]
	if r.Intn(200) == 0 { // Many sessions
		c.Obs("crowd")
		k, nsess = 100+r.Intn(300), 100
	}
	for i := 0; i < k; i++ {
		h, _ := randReqHeader(c, r.Intn(2) == 0)
		name := names[r.Intn(len(names))]
		outside := false
		if r.Intn(10) == 0 {
			outside = true
			name = pick(r, "../outside", filepath.Join(dir, "outside"), "d/../../outside", "../sarx/f", "../new")
			c.Obs("outside")
		}
		from := peers[r.Intn(len(peers))]
		sess := uint32(1 + r.Intn(nsess))
		if r.Intn(5) == 0 {
			sess = r.Uint32()
		} else if r.Intn(3) == 0 { // Not the same
			sess |= 1 << []int{8, 16, 24, 31}[r.Intn(4)]
			c.Obs("nearsess")
		}
		tk := tkey{from.String(), sess}
		if old, ok := model[tk]; ok && r.Intn(2) == 0 { // The same request again
			name, outside = old.name, strings.HasPrefix(old.name, "../") || strings.HasPrefix(old.name, "/") || strings.Contains(old.name, "/../")
			h = refSet(h, "reqtype", old.ttype)
		}
		req := decodeReq(c, h, sess, name)
		if req == nil {
			return
		}
		c.Obs("request")
		ttype := refStr(h, "reqtype")
		trace += fmt.Sprintf("%08x %s %q from %s session %d; ", h, ttype, name, from, sess)
		_, serr := os.Lstat(filepath.Join(sar, name))
		exists := serr == nil && !outside
		why := refAnswer(h, exists)
		ret, replies, other := ask(s, req, from)
		got, err := treeOf(dir)
		must(err)
		_, serr = os.Lstat(filepath.Join(sar, name))
		gone := exists && serr != nil
		if len(replies) != 1 || len(other) > 0 {
			c.Fail("replies", "%d status and %d other replies to one request; %s", len(replies), len(other), trace)
			return
		}
		p := replies[0]
		if p.Addr.String() != from.String() || p.Info.Session != sess {
			c.Fail("address", "reply for session %d to %s; %s", p.Info.Session, p.Addr.String(), trace)
			return
		}
		b, err := p.Info.Encode()
		if err != nil {
			c.Fail("reply", "the reply cannot be sent: %v; %s", err, trace)
			return
		}
		hh := p.Info.Header
		if refStr(hh, "version") != "v1" || refStr(hh, "frametype") != "status" || len(p.Info.Holes) != 0 || p.Info.Progress != 0 || p.Info.Inrespto != 0 || len(b) < 12 {
			c.Fail("reply", "the reply is %+v; %s", p.Info, trace)
			return
		}
		code := okCode(hh)
		c.Obs(code)
		old, underway := model[tk]
		same := underway && old == tval{ttype, name}
		accept := false
		switch {
		case outside && len(why) == 0:
			// A put outside is accepted or refused here; it can never be opened
			if code == "success" && ttype != "delete" && !underway {
				accept = true
			}
			if code == "success" && ttype == "delete" {
				c.Fail("answer", "success deleting outside; %s", trace)
				return
			}
		case len(why) > 0:
			if !why[code] {
				c.Fail("answer", "answered %s, what holds is %v; %s", code, why, trace)
				return
			}
		case ttype == "delete":
			wantcode := "success"
			if !gone {
				wantcode = "didnotdelete"
				if want[rel(dir, sar, name)] != "dir" {
					c.Fail("delete", "the file %q is still there (%s); %s", name, code, trace)
					return
				}
			} else {
				c.Obs("deleted")
				for k := range want {
					if k == rel(dir, sar, name) {
						delete(want, k)
					}
				}
			}
			if code != wantcode {
				c.Fail("answer", "answered %s to a delete, want %s; %s", code, wantcode, trace)
				return
			}
			if ret != gone {
				c.Fail("return", "returned %v for a delete that was %v", ret, gone)
				return
			}
		case underway && !same:
			c.Obs("conflict")
			if code != "badrequest" {
				c.Fail("answer", "answered %s to a second, different request of a session underway (%v); %s", code, old, trace)
				return
			}
		default:
			if code != "success" {
				c.Fail("answer", "answered %s, want success; %s", code, trace)
				return
			}
			if same {
				c.Obs("duplicate")
			} else {
				accept = true
			}
		}
		if accept {
			model[tk] = tval{ttype, name}
		}
		if ttype != "delete" && ret != accept && !(outside && len(why) == 0) {
			c.Fail("return", "returned %v for a request that was accepted: %v; %s", ret, accept, trace)
			return
		}
		if ttype == "delete" && len(why) > 0 && ret {
			c.Fail("return", "returned true for a refused delete; %s", trace)
			return
		}
		if d := treeDiff(got, want); d != "" {
			c.Fail("files", "after answering %s the directory has changed: %s; %s", code, d, trace)
			return
		}
		tab := table()
		n := 0
		for k, v := range tab {
			n += len(v)
			if len(v) != 1 || model[k] != v[0] {
				c.Fail("table", "transfers of %v: %v want %v; %s", k, v, model[k], trace)
				return
			}
		}
		if n != len(model) {
			c.Fail("table", "%d transfers recorded, %d accepted; %s", n, len(model), trace)
			return
		}
	}
	c.Sig("%s", trace)
	if c.Wants() {
		c.Sample(trunc(trace, 500))
	}
	s.flush()
}

func rel(dir, sar, name string) string {
	p, _ := filepath.Rel(dir, filepath.Join(sar, name))
	return p
}

func concC17(c *Case, s *screen, dir string, names []string) {
	r := c.R
	c.Obs("concurrent")
	n := 2 + r.Intn(9)
	type job struct {
		req     *request.Request
		from    *net.UDPAddr
		h       uint32
		name    string
		ret     bool
		replies []status.Packet
		other   []interface{}
	}
	jobs := make([]*job, n)
	mode := r.Intn(3)
	base := &job{h: refSet(refSet(refSet(refSet(refSet(0, "version", "v1"), "frametype", "request"), "rxwilling", "yes"), "txwilling", "yes"), "reqtype", "get"), name: "f0"}
	trace := ""
	for i := range jobs {
		j := &job{h: base.h, name: base.name, from: &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 7542}}
		sess := uint32(7)
		switch mode {
		case 0: // All the same request
		case 1: // All delete the same file, from different peers
			j.h = refSet(j.h, "reqtype", "delete")
			j.from = &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(i)), Port: 7542}
		default: // Sessions used for different things
			sess = uint32(1 + r.Intn(3))
			j.name = fmt.Sprintf("f%d", r.Intn(2))
			j.h = refSet(j.h, "reqtype", pick(r, "get", "take"))
			if r.Intn(3) == 0 {
				j.h = refSet(j.h, "reqtype", "put")
				j.name = "missing"
			}
		}
		if j.req = decodeReq(c, j.h, sess, j.name); j.req == nil {
			return
		}
		jobs[i] = j
		trace += fmt.Sprintf("%s %q session %d; ", refStr(j.h, "reqtype"), j.name, sess)
	}
	c.ObsN("request", n)
	start := make(chan bool)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			<-start
			j.ret, j.replies, j.other = ask(s, j.req, j.from)
		}(j)
	}
	close(start)
	wg.Wait()
	nok, nret := 0, 0
	tab := table()
	for _, j := range jobs {
		if len(j.replies) != 1 || len(j.other) > 0 {
			c.Fail("replies", "%d replies to one of several requests at once; %s", len(j.replies), trace)
			return
		}
		p := j.replies[0]
		if p.Info.Session != j.req.Session || p.Addr.String() != j.from.String() {
			c.Fail("address", "reply for session %d to %s; %s", p.Info.Session, p.Addr.String(), trace)
			return
		}
		code := okCode(p.Info.Header)
		c.Obs(code)
		if code == "success" {
			nok++
		}
		if j.ret {
			nret++
		}
		switch mode {
		case 0:
			if code != "success" {
				c.Fail("answer", "one of %d equal requests is answered %s", n, code)
				return
			}
		case 1:
			if code != "success" && code != "filenotfound" && code != "didnotdelete" {
				c.Fail("answer", "one of %d deletes is answered %s", n, code)
				return
			}
		default:
			v := tab[tkey{j.from.String(), j.req.Session}]
			if len(v) != 1 {
				c.Fail("table", "session %d is recorded %d times; %s", j.req.Session, len(v), trace)
				return
			}
			wantcode := "badrequest"
			if v[0] == (tval{refStr(j.h, "reqtype"), j.name}) {
				wantcode = "success"
			}
			if code != wantcode {
				c.Fail("answer", "%s %q is answered %s while the transfer of session %d is %v; %s", refStr(j.h, "reqtype"), j.name, code, j.req.Session, v[0], trace)
				return
			}
		}
	}
	cnt := 0
	for _, v := range tab {
		cnt += len(v)
	}
	switch mode {
	case 0:
		if cnt != 1 || nret != 1 {
			c.Fail("table", "%d equal requests at once are recorded %d times (new: %d)", n, cnt, nret)
		}
	case 1:
		c.Obs("onedelete")
		if _, err := os.Lstat(filepath.Join(dir, "sar", "f0")); err == nil {
			c.Fail("delete", "the file is still there after %d deletes", n)
		}
		if nok != 1 || cnt != 0 {
			c.Fail("answer", "%d of %d deletes of one file succeeded, %d transfers recorded", nok, n, cnt)
		}
	default:
		if cnt != len(tab) || nret != cnt {
			c.Fail("table", "%d transfers recorded, %d told to be new, %d keys; %s", cnt, nret, len(tab), trace)
		}
	}
	c.Sig("%d %s", mode, trace)
	s.flush()
}
