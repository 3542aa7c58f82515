package main

// C21: the node as a whole.  The real program runs, headless, with real sockets: datagrams come in over
// IPv4 and IPv6 multicast, commands are typed, and what it shows, answers and does to its files is observed.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/holes"
)

func init() {
	register(&Prop{ID: "C21", Quick: 320, Thorough: 4000, Hang: true, HangS: 240, Race: true, Nobody: true, Netns: true, Init: initC21, Run: runC21,
		Rule:   "sessions of the real program (race detector on, terminal replaced by a stand-in) on a multicast interface of its own: batches of datagrams from several peers over IPv4 and IPv6 (valid beacons, requests, data, metadata and status; truncated ones; wrong versions and frame types; too short, too long; random bytes) mixed with typed commands. Every datagram of known kind must be accounted for exactly once: shown with its own session when valid, an error otherwise, one status reply with the right session and error code where one is due, none where none is, every peer learned, and the directory changed by accepted deletes only. After every storm of random bytes from several senders at once the node must still take a beacon on each network and obey a typed command, and exit when told to. Distinct by the batch.",
		Assume: []string{"status replies are observed where the node shows them (it does not transmit them)", "without leave to make a network namespace only IPv4 over loopback is exercised"},
		Need:   map[string]int{"session": 20, "datagram": 2000, "beacon": 150, "request": 150, "data": 150, "metadata": 150, "status": 150, "truncated": 200, "version": 60, "frametype": 60, "short": 60, "reply": 300, "garbage": 1000, "command": 100, "alive": 100, "quit": 20}})
}

type c21net struct {
	iface string
	v6    bool
}

const nV6 = 40

func initC21(w *Worker) {
	n := &c21net{iface: "lo"}
	if os.Getenv("VMON_NETNS") == "yes" {
		b := "link set lo up\nlink add v0 type veth peer name v1\nlink set v0 up\nlink set v1 up\naddr add 10.9.0.1/16 dev v0\nroute add local 10.9.0.0/16 dev lo\n"
		for i := 1; i <= nV6; i++ {
			b += fmt.Sprintf("addr add fd09::%x/64 dev v0 nodad\n", i)
		}
		cmd := exec.Command("ip", "-batch", "-")
		cmd.Stdin = strings.NewReader(b)
		if cmd.Run() != nil {
			os.Exit(96)
		}
		n.iface, n.v6 = "v0", true
		// Is it good for anything
		ok := false
		for i := 0; i < 20 && !ok; i++ {
			a, err := sender(n, 6, 1)
			if err == nil {
				_, err = a.Write([]byte("x"))
				a.Close()
			}
			b, err4 := sender(n, 4, 1)
			if err4 == nil {
				_, err4 = b.Write([]byte("x"))
				b.Close()
			}
			if ok = err == nil && err4 == nil; !ok {
				time.Sleep(100 * time.Millisecond)
			}
		}
		if !ok {
			os.Exit(96)
		}
	}
	w.Data = n
	if n.v6 {
		w.Obs("namespace")
	}
}

var c21port = 7542

// sender: a socket of peer k that writes to the multicast group
func sender(n *c21net, fam, k int) (*os.File, error) {
	ifi, err := net.InterfaceByName(n.iface)
	if err != nil {
		return nil, err
	}
	if fam == 6 {
		s, err := syscall.Socket(syscall.AF_INET6, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			return nil, err
		}
		f := os.NewFile(uintptr(s), "s6")
		syscall.SetsockoptInt(s, syscall.IPPROTO_IPV6, syscall.IPV6_MULTICAST_IF, ifi.Index)
		syscall.SetsockoptInt(s, syscall.IPPROTO_IPV6, syscall.IPV6_MULTICAST_LOOP, 1)
		var a syscall.SockaddrInet6
		copy(a.Addr[:], addr21(n, 6, k))
		if err := syscall.Bind(s, &a); err != nil {
			f.Close()
			return nil, err
		}
		var to syscall.SockaddrInet6
		copy(to.Addr[:], net.ParseIP("ff02::6c"))
		to.Port, to.ZoneId = c21port, uint32(ifi.Index)
		if err := syscall.Connect(s, &to); err != nil {
			f.Close()
			return nil, err
		}
		return f, nil
	}
	s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	f := os.NewFile(uintptr(s), "s4")
	syscall.SetsockoptIPMreqn(s, syscall.IPPROTO_IP, syscall.IP_MULTICAST_IF, &syscall.IPMreqn{Ifindex: int32(ifi.Index)})
	syscall.SetsockoptInt(s, syscall.IPPROTO_IP, syscall.IP_MULTICAST_LOOP, 1)
	var a syscall.SockaddrInet4
	copy(a.Addr[:], addr21(n, 4, k).To4())
	if err := syscall.Bind(s, &a); err != nil {
		f.Close()
		return nil, err
	}
	to := syscall.SockaddrInet4{Port: c21port, Addr: [4]byte{224, 0, 0, 108}}
	if err := syscall.Connect(s, &to); err != nil {
		f.Close()
		return nil, err
	}
	return f, nil
}

func addr21(n *c21net, fam, k int) net.IP {
	switch {
	case fam == 6:
		return net.ParseIP(fmt.Sprintf("fd09::%x", k))
	case n.iface == "lo":
		return net.IPv4(127, 0, byte(k>>8), byte(k))
	}
	return net.IPv4(10, 9, byte(k>>8), byte(k))
}

type node struct {
	shown  int // Of the command view
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    string
	log    *os.File
	rest   []byte
	view   map[string]string
	msgs   []string // The messages one by one
	dead   chan error
	ended  bool
	sar    string
	prompt int
	syncn  int
	tx     map[string]*os.File
	net    *c21net
}

func startNode(c *Case) *node {
	n := &node{net: c.Data.(*c21net), view: map[string]string{}, dead: make(chan error, 1), tx: map[string]*os.File{}}
	dir := filepath.Join(c.Dir, "node")
	must(os.RemoveAll(dir))
	n.sar = filepath.Join(dir, "sar")
	must(os.MkdirAll(n.sar, 0755))
	b, err := os.ReadFile(os.Getenv("VMON_CONF"))
	must(err)
	var j map[string]interface{}
	must(json.Unmarshal(b, &j))
	if n.net.iface == "lo" { // Shared with others
		c21port = 10000 + os.Getpid()%20000
	}
	j["udpport"] = c21port
	b, err = json.Marshal(j)
	must(err)
	cf := filepath.Join(dir, "conf.json")
	must(os.WriteFile(cf, b, 0644))
	n.out = filepath.Join(dir, "out")
	of, err := os.Create(n.out)
	must(err)
	defer of.Close()
	lf := filepath.Join(dir, "ui.log")
	n.log, err = os.Create(lf)
	must(err)
	n.log.Close()
	n.log, err = os.Open(lf)
	must(err)
	n.cmd = exec.Command(os.Getenv("VMON_NODE"), cf, n.net.iface)
	n.cmd.Env = append(os.Environ(), "SARDIR="+n.sar, "VERIF_UI_LOG="+lf, "VERIF_UI_STDIN=1")
	n.cmd.Stdout, n.cmd.Stderr = of, of
	n.in, err = n.cmd.StdinPipe()
	must(err)
	must(n.cmd.Start())
	go func() { n.dead <- n.cmd.Wait() }()
	return n
}

// held: how many sockets and files of its directory the node has open
func (n *node) held() (k int) {
	dir := fmt.Sprintf("/proc/%d/fd/", n.cmd.Process.Pid)
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if l, err := os.Readlink(dir + e.Name()); err == nil && (strings.HasPrefix(l, "socket:") || strings.HasPrefix(l, n.sar+"/")) {
			k++
		}
	}
	return
}

func (n *node) close() {
	for _, f := range n.tx {
		f.Close()
	}
	n.cmd.Process.Kill()
	if !n.ended {
		<-n.dead
	}
	n.log.Close()
}

// read takes in what the node has shown since
func (n *node) read() {
	b, _ := io.ReadAll(n.log)
	if len(b) == 0 {
		return
	}
	n.rest = append(n.rest, b...)
	for {
		i := strings.IndexByte(string(n.rest), '\n')
		if i < 0 {
			return
		}
		var l struct{ V, T string }
		if json.Unmarshal(n.rest[:i], &l) == nil {
			t := ansi21.ReplaceAllString(l.T, "")
			n.view[l.V] += t
			if l.V == "shown" {
				n.shown = len(n.view["cmd"])
			}
			if l.V == "msg" {
				n.msgs = append(n.msgs, t)
			}
		}
		n.rest = n.rest[i+1:]
	}
}

var ansi21 = regexp.MustCompile("\033\\[[0-9;]*m")

// until waits for something to be so
func (n *node) until(limit time.Duration, f func() bool) bool {
	end := time.Now().Add(limit)
	nap := time.Millisecond
	for {
		n.read()
		if f() {
			return true
		}
		select {
		case <-n.dead:
			n.ended = true
			n.read()
			return f()
		default:
		}
		if n.ended || time.Now().After(end) {
			return false
		}
		time.Sleep(nap)
		if nap < 20*time.Millisecond {
			nap += nap / 4
		}
	}
}

const patience = 40 * time.Second

// why describes a node that does not answer
func (n *node) why(c *Case, key, what string) {
	if !n.ended {
		n.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-n.dead:
			n.ended = true
		case <-time.After(5 * time.Second):
		}
		b, _ := os.ReadFile(n.out)
		var said []string
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.Contains(l, "Str fail") {
				said = append(said, l)
			}
		}
		c.Fail(key, "%s; the node still runs; prompts %q\n%s", what, trunc2(n.view["cmd"]), trunc(strings.Join(said, "\n"), 6000))
		return
	}
	b, _ := os.ReadFile(n.out)
	s := string(b)
	if i := strings.Index(s, "panic:"); i > 0 {
		s = s[i:]
	}
	c.Fail("died: "+deathKey(string(b)), "%s; the node has ended:\n%s", what, trunc(s, 3000))
}

func (n *node) send(fam, k int, b []byte) {
	key := fmt.Sprint(fam, k)
	f := n.tx[key]
	if f == nil {
		var err error
		f, err = sender(n.net, fam, k)
		must(err)
		n.tx[key] = f
	}
	for i := 0; ; i++ {
		_, err := f.Write(b)
		if err == nil {
			return
		}
		if i > 200 {
			fatal("cannot send %d bytes: %v", len(b), err)
		}
		time.Sleep(time.Millisecond)
	}
}

func beacon21(eid string) []byte {
	h := refSet(refSet(refSet(refSet(refSet(0, "version", "v1"), "frametype", "beacon"), "descriptor", "d64"), "rxwilling", "yes"), "txwilling", "yes")
	return refBeacon(h, 0, eid)
}

// sync waits until the node has read everything sent before
func (n *node) sync(c *Case, fam int, again bool) bool {
	n.syncn++
	eid := fmt.Sprintf("sync-%d-%d.", n.syncn, fam)
	for i := 0; i < 8; i++ {
		n.send(fam, 2, beacon21(eid))
		limit := patience / 8
		if n.until(limit, func() bool { return strings.Contains(n.view["packet"], eid) }) {
			return true
		}
		if n.ended || !again {
			if !again {
				if n.until(patience, func() bool { return strings.Contains(n.view["packet"], eid) }) {
					return true
				}
			}
			break
		}
	}
	n.why(c, "stuck", fmt.Sprintf("a beacon over IPv%d is not taken", fam))
	return false
}

// typed enters a line and waits for the next prompt
func (n *node) typed(line string) bool {
	n.prompt++
	io.WriteString(n.in, line+"\n")
	p := fmt.Sprintf("[%d]:", n.prompt)
	return n.until(patience, func() bool { return strings.Contains(n.view["cmd"][:n.shown], p) })
}

// command enters a line and waits for its answer
func (n *node) command(c *Case, line, want string) bool {
	from := len(n.view["msg"])
	c.Obs("command")
	ok := n.typed(line) && n.until(patience, func() bool { return strings.Contains(n.view["msg"][from:], want) })
	if !ok {
		n.why(c, "command", fmt.Sprintf("%q typed, %q is not shown; prompts %q messages %q errors %q", line, want, trunc2(n.view["cmd"]), trunc2(n.view["msg"][from:]), trunc2(n.view["err"])))
	}
	return ok
}

func trunc2(s string) string {
	if len(s) > 300 {
		return "..." + s[len(s)-300:]
	}
	return s
}

func runC21(c *Case) {
	r := c.R
	n := startNode(c)
	defer n.close()
	c.Obs("session")
	names := []string{}
	for i := 0; i < 12; i++ {
		f := fmt.Sprintf("f%d", i)
		names = append(names, f)
		must(os.WriteFile(filepath.Join(n.sar, f), fileContent(r, r.Intn(100)), 0644))
	}
	want, err := treeOf(n.sar)
	must(err)
	if !n.until(patience, func() bool {
		return strings.Contains(n.view["cmd"][:n.shown], "[0]:") && strings.Count(n.view["msg"], "Listener started") >= 2
	}) {
		n.why(c, "start", "the node does not start")
		return
	}
	fams := []int{4}
	if n.net.v6 {
		fams = append(fams, 6)
	}
	alive := func() bool {
		for _, f := range fams {
			c.Obs("alive")
			if !n.sync(c, f, true) {
				return false
			}
		}
		v := strconv.Itoa(1 + r.Intn(100000))
		t := pick(r, "metadata", "request", "status", "transfer")
		if !n.command(c, "timeout "+t+" "+v, t+":"+v+" ") {
			return false
		}
		return n.command(c, pick(r, "timeout "+t, "timeout"), t+":"+v+" ")
	}
	if !alive() {
		return
	}
	held := n.held()
	sig := ""
	rounds := 2 + r.Intn(3)
	for round := 0; round < rounds; round++ {
		if r.Intn(3) == 0 {
			if !storm(c, n, fams) || !alive() {
				return
			}
		} else {
			s, ok := account(c, n, fams, names, want)
			if !ok {
				return
			}
			sig += s
		}
	}
	got, err := treeOf(n.sar)
	must(err)
	if d := treeDiff(got, want); d != "" {
		c.Fail("files", "the directory changed: %s", d)
		return
	}
	if !alive() {
		return
	}
	if now := n.held(); now > held {
		c.Fail("leak", "%d sockets and files of the directory are open, at the start %d", now, held)
		return
	}
	q, level := leaving(r)
	io.WriteString(n.in, q)
	c.Obs("quit")
	if n.until(patience, func() bool { return n.ended }); !n.ended {
		n.why(c, "quit", fmt.Sprintf("%q does not end the node", q))
		return
	}
	if code := n.cmd.ProcessState.ExitCode(); level >= 0 && code != level {
		c.Fail("quit", "%q ends the node with exit status %d", q, code)
		return
	}
	if b, _ := os.ReadFile(n.out); strings.Contains(string(b), "panic:") {
		c.Fail("died: "+deathKey(string(b)), "the node ends in a panic: %s", trunc(string(b), 3000))
	}
	c.Sig("%s", sig)
}

// leaving: what is typed to end the node, and the exit status this must give
func leaving(r *rand.Rand) (string, int) {
	switch q := pick(r, "exit", "quit", "\x03"); {
	case q == "\x03":
		return q, -1
	case r.Intn(2) == 0:
		level := r.Intn(2)
		return fmt.Sprintf("%s %d\n", q, level), level
	default:
		return q + "\n", 0
	}
}

// storm: random and mutated frames from several senders at once, commands typed meanwhile
func storm(c *Case, n *node, fams []int) bool {
	r := c.R
	type shot struct {
		fam, k int
		b      []byte
	}
	kinds := []string{"beacon", "request", "data", "metadata", "status"}
	for _, f := range fams {
		for k := 20; k < 23; k++ {
			n.send(f, k, []byte("0"))
		}
	}
	done := make(chan bool)
	k := 0
	for _, f := range fams {
		for s := 20; s < 23; s++ {
			var shots []shot
			for i, m := 0, 20+r.Intn(60); i < m; i++ {
				kind := kinds[r.Intn(len(kinds))]
				b := hostile(r, kind)
				if kind == "request" || (len(b) > 3 && b[0]&0x1f == 1) { // Keep the files out of it
					if len(b) > 3 && b[3] == 5 {
						b[3] = 1
					}
				}
				if len(b) > 1472 {
					b = b[:1472]
				}
				shots = append(shots, shot{f, s, b})
			}
			k++
			conn := n.tx[fmt.Sprint(f, s)]
			seed := r.Int63()
			go func() {
				rr := rand.New(rand.NewSource(seed))
				for _, x := range shots {
					conn.Write(x.b)
					if rr.Intn(10) == 0 {
						time.Sleep(time.Duration(rr.Intn(1000)) * time.Microsecond)
					}
				}
				c.ObsN("garbage", len(shots))
				done <- true
			}()
		}
	}
	for i, m := 0, r.Intn(4); i < m; i++ {
		if !n.typed(pick(r, "peers", "tran", "files", "checksum md5", "help", "nosuch", "timeout", "clear", "rmtran x 1")) {
			n.why(c, "command", "no prompt after a command")
			return false
		}
	}
	for ; k > 0; k-- {
		<-done
	}
	return true
}

var reReply = regexp.MustCompile(`^Status: 0x[0-9a-f]+\s+session:(\d+)\s+(?:timestamp:[^\n]*\s+)?errcode:(\w*)`)
var reNeed = regexp.MustCompile(`^Need to send v([46]) Saratoga STATUS Frame`)

// replied: the status replies among messages.  Other messages may come between the two lines of a reply
func replied(msgs []string) (out []wantReply) {
	var fam []string
	for _, m := range msgs {
		if g := reNeed.FindStringSubmatch(m); g != nil {
			fam = append(fam, g[1])
		}
		if g := reReply.FindStringSubmatch(m); g != nil && len(out) < len(fam) {
			s, _ := strconv.ParseUint(g[1], 10, 32)
			out = append(out, wantReply{fam[len(out)], uint32(s), g[2]})
		}
	}
	return
}

var reRx = regexp.MustCompile(`Rx(Beacon|Request|Data|Metadata|Status): 0x([0-9a-f]+)\s`)

type wantReply struct {
	fam  string
	sess uint32
	code string
}

// account: datagrams of known kind, each of which has to be accounted for
func account(c *Case, n *node, fams []int, names []string, files map[string]string) (string, bool) {
	r := c.R
	for _, f := range fams {
		if !n.sync(c, f, false) {
			return "", false
		}
	}
	n.until(time.Millisecond, func() bool { return false })
	from := map[string]int{}
	for _, v := range []string{"msg", "err", "packet"} {
		from[v] = len(n.view[v])
	}
	frommsgs := len(n.msgs)
	replies := map[wantReply]int{}
	shown := map[string]int{}   // Kinds
	headers := map[string]int{} // Kind and header of the frames shown
	recv := map[string]int{}
	nerr, nrep := 0, 0
	peers := map[string]string{} // Address: last identifier
	eids := map[string]int{}
	news := map[string]int{}
	var used = map[string]bool{}
	desc := ""
	for i, m := 0, 5+r.Intn(35); i < m; i++ {
		fam := fams[r.Intn(len(fams))]
		k := 3 + r.Intn(12)
		sess := r.Uint32()
		kind := pick(r, "beacon", "request", "data", "metadata", "status")
		h := refSet(refSet(refSet(0, "version", "v1"), "frametype", kind), "descriptor", pick(r, "d16", "d32", "d64"))
		var b []byte
		fl := fmt.Sprint("v", fam)
		addr := addr21(n.net, fam, k).String()
		eid := ""
		reply := ""
		replysess := sess
		switch kind {
		case "beacon":
			h = refSet(refSet(h, "rxwilling", pick(r, "yes", "no")), "txwilling", pick(r, "yes", "no"))
			eid = fmt.Sprintf("eid-%d-%d", c.I, r.Intn(1000000))
			b = refBeacon(h, 0, eid)
		case "request":
			h = refSet(refSet(refSet(h, "rxwilling", "yes"), "txwilling", "yes"), "fileordir", "file")
			name := names[r.Intn(len(names))]
			t := pick(r, "get", "take", "delete", "put", "give")
			if r.Intn(3) == 0 {
				name = fmt.Sprintf("missing%d", r.Intn(1000))
			}
			_, have := files[name]
			if used[name] && t != "get" || t == "delete" && used["get "+name] { // Requests are handled side by side
				t = "get"
				name = "missing"
				have = false
			}
			h = refSet(h, "reqtype", t)
			switch {
			case t == "delete" && have:
				used[name] = true
				delete(files, name)
				reply = "success"
			case t == "put" || t == "give":
				reply = "success"
				if have {
					reply = "fileinuse"
				}
			default:
				reply = "success"
				if !have {
					reply = "filenotfound"
				}
			}
			if t != "delete" {
				used["get "+name] = true
			}
			if used[name] && t == "get" {
				c.Obs("skipped")
				continue
			}
			b = refRequest(h, sess, name, nil)
		case "data":
			h = refSet(h, "reqstatus", pick(r, "yes", "no"))
			var ts []byte
			if r.Intn(3) == 0 {
				h = refSet(h, "reqtstamp", "yes")
				tt := pick(r, "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32")
				ts, _ = refTS(tt, time.Unix(1700000000, 5000))
			}
			b = refData(h, sess, ts, valFor(r, refStr(h, "descriptor")), randBytes(r, r.Intn(1200)))
		case "metadata":
			ct := pick(r, "none", "crc32", "md5", "sha1")
			h = refSet(refSet(h, "csumtype", ct), "csumlen", ct)
			e := randDE(r)
			b = binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, h), sess)
			b = append(b, randBytes(r, map[string]int{"none": 0, "crc32": 4, "md5": 16, "sha1": 20}[ct])...)
			b = append(b, e.wire()...)
			if len(b) > 1400 {
				continue
			}
		case "status":
			d := refStr(h, "descriptor")
			var hs holes.Holes = randHoles(r, d, r.Intn(20))
			b = refStatus(h, sess, nil, valFor(r, d), valFor(r, d), hs)
		}
		bad := ""
		x := r.Intn(12)
		if kind == "request" && reply == "success" && strings.Contains(refStr(h, "reqtype"), "delete") {
			x = 11 // Counted as done above
		}
		switch x {
		case 0, 1: // Cut off
			if ml := minLen(kind, b); kind != "beacon" && kind != "request" && ml > 9 {
				b = b[:8+r.Intn(ml-8)]
				bad = "truncated"
				reply = "badpacket"
			}
		case 2:
			v := []uint32{0, 2, 3, 4, 5, 6, 7}[r.Intn(7)]
			h = h&^(7<<29) | v<<29
			binary.BigEndian.PutUint32(b, h)
			bad, reply, replysess = "version", "badpacket", 0
		case 3:
			h = h&^(31<<24) | uint32(5+r.Intn(27))<<24
			binary.BigEndian.PutUint32(b, h)
			bad, reply = "frametype", ""
		case 4:
			b = b[:r.Intn(min(8, len(b)))]
			bad, reply = "short", ""
		case 5:
			if n.net.iface != "lo" && kind == "data" && len(b) <= 1440 { // Just what fits, and just not
				b = append(b, randBytes(r, 1500)...)[:1440+r.Intn(2)]
				c.Obs("edge")
				if len(b) > 1440 {
					bad, reply = "long", ""
				}
			} else if n.net.iface != "lo" && r.Intn(3) == 0 {
				b = append(b, randBytes(r, 1500)...)[:1441+r.Intn(32)]
				bad, reply = "long", ""
			}
		}
		if len(b) > 1440 && bad == "" {
			continue
		}
		c.Obs("datagram")
		n.send(fam, k, b)
		desc += fmt.Sprintf("%s %s %s %d %s; ", fl, kind, bad, len(b), reply)
		if bad != "" {
			c.Obs(bad)
			nerr++
		} else {
			c.Obs(kind)
			shown[kind]++
			headers[fmt.Sprintf("%s %x", kind, h)]++
			if kind == "beacon" {
				eids[eid]++
				if peers[addr] != eid {
					news[addr]++
				}
				peers[addr] = eid
			} else {
				recv[fl+" Saratoga "+strings.ToUpper(kind)]++
			}
		}
		if reply != "" {
			nrep++
			if bad == "version" {
				replysess = ^uint32(0)
			}
			replies[wantReply{fmt.Sprint(fam), replysess, reply}]++
		}
	}
	for _, f := range fams {
		if !n.sync(c, f, false) {
			return "", false
		}
	}
	n.until(patience, func() bool { return len(replied(n.msgs[frommsgs:])) >= nrep })
	time.Sleep(2 * time.Millisecond)
	n.read()
	msg, errs, pkt := n.view["msg"][from["msg"]:], n.view["err"][from["err"]:], n.view["packet"][from["packet"]:]
	gotrep := replied(n.msgs[frommsgs:])
	if n.ended {
		n.why(c, "died", "batch "+desc)
		return "", false
	}
	for _, w := range gotrep {
		c.Obs("reply")
		g := w
		if replies[w] == 0 {
			w.sess = ^uint32(0)
		}
		if replies[w] == 0 {
			c.Fail("reply", "unexpected reply %+v; batch %s", g, desc)
			return "", false
		}
		replies[w]--
	}
	for w, k := range replies {
		if k > 0 {
			c.Fail("reply", "no reply over v%s session %d %s; %d replies; batch %s", w.fam, w.sess, w.code, len(gotrep), desc)
			return "", false
		}
	}
	// Frames shown; the sync beacons come on top
	cnt := map[string]int{}
	hcnt := map[string]int{}
	for _, g := range reRx.FindAllStringSubmatch(pkt, -1) {
		cnt[strings.ToLower(g[1])]++
		hcnt[strings.ToLower(g[1])+" "+g[2]]++
	}
	cnt["beacon"] -= len(fams)
	for _, kd := range []string{"beacon", "request", "data", "metadata", "status"} {
		got := cnt[kd]
		if kd == "status" { // The listener shows them too
			got = max(got-strings.Count(pkt, "Listen Rx "), strings.Count(msg, "Saratoga STATUS Frame")-len(gotrep))
		}
		if got != shown[kd] {
			c.Fail("shown", "%d %s frames sent, %d shown; batch %s", shown[kd], kd, cnt[kd], desc)
			return "", false
		}
	}
	for k, m := range headers {
		if hcnt[k] < m {
			c.Fail("shown", "frame %s sent %d times, shown %d times; batch %s", k, m, hcnt[k], desc)
			return "", false
		}
	}
	for k, m := range recv {
		if g := strings.Count(msg, "Received "+k+" Frame"); g != m {
			c.Fail("shown", "%d %s frames sent, %d received; batch %s", m, k, g, desc)
			return "", false
		}
	}
	for e := range eids {
		if !strings.Contains(pkt, "EID:"+e) {
			c.Fail("shown", "beacon of %s not shown; batch %s", e, desc)
			return "", false
		}
	}
	if nerr > 0 && strings.Count(errs, "\n") < nerr {
		c.Fail("errors", "%d bad datagrams, errors %q; batch %s", nerr, trunc(errs, 500), desc)
		return "", false
	}
	for a, k := range news {
		if g := strings.Count(msg, "New Peer "+a+":") + strings.Count(msg, "New Peer ["+a+"]:") + strings.Count(msg, "New Peer ["+a+"%"); g != k {
			c.Fail("peer", "%d new beacons of %s, announced %d times; batch %s", k, a, g, desc)
			return "", false
		}
	}
	if !n.command(c, "peers", "Modified") {
		return "", false
	}
	n.read()
	tab := n.view["msg"]
	tab = tab[strings.LastIndex(tab, "Modified"):]
	for a, e := range peers {
		ok := 0
		for _, l := range strings.Split(tab, "\n") {
			f := strings.Split(l, "|")
			if len(f) > 4 && (strings.TrimSpace(f[1]) == a || strings.HasPrefix(strings.TrimSpace(f[1]), a+"%")) {
				if strings.TrimSpace(f[3]) == e {
					ok++
				} else {
					ok += 100
				}
			}
		}
		if ok != 1 {
			c.Fail("peer", "%s last said %s, table %q; batch %s", a, e, trunc(tab, 1500), desc)
			return "", false
		}
	}
	if c.Wants() {
		c.Sample(trunc(desc, 500))
	}
	return desc, true
}
