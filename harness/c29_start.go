package main

// C29: how a node starts, finds its network and leaves.  The real program is started on random configurations,
// directories, interfaces and terminals, alone and several at a time.

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C29", Quick: 960, Thorough: 8000, Hang: true, HangS: 240, Race: true, Nobody: true, Netns: true, Init: initC29, Run: runC29,
		Rule:   "starts of the real program. Refusals: a wrong number of arguments, configurations missing, malformed or with values of the wrong type, directories missing or no directory, unknown interfaces, groups that are no multicast address, impossible ports, no terminal: the program must end, say what is wrong (usage, or naming the file, directory or interface at fault) without a panic, and change nothing. Starts (race detector on, terminal replaced by a stand-in) on random ports, groups, prompts, interface MTUs and directories (from the file or SARDIR; absolute, relative, with trailing slash, by a link): the node must show interface, MTU, addresses, directory, free space and listeners, run in that directory, be bound to that port and joined to those groups on that interface, take beacons by multicast and unicast at that port and none at another, take frames up to what the MTU leaves and refuse the next size, and act on files in that directory only. Nets of two or three nodes: what the beacon command sends is shown by every node with the same groups and port, as often as the count says and with the identifier of the sender, and by none with another port. Terminals: the program with the real toolkit on a pseudo terminal of random size, keys typed, resized, left by exit, quit, Ctrl-C or a failing start; what it shows is read from an emulated screen and afterwards the terminal must be in the state it was in before. Distinct by configuration.",
		Assume: []string{"without leave to make a network namespace only IPv4 and IPv6 unicast over loopback is exercised"},
		Need:   map[string]int{"refused": 120, "started": 250, "net": 60, "terminal": 60, "restored": 60, "relative": 20, "env": 60, "otherport": 150, "mtu": 150, "heard": 150, "nothere": 30, "largest": 200, "toolarge": 200, "deleted": 200}})
}

func initC29(w *Worker) {
	n := &c21net{iface: "lo"}
	if os.Getenv("VMON_NETNS") == "yes" {
		b := "link set lo up\nlink add v0 type veth peer name v1\nlink set v0 mtu 9000\nlink set v1 mtu 9000\nlink set v0 up\nlink set v1 up\naddr add 10.9.0.1/16 dev v0\nroute add local 10.9.0.0/16 dev lo\nroute add 224.0.0.0/4 dev v0\n"
		for i := 1; i <= nV6; i++ {
			b += fmt.Sprintf("addr add fd09::%x/64 dev v0 nodad\n", i)
		}
		cmd := exec.Command("ip", "-batch", "-")
		cmd.Stdin = strings.NewReader(b)
		if cmd.Run() != nil {
			os.Exit(96)
		}
		n.iface, n.v6 = "v0", true
		ok := false
		for i := 0; i < 50 && !ok; i++ { // Until it works
			ok = true
			for _, to := range []string{"[ff02::6c%v0]:7542", "224.0.0.108:7542"} {
				a, err := net.Dial("udp", to)
				if err == nil {
					_, err = a.Write([]byte("x"))
					a.Close()
				}
				ok = ok && err == nil
			}
			if !ok {
				time.Sleep(100 * time.Millisecond)
			}
		}
		if !ok {
			os.Exit(96)
		}
		w.Obs("namespace")
	}
	w.Data = n
}

func runC29(c *Case) {
	switch k := c.I % 16; {
	case k < 4:
		refused29(c)
	case k < 11 || k < 13 && !c.Data.(*c21net).v6:
		started29(c)
	case k < 13:
		net29(c)
	default:
		terminal29(c)
	}
}

// conf29: the repository's configuration with changes
func conf29(c *Case, file string, change map[string]interface{}) {
	b, err := os.ReadFile(os.Getenv("VMON_CONF"))
	must(err)
	var j map[string]interface{}
	must(json.Unmarshal(b, &j))
	for k, v := range change {
		if v == nil {
			delete(j, k)
		} else {
			j[k] = v
		}
	}
	b, err = json.Marshal(j)
	must(err)
	must(os.WriteFile(file, b, 0644))
}

func env29(sardir string) (e []string) {
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "SARDIR=") {
			e = append(e, v)
		}
	}
	if sardir != "" {
		e = append(e, "SARDIR="+sardir)
	}
	return
}

func dir29(c *Case) string {
	dir := filepath.Join(c.Dir, "start")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0755))
	return dir
}

func refused29(c *Case) {
	r := c.R
	iface := c.Data.(*c21net).iface
	dir := dir29(c)
	sar := filepath.Join(dir, "sar")
	must(os.Mkdir(sar, 0755))
	must(os.WriteFile(filepath.Join(sar, "f"), []byte("content"), 0644))
	must(os.WriteFile(filepath.Join(dir, "file"), nil, 0644))
	cf := filepath.Join(dir, fmt.Sprintf("conf%d.json", r.Intn(1000)))
	port := 10000 + r.Intn(20000)
	change := map[string]interface{}{"udpport": port}
	args := []string{cf, iface}
	sardir := sar
	want := ""
	tty := true
	what := pick(r, "args", "args", "noconf", "dirconf", "empty", "cut", "type", "flag", "sardir", "sardirfile", "sardirconf", "iface", "iface", "v4", "v6", "port", "noterminal")
	conf29(c, cf, change)
	switch what {
	case "args":
		args = [][]string{nil, {cf}, {cf, iface, "x"}, {cf, iface, "x", "y"}, {""}}[r.Intn(5)]
		want = "usage"
	case "noconf":
		must(os.Remove(cf))
		want = filepath.Base(cf)
	case "dirconf":
		must(os.Remove(cf))
		must(os.Mkdir(cf, 0755))
		want = filepath.Base(cf)
	case "empty":
		must(os.WriteFile(cf, nil, 0644))
		want = filepath.Base(cf)
	case "cut":
		b, _ := os.ReadFile(cf)
		must(os.WriteFile(cf, b[:1+r.Intn(len(b)-1)], 0644))
		want = filepath.Base(cf)
	case "type":
		change[pick(r, "udpport", "prompt", "v4multicast", "timestamp", "sardir", "timeout", "commands", "flags")] = []interface{}{true}
		conf29(c, cf, change)
		want = filepath.Base(cf)
	case "flag":
		change[pick(r, "descriptor", "csumtype", "freespace", "txwilling", "stream", "reqtstamp", "udplite")] = pick(r, "d65", "maybe", "", "YES")
		conf29(c, cf, change)
		want = filepath.Base(cf)
	case "sardir":
		sardir = filepath.Join(dir, "nosuch", "dir")
		want = sardir
	case "sardirfile":
		sardir = filepath.Join(dir, "file")
		want = sardir
	case "sardirconf":
		sardir = ""
		change["sardir"] = filepath.Join(dir, pick(r, "file", "nosuch"))
		conf29(c, cf, change)
		want = change["sardir"].(string)
	case "iface":
		args[1] = pick(r, "nosuch0", "v9", "0", "Lo", iface+"x")
		want = args[1]
	case "v4":
		change["v4multicast"] = pick(r, "10.9.0.1", "nonsense", "", "224.0.0", "255.255.255.255", "127.0.0.1", "ff02::6c")
		conf29(c, cf, change)
		want = "v4"
	case "v6":
		change["v6multicast"] = pick(r, "::1", "fd09::1", "nonsense", "", "ff02:::6c")
		conf29(c, cf, change)
		want = "v6"
	case "port":
		change["udpport"] = pick2(r, 65536, 70000, -1, 1<<20)
		conf29(c, cf, change)
		want = "listen"
	case "noterminal":
		tty = false
		want = ""
	}
	before, err := treeOf(dir)
	must(err)
	bin := os.Getenv("VMON_NODE")
	if !tty {
		bin = os.Getenv("VMON_NODE_TTY")
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(env29(sardir), "VERIF_UI_STDIN=1", "TERM=xterm")
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true} // No terminal
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	in, err := cmd.StdinPipe()
	must(err)
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	defer in.Close()
	select {
	case <-done:
	case <-time.After(patience):
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		c.Fail("runs: "+what, "%s %q SARDIR=%q with %v does not end: %s", what, args, sardir, change, trunc(out.String(), 3000))
		return
	}
	c.Obs("refused")
	c.Obs("refused-" + what)
	o := out.String()
	for _, p := range []string{"panic:", "fatal error:", "DATA RACE", "SIGSEGV"} {
		if strings.Contains(o, p) {
			c.Fail("panic: "+what, "%s %q with %v: %s", what, args, change, trunc(o, 3000))
			return
		}
	}
	if strings.TrimSpace(o) == "" || !strings.Contains(strings.ToLower(o), strings.ToLower(want)) {
		c.Fail("says: "+what, "%s %q SARDIR=%q with %v ends without saying %q: %q", what, args, sardir, change, want, trunc(o, 1000))
		return
	}
	after, err := treeOf(dir)
	must(err)
	if d := treeDiff(after, before); d != "" {
		c.Fail("files: "+what, "%s: the directory changed: %s", what, d)
		return
	}
	c.Sig("%s %v %v", what, change, args)
}

func pick2(r *rand.Rand, v ...interface{}) interface{} { return v[r.Intn(len(v))] }

// start29 starts a node with that configuration, in a directory of its own
type opt29 struct {
	change map[string]interface{}
	sardir string // In the environment
	cwd    string
	sar    string // Where the files are
	iface  string
	name   string
}

func start29(c *Case, o opt29) *node {
	n := &node{net: c.Data.(*c21net), view: map[string]string{}, dead: make(chan error, 1), tx: map[string]*os.File{}, sar: o.sar}
	dir := filepath.Join(c.Dir, "start")
	cf := filepath.Join(dir, o.name+".json")
	conf29(c, cf, o.change)
	n.out = filepath.Join(dir, o.name+".out")
	of, err := os.Create(n.out)
	must(err)
	defer of.Close()
	lf := filepath.Join(dir, o.name+".log")
	n.log, err = os.Create(lf)
	must(err)
	n.log.Close()
	n.log, err = os.Open(lf)
	must(err)
	n.cmd = exec.Command(os.Getenv("VMON_NODE"), cf, o.iface)
	n.cmd.Env = append(env29(o.sardir), "VERIF_UI_LOG="+lf, "VERIF_UI_STDIN=1")
	n.cmd.Dir = o.cwd
	n.cmd.Stdout, n.cmd.Stderr = of, of
	n.in, err = n.cmd.StdinPipe()
	must(err)
	must(n.cmd.Start())
	go func() { n.dead <- n.cmd.Wait() }()
	return n
}

func (n *node) up(c *Case, prompt string) bool {
	if !n.until(patience, func() bool {
		return strings.Contains(n.view["cmd"][:n.shown], prompt+"[0]:") && strings.Count(n.view["msg"], "Listener started") >= 2
	}) {
		n.why(c, "start", fmt.Sprintf("the node does not start with prompt %q", prompt))
		return false
	}
	return true
}

func (n *node) quit(c *Case) {
	q, level := leaving(c.R)
	n.in.Write([]byte(q))
	if n.until(patience, func() bool { return n.ended }); !n.ended {
		n.why(c, "quit", fmt.Sprintf("%q does not end the node", q))
		return
	}
	if code := n.cmd.ProcessState.ExitCode(); level >= 0 && code != level {
		c.Fail("quit", "%q ends the node with exit status %d", q, code)
		return
	}
	b, _ := os.ReadFile(n.out)
	for _, p := range []string{"panic:", "DATA RACE"} {
		if strings.Contains(string(b), p) {
			c.Fail("died: "+deathKey(string(b)), "the node ends with: %s", trunc(string(b), 3000))
		}
	}
}

func groups29(r *rand.Rand) (string, string) {
	return pick(r, "224.0.0.108", "224.0.0.108", fmt.Sprintf("224.0.0.%d", 109+r.Intn(100)), fmt.Sprintf("239.%d.%d.%d", r.Intn(256), r.Intn(256), 1+r.Intn(250))),
		pick(r, "ff02::6c", "FF02:0:0:0:0:0:0:6c", fmt.Sprintf("ff02::%x", 0x100+r.Intn(0xf000)), fmt.Sprintf("ff05::%x", 1+r.Intn(0xf000)))
}

// mcast29 sends to a group by an interface
func mcast29(ifi int, ip net.IP, port int, from net.IP, b []byte) error {
	fam := syscall.AF_INET6
	if ip.To4() != nil {
		fam = syscall.AF_INET
	}
	s, err := syscall.Socket(fam, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(s)
	if fam == syscall.AF_INET {
		syscall.SetsockoptIPMreqn(s, syscall.IPPROTO_IP, syscall.IP_MULTICAST_IF, &syscall.IPMreqn{Ifindex: int32(ifi)})
		syscall.SetsockoptInt(s, syscall.IPPROTO_IP, syscall.IP_MULTICAST_LOOP, 1)
		var a syscall.SockaddrInet4
		copy(a.Addr[:], from.To4())
		if err := syscall.Bind(s, &a); err != nil {
			return err
		}
		to := syscall.SockaddrInet4{Port: port}
		copy(to.Addr[:], ip.To4())
		return syscall.Sendto(s, b, 0, &to)
	}
	syscall.SetsockoptInt(s, syscall.IPPROTO_IPV6, syscall.IPV6_MULTICAST_IF, ifi)
	syscall.SetsockoptInt(s, syscall.IPPROTO_IPV6, syscall.IPV6_MULTICAST_LOOP, 1)
	var a syscall.SockaddrInet6
	copy(a.Addr[:], from)
	if err := syscall.Bind(s, &a); err != nil {
		return err
	}
	to := syscall.SockaddrInet6{Port: port, ZoneId: uint32(ifi)}
	copy(to.Addr[:], ip)
	return syscall.Sendto(s, b, 0, &to)
}

func ucast29(to string, port int, b []byte) error {
	s, err := net.Dial("udp", net.JoinHostPort(to, strconv.Itoa(port)))
	if err != nil {
		return err
	}
	defer s.Close()
	_, err = s.Write(b)
	return err
}

func started29(c *Case) {
	r := c.R
	nt := c.Data.(*c21net)
	dir := dir29(c)
	o := opt29{name: "node", iface: nt.iface, cwd: dir, change: map[string]interface{}{}}
	port := 7542
	if r.Intn(3) > 0 || !nt.v6 {
		port = 10000 + r.Intn(20000)
		if !nt.v6 {
			port = 10000 + (os.Getpid()*37+c.I)%20000
		}
		c.Obs("otherport")
	}
	o.change["udpport"] = port
	g4, g6 := groups29(r)
	o.change["v4multicast"], o.change["v6multicast"] = g4, g6
	prompt := pick(r, "saratoga", "n", "node seven", "sar-1", "日本", "a long prompt for a command line")
	o.change["prompt"] = prompt
	if nt.v6 {
		if r.Intn(4) == 0 {
			o.iface = "lo"
		}
		m := 1400 + r.Intn(7600)
		if r.Intn(4) == 0 {
			m = pick2(r, 1400, 1500, 9000, 1501, 1499).(int)
		}
		if o.iface == "lo" {
			m = pick2(r, 65536, 65535, 16436, m, m).(int)
		}
		if b, err := exec.Command("ip", "link", "set", o.iface, "mtu", strconv.Itoa(m)).CombinedOutput(); err != nil {
			fatal("mtu %d: %v %s", m, err, b)
		}
		if o.iface == "lo" {
			defer exec.Command("ip", "link", "set", "lo", "mtu", "65536").Run()
		} else {
			defer exec.Command("ip", "link", "set", o.iface, "mtu", "9000").Run()
		}
		c.Obs("mtu")
	}
	// The directory, however it is told
	o.sar = filepath.Join(dir, "deep", "sar")
	must(os.MkdirAll(filepath.Join(o.sar, "deep", "sar"), 0755)) // One to be taken for it
	must(os.MkdirAll(filepath.Join(dir, "other", "sar"), 0755))
	must(os.Symlink("deep/sar", filepath.Join(dir, "link")))
	spelt := pick(r, o.sar, o.sar, o.sar+"/", filepath.Join(dir, "link"), "deep/sar", "./deep/sar", "deep/sar/", "link", "../start/deep/sar", filepath.Join(dir, "other")+"/../deep/sar")
	if !filepath.IsAbs(spelt) {
		c.Obs("relative")
	}
	if r.Intn(2) == 0 {
		o.sardir = spelt
		o.change["sardir"] = filepath.Join(dir, pick(r, "other/sar", "nosuch", "other"))
		c.Obs("env")
	} else {
		o.change["sardir"] = spelt
	}
	for _, d := range []string{o.sar, filepath.Join(o.sar, "deep", "sar"), filepath.Join(dir, "other", "sar"), filepath.Join(dir, "other"), dir} {
		for i := 0; i < 3; i++ {
			must(os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d", i)), []byte(d), 0644))
		}
	}
	want, err := treeOf(filepath.Join(dir, "deep"))
	must(err)
	want2, err := treeOf(filepath.Join(dir, "other"))
	must(err)
	n := start29(c, o)
	defer n.close()
	desc := fmt.Sprintf("%v SARDIR=%q on %s", o.change, o.sardir, o.iface)
	if !n.up(c, prompt) {
		return
	}
	c.Obs("started")
	// What it shows
	ifi, err := net.InterfaceByName(o.iface)
	must(err)
	wants := []string{ifi.Name, fmt.Sprintf("MTU %d", ifi.MTU), "Saratoga Directory is ", fmt.Sprintf("%s:%d", g4, port), fmt.Sprintf("[%s]:%d", net.ParseIP(g6), port)}
	as, err := ifi.Addrs()
	must(err)
	for _, a := range as {
		wants = append(wants, a.String())
	}
	for _, w := range wants {
		if !n.until(patience, func() bool { return strings.Contains(n.view["msg"], w) }) {
			c.Fail("shown", "%s: %q is not among what it shows: %q", desc, w, n.view["msg"])
			return
		}
	}
	_, shown, _ := strings.Cut(n.view["msg"], "Saratoga Directory is ")
	shown, _, _ = strings.Cut(shown, "\n")
	if !filepath.IsAbs(shown) {
		shown = filepath.Join(o.sar, shown)
	}
	if a, err := os.Stat(shown); err != nil || !os.SameFile(a, stat29(o.sar)) {
		c.Fail("directory shown", "%s: it shows %q as its directory, which is not %s", desc, shown, o.sar)
		return
	}
	var mb uint64
	if i := strings.Index(n.view["msg"], "Available space is "); i >= 0 {
		fmt.Sscanf(n.view["msg"][i:], "Available space is %d MB", &mb)
	}
	var fs syscall.Statfs_t
	must(syscall.Statfs(o.sar, &fs))
	now := uint64(fs.Bsize) * fs.Bavail / 1024 / 1024
	if mb+now/10+4096 < now || mb > now+now/10+4096 {
		c.Fail("space", "%s: it shows %d MB available, there are %d MB", desc, mb, now)
		return
	}
	// Where it is
	wd, err := os.Readlink(fmt.Sprintf("/proc/%d/cwd", n.cmd.Process.Pid))
	must(err)
	real, err := filepath.EvalSymlinks(o.sar)
	must(err)
	if wd != real {
		c.Fail("directory", "%s: it runs in %s, not in %s", desc, wd, real)
		return
	}
	if nt.v6 {
		for fam, g := range map[int]string{4: g4, 6: g6} {
			if k := bound29(fam, port); k != 1 {
				c.Fail("bound", "%s: %d sockets are bound to the port over IPv%d", desc, k, fam)
				return
			}
			if !joined29(o.iface, net.ParseIP(g)) {
				c.Fail("joined", "%s: it has not joined %s", desc, g)
				return
			}
		}
	}
	// Whom it hears
	seen := func(s string) func() bool {
		return func() bool { return strings.Contains(n.view["packet"], s) }
	}
	var dead []string
	type way struct {
		name string
		send func(b []byte) error
	}
	var ways []way
	for _, a := range []string{"127.0.0.1", "::1"} {
		a := a
		ways = append(ways, way{a, func(b []byte) error { return ucast29(a, port, b) }})
	}
	if nt.v6 && o.iface != "lo" {
		ways = append(ways, way{g4, func(b []byte) error { return mcast29(ifi.Index, net.ParseIP(g4), port, addr21(nt, 4, 2+r.Intn(90)), b) }},
			way{g6, func(b []byte) error { return mcast29(ifi.Index, net.ParseIP(g6), port, addr21(nt, 6, 2+r.Intn(30)), b) }},
			way{"10.9.0.1", func(b []byte) error { return ucast29("10.9.0.1", port, b) }}, way{"fd09::1", func(b []byte) error { return ucast29("fd09::1", port, b) }})
	}
	for i, w := range ways {
		if r.Intn(2) == 0 { // Another port
			e := fmt.Sprintf("deaf-%d.", i)
			p := pick2(r, port+1, port-1, 7542, 7543).(int)
			if p != port {
				if ucast29("127.0.0.1", p, beacon21(e)) == nil {
					dead = append(dead, e)
				}
			}
		}
		e := fmt.Sprintf("heard-%d.", i)
		if err := w.send(beacon21(e)); err != nil {
			fatal("cannot send to %s: %v", w.name, err)
		}
		if !n.until(patience, seen(e)) {
			n.why(c, "deaf", fmt.Sprintf("%s: a beacon to %s at port %d is not taken; errors %q", desc, w.name, port, trunc2(n.view["err"])))
			return
		}
		c.Obs("heard")
	}
	for _, e := range dead {
		if seen(e)() {
			c.Fail("port", "%s: a beacon to another port was taken", desc)
			return
		}
	}
	// How much it takes
	to := pick(r, "127.0.0.1", "::1")
	if max := ifi.MTU - 60; max <= 65400 {
		for i := 0; i < 2; i++ {
			h := refSet(refSet(refSet(0, "version", "v1"), "frametype", "data"), "descriptor", "d64")
			s := r.Uint32() | 1<<31
			b := refData(h, s, nil, 77, nil)
			size := max + i
			if r.Intn(3) == 0 {
				size = pick2(r, max-1, max-100, max+2, max+99, max+100, max+101, max+1000).(int)
			}
			b = append(b, randBytes(r, size-len(b))...)
			from := len(n.view["err"])
			must(ucast29(to, port, b))
			mark := fmt.Sprintf("mark-%d.", i)
			must(ucast29(to, port, beacon21(mark))) // By the same listener, after it
			if !n.until(patience, seen(mark)) {
				n.why(c, "stuck", fmt.Sprintf("%s: a beacon after a frame of %d bytes is not taken", desc, size))
				return
			}
			sess := fmt.Sprint(s)
			if size <= max {
				c.Obs("largest")
				if !n.until(patience, seen(sess)) {
					c.Fail("largest", "%s: a data frame of %d bytes over an MTU of %d is not shown; errors %q", desc, size, ifi.MTU, trunc2(n.view["err"]))
					return
				}
			} else {
				c.Obs("toolarge")
				if !n.until(patience, func() bool { return len(n.view["err"]) > from }) || seen(sess)() {
					c.Fail("toolarge", "%s: a data frame of %d bytes over an MTU of %d: shown %v errors %q", desc, size, ifi.MTU, seen(sess)(), n.view["err"][from:])
					return
				}
			}
		}
	}
	// Whose files it handles
	f := fmt.Sprintf("f%d", r.Intn(3))
	h := refSet(refSet(refSet(0, "version", "v1"), "frametype", "request"), "descriptor", "d32")
	h = refSet(refSet(refSet(refSet(h, "rxwilling", "yes"), "txwilling", "yes"), "fileordir", "file"), "reqtype", "delete")
	s := r.Uint32() | 1<<31
	must(ucast29(to, port, refRequest(h, s, f, nil)))
	if !n.until(patience, func() bool { return strings.Contains(n.view["msg"], fmt.Sprint(s)) }) {
		n.why(c, "request", fmt.Sprintf("%s: a request is not answered; errors %q", desc, trunc2(n.view["err"])))
		return
	}
	delete(want, filepath.Join("sar", f))
	c.Obs("deleted")
	n.quit(c)
	got, err := treeOf(filepath.Join(dir, "deep"))
	must(err)
	if d := treeDiff(got, want); d != "" {
		c.Fail("files", "%s: a request to delete %s: %s; messages %q", desc, f, d, trunc2(n.view["msg"]))
		return
	}
	got, err = treeOf(filepath.Join(dir, "other"))
	must(err)
	if d := treeDiff(got, want2); d != "" {
		c.Fail("files", "%s: another directory changed: %s", desc, d)
		return
	}
	c.Sig("%s", desc)
}

func stat29(f string) os.FileInfo {
	i, err := os.Stat(f)
	must(err)
	return i
}

// bound29: how many sockets are bound to the port on all addresses
func bound29(fam, port int) (k int) {
	f, any := "/proc/net/udp", "00000000"
	if fam == 6 {
		f, any = "/proc/net/udp6", "00000000000000000000000000000000"
	}
	b, _ := os.ReadFile(f)
	for _, l := range strings.Split(string(b), "\n") {
		w := strings.Fields(l)
		if len(w) > 2 && w[1] == fmt.Sprintf("%s:%04X", any, port) {
			k++
		}
	}
	return
}

func joined29(iface string, ip net.IP) bool {
	if v4 := ip.To4(); v4 != nil {
		b, _ := os.ReadFile("/proc/net/igmp")
		on := ""
		want := fmt.Sprintf("%08X", binary.LittleEndian.Uint32(v4))
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 3 && w[2] == ":" {
				on = w[1]
			} else if len(w) > 3 && strings.HasPrefix(w[2], ":") {
				on = w[1]
			} else if len(w) > 0 && w[0] == want && strings.TrimSuffix(on, ":") == iface {
				return true
			}
		}
		return false
	}
	b, _ := os.ReadFile("/proc/net/igmp6")
	for _, l := range strings.Split(string(b), "\n") {
		w := strings.Fields(l)
		if len(w) > 2 && w[1] == iface && w[2] == hex.EncodeToString(ip.To16()) {
			return true
		}
	}
	return false
}

// net29: several nodes on one network
func net29(c *Case) {
	r := c.R
	nt := c.Data.(*c21net)
	dir := dir29(c)
	g4, g6 := groups29(r)
	for strings.HasPrefix(g6, "ff05") { // The routing table says by which interface the wider groups go
		g4, g6 = groups29(r)
	}
	port := 7542
	if r.Intn(2) == 0 {
		port = 10000 + r.Intn(20000)
	}
	count, interval := 1, 0
	if r.Intn(4) == 0 {
		count, interval = 2, 1
	}
	var nodes []*node
	var ports []int
	for i, m := 0, 2+r.Intn(2); i < m; i++ {
		sar := filepath.Join(dir, fmt.Sprint("sar", i))
		must(os.Mkdir(sar, 0755))
		p := port
		if i == 2 {
			p = port + 1
		}
		o := opt29{name: fmt.Sprint("node", i), iface: nt.iface, cwd: dir, sar: sar, sardir: sar, change: map[string]interface{}{"udpport": p, "v4multicast": g4, "v6multicast": g6, "prompt": "p", "bcount": count}}
		timeouts29(o.change, "binterval", interval)
		nodes = append(nodes, start29(c, o))
		ports = append(ports, p)
		defer nodes[i].close()
	}
	for _, n := range nodes {
		if !n.up(c, "p") {
			return
		}
	}
	c.Obs("net")
	desc := fmt.Sprintf("%d nodes, groups %s %s, ports %v", len(nodes), g4, g6, ports)
	who := r.Intn(2)
	from := nodes[who]
	eid := fmt.Sprintf("-%d\n", from.cmd.Process.Pid)
	var old [3]int
	eids := func(i int) int { return strings.Count(nodes[i].view["packet"]+"\n", eid) }
	ok := func(m *node, f func() bool, what string) bool {
		if !m.until(patience, f) {
			m.why(c, "unheard", fmt.Sprintf("%s: %s; shown %q messages %q errors %q; the sender says %q %q", desc, what, trunc2(m.view["packet"]), trunc2(m.view["msg"]), trunc2(m.view["err"]), trunc2(from.view["msg"]), trunc2(from.view["err"])))
			return false
		}
		return true
	}
	for round := 0; round < 2; round++ {
		fam := pick(r, "v4", "v6")
		if !from.typed("beacon " + fam) {
			from.why(c, "command", desc+": no prompt after beacon "+fam)
			return
		}
		for i, m := range nodes {
			m := m
			i := i
			if ports[i] != port || i == who {
				continue
			}
			if !ok(m, func() bool { return eids(i) >= old[i]+count }, fmt.Sprintf("a beacon %s of node %d (%q) is not shown by node %d", fam, who, eid, i)) {
				return
			}
			c.Obs("heard")
		}
		// All there is by now
		for i, m := range nodes {
			e := fmt.Sprintf("sync-%d-%d.", round, i)
			g := g4
			var src net.IP = addr21(nt, 4, 3)
			if fam == "v6" {
				g, src = g6, addr21(nt, 6, 3)
			}
			ifi, err := net.InterfaceByName(nt.iface)
			must(err)
			must(mcast29(ifi.Index, net.ParseIP(g), ports[i], src, beacon21(e)))
			if !ok(m, func() bool { return strings.Contains(m.view["packet"], e) }, fmt.Sprintf("a beacon to %s is not shown by node %d", g, i)) {
				return
			}
			switch k := eids(i) - old[i]; {
			case ports[i] != port && k > 0:
				c.Fail("otherport", "%s: node %d shows %d beacons of a node at another port", desc, i, k)
				return
			case ports[i] != port:
				c.Obs("nothere")
			case i != who && k != count:
				c.Fail("count", "%s: node %d shows %d beacons of node %d, %d were asked for", desc, i, k, who, count)
				return
			}
			old[i] = eids(i)
		}
	}
	for _, n := range nodes {
		n.quit(c)
	}
	c.Sig("%s %d", desc, who)
}

func timeouts29(change map[string]interface{}, k string, v int) {
	b, err := os.ReadFile(os.Getenv("VMON_CONF"))
	must(err)
	var j map[string]interface{}
	must(json.Unmarshal(b, &j))
	t := j["timeout"].(map[string]interface{})
	t[k] = v
	change["timeout"] = t
}
