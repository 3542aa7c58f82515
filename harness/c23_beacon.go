//go:build ui

package main

// C23: the beacon command puts on the wire what it should, where it should

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarnet"
	"github.com/charlesetsmith/saratoga/sarwin"
)

func init() {
	register(&Prop{ID: "C23", Quick: 3000, Thorough: 60000, Hang: true, Race: true, Nobody: true, Netns: true, Init: initC23, Run: runC23,
		Rule:   "beacon commands (one to four addresses, IPv4 and IPv6, the multicast groups, invalid ones in between, repeated ones, off) under random settings, count and interval, on a network with a receiver on every address. The monitor reads all receivers: exactly the addressed ones get beacons, as many as the count (with interval 0 one is also right), each byte for byte a beacon with the current flags, the free space of the file system and the sender's own address and process as identifier. One case in five issues several beacon commands at once. Also the address helpers: what is parsed is the address given at the Saratoga port, removing removes exactly the equal ones. Race detector on. Distinct by the history.",
		Assume: []string{"without leave to make a network namespace only unicast is exercised"},
		Need:   map[string]int{"command": 3000, "beacon": 5000, "v4": 500, "freespace": 500, "nofreespace": 500, "invalid": 300, "off": 100, "concurrent": 300, "several": 500, "repeated": 100, "address": 500, "removed": 300, "otherport": 2000, "mapped": 50, "meanwhile": 5, "many": 30}})
}

type rx23 struct {
	key  string // What the command line says
	port int
	addr string
	c    *net.UDPConn
}

type net23 struct {
	rx []*rx23
}

// The port is a setting too
var ports23 = []int{7542, 9001}

func (n *net23) at(port int) (l []*rx23) {
	for _, x := range n.rx {
		if x.port == port {
			l = append(l, x)
		}
	}
	return
}

func initC23(w *Worker) {
	initUI(w)
	n := &net23{}
	ns := os.Getenv("VMON_NETNS") == "yes"
	if ns {
		b := "link set lo up\nlink add v0 type veth peer name v1\nlink set v0 up\nlink set v1 up\naddr add 10.9.0.1/16 dev v0\nroute add 224.0.0.0/4 dev v0\n"
		for i := 1; i <= 4; i++ {
			b += fmt.Sprintf("addr add fd09::%x/64 dev v0 nodad\n", i)
		}
		cmd := exec.Command("ip", "-batch", "-")
		cmd.Stdin = strings.NewReader(b)
		if err := cmd.Run(); err != nil {
			giveup23(err)
		}
	}
	add1 := func(network, key, a string, port int) {
		var u *net.UDPConn
		addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(a, strconv.Itoa(port)))
		must(err)
		for i := 0; ; i++ {
			if u, err = net.ListenUDP(network, addr); err == nil {
				break
			}
			if i > 50 {
				if ns {
					giveup23(err)
				}
				fatal("cannot listen on %v: %v", addr, err)
			}
			time.Sleep(100 * time.Millisecond)
		}
		u.SetReadBuffer(1 << 20)
		n.rx = append(n.rx, &rx23{key, port, addr.String(), u})
	}
	add := func(network, key, a string) {
		for _, p := range ports23 {
			add1(network, key, a, p)
		}
	}
	p := os.Getpid()
	for i := 1; i <= 6; i++ {
		a := net.IPv4(127, byte(1+p%250), byte(p/250), byte(i)).String()
		add("udp4", a, a)
	}
	if ns {
		add("udp6", "::1", "::1")
		for i := 1; i <= 4; i++ {
			a := fmt.Sprintf("fd09::%x", i)
			add("udp6", a, a)
		}
		ifi, err := net.InterfaceByName("v0")
		must(err)
		for _, g := range []struct{ key, ip, addr string }{{"v4", "224.0.0.108", "224.0.0.108:7542"}, {"v6", "ff02::6c", "[ff02::6c%v0]:7542"}} {
			for _, p := range ports23 {
				u, err := group23(net.ParseIP(g.ip), ifi.Index, p)
				if err != nil {
					giveup23(err)
				}
				n.rx = append(n.rx, &rx23{g.key, p, strings.Replace(g.addr, "7542", strconv.Itoa(p), 1), u})
			}
		}
		for i := 0; ; i++ { // Until it works
			to, _ := net.ResolveUDPAddr("udp", "[ff02::6c%v0]:7542")
			t, err := net.DialUDP("udp", nil, to)
			if err == nil {
				_, err = t.Write([]byte("x"))
				t.Close()
			}
			if err == nil {
				break
			}
			if i > 30 {
				giveup23(err)
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	// Nothing left over
	time.Sleep(50 * time.Millisecond)
	for _, x := range n.rx {
		x.take()
	}
	w.Data = n
	if ns {
		w.Obs("namespace")
	}
}

type got23 struct {
	b    []byte
	from string
}

// take reads what has arrived
func (x *rx23) take() (out []got23) {
	rc, err := x.c.SyscallConn()
	must(err)
	buf := make([]byte, 70000)
	must(rc.Control(func(fd uintptr) {
		for {
			n, from, err := syscall.Recvfrom(int(fd), buf, syscall.MSG_DONTWAIT)
			if err != nil {
				return
			}
			a := net.UDPAddr{}
			switch f := from.(type) {
			case *syscall.SockaddrInet4:
				a.IP, a.Port = net.IP(append([]byte(nil), f.Addr[:]...)), f.Port
			case *syscall.SockaddrInet6:
				a.IP, a.Port = net.IP(append([]byte(nil), f.Addr[:]...)), f.Port
				if f.ZoneId != 0 {
					if ifi, err := net.InterfaceByIndex(int(f.ZoneId)); err == nil {
						a.Zone = ifi.Name
					}
				}
			}
			out = append(out, got23{append([]byte(nil), buf[:n]...), a.String()})
		}
	}))
	return
}

func runC23(c *Case) {
	r := c.R
	n := c.Data.(*net23)
	s := getScreen()
	s.clear()
	if r.Intn(6) == 0 {
		helpers23(c)
	}
	sarflags.Climu.Lock()
	f := sarflags.Cliflag
	f.V6Multicast = "ff02::6c%v0"
	f.Port = ports23[r.Intn(2)]
	port := f.Port
	rx := n.at(port)
	vary := func(k string, o ...string) {
		if r.Intn(2) == 0 {
			f.Global[k] = pick(r, o...)
		}
	}
	vary("descriptor", "d16", "d32", "d64")
	vary("stream", "yes", "no")
	vary("txwilling", "yes", "no", "capable")
	vary("rxwilling", "yes", "no", "capable")
	vary("udplite", "yes", "no")
	vary("freespace", "yes", "no")
	vary("reqtstamp", "yes", "no")
	vary("csumtype", "none", "md5")
	count := 1 + r.Intn(6)
	f.Bcount, f.Timeout.Binterval = uint(count), 0
	conc := r.Intn(5) == 0
	if !conc && r.Intn(150) == 0 {
		count = 2 + r.Intn(2)
		f.Timeout.Binterval, f.Bcount = 1, uint(count)
	}
	many := !conc && f.Timeout.Binterval == 0 && r.Intn(40) == 0
	if many {
		count = 250 + r.Intn(50)
		f.Bcount = uint(count)
		c.Obs("many")
	}
	interval := f.Timeout.Binterval
	h := refSet(refSet(0, "version", "v1"), "frametype", "beacon")
	for _, k := range []string{"descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace"} {
		h = refSet(h, k, f.Global[k])
	}
	sarflags.Climu.Unlock()
	times := map[string]int{}
	var lines, invalid []string
	ncmd := 1
	if conc {
		ncmd = 2 + r.Intn(4)
		c.Obs("concurrent")
	}
	off := false
	for i := 0; i < ncmd; i++ {
		line := "beacon"
		if r.Intn(12) == 0 {
			off = true
			line += " off"
			for j, m := 0, r.Intn(3); j < m; j++ {
				line += " " + rx[r.Intn(6)].key
			}
			lines = append(lines, line)
			c.Obs("off")
			continue
		}
		m := 1
		if r.Intn(2) == 0 && !many {
			m = 2 + r.Intn(3)
			c.Obs("several")
		}
		for j := 0; j < m; j++ {
			if r.Intn(5) == 0 {
				x := pick(r, "nohost", "127.1", "::zz", "5", "1:2:3:4:5:6:7:8:9")
				line += " " + x
				invalid = append(invalid, x)
				c.Obs("invalid")
				continue
			}
			x := rx[r.Intn(len(rx))]
			if many { // Those that cannot lose any
				x = rx[r.Intn(6)]
			}
			k := x.key
			if m > 1 && (k == "v4" || k == "v6") { // The groups by name only on their own
				k = strings.TrimSuffix(strings.TrimPrefix(x.addr, "["), fmt.Sprintf(":%d", port))
				k = strings.TrimSuffix(k, "]")
			}
			line += " " + k
			if times[x.addr]++; times[x.addr] > 1 {
				c.Obs("repeated")
			}
			if strings.Contains(x.addr, "[") {
				c.Obs("v6")
			} else {
				c.Obs("v4")
			}
		}
		lines = append(lines, line)
	}
	_ = off
	before := freeKB()
	var wg sync.WaitGroup
	start := time.Now()
	for _, l := range lines {
		c.Obs("command")
		if !conc || r.Intn(2) == 0 {
			sarwin.Run(s.g, l)
			continue
		}
		wg.Add(1)
		go func(l string) {
			defer wg.Done()
			sarwin.Run(s.g, l)
		}(l)
	}
	wg.Wait()
	early := map[*rx23][]got23{}
	enough := func() {}
	if many { // Close to what a socket holds
		stop, stopped := make(chan bool), make(chan bool)
		go func() {
			defer close(stopped)
			for {
				select {
				case <-stop:
					return
				case <-time.After(200 * time.Microsecond):
				}
				for _, x := range n.rx {
					early[x] = append(early[x], x.take()...)
				}
			}
		}()
		enough = func() { close(stop); <-stopped }
	}
	if interval == 1 && len(times) > 0 && !meanwhile23(c, s, n, early, lines, times, count) {
		return
	}
	done, where := s.settle(60 * time.Second)
	enough()
	if !done {
		c.Fail("stuck", "%q do not end\n%s", lines, where)
		return
	}
	took := time.Since(start)
	after := freeKB()
	errs := s.text("err")
	for _, x := range invalid {
		if !strings.Contains(errs, x) {
			c.Fail("invalid", "%q: no error for %s, the errors are %q", lines, x, errs)
			return
		}
	}
	if len(invalid) == 0 && errs != "" {
		c.Fail("error", "%q: errors %q", lines, errs)
		return
	}
	total := 0
	for _, x := range n.rx {
		want := times[x.addr] * count
		low := want
		if interval == 0 {
			low = times[x.addr]
		}
		got := early[x]
		for end := time.Now().Add(3 * time.Second); ; {
			got = append(got, x.take()...)
			if len(got) >= want || (len(got) >= low && time.Since(start) > took+20*time.Millisecond) || time.Now().After(end) {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if len(got) != want && len(got) != low {
			c.Fail("count", "%q with count %d interval %d: %d beacons to %s, want %d", lines, count, interval, len(got), x.addr, want)
			return
		}
		total += len(got)
		first := map[string]string{}
		for _, g := range got {
			c.Obs("beacon")
			if port != 7542 {
				c.Obs("otherport")
			}
			want := h
			pos := 4
			var free uint64
			if len(g.b) >= 4 && refStr(h, "freespace") == "yes" {
				c.Obs("freespace")
				d := refStr(binary.BigEndian.Uint32(g.b), "freespaced")
				want = refSet(want, "freespaced", d)
				sz, _ := dsize(d)
				if len(g.b) < 4+sz {
					c.Fail("frame", "%q: %d bytes from %s to %s", lines, len(g.b), g.from, x.addr)
					return
				}
				for _, v := range g.b[4 : 4+sz] {
					free = free<<8 | uint64(v)
				}
				pos += sz
				if !nearKB(free, before, after) {
					c.Fail("freespace", "%q: beacon says %d kB free, there are %d", lines, free, after)
					return
				}
			} else {
				c.Obs("nofreespace")
			}
			eid := fmt.Sprintf("%s-%d", g.from, os.Getpid())
			if len(g.b) < pos || binary.BigEndian.Uint32(g.b) != want || string(g.b[pos:]) != eid {
				c.Fail("frame", "%q: beacon %s from %s to %s, want header %08x and identifier %q", lines, hexs(g.b), g.from, x.addr, want, eid)
				return
			}
			if p, ok := first[g.from]; ok && p != string(g.b) {
				c.Fail("frame", "%q: beacons of one series differ: %s and %s", lines, hexs([]byte(p)), hexs(g.b))
				return
			}
			first[g.from] = string(g.b)
		}
	}
	if interval == 1 && total > 0 {
		c.Obs("interval")
		// Two beacons a second apart, at least
		k := 0
		for _, t := range times {
			k += t
		}
		if least := time.Duration(k*(count-1)) * 900 * time.Millisecond; took < least {
			c.Fail("interval", "%q: %d series of %d beacons a second apart took %v", lines, k, count, took)
			return
		}
	}
	c.Sig("%v %x %d", lines, h, count)
	if c.Wants() {
		c.Sample(map[string]interface{}{"commands": lines, "header": fmt.Sprintf("%08x", h), "count": count, "received": total})
	}
}

// meanwhile23: beacons are being sent, a second apart.  Other commands are answered all the same.
func meanwhile23(c *Case, s *screen, n *net23, early map[*rx23][]got23, lines []string, times map[string]int, count int) bool {
	r := c.R
	some := 0
	look := func() int {
		for _, x := range n.rx {
			got := x.take()
			early[x] = append(early[x], got...)
			some += len(got)
		}
		return some
	}
	for end := time.Now().Add(10 * time.Second); look() == 0; time.Sleep(time.Millisecond) {
		if time.Now().After(end) { // None at all is for the caller
			return true
		}
	}
	// The commands come in no order, so they are about different things
	v, will := 1+r.Intn(1000000), pick(r, "on", "off", "capable")
	others := []string{fmt.Sprintf("timeout request %d", v), "txwilling " + will, "checksum", "peers", "timeout transfer 7", "freespace " + pick(r, "yes", "no")}
	for _, l := range others[1+r.Intn(len(others)-1):] {
		sarwin.Run(s.g, l)
	}
	sarwin.Run(s.g, others[0])
	total := 0
	for _, t := range times {
		total += t * count
	}
	before, start := look(), time.Now()
	last, gap := start, time.Duration(0)
	for time.Since(start) < 60*time.Second {
		t := time.Now()
		if d := t.Sub(last); d > gap {
			gap = d
		}
		last = t
		if f := sarflags.Climu.TryLock(); f {
			now := sarflags.Cliflag.Timeout.Request
			sarflags.Climu.Unlock()
			if now == v {
				if look() < total {
					c.Obs("meanwhile")
					return true
				}
				if gap < 200*time.Millisecond { // Else the machine was too busy to tell
					break
				}
				return true
			}
		}
		if n, _, _ := busy(); n == 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	c.Fail("meanwhile", "%q: %q given when %d beacons were sent has no effect before %v, with %d of %d sent", lines, others[0], before, time.Since(start), look(), total)
	return false
}

// spell6: one of the ways to write an IPv6 address
func spell6(r *rand.Rand, ip net.IP) string {
	var p []string
	for i := 0; i < 16; i += 2 {
		p = append(p, fmt.Sprintf(pick(r, "%x", "%04x", "%X"), uint(ip[i])<<8|uint(ip[i+1])))
	}
	switch r.Intn(4) {
	case 0: // All eight groups
		return strings.Join(p, ":")
	case 1: // The last 32 bits as an IPv4 address
		return strings.Join(p[:6], ":") + fmt.Sprintf(":%d.%d.%d.%d", ip[12], ip[13], ip[14], ip[15])
	}
	return ip.String()
}

// helpers23: addresses
func helpers23(c *Case) {
	r := c.R
	for i := 0; i < 5; i++ {
		ip := make(net.IP, pick4or16(r.Intn(2)))
		r.Read(ip)
		if len(ip) == 16 {
			for j := r.Intn(16); j > 0; j-- {
				ip[r.Intn(16)] = 0
			}
		}
		str := ip.String()
		if len(ip) == 16 {
			if ip.To4() != nil {
				continue
			}
			str = spell6(r, ip)
		} else if r.Intn(3) == 0 { // The same host as an IPv6 address
			c.Obs("mapped")
			str = pick(r, "::ffff:", "::FFFF:", "0:0:0:0:0:ffff:") + str
		}
		a, err := sarnet.UDPAddress(str)
		if err != nil || !a.IP.Equal(ip) || a.Port != sarflags.Cliflag.Port {
			c.Fail("address", "UDPAddress(%q) is %v, %v", str, a, err)
			return
		}
		if got, want := sarnet.UDPinfo(a), net.JoinHostPort(ip.String(), strconv.Itoa(a.Port)); got != want {
			c.Fail("address", "UDPinfo of %s:%d is %q", str, a.Port, got)
			return
		}
		c.Obs("address")
	}
	for _, x := range []string{"", "nohost", "1.2", "abc", ":", "::zz", "12345"} {
		if a, err := sarnet.UDPAddress(x); err == nil {
			c.Fail("address", "UDPAddress(%q) is %v", x, a)
			return
		}
	}
	var l, want []net.UDPAddr
	mk := func() net.UDPAddr {
		return net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(3))), Port: 7542 + r.Intn(2)}
	}
	v := mk()
	for i, n := 0, r.Intn(9); i < n; i++ {
		a := mk()
		l = append(l, a)
		if a.String() != v.String() {
			want = append(want, a)
		} else {
			c.Obs("removed")
		}
	}
	keep := append([]net.UDPAddr(nil), l...)
	got := sarnet.RemoveUDPAddrValue(l, &v)
	if len(got) != len(want) || (len(got) > 0 && !reflect.DeepEqual(got, want)) {
		c.Fail("remove", "%v without %v is %v", keep, v, got)
	}
}

func pick4or16(i int) int { return []int{4, 16}[i] }

// group23 listens to a multicast group (bound to the group: unicast is for others)
func group23(ip net.IP, ifi, port int) (*net.UDPConn, error) {
	fam := syscall.AF_INET6
	if ip.To4() != nil {
		fam = syscall.AF_INET
	}
	s, err := syscall.Socket(fam, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	if fam == syscall.AF_INET {
		a := syscall.SockaddrInet4{Port: port}
		m := syscall.IPMreqn{Ifindex: int32(ifi)}
		copy(a.Addr[:], ip.To4())
		copy(m.Multiaddr[:], ip.To4())
		if err = syscall.Bind(s, &a); err == nil {
			err = syscall.SetsockoptIPMreqn(s, syscall.IPPROTO_IP, syscall.IP_ADD_MEMBERSHIP, &m)
		}
	} else {
		a := syscall.SockaddrInet6{Port: port, ZoneId: uint32(ifi)}
		m := syscall.IPv6Mreq{Interface: uint32(ifi)}
		copy(a.Addr[:], ip)
		copy(m.Multiaddr[:], ip)
		if err = syscall.Bind(s, &a); err == nil {
			err = syscall.SetsockoptIPv6Mreq(s, syscall.IPPROTO_IPV6, syscall.IPV6_JOIN_GROUP, &m)
		}
	}
	f := os.NewFile(uintptr(s), "group")
	defer f.Close()
	if err != nil {
		return nil, err
	}
	c, err := net.FilePacketConn(f)
	if err != nil {
		return nil, err
	}
	return c.(*net.UDPConn), nil
}

func giveup23(err error) {
	fmt.Fprintln(os.Stderr, "no network:", err)
	os.Exit(96)
}
