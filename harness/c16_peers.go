package main

// C16: the peers learned from beacons

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/timestamp"
)

func init() {
	register(&Prop{ID: "C16", Quick: 36000, Thorough: 400000, Hang: true, Race: true, Init: initConf, Run: runC16,
		Rule: "random histories of beacons (decoded from real frames; new, repeated and changed in one field; v4 and v6 addresses, alike in part, several ports of one address, up to about 600 peers) fed to the peer table and a model of it: after every beacon the table must have one entry per address that ever sent one, in order of arrival, each with what its latest beacon said, and the answer must say whether anything was learned. One case in three has 2-12 goroutines deliver beacons at once while others list the peers; each list must hold each address at most once with the values of one beacon as a whole, and the final table must be explained by some order of the beacons. Run under the race detector. Distinct by the history.",
		Need: map[string]int{"beacon": 20000, "new": 5000, "changed": 3000, "same": 2000, "v6": 1000, "otherport": 1000, "concurrent": 1000, "listed": 1000, "onlyone": 500, "crowd": 30, "multitude": 3}})
}

type peerval struct {
	eid, desc, rx, tx string
	free              uint64
}

// bcnOf: a real beacon saying v
func bcnOf(r *rand.Rand, v peerval, adv bool) beacon.Beacon {
	h := refSet(refSet(refSet(refSet(refSet(0, "version", "v1"), "frametype", "beacon"), "descriptor", v.desc), "rxwilling", v.rx), "txwilling", v.tx)
	if adv || v.free > 0 {
		d := []string{"d64"}
		if v.free < 1<<32 {
			d = append(d, "d32")
		}
		if v.free < 1<<16 {
			d = append(d, "d16")
		}
		h = refSet(refSet(h, "freespace", "yes"), "freespaced", d[r.Intn(len(d))])
	}
	var b beacon.Beacon
	if err := b.Decode(refBeacon(h, v.free, v.eid)); err != nil {
		fatal("beacon: %v", err)
	}
	return b
}

var longEid = strings.Repeat("long", 60)

func randBeacon(r *rand.Rand) (peerval, beacon.Beacon) {
	v := peerval{eid: fmt.Sprintf("10.0.0.%d:7542-%d", r.Intn(3), r.Intn(3)), desc: pick(r, "d16", "d32", "d64"),
		rx: pick(r, "yes", "no", "capable"), tx: pick(r, "yes", "no", "capable")}
	switch r.Intn(8) {
	case 0, 1, 2, 3:
		v.eid = "e"
	case 4:
		v.eid = pick(r, "E", "e1", "ee", "10.0.0.1:7542-11", "10.0.0.1:7542", "[fe80::1]:7542-1", "h\u00f4te-1", "h\u00f4te-2", longEid+"1", longEid+"2", longEid)
	}
	adv := r.Intn(3) > 0
	if adv {
		v.free = uint64(r.Intn(3))
		if r.Intn(3) == 0 {
			v.free += []uint64{1 << 8, 1 << 16, 1<<16 - 2, 1 << 20, 1 << 24, 1 << 31, 1<<32 - 2, 1 << 32, 1 << 40, 1 << 53, 1 << 62, 1 << 63, 1<<64 - 3}[r.Intn(13)]
		}
	}
	return v, bcnOf(r, v, adv)
}

func valOf(p *beacon.Peer) peerval {
	return peerval{p.Eid, p.Maxdesc, p.Canrx, p.Cantx, p.Freespace}
}

func randAddr(r *rand.Rand, c *Case, n int) *net.UDPAddr {
	k := r.Intn(n)
	a := &net.UDPAddr{Port: 7542}
	if r.Intn(3) == 0 {
		a.Port = 1024 + r.Intn(5)
		c.Obs("otherport")
	}
	h, l := byte(k>>8), byte(k)
	switch k % 8 {
	case 0:
		a.IP = net.IPv4(10, 0, h, l)
	case 1:
		a.IP = net.ParseIP(fmt.Sprintf("fe80::%x", k))
	case 2:
		a.IP = net.IPv4(10, 0, h, 10+l) // Another may be a prefix of its text
	case 3:
		a.IP = net.IPv4(192, 168, l, 1+h)
	case 4:
		a.IP = net.IPv4(l, 1, h, 10)
	case 5:
		a.IP = net.ParseIP(fmt.Sprintf("%x::1", 0x2001+k)) // Only the front differs
	case 6:
		a.IP = net.ParseIP(fmt.Sprintf("fe80::%x:1", k-5)) // Starts like others
	default:
		a.IP = net.ParseIP(fmt.Sprintf("::a00:%x", k-7)) // Ends like 10.0.x.x
	}
	if v4 := a.IP.To4(); v4 == nil {
		c.Obs("v6")
	} else if r.Intn(2) == 0 {
		a.IP = v4 // 4 byte form
	} else {
		a.IP = v4.To16()
	}
	return a
}

func runC16(c *Case) {
	r := c.R
	beacon.Peers = nil
	if r.Intn(3) == 0 {
		concC16(c)
		return
	}
	if r.Intn(3000) == 0 {
		multitudeC16(c)
		return
	}
	type mpeer struct {
		addr             string
		v                peerval
		created, updated timestamp.Timestamp
		at               time.Time
	}
	var model []*mpeer
	by := map[string]*mpeer{}
	trace := ""
	k, naddr := 1+r.Intn(30), 1+r.Intn(16)
	if r.Intn(200) == 0 { // A crowd
		k, naddr = 100+r.Intn(500), 50+r.Intn(1000)
		c.Obs("crowd")
	}
	for i := 0; i < k; i++ {
		a := randAddr(r, c, 1+r.Intn(naddr))
		v, b := randBeacon(r)
		ip := a.IP.String()
		if m := by[ip]; m != nil && r.Intn(3) == 0 { // The same again, or one field different
			old := m.v
			fr := r.Intn(7)
			switch fr {
			case 0:
				old.eid = v.eid
			case 1:
				old.desc = v.desc
			case 2:
				old.rx = v.rx
			case 3:
				old.tx = v.tx
			case 4:
				old.free = v.free
			}
			v = old
			b = bcnOf(r, v, r.Intn(2) == 0)
		}
		c.Obs("beacon")
		if m := by[ip]; m != nil {
			for time.Since(m.at) < 20*time.Microsecond { // So that the times differ
			}
		}
		before := time.Now()
		got := beacon.NewPeer(&b, a)
		want := false
		m := by[ip]
		switch {
		case m == nil:
			c.Obs("new")
			want = true
			m = &mpeer{addr: ip}
			by[ip] = m
			model = append(model, m)
		case m.v != v:
			c.Obs("changed")
			want = true
		default:
			c.Obs("same")
		}
		m.v = v
		trace += fmt.Sprintf("%s %v;", a, v)
		if got != want {
			c.Fail("answer", "beacon %+v from %v is answered %v want %v; history %s", v, a, got, want, trunc(trace, 600))
			return
		}
		if len(beacon.Peers) != len(model) {
			c.Fail("table", "%d peers after beacons from %d addresses; history %s", len(beacon.Peers), len(model), trunc(trace, 600))
			return
		}
		for j := range beacon.Peers {
			p := &beacon.Peers[j]
			q := by[p.Addr]
			if q == nil {
				c.Fail("table", "peer %q never sent a beacon; history %s", p.Addr, trunc(trace, 600))
				return
			}
			if q != model[j] {
				c.Fail("order", "peer %d is %s, by order of arrival it is %s; history %s", j, p.Addr, model[j].addr, trunc(trace, 600))
				return
			}
			if valOf(p) != q.v {
				c.Fail("table", "peer %s is kept as %+v but last said %+v; history %s", p.Addr, valOf(p), q.v, trunc(trace, 600))
				return
			}
			switch {
			case q != m || !want:
				if p.Created != q.created || p.Updated != q.updated {
					c.Fail("times", "peer %s has times %s %s, had %s %s, with no news from it", p.Addr, p.Created.Print(), p.Updated.Print(), q.created.Print(), q.updated.Print())
					return
				}
			default:
				if q.created != (timestamp.Timestamp{}) && p.Created != q.created {
					c.Fail("times", "peer %s was first seen at %s, now %s", p.Addr, q.created.Print(), p.Created.Print())
					return
				}
				if p.Updated == q.updated {
					c.Fail("times", "peer %s still updated at %s after news from it", p.Addr, p.Updated.Print())
					return
				}
				q.created, q.updated = p.Created, p.Updated
				q.at = time.Now()
				s := int64(p.Updated.Secs())
				if s < before.Unix()-1 || s > time.Now().Unix()+1 {
					c.Fail("times", "peer %s updated at %d, it is %d", p.Addr, s, before.Unix())
					return
				}
			}
		}
		l := beacon.PeerList()
		if len(l) != len(model) {
			c.Fail("list", "%d peers listed, %d known", len(l), len(model))
			return
		}
		for j := range l {
			if l[j] != beacon.Peers[j] {
				c.Fail("list", "peer %d is listed as %+v, it is %+v", j, l[j], beacon.Peers[j])
				return
			}
		}
	}
	c.Sig("%s", trace)
	if c.Wants() {
		c.Sample(trunc(trace, 400))
	}
}

// Beacons on several listeners at once
// multitudeC16: thousands of peers; the table is looked at when all have spoken
func multitudeC16(c *Case) {
	r := c.R
	c.Obs("multitude")
	var order []string
	said := map[string]peerval{}
	n := 4000 + r.Intn(1000)
	for i := 0; i < n; i++ {
		a := randAddr(r, c, 60000)
		v, b := randBeacon(r)
		ip := a.IP.String()
		old, known := said[ip]
		if got, want := beacon.NewPeer(&b, a), !known || old != v; got != want {
			c.Fail("answer", "beacon %d of many, %+v from %v, is answered %v want %v", i, v, a, got, want)
			return
		}
		if !known {
			order = append(order, ip)
		}
		said[ip] = v
		if r.Intn(10) == 0 { // One that was heard long ago
			a = &net.UDPAddr{IP: net.ParseIP(order[r.Intn(len(order))]), Port: 7542}
			ip = a.IP.String()
			v, b = randBeacon(r)
			if got, want := beacon.NewPeer(&b, a), said[ip] != v; got != want {
				c.Fail("answer", "beacon %+v from the known %v, one of %d, is answered %v want %v", v, a, len(order), got, want)
				return
			}
			said[ip] = v
		}
	}
	l := beacon.PeerList()
	if len(l) != len(order) || len(beacon.Peers) != len(order) {
		c.Fail("table", "%d peers listed, %d in the table after beacons from %d", len(l), len(beacon.Peers), len(order))
		return
	}
	for i := range l {
		if l[i].Addr != order[i] || valOf(&l[i]) != said[order[i]] || l[i] != beacon.Peers[i] {
			c.Fail("table", "peer %d of %d is %+v, should be %s with %+v", i, len(l), l[i], order[i], said[order[i]])
			return
		}
	}
	c.Sig("multitude %d", n)
}

func concC16(c *Case) {
	r := c.R
	c.Obs("concurrent")
	n := 2 + r.Intn(11)
	naddr := 1 + r.Intn([]int{4, 4, 16}[r.Intn(3)])
	same := r.Intn(3) == 0 // Everybody delivers the same beacon of the same new peer
	type msg struct {
		a *net.UDPAddr
		v peerval
		b beacon.Beacon
	}
	hist := make([][]msg, n)
	var first msg
	first.v, first.b = randBeacon(r)
	first.a = randAddr(r, c, naddr)
	last := map[string]map[peerval]bool{} // What may be the last word of an address
	all := map[string]map[peerval]bool{}
	for g := range hist {
		k := 1 + r.Intn(6)
		if same {
			k = 1
		}
		mine := map[string]peerval{}
		for i := 0; i < k; i++ {
			m := first
			if !same {
				m.a = randAddr(r, c, naddr)
				m.v, m.b = randBeacon(r)
			}
			hist[g] = append(hist[g], m)
			ip := m.a.IP.String()
			mine[ip] = m.v
			if all[ip] == nil {
				all[ip] = map[peerval]bool{}
			}
			all[ip][m.v] = true
		}
		for ip, v := range mine {
			if last[ip] == nil {
				last[ip] = map[peerval]bool{}
			}
			last[ip][v] = true
		}
	}
	var news int64
	var wg sync.WaitGroup
	start := make(chan bool)
	stop := make(chan bool)
	for g := range hist {
		wg.Add(1)
		go func(ms []msg) {
			defer wg.Done()
			<-start
			for i := range ms {
				if beacon.NewPeer(&ms[i].b, ms[i].a) {
					atomic.AddInt64(&news, 1)
				}
				runtime.Gosched()
			}
		}(hist[g])
	}
	var lw sync.WaitGroup
	var badlist atomic.Value
	for k := 0; k < 2; k++ {
		lw.Add(1)
		go func() {
			defer lw.Done()
			var was []string // Who was there before, and in which order
			for {
				seen := map[string]bool{}
				l := beacon.PeerList()
				if len(l) < len(was) {
					badlist.Store(fmt.Sprintf("%+v, before %q", l, was))
				}
				for i := range l {
					if i < len(was) && was[i] != l[i].Addr {
						badlist.Store(fmt.Sprintf("%+v, before %q", l, was))
					}
					if i >= len(was) {
						was = append(was, l[i].Addr)
					}
					if seen[l[i].Addr] || !all[l[i].Addr][valOf(&l[i])] {
						badlist.Store(fmt.Sprintf("%+v", l))
					}
					seen[l[i].Addr] = true
				}
				c.Obs("listed")
				select {
				case <-stop:
					return
				default:
					runtime.Gosched()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	close(stop)
	lw.Wait()
	if b := badlist.Load(); b != nil {
		c.Fail("list", "a list of peers with an address twice or gone or elsewhere, or mixed beacons: %v", b)
	}
	if len(beacon.Peers) != len(all) {
		c.Fail("table", "%d peers after concurrent beacons from %d addresses: %+v", len(beacon.Peers), len(all), beacon.Peers)
		return
	}
	for i := range beacon.Peers {
		p := &beacon.Peers[i]
		if !last[p.Addr][valOf(p)] {
			c.Fail("table", "peer %s is kept as %+v, which is no last word of it: %v", p.Addr, valOf(p), last[p.Addr])
			return
		}
	}
	if same {
		c.Obs("onlyone")
		if news != 1 {
			c.Fail("answer", "%d of %d identical beacons of a new peer are told to be news", news, n)
		}
	}
	c.Sig("%d %v %v", n, first.a, hist)
}
