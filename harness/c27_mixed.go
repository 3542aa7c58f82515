package main

// C27: what is done at the same time does not mix

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarnet"
)

func init() {
	register(&Prop{ID: "C27", Quick: 12000, Thorough: 200000, Hang: true, Race: true, Init: initConf, Run: runC27,
		Rule: "2-8 goroutines at once each work through their own random list of 1-10 pieces of work (header flags; frames of each kind built, encoded, decoded and printed; hostile bytes; timestamps; values that do not fit; received ranges; files received, sent, checksummed, described by metadata and removed in one directory; addresses parsed; flags taken from the settings), each piece with the same oracle as where it is checked alone: independent expected bytes, values, text and file content. Half of the time all do the same kind of work. Race detector on. Distinct by the lists of work.",
		Need: map[string]int{"piece": 100000, "flags": 3000, "data": 3000, "status": 3000, "request": 3000, "metadata": 3000, "beacon": 3000, "timestamp": 3000, "hostile": 3000, "ranges": 1000, "file": 1000, "checksum": 1000, "describe": 1000, "address": 1000, "settings": 1000, "samekind": 3000}})
}

type piece struct {
	name string
	run  func(c *Case)
}

var pieces = []piece{
	{"flags", runC01}, {"data", runC02}, {"status", runC03}, {"request", runC04}, {"metadata", runC05}, {"beacon", runC06},
	{"timestamp", runC07}, {"hostile", runC08}, {"nofit", runC09}, {"ranges", runC10}, {"file", fileC27}, {"checksum", runC14},
	{"describe", runC15}, {"address", addressC27}, {"settings", settingsC27}}

func runC27(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir, "sar")
	must(os.MkdirAll(filepath.Join(dir, "d"), 0755))
	setSardir(dir)
	n := 2 + r.Intn(7)
	var only *piece
	if r.Intn(2) == 0 {
		only = &pieces[r.Intn(len(pieces))]
		c.Obs("samekind")
	}
	trace := ""
	start := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		var todo []piece
		var seeds []int64
		for k := 1 + r.Intn(10); k > 0; k-- {
			p := pieces[r.Intn(len(pieces))]
			if only != nil {
				p = *only
			}
			todo = append(todo, p)
			seeds = append(seeds, r.Int63())
			trace += p.name + " "
		}
		trace += fmt.Sprintf("%x; ", seeds[0])
		pre := fmt.Sprintf("g%d-", g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, p := range todo {
				sub := &Case{Worker: c.Worker, I: c.I, R: rand.New(rand.NewSource(seeds[i])), Pre: pre}
				c.Obs("piece")
				c.Obs(p.name)
				p.run(sub)
				if sub.Bad() {
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Sig("%s", trace)
	if c.Wants() {
		c.Sample(trunc(trace, 400))
	}
}

// fileC27: a file is received, checked, sent and removed
func fileC27(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir, "sar")
	name := c.Pre + fileName(r)
	if r.Intn(3) == 0 {
		name = "d/" + name
	}
	b := fileContent(r, r.Intn(3000))
	defer os.Remove(filepath.Join(dir, name))
	fp, err := fileio.FileOpen(name, pick(r, "get", "take"))
	if err != nil {
		c.Fail("open", "new file %q: %v", name, err)
		return
	}
	defer fp.Close()
	chunk := 1 + r.Intn(500)
	var at []int
	for o := 0; o < len(b); o += chunk {
		at = append(at, o)
	}
	r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
	var fills holes.Holes
	for _, o := range at {
		e := min(o+chunk, len(b))
		if n, err := fileio.FileWrite(fp, uint64(o), b[o:e]); err != nil || n != e-o {
			c.Fail("write", "writing %d bytes at %d of %q: %d, %v", e-o, o, name, n, err)
			return
		}
		fills = fills.Add(o, e)
		if r.Intn(4) == 0 {
			runtime.Gosched()
		}
	}
	if len(b) > 0 && (len(fills) != 1 || fills[0] != (holes.Hole{Start: 0, End: len(b)}) || fills.Lenholes() != 0) {
		c.Fail("ranges", "all %d bytes received but the ranges are %v", len(b), fills)
		return
	}
	if _, err := fileio.FileOpen(name, "get"); err == nil {
		c.Fail("open", "%q is received twice", name)
		return
	}
	if got, err := os.ReadFile(filepath.Join(dir, name)); err != nil || !bytes.Equal(got, b) {
		c.Fail("write", "%q has %d bytes, %v: not the %d written", name, len(got), err, len(b))
		return
	}
	t := pick(r, "crc32", "md5", "sha1", "none")
	if got, err := fileio.Checksum(t, name); err != nil || !bytes.Equal(got, refSum(t, b)) {
		c.Fail("checksum", "%s of %q is %x, %v want %x", t, name, got, err, refSum(t, b))
		return
	}
	if m, err := fileio.FileMeta(name); err != nil || m == nil || m.Size != int64(len(b)) {
		c.Fail("meta", "metadata of %q with %d bytes: %+v, %v", name, len(b), m, err)
		return
	}
	sp, err := fileio.FileOpen(name, pick(r, "put", "give", "putblind"))
	if err != nil {
		c.Fail("open", "%q cannot be sent: %v", name, err)
		return
	}
	defer sp.Close()
	type got struct {
		o int
		b []byte
	}
	var parts []got
	for _, o := range at {
		n := min(chunk, len(b)-o)
		x, err := fileio.FileRead(sp, uint64(o), n)
		if err != nil || len(x) != n {
			c.Fail("read", "reading %d bytes at %d of %q: %d, %v", n, o, name, len(x), err)
			return
		}
		parts = append(parts, got{o, x})
	}
	for _, p := range parts { // When all are read: each still its own
		if !bytes.Equal(p.b, b[p.o:p.o+len(p.b)]) {
			c.Fail("read", "what was read at %d of %q is not what is there", p.o, name)
			return
		}
	}
	if !fileio.FileExists(name) {
		c.Fail("exists", "%q does not exist", name)
		return
	}
	if err := fileio.FileRm(name); err != nil || fileio.FileExists(name) {
		c.Fail("rm", "removing %q: %v", name, err)
	}
}

func addressC27(c *Case) {
	r := c.R
	var set []net.UDPAddr
	var want []string
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		ip := net.IPv4(byte(1+r.Intn(200)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)))
		if r.Intn(2) == 0 {
			ip = net.IP(randBytes(r, 16))
			ip[0] = 0x20
		}
		a, err := sarnet.UDPAddress(ip.String())
		if err != nil || a == nil || !a.IP.Equal(ip) || a.Port != sarflags.Cliflag.Port {
			c.Fail("address", "%s is taken as %v, %v", ip, a, err)
			return
		}
		set = append(set, *a)
		want = append(want, a.String())
	}
	k := r.Intn(len(set))
	set = sarnet.RemoveUDPAddrValue(set, &net.UDPAddr{IP: append(net.IP{}, set[k].IP...), Port: set[k].Port})
	want = append(want[:k:k], want[k+1:]...)
	got := ""
	for i := range set {
		got += set[i].String() + " "
	}
	if w := strings.Join(append(want, ""), " "); got != w {
		c.Fail("address", "after removing one the addresses are %s want %s", got, w)
	}
}

func settingsC27(c *Case) {
	r := c.R
	cl := *c.Data.(*sarflags.Cliflags)
	cl.Global = map[string]string{}
	for k, v := range c.Data.(*sarflags.Cliflags).Global {
		cl.Global[k] = v
	}
	cl.Global["descriptor"] = pick(r, "d16", "d32", "d64")
	cl.Global["csumtype"] = pick(r, "none", "crc32", "md5", "sha1")
	cl.Global["txwilling"] = pick(r, "yes", "no", "capable")
	cl.Bcount = uint(r.Intn(1000))
	cp, err := cl.CopyCliflags()
	if err != nil || flagsText(cp) != flagsText(&cl) {
		c.Fail("copy", "the copy of the settings is %+v, %v want %+v", cp, err, cl)
		return
	}
	for _, f := range []string{"beacon", "request", "metadata", "data", "status"} {
		fs := "," + sarflags.Setglobal(f, cp) + ","
		for _, k := range []string{"descriptor", "csumtype", "txwilling"} {
			has := false
			for _, x := range sarflags.Fields(f) {
				has = has || x == k
			}
			if has != strings.Contains(fs, ","+k+"="+cl.Global[k]+",") || !has && strings.Contains(fs, ","+k+"=") {
				c.Fail("setglobal", "the %s flags are %s, %s is %s", f, fs, k, cl.Global[k])
				return
			}
		}
	}
}

func flagsText(c *sarflags.Cliflags) string { return fmt.Sprintf("%+v", *c) }
