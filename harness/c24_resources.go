//go:build ui

package main

// C24: what is opened is closed and what is locked is unlocked, on every path

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarnet"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/trans"
)

func init() {
	register(&Prop{ID: "C24", Quick: 12000, Thorough: 100000, Hang: true, Race: true, Nobody: true, Init: initC24, Run: runC24,
		Rule: "random histories of file operations, checksums, metadata, transfers begun, refused, repeated and removed (also by command), requests served, beacons sent and configurations read, on good, missing, unreadable and special files. With the garbage collector off, after every operation the monitor lists the process's open descriptors: the files of the directory and the sockets open are exactly those of the transfers in the table and of the files the caller itself has open; and every lock can be taken. One operation in six runs with only none or one descriptor left (EMFILE): it fails cleanly, the table and the directory are as before, and it works again afterwards. One case in five runs operations at once. Race detector on. Distinct by the history.",
		Need: map[string]int{"open": 2000, "checksum": 1500, "metadata": 1500, "begun": 1500, "refused": 1500, "removed": 200, "rmtran": 50, "beacon": 500, "request": 1000, "config": 40, "starved": 1000, "starvedfail": 400, "concurrent": 300, "listing": 20000}})
}

func initC24(w *Worker) {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	// The configuration is read when the program starts
	leak := ""
	dir := filepath.Join(w.Dir, "conf")
	must(os.MkdirAll(dir, 0755))
	good, err := os.ReadFile(os.Getenv("VMON_CONF"))
	must(err)
	for i := 0; i < 40 && leak == ""; i++ {
		fname := filepath.Join(dir, "c.json")
		what := "good"
		switch i % 5 {
		case 0:
			must(os.WriteFile(fname, good, 0644))
		case 1:
			what = "truncated"
			must(os.WriteFile(fname, good[:i*len(good)/41], 0644))
		case 2:
			what = "directory"
			fname = dir
		case 3:
			what = "missing"
			fname += "x"
		case 4:
			what = "wrong"
			must(os.WriteFile(fname, []byte(strings.Replace(string(good), "d32", "d33", 1+i/5)), 0644))
		}
		_, before, _ := fds(dir)
		new(sarflags.Cliflags).ReadConfig(fname)
		w.Obs("config")
		if files, socks, _ := fds(dir); len(files) > 0 || socks != before {
			leak = fmt.Sprintf("after reading a %s configuration %q and %d sockets are open", what, files, socks-before)
		}
	}
	initUI(w)
	w.Data = leak
}

// fds lists the open files below dir and the open sockets
func fds(dir string) (files []string, sockets int, used map[int]bool) {
	d, err := os.Open("/proc/self/fd")
	must(err)
	names, err := d.Readdirnames(-1)
	must(err)
	own := int(d.Fd())
	d.Close()
	used = map[int]bool{}
	for _, n := range names {
		k, _ := strconv.Atoi(n)
		if k == own {
			continue
		}
		l, err := os.Readlink("/proc/self/fd/" + n)
		if err != nil {
			continue
		}
		used[k] = true
		if strings.HasPrefix(l, "socket:") {
			sockets++
		} else if l == dir || strings.HasPrefix(l, dir+"/") {
			files = append(files, strings.TrimSuffix(strings.TrimPrefix(l, dir+"/"), " (deleted)"))
		}
	}
	sort.Strings(files)
	return
}

// starve leaves the process n descriptors; the result lifts it again
func starve(used map[int]bool, n int) func() {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old))
	k := 0
	for ; ; k++ {
		if !used[k] {
			if n == 0 {
				break
			}
			n--
		}
	}
	must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(k), Max: old.Max}))
	return func() { must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)) }
}

func freeLocks() string {
	for i := 0; ; i++ {
		bad := ""
		for n, m := range map[string]*sync.Mutex{"settings": &sarflags.Climu, "transfers": &sarwin.Trmu, "accepted requests": &trans.Trmu} {
			if m.TryLock() {
				m.Unlock()
			} else {
				bad = n
			}
		}
		if bad == "" || i == 200 {
			return bad
		}
		time.Sleep(10 * time.Millisecond)
	}
}

type c24 struct {
	c     *Case
	s     *screen
	sar   string
	names []string
	socks int // Open before
	mine  []*os.File
	trace string
	mu    sync.Mutex
}

func (x *c24) note(f string, a ...interface{}) {
	x.mu.Lock()
	x.trace += fmt.Sprintf(f, a...) + "; "
	x.mu.Unlock()
}

// check compares what is open with what should be
func (x *c24) check() bool {
	c := x.c
	files, socks, _ := fds(x.sar)
	c.Obs("listing")
	var want []string
	wsocks := x.socks
	sarwin.Trmu.Lock()
	for _, t := range sarwin.Transfers {
		if t.Fp != nil {
			want = append(want, t.Filename)
		}
		wsocks++
	}
	sarwin.Trmu.Unlock()
	for _, f := range x.mine {
		n, _ := filepath.Rel(x.sar, f.Name())
		want = append(want, n)
	}
	sort.Strings(want)
	if strings.Join(files, "\n") != strings.Join(want, "\n") {
		c.Fail("files", "files %q are open, want %q; %s", files, want, x.trace)
		return false
	}
	if socks != wsocks {
		c.Fail("sockets", "%d sockets are open, want %d (of transfers %d); %s", socks, wsocks, wsocks-x.socks, x.trace)
		return false
	}
	if m := freeLocks(); m != "" {
		c.Fail("lock", "the lock of the %s is still held; %s", m, x.trace)
		return false
	}
	return true
}

// op does one operation. must: what has to succeed when it can. Returns whether it failed for want of a descriptor
func (x *c24) op(kind int, seed int64, conc bool) {
	c := x.c
	r := rand.New(rand.NewSource(seed))
	name := x.names[r.Intn(len(x.names))]
	peer := &net.UDPAddr{IP: net.IPv4(127, 0, 0, byte(1+r.Intn(3))), Port: 7542}
	switch kind {
	case 0: // Open, use and close
		ttype := pick(r, "get", "put", "take", "give", "putblind", "delete", "bogus")
		x.note("open %s %q", ttype, name)
		fp, err := fileio.FileOpen(name, ttype)
		c.Obs("open")
		if err == nil && fp != nil {
			buf := make([]byte, 10)
			fileio.FileRead(fp, 0, len(buf))
			if ttype == "get" || ttype == "take" {
				fileio.FileWrite(fp, 0, buf)
			}
			if !conc && r.Intn(3) == 0 {
				x.mine = append(x.mine, fp)
				return
			}
			if (ttype == "get" || ttype == "take") && r.Intn(2) == 0 {
				x.note("delete it")
				fileio.FileDelete(fp)
				c.Obs("deleted")
				return
			}
			if err := fileio.FileClose(fp); err != nil {
				c.Fail("close", "closing: %v", err)
			}
		}
	case 1:
		cs := pick(r, "none", "crc32", "md5", "sha1", "bogus")
		x.note("checksum %s %q", cs, name)
		fileio.Checksum(cs, name)
		c.Obs("checksum")
	case 2:
		x.note("metadata %q", name)
		var m metadata.MetaData
		fl := "descriptor=d32,transfer=" + pick(r, "file", "directory", "stream", "bundle") + ",progress=inprogress,reliability=udponly,csumtype=" + pick(r, "none", "crc32", "md5", "sha1")
		m.New(fl, &metadata.Minfo{Session: 1, Fname: name})
		c.Obs("metadata")
		var d dirent.DirEnt
		d.New("descriptor=d32,property=normalfile", name)
		fileio.FileMeta(name)
		fileio.FileExists(name)
	case 3, 4:
		ttype := ttypes[r.Intn(len(ttypes))]
		if r.Intn(20) == 0 {
			ttype = "bogus"
		}
		if r.Intn(8) == 0 { // Cannot be dialled without leave to broadcast
			peer = &net.UDPAddr{IP: net.IPv4bcast, Port: 7542}
		}
		x.note("%s %s %q", ttype, peer, name)
		t, err := sarwin.NewInitiator(x.s.g, ttype, peer, name, sarflags.Cliflag)
		if err == nil && t != nil {
			c.Obs("begun")
		} else {
			c.Obs("refused")
		}
	case 5: // By command: refused ones only, as an accepted one waits for its transfer
		line := pick(r, "put", "give", "putblind") + " 127.0.0.1 missing"
		if r.Intn(3) == 0 {
			line = pick(r, "get", "take") + " 127.0.0.1 f0"
		}
		x.note("%s", line)
		sarwin.Run(x.s.g, line)
		c.Obs("refused")
	case 6:
		sarwin.Trmu.Lock()
		var t *sarwin.Transfer
		if n := len(sarwin.Transfers); n > 0 {
			t = sarwin.Transfers[r.Intn(n)]
		}
		sarwin.Trmu.Unlock()
		if t == nil {
			return
		}
		if r.Intn(3) == 0 {
			x.note("rmtran %s %d", t.Peer, t.Session)
			sarwin.Run(x.s.g, fmt.Sprintf("rmtran %s %d", t.Peer, t.Session))
			c.Obs("rmtran")
		} else {
			x.note("remove %s %d", t.Peer, t.Session)
			if err := t.Remove(); err == nil {
				c.Obs("removed")
			}
			if r.Intn(3) == 0 {
				t.Remove()
			}
		}
	case 7:
		line := "beacon 127.0.0.1"
		switch r.Intn(4) {
		case 0:
			line += " 127.0.0.2 bad 255.255.255.255"
		case 1:
			line = pick(r, "beacon bad", "beacon", "beacon off", "beacon ?", "beacon 255.255.255.255", "beacon ::1 127.0.0.3", "beacon fe80::1")
		}
		x.note("%s", line)
		sarwin.Run(x.s.g, line)
		c.Obs("beacon")
	case 8:
		x.note("request %q", name)
		h := refSet(refSet(refSet(0, "version", "v1"), "frametype", "request"), "descriptor", "d32")
		h = refSet(h, "rxwilling", pick(r, "yes", "yes", "no", "invalid"))
		h = refSet(h, "txwilling", pick(r, "yes", "yes", "no", "invalid"))
		h = refSet(h, "reqtype", pick(r, "get", "put", "take", "give", "delete", "getdir", "noaction"))
		if name == "f0" || name == "d/in" { // Keep some
			h = refSet(h, "reqtype", "get")
		}
		if r.Intn(10) == 0 {
			h = refSet(h, "stream", "yes")
		}
		tx := make(chan interface{}, 10)
		a := *peer
		trans.AddRxTran(x.s.g, &request.Request{Header: h, Session: uint32(r.Intn(20)), Fname: name}, &a, tx)
		if r.Intn(3) == 0 {
			sarwin.NewResponder(x.s.g, request.Request{Header: h, Session: uint32(r.Intn(20)), Fname: name}, pick(r, a.String(), "255.255.255.255:7542", "nonsense"))
		}
		c.Obs("request")
	case 9:
		x.note("commands")
		sarwin.Run(x.s.g, pick(r, "tran", "peers", "checksum md5", "checksum none", "timestamp posix32", "descriptor d32", "timeout", "nonsense", "help", "usage put", "files", "freespace yes", "rxwilling yes", "stream no", "timezone utc", "clear"))
	case 10:
		x.note("list %q", name)
		fileio.FileExists(name)
		sarwin.Info(x.s.g, "")
	case 11:
		x.note("frames")
		var b beacon.Beacon
		b.New("descriptor=d64,freespace=yes,freespaced=d64", &beacon.Binfo{Eid: "x"})
		if conc {
			return
		}
		if conn, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}); err == nil {
			sarnet.SetMulticastLoop(conn)
			conn.Close()
		}
	}
}

func runC24(c *Case) {
	r := c.R
	s := getScreen()
	if l := c.Data.(string); l != "" {
		c.Fail("config", "%s", l)
		return
	}
	if c.I%50 == 0 {
		s.clear()
		runtime.GC()
	}
	setTransfers(nil)
	defer setTransfers(nil)
	trans.Trmu.Lock()
	trans.Transfers = nil
	trans.Trmu.Unlock()
	sar, names := c18Dir(c)
	must(os.WriteFile(filepath.Join(sar, "secret"), []byte("x"), 0000))
	must(syscall.Mkfifo(filepath.Join(sar, "fifo"), 0644))
	sarflags.Climu.Lock()
	sarflags.Cliflag.Timeout.Binterval = 0
	sarflags.Cliflag.Bcount = 1
	sarflags.Climu.Unlock()
	x := &c24{c: c, s: s, sar: sar, names: append(names, "secret", "fifo", "d", "")}
	defer func() {
		for _, f := range x.mine {
			f.Close()
		}
	}()
	_, x.socks, _ = fds(sar)
	wait := func() bool {
		if ok, d := s.settle(20 * time.Second); !ok {
			c.Fail("stuck", "a command does not end: %s; %s", d, x.trace)
			return false
		}
		return true
	}
	if r.Intn(5) == 0 {
		c.Obs("concurrent")
		var wg sync.WaitGroup
		start := make(chan bool)
		for i, n := 0, 2+r.Intn(7); i < n; i++ {
			kind, seed := r.Intn(12), r.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := int64(0); j < 3; j++ {
					x.op((kind+int(j)*5)%12, seed+j, true)
				}
			}()
		}
		close(start)
		wg.Wait()
		if !wait() || c.Bad() || !x.check() {
			return
		}
		c.Sig("%s", x.trace)
		s.flush()
		return
	}
	for i, k := 0, 3+r.Intn(15); i < k; i++ {
		if len(x.mine) > 0 && r.Intn(3) == 0 {
			if err := fileio.FileClose(x.mine[0]); err != nil {
				c.Fail("close", "closing: %v", err)
				return
			}
			x.mine = x.mine[1:]
		}
		kind, seed := r.Intn(12), r.Int63()
		if r.Intn(6) == 0 {
			if !x.starved(kind, seed, wait) {
				return
			}
		} else {
			x.op(kind, seed, false)
		}
		if !wait() || c.Bad() || !x.check() {
			return
		}
	}
	c.Sig("%s", x.trace)
	if c.Wants() {
		c.Sample(trunc(x.trace, 400))
	}
	s.flush()
}

// starved: the operations that need descriptors, without them
func (x *c24) starved(kind int, seed int64, wait func() bool) bool {
	c := x.c
	r := rand.New(rand.NewSource(seed))
	c.Obs("starved")
	tree := func() string {
		var l []string
		filepath.Walk(x.sar, func(p string, fi os.FileInfo, err error) error {
			if fi != nil {
				l = append(l, fmt.Sprintf("%s %v %d", p, fi.Mode(), fi.Size()))
			}
			return nil
		})
		return strings.Join(l, "\n")
	}
	name := x.names[r.Intn(len(x.names))]
	before, table := tree(), tableSize()
	left := r.Intn(2)
	_, _, used := fds(x.sar)
	lift := starve(used, left)
	failed := false
	what := ""
	switch kind % 5 {
	case 0:
		ttype := pick(r, "get", "put", "take", "give", "putblind")
		what = "open " + ttype + " " + name
		fp, err := fileio.FileOpen(name, ttype)
		failed = err != nil
		if left == 0 && !failed {
			lift()
			c.Fail("starved", "%s gives %v %v without a descriptor; %s", what, fp, err, x.trace)
			return false
		}
		if fp != nil {
			fp.Close()
		}
	case 1:
		cs := pick(r, "crc32", "md5", "sha1")
		what = "checksum " + cs + " " + name
		sum, err := fileio.Checksum(cs, name)
		failed = err != nil
		if left == 0 && (!failed || len(sum) > 0) {
			lift()
			c.Fail("starved", "%s gives %x %v without a descriptor; %s", what, sum, err, x.trace)
			return false
		}
	case 2:
		what = "beacon"
		sarwin.Run(x.s.g, "beacon 127.0.0.1")
		if !wait() {
			return false
		}
	default:
		ttype := ttypes[r.Intn(len(ttypes))]
		what = ttype + " " + name
		t, err := sarwin.NewInitiator(x.s.g, ttype, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}, name, sarflags.Cliflag)
		failed = err != nil
		if (t == nil) != (err != nil) || (left == 0 || left == 1 && ttype != "delete" && ttype != "getdir") && !failed {
			lift()
			c.Fail("starved", "%s with %d descriptors gives %v %v; %s", what, left, t, err, x.trace)
			return false
		}
	}
	lift()
	x.note("%s with %d descriptors fails %v", what, left, failed)
	if failed {
		c.Obs("starvedfail")
		if n := tableSize(); n != table {
			c.Fail("starved", "a failed transfer is in the table; %s", x.trace)
			return false
		}
		if after := tree(); after != before {
			c.Fail("starved", "the directory has changed from %s to %s; %s", before, after, x.trace)
			return false
		}
	}
	return true
}
