package main

// C11 a file sent over a bad network, C12 local file operations, C13 containment,
// C14 checksums, C15 metadata of files

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
)

func init() {
	register(&Prop{ID: "C11", Quick: 50000, Thorough: 500000, Hang: true, Init: initConf, Run: runC11,
		Rule: "one to three files of random size, content and name (one in eight behind up to a terabyte that the receiver has already) are sent at once from one directory to another with the repository's own request, metadata, data and status frames, file reads and writes and hole bookkeeping, over a simulated network that loses (0-60%), duplicates and reorders frames in both directions. A monitor with its own bitmap of arrived bytes watches every frame: each status must ask for exactly the missing bytes, the received file may only ever hold bytes of the sent file, and once the receiver has no hole left its file and checksum must be those of the sender. Distinct by the trace of frames; non-trivial: at least one frame lost, repeated or out of order.",
		Need: map[string]int{"transfer": 2000, "lost": 5000, "dup": 5000, "reorder": 5000, "status-with-holes": 2000, "empty-file": 20, "over64k": 20, "multi": 200, "refilled": 2000, "far": 2000, "over4g": 1000}})
	register(&Prop{ID: "C12", Quick: 60000, Thorough: 600000, Hang: true, Init: initConf, Run: runC12,
		Rule: "random sequences of local file operations (open for each transfer type, positioned reads and writes, seeks, close, remove, delete, existence and metadata queries; several handles on several files at once) against a model of the directory; after every operation the whole directory is compared with the model. One case in ten works on a sparse file of up to a terabyte and buffers of up to a megabyte, one in ten has up to 16 goroutines open the same new names for receiving: exactly one may win each (directories too), in one in ten up to 8 goroutines read and write parts of their own through one open file. Distinct by the trace of operations.",
		Need: map[string]int{"open-rx": 1000, "open-exists": 500, "open-tx": 500, "read": 1000, "write": 1000, "sparse": 200, "seek-toobig": 100, "rm": 300, "delete": 300, "meta": 1000, "symlink": 50, "pipe": 50, "race-open": 100, "badtype": 100, "large": 500, "megabytes": 20, "getdir": 100, "getdir-refused": 100, "race-getdir": 100, "shared": 10000}})
	register(&Prop{ID: "C13", Quick: 12000, Thorough: 250000, Hang: true, Nobody: true, Init: initC13, Run: runC13,
		Rule: "file names that lead out of the saratoga directory (.. in every position, doubled and trailing slashes, absolute paths, names of sibling directories) and names that only look like it, given to every operation that takes a name (exists, open for every transfer type, remove, metadata, checksum, directory entry, metadata frame). A snapshot of everything outside the directory is compared before and after, and nothing outside may be reported, read or opened; names that stay inside must keep working. Runs as an unprivileged user in a scratch tree. Distinct by (operation, name).",
		Need: map[string]int{"escape": 1000, "inside": 1000, "exists": 100, "open": 100, "rm": 100, "meta": 100, "checksum": 100}})
	register(&Prop{ID: "C14", Quick: 100000, Thorough: 500000, Hang: true, Init: initConf, Run: runC14,
		Rule: "files of 0 bytes to a few MB (rarely 64 MB, or sparse ones of over 2 or 4 GiB) with random, constant and repetitive content, content differing in one bit, and the same content under other names: the reported checksum is compared with one computed over the bytes in memory. Unknown checksum types, missing files and directories must give an error. Distinct by (type, content).",
		Need: map[string]int{"crc32": 300, "md5": 300, "sha1": 300, "none": 100, "unknown": 100, "missing": 100, "empty": 30, "big": 10, "huge": 5}})
	register(&Prop{ID: "C15", Quick: 80000, Thorough: 800000, Hang: true, Init: initConf, Run: runC15,
		Rule: "metadata frames made (both ways, fresh and reused structs) for files of boundary and random sizes (sparse up to 8 GiB), set modification times (some that a directory entry cannot say), directories, named pipes and sockets, for every transfer and checksum type; the frame is compared with what the harness itself knows of the file, encoded and decoded. A transfer type that does not match must be refused. Distinct by (size, time, type, checksum).",
		Need: map[string]int{"file": 1000, "directory": 100, "stream": 30, "mismatch": 300, "socket": 100, "d16": 300, "d32": 300, "d64": 30, "csum": 300, "reused": 300, "missing": 50, "untold": 100, "dirent": 500, "dirent refused": 100}})
}

func setSardir(dir string) {
	sarflags.Climu.Lock()
	if sarflags.Cliflag.Sardir != dir { // The repository reads it without the lock
		sarflags.Cliflag.Sardir = dir
	}
	sarflags.Climu.Unlock()
}

// fileName: a name valid on the file system, without slashes
func fileName(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return pick(r, "a", "..a", "...", "x y", "ümlaut", "a\xffb", "-rf", "a=b,c=d", "n\nl", "%d", "~", "a..", ".hid") + fmt.Sprint(r.Intn(10))
	case 1:
		b := randBytes(r, 1+r.Intn(20))
		for i := range b {
			if b[i] == 0 || b[i] == '/' {
				b[i] = 'z'
			}
		}
		return "q" + string(b)
	}
	return fmt.Sprintf("file%d.dat", r.Intn(1000000))
}

func fileContent(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(i >> uint(i%3))
		}
	default:
		v := byte(1 + r.Intn(255)) // Never zero: a byte that was not written is seen
		for i := range b {
			b[i] = v
		}
	}
	return b
}

// ---- C11

type xfer struct {
	name    string
	content []byte
	sess    uint32
	desc    string
	chunk   int
	tstamp  string
	// Sender
	sfp       *os.File
	todo      []holes.Hole
	gotstatus bool
	// Receiver
	rfp   *os.File
	rname string
	size  uint64
	base  int // The content is behind as many zero bytes, which the receiver has
	csum  []byte
	csumt string
	fills holes.Holes
	have  []bool
	nhave int
	last  uint64
	done  bool
}

// tail: the file from base on, all zero before it
func (x *xfer) tail(name string) ([]byte, error) {
	if x.base == 0 {
		return os.ReadFile(name)
	}
	fp, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer fp.Close()
	if off, err := fp.Seek(0, 3); err == nil && off < int64(x.base)-1<<16 { // SEEK_DATA
		return nil, fmt.Errorf("there is data at %d, before what was sent", off)
	}
	fi, err := fp.Stat()
	if err != nil {
		return nil, err
	}
	if fi.Size() < int64(x.base) {
		return nil, nil
	}
	b := make([]byte, min(fi.Size()-int64(x.base), 1<<20))
	_, err = fp.ReadAt(b, int64(x.base))
	return b, err
}

type inflight struct {
	seq  int
	b    []byte
	from string // sender or receiver
}

func runC11(c *Case) {
	r := c.R
	base := filepath.Join(c.Dir, "net")
	must(os.RemoveAll(base))
	sdir, rdir := filepath.Join(base, "s"), filepath.Join(base, "r")
	must(os.MkdirAll(sdir, 0755))
	must(os.MkdirAll(rdir, 0755))
	defer os.RemoveAll(base)
	n := 1
	if r.Intn(4) == 0 {
		n = 2 + r.Intn(2)
		c.Obs("multi")
	}
	var xs []*xfer
	names := map[string]bool{}
	for i := 0; i < n; i++ {
		x := &xfer{sess: uint32(r.Uint32())}
		for x.name == "" || names[x.name] {
			x.name = fileName(r)
		}
		names[x.name] = true
		for _, y := range xs {
			if y.sess == x.sess {
				x.sess++
			}
		}
		var size int
		switch r.Intn(10) {
		case 0:
			size = r.Intn(3)
		case 1:
			size = 65530 + r.Intn(12)
		case 2:
			size = 65536 + r.Intn(60000)
		default:
			size = r.Intn(6000)
		}
		x.content = fileContent(r, size)
		x.chunk = 1 + r.Intn(1400)
		if size/x.chunk > 150 {
			x.chunk = size/150 + 1
		}
		if size == 0 {
			c.Obs("empty-file")
		}
		if size > 65535 {
			c.Obs("over64k")
		}
		x.desc = pick(r, "d32", "d64")
		if size <= 65535 {
			x.desc = pick(r, "d16", "d32", "d64")
		}
		x.tstamp = pick(r, "no", "no", "yes", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32", "localinterp")
		x.csumt = pick(r, "none", "crc32", "md5", "sha1")
		if r.Intn(8) == 0 { // At the end of a big file whose beginning the receiver has
			x.base = []int{1 << 16, 1<<16 - size/2, 1 << 31, 1<<31 - size/2, 1<<32 - size/2, 1 << 32, 1<<32 + r.Intn(1<<32), 1 << 40, r.Intn(1 << 33)}[r.Intn(9)]
			x.csumt = "none"
			x.desc = "d64"
			if x.base+size < 1<<32 {
				x.desc = pick(r, "d32", "d64")
			}
			c.Obs("far")
			if x.base+size >= 1<<32 {
				c.Obs("over4g")
			}
		}
		x.have = make([]bool, size)
		fp, err := os.Create(filepath.Join(sdir, x.name))
		must(err)
		_, err = fp.WriteAt(x.content, int64(x.base))
		must(err)
		must(fp.Truncate(int64(x.base + size)))
		must(fp.Close())
		xs = append(xs, x)
		c.Obs("transfer")
	}
	bySess := map[uint32]*xfer{}
	for _, x := range xs {
		bySess[x.sess] = x
	}
	fail := func(x *xfer, key, f string, a ...interface{}) {
		c.Fail(key, "file %q of %d+%d bytes, chunks of %d, %s, %s: %s", x.name, x.base, len(x.content), x.chunk, x.desc, x.tstamp, fmt.Sprintf(f, a...))
	}
	defer func() {
		for _, x := range xs {
			if x.sfp != nil {
				x.sfp.Close()
			}
			if x.rfp != nil {
				x.rfp.Close()
			}
		}
	}()
	// The request and the metadata get through (their loss only delays a transfer)
	for _, x := range xs {
		setSardir(sdir)
		var q request.Request
		if err := q.New("descriptor="+x.desc+",reqtype=put,fileordir=file,txwilling=yes,rxwilling=yes,stream=no,udplite=no", &request.Rinfo{Session: x.sess, Fname: x.name}); err != nil {
			fail(x, "request", "request refused: %v", err)
			return
		}
		qb, err := q.Encode()
		if err != nil {
			fail(x, "request", "request not encoded: %v", err)
			return
		}
		var m metadata.MetaData
		if err := m.New("descriptor="+x.desc+",transfer=file,progress=inprogress,reliability=udponly,csumtype="+x.csumt, &metadata.Minfo{Session: x.sess, Fname: x.name}); err != nil {
			fail(x, "metadata", "metadata refused: %v", err)
			return
		}
		mb, err := m.Encode()
		if err != nil {
			fail(x, "metadata", "metadata not encoded: %v", err)
			return
		}
		if x.sfp, err = fileio.FileOpen(x.name, "put"); err != nil {
			fail(x, "open", "cannot open the file to send: %v", err)
			return
		}
		setSardir(rdir)
		var rq request.Request
		if err := rq.Decode(qb); err != nil || rq.Session != x.sess {
			fail(x, "request", "request arrives as session %d, %v", rq.Session, err)
			return
		}
		x.rname = rq.Fname
		var rm metadata.MetaData
		if err := rm.Decode(mb); err != nil || rm.Session != x.sess || rm.Dir.Path != rq.Fname {
			fail(x, "metadata", "metadata arrives as session %d path %q, %v", rm.Session, rm.Dir.Path, err)
			return
		}
		x.size, x.csum = rm.Dir.Size, rm.Checksum
		if x.size != uint64(x.base+len(x.content)) {
			fail(x, "metadata", "the metadata says the file has %d bytes", x.size)
			return
		}
		if x.rfp, err = fileio.FileOpen(x.rname, "get"); err != nil {
			fail(x, "open", "cannot open the file to receive: %v", err)
			return
		}
		if len(x.content) > 0 {
			x.todo = []holes.Hole{{Start: x.base, End: int(x.size)}}
		}
		if x.base > 0 {
			x.fills = x.fills.Add(0, x.base)
		}
	}
	loss := float64(r.Intn(7)) / 10
	dup := float64(r.Intn(4)) / 10
	window := 1 + r.Intn(60)
	if r.Intn(4) == 0 {
		window = 1
	}
	var q []inflight
	seq := 0
	trace := fmt.Sprintf("%v %v %d ", loss, dup, window)
	nontrivial := false
	send := func(b []byte, from string) {
		k := 1
		if r.Float64() < dup {
			k = 2
			nontrivial = true
			c.Obs("dup")
		}
		if r.Float64() < loss {
			c.Obs("lost")
			nontrivial = true
			k--
		}
		for ; k > 0; k-- {
			q = append(q, inflight{seq, b, from})
		}
		seq++
	}
	maxseen := -1
	deliver := func() (inflight, bool) {
		if len(q) == 0 {
			return inflight{}, false
		}
		w := window
		if w > len(q) {
			w = len(q)
		}
		i := r.Intn(w)
		f := q[i]
		q = append(q[:i], q[i+1:]...)
		if f.seq < maxseen {
			c.Obs("reorder")
			nontrivial = true
		} else {
			maxseen = f.seq
		}
		return f, true
	}
	statusOf := func(x *xfer) {
		var st status.Status
		prog := uint64(0)
		if len(x.fills) > 0 {
			prog = uint64(x.fills[len(x.fills)-1].End)
		}
		hs := x.fills.Getholes()
		if len(hs) > 0 {
			c.Obs("status-with-holes")
		}
		fl := "descriptor=" + x.desc + ",metadatarecvd=yes,allholes=yes,reqholes=requested,errcode=success"
		if x.tstamp == "yes" || x.tstamp == "no" {
			fl += ",reqtstamp=" + x.tstamp
		} else {
			fl += "," + x.tstamp + "=yes"
		}
		if err := st.New(fl, &status.Sinfo{Session: x.sess, Progress: prog, Inrespto: x.last, Holes: hs}); err != nil {
			fail(x, "status", "status refused: %v", err)
			return
		}
		b, err := st.Encode()
		if err != nil {
			fail(x, "status", "status not encoded: %v", err)
			return
		}
		send(b, "receiver")
	}
	drain := func() {
		for {
			f, ok := deliver()
			if !ok || c.Bad() {
				return
			}
			if f.from == "receiver" { // A status reaches the sender
				var s status.Status
				if err := s.Decode(f.b); err != nil {
					c.Fail("status", "status %s refused: %v", hexs(f.b), err)
					return
				}
				x := bySess[s.Session]
				if x == nil {
					c.Fail("status", "status for session %d, which nobody has", s.Session)
					return
				}
				trace += fmt.Sprintf("S%d/%d ", s.Progress, len(s.Holes))
				x.gotstatus = true
				x.todo = append(x.todo[:0], s.Holes...)
				if s.Progress < x.size {
					x.todo = append(x.todo, holes.Hole{Start: int(s.Progress), End: int(x.size)})
				}
				continue
			}
			var d data.Data
			if err := d.Decode(f.b); err != nil {
				c.Fail("data", "data frame %s refused: %v", hexs(f.b), err)
				return
			}
			x := bySess[d.Session]
			if x == nil {
				c.Fail("data", "data for session %d, which nobody has", d.Session)
				return
			}
			trace += fmt.Sprintf("D%d/%d ", d.Offset, len(d.Payload))
			end := d.Offset + uint64(len(d.Payload))
			if end > x.size || d.Offset < uint64(x.base) || !bytes.Equal(d.Payload, x.content[int(d.Offset)-x.base:int(end)-x.base]) {
				fail(x, "data", "the data frame for offset %d with %d bytes does not hold the bytes of the file", d.Offset, len(d.Payload))
				return
			}
			if k, err := fileio.FileWrite(x.rfp, d.Offset, d.Payload); err != nil || k != len(d.Payload) {
				fail(x, "write", "writing %d bytes at %d: %d, %v", len(d.Payload), d.Offset, k, err)
				return
			}
			x.fills = x.fills.Add(int(d.Offset), int(end))
			x.last = d.Offset
			refilled := false
			for i := int(d.Offset) - x.base; i < int(end)-x.base; i++ {
				if !x.have[i] {
					x.have[i] = true
					x.nhave++
					if x.gotstatus {
						refilled = true
					}
				}
			}
			if refilled {
				c.Obs("refilled")
			}
		}
	}
	// what the receiver knows against what arrived
	audit := func(x *xfer) {
		covered := make([]bool, len(x.content))
		prog := 0
		for _, f := range x.fills {
			prog = max(prog, f.End)
		}
		for _, h := range x.fills.Getholes() {
			if h.Start < x.base {
				fail(x, "holes", "asks for %v, which it has", h)
				return
			}
			for i := h.Start - x.base; i < h.End-x.base && i < len(covered); i++ {
				covered[i] = true
			}
		}
		for i := range x.have {
			asked := covered[i] || i+x.base >= prog
			if x.have[i] == asked {
				fail(x, "holes", "byte %d: arrived %v, but the receiver asks for it: %v (ranges received %v)", i, x.have[i], asked, x.fills)
				return
			}
		}
		got, err := x.tail(filepath.Join(rdir, x.rname))
		if err != nil {
			fail(x, "file", "the received file: %v", err)
			return
		}
		if len(got) > len(x.content) {
			fail(x, "file", "the received file has %d bytes", len(got))
			return
		}
		for i := range got {
			want := byte(0)
			if x.have[i] {
				want = x.content[i]
			}
			if got[i] != want {
				fail(x, "file", "byte %d of the received file is %02x, want %02x (arrived: %v)", i, got[i], want, x.have[i])
				return
			}
		}
	}
	for round := 0; ; round++ {
		if round == 40 {
			loss, dup = 0, 0
		}
		if round > 45 {
			for _, x := range xs {
				if !x.done {
					fail(x, "incomplete", "never completes, received %v", x.fills)
				}
			}
			break
		}
		for _, x := range xs {
			x.gotstatus = round > 0
			for _, h := range x.todo {
				for p := h.Start; p < h.End; p += x.chunk {
					n := min(x.chunk, h.End-p)
					buf, err := fileio.FileRead(x.sfp, uint64(p), n)
					if err != nil || len(buf) != n {
						fail(x, "read", "reading %d bytes at %d: %d, %v", n, p, len(buf), err)
						return
					}
					var d data.Data
					eod := "no"
					if p+n == int(x.size) {
						eod = "yes"
					}
					if err := d.New("descriptor="+x.desc+",transfer=file,reqtstamp="+x.tstamp+",reqstatus=no,eod="+eod, &data.Dinfo{Session: x.sess, Offset: uint64(p), Payload: buf}); err != nil {
						fail(x, "data", "data refused: %v", err)
						return
					}
					b, err := d.Encode()
					if err != nil {
						fail(x, "data", "data not encoded: %v", err)
						return
					}
					send(b, "sender")
				}
			}
		}
		drain()
		if c.Bad() {
			return
		}
		all := true
		for _, x := range xs {
			if x.done {
				continue
			}
			complete := len(x.content) == 0 || len(x.fills) == 1 && x.fills[0] == (holes.Hole{Start: 0, End: int(x.size)})
			audit(x)
			if c.Bad() {
				return
			}
			if !complete {
				all = false
				statusOf(x)
				continue
			}
			x.done = true
			x.todo = nil
			setSardir(rdir)
			fileio.FileClose(x.rfp)
			x.rfp = nil
			got, err := x.tail(filepath.Join(rdir, x.name))
			if err != nil || !bytes.Equal(got, x.content) {
				fail(x, "file", "the receiver has no hole left, but its file differs from the one sent (%d bytes, %v)", len(got), err)
				return
			}
			sum, err := fileio.Checksum(x.csumt, x.rname)
			if err != nil || !bytes.Equal(sum, x.csum) {
				fail(x, "checksum", "%s of the received file %x, %v, metadata said %x", x.csumt, sum, err, x.csum)
				return
			}
		}
		if all {
			break
		}
		drain()
		if c.Bad() {
			return
		}
		// A lost status: the sender times out and sends again what it still had to send
	}
	// Nothing but the files sent
	ents, _ := os.ReadDir(rdir)
	if len(ents) != len(xs) {
		c.Fail("file", "%d files sent, %d files received", len(xs), len(ents))
	}
	if nontrivial {
		c.Sig("%s", trace)
		if c.Wants() {
			c.Sample(map[string]interface{}{"transfers": len(xs), "size": len(xs[0].content), "loss": loss, "window": window, "trace": trunc(trace, 300)})
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- C12

type mfile struct{ b []byte }

type mhandle struct {
	fp    *os.File
	f     *mfile
	name  string
	write bool
}

func treeOf(dir string) (map[string]string, error) {
	t := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			t[rel] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[rel] = "link " + l
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			t[rel] = "file " + string(b)
		default:
			t[rel] = fi.Mode().Type().String()
		}
		return nil
	})
	return t, err
}

func treeDiff(got, want map[string]string) string {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok1 := got[k]
		w, ok2 := want[k]
		if !ok1 {
			return fmt.Sprintf("%q is gone (was %q)", k, trunc(w, 60))
		}
		if !ok2 {
			return fmt.Sprintf("%q appeared: %q", k, trunc(g, 60))
		}
		if g != w {
			i := 0
			for i < len(g) && i < len(w) && g[i] == w[i] {
				i++
			}
			return fmt.Sprintf("%q has other content from position %d on (%d and %d bytes)", k, i-5, len(g)-5, len(w)-5)
		}
	}
	return ""
}

func runC12(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir, "sar")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
	defer os.RemoveAll(dir)
	setSardir(dir)
	if c.I%10 == 9 {
		c12Race(c, dir)
		return
	}
	if c.I%10 == 8 {
		c12Large(c, dir)
		return
	}
	if c.I%10 == 7 {
		c12Shared(c, dir)
		return
	}
	files := map[string]*mfile{}
	special := map[string]string{}
	var names []string
	for i := 0; i < 5; i++ {
		n := fileName(r)
		if r.Intn(3) == 0 {
			n = "sub/" + n
		}
		if files[n] != nil {
			continue
		}
		names = append(names, n)
		files[n] = nil
		if r.Intn(2) == 0 {
			b := fileContent(r, r.Intn(300))
			must(os.WriteFile(filepath.Join(dir, n), b, 0640))
			files[n] = &mfile{append([]byte{}, b...)}
		}
	}
	// Names that extend or shorten others: an operation on one must leave the other alone
	names = append(names, names[0]+".bak", names[0]+"2")
	if r.Intn(3) == 0 {
		t := pick(r, names[0], "sub", "nowhere")
		must(os.Symlink(t, filepath.Join(dir, "lnk")))
		special["lnk"] = "link " + t
	}
	if r.Intn(3) == 0 {
		must(syscall.Mkfifo(filepath.Join(dir, "pipe"), 0600))
		special["pipe"] = os.ModeNamedPipe.String()
	}
	var hs []*mhandle
	defer func() {
		for _, h := range hs {
			h.fp.Close()
		}
	}()
	trace := ""
	fail := func(key, f string, a ...interface{}) {
		c.Fail(key, "%s\nafter: %s", fmt.Sprintf(f, a...), trace)
	}
	check := func() {
		want := map[string]string{".": "dir", "sub": "dir"}
		for n, f := range files {
			if f != nil {
				want[n] = "file " + string(f.b)
			}
		}
		for n, s := range special {
			want[n] = s
		}
		got, err := treeOf(dir)
		if err != nil {
			fail("directory", "walking the directory: %v", err)
			return
		}
		if d := treeDiff(got, want); d != "" {
			fail("directory", "the directory changed otherwise than asked for: %s", d)
		}
	}
	steps := 6 + r.Intn(30)
	for s := 0; s < steps && !c.Bad(); s++ {
		n := names[r.Intn(len(names))]
		arg := n
		if r.Intn(4) == 0 {
			arg = pick(r, "./", "/", "sub/../", "//") + n
		}
		op := r.Intn(12)
		switch {
		case op < 3: // Open
			tt := pick(r, "get", "get", "take", "put", "give", "putblind", "delete", "getdir", "bogus", "", "Put")
			if tt == "getdir" { // A directory to receive into
				if files[n] == nil {
					n = "sub"
				}
				arg = pick(r, n, "sub", "lnk", "newdir", "sub/newdir", "nowhere/newdir", "newdir/in", "newdir/in/side")
				fi, serr := os.Lstat(filepath.Join(dir, arg))
				up, uerr := os.Stat(filepath.Dir(filepath.Join(dir, arg)))
				trace += fmt.Sprintf("open(%q,%s) ", arg, tt)
				at, err := os.Getwd()
				must(err)
				fp, err := fileio.FileOpen(arg, tt)
				if fp != nil {
					fp.Close()
					fail("getdir", "opening the directory %q to receive gives a file", arg)
				}
				if now, err := os.Getwd(); err != nil || now != at {
					os.Chdir(at)
					fail("getdir", "opening a directory to receive moves the program from %q to %q", at, now)
				}
				if serr == nil || uerr != nil || !up.IsDir() {
					c.Obs("getdir-refused")
					if err == nil {
						fail("getdir", "the directory %q is opened to receive, there: %v, room: %v", arg, fi, uerr == nil && up.IsDir())
					}
					break
				}
				c.Obs("getdir")
				if err != nil {
					fail("getdir", "cannot open the directory %q to receive: %v", arg, err)
					break
				}
				special[arg] = "dir"
				if fi, err := os.Stat(filepath.Join(dir, arg)); err != nil || fi.Mode().Perm()&0700 != 0700 {
					fail("getdir", "the directory %q is opened to receive with %v, nothing can be put in it", arg, fi.Mode())
				}
				break
			}
			trace += fmt.Sprintf("open(%q,%s) ", arg, tt)
			fp, err := fileio.FileOpen(arg, tt)
			switch tt {
			case "get", "take":
				if files[n] != nil {
					c.Obs("open-exists")
					if err == nil {
						fp.Close()
						fail("clobber", "opening the existing %q to receive into it succeeds", arg)
					}
					break
				}
				c.Obs("open-rx")
				if err != nil || fp == nil {
					fail("open", "cannot open %q to receive: %v", arg, err)
					break
				}
				files[n] = &mfile{}
				hs = append(hs, &mhandle{fp, files[n], n, true})
			case "put", "give", "putblind":
				if files[n] == nil {
					if err == nil {
						fp.Close()
						fail("open", "opening %q, which does not exist, to send it succeeds", arg)
					}
					break
				}
				c.Obs("open-tx")
				if err != nil || fp == nil {
					fail("open", "cannot open %q to send: %v", arg, err)
					break
				}
				hs = append(hs, &mhandle{fp, files[n], n, false})
			case "delete":
				if fp != nil || err != nil {
					fail("open", "open for delete gives %v, %v", fp, err)
				}
			default:
				c.Obs("badtype")
				if err == nil {
					fail("open", "transfer type %q is accepted", tt)
				}
			}
		case op < 6 && len(hs) > 0: // Write
			h := hs[r.Intn(len(hs))]
			pos := uint64(r.Intn(400))
			b := fileContent(r, r.Intn(200))
			big := r.Intn(20) == 0
			if big {
				c.Obs("seek-toobig")
				pos = 1<<63 + uint64(r.Int63())
			}
			trace += fmt.Sprintf("write(%q,%d,%d) ", h.name, pos, len(b))
			k, err := fileio.FileWrite(h.fp, pos, b)
			if big || !h.write {
				if err == nil && (big || len(b) > 0) {
					fail("write", "writing %d bytes at %d of %q succeeds", len(b), pos, h.name)
				}
				break
			}
			c.Obs("write")
			if err != nil || k != len(b) {
				fail("write", "writing %d bytes at %d of %q: %d, %v", len(b), pos, h.name, k, err)
				break
			}
			if len(b) > 0 {
				if int(pos) > len(h.f.b) {
					c.Obs("sparse")
				}
				if need := int(pos) + len(b); need > len(h.f.b) {
					h.f.b = append(h.f.b, make([]byte, need-len(h.f.b))...)
				}
				copy(h.f.b[pos:], b)
			}
		case op < 8 && len(hs) > 0: // Read
			h := hs[r.Intn(len(hs))]
			pos := uint64(r.Intn(400))
			if len(h.f.b) > 0 && r.Intn(2) == 0 {
				pos = uint64(r.Intn(len(h.f.b)))
			}
			k := 1 + r.Intn(300)
			if r.Intn(20) == 0 {
				c.Obs("seek-toobig")
				pos = 1<<63 + uint64(r.Int63())
			}
			trace += fmt.Sprintf("read(%q,%d,%d) ", h.name, pos, k)
			b, err := fileio.FileRead(h.fp, pos, k)
			c.Obs("read")
			if pos >= uint64(len(h.f.b)) {
				if err == nil && len(b) > 0 {
					fail("read", "reading at %d of %q with %d bytes gives %d bytes", pos, h.name, len(h.f.b), len(b))
				}
				break
			}
			want := h.f.b[pos:min(len(h.f.b), int(pos)+k)]
			if err != nil || !bytes.Equal(b, want) {
				fail("read", "reading %d bytes at %d of %q gives %s, %v want %s", k, pos, h.name, hexs(b), err, hexs(want))
			}
		case op == 8: // Exists
			trace += fmt.Sprintf("exists(%q) ", arg)
			if e := fileio.FileExists(arg); e != (files[n] != nil) {
				fail("exists", "FileExists(%q) is %v", arg, e)
			}
			if !fileio.FileExists("sub") || fileio.FileExists("sub2") {
				fail("exists", "FileExists of a directory is wrong")
			}
			if r.Intn(3) == 0 {
				if _, ok := special["pipe"]; ok && fileio.FileExists("pipe") {
					fail("exists", "FileExists of a named pipe is true")
				}
			}
		case op == 9: // Rm
			trace += fmt.Sprintf("rm(%q) ", arg)
			err := fileio.FileRm(arg)
			c.Obs("rm")
			if files[n] == nil {
				if err == nil {
					fail("rm", "removing %q, which does not exist, succeeds", arg)
				}
				break
			}
			if err != nil {
				fail("rm", "cannot remove %q: %v", arg, err)
				break
			}
			files[n] = nil
		case op == 10 && len(hs) > 0: // Close or delete
			i := r.Intn(len(hs))
			h := hs[i]
			hs = append(hs[:i], hs[i+1:]...)
			if r.Intn(2) == 0 {
				trace += fmt.Sprintf("close(%q) ", h.name)
				if err := fileio.FileClose(h.fp); err != nil {
					fail("close", "closing %q: %v", h.name, err)
				}
				break
			}
			trace += fmt.Sprintf("delete(%q) ", h.name)
			c.Obs("delete")
			err := fileio.FileDelete(h.fp)
			if files[h.name] == nil {
				if err == nil {
					fail("delete", "deleting the open %q, already removed, succeeds", h.name)
				}
			} else if err != nil {
				fail("delete", "deleting the open %q: %v", h.name, err)
			}
			files[h.name] = nil
			if _, err := h.fp.Stat(); err == nil {
				h.fp.Close()
				fail("delete", "deleting the open %q leaves it open", h.name)
			}
			if fileio.FileDelete(nil) == nil {
				fail("delete", "deleting no file succeeds")
			}
		default: // Meta
			n := n
			if r.Intn(3) == 0 {
				n = pick(r, "sub", "lnk", "pipe")
				arg = n
			}
			trace += fmt.Sprintf("meta(%q) ", arg)
			m, err := fileio.FileMeta(arg)
			c.Obs("meta")
			fi, serr := os.Lstat(filepath.Join(dir, n))
			if serr != nil {
				if err == nil {
					fail("meta", "metadata of %q, which does not exist, is given", arg)
				}
				break
			}
			if err != nil || m == nil {
				fail("meta", "metadata of %q: %v", arg, err)
				break
			}
			st := fi.Sys().(*syscall.Stat_t)
			islink, ispipe := fi.Mode()&os.ModeSymlink != 0, fi.Mode()&os.ModeNamedPipe != 0
			isdir := fi.IsDir()
			origin := ""
			if islink {
				c.Obs("symlink")
				origin, _ = os.Readlink(filepath.Join(dir, n))
				if ti, err := os.Stat(filepath.Join(dir, n)); err == nil {
					isdir = ti.IsDir()
				}
			}
			if ispipe {
				c.Obs("pipe")
			}
			if m.Size != fi.Size() || m.Mode != fi.Mode() || !m.ModTime.Equal(fi.ModTime()) || m.IsDir != isdir ||
				m.IsRegular != fi.Mode().IsRegular() || m.IsSymLink != islink || m.IsNamedPipe != ispipe || m.Origin != origin ||
				m.Uid != int(st.Uid) || m.Gid != int(st.Gid) || m.Path != filepath.Base(n) {
				fail("meta", "metadata of %q is %+v, want %v %d bytes %v dir %v link %v to %q pipe %v", arg, *m, fi.Mode(), fi.Size(), fi.ModTime(), isdir, islink, origin, ispipe)
			}
			if f := files[n]; f != nil && m.Size != int64(len(f.b)) {
				fail("meta", "the size of %q is given as %d, it is %d", arg, m.Size, len(f.b))
			}
		}
		check()
	}
	c.Sig("%s", trace)
	if c.Wants() {
		c.Sample(trunc(trace, 400))
	}
}

// c12Race: many receivers of the same name
// c12Large: files larger than any 32 bit offset (sparse) and buffers of up to a megabyte, read and written at any
// place. What is in the file is looked at with plain positioned reads of another handle.
func c12Large(c *Case, dir string) {
	r := c.R
	c.Obs("large")
	name := fileName(r)
	fp, err := fileio.FileOpen(name, pick(r, "get", "take"))
	if err != nil {
		c.Fail("open", "cannot open %q to receive: %v", name, err)
		return
	}
	defer fp.Close()
	chk, err := os.Open(filepath.Join(dir, name))
	must(err)
	defer chk.Close()
	var rd *os.File
	type seg struct {
		pos int64
		b   []byte
	}
	var segs []seg
	var size int64
	at := func(pos int64, n int) []byte { // What the model has there
		n = int(min(int64(n), size-pos))
		if n <= 0 {
			return nil
		}
		b := make([]byte, n)
		for _, s := range segs {
			lo, hi := max(pos, s.pos), min(pos+int64(n), s.pos+int64(len(s.b)))
			if lo < hi {
				copy(b[lo-pos:hi-pos], s.b[lo-s.pos:hi-s.pos])
			}
		}
		return b
	}
	bases := []int64{0, 1<<16 - 3, 1 << 31, 1<<31 - 2, 1 << 32, 1<<32 - 5, 5<<32 + 9, 1 << 36, 1<<40 - 7}
	for s, n := 0, 3+r.Intn(6); s < n && !c.Bad(); s++ {
		pos := bases[r.Intn(len(bases))] + int64(r.Intn(200))
		k := r.Intn(3000)
		if r.Intn(8) == 0 {
			k = r.Intn([]int{1 << 20, 1 << 20, 5 << 20}[r.Intn(3)])
		}
		if k > 1<<20 {
			c.Obs("megabytes")
		}
		b := fileContent(r, k)
		w, err := fileio.FileWrite(fp, uint64(pos), b)
		if err != nil || w != k {
			c.Fail("write", "writing %d bytes at %d: %d, %v", k, pos, w, err)
			return
		}
		c.Obs("write")
		if k > 0 {
			segs = append(segs, seg{pos, b})
			size = max(size, pos+int64(k))
		}
		c.Sig("large %d %d", pos, k)
		if fi, err := chk.Stat(); err != nil || fi.Size() != size {
			c.Fail("write", "the file has %d bytes, not %d, after writing %d bytes at %d", fi.Size(), size, k, pos)
			return
		}
		for _, x := range segs {
			want := at(x.pos, len(x.b))
			got := make([]byte, len(x.b))
			if _, err := chk.ReadAt(got, x.pos); err != nil || !bytes.Equal(got, want) {
				c.Fail("write", "after writing %d bytes at %d the %d bytes at %d are not those written there", k, pos, len(x.b), x.pos)
				return
			}
		}
		h := fp
		if r.Intn(2) == 0 {
			if rd == nil {
				if rd, err = fileio.FileOpen(name, pick(r, "put", "give")); err != nil {
					c.Fail("open", "cannot open %q to send: %v", name, err)
					return
				}
				defer rd.Close()
			}
			h = rd
		}
		if len(segs) == 0 {
			continue
		}
		x := segs[r.Intn(len(segs))]
		pos, k = x.pos+int64(r.Intn(len(x.b))), 1+r.Intn(2*len(x.b))
		got, err := fileio.FileRead(h, uint64(pos), k)
		c.Obs("read")
		if want := at(pos, k); err != nil || !bytes.Equal(got, want) {
			c.Fail("read", "reading %d bytes at %d of a file of %d gives %d bytes, %v", k, pos, size, len(got), err)
			return
		}
	}
}

// c12Shared: one open file used by several at the same time, each reads and writes its own part
func c12Shared(c *Case, dir string) {
	r := c.R
	name := fileName(r)
	fp, err := fileio.FileOpen(name, pick(r, "get", "take"))
	if err != nil {
		c.Fail("open", "cannot open %q to receive: %v", name, err)
		return
	}
	defer fp.Close()
	k, part := 2+r.Intn(7), 1+r.Intn(300)
	rounds := 30
	if _, err := fileio.FileWrite(fp, 0, make([]byte, k*part)); err != nil {
		c.Fail("write", "writing %d bytes at 0: %v", k*part, err)
		return
	}
	start := make(chan bool)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	want := make([]byte, k*part)
	for j := 0; j < k; j++ {
		rd := rand.New(rand.NewSource(r.Int63()))
		own := want[j*part : (j+1)*part]
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			<-start
			for i := 0; i < rounds; i++ {
				at := rd.Intn(part)
				n := 1 + rd.Intn(part-at)
				if i%2 == 0 {
					rd.Read(own[at : at+n])
					w, err := fileio.FileWrite(fp, uint64(j*part+at), own[at:at+n])
					if w != n || err != nil {
						mu.Lock()
						bad = fmt.Sprintf("writing %d bytes at %d: %d, %v", n, j*part+at, w, err)
						mu.Unlock()
					}
					continue
				}
				got, err := fileio.FileRead(fp, uint64(j*part+at), n)
				if err != nil || !bytes.Equal(got, own[at:at+n]) {
					mu.Lock()
					bad = fmt.Sprintf("reading %d bytes at %d gives %d bytes, %v, not those written there", n, j*part+at, len(got), err)
					mu.Unlock()
				}
			}
		}(j)
	}
	close(start)
	wg.Wait()
	for i := 0; i < rounds*k; i++ {
		c.Obs("shared")
	}
	if bad != "" {
		c.Fail("shared", "%d use one open file, each its own %d bytes: %s", k, part, bad)
		return
	}
	if got, err := os.ReadFile(filepath.Join(dir, name)); err != nil || !bytes.Equal(got, want) {
		c.Fail("shared", "%d use one open file, each its own %d bytes: what is in it is not what was written", k, part)
	}
	c.Sig("shared %d %d", k, part)
}

func c12Race(c *Case, dir string) {
	r := c.R
	k := 2 + r.Intn(15)
	rounds := 4
	for i := 0; i < rounds && !c.Bad(); i++ {
		name := fmt.Sprintf("r%d.%s", i, fileName(r))
		start := make(chan bool)
		var wg sync.WaitGroup
		var mu sync.Mutex
		var won []*os.File
		if r.Intn(4) == 0 { // A directory
			n := 0
			for j := 0; j < k; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if _, err := fileio.FileOpen(name, "getdir"); err == nil {
						mu.Lock()
						n++
						mu.Unlock()
					}
				}()
			}
			close(start)
			wg.Wait()
			c.Obs("race-getdir")
			if n != 1 {
				c.Fail("clobber", "%d of %d concurrent receivers of the new directory %q opened it", n, k, name)
			}
			c.Sig("race dir %d %q", k, name)
			continue
		}
		for j := 0; j < k; j++ {
			tt := pick(r, "get", "take")
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				fp, err := fileio.FileOpen(name, tt)
				if err == nil && fp != nil {
					fileio.FileWrite(fp, 0, []byte("winner"))
					mu.Lock()
					won = append(won, fp)
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, f := range won {
			f.Close()
		}
		c.Obs("race-open")
		if len(won) != 1 {
			c.Fail("clobber", "%d of %d concurrent receivers of the new file %q opened it", len(won), k, name)
		}
		c.Sig("race %d %q", k, name)
	}
}

// ---- C13

type c13State struct{ root, sar string }

func initC13(w *Worker) {
	conf(filepath.Join(w.Dir, "sar"))
	w.Data = nil
}

func runC13(c *Case) {
	r := c.R
	root := filepath.Join(c.Dir, "root")
	sar := filepath.Join(root, "home", "sar")
	must(os.RemoveAll(root))
	must(os.MkdirAll(filepath.Join(sar, "sub", "deep"), 0755))
	defer os.RemoveAll(root)
	secret := fmt.Sprintf("secret %d", r.Int63())
	for _, p := range []string{"victim", "home/victim", "home/sar2", "home/other/victim", "home/sarx/victim", "home/sub/victim", "home/victim.txt"} {
		must(os.MkdirAll(filepath.Dir(filepath.Join(root, p)), 0755))
		must(os.WriteFile(filepath.Join(root, p), []byte(secret+p), 0644))
	}
	inside := []byte("inside")
	for _, p := range []string{"inner", "sub/inner", "sub/deep/inner", "..inner", "inner..", "...", "sub/..x"} {
		must(os.WriteFile(filepath.Join(sar, p), inside, 0644))
	}
	setSardir(sar)
	// A name
	var name string
	if r.Intn(3) == 0 {
		name = pick(r, "inner", "sub/inner", "sub/deep/inner", "..inner", "inner..", "...", "sub/..x", "sub/../inner", "./inner", "/inner",
			"sub/./inner", "sub//inner", "//sub/inner", "sub/deep/../../inner", "sub/deep/../inner")
	} else if r.Intn(3) == 0 {
		name = pick(r, "../victim", "../../victim", "/../victim", "./../victim", "sub/../../victim", "sub/deep/../../../victim", "../sar2",
			"../other/victim", "../sarx/victim", "..//victim", "//../victim", "sub/..//../victim", "../sar/../victim", "..", "../", "../newfile", "../../newfile",
			"../other/newfile", "sub/../../newfile", "/../newfile", "../sar2/", ".././victim", "./.././victim", "../sub/victim", "../victim.txt", "/./../victim", "sub/./../../victim", "inner/../../victim", "nosuch/../../victim")
	} else { // Components at random
		k := 1 + r.Intn(7)
		var cs []string
		for i := 0; i < k; i++ {
			cs = append(cs, pick(r, "..", "..", "..", ".", "", "sub", "deep", "sar", "sarx", "other", "home"))
		}
		cs = append(cs, pick(r, "victim", "newfile", "inner", "sar2", "victim.txt"))
		name = strings.Join(cs, "/")
		if r.Intn(3) == 0 {
			name = "/" + name
		}
		if strings.Count(filepath.Clean("/"+root+"/home/sar/"+name), "/") < 3 || !strings.HasPrefix(filepath.Clean(sar+"/"+name), root) {
			name = "../victim" // Stay inside of the scratch tree
		}
	}
	if r.Intn(12) == 0 {
		name = filepath.Join(root, "victim") // Absolute
	}
	clean := filepath.Clean(sar + "/" + name)
	in := clean == sar || strings.HasPrefix(clean, sar+"/")
	if !in {
		c.Obs("escape")
	} else {
		c.Obs("inside")
	}
	before, err := treeOf(root)
	must(err)
	leak := func(what string, b []byte) {
		if bytes.Contains(b, []byte("secret")) {
			c.Fail("leak", "%s(%q) gives the content of a file outside of %s: %q", what, name, sar, b)
		}
	}
	refuse := func(what string, ok bool) {
		if !in && ok {
			c.Fail("escape", "%s(%q) reaches outside of the saratoga directory", what, name)
		}
	}
	op := pick(r, "exists", "open", "open", "rm", "meta", "checksum", "dirent", "metadata")
	tt := ""
	var target os.FileInfo
	ti, terr := os.Stat(clean)
	if terr == nil {
		target = ti
	}
	isfile := in && target != nil && target.Mode().IsRegular()
	// Names through something that is no directory or does not exist mean nothing on the file system
	_, raw := os.Stat(sar + "/" + name)
	// A name that leaves the directory and comes back may be refused or served
	works := isfile && raw == nil && filepath.IsLocal(strings.TrimLeft(name, "/"))
	changed := map[string]bool{}
	switch op {
	case "exists":
		e := fileio.FileExists(name)
		refuse("FileExists", e)
		if works && !e {
			c.Fail("inside", "FileExists(%q) is false for a file in the directory", name)
		}
	case "open":
		tt = pick(r, "get", "take", "put", "give", "putblind", "delete", "getdir")
		fp, err := fileio.FileOpen(name, tt)
		refuse("FileOpen "+tt, fp != nil || tt == "getdir" && err == nil)
		if tt == "getdir" && in {
			os.Chmod(clean, 0755)
			changed[clean] = true
		}
		if fp != nil {
			b := make([]byte, 200)
			n, _ := fp.ReadAt(b, 0)
			leak("FileOpen "+tt, b[:n])
			if in && (tt == "get" || tt == "take") {
				changed[clean] = true
			}
			fp.Close()
		} else if works && (tt == "put" || tt == "give" || tt == "putblind") {
			c.Fail("inside", "FileOpen(%q, %s) of a file in the directory: %v", name, tt, err)
		}
	case "rm":
		if in && target != nil && target.IsDir() {
			break
		}
		err := fileio.FileRm(name)
		refuse("FileRm", err == nil)
		if works {
			if err != nil {
				c.Fail("inside", "FileRm(%q) of a file in the directory: %v", name, err)
			}
		}
		if in && err == nil {
			changed[clean] = true
		}
	case "meta":
		m, err := fileio.FileMeta(name)
		refuse("FileMeta", err == nil && m != nil)
		if works && err != nil {
			c.Fail("inside", "FileMeta(%q) of a file in the directory: %v", name, err)
		}
	case "checksum":
		s, err := fileio.Checksum(pick(r, "crc32", "md5", "sha1"), name)
		refuse("Checksum", err == nil)
		if works && (err != nil || len(s) == 0) {
			c.Fail("inside", "Checksum(%q) of a file in the directory: %v", name, err)
		}
	case "dirent":
		var d dirent.DirEnt
		err := d.New("property=normalfile,descriptor=d32", name)
		refuse("directory entry", err == nil)
		if works && err != nil {
			c.Fail("inside", "directory entry of %q in the directory: %v", name, err)
		}
	case "metadata":
		var m metadata.MetaData
		err := m.New("transfer=file,csumtype=md5,descriptor=d32", &metadata.Minfo{Session: 1, Fname: name})
		refuse("metadata frame", err == nil)
		if works && err != nil {
			c.Fail("inside", "metadata of %q in the directory: %v", name, err)
		}
	}
	c.Obs(op)
	after, err := treeOf(root)
	must(err)
	for k := range changed {
		rel, _ := filepath.Rel(root, k)
		delete(before, rel)
		delete(after, rel)
	}
	if d := treeDiff(after, before); d != "" {
		c.Fail("escape", "%s(%q) %s: %s", op, name, tt, d)
	}
	if cwd, err := os.Getwd(); err != nil || cwd != c.Dir {
		c.Fail("escape", "%s(%q) moved the process to %s", op, name, cwd)
		os.Chdir(c.Dir)
	}
	c.Sig("%s %s %s", op, tt, name)
	if c.Wants() {
		c.Sample(map[string]string{"op": op, "name": name})
	}
}

// ---- C14

func refSum(t string, b []byte) []byte {
	switch t {
	case "crc32":
		v := crc32.ChecksumIEEE(b)
		return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	case "md5":
		s := md5.Sum(b)
		return s[:]
	case "sha1":
		s := sha1.Sum(b)
		return s[:]
	}
	return nil
}

func runC14(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir, "sar")
	must(os.MkdirAll(filepath.Join(dir, "d"), 0755))
	setSardir(dir)
	name := c.Pre + fileName(r)
	if r.Intn(4) == 0 {
		name = "d/" + name
	}
	if r.Intn(25000) == 0 { // More than 32 bits can count
		c.Obs("over4g")
		p := filepath.Join(dir, name)
		defer os.Remove(p)
		b := randBytes(r, 1000)
		front := []int{0, 1 << 32, 1<<31 - 500, 1<<32 - 500, 1<<32 + r.Intn(1<<20)}[r.Intn(5)]
		fp, err := os.Create(p)
		must(err)
		_, err = fp.WriteAt(b, int64(front))
		must(err)
		size := max(int64(front)+1000, 1<<31+int64(r.Intn(1<<31)))
		must(fp.Truncate(size))
		must(fp.Close())
		h := crc32.NewIEEE()
		zero := make([]byte, 1<<20)
		pad := func(n int64) {
			for n > 0 {
				k := min(n, int64(len(zero)))
				h.Write(zero[:k])
				n -= k
			}
		}
		pad(int64(front))
		h.Write(b)
		pad(size - int64(front) - 1000)
		if got, err := fileio.Checksum("crc32", name); err != nil || !bytes.Equal(got, h.Sum(nil)) {
			c.Fail("checksum", "crc32 of %q with %d bytes is %x, %v want %x", name, size, got, err, h.Sum(nil))
		}
		return
	}
	size := r.Intn(2000)
	switch r.Intn(20) {
	case 0:
		size = 0
		c.Obs("empty")
	case 1:
		size = 1 << uint(r.Intn(20))
		size += r.Intn(3) - 1
	case 2:
		if r.Intn(3) == 0 {
			c.Obs("big")
			size = 1<<20 + r.Intn(3<<20)
			if r.Intn(50) == 0 {
				c.Obs("huge")
				size = 1 << uint(22+r.Intn(5))
				size += r.Intn(3) - 1
			}
		}
	}
	b := fileContent(r, size)
	p := filepath.Join(dir, name)
	must(os.WriteFile(p, b, 0644))
	defer os.Remove(p)
	t := pick(r, "crc32", "md5", "sha1", "none", "crc32", "md5", "sha1", "sha256", "", "CRC32", "invalid2", "crc", "adler")
	want := refSum(t, b)
	got, err := fileio.Checksum(t, name)
	switch t {
	case "crc32", "md5", "sha1", "none":
		c.Obs(t)
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("checksum", "%s of %q with %d bytes is %x, %v want %x", t, name, size, got, err, want)
			return
		}
	default:
		c.Obs("unknown")
		if err == nil {
			c.Fail("unknown", "checksum type %q is accepted: %x", t, got)
		}
		return
	}
	if size > 0 && t != "none" { // One bit
		i := r.Intn(size)
		b[i] ^= 1 << uint(r.Intn(8))
		must(os.WriteFile(p, b, 0644))
		got2, err := fileio.Checksum(t, name)
		if err != nil || !bytes.Equal(got2, refSum(t, b)) || bytes.Equal(got, got2) {
			c.Fail("checksum", "%s of %q does not follow its content: %x %x, %v", t, name, got, got2, err)
		}
	}
	after, _ := os.ReadFile(p)
	if !bytes.Equal(after, b) {
		c.Fail("checksum", "the file changed while its checksum was taken")
	}
	if r.Intn(5) == 0 {
		c.Obs("missing")
		if _, err := fileio.Checksum(t, name+".nosuch"); err == nil {
			c.Fail("missing", "%s of a missing file", t)
		}
		if t != "none" {
			if _, err := fileio.Checksum(t, "d"); err == nil {
				c.Fail("missing", "%s of a directory", t)
			}
		}
	}
	c.Sig("%s %x", t, want)
	if c.Wants() {
		c.Sample(map[string]interface{}{"type": t, "size": size, "checksum": fmt.Sprintf("%x", want)})
	}
}

// ---- C15

// A directory entry of its own
func direntC15(c *Case, name, kind string, size int64, fi os.FileInfo, ct time.Time, untold bool) {
	r := c.R
	var d dirent.DirEnt
	if r.Intn(2) == 0 { // Another one before
		c.Obs("dirent reused")
		if err := d.New("property=normaldirectory,descriptor=d64", "d"); err != nil {
			c.Fail("dirent", "directory entry of a directory: %v", err)
		}
	}
	prop := map[string]string{"file": "normalfile", "directory": "normaldirectory", "stream": "specialfile"}[kind]
	desc := pick(r, "d16", "d32", "d64")
	fs := []string{"property=" + prop, "descriptor=" + desc}
	if r.Intn(2) == 0 {
		fs[0], fs[1] = fs[1], fs[0]
	}
	flags := strings.Join(fs, pick(r, ",", ",", ", ", " , "))
	arg := name
	if kind != "stream" && r.Intn(6) == 0 {
		arg += ".nosuch"
	}
	err := d.New(flags, arg)
	what := fmt.Sprintf("directory entry of %s %q (%d bytes, %v) with %q", kind, arg, size, fi.ModTime(), flags)
	if arg != name || untold {
		c.Obs("dirent refused")
		if err == nil {
			c.Fail("dirent", "%s is accepted", what)
		}
		return
	}
	if err != nil {
		c.Fail("dirent", "%s: %v", what, err)
		return
	}
	c.Obs("dirent")
	if kind == "directory" {
		size = fi.Size()
	}
	if kind == "stream" {
		size = 0
	}
	h := refDirent["sod"].put(16, 0, 1)
	h = refDirent["descriptor"].put(16, h, refFields["descriptor"].Opts[desc])
	if d.Path != arg || d.Size != uint64(size) || refDirent["descriptor"].get(16, uint32(d.Header)) != refDirent["descriptor"].get(16, h) || refDirent["sod"].get(16, uint32(d.Header)) != 1 {
		c.Fail("dirent", "%s: %s", what, d.Print())
		return
	}
	if s, _ := refDirent["property"].name(refDirent["property"].get(16, uint32(d.Header))); s != prop {
		c.Fail("dirent", "%s: property %s", what, s)
		return
	}
	if kind != "stream" && (d.Mtime.Print() != refTSPrint("epoch2000_32", fi.ModTime()) || d.Ctime.Print() != refTSPrint("epoch2000_32", ct)) {
		c.Fail("dirent", "%s: %s, want %v and %v", what, d.Print(), fi.ModTime(), ct)
		return
	}
	b, err := d.Encode()
	if _, m := dsize(desc); uint64(size) > m != (err != nil) {
		c.Fail("dirent", "%s: encoded as %x, %v", what, b, err)
		return
	}
	if err == nil {
		var e dirent.DirEnt
		if err := e.Decode(b); err != nil || e.Header != d.Header || e.Size != d.Size || e.Path != d.Path || e.Mtime.Print() != d.Mtime.Print() || e.Ctime.Print() != d.Ctime.Print() {
			c.Fail("dirent", "%s: decodes to %s, %v", what, e.Print(), err)
		}
	}
	c.Sig("dirent %d %v %s %s", size, fi.ModTime().Unix(), kind, flags)
}

func runC15(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir, "sar")
	must(os.MkdirAll(filepath.Join(dir, "d"), 0755))
	setSardir(dir)
	name := c.Pre + fileName(r)
	if r.Intn(4) == 0 {
		name = "d/" + name
	}
	p := filepath.Join(dir, name)
	defer os.RemoveAll(p)
	kind := pick(r, "file", "file", "file", "file", "file", "file", "directory", "stream")
	var content []byte
	var size int64
	switch kind {
	case "file":
		content = fileContent(r, r.Intn(1000))
		size = int64(len(content))
		must(os.WriteFile(p, content, 0644))
		if r.Intn(2) == 0 { // Sparse
			sizes := []int64{0, 1, 65534, 65535, 65536, 65537, 1 << 20, 3<<20 + 1}
			if r.Intn(12) == 0 {
				sizes = []int64{1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 5 << 30, 8<<30 + 7}
			}
			size = sizes[r.Intn(len(sizes))]
			must(os.Truncate(p, 0))
			must(os.Truncate(p, size))
			content = nil
		}
	case "directory":
		must(os.Mkdir(p, 0755))
	case "stream":
		if r.Intn(8) == 0 { // Nothing that can be transferred
			kind = "socket"
			must(syscall.Mknod(p, syscall.S_IFSOCK|0600, 0))
		} else {
			must(syscall.Mkfifo(p, 0600))
		}
	}
	mt := time.Unix(y2k.Unix()+r.Int63n(1<<31), int64(r.Intn(1e9)))
	switch r.Intn(6) {
	case 0:
		mt = time.Now()
	case 1:
		mt = y2k
	case 2:
		mt = time.Unix(1<<31-1+r.Int63n(5), 0)
	case 3:
		if r.Intn(3) == 0 { // A directory entry cannot say this
			mt = y2k.Add(-time.Duration(1+r.Int63n(900000000)) * time.Second)
			if r.Intn(2) == 0 {
				mt = time.Unix(y2k.Unix()+1<<32+r.Int63n(900000000), 0)
			}
		}
	}
	must(os.Chtimes(p, time.Now(), mt))
	fi, err := os.Stat(p)
	must(err)
	mt = fi.ModTime() // What the file system kept
	st := fi.Sys().(*syscall.Stat_t)
	ct := time.Unix(st.Ctim.Sec, st.Ctim.Nsec)

	secs := mt.Unix() - y2k.Unix()
	untold := kind != "stream" && (secs < 0 || secs > 1<<32-1)
	if r.Intn(8) == 0 && kind != "socket" {
		direntC15(c, name, kind, size, fi, ct, untold)
		return
	}
	transfer := kind
	if kind == "socket" {
		c.Obs(kind)
	}
	if r.Intn(5) == 0 || kind == "socket" {
		transfer = pick(r, "file", "directory", "stream", "bundle")
	}
	csum := pick(r, "none", "none", "crc32", "md5", "sha1")
	if size > 4<<20 || transfer != "file" && r.Intn(4) != 0 {
		csum = "none"
	}
	desc := pick(r, "d16", "d32", "d64")
	session := sess(r)
	var m metadata.MetaData
	if r.Intn(3) == 0 { // A struct that described another file before
		c.Obs("reused")
		on := c.Pre + "other" + fmt.Sprint(r.Intn(1000))
		must(os.WriteFile(filepath.Join(dir, on), fileContent(r, 70000), 0644))
		if err := m.New("transfer=file,descriptor="+desc+",csumtype="+pick(r, "none", "md5", "sha1", "crc32"), &metadata.Minfo{Session: 99, Fname: on}); err != nil {
			c.Fail("new", "metadata of a file of 70000 bytes: %v", err)
		}
		os.Remove(filepath.Join(dir, on))
	}
	prog, rel := pick(r, "inprogress", "terminated"), pick(r, "udponly", "udplite")
	h := refSet(refSet(0, "version", "v1"), "frametype", "metadata")
	h = refSet(refSet(refSet(refSet(h, "descriptor", desc), "transfer", transfer), "progress", prog), "reliability", rel)
	h = refSet(refSet(h, "csumtype", csum), "csumlen", csum)
	arg := name
	if r.Intn(12) == 0 {
		c.Obs("missing")
		arg = name + ".nosuch"
	}
	info := &metadata.Minfo{Session: session, Fname: arg}
	how := "New"
	if r.Intn(2) == 0 {
		how = "Make"
		hh := h
		if r.Intn(2) == 0 {
			hh = refSet(h, "csumlen", "none")
		}
		err = m.Make(hh, info)
	} else {
		err = m.New(fmt.Sprintf("descriptor=%s,transfer=%s,progress=%s,reliability=%s,csumtype=%s", desc, transfer, prog, rel, csum), info)
	}
	what := fmt.Sprintf("%s of %s %q (%d bytes, %v) as %s with %s", how, kind, arg, size, mt, transfer, csum)
	bad := transfer != kind || arg != name || (csum != "none" && kind != "file")
	if bad {
		c.Obs("mismatch")
		if err == nil {
			c.Fail("mismatch", "%s is accepted", what)
		}
		return
	}
	if untold {
		c.Obs("untold")
		if err == nil {
			c.Fail("mtime", "%s is accepted, with the time %s", what, m.Dir.Mtime.Print())
		}
		return
	}
	if err != nil {
		c.Fail("new", "%s: %v", what, err)
		return
	}
	c.Obs(kind)
	if csum != "none" {
		c.Obs("csum")
		if content == nil {
			content = make([]byte, size)
		}
	}
	want := refSum(csum, content)
	b, err := m.Encode()
	if err != nil {
		c.Fail("encode", "%s cannot be encoded: %v", what, err)
		return
	}
	var y metadata.MetaData
	if err := y.Decode(b); err != nil {
		c.Fail("decode", "%s cannot be decoded: %v", what, err)
		return
	}
	wantprop := map[string]string{"file": "normalfile", "directory": "normaldirectory", "stream": "specialfile"}[kind]
	wsize := uint64(size)
	if kind == "directory" {
		wsize = uint64(fi.Size())
	}
	if kind == "stream" {
		wsize = 0
	}
	for i, x := range []*metadata.MetaData{&m, &y} {
		w := what + []string{"", ", decoded"}[i]
		if x.Header != h || x.Session != session || x.Dir.Path != arg {
			c.Fail("header", "%s: header %08x session %d path %q, want %08x %d", w, x.Header, x.Session, x.Dir.Path, h, session)
			return
		}
		if x.Dir.Size != wsize {
			c.Fail("size", "%s: size %d", w, x.Dir.Size)
			return
		}
		if !bytes.Equal(x.Checksum, want) {
			c.Fail("checksum", "%s: checksum %x want %x", w, x.Checksum, want)
			return
		}
		dh := uint32(x.Dir.Header)
		if s, _ := refDirent["property"].name(refDirent["property"].get(16, dh)); s != wantprop {
			c.Fail("property", "%s: property %s", w, s)
			return
		}
		dd, _ := refDirent["descriptor"].name(refDirent["descriptor"].get(16, dh))
		if _, m := dsize(dd); m < wsize {
			c.Fail("descriptor", "%s: descriptor %s of the directory entry", w, dd)
			return
		}
		if i == 0 {
			c.Obs(dd)
		}
		if kind != "stream" {
			if mp := x.Dir.Mtime.Print(); mp != refTSPrint("epoch2000_32", mt) {
				c.Fail("mtime", "%s: modified %s", w, mp)
				return
			}
			if cp := x.Dir.Ctime.Print(); cp != refTSPrint("epoch2000_32", ct) {
				c.Fail("ctime", "%s: changed %s want %s", w, cp, refTSPrint("epoch2000_32", ct))
				return
			}
		}
	}
	c.Sig("%s %d %v %s %s %s", how, size, mt.Unix(), kind, csum, desc)
	if c.Wants() {
		c.Sample(what)
	}
}
