package main

// The wire format of Saratoga frames, written down independently of the code
// under test: bit positions from the frame diagrams, byte layout from the
// frame descriptions.  Bits count from the most significant one.

import (
	"encoding/binary"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/sarflags"
)

type field struct {
	Len, Msb uint
	Opts     map[string]uint32
}

func opts(names ...string) map[string]uint32 {
	m := map[string]uint32{}
	for i, n := range names {
		if n != "" {
			m[n] = uint32(i)
		}
	}
	return m
}

var refFields = map[string]field{
	"version":       {3, 0, opts("v0", "v1")},
	"frametype":     {5, 3, opts("beacon", "request", "metadata", "data", "status")},
	"descriptor":    {2, 8, opts("d16", "d32", "d64", "d128")},
	"stream":        {1, 11, opts("no", "yes")},
	"transfer":      {2, 10, opts("file", "directory", "bundle", "stream")},
	"fileordir":     {1, 10, opts("file", "directory")},
	"reqtstamp":     {1, 12, opts("no", "yes")},
	"progress":      {1, 12, opts("inprogress", "terminated")},
	"txwilling":     {2, 12, opts("no", "invalid", "capable", "yes")},
	"metadatarecvd": {1, 13, opts("yes", "no")},
	"allholes":      {1, 14, opts("yes", "no")},
	"reqtype":       {8, 24, opts("noaction", "get", "put", "take", "give", "delete", "getdir")},
	"rxwilling":     {2, 14, opts("no", "invalid", "capable", "yes")},
	"reqholes":      {1, 15, opts("requested", "voluntarily")},
	"reqstatus":     {1, 15, opts("no", "yes")},
	"udplite":       {1, 16, opts("no", "yes")},
	"eod":           {1, 16, opts("no", "yes")},
	"freespace":     {1, 17, opts("no", "yes")},
	"freespaced":    {2, 18, opts("d16", "d32", "d64", "d128")},
	"csumlen":       {4, 24, opts("none", "crc32", "invalid2", "invalid3", "md5", "sha1")},
	"csumtype":      {4, 28, opts("none", "crc32", "md5", "sha1")},
	"reliability":   {1, 13, opts("udponly", "udplite")},
	"errcode": {8, 24, opts("success", "unspecified", "cantsend", "cantreceive", "filenotfound", "accessdenied",
		"unknownid", "didnotdelete", "filetobig", "badoffset", "badpacket", "badrequest", "internaltimeout",
		"baddataflag", "rxnotinterested", "fileinuse", "metadatarequired", "badstatus", "rxtimeout")},
}

var refDirent = map[string]field{
	"sod":        {1, 0, opts("", "sod")},
	"property":   {2, 6, opts("normalfile", "normaldirectory", "specialfile", "specialdirectory")},
	"descriptor": {2, 8, opts("d16", "d32", "d64", "d128")},
	"reserved":   {1, 10, opts("reserved")},
}

var refTstamp = field{8, 0, opts("localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32")}

var refFrame = map[string][]string{
	"beacon":   {"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace", "freespaced"},
	"request":  {"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "reqtype", "fileordir", "udplite"},
	"metadata": {"version", "frametype", "descriptor", "transfer", "progress", "reliability", "csumlen", "csumtype"},
	"data":     {"version", "frametype", "descriptor", "transfer", "reqtstamp", "reqstatus", "eod"},
	"status":   {"version", "frametype", "descriptor", "reqtstamp", "metadatarecvd", "allholes", "reqholes", "errcode"},
}

func (f field) mask(width uint) uint32 {
	return ((1 << f.Len) - 1) << (width - f.Len - f.Msb)
}
func (f field) put(width uint, h, v uint32) uint32 {
	return h&^f.mask(width) | v<<(width-f.Len-f.Msb)
}
func (f field) get(width uint, h uint32) uint32 {
	return h & f.mask(width) >> (width - f.Len - f.Msb)
}
func (f field) name(v uint32) (string, bool) {
	for k, o := range f.Opts {
		if o == v {
			return k, true
		}
	}
	return "", false
}

func refSet(h uint32, fl, opt string) uint32 {
	f := refFields[fl]
	v, ok := f.Opts[opt]
	if !ok {
		fatal("refSet %s=%s", fl, opt)
	}
	return f.put(32, h, v)
}
func refGet(h uint32, fl string) uint32 { return refFields[fl].get(32, h) }
func refStr(h uint32, fl string) string {
	s, _ := refFields[fl].name(refGet(h, fl))
	return s
}

func keys(m map[string]uint32) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
func fieldNames(m map[string]field) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// dsize: bytes of a descriptor, its largest value
func dsize(d string) (int, uint64) {
	switch d {
	case "d16":
		return 2, 1<<16 - 1
	case "d32":
		return 4, 1<<32 - 1
	case "d64":
		return 8, 1<<64 - 1
	}
	return 0, 0
}

func putD(b []byte, d string, v uint64) []byte {
	switch d {
	case "d16":
		return binary.BigEndian.AppendUint16(b, uint16(v))
	case "d32":
		return binary.BigEndian.AppendUint32(b, uint32(v))
	}
	return binary.BigEndian.AppendUint64(b, v)
}

// valFor: a value that fits in descriptor d, boundary values often
func valFor(r *rand.Rand, d string) uint64 {
	_, m := dsize(d)
	switch r.Intn(8) {
	case 0:
		return m
	case 1:
		return m - 1
	case 2:
		return 0
	case 3: // The boundaries of the smaller descriptors
		v := []uint64{1<<8 - 1, 1 << 8, 1<<15 - 1, 1 << 15, 1<<16 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<62 + 5}
		x := v[r.Intn(len(v))]
		if x <= m {
			return x
		}
	}
	return r.Uint64() >> uint(r.Intn(64)) & m
}

var tsTypes = []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}

var y2k = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// refTS: the 16 bytes of a timestamp of type tt for the time t, false if it cannot be represented
func refTS(tt string, t time.Time) ([]byte, bool) {
	b := make([]byte, 16)
	b[0] = byte(refTstamp.Opts[tt])
	secs, ns := t.Unix(), t.Nanosecond()
	switch tt {
	case "posix32", "posix32_32":
		if secs < 0 || secs > 1<<32-1 {
			return nil, false
		}
		binary.BigEndian.PutUint32(b[1:], uint32(secs))
		if tt == "posix32_32" {
			binary.BigEndian.PutUint32(b[5:], uint32(ns))
		}
	case "posix64", "posix64_32":
		binary.BigEndian.PutUint64(b[1:], uint64(secs))
		if tt == "posix64_32" {
			binary.BigEndian.PutUint32(b[9:], uint32(ns))
		}
	case "epoch2000_32":
		secs -= y2k.Unix()
		if secs < 0 || secs > 1<<32-1 {
			return nil, false
		}
		binary.BigEndian.PutUint32(b[1:], uint32(secs))
	case "localinterp":
		copy(b[1:15], "localinterp")
	}
	return b, true
}

// refTSPrint: what a reader sees
func refTSPrint(tt string, t time.Time) string {
	switch tt {
	case "posix32", "posix64", "epoch2000_32":
		return t.UTC().Format("Mon Jan _2 15:04:05 2006 UTC")
	case "posix32_32", "posix64_32":
		return t.UTC().Format("Mon Jan _2 15:04:05.000 2006 UTC")
	}
	return "localinterp"
}

// randTime: a time that type tt represents
func randTime(r *rand.Rand, tt string) time.Time {
	ns := int64(r.Intn(1e9))
	switch r.Intn(6) {
	case 0:
		ns = 0
	case 1:
		ns = 999999999
	}
	m32 := func() int64 {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return 1<<32 - 1
		case 2:
			return 1 << 31
		case 3:
			return 1<<31 - 1
		}
		return int64(r.Uint32())
	}
	switch tt {
	case "posix32", "posix32_32":
		return time.Unix(m32(), ns)
	case "epoch2000_32":
		return time.Unix(y2k.Unix()+m32(), ns)
	}
	switch r.Intn(5) {
	case 0: // Before 1970
		return time.Unix(-r.Int63n(1<<36), ns)
	case 1: // Far beyond what nanoseconds since 1970 can count
		return time.Unix(1<<34+r.Int63n(1<<36), ns)
	case 2:
		return time.Unix(m32(), ns)
	}
	return time.Unix(r.Int63n(1<<34), ns)
}

// conf loads the configuration of the repository the way every program of it does
func conf(sardir string) *sarflags.Cliflags {
	c := new(sarflags.Cliflags)
	os.Setenv("SARDIR", sardir)
	if err := c.ReadConfig(os.Getenv("VMON_CONF")); err != nil {
		fatal("ReadConfig: %v", err)
	}
	sarflags.Cliflag = c
	return c
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// randName: file names of all sorts of bytes, no NUL
func randName(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return pick(r, "a", "go.mod", "dir/file.txt", "x y z", ".hidden", "ümlaut.txt", "日本語", "a\xff\xfeb", "\x80", "name\nline", "%s%d%n")
	case 1: // Any bytes
		b := randBytes(r, 1+r.Intn(60))
		for i := range b {
			if b[i] == 0 {
				b[i] = 1
			}
		}
		return string(b)
	case 2: // Long
		return strings.Repeat(pick(r, "n", "é", "/d"), 1+r.Intn(500))
	}
	const cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-/"
	b := make([]byte, 1+r.Intn(40))
	for i := range b {
		b[i] = cs[r.Intn(len(cs))]
	}
	return string(b)
}

// randFlags: a random assignment of the named fields, as a flag string and as header bits
func randFlags(r *rand.Rand, names []string, fixed map[string]string, h uint32) (string, uint32) {
	perm := r.Perm(len(names))
	var out []string
	for _, i := range perm {
		n := names[i]
		f := refFields[n]
		ks := keys(f.Opts)
		o, ok := fixed[n]
		if !ok {
			if r.Intn(4) == 0 {
				continue // Left out: stays 0
			}
			o = ks[r.Intn(len(ks))]
		}
		out = append(out, n+"="+o)
		h = refSet(h, n, o)
	}
	sep := ","
	if r.Intn(3) == 0 {
		sep = ", "
	}
	return strings.Join(out, sep), h
}
