//go:build ui

package main

// C18: the table of transfers; C19: status frames of a transfer

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/status"
)

func init() {
	register(&Prop{ID: "C18", Quick: 6000, Thorough: 80000, Hang: true, Race: true, Nobody: true, Init: initUI, Run: runC18,
		Rule: "random histories of new transfers (every type, begun by the call and by the command, existing and missing files and directories, several peers on loopback), look-ups by session and peer (right and wrong direction, session, address and port), removals (also of removed ones, and through the rmtran command), settings changed in between, arriving metadata and requests (accepted exactly when the file is there to be read or removed, or not there to be written, and with what the file is), against a model: a transfer exists exactly from its creation to its removal, is found by exactly its own key, has its own session number, settings as they were when it began, an open file of its own; a refused one changes neither the table nor the directory. One case in four has 2-10 goroutines start, find, list and remove transfers at once, and the same request arrive several times at once. Race detector on. Distinct by the history.",
		Need: map[string]int{"created": 3000, "refused": 1000, "removed": 500, "found": 5000, "notfound": 3000, "changed": 200, "rechanged": 50, "nearkey": 5000, "sibling": 100, "rmresponder": 50, "unchanged": 50, "listed": 200, "concurrent": 300, "sameconc": 100, "rmtran": 100, "responder": 500, "crowd": 10, "removed-at-once": 1000, "responding": 200, "responder-refused": 200, "asked-at-once": 300, "command": 300, "command-waits": 5}})
	register(&Prop{ID: "C19", Quick: 15000, Thorough: 80000, Hang: true, Init: initUI, Run: runC19,
		Rule: "a transfer with a random set of received ranges (0 to several hundred holes), any descriptor, timestamp type, error code, progress and MTU sends its status over a real dialled socket; the monitor receives the datagrams: every hole exactly once, in order; no datagram longer than what a peer with this MTU accepts; allholes says yes exactly when one datagram carries all; session, progress, in-response-to and flags as given; an error status is one datagram without holes; what cannot be sent is reported and sends nothing. Distinct by holes, flags and MTU.",
		Need: map[string]int{"sent": 1500, "frames": 3000, "several": 300, "noholes": 100, "exact": 30, "error": 200, "tstamp": 300, "refused": 50}})
}

var ttypes = []string{"get", "take", "put", "give", "putblind", "delete", "getdir"}

type mtran struct {
	t     *sarwin.Transfer
	ttype string
	name  string
	peer  string
	sess  uint32
	flags string
}

func flagsOf(c *sarflags.Cliflags) string { return fmt.Sprintf("%+v", *c) }

func closeT(t *sarwin.Transfer) {
	if t.Conn != nil {
		t.Conn.Close()
	}
	if t.Fp != nil {
		t.Fp.Close()
	}
}

func setTransfers(ts []*sarwin.Transfer) {
	sarwin.Trmu.Lock()
	for _, t := range sarwin.Transfers {
		closeT(t)
	}
	sarwin.Transfers = ts
	sarwin.Trmu.Unlock()
}

func tableSize() int {
	sarwin.Trmu.Lock()
	defer sarwin.Trmu.Unlock()
	return len(sarwin.Transfers)
}

// Change some setting, the way the commands do
func meddle(c *Case) {
	r := c.R
	sarflags.Climu.Lock()
	defer sarflags.Climu.Unlock()
	f := sarflags.Cliflag
	switch r.Intn(5) {
	case 0:
		f.Global["descriptor"] = pick(r, "d16", "d32", "d64")
	case 1:
		f.Global["csumtype"] = pick(r, "none", "crc32", "md5", "sha1")
	case 2:
		f.Timestamp = pick(r, "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32")
	case 3:
		f.Timeout.Metadata, f.Timeout.Request = r.Intn(100), r.Intn(100)
		f.Timeout.Status, f.Timeout.Transfer = r.Intn(100), r.Intn(100)
		f.Timeout.Datacounter, f.Timeout.Binterval = r.Intn(100), uint(r.Intn(100))
	default:
		f.Bcount = uint(r.Intn(9))
		f.Timezone = pick(r, "utc", "local")
		f.Global["txwilling"] = pick(r, "yes", "no", "capable")
	}
}

func c18Dir(c *Case) (string, []string) {
	sar := filepath.Join(c.Dir, "sar")
	must(os.RemoveAll(sar))
	must(os.MkdirAll(filepath.Join(sar, "d"), 0755))
	names := []string{}
	for i := 0; i < 3; i++ {
		n := fmt.Sprintf("f%d", i)
		must(os.WriteFile(filepath.Join(sar, n), fileContent(c.R, c.R.Intn(200)), 0644))
		names = append(names, n)
	}
	must(os.WriteFile(filepath.Join(sar, "d", "in"), []byte("inside"), 0644))
	setSardir(sar)
	return sar, append(names, "d/in", "new1", "new2", "d/new3", "nodir/new4", "../escape")
}

var seenSess = map[uint32]bool{}

func runC18(c *Case) {
	r := c.R
	s := getScreen()
	if c.I%50 == 0 {
		s.clear()
	}
	setTransfers(nil)
	defer setTransfers(nil)
	sar, names := c18Dir(c)
	if r.Intn(4) == 0 {
		concC18(c, s, sar)
		return
	}
	peers := []*net.UDPAddr{{IP: net.IPv4(127, 0, 0, 1), Port: 7542}, {IP: net.IPv4(127, 0, 0, 11), Port: 7542}, {IP: net.IPv4(127, 0, 0, 1), Port: 17542}, {IP: net.IPv4(127, 0, 0, 2), Port: 7542}}
	var live, dead []*mtran
	want, err := treeOf(sar)
	must(err)
	trace := ""
	k := 2 + r.Intn(20)
	crowd := r.Intn(150) == 0 // Hundreds of transfers
	if crowd {
		c.Obs("crowd")
		k = 100 + r.Intn(250)
		for i := 0; i < 100; i++ {
			n := fmt.Sprintf("g%d", i)
			if i%2 == 0 {
				must(os.WriteFile(filepath.Join(sar, n), []byte(n), 0644))
			}
			names = append(names, n)
		}
		want, err = treeOf(sar)
		must(err)
	}
	for i := 0; i < k; i++ {
		op := r.Intn(10)
		if crowd && r.Intn(2) == 0 {
			op = 0
		}
		switch {
		case op < 5: // A new transfer
			ttype, name, peer := ttypes[r.Intn(len(ttypes))], names[r.Intn(len(names))], peers[r.Intn(len(peers))]
			if r.Intn(20) == 0 {
				ttype = pick(r, "bogus", "", "rm")
			}
			if len(live) > 0 && r.Intn(4) == 0 { // One underway
				m := live[r.Intn(len(live))]
				name = m.name
				if r.Intn(2) == 0 {
					for _, p := range peers {
						if p.String() == m.peer {
							peer = p
						}
					}
				}
			}
			trace += fmt.Sprintf("%s %s %s; ", ttype, peer, name)
			ok := name != "../escape" || ttype == "delete" // A delete names a file of the peer
			_, exists := want[name]
			switch ttype {
			case "get", "take", "getdir":
				ok = ok && !exists && name != "nodir/new4"
			case "put", "give", "putblind":
				ok = ok && exists
			case "delete":
				if name == "../escape" {
					continue // Refused or not: not judged
				}
			default:
				ok = false
			}
			for _, m := range live {
				if m.name == name && m.peer == peer.String() {
					ok = false
				}
			}
			before := flagsOf(sarflags.Cliflag)
			pc := *peer
			var t *sarwin.Transfer
			var err error
			waits := ttype != "get" && ttype != "take" && ttype != "getdir" // The command stays until it is done, which is never
			if slices.Contains(ttypes, ttype) && peer.Port == sarflags.Cliflag.Port && (!waits && r.Intn(3) == 0 || waits && (!ok || c.I%40 == 0) && r.Intn(3) == 0) {
				c.Obs("command")
				if ok && waits {
					c.Obs("command-waits")
				}
				trace += "(command) "
				had := map[*sarwin.Transfer]bool{}
				sarwin.Trmu.Lock()
				for _, x := range sarwin.Transfers {
					had[x] = true
				}
				sarwin.Trmu.Unlock()
				sarwin.Run(s.g, fmt.Sprintf("%s %s %s", ttype, peer.IP, name))
				if fine, d := s.settle(20 * time.Second); !fine {
					c.Fail("stuck", "%s neither ends nor waits for its transfer: %s; %s", ttype, d, trace)
					return
				}
				err = errors.New("no new transfer")
				sarwin.Trmu.Lock()
				for _, x := range sarwin.Transfers {
					if !had[x] {
						t, err = x, nil
					}
				}
				sarwin.Trmu.Unlock()
			} else {
				t, err = sarwin.NewInitiator(s.g, ttype, &pc, name, sarflags.Cliflag)
			}
			if (err == nil) != ok || (t != nil) != ok {
				c.Fail("new", "transfer accepted: %v (%v), want %v; %s", err == nil, err, ok, trace)
				return
			}
			if ok {
				c.Obs("created")
				m := &mtran{t, ttype, name, peer.String(), t.Session, before}
				live = append(live, m)
				if seenSess[t.Session] {
					c.Fail("session", "session %d is used twice; %s", t.Session, trace)
					return
				}
				seenSess[t.Session] = true
				if ttype == "get" || ttype == "take" {
					want[name] = "file "
				}
				if ttype == "getdir" {
					want[name] = "dir"
				}
				if t.Ttype != ttype || t.Filename != name || t.Peer.String() != peer.String() || t.Direction != sarwin.Initiator {
					c.Fail("new", "%s of %s with %s makes the transfer %s; %s", ttype, name, peer, t.Print(), trace)
					return
				}
				if (t.Fp == nil) != (ttype == "delete" || ttype == "getdir") {
					c.Fail("file", "%s transfer has file %v", ttype, t.Fp)
					return
				}
				if t.Fp != nil && t.Fp.Name() != filepath.Join(sar, name) {
					c.Fail("file", "transfer of %q has opened %q", name, t.Fp.Name())
					return
				}
				if t.Conn == nil || t.Conn.RemoteAddr().String() != peer.String() {
					c.Fail("conn", "transfer with %v is connected to %v", peer, t.Conn)
					return
				}
			} else {
				c.Obs("refused")
			}
		case op < 7: // Remove
			var m *mtran
			was := false
			if len(live) > 0 && r.Intn(3) > 0 {
				k := r.Intn(len(live))
				m = live[k]
				live = append(live[:k:k], live[k+1:]...)
				dead = append(dead, m)
				was = true
			} else if len(dead) > 0 {
				m = dead[r.Intn(len(dead))]
			} else {
				continue
			}
			if r.Intn(3) == 0 { // The command
				c.Obs("rmtran")
				trace += fmt.Sprintf("rmtran %s %d; ", m.peer, m.sess)
				sarwin.Run(s.g, fmt.Sprintf("rmtran %s %d", m.peer, m.sess))
				if ok, d := s.settle(20 * time.Second); !ok {
					c.Fail("stuck", "rmtran does not end: %s", d)
					return
				}
				if was {
					c.Obs("removed")
				}
				break
			}
			trace += fmt.Sprintf("remove %s %d; ", m.peer, m.sess)
			if err := m.t.Remove(); (err == nil) != was {
				c.Fail("remove", "removing gives %v, was there: %v; %s", err, was, trace)
				return
			}
			if was {
				c.Obs("removed")
			}
		case op < 8 && r.Intn(2) == 0: // A request arrives: a transfer we respond to
			m := &mtran{ttype: pick(r, "get", "take", "put", "give", "delete", "getdir", "noaction"), name: names[r.Intn(len(names))], peer: peers[r.Intn(len(peers))].String(), sess: r.Uint32()}
			if len(live) > 0 && r.Intn(2) == 0 {
				m.sess = live[r.Intn(len(live))].sess
			}
			trace += fmt.Sprintf("respond %s %s %d %s; ", m.ttype, m.peer, m.sess, m.name)
			h := refSet(refSet(refSet(0, "version", "v1"), "frametype", "request"), "reqtype", m.ttype)
			h = refSet(h, "descriptor", pick(r, "d16", "d32", "d64"))
			err := sarwin.NewResponder(s.g, request.Request{Header: h, Session: m.sess, Fname: m.name}, m.peer)
			c.Obs("responder")
			t := sarwin.Lookup(sarwin.Responder, m.sess, m.peer)
			if (err == nil) != (t != nil) {
				c.Fail("respond", "starting to respond gives %v, the transfer is in the table: %v; %s", err, t != nil, trace)
				return
			}
			_, exists := want[m.name]
			local := m.ttype != "put" && m.ttype != "give"
			if m.name != "../escape" && m.ttype != "noaction" && (t != nil) != (exists == local) || t != nil && m.ttype == "noaction" || t != nil && local && m.name == "../escape" {
				c.Fail("respond", "a request to %s %s (there: %v) gives %v; %s", m.ttype, m.name, exists, err, trace)
				return
			}
			if t == nil {
				c.Obs("responder-refused")
				break
			}
			c.Obs("responding")
			if t.Direction != sarwin.Responder || t.Session != m.sess || t.Ttype != m.ttype || t.Filename != m.name || t.Peer.String() != m.peer || t.Conn == nil || t.Conn.RemoteAddr().String() != m.peer || t.Cliflags == nil || flagsOf(t.Cliflags) != flagsOf(sarflags.Cliflag) {
				c.Fail("respond", "the transfer is %+v; %s", t, trace)
				return
			}
			if local {
				fi, err := os.Stat(filepath.Join(sar, m.name))
				must(err)
				prop := 0 // A file
				if fi.IsDir() {
					prop = 1
				}
				if t.Filemeta == nil || t.Filemeta.Size != fi.Size() || t.Filemeta.IsDir != fi.IsDir() || t.Dir == nil || t.Dir.Size != uint64(fi.Size()) || t.Dir.Path != m.name ||
					int(t.Dir.Header>>8&3) != prop || uint32(t.Dir.Header>>6&3) != refGet(h, "descriptor") {
					c.Fail("respond", "a transfer of %s, kind %d of %d bytes, has %+v and %+v; %s", m.name, prop, fi.Size(), t.Filemeta, t.Dir, trace)
					return
				}
			}
			if err := sarwin.NewResponder(s.g, request.Request{Header: h, Session: m.sess, Fname: m.name}, m.peer); err == nil || tableSize() != len(live)+1 {
				c.Fail("respond", "a second transfer of the same session and peer gives %v; %s", err, trace)
				return
			}
			// Another asks for the same: of the same host with another port or another session, or of another host with the same session
			sib := *m
			switch r.Intn(3) {
			case 0:
				h, p, _ := net.SplitHostPort(m.peer)
				sib.peer = net.JoinHostPort(h, pick(r, "1"+p[1:], p[:3], "9999"))
			case 1:
				sib.sess ^= 1 << r.Intn(32)
			default:
				_, p, _ := net.SplitHostPort(m.peer)
				sib.peer = net.JoinHostPort(pick(r, "127.0.0.111", "127.0.0.3"), p)
			}
			if sib.peer == m.peer && sib.sess == m.sess {
				sib.peer = "127.0.0.4:7542"
			}
			if err := sarwin.NewResponder(s.g, request.Request{Header: h, Session: sib.sess, Fname: m.name}, sib.peer); err != nil {
				c.Fail("respond", "a request of session %d by %s is refused for that of session %d by %s: %v; %s", sib.sess, sib.peer, m.sess, m.peer, err, trace)
				return
			}
			sib.t = sarwin.Lookup(sarwin.Responder, sib.sess, sib.peer)
			if sib.t == nil || sib.t == t || tableSize() != len(live)+2 {
				c.Fail("respond", "the transfer of session %d by %s beside that of session %d by %s: %v; %s", sib.sess, sib.peer, m.sess, m.peer, sib.t, trace)
				return
			}
			first, second := m, &sib
			m.t = t
			if r.Intn(2) == 0 {
				first, second = second, first
			}
			c.Obs("sibling")
			rm := func(x *mtran) error {
				if r.Intn(2) == 0 || slices.ContainsFunc(live, func(o *mtran) bool { return o.sess == x.sess && o.peer == x.peer }) {
					return x.t.Remove()
				}
				c.Obs("rmresponder") // The command
				sarwin.Run(s.g, fmt.Sprintf("rmtran %s %d", x.peer, x.sess))
				if ok, d := s.settle(20 * time.Second); !ok {
					return fmt.Errorf("rmtran does not end: %s", d)
				}
				return nil
			}
			if err := rm(first); err != nil || sarwin.Lookup(sarwin.Responder, first.sess, first.peer) != nil || sarwin.Lookup(sarwin.Responder, second.sess, second.peer) != second.t {
				c.Fail("respond", "removing session %d by %s beside session %d by %s gives %v, the other is found: %v; %s", first.sess, first.peer, second.sess, second.peer, err, sarwin.Lookup(sarwin.Responder, second.sess, second.peer), trace)
				return
			}
			if err := rm(second); err != nil || sarwin.Lookup(sarwin.Responder, second.sess, second.peer) != nil {
				c.Fail("respond", "removing gives %v; %s", err, trace)
				return
			}
		case op < 8:
			meddle(c)
			continue
		case op < 9: // Metadata arrives
			if len(live) == 0 {
				continue
			}
			m := live[r.Intn(len(live))]
			var md metadata.MetaData
			// The file may have changed, and the checksum asked for with it
			ctype := pick(r, "none", "crc32", "md5", "sha1")
			h := refSet(refSet(refSet(0, "version", "v1"), "frametype", "metadata"), "csumtype", ctype)
			md.Header = h
			md.Checksum = randBytes(r, map[string]int{"none": 0, "crc32": 4, "md5": 16, "sha1": 20}[ctype])
			size := uint64(r.Intn(5000))
			if len(m.t.Data) > 0 && r.Intn(2) == 0 {
				size = uint64(len(m.t.Data))
			}
			md.Dir = dirent.DirEnt{Header: 0, Size: size, Path: m.name}
			var had int
			if m.t.Data != nil {
				had = len(m.t.Data)
			}
			was := *m.t
			err := m.t.Change(s.g, md)
			c.Obs("changed")
			if was.Havemeta && err == nil {
				c.Obs("rechanged")
			}
			if had > 0 && uint64(had) != size {
				if err == nil {
					c.Fail("change", "metadata of size %d is accepted for a transfer of size %d", size, had)
					return
				}
				if m.t.Havemeta != was.Havemeta || m.t.Csumtype != was.Csumtype || !bytes.Equal(m.t.Checksum, was.Checksum) || !reflect.DeepEqual(m.t.Dir, was.Dir) || len(m.t.Data) != had {
					c.Fail("change", "metadata of size %d is refused for a transfer of size %d and leaves %+v of %+v", size, had, m.t, was)
					return
				}
				c.Obs("unchanged")
				continue
			}
			if err != nil {
				c.Fail("change", "metadata of size %d is refused: %v", size, err)
				return
			}
			if !m.t.Havemeta || m.t.Csumtype != ctype || !bytes.Equal(m.t.Checksum, md.Checksum) || m.t.Dir == nil || m.t.Dir.Size != size || m.t.Dir.Path != m.name || uint64(len(m.t.Data)) != size {
				c.Fail("change", "after metadata of size %d the transfer is %+v", size, m.t)
				return
			}
			if ctype == "none" {
				continue
			}
			md.Checksum[0]++ // The frame's buffer is reused
			if m.t.Checksum[0] == md.Checksum[0] {
				c.Fail("change", "the transfer's checksum changes with the frame")
				return
			}
		default: // tran lists them
			s.flush()
			before := s.text("msg")
			which := pick(r, "", "get", "put", "delete", "give", "take", "putblind")
			sarwin.Info(s.g, which)
			out := strings.TrimPrefix(s.text("msg"), before)
			c.Obs("listed")
			n := 0
			for _, m := range live {
				if which != "" && m.ttype != which {
					continue
				}
				n++
				found := 0
				for _, l := range strings.Split(out, "\n") {
					f := strings.Split(l, "|")
					if len(f) == 6 && strings.TrimSpace(f[1]) == "Initiator" && strings.TrimSpace(f[2]) == m.ttype && strings.TrimSpace(f[3]) == m.peer && strings.TrimSpace(f[4]) == m.name {
						found++
					}
				}
				if found != 1 {
					c.Fail("list", "%s %s %s is listed %d times in %q", m.ttype, m.peer, m.name, found, out)
					return
				}
			}
			if got := strings.Count(out, "Initiator"); got != n {
				c.Fail("list", "%d transfers listed, there are %d: %q", got, n, out)
				return
			}
		}
		// The table
		if n := tableSize(); n != len(live) {
			c.Fail("table", "%d transfers in the table, want %d; %s", n, len(live), trace)
			return
		}
		for _, m := range live {
			if m.t.Session != m.sess || m.t.Ttype != m.ttype || m.t.Filename != m.name || m.t.Peer.String() != m.peer || m.t.Direction != sarwin.Initiator {
				c.Fail("table", "transfer %+v has become %s; %s", m, m.t.Print(), trace)
				return
			}
			if m.t.Cliflags == nil || flagsOf(m.t.Cliflags) != m.flags {
				c.Fail("flags", "the settings of a transfer have changed from %s to %+v; %s", m.flags, m.t.Cliflags, trace)
				return
			}
			if g := sarwin.Lookup(sarwin.Initiator, m.sess, m.peer); g != m.t {
				c.Fail("lookup", "look-up of session %d with %s gives %p want %p; %s", m.sess, m.peer, g, m.t, trace)
				return
			}
			if g := sarwin.Match(m.peer, m.sess); g != m.t {
				c.Fail("lookup", "match of session %d with %s gives %p want %p; %s", m.sess, m.peer, g, m.t, trace)
				return
			}
			c.Obs("found")
			if sarwin.Lookup(sarwin.Responder, m.sess, m.peer) != nil || sarwin.Lookup(sarwin.Initiator, m.sess, "127.0.0.111:7542") != nil ||
				sarwin.Match(strings.Replace(m.peer, ":", ":1", 1), m.sess) != nil || sarwin.Match(m.peer, m.sess+1000000) != nil || sarwin.Lookup(sarwin.Initiator, m.sess+1000000, m.peer) != nil {
				c.Fail("lookup", "a transfer is found by a key not its own; %s", trace)
				return
			}
			// Keys that are almost its own
			p, z := m.peer, m.sess
			switch r.Intn(6) {
			case 0:
				p = p[:len(p)-1]
			case 1:
				p += "0"
			case 2:
				p = "1" + p
			case 3:
				p = pick(r, "", strings.Split(p, ":")[0], ":7542", " "+p, "0.0.0.0:7542")
			default:
				z ^= 1 << r.Intn(32)
			}
			if z != m.sess && slices.ContainsFunc(live, func(o *mtran) bool { return o.sess == z && o.peer == p }) {
				continue
			}
			c.Obs("nearkey")
			if sarwin.Lookup(sarwin.Initiator, z, p) != nil || sarwin.Match(p, z) != nil || sarwin.Lookup(sarwin.Responder, z, p) != nil {
				c.Fail("lookup", "the transfer of session %d with %s is found by session %d with %q; %s", m.sess, m.peer, z, p, trace)
				return
			}
		}
		for _, m := range dead {
			if sarwin.Lookup(sarwin.Initiator, m.sess, m.peer) != nil || sarwin.Match(m.peer, m.sess) != nil {
				c.Fail("lookup", "a removed transfer is found; %s", trace)
				return
			}
			c.Obs("notfound")
		}
		got, err := treeOf(sar)
		must(err)
		if d := treeDiff(got, want); d != "" {
			c.Fail("files", "%s; %s", d, trace)
			return
		}
	}
	for _, m := range dead {
		closeT(m.t)
	}
	c.Sig("%s", trace)
	if c.Wants() {
		c.Sample(trunc(trace, 400))
	}
	s.flush()
}

func concC18(c *Case, s *screen, sar string) {
	r := c.R
	c.Obs("concurrent")
	n := 2 + r.Intn(9)
	same := r.Intn(2) == 0
	remove := !same && r.Intn(2) == 0
	ttype := pick(r, "get", "put", "delete")
	ts := make([]*sarwin.Transfer, n)
	peer := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}
	for i := 0; i < n; i++ {
		must(os.WriteFile(filepath.Join(sar, fmt.Sprintf("src%d", i)), []byte("x"), 0644))
	}
	// Those there before: some are removed meanwhile, each by several at once
	var old []*sarwin.Transfer
	gone := map[int]bool{}
	for i, k := 0, r.Intn(9); i < k; i++ {
		p := *peer
		p.Port = 17542
		t, err := sarwin.NewInitiator(s.g, "delete", &p, fmt.Sprintf("old%d", i), sarflags.Cliflag)
		if err != nil {
			c.Fail("new", "delete of old%d is refused: %v", i, err)
			return
		}
		old = append(old, t)
		if r.Intn(2) == 0 {
			gone[i] = true
		}
	}
	removed := make([]int64, len(old))
	start := make(chan bool)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	fail := func(f string, a ...interface{}) { mu.Lock(); bad = fmt.Sprintf(f, a...); mu.Unlock() }
	for i := 0; i < n; i++ {
		wg.Add(1)
		seed := r.Int63()
		go func(i int) {
			defer wg.Done()
			<-start
			name := fmt.Sprintf("new%d", i)
			if ttype == "put" {
				name = fmt.Sprintf("src%d", i)
			}
			if same {
				name = "new0"
				if ttype == "put" {
					name = "src0"
				}
			}
			p := *peer
			t, err := sarwin.NewInitiator(s.g, ttype, &p, name, sarflags.Cliflag)
			if err != nil {
				if !same {
					fail("%s %s is refused: %v", ttype, name, err)
				}
				return
			}
			ts[i] = t
			if g := sarwin.Lookup(sarwin.Initiator, t.Session, p.String()); g != t {
				fail("look-up of session %d gives %p want %p", t.Session, g, t)
			}
			if seed%3 == 0 {
				runtime.Gosched()
			}
			if remove && i%2 == 0 {
				if err := t.Remove(); err != nil {
					fail("remove: %v", err)
				}
				if err := t.Remove(); err == nil {
					fail("a transfer is removed twice")
				}
			}
		}(i)
	}
	for i, t := range old {
		if !gone[i] {
			continue
		}
		c.Obs("removed-at-once")
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func(i int, t *sarwin.Transfer) {
				defer wg.Done()
				<-start
				if t.Remove() == nil {
					atomic.AddInt64(&removed[i], 1)
				}
			}(i, t)
		}
	}
	// A request comes several times at once
	asked, asks, rsess := int64(0), r.Intn(4), r.Uint32()
	rh := refSet(refSet(refSet(0, "version", "v1"), "frametype", "request"), "reqtype", pick(r, "get", "take", "put"))
	rname := "src0"
	if refGet(rh, "reqtype") == 2 {
		rname = "asked"
	}
	for k := 0; k < asks; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if sarwin.NewResponder(s.g, request.Request{Header: rh, Session: rsess, Fname: rname}, "127.0.0.1:17542") == nil {
				atomic.AddInt64(&asked, 1)
			}
		}()
	}
	wg.Add(1)
	go func() { // Those that stay can be found all the time
		defer wg.Done()
		<-start
		for k := 0; k < 20; k++ {
			for i, t := range old {
				if !gone[i] && sarwin.Lookup(sarwin.Initiator, t.Session, "127.0.0.1:17542") != t {
					fail("a transfer is not found while others are started and removed")
				}
			}
			runtime.Gosched()
		}
	}()
	wg.Add(1)
	go func() { // Meanwhile settings change and transfers are listed
		defer wg.Done()
		<-start
		sarflags.Climu.Lock()
		sarflags.Cliflag.Global["descriptor"] = "d32"
		sarflags.Cliflag.Timestamp = "posix64"
		sarflags.Climu.Unlock()
		sarwin.Info(s.g, "")
	}()
	close(start)
	wg.Wait()
	if bad != "" {
		c.Fail("concurrent", "%s", bad)
		return
	}
	won := 0
	live := 0
	if asks > 0 {
		c.Obs("asked-at-once")
		live++
		if t := sarwin.Lookup(sarwin.Responder, rsess, "127.0.0.1:17542"); asked != 1 || t == nil {
			c.Fail("respond", "%d of %d equal requests at once start a transfer, one is found: %v", asked, asks, t != nil)
			return
		}
	}
	for i, t := range old {
		found := sarwin.Lookup(sarwin.Initiator, t.Session, "127.0.0.1:17542")
		if gone[i] && (removed[i] != 1 || found != nil) {
			c.Fail("remove", "removing a transfer by several at once succeeds %d times, it is then found: %v", removed[i], found != nil)
			return
		}
		if !gone[i] {
			live++
			if found != t {
				c.Fail("lookup", "a transfer is lost while others are started and removed")
				return
			}
		}
	}
	sess := map[uint32]bool{}
	for i, t := range ts {
		if t == nil {
			continue
		}
		won++
		if sess[t.Session] {
			c.Fail("session", "session %d is used twice by transfers started at once", t.Session)
			return
		}
		sess[t.Session] = true
		if !(remove && i%2 == 0) {
			live++
			if sarwin.Lookup(sarwin.Initiator, t.Session, peer.String()) != t {
				c.Fail("lookup", "a transfer is lost")
				return
			}
		}
	}
	if same {
		c.Obs("sameconc")
		if won != 1 {
			c.Fail("new", "%d of %d equal transfers started at once are accepted", won, n)
			return
		}
	}
	if n := tableSize(); n != live {
		c.Fail("table", "%d transfers in the table, want %d", n, live)
	}
	for _, t := range append(ts, old...) {
		if t != nil {
			closeT(t)
			seenSess[t.Session] = true
		}
	}
	c.Sig("conc %s %d %v %v %d %v", ttype, n, same, remove, len(old), gone)
	s.flush()
}

// ---- C19

func runC19(c *Case) {
	r := c.R
	s := getScreen()
	if c.I%50 == 0 {
		s.clear()
	}
	l := getLoop()
	oldmtu := sarflags.Mtu()
	defer sarflags.MtuSet(oldmtu)
	mtu := 576
	switch r.Intn(5) {
	case 0:
		mtu = 60 + r.Intn(200)
	case 1:
		mtu = 1280 + r.Intn(300)
	case 2:
		mtu = 1500
	case 3:
		mtu = 9000
	}
	sarflags.MtuSet(mtu)
	desc := pick(r, "d16", "d32", "d64")
	// What has been received
	var fills holes.Holes
	nh := 0
	switch r.Intn(6) {
	case 0:
	case 1:
		nh = 1 + r.Intn(5)
	case 2: // Just about what fits in a frame or two
		n, _ := dsize(desc)
		nh = (mtu-68-8-2*n)/(2*n)*(1+r.Intn(2)) + r.Intn(5) - 2
		if r.Intn(2) == 0 {
			nh -= 16 / (2 * n)
		}
	default:
		nh = r.Intn(400)
	}
	if nh < 0 {
		nh = 0
	}
	if nh > 700 {
		nh = 700
	}
	var want holes.Holes
	pos := 0
	scale := 1
	if desc != "d16" && r.Intn(3) == 0 {
		scale = 10000
	}
	if r.Intn(2) == 0 {
		e := pos + (1+r.Intn(20))*scale
		fills = append(fills, holes.Hole{Start: 0, End: e})
		pos = e
	}
	for i := 0; i < nh; i++ {
		a := pos
		pos += (1 + r.Intn(20)) * scale
		want = append(want, holes.Hole{Start: a, End: pos})
		b := pos
		pos += (1 + r.Intn(20)) * scale
		fills = append(fills, holes.Hole{Start: b, End: pos})
	}
	errcode := "success"
	if r.Intn(6) == 0 {
		errcode = pick(r, "badrequest", "badpacket", "badoffset", "unspecified")
		c.Obs("error")
	}
	var fl []string
	fl = append(fl, "descriptor="+desc, "errcode="+errcode)
	metar := pick(r, "yes", "no")
	reqh := pick(r, "requested", "voluntarily")
	fl = append(fl, "metadatarecvd="+metar, "reqholes="+reqh)
	if r.Intn(2) == 0 {
		fl = append(fl, "allholes="+pick(r, "yes", "no"))
	}
	ts := r.Intn(3) == 0
	if ts {
		c.Obs("tstamp")
		fl = append(fl, "reqtstamp=yes")
	} else if r.Intn(2) == 0 {
		fl = append(fl, "reqtstamp=no")
	}
	r.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
	flags := strings.Join(fl, ",")
	_, dmax := dsize(desc)
	prog, inresp := valFor(r, desc), valFor(r, desc)
	if r.Intn(15) == 0 && desc != "d64" {
		prog = dmax + 1 + uint64(r.Intn(1000))
	}
	conn, err := net.DialUDP("udp", nil, l.to)
	must(err)
	defer conn.Close()
	t := &sarwin.Transfer{Direction: sarwin.Responder, Session: sess(r), Conn: conn, Peer: l.to, Ttype: "put", Curfills: fills, Progress: prog, Inrespto: inresp}
	toobig := prog > dmax || inresp > dmax
	for _, h := range want {
		if uint64(h.End) > dmax && errcode == "success" {
			toobig = true
		}
	}
	var got [][]byte
	done := make(chan bool)
	fin := make(chan bool)
	go func() {
		defer close(fin)
		buf := make([]byte, 70000)
		for {
			l.rx.SetReadDeadline(time.Now().Add(20 * time.Second))
			n, from, err := l.rx.ReadFromUDP(buf)
			if err != nil {
				return
			}
			if from.String() == l.tx.LocalAddr().String() { // The end mark
				return
			}
			got = append(got, append([]byte{}, buf[:n]...))
		}
	}()
	ret := t.WriteStatus(s.g, flags)
	close(done)
	_, err = l.tx.WriteTo([]byte("end"), l.to)
	must(err)
	<-fin
	desc2 := fmt.Sprintf("%d holes, %s, mtu %d, progress %d", nh, flags, mtu, prog)
	if toobig {
		// At most the frames before the one that does not fit
		c.Obs("refused")
		if ret == "success" {
			c.Fail("truncated", "a status that does not fit its descriptor is sent: %s", desc2)
		}
		return
	}
	size, _ := dsize(desc)
	room := mtu - 68 - 8 - 2*size
	if ts {
		room -= 16
	}
	if ret != "success" {
		if room >= 2*size {
			c.Fail("refused", "%s: status not sent: %s", desc2, ret)
			return
		}
		if len(got) > 0 {
			c.Fail("refused", "%s: %s, but %d frames are sent", desc2, ret, len(got))
			return
		}
		c.Obs("refused")
		return
	}
	c.Obs("sent")
	if errcode != "success" {
		want = nil
	}
	if len(want) == 0 {
		c.Obs("noholes")
	}
	if room > 0 && len(want) > 0 && len(want)%(room/(2*size)) == 0 {
		c.Obs("exact")
	}
	if len(got) > 1 {
		c.Obs("several")
	}
	if len(got) == 0 || (len(got) > 1 && len(want) == 0) {
		c.Fail("frames", "%s: %d frames sent", desc2, len(got))
		return
	}
	var all holes.Holes
	for i, b := range got {
		c.Obs("frames")
		if len(b) > mtu-60 {
			c.Fail("mtu", "%s: frame %d has %d bytes, the peer accepts %d", desc2, i, len(b), mtu-60)
			return
		}
		var st status.Status
		if err := st.Decode(b); err != nil {
			c.Fail("decode", "%s: %v", desc2, err)
			return
		}
		h := st.Header
		ah := "yes"
		if len(got) > 1 {
			ah = "no"
		}
		tsw := "no"
		if ts {
			tsw = "yes"
		}
		for _, f := range [][2]string{{"version", "v1"}, {"frametype", "status"}, {"descriptor", desc}, {"errcode", errcode}, {"metadatarecvd", metar}, {"reqholes", reqh}, {"allholes", ah}, {"reqtstamp", tsw}} {
			if refStr(h, f[0]) != f[1] {
				c.Fail("flags", "%s: frame %d of %d has %s %s want %s", desc2, i, len(got), f[0], refStr(h, f[0]), f[1])
				return
			}
		}
		if st.Session != t.Session || st.Progress != prog || st.Inrespto != inresp {
			c.Fail("fields", "%s: frame %d has session %d progress %d inrespto %d", desc2, i, st.Session, st.Progress, st.Inrespto)
			return
		}
		if len(got) > 1 && len(st.Holes) == 0 {
			c.Fail("frames", "%s: frame %d of %d is empty", desc2, i, len(got))
			return
		}
		all = append(all, st.Holes...)
	}
	if len(all) != len(want) || (len(want) > 0 && !reflect.DeepEqual(all, want)) {
		c.Fail("holes", "%s: holes sent %s want %s", desc2, trunc(fmt.Sprint(all), 300), trunc(fmt.Sprint(want), 300))
		return
	}
	c.Sig("%s %d %v %v", flags, mtu, want, prog)
	if c.Wants() {
		c.Sample(desc2 + ": " + strconv.Itoa(len(got)) + " frames")
	}
	if !reflect.DeepEqual(t.Curfills, fills) {
		c.Fail("state", "sending a status changes what has been received")
	}
}
