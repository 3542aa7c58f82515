from b1 import go
BUGS=[]
def bug(**k): BUGS.append(k)

FDS='''
func fds() int { d, err := os.ReadDir("/proc/self/fd"); must(err); return len(d) }
'''
bug(id='c24-checksum-none-leaks',property='C24',
 needs='many checksums of type none (or of an unsupported type), each leaving its file open',
 breaks='the file is only closed on the paths that read it, so asking for no checksum or an unknown one leaks a descriptor',
 edits=[('fileio/checksum.go','''	//Tell the function to close the file when the function returns
	defer fp.Close()

	switch csumtype {''','''	switch csumtype {'''),
        ('fileio/checksum.go','''	// input := strings.NewReader(fname)
''','''	//Tell the function to close the file when the function returns
	defer fp.Close()
''')],
 demo=go(['runtime/debug','path/filepath','@fileio'],'''
	debug.SetGCPercent(-1)
	must(os.WriteFile(filepath.Join(sar, "f"), []byte("content"), 0644))
	fileio.Checksum("crc32", "f")
	n := fds()
	for i := 0; i < 40; i++ {
		fileio.Checksum("none", "f")
		fileio.Checksum("sha1", "f")
		fileio.Checksum("bogus", "f")
	}
	if m := fds(); m > n+2 { fail("%d descriptors open, %d before", m, n) }
''',FDS))
bug(id='c24-delete-leaves-open',property='C24',
 needs='an open file that is deleted through its pointer',
 breaks='FileDelete removes the name but does not close the file, so the descriptor and the disk space stay taken',
 edits=[('fileio/fileio.go','''		fname := fp.Name()
		FileClose(fp)
		return''','''		fname := fp.Name()
		return''')],
 demo=go(['runtime/debug','@fileio'],'''
	debug.SetGCPercent(-1)
	n := fds()
	for i := 0; i < 40; i++ {
		fp, err := fileio.FileOpen("new", "get")
		must(err)
		must(fileio.FileDelete(fp))
	}
	if m := fds(); m > n+2 { fail("%d descriptors open, %d before", m, n) }
''',FDS))
bug(id='c25-status-hole-end',property='C25',
 needs='the long text of a status frame with two holes or more',
 breaks='the long text of a status gives for each hole the end of the first one',
 edits=[('status/status.go','i, s.Holes[i].Start, s.Holes[i].End)','i, s.Holes[i].Start, s.Holes[i/len(s.Holes)].End)')],
 demo=go(['strings','@status','@holes'],'''
	var st status.Status
	must(st.New("descriptor=d32,reqtstamp=no,metadatarecvd=yes,allholes=yes,reqholes=requested,errcode=success", &status.Sinfo{Session: 7, Progress: 10, Inrespto: 20, Holes: holes.Holes{{Start: 1, End: 5}, {Start: 8, End: 9}}}))
	if p := st.Print(); !strings.Contains(p, "Start:8 End:9") || !strings.Contains(p, "Start:1 End:5") { fail("shown as %q", p) }
'''))
bug(id='c25-short-status-inrespto',property='C25',
 needs='the short text of a status that carries a timestamp',
 breaks='the short text of a status with a timestamp shows progress in place of in-response-to',
 edits=[('status/status.go','	sflag += fmt.Sprintf("  inrespto:%d\\n", s.Inrespto)\n','	inresp := s.Inrespto\n	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {\n		inresp = s.Progress\n	}\n	sflag += fmt.Sprintf("  inrespto:%d\\n", inresp)\n')],
 demo=go(['strings','@status','@timestamp','time'],'''
	var ts timestamp.Timestamp
	must(ts.New("posix32", time.Now()))
	for _, f := range []string{"descriptor=d32,errcode=success", "descriptor=d32,reqtstamp=yes,errcode=success"} {
		var st status.Status
		must(st.New(f, &status.Sinfo{Session: 7, Progress: 10, Inrespto: 20}))
		st.Tstamp = ts
		if p := st.ShortPrint(); !strings.Contains(p, "inrespto:20") { fail("shown as %q", p) }
	}
'''))
bug(id='c26-command-with-colon',property='C26',
 needs='a command with two colons in a row, such as one that names an IPv6 address',
 breaks='the list of commands keeps only what was before the colons',
 edits=[('sarwin/sarwin.go','		Cinfo.Commands = append(Cinfo.Commands, command[1])\n','		Cinfo.Commands = append(Cinfo.Commands, strings.SplitN(command[1], "::", 2)[0])\n')],
 demo=go(['@sarwin','@gocui'],'''
	g := &gocui.Gui{}
	v, _ := g.SetView("cmd", 0, 0, 60, 10)
	fmt.Fprint(v, "saratoga[0]:rmtran fe80::1 7")
	v.SetCursor(0, 0)
	sarwin.FirstPass = false
	sarwin.GetLine(g, v)
	if n := len(sarwin.Cinfo.Commands); n != 1 || sarwin.Cinfo.Commands[0] != "rmtran fe80::1 7" { fail("commands run: %q", sarwin.Cinfo.Commands) }
'''))

LISTEN='''
package main

import (
	"net"
	"testing"
	"time"
	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/jroimartin/gocui"
)

var _ = beacon.Packet{}
var _ = data.Packet{}
var _ = status.Packet{}

func TestZZDemo(t *testing.T) {
	conf := new(sarflags.Cliflags)
	sarflags.Cliflag = conf
	if err := conf.ReadConfig("/repo/saratoga/saratoga.json"); err != nil { t.Fatal(err) }
	sarflags.MtuSet(1500)
	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	rx, tx, quit := make(chan interface{}, 100), make(chan interface{}, 100), make(chan error, 1)
	go listen(&gocui.Gui{}, conn, rx, tx, quit)
	c, err := net.DialUDP("udp", nil, conn.LocalAddr().(*net.UDPAddr))
	if err != nil { t.Fatal(err) }
	next := func(ch chan interface{}) interface{} {
		select {
		case x := <-ch:
			return x
		case <-time.After(5 * time.Second):
			return nil
		}
	}
	_ = next
%s
}
'''
bug(id='c21-largest-frame-dropped',property='C21',pkg='saratoga',
 needs='a datagram of exactly the largest size a frame may have (MTU - 60)',
 breaks='a well-formed frame of the maximum size is reported as too long and not handled',
 edits=[('saratoga/saratoga.go','		if framelen > maxframesize {','		if framelen >= maxframesize {')],
 demo=LISTEN%'''
	for _, n := range []int{100, sarflags.Mtu() - 61, sarflags.Mtu() - 60} {
		d := new(data.Data)
		if err := d.New("version=v1,descriptor=d32,reqtstamp=no,transfer=file", &data.Dinfo{Session: 9, Offset: 0, Payload: make([]byte, n-12)}); err != nil { t.Fatal(err) }
		b, err := d.Encode()
		if err != nil || len(b) != n { t.Fatal(err, len(b)) }
		c.Write(b)
		if _, ok := next(rx).(data.Packet); !ok { t.Fatalf("frame of %d bytes is not handled", n) }
	}
''')
bug(id='c21-bad-version-ends-listener',property='C21',pkg='saratoga',
 needs='one datagram of another protocol version, then any other frame',
 breaks='the listener stops reading after a frame of a wrong version, everything later is lost',
 edits=[('saratoga/saratoga.go','''				continue // drop it
			}
			tx <- st.Val(remoteAddr)
			continue
		}

		// Process''','''				continue // drop it
			}
			tx <- st.Val(remoteAddr)
			break
		}

		// Process''')],
 demo=LISTEN%'''
	b := new(beacon.Beacon)
	if err := b.New("descriptor=d32,freespace=no", &beacon.Binfo{Eid: "somebody"}); err != nil { t.Fatal(err) }
	f, err := b.Encode()
	if err != nil { t.Fatal(err) }
	bad := append([]byte(nil), f...)
	bad[0] ^= 0x60
	c.Write(f)
	if _, ok := next(rx).(beacon.Packet); !ok { t.Fatal("beacon is not handled") }
	c.Write(bad)
	if next(tx) == nil { t.Fatal("bad version is not answered") }
	c.Write(f)
	if _, ok := next(rx).(beacon.Packet); !ok { t.Fatal("beacon after a bad version is not handled") }
''')
bug(id='c21-bad-metadata-session',property='C21',pkg='saratoga',
 needs='a malformed metadata frame with a session number above 65535',
 breaks='the status that answers malformed metadata carries only the low half of its session',
 edits=[('saratoga/saratoga.go','''				session := binary.BigEndian.Uint32(framebuf[4:8])
				var st status.Status
				// Bad Packet send back a Status to the client''','''				session := uint32(binary.BigEndian.Uint16(framebuf[6:8]))
				var st status.Status
				// Bad Packet send back a Status to the client''')],
 demo=LISTEN%'''
	h := uint32(0)
	for _, f := range [][2]string{{"version", "v1"}, {"frametype", "metadata"}, {"csumtype", "sha1"}, {"csumlen", "sha1"}, {"descriptor", "d32"}} {
		if h, err = sarflags.Set(h, f[0], f[1]); err != nil { t.Fatal(err) }
	}
	for _, s := range []uint32{7, 0x12345678} {
		c.Write([]byte{byte(h >> 24), byte(h >> 16), byte(h >> 8), byte(h), byte(s >> 24), byte(s >> 16), byte(s >> 8), byte(s), 1, 2})
		p, ok := next(tx).(status.Packet)
		if !ok { t.Fatal("malformed metadata is not answered") }
		if p.Info.Session != s { t.Fatalf("answered with session %x, want %x", p.Info.Session, s) }
	}
''')
bug(id='c11-first-block-again',property='C11',
 needs='the block at offset 0 lost or late, so that it is written after others',
 breaks='seeking to 0 leaves the file where it was, so a retransmitted first block lands behind the last one written',
 edits=[('fileio/fileio.go','	ipos = int64(pos) // Yep','	if ipos = int64(pos); ipos == 0 {\n		return nil // A file starts there\n	}\n	// Yep')],
 demo=go(['bytes','@fileio'],'''
	fp, err := fileio.FileOpen("f", "get")
	must(err)
	fileio.FileWrite(fp, 5, []byte("world"))
	fileio.FileWrite(fp, 0, []byte("hello"))
	got, err := os.ReadFile(sar + "/f")
	must(err)
	if !bytes.Equal(got, []byte("helloworld")) { fail("file is %q", got) }
'''))
bug(id='c10-single-byte-gap',property='C10',
 needs='two received ranges with exactly one missing byte between them',
 breaks='ranges one byte apart are joined, the missing byte between them is never asked for',
 edits=[('holes/holes.go','if fills[i+1].Start <= fills[i].End {','if fills[i+1].Start-1 <= fills[i].End {')],
 demo=go(['@holes'],'''
	var f holes.Holes
	f = f.Add(0, 10).Add(20, 30).Add(11, 20)
	if h := f.Getholes(); len(h) != 1 || h[0] != (holes.Hole{Start: 10, End: 11}) { fail("holes are %v", h) }
'''))
bug(id='c16-restart-is-new-peer',property='C16',
 needs='a peer that beacons again with another identifier (it was restarted)',
 breaks='peers are looked up by address and identifier, so a restarted peer gets a second entry and the stale one stays',
 edits=[('beacon/beacon.go','if Peers[p].Addr == from.IP.String() { // Source','if Peers[p].Addr == from.IP.String() && Peers[p].Eid == b.Eid { // Source')],
 demo=go(['net','@beacon'],'''
	a := &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 7542}
	for _, e := range []string{"somebody-1234", "somebody-1234", "somebody-99"} {
		beacon.NewPeer(&beacon.Beacon{Eid: e}, a)
	}
	if n := len(beacon.Peers); n != 1 || beacon.Peers[0].Eid != "somebody-99" { fail("%d peers: %v", n, beacon.Peers) }
'''))
bug(id='c23-invalid-stops-rest',property='C23',
 needs='a beacon command with several addresses, an invalid one before a valid one',
 breaks='the addresses after an invalid one are not served',
 edits=[('sarwin/sarwin.go','''		ErrPrintln(g, "red_black", "Invalid IP Address:", args[i])
		ErrPrintln(g, "red_black", prusage("beacon"))
	}
}''','''		ErrPrintln(g, "red_black", "Invalid IP Address:", args[i])
		ErrPrintln(g, "red_black", prusage(args[0]))
		return
	}
}''')],
 demo=go(['net','time','@sarwin','@gocui'],'''
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 93), Port: 7542})
	must(err)
	conf.Timeout.Binterval = 0
	conf.Bcount = 1
	sarwin.Run(&gocui.Gui{}, "beacon nosuch 127.0.0.93")
	l.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, _, err := l.ReadFromUDP(make([]byte, 2000)); err != nil { fail("no beacon: %v", err) }
'''))
bug(id='c23-eid-of-peer',property='C23',
 needs='a host reached from two local addresses, or a second beacon command: the identifier carries the address of the peer',
 breaks='the identifier in a beacon is the remote address, not the own one',
 edits=[('sarwin/sarwin.go','eid := fmt.Sprintf("%s-%d", conn.LocalAddr().String(), os.Getpid())\n	binfo','eid := fmt.Sprintf("%s-%d", conn.RemoteAddr().String(), os.Getpid())\n	binfo')],
 demo=go(['net','time','strings','@sarwin','@beacon','@gocui'],'''
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 94), Port: 7542})
	must(err)
	conf.Timeout.Binterval = 0
	conf.Bcount = 1
	sarwin.Run(&gocui.Gui{}, "beacon 127.0.0.94")
	l.SetReadDeadline(time.Now().Add(5 * time.Second))
	buf := make([]byte, 2000)
	n, from, err := l.ReadFromUDP(buf)
	must(err)
	var b beacon.Beacon
	must(b.Decode(buf[:n]))
	if !strings.HasPrefix(b.Eid, from.String()+"-") { fail("beacon from %v says it is %q", from, b.Eid) }
'''))
bug(id='c14-checksum-empty',property='C14',
 needs='a checksum of an empty file',
 breaks='an empty file is given no checksum instead of the checksum of nothing',
 edits=[('fileio/checksum.go','	if _, err = io.Copy(hash, fp); err != nil {\n		return csum, err\n	}','	var n int64\n	if n, err = io.Copy(hash, fp); err != nil || n == 0 {\n		return csum, err\n	}')],
 demo=go(['crypto/md5','bytes','@fileio'],'''
	must(os.WriteFile(sar+"/empty", nil, 0644))
	got, err := fileio.Checksum("md5", "empty")
	must(err)
	want := md5.Sum(nil)
	if !bytes.Equal(got, want[:]) { fail("checksum of an empty file is %x", got) }
'''))
bug(id='c19-last-frame-repeats',property='C19',
 needs='a status with more holes than one datagram carries and a last datagram that is not full',
 breaks='the holes of the last, partly filled datagram are those at the end of the list, some of them sent before',
 edits=[('sarwin/sarwin.go','''		if endhole > lasthole {
			endhole = lasthole
		}''','''		if endhole >= lasthole {
			if fc > 0 {
				starthole = lasthole - (lasthole-starthole+1)&^1
			}
			endhole = lasthole
		}''')],
 demo=go(['net','time','@sarwin','@status','@holes','@gocui'],'''
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	must(err)
	conn, err := net.DialUDP("udp", nil, l.LocalAddr().(*net.UDPAddr))
	must(err)
	sarflags.MtuSet(1500)
	var f holes.Holes
	for i := 0; i < 302; i++ { f = f.Add(i*10, i*10+5) }
	want := f.Getholes()
	t := &sarwin.Transfer{Conn: conn, Peer: l.LocalAddr().(*net.UDPAddr), Session: 3, Curfills: f}
	if r := t.WriteStatus(&gocui.Gui{}, "descriptor=d64,errcode=success"); r != "success" { fail("status gives %s", r) }
	var got holes.Holes
	buf := make([]byte, 3000)
	for len(got) < len(want) {
		l.SetReadDeadline(time.Now().Add(3 * time.Second))
		n, _, err := l.ReadFromUDP(buf)
		must(err)
		var s status.Status
		must(s.Decode(buf[:n]))
		got = append(got, s.Holes...)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) { fail("%d holes sent, want %d", len(got), len(want)) }
'''))
bug(id='c18-remove-finds-unlocked',property='C18',
 needs='two transfers removed at the same time: the place of the second moves between being found and being removed',
 breaks='Remove finds the transfer before it takes the lock of the table, so another one can be removed in its stead',
 race=True,
 edits=[('sarwin/sarwin.go','func (t *Transfer) Remove() error {\n	Trmu.Lock()\n	defer Trmu.Unlock()\n\n','func (t *Transfer) Remove() error {\n'),
        ('sarwin/sarwin.go','			removed := Transfers[i]\n','			Trmu.Lock()\n			defer Trmu.Unlock()\n			removed := Transfers[i]\n')],
 demo=go(['net','sync','@sarwin','@gocui'],'''
	var wg sync.WaitGroup
	g := &gocui.Gui{}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				t, err := sarwin.NewInitiator(g, "delete", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}, fmt.Sprint("f", i), conf)
				must(err)
				if sarwin.Match("127.0.0.1:7542", t.Session) != t { fail("not found") }
				must(t.Remove())
			}
		}()
	}
	wg.Wait()
'''))
bug(id='c17-give-overwrites',property='C17',
 needs='a give (not a put) of a file that is already there',
 breaks='a give of an existing file is accepted',
 edits=[('trans/trans.go','		if exists {\n','		if exists && ttype != "give" {\n')],
 demo=go(['net','@trans','@request','@status','@gocui'],'''
	must(os.WriteFile(sar+"/f", []byte("x"), 0644))
	for _, ty := range []string{"put", "give"} {
		var r request.Request
		must(r.New("reqtype="+ty+",rxwilling=yes,txwilling=yes,udplite=no,stream=no,descriptor=d32,fileordir=file", &request.Rinfo{Session: 5, Fname: "f"}))
		tx := make(chan interface{}, 5)
		if trans.AddRxTran(&gocui.Gui{}, &r, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9}, tx) { fail("%s of an existing file is accepted", ty) }
		p := (<-tx).(status.Packet)
		if e := sarflags.GetStr(p.Info.Header, "errcode"); e != "fileinuse" { fail("%s is answered with %q", ty, e) }
	}
'''))
bug(id='c12-read-clamps',property='C12',
 needs='a read of more than 64 kB at once',
 breaks='reads of more than 65535 bytes return only the first part',
 edits=[('fileio/fileio.go','	buf := make([]byte, blen)\n','	buf := make([]byte, min(blen, 1<<16))\n')],
 demo=go(['@fileio'],'''
	must(os.WriteFile(sar+"/f", make([]byte, 300000), 0644))
	fp, err := fileio.FileOpen("f", "put")
	must(err)
	for _, n := range []int{1, 65535, 65536, 131073, 200000} {
		b, err := fileio.FileRead(fp, 3, n)
		must(err)
		if len(b) != n { fail("read %d bytes of %d", len(b), n) }
	}
'''))
bug(id='c12-pipe-is-regular',property='C12',
 needs='a metadata query for a named pipe or other special file in the directory',
 breaks='the metadata of a special file says it is a regular file',
 edits=[('fileio/fileio.go','	fs.IsRegular = info.Mode().IsRegular()','	fs.IsRegular = !fs.IsDir && !fs.IsSymLink')],
 demo=go(['syscall','@fileio'],'''
	must(syscall.Mkfifo(sar+"/pipe", 0644))
	m, err := fileio.FileMeta("pipe")
	must(err)
	if m.IsRegular || !m.IsNamedPipe { fail("pipe is regular: %v, pipe: %v", m.IsRegular, m.IsNamedPipe) }
'''))
