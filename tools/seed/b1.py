def go(imports, body, extra=''):
    M='github.com/charlesetsmith/saratoga/'
    imps=['fmt','log','io','os']+[i for i in imports if not i.startswith('@')]
    il=''.join(f'\t"{i}"\n' for i in imps)
    il+=''.join(f'\t"{M}{i[1:]}"\n' for i in imports if i.startswith('@') and i!='@sarflags' and i!='@gocui')
    il+=f'\t"{M}sarflags"\n'
    if '@gocui' in imports: il+='\t"github.com/jroimartin/gocui"\n'
    return f'''
package main

import (
{il})

func fail(f string, a ...any) {{ fmt.Printf("BROKEN: "+f+"\\n", a...); os.Exit(1) }}
func must(err error) {{ if err != nil {{ fmt.Println("error:", err); os.Exit(1) }} }}

{extra}
func main() {{
	log.SetOutput(io.Discard)
	conf := new(sarflags.Cliflags)
	sarflags.Cliflag = conf
	must(conf.ReadConfig(os.Args[1]))
	sar := os.Args[2]
	_ = sar
{body}
	fmt.Println("ok")
}}
'''
BUGS=[]
def bug(**k): BUGS.append(k)

bug(id='c01-set-clears-only-new-bits',property='C01',
 needs='a header field that already holds a value with bits the new value does not have (d64 to d16, error code 0x0b to 0x04)',
 breaks='Set clears only the bits of the new value, so the field reads back as the OR of old and new value',
 edits=[('sarflags/sarflags.go','	result := uint32(((curflag) & (^setbits)))\n	result |= (newval << shiftbits)\n','	result := uint32(((curflag) &^ (newval << shiftbits)))\n	result |= (newval & maskbits) << shiftbits\n	result &= curflag | setbits\n')],
 demo=go([], '''
	h, err := sarflags.Set(0, "descriptor", "d32")
	must(err)
	h, err = sarflags.Set(h, "descriptor", "d64")
	must(err)
	if g := sarflags.GetStr(h, "descriptor"); g != "d64" { fail("descriptor reads back as %q", g) }
	h, _ = sarflags.Set(h, "descriptor", "d16")
	if g := sarflags.GetStr(h, "descriptor"); g != "d16" { fail("descriptor reads back as %q", g) }
'''))
bug(id='c01-setd-clips-wide-neighbour',property='C01',
 needs='a directory entry whose descriptor is set after a property with its low bit set (normaldirectory, specialdirectory)',
 breaks='SetD clears one bit too many, so setting one directory-entry field changes its neighbour',
 edits=[('sarflags/sarflags.go','	maskbits := uint16((1 << DirentFlags[field].Len) - 1)\n	setbits := uint16(maskbits << shiftbits)\n','	maskbits := uint16((2 << DirentFlags[field].Len) - 1)\n	setbits := uint16(maskbits << shiftbits)\n')],
 demo=go([], '''
	for _, p := range sarflags.FrameD("property") {
		for _, d := range sarflags.FrameD("descriptor") {
			h, err := sarflags.SetD(0, "property", p)
			must(err)
			h, err = sarflags.SetD(h, "descriptor", d)
			must(err)
			if g := sarflags.GetDStr(h, "property"); g != p { fail("property %s reads back as %q after descriptor=%s", p, g, d) }
		}
	}
'''))
bug(id='c02-data-d64-tstamp-offset',property='C02',
 needs='a data frame with a timestamp, a d64 descriptor and an offset of 4 GiB or more',
 breaks='the decoder reads only the low 32 bits of the offset, so the payload is put at the wrong place of the file',
 edits=[('data/data.go','			d.Offset = binary.BigEndian.Uint64(frame[24:32]) // 8 bytes\n','			d.Offset = uint64(binary.BigEndian.Uint32(frame[28:32])) // 8 bytes\n')],
 demo=go(['@data'], '''
	var d, r data.Data
	must(d.New("descriptor=d64,transfer=file,reqtstamp=posix64,reqstatus=no,eod=no", &data.Dinfo{Session: 7, Offset: 1<<33 + 5, Payload: []byte("abc")}))
	f, err := d.Encode()
	must(err)
	must(r.Decode(f))
	if r.Offset != d.Offset { fail("offset %d arrives as %d", d.Offset, r.Offset) }
'''))
bug(id='c02-data-payload-shares-buffer',property='C02',
 needs='decoding a d32 data frame without timestamp, then reusing the receive buffer for the next frame',
 breaks='the payload of a decoded frame is a view of the receive buffer and changes when that is reused',
 edits=[('data/data.go','		d.Payload = make([]byte, len(frame[12:]))\n		copy(d.Payload, frame[12:])\n','		d.Payload = frame[12:]\n')],
 demo=go(['@data'], '''
	buf := make([]byte, 100)
	var got []data.Data
	for i := 0; i < 3; i++ {
		var d, r data.Data
		must(d.New("descriptor=d32,transfer=file,reqtstamp=no,reqstatus=no,eod=no", &data.Dinfo{Session: 7, Offset: uint64(i), Payload: []byte(fmt.Sprint("payload", i))}))
		f, err := d.Encode()
		must(err)
		n := copy(buf, f)
		must(r.Decode(buf[:n]))
		got = append(got, r)
	}
	for i, r := range got {
		if string(r.Payload) != fmt.Sprint("payload", i) { fail("payload of frame %d is now %q", i, r.Payload) }
	}
'''))
bug(id='c03-status-hole-count-wraps',property='C03',
 needs='a d16 status frame with more than 255 holes',
 breaks='the decoder counts the holes in 8 bits and loses 256 of them',
 edits=[('status/status.go','		// log.Fatal("Holes in frame len", hlen, "number of holes", hlen/2/dsize)\n		for i := 0; i < hlen/2/dsize; i++ {\n','		// log.Fatal("Holes in frame len", hlen, "number of holes", hlen/2/dsize)\n		for nholes := uint8(hlen / 2 / dsize); nholes > 0; nholes-- {\n')],
 demo=go(['@status','@holes'], '''
	for n := 0; n < 600; n += 37 {
		var h holes.Holes
		for i := 0; i < n; i++ { h = append(h, holes.Hole{Start: 10 * i, End: 10*i + 3}) }
		var s, r status.Status
		must(s.New("descriptor=d16,errcode=success,reqtstamp=no", &status.Sinfo{Session: 1, Progress: 3, Inrespto: 4, Holes: h}))
		f, err := s.Encode()
		must(err)
		must(r.Decode(f))
		if len(r.Holes) != n { fail("%d holes arrive as %d", n, len(r.Holes)) }
	}
'''))
bug(id='c04-request-stale-auth',property='C04',
 needs='a Request struct that decoded a frame with an auth field and then decodes one without',
 breaks='a request without auth keeps the auth field of the previous request',
 edits=[('request/request.go','	if pos == len(frame) { // No following auth field\n		r.Auth = nil\n		return nil\n','	if pos == len(frame) { // No following auth field\n		return nil\n')],
 demo=go(['@request'], '''
	var a, b, r request.Request
	fl := "descriptor=d32,stream=no,txwilling=yes,rxwilling=yes,reqtype=get,udplite=no"
	must(a.New(fl, &request.Rinfo{Session: 1, Fname: "one", Auth: []byte("secret")}))
	must(b.New(fl, &request.Rinfo{Session: 2, Fname: "two"}))
	fa, _ := a.Encode()
	fb, _ := b.Encode()
	must(r.Decode(fa))
	if string(r.Auth) != "secret" { fail("auth %q", r.Auth) }
	must(r.Decode(fb))
	if len(r.Auth) != 0 { fail("request without auth has auth %q", r.Auth) }
'''))
bug(id='c05-dirent-value-ctime',property='C05',
 needs='a metadata frame whose modification and creation times differ, handed on as a packet (Val)',
 breaks='the packet passed to the handler carries the modification time as creation time',
 edits=[('dirent/dirent.go','	return DirEnt{Header: d.Header, Size: d.Size, Mtime: d.Mtime, Ctime: d.Ctime, Path: d.Path}\n','	return DirEnt{Header: d.Header, Size: d.Size, Mtime: d.Mtime, Ctime: d.Mtime, Path: d.Path}\n')],
 demo=go(['net','time','@metadata'], '''
	must(os.WriteFile(sar+"/f", []byte("hello"), 0644))
	old := time.Now().Add(-48 * time.Hour)
	must(os.Chtimes(sar+"/f", old, old))
	var m, r metadata.MetaData
	must(m.New("descriptor=d32,transfer=file,progress=inprogress,reliability=udponly,csumtype=none", &metadata.Minfo{Session: 3, Fname: "f"}))
	f, err := m.Encode()
	must(err)
	must(r.Decode(f))
	p := r.Val(&net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9})
	if p.Info.Dir.Mtime.Secs() != m.Dir.Mtime.Secs() || p.Info.Dir.Ctime.Secs() != m.Dir.Ctime.Secs() {
		fail("times %s %s arrive as %s %s", m.Dir.Mtime.Print(), m.Dir.Ctime.Print(), p.Info.Dir.Mtime.Print(), p.Info.Dir.Ctime.Print())
	}
'''))
bug(id='c06-beacon-stale-freespace',property='C06',
 needs='a Beacon struct that decoded a beacon with free space and then decodes one that does not advertise it',
 breaks='the second beacon shows the free space of the first',
 edits=[('beacon/beacon.go','	// No freespace to be reported\n	b.Freespace = 0\n','	// No freespace to be reported\n')],
 demo=go(['@beacon'], '''
	var a, b, r beacon.Beacon
	must(a.New("descriptor=d32,stream=no,txwilling=yes,rxwilling=yes,udplite=no,freespace=yes", &beacon.Binfo{Freespace: 77, Eid: "a"}))
	must(b.New("descriptor=d32,stream=no,txwilling=yes,rxwilling=yes,udplite=no,freespace=no", &beacon.Binfo{Eid: "b"}))
	fa, _ := a.Encode()
	fb, _ := b.Encode()
	must(r.Decode(fa))
	must(r.Decode(fb))
	if r.Freespace != 0 { fail("free space %d from a beacon that advertises none", r.Freespace) }
'''))
bug(id='c07-posix32-32-limit-of-old-value',property='C07',
 needs='a Timestamp reused for a second time after 2106 (or before 1970) in posix32_32',
 breaks='the range of the seconds is checked before they are set, so the old value is what is checked and a time that does not fit is truncated',
 edits=[('timestamp/timestamp.go','''	case "posix32_32":
		t.secs = uint64(ts.Unix())
		t.ttype = flag
		t.nsecs = uint64(ts.Nanosecond())
		if t.secs > sarflags.MaxUint32 {
			return errors.New("posix32_32:Seconds exceed 32 bits")
		}
''','''	case "posix32_32":
		if t.secs > sarflags.MaxUint32 {
			return errors.New("posix32_32:Seconds exceed 32 bits")
		}
		t.secs = uint64(ts.Unix())
		t.ttype = flag
		t.nsecs = uint64(ts.Nanosecond())
''')],
 demo=go(['time','@timestamp'], '''
	var t timestamp.Timestamp
	must(t.New("posix32_32", time.Unix(1700000000, 5)))
	late := time.Unix(1<<32+100, 0)
	if err := t.New("posix32_32", late); err == nil {
		var r timestamp.Timestamp
		must(r.Get(t.Put()))
		fail("time %s accepted and sent as %s", late.UTC(), r.Print())
	}
'''))
bug(id='c08-status-partial-hole',property='C08',
 needs='a d32 status frame that ends in the middle of a hole (one bound only)',
 breaks='the number of holes is rounded up and the decoder reads past the end of the frame: a panic from the network',
 edits=[('status/status.go','''		s.Inrespto = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
		pos += dsize
		hlen := len(frame[pos:])
		for i := 0; i < hlen/2/dsize; i++ {
''','''		s.Inrespto = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
		pos += dsize
		hlen := len(frame[pos:])
		for i := 0; i < (hlen+dsize)/2/dsize; i++ {
''')],
 demo=go(['@status','@holes'], '''
	var s status.Status
	must(s.New("descriptor=d32,errcode=success,reqtstamp=no", &status.Sinfo{Session: 1, Holes: holes.Holes{{Start: 1, End: 2}, {Start: 5, End: 9}}}))
	f, err := s.Encode()
	must(err)
	for n := 0; n <= len(f); n++ {
		func() {
			defer func() { if r := recover(); r != nil { fail("panic on a frame of %d bytes: %v", n, r) } }()
			var r status.Status
			g := make([]byte, n)
			copy(g, f[:n])
			r.Decode(g)
		}()
	}
'''))
bug(id='c09-dirent-d16-limit',property='C09',
 needs='a directory entry of exactly 65536 bytes with a d16 descriptor',
 breaks='a size one over the limit of the descriptor is sent as 0',
 edits=[('dirent/dirent.go','		if d.Size > sarflags.MaxUint16 {\n','		if d.Size > sarflags.MaxUint16+1 {\n')],
 demo=go(['@dirent'], '''
	for _, size := range []uint64{0, 65534, 65535, 65536, 65537, 1 << 20} {
		h, _ := sarflags.SetD(0, "sod", "sod")
		h, _ = sarflags.SetD(h, "descriptor", "d16")
		d := dirent.DirEnt{Header: h, Size: size, Path: "x"}
		f, err := d.Encode()
		if err != nil { if size <= 65535 { fail("%d refused", size) }; continue }
		var r dirent.DirEnt
		must(r.Decode(f))
		if r.Size != size { fail("size %d arrives as %d", size, r.Size) }
	}
'''))
bug(id='c10-optimise-merges-once',property='C10',
 needs='a received range that covers or joins three or more ranges received earlier',
 breaks='only the first of the ranges it covers is merged, so received ranges overlap and wrong holes are reported',
 edits=[('holes/holes.go','''			// And here is the secret sauce to optimise - the beuty of recursion
			fills = fills.optimise()
''','''			// Go on with the rest
			copy(fills[i+1:], fills[i+1:].optimise())
''')],
 demo=go(['@holes'], '''
	var h holes.Holes
	for _, r := range [][2]int{{10, 20}, {30, 40}, {50, 60}, {70, 80}, {5, 65}} { h = h.Add(r[0], r[1]) }
	if fmt.Sprint(h) != "[{5 65} {70 80}]" || fmt.Sprint(h.Getholes()) != "[{0 5} {65 70}]" { fail("fills %v holes %v", h, h.Getholes()) }
'''))
bug(id='c12-filewrite-beyond-4g',property='C12',
 needs='reading or writing at an offset of 4 GiB or more',
 breaks='the offset is cut to 32 bits, so bytes of a large file are read from or written to the wrong place',
 edits=[('fileio/fileio.go','	if npos, err = fp.Seek(ipos, origin); err != nil || npos != ipos {\n','	if npos, err = fp.Seek(ipos&int64(sarflags.MaxUint32), origin); err != nil || npos > ipos {\n')],
 demo=go(['@fileio'], '''
	fp, err := fileio.FileOpen("big", "get")
	must(err)
	defer fp.Close()
	_, err = fileio.FileWrite(fp, 1<<32+7, []byte("tail"))
	must(err)
	st, _ := fp.Stat()
	if st.Size() != 1<<32+11 { fail("file has %d bytes after a write at 4 GiB", st.Size()) }
'''))
bug(id='c13-checksum-outside',property='C13',
 needs='a checksum or metadata asked for a name with .. in it',
 breaks='Checksum opens the file itself, without the check that keeps names inside the saratoga directory',
 edits=[('fileio/checksum.go','	if fp, err = FileOpen(fname, "put"); err != nil {\n','	if fp, err = os.Open(Sardir() + "/" + fname); err != nil {\n')],
 demo=go(['@fileio'], '''
	must(os.WriteFile(sar+"/../secret", []byte("hidden"), 0644))
	if c, err := fileio.Checksum("md5", "../secret"); err == nil { fail("checksum %x of a file outside the directory", c) }
	must(os.WriteFile(sar+"/in", []byte("x"), 0644))
	_, err := fileio.Checksum("md5", "in")
	must(err)
'''))
bug(id='c14-checksum-first-mib',property='C14',
 needs='a file larger than 1 MiB',
 breaks='only the first MiB is summed',
 edits=[('fileio/checksum.go','	if _, err = io.Copy(hash, fp); err != nil {\n','	if _, err = io.CopyN(hash, fp, 1<<20); err != nil && err != io.EOF {\n')],
 demo=go(['crypto/md5','bytes','@fileio'], '''
	for _, n := range []int{0, 1, 1 << 20, 1<<20 + 1, 3 << 20} {
		b := bytes.Repeat([]byte("0123456789abcdef"), n/16+1)[:n]
		must(os.WriteFile(sar+"/f", b, 0644))
		c, err := fileio.Checksum("md5", "f")
		must(err)
		if w := md5.Sum(b); !bytes.Equal(c, w[:]) { fail("md5 of %d bytes is %x", n, c) }
	}
'''))
bug(id='c15-metadata-descriptor-boundary',property='C15',
 needs='a file of exactly 65536 bytes',
 breaks='the directory entry gets a descriptor too small for the size and the metadata cannot be sent',
 edits=[('metadata/metadata.go','	if fsize < sarflags.MaxUint16 {\n','	if fsize <= sarflags.MaxUint16+1 {\n')],
 demo=go(['@metadata'], '''
	for _, n := range []int64{0, 65534, 65535, 65536, 65537} {
		must(os.WriteFile(sar+"/f", nil, 0644))
		must(os.Truncate(sar+"/f", n))
		var m, r metadata.MetaData
		must(m.New("descriptor=d32,transfer=file,progress=inprogress,reliability=udponly,csumtype=none", &metadata.Minfo{Session: 3, Fname: "f"}))
		f, err := m.Encode()
		if err != nil { fail("metadata of a file of %d bytes: %v", n, err) }
		must(r.Decode(f))
		if r.Dir.Size != uint64(n) { fail("size %d arrives as %d", n, r.Dir.Size) }
	}
'''))
bug(id='c16-peer-update-cantx',property='C16',
 needs='a known peer that beacons again with txwilling different from rxwilling',
 breaks='the update stores rxwilling as what the peer can send',
 edits=[('beacon/beacon.go','				Peers[p].Cantx = sarflags.GetStr(b.Header, "txwilling")\n','				Peers[p].Cantx = sarflags.GetStr(b.Header, "rxwilling")\n')],
 demo=go(['net','@beacon'], '''
	from := &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 7542}
	var a, b beacon.Beacon
	must(a.New("descriptor=d32,stream=no,txwilling=yes,rxwilling=yes,udplite=no,freespace=no", &beacon.Binfo{Eid: "a"}))
	must(b.New("descriptor=d32,stream=no,txwilling=yes,rxwilling=no,udplite=no,freespace=no", &beacon.Binfo{Eid: "a"}))
	beacon.NewPeer(&a, from)
	if !beacon.NewPeer(&b, from) { fail("change not learned") }
	if p := beacon.Peers[0]; p.Cantx != "yes" || p.Canrx != "no" { fail("peer rx=%s tx=%s", p.Canrx, p.Cantx) }
	if beacon.NewPeer(&b, from) { fail("the same beacon learned twice") }
'''))
REQ='''
	g := &gocui.Gui{}
	from := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9}
	ask := func(session uint32, flags, name string) (string, bool) {
		var r request.Request
		must(r.New(flags, &request.Rinfo{Session: session, Fname: name}))
		tx := make(chan interface{}, 4)
		ok := trans.AddRxTran(g, &r, from, tx)
		if len(tx) != 1 { fail("%d replies to %s of %s", len(tx), flags, name) }
		p := (<-tx).(status.Packet)
		return sarflags.GetStr(p.Info.Header, "errcode"), ok
	}
	_ = ask
'''
bug(id='c17-getdir-missing-accepted',property='C17',
 needs='a getdir request for a directory that does not exist',
 breaks='the request is answered with success and recorded as a transfer',
 edits=[('trans/trans.go','''		if !exists {
			sarwin.ErrPrintln(g, "red_black", "Local File ", r.Fname, "does not exist for ", ttype)
			// Create STATUS and set errcode to "filenotfound"
			if st.New("errcode=filenotfound", &sinfo) != nil {
				sarwin.ErrPrintln(g, "red_black", "Cannot create filenotfound status")
				return false
			}
			tx <- st.Val(from)
			return false
		}
		// Open the file and transfer here
''','''		if !exists && ttype != "getdir" {
			sarwin.ErrPrintln(g, "red_black", "Local File ", r.Fname, "does not exist for ", ttype)
			// Create STATUS and set errcode to "filenotfound"
			if st.New("errcode=filenotfound", &sinfo) != nil {
				sarwin.ErrPrintln(g, "red_black", "Cannot create filenotfound status")
				return false
			}
			tx <- st.Val(from)
			return false
		}
		// Open the file and transfer here
''')],
 demo=go(['net','@request','@status','@trans','@gocui'], REQ+'''
	if e, ok := ask(5, "descriptor=d32,stream=no,txwilling=yes,rxwilling=yes,reqtype=getdir,udplite=no", "nodir"); ok || e != "filenotfound" { fail("getdir of a missing directory: %s %v", e, ok) }
	if len(trans.Transfers) != 0 { fail("transfer recorded") }
'''))
bug(id='c17-exists-ignores-directories',property='C17',
 needs='a put of a name that is a directory',
 breaks='the existence check looks only for regular files, so a put onto an existing directory is accepted',
 edits=[('fileio/fileio.go','	if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Mode().IsRegular()) {\n','	if err == nil && fileinfo.Mode().IsRegular() {\n')],
 demo=go(['net','@request','@status','@trans','@gocui'], REQ+'''
	must(os.Mkdir(sar+"/dir", 0755))
	if e, ok := ask(5, "descriptor=d32,stream=no,txwilling=yes,rxwilling=yes,reqtype=put,udplite=no", "dir"); ok || e != "fileinuse" { fail("put onto a directory: %s %v", e, ok) }
	if e, ok := ask(6, "descriptor=d32,stream=no,txwilling=yes,rxwilling=yes,reqtype=getdir,udplite=no", "dir"); !ok || e != "success" { fail("getdir of a directory: %s %v", e, ok) }
'''))
bug(id='c18-lookup-ignores-direction',property='C18',
 needs='a peer that uses, as responder, a session number we use as initiator (or the reverse)',
 breaks='Lookup finds the transfer of the other direction',
 edits=[('sarwin/sarwin.go','		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {\n','		if session == t.Session && t.Peer.String() == peer {\n')],
 demo=go(['net','@sarwin','@gocui'], '''
	g := &gocui.Gui{}
	must(os.WriteFile(sar+"/f", []byte("x"), 0644))
	peer := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}
	t, err := sarwin.NewInitiator(g, "put", peer, "f", conf)
	must(err)
	if sarwin.Lookup(sarwin.Initiator, t.Session, peer.String()) != t { fail("transfer not found") }
	if sarwin.Lookup(sarwin.Responder, t.Session, peer.String()) != nil { fail("initiator found as responder") }
'''))
bug(id='c18-copy-shares-globals',property='C18',
 needs='a transfer that is under way while a command changes a header flag setting',
 breaks='the settings copied for a transfer share the map of the global settings, so a running transfer changes with later commands (and races with them)',
 edits=[('sarflags/sarflags.go','''	d.Global = make(map[string]string)
	for g := range s.Global {
		d.Global[g] = s.Global[g]
	}
''','''	d.Global = s.Global
''')],
 demo=go(['net','@sarwin','@gocui'], '''
	g := &gocui.Gui{}
	must(os.WriteFile(sar+"/f", []byte("x"), 0644))
	peer := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}
	t, err := sarwin.NewInitiator(g, "put", peer, "f", conf)
	must(err)
	was := t.Cliflags.Global["csumtype"]
	conf.Global["csumtype"] = "sha1"
	if was == "sha1" { conf.Global["csumtype"] = "md5" }
	if now := t.Cliflags.Global["csumtype"]; now != was { fail("checksum of a running transfer changed from %s to %s", was, now) }
'''))
bug(id='c19-status-one-hole-too-many',property='C19',
 needs='a transfer with more holes than fit one datagram',
 breaks='progress and in-response-to are not counted, so a full status datagram is larger than the maximum frame',
 edits=[('sarwin/sarwin.go','	plen -= hsize       // For Progress & Inrespto\n	return plen / hsize // Max holes we can now have in the frame\n','	// Progress & Inrespto are counted with the header\n	return plen / hsize // Max holes we can now have in the frame\n')],
 demo=go(['net','time','@sarwin','@gocui'], '''
	g := &gocui.Gui{}
	sarflags.MtuSet(1500)
	rx, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	must(err)
	to := rx.LocalAddr().(*net.UDPAddr)
	c, err := net.DialUDP("udp4", nil, to)
	must(err)
	for _, d := range []string{"d16", "d32", "d64"} {
		t := &sarwin.Transfer{Session: 9, Conn: c, Peer: to}
		for i := 0; i < 1200; i++ { t.Curfills = append(t.Curfills, struct{ Start, End int }{10*i + 5, 10*i + 10}) }
		if r := t.WriteStatus(g, "descriptor="+d+",reqtstamp=no,metadatarecvd=no,reqholes=requested,errcode=success"); r != "success" { fail("WriteStatus %s", r) }
		buf := make([]byte, 9000)
		rx.SetReadDeadline(time.Now().Add(time.Second))
		for {
			n, _, err := rx.ReadFromUDP(buf)
			if err != nil { break }
			if n > 1500-60-8 { fail("status datagram of %d bytes with %s", n, d) }
			rx.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
		}
	}
'''))
UI='''
	g := &gocui.Gui{}
	run := func(l string) { sarwin.Run(g, l) }
	_ = run
'''
bug(id='c20-timeout-off-wrong-timer',property='C20',
 needs='turning the transfer timer off',
 breaks='timeout transfer off resets the status timer instead',
 edits=[('sarwin/sarwin.go','''				sarflags.Cliflag.Timeout.Transfer = 60
				MsgPrintln''','''				sarflags.Cliflag.Timeout.Status = 60
				MsgPrintln''')],
 demo=go(['time','@sarwin','@gocui'], UI+'''
	read := func() sarflags.Timeouts { sarflags.Climu.Lock(); defer sarflags.Climu.Unlock(); return conf.Timeout }
	conf.Timeout = sarflags.Timeouts{Metadata: 1, Request: 2, Status: 3, Transfer: 4, Binterval: 5, Datacounter: 6}
	run("timeout transfer off")
	time.Sleep(500 * time.Millisecond)
	if t := read(); t.Transfer != 60 || t.Status != 3 { fail("timers %+v", t) }
'''))
bug(id='c20-stream-unlocked',property='C20',
 needs='the stream command given at the same time as another command that changes a header flag',
 breaks='the settings map is written without its lock: a data race that can lose a change or end the program',
 edits=[('sarwin/sarwin.go','''func cmdStream(g *gocui.Gui, args []string) {
	sarflags.Climu.Lock()
	defer sarflags.Climu.Unlock()

''','''func cmdStream(g *gocui.Gui, args []string) {
''')], race=True,
 demo=go(['time','@sarwin','@gocui'], UI+'''
	for i := 0; i < 200; i++ {
		run("stream yes")
		run("rxwilling off")
		run("stream no")
		run("rxwilling on")
	}
	time.Sleep(time.Second)
'''), run='timeout 120 env GORACE="halt_on_error=1 exitcode=66" "$work/demo" /repo/saratoga/saratoga.json "$SARDIR"')
bug(id='c22-commands-survive-reread',property='C22',
 needs='a configuration loaded a second time with fewer entries in a flag table than the first',
 breaks='the command table of an earlier configuration is kept, so commands that the file does not have stay known',
 edits=[('sarflags/sarflags.go','	Commands = make(map[string]Cmdtype)           // Setup Commands global map\n','	if Commands == nil {\n		Commands = make(map[string]Cmdtype) // Setup Commands global map\n	}\n')],
 demo=go(['encoding/json'], '''
	b, err := os.ReadFile(os.Args[1])
	must(err)
	var m map[string]any
	must(json.Unmarshal(b, &m))
	for k, v := range m {
		if k == "commands" {
			c := v.(map[string]any)
			delete(c, "peers")
		}
	}
	b, _ = json.Marshal(m)
	must(os.WriteFile(sar+"/c.json", b, 0644))
	must(conf.ReadConfig(sar + "/c.json"))
	if _, ok := sarflags.Commands["peers"]; ok { fail("a command of the earlier configuration is still known") }
'''))
bug(id='c23-mapped-address',property='C23',
 needs='a beacon (or get, put...) to an IPv4-mapped IPv6 address such as ::ffff:127.0.0.1',
 breaks='an IPv6 address with an embedded IPv4 address is taken for IPv4 and refused',
 edits=[('sarnet/sarnet.go','''	if isIPv6(s) {
		a = "[" + s + "]"
	} else if isIPv4(s) {
		a = s
	} else {''','''	if isIPv4(s) {
		a = s
	} else if isIPv6(s) {
		a = "[" + s + "]"
	} else {''')],
 demo=go(['net','@sarnet'], '''
	for _, s := range []string{"127.0.0.1", "::1", "::ffff:127.0.0.1", "64:ff9b::192.0.2.1"} {
		a, err := sarnet.UDPAddress(s)
		if err != nil { fail("%s: %v", s, err) }
		if !a.IP.Equal(net.ParseIP(s)) || a.Port != 7542 { fail("%s is %s", s, a) }
	}
'''))
