from b1 import go
from b3 import TERM,gui,look
BUGS=[]
def bug(**k): BUGS.append(k)

bug(id='c04-auth-ends-with-space',property='C04',
 needs='a request whose authentication field ends with a blank',
 breaks='blanks at the end of the authentication field are lost when the request is decoded',
 edits=[('request/request.go','	r.Auth = make([]byte, len(frame[pos:]))\n	copy(r.Auth, frame[pos:])\n','	r.Auth = append([]byte{}, bytes.TrimRight(frame[pos:], " ")...)\n')],
 demo=go(['@request'],'''
	var r, s request.Request
	auth := []byte("secret  ")
	must(r.New("descriptor=d32,stream=no,fileordir=file,reqtype=get,udplite=no", &request.Rinfo{Session: 5, Fname: "f", Auth: auth}))
	b, err := r.Encode()
	must(err)
	must(s.Decode(b))
	if string(s.Auth) != string(auth) { fail("auth %q came as %q", auth, s.Auth) }
'''))
bug(id='c06-eid-of-nuls',property='C06',
 needs='a beacon with a d16 free space and an identifier that ends with NUL bytes',
 breaks='the NULs at the end of the identifier are lost',
 edits=[('beacon/beacon.go','			b.Eid = string(frame[6:])\n','			b.Eid = strings.TrimRight(string(frame[6:]), "\\x00")\n')],
 demo=go(['@beacon'],'''
	var b beacon.Beacon
	h, err := sarflags.Set(0x20000000, "freespace", "yes")
	must(err)
	h, err = sarflags.Set(h, "freespaced", "d16")
	must(err)
	frame := append([]byte{byte(h >> 24), byte(h >> 16), byte(h >> 8), byte(h), 0, 7}, "node\\x00\\x00"...)
	must(b.Decode(frame))
	if b.Eid != "node\\x00\\x00" { fail("identifier came as %q", b.Eid) }
'''))
bug(id='c05-checksum-in-receive-buffer',property='C05',
 needs='decoding a metadata frame with a checksum, then reusing the receive buffer for the next frame',
 breaks='the checksum decoded lies in the receive buffer and changes with it',
 edits=[('metadata/metadata.go','	m.Checksum = make([]byte, csuml)\n	copy(m.Checksum, frame[pos:pos+csuml])\n','	m.Checksum = frame[pos : pos+csuml : pos+csuml]\n')],
 demo=go(['@metadata'],'''
	must(os.WriteFile(sar+"/f", []byte("hello"), 0644))
	var m, n metadata.MetaData
	must(m.New("transfer=file,progress=inprogress,csumtype=sha1", &metadata.Minfo{Session: 3, Fname: "f"}))
	b, err := m.Encode()
	must(err)
	buf := append([]byte{}, b...)
	must(n.Decode(buf))
	for i := range buf { buf[i] = 0xee }
	if string(n.Checksum) != string(m.Checksum) { fail("checksum %x became %x with the next frame", m.Checksum, n.Checksum) }
'''))
bug(id='c05-path-of-1024',property='C05',
 needs='a path of exactly 1024 bytes',
 breaks='a directory entry whose path has the longest length allowed cannot be encoded',
 edits=[('dirent/dirent.go','''	framelen += len(d.Path) + 1 // Add in the required NULL at the end of path
	if len(d.Path) > 1024 {
''','''	framelen += len(d.Path) + 1 // Add in the required NULL at the end of path
	if len(d.Path)+1 > 1024 {
''')],
 demo=go(['@dirent','strings'],'''
	var d, e dirent.DirEnt
	must(d.New("descriptor=d32,property=specialfile", strings.Repeat("x", 1024)))
	b, err := d.Encode()
	if err != nil { fail("path of 1024 bytes: %v", err) }
	must(e.Decode(b))
	if e.Path != d.Path { fail("path is not the same") }
'''))
bug(id='c07-shown-after-2106',property='C07',
 needs='a timestamp of type epoch2000_32 after February 2106',
 breaks='the time is shown as one 136 years earlier',
 edits=[('timestamp/timestamp.go','		ut := uint64(epoch2k.Unix())\n		ut += t.secs\n','		ut := uint32(epoch2k.Unix())\n		ut += uint32(t.secs)\n')],
 demo=go(['time','strings','@timestamp'],'''
	for _, y := range []int{2001, 2105, 2107, 2130} {
		var ts timestamp.Timestamp
		must(ts.New("epoch2000_32", time.Date(y, 3, 1, 0, 0, 0, 0, time.UTC)))
		if !strings.Contains(ts.Print(), fmt.Sprint(y)) { fail("%d is shown as %s", y, ts.Print()) }
	}
'''))
bug(id='c08-metadata-seven-bytes',property='C08',
 needs='a metadata frame of exactly seven bytes',
 breaks='the decoder reads beyond the frame and brings the program down',
 edits=[('metadata/metadata.go','	if len(frame) < 8 {\n','	if len(frame) < 7 {\n')],
 demo=go(['@metadata'],'''
	for n := 0; n < 8; n++ {
		func() {
			defer func() { if r := recover(); r != nil { fail("%d bytes: %v", n, r) } }()
			var m metadata.MetaData
			if m.Decode(make([]byte, n)) == nil { fail("%d bytes were accepted", n) }
		}()
	}
'''))
bug(id='c09-dirent-d32-twice',property='C09',
 needs='a directory entry of 4 to 8 GiB with a d32 descriptor',
 breaks='the size is cut to 32 bits instead of being refused',
 edits=[('dirent/dirent.go','		if d.Size > sarflags.MaxUint32 {\n','		if d.Size/2 > sarflags.MaxUint32 {\n')],
 demo=go(['@dirent'],'''
	var d dirent.DirEnt
	must(d.New("descriptor=d32,property=specialfile", "x"))
	for _, s := range []uint64{1 << 32, 1<<32 + 1, 1<<33 - 1, 1 << 33, 1 << 40} {
		d.Size = s
		if _, err := d.Encode(); err == nil { fail("a size of %d was put in 32 bits", s) }
	}
'''))
bug(id='c10-first-byte',property='C10',
 needs='only the very first byte missing before the first range received',
 breaks='a hole of one byte at the beginning is not reported',
 edits=[('holes/holes.go','f == 0 && fills[f].Start != 0','f == 0 && fills[f].Start > 1')],
 demo=go(['@holes'],'''
	var h holes.Holes
	h = h.Add(1, 10)
	if g := h.Getholes(); len(g) != 1 || g[0] != (holes.Hole{0, 1}) { fail("holes are %v, not [0,1)", g) }
'''))
bug(id='c18-copy-drops-datacounter',property='C18',
 needs='a data counter set before a transfer is begun',
 breaks='the copy of the settings a transfer keeps does not have the data counter',
 edits=[('sarflags/sarflags.go','	d.Timeout.Datacounter = s.Timeout.Datacounter\n','	d.Timeout.Datacounter = d.Timeout.Transfer / 2\n')],
 demo=go(['net','@sarwin','@gocui'],'''
	sarflags.Cliflag.Timeout.Datacounter = 77
	tr, err := sarwin.NewInitiator(&gocui.Gui{}, "get", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9999}, "f", sarflags.Cliflag)
	must(err)
	if n := tr.Cliflags.Timeout.Datacounter; n != 77 { fail("the transfer was begun with a counter of %d, not 77", n) }
'''))
bug(id='c19-timestamp-room',property='C19',
 needs='a status with a timestamp and at least as many holes as fill a datagram',
 breaks='too little room is left for the timestamp, so the datagram is larger than the largest frame',
 edits=[('sarwin/sarwin.go','''			default:
				return 0
			}
		case "reqtstamp":
			if f[1] == "yes" {
				plen -= 16
			}
		default:
		}
	}
	plen -= hsize ''','''			default:
				return 0
			}
		case "reqtstamp":
			if f[1] == "yes" {
				plen -= 8
			}
		default:
		}
	}
	plen -= hsize ''')],
 demo=go(['net','time','@sarwin','@gocui'],'''
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	must(err)
	for mtu := 600; mtu < 616; mtu++ {
		sarflags.MtuSet(mtu)
		tc, err := net.DialUDP("udp", nil, c.LocalAddr().(*net.UDPAddr))
		must(err)
		tr := &sarwin.Transfer{Direction: sarwin.Responder, Session: 5, Conn: tc, Peer: c.LocalAddr().(*net.UDPAddr)}
		for i := 0; i < 300; i++ { tr.Curfills = append(tr.Curfills, struct{ Start, End int }{2 * i, 2*i + 1}) }
		if s := tr.WriteStatus(&gocui.Gui{}, "descriptor=d16,reqtstamp=yes,metadatarecvd=yes,allholes=no,reqholes=requested,errcode=success"); s != "success" { fail("%s", s) }
		buf := make([]byte, 9000)
		for {
			c.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
			n, err := c.Read(buf)
			if err != nil { break }
			if n > mtu-60-8 { fail("a status of %d bytes with an MTU of %d", n, mtu) }
		}
		tc.Close()
	}
'''))
bug(id='c22-timestamp-types-kept',property='C22',
 needs='a second configuration with fewer timestamp types than the first',
 breaks='the timestamp types of the configuration loaded before are still known',
 edits=[('sarflags/sarflags.go','					TimeStamps.Options = make(map[string]uint8)\n','''					if len(TimeStamps.Options) == 0 {
						TimeStamps.Options = make(map[string]uint8, len(oinfo))
					}
''')],
 demo=go(['encoding/json'],'''
	b, err := os.ReadFile(os.Args[1])
	must(err)
	var j map[string]any
	must(json.Unmarshal(b, &j))
	delete(j["timestamps"].(map[string]any)["options"].(map[string]any), "posix64")
	b, err = json.Marshal(j)
	must(err)
	must(os.WriteFile(sar+"/c.json", b, 0644))
	must(conf.ReadConfig(sar + "/c.json"))
	if _, ok := sarflags.TimeStamps.Options["posix64"]; ok { fail("posix64 is still a timestamp type") }
'''))
bug(id='c25-dirent-times-swapped',property='C25',
 needs='a metadata frame whose creation and modification times differ, shown in full',
 breaks='the long text shows the modification time as the creation time as well',
 edits=[('dirent/dirent.go','''	sflag += fmt.Sprintf("    Mtime:%s\\n", d.Mtime.Print())
	sflag += fmt.Sprintf("    Ctime:%s", d.Ctime.Print())
	return sflag
}

func (d DirEnt) ShortPrint''','''	t := d.Mtime.Print()
	if d.Ctime.Secs() > d.Mtime.Secs() {
		t = d.Ctime.Print()
	}
	sflag += fmt.Sprintf("    Mtime:%s\\n", d.Mtime.Print())
	sflag += fmt.Sprintf("    Ctime:%s", t)
	return sflag
}

func (d DirEnt) ShortPrint''')],
 demo=go(['time','strings','@dirent'],'''
	var d dirent.DirEnt
	must(d.New("descriptor=d32,property=specialfile", "x"))
	must(d.Ctime.New("epoch2000_32", time.Date(2001, 3, 1, 0, 0, 0, 0, time.UTC)))
	if s := d.Print(); !strings.Contains(s[strings.Index(s, "Ctime"):], "2001") { fail("shown as %s", s) }
'''))
bug(id='c26-first-row-unreached',property='C26',
 needs='a window scrolled down and the cursor moved up to its first row',
 breaks='the first row of a window that has scrolled cannot be reached',
 edits=[('sarwin/sarwin.go','v.SetCursor(cx, cy-1); err != nil && oy > 0','v.SetCursor(cx, cy-1); err != nil && oy > 1')],
 demo=go(['@sarwin','@gocui'],'''
	g, err := gocui.NewGui(gocui.OutputNormal)
	must(err)
	v, _ := g.SetView("msg", 0, 0, 40, 6)
	for i := 0; i < 30; i++ { fmt.Fprintf(v, "line %d\\n", i) }
	must(v.SetOrigin(0, 10))
	must(v.SetCursor(0, 3))
	for i := 0; i < 40; i++ { must(sarwin.CursorUp(g, v)) }
	_, oy := v.Origin()
	_, cy := v.Cursor()
	if oy+cy != 0 { fail("40 times up from row 13 is row %d", oy+cy) }
'''),run='''TERM=xterm timeout 100 python3 -c 'import pty,os,sys; sys.exit(os.waitstatus_to_exitcode(pty.spawn(sys.argv[1:])))' "$work/demo" /repo/saratoga/saratoga.json "$SARDIR" </dev/null''')
