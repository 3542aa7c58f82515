from b1 import go
BUGS=[]
def bug(**k): BUGS.append(k)

bug(id='c18-lookup-peer-prefix',property='C18',
 needs='a look-up by the address of another peer of the same host whose port begins with the same digits',
 breaks='a transfer is found by a peer that is not its own',
 edits=[('sarwin/sarwin.go','		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {\n','		if direction == t.Direction && session == t.Session && strings.HasPrefix(t.Peer.String(), peer) {\n')],
 demo=go(['@sarwin','@gocui','net'],'''
	g := &gocui.Gui{}
	must(os.WriteFile(sar+"/f", []byte("x"), 0644))
	peer := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}
	t, err := sarwin.NewInitiator(g, "put", peer, "f", conf)
	must(err)
	if sarwin.Lookup(sarwin.Initiator, t.Session, "127.0.0.1:7542") != t { fail("transfer not found") }
	if sarwin.Lookup(sarwin.Initiator, t.Session, "127.0.0.1:754") != nil { fail("found by another peer") }
'''))
bug(id='c18-checksum-type-kept',property='C18',
 needs='a second metadata frame of a transfer with another type of checksum',
 breaks='the transfer keeps the type of checksum of its first metadata with the checksum of the second',
 edits=[('sarwin/sarwin.go','	t.Csumtype = sarflags.GetStr(m.Header, "csumtype")\n','	if !t.Havemeta {\n		t.Csumtype = sarflags.GetStr(m.Header, "csumtype")\n	}\n')],
 demo=go(['@sarwin','@metadata','@dirent','@gocui','net'],'''
	g := &gocui.Gui{}
	must(os.WriteFile(sar+"/f", []byte("x"), 0644))
	peer := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}
	t, err := sarwin.NewInitiator(g, "put", peer, "f", conf)
	must(err)
	for ty, n := range map[string]int{"md5": 16, "sha1": 20, "crc32": 4} {
		h, err := sarflags.Set(0x20000000, "csumtype", ty)
		must(err)
		must(t.Change(g, metadata.MetaData{Header: h, Checksum: make([]byte, n), Dir: dirent.DirEnt{Size: 7, Path: "f"}}))
		if t.Csumtype != ty || len(t.Checksum) != n { fail("%s: the transfer has %s and %d bytes", ty, t.Csumtype, len(t.Checksum)) }
	}
'''))
