from b1 import go
from b3 import TERM,gui,look
BUGS=[]
def bug(**k): BUGS.append(k)

bug(id='c27-payload-reused',property='C27',
 needs='two timestamped d64 data frames decoded one after the other into the same struct, the second not longer than the first, while the packet of the first is still in use',
 breaks='the payload of a packet handed on is overwritten by the next frame decoded',
 edits=[('data/data.go','''			d.Offset = binary.BigEndian.Uint64(frame[24:32]) // 8 bytes
			d.Payload = make([]byte, len(frame[32:]))
			copy(d.Payload, frame[32:])
''','''			d.Offset = binary.BigEndian.Uint64(frame[24:32]) // 8 bytes
			d.Payload = append(d.Payload[:0], frame[32:]...)
''')],
 demo=go(['@data','net'],'''
	mk := func(p string) []byte {
		var d data.Data
		must(d.New("descriptor=d64,transfer=file,eod=no,reqtstamp=posix32", &data.Dinfo{Session: 1, Offset: 7, Payload: []byte(p)}))
		b, err := d.Encode()
		must(err)
		return b
	}
	var d data.Data
	must(d.Decode(mk("the first payload")))
	v := d.Val(&net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	must(d.Decode(mk("another payload")))
	if string(v.Info.Payload) != "the first payload" { fail("the packet handed on became %q", v.Info.Payload) }
'''))
bug(id='c12-removes-trees',property='C12',
 needs='asking to remove a directory that is not empty',
 breaks='removing a directory removes everything in it instead of failing',
 edits=[('fileio/fileio.go','	return os.Remove(fullname)\n}\n\n// Close the fp and then','	return os.RemoveAll(fullname)\n}\n\n// Close the fp and then')],
 demo=go(['@fileio'],'''
	must(os.Mkdir(sar+"/d", 0755))
	must(os.WriteFile(sar+"/d/f", []byte("x"), 0644))
	err := fileio.FileRm("d")
	if _, e := os.Stat(sar+"/d/f"); e != nil || err == nil { fail("removing d: %v, d/f: %v", err, e) }
'''))
bug(id='c16-small-changes-missed',property='C16',
 needs='two beacons of a peer whose free space differs by less than a megabyte and that say the same otherwise',
 breaks='a small change of the free space of a peer is not recorded',
 edits=[('beacon/beacon.go','			if Peers[p].Freespace != b.Freespace ||\n','			if Peers[p].Freespace>>10 != b.Freespace>>10 ||\n')],
 demo=go(['@beacon','net'],'''
	a := &net.UDPAddr{IP: net.IPv4(10, 1, 2, 3), Port: 7542}
	h, err := sarflags.Set(0x20000000, "freespace", "yes")
	must(err)
	beacon.NewPeer(&beacon.Beacon{Header: h, Freespace: 500 << 20, Eid: "a"}, a)
	l := beacon.NewPeer(&beacon.Beacon{Header: h, Freespace: 500<<20 + 1, Eid: "a"}, a)
	if p := beacon.PeerList(); len(p) != 1 || p[0].Freespace != 500<<20+1 || !l { fail("learned %v, table %v", l, p) }
'''))
