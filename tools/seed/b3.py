from b1 import go
BUGS=[]
def bug(**k): BUGS.append(k)

# Runs the demo in a terminal of its own and keeps what that shows
DRIVE=r'''
import os,pty,sys,select,time,re,fcntl,termios,struct,signal
class Term:
    def __init__(s,cols,rows,argv):
        s.cols,s.rows=cols,rows
        s.cells={}; s.x=s.y=0; s.sgr=''; s.buf=b''
        pid,fd=pty.fork()
        if pid==0:
            os.environ['TERM']='xterm'
            time.sleep(0.3) # The size is set by then
            os.execv(argv[0],argv)
        s.pid,s.fd=pid,fd
        s.size(cols,rows)
    def size(s,cols,rows):
        s.cols,s.rows=cols,rows
        fcntl.ioctl(s.fd,termios.TIOCSWINSZ,struct.pack('HHHH',rows,cols,0,0))
        try: os.kill(s.pid,signal.SIGWINCH)
        except OSError: pass
    def feed(s,b):
        s.buf+=b
        while s.buf:
            c=s.buf[0]
            if c==0x1b:
                m=re.match(rb'\x1b\[([?0-9;]*)([A-Za-z])',s.buf)
                if not m:
                    m=re.match(rb'\x1b[()=>78][B0]?',s.buf)
                    if m: s.buf=s.buf[m.end():]; continue
                    if len(s.buf)<24: return
                    s.buf=s.buf[1:]; continue
                a,k=m.group(1).decode(),m.group(2).decode()
                s.buf=s.buf[m.end():]
                if k=='H':
                    p=[int(q or 1) for q in a.split(';')] if a else [1,1]
                    s.y,s.x=p[0]-1,(p[1]-1 if len(p)>1 else 0)
                elif k=='J': s.cells={}
                elif k=='m': s.sgr='' if a in('','0') else s.sgr+'<'+a+'>'
                continue
            if c<0x20 or c==0x7f:
                if c==10: s.y+=1
                if c==13: s.x=0
                s.buf=s.buf[1:]; continue
            n=1 if c<0x80 else 2 if c<0xe0 else 3 if c<0xf0 else 4
            if len(s.buf)<n: return
            ch=s.buf[:n].decode('utf-8','replace'); s.buf=s.buf[n:]
            s.cells[(s.x,s.y)]=(ch,s.sgr); s.x+=1
    def read(s,secs):
        end=time.time()+secs
        while time.time()<end:
            r,_,_=select.select([s.fd],[],[],0.05)
            if r:
                try: b=os.read(s.fd,65536)
                except OSError: return
                if not b: return
                s.feed(b)
    def key(s,k):
        os.write(s.fd,k); s.read(0.3)
    def text(s):
        return [''.join(s.cells.get((x,y),(' ',''))[0] for x in range(s.cols)) for y in range(s.rows)]
    def has(s,t): return any(t in l for l in s.text())
    def wait(s,t,secs=10):
        end=time.time()+secs
        while time.time()<end and not s.has(t): s.read(0.1)
        return s.has(t)
    def attr(s,t):
        for y,l in enumerate(s.text()):
            if t in l: return s.cells[(l.index(t),y)][1]
    def end(s):
        try: os.kill(s.pid,9)
        except OSError: pass
def check(ok,msg,t):
    if not ok:
        t.end(); print('BROKEN:',msg); print('\n'.join(t.text())); sys.exit(1)
'''
TERM='timeout 120 python3 "$here/look.py" "$work/demo" /repo/saratoga/saratoga.json "$SARDIR"'
def gui(body): return go(['time','@sarwin','@gocui'],'''
	g, err := gocui.NewGui(gocui.OutputNormal)
	must(err)
	defer g.Close()
	sarwin.Cinfo.Prompt = conf.Prompt
	sarwin.Cinfo.Ppad = conf.Ppad
	g.SetManagerFunc(sarwin.Layout)
	must(sarwin.Keybindings(g))
	go func() {
		time.Sleep(300 * time.Millisecond)
'''+body+'''
	}()
	g.MainLoop()
''')
def look(body): return {'drive.py':DRIVE.lstrip('\n'),'look.py':'from drive import *\n'+body.lstrip('\n')+"t.end()\nprint('ok')\n"}

bug(id='c28-packets-leave-with-focus',property='C28',
 needs='packets switched on and the focus moved on with Ctrl-Space',
 breaks='as soon as the focus moves to another window the packet window is covered by the messages though it is switched on',
 edits=[('sarwin/sarwin.go','''	if showpacket {
		return g.SetViewOnTop("packet")
	} else {''','''	if showpacket && name == "packet" {
		return g.SetViewOnTop("packet")
	} else {''')],
 run=TERM,demo=gui('		sarwin.PacketPrintln(g, "cyan_black", "a frame")\n'),
 files=look('''
t=Term(100,40,sys.argv[1:])
check(t.wait('[0]:'),'no prompt',t)
t.read(1)
t.key(b'\\x10')
check(t.wait('a frame',5),'packets not shown',t)
t.key(b'\\x00')
t.read(0.5)
check(t.has('a frame'),'packets not shown with the focus on the messages',t)
'''))
bug(id='c28-errors-do-not-scroll',property='C28',
 needs='more errors than the error window has rows',
 breaks='the error window stays at the first errors, the latest are out of sight',
 edits=[('sarwin/sarwin.go','''		cmd.Editable = false
		cmd.Overwrite = false
		cmd.Wrap = true
		cmd.Autoscroll = true
''','''		cmd.Editable = false
		cmd.Overwrite = false
		cmd.Wrap = true
		cmd.Autoscroll = maxy < minx
''')],
 run=TERM,demo=gui('''
		for i := 0; i < 30; i++ { sarwin.ErrPrintln(g, "red_black", fmt.Sprintf("error %d.", i)) }
		time.Sleep(time.Second)
		sarwin.MsgPrintln(g, "green_black", "done")
'''),
 files=look('''
t=Term(100,40,sys.argv[1:])
check(t.wait('done'),'nothing printed',t)
t.read(0.5)
check(t.has('error 29.'),'latest error not shown',t)
'''))
bug(id='c28-half-unknown-colour',property='C28',
 needs='a colour of which only the background is unknown',
 breaks='a text in a known foreground on an unknown background is shown in a made up colour instead of the alarming white on red',
 edits=[('sarwin/sarwin.go','fgexists(sequence[0]) && bgexists(sequence[1])','fgexists(sequence[0]) || bgexists(sequence[1])')],
 run=TERM,demo=gui('''
		sarwin.MsgPrintln(g, "nosuch_nosuch", "UNKNOWN")
		sarwin.MsgPrintln(g, "green_nosuch", "HALF")
		sarwin.MsgPrintln(g, "nosuch_black", "OTHER")
		time.Sleep(time.Second)
		sarwin.MsgPrintln(g, "green_black", "done")
'''),
 files=look('''
t=Term(100,40,sys.argv[1:])
check(t.wait('done'),'nothing printed',t)
t.read(0.5)
for w in 'HALF','OTHER':
    check(t.attr(w)==t.attr('UNKNOWN'),'%s is shown as %r, unknown colours as %r'%(w,t.attr(w),t.attr('UNKNOWN')),t)
'''))
bug(id='c26-repeat-not-kept',property='C26',
 needs='the same command given twice in a row',
 breaks='a command that repeats the last one is run but not kept in the list of commands',
 edits=[('sarwin/sarwin.go','''		Cinfo.Commands = append(Cinfo.Commands, command[1])
''','''		if n := len(Cinfo.Commands); n == 0 || Cinfo.Commands[n-1] != command[1] {
			Cinfo.Commands = append(Cinfo.Commands, command[1])
		}
''')],
 run=TERM,demo=gui('''
		for { time.Sleep(300 * time.Millisecond); sarwin.MsgPrintln(g, "green_black", fmt.Sprintf("kept %d.", len(sarwin.Cinfo.Commands))) }
'''),
 files=look('''
t=Term(100,40,sys.argv[1:])
check(t.wait('kept 0.'),'no prompt',t)
for i in range(2):
    t.key(b'timestamp'); t.read(0.3); t.key(b'\\r'); t.read(0.5)
check(t.wait('kept 2.',5),'two commands given',t)
'''))
bug(id='c27-status-scratch',property='C27',
 needs='two statuses encoded at the same time',
 breaks='statuses are put together in one buffer of the package, so two encoded at the same time mix',
 edits=[('status/status.go','	frame := make([]byte, framelen)\n','''	if cap(scratch) < framelen {
		scratch = make([]byte, framelen)
	}
	frame := scratch[:framelen]
	clear(frame)
'''),('status/status.go','	return frame, nil\n','	return append([]byte(nil), frame...), nil\n'),
 ('status/status.go','// Status -- Status of the transfer and holes\n','''// What a frame is put together in before it is given out
var scratch []byte

// Status -- Status of the transfer and holes
''')],
 demo=go(['bytes','sync','@status','@holes'],'''
	enc := func(i int) []byte {
		var st status.Status
		inf := status.Sinfo{Session: uint32(i), Progress: uint64(i), Inrespto: uint64(i)}
		for h := 0; h < 50; h++ { inf.Holes = append(inf.Holes, holes.Hole{Start: i, End: i + h}) }
		must(st.New("descriptor=d64,allholes=yes,reqholes=requested,errcode=success", &inf))
		b, err := st.Encode()
		must(err)
		return b
	}
	var wg sync.WaitGroup
	for i := 1; i <= 8; i++ {
		i := i
		want := enc(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 5000; n++ {
				if !bytes.Equal(enc(i), want) { fail("the status of session %d has the bytes of another", i) }
			}
		}()
	}
	wg.Wait()
'''))
bug(id='c10-beyond-2g',property='C10',
 needs='received ranges of which one ends beyond 2 GiB',
 breaks='ranges are compared as 32 bit numbers, so those across 2 GiB are not merged or merged wrongly',
 edits=[('holes/holes.go','		if fills[i+1].Start <= fills[i].End {\n','		if int32(fills[i+1].Start-fills[0].Start) <= int32(fills[i].End-fills[0].Start) {\n')],
 demo=go(['@holes'],'''
	var h holes.Holes
	h = h.Add(0, 10)
	h = h.Add(1<<32+5, 1<<32+20)
	if len(h) != 2 || h.Lenholes() != 1 { fail("kept %v, holes %v", h, h.Getholes()) }
'''))
bug(id='c15-path-of-earlier-file',property='C15',
 needs='a metadata struct used for a second file',
 breaks='metadata made in a struct that has been used keeps the path of the earlier file',
 edits=[('metadata/metadata.go','''	m.Dir.Path = d.Path

	// Checksum calculation
''','''	if m.Dir.Path == "" {
		m.Dir.Path = d.Path
	}

	// Checksum calculation
''')],
 demo=go(['@metadata'],'''
	must(os.WriteFile(sar+"/one", []byte("1"), 0644))
	must(os.WriteFile(sar+"/two", []byte("22"), 0644))
	var m metadata.MetaData
	for _, f := range []string{"one", "two"} {
		must(m.New("descriptor=d32,progress=inprogress,transfer=file,csumtype=none", &metadata.Minfo{Session: 1, Fname: f}))
		if m.Dir.Path != f { fail("metadata of %s has path %s", f, m.Dir.Path) }
	}
'''))
bug(id='c07-shown-in-local-time',property='C07',
 needs='a system whose time zone is not UTC and a timestamp with nanoseconds',
 breaks='timestamps with a fraction are shown in the time zone of the host, but labelled UTC',
 edits=[('timestamp/timestamp.go','''		ti = ti.UTC()
		return ti.Format("Mon Jan _2 15:04:05.000 2006 UTC")''','''		return ti.Format("Mon Jan _2 15:04:05.000 2006 UTC")''')],
 demo=go(['time','@timestamp'],'''
	time.Local = time.FixedZone("here", 5*3600)
	var t timestamp.Timestamp
	must(t.New("posix32_32", time.Unix(1700000000, 0)))
	if p, want := t.Print(), "Tue Nov 14 22:13:20.000 2023 UTC"; p != want { fail("shown as %q, not %q", p, want) }
'''))
bug(id='c16-newest-first',property='C16',
 needs='beacons of at least two peers',
 breaks='a new peer is put at the head of the table, which is no longer in order of arrival',
 edits=[('beacon/beacon.go','	Peers = append(Peers, *newp)\n','	Peers = append([]Peer{*newp}, Peers...)\n')],
 demo=go(['net','@beacon'],'''
	b := &beacon.Beacon{Eid: "x"}
	for i := 1; i < 4; i++ { beacon.NewPeer(b, &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(i)), Port: 7542}) }
	p := beacon.PeerList()
	for i := range p {
		if want := fmt.Sprintf("10.0.0.%d", i+1); p[i].Addr != want { fail("peer %d is %s, not %s", i, p[i].Addr, want) }
	}
'''))
bug(id='c23-count-of-a-byte',property='C23',
 needs='more than 255 beacons asked for to one address',
 breaks='a count above 255 sends 255 beacons',
 edits=[('sarwin/sarwin.go','iterations := clib.count; iterations > 0','iterations := min(clib.count, 255); iterations > 0')],
 demo=go(['net','time','@sarwin','@gocui'],'''
	sarflags.Cliflag.Bcount = 300
	sarflags.Cliflag.Timeout.Binterval = 0
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 91), Port: 7542})
	must(err)
	c.SetReadBuffer(4 << 20)
	got := make(chan int)
	go func() {
		buf := make([]byte, 9000)
		for n := 0; ; n++ {
			c.SetReadDeadline(time.Now().Add(3 * time.Second))
			if _, err := c.Read(buf); err != nil { got <- n; return }
		}
	}()
	sarwin.Run(&gocui.Gui{}, "beacon 127.0.0.91")
	if n := <-got; n != 300 { fail("%d beacons came, not 300", n) }
'''))
bug(id='c18-remove-cuts-table',property='C18',
 needs='the removal of a transfer after which others were begun',
 breaks='removing a transfer also drops every transfer begun after it',
 edits=[('sarwin/sarwin.go','			Transfers = append(Transfers[:i], Transfers[i+1:]...)\n','			Transfers = Transfers[:i]\n')],
 demo=go(['@sarwin','@request','@gocui'],'''
	must(os.WriteFile(sar+"/f", []byte("1"), 0644))
	g := &gocui.Gui{}
	var r request.Request
	must(r.New("descriptor=d32,stream=no,fileordir=file,reqtype=get,udplite=no", &request.Rinfo{Session: 5, Fname: "f"}))
	for _, p := range []string{"127.0.0.1:9001", "127.0.0.1:9002"} { must(sarwin.NewResponder(g, r, p)) }
	must(sarwin.Lookup(sarwin.Responder, 5, "127.0.0.1:9001").Remove())
	if sarwin.Lookup(sarwin.Responder, 5, "127.0.0.1:9001") != nil { fail("removed transfer still there") }
	if sarwin.Lookup(sarwin.Responder, 5, "127.0.0.1:9002") == nil { fail("another transfer is gone") }
'''))
bug(id='c24-remove-keeps-lock',property='C24',
 needs='the removal of a transfer that is not in the table',
 breaks='removing a transfer that is gone leaves the transfer table locked for ever',
 edits=[('sarwin/sarwin.go','''func (t *Transfer) Remove() error {
	Trmu.Lock()
	defer Trmu.Unlock()

''','''func (t *Transfer) Remove() error {
	Trmu.Lock()

'''),('sarwin/sarwin.go','''			removed := Transfers[i]
''','''			defer Trmu.Unlock()
			removed := Transfers[i]
''')],
 demo=go(['net','time','@sarwin','@gocui'],'''
	must(os.WriteFile(sar+"/f", []byte("1"), 0644))
	t, err := sarwin.NewInitiator(&gocui.Gui{}, "put", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9001}, "f", conf)
	must(err)
	must(t.Remove())
	if t.Remove() == nil { fail("removed twice") }
	done := make(chan bool)
	go func() { sarwin.Lookup(sarwin.Initiator, 1, "x"); done <- true }()
	select {
	case <-done:
	case <-time.After(10 * time.Second): fail("the transfer table is still locked")
	}
'''))
BUGS=[b for b in BUGS if b['edits']]
