//go:build ui

package main

// C26: the command line. Keys are pressed on the real key bindings and main loop;
// a model of the line says what it must show and which commands must have been run.

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

func init() {
	register(&Prop{ID: "C26", Quick: 1500, Thorough: 40000, Hang: true, Race: true, Nobody: true, Init: initUI, Run: runC26,
		Rule: "keys are pressed on the real key bindings, windows and main loop (on a stand-in for the terminal, 60 to 360 columns, 20 to 70 rows): commands are typed with mistakes, backspaces, left and right, insert, up and down, excursions to the other windows with keys pressed there, the packet window shown and hidden, lines that wrap, earlier lines run again, the packet window scrolled up and down, while messages are printed. After each step the monitor compares the command window, the window with the focus, the list of commands run, the errors shown and the setting changed with a model of the line. Race detector on. Distinct by the keys.",
		Need: map[string]int{"key": 100000, "quit": 300, "command": 5000, "effect": 1500, "again": 300, "wrapped": 100, "empty": 1, "elsewhere": 1000, "insert": 100, "back": 3000, "scroll": 100, "hundred": 5, "hundreds": 2, "left": 3000, "right": 3000}})
}

type line26 struct {
	c     *Case
	s     *screen
	width int
	rows  int
	long  bool     // A long line is being typed
	lines []string // What the command window shows
	cx    int      // Where the next character goes in the last line
	over  bool     // Characters replace those under the cursor
	cur   string   // The window with the focus
	pkt   bool     // The packet window is shown
	hist  []string // The commands run
	bad   []string // First words of those that are no commands
	req   int      // What was last set by a command that was run
	quits int      // How often the main loop must have been left
	keys  []string
	name  string // Before the number in the prompt
}

func runC26(c *Case) {
	r := c.R
	s := getScreen()
	l := &line26{c: c, s: s, over: true, cur: "cmd", name: pick(r, "saratoga", "saratoga", "saratoga", "sar-7", "é ü", "node:7", ":", "")}
	w := 160 + 2*r.Intn(100)
	if r.Intn(3) == 0 {
		w = 60 + 2*r.Intn(40)
	}
	defer func() {
		if l.pkt {
			l.key("^P", termbox.Event{Key: termbox.KeyCtrlP})
			l.sync()
		}
	}()
	l.quits = int(s.quits.Load())
	l.reset(w, 20+r.Intn(50))
	if c.I%10 == 4 {
		l.scroll()
		return
	}
	words := []string{"foo", "bar", "x", "a:b", "10.1.2.3", "[::1]", "quux", "!", "é", "saratoga[0]:", "%d"}
	r2 := rand.New(rand.NewSource(r.Int63()))
	stop, ended := make(chan bool), make(chan bool)
	go func() { // Meanwhile the node has things to say
		defer close(ended)
		for i := 0; i < 100; i++ {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(r2.Intn(3000)) * time.Microsecond):
				sarwin.MsgPrintln(s.g, "yellow_black", "message ", i)
				sarwin.PacketPrintln(s.g, "green_black", "packet ", i)
			}
		}
	}()
	defer func() { close(stop); <-ended }()
	if c.I%100 == 7 { // The number in the prompt gets a third digit
		k := 95 + r.Intn(10)
		if c.I%300 == 7 { // Many times the rows of any window
			k += 150 + r.Intn(300)
			c.Obs("hundreds")
		}
		for ; k > 0; k-- {
			l.char('z')
			l.enter()
		}
		l.check()
		c.Obs("hundred")
	}
	n := 1 + r.Intn(8)
	if r.Intn(10) == 0 {
		n += 12
	}
	for ; n > 0 && !c.Bad(); n-- {
		// A command is typed, with mistakes that are put right
		cmd := ""
		switch r.Intn(5) {
		case 4:
			cmd = pick(r, "exit", "quit", "exit 0", "quit 1", " exit", "exit 2", "exits", "quit ?")
		case 0, 1:
			cmd = fmt.Sprintf("timeout request %d", 1+r.Intn(1000000))
		case 2:
			cmd = "zz" + fmt.Sprint(r.Intn(100)) + strings.Repeat(" ", 1+r.Intn(2)) + pick(r, words...)
		default:
			k := 1 + r.Intn(4)
			if r.Intn(6) == 0 && l.rows > 6 && l.over {
				k, l.long = 15, true
			}
			for ; k > 0; k-- {
				cmd += pick(r, words...) + strings.Repeat(" ", r.Intn(3))
			}
		}
		if r.Intn(20) == 0 { // Just enter
			l.enter()
			l.check()
		}
		for _, ch := range cmd {
			for r.Intn(12) == 0 && !c.Bad() {
				l.noise()
			}
			if c.Bad() {
				return
			}
			l.char(ch)
		}
		for r.Intn(4) == 0 && !c.Bad() {
			l.noise()
		}
		if r.Intn(6) == 0 && !c.Bad() {
			l.again()
		}
		l.check()
		if c.Bad() {
			return
		}
		l.enter()
		l.check()
		l.long = false
	}
	c.Sig("%v", l.keys)
	if c.Wants() {
		c.Sample(fmt.Sprintf("%v: %q", l.keys, l.hist))
	}
}

func (l *line26) prompt() string { return fmt.Sprintf("%s[%d]:", l.name, len(l.lines)-1) }

// plen is the length of the prompt in characters
func (l *line26) plen() int { return len([]rune(l.prompt())) }

func (l *line26) last() *string { return &l.lines[len(l.lines)-1] }

func (l *line26) reset(w, h int) {
	termbox.VerifSize(w, h)
	l.s.clear()
	l.s.g.VerifUpdate(func(g *gocui.Gui) {
		sarwin.FirstPass = true
		sarwin.Cinfo = sarwin.Cmdinfo{Prompt: l.name, Ppad: 3}
		if v, err := g.View("cmd"); err == nil {
			v.Overwrite = true
		}
	})
	sarflags.Climu.Lock()
	l.req = sarflags.Cliflag.Timeout.Request
	sarflags.Climu.Unlock()
	l.lines = []string{""}
	l.lines[0] = l.prompt()
	l.cx = l.plen()
	l.width, l.rows = w/2-2, h/4-3
	l.sync()
	l.check()
}

// scroll: every row of the packet window can be brought to the screen
func (l *line26) scroll() {
	r := l.c.R
	n := 1 + r.Intn(40)
	for i := 0; i < n; i++ {
		sarwin.PacketPrintln(l.s.g, "green_black", strings.Repeat(string(rune('a'+r.Intn(26))), 1+r.Intn(80)))
	}
	l.key("^P", termbox.Event{Key: termbox.KeyCtrlP})
	l.pkt = true
	for i := 0; i < 2; i++ {
		l.key("^space", termbox.Event{Key: termbox.KeyCtrlSpace})
	}
	l.cur = "packet"
	l.check()
	defer func() {
		for i := 0; i < 2; i++ {
			l.key("^space", termbox.Event{Key: termbox.KeyCtrlSpace})
		}
		l.cur = "cmd"
		l.check()
	}()
	for i := 0; i < 3 && !l.c.Bad(); i++ {
		down := i%2 == 0
		k := 0
		if r.Intn(3) > 0 {
			k = 400 // Far enough
		} else {
			k = r.Intn(60)
		}
		if i == 2 {
			k = 400
		}
		for j := 0; j < k; j++ {
			if down {
				l.key("down", termbox.Event{Key: termbox.KeyArrowDown})
			} else {
				l.key("up", termbox.Event{Key: termbox.KeyArrowUp})
			}
		}
		l.check()
		var rows, oy, maxy int
		l.s.g.VerifUpdate(func(g *gocui.Gui) {
			v, _ := g.View("packet")
			t := v.ViewBufferLines()
			for rows = len(t); rows > 0 && t[rows-1] == ""; rows-- {
			}
			_, oy = v.Origin()
			_, maxy = v.Size()
		})
		if k == 400 && down && oy+maxy < rows || k == 400 && !down && oy != 0 || oy > 0 && oy >= rows {
			l.c.Fail("scroll", "packet window of %d rows with %d lines in %d rows, %d times down (%v): row %d is on top", maxy, n, rows, k, down, oy)
			return
		}
		if rows > maxy {
			l.c.Obs("scroll")
		}
	}
	l.c.Sig("scroll%v%d", l.keys, n)
}

// sync waits until every key has been handled and the screen drawn
var pressed int64

func (l *line26) sync() {
	for gocui.VerifKeys.Load() < pressed {
		time.Sleep(20 * time.Microsecond)
	}
	d := gocui.VerifDraws.Load()
	l.s.flush()
	for gocui.VerifDraws.Load() == d {
		time.Sleep(20 * time.Microsecond)
	}
}

func (l *line26) key(name string, ev termbox.Event) {
	if pressed == 0 {
		pressed = gocui.VerifKeys.Load()
	}
	ev.Type = termbox.EventKey
	pressed++
	l.keys = append(l.keys, name)
	l.c.Obs("key")
	termbox.VerifKey(ev)
}

func (l *line26) char(ch rune) {
	ev := termbox.Event{Ch: ch}
	if ch == ' ' {
		ev = termbox.Event{Key: termbox.KeySpace}
	}
	l.key(string(ch), ev)
	if l.cur == "cmd" {
		rs := []rune(*l.last())
		switch {
		case l.cx == len(rs):
			rs = append(rs, ch)
		case l.over:
			rs[l.cx] = ch
		default:
			rs = append(rs[:l.cx], append([]rune{ch}, rs[l.cx:]...)...)
		}
		*l.last() = string(rs)
		l.cx++
	}
	if len([]rune(*l.last())) > l.width-3 {
		l.sync()
	}
}

func (l *line26) noise() {
	r := l.c.R
	rs := []rune(*l.last())
	switch k := r.Intn(9); k {
	case 0, 1: // A wrong character and back
		l.char(rune('a' + r.Intn(26)))
		l.back()
	case 2:
		l.back()
	case 3:
		for n := r.Intn(10); n > 0; n-- {
			l.c.Obs("left")
			l.key("<", termbox.Event{Key: termbox.KeyArrowLeft})
			if l.cur == "cmd" && l.cx > l.plen() {
				l.cx--
			}
		}
	case 4:
		for n := r.Intn(10); n > 0; n-- {
			l.c.Obs("right")
			l.key(">", termbox.Event{Key: termbox.KeyArrowRight})
			if l.cur == "cmd" && l.cx < len(rs) {
				l.cx++
			}
		}
	case 5:
		if r.Intn(3) == 0 && l.width > 77 && !l.long {
			l.c.Obs("insert")
			l.key("ins", termbox.Event{Key: termbox.KeyInsert})
			if l.cur == "cmd" {
				l.over = !l.over
			}
		}
	case 6: // Keys in other windows
		l.other()
	case 7:
		if len(rs) >= l.width { // It moves inside the line then
			return
		}
		n := r.Intn(5)
		for i := 0; i < n; i++ {
			l.key("up", termbox.Event{Key: termbox.KeyArrowUp})
			l.sync()
		}
		for i := 0; i < n+r.Intn(2); i++ {
			l.key("down", termbox.Event{Key: termbox.KeyArrowDown})
			l.sync()
		}
	case 8:
		l.key("^P", termbox.Event{Key: termbox.KeyCtrlP})
		l.pkt = !l.pkt
	}
	if r.Intn(3) == 0 {
		l.check()
	}
}

func (l *line26) back() {
	l.c.Obs("back")
	l.key("bs", termbox.Event{Key: []termbox.Key{termbox.KeyBackspace, termbox.KeyBackspace2, termbox.KeyDelete}[l.c.R.Intn(3)]})
	if l.cur == "cmd" && l.cx > l.plen() {
		rs := []rune(*l.last())
		*l.last() = string(append(rs[:l.cx-1], rs[l.cx:]...))
		l.cx--
	}
	if len([]rune(*l.last())) > l.width-3 {
		l.sync()
	}
}

func (l *line26) other() {
	r := l.c.R
	for {
		l.key("^space", termbox.Event{Key: termbox.KeyCtrlSpace})
		switch {
		case l.cur == "cmd":
			l.cur = "msg"
		case l.cur == "msg" && l.pkt:
			l.cur = "packet"
		case l.cur == "err":
			l.cur = "cmd"
		default:
			l.cur = "err"
		}
		l.check()
		if l.cur == "cmd" || l.c.Bad() {
			return
		}
		for n := r.Intn(5); n > 0; n-- {
			l.c.Obs("elsewhere")
			switch r.Intn(4) {
			case 0:
				l.char(rune('a' + r.Intn(26)))
			case 1:
				l.back()
			case 2:
				l.key("enter", termbox.Event{Key: termbox.KeyEnter})
			case 3:
				l.key("arrow", termbox.Event{Key: termbox.KeyArrowUp - termbox.Key(r.Intn(4))})
			}
		}
	}
}

// again goes up to an earlier line, has it run again and comes back
func (l *line26) again() {
	top := 0
	if len(l.lines) > l.rows {
		top = len(l.lines) - l.rows
	}
	for _, t := range l.lines {
		if len([]rune(t)) >= l.width {
			return
		}
	}
	i := len(l.lines) - 1
	if i == top {
		return
	}
	k := 1 + l.c.R.Intn(4)
	for n := 0; n < k; n++ {
		l.key("up", termbox.Event{Key: termbox.KeyArrowUp})
		l.sync()
		if i > top {
			i--
		}
	}
	l.c.Obs("again")
	l.ran(l.lines[i][len(fmt.Sprintf("%s[%d]:", l.name, i)):])
	l.key("enter", termbox.Event{Key: termbox.KeyEnter})
	l.sync()
	l.check()
	for n := 0; n < k; n++ {
		l.key("down", termbox.Event{Key: termbox.KeyArrowDown})
		l.sync()
	}
}

func (l *line26) enter() {
	cmd := (*l.last())[len(l.prompt()):]
	if len([]rune(*l.last())) >= l.width {
		l.c.Obs("wrapped")
	}
	l.key("enter", termbox.Event{Key: termbox.KeyEnter})
	l.sync()
	if cmd == "" {
		l.c.Obs("empty")
		return
	}
	l.lines = append(l.lines, "")
	*l.last() = l.prompt()
	l.cx = l.plen()
	l.ran(cmd)
}

// ran: this command must have been run
func (l *line26) ran(cmd string) {
	l.hist = append(l.hist, cmd)
	l.c.Obs("command")
	f := strings.Fields(cmd)
	if len(f) == 0 {
		return
	}
	if f[0] == "exit" || f[0] == "quit" {
		if len(f) == 1 || len(f) == 2 && (f[1] == "0" || f[1] == "1") {
			l.quits++
			l.c.Obs("quit")
		}
		return
	}
	if f[0] != "timeout" {
		l.bad = append(l.bad, f[0])
		return
	}
	if len(f) == 3 && f[1] == "request" {
		if n, err := strconv.Atoi(f[2]); err == nil && n > 0 && fmt.Sprint(n) == f[2] {
			l.req = n
			l.c.Obs("effect")
			return
		}
	}
	l.req = -1 // Anything else is for C20
}

func (l *line26) check() {
	if l.c.Bad() {
		return
	}
	l.sync()
	var shown, hist []string
	cur := ""
	var cx, cy, ox, oy int
	l.s.g.VerifUpdate(func(g *gocui.Gui) {
		v, _ := g.View("cmd")
		shown = v.BufferLines()
		cx, cy = v.Cursor()
		ox, oy = v.Origin()
		cur = g.CurrentView().Name()
		hist = append(hist, sarwin.Cinfo.Commands...)
	})
	at := fmt.Sprintf("after %q (cursor %d,%d origin %d,%d, width %d)", l.keys, cx, cy, ox, oy, l.width)
	if cur != l.cur {
		l.c.Fail("focus", "%s: the keys go to %s want %s", at, cur, l.cur)
	} else if strings.Join(shown, "\n") != strings.Join(l.lines, "\n") {
		l.c.Fail("line", "%s: the command window shows %q want %q", at, shown, l.lines)
	} else if strings.Join(hist, "\n") != strings.Join(l.hist, "\n") {
		l.c.Fail("run", "%s: commands run %q want %q", at, hist, l.hist)
	}
	var bad []string
	for _, t := range strings.Split(l.s.text("err"), "\n") {
		if i := strings.Index(t, "Invalid command:"); i >= 0 {
			bad = append(bad, t[i+len("Invalid command:"):])
		}
	}
	if strings.Join(bad, "\n") != strings.Join(l.bad, "\n") {
		l.c.Fail("run", "%s: refused as no commands %q want %q", at, bad, l.bad)
	}
	if len(l.hist) == 0 {
		return
	}
	if f := strings.Fields(l.hist[len(l.hist)-1]); len(f) == 0 || f[0] != "timeout" && f[0] != "exit" && f[0] != "quit" {
		return
	}
	if ok, where := l.s.settle(20 * time.Second); !ok {
		l.c.Fail("hang", "%s: the command does not end: %s", at, where)
		return
	}
	l.s.flush()
	if n := int(l.s.quits.Load()); n != l.quits {
		l.c.Fail("quit", "%s: the program was left %d times more than it was told to", at, n-l.quits)
		return
	}
	sarflags.Climu.Lock()
	req := sarflags.Cliflag.Timeout.Request
	sarflags.Climu.Unlock()
	if l.req < 0 {
		l.req = req
	}
	if req != l.req {
		l.c.Fail("effect", "%s: the request timer is %d want %d", at, req, l.req)
	}
}
