//go:build ui

package main

// C28: the screen. The terminal has any size and is resized while the node is in use; what is on its
// cells is compared with what was typed and printed.

import (
	"fmt"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

func init() {
	register(&Prop{ID: "C28", Quick: 1500, Thorough: 40000, Hang: true, Nobody: true,
		Init: func(w *Worker) { termbox.VerifCells = true; initUI(w) }, Run: runC28,
		Rule: "the real windows, key bindings and main loop on a stand-in for the terminal that keeps its cells, in sizes from 1x1 to 400x150 that change 5 to 30 times per session, while commands are typed and run, messages of all lengths and colours are printed in every window, the packet window is switched on and off and the focus moves. After each step the monitor compares the main loop (it runs), the line, focus and commands with the model of C26 and, where the terminal has room for the windows, every cell of every window with the text printed there (wrapped, its end in sight), its colours, the place of the cursor, the frame of the window with the focus, and where the windows are. Distinct by the steps.",
		Need: map[string]int{"resize": 10000, "tiny": 3000, "look": 15000, "colour": 50000, "cursor": 8000, "packet": 3000, "command": 2000, "ahead": 300, "print": 20000, "wrapped": 300}})
}

type line28 struct {
	id     int
	text   string
	colour string
}

type screen28 struct {
	*line26
	w, h   int
	n      int
	sent   map[string][]line28
	printq int
}

var colours28 = []string{"black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"}

func runC28(c *Case) {
	r := c.R
	s := getScreen()
	l := &screen28{line26: &line26{c: c, s: s, over: true, cur: "cmd", name: pick(r, "saratoga", "saratoga", "x", "node 7", "é-ü", "")}, sent: map[string][]line28{}}
	defer func() {
		if l.pkt {
			l.key("^P", termbox.Event{Key: termbox.KeyCtrlP})
		}
		for i := 0; i < 4; i++ {
			cur := ""
			l.sync()
			s.g.VerifUpdate(func(g *gocui.Gui) { cur = g.CurrentView().Name() })
			if cur == "cmd" {
				break
			}
			l.key("^space", termbox.Event{Key: termbox.KeyCtrlSpace})
		}
	}()
	l.w, l.h = l.size()
	if l.w < 16 {
		l.w = 16
	}
	if l.h < 16 {
		l.h = 16
	}
	l.reset(l.w, l.h)
	l.look()
	steps := 10 + r.Intn(60)
	for i := 0; i < steps && !c.Bad(); i++ {
		switch k := r.Intn(20); {
		case k < 6:
			l.resize()
		case k < 10:
			l.print(1 + r.Intn(1<<uint(r.Intn(6))))
		case k == 10:
			l.key("^P", termbox.Event{Key: termbox.KeyCtrlP})
			l.pkt = !l.pkt
		case k == 11:
			l.focus()
		case k < 16:
			for n := 1 + r.Intn(10); n > 0 && l.cx < 300; n-- {
				l.put([]rune("abz é0:-")[r.Intn(8)])
			}
		case k == 16:
			for n := 1 + r.Intn(8); n > 0 && (l.cx == len([]rune(*l.last())) || l.sees(l.cx-1, l.width, l.rows)); n-- {
				l.back()
			}
		case k == 17:
			for n := r.Intn(12); n > 0 && l.sees(l.cx-1, l.width, l.rows); n-- {
				l.key("<", termbox.Event{Key: termbox.KeyArrowLeft})
				if l.cur == "cmd" && l.cx > l.plen() {
					l.cx--
				}
			}
		case k == 18:
			l.right(r.Intn(12))
		default:
			l.cmd()
		}
		l.look()
	}
	for l.cur != "cmd" && !c.Bad() { // Whatever has happened, a command can be given
		l.focus()
		l.look()
	}
	l.right(1000)
	l.cmd()
	l.look()
	c.Sig("%v", l.keys)
	if c.Wants() {
		c.Sample(fmt.Sprintf("%v: %q", l.keys, l.lines))
	}
}

func (l *screen28) size() (w, h int) {
	r := l.c.R
	one := func(max int) int {
		switch r.Intn(6) {
		case 0:
			return 1 + r.Intn(15)
		case 1:
			return 10 + r.Intn(10)
		case 2:
			return 16 + r.Intn(max-16)
		}
		return 16 + r.Intn(max/4)
	}
	if r.Intn(20) == 0 {
		return one(400), one(150)
	}
	return one(160), one(70)
}

// room is what the command window has for text
func room28(w, h int) (width, rows int) {
	if w < 16 {
		w = 16
	}
	if h < 16 {
		h = 16
	}
	return w/2 - 2, h/4 - 3
}

// sees: is this character of the line being typed on a row that is on the screen
func (l *screen28) sees(x, width, rows int) bool {
	before := 0
	for _, t := range l.lines[:len(l.lines)-1] {
		before += len([]rune(t))/width + 1
	}
	total := before + len([]rune(*l.last()))/width + 1
	return total <= rows || before+x/width >= total-rows
}

func (l *screen28) resize() {
	w, h := l.size()
	width, rows := room28(w, h)
	if !l.sees(l.cx, width, rows) {
		return
	}
	l.sync()
	l.c.Obs("resize")
	if w < 16 || h < 16 {
		l.c.Obs("tiny")
	}
	l.w, l.h, l.width, l.rows = w, h, width, rows
	l.keys = append(l.keys, fmt.Sprintf("%dx%d", w, h))
	termbox.VerifSize(w, h)
	l.sync()
}

// put types a character; gocui needs to have drawn the rows of a line that wraps
func (l *screen28) put(ch rune) {
	l.char(ch)
	if l.plen() >= l.width-3 {
		l.sync()
	}
}

func (l *screen28) right(n int) {
	for ; n > 0 && l.cur == "cmd" && l.cx < len([]rune(*l.last())); n-- {
		l.key(">", termbox.Event{Key: termbox.KeyArrowRight})
		l.cx++
	}
}

func (l *screen28) cmd() {
	r := l.c.R
	if l.cur != "cmd" || l.c.Bad() {
		return
	}
	l.right(1000)
	l.sync()
	if r.Intn(3) > 0 {
		if l.cx > l.plen() {
			l.put(' ')
		}
		for _, ch := range fmt.Sprintf("timeout request %d", 1+r.Intn(1000000)) {
			l.put(ch)
		}
	}
	l.look()
	if l.c.Bad() {
		return
	}
	t := (*l.last())[len(l.prompt()):]
	if t == "" || t == "exit" || t == "quit" {
		return
	}
	if len([]rune(*l.last())) >= l.width {
		l.c.Obs("wrapped")
	}
	l.key("enter", termbox.Event{Key: termbox.KeyEnter})
	l.lines = append(l.lines, "")
	*l.last() = l.prompt()
	l.cx = l.plen()
	l.ran(t)
	if l.plen() < l.width-12 && r.Intn(2) == 0 { // Typing goes on at once
		l.c.Obs("ahead")
		for n := 1 + r.Intn(8); n > 0; n-- {
			l.char(rune('a' + r.Intn(26)))
		}
	}
	l.sync()
}

func (l *screen28) focus() {
	l.key("^space", termbox.Event{Key: termbox.KeyCtrlSpace})
	switch {
	case l.cur == "cmd":
		l.cur = "msg"
	case l.cur == "msg" && l.pkt:
		l.cur = "packet"
	case l.cur == "err":
		l.cur = "cmd"
	default:
		l.cur = "err"
	}
}

// print says things in the windows, in all colours
func (l *screen28) print(n int) {
	r := l.c.R
	for ; n > 0; n-- {
		win := pick(r, "msg", "msg", "err", "packet")
		colour := pick(r, "", "", "b", "u", "i") + pick(r, colours28...)
		switch r.Intn(8) {
		case 0:
		case 1:
			colour = pick(r, "", "none", "off")
		case 2:
			colour = pick(r, "pink", "red_pink", "red_blue_green", "_", "Red_black")
		default:
			colour += "_" + pick(r, "", "", "b") + pick(r, colours28...)
		}
		k := r.Intn(60)
		if r.Intn(8) == 0 {
			k = r.Intn(1000)
		}
		var texts []string
		for j := 0; j == 0 || r.Intn(6) == 0; j++ {
			l.n++
			t := fmt.Sprintf("%d.%d ", l.c.I, l.n) + strings.Repeat(pick(r, "a", "%", "é", "xyz ", "0"), k)
			texts = append(texts, t)
			l.sent[win] = append(l.sent[win], line28{l.n, t, colour})
			l.c.Obs("print")
		}
		t := strings.Join(texts, "\n")
		g := l.s.g
		if r.Intn(2) == 0 {
			map[string]func(*gocui.Gui, string, ...interface{}){"msg": sarwin.MsgPrintln, "err": sarwin.ErrPrintln, "packet": sarwin.PacketPrintln}[win](g, colour, t)
		} else {
			map[string]func(*gocui.Gui, string, string, ...interface{}){"msg": sarwin.MsgPrintf, "err": sarwin.ErrPrintf, "packet": sarwin.PacketPrintf}[win](g, colour, "%s\n", t)
		}
	}
}

type win28 struct {
	x0, y0, x1, y1 int
	oy             int
	lines          []string
	title          string
	fg, bg         gocui.Attribute
}

var wins28 = []string{"cmd", "err", "msg", "packet"}

func (l *screen28) windows() map[string]win28 {
	m := map[string]win28{}
	l.s.g.VerifUpdate(func(g *gocui.Gui) {
		for _, n := range wins28 {
			v, err := g.View(n)
			if err != nil {
				continue
			}
			var w win28
			w.x0, w.y0, w.x1, w.y1, _ = g.ViewPosition(n)
			_, w.oy = v.Origin()
			w.lines = v.BufferLines()
			w.title, w.fg, w.bg = v.Title, v.FgColor, v.BgColor
			m[n] = w
		}
	})
	return m
}

// look at the screen
func (l *screen28) look() {
	c := l.c
	if c.Bad() {
		return
	}
	l.check()
	if c.Bad() {
		return
	}
	var ws map[string]win28
	var cells []termbox.Cell
	var sw, cx, cy int
	for try := 0; ; try++ {
		ws = l.windows()
		l.sync()
		cells, sw, cx, cy = termbox.VerifScreen()
		if same28(ws, l.windows()) {
			break
		}
		if try == 100 {
			return
		}
		time.Sleep(time.Millisecond)
	}
	keys := l.keys
	if len(keys) > 60 {
		keys = keys[len(keys)-60:]
	}
	at := fmt.Sprintf("terminal %dx%d after %q", l.w, l.h, keys)
	for _, n := range wins28 {
		w, ok := ws[n]
		if !ok {
			c.Fail("window", "%s: there is no window %s", at, n)
			return
		}
		// Nothing printed is lost
		i := 0
		for _, t := range w.lines {
			if i < len(l.sent[n]) && t == l.sent[n][i].text {
				i++
			}
		}
		if i < len(l.sent[n]) {
			c.Fail("lost", "%s: window %s has not got (or not in order) line %d of those printed there: %.80q", at, n, i, l.sent[n][i].text)
			return
		}
	}
	if l.w < 16 || l.h < 16 {
		return
	}
	c.Obs("look")
	if sw != l.w || len(cells) != l.w*l.h {
		c.Fail("size", "%s: drawn for %d columns, %d cells", at, sw, len(cells))
		return
	}
	cmd, er, msg, pkt := ws["cmd"], ws["err"], ws["msg"], ws["packet"]
	for _, n := range wins28 {
		w := ws[n]
		if w.x0 < 0 || w.y0 < 0 || w.x1 >= l.w || w.y1 >= l.h || w.x1-w.x0 < 2 || w.y1-w.y0 < 2 {
			c.Fail("geometry", "%s: window %s is at %d,%d to %d,%d", at, n, w.x0, w.y0, w.x1, w.y1)
			return
		}
		if !strings.Contains(w.title, n) {
			c.Fail("title", "%s: window %s has the title %q", at, n, w.title)
		}
	}
	if cmd.x1 >= er.x0 || cmd.y0 != er.y0 || cmd.y1 != er.y1 || msg.y1 >= cmd.y0 || pkt.x0 <= msg.x0 || pkt.x1 > msg.x1 || pkt.y0 < msg.y0 || pkt.y1 > msg.y1 {
		c.Fail("geometry", "%s: command line %v error %v messages %v packets %v", at, pos28(cmd), pos28(er), pos28(msg), pos28(pkt))
		return
	}
	for _, n := range wins28 {
		if n == "packet" && !l.pkt {
			continue
		}
		w := ws[n]
		W, R := w.x1-w.x0-1, w.y1-w.y0-1
		// The frame shows where the keys go
		if fr := cells[w.y1*sw+w.x0]; (gocui.Attribute(fr.Fg)&0x1ff == gocui.ColorRed) != (n == l.cur) {
			c.Fail("frame", "%s: the keys go to %s, the frame of %s has colour %d", at, l.cur, n, fr.Fg&0x1ff)
			return
		}
		type row struct {
			text   []rune
			colour string
			mine   bool
		}
		var rows []row
		i := 0
		for _, t := range w.lines {
			rs := []rune(t)
			colour, mine := "", false
			if i < len(l.sent[n]) && t == l.sent[n][i].text {
				colour, mine = l.sent[n][i].colour, true
				i++
			}
			for k := 0; k <= len(rs); k += W {
				e := k + W
				if e > len(rs) {
					e = len(rs)
				}
				rows = append(rows, row{rs[k:e], colour, mine})
			}
		}
		top := w.oy
		if n != "packet" {
			top = len(rows) - R
		}
		if top < 0 {
			top = 0
		}
		for y := 0; y < R; y++ {
			var rw row
			if top+y < len(rows) {
				rw = rows[top+y]
			}
			fg, bg := colour28(rw.colour, w)
			if rw.mine {
				c.Obs("colour")
			}
			var got, want []rune
			differ := false
			for x := 0; x < W; x++ {
				sx, sy := w.x0+1+x, w.y0+1+y
				if n == "msg" && l.pkt && sx >= pkt.x0 && sx <= pkt.x1 && sy >= pkt.y0 && sy <= pkt.y1 {
					continue
				}
				cell := cells[sy*sw+sx]
				got = append(got, cell.Ch)
				if x >= len(rw.text) {
					want = append(want, ' ')
					differ = differ || cell.Ch != ' '
					continue
				}
				want = append(want, rw.text[x])
				differ = differ || cell.Ch != rw.text[x]
				if rw.mine {
					if gocui.Attribute(cell.Fg)&0x1ff != fg || gocui.Attribute(cell.Bg)&0x1ff != bg {
						c.Fail("colour", "%s: window %s: %.60q printed in colour %q is shown in %d on %d want %d on %d", at, n, string(rw.text), rw.colour, cell.Fg&0x1ff, cell.Bg&0x1ff, fg, bg)
						return
					}
				}
			}
			if differ {
				c.Fail("shown", "%s: row %d of %d of window %s (%d columns, its text has %d rows) shows %.100q want %.100q", at, y, R, n, W, len(rows), string(got), string(want))
				return
			}
		}
		if n == "packet" {
			c.Obs("packet")
		}
	}
	if l.cur != "cmd" {
		return
	}
	// What is typed next goes where the cursor is
	before := 0
	for _, t := range l.lines[:len(l.lines)-1] {
		before += len([]rune(t))/l.width + 1
	}
	total := before + len([]rune(*l.last()))/l.width + 1
	top := 0
	if total > l.rows {
		top = total - l.rows
	}
	c.Obs("cursor")
	if wx, wy := cmd.x0+1+l.cx%l.width, cmd.y0+1+before+l.cx/l.width-top; cx != wx || cy != wy {
		c.Fail("cursor", "%s: the cursor is at %d,%d want %d,%d (character %d of %q)", at, cx, cy, wx, wy, l.cx, *l.last())
	}
}

func same28(a, b map[string]win28) bool {
	for _, n := range wins28 {
		x, y := a[n], b[n]
		if pos28(x) != pos28(y) || x.oy != y.oy || len(x.lines) != len(y.lines) {
			return false
		}
		for i := range x.lines {
			if x.lines[i] != y.lines[i] {
				return false
			}
		}
	}
	return true
}

func pos28(w win28) [4]int { return [4]int{w.x0, w.y0, w.x1, w.y1} }

// colour28 is the colour asked for; what is no colour is shown in white on red
func colour28(colour string, w win28) (fg, bg gocui.Attribute) {
	base := func(s string, prefixes string) gocui.Attribute {
		for i, n := range colours28 {
			if s == n {
				return gocui.Attribute(i + 1)
			}
			for _, p := range prefixes {
				if s == string(p)+n {
					return gocui.Attribute(i + 1)
				}
			}
		}
		return 0
	}
	switch colour {
	case "", "none", "off":
		return w.fg, w.bg
	}
	f := strings.Split(colour, "_")
	if len(f) == 1 {
		f = append(f, "black")
	}
	fg, bg = base(f[0], "ui"), base(f[1], "b")
	if len(f) != 2 || fg == 0 || bg == 0 {
		return gocui.ColorWhite, gocui.ColorRed
	}
	return
}
