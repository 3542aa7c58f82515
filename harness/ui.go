//go:build ui

package main

// The user interface of the node, headless: the real window layout, key bindings,
// print functions and main loop run on a stand-in for the terminal.

import (
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
)

type screen struct {
	g     *gocui.Gui
	mu    sync.Mutex
	out   map[string]string
	quits atomic.Int64 // How often the main loop was left
	dir   string
}

var theScreen *screen

var ansi = regexp.MustCompile("\033\\[[0-9;]*m")

func getScreen() *screen {
	if theScreen != nil {
		return theScreen
	}
	g, err := gocui.NewGui(gocui.OutputNormal)
	must(err)
	s := &screen{g: g, out: map[string]string{}}
	gocui.VerifWrite = func(view string, p []byte) {
		s.mu.Lock()
		if len(s.out[view]) < 1<<22 {
			s.out[view] += string(p)
		}
		s.mu.Unlock()
	}
	sarwin.Cinfo.Prompt, sarwin.Cinfo.Ppad = "saratoga", 3
	g.SetManagerFunc(sarwin.Layout)
	must(sarwin.Keybindings(g))
	go func() {
		for {
			if err := g.MainLoop(); err != gocui.ErrQuit {
				panic(fmt.Sprint("the main loop of the program has failed: ", err))
			}
			s.quits.Add(1)
		}
	}()
	theScreen = s
	s.flush()
	return s
}

// flush waits until everything printed so far is on the screen
func (s *screen) flush() {
	s.g.VerifUpdate(func(*gocui.Gui) {})
}

// clear empties the windows and forgets what was shown
func (s *screen) clear() {
	s.g.VerifUpdate(func(g *gocui.Gui) {
		for _, n := range []string{"msg", "err", "packet", "cmd"} {
			if v, err := g.View(n); err == nil {
				v.Clear()
				v.SetCursor(0, 0)
				v.SetOrigin(0, 0)
			}
		}
	})
	s.mu.Lock()
	s.out = map[string]string{}
	s.mu.Unlock()
}

// text of a window, without colours
func (s *screen) text(view string) string {
	s.flush()
	s.mu.Lock()
	defer s.mu.Unlock()
	return ansi.ReplaceAllString(s.out[view], "")
}

var gohead = regexp.MustCompile(`^goroutine (\d+) \[([^\]]*)\]:`)

// busy: how many goroutines of the code under test are there, and how many of them are waiting
// on a channel (which for a command means that it waits for its transfer)
func busy() (n, blocked int, desc string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, gr := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(gr, "charlesetsmith/saratoga/sarwin.") && !strings.Contains(gr, "charlesetsmith/saratoga/trans.") {
			continue
		}
		m := gohead.FindStringSubmatch(gr)
		if m == nil || strings.Contains(gr, "main.(*Case).") || strings.Contains(gr, "main.work(") || strings.Contains(gr, "gocui.(*Gui).MainLoop") {
			continue
		}
		n++
		if strings.HasPrefix(m[2], "chan receive") {
			blocked++
			continue
		}
		desc += gr + "\n\n"
	}
	return
}

// settle waits until every command started has ended, or waits on a channel.
// False (and where they are): some command does neither for a long time.
func (s *screen) settle(limit time.Duration) (bool, string) {
	start := time.Now()
	nap := 20 * time.Microsecond
	for {
		n, blocked, desc := busy()
		if n == blocked {
			if n == 0 {
				return true, ""
			}
			runtime.Gosched()
			if n2, b2, _ := busy(); n2 == n && b2 == n2 {
				return true, ""
			}
			continue
		}
		if time.Since(start) > limit {
			return false, desc
		}
		time.Sleep(nap)
		if nap < 5*time.Millisecond {
			nap *= 2
		}
	}
}
