package main

// A pseudo terminal, and a screen that understands what the toolkit writes to it

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

type screen29 struct {
	mu         sync.Mutex
	cols, rows int
	cells      map[[2]int]rune
	x, y       int
	mode       map[string]bool // Private modes
	keypad     bool
	rest       []byte
	plain      []byte // What is printed outside of the alternate screen
	all        int
}

func newScreen29(cols, rows int) *screen29 {
	return &screen29{cols: cols, rows: rows, cells: map[[2]int]rune{}, mode: map[string]bool{"25": true}}
}

var csi29 = regexp.MustCompile("^\033\\[([?>!0-9;]*)([A-Za-z@`])")
var esc29 = regexp.MustCompile("^\033(\\([A-Z0-9]|[=>78cDEHM])")

func (s *screen29) feed(b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.all += len(b)
	s.rest = append(s.rest, b...)
	for len(s.rest) > 0 {
		switch c := s.rest[0]; {
		case c == 27:
			if m := csi29.FindSubmatch(s.rest); m != nil {
				s.rest = s.rest[len(m[0]):]
				s.csi(string(m[1]), m[2][0])
				continue
			}
			if m := esc29.FindSubmatch(s.rest); m != nil {
				s.rest = s.rest[len(m[0]):]
				if m[1][0] == '=' || m[1][0] == '>' {
					s.keypad = m[1][0] == '='
				}
				continue
			}
			if len(s.rest) < 24 {
				return // The rest comes
			}
			s.rest = s.rest[1:]
		case c < 32 || c == 127:
			if c == '\n' {
				s.y++
			} else if c == '\r' {
				s.x = 0
			}
			if !s.mode["1049"] {
				s.plain = append(s.plain, c)
			}
			s.rest = s.rest[1:]
		default:
			if !utf8.FullRune(s.rest) {
				return
			}
			ch, n := utf8.DecodeRune(s.rest)
			s.cells[[2]int{s.x, s.y}] = ch
			s.x++
			if !s.mode["1049"] {
				s.plain = append(s.plain, s.rest[:n]...)
			}
			s.rest = s.rest[n:]
		}
	}
}

func (s *screen29) csi(a string, k byte) {
	switch k {
	case 'H', 'f':
		p := strings.Split(a, ";")
		s.y, _ = strconv.Atoi(p[0])
		s.x = 1
		if len(p) > 1 {
			s.x, _ = strconv.Atoi(p[1])
		}
		s.x, s.y = max(s.x-1, 0), max(s.y-1, 0)
	case 'J':
		s.cells = map[[2]int]rune{}
	case 'K':
		for x := s.x; x < s.cols; x++ {
			delete(s.cells, [2]int{x, s.y})
		}
	case 'h', 'l':
		if strings.HasPrefix(a, "?") {
			for _, m := range strings.Split(a[1:], ";") {
				s.mode[m] = k == 'h'
			}
		}
	}
}

func (s *screen29) line(y, to int) string {
	l := make([]rune, to)
	for x := range l {
		l[x] = ' '
		if ch, ok := s.cells[[2]int{x, y}]; ok {
			l[x] = ch
		}
	}
	return string(l)
}

func (s *screen29) text() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b strings.Builder
	for y := 0; y < s.rows; y++ {
		b.WriteString(strings.TrimRight(s.line(y, s.cols), " "))
		b.WriteByte('\n')
	}
	return b.String()
}

// before is what stands left of the cursor
func (s *screen29) before() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.x > s.cols {
		return ""
	}
	return s.line(s.y, s.x)
}

type term29 struct {
	*screen29
	master, slave *os.File
	cmd           *exec.Cmd
	dead          chan error
	ended         bool
}

func ioctl29(f *os.File, req uintptr, p unsafe.Pointer) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
		fatal("ioctl %x: %v", req, e)
	}
}

func (t *term29) size(cols, rows int) {
	t.mu.Lock()
	t.cols, t.rows = cols, rows
	t.mu.Unlock()
	w := [4]uint16{uint16(rows), uint16(cols)}
	ioctl29(t.master, syscall.TIOCSWINSZ, unsafe.Pointer(&w))
}

func (t *term29) termios() syscall.Termios {
	var m syscall.Termios
	ioctl29(t.slave, syscall.TCGETS, unsafe.Pointer(&m))
	return m
}

func newTerm29(cols, rows int) *term29 {
	t := &term29{screen29: newScreen29(cols, rows), dead: make(chan error, 1)}
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	must(err)
	t.master = os.NewFile(uintptr(fd), "ptmx")
	var zero, n int32
	ioctl29(t.master, syscall.TIOCSPTLCK, unsafe.Pointer(&zero))
	ioctl29(t.master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	fd, err = syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	must(err)
	t.slave = os.NewFile(uintptr(fd), "pts")
	t.size(cols, rows)
	return t
}

func (t *term29) start(env []string, dir, bin string, args ...string) {
	t.cmd = exec.Command(bin, args...)
	t.cmd.Env, t.cmd.Dir = env, dir
	t.cmd.Stdin, t.cmd.Stdout, t.cmd.Stderr = t.slave, t.slave, t.slave
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	must(t.cmd.Start())
	go func() {
		b := make([]byte, 1<<16)
		for {
			n, err := t.master.Read(b)
			if err != nil {
				return
			}
			t.feed(b[:n])
		}
	}()
	go func() { t.dead <- t.cmd.Wait() }()
}

func (t *term29) until(f func() bool) bool {
	end := time.Now().Add(patience)
	for {
		if f() {
			return true
		}
		select {
		case <-t.dead:
			t.ended = true
		default:
		}
		if t.ended || time.Now().After(end) {
			return f()
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (t *term29) close() {
	if t.cmd != nil {
		t.cmd.Process.Kill()
		if !t.ended {
			<-t.dead
		}
	}
	t.slave.Close()
	t.master.Close()
}

// settled: everything written has been read
func (t *term29) settled() {
	for i := 0; i < 200; i++ {
		t.mu.Lock()
		n := t.all
		t.mu.Unlock()
		time.Sleep(20 * time.Millisecond)
		var q int32
		ioctl29(t.slave, syscall.TIOCOUTQ, unsafe.Pointer(&q))
		t.mu.Lock()
		same := n == t.all
		t.mu.Unlock()
		if q == 0 && same {
			return
		}
	}
}

func terminal29(c *Case) {
	r := c.R
	nt := c.Data.(*c21net)
	dir := dir29(c)
	sar := filepath.Join(dir, "sar")
	must(os.Mkdir(sar, 0755))
	cols, rows := 90+r.Intn(110), 48+r.Intn(20)
	t := newTerm29(cols, rows)
	defer t.close()
	before := t.termios()
	port := 10000 + r.Intn(20000)
	if !nt.v6 {
		port = 10000 + (os.Getpid()*37+c.I)%20000
	}
	prompt := pick(r, "saratoga", "n", "node-7")
	change := map[string]interface{}{"udpport": port, "prompt": prompt}
	bad := ""
	if r.Intn(5) == 0 { // It cannot start
		bad = pick(r, "v4multicast", "v6multicast", "udpport")
		change[bad] = pick(r, "10.9.0.1", "nonsense", "127.0.0.1")
		if bad == "udpport" {
			change[bad] = 70000
		}
	}
	cf := filepath.Join(dir, "conf.json")
	conf29(c, cf, change)
	t.start(append(env29(sar), "TERM=xterm"), dir, os.Getenv("VMON_NODE_TTY"), cf, "lo")
	c.Obs("terminal")
	desc := fmt.Sprintf("%v on a terminal of %dx%d", change, cols, rows)
	fail := func(key, f string, a ...interface{}) {
		c.Fail("terminal "+key, "%s: %s; ended %v; the screen:\n%s", desc, fmt.Sprintf(f, a...), t.ended, trunc(regexp.MustCompile("   +|──+").ReplaceAllString(t.text(), "  "), 20000))
	}
	how, level := bad, -1
	if bad == "" {
		if !t.until(func() bool { return strings.HasSuffix(t.before(), prompt+"[0]:") }) {
			fail("start", "no prompt %s[0]: before the cursor, but %q", prompt, t.before())
			return
		}
		for _, w := range []string{"lo MTU", "127.0.0.1/8", "Listener started", filepath.Base(dir) + "/sar"} {
			if !t.until(func() bool {
				return strings.Contains(strings.ReplaceAll(strings.ReplaceAll(t.text(), "│\n│", ""), "\n", ""), w)
			}) {
				fail("messages", "%q is not shown", w)
				return
			}
		}
		k := 0
		typed := func(l string) bool {
			t.master.Write([]byte(l))
			p := fmt.Sprintf("%s[%d]:%s", prompt, k, l)
			if !t.until(func() bool { return strings.HasSuffix(t.before(), p) }) {
				fail("typed", "%q typed, %q is before the cursor, not %q", l, t.before(), p)
				return false
			}
			t.master.Write([]byte("\r"))
			k++
			p = fmt.Sprintf("%s[%d]:", prompt, k)
			if !t.until(func() bool { return strings.HasSuffix(t.before(), p) }) {
				fail("prompt", "%q entered, %q is before the cursor, not %q", l, t.before(), p)
				return false
			}
			return true
		}
		has := func(what, w string) bool {
			if !t.until(func() bool { return strings.Contains(t.text(), w) }) {
				fail(what, "%q is not shown", w)
				return false
			}
			return true
		}
		packets := false
		for i, m := 0, 2+r.Intn(5); i < m; i++ {
			switch r.Intn(4) {
			case 0:
				v := 1000 + r.Intn(100000)
				if !typed(fmt.Sprintf("timeout status %d", v)) || !typed("timeout") || !has("answer", fmt.Sprintf("status:%d ", v)) {
					return
				}
			case 1:
				if !packets {
					t.master.Write([]byte{16})
					packets = true
				}
				e := fmt.Sprintf("EID:eid-%d.", i)
				must(ucast29("127.0.0.1", port, beacon21(e[4:])))
				if i == 0 || !packets {
					if !has("packet", e) {
						return
					}
				}
				// Later ones may be below what the window shows
			case 2:
				cols, rows = 90+r.Intn(110), 48+r.Intn(20)
				t.size(cols, rows)
				c.Obs("resized")
				p := fmt.Sprintf("%s[%d]:", prompt, k)
				box := "┌─Messages"
				if !t.until(func() bool {
					x := t.text()
					return strings.HasSuffix(t.before(), p) && strings.HasPrefix(x, box) && utf8.RuneCountInString(x[:strings.IndexByte(x, '\n')]) == cols
				}) {
					fail("resize", "after a change to %dx%d %q is before the cursor, not %q", cols, rows, t.before(), p)
					return
				}
			case 3:
				if !typed("no"+pick(r, "such", "ne", "thing")) || !has("invalid", "Invalid command:") && false {
					return
				}
			}
		}
		how, level = leaving(r)
		if w := strings.TrimSuffix(how, "\n"); w != how {
			t.master.Write([]byte(w))
			if !t.until(func() bool { return strings.HasSuffix(t.before(), w) }) {
				fail("typed", "%q typed, %q is before the cursor", how, t.before())
				return
			}
			t.master.Write([]byte("\r"))
		} else {
			t.master.Write([]byte(how))
		}
	}
	if t.until(func() bool { return t.ended }); !t.ended {
		fail("quit", "%q does not end it", how)
		return
	}
	if code := t.cmd.ProcessState.ExitCode(); level >= 0 && code != level {
		fail("quit", "%q ends it with exit status %d", how, code)
		return
	}
	t.settled()
	after := t.termios()
	t.mu.Lock()
	defer t.mu.Unlock()
	var left []string
	if after != before {
		left = append(left, fmt.Sprintf("its settings are %+v, they were %+v", after, before))
	}
	for m, on := range t.mode {
		if on != (m == "25") && m != "12" {
			left = append(left, fmt.Sprintf("mode %s is %v", m, on))
		}
	}
	if t.keypad {
		left = append(left, "the keypad is in application mode")
	}
	if len(left) > 0 {
		c.Fail("restored", "%s: left by %q the terminal is not as it was: %s", desc, how, strings.Join(left, "; "))
		return
	}
	c.Obs("restored")
	if bad != "" && len(bytes.TrimSpace(t.plain)) == 0 {
		c.Fail("says", "%s: it ends without a word", desc)
		return
	}
	if bytes.Contains(t.plain, []byte("panic:")) {
		c.Fail("panic", "%s: %s", desc, trunc(string(t.plain), 3000))
		return
	}
	c.Sig("%s", desc)
}
