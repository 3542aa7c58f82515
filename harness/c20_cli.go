//go:build ui

package main

// C20: the command line does what it is told, shows what is so, and refuses the rest

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
)

func init() {
	register(&Prop{ID: "C20", Quick: 8000, Thorough: 100000, Hang: true, Race: true, Nobody: true, Init: initC20, Run: runC20,
		Rule: "random histories of command lines (every command; every valid argument; missing, surplus and wrong arguments, numbers at and past their limits; ? ; unknown commands; blank lines; odd white space) given to the command interpreter, against a model of the settings: after each command all settings, the transfer table and the directory are compared with the model, a query has to show the current value, ? the help and usage from the configuration, a wrong argument or command the usage or an error, on the right window, and change nothing. One case in four issues commands for different settings (and queries) all at once: every change must be there at the end. Race detector on. Distinct by the history.",
		Need: map[string]int{"set": 5000, "query": 2000, "help": 1000, "wrong": 3000, "unknown": 300, "blank": 200, "concurrent": 500, "peers": 80, "clear": 60, "list": 200}})
}

type cliDoc struct{ Help, Usage string }

var cliCommands map[string]cliDoc

func initC20(w *Worker) {
	initUI(w)
	b, err := os.ReadFile(os.Getenv("VMON_CONF"))
	must(err)
	var j struct{ Commands map[string]cliDoc }
	must(json.Unmarshal(b, &j))
	cliCommands = j.Commands
	if len(cliCommands) < 10 {
		fatal("commands not found in the configuration")
	}
}

// What the commands can change
type cliState struct {
	Global                                           map[string]string
	Timestamp, Timezone                              string
	Bcount, Binterval                                uint
	Metadata, Request, Status, Transfer, Datacounter int
	Exit                                             int
	Quits                                            int    // How often the main loop was left
	Rest                                             string // Every other setting
}

func (s cliState) clone() cliState {
	g := map[string]string{}
	for k, v := range s.Global {
		g[k] = v
	}
	s.Global = g
	return s
}

func cliNow() cliState {
	sarflags.Climu.Lock()
	defer sarflags.Climu.Unlock()
	f := sarflags.Cliflag
	s := cliState{Global: f.Global, Timestamp: f.Timestamp, Timezone: f.Timezone, Bcount: f.Bcount, Binterval: f.Timeout.Binterval,
		Metadata: f.Timeout.Metadata, Request: f.Timeout.Request, Status: f.Timeout.Status, Transfer: f.Timeout.Transfer, Datacounter: f.Timeout.Datacounter, Exit: sarwin.Cexit, Quits: int(getScreen().quits.Load())}
	s.Rest = fmt.Sprintf("%q %q %d %q %d %q %d mtu %d", f.V4Multicast, f.V6Multicast, f.Port, f.Prompt, f.Ppad, f.Sardir, f.Buffersize, sarflags.Mtu())
	return s.clone()
}

// timer of the model by name
func (s *cliState) timer(n string) *int {
	switch n {
	case "metadata":
		return &s.Metadata
	case "request":
		return &s.Request
	case "status":
		return &s.Status
	case "transfer":
		return &s.Transfer
	case "datacounter":
		return &s.Datacounter
	}
	return nil
}

type cliExp struct {
	kind  string   // set, query, help, wrong, unknown, blank, other
	msg   []string // Must be on the msg window
	nomsg []string // Must not
	err   []string // Must be on the err window
	quiet bool     // Nothing may be on the err window
	wins  []string // Windows that are empty afterwards
	doc   string   // Whose help
}

func numArg(c *Case) string {
	r := c.R
	switch r.Intn(9) {
	case 0:
		return "0"
	case 1:
		return strconv.Itoa(r.Intn(10))
	case 2:
		return strconv.Itoa(r.Intn(1 << 30))
	case 3:
		return "9223372036854775807"
	case 4:
		return pick(r, "007", "+5", "1")
	case 5:
		return pick(r, "-1", "-0x1", "9223372036854775808", "1e3", "3.5", "0x10", "ten", "--", "5s", "1,000", "")
	default:
		return strconv.Itoa(r.Intn(1000))
	}
}

func bool01(m *cliState, flag string, on, off, capable string, val string) bool {
	switch {
	case val == "":
		return false
	case val == on:
		m.Global[flag] = "yes"
	case val == off:
		m.Global[flag] = "no"
	case val == capable:
		m.Global[flag] = "capable"
	default:
		return false
	}
	return true
}

var junkArgs = []string{"x", "??", "-h", "on", "off", "yes", "no", "capable", "none", "d16", "d32", "d64", "D64", "sha256", "md5", "crc32", "sha1", "utc", "local", "UTC", "32", "64", "auto", "posix32", "3", "0", "-3", "request", "status", "msg", "err", "%s%d%n", "\u00e9", "invalid", "all", "=", "yes,", "no\x00"}

// model predicts what a command line does
func model(m *cliState, line string) (e cliExp) {
	a := strings.Fields(line)
	if len(a) == 0 {
		return cliExp{kind: "blank", quiet: true}
	}
	if _, ok := cliCommands[a[0]]; !ok {
		return cliExp{kind: "unknown", err: []string{"Invalid command:" + a[0]}}
	}
	cmd := a[0]
	if cmd == "quit" {
		cmd = "exit"
	}
	arg := ""
	if len(a) > 1 {
		arg = a[1]
	}
	wrong := cliExp{kind: "wrong", err: []string{cliCommands[cmd].Usage}}
	set := cliExp{kind: "set", quiet: true}
	query := func(s ...string) cliExp { return cliExp{kind: "query", quiet: true, msg: s} }
	if len(a) == 2 && arg == "?" {
		switch cmd {
		case "usage", "cancel", "?", "help":
		default:
			return cliExp{kind: "help", quiet: true, doc: cmd}
		}
	}
	switch cmd {
	case "checksum", "descriptor", "timezone":
		flag := map[string]string{"checksum": "csumtype", "descriptor": "descriptor"}[cmd]
		if len(a) == 1 {
			if cmd == "timezone" {
				return query(m.Timezone)
			}
			return query(m.Global[flag])
		}
		if len(a) > 2 {
			return wrong
		}
		switch cmd + " " + arg {
		case "checksum off":
			m.Global[flag] = "none"
		case "checksum none", "checksum crc32", "checksum md5", "checksum sha1", "descriptor d16", "descriptor d32", "descriptor d64":
			m.Global[flag] = arg
		case "descriptor auto":
			m.Global[flag] = "d64"
		case "descriptor d128":
			return cliExp{kind: "wrong", msg: []string{"not supported"}}
		case "timezone utc", "timezone local":
			m.Timezone = arg
		default:
			return wrong
		}
		return set
	case "freespace", "reqtstamp", "stream":
		if len(a) == 1 {
			no := map[string]string{"freespace": "not", "reqtstamp": "not", "stream": "Cannot"}[cmd]
			if m.Global[cmd] == "yes" {
				return cliExp{kind: "query", quiet: true, nomsg: []string{no}, msg: []string{map[string]string{"freespace": "advertised", "reqtstamp": "requested", "stream": "Can stream"}[cmd]}}
			}
			return query(no)
		}
		if len(a) > 2 || !bool01(m, cmd, "yes", "no", "", arg) {
			return wrong
		}
		return set
	case "rxwilling", "txwilling":
		if len(a) == 1 {
			return query(":" + m.Global[cmd])
		}
		if len(a) > 2 || !bool01(m, cmd, "on", "off", "capable", arg) {
			return wrong
		}
		return set
	case "timestamp":
		if len(a) == 1 {
			return query(m.Global["reqtstamp"], m.Timestamp)
		}
		t, ok := map[string]string{"off": "", "32": "posix32", "32_32": "posix32_32", "64": "posix64", "64_32": "posix64_32", "32_y2k": "epoch2000_32", "local": "localinterp"}[arg]
		if len(a) > 2 || !ok {
			return wrong
		}
		m.Global["reqtstamp"] = "no"
		if t != "" {
			m.Global["reqtstamp"], m.Timestamp = "yes", t
		}
		return set
	case "bcount", "interval":
		p := &m.Bcount
		if cmd == "interval" {
			p = &m.Binterval
		}
		if len(a) == 1 {
			if cmd == "interval" && *p == 0 {
				return query("Single")
			}
			return query(strconv.Itoa(int(*p)))
		}
		if cmd == "interval" && arg == "off" && len(a) == 2 {
			*p = 0
			return set
		}
		if n, err := strconv.Atoi(arg); len(a) == 2 && err == nil && n >= 0 {
			*p = uint(n)
			return set
		}
		return wrong
	case "timeout":
		show := func(n string) string {
			if v := *m.timer(n); v > 0 {
				return n + ":" + strconv.Itoa(v) + " "
			}
			if n == "datacounter" {
				return n // Only from the configuration: how it is put into words is free
			}
			return n + ":No Timeout"
		}
		switch len(a) {
		case 1:
			return query(show("metadata"), show("request"), show("status"), show("transfer"), show("datacounter"))
		case 2:
			if m.timer(arg) != nil {
				return query(show(arg))
			}
		case 3:
			p := m.timer(arg)
			if p == nil {
				return wrong
			}
			def := 60
			if arg == "datacounter" {
				def = 100
			}
			if a[2] == "off" {
				*p = def
				return set
			}
			if n, err := strconv.Atoi(a[2]); err == nil && n >= 0 {
				*p = n
				if n == 0 && arg == "datacounter" {
					*p = def
				}
				return set
			}
		}
		return wrong
	case "exit":
		switch {
		case len(a) == 1 || (len(a) == 2 && arg == "0"):
			m.Exit = 0
		case len(a) == 2 && arg == "1":
			m.Exit = 1
		default:
			return wrong
		}
		m.Quits++
		return set
	case "help", "?", "usage":
		e := cliExp{kind: "other", quiet: true}
		if len(a) == 1 {
			e.kind = "list"
			for k, v := range cliCommands {
				if cmd == "usage" {
					e.msg = append(e.msg, k+" - "+v.Usage)
				} else {
					e.msg = append(e.msg, k+" - "+v.Help)
				}
			}
		} else if cmd != "usage" && len(a) == 2 && arg == "?" {
			e.kind = "list"
			for k, v := range cliCommands {
				e.msg = append(e.msg, k+" - "+v.Help, v.Usage)
			}
		} else if cmd != "usage" {
			e.kind = "wrong"
			e.msg = []string{"help - " + cliCommands["help"].Help}
		}
		return e
	case "clear":
		e := cliExp{kind: "clear", quiet: true}
		if len(a) == 1 {
			e.wins = []string{"msg", "err", "packet"}
			return e
		}
		for _, w := range a[1:] {
			if w != "msg" && w != "err" && w != "packet" {
				wrong.wins = e.wins
				return wrong
			}
			e.wins = append(e.wins, w)
		}
		return e
	case "files", "tran":
		if len(a) == 1 {
			return cliExp{kind: "list", quiet: true, msg: []string{"No", "transfers"}}
		}
		if len(a) == 2 && cmd == "tran" {
			for _, t := range []string{"get", "take", "getdir", "put", "putblind", "give", "delete", "rm", "rmdir"} {
				if arg == t {
					return cliExp{kind: "list", quiet: true, msg: []string{"No", "transfers"}}
				}
			}
		}
		return wrong
	case "get", "take", "put", "putblind", "give", "delete", "getdir":
		if len(a) == 1 {
			return cliExp{kind: "list", quiet: true, msg: []string{"No", cmd, "transfers"}}
		}
		if len(a) == 3 {
			return cliExp{kind: "wrong", err: []string{"Invalid IP Address:" + arg}}
		}
		return wrong
	case "rmtran":
		if len(a) == 3 {
			if _, err := strconv.ParseUint(a[2], 10, 32); err == nil {
				return cliExp{kind: "wrong", msg: []string{"No such transfer"}}
			}
		}
		return wrong
	case "beacon":
		if len(a) == 1 {
			return cliExp{kind: "query", quiet: true}
		}
		if arg == "off" && len(a) == 2 {
			return cliExp{kind: "other", quiet: true}
		}
		for i, x := range a[1:] {
			if i > 0 || x != "off" {
				wrong.err = append(wrong.err, "Invalid IP Address:"+x)
			}
		}
		return wrong
	case "peers":
		if len(a) == 1 {
			return cliExp{kind: "peers", quiet: true}
		}
		return wrong
	case "home", "ls":
		if len(a) == 1 {
			return cliExp{kind: "other", quiet: true}
		}
		return wrong
	case "history":
		if len(a) > 2 {
			return wrong
		}
		return cliExp{kind: "other", quiet: true}
	}
	return cliExp{kind: "other"}
}

func cliLine(c *Case) string {
	r := c.R
	names := make([]string, 0, len(cliCommands))
	for k := range cliCommands {
		names = append(names, k)
	}
	sortStrings(names)
	if r.Intn(20) == 0 {
		return pick(r, "", " ", "\t", "   \t ", "\n")
	}
	if r.Intn(15) == 0 {
		return pick(r, "nosuch", "Beacon", "beacon:", "checksum=md5", "rm 1", "sessions", "chec", "helpp ?", "%d%s", "!!", "rmdir", "../x", "q")
	}
	var cmd string
	if r.Intn(3) > 0 {
		cmd = pick(r, "checksum", "descriptor", "timezone", "freespace", "reqtstamp", "stream", "rxwilling", "txwilling", "timestamp", "bcount", "interval", "timeout", "exit", "quit")
	} else {
		cmd = names[r.Intn(len(names))]
	}
	var a []string
	junk := func() string { return junkArgs[r.Intn(len(junkArgs))] }
	switch r.Intn(10) {
	case 0, 1:
	case 2:
		a = append(a, "?")
	case 3:
		a = append(a, junk())
	case 4:
		for i, n := 0, 2+r.Intn(3); i < n; i++ {
			a = append(a, junk())
		}
	default:
		switch cmd {
		case "checksum":
			a = append(a, pick(r, "off", "none", "crc32", "md5", "sha1"))
		case "descriptor":
			a = append(a, pick(r, "auto", "d16", "d32", "d64", "d128"))
		case "timezone":
			a = append(a, pick(r, "utc", "local"))
		case "freespace", "reqtstamp", "stream":
			a = append(a, pick(r, "yes", "no"))
		case "rxwilling", "txwilling":
			a = append(a, pick(r, "on", "off", "capable"))
		case "timestamp":
			a = append(a, pick(r, "off", "32", "32_32", "64", "64_32", "32_y2k", "local"))
		case "bcount", "interval":
			a = append(a, numArg(c))
			if cmd == "interval" && r.Intn(6) == 0 {
				a[0] = "off"
			}
		case "timeout":
			a = append(a, pick(r, "metadata", "request", "status", "transfer", "datacounter", "binterval"))
			switch r.Intn(6) {
			case 0:
			case 1:
				a = append(a, "off")
			default:
				a = append(a, numArg(c))
			}
		case "exit", "quit":
			a = append(a, pick(r, "0", "1", "2"))
		case "clear":
			for i, n := 0, r.Intn(4); i < n; i++ {
				a = append(a, pick(r, "msg", "err", "packet", "cmd"))
			}
		case "tran":
			a = append(a, pick(r, "get", "take", "put", "putblind", "give", "delete", "rm", "puts"))
		case "rmtran":
			a = append(a, pick(r, "127.0.0.1:7542", "x"), numArg(c))
		case "get", "take", "put", "putblind", "give", "delete", "getdir":
			a = append(a, pick(r, "nohost", "127.1", "::zz", "1:2:3:4:5:6:7:8:9"), pick(r, "f1", "../f", "new"))
		case "beacon":
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				a = append(a, pick(r, "nohost", "127.1", "::zz", "5"))
			}
			if r.Intn(4) == 0 {
				a[0] = "off"
			}
		}
	}
	if r.Intn(25) == 0 {
		a = append(a, junk())
	}
	if r.Intn(10) > 0 {
		return strings.Join(append([]string{cmd}, a...), " ")
	}
	s := pick(r, "", " ", "\t") + cmd
	for _, x := range a {
		s += pick(r, " ", "  ", "\t", " \t ") + x
	}
	return s + pick(r, "", " ", "  ")
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// showing: the text a window shows
func (s *screen) showing(view string) string {
	var b string
	s.g.VerifUpdate(func(g *gocui.Gui) {
		if v, err := g.View(view); err == nil {
			b = v.Buffer()
		}
	})
	return strings.TrimSpace(b)
}

func runC20(c *Case) {
	r := c.R
	s := getScreen()
	s.clear()
	setTransfers(nil)
	sarflags.Climu.Lock()
	sarwin.Cexit = -1
	if r.Intn(4) == 0 { // As from a configuration that says 0
		sarflags.Cliflag.Timeout.Datacounter = 0
	}
	sarflags.Climu.Unlock()
	sar, _ := c18Dir(c)
	want, err := treeOf(sar)
	must(err)
	if r.Intn(4) == 0 {
		concC20(c, s)
		return
	}
	m := cliNow()
	trace := ""
	for i, k := 0, 1+r.Intn(12); i < k; i++ {
		if r.Intn(6) == 0 { // Somebody's beacon
			a := &net.UDPAddr{IP: net.IPv4(10, 1, 0, byte(r.Intn(9))), Port: 7542}
			_, b := randBeacon(r)
			beacon.NewPeer(&b, a)
		}
		line := cliLine(c)
		before := m.clone()
		e := model(&m, line)
		c.Obs(e.kind)
		trace += line + "; "
		s.clear()
		clears := strings.HasPrefix(strings.TrimSpace(line), "clear")
		if clears {
			for _, w := range []string{"msg", "err", "packet"} {
				sarwin.MsgPrintln(s.g, "", "some text")
				if w == "err" {
					sarwin.ErrPrintln(s.g, "", "some text")
				}
				if w == "packet" {
					sarwin.PacketPrintln(s.g, "", "some text")
				}
			}
			s.flush()
			s.mu.Lock()
			s.out = map[string]string{}
			s.mu.Unlock()
		}
		ok := sarwin.Run(s.g, line)
		if done, where := s.settle(30 * time.Second); !done {
			c.Fail("stuck", "%q does not end\n%s", line, where)
			return
		}
		msg, errs := s.text("msg"), s.text("err")
		say := fmt.Sprintf("msg %q err %q", trunc(msg, 400), trunc(errs, 400))
		if (e.kind == "unknown") == ok {
			c.Fail("answer", "%q: run says %v; %s", line, ok, say)
			return
		}
		if e.quiet && errs != "" {
			c.Fail("refused", "%q reports an error; %s", line, say)
			return
		}
		for _, w := range e.msg {
			if !strings.Contains(msg, w) {
				c.Fail("shown", "%q does not show %q; %s; history %s", line, w, say, trace)
				return
			}
		}
		for _, w := range e.nomsg {
			if strings.Contains(msg, w) {
				c.Fail("shown", "%q shows %q; %s; history %s", line, w, say, trace)
				return
			}
		}
		for _, w := range e.err {
			if !strings.Contains(errs, w) {
				c.Fail("wrong", "%q: no %q among the errors; %s", line, w, say)
				return
			}
		}
		if e.doc != "" && !(strings.Contains(msg, cliCommands[e.doc].Help) && strings.Contains(msg, cliCommands[e.doc].Usage)) {
			c.Fail("help", "%q does not show the help %q and usage %q; %s", line, cliCommands[e.doc].Help, cliCommands[e.doc].Usage, say)
			return
		}
		if clears {
			for _, w := range []string{"msg", "err", "packet"} {
				cleared := false
				for _, x := range e.wins {
					cleared = cleared || x == w
				}
				has := strings.Contains(s.showing(w), "some text")
				if has == cleared {
					c.Fail("clear", "%q: text still in window %s: %v", line, w, has)
					return
				}
			}
		}
		if e.kind == "peers" {
			if why := checkPeers(msg); why != "" {
				c.Fail("peers", "%s: %s", why, trunc(msg, 2000))
				return
			}
		}
		now := cliNow()
		if !reflect.DeepEqual(now, m) {
			c.Fail("settings", "after %q the settings are %+v want %+v (before %+v); history %s", line, now, m, before, trace)
			return
		}
		if n := tableSize(); n != 0 {
			c.Fail("table", "%q started %d transfers", line, n)
			setTransfers(nil)
			return
		}
	}
	got, err := treeOf(sar)
	must(err)
	if d := treeDiff(got, want); d != "" {
		c.Fail("files", "the directory changed: %s; history %s", d, trace)
	}
	c.Sig("%s", trace)
	if c.Wants() {
		c.Sample(trunc(trace, 400))
	}
}

// checkPeers compares the table shown with the peers known
func checkPeers(msg string) string {
	l := beacon.PeerList()
	if len(l) == 0 {
		if !strings.Contains(msg, "No Peers") {
			return "no peers are known but some are shown"
		}
		return ""
	}
	rows := map[string][]string{}
	for _, x := range strings.Split(msg, "\n") {
		f := strings.Split(x, "|")
		if len(f) < 10 {
			continue
		}
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		if net.ParseIP(f[1]) == nil {
			continue
		}
		if rows[f[1]] != nil {
			return f[1] + " is shown twice"
		}
		rows[f[1]] = f
	}
	for _, p := range l {
		f := rows[p.Addr]
		if f == nil {
			return p.Addr + " is not shown"
		}
		if f[3] != p.Eid || f[4] != p.Maxdesc || f[5] != p.Canrx || f[6] != p.Cantx ||
			f[2] != strconv.FormatUint(p.Freespace/1024/1024, 10) || f[7] != p.Created.Print() || f[8] != p.Updated.Print() {
			return fmt.Sprintf("%s is shown as %v, it is %+v", p.Addr, f, p)
		}
	}
	if len(rows) != len(l) {
		return fmt.Sprintf("%d peers are shown, %d known", len(rows), len(l))
	}
	return ""
}

// Commands for different settings given all at once
func concC20(c *Case, s *screen) {
	r := c.R
	c.Obs("concurrent")
	m := cliNow()
	old := m.clone()
	all := []string{
		"checksum " + pick(r, "none", "crc32", "md5", "sha1"), "descriptor " + pick(r, "d16", "d32", "d64"), "timezone " + pick(r, "utc", "local"),
		"freespace " + pick(r, "yes", "no"), "stream " + pick(r, "yes", "no"), "rxwilling " + pick(r, "on", "off", "capable"), "txwilling " + pick(r, "on", "off", "capable"),
		"bcount " + strconv.Itoa(r.Intn(100)), "interval " + strconv.Itoa(r.Intn(100)), "timestamp " + pick(r, "off", "32", "64", "32_32", "64_32", "32_y2k"),
		"timeout metadata " + strconv.Itoa(r.Intn(100)), "timeout request " + strconv.Itoa(r.Intn(100)), "timeout status " + strconv.Itoa(r.Intn(100)), "exit " + pick(r, "0", "1")}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	all = all[:2+r.Intn(len(all)-2)]
	for _, l := range all {
		model(&m, l)
	}
	noise := []string{"checksum", "timeout", "timestamp", "help", "usage", "peers", "tran", "files", "nosuch", "clear", "bcount ?", "interval x", "rxwilling", "rmtran x 1", "beacon", "beacon off", "descriptor"}
	for i, n := 0, r.Intn(8); i < n; i++ {
		all = append(all, noise[r.Intn(len(noise))])
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	var wg sync.WaitGroup
	par := r.Intn(2) == 0 // From several places, or one after the other without waiting
	for _, l := range all {
		if !par {
			sarwin.Run(s.g, l)
			continue
		}
		wg.Add(1)
		go func(l string) {
			defer wg.Done()
			sarwin.Run(s.g, l)
		}(l)
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		_, b := randBeacon(r)
		beacon.NewPeer(&b, &net.UDPAddr{IP: net.IPv4(10, 1, 0, byte(r.Intn(9))), Port: 7542})
	}()
	wg.Wait()
	if done, where := s.settle(30 * time.Second); !done {
		c.Fail("stuck", "%q do not end\n%s", all, where)
		return
	}
	s.flush()
	if now := cliNow(); !reflect.DeepEqual(now, m) {
		c.Fail("settings", "after %q at once the settings are %+v want %+v (before %+v)", all, now, m, old)
		return
	}
	c.Sig("%v %v", par, all)
}
