package main

// C22: the configuration file is what the program runs with

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/charlesetsmith/saratoga/sarflags"
)

func init() {
	register(&Prop{ID: "C22", Quick: 12000, Thorough: 300000, Hang: true, Init: initC22, Run: runC22,
		Rule: "histories of loads of configuration files grown from the one in the repository: settings, timers, commands, flag tables, frame flag lists, directory entry flags and time stamps with random values, entries added and left out, keys in random order, numbers in several notations, unknown keys added; with and without SARDIR in the environment. After a load every setting and table must be exactly what the file says, whatever was loaded before. Files that are cut, followed by something, have a value of the wrong type anywhere, an invalid or absent header flag, or do not exist must be refused with an error, and the next valid one load. Copies of the settings must be equal and independent; the flags made for a frame type from the settings must be those in the settings that apply to it. Distinct by the file.",
		Need: map[string]int{"valid": 8000, "refused": 8000, "cut": 800, "type": 1500, "badflag": 800, "noflag": 800, "nofile": 200, "trailing": 300, "sardirenv": 1000, "sardirconf": 1000, "copied": 5000, "global": 5000}})
}

type conf22 map[string]interface{}

func initC22(w *Worker) {
	w.Data = conf(w.Dir)
}

var gkeys22 = []string{"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"}

func word22(r *rand.Rand) string {
	n := 1 + r.Intn(8)
	b := ""
	for i := 0; i < n; i++ {
		b += pick(r, "a", "b", "c", "x", "7", "_", "-", " ", "é", "\"", "\\", "/", "<", "%s", "=", ",", ":", "\t")
	}
	return b
}

func num22(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return r.Intn(1 << 30)
	case 3:
		return r.Intn(65536)
	}
	return r.Intn(300)
}

type cmd22 = sarflags.Cmdtype

// want22 is what a file says
type want22 struct {
	set    sarflags.Cliflags
	sardir string
	cmds   map[string]cmd22
	frame  map[string][]string
	flags  map[string]sarflags.Flagtype
	dflags map[string]sarflags.DirentFlagtype
	ts     sarflags.TimeStamptype
}

// gen22 makes a valid configuration: the file as ordered pairs, and what it says
func gen22(c *Case) (map[string]interface{}, *want22) {
	r := c.R
	b, err := os.ReadFile(os.Getenv("VMON_CONF"))
	must(err)
	j := map[string]interface{}{}
	d := json.NewDecoder(bytes.NewReader(b))
	must(d.Decode(&j))
	w := &want22{cmds: map[string]cmd22{}, frame: map[string][]string{}, flags: map[string]sarflags.Flagtype{}, dflags: map[string]sarflags.DirentFlagtype{}}
	w.set.Global = map[string]string{}
	obj := func(v interface{}) map[string]interface{} { return v.(map[string]interface{}) }
	// Tables
	for k, v := range obj(j["flags"]) {
		var t sarflags.Flagtype
		m := obj(v)
		if m["frametypes"] != nil {
			for _, f := range m["frametypes"].([]interface{}) {
				t.Frametypes = append(t.Frametypes, f.(string))
			}
		}
		t.Len, t.Msb = uint32(m["len"].(float64)), uint32(m["msb"].(float64))
		t.Options = map[string]uint32{}
		for o, x := range obj(m["options"]) {
			t.Options[o] = uint32(x.(float64))
		}
		if r.Intn(4) == 0 {
			o, x := word22(r), r.Intn(1<<16)
			t.Options[o] = uint32(x)
			obj(m["options"])[o] = float64(x)
		}
		if r.Intn(8) == 0 {
			t.Len, t.Msb = uint32(r.Intn(9)), uint32(r.Intn(32))
			m["len"], m["msb"] = float64(t.Len), float64(t.Msb)
		}
		if r.Intn(8) == 0 {
			f := word22(r)
			t.Frametypes = append(t.Frametypes, f)
			l, _ := m["frametypes"].([]interface{})
			m["frametypes"] = append(l, f)
		}
		w.flags[k] = t
	}
	for k, v := range obj(j["direntflags"]) {
		var t sarflags.DirentFlagtype
		m := obj(v)
		t.Len, t.Msb = uint16(m["len"].(float64)), uint16(m["msb"].(float64))
		t.Options = map[string]uint16{}
		for o, x := range obj(m["options"]) {
			t.Options[o] = uint16(x.(float64))
		}
		if r.Intn(4) == 0 {
			o, x := word22(r), r.Intn(1<<16)
			t.Options[o] = uint16(x)
			obj(m["options"])[o] = float64(x)
		}
		if r.Intn(8) == 0 {
			t.Len, t.Msb = uint16(r.Intn(9)), uint16(r.Intn(16))
			m["len"], m["msb"] = float64(t.Len), float64(t.Msb)
		}
		w.dflags[k] = t
	}
	{
		m := obj(j["timestamps"])
		w.ts.Options = map[string]uint8{}
		for o, x := range obj(m["options"]) {
			w.ts.Options[o] = uint8(x.(float64))
		}
		if r.Intn(4) == 0 {
			o, x := word22(r), r.Intn(256)
			w.ts.Options[o] = uint8(x)
			obj(m["options"])[o] = float64(x)
		}
		if r.Intn(4) == 0 {
			m["len"], m["msb"] = float64(r.Intn(9)), float64(r.Intn(8))
		}
		w.ts.Len, w.ts.Msb = uint8(m["len"].(float64)), uint8(m["msb"].(float64))
	}
	ff := obj(j["frameflags"])
	for k, v := range ff {
		l := v.([]interface{})
		if r.Intn(4) == 0 {
			r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
			l = l[:r.Intn(len(l))]
			ff[k] = l
		}
		var t []string
		for _, x := range l {
			t = append(t, x.(string))
		}
		if len(t) > 0 {
			w.frame[k] = t
		}
	}
	cm := obj(j["commands"])
	for k, v := range cm {
		if r.Intn(10) == 0 {
			delete(cm, k)
			continue
		}
		m := obj(v)
		for _, x := range []string{"help", "usage"} {
			if r.Intn(10) == 0 {
				m[x] = word22(r)
			}
		}
		h, _ := m["help"].(string)
		u, _ := m["usage"].(string)
		w.cmds[k] = cmd22{Help: h, Usage: u}
	}
	if r.Intn(3) == 0 {
		k, h := "cmd"+word22(r), word22(r)
		cm[k] = map[string]interface{}{"help": h, "usage": k}
		w.cmds[k] = cmd22{Help: h, Usage: k}
	}
	// Settings
	for _, k := range gkeys22 {
		if r.Intn(3) > 0 {
			var o []string
			for x := range w.flags[k].Options {
				o = append(o, x)
			}
			sort.Strings(o)
			j[k] = o[r.Intn(len(o))]
		}
		w.set.Global[k] = j[k].(string)
	}
	str := func(k string, p *string) {
		switch r.Intn(4) {
		case 0:
			j[k] = word22(r)
		case 1:
			if r.Intn(4) == 0 {
				delete(j, k)
			}
		}
		*p, _ = j[k].(string)
	}
	str("v4multicast", &w.set.V4Multicast)
	str("v6multicast", &w.set.V6Multicast)
	str("timestamp", &w.set.Timestamp)
	str("timezone", &w.set.Timezone)
	str("prompt", &w.set.Prompt)
	str("sardir", &w.sardir)
	num := func(j map[string]interface{}, k string) int {
		switch r.Intn(4) {
		case 0, 1:
			j[k] = float64(num22(r))
		case 2:
			if r.Intn(4) == 0 {
				delete(j, k)
			}
		}
		f, _ := j[k].(float64)
		return int(f)
	}
	w.set.Port = num(j, "udpport")
	w.set.Ppad = num(j, "ppad")
	w.set.Buffersize = num(j, "buffersize")
	w.set.Bcount = uint(num(j, "bcount"))
	t := obj(j["timeout"])
	w.set.Timeout.Metadata = num(t, "metadata")
	w.set.Timeout.Request = num(t, "request")
	w.set.Timeout.Status = num(t, "status")
	w.set.Timeout.Transfer = num(t, "transfer")
	w.set.Timeout.Binterval = uint(num(t, "binterval"))
	w.set.Timeout.Datacounter = num(t, "datacounter")
	if r.Intn(4) == 0 { // Of no meaning
		j["x"+word22(r)] = pick(r, "1", "yes")
		t["x"+word22(r)] = "y"
		j["_x"] = []interface{}{1.0, nil, map[string]interface{}{"port": "x"}}
	}
	return j, w
}

// text22 writes JSON, keys in any order
func text22(r *rand.Rand, b *strings.Builder, v interface{}) {
	sp := func() {
		if r.Intn(8) == 0 {
			b.WriteString(pick(r, " ", "\n", "\t", "\r\n", "  "))
		}
	}
	sp()
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			sp()
			text22(r, b, k)
			b.WriteByte(':')
			text22(r, b, x[k])
		}
		b.WriteByte('}')
	case []interface{}:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			text22(r, b, e)
		}
		b.WriteByte(']')
	case float64:
		switch r.Intn(4) {
		case 0:
			b.WriteString(strconv.FormatFloat(x, 'e', -1, 64))
		case 1:
			b.WriteString(strconv.FormatFloat(x, 'f', 1, 64))
		default:
			b.WriteString(strconv.FormatFloat(x, 'f', -1, 64))
		}
	default:
		j, err := json.Marshal(v)
		must(err)
		b.Write(j)
	}
	sp()
}

// other22: a value of another type
func other22(r *rand.Rand, v interface{}) interface{} {
	for {
		var n interface{}
		switch r.Intn(7) {
		case 0:
			n = "7"
		case 1:
			n = 7.0
		case 2:
			n = true
		case 3:
			n = nil
		case 4:
			n = []interface{}{"yes"}
		case 5:
			n = map[string]interface{}{"help": "yes"}
		case 6:
			n = []interface{}{}
		}
		if reflect.TypeOf(n) != reflect.TypeOf(v) {
			return n
		}
	}
}

// spoil22 gives one value the wrong type
func spoil22(r *rand.Rand, j map[string]interface{}) string {
	obj := func(v interface{}) map[string]interface{} { return v.(map[string]interface{}) }
	key := func(m map[string]interface{}, only ...string) string {
		var ks []string
		for k := range m {
			if len(only) == 0 || strings.Contains(" "+strings.Join(only, " ")+" ", " "+k+" ") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if len(ks) == 0 {
			return ""
		}
		return ks[r.Intn(len(ks))]
	}
	m, at := j, ""
	k := key(j, "v4multicast", "v6multicast", "udpport", "descriptor", "csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite",
		"timestamp", "timezone", "sardir", "prompt", "ppad", "buffersize", "bcount", "timeout", "commands", "frameflags", "flags", "direntflags", "timestamps")
	if o, ok := j[k].(map[string]interface{}); ok && r.Intn(3) > 0 {
		at = k + "."
		m = o
		switch k {
		case "timeout":
			k = key(m, "metadata", "request", "status", "transfer", "binterval", "datacounter")
		case "commands":
			k = key(m)
			if r.Intn(2) == 0 {
				at += k + "."
				m = obj(m[k])
				k = key(m, "help", "usage")
			}
		case "frameflags":
			k = key(m)
			if l := m[k].([]interface{}); r.Intn(2) == 0 && len(l) > 0 {
				i := r.Intn(len(l))
				l[i] = other22(r, l[i])
				return at + k + "[]"
			}
		case "flags", "direntflags", "timestamps":
			if k != "timestamps" {
				f := k
				k = key(m)
				if r.Intn(4) == 0 {
					break
				}
				at += k + "."
				m = obj(m[k])
				if f == "flags" && r.Intn(5) == 0 && m["frametypes"] != nil {
					k = "frametypes"
					break
				}
			}
			k = key(m, "len", "msb", "options")
			if k == "options" && r.Intn(2) == 0 {
				at += "options."
				m = obj(m[k])
				k = key(m)
			}
		}
	}
	if k == "" {
		return ""
	}
	m[k] = other22(r, m[k])
	return at + k
}

func runC22(c *Case) {
	r := c.R
	fname := filepath.Join(c.Dir, "conf22.json")
	var set sarflags.Cliflags
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		j, w := gen22(c)
		env := ""
		if r.Intn(2) == 0 {
			env = pick(r, "/somewhere", c.Dir, "rel/ative", " ")
		}
		if env == "" && r.Intn(2) == 0 {
			os.Unsetenv("SARDIR")
		} else {
			os.Setenv("SARDIR", env)
		}
		bad, what := "", ""
		switch r.Intn(14) {
		case 0:
			bad = "cut"
		case 1, 2, 3:
			if what = spoil22(r, j); what != "" {
				bad = "type"
			}
		case 4, 5:
			k := gkeys22[r.Intn(len(gkeys22))]
			bad = "badflag"
			v := pick(r, "", "Yes", "maybe", "yes ", "d17", "NO", "0", "version", "sha256", "no,yes")
			if _, ok := w.flags[k].Options[v]; ok {
				v = "nosuch"
			}
			j[k], what = v, k+"="+v
		case 6:
			k := gkeys22[r.Intn(len(gkeys22))]
			bad, what = "noflag", k
			delete(j, k)
		case 7:
			if r.Intn(2) == 0 {
				bad = "trailing"
			} else {
				bad = "nofile"
			}
		}
		var b strings.Builder
		text22(r, &b, j)
		text := b.String()
		os.Remove(fname)
		os.RemoveAll(fname)
		switch bad {
		case "cut":
			text = text[:r.Intn(len(strings.TrimRight(text, " \t\r\n")))]
		case "trailing":
			text += pick(r, "}", "{}", ",", "x", "\x00", "[1]")
		case "nofile":
			if what = pick(r, "none", "directory", "empty", "null", "list"); what == "directory" {
				must(os.Mkdir(fname, 0755))
			} else if what == "null" || what == "list" {
				must(os.WriteFile(fname, []byte(map[string]string{"null": "null", "list": "[]"}[what]), 0644))
			} else if what == "empty" {
				must(os.WriteFile(fname, nil, 0644))
			}
		}
		if bad != "nofile" {
			must(os.WriteFile(fname, []byte(text), 0644))
		}
		if r.Intn(3) == 0 {
			set = sarflags.Cliflags{}
		}
		err := set.ReadConfig(fname)
		if !sarflags.Climu.TryLock() {
			c.Fail("locked", "settings left locked by ReadConfig (%s %s)", bad, what)
			return
		}
		sarflags.Climu.Unlock()
		c.Sig("%s %v %s", env, bad, text)
		if bad != "" {
			c.Obs(bad)
			if err == nil {
				c.Fail("accepted "+bad, "configuration accepted although %s %s:\n%s", bad, what, trunc(text, 6000))
				return
			}
			c.Obs("refused")
			continue
		}
		if err != nil {
			c.Fail("refused", "valid configuration refused: %v\n%s", err, trunc(text, 6000))
			return
		}
		c.Obs("valid")
		if w.set.Sardir = w.sardir; env != "" {
			w.set.Sardir = env
			c.Obs("sardirenv")
		} else {
			c.Obs("sardirconf")
		}
		diff := func(what string, got, want interface{}) bool {
			if !reflect.DeepEqual(got, want) {
				c.Fail(what, "%s are %+v want %+v", what, got, want)
				return true
			}
			return false
		}
		if diff("settings", set, w.set) || diff("commands", sarflags.Commands, w.cmds) || diff("frame flags", map[string][]string(sarflags.Frameflags), w.frame) ||
			diff("flags", sarflags.Flags, w.flags) || diff("directory flags", sarflags.DirentFlags, w.dflags) || diff("time stamps", sarflags.TimeStamps, w.ts) {
			return
		}
		// Copies
		cp, err := set.CopyCliflags()
		if err != nil || cp == nil {
			c.Fail("copy", "settings not copied: %v", err)
			return
		}
		if diff("copied settings", *cp, w.set) {
			return
		}
		k := gkeys22[r.Intn(len(gkeys22))]
		if r.Intn(2) == 0 {
			cp.Global[k], cp.Bcount, cp.Timeout.Status, cp.Sardir = "changed", 77777, -5, "?"
			if diff("settings after a change to their copy", set, w.set) {
				return
			}
		} else {
			save := set.Global[k]
			set.Global[k] = "changed"
			if diff("copied settings after a change to the original", *cp, w.set) {
				return
			}
			set.Global[k] = save
		}
		c.Obs("copied")
		if _, err := (&sarflags.Cliflags{}).CopyCliflags(); err == nil {
			c.Fail("copy", "settings without flags are copied")
			return
		}
		// Flags of a frame
		for ft, l := range w.frame {
			got := map[string]string{}
			s := sarflags.Setglobal(ft, &set)
			if s != "" && !strings.ContainsAny(strings.Join(values22(w.set.Global), ""), ",=") {
				for _, kv := range strings.Split(s, ",") {
					k, v, ok := strings.Cut(kv, "=")
					if _, dup := got[k]; !ok || dup {
						c.Fail("global", "flags of %s: %q", ft, s)
						return
					}
					got[k] = v
				}
			} else if s != "" {
				continue
			}
			want := map[string]string{}
			for _, f := range l {
				if v, ok := w.set.Global[f]; ok {
					want[f] = v
				}
			}
			if diff("flags for a "+ft, got, want) {
				return
			}
			c.Obs("global")
		}
		if s := sarflags.Setglobal("nosuch", &set); s != "" {
			c.Fail("global", "flags of no frame: %q", s)
			return
		}
	}
	if c.Wants() {
		c.Sample(map[string]interface{}{"settings": fmt.Sprintf("%+v", set)})
	}
}

func values22(m map[string]string) (out []string) {
	for _, v := range m {
		out = append(out, v)
	}
	return
}
