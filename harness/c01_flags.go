package main

import (
	"sort"
	"strings"

	"github.com/charlesetsmith/saratoga/sarflags"
)

// C01: header bit fields
func init() {
	register(&Prop{ID: "C01", Quick: 1600000, Thorough: 12000000, Hang: true, Init: func(w *Worker) { w.Data = conf(w.Dir) },
		Rule: "random 32 bit frame headers, 16 bit directory entry headers and 8 bit timestamp headers x every field x every option, unknown fields, unknown options and unassigned values; each answer is compared with an independent table of the bit layout. A case is non-trivial when the header has other bits set; distinct by (kind, field, option or value, header)",
		Need: map[string]int{"set": 1000, "get": 1000, "unknown-option": 100, "unknown-field": 100, "unassigned-value": 100, "dirent": 1000, "timestamp": 1000, "flagstring": 1000, "direntstring": 1000},
		Run:  runC01})
}

func runC01(c *Case) {
	r := c.R
	switch c.I % 4 {
	case 0, 1:
		c01Header(c)
	case 2:
		if r.Intn(2) == 0 {
			c01Dirent(c)
		} else {
			c01Tstamp(c)
		}
	case 3:
		c01Strings(c)
	}
}

func c01Header(c *Case) {
	r := c.R
	h := r.Uint32()
	if r.Intn(8) == 0 {
		h = []uint32{0, 0xffffffff}[r.Intn(2)]
	}
	names := fieldNames(refFields)
	n := names[r.Intn(len(names))]
	f := refFields[n]
	os := keys(f.Opts)
	o := os[r.Intn(len(os))]
	want := refSet(h, n, o)
	got, err := sarflags.Set(h, n, o)
	c.Obs("set")
	c.Sig("H%x%s%s", h, n, o)
	if c.Wants() {
		c.Sample(map[string]interface{}{"header": h, "field": n, "option": o, "result": got})
	}
	if err != nil || got != want {
		c.Fail("set "+n, "Set(%08x, %s, %s) = %08x, %v; the field is bits %d..%d and the option %d: want %08x", h, n, o, got, err, f.Msb, f.Msb+f.Len-1, f.Opts[o], want)
	}
	// Every field of the header reads back its own bits
	for _, m := range names {
		c.Obs("get")
		if g := sarflags.Get(h, m); g != refGet(h, m) {
			c.Fail("get "+m, "Get(%08x, %s) = %d want %d", h, m, g, refGet(h, m))
		}
	}
	for _, m := range []string{n, names[r.Intn(len(names))]} {
		v := refGet(h, m)
		wantn, ok := refFields[m].name(v)
		s1, s2 := sarflags.GetStr(h, m), sarflags.Name(h, m)
		if ok && (s1 != wantn || s2 != wantn) {
			c.Fail("name "+m, "field %s of %08x holds %d: GetStr %q Name %q want %q", m, h, v, s1, s2, wantn)
		}
		if !ok {
			c.Obs("unassigned-value")
			for _, s := range []string{s1, s2} {
				if _, valid := refFields[m].Opts[s]; valid {
					c.Fail("name "+m, "field %s of %08x holds the unassigned value %d but is reported as %q", m, h, v, s)
				}
			}
		}
	}
	// Unknown options and fields are refused and change nothing
	bad := pick(r, "", "nosuch", "yesno", "d256", "V1", "get ", "0", o+"x")
	if _, ok := f.Opts[bad]; !ok {
		c.Obs("unknown-option")
		if g, err := sarflags.Set(h, n, bad); err == nil || g != h {
			c.Fail("unknown option", "Set(%08x, %s, %q) = %08x, %v; want the header unchanged and an error", h, n, bad, g, err)
		}
		if sarflags.Valid(n, bad) || sarflags.Value(n, bad) >= 0 {
			c.Fail("unknown option", "%s=%q taken as valid", n, bad)
		}
	}
	badf := pick(r, "", "nosuch", "Version", "bundle", "request", n+"x")
	if _, ok := refFields[badf]; !ok {
		c.Obs("unknown-field")
		if g, err := sarflags.Set(h, badf, o); err == nil || g != h {
			c.Fail("unknown field", "Set(%08x, %q, %s) = %08x, %v; want the header unchanged and an error", h, badf, o, g, err)
		}
		if sarflags.Good(badf) || sarflags.Valid(badf, o) {
			c.Fail("unknown field", "%q taken as a field", badf)
		}
	}
	if !sarflags.Good(n) || !sarflags.Valid(n, o) || sarflags.Value(n, o) != int(f.Opts[o]) {
		c.Fail("valid", "%s=%s: Good %v Valid %v Value %d want %d", n, o, sarflags.Good(n), sarflags.Valid(n, o), sarflags.Value(n, o), f.Opts[o])
	}
}

func c01Dirent(c *Case) {
	r := c.R
	h := uint16(r.Uint32())
	names := fieldNames(refDirent)
	n := names[r.Intn(len(names))]
	f := refDirent[n]
	os := keys(f.Opts)
	o := os[r.Intn(len(os))]
	want := uint16(f.put(16, uint32(h), f.Opts[o]))
	got, err := sarflags.SetD(h, n, o)
	c.Obs("dirent")
	c.Sig("D%x%s%s", h, n, o)
	if err != nil || got != want {
		c.Fail("setd "+n, "SetD(%04x, %s, %s) = %04x, %v want %04x", h, n, o, got, err, want)
	}
	for _, m := range names {
		v := refDirent[m].get(16, uint32(h))
		if g := sarflags.GetD(h, m); uint32(g) != v {
			c.Fail("getd "+m, "GetD(%04x, %s) = %d want %d", h, m, g, v)
		}
		wn, ok := refDirent[m].name(v)
		s1, s2 := sarflags.GetDStr(h, m), sarflags.NameD(h, m)
		if ok && (s1 != wn || s2 != wn) {
			c.Fail("named "+m, "directory entry field %s of %04x: %q %q want %q", m, h, s1, s2, wn)
		}
		if _, bad := refDirent[m].Opts[s1]; !ok && bad {
			c.Fail("named "+m, "directory entry field %s of %04x holds an unassigned value but is reported as %q", m, h, s1)
		}
	}
	if t := sarflags.TestD(h, n, o); t != (f.get(16, uint32(h)) == f.Opts[o]) {
		c.Fail("testd", "TestD(%04x, %s, %s) = %v", h, n, o, t)
	}
	if g, err := sarflags.SetD(h, n, "nosuch"); err == nil || g != h {
		c.Fail("unknown option", "SetD(%04x, %s, nosuch) = %04x, %v", h, n, g, err)
	}
	if g, err := sarflags.SetD(h, "nosuch", o); err == nil || g != h {
		c.Fail("unknown field", "SetD(%04x, nosuch, %s) = %04x, %v", h, o, g, err)
	}
	if !sarflags.GoodD(n) || !sarflags.ValidD(n, o) || sarflags.ValidD(n, "nosuch") || sarflags.GoodD("nosuch") {
		c.Fail("validd", "GoodD/ValidD wrong for %s=%s", n, o)
	}
	fd := sarflags.FrameD(n)
	sort.Strings(fd)
	if strings.Join(fd, ",") != strings.Join(os, ",") {
		c.Fail("framed", "FrameD(%s) = %v want %v", n, fd, os)
	}
}

func c01Tstamp(c *Case) {
	r := c.R
	h := uint8(r.Uint32())
	o := tsTypes[r.Intn(len(tsTypes))]
	c.Obs("timestamp")
	c.Sig("T%x%s", h, o)
	got, err := sarflags.SetT(h, o)
	if want := uint8(refTstamp.Opts[o]); err != nil || got != want { // The type is the whole byte
		c.Fail("sett", "SetT(%02x, %s) = %02x, %v want %02x", h, o, got, err, want)
	}
	if g := sarflags.GetT(h); g != h {
		c.Fail("gett", "GetT(%02x) = %02x", h, g)
	}
	wn, ok := refTstamp.name(uint32(h))
	for _, s := range []string{sarflags.GetTStr(h), sarflags.NameT(h)} {
		if ok && s != wn {
			c.Fail("namet", "timestamp type %02x reported as %q want %q", h, s, wn)
		}
		if _, bad := refTstamp.Opts[s]; !ok && bad {
			c.Fail("namet", "unassigned timestamp type %02x reported as %q", h, s)
		}
	}
	for k, v := range refTstamp.Opts {
		if s := sarflags.NameT(uint8(v)); s != k {
			c.Fail("namet", "timestamp type %02x reported as %q want %q", v, s, k)
		}
	}
	if g, err := sarflags.SetT(h, "nosuch"); err == nil || g != h {
		c.Fail("unknown option", "SetT(%02x, nosuch) = %02x, %v", h, g, err)
	}
	if !sarflags.GoodT(o) || sarflags.GoodT("nosuch") {
		c.Fail("goodt", "GoodT wrong for %s", o)
	}
}

type fv struct{ f, v string }

func parseFlags(s string) (out []fv) {
	for _, x := range strings.Split(s, ",") {
		if f, v, ok := strings.Cut(x, "="); ok {
			out = append(out, fv{f, v})
		}
	}
	return
}

// Flag strings "name=value,..." as they are handed to the frame constructors
func c01Strings(c *Case) {
	r := c.R
	names := fieldNames(refFields)
	cur := ""
	var model []fv
	for k := r.Intn(6); k > 0; k-- {
		n := names[r.Intn(len(names))]
		os := keys(refFields[n].Opts)
		o := os[r.Intn(len(os))]
		dup := false
		for _, m := range model {
			dup = dup || m.f == n
		}
		if dup {
			continue
		}
		model = append(model, fv{n, o})
		cur = sarflags.AddFlag(cur, n, o)
	}
	c.Obs("flagstring")
	eq := func(s string) bool {
		p := parseFlags(s)
		if len(p) != len(model) {
			return false
		}
		for i := range p {
			if p[i] != model[i] {
				return false
			}
		}
		return true
	}
	if !eq(cur) {
		c.Fail("addflag", "AddFlag built %q want %v", cur, model)
		return
	}
	c.Sig("S%s", cur)
	// Invalid additions leave the list alone
	if s := sarflags.AddFlag(cur, "nosuch", "yes"); s != cur {
		c.Fail("addflag", "AddFlag(%q, nosuch, yes) = %q", cur, s)
	}
	if s := sarflags.AddFlag(cur, "version", "nosuch"); s != cur {
		c.Fail("addflag", "AddFlag(%q, version, nosuch) = %q", cur, s)
	}
	for _, m := range model {
		if v := sarflags.FlagValue(cur, m.f); v != m.v {
			c.Fail("flagvalue", "FlagValue(%q, %s) = %q", cur, m.f, v)
		}
	}
	if v := sarflags.FlagValue(cur, "nosuch"); v != "" {
		c.Fail("flagvalue", "FlagValue(%q, nosuch) = %q", cur, v)
	}
	if v := sarflags.FlagValue(pick(r, "version", "a,version,b", ""), "version"); v != "" {
		c.Fail("flagvalue", "FlagValue of a name without value = %q", v)
	}
	n := names[r.Intn(len(names))]
	os := keys(refFields[n].Opts)
	o := os[r.Intn(len(os))]
	rep := sarflags.ReplaceFlag(cur, n, o)
	found := false
	for i := range model {
		if model[i].f == n {
			model[i].v = o
			found = true
		}
	}
	if !found {
		model = append(model, fv{n, o})
	}
	if !eq(rep) {
		c.Fail("replaceflag", "ReplaceFlag(%q, %s, %s) = %q want %v", cur, n, o, rep, model)
	}
	direntStrings(c)
	// A map of flags sets exactly the named fields
	h := r.Uint32()
	m := map[string]string{}
	want := h
	var used uint32
	for _, x := range model { // Fields that do not share bits, so that the order does not matter
		if mk := refFields[x.f].mask(32); used&mk == 0 {
			used |= mk
			m[x.f] = x.v
			want = refSet(want, x.f, x.v)
		}
	}
	if g := sarflags.SetFlags(h, m); g != want {
		c.Fail("setflags", "SetFlags(%08x, %v) = %08x want %08x", h, m, g, want)
	}
	// The global settings that apply to a frame type
	ft := pick(r, "beacon", "request", "metadata", "data", "status")
	cl := *c.Data.(*sarflags.Cliflags)
	cl.Global = map[string]string{}
	for _, g := range []string{"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"} {
		if r.Intn(4) > 0 {
			ks := keys(refFields[g].Opts)
			cl.Global[g] = ks[r.Intn(len(ks))]
		}
	}
	got := map[string]string{}
	s := sarflags.Setglobal(ft, &cl)
	for _, x := range parseFlags(s) {
		if _, dup := got[x.f]; dup {
			c.Fail("setglobal", "Setglobal(%s) = %q repeats %s", ft, s, x.f)
		}
		got[x.f] = x.v
	}
	wantg := map[string]string{}
	for _, f := range refFrame[ft] {
		if v, ok := cl.Global[f]; ok {
			wantg[f] = v
		}
	}
	if len(got) != len(wantg) {
		c.Fail("setglobal", "Setglobal(%s) with %v = %q want %v", ft, cl.Global, s, wantg)
	}
	for f, v := range wantg {
		if got[f] != v {
			c.Fail("setglobal", "Setglobal(%s) with %v = %q want %v", ft, cl.Global, s, wantg)
		}
	}
	fs := append([]string{}, sarflags.Fields(ft)...)
	ws := append([]string{}, refFrame[ft]...)
	sort.Strings(fs)
	sort.Strings(ws)
	if strings.Join(fs, ",") != strings.Join(ws, ",") {
		c.Fail("fields", "Fields(%s) = %v want %v", ft, fs, ws)
	}
}

// direntStrings: the flag strings of directory entries, and what names there are
func direntStrings(c *Case) {
	r := c.R
	cur := ""
	var model []fv
	for k := r.Intn(8); k > 0; k-- {
		f := pick(r, "sod", "property", "descriptor", "nosuch", "version")
		o := pick(r, "nosuch", "", "v1")
		fl, ok := refDirent[f]
		if ok && r.Intn(5) > 0 {
			os := keys(fl.Opts)
			o = os[r.Intn(len(os))]
		}
		_, valid := fl.Opts[o]
		valid = ok && valid
		at := -1
		for i := range model {
			if model[i].f == f {
				at = i
			}
		}
		if sarflags.ValidD(f, o) != valid {
			c.Fail("validd", "ValidD(%q, %q) = %v", f, o, !valid)
		}
		how := "AddFlagD"
		old := cur
		if at < 0 && r.Intn(2) == 0 {
			cur = sarflags.AddFlagD(cur, f, o)
			if valid {
				model = append(model, fv{f, o})
			}
		} else if valid {
			how = "ReplaceFlagD"
			cur = sarflags.ReplaceFlagD(cur, f, o)
			if at < 0 {
				model = append(model, fv{f, o})
			} else {
				model[at].v = o
			}
		}
		p := parseFlags(cur)
		same := len(p) == len(model)
		for i := 0; same && i < len(p); i++ {
			same = p[i] == model[i]
		}
		if !same {
			c.Fail("direntflags", "%s(%q, %q, %q) = %q want %v", how, old, f, o, cur, model)
			return
		}
	}
	c.Obs("direntstring")
	list := func(what string, got, want []string) {
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, ",") != strings.Join(want, ",") {
			c.Fail("names", "the names of %s are %v want %v", what, got, want)
		}
	}
	list("directory entry fields", sarflags.FlagD(), fieldNames(refDirent))
	list("timestamp types", sarflags.FrameT(), keys(refTstamp.Opts))
}
