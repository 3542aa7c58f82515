// vmon: runtime monitors for the properties in ../properties.jsonl.
//
//	vmon check ID    parent: starts workers, watches them, decides, writes evidence
//	vmon work ID ... worker: runs cases ID/from..to against the real code
//
// A case is a pure function of (VERIF_SEED, property, index): it generates an
// input, history or schedule, runs the real code on it and judges what it
// observed with an oracle of its own.  Workers are separate processes, so that
// a panic, log.Fatal, os.Exit, deadlock or data race in the code under test is
// observed and attributed to the case that was running.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one property and the monitor that decides it
type Prop struct {
	ID       string
	Quick    int // Number of cases per tier
	Thorough int
	Race     bool // Needs the -race build
	Nobody   bool // Runs as an unprivileged user
	Hang     bool // No progress in a case is a violation (otherwise: no answer)
	Serial   bool // One worker only
	Batch    int  // Cases per worker process (0: spread evenly over the workers)
	Netns    bool // Has a network of its own where that is allowed
	HangS    int  // Seconds without progress that count as a hang
	Rule     string
	Assume   []string
	Need     map[string]int // Observations without which a run says nothing
	Init     func(w *Worker)
	Run      func(c *Case)
	Done     func(w *Worker)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Worker is the state of one worker process
type Worker struct {
	Prop  *Prop
	Dir   string // Scratch directory of this worker
	Tier  string
	Seed  int64
	Data  interface{}
	obs   map[string]int
	sigs  map[uint64]bool
	samp  []interface{}
	nviol int
	mu    sync.Mutex
	out   *bufio.Writer
	prog  *os.File
	evals int
}

// Case is one evaluation
type Case struct {
	*Worker
	I   int
	R   *rand.Rand
	Pre string // In front of file names: several cases run at once in one directory
	bad bool
	sig uint64
}

func caseSeed(seed int64, id string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	return int64(h.Sum64() >> 1)
}

type record struct {
	T      string         // viol, done
	Case   int            `json:",omitempty"`
	What   string         `json:",omitempty"`
	Key    string         `json:",omitempty"`
	Detail interface{}    `json:",omitempty"`
	Obs    map[string]int `json:",omitempty"`
	Sigs   []uint64       `json:",omitempty"`
	Samp   []interface{}  `json:",omitempty"`
	Evals  int            `json:",omitempty"`
}

func (w *Worker) emit(r record) {
	b, err := json.Marshal(r)
	if err != nil {
		r.Detail = fmt.Sprintf("%+v", r.Detail)
		r.Samp = nil
		b, _ = json.Marshal(r)
	}
	w.out.Write(append(b, '\n'))
	w.out.Flush()
}

// Obs counts an observed event
func (w *Worker) Obs(k string) { w.ObsN(k, 1) }

func (w *Worker) ObsN(k string, n int) {
	w.mu.Lock()
	w.obs[k] += n
	w.mu.Unlock()
}

const maxSigs = 1000000 // Per worker

// Sig records the signature of a non-trivial evaluation
func (c *Case) Sig(format string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	c.mu.Lock()
	c.sig = c.sig*31 + h.Sum64() | 1
	c.mu.Unlock()
}

// Wants: are more samples wanted
func (c *Case) Wants() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.samp) < 3
}

// Sample keeps a few cases for the evidence
func (c *Case) Sample(s interface{}) {
	c.mu.Lock()
	if len(c.samp) < 3 {
		c.samp = append(c.samp, s)
	}
	c.mu.Unlock()
}

// Fail reports a violation.  key identifies the kind of failure, for known findings
func (c *Case) Fail(key string, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.bad = true
	c.nviol++
	if c.nviol > 20 {
		return
	}
	s := fmt.Sprintf(format, a...)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	c.emit(record{T: "viol", Case: c.I, Key: key, What: s})
}

// Bad: has this case failed
func (c *Case) Bad() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.bad
}

// Fatal: the harness itself cannot go on (no answer)
func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", a...)
	os.Exit(97)
}

func must(err error) {
	if err != nil {
		_, f, l, _ := runtime.Caller(1)
		fatal("%s:%d: %v", filepath.Base(f), l, err)
	}
}

func work(id string, from, to int) {
	p := props[id]
	if p == nil {
		fatal("no property %s", id)
	}
	if p.Netns && os.Getenv("VMON_NETNS") == "" {
		ownNetwork()
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	w := &Worker{Prop: p, Dir: os.Getenv("VMON_DIR"), Tier: os.Getenv("VERIF_TIER"), Seed: seed,
		obs: map[string]int{}, sigs: map[uint64]bool{}}
	rf, err := os.OpenFile(filepath.Join(w.Dir, "results"), os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)
	must(err)
	w.out = bufio.NewWriter(rf)
	w.prog, err = os.OpenFile(filepath.Join(w.Dir, "progress"), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	must(err)
	lf, err := os.Create(filepath.Join(w.Dir, "log"))
	must(err)
	log.SetOutput(&wrapLog{f: lf})
	if p.Init != nil {
		p.Init(w)
	}
	var b [8]byte
	for i := from; i < to; i++ {
		binary.BigEndian.PutUint64(b[:], uint64(i)+1)
		w.prog.WriteAt(b[:], 0)
		c := &Case{Worker: w, I: i, R: rand.New(rand.NewSource(caseSeed(seed, id, i)))}
		p.Run(c)
		if c.sig != 0 && len(w.sigs) < maxSigs { // The count is a lower bound beyond that
			w.sigs[c.sig] = true
		}
		w.evals++
	}
	if p.Done != nil {
		p.Done(w)
	}
	w.mu.Lock()
	r := record{T: "done", Obs: w.obs, Samp: w.samp, Evals: w.evals}
	for s := range w.sigs {
		r.Sigs = append(r.Sigs, s)
	}
	w.emit(r)
	os.Exit(0)
}

// ownNetwork runs the worker again, in a network namespace of its own with an
// ethernet-like interface; if that cannot be had, the worker goes on with the loopback network
func ownNetwork() {
	os.Setenv("VMON_NETNS", "no")
	self, err := os.Executable()
	if err != nil {
		return
	}
	cmd := exec.Command(self, os.Args[1:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = nil, os.Stdout, os.Stderr
	cmd.Env = append(os.Environ(), "VMON_NETNS=yes")
	cmd.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET, Pdeathsig: syscall.SIGKILL,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}}
	runtime.LockOSThread()
	if cmd.Start() != nil {
		return
	}
	err = cmd.Wait()
	if cmd.ProcessState.ExitCode() == 96 { // The interface cannot be had
		return
	}
	if err == nil {
		os.Exit(0)
	}
	if c := cmd.ProcessState.ExitCode(); c > 0 {
		os.Exit(c)
	}
	os.Exit(98)
}

// wrapLog keeps the last of what the code under test logs
type wrapLog struct {
	mu sync.Mutex
	f  *os.File
	n  int64
}

func (l *wrapLog) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.n > 1<<18 {
		l.n = 0
	}
	l.f.WriteAt(append(b, "<<<end\n"...), l.n)
	l.n += int64(len(b))
	return len(b), nil
}

// ---- parent

type violation struct {
	Case int
	Key  string
	What string
}

type parent struct {
	p       *Prop
	tier    string
	seed    int64
	verif   string
	scratch string
	self    string
	mu      sync.Mutex
	viols   []violation
	obs     map[string]int
	sigs    map[uint64]bool
	samp    []interface{}
	evals   int
	procs   int
	noans   []string
	races   map[string]string
	known   []knownFinding
	stop    time.Time // When to end: soon after the first violation that is not known
}

func (P *parent) isKnown(key string) bool {
	for _, k := range P.known {
		if strings.Contains(key, k.key) {
			return true
		}
	}
	return false
}

const grace = 20 * time.Second

// seen: a violation with this key has been found
func (P *parent) seen(key string) {
	if P.stop.IsZero() && !P.isKnown(key) {
		P.stop = time.Now().Add(grace)
	}
}

// over: is it time to end.  One violation decides, and the code may be slow now
func (P *parent) over() bool { return !P.stop.IsZero() && time.Now().After(P.stop) }

// peek looks for violations in what a worker has written so far
func (P *parent) peek(dir string, size *int64) bool {
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.stop.IsZero() {
		logs, _ := filepath.Glob(filepath.Join(dir, "race*"))
		var n int64
		logs = append(logs, filepath.Join(dir, "results"))
		for _, f := range logs {
			if fi, err := os.Stat(f); err == nil {
				n += fi.Size()
			}
		}
		if n != *size {
			*size = n
			for _, f := range logs {
				b, _ := os.ReadFile(f)
				if filepath.Base(f) != "results" {
					found, _ := raceBlocks(string(b))
					for k := range found {
						P.seen("race: " + k)
					}
					continue
				}
				for _, l := range strings.Split(string(b), "\n") {
					var r record
					if strings.Contains(l, "viol") && json.Unmarshal([]byte(l), &r) == nil && r.T == "viol" {
						P.seen(r.Key)
					}
				}
			}
		}
	}
	return P.over()
}

var raceRepo = regexp.MustCompile(`charlesetsmith/saratoga`)

// raceBlocks finds the data races of the code under test in a race log
func raceBlocks(text string) (found map[string]string, foreign int) {
	found = map[string]string{}
	for _, blk := range strings.Split(text, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		// Stacks of the two accesses: the lines up to "Goroutine ... created at"
		acc := blk
		if i := strings.Index(acc, "\nGoroutine "); i >= 0 {
			acc = acc[:i]
		}
		if !raceRepo.MatchString(acc) {
			foreign++
			continue
		}
		var fn []string
		for _, part := range strings.Split(acc, "\n\n") {
			for _, l := range strings.Split(part, "\n") {
				l = strings.TrimSpace(l)
				if raceRepo.MatchString(l) && strings.HasSuffix(l, ")") {
					fn = append(fn, l[strings.LastIndex(l, "/")+1:])
					break
				}
			}
		}
		sort.Strings(fn)
		found[strings.Join(fn, " | ")] = strings.TrimSpace(blk)
	}
	return
}

func chownAll(dir string, uid int) {
	filepath.Walk(dir, func(p string, _ os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(p, uid, uid)
		}
		return nil
	})
}

const nobodyUID = 65534

// runWorker runs cases from..to in one process; returns the index after the last finished case
func (P *parent) runWorker(n, from, to int) (next int, crashed bool) {
	dir := filepath.Join(P.scratch, fmt.Sprintf("w%d", n))
	must(os.MkdirAll(dir, 0755))
	defer func() {
		// The code under test may have removed permissions below dir
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(dir)
	}()
	so, err := os.Create(filepath.Join(dir, "stdout"))
	must(err)
	defer so.Close()
	cmd := exec.Command(P.self, "work", P.p.ID, strconv.Itoa(from), strconv.Itoa(to))
	cmd.Dir = dir
	cmd.Stdout, cmd.Stderr = so, so
	cmd.Env = append(os.Environ(), "VMON_DIR="+dir, "VERIF_TIER="+P.tier, "VERIF_SEED="+strconv.FormatInt(P.seed, 10),
		"GORACE=halt_on_error=0 exitcode=0 history_size=2 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all",
		"HOME="+dir, "SARDIR="+dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if P.p.Nobody {
		chownAll(dir, nobodyUID)
		if os.Geteuid() == 0 {
			cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobodyUID, Gid: nobodyUID}
		}
	}
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		P.mu.Lock()
		P.noans = append(P.noans, "cannot start worker: "+err.Error())
		P.mu.Unlock()
		return to, false
	}
	P.mu.Lock()
	P.procs++
	P.mu.Unlock()
	dead := make(chan error, 1)
	go func() { dead <- cmd.Wait() }()
	limit := P.p.HangS
	if limit == 0 {
		limit = 120
	}
	var last uint64
	lastmove := time.Now()
	progress := func() uint64 {
		b, _ := os.ReadFile(filepath.Join(dir, "progress"))
		if len(b) < 8 {
			return 0
		}
		return binary.BigEndian.Uint64(b)
	}
	hang, ended := false, false
	var size int64
	var werr error
loop:
	for {
		select {
		case werr = <-dead:
			break loop
		case <-time.After(500 * time.Millisecond):
			if n := progress(); n != last {
				last, lastmove = n, time.Now()
			}
			if P.peek(dir, &size) {
				ended = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-dead
				break loop
			}
			if time.Since(lastmove) > time.Duration(limit)*time.Second {
				hang = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-dead:
				case <-time.After(5 * time.Second):
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				break loop
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // Anything the worker left running
	// Collect
	cur := int(progress()) - 1
	done := false
	rf, _ := os.ReadFile(filepath.Join(dir, "results"))
	P.mu.Lock()
	defer P.mu.Unlock()
	for _, l := range strings.Split(string(rf), "\n") {
		var r record
		if l == "" || json.Unmarshal([]byte(l), &r) != nil {
			continue
		}
		switch r.T {
		case "viol":
			P.viols = append(P.viols, violation{r.Case, r.Key, r.What})
		case "done":
			done = true
			P.evals += r.Evals
			for k, v := range r.Obs {
				P.obs[k] += v
			}
			for _, s := range r.Sigs {
				P.sigs[s] = true
			}
			if len(P.samp) < 4 {
				P.samp = append(P.samp, r.Samp...)
			}
		}
	}
	logs, _ := filepath.Glob(filepath.Join(dir, "race*"))
	for _, f := range logs {
		b, _ := os.ReadFile(f)
		found, foreign := raceBlocks(string(b))
		for k, v := range found {
			if _, ok := P.races[k]; !ok {
				P.races[k] = v
				P.viols = append(P.viols, violation{max(cur, from), "race: " + k, "data race: " + k + "\n" + v})
			}
		}
		if foreign > 0 {
			fmt.Fprintf(os.Stderr, "HARNESS: %d race reports outside the code under test\n%s\n", foreign, trunc(string(b), 8000))
			P.noans = append(P.noans, "race in the harness")
		}
	}
	if ended || done && !hang {
		return to, false
	}
	out, _ := os.ReadFile(filepath.Join(dir, "stdout"))
	tail := string(out)
	if lb, _ := os.ReadFile(filepath.Join(dir, "log")); len(lb) > 0 {
		if i := strings.Index(string(lb), "<<<end"); i >= 0 {
			lb = lb[max(0, i-300):i]
			tail += "\nlast log lines: " + string(lb)
		}
	}
	if len(tail) > 6000 {
		head := tail[:2500]
		tail = head + "\n...\n" + tail[len(tail)-3000:]
	}
	if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 97 {
		P.noans = append(P.noans, "worker: "+tail)
		return to, false
	}
	if cur < from { // Died before the first case: the Init of the property
		cur = from
	}
	if hang {
		if !P.p.Hang {
			P.noans = append(P.noans, fmt.Sprintf("case %d made no progress for %d s\n%s", cur, limit, tail))
			return cur + 1, true
		}
		P.seen("hang")
		P.viols = append(P.viols, violation{cur, "hang", fmt.Sprintf("no progress for %d s (deadlock or endless loop)\n%s", limit, tail)})
	} else {
		P.seen("died: " + deathKey(string(out)))
		P.viols = append(P.viols, violation{cur, "died: " + deathKey(string(out)), fmt.Sprintf("the process ended (%v) while it handled the case\n%s", werr, tail)})
	}
	return cur + 1, true
}

// deathKey names how a process died
func deathKey(out string) string {
	fn := ""
	seen := false
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			seen = true
		}
		if seen && strings.Contains(l, "charlesetsmith/saratoga/") && strings.HasSuffix(l, ")") {
			fn = l[strings.LastIndex(l, "/")+1:]
			if i := strings.Index(fn, "({"); i > 0 {
				fn = fn[:i]
			} else if i := strings.LastIndex(fn, "("); i > 0 {
				fn = fn[:i]
			}
			break
		}
	}
	if fn != "" {
		return "panic in " + fn
	}
	return "exit"
}

func check(id string) {
	p := props[id]
	if p == nil {
		fatal("no property %s", id)
	}
	start := time.Now()
	verif := os.Getenv("VERIF_HOME")
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	scratch, err := os.MkdirTemp("", "vmon-"+id+"-")
	must(err)
	must(os.Chmod(scratch, 0755))
	cleanup := func() { os.RemoveAll(scratch) }
	self, _ := os.Executable()
	if p.Nobody { // The unprivileged user has to reach the program
		b, err := os.ReadFile(self)
		must(err)
		self = filepath.Join(scratch, "vmon")
		must(os.WriteFile(self, b, 0755))
		if cfg := os.Getenv("VMON_CONF"); cfg != "" {
			b, err := os.ReadFile(cfg)
			must(err)
			os.Setenv("VMON_CONF", filepath.Join(scratch, "saratoga.json"))
			must(os.WriteFile(filepath.Join(scratch, "saratoga.json"), b, 0644))
		}
	}
	P := &parent{p: p, tier: tier, seed: seed, samp: []interface{}{}, verif: verif, scratch: scratch, self: self,
		obs: map[string]int{}, sigs: map[uint64]bool{}, races: map[string]string{}}
	P.known = loadKnown(filepath.Join(verif, "known_findings.txt"), id)
	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	if d, err := strconv.Atoi(os.Getenv("VMON_DIV")); err == nil && d > 1 { // A quick look, never an answer
		total = total/d + 1
	}
	first := 0
	if r := os.Getenv("VMON_CASE"); r != "" { // Replay
		first, _ = strconv.Atoi(r)
		total = first + 1
	}
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	if p.Serial {
		par = 1
	}
	if total-first < par {
		par = total - first
	}
	batch := p.Batch
	if batch == 0 {
		batch = (total - first + par - 1) / par
	}
	type job struct{ from, to int }
	jobs := make(chan job, (total-first)/batch+2)
	for f := first; f < total; f += batch {
		jobs <- job{f, min(f+batch, total)}
	}
	close(jobs)
	var wg sync.WaitGroup
	wn := 0
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				for from := j.from; from < j.to; {
					P.mu.Lock()
					wn++
					n := wn
					stop := len(P.viols) > 25 || P.over()
					P.mu.Unlock()
					if stop {
						return
					}
					from, _ = P.runWorker(n, from, j.to)
				}
			}
		}()
	}
	wg.Wait()
	cleanup()

	var fresh []violation
	knownhit := map[string]bool{}
	for _, v := range P.viols {
		hit := false
		for _, k := range P.known {
			if strings.Contains(v.Key, k.key) {
				hit = true
				if !knownhit[k.key] {
					knownhit[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	lacking := []string{}
	if os.Getenv("VMON_CASE") == "" {
		for k, n := range p.Need {
			if P.obs[k] < n {
				lacking = append(lacking, fmt.Sprintf("%s: %d < %d", k, P.obs[k], n))
			}
		}
	}
	sort.Strings(lacking)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": P.evals, "distinct_nontrivial": len(P.sigs), "rule": p.Rule,
			"samples": P.samp, "observed": P.obs, "worker_processes": P.procs, "race_detector": p.Race,
			"data_races": len(P.races), "minimum_observations_required": p.Need,
		},
		"assumptions": append([]string{}, p.Assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(fresh),
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(evdir, id+".json"), b, 0644))

	if len(fresh) > 0 {
		sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Case < fresh[j].Case })
		rp := filepath.Join(evdir, "replay-"+id+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "# %d violations of %s.  Replay the first one:\n#   cd %s && VERIF_SEED=%d VERIF_TIER=%s VMON_CASE=%d ./check.sh %s\n",
			len(fresh), id, verif, seed, tier, fresh[0].Case, id)
		for i, v := range fresh {
			if i > 20 {
				break
			}
			fmt.Fprintf(&sb, "\ncase %d [%s]\n%s\n", v.Case, v.Key, v.What)
			if i < 3 {
				w := v.What
				if len(w) > 700 {
					w = w[:700] + "..."
				}
				fmt.Printf("case %d [%s] %s\n", v.Case, v.Key, w)
			}
		}
		os.WriteFile(rp, []byte(sb.String()), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		os.Exit(1)
	}
	if len(P.noans) > 0 || len(lacking) > 0 {
		fmt.Printf("NO ANSWER for %s: %v; too few observations: %v\n", id, P.noans, lacking)
		os.Exit(3)
	}
	fmt.Printf("%s held on %d cases (%d distinct non-trivial), observed %d kinds of events, %.1f s\n",
		id, P.evals, len(P.sigs), len(P.obs), time.Since(start).Seconds())
	os.Exit(0)
}

type knownFinding struct{ key, what string }

// Lines "finding: property=ID key=<key> :: <what fails>"; lines "fixed: ..." suppress nothing
func loadKnown(path, id string) (ks []knownFinding) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" key=")
		k, w, ok := strings.Cut(l, " :: ")
		if ok && k != "" {
			ks = append(ks, knownFinding{k, w})
		}
	}
	return
}

// Nothing may depend on the time zone of the host
func init() { time.Local = time.FixedZone("VMON", 5*3600+1800) }

func main() {
	if len(os.Args) >= 3 && os.Args[1] == "check" {
		check(os.Args[2])
	}
	if len(os.Args) >= 5 && os.Args[1] == "work" {
		a, _ := strconv.Atoi(os.Args[3])
		b, _ := strconv.Atoi(os.Args[4])
		work(os.Args[2], a, b)
	}
	if len(os.Args) >= 2 && os.Args[1] == "race?" { // Does the property need the race detector
		if p := props[os.Args[2]]; p != nil && p.Race {
			fmt.Println("yes")
		}
		return
	}
	if len(os.Args) >= 2 && os.Args[1] == "list" {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	fmt.Fprintln(os.Stderr, "usage: vmon check ID")
	os.Exit(2)
}
