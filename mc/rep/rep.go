// Package rep is the common driver of all checks: it slices an enumeration over worker processes,
// merges what they covered, confirms violations by re-running them in fresh processes, writes the
// evidence file and prints the verdict.
package rep

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Part is one enumeration (sequential cases or a scheduler scenario).
type Part struct {
	Name     string
	Thorough bool // only in the thorough tier
	Run      func(w *W)
}

// Check describes how one property is decided.
type Check struct {
	Prop        string
	Level       string
	Rule        string
	Assumptions []string
	Parts       func(tier string) []Part
	Serial      bool // run in one worker
	Loose       bool // no scheduling is involved: a wrong answer counts when it comes up again, even if not every time (map order)
}

// Viol is one violation, replayable by (part, index, devs).
type Viol struct {
	Prop  string          `json:"property"`
	Part  string          `json:"part"`
	Index int64           `json:"index"`
	Cost  int             `json:"cost"`
	Desc  string          `json:"case"`
	Msg   string          `json:"violation"`
	Extra json.RawMessage `json:"extra,omitempty"`
}

// PartStats is what one part covered.
type PartStats struct {
	Cases       int64            `json:"cases"`
	Nontrivial  int64            `json:"nontrivial"`
	Transitions int64            `json:"transitions"`
	Exhaustive  bool             `json:"exhaustive"`
	Bound       string           `json:"bound,omitempty"`
	Outcomes    map[string]int64 `json:"distinct_outcomes,omitempty"`
	Notes       []string         `json:"notes,omitempty"`
	WallMS      int64            `json:"wall_ms"`
}

// W is one worker's view of one part.
type W struct {
	Check    *Check
	Tier     string
	Seed     int64
	Slice    int
	N        int
	Part     string
	Only     int64           // replay a single case (-1: all)
	Extra    json.RawMessage // replay data
	Verbose  bool
	Deadline time.Time

	St      PartStats
	States  map[uint64]struct{}
	Samples []string
	Viols   []Viol
	Known   map[string]int64
	idx     int64
	stop    bool
}

const maxStates = 1 << 21

// State records an abstract state reached (counted once).
func (w *W) State(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	w.StateHash(h.Sum64())
}

// StateHash is State for a precomputed hash.
func (w *W) StateHash(h uint64) {
	if len(w.States) < maxStates {
		w.States[h] = struct{}{}
	}
}

// Outcome counts a distinct observed outcome (hashed when long).
func (w *W) Outcome(s string) {
	if w.St.Outcomes == nil {
		w.St.Outcomes = map[string]int64{}
	}
	if len(s) > 60 {
		h := fnv.New64a()
		h.Write([]byte(s))
		s = s[:40] + fmt.Sprintf("..#%x", h.Sum64())
	}
	if _, ok := w.St.Outcomes[s]; ok || len(w.St.Outcomes) < 5000 {
		w.St.Outcomes[s]++
	}
}

// Sample keeps a few written-out cases.
func (w *W) Sample(s string) {
	if len(w.Samples) < 2 {
		w.Samples = append(w.Samples, w.Part+": "+s)
	}
}

// Trans counts transitions (operations applied to the implementation).
func (w *W) Trans(n int) { w.St.Transitions += int64(n) }

// Nontrivial counts one non-trivial case.
func (w *W) Nontrivial() { w.St.Nontrivial++ }

// Note adds a remark to the evidence.
func (w *W) Note(f string, a ...interface{}) {
	if len(w.St.Notes) < 20 {
		w.St.Notes = append(w.St.Notes, fmt.Sprintf(f, a...))
	}
}

// KnownFinding records that a listed finding was observed.
func (w *W) KnownFinding(id string) { w.Known[id]++ }

// Stop tells whether enumeration of this part should end now.
func (w *W) Stop() bool {
	if w.stop {
		return true
	}
	if w.Only < 0 && !w.Deadline.IsZero() && time.Now().After(w.Deadline) {
		w.St.Exhaustive = false
		w.Note("deadline reached after %d cases", w.St.Cases)
		w.stop = true
	}
	return w.stop
}

// Next advances to the next case and tells whether this worker has to run it.
func (w *W) Next() bool {
	if w.stop {
		return false
	}
	i := w.idx
	w.idx++
	if w.Only >= 0 {
		if i > w.Only {
			w.stop = true
		}
		return i == w.Only
	}
	if i%int64(w.N) != int64(w.Slice) {
		return false
	}
	if w.Stop() {
		return false
	}
	return true
}

// Done tells whether the part can stop enumerating.
func (w *W) Done() bool { return w.stop }

// Fail records a violation of the current case.
func (w *W) Fail(cost int, desc, msg string, extra interface{}) {
	var raw json.RawMessage
	if extra != nil {
		raw, _ = json.Marshal(extra)
	}
	w.Viols = append(w.Viols, Viol{Prop: w.Check.Prop, Part: w.Part, Index: w.idx - 1, Cost: cost, Desc: desc, Msg: msg, Extra: raw})
	w.stop = true
}

// Case runs the current case (Next() must have returned true): run returns "" or a violation.
func (w *W) Case(desc func() string, run func() string) {
	w.St.Cases++
	progress(w.Part, w.idx-1)
	msg := guard(run)
	if msg != "" {
		w.Fail(0, desc(), msg, nil)
		return
	}
	if w.St.Cases&(w.St.Cases-1) == 0 && len(w.Samples) < 2 && w.St.Cases > 64 {
		w.Sample(desc())
	}
}

func guard(run func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return run()
}

// Guard runs f and turns a panic into an error text.
func Guard(f func() string) string { return guard(f) }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/rep.go") && !strings.Contains(l, "runtime/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// ---- progress page: survives a crash of the worker ----

var page []byte

func initProgress(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return
	}
	f.Truncate(4096)
	page, _ = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	f.Close()
}

var lastPart string

func progress(part string, idx int64) {
	if page == nil {
		return
	}
	if part != lastPart {
		lastPart = part
		n := copy(page[64:1000], part)
		page[64+n] = 0
	}
	atomic.StoreInt64((*int64)(unsafe.Pointer(&page[0])), idx+1)
	atomic.AddInt64((*int64)(unsafe.Pointer(&page[8])), 1)
}

// Progress marks the case a scheduler scenario is executing.
func (w *W) Progress(extra []byte) {
	progress(w.Part, w.idx-1)
	if page != nil && len(extra) < 2900 {
		n := copy(page[1024:4000], extra)
		page[1024+n] = 0
	}
}

func readProgress(path string) (part string, idx int64, extra string, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 4096 {
		return
	}
	idx = *(*int64)(unsafe.Pointer(&b[0])) - 1
	p := b[64:1000]
	if i := bytes.IndexByte(p, 0); i >= 0 {
		p = p[:i]
	}
	e := b[1024:4000]
	if i := bytes.IndexByte(e, 0); i >= 0 {
		e = e[:i]
	}
	return string(p), idx, string(e), idx >= 0
}

type workerOut struct {
	Parts   map[string]*PartStats `json:"parts"`
	States  int                   `json:"states"`
	Hashes  []uint64              `json:"hashes"`
	Samples []string              `json:"samples"`
	Viols   []Viol                `json:"viols"`
	Known   map[string]int64      `json:"known"`
}

// Main runs the program for one of the given checks.
func Main(checks []*Check) {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	verif := flag.String("verif", "/verif", "verification directory")
	scratch := flag.String("scratch", os.TempDir(), "scratch directory")
	slice := flag.Int("slice", -1, "worker slice")
	n := flag.Int("n", 0, "number of workers")
	out := flag.String("out", "", "worker output")
	prog := flag.String("progress", "", "worker progress page")
	replay := flag.String("replay", "", "replay file")
	budget := flag.Float64("budget", 0, "seconds")
	flag.Parse()
	var ck *Check
	for _, c := range checks {
		if c.Prop == *prop {
			ck = c
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 780
		}
	}
	Scratch = *scratch
	Verif = *verif
	LoadFindings(filepath.Join(*verif, "known_findings.jsonl"))
	if *replay != "" {
		os.Exit(doReplay(ck, *tier, seed, *replay))
	}
	if *slice >= 0 {
		initProgress(*prog)
		worker(ck, *tier, seed, *slice, *n, *out, *budget, *scratch)
		return
	}
	os.Exit(parent(ck, *tier, seed, *verif, *scratch, *budget))
}

// Scratch is a directory the running check may write to; Verif is where the committed files are.
var Scratch, Verif string

func newW(ck *Check, tier string, seed int64, slice, n int, p Part) *W {
	return &W{Check: ck, Tier: tier, Seed: seed, Slice: slice, N: n, Part: p.Name, Only: -1,
		States: map[uint64]struct{}{}, Known: map[string]int64{}, St: PartStats{Exhaustive: true}}
}

func selected(ck *Check, tier string) []Part {
	var ps []Part
	for _, p := range ck.Parts(tier) {
		if p.Thorough && tier != "thorough" {
			continue
		}
		ps = append(ps, p)
	}
	return ps
}

func worker(ck *Check, tier string, seed int64, slice, n int, out string, budget float64, scratch string) {
	start := time.Now()
	ps := selected(ck, tier)
	res := workerOut{Parts: map[string]*PartStats{}, Known: map[string]int64{}}
	hash := map[uint64]struct{}{}
	go watchdog()
	for i, p := range ps {
		w := newW(ck, tier, seed, slice, n, p)
		left := budget - time.Since(start).Seconds()
		share := left / float64(len(ps)-i) * 1.5
		if share > left {
			share = left
		}
		w.Deadline = time.Now().Add(time.Duration(share * float64(time.Second)))
		t0 := time.Now()
		p.Run(w)
		w.St.WallMS = time.Since(t0).Milliseconds()
		res.Parts[p.Name] = &w.St
		for h := range w.States {
			hash[h] = struct{}{}
		}
		res.Samples = append(res.Samples, w.Samples...)
		res.Viols = append(res.Viols, w.Viols...)
		for k, v := range w.Known {
			res.Known[k] += v
		}
		if len(w.Viols) > 0 {
			break
		}
	}
	for h := range hash {
		res.Hashes = append(res.Hashes, h)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// watchdog ends a worker whose current case makes no progress for a long time (a hang in real code).
func watchdog() {
	var last int64 = -1
	idle := 0
	for {
		time.Sleep(time.Second)
		if page == nil {
			return
		}
		cur := atomic.LoadInt64((*int64)(unsafe.Pointer(&page[8])))
		if cur != last || cur == 0 {
			last, idle = cur, 0
			continue
		}
		idle++
		if idle >= 40 {
			fmt.Fprintln(os.Stderr, "HANG: one case made no progress for 40 s")
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			os.Stderr.Write(buf)
			os.Exit(97)
		}
	}
}

func doReplay(ck *Check, tier string, seed int64, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Viol
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	go func() {
		time.Sleep(60 * time.Second)
		fmt.Println("REPLAY: hang")
		os.Exit(1)
	}()
	parts := append([]Part{}, ck.Parts(tier)...) // the case numbers are those of the tier
	for _, p := range append(append(parts, ck.Parts("thorough")...), ck.Parts("quick")...) {
		if p.Name != v.Part {
			continue
		}
		w := newW(ck, tier, seed, 0, 1, p)
		w.Only, w.Extra, w.Verbose = v.Index, v.Extra, true
		p.Run(w)
		if len(w.Viols) > 0 {
			fmt.Printf("REPLAY: %s\ncase: %s\n", w.Viols[0].Msg, w.Viols[0].Desc)
			return 1
		}
		fmt.Println("REPLAY: case passed")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such part", v.Part)
	return 2
}

// Workers is the number of worker processes.
func Workers() int {
	n := runtime.NumCPU()
	if s := os.Getenv("VMC_WORKERS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

func parent(ck *Check, tier string, seed int64, verif, scratch string, budget float64) int {
	start := time.Now()
	n := Workers()
	if ck.Serial {
		n = 1
	}
	self, _ := os.Executable()
	type wres struct {
		out    workerOut
		err    error
		code   int
		stderr string
		prog   string
	}
	rs := make([]wres, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := filepath.Join(scratch, fmt.Sprintf("out.%d", i))
			pg := filepath.Join(scratch, fmt.Sprintf("prog.%d", i))
			wd := filepath.Join(scratch, fmt.Sprintf("w%d", i))
			os.MkdirAll(wd, 0700)
			cmd := exec.Command(self, "-prop", ck.Prop, "-tier", tier, "-slice", strconv.Itoa(i), "-n", strconv.Itoa(n),
				"-out", o, "-progress", pg, "-scratch", wd, "-verif", verif, "-budget", fmt.Sprint(budget))
			var eb tail
			cmd.Stderr = &eb
			cmd.Stdout = &eb
			cmd.Env = childEnv(wd)
			err := cmd.Run()
			rs[i].prog = pg
			rs[i].stderr = eb.String()
			if err != nil {
				rs[i].err = err
				rs[i].code = cmd.ProcessState.ExitCode()
				return
			}
			b, err := os.ReadFile(o)
			if err == nil {
				err = json.Unmarshal(b, &rs[i].out)
			}
			rs[i].err = err
		}(i)
	}
	wg.Wait()

	var viols []Viol
	parts := map[string]*PartStats{}
	hashes := map[uint64]struct{}{}
	known := map[string]int64{}
	var samples []string
	broken := ""
	for i := range rs {
		r := &rs[i]
		if r.err != nil {
			part, idx, extra, ok := readProgress(r.prog)
			if ok {
				v := Viol{Prop: ck.Prop, Part: part, Index: idx, Cost: 1000,
					Msg: "the process crashed or hung (exit " + strconv.Itoa(r.code) + "): " + crashLine(r.stderr), Desc: "see replay"}
				if extra != "" {
					v.Extra = json.RawMessage(extra)
				}
				viols = append(viols, v)
			} else {
				broken = fmt.Sprintf("worker %d: %v\n%s", i, r.err, r.stderr)
			}
			continue
		}
		for name, st := range r.out.Parts {
			p := parts[name]
			if p == nil {
				c := *st
				parts[name] = &c
				continue
			}
			p.Cases += st.Cases
			p.Nontrivial += st.Nontrivial
			p.Transitions += st.Transitions
			p.Exhaustive = p.Exhaustive && st.Exhaustive
			if st.Bound != "" && (p.Bound == "" || st.Bound < p.Bound) {
				p.Bound = st.Bound
			}
			for k, v := range st.Outcomes {
				if p.Outcomes == nil {
					p.Outcomes = map[string]int64{}
				}
				p.Outcomes[k] += v
			}
			if len(p.Notes) < 10 {
				p.Notes = append(p.Notes, st.Notes...)
			}
			if st.WallMS > p.WallMS {
				p.WallMS = st.WallMS
			}
		}
		for _, h := range r.out.Hashes {
			hashes[h] = struct{}{}
		}
		for k, v := range r.out.Known {
			known[k] += v
		}
		if len(samples) < 6 {
			samples = append(samples, r.out.Samples...)
		}
		viols = append(viols, r.out.Viols...)
	}
	sort.SliceStable(viols, func(i, j int) bool {
		if viols[i].Cost != viols[j].Cost {
			return viols[i].Cost < viols[j].Cost
		}
		return viols[i].Index < viols[j].Index
	})
	confirmed := 0
	var unstable []string
	replayPath := ""
	var cv *Viol
	rdir := filepath.Join(verif, "evidence", "replay")
	for i := range viols {
		if i >= 3 {
			break
		}
		v := viols[i]
		os.MkdirAll(rdir, 0755)
		// confirmed from the scratch folder: another run may be writing to rdir
		rp := filepath.Join(scratch, fmt.Sprintf("replay%d.json", i))
		b, _ := json.MarshalIndent(v, "", " ")
		b = append(b, '\n')
		os.WriteFile(rp, b, 0644)
		times, tries := 5, 5
		if v.Cost == 1000 {
			times, tries = 3, 3
		}
		if ck.Loose {
			times, tries = 2, 12
		}
		ok := 0
		for k := 0; k < tries && ok < times; k++ {
			wd := filepath.Join(scratch, fmt.Sprintf("r%d_%d", i, k))
			os.MkdirAll(wd, 0700)
			cmd := exec.Command(self, "-prop", ck.Prop, "-tier", tier, "-replay", rp, "-scratch", wd, "-verif", verif)
			cmd.Env = childEnv(wd)
			o, err := cmd.CombinedOutput()
			if err != nil && cmd.ProcessState.ExitCode() != 2 || err != nil && bytes.Contains(o, []byte("fatal error")) ||
				err != nil && bytes.Contains(o, []byte("panic:")) {
				ok++
			} else if !ck.Loose {
				break
			}
		}
		if ok == times {
			confirmed++
			if cv == nil {
				replayPath = filepath.Join(rdir, fmt.Sprintf("%s-%d.json", ck.Prop, i))
				os.WriteFile(replayPath, b, 0644)
				cv = &viols[i]
			}
			break
		}
		unstable = append(unstable, fmt.Sprintf("part %s case %d reproduced %d/%d: %s", v.Part, v.Index, ok, times, v.Msg))
	}

	// evidence
	var cases, trans, nontriv int64
	exh := true
	distinct := 0
	names := make([]string, 0, len(parts))
	for name, p := range parts {
		names = append(names, name)
		cases += p.Cases
		trans += p.Transitions
		nontriv += p.Nontrivial
		exh = exh && p.Exhaustive
		distinct += len(p.Outcomes)
	}
	sort.Strings(names)
	type po struct {
		Name       string   `json:"part"`
		Cases      int64    `json:"executions"`
		Trans      int64    `json:"transitions"`
		Outcomes   int      `json:"distinct_outcomes"`
		TopOut     []string `json:"most_common_outcomes,omitempty"`
		Exhaustive bool     `json:"exhaustive"`
		Bound      string   `json:"completed_bound,omitempty"`
		Notes      []string `json:"notes,omitempty"`
		WallMS     int64    `json:"wall_ms"`
	}
	var pos []po
	for _, nme := range names {
		p := parts[nme]
		var top []string
		for k := range p.Outcomes {
			top = append(top, k)
		}
		sort.Slice(top, func(i, j int) bool {
			if p.Outcomes[top[i]] != p.Outcomes[top[j]] {
				return p.Outcomes[top[i]] > p.Outcomes[top[j]]
			}
			return top[i] < top[j]
		})
		if len(top) > 4 {
			top = top[:4]
		}
		for i := range top {
			top[i] = fmt.Sprintf("%s (%d)", top[i], p.Outcomes[top[i]])
		}
		pos = append(pos, po{nme, p.Cases, p.Transitions, len(p.Outcomes), top, p.Exhaustive, p.Bound, p.Notes, p.WallMS})
	}
	cov := map[string]interface{}{
		"evaluations": cases, "transitions": trans, "states": len(hashes), "distinct_nontrivial": nontriv,
		"traces_validated_against_impl": cases, "rule": ck.Rule, "samples": samples, "exhaustive": exh,
		"distinct_outcomes": distinct, "parts": pos,
	}
	if nontriv == 0 {
		cov["distinct_nontrivial"] = distinct
	}
	if len(unstable) > 0 {
		cov["unconfirmed"] = unstable
	}
	if len(known) > 0 {
		cov["known_findings_observed"] = known
	}
	ev := map[string]interface{}{
		"property": ck.Prop, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": round(time.Since(start).Seconds()), "violations": confirmed,
	}
	if ck.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", ck.Prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.Prop, Findings[k])
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d states, exhaustive=%v, %.1fs\n",
		ck.Prop, tier, cases, trans, len(hashes), exh, time.Since(start).Seconds())
	for _, u := range unstable {
		fmt.Println("unconfirmed:", u)
	}
	if cv != nil {
		fmt.Printf("part %s, case %d: %s\n%s\n", cv.Part, cv.Index, cv.Desc, cv.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.Prop, replayPath)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, broken)
		return 3
	}
	return 0
}

func childEnv(dir string) []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "TMPDIR=") || strings.HasPrefix(e, "GOMAXPROCS=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "TMPDIR="+dir, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "HANG") {
			return l
		}
	}
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// tail keeps the beginning and the end of what is written to it.
type tail struct {
	mu   sync.Mutex
	head []byte
	end  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if len(t.head) < 1<<15 {
		k := 1<<15 - len(t.head)
		if k > len(p) {
			k = len(p)
		}
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.end = append(t.end, p...)
	if len(t.end) > 1<<15 {
		t.end = t.end[len(t.end)-1<<15:]
	}
	return n, nil
}

func (t *tail) String() string { return string(t.head) + string(t.end) }

// Findings maps ids of known findings to their descriptions (loaded from known_findings.jsonl).
var Findings = map[string]string{}

// LoadFindings reads /verif/known_findings.jsonl.
func LoadFindings(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var f struct{ Id, Kind, What string }
		if json.Unmarshal([]byte(l), &f) == nil && f.Kind == "finding" {
			Findings[f.Id] = f.What
		}
	}
}

// IsKnown tells whether a finding id is listed.
func IsKnown(id string) bool { _, ok := Findings[id]; return ok }
