// Package expl explores the schedules of a scenario up to a bound on deviations from the default schedule.
package expl

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"vmc/mc"
	"vmc/rep"
)

// Scen is one scenario.
type Scen struct {
	Body   func() string // main thread; returns the observed outcome
	Bases  []int         // base orders
	Dev    int           // deviations explored exhaustively, when the time allows
	Max    int64         // executions per base and worker (0: no limit)
	Race   bool          // report data races
	Slices int           // every time slice up to this many operations, in each of the four base orders
	Low    int           // deviations explored with each thread in turn having the lowest priority (0: none, only those schedules)
	Cap    int           // deviations at positions beyond this are not considered (0: no limit)
}

type extra struct {
	Base int      `json:"base"`
	Devs []mc.Dev `json:"devs"`
	Q    int      `json:"quantum,omitempty"`
	Low  int      `json:"low,omitempty"`
}

type node struct {
	devs []mc.Dev
	alts []uint8
	from int
}

type exp struct {
	w        *rep.W
	s        *Scen
	diverged int64
	races    raceLog
	n        int64
	low      int // thread of lowest priority + 1, or 0
}

// Run explores the scenario on behalf of one worker.
func Run(w *rep.W, s Scen) {
	runtime.GOMAXPROCS(1)
	x := &exp{w: w, s: &s}
	if w.Only >= 0 {
		var e extra
		if json.Unmarshal(w.Extra, &e) != nil {
			fmt.Fprintln(os.Stderr, "replay without schedule")
			return
		}
		w.Next()
		if w.Verbose {
			x.runL(e.Base, e.Low, e.Devs, e.Q, true)
			if len(w.Viols) > 0 {
				return
			}
		}
		x.runL(e.Base, e.Low, e.Devs, e.Q, false)
		return
	}
	w.Next()
	if len(s.Bases) == 0 {
		s.Bases = []int{0}
	}
	bound := s.Dev
	if s.Slices == 0 {
		s.Slices = 30
		if w.Tier == "thorough" {
			s.Slices = 150
		}
	}
	if w.Tier == "thorough" && s.Low == 0 {
		s.Low = 1
	}
	var roots []node
	threads := 0
	for bi, b := range s.Bases {
		r := x.run(b, nil, false)
		if w.Slice == 0 {
			w.St.Cases++
			x.stat(r)
		}
		if r.Viol != "" {
			w.St.Bound = fmt.Sprintf("%d deviations", 0)
			return
		}
		if w.Slice == 0 && bi == 0 {
			w.Sample(fmt.Sprintf("default schedule: %d steps, %d decision points, %d threads", r.Steps, len(r.Alts), r.Threads))
		}
		roots = append(roots, node{nil, r.Alts, 0})
		if r.Threads > threads {
			threads = r.Threads
		}
	}
	qs := 0
	for q := 1; q <= s.Slices; q++ {
		for b := 0; b < 4; b++ {
			qs++
			if qs%w.N != w.Slice || w.Stop() {
				continue
			}
			r := x.runQ(b, nil, q, false)
			w.St.Cases++
			x.stat(r)
			if r.Viol != "" {
				w.St.Bound = fmt.Sprintf("%d deviations", 0)
				return
			}
		}
	}
	// every thread in turn has the lowest priority
	type lowRoot struct {
		base, low int
		alts      []uint8
	}
	var lows []lowRoot
	lowDone := true
	qs = 0
	lowBases := []int{0, 1, 2, 3, 4, 5, 8, 9, 10, 11} // 8 and more: yields without effect
	for l := 0; l <= threads; l++ {
		for _, b := range lowBases {
			qs++
			if qs%w.N != w.Slice {
				continue
			}
			if w.Stop() {
				lowDone = false
				continue
			}
			r := x.runL(b, l, nil, 0, false)
			w.St.Cases++
			x.stat(r)
			if r.Viol != "" {
				w.St.Bound = fmt.Sprintf("%d deviations", 0)
				return
			}
			if s.Low > 0 {
				lows = append(lows, lowRoot{b, l, append([]uint8(nil), r.Alts...)})
			}
		}
	}
	for d := 1; d <= s.Dev; d++ {
		for bi, b := range s.Bases {
			var next []node
			done := x.level(b, roots[bi], d, &next)
			if len(w.Viols) > 0 {
				w.St.Bound = fmt.Sprintf("%d deviations", d-1)
				return
			}
			if !done {
				w.St.Exhaustive = false
				if d-1 < bound {
					bound = d - 1
				}
			}
		}
		if bound < d {
			break
		}
	}
	for d := 1; d <= s.Low; d++ {
		for _, r := range lows {
			x.low = r.low
			done := x.levelAll(r.base, r.alts, d)
			x.low = 0
			if len(w.Viols) > 0 {
				w.St.Bound = fmt.Sprintf("%d deviations", 0)
				return
			}
			lowDone = lowDone && done
		}
	}
	if !lowDone {
		w.Note("the time did not suffice for every schedule with a thread of lowest priority")
	}
	w.St.Bound = fmt.Sprintf("%d deviations", bound)
	if s.Slices > 0 {
		w.St.Bound += fmt.Sprintf(", time slices of 1 to %d operations", s.Slices)
	}
	if lowDone {
		w.St.Bound += fmt.Sprintf(", each thread starved with %d deviations", s.Low)
	}
	if x.diverged > 0 {
		w.Note("%d executions diverged from their schedule and were not judged by it", x.diverged)
	}
}

// level runs every schedule with exactly d deviations whose first deviation belongs to this worker.
func (x *exp) level(base int, root node, d int, _ *[]node) bool {
	w := x.w
	i := 0
	start := x.n
	for p := 0; p < len(root.alts); p++ {
		if x.s.Cap > 0 && p >= x.s.Cap {
			break
		}
		for a := 0; a < int(root.alts[p]); a++ {
			i++
			if i%w.N != w.Slice {
				continue
			}
			if !x.dfs(base, []mc.Dev{{P: p, A: a}}, d, start) {
				return false
			}
			if len(w.Viols) > 0 {
				return true
			}
		}
	}
	return true
}

// levelAll runs every schedule with exactly d deviations.
func (x *exp) levelAll(base int, alts []uint8, d int) bool {
	start := x.n
	for p := 0; p < len(alts); p++ {
		for a := 0; a < int(alts[p]); a++ {
			if !x.dfs(base, []mc.Dev{{P: p, A: a}}, d, start) {
				return false
			}
			if len(x.w.Viols) > 0 {
				return true
			}
		}
	}
	return true
}

func (x *exp) dfs(base int, devs []mc.Dev, d int, start int64) bool {
	w := x.w
	if w.Stop() || x.s.Max > 0 && x.n-start > x.s.Max {
		return false
	}
	r := x.run(base, devs, false)
	if len(devs) == d {
		w.St.Cases++
		x.n++
		x.stat(r)
	}
	if len(w.Viols) > 0 || r.Diverged || len(devs) == d {
		return true
	}
	alts := append([]uint8(nil), r.Alts...)
	last := devs[len(devs)-1].P
	for p := last + 1; p < len(alts); p++ {
		if x.s.Cap > 0 && p >= x.s.Cap {
			break
		}
		for a := 0; a < int(alts[p]); a++ {
			nd := append(append(make([]mc.Dev, 0, len(devs)+1), devs...), mc.Dev{P: p, A: a})
			if !x.dfs(base, nd, d, start) {
				return false
			}
			if len(w.Viols) > 0 {
				return true
			}
		}
	}
	return true
}

func (x *exp) stat(r *mc.Result) {
	x.w.Trans(r.Steps)
	x.w.StateHash(r.Trace)
}

func (x *exp) run(base int, devs []mc.Dev, log bool) *mc.Result { return x.runQ(base, devs, 0, log) }

func (x *exp) runQ(base int, devs []mc.Dev, q int, log bool) *mc.Result {
	return x.runL(base, x.low, devs, q, log)
}

func (x *exp) runL(base, low int, devs []mc.Dev, q int, log bool) *mc.Result {
	w := x.w
	e := extra{base, devs, q, low}
	raw, _ := json.Marshal(e)
	w.Progress(raw)
	before := mc.RaceErrors()
	out := ""
	r := mc.Run(mc.Config{Devs: devs, Base: base, Quantum: q, Low: low, Log: log}, func() { out = x.s.Body() })
	if x.s.Race && mc.RaceErrors() > before && r.Viol == "" {
		if m := x.races.genuine(); m != "" {
			r.Viol = m
		}
	}
	if log {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	if r.Diverged && len(devs) > 0 {
		x.diverged++
	}
	if r.Viol != "" {
		what := fmt.Sprintf("base order %d, deviations %v", base, devs)
		if q > 0 {
			what = fmt.Sprintf("base order %d, a switch after every %d operations", base, q)
		}
		if low > 0 {
			what += fmt.Sprintf(", thread %d starved", low-1)
		}
		w.Fail(len(devs), what, r.Viol, e)
		return r
	}
	if out != "" {
		w.Outcome(out)
		w.Nontrivial()
	}
	return r
}

// ---- race reports ----

type raceLog struct {
	off int64
}

// genuine reads the new reports and returns the first one between two accesses of the program itself.
func (l *raceLog) genuine() string {
	path := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			path = strings.TrimPrefix(f, "log_path=") + "." + fmt.Sprint(os.Getpid())
		}
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	if l.off > int64(len(b)) {
		l.off = 0
	}
	txt := string(b[l.off:])
	l.off = int64(len(b))
	for _, rp := range strings.Split(txt, "==================") {
		if !strings.Contains(rp, "DATA RACE") {
			continue
		}
		if m := parseRace(rp); m != "" {
			return m
		}
	}
	return ""
}

// parseRace returns a description of the two accesses, or "" when one of them belongs to the harness.
func parseRace(rp string) string {
	lines := strings.Split(rp, "\n")
	var acc []string
	for i := 0; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		isAcc := false
		for _, p := range []string{"Read at", "Write at", "Previous read at", "Previous write at", "Atomic", "Previous atomic"} {
			if strings.HasPrefix(l, p) {
				isAcc = true
			}
		}
		if !isAcc {
			continue
		}
		// frames: function line, position line; the innermost frame of the program or the harness decides
		where, fn := "", ""
		for j := i + 1; j+1 < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
			f := strings.TrimSpace(lines[j])
			if strings.HasPrefix(f, "vmc/mc.") && (j == i+1 || !strings.HasPrefix(strings.TrimSpace(lines[j-2]), "sync/atomic.")) {
				// an access made inside the scheduler (the runtime and the standard library report accesses to its
				// tables although it is built without race instrumentation) is not one of the program's, except for
				// the atomic operations it passes on
				return ""
			}
			if strings.HasPrefix(f, "github.com/") || strings.HasPrefix(f, "main.") || strings.HasPrefix(f, "vmc/") && !strings.HasPrefix(f, "vmc/mc.") {
				fn, where = f, strings.TrimSpace(lines[j+1])
				break
			}
		}
		if fn == "" || strings.HasPrefix(fn, "vmc/") || strings.HasPrefix(fn, "main.") && !strings.HasPrefix(fn, "main.touch") {
			return ""
		}
		if k := strings.Index(where, " +0x"); k > 0 {
			where = where[:k]
		}
		if k := strings.LastIndex(where, "/src/"); k >= 0 {
			where = where[k+5:]
		} else {
			where = filepath.Base(where)
		}
		kind := strings.Fields(strings.TrimPrefix(l, "Previous "))[0]
		acc = append(acc, strings.ToLower(kind)+" in "+fn+" "+where)
	}
	if len(acc) < 2 {
		return ""
	}
	return "data race: " + acc[0] + " / " + acc[1]
}
