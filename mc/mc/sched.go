// Package mc is a controlled scheduler: instrumented code runs on real goroutines of which exactly one
// runs at a time, and every synchronisation operation is a scheduling point. An execution is determined
// by a base order and a list of deviations from the default schedule.
package mc

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Dev is one deviation: at decision point P take alternative A (0-based among the non-default ones).
type Dev struct {
	P int `json:"p"`
	A int `json:"a"`
}

// op kinds
const (
	kRun = iota
	kBlock
	kYield
	kSleep
)

type thread struct {
	id      int
	wake    chan struct{}
	kind    int
	ready   func() bool   // first-class enabledness of the pending operation (nil: enabled)
	late    func() bool   // second-class enabledness (undue timers)
	due     time.Duration // for sleepers and waiters for a timer
	seen    uint64        // progress of the others when it last returned from a yield
	own     uint64        // its own part of the progress
	recvs   []recvWait    // unbuffered receives this thread waits in
	arrival uint64
	got     bool // a rendezvous completed the pending receive
	gotCase int
	pos     int    // in the list of threads
	courier func() // executed by the receiver on behalf of a rendezvous
	consec  int
	skips   int  // yields without effect
	demoted bool // runs only when nobody else can, or after the others have spun for a while
	till    int
	dead    bool
	what    string
	stack   string
}

type recvWait struct {
	ch   chanKey
	idx  int
	take func()
}

type exec struct {
	threads   []*thread
	cur       *thread
	main      *thread
	devs      []Dev
	nextDev   int
	alts      []uint8
	exploring bool
	lazy      bool
	low       int // id of the thread of lowest priority, or -1
	steps     int
	maxSteps  int
	progress  uint64
	seq       uint64
	abort     bool
	base      int
	quantum   int
	fin       chan struct{}
	exited    chan struct{}
	res       Result
	now       time.Duration
	trace     uint64
	ended     byte
	log       []string
	keepLog   bool
	diverged  bool
	spins     int
	yields    int
	timers    map[chanKey]*Timer
	retired   []*thread // never run again
	spawned   int
}

// Result is what one execution did.
type Result struct {
	Alts     []uint8 // alternatives at every decision point
	Steps    int
	Viol     string // "" or what went wrong (panic, fatal, deadlock, livelock)
	Trace    uint64 // hash of the schedule
	Diverged bool
	Log      []string
	Threads  int
}

var e *exec

// Epoch identifies the current execution; state of locks left over from an earlier one is void.
var Epoch uint64

// Active tells whether the caller runs under the scheduler.
func Active() bool { return e != nil }

// Aborting tells whether the execution is being torn down.
func Aborting() bool { return e != nil && e.abort }

// Config of one execution.
type Config struct {
	Devs     []Dev
	Base     int // order used when the current thread blocks: 0 round robin up, 1 round robin down, 2 newest first, 3 oldest first; 4 and 5: at every point the oldest or newest that can run, the main thread last; 8 more: a thread that yields goes on with its own work three times out of four
	MaxSteps int
	Quantum  int // if positive, a thread is preempted after this many operations
	Low      int // if positive, thread Low-1 runs only when all others are blocked or spinning, from the start of the exploration
	Log      bool
}

// Run executes body under the scheduler; body is thread 0. The remaining threads are discarded when it returns.
func Run(cfg Config, body func()) *Result {
	if e != nil {
		panic("mc: nested Run")
	}
	Epoch++
	x := &exec{devs: cfg.Devs, base: cfg.Base & 7, low: cfg.Low - 1, lazy: cfg.Base >= 8, maxSteps: cfg.MaxSteps, fin: make(chan struct{}, 1),
		exited: make(chan struct{}, 1), keepLog: cfg.Log, trace: 14695981039346656037, timers: map[chanKey]*Timer{}}
	if x.quantum = cfg.Quantum; x.quantum <= 0 {
		x.quantum = 200
	}
	if x.maxSteps == 0 {
		x.maxSteps = 30000
	}
	e = x
	x.main = spawn(body)
	x.cur = x.main
	raceDisable()
	x.main.wake <- struct{}{}
	raceEnable()
	<-x.fin
	raceDisable()
	// tear down
	x.abort = true
	for _, t := range append(x.threads, x.retired...) {
		if !t.dead {
			t.wake <- struct{}{}
			<-x.exited
		}
	}
	raceEnable()
	raceAcquire(&x.ended) // an execution is over for the next one
	e = nil
	r := x.res
	r.Alts = x.alts
	r.Steps = x.steps
	r.Trace = x.trace
	r.Diverged = x.diverged || x.nextDev < len(x.devs) && r.Viol == ""
	r.Log = x.log
	r.Threads = x.spawned
	return &r
}

func spawn(f func()) *thread {
	x := e
	t := &thread{id: x.spawned, pos: len(x.threads), wake: make(chan struct{}, 1), kind: kRun}
	x.spawned++
	x.threads = append(x.threads, t)
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		defer func() {
			r := recover()
			raceRelease(&x.ended)
			raceDisable()
			t.dead = true
			if x.abort {
				x.exited <- struct{}{}
				return
			}
			if r != nil {
				x.fail(fmt.Sprintf("panic: %v [%s]", r, trimStack(string(debug.Stack()))))
				return
			}
			if t == x.main {
				raceEnable() // what the body left is handed to the caller of Run
				x.fin <- struct{}{}
				return
			}
			x.step(t)
			x.drop(t)
			x.next(t)
		}()
		if x.abort {
			return
		}
		f()
	}()
	return t
}

// drop removes a thread that ended from the list; the others keep their order.
func (x *exec) drop(t *thread) {
	copy(x.threads[t.pos:], x.threads[t.pos+1:])
	x.threads[len(x.threads)-1] = nil
	x.threads = x.threads[:len(x.threads)-1]
	for i := t.pos; i < len(x.threads); i++ {
		x.threads[i].pos = i
	}
}

// retire takes a waiting thread out for good.
func (x *exec) retire(t *thread) {
	x.drop(t)
	x.retired = append(x.retired, t)
}

func (x *exec) fail(msg string) {
	if x.res.Viol == "" {
		x.res.Viol = msg
	}
	x.fin <- struct{}{}
}

// next hands control from t (dead or blocked, not running) to the chosen thread.
func (x *exec) next(t *thread) {
	n := x.choose(t)
	if n == nil {
		return
	}
	x.cur = n
	n.wake <- struct{}{}
}

// point is called by the running thread with its pending operation set; it returns when the thread may perform it.
func (x *exec) point(t *thread) {
	n := x.choose(t)
	if n == t {
		return
	}
	raceDisable()
	if n != nil {
		x.cur = n
		n.wake <- struct{}{}
	}
	<-t.wake
	for t.courier != nil && !x.abort {
		// take part in a rendezvous while the sender runs
		f := t.courier
		t.courier = nil
		raceEnable()
		f()
		raceDisable()
		<-t.wake
	}
	raceEnable()
	if x.abort {
		runtime.Goexit()
	}
}

func (x *exec) class(t *thread) int {
	if t.dead {
		return 0
	}
	switch t.kind {
	case kYield:
		if x.progress-t.own != t.seen {
			return 2
		}
		return 0
	case kSleep:
		if x.now >= t.due {
			return 1
		}
		return 3
	}
	if t.ready == nil || t.ready() {
		return 1
	}
	if t.late != nil && t.late() {
		return 3
	}
	return 0
}

// order returns the k-th thread to consider after t.
func (x *exec) order(t *thread, k int) *thread {
	n := len(x.threads)
	switch x.base {
	case 1:
		return x.threads[((t.pos-1-k)%n+n)%n]
	case 2:
		return x.threads[n-1-k]
	case 3:
		return x.threads[k]
	case 4:
		return x.threads[(k+1)%n]
	case 5:
		return x.threads[(n-k)%n]
	}
	if t.dead {
		k--
	}
	return x.threads[(t.pos+1+k)%n]
}

func (x *exec) choose(t *thread) *thread {
	if x.abort {
		return nil
	}
	x.steps++
	if x.steps > x.maxSteps {
		x.fail(fmt.Sprintf("no end after %d steps (livelock)", x.maxSteps))
		return nil
	}
	n := len(x.threads)
	var def *thread
	ct := x.class(t)
	if ct == 1 && t.consec < x.quantum && !t.demoted && x.base < 4 && !x.lowest(t) {
		def = t
	}
	var first, second, third [64]*thread
	nf, n2, n3 := 0, 0, 0
	var low *thread
	for k := 0; k < n; k++ {
		o := x.order(t, k)
		if o.demoted {
			if x.yields < o.till {
				continue
			}
			o.demoted = false
		}
		switch x.class(o) {
		case 1:
			if x.lowest(o) {
				low = o
			} else if nf < 64 {
				first[nf] = o
				nf++
			}
		case 2:
			if n2 < 64 {
				second[n2] = o
				n2++
			}
		case 3:
			if n3 < 64 {
				third[n3] = o
				n3++
			}
		}
	}
	if low != nil && nf < 64 {
		first[nf] = low
		nf++
	}
	if x.lazy && x.exploring && t.kind == kYield && !t.dead && !t.demoted && def == nil {
		if t.skips < 3 && n2 < 64 {
			t.skips++
			def = t
			if ct == 0 {
				second[n2] = t
				n2++
			}
		} else {
			t.skips = 0
		}
	}
	if def == nil {
		for k := 0; k < nf; k++ {
			if first[k] != t {
				def = first[k]
				break
			}
		}
		if def == nil && nf > 0 {
			def = first[0]
		}
		if def == nil && n2 > 0 {
			def = second[0]
			if def == t && n2 > 1 {
				def = second[1]
			}
		}
		if def == nil && n3 > 0 {
			def = third[0]
			for k := 1; k < n3; k++ {
				if x.dueOf(third[k]) < x.dueOf(def) {
					def = third[k]
				}
			}
		}
	}
	if def == nil {
		for pass := 1; pass <= 3 && def == nil; pass++ {
			for k := 0; k < n && def == nil; k++ {
				if o := x.order(t, k); o.demoted && x.class(o) == pass {
					def = o
					o.demoted = false
				}
			}
		}
	}
	if def != nil {
		if def.kind != kYield {
			x.spins = 0
		}
	} else if x.spins < 300 {
		// spinning threads may still change something themselves
		for k := 0; k < n && def == nil; k++ {
			if o := x.order(t, k); !o.dead && o.kind == kYield {
				def = o
				x.spins++
			}
		}
	}
	if def == nil {
		x.stuck()
		return nil
	}
	choice := def
	if x.exploring {
		na := nf + n2 + n3 - 1
		if x.spins > 0 {
			na = 0
		}
		if na > 0 {
			p := len(x.alts)
			// the last alternative starves the default thread until nobody else can run
			x.alts = append(x.alts, uint8(na+1))
			if x.nextDev < len(x.devs) && x.devs[x.nextDev].P == p {
				a := x.devs[x.nextDev].A
				x.nextDev++
				if a > na {
					x.diverged = true
				} else if a == na {
					def.demoted, def.till = true, x.yields+25
					choice = pick(def, 0, first[:nf], second[:n2], third[:n3])
				} else {
					choice = pick(def, a, first[:nf], second[:n2], third[:n3])
				}
			}
		}
	}
	x.trace = (x.trace ^ uint64(choice.id+1)) * 1099511628211
	if choice == t {
		t.consec++
	} else {
		choice.consec = 0
		if x.keepLog {
			x.log = append(x.log, fmt.Sprintf("thread %d at %s", choice.id, choice.what))
		}
	}
	if choice.kind == kSleep && x.now < choice.due {
		x.now = choice.due
	}
	if choice.kind != kYield {
		x.step(choice)
	} else {
		choice.seen = x.progress - choice.own
		x.yields++
	}
	return choice
}

// lowest tells whether t has the lowest priority of all.
func (x *exec) lowest(t *thread) bool { return x.low >= 0 && t.id == x.low && x.exploring }

// step counts progress made by t.
func (x *exec) step(t *thread) {
	x.progress++
	t.own++
}

func (x *exec) dueOf(t *thread) time.Duration {
	return t.due
}

func pick(def *thread, a int, ls ...[]*thread) *thread {
	for _, l := range ls {
		for _, t := range l {
			if t == def {
				continue
			}
			if a == 0 {
				return t
			}
			a--
		}
	}
	return def
}

// Choose is an explicit decision among n alternatives (0 is the default).
func Choose(n int) int {
	if e == nil || n <= 1 || !e.exploring {
		return 0
	}
	x := e
	p := len(x.alts)
	x.alts = append(x.alts, uint8(n-1))
	if x.nextDev < len(x.devs) && x.devs[x.nextDev].P == p {
		a := x.devs[x.nextDev].A
		x.nextDev++
		if a >= n-1 {
			x.diverged = true
			return 0
		}
		x.trace = (x.trace ^ uint64(1000+a)) * 1099511628211
		return a + 1
	}
	return 0
}

func (x *exec) stuck() {
	var b strings.Builder
	spin := false
	for _, t := range x.threads {
		if t.dead {
			continue
		}
		if t.kind == kYield {
			spin = true
		}
		if t == x.main || t.kind == kYield || !strings.HasPrefix(t.what, "receive") {
			fmt.Fprintf(&b, "; thread %d at %s", t.id, t.what)
		}
	}
	if spin {
		x.fail("livelock: threads only wait for each other in a spin loop" + b.String())
	} else {
		x.fail("deadlock: no thread can run" + b.String())
	}
}

// Explore switches the recording of decision points on or off (set-up phases run with the default schedule).
func Explore(on bool) {
	if e != nil {
		e.exploring = on
	}
}

// Go starts a thread.
func Go(f func()) {
	if e == nil {
		go f()
		return
	}
	if e.abort {
		return
	}
	x, t := e, e.cur
	spawn(f)
	x.step(t)
	t.set("go statement")
	x.point(t)
}

func (t *thread) set(what string) {
	t.kind, t.ready, t.late, t.what = kRun, nil, nil, what
	t.recvs = nil
	t.got = false
}

// Point is a plain scheduling point.
func Point(what string) {
	if e == nil || e.abort {
		return
	}
	t := e.cur
	t.set(what)
	e.point(t)
}

// Block waits until ready holds.
func Block(what string, ready func() bool) {
	if e == nil || e.abort {
		return
	}
	t := e.cur
	t.set(what)
	t.kind, t.ready = kBlock, ready
	e.point(t)
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if e == nil {
		runtime.Gosched()
		return
	}
	if e.abort {
		runtime.Goexit()
	}
	t := e.cur
	t.set("yield")
	t.kind = kYield
	e.point(t)
}

// Fatal stands for the end of the process (log.Fatal, os.Exit).
func Fatal(what string) {
	if e == nil {
		panic("fatal: " + what)
	}
	if e.abort {
		runtime.Goexit()
	}
	x, t := e, e.cur
	raceDisable()
	x.fail("the process was terminated: " + what)
	<-t.wake
	raceEnable()
	runtime.Goexit()
}

// Fail reports a violation from a harness thread.
func Fail(msg string) {
	x, t := e, e.cur
	if x.abort {
		runtime.Goexit()
	}
	raceDisable()
	x.fail(msg)
	<-t.wake
	raceEnable()
	runtime.Goexit()
}

// ThreadID of the running thread.
func ThreadID() int {
	if e == nil {
		return -1
	}
	return e.cur.id
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/mc/mc/") && !strings.Contains(l, "runtime/") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, "/src/"); i > 0 {
				l = l[i+5:]
			}
			out = append(out, l)
		}
		if len(out) == 5 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// Hash is a helper for outcome digests.
func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}
