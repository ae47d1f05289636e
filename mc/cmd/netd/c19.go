package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	hb "github.com/go-ego/riot/net/heartb"
	"golang.org/x/net/context"
	"google.golang.org/grpc"

	"vmc/expl"
	"vmc/mc"
	"vmc/rep"
)

// beat is a heartbeat service that follows a script.
type beat struct {
	gnode
	mu     sync.Mutex
	script []byte // H healthy, 0 result 0, 2 result 2, - result -1, E error, U unavailable
	k      int    // requests answered
}

// seen is what was visible after k replies, once nothing but the clock could go on.
type seen struct {
	k, health int
	dirs      []string
}

func (b *beat) HeartBeat(ctx context.Context, in *pb.HeartReq) (*pb.Reply, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if in.Msg != 1 {
		return nil, errors.New("unexpected request")
	}
	c := byte('H')
	if b.k < len(b.script) {
		c = b.script[b.k]
	}
	b.k++
	switch c {
	case '0':
		return &pb.Reply{Result: 0}, nil
	case '2':
		return &pb.Reply{Result: 2}, nil
	case '-':
		return &pb.Reply{Result: -1}, nil
	case 'E':
		return nil, errors.New("failure")
	case 'U':
		return nil, grpc.Errorf(14, "unavailable")
	}
	return &pb.Reply{Result: 1}, nil
}

func (b *beat) answered() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.k
}

func (b *beat) done() bool { return b.answered() > len(b.script) }

var theBeat *beat
var beatAddr string

func startBeat() {
	if theBeat != nil {
		return
	}
	l, a := listen()
	theBeat, beatAddr = &beat{}, a
	s := grpc.NewServer()
	pb.RegisterGreeterServer(s, theBeat)
	go s.Serve(l)
}

func health() int {
	w := httptest.NewRecorder()
	hb.Health(w, httptest.NewRequest("GET", "/health", nil))
	var r struct{ Code, Health int }
	if w.Code != 200 || json.Unmarshal(w.Body.Bytes(), &r) != nil {
		return -1000
	}
	return r.Health
}

// world is a scratch directory with the log of the restart command.
type world struct {
	base, dir, log, cmd string
	abs                 string // where the command has to run
	runs                bool   // the command can be started at all
}

var worldN int

// home is the directory of this process.
var home = func() string {
	d, _ := os.Getwd()
	if p, err := filepath.EvalSymlinks(d); err == nil {
		return p
	}
	return d
}()

func newWorld(mode string) *world {
	worldN++
	x := &world{base: filepath.Join(rep.Scratch, fmt.Sprintf("hb%d", worldN)), runs: true}
	if p, err := filepath.EvalSymlinks(rep.Scratch); err == nil {
		x.base = filepath.Join(p, fmt.Sprintf("hb%d", worldN))
	}
	x.dir = filepath.Join(x.base, "service")
	x.log = filepath.Join(x.base, "log")
	os.MkdirAll(x.dir, 0700)
	code := "0"
	switch mode {
	case "fails":
		code = "3"
	case "no directory":
		x.dir = filepath.Join(x.base, "missing")
		x.runs = false
	}
	x.abs = x.dir
	switch mode {
	case "relative directory":
		x.dir, _ = filepath.Rel(home, x.dir)
	case "unnamed directory": // the one of this process
		x.dir, x.abs = "", home
	}
	x.cmd = fmt.Sprintf("pwd >> '%s'; exit %s", x.log, code)
	return x
}

func (x *world) dirs() []string {
	b, _ := os.ReadFile(x.log)
	return strings.Fields(string(b))
}

// beats runs the heartbeat against the script until it has asked once more than the script is long.
func beats(x *world, script string) (obs []seen) {
	b := theBeat
	b.mu.Lock()
	b.script, b.k = []byte(script), 0
	b.mu.Unlock()
	obs = append(obs, seen{0, health(), x.dirs()})
	mc.Go(func() { hb.Grpcc(beatAddr, x.dir, x.cmd) })
	for k := 0; k <= len(script); k = b.answered() {
		mc.Block("heartbeat keeps checking", func() bool { return b.answered() > k })
		mc.Nap(time.Microsecond) // virtual: everybody else comes first
		obs = append(obs, seen{b.answered(), health(), x.dirs()})
	}
	return obs
}

func failed(c byte) bool { return c != 'H' }

// judge compares what was seen with the counter of the reference.
func judge(x *world, script string, obs []seen) string {
	for _, o := range obs {
		n, restarts := 0, 0
		if o.k > len(script) {
			script += strings.Repeat("H", o.k-len(script))
		}
		for k := 0; k < o.k; k++ {
			if failed(script[k]) {
				n++
			}
			if n > 3 {
				n = 0
				if x.runs {
					restarts++
				}
			}
		}
		if len(o.dirs) != restarts {
			return fmt.Sprintf("after replies %s: the restart command ran %d times, want %d", script[:o.k], len(o.dirs), restarts)
		}
		if o.health != n {
			return fmt.Sprintf("after replies %s: the health endpoint reports %d, want %d", script[:o.k], o.health, n)
		}
		for _, d := range o.dirs {
			if d != x.abs {
				return fmt.Sprintf("after replies %s: the restart command ran in %s, want %s", script[:o.k], d, x.abs)
			}
		}
	}
	return ""
}

// normalise brings the counter of this process to zero: failures until a restart.
func normalise() string {
	c := health()
	if c == 0 {
		return ""
	}
	if c < 0 || c > 3 {
		return fmt.Sprintf("the health endpoint reports %d between runs", c)
	}
	x := newWorld("ok")
	defer os.RemoveAll(x.base)
	beats(x, strings.Repeat("E", 4-c))
	if h := health(); h != 0 {
		return fmt.Sprintf("four failures did not lead to a restart (health %d)", h)
	}
	return ""
}

func scripts(al string, n int, mode string) func(w *rep.W) {
	return func(w *rep.W) {
		startBeat()
		w.St.Bound = fmt.Sprintf("%d replies of %d kinds", n, len(al))
		cur := make([]byte, n)
		var rec func(i int)
		rec = func(i int) {
			if w.Done() {
				return
			}
			if i < n {
				for j := range al {
					cur[i] = al[j]
					rec(i + 1)
				}
				return
			}
			if !w.Next() {
				return
			}
			s := string(cur)
			w.Case(func() string {
				return "replies " + s + " (H healthy, 0/2/- other results, E/U errors), restart command: " + mode
			}, func() string {
				x := newWorld(mode)
				defer os.RemoveAll(x.base)
				v := run1(w, 0, normalise)
				if v == "" {
					v = run1(w, 0, func() string { return judge(x, s, beats(x, s)) })
				}
				if v != "" {
					return v
				}
				f := 0
				for i := range s {
					if failed(s[i]) {
						f++
					}
				}
				if f > 3 {
					w.Nontrivial()
				}
				w.Outcome(fmt.Sprintf("%d restarts, then %d failures", f/4, f%4))
				w.State(s, mode)
				return ""
			})
		}
		rec(0)
	}
}

// unreachable: no service at all.
func unreachable(w *rep.W) {
	for _, mode := range []string{"ok", "fails", "no directory"} {
		if !w.Next() {
			continue
		}
		w.Case(func() string { return "nothing listens; restart command: " + mode }, func() string {
			x := newWorld(mode)
			defer os.RemoveAll(x.base)
			l, a := listen()
			l.Close()
			w.Nontrivial()
			return run1(w, 0, func() string {
				mc.Go(func() { hb.Grpcc(a, x.dir, x.cmd) })
				for i := 1; i <= 13; i++ {
					mc.Nap(time.Second)
				}
				if n := len(x.dirs()); x.runs && n < 2 {
					return fmt.Sprintf("%d restarts during 12 s without a service", n)
				}
				if h := health(); h < 0 || h > 3 {
					return fmt.Sprintf("health %d", h)
				}
				return ""
			})
		})
	}
}

// watched: the health endpoint is asked from another thread while the heartbeat runs.
func watched(script string, dev int) rep.Part {
	return rep.Part{Name: "health asked meanwhile, replies " + script, Run: func(w *rep.W) {
		startBeat()
		expl.Run(w, expl.Scen{Bases: []int{0, 1, 4, 5}, Dev: dev, Race: true, Body: func() string {
			if m := normalise(); m != "" {
				mc.Fail(m)
			}
			x := newWorld("ok")
			defer os.RemoveAll(x.base)
			b := theBeat
			b.mu.Lock()
			b.script, b.k = []byte(script), 0
			b.mu.Unlock()
			var got []string
			n := 0
			mc.Park = func() bool { return b.answered() > len(script)+2 }
			defer func() { mc.Park = nil }()
			mc.Explore(true)
			mc.Go(func() { hb.Grpcc(beatAddr, x.dir, x.cmd) })
			mc.Go(func() {
				for i := 0; i < 3; i++ {
					h := health()
					if h < 0 || h > 4 {
						mc.Fail(fmt.Sprintf("health %d", h))
					}
					got = append(got, fmt.Sprint(h))
					mc.Nap(2 * time.Second)
				}
				n++
			})
			mc.Block("join", func() bool { return n == 1 && b.done() })
			mc.Explore(false)
			mc.Nap(time.Hour) // the parked heartbeat has finished what it was doing
			if d := x.dirs(); len(d) != len(script)/4 {
				mc.Fail(fmt.Sprintf("%d restarts, want %d", len(d), len(script)/4))
			}
			return strings.Join(got, ",")
		}})
	}}
}

func c19(tier string) []rep.Part {
	q, t := 6, 8
	n := q
	if tier == "thorough" {
		n = t
	}
	return []rep.Part{
		{Name: fmt.Sprintf("replies %d", n), Run: scripts("H0E", n, "ok")},
		{Name: fmt.Sprintf("replies %d, failing command", n), Run: scripts("H2U", n, "fails")},
		{Name: fmt.Sprintf("long %d", n+3), Run: scripts("HE", n+3, "ok")},
		{Name: fmt.Sprintf("all kinds %d", n-2), Run: scripts("H02-EU", n-2, "ok")},
		{Name: fmt.Sprintf("no directory %d", n+1), Run: scripts("HE", n+1, "no directory")},
		{Name: fmt.Sprintf("relative directory %d", n+2), Run: scripts("HE", n+2, "relative directory")},
		{Name: fmt.Sprintf("unnamed directory %d", n+2), Run: scripts("HE", n+2, "unnamed directory")},
		{Name: "unreachable", Run: unreachable},
		watched("EEEE", 1),
		watched("E0UEEEEE", 1),
	}
}
