// Command storec decides C14: every bundled storage backend against a map, on every operation
// sequence up to a depth, and the selection of the backend on every combination of name sources.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-ego/riot/store"

	"vmc/rep"
)

func main() {
	log.SetOutput(io.Discard)
	rep.Main([]*rep.Check{
		{Prop: "C14", Level: "model_checking", Parts: c14,
			Rule:        "every operation sequence up to the depth on a fresh database of each backend, every longer sequence in blocks that share a database; every combination of explicit name, environment and path; non-trivial: the map is non-empty at some observation",
			Assumptions: []string{"keys are not empty and do not start with badger's reserved prefix !badger!: two of the bundled libraries reject such keys"}},
	})
}

// badger logs every open and close: silence it (the adapters use its default options).
func quiet() func() {
	o, e := os.Stdout, os.Stderr
	n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stdout, os.Stderr = n, n
	return func() { os.Stdout, os.Stderr = o, e; n.Close() }
}

var keys = []string{"a", "a\x00\xff", "b"}
var vals = []string{"", "x", "\x00\xfe\xff", strings.Repeat("long", 200)}

type op struct {
	kind byte // s set, d delete, r close and reopen, f failing iteration
	k, v int
}

func (o op) String() string {
	switch o.kind {
	case 's':
		v := vals[o.v]
		if len(v) > 8 {
			v = fmt.Sprintf("%s..(%d bytes)", v[:4], len(v))
		}
		return fmt.Sprintf("set(%q,%q)", keys[o.k], v)
	case 'd':
		return fmt.Sprintf("delete(%q)", keys[o.k])
	case 'f':
		return "foreach-with-error"
	}
	return "reopen"
}

func show(ops []op) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

func alphabet(nk, nv int, reopen, fail bool) []op {
	var al []op
	for k := 0; k < nk; k++ {
		for v := 0; v < nv; v++ {
			al = append(al, op{'s', k, v})
		}
		al = append(al, op{'d', k, 0})
	}
	if reopen {
		al = append(al, op{'r', 0, 0})
	}
	if fail {
		al = append(al, op{'f', 0, 0})
	}
	return al
}

// machine is one database next to its reference map.
type machine struct {
	name, dir string
	s         store.Store
	m         map[string]string
	held      []held // values handed out, checked again after more operations and after close
	universe  []string
	nonempty  bool
	trans     int
}

type held struct {
	got  []byte
	want string
	from string
}

func (x *machine) open() string {
	s, err := store.OpenStore(x.dir, x.name)
	if err != nil || s == nil {
		return fmt.Sprintf("open: store=%v err=%v", s, err)
	}
	x.s = s
	return ""
}

func (x *machine) close() string {
	if x.s == nil {
		return ""
	}
	err := x.s.Close()
	x.s = nil
	if err != nil {
		return fmt.Sprintf("close: %v", err)
	}
	return x.checkHeld()
}

func (x *machine) checkHeld() string {
	for _, h := range x.held {
		if string(h.got) != h.want {
			return fmt.Sprintf("a value handed out by %s changed later from %q to %q", h.from, cut(h.want), cut(string(h.got)))
		}
	}
	return ""
}

func cut(s string) string {
	if len(s) > 30 {
		return s[:30] + ".."
	}
	return s
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

func (x *machine) do(o op) string {
	x.trans++
	switch o.kind {
	case 's':
		k, v := []byte(keys[o.k]), []byte(vals[o.v])
		if err := x.s.Set(k, v); err != nil {
			return fmt.Sprintf("set: %v", err)
		}
		if string(k) != keys[o.k] || string(v) != vals[o.v] {
			return "set changed its arguments"
		}
		// the caller may reuse its buffers
		scribble(k)
		scribble(v)
		x.m[keys[o.k]] = vals[o.v]
	case 'd':
		k := []byte(keys[o.k])
		if err := x.s.Delete(k); err != nil {
			return fmt.Sprintf("delete: %v", err)
		}
		scribble(k)
		delete(x.m, keys[o.k])
	case 'r':
		if e := x.close(); e != "" {
			return e
		}
		x.held = nil
		return x.open()
	case 'f':
		return x.failing(1)
	}
	return ""
}

var errStop = errors.New("callback error")

// failing iterates with a callback that fails at its n-th call.
func (x *machine) failing(n int) string {
	x.trans++
	calls := 0
	err := x.s.ForEach(func(k, v []byte) error {
		calls++
		if calls == n {
			return errStop
		}
		return nil
	})
	if n > len(x.m) {
		if err != nil || calls != len(x.m) {
			return fmt.Sprintf("iterate: err=%v after %d calls on %d keys", err, calls, len(x.m))
		}
		return ""
	}
	if err != errStop {
		return fmt.Sprintf("iterate with a callback failing at call %d returned %v", n, err)
	}
	if calls != n {
		return fmt.Sprintf("iterate called the callback %d times although call %d failed", calls, n)
	}
	return ""
}

func (x *machine) observe(hold bool) string {
	if len(x.m) > 0 {
		x.nonempty = true
	}
	for _, k := range x.universe {
		want, live := x.m[k]
		x.trans += 2
		has, err := x.s.Has([]byte(k))
		if err != nil || has != live {
			return fmt.Sprintf("has(%q) = %v, %v; want %v, nil", k, has, err, live)
		}
		got, err := x.s.Get([]byte(k))
		if live {
			if err != nil || string(got) != want {
				return fmt.Sprintf("get(%q) = %q, %v; want %q", k, cut(string(got)), err, cut(want))
			}
			if hold {
				x.held = append(x.held, held{got, want, "get"})
			}
		} else if err == nil || len(got) != 0 {
			return fmt.Sprintf("get(%q) = %q, %v on a key that is not there", k, cut(string(got)), err)
		}
	}
	seen := map[string]bool{}
	bad := ""
	x.trans++
	err := x.s.ForEach(func(k, v []byte) error {
		ks := string(k)
		want, live := x.m[ks]
		if !live || seen[ks] || string(v) != want {
			bad = fmt.Sprintf("iterate visited %q=%q (live %v, visited before %v, want %q)", ks, cut(string(v)), live, seen[ks], cut(want))
		}
		seen[ks] = true
		if hold {
			x.held = append(x.held, held{k, ks, "iterate (key)"}, held{v, string(v), "iterate (value)"})
		}
		return nil
	})
	if err != nil {
		return fmt.Sprintf("iterate: %v", err)
	}
	if bad != "" {
		return bad
	}
	if len(seen) != len(x.m) {
		return fmt.Sprintf("iterate visited %d of %d keys", len(seen), len(x.m))
	}
	for i := 1; i <= len(x.m)+1 && i < 5; i++ {
		if e := x.failing(i); e != "" {
			return e
		}
	}
	return x.checkHeld()
}

var dirN int

// fresh runs f on a new database directory, which it removes.
func fresh(name string, f func(x *machine) string) string {
	dirN++
	base := filepath.Join(rep.Scratch, fmt.Sprintf("db%d", dirN))
	if err := os.MkdirAll(base, 0700); err != nil {
		return ""
	}
	defer os.RemoveAll(base)
	x := &machine{name: name, dir: filepath.Join(base, "db"), m: map[string]string{}, universe: keys}
	if e := x.open(); e != "" {
		return e
	}
	e := f(x)
	if x.s != nil {
		if e2 := x.close(); e == "" {
			e = e2
		}
	}
	return e
}

func (x *machine) reopenCheck() string {
	if e := x.close(); e != "" {
		return e
	}
	x.held = nil
	if e := x.open(); e != "" {
		return e
	}
	return x.observe(false)
}

func (x *machine) abstract() string {
	var s []string
	for k, v := range x.m {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return x.name + strings.Join(s, ",")
}

// seqs calls f with every sequence over al of exactly n operations, in order.
func seqs(al []op, n int, f func([]op) bool) bool {
	cur := make([]op, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(cur)
		}
		for _, o := range al {
			cur[i] = o
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func histories(name string, al []op, depth int) func(w *rep.W) {
	return func(w *rep.W) {
		defer quiet()()
		w.St.Bound = fmt.Sprintf("depth %d over %d operations", depth, len(al))
		for d := 0; d <= depth; d++ {
			if !seqs(al, d, func(ops []op) bool {
				if !w.Next() {
					return !w.Done()
				}
				w.Case(func() string { return name + ": " + show(ops) }, func() string {
					return fresh(name, func(x *machine) string {
						for i, o := range ops {
							if e := x.do(o); e != "" {
								return fmt.Sprintf("operation %d (%s): %s", i+1, o, e)
							}
							if i == len(ops)/2 {
								if e := x.observe(true); e != "" {
									return fmt.Sprintf("after operation %d: %s", i+1, e)
								}
							}
						}
						if e := x.observe(true); e != "" {
							return "at the end: " + e
						}
						if e := x.reopenCheck(); e != "" {
							return "after close and reopen: " + e
						}
						if x.nonempty {
							w.Nontrivial()
						}
						w.Trans(x.trans)
						w.State(x.abstract())
						w.Outcome(fmt.Sprintf("%d live keys", len(x.m)))
						return ""
					})
				})
				return !w.Done()
			}) {
				return
			}
		}
	}
}

const block = 32

// blocks runs all sequences of exactly depth operations, block after block, on a shared database that
// is emptied by deletes between sequences: a longer history per database, still a map.
func blocks(name string, al []op, depth int) func(w *rep.W) {
	return func(w *rep.W) {
		defer quiet()()
		w.St.Bound = fmt.Sprintf("depth %d over %d operations, blocks of %d", depth, len(al), block)
		var pend [][]op
		flush := func() bool {
			if len(pend) == 0 {
				return true
			}
			todo := pend
			pend = nil
			if !w.Next() {
				return !w.Done()
			}
			at := ""
			w.Case(func() string { return name + ": " + at }, func() string {
				return fresh(name, func(x *machine) string {
					for n, ops := range todo {
						at = fmt.Sprintf("sequence %d of the block: %s", n+1, show(ops))
						for _, o := range ops {
							if e := x.do(o); e != "" {
								return e
							}
						}
						if e := x.observe(n%8 == 0); e != "" {
							return e
						}
						w.State(x.abstract())
						for k := range x.m {
							if err := x.s.Delete([]byte(k)); err != nil {
								return fmt.Sprint("delete: ", err)
							}
							delete(x.m, k)
						}
						if e := x.observe(false); e != "" {
							return "after deleting everything: " + e
						}
					}
					if x.nonempty {
						w.Nontrivial()
					}
					w.Trans(x.trans)
					w.Outcome("block ok")
					return ""
				})
			})
			return !w.Done()
		}
		if seqs(al, depth, func(ops []op) bool {
			pend = append(pend, append([]op{}, ops...))
			if len(pend) == block {
				return flush()
			}
			return true
		}) {
			flush()
		}
	}
}

// sizes: n keys for sizes around the iterators' batch sizes, overwritten and deleted in part.
func sizes(name string, ns []int) func(w *rep.W) {
	return func(w *rep.W) {
		defer quiet()()
		for _, n := range ns {
			for mode := 0; mode < 3; mode++ {
				if !w.Next() {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("%s: %d keys, mode %d", name, n, mode) }, func() string {
					return fresh(name, func(x *machine) string {
						x.universe = nil
						key := func(i int) string { return fmt.Sprintf("%c%06d", 'a'+i%3, i) }
						for i := 0; i < n; i++ {
							v := strings.Repeat(fmt.Sprint(i, ","), i%5)
							if err := x.s.Set([]byte(key(i)), []byte(v)); err != nil {
								return fmt.Sprint("set: ", err)
							}
							x.m[key(i)] = v
						}
						for i := 0; i < n; i += 3 {
							switch mode {
							case 1:
								x.s.Delete([]byte(key(i)))
								delete(x.m, key(i))
							case 2:
								v := fmt.Sprint("new", i)
								x.s.Set([]byte(key(i)), []byte(v))
								x.m[key(i)] = v
							}
						}
						for _, i := range []int{0, 1, n / 2, n - 1, n} {
							x.universe = append(x.universe, key(i))
						}
						if e := x.observe(true); e != "" {
							return e
						}
						for _, i := range []int{n / 2, n, n + 1} {
							if i > 0 {
								if e := x.failing(i); e != "" && i <= len(x.m) {
									return e
								}
							}
						}
						if e := x.reopenCheck(); e != "" {
							return "after close and reopen: " + e
						}
						w.Trans(x.trans + n)
						w.Outcome(fmt.Sprintf("%d keys", len(x.m)))
						if n > 0 {
							w.Nontrivial()
						}
						return ""
					})
				})
			}
		}
	}
}

// selection: every explicit name x environment value x extra argument x state of the path.
func selection(w *rep.W) {
	defer quiet()()
	type fake struct{ store.Store }
	var opened string
	reg := func(name string) {
		store.RegisterStore(name, func(path string) (store.Store, error) {
			opened = name + ":" + path
			return fake{}, nil
		})
	}
	reg("custom")
	reg("other")
	store.RegisterStore("broken", func(path string) (store.Store, error) { return nil, errStop })
	kindOf := func(s store.Store) string {
		switch s.(type) {
		case *store.Leveldb:
			return "ldb"
		case *store.Badger:
			return "bg"
		case *store.Bolt:
			return "bolt"
		case fake:
			return "fake"
		}
		return fmt.Sprintf("%T", s)
	}
	names := []string{"", "ldb", "bg", "bolt", "custom", "other", "broken", "nope", "LDB", "ldb "}
	args := [][]string{nil}
	for _, a := range names {
		args = append(args, []string{a})
	}
	args = append(args, []string{"", "bolt"}, []string{"bg", "bolt"}, []string{"nope", "bolt"})
	envs := append([]string{"<unset>"}, names...)
	for _, env := range envs {
		for _, arg := range args {
			for pre := 0; pre < 2; pre++ { // pre 1: the path exists with the wrong type for the backend
				if !w.Next() {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("args %q, environment %q, unusable path %v", arg, env, pre == 1) }, func() string {
					want := "ldb"
					if len(arg) > 0 && arg[0] != "" {
						want = arg[0]
					} else if env != "<unset>" && env != "" {
						want = env
					}
					base := filepath.Join(rep.Scratch, "sel")
					os.RemoveAll(filepath.Join(rep.Scratch, "sel"))
					os.MkdirAll(base, 0700)
					defer os.RemoveAll(filepath.Join(rep.Scratch, "sel"))
					path := filepath.Join(base, "db")
					if pre == 1 {
						if want == "bolt" {
							os.MkdirAll(path, 0700)
						} else {
							os.WriteFile(path, []byte("not a database"), 0600)
						}
					}
					os.Unsetenv("Riot_Store_Engine")
					if env != "<unset>" {
						os.Setenv("Riot_Store_Engine", env)
					}
					defer os.Unsetenv("Riot_Store_Engine")
					opened = ""
					w.Trans(1)
					s, err := store.OpenStore(path, arg...)
					if s != nil && err == nil && kindOf(s) != "fake" {
						defer s.Close()
					}
					switch want {
					case "custom", "other":
						if err != nil || kindOf(s) != "fake" || opened != want+":"+path {
							return fmt.Sprintf("opened %q (%s, %v), want the registered %q", opened, kindOf(s), err, want)
						}
					case "ldb", "bg", "bolt":
						if pre == 1 {
							if err == nil {
								return fmt.Sprintf("%s opened an unusable path without an error", want)
							}
							break
						}
						if err != nil || kindOf(s) != want {
							return fmt.Sprintf("opened %s, %v; want %s", kindOf(s), err, want)
						}
						if x := s.Set([]byte("k"), []byte("v")); x != nil {
							return fmt.Sprint("set: ", x)
						}
						if v, x := s.Get([]byte("k")); x != nil || !bytes.Equal(v, []byte("v")) {
							return fmt.Sprint("get: ", v, x)
						}
						if want == "bolt" && s.WALName() != path {
							return fmt.Sprintf("WALName %q, database %q", s.WALName(), path)
						}
						w.Nontrivial()
					case "broken":
						if err != errStop {
							return fmt.Sprintf("the backend's open error was not reported: %v, %v", s, err)
						}
					default:
						if err == nil || s != nil {
							return fmt.Sprintf("unknown name %q: store %s, error %v", want, kindOf(s), err)
						}
						if _, x := os.Stat(path); pre == 0 && x == nil {
							return fmt.Sprintf("unknown name %q created %s", want, path)
						}
					}
					w.Outcome(fmt.Sprintf("%s err=%v", want, err != nil))
					w.State(fmt.Sprint(want, pre))
					return ""
				})
			}
		}
	}
}

func c14(tier string) []rep.Part {
	var ps []rep.Part
	th := tier == "thorough"
	pick := func(q, t int) int {
		if th {
			return t
		}
		return q
	}
	ps = append(ps, rep.Part{Name: "selection", Run: selection})
	for _, n := range []string{"ldb", "bolt", "bg"} {
		fast := n != "bg"
		d := pick(2, 3)
		if fast {
			d = pick(3, 4)
		}
		// the part names carry the bound: a case index means the same sequence only under the same bound
		al := alphabet(2, 3, true, true)
		ps = append(ps, rep.Part{Name: fmt.Sprintf("%s histories %d", n, d), Run: histories(n, al, d)})
		b := alphabet(3, len(vals), false, false)
		bd := pick(3, 4)
		ps = append(ps, rep.Part{Name: fmt.Sprintf("%s blocks %d", n, bd), Run: blocks(n, b, bd)})
		ps = append(ps, rep.Part{Name: fmt.Sprintf("%s deep %d", n, pick(5, 7)), Run: blocks(n, alphabet(1, 3, false, true), pick(5, 7))})
		ns := []int{0, 1, 5, 99, 100, 101, 300, 999, 1000, 1001, 1500}
		ps = append(ps, rep.Part{Name: n + " sizes", Run: sizes(n, ns)})
		ps = append(ps, wideParts(n, th)...)
		pd := pick(2, 3)
		if fast && !th {
			pd = 3
		}
		ps = append(ps, rep.Part{Name: fmt.Sprintf("%s pairs %d", n, pd), Run: pairs(n, pd)})
	}
	return ps
}
