package main

import (
	"fmt"
	"strings"

	"vmc/rep"
)

// Wide parts: every key length, every leading byte and every value size up to a bound, on databases that
// hold many of them at once, before and after a reopen.

type kv struct{ k, v string }

// pat is a text of n bytes in which no two positions 251 apart agree by accident.
func pat(seed, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte((i+seed)%251) ^ byte(i/251*7)
	}
	return string(b)
}

func near(xs []int, lo, hi int) []int {
	for _, b := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21, 1 << 22, 1 << 23} {
		for d := -1; d <= 1; d++ {
			if b+d >= lo && b+d <= hi {
				xs = append(xs, b+d)
			}
		}
	}
	return xs
}

func upto(n int) (xs []int) {
	for i := 0; i <= n; i++ {
		xs = append(xs, i)
	}
	return
}

// wideCase writes a group of entries, overwrites a third, deletes a third, and compares everything
// before and after a reopen; then deletes the rest.
func wideCase(w *rep.W, name string, group []kv, over func(i int, e kv) string) string {
	return fresh(name, func(x *machine) string {
		x.universe = nil
		set := func(k, v string) string {
			kb, vb := []byte(k), []byte(v)
			if err := x.s.Set(kb, vb); err != nil {
				return fmt.Sprintf("set of a key of %d and a value of %d bytes: %v", len(k), len(v), err)
			}
			scribble(kb)
			scribble(vb)
			x.m[k] = v
			return ""
		}
		for _, e := range group {
			x.universe = append(x.universe, e.k)
			if m := set(e.k, e.v); m != "" {
				return m
			}
		}
		if m := x.observeWide(); m != "" {
			return "after the writes: " + m
		}
		for i, e := range group {
			switch i % 3 {
			case 1:
				if err := x.s.Delete([]byte(e.k)); err != nil {
					return fmt.Sprintf("delete of a key of %d bytes: %v", len(e.k), err)
				}
				delete(x.m, e.k)
			case 2:
				if m := set(e.k, over(i, e)); m != "" {
					return m
				}
			}
		}
		if m := x.observeWide(); m != "" {
			return "after overwrites and deletes: " + m
		}
		if m := x.close(); m != "" {
			return m
		}
		x.held = nil
		if m := x.open(); m != "" {
			return m
		}
		if m := x.observeWide(); m != "" {
			return "after the reopen: " + m
		}
		for _, e := range group {
			if err := x.s.Delete([]byte(e.k)); err != nil {
				return fmt.Sprint("delete: ", err)
			}
			delete(x.m, e.k)
		}
		if m := x.observeWide(); m != "" {
			return "after deleting everything: " + m
		}
		w.Nontrivial()
		w.Trans(x.trans + 3*len(group))
		w.State(fmt.Sprint(name, len(group), len(group[0].k), len(group[0].v)))
		return ""
	})
}

// observeWide is observe without the failing iterations and without holding values.
func (x *machine) observeWide() string {
	for _, k := range x.universe {
		want, live := x.m[k]
		x.trans += 2
		has, err := x.s.Has([]byte(k))
		if err != nil || has != live {
			return fmt.Sprintf("has(%s, %d bytes) = %v, %v; want %v, nil", cut(fmt.Sprintf("%q", k)), len(k), has, err, live)
		}
		got, err := x.s.Get([]byte(k))
		if live && (err != nil || string(got) != want) {
			return fmt.Sprintf("get(%s, %d bytes) = %d bytes, %v; want %d bytes", cut(fmt.Sprintf("%q", k)), len(k), len(got), err, len(want))
		}
		if !live && (err == nil || len(got) != 0) {
			return fmt.Sprintf("get(%s, %d bytes) = %d bytes, %v on a key that is not there", cut(fmt.Sprintf("%q", k)), len(k), len(got), err)
		}
	}
	seen := map[string]bool{}
	bad := ""
	x.trans++
	err := x.s.ForEach(func(k, v []byte) error {
		ks := string(k)
		want, live := x.m[ks]
		if !live || seen[ks] || string(v) != want {
			bad = fmt.Sprintf("iterate visited %s (%d bytes) with %d bytes (live %v, visited before %v, want %d bytes)", cut(fmt.Sprintf("%q", ks)), len(ks), len(v), live, seen[ks], len(want))
		}
		seen[ks] = true
		return nil
	})
	switch {
	case err != nil:
		return fmt.Sprint("iterate: ", err)
	case bad != "":
		return bad
	case len(seen) != len(x.m):
		return fmt.Sprintf("iterate visited %d of %d keys", len(seen), len(x.m))
	}
	return ""
}

func wideKeys(name string, lens []int, per int) func(w *rep.W) {
	return func(w *rep.W) {
		defer quiet()()
		w.St.Bound = fmt.Sprintf("%d key lengths from %d to %d, three keys of each length with a common prefix", len(lens), lens[0], lens[len(lens)-1])
		for at := 0; at < len(lens) && !w.Done(); at += per {
			g := lens[at:]
			if len(g) > per {
				g = g[:per]
			}
			if !w.Next() {
				continue
			}
			w.Case(func() string { return fmt.Sprintf("%s: keys of %d to %d bytes", name, g[0], g[len(g)-1]) }, func() string {
				var es []kv
				for _, n := range g {
					p := pat(1, n-1)
					for j, c := range []string{"\x00", "m", "\xff"} {
						es = append(es, kv{p + c, fmt.Sprint(n, ".", j)})
					}
				}
				w.Outcome(fmt.Sprint(len(es), " keys"))
				return wideCase(w, name, es, func(i int, e kv) string { return e.v + "!" })
			})
		}
	}
}

// wideBytes: every one-byte key and every two-byte key with the given second bytes, each value one byte or none.
func wideBytes(name string, second []string) func(w *rep.W) {
	return func(w *rep.W) {
		defer quiet()()
		w.St.Bound = "every leading byte"
		for _, s := range second {
			if !w.Next() {
				continue
			}
			s := s
			w.Case(func() string { return fmt.Sprintf("%s: every byte followed by %q", name, s) }, func() string {
				var es []kv
				for b := 0; b < 256; b++ {
					es = append(es, kv{string([]byte{byte(b)}) + s, string([]byte{byte(255 - b)})})
				}
				w.Outcome("256 keys")
				return wideCase(w, name, es, func(i int, e kv) string { return strings.Repeat(e.v, i%4) })
			})
		}
	}
}

func wideVals(name string, sizes []int, per int) func(w *rep.W) {
	return func(w *rep.W) {
		defer quiet()()
		w.St.Bound = fmt.Sprintf("%d value sizes from %d to %d bytes", len(sizes), sizes[0], sizes[len(sizes)-1])
		for at := 0; at < len(sizes) && !w.Done(); at += per {
			g := sizes[at:]
			if len(g) > per {
				g = g[:per]
			}
			if !w.Next() {
				continue
			}
			w.Case(func() string { return fmt.Sprintf("%s: values of %d to %d bytes", name, g[0], g[len(g)-1]) }, func() string {
				var es []kv
				for i, n := range g {
					for j := 0; j < 3; j++ {
						es = append(es, kv{fmt.Sprint("key", i, ".", j), pat(i+j, n)})
					}
				}
				w.Outcome(fmt.Sprint(len(es), " values"))
				return wideCase(w, name, es, func(i int, e kv) string {
					if i%2 == 0 {
						return pat(i+9, len(e.v)+1)
					}
					return pat(i+9, len(e.v)/2)
				})
			})
		}
	}
}

// wideParts are the wide parts of one backend.
func wideParts(name string, th bool) []rep.Part {
	nl, nv, hi, kh := 300, 300, 1<<20+1, 4097
	if th {
		nl, nv, hi, kh = 1100, 2000, 1<<22+1, 16385
	}
	second := []string{"", "\x00", "\xff", "x\x00\x00", "\xff\xff\xff"}
	return []rep.Part{
		{Name: fmt.Sprintf("%s key lengths %d", name, nl), Run: wideKeys(name, near(upto(nl)[1:], nl+1, kh), 50)},
		{Name: name + " key bytes", Run: wideBytes(name, second)},
		{Name: fmt.Sprintf("%s value sizes %d", name, nv), Run: wideVals(name, upto(nv), 50)},
		{Name: fmt.Sprintf("%s large values %d", name, hi), Run: wideVals(name, near(nil, 0, hi), 4)},
	}
}

// pairs: two databases of one backend open at the same time, every sequence of operations on the two.
func pairs(name string, depth int) func(w *rep.W) {
	return func(w *rep.W) {
		defer quiet()()
		al := alphabet(1, 3, true, false)
		w.St.Bound = fmt.Sprintf("depth %d over %d operations on each of two databases", depth, len(al))
		var both []op
		for _, o := range al {
			o2 := o
			o2.k += 100
			both = append(both, o, o2)
		}
		for d := 1; d <= depth; d++ {
			if !seqs(both, d, func(ops []op) bool {
				if !w.Next() {
					return !w.Done()
				}
				at := func(o op) (int, op) {
					if o.k >= 100 {
						o.k -= 100
						return 1, o
					}
					return 0, o
				}
				w.Case(func() string {
					s := name
					for _, o := range ops {
						i, q := at(o)
						s += fmt.Sprintf("; %d: %s", i, q)
					}
					return s
				}, func() string {
					return fresh(name, func(x *machine) string {
						return fresh(name, func(y *machine) string {
							ms := []*machine{x, y}
							for _, o := range ops {
								i, q := at(o)
								if e := ms[i].do(q); e != "" {
									return e
								}
							}
							for i, m := range ms {
								if e := m.observe(true); e != "" {
									return fmt.Sprintf("database %d: %s", i, e)
								}
							}
							for i, m := range ms {
								if e := m.reopenCheck(); e != "" {
									return fmt.Sprintf("database %d: after close and reopen: %s", i, e)
								}
							}
							if x.nonempty || y.nonempty {
								w.Nontrivial()
							}
							w.Trans(x.trans + y.trans)
							w.State(x.abstract() + "/" + y.abstract())
							w.Outcome(fmt.Sprintf("%d and %d live keys", len(x.m), len(y.m)))
							return ""
						})
					})
				})
				return !w.Done()
			}) {
				return
			}
		}
	}
}
