package main

import (
	"fmt"
	"strings"

	"vmc/rep"
)

// Crashes, damage and failing writes in histories of many and of large documents.

func noAsk(int) []op { return nil }

func lastKeys(n int) []op {
	return []op{se("k"), ct("k"), se("L"), ol("M"), se(docID(0) + "2"), se(docID(n-1) + "1"), se("none")}
}

// crashMany: the life of n documents, cut after every storage operation.
func crashMany(name string, cs []cfg, ns [2][]int) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		l := ns[0]
		if w.Tier == "thorough" {
			l = ns[1]
		}
		w.St.Bound = fmt.Sprintf("%v documents, every prefix of the storage log", l)
		for _, c := range cs {
			for _, n := range l {
				var h []op
				for _, o := range life(cfg{}, n, func(i, v int) op { return version(docID(i), v) }, noAsk) {
					h = append(h, o)
				}
				// the length of the log is known only after the run: cut points are taken modulo
				for at := 0; at < 20; at++ {
					if w.Done() || !w.Next() {
						continue
					}
					w.Case(func() string { return fmt.Sprintf("[%v] %d documents, cuts %d modulo 20", c, n, at) }, func() string {
						return run1(w, at%2, func() string {
							theDisk = newDisk()
							r := &run{c: c}
							r.e = c.open()
							r.doAll(h)
							r.index()
							if at == 0 {
								if m := r.durable(); m != "" {
									return m
								}
							}
							for i := at; i <= len(theDisk.ops); i += 20 {
								d := theDisk.prefix(i)
								if m := serves(c, d, lastKeys(n), nil, nil); m != "" {
									return fmt.Sprintf("crash after %d of %d storage operations: %s", i, len(theDisk.ops), m)
								}
							}
							w.Nontrivial()
							w.State(fmt.Sprint(c, n, at))
							w.Outcome(fmt.Sprintf("%d storage operations", len(theDisk.ops)))
							return ""
						})
					})
				}
			}
		}
	}}
}

// damageMany: some of n documents are unreadable.
func damageMany(name string, cs []cfg, ns [2][]int, mk func(i, v int) op) rep.Part {
	kinds := []struct {
		what string
		f    func(string) string
	}{
		{"empty", func(string) string { return "" }},
		{"cut to half", func(v string) string { return v[:len(v)/2] }},
		{"without the last byte", func(v string) string { return v[:len(v)-1] }},
		{"zeros", func(v string) string { return strings.Repeat("\x00", len(v)) }},
		{"text", func(string) string { return "this is not a document" }},
	}
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		l := ns[0]
		if w.Tier == "thorough" {
			l = ns[1]
		}
		w.St.Bound = fmt.Sprintf("%v documents, each and every one of them damaged in %d ways", l, len(kinds))
		for _, c := range cs {
			for _, n := range l {
				sets := [][]int{nil, nil}
				for i := 0; i < n; i++ {
					sets[0] = append(sets[0], i)
					if i%2 == 0 {
						sets[1] = append(sets[1], i)
					}
					if n <= 12 || i < 2 || i >= n-2 || i%16 == 0 {
						sets = append(sets, []int{i})
					}
				}
				for _, set := range sets {
					for _, kd := range kinds {
						if w.Done() || !w.Next() {
							continue
						}
						w.Case(func() string { return fmt.Sprintf("[%v] %d documents, %v %s", c, n, set, kd.what) }, func() string {
							return run1(w, 0, func() string {
								theDisk = newDisk()
								r := &run{c: c}
								r.e = c.open()
								for i := 0; i < n; i++ {
									r.do(mk(i, 1))
								}
								r.do(fl())
								d := theDisk.prefix(len(theDisk.ops))
								free := map[string]bool{}
								bad := map[string]bool{}
								for _, i := range set {
									for _, m := range d.data {
										if v, ok := m[docID(i)]; ok {
											m[docID(i)] = kd.f(v)
											if _, ok := decode(m[docID(i)]); ok {
												free[docID(i)] = true
											} else {
												bad[docID(i)] = true
											}
										}
									}
								}
								w.Nontrivial()
								w.State(fmt.Sprint(c, n, set, kd.what))
								w.Outcome(fmt.Sprintf("%d unreadable", len(bad)))
								return serves(c, d, lastKeys(n), free, func(r *run) string {
									for _, i := range set {
										if len(set) > 20 && i%7 > 0 {
											continue
										}
										r.do(mk(i, 2))
									}
									r.do(fl())
									r.do(zz())
									ev := r.do(se("k"))
									want := n - len(bad)
									for _, i := range set {
										if bad[docID(i)] && !(len(set) > 20 && i%7 > 0) {
											want++
										}
									}
									if len(ev.ans.hits) != want {
										return fmt.Sprintf("after rewriting, %d documents are served, want %d", len(ev.ans.hits), want)
									}
									return ""
								})
							})
						})
					}
				}
			}
		}
	}}
}

// failMany: every single failing write among the writes of n documents.
func failMany(name string, cs []cfg, ns [2]int) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		mkScratch()
		n := ns[0]
		if w.Tier == "thorough" {
			n = ns[1]
		}
		w.St.Bound = fmt.Sprintf("%d documents, every single failing write", n)
		h := life(cfg{}, n, func(i, v int) op { return version(docID(i), v) }, noAsk)
		for _, c := range cs {
			for f := 1; f <= len(h); f++ {
				if w.Done() || !w.Next() {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("[%v] %d documents, write %d fails", c, n, f) }, func() string {
					return run1(w, f%2, func() string {
						theDisk = newDisk()
						theDisk.fail = f
						r := &run{c: c}
						r.e = c.open()
						for _, o := range h {
							r.do(o)
							if isFlush(o) {
								r.doAll([]op{se("k"), ct("k"), se("L")})
							}
						}
						if theDisk.writes < f {
							return ""
						}
						w.Nontrivial()
						w.State(fmt.Sprint(c, f))
						if m := r.judgeFast(); m != "" {
							return m
						}
						return serves(c, theDisk.prefix(len(theDisk.ops)), lastKeys(n), nil, func(r2 *run) string {
							for i := 0; i < n; i++ {
								r2.do(version(docID(i), 5))
							}
							r2.doAll(sq(fl(), zz()))
							if len(r2.do(se("k")).ans.hits) != n {
								return "a later write is not durable"
							}
							return ""
						})
					})
				})
			}
		}
	}}
}

func c16wide() []rep.Part {
	s := small()
	cs := []cfg{s.st(1), s.sh(2).st(2), s.sh(3).st(7), s.st(17)}
	small := func(i, v int) op { return version(docID(i), v) }
	ps := []rep.Part{
		crashMany("crash, many documents", cs, [2][]int{{9, 30, 66}, {9, 30, 66, 130, 300}}),
		damageMany("damage, many documents", cs, [2][]int{{1, 2, 5, 12, 40, 100}, {1, 2, 3, 5, 8, 12, 40, 100, 300}}, small),
		failMany("failing write, many documents", cs, [2]int{25, 70}),
	}
	for _, b := range [][4]int{{40, 0, 0, 0}, {0, 30, 0, 0}, {0, 0, 5000, 0}, {0, 0, 70000, 0}, {0, 0, 0, 60}, {300, 20, 0, 3}} {
		b := b
		ps = append(ps, damageMany(fmt.Sprintf("damage, large documents %v", b), cs[:2], [2][]int{{1, 3, 6}, {1, 2, 3, 6, 9}}, func(i, v int) op {
			if i%2 == 1 {
				return version(docID(i), v)
			}
			return sized(docID(i), v, b[0], b[1], b[2], b[3])
		}))
	}
	return ps
}
