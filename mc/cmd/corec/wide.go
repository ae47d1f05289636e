package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/rep"
)

// Wide inputs: the other parts use few keys, short lists of keys and small numbers. Here every size of a
// dimension is swept on structured indexes: the number of query keys, of clause keys, of ids in a filter, of
// positions, the frequencies, lengths and numbers of documents, the bytes of a token and its positions' size.

// wkey is the i-th key; keys differ in bytes, runes and length.
func wkey(i int) string {
	switch i % 4 {
	case 0:
		return fmt.Sprintf("k%d", i)
	case 1:
		return fmt.Sprintf("键%d字", i)
	case 2:
		return fmt.Sprintf("ключ%d", i)
	}
	b := make([]byte, i%41)
	for j := range b {
		b[j] = 'z'
	}
	return fmt.Sprintf("%d%s", i, b)
}

// wideIx holds, for n keys, one document lacking exactly key i for every i, one with exactly key i for every
// i, one with all and one with none; every one has the label "every".
type wideIx struct {
	n   int
	ids []string
	has []func(k int) bool
	ix  *core.Indexer
}

func (x *wideIx) freq(d, k int) int { return 1 + (d*7+k*3)%4 }
func (x *wideIx) tlen(d int) int    { return 3 + d%11 }

func (x *wideIx) positions(d, k int) []int {
	ps := make([]int, x.freq(d, k))
	for j := range ps {
		ps[j] = (d*13+k*5)%17 + j*(2+(d+k)%9)
	}
	return ps
}

func newWide(n, it, cache int) *wideIx {
	x := &wideIx{n: n, ix: newIndexer(it, cache)}
	add := func(has func(int) bool) {
		d := len(x.ids)
		x.ids = append(x.ids, fmt.Sprintf("%05d", d))
		x.has = append(x.has, has)
		doc := &types.DocIndex{DocId: x.ids[d], TokenLen: float32(x.tlen(d))}
		for k := 0; k < n; k++ {
			if has(k) {
				ps := x.positions(d, k)
				doc.Keywords = append(doc.Keywords, types.KeywordIndex{Text: wkey(k), Frequency: float32(len(ps)), Starts: ps})
			}
		}
		doc.Keywords = append(doc.Keywords, types.KeywordIndex{Text: "every", Starts: []int{}})
		x.ix.AddDocToCache(doc, false)
	}
	for i := 0; i < n; i++ {
		i := i
		add(func(k int) bool { return k != i })
	}
	for i := 0; i < n; i++ {
		i := i
		add(func(k int) bool { return k == i })
	}
	add(func(int) bool { return true })
	add(func(int) bool { return false })
	x.ix.AddDocToCache(nil, true)
	return x
}

// order: the first m keys, ascending, descending or rotated.
func wkeys(m, n, order int) (ks []int) {
	for i := 0; i < m; i++ {
		switch order {
		case 0:
			ks = append(ks, i)
		case 1:
			ks = append(ks, n-1-i)
		default:
			ks = append(ks, (i+n/2)%n)
		}
	}
	return
}

func texts(ks []int) (s []string) {
	for _, k := range ks {
		s = append(s, wkey(k))
	}
	return
}

func (x *wideIx) all(d int, ks []int) bool {
	for _, k := range ks {
		if !x.has[d](k) {
			return false
		}
	}
	return true
}

func (x *wideIx) any(d int, ks []int) bool {
	for _, k := range ks {
		if x.has[d](k) {
			return true
		}
	}
	return false
}

// match lists the matching documents, highest id first.
func (x *wideIx) match(f func(d int) bool) (ds []int) {
	for d := len(x.ids) - 1; d >= 0; d-- {
		if f(d) {
			ds = append(ds, d)
		}
	}
	return
}

func (x *wideIx) same(docs []types.IndexedDoc, n int, want []int) string {
	if n != len(want) || len(docs) != len(want) {
		return fmt.Sprintf("returned %d and reported %d documents, want %d", len(docs), n, len(want))
	}
	for i, d := range want {
		if docs[i].DocId != x.ids[d] {
			return fmt.Sprintf("document %d is %s, want %s", i, docs[i].DocId, x.ids[d])
		}
	}
	return ""
}

// sizes m to try for n keys: all, but for many keys only the low ones and the last ones.
func wsizes(n int) (ms []int) {
	for m := 1; m <= n; m++ {
		if m <= 40 || m > n-3 {
			ms = append(ms, m)
		}
	}
	return
}

// widePart runs look for every number of keys and every number m of them used.
func widePart(name string, ns []int, its []int, look func(w *rep.W, x *wideIx, it, m, order int) string) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		w.St.Bound = fmt.Sprintf("%v keys", ns)
		for _, n := range ns {
			for _, it := range its {
				if w.Done() || !w.Next() {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("%d keys, index type %d", n, it) }, func() string {
					x := newWide(n, it, []int{2*n + 3, 3, 7}[n%3])
					for _, m := range wsizes(n) {
						for order := 0; order < 3; order++ {
							if s := look(w, x, it, m, order); s != "" {
								return fmt.Sprintf("%d of the keys in order %d: %s", m, order, s)
							}
							w.Nontrivial()
							w.Trans(1)
						}
					}
					w.StateHash(uint64(n)<<8 | uint64(it))
					return ""
				})
			}
		}
	}}
}

func wideNs(tier string) []int {
	ns := append(rng(1, 20), 33, 65)
	if tier == "thorough" {
		ns = append(append(ns, rng(21, 70)...), 129, 257, 300)
	}
	return ns
}

func wideKeys01(w *rep.W, x *wideIx, it, m, order int) string {
	ks := wkeys(m, x.n, order)
	ts := texts(ks)
	want := x.match(func(d int) bool { return x.all(d, ks) })
	even := map[string]bool{}
	for d := 0; d < len(x.ids); d += 2 {
		even[x.ids[d]] = d%4 == 0
	}
	wantE := x.match(func(d int) bool { return d%2 == 0 && x.all(d, ks) })
	for _, cut := range []int{m, 0, m / 2} {
		var toks, labs []string
		toks, labs = append(toks, ts[:cut]...), append(labs, ts[cut:]...)
		docs, n := x.ix.Lookup(toks, labs, nil, false)
		if s := x.same(docs, n, want); s != "" {
			return fmt.Sprintf("%d as labels: %s", m-cut, s)
		}
		if _, n := x.ix.Lookup(toks, labs, nil, true); n != len(want) {
			return fmt.Sprintf("%d as labels, counting: %d, want %d", m-cut, n, len(want))
		}
		docs, n = x.ix.Lookup(toks, labs, even, false)
		if s := x.same(docs, n, wantE); s != "" {
			return fmt.Sprintf("%d as labels, filter: %s", m-cut, s)
		}
	}
	// one of them unknown
	if docs, n := x.ix.Lookup(append(append([]string{}, ts...), "unknown"), nil, nil, false); n != 0 || len(docs) != 0 {
		return fmt.Sprintf("with an unknown key: %d documents", n)
	}
	return ""
}

func wideLogic02(w *rep.W, x *wideIx, it, m, order int) string {
	ks := wkeys(m, x.n, order)
	ts := texts(ks)
	un := append(append([]string{}, ts...), "unknown")
	other := texts(wkeys(1, x.n, order+1))
	ok := wkeys(1, x.n, order+1)
	e := []string{"every"}
	for i, q := range []struct {
		toks, labs []string
		l          types.Logic
		want       func(d int) bool
	}{
		{l: types.Logic{Expr: types.Expr{Must: ts}}, want: func(d int) bool { return x.all(d, ks) }},
		{l: types.Logic{Expr: types.Expr{Should: ts}}, want: func(d int) bool { return x.any(d, ks) }},
		{l: types.Logic{Expr: types.Expr{Should: un}}, want: func(d int) bool { return x.any(d, ks) }},
		{l: types.Logic{Expr: types.Expr{Must: un}}, want: func(d int) bool { return false }},
		{l: types.Logic{Expr: types.Expr{Must: e, NotIn: ts}}, want: func(d int) bool { return !x.any(d, ks) }},
		{l: types.Logic{Expr: types.Expr{Must: e, NotIn: un}}, want: func(d int) bool { return !x.any(d, ks) }},
		{l: types.Logic{Expr: types.Expr{Should: e, NotIn: ts}}, want: func(d int) bool { return !x.any(d, ks) }},
		{l: types.Logic{Expr: types.Expr{Must: other, Should: ts}}, want: func(d int) bool { return x.any(d, ks) && x.all(d, ok) }},
		{l: types.Logic{Expr: types.Expr{Must: ts, Should: other}}, want: func(d int) bool { return x.all(d, ks) && x.any(d, ok) }},
		{l: types.Logic{Expr: types.Expr{Should: ts, NotIn: other}}, want: func(d int) bool { return x.any(d, ks) && !x.any(d, ok) }},
		{toks: ts, l: types.Logic{Must: true}, want: func(d int) bool { return x.all(d, ks) }},
		{toks: ts, l: types.Logic{Should: true}, want: func(d int) bool { return x.any(d, ks) }},
		{labs: ts, l: types.Logic{Should: true}, want: func(d int) bool { return x.any(d, ks) }},
		{toks: ts[:m/2], labs: ts[m/2:], l: types.Logic{Must: true}, want: func(d int) bool { return x.all(d, ks) }},
		{toks: ts, l: types.Logic{NotIn: true, Expr: types.Expr{Must: e}}, want: func(d int) bool { return !x.any(d, ks) }},
	} {
		docs, n := x.ix.Lookup(q.toks, q.labs, nil, false, q.l)
		sort.Slice(docs, func(i, j int) bool { return docs[i].DocId > docs[j].DocId })
		want := x.match(q.want)
		if s := x.same(docs, n, want); s != "" {
			return fmt.Sprintf("logical query %d: %s", i, s)
		}
		if docs, n := x.ix.Lookup(q.toks, q.labs, nil, true, q.l); n != len(want) || len(docs) != 0 {
			return fmt.Sprintf("logical query %d, counting: %d, want %d", i, n, len(want))
		}
	}
	return ""
}

func wideBM03(w *rep.W, x *wideIx, it, m, order int) string {
	ks := wkeys(m, x.n, order)
	docs, n := x.ix.Lookup(texts(ks), nil, nil, false)
	want := x.match(func(d int) bool { return x.all(d, ks) })
	if s := x.same(docs, n, want); s != "" {
		return s
	}
	N, total := float64(len(x.ids)), 0.0
	for d := range x.ids {
		total += float64(x.tlen(d))
	}
	for i, d := range want {
		s := 0.0
		for _, k := range ks {
			df := 0.0
			for e := range x.ids {
				if x.has[e](k) {
					df++
				}
			}
			f := float64(x.freq(d, k))
			s += math.Log2(N/df+1) * f * 3 / (f + 2*(0.25+0.75*float64(x.tlen(d))/(total/N)))
		}
		if !close32(docs[i].BM25, s) {
			return fmt.Sprintf("document %s scored %v, want %v", x.ids[d], docs[i].BM25, s)
		}
	}
	return ""
}

// dpProx is the minimum of the sum by dynamic programming over every choice.
func dpProx(locs [][]int, toks []string) int {
	cur := make([]int, len(locs[0]))
	for i := 1; i < len(locs); i++ {
		next := make([]int, len(locs[i]))
		for j, p := range locs[i] {
			best := -1
			for h, q := range locs[i-1] {
				if v := cur[h] + absInt(p-q-len(toks[i-1])); best < 0 || v < best {
					best = v
				}
			}
			next[j] = best
		}
		cur = next
	}
	best := cur[0]
	for _, v := range cur {
		if v < best {
			best = v
		}
	}
	return best
}

func samePositions(d types.IndexedDoc, toks []string, locs [][]int) string {
	if fmt.Sprint(d.TokenLocs) != fmt.Sprint(locs) {
		return fmt.Sprintf("returned with other positions than the recorded ones: %d lists", len(d.TokenLocs))
	}
	if len(d.TokenSnippetLocs) != len(toks) {
		return fmt.Sprintf("%d snippet positions", len(d.TokenSnippetLocs))
	}
	sum, best := 0, dpProx(locs, toks)
	for j := range locs {
		if i := sort.SearchInts(locs[j], d.TokenSnippetLocs[j]); i == len(locs[j]) || locs[j][i] != d.TokenSnippetLocs[j] {
			return fmt.Sprintf("snippet position %d of token %d is not a recorded one", d.TokenSnippetLocs[j], j)
		}
		if j > 0 {
			sum += absInt(d.TokenSnippetLocs[j] - d.TokenSnippetLocs[j-1] - len(toks[j-1]))
		}
	}
	if int(d.TokenProximity) != best || sum != best {
		return fmt.Sprintf("proximity %d with a snippet of sum %d, the minimum is %d", d.TokenProximity, sum, best)
	}
	return ""
}

func widePos04(w *rep.W, x *wideIx, it, m, order int) string {
	ks := wkeys(m, x.n, order)
	ts := texts(ks)
	docs, n := x.ix.Lookup(ts, nil, nil, false)
	want := x.match(func(d int) bool { return x.all(d, ks) })
	if s := x.same(docs, n, want); s != "" {
		return s
	}
	for i, d := range want {
		locs := make([][]int, m)
		for j, k := range ks {
			locs[j] = x.positions(d, k)
		}
		if s := samePositions(docs[i], ts, locs); s != "" {
			return fmt.Sprintf("document %s: %s", x.ids[d], s)
		}
	}
	return ""
}

// filterSizes: every number of known and unknown ids in a filter, with either value.
func filterSizes(max int) rep.Part {
	return rep.Part{Name: "filter-sizes", Run: func(w *rep.W) {
		w.St.Bound = fmt.Sprintf("filters of up to %d known and %d unknown ids", max, max)
		for it := 0; it <= 2; it++ {
			x := newWide(max/2, it, 9)
			for f := 0; f <= max; f++ {
				if w.Done() || !w.Next() {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("%d known ids, index type %d", f, it) }, func() string {
					for _, u := range []int{0, 1, f, max} {
						for _, val := range []bool{true, false} {
							fl := map[string]bool{}
							in := map[int]bool{}
							for i := 0; i < f; i++ {
								d := (i*5 + f) % len(x.ids)
								for in[d] {
									d = (d + 1) % len(x.ids)
								}
								in[d] = true
								fl[x.ids[d]] = val
							}
							for i := 0; i < u; i++ {
								fl[fmt.Sprintf("0%d?", i)] = val
							}
							for _, l := range []struct {
								toks, labs []string
								f          func(d int) bool
								logic      []types.Logic
							}{
								{labs: []string{"every"}, f: func(d int) bool { return in[d] }},
								{toks: []string{wkey(0)}, labs: []string{"every"}, f: func(d int) bool { return in[d] && x.has[d](0) }},
								{f: func(d int) bool { return in[d] && x.has[d](0) }, logic: []types.Logic{{Expr: types.Expr{Must: []string{wkey(0), "every"}}}}},
							} {
								docs, n := x.ix.Lookup(l.toks, l.labs, fl, false, l.logic...)
								if len(l.logic) > 0 {
									sort.Slice(docs, func(i, j int) bool { return docs[i].DocId > docs[j].DocId })
								}
								if s := x.same(docs, n, x.match(l.f)); s != "" {
									return fmt.Sprintf("%d unknown ids, value %v: %s", u, val, s)
								}
								w.Trans(1)
							}
						}
					}
					w.Nontrivial()
					w.StateHash(uint64(f)<<4 | uint64(it))
					return ""
				})
			}
		}
	}}
}

// bmSizes: every number of documents, frequency and length.
func bmSizes(tier string) rep.Part {
	return rep.Part{Name: "frequencies-lengths-and-numbers", Run: func(w *rep.W) {
		ns := append(rng(1, 70), 127, 128, 129, 255, 256, 257)
		if tier == "thorough" {
			ns = append(rng(1, 300), 999, 1025, 4100)
		}
		w.St.Bound = fmt.Sprintf("up to %d documents, frequencies up to 260, lengths up to 4500", ns[len(ns)-1])
		for _, n := range ns {
			for it := 1; it <= 2; it++ {
				for st := 0; st < 3; st++ {
					if w.Done() || !w.Next() {
						continue
					}
					w.Case(func() string { return fmt.Sprintf("%d documents, index type %d, steps %d", n, it, st) }, func() string {
						ix := newIndexer(it, []int{n + 1, 4, 64}[st])
						freq := func(d, k, v int) int { return 1 + (d*(3+st)+k*5+v*11)%[]int{7, 90, 260}[st] }
						tlen := func(d, v int) int { return freq(d, 0, v) + freq(d, 1, v) + d*[]int{0, 3, 131}[st]%4000 + v }
						live := make([]int, n)
						add := func(d, v int) {
							doc := &types.DocIndex{DocId: fmt.Sprintf("%05d", d), TokenLen: float32(tlen(d, v))}
							for k := 0; k < 2; k++ {
								if k == 0 || d%3 != 1 {
									ps := make([]int, freq(d, k, v))
									for i := range ps {
										ps[i] = i*6 + k
									}
									doc.Keywords = append(doc.Keywords, types.KeywordIndex{Text: []string{"a", "b"}[k], Frequency: float32(len(ps)), Starts: ps})
								}
							}
							ix.AddDocToCache(doc, false)
							live[d] = v
						}
						check := func() string {
							N, total, df := 0.0, 0.0, [2]float64{}
							for d, v := range live {
								if v >= 0 {
									N++
									total += float64(tlen(d, v))
									df[0]++
									if d%3 != 1 {
										df[1]++
									}
								}
							}
							for _, q := range [][]int{{0}, {1}, {0, 1}} {
								var ts []string
								for _, k := range q {
									ts = append(ts, []string{"a", "b"}[k])
								}
								docs, _ := ix.Lookup(ts, nil, nil, false)
								i := 0
								for d := n - 1; d >= 0; d-- {
									if live[d] < 0 || q[len(q)-1] == 1 && d%3 == 1 {
										continue
									}
									if i >= len(docs) || docs[i].DocId != fmt.Sprintf("%05d", d) {
										return fmt.Sprintf("query %v does not return document %d", ts, d)
									}
									s := 0.0
									for _, k := range q {
										f := float64(freq(d, k, live[d]))
										s += math.Log2(N/df[k]+1) * f * 3 / (f + 2*(0.25+0.75*float64(tlen(d, live[d]))/(total/N)))
									}
									if !close32(docs[i].BM25, s) {
										return fmt.Sprintf("query %v scores document %d with %v, want %v (%v documents)", ts, d, docs[i].BM25, s, N)
									}
									i++
								}
								if i != len(docs) {
									return fmt.Sprintf("query %v returns %d documents, want %d", ts, len(docs), i)
								}
								w.Trans(1)
							}
							return ""
						}
						for d := 0; d < n; d++ {
							add((d*7+n/2)%n, 0)
						}
						for d := 0; n%7 == 0 && d < n; d++ {
							add(d, 0) // 7 divides n: the first loop repeats documents
						}
						ix.AddDocToCache(nil, true)
						if m := check(); m != "" {
							return m
						}
						for d := 0; d < n; d += 3 { // new versions
							add(d, 1)
						}
						ix.AddDocToCache(nil, true)
						if m := check(); m != "" {
							return "after updates: " + m
						}
						for d := 0; d < n; d += 2 {
							if n > 1 {
								ix.RemoveDocToCache(fmt.Sprintf("%05d", d), false)
								live[d] = -1
							}
						}
						ix.RemoveDocToCache("0", true)
						if m := check(); m != "" {
							return "after removals: " + m
						}
						w.Nontrivial()
						w.StateHash(uint64(n)<<8 | uint64(it)<<4 | uint64(st))
						return ""
					})
				}
			}
		}
	}}
}

// posSizes: every number of positions and tokens, tokens of several bytes, near and far positions.
func posSizes(tier string) rep.Part {
	return rep.Part{Name: "numbers-of-positions", Run: func(w *rep.W) {
		np := append(rng(1, 24), 33, 64, 65, 130)
		if tier == "thorough" {
			np = append(rng(1, 70), 129, 257, 600)
		}
		strides := []int{1, 2, 7, 1000, 40000}
		w.St.Bound = fmt.Sprintf("up to %d positions of up to 9 tokens, distances %v", np[len(np)-1], strides)
		for _, p := range np {
			for _, st := range strides {
				for nt := 1; nt <= 9; nt++ {
					if w.Done() || !w.Next() {
						continue
					}
					w.Case(func() string { return fmt.Sprintf("%d tokens, %d positions, distances of about %d", nt, p, st) }, func() string {
						for v := 0; v < 3; v++ {
							ix := newIndexer(types.LocsIndex, 4)
							var ts []string
							var locs [][]int
							doc := &types.DocIndex{DocId: "1", TokenLen: 9}
							for t := 0; t < nt; t++ {
								ts = append(ts, wkey(t+v))
								n := p
								if v == 1 {
									n = 1 + (p+t*3)%p // other numbers per token
								}
								ls := make([]int, n)
								at := (t*11 + v*5) % 13 * st
								for j := range ls {
									at += 1 + (j*j*3+t*7+v*j)%5*st
									ls[j] = at
								}
								locs = append(locs, ls)
								doc.Keywords = append(doc.Keywords, types.KeywordIndex{Text: ts[t], Frequency: float32(n), Starts: append([]int{}, ls...)})
							}
							ix.AddDocToCache(doc, true)
							docs, _ := ix.Lookup(ts, nil, nil, false)
							if len(docs) != 1 {
								return fmt.Sprintf("%d documents", len(docs))
							}
							if s := samePositions(docs[0], ts, locs); s != "" {
								return fmt.Sprintf("variant %d: %s", v, s)
							}
							w.Trans(1)
						}
						w.Nontrivial()
						w.StateHash(uint64(p)<<24 | uint64(st)<<4 | uint64(nt))
						return ""
					})
				}
			}
		}
	}}
}
