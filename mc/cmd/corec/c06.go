package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/rep"
)

// vecCrit scores with the vector stored in the fields.
type vecCrit struct{}

func (vecCrit) Score(d types.IndexedDoc, f interface{}) []float32 {
	v, ok := f.(fieldVec)
	if v.bm || !ok { // without fields: the relevance
		return []float32{d.BM25}
	}
	return v.v
}

type fieldVec struct {
	v   []float32
	bm  bool
	tag int
}

// scored is one document of an answer, mode-independent.
type scored struct {
	id, content string
	attri, f    interface{}
	scores      []float32
	snip        []int
	locs        [][]int
}

func rank(r *core.Ranker, in []types.IndexedDoc, o types.RankOpts, count bool, idOnly bool) ([]scored, int, string) {
	out, n := r.Rank(in, o, count)
	var res []scored
	if idOnly {
		s, ok := out.(types.ScoredIDs)
		if !ok {
			return nil, 0, fmt.Sprintf("id-only ranking returned %T", out)
		}
		for _, d := range s {
			res = append(res, scored{id: d.DocId, scores: d.Scores, snip: d.TokenSnippetLocs, locs: d.TokenLocs})
		}
		return res, n, ""
	}
	s, ok := out.(types.ScoredDocs)
	if !ok {
		return nil, 0, fmt.Sprintf("full ranking returned %T", out)
	}
	for _, d := range s {
		res = append(res, scored{d.DocId, d.Content, d.Attri, d.Fields, d.Scores, d.TokenSnippetLocs, d.TokenLocs})
	}
	return res, n, ""
}

// lexLess: a comes after b in descending lexicographic order.
func cmpVec(a, b []float32) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] > b[i] {
				return 1
			}
			return -1
		}
	}
	return len(a) - len(b)
}

type reg struct {
	id      string
	f       interface{}
	content string
	attri   interface{}
}

// checkRank compares one ranking call with the reference; regs maps id to its live registration.
func checkRank(w *rep.W, r *core.Ranker, in []types.IndexedDoc, regs map[string]reg, off, max int, rev, count, idOnly bool) string {
	o := types.RankOpts{ScoringCriteria: vecCrit{}, ReverseOrder: rev, OutputOffset: off, MaxOutputs: max}
	got, n, m := rank(r, in, o, count, idOnly)
	if m != "" {
		return m
	}
	type e struct {
		d types.IndexedDoc
		v []float32
	}
	var want []e
	for _, d := range in {
		g, ok := regs[d.DocId]
		if !ok {
			continue
		}
		v := vecCrit{}.Score(d, g.f)
		if len(v) == 0 {
			continue
		}
		want = append(want, e{d, v})
	}
	call := func() string {
		return fmt.Sprintf("offset %d max %d reverse %v countOnly %v idOnly %v", off, max, rev, count, idOnly)
	}
	if n != len(want) {
		return fmt.Sprintf("%s: reported %d documents, want %d", call(), n, len(want))
	}
	if count {
		if len(got) != 0 {
			return fmt.Sprintf("%s: a count returned documents", call())
		}
		return ""
	}
	sort.SliceStable(want, func(i, j int) bool {
		c := cmpVec(want[i].v, want[j].v)
		if rev {
			return c < 0
		}
		return c > 0
	})
	lo, hi := off, len(want)
	if lo > len(want) {
		lo = len(want)
	}
	if max != 0 && max < hi-lo {
		hi = lo + max
	}
	if len(got) != hi-lo {
		return fmt.Sprintf("%s: returned %d documents, want %d of %d", call(), len(got), hi-lo, len(want))
	}
	byID := map[string]e{}
	for _, x := range want {
		byID[x.d.DocId] = x
	}
	for i, g := range got {
		x, ok := byID[g.id]
		if !ok {
			return fmt.Sprintf("%s: returned %s twice or without a score", call(), g.id)
		}
		delete(byID, g.id)
		if cmpVec(x.v, g.scores) != 0 {
			return fmt.Sprintf("%s: %s has scores %v, want %v", call(), g.id, g.scores, x.v)
		}
		if cmpVec(want[lo+i].v, g.scores) != 0 { // ties may come in any order
			return fmt.Sprintf("%s: position %d has scores %v, want %v", call(), i, g.scores, want[lo+i].v)
		}
		if fmt.Sprint(g.snip) != fmt.Sprint(x.d.TokenSnippetLocs) || fmt.Sprint(g.locs) != fmt.Sprint(x.d.TokenLocs) {
			return fmt.Sprintf("%s: %s has positions %v %v, want %v %v", call(), g.id, g.snip, g.locs, x.d.TokenSnippetLocs, x.d.TokenLocs)
		}
		if !idOnly {
			rg := regs[g.id]
			if g.content != rg.content || g.attri != rg.attri || fmt.Sprint(g.f) != fmt.Sprint(rg.f) {
				return fmt.Sprintf("%s: %s carries content %q attribute %v fields %v, want %q %v %v", call(), g.id, g.content, g.attri, g.f, rg.content, rg.attri, rg.f)
			}
		}
	}
	if len(got) > 1 {
		w.Nontrivial()
	}
	return ""
}

var vecs = [][]float32{nil, {}, {0}, {1}, {1, 0}, {1, 2}, {2}, {-1}}

func matched(n int, order []int) []types.IndexedDoc {
	var in []types.IndexedDoc
	for i := 0; i < n; i++ {
		k := i
		if order != nil {
			k = order[i]
		}
		in = append(in, types.IndexedDoc{DocId: fmt.Sprintf("d%02d", n-k), BM25: float32(k%3) * 0.5,
			TokenSnippetLocs: []int{k, k + 1}, TokenLocs: [][]int{{k}, {k + 1, k + 2}}})
	}
	return in
}

// scores at the edges of their type
var edges = func() [][]float32 {
	up := math.Nextafter32(1, 2)
	inf := float32(math.Inf(1))
	var e [][]float32
	for _, x := range []float32{1, up, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, inf, -inf} {
		e = append(e, []float32{x})
	}
	return append(e, []float32{0, up}, []float32{0, 1, 0}, []float32{-inf, inf}, []float32{1 << 24, 1}, []float32{1<<24 + 2})
}()

// nans: a score that compares with nothing still keeps its document
func nans(w *rep.W) {
	nan := float32(math.NaN())
	vs := [][]float32{{nan}, {1, nan}, {2}, {nan, 3}, nil}
	enum(w, len(vs), 3, func(sel []int) {
		w.Case(func() string { return fmt.Sprintf("documents with scores %v of %v", sel, vs) }, func() string {
			for fl := 0; fl < 4; fl++ {
				r := &core.Ranker{}
				r.Init(fl&1 == 1)
				want := 0
				in := matched(3, nil)
				for i := range in {
					r.AddDoc(in[i].DocId, fieldVec{v: vs[sel[i]]}, "c", i)
					if vs[sel[i]] != nil {
						want++
					}
				}
				got, n, m := rank(r, in, types.RankOpts{ScoringCriteria: vecCrit{}, ReverseOrder: fl&2 == 2}, false, fl&1 == 1)
				w.Trans(1)
				if m != "" {
					return m
				}
				ids := map[string]bool{}
				for _, g := range got {
					ids[g.id] = true
				}
				if n != want || len(got) != want || len(ids) != want {
					return fmt.Sprintf("%d documents returned, %d reported, %d different, want %d", len(got), n, len(ids), want)
				}
				if want > 1 {
					w.Nontrivial()
				}
			}
			return ""
		})
	})
}

func buildRanker(idOnly bool, sel []int, opts int, vecs [][]float32) (*core.Ranker, map[string]reg) {
	r := &core.Ranker{}
	r.Init(idOnly)
	regs := map[string]reg{}
	n := len(sel)
	for i, s := range sel {
		id := fmt.Sprintf("d%02d", n-i)
		if s == opts-1 {
			continue // not registered
		}
		f := fieldVec{tag: i, bm: s == opts-2}
		if !f.bm {
			f.v = vecs[s]
		}
		g := reg{id, f, fmt.Sprintf("content%d", i), i * 10}
		regs[id] = g
		r.AddDoc(id, g.f, g.content, g.attri)
	}
	return r, regs
}

func windowsPart(name string, n, opts int, perms bool, vecs [][]float32) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		if opts > len(vecs)+2 {
			opts = len(vecs) + 2
		}
		orders := [][]int{nil}
		if perms {
			orders = permsOf(n)
		}
		enum(w, opts, n, func(sel []int) {
			w.Case(func() string { return fmt.Sprintf("documents with score choices %v (%v)", sel, vecs) }, func() string {
				for _, idOnly := range []bool{false, true} {
					r, regs := buildRanker(idOnly, sel, opts, vecs)
					for _, ord := range orders {
						in := matched(n, ord)
						for oi := 0; oi <= n+2; oi++ {
							off := oi
							if oi == n+2 {
								off = math.MaxInt
							}
							for mi := 0; mi <= n+2; mi++ {
								max := mi
								if mi == n+2 {
									max = math.MaxInt
								}
								for fl := 0; fl < 3; fl++ {
									w.Trans(1)
									if m := checkRank(w, r, in, regs, off, max, fl == 1, fl == 2, idOnly); m != "" {
										return m
									}
								}
							}
						}
					}
				}
				return ""
			})
		})
	}}
}

func permsOf(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permsOf(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// large results: score patterns over many documents, every window boundary
func largePart(name string, ns []int) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		for _, n := range ns {
			for pat := 0; pat < 8; pat++ {
				for _, idOnly := range []bool{false, true} {
					if w.Done() {
						return
					}
					if !w.Next() {
						continue
					}
					w.Case(func() string { return fmt.Sprintf("%d documents, score pattern %d, idOnly %v", n, pat, idOnly) }, func() string {
						r := &core.Ranker{}
						r.Init(idOnly)
						regs := map[string]reg{}
						in := matched(n, nil)
						for i := range in {
							var v []float32
							switch pat {
							case 0:
								v = []float32{float32(i)}
							case 1:
								v = []float32{float32(-i)}
							case 2:
								v = []float32{float32(i * 37 % 101)}
							case 3:
								v = []float32{float32(i % 3), float32(i * 17 % 7)}
							case 4:
								v = []float32{1}
							case 5:
								if i%4 == 0 {
									v = nil
								} else {
									v = make([]float32, 1+i%3)
								}
							case 6:
								v = []float32{float32(i / 5), float32(-i)}
							case 7:
								v = []float32{0, 0, float32(i * 13 % n)}
							}
							g := reg{in[i].DocId, fieldVec{v: v, tag: i}, fmt.Sprint("c", i), i}
							if pat == 5 && i%7 == 3 {
								continue
							}
							regs[g.id] = g
							r.AddDoc(g.id, g.f, g.content, g.attri)
						}
						for off := 0; off <= n+1; off++ {
							for _, max := range []int{0, 1, 2, n / 2, n - off, n - off + 1, n, n + 5, math.MaxInt} {
								if max < 0 {
									continue
								}
								for fl := 0; fl < 3; fl++ {
									w.Trans(1)
									if m := checkRank(w, r, in, regs, off, max, fl == 1, fl == 2, idOnly); m != "" {
										return m
									}
								}
							}
						}
						return ""
					})
				}
			}
		}
	}}
}

// registration histories: add (two versions), remove over three documents
func regPart(name string, depth int) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		for dep := 1; dep <= depth; dep++ {
			enum(w, 9, dep, func(sel []int) {
				w.Case(func() string {
					return fmt.Sprintf("registrations %v (document*3 + {version 0, version 1, remove})", sel)
				}, func() string {
					for mode := 0; mode < 8; mode++ {
						idOnly, bare := mode&1 == 1, mode&2 == 2
						r := &core.Ranker{}
						r.Init(idOnly)
						regs := map[string]reg{}
						hollow := mode&4 == 4
						for i, s := range sel {
							id := fmt.Sprintf("d%02d", 1+s/3)
							if s%3 == 2 {
								r.RemoveDoc(id)
								delete(regs, id)
								continue
							}
							_, exists := regs[id]
							g := reg{id, fieldVec{v: []float32{float32(s % 3), float32(i)}, tag: i}, fmt.Sprintf("content%d", i), i}
							if bare && !exists && i%2 == 1 {
								g.content, g.attri = "", nil
								r.AddDoc(id, g.f)
							} else {
								if hollow && s%3 == 1 { // nothing at all replaces what was there
									g.f, g.content, g.attri = nil, "", nil
								}
								r.AddDoc(id, g.f, g.content, g.attri)
							}
							regs[id] = g
						}
						in := matched(3, nil)
						for fl := 0; fl < 3; fl++ {
							w.Trans(1 + len(sel))
							if m := checkRank(w, r, in, regs, 0, 0, fl == 1, fl == 2, idOnly); m != "" {
								return m
							}
						}
						w.State(fmt.Sprint(regs))
					}
					return ""
				})
			})
		}
	}}
}

func c06(tier string) []rep.Part {
	ps := []rep.Part{
		windowsPart("windows-2docs", 2, 10, true, vecs),
		windowsPart("windows-3docs", 3, 10, true, vecs),
		windowsPart("windows-4docs", 4, 7, false, vecs),
		windowsPart("windows-3docs-edges", 3, len(edges)+2, false, edges),
		{Name: "not a number", Run: nans},
		largePart("large", []int{11, 12, 13, 14, 20, 33, 50}),
		regPart("registrations-depth4", 4),
	}
	if tier == "thorough" {
		ps = append(ps, windowsPart("windows-4docs-all", 4, 10, true, vecs), windowsPart("windows-5docs", 5, 10, false, vecs),
			largePart("large-all", rng(2, 120)), regPart("registrations-depth6", 6))
	}
	return ps
}
