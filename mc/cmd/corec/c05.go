package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"vmc/rep"
)

// Version v of document d: its own key, the shared key s, and for odd versions the key o.
// Version noKeys has no key at all.
const noKeys = 7

func histDoc(d, v int) *types.DocIndex {
	if v == noKeys {
		return &types.DocIndex{DocId: hid(d)}
	}
	x := &types.DocIndex{DocId: hid(d), TokenLen: float32(v % 2 * 3)} // even versions have no length
	x.Keywords = append(x.Keywords, types.KeywordIndex{Text: own(d, v), Frequency: float32(v + 1), Starts: []int{d*10 + v}},
		types.KeywordIndex{Text: "s", Frequency: float32(d*4 + v + 1), Starts: []int{100 + d*10 + v}})
	if v%2 == 1 {
		x.Keywords = append(x.Keywords, types.KeywordIndex{Text: "o", Frequency: 1, Starts: []int{200 + d*10 + v}})
	}
	return x
}

func hid(d int) string    { return fmt.Sprintf("%03d", d) }
func own(d, v int) string { return fmt.Sprintf("k%d.%d", d, v) }

// observe returns the version visible for each document through own keys (-1 none) and checks the
// shared keys, counts, order and match data against it.
func observe(ix *core.Indexer, nd, nv, it int) ([]int, string) {
	vis := make([]int, nd)
	for d := range vis {
		vis[d] = -1
		for v := 0; v < nv; v++ {
			docs, n := ix.Lookup([]string{own(d, v)}, nil, nil, false)
			if n != len(docs) {
				return nil, fmt.Sprintf("key %s: count %d, %d documents", own(d, v), n, len(docs))
			}
			_, c := ix.Lookup([]string{own(d, v)}, nil, nil, true)
			if c != n {
				return nil, fmt.Sprintf("key %s: count-only says %d, full %d", own(d, v), c, n)
			}
			if n == 0 {
				continue
			}
			if n > 1 || docs[0].DocId != hid(d) {
				return nil, fmt.Sprintf("key %s returned %v", own(d, v), ids(docs))
			}
			if it == types.LocsIndex && fmt.Sprint(docs[0].TokenLocs) != fmt.Sprintf("[[%d]]", d*10+v) {
				return nil, fmt.Sprintf("key %s returned positions %v", own(d, v), docs[0].TokenLocs)
			}
			if vis[d] >= 0 {
				return nil, fmt.Sprintf("document %d is visible through versions %d and %d", d, vis[d], v)
			}
			vis[d] = v
		}
	}
	for _, key := range []string{"s", "o"} {
		docs, n := ix.Lookup([]string{key}, nil, nil, false)
		if n != len(docs) {
			return nil, fmt.Sprintf("key %s: count %d, %d documents", key, n, len(docs))
		}
		j := 0
		for d := nd - 1; d >= 0; d-- {
			if vis[d] < 0 || key == "o" && vis[d]%2 == 0 {
				continue
			}
			if j >= len(docs) || docs[j].DocId != hid(d) {
				return nil, fmt.Sprintf("key %s returned %v but the visible versions are %v", key, ids(docs), vis)
			}
			base := 100
			if key == "o" {
				base = 200
			}
			if it == types.LocsIndex && fmt.Sprint(docs[j].TokenLocs) != fmt.Sprintf("[[%d]]", base+d*10+vis[d]) {
				return nil, fmt.Sprintf("key %s returned positions %v for document %d, visible version %d", key, docs[j].TokenLocs, d, vis[d])
			}
			j++
		}
		if j != len(docs) {
			return nil, fmt.Sprintf("key %s returned %v but the visible versions are %v", key, ids(docs), vis)
		}
	}
	return vis, ""
}

// docModel is what is known about one document.
type docModel struct {
	flushed map[int]bool // versions the index may hold as of the last flush (-1 absent); one element when determined
	may     map[int]bool // versions that may be visible now
	last    map[int]bool // versions that may be visible after the next flush
	pending bool         // an addition since the last flush
	adds    map[int]int  // additions of each version since the last flush
	bare    int          // the document is present without any key: 1 yes, 0 no, -1 not known
}

func one(v int) map[int]bool { return map[int]bool{v: true} }

type hist struct {
	nd, nv int
	m      []docModel
}

func newHist(nd, nv int) *hist {
	h := &hist{nd: nd, nv: nv, m: make([]docModel, nd)}
	for i := range h.m {
		h.m[i] = docModel{flushed: one(-1), may: one(-1), last: one(-1), adds: map[int]int{}}
	}
	return h
}

func (h *hist) flush() {
	for i := range h.m {
		m := &h.m[i]
		m.flushed, m.may, m.pending, m.adds = m.last, m.last, false, map[int]int{}
	}
}

func (h *hist) add(d, v int) {
	m := &h.m[d]
	m.bare = 0
	if v == noKeys {
		m.bare = 1
		v = -1
	}
	may := map[int]bool{-1: true, v: true}
	for x := range m.may {
		may[x] = true
	}
	m.may, m.last, m.pending = may, one(v), true
	m.adds[v]++
}

// remove: vis is the version visible just before (only meaningful with pending additions).
func (h *hist) remove(d, vis int) {
	m := &h.m[d]
	if m.bare == 1 && m.pending || m.bare < 0 {
		m.bare = -1
	} else {
		m.bare = 0
	}
	if m.pending && !(len(m.last) == 1 && m.last[vis] && !m.flushed[vis] && m.adds[vis] == 1) {
		// the addition waits in the cache: whether it is dropped is not promised
		l := map[int]bool{-1: true}
		for x := range m.last {
			l[x] = true
		}
		m.last = l
		m.may = l
		return
	}
	m.may, m.last = one(-1), one(-1)
	m.pending = false
}

func keysOf(m map[int]bool) string {
	var k []int
	for x := range m {
		k = append(k, x)
	}
	sort.Ints(k)
	return strings.Trim(fmt.Sprint(k), "[]")
}

func (h *hist) check(vis []int, flushed bool) string {
	for d := range h.m {
		if !h.m[d].may[vis[d]] {
			when := "before the flush"
			if flushed {
				when = "after the flush"
			}
			return fmt.Sprintf("%s document %d is visible as version %d, allowed: %s", when, d, vis[d], keysOf(h.m[d].may))
		}
	}
	return ""
}

// runHist applies the history; observations happen before removals of pending additions and at the end.
func runHist(ops []bmOp, nd, nv, it, cache int, w *rep.W) string {
	ix := newIndexer(it, cache)
	h := newHist(nd, nv)
	for _, o := range ops {
		switch o.kind {
		case 0:
			ix.AddDocToCache(histDoc(o.doc, o.ver), o.force)
			h.add(o.doc, o.ver)
			if o.force {
				h.flush()
			}
		case 1:
			vis := -2
			if h.m[o.doc].pending {
				v, msg := observe(ix, nd, nv, it)
				if msg != "" {
					return msg
				}
				vis = v[o.doc]
			}
			h.remove(o.doc, vis)
			ix.RemoveDocToCache(hid(o.doc), o.force)
		case 2:
			ix.AddDocToCache(nil, true)
			h.flush()
		}
	}
	vis, msg := observe(ix, nd, nv, it)
	if msg != "" {
		return msg
	}
	if len(ops) == 0 || ops[len(ops)-1].kind != 2 {
		if msg = h.check(vis, false); msg != "" {
			return msg
		}
		ix.AddDocToCache(nil, true)
		h.flush()
		if vis, msg = observe(ix, nd, nv, it); msg != "" {
			return msg
		}
	}
	if msg = h.check(vis, true); msg != "" {
		return msg
	}
	for d := 0; d < nd; d++ {
		if b := h.m[d].bare; b >= 0 && ix.HasDoc(hid(d)) != (vis[d] >= 0 || b == 1) {
			return fmt.Sprintf("HasDoc(%d) is %v but the visible version is %d", d, vis[d] < 0, vis[d])
		}
	}
	w.State(fmt.Sprint(vis))
	w.Trans(len(ops) + 1)
	w.Nontrivial()
	return ""
}

func histPart(name string, depth, nd, nv int, addF, rmF bool, its, caches []int, bare ...int) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		al := []bmOp{{kind: 2}}
		for d := 0; d < nd; d++ {
			vs := rng(0, nv-1)
			if d < len(bare) {
				vs = append(vs, noKeys)
			}
			for _, v := range vs {
				al = append(al, bmOp{0, d, v, false})
				if addF {
					al = append(al, bmOp{0, d, v, true})
				}
			}
			al = append(al, bmOp{1, d, 0, false})
			if rmF {
				al = append(al, bmOp{1, d, 0, true})
			}
		}
		for dep := 1; dep <= depth; dep++ {
			enum(w, len(al), dep, func(sel []int) {
				h := make([]bmOp, dep)
				for i, s := range sel {
					h[i] = al[s]
				}
				var it, cache int
				w.Case(func() string { return fmt.Sprintf("index type %d, cache %d: %s", it, cache, opsString(h)) }, func() string {
					for _, it = range its {
						for _, cache = range caches {
							if m := runHist(h, nd, nv, it, cache, w); m != "" {
								return m
							}
						}
					}
					return ""
				})
			})
		}
	}}
}

// bulk: many documents, added/updated/removed in one batch in several orders
func bulkPart(name string, ns []int, caches []int) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		orders := []func(n, i int) int{
			func(n, i int) int { return i }, func(n, i int) int { return n - 1 - i },
			func(n, i int) int { return i * 7 % n }, func(n, i int) int { return (i*2 + i*2/n) % n },
		}
		for _, n := range ns {
			for oi, ord := range orders {
				if oi == 2 && n%7 == 0 || oi == 3 && n%2 == 1 {
					continue
				}
				for _, cache := range caches {
					for shape := 0; shape < 6; shape++ {
						for rm := 0; rm < 4; rm++ {
							for _, it := range idxTypes {
								if w.Done() {
									return
								}
								if !w.Next() {
									continue
								}
								var ops []bmOp
								addAll := func(v int) {
									for i := 0; i < n; i++ {
										ops = append(ops, bmOp{0, ord(n, i), v, false})
									}
								}
								fl := func() { ops = append(ops, bmOp{kind: 2}) }
								switch shape {
								case 0: // duplicates in one batch
									addAll(0)
									addAll(1)
								case 1: // update of everything, duplicates
									addAll(0)
									fl()
									addAll(1)
									addAll(0)
								case 2: // duplicates next to each other
									for i := 0; i < n; i++ {
										for v := 0; v < 2; v++ {
											ops = append(ops, bmOp{0, ord(n, i), v, false})
										}
									}
								case 3: // half known, half new, three versions in one batch
									for i := 0; i < n; i += 2 {
										ops = append(ops, bmOp{0, ord(n, i), 0, false})
									}
									fl()
									addAll(1)
									addAll(0)
									addAll(1)
								case 4: // add, flush, remove some, re-add
									addAll(1)
									fl()
								case 5: // update everything twice with a flush between
									addAll(0)
									fl()
									addAll(1)
									fl()
									addAll(0)
								}
								fl()
								for i := 0; i < n; i++ {
									d := ord(n, i)
									if rm == 1 && d%2 == 0 || rm == 2 || rm == 3 && (d < n/3 || d > 2*n/3) {
										ops = append(ops, bmOp{1, d, 0, rm == 3 && i%5 == 4})
									}
								}
								if shape == 4 {
									for i := 0; i < n; i += 3 {
										ops = append(ops, bmOp{0, ord(n, i), 0, false})
									}
								}
								w.Case(func() string {
									return fmt.Sprintf("%d documents, order %d, batch shape %d, removal %d, index type %d, cache %d: %s", n, oi, shape, rm, it, cache, opsString(ops))
								}, func() string { return runHist(ops, n, 2, it, cache, w) })
							}
						}
					}
				}
			}
		}
	}}
}

func c05(tier string) []rep.Part {
	locs := []int{types.LocsIndex}
	ps := []rep.Part{
		histPart("1doc-2versions-depth6", 6, 1, 2, true, true, idxTypes, []int{1, 2, 3}),
		histPart("2docs-2versions-depth4", 4, 2, 2, true, true, idxTypes, []int{1, 2, 3, 50}),
		histPart("2docs-1version-depth6", 6, 2, 1, false, true, locs, []int{1, 2, 3, 50}),
		histPart("3docs-1version-depth5", 5, 3, 1, false, true, locs, []int{1, 2, 3, 50}),
		histPart("2docs-and-a-version-without-keys-depth4", 4, 2, 1, true, true, locs, []int{1, 2, 50}, 0),
		histPart("1doc-and-a-version-without-keys-depth5", 5, 1, 1, true, true, idxTypes, []int{1, 2, 50}, 0),
		bulkPart("bulk", []int{3, 12, 13, 14, 26}, []int{5, 13, 200}),
	}
	if tier == "thorough" {
		ps = append(ps,
			histPart("2docs-2versions-depth6", 6, 2, 2, true, true, locs, []int{1, 2, 3}),
			histPart("2docs-2versions-depth5-types", 5, 2, 2, true, true, idxTypes, []int{1, 2, 3, 4, 50}),
			histPart("3docs-1version-depth7", 7, 3, 1, false, true, locs, []int{1, 2, 3, 50}),
			histPart("3docs-2versions-depth5", 5, 3, 2, true, true, locs, []int{1, 2, 3, 4}),
			histPart("2docs-versions-without-keys-depth5", 5, 2, 1, true, true, idxTypes, []int{1, 2, 3, 50}, 0, 1),
			bulkPart("bulk-all", rng(2, 40), []int{1, 2, 7, 13, 40, 200}))
	}
	return ps
}
