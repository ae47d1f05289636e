package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	riot "github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"vmc/mc"
	"vmc/rep"
)

// ---- requests ----

// kdoc is a document of a corpus: its keys are a subset of x, y (tokens) and L (label).
type kdoc struct {
	id      string
	x, y, l bool
	score   float32
}

func (d kdoc) has(k string) bool { return k == "x" && d.x || k == "y" && d.y || k == "L" && d.l }

// positions of x and y depend on the document
func (d kdoc) pos(k string) []int {
	h := int(d.id[len(d.id)-1])
	switch {
	case k == "x" && d.x:
		return []int{h % 5, 20 + h%3}
	case k == "y" && d.y:
		return []int{h%7 + 1}
	}
	return nil
}

func (d kdoc) data() types.DocData {
	t := types.DocData{Content: "C-" + d.id, Attri: att{d.id, 1}, Fields: fields{d.id, 1, d.score}}
	for _, k := range []string{"x", "y"} {
		if d.has(k) {
			t.Tokens = append(t.Tokens, types.TokenData{Text: k, Locations: d.pos(k)})
		}
	}
	if d.l {
		t.Labels = []string{"L"}
	}
	return t
}

type rq struct {
	void                 bool // one more token, the empty one
	text, tokens, labels string
	logic                types.Logic
	ids                  map[string]bool
}

func (q rq) toks() []string {
	t := strings.Fields(strings.ToLower(q.text))
	return append(t, q.own()...)
}

// own are the tokens given with the request.
func (q rq) own() []string {
	t := strings.Fields(q.tokens)
	if q.void {
		t = append(t, "")
	}
	return t
}

func (q rq) match(d kdoc) bool {
	if q.ids != nil {
		if _, ok := q.ids[d.id]; !ok {
			return false
		}
	}
	kw := append(q.toks(), strings.Fields(q.labels)...)
	l := q.logic
	if !(l.Must || l.Should || l.NotIn || len(l.Expr.Must)+len(l.Expr.Should)+len(l.Expr.NotIn) > 0) {
		for _, k := range kw {
			if !d.has(k) {
				return false
			}
		}
		return len(kw) > 0
	}
	pick := func(flag bool, e []string) []string {
		if len(e) > 0 {
			return e
		}
		if flag {
			return kw
		}
		return nil
	}
	must, should, not := pick(l.Must, l.Expr.Must), pick(l.Should, l.Expr.Should), pick(l.NotIn, l.Expr.NotIn)
	for _, k := range must {
		if !d.has(k) {
			return false
		}
	}
	for _, k := range not {
		if d.has(k) {
			return false
		}
	}
	any := len(should) == 0
	for _, k := range should {
		any = any || d.has(k)
	}
	return any
}

func (q rq) plain() bool {
	l := q.logic
	return !(l.Must || l.Should || l.NotIn || len(l.Expr.Must)+len(l.Expr.Should)+len(l.Expr.NotIn) > 0)
}

func (q rq) String() string {
	return fmt.Sprintf("text=%q tokens=%q labels=%q logic=%v ids=%v", q.text, q.tokens, q.labels, q.logic, q.ids)
}

// odd leaves out documents with a score divisible by 3 and reverses the order of the others.
type odd struct{ crit }

func (odd) Score(d types.IndexedDoc, f interface{}) []float32 {
	fl, ok := f.(fields)
	if !ok || int(fl.Score)%3 == 0 {
		return nil
	}
	return []float32{1, -fl.Score}
}

// kcfg is a configuration with default ranking options.
type kcfg struct {
	cfg
	def *types.RankOpts // nil: the usual criterion, no window
}

func (c kcfg) String() string {
	s := c.cfg.String()
	if c.def != nil {
		s += fmt.Sprintf(" default window (%d,%d) reverse=%v", c.def.OutputOffset, c.def.MaxOutputs, c.def.ReverseOrder)
	}
	return s
}

func (c kcfg) open() *riot.Engine {
	e := &riot.Engine{}
	o := c.opts()
	if c.def != nil {
		d := *c.def
		o.DefRankOpts = &d
	}
	e.Init(o)
	return e
}

// kcase answers every request for one corpus in one configuration.
type kcase struct {
	c    kcfg
	docs []kdoc
	qs   []rq
	wins [][2]int
	tmo  int // timeout of every request, if positive
}

func scoreOf(s types.ScoringCriteria, d kdoc) []float32 {
	return s.Score(types.IndexedDoc{}, fields{d.id, 1, d.score})
}

func lexLess(a, b []float32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// ask sends one request and compares the answer with the corpus.
func (k *kcase) ask(e *riot.Engine, q rq, ro *types.RankOpts, count, orderless bool, timeout, how int) string {
	req := types.SearchReq{Text: q.text, Tokens: q.own(), Labels: strings.Fields(q.labels), Logic: q.logic, DocIds: q.ids,
		CountDocsOnly: count, Orderless: orderless, Timeout: timeout}
	if k.tmo > 0 {
		req.Timeout = k.tmo
	}
	if ro != nil {
		r := *ro
		req.RankOpts = &r
	}
	eff := types.RankOpts{}
	def := types.RankOpts{ScoringCriteria: crit{}}
	if k.c.def != nil {
		def = *k.c.def
	}
	if def.ScoringCriteria == nil {
		def.ScoringCriteria = crit{}
	}
	if ro != nil {
		eff = *ro
	} else {
		eff = def
	}
	if eff.ScoringCriteria == nil {
		eff.ScoringCriteria = def.ScoringCriteria
	}
	var want []kdoc
	total, dropped := 0, 0
	for _, d := range k.docs {
		if q.match(d) {
			total++
			if len(scoreOf(eff.ScoringCriteria, d)) > 0 || orderless {
				want = append(want, d)
			} else {
				dropped++
			}
		}
	}
	n := len(want)
	if count {
		n, want = total, nil // counted before ranking
	} else if orderless {
		sort.Slice(want, func(i, j int) bool { return want[i].id < want[j].id })
	} else {
		sort.Slice(want, func(i, j int) bool {
			a, b := scoreOf(eff.ScoringCriteria, want[i]), scoreOf(eff.ScoringCriteria, want[j])
			if eff.ReverseOrder {
				return lexLess(a, b)
			}
			return lexLess(b, a)
		})
		lo := eff.OutputOffset
		if lo > len(want) {
			lo = len(want)
		}
		hi := len(want)
		if eff.MaxOutputs > 0 && eff.MaxOutputs < hi-lo {
			hi = lo + eff.MaxOutputs
		}
		want = want[lo:hi]
	}
	var a answer
	var toks []string
	switch how {
	case 0:
		r := e.Search(req)
		toks = r.Tokens
		if count && r.Docs != nil {
			return "a count-only search returned documents"
		}
		a = touchDocs(r, k.c.idOnly)
	case 1: // the typed call of the engine's mode
		var r types.SearchResp
		if k.c.idOnly {
			x := e.SearchID(req)
			r.BaseResp, r.Docs = x.BaseResp, types.ScoredIDs(x.Docs)
		} else {
			x := e.SearchDoc(req)
			r.BaseResp, r.Docs = x.BaseResp, types.ScoredDocs(x.Docs)
		}
		toks = r.Tokens
		a = touchDocs(r, k.c.idOnly)
	}
	if a.bad != "" {
		return a.bad
	}
	if a.timeout {
		return "marked as timed out"
	}
	if fmt.Sprintf("%q", toks) != fmt.Sprintf("%q", q.toks()) {
		return fmt.Sprintf("query tokens %v, want %v", toks, q.toks())
	}
	if a.n != n {
		return fmt.Sprintf("reports %d documents, want %d", a.n, n)
	}
	if orderless {
		sort.Slice(a.hits, func(i, j int) bool { return a.hits[i].id < a.hits[j].id })
	}
	if len(a.hits) != len(want) {
		return fmt.Sprintf("returned %d documents, want %d", len(a.hits), len(want))
	}
	for i, d := range want {
		h := a.hits[i]
		if h.id != d.id {
			return fmt.Sprintf("document %d of the answer is %s, want %s", i, h.id, d.id)
		}
		if !orderless {
			if fmt.Sprint(h.scores) != fmt.Sprint(scoreOf(eff.ScoringCriteria, d)) {
				return fmt.Sprintf("document %s has scores %v", h.id, h.scores)
			}
			if !k.c.idOnly {
				x := d.data()
				if h.content != x.Content || h.f != x.Fields || h.attri != x.Attri {
					return fmt.Sprintf("document %s comes with content %q, attribute %v, fields %v", h.id, h.content, h.attri, h.f)
				}
			}
		}
		if q.plain() && k.c.index == types.LocsIndex && len(q.toks()) > 0 {
			var locs [][]int
			for _, t := range q.toks() {
				locs = append(locs, d.pos(t))
			}
			for _, l := range locs {
				if l == nil {
					locs = nil // a label searched as a token: no positions
					break
				}
			}
			if fmt.Sprint(h.locs) != fmt.Sprint(locs) {
				return fmt.Sprintf("document %s has positions %v, want %v", h.id, h.locs, locs)
			}
			if m := bestSnippet(q.toks(), locs, h.snip); m != "" {
				return fmt.Sprintf("document %s with positions %v: %s", h.id, locs, m)
			}
		}
	}
	return ""
}

// bestSnippet: the snippet is one of the choices of a position per token with the least distance.
func bestSnippet(toks []string, locs [][]int, snip []int) string {
	if len(snip) != len(locs) {
		return fmt.Sprintf("snippet positions %v", snip)
	}
	if len(locs) == 0 {
		return ""
	}
	best, got := -1, -1
	cur := make([]int, len(locs))
	var rec func(i int)
	rec = func(i int) {
		if i < len(locs) {
			for _, p := range locs[i] {
				cur[i] = p
				rec(i + 1)
			}
			return
		}
		d := 0
		for j := 1; j < len(cur); j++ {
			x := cur[j] - cur[j-1] - len(toks[j-1])
			if x < 0 {
				x = -x
			}
			d += x
		}
		if best < 0 || d < best {
			best = d
		}
		if fmt.Sprint(cur) == fmt.Sprint(snip) {
			got = d
		}
	}
	rec(0)
	if got != best {
		return fmt.Sprintf("snippet positions %v have the distance %d, the least is %d", snip, got, best)
	}
	return ""
}

func (k *kcase) run(w *rep.W, base int) string {
	asked := 0
	m := run1(w, base, func() string {
		e := k.c.open()
		for i, d := range k.docs {
			e.Index(d.id, d.data(), i%3 == 2)
		}
		e.Flush()
		for _, q := range k.qs {
			try := func(ro *types.RankOpts, count, orderless bool, timeout, how int) string {
				asked++
				if m := k.ask(e, q, ro, count, orderless, timeout, how); m != "" {
					o := "default ranking"
					if ro != nil {
						o = fmt.Sprintf("window (%d,%d) reverse=%v criterion %T", ro.OutputOffset, ro.MaxOutputs, ro.ReverseOrder, ro.ScoringCriteria)
					}
					return fmt.Sprintf("request %v, %s, count=%v orderless=%v timeout=%d typed=%v: %s", q, o, count, orderless, timeout, how == 1, m)
				}
				return ""
			}
			for how := 0; how < 2; how++ {
				for to := 0; to < 2; to++ {
					for _, f := range [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}} {
						if m := try(nil, f[0], f[1], to*100000, how); m != "" {
							return m
						}
					}
				}
			}
			for _, wn := range k.wins {
				for _, rev := range []bool{false, true} {
					for ci, cr := range []types.ScoringCriteria{nil, odd{}} {
						ro := &types.RankOpts{ScoringCriteria: cr, ReverseOrder: rev, OutputOffset: wn[0], MaxOutputs: wn[1]}
						if m := try(ro, false, false, 0, ci); m != "" {
							return m
						}
					}
				}
				if m := try(&types.RankOpts{OutputOffset: wn[0], MaxOutputs: wn[1]}, false, true, 0, 0); m != "" {
					return m
				}
				if m := try(&types.RankOpts{OutputOffset: wn[0], MaxOutputs: wn[1]}, true, false, 100000, 1); m != "" {
					return m
				}
			}
		}
		return ""
	})
	if m == "" {
		w.Nontrivial()
		w.Trans(asked)
		w.StateHash(mc.Hash(fmt.Sprint(k.c, k.docs)))
		w.Outcome(fmt.Sprintf("%d documents", len(k.docs)))
	}
	return m
}

var allQueries = func() []rq {
	ids := func(s string) map[string]bool {
		m := map[string]bool{}
		for i, x := range strings.Fields(s) {
			m[x] = i%2 == 0 // values are ignored
		}
		return m
	}
	return []rq{
		{tokens: "x"}, {tokens: "x y"}, {labels: "L"}, {tokens: "y", labels: "L"}, {text: "X"}, {text: "x y"}, {text: "Y", tokens: "x", labels: "L"},
		{tokens: "x", void: true}, {text: "x", void: true}, {tokens: "x", void: true, logic: types.Logic{Should: true}},
		{tokens: "x L"}, {tokens: "none"}, {},
		{tokens: "x", ids: ids("a c e g")}, {labels: "L", ids: ids("")}, {tokens: "y x", ids: ids("b c zz")},
		{logic: types.Logic{Expr: types.Expr{Must: []string{"x"}, NotIn: []string{"y"}}}},
		{logic: types.Logic{Expr: types.Expr{Should: []string{"x", "L"}}}},
		{logic: types.Logic{Expr: types.Expr{Must: []string{"L"}, Should: []string{"x", "y"}}}, ids: ids("a b d f")},
		{tokens: "x y", logic: types.Logic{Should: true}},
		{tokens: "y", labels: "L", logic: types.Logic{Must: true}},
		{text: "y", logic: types.Logic{Must: true, Expr: types.Expr{NotIn: []string{"L"}}}},
	}
}()

func windows(offs, maxs []int) (ws [][2]int) {
	for _, o := range offs {
		for _, m := range maxs {
			ws = append(ws, [2]int{o, m})
		}
	}
	return
}

// corpora: every assignment of the kinds to nd documents
func corpora(nd int, kinds []int, f func([]kdoc)) {
	sel := make([]int, nd)
	perm := []float32{4, 1, 7, 2, 9, 5, 8, 10}
	for {
		ds := make([]kdoc, 0, nd)
		for i, s := range sel {
			b := kinds[s]
			ds = append(ds, kdoc{id: string(rune('a' + i)), x: b&1 > 0, y: b&2 > 0, l: b&4 > 0, score: perm[i]})
		}
		f(ds)
		i := 0
		for i < nd {
			sel[i]++
			if sel[i] < len(kinds) {
				break
			}
			sel[i] = 0
			i++
		}
		if i == nd {
			return
		}
	}
}

func c08(string) []rep.Part {
	s := small()
	def := func(off, max int, rev bool) *types.RankOpts {
		return &types.RankOpts{ScoringCriteria: crit{}, OutputOffset: off, MaxOutputs: max, ReverseOrder: rev}
	}
	wide := s.sh(3).sg(2)
	wide.ixThreads, wide.rkThreads, wide.buf, wide.cache = 2, 3, 3, 2
	cs := []kcfg{
		{cfg: s}, {cfg: s.sh(2)}, {cfg: s.sh(3)}, {cfg: s.ids()}, {cfg: s.sh(2).ids()}, {cfg: s.sh(3).ids()},
		{cfg: wide}, {cfg: wide.ids()}, {cfg: s.sh(2).it(types.FrequenciesIndex)}, {cfg: s.sh(3).ids().it(types.DocIdsIndex)},
		{cfg: s.sh(2), def: def(1, 1, true)}, {cfg: s.sh(3).ids(), def: def(0, 2, false)}, {cfg: s, def: def(2, 0, false)},
		{cfg: s.sh(5)},
	}
	kinds := [][]int{{1, 3, 6, 4}, {0, 1, 2, 3, 4, 5, 6, 7}, {1, 7}}
	part := func(name string, nd int, kinds []int, offs, maxs []int, thorough bool) rep.Part {
		return rep.Part{Name: name, Thorough: thorough, Run: func(w *rep.W) {
			w.St.Bound = fmt.Sprintf("%d documents, %d kinds of documents, %d configurations, %d queries, offsets %v, maxima %v", nd, len(kinds), len(cs), len(allQueries), offs, maxs)
			for _, c := range cs {
				c := c
				corpora(nd, kinds, func(ds []kdoc) {
					if w.Done() || !w.Next() {
						return
					}
					k := &kcase{c: c, docs: ds, qs: allQueries, wins: windows(offs, maxs)}
					w.Case(func() string { return fmt.Sprintf("[%v] corpus %+v", c, ds) }, func() string { return k.run(w, int(w.St.Cases)%2) })
				})
			}
		}}
	}
	big := math.MaxInt
	// many shards, threads and documents
	many := func(name string, shs, nds []int, thorough bool) rep.Part {
		return rep.Part{Name: name, Thorough: thorough, Run: func(w *rep.W) {
			w.St.Bound = fmt.Sprintf("%v shards, %v documents", shs, nds)
			for _, sh := range shs {
				for _, nd := range nds {
					for v := 0; v < 4; v++ {
						if w.Done() || !w.Next() {
							continue
						}
						c := s.sh(sh)
						c.ixThreads, c.rkThreads, c.buf, c.cache = 1+sh%2, 1+sh/2%3, 1+nd%4, 1+nd/2
						if v&1 > 0 {
							c = c.ids()
						}
						c = c.it([]int{types.LocsIndex, types.DocIdsIndex, types.FrequenciesIndex}[(sh+v)%3])
						k := &kcase{c: kcfg{cfg: c}, wins: windows([]int{0, 3, nd / 2, nd - 1}, []int{0, 1, 10, nd/2 + 1, big})}
						if v&2 > 0 {
							k.c.def = def(nd/3, nd/3+1, sh%2 == 0)
						}
						ids := map[string]bool{}
						for i := 0; i < nd; i++ {
							b := []int{1, 3, 7, 6, 4, 5}[(i*5+v+sh)%6]
							st := 7
							for nd%st == 0 {
								st += 4
							}
							k.docs = append(k.docs, kdoc{id: fmt.Sprintf("doc-%03d", i*3), x: b&1 > 0, y: b&2 > 0, l: b&4 > 0, score: float32(i * st % nd)})
							if i%3 > 0 {
								ids[k.docs[i].id] = i%2 == 0
							}
						}
						for qi, q := range allQueries {
							if qi%4 != (sh+nd+v)%4 {
								continue
							}
							if len(q.ids) > 0 {
								q.ids = ids
							}
							k.qs = append(k.qs, q)
						}
						w.Case(func() string { return fmt.Sprintf("[%v] %d documents", k.c, nd) }, func() string { return k.run(w, v%2) })
					}
				}
			}
		}}
	}
	return []rep.Part{
		many("many shards and documents", []int{1, 2, 4, 7, 8, 9, 12, 16, 17, 33}, []int{12, 30, 70}, false),
		many("more shards and documents", []int{3, 5, 6, 10, 11, 20, 32, 64, 65, 100}, []int{13, 45, 130, 300}, true),
		part("one document", 1, kinds[1], []int{0, 1, 2}, []int{0, 1, 2, big}, false),
		part("two documents", 2, kinds[1], []int{0, 1, 2, 3}, []int{0, 1, 2, 3, big}, false),
		part("three documents", 3, kinds[0], []int{0, 1, 2, 3, 4}, []int{0, 1, 2, 3, 4, big}, false),
		part("five documents", 5, kinds[2], []int{0, 1, 2, 3, 4, 5, 7}, []int{0, 1, 2, 3, 4, 5, 6, big}, false),
		part("three documents, all kinds", 3, kinds[1], []int{0, 1, 2, 3, 4}, []int{0, 1, 2, 3, 4, big}, true),
		part("four documents", 4, kinds[0], []int{0, 1, 2, 3, 4, 5}, []int{0, 1, 2, 3, 4, 5, big - 1}, true),
		part("seven documents", 7, kinds[2], []int{0, 1, 2, 3, 5, 7, 8}, []int{0, 1, 2, 3, 5, 7, 8, big}, true),
	}
}
