package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"

	"github.com/go-ego/gpy"
	"github.com/go-ego/gpy/phrase"
	"github.com/go-ego/gse"
	riot "github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"vmc/mc"
	"vmc/rep"
)

// tcfg is a tokenisation mode.
type tcfg struct {
	noGse, search, hmm, pinyin, phrase, dictFile bool
	using, index                                 int
}

func (c tcfg) String() string {
	return fmt.Sprintf("NotUseGse=%v Using=%d GseMode=%v Hmm=%v PinYin=%v UsePhrase=%v dictionary file=%v index=%d", c.noGse, c.using, c.search, c.hmm, c.pinyin, c.phrase, c.dictFile, c.index)
}

var tDict = "中国 100 n\n国人 90 n\n中国人 20 n\n人民 50 n\n民 5 n\nab 30 n\n"
var tStop = []string{",", "国人", "b", "民", "stop", "two words"}

var tSeg struct {
	ok bool
	s  gse.Segmenter
}

// segmenter is the library with the small dictionary; it is read only.
func segmenter() gse.Segmenter {
	if !tSeg.ok {
		mkScratch()
		os.WriteFile(rep.Scratch+"/dict.txt", []byte(tDict), 0600)
		os.WriteFile(rep.Scratch+"/stop.txt", []byte(stopFile()), 0600)
		tSeg.s.LoadDict(rep.Scratch + "/dict.txt")
		phrase.WithGse(tSeg.s)
		tSeg.ok = true
	}
	return tSeg.s
}

// stopFile is the text of the stop word file: lines ended in both ways, an empty one, and no end after the last.
func stopFile() string {
	s := ""
	for i, t := range tStop {
		s += t + []string{"\r\n", "\n", "\n\n"}[i%3]
	}
	return strings.TrimRight(s, "\n")
}

func (c tcfg) stop(t string) bool {
	if c.noGse {
		return false
	}
	for _, s := range tStop {
		if s == t {
			return true
		}
	}
	return false
}

// where of a key: known positions, or unspecified
type where struct {
	locs  []int
	known bool
}

type keys map[string]where

// pieces adds the non-empty pieces and their cumulative concatenations.
func (c tcfg) pieces(k keys, ps []string) {
	cum := ""
	for i, p := range ps {
		if p == "" {
			continue
		}
		cum += p
		add := []string{p, cum}
		if c.using == 6 {
			in := ""
			for _, q := range ps[i+1:] {
				in += q
				add = append(add, in)
			}
		}
		for _, a := range add {
			if _, ok := k[a]; !ok && !c.stop(a) {
				k[a] = where{}
			}
		}
	}
}

func (c tcfg) segmented(k keys, content string) {
	s := segmenter()
	for _, g := range s.ModeSegment([]byte(strings.ToLower(content)), c.search) {
		t := g.Token().Text()
		if !c.stop(t) {
			k[t] = where{append(k[t].locs, g.Start()), true}
		}
	}
}

// keysOf is the set of keys the mode prescribes.
func (c tcfg) keysOf(content string, toks []types.TokenData, labels []string) keys {
	k := keys{}
	low := strings.ToLower(content)
	own := true
	if content != "" {
		switch {
		case c.noGse && c.using == 0, c.using == 4:
			c.pieces(k, strings.Split(low, " "))
		case c.using == 0:
			c.segmented(k, content)
		case c.using == 1:
			c.segmented(k, content)
			own = false
		case c.using == 3:
			c.segmented(k, content)
			c.pieces(k, strings.Split(low, ""))
		case c.using == 5, c.using == 6:
			c.pieces(k, strings.Split(low, ""))
		}
	}
	if own {
		for _, t := range toks {
			if !c.stop(t.Text) {
				k[t.Text] = where{t.Locations, true}
			}
		}
	}
	if c.pinyin {
		for _, p := range c.pinyins(content) {
			if _, ok := k[p]; !ok && p != "" && !c.stop(p) {
				k[p] = where{}
			}
		}
	}
	for _, l := range labels {
		if _, ok := k[l]; !ok && !c.stop(l) {
			k[l] = where{nil, true}
		}
	}
	return k
}

func (c tcfg) pinyins(content string) (ps []string) {
	if c.phrase {
		segmenter()
		return phrase.Pinyin(content)
	}
	cum := ""
	for _, r := range strings.Split(content, "") {
		cum += r
		ps = append(ps, r, cum)
	}
	if !c.noGse {
		s := segmenter()
		if c.search {
			ps = append(ps, s.CutSearch(content, c.hmm)...)
		} else {
			ps = append(ps, s.Cut(content, c.hmm)...)
		}
	}
	py, in := "", ""
	for _, p := range gpy.LazyConvert(content, nil) {
		py += p
		ps = append(ps, py)
		if p != "" {
			in += p[:1]
			ps = append(ps, in)
		}
	}
	return
}

// query is the tokens of a text query.
func (c tcfg) query(text string) (ts []string) {
	low := strings.ToLower(text)
	var all []string
	switch {
	case low == "":
	case c.noGse:
		for _, p := range strings.Split(low, " ") {
			if p != "" {
				all = append(all, p)
			}
		}
	case c.search:
		s := segmenter()
		all = s.CutSearch(low, c.hmm)
	default:
		s := segmenter()
		all = s.Cut(low, c.hmm)
	}
	for _, t := range all {
		if !c.stop(t) {
			ts = append(ts, t)
		}
	}
	return
}

func (c tcfg) open() *riot.Engine {
	e := &riot.Engine{}
	o := types.EngineOpts{
		NotUseGse: c.noGse, Using: c.using, GseMode: c.search, Hmm: c.hmm, PinYin: c.pinyin, UsePhrase: c.phrase, StopTokenFile: rep.Scratch + "/stop.txt",
		NumGseThreads: 1, NumShards: 1, IndexerBufLen: 2, NumIndexerThreads: 1, RankerBufLen: 2, NumRankerThreads: 1, StoreShards: 1,
		IndexerOpts: &types.IndexerOpts{IndexType: c.index, DocCacheSize: 4, BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}},
		DefRankOpts: &types.RankOpts{ScoringCriteria: types.RankByBM25{}},
	}
	if !c.noGse || c.phrase {
		s := segmenter()
		if c.dictFile {
			o.GseDict = rep.Scratch + "/dict.txt"
		} else if !c.noGse {
			e.WithGse(s)
		}
	}
	e.Init(o)
	return e
}

type extra struct {
	toks   []types.TokenData
	labels []string
}

var extras = []extra{
	{},
	{toks: []types.TokenData{{Text: "中国", Locations: []int{7}}, {Text: "Foo", Locations: []int{0, 9}}}},
	{toks: []types.TokenData{{Text: "stop", Locations: []int{1}}, {Text: "a", Locations: []int{3}}}, labels: []string{"中国", "L"}},
	{labels: []string{"a", "stop", "人", "zhongguo", "ab"}},
	{toks: []types.TokenData{{Text: "zg", Locations: []int{40}}, {Text: "人", Locations: nil}}, labels: []string{"人", "zg"}},
	{toks: []types.TokenData{{Text: "two words", Locations: []int{2}}, {Text: "two", Locations: []int{5}}}, labels: []string{"words", "two words"}},
}

// judgeText indexes one document and checks its keys, then removes it.
func (c tcfg) judgeText(e *riot.Engine, id, content string, x extra) string {
	want := c.keysOf(content, x.toks, x.labels)
	// the engine gets its own copies
	d := types.DocData{Content: content, Labels: append([]string(nil), x.labels...), Fields: 1}
	for _, t := range x.toks {
		d.Tokens = append(d.Tokens, types.TokenData{Text: t.Text, Locations: append([]int(nil), t.Locations...)})
	}
	before := e.NumTokenAdded()
	e.Index(id, d)
	e.Flush()
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if n := e.NumTokenAdded() - before; n != uint64(len(ks)) {
		return fmt.Sprintf("indexed under %d keys, want the %d keys %q", n, len(ks), ks)
	}
	for _, k := range ks {
		r := e.SearchDoc(types.SearchReq{Tokens: []string{k}})
		if len(r.Docs) != 1 || r.NumDocs != 1 || r.Docs[0].DocId != id || r.Docs[0].Content != content {
			return fmt.Sprintf("key %q finds %d documents (keys %q)", k, r.NumDocs, ks)
		}
		w := want[k]
		if !w.known {
			continue
		}
		if c.index == types.LocsIndex {
			var l [][]int
			if len(w.locs) > 0 {
				l = [][]int{w.locs}
			}
			if fmt.Sprint(r.Docs[0].TokenLocs) != fmt.Sprint(l) {
				return fmt.Sprintf("key %q has positions %v, want %v", k, r.Docs[0].TokenLocs, l)
			}
		}
		if c.index != types.DocIdsIndex {
			f := float64(len(w.locs))
			if b := f * 3 / (f + 2); math.Abs(b-float64(r.Docs[0].Scores[0])) > 1e-3 {
				return fmt.Sprintf("key %q has score %v, want %v (frequency %v)", k, r.Docs[0].Scores[0], b, f)
			}
		}
	}
	// keys it must not have
	for _, k := range append([]string{"", "none", "国人", "stop", ",", "foo"}, strings.Split(content, "")...) {
		if _, ok := want[k]; !ok {
			if r := e.Search(types.SearchReq{Tokens: []string{k}, CountDocsOnly: true}); r.NumDocs != 0 {
				return fmt.Sprintf("key %q finds the document, its keys are %q", k, ks)
			}
		}
	}
	// the text as a query, as it is and in upper case
	for _, q := range []string{content, strings.ToUpper(content)} {
		ts := c.query(q)
		r := e.SearchDoc(types.SearchReq{Text: q})
		if fmt.Sprintf("%q", r.Tokens) != fmt.Sprintf("%q", ts) {
			return fmt.Sprintf("text query %q has tokens %q, want %q", q, r.Tokens, ts)
		}
		all := len(ts) > 0
		for _, t := range ts {
			_, ok := want[t]
			all = all && ok
		}
		if all != (len(r.Docs) == 1) {
			return fmt.Sprintf("text query %q (tokens %q) finds %d documents, the document has keys %q", q, ts, len(r.Docs), ks)
		}
	}
	// text and tokens add up
	ts := append(c.query(content), "Foo")
	if got := e.Tokens(types.SearchReq{Text: content, Tokens: []string{"Foo"}}); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", ts) {
		return fmt.Sprintf("query of text and token Foo has tokens %q, want %q", got, ts)
	}
	e.RemoveDoc(id)
	e.Flush()
	for _, k := range ks {
		if r := e.Search(types.SearchReq{Tokens: []string{k}}); r.NumDocs != 0 {
			return fmt.Sprintf("key %q still finds the removed document", k)
		}
	}
	return ""
}

var tSyms = []string{"中", "国", "人", "a", "B", " ", ",", "É"}

func textsPart(name string, cs []tcfg, syms []string, n int, thorough bool) rep.Part {
	return rep.Part{Name: name, Thorough: thorough, Run: func(w *rep.W) {
		segmenter()
		w.St.Bound = fmt.Sprintf("%d modes, every text of up to %d of the symbols %q, %d combinations of tokens and labels", len(cs), n, syms, len(extras))
		var texts func(p string, n int, f func(string))
		texts = func(p string, n int, f func(string)) {
			f(p)
			if n > 0 {
				for _, s := range syms {
					texts(p+s, n-1, f)
				}
			}
		}
		for _, c := range cs {
			c := c
			texts("", n, func(t string) {
				if w.Done() || !w.Next() {
					return
				}
				w.Case(func() string { return fmt.Sprintf("[%v] text %q", c, t) }, func() string {
					m := run1(w, 0, func() string {
						e := c.open()
						for i, x := range extras {
							if m := c.judgeText(e, fmt.Sprintf("d%d", i), t, x); m != "" {
								return fmt.Sprintf("with tokens %v, labels %q: %s", x.toks, x.labels, m)
							}
						}
						return ""
					})
					if m == "" {
						w.Nontrivial()
						w.StateHash(mc.Hash(fmt.Sprint(c, t)))
						w.Outcome(fmt.Sprintf("%d keys", len(c.keysOf(t, nil, nil))))
					}
					return m
				})
			})
		}
	}}
}

// longTexts: every length up to n of several patterns.
func longTexts(name string, cs []tcfg, ns []int, thorough bool) rep.Part {
	pats := [][]string{
		{"a", "B", " ", "中", "国", "人", " "}, {"中", "国", "人", "民"}, {"w", "o", "R", "d", "s", " "}, {"É", "ab", ",", " ", " ", "民"}, {"x"}, {"ab ", "Ab ", "aB "},
	}
	return rep.Part{Name: name, Thorough: thorough, Run: func(w *rep.W) {
		segmenter()
		w.St.Bound = fmt.Sprintf("%d modes, %d patterns of %v symbols", len(cs), len(pats), ns)
		for ci, c := range cs {
			for pi, p := range pats {
				for _, n := range ns {
					if w.Done() || !w.Next() {
						continue
					}
					t := ""
					for i := 0; i < n; i++ {
						t += p[(i+i/len(p)*pi)%len(p)]
					}
					w.Case(func() string { return fmt.Sprintf("[%v] text of %d symbols %q", c, n, t) }, func() string {
						x := extras[(n+ci)%len(extras)]
						m := run1(w, 0, func() string { return c.judgeText(c.open(), "d", t, x) })
						if m == "" {
							w.Nontrivial()
							w.StateHash(mc.Hash(fmt.Sprint(c, t)))
						}
						return m
					})
				}
			}
		}
	}}
}

// manyTokens: every number of tokens with many positions and of labels.
func manyTokens(name string, cs []tcfg, ns []int) rep.Part {
	return rep.Part{Name: name, Run: func(w *rep.W) {
		segmenter()
		w.St.Bound = fmt.Sprintf("%d modes, %v tokens and labels", len(cs), ns)
		for _, c := range cs {
			for _, n := range ns {
				if w.Done() || !w.Next() {
					continue
				}
				var x extra
				for i := 0; i < n; i++ {
					l := make([]int, 1+i*3%n)
					for j := range l {
						l[j] = j*(i+2) + i
					}
					x.toks = append(x.toks, types.TokenData{Text: fmt.Sprintf("T%d%s", i, strings.Repeat("字", i%9)), Locations: l})
					x.labels = append(x.labels, fmt.Sprintf("L%d", i))
				}
				w.Case(func() string { return fmt.Sprintf("[%v] %d tokens and labels", c, n) }, func() string {
					for _, t := range []string{"", "中国 ab"} {
						if m := run1(w, 0, func() string { return c.judgeText(c.open(), "d", t, x) }); m != "" {
							return fmt.Sprintf("with text %q: %s", t, m)
						}
					}
					w.Nontrivial()
					w.StateHash(mc.Hash(fmt.Sprint(c, n)))
					return ""
				})
			}
		}
	}}
}

func c07(string) []rep.Part {
	L, F := types.LocsIndex, types.FrequenciesIndex
	var noGse, withGse []tcfg
	for _, u := range []int{0, 2, 4, 5, 6} {
		noGse = append(noGse, tcfg{noGse: true, using: u, index: L})
	}
	for _, u := range []int{0, 1, 2, 3, 4, 5, 6} {
		withGse = append(withGse, tcfg{using: u, index: L})
	}
	for _, u := range []int{0, 1, 3} {
		withGse = append(withGse, tcfg{using: u, index: F, search: true})
	}
	more := []tcfg{
		{using: 0, index: F, hmm: true}, {using: 3, index: L, hmm: true, search: true}, {using: 0, index: L, dictFile: true},
		{noGse: true, using: 0, index: F}, {using: 4, index: F}, {using: 6, index: types.DocIdsIndex},
	}
	var pin []tcfg
	for _, u := range []int{0, 1, 2, 3, 4} {
		pin = append(pin, tcfg{using: u, index: L, pinyin: true})
	}
	pin = append(pin, tcfg{noGse: true, using: 0, index: L, pinyin: true}, tcfg{using: 0, index: F, pinyin: true, search: true, hmm: true})
	ph := []tcfg{{using: 0, index: L, pinyin: true, phrase: true}, {using: 3, index: F, pinyin: true, phrase: true}, {noGse: true, using: 0, index: L, pinyin: true, phrase: true}, {using: 5, index: L, pinyin: true, phrase: true, search: true}}
	return []rep.Part{
		textsPart("without segmenter", noGse, tSyms, 4, false),
		textsPart("with segmenter", withGse, tSyms, 4, false),
		textsPart("segmenter options", more, tSyms, 3, false),
		textsPart("pinyin", pin, tSyms, 3, false),
		textsPart("pinyin of phrases", ph, tSyms, 3, false),
		textsPart("longer texts", []tcfg{{using: 0, index: L}, {using: 3, index: L}, {noGse: true, index: L}}, []string{"中", "国", "人", "民", " "}, 5, false),
		textsPart("unusual symbols", append(append(append([]tcfg(nil), noGse...), withGse...), pin[0], pin[5], ph[0]), []string{"\t", "\n", "\u00a0", "\u3000", "İ", "ß", "ǅ", "\xff", "e\u0301", "😀", "1", "a"}, 2, false),
		longTexts("long texts", append(append([]tcfg(nil), noGse...), withGse...), append(seqInts(6, 20), 33), false),
		longTexts("long texts, pinyin", append(append([]tcfg(nil), pin...), ph...), []int{6, 7, 8, 12, 17, 33}, false),
		manyTokens("many tokens and labels", append(append([]tcfg(nil), noGse...), withGse...), append(seqInts(1, 12), 33, 70)),
		textsPart("unusual symbols, longer", append(append([]tcfg(nil), noGse...), withGse...), []string{"\t", "\n", "\u00a0", "İ", "ß", "ǅ", "\xff", "e\u0301", "😀", "a"}, 3, true),
		longTexts("longer texts still", append(append(append([]tcfg(nil), noGse...), withGse...), more...), append(seqInts(21, 40), 64, 65, 100, 129), true),
		textsPart("without segmenter, longer", noGse, tSyms, 5, true),
		textsPart("with segmenter, longer", append(withGse, more...), tSyms, 4, true),
		textsPart("pinyin, longer", append(pin, ph...), tSyms, 4, true),
		textsPart("han texts", append(append([]tcfg(nil), withGse...), pin...), []string{"中", "国", "人", "民", ",", "A"}, 5, true),
	}
}

func seqInts(a, b int) (r []int) {
	for ; a <= b; a++ {
		r = append(r, a)
	}
	return
}
