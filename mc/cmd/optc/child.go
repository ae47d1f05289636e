package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-vgo/gt/conf"
)

// Spec is types.EngineOpts in a form that can be written down.
type Spec struct {
	NotUseGse, PinYin, UsePhrase, GseMode, Hmm, IDOnly, UseStore, StoreOnly bool
	Using                                                                   int
	GseDict, Stop, Model                                                    string
	Gse, Shards, IBuf, IThr, RBuf, RThr                                     int
	HasIdx                                                                  bool
	Idx, Cache                                                              int
	HasBM                                                                   bool
	K1, B                                                                   float32
	Def                                                                     int // see defs
	Folder, Engine                                                          string
	SShards                                                                 int
}

// Conf is com.Engine without the fields that matter only to requests.
type Conf struct {
	Using, StoreShards, NumShards           int
	StoreEngine, StoreFolder, GseDict, Stop string
}

// byField scores a document by the number in its fields.
type byField struct{}

func (byField) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	n, ok := fields.(int)
	if !ok {
		return []float32{}
	}
	return []float32{float32(n)}
}

// defs are the default ranking options that can be given (nil: none).
func defs(k int) *types.RankOpts {
	switch k {
	case 1:
		return &types.RankOpts{MaxOutputs: 2}
	case 2:
		return &types.RankOpts{ScoringCriteria: byField{}, MaxOutputs: 3}
	case 3:
		return &types.RankOpts{ReverseOrder: true, OutputOffset: 1}
	case 4: // written out: what a missing one stands for
		return &types.RankOpts{ScoringCriteria: types.RankByBM25{}}
	case 5:
		return &types.RankOpts{ScoringCriteria: types.RankByBM25{}, MaxOutputs: 2}
	case 6:
		return &types.RankOpts{ScoringCriteria: types.RankByBM25{}, ReverseOrder: true, OutputOffset: 1}
	}
	return nil
}

func (s Spec) opts() types.EngineOpts {
	o := types.EngineOpts{NotUseGse: s.NotUseGse, Using: s.Using, GseDict: s.GseDict, PinYin: s.PinYin,
		UsePhrase: s.UsePhrase, StopTokenFile: s.Stop, GseMode: s.GseMode, Hmm: s.Hmm, Model: s.Model,
		NumGseThreads: s.Gse, NumShards: s.Shards, IndexerBufLen: s.IBuf, NumIndexerThreads: s.IThr,
		RankerBufLen: s.RBuf, NumRankerThreads: s.RThr, DefRankOpts: defs(s.Def), StoreOnly: s.StoreOnly,
		UseStore: s.UseStore, StoreFolder: s.Folder, StoreShards: s.SShards, StoreEngine: s.Engine, IDOnly: s.IDOnly}
	if s.HasIdx {
		o.IndexerOpts = &types.IndexerOpts{IndexType: s.Idx, DocCacheSize: s.Cache}
		if s.HasBM {
			o.IndexerOpts.BM25Parameters = &types.BM25Parameters{K1: s.K1, B: s.B}
		}
	}
	return o
}

func (c Conf) engine() com.Config {
	return com.Config{Engine: com.Engine{Using: c.Using, StoreShards: c.StoreShards, NumShards: c.NumShards,
		StoreEngine: c.StoreEngine, StoreFolder: c.StoreFolder, GseDict: c.GseDict, StopTokenFile: c.Stop}}
}

const dictText = "世界 100 n\n中国 100 n\n你好 100 n\n世界人口 100 n\nhello 50 n\nworld 50 n\n"

func files() error {
	os.MkdirAll("files", 0700)
	p, _ := filepath.Abs("files/dict.txt")
	if err := os.WriteFile(p, []byte(dictText), 0600); err != nil {
		return err
	}
	return os.WriteFile("files/stop.txt", []byte("hello\n你\n"), 0600)
}

// abs gives the name of a file the options name: case directory /files.
var top string

func at(s string) string {
	if strings.HasPrefix(s, "files/") {
		return filepath.Join(top, s)
	}
	return s
}

func (s Spec) resolve() Spec {
	s.GseDict, s.Stop = at(s.GseDict), at(s.Stop)
	return s
}

// starter starts the engine of the case by its route in the current directory.
func (c Case) starter() func() *riot.Engine {
	switch c.Route {
	case "init":
		g := c.Given.resolve()
		o := g.opts()
		return func() *riot.Engine {
			if !c.Shared {
				o = g.opts()
			}
			e := &riot.Engine{}
			e.Init(o)
			return e
		}
	case "withgse":
		g := c.Given.resolve()
		return func() *riot.Engine {
			var seg gse.Segmenter
			seg.LoadDict(at("files/dict.txt"))
			e := &riot.Engine{}
			if e.WithGse(seg) != e {
				fail("WithGse returned another engine")
			}
			e.Init(g.opts())
			return e
		}
	case "new", "newengine":
		args := append([]interface{}{}, c.Args...)
		for i, a := range args {
			switch v := a.(type) {
			case string:
				args[i] = at(v)
			case float64:
				args[i] = int(v)
			}
		}
		return func() *riot.Engine {
			if c.Route == "new" {
				return riot.New(args...)
			}
			return riot.NewEngine(args...)
		}
	case "toml":
		return func() *riot.Engine {
			p := filepath.Join(top, "files", "engine.toml")
			if err := os.WriteFile(p, []byte(strings.Replace(c.Toml, "\"files/", "\""+top+"/files/", -1)), 0600); err != nil {
				fail(err.Error())
			}
			return riot.New(p)
		}
	case "com", "rpc", "comtoml":
		return func() *riot.Engine {
			com.Searcher = riot.Engine{}
			cf := c.Conf
			cf.GseDict, cf.Stop = at(cf.GseDict), at(cf.Stop)
			switch c.Route {
			case "com":
				com.InitEngine(cf.engine())
			case "rpc":
				rpc.InitEngine(cf.engine())
			case "comtoml":
				p := filepath.Join(top, "files", "riot.toml")
				if err := os.WriteFile(p, []byte(strings.Replace(c.Toml, "\"files/", "\""+top+"/files/", -1)), 0600); err != nil {
					fail(err.Error())
				}
				var config com.Config
				if err := conf.Init(p, &config); err != nil {
					fail(err.Error())
				}
				rpc.InitEngine(config)
			}
			return &com.Searcher
		}
	}
	return nil
}

func fail(s string) {
	emit(result{Msg: s})
	os.Exit(0)
}

var realOut = os.Stdout

func emit(r result) {
	b, _ := json.Marshal(r)
	realOut.Write(b)
}

func child(c0 string) {
	log.SetOutput(os.Stderr)
	var c Case
	if err := json.Unmarshal([]byte(c0), &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n // some backends write there
	}
	top, _ = os.Getwd()
	if err := files(); err != nil {
		fail("harness: " + err.Error())
	}
	if c.Route == "misuse" {
		misuse(c)
		return
	}
	if c.Route == "cache" {
		cache(c)
		return
	}
	os.MkdirAll("dict", 0700)
	os.WriteFile("dict/dictionary.txt", []byte(dictText), 0600)
	in := func(d string) {
		os.MkdirAll(filepath.Join(top, d), 0700)
		if err := os.Chdir(filepath.Join(top, d)); err != nil {
			fail("harness: " + err.Error())
		}
	}
	if c.Before {
		in("before")
		e := &riot.Engine{}
		e.Init(Spec{NotUseGse: true, Shards: 2, HasIdx: true, Idx: 2, Cache: 3, HasBM: true, K1: 0.5, B: 0.1, Def: 2,
			Gse: 1, IBuf: 1, IThr: 1, RBuf: 1, RThr: 1, SShards: 3, UseStore: true, Folder: "other", Engine: "bolt"}.opts())
		x := life{e: e, want: Spec{NotUseGse: true}, c: c}
		x.add()
		e.Flush()
		e.Close()
	}
	want := c.Want.resolve()
	route := c.starter()
	explicit := func() *riot.Engine {
		e := &riot.Engine{}
		e.Init(want.opts())
		return e
	}
	one := func(name string, start func() *riot.Engine, fresh bool) (string, *life) {
		x := &life{e: start(), want: want, c: c}
		s := x.run(fresh)
		if x.bad != "" {
			emit(result{Msg: name + ": " + x.bad, Ops: ops})
			os.Exit(0)
		}
		return s, x
	}
	in("a")
	a, x := one("fresh", route, true)
	a2 := ""
	if want.UseStore {
		a2, _ = one("its folder opened again with the options written out", explicit, false)
	}
	in("b")
	b, _ := one("written-out options", explicit, true)
	b2 := ""
	if want.UseStore {
		b2, _ = one("folder of written-out options opened again", route, false)
	}
	c2 := ""
	if want.UseStore {
		// storage changes nothing but what is on disk
		in("c")
		want.UseStore = false
		c2, _ = one("written-out options without storage", explicit, true)
		want.UseStore = true
	}
	res := result{Ops: ops, Found: x.found, Sum: x.sum}
	h := fnv.New64a()
	io.WriteString(h, a)
	res.Hash = h.Sum64()
	if a != b {
		res.Msg = "differs from an engine with the same options written out: " + diff(a, b)
	} else if a2 != b2 {
		res.Msg = "after opening again, differs from an engine with the same options written out: " + diff(a2, b2)
	}
	var kept []string
	for _, l := range strings.Split(a, "\n") {
		if !strings.HasPrefix(l, "stored ") {
			kept = append(kept, l)
		}
	}
	if k := strings.Join(kept, "\n"); res.Msg == "" && want.UseStore && k != c2 {
		res.Msg = "differs from an engine without storage: " + diff(k, c2)
	}
	emit(res)
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := "(nothing)"
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("got %s, expected %s", x[i], z)
		}
	}
	return "got less than expected: " + y[len(x)]
}

var ops int

// life is one engine from its start to its end, and what it showed.
type life struct {
	e     *riot.Engine
	want  Spec
	c     Case
	out   []string
	bad   string
	found int
	sum   string
}

func (x *life) say(f string, a ...interface{}) { x.out = append(x.out, fmt.Sprintf(f, a...)) }
func (x *life) wrong(f string, a ...interface{}) {
	if x.bad == "" {
		x.bad = fmt.Sprintf(f, a...)
	}
}

const nDocs = 12

func docID(i int) string { return fmt.Sprintf("d%02d", i) }

// kw tokens of document i: "kw" occurs 1+i%5 times at ascending positions; doc lengths differ.
func doc(i int, tokensOnly bool) types.DocData {
	var d types.DocData
	f := 1 + i%5
	loc := []int{}
	for k := 0; k < f; k++ {
		loc = append(loc, 10*k+i)
	}
	d.Tokens = append(d.Tokens, types.TokenData{Text: "kw", Locations: loc})
	for k := 0; k < 1+i/2; k++ {
		d.Tokens = append(d.Tokens, types.TokenData{Text: fmt.Sprintf("t%d", k), Locations: []int{100 + 10*k + i}})
	}
	d.Labels = []string{"all", fmt.Sprintf("m%d", i%3)}
	d.Fields = i * 3
	if !tokensOnly {
		d.Content = []string{"世界人口 Hello", "中国 hello world", "你好 世界", "Hello, 中国", "world 世界", "你好"}[i%6]
		d.Content += strings.Repeat(" 世界", i%4)
	}
	return d
}

func (x *life) add() {
	for i := 0; i < nDocs; i++ {
		x.e.Index(docID(i), doc(i, x.c.Tokens || x.want.NotUseGse))
		ops++
	}
}

func (x *life) run(fresh bool) string {
	if fresh {
		x.add()
		// visible before the flush: only what filled a cache
		for i := 0; x.e.NumIndexed() < nDocs; i++ {
			if i > 100000 {
				x.wrong("%d of %d documents were processed", x.e.NumIndexed(), nDocs)
				return ""
			}
			if i > 1000 {
				time.Sleep(time.Millisecond)
			}
			runtime.Gosched()
		}
		n := x.count()
		x.say("visible before the flush: %d", n)
		if x.want.Shards == 1 {
			c := x.want.Cache
			if exp := nDocs / c * c; n != exp {
				x.wrong("a cache of %d documents: %d of %d are visible before a flush, expected %d", c, n, nDocs, exp)
			}
		}
	}
	x.e.Flush()
	exist := nDocs
	if !fresh {
		exist -= 2
	}
	if n := x.count(); n != exist {
		x.wrong("%d documents, expected %d", n, exist)
	}
	x.battery(fresh)
	if fresh {
		x.e.RemoveDoc(docID(2))
		x.e.RemoveDoc(docID(7), true)
		ops += 2
		x.e.Flush()
		x.say("removed: %d", x.e.NumRemoved())
		x.say("tokens: %d %d", x.e.NumTokenAdded(), x.e.NumTokenIndexAdded())
		x.battery(false)
	}
	if x.want.UseStore {
		ids := x.e.GetDBAllIds()
		sort.Strings(ids)
		x.say("stored %v", ids)
		for i := 0; i < nDocs; i++ {
			if want := i != 2 && i != 7; x.e.HasDocDB(docID(i)) != want {
				x.wrong("HasDocDB(%s) is %v", docID(i), !want)
			}
		}
	}
	for i := 0; i < nDocs; i++ {
		if want := i != 2 && i != 7; x.e.HasDoc(docID(i)) != want {
			x.wrong("HasDoc(%s) is %v", docID(i), !want)
		}
	}
	x.e.Close()
	x.disk()
	return strings.Join(x.out, "\n")
}

func (x *life) count() int {
	ops++
	r := x.e.Search(types.SearchReq{Labels: []string{"all"}, CountDocsOnly: true})
	return r.NumDocs
}

// battery asks the grid of requests.
func (x *life) battery(formula bool) {
	var reqs []types.SearchReq
	for _, q := range []string{"世界", "hello", "Hello 中国", "world 世界", "kw", "世", "nihao", "nh", "人口", "你好世界", "t3", "小明硕士毕业于中国科学院"} {
		reqs = append(reqs, types.SearchReq{Text: q})
	}
	reqs = append(reqs,
		types.SearchReq{Tokens: []string{"kw"}},
		types.SearchReq{Tokens: []string{"kw", "t0"}},
		types.SearchReq{Tokens: []string{"kw"}, Labels: []string{"m1"}},
		types.SearchReq{Labels: []string{"m2"}},
		types.SearchReq{Tokens: []string{"t1"}, Logic: types.Logic{NotIn: true, Expr: types.Expr{Must: []string{"kw"}, NotIn: []string{"t4"}}}},
		types.SearchReq{Tokens: []string{"kw"}, Orderless: true},
		types.SearchReq{Tokens: []string{"kw"}, CountDocsOnly: true},
		types.SearchReq{Tokens: []string{"kw"}, RankOpts: &types.RankOpts{}},
		types.SearchReq{Tokens: []string{"kw"}, RankOpts: &types.RankOpts{MaxOutputs: 4}},
		types.SearchReq{Tokens: []string{"kw"}, RankOpts: &types.RankOpts{ScoringCriteria: byField{}}},
	)
	for i, r := range reqs {
		x.ask(i, r, formula)
	}
}

type row struct {
	id     string
	scores []float32
	snip   []int
	locs   [][]int
	rest   string
}

func (x *life) rows(resp types.SearchResp) []row {
	var rows []row
	switch d := resp.Docs.(type) {
	case types.ScoredDocs:
		if x.want.IDOnly {
			x.wrong("ids only: the answer holds documents")
		}
		for _, r := range d {
			rows = append(rows, row{r.DocId, r.Scores, r.TokenSnippetLocs, r.TokenLocs, fmt.Sprintf("%q %v %v", r.Content, r.Attri, r.Fields)})
		}
	case types.ScoredIDs:
		if !x.want.IDOnly {
			x.wrong("the answer holds ids only")
		}
		for _, r := range d {
			rows = append(rows, row{r.DocId, r.Scores, r.TokenSnippetLocs, r.TokenLocs, ""})
		}
	case nil:
	default:
		x.wrong("the answer holds %T", resp.Docs)
	}
	return rows
}

func (x *life) ask(i int, req types.SearchReq, formula bool) {
	ops++
	resp := x.e.Search(req)
	rows := x.rows(resp)
	all := req
	n := 0
	// how many documents share each score: their order is open
	ties := map[string]int{}
	if !req.Orderless && !req.CountDocsOnly {
		ro := types.RankOpts{}
		if req.RankOpts != nil {
			ro = *req.RankOpts
		} else if x.want.Def != 0 {
			ro = *defs(x.want.Def)
		}
		offset, max := ro.OutputOffset, ro.MaxOutputs
		ro.OutputOffset, ro.MaxOutputs = 0, 0
		all.RankOpts = &ro
		full := x.rows(x.e.Search(all))
		for _, r := range full {
			ties[fmt.Sprint(r.scores)]++
		}
		n = len(full)
		exp := n - offset
		if exp < 0 {
			exp = 0
		}
		if max > 0 && exp > max {
			exp = max
		}
		if len(rows) != exp {
			x.wrong("request %d: %d documents for offset %d, maximum %d of %d", i, len(rows), offset, max, n)
		}
		for k := 1; k < len(rows); k++ {
			if len(rows[k].scores) != 1 || len(rows[k-1].scores) != 1 {
				continue
			}
			d := rows[k-1].scores[0] - rows[k].scores[0]
			if ro.ReverseOrder {
				d = -d
			}
			if d < 0 {
				x.wrong("request %d: scores out of order: %v", i, rows)
			}
		}
	}
	if i == 12 { // tokens kw alone, default ranking
		x.found += resp.NumDocs
		if formula {
			x.formula(rows)
		}
		x.sum = fmt.Sprintf("%d rows of %d", len(rows), resp.NumDocs)
	}
	var ss []string
	for _, r := range rows {
		if ties[fmt.Sprint(r.scores)] > 1 && len(rows) < n {
			ss = append(ss, fmt.Sprintf("? %v", r.scores))
			continue
		}
		ss = append(ss, fmt.Sprintf("%s %v %v %v %s", r.id, r.scores, r.snip, r.locs, r.rest))
		if (r.snip != nil || r.locs != nil) && x.want.Idx != types.LocsIndex {
			x.wrong("request %d: positions in the answer without a position index", i)
		}
	}
	// the criteria of the request, else those of the engine
	own := req.RankOpts != nil && req.RankOpts.ScoringCriteria != nil
	if (own || x.want.Def == 2) && !req.Orderless {
		for _, r := range rows {
			var k int
			fmt.Sscanf(r.id, "d%02d", &k)
			if !reflect.DeepEqual(r.scores, []float32{float32(k * 3)}) {
				x.wrong("request %d, own criteria: %s has scores %v", i, r.id, r.scores)
			}
		}
	}
	var sc []string
	for _, r := range rows {
		sc = append(sc, fmt.Sprint(r.scores))
	}
	sort.Strings(ss)
	x.say("request %d (%q %v): tokens %q total %d timeout %v scores %v documents %v", i, req.Text, req.Tokens, resp.Tokens, resp.NumDocs, resp.Timeout, sc, ss)
}

// formula computes the scores of the token kw over one shard.
func (x *life) formula(rows []row) {
	w := x.want
	if w.Shards != 1 || !x.c.Tokens && !w.NotUseGse {
		return
	}
	if w.Def == 2 {
		for _, r := range rows {
			var k int
			fmt.Sscanf(r.id, "d%02d", &k)
			if !reflect.DeepEqual(r.scores, []float32{float32(k * 3)}) {
				x.wrong("own default criteria: %s has scores %v", r.id, r.scores)
			}
		}
		return
	}
	var total float64
	length := func(i int) float64 { return float64(len(doc(i, true).Tokens)) }
	for i := 0; i < nDocs; i++ {
		total += length(i)
	}
	avg := total / nDocs
	for _, r := range rows {
		var k int
		fmt.Sscanf(r.id, "d%02d", &k)
		exp := 0.0
		if w.Idx != types.DocIdsIndex {
			f := float64(1 + k%5)
			k1, b := float64(w.K1), float64(w.B)
			exp = math.Log2(nDocs/float64(nDocs)+1) * f * (k1 + 1) / (f + k1*(1-b+b*length(k)/avg))
		}
		if len(r.scores) != 1 || math.Abs(float64(r.scores[0])-exp) > 1e-4*(1+exp) {
			x.wrong("%s has scores %v, the formula with k1=%v b=%v gives %v", r.id, r.scores, w.K1, w.B, exp)
		}
		if (len(r.locs) > 0) != (w.Idx == types.LocsIndex) {
			x.wrong("index type %d: positions %v", w.Idx, r.locs)
		}
	}
}

// disk looks at what lies in the working directory once the engine is closed.
func (x *life) disk() {
	var dirs []string
	filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == "." {
			return nil
		}
		if strings.HasPrefix(filepath.Base(p), riot.StoreFilePrefix+".") {
			dirs = append(dirs, p)
			if fi.IsDir() {
				return filepath.SkipDir
			}
		}
		return nil
	})
	sort.Strings(dirs)
	if !x.want.UseStore {
		if len(dirs) > 0 {
			x.wrong("no storage was asked for, but there is %v", dirs)
		}
		if l, _ := os.ReadDir("."); len(l) > 0 {
			x.wrong("no storage was asked for, but there is %v", l[0].Name())
		}
		return
	}
	var exp []string
	for i := 0; i < x.want.SShards; i++ {
		exp = append(exp, filepath.Join(x.want.Folder, fmt.Sprintf("%s.%d", riot.StoreFilePrefix, i)))
	}
	sort.Strings(exp)
	if !reflect.DeepEqual(dirs, exp) {
		x.wrong("databases %v, expected %v", dirs, exp)
		return
	}
	// each is a database of the wanted backend and they hold the live documents
	total := 0
	for _, d := range dirs {
		if k := kind(d); k != x.want.Engine {
			x.wrong("%s is a database of %s, expected %s", d, k, x.want.Engine)
			return
		}
		s, err := store.OpenStore(d, x.want.Engine)
		if err != nil || s == nil {
			x.wrong("%s cannot be opened as %s: %v", d, x.want.Engine, err)
			return
		}
		s.ForEach(func(k, v []byte) error { total++; return nil })
		s.Close()
	}
	if total != nDocs-2 {
		x.wrong("the databases hold %d documents, expected %d", total, nDocs-2)
	}
}

// kind tells the backend of a database by its files.
func kind(d string) string {
	fi, err := os.Stat(d)
	if err != nil {
		return err.Error()
	}
	if !fi.IsDir() {
		return "bolt"
	}
	if _, err := os.Stat(filepath.Join(d, "CURRENT")); err == nil {
		return "ldb"
	}
	if l, _ := filepath.Glob(filepath.Join(d, "*.vlog")); len(l) > 0 {
		return "bg"
	}
	return "unknown"
}

// misuse runs what has to be refused; it prints when it was not.
func misuse(c Case) {
	os.MkdirAll("a", 0700)
	os.Chdir("a")
	say := func(f string, a ...interface{}) { fmt.Fprintf(realOut, f+"\n", a...) }
	base := Spec{NotUseGse: true, Shards: 2, Gse: 1, IBuf: 1, IThr: 1, RBuf: 1, RThr: 1, SShards: 2}
	e := &riot.Engine{}
	switch c.Misuse {
	case "init twice":
		e.Init(base.opts())
		base.Shards = 3
		e.Init(base.opts())
	case "segmenter after init":
		e.Init(base.opts())
		var seg gse.Segmenter
		e.WithGse(seg)
	case "index before init":
		e.Index("1", types.DocData{Content: "a"})
	case "remove before init":
		e.RemoveDoc("1")
	case "search before init":
		e.Search(types.SearchReq{Text: "a"})
	case "flush before init":
		e.Flush()
	case "unknown backend":
		base.UseStore, base.Folder, base.Engine = true, "x", "nosuch"
		e.Init(base.opts())
	case "unknown backend in the environment":
		base.UseStore, base.Folder = true, "x"
		os.Setenv("Riot_Store_Engine", "nosuch")
		e.Init(base.opts())
	case "folder is a file":
		os.WriteFile("x", []byte("mine"), 0600)
		base.UseStore, base.Folder = true, "x"
		e.Init(base.opts())
	case "missing stop file":
		base.NotUseGse, base.GseDict, base.Stop = false, at("files/dict.txt"), "nosuch.txt"
		e.Init(base.opts())
	case "foreign database":
		// a database of another backend in the folder is not taken for an empty one
		base.UseStore, base.Folder, base.Engine = true, "x", "bolt"
		e.Init(base.opts())
		e.Index("1", types.DocData{Content: "a"})
		e.Flush()
		e.Close()
		base.Engine = "ldb"
		e = &riot.Engine{}
		e.Init(base.opts())
	default:
		return
	}
	say("%s: the call returned", c.Misuse)
}

// cache: the default number of cached documents. Up to one less, nothing is visible before a flush; the
// last one makes all of them visible.
func cache(c Case) {
	g := Spec{NotUseGse: true, Shards: 1}
	if c.Args[0].(float64) == 1 {
		g.HasIdx, g.Idx = true, 2
	}
	e := &riot.Engine{}
	e.Init(g.opts())
	const def = 300000
	i := 0
	upTo := func(n int) int {
		for ; i < n; i++ {
			e.Index(fmt.Sprint(i+1), types.DocData{Labels: []string{"all"}})
		}
		for e.NumIndexed() < uint64(n) {
			time.Sleep(time.Millisecond)
		}
		ops += n
		return e.Search(types.SearchReq{Labels: []string{"all"}, CountDocsOnly: true}).NumDocs
	}
	for _, n := range []int{1, 1000, def / 2, def - 1} {
		if f := upTo(n); f != 0 {
			fail(fmt.Sprintf("%d of %d documents are visible before a flush, the default cache holds %d", f, n, def))
		}
	}
	if f := upTo(def); f != def {
		fail(fmt.Sprintf("the default cache of %d is full, but %d documents are visible", def, f))
	}
	// no window by default
	r := e.SearchDoc(types.SearchReq{Labels: []string{"all"}})
	if len(r.Docs) != def || r.NumDocs != def {
		fail(fmt.Sprintf("%d of %d documents without a window", len(r.Docs), def))
	}
	emit(result{Ops: ops, Found: def, Sum: "cache"})
}
