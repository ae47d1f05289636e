package main

import (
	"encoding/gob"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	riot "github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"

	"vmc/mc"
	"vmc/rep"
)

// ---- storage backend kept in memory ----

// sop is one storage operation that changed the data.
type sop struct {
	path, key, val string
	del            bool
}

// disk is the surviving storage of one execution.
type disk struct {
	data   map[string]map[string]string
	ops    []sop
	fail   int // the n-th write (1-based) fails, if positive
	writes int
	opens  map[string]int
	misuse string
}

var theDisk *disk

func newDisk() *disk { return &disk{data: map[string]map[string]string{}, opens: map[string]int{}} }

// copyOf is the data after the first n operations.
func (d *disk) prefix(n int) *disk {
	c := newDisk()
	for p := range d.data {
		c.data[p] = map[string]string{}
	}
	for _, o := range d.ops[:n] {
		c.apply(o)
	}
	return c
}

func (d *disk) apply(o sop) {
	if d.data[o.path] == nil {
		d.data[o.path] = map[string]string{}
	}
	if o.del {
		delete(d.data[o.path], o.key)
	} else {
		d.data[o.path][o.key] = o.val
	}
}

func (d *disk) keys() []string {
	var ks []string
	for _, m := range d.data {
		for k := range m {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

type memDB struct {
	d      *disk
	path   string
	closed bool
}

func (m *memDB) use(op string) {
	mc.Point("store." + op)
	if m.closed && m.d.misuse == "" {
		m.d.misuse = op + " on a closed database"
	}
}

func (m *memDB) Set(k, v []byte) error {
	m.use("Set")
	m.d.writes++
	if m.d.writes == m.d.fail {
		return errors.New("injected write failure")
	}
	o := sop{path: m.path, key: string(k), val: string(v)}
	m.d.ops = append(m.d.ops, o)
	m.d.apply(o)
	return nil
}

func (m *memDB) Delete(k []byte) error {
	m.use("Delete")
	m.d.writes++
	if m.d.writes == m.d.fail {
		return errors.New("injected write failure")
	}
	o := sop{path: m.path, key: string(k), del: true}
	m.d.ops = append(m.d.ops, o)
	m.d.apply(o)
	return nil
}

func (m *memDB) Get(k []byte) ([]byte, error) {
	m.use("Get")
	v, ok := m.d.data[m.path][string(k)]
	if !ok {
		return nil, errors.New("not found")
	}
	return []byte(v), nil
}

func (m *memDB) Has(k []byte) (bool, error) {
	m.use("Has")
	_, ok := m.d.data[m.path][string(k)]
	return ok, nil
}

func (m *memDB) ForEach(fn func(k, v []byte) error) error {
	m.use("ForEach")
	var ks []string
	for k := range m.d.data[m.path] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	vs := make([]string, len(ks))
	for i, k := range ks {
		vs[i] = m.d.data[m.path][k]
	}
	kb, vb := make([]byte, 0, 64), make([]byte, 0, 1024)
	for i, k := range ks {
		// as with real backends, the slices are only valid during the call
		kb = append(kb[:0], k...)
		vb = append(vb[:0], vs[i]...)
		if err := fn(kb, vb); err != nil {
			return err
		}
	}
	return nil
}

func (m *memDB) Close() error {
	m.use("Close")
	m.closed = true
	m.d.opens[m.path]--
	return nil
}

func (m *memDB) WALName() string { return m.path }

func init() {
	gob.Register(fields{})
	gob.Register(att{})
	store.RegisterStore("vmem", func(path string) (store.Store, error) {
		mc.Point("store.Open")
		d := theDisk
		if d.opens[path] > 0 && d.misuse == "" {
			d.misuse = "database opened twice: " + path
		}
		d.opens[path]++
		if d.data[path] == nil {
			d.data[path] = map[string]string{}
		}
		return &memDB{d: d, path: path}, nil
	})
}

// ---- engine configuration ----

type cfg struct {
	shards, gse, ixThreads, rkThreads, buf, cache int
	idOnly                                        bool
	store                                         int // storage shards, 0: no persistence
	index                                         int
	bm25, py                                      bool
}

func (c cfg) String() string {
	return fmt.Sprintf("shards=%d segmenters=%d lookups=%d rankers=%d buffers=%d cache=%d idOnly=%v storeShards=%d index=%d",
		c.shards, c.gse, c.ixThreads, c.rkThreads, c.buf, c.cache, c.idOnly, c.store, c.index)
}

// base configuration: one of everything
func small() cfg {
	return cfg{shards: 1, gse: 1, ixThreads: 1, rkThreads: 1, buf: 1, cache: 4, index: types.LocsIndex}
}

// crit scores by the number kept in the fields, and requires the document's own fields.
type crit struct{}

func (crit) Score(d types.IndexedDoc, f interface{}) []float32 {
	fl, ok := f.(fields)
	if !ok {
		return nil
	}
	if d := slowDocs[fl.Id]; d > 0 {
		mc.Nap(d)
	}
	return []float32{fl.Score}
}

// slowDocs are the documents whose score takes time to compute.
var slowDocs map[string]time.Duration

// att is the attribute of a test document.
type att struct {
	Id  string
	Ver int
}

// fields of a test document.
type fields struct {
	Id    string
	Ver   int
	Score float32
}

func (c cfg) opts() types.EngineOpts {
	o := types.EngineOpts{
		NotUseGse: true, NumGseThreads: c.gse, NumShards: c.shards,
		IndexerBufLen: c.buf, NumIndexerThreads: c.ixThreads, RankerBufLen: c.buf, NumRankerThreads: c.rkThreads,
		IndexerOpts: &types.IndexerOpts{IndexType: c.index, DocCacheSize: c.cache},
		DefRankOpts: &types.RankOpts{ScoringCriteria: crit{}},
		IDOnly:      c.idOnly, StoreShards: 1,
	}
	if c.bm25 {
		o.DefRankOpts = &types.RankOpts{ScoringCriteria: types.RankByBM25{}}
	}
	if c.store > 0 {
		o.UseStore, o.StoreShards, o.StoreEngine = true, c.store, "vmem"
		o.StoreFolder = rep.Scratch + "/db"
	}
	return o
}

func (c cfg) open() *riot.Engine {
	e := &riot.Engine{}
	if c.store > 0 && theDisk == nil {
		theDisk = newDisk()
	}
	o := c.opts()
	if c.py {
		o.NotUseGse, o.PinYin, o.UsePhrase = false, true, true
		e.WithGse(segmenter())
	}
	e.Init(o)
	return e
}

// ---- documents ----

// doc is a version of a document: its keys depend on the version.
type doc struct {
	id     string
	ver    int
	tokens []string
	labels []string
	raw    bool // cannot be encoded for storage
	lack   int  // parts that are missing: 1 content, 2 fields, 4 attribute
	bare   bool // no content, and so no key at all when it has no tokens and labels
	pad    int  // further bytes of content
	nloc   int  // further positions of every token
}

// unreg is an attribute that gob does not know.
type unreg struct {
	Id  string
	Ver int
}

func (d doc) attri() interface{} {
	if d.lack&4 != 0 {
		return nil
	}
	if d.raw {
		return unreg{d.id, d.ver}
	}
	return att{d.id, d.ver}
}

func (d doc) flds() interface{} {
	if d.lack&2 != 0 {
		return nil
	}
	return fields{d.id, d.ver, d.score()}
}

func (d doc) data() types.DocData {
	t := types.DocData{Content: d.content(), Labels: append([]string(nil), d.labels...), Fields: d.flds(), Attri: d.attri()}
	for i, k := range d.tokens {
		t.Tokens = append(t.Tokens, types.TokenData{Text: k, Locations: d.locs(i)})
	}
	return t
}

// locs are the positions of the i-th token.
func (d doc) locs(i int) []int {
	l := []int{i*4 + d.ver}
	for j := 1; j <= d.nloc; j++ {
		l = append(l, l[0]+j*4096)
	}
	return l
}

func (d doc) content() string {
	if d.bare || d.lack&1 != 0 {
		return ""
	}
	return fmt.Sprintf("zz%s%d", strings.Replace(d.id, " ", "_", -1), d.ver) + strings.Repeat("q", d.pad)
}
func (d doc) score() float32 {
	h := 0
	for _, c := range d.id {
		h = h*7 + int(c-'a')
	}
	return float32(h*10 + d.ver)
}

func (d doc) has(k string) bool {
	for _, t := range d.tokens {
		if t == k {
			return true
		}
	}
	for _, t := range d.labels {
		if t == k {
			return true
		}
	}
	return false
}

// hit is one document of an answer.
type hit struct {
	id, content string
	f           interface{}
	attri       interface{}
	scores      []float32
	locs        [][]int
	snip        []int
}

type answer struct {
	hits    []hit
	n       int
	timeout bool
	nilDocs bool
	bad     string
}

// touchDocs copies everything out of an answer.
func touchDocs(r types.SearchResp, idOnly bool) answer {
	a := answer{n: r.NumDocs, timeout: r.Timeout}
	cp := func(ll [][]int) (o [][]int) {
		for _, l := range ll {
			o = append(o, append([]int(nil), l...))
		}
		return
	}
	switch ds := r.Docs.(type) {
	case nil:
		a.nilDocs = true
	case types.ScoredDocs:
		if idOnly {
			a.bad = "full documents from an id-only engine"
		}
		for _, d := range ds {
			a.hits = append(a.hits, hit{d.DocId, d.Content, d.Fields, d.Attri, append([]float32(nil), d.Scores...), cp(d.TokenLocs), append([]int(nil), d.TokenSnippetLocs...)})
		}
	case types.ScoredIDs:
		if !idOnly {
			a.bad = "ids from an engine with full output"
		}
		for _, d := range ds {
			a.hits = append(a.hits, hit{id: d.DocId, scores: append([]float32(nil), d.Scores...), locs: cp(d.TokenLocs), snip: append([]int(nil), d.TokenSnippetLocs...)})
		}
	default:
		a.bad = fmt.Sprintf("unexpected result type %T", r.Docs)
	}
	return a
}

// ---- histories ----

// op is one client call.
type op struct {
	k       byte // i index, r remove, f flush, s search, c count, h HasDoc, d HasDocDB, l listings, n counters, o orderless search, z close, Z close and reopen, F force by an addition of no document, Q by a removal
	d       doc
	force   bool
	key     string
	timeout int
	n       int
}

func (o op) String() string {
	switch o.k {
	case 'i':
		return fmt.Sprintf("index(%s v%d %v force=%v)", o.d.id, o.d.ver, o.d.tokens, o.force)
	case 'r':
		return fmt.Sprintf("remove(%s force=%v)", o.d.id, o.force)
	case 'F':
		return `index("0" force=true)`
	case 'Q':
		return `remove("0" force=true)`
	case 'f':
		if o.n == 1 {
			return "FlushIndex"
		}
		return "flush"
	case 's':
		if o.n == 1 {
			return "typed search(" + o.key + ")"
		}
		return "search(" + o.key + ")"
	case 'c':
		return "count(" + o.key + ")"
	case 'o':
		return "orderless(" + o.key + ")"
	case 'h':
		return "HasDoc(" + o.d.id + ")"
	case 'd':
		return "HasDocDB(" + o.d.id + ")"
	case 'l':
		return "stored documents"
	case 'Z':
		return fmt.Sprintf("reopen(shards %d)", o.n)
	case 'n':
		return "counters"
	case 'z':
		return "close"
	}
	return "?"
}

func ops(os []op) string {
	var s []string
	for _, o := range os {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

func ix(id string, ver int, keys ...string) op {
	return op{k: 'i', d: doc{id: id, ver: ver, tokens: keys}}
}
func bare(id string, ver int) op { return op{k: 'i', d: doc{id: id, ver: ver, bare: true}} }
func rm(id string) op            { return op{k: 'r', d: doc{id: id}} }
func fl() op                     { return op{k: 'f'} }
func ty(o op) op                 { o.n = 1; return o }
func fx() op                     { return op{k: 'f', n: 1} }
func fi() op                     { return op{k: 'F'} }
func fr() op                     { return op{k: 'Q'} }
func se(key string) op           { return op{k: 's', key: key} }
func ct(key string) op           { return op{k: 'c', key: key} }
func ol(key string) op           { return op{k: 'o', key: key} }
func hd(id string) op            { return op{k: 'h', d: doc{id: id}} }
func nn() op                     { return op{k: 'n'} }
func ls() op                     { return op{k: 'l'} }
func db(id string) op            { return op{k: 'd', d: doc{id: id}} }
func zz() op                     { return op{k: 'Z'} }
func forced(o op) op             { o.force = true; return o }

// event is one executed call with its invocation and return times.
type event struct {
	op
	inv, ret int
	ans      answer
	num      [3]uint64
	has      bool
	ids      [][]string      // listings
	docs     []types.DocData // data of the second listing
	logN     int             // storage operations when the call returned
}

type run struct {
	byID  map[string][]*event // changes by document, once the history is complete (see index)
	syncs []*event
	c     cfg
	e     *riot.Engine
	clock int
	ev    []*event
	timed bool
}

func (r *run) tick() int { r.clock++; return r.clock }

// do performs one call.
func (r *run) do(o op) *event {
	ev := &event{op: o, ret: 1 << 30}
	r.ev = append(r.ev, ev)
	ev.inv = r.tick()
	switch o.k {
	case 'i':
		if o.force {
			r.e.Index(o.d.id, o.d.data(), true)
		} else {
			r.e.Index(o.d.id, o.d.data())
		}
	case 'r':
		if o.force {
			r.e.RemoveDoc(o.d.id, true)
		} else {
			r.e.RemoveDoc(o.d.id)
		}
	case 'F':
		r.e.Index("0", types.DocData{}, true)
	case 'Q':
		r.e.RemoveDoc("0", true)
	case 'f':
		if o.n == 1 {
			r.e.FlushIndex()
		} else {
			r.e.Flush()
		}
	case 's', 'c', 'o':
		q := types.SearchReq{Tokens: []string{o.key}, CountDocsOnly: o.k == 'c', Orderless: o.k == 'o', Timeout: o.timeout}
		start := mc.Now()
		var resp types.SearchResp
		switch {
		case o.n == 0:
			resp = r.e.Search(q)
		case r.c.idOnly:
			x := r.e.SearchID(q)
			resp = types.SearchResp{BaseResp: x.BaseResp, Docs: types.ScoredIDs(x.Docs)}
		default:
			x := r.e.SearchDoc(q)
			resp = types.SearchResp{BaseResp: x.BaseResp, Docs: types.ScoredDocs(x.Docs)}
		}
		took := mc.Since(start)
		ev.ans = touchDocs(resp, r.c.idOnly)
		if limit := time.Duration(o.timeout) * time.Millisecond; o.timeout > 0 && r.timed {
			// other threads may use up some time of their own
			if took > limit+limit/10*9 {
				mc.Fail(fmt.Sprintf("%v returned after %v", o, took))
			}
			if ev.ans.timeout && took < limit-limit/10 {
				mc.Fail(fmt.Sprintf("%v reports a timeout after %v", o, took))
			}
		}
	case 'h':
		ev.has = r.e.HasDoc(o.d.id)
	case 'n':
		ev.num = [3]uint64{r.e.NumIndexed(), r.e.NumRemoved(), r.e.NumTokenAdded()}
	case 'd':
		ev.has = r.e.HasDocDB(o.d.id)
	case 'l':
		a, b := r.e.GetDBAllIds(), r.e.GetAllDocIds()
		c, d := r.e.GetDBAllDocs()
		ev.ids, ev.docs = [][]string{a, b, c}, d
	case 'z':
		r.e.Close()
	case 'Z':
		r.e.Close()
		if o.n > 0 {
			r.c.shards = o.n
		}
		r.e = r.c.open()
		ev.num[0], ev.num[1] = r.e.NumIndexed(), uint64(len(theDisk.keys()))
		r.e.Flush()
	}
	if theDisk != nil {
		ev.logN = len(theDisk.ops)
	}
	ev.ret = r.tick()
	return ev
}

func (r *run) doAll(os []op) {
	for _, o := range os {
		r.do(o)
	}
}

// scenario: set-up history, then clients in parallel, then a final history.
type scenario struct {
	name     string
	c        cfg
	setup    []op
	clients  [][]op
	final    []op
	noVisib  bool // only termination is judged
	late     bool // explore the engine's start too
	quiet    bool // the final history runs under the default schedule
	disk     bool // judge the stored data after the final flush
	thorough bool
	low      int    // deviations with each thread in turn starved
	timed    bool   // judge how long timed searches take
	dev      [2]int // deviations in quick and thorough
	bases    []int
}

func (s *scenario) String() string {
	t := fmt.Sprintf("[%v] setup: %s", s.c, ops(s.setup))
	for i, c := range s.clients {
		t += fmt.Sprintf(" | client %d: %s", i, ops(c))
	}
	return t + " | final: " + ops(s.final)
}

// body executes the scenario and returns a digest of what was observed.
func (s *scenario) body() string {
	theDisk = newDisk()
	r := &run{c: s.c, timed: s.timed}
	if s.late {
		mc.Explore(true)
	}
	r.e = s.c.open()
	r.doAll(s.setup)
	mc.Explore(true)
	n := len(s.clients)
	doneN := 0
	for i := range s.clients {
		c := s.clients[i]
		if i == n-1 {
			r.doAll(c)
			doneN++
			continue
		}
		mc.Go(func() {
			r.doAll(c)
			doneN++
		})
	}
	mc.Block("join", func() bool { return doneN == n })
	if s.quiet {
		mc.Explore(false)
	}
	r.doAll(s.final)
	mc.Explore(false)
	if theDisk.misuse != "" {
		mc.Fail("storage misuse: " + theDisk.misuse)
	}
	if !s.noVisib {
		if m := r.judge(); m != "" {
			mc.Fail(m)
		}
	}
	if s.disk {
		if m := r.judgeDisk(); m != "" {
			mc.Fail(m)
		}
	}
	return r.digest()
}

func (r *run) digest() string {
	var b strings.Builder
	for _, e := range r.ev {
		switch e.k {
		case 's', 'o':
			b.WriteString(e.key + "=")
			for _, h := range e.ans.hits {
				fmt.Fprintf(&b, "%s/%s,", h.id, h.content)
			}
			fmt.Fprintf(&b, "#%d", e.ans.n)
			if e.ans.timeout {
				b.WriteString("T")
			}
			b.WriteString(" ")
		case 'c':
			fmt.Fprintf(&b, "%s#%d ", e.key, e.ans.n)
		case 'h':
			fmt.Fprintf(&b, "%s?%v ", e.d.id, e.has)
		}
	}
	return b.String()
}

// ---- judging a history ----

// settled: m returned, then a flush began and returned, all before t.
func (r *run) settled(m *event, t int) bool {
	if m.inv > t {
		return false
	}
	if r.byID != nil {
		for _, f := range r.syncs {
			if f.inv > m.ret && f.ret < t {
				return true
			}
		}
		return false
	}
	for _, f := range r.ev {
		if (f.k == 'f' || f.k == 'z' || f.k == 'Z') && f.inv > m.ret && f.ret < t {
			return true
		}
	}
	return false
}

// view is what an observation in [inv, ret] may see of one document.
type view struct {
	must  bool     // the state is determined
	there bool     // determined state: present
	vers  []*event // versions that may be seen
	gone  bool     // may be absent
}

func (r *run) view(id string, inv, ret int) view {
	var all []*event
	from := r.ev
	if r.byID != nil {
		from = r.byID[id]
	}
	for _, e := range from {
		if (e.k == 'i' || e.k == 'r') && e.d.id == id && e.inv < ret {
			all = append(all, e)
		}
	}
	var live []*event // not superseded by a settled later operation
	v := view{must: true}
	for _, a := range all {
		dead := false
		for _, m := range all {
			if m != a && r.settled(a, m.inv) && r.settled(m, inv) {
				dead = true
			}
		}
		if !dead {
			live = append(live, a)
			if !r.settled(a, inv) {
				v.must = false
			}
		}
	}
	if len(live) == 0 {
		return view{must: true, gone: true}
	}
	anySettled := false
	for _, a := range live {
		if a.k == 'i' {
			v.vers = append(v.vers, a)
		} else {
			v.gone = true
		}
		if r.settled(a, inv) {
			anySettled = true
		}
	}
	if !anySettled || !v.must {
		v.gone = true
	}
	if len(live) > 1 {
		v.must = false
	}
	v.there = v.must && len(v.vers) == 1
	return v
}

// index prepares a complete history for many judgements.
func (r *run) index() {
	r.byID = map[string][]*event{}
	for _, e := range r.ev {
		switch e.k {
		case 'i', 'r':
			r.byID[e.d.id] = append(r.byID[e.d.id], e)
		case 'f', 'z', 'Z':
			r.syncs = append(r.syncs, e)
		}
	}
}

func (r *run) ids() []string {
	if r.byID != nil {
		var s []string
		for k := range r.byID {
			s = append(s, k)
		}
		sort.Strings(s)
		return s
	}
	m := map[string]bool{}
	for _, e := range r.ev {
		if e.k == 'i' || e.k == 'r' {
			m[e.d.id] = true
		}
	}
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// judge checks every observation of the history.
func (r *run) judge() string {
	for _, e := range r.ev {
		switch e.k {
		case 's', 'o', 'c':
			if m := r.judgeSearch(e); m != "" {
				return fmt.Sprintf("%s: %s", e.op, m)
			}
		case 'l':
			if m := r.judgeList(e); m != "" {
				return e.op.String() + ": " + m
			}
		case 'Z':
			if m := r.judgeReopen(e); m != "" {
				return e.op.String() + ": " + m
			}
		case 'h', 'd':
			v := r.view(e.d.id, e.inv, e.ret)
			if v.must && e.has != v.there {
				return fmt.Sprintf("%s = %v, document present: %v", e.op, e.has, v.there)
			}
			if !v.must && len(v.vers) == 0 && e.has {
				return fmt.Sprintf("%s = true for a document that was never added", e.op)
			}
		case 'n':
			var lo, hi [3]uint64
			from, last := 0, 2
			for _, m := range r.ev {
				if m.k == 'Z' && m.inv < e.inv {
					// recovered documents count as indexed, their keys are not known here
					from, last = m.inv, 1
					lo[0], hi[0] = m.num[1], m.num[1]
				}
			}
			for _, m := range r.ev {
				if m.inv < from {
					continue
				}
				var d [3]uint64
				switch m.k {
				case 'i':
					d[0] = 1
					d[2] = uint64(len(m.d.tokens) + len(m.d.labels) + 1) // content is one key of its own
				case 'r':
					d[1] = uint64(r.c.shards)
				default:
					continue
				}
				for j := range d {
					if r.settled(m, e.inv) {
						lo[j] += d[j]
					}
					if m.inv < e.ret {
						hi[j] += d[j]
					}
				}
			}
			for j, nme := range []string{"NumIndexed", "NumRemoved", "NumTokenAdded"} {
				if j <= last && (e.num[j] < lo[j] || e.num[j] > hi[j]) {
					return fmt.Sprintf("%s = %d, expected %d to %d", nme, e.num[j], lo[j], hi[j])
				}
			}
		}
	}
	return ""
}

func (r *run) judgeSearch(e *event) string {
	a := e.ans
	if a.bad != "" {
		return a.bad
	}
	if a.timeout && e.timeout <= 0 {
		return "marked as timed out without a timeout"
	}
	lo, hi := 0, 0
	exact := true
	ids := r.ids()
	byID := map[string][]hit{}
	for _, h := range a.hits {
		byID[h.id] = append(byID[h.id], h)
	}
	for _, id := range ids {
		v := r.view(id, e.inv, e.ret)
		hs := byID[id]
		if len(hs) > 1 {
			return fmt.Sprintf("document %s returned %d times", id, len(hs))
		}
		if v.must {
			want := v.there && v.vers[0].d.has(e.key)
			if want {
				lo++
				hi++
			}
			if e.k == 'c' || a.timeout && len(hs) == 0 {
				continue
			}
			if want && len(hs) == 0 {
				return fmt.Sprintf("document %s is missing although it was indexed and flushed before", id)
			}
			if !want && len(hs) == 1 {
				return fmt.Sprintf("document %s is returned although its flushed state does not match (%s)", id, hs[0].content)
			}
		} else {
			exact = false
			can := false
			for _, x := range v.vers {
				if x.d.has(e.key) {
					can = true
				}
			}
			if can {
				hi++
				all := true
				for _, x := range v.vers {
					if !x.d.has(e.key) {
						all = false
					}
				}
				if all && !v.gone {
					lo++
				}
				if all && !v.gone && e.k != 'c' && !a.timeout && len(hs) == 0 {
					return fmt.Sprintf("document %s is missing although every possible state of it matches", id)
				}
			}
			if !can && len(hs) == 1 {
				return fmt.Sprintf("document %s is returned although no version it may have matches", id)
			}
		}
		if len(hs) == 1 {
			if m := checkHit(hs[0], v, e, r.c); m != "" {
				return m
			}
		}
	}
	known := map[string]bool{}
	for _, id := range ids {
		known[id] = true
	}
	for _, h := range a.hits {
		if !known[h.id] {
			return fmt.Sprintf("unknown document %q returned", h.id)
		}
	}
	if e.k != 'o' && e.k != 'c' {
		for i := 1; i < len(a.hits); i++ {
			x, y := a.hits[i-1].scores, a.hits[i].scores
			if len(x) == 1 && len(y) == 1 && x[0] < y[0] {
				return fmt.Sprintf("order: %s (%v) before %s (%v)", a.hits[i-1].id, x, a.hits[i].id, y)
			}
		}
	}
	if e.k == 'c' && len(a.hits) > 0 {
		return "documents in a count-only answer"
	}
	if a.timeout {
		return ""
	}
	if e.k != 'c' && a.n != len(a.hits) {
		return fmt.Sprintf("NumDocs = %d with %d documents", a.n, len(a.hits))
	}
	if a.n < lo || a.n > hi || exact && a.n != lo {
		return fmt.Sprintf("NumDocs = %d, expected %d to %d", a.n, lo, hi)
	}
	return ""
}

// checkHit compares a returned document with the versions it may have.
func checkHit(h hit, v view, e *event, c cfg) string {
	if e.k == 'o' {
		return ""
	}
	if len(h.scores) != 1 {
		return fmt.Sprintf("document %s has %d scores", h.id, len(h.scores))
	}
	okScore, okContent, okFields, okLocs, okAttri := false, c.idOnly, c.idOnly, c.index != types.LocsIndex, c.idOnly
	for _, x := range v.vers {
		if c.bm25 || h.scores[0] == x.d.score() {
			okScore = true
		}
		if h.content == x.d.content() {
			okContent = true
		}
		if h.f == x.d.flds() {
			okFields = true
		}
		if h.attri == x.d.attri() {
			okAttri = true
		}
		for i, k := range x.d.tokens {
			if k == e.key && len(h.locs) == 1 && fmt.Sprint(h.locs[0]) == fmt.Sprint(x.d.locs(i)) {
				okLocs = true
			}
		}
		for _, k := range x.d.labels {
			if k == e.key {
				okLocs = true
			}
		}
	}
	if !okScore || !okContent || !okFields || !okLocs || !okAttri {
		return fmt.Sprintf("document %s returned with foreign or mixed-up data: score %v content %q fields %v attributes %v positions %v", h.id, h.scores, h.content, h.f, h.attri, h.locs)
	}
	return ""
}

// judgeDisk: after the last flush the stored data are exactly the latest versions.
func (r *run) judgeDisk() string {
	for _, id := range r.ids() {
		v := r.view(id, r.clock, r.clock)
		n := 0
		for _, m := range theDisk.data {
			if _, ok := m[id]; ok {
				n++
			}
		}
		if n > 1 {
			return fmt.Sprintf("document %s is stored %d times", id, n)
		}
		if v.must && (n == 1) != v.there {
			return fmt.Sprintf("document %s stored: %v, present: %v", id, n == 1, v.there)
		}
	}
	return ""
}

func mkScratch() { os.MkdirAll(rep.Scratch+"/db", 0700) }

func (r *run) judgeReopen(e *event) string {
	if e.num[0] != e.num[1] {
		return fmt.Sprintf("%d documents recovered with %d stored", e.num[0], e.num[1])
	}
	return ""
}

// sameData compares stored data with a version (gob does not keep the difference between nil and empty).
func sameData(a, b types.DocData) bool {
	if a.Content != b.Content || a.Attri != b.Attri || a.Fields != b.Fields || len(a.Tokens) != len(b.Tokens) || len(a.Labels) != len(b.Labels) {
		return false
	}
	for i := range a.Labels {
		if a.Labels[i] != b.Labels[i] {
			return false
		}
	}
	for i := range a.Tokens {
		x, y := a.Tokens[i], b.Tokens[i]
		if x.Text != y.Text || len(x.Locations) != len(y.Locations) {
			return false
		}
		for j := range x.Locations {
			if x.Locations[j] != y.Locations[j] {
				return false
			}
		}
	}
	return true
}

func (r *run) judgeList(e *event) string {
	for _, id := range r.ids() {
		v := r.view(id, e.inv, e.ret)
		for i, l := range e.ids {
			n := 0
			for j, x := range l {
				if x != id {
					continue
				}
				n++
				if i == 2 {
					ok := false
					for _, w := range v.vers {
						ok = ok || sameData(e.docs[j], w.d.data())
					}
					if !ok {
						return fmt.Sprintf("document %s is stored with %v", id, e.docs[j])
					}
				}
			}
			if n > 1 {
				return fmt.Sprintf("document %s listed %d times", id, n)
			}
			if v.must && (n == 1) != v.there {
				return fmt.Sprintf("document %s listed: %v, present: %v", id, n == 1, v.there)
			}
			if n == 1 && len(v.vers) == 0 {
				return fmt.Sprintf("document %s listed although it cannot be there", id)
			}
		}
	}
	known := map[string]bool{}
	for _, id := range r.ids() {
		known[id] = true
	}
	for _, l := range e.ids {
		for _, x := range l {
			if !known[x] {
				return fmt.Sprintf("unknown document %q listed", x)
			}
		}
	}
	return ""
}
