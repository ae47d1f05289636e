// Command netm decides C25: every schedule, up to the bound, of concurrent requests to the HTTP handlers
// and the gRPC service of one process, on the instrumented engine.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"

	riot "github.com/go-ego/riot"
	"github.com/go-ego/riot/net/com"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/gogo/protobuf/proto"
	"golang.org/x/net/context"

	"vmc/expl"
	"vmc/mc"
	"vmc/rep"
)

func main() {
	log.SetOutput(io.Discard)
	if strings.Contains(strings.Join(os.Args, " "), "-slice") {
		if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = n
		}
	}
	rep.Main([]*rep.Check{
		{Prop: "C25", Level: "model_checking", Parts: c25,
			Rule: "every schedule with at most the stated number of deviations from each base order, and every time slice up to the bound, of every scenario, under the race detector; non-trivial: all requests were answered and every answer was judged",
			Assumptions: []string{"sequentially consistent memory between synchronisation operations; data races are reported as such",
				"the gRPC service is called in process, without the transport", "requests for the same document that are not separated by a flush may take effect in either order"}},
	})
}

// ---- storage kept in memory ----

type memDB struct{ m map[string]string }

var disk map[string]map[string]string

func (d *memDB) Set(k, v []byte) error { mc.Point("store"); d.m[string(k)] = string(v); return nil }
func (d *memDB) Delete(k []byte) error { mc.Point("store"); delete(d.m, string(k)); return nil }
func (d *memDB) Get(k []byte) ([]byte, error) {
	v, ok := d.m[string(k)]
	if !ok {
		return nil, errors.New("not found")
	}
	return []byte(v), nil
}
func (d *memDB) Has(k []byte) (bool, error) { _, ok := d.m[string(k)]; return ok, nil }
func (d *memDB) ForEach(fn func(k, v []byte) error) error {
	mc.Point("store")
	var ks []string
	for k := range d.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if err := fn([]byte(k), []byte(d.m[k])); err != nil {
			return err
		}
	}
	return nil
}
func (d *memDB) Close() error    { return nil }
func (d *memDB) WALName() string { return "" }

func init() {
	store.RegisterStore("vmem", func(path string) (store.Store, error) {
		if disk[path] == nil {
			disk[path] = map[string]string{}
		}
		return &memDB{disk[path]}, nil
	})
}

// ---- requests ----

// ver is one version of a document.
type ver struct {
	content string
	labels  []string
	tokens  []string
	attri   types.Attri
	http    bool // the time is that of the request
}

func (v ver) has(k string) bool {
	for _, f := range append(append(strings.Fields(v.content), v.labels...), v.tokens...) {
		if f == k {
			return true
		}
	}
	return false
}

// call is a request: add, del, search, flush.
type call struct {
	kind   string
	rpc    bool
	post   bool
	id     string
	v      ver
	query  string
	off    int
	max    int
	ids    []string
	logic  *pb.Logic
	strict bool // nothing it may match changes while it runs: the answer is known
}

func (c call) String() string {
	via := "HTTP"
	if c.rpc {
		via = "gRPC"
	}
	switch c.kind {
	case "add":
		return fmt.Sprintf("%s add %s %q labels %v tokens %v", via, c.id, c.v.content, c.v.labels, c.v.tokens)
	case "del":
		return fmt.Sprintf("%s delete %s", via, c.id)
	case "flush":
		return "flush"
	}
	return fmt.Sprintf("%s search %q window (%d,%d) ids %v logic {%v}", via, c.query, c.off, c.max, c.ids, c.logic)
}

type hit struct {
	Id, Content string
	Attri       types.Attri
}

func send(h http.HandlerFunc, post bool, v url.Values) *httptest.ResponseRecorder {
	r := httptest.NewRequest("GET", "/x?"+v.Encode(), nil)
	if post {
		r = httptest.NewRequest("POST", "/x", strings.NewReader(v.Encode()))
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	w := httptest.NewRecorder()
	h(w, r)
	return w
}

// srv is the one gRPC service of the process.
var srv pb.GreeterServer

func (c call) do() (hits []hit, e string) {
	ctx := context.Background()
	switch {
	case c.kind == "flush":
		com.Flush()
	case c.kind == "add" && c.rpc:
		b, _ := proto.Marshal(&pb.Attri{Title: c.v.attri.Title, Author: c.v.attri.Author, Time: c.v.attri.Time, Ts: c.v.attri.Ts})
		in := &pb.DocReq{DocId: c.id, Content: c.v.content, Labels: c.v.labels, Attri: b}
		for i, t := range c.v.tokens {
			in.Tokens = append(in.Tokens, &pb.TokenData{Text: t, Locations: []int32{int32(i)}})
		}
		if r, err := srv.DocInx(ctx, in); err != nil || r.Result != 0 {
			e = fmt.Sprint("DocInx: ", r, err)
		}
	case c.kind == "add":
		w := send(rhttp.AddIndex, c.post, url.Values{"docid": {c.id}, "query": {c.v.content}})
		if w.Code != 200 {
			e = fmt.Sprint("status ", w.Code)
		}
	case c.kind == "del" && c.rpc:
		if r, err := srv.Delete(ctx, &pb.DeleteReq{DocId: c.id}); err != nil || r.Result != 0 {
			e = fmt.Sprint("Delete: ", r, err)
		}
	case c.kind == "del":
		send(rhttp.DelIndex, false, url.Values{"docid": {c.id}})
	case c.rpc:
		in := &pb.SearchReq{Query: c.query, OutputOffset: int32(c.off), MaxOutputs: int32(c.max), Logic: c.logic}
		if c.ids != nil {
			in.DocIds = map[string]bool{}
			for _, i := range c.ids {
				in.DocIds[i] = true
			}
		}
		r, err := srv.Search(ctx, in)
		if err != nil {
			return nil, err.Error()
		}
		for _, d := range r.Docs {
			hits = append(hits, hit{d.Id, d.Content, types.Attri{Title: d.GetAttri().GetTitle(), Author: d.GetAttri().GetAuthor(), Time: d.GetAttri().GetTime(), Ts: d.GetAttri().GetTs()}})
		}
		if int(r.Len) != len(hits) {
			e = fmt.Sprintf("the length field says %d, %d documents returned", r.Len, len(hits))
		}
	default:
		v := url.Values{"query": {c.query}}
		if c.max != 0 {
			v.Set("outputOffset", strconv.Itoa(c.off))
			v.Set("maxOutputs", strconv.Itoa(c.max))
		}
		w := send(rhttp.Search, c.post, v)
		var r struct {
			Len  int
			Docs []hit
		}
		if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil || w.Code != 200 {
			return nil, fmt.Sprintf("status %d, response %.100q: %v", w.Code, w.Body.String(), err)
		}
		hits = r.Docs
		if r.Len != len(hits) {
			e = fmt.Sprintf("the length field says %d, %d documents returned", r.Len, len(hits))
		}
	}
	return
}

func (c call) match(id string, v ver) bool {
	if c.ids != nil && !strings.Contains(" "+strings.Join(c.ids, " ")+" ", " "+id+" ") {
		return false
	}
	if x := c.logic.GetExpr(); x != nil {
		in := len(x.Should) == 0
		for _, k := range x.Should {
			in = in || v.has(k)
		}
		for _, k := range x.Must {
			in = in && v.has(k)
		}
		for _, k := range x.NotIn {
			in = in && !v.has(k)
		}
		return in
	}
	ws := strings.Fields(c.query)
	for _, k := range ws {
		if !v.has(k) {
			return false
		}
	}
	return len(ws) > 0
}

var probes = []string{"red", "apple", "pear", "green", "red pear", "new"}

// world is what a document may be at a moment: the versions it may have, and whether it may be absent.
type world map[string]*docState

type docState struct {
	vers []ver
	gone bool
}

func (v ver) is(h hit) bool {
	if v.content != h.Content {
		return false
	}
	if v.http {
		return h.Attri.Title == "" && h.Attri.Author == "" && h.Attri.Time != "" && h.Attri.Ts > 0
	}
	return v.attri == h.Attri
}

// judge compares an answer with what the documents may be.
func (c call) judge(hits []hit, x world, windowed bool) string {
	seen := map[string]bool{}
	for i, h := range hits {
		if seen[h.Id] {
			return fmt.Sprintf("document %s returned twice", h.Id)
		}
		seen[h.Id] = true
		if i > 0 {
			if p := hits[i-1]; p.Attri.Ts < h.Attri.Ts || p.Attri.Ts == h.Attri.Ts && p.Id < h.Id {
				return fmt.Sprintf("not newest first, then by id: %s(%d) before %s(%d)", p.Id, p.Attri.Ts, h.Id, h.Attri.Ts)
			}
		}
		s := x[h.Id]
		if s == nil {
			return fmt.Sprintf("document %s was never added", h.Id)
		}
		// the parts of a version may be seen at different moments: the keys must match in one of the
		// versions, and the content and attributes belong together
		ok, m := false, false
		for _, v := range s.vers {
			ok = ok || v.is(h)
			m = m || c.match(h.Id, v)
		}
		if !ok {
			return fmt.Sprintf("document %s is returned as %+v, which it never was", h.Id, h)
		}
		if !m {
			return fmt.Sprintf("document %s never matched", h.Id)
		}
	}
	if windowed {
		return ""
	}
	for id, s := range x {
		if s.gone || seen[id] {
			continue
		}
		all := true
		for _, v := range s.vers {
			all = all && c.match(id, v)
		}
		if all {
			return fmt.Sprintf("document %s matches and is not returned", id)
		}
	}
	return ""
}

func names(hits []hit) string {
	var s []string
	for _, h := range hits {
		s = append(s, h.Id)
	}
	return "[" + strings.Join(s, " ") + "]"
}

// ---- scenarios ----

type scen struct {
	name    string
	threads [][]call
	dev     [2]int
	shards  int
	store   bool
	thor    bool
}

func (s scen) String() string {
	var o []string
	for _, t := range s.threads {
		var c []string
		for _, x := range t {
			c = append(c, x.String())
		}
		o = append(o, strings.Join(c, "; "))
	}
	return s.name + ": " + strings.Join(o, " || ")
}

func base() map[string]ver {
	return map[string]ver{
		"1": {content: "red apple", labels: []string{"L1"}, attri: types.Attri{Title: "t1", Author: "a1", Time: "x", Ts: 3}},
		"2": {content: "red pear", labels: []string{"L2"}, attri: types.Attri{Title: "t2", Author: "a2", Time: "y", Ts: 5}},
		"3": {content: "blue pear", attri: types.Attri{Title: "t3", Author: "a3", Time: "z", Ts: 5}},
	}
}

func (s scen) opts() types.EngineOpts {
	o := types.EngineOpts{NotUseGse: true, NumGseThreads: 1, NumShards: s.shards, IndexerBufLen: 1, NumIndexerThreads: 1, RankerBufLen: 1, NumRankerThreads: 1,
		IndexerOpts: &types.IndexerOpts{IndexType: types.DocIdsIndex}, StoreShards: 1}
	if s.store {
		o.UseStore, o.StoreEngine, o.StoreFolder = true, "vmem", rep.Scratch+"/db"
	}
	return o
}

func (s scen) open() {
	disk = map[string]map[string]string{}
	c := com.Config{Engine: com.Engine{OutputOffset: 0, MaxOutputs: 10}}
	com.Conf = c
	rpcConf(c)
	srv = greeter()
	com.Searcher = riot.Engine{}
	com.Searcher.Init(s.opts())
}

func (s scen) body() string {
	s.open()
	st := world{}
	var ids []string
	for id := range base() {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		v := base()[id]
		com.AddDocInx(id, types.DocData{Content: v.content, Labels: v.labels, Attri: v.attri}, false)
		st[id] = &docState{vers: []ver{v}}
	}
	com.Flush()
	// what may be seen at any moment, and what may be there at the end
	during, end := world{}, world{}
	for id, d := range st {
		during[id] = &docState{vers: append([]ver{}, d.vers...)}
		end[id] = d
	}
	last := map[string]map[int]call{}
	for t, cs := range s.threads {
		for _, c := range cs {
			switch c.kind {
			case "add":
				if during[c.id] == nil {
					during[c.id] = &docState{gone: true}
				}
				during[c.id].vers = append(during[c.id].vers, c.v)
			case "del":
				if during[c.id] != nil {
					during[c.id].gone = true
				}
			default:
				continue
			}
			if last[c.id] == nil {
				last[c.id] = map[int]call{}
			}
			last[c.id][t] = c // a thread separates requests for the same document by a flush
		}
	}
	for id, by := range last {
		d := &docState{}
		for _, c := range by {
			if c.kind == "add" {
				d.vers = append(d.vers, c.v)
			} else {
				d.gone = true
			}
		}
		end[id] = d
	}
	n := 0
	out := make([]string, len(s.threads))
	errs := make([]string, len(s.threads))
	mc.Explore(true)
	for i := range s.threads {
		i := i
		mc.Go(func() {
			own := map[string]call{} // requests of this thread that a flush of its own has followed
			var open []call
			for _, c := range s.threads[i] {
				hits, e := c.do()
				switch c.kind {
				case "add", "del":
					open = append(open, c)
				case "flush":
					for _, o := range open {
						own[o.id] = o
					}
					open = nil
				case "search":
					out[i] += names(hits)
					if e == "" {
						e = c.judge(hits, s.seenBy(during, own, last), c.max != 0)
					}
					if e == "" && c.max != 0 {
						e = c.window(hits)
					}
				}
				if e != "" && errs[i] == "" {
					errs[i] = c.String() + ": " + e
				}
			}
			n++
		})
	}
	mc.Block("join", func() bool { return n == len(s.threads) })
	mc.Explore(false)
	for _, e := range errs {
		if e != "" {
			mc.Fail(e)
		}
	}
	com.Flush()
	check := func(when string) string {
		o := ""
		for _, q := range probes {
			for r := 0; r < 2; r++ {
				if r == 1 && !haveRPC {
					continue
				}
				c := call{kind: "search", rpc: r == 1, query: q}
				hits, e := c.do()
				if e == "" {
					e = c.judge(hits, end, false)
				}
				if e != "" {
					mc.Fail(when + ", " + c.String() + ": " + e)
				}
				if r == 0 {
					o += names(hits)
				}
			}
		}
		return o
	}
	fin := check("at the end")
	com.Searcher.Close()
	if s.store {
		// another engine on what is stored
		eng := &riot.Engine{}
		eng.Init(s.opts())
		eng.Flush()
		f := ""
		for _, q := range probes {
			r := eng.Search(types.SearchReq{Text: q, RankOpts: &types.RankOpts{}})
			var hits []hit
			for _, d := range r.Docs.(types.ScoredDocs) {
				a, _ := d.Attri.(types.Attri)
				hits = append(hits, hit{d.DocId, d.Content, a})
			}
			sort.Slice(hits, func(i, j int) bool {
				a, b := hits[i], hits[j]
				return a.Attri.Ts > b.Attri.Ts || a.Attri.Ts == b.Attri.Ts && a.Id > b.Id
			})
			if e := (call{kind: "search", query: q}).judge(hits, end, false); e != "" {
				mc.Fail("after a restart: " + e)
			}
			f += names(hits)
		}
		eng.Close()
		one := true // concurrent requests for one document may be stored in another order
		for _, d := range end {
			one = one && len(d.vers) <= 1 && !(d.gone && len(d.vers) > 0)
		}
		if one && f != fin {
			mc.Fail(fmt.Sprintf("searches return %s, after a restart %s", fin, f))
		}
	}
	return strings.Join(out, "|") + fin
}

// seenBy is what a thread may see: a document that only this thread changes, and has flushed, is settled.
func (s scen) seenBy(during world, own map[string]call, last map[string]map[int]call) world {
	if len(own) == 0 {
		return during
	}
	x := world{}
	for id, d := range during {
		x[id] = d
	}
	for id, c := range own {
		if len(last[id]) != 1 {
			continue
		}
		if c.kind == "add" {
			x[id] = &docState{vers: []ver{c.v}}
		} else {
			delete(x, id)
		}
	}
	return x
}

// window: searches with a window of their own are over documents that do not change.
func (c call) window(hits []hit) string {
	n := 0
	for id, v := range base() {
		if c.match(id, v) {
			n++
		}
	}
	k := n - c.off
	if k < 0 {
		k = 0
	}
	if k > c.max {
		k = c.max
	}
	if len(hits) != k {
		return fmt.Sprintf("%d documents returned, the window of %d matches has %d", len(hits), n, k)
	}
	return ""
}

func c25(tier string) []rep.Part {
	se := func(rpc bool, q string, w ...int) call {
		c := call{kind: "search", rpc: rpc, query: q}
		if len(w) == 2 {
			c.off, c.max = w[0], w[1]
		}
		return c
	}
	lo := func(q string, l *pb.Logic, ids ...string) call {
		return call{kind: "search", rpc: true, query: q, logic: l, ids: ids}
	}
	va := func(content string, ts int64, labels ...string) ver {
		return ver{content: content, labels: labels, attri: types.Attri{Title: "T" + content, Author: fmt.Sprint("A", ts), Time: "n", Ts: ts}}
	}
	had := func(id, content string, post bool) call {
		return call{kind: "add", id: id, post: post, v: ver{content: content, http: true}}
	}
	gad := func(id string, v ver) call { return call{kind: "add", rpc: true, id: id, v: v} }
	del := func(rpc bool, id string) call { return call{kind: "del", rpc: rpc, id: id} }
	fl := call{kind: "flush"}
	tok := func(ts int64, tokens ...string) ver {
		v := va("", ts)
		v.tokens = tokens
		return v
	}
	ex := func(m, s, n []string) *pb.Logic {
		return &pb.Logic{Must: len(m) > 0, Should: len(s) > 0, NotIn: len(n) > 0, Expr: &pb.Expr{Must: m, Should: s, NotIn: n}}
	}
	type T = []call
	all := []scen{
		{name: "two HTTP searches", threads: []T{{se(false, "red")}, {se(false, "pear")}}, shards: 1, dev: [2]int{2, 4}},
		{name: "two HTTP searches with windows", threads: []T{{se(false, "red", 0, 1)}, {se(false, "pear", 1, 2)}}, shards: 2, dev: [2]int{1, 2}},
		{name: "two gRPC searches", threads: []T{{se(true, "red")}, {se(true, "pear")}}, shards: 1, dev: [2]int{2, 4}},
		{name: "gRPC searches with clauses and ids", threads: []T{{lo("red", ex([]string{"red"}, nil, []string{"L2"}))}, {lo("pear", nil, "2")}}, shards: 1, dev: [2]int{2, 3}},
		{name: "gRPC searches with windows", threads: []T{{se(true, "red", 1, 1)}, {se(true, "pear", 0, 2)}}, shards: 1, dev: [2]int{1, 3}},
		{name: "HTTP and gRPC searches", threads: []T{{se(false, "apple")}, {se(true, "pear")}}, shards: 2, dev: [2]int{1, 2}},
		{name: "HTTP adds", threads: []T{{had("4", "red new", false)}, {had("5", "green new", true)}}, shards: 1, store: true, dev: [2]int{1, 2}},
		{name: "gRPC adds", threads: []T{{gad("4", va("red new", 9, "L4"))}, {gad("5", va("green new", 2, "L5"))}}, shards: 1, store: true, dev: [2]int{1, 2}},
		{name: "gRPC adds with tokens", threads: []T{{gad("4", tok(9, "green", "pear")), fl, se(true, "pear")}, {gad("5", tok(2, "new", "red")), fl, se(true, "red")}}, shards: 1, dev: [2]int{1, 2}},
		{name: "adds of the same document", threads: []T{{gad("4", va("red new", 9))}, {had("4", "green apple", false)}}, shards: 1, store: true, dev: [2]int{1, 2}},
		{name: "each its own document", threads: []T{{had("4", "red new", false), fl, se(false, "new")}, {gad("5", va("green new", 2)), fl, se(true, "new")}}, shards: 2, store: true, dev: [2]int{1, 2}},
		{name: "a delete and a search", threads: []T{{del(false, "2"), fl, se(true, "red")}, {se(false, "pear")}}, shards: 1, store: true, dev: [2]int{1, 2}},
		{name: "a replacement and a search", threads: []T{{gad("2", va("red new", 1)), fl, se(false, "new")}, {se(true, "red")}}, shards: 1, dev: [2]int{1, 3}},
		{name: "deletes over both", threads: []T{{del(false, "1")}, {del(true, "2")}}, shards: 1, store: true, dev: [2]int{1, 2}},
		{name: "three kinds at once", threads: []T{{had("4", "red new", true), fl}, {del(true, "3")}, {se(true, "red"), se(false, "pear")}}, shards: 2, store: true, dev: [2]int{1, 2}},
		{name: "three searches", threads: []T{{se(true, "red"), se(false, "apple")}, {se(false, "pear"), se(true, "red", 1, 1)}, {lo("red", ex(nil, []string{"L1", "L2"}, nil))}}, shards: 2, dev: [2]int{1, 2}},
	}
	var ps []rep.Part
	for _, s := range all {
		s := s
		if !haveRPC && strings.Contains(s.String(), "gRPC") {
			continue
		}
		d := s.dev[0]
		if tier == "thorough" {
			d = s.dev[1]
		}
		ps = append(ps, rep.Part{Name: s.name, Run: func(w *rep.W) {
			w.Sample(s.String())
			expl.Run(w, expl.Scen{Body: s.body, Bases: []int{0, 1, 4, 5}, Dev: d, Race: true})
		}})
	}
	return ps
}
