// Command netc decides C17: every sequence of add, delete, search and restart requests over the HTTP
// handlers and the gRPC service, and every combination of optional request fields, on the real engine.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	zlog "github.com/go-vgo/zlog/zlog"
	"github.com/gogo/protobuf/proto"
	"golang.org/x/net/context"
	"google.golang.org/grpc"

	"vmc/rep"
)

func main() {
	log.SetOutput(io.Discard)
	runtime.GOMAXPROCS(1)
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && len(os.Args) > 0 && strings.Contains(strings.Join(os.Args, " "), "-slice") {
		os.Stdout = n
	}
	rep.Main([]*rep.Check{
		{Prop: "C17", Level: "model_checking", Parts: c17,
			Rule:        "every request sequence up to the depth (a flush after every request), then the searches of the grid over both interfaces; every combination of the optional fields of a search on a fixed corpus; non-trivial: a search returned documents",
			Assumptions: []string{"document ids are not empty", "windows are not negative and a maximum is requested or configured"}},
	})
}

var (
	addr string
	cli  pb.GreeterClient
)

// serve starts the gRPC service of the process once, on a free loopback port outside the ephemeral range.
func serve() error {
	if cli != nil {
		return nil
	}
	// the applications initialise the log the gRPC client writes to
	e := os.Stderr
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = n
	}
	zlog.InitDev()
	os.Stderr = e
	for p := 20000 + os.Getpid()%10000; p < 32000; p++ {
		a := "127.0.0.1:" + strconv.Itoa(p)
		l, err := net.Listen("tcp", a)
		if err != nil {
			continue
		}
		l.Close()
		addr = a
		go rpc.InitGrpc(a)
		break
	}
	for i := 0; i < 500; i++ {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			conn, err := grpc.Dial(addr, grpc.WithInsecure(), grpc.WithBlock())
			if err != nil {
				return err
			}
			cli = pb.NewGreeterClient(conn)
			return nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	return fmt.Errorf("the gRPC service did not start on %s", addr)
}

var caseN int

type node struct {
	dir  string
	conf com.Config
}

func dict() string {
	p := filepath.Join(rep.Scratch, "dict.txt")
	if _, err := os.Stat(p); err != nil {
		os.WriteFile(p, []byte("世界 100 n\n中国 100 n\n"), 0600)
		os.WriteFile(filepath.Join(rep.Scratch, "stop.txt"), nil, 0600)
	}
	return p
}

func start(shards, off, max int) *node {
	caseN++
	d := filepath.Join(rep.Scratch, fmt.Sprintf("net%d", caseN))
	os.MkdirAll(d, 0700)
	n := &node{dir: d, conf: com.Config{Engine: com.Engine{
		StoreShards: 2, NumShards: shards, StoreEngine: "ldb", StoreFolder: d, GseDict: dict(),
		StopTokenFile: filepath.Join(rep.Scratch, "stop.txt"), Using: 1, OutputOffset: off, MaxOutputs: max}}}
	n.init()
	return n
}

// settle lets the workers of a closed engine reach the channels they will wait on for ever: they use the
// engine variable in place, which init is about to overwrite (a restarted process has a new one).
func settle() {
	for i := 0; i < 300; i++ {
		runtime.Gosched()
	}
}

func (n *node) init() {
	settle()
	com.Searcher = riot.Engine{}
	rpc.InitEngine(n.conf)
}

func (n *node) restart() {
	com.Searcher.Close()
	n.init()
}

func (n *node) stop() {
	com.Searcher.Close()
	os.RemoveAll(n.dir)
}

// ---- requests ----

func get(h http.HandlerFunc, path string, v url.Values) *httptest.ResponseRecorder {
	r := httptest.NewRequest("GET", path+"?"+v.Encode(), nil)
	w := httptest.NewRecorder()
	h(w, r)
	return w
}

func post(h http.HandlerFunc, path string, v url.Values) *httptest.ResponseRecorder {
	r := httptest.NewRequest("POST", path, strings.NewReader(v.Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	w := httptest.NewRecorder()
	h(w, r)
	return w
}

// answer is a search response of either interface.
type answer struct {
	n    int
	docs []hit
}

type hit struct {
	id, content string
	attri       types.Attri
}

func parseHTTP(w *httptest.ResponseRecorder) (answer, string) {
	var r struct {
		Code int
		Len  int
		Docs []struct {
			Id, Content string
			Attri       types.Attri
		}
	}
	if w.Code != 200 {
		return answer{}, fmt.Sprintf("status %d", w.Code)
	}
	if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
		return answer{}, fmt.Sprintf("response %q: %v", w.Body.String(), err)
	}
	a := answer{n: r.Len}
	for _, d := range r.Docs {
		a.docs = append(a.docs, hit{d.Id, d.Content, d.Attri})
	}
	return a, ""
}

func parsePB(r *pb.SearchReply) answer {
	a := answer{n: int(r.Len)}
	for _, d := range r.Docs {
		a.docs = append(a.docs, hit{d.Id, d.Content, types.Attri{Title: d.GetAttri().GetTitle(), Author: d.GetAttri().GetAuthor(), Time: d.GetAttri().GetTime(), Ts: d.GetAttri().GetTs()}})
	}
	return a
}

func (a answer) check(dup bool) string {
	if a.n != len(a.docs) {
		return fmt.Sprintf("the length field says %d, %d documents returned", a.n, len(a.docs))
	}
	seen := map[string]bool{}
	for i, d := range a.docs {
		if seen[d.id] && !dup {
			return fmt.Sprintf("document %q returned twice", d.id)
		}
		seen[d.id] = true
		if i > 0 {
			p := a.docs[i-1]
			if p.attri.Ts < d.attri.Ts || p.attri.Ts == d.attri.Ts && p.id < d.id {
				return fmt.Sprintf("not newest first, then by id: %s(ts %d) before %s(ts %d)", p.id, p.attri.Ts, d.id, d.attri.Ts)
			}
		}
	}
	return ""
}

func (a answer) ids() []string {
	var s []string
	for _, d := range a.docs {
		s = append(s, d.id)
	}
	sort.Strings(s)
	return s
}

// ---- reference ----

type doc struct {
	content string
	attri   types.Attri
	t0, t1  int64 // added over HTTP: the timestamp lies in this interval
	labels  []string
}

func (d doc) has(w string) bool {
	for _, f := range strings.Fields(d.content) {
		if f == w {
			return true
		}
	}
	for _, f := range d.labels {
		if f == w {
			return true
		}
	}
	return false
}

type ref map[string]doc

// match returns the ids of the documents that contain every word.
func (r ref) match(q string) []string {
	var out []string
	ws := strings.Fields(q)
	for id, d := range r {
		ok := len(ws) > 0
		for _, w := range ws {
			ok = ok && d.has(w)
		}
		if ok {
			out = append(out, id)
		}
	}
	sort.Strings(out)
	return out
}

func (r ref) same(h hit) string {
	d, ok := r[h.id]
	if !ok {
		return fmt.Sprintf("document %q does not exist", h.id)
	}
	if d.content != h.content {
		return fmt.Sprintf("document %q has content %q, want %q", h.id, h.content, d.content)
	}
	if d.t1 != 0 {
		if h.attri.Ts < d.t0 || h.attri.Ts > d.t1 {
			return fmt.Sprintf("document %q was added between %d and %d, its timestamp is %d", h.id, d.t0, d.t1, h.attri.Ts)
		}
		if _, err := time.Parse("2006-01-02 15:04:05", h.attri.Time); err != nil {
			return fmt.Sprintf("document %q has time %q", h.id, h.attri.Time)
		}
	} else if d.attri != h.attri {
		return fmt.Sprintf("document %q has attributes %+v, want %+v", h.id, h.attri, d.attri)
	}
	return ""
}

func eq(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") }

// ---- histories ----

var texts = []string{"red apple", "red pear"}
var docIds = []string{"1", "2"}

type op struct {
	kind string
	d, t int
}

func (o op) String() string {
	switch o.kind {
	case "restart":
		return o.kind
	case "http-del", "http-del-post", "grpc-del", "client-del":
		return fmt.Sprintf("%s(%s)", o.kind, docIds[o.d])
	}
	return fmt.Sprintf("%s(%s,%q)", o.kind, docIds[o.d], texts[o.t])
}

func pbAttri(a types.Attri) []byte {
	b, _ := proto.Marshal(&pb.Attri{Title: a.Title, Author: a.Author, Time: a.Time, Ts: a.Ts})
	return b
}

func (n *node) apply(r ref, o op, step int) string {
	id := docIds[o.d]
	a := types.Attri{Title: "t" + id, Author: "au", Time: fmt.Sprint("T", step), Ts: int64(step / 2)} // ties across steps
	switch o.kind {
	case "http-add", "http-add-post":
		v := url.Values{"docid": {id}, "query": {texts[o.t]}}
		t0 := time.Now().UnixNano()
		var w *httptest.ResponseRecorder
		if o.kind == "http-add" {
			w = get(rhttp.AddIndex, "/add", v)
		} else {
			w = post(rhttp.AddIndex, "/add", v)
		}
		t1 := time.Now().UnixNano()
		if _, e := parseHTTP(w); e != "" {
			return e
		}
		r[id] = doc{content: texts[o.t], t0: t0, t1: t1}
	case "grpc-add", "grpc-add-force":
		rp, err := cli.DocInx(context.Background(), &pb.DocReq{DocId: id, Content: texts[o.t], Attri: pbAttri(a), ForceUpdate: o.kind == "grpc-add-force"})
		if err != nil || rp.Result != 0 {
			return fmt.Sprint("DocInx: ", rp, err)
		}
		r[id] = doc{content: texts[o.t], attri: a}
	case "grpc-add-bare":
		// every optional part absent: no attributes
		if _, err := cli.DocInx(context.Background(), &pb.DocReq{DocId: id, Content: texts[o.t]}); err != nil {
			return fmt.Sprint("DocInx: ", err)
		}
		r[id] = doc{content: texts[o.t]}
	case "client-add":
		u, _ := strconv.ParseUint(id, 10, 64)
		if x := rpc.InitGrpcc(addr, rpc.Doc{DocId: u, Content: texts[o.t], Attri: pbAttri(a)}); x != 0 {
			return fmt.Sprint("InitGrpcc: ", x)
		}
		r[id] = doc{content: texts[o.t], attri: a}
	case "http-del":
		get(rhttp.DelIndex, "/del", url.Values{"docid": {id}})
		delete(r, id)
	case "grpc-del":
		if rp, err := cli.Delete(context.Background(), &pb.DeleteReq{DocId: id}); err != nil || rp.Result != 0 {
			return fmt.Sprint("Delete: ", rp, err)
		}
		delete(r, id)
	case "client-del":
		if x := rpc.InitDelGrpcc(addr, id); x != 0 {
			return fmt.Sprint("InitDelGrpcc: ", x)
		}
		delete(r, id)
	case "restart":
		n.restart()
		return ""
	}
	com.Flush()
	return ""
}

func (n *node) observe(r ref, w *rep.W) string {
	for _, q := range []string{"red", "apple", "pear", "red pear", "apple pear", "none", ""} {
		want := r.match(q)
		for k := 0; k < 3; k++ {
			var a answer
			var e, name string
			switch k {
			case 0:
				name = "HTTP"
				a, e = parseHTTP(get(rhttp.Search, "/search", url.Values{"query": {q}}))
			case 1:
				name = "gRPC"
				var rp *pb.SearchReply
				rp, err := cli.Search(context.Background(), &pb.SearchReq{Query: q})
				if err != nil {
					e = err.Error()
				} else {
					a = parsePB(rp)
				}
			case 2:
				name = "gRPC client"
				rp, err := rpc.InitSearchRpc(addr, com.SearchArgs{Query: q})
				if err != nil {
					e = err.Error()
				} else {
					a = parsePB(rp)
				}
			}
			w.Trans(1)
			if e == "" {
				e = a.check(false)
			}
			if e == "" && !eq(a.ids(), want) {
				e = fmt.Sprintf("returned %v, want %v", a.ids(), want)
			}
			for _, h := range a.docs {
				if e == "" {
					e = r.same(h)
				}
			}
			if e != "" {
				return fmt.Sprintf("%s search for %q: %s", name, q, e)
			}
			if len(want) > 0 {
				w.Nontrivial()
			}
		}
	}
	return ""
}

func histories(al []op, depth int) func(w *rep.W) {
	return func(w *rep.W) {
		if err := serve(); err != nil {
			panic(err)
		}
		w.St.Bound = fmt.Sprintf("depth %d over %d requests", depth, len(al))
		ops := make([]op, 0, depth)
		var rec func() bool
		run := func() bool {
			if !w.Next() {
				return !w.Done()
			}
			w.Case(func() string { return fmt.Sprint(ops) }, func() string {
				n := start(2, 0, 10)
				defer n.stop()
				r := ref{}
				for i, o := range ops {
					if e := n.apply(r, o, i); e != "" {
						return fmt.Sprintf("request %d (%s): %s", i+1, o, e)
					}
				}
				w.Trans(len(ops))
				var st []string
				for id, d := range r {
					st = append(st, id+d.content+d.attri.Time)
				}
				sort.Strings(st)
				w.State(st...)
				w.Outcome(fmt.Sprint(len(r), " documents"))
				return n.observe(r, w)
			})
			return !w.Done()
		}
		rec = func() bool {
			if !run() {
				return false
			}
			if len(ops) == depth {
				return true
			}
			for _, o := range al {
				ops = append(ops, o)
				ok := rec()
				ops = ops[:len(ops)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		rec()
	}
}

// ---- optional fields of a search ----

type sreq struct {
	via    string // http-get http-post grpc client
	query  string
	off    string // absent when ""
	max    string
	ids    map[string]bool
	logic  *pb.Logic
	extras bool
}

func (s sreq) String() string {
	return fmt.Sprintf("%s query=%q offset=%q max=%q docIds=%v logic={%v} extras=%v", s.via, s.query, s.off, s.max, s.ids, s.logic, s.extras)
}

func (s sreq) send() (answer, string) {
	switch s.via {
	case "http-get", "http-post":
		v := url.Values{}
		if s.query != "<absent>" {
			v.Set("query", s.query)
		}
		if s.off != "" {
			v.Set("outputOffset", s.off)
		}
		if s.max != "" {
			v.Set("maxOutputs", s.max)
		}
		if s.extras {
			v.Set("userid", "u")
			v.Set("time", "2020")
		}
		if s.via == "http-get" {
			return parseHTTP(get(rhttp.Search, "/search", v))
		}
		return parseHTTP(post(rhttp.Search, "/search", v))
	case "grpc":
		in := &pb.SearchReq{DocIds: s.ids, Logic: s.logic}
		if s.query != "<absent>" {
			in.Query = s.query
		}
		in.OutputOffset, in.MaxOutputs = int32(num(s.off)), int32(num(s.max))
		if s.extras {
			in.Id, in.Time = "u", "2020"
		}
		r, err := cli.Search(context.Background(), in)
		if err != nil {
			return answer{}, err.Error()
		}
		return parsePB(r), ""
	}
	a := com.SearchArgs{DocIds: s.ids, Logic: logicOf(s.logic), OutputOffset: num(s.off), MaxOutputs: num(s.max)}
	if s.query != "<absent>" {
		a.Query = s.query
	}
	if s.extras {
		a.Id, a.Time = "u", "2020"
	}
	r, err := rpc.InitSearchRpc(addr, a)
	if err != nil {
		return answer{}, err.Error()
	}
	return parsePB(r), ""
}

func num(s string) int { n, _ := strconv.Atoi(s); return n }

func logicOf(l *pb.Logic) types.Logic {
	return types.Logic{Must: l.GetMust(), Should: l.GetShould(), NotIn: l.GetNotIn(),
		Expr: types.Expr{Must: l.GetExpr().GetMust(), Should: l.GetExpr().GetShould(), NotIn: l.GetExpr().GetNotIn()}}
}

func fields(conf [][2]int, vias []string) func(w *rep.W) {
	return func(w *rep.W) {
		if err := serve(); err != nil {
			panic(err)
		}
		corpus := ref{}
		add := func(id, content string, ts int64, labels ...string) {
			corpus[id] = doc{content: content, attri: types.Attri{Title: "t" + id, Author: "a", Time: "x", Ts: ts}, labels: labels}
		}
		add("a", "red apple", 5, "L1")
		add("b", "red apple", 5, "L2")
		add("c", "red pear", 9, "L1", "L2")
		add("d", "red", 1)
		add("e", "red red pear", 0, "L1")
		add("f", "green", 5, "L2")
		var n *node
		cur := -1
		defer func() {
			if n != nil {
				n.stop()
			}
		}()
		queries := []string{"<absent>", "", "red", "red apple", "none"}
		offs := []string{"", "0", "1", "4", "100", "x"}
		maxs := []string{"", "0", "1", "2", "4", "2147483647"}
		filters := []map[string]bool{nil, {}, {"a": true}, {"a": true, "c": true, "zz": true}, {"a": false, "b": true}}
		ex := func(m, s, x []string) *pb.Expr { return &pb.Expr{Must: m, Should: s, NotIn: x} }
		logics := []*pb.Logic{nil, {}, {Must: true}, {Should: true, Expr: ex(nil, nil, nil)}, {NotIn: true},
			{Must: true, Expr: ex([]string{"l1"}, nil, nil)}, {Should: true, Expr: ex(nil, []string{"l1", "l2"}, nil)},
			{NotIn: true, Expr: ex(nil, nil, []string{"l1"})}, {Expr: ex([]string{"l1"}, nil, []string{"l2"})},
			{Must: true, NotIn: true, Expr: ex([]string{"red"}, nil, []string{"pear"})},
			{Must: true, Should: true, Expr: ex([]string{"L1"}, []string{"L2"}, nil)}}
		for ci, c := range conf {
			for _, via := range vias {
				fl, ll := filters, logics
				if strings.HasPrefix(via, "http") {
					fl, ll = filters[:1], logics[:1]
				}
				for _, q := range queries {
					for _, of := range offs {
						for _, mx := range maxs {
							for _, f := range fl {
								for _, l := range ll {
									for x := 0; x < 2; x++ {
										if of == "x" && !strings.HasPrefix(via, "http") {
											continue
										}
										if !w.Next() {
											if w.Done() {
												return
											}
											continue
										}
										s := sreq{via, q, of, mx, f, l, x == 1}
										w.Case(func() string { return fmt.Sprintf("%v, configured window %v", s, c) }, func() string {
											if cur != ci {
												if n != nil {
													n.stop()
												}
												n = start(1, c[0], c[1])
												cur = ci
												for id, d := range corpus {
													if _, err := cli.DocInx(context.Background(), &pb.DocReq{DocId: id, Content: d.content, Attri: pbAttri(d.attri), Labels: d.labels}); err != nil {
														return err.Error()
													}
												}
												com.Flush()
											}
											return checkFields(s, c, corpus, w)
										})
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func checkFields(s sreq, conf [2]int, corpus ref, w *rep.W) string {
	a, e := s.send()
	w.Trans(1)
	if e != "" {
		return e
	}
	// a query with must-not keys alone is answered with the lists of those keys (C02 leaves it open)
	l := logicOf(s.logic)
	onlyNot := !l.Must && !l.Should && len(l.Expr.Must) == 0 && len(l.Expr.Should) == 0
	if e := a.check(onlyNot); e != "" {
		return e
	}
	for _, h := range a.docs {
		if e := corpus.same(h); e != "" {
			return e
		}
	}
	off, max := num(s.off), num(s.max)
	if max == 0 {
		off, max = conf[0], conf[1]
	}
	q := s.query
	if q == "<absent>" {
		q = ""
	}
	if len(s.ids) == 0 {
		s.ids = nil // an empty map and an absent one are the same message
	}
	// what the engine itself answers, without a window and within the window
	direct := func(ro *types.RankOpts) []string {
		r := com.Searcher.Search(types.SearchReq{Text: q, DocIds: s.ids, Logic: logicOf(s.logic), RankOpts: ro})
		var out []string
		if ds, ok := r.Docs.(types.ScoredDocs); ok {
			for _, d := range ds {
				out = append(out, d.DocId)
			}
		}
		sort.Strings(out)
		return out
	}
	all := direct(&types.RankOpts{})
	win := direct(&types.RankOpts{OutputOffset: off, MaxOutputs: max})
	k := len(all) - off
	if k < 0 {
		k = 0
	}
	if k > max {
		k = max
	}
	if len(a.docs) != k {
		return fmt.Sprintf("%d documents returned, the window (%d,%d) of %d matches has %d", len(a.docs), off, max, len(all), k)
	}
	if !eq(a.ids(), win) {
		return fmt.Sprintf("returned %v, the engine answers %v", a.ids(), win)
	}
	// plain queries: independent reference
	if l := s.logic; l == nil || !l.Must && !l.Should && !l.NotIn && l.GetExpr() == nil {
		var want []string
		for _, id := range corpus.match(q) {
			if _, in := s.ids[id]; s.ids == nil || in {
				want = append(want, id)
			}
		}
		if !eq(all, want) {
			return fmt.Sprintf("matches %v, want %v", all, want)
		}
	}
	// logical clauses with their own expressions: independent reference (the id filter of should clauses
	// is the known finding of C02)
	if x := l.Expr; !onlyNot && q != "" && s.ids == nil && (len(x.Must) > 0 || !l.Must) && (len(x.Should) > 0 || !l.Should) && (len(x.NotIn) > 0 || !l.NotIn) {
		var want []string
		for id, d := range corpus {
			in := len(x.Should) == 0
			for _, k := range x.Should {
				in = in || d.has(k)
			}
			for _, k := range x.Must {
				in = in && d.has(k)
			}
			for _, k := range x.NotIn {
				in = in && !d.has(k)
			}
			if in {
				want = append(want, id)
			}
		}
		sort.Strings(want)
		if !eq(all, want) {
			return fmt.Sprintf("matches %v, want %v", all, want)
		}
	}
	if k > 0 {
		w.Nontrivial()
	}
	w.Outcome(fmt.Sprint(a.ids()))
	w.State(s.String())
	return ""
}

func c17(tier string) []rep.Part {
	kinds := []string{"http-add", "http-add-post", "grpc-add", "grpc-add-force", "grpc-add-bare", "client-add", "http-del", "grpc-del", "client-del", "restart"}
	mk := func(kinds []string, nd, nt int) []op {
		var al []op
		for _, k := range kinds {
			if k == "restart" {
				al = append(al, op{k, 0, 0})
				continue
			}
			for d := 0; d < nd; d++ {
				al = append(al, op{k, d, 0})
				if strings.Contains(k, "add") {
					for t := 1; t < nt; t++ {
						al = append(al, op{k, d, t})
					}
				}
			}
		}
		return al
	}
	ps := []rep.Part{
		{Name: "short histories, every request kind", Run: histories(mk(kinds, 2, 2), 2)},
		{Name: "search fields", Run: fields([][2]int{{0, 10}, {1, 2}}, []string{"http-get", "http-post", "grpc", "client"})},
		{Name: "windows over many documents (" + tier + ")", Run: windows},
		{Name: "many parts (" + tier + ")", Run: manyParts},
		{Name: "values (" + tier + ")", Run: values},
	}
	core := mk([]string{"http-add", "grpc-add", "http-del", "grpc-del", "restart"}, 2, 2)
	if tier == "thorough" {
		ps = append(ps, rep.Part{Name: "histories 4", Run: histories(core, 4)})
	} else {
		ps = append(ps, rep.Part{Name: "histories 3", Run: histories(core, 3)})
	}
	return ps
}
