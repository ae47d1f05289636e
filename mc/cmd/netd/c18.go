package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"time"

	"github.com/go-ego/riot/net/com"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	zlog "github.com/go-vgo/zlog/zlog"
	"golang.org/x/net/context"
	"google.golang.org/grpc"

	"vmc/expl"
	"vmc/mc"
	"vmc/rep"
)

// what a node does
type reply struct {
	kind string // docs, drip, error, empty, garbage, cut, hang, stall
	ts   []int64
	body string // what the contents end with
}

func (r reply) String() string {
	if r.body != "" {
		return fmt.Sprintf("%s %v with %d bytes %.20q", r.kind, r.ts, len(r.body), r.body)
	}
	if len(r.ts) > 8 {
		return fmt.Sprintf("%d documents %v...", len(r.ts), r.ts[:6])
	}
	if r.kind == "docs" {
		return fmt.Sprint(r.ts)
	}
	return r.kind
}

type text struct {
	Id      string      `json:"id"`
	Content string      `json:"content"`
	Score   []float32   `json:"score"`
	Attri   types.Attri `json:"attri"`
}

type resp struct {
	Code      int64  `json:"code"`
	Len       int    `json:"len"`
	Timestamp int64  `json:"timestamp"`
	Docs      []text `json:"docs"`
}

// answer is what node i returns for a request, within its window.
func (r reply) answer(i int, query string, off, max int) []text {
	var ds []text
	for k, ts := range r.ts {
		id := fmt.Sprintf("%c%d", 'a'+(i+2*k)%5, i) // id order differs from node order
		if k > 4 {
			id += fmt.Sprint("-", k*31%97, "-", k)
		}
		ds = append(ds, text{id, query + " " + id + r.body, []float32{float32(k)}, types.Attri{Title: "t" + id, Author: "x", Time: "T", Ts: ts}})
	}
	sortTexts(ds)
	if off > len(ds) {
		off = len(ds)
	}
	ds = ds[off:]
	if len(ds) > max {
		ds = ds[:max]
	}
	return ds
}

func sortTexts(ds []text) {
	sort.SliceStable(ds, func(i, j int) bool {
		if ds[i].Attri.Ts != ds[j].Attri.Ts {
			return ds[i].Attri.Ts > ds[j].Attri.Ts
		}
		return ds[i].Id > ds[j].Id
	})
}

// ---- the nodes behind http.DefaultTransport ----

type nodes struct {
	replies []reply
	lat     []time.Duration
	seen    []string
}

var theNodes *nodes

type cutBody struct{ b io.Reader }

func (c cutBody) Read(p []byte) (int, error) {
	n, err := c.b.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (c cutBody) Close() error { return nil }

// stuck waits for an answer that does not come: until the request gives up, or for ever.
func stuck(req *http.Request) error {
	if _, ok := req.Context().Deadline(); !ok {
		mc.Block("an answer of a node that hangs", func() bool { return false })
	}
	mc.Sleep(time.Hour)
	return context.DeadlineExceeded
}

// stallBody is the beginning of an answer.
type stallBody struct {
	b   io.Reader
	req *http.Request
}

func (c stallBody) Read(p []byte) (int, error) {
	n, err := c.b.Read(p)
	if err == io.EOF {
		err = stuck(c.req)
	}
	return n, err
}
func (c stallBody) Close() error { return nil }

func (n *nodes) RoundTrip(req *http.Request) (*http.Response, error) {
	i, _ := strconv.Atoi(strings.TrimPrefix(req.URL.Hostname(), "node"))
	if n == nil || i >= len(n.replies) || req.URL.Path != "/search" {
		return nil, errors.New("no such node: " + req.URL.String())
	}
	var form url.Values
	if req.Body != nil {
		b, _ := io.ReadAll(req.Body)
		form, _ = url.ParseQuery(string(b))
		req.Body.Close()
	}
	if form == nil {
		form = url.Values{}
	}
	for k, v := range req.URL.Query() {
		form[k] = v
	}
	if len(n.lat) > i {
		mc.Sleep(n.lat[i])
	} else {
		mc.Point("node answers")
	}
	r := n.replies[i]
	off, _ := strconv.Atoi(form.Get("outputOffset"))
	max, _ := strconv.Atoi(form.Get("maxOutputs"))
	n.seen = append(n.seen, fmt.Sprintf("node%d userid=%s query=%s off=%d max=%d time=%s", i, form.Get("userid"), form.Get("query"), off, max, form.Get("time")))
	ds := r.answer(i, form.Get("query"), off, max)
	b, _ := json.Marshal(&resp{Len: len(ds), Timestamp: 1, Docs: ds})
	res := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req}
	switch r.kind {
	case "error":
		return nil, errors.New("connection refused")
	case "hang":
		return nil, stuck(req)
	case "stall":
		res.Body = stallBody{bytes.NewReader(b[:len(b)/2]), req}
		return res, nil
	case "empty":
		b = nil
	case "garbage":
		b = []byte("<html>bad gateway</html>")
		res.StatusCode, res.Status = 502, "502 Bad Gateway"
	case "cut":
		res.Body = cutBody{bytes.NewReader(b[:len(b)/2])}
		return res, nil
	}
	res.Body = io.NopCloser(bytes.NewReader(b))
	if r.kind == "drip" {
		res.Body = io.NopCloser(iotest.OneByteReader(bytes.NewReader(b)))
	}
	return res, nil
}

// roundTripper passes requests to the nodes of the current case.
type roundTripper struct{}

func (roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return theNodes.RoundTrip(r) }

func conf(n, off, max int) com.Config {
	c := com.Config{Engine: com.Engine{OutputOffset: off, MaxOutputs: max}}
	for i := 0; i < n; i++ {
		c.Url = append(c.Url, fmt.Sprintf("http://node%d", i))
	}
	return c
}

type dreq struct{ query, off, max string }

func (d dreq) String() string {
	return fmt.Sprintf("query=%s outputOffset=%q maxOutputs=%q", d.query, d.off, d.max)
}

func (d dreq) window(c com.Config) (int, int) {
	off, _ := strconv.Atoi(d.off)
	max, _ := strconv.Atoi(d.max)
	if max == 0 {
		off, max = c.Engine.OutputOffset, c.Engine.MaxOutputs
	}
	return off, max
}

func (d dreq) send() (*resp, string) {
	v := url.Values{"userid": {"u"}, "query": {d.query}, "time": {"now"}}
	if d.off != "" {
		v.Set("outputOffset", d.off)
	}
	if d.max != "" {
		v.Set("maxOutputs", d.max)
	}
	w := httptest.NewRecorder()
	rhttp.WgDist(w, httptest.NewRequest("GET", "/dist?"+v.Encode(), nil))
	if w.Code != 200 {
		return nil, fmt.Sprint("status ", w.Code)
	}
	var r resp
	if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
		return nil, fmt.Sprintf("the response is no JSON (%v): %.80q", err, w.Body.String())
	}
	return &r, ""
}

func want(rs []reply, d dreq, c com.Config) []text {
	off, max := d.window(c)
	var ds []text
	for i, r := range rs {
		if r.kind == "docs" || r.kind == "drip" {
			ds = append(ds, r.answer(i, d.query, off, max)...)
		}
	}
	sortTexts(ds)
	if len(ds) > max {
		ds = ds[:max]
	}
	return ds
}

func compare(r *resp, ds []text) string {
	if r.Len != len(r.Docs) {
		return fmt.Sprintf("the length field says %d, %d documents returned", r.Len, len(r.Docs))
	}
	return compareDocs(r.Docs, ds)
}

func compareDocs(got, ds []text) string {
	s := func(ds []text) string {
		var o []string
		for _, d := range ds {
			c := d.Content
			if len(c) > 40 {
				h := fnv.New32a()
				h.Write([]byte(c))
				c = fmt.Sprintf("%.20q... %d bytes, hash %08x", c, len(c), h.Sum32())
			}
			o = append(o, fmt.Sprintf("%s@%d(%s)", d.Id, d.Attri.Ts, c))
		}
		return "[" + strings.Join(o, " ") + "]"
	}
	if s(got) != s(ds) {
		if len(got) > 8 || len(ds) > 8 {
			k := 0
			for k < len(got) && k < len(ds) && s(got[k:k+1]) == s(ds[k:k+1]) {
				k++
			}
			end := func(n int) int { return min(n, k+2) }
			return fmt.Sprintf("returned %d documents, want %d; from position %d on %s, want %s", len(got), len(ds), k, s(got[k:end(len(got))]), s(ds[k:end(len(ds))]))
		}
		return fmt.Sprintf("returned %s, want %s", s(got), s(ds))
	}
	for i := range ds {
		if got[i].Attri != ds[i].Attri || fmt.Sprint(got[i].Score) != fmt.Sprint(ds[i].Score) {
			return fmt.Sprintf("document %+v, want %+v", got[i], ds[i])
		}
	}
	return ""
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func replies(th bool) []reply {
	rs := []reply{{"docs", []int64{1}, ""}, {"docs", nil, ""}, {"docs", []int64{2, 1}, ""}, {"docs", []int64{1, 1}, ""}, {"error", []int64{3}, ""}, {"empty", nil, ""}, {"garbage", []int64{3}, ""}, {"cut", []int64{3, 3}, ""}}
	if th {
		rs = append(rs, reply{"docs", []int64{3, 2, 1}, ""}, reply{"docs", []int64{2}, ""})
	}
	return rs
}

func merge(n int) func(w *rep.W) {
	return func(w *rep.W) {
		http.DefaultTransport = roundTripper{}
		rs := replies(w.Tier == "thorough")
		cur := make([]reply, n)
		var rec func(i int)
		rec = func(i int) {
			if w.Done() {
				return
			}
			if i < n {
				for _, r := range rs {
					cur[i] = r
					rec(i + 1)
				}
				return
			}
			for _, p := range perms(n) {
				for _, d := range []dreq{{"q", "", ""}, {"q", "", "1"}, {"q", "", "2"}, {"q", "0", "3"}, {"q", "1", "2"}, {"q", "", "100"}, {"q", "1", "0"}, {"q", "", "x"}} {
					for _, cf := range [][2]int{{0, 2}, {1, 3}} {
						if cf[0] == 1 && d.max != "" {
							continue
						}
						if !w.Next() {
							if w.Done() {
								return
							}
							continue
						}
						mergeCase(w, cur, p, d, cf)
					}
				}
			}
		}
		rec(0)
	}
}

// mergeCase: the nodes answer cur in order p, and one search is compared with the union.
func mergeCase(w *rep.W, cur []reply, p []int, d dreq, cf [2]int) {
	n := len(cur)
	w.Case(func() string {
		return fmt.Sprintf("nodes answer %v in order %v; %v, configured window %v", cur, p, d, cf)
	}, func() string {
		c := conf(n, cf[0], cf[1])
		com.Conf = c
		theNodes = &nodes{replies: cur}
		for i := range p {
			theNodes.lat = append(theNodes.lat, time.Duration(p[i]+1)*10*time.Millisecond)
		}
		ds := want(cur, d, c)
		m := run1(w, 0, func() string {
			r, e := d.send()
			if e != "" {
				return e
			}
			return compare(r, ds)
		})
		if m == "" {
			// every node was asked once, for the same thing
			off, max := d.window(c)
			var ask []string
			for i := 0; i < n; i++ {
				ask = append(ask, fmt.Sprintf("node%d userid=u query=q off=%d max=%d time=now", i, off, max))
			}
			sort.Strings(theNodes.seen)
			sort.Strings(ask)
			if strings.Join(theNodes.seen, ",") != strings.Join(ask, ",") {
				m = fmt.Sprintf("the nodes were asked %v, want %v", theNodes.seen, ask)
			}
		}
		if len(ds) > 0 {
			w.Nontrivial()
		}
		w.Outcome(fmt.Sprint(len(ds), " documents"))
		w.State(fmt.Sprint(cur, d, cf))
		return m
	})
}

// bodies are contents that a transport, an encoding or a buffer may treat specially.
func bodies(th bool) []string {
	bs := []string{"", " ", "\x00\x01", "\"\\", "<b>&amp;</b>", "中文 €", "\u2028\ufffd", "\n\r\t"}
	for _, n := range []int{100, 4000, 4096, 33000, 65536, 70000, 300000} {
		bs = append(bs, strings.Repeat("ab", n/2))
	}
	if th {
		bs = append(bs, strings.Repeat("x", 1<<20), strings.Repeat("y", 9<<20))
	}
	return bs
}

// contents: the answers of the nodes differ in size and in the bytes they hold, and one comes byte by byte.
func contents(w *rep.W) {
	http.DefaultTransport = roundTripper{}
	for _, b := range bodies(w.Tier == "thorough") {
		for _, kind := range []string{"docs", "drip"} {
			for _, cur := range [][]reply{{{kind, []int64{2}, b}}, {{kind, []int64{3, 1}, b}, {"docs", []int64{2}, ""}}, {{"docs", []int64{2}, ""}, {kind, []int64{3, 1}, b}, {"error", nil, ""}}} {
				for _, p := range perms(len(cur)) {
					if !w.Next() {
						if w.Done() {
							return
						}
						continue
					}
					mergeCase(w, cur, p, dreq{"q", "", "5"}, [2]int{0, 2})
				}
			}
		}
	}
}

// hanging: nodes that take the request and never answer it, or stop in the middle, next to ones that do and ones that fail.
func hanging(w *rep.W) {
	http.DefaultTransport = roundTripper{}
	rs := []reply{{"docs", []int64{2, 1}, ""}, {"hang", []int64{3}, ""}, {"stall", []int64{3}, ""}, {"error", nil, ""}}
	for n := 1; n <= 3; n++ {
		cur := make([]reply, n)
		var rec func(i int)
		rec = func(i int) {
			if i < n {
				for _, r := range rs {
					cur[i] = r
					rec(i + 1)
				}
				return
			}
			for _, p := range perms(n) {
				if !w.Next() {
					if w.Done() {
						return
					}
					continue
				}
				mergeCase(w, cur, p, dreq{"q", "", "3"}, [2]int{0, 2})
			}
		}
		rec(0)
	}
}

// many nodes: all answer, or one of them fails, or only one of them answers.
func manyNodes(w *rep.W) {
	http.DefaultTransport = roundTripper{}
	for _, n := range []int{4, 5, 7, 8, 9, 12, 16, 17, 33} {
		for odd := -1; odd < 2*n; odd++ {
			var cur []reply
			var p []int
			for i := 0; i < n; i++ {
				r := reply{"docs", []int64{int64(1 + (i*7)%n), int64(100 + i%3)}, ""}
				if odd >= 0 && odd < n && i == odd || odd >= n && i != odd-n {
					r.kind = []string{"error", "garbage", "empty"}[odd%3]
				}
				cur = append(cur, r)
				p = append(p, (i*5+odd+1)%n)
			}
			for _, max := range []string{"3", "1000"} {
				if !w.Next() {
					if w.Done() {
						return
					}
					continue
				}
				mergeCase(w, cur, p, dreq{"q", "", max}, [2]int{0, 2})
			}
		}
	}
}

// sizes are numbers of documents per node.
func sizes(th bool) []int {
	if th {
		return []int{3, 10, 31, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 3000}
	}
	return []int{10, 33, 65, 100, 101, 129, 256, 300, 1000}
}

// longReply has n documents: all of one time, of different times, or of two times.
func longReply(n, i, form int) reply {
	r := reply{kind: "docs"}
	for k := 0; k < n; k++ {
		r.ts = append(r.ts, []int64{5, int64((k*61+i)%n) * 1000, int64(k % 2)}[form])
	}
	return r
}

// manyDocs: long answers of one to three nodes under every maximum around their numbers.
func manyDocs(w *rep.W, each func(w *rep.W, cur []reply, max int)) {
	for _, n := range sizes(w.Tier == "thorough") {
		for form := 0; form < 3; form++ {
			for _, cur := range [][]reply{{longReply(n, 0, form)}, {longReply(n, 0, form), longReply(n, 1, form)}, {longReply(n, 0, form), {"error", nil, ""}, longReply(n/2, 2, form)}, {longReply(3, 0, form), longReply(n, 1, form), longReply(1, 2, form)}} {
				for _, max := range []int{1, n - 1, n, n + 1, 2*n - 1, 2 * n, 100, 10000} {
					if !w.Next() {
						if w.Done() {
							return
						}
						continue
					}
					each(w, cur, max)
				}
			}
		}
	}
}

// concurrent searches: the answers depend on the query, so a mix-up shows.
func concurrent(name string, rs []reply, ds []dreq, dev int) rep.Part {
	return rep.Part{Name: "concurrent: " + name, Run: func(w *rep.W) {
		http.DefaultTransport = roundTripper{}
		c := conf(len(rs), 0, 2)
		expl.Run(w, expl.Scen{Bases: []int{0, 1, 4, 5}, Dev: dev, Race: true, Body: func() string {
			com.Conf = c
			theNodes = &nodes{replies: rs}
			n := 0
			errs := make([]string, len(ds))
			out := make([]string, len(ds))
			mc.Explore(true)
			for i := range ds {
				i := i
				mc.Go(func() {
					r, e := ds[i].send()
					if e == "" {
						e = compare(r, want(rs, ds[i], c))
						out[i] = fmt.Sprint(len(r.Docs))
					}
					if e != "" {
						errs[i] = fmt.Sprintf("search %d (%v): %s", i, ds[i], e)
					}
					n++
				})
			}
			mc.Block("join", func() bool { return n == len(ds) })
			mc.Explore(false)
			for _, e := range errs {
				if e != "" {
					mc.Fail(e)
				}
			}
			return strings.Join(out, ",")
		}})
	}}
}

// ---- gRPC fan-out ----

type gnode struct {
	i   int
	mu  sync.Mutex
	r   reply
	ask []string

	held atomic.Bool
}

// hangs is how long, in real time, a node that hangs holds a request that does not give up.
const hangs = 40 * time.Second

func (g *gnode) HeartBeat(ctx context.Context, in *pb.HeartReq) (*pb.Reply, error) {
	return &pb.Reply{Result: 1}, nil
}
func (g *gnode) DocInx(ctx context.Context, in *pb.DocReq) (*pb.Reply, error) {
	return nil, errors.New("no")
}
func (g *gnode) Delete(ctx context.Context, in *pb.DeleteReq) (*pb.Reply, error) {
	return nil, errors.New("no")
}
func (g *gnode) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.ask = append(g.ask, showAsk(in))
	if g.r.kind == "hang" {
		g.mu.Unlock()
		defer g.mu.Lock()
		select {
		case <-ctx.Done():
		case <-time.After(hangs):
			g.held.Store(true)
		}
		return nil, errors.New("too late")
	}
	if g.r.kind != "docs" {
		return nil, errors.New("node failure")
	}
	out := &pb.SearchReply{}
	max := int(in.MaxOutputs)
	if max == 0 {
		max = 2
	}
	for _, d := range g.r.answer(g.i, in.Query, int(in.OutputOffset), max) {
		out.Docs = append(out.Docs, &pb.Text{Id: d.Id, Content: d.Content, Attri: &pb.Attri{Title: d.Attri.Title, Author: d.Attri.Author, Time: d.Attri.Time, Ts: d.Attri.Ts}})
	}
	out.Len = int32(len(out.Docs))
	return out, nil
}

var gnodes []*gnode
var gaddrs []string

// listen on a free loopback port outside the ephemeral range.
func listen() (net.Listener, string) {
	for p := 20000 + os.Getpid()*7%11000; p < 32000; p++ {
		a := "127.0.0.1:" + strconv.Itoa(p)
		if l, err := net.Listen("tcp", a); err == nil {
			return l, a
		}
	}
	panic("no free port")
}

// quietZlog initialises the log the gRPC client writes to, as the applications do, silently.
func quietZlog() {
	e := os.Stderr
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = n
	}
	zlog.InitDev()
	os.Stderr = e
}

func startNodes() {
	if len(gnodes) == 0 {
		quietZlog()
	}
	for i := len(gnodes); i < 3; i++ {
		l, a := listen()
		g := &gnode{i: i}
		s := grpc.NewServer()
		pb.RegisterGreeterServer(s, g)
		go s.Serve(l)
		gnodes, gaddrs = append(gnodes, g), append(gaddrs, a)
	}
}

func fromPB(r *pb.SearchReply) []text {
	var ds []text
	for _, d := range r.Docs {
		ds = append(ds, text{Id: d.Id, Content: d.Content, Attri: types.Attri{Title: d.GetAttri().GetTitle(), Author: d.GetAttri().GetAuthor(), Time: d.GetAttri().GetTime(), Ts: d.GetAttri().GetTs()}})
	}
	return ds
}

func noScore(ds []text) []text {
	out := append([]text{}, ds...)
	for i := range out {
		out[i].Score = nil
	}
	return out
}

func gconf(n int) com.Config {
	c := com.Config{Engine: com.Engine{MaxOutputs: 2}}
	c.Rpc.DistPort = append([]string{}, gaddrs[:n]...)
	return c
}

func showAsk(in *pb.SearchReq) string {
	var ids []string
	for k, v := range in.DocIds {
		ids = append(ids, fmt.Sprint(k, v))
	}
	sort.Strings(ids)
	l, x := in.GetLogic(), in.GetLogic().GetExpr()
	return fmt.Sprintf("id=%s query=%s time=%s off=%d max=%d ids=%v logic=%v,%v,%v %q %q %q", in.Id, in.Query, in.Time, in.OutputOffset, in.MaxOutputs, ids,
		l.GetMust(), l.GetShould(), l.GetNotIn(), x.GetMust(), x.GetShould(), x.GetNotIn())
}

// greqs are the other parts of a request, all optional.
var greqs = []func(*pb.SearchReq){
	func(*pb.SearchReq) {},
	func(in *pb.SearchReq) {
		in.Time, in.DocIds, in.Logic = "now", map[string]bool{"a": true, "b": false}, &pb.Logic{Should: true}
	},
	func(in *pb.SearchReq) {
		in.OutputOffset = 1
		in.Logic = &pb.Logic{Must: true, NotIn: true, Expr: &pb.Expr{Must: []string{"m"}, Should: []string{"s", "t"}, NotIn: []string{"n"}}}
	},
}

func gsend(q string, max, form int, rs []reply, single bool) string {
	in := &pb.SearchReq{Id: "u", Query: q, MaxOutputs: int32(max)}
	greqs[form](in)
	c := com.Config{Engine: com.Engine{MaxOutputs: 2}}
	d := dreq{q, fmt.Sprint(in.OutputOffset), fmt.Sprint(max)}
	ask := *in
	off, m := d.window(c)
	ask.OutputOffset, ask.MaxOutputs = int32(off), int32(m)
	r, err := wgSearch(in)
	for i := range rs {
		if gnodes[i].held.Swap(false) {
			return fmt.Sprintf("node %d, which does not answer, held the search for %v", i, hangs)
		}
	}
	if err != nil || r == nil {
		return fmt.Sprint("no answer: ", err)
	}
	if int(r.Len) != len(r.Docs) {
		return fmt.Sprintf("the length field says %d, %d documents returned", r.Len, len(r.Docs))
	}
	if single {
		for i := range rs {
			if len(gnodes[i].ask) != 1 || gnodes[i].ask[0] != showAsk(&ask) {
				return fmt.Sprintf("node %d was asked %v, want %s", i, gnodes[i].ask, showAsk(&ask))
			}
		}
	}
	return compareDocs(fromPB(r), noScore(want(rs, d, c)))
}

// gmerge: the nodes are real gRPC servers; a call is one atomic step, and base orders vary who calls first.
func gmerge(n int) func(w *rep.W) {
	return func(w *rep.W) {
		startNodes()
		all := replies(true)
		var rs []reply
		for _, r := range all {
			if r.kind == "docs" || r.kind == "error" {
				rs = append(rs, r)
			}
		}
		if w.Tier != "thorough" && n == 3 {
			rs = rs[:5]
		}
		cur := make([]reply, n)
		var rec func(i int)
		rec = func(i int) {
			if w.Done() {
				return
			}
			if i < n {
				for _, r := range rs {
					cur[i] = r
					rec(i + 1)
				}
				return
			}
			for mf := 0; mf < 15; mf++ {
				max, form := []int{0, 1, 2, 3, 100}[mf%5], mf/5
				if form > 0 && w.Tier != "thorough" && max != 0 && max != 2 {
					continue
				}
				for base := 0; base < 3; base++ {
					if base > 0 && (n < 2 || base+1 > n) {
						continue
					}
					if !w.Next() {
						if w.Done() {
							return
						}
						continue
					}
					gmergeCase(w, cur, max, form, base)
				}
			}
		}
		rec(0)
	}
}

func gmergeCase(w *rep.W, cur []reply, max, form, base int) {
	n := len(cur)
	w.Case(func() string {
		return fmt.Sprintf("gRPC nodes answer %v, maximum %d, request form %d, base order %d", cur, max, form, base)
	}, func() string {
		for i := range cur {
			gnodes[i].mu.Lock()
			gnodes[i].r = cur[i]
			gnodes[i].ask = nil
			gnodes[i].mu.Unlock()
		}
		wgConf(gconf(n))
		w.Outcome("answered")
		w.Nontrivial()
		return run1(w, base, func() string { return gsend("q", max, form, cur, true) })
	})
}

// ghanging: a node takes the request and does not answer it; the others do.
func ghanging(w *rep.W) {
	startNodes()
	docs, hang := reply{"docs", []int64{2, 1}, ""}, reply{"hang", nil, ""}
	for _, cur := range [][]reply{{hang}, {docs, hang}, {hang, docs}, {{"error", nil, ""}, hang, docs}} {
		if !w.Next() {
			if w.Done() {
				return
			}
			continue
		}
		gmergeCase(w, cur, 3, 0, 0)
	}
}

// gcontents: answers of different sizes over gRPC, whose messages may hold 4 MB.
func gcontents(w *rep.W) {
	startNodes()
	for _, b := range bodies(false) {
		for _, cur := range [][]reply{{{"docs", []int64{2}, b}}, {{"docs", []int64{3, 1}, b}, {"docs", []int64{2}, ""}}, {{"docs", []int64{2}, ""}, {"docs", []int64{3, 1}, b}, {"error", nil, ""}}} {
			if !w.Next() {
				if w.Done() {
					return
				}
				continue
			}
			gmergeCase(w, cur, 5, 0, 0)
		}
	}
}

func gconcurrent(rs []reply, dev int) rep.Part {
	return rep.Part{Name: fmt.Sprintf("gRPC concurrent %v", rs), Run: func(w *rep.W) {
		startNodes()
		wgConf(gconf(len(rs)))
		expl.Run(w, expl.Scen{Bases: []int{0, 1, 4, 5}, Dev: dev, Race: true, Body: func() string {
			for i := range rs {
				gnodes[i].mu.Lock()
				gnodes[i].r = rs[i]
				gnodes[i].mu.Unlock()
			}
			n := 0
			errs := make([]string, 2)
			mc.Explore(true)
			for i := range errs {
				i := i
				mc.Go(func() {
					errs[i] = gsend(fmt.Sprint("q", i), i+1, i, rs, false)
					n++
				})
			}
			mc.Block("join", func() bool { return n == 2 })
			mc.Explore(false)
			for i, e := range errs {
				if e != "" {
					mc.Fail(fmt.Sprintf("search q%d: %s", i, e))
				}
			}
			return "ok"
		}})
	}}
}

func c18(tier string) []rep.Part {
	var ps []rep.Part
	for n := 0; n <= 3; n++ {
		ps = append(ps, rep.Part{Name: fmt.Sprintf("%d nodes (%s)", n, tier), Run: merge(n)})
	}
	ps = append(ps, rep.Part{Name: "contents (" + tier + ")", Run: contents}, rep.Part{Name: "many nodes", Run: manyNodes}, rep.Part{Name: "hanging nodes", Run: hanging},
		rep.Part{Name: "many documents (" + tier + ")", Run: func(w *rep.W) {
			http.DefaultTransport = roundTripper{}
			manyDocs(w, func(w *rep.W, cur []reply, max int) {
				p := []int{2, 0, 1}[:len(cur)]
				if len(cur) < 3 {
					p = []int{1, 0}[:len(cur)]
				}
				mergeCase(w, cur, p, dreq{"q", "", fmt.Sprint(max)}, [2]int{0, 2})
			})
		}})
	a, b, e := reply{"docs", []int64{2, 1}, ""}, reply{"docs", []int64{1, 1}, ""}, reply{"error", nil, ""}
	dev := 2
	if tier == "thorough" {
		dev = 4
	}
	two := []dreq{{"q1", "", "1"}, {"q2", "", "3"}}
	ps = append(ps,
		concurrent("one search, three nodes", []reply{a, b, a}, two[1:], dev+1),
		concurrent("two searches, one node", []reply{a}, two, dev+1),
		concurrent("two searches, two nodes", []reply{a, b}, two, dev),
		concurrent("two searches, configured window", []reply{a, b}, []dreq{{"q1", "", ""}, {"q2", "1", "2"}}, dev),
		concurrent("two searches, a node fails", []reply{a, e, b}, two, dev-1))
	if haveWg {
		for n := 0; n <= 3; n++ {
			ps = append(ps, rep.Part{Name: fmt.Sprintf("gRPC %d nodes (%s)", n, tier), Run: gmerge(n)})
		}
		ps = append(ps, rep.Part{Name: "gRPC hanging nodes", Run: ghanging})
		ps = append(ps, rep.Part{Name: "gRPC contents (" + tier + ")", Run: gcontents})
		ps = append(ps, rep.Part{Name: "gRPC many documents (" + tier + ")", Run: func(w *rep.W) {
			startNodes()
			manyDocs(w, func(w *rep.W, cur []reply, max int) { gmergeCase(w, cur, max, 0, 0) })
		}})
		ps = append(ps, gconcurrent([]reply{a, b}, 1))
	}
	return ps
}
