package main

import (
	"fmt"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	"golang.org/x/net/context"

	"vmc/rep"
)

// word is the i-th of a family of words of letters only.
func word(p string, i int) string {
	s := ""
	for k := 0; k < 4 || i > 0; k++ {
		s = string(rune('a'+i%26)) + s
		i /= 26
	}
	return p + "z" + s
}

func words(p string, n int) []string {
	var o []string
	for i := 0; i < n; i++ {
		o = append(o, word(p, i))
	}
	return o
}

// some are the positions of a sequence of n that are probed: the ends, and those around powers of two.
func some(n int) []int {
	m := map[int]bool{}
	for _, i := range []int{0, 1, 2, 3, n / 2, n - 3, n - 2, n - 1} {
		m[i] = true
	}
	for p := 4; p <= n; p *= 2 {
		m[p-1], m[p], m[p+1] = true, true, true
	}
	for p := 10; p <= n; p *= 10 {
		m[p-1], m[p], m[p+1] = true, true, true
	}
	var o []int
	for i := range m {
		if i >= 0 && i < n {
			o = append(o, i)
		}
	}
	sort.Ints(o)
	return o
}

func addDoc(via, id string, d doc, toks []*pb.TokenData, force bool) string {
	switch via {
	case "http-get", "http-post":
		v := url.Values{"docid": {id}, "query": {d.content}}
		w := get
		if via == "http-post" {
			w = post
		}
		_, e := parseHTTP(w(rhttp.AddIndex, "/add", v))
		return e
	case "grpc":
		rp, err := cli.DocInx(context.Background(), &pb.DocReq{DocId: id, Content: d.content, Attri: pbAttri(d.attri), Labels: d.labels, Tokens: toks, ForceUpdate: force})
		if err != nil || rp.Result != 0 {
			return fmt.Sprint("DocInx: ", rp, err)
		}
		return ""
	}
	u, _ := strconv.ParseUint(id, 10, 64)
	if x := rpc.InitGrpcc(addr, rpc.Doc{DocId: u, Content: d.content, Attri: pbAttri(d.attri), Labels: d.labels, Tokens: toks, ForceUpdate: force}); x != 0 {
		return fmt.Sprint("InitGrpcc: ", x)
	}
	return ""
}

// ---- many documents: windows ----

func windows(w *rep.W) {
	if err := serve(); err != nil {
		panic(err)
	}
	w.St.Bound = "up to 1000 documents"
	ns := []int{0, 1, 29, 30, 31, 100, 101, 128, 256, 257, 600}
	if w.Tier == "thorough" {
		ns = []int{0, 1, 2, 29, 30, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 300, 600, 1000, 3000}
	}
	pat := []struct {
		name string
		ts   func(i, n int) int64
	}{
		{"all equal", func(i, n int) int64 { return 7 }},
		{"ascending", func(i, n int) int64 { return int64(i) }},
		{"descending, large", func(i, n int) int64 { return math.MaxInt64 - int64(i) }},
		{"three groups", func(i, n int) int64 { return int64(i%3) - 1 }},
		{"extremes", func(i, n int) int64 { return []int64{math.MinInt64, math.MaxInt64, 0, -1}[i%4] }},
	}
	for _, n := range ns {
		for pi, p := range pat {
			shards := []int{1, 2, 10}[(n+pi)%3]
			offs := []int{0, 1, 50, 126, 127, 128, 129, 255, 256, 300, n - 1, n, n + 1, 1 << 30}
			maxs := []int{1, 2, 29, 30, 31, 99, 100, 101, 127, 128, 129, 255, 256, n - 1, n, n + 1, math.MaxInt32}
			for _, via := range []string{"http-get", "http-post", "grpc", "client"} {
				if !w.Next() {
					if w.Done() {
						return
					}
					continue
				}
				w.Case(func() string {
					return fmt.Sprintf("%d documents with timestamps %s, %d shards, every window over %s", n, p.name, shards, via)
				}, func() string {
					nd := start(shards, 3, 40)
					defer nd.stop()
					corpus := ref{}
					for i := 0; i < n; i++ {
						id := strconv.Itoa(i*37%1009 + 1)
						d := doc{content: "red", attri: types.Attri{Title: "t", Ts: p.ts(i, n)}}
						corpus[id] = d
						if e := addDoc("grpc", id, d, nil, false); e != "" {
							return e
						}
					}
					com.Flush()
					seen := map[[2]int]bool{}
					one := func(of, mx int) string {
						if of < 0 || mx < 0 || seen[[2]int{of, mx}] {
							return ""
						}
						seen[[2]int{of, mx}] = true
						s := sreq{via: via, query: "red", off: strconv.Itoa(of), max: strconv.Itoa(mx)}
						a, e := s.send()
						w.Trans(1)
						if e == "" {
							e = a.check(false)
						}
						off, max := of, mx
						if mx == 0 {
							off, max = 3, 40
						}
						k := len(corpus) - off
						if k < 0 {
							k = 0
						}
						if k > max {
							k = max
						}
						if e == "" && len(a.docs) != k {
							e = fmt.Sprintf("%d documents returned, the window of %d matches has %d", len(a.docs), len(corpus), k)
						}
						for _, h := range a.docs {
							if e == "" {
								e = corpus.same(h)
							}
						}
						if e == "" && k > 0 && shards == 1 {
							// the engine's own window (over several shards, equal scores leave it open)
							r := com.Searcher.Search(types.SearchReq{Text: "red", RankOpts: &types.RankOpts{OutputOffset: off, MaxOutputs: max}})
							var ids []string
							for _, d := range r.Docs.(types.ScoredDocs) {
								ids = append(ids, d.DocId)
							}
							sort.Strings(ids)
							if !eq(ids, a.ids()) {
								e = fmt.Sprintf("returned %v, the engine answers %v", a.ids(), ids)
							}
						}
						if e != "" {
							return fmt.Sprintf("window (%d,%d): %s", of, mx, e)
						}
						if k > 0 {
							w.Nontrivial()
						}
						return ""
					}
					for _, of := range offs {
						for _, mx := range maxs {
							if e := one(of, mx); e != "" {
								return e
							}
						}
					}
					w.State(p.name, fmt.Sprint(n), via)
					w.Outcome(fmt.Sprint(n, " documents"))
					return one(0, 0)
				})
			}
		}
	}
}

// ---- many parts in one document or one search ----

func found(via string, s sreq, want []string) string {
	s.via = via
	s.max = "1000"
	a, e := s.send()
	if e == "" {
		e = a.check(false)
	}
	if e == "" && !eq(a.ids(), want) {
		e = fmt.Sprintf("returned %v, want %v", a.ids(), want)
	}
	if e != "" {
		return fmt.Sprintf("%.300s: %s", s.String(), e)
	}
	return ""
}

func manyParts(w *rep.W) {
	if err := serve(); err != nil {
		panic(err)
	}
	ns := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 700}
	if w.Tier == "thorough" {
		ns = append(ns, 1000, 1001, 1024, 1025, 2000, 5000)
	}
	w.St.Bound = fmt.Sprint(ns[len(ns)-1], " parts")
	search := []string{"http-get", "http-post", "grpc", "client"}
	rpcs := search[2:]
	for _, n := range ns {
		for _, via := range search {
			for _, kind := range []string{"content", "labels", "tokens", "locations", "query", "ids", "must", "should", "notin"} {
				if strings.HasPrefix(via, "http") && kind != "content" && kind != "query" {
					continue
				}
				if !w.Next() {
					if w.Done() {
						return
					}
					continue
				}
				w.Case(func() string { return fmt.Sprintf("%d %s over %s", n, kind, via) }, func() string {
					nd := start(2, 0, 10)
					defer nd.stop()
					at := types.Attri{Title: "t", Ts: 5}
					var big doc
					var toks []*pb.TokenData
					switch kind {
					case "content", "query":
						big = doc{content: strings.Join(words("c", n), " "), attri: at}
					case "labels":
						big = doc{content: "red", attri: at, labels: words("l", n)}
					case "tokens":
						big = doc{attri: at}
						for _, t := range words("t", n) {
							toks = append(toks, &pb.TokenData{Text: t, Locations: []int32{int32(len(toks))}})
						}
					case "locations":
						big = doc{attri: at}
						l := make([]int32, n)
						for i := range l {
							l[i] = int32(i)
						}
						toks = []*pb.TokenData{{Text: word("t", 0), Locations: l}, {Text: word("t", 1)}}
					case "should":
						big = doc{content: "red", attri: at, labels: []string{word("x", n-1)}}
					case "must":
						big = doc{content: "red", attri: at, labels: words("x", n)}
					case "notin":
						big = doc{content: "red", attri: at, labels: []string{word("x", n-1)}}
					default:
						big = doc{content: "red", attri: at}
					}
					small := doc{content: "red", attri: at}
					if e := addDoc(via, "77", big, toks, false); e != "" {
						return e
					}
					if e := addDoc("grpc", "5", small, nil, false); e != "" {
						return e
					}
					com.Flush()
					w.State(kind, fmt.Sprint(n), via)
					w.Outcome(kind)
					w.Nontrivial()
					b := []string{"77"}
					must := func(x ...string) *pb.Logic { return &pb.Logic{Must: true, Expr: &pb.Expr{Must: x}} }
					both := []string{"5", "77"}
					for round := 0; round < 2; round++ {
						switch kind {
						case "content":
							for _, i := range some(n) {
								for _, v := range search {
									w.Trans(1)
									if e := found(v, sreq{query: word("c", i)}, b); e != "" {
										return e
									}
								}
							}
							a, e := sreq{via: via, query: word("c", n-1)}.send()
							if e != "" || len(a.docs) != 1 || a.docs[0].content != big.content {
								return fmt.Sprintf("the content came back changed (%s)", e)
							}
						case "labels":
							for _, i := range some(n) {
								for _, v := range rpcs {
									w.Trans(1)
									if e := found(v, sreq{query: "red", logic: must(word("l", i))}, b); e != "" {
										return e
									}
								}
							}
						case "tokens":
							for _, i := range some(n) {
								for _, v := range search {
									w.Trans(1)
									if e := found(v, sreq{query: word("t", i)}, b); e != "" {
										return e
									}
								}
							}
						case "locations":
							for i := 0; i < 2; i++ {
								if e := found(via, sreq{query: word("t", i)}, b); e != "" {
									return e
								}
							}
						case "query":
							q := strings.Join(words("c", n), " ")
							for _, v := range search {
								w.Trans(2)
								if e := found(v, sreq{query: q}, b); e != "" {
									return e
								}
								if e := found(v, sreq{query: q + " " + word("q", 0)}, nil); e != "" {
									return e
								}
							}
						case "ids":
							ids := map[string]bool{}
							for i := 0; i < n-1; i++ {
								ids[strconv.Itoa(1000+i)] = i%2 == 0
							}
							ids["77"] = true
							w.Trans(2)
							if e := found(via, sreq{query: "red", ids: ids}, b); e != "" {
								return e
							}
							delete(ids, "77")
							if n > 1 {
								if e := found(via, sreq{query: "red", ids: ids}, nil); e != "" {
									return e
								}
							}
						case "must":
							w.Trans(2)
							if e := found(via, sreq{query: "red", logic: must(words("x", n)...)}, b); e != "" {
								return e
							}
							if e := found(via, sreq{query: "red", logic: must(words("x", n+1)...)}, nil); e != "" {
								return e
							}
						case "should":
							w.Trans(2)
							if e := found(via, sreq{query: "red", logic: &pb.Logic{Should: true, Expr: &pb.Expr{Should: words("x", n)}}}, b); e != "" {
								return e
							}
						case "notin":
							w.Trans(2)
							l := &pb.Logic{Must: true, NotIn: true, Expr: &pb.Expr{Must: []string{"red"}, NotIn: words("x", n)}}
							if e := found(via, sreq{query: "red", logic: l}, []string{"5"}); e != "" {
								return e
							}
							l.Expr.NotIn = words("y", n)
							if e := found(via, sreq{query: "red", logic: l}, both); e != "" {
								return e
							}
						}
						if round == 0 {
							nd.restart()
						}
					}
					return ""
				})
			}
		}
	}
}

// ---- unusual values, and documents added with the force flag ----

func values(w *rep.W) {
	if err := serve(); err != nil {
		panic(err)
	}
	long := func(n int) string { return strings.Repeat("ab", n/2) }
	ids := []string{"1", "00", "-1", "18446744073709551615", "a", "A", "中文", "a b", "a/b", "a+b&c=d%20", "a\nb", "<&>\"'\\", "\u2028", long(100), long(1000), long(70000)}
	bodies := []string{"red", " red ", "red 世界", "red <b>&amp;</b>", "red \"\\ \n\t\r", "red \u2028\u00e9\U0001F600", "red+%2b=&;", "RED", "red red red", "red " + long(4096), "red " + long(70000), "red " + long(300000)}
	attris := []types.Attri{{}, {Title: "<&>\"\\中", Author: "\n", Time: " ", Ts: -1}, {Title: long(1000), Author: long(70000), Time: "0", Ts: math.MaxInt64}, {Ts: math.MinInt64}, {Title: "0", Author: "0", Time: "0", Ts: 1 << 53}}
	type vals struct {
		id, body string
		at       types.Attri
	}
	var all []vals
	for i, id := range ids {
		for j, b := range bodies {
			if w.Tier == "thorough" || i < 3 || j < 2 || (i+j)%4 == 0 {
				all = append(all, vals{id, b, attris[(i+j)%len(attris)]})
			}
		}
	}
	for _, a := range attris {
		all = append(all, vals{"1", "red", a}, vals{"2", "red 世界", a})
	}
	var nd *node
	defer func() {
		if nd != nil {
			nd.stop()
		}
	}()
	for _, v := range all {
		for _, via := range []string{"http-get", "http-post", "grpc", "client"} {
			if via == "client" {
				if u, err := strconv.ParseUint(v.id, 10, 64); err != nil || strconv.FormatUint(u, 10) != v.id {
					continue
				}
			}
			if !w.Next() {
				if w.Done() {
					return
				}
				continue
			}
			w.Case(func() string {
				return fmt.Sprintf("document %.40q with content %.40q (%d bytes), attributes %.100q over %s", v.id, v.body, len(v.body), fmt.Sprintf("%+v", v.at), via)
			}, func() string {
				nd = start(2, 0, 10)
				defer func() { nd.stop(); nd = nil }()
				d := doc{content: v.body, attri: v.at}
				if strings.HasPrefix(via, "http") {
					d.attri = types.Attri{}
					d.t0, d.t1 = time.Now().UnixNano(), math.MaxInt64
				}
				if e := addDoc(via, v.id, d, nil, false); e != "" {
					return e
				}
				r := ref{v.id: d}
				com.Flush()
				w.Nontrivial()
				w.State(v.id, v.body, via)
				for round := 0; round < 3; round++ {
					for _, sv := range []string{"http-get", "http-post", "grpc", "client"} {
						a, e := sreq{via: sv, query: "red"}.send()
						w.Trans(1)
						if e == "" {
							e = a.check(false)
						}
						n := 1
						if round == 2 {
							n = 0
						}
						if e == "" && len(a.docs) != n {
							e = fmt.Sprintf("%d documents returned, want %d", len(a.docs), n)
						}
						if e == "" && n == 1 {
							e = r.same(a.docs[0])
						}
						if e != "" {
							return fmt.Sprintf("%s, %s: %s", []string{"after the flush", "after a restart", "after the delete"}[round], sv, e)
						}
					}
					switch round {
					case 0:
						nd.restart()
					case 1:
						switch via {
						case "http-get":
							get(rhttp.DelIndex, "/del", url.Values{"docid": {v.id}})
						case "client":
							rpc.InitDelGrpcc(addr, v.id)
						default:
							if _, err := cli.Delete(context.Background(), &pb.DeleteReq{DocId: v.id}); err != nil {
								return err.Error()
							}
						}
						com.Flush()
					}
				}
				w.Outcome("kept")
				return ""
			})
		}
	}
	for _, via := range []string{"grpc", "client"} {
		for n := 1; n <= 3; n++ {
			if !w.Next() {
				if w.Done() {
					return
				}
				continue
			}
			w.Case(func() string {
				return fmt.Sprintf("%d documents, the last one added with the force flag over %s", n, via)
			}, func() string {
				nd = start(1, 0, 10)
				defer func() { nd.stop(); nd = nil }()
				for i := 1; i <= n; i++ {
					if e := addDoc(via, strconv.Itoa(i), doc{content: "red"}, nil, i == n); e != "" {
						return e
					}
				}
				for k := 0; ; k++ {
					a, e := sreq{via: via, query: "red"}.send()
					if e != "" {
						return e
					}
					w.Trans(1)
					for _, d := range a.docs {
						if d.id == strconv.Itoa(n) {
							w.Nontrivial()
							return ""
						}
					}
					if k == 3000 {
						return fmt.Sprintf("a document added with the force flag is not found 15 s later without a flush: %v", a.ids())
					}
					time.Sleep(5 * time.Millisecond)
				}
			})
		}
	}
}
