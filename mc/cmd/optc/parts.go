package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"vmc/rep"
)

// full writes a given spec out: what a missing option stands for.
func full(g Spec, env string, loaded bool) Spec {
	w := g
	// workers and buffers must not matter: other numbers than the defaults
	w.Gse, w.IBuf, w.IThr, w.RBuf, w.RThr = 2, 3, 2, 1, 3
	if w.Shards == 0 {
		w.Shards = 8
	}
	if w.SShards == 0 {
		w.SShards = 8
	}
	if !w.HasIdx {
		w.HasIdx, w.Idx = true, 1
	}
	if w.Cache == 0 {
		w.Cache = 1000 // stands for "more than the documents of the case"; the exact default is the part cache
	}
	if !w.HasBM {
		w.HasBM, w.K1, w.B = true, 2.0, 0.75
	}
	switch w.Def {
	case 0:
		w.Def = 4
	case 1:
		w.Def = 5
	case 3:
		w.Def = 6
	}
	if w.UseStore {
		if w.Folder == "" {
			w.Folder = "riot-index"
		}
		if w.Engine == "" {
			w.Engine = env
		}
		if w.Engine == "" {
			w.Engine = "ldb"
		}
	}
	if !w.NotUseGse && (w.GseDict == "" || loaded) {
		w.GseDict = "zh"
		if loaded {
			w.GseDict = "files/dict.txt"
		}
	}
	return w
}

func small() Spec { return Spec{Gse: 1, IBuf: 1, IThr: 1, RBuf: 1, RThr: 1} }

func do(w *rep.W, c Case) bool {
	if w.Next() {
		w.Case(func() string { b, _ := json.Marshal(c); return string(b) }, func() string { return run(w, c) })
	}
	return !w.Done()
}

func initCase(g Spec) Case { return Case{Route: "init", Given: g, Want: full(g, "", false)} }

func c26(tier string) []rep.Part {
	deep := tier == "thorough"
	var ps []rep.Part
	add := func(name string, run func(w *rep.W)) { ps = append(ps, rep.Part{Name: name, Run: run}) }

	type ix struct {
		has    bool
		t, c   int
		bm     bool
		k1, bb float32
	}
	var ixs []ix
	ixs = append(ixs, ix{})
	for t := 0; t < 3; t++ {
		for _, c := range []int{0, 5} {
			ixs = append(ixs, ix{true, t, c, false, 0, 0}, ix{true, t, c, true, 1.25, 0.5})
		}
	}
	ixs = append(ixs, ix{true, 1, 0, true, 0, 0}, ix{true, 2, 0, true, 3, 1}, ix{true, 1, 1, true, 2, 0})
	with := func(s Spec, x ix) Spec {
		s.HasIdx, s.Idx, s.Cache, s.HasBM, s.K1, s.B = x.has, x.t, x.c, x.bm, x.k1, x.bb
		return s
	}
	add("search options", func(w *rep.W) {
		for _, sh := range []int{1, 0, 3, 20} {
			for _, x := range ixs {
				for def := 0; def < 4; def++ {
					for _, id := range []bool{false, true} {
						g := with(small(), x)
						g.NotUseGse, g.Shards, g.Def, g.IDOnly = true, sh, def, id
						if !do(w, initCase(g)) {
							return
						}
					}
				}
			}
		}
	})
	add("after another engine, values used twice", func(w *rep.W) {
		for _, mode := range []int{0, 1, 2} {
			for _, sh := range []int{1, 0} {
				for _, x := range ixs {
					for def := 0; def < 4; def++ {
						g := with(small(), x)
						g.NotUseGse, g.Shards, g.Def = true, sh, def
						if mode > 0 {
							g.UseStore, g.SShards = true, 2
						}
						c := initCase(g)
						c.Before, c.Shared = mode != 1, mode != 0
						if !do(w, c) {
							return
						}
					}
				}
			}
		}
	})
	add("workers and buffers", func(w *rep.W) {
		vals := []int{0, 1, 3}
		if deep {
			vals = []int{0, 1, 2, 5, 33}
		}
		for _, a := range vals {
			for _, b := range vals {
				for _, c := range vals {
					for _, d := range vals {
						for _, e := range vals {
							g := Spec{NotUseGse: true, Shards: 2, Gse: a, IBuf: b, IThr: c, RBuf: d, RThr: e}
							if !do(w, initCase(g)) {
								return
							}
						}
					}
				}
			}
		}
	})
	add("storage", func(w *rep.W) {
		for _, use := range []bool{true, false} {
			for _, folder := range []string{"", "x", "x/y z", "./deep/er/est"} {
				for _, n := range []int{0, 1, 3, 17} {
					for _, eng := range []string{"", "ldb", "bolt", "bg"} {
						for _, env := range []string{"", "bolt", "ldb", "bg"} {
							if !use && (n == 3 || n == 17 || env == "ldb" || env == "bg") {
								continue
							}
							bg := eng == "bg" || eng == "" && env == "bg"
							if use && bg && (n > 3 || n == 0) {
								continue
							}
							if use && !deep && (folder == "x" || n == 17) && env != "" && eng != "" {
								continue
							}
							g := small()
							g.NotUseGse, g.Shards, g.UseStore, g.Folder, g.SShards, g.Engine = true, 2, use, folder, n, eng
							c := Case{Route: "init", Given: g, Env: env, Want: full(g, env, false)}
							if strings.HasPrefix(folder, "./") {
								c.Want.Folder = folder[2:]
							}
							if !do(w, c) {
								return
							}
						}
					}
				}
			}
		}
	})
	add("storage beside search options", func(w *rep.W) {
		for _, x := range ixs {
			for _, sh := range []int{0, 1, 5} {
				for _, id := range []bool{false, true} {
					for _, def := range []int{0, 3} {
						g := with(small(), x)
						g.NotUseGse, g.Shards, g.UseStore, g.SShards, g.IDOnly, g.Def = true, sh, true, 2, id, def
						g.StoreOnly = def == 3
						if !do(w, initCase(g)) {
							return
						}
					}
				}
			}
		}
	})
	add("default cache", func(w *rep.W) {
		for _, k := range []int{0, 1} {
			if !do(w, Case{Route: "cache", Args: []interface{}{k}}) {
				return
			}
		}
	})
	add("segmenter given", func(w *rep.W) {
		for _, dict := range []string{"", "zh", "nosuch.txt", "files/dict.txt"} {
			for using := 0; using < 7; using++ {
				for bits := 0; bits < 8; bits++ {
					if dict == "zh" && (using > 1 || bits > 1) {
						continue
					}
					g := small()
					g.Shards, g.GseDict, g.Using = 2, dict, using
					g.GseMode, g.Hmm, g.PinYin = bits&1 > 0, bits&2 > 0, bits&4 > 0
					if !do(w, Case{Route: "withgse", Given: g, Want: full(g, "", true)}) {
						return
					}
				}
			}
		}
	})
	construct := func(heavy bool) func(w *rep.W) {
		return func(w *rep.W) {
			for _, route := range []string{"new", "newengine"} {
				for _, dict := range []string{"files/dict.txt", "none", "zh", ""} {
					for _, folder := range []string{"none", "x", "x/y"} {
						for _, n := range []int{-1, 0, 1, 2, 10, 16} {
							if dict == "none" && folder != "none" || folder == "none" && n >= 0 {
								continue
							}
							if heavy != (dict != "files/dict.txt") {
								continue
							}
							if heavy && !deep && !(route == "new" && (dict == "none" || dict == "" && folder == "x" && n == 1) ||
								route == "newengine" && dict == "zh" && (folder == "none" || folder == "x" && n == 1)) {
								continue
							}
							c := Case{Route: route}
							g := Spec{GseDict: dict, UseStore: true, Folder: folder, Shards: 10, SShards: 10, HasIdx: true}
							if dict == "none" {
								g.GseDict = ""
							} else {
								c.Args = append(c.Args, dict)
							}
							if folder == "none" {
								g.Folder = ""
							} else {
								c.Args = append(c.Args, folder)
							}
							if n >= 0 {
								c.Args = append(c.Args, n)
								g.Shards, g.SShards = n, n
							}
							c.Want = full(g, "", false)
							if !do(w, c) {
								return
							}
						}
					}
				}
			}
		}
	}
	add("constructors", construct(false))
	add("constructors with the bundled dictionary", construct(true))
	add("network configuration", func(w *rep.W) {
		for _, route := range []string{"com", "rpc", "comtoml"} {
			for _, using := range []int{0, 1, 3, 5} {
				for _, ss := range []int{0, 2, 12} {
					for _, eng := range []string{"", "bolt", "ldb"} {
						for _, folder := range []string{"", "x"} {
							for _, n := range []int{0, 1, 3} {
								for _, stop := range []string{"", "files/stop.txt"} {
									for _, dict := range []string{"files/dict.txt", ""} {
										off := 0
										for _, b := range []bool{using != 0, ss != 0, eng != "", folder != "", n != 0, stop != "", dict == ""} {
											if b {
												off++
											}
										}
										if !deep && (off > 1 && off < 6 || route == "rpc" && off > 1) {
											continue
										}
										cf := Conf{Using: using, StoreShards: ss, NumShards: n, StoreEngine: eng, StoreFolder: folder, GseDict: dict, Stop: stop}
										g := Spec{Using: using, UseStore: true, SShards: ss, Shards: n, Engine: eng, Folder: folder, GseDict: dict, Stop: stop, HasIdx: true}
										if n == 0 {
											g.Shards = 10
										}
										if ss == 0 {
											g.SShards = 10
										}
										if dict == "" {
											g.GseDict = "../dict/dictionary.txt"
										}
										c := Case{Route: route, Conf: cf, Want: full(g, "", false)}
										if route == "comtoml" {
											c.Toml = cf.toml()
										}
										if !do(w, c) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}
	})
	add("configuration file", func(w *rep.W) {
		keys := tomlKeys()
		for bits := 0; bits < 1<<4; bits++ { // the tokenisation switches together
			for using := 0; using < 7; using++ {
				for _, not := range []bool{false, true} {
					if bits&8 > 0 && not && !deep && (using != 0 || bits != 12) {
						continue // the library loads its whole dictionary
					}
					g := Spec{Using: using, NotUseGse: not, GseMode: bits&1 > 0, Hmm: bits&2 > 0, PinYin: bits&4 > 0, UsePhrase: bits&8 > 0}
					var lines []string
					lines = append(lines, fmt.Sprintf("using = %d", using), fmt.Sprintf("gse_mode = %v", g.GseMode), fmt.Sprintf("hmm = %v", g.Hmm),
						fmt.Sprintf("pin_yin = %v", g.PinYin), fmt.Sprintf("use_phrase = %v", g.UsePhrase), fmt.Sprintf("not_use_gse = %v", not))
					if !do(w, tomlCase(g, lines)) {
						return
					}
				}
			}
		}
		set := func(ks ...int) bool {
			g := Spec{}
			var lines []string
			for _, k := range ks {
				keys[k].set(&g)
				lines = append(lines, keys[k].text)
			}
			return do(w, tomlCase(g, lines))
		}
		for i := range keys {
			if !set(i) {
				return
			}
			for j := i + 1; j < len(keys); j++ {
				if keys[i].name == keys[j].name {
					continue
				}
				if !set(i, j) {
					return
				}
				for k := j + 1; deep && k < len(keys); k++ {
					if keys[k].name == keys[j].name || keys[k].name == keys[i].name {
						continue
					}
					if !set(i, j, k) {
						return
					}
				}
			}
		}
	})
	add("misuse", func(w *rep.W) {
		for _, m := range []string{"init twice", "segmenter after init", "index before init", "remove before init", "search before init", "flush before init",
			"unknown backend", "unknown backend in the environment", "folder is a file", "missing stop file", "foreign database"} {
			if !do(w, Case{Route: "misuse", Misuse: m}) {
				return
			}
		}
	})
	return ps
}

func (c Conf) toml() string {
	s := "url = [\"http://127.0.0.1:1\"]\n[engine]\nmode = \"dev\"\n"
	num := func(k string, v int) {
		if v != 0 {
			s += fmt.Sprintf("%s = %d\n", k, v)
		}
	}
	str := func(k, v string) {
		if v != "" {
			s += fmt.Sprintf("%s = %q\n", k, v)
		}
	}
	num("using", c.Using)
	num("store_shards", c.StoreShards)
	num("num_shards", c.NumShards)
	str("store_engine", c.StoreEngine)
	str("store_folder", c.StoreFolder)
	str("gse_dict", c.GseDict)
	str("stop_token_file", c.Stop)
	s += "output_offset = 0\nmax_outputs = 100\n[rpc]\ngrpc_port = [\":1\", \":2\"]\n[etcd]\naddr = \"http://127.0.0.1:1\"\n"
	return s
}

type tomlKey struct {
	name, text string
	set        func(*Spec)
}

func tomlKeys() []tomlKey {
	return []tomlKey{
		{"not_use_gse", "not_use_gse = true", func(s *Spec) { s.NotUseGse = true }},
		{"using", "using = 1", func(s *Spec) { s.Using = 1 }},
		{"using", "using = 3", func(s *Spec) { s.Using = 3 }},
		{"using", "using = 5", func(s *Spec) { s.Using = 5 }},
		{"pin_yin", "pin_yin = true", func(s *Spec) { s.PinYin = true }},
		{"use_phrase", "use_phrase = true", func(s *Spec) { s.UsePhrase = true }},
		{"stop_file", "stop_file = \"files/stop.txt\"", func(s *Spec) { s.Stop = "files/stop.txt" }},
		{"gse_mode", "gse_mode = true", func(s *Spec) { s.GseMode = true }},
		{"hmm", "hmm = true", func(s *Spec) { s.Hmm = true }},
		{"model", "model = \"m\"", func(s *Spec) { s.Model = "m" }},
		{"store_only", "store_only = true", func(s *Spec) { s.StoreOnly = true }},
		{"use_store", "use_store = true", func(s *Spec) { s.UseStore = true }},
		{"store_folder", "store_folder = \"x/y\"", func(s *Spec) { s.Folder = "x/y" }},
		{"store_shards", "store_shards = 3", func(s *Spec) { s.SShards = 3 }},
		{"store_engine", "store_engine = \"bolt\"", func(s *Spec) { s.Engine = "bolt" }},
		{"store", "use_store = true\nstore_engine = \"bolt\"\nstore_shards = 1\nstore_folder = \"z\"", func(s *Spec) { s.UseStore, s.Engine, s.SShards, s.Folder = true, "bolt", 1, "z" }},
		{"id_only", "id_only = true", func(s *Spec) { s.IDOnly = true }},
		{"NumShards", "NumShards = 1", func(s *Spec) { s.Shards = 1 }},
		{"NumShards", "NumShards = 5", func(s *Spec) { s.Shards = 5 }},
		{"threads", "NumGseThreads = 1\nIndexerBufLen = 1\nNumIndexerThreads = 1\nRankerBufLen = 1\nNumRankerThreads = 1", func(s *Spec) {}},
		{"[IndexerOpts]", "[IndexerOpts]\nIndexType = 2", func(s *Spec) { s.HasIdx, s.Idx = true, 2 }},
		{"[IndexerOpts]", "[IndexerOpts]\nIndexType = 1\nDocCacheSize = 5\n[IndexerOpts.BM25Parameters]\nK1 = 1.25\nB = 0.5", func(s *Spec) { s.HasIdx, s.Idx, s.Cache, s.HasBM, s.K1, s.B = true, 1, 5, true, 1.25, 0.5 }},
		{"[DefRankOpts]", "[DefRankOpts]\nMaxOutputs = 2", func(s *Spec) { s.Def = 1 }},
		{"[DefRankOpts]", "[DefRankOpts]\nReverseOrder = true\nOutputOffset = 1", func(s *Spec) { s.Def = 3 }},
	}
}

func tomlCase(g Spec, lines []string) Case {
	c := Case{Route: "toml"}
	if !g.NotUseGse {
		g.GseDict = "files/dict.txt"
		lines = append(lines, "gse_dict = \"files/dict.txt\"")
	}
	seen := map[string]bool{} // a key given by two of the groups: the file must not repeat it
	var text, tables []string
	var plain []string
	for _, l := range lines {
		if strings.HasPrefix(l, "[") {
			tables = append(tables, l)
			continue
		}
		plain = append(plain, l)
	}
	for _, l := range strings.Split(strings.Join(plain, "\n"), "\n") {
		k := strings.TrimSpace(strings.SplitN(l, "=", 2)[0])
		if seen[k] {
			for i, t := range text {
				if strings.HasPrefix(t, k+" ") {
					text[i] = l
				}
			}
			continue
		}
		seen[k] = true
		text = append(text, l)
	}
	c.Toml = strings.Join(append(text, tables...), "\n") + "\n"
	c.Want = full(g, "", false)
	return c
}
