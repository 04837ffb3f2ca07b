package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
)

type cmd struct {
	Op   string      `json:"op"`
	K    string      `json:"k"`
	V    string      `json:"v"`
	F    string      `json:"f"`
	N    int         `json:"n"`
	NS   string      `json:"ns"` // exact number where n is capped for the specification
	MS   string      `json:"ms"`
	M    int         `json:"m"`
	D    string      `json:"d"`
	KV   [][2]string `json:"kv"`
	KS   []string    `json:"ks"`
	Args []string    `json:"args"`
	Kind string      `json:"kind"`
}

type res struct {
	E string      `json:"e"`
	V interface{} `json:"v"`
}

func class(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, cache.ErrKeyNil):
		return "nil"
	case errors.Is(err, cache.ErrWrongType):
		return "type"
	default:
		return "err"
	}
}

func str(v string, err error) res {
	if err != nil {
		v = ""
	}
	return res{class(err), fromBytes(v)}
}
func num(n int, err error) res {
	if err != nil {
		n = 0
	}
	return res{class(err), n}
}
func dec(n int, err error) res {
	if err != nil {
		n = 0
	}
	return res{class(err), strconv.Itoa(n)}
}
func flt(f float64, err error) res {
	if err != nil {
		f = 0
	}
	return res{class(err), strconv.FormatFloat(f, 'f', -1, 64)}
}
func list(vs []interface{}, err error) res {
	out := []res{}
	if err == nil {
		for _, v := range vs {
			switch x := v.(type) {
			case string:
				out = append(out, res{"", fromBytes(x)})
			case error:
				out = append(out, res{class(x), ""})
			case nil:
				out = append(out, res{"nil", ""})
			default:
				out = append(out, res{fmt.Sprintf("%T", v), ""})
			}
		}
	}
	return res{class(err), out}
}
func strs(vs []string, err error) res {
	out := []string{}
	if err == nil {
		for _, v := range vs {
			out = append(out, fromBytes(v))
		}
		sort.Strings(out)
	}
	return res{class(err), out}
}
func pairs(kv map[string]string, err error) res {
	out := [][2]string{}
	if err == nil {
		for k, v := range kv {
			out = append(out, [2]string{fromBytes(k), fromBytes(v)})
		}
		sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	}
	return res{class(err), out}
}
func toMap(kv [][2]string) map[string]string {
	m := map[string]string{}
	for _, p := range kv {
		m[toBytes(p[0])] = toBytes(p[1])
	}
	return m
}
func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		fatal("bad number %q", s)
	}
	return n
}

// the exact number of the command
func (c *cmd) ttl() int64 {
	if c.NS != "" {
		return atoi(c.NS)
	}
	return int64(c.N)
}

func message(c *cmd) redis.Message {
	switch c.Kind {
	case "array":
		m := redis.ArrayMessage{}
		for _, a := range c.Args {
			a = toBytes(a)
			if strings.HasPrefix(a, "@@") { // an absolute time in seconds, n milliseconds from now
				a = strconv.FormatInt((time.Now().UnixNano()/1e6+atoi(a[2:]))/1000, 10)
			} else if strings.HasPrefix(a, "@") { // an absolute time in milliseconds, from now
				a = strconv.FormatInt(time.Now().UnixNano()/1e6+atoi(a[1:]), 10)
			}
			m = append(m, redis.NewBulkStringMessage(a))
		}
		return m
	case "int":
		return redis.IntMessage(7)
	case "simple":
		return redis.SimpleStringMessage("set a b")
	case "error":
		return redis.ErrorMessage("ERR set")
	case "nil":
		return redis.NilMessage{}
	case "bulk":
		return redis.NewBulkStringMessage("set")
	}
	fatal("message kind %q", c.Kind)
	return nil
}

// exec performs one command on the real cache
func exec(ca *cache.Cache, c *cmd, unit int64) (r res) {
	defer func() {
		if p := recover(); p != nil {
			r = res{"panic", fmt.Sprint(p)}
		}
	}()
	k, v, f := toBytes(c.K), toBytes(c.V), toBytes(c.F)
	switch c.Op {
	case "Set":
		return str(ca.Set(k, v))
	case "SetNX":
		return num(ca.SetNX(k, v))
	case "SetEX":
		if c.NS == "" {
			return str(ca.SetEX(k, v, int64(c.N)*unit/1000))
		}
		return str(ca.SetEX(k, v, c.ttl()))
	case "PSetEX":
		if c.NS == "" {
			return str(ca.PSetEX(k, v, int64(c.N)*unit))
		}
		return str(ca.PSetEX(k, v, c.ttl()))
	case "Get":
		return str(ca.Get(k))
	case "GetSet":
		return str(ca.GetSet(k, v))
	case "StrLen":
		return num(ca.StrLen(k))
	case "Append":
		return num(ca.Append(k, v))
	case "SetRange":
		return num(ca.SetRange(k, int(c.ttl()), v))
	case "GetRange":
		m := int64(c.M)
		if c.MS != "" {
			m = atoi(c.MS)
		}
		return str(ca.GetRange(k, int(c.ttl()), int(m)))
	case "Incr":
		return dec(ca.Incr(k))
	case "Decr":
		return dec(ca.Decr(k))
	case "IncrBy":
		return dec(ca.IncrBy(k, atoi(c.D)))
	case "DecrBy":
		return dec(ca.DecrBy(k, atoi(c.D)))
	case "IncrByFloat":
		d, err := strconv.ParseFloat(c.D, 64)
		if err != nil {
			fatal("%v", err)
		}
		return flt(ca.IncrByFloat(k, d))
	case "MSet":
		return str(ca.MSet(toMap(c.KV)), nil)
	case "MSetNX":
		return num(ca.MSetNX(toMap(c.KV)), nil)
	case "MGet":
		return list(ca.MGet(mapBytes(c.KS)...), nil)
	case "Del":
		return num(ca.Del(k), nil)
	case "Flush":
		ca.Flush()
		return res{"", ""}
	case "Exists":
		return num(ca.Exists(mapBytes(c.KS)...), nil)
	case "Type":
		return str(ca.Type(k), nil)
	case "PExpireAt":
		at := time.Unix(0, (time.Now().UnixNano()/1e6+c.ttl()*unit)*1e6)
		return num(ca.PExpireAt(k, at))
	case "HSet":
		return num(ca.HSet(k, f, v))
	case "HSetNX":
		return num(ca.HSetNX(k, f, v))
	case "HMSet":
		return num(ca.HMSet(k, toMap(c.KV)))
	case "HDel":
		return num(ca.HDel(k, mapBytes(c.KS)...))
	case "HGet":
		return str(ca.HGet(k, f))
	case "HMGet":
		return list(ca.HMGet(k, mapBytes(c.KS)...))
	case "HExists":
		return num(ca.HExists(k, f))
	case "HLen":
		return num(ca.HLen(k))
	case "HStrLen":
		return num(ca.HStrLen(k, f))
	case "HKeys":
		return strs(ca.HKeys(k))
	case "HVals":
		return strs(ca.HVals(k))
	case "HGetAll":
		return pairs(ca.HGetAll(k))
	case "HIncrBy":
		return dec(ca.HIncrBy(k, f, int(atoi(c.D))))
	case "HIncrByFloat":
		d, err := strconv.ParseFloat(c.D, 64)
		if err != nil {
			fatal("%v", err)
		}
		return flt(ca.HIncrByFloat(k, f, d))
	case "Advance":
		time.Sleep(time.Duration(int64(c.N)*unit) * time.Millisecond)
		return res{"", ""}
	case "Msg":
		if err := cache.HandleMessage(ca, message(c)); err != nil {
			return res{"err", ""}
		}
		return res{"", ""}
	}
	fatal("unknown op %q", c.Op)
	return
}

// Every operation takes a microsecond of virtual time, so that nothing ever
// looks at a key exactly at its deadline.
func tick() { time.Sleep(time.Microsecond) }

// Runs start at a whole millisecond and take less than a thousand operations,
// so that the ticks never add up to the smallest unit of time.  Where in a
// second they start is different each time: nothing may depend on it.
func align() {
	phase := []int{0, 500, 750, 1, 999, 250, 600, 501, 900}
	aligned++
	now := time.Now()
	time.Sleep(now.Truncate(time.Second).Add(time.Second).Sub(now) + time.Duration(phase[aligned%len(phase)])*time.Millisecond)
}

var aligned int

func newCache(cron bool) *cache.Cache {
	ca := cache.New()
	if cron {
		ca.Cron()
	}
	return ca
}

// Runs f in virtual time and ends the process: goroutines of the code under
// test (the background expiry never stops) may be left behind.
func bubble(f func()) {
	testing.Init()
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "bubble", F: func(t *testing.T) {
			synctest.Test(t, func(t *testing.T) {
				f()
				os.Exit(0)
			})
		}}}, nil, nil)
}

type trace struct {
	Cron bool              `json:"cron"`
	Ev   []json.RawMessage `json:"ev"`
}
type event struct {
	C json.RawMessage `json:"c"`
	R res             `json:"r"`
}

func init() {
	// record the results of given command sequences
	modes["kvtrace"] = func(in, out string) {
		var traces []trace
		readLines(in, func(l []byte) {
			var t trace
			if err := json.Unmarshal(l, &t); err != nil {
				fatal("%v: %.200s", err, l)
			}
			traces = append(traces, t)
		})
		bubble(func() {
			o := create(out)
			for i, t := range traces {
				align()
				ca := newCache(t.Cron)
				evs := []event{}
				for _, raw := range t.Ev {
					var c cmd
					if err := json.Unmarshal(raw, &c); err != nil {
						fatal("%v: %.200s", err, raw)
					}
					tick()
					step(holder{map[string]interface{}{"trace": i + 1, "done": evs, "cmd": raw}})
					r := exec(ca, &c, 1)
					evs = append(evs, event{raw, r})
					if r.E == "panic" {
						break
					}
				}
				o.line(map[string]interface{}{"ev": evs})
			}
			o.close()
		})
	}

	// replay every transition of a state graph printed by TLC
	modes["kvgraph"] = func(in, out string) {
		g := loadGraph(in)
		bubble(func() {
			o := create(out)
			g.replay(o)
			o.close()
		})
	}
}

// ---- replay of the specification's state graph

var readOps = map[string]bool{"Get": true, "MGet": true, "StrLen": true, "GetRange": true, "Exists": true, "Type": true, "HGet": true, "HMGet": true,
	"HExists": true, "HStrLen": true, "HLen": true, "HKeys": true, "HVals": true, "HGetAll": true}

type graphConf struct {
	Obs   []string `json:"obs"`  // how the final state is looked at
	Keys  []string `json:"keys"` // keys of the model
	Cron  bool     `json:"cron"`
	Seed  int64    `json:"seed"`
	Walks int      `json:"walks"` // random walks
	Len   int      `json:"len"`
	Max   int      `json:"max"` // stop after so many failures
	Graph string   `json:"graph"`
	Reads bool     `json:"reads"` // all reads before every step; only what they change counts
	Part  int      `json:"part"`  // this process replays one of
	Parts int      `json:"parts"` // so many parts
}
type entry struct {
	T string            `json:"t"`
	V string            `json:"v"`
	F json.RawMessage   `json:"f"`
	X int               `json:"x"`
	m map[string]string // fields
}
type edge struct {
	c        cmd
	raw      json.RawMessage
	r        json.RawMessage
	want     res
	src, dst int
}
type graph struct {
	conf   graphConf
	states []map[string]*entry
	index  map[string]int
	edges  []*edge
	out    [][]*edge
	parent []*edge
}

func (g *graph) state(raw json.RawMessage) int {
	m := map[string]*entry{}
	if string(raw) != "[]" {
		if err := json.Unmarshal(raw, &m); err != nil {
			fatal("state %s: %v", raw, err)
		}
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		e := m[k]
		e.m = map[string]string{}
		if e.T == "hash" && string(e.F) != "[]" {
			if err := json.Unmarshal(e.F, &e.m); err != nil {
				fatal("state %s: %v", raw, err)
			}
		}
		fs, _ := json.Marshal(e.m)
		fmt.Fprintf(&sb, "%q %q %q %s %d;", k, e.T, e.V, fs, e.X)
	}
	id, ok := g.index[sb.String()]
	if !ok {
		id = len(g.states)
		g.index[sb.String()] = id
		g.states = append(g.states, m)
		g.out = append(g.out, nil)
	}
	return id
}

func loadGraph(in string) *graph {
	g := &graph{index: map[string]int{}}
	data, err := os.ReadFile(in)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(data, &g.conf); err != nil {
		fatal("%v", err)
	}
	g.state(json.RawMessage("[]"))
	readLines(g.conf.Graph, func(l []byte) {
		if l[0] != '"' {
			return
		}
		var text string
		if err := json.Unmarshal(l, &text); err != nil {
			fatal("%v: %.300s", err, l)
		}
		var e struct{ Src, C, R, Dst json.RawMessage }
		if err := json.Unmarshal([]byte(text), &e); err != nil {
			fatal("%v: %.300s", err, text)
		}
		ed := &edge{raw: e.C, r: e.R, src: g.state(e.Src), dst: g.state(e.Dst)}
		if err := json.Unmarshal(e.C, &ed.c); err != nil {
			fatal("%v: %.300s", err, e.C)
		}
		g.edges = append(g.edges, ed)
		g.out[ed.src] = append(g.out[ed.src], ed)
	})
	// shortest paths
	g.parent = make([]*edge, len(g.states))
	seen := make([]bool, len(g.states))
	seen[0] = true
	queue := []int{0}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		for _, e := range g.out[s] {
			if !seen[e.dst] {
				seen[e.dst] = true
				g.parent[e.dst] = e
				queue = append(queue, e.dst)
			}
		}
	}
	return g
}

func (g *graph) path(s int) (p []*edge) {
	for s != 0 {
		e := g.parent[s]
		if e == nil {
			fatal("state %d is not reachable", s)
		}
		p = append(p, e)
		s = e.src
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func canon(v interface{}) string {
	b, _ := json.Marshal(v)
	var x interface{}
	_ = json.Unmarshal(b, &x)
	b, _ = json.Marshal(x)
	return string(b)
}

// the same matching of results as RMatch in KVTrace.tla
func matches(c *cmd, want json.RawMessage, got res) bool {
	var w struct {
		E string
		V json.RawMessage
	}
	if err := json.Unmarshal(want, &w); err != nil {
		fatal("%v", err)
	}
	if w.E == "err" {
		return got.E != "" && got.E != "panic"
	}
	if w.E != got.E {
		return false
	}
	if w.E != "" {
		return true
	}
	switch c.Op {
	case "Advance", "Flush", "Msg":
		return true
	case "HKeys", "HVals", "HGetAll":
		var ps [][2]string
		if err := json.Unmarshal(w.V, &ps); err != nil {
			fatal("%v", err)
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
		if c.Op == "HGetAll" {
			if len(ps) == 0 {
				ps = [][2]string{}
			}
			return canon(ps) == canon(got.V)
		}
		out := []string{}
		for _, p := range ps {
			if c.Op == "HKeys" {
				out = append(out, p[0])
			} else {
				out = append(out, p[1])
			}
		}
		sort.Strings(out)
		return canon(out) == canon(got.V)
	}
	return canon(w.V) == canon(got.V)
}

func (g *graph) observe(ca *cache.Cache, s int, shift int) (bad string) {
	for _, k := range g.conf.Keys {
		e := g.states[s][k]
		if e != nil && (e.X == -1 || (e.X > 0 && e.X <= shift)) {
			e = nil
		}
		for _, o := range g.conf.Obs {
			c := cmd{Op: o, K: k, KS: []string{k}}
			tick()
			got := exec(ca, &c, 1000)
			var want interface{}
			werr := ""
			switch o {
			case "Get":
				if e == nil {
					werr = "nil"
				} else if e.T == "hash" {
					werr = "type"
				} else {
					want = e.V
				}
			case "HGetAll":
				if e != nil && e.T == "str" {
					werr = "type"
				} else {
					ps := [][2]string{}
					if e != nil {
						for f, v := range e.m {
							ps = append(ps, [2]string{f, v})
						}
						sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
					}
					want = ps
				}
			case "HLen":
				if e != nil && e.T == "str" {
					werr = "type"
				} else if e != nil {
					want = len(e.m)
				} else {
					want = 0
				}
			case "Exists":
				want = 0
				if e != nil {
					want = 1
				}
			case "Type":
				want = "none"
				if e != nil && e.T == "hash" {
					want = "hash"
				} else if e != nil {
					want = "string"
				}
			default:
				fatal("observation %s", o)
			}
			if got.E != werr || (werr == "" && canon(got.V) != canon(want)) {
				return fmt.Sprintf("then after %d time units %s(%q) gave %s, specification: %s", shift, o, k, mustJSON(got),
					mustJSON(res{werr, want}))
			}
		}
	}
	return ""
}

func (g *graph) deadline(s int) (max int) {
	for _, e := range g.states[s] {
		if e.X > max {
			max = e.X
		}
	}
	return max
}

// runs one path from the empty cache; the last state is observed, also later
func (g *graph) run(path []*edge, o *output, all bool) bool {
	if !g.conf.Reads {
		return g.run1(path, o, all, false)
	}
	// what goes wrong without the reads as well is not their doing
	return g.run1(path, nil, false, true) || !g.run1(path, nil, false, false) || g.run1(path, o, false, true)
}

func (g *graph) run1(path []*edge, o *output, all, reads bool) bool {
	align()
	ca := newCache(g.conf.Cron)
	raws := []json.RawMessage{}
	fail := func(what string) bool {
		if o != nil {
			o.line(map[string]interface{}{"path": raws, "bad": what})
		}
		return false
	}
	read := func(s int) {
		for _, e := range g.out[s] {
			if reads && readOps[e.c.Op] {
				tick()
				raws = append(raws, e.raw)
				step(holder{map[string]interface{}{"path": raws}})
				exec(ca, &e.c, 1000)
			}
		}
	}
	for _, e := range path {
		if g.conf.Reads && readOps[e.c.Op] {
			continue
		}
		read(e.src)
		tick()
		raws = append(raws, e.raw)
		step(holder{map[string]interface{}{"path": raws}})
		r := exec(ca, &e.c, 1000)
		if !matches(&e.c, e.r, r) {
			return fail(fmt.Sprintf("%s gave %s, specification: %s", e.raw, mustJSON(r), e.r))
		}
		if all {
			if bad := g.observe(ca, e.dst, 0); bad != "" {
				return fail(bad)
			}
		}
	}
	s := 0
	if len(path) > 0 {
		s = path[len(path)-1].dst
	}
	read(s)
	max := g.deadline(s)
	for d := 0; ; d++ {
		if bad := g.observe(ca, s, d); bad != "" {
			return fail(bad)
		}
		if d >= max {
			break
		}
		time.Sleep(time.Second)
	}
	return true
}

func (g *graph) replay(o *output) {
	bad, runs, steps := 0, 0, 0
	for i, e := range g.edges {
		if i%g.conf.Parts != g.conf.Part {
			continue
		}
		p := append(g.path(e.src), e)
		runs++
		steps += len(p)
		if !g.run(p, o, false) {
			if bad++; bad >= g.conf.Max {
				break
			}
		}
	}
	rnd := rand.New(rand.NewSource(g.conf.Seed*1000003 + int64(g.conf.Part)))
	for w := 0; w < g.conf.Walks/g.conf.Parts && bad < g.conf.Max; w++ {
		s := 0
		var p []*edge
		for len(p) < g.conf.Len && len(g.out[s]) > 0 {
			e := g.out[s][rnd.Intn(len(g.out[s]))]
			if len(g.out[e.dst]) == 0 && rnd.Intn(4) != 0 {
				continue
			}
			p = append(p, e)
			s = e.dst
		}
		runs++
		steps += len(p)
		if !g.run(p, o, w%2 == 0) {
			bad++
		}
	}
	o.line(map[string]interface{}{"summary": true, "states": len(g.states), "edges": len(g.edges), "runs": runs, "steps": steps, "bad": bad})
}
