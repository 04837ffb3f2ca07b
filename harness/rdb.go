package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/redis/intset"
	"github.com/liujiangwei/xxcache/redis/lzf"
	"github.com/liujiangwei/xxcache/redis/ziplist"
	"github.com/liujiangwei/xxcache/redis/zipmap"
)

type rdbCmd struct {
	D int     `json:"d"`
	N string  `json:"n"`
	A [][]int `json:"a"`
}

type rdbResult struct {
	Res  string `json:"res"`
	M    []int  `json:"m"`
	Keys []int  `json:"keys,omitempty"`
	ID   []int  `json:"id,omitempty"`
	Off  []int  `json:"off,omitempty"`
	Txt  string `json:"txt,omitempty"`
}

func ints(s string) []int {
	out := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = int(s[i])
	}
	return out
}

func bytesOf(v []int) string {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return string(b)
}

// a command as it would go over the wire
func commandOf(m redis.ReplicationMessage) rdbCmd {
	d := m.Database
	if d > 1<<30 || d < 0 {
		d = 1 << 30
	}
	words, _, err := readRequest(bufio.NewReader(strings.NewReader(m.Message.Serialize())))
	if err != nil || len(words) == 0 {
		return rdbCmd{d, "not a command", [][]int{}}
	}
	c := rdbCmd{d, strings.ToLower(words[0]), [][]int{}}
	for i, w := range words[1:] {
		if c.N == "zadd" && i%2 == 1 { // a score: its binary form
			if f, err := strconv.ParseFloat(w, 64); err == nil {
				if math.IsNaN(f) {
					f = math.Float64frombits(0x7ff8000000000000)
				}
				b := make([]byte, 8)
				binary.LittleEndian.PutUint64(b, math.Float64bits(f))
				w = string(b)
			}
		}
		c.A = append(c.A, ints(w))
	}
	return c
}

// loads one file; add makes an index of a command
func loadFile(path string, add func(rdbCmd) int) (r rdbResult) {
	repl := &redis.Replication{RdbFile: path, Messages: make(chan redis.ReplicationMessage, 64)}
	done := make(chan bool)
	r.M, r.Keys = []int{}, []int{}
	go func() {
		for m := range repl.Messages {
			c := commandOf(m)
			n := add(c)
			r.M = append(r.M, n)
			if c.N != "pexpireat" {
				r.Keys = append(r.Keys, n)
			}
		}
		close(done)
	}()
	res, txt := func() (res, txt string) {
		defer func() {
			if p := recover(); p != nil {
				res, txt = "panic", fmt.Sprint(p)
			}
		}()
		if err := repl.Load(); err != nil {
			return "err", err.Error()
		}
		return "ok", ""
	}()
	close(repl.Messages)
	<-done
	r.Res, r.Txt = res, txt
	r.ID, r.Off = ints(repl.Id), ints(strconv.Itoa(repl.Offset))
	return r
}

func init() {
	modes["rdb"] = func(in, out string) {
		type job struct {
			B      []int           `json:"b"`
			Scores json.RawMessage `json:"scores"`
			Cuts   bool            `json:"cuts"`
		}
		o := create(out)
		path := out + ".rdb"
		readLines(in, func(raw []byte) {
			var j job
			if err := json.Unmarshal(raw, &j); err != nil {
				fatal("%v", err)
			}
			dict := []rdbCmd{}
			index := map[string]int{}
			add := func(c rdbCmd) int {
				k := mustJSON(c)
				if index[k] == 0 {
					dict = append(dict, c)
					index[k] = len(dict)
				}
				return index[k]
			}
			data := []byte(bytesOf(j.B))
			load := func(n int) rdbResult {
				if err := os.WriteFile(path, data[:n], 0600); err != nil {
					fatal("%v", err)
				}
				step(holder{map[string]interface{}{"load": j.B[:n]}})
				return loadFile(path, add)
			}
			full := load(len(data))
			cuts := []rdbResult{}
			if j.Cuts {
				for n := 0; n < len(data); n++ {
					c := load(n)
					cuts = append(cuts, rdbResult{Res: c.Res, M: c.M})
				}
			}
			if len(j.Scores) == 0 {
				j.Scores = json.RawMessage("[]")
			}
			if full.ID == nil {
				full.ID = []int{}
			}
			o.line(map[string]interface{}{"b": j.B, "scores": j.Scores, "dict": dict, "cuts": cuts,
				"full": map[string]interface{}{"res": full.Res, "m": full.M, "keys": full.Keys, "id": full.ID, "off": full.Off, "txt": full.Txt}})
		})
		_ = os.Remove(path)
		o.close()
	}
	modes["codec"] = func(in, out string) {
		type job struct {
			Kind string  `json:"kind"`
			B    []int   `json:"b"`
			N    int     `json:"n"`
			V    [][]int `json:"v"`
			Back []int   `json:"back"`
			Res  string  `json:"res"`
		}
		o := create(out)
		readLines(in, func(raw []byte) {
			var j job
			if err := json.Unmarshal(raw, &j); err != nil {
				fatal("%v", err)
			}
			step(holder{map[string]interface{}{"kind": j.Kind, "b": j.B, "n": j.N}})
			b := bytesOf(j.B)
			var flat []int
			j.V, j.Back = [][]int{}, []int{}
			j.Res = func() (res string) {
				defer func() {
					if p := recover(); p != nil {
						res = "panic"
					}
				}()
				switch j.Kind {
				case "ziplist":
					for _, s := range ziplist.Load(b) {
						j.V = append(j.V, ints(s))
					}
				case "intset":
					for _, n := range intset.Load(b) {
						j.V = append(j.V, ints(strconv.FormatInt(n, 10)))
					}
				case "zipmap":
					for f, v := range zipmap.Load(b) {
						j.V = append(j.V, ints(f), ints(v))
					}
				case "lzf":
					flat = ints(lzf.DeCompress(b, j.N))
				case "compress":
					c := lzf.Compress(b)
					flat = ints(c)
					j.Back = ints(lzf.DeCompress(c, len(b)))
				default:
					fatal("codec %q", j.Kind)
				}
				return "ok"
			}()
			var v interface{} = j.V
			if flat != nil {
				v = flat
			} else if j.Kind == "lzf" || j.Kind == "compress" {
				v = []int{}
			}
			o.line(map[string]interface{}{"kind": j.Kind, "b": j.B, "n": j.N, "v": v, "back": j.Back, "res": j.Res})
		})
		o.close()
	}
}
