package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"reflect"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/redis"
)

// a message as in Resp.tla
type wmsg struct {
	T string      `json:"t"`
	V interface{} `json:"v"`
}

func (w *wmsg) message() redis.Message {
	text := func() string { return toBytes(w.V.(string)) }
	switch w.T {
	case "simple":
		return redis.SimpleStringMessage(text())
	case "error":
		return redis.ErrorMessage(text())
	case "int":
		n, err := strconv.Atoi(text())
		if err != nil {
			fatal("%v", err)
		}
		return redis.IntMessage(n)
	case "bulk":
		return redis.NewBulkStringMessage(text())
	case "nil":
		return redis.NilMessage{}
	case "array":
		a := redis.ArrayMessage{}
		b, _ := json.Marshal(w.V)
		var items []wmsg
		if err := json.Unmarshal(b, &items); err != nil {
			fatal("%v", err)
		}
		for i := range items {
			a = append(a, items[i].message())
		}
		return a
	}
	fatal("message %v", w)
	return nil
}

func wire(m redis.Message) interface{} {
	switch x := m.(type) {
	case redis.SimpleStringMessage:
		return wmsg{"simple", fromBytes(string(x))}
	case redis.ErrorMessage:
		return wmsg{"error", fromBytes(string(x))}
	case redis.IntMessage:
		return wmsg{"int", strconv.Itoa(int(x))}
	case redis.NilMessage:
		return wmsg{"nil", ""}
	case redis.ArrayMessage:
		items := []interface{}{}
		for _, e := range x {
			items = append(items, wire(e))
		}
		return wmsg{"array", items}
	}
	if m != nil && !reflect.ValueOf(m).IsZero() && m.Protocol() == redis.ProtocolBulkString {
		return wmsg{"bulk", fromBytes(m.String())}
	}
	return wmsg{fmt.Sprintf("%T", m), ""}
}

// the bytes the real code sends for some messages
func sendAll(msgs []redis.Message) (data []byte) {
	a, b := net.Pipe()
	done := make(chan []byte)
	go func() {
		d, _ := io.ReadAll(b)
		done <- d
	}()
	c := redis.NewConn(a)
	for _, m := range msgs {
		if err := c.Send(m); err != nil {
			break
		}
	}
	_ = c.Close()
	data = <-done
	_ = b.Close()
	return data
}

type recvRun struct {
	Msgs []interface{} `json:"msgs"`
	Err  bool          `json:"err"`
}

// what the real code receives when the bytes arrive in these pieces
func recvAll(data []byte, cuts []int) (r recvRun) {
	r.Msgs = []interface{}{}
	p, err := recvSome(data, cuts, func(m redis.Message) bool {
		r.Msgs = append(r.Msgs, wire(m))
		return len(r.Msgs) <= len(data)
	})
	if p != "" {
		r.Msgs = append(r.Msgs, wmsg{"panic", p})
	}
	r.Err = err
	return
}

func recvSome(data []byte, cuts []int, each func(redis.Message) bool) (panicked string, failed bool) {
	a, b := net.Pipe()
	go func() {
		last := 0
		for _, c := range append(cuts, len(data)) {
			if c > last {
				if _, err := b.Write(data[last:c]); err != nil {
					break
				}
				last = c
			}
		}
		_ = b.Close()
	}()
	defer a.Close()
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprint(p)
		}
	}()
	c := redis.NewConn(a)
	for {
		m, err := c.Recv()
		if err != nil {
			failed = true
			return
		}
		if !each(m) {
			return
		}
	}
}

// a message inside arrays of one element, with their number
func spine(m redis.Message) (int, redis.Message) {
	n := 0
	for {
		a, ok := m.(redis.ArrayMessage)
		if !ok || len(a) != 1 {
			return n, m
		}
		m = a[0]
		n++
	}
}

func deepRun(it *respItem, rnd *rand.Rand) map[string]interface{} {
	var ms []redis.Message
	for i := range it.Msgs {
		ms = append(ms, it.Msgs[i].message())
	}
	for i := 0; i < it.Deep; i++ {
		ms[0] = redis.ArrayMessage{ms[0]}
	}
	data := sendAll(ms)
	n := 0
	rest := string(data)
	for strings.HasPrefix(rest, "*1\r\n") {
		rest = rest[4:]
		n++
	}
	if len(rest) > 1000 {
		rest = rest[:1000]
	}
	var runs []interface{}
	for k := 0; k < 3; k++ {
		var cuts []int
		for p := 0; k > 0 && p < len(data); {
			p += 1 + rnd.Intn([]int{0, 5, 3000}[k])
			if p < len(data) {
				cuts = append(cuts, p)
			}
		}
		runs = append(runs, recvSpines(data, cuts))
	}
	return map[string]interface{}{"deep": it.Deep, "inner": it.Msgs, "units": n, "rest": fromBytes(rest), "runs": runs, "ways": 3}
}

func recvSpines(data []byte, cuts []int) map[string]interface{} {
	msgs := []interface{}{}
	_, end := recvSome(data, cuts, func(m redis.Message) bool {
		n, m := spine(m)
		msgs = append(msgs, map[string]interface{}{"deep": n, "v": wire(m)})
		return len(msgs) < 10
	})
	return map[string]interface{}{"msgs": msgs, "err": end}
}

type respItem struct {
	Msgs   []wmsg  `json:"msgs"`
	Stream *string `json:"stream"` // literal bytes; otherwise what the real code sends for msgs
	Deep   int     `json:"deep"`   // the first of msgs is inside that many arrays of one element
	Unit   string  `json:"unit"`   // a stream of this, so many times, with nothing after it
	Times  int     `json:"times"`
	End    int     `json:"end"`  // the stream ends after that many bytes (-1: complete; < -1: a random place)
	Cuts   string  `json:"cuts"` // all: every way to cut it in two, some in three, and into single bytes; n: that many random ways
}

func init() {
	modes["resp"] = func(in, out string) {
		o := create(out)
		id := 0
		readLines(in, func(l []byte) {
			id++
			rnd := rand.New(rand.NewSource(int64(id)))
			var it respItem
			it.End = -1
			if err := json.Unmarshal(l, &it); err != nil {
				fatal("%v: %.200s", err, l)
			}
			if len(l) > 20000 {
				step(holder{map[string]interface{}{"item": id}})
			} else {
				step(holder{json.RawMessage(l)})
			}
			rec := map[string]interface{}{"id": id}
			if it.Times > 0 {
				rec["unit"], rec["times"], rec["ways"] = it.Unit, it.Times, 1
				rec["runs"] = []recvRun{recvAll([]byte(strings.Repeat(it.Unit, it.Times)), nil)}
				o.line(rec)
				return
			}
			if it.Deep > 0 {
				rec = deepRun(&it, rnd)
				rec["id"] = id
				o.line(rec)
				return
			}
			var data []byte
			if it.Stream == nil || len(it.Msgs) > 0 {
				var ms []redis.Message
				for i := range it.Msgs {
					ms = append(ms, it.Msgs[i].message())
				}
				data = sendAll(ms)
				rec["msgs"] = it.Msgs
				rec["wire"] = fromBytes(string(data))
			}
			if it.Stream != nil {
				data = []byte(toBytes(*it.Stream))
			} else if it.End >= 0 && it.End < len(data) {
				data = data[:it.End]
			} else if it.End < -1 && len(data) > 0 {
				data = data[:rnd.Intn(len(data))]
			}
			rec["stream"] = fromBytes(string(data))
			ways := [][]int{nil}
			single := []int{}
			for i := 1; i < len(data); i++ {
				single = append(single, i)
			}
			if it.Cuts == "all" {
				ways = append(ways, single)
				for i := 1; i < len(data); i++ {
					ways = append(ways, []int{i})
					ways = append(ways, []int{i, i + rnd.Intn(len(data)-i+1)})
				}
			} else {
				n, _ := strconv.Atoi(it.Cuts)
				for k := 0; k < n; k++ {
					size := []int{1, 3, 16, 100, 1000, 1460, 4096, 5000, 20000}[rnd.Intn(9)]
					if len(data) > 20000 && size < 16 {
						size = 16
					}
					var cuts []int
					for p := 0; p < len(data); {
						p += 1 + rnd.Intn(size)
						cuts = append(cuts, p)
					}
					for i := range cuts {
						if cuts[i] > len(data) {
							cuts[i] = len(data)
						}
					}
					ways = append(ways, cuts)
				}
			}
			var runs []recvRun
			seen := map[string]bool{}
			for _, w := range ways {
				r := recvAll(data, w)
				if k := mustJSON(r); !seen[k] {
					seen[k] = true
					runs = append(runs, r)
				}
				step(nil)
			}
			rec["runs"], rec["ways"] = runs, len(ways)
			o.line(rec)
		})
		o.close()
	}

}
