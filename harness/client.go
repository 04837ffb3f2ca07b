package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"strconv"
	"strings"
	"sync"

	"github.com/liujiangwei/xxcache/redis"
)

// ---- what a server needs, independent of the code under test

var errNotRequest = errors.New("not a request")

// one request: an array of bulk strings
func readRequest(rd *bufio.Reader) (words []string, raw string, err error) {
	line := func() (string, error) {
		s, err := rd.ReadString('\n')
		raw += s
		if err != nil {
			return "", err
		}
		if !strings.HasSuffix(s, "\r\n") {
			return "", errNotRequest
		}
		return s[:len(s)-2], nil
	}
	count := func(mark byte) (int, error) {
		s, err := line()
		if err != nil {
			return 0, err
		}
		if len(s) < 2 || s[0] != mark {
			return 0, errNotRequest
		}
		n, err := strconv.Atoi(s[1:])
		if err != nil || n < 0 || n > 1<<28 || strconv.Itoa(n) != s[1:] {
			return 0, errNotRequest
		}
		return n, nil
	}
	n, err := count('*')
	if err != nil {
		return nil, raw, err
	}
	for i := 0; i < n; i++ {
		size, err := count('$')
		if err != nil {
			return nil, raw, err
		}
		b := make([]byte, size+2)
		k, err := io.ReadFull(rd, b)
		raw += string(b[:k])
		if err != nil {
			return nil, raw, err
		}
		if string(b[size:]) != "\r\n" {
			return nil, raw, errNotRequest
		}
		words = append(words, string(b[:size]))
	}
	return words, raw, nil
}

// the bytes of a message, made without the code under test
func (w *wmsg) bytes() string {
	if w.T == "nil" {
		return "$-1\r\n"
	}
	if w.T == "array" {
		b, _ := json.Marshal(w.V)
		var items []wmsg
		if err := json.Unmarshal(b, &items); err != nil {
			fatal("%v", err)
		}
		s := fmt.Sprintf("*%d\r\n", len(items))
		for i := range items {
			s += items[i].bytes()
		}
		return s
	}
	v := toBytes(w.V.(string))
	switch w.T {
	case "simple":
		return "+" + v + "\r\n"
	case "error":
		return "-" + v + "\r\n"
	case "int":
		return ":" + v + "\r\n"
	case "bulk":
		return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
	}
	fatal("message %v", w)
	return ""
}

type reply struct {
	Kind string `json:"kind"`
	M    *wmsg  `json:"m,omitempty"`
	Cut  int    `json:"cut,omitempty"`
	Raw  string `json:"raw,omitempty"`
}

// writes a reply, tells whether the connection goes on
func (r *reply) send(c net.Conn, pieces int) bool {
	var s string
	switch r.Kind {
	case "msg":
		s = r.M.bytes()
	case "cut":
		s = "$20\r\nthis is cut short\r\n"
		if r.M != nil {
			s = r.M.bytes()
		}
		if r.Cut < len(s) {
			s = s[:r.Cut]
		} else {
			s = s[:len(s)-1]
		}
	case "garbage":
		s = "\x00hello\r\n"
		if r.Raw != "" {
			s = toBytes(r.Raw)
		}
	case "close":
	default:
		fatal("reply %v", r)
	}
	if pieces > 1 && len(s) < 5000 {
		for len(s) > pieces {
			if _, err := c.Write([]byte(s[:pieces])); err != nil {
				return false
			}
			s = s[pieces:]
		}
	}
	if _, err := c.Write([]byte(s)); err != nil {
		return false
	}
	return r.Kind == "msg"
}

func listen() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal("%v", err)
	}
	return l
}

// ---- recording calls of the client

type ccmd struct {
	Op string      `json:"op"`
	K  string      `json:"k"`
	V  string      `json:"v"`
	N  string      `json:"n"`
	M  string      `json:"m"`
	D  string      `json:"d"`
	KV [][2]string `json:"kv"`
	KS []string    `json:"ks"`
}

type cres struct {
	Err bool        `json:"err"`
	V   interface{} `json:"v"`
	Txt string      `json:"txt,omitempty"`
}

func cnum(n int, err error) cres {
	if err != nil {
		return cres{true, "", err.Error()}
	}
	return cres{false, strconv.Itoa(n), ""}
}
func cstr(s string, err error) cres {
	if err != nil {
		return cres{true, "", err.Error()}
	}
	return cres{false, fromBytes(s), ""}
}

func clientCall(c *redis.Redis, q *ccmd) (r cres) {
	defer func() {
		if p := recover(); p != nil {
			r = cres{false, "panic", fmt.Sprint(p)}
		}
	}()
	k, v := toBytes(q.K), toBytes(q.V)
	u := func() uint64 {
		n, err := strconv.ParseUint(q.N, 10, 64)
		if err != nil {
			fatal("%v", err)
		}
		return n
	}
	switch q.Op {
	case "Set":
		return cstr(c.Set(k, v))
	case "SetNX":
		return cstr(c.SetNX(k, v))
	case "SetEX":
		return cstr(c.SetEX(k, v, u()))
	case "PSetEX":
		return cstr(c.PSetEX(k, v, u()))
	case "Get":
		return cstr(c.Get(k))
	case "GetSet":
		return cstr(c.GetSet(k, v))
	case "StrLen":
		return cnum(c.StrLen(k))
	case "Append":
		return cnum(c.Append(k, v))
	case "SetRange":
		return cnum(c.SetRange(k, int(atoi(q.N)), v))
	case "GetRange":
		return cstr(c.GetRange(k, int(atoi(q.N)), int(atoi(q.M))))
	case "Incr":
		return cnum(c.Incr(k))
	case "IncrBy":
		return cnum(c.IncrBy(k, int(atoi(q.D))))
	case "IncrByFloat":
		d, err := strconv.ParseFloat(q.D, 64)
		if err != nil {
			fatal("%v", err)
		}
		f, err := c.IncrByFloat(k, d)
		if err == nil && (math.IsNaN(f) || math.IsInf(f, 0)) {
			return cres{false, fmt.Sprint(f), ""}
		}
		return cstr(strconv.FormatFloat(f, 'f', -1, 64), err)
	case "Decr":
		return cnum(c.Decr(k))
	case "DecrBy":
		return cnum(c.DecrBy(k, int(atoi(q.D))))
	case "Select":
		return cstr(c.Select(int(atoi(q.N))))
	case "MSet":
		return cstr(c.MSet(toMap(q.KV)))
	case "MSetNX":
		return cnum(c.MSetNX(toMap(q.KV)))
	case "MGet":
		vs, err := c.MGet(mapBytes(q.KS)...)
		if err != nil {
			return cres{true, "", err.Error()}
		}
		out := []cres{}
		for _, v := range vs {
			switch x := v.(type) {
			case error:
				out = append(out, cres{true, "", x.Error()})
			case string:
				out = append(out, cres{false, fromBytes(x), ""})
			case nil:
				out = append(out, cres{true, "", "nil"})
			default:
				out = append(out, cres{false, fmt.Sprintf("%T", v), ""})
			}
		}
		return cres{false, out, ""}
	}
	fatal("method %q", q.Op)
	return
}

type creq struct {
	N   int      `json:"n"`
	W   []string `json:"w"`
	Raw string   `json:"raw,omitempty"`
}

type cevent struct {
	C     json.RawMessage `json:"c"`
	Reply reply           `json:"reply"`
	Hs    []reply         `json:"hs"`
	Reqs  []creq          `json:"reqs"`
	Res   cres            `json:"res"`
}

type ctrace struct {
	Opt struct {
		Password string `json:"password"`
		Database int    `json:"database"`
	} `json:"opt"`
	Pool   int       `json:"pool"`
	Pieces int       `json:"pieces"`
	Ev     []*cevent `json:"ev"`
}

func recordClient(t *ctrace) {
	l := listen()
	defer l.Close()
	greetings := 0
	if t.Opt.Password != "" {
		greetings++
	}
	if t.Opt.Database > 0 {
		greetings++
	}
	var mu sync.Mutex
	var cur *cevent
	conns := 0
	var open []net.Conn
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			conns++
			id := conns
			open = append(open, c)
			mu.Unlock()
			go func() {
				defer c.Close()
				rd := bufio.NewReader(c)
				for n := 0; ; n++ {
					words, raw, err := readRequest(rd)
					if err != nil && raw == "" {
						return
					}
					mu.Lock()
					q := creq{N: id, W: []string{}}
					for _, w := range words {
						q.W = append(q.W, fromBytes(w))
					}
					if err != nil {
						q.W, q.Raw = []string{}, fromBytes(raw)
					}
					cur.Reqs = append(cur.Reqs, q)
					r := cur.Reply
					if n < greetings && n < len(cur.Hs) {
						r = cur.Hs[n]
					}
					mu.Unlock()
					if err != nil || !r.send(c, t.Pieces) {
						return
					}
				}
			}()
		}
	}()
	client := redis.NewClient(redis.Option{Addr: l.Addr().String(), PoolSize: t.Pool, Password: t.Opt.Password, Database: t.Opt.Database})
	for _, e := range t.Ev {
		var q ccmd
		if err := json.Unmarshal(e.C, &q); err != nil {
			fatal("%v: %.200s", err, e.C)
		}
		mu.Lock()
		cur = e
		e.Reqs = []creq{}
		if e.Hs == nil {
			e.Hs = []reply{}
		}
		mu.Unlock()
		step(holder{map[string]interface{}{"opt": t.Opt, "pool": t.Pool, "call": e.C, "reply": e.Reply, "hs": e.Hs}})
		res := clientCall(client, &q)
		mu.Lock()
		e.Res = res
		cur = &cevent{Reply: e.Reply}
		mu.Unlock()
	}
	mu.Lock()
	for _, c := range open {
		_ = c.Close()
	}
	mu.Unlock()
}

func init() {
	modes["client"] = func(in, out string) {
		o := create(out)
		readLines(in, func(l []byte) {
			t := new(ctrace)
			if err := json.Unmarshal(l, t); err != nil {
				fatal("%v: %.200s", err, l)
			}
			recordClient(t)
			o.line(map[string]interface{}{"opt": t.Opt, "ev": t.Ev})
		})
		o.close()
	}

}
