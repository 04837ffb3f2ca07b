package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/liujiangwei/xxcache/redis"
)

// how long a client waits for a server in its moods

type patCfg struct {
	T      int    `json:"t"`
	R      int    `json:"r"`
	W      int    `json:"w"`
	Via    string `json:"via"` // client, conn, ctx (of the pool's ExecCommand) or exec (of its Exec)
	Greets bool   `json:"greets"`
}
type patStep struct {
	Mood  string `json:"mood"`
	Calls int    `json:"calls"`
	Wait  int    `json:"wait"` // before the server is up again
}
type patDone struct {
	R  string `json:"r"`
	Ms int    `json:"ms"`
}
type patEvent struct {
	Mood  string    `json:"mood"`
	Calls int       `json:"calls"`
	Done  []patDone `json:"done"`
	Later []patDone `json:"later"`
}
type patServer struct {
	mu   sync.Mutex
	mood string
	l    net.Listener
	h    *hanging
	addr string
}

func (s *patServer) is() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.mood
}

func (s *patServer) set(mood string) {
	s.mu.Lock()
	was := s.mood
	s.mood = mood
	s.mu.Unlock()
	if mood == was {
		return
	}
	if mood == "hang" {
		_ = s.l.Close()
		s.h = hang(s.addr)
	}
	if was == "hang" {
		// whoever has been trying gets through
		_ = s.h.conn.Close()
		_ = syscall.Listen(s.h.fd, 128)
		f := os.NewFile(uintptr(s.h.fd), "listener")
		l, err := net.FileListener(f)
		if err != nil {
			fatal("%v", err)
		}
		_ = f.Close()
		s.l = l
		go s.serve(l)
	}
}

func (s *patServer) serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go s.conn(c)
	}
}

// Read waits while the server is deaf
type patReader struct {
	s *patServer
	c net.Conn
}

func (r patReader) Read(b []byte) (int, error) {
	for r.s.is() == "deaf" {
		time.Sleep(5 * time.Millisecond)
	}
	return r.c.Read(b)
}

func (s *patServer) conn(c net.Conn) {
	defer func() { _ = c.Close() }()
	rd := bufio.NewReader(patReader{s, c})
	for {
		w, _, err := readRequest(rd)
		if err != nil || len(w) < 2 {
			return
		}
		ans := "+OK\r\n"
		if w[0] == "get" {
			v := "v:" + w[1] + ":" + strings.Repeat("x", 3000)
			ans = fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
		}
		for ans != "" {
			switch s.is() {
			case "mute", "deaf":
				if hungUp(c) {
					return
				}
				time.Sleep(5 * time.Millisecond)
			case "drip":
				if _, err := c.Write([]byte(ans[:1])); err != nil {
					return
				}
				ans = ans[1:]
				time.Sleep(15 * time.Millisecond)
			case "late":
				time.Sleep(80 * time.Millisecond)
				fallthrough
			default:
				if _, err := io.WriteString(c, ans); err != nil {
					return
				}
				ans = ""
			}
		}
	}
}

var patToken int64
var patHuge = strings.Repeat("y", 12<<20)

func runPatience(cfg patCfg, steps []patStep) []patEvent {
	l, addr := ownListener()
	s := &patServer{mood: "up", l: l, addr: addr}
	go s.serve(l)
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	var exec func(words ...string) (string, error)
	if cfg.Via == "client" {
		opt := redis.Option{Addr: addr, PoolSize: 1, Timeout: ms(cfg.T), ReadTimeout: ms(cfg.R), WriteTimeout: ms(cfg.W)}
		if cfg.Greets {
			opt.Password, opt.Database = "pw", 2
		}
		client := redis.NewClient(opt)
		exec = func(words ...string) (string, error) {
			if words[0] == "set" {
				return client.Set(words[1], words[2])
			}
			return client.Get(words[1])
		}
	} else {
		pool := new(redis.Pool)
		pool.Init(1, addr)
		bound := cfg.Via != "conn"
		pool.AddConnOpenHandler(func(conn *redis.Conn) error {
			if bound {
				if cfg.Greets {
					cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("auth", "pw")}
					conn.ExecCommand(context.Background(), &cmd)
					return cmd.Err
				}
				return nil
			}
			conn.WithTimeout(ms(cfg.T))
			conn.WithReadTimeout(ms(cfg.R))
			conn.WithWriteTimeout(ms(cfg.W))
			return nil
		})
		exec = func(words ...string) (string, error) {
			cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand(words...)}
			ctx, cancel := context.WithCancel(context.Background())
			if bound && cfg.T > 0 {
				ctx, cancel = context.WithTimeout(ctx, ms(cfg.T))
			}
			defer cancel()
			if cfg.Via == "exec" {
				err := pool.Exec(ctx, func(conn *redis.Conn) error {
					conn.ExecCommand(ctx, &cmd)
					return cmd.Err
				})
				return cmd.Val, err
			}
			pool.ExecCommand(ctx, &cmd)
			return cmd.Result()
		}
	}
	evs := []patEvent{}
	for _, st := range steps {
		s.set(st.Mood)
		e := patEvent{Mood: st.Mood, Calls: st.Calls, Done: []patDone{}, Later: []patDone{}}
		backs := make(chan patDone, st.Calls)
		for k := 0; k < st.Calls; k++ {
			key := fmt.Sprint("k", atomic.AddInt64(&patToken, 1))
			words, want := []string{"get", key}, "v:"+key+":"
			if st.Mood == "deaf" { // too much to send without being read
				words, want = []string{"set", key, patHuge}, "OK"
			}
			start := time.Now()
			go func() {
				v, err := exec(words...)
				d := patDone{"own", int(time.Since(start) / time.Millisecond)}
				if err != nil {
					d.R = "err"
				} else if !strings.HasPrefix(v, want) {
					d.R = "other: " + v[:atMost(len(v), 100)]
				}
				backs <- d
			}()
		}
		end := time.After(ms(st.Wait))
		for timeout := false; len(e.Done) < st.Calls && !timeout; {
			select {
			case d := <-backs:
				e.Done = append(e.Done, d)
			case <-end:
				timeout = true
			}
		}
		if len(e.Done) < st.Calls {
			s.set("up")
			end = time.After(20 * time.Second)
			for timeout := false; len(e.Done)+len(e.Later) < st.Calls && !timeout; {
				select {
				case d := <-backs:
					e.Later = append(e.Later, d)
				case <-end:
					timeout = true
				}
			}
		}
		evs = append(evs, e)
		if len(e.Done)+len(e.Later) < st.Calls {
			break
		}
		step(nil)
	}
	s.set("up")
	_ = s.l.Close()
	return evs
}

func atMost(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func init() {
	modes["patience"] = func(in, out string) {
		type job struct {
			Cfg   patCfg    `json:"cfg"`
			Steps []patStep `json:"steps"`
		}
		o := create(out)
		var jobs []job
		readLines(in, func(raw []byte) {
			var j job
			if err := json.Unmarshal(raw, &j); err != nil {
				fatal("%v", err)
			}
			jobs = append(jobs, j)
		})
		// most of the time is spent waiting
		res := make([][]patEvent, len(jobs))
		var wg sync.WaitGroup
		places := make(chan bool, 10)
		step(holder{"scenarios with timeouts"})
		for i := range jobs {
			i := i
			wg.Add(1)
			places <- true
			go func() {
				res[i] = runPatience(jobs[i].Cfg, jobs[i].Steps)
				<-places
				wg.Done()
			}()
		}
		wg.Wait()
		for i, j := range jobs {
			o.line(map[string]interface{}{"cfg": j.Cfg, "ev": res[i]})
		}
		o.close()
	}
}
