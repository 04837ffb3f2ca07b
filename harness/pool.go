package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/liujiangwei/xxcache/redis"
)

// ---- a server whose listener comes and goes at an address of its own

var nextAddr uint32

func ownListener() (net.Listener, string) {
	for try := 0; try < 1000; try++ {
		n := atomic.AddUint32(&nextAddr, 1)*2654435761 + uint32(os.Getpid())*40503
		addr := fmt.Sprintf("127.%d.%d.%d:0", 1+n%250, 1+(n>>8)%250, 1+(n>>16)%250)
		if l, err := net.Listen("tcp", addr); err == nil {
			return l, l.Addr().String()
		}
	}
	fatal("no address")
	return nil, ""
}

func relisten(addr string) net.Listener {
	var err error
	for try := 0; try < 200; try++ {
		var l net.Listener
		if l, err = net.Listen("tcp", addr); err == nil {
			return l
		}
		time.Sleep(10 * time.Millisecond)
	}
	fatal("listening again: %v", err)
	return nil
}

// ---- step by step

type poolStep struct {
	Op   string `json:"op"`
	P    int    `json:"p"`
	M    string `json:"m"`
	N    int    `json:"n"`    // callers expected to come back
	Open int    `json:"open"` // connections expected to be open
}
type poolDone struct {
	P int `json:"p"`
	C int `json:"c"`
	// how using a connection went, "" for getting one
	R string `json:"r"`
}
type poolEvent struct {
	Op   string     `json:"op"`
	P    int        `json:"p"`
	M    string     `json:"m"`
	Done []poolDone `json:"done"`
	Res  string     `json:"res"`
	Open int        `json:"open"`
}

type poolServer struct {
	mu   sync.Mutex
	l    io.Closer
	mode string
	n    int                 // connections open
	live map[string]net.Conn // by the name given in the greeting
}

// hang listens at an address where connecting takes until the caller gives up:
// nobody accepts the only connection there is room for
type hanging struct {
	fd   int
	conn net.Conn
}

func hang(addr string) *hanging {
	tcp, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		fatal("%v", err)
	}
	h := new(hanging)
	sa := &syscall.SockaddrInet4{Port: tcp.Port}
	copy(sa.Addr[:], tcp.IP.To4())
	for try := 0; ; try++ {
		if h.fd, err = syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0); err == nil {
			_ = syscall.SetsockoptInt(h.fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
			if err = syscall.Bind(h.fd, sa); err == nil {
				err = syscall.Listen(h.fd, 0)
			}
			if err == nil {
				break
			}
			_ = syscall.Close(h.fd)
		}
		if try > 200 {
			fatal("listening: %v", err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	if h.conn, err = net.Dial("tcp", addr); err != nil {
		fatal("filling the queue: %v", err)
	}
	return h
}

func (h *hanging) Close() error {
	_ = syscall.Close(h.fd)
	return h.conn.Close()
}

func (s *poolServer) serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.n++
		s.mu.Unlock()
		go func() {
			name := ""
			rd := bufio.NewReader(c)
			defer func() {
				s.mu.Lock()
				s.n--
				delete(s.live, name)
				s.mu.Unlock()
				_ = c.Close()
			}()
			for {
				w, _, err := readRequest(rd)
				if err != nil || len(w) != 2 {
					return
				}
				s.mu.Lock()
				for s.mode == "mute" && !hungUp(c) {
					s.mu.Unlock()
					time.Sleep(300 * time.Microsecond)
					s.mu.Lock()
				}
				mute := s.mode == "mute"
				s.mu.Unlock()
				if mute {
					return
				}
				ans := fmt.Sprintf("$%d\r\n%s\r\n", len(w[1])+2, "v:"+w[1])
				if w[0] == "hello" {
					s.mu.Lock()
					refuse := s.mode == "refuse"
					if !refuse {
						name = w[1]
						s.live[name] = c
					}
					s.mu.Unlock()
					ans = "+OK\r\n"
					if refuse {
						ans = "-ERR go away\r\n"
					}
				}
				if _, err := c.Write([]byte(ans)); err != nil {
					return
				}
			}
		}()
	}
}

// kills the connections and waits for nothing: the client is idle
func (s *poolServer) kill(keep map[string]bool) {
	s.mu.Lock()
	for k, c := range s.live {
		if !keep[k] {
			_ = c.Close()
		}
	}
	s.mu.Unlock()
}
func (s *poolServer) open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n
}

// how long to wait for what should happen; a step where it does not ends its
// walk, and when that has become usual the wait is shorter
var poolLate int

func patience(d time.Duration) time.Duration {
	if poolLate < 3 {
		return d
	}
	return 2 * time.Second
}
func poolPatience() time.Duration { return patience(8 * time.Second) }

func runPoolSteps(capacity int, steps []poolStep, cur func(ev []poolEvent, next poolStep)) []poolEvent {
	l, addr := ownListener()
	s := &poolServer{l: l, mode: "up", live: map[string]net.Conn{}}
	go s.serve(l)
	pool := new(redis.Pool)
	pool.Init(capacity, addr)
	var mu sync.Mutex
	names := map[*redis.Conn]string{} // the server knows a connection by this
	hellos := 0
	hello := func(conn *redis.Conn) error {
		mu.Lock()
		hellos++
		name := fmt.Sprint(hellos)
		names[conn] = name
		mu.Unlock()
		cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("hello", name)}
		conn.ExecCommand(context.Background(), &cmd)
		_, err := cmd.Result()
		return err
	}
	nameOf := func(conn *redis.Conn) string {
		mu.Lock()
		defer mu.Unlock()
		return names[conn]
	}
	pool.AddConnOpenHandler(hello)
	ids := map[*redis.Conn]int{}
	type back struct {
		p    int
		conn *redis.Conn
		err  error
		use  string
	}
	backs := make(chan back, 100)
	held := map[int]*redis.Conn{}
	waiting := map[int]context.CancelFunc{}
	using := map[int]context.CancelFunc{}
	evs := []poolEvent{}
	token := 0
	use := func(ctx context.Context, c *redis.Conn, token int) string {
		cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", fmt.Sprint(token))}
		c.ExecCommand(ctx, &cmd)
		v, err := cmd.Result()
		if err != nil {
			return "err"
		}
		if v != fmt.Sprintf("v:%d", token) {
			return "other: " + v
		}
		return "own"
	}
	for _, st := range steps {
		cur(evs, st)
		e := poolEvent{Op: st.Op, P: st.P, M: st.M, Done: []poolDone{}}
		p := st.P
		switch st.Op {
		case "Get":
			if held[p] != nil || waiting[p] != nil {
				continue
			}
			ctx, cancel := context.WithCancel(context.Background())
			waiting[p] = cancel
			go func() {
				c, err := pool.Get(ctx)
				cancel() // that it ends later does no harm
				backs <- back{p, c, err, ""}
			}()
		case "Put":
			if held[p] == nil {
				continue
			}
			if using[p] != nil {
				continue
			}
			c := held[p]
			delete(held, p)
			done := make(chan bool)
			go func() { pool.Put(c); close(done) }()
			select {
			case <-done:
			case <-time.After(poolPatience()):
				e.Res = "blocked"
			}
		case "Use":
			if held[p] == nil || using[p] != nil {
				continue
			}
			ctx, cancel := context.WithCancel(context.Background())
			using[p] = cancel
			token++
			c, n := held[p], token
			go func() {
				r := use(ctx, c, n)
				cancel()
				backs <- back{p, c, nil, r}
			}()
		case "Kill":
			if held[p] == nil {
				continue
			}
			s.mu.Lock()
			if c := s.live[nameOf(held[p])]; c != nil {
				_ = c.Close()
			}
			s.mu.Unlock()
		case "KillIdle":
			keep := map[string]bool{}
			for _, c := range held {
				keep[nameOf(c)] = true
			}
			s.kill(keep)
		case "Cancel":
			if waiting[p] == nil && using[p] == nil {
				continue
			}
			if waiting[p] != nil {
				waiting[p]()
			} else {
				using[p]()
			}
		case "Close":
			done := make(chan error)
			go func() { done <- pool.Close() }()
			select {
			case <-done:
			case <-time.After(poolPatience()):
				e.Res = "blocked"
			}
		case "Mode":
			s.mu.Lock()
			was := s.mode
			s.mode = st.M
			s.mu.Unlock()
			silent := map[string]bool{"down": true, "hang": true}
			if silent[st.M] || silent[was] {
				_ = s.l.Close()
			}
			if st.M == "hang" {
				s.l = hang(addr)
			} else if st.M != "down" && silent[was] {
				l := relisten(addr)
				s.l = l
				go s.serve(l)
			}
		default:
			fatal("step %v", st)
		}
		// wait for those who should come back, and a moment for those who should not
		deadline := time.Now().Add(poolPatience())
		for {
			var d time.Duration
			if len(e.Done) < st.N {
				d = time.Until(deadline)
			} else {
				d = 1500 * time.Microsecond
			}
			var b back
			select {
			case b = <-backs:
			case <-time.After(d):
				b.p = 0
			}
			if b.p == 0 {
				break
			}
			if b.use != "" {
				delete(using, b.p)
				e.Done = append(e.Done, poolDone{b.p, ids[b.conn], b.use})
				continue
			}
			delete(waiting, b.p)
			c := 0
			if b.err == nil && b.conn != nil {
				if ids[b.conn] == 0 {
					ids[b.conn] = len(ids) + 1
				}
				c = ids[b.conn]
				held[b.p] = b.conn
			}
			e.Done = append(e.Done, poolDone{b.p, c, ""})
		}
		for s.open() != st.Open && time.Now().Before(deadline) {
			time.Sleep(200 * time.Microsecond)
		}
		e.Open = s.open()
		evs = append(evs, e)
		if e.Res == "blocked" || len(e.Done) < st.N || e.Open != st.Open {
			poolLate++
			break
		}
		step(nil)
	}
	for _, c := range waiting {
		c()
	}
	for _, c := range using {
		c()
	}
	_ = s.l.Close()
	s.mu.Lock()
	s.mode = "up"
	s.mu.Unlock()
	s.kill(nil)
	return evs
}

func init() {
	modes["poolsteps"] = func(in, out string) {
		type job struct {
			Cap   int        `json:"cap"`
			Steps []poolStep `json:"steps"`
		}
		o := create(out)
		readLines(in, func(raw []byte) {
			var j job
			if err := json.Unmarshal(raw, &j); err != nil {
				fatal("%v", err)
			}
			evs := runPoolSteps(j.Cap, j.Steps, func(ev []poolEvent, next poolStep) {
				step(holder{map[string]interface{}{"cap": j.Cap, "done": ev, "next": next}})
			})
			o.line(map[string]interface{}{"cap": j.Cap, "ev": evs})
		})
		o.close()
	}
}
