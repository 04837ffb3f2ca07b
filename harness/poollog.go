package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/liujiangwei/xxcache/redis"
)

type poolRun struct {
	Size    int    `json:"size"`    // asked for
	Cap     int    `json:"cap"`     // what that means
	Callers int    `json:"callers"` // at a time
	Calls   int    `json:"calls"`   // of each caller
	How     string `json:"how"`     // command, exec, client
	Delay   int    `json:"delay"`   // microseconds a reply takes at most
	Close   int    `json:"close"`   // percent of requests met by a closed connection
	Idle    int    `json:"idle"`    // percent of replies followed by closing the connection
	Refuse  int    `json:"refuse"`  // percent of greetings refused
	Cancel  int    `json:"cancel"`  // percent of calls whose context ends early
	Down    int    `json:"down"`    // times the server goes away
	PClose  int    `json:"pclose"`  // times the pool is closed
	Panic   int    `json:"panic"`   // percent of handlers that panic
	Garble  int    `json:"garble"`  // percent of replies that make no sense
	Barrier bool   `json:"barrier"`
	Seed    int64  `json:"seed"`
}

type plEvent struct {
	E string `json:"e"`
	X int    `json:"x"`
	C int    `json:"c"`
	R string `json:"r"`
}

type poolLog struct {
	mu     sync.Mutex
	ev     []plEvent
	last   time.Time
	run    poolRun
	rnd    *rand.Rand
	conns  int
	closed map[int]bool
	open   map[int]net.Conn
	hold   bool
	held   []chan bool
	full   chan bool
	calm   bool // no more faults
}

func (s *poolLog) add(e string, x, c int, r string) { // with the lock
	s.ev = append(s.ev, plEvent{e, x, c, r})
	s.last = time.Now()
	step(nil)
}
func (s *poolLog) log(e string, x, c int, r string) {
	s.mu.Lock()
	s.add(e, x, c, r)
	s.mu.Unlock()
}
func (s *poolLog) chance(percent int) bool { // with the lock
	return !s.calm && s.rnd.Intn(100) < percent
}

func (s *poolLog) serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		// a connection that has ended does not count, even if its end has not been read yet
		for try := 0; ; try++ {
			s.ends()
			if s.conns-len(s.closed) < s.run.Cap || try == 20 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if hungUp(c) { // nobody waited for it
			s.mu.Unlock()
			_ = c.Close()
			continue
		}
		s.conns++
		id := s.conns
		s.open[id] = c
		s.add("accept", 0, id, "")
		s.mu.Unlock()
		go s.conn(c, id)
	}
}

// the other end of a connection has been closed
func hungUp(c net.Conn) bool {
	raw, err := c.(*net.TCPConn).SyscallConn()
	if err != nil {
		return true
	}
	const closed, closeWait = 7, 8
	state := uint8(0)
	err = raw.Control(func(fd uintptr) {
		var info [104]byte
		size := uint32(len(info))
		_, _, e := syscall.Syscall6(syscall.SYS_GETSOCKOPT, fd, syscall.IPPROTO_TCP, syscall.TCP_INFO,
			uintptr(unsafe.Pointer(&info[0])), uintptr(unsafe.Pointer(&size)), 0)
		if e == 0 {
			state = info[0]
		}
	})
	return err != nil || state == closed || state == closeWait
}

// the connections that have ended; with the lock
func (s *poolLog) ends() {
	for id, c := range s.open {
		if !s.closed[id] && hungUp(c) {
			s.closed[id] = true
			s.add("eof", 0, id, "")
		}
	}
}

// the server ends a connection; with the lock
func (s *poolLog) end(c net.Conn, id int) {
	if !s.closed[id] {
		s.closed[id] = true
		s.add("sclose", 0, id, "")
	}
	_ = c.Close()
}

func (s *poolLog) conn(c net.Conn, id int) {
	rd := bufio.NewReader(c)
	for {
		w, _, err := readRequest(rd)
		s.mu.Lock()
		if err != nil || len(w) != 2 {
			if !s.closed[id] {
				s.closed[id] = true
				s.add("eof", 0, id, "")
			}
			delete(s.open, id)
			s.mu.Unlock()
			_ = c.Close()
			return
		}
		if s.closed[id] {
			s.mu.Unlock()
			return
		}
		if w[0] == "hello" || w[0] == "auth" || w[0] == "select" {
			ans := "+OK\r\n"
			if w[0] == "hello" && s.chance(s.run.Refuse) {
				s.end(c, id)
			}
			s.mu.Unlock()
			_, _ = c.Write([]byte(ans))
			continue
		}
		x, err := strconv.Atoi(w[1])
		if err != nil {
			fatal("request %q", w)
		}
		s.add("recv", x, id, "")
		if s.chance(s.run.Close) {
			s.end(c, id)
			s.mu.Unlock()
			return
		}
		idle := s.chance(s.run.Idle)
		nonsense := ""
		if s.chance(s.run.Garble) {
			nonsense = []string{"?what\r\n", "$x\r\n", "*q\r\n", "\x00"}[s.rnd.Intn(4)]
		}
		delay := time.Duration(0)
		if s.run.Delay > 0 {
			delay = time.Duration(s.rnd.Intn(s.run.Delay)) * time.Microsecond
		}
		var wait chan bool
		if s.hold {
			wait = make(chan bool)
			s.held = append(s.held, wait)
			if len(s.held) == s.run.Cap {
				s.hold = false
				close(s.full)
			}
		}
		s.mu.Unlock()
		go func() { // the connection is listened to meanwhile
			if wait != nil {
				<-wait
			}
			if delay > 0 {
				time.Sleep(delay)
			}
			s.mu.Lock()
			if nonsense != "" {
				s.add("garble", x, id, "")
				s.mu.Unlock()
				_, _ = c.Write([]byte(nonsense))
				return
			}
			if !s.closed[id] {
				s.add("reply", x, id, "")
			}
			s.mu.Unlock()
			_, _ = c.Write([]byte(fmt.Sprintf("$%d\r\n%s\r\n", len(w[1])+2, "v:"+w[1])))
			if idle {
				s.mu.Lock()
				s.end(c, id)
				s.mu.Unlock()
			}
		}()
	}
}

var errHandler = errors.New("handler panics")

// the caller of a handler that panics goes on
func recovered(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if p != errHandler {
				panic(p)
			}
			err = errHandler
		}
	}()
	return f()
}

func runPoolLog(run poolRun) []plEvent {
	l, addr := ownListener()
	s := &poolLog{run: run, rnd: rand.New(rand.NewSource(run.Seed)), closed: map[int]bool{}, open: map[int]net.Conn{}, last: time.Now(), full: make(chan bool)}
	go s.serve(l)
	var pool *redis.Pool
	var client *redis.Redis
	if run.How == "client" {
		opt := redis.Option{Addr: addr, PoolSize: run.Size}
		if run.Seed%2 == 0 {
			opt.Password, opt.Database = "pw", 3
		}
		client = redis.NewClient(opt)
	} else {
		pool = new(redis.Pool)
		pool.Init(run.Size, addr)
		if run.Refuse > 0 || run.Seed%2 == 0 {
			pool.AddConnOpenHandler(func(conn *redis.Conn) error {
				cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("hello", "0")}
				conn.ExecCommand(context.Background(), &cmd)
				_, err := cmd.Result()
				return err
			})
		}
	}
	numbers := map[*redis.Conn]int{}
	var next int64
	call := func(cancel bool, after time.Duration) bool {
		x := int(atomic.AddInt64(&next, 1))
		key := fmt.Sprint(x)
		s.log("start", x, 0, "")
		ctx, stop := context.WithCancel(context.Background())
		defer stop()
		if cancel {
			t := time.AfterFunc(after, func() {
				s.log("cancel", x, 0, "")
				stop()
			})
			defer t.Stop()
		}
		var v string
		var err error
		switch run.How {
		case "command":
			cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", key)}
			pool.ExecCommand(ctx, &cmd)
			v, err = cmd.Result()
		case "exec":
			err = recovered(func() error {
				return pool.Exec(ctx, func(conn *redis.Conn) error {
					s.mu.Lock()
					if numbers[conn] == 0 {
						numbers[conn] = len(numbers) + 1
					}
					n := numbers[conn]
					s.add("take", x, n, "")
					s.mu.Unlock()
					cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", key)}
					conn.ExecCommand(ctx, &cmd)
					var e error
					v, e = cmd.Result()
					s.mu.Lock()
					s.add("give", x, n, "")
					p := s.chance(s.run.Panic)
					s.mu.Unlock()
					if p {
						panic(errHandler)
					}
					return e
				})
			})
		case "client":
			v, err = client.Get(key)
		}
		r := "own"
		if err == errHandler {
			r = "panic"
		} else if err != nil {
			r = "err"
		} else if v != "v:"+key {
			r = "other:" + fromBytes(v)
		}
		s.log("end", x, 0, r)
		return r == "own"
	}
	yields(true, uint64(run.Seed))
	defer yields(false, 0)
	var wg sync.WaitGroup
	for i := 0; i < run.Callers; i++ {
		wg.Add(1)
		rnd := rand.New(rand.NewSource(run.Seed*1000 + int64(i)))
		go func() {
			defer wg.Done()
			for n := 0; n < run.Calls; n++ {
				call(rnd.Intn(100) < run.Cancel, time.Duration(rnd.Intn(2*run.Delay+100))*time.Microsecond)
				if rnd.Intn(4) == 0 {
					time.Sleep(time.Duration(rnd.Intn(run.Delay+50)) * time.Microsecond)
				}
			}
		}()
	}
	wg.Add(1)
	go func() { // what happens meanwhile
		defer wg.Done()
		rnd := rand.New(rand.NewSource(run.Seed*1000 + 999))
		pause := func() { time.Sleep(time.Duration(rnd.Intn(4*run.Delay+500)) * time.Microsecond) }
		for n := 0; n < run.Down || n < run.PClose; n++ {
			if n < run.Down {
				pause()
				s.log("down", 0, 0, "")
				_ = l.Close()
				pause()
				l = relisten(addr)
				s.log("up", 0, 0, "")
				go s.serve(l)
			}
			if n < run.PClose {
				pause()
				s.log("closing", 0, 0, "")
				_ = pool.Close()
				s.log("closed", 0, 0, "")
			}
		}
	}()
	finished := func() bool {
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		for {
			select {
			case <-done:
				return true
			case <-time.After(200 * time.Millisecond):
			}
			step(nil)
			s.mu.Lock()
			idle := time.Since(s.last)
			s.mu.Unlock()
			if idle > patience(12*time.Second) {
				poolLate++
				return false
			}
		}
	}
	ok := finished()
	if ok && run.Barrier {
		s.mu.Lock()
		s.calm, s.hold = true, true
		s.mu.Unlock()
		for i := 0; i < run.Cap; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for try := 0; try < 3*run.Cap+10; try++ {
					if call(false, 0) {
						return
					}
				}
			}()
		}
		what := "full"
		select {
		case <-s.full:
		case <-time.After(patience(10 * time.Second)):
			poolLate++
			what = "short"
		}
		s.mu.Lock()
		s.add(what, 0, 0, "")
		s.hold = false
		for _, w := range s.held {
			close(w)
		}
		s.mu.Unlock()
		ok = finished()
	}
	if ok && pool != nil && run.PClose > 0 {
		// now nobody uses the pool: closing it closes every connection
		done := make(chan bool)
		go func() { _ = pool.Close(); close(done) }()
		deadline := time.Now().Add(patience(10 * time.Second))
		for {
			s.mu.Lock()
			n := s.conns - len(s.closed)
			s.mu.Unlock()
			select {
			case <-done:
				if n == 0 {
					s.log("shut", 0, 0, "")
					deadline = time.Time{}
				}
			default:
			}
			if time.Now().After(deadline) {
				break
			}
			time.Sleep(300 * time.Microsecond)
		}
		if !deadline.IsZero() {
			poolLate++
			s.log("stillopen", 0, 0, "")
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	_ = l.Close()
	return append([]plEvent{}, s.ev...)
}

func init() {
	modes["poollog"] = func(in, out string) {
		o := create(out)
		readLines(in, func(raw []byte) {
			var run poolRun
			if err := json.Unmarshal(raw, &run); err != nil {
				fatal("%v", err)
			}
			step(holder{run})
			ev := []plEvent{}
			if poolLate < 8 { // more of the same would only take time
				ev = runPoolLog(run)
			}
			o.line(map[string]interface{}{"cap": run.Cap, "run": run, "ev": ev})
		})
		o.close()
	}
}
