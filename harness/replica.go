package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/redis"
)

// ---- writing in pieces: 0 at once, n > 0 of that size, n < 0 of random sizes

func writePieces(c net.Conn, s string, pieces int) bool {
	rnd := rand.New(rand.NewSource(int64(-pieces)))
	for s != "" {
		n := len(s)
		if pieces > 0 {
			n = pieces
		} else if pieces < 0 {
			n = 1 + rnd.Intn([]int{1, 3, 20, 500, 5000}[rnd.Intn(5)])
		}
		if n > len(s) {
			n = len(s)
		}
		if _, err := c.Write([]byte(s[:n])); err != nil {
			return false
		}
		s = s[n:]
		if pieces != 0 && s != "" {
			time.Sleep(20 * time.Microsecond)
		}
	}
	return true
}

// ---- synchronizing, against a scripted master

type syncJob struct {
	Ping string `json:"ping"`
	Sync string `json:"sync"`
	Wait bool   `json:"wait"` // the answer to the ping is complete, another request may come
	Addr string `json:"addr"` // "down": nobody listens
	Runs []int  `json:"pieces"`
	Lag  int    `json:"lag"` // milliseconds before messages are taken
	Full bool   `json:"full"` // an earlier error has not been read when the connection ends
}
type syncMsg struct {
	D int         `json:"d"`
	M interface{} `json:"m"`
}
type syncRun struct {
	Pieces int        `json:"pieces"`
	Reqs   [][]string `json:"reqs"`
	Res    string     `json:"res"`
	Txt    string     `json:"txt"`
	File   string     `json:"file"`
	Msgs   []syncMsg  `json:"msgs"`
	End    bool       `json:"end"`
	Closed bool       `json:"closed"`
}

func runSync(j *syncJob, pieces int, path string) (r syncRun) {
	r.Pieces, r.Reqs, r.Msgs = pieces, [][]string{}, []syncMsg{}
	l, addr := ownListener()
	defer l.Close()
	if j.Addr == "down" {
		_ = l.Close()
	}
	var mu sync.Mutex
	var open []net.Conn
	closeAll := func() {
		mu.Lock()
		for _, c := range open {
			_ = c.Close()
		}
		mu.Unlock()
	}
	defer closeAll()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			open = append(open, c)
			mu.Unlock()
			go func() {
				rd := bufio.NewReader(c)
				for n := 0; ; n++ {
					words, raw, err := readRequest(rd)
					if err != nil && raw == "" {
						return
					}
					w := []string{}
					for _, x := range words {
						w = append(w, fromBytes(x))
					}
					if err != nil {
						w = []string{"not a request", fromBytes(raw)}
					}
					if n > 1 { // an acknowledgement
						continue
					}
					mu.Lock()
					r.Reqs = append(r.Reqs, w)
					mu.Unlock()
					if n == 0 {
						if !writePieces(c, toBytes(j.Ping), pieces) || !j.Wait {
							_ = c.Close()
							return
						}
						continue
					}
					writePieces(c, toBytes(j.Sync), pieces)
					_ = c.(*net.TCPConn).CloseWrite()
				}
			}()
		}
	}()
	switch j.Addr {
	case "nodir":
		path += "/is/not/a/directory"
	case "full":
		path = "/dev/full"
	}
	if j.Addr != "" {
	} else if err := os.WriteFile(path, []byte(strings.Repeat("before ", 500)), 0600); err != nil {
		fatal("%v", err)
	}
	repl := &redis.Replication{MasterAddr: addr, RdbFile: path}
	err := repl.SyncWithRedis()
	mu.Lock()
	reqs := append([][]string{}, r.Reqs...)
	mu.Unlock()
	if err != nil {
		return syncRun{Pieces: pieces, Reqs: reqs, Msgs: r.Msgs, Res: "err", Txt: err.Error()}
	}
	var b []byte
	if j.Addr == "" {
		if b, err = os.ReadFile(path); err != nil {
			b = []byte("no file: " + err.Error())
		}
	}
	out := syncRun{Pieces: pieces, Reqs: reqs, Msgs: []syncMsg{}, Res: "ok", File: fromBytes(string(b))}
	errs := repl.Err
	var quiet <-chan time.Time
	if j.Full {
		earlier := errors.New("an earlier error")
		for full := false; !full; {
			select {
			case repl.Err <- earlier:
			default:
				full = true
			}
		}
		errs, quiet = nil, time.After(150*time.Millisecond)
	}
	go repl.WaitForMessage()
	if j.Lag > 0 {
		time.Sleep(time.Duration(j.Lag) * time.Millisecond)
	}
	for !out.Closed {
		select {
		case <-quiet:
			quiet = nil
			for n := cap(repl.Err); n > 0; n-- {
				<-repl.Err
			}
			errs = repl.Err
		case m, ok := <-repl.Messages:
			if !ok {
				out.Closed = true
				break
			}
			out.Msgs = append(out.Msgs, syncMsg{m.Database, wire(m.Message)})
			if len(out.Msgs) > len(j.Sync)+10 {
				return out
			}
		case err := <-errs:
			out.End = err != nil
			errs = nil
		}
	}
	// the error comes before the end of the stream
	if errs != nil {
		select {
		case err := <-errs:
			out.End = err != nil
		default:
		}
	}
	return out
}

// ---- a whole client

type repStep struct {
	E     string   `json:"e"`
	Ms    []wmsg   `json:"ms,omitempty"`
	K     string   `json:"k,omitempty"`
	V     string   `json:"v,omitempty"`
	N     int      `json:"n,omitempty"`
	How   string   `json:"how,omitempty"`
	TTL   []int    `json:"ttl,omitempty"`
	Rep   *reply   `json:"rep,omitempty"`
	Keys  []string `json:"keys,omitempty"`
	Count int      `json:"count,omitempty"`
	Junk  string   `json:"junk,omitempty"`
	Times int      `json:"times,omitempty"` // messages without effect are sent many times
}
type repRead struct {
	K string `json:"k"`
	R cres   `json:"r"`
}
type repJob struct {
	B      []int           `json:"b"`
	Patch  [][2]int        `json:"patch"`
	Scores json.RawMessage `json:"scores"`
	At     json.RawMessage `json:"at"`
	Pieces int             `json:"pieces"`
	Lead   string          `json:"lead"`
	Steps  []repStep       `json:"steps"`
	// many more keys, which are never looked at
	Bulk   int `json:"bulk"`
	BulkAt int `json:"bulkat"`
	// acknowledgements
	Watch int `json:"watch"`
}

func (j *repJob) snapshot() string {
	snap := bytesOf(j.B)
	if j.Bulk > 0 {
		var sb strings.Builder
		for i := 0; i < j.Bulk; i++ {
			k := fmt.Sprintf("bulk%08d", i)
			sb.WriteString("\x00" + string([]byte{byte(len(k))}) + k + "\x01v")
		}
		snap = snap[:j.BulkAt] + sb.String() + snap[j.BulkAt:]
	}
	return snap
}

type repServer struct {
	mu      sync.Mutex
	l       net.Listener
	addr    string
	link    net.Conn
	linked  chan bool
	open    map[net.Conn]bool
	rep     reply
	reqs    [][]string
	acks    []ackSeen
	start   time.Time
	lead    string
	snap    string
	pieces  int
	refused bool
}
type ackSeen struct {
	T int      `json:"t"`
	W []string `json:"w"`
}

func newRepServer(snap, lead string, pieces int) *repServer {
	s := &repServer{linked: make(chan bool), open: map[net.Conn]bool{}, snap: snap, lead: lead, pieces: pieces, start: time.Now()}
	s.l, s.addr = ownListener()
	s.rep = reply{Kind: "msg", M: &wmsg{"error", "ERR only the local copy counts"}}
	go s.accept(s.l)
	return s
}

func (s *repServer) accept(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.open[c] = true
		s.mu.Unlock()
		go s.serve(c)
	}
}

func (s *repServer) serve(c net.Conn) {
	end := func() {
		s.mu.Lock()
		delete(s.open, c)
		s.mu.Unlock()
		_ = c.Close()
	}
	rd := bufio.NewReader(c)
	link := false
	for {
		words, raw, err := readRequest(rd)
		if err != nil && raw == "" {
			if !link {
				end()
			}
			return
		}
		w := []string{}
		for _, x := range words {
			w = append(w, fromBytes(x))
		}
		if err != nil {
			w = []string{"not a request", fromBytes(raw)}
		}
		if link {
			s.mu.Lock()
			s.acks = append(s.acks, ackSeen{int(time.Since(s.start) / time.Millisecond), w})
			s.mu.Unlock()
			if err != nil {
				return
			}
			continue
		}
		if err != nil {
			s.mu.Lock()
			s.reqs = append(s.reqs, w)
			s.mu.Unlock()
			end()
			return
		}
		if len(w) == 1 && strings.ToLower(w[0]) == "ping" {
			_, _ = c.Write([]byte("+PONG\r\n"))
			continue
		}
		if len(w) == 1 && strings.ToLower(w[0]) == "sync" {
			link = true
			s.mu.Lock()
			delete(s.open, c)
			s.link = c
			s.start = time.Now()
			s.mu.Unlock()
			writePieces(c, s.lead+fmt.Sprintf("$%d\r\n", len(s.snap))+s.snap, s.pieces)
			close(s.linked)
			continue
		}
		s.mu.Lock()
		s.reqs = append(s.reqs, w)
		rep := s.rep
		s.mu.Unlock()
		if !rep.send(c, 0) {
			end()
			return
		}
	}
}

func (s *repServer) kill() {
	s.mu.Lock()
	defer s.mu.Unlock()
	_ = s.l.Close()
	for c := range s.open {
		_ = c.Close()
	}
}
func (s *repServer) set(rep *reply) {
	s.mu.Lock()
	if rep != nil {
		s.rep = *rep
	} else {
		s.rep = reply{Kind: "msg", M: &wmsg{"error", "ERR only the local copy counts"}}
	}
	s.reqs = [][]string{}
	s.mu.Unlock()
}
func (s *repServer) seen() [][]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([][]string{}, s.reqs...)
}

func msNow() int64 { return time.Now().UnixNano() / 1e6 }

type window struct{ from, to int64 }

// does a command have a moment at place k
func timeAt(items []wmsg, k int) bool {
	word := func(i int) string {
		s, _ := items[i].V.(string)
		return strings.ToLower(s)
	}
	switch word(0) {
	case "pexpireat", "expireat":
		return k == 2 && len(items) == 3
	case "set":
		return k > 3 && (word(k-1) == "pxat" || word(k-1) == "exat")
	}
	return false
}

// messages as bytes; "@n" becomes a moment n milliseconds from now
func (j *repJob) streamBytes(ms []wmsg, amb *[]window) string {
	var sb strings.Builder
	for i := range ms {
		m := ms[i]
		if m.T == "array" {
			raw, _ := json.Marshal(m.V)
			var items []wmsg
			if err := json.Unmarshal(raw, &items); err != nil {
				fatal("%v", err)
			}
			for k := range items {
				if v, ok := items[k].V.(string); ok && len(v) > 1 && v[0] == '@' && timeAt(items, k) {
					if v[1] == '@' { // in seconds, and far
						items[k].V = strconv.FormatInt((msNow()+atoi(v[2:]))/1000, 10)
						continue
					}
					n := atoi(v[1:])
					at := msNow() + n
					items[k].V = strconv.FormatInt(at, 10)
					if n > 0 && n < 100000 {
						*amb = append(*amb, window{at - 40, at + 100})
					}
				}
			}
			m = wmsg{"array", items}
		}
		sb.WriteString(m.bytes())
	}
	return sb.String()
}

func get(c *xxcache.Client, k string) (r cres) {
	defer func() {
		if p := recover(); p != nil {
			r = cres{false, "panic", fmt.Sprint(p)}
		}
	}()
	return cstr(c.Get(toBytes(k)))
}
func set(c *xxcache.Client, k, v string) (r cres) {
	defer func() {
		if p := recover(); p != nil {
			r = cres{false, "panic", fmt.Sprint(p)}
		}
	}()
	return cstr(c.Set(toBytes(k), toBytes(v)))
}

// how long to wait for what was sent; shorter once that has failed
var drainTimeout = 20 * time.Second

func runReplica(j *repJob, path string) []map[string]interface{} {
	snap := []byte(j.snapshot())
	origin := msNow()
	var amb, pending []window
	for _, p := range j.Patch {
		at := msNow() + int64(p[1])
		binary.LittleEndian.PutUint64(snap[p[0]:], uint64(at))
		amb = append(amb, window{at - 40, at + 100})
	}
	s := newRepServer(string(snap), j.Lead, j.Pieces)
	defer func() {
		s.kill()
		s.mu.Lock()
		if s.link != nil {
			_ = s.link.Close()
		}
		s.mu.Unlock()
	}()
	evs := []map[string]interface{}{}
	client, err := func() (c xxcache.Client, err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		return xxcache.New(xxcache.Option{RedisMasterAddr: s.addr, RedisRdbFile: path})
	}()
	txt := ""
	if err != nil {
		txt = err.Error()
	}
	evs = append(evs, map[string]interface{}{"e": "new", "t": 0, "ok": err == nil, "txt": txt})
	if err != nil {
		return evs
	}
	<-s.linked
	ambiguous := func(t0, t1 int64) bool {
		for _, w := range append(append([]window{}, amb...), pending...) {
			if t1 >= w.from && t0 <= w.to {
				return true
			}
		}
		return false
	}
	poll := func(k, v string) bool {
		s.set(nil)
		until := time.Now().Add(drainTimeout)
		for i := 0; ; i++ {
			if r := get(&client, k); !r.Err && r.V == v {
				return true
			}
			if time.Now().After(until) {
				return false
			}
			if i > 50 {
				time.Sleep(time.Millisecond)
			} else {
				time.Sleep(50 * time.Microsecond)
			}
			step(nil)
		}
	}
	for i := range j.Steps {
		st := &j.Steps[i]
		ev := map[string]interface{}{"e": st.E, "k": st.K, "v": st.V, "n": st.N}
		ms := st.Ms
		if ms == nil {
			ms = []wmsg{}
		}
		ev["ms"] = ms
		ev["t"] = msNow() - origin // before anything is sent
		step(nil)
		switch st.E {
		case "send", "drain", "lose":
			t := msNow()
			for n := 1; n < st.Times; n++ {
				writePieces(s.link, j.streamBytes(st.Ms, &amb), j.Pieces)
			}
			writePieces(s.link, j.streamBytes(st.Ms, &amb), j.Pieces)
			for _, n := range st.TTL {
				pending = append(pending, window{t + int64(n) - 10, 1 << 60})
			}
			ok := true
			if st.E == "lose" {
				switch st.How {
				case "fin":
					_ = s.link.Close()
				case "half":
					_ = s.link.(*net.TCPConn).CloseWrite()
				case "rst":
					_ = s.link.(*net.TCPConn).SetLinger(0)
					_ = s.link.Close()
				case "junk":
					_, _ = s.link.Write([]byte(toBytes(st.Junk)))
					_ = s.link.(*net.TCPConn).CloseWrite()
				}
			}
			if st.K != "" {
				ok = poll(st.K, st.V)
				now := msNow()
				for _, w := range pending {
					amb = append(amb, window{w.from, now + (w.from - t) + 100})
				}
				if ok {
					pending = nil
				}
			}
			ev["ok"] = ok
		case "get", "set":
			s.set(st.Rep)
			if st.Rep != nil && st.Rep.Kind == "down" {
				s.kill()
			}
			t0 := msNow()
			if st.E == "get" {
				ev["r"] = get(&client, st.K)
			} else {
				ev["r"] = set(&client, st.K, st.V)
			}
			ev["t"] = msNow() - origin
			ev["amb"] = ambiguous(t0, msNow())
			ev["reqs"] = s.seen()
			ev["rep"] = s.rep
			if st.Rep != nil && st.Rep.Kind == "down" {
				l := relisten(s.addr)
				s.mu.Lock()
				s.l = l
				s.mu.Unlock()
				go s.accept(l)
				// connections that broke meanwhile are found out
				s.set(nil)
				for i := 0; i < 50 && len(s.seen()) == 0; i++ {
					_ = get(&client, "is anybody there")
				}
			}
		case "wait":
			time.Sleep(time.Duration(st.N) * time.Millisecond)
		case "race":
			s.set(nil)
			stop := make(chan bool)
			logs := make([][]repRead, st.N)
			var wg sync.WaitGroup
			for g := 0; g < st.N; g++ {
				g := g
				logs[g] = []repRead{}
				wg.Add(1)
				go func() {
					defer wg.Done()
					rnd := rand.New(rand.NewSource(int64(g*1000 + i)))
					for n := 0; n < st.Count; n++ {
						select {
						case <-stop:
							n = st.Count // one more
						default:
						}
						k := st.Keys[rnd.Intn(len(st.Keys))]
						logs[g] = append(logs[g], repRead{k, get(&client, k)})
						time.Sleep(time.Duration(rnd.Intn(60)) * time.Microsecond)
					}
				}()
			}
			t0 := msNow()
			for k := range st.Ms {
				writePieces(s.link, j.streamBytes(st.Ms[k:k+1], &amb), j.Pieces)
				time.Sleep(20 * time.Microsecond)
			}
			close(stop)
			wg.Wait()
			ev["reads"] = logs
			ev["amb"] = ambiguous(t0, msNow())
		default:
			fatal("step %q", st.E)
		}
		evs = append(evs, ev)
		if ev["ok"] == false {
			drainTimeout = 2 * time.Second
			break
		}
	}
	return evs
}

// ---- acknowledgements

func runAck(j *repJob, path string) map[string]interface{} {
	snap := j.snapshot()
	s := newRepServer(snap, j.Lead, j.Pieces)
	client, err := xxcache.New(xxcache.Option{RedisMasterAddr: s.addr, RedisRdbFile: path})
	out := map[string]interface{}{"b": j.B, "scores": j.Scores, "ok": err == nil, "watch": j.Watch}
	if err != nil {
		out["acks"], out["from"], out["to"], out["lost"] = []ackSeen{}, 0, 0, 0
		out["txt"] = err.Error()
		return out
	}
	<-s.linked
	from := time.Since(s.start)
	lost := 0
	begin := time.Now()
	var amb []window
	for i := range j.Steps {
		st := &j.Steps[i]
		if d := time.Duration(st.N)*time.Millisecond - time.Since(begin); d > 0 {
			time.Sleep(d)
		}
		switch st.E {
		case "send":
			writePieces(s.link, j.streamBytes(st.Ms, &amb), j.Pieces)
		case "lose":
			lost = int(time.Since(s.start) / time.Millisecond)
			_ = s.link.Close()
		case "get":
			_ = get(&client, st.K)
		}
	}
	if d := time.Duration(j.Watch)*time.Millisecond - time.Since(begin); d > 0 {
		time.Sleep(d)
	}
	to := time.Since(s.start)
	s.kill()
	s.mu.Lock()
	out["acks"] = append([]ackSeen{}, s.acks...)
	s.mu.Unlock()
	out["from"], out["to"], out["lost"] = int(from/time.Millisecond), int(to/time.Millisecond), lost
	return out
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		fatal("%v", err)
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func parseRep(raw []byte) *repJob {
	j := new(repJob)
	if err := json.Unmarshal(raw, j); err != nil {
		fatal("%v: %.200s", err, raw)
	}
	if len(j.Scores) == 0 {
		j.Scores = json.RawMessage("[]")
	}
	if len(j.At) == 0 {
		j.At = json.RawMessage("[]")
	}
	return j
}

func init() {
	modes["sync"] = func(in, out string) {
		o := create(out)
		path := out + ".rdb"
		readLines(in, func(raw []byte) {
			j := new(syncJob)
			if err := json.Unmarshal(raw, j); err != nil {
				fatal("%v: %.200s", err, raw)
			}
			runs := []syncRun{}
			for _, p := range j.Runs {
				step(holder{map[string]interface{}{"ping": j.Ping, "sync": fmt.Sprintf("%.500q", j.Sync), "pieces": p}})
				runs = append(runs, runSync(j, p, path))
			}
			o.line(map[string]interface{}{"ping": j.Ping, "sync": j.Sync, "addr": j.Addr, "runs": runs})
		})
		_ = os.Remove(path)
		o.close()
	}
	modes["replica"] = func(in, out string) {
		o := create(out)
		path := out + ".rdb"
		readLines(in, func(raw []byte) {
			j := parseRep(raw)
			step(holder{json.RawMessage(raw)})
			evs := runReplica(j, path)
			o.line(map[string]interface{}{"kind": "run", "b": j.B, "scores": j.Scores, "at": j.At, "ev": evs})
			o.flush()
		})
		// everything is over: nothing may go on working
		step(holder{"idle"})
		time.Sleep(300 * time.Millisecond)
		t, c := time.Now(), cpuTime()
		time.Sleep(1500 * time.Millisecond)
		o.line(map[string]interface{}{"kind": "idle", "b": []int{}, "scores": []int{}, "at": []int{}, "ev": []int{},
			"cpu": int((cpuTime() - c) / time.Millisecond), "wall": int(time.Since(t) / time.Millisecond)})
		_ = os.Remove(path)
		o.close()
	}
	modes["ack"] = func(in, out string) {
		o := create(out)
		var wg sync.WaitGroup
		var mu sync.Mutex
		n := 0
		readLines(in, func(raw []byte) {
			j := parseRep(raw)
			n++
			path := fmt.Sprintf("%s.%d.rdb", out, n)
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := runAck(j, path)
				_ = os.Remove(path)
				mu.Lock()
				o.line(r)
				mu.Unlock()
			}()
		})
		done := make(chan bool)
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(5 * time.Second):
					step(nil)
				}
			}
		}()
		wg.Wait()
		close(done)
		o.close()
	}
}
