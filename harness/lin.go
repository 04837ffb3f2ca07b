package main

import (
	"encoding/json"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/liujiangwei/xxcache/cache"
)

// A history: commands run one after the other first, then threads at the same
// time, then commands one after the other again.
type history struct {
	Cron bool                `json:"cron"`
	Wait int                 `json:"wait"` // milliseconds until the threads start together (virtual time)
	Pre  []json.RawMessage   `json:"pre"`
	Thr  [][]json.RawMessage `json:"thr"`
	Post []json.RawMessage   `json:"post"`
	Rep  int                 `json:"rep"` // how often it is run
	// time passes (virtually) at the scheduling points: only one thread may use the cache,
	// another one that waited for it would keep the time from passing
	Clock bool `json:"clock"`
}

type call struct {
	C json.RawMessage `json:"c"`
	R res             `json:"r"`
}

func runHistory(h *history, id int, seed uint64, virtual bool) map[string]interface{} {
	ca := newCache(h.Cron)
	var calls []*call
	var marks [][2]int64 // sequence number, +id at invocation or -id at return
	var seq int64
	var dec []cmd
	add := func(raw json.RawMessage) int {
		var c cmd
		if err := json.Unmarshal(raw, &c); err != nil {
			fatal("%v: %s", err, raw)
		}
		calls = append(calls, &call{C: raw})
		dec = append(dec, c)
		return len(calls)
	}
	var thr [][]int
	var pre, post []int
	for _, raw := range h.Pre {
		pre = append(pre, add(raw))
	}
	for _, t := range h.Thr {
		var ids []int
		for _, raw := range t {
			ids = append(ids, add(raw))
		}
		thr = append(thr, ids)
	}
	for _, raw := range h.Post {
		post = append(post, add(raw))
	}
	inv := make([]int64, len(calls)+1)
	ret := make([]int64, len(calls)+1)
	one := func(ca *cache.Cache, n int) {
		inv[n] = atomic.AddInt64(&seq, 1)
		calls[n-1].R = exec(ca, &dec[n-1], 1)
		ret[n] = atomic.AddInt64(&seq, 1)
	}
	step(holder{map[string]interface{}{"history": id, "h": h}})
	for _, n := range pre {
		one(ca, n)
	}
	if h.Wait > 0 {
		time.Sleep(time.Duration(h.Wait) * time.Millisecond)
	}
	if h.Clock {
		sleeps(true, seed)
	} else {
		yields(true, seed)
	}
	var wg sync.WaitGroup
	var ready int32
	for _, ids := range thr {
		ids := ids
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for i := 0; atomic.LoadInt32(&ready) < int32(len(thr)) && i < 10000; i++ {
				runtime.Gosched()
			}
			for _, n := range ids {
				one(ca, n)
			}
		}()
	}
	wg.Wait()
	yields(false, 0)
	for _, n := range post {
		one(ca, n)
	}
	for n := 1; n <= len(calls); n++ {
		marks = append(marks, [2]int64{inv[n], int64(n)}, [2]int64{ret[n], -int64(n)})
	}
	sort.Slice(marks, func(i, j int) bool { return marks[i][0] < marks[j][0] })
	ev := []int64{}
	for _, m := range marks {
		ev = append(ev, m[1])
	}
	return map[string]interface{}{"calls": calls, "ev": ev}
}

func init() {
	run := func(in, out string, virtual bool) {
		var hs []*history
		readLines(in, func(l []byte) {
			h := new(history)
			if err := json.Unmarshal(l, h); err != nil {
				fatal("%v: %.200s", err, l)
			}
			hs = append(hs, h)
		})
		body := func() {
			o := create(out)
			n := uint64(0)
			for i, h := range hs {
				for k := 0; k < h.Rep; k++ {
					n++
					rec := runHistory(h, i, n*0x2545f4914f6cdd1d, virtual)
					rec["h"] = i
					o.line(rec)
				}
			}
			o.close()
		}
		if virtual {
			bubble(body)
		} else {
			body()
		}
	}
	modes["lin"] = func(in, out string) { run(in, out, false) }
	modes["linvirtual"] = func(in, out string) { run(in, out, true) }
}
