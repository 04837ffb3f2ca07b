// The driver runs the real code of /repo and records what it does.  It never
// judges: expectations come from the TLA+ specification in /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"github.com/sirupsen/logrus"
)

// ---- byte strings in JSON: one character U+0000..U+00FF per byte

func toBytes(s string) string {
	ascii := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ascii = false
			break
		}
	}
	if ascii {
		return s
	}
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

func fromBytes(s string) string {
	ascii := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ascii = false
			break
		}
	}
	if ascii {
		return s
	}
	r := make([]rune, 0, len(s))
	for i := 0; i < len(s); i++ {
		r = append(r, rune(s[i]))
	}
	return string(r)
}

func mapBytes(in []string) []string {
	out := make([]string, len(in))
	for i, s := range in {
		out[i] = toBytes(s)
	}
	return out
}

// 7-bit JSON
func mustJSON(v interface{}) string {
	var sb strings.Builder
	enc := json.NewEncoder(&sb)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		fatal("json: %v", err)
	}
	s := strings.TrimRight(sb.String(), "\n")
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x7f {
			var o strings.Builder
			for _, r := range s {
				if r >= 0x7f {
					fmt.Fprintf(&o, "\\u%04x", r)
				} else {
					o.WriteRune(r)
				}
			}
			return o.String()
		}
	}
	return s
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "DRIVER-ERROR "+format+"\n", args...)
	os.Exit(4)
}

func readLines(path string, f func(line []byte)) {
	fp, err := os.Open(path)
	if err != nil {
		fatal("%v", err)
	}
	defer fp.Close()
	rd := bufio.NewReaderSize(fp, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			f(line)
		}
		if err != nil {
			return
		}
	}
}

// ---- output and watchdog

var progress int64

// what the code under test is being asked right now, reported if it never returns
var current atomic.Value

func step(what interface{}) {
	atomic.AddInt64(&progress, 1)
	if what != nil {
		current.Store(what)
	}
}

type holder struct{ v interface{} }

const hangAfter = 30 * time.Second

// started outside of any time bubble
func watchdog(out string) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		p := atomic.LoadInt64(&progress)
		if p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > hangAfter {
			h, _ := current.Load().(holder)
			_ = os.WriteFile(out+".hang", []byte(mustJSON(h.v)+"\n"), 0644)
			fmt.Fprintln(os.Stderr, "DRIVER-HANG")
			os.Exit(3)
		}
	}
}

type output struct {
	fp *os.File
	w  *bufio.Writer
}

func create(path string) *output {
	fp, err := os.Create(path)
	if err != nil {
		fatal("%v", err)
	}
	return &output{fp, bufio.NewWriterSize(fp, 1<<20)}
}
func (o *output) line(v interface{}) { o.w.WriteString(mustJSON(v)); o.w.WriteByte('\n') }
func (o *output) flush()             { o.w.Flush() }
func (o *output) close()             { o.w.Flush(); o.fp.Close() }

var modes = map[string]func(in, out string){}

func main() {
	if len(os.Args) != 4 {
		fatal("usage: driver MODE IN OUT")
	}
	logrus.SetLevel(logrus.PanicLevel)
	f, ok := modes[os.Args[1]]
	if !ok {
		fatal("unknown mode %s", os.Args[1])
	}
	go watchdog(os.Args[3])
	f(os.Args[2], os.Args[3])
}
