// Package vt is what every driver shares: episodes, their recording, seeds, watchdogs.
//
// A driver runs scenarios against the real code and writes one JSON line per
// episode: {"ep":"name","cfg":{...},"ev":[{...},...]}. The TLA+ trace specifications
// read that file. Before an episode starts, its name goes to the .begin file, so that
// the runner knows which episode a crash of the code under test belongs to.
package vt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// R is a JSON record.
type R = map[string]interface{}

// Episode is one scenario with everything observed while it ran.
type Episode struct {
	Ep  string `json:"ep"`
	Cfg R      `json:"cfg"`
	Ev  []R    `json:"ev"`

	mu sync.Mutex
}

// Log appends an event.
func (e *Episode) Log(r R) {
	e.mu.Lock()
	e.Ev = append(e.Ev, r)
	e.mu.Unlock()
}

var (
	Seed = envInt("VERIF_SEED", 1)
	N    = envInt("VERIF_N", 100)
	Tier = os.Getenv("VERIF_TIER")
	Only = os.Getenv("VERIF_ONLY")
	Mode = os.Getenv("VERIF_MODE")
)

func envInt(k string, d int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return n
	}
	return d
}

// Rand returns a generator that depends on the seed and the name only.
func Rand(name string) *rand.Rand {
	h := uint64(14695981039346656037)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	return rand.New(rand.NewSource(int64(h) ^ (Seed * 7919)))
}

var (
	outMu   sync.Mutex
	out     *bufio.Writer
	outF    *os.File
	beginF  *os.File
	pending sync.WaitGroup
)

// Open prepares the output file.
func Open() {
	log.SetOutput(ioutil.Discard)
	p := os.Getenv("VERIF_OUT")
	if p == "" {
		p = "/dev/stdout"
	}
	var err error
	if outF, err = os.Create(p); err != nil {
		Fatal("%s", err)
	}
	out = bufio.NewWriterSize(outF, 1<<20)
	if p != "/dev/stdout" {
		if beginF, err = os.Create(p + ".begin"); err != nil {
			Fatal("%s", err)
		}
	}
}

// Close flushes the output file and marks it complete.
func Close() {
	outMu.Lock()
	defer outMu.Unlock()
	out.Flush()
	outF.Close()
	if p := os.Getenv("VERIF_OUT"); p != "" {
		ioutil.WriteFile(p+".done", []byte("done\n"), 0o644)
	}
	os.Exit(0)
}

// Fatal reports a failure of the driver itself.
func Fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "DRIVER-ERROR "+f+"\n", a...)
	os.Exit(3)
}

func note(s string) {
	if beginF != nil {
		outMu.Lock()
		beginF.WriteString(s + "\n")
		outMu.Unlock()
	}
}

// Emit writes a finished episode.
func Emit(e *Episode) {
	e.mu.Lock()
	if e.Cfg == nil {
		e.Cfg = R{"z": 0}
	}
	if e.Ev == nil {
		e.Ev = []R{}
	}
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	err := enc.Encode(e)
	e.mu.Unlock()
	if err != nil {
		Fatal("encode: %s", err)
	}
	outMu.Lock()
	out.Write(b.Bytes())
	outMu.Unlock()
}

// Task is one named episode to run.
type Task struct {
	Name string
	Run  func(e *Episode)
}

// RunAll runs the tasks, par at a time, and emits their episodes in order.
func RunAll(tasks []Task, par int) {
	if Only != "" {
		var ts []Task
		for _, t := range tasks {
			if t.Name == Only {
				ts = append(ts, t)
			}
		}
		tasks = ts
	}
	eps := make([]*Episode, len(tasks))
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i, t := range tasks {
		sem <- struct{}{}
		wg.Add(1)
		go func(i int, t Task) {
			defer wg.Done()
			e := &Episode{Ep: t.Name}
			note("B " + t.Name)
			func() {
				defer func() {
					if r := recover(); r != nil {
						st := stack()
						if w := RepoFrame(st); w != "" {
							// The code under test panicked in the caller's goroutine.
							e.Log(R{"op": "crash", "what": firstLine(fmt.Sprint(r)), "where": w})
							return
						}
						fmt.Fprintf(os.Stderr, "%v\n%s\n", r, st)
						Fatal("panic in driver, episode %s: %v", t.Name, r)
					}
				}()
				t.Run(e)
			}()
			note("E " + t.Name)
			eps[i] = e
			<-sem
		}(i, t)
	}
	wg.Wait()
	for _, e := range eps {
		Emit(e)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func stack() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, false)])
}

// RepoFrame returns the innermost function of the code under test if, going from the
// panic outwards, one appears before any function of a driver.
func RepoFrame(st string) string {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(st[i:], "\n") {
		if strings.Contains(l, "/internal/verifdrv/") {
			return ""
		}
		if strings.HasPrefix(l, "code.cloudfoundry.org/log-cache/") {
			if j := strings.LastIndexByte(l, '('); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return ""
}

// Within runs f and reports whether it returned in time. A panic of the code under
// test inside f is returned as crash; a panic of the driver's own code ends the driver.
func Within(d time.Duration, f func()) (ok bool, crash string) {
	done := make(chan string, 1)
	go func() {
		res := ""
		defer func() {
			if r := recover(); r != nil {
				st := stack()
				w := RepoFrame(st)
				if w == "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, st)
					Fatal("panic in driver: %v", r)
				}
				res = w + ": " + firstLine(fmt.Sprint(r))
			}
			done <- res
		}()
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case c := <-done:
		return c == "", c
	case <-t.C:
		return false, ""
	}
}

// Eventually polls until f holds, at most d.
func Eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	w := 200 * time.Microsecond
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(w)
		if w < 10*time.Millisecond {
			w *= 2
		}
	}
}

// Clock is a shared logical clock for start/end stamps of concurrent calls.
type Clock struct{ n int64 }

// Tick returns the next stamp.
func (c *Clock) Tick() int64 { return atomic.AddInt64(&c.n, 1) }

// Scenarios reads the scenarios the specification generated: one JSON array of
// operations per line of the file VERIF_SCN.
func Scenarios() [][]R {
	p := os.Getenv("VERIF_SCN")
	if p == "" {
		return nil
	}
	b, err := ioutil.ReadFile(p)
	if err != nil {
		Fatal("%s", err)
	}
	var res [][]R
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(l)) == 0 {
			continue
		}
		var s []R
		if err := json.Unmarshal(l, &s); err != nil {
			Fatal("scenario: %s: %s", err, l)
		}
		res = append(res, s)
	}
	return res
}

// I reads an integer field of a scenario operation.
func I(r R, k string) int {
	switch v := r[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	Fatal("scenario field %s of %v is no integer", k, r)
	return 0
}

// S reads a string field of a scenario operation.
func S(r R, k string) string {
	if v, ok := r[k].(string); ok {
		return v
	}
	Fatal("scenario field %s of %v is no string", k, r)
	return ""
}

// B reads a boolean field of a scenario operation.
func B(r R, k string) bool {
	v, ok := r[k].(bool)
	if !ok {
		Fatal("scenario field %s of %v is no boolean", k, r)
	}
	return v
}

// Metric is a fake metric that can call back.
type Metric struct {
	mu   sync.Mutex
	v    float64
	n    int
	Hook func(op string, v float64)
}

func (m *Metric) Add(d float64) {
	m.mu.Lock()
	m.v += d
	m.n++
	h := m.Hook
	m.mu.Unlock()
	if h != nil {
		h("add", d)
	}
}

func (m *Metric) Set(d float64) {
	m.mu.Lock()
	m.v = d
	m.n++
	h := m.Hook
	m.mu.Unlock()
	if h != nil {
		h("set", d)
	}
}

// SetHook installs a callback.
func (m *Metric) SetHook(h func(op string, v float64)) {
	m.mu.Lock()
	m.Hook = h
	m.mu.Unlock()
}

// Value returns the current value.
func (m *Metric) Value() float64 {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.v
}

// Calls returns how often the metric was updated.
func (m *Metric) Calls() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.n
}
