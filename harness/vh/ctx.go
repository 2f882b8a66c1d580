package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// M is a JSON object; ints must stay within 32 bits (TLC integers).
type M map[string]any

type Ctx struct {
	Name       string
	R          *rand.Rand
	Seed       int64
	Tier       string
	ScriptFile string

	collect func(c M)   // if set, takes generated cases instead of executing them
	filter  func(e M) M // if set, what becomes of recorded events (nil: not recorded)

	suite  *Suite
	out    string
	shards []*shard
	next   int

	mu     sync.Mutex
	cur    []any // events of the case in progress
	curC   M
	start  atomic.Int64 // unix nanos at which the operation in progress started, 0 = none
	cases  int
	events int
	seen   map[uint64]bool
	kinds  map[string]int
	sample []any
	missed atomic.Int64 // directed scripts that the real schedule left
}

type shard struct {
	f *os.File
	w *bufio.Writer
	c *bufio.Writer
	g *os.File
	n int
}

const opTimeout = 40 * time.Second

func newCtx(name string, s *Suite, seed int64, tier, out string, n int) *Ctx {
	x := &Ctx{Name: name, suite: s, Seed: seed, Tier: tier, out: out, R: rand.New(rand.NewSource(seed)), seen: map[uint64]bool{}, kinds: map[string]int{}}
	for i := 0; i < n; i++ {
		f, err := os.Create(filepath.Join(out, fmt.Sprintf("%s-%02d.ndjson", name, i)))
		check(err)
		x.shards = append(x.shards, &shard{f: f, w: bufio.NewWriterSize(f, 1<<20)})
	}
	go x.watchdog()
	return x
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(2)
	}
}

func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// Pick returns a if quick and b if thorough.
func (x *Ctx) Pick(a, b int) int {
	if x.Thorough() {
		return b
	}
	return a
}

// Case executes one case and writes its events, in one piece, to the next shard.
func (x *Ctx) Case(c M) {
	if x.collect != nil {
		x.collect(c)
		return
	}
	x.mu.Lock()
	x.cur = x.cur[:0]
	x.curC = c
	x.mu.Unlock()
	// kept for the case that the process dies (a fatal error, or a panic in another goroutine)
	if j, err := json.Marshal(c); err == nil {
		os.WriteFile(filepath.Join(x.out, x.Name+".current"), j, 0o644)
	}
	x.suite.Exec(x, c)
	x.flushCase()
}

// Ev records one event of the current case. The first event of every case carries "case", from which the case can be replayed.
func (x *Ctx) Ev(e M) {
	if x.filter != nil {
		if e = x.filter(e); e == nil {
			return
		}
	}
	if x.cur == nil || len(x.cur) == 0 {
		e["c"] = 1
	} else {
		e["c"] = 0
	}
	x.cur = append(x.cur, e)
}

func (x *Ctx) flushCase() {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.cur) == 0 {
		return
	}
	sh := x.shards[x.next%len(x.shards)]
	x.next++
	x.cases++
	h := fnv.New64a()
	cj, err := json.Marshal(x.curC)
	check(err)
	h.Write(cj)
	x.seen[h.Sum64()] = true
	for _, e := range x.cur {
		b, err := json.Marshal(e)
		check(err)
		sh.w.Write(b)
		sh.w.WriteByte('\n')
		x.events++
		if m, ok := e.(M); ok {
			if k, ok := m["op"].(string); ok {
				x.kinds[k]++
			}
		}
	}
	// the cases themselves, for replays: one line per event, in step with the shard
	if sh.c == nil {
		g, err := os.Create(sh.f.Name() + ".cases")
		check(err)
		sh.g = g
		sh.c = bufio.NewWriterSize(g, 1<<20)
	}
	fmt.Fprintf(sh.c, "%d %s\n", len(x.cur), cj)
	if len(x.sample) < 3 || (x.cases&(x.cases-1)) == 0 && len(x.sample) < 12 {
		if len(cj) < 1500 {
			x.sample = append(x.sample, json.RawMessage(cj))
		}
	}
}

// Do runs f, which calls the code under test, and reports "" or how it failed.
func (x *Ctx) Do(f func()) (failure string) {
	x.start.Store(time.Now().UnixNano())
	defer func() {
		x.start.Store(0)
		if r := recover(); r != nil {
			failure = "panic: " + trunc(fmt.Sprint(r), 200)
		}
	}()
	f()
	return ""
}

func trunc(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	b := []byte(s)
	for i := range b {
		if b[i] < 32 || b[i] > 126 {
			b[i] = '?'
		}
	}
	return string(b)
}

// watchdog ends the run when one operation does not return or eats all memory; the hang becomes the last event of its case.
func (x *Ctx) watchdog() {
	for {
		time.Sleep(250 * time.Millisecond)
		st := x.start.Load()
		if st == 0 {
			continue
		}
		hang := time.Since(time.Unix(0, st)) > opTimeout
		if !hang {
			var ms runtime.MemStats
			if time.Since(time.Unix(0, st)) > time.Second {
				runtime.ReadMemStats(&ms)
				hang = ms.HeapAlloc > 6<<30
			}
		}
		if hang && x.start.Load() == st {
			x.cur = append(x.cur, M{"op": "hang", "c": b2i(len(x.cur) == 0), "fail": "hang: the operation did not return"})
			x.flushCase()
			x.finish()
			os.Exit(0)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (x *Ctx) finish() {
	for _, sh := range x.shards {
		check(sh.w.Flush())
		check(sh.f.Close())
		if sh.c != nil {
			check(sh.c.Flush())
			check(sh.g.Close())
		}
	}
	b, err := json.Marshal(M{"cases": x.cases, "events": x.events, "distinct": len(x.seen), "kinds": x.kinds, "samples": x.sample, "diverged": x.missed.Load()})
	check(err)
	check(os.WriteFile(filepath.Join(x.out, x.Name+".stats.json"), b, 0o644))
}

func readCases(file string) []M {
	f, err := os.Open(file)
	check(err)
	defer f.Close()
	var out []M
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if len(sc.Bytes()) == 0 {
			continue
		}
		var m M
		check(json.Unmarshal(sc.Bytes(), &m))
		out = append(out, m)
	}
	check(sc.Err())
	return out
}

// helpers to read a case that was either built in Go or decoded from JSON

func num(v any) int {
	switch v := v.(type) {
	case int:
		return v
	case float64:
		return int(v)
	case nil:
		return 0
	}
	panic(fmt.Sprintf("not a number: %T", v))
}

func (m M) I(k string) int { return num(m[k]) }
func (m M) S(k string) string {
	s, _ := m[k].(string)
	if strings.Contains(s, badByte) {
		s = strings.ReplaceAll(s, badByte, "\xff")
	}
	return s
}

// badByte stands for a byte that is no UTF-8 (which JSON cannot hold).
const badByte = "\uf8ff"

func (m M) B(k string) bool {
	switch v := m[k].(type) {
	case bool:
		return v
	case nil:
		return false
	}
	return num(m[k]) != 0
}
func (m M) Is(k string) []int { return ints(m[k]) }

func ints(v any) []int {
	switch v := v.(type) {
	case []int:
		return v
	case []any:
		out := make([]int, len(v))
		for i := range v {
			out[i] = num(v[i])
		}
		return out
	case nil:
		return nil
	}
	panic(fmt.Sprintf("not ints: %T", v))
}

func (m M) Ms(k string) []M {
	switch v := m[k].(type) {
	case []M:
		return v
	case []any:
		out := make([]M, len(v))
		for i := range v {
			switch e := v[i].(type) {
			case M:
				out[i] = e
			case map[string]any:
				out[i] = M(e)
			}
		}
		return out
	case nil:
		return nil
	}
	panic(fmt.Sprintf("not objects: %T", m[k]))
}

func (m M) M(k string) M {
	switch v := m[k].(type) {
	case M:
		return v
	case map[string]any:
		return M(v)
	}
	return M{}
}

func (m M) Ss(k string) []string {
	switch v := m[k].(type) {
	case []string:
		return v
	case []any:
		out := make([]string, len(v))
		for i := range v {
			out[i], _ = v[i].(string)
		}
		return out
	}
	return nil
}

func nowNano() int64 { return time.Now().UnixNano() }
