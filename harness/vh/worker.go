package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/metafates/bento"
)

// The worker process runs one bento application on the terminal that its parent gave it as stdin and stdout. It reports
// every callback as an event on fd 3, one JSON line each, in the order in which they happened, and obeys the parent's
// commands from fd 4.

type worker struct {
	mu     sync.Mutex
	cond   *sync.Cond
	out    *os.File
	script M

	holdUpd, holdRend bool
	gates             map[int]bool // released leaves
	allGates          bool
	renders           int
	grants            int          // callbacks that may return although hold is on
	used              map[int]bool // roots of the trees already returned (directed scripts)
	ctx               context.Context
	cancel            context.CancelFunc
	dead              bool // the run is over and another one has begun
}

func (w *worker) ev(e M) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.evLocked(e)
}

func (w *worker) evLocked(e M) {
	if w.dead {
		return
	}
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	w.out.Write(append(b, '\n'))
}

func newWorker(out *os.File) *worker {
	w := &worker{out: out, gates: map[int]bool{}, used: map[int]bool{}}
	w.cond = sync.NewCond(&w.mu)
	return w
}

func workerMain(args []string) {
	w := newWorker(os.NewFile(3, "events"))
	in := bufio.NewScanner(os.NewFile(4, "commands"))
	in.Buffer(make([]byte, 1<<16), 1<<24)
	if !in.Scan() {
		os.Exit(3)
	}
	if err := json.Unmarshal(in.Bytes(), &w.script); err != nil {
		panic(err)
	}
	w.prepare()
	go w.run()
	for in.Scan() {
		var c M
		if err := json.Unmarshal(in.Bytes(), &c); err != nil {
			panic(err)
		}
		if c.S("do") == "again" { // another application in the same process
			w2 := newWorker(w.out)
			w2.script = c.M("script")
			w.mu.Lock()
			w.dead = true
			w.mu.Unlock()
			w = w2
			w.ev(M{"op": "x-again"})
			w.prepare()
			go w.run()
			w.ev(M{"op": "x-ack", "n": c.I("n")})
			continue
		}
		w.command(c)
	}
	os.Exit(0)
}

func (w *worker) prepare() {
	if w.script.B("directed") {
		w.holdUpd, w.holdRend = true, true
	}
	w.ctx, w.cancel = context.WithCancel(context.Background())
	if w.script.B("precancel") {
		w.ev(M{"op": "cancel"})
		w.cancel()
	}
}

var theApp *bento.App // and its model
var theModel *model

func (w *worker) run() {
	if theApp == nil || !w.script.B("reuse") {
		theModel = &model{w: w, ver: 0}
		a := bento.NewApp(theModel)
		theApp = &a
	}
	theModel.w = w
	app := *theApp
	if !w.script.B("noctx") {
		app = app.WithContext(w.ctx)
	}
	m, err := app.Run()
	e := M{"op": "ret", "ver": -1, "err": "other", "msg": ""}
	if mm, ok := m.(*model); ok && mm != nil {
		e["ver"] = mm.ver
	}
	switch {
	case err == nil:
		e["err"] = "nil"
	case errors.Is(err, bento.ErrKilled):
		e["err"] = "killed"
	}
	if err != nil {
		e["msg"] = trunc(err.Error(), 100)
	}
	w.ev(e)
}

func (w *worker) command(c M) {
	switch c.S("do") {
	case "log": // the parent is about to do something to the terminal
		e := c.M("ev")
		e["op"] = c.S("op")
		w.ev(e)
	case "cancel":
		w.ev(M{"op": "cancel"})
		w.cancel()
	case "hold":
		w.mu.Lock()
		if c.S("what") == "render" {
			w.holdRend = true
		} else {
			w.holdUpd = true
		}
		w.mu.Unlock()
	case "unhold":
		w.mu.Lock()
		w.holdUpd, w.holdRend = false, false
		w.cond.Broadcast()
		w.mu.Unlock()
	case "grant":
		w.mu.Lock()
		w.grants = 1
		w.cond.Broadcast()
		w.mu.Unlock()
	case "release":
		w.mu.Lock()
		w.gates[c.I("id")] = true
		w.cond.Broadcast()
		w.mu.Unlock()
	case "releaseall":
		w.mu.Lock()
		w.allGates = true
		w.cond.Broadcast()
		w.mu.Unlock()
	case "stacks":
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		w.ev(M{"op": "x-stacks", "s": string(buf[:n])})
	case "readback": // after Run returned: does input typed now reach us, or does the application still swallow it?
		go func() {
			b := make([]byte, 64)
			n, err := os.Stdin.Read(b)
			w.ev(M{"op": "x-readback", "got": string(b[:n]), "err": fmt.Sprint(err)})
		}()
	}
	w.ev(M{"op": "x-ack", "n": c.I("n")})
}

type model struct {
	w   *worker
	ver int
}

type leafMsg struct{ id int }

func letter(ver int) string { return string(rune('a' + ver%26)) }

func (m *model) jitter() {
	j := m.w.script.I("jitter")
	if j == 0 {
		return
	}
	switch (m.ver*7 + j) % 4 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(j%5) * 100 * time.Microsecond)
	}
}

func (m *model) Init() bento.Cmd {
	w := m.w
	w.ev(M{"op": "init_b"})
	if w.script.B("initpanic") {
		w.ev(M{"op": "panic", "in": "init", "id": 0})
		panic("init boom")
	}
	t := w.script.M("init")
	w.used[t.I("id")] = true
	cmd := w.build(t)
	w.ev(M{"op": "init_e", "tree": tree(t)})
	return cmd
}

func (m *model) Render(area bento.Rect, buffer *bento.Buffer) {
	w := m.w
	w.mu.Lock()
	w.renders++
	n := w.renders
	w.evLocked(M{"op": "rend_b", "ver": m.ver, "x": area.X, "y": area.Y, "w": area.Width, "h": area.Height})
	if n == w.script.I("renderpanic") {
		w.evLocked(M{"op": "panic", "in": "render", "id": 0})
		w.mu.Unlock()
		panic("render boom")
	}
	if w.holdRend {
		w.evLocked(M{"op": "x-held"})
		for w.holdRend && w.grants == 0 {
			w.cond.Wait()
		}
		w.grants = 0
	}
	w.mu.Unlock()
	m.jitter()
	for y := area.Top(); y < area.Bottom(); y++ {
		for x := area.Left(); x < area.Right(); x++ {
			c := letter(m.ver)
			if x%2 == 1 { // also something that never changes
				c = "="
			}
			buffer.CellAt(bento.NewPosition(x, y)).SetSymbol(c)
		}
	}
	w.ev(M{"op": "rend_e"})
}

func (m *model) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	w := m.w
	var t M
	boom := false
	d := M{"k": "other", "id": 0, "w": 0, "h": 0}
	switch v := msg.(type) {
	case nil:
		d["k"] = "nil"
	case bento.QuitMsg:
		d["k"] = "quit"
	case bento.BatchMsg:
		d["k"] = "internal"
	case bento.WindowSizeMsg:
		d["k"], d["w"], d["h"] = "size", v.Width, v.Height
	case leafMsg:
		d["k"], d["id"] = "leaf", v.id
		t = w.script.M("then").M(fmt.Sprint(v.id))
	case bento.KeyMsg:
		if v.Type > 0 && v.Type <= 31 && !v.Alt && !v.Paste {
			d["k"], d["id"] = "key", int(v.Type)
			k := w.script.M("keys").M(fmt.Sprint(int(v.Type)))
			t = k.M("tree")
			boom = k.B("panic")
		}
	default:
		if fmt.Sprintf("%T", msg) == "bento.sequenceMsg" {
			d["k"] = "internal"
		}
	}
	if d["k"] == "other" {
		for id, ty := range typed {
			if fmt.Sprintf("%T", msg) == ty.kind && fmt.Sprint(msg) == ty.name {
				d["k"], d["id"] = "key", id
				break
			}
		}
	}
	w.mu.Lock()
	w.evLocked(M{"op": "upd_b", "ver": m.ver, "m": d})
	if w.holdUpd {
		w.evLocked(M{"op": "x-held"})
		for w.holdUpd && w.grants == 0 {
			w.cond.Wait()
		}
		w.grants = 0
	}
	w.mu.Unlock()
	m.jitter()
	if boom {
		w.ev(M{"op": "panic", "in": "update", "id": 0})
		panic("update boom")
	}
	if w.script.B("directed") && t.I("id") != 0 { // each tree is used once
		w.mu.Lock()
		if w.used[t.I("id")] {
			t = nil
		} else {
			w.used[t.I("id")] = true
		}
		w.mu.Unlock()
	}
	cmd := w.build(t)
	w.ev(M{"op": "upd_e", "ver": m.ver + 1, "tree": tree(t)})
	return &model{w: w, ver: m.ver + 1}, cmd
}

// tree normalises a command tree for the trace.
func tree(t M) M {
	switch t.S("k") {
	case "leaf":
		return M{"k": "leaf", "id": t.I("id"), "r": t.S("r"), "ch": []M{}}
	case "batch", "seq":
		ch := []M{}
		for _, c := range t.Ms("ch") {
			ch = append(ch, tree(c))
		}
		return M{"k": t.S("k"), "id": 0, "r": "", "ch": ch}
	}
	return M{"k": "nil", "id": 0, "r": "", "ch": []M{}}
}

func (w *worker) build(t M) bento.Cmd {
	switch t.S("k") {
	case "leaf":
		return w.leaf(t)
	case "batch", "seq":
		var cmds []bento.Cmd
		for i, c := range t.Ms("ch") {
			cmd := w.build(c)
			if (len(t.Ms("ch"))+i)%3 == 0 {
				cmds = append(cmds, nil)
			}
			cmds = append(cmds, cmd)
		}
		// constructors leave the slice they are given alone: it can be used again
		_, _ = bento.Batch(cmds...), bento.Sequence(cmds...)
		if t.S("k") == "batch" {
			if t.B("raw") {
				return func() bento.Msg { return bento.BatchMsg(cmds) }
			}
			return bento.Batch(cmds...)
		}
		return bento.Sequence(cmds...)
	}
	return nil
}

func (w *worker) leaf(t M) bento.Cmd {
	id, r, gated := t.I("id"), t.S("r"), t.B("g")
	due := time.Time{}
	body := func() bento.Msg {
		w.mu.Lock()
		w.evLocked(M{"op": "cmd_b", "id": id, "early": b2i(time.Now().Before(due))})
		for gated && !w.gates[id] && !w.allGates {
			w.cond.Wait()
		}
		w.mu.Unlock()
		switch r {
		case "never":
			select {}
		case "panic":
			w.ev(M{"op": "panic", "in": "cmd", "id": id})
			panic(fmt.Sprintf("command %d boom", id))
		}
		w.ev(M{"op": "cmd_e", "id": id, "r": r})
		switch r {
		case "quit":
			return bento.Quit()
		case "nil":
			return nil
		}
		return leafMsg{id}
	}
	if t.B("tick") {
		d := time.Duration(1+id%3) * time.Millisecond
		due = time.Now().Add(d)
		return bento.Tick(d, func(at time.Time) bento.Msg {
			if at.Before(due) {
				due = due.Add(time.Hour)
			}
			return body()
		})
	}
	return body
}
