package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/sys/unix"
)

// The suite "app" runs whole applications on pseudo terminals. A case is a script: the command trees the model returns,
// and the steps of the environment (typing, resizing, cancelling, releasing commands, faults).

const (
	settleTimeout = 20 * time.Second
	awaitTimeout  = 25 * time.Second
)

type session struct {
	mu     sync.Mutex
	cond   *sync.Cond
	events []M // everything the worker reported
	ended  bool
	cmds   io.Writer
	acks   int
	sent   int
	vt     *vt
	raw    []byte

	master, slave, omaster, oslave *os.File
	sep, gone                      bool // input and output are different terminals; the output is gone
	cmd                            *exec.Cmd
	stderr                         *strings.Builder

	// bookkeeping, only to know when to stop waiting; the verdict is the specification's
	need map[int]bool // leaves that should be started
	book *book
}

// book mirrors what should still happen.
type book struct {
	keys    int
	started map[int]bool
	ended   map[int]bool
	msgs    map[int]bool
	trees   []M
	ends    func(id int) bool // leaves that end by themselves once they may
	w, h    int
	aw, ah  int
	ver     int
	busy    bool
	drawn   bool
	kdel    int
	held    string // the callback that is held
	inside  string // the callback that was entered last
}

func newBook(w, h int) *book {
	return &book{started: map[int]bool{}, ended: map[int]bool{}, msgs: map[int]bool{}, w: w, h: h}
}

func (s *session) wait(d time.Duration, f func() bool) bool {
	deadline := time.Now().Add(d)
	t := time.AfterFunc(d, func() { s.mu.Lock(); s.cond.Broadcast(); s.mu.Unlock() })
	defer t.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for !f() {
		if time.Now().After(deadline) {
			return false
		}
		s.cond.Wait()
	}
	return true
}

func (s *session) send(c M) bool {
	s.sent++
	c["n"] = s.sent
	b, _ := json.Marshal(c)
	if _, err := s.cmds.Write(append(b, '\n')); err != nil {
		return false
	}
	n := s.sent
	return s.wait(settleTimeout, func() bool { return s.acks >= n || s.ended })
}

func (s *session) on(e M) {
	op := e.S("op")
	if op == "x-ack" {
		s.acks++
		return
	}
	if op == "x-again" { // what the run before did is over
		ends := s.book.ends
		s.events, s.raw, s.book = nil, nil, newBook(s.vt.w, s.vt.h)
		s.book.ends = ends
		return
	}
	s.events = append(s.events, e)
	b := s.book
	switch op {
	case "key":
		b.keys += len(e["ks"].([]any))
	case "resize":
		b.w, b.h = e.I("w"), e.I("h")
	case "init_e", "upd_e":
		b.trees = append(b.trees, e.M("tree"))
		if op == "upd_e" {
			b.ver = e.I("ver")
			b.drawn = false
			b.busy = false
			b.held = ""
		}
	case "x-held":
		b.held = b.inside
	case "panic":
		b.held = ""
	case "upd_b":
		b.busy = true
		b.inside = fmt.Sprint(e.M("m").S("k"), e.M("m").I("id"))
		m := e.M("m")
		switch m.S("k") {
		case "size":
			b.aw, b.ah = m.I("w"), m.I("h")
		case "key":
			b.kdel++
		case "leaf":
			delete(b.msgs, m.I("id"))
		}
	case "rend_b":
		b.busy = true
		b.inside = "render"
	case "rend_e":
		b.held = ""
		b.busy = false
		b.drawn = true
	case "cmd_b":
		b.started[e.I("id")] = true
	case "cmd_e":
		b.ended[e.I("id")] = true
		if e.S("r") == "msg" {
			b.msgs[e.I("id")] = true
		}
	}
}

// enabled reports whether every leaf of t that may run has been started.
func (b *book) allStarted(t M) (started, finished bool) {
	switch t.S("k") {
	case "leaf":
		id := t.I("id")
		return b.started[id], b.ended[id]
	case "batch":
		started, finished = true, true
		for _, c := range t.Ms("ch") {
			s, f := b.allStarted(c)
			started, finished = started && s, finished && f
		}
		return
	case "seq":
		for _, c := range t.Ms("ch") {
			s, f := b.allStarted(c)
			if !f {
				return s, false
			}
		}
	}
	return true, true
}

func (b *book) quiet() bool {
	if b.kdel < b.keys || len(b.msgs) > 0 || b.busy || !b.drawn || b.aw != b.w || b.ah != b.h {
		return false
	}
	for id := range b.started {
		if !b.ended[id] && b.ends(id) {
			return false
		}
	}
	for _, t := range b.trees {
		if s, _ := b.allStarted(t); !s {
			return false
		}
	}
	return true
}

// typed is what can be typed besides control characters: what it looks like on the wire, and as a message.
var typed = map[int]struct {
	bytes, kind, name string
}{
	101: {"\x1b[A", "bento.KeyMsg", "up"},
	102: {"\x1b[<0;3;2M", "bento.MouseMsg", "left press"},
	103: {"\x1b[I", "bento.FocusMsg", "{}"},
	104: {"\x1b[O", "bento.BlurMsg", "{}"},
	105: {"\x1b[200~ab c\x1b[201~", "bento.KeyMsg", "[ab c]"},
	106: {"\x1b[B", "bento.KeyMsg", "down"},
	107: {"\x1b[<35;3;2M", "bento.MouseMsg", "motion"},
	108: {"\x1b[1;6D", "bento.KeyMsg", "ctrl+shift+left"},
	109: {"\x1b[M`!!", "bento.MouseMsg", "wheel up"},
	110: {" ", "bento.KeyMsg", " "},
}

func execApp(x *Ctx, c M) { runApp(x, c, x.Ev) }

func runApp(x *Ctx, c M, emit func(M)) (bad bool) {
	w, h := c.I("w"), c.I("h")
	master, slave, err := openPty()
	check(err)
	defer master.Close()
	omaster, oslave := master, slave
	sep := c.B("sep")
	if sep {
		omaster, oslave, err = openPty()
		check(err)
		defer omaster.Close()
		check(setWinsize(slave, w, h))
	}
	check(setWinsize(oslave, w, h))
	// no echo: the terminal itself would write what was typed but not read when the application ended
	check(setFlags(slave, c.I("flags")))
	if sep {
		check(setFlags(oslave, 0))
	}
	evR, evW, err := os.Pipe()
	check(err)
	cmR, cmW, err := os.Pipe()
	check(err)
	cmd := exec.Command("/proc/self/exe", "worker")
	cmd.Stdin, cmd.Stdout = slave, oslave
	var stderr strings.Builder
	cmd.Stderr = &stderr
	cmd.ExtraFiles = []*os.File{evW, cmR}
	cmd.Env = append([]string{"TERM=xterm-256color", "GOTRACEBACK=single"}, os.Environ()...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if c.B("wronly") { // a terminal that can not be read from
		in, err := os.OpenFile(slave.Name(), os.O_WRONLY|unix.O_NOCTTY, 0)
		check(err)
		defer in.Close()
		cmd.Stdin = in
	}
	if c.B("pipein") { // standard input is not a terminal: the application has to find its controlling terminal
		cmd.Stdin = nil
		cmd.SysProcAttr.Setctty, cmd.SysProcAttr.Ctty = true, 1
	}
	check(cmd.Start())
	evW.Close()
	cmR.Close()

	s := &session{cmds: cmW, vt: newVT(w, h), book: newBook(w, h), master: master, slave: slave, omaster: omaster, oslave: oslave, cmd: cmd, sep: sep, stderr: &stderr}
	s.cond = sync.NewCond(&s.mu)
	go func() { // terminal output
		buf := make([]byte, 65536)
		for {
			n, err := omaster.Read(buf)
			s.mu.Lock()
			if n > 0 {
				s.vt.write(buf[:n])
				s.raw = append(s.raw, buf[:n]...)
			}
			s.cond.Broadcast()
			s.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	if sep {
		go io.Copy(io.Discard, master)
	}
	go func() { // events
		sc := bufio.NewScanner(evR)
		sc.Buffer(make([]byte, 1<<16), 1<<24)
		for sc.Scan() {
			var e M
			if json.Unmarshal(sc.Bytes(), &e) != nil {
				continue
			}
			s.mu.Lock()
			s.on(e)
			s.cond.Broadcast()
			s.mu.Unlock()
		}
		s.mu.Lock()
		s.ended = true
		s.cond.Broadcast()
		s.mu.Unlock()
	}()
	defer func() {
		cmW.Close()
		cmd.Process.Kill()
		cmd.Wait()
		evR.Close()
		slave.Close()
		if sep {
			oslave.Close()
		}
	}()

	bad = s.runScript(x, c, true, emit)
	if again := c.M("again"); len(again) > 0 && !bad && !s.gone && !s.ended {
		bad = s.runScript(x, again, false, emit)
	}
	return bad
}

// runScript runs one application on the terminal, the first one of its process or another one.
func (s *session) runScript(x *Ctx, c M, first bool, emit func(M)) (bad bool) {
	master, slave, omaster, oslave, cmd, sep := s.master, s.slave, s.omaster, s.oslave, s.cmd, s.sep
	if !first { // somebody changed the line settings meanwhile
		check(setFlags(slave, c.I("flags")))
	}
	before, err := termios(slave)
	check(err)
	obefore, err := termios(oslave)
	check(err)
	released, allReleased := map[int]bool{}, false
	leaves := allLeaves(c)
	s.book.ends = func(id int) bool {
		l := leaves[id]
		return l.S("r") != "panic" && l.S("r") != "never" && (!l.B("g") || allReleased || released[id])
	}
	drained := 0
	emit(M{"op": "start", "w": s.vt.w, "h": s.vt.h})
	if c.B("wronly") {
		emit(M{"op": "fault", "what": "in"})
	}
	drainLocked := func() {
		for ; drained < len(s.events); drained++ {
			e := s.events[drained]
			if !strings.HasPrefix(e.S("op"), "x-") {
				emit(e)
			}
		}
	}
	drain := func() {
		s.mu.Lock()
		defer s.mu.Unlock()
		drainLocked()
	}
	has := func(op string) bool {
		for i := len(s.events) - 1; i >= 0; i-- {
			if s.events[i].S("op") == op {
				return true
			}
		}
		return false
	}
	over := func() bool { return s.ended || has("ret") }

	if first {
		b, _ := json.Marshal(c) // the script itself is not acknowledged
		s.cmds.Write(append(b, '\n'))
	} else {
		s.send(M{"do": "again", "script": c})
	}
	if !c.B("precancel") && !c.B("initpanic") {
		s.wait(settleTimeout, func() bool { return has("init_b") || over() })
	}
	missed := 0
	// soon waits until f holds; meanwhile it lets callbacks return that the script did not foresee here.
	soon := func(f func() bool) {
		for i := 0; i < 12; i++ {
			if s.wait(12*time.Millisecond, func() bool { return f() || over() }) {
				return
			}
			s.mu.Lock()
			held := s.book.held
			s.mu.Unlock()
			if held == "" {
				i += 3
				continue
			}
			s.send(M{"do": "grant"})
			s.wait(12*time.Millisecond, func() bool { return s.book.held == "" })
		}
		missed++
	}
	for _, st := range c.Ms("steps") {
		if missed > 4 { // the real schedule has diverged for good
			break
		}
		switch st.S("do") {
		case "key":
			ks := st.Is("ks")
			s.send(M{"do": "log", "op": "key", "ev": M{"ks": ks}})
			var b []byte
			for _, k := range ks {
				if k < 32 {
					b = append(b, byte(k))
				} else {
					b = append(b, typed[k].bytes...)
				}
			}
			master.Write(b)
		case "resize":
			s.send(M{"do": "log", "op": "resize", "ev": M{"w": st.I("w"), "h": st.I("h")}})
			s.mu.Lock()
			s.vt.resize(st.I("w"), st.I("h"))
			s.mu.Unlock()
			setWinsize(oslave, st.I("w"), st.I("h"))
			cmd.Process.Signal(syscall.SIGWINCH)
		case "flap": // the window becomes smaller and gets its size back before anyone looks
			w, h := s.vt.w, s.vt.h
			s.send(M{"do": "log", "op": "resize", "ev": M{"w": 1, "h": 1}})
			s.send(M{"do": "log", "op": "resize", "ev": M{"w": w, "h": h}})
			s.mu.Lock()
			s.vt.resize(1, 1)
			s.vt.resize(w, h)
			s.mu.Unlock()
			setWinsize(oslave, 1, 1)
			setWinsize(oslave, w, h)
			cmd.Process.Signal(syscall.SIGWINCH)
		case "cancel", "unhold", "releaseall":
			if st.S("do") == "releaseall" {
				allReleased = true
			}
			s.send(M{"do": st.S("do")})
		case "hold":
			s.mu.Lock()
			keep := s.events[:0:0]
			for _, e := range s.events { // forget older holds
				if e.S("op") == "x-held" {
					e = M{"op": "x-done"}
				}
				keep = append(keep, e)
			}
			s.events = keep
			s.mu.Unlock()
			s.send(M{"do": "hold", "what": st.S("what")})
		case "ub", "rb": // directed scripts: the callback is entered and held ...
			want := st.S("k")
			if st.S("do") == "rb" {
				want = "render"
			}
			soon(func() bool { return s.book.held == want })
		case "ue", "re": // ... and returns
			s.mu.Lock()
			held := s.book.held
			s.mu.Unlock()
			if held != "" {
				s.send(M{"do": "grant"})
				s.wait(50*time.Millisecond, func() bool { return s.book.held == "" || over() })
			}
		case "cb":
			id := st.I("id")
			soon(func() bool { return s.book.started[id] })
		case "ce":
			id := st.I("id")
			released[id] = true
			s.send(M{"do": "release", "id": id})
			soon(func() bool { return s.book.ended[id] || !s.book.ends(id) })
		case "waitheld":
			s.wait(settleTimeout, func() bool { return has("x-held") || over() })
		case "release":
			released[st.I("id")] = true
			s.send(M{"do": "release", "id": st.I("id")})
		case "waitstart":
			id := st.I("id")
			s.wait(settleTimeout, func() bool { return s.book.started[id] || over() })
		case "closeout":
			s.send(M{"do": "log", "op": "fault", "ev": M{"what": "out"}})
			s.gone = true
			omaster.Close()
			awaitHangup(oslave)
		case "closein":
			s.send(M{"do": "log", "op": "fault", "ev": M{"what": "in"}})
			master.Close()
			awaitHangup(slave)
			if !sep {
				s.gone = true
			}
		case "sleep":
			time.Sleep(time.Duration(st.I("us")) * time.Microsecond)
		case "settle":
			rest := func() bool {
				if over() {
					return true
				}
				if !s.book.quiet() {
					return false
				}
				u := s.vt.uniform()
				return u == "none" || u == letter(s.book.ver)
			}
			ok := false
			for until := time.Now().Add(settleTimeout); ; {
				ok = s.wait(time.Until(until), rest)
				// grace period: is anything delivered, started or drawn twice?
				time.Sleep(time.Duration(x.gracems(c)) * time.Millisecond)
				s.mu.Lock()
				if !ok || rest() { // otherwise something was still on its way
					break
				}
				s.mu.Unlock()
			}
			drainLocked()
			emit(M{"op": "settle", "ok": b2i(ok), "ch": s.vt.uniform(), "alt": b2i(s.vt.alt), "cur": b2i(s.vt.cursor), "w": s.vt.w, "h": s.vt.h, "odd": s.vt.odd})
			s.mu.Unlock()
			bad = bad || !ok
		}
		drain()
	}

	if c.B("directed") {
		s.send(M{"do": "unhold"})
		if !s.wait(30*time.Millisecond, over) {
			s.send(M{"do": "releaseall"})
			s.send(M{"do": "log", "op": "key", "ev": M{"ks": []int{quitKey}}})
			master.Write([]byte{quitKey})
			drain()
		}
	}
	x.missed.Add(int64(b2i(missed > 0)))

	// the run has to end now
	ended := s.wait(awaitTimeout, over)
	if !ended {
		s.send(M{"do": "stacks"})
		drain()
		st := ""
		s.mu.Lock()
		for _, e := range s.events {
			if e.S("op") == "x-stacks" {
				st = e.S("s")
			}
		}
		s.mu.Unlock()
		emit(M{"op": "hang", "where": trunc(blocked(st), 300)})
		emit(termStatus(s, slave, oslave, before, obefore, s.gone, sep))
		return true
	}
	s.mu.Lock()
	crashed := s.ended && !has("ret")
	s.mu.Unlock()
	if crashed {
		cmd.Wait()
		drain()
		emit(M{"op": "crash", "msg": trunc(s.stderr.String(), 160)})
		emit(termStatus(s, slave, oslave, before, obefore, s.gone, sep))
		return true
	}
	tail := ""
	if !s.gone { // read everything that was written to the terminal before Run returned
		_, tail = s.marker(oslave, 1)
	}
	drain()
	st := termStatus(s, slave, oslave, before, obefore, s.gone, sep)
	st["tail"] = tail
	emit(st)

	// afterwards: leftover commands finish (also by panicking); nothing may happen to the terminal or the process any more
	s.send(M{"do": "releaseall"})
	s.send(M{"do": "unhold"})
	time.Sleep(time.Duration(x.Pick(4, 12)) * time.Millisecond)
	late, seen := 0, ""
	if !s.gone {
		late, seen = s.marker(oslave, 2)
	}
	s.mu.Lock()
	alive := !s.ended
	s.mu.Unlock()
	drain()
	emit(M{"op": "late", "bytes": late, "seen": seen, "alive": b2i(alive)})
	if alive && c.B("readback") && !strings.Contains(fmt.Sprint(c["steps"]), "closein") {
		// flush what the application did not consume, then type a line: it must reach the next reader of the terminal
		unix.IoctlSetInt(int(slave.Fd()), unix.TCFLSH, unix.TCIFLUSH)
		s.send(M{"do": "readback"})
		time.Sleep(2 * time.Millisecond)
		master.Write([]byte("hello\n"))
		s.wait(4*time.Second, func() bool { return has("x-readback") || s.ended })
		got := ""
		s.mu.Lock()
		for _, e := range s.events {
			if e.S("op") == "x-readback" {
				got = e.S("got")
			}
		}
		s.mu.Unlock()
		emit(M{"op": "readback", "ok": b2i(got == "hello\n"), "got": trunc(got, 20)})
	}
	return bad
}

// allLeaves finds the commands of a script.
func allLeaves(c M) map[int]M {
	out := map[int]M{}
	var walk func(t M)
	walk = func(t M) {
		if t.S("k") == "leaf" {
			out[t.I("id")] = t
		}
		for _, ch := range t.Ms("ch") {
			walk(ch)
		}
	}
	walk(c.M("init"))
	for k := range c.M("keys") {
		walk(c.M("keys").M(k).M("tree"))
	}
	for k := range c.M("then") {
		walk(c.M("then").M(k))
	}
	return out
}

func (x *Ctx) gracems(c M) int {
	if c.B("grace") {
		return 30
	}
	return 5
}

// awaitHangup waits until the other side of the terminal is really closed: a process forked meanwhile holds it open for a moment.
func awaitHangup(f *os.File) {
	for i := 0; i < 1000; i++ {
		p := []unix.PollFd{{Fd: int32(f.Fd())}}
		if n, _ := unix.Poll(p, 10); n > 0 && p[0].Revents&unix.POLLHUP != 0 {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

// marker writes a marker to the terminal after everything the application wrote, waits until it has been read, and
// returns how many bytes came before it (since the previous marker).
func (s *session) marker(slave *os.File, n int) (int, string) {
	m := fmt.Sprintf("\x1b]777;mark%d\a", n)
	slave.WriteString(m)
	at := -1
	s.wait(settleTimeout, func() bool {
		at = bytes.Index(s.raw, []byte(m))
		return at >= 0
	})
	s.mu.Lock()
	defer s.mu.Unlock()
	seen := trunc(string(s.raw[max(0, len(s.raw)-200):]), 200)
	if at >= 0 {
		seen = trunc(string(s.raw[max(0, at-3000):at]), 3000)
		s.raw = s.raw[at+len(m):]
	}
	return at, seen
}

func blocked(stacks string) string {
	var out []string
	for _, g := range strings.Split(stacks, "\n\n") {
		if strings.Contains(g, "bento.") && strings.Contains(g, "appRunner") {
			lines := strings.Split(g, "\n")
			for _, l := range lines {
				if strings.Contains(l, "appRunner") {
					out = append(out, lines[0]+" "+strings.TrimSpace(l))
					break
				}
			}
		}
	}
	return strings.Join(out, " | ")
}

func termStatus(s *session, slave, oslave *os.File, before, obefore unix.Termios, outClosed, sep bool) M {
	after, err := termios(slave)
	same := err == nil && after == before
	if err != nil { // the terminal itself is gone
		same = true
	}
	if sep {
		oafter, err := termios(oslave)
		same = same && (err != nil || oafter == obefore)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return M{"op": "term", "same": b2i(same), "alt": b2i(s.vt.alt), "cur": b2i(s.vt.cursor), "paste": b2i(s.vt.paste), "gone": b2i(outClosed)}
}

func init() {
	suites["app"] = &Suite{Gen: genApp, Exec: execApp}
}

// runParallel executes many scripts at once; events of one case stay together.
func (x *Ctx) runParallel(cases []M, par int, exec func(c M, emit func(M)) bool) {
	type res struct {
		c  M
		ev []any
	}
	in := make(chan M)
	out := make(chan res)
	var bads atomic.Int64
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range in {
				if bads.Load() >= 6 {
					continue
				}
				var ev []any
				t0 := time.Now()
				defer0 := func() {
					if d := time.Since(t0); d > time.Second && os.Getenv("VH_SLOW") != "" {
						b, _ := json.Marshal(c)
						fmt.Fprintln(os.Stderr, "slow", d, string(b))
					}
				}
				if exec(c, func(e M) { e["c"] = b2i(len(ev) == 0); ev = append(ev, e) }) {
					bads.Add(1)
				}
				defer0()
				out <- res{c, ev}
			}
		}()
	}
	go func() {
		for _, c := range cases {
			in <- c
		}
		close(in)
		wg.Wait()
		close(out)
	}()
	for r := range out {
		x.mu.Lock()
		x.curC, x.cur = r.c, r.ev
		x.mu.Unlock()
		x.flushCase()
		x.mu.Lock()
		x.cur = nil
		x.mu.Unlock()
	}
}
