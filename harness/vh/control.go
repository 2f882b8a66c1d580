package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/metafates/bento"
	"golang.org/x/sys/unix"
)

// Suite "control": operations of the real terminal and backend on a pseudo terminal, on a plain writer, and on a writer that fails.

func init() { suites["control"] = &Suite{Gen: genControl, Exec: execControl} }

var ctlPty *screenPty
var ctlLines []unix.Termios // the user's line settings, by number

// lineOf is the number of the line settings, -1 for raw mode, -9 for anything else.
func lineNo(f *os.File) int {
	t, err := termios(f)
	check(err)
	for i, u := range ctlLines {
		if t == u {
			return i
		}
	}
	if t.Lflag&(unix.ECHO|unix.ICANON|unix.ISIG|unix.IEXTEN) == 0 && t.Iflag&(unix.ICRNL|unix.IXON|unix.ISTRIP|unix.INLCR) == 0 && t.Oflag&unix.OPOST == 0 {
		return -1
	}
	return -9
}

func setLine(f *os.File, k int) {
	t := ctlLines[k]
	check(unix.IoctlSetTermios(int(f.Fd()), unix.TCSETS, &t))
}

var errBroken = errors.New("broken on purpose")

// brokenWriter takes so many bytes and then fails, in one of several ways.
type brokenWriter struct {
	buf  bytes.Buffer
	left int
	how  int
}

func (w *brokenWriter) Write(p []byte) (int, error) {
	if w.left < 0 {
		return 0, errBroken
	}
	if len(p) <= w.left {
		w.left -= len(p)
		return w.buf.Write(p)
	}
	n := w.left
	w.left = -1
	w.buf.Write(p[:n])
	if w.how == 1 {
		return n, io.ErrClosedPipe
	}
	return n, errBroken
}

func execControl(x *Ctx, c M) {
	asciiOnly = true
	w, h, kind := c.I("w"), c.I("h"), c.S("kind")
	if ctlPty == nil {
		m, s, err := openPty()
		check(err)
		for k := 0; k < 4; k++ {
			check(setFlags(s, 1<<k>>1))
			t, err := termios(s)
			check(err)
			ctlLines = append(ctlLines, t)
		}
		ctlPty = &screenPty{m: m, s: s, data: make(chan []byte, 1000)}
		go func() {
			for {
				b := make([]byte, 1<<16)
				n, err := m.Read(b)
				if n > 0 {
					ctlPty.data <- b[:n]
				}
				if err != nil {
					close(ctlPty.data)
					return
				}
			}
		}()
	}
	p := ctlPty
	setLine(p.s, c.I("line"))
	check(setWinsize(p.m, w, h))
	setProfile("ansi")
	var in io.Reader = p.s
	var out io.Writer = p.s
	text := strings.NewReader(c.S("text"))
	var broken *brokenWriter
	var buf bytes.Buffer
	switch kind {
	case "buf":
		in, out = text, &buf
	case "half": // only the output is a terminal
		in = text
	case "faulty":
		broken = &brokenWriter{left: c.I("budget"), how: c.I("how")}
		out = broken
	}
	take := func() []byte {
		switch kind {
		case "buf":
			b := append([]byte{}, buf.Bytes()...)
			buf.Reset()
			return b
		case "faulty":
			b := append([]byte{}, broken.buf.Bytes()...)
			broken.buf.Reset()
			return b
		}
		return p.take()
	}
	var be bento.DefaultBackend
	var t *bento.Terminal
	var view bento.Viewport = bento.ViewportFixed(bento.NewRect(w, h))
	if kind == "tty" || kind == "half" {
		view = bento.ViewportFullscreen{}
	}
	// line settings cannot change where the input is no terminal: the trace then says what they were
	e := M{"op": "start", "w": w, "h": h, "line": c.I("line"), "fail": ""}
	e["fail"] = x.Do(func() {
		be = bento.NewDefaultBackend(in, out)
		var err error
		if t, err = bento.NewTerminal(&be, view); err != nil {
			panic(err)
		}
	})
	x.Ev(e)
	if e.S("fail") != "" {
		return
	}
	take()
	for _, o := range c.Ms("ops") {
		op := o.S("op")
		e := M{"op": op, "x": o.I("x"), "y": o.I("y"), "on": o.I("on"), "fail": "", "err": 0, "faulty": b2i(kind == "faulty")}
		var err error
		if op == "raw" && (kind == "buf" || kind == "half") {
			e["op"] = "rawless" // there are no line settings to change
		}
		switch op {
		case "scribble":
			b := []byte(fmt.Sprintf("\x1b[1;1H%s\x1b[%d;%dH", strings.Repeat("ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1+w*h/26)[:w*h], o.I("y")%h+1, o.I("x")%w+1))
			if kind == "tty" || kind == "half" {
				_, err = p.s.Write(b)
				check(err)
				b = take()
			}
			e["ts"] = printTokens(b)
			x.Ev(e)
			continue
		case "settings":
			setLine(p.s, o.I("k"))
			e["line"] = o.I("k")
			x.Ev(e)
			continue
		case "winsize":
			w, h = o.I("w"), o.I("h")
			check(setWinsize(p.m, w, h))
			e["w"], e["h"] = w, h
			e["fail"] = x.Do(func() { err = t.Resize(bento.NewRect(w, h)) })
			take()
			x.Ev(e)
			continue
		case "size":
			var s bento.Size
			var ok bool
			e["fail"] = x.Do(func() {
				if o.I("on") == 1 {
					s, ok, err = t.Size()
				} else {
					s, ok, err = be.GetSize()
				}
			})
			e["got"], e["tty"] = []int{s.Width, s.Height, b2i(ok)}, b2i(kind == "tty" || kind == "half")
		case "read":
			n := text.Len()
			full := c.S("text")[len(c.S("text"))-n:]
			k := min(o.I("x"), n)
			b := make([]byte, o.I("x"))
			var got int
			e["fail"] = x.Do(func() { got, err = t.Read(b) })
			e["want"], e["got"] = byteInts([]byte(full[:k])), byteInts(b[:got])
		case "self":
			e["fail"] = x.Do(func() { e["got"] = []int{b2i(t.Input() == in), b2i(t.Output() == out), b2i(t.Viewport() == view)} })
		case "draw":
			cells, fr := []any{}, []string{}
			for i := 0; i < w*h; i++ {
				s := string(rune('a' + (i*o.I("x")+o.I("y"))%26))
				cells, fr = append(cells, []any{s, "reset", "reset", 0}), append(fr, s)
			}
			e["fr"] = fr
			e["fail"] = x.Do(func() {
				if err = t.Clear(); err == nil {
					_, err = t.Draw(&frameWidget{cells: cells})
				}
			})
		default:
			on := o.I("on") == 1
			e["fail"] = x.Do(func() {
				switch op {
				case "pos":
					err = t.SetCursorPosition(bento.NewPosition(o.I("x"), o.I("y")))
				case "cursor":
					if on {
						err = t.ShowCursor()
					} else {
						err = t.HideCursor()
					}
				case "paste":
					if on {
						err = t.EnableBracketedPaste()
					} else {
						err = t.DisableBracketedPaste()
					}
				case "alt":
					if on {
						err = t.EnableAlternateScreen()
					} else {
						err = t.LeaveAlternateScreen()
					}
				case "raw":
					if on {
						err = t.EnableRawMode()
					} else {
						err = t.DisableRawMode()
					}
				case "all":
					err = be.ClearAll()
				case "after":
					err = be.ClearAfterCursor()
				case "before":
					err = be.ClearBeforeCursor()
				case "line":
					err = be.ClearCurrentLine()
				case "until":
					err = be.ClearUntilNewLine()
				}
			})
		}
		e["err"] = b2i(err != nil)
		if op != "read" && op != "self" && op != "size" {
			b := take()
			e["ts"] = printTokens(b)
			e["line"] = lineNo(p.s)
			if e.I("err") == 1 {
				e["ts"] = []M{} // may be cut anywhere
			}
		}
		x.Ev(e)
		if e.S("fail") != "" {
			return
		}
	}
}

func genControl(x *Ctx) {
	one := func(op string, on int) M { return M{"op": op, "on": on} }
	modes := []string{"cursor", "paste", "alt", "raw"}
	clears := []string{"all", "after", "before", "line", "until"}
	pos := func(x, y int) M { return M{"op": "pos", "x": x, "y": y} }
	rndOp := func(w, h int) M {
		switch x.R.Intn(9) {
		case 0, 1:
			return pos(x.R.Intn(w+2), x.R.Intn(h+2))
		case 2, 3:
			m := modes[x.R.Intn(4)]
			return one(m, x.R.Intn(2))
		case 4, 5:
			return one(clears[x.R.Intn(5)], 1)
		case 6:
			return M{"op": "draw", "x": 1 + x.R.Intn(5), "y": x.R.Intn(26)}
		case 7:
			return M{"op": "size", "on": x.R.Intn(2)}
		}
		return M{"op": "self"}
	}
	scribble := func(w, h int) M { return M{"op": "scribble", "x": x.R.Intn(w), "y": x.R.Intn(h)} }
	// every clearing at every place of a small terminal, on either screen
	for _, kind := range []string{"tty", "buf"} {
		for _, cl := range clears {
			for _, alt := range []int{0, 1} {
				ops := []M{scribble(4, 3), one("alt", alt)}
				for px := 0; px < 4; px++ {
					for py := 0; py < 3; py++ {
						ops = append(ops, scribble(4, 3), pos(px, py), one(cl, 1))
					}
				}
				x.Case(M{"w": 4, "h": 3, "kind": kind, "line": x.R.Intn(4), "ops": append(ops, one("alt", 1-alt), one("alt", 0))})
			}
		}
	}
	// raw mode among changes of the line settings
	for i := 0; i < 64; i++ {
		ops := []M{}
		for k := 0; k < 6; k++ {
			switch {
			case i>>k&1 == 1:
				ops = append(ops, one("raw", 1))
			case k%2 == 0:
				ops = append(ops, one("raw", 0))
			default:
				ops = append(ops, M{"op": "settings", "k": x.R.Intn(4)})
			}
		}
		x.Case(M{"w": 3, "h": 2, "kind": "tty", "line": i % 4, "ops": append(ops, one("raw", 0))})
	}
	// places far out
	for _, kind := range []string{"tty", "buf"} {
		for _, d := range [][]int{{400, 1}, {1, 400}, {1200, 1}, {1, 1200}} {
			ops := []M{scribble(d[0], d[1])}
			for n := 0; n < 12; n++ {
				ops = append(ops, pos(x.R.Intn(d[0]), x.R.Intn(d[1])), one(clears[x.R.Intn(5)], 1))
			}
			x.Case(M{"w": d[0], "h": d[1], "kind": kind, "line": 0, "ops": append(ops, M{"op": "size", "on": 1})})
		}
	}
	for i := 0; i < x.Pick(400, 6000); i++ {
		kind := []string{"tty", "tty", "buf", "half", "faulty"}[x.R.Intn(5)]
		w, h := 1+x.R.Intn(7), 1+x.R.Intn(4)
		c := M{"w": w, "h": h, "kind": kind, "line": x.R.Intn(4), "text": "some text to be read\x1b[A\x00\xff"[:x.R.Intn(24)]}
		if kind == "faulty" {
			c["budget"], c["how"] = []int{0, 1, 5, x.R.Intn(60), x.R.Intn(400)}[x.R.Intn(5)], x.R.Intn(2)
		}
		ops := []M{}
		if kind != "faulty" {
			ops = append(ops, scribble(w, h))
		}
		for n := 3 + x.R.Intn(14); n > 0; n-- {
			switch k := x.R.Intn(12); {
			case k == 0 && kind != "faulty":
				ops = append(ops, scribble(w, h))
			case k == 1 && kind == "tty":
				ops = append(ops, M{"op": "settings", "k": x.R.Intn(4)})
			case k == 2 && (kind == "tty" || kind == "half"):
				w, h = 1+x.R.Intn(7), 1+x.R.Intn(4)
				ops = append(ops, one("alt", 0), M{"op": "winsize", "w": w, "h": h})
			case k == 2 && kind == "buf" || k == 3 && kind == "half":
				ops = append(ops, M{"op": "read", "x": 1 + x.R.Intn(9)})
			default:
				ops = append(ops, rndOp(w, h))
			}
		}
		c["ops"] = ops
		x.Case(c)
	}
}
