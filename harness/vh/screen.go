package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/charmbracelet/x/term"
	"github.com/metafates/bento"
	"github.com/muesli/termenv"
)

// Suite "screen": the real Terminal and backend draw frames on a pseudo terminal; the bytes that arrive at the other end,
// split into tokens, are what the specification looks at.

func init() { suites["screen"] = &Suite{Gen: genScreen, Exec: execScreen} }

var profiles = map[string]termenv.Profile{"dumb": termenv.Ascii, "ansi": termenv.ANSI, "256": termenv.ANSI256, "true": termenv.TrueColor}

func setProfile(p string) {
	for _, v := range []string{"NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "GOOGLE_CLOUD_SHELL", "COLORTERM", "TERM_PROGRAM", "CI"} {
		os.Unsetenv(v)
	}
	os.Setenv("TERM", map[string]string{"dumb": "dumb", "ansi": "xterm-color", "256": "xterm-256color", "true": "xterm-256color"}[p])
	if p == "true" {
		os.Setenv("COLORTERM", "truecolor")
	}
}

// colorParams is what selects the colour on a terminal of the profile, none for the default colour.
func colorParams(p termenv.Profile, name string, bg bool) []int {
	c := p.Convert(colorOf(name))
	if c == nil {
		return []int{}
	}
	out := []int{}
	fields := strings.Split(c.Sequence(bg), ";")
	for _, f := range fields {
		n, err := strconv.Atoi(f)
		if err != nil || len(fields) == 1 && (n == 39 || n == 49) {
			return []int{}
		}
		out = append(out, n)
	}
	return out
}

type screenPty struct {
	m, s *os.File
	data chan []byte
	got  []byte
}

var thePty *screenPty

func newScreenPty() *screenPty {
	m, s, err := openPty()
	check(err)
	_, err = term.MakeRaw(s.Fd())
	check(err)
	p := &screenPty{m: m, s: s, data: make(chan []byte, 1000)}
	go func() {
		for {
			b := make([]byte, 1<<16)
			n, err := m.Read(b)
			if n > 0 {
				p.data <- b[:n]
			}
			if err != nil {
				close(p.data)
				return
			}
		}
	}()
	return p
}

var endMark = []byte{0, 1, 2, 0}

// take returns what was written since the last call.
func (p *screenPty) take() []byte {
	_, err := p.s.Write(endMark)
	check(err)
	t := time.After(20 * time.Second)
	for !bytes.HasSuffix(p.got, endMark) {
		select {
		case b := <-p.data:
			p.got = append(p.got, b...)
		case <-t:
			check(fmt.Errorf("pseudo terminal lost the end mark"))
		}
	}
	out := p.got[:len(p.got)-len(endMark)]
	p.got = nil
	return out
}

type frameWidget struct {
	cells []any
	blank int
	fails bool // fails when everything is drawn
}

func (f *frameWidget) Render(area bento.Rect, b *bento.Buffer) {
	f.blank = 1
	empty := bento.NewEmptyCell()
	ba := b.Area()
	if ba != area {
		f.blank = 0
	}
	for y := ba.Top(); y < ba.Bottom(); y++ {
		for x := ba.Left(); x < ba.Right(); x++ {
			if *b.CellAt(bento.NewPosition(x, y)) != empty {
				f.blank = 0
			}
		}
	}
	for i, c := range f.cells {
		v := c.([]any)
		cell := b.CellAt(bento.NewPosition(area.X+i%area.Width, area.Y+i/area.Width))
		cell.SetSymbol(v[0].(string))
		cell.SetFg(colorOf(v[1].(string))).SetBg(colorOf(v[2].(string)))
		cell.Modifier = bento.Modifier(num(v[3]))
	}
	if f.fails {
		panic("a widget that fails")
	}
}

// byHand does what Draw does.
func byHand(t *bento.Terminal, w bento.Widget) error {
	f := t.GetFrame()
	f.RenderWidget(w, f.Area())
	if err := t.Flush(); err != nil {
		return err
	}
	t.SwapBuffers()
	return t.HideCursor()
}

func printTokens(b []byte) []M {
	ts := tokenize(b)
	for _, t := range ts {
		if t["t"] == "print" {
			t["s"] = jsafe(t.S("s"))
		}
	}
	if ts == nil {
		ts = []M{}
	}
	return ts
}

func execScreen(x *Ctx, c M) {
	if thePty == nil {
		thePty = newScreenPty()
	}
	p := thePty
	setProfile(c.S("prof"))
	prof := profiles[c.S("prof")]
	w, h := c.I("w"), c.I("h")
	check(setWinsize(p.m, w, h))
	area := []int{0, 0, w, h}
	fixed := c["area"] != nil
	if fixed {
		area = c.Is("area")
	}
	var t *bento.Terminal
	e := M{"op": "start", "w": w, "h": h, "area": area, "fail": ""}
	e["fail"] = x.Do(func() {
		be := bento.NewDefaultBackend(p.s, p.s)
		var v bento.Viewport = bento.ViewportFullscreen{}
		if fixed {
			v = bento.ViewportFixed(rectOf(area))
		}
		var err error
		t, err = bento.NewTerminal(&be, v)
		if err != nil {
			panic(err)
		}
	})
	x.Ev(e)
	if e.S("fail") != "" {
		return
	}
	p.take()
	fw := &frameWidget{}
	broken := false
	last := "" // the last frame drawn; different colours may look alike
	for _, o := range c.Ms("steps") {
		e := M{"op": o.S("op"), "area": area, "fail": ""}
		switch o.S("op") {
		case "draw":
			if o["cells"] != nil {
				fw.cells = o["cells"].([]any)
			}
			e["fail"] = x.Do(func() {
				if o.I("hand") == 1 && !broken {
					if err := byHand(t, fw); err != nil {
						panic(err)
					}
				} else if _, err := t.Draw(fw); err != nil {
					panic(err)
				}
			})
			broken = false // only Draw knows how to go on after a failure
			e["blank"] = fw.blank
			fr := []any{}
			for i := 0; i < area[2]*area[3]; i++ {
				if i >= len(fw.cells) {
					fr = append(fr, []any{" ", 1, []int{}, []int{}, 0})
					continue
				}
				v := fw.cells[i].([]any)
				g := graphemes(v[0].(string))[0]
				fr = append(fr, []any{g["s"], g["w"], colorParams(prof, v[1].(string), false), colorParams(prof, v[2].(string), true), num(v[3])})
			}
			e["fr"] = fr
			raw := fmt.Sprint(fw.cells[:min(len(fw.cells), area[2]*area[3])])
			e["same"] = b2i(raw == last)
			last = raw
		case "broken": // a widget fails in the middle of a frame
			broken = true
			func() {
				defer func() { recover() }()
				t.Draw(&frameWidget{cells: o["cells"].([]any), fails: true})
			}()
		case "clear":
			if o["area"] != nil {
				area = o.Is("area")
				e["area"] = area
				e["fail"] = x.Do(func() {
					if err := t.Resize(rectOf(area)); err != nil {
						panic(err)
					}
				})
			} else {
				e["fail"] = x.Do(func() {
					if err := t.Clear(); err != nil {
						panic(err)
					}
				})
			}
			e["junk"] = o.I("junk")
			fw.cells = nil
		case "resize":
			w, h = o.I("w"), o.I("h")
			e["w"], e["h"] = w, h
			check(setWinsize(p.m, w, h))
			if fixed {
				break
			}
			area = []int{0, 0, w, h}
			e["area"] = area
			e["fail"] = x.Do(func() {
				if err := t.Resize(rectOf(area)); err != nil {
					panic(err)
				}
			})
			fw.cells = nil
		}
		e["ts"] = printTokens(p.take())
		x.Ev(e)
	}
}

var narrow = []string{"a", "b", "x", "=", "─", "█", "é", "e\u0301", " ", " ", " "}
var wides = []string{"世", "界", "🇩🇪", "👨‍👩‍👧", "\uff01"}
var anyColors = []string{"reset", "reset", "reset", "a:1", "a:9", "a:15", "x:9", "x:99", "x:255", "#ff0000", "#010203", "no", "nil", "#zz", "#12", "#abc"}

func (x *Ctx) rndPen() []any {
	if x.R.Intn(3) == 0 {
		return []any{"reset", "reset", 0}
	}
	m := 0
	switch x.R.Intn(4) {
	case 0:
		m = 1 << x.R.Intn(9)
	case 1:
		m = x.R.Intn(512) & x.R.Intn(512)
	case 2:
		m = x.R.Intn(512)
	}
	return []any{x.pick(anyColors), x.pick(anyColors), m}
}

// rndFrame makes a well-formed frame, a variation of the one before with the given chance for a cell to change.
func (x *Ctx) rndFrame(w, h int, before []any, chance int, pens [][]any) []any {
	out := make([]any, w*h)
	if before != nil {
		copy(out, before)
	}
	for y := 0; y < h; y++ {
		for k := 0; k < w; k++ {
			i := y*w + k
			if out[i] != nil && x.R.Intn(100) >= chance {
				continue
			}
			pen := pens[x.R.Intn(len(pens))]
			sym := x.pick(narrow)
			if x.R.Intn(3) == 0 {
				sym = x.pick(wides)
			}
			out[i] = []any{sym, pen[0], pen[1], pen[2]}
		}
		// a wide character needs a blank after it
		for k := 0; k < w; k++ {
			i := y*w + k
			v := out[i].([]any)
			if graphemes(v[0].(string))[0].I("w") == 2 {
				if k == w-1 {
					out[i] = []any{"a", v[1], v[2], v[3]}
					continue
				}
				n := out[i+1].([]any)
				out[i+1] = []any{" ", n[1], n[2], n[3]}
				if x.R.Intn(3) == 0 {
					out[i+1] = []any{" ", "reset", "reset", 0}
				}
				k++
			}
		}
	}
	return out
}

func draw(cells []any) M { return M{"op": "draw", "cells": cells} }

// rows of single cells that follow the path of pens
func (x *Ctx) penPath(prof string, pens [][]any) {
	const w = 65
	var steps []M
	for i := 0; i < len(pens); i += w - 1 {
		var cells []any
		for k := 0; k < w && i+k < len(pens); k++ {
			p := pens[i+k]
			cells = append(cells, []any{"a", p[0], p[1], p[2]})
		}
		for len(cells) < w {
			cells = append(cells, []any{" ", "reset", "reset", 0})
		}
		steps = append(steps, M{"op": "clear"}, draw(cells))
		if len(steps) >= 8 {
			x.Case(M{"w": w, "h": 1, "prof": prof, "steps": steps})
			steps = nil
		}
	}
	if len(steps) > 0 {
		x.Case(M{"w": w, "h": 1, "prof": prof, "steps": steps})
	}
}

// allPairs walks over every ordered pair of n things (and back) exactly once.
func allPairs(n int) []int {
	used := make([]int, n)
	for i := range used {
		used[i] = -1
	}
	// Hierholzer on the complete digraph with loops
	var path, st []int
	st = []int{0}
	for len(st) > 0 {
		v := st[len(st)-1]
		if used[v] < n-1 {
			used[v]++
			st = append(st, used[v])
		} else {
			path = append(path, v)
			st = st[:len(st)-1]
		}
	}
	for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
		path[i], path[j] = path[j], path[i]
	}
	return path
}

func genScreen(x *Ctx) {
	profs := []string{"dumb", "ansi", "256", "true"}
	// every pair of modifier sets, of colours; a pen never differs from the one before only in what was already tested
	bits := []int{0, 1, 4, 5, 6, 7}
	if x.Thorough() {
		bits = []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
	}
	var pens [][]any
	for _, m := range allPairs(1 << len(bits)) {
		v := 0
		for k, b := range bits {
			if m&(1<<k) != 0 {
				v |= 1 << b
			}
		}
		pens = append(pens, []any{"reset", "reset", v})
	}
	x.penPath("ansi", pens)
	if !x.Thorough() {
		pens = nil
		var sets []int
		for i := 0; i < 40; i++ {
			sets = append(sets, x.R.Intn(512))
		}
		for _, m := range allPairs(len(sets)) {
			pens = append(pens, []any{"reset", "reset", sets[m]})
		}
		x.penPath("dumb", pens)
	}
	colors := []string{"reset", "a:0", "a:7", "a:8", "a:15", "x:0", "x:15", "x:16", "x:231", "x:255", "#000000", "#ffffff", "#0102ff", "no", "nil", "#zz", "#12", "#abc"}
	for _, prof := range profs {
		for _, mixed := range []bool{false, true} {
			pens = nil
			for _, k := range allPairs(len(colors)) {
				o := "reset"
				if mixed {
					o = colors[x.R.Intn(len(colors))]
				}
				m := 0
				if x.R.Intn(3) == 0 {
					m = x.R.Intn(512)
				}
				if x.R.Intn(2) == 0 {
					pens = append(pens, []any{colors[k], o, m})
				} else {
					pens = append(pens, []any{o, colors[k], m})
				}
			}
			x.penPath(prof, pens)
		}
	}
	// all colours of the palettes
	for i := 0; i < 256; i += x.Pick(64, 16) {
		pens = nil
		for k := i; k < i+64 && k < 256; k++ {
			pens = append(pens, []any{fmt.Sprintf("x:%d", k), fmt.Sprintf("a:%d", k%16), 0}, []any{fmt.Sprintf("a:%d", k%16), fmt.Sprintf("x:%d", 255-k), 0})
		}
		x.penPath(profs[1+(i/64)%3], pens)
	}
	// every pair of frames of a short row, each after a clear
	rowW := x.Pick(3, 4)
	var rows [][]any
	plain, red := []any{"reset", "reset", 0}, []any{"a:1", "reset", 1}
	var rec func(r []any)
	rec = func(r []any) {
		if len(r) == rowW {
			rows = append(rows, append([]any{}, r...))
			return
		}
		for _, p := range [][]any{plain, red} {
			for _, s := range []string{" ", "a"} {
				rec(append(append([]any{}, r...), []any{s, p[0], p[1], p[2]}))
			}
			if len(r)+2 <= rowW {
				for _, b := range [][]any{plain, red} {
					rec(append(append([]any{}, r...), []any{"世", p[0], p[1], p[2]}, []any{" ", b[0], b[1], b[2]}))
				}
			}
		}
	}
	rec(nil)
	path := allPairs(len(rows))
	if x.Thorough() && len(path) > 60000 {
		path = path[:60000]
	}
	for i := 0; i+1 < len(path); i += 200 {
		var steps []M
		for k := i; k <= i+200 && k < len(path); k++ {
			steps = append(steps, draw(rows[path[k]]))
		}
		c := M{"w": rowW, "h": 1, "prof": "ansi", "steps": steps}
		if i%400 == 0 {
			c = M{"w": rowW + 2, "h": 1, "area": []int{1, 0, rowW, 1}, "prof": "ansi", "steps": steps}
		}
		x.Case(c)
	}
	// random histories
	for i := 0; i < x.Pick(250, 4000); i++ {
		w, h := 1+x.R.Intn(9), 1+x.R.Intn(4)
		c := M{"w": w, "h": h, "prof": profs[x.R.Intn(4)]}
		area := []int{0, 0, w, h}
		fixed := x.R.Intn(3) == 0
		if fixed {
			area = x.subArea(w, h)
			c["area"] = area
		}
		pens := [][]any{plain}
		for n := x.R.Intn(4); n > 0; n-- {
			pens = append(pens, x.rndPen())
		}
		var steps []M
		var before []any
		for n := 2 + x.R.Intn(12); n > 0; n-- {
			switch k := x.R.Intn(13); {
			case k == 12:
				f := x.rndFrame(area[2], area[3], before, []int{30, 100}[x.R.Intn(2)], pens)
				steps = append(steps, M{"op": "broken", "cells": f[:x.R.Intn(len(f)+1)]})
			case k < 6:
				before = x.rndFrame(area[2], area[3], before, []int{5, 30, 100}[x.R.Intn(3)], pens)
				steps = append(steps, draw(before))
				if x.R.Intn(4) == 0 {
					steps[len(steps)-1]["hand"] = 1
				}
			case k < 7 && len(steps) > 0 && steps[len(steps)-1]["op"] == "draw":
				steps = append(steps, M{"op": "draw"})
			case k == 7:
				steps = append(steps, draw([]any{}))
				before = nil
			case k == 8:
				steps = append(steps, M{"op": "clear", "junk": x.R.Intn(2)})
				if x.R.Intn(2) == 0 {
					before = nil
				}
			case k == 9 && !fixed:
				w, h = 1+x.R.Intn(9), 1+x.R.Intn(4)
				if x.R.Intn(3) == 0 {
					w, h = area[2], area[3]
				} else {
					before = nil
				}
				area = []int{0, 0, w, h}
				steps = append(steps, M{"op": "resize", "w": w, "h": h})
			case k == 9 && fixed:
				a := x.subArea(w, h)
				if a[2] != area[2] || a[3] != area[3] {
					before = nil
				}
				area = a
				// what the old area showed may be cut through the middle of a wide character
				steps = append(steps, M{"op": "clear", "area": area, "junk": 1})
			}
		}
		c["steps"] = steps
		x.Case(c)
	}
	// terminals longer or higher than usual
	for _, d := range [][]int{{300, 1}, {1, 300}, {1100, 1}, {1, 1100}, {258, 2}, {2, 258}} {
		for i := 0; i < x.Pick(1, 6); i++ {
			pens := [][]any{plain, x.rndPen()}
			a := x.rndFrame(d[0], d[1], nil, 100, pens)
			b := x.rndFrame(d[0], d[1], a, 3, pens)
			c := M{"w": d[0], "h": d[1], "prof": profs[i%4], "steps": []M{draw(a), draw(b), {"op": "clear", "junk": 1}, draw(a)}}
			if i%2 == 1 {
				c["w"], c["h"], c["area"] = d[0]+1, d[1]+1, []int{1, 1, d[0], d[1]}
			}
			x.Case(c)
		}
	}
	// long rows, of which little changes: here and there, and about where rows begin and end
	for i, d := range [][]int{{514, 2}, {130, 4}, {1030, 2}, {66, 5}, {260, 3}, {2050, 2}} {
		if i > 3 && !x.Thorough() {
			break
		}
		w, h := d[0], d[1]
		a := x.rndFrame(w, h, nil, 100, [][]any{plain})
		for k := range a {
			if x.R.Intn(10) > 0 || graphemes(a[k].([]any)[0].(string))[0].I("w") != 1 {
				a[k] = []any{" ", "reset", "reset", 0}
			}
		}
		steps := []M{draw(a)}
		for n := x.Pick(9, 40); n > 0; n-- {
			b := append([]any{}, a...)
			put := func(k int) { b[(k+w*h)%(w*h)] = []any{x.pick([]string{"a", "b", "c", "d"}), "reset", "reset", 0} }
			for y := 0; y < h; y++ {
				if x.R.Intn(3) > 0 { // the row ends early, the next one is changed at its begin
					put(y*w + w - 2 - x.R.Intn(w/2))
					put(y*w + w)
				}
				if x.R.Intn(3) == 0 {
					put(y*w + w - 1)
				}
				for k := x.R.Intn(3); k > 0; k-- {
					put(y*w + x.R.Intn(w))
				}
			}
			steps = append(steps, draw(b))
			a = b
		}
		x.Case(M{"w": w, "h": h, "prof": profs[i%4], "steps": steps})
	}
	// frames that take many buffers
	for i := 0; i < x.Pick(2, 10); i++ {
		var pens [][]any
		for k := 0; k < 30; k++ {
			pens = append(pens, []any{fmt.Sprintf("#%06x", x.R.Intn(1<<24)), fmt.Sprintf("#%06x", x.R.Intn(1<<24)), x.R.Intn(512)})
		}
		a := x.rndFrame(40, 10, nil, 100, pens)
		b := x.rndFrame(40, 10, a, 40, pens)
		x.Case(M{"w": 40, "h": 10, "prof": "true", "steps": []M{draw(a), draw(b), draw([]any{}), draw(b)}})
	}
}

func (x *Ctx) subArea(w, h int) []int {
	aw, ah := 1+x.R.Intn(w), 1+x.R.Intn(h)
	return []int{x.R.Intn(w - aw + 1), x.R.Intn(h - ah + 1), aw, ah}
}
