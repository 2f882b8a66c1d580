package main

import (
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/inputwidget"
)

func init() { suites["winput"] = &Suite{Gen: genInputW, Exec: execInputW} }

func inputKey(op, s string, n int) bento.Msg {
	switch op {
	case "type":
		if s == " " {
			return bento.KeyMsg{Type: bento.KeySpace, Runes: []rune{' '}}
		}
		return bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune(s), Paste: len(s) > 4}
	case "left":
		return bento.KeyMsg{Type: bento.KeyLeft}
	case "right":
		return bento.KeyMsg{Type: bento.KeyRight}
	case "begin":
		return bento.KeyMsg{Type: bento.KeyCtrlA}
	case "end":
		return bento.KeyMsg{Type: bento.KeyCtrlE}
	case "back":
		return bento.KeyMsg{Type: []bento.KeyType{bento.KeyBackspace, bento.KeyDelete}[n%2]}
	case "word":
		return bento.KeyMsg{Type: bento.KeyCtrlW}
	case "wleft":
		return bento.KeyMsg{Type: bento.KeyShiftLeft}
	case "wright":
		return bento.KeyMsg{Type: bento.KeyShiftRight}
	case "other":
		return []bento.Msg{bento.KeyMsg{Type: bento.KeyUp}, bento.KeyMsg{Type: bento.KeyF1}, bento.KeyMsg{Type: bento.KeyEnter}, bento.MouseMsg{}, nil, "a", bento.KeyMsg{Type: bento.KeyEsc}}[n%7]
	}
	return nil
}

func execInputW(x *Ctx, c M) {
	asciiOnly = true
	var ins []inputwidget.State
	for _, o := range c.Ms("ops") {
		op, i := o.S("op"), o.I("i")
		e := M{"op": op, "fail": "", "i": i + 1, "via": 0}
		s := o.S("s")
		switch op {
		case "new":
			ins = append(ins, inputwidget.NewState())
		case "copy":
			ins = append(ins, ins[i])
		case "render":
			e["prompt"], e["promptst"], e["ph"], e["phst"], e["curst"] = graphemesC(o.S("prompt")), styleOps(o.Ms("promptst")), graphemesC(o.S("ph")), styleOps(o.Ms("phst")), styleOps(o.Ms("curst"))
			e["al"], e["v"], e["blk"] = o.I("al"), o.I("v"), optBlock(o)
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				w := inputwidget.New().WithPrompt(o.S("prompt")).WithPromptStyle(styleOf(o.Ms("promptst"))).
					WithPlaceholder(o.S("ph")).WithPlaceholderStyle(styleOf(o.Ms("phst"))).WithCursorStyle(styleOf(o.Ms("curst")))
				switch o.I("al") {
				case 0:
					w = w.WithAlignment(bento.AlignmentNone)
				case 1:
					w = w.Left()
				case 2:
					w = w.Center()
				case 3:
					w = w.Right()
				}
				switch o.I("v") {
				case 1:
					w = w.Top()
				case 2:
					w = w.Middle()
				case 3:
					w = w.Bottom()
				}
				if len(o.M("blk")) > 0 {
					w = w.WithBlock(blockOf(o.M("blk")))
				}
				w.RenderStateful(area, b, &ins[i])
			})
		default:
			if op == "type" {
				e["gs"] = graphemesC(s)
			}
			e["n"] = o.I("n")
			msg := inputKey(op, s, o.I("n"))
			if (msg != nil || op == "other") && (o.I("via") == 1 || op == "other") {
				e["via"] = 1
				e["fail"] = x.Do(func() {
					cmd, ok := ins[i].TryUpdate(msg)
					e["ok"] = b2i(ok)
					if cmd != nil {
						e["ok"] = 2
					}
				})
				break
			}
			e["fail"] = x.Do(func() {
				st := &ins[i]
				switch op {
				case "type":
					st.Append(s)
				case "left":
					st.MoveCursorLeft()
				case "right":
					st.MoveCursorRight()
				case "begin":
					st.MoveCursorBegin()
				case "end":
					st.MoveCursorEnd()
				case "back":
					st.DeleteUnderCursor()
				case "word":
					st.DeleteWordUnderCursor()
				case "clear":
					st.DeleteLine()
				case "wleft":
					st.MoveWordLeft()
				case "wright":
					st.MoveWordRight()
				case "show":
					st.ShowCursor(o.I("n") == 1)
				}
			})
		}
		states := []any{}
		if f := x.Do(func() {
			for k := range ins {
				text := ins[k].String()
				probe := ins[k]
				probe.Append("|")
				before, _, _ := strings.Cut(probe.String(), "|")
				states = append(states, []string{jsafe(text), jsafe(before)})
			}
		}); f != "" && e["fail"] == "" {
			e["fail"] = f
		}
		e["states"] = states
		x.Ev(e)
		if e["fail"] != "" {
			return
		}
	}
}

var inputAlpha = []string{"a", "b", "c", "d", " ", " ", "世", "\u00a0", "\u3000", "e\u0301", "🇩🇪", "x", "y", "z"}

func (x *Ctx) rndInputRender(i int) M {
	o := M{"op": "render", "i": i, "al": 1, "v": 0}
	if x.R.Intn(3) == 0 {
		o["al"] = x.R.Intn(4)
	}
	if x.R.Intn(3) == 0 {
		o["v"] = x.R.Intn(4)
	}
	o["prompt"] = x.pick([]string{"", "", "> ", "世", "?"})
	o["ph"] = x.pick([]string{"", "type", "世界", "a"})
	o["promptst"], o["phst"], o["curst"] = x.rndStyled(3), x.rndStyled(2), []M{sop("fg", "a:1", 0)}
	if x.R.Intn(4) == 0 {
		o["curst"] = x.rndStyled(1)
	}
	if x.R.Intn(6) == 0 {
		o["blk"] = x.rndBlock()
		o["barea"], o["area"] = x.rndAreas(14, 6)
	} else if x.R.Intn(6) == 0 {
		o["barea"], o["area"] = x.rndAreas(14, 3)
	} else {
		w := 1 + x.R.Intn(10)
		o["barea"], o["area"] = []int{0, 0, w + 1, 1}, []int{0, 0, w, 1}
	}
	return o
}

func genInputW(x *Ctx) {
	rows := func(w int) M {
		return M{"op": "render", "i": 0, "al": 1, "v": 0, "prompt": "", "ph": "ph", "curst": []M{sop("fg", "a:1", 0)}, "barea": []int{0, 0, w + 1, 1}, "area": []int{0, 0, w, 1}}
	}
	// all short histories of edits, seen at a width at the end and, every other time, along the way
	keys := []M{{"op": "type", "s": "a"}, {"op": "type", "s": " "}, {"op": "type", "s": "世"}, {"op": "left"}, {"op": "right"}, {"op": "begin"}, {"op": "back"}, {"op": "word"}, {"op": "clear"}, {"op": "end"}}
	steps := x.Pick(4, 5)
	n := 0
	var ops []M
	var rec func(hist []M)
	rec = func(hist []M) {
		if len(hist) == steps {
			n++
			ops = []M{{"op": "new"}, {"op": "type", "s": []string{"", "xy", "p q", "世y"}[n%4]}}
			for k, h := range hist {
				h2 := M{"i": 0, "via": (n + k) % 2, "n": n / 2}
				for a, b := range h {
					h2[a] = b
				}
				ops = append(ops, h2)
				if n%3 == 0 && k%2 == 0 {
					ops = append(ops, rows(1+(n/3+k)%5))
				}
			}
			x.Case(M{"ops": append(ops, rows(1+n%6))})
			return
		}
		for _, k := range keys {
			rec(append(hist[:len(hist):len(hist)], k))
		}
	}
	if x.Thorough() {
		rec(nil)
	} else {
		steps = 3
		rec(nil)
	}
	// long texts
	for m := 0; m < x.Pick(4, 30); m++ {
		s := ""
		for k := 0; k < 250+x.R.Intn(100); k++ {
			s += x.pick(inputAlpha)
		}
		ops := []M{{"op": "new"}, {"op": "type", "s": s}, rows(200 + x.R.Intn(200))}
		for k := 0; k < 12; k++ {
			op := M{"op": []string{"left", "back", "right", "type", "begin", "end", "word"}[x.R.Intn(7)], "i": 0, "via": k % 2, "n": k, "s": "ab世"}
			for rep := 1 + x.R.Intn(4); rep > 0; rep-- {
				ops = append(ops, op)
			}
			if k%3 == 0 {
				ops = append(ops, rows([]int{1, 7, 255, 256, 300}[x.R.Intn(5)]))
			}
		}
		x.Case(M{"ops": ops})
	}
	// a lot at once
	for m := 0; m < x.Pick(1, 6); m++ {
		s := ""
		for k := 0; k < 1200+x.R.Intn(200)+m*2000; k++ {
			s += x.pick([]string{"a", "b", "c", " "})
		}
		x.Case(M{"ops": []M{{"op": "new"}, {"op": "type", "s": s, "i": 0, "via": 1}, rows(9), {"op": "type", "s": "z", "i": 0, "via": 1}, rows(1100), {"op": "begin", "i": 0, "via": 1}, rows(8)}})
	}
	// random histories with copies
	for m := 0; m < x.Pick(500, 6000); m++ {
		ops := []M{{"op": "new"}}
		k := 1
		word := func() string {
			s := ""
			for j := 1 + x.R.Intn(3)*x.R.Intn(4); j > 0; j-- {
				s += x.pick(inputAlpha)
			}
			return s
		}
		for len(ops) < 30 {
			i := x.R.Intn(k)
			op := M{"op": "", "i": i, "via": x.R.Intn(2), "n": x.R.Intn(7)}
			switch r := x.R.Intn(40); {
			case r < 9:
				op["op"], op["s"] = "type", word()
			case r < 10:
				op["op"], op["s"] = "type", x.pick([]string{"", "\u0301", "a\tb", "\n", "\u200b", "two words ", "abcdefghijklmnop"})
			case r < 12 && k < 4:
				op["op"] = "copy"
				k++
			case r < 16:
				op["op"] = "left"
			case r < 18:
				op["op"] = "right"
			case r < 20:
				op["op"] = x.pick([]string{"begin", "end"})
			case r < 23:
				op["op"] = "back"
			case r < 25:
				op["op"] = "word"
			case r < 26:
				op["op"] = x.pick([]string{"clear", "wleft", "wright", "other", "show"})
			default:
				ops = append(ops, x.rndInputRender(i))
				continue
			}
			for rep := 1 + x.R.Intn(3)*b2i(op["op"] == "left" || op["op"] == "back"); rep > 0; rep-- {
				ops = append(ops, op)
			}
		}
		x.Case(M{"ops": ops})
	}
}
