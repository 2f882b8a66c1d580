package main

import (
	"fmt"

	"github.com/metafates/bento"
)

func init() { suites["buffer"] = &Suite{Gen: genBuffer, Exec: execBuffer} }

var hues = []string{"Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "White", "BrightBlack", "BrightRed", "BrightGreen", "BrightYellow", "BrightBlue", "BrightMagenta", "BrightCyan", "BrightWhite"}
var modNames = []string{"Bold", "Dim", "Italic", "Underlined", "Reversed", "CrossedOut"}
var palette = []string{"a:1", "a:12", "x:99", "#0102ff", "reset", "no", "#zz"}

func makeCell(v []any) bento.Cell {
	c := bento.NewCell(v[0].(string))
	c.Fg, c.Bg, c.Modifier = colorOf(v[1].(string)), colorOf(v[2].(string)), bento.Modifier(num(v[3]))
	return c
}

func execBuffer(x *Ctx, c M) {
	var b bento.Buffer
	var cell bento.Cell
	for _, o := range c.Ms("ops") {
		e := M{"op": o.S("op"), "st": styleOps(o.Ms("st")), "fail": ""}
		switch o.S("op") {
		case "laws":
			e["a"], e["b"], e["d"] = styleOps(o.Ms("a")), styleOps(o.Ms("b")), styleOps(o.Ms("d"))
			rs := []any{}
			e["fail"] = x.Do(func() {
				k := makeCell(o["cell"].([]any))
				e["cell"] = cellArr(k)
				sa, sb, sc := styleOf(o.Ms("a")), styleOf(o.Ms("b")), styleOf(o.Ms("d"))
				for _, seq := range [][]bento.Style{{sa, sb, sc}, {sa.Patched(sb), sc}, {sa, sb.Patched(sc)}, {sa.Patched(sb).Patched(sc)}, {sa.Patched(sb.Patched(sc))},
					{bento.NewStyle(), sa.Patched(bento.NewStyle()), sb, bento.NewStyle().Patched(sc)}} {
					r := k
					for _, s := range seq {
						r.SetStyle(s)
					}
					rs = append(rs, cellArr(r))
				}
			})
			e["rs"] = rs
		case "cnew", "cstyle", "creset", "csym", "capp", "cfg", "cbg":
			e["sym"] = jsafe(o.S("sym"))
			e["fail"] = x.Do(func() {
				switch o.S("op") {
				case "cnew":
					cell = bento.NewCell(o.S("sym"))
				case "cstyle":
					cell.SetStyle(styleOf(o.Ms("st")))
				case "creset":
					cell.Skip = true
					cell.Reset()
					if cell.Skip {
						cell.Symbol = "skip"
					}
				case "csym":
					cell.SetSymbol(o.S("sym"))
				case "capp":
					cell.AppendSymbol(o.S("sym"))
				case "cfg":
					cell.SetFg(colorOf(o.S("sym")))
				case "cbg":
					cell.SetBg(colorOf(o.S("sym")))
				}
			})
			e["cell"] = cellArr(cell)
		default:
			e["x"], e["y"], e["n"], e["pos"], e["rx"], e["ry"] = o.I("x"), o.I("y"), o.I("n"), 0, 0, 0
			e["fail"] = x.Do(func() {
				switch o.S("op") {
				case "new":
					e["area"] = o.Is("area")
					k := makeCell(o["cell"].([]any))
					e["cell"] = cellArr(k)
					if o.B("empty") {
						b = bento.NewBufferEmpty(rectOf(o.Is("area")))
					} else {
						b = bento.NewBufferFilled(rectOf(o.Is("area")), k)
					}
				case "reset":
					b.Reset()
				case "set":
					e["sym"] = o.S("sym")
					b.CellAt(bento.NewPosition(o.I("x"), o.I("y"))).SetSymbol(o.S("sym")).SetStyle(styleOf(o.Ms("st")))
				case "style":
					e["area"] = o.Is("area")
					b.SetStyle(rectOf(o.Is("area")), styleOf(o.Ms("st")))
				case "string":
					e["gs"] = graphemes(o.S("s"))
					if o.I("n") < 0 {
						b.SetString(o.I("x"), o.I("y"), o.S("s"), styleOf(o.Ms("st")))
					} else {
						rx, ry := b.SetStringN(o.I("x"), o.I("y"), o.S("s"), o.I("n"), styleOf(o.Ms("st")))
						e["rx"], e["ry"], e["pos"] = rx, ry, 1
					}
				}
			})
			e["cells"], e["barea"] = cellsArr(&b), rectArr(b.Area())
		}
		x.Ev(e)
	}
}

func (x *Ctx) pick(ss []string) string { return ss[x.R.Intn(len(ss))] }

// rndStyle is a sequence of builder calls.
func (x *Ctx) rndStyle(depth int) []M {
	ops := []M{}
	for n := x.R.Intn(4); n > 0; n-- {
		switch x.R.Intn(8) {
		case 0:
			ops = append(ops, sop("fg", x.pick(palette), 0))
		case 1:
			ops = append(ops, sop("bg", x.pick(palette), 0))
		case 2, 3:
			ops = append(ops, sop("mod", "", x.R.Intn(512)&x.R.Intn(512)))
		case 4, 5:
			ops = append(ops, sop("nomod", "", x.R.Intn(512)&x.R.Intn(512)))
		case 6:
			switch x.R.Intn(4) {
			case 0:
				ops = append(ops, sop("name", x.pick(modNames), 0))
			case 1:
				ops = append(ops, sop("name", x.pick(hues), 0))
			case 2:
				ops = append(ops, sop("name", "On"+x.pick(hues), 0))
			case 3:
				ops = append(ops, sop("rgb", fmt.Sprintf("#%02x%02x%02x", x.R.Intn(256), x.R.Intn(20), x.R.Intn(256)), x.R.Intn(2)))
			}
		case 7:
			if depth > 0 {
				ops = append(ops, sop("patch", "", 0, x.rndStyle(depth-1)...))
			}
		}
	}
	return ops
}

func (x *Ctx) rndCell() []any {
	sym := x.pick([]string{" ", "a", "~", "世"})
	return []any{sym, x.pick(palette), x.pick(palette), x.R.Intn(512) & x.R.Intn(512)}
}

var textAlphabet = []string{"a", "b", " ", "世", "é", "e\u0301", "\u0301", "\u200b", "\n", "\t", "\x1b", "\u00a0", "🇩🇪", "👨‍👩‍👧", "\u00ad", "-", "x"}

func (x *Ctx) rndText(max int) string {
	s := ""
	for n := x.R.Intn(max + 1); n > 0; n-- {
		s += x.pick(textAlphabet)
	}
	return s
}

func genBuffer(x *Ctx) {
	old := []any{"~", "a:3", "a:4", 6}
	// every short string over narrow, wide and zero-width graphemes at every column and limit
	alpha := []string{"a", "世", "\u200b", "\n"}
	var texts []string
	var rec func(p string, n int)
	rec = func(p string, n int) {
		texts = append(texts, p)
		if n > 0 {
			for _, a := range alpha {
				rec(p+a, n-1)
			}
		}
	}
	rec("", x.Pick(3, 4))
	area := []int{2, 1, 4, 2}
	st := []M{sop("fg", "a:1", 0), sop("mod", "", 1), sop("nomod", "", 2)}
	for _, t := range texts {
		var ops []M
		for cx := 2; cx <= 7; cx++ {
			for n := -1; n <= 5; n++ {
				if !x.Thorough() && len(t) > 4 && x.R.Intn(3) > 0 {
					continue
				}
				ops = append(ops, M{"op": "new", "area": area, "cell": old}, M{"op": "string", "x": cx, "y": 1, "s": t, "n": n, "st": st})
			}
		}
		if len(ops) > 0 {
			x.Case(M{"ops": ops})
		}
	}
	// every area of a style
	for ax := 0; ax < 8; ax++ {
		var ops []M
		for ay := 0; ay < 5; ay++ {
			for w := 0; w < 6; w++ {
				for h := 0; h < 4; h += 1 + x.R.Intn(2) {
					ops = append(ops, M{"op": "style", "area": []int{ax - 1, ay - 1, w, h}, "st": x.rndStyle(1)})
				}
			}
		}
		x.Case(M{"ops": append([]M{{"op": "new", "area": area, "cell": old}}, ops...)})
	}
	// long and high areas
	for i := 0; i < x.Pick(6, 40); i++ {
		a := [][]int{{0, 0, 300, 2}, {3, 2, 2, 300}, {0, 0, 600, 1}}[i%3]
		ops := []M{{"op": "new", "area": a, "cell": x.rndCell()}}
		for n := 0; n < 8; n++ {
			s := ""
			for k := x.R.Intn(400); k > 0; k-- {
				s += x.pick(textAlphabet)
			}
			ops = append(ops, M{"op": "string", "x": a[0] + x.R.Intn(a[2]), "y": a[1] + x.R.Intn(a[3]), "s": s, "n": x.R.Intn(600) - 1, "st": x.rndStyle(1)},
				M{"op": "style", "area": []int{x.R.Intn(300), x.R.Intn(300) * (i % 3 % 2), x.R.Intn(300), x.R.Intn(300)}, "st": x.rndStyle(1)})
		}
		x.Case(M{"ops": ops})
	}
	// random histories
	for i := 0; i < x.Pick(500, 6000); i++ {
		w, h := x.R.Intn(9), x.R.Intn(4)
		a := []int{x.R.Intn(5), x.R.Intn(5), w, h}
		ops := []M{{"op": "new", "area": a, "cell": x.rndCell(), "empty": x.R.Intn(4) == 0}}
		if ops[0].B("empty") {
			ops[0]["cell"] = []any{" ", "reset", "reset", 0}
		}
		for n := 2 + x.R.Intn(12); n > 0; n-- {
			in := w > 0 && h > 0
			px, py := a[0]+x.R.Intn(w+1), a[1]
			if h > 0 {
				py += x.R.Intn(h)
			}
			switch k := x.R.Intn(8); {
			case k < 4 && h > 0:
				ops = append(ops, M{"op": "string", "x": px, "y": py, "s": x.rndText(7), "n": x.R.Intn(9) - 1, "st": x.rndStyle(1)})
			case k < 6:
				ops = append(ops, M{"op": "style", "area": []int{x.R.Intn(9) - 1, x.R.Intn(9) - 1, x.R.Intn(8), x.R.Intn(6)}, "st": x.rndStyle(2)})
			case k == 6 && in:
				ops = append(ops, M{"op": "set", "x": min(px, a[0]+w-1), "y": py, "sym": x.pick([]string{"a", "世", ""}), "st": x.rndStyle(1)})
			case k == 7 && x.R.Intn(3) == 0:
				ops = append(ops, M{"op": "reset"})
			}
		}
		x.Case(M{"ops": ops})
	}
	// styles: every named helper, and histories of a cell
	for _, n := range append(append([]string{}, modNames...), hues...) {
		ops := []M{{"op": "cnew", "sym": "q"}, {"op": "cstyle", "st": []M{sop("name", n, 0)}}}
		for _, h := range hues {
			if h == n {
				ops = append(ops, M{"op": "cstyle", "st": []M{sop("name", "On"+n, 0)}})
			}
		}
		x.Case(M{"ops": append(ops, M{"op": "creset"})})
	}
	for i := 0; i < x.Pick(400, 4000); i++ {
		ops := []M{{"op": "cnew", "sym": x.pick([]string{"a", "世", " "})}}
		for n := 1 + x.R.Intn(12); n > 0; n-- {
			switch x.R.Intn(10) {
			case 0:
				ops = append(ops, M{"op": "creset"})
			case 1:
				ops = append(ops, M{"op": "csym", "sym": x.pick([]string{"a", "世", ""})})
			case 2:
				ops = append(ops, M{"op": "capp", "sym": x.pick([]string{"b", "\u0301"})})
			case 3:
				ops = append(ops, M{"op": x.pick([]string{"cfg", "cbg"}), "sym": x.pick(palette)})
			default:
				ops = append(ops, M{"op": "cstyle", "st": x.rndStyle(2)})
			}
		}
		x.Case(M{"ops": ops})
	}
	// laws: all styles over one modifier and the colours none/red, then random ones
	var small [][]M
	for _, f := range []string{"", "a:1", "a:2"} {
		for m := 0; m < 3; m++ {
			s := []M{}
			if f != "" {
				s = append(s, sop("fg", f, 0))
			}
			if m > 0 {
				s = append(s, sop([]string{"", "mod", "nomod"}[m], "", 1))
			}
			small = append(small, s)
		}
	}
	for _, a := range small {
		var ops []M
		for _, b := range small {
			for _, d := range small {
				ops = append(ops, M{"op": "laws", "a": a, "b": b, "d": d, "cell": x.rndCell()})
			}
		}
		x.Case(M{"ops": ops})
	}
	for i := 0; i < x.Pick(1500, 20000); i++ {
		x.Case(M{"ops": []M{{"op": "laws", "a": x.rndStyle(2), "b": x.rndStyle(2), "d": x.rndStyle(2), "cell": x.rndCell()}}})
	}
}
