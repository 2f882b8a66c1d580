package main

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
)

func init() { suites["block"] = &Suite{Gen: genBlock, Exec: execBlock} }

var sideNames = []string{"T", "R", "B", "L"}
var sideVals = []blockwidget.Side{blockwidget.SideTop, blockwidget.SideRight, blockwidget.SideBottom, blockwidget.SideLeft}
var setNames = []string{"sharp", "rounded", "double", "thick"}

func alOf(i int) bento.Alignment {
	return []bento.Alignment{bento.AlignmentNone, bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight}[i]
}

// padOf makes a padding in the shortest way its sides allow.
func padOf(p []int) bento.Padding {
	switch {
	case len(p) == 0:
		return bento.NewPadding()
	case p[0] == p[1] && p[1] == p[2] && p[2] == p[3]:
		return bento.NewPadding(p[0])
	case p[0] == p[2] && p[1] == p[3]:
		return bento.NewPadding(p[0], p[1])
	}
	if p[0] == 0 {
		return bento.NewPadding().WithRight(p[1]).WithBottom(p[2]).WithLeft(p[3])
	}
	return bento.NewPadding(p...)
}

// A block is {sides: mask, set, titles: [{al, pos, line}], ta, tp, ts, bs, st, pad}.
func blockOf(m M) blockwidget.Block {
	b := blockwidget.New()
	over := m.I("over") == 1
	if over { // everything is set to something else first
		b = b.WithStyle(bento.NewStyle().Red().OnBlue().Bold()).WithBorderStyle(bento.NewStyle().Green()).WithTitlesStyle(bento.NewStyle().Italic()).
			WithBorderSides(blockwidget.SideTop, blockwidget.SideRight).WithBorderType(blockwidget.BorderTypeThick).
			WithTitlesAlignment(bento.AlignmentRight).WithTitlePosition(blockwidget.TitlePositionBottom).WithPadding(bento.NewPadding(1, 2, 3, 1))
	}
	b = b.WithStyle(styleOf(m.Ms("st"))).WithBorderStyle(styleOf(m.Ms("bs"))).WithTitlesStyle(styleOf(m.Ms("ts")))
	mask := m.I("sides")
	switch {
	case mask == 15 && m.I("set")%2 == 0:
		b = b.Bordered()
	case mask == 15:
		b = b.WithBorderSides(blockwidget.SideAll)
	default:
		sides := []blockwidget.Side{blockwidget.SideNone}
		for i, s := range sideVals {
			if mask&(1<<i) != 0 {
				sides = append(sides, s)
			}
		}
		b = b.WithBorderSides(sides...)
	}
	if types := []blockwidget.BorderType{blockwidget.BorderTypeSharp, blockwidget.BorderTypeRounded, blockwidget.BorderTypeDouble, blockwidget.BorderTypeThick}; m.I("tp") == 1 {
		b = b.WithBorderType(types[m.I("set")])
	} else {
		switch m.I("set") {
		case 0:
			if over || len(m.Ms("titles")) > 0 {
				b = b.Sharp()
			}
		case 1:
			b = b.Rounded()
		case 2:
			b = b.Double()
		case 3:
			b = b.Thick()
		}
	}
	if over || m.I("ta") != 1 {
		b = b.WithTitlesAlignment(alOf(m.I("ta")))
	}
	if m.I("tp") == 1 {
		b = b.WithTitlePosition(blockwidget.TitlePositionBottom)
	} else if over {
		b = b.WithTitlePosition(blockwidget.TitlePositionTop)
	}
	for _, t := range m.Ms("titles") {
		b = b.WithTitle(titleOf(t))
	}
	if p := m.Is("pad"); over || len(p) == 4 {
		b = b.WithPadding(padOf(p))
	}
	return b
}

func titleOf(t M) blockwidget.Title {
	ti := blockwidget.NewTitle(lineOf(t.M("line")))
	switch t.I("al") {
	case 1:
		ti = ti.Left()
	case 2:
		ti = ti.Center()
	case 3:
		ti = ti.Right()
	}
	switch t.I("pos") {
	case 0:
		ti = ti.Top()
	case 1:
		ti = ti.Bottom()
	}
	return ti
}

func lineEv(l M) M { return textEv(M{"ls": []M{l}})["ls"].([]M)[0] }

// blockEv is a block as the specification sees it.
func blockEv(m M) M {
	sides, titles := []string{}, []M{}
	for i, s := range sideNames {
		if m.I("sides")&(1<<i) != 0 {
			sides = append(sides, s)
		}
	}
	for _, t := range m.Ms("titles") {
		titles = append(titles, M{"al": t.I("al"), "pos": t.I("pos"), "line": lineEv(t.M("line"))})
	}
	pad := m.Is("pad")
	if len(pad) != 4 {
		pad = []int{0, 0, 0, 0}
	}
	return M{"sides": sides, "set": setNames[m.I("set")], "titles": titles, "ta": m.I("ta"), "tp": m.I("tp"),
		"ts": styleOps(m.Ms("ts")), "bs": styleOps(m.Ms("bs")), "st": styleOps(m.Ms("st")), "pad": pad}
}

// optBlock: the optional block of a widget, for its event.
func optBlock(m M) []M {
	if len(m.M("blk")) == 0 {
		return []M{}
	}
	return []M{blockEv(m.M("blk"))}
}

func execBlock(x *Ctx, c M) {
	asciiOnly = true
	for _, o := range c.Ms("ops") {
		e := M{"op": o.S("op"), "fail": ""}
		switch o.S("op") {
		case "block":
			e["b"], e["inner"] = blockEv(o.M("b")), []int{0, 0, 0, 0}
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				bl := blockOf(o.M("b"))
				e["inner"] = rectArr(bl.Inner(area))
				bl.Render(area, b)
			})
		case "derive":
			// two blocks made from one by adding a title each; what they show is compared with what they show when made apart
			show := func(b blockwidget.Block) []any {
				buf := bento.NewBufferEmpty(bento.Rect{Width: 30, Height: 3})
				b.Render(buf.Area(), &buf)
				return cellsArr5(&buf, buf.Area())
			}
			n := o.I("n")
			mk := func() blockwidget.Block {
				b := blockwidget.New()
				for i := 0; i < n; i++ {
					b = b.WithTitleStr(string(rune('a' + i)))
				}
				return b
			}
			e["fail"] = x.Do(func() {
				e["want1"], e["want2"], e["base"] = show(mk().WithTitleStr("p")), show(mk().WithTitleStr("q").Bordered()), show(mk())
				b := mk()
				d1 := b.WithTitleStr("p")
				d2 := b.WithTitleStr("q").Bordered()
				e["d1"], e["d2"], e["base2"] = show(d1), show(d2), show(b)
			})
		}
		x.Ev(e)
	}
}

func (x *Ctx) rndLine(alpha []string, max int) M {
	var sps []M
	for n := 1 + x.R.Intn(2); n > 0; n-- {
		s := ""
		for k := x.R.Intn(max + 1); k > 0; k-- {
			s += x.pick(alpha)
		}
		sps = append(sps, M{"s": s, "st": x.rndStyled(3)})
	}
	al := 0
	if x.R.Intn(4) == 0 {
		al = x.R.Intn(4)
	}
	return M{"al": al, "st": x.rndStyled(3), "sp": sps}
}

var titleAlpha = []string{"a", "b", "c", "世", " ", "e\u0301", "🇩🇪", "x"}

func (x *Ctx) rndBlock() M {
	var ts []M
	for n := x.R.Intn(5) * x.R.Intn(2); n > 0; n-- {
		ts = append(ts, M{"al": x.R.Intn(4), "pos": x.R.Intn(3) - 1, "line": x.rndLine(titleAlpha, 4)})
	}
	sides := x.R.Intn(16)
	if x.R.Intn(2) == 0 {
		sides = 15
	}
	pad := []int{0, 0, 0, 0}
	if x.R.Intn(2) == 0 {
		for i := range pad {
			pad[i] = x.R.Intn(3)
		}
	}
	return M{"sides": sides, "set": x.R.Intn(4), "titles": ts, "ta": x.R.Intn(4), "tp": x.R.Intn(2), "ts": x.rndStyled(3), "bs": x.rndStyled(3), "st": x.rndStyled(2), "pad": pad, "over": x.R.Intn(4) / 3}
}

// rndAreas is a buffer area and an area that lies in it, sticks out of it, or is outside.
func (x *Ctx) rndAreas(w, h int) (barea, area []int) {
	barea = []int{x.R.Intn(3), x.R.Intn(3), 1 + x.R.Intn(w), 1 + x.R.Intn(h)}
	switch x.R.Intn(4) {
	case 0:
		return barea, []int{x.R.Intn(w), x.R.Intn(h), x.R.Intn(w + 2), x.R.Intn(h + 2)}
	case 1:
		return barea, barea
	}
	dx, dy := x.R.Intn(barea[2]+1), x.R.Intn(barea[3]+1)
	return barea, []int{barea[0] + dx, barea[1] + dy, x.R.Intn(barea[2] - dx + 1), x.R.Intn(barea[3] - dy + 1)}
}

func genBlock(x *Ctx) {
	var ops []M
	flush := func(n int) {
		if len(ops) >= n && len(ops) > 0 {
			x.Case(M{"ops": ops})
			ops = nil
		}
	}
	add := func(o M) {
		ops = append(ops, o)
		flush(25)
	}
	// every set of sides in every small area
	for sides := 0; sides < 16; sides++ {
		for w := 0; w <= 3; w++ {
			for h := 0; h <= 3; h++ {
				add(M{"op": "block", "b": M{"sides": sides, "set": (w + h + sides) % 4, "ta": 1, "bs": []M{sop("fg", "a:1", 0)}, "st": []M{sop("bg", "a:2", 0)}}, "barea": []int{1, 1, 5, 5}, "area": []int{2, 2, w, h}})
			}
		}
	}
	flush(1)
	// all pairs of titles at all widths
	for a := 0; a < 4; a++ {
		for b := 0; b < 4; b++ {
			for w := 0; w < 9; w++ {
				for k := 0; k < x.Pick(2, 8); k++ {
					t := func(al int, s string) M {
						return M{"al": al, "pos": x.R.Intn(3) - 1, "line": M{"sp": []M{{"s": s}}}}
					}
					ts := []M{t(a, "abcde"[:x.R.Intn(6)]), t(b, "xyzuv"[:x.R.Intn(6)])}
					if k%2 == 1 {
						ts = append(ts, t(x.R.Intn(4), "世"))
					}
					add(M{"op": "block", "b": M{"sides": x.R.Intn(16), "titles": ts, "ta": 1 + x.R.Intn(3), "tp": x.R.Intn(2), "ts": []M{sop("fg", "a:5", 0)}}, "barea": []int{0, 0, 10, 4}, "area": []int{1, 1, w, 1 + x.R.Intn(3)}})
				}
			}
		}
	}
	flush(1)
	for n := 0; n < 9; n++ {
		add(M{"op": "derive", "n": n})
	}
	// many titles, long and high blocks
	for i := 0; i < x.Pick(8, 80); i++ {
		b := x.rndBlock()
		var ts []M
		for n := []int{3, 20, 60}[i%3]; n > 0; n-- {
			ts = append(ts, M{"al": x.R.Intn(4), "pos": x.R.Intn(3) - 1, "line": x.rndLine(titleAlpha, 4)})
		}
		b["titles"] = ts
		w, h := 300, 1+x.R.Intn(3)
		if i%4 == 3 {
			w, h = 3, 300
		}
		add(M{"op": "block", "b": b, "barea": []int{0, 0, w + x.R.Intn(2), h}, "area": []int{0, 0, w, h}})
	}
	flush(1)
	for i := 0; i < x.Pick(2500, 25000); i++ {
		barea, area := x.rndAreas(14, 6)
		add(M{"op": "block", "b": x.rndBlock(), "barea": barea, "area": area})
	}
	flush(1)
}
