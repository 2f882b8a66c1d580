package main

import (
	"math"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/textwidget"
)

func init() { suites["list"] = &Suite{Gen: genList, Exec: execList} }

// listKeys: the keys of an operation.
var listKeys = map[string][]bento.Key{
	"next":  {{Type: bento.KeyRunes, Runes: []rune("j")}, {Type: bento.KeyDown}},
	"prev":  {{Type: bento.KeyRunes, Runes: []rune("k")}, {Type: bento.KeyUp}},
	"first": {{Type: bento.KeyRunes, Runes: []rune("g")}},
	"last":  {{Type: bento.KeyRunes, Runes: []rune("G")}},
	"down":  {{Type: bento.KeyCtrlD}},
	"up":    {{Type: bento.KeyCtrlU}},
	"other": {{Type: bento.KeyLeft}, {Type: bento.KeyEnter}, {Type: bento.KeyRunes, Runes: []rune("x")}, {Type: bento.KeyRunes, Runes: []rune("jk")}, {Type: bento.KeyRunes, Runes: []rune("j"), Alt: true}, {Type: bento.KeyF1}},
}

// Numbers that JSON cannot hold are written as huge0 and more.
const huge0 = 1000000000

var huges = []int{math.MaxInt, math.MaxInt - 1, 1 << 40, math.MinInt + 1}

func hugeInt(n int) int {
	if n >= huge0 {
		return huges[n-huge0]
	}
	return n
}

var pads = []int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 7, -1, 999, huge0, huge0 + 1}

func execList(x *Ctx, c M) {
	asciiOnly = true
	st := listwidget.NewState()
	kept := st
	for _, o := range c.Ms("ops") {
		op, n := o.S("op"), hugeInt(o.I("n"))
		e := M{"op": op, "fail": "", "n": max(-1000000000, min(n, 1000000000)), "via": 0}
		switch op {
		case "render":
			e["plain"] = o.I("plain")
			items, texts := []M{}, []textwidget.Text{}
			for _, t := range o.Ms("items") {
				items, texts = append(items, textEv(t)), append(texts, textOf(t))
			}
			e["items"], e["st"], e["hl"], e["sym"], e["rep"], e["hs"], e["dir"], e["pad"], e["blk"] = items, styleOps(o.Ms("st")), styleOps(o.Ms("hl")), graphemesC(o.S("sym")), o.I("rep"), o.I("hs"), o.I("dir"), max(0, min(len(items)+1, o.I("pad"))), optBlock(o)
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				w := listwidget.New(texts...)
				if n%2 == 1 {
					w = listwidget.New().WithItems(texts...)
				}
				w = w.WithStyle(styleOf(o.Ms("st"))).WithHighlightStyle(styleOf(o.Ms("hl"))).WithHighlightSymbol(o.S("sym")).WithRepeatHighlightSymbol(o.I("rep") == 1).WithScrollPadding(hugeInt(o.I("pad")))
				if h := o.I("hs"); h > 0 {
					w = w.WithHighlightSpacing([]listwidget.HighlightSpacing{listwidget.HighlightSpacingWhenSelected, listwidget.HighlightSpacingAlways, listwidget.HighlightSpacingNever}[h])
				}
				if o.I("dir") == 1 {
					w = w.WithDirection(listwidget.DirectionBottomToTop)
				}
				if len(o.M("blk")) > 0 {
					w = w.WithBlock(blockOf(o.M("blk")))
				}
				if o.I("plain") == 1 {
					w.Render(area, b)
				} else {
					w.RenderStateful(area, b, &st)
				}
			})
		default:
			keys := listKeys[op]
			if len(keys) > 0 && (o.I("via") > 0 || op == "other") {
				e["via"] = 1
				e["fail"] = x.Do(func() {
					var msg bento.Msg = bento.KeyMsg(keys[o.I("via")%len(keys)])
					if op == "other" && n == 1 {
						msg = "j"
					}
					cmd, ok := st.TryUpdate(msg)
					e["ok"] = b2i(ok)
					if cmd != nil {
						e["ok"] = 2
					}
				})
				break
			}
			e["fail"] = x.Do(func() {
				switch op {
				case "new":
					st = listwidget.NewState()
					kept = listwidget.NewState()
				case "fork":
					kept = st
				case "back":
					st, kept = kept, st
				case "select":
					st.Select(n)
				case "next":
					st.SelectNext()
				case "prev":
					st.SelectPrevious()
				case "first":
					st.SelectFirst()
				case "last":
					st.SelectLast()
				case "down":
					st.ScrollDownBy(n)
				case "up":
					st.ScrollUpBy(n)
				case "unselect":
					st.Unselect()
				case "offset":
					st.SetOffset(n)
				}
			})
		}
		e["sel"], e["lim"] = -1, -1
		if i, ok := st.Selected(math.MaxInt); ok {
			e["sel"] = max(-2, min(i, 1000000000))
		}
		if i, ok := st.Selected(2); ok {
			e["lim"] = i
		}
		x.Ev(e)
		if e["fail"] != "" {
			return
		}
	}
}

func (x *Ctx) rndItem() M {
	if x.R.Intn(3) > 0 {
		return M{"ls": []M{{"sp": []M{{"s": x.pick([]string{"a", "bc", "def", "世x", "", "longer one"})}}}}}
	}
	var ls []M
	for n := []int{1, 1, 2, 2, 3, 0}[x.R.Intn(6)]; n > 0; n-- {
		ls = append(ls, x.rndLine(titleAlpha, 4))
	}
	return M{"al": x.R.Intn(4) * x.R.Intn(2), "st": x.rndStyled(3), "ls": ls}
}

// plainItems are items of the given heights, each line of its own.
func plainItems(hs ...int) []M {
	var out []M
	for i, h := range hs {
		ls := []M{}
		for j := 0; j < h; j++ {
			ls = append(ls, M{"sp": []M{{"s": string(rune('a'+i)) + string(rune('0'+j))}}})
		}
		out = append(out, M{"ls": ls})
	}
	return out
}

func genList(x *Ctx) {
	// every selection and offset in every small list of items of heights 0 to 2 or 3, rendered twice and after each movement
	maxN, maxH := x.Pick(3, 4), x.Pick(2, 3)
	var each func(hs []int)
	each = func(hs []int) {
		for H := 1; H <= x.Pick(4, 5); H++ {
			if !x.Thorough() && (len(hs) == maxN) && x.R.Intn(2) == 0 {
				continue
			}
			ops := []M{}
			r := func(pad int) {
				ops = append(ops, M{"op": "render", "items": plainItems(hs...), "pad": pad, "hl": []M{sop("fg", "a:2", 0)}, "barea": []int{0, 0, 3, H}, "area": []int{0, 0, 3, H}})
			}
			for off := 0; off <= len(hs); off++ {
				for sel := -1; sel < len(hs); sel++ {
					ops = append(ops, M{"op": "new"}, M{"op": "offset", "n": off})
					if sel >= 0 {
						ops = append(ops, M{"op": "select", "n": sel})
					}
					pad := x.R.Intn(3)
					r(pad)
					r(pad)
					ops = append(ops, M{"op": []string{"next", "prev"}[x.R.Intn(2)], "via": x.R.Intn(3)})
					r(pad)
				}
			}
			x.Case(M{"ops": ops})
		}
		if len(hs) < maxN {
			for h := 0; h <= maxH; h++ {
				each(append(append([]int{}, hs...), h))
			}
		}
	}
	each(nil)
	// items of very different heights, in a part of the buffer
	for i := 0; i < x.Pick(250, 4000); i++ {
		var hs []int
		for n := 3 + x.R.Intn(5); n > 0; n-- {
			hs = append(hs, []int{0, 1, 1, 1, 2, 2, 3, 4, 5}[x.R.Intn(9)])
		}
		H, pad, dir := 2+x.R.Intn(5), []int{0, 0, 1, 2, 3}[x.R.Intn(5)], x.R.Intn(4)/3
		ops := []M{{"op": "new"}}
		for j := 0; j < 6; j++ {
			switch x.R.Intn(4) {
			case 0:
				ops = append(ops, M{"op": "offset", "n": x.R.Intn(len(hs))})
			case 1:
				ops = append(ops, M{"op": []string{"next", "prev", "first", "last"}[x.R.Intn(4)], "via": x.R.Intn(3)})
			default:
				ops = append(ops, M{"op": "select", "n": x.R.Intn(len(hs))})
			}
			ops = append(ops, M{"op": "render", "items": plainItems(hs...), "pad": pad, "dir": dir, "plain": x.R.Intn(6) / 5, "hl": []M{sop("fg", "a:2", 0)}, "barea": []int{0, 0, 4, 9}, "area": []int{1, 1, 3, H}})
		}
		x.Case(M{"ops": ops})
	}
	// long lists, and windows that are higher than usual
	for i := 0; i < x.Pick(3, 12); i++ {
		N := []int{300, 300, 360}[i%3]
		hs := make([]int, N)
		for k := range hs {
			hs[k] = 1 + x.R.Intn(4)/3*(1+x.R.Intn(2))
		}
		H := []int{5, 120, 290}[i%3]
		items := plainItems(hs...)
		ops := []M{{"op": "new"}}
		for k := 0; k < 10; k++ {
			switch x.R.Intn(4) {
			case 0:
				ops = append(ops, M{"op": []string{"next", "prev", "first", "last"}[x.R.Intn(4)], "via": x.R.Intn(3)})
			case 1:
				ops = append(ops, M{"op": "offset", "n": x.R.Intn(N)})
			default:
				ops = append(ops, M{"op": "select", "n": []int{x.R.Intn(N), 254 + x.R.Intn(4), N - 1}[x.R.Intn(3)]})
			}
			ops = append(ops, M{"op": "render", "items": items, "pad": []int{0, 1, 2, 20, 100}[x.R.Intn(5)], "dir": x.R.Intn(4) / 3, "hl": []M{sop("fg", "a:2", 0)}, "sym": ">", "barea": []int{0, 0, 4, H + 1}, "area": []int{0, 1, 3, H}})
		}
		x.Case(M{"ops": ops})
	}
	for i := 0; i < x.Pick(500, 8000); i++ {
		ops := []M{{"op": "new"}}
		var items []M
		look := M{}
		reset := func() {
			items = nil
			for n := x.R.Intn(9); n > 0; n-- {
				items = append(items, x.rndItem())
			}
		}
		restyle := func() {
			look = M{"st": x.rndStyled(3), "hl": x.rndStyled(2), "sym": x.pick([]string{"", "> ", ">", "世", ">>>>"}), "rep": x.R.Intn(2), "hs": x.R.Intn(3), "dir": x.R.Intn(4) / 3, "pad": pads[x.R.Intn(len(pads))], "n": x.R.Intn(2)}
			if x.R.Intn(3) == 0 {
				look["blk"] = x.rndBlock()
			}
			look["barea"], look["area"] = x.rndAreas(10, 9)
			if x.R.Intn(2) == 0 {
				h := 1 + x.R.Intn(8)
				look["barea"], look["area"] = []int{0, 0, 8, h}, []int{0, 0, 8, h}
			}
		}
		reset()
		restyle()
		for len(ops) < 30 {
			via := x.R.Intn(4)
			switch r := x.R.Intn(30); {
			case r < 6:
				ops = append(ops, M{"op": x.pick([]string{"next", "next", "prev"}), "via": via})
			case r < 8:
				ops = append(ops, M{"op": x.pick([]string{"first", "last"}), "via": via})
			case r < 9:
				ops = append(ops, M{"op": x.pick([]string{"up", "down"}), "n": 8, "via": 1})
			case r < 10:
				ops = append(ops, M{"op": x.pick([]string{"up", "down"}), "n": x.R.Intn(4)})
			case r < 12:
				ops = append(ops, M{"op": "select", "n": x.R.Intn(12) - 1})
			case r < 13:
				ops = append(ops, M{"op": "offset", "n": x.R.Intn(12) - 2})
			case r < 14:
				ops = append(ops, M{"op": "other", "via": via + x.R.Intn(4), "n": x.R.Intn(2)})
			case r < 15 && x.R.Intn(3) == 0:
				ops = append(ops, M{"op": "unselect"})
			case r < 16 && x.R.Intn(2) == 0:
				ops = append(ops, M{"op": "select", "n": huge0 + x.R.Intn(len(huges))}, M{"op": x.pick([]string{"next", "down", "prev"}), "n": 8, "via": via})
			case r < 17 && x.R.Intn(3) > 0:
				ops = append(ops, M{"op": x.pick([]string{"fork", "back", "back"})})
			case r < 17:
				reset()
			case r < 19:
				restyle()
			case r < 21 && len(items) > 0:
				k := x.R.Intn(len(items))
				items = append([]M{}, items...)
				if x.R.Intn(2) == 0 {
					items[k] = x.rndItem()
				} else {
					items = append(items[:k], items[k+1:]...)
				}
			default:
				o := M{"op": "render", "items": items, "plain": x.R.Intn(10) / 9}
				for k, v := range look {
					o[k] = v
				}
				ops = append(ops, o)
			}
		}
		x.Case(M{"ops": ops})
	}
}
