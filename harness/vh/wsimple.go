package main

import (
	"strings"

	"math"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
)

func init() { suites["simple"] = &Suite{Gen: genSimple, Exec: execSimple} }

func spanEv(s M) M { return M{"st": styleOps(s.Ms("st")), "gs": graphemesC(s.S("s"))} }

func lineEvs(ls []M) []M {
	out := []M{}
	for _, l := range ls {
		out = append(out, lineEv(l))
	}
	return out
}

func sizeOf(c []any) bento.Constraint {
	n := toInt(c[1])
	if c[0].(string) == "len" {
		return bento.ConstraintLen(n)
	}
	return bento.ConstraintPercentage(n)
}

func toInt(v any) int {
	switch v := v.(type) {
	case int:
		return v
	case float64:
		return int(v)
	}
	return 0
}

func execSimple(x *Ctx, c M) {
	asciiOnly = true
	for _, o := range c.Ms("ops") {
		e := M{"op": o.S("op"), "fail": ""}
		switch o.S("op") {
		case "gauge":
			e["n"], e["d"], e["uni"], e["st"], e["gs"], e["blk"] = o.I("n"), o.I("d"), o.I("uni"), styleOps(o.Ms("st")), styleOps(o.Ms("gs")), optBlock(o)
			label := []M{}
			for _, s := range o.Ms("label") {
				label = append(label, spanEv(s))
			}
			e["label"] = label
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				g := gaugewidget.New().WithStyle(styleOf(o.Ms("st"))).WithGaugeStyle(styleOf(o.Ms("gs"))).WithUnicode(o.I("uni") == 1)
				if o.I("d") == 100 {
					g = g.WithPercent(o.I("n"))
				} else {
					g = g.WithRatio(float64(o.I("n")) / float64(o.I("d")))
				}
				for _, s := range o.Ms("label") {
					if len(s.Ms("st")) == 0 {
						g = g.WithLabelStr(s.S("s"))
					} else {
						g = g.WithLabel(spanOf(s))
					}
				}
				g.Render(area, b)
			})
		case "ratio":
			e["ratio"], e["ok"] = o.S("ratio"), o.I("ok")
			e["fail"] = x.Do(func() {
				switch o.S("ratio") {
				case "percent":
					gaugewidget.New().WithPercent(o.I("n"))
				case "nan":
					gaugewidget.New().WithRatio(math.NaN())
				case "inf":
					gaugewidget.New().WithRatio(math.Inf(o.I("n")))
				default:
					gaugewidget.New().WithRatio(float64(o.I("n")) / float64(o.I("d")))
				}
			})
		case "tabs":
			e["titles"], e["sel"], e["st"], e["hl"], e["blk"] = lineEvs(o.Ms("titles")), o.I("sel"), styleOps(o.Ms("st")), styleOps(o.Ms("hl")), optBlock(o)
			e["padl"], e["padr"], e["div"] = lineEv(o.M("padl")), lineEv(o.M("padr")), spanEv(o.M("div"))
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				var titles []textwidget.Line
				for _, l := range o.Ms("titles") {
					titles = append(titles, lineOf(l))
				}
				t := tabswidget.New(titles...)
				if len(titles)%2 == 1 {
					t = tabswidget.New().WithTitles(titles...)
				}
				t = t.WithStyle(styleOf(o.Ms("st"))).WithHighlightStyle(styleOf(o.Ms("hl")))
				// plain parts are given as strings, and the default ones now and then not at all
				by := len(titles) + o.I("sel") + len(o.Ms("st"))
				if s, ok := plainLine(o.M("padl")); !ok {
					t = t.WithPaddingLeft(lineOf(o.M("padl")))
				} else if s != " " || by%3 != 0 {
					t = t.WithPaddingLeftStr(s)
				}
				if s, ok := plainLine(o.M("padr")); !ok {
					t = t.WithPaddingRight(lineOf(o.M("padr")))
				} else if s != " " || by%3 != 1 {
					t = t.WithPaddingRightStr(s)
				}
				if len(o.M("div").Ms("st")) > 0 || by%2 == 0 {
					t = t.WithDivider(spanOf(o.M("div")))
				} else {
					t = t.WithDividerStr(o.M("div").S("s"))
				}
				if o.I("sel") >= -1 {
					t = t.Select(max(0, o.I("sel")))
				}
				if o.I("sel") == -1 {
					t = t.Unselect()
				}
				if len(o.M("blk")) > 0 {
					t = t.WithBlock(blockOf(o.M("blk")))
				}
				t.Render(area, b)
			})
		case "fill":
			e["sym"], e["st"] = jsafe(o.S("sym")), styleOps(o.Ms("st"))
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				fillwidget.New(o.S("sym")).WithStyle(styleOf(o.Ms("st"))).Render(area, b)
			})
		case "clear":
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) { clearwidget.New().Render(area, b) })
		case "popup":
			w, h := o["width"].([]any), o["height"].([]any)
			pad := []int{0, 0, 0, 0}
			if p := o.Is("pad"); len(p) == 4 {
				pad = p
			}
			e["width"], e["height"], e["h"], e["v"], e["st"], e["blk"], e["pad"], e["inner"] = w, h, o.I("h"), o.I("v"), styleOps(o.Ms("st")), optBlock(o), pad, []int{0, 0, 0, 0}
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				p := popupwidget.New().WithStyle(styleOf(o.Ms("st"))).WithWidth(sizeOf(w)).WithHeight(sizeOf(h)).WithPadding(padOf(pad))
				p = []func() popupwidget.Popup{p.Left, p.Center, p.Right}[o.I("h")]()
				p = []func() popupwidget.Popup{p.Top, p.Middle, p.Bottom}[o.I("v")]()
				if len(o.M("blk")) > 0 {
					p = p.WithBlock(blockOf(o.M("blk")))
				}
				e["inner"] = rectArr(p.Inner(area))
				p.Render(area, b)
			})
		}
		x.Ev(e)
	}
}

func genSimple(x *Ctx) {
	var ops []M
	flush := func(n int) {
		if len(ops) >= n && len(ops) > 0 {
			x.Case(M{"ops": ops})
			ops = nil
		}
	}
	add := func(o M) {
		ops = append(ops, o)
		flush(25)
	}
	green := []M{sop("fg", "a:2", 0), sop("bg", "a:5", 0)}
	// every percentage at some width, every eighth of every small width
	for n := 0; n <= 100; n++ {
		w := 1 + x.R.Intn(12)
		add(M{"op": "gauge", "n": n, "d": 100, "uni": n % 2, "gs": green, "barea": []int{0, 0, 14, 3}, "area": []int{1, 1, w, 1 + n%2}})
		add(M{"op": "gauge", "n": n, "d": 100, "uni": 1 - n%2, "gs": []M{}, "label": []M{{"s": ""}}, "barea": []int{0, 0, 14, 3}, "area": []int{1, 0, 1 + x.R.Intn(12), 2}})
	}
	for w := 1; w <= x.Pick(6, 12); w++ {
		for n := 0; n <= 8*w; n++ {
			for uni := 0; uni < 2; uni++ {
				add(M{"op": "gauge", "n": n, "d": 8 * w, "uni": uni, "gs": green, "label": []M{{"s": []string{"", "ab", "世"}[n%3], "st": []M{sop("mod", "", 1)}}}, "barea": []int{0, 0, w + 2, 2}, "area": []int{1, 0, w, 1 + n%2}})
			}
		}
	}
	flush(1)
	for _, n := range []int{-1, 0, 50, 100, 101, 1000, -1000} {
		add(M{"op": "ratio", "ratio": "percent", "n": n, "ok": b2i(n >= 0 && n <= 100)})
		add(M{"op": "ratio", "ratio": "of 100", "n": n, "d": 100, "ok": b2i(n >= 0 && n <= 100)})
	}
	add(M{"op": "ratio", "ratio": "nan", "ok": 0})
	add(M{"op": "ratio", "ratio": "inf", "n": 1, "ok": 0})
	add(M{"op": "ratio", "ratio": "inf", "n": -1, "ok": 0})
	add(M{"op": "ratio", "ratio": "above", "n": 1000000001, "d": 1000000000, "ok": 0})
	flush(1)
	blk := func(o M) M {
		if x.R.Intn(3) == 0 {
			o["blk"] = x.rndBlock()
		}
		o["barea"], o["area"] = x.rndAreas(16, 5)
		return o
	}
	sps := func() []M {
		if x.R.Intn(2) == 0 {
			return []M{}
		}
		return []M{x.rndLine(titleAlpha, 6).Ms("sp")[0]}
	}
	for i := 0; i < x.Pick(800, 8000); i++ {
		d := []int{100, 100, 8, 16, 64, 3, 7, 1}[x.R.Intn(8)]
		barea, area := x.rndAreas(16, 5)
		add(M{"op": "gauge", "n": x.R.Intn(d + 1), "d": d, "uni": x.R.Intn(2), "st": x.rndStyled(2), "gs": x.rndStyled(2), "label": sps(), "barea": barea, "area": area})
	}
	pad := func(s string) M {
		if x.R.Intn(3) > 0 {
			return M{"sp": []M{{"s": s}}}
		}
		return x.rndLine(titleAlpha, 2)
	}
	// wider and higher than usual
	for i := 0; i < x.Pick(16, 120); i++ {
		w, h := 200+x.R.Intn(200), 1+x.R.Intn(2)
		add(M{"op": "gauge", "n": x.R.Intn(101), "d": 100, "uni": x.R.Intn(2), "st": x.rndStyled(1), "gs": x.rndStyled(1), "label": sps(), "barea": []int{0, 0, w, h}, "area": []int{0, 0, w, h}})
		var ts []M
		for n := 40 + x.R.Intn(30); n > 0; n-- {
			ts = append(ts, x.rndLine(titleAlpha, 4))
		}
		add(M{"op": "tabs", "titles": ts, "sel": x.R.Intn(70), "st": x.rndStyled(1), "hl": x.rndStyled(1), "padl": M{"sp": []M{{"s": " "}}}, "padr": M{"sp": []M{{"s": " "}}}, "div": M{"s": "|"}, "barea": []int{0, 0, w, h}, "area": []int{0, 0, w, h}})
		if i%4 == 0 {
			w = 3
			if i%8 == 0 {
				w, h = 320, 3
			} else {
				h = 320
			}
			add(M{"op": "popup", "width": []any{"pct", 1 + x.R.Intn(100)}, "height": []any{"pct", 1 + x.R.Intn(100)}, "h": x.R.Intn(3), "v": x.R.Intn(3), "st": x.rndStyled(1), "barea": []int{0, 0, w, h}, "area": []int{0, 0, w, h}})
		}
	}
	for i := 0; i < x.Pick(2, 12); i++ {
		w := 500 + x.R.Intn(100)
		var ts []M
		for n := 130; n > 0; n-- {
			ts = append(ts, M{"sp": []M{{"s": x.pick([]string{"a", "b", "cd"})}}})
		}
		if i%2 == 1 {
			ts[1] = M{"sp": []M{{"s": strings.Repeat("long", 50+x.R.Intn(40))}}}
		}
		add(M{"op": "tabs", "titles": ts, "sel": x.R.Intn(130), "st": x.rndStyled(1), "hl": x.rndStyled(1), "padl": M{"sp": []M{{"s": " "}}}, "padr": M{"sp": []M{{"s": ""}}}, "div": M{"s": "|"}, "barea": []int{0, 0, w, 1}, "area": []int{0, 0, w, 1}})
		flush(1)
	}
	flush(1)
	for i := 0; i < x.Pick(1200, 12000); i++ {
		var ts []M
		for n := x.R.Intn(5); n > 0; n-- {
			ts = append(ts, x.rndLine(titleAlpha, 4))
		}
		div := M{"s": "\u2502"}
		if x.R.Intn(3) == 0 {
			div = M{"s": x.pick([]string{"", "|", "->", "世"}), "st": x.rndStyled(2)}
		}
		add(blk(M{"op": "tabs", "titles": ts, "sel": x.R.Intn(7) - 2, "st": x.rndStyled(2), "hl": x.rndStyled(1), "padl": pad(" "), "padr": pad(" "), "div": div}))
	}
	for i := 0; i < x.Pick(300, 3000); i++ {
		barea, area := x.rndAreas(8, 5)
		add(M{"op": "fill", "sym": x.pick([]string{"x", " ", "\u2588", "e\u0301"}), "st": x.rndStyled(1), "barea": barea, "area": area})
		if i%2 == 0 {
			add(M{"op": "clear", "barea": barea, "area": area})
		}
	}
	size := func() []any {
		if x.R.Intn(2) == 0 {
			return []any{"len", x.R.Intn(12)}
		}
		return []any{"pct", x.R.Intn(101)}
	}
	for i := 0; i < x.Pick(800, 8000); i++ {
		o := blk(M{"op": "popup", "width": size(), "height": size(), "h": x.R.Intn(3), "v": x.R.Intn(3), "st": x.rndStyled(2)})
		if x.R.Intn(4) == 0 {
			o["pad"] = []int{x.R.Intn(3), x.R.Intn(3), x.R.Intn(3), x.R.Intn(3)}
		}
		add(o)
	}
	flush(1)
}
