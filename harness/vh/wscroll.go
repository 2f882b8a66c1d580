package main

import (
	"math"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/scrollwidget"
)

func init() { suites["scroll"] = &Suite{Gen: genScroll, Exec: execScroll} }

var scrollSides = []string{"right", "left", "bottom", "top"}
var scrollOri = []scrollwidget.Orientation{scrollwidget.OrientationVerticalRight, scrollwidget.OrientationVerticalLeft, scrollwidget.OrientationHorizontalBottom, scrollwidget.OrientationHorizontalTop}

func execScroll(x *Ctx, c M) {
	asciiOnly = true
	st := scrollwidget.NewState(0)
	n := 0
	for _, o := range c.Ms("ops") {
		op := o.S("op")
		e := M{"op": op, "fail": "", "n": o.I("n")}
		switch op {
		case "render":
			e["o"] = scrollSides[o.I("o")]
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				scrollwidget.New(scrollOri[o.I("o")]).RenderStateful(area, b, st)
			})
		case "vast": // n rows, more than can be multiplied, at pos/n = p/8, of which w/8 of n (or one row) are visible
			n := math.MaxInt
			if o.I("n") < 62 {
				n = 1 << o.I("n")
			}
			part := func(k int) int {
				if k == 8 {
					return n
				}
				return n / 8 * k
			}
			e["p"], e["w"], e["o"] = o.I("p"), o.I("w"), scrollSides[o.I("o")]
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				s := scrollwidget.NewState(n)
				s.SetPosition(part(o.I("p"))).SetViewportContentLen(max(1, part(o.I("w"))))
				scrollwidget.New(scrollOri[o.I("o")]).RenderStateful(area, b, s)
			})
		case "inner":
			e["o"], e["area"] = scrollSides[o.I("o")], o.Is("area")
			e["fail"] = x.Do(func() { e["inner"] = rectArr(scrollwidget.New(scrollOri[o.I("o")]).Inner(rectOf(o.Is("area")))) })
		default:
			e["fail"] = x.Do(func() {
				switch op {
				case "new":
					n = o.I("n")
					st = scrollwidget.NewState(n)
				case "next":
					st.Next()
				case "prev":
					st.Prev()
				case "fwd":
					st.Scroll(scrollwidget.DirectionForward)
				case "bwd":
					st.Scroll(scrollwidget.DirectionBackward)
				case "first":
					st.First()
				case "last":
					st.Last()
				case "set":
					st = *st.SetPosition(o.I("n"))
				case "view":
					st.SetViewportContentLen(o.I("n"))
				}
			})
		}
		e["pos"] = st.Position()
		r := st.Ratio() * float64(n)
		switch {
		case n == 0 && st.Ratio() == 0:
			e["ratio"] = 0
		case math.IsNaN(r) || math.IsInf(r, 0) || math.Abs(r-math.Round(r)) > 1e-6:
			e["ratio"] = -1
		default:
			e["ratio"] = int(math.Round(r))
		}
		x.Ev(e)
		if e["fail"] != "" {
			return
		}
	}
}

func genScroll(x *Ctx) {
	// every position of small contents on every small track
	for n := 0; n <= x.Pick(6, 14); n++ {
		for _, v := range []int{0, 1, 3, 8} {
			for o := 0; o < 4; o++ {
				ops := []M{{"op": "new", "n": n}, {"op": "view", "n": v}}
				for p := 0; p < max(1, n); p++ {
					for w := 1; w <= x.Pick(6, 12); w++ {
						a := []int{1, 1, w, 1 + (w+p)%2}
						if o < 2 {
							a = []int{1, 1, 1 + (w+p)%2, w + 2*b2i(n%2 == 0)}
						}
						ops = append(ops, M{"op": "render", "o": o, "barea": []int{0, 0, a[2] + 2, a[3] + 2}, "area": a})
					}
					ops = append(ops, M{"op": []string{"next", "fwd"}[p%2]})
				}
				x.Case(M{"ops": ops})
			}
		}
	}
	for m := 0; m < x.Pick(40, 300); m++ {
		n := []int{2, 40, 255, 300, 1000, 65537, 1000000}[x.R.Intn(7)]
		L := 200 + x.R.Intn(120)
		ops := []M{{"op": "new", "n": n}, {"op": "view", "n": []int{0, 1, x.R.Intn(n), L}[x.R.Intn(4)]}}
		for k := 0; k < 4; k++ {
			o := x.R.Intn(4)
			a := []int{0, 0, L, 1}
			if o < 2 {
				a = []int{0, 0, 1, L}
			}
			ops = append(ops, M{"op": "set", "n": x.R.Intn(n)}, M{"op": []string{"last", "next", "prev"}[x.R.Intn(3)]}, M{"op": "render", "o": o, "barea": []int{0, 0, a[2], a[3]}, "area": a})
		}
		x.Case(M{"ops": ops})
	}
	for _, n := range []int{36, 54, 58, 60, 61, 62} {
		for p := 0; p <= 8; p++ {
			var ops []M
			for _, w := range []int{0, 1, 8} {
				o, L := x.R.Intn(4), 3+x.R.Intn(40)
				if w == 0 && p%2 == 0 {
					L = 257
				}
				a := []int{1, 2, L, 1}
				if o < 2 {
					a = []int{1, 2, 1, L}
				}
				ops = append(ops, M{"op": "vast", "n": n, "p": p, "w": w, "o": o, "barea": a, "area": a})
			}
			x.Case(M{"ops": append([]M{{"op": "new", "n": 0}}, ops...)})
		}
	}
	for m := 0; m < x.Pick(300, 5000); m++ {
		n := x.R.Intn(12)
		if x.R.Intn(5) == 0 {
			n = x.R.Intn(100000)
		}
		ops := []M{{"op": "new", "n": n}}
		for len(ops) < 25 {
			switch r := x.R.Intn(14); {
			case r < 5:
				ops = append(ops, M{"op": x.pick([]string{"next", "prev", "fwd", "bwd"})})
			case r < 6:
				ops = append(ops, M{"op": x.pick([]string{"first", "last"})})
			case r < 8:
				ops = append(ops, M{"op": "set", "n": x.R.Intn(n+4) - 2})
			case r < 9:
				ops = append(ops, M{"op": "view", "n": x.R.Intn(n + 3)})
			case r < 10:
				_, a := x.rndAreas(6, 6)
				ops = append(ops, M{"op": "inner", "o": x.R.Intn(4), "area": a})
			default:
				barea, area := x.rndAreas(10, 10)
				ops = append(ops, M{"op": "render", "o": x.R.Intn(4), "barea": barea, "area": area})
			}
		}
		x.Case(M{"ops": ops})
	}
}
