package main

import "github.com/metafates/bento"

func rectOf(v []int) bento.Rect {
	return bento.Rect{Position: bento.NewPosition(v[0], v[1]), Width: v[2], Height: v[3]}
}

func rectArr(r bento.Rect) []int { return []int{r.X, r.Y, r.Width, r.Height} }

func rectArrs(rs []bento.Rect) [][]int {
	out := [][]int{}
	for _, r := range rs {
		out = append(out, rectArr(r))
	}
	return out
}

func init() {
	suites["geom"] = &Suite{Gen: genGeom, Exec: execGeom}
}

func execGeom(x *Ctx, c M) {
	a, b := c.Is("a"), c.Is("b")
	e := M{"op": c.S("k"), "a": a, "b": b}
	if b == nil {
		e["b"] = []int{}
	}
	var res any = []int{}
	e["fail"] = x.Do(func() {
		r := rectOf(a)
		switch c.S("k") {
		case "inter":
			res = rectArr(r.Intersection(rectOf(b)))
		case "contains":
			res = []int{b2i(r.Contains(bento.NewPosition(b[0], b[1])))}
		case "facts":
			res = []int{r.Area(), b2i(r.IsEmpty()), r.Left(), r.Right(), r.Top(), r.Bottom()}
		case "rows":
			res = rectArrs(r.Rows())
		case "cols":
			res = rectArrs(r.Columns())
		case "inner": // b = top, right, bottom, left
			res = rectArr(r.Inner(bento.NewPadding(b...)))
		case "innerwith": // the same through the single-side setters
			p := bento.NewPadding()
			p = p.WithTop(b[0]).WithRight(b[1]).WithBottom(b[2]).WithLeft(b[3])
			res = rectArr(r.Inner(p))
		case "innerlate": // setters replace only their side
			p := bento.NewPadding(b[4], b[5], b[6], b[7])
			switch b[8] {
			case 0:
				p = p.WithTop(b[0])
			case 1:
				p = p.WithRight(b[1])
			case 2:
				p = p.WithBottom(b[2])
			case 3:
				p = p.WithLeft(b[3])
			}
			res = rectArr(r.Inner(p))
		case "inner1":
			res = rectArr(r.Inner(bento.NewPadding(b[0])))
		case "inner2":
			res = rectArr(r.Inner(bento.NewPadding(b[0], b[1])))
		case "indent":
			res = rectArr(r.IndentX(b[0]))
		case "positioned":
			res = rectArr(r.Positioned(b[0], b[1]))
		case "withwidth":
			res = rectArr(r.WithWidth(b[0]))
		case "withheight":
			res = rectArr(r.WithHeight(b[0]))
		case "new":
			res = rectArr(bento.NewRect(a[2], a[3]))
		}
	})
	e["r"] = res
	x.Ev(e)
}

func genGeom(x *Ctx) {
	var rects [][]int
	for px := 0; px < 3; px++ {
		for py := 0; py < 3; py += 2 {
			for w := 0; w < 4; w++ {
				for h := 0; h < 4; h++ {
					rects = append(rects, []int{px, py, w, h})
				}
			}
		}
	}
	for _, a := range rects {
		for _, k := range []string{"facts", "rows", "cols", "new"} {
			x.Case(M{"k": k, "a": a})
		}
		for i := 0; i < 5; i++ {
			for _, k := range []string{"indent", "withwidth", "withheight", "inner1"} {
				x.Case(M{"k": k, "a": a, "b": []int{i}})
			}
			for j := 0; j < 6; j++ {
				for _, k := range []string{"contains", "positioned", "inner2"} {
					x.Case(M{"k": k, "a": a, "b": []int{i, j}})
				}
			}
		}
		for _, b := range rects {
			x.Case(M{"k": "inter", "a": a, "b": b})
		}
	}
	m := 3
	for p := 0; p < m*m*m*m; p++ {
		pad := []int{p % m, p / m % m, p / m / m % m, p / m / m / m}
		for _, a := range [][]int{{0, 0, 2, 5}, {1, 2, 3, 3}, {5, 1, 4, 1}, {2, 2, 6, 6}} {
			x.Case(M{"k": "inner", "a": a, "b": pad})
			x.Case(M{"k": "innerwith", "a": a, "b": pad})
			for side := 0; side < 4; side++ {
				x.Case(M{"k": "innerlate", "a": a, "b": append(append([]int{}, pad...), 1, 0, 2, 1, side)})
			}
		}
	}
	rnd := func(n int) int {
		switch x.R.Intn(4) {
		case 0:
			return x.R.Intn(4)
		case 1:
			return x.R.Intn(n)
		default:
			return x.R.Intn(20)
		}
	}
	rr := func() []int { return []int{rnd(1000) - 5, rnd(1000) - 5, rnd(300), rnd(300)} }
	for i := 0; i < x.Pick(8000, 80000); i++ {
		a := rr()
		switch x.R.Intn(8) {
		case 0, 1, 2:
			x.Case(M{"k": "inter", "a": a, "b": rr()})
		case 3:
			b := rr()
			x.Case(M{"k": "contains", "a": a, "b": []int{a[0] + x.R.Intn(a[2]+2) - 1, a[1] + b[2]%(a[3]+2) - 1}})
		case 4:
			x.Case(M{"k": "inner", "a": a, "b": []int{rnd(100), rnd(100), rnd(100), rnd(100)}})
		case 5:
			x.Case(M{"k": "innerwith", "a": a, "b": []int{rnd(100), rnd(100), rnd(100), rnd(100)}})
		case 6:
			x.Case(M{"k": "indent", "a": a, "b": []int{rnd(400)}})
		case 7:
			a[2], a[3] = a[2]%12, a[3]%12
			x.Case(M{"k": []string{"rows", "cols", "facts"}[x.R.Intn(3)], "a": a})
		}
	}
}
