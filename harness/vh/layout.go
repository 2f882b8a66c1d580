package main

import (
	"reflect"
	"slices"
	"sync"
	"sync/atomic"

	"github.com/metafates/bento"
)

func init() { suites["layout"] = &Suite{Gen: genLayout, Exec: execLayout} }

const huge = 1000000 // stands for anything larger in the trace

func constraintOf(v []any) bento.Constraint {
	a, b := num(v[1]), num(v[2])
	switch a {
	case huge:
		a = int(^uint(0) >> 1)
	case -huge:
		a = -int(^uint(0)>>1) - 1
	}
	switch v[0].(string) {
	case "len":
		return bento.ConstraintLen(a)
	case "min":
		return bento.ConstraintMin(a)
	case "max":
		return bento.ConstraintMax(a)
	case "pct":
		return bento.ConstraintPercentage(a)
	case "ratio":
		return bento.ConstraintRatio{Num: a, Den: b}
	}
	return bento.ConstraintFill(a)
}

// handedOut are the segments as Unwrap, Unwrap2, ... and Assign hand them out.
func handedOut(s bento.Splitted) []bento.Rect {
	out := append([]bento.Rect{}, s...)
	switch len(s) {
	case 0:
		return []bento.Rect(s)
	case 1:
		out[0] = s.Unwrap()
	case 2:
		out[0], out[1] = s.Unwrap2()
	case 3:
		out[0], out[1], out[2] = s.Unwrap3()
	case 4:
		out[0], out[1], out[2], out[3] = s.Unwrap4()
	}
	if !reflect.DeepEqual(out, []bento.Rect(s)) {
		return out
	}
	// some are skipped, the last ones are left out
	ps := make([]*bento.Rect, max(1, len(s)-len(s)/3))
	for i := range ps {
		out[i] = bento.Rect{}
		if i%3 != 1 {
			ps[i] = &out[i]
		}
	}
	s.Assign(ps...)
	for i := range ps {
		if ps[i] == nil && out[i] == (bento.Rect{}) {
			out[i] = s[i]
		}
	}
	return out
}

func execLayout(x *Ctx, c M) {
	for _, o := range c.Ms("ops") {
		e := M{"op": "split", "cs": o["cs"], "dir": o.I("dir"), "flex": o.I("flex"), "s": o.I("s"), "pad": o.Is("pad"), "area": o.Is("area"), "same": 1, "segs": []any{}, "sps": []any{}, "fail": ""}
		e["fail"] = x.Do(func() {
			var cs []bento.Constraint
			for _, v := range o["cs"].([]any) {
				cs = append(cs, constraintOf(v.([]any)))
			}
			p := o.Is("pad")
			mk := func() bento.Layout {
				var sp bento.Spacing
				switch s := o.I("s"); {
				case o.I("as") == 1:
					sp = bento.SpacingOverlap(-s)
				case o.I("as") == 2 && s == 0:
					sp = nil
				default:
					sp = bento.SpacingSpace(s)
				}
				l := bento.NewLayout(append([]bento.Constraint{}, cs...)...)
				if o.I("how") == 1 && len(cs) > 1 {
					// the same list in two steps, with another layout made from the first part
					base := bento.NewLayout(append(make([]bento.Constraint, 0, len(cs)+3), cs[:len(cs)-1]...)...)
					l = base.WithConstraints(cs[len(cs)-1])
					base.WithConstraints(bento.ConstraintLen(1), bento.ConstraintFill(1))
				}
				switch dirs := []bento.Direction{bento.DirectionVertical, bento.DirectionHorizontal}; {
				case o.I("again") == 1:
					l = l.WithDirection(dirs[o.I("dir")])
				case o.I("dir") == 1:
					l = l.Horizontal()
				default:
					l = l.Vertical()
				}
				return l.WithFlex(bento.Flex(o.I("flex"))).WithSpacing(sp).WithPadding(bento.NewPadding(p[0], p[1], p[2], p[3]))
			}
			area := rectOf(o.Is("area"))
			l := mk()
			segs, sps := l.SplitWithSpacers(area)
			e["segs"], e["sps"] = rectArrs(segs), rectArrs(sps)
			if o.I("how") == 1 {
				o["how"] = 0
				if !reflect.DeepEqual(segs, mk().Split(area)) {
					e["same"] = 0
				}
				o["how"] = 1
			}
			if o.I("how") == 2 {
				// several goroutines at once, some with another layout
				var wg sync.WaitGroup
				var off atomic.Bool
				o["how"] = 0
				for k := 0; k < 4; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if recover() != nil {
								off.Store(true)
							}
						}()
						for j := 0; j < 3; j++ {
							if k%2 == 1 {
								mk().WithPadding(bento.NewPadding(k)).Split(area)
							} else if !reflect.DeepEqual(segs, mk().Split(area)) {
								off.Store(true)
							}
						}
					}()
				}
				wg.Wait()
				o["how"] = 2
				e["same"] = b2i(!off.Load())
			}
			if !reflect.DeepEqual(handedOut(segs), []bento.Rect(segs)) {
				e["segs"] = rectArrs(handedOut(segs))
			}
			for k := 0; k < o.I("again"); k++ {
				// what was given out is the caller's: whatever happens to it, a later split is what it was
				mine, between := slices.Clone(segs), slices.Clone(sps)
				for i := range segs {
					segs[i] = rectOf([]int{7, 7, 7, 7})
				}
				for i := range sps {
					sps[i] = rectOf([]int{9, 9, 9, 9})
				}
				segs, sps = mine, between
				s2, p2 := l.SplitWithSpacers(area)
				l = mk()
				if !reflect.DeepEqual(segs, s2) || !reflect.DeepEqual(sps, p2) || !reflect.DeepEqual(segs, l.Split(area)) {
					e["same"] = 0
				}
			}
		})
		x.Ev(e)
	}
}

func genLayout(x *Ctx) {
	con := func(k string, a, b int) []any { return []any{k, a, b} }
	var ops []M
	flush := func(n int) {
		if len(ops) >= n && len(ops) > 0 {
			x.Case(M{"ops": ops})
			ops = nil
		}
	}
	add := func(cs []any, w, flex, s int) {
		o := M{"cs": cs, "dir": x.R.Intn(2), "flex": flex, "s": s, "pad": []int{0, 0, 0, 0}, "area": []int{0, 0, w, w}, "again": b2i(x.R.Intn(4) == 0), "as": x.R.Intn(3), "how": []int{0, 0, 0, 0, 0, 1, 1, 2}[x.R.Intn(8)]}
		if s < 0 {
			o["as"] = 1
		}
		if s > 0 && o.I("as") == 1 {
			o["as"] = 0
		}
		if x.R.Intn(3) == 0 {
			o["pad"] = []int{x.R.Intn(3), x.R.Intn(3), x.R.Intn(3), x.R.Intn(3)}
			p := o.Is("pad")
			o["area"] = []int{x.R.Intn(40), x.R.Intn(40), w + p[1] + p[3], w + p[0] + p[2]}
			if x.R.Intn(2) == 0 {
				o["area"] = []int{x.R.Intn(40), x.R.Intn(40), x.R.Intn(8), w}
			}
		}
		ops = append(ops, o)
		flush(50)
	}
	// all short lists over all kinds
	var kinds [][]any
	for _, v := range []int{0, 1, 4, huge} {
		kinds = append(kinds, con("len", v, 0), con("min", v, 0), con("max", v, 0))
	}
	kinds = append(kinds, con("pct", 0, 0), con("pct", 50, 0), con("pct", 33, 0), con("pct", 120, 0), con("ratio", 1, 3), con("ratio", 2, 0), con("ratio", 0, 5), con("fill", 0, 0), con("fill", 1, 0), con("fill", 3, 0), con("len", -huge, 0))
	for _, a := range kinds {
		for w := 0; w <= 10; w += 1 + x.R.Intn(3) {
			for f := 0; f < 6; f++ {
				add([]any{a}, w, f, x.R.Intn(3))
			}
		}
		for _, b := range kinds {
			for f := 0; f < 6; f++ {
				for k := x.Pick(1, 12); k > 0; k-- {
					add([]any{a, b}, x.R.Intn(11), f, x.R.Intn(3)*x.R.Intn(2))
				}
			}
			for _, c := range kinds {
				if x.Thorough() || x.R.Intn(6) == 0 {
					add([]any{a, b, c}, x.R.Intn(14), x.R.Intn(6), x.R.Intn(3)*x.R.Intn(2))
				}
			}
		}
	}
	flush(1)
	rnd := func() []any {
		v := []int{0, 1, 2, 3, 5, 7, 10, 15, 20, 50, huge}[x.R.Intn(11)]
		switch x.R.Intn(6) {
		case 0:
			return con("len", v, 0)
		case 1:
			return con("min", v, 0)
		case 2:
			return con("max", v, 0)
		case 3:
			return con("pct", []int{0, 1, 10, 20, 25, 33, 50, 66, 75, 99, 100, 150}[x.R.Intn(12)], 0)
		case 4:
			return con("ratio", x.R.Intn(4), x.R.Intn(8))
		}
		return con("fill", []int{0, 1, 1, 2, 3, 5, 10, 100}[x.R.Intn(8)], 0)
	}
	for i := 0; i < x.Pick(6000, 80000); i++ {
		n := x.R.Intn(7)
		var cs = []any{}
		only := rnd()[0].(string)
		for len(cs) < n {
			c := rnd()
			if i%3 == 0 && c[0] != only && c[0] != "len" {
				continue
			}
			cs = append(cs, c)
		}
		w := x.R.Intn(31)
		if x.R.Intn(4) == 0 {
			w = x.R.Intn(301)
		}
		s := x.R.Intn(5) * x.R.Intn(2)
		if x.R.Intn(8) == 0 {
			s = -1 - x.R.Intn(4)
		}
		add(cs, w, x.R.Intn(6), s)
	}
	flush(1)
	// fixed segments with room to spare in every mode
	for i := 0; i < x.Pick(300, 4000); i++ {
		n := 1 + x.R.Intn(5)
		var cs = []any{}
		tot := 0
		for len(cs) < n {
			v := x.R.Intn(8)
			tot += v
			cs = append(cs, con([]string{"len", "max"}[x.R.Intn(2)], v, 0))
		}
		s := x.R.Intn(4)
		w := tot + s*(n+1) + x.R.Intn(20)
		for f := 0; f < 6; f++ {
			add(cs, w, f, s)
		}
	}
	flush(1)
	// long lists (lists of many growing segments, and many segments with flexible space between, take long: every pair is related)
	for i := 0; i < x.Pick(16, 150); i++ {
		n := []int{30, 36, 43, 50, 64, 85, 128}[x.R.Intn(x.Pick(5, 7))]
		growing := 0
		cs := []any{}
		c := rnd()
		for len(cs) < n {
			if i%2 == 0 || c[0] == "fill" || c[0] == "min" {
				c = rnd()
			}
			if c[0] == "fill" || c[0] == "min" {
				if growing++; growing > 10 {
					continue
				}
			}
			cs = append(cs, c)
		}
		add(cs, 50+x.R.Intn(200), i%4, x.R.Intn(2))
		flush(1)
	}
	for i := 0; i < x.Pick(6, 40); i++ {
		cs := []any{}
		for n := 12 + x.R.Intn(8); len(cs) < n; {
			cs = append(cs, rnd())
		}
		add(cs, 50+x.R.Intn(200), i%6, x.R.Intn(2))
		flush(1)
	}
}
