package main

import (
	"strings"
	"sync"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/throbberwidget"
)

func init() { suites["throb"] = &Suite{Gen: genThrob, Exec: execThrob} }

var throbKinds = []string{"line", "hblock", "vblock", "braille", "paren", "canadian", "ellipsis", "meter", "pulse"}
var throbTypes = []throbberwidget.Type{throbberwidget.TypeLine, throbberwidget.TypeHorizontalBlock, throbberwidget.TypeVerticalBlock, throbberwidget.TypeBrailleEight,
	throbberwidget.TypeParenthesis, throbberwidget.TypeCanadian, throbberwidget.TypeEllipsis, throbberwidget.TypeMeter, throbberwidget.TypePulse}

func throbRow(t throbberwidget.Throbber, s throbberwidget.State) []string {
	b := bento.NewBufferEmpty(bento.Rect{Width: 3, Height: 1})
	t.RenderStateful(b.Area(), &b, s)
	out := []string{}
	for i := 0; i < 3; i++ {
		out = append(out, jsafe(b.CellAt(bento.NewPosition(i, 0)).Symbol))
	}
	return out
}

// A tick that has come, or a command that has not run yet.
type tickOrCmd struct {
	msg bento.Msg
	cmd bento.Cmd
}

func execThrob(x *Ctx, c M) {
	asciiOnly = true
	var ths []throbberwidget.State
	var ms []*tickOrCmd
	real := map[int]int{} // real ids -> ours
	meter, dots := throbberwidget.New().WithType(throbberwidget.TypeMeter), throbberwidget.New().WithType(throbberwidget.TypeBrailleEight)
	lazy := c.I("lazy") == 1
	var fps time.Duration
	idOf := func(m bento.Msg) int {
		if t, ok := m.(throbberwidget.TickMsg); ok {
			if i := real[t.ID()]; i > 0 {
				return i
			}
			return 1000 + t.ID()%1000
		}
		return -1
	}
	for _, o := range c.Ms("ops") {
		e := M{"op": o.S("op"), "fail": ""}
		i := o.I("i")
		e["i"] = i + 1
		skip := false
		e["fail"] = x.Do(func() {
			switch o.S("op") {
			case "new":
				n := o.I("n")
				ids := []int{}
				made := make([]throbberwidget.State, n)
				if o.I("conc") > 0 { // made at the same time, among others
					var wg sync.WaitGroup
					all := make([][]throbberwidget.State, n)
					for g := range all {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for k := 0; k < o.I("conc"); k++ {
								all[g] = append(all[g], throbberwidget.NewState())
							}
						}()
					}
					wg.Wait()
					seen := map[int]bool{}
					for g := range all {
						for _, s := range all[g] {
							if seen[s.ID()] { // these two are looked at
								real[s.ID()] = 0
								made[0], made[n-1] = s, s
							}
							seen[s.ID()] = true
						}
						if made[g].ID() == 0 {
							made[g] = all[g][0]
						}
					}
				} else {
					for k := range made {
						made[k] = throbberwidget.NewState()
					}
				}
				for k, s := range made {
					fps = time.Microsecond * time.Duration(o.I("us"))
					s = *s.WithFPS(fps)
					ths = append(ths, s)
					if real[s.ID()] == 0 {
						real[s.ID()] = k + 1
					}
					ids = append(ids, real[s.ID()])
				}
				e["n"], e["ids"] = n, ids
			case "copy":
				ths = append(ths, ths[i])
			case "run": // many ticks, each in its turn
				e["n"], e["taken"], e["asked"] = o.I("n"), 0, 0
				for k := 0; k < o.I("n"); k++ {
					cmd, ok := ths[i].TryUpdate(ths[i].Tick())
					e["taken"], e["asked"] = e["taken"].(int)+b2i(ok), e["asked"].(int)+b2i(cmd != nil)
				}
			case "tick":
				m := ths[i].Tick()
				ms = append(ms, &tickOrCmd{msg: m})
				e["id"] = idOf(m)
			case "update":
				k := o.I("k")
				var m bento.Msg
				e["k"], e["what"], e["id"] = 0, "something else", 0
				switch {
				case k == 0:
					m = []bento.Msg{throbberwidget.TickMsg{}, nil, bento.KeyMsg{}, "tick", &throbberwidget.TickMsg{}, time.Now()}[o.I("other")%6]
					if o.I("other")%6 == 0 {
						e["what"] = "a tick of nobody"
					}
				case k > len(ms):
					skip = true
					return
				default:
					t := ms[k-1]
					if t.cmd != nil {
						t.msg, t.cmd = t.cmd(), nil
					}
					m = t.msg
					e["k"], e["what"], e["id"] = k, "a tick", idOf(m)
				}
				t0 := time.Now()
				cmd, ok := ths[i].TryUpdate(m)
				e["ok"], e["cmd"], e["early"] = b2i(ok), b2i(cmd != nil), 0
				if cmd != nil {
					t := &tickOrCmd{cmd: cmd}
					if !lazy {
						t.msg, t.cmd = cmd(), nil
						e["early"] = b2i(time.Since(t0) < fps)
					}
					ms = append(ms, t)
				}
			}
		})
		if skip {
			continue
		}
		if o.S("op") == "render" {
			e["kind"] = throbKinds[o.I("kind")]
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				throbberwidget.New().WithType(throbTypes[o.I("kind")]).RenderStateful(area, b, ths[i])
			})
		}
		shows := []any{}
		if f := x.Do(func() {
			for k := range ths {
				shows = append(shows, []any{throbRow(meter, ths[k]), throbRow(dots, ths[k])})
			}
		}); f != "" && e["fail"] == "" {
			e["fail"] = f
		}
		e["shows"] = shows
		x.Ev(e)
		if strings.HasPrefix(e["fail"].(string), "panic") {
			return
		}
	}
}

func genThrob(x *Ctx) {
	start := func(n int) M { return M{"op": "new", "n": n, "us": x.R.Intn(3)} }
	// all histories of a few steps: start either of two throbbers, give any tick to either one
	var rec func(ops []M, ms, depth int)
	steps := x.Pick(4, 5)
	rec = func(ops []M, ms, depth int) {
		if depth == steps {
			x.Case(M{"ops": append([]M{start(2)}, ops...), "lazy": len(ops) % 2})
			return
		}
		next := func(o M, more int) { rec(append(ops[:len(ops):len(ops)], o), ms+more, depth+1) }
		for i := 0; i < 2; i++ {
			next(M{"op": "tick", "i": i}, 1)
			for k := 1; k <= ms; k++ {
				next(M{"op": "update", "i": i, "k": k}, 1) // there may be one more: indices that do not exist are left out when run
			}
		}
		next(M{"op": "update", "i": depth % 2, "k": 0, "other": 0}, 0)
	}
	rec(nil, 0, 0)
	// random histories
	for n := 0; n < x.Pick(400, 4000); n++ {
		k := 1 + x.R.Intn(3)
		ops := []M{start(k)}
		ms := 0
		for len(ops) < 40 {
			i := x.R.Intn(k)
			switch r := x.R.Intn(20); {
			case r < 2 || ms == 0:
				ops = append(ops, M{"op": "tick", "i": i})
				ms++
			case r < 3 && k < 4:
				ops = append(ops, M{"op": "copy", "i": i})
				k++
			case r < 5:
				ops = append(ops, M{"op": "update", "i": i, "k": 0, "other": x.R.Intn(6)})
			case r < 7:
				barea, area := x.rndAreas(6, 3)
				ops = append(ops, M{"op": "render", "i": i, "kind": x.R.Intn(9), "barea": barea, "area": area})
			case r < 14: // the newest ones, which mostly are current
				ops = append(ops, M{"op": "update", "i": i, "k": max(1, ms-x.R.Intn(3))})
				ms++
			default:
				ops = append(ops, M{"op": "update", "i": i, "k": 1 + x.R.Intn(ms)})
			}
		}
		x.Case(M{"ops": ops, "lazy": n % 2})
	}
	// long runs, after which the old ticks still are old
	for _, k := range []int{1, 2, 7, 100, 255, 256, 257, 4096, 65536} {
		ops := []M{start(2), {"op": "tick", "i": 0}, {"op": "tick", "i": 1}, {"op": "run", "i": 0, "n": k}, {"op": "update", "i": 0, "k": 1}}
		for kind := range throbKinds {
			ops = append(ops, M{"op": "render", "i": 0, "kind": kind, "barea": []int{0, 0, 4, 1}, "area": []int{0, 0, 4, 1}})
		}
		ops = append(ops, M{"op": "update", "i": 1, "k": 2}, M{"op": "tick", "i": 0}, M{"op": "update", "i": 0, "k": 4}, M{"op": "update", "i": 0, "k": 1})
		x.Case(M{"ops": ops})
	}
	// the next tick is not due before its time
	for _, us := range []int{0, 500, 3000, 150000} {
		o := M{"op": "new", "n": 2, "us": us}
		x.Case(M{"ops": []M{o, {"op": "tick", "i": 0}, {"op": "update", "i": 0, "k": 1}, {"op": "update", "i": 0, "k": 2}, {"op": "update", "i": 0, "k": 3}, {"op": "copy", "i": 0}, {"op": "update", "i": 2, "k": 4}}})
	}
	// ... and neither is any other one, however long it has been going
	for _, run := range []int{0, 250, 65530} {
		ops := []M{{"op": "new", "n": 1, "us": 400}, {"op": "run", "i": 0, "n": run}, {"op": "tick", "i": 0}}
		for k := 1; k <= x.Pick(140, 1100); k++ {
			ops = append(ops, M{"op": "update", "i": 0, "k": k})
		}
		x.Case(M{"ops": ops})
	}
	for n := 0; n < x.Pick(10, 100); n++ {
		o := start(2 + x.R.Intn(3))
		o["conc"] = 1 + x.R.Intn(300)
		x.Case(M{"ops": []M{o, {"op": "tick", "i": 0}, {"op": "update", "i": 1, "k": 1}, {"op": "update", "i": 0, "k": 1}}})
	}
	// every frame of every kind, more than once around
	for kind := range throbKinds {
		for _, w := range []int{1, 2, 3, 4, 5} {
			ops := []M{start(1), {"op": "tick", "i": 0}}
			for n := 1; n <= 18; n++ {
				ops = append(ops, M{"op": "render", "i": 0, "kind": kind, "barea": []int{0, 0, 6, 3}, "area": []int{1, 0, w, 1 + n%3}}, M{"op": "update", "i": 0, "k": n})
			}
			x.Case(M{"ops": ops})
		}
	}
}
