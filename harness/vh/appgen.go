package main

import (
	"fmt"
	"strings"
)

// Scripts for the suite "app": fixed ones for every stop cause at every point, random ones, and those TLC generated.

func leaf(id int, r string, gated bool) M { return M{"k": "leaf", "id": id, "r": r, "g": gated} }
func batch(ch ...M) M                     { return M{"k": "batch", "ch": ch} }
func seq(ch ...M) M                       { return M{"k": "seq", "ch": ch} }
func many(from, to int, r string, gated bool) []M {
	var out []M
	for i := from; i <= to; i++ {
		out = append(out, leaf(i, r, gated))
	}
	return out
}

// deep nests sequences and batches n levels deep.
func deep(n, id int) M {
	if n == 0 {
		return leaf(id, "msg", true)
	}
	if n%2 == 0 {
		return seq(leaf(id, "msg", false), deep(n-1, id+2), leaf(id+1, "msg", false))
	}
	return seq(batch(deep(n-1, id+2), leaf(id, "nil", false)), leaf(id+1, "msg", false))
}
func do(what string, kv ...any) M {
	m := M{"do": what}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}
func key(ks ...int) M { return do("key", "ks", ks) }

// Keys that a terminal in its normal mode does not act upon (as ctrl+c would flush its output): some are still on their way
// when the application hands the terminal back.
const quitKey = 1

var plainKeys = []int{14, 15, 16, 20, 24, 25}

func script(m M, steps ...M) M {
	if m["w"] == nil {
		m["w"], m["h"] = 7, 3
	}
	if m["keys"] == nil {
		m["keys"] = M{}
	}
	ks := m["keys"].(M)
	if ks["1"] == nil {
		ks["1"] = M{"tree": leaf(900, "quit", false)}
	}
	if m["then"] == nil {
		m["then"] = M{}
	}
	m["steps"] = steps
	return m
}

func genApp(x *Ctx) {
	var cs []M
	add := func(c M) { cs = append(cs, c) }
	settle := do("settle")
	quit := key(quitKey)

	// stop causes, each striking in several situations
	type stop struct {
		name  string
		pre   M // script fields
		steps []M
	}
	stops := []stop{
		{"quit", M{}, []M{quit}},
		{"cancel", M{}, []M{do("cancel")}},
		{"quitseq", M{"keys": M{"5": M{"tree": seq(leaf(801, "msg", false), leaf(802, "quit", false), leaf(803, "msg", false))}}}, []M{key(5)}},
		{"quitbatch", M{"keys": M{"5": M{"tree": batch(leaf(801, "msg", true), leaf(802, "quit", false))}}}, []M{key(5)}},
		{"quitseqbatch", M{"keys": M{"5": M{"tree": seq(batch(leaf(801, "msg", false), leaf(802, "nil", false)), leaf(804, "quit", false))}}}, []M{key(5)}},
		{"updpanic", M{"keys": M{"5": M{"panic": true}}}, []M{key(5)}},
		{"rendpanic2", M{"renderpanic": 3}, []M{key(7), key(8)}},
		{"cmdpanic", M{"keys": M{"5": M{"tree": leaf(801, "panic", false)}}}, []M{key(5)}},
		{"cmdpanicgated", M{"keys": M{"5": M{"tree": leaf(801, "panic", true)}}}, []M{key(5), do("waitstart", "id", 801), do("release", "id", 801)}},
		{"seqpanic", M{"keys": M{"5": M{"tree": seq(leaf(801, "nil", false), leaf(802, "panic", false))}}}, []M{key(5)}},
		{"batchpanic", M{"keys": M{"5": M{"tree": batch(leaf(801, "msg", true), leaf(802, "panic", false))}}}, []M{key(5)}},
		{"seqbatchpanic", M{"keys": M{"5": M{"tree": seq(batch(leaf(801, "msg", false), leaf(802, "panic", false)), leaf(803, "nil", false))}}}, []M{key(5)}},
		{"seqseqpanic", M{"keys": M{"5": M{"tree": seq(seq(leaf(801, "nil", false), leaf(802, "panic", false)), leaf(803, "nil", false))}}}, []M{key(5)}},
		{"outfault", M{"sep": true}, []M{do("closeout"), key(7)}},
		{"outfaultresize", M{"sep": true}, []M{do("settle"), do("closeout"), do("resize", "w", 5, "h", 4)}},
		{"outfaultresizeheld", M{"sep": true}, []M{do("settle"), do("hold", "what", "render"), key(7), do("waitheld"), do("resize", "w", 5, "h", 4), do("closeout"), do("resize", "w", 4, "h", 4), do("unhold")}},
		{"outfaultcmd", M{"sep": true, "keys": M{"5": M{"tree": leaf(801, "msg", true)}}}, []M{key(5), do("waitstart", "id", 801), do("closeout"), do("release", "id", 801)}},
		{"inhangup", M{"sep": true, "keys": M{"5": M{"tree": leaf(801, "msg", true)}}}, []M{key(5), do("waitstart", "id", 801), do("closein"), do("release", "id", 801), do("cancel")}}, // the end of the input alone stops nothing
		{"hangup", M{"keys": M{"5": M{"tree": leaf(801, "msg", true)}}}, []M{key(5), do("waitstart", "id", 801), do("closein"), do("release", "id", 801)}},
		{"cancelheldupdate", M{}, []M{do("hold", "what", "update"), key(7), do("waitheld"), do("cancel"), do("sleep", "us", 500), do("unhold")}},
		{"cancelheldupdatecmd", M{"keys": M{"5": M{"tree": leaf(801, "msg", false)}}}, []M{do("hold", "what", "update"), key(5), do("waitheld"), do("cancel"), do("sleep", "us", 500), do("unhold")}},
		{"cancelheldrender", M{}, []M{do("hold", "what", "render"), key(7), do("waitheld"), do("cancel"), do("sleep", "us", 500), do("unhold")}},
		{"faultheldupdate", M{"sep": true}, []M{do("hold", "what", "update"), key(7), do("waitheld"), do("closeout"), do("unhold")}},
		{"panicheldupdate", M{"init": leaf(801, "panic", true)}, []M{do("hold", "what", "update"), key(7), do("waitheld"), do("release", "id", 801), do("sleep", "us", 500), do("unhold")}},
		{"quitandcancel", M{"keys": M{"5": M{"tree": leaf(801, "quit", true)}}}, []M{key(5), do("waitstart", "id", 801), do("release", "id", 801), do("cancel")}},
		{"cancelnosettle", M{}, []M{key(7, 8, 9, 10), do("resize", "w", 5, "h", 4), do("cancel")}},
		{"quitresize", M{}, []M{do("resize", "w", 5, "h", 4), quit}},
		{"quitpending", M{}, []M{do("hold", "what", "update"), key(7), do("waitheld"), key(8, quitKey, 9, 10, 11, 12), do("resize", "w", 9, "h", 2), do("unhold")}},
	}
	// situations in which it strikes
	sits := []struct {
		name string
		init M
		pre  []M
	}{
		{"idle", nil, []M{settle}},
		{"early", nil, nil},
		{"busycmds", batch(leaf(1, "never", false), leaf(2, "msg", true), seq(leaf(3, "msg", true), leaf(4, "msg", false)), leaf(5, "panic", true)), []M{settle}},
		{"worked", seq(leaf(1, "msg", false), leaf(2, "msg", false)), []M{settle, key(7, 8), do("resize", "w", 4, "h", 2), settle}},
	}
	for _, st := range stops {
		for i, si := range sits {
			if !x.Thorough() && st.name != "quit" && st.name != "cancel" && i == 3 {
				continue
			}
			c := M{"name": st.name + "/" + si.name, "jitter": x.R.Intn(20), "readback": true}
			for k, v := range st.pre {
				if k == "keys" {
					ks := M{}
					for a, b := range v.(M) {
						ks[a] = b
					}
					v = ks
				}
				c[k] = v
			}
			if si.init != nil && c["init"] == nil {
				c["init"] = si.init
			}
			add(script(c, append(append([]M{}, si.pre...), st.steps...)...))
		}
	}
	for _, sz := range [][2]int{{0, 0}, {1, 1}, {80, 24}} {
		add(script(M{"name": "size", "w": sz[0], "h": sz[1], "readback": true}, settle, key(7), settle, do("resize", "w", 3, "h", 3), settle, do("resize", "w", 0, "h", 0), settle, do("resize", "w", 6, "h", 2), settle, do("flap"), settle, key(8), do("flap"), settle, quit))
	}
	// one application after another in the same process
	for i, st := range stops {
		if st.name == "hangup" || strings.HasPrefix(st.name, "out") || strings.HasPrefix(st.name, "in") || strings.HasPrefix(st.name, "fault") {
			continue
		}
		c := M{"name": "again/" + st.name, "readback": i%2 == 0, "flags": i % 8}
		for k, v := range st.pre {
			c[k] = v
		}
		if c["init"] == nil {
			c["init"] = batch(leaf(1, "msg", true), seq(leaf(2, "nil", true), leaf(3, "msg", false)), leaf(4, "never", false))
		}
		c["again"] = script(M{"readback": true, "flags": 1 + i%7, "init": seq(leaf(11, "msg", false), leaf(12, "msg", false)), "keys": M{"5": M{"tree": batch(leaf(13, "msg", true), leaf(14, "msg", false))}}},
			settle, key(7, 5), settle, do("resize", "w", 4, "h", 2), settle, do("release", "id", 13), settle, []M{quit, do("cancel"), key(8, quitKey, 9)}[i%3])
		add(script(c, append([]M{settle}, st.steps...)...))
		if strings.Contains(st.name, "cancel") {
			continue
		}
		// the same application once more, and without a context of ours
		c2 := M{}
		for k, v := range c {
			c2[k] = v
		}
		c2["name"], c2["noctx"] = "reuse/"+st.name, true
		c2["again"] = script(M{"readback": true, "flags": 1 + i%7, "reuse": true, "noctx": i%2 == 0, "init": seq(leaf(11, "msg", false), leaf(12, "msg", false)), "keys": M{"5": M{"tree": batch(leaf(13, "msg", true), leaf(14, "msg", false))}}},
			settle, key(7, 5), settle, do("resize", "w", 4, "h", 2), settle, do("release", "id", 13), settle, []M{quit, key(8, quitKey, 9)}[i/2%2])
		add(script(c2, append([]M{settle}, st.steps...)...))
	}
	add(script(M{"name": "initpanic", "initpanic": true, "readback": true}))
	add(script(M{"name": "renderpanic1", "renderpanic": 1, "readback": true}))
	add(script(M{"name": "precancel", "precancel": true, "readback": true}))
	add(script(M{"name": "initquit", "init": leaf(1, "quit", false), "readback": true}))
	for i, t := range []M{nil, leaf(1, "msg", true), batch(leaf(1, "never", false), seq(leaf(2, "msg", false), leaf(3, "msg", true)))} {
		c := M{"name": "wronly", "wronly": true, "sep": i == 1}
		if t != nil {
			c["init"] = t
		}
		add(script(c, key(7)))
	}
	add(script(M{"name": "sepquit", "sep": true, "readback": true}, settle, quit))
	for i, st := range [][]M{{settle, quit}, {settle, key(7, 8), settle, key(5), settle, quit}, {settle, do("cancel")}, {key(6)}} {
		add(script(M{"name": fmt.Sprint("pipein", i), "pipein": true, "flags": i, "keys": M{"5": M{"tree": seq(leaf(801, "msg", false), leaf(802, "msg", false))}, "6": M{"tree": leaf(803, "panic", false)}}}, st...))
	}
	// command trees
	trees := []M{
		leaf(1, "nil", false), leaf(1, "msg", false), leaf(1, "msg", true),
		batch(leaf(1, "msg", true), leaf(2, "msg", true)),
		batch(leaf(1, "msg", true), leaf(2, "nil", true), leaf(3, "msg", true), leaf(4, "msg", false)),
		batch(M{"k": "nil"}, leaf(1, "msg", true), M{"k": "nil"}),
		seq(leaf(1, "msg", true), leaf(2, "msg", true), leaf(3, "nil", true)),
		seq(M{"k": "nil"}, leaf(1, "msg", true), M{"k": "nil"}, leaf(2, "msg", true)),
		seq(batch(leaf(1, "msg", true), leaf(2, "msg", true)), leaf(3, "msg", true)),
		seq(leaf(1, "msg", true), batch(leaf(2, "nil", true), leaf(3, "msg", true), leaf(4, "msg", true)), leaf(5, "msg", true)),
		seq(seq(leaf(1, "msg", true), leaf(2, "msg", true)), leaf(3, "msg", true)),
		seq(leaf(1, "msg", true), seq(leaf(2, "msg", true), seq(leaf(3, "nil", true), leaf(4, "msg", true))), leaf(5, "msg", true)),
		seq(batch(seq(leaf(1, "msg", true), leaf(2, "msg", true)), leaf(3, "msg", true)), leaf(4, "msg", true)),
		seq(batch(batch(leaf(1, "msg", true), leaf(2, "msg", true)), leaf(3, "msg", true)), leaf(4, "msg", true)),
		batch(batch(leaf(1, "msg", true), leaf(2, "msg", true)), seq(leaf(3, "msg", true), leaf(4, "msg", true))),
		batch(seq(leaf(1, "msg", true), leaf(2, "msg", true)), seq(leaf(3, "msg", true), leaf(4, "msg", true))),
		{"k": "batch", "raw": true, "ch": []M{{"k": "nil"}, leaf(1, "msg", true), leaf(2, "msg", true)}},
		seq(M{"k": "batch", "raw": true, "ch": []M{{"k": "nil"}, leaf(1, "msg", true), leaf(2, "nil", true)}}, leaf(3, "msg", true)),
		seq(), batch(), seq(batch()), batch(seq()),
		seq(batch(leaf(1, "msg", true)), leaf(2, "msg", true)),
		M{"k": "leaf", "id": 1, "r": "msg", "tick": true},
		seq(M{"k": "leaf", "id": 1, "r": "msg", "tick": true}, M{"k": "leaf", "id": 2, "r": "msg", "tick": true}, leaf(3, "msg", false)),
		seq(leaf(1, "msg", false), leaf(2, "msg", false), leaf(3, "msg", false), leaf(4, "msg", false), leaf(5, "msg", false), leaf(6, "msg", false)),
		batch(leaf(1, "never", false), leaf(2, "msg", false)),
		batch(many(1, 130, "msg", true)...),
		seq(batch(many(1, 130, "nil", true)...), leaf(200, "msg", false)),
		seq(many(1, 150, "msg", false)...),
		seq(leaf(1, "msg", false), batch(seq(many(2, 40, "msg", false)...), batch(many(50, 90, "msg", false)...)), leaf(300, "msg", true)),
		deep(12, 1),
	}
	// a crowd of commands that all wait, and one more: it does not have to wait for them
	crowd := x.Pick(1100, 3000)
	add(script(M{"name": "crowd", "init": batch(many(1000, 1000+crowd, "nil", true)...), "keys": M{"7": M{"tree": leaf(1, "msg", false)}, "8": M{"tree": leaf(2, "msg", true)}}},
		settle, key(7, 8), settle, do("release", "id", 2), settle, do("release", "id", 1000+crowd/2), settle, quit))
	// a long run: commands and keys in great numbers
	var typed []int
	for i := 0; i < x.Pick(400, 1500); i++ {
		typed = append(typed, []int{7, 8, 9, 101, 103}[x.R.Intn(5)])
	}
	add(script(M{"name": "marathon", "init": batch(many(1000, 1000+x.Pick(1700, 4000), "msg", false)...)}, settle, key(typed...), settle, key(7), settle, quit))
	// a callback takes very long while messages from everywhere are waiting; nothing gets lost and nobody loses patience
	for _, what := range []string{"update", "render"} {
		add(script(M{"name": "patience/" + what, "init": batch(leaf(1, "msg", true), seq(leaf(2, "msg", true), leaf(3, "msg", false)), seq(batch(leaf(4, "msg", true), leaf(5, "nil", true)), leaf(6, "msg", false)), leaf(7, "msg", true))},
			settle, do("hold", "what", what), key(7), do("waitheld"), do("release", "id", 1), do("release", "id", 2), do("release", "id", 4), do("release", "id", 5), key(8, 101, 9), do("resize", "w", 5, "h", 2),
			do("sleep", "us", x.Pick(3_300_000, 12_000_000)), do("unhold"), settle, do("release", "id", 7), key(10), settle, quit))
	}
	// everything that can come out of the input, in one order
	for i := 0; i < 6; i++ {
		st := []M{settle}
		for j := 0; j < 5; j++ {
			var ks []int
			for n := x.R.Intn(8); n >= 0; n-- {
				ks = append(ks, []int{101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 7, 8, 14}[x.R.Intn(13)])
			}
			st = append(st, key(ks...))
			if j%2 == 0 {
				st = append(st, settle)
			}
		}
		add(script(M{"name": "kinds", "init": leaf(1, "msg", false)}, append(st, settle, key(110, 110, 102, 102), settle, quit)...))
	}
	for i, t := range trees {
		for _, where := range []string{"init", "key"} {
			c := M{"name": fmt.Sprintf("tree%d/%s", i, where), "jitter": x.R.Intn(20), "grace": i%4 == 0}
			steps := []M{}
			if where == "init" {
				c["init"] = t
				steps = append(steps, settle)
			} else {
				c["keys"] = M{"7": M{"tree": t}}
				steps = append(steps, settle, key(7), settle)
			}
			ids := gatedIDs(t, nil)
			x.R.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
			steps = append(steps, key(8), settle)
			for i, id := range ids {
				steps = append(steps, do("release", "id", id))
				if len(ids) < 20 || i%40 == 0 {
					steps = append(steps, settle)
				}
			}
			steps = append(steps, settle)
			steps = append(steps, quit)
			add(script(c, steps...))
		}
	}
	if x.ScriptFile != "" {
		for _, s := range readCases(x.ScriptFile) {
			if c := fromSpec(x, s); c != nil {
				cs = append(cs, c)
			}
		}
	}
	for i := 0; i < x.Pick(700, 20000); i++ {
		add(randScript(x, i))
	}
	x.runParallel(cs, 8, func(c M, emit func(M)) bool { return runApp(x, c, emit) })
}

func gatedIDs(t M, out []int) []int {
	if t.S("k") == "leaf" {
		if t.B("g") {
			out = append(out, t.I("id"))
		}
		return out
	}
	for _, c := range t.Ms("ch") {
		out = gatedIDs(c, out)
	}
	return out
}

// fromSpec turns a behaviour of the specification into a script. All commands are gated and all callbacks held, so that
// the driver can let them return in the order of the behaviour.
func fromSpec(x *Ctx, s M) M {
	c := M{"name": "spec", "directed": true, "w": 2, "h": 1, "jitter": 0, "readback": x.R.Intn(4) == 0, "sep": false}
	var gate func(t M) M
	gate = func(t M) M {
		m := M{"k": t.S("k"), "id": t.I("id"), "r": t.S("r")}
		if t.S("k") == "leaf" {
			m["g"] = t.S("r") != "never"
			return m
		}
		var ch []M
		for _, d := range t.Ms("ch") {
			ch = append(ch, gate(d))
		}
		m["ch"] = ch
		return m
	}
	c["init"] = gate(s.M("init"))
	keys := M{"1": M{"tree": leaf(900, "quit", false)}}
	for i, t := range s.Ms("keys") {
		keys[fmt.Sprint(i+5)] = M{"tree": gate(t), "panic": s.I("updpanic") == i+1}
	}
	then := M{}
	for i, t := range s.Ms("then") {
		if t.S("k") != "nil" {
			then[fmt.Sprint(i+1)] = gate(t)
		}
	}
	c["keys"], c["then"] = keys, then
	if n := s.I("rendpanic"); n > 0 {
		c["renderpanic"] = n + 1 // the specification counts versions, the first rendering is version 0
	}
	var steps []M
	for _, st := range s.Ms("steps") {
		m := M{"do": st.S("do"), "id": st.I("id")}
		switch st.S("do") {
		case "ub":
			switch st.S("k") {
			case "key":
				m["k"] = fmt.Sprint("key", st.I("id")+4)
			case "leaf":
				m["k"] = fmt.Sprint("leaf", st.I("id"))
			case "size":
				m["k"] = "size0"
			default:
				m["k"] = "internal0"
			}
		case "key":
			m = key(st.I("id") + 4)
		case "resize":
			m = do("resize", "w", st.I("id"), "h", 1)
		case "fault":
			m = do("closeout")
			c["sep"] = true
		}
		steps = append(steps, m)
	}
	c["steps"] = steps
	return c
}

type treeGen struct {
	x    *Ctx
	next int
}

func (g *treeGen) tree(depth int, allowStop bool) M {
	r := g.x.R
	n := r.Intn(10)
	if depth == 0 || n < 5 {
		g.next++
		res := "msg"
		switch r.Intn(8) {
		case 0:
			res = "nil"
		case 1:
			if r.Intn(3) == 0 {
				res = "never"
			}
		case 2:
			if allowStop && r.Intn(3) == 0 {
				res = []string{"panic", "quit"}[r.Intn(2)]
			}
		}
		return leaf(g.next, res, r.Intn(2) == 0)
	}
	if n == 9 {
		return M{"k": "nil"}
	}
	var ch []M
	for i := r.Intn(4); i >= 0; i-- {
		ch = append(ch, g.tree(depth-1, allowStop))
	}
	if n%2 == 0 {
		m := batch(ch...)
		m["raw"] = r.Intn(4) == 0
		return m
	}
	return seq(ch...)
}

// randScript makes a random application and a random environment.
func randScript(x *Ctx, i int) M {
	r := x.R
	g := &treeGen{x: x}
	stopCause := r.Intn(3) == 0 // commands may quit or panic
	c := M{"name": fmt.Sprintf("rand%d", i), "w": 1 + r.Intn(8), "h": 1 + r.Intn(4), "jitter": r.Intn(30), "readback": r.Intn(3) == 0, "flags": r.Intn(8), "sep": r.Intn(6) == 0}
	var gated []int
	note := func(t M) M {
		gated = gatedIDs(t, gated)
		return t
	}
	if r.Intn(2) == 0 {
		c["init"] = note(g.tree(2, false))
	}
	keys := M{}
	for k := 4; k <= 12; k++ {
		if r.Intn(2) == 0 {
			keys[fmt.Sprint(k)] = M{"tree": note(g.tree(3, stopCause))}
		}
	}
	then := M{}
	for id := 1; id <= g.next && id <= 40; id++ {
		if r.Intn(6) == 0 {
			then[fmt.Sprint(id)] = note(g.tree(1, stopCause))
		}
	}
	c["keys"], c["then"] = keys, then
	var steps []M
	r.Shuffle(len(gated), func(a, b int) { gated[a], gated[b] = gated[b], gated[a] })
	typed := map[int]bool{}
	for n := 3 + r.Intn(10); n > 0; n-- {
		switch r.Intn(9) {
		case 0, 1, 2:
			var ks []int
			for j := r.Intn(3); j >= 0; j-- {
				k := 4 + r.Intn(9)
				if typed[k] && keys[fmt.Sprint(k)] != nil {
					k = plainKeys[r.Intn(len(plainKeys))] // each tree is used once
				}
				typed[k] = true
				ks = append(ks, k)
			}
			steps = append(steps, key(ks...))
		case 3:
			if r.Intn(5) == 0 {
				steps = append(steps, do("flap"))
			} else {
				steps = append(steps, do("resize", "w", r.Intn(9), "h", r.Intn(5)))
			}
		case 4, 5:
			if len(gated) > 0 {
				steps = append(steps, do("release", "id", gated[0]))
				gated = gated[1:]
			}
		case 6:
			steps = append(steps, do("sleep", "us", r.Intn(3000)))
		default:
			if !stopCause {
				steps = append(steps, do("settle"))
			}
		}
	}
	if !stopCause {
		steps = append(steps, do("settle"))
	}
	switch r.Intn(6) {
	case 0:
		steps = append(steps, do("cancel"))
	case 1:
		steps = append(steps, do("hold", "what", []string{"update", "render"}[r.Intn(2)]), key(14), do("waitheld"), do("cancel"), do("unhold"))
	case 2:
		steps = append(steps, do("releaseall"), key(quitKey))
	case 3:
		if c.B("sep") {
			steps = append(steps, do("closeout"), key(14))
		} else {
			steps = append(steps, key(14, quitKey, 15))
		}
	default:
		steps = append(steps, key(quitKey))
	}
	return script(c, steps...)
}
