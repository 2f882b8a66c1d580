package main

import (
	"fmt"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/textwidget"
)

func init() { suites["text"] = &Suite{Gen: genText, Exec: execText} }

// A text is {al, st, ls: lines {al, st, sp: spans {st, s}}}.
func spanOf(m M) textwidget.Span {
	st := m.Ms("st")
	if n := len(st); n > 1 && len(m.S("s"))%2 == 1 { // in two steps
		return textwidget.NewSpan(m.S("s")).WithStyle(styleOf(st[:n-1])).WithStylePatch(styleOf(st[n-1:]))
	}
	return textwidget.NewSpan(m.S("s")).WithStyle(styleOf(st))
}

func lineOf(m M) textwidget.Line {
	var sp []textwidget.Span
	for _, s := range m.Ms("sp") {
		sp = append(sp, spanOf(s))
	}
	l := textwidget.NewLine(sp...).WithStyle(styleOf(m.Ms("st")))
	switch m.I("al") {
	case 1:
		l = l.Left()
	case 2:
		l = l.Center()
	case 3:
		l = l.Right()
	}
	return l
}

// plainLine is the text of a line that is made of one span without any style or alignment of its own.
func plainLine(m M) (string, bool) {
	sp := m.Ms("sp")
	if len(sp) != 1 || len(sp[0].Ms("st")) > 0 || len(m.Ms("st")) > 0 || m.I("al") != 0 || strings.ContainsAny(sp[0].S("s"), "\r\n") {
		return "", false
	}
	return sp[0].S("s"), true
}

// plainText is the string a text of plain lines can be made from.
func plainText(m M) (string, bool) {
	if m.I("al") != 0 || len(m.Ms("st")) > 0 || len(m.Ms("ls")) == 0 {
		return "", false
	}
	var ls []string
	for _, l := range m.Ms("ls") {
		s, ok := plainLine(l)
		if !ok {
			return "", false
		}
		ls = append(ls, s)
	}
	return strings.Join(ls, "\n"), ls[len(ls)-1] != ""
}

func textOf(m M) textwidget.Text {
	var ls []textwidget.Line
	for _, s := range m.Ms("ls") {
		ls = append(ls, lineOf(s))
	}
	t := textwidget.NewText(ls...).WithStyle(styleOf(m.Ms("st")))
	switch m.I("al") {
	case 1:
		t = t.Left()
	case 2:
		t = t.Center()
	case 3:
		t = t.Right()
	}
	return t
}

// textEv is a text as the specification sees it.
func textEv(m M) M {
	ls := []M{}
	for _, l := range m.Ms("ls") {
		sp := []M{}
		for _, s := range l.Ms("sp") {
			sp = append(sp, M{"st": styleOps(s.Ms("st")), "gs": graphemesC(s.S("s"))})
		}
		ls = append(ls, M{"al": l.I("al"), "st": styleOps(l.Ms("st")), "sp": sp})
	}
	return M{"al": m.I("al"), "st": styleOps(m.Ms("st")), "ls": ls}
}

func paraOf(o M) paragraphwidget.Paragraph {
	p := paragraphwidget.New(textOf(o.M("t")))
	if s, ok := plainText(o.M("t")); ok {
		p = paragraphwidget.NewStr(s)
	}
	p = p.WithStyle(styleOf(o.Ms("st"))).WithScroll(o.I("sy"), o.I("sx"))
	switch o.I("al") {
	case 0:
		p.Alignment = bento.AlignmentNone
	case 1:
		p = p.Left()
	case 2:
		p = p.Center()
	case 3:
		p = p.Right()
	}
	switch o.I("wrap") {
	case 1:
		p = p.Wrapped()
	case 2:
		p = p.WithWrap(paragraphwidget.NewWrap().WithTrim(true))
	}
	if o.I("blk") == 1 {
		p = p.WithBlock(blockwidget.New().Bordered())
	}
	return p
}

func spanStrs(l textwidget.Line) []string {
	out := []string{}
	for _, s := range l.Spans {
		out = append(out, s.Content)
	}
	return out
}

func lineStrs(ls textwidget.Lines) []string {
	out := []string{}
	for _, l := range ls {
		out = append(out, l.String())
	}
	return out
}

func execText(x *Ctx, c M) {
	for _, o := range c.Ms("ops") {
		e := M{"op": o.S("op"), "fail": ""}
		switch o.S("op") {
		case "text":
			e["t"], e["how"] = textEv(o.M("t")), o.S("how")
			painted(x, e, o.Is("barea"), o.Is("area"), func(area bento.Rect, b *bento.Buffer) {
				t := textOf(o.M("t"))
				switch o.S("how") {
				case "text":
					t.Render(area, b)
				case "line":
					t.Lines[0].Render(area, b)
				case "span":
					t.Lines[0].Spans[0].Render(area, b)
				}
			})
		case "size":
			e["t"], e["w"], e["h"] = textEv(o.M("t")), 0, 0
			e["fail"] = x.Do(func() {
				t := textOf(o.M("t"))
				e["w"], e["h"] = t.Width(), t.Height()
			})
		case "print":
			e["t"], e["how"], e["x"], e["y"], e["n"] = textEv(o.M("t")), o.S("how"), o.I("x"), o.I("y"), o.I("n")
			painted(x, e, o.Is("barea"), o.Is("barea"), func(_ bento.Rect, b *bento.Buffer) {
				l := textOf(o.M("t")).Lines[0]
				rx, ry := 0, 0
				if o.S("how") == "line" {
					rx, ry = l.Print(b, o.I("x"), o.I("y"), o.I("n"))
				} else {
					rx, ry = l.Spans[0].Print(b, o.I("x"), o.I("y"), o.I("n"))
				}
				e["ret"] = []int{rx, ry}
			})
		case "newbuf":
			e["t"], e["barea"], e["cells"], e["old"] = textEv(o.M("t")), []int{0, 0, 0, 0}, []any{}, cellArr5(bento.NewEmptyCell())
			e["fail"] = x.Do(func() {
				b := textOf(o.M("t")).Lines.NewBuffer()
				a := b.Area()
				e["barea"], e["cells"] = []int{a.X, a.Y, a.Width, a.Height}, cellsArr5(&b, a)
			})
		case "str":
			parts, got := [][]string{}, []string{}
			e["text"] = ""
			e["fail"] = x.Do(func() {
				t := textOf(o.M("t"))
				for _, l := range t.Lines {
					ss := []string{}
					for _, s := range l.Spans {
						ss = append(ss, jsafe(s.String()))
					}
					parts, got = append(parts, ss), append(got, jsafe(l.String()))
				}
				e["text"], e["lines"] = jsafe(t.String()), jsafe(t.Lines.String())
			})
			e["parts"], e["got"] = parts, got
		case "lines":
			e["gs"] = graphemesC(o.S("s"))
			got := [][]M{}
			e["fail"] = x.Do(func() {
				var ls textwidget.Lines
				switch o.S("how") {
				case "lines":
					ls = textwidget.NewLinesStr(strings.Split(o.S("s"), "\n")...)
				case "with":
					ls = textwidget.NewText().WithLinesStr(o.S("s")).Lines
				default:
					ls = textwidget.NewTextStr(o.S("s")).Lines
				}
				for _, l := range ls {
					got = append(got, graphemesC(l.String()))
				}
			})
			e["got"] = got
		case "long":
			e["lens"] = o.Is("lens")
			got := []int{}
			e["fail"] = x.Do(func() {
				var ls []string
				for _, n := range o.Is("lens") {
					ls = append(ls, strings.Repeat("x", n))
				}
				for _, l := range textwidget.NewTextStr(strings.Join(ls, "\n")).Lines {
					got = append(got, l.Width())
				}
				if o.I("line") == 1 {
					got = []int{textwidget.NewLineStr(ls[0]).Width()}
				}
			})
			e["got"] = got
		case "derive":
			base, a1, a2 := o.Ss("base"), o.Ss("a1"), o.Ss("a2")
			e["base"], e["add1"], e["add2"] = nn(base), nn(a1), nn(a2)
			e["fail"] = x.Do(func() {
				switch o.S("how") {
				case "spans", "spanstr":
					l := textwidget.NewLine()
					for _, s := range base {
						l = l.WithSpans(textwidget.NewSpan(s))
					}
					add := func(ss []string) textwidget.Line {
						if o.S("how") == "spanstr" {
							return l.WithSpansStr(ss...)
						}
						var sp []textwidget.Span
						for _, s := range ss {
							sp = append(sp, textwidget.NewSpan(s))
						}
						return l.WithSpans(sp...)
					}
					d1 := add(a1)
					d2 := add(a2)
					e["base2"], e["d1"], e["d2"] = spanStrs(l), spanStrs(d1), spanStrs(d2)
				case "append": // to the last line of a text; there is room behind what the text was made of
					sp := make([]textwidget.Span, 0, 16)
					for _, s := range base {
						sp = append(sp, textwidget.NewSpan(s))
					}
					ls := make([]textwidget.Line, 0, 4)
					if len(base) > 0 {
						ls = append(ls, textwidget.NewLine(sp...))
					}
					t := textwidget.NewText(ls...)
					add := func(ss []string) textwidget.Text {
						t2 := t
						var sp []textwidget.Span
						for _, s := range ss {
							sp = append(sp, textwidget.NewSpan(s))
						}
						textwidget.AppendTextSpans(&t2, sp...)
						return t2
					}
					last := func(t textwidget.Text) []string {
						out := []string{}
						for _, l := range t.Lines {
							out = append(out, spanStrs(l)...)
						}
						return out
					}
					d1 := add(a1)
					d2 := add(a2)
					e["base2"], e["d1"], e["d2"] = last(t), last(d1), last(d2)
				default:
					t := textwidget.NewText()
					for _, s := range base {
						t = t.WithLines(textwidget.NewLineStr(s))
					}
					add := func(ss []string) textwidget.Text {
						if o.S("how") == "linestr" {
							return t.WithLinesStr(ss...)
						}
						var ls []textwidget.Line
						for _, s := range ss {
							ls = append(ls, textwidget.NewLineStr(s))
						}
						return t.WithLines(ls...)
					}
					d1 := add(a1)
					d2 := add(a2)
					e["base2"], e["d1"], e["d2"] = lineStrs(t.Lines), lineStrs(d1.Lines), lineStrs(d2.Lines)
				}
			})
		case "para":
			e["t"], e["st"], e["al"], e["wrap"], e["sy"], e["sx"], e["blk"], e["tall"] = textEv(o.M("t")), styleOps(o.Ms("st")), o.I("al"), o.I("wrap"), o.I("sy"), o.I("sx"), o.I("blk"), b2i(o.I("h") == 0)
			w, h := o.I("w"), o.I("h")
			full := []any{}
			if h == 0 {
				// tall enough for everything
				h = 3 + 2*o.I("blk")
				for _, l := range o.M("t").Ms("ls") {
					h += 1
					if o.I("wrap") > 0 {
						for _, s := range l.Ms("sp") {
							h += len(graphemes(s.S("s")))
						}
					}
				}
			} else if sy := o.I("sy"); sy > 0 && sy < 100 {
				o2 := M{}
				for k, v := range o {
					o2[k] = v
				}
				o2["sy"], o2["h"] = 0, 0
				a := []int{0, 0, w, h + o.I("sy") + 2}
				b := painted(x, M{}, a, a, func(area bento.Rect, b *bento.Buffer) { paraOf(o2).Render(area, b) })
				full = cellsArr5(b, rectOf([]int{o.I("blk"), o.I("blk"), max(0, w-2*o.I("blk")), max(0, a[3]-2*o.I("blk"))}))
			}
			e["full"] = full
			area := []int{2, 1, w, h}
			barea := []int{1, 1, w + 2, h + 1}
			if c := o.Is("clip"); len(c) == 4 { // a buffer that ends inside of the area
				barea = []int{2 + c[0], 1 + c[1], max(0, w-c[0]-c[2]), max(0, h-c[1]-c[3])}
			}
			if a := o.Is("area"); len(a) == 4 {
				barea, area = o.Is("barea"), a
			}
			painted(x, e, barea, area, func(area bento.Rect, b *bento.Buffer) { paraOf(o).Render(area, b) })
		}
		x.Ev(e)
	}
}

func nn(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func (x *Ctx) rndStyled(p int) []M {
	if x.R.Intn(p) > 0 {
		return []M{}
	}
	return x.rndStyle(0)
}

func genText(x *Ctx) {
	var ops []M
	flush := func(n int) {
		if len(ops) >= n && len(ops) > 0 {
			x.Case(M{"ops": ops})
			ops = nil
		}
	}
	add := func(o M) {
		ops = append(ops, o)
		flush(25)
	}
	sp := func(s string, st []M) M { return M{"s": s, "st": st} }
	ln := func(al int, st []M, sps ...M) M { return M{"al": al, "st": st, "sp": sps} }
	tx := func(al int, st []M, ls ...M) M { return M{"al": al, "st": st, "ls": ls} }
	red, bold, nobold := []M{sop("fg", "a:1", 0)}, []M{sop("mod", "", 1)}, []M{sop("bg", "a:2", 0), sop("nomod", "", 2)}
	words := func(alpha []string, n int) []string {
		var out []string
		var rec func(p string, n int)
		rec = func(p string, n int) {
			out = append(out, p)
			if n > 0 {
				for _, a := range alpha {
					rec(p+a, n-1)
				}
			}
		}
		rec("", n)
		return out
	}
	// T01: every line of up to three graphemes in two spans, every width, every alignment
	for _, s := range words([]string{"a", "b", "世", "\u200b"}, x.Pick(3, 4)) {
		gs := graphemes(s)
		for cut := 0; cut <= len(gs); cut++ {
			if !x.Thorough() && cut > 0 && x.R.Intn(2) == 0 {
				continue
			}
			a, b := splitAt(s, cut)
			for al := 0; al < 4; al++ {
				w := x.R.Intn(8)
				t := tx(x.R.Intn(4), red, ln(al, bold, sp(a, nobold), sp(b, []M{})), ln(3-al, []M{}, sp(b, bold)))
				add(M{"op": "text", "how": x.pick([]string{"text", "line", "span"}), "t": t, "barea": []int{1, 1, 7, 3}, "area": []int{1 + x.R.Intn(3), 1, w, 1 + x.R.Intn(3)}})
			}
		}
	}
	flush(1)
	rtext := func(alpha []string, max int) string {
		s := ""
		for n := x.R.Intn(max + 1); n > 0; n-- {
			s += x.pick(alpha)
		}
		return s
	}
	rline := func(alpha []string, max int) M {
		var sps []M
		for n := x.R.Intn(4); n > 0; n-- {
			sps = append(sps, sp(rtext(alpha, max), x.rndStyled(2)))
		}
		al := 0
		if x.R.Intn(3) == 0 {
			al = x.R.Intn(4)
		}
		return ln(al, x.rndStyled(3), sps...)
	}
	rtxt := func(alpha []string, lines, max int) M {
		var ls []M
		for n := x.R.Intn(lines + 1); n > 0; n-- {
			ls = append(ls, rline(alpha, max))
		}
		return tx(x.R.Intn(4), x.rndStyled(2), ls...)
	}
	for i := 0; i < x.Pick(2500, 25000); i++ {
		t := rtxt(textAlphabet, 4, 5)
		how := x.pick([]string{"text", "text", "line", "span"})
		ls := t.Ms("ls")
		if len(ls) == 0 || len(ls[0].Ms("sp")) == 0 {
			how = "text"
		}
		barea := []int{x.R.Intn(3), x.R.Intn(3), 1 + x.R.Intn(9), 1 + x.R.Intn(4)}
		area := []int{x.R.Intn(5), x.R.Intn(4), x.R.Intn(10), x.R.Intn(5)}
		if how == "span" {
			area[0] = max(area[0], barea[0])
		}
		add(M{"op": "text", "how": how, "t": t, "barea": barea, "area": area})
		if i%8 == 0 {
			add(M{"op": "size", "t": t})
			add(M{"op": "newbuf", "t": t})
			add(M{"op": "str", "t": t})
		}
		if how == "text" || i%4 != 0 {
			continue
		}
		px, py := barea[0]+x.R.Intn(barea[2]), barea[1]+x.R.Intn(barea[3])
		add(M{"op": "print", "how": how, "t": t, "barea": barea, "x": px, "y": py, "n": x.R.Intn(9)})
	}
	flush(1)
	// strings into lines
	for _, s := range words([]string{"a", "\n", "\r\n", "世", " "}, x.Pick(4, 5)) {
		add(M{"op": "lines", "how": []string{"text", "with", "lines"}[len(s)%3], "s": s})
	}
	for i := 0; i < x.Pick(200, 2000); i++ {
		add(M{"op": "lines", "how": "text", "s": rtext(append(textAlphabet, "\n", "\r\n"), 12)})
	}
	for _, ls := range [][]int{{70000}, {3, 65536, 2}, {1, 2, 200000, 5}, {65535, 65534}} {
		add(M{"op": "long", "lens": ls})
	}
	add(M{"op": "long", "lens": []int{70000}, "line": 1})
	for n := 0; n < 9; n++ {
		var base []string
		for i := 0; i < n; i++ {
			base = append(base, string(rune('a'+i)))
		}
		for _, how := range []string{"spans", "spanstr", "lines", "linestr", "append"} {
			add(M{"op": "derive", "how": how, "base": base, "a1": []string{"p"}, "a2": []string{"q"}})
			add(M{"op": "derive", "how": how, "base": base, "a1": []string{"p", "q", "r"}, "a2": []string{"s"}})
		}
	}
	flush(1)
	// T02: every short text and width, one line
	for _, s := range words([]string{"a", " ", "世", "\u200b"}, x.Pick(5, 7)) {
		for k := 0; k < x.Pick(1, 2); k++ {
			if !x.Thorough() && len(graphemes(s)) == 5 && x.R.Intn(2) == 0 {
				continue
			}
			add(M{"op": "para", "t": tx(0, red, ln(0, bold, sp(s, nobold))), "w": 1 + x.R.Intn(5), "wrap": 1 + (len(s)+k)%2, "al": 1 + x.R.Intn(3)*x.R.Intn(2)})
		}
	}
	flush(1)
	// longer and more lines, more spans
	for i := 0; i < x.Pick(12, 100); i++ {
		lalpha := []string{"a", "b", "c", "xyz", " ", " ", "世", "word"}
		t := tx(x.R.Intn(4), red)
		var ls []M
		for n := []int{1, 2, 280}[i%3]; n > 0; n-- {
			var sps []M
			for k := []int{3, 30, 1}[i%3]; k > 0; k-- {
				sps = append(sps, sp(rtext(lalpha, []int{150, 12, 2}[i%3]), x.rndStyled(1)))
			}
			ls = append(ls, ln(x.R.Intn(4), x.rndStyled(1), sps...))
		}
		t["ls"] = ls
		w, h := []int{30, 120, 300, 258}[x.R.Intn(4)], 0
		if i%3 == 2 {
			w, h = 1+x.R.Intn(5), []int{0, 256, 290}[x.R.Intn(3)]
		}
		switch i / 3 % 3 {
		case 0:
			add(M{"op": "text", "how": "text", "t": t, "barea": []int{0, 0, w, max(3, h)}, "area": []int{0, 0, w, max(3, h)}})
		case 1:
			if i%3 == 2 {
				break // would take too long to check
			}
			t["ls"] = []M{ln(0, red, sp(rtext(lalpha, 60), bold), sp(rtext(lalpha, 40), nobold))}
			add(M{"op": "para", "t": t, "w": 15 + x.R.Intn(40), "wrap": 1 + x.R.Intn(2), "al": 1 + x.R.Intn(3)})
		case 2:
			add(M{"op": "para", "t": t, "w": w, "al": 1 + x.R.Intn(3), "h": h, "sy": x.R.Intn(270) * (i % 3 / 2), "sx": x.R.Intn(270) * b2i(i%3 < 2)})
		}
		flush(1)
	}
	for i := 0; i < x.Pick(4, 16); i++ {
		var ls []M
		n, w, h, sy, sx := 1300, 4, 330, 0, 0
		switch i % 4 {
		case 1:
			h, sy = 3, 1100+x.R.Intn(190)
		case 2:
			n, w, h = 2, 700, 2
		case 3:
			n, w, h, sx = 2, 9, 2, 600+x.R.Intn(60)
		}
		for k := 0; k < n; k++ {
			l := fmt.Sprint(k)
			if n == 2 {
				for len(l) < 680-40*k {
					l += x.pick([]string{"a", "b", "cd", " "})
				}
			}
			ls = append(ls, ln(1, red, sp(l, bold)))
		}
		t := tx(1, red)
		t["ls"] = ls
		add(M{"op": "para", "t": t, "w": w, "al": 1, "h": h, "sy": sy, "sx": sx})
		flush(1)
	}
	flush(1)
	dense := []string{"a", "a", "世", "\u200b", " "}
	for i := 0; i < x.Pick(700, 12000); i++ {
		t := tx(0, red, ln(0, bold, sp(rtext(dense, 9), nobold)), ln(0, bold, sp(rtext(dense, 5), nobold)))
		add(M{"op": "para", "t": t, "w": 2 + x.R.Intn(4), "wrap": 1 + i%2, "al": 1})
	}
	flush(1)
	walpha := []string{"a", "b", "c", "d", "e", "x", "y", " ", " ", " ", "  ", "世", "界", "\u200b", "\u00a0", "e\u0301", "\u3000", "word", "-", "🇩🇪", "\t", " \u0301", "\u00a0\u0301", "\u2002", "\u1680", "\u3000\u0301", "\U0001F468\u200D\U0001F469\u200D\U0001F467"}
	for i := 0; i < x.Pick(1500, 20000); i++ {
		t := rtxt(walpha, 3, x.Pick(8, 14))
		o := M{"op": "para", "t": t, "w": 1 + x.R.Intn(12), "wrap": 1 + i%2, "al": x.R.Intn(4), "st": x.rndStyled(2), "blk": b2i(x.R.Intn(4) == 0)}
		if x.R.Intn(3) == 0 {
			o["h"], o["sy"], o["sx"] = x.R.Intn(6), x.R.Intn(4), x.R.Intn(3)
		} else if x.R.Intn(6) == 0 {
			o["clip"] = []int{x.R.Intn(3), 0, x.R.Intn(3), 0}
		}
		add(o)
	}
	flush(1)
	// T03: every short line, width and offset
	for _, s := range words([]string{"a", "b", "世"}, x.Pick(3, 5)) {
		for w := 1; w <= 4; w++ {
			for sx := 0; sx < 5; sx++ {
				if x.Thorough() || x.R.Intn(4) == 0 {
					add(M{"op": "para", "t": tx(0, red, ln(0, bold, sp(s, nobold)), ln(0, bold, sp("xyz", nobold))), "w": w, "sx": sx, "al": 1 + x.R.Intn(3)*x.R.Intn(2)})
				}
			}
		}
	}
	flush(1)
	for i := 0; i < x.Pick(1500, 20000); i++ {
		t := rtxt(append(walpha, "\x1b", "\u0301"), 6, 6)
		o := M{"op": "para", "t": t, "w": x.R.Intn(12), "h": x.R.Intn(6) * x.R.Intn(2), "sy": x.R.Intn(4) * x.R.Intn(2), "sx": x.R.Intn(6) * x.R.Intn(2), "al": x.R.Intn(4), "st": x.rndStyled(2), "blk": b2i(x.R.Intn(4) == 0)}
		if o.I("sy") == 0 && x.R.Intn(4) == 0 {
			o["clip"] = []int{x.R.Intn(3), x.R.Intn(3), x.R.Intn(3), x.R.Intn(3)}
		}
		add(o)
	}
	flush(1)
}

// splitAt cuts a string after n graphemes.
func splitAt(s string, n int) (string, string) {
	a := ""
	for i, g := range graphemeStrs(s) {
		if i == n {
			break
		}
		a += g
	}
	return a, s[len(a):]
}
