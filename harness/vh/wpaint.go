package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
)

func init() { suites["paint"] = &Suite{Gen: genPaint, Exec: execPaint} }

var paintSuites = []string{"block", "simple", "throb", "winput", "list", "scroll", "text"}

// execPaint runs a case of another widget suite; of its events only where something was painted is kept.
func execPaint(x *Ctx, c M) {
	asciiOnly = true
	x.filter = func(e M) M {
		if e["cells"] == nil {
			return nil
		}
		cells := e["cells"].([]any)
		out := make([]string, len(cells))
		for i, c := range cells {
			out[i] = fmt.Sprint(c)
		}
		if e["area"] == nil { // all of a new buffer
			e["area"] = e["barea"]
		}
		return M{"op": e["op"], "fail": e["fail"], "barea": e["barea"], "area": e["area"], "old": fmt.Sprint(e["old"]), "cells": out}
	}
	defer func() { x.filter = nil }()
	if c.S("suite") == "zero" {
		e := M{"op": "zero " + c.S("what")}
		painted(x, e, c.Is("barea"), c.Is("area"), func(area bento.Rect, b *bento.Buffer) { zeros[c.S("what")](area, b) })
		x.Ev(e)
		return
	}
	suites[c.S("suite")].Exec(x, c.M("case"))
}

var hostile = []string{"", "\n", "\r\n\r\n", "\t", "\x00", "\u200b", "\u200b\u200b", "\u0301", "a\u0301\u0302\u0303", "\U0001F468\u200D\U0001F469\u200D\U0001F467", "世世世世世世世世世世世世", "\u202eabc", badByte, "a" + badByte + "b", "\x1b[2J", "\u00ad", "🇩🇪🇩", strings.Repeat("xyz ", 30), " ", "\u3000\u3000", "\u2003a", "\ufeff", "\ufffd", strings.Repeat("\u0301", 20)}

// Fields whose value does not have to be small.
var anySize = map[string][]int{
	"sx": {0, 1, 7, 1000000, -1, 1 << 40}, "sy": {0, 1, 7, 1000000, -1, 1 << 40}, "sel": {0, 1000000, 3},
}

// hurt makes the areas of a case awkward, and its contents.
func (x *Ctx) hurt(v any, areas, texts int) {
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			x.hurt(e, areas, texts)
		}
	case map[string]any:
		for k, e := range v {
			switch {
			case k == "area" && v["barea"] != nil && x.R.Intn(100) < areas:
				b := ints(v["barea"])
				far := []int{-1000000, -3, -1, 0, 1, 2, b[0], b[1], b[0] + b[2], b[1] + b[3], b[0] + b[2] - 1, b[1] + b[3] - 1, 100, 1000000}
				size := []int{0, 0, 1, 2, b[2], b[3], b[2] + 1, 7, 1000000}
				v[k] = []any{x.any(far), x.any(far), x.any(size), x.any(size)}
				if x.R.Intn(4) == 0 { // around the buffer
					v[k] = []any{b[0] - x.R.Intn(3), b[1] - x.R.Intn(3), b[2] + x.R.Intn(6), b[3] + x.R.Intn(6)}
				}
			case k == "s" && x.R.Intn(100) < texts && v["op"] == nil:
				v[k] = x.pick(hostile)
			case anySize[k] != nil && v["op"] != nil && x.R.Intn(100) < texts:
				v[k] = x.any(anySize[k])
			case k == "st" || k == "barea" || k == "op":
			default:
				x.hurt(e, areas, texts)
			}
		}
	}
}

func (x *Ctx) any(q []int) int { return q[x.R.Intn(len(q))] }

// zeros are widgets and states nobody has set anything in.
var zeros = map[string]func(area bento.Rect, b *bento.Buffer){
	"block": func(area bento.Rect, b *bento.Buffer) { blockwidget.Block{}.Render(area, b) },
	"clear": func(area bento.Rect, b *bento.Buffer) { clearwidget.Clear{}.Render(area, b) },
	"fill":  func(area bento.Rect, b *bento.Buffer) { fillwidget.Fill{}.Render(area, b) },
	"gauge": func(area bento.Rect, b *bento.Buffer) { gaugewidget.Gauge{}.Render(area, b) },
	"input": func(area bento.Rect, b *bento.Buffer) {
		inputwidget.Input{}.RenderStateful(area, b, new(inputwidget.State))
	},
	"list":      func(area bento.Rect, b *bento.Buffer) { listwidget.List{}.Render(area, b) },
	"paragraph": func(area bento.Rect, b *bento.Buffer) { paragraphwidget.Paragraph{}.Render(area, b) },
	"popup":     func(area bento.Rect, b *bento.Buffer) { popupwidget.Popup{}.Render(area, b) },
	"scroll": func(area bento.Rect, b *bento.Buffer) {
		scrollwidget.Scroll{}.RenderStateful(area, b, scrollwidget.State{})
	},
	"tabs": func(area bento.Rect, b *bento.Buffer) { tabswidget.Tabs{}.Render(area, b) },
	"line": func(area bento.Rect, b *bento.Buffer) { textwidget.Line{}.Render(area, b) },
	"span": func(area bento.Rect, b *bento.Buffer) { textwidget.Span{}.Render(area, b) },
	"text": func(area bento.Rect, b *bento.Buffer) { textwidget.Text{}.Render(area, b) },
	"throbber": func(area bento.Rect, b *bento.Buffer) {
		throbberwidget.Throbber{}.RenderStateful(area, b, throbberwidget.State{})
	},
	"block with empty title": func(area bento.Rect, b *bento.Buffer) {
		blockwidget.New().Bordered().WithTitle(blockwidget.Title{}).Render(area, b)
	},
	"tabs without titles": func(area bento.Rect, b *bento.Buffer) {
		tabswidget.New(textwidget.Line{}, textwidget.Line{}).Select(5).Render(area, b)
	},
	"throbber state": func(area bento.Rect, b *bento.Buffer) {
		throbberwidget.New().RenderStateful(area, b, throbberwidget.State{})
	},
	"input state": func(area bento.Rect, b *bento.Buffer) {
		inputwidget.New().RenderStateful(area, b, new(inputwidget.State))
	},
	"scroll state": func(area bento.Rect, b *bento.Buffer) {
		scrollwidget.New(scrollwidget.OrientationVerticalLeft).RenderStateful(area, b, scrollwidget.State{})
	},
	"list of nothing": func(area bento.Rect, b *bento.Buffer) {
		listwidget.New(textwidget.Text{}, textwidget.Text{}).Render(area, b)
	},
}

func genPaint(x *Ctx) {
	names := make([]string, 0, len(zeros))
	for name := range zeros {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		for i := 0; i < 8; i++ {
			barea, area := x.rndAreas(5, 4)
			x.Case(M{"suite": "zero", "what": name, "barea": barea, "area": area})
		}
	}
	for _, name := range paintSuites {
		var all []M
		x.collect = func(c M) { all = append(all, c) }
		suites[name].Gen(x)
		x.collect = nil
		x.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		n := 0
		for _, c := range all {
			if n > x.Pick(7000, 60000) {
				break
			}
			b, err := json.Marshal(c)
			check(err)
			var m map[string]any
			check(json.Unmarshal(b, &m))
			ops := M(m).Ms("ops")
			n += len(ops)
			for _, o := range ops {
				if name == "text" && o.S("op") == "para" && x.R.Intn(3) > 0 {
					barea, area := x.rndAreas(9, 6)
					o["h"], o["barea"], o["area"] = 1, barea, area
				}
			}
			switch x.R.Intn(3) {
			case 0:
				x.hurt(m, 60, 0)
			case 1:
				x.hurt(m, 30, 15)
			case 2:
				x.hurt(m, 0, 30)
			}
			x.Case(M{"suite": name, "case": m})
		}
	}
}
