package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"github.com/metafates/bento"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// Helpers shared by the suites that look at buffers.

// graphemes of a text, as the specifications see it: [s, w].
func graphemes(s string) []M {
	out := []M{}
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		out = append(out, M{"s": jsafe(g.Str()), "w": g.Width()})
	}
	return out
}

// asciiOnly makes jsafe also escape what is not ASCII, for suites whose specification names symbols.
var asciiOnly bool

// jsafe makes control characters, invalid bytes and unusual blanks printable, rune by rune: what is read back by TLC has to
// be equal when and only when the original is.
func jsafe(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < 32 || r == 127 || r == 0xfffd || r == '"' || r == '\\' || r == 0x200b || r != ' ' && unicode.IsSpace(r) || r < 256 && unicode.IsControl(r) || asciiOnly && r > 126 {
			fmt.Fprintf(&b, "<%x>", r)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// graphemesC is graphemes, with the width -1 for those with control characters.
func graphemesC(s string) []M {
	out := []M{}
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		w := g.Width()
		for _, r := range g.Runes() {
			if unicode.IsControl(r) {
				w = -1
			}
		}
		out = append(out, M{"s": jsafe(g.Str()), "w": w})
	}
	return out
}

// cellArr5 is a cell with the width of its symbol.
func cellArr5(c bento.Cell) []any {
	return append(cellArr(c), uniseg.StringWidth(c.Symbol))
}

func cellsArr5(b *bento.Buffer, a bento.Rect) []any {
	out := []any{}
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			out = append(out, cellArr5(*b.CellAt(bento.NewPosition(x, y))))
		}
	}
	return out
}

// oldCell fills buffers before widgets are rendered into them.
func oldCell() bento.Cell {
	c := bento.NewCell("~")
	c.Fg, c.Bg, c.Modifier = colorOf("a:3"), colorOf("a:4"), 6
	return c
}

// painted renders into area of a buffer full of old cells and records it.
func painted(x *Ctx, e M, barea, area []int, f func(area bento.Rect, b *bento.Buffer)) *bento.Buffer {
	b := bento.NewBufferFilled(rectOf(barea), oldCell())
	e["barea"], e["area"], e["old"] = barea, area, cellArr5(oldCell())
	e["fail"] = x.Do(func() { f(rectOf(area), &b) })
	e["cells"] = cellsArr5(&b, b.Area())
	return &b
}

// colors: "reset" the default, "nil", "no" termenv.NoColor, "a:N" ANSI, "x:N" 256 colors, "#..." RGB; "" none.
func colorOf(s string) bento.Color {
	switch {
	case s == "" || s == "nil":
		return nil
	case s == "reset":
		return bento.ResetColor{}
	case s == "no":
		return termenv.NoColor{}
	case strings.HasPrefix(s, "a:"):
		n, _ := strconv.Atoi(s[2:])
		return termenv.ANSIColor(n)
	case strings.HasPrefix(s, "x:"):
		n, _ := strconv.Atoi(s[2:])
		return termenv.ANSI256Color(n)
	}
	return termenv.RGBColor(s)
}

func colorName(c bento.Color) string {
	switch c := c.(type) {
	case nil:
		return "nil"
	case bento.ResetColor:
		return "reset"
	case termenv.NoColor:
		return "no"
	case termenv.ANSIColor:
		return fmt.Sprintf("a:%d", int(c))
	case termenv.ANSI256Color:
		return fmt.Sprintf("x:%d", int(c))
	case termenv.RGBColor:
		return string(c)
	}
	return fmt.Sprintf("%T", c)
}

// cellArr is a cell as [symbol, foreground, background, modifiers].
func cellArr(c bento.Cell) []any {
	return []any{jsafe(c.Symbol), colorName(c.Fg), colorName(c.Bg), int(c.Modifier)}
}

func cellsArr(b *bento.Buffer) []any {
	out := []any{}
	a := b.Area()
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			out = append(out, cellArr(*b.CellAt(bento.NewPosition(x, y))))
		}
	}
	return out
}

// styleOf builds a style by the given calls [k, c, m, p] (see Style.tla).
func styleOf(ops []M) bento.Style {
	st := bento.NewStyle()
	for _, o := range ops {
		switch o.S("k") {
		case "fg":
			st = st.WithForeground(colorOf(o.S("c")))
		case "bg":
			st = st.WithBackground(colorOf(o.S("c")))
		case "mod":
			st = st.WithModifier(bento.Modifier(o.I("m")))
		case "nomod":
			st = st.WithoutModifier(bento.Modifier(o.I("m")))
		case "name":
			st = reflect.ValueOf(st).MethodByName(o.S("c")).Call(nil)[0].Interface().(bento.Style)
		case "rgb":
			var r, g, b uint8
			fmt.Sscanf(o.S("c"), "#%02x%02x%02x", &r, &g, &b)
			if o.I("m") == 0 {
				st = st.RGB(r, g, b)
			} else {
				st = st.OnRGB(r, g, b)
			}
		case "patch":
			st = st.Patched(styleOf(o.Ms("p")))
		}
	}
	return st
}

// styleOps as the specification reads it.
func styleOps(ops []M) []M {
	out := []M{}
	for _, o := range ops {
		e := M{"k": o.S("k"), "c": o.S("c"), "m": o.I("m"), "p": styleOps(o.Ms("p"))}
		if o.S("k") == "rgb" {
			e["k"] = []string{"fg", "bg"}[o.I("m")]
		}
		out = append(out, e)
	}
	return out
}

func sop(k, c string, m int, p ...M) M { return M{"k": k, "c": c, "m": m, "p": p} }

func graphemeStrs(s string) []string {
	out := []string{}
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		out = append(out, g.Str())
	}
	return out
}
