package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/metafates/bento"
)

func init() { suites["names"] = &Suite{Gen: genNames, Exec: execNames} }

// keyAliases are other constants of the library for the same keys.
var keyAliases = map[string]bento.KeyType{
	"null/ctrl+@": bento.KeyNull, "break/ctrl+c": bento.KeyBreak, "escape/esc": bento.KeyEscape, "i/tab": bento.KeyCtrlI, "m/enter": bento.KeyCtrlM,
	"[/esc": bento.KeyCtrlOpenBracket, "?/backspace": bento.KeyCtrlQuestionMark,
}

var keyNamed = func() map[string]bento.KeyType {
	all := map[string]bento.KeyType{}
	for t, n := range keyTypeNames {
		all[n] = t
	}
	for n, t := range keyAliases {
		all[n] = t
	}
	return all
}()

var mouseButtons = []bento.MouseButton{bento.MouseButtonNone, bento.MouseButtonLeft, bento.MouseButtonMiddle, bento.MouseButtonRight, bento.MouseButtonWheelUp,
	bento.MouseButtonWheelDown, bento.MouseButtonWheelLeft, bento.MouseButtonWheelRight, bento.MouseButtonBackward, bento.MouseButtonForward, bento.MouseButton10, bento.MouseButton11}

var mouseActionsAll = []bento.MouseAction{bento.MouseActionPress, bento.MouseActionRelease, bento.MouseActionMotion}

// execNames: k key|type|runes|mouse
func execNames(x *Ctx, c M) {
	k := c.S("k")
	e := M{"op": k}
	codes := func(s string) []int { return runeInts([]rune(s)) }
	switch k {
	case "key", "type":
		name := c.S("key")
		t := keyNamed[name]
		if i := strings.IndexByte(name, '/'); i > 0 {
			name = name[i+1:]
		}
		base, ctrl := strings.CutPrefix(name, "ctrl+")
		base, shift := strings.CutPrefix(base, "shift+")
		e["ctrl"], e["shift"], e["base"], e["alt"] = b2i(ctrl), b2i(shift), base, c.I("alt")
		e["fail"] = x.Do(func() {
			if k == "type" {
				e["t"], e["v"] = codes(t.String()), codes(fmt.Sprint(t))
				return
			}
			key := bento.Key{Type: t, Alt: c.I("alt") == 1}
			if t == bento.KeySpace {
				key.Runes = []rune{' '}
			}
			if c.I("msg") == 1 {
				e["t"], e["v"] = codes(bento.KeyMsg(key).String()), codes(fmt.Sprint(bento.KeyMsg(key)))
			} else {
				e["t"], e["v"] = codes(key.String()), codes(fmt.Sprint(key))
			}
		})
	case "runes":
		e["n"], e["alt"], e["paste"] = c.Is("n"), c.I("alt"), c.I("paste")
		rs := []rune{}
		for _, r := range c.Is("n") {
			rs = append(rs, rune(r))
		}
		e["fail"] = x.Do(func() {
			key := bento.Key{Type: bento.KeyRunes, Runes: rs, Alt: c.I("alt") == 1, Paste: c.I("paste") == 1}
			if c.I("msg") == 1 {
				e["t"], e["v"] = codes(bento.KeyMsg(key).String()), codes(fmt.Sprint(bento.KeyMsg(key)))
			} else {
				e["t"], e["v"] = codes(key.String()), codes(fmt.Sprint(key))
			}
		})
	case "mouse":
		m := c.Is("m")
		e["m"] = m
		e["fail"] = x.Do(func() {
			ev := bento.MouseEvent{X: m[5], Y: m[6], Ctrl: m[0] == 1, Alt: m[1] == 1, Shift: m[2] == 1, Button: mouseButtons[m[3]], Action: mouseActionsAll[m[4]]}
			e["wheel"] = b2i(ev.IsWheel())
			if c.I("msg") == 1 {
				e["t"], e["v"] = bento.MouseMsg(ev).String(), fmt.Sprint(bento.MouseMsg(ev))
			} else {
				e["t"], e["v"] = ev.String(), fmt.Sprint(ev)
			}
		})
	}
	x.Ev(e)
}

func genNames(x *Ctx) {
	names := []string{}
	for n := range keyNamed {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		x.Case(M{"k": "type", "key": n})
		for i := 0; i < 4; i++ {
			x.Case(M{"k": "key", "key": n, "alt": i & 1, "msg": i >> 1})
		}
	}
	for i := 0; i < 8; i++ {
		for b := range mouseButtons {
			for a := range mouseActionsAll {
				for msg := 0; msg < 2; msg++ {
					x.Case(M{"k": "mouse", "m": []int{i & 1, i >> 1 & 1, i >> 2, b, a, x.R.Intn(300), x.R.Intn(100)}, "msg": msg})
				}
			}
		}
	}
	// characters: names of keys typed out, brackets, wide and combining ones, anything
	words := []string{"a", "[", "]", "[a]", "up", "ctrl+c", "alt+a", "enter", "alt+", "+", "é", "日本", "é", "👨‍👩‍👧", " ", "  ", "\n", "\t", "\x1b", "\x00", "a\nb", "[[", "]]", "tab\t", "\u200b", "\U0010ffff", "\ufffd"}
	for _, w := range words {
		for i := 0; i < 8; i++ {
			x.Case(M{"k": "runes", "n": runeInts([]rune(w)), "alt": i & 1, "paste": i >> 1 & 1, "msg": i >> 2})
		}
	}
	for r := 0; r < 0x250; r++ {
		x.Case(M{"k": "runes", "n": []int{r}, "alt": r & 1, "paste": 0, "msg": r >> 1 & 1})
		x.Case(M{"k": "runes", "n": []int{r}, "alt": r >> 1 & 1, "paste": 1, "msg": r & 1})
	}
	pool := []int{'a', 'u', 'p', '[', ']', '+', ' ', 'l', 't', 0x65e5, 0x301, 0x1f600, 10, 27, 0x10ffff, 0xd7ff, 0xe000, 0}
	for i := 0; i < x.Pick(3000, 60000); i++ {
		n := []int{}
		for j := x.R.Intn(1 + x.R.Intn(40)); j >= 0; j-- {
			n = append(n, pool[x.R.Intn(len(pool))])
		}
		x.Case(M{"k": "runes", "n": n, "alt": x.R.Intn(2), "paste": x.R.Intn(2), "msg": x.R.Intn(2)})
	}
}
