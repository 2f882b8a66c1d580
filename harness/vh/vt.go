package main

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// A token of terminal output. The specifications interpret tokens; this only splits the byte stream.
//
//	{t:"cup", x, y} {t:"sgr", p:[...]} {t:"print", s, w} {t:"ed", n} {t:"el", n} {t:"mode", n, on} {t:"ctl", b} {t:"other", s}
func tokenize(b []byte) []M {
	var out []M
	for len(b) > 0 {
		if b[0] == 0x1b && len(b) > 1 && b[1] == '[' {
			i := 2
			for i < len(b) && b[i] >= 0x20 && b[i] <= 0x3f {
				i++
			}
			if i >= len(b) {
				out = append(out, M{"t": "other", "s": trunc(string(b), 60)})
				return out
			}
			params, final := string(b[2:i]), b[i]
			out = append(out, csi(params, final))
			b = b[i+1:]
			continue
		}
		if b[0] < 0x20 || b[0] == 0x7f {
			out = append(out, M{"t": "ctl", "b": int(b[0])})
			b = b[1:]
			continue
		}
		// printable run up to the next control byte; split into graphemes
		i := 0
		for i < len(b) && b[i] >= 0x20 && b[i] != 0x7f {
			_, n := utf8.DecodeRune(b[i:])
			i += n
		}
		g := uniseg.NewGraphemes(string(b[:i]))
		for g.Next() {
			out = append(out, M{"t": "print", "s": g.Str(), "w": g.Width()})
		}
		b = b[i:]
	}
	return out
}

func csi(params string, final byte) M {
	private := strings.HasPrefix(params, "?")
	p := strings.TrimPrefix(params, "?")
	var nums []int
	bad := false
	if p != "" {
		for _, f := range strings.Split(p, ";") {
			if f == "" {
				nums = append(nums, 0)
				continue
			}
			n, err := strconv.Atoi(f)
			if err != nil {
				bad = true
			}
			nums = append(nums, n)
		}
	}
	raw := M{"t": "other", "s": "CSI " + params + string(final)}
	if bad {
		return raw
	}
	arg := func(i, def int) int {
		if i < len(nums) && nums[i] != 0 {
			return nums[i]
		}
		return def
	}
	switch {
	case private && (final == 'h' || final == 'l') && len(nums) == 1:
		return M{"t": "mode", "n": nums[0], "on": final == 'h'}
	case private:
		return raw
	case final == 'H' || final == 'f':
		return M{"t": "cup", "x": arg(1, 1) - 1, "y": arg(0, 1) - 1}
	case final == 'm':
		if nums == nil {
			nums = []int{0}
		}
		return M{"t": "sgr", "p": nums}
	case final == 'J':
		return M{"t": "ed", "n": arg(0, 0)}
	case final == 'K':
		return M{"t": "el", "n": arg(0, 0)}
	}
	return raw
}

// vt is a small terminal emulator (characters and modes only) for the application runs.
type vt struct {
	w, h   int
	cells  []string
	main   []string
	x, y   int
	alt    bool
	cursor bool
	paste  bool
	pend   []byte
	total  int
	odd    int // tokens the application never should send
}

func newVT(w, h int) *vt {
	v := &vt{w: w, h: h, cursor: true}
	v.cells = make([]string, w*h)
	for i := range v.cells {
		v.cells[i] = "~"
	}
	return v
}

// resize keeps the upper left part and shows garbage elsewhere.
func (v *vt) resize(w, h int) {
	c := make([]string, w*h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c[y*w+x] = "~"
			if x < v.w && y < v.h {
				c[y*w+x] = v.cells[y*v.w+x]
			}
		}
	}
	v.w, v.h, v.cells = w, h, c
}

func (v *vt) write(b []byte) {
	v.total += len(b)
	b = append(v.pend, b...)
	// hold back an unfinished trailing sequence
	if i := strings.LastIndexByte(string(b), 0x1b); i >= 0 {
		t := b[i:]
		done := len(t) >= 3 && t[1] == '[' && func() bool {
			for _, c := range t[2:] {
				if c >= 0x40 && c <= 0x7e {
					return true
				}
			}
			return false
		}()
		if !done {
			v.pend = append([]byte{}, t...)
			b = b[:i]
		} else {
			v.pend = nil
		}
	} else {
		v.pend = nil
	}
	for _, t := range tokenize(b) {
		v.token(t)
	}
}

func (v *vt) token(t M) {
	switch t["t"] {
	case "cup":
		v.x, v.y = t.I("x"), t.I("y")
	case "print":
		if v.x < v.w && v.y < v.h {
			v.cells[v.y*v.w+v.x] = t.S("s")
			for k := 1; k < t.I("w") && v.x+k < v.w; k++ {
				v.cells[v.y*v.w+v.x+k] = ""
			}
		}
		v.x += t.I("w")
	case "ed":
		if t.I("n") == 2 {
			for i := range v.cells {
				v.cells[i] = " "
			}
		}
	case "mode":
		on := t.B("on")
		switch t.I("n") {
		case 25:
			v.cursor = on
		case 1049:
			if on && !v.alt {
				for i := range v.cells {
					v.cells[i] = " "
				}
			}
			v.alt = on
		case 2004:
			v.paste = on
		}
	case "other":
		v.odd++
	}
}

// uniform is the character shown in every even column when the odd ones show "=", else "mixed", or "none" when there are no cells.
func (v *vt) uniform() string {
	if len(v.cells) == 0 {
		return "none"
	}
	for i, c := range v.cells {
		if i%v.w%2 == 0 && c != v.cells[0] || i%v.w%2 == 1 && c != "=" {
			return "mixed"
		}
	}
	return v.cells[0]
}
