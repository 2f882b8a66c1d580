package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"slices"
	"strings"
	"sync"

	"github.com/metafates/bento"
)

// readInputs is the decoder of package bento (see readinputs_overlay.go).
var readInputs func(ctx context.Context, msgs chan<- bento.Msg, input io.Reader) error

func init() {
	suites["input"] = &Suite{Gen: genInput, Exec: execInput}
}

var keyTypeNames = map[bento.KeyType]string{
	bento.KeyUp: "up", bento.KeyDown: "down", bento.KeyRight: "right", bento.KeyLeft: "left",
	bento.KeyShiftTab: "shift+tab", bento.KeyHome: "home", bento.KeyEnd: "end", bento.KeyPgUp: "pgup", bento.KeyPgDown: "pgdown",
	bento.KeyCtrlPgUp: "ctrl+pgup", bento.KeyCtrlPgDown: "ctrl+pgdown", bento.KeyDelete: "delete", bento.KeyInsert: "insert",
	bento.KeySpace: "space", bento.KeyCtrlUp: "ctrl+up", bento.KeyCtrlDown: "ctrl+down", bento.KeyCtrlRight: "ctrl+right", bento.KeyCtrlLeft: "ctrl+left",
	bento.KeyCtrlHome: "ctrl+home", bento.KeyCtrlEnd: "ctrl+end", bento.KeyShiftUp: "shift+up", bento.KeyShiftDown: "shift+down",
	bento.KeyShiftRight: "shift+right", bento.KeyShiftLeft: "shift+left", bento.KeyShiftHome: "shift+home", bento.KeyShiftEnd: "shift+end",
	bento.KeyCtrlShiftUp: "ctrl+shift+up", bento.KeyCtrlShiftDown: "ctrl+shift+down", bento.KeyCtrlShiftLeft: "ctrl+shift+left",
	bento.KeyCtrlShiftRight: "ctrl+shift+right", bento.KeyCtrlShiftHome: "ctrl+shift+home", bento.KeyCtrlShiftEnd: "ctrl+shift+end",
	bento.KeyF1: "f1", bento.KeyF2: "f2", bento.KeyF3: "f3", bento.KeyF4: "f4", bento.KeyF5: "f5", bento.KeyF6: "f6", bento.KeyF7: "f7",
	bento.KeyF8: "f8", bento.KeyF9: "f9", bento.KeyF10: "f10", bento.KeyF11: "f11", bento.KeyF12: "f12", bento.KeyF13: "f13", bento.KeyF14: "f14",
	bento.KeyF15: "f15", bento.KeyF16: "f16", bento.KeyF17: "f17", bento.KeyF18: "f18", bento.KeyF19: "f19", bento.KeyF20: "f20",
	bento.KeyCtrlAt: "ctrl+@", bento.KeyCtrlA: "ctrl+a", bento.KeyCtrlB: "ctrl+b", bento.KeyCtrlC: "ctrl+c", bento.KeyCtrlD: "ctrl+d",
	bento.KeyCtrlE: "ctrl+e", bento.KeyCtrlF: "ctrl+f", bento.KeyCtrlG: "ctrl+g", bento.KeyCtrlH: "ctrl+h", bento.KeyTab: "tab", bento.KeyCtrlJ: "ctrl+j",
	bento.KeyCtrlK: "ctrl+k", bento.KeyCtrlL: "ctrl+l", bento.KeyEnter: "enter", bento.KeyCtrlN: "ctrl+n", bento.KeyCtrlO: "ctrl+o", bento.KeyCtrlP: "ctrl+p",
	bento.KeyCtrlQ: "ctrl+q", bento.KeyCtrlR: "ctrl+r", bento.KeyCtrlS: "ctrl+s", bento.KeyCtrlT: "ctrl+t", bento.KeyCtrlU: "ctrl+u", bento.KeyCtrlV: "ctrl+v",
	bento.KeyCtrlW: "ctrl+w", bento.KeyCtrlX: "ctrl+x", bento.KeyCtrlY: "ctrl+y", bento.KeyCtrlZ: "ctrl+z", bento.KeyEsc: "esc", bento.KeyCtrlBackslash: "ctrl+\\",
	bento.KeyCtrlCloseBracket: "ctrl+]", bento.KeyCtrlCaret: "ctrl+^", bento.KeyCtrlUnderscore: "ctrl+_", bento.KeyBackspace: "backspace",
}

func runeInts(rs []rune) []int {
	out := []int{}
	for _, r := range rs {
		out = append(out, int(r))
	}
	return out
}

func byteInts(bs []byte) []int {
	out := []int{}
	for _, b := range bs {
		out = append(out, int(b))
	}
	return out
}

// describeMsg: kind, key name, alt, numbers, text (t, or tn as code points)
func describeMsg(m bento.Msg) M {
	o := M{"k": "other", "s": "", "alt": 0, "n": []int{}, "t": "", "tn": []int{}}
	switch m := m.(type) {
	case bento.KeyMsg:
		o["alt"] = b2i(m.Alt)
		o["n"] = runeInts(m.Runes)
		switch {
		case m.Type == bento.KeyRunes && m.Paste:
			o["k"], o["tn"] = "paste", runeInts([]rune(m.String()))
		case m.Type == bento.KeyRunes:
			o["k"], o["tn"] = "runes", runeInts([]rune(m.String()))
		default:
			o["k"], o["t"] = "key", m.String()
			name, ok := keyTypeNames[m.Type]
			if !ok {
				name = fmt.Sprintf("type %d", int(m.Type))
			}
			if m.Paste {
				name += " pasted"
			}
			o["s"] = name
		}
	case bento.MouseMsg:
		o["k"], o["t"] = "mouse", m.String()
		o["n"] = []int{m.X, m.Y, int(m.Button) - int(bento.MouseButtonNone), mouseAction(m.Action), b2i(m.Shift), b2i(m.Alt), b2i(m.Ctrl)}
	case bento.FocusMsg:
		o["k"] = "focus"
	case bento.BlurMsg:
		o["k"] = "blur"
	default:
		v := reflect.ValueOf(m)
		switch {
		case v.Kind() == reflect.Uint8:
			o["k"], o["n"] = "byte", []int{int(v.Uint())}
		case v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8:
			o["k"], o["n"] = "csi", byteInts(v.Bytes())
		default:
			o["s"] = fmt.Sprintf("%T", m)
		}
	}
	return o
}

func mouseAction(a bento.MouseAction) int {
	switch a {
	case bento.MouseActionPress:
		return 0
	case bento.MouseActionRelease:
		return 1
	case bento.MouseActionMotion:
		return 2
	}
	return 9
}

type inputMark struct{}

// scriptReader delivers bursts: as many full reads as it takes, then the rest.
type scriptReader struct {
	bursts [][]byte
	with   bool // the error comes with the last data
	err    error
	msgs   chan bento.Msg
	bufs   int
	reads  []readRec
}

type readRec struct {
	b          []byte
	full, last bool
}

func (r *scriptReader) Read(p []byte) (int, error) {
	r.msgs <- inputMark{} // everything before has been delivered now
	r.bufs = len(p)
	for len(r.bursts) > 0 && len(r.bursts[0]) == 0 {
		r.bursts = r.bursts[1:]
	}
	if len(r.bursts) == 0 {
		r.reads = append(r.reads, readRec{nil, false, true})
		return 0, r.err
	}
	n := copy(p, r.bursts[0])
	r.bursts[0] = r.bursts[0][n:]
	if len(r.bursts[0]) == 0 {
		r.bursts = r.bursts[1:]
	}
	rec := readRec{append([]byte{}, p[:n]...), n == len(p), r.with && len(r.bursts) == 0}
	r.reads = append(r.reads, rec)
	if rec.last {
		return n, r.err
	}
	return n, nil
}

var errInput = errors.New("input broke")

func toBytes(v []int) []byte {
	out := make([]byte, len(v))
	for i := range v {
		out[i] = byte(v[i])
	}
	return out
}

func execInput(x *Ctx, c M) {
	if readInputs == nil {
		check(errors.New("the input decoder is not accessible (overlay not built in)"))
	}
	sr := &scriptReader{msgs: make(chan bento.Msg), err: io.EOF, with: strings.HasPrefix(c.S("end"), "with")}
	if strings.HasSuffix(c.S("end"), "err") {
		sr.err = errInput
	}
	bulk := c.S("k") == "bulk"
	unit := []byte{}
	if bulk {
		unit = toBytes(c.Is("unit"))
		all := append(toBytes(c.Is("before")), bytes.Repeat(unit, c.I("rep"))...)
		inside := len(all)
		all = append(all, toBytes(c.Is("after"))...)
		for cut := c.I("cut"); cut > 0 && inside > cut; inside -= cut {
			sr.bursts = append(sr.bursts, all[:cut])
			all = all[cut:]
		}
		sr.bursts = append(sr.bursts, all)
	} else {
		for _, b := range c["bursts"].([]any) {
			sr.bursts = append(sr.bursts, toBytes(ints(b)))
		}
	}
	var groups [][]bento.Msg
	var cur []bento.Msg
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for m := range sr.msgs {
			if _, ok := m.(inputMark); ok {
				groups = append(groups, cur)
				cur = nil
				continue
			}
			cur = append(cur, m)
		}
		groups = append(groups, cur)
	}()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var ret error
	done := make(chan string, 1)
	x.start.Store(nowNano())
	go func() {
		done <- func() (f string) {
			defer func() {
				if r := recover(); r != nil {
					f = "panic: " + trunc(fmt.Sprint(r), 200)
				}
			}()
			ret = readInputs(ctx, sr.msgs, sr)
			return ""
		}()
	}()
	fail := <-done
	x.start.Store(0)
	close(sr.msgs)
	wg.Wait()
	if bulk {
		e := M{"op": "bulk", "before": c.Is("before"), "unit": c.Is("unit"), "rep": c.I("rep"), "after": c.Is("after"), "msgs": foldMsgs(groups, []rune(string(unit))), "fail": fail, "ret": b2i(errors.Is(ret, sr.err))}
		x.Ev(e)
		return
	}
	// groups[0] precedes the first read
	for i, r := range sr.reads {
		ms := []M{}
		if i+1 < len(groups) {
			for _, m := range groups[i+1] {
				ms = append(ms, describeMsg(m))
			}
		}
		op := "read"
		if r.last {
			op = "end"
		}
		e := M{"op": op, "b": byteInts(r.b), "full": b2i(r.full), "msgs": ms, "fail": "", "ret": 1}
		if i == len(sr.reads)-1 {
			e["fail"] = fail
			if fail == "" && !r.last {
				e["fail"] = "stopped reading: " + trunc(fmt.Sprint(ret), 100)
			}
			e["ret"] = b2i(errors.Is(ret, sr.err))
		}
		x.Ev(e)
	}
	if len(sr.reads) == 0 {
		x.Ev(M{"op": "end", "b": []int{}, "full": 0, "msgs": []M{}, "fail": "nothing was read " + fail, "ret": 0})
	}
}

// foldMsgs lists all messages. A message that repeats itself, and text inside a message that does, is reported twice
// together with how often it was there (rep counts the messages, trep the text).
func foldMsgs(groups [][]bento.Msg, unit []rune) []M {
	out := []M{}
	var last bento.Msg
	for _, g := range groups {
		for _, m := range g {
			if len(out) > 1 && reflect.DeepEqual(m, last) && out[len(out)-1].I("rep") > 1 {
				out[len(out)-1]["rep"] = out[len(out)-1].I("rep") + 1
				out[len(out)-2]["rep"] = out[len(out)-1]["rep"]
				continue
			}
			again := len(out) > 0 && reflect.DeepEqual(m, last)
			last = m
			d := describeMsg(m)
			d["rep"], d["trep"] = 1, 0
			if again {
				d["rep"], out[len(out)-1]["rep"] = 2, 2
			}
			if k, ok := m.(bento.KeyMsg); ok && len(unit) > 0 {
				rs := k.Runes
				for i := range rs {
					n := 0
					for j := i; j+len(unit) <= len(rs) && slices.Equal(rs[j:j+len(unit)], unit); j += len(unit) {
						n++
					}
					if n > 2 {
						k.Runes = slices.Concat(rs[:i+2*len(unit)], rs[i+n*len(unit):])
						d = describeMsg(k)
						d["rep"], d["trep"] = 1, n
						break
					}
				}
			}
			if len(out) < 100 { // (there should be far fewer)
				out = append(out, d)
			}
		}
	}
	return out
}

func genInput(x *Ctx) {
	bursts := func(end string, bs ...[]byte) {
		l := []any{}
		for _, b := range bs {
			l = append(l, byteInts(b))
		}
		x.Case(M{"k": "in", "end": end, "bursts": l})
	}
	cat := func(bs ...[]byte) []byte {
		out := []byte{}
		for _, b := range bs {
			out = append(out, b...)
		}
		return out
	}
	ends := []string{"eof", "err", "witheof", "witherr"}
	// the tokens of the specification: known sequences (closed) and others
	var known, others [][]byte
	if f, err := os.Open(x.ScriptFile); err == nil {
		dec := json.NewDecoder(f)
		for {
			var t struct {
				Tok   []int
				Known bool
			}
			if dec.Decode(&t) != nil {
				break
			}
			if t.Known {
				known = append(known, toBytes(t.Tok))
			} else {
				others = append(others, toBytes(t.Tok))
			}
		}
		f.Close()
	}
	tokens := append(append([][]byte{}, known...), others...)
	pick := func(l [][]byte) []byte { return l[x.R.Intn(len(l))] }

	// 1. every known sequence, alone and with neighbours
	for _, t := range tokens {
		bursts("eof", t)
		bursts("witheof", cat([]byte("x"), t, []byte("y")))
		bursts("eof", t, cat(t, pick(known)), cat(pick(others), t))
		if x.Thorough() {
			for i := 0; i < 12; i++ {
				bursts("eof", cat(pick(tokens), t, pick(tokens)))
			}
		}
	}
	// 2. all short strings
	alpha := []byte{27, '[', 'O', 'A', 'a', 'M', '<', ';', '1', '3', '~', ' ', 0, 9, 127, 0xc3, 0xa9, 0xff, 'I'}
	n := 2
	if x.Thorough() {
		n = 4
	}
	var rec func(s []byte)
	batch := [][]byte{}
	put := func(s []byte) { // several strings, each a burst of its own, make a case
		batch = append(batch, append([]byte{}, s...))
		if len(batch) == 8 {
			bursts("eof", batch...)
			batch = batch[:0]
		}
	}
	rec = func(s []byte) {
		if len(s) > 0 {
			put(s)
		}
		if len(s) < n {
			for _, a := range alpha {
				rec(append(s, a))
			}
		}
	}
	rec(nil)
	for i := 0; i < x.Pick(2500, 20000); i++ {
		l := 3 + x.R.Intn(6)
		s := []byte{}
		for len(s) < l {
			s = append(s, alpha[x.R.Intn(len(alpha))])
			if x.R.Intn(4) == 0 {
				s = append(s, 27, '[')
			}
		}
		put(s)
	}
	// 3. arbitrary bytes
	for i := 0; i < x.Pick(300, 4000); i++ {
		s := make([]byte, 1+x.R.Intn(40))
		for j := range s {
			switch x.R.Intn(4) {
			case 0:
				s[j] = byte(x.R.Intn(256))
			case 1:
				s[j] = byte(32 + x.R.Intn(95))
			case 2:
				s[j] = []byte{27, 27, '[', ';', '<', 0x80, 0xbf, 0xe2, 0xf0, 0x9f, 0xed, 0xa0, 0xc0, 0xef, 0xbf, 0xbd}[x.R.Intn(16)]
			default:
				s[j] = byte(x.R.Intn(128))
			}
		}
		put(s)
	}
	// 4. random streams of tokens, cut between tokens
	text := [][]byte{[]byte("hello"), []byte("a b"), []byte("日本"), []byte("é"), []byte("\U0001F600"), []byte("\ufffd"), []byte("\u0301"), {0xff}, {0xe2, 0x82}}
	for i := 0; i < x.Pick(400, 5000); i++ {
		var bs [][]byte
		var cur []byte
		for j := 1 + x.R.Intn(25); j > 0; j-- {
			switch x.R.Intn(4) {
			case 0:
				cur = append(cur, pick(text)...)
			case 1:
				cur = append(cur, pick(others)...)
			default:
				cur = append(cur, pick(known)...)
			}
			if x.R.Intn(3) == 0 {
				bs = append(bs, cur)
				cur = nil
			}
		}
		bs = append(bs, cur)
		bursts(ends[x.R.Intn(4)], bs...)
	}
	// 5. everything across the end of a full buffer
	size := 256
	{
		sr := &scriptReader{msgs: make(chan bento.Msg, 4), err: io.EOF}
		readInputs(context.Background(), sr.msgs, sr)
		if sr.bufs > 0 {
			size = sr.bufs
		}
	}
	if size > 4096 {
		size = 4096
	}
	fill := func(n, kind int) []byte {
		out := []byte{}
		for len(out) < n {
			switch {
			case kind == 0:
				out = append(out, 'a')
			case kind == 1:
				out = append(out, 9)
			case kind == 2 && n-len(out) >= 3:
				out = append(out, 27, '[', 'A')
			case kind == 3 && n-len(out) >= 2:
				out = append(out, 0xc3, 0xa9)
			default:
				out = append(out, ' ')
			}
		}
		return out
	}
	straddle := append(append([][]byte{}, others...), text...)
	for i := 0; i < x.Pick(25, len(known)); i++ {
		if x.Thorough() {
			straddle = append(straddle, known[i])
		} else {
			straddle = append(straddle, pick(known))
		}
	}
	for i, t := range straddle {
		for k := 0; k <= len(t) && k < size; k++ { // k bytes of the token fit
			if !x.Thorough() && k > 3 && k < len(t)-2 && x.R.Intn(3) > 0 {
				continue
			}
			kinds := []int{x.R.Intn(4)}
			if x.Thorough() {
				kinds = []int{0, 1, 2, 3}
			}
			for _, kind := range kinds {
				bufs := 1
				if i%7 == 0 {
					bufs = 2
				}
				s := cat(fill(size*bufs-k, kind), t, [][]byte{nil, []byte("z"), []byte("\x1b[B"), []byte("A")}[x.R.Intn(4)])
				bursts(ends[x.R.Intn(4)], s, []byte("q"))
				if k == len(t) || x.R.Intn(3) == 0 { // the stream ends, or pauses, with the buffer
					if x.R.Intn(2) == 0 {
						bursts(ends[x.R.Intn(4)], s[:size*bufs])
					} else {
						bursts("eof", s[:size*bufs], s[size*bufs:], t)
					}
				}
			}
		}
	}
	for i := 0; i < x.Pick(30, 400); i++ { // long random streams
		s := []byte{}
		for l := size*(1+x.R.Intn(3)) + x.R.Intn(60) - 30; len(s) < l; {
			switch x.R.Intn(5) {
			case 0:
				s = append(s, pick(text)...)
			case 1:
				s = append(s, pick(others)...)
			case 2:
				s = append(s, byte(33+x.R.Intn(90)))
			default:
				s = append(s, pick(known)...)
			}
		}
		bursts(ends[x.R.Intn(4)], s, pick(tokens))
	}
	// 6. mouse reports
	var s []byte
	flush := func(min int) {
		if len(s) > min {
			bursts("eof", s)
			s = nil
		}
	}
	for b := 0; b < 256; b++ {
		for j := 0; j < x.Pick(2, 12); j++ {
			cx, cy := 33+x.R.Intn(223), 33+x.R.Intn(223)
			if j == 1 {
				cx, cy = []int{33, 34, 127, 128, 255, 32, 0}[x.R.Intn(7)], []int{33, 255, 31, 27, 160}[x.R.Intn(5)]
			}
			s = append(s, 27, '[', 'M', byte(b), byte(cx), byte(cy))
			flush(170)
			e := b
			if j > 4 {
				e = x.R.Intn(100000)
			}
			s = append(s, fmt.Sprintf("\x1b[<%d;%d;%d%c", e, 1+x.R.Intn(400), []int{0, 1, 2, 80, 9999, 1 + x.R.Intn(300)}[x.R.Intn(6)], "Mm"[x.R.Intn(2)])...)
			if x.R.Intn(6) == 0 {
				s = append(s, pick(tokens)...)
			}
			if x.R.Intn(6) == 0 {
				s = append(s, "mM;<"[x.R.Intn(4)])
			}
			flush(170)
		}
	}
	flush(0)
	// 7. pastes
	for i := 0; i < x.Pick(250, 3000); i++ {
		p := []byte("\x1b[200~")
		for j := x.R.Intn(8); j > 0; j-- {
			switch x.R.Intn(6) {
			case 0:
				p = append(p, pick(text)...)
			case 1:
				p = append(p, pick(tokens)...)
			case 2:
				p = append(p, "\x1b[201~"[:x.R.Intn(6)]...)
			case 3:
				p = append(p, byte(x.R.Intn(256)))
			case 4:
				p = append(p, fill(x.R.Intn(300), x.R.Intn(4))...)
			default:
				p = append(p, "line\nbreak\x00"...)
			}
		}
		if x.R.Intn(8) > 0 {
			p = append(p, "\x1b[201~"...)
		}
		p = cat(pick([][]byte{nil, []byte("a"), []byte("\x1b[A")}), p, pick([][]byte{nil, []byte("b"), []byte("\x1b[200~c\x1b[201~"), []byte("\x1b[201~")}))
		var bs [][]byte
		for len(p) > 0 { // a paste may be cut anywhere inside its content
			k := len(p)
			if x.R.Intn(2) == 0 {
				k = 1 + x.R.Intn(len(p))
				if b := strings.LastIndex(string(p[:k]), "\x1b[200~"); b < 0 {
					k = len(p)
				} else if e := strings.Index(string(p[b:]), "\x1b[201~"); e >= 0 && k > b+e {
					k = len(p)
				}
			}
			bs = append(bs, p[:k])
			p = p[k:]
		}
		bursts(ends[x.R.Intn(4)], bs...)
	}
	if len(batch) > 0 {
		bursts("eof", batch...)
	}
	// 8. the same report again and again, and drags, in one burst: each is a message of its own
	for i := 0; i < x.Pick(40, 600); i++ {
		var s []byte
		b := []int{32, 32, 33, 34, 35, 64, 65, 0, 36, 160}[x.R.Intn(10)]
		px, py := 1+x.R.Intn(90), 1+x.R.Intn(90)
		for j := 2 + x.R.Intn(12); j > 0; j-- {
			if x.R.Intn(2) == 0 {
				px, py = 1+(px+x.R.Intn(3))%90, 1+(py+x.R.Intn(3))%90
			}
			if x.R.Intn(8) == 0 {
				b ^= 32
			}
			if i%3 == 0 {
				s = append(s, 27, '[', 'M', byte(b+32), byte(px+32), byte(py+32))
			} else {
				s = append(s, fmt.Sprintf("\x1b[<%d;%d;%dM", b, px, py)...)
			}
		}
		if i%2 == 0 {
			s = append(s, fmt.Sprintf("\x1b[<%d;%d;%dm", b&^32, px, py)...)
		}
		bursts("eof", s, s)
	}
	// 9. a lot of the same: pastes, text, keys and reports
	lot := func(before string, unit string, rep int, after string, cut int) {
		x.Case(M{"k": "bulk", "end": "eof", "before": byteInts([]byte(before)), "unit": byteInts([]byte(unit)), "rep": rep, "after": byteInts([]byte(after)), "cut": cut})
	}
	units := []string{"x", "ab ", "line\n", "\r\t", "日本", "é!", "\U0001F600", "\x00~", "\x1b[A", "\x1b[201", "[200~"}
	for i, u := range units {
		for _, rep := range []int{3, 300, x.Pick(9000, 40000), x.Pick(70000, 1_200_000) / len(u)} {
			for _, cut := range []int{0, 1000 + 37*i} {
				if cut > 0 && rep < 300 || rep > 20000 && cut > 0 && !x.Thorough() && i > 3 {
					continue
				}
				end := []string{"\x1b[201~", "\x1b[201~q", "\x1b[201~\x1b[B\x1b[200~y\x1b[201~", ""}[x.R.Intn(4)]
				lot([]string{"", "k", "\x1b[C"}[x.R.Intn(3)]+"\x1b[200~", u, rep, end, cut)
			}
		}
	}
	for _, u := range []string{"x", "日本", "é!", "\U0001F600"} { // text that was typed, or pasted into a terminal without brackets
		lot("\x1b[A", u, x.Pick(30000, 400000)/len(u), "\t", 0)
	}
	for _, u := range []string{" ", "\x1b[A", "\r", "\x1b[<32;5;6M", "\x1b[<35;7;7M", "\x1b[M@!!", "\x1b[I", "\x1b[1;5A", "\x1bq", "\x7f"} {
		for _, rep := range []int{70, x.Pick(2000, 50000)} {
			lot("\t", u, rep, "\x1b[B", 0)
		}
	}
}
