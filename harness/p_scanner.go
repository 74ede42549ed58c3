package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// ------------------------------------------------------------------------ C01

type seqCase struct {
	Text    Str
	Rev     bool
	Tracked bool
	Ops     []Op
}

type lastTracker struct {
	n    int
	last tok.Marker
}

func (t *lastTracker) Update(m tok.Marker) { t.n++; t.last = m }

func allOps() []string {
	var all []string
	for _, l := range [][]string{forwardOps, backwardOps, stepOps, jumpOps, jumpOps, readOps} {
		all = append(all, l...)
	}
	return all
}

func genSeq(g *G) seqCase {
	c := seqCase{Text: Str(g.Text(40)), Rev: g.Bool(), Tracked: g.Bool()}
	all := allOps()
	pos := 0
	if c.Rev {
		pos = len(c.Text)
	}
	n := 1 + g.Size(30)
	if g.Chance(30) {
		n = g.bigSize(300)
	}
	text := string(c.Text)
	for i := 0; i < n; i++ {
		name := pick(g, all)
		if len(text) > 0 && g.Chance(5) { // away from the ends, where most searches arrive soon
			name = "ToMarker"
		}
		o := g.Op(name, text, pos)
		// the generator only follows the jumps, to keep arguments related
		switch o.Name {
		case "Move", "ToMarker", "ToStart", "ToEnd", "MoveRunes":
			_, pos = o.expect(text, pos)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runSeq(c seqCase, o *Obs) {
	text := string(c.Text)
	var s *tok.Scanner
	want := 0
	if c.Rev {
		s = tok.NewRevScanner(text)
		want = len(text)
	} else {
		s = tok.NewScanner(text)
	}
	if int(s.Mark()) != want {
		o.Fail("new scanner stands at %d, want %d", s.Mark(), want)
		return
	}
	tr := &lastTracker{last: s.Mark()}
	if c.Tracked {
		s.Tracker = tr
	}
	moved, failed := 0, 0
	for i, op := range c.Ops {
		before := int(s.Mark())
		res := op.apply(s)
		after := int(s.Mark())
		what := fmt.Sprintf("op %d %+v from %d to %d", i, op, before, after)
		if after < 0 || after > len(text) {
			o.Fail("%s: position outside the text of %d bytes", what, len(text))
			return
		}
		if s.Head() != text[:after] || s.Tail() != text[after:] {
			o.Fail("%s: Head()=%q Tail()=%q", what, s.Head(), s.Tail())
			return
		}
		if s.AtEnd() != (after == len(text)) || s.AtStart() != (after == 0) {
			o.Fail("%s: AtEnd()=%v AtStart()=%v of %d bytes", what, s.AtEnd(), s.AtStart(), len(text))
			return
		}
		lo, hi := min(before, after), max(before, after)
		if got := s.Since(tok.Marker(before)); got != text[lo:hi] {
			o.Fail("%s: Since gives %q, want %q", what, got, text[lo:hi])
			return
		}
		if got := s.Get(tok.MakeToken(tok.Marker(after), tok.Marker(before))); got != text[lo:hi] {
			o.Fail("%s: Get gives %q, want %q", what, got, text[lo:hi])
			return
		}
		if !res.ok && before != after {
			o.Fail("%s: failed but moved", what)
			return
		}
		if !res.ok {
			failed++
		}
		if before != after {
			moved++
		}
		switch op.Name {
		case "Move", "ToMarker", "ToStart", "ToEnd":
			ok, p := op.expect(text, before)
			if ok != res.ok || p != after {
				o.Fail("%s: reported %v, want %v at %d", what, res.ok, ok, p)
				return
			}
		}
		if c.Tracked && int(tr.last) != after {
			o.Fail("%s: tracker was last told %d", what, tr.last)
			return
		}
	}
	if moved > 0 && failed > 0 {
		o.NonTrivial()
	}
	o.LabelIf(c.Tracked, "tracked")
	o.LabelIf(!utf8.ValidString(text), "invalid-utf8")
	o.LabelIf(moved > 3, "moved>3")
}

// -------------------------------------------------------------------- C02, C03

type opCase struct {
	Text Str
	Pos  int
	Op   Op
}

func genOpCase(names []string) func(g *G) opCase {
	return func(g *G) opCase {
		text := g.Text(30)
		pos := g.Pos(text)
		return opCase{Str(text), pos, g.Op(pick(g, names), text, pos)}
	}
}

// genDense draws texts over a small alphabet with few arguments, so that runs,
// near misses and repeated matches are common.
func genDense(names []string) func(g *G) opCase {
	alpha := []string{"a", "b", "A", "ä", "Ä", "世", "k", "K", "\uFFFD", "\xff", "ab", "ba"}
	return func(g *G) opCase {
		k := 2 + g.N(4)
		sub := make([]string, k)
		for i := range sub {
			sub[i] = pick(g, alpha)
		}
		text := g.SmallText(sub, 24)
		pos := g.Pos(text)
		return opCase{Str(text), pos, g.Op(pick(g, names), text, pos)}
	}
}

func place(text string, pos int) *tok.Scanner {
	s := tok.NewScanner(text)
	if !s.Move(pos) || int(s.Mark()) != pos {
		return nil
	}
	return s
}

func runOpCase(c opCase, o *Obs) {
	text := string(c.Text)
	s := place(text, c.Pos)
	if s == nil {
		o.Fail("cannot place the scanner at %d of %d bytes", c.Pos, len(text))
		return
	}
	ok, pos := c.Op.expect(text, c.Pos)
	res := c.Op.apply(s)
	got := int(s.Mark())
	if c.Op.Name == "WhileAnyRune" && pos == len(text) && ok && got == c.Pos && res.ok && isKnown("KF-WHILEANYRUNE-END") {
		// the whole rest matches: pinned by the existing test TestWhileAnyRune
		o.Known("KF-WHILEANYRUNE-END")
		return
	}
	if res.ok != ok || got != pos {
		o.Fail("%s(%+v) at %d of %q: got %v at %d, want %v at %d", c.Op.Name, c.Op, c.Pos, text, res.ok, got, ok, pos)
		return
	}
	switch c.Op.Name {
	case "ScanString":
		if ok && res.str != text[c.Pos:pos] {
			o.Fail("ScanString(%d) at %d of %q gives %q", c.Op.N, c.Pos, text, res.str)
		}
	case "ReadRune", "RevReadRune":
		if ok {
			lo, hi := min(c.Pos, pos), max(c.Pos, pos)
			if string(res.r) != text[lo:hi] {
				o.Fail("%s at %d of %q gives %q", c.Op.Name, c.Pos, text, res.r)
			}
		}
	}
	if pos != c.Pos || (!ok && len(text) > 0) {
		o.NonTrivial()
	}
	if ok {
		o.Label(c.Op.Name + ":hit")
	} else {
		o.Label(c.Op.Name + ":miss")
	}
}

// While with an own function
type whileCase struct {
	Text Str
	Pos  int
	Ops  []Op
}

func genWhile(g *G) whileCase {
	text := g.SmallText([]string{"a", "b", "ab", "ä", " ", "\n"}, 20)
	c := whileCase{Text: Str(text), Pos: g.Pos(text)}
	n := 1 + g.N(3)
	for i := 0; i < n; i++ {
		name := pick(g, []string{"If", "IfRune", "IfAnyRune", "IfBetween", "IfMatch", "IfFold"})
		op := g.Op(name, text, c.Pos)
		if (name == "If" || name == "IfFold") && op.S == "" {
			op.S = "a"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runWhile(c whileCase, o *Obs) {
	text := string(c.Text)
	s := place(text, c.Pos)
	if s == nil {
		o.Fail("cannot place")
		return
	}
	// any of the operations
	calls := 0
	ok := s.While(func() bool {
		calls++
		if calls > 10*len(text)+100 {
			panic("While does not stop")
		}
		for _, op := range c.Ops {
			if op.apply(s).ok {
				return true
			}
		}
		return false
	})
	pos := c.Pos
	want := 0
loop:
	for {
		want++
		for _, op := range c.Ops {
			if hit, p := op.expect(text, pos); hit {
				pos = p
				continue loop
			}
		}
		break
	}
	if int(s.Mark()) != pos || ok != (pos > c.Pos) {
		o.Fail("While at %d of %q: got %v at %d, want %v at %d", c.Pos, text, ok, s.Mark(), pos > c.Pos, pos)
		return
	}
	if calls != want {
		o.Fail("While at %d of %q: %d calls, want %d", c.Pos, text, calls, want)
	}
	if pos > c.Pos {
		o.NonTrivial()
	}
}

// ------------------------------------------------------------------------ C04

type stepCase struct {
	Text Str
	Pos  int
	N    int
}

func runRoundTrip(c stepCase, o *Obs) {
	text := string(c.Text)
	s := place(text, c.Pos)
	if s == nil {
		o.Fail("cannot place")
		return
	}
	if !s.MoveRunes(c.N) {
		if int(s.Mark()) != c.Pos {
			o.Fail("failed MoveRunes moved")
		}
		return
	}
	mid := int(s.Mark())
	if !s.MoveRunes(-c.N) || int(s.Mark()) != c.Pos {
		o.Fail("MoveRunes(%d) and back on %q from %d over %d ends at %d", c.N, text, c.Pos, mid, s.Mark())
		return
	}
	if c.N > 0 {
		str, ok := s.ScanString(c.N)
		if !ok || str != text[c.Pos:mid] || int(s.Mark()) != mid {
			o.Fail("ScanString(%d) at %d of %q gives %q, %v at %d", c.N, c.Pos, text, str, ok, s.Mark())
			return
		}
	}
	if c.N != 0 {
		o.NonTrivial()
	}
	o.LabelIf(!utf8.ValidString(text), "invalid-utf8")
}

// reading rune by rune over the whole text, both ways
type walkCase struct{ Text Str }

func runWalk(c walkCase, o *Obs) {
	text := string(c.Text)
	us := unitsFrom(text, 0)
	s := tok.NewScanner(text)
	for i, u := range us {
		r, err := s.ReadRune()
		bad := u.r == utf8.RuneError && u.w == 1
		if bad {
			if err == nil || int(s.Mark()) != u.at {
				o.Fail("ReadRune of unit %d of %q: %q, %v at %d", i, text, r, err, s.Mark())
				return
			}
			if !s.MoveRunes(1) {
				o.Fail("MoveRunes(1) over unit %d of %q refused", i, text)
				return
			}
		} else if err != nil || r != u.r {
			o.Fail("ReadRune of unit %d of %q: %q, %v", i, text, r, err)
			return
		}
		if int(s.Mark()) != u.at+u.w {
			o.Fail("unit %d of %q: at %d, want %d", i, text, s.Mark(), u.at+u.w)
			return
		}
	}
	if !s.AtEnd() {
		o.Fail("not at the end of %q", text)
		return
	}
	if _, err := s.ReadRune(); err == nil || s.MoveRunes(1) {
		o.Fail("read beyond the end of %q", text)
		return
	}
	for i := len(us) - 1; i >= 0; i-- {
		u := us[i]
		r, err := s.RevReadRune()
		bad := u.r == utf8.RuneError && u.w == 1
		if bad {
			if err == nil || int(s.Mark()) != u.at+u.w {
				o.Fail("RevReadRune of unit %d of %q: %q, %v at %d", i, text, r, err, s.Mark())
				return
			}
			if !s.MoveRunes(-1) {
				o.Fail("MoveRunes(-1) over unit %d of %q refused", i, text)
				return
			}
		} else if err != nil || r != u.r {
			o.Fail("RevReadRune of unit %d of %q: %q, %v", i, text, r, err)
			return
		}
		if int(s.Mark()) != u.at {
			o.Fail("back over unit %d of %q: at %d, want %d", i, text, s.Mark(), u.at)
			return
		}
	}
	if _, err := s.RevReadRune(); err == nil || s.MoveRunes(-1) || !s.AtStart() {
		o.Fail("read before the start of %q", text)
		return
	}
	if len(us) > 1 {
		o.NonTrivial()
	}
	o.LabelIf(!utf8.ValidString(text), "invalid-utf8")
	o.LabelIf(strings.Contains(text, "\uFFFD"), "U+FFFD")
}

// ------------------------------------------------------------------------ C05

type lineCase struct {
	Text Str
	Pos  int
	Tab  int
}

func genLine(g *G) lineCase {
	text := g.SmallText([]string{"a", "bc", "\n", "\r\n", "\t", "\r", "ä", "世", " ", "\n\n", "\xff"}, 60)
	if g.Chance(6) {
		text = g.Text(40)
	}
	if g.Chance(20) && len(text) > 0 && len(text) < 40 { // many lines, long lines
		text = strings.Repeat(text, g.bigSize(300))
		if g.Bool() {
			text += "\n" + g.SmallText([]string{"a", "bc", "\n", "\r\n", "\t"}, 12)
		}
	}
	return lineCase{Str(text), g.N(len(text) + 1), pick(g, []int{1, 4, 8, 2, 3, 0, 16, 100, 1, 4, 8, 2, -1, 1000})}
}

func refLineCol(text string, pos, tab int) (int, int) {
	line, col := 1, 1
	for i := 0; i < pos; i++ {
		switch text[i] {
		case '\n':
			line, col = line+1, 1
		case '\t':
			col += tab
		default:
			col++
		}
	}
	return line, col
}

// hugeLine is a text of many equal pieces.
type hugeLine struct {
	Pre, Unit, Post Str
	N               int
	Tab             int
	Off             int
}

func genHugeLine(g *G) hugeLine {
	alpha := []string{"a", "bc", "\n", "\r\n", "\t", "\r", "ä", " "}
	c := hugeLine{Pre: Str(g.SmallText(alpha, 4)), Post: Str(g.SmallText(alpha, 6)), Tab: pick(g, []int{1, 4, 8, 2, 0, 100, 1000, 1 << 20})}
	c.Unit = Str(pick(g, []string{"\n", "a", "\t", "\r\n", "a\n", "\r", "ab\tc\n\n", "ä"}))
	c.N = pick(g, []int{255, 256, 257, 4095, 4097, 32767, 32769, 65535, 65536, 65537, 70000, 131073})
	c.Off = g.N(8)
	return c
}

func runHugeLine(c hugeLine, o *Obs) {
	text := string(c.Pre) + strings.Repeat(string(c.Unit), c.N) + string(c.Post)
	s := tok.NewScanner(text)
	p := max(0, len(text)-c.Off)
	s.ToMarker(tok.Marker(p))
	l, k := s.LineCol(c.Tab)
	rl, rc := refLineCol(text, p, c.Tab)
	if l != rl || k != rc {
		o.Fail("LineCol(%d) at %d of %q, %d times %q, %q: %d,%d, want %d,%d", c.Tab, p, string(c.Pre), c.N, string(c.Unit), string(c.Post), l, k, rl, rc)
	}
	if c.N > 60000 {
		o.NonTrivial()
	}
	o.LabelIf(rl > 65536, "more than 65536 lines")
	o.LabelIf(rc > 65536, "more than 65536 columns")
}

func runLine(c lineCase, o *Obs) {
	text := string(c.Text)
	s := tok.NewScanner(text)
	pl, pc := 0, 0
	step := 7 + len(text)/20
	for p := 0; p <= len(text); p++ {
		if p > 0 {
			s.Move(1)
		}
		if p != c.Pos && p != c.Pos-1 && p != len(text) && p%step != 3 {
			continue
		}
		l, k := s.LineCol(c.Tab)
		rl, rc := refLineCol(text, p, c.Tab)
		if l != rl || k != rc {
			o.Fail("LineCol(%d) at %d of %q: %d,%d, want %d,%d", c.Tab, p, text, l, k, rl, rc)
			return
		}
		if c.Tab > 0 && (l < pl || (l == pl && k < pc)) {
			o.Fail("LineCol(%d) goes back at %d of %q", c.Tab, p, text)
			return
		}
		pl, pc = l, k
		if p%2 == 0 { // asked again, with another width between
			s.LineCol(c.Tab + 1)
			if l, k := s.LineCol(c.Tab); l != rl || k != rc {
				o.Fail("LineCol(%d) asked again at %d of %q: %d,%d, want %d,%d", c.Tab, p, text, l, k, rl, rc)
				return
			}
		}
	}
	// the same scanner moves to and fro
	for i, p := range []int{c.Pos, len(text), c.Pos / 2, len(text), len(text), c.Pos / 3, c.Pos, 0, len(text) / 2, len(text) - len(text)/4, c.Pos} {
		s.ToMarker(tok.Marker(p))
		l, k := s.LineCol(c.Tab)
		if rl, rc := refLineCol(text, p, c.Tab); l != rl || k != rc {
			o.Fail("LineCol(%d) at %d of %q, jump %d: %d,%d, want %d,%d", c.Tab, p, text, i, l, k, rl, rc)
			return
		}
	}
	if strings.Contains(text[:c.Pos], "\n") {
		o.NonTrivial()
	}
	o.LabelIf(strings.Contains(text[:c.Pos], "\r\n"), "crlf")
	o.LabelIf(strings.Contains(text[:c.Pos], "\t"), "tab")
}

func init() {
	register(&Prop{ID: "C01", Families: []Family{
		Fam("sequence", 240000, 6000000, "sequences of 1-31 calls of any Scanner primitive (out-of-range arguments included) on texts with and without invalid UTF-8, forward or reverse scanner, with or without tracker; non-trivial: at least one call moved and one failed", genSeq, runSeq),
	}, Assume: []string{"MatchFuncs are pure and do not move the scanner"}})
	register(&Prop{ID: "C02", Families: []Family{
		Fam("forward", 800000, 20000000, "one forward primitive at a drawn position of a drawn text, arguments derived from the text, against a rune-list model; non-trivial: it moved, or failed on a non-empty text", genOpCase(forwardOps), runOpCase),
		Fam("dense", 600000, 15000000, "same on texts over 2-5 letters so that runs and near misses are common; non-trivial: it moved, or failed on a non-empty text", genDense(forwardOps), runOpCase),
		Fam("while", 100000, 2000000, "generic While over any of 1-3 If primitives; non-trivial: it moved", genWhile, runWhile),
	}, Assume: []string{"patterns of To and of the fold variants are valid UTF-8 without U+FFFD", "known finding KF-WHILEANYRUNE-END is excluded and counted"}})
	register(&Prop{ID: "C03", Families: []Family{
		Fam("backward", 800000, 20000000, "one backward primitive at a drawn position, arguments derived from the text before it, against a rune-list model; non-trivial: it moved, or failed on a non-empty text", genOpCase(backwardOps), runOpCase),
		Fam("dense", 600000, 15000000, "same on texts over 2-5 letters; non-trivial: it moved, or failed on a non-empty text", genDense(backwardOps), runOpCase),
	}, Assume: []string{"patterns of RevTo and of the fold variants are non-empty valid UTF-8 without U+FFFD"}})
	register(&Prop{ID: "C04", Families: []Family{
		Fam("step", 600000, 15000000, "one of MoveRunes, ScanString, ReadRune, RevReadRune at a drawn position against the rune list of the text; non-trivial: it moved, or failed on a non-empty text", genOpCase(stepOps), runOpCase),
		Fam("roundtrip", 300000, 6000000, "MoveRunes(n), MoveRunes(-n), ScanString(n); non-trivial: n != 0 and the move is possible", func(g *G) stepCase {
			text := g.Text(30)
			n := utf8.RuneCountInString(text)
			p := 0
			if us := unitsFrom(text, 0); len(us) > 0 { // on a rune boundary
				u := pick(g, us)
				p = u.at
				if g.Bool() {
					p += u.w
				}
			}
			return stepCase{Str(text), p, g.Range(-n, n)}
		}, runRoundTrip),
		Fam("walk", 100000, 2000000, "a whole text rune by rune forward and back; non-trivial: at least two runes", func(g *G) walkCase { return walkCase{Str(g.Text(40))} }, runWalk),
	}, Assume: []string{"U+FFFD written in the text is an ordinary rune"}})
	register(&Prop{ID: "C05", Families: []Family{
		Fam("linecol", 300000, 6000000, "texts of letters, tabs, CR, LF, CRLF and wide runes, several positions each, against a byte-wise counter; non-trivial: a line break before the position", genLine, runLine),
		Fam("huge", 600, 12000, "a text of up to 131073 equal pieces (a line break, a tab, a letter ...), against the byte-wise counter; non-trivial: more than 60000 pieces", genHugeLine, runHugeLine),
	}, Assume: []string{"columns are counted in bytes, as the implementation does"}})
}
