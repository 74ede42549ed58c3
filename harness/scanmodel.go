package main

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/aiq/tok"
)

func simpleFold(r rune) rune { return unicode.SimpleFold(r) }

// foldEq: same orbit of Unicode simple case folding.
func foldEq(a, b rune) bool {
	if a == b {
		return true
	}
	for x := unicode.SimpleFold(a); x != a; x = unicode.SimpleFold(x) {
		if x == b {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- predicates

var predicates = []struct {
	name string
	f    func(rune) bool
}{
	{"upper", unicode.IsUpper},
	{"lower", unicode.IsLower},
	{"digit", unicode.IsDigit},
	{"space", unicode.IsSpace},
	{"letter", unicode.IsLetter},
	{"true", func(rune) bool { return true }},
	{"false", func(rune) bool { return false }},
	{"even", func(r rune) bool { return r%2 == 0 }},
	{"wide", func(r rune) bool { return r > 0x7f }},
	{"error", func(r rune) bool { return r == utf8.RuneError }},
	{"nota", func(r rune) bool { return r != 'a' }},
	{"notnl", func(r rune) bool { return r != '\n' }},
}

// --------------------------------------------------------------------- units

// unit is one rune of a text as Go decodes it.
type unit struct {
	r     rune
	at, w int // byte offset and width
}

func unitsFrom(s string, pos int) []unit {
	var u []unit
	for i := pos; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		u = append(u, unit{r, i, w})
		i += w
	}
	return u
}

// unitsBack lists the units before pos, the nearest first.
func unitsBack(s string, pos int) []unit {
	var u []unit
	for i := pos; i > 0; {
		r, w := utf8.DecodeLastRuneInString(s[:i])
		i -= w
		u = append(u, unit{r, i, w})
	}
	return u
}

// ----------------------------------------------------------------- operations

// Op is one call of a Scanner primitive.
type Op struct {
	Name string
	S    Str   `json:",omitempty"`
	L    []Str `json:",omitempty"`
	A    rune  `json:",omitempty"`
	B    rune  `json:",omitempty"`
	N    int   `json:",omitempty"`
	M    int   `json:",omitempty"`
	P    int   `json:",omitempty"` // predicate
}

func (o Op) strs() []string {
	res := make([]string, len(o.L))
	for i, s := range o.L {
		res[i] = string(s)
	}
	return res
}

// hit is a class of single runes an operation looks for.
func (o Op) hit(r rune) bool {
	switch {
	case strings.HasSuffix(o.Name, "AnyRune"):
		for _, x := range string(o.S) {
			if x == r {
				return true
			}
		}
		return false
	case strings.HasSuffix(o.Name, "Rune"):
		return r == o.A
	case strings.HasSuffix(o.Name, "Between"):
		return o.A <= r && r <= o.B
	case strings.HasSuffix(o.Name, "Match"):
		return predicates[o.P].f(r)
	}
	panic(harnessError{"hit " + o.Name})
}

var forwardOps = []string{
	"If", "IfAny", "To", "IfFold", "ToFold",
	"IfRune", "ToRune", "WhileRune",
	"IfAnyRune", "ToAnyRune", "WhileAnyRune",
	"IfBetween", "ToBetween", "WhileBetween",
	"IfMatch", "ToMatch", "WhileMatch",
}

var backwardOps = []string{
	"RevIf", "RevIfAny", "RevTo", "RevIfFold", "RevToFold",
	"RevIfRune", "RevToRune", "RevWhileRune",
	"RevIfAnyRune", "RevToAnyRune", "RevWhileAnyRune",
	"RevIfBetween", "RevToBetween", "RevWhileBetween",
	"RevIfMatch", "RevToMatch", "RevWhileMatch",
}

var stepOps = []string{"MoveRunes", "ScanString", "ReadRune", "RevReadRune"}
var jumpOps = []string{"Move", "ToMarker", "ToStart", "ToEnd"}
var readOps = []string{"ReadBool", "ReadInt", "ReadUint"}

type opResult struct {
	ok  bool
	str string
	r   rune
	val any
}

// apply calls the real primitive.
func (o Op) apply(s *tok.Scanner) opResult {
	str := string(o.S)
	var f tok.MatchFunc
	if o.P >= 0 && o.P < len(predicates) {
		f = predicates[o.P].f
	}
	b := func(ok bool) opResult { return opResult{ok: ok} }
	switch o.Name {
	case "If":
		return b(s.If(str))
	case "IfAny":
		return b(s.IfAny(o.strs()...))
	case "To":
		return b(s.To(str))
	case "IfFold":
		return b(s.IfFold(str))
	case "ToFold":
		return b(s.ToFold(str))
	case "IfRune":
		return b(s.IfRune(o.A))
	case "ToRune":
		return b(s.ToRune(o.A))
	case "WhileRune":
		return b(s.WhileRune(o.A))
	case "IfAnyRune":
		return b(s.IfAnyRune(str))
	case "ToAnyRune":
		return b(s.ToAnyRune(str))
	case "WhileAnyRune":
		return b(s.WhileAnyRune(str))
	case "IfBetween":
		return b(s.IfBetween(o.A, o.B))
	case "ToBetween":
		return b(s.ToBetween(o.A, o.B))
	case "WhileBetween":
		return b(s.WhileBetween(o.A, o.B))
	case "IfMatch":
		return b(s.IfMatch(f))
	case "ToMatch":
		return b(s.ToMatch(f))
	case "WhileMatch":
		return b(s.WhileMatch(f))
	case "RevIf":
		return b(s.RevIf(str))
	case "RevIfAny":
		return b(s.RevIfAny(o.strs()))
	case "RevTo":
		return b(s.RevTo(str))
	case "RevIfFold":
		return b(s.RevIfFold(str))
	case "RevToFold":
		return b(s.RevToFold(str))
	case "RevIfRune":
		return b(s.RevIfRune(o.A))
	case "RevToRune":
		return b(s.RevToRune(o.A))
	case "RevWhileRune":
		return b(s.RevWhileRune(o.A))
	case "RevIfAnyRune":
		return b(s.RevIfAnyRune(str))
	case "RevToAnyRune":
		return b(s.RevToAnyRune(str))
	case "RevWhileAnyRune":
		return b(s.RevWhileAnyRune(str))
	case "RevIfBetween":
		return b(s.RevIfBetween(o.A, o.B))
	case "RevToBetween":
		return b(s.RevToBetween(o.A, o.B))
	case "RevWhileBetween":
		return b(s.RevWhileBetween(o.A, o.B))
	case "RevIfMatch":
		return b(s.RevIfMatch(f))
	case "RevToMatch":
		return b(s.RevToMatch(f))
	case "RevWhileMatch":
		return b(s.RevWhileMatch(f))
	case "MoveRunes":
		return b(s.MoveRunes(o.N))
	case "Move":
		return b(s.Move(o.N))
	case "ToMarker":
		return b(s.ToMarker(tok.Marker(o.N)))
	case "ToStart":
		return b(s.ToStart())
	case "ToEnd":
		return b(s.ToEnd())
	case "ScanString":
		str, ok := s.ScanString(o.N)
		return opResult{ok: ok, str: str}
	case "ReadRune":
		r, err := s.ReadRune()
		return opResult{ok: err == nil, r: r}
	case "RevReadRune":
		r, err := s.RevReadRune()
		return opResult{ok: err == nil, r: r}
	case "ReadBool":
		v, err := s.ReadBool(str)
		return opResult{ok: err == nil, val: v}
	case "ReadInt":
		v, err := s.ReadInt(o.N, o.M)
		return opResult{ok: err == nil, val: v}
	case "ReadUint":
		v, err := s.ReadUint(o.N, o.M)
		return opResult{ok: err == nil, val: v}
	}
	panic(harnessError{"apply " + o.Name})
}

func foldPrefixLen(text, pat string) (int, bool) {
	n := 0
	for _, p := range pat {
		if n >= len(text) {
			return 0, false
		}
		r, w := utf8.DecodeRuneInString(text[n:])
		if !foldEq(r, p) {
			return 0, false
		}
		n += w
	}
	return n, true
}

func foldSuffixLen(text, pat string) (int, bool) {
	n := 0
	runes := []rune(pat)
	for i := len(runes) - 1; i >= 0; i-- {
		if n >= len(text) {
			return 0, false
		}
		r, w := utf8.DecodeLastRuneInString(text[:len(text)-n])
		if !foldEq(r, runes[i]) {
			return 0, false
		}
		n += w
	}
	return n, true
}

// expect is the reference meaning of the If/To/While primitives and of the
// steps by runes: whether the call succeeds and where the scanner is then.
func (o Op) expect(text string, pos int) (bool, int) {
	pat := string(o.S)
	at := func(p int, s string) bool { return p+len(s) <= len(text) && text[p:p+len(s)] == s }
	before := func(p int, s string) bool { return p >= len(s) && text[p-len(s):p] == s }
	switch o.Name {
	case "If":
		if at(pos, pat) {
			return true, pos + len(pat)
		}
		return false, pos
	case "IfAny":
		for _, s := range o.L {
			if at(pos, string(s)) {
				return true, pos + len(s)
			}
		}
		return false, pos
	case "To":
		for p := pos; p <= len(text); p++ {
			if at(p, pat) {
				return true, p
			}
		}
		return false, pos
	case "IfFold":
		if n, ok := foldPrefixLen(text[pos:], pat); ok {
			return true, pos + n
		}
		return false, pos
	case "ToFold":
		for _, u := range append(unitsFrom(text, pos), unit{at: len(text)}) {
			if _, ok := foldPrefixLen(text[u.at:], pat); ok {
				return true, u.at
			}
		}
		return false, pos
	case "IfRune", "IfAnyRune", "IfBetween", "IfMatch":
		if us := unitsFrom(text, pos); len(us) > 0 && o.hit(us[0].r) {
			return true, pos + us[0].w
		}
		return false, pos
	case "ToRune", "ToAnyRune", "ToBetween", "ToMatch":
		for _, u := range unitsFrom(text, pos) {
			if o.hit(u.r) {
				return true, u.at
			}
		}
		return false, pos
	case "WhileRune", "WhileAnyRune", "WhileBetween", "WhileMatch":
		p := pos
		for _, u := range unitsFrom(text, pos) {
			if !o.hit(u.r) {
				break
			}
			p = u.at + u.w
		}
		return p > pos, p
	case "RevIf":
		if before(pos, pat) {
			return true, pos - len(pat)
		}
		return false, pos
	case "RevIfAny":
		for _, s := range o.L {
			if before(pos, string(s)) {
				return true, pos - len(s)
			}
		}
		return false, pos
	case "RevTo":
		for p := pos; p >= 0; p-- {
			if before(p, pat) {
				return true, p
			}
		}
		return false, pos
	case "RevIfFold":
		if n, ok := foldSuffixLen(text[:pos], pat); ok {
			return true, pos - n
		}
		return false, pos
	case "RevToFold":
		if _, ok := foldSuffixLen(text[:pos], pat); ok {
			return true, pos
		}
		for _, u := range unitsBack(text, pos) {
			if _, ok := foldSuffixLen(text[:u.at], pat); ok {
				return true, u.at
			}
		}
		return false, pos
	case "RevIfRune", "RevIfAnyRune", "RevIfBetween", "RevIfMatch":
		if us := unitsBack(text, pos); len(us) > 0 && o.hit(us[0].r) {
			return true, us[0].at
		}
		return false, pos
	case "RevToRune", "RevToAnyRune", "RevToBetween", "RevToMatch":
		for _, u := range unitsBack(text, pos) {
			if o.hit(u.r) {
				return true, u.at + u.w
			}
		}
		return false, pos
	case "RevWhileRune", "RevWhileAnyRune", "RevWhileBetween", "RevWhileMatch":
		p := pos
		for _, u := range unitsBack(text, pos) {
			if !o.hit(u.r) {
				break
			}
			p = u.at
		}
		return p < pos, p
	case "MoveRunes":
		n := o.N
		if n == 0 {
			return true, pos
		}
		if n > 0 {
			us := unitsFrom(text, pos)
			if len(us) < n {
				return false, pos
			}
			return true, us[n-1].at + us[n-1].w
		}
		us := unitsBack(text, pos)
		if n < -len(us) {
			return false, pos
		}
		return true, us[-n-1].at
	case "ScanString":
		n := o.N
		us := unitsFrom(text, pos)
		if n < 0 || n > len(us) {
			return false, pos
		}
		if n == 0 {
			return true, pos
		}
		return true, us[n-1].at + us[n-1].w
	case "ReadRune":
		us := unitsFrom(text, pos)
		if len(us) == 0 || (us[0].r == utf8.RuneError && us[0].w == 1) {
			return false, pos
		}
		return true, pos + us[0].w
	case "RevReadRune":
		us := unitsBack(text, pos)
		if len(us) == 0 || (us[0].r == utf8.RuneError && us[0].w == 1) {
			return false, pos
		}
		return true, us[0].at
	case "Move":
		np := pos + o.N
		if o.N > len(text) || o.N < -len(text) || np < 0 || np > len(text) {
			return false, pos
		}
		return true, np
	case "ToMarker":
		if o.N < 0 || o.N > len(text) {
			return false, pos
		}
		return true, o.N
	case "ToStart":
		return true, 0
	case "ToEnd":
		return true, len(text)
	}
	panic(harnessError{"expect " + o.Name})
}

// genOp draws an operation of the given name with arguments related to text.
func (g *G) Op(name string, text string, pos int) (o Op) {
	o.Name = name
	pat := func() string { return g.Pattern(text, pos) }
	back := func() string { // something that ends at or before pos
		if pos > 0 && !g.Chance(4) {
			end := pos
			if g.Bool() {
				end = g.N(pos + 1)
			}
			k := 1 + g.Size(6)
			if g.Chance(12) {
				k = 1 + g.N(80)
			}
			var rs []rune
			for _, u := range unitsBack(text, end) {
				if len(rs) == k || u.r == utf8.RuneError {
					break
				}
				rs = append([]rune{u.r}, rs...)
			}
			if len(rs) > 0 {
				if g.Chance(10) { // a near miss
					rs[g.N(len(rs))] = g.Rune()
				}
				return string(rs)
			}
		}
		return pat()
	}
	defer func() { // bytes that are not UTF-8 are not in a text that is
		if strings.HasSuffix(name, "Fold") && g.Chance(12) && utf8.ValidString(text[:pos]) && utf8.ValidString(text[pos:]) && !strings.ContainsRune(text, utf8.RuneError) {
			at := 0
			if us := unitsFrom(string(o.S), 0); len(us) > 0 {
				u := pick(g, us)
				at = u.at + g.N(2)*u.w
			}
			o.S = o.S[:at] + Str(pick(g, badBytes)) + o.S[at:]
			if g.Bool() {
				o.S = Str(pick(g, badBytes))
			}
		}
	}()
	switch name {
	case "If", "To":
		o.S = Str(pat())
	case "IfFold", "ToFold":
		o.S = Str(g.swapCase(pat()))
	case "RevIf":
		o.S = Str(back())
	case "RevTo":
		o.S = Str(back())
		if o.S == "" {
			o.S = "a"
		}
	case "RevIfFold":
		o.S = Str(g.swapCase(back()))
	case "RevToFold":
		o.S = Str(g.swapCase(back()))
		if o.S == "" {
			o.S = "A"
		}
	case "IfAny", "RevIfAny":
		n := g.Size(4)
		if g.Chance(12) {
			n = g.N(24)
		}
		for i := 0; i < n; i++ {
			if name == "IfAny" {
				o.L = append(o.L, Str(pat()))
			} else {
				o.L = append(o.L, Str(back()))
			}
		}
	case "IfRune", "ToRune", "WhileRune", "RevIfRune", "RevToRune", "RevWhileRune":
		o.A = g.RuneOf(text)
		if g.Bool() {
			us := unitsFrom(text, pos)
			if strings.HasPrefix(name, "Rev") {
				us = unitsBack(text, pos)
			}
			if len(us) > 0 {
				o.A = us[0].r
			}
		}
	case "IfAnyRune", "ToAnyRune", "WhileAnyRune", "RevIfAnyRune", "RevToAnyRune", "RevWhileAnyRune":
		n := g.Size(8)
		if g.Chance(10) {
			n = g.N(48)
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			r := g.RuneOf(text)
			if !utf8.ValidRune(r) {
				r = 'q'
			}
			b.WriteRune(r)
		}
		o.S = Str(b.String())
		if g.Chance(6) { // everything that occurs
			o.S = Str(strings.ToValidUTF8(text, "\uFFFD"))
			if len(o.S) > 2000 {
				o.S = o.S[:0]
			}
		}
	case "IfBetween", "ToBetween", "WhileBetween", "RevIfBetween", "RevToBetween", "RevWhileBetween":
		o.A = g.RuneOf(text)
		switch g.N(4) {
		case 0:
			o.B = o.A
		case 1:
			o.B = g.RuneOf(text)
		case 2:
			o.B = o.A + rune(g.N(40))
		case 3:
			o.A, o.B = 0, utf8.MaxRune
			if g.Bool() {
				o.A = '!'
			}
		}
	case "IfMatch", "ToMatch", "WhileMatch", "RevIfMatch", "RevToMatch", "RevWhileMatch":
		o.P = g.N(len(predicates))
	case "MoveRunes", "ScanString", "Move", "ToMarker":
		cnt := utf8.RuneCountInString(text)
		switch g.N(8) {
		case 0:
			o.N = g.DictInt(0)
		case 1:
			o.N = pick(g, []int{1 << 62, -1 << 62, 1<<63 - 1, -1 << 63, -1, 0, 1, len(text) + 1, len(text), cnt, -cnt, cnt + 1, -len(text) - 1})
		case 2:
			o.N = utf8.RuneCountInString(text[pos:])
		case 3:
			o.N = -utf8.RuneCountInString(text[:pos])
		case 4:
			o.N = g.Range(-3, 3)
		default:
			o.N = g.Range(-cnt-2, cnt+2)
			if name == "ToMarker" || (name == "ScanString" && g.Bool()) {
				o.N = g.Range(-2, len(text)+2)
			}
		}
	case "ReadBool":
		o.S = Str(pick(g, []string{"", "*", "l", "U", "Cc", "x", "L"}))
	case "ReadInt", "ReadUint":
		o.N = pick(g, []int{8, 10, 16, 8, 10, 16, 8, 10, 16, 0, 2, 36, -1, 7})
		o.M = pick(g, []int{8, 16, 32, 64, 8, 16, 32, 64, 8, 16, 32, 64, 0, 7, 128, -8})
	case "ReadRune", "RevReadRune", "ToStart", "ToEnd":
	default:
		panic(harnessError{"genOp " + name})
	}
	return o
}
