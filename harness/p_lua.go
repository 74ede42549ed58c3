package main

import (
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ------------------------------------------------------------------------ C27

var luaWords = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true, "function": true, "goto": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true, "then": true, "true": true, "until": true, "while": true}

func isWordByte(b byte) bool {
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

func isDigit(b byte) bool { return b >= '0' && b <= '9' }

func at(s string, i int) byte {
	if i < len(s) {
		return s[i]
	}
	return 0
}

func run(s string, i int, f func(byte) bool) int {
	for i < len(s) && f(s[i]) {
		i++
	}
	return i
}

func refLuaName(s string) int {
	if s == "" || isDigit(s[0]) || !isWordByte(s[0]) {
		return -1
	}
	i := run(s, 0, isWordByte)
	if luaWords[s[:i]] {
		return -1
	}
	return i
}

func refLuaExp(s string, i int, marks string) int {
	if i < len(s) && strings.IndexByte(marks, s[i]) >= 0 {
		j := i + 1
		if at(s, j) == '+' || at(s, j) == '-' {
			j++
		}
		if k := run(s, j, isDigit); k > j {
			return k
		}
	}
	return i
}

func refLuaMantissa(s string, i int, digit func(byte) bool) int {
	j := run(s, i, digit)
	if at(s, j) == '.' && j < len(s) {
		k := run(s, j+1, digit)
		if j > i || k > j+1 {
			return k
		}
	}
	if j == i {
		return -1
	}
	return j
}

func refLuaNumeral(s string) int {
	if len(s) > 1 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		if i := refLuaMantissa(s, 2, isHex); i >= 0 {
			return refLuaExp(s, i, "pP")
		}
	}
	if i := refLuaMantissa(s, 0, isDigit); i >= 0 {
		return refLuaExp(s, i, "eE")
	}
	return -1
}

// refLong reads a long bracket behind the first n bytes.
func refLong(s string) int {
	if at(s, 0) != '[' {
		return -1
	}
	i := run(s, 1, func(b byte) bool { return b == '=' })
	if at(s, i) != '[' {
		return -1
	}
	cl := "]" + s[1:i] + "]"
	if k := strings.Index(s[i+1:], cl); k >= 0 {
		return i + 1 + k + len(cl)
	}
	return -1
}

// refLuaString returns the end, or -1; unsure is set for spellings that the
// property does not speak about.
func refLuaString(s string) (end int, unsure bool) {
	if k := refLong(s); k >= 0 {
		return k, false
	}
	q := at(s, 0)
	if q != '"' && q != '\'' {
		return -1, false
	}
	i := 1
	for i < len(s) {
		c := s[i]
		switch {
		case c == q:
			return i + 1, unsure
		case c == '\n':
			return -1, unsure
		case c == '\r':
			return -1, unsure
		case c != '\\':
			_, w := utf8.DecodeRuneInString(s[i:])
			i += w
		default:
			e := at(s, i+1)
			if i+1 >= len(s) {
				return -1, unsure
			}
			switch {
			case strings.IndexByte("abfnrtv\"'\\", e) >= 0:
				i += 2
			case e == '\n':
				i += 2
				unsure = unsure || at(s, i) == '\r'
			case e == '\r' && at(s, i+2) == '\n':
				i += 3
			case e == '\r':
				return -1, true // Lua takes a lone carriage return as line break
			case e == 'z':
				i = run(s, i+2, func(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' })
				if at(s, i) == '\v' || at(s, i) == '\f' {
					unsure = true
				}
			case isDigit(e):
				k := run(s, i+1, isDigit)
				if k > i+4 {
					k = i + 4
				}
				v := 0
				for _, d := range s[i+1 : k] {
					v = v*10 + int(d-'0')
				}
				unsure = unsure || v > 255
				i = k
			case e == 'x':
				if !isHex(at(s, i+2)) || !isHex(at(s, i+3)) {
					return -1, unsure
				}
				i += 4
			case e == 'u':
				if at(s, i+2) != '{' {
					return -1, unsure
				}
				k := run(s, i+3, isHex)
				if k == i+3 || at(s, k) != '}' {
					return -1, unsure
				}
				if v, err := strconv.ParseUint(s[i+3:k], 16, 64); err != nil || v >= 1<<31 {
					unsure = true // beyond what Lua accepts
				}
				i = k + 1
			default:
				return -1, unsure
			}
		}
	}
	return -1, unsure
}

func refLuaComment(s string) (int, bool) {
	if !strings.HasPrefix(s, "--") {
		return -1, false
	}
	if k := refLong(s[2:]); k >= 0 {
		return 2 + k, false
	}
	unsure := false
	if at(s, 2) == '[' {
		i := run(s, 3, func(b byte) bool { return b == '=' })
		unsure = at(s, i) == '[' // a long comment that is not closed
	}
	i := strings.IndexByte(s, '\n')
	if i < 0 {
		i = len(s)
	}
	return i, unsure || strings.IndexByte(s[:i], '\r') >= 0
}

type lexCase struct {
	Pre, Text Str
	Kind      string
	Func      bool // use the function instead of the rule of the grammar
}

var luaEsc = []string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`, `\"`, `\'`, "\\\n", "\\\r\n", `\z  `, "\\z\n\t ", `\z`, `\0`, `\9`, `\65`, `\065`, `\255`, `\1a`, `\x41`, `\xfF`, `\u{41}`, `\u{10FFFF}`, `\u{0}`}
var luaBadEsc = []string{`\q`, `\x`, `\xg`, `\x4`, `\u`, `\u{`, `\u{}`, `\u{g}`, `\u41`, `\ `, `\ä`, `\X41`, `\c`, `\-`, `\u{41`}

func (g *G) luaEscape() string {
	hex := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			s += string("0123456789abcdefABCDEF"[g.N(22)])
		}
		return s
	}
	switch g.N(10) {
	case 0:
		return `\x` + hex(2)
	case 1: // up to 2^31
		s := hex(1 + g.N(7))
		if g.Chance(4) {
			s = string("01234567"[g.N(8)]) + hex(7)
		}
		if g.Chance(6) {
			s = strings.Repeat("0", g.N(12)) + s
		}
		return `\u{` + s + `}`
	case 2:
		return `\` + pick(g, []string{"", "0", "00"}) + strconv.Itoa(g.N(10))
	case 3:
		return `\` + strconv.Itoa(g.N(256))
	}
	return pick(g, luaEsc)
}

func (g *G) luaString() string {
	if g.Chance(3) {
		eq := strings.Repeat("=", g.sizeOrBig(g.N(4), 20, 1500))
		var b strings.Builder
		for n := g.sizeOrBig(g.Size(8), 40, 1500); n > 0; n-- {
			b.WriteString(oddOr(g, []string{"]", "]]", "]=]", "]==]", "[[", "[=[", "=", "\n", "a", "\\", "\"", "--", "ä", "]=", "\\]"}))
		}
		body := strings.ReplaceAll(b.String(), "]"+eq+"]", "x")
		if strings.HasSuffix(body, "]") || (strings.HasSuffix(body, "]"+eq)) {
			body += "x"
		}
		return "[" + eq + "[" + body + "]" + eq + "]"
	}
	q := pick(g, []string{"\"", "'"})
	var b strings.Builder
	b.WriteString(q)
	for n := g.sizeOrBig(g.Size(8), 40, 2000); n > 0; n-- {
		switch g.N(4) {
		case 0:
			b.WriteString(g.luaEscape())
		case 1:
			r := g.Rune()
			if r != '\n' && r != '\r' && r != '\\' && string(r) != q {
				b.WriteRune(r)
			}
		case 2:
			b.WriteString(pick(g, []string{"[[", "]]", "--", "end", "\t", "\x00", "\x1b", "ä", " "}))
		default:
			b.WriteString(pick(g, []string{"a", "1", "b", map[string]string{"\"": "'", "'": "\""}[q]}))
		}
	}
	b.WriteString(q)
	return b.String()
}

func (g *G) luaNumeral() string {
	digits := func(set string, min int) string {
		s := ""
		for n := min + g.sizeOrBig(g.Size(4), 60, 1500); n > 0; n-- {
			s += string(set[g.N(len(set))])
		}
		return s
	}
	set, exp, s := "0123456789", "eE", ""
	if g.Bool() {
		set, exp = "0123456789abcdefABCDEF", "pP"
		s = pick(g, []string{"0x", "0X"})
	}
	switch g.N(4) {
	case 0:
		s += digits(set, 1)
	case 1:
		s += digits(set, 1) + "." + digits(set, 0)
	case 2:
		s += "." + digits(set, 1)
	default:
		s += digits(set, 1) + "." + digits(set, 1)
	}
	if g.Chance(3) {
		s += string(exp[g.N(2)]) + pick(g, []string{"", "+", "-"}) + digits("0123456789", 1)
	}
	return s
}

const luaLetters = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (g *G) luaName() string {
	if g.Chance(5) {
		ks := []string{"and", "end", "do", "elseif", "in", "local", "not", "or", "function", "until", "break", "goto", "nil", "true", "false", "else", "if", "for", "then", "while", "repeat", "return"}
		k := pick(g, ks)
		switch g.N(4) {
		case 0:
			return k + pick(g, []string{"x", "_", "1", "s", "End"})
		case 1:
			return "_" + k
		case 2:
			return strings.ToUpper(k[:1]) + k[1:]
		default:
			return k[:1] + "_" + k[1:]
		}
	}
	if g.Bool() {
		return pick(g, []string{"a", "b", "x", "y", "_", "f", "t", "_1", "self", "n2", "A", "Z9_"})
	}
	s := string("abcXYZ_"[g.N(7)])
	if g.Bool() {
		s = string(luaLetters[g.N(53)])
	}
	for n := g.sizeOrBig(g.N(5), 60, 1500); n > 0; n-- {
		if g.Bool() {
			s += string(luaLetters[g.N(len(luaLetters))])
		} else {
			s += string("abcXYZ_019"[g.N(10)])
		}
	}
	if luaWords[s] {
		return "x"
	}
	return s
}

func (g *G) luaComment(atEnd bool) string {
	if g.Bool() {
		return "--" + pick(g, []string{"", " ", "-"}) + strings.TrimLeft(g.luaCommentText(), "[")
	}
	eq := strings.Repeat("=", g.sizeOrBig(g.N(3), 20, 1500))
	var b strings.Builder
	for n := g.sizeOrBig(g.Size(6), 40, 1500); n > 0; n-- {
		b.WriteString(oddOr(g, []string{"]", "]]", "]=]", "[[", "\n", "a", "end", "--", "ä", "]=", "\""}))
	}
	body := strings.ReplaceAll(b.String(), "]"+eq+"]", "x")
	if strings.HasSuffix(body, "]") || strings.HasSuffix(body, "]"+eq) {
		body += "x"
	}
	return "--[" + eq + "[" + body + "]" + eq + "]"
}

func (g *G) luaCommentText() string {
	s := ""
	for n := g.sizeOrBig(g.Size(5), 40, 1500); n > 0; n-- {
		s += pick(g, []string{"a", " ", "end", "\"", "'", "--", "]]", "[", "ä", "=", "]=]", "do", "\t", "(", "}"})
	}
	return s
}

var luaFollow = []string{"", " ", "\n", "\r\n", "x", "1", "\"", "'", "]", "]]", "]=]", "--", "..", ".", "=", "\\", "_", "e", "e5", "p1", "+", "-", "(", "end", "ä", "\xff", "[[", "[", "0", "\x00"}

func genLex(g *G) lexCase {
	c := lexCase{Kind: pick(g, []string{"string", "string", "numeral", "name", "comment"}), Func: g.Bool()}
	if g.Chance(3) {
		c.Pre = Str(pick(g, []string{" ", "x", "\"", "[[", "--", "ä", "]]"}))
	}
	var s string
	switch c.Kind {
	case "string":
		s = g.luaString()
		if g.Chance(4) && len(s) > 1 { // an invalid escape or a raw line break
			k := 1 + g.N(len(s)-1)
			for k < len(s) && !utf8.RuneStart(s[k]) {
				k++
			}
			s = s[:k] + pick(g, append([]string{"\n", "\r", "\\", "\\" + string(rune(g.N(128))), "\\" + string(rune(g.N(128))) + "41"}, luaBadEsc...)) + s[k:]
		} else if g.Chance(6) && len(s) > 1 { // a backslash and whatever may be special behind it
			k := 1 + g.N(len(s)-1)
			for k < len(s) && !utf8.RuneStart(s[k]) {
				k++
			}
			t := ""
			for n := 1 + g.N(5); n > 0; n-- {
				t += pick(g, []string{" ", "\n", "\t", "\r\n", "{", "}", "x", "u", "z", "0", "1", "2", "3", "9", "a", "f", "n", "\\", "u{", "u{7", "g", "+"})
			}
			s = s[:k] + "\\" + t + s[k:]
		}
		if g.Chance(5) { // not terminated
			s = s[:g.N(len(s))]
		}
	case "numeral":
		s = g.luaNumeral()
		if g.Chance(5) {
			s = pick(g, []string{"", ".", "0x", "x1", "0x.", "e5", ".e5", "0xp1", "-1", "0xg", "1e", "1e+", "1.e", "0x1p", "0x1p+", "0x1e+1"}) + pick(g, []string{"", s})
		}
	case "name":
		s = g.luaName()
		if g.Chance(3) {
			s = oddOr(g, []string{"and", "end", "do", "elseif", "else", "in", "local", "goto", "not", "or", "1a", "ä", "", "until", "if"})
		}
	case "comment":
		s = g.luaComment(true)
		if g.Chance(5) {
			s = g.mutate(s, []string{"-", "[", "]", "=", "\n", "a", " "}, 2)
		}
	}
	n := g.N(3)
	for i := 0; i < n; i++ {
		s += oddOr(g, luaFollow)
	}
	c.Text = Str(s)
	return c
}

func runLex(c lexCase, o *Obs) {
	s := string(c.Text)
	l := grammar.Lua()
	var want int
	unsure := false
	var r tok.Reader
	switch c.Kind {
	case "string":
		want, unsure = refLuaString(s)
		r = &l.LiteralString
		if c.Func {
			r = grammar.LuaString()
		}
	case "numeral":
		want = refLuaNumeral(s)
		r = &l.Numeral
		if c.Func {
			r = grammar.LuaNumeral()
		}
	case "name":
		want = refLuaName(s)
		r = &l.Name
	case "comment":
		want, unsure = refLuaComment(s)
		r = &l.Comment
		if c.Func {
			r = grammar.LuaComment()
		}
	}
	if unsure {
		o.Skip("not covered spelling")
		return
	}
	o.Label(c.Kind)
	o.LabelIf(want < 0, c.Kind+" refused")
	o.LabelIf(want >= 0 && want < len(s), c.Kind+" with continuation")
	if len(s) > 2 {
		o.NonTrivial()
	}
	sc := tok.NewScanner(string(c.Pre) + s)
	sc.ToMarker(tok.Marker(len(c.Pre)))
	got, err := sc.CaptureUse(r)
	if want < 0 {
		if err == nil {
			o.Fail("Lua %s at %q: read %q, there is none", c.Kind, s, got)
		}
		return
	}
	if err != nil || got != s[:want] {
		o.Fail("Lua %s at %q: read %q (error %v), want %q", c.Kind, s, got, err, s[:want])
	}
}

// ------------------------------------------------------------------------ C28

// luaProg is a program as a list of tokens; the gaps between them are drawn
// apart, so that shrinking can simplify them.
type luaTok struct {
	S    Str
	Kind string `json:",omitempty"` // name, numeral, string
}

type luaMark struct {
	Rule        string
	First, Last int // token indices
}

type luaCase struct {
	Toks    []luaTok
	Marks   []luaMark
	Gaps    []Str // before token i, and one behind the last token
	Comment [][]rng
	SheBang Str `json:",omitempty"`
	BangEnd Str `json:",omitempty"`
	Broken  int `json:",omitempty"` // 1 removed, 2 extra closer, 3 cut
	At      int `json:",omitempty"`
	Closer  Str `json:",omitempty"`
}

type luaGen struct {
	g     *G
	toks  []luaTok
	marks []luaMark
	left  int
}

func (l *luaGen) emit(ss ...string) {
	for _, s := range ss {
		l.toks = append(l.toks, luaTok{S: Str(s)})
	}
}

func (l *luaGen) name() { l.toks = append(l.toks, luaTok{Str(l.g.luaName()), "Name"}) }

func (l *luaGen) marked(rule string, f func()) {
	first := len(l.toks)
	f()
	l.marks = append(l.marks, luaMark{rule, first, len(l.toks) - 1})
}

func (l *luaGen) list(n int, f func()) {
	for i := 0; i < n; i++ {
		if i > 0 {
			l.emit(",")
		}
		f()
	}
}

func (l *luaGen) exp(d int) {
	g := l.g
	l.left--
	k := g.N(14)
	if d <= 0 || l.left <= 0 {
		k = g.N(7)
	}
	switch k {
	case 0:
		l.emit(pick(g, []string{"nil", "true", "false", "..."}))
	case 1, 2:
		l.toks = append(l.toks, luaTok{Str(g.luaNumeral()), "Numeral"})
	case 3:
		l.str()
	case 4, 5, 6:
		l.name()
	case 7:
		l.toks = append(l.toks, luaTok{Str(pick(g, []string{"-", "not", "#", "~"})), "unop"})
		l.exp(d - 1)
	case 8, 9:
		l.exp(d - 1)
		l.toks = append(l.toks, luaTok{Str(pick(g, []string{"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<", "..", "<", "<=", ">", ">=", "==", "~=", "and", "or"})), "binop"})
		l.exp(d - 1)
	case 10:
		l.table(d - 1)
	case 11:
		l.marked("funcdef", func() {
			l.emit("function")
			l.body(d - 1)
		})
	default:
		l.prefix(d, g.N(3))
	}
}

func (l *luaGen) str() { l.toks = append(l.toks, luaTok{Str(l.g.luaString()), "LiteralString"}) }

func (l *luaGen) table(d int) {
	g := l.g
	l.marked("tableconstructor", func() {
		l.emit("{")
		n := g.N(4)
		if g.Chance(80) {
			n, d = g.bigSize(70), 0
		}
		for i := 0; i < n; i++ {
			switch g.N(4) {
			case 0:
				l.emit("[")
				l.exp(d)
				l.emit("]", "=")
				l.exp(d)
			case 1:
				l.name()
				l.emit("=")
				l.exp(d)
			default:
				l.exp(d)
			}
			if i < n-1 || g.Chance(3) {
				l.emit(pick(g, []string{",", ";"}))
			}
		}
		l.emit("}")
	})
}

func (l *luaGen) body(d int) {
	g := l.g
	l.emit("(")
	switch g.N(4) {
	case 0:
		l.list(g.sizeOrBig(1+g.N(3), 60, 70), l.name)
	case 1:
		l.list(1+g.N(2), l.name)
		l.emit(",", "...")
	case 2:
		l.emit("...")
	}
	l.emit(")")
	l.block(d, 2)
	l.emit("end")
}

// prefix: a variable or an expression in parentheses with suffixes.
// what: 0 anything, 1 a variable, 2 a call.
func (l *luaGen) prefix(d int, what int) {
	g := l.g
	paren := d > 0 && g.Chance(5)
	if paren {
		l.emit("(")
		l.exp(d - 1)
		l.emit(")")
	} else {
		l.name()
	}
	call := func() {
		if g.Chance(4) {
			l.emit(":")
			l.name()
		}
		switch g.N(5) {
		case 0:
			l.str()
		case 1:
			l.table(d - 2)
		default:
			l.emit("(")
			l.list(g.N(3), func() { l.exp(d - 2) })
			l.emit(")")
		}
	}
	index := func() {
		if g.Bool() {
			l.emit(".")
			l.name()
		} else {
			l.emit("[")
			l.exp(d - 2)
			l.emit("]")
		}
	}
	n := g.N(3)
	if g.Chance(100) {
		n = g.bigSize(33)
		if d > 1 {
			d = 1
		}
	}
	for ; n > 0; n-- {
		if g.Chance(3) && d > 0 {
			call()
		} else {
			index()
		}
	}
	switch what {
	case 1:
		if paren || g.Chance(3) || len(l.toks) > 0 && l.needsIndex() {
			index()
		}
	case 2:
		call()
	}
}

// needsIndex: the prefix ends with a call.
func (l *luaGen) needsIndex() bool {
	t := l.toks[len(l.toks)-1]
	return t.S == ")" || t.S == "}" || t.Kind == "LiteralString"
}

func (l *luaGen) block(d, max int) {
	g := l.g
	if d < 0 {
		d = 0
	}
	n := g.N(max + 1)
	if g.Chance(150) {
		n = g.bigSize(40)
		if d > 1 {
			d = 1
		}
	}
	for ; n > 0; n-- {
		l.stat(d)
	}
	if g.Chance(5) {
		l.marked("retstat", func() {
			l.emit("return")
			l.list(g.N(3), func() { l.exp(d) })
			if g.Chance(3) {
				l.emit(";")
			}
		})
	}
}

func (l *luaGen) stat(d int) {
	g := l.g
	l.left--
	k := g.N(17)
	if d <= 0 || l.left <= 0 {
		k = pick(g, []int{0, 1, 2, 3, 4, 5, 6, 7})
	}
	stat := func(rule string, f func()) {
		l.marked("stat", func() {
			if rule == "" {
				f()
			} else {
				l.marked(rule, f)
			}
		})
	}
	// a statement that begins with a parenthesis would continue the last one
	guard := func() { stat("", func() { l.emit(";") }) }
	switch k {
	case 0:
		stat("", func() { l.emit(";") })
	case 1, 2:
		if len(l.toks) > 0 {
			guard()
		}
		stat("", func() {
			l.list(g.sizeOrBig(1+g.N(2), 100, 20), func() { l.prefix(d, 1) })
			l.emit("=")
			l.list(1+g.N(2), func() { l.exp(d) })
		})
	case 3:
		if len(l.toks) > 0 {
			guard()
		}
		stat("funccall", func() { l.prefix(d, 2) })
	case 4:
		stat("label", func() { l.emit("::"); l.name(); l.emit("::") })
	case 5:
		stat("break", func() { l.emit("break") })
	case 6:
		stat("goto", func() { l.emit("goto"); l.name() })
	case 7, 8:
		stat("localatt", func() {
			l.emit("local")
			l.list(1+g.N(3), func() {
				l.name()
				if g.Chance(4) {
					l.emit("<")
					l.name()
					l.emit(">")
				}
			})
			if g.Bool() {
				l.emit("=")
				l.list(1+g.N(2), func() { l.exp(d) })
			}
		})
	case 9:
		stat("do", func() { l.emit("do"); l.block(d-1, 3); l.emit("end") })
	case 10:
		stat("while", func() { l.emit("while"); l.exp(d - 1); l.emit("do"); l.block(d-1, 3); l.emit("end") })
	case 11:
		stat("repeat", func() { l.emit("repeat"); l.block(d-1, 3); l.emit("until"); l.exp(d - 1) })
	case 12:
		stat("ifelse", func() {
			l.emit("if")
			l.exp(d - 1)
			l.emit("then")
			l.block(d-1, 2)
			n := g.N(3)
			if g.Chance(60) {
				n, d = g.bigSize(33), 1
			}
			for ; n > 0; n-- {
				l.emit("elseif")
				l.exp(d - 1)
				l.emit("then")
				l.block(d-1, 2)
			}
			if g.Bool() {
				l.emit("else")
				l.block(d-1, 2)
			}
			l.emit("end")
		})
	case 13:
		stat("for", func() {
			l.emit("for")
			l.name()
			l.emit("=")
			l.list(2+g.N(2), func() { l.exp(d - 1) })
			l.emit("do")
			l.block(d-1, 2)
			l.emit("end")
		})
	case 14:
		stat("foreach", func() {
			l.emit("for")
			l.list(g.sizeOrBig(1+g.N(3), 60, 70), l.name)
			l.emit("in")
			l.list(1+g.N(2), func() { l.exp(d - 1) })
			l.emit("do")
			l.block(d-1, 2)
			l.emit("end")
		})
	case 15:
		stat("func", func() {
			l.emit("function")
			l.marked("funcname", func() {
				l.name()
				for n := g.sizeOrBig(g.N(3), 60, 70); n > 0; n-- {
					l.emit(".")
					l.name()
				}
				if g.Chance(3) {
					l.emit(":")
					l.name()
				}
			})
			l.body(d - 1)
		})
	default:
		stat("localfunc", func() {
			l.emit("local", "function")
			l.name()
			l.body(d - 1)
		})
	}
}

func needGap(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, y := a[len(a)-1], b[0]
	if isWordByte(x) && isWordByte(y) {
		return true
	}
	if (x == '.' || isWordByte(x)) && (y == '.' || isDigit(y)) || x == '.' && isWordByte(y) && len(a) > 1 {
		return true
	}
	const p = "-.[=<>~:/"
	return strings.IndexByte(p, x) >= 0 && strings.IndexByte(p, y) >= 0
}

// gap draws what stands between two tokens, with the comments in it.
func (g *G) luaGap(a, b string, style int) (string, []rng) {
	need := needGap(a, b)
	if style == 0 {
		if need {
			return " ", nil
		}
		return "", nil
	}
	if !need && g.Bool() {
		return "", nil
	}
	s := ""
	var cs []rng
	if strings.HasSuffix(a, "-") {
		s = " "
	}
	for n := 1 + g.N(2); n > 0; n-- {
		if style == 2 && g.Chance(3) {
			c := g.luaComment(false)
			cs = append(cs, rng{len(s), len(s) + len(c)})
			s += c
			if !strings.HasPrefix(c, "--[") || refLong(c[2:]) < 0 || b != "" && g.Chance(3) {
				if b != "" || g.Bool() || n > 1 {
					s += "\n"
				}
			}
		} else {
			s += pick(g, []string{" ", "\n", "\t", "\r\n", "  "})
		}
	}
	return s, cs
}

var luaClosers = map[string]bool{"end": true, ")": true, "]": true, "}": true}

func genLua(g *G) luaCase {
	l := &luaGen{g: g, left: 25}
	d := g.N(4)
	l.block(d, 4)
	c := luaCase{Toks: l.toks, Marks: l.marks}
	style := g.N(3)
	for i := 0; i <= len(c.Toks); i++ {
		a, b := "", ""
		if i > 0 {
			a = string(c.Toks[i-1].S)
		}
		if i < len(c.Toks) {
			b = string(c.Toks[i].S)
		}
		s, cs := g.luaGap(a, b, style)
		c.Gaps = append(c.Gaps, Str(s))
		c.Comment = append(c.Comment, cs)
	}
	if g.Chance(10) {
		c.SheBang = Str("#!" + pick(g, []string{"/usr/bin/lua", "", "lua -e 'end'", "/bin/lua --[[", "/usr/bin/env lua \t--", "ä" + g.Odd()}))
		if strings.ContainsAny(string(c.SheBang), "\r\n") {
			c.SheBang = "#!x"
		}
		c.BangEnd = Str(pick(g, []string{"\n", "\n", "\r\n", "\n\n"}))
	}
	return c
}

func genLuaBroken(g *G) luaCase {
	c := genLua(g)
	c.SheBang = ""
	var at []int
	for i, t := range c.Toks {
		if luaClosers[string(t.S)] && t.Kind == "" {
			at = append(at, i)
		}
	}
	switch {
	case len(at) > 0 && g.Bool():
		c.Broken, c.At = 1, pick(g, at)
	case len(at) > 0 && g.Bool():
		c.Broken, c.At = 3, pick(g, at)
	default:
		c.Broken, c.At, c.Closer = 2, g.N(len(c.Toks)+1), Str(pick(g, []string{"end", ")", "]", "}", "until x"}))
		if g.Chance(3) { // a character that Lua does not know outside of strings and comments
			c.Closer = Str(pick(g, []string{"$", "?", "!", "@", "`", "\\", "\x00", "\x7f", "ä", "世", "\xff", "\uFEFF", "\x1a", "\u00a0"}))
			if r := []rune(g.Odd())[0]; r > 0x7f && g.Bool() {
				c.Closer = Str(string(r))
			}
			if g.Bool() { // at the very begin or end of the text
				c.Broken = 4 + g.N(2)
			}
		}
	}
	return c
}

// render gives the text, the start of each token and the comments.
func (c *luaCase) render() (string, []int, []rng) {
	var b strings.Builder
	var starts []int
	var cs []rng
	if c.Broken == 4 {
		b.WriteString(string(c.Closer))
	}
	if c.SheBang != "" {
		b.WriteString(string(c.SheBang) + string(c.BangEnd))
	}
	for i, t := range append(c.Toks, luaTok{}) {
		at := b.Len()
		b.WriteString(string(c.Gaps[i]))
		if i < len(c.Comment) {
			for _, r := range c.Comment[i] {
				cs = append(cs, rng{at + r.A, at + r.B})
			}
		}
		if c.Broken == 2 && c.At == i {
			b.WriteString(" " + string(c.Closer) + " ")
			if i > 0 || len(cs) > 0 {
				// a line comment may swallow it; it has to stand on its own line
				if n := len(cs); n > 0 && cs[n-1].B == at+len(string(c.Gaps[i])) {
					return "", nil, nil
				}
			}
		}
		if c.Broken == 3 && c.At == i {
			break
		}
		starts = append(starts, b.Len())
		if c.Broken == 1 && c.At == i {
			b.WriteString(" ")
		} else {
			b.WriteString(string(t.S))
		}
	}
	if c.Broken == 5 {
		b.WriteString("\n" + string(c.Closer))
	}
	return b.String(), starts, cs
}

var luaExact = []string{"Name", "Numeral", "LiteralString", "Comment", "unop", "binop"}
var luaLoose = []string{"stat", "label", "break", "goto", "do", "while", "repeat", "ifelse", "for", "foreach", "func", "localfunc", "localatt", "funccall", "retstat", "funcname", "funcdef", "tableconstructor"}

func runLua(c luaCase, o *Obs) {
	text, starts, comments := c.render()
	s := tok.NewScanner(text)
	l := grammar.Lua()
	basket := s.NewBasket()
	exact := append([]string{"SheBang"}, luaExact...)
	for _, n := range append(append([]string{}, exact...), luaLoose...) {
		r := ruleByName(l, n)
		if r == nil {
			o.Fail("the Lua grammar has no rule %q", n)
			return
		}
		r.Pick(basket)
	}
	var err error
	switch {
	case c.SheBang != "":
		err = s.Use(&l.Script)
		o.Label("shebang")
	case (len(text)+len(c.Toks))%3 == 0:
		err = s.Use(&l.Script)
		o.Label("script rule, no shebang")
	default:
		err = s.Use(l)
	}
	if err != nil || !s.AtEnd() {
		o.Fail("Lua program %q is not read to the end: error %v, at %d of %d", text, err, s.Mark(), len(text))
		return
	}
	type want struct{ from, lo, hi int }
	wants := map[string][]want{}
	for i, t := range c.Toks {
		if t.Kind != "" {
			e := starts[i] + len(t.S)
			wants[t.Kind] = append(wants[t.Kind], want{starts[i], e, e})
		}
	}
	if c.SheBang != "" {
		wants["SheBang"] = []want{{0, len(c.SheBang), len(c.SheBang)}}
	}
	for _, r := range comments {
		wants["Comment"] = append(wants["Comment"], want{r.A, r.B, r.B})
	}
	for _, m := range c.Marks {
		lo := starts[m.Last] + len(c.Toks[m.Last].S)
		hi := len(text)
		if m.Last+1 < len(starts) {
			hi = starts[m.Last+1]
		}
		wants[m.Rule] = append(wants[m.Rule], want{starts[m.First], lo, hi})
		o.Label("rule:" + m.Rule)
	}
	if len(c.Toks) > 5 {
		o.NonTrivial()
	}
	gots := map[string][]refSeg{}
	for _, x := range asRefSegs(basket.Picked()) {
		gots[x.info] = append(gots[x.info], x)
	}
	for _, n := range append(append([]string{}, exact...), luaLoose...) {
		w, got := wants[n], gots[n]
		sort.SliceStable(w, func(i, j int) bool { return w[i].from < w[j].from || w[i].from == w[j].from && w[i].lo > w[j].lo })
		sort.SliceStable(got, func(i, j int) bool {
			return got[i].from < got[j].from || got[i].from == got[j].from && got[i].to > got[j].to
		})
		bad := len(w) != len(got)
		for i := 0; !bad && i < len(w); i++ {
			bad = got[i].from != w[i].from || got[i].to < w[i].lo || got[i].to > w[i].hi
		}
		if bad {
			o.Fail("Lua program %q: rule %s picked %s, want (start, end, next token) %v", text, n, showSegs(got), w)
			return
		}
	}
}

func runLuaBroken(c luaCase, o *Obs) {
	text, _, _ := c.render()
	if c.Broken == 2 && text == "" {
		o.Skip("closer inside a comment")
		return
	}
	if len(c.Toks) > 5 {
		o.NonTrivial()
	}
	o.Label([]string{"", "closer missing", "closer too much", "cut off", "unknown character at the begin", "unknown character at the end"}[c.Broken])
	s := tok.NewScanner(text)
	err := s.Use(grammar.Lua())
	if err == nil && s.AtEnd() {
		o.Fail("unbalanced Lua program %q is read to the end", text)
		return
	}
	s = tok.NewScanner(text)
	if err = s.Use(&grammar.Lua().Script); err == nil && s.AtEnd() {
		o.Fail("unbalanced Lua program %q is read to the end by the script rule", text)
	}
}

func runLuaDemo(c luaCase, o *Obs) {
	c.SheBang = ""
	text, _, _ := c.render()
	s := tok.NewScanner(text)
	l := grammar.Lua()
	b := s.NewBasketFor(l)
	if err := s.Use(l); err != nil {
		o.Fail("Lua program %q is not read: %v", text, err)
		return
	}
	want := tok.BuildGraph("p.lua", b.Picked()).FlameStack()
	if len(b.Picked()) > 3 {
		o.NonTrivial()
	}
	out, err := demo("full-lua-stack", "p.lua", text)
	if err != nil || out != want {
		o.Fail("full-lua-stack on %q: error %v, prints %q, want %q", text, err, out, want)
	}
}

func init() {
	register(&Prop{ID: "C27", Assume: []string{"spellings on which Lua and the grammar may differ (decimal escapes above 255, lone carriage returns, unclosed long comments) are not covered"}, Families: []Family{
		Fam("lexical", 60000, 2000000, "longer than two bytes", genLex, runLex),
	}})
	register(&Prop{ID: "C28", Assume: []string{"programs up to 25 nested parts and nesting depth 3, because reading nested parentheses takes exponential time"}, Families: []Family{
		Fam("programs", 10000, 300000, "more than five tokens", genLua, runLua),
		Fam("unbalanced", 6000, 150000, "more than five tokens", genLuaBroken, runLuaBroken),
		Fam("token sequences", 12000, 400000, "more than three tokens", genLuaSeq, runLuaSeq),
		Fam("full-lua-stack", 60, 1500, "more than three segments", genLua, runLuaDemo),
	}})
}
