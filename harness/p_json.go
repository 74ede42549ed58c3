package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ------------------------------------------------- reference JSON prefix parser

// jsonRef parses one item at i and returns its end or -1. It follows RFC 8259;
// like encoding/json it accepts bytes that are not UTF-8 inside of strings.
type jsonRef string

func (s jsonRef) ws(i int) int {
	for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r') {
		i++
	}
	return i
}

func (s jsonRef) lit(i int, l string) int {
	if i >= 0 && strings.HasPrefix(string(s[i:]), l) {
		return i + len(l)
	}
	return -1
}

func (s jsonRef) digits(i int) int {
	j := i
	for j < len(s) && s[j] >= '0' && s[j] <= '9' {
		j++
	}
	if j == i {
		return -1
	}
	return j
}

func (s jsonRef) integer(i int) int {
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i < len(s) && s[i] == '0' {
		return i + 1
	}
	return s.digits(i)
}

func (s jsonRef) fraction(i int) int { // optional
	if i < len(s) && s[i] == '.' {
		if j := s.digits(i + 1); j >= 0 {
			return j
		}
	}
	return i
}

func (s jsonRef) exponent(i int) int { // optional
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		j := i + 1
		if j < len(s) && (s[j] == '+' || s[j] == '-') {
			j++
		}
		if j = s.digits(j); j >= 0 {
			return j
		}
	}
	return i
}

func (s jsonRef) number(i int) int {
	if i = s.integer(i); i < 0 {
		return -1
	}
	return s.exponent(s.fraction(i))
}

func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

func (s jsonRef) escape(i int) int {
	if i >= len(s) {
		return -1
	}
	if strings.IndexByte(`"\/bfnrt`, s[i]) >= 0 {
		return i + 1
	}
	if s[i] == 'u' && i+4 < len(s) && isHex(s[i+1]) && isHex(s[i+2]) && isHex(s[i+3]) && isHex(s[i+4]) {
		return i + 5
	}
	return -1
}

func (s jsonRef) character(i int) int {
	if i >= len(s) {
		return -1
	}
	if s[i] == '\\' {
		return s.escape(i + 1)
	}
	if s[i] < ' ' || s[i] == '"' {
		return -1
	}
	_, w := utf8.DecodeRuneInString(string(s[i:]))
	return i + w
}

func (s jsonRef) characters(i int) int {
	for {
		j := s.character(i)
		if j < 0 {
			return i
		}
		i = j
	}
}

func (s jsonRef) str(i int) int {
	if i = s.lit(i, `"`); i < 0 {
		return -1
	}
	return s.lit(s.characters(i), `"`)
}

func (s jsonRef) list(i int, item func(int) int) int {
	i = item(i)
	for i >= 0 && i < len(s) && s[i] == ',' {
		j := item(i + 1)
		if j < 0 {
			return i
		}
		i = j
	}
	return i
}

func (s jsonRef) member(i int) int {
	i = s.str(s.ws(i))
	if i < 0 {
		return -1
	}
	if i = s.lit(s.ws(i), ":"); i < 0 {
		return -1
	}
	return s.element(i)
}

func (s jsonRef) element(i int) int {
	if i = s.value(s.ws(i)); i < 0 {
		return -1
	}
	return s.ws(i)
}

func (s jsonRef) members(i int) int  { return s.list(i, s.member) }
func (s jsonRef) elements(i int) int { return s.list(i, s.element) }

func (s jsonRef) container(i int, open, cl string, items func(int) int) int {
	if i = s.lit(i, open); i < 0 {
		return -1
	}
	if j := items(i); j >= 0 {
		return s.lit(j, cl)
	}
	return s.lit(s.ws(i), cl)
}

func (s jsonRef) object(i int) int { return s.container(i, "{", "}", s.members) }
func (s jsonRef) array(i int) int  { return s.container(i, "[", "]", s.elements) }

func (s jsonRef) value(i int) int {
	if i >= len(s) {
		return -1
	}
	switch {
	case s[i] == '{':
		return s.object(i)
	case s[i] == '[':
		return s.array(i)
	case s[i] == '"':
		return s.str(i)
	case s[i] == '-' || s[i] >= '0' && s[i] <= '9':
		return s.number(i)
	case s[i] == 't':
		return s.lit(i, "true")
	case s[i] == 'f':
		return s.lit(i, "false")
	}
	return s.lit(i, "null")
}

func (s jsonRef) set(i int, set string) int {
	if i < len(s) && strings.IndexByte(set, s[i]) >= 0 {
		return i + 1
	}
	return -1
}

// ------------------------------------------------------------------- generator

// jsonItem is one key, value or container of a rendered document.
type jsonItem struct {
	Kind     string
	From, To int
}

type jsonGen struct {
	g     *G
	b     strings.Builder
	items []jsonItem
	left  int
	space int
}

func (j *jsonGen) ws() {
	switch j.space {
	case 0:
		return
	case 1:
		if j.g.Bool() {
			return
		}
	}
	for n := j.g.Size(3); n > 0; n-- {
		j.b.WriteString(pick(j.g, []string{" ", "\n", "\t", "\r", "\r\n", "  "}))
	}
}

func (j *jsonGen) str() {
	g := j.g
	j.b.WriteByte('"')
	n := g.Size(8)
	if j.left > 40 && g.Chance(6) {
		n = g.bigOrHuge(300, 5000)
	}
	for ; n > 0; n-- {
		switch g.N(6) {
		case 0:
			j.b.WriteString(`\` + string(`"\/bfnrt`[g.N(8)]))
		case 1:
			j.b.WriteString(`\u`)
			for k := 0; k < 4; k++ {
				j.b.WriteByte("0123456789abcdefABCDEF"[g.N(22)])
			}
		case 2:
			r := g.Rune()
			if r >= ' ' && r != '"' && r != '\\' {
				j.b.WriteRune(r)
			}
		case 3:
			j.b.WriteString(pick(g, []string{"{", "}", "[", "]", ",", ":", "true", "1", " ", "/", "'", "\x7f", "\u2028", "null", g.jsonOdd()}))
		case 4:
			if g.Chance(8) {
				j.b.WriteString(pick(g, badBytes))
			} else {
				j.b.WriteByte('x')
			}
		default:
			j.b.WriteString(pick(g, []string{"a", "b", "key", "ä", "世"}))
		}
	}
	j.b.WriteByte('"')
}

func (j *jsonGen) number() {
	g := j.g
	if g.Chance(3) {
		j.b.WriteByte('-')
	}
	digits := func() {
		n := 1 + g.Size(4)
		if g.Chance(40) {
			n = g.bigOrHuge(300, 5000)
		}
		for ; n > 0; n-- {
			j.b.WriteByte(byte('0' + g.N(10)))
		}
	}
	if g.Chance(3) {
		j.b.WriteByte('0')
	} else {
		j.b.WriteByte(byte('1' + g.N(9)))
		if g.Bool() {
			digits()
		}
	}
	if g.Chance(3) {
		j.b.WriteByte('.')
		digits()
	}
	if g.Chance(3) {
		j.b.WriteByte("eE"[g.N(2)])
		j.b.WriteString(pick(g, []string{"", "+", "-"}))
		digits()
	}
}

func (j *jsonGen) item(kind string, f func()) {
	from := j.b.Len()
	f()
	j.items = append(j.items, jsonItem{kind, from, j.b.Len()})
}

func (j *jsonGen) count() int {
	if j.left > 60 && j.g.Chance(5) {
		return j.g.bigOrHuge(130, 600)
	}
	return j.g.N(5)
}

func (j *jsonGen) value(depth int) {
	g := j.g
	j.left--
	k := g.N(9)
	if depth <= 0 || j.left <= 0 {
		k = 2 + g.N(5)
	}
	switch k {
	case 0, 7:
		j.item("object", func() {
			j.b.WriteByte('{')
			n := j.count()
			for i := 0; i < n; i++ {
				if i > 0 {
					j.b.WriteByte(',')
				}
				j.ws()
				j.item("key", j.str)
				j.ws()
				j.b.WriteByte(':')
				j.ws()
				j.value(depth - 1)
				j.ws()
			}
			if n == 0 {
				j.ws()
			}
			j.b.WriteByte('}')
		})
	case 1, 8:
		j.item("array", func() {
			j.b.WriteByte('[')
			n := j.count()
			for i := 0; i < n; i++ {
				if i > 0 {
					j.b.WriteByte(',')
				}
				j.ws()
				j.value(depth - 1)
				j.ws()
			}
			if n == 0 {
				j.ws()
			}
			j.b.WriteByte(']')
		})
	case 2:
		j.item("string", j.str)
	case 3, 4:
		j.item("number", j.number)
	case 5:
		j.item("bool", func() { j.b.WriteString(pick(g, []string{"true", "false"})) })
	default:
		j.item("null", func() { j.b.WriteString("null") })
	}
}

func genJSONDoc(g *G) (string, []jsonItem) {
	j := &jsonGen{g: g, left: 40, space: g.N(3)}
	j.ws()
	d := g.N(6)
	if g.Chance(60) {
		j.left, d = 400, g.N(40)
	}
	if d > 0 {
		for j.value(d); len(j.items) < 3 && g.Bool(); {
			j.b.Reset()
			j.items = nil
			j.ws()
			j.value(d)
		}
	} else {
		j.value(d)
	}
	j.ws()
	return j.b.String(), j.items
}

// jsonOdd is an odd rune that may stand in a JSON string as it is.
func (g *G) jsonOdd() string {
	s := g.Odd()
	if s < " " || s == "\"" || s == "\\" {
		return "x"
	}
	return s
}

var jsonBits = []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "0", "1", "-", "+", ".", "e", "E", "a", "u", "true", "false", "null", " ", "\n", "\t", "\x00", "\x1f", "\x7f", "/", "'", "\uFFFD", "\xff", "ä", "\f", "\v", "\u00a0", "\ufeff", "//", "NaN", "True", "nul", "01", "\"a\"", "\"\\u12\"", "\"\\x\"", "1.", ".5", "1e", "--", "\"a\":1", "{}", "[]"}

// mutate changes a document at a few places.
func (g *G) mutate(s string, bits []string, max int) string {
	for n := g.N(max + 1); n > 0; n-- {
		at := g.N(len(s) + 1)
		switch g.N(8) {
		case 6: // another ASCII character
			if at < len(s) {
				c := rune(g.N(128))
				if b := s[at]; g.Bool() {
					c = rune(b ^ 0x20)
					if g.Bool() {
						c = rune(b + 1)
					}
				}
				s = s[:at] + string(c&0x7f) + s[at+1:]
			}
		case 7: // an escape sequence
			if i := strings.IndexByte(s[at:], '\\'); i >= 0 {
				at += i + 1
				s = s[:at] + string(rune(g.N(128))) + s[min(at+1, len(s)):]
			} else {
				s = s[:at] + "\\" + string(rune(g.N(128))) + s[at:]
			}
		case 0:
			s = s[:at]
		case 1:
			if at < len(s) {
				s = s[:at] + s[at+1:]
			}
		case 2, 3:
			s = s[:at] + oddOr(g, bits) + s[at:]
		case 4:
			if at < len(s) {
				s = s[:at] + oddOr(g, bits) + s[at+1:]
			}
		case 5:
			k := min(len(s), at+1+g.N(5))
			s = s[:k] + s[at:k] + s[k:]
		}
	}
	return s
}

type docCase struct {
	Text Str
	Pos  int    `json:",omitempty"`
	Rule string `json:",omitempty"`
	Mode int    `json:",omitempty"`
}

func genJSONCase(g *G) docCase {
	var s string
	switch g.N(6) {
	case 0:
		for n := g.Size(12); n > 0; n-- {
			s += oddOr(g, jsonBits)
		}
	case 1:
		d := pick(g, []int{1, 3, 20, 100, 400})
		o, c := "[", "]"
		if g.Bool() {
			o, c = `{"a":`, "}"
		}
		inner := pick(g, []string{"", "1", `""`, "null", "[]", "x"})
		s = strings.Repeat(o, d) + inner + strings.Repeat(c, d+pick(g, []int{0, 0, 0, 1, -1}))
	default:
		s, _ = genJSONDoc(g)
		s = g.mutate(s, jsonBits, 3)
	}
	return docCase{Text: Str(s)}
}

func runJSON(c docCase, o *Obs) {
	text := string(c.Text)
	valid := jsonRef(text).element(0) == len(text)
	if json.Valid([]byte(text)) != valid {
		panic(harnessError{fmt.Sprintf("the reference and encoding/json disagree on %q", text)})
	}
	s := tok.NewScanner(text)
	err := s.Use(grammar.JSON())
	got := err == nil && s.AtEnd()
	o.LabelIf(valid, "valid")
	o.LabelIf(!valid, "invalid")
	o.LabelIf(!utf8.ValidString(text), "not UTF-8")
	if len(text) > 3 {
		o.NonTrivial()
	}
	if got != valid {
		o.Fail("%q: read completely is %v (error %v, ends at %d of %d), valid JSON is %v", text, got, err, s.Mark(), len(text), valid)
	}
}

var jsonRules = []string{"value", "object", "members", "member", "key", "array", "elements", "element", "string", "characters", "character", "escape", "hex", "number", "integer", "fraction", "exponent", "onenine", "digit", "digits", "sign", "bool", "null", "ws"}

func genJSONRule(g *G) docCase {
	c := genJSONCase(g)
	c.Rule = pick(g, jsonRules)
	// start where such an item may be
	text := string(c.Text)
	starts := map[string]string{"object": "{", "members": "\"", "member": "\"", "key": "\"", "array": "[", "string": "\"", "escape": "\"\\/bfnrtu", "hex": "abcdefABCDEF0123456789", "number": "-0123456789", "integer": "-0123456789", "fraction": ".", "exponent": "eE", "onenine": "0123456789", "digit": "0123456789", "digits": "0123456789", "sign": "+-0", "bool": "tf", "null": "n", "ws": " \n\r\t"}[c.Rule]
	c.Pos = g.N(len(text) + 1)
	if starts != "" && !g.Chance(5) {
		for k := 0; k <= len(text); k++ {
			p := (c.Pos + k) % (len(text) + 1)
			if p < len(text) && strings.IndexByte(starts, text[p]) >= 0 {
				c.Pos = p
				break
			}
		}
	}
	return c
}

func jsonRefRule(text string, rule string, pos int) int {
	s := jsonRef(text)
	switch rule {
	case "value":
		return s.value(pos)
	case "object":
		return s.object(pos)
	case "members":
		return s.members(pos)
	case "member":
		return s.member(pos)
	case "key", "string":
		return s.str(pos)
	case "array":
		return s.array(pos)
	case "elements":
		return s.elements(pos)
	case "element":
		return s.element(pos)
	case "characters":
		return s.characters(pos)
	case "character":
		return s.character(pos)
	case "escape":
		return s.escape(pos)
	case "hex":
		return s.set(pos, "0123456789abcdefABCDEF")
	case "number":
		return s.number(pos)
	case "integer":
		return s.integer(pos)
	case "fraction":
		return s.fraction(pos)
	case "exponent":
		return s.exponent(pos)
	case "onenine":
		return s.set(pos, "123456789")
	case "digit":
		return s.set(pos, "0123456789")
	case "digits":
		return s.digits(pos)
	case "sign":
		if k := s.set(pos, "+-"); k >= 0 {
			return k
		}
		return pos
	case "bool":
		return max(s.lit(pos, "true"), s.lit(pos, "false"))
	case "null":
		return s.lit(pos, "null")
	case "ws":
		return s.ws(pos)
	}
	panic(harnessError{"json rule " + rule})
}

func ruleByName(g tok.Grammar, name string) *tok.Rule {
	for _, r := range g.Grammar() {
		if r.Name == name {
			return r
		}
	}
	return nil
}

func runJSONRule(c docCase, o *Obs) {
	text := string(c.Text)
	want := jsonRefRule(text, c.Rule, c.Pos)
	r := ruleByName(grammar.JSON(), c.Rule)
	if r == nil {
		o.Fail("the JSON grammar has no rule %q", c.Rule)
		return
	}
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(c.Pos))
	err := s.Use(r)
	o.Label("rule:" + c.Rule)
	o.LabelIf(want >= 0, "item")
	if want > c.Pos {
		o.NonTrivial()
	}
	if (err == nil) != (want >= 0) || (want >= 0 && int(s.Mark()) != want) {
		o.Fail("rule %s at %d of %q: error %v, ends at %d; the item ends at %d (-1: none)", c.Rule, c.Pos, text, err, s.Mark(), want)
	}
}

// ------------------------------------------------------------------------ C25

type jsonPickCase struct {
	Text  Str
	Items []jsonItem
}

func genJSONPick(g *G) jsonPickCase {
	t, items := genJSONDoc(g)
	return jsonPickCase{Str(t), items}
}

func jsonBasket(text string) (*tok.Basket, *tok.Scanner, error) {
	s := tok.NewScanner(text)
	r := grammar.JSON()
	b := s.NewBasket()
	b.PickWith(&r.Key, &r.Object, &r.Array, &r.String, &r.Number, &r.Bool, &r.Null)
	err := s.Use(r)
	return b, s, err
}

func itemSegs(l []jsonItem) []refSeg {
	var res []refSeg
	for _, i := range l {
		res = append(res, refSeg{i.Kind, i.From, i.To})
	}
	return res
}

// stackLines is the flame stack of segments with distinct tokens.
func stackLines(name string, segs []refSeg) string {
	root := &treeNode{S: segm{Str(name), rng{segs[0].from, segs[0].to}}}
	for _, s := range segs {
		root.S.R = rng{min(root.S.R.A, s.from), max(root.S.R.B, s.to)}
	}
	var place func(t *treeNode, s segm)
	place = func(t *treeNode, s segm) {
		for _, c := range t.L {
			if c.S.R.covers(s.R) {
				place(c, s)
				return
			}
		}
		t.L = append(t.L, &treeNode{S: s})
	}
	// containers complete after their parts: insert from the outside in text order
	list := append([]refSeg{}, segs...)
	for i := 1; i < len(list); i++ {
		for j := i; j > 0 && (list[j].from < list[j-1].from || list[j].from == list[j-1].from && list[j].to > list[j-1].to); j-- {
			list[j], list[j-1] = list[j-1], list[j]
		}
	}
	for _, s := range list {
		place(root, segm{Str(s.info), rng{s.from, s.to}})
	}
	var b strings.Builder
	var walk func(t *treeNode, path string, i int)
	walk = func(t *treeNode, path string, i int) {
		path += strconv.Itoa(i) + "." + t.S.String()
		fmt.Fprintf(&b, "%s %d\n", path, t.S.R.B-t.S.R.A)
		for j, x := range t.L {
			walk(x, path+";", j+1)
		}
	}
	walk(root, "", 1)
	return b.String()
}

func runJSONPick(c jsonPickCase, o *Obs) {
	text := string(c.Text)
	b, s, err := jsonBasket(text)
	if err != nil || !s.AtEnd() {
		o.Fail("%q is not read: %v, ends at %d", text, err, s.Mark())
		return
	}
	if len(c.Items) > 3 {
		o.NonTrivial()
	}
	got, want := asRefSegs(b.Picked()), itemSegs(c.Items)
	if !equalSegs(got, want) {
		o.Fail("%q: picked %s, want %s", text, showSegs(got), showSegs(want))
		return
	}
	if g := tok.BuildGraph("doc", b.Picked()).FlameStack(); g != stackLines("doc", want) {
		o.Fail("%q: flame stack %q, want %q", text, g, stackLines("doc", want))
	}
}

// jsonParts lists the parts of a valid JSON text by the names of the McKeeman form, in the order of
// their ends.
func jsonParts(text string) []refSeg {
	var res []refSeg
	p := 0
	emit := func(name string, from int) { res = append(res, refSeg{name, from, p}) }
	ws := func() {
		for p < len(text) && strings.IndexByte(" \t\r\n", text[p]) >= 0 {
			p++
		}
	}
	digits := func() {
		for p < len(text) && text[p] >= '0' && text[p] <= '9' {
			p++
		}
	}
	str := func(name string) {
		from := p
		p++
		inner := p
		for text[p] != '"' {
			c := p
			if text[p] == '\\' {
				p++
				e := p
				if text[p] == 'u' {
					p += 5
				} else {
					p++
				}
				emit("escape", e)
			} else {
				_, w := utf8.DecodeRuneInString(text[p:])
				p += w
			}
			emit("character", c)
		}
		emit("characters", inner)
		p++
		emit(name, from)
	}
	var element func()
	value := func() {
		from := p
		switch c := text[p]; {
		case c == '{':
			p++
			in := p
			ws()
			if text[p] != '}' {
				p = in
				for {
					m := p
					ws()
					str("key")
					ws()
					p++ // colon
					element()
					emit("member", m)
					if text[p] != ',' {
						break
					}
					p++
				}
				emit("members", in)
			}
			p++
			emit("object", from)
		case c == '[':
			p++
			in := p
			ws()
			if text[p] != ']' {
				p = in
				for {
					element()
					if text[p] != ',' {
						break
					}
					p++
				}
				emit("elements", in)
			}
			p++
			emit("array", from)
		case c == '"':
			str("string")
		case c == 't':
			p += 4
			emit("bool", from)
		case c == 'f':
			p += 5
			emit("bool", from)
		case c == 'n':
			p += 4
			emit("null", from)
		default:
			if c == '-' {
				p++
			}
			digits()
			emit("integer", from)
			if p < len(text) && text[p] == '.' {
				f := p
				p++
				digits()
				emit("fraction", f)
			}
			if p < len(text) && (text[p] == 'e' || text[p] == 'E') {
				e := p
				p++
				if text[p] == '+' || text[p] == '-' {
					p++
				}
				digits()
				emit("exponent", e)
			}
			emit("number", from)
		}
		emit("value", from)
	}
	element = func() {
		from := p
		ws()
		value()
		ws()
		emit("element", from)
	}
	element()
	return res
}

type jsonPartsCase struct {
	Text Str
	Only []int // the rules that are picked, all if empty
}

var jsonPartNames = []string{"value", "object", "members", "member", "key", "array", "elements", "element", "string", "characters", "character", "escape",
	"number", "integer", "fraction", "exponent", "bool", "null"}

func genJSONParts(g *G) jsonPartsCase {
	t, _ := genJSONDoc(g)
	c := jsonPartsCase{Text: Str(t)}
	if g.Bool() {
		for i := 1 + g.N(4); i > 0; i-- {
			c.Only = append(c.Only, g.N(len(jsonPartNames)))
		}
	}
	return c
}

func runJSONParts(c jsonPartsCase, o *Obs) {
	text := string(c.Text)
	if !utf8.ValidString(text) {
		o.Skip("not UTF-8")
		return
	}
	on := map[string]bool{}
	for _, i := range c.Only {
		on[jsonPartNames[i%len(jsonPartNames)]] = true
	}
	if len(c.Only) == 0 {
		for _, n := range jsonPartNames {
			on[n] = true
		}
	}
	s := tok.NewScanner(text)
	r := grammar.JSON()
	b := s.NewBasket()
	for _, x := range r.Grammar() {
		if on[x.Name] {
			x.Pick(b)
		}
	}
	if err := s.Use(r); err != nil || !s.AtEnd() {
		o.Skip("not read") // picks and C24 report that
		return
	}
	var want []refSeg
	for _, x := range nonEmpty(jsonParts(text)) {
		if on[x.info] {
			want = append(want, x)
		}
	}
	got := nonEmpty(asRefSegs(b.Picked()))
	if len(want) > 5 {
		o.NonTrivial()
	}
	if !equalSegs(got, want) {
		o.Fail("%q: picked %s, want %s", text, showSegs(got), showSegs(want))
	}
}

var demoOnce sync.Once
var demoDir string
var demoErr error

// demo runs a demo program of /repo on a file with the given content.
func demo(name, file, content string) (string, error) {
	demoOnce.Do(func() {
		demoDir = os.Getenv("VERIF_DEMO")
		if demoDir == "" {
			demoDir, demoErr = os.MkdirTemp("", "verif-demo-")
			if demoErr != nil {
				return
			}
			for _, d := range []string{"json-stack", "full-lua-stack"} {
				cmd := exec.Command("go", "build", "-o", filepath.Join(demoDir, d), "./demo/"+d)
				cmd.Dir = "/repo"
				if out, err := cmd.CombinedOutput(); err != nil {
					demoErr = fmt.Errorf("%v: %s", err, out)
				}
			}
		}
	})
	if demoErr != nil {
		panic(harnessError{"demo: " + demoErr.Error()})
	}
	dir, err := os.MkdirTemp("", "verif-demo-in-")
	if err != nil {
		panic(harnessError{err.Error()})
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, file), []byte(content), 0o644); err != nil {
		panic(harnessError{err.Error()})
	}
	cmd := exec.Command(filepath.Join(demoDir, name), file)
	cmd.Dir = dir
	out, err := cmd.Output()
	return string(out), err
}

func runJSONDemo(c jsonPickCase, o *Obs) {
	text := string(c.Text)
	if len(c.Items) > 3 {
		o.NonTrivial()
	}
	out, err := demo("json-stack", "doc.json", text)
	if err != nil {
		o.Fail("json-stack on %q: %v", text, err)
		return
	}
	if want := stackLines("doc.json", itemSegs(c.Items)); out != want {
		o.Fail("json-stack on %q prints %q, want %q", text, out, want)
	}
}

func init() {
	register(&Prop{ID: "C24", Assume: []string{"the RFC 8259 prefix parser in p_json.go (agrees with encoding/json) defines valid JSON"}, Families: []Family{
		Fam("documents", 60000, 2500000, "longer than three bytes", genJSONCase, runJSON),
		Fam("rules", 60000, 2000000, "the item is not empty", genJSONRule, runJSONRule),
	}})
	register(&Prop{ID: "C25", Families: []Family{
		Fam("picks", 40000, 1500000, "more than three items", genJSONPick, runJSONPick),
		Fam("parts", 20000, 800000, "more than five parts", genJSONParts, runJSONParts),
		Fam("json-stack", 400, 8000, "more than three items", genJSONPick, runJSONDemo),
	}})
}
