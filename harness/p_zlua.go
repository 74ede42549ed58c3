package main

import (
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// Token sequences that are programs or not, decided by an independent
// recursive-descent parser of the grammar in §9 of the Lua 5.4 manual.

type luaSeqCase struct {
	Toks  []luaTok
	Gap   Str
	Tight bool `json:",omitempty"` // no gap where none is needed
}

type luaRef struct {
	t  []luaTok
	i  int
	ok bool
}

func (p *luaRef) is(ss ...string) bool {
	if p.i >= len(p.t) || !(p.t[p.i].Kind == "" || p.t[p.i].Kind == "unop" || p.t[p.i].Kind == "binop") {
		return false
	}
	for _, s := range ss {
		if string(p.t[p.i].S) == s {
			return true
		}
	}
	return false
}

func (p *luaRef) kind(k string) bool { return p.i < len(p.t) && p.t[p.i].Kind == k }

func (p *luaRef) fail() { p.ok = false }

func (p *luaRef) accept(ss ...string) bool {
	if p.ok && p.is(ss...) {
		p.i++
		return true
	}
	return false
}

func (p *luaRef) expect(s string) {
	if !p.accept(s) {
		p.fail()
	}
}

func (p *luaRef) name() {
	if p.ok && p.kind("Name") {
		p.i++
	} else {
		p.fail()
	}
}

func (p *luaRef) block() {
	for p.ok {
		switch {
		case p.i >= len(p.t) || p.is("end", "else", "elseif", "until"):
			return
		case p.accept("return"):
			if p.i < len(p.t) && !p.is("end", "else", "elseif", "until", ";") {
				p.explist()
			}
			p.accept(";")
			return
		}
		p.stat()
	}
}

func (p *luaRef) stat() {
	switch {
	case p.accept(";"), p.accept("break"):
	case p.accept("::"):
		p.name()
		p.expect("::")
	case p.accept("goto"):
		p.name()
	case p.accept("do"):
		p.block()
		p.expect("end")
	case p.accept("while"):
		p.exp()
		p.expect("do")
		p.block()
		p.expect("end")
	case p.accept("repeat"):
		p.block()
		p.expect("until")
		p.exp()
	case p.accept("if"):
		p.exp()
		p.expect("then")
		p.block()
		for p.accept("elseif") {
			p.exp()
			p.expect("then")
			p.block()
		}
		if p.accept("else") {
			p.block()
		}
		p.expect("end")
	case p.accept("for"):
		p.name()
		if p.accept("=") {
			p.exp()
			p.expect(",")
			p.exp()
			if p.accept(",") {
				p.exp()
			}
		} else {
			for p.accept(",") {
				p.name()
			}
			p.expect("in")
			p.explist()
		}
		p.expect("do")
		p.block()
		p.expect("end")
	case p.accept("function"):
		p.name()
		for p.accept(".") {
			p.name()
		}
		if p.accept(":") {
			p.name()
		}
		p.body()
	case p.accept("local"):
		if p.accept("function") {
			p.name()
			p.body()
			return
		}
		for {
			p.name()
			if p.accept("<") {
				p.name()
				p.expect(">")
			}
			if !p.accept(",") {
				break
			}
		}
		if p.accept("=") {
			p.explist()
		}
	default:
		switch p.suffixed() {
		case 'c':
		case 'v':
			for p.accept(",") {
				if p.suffixed() != 'v' {
					p.fail()
				}
			}
			p.expect("=")
			p.explist()
		default:
			p.fail()
		}
	}
}

// suffixed reads a variable ('v'), a call ('c') or a parenthesized expression ('p').
func (p *luaRef) suffixed() byte {
	k := byte('v')
	if p.accept("(") {
		p.exp()
		p.expect(")")
		k = 'p'
	} else {
		p.name()
	}
	for p.ok {
		switch {
		case p.accept("."):
			p.name()
			k = 'v'
		case p.accept("["):
			p.exp()
			p.expect("]")
			k = 'v'
		case p.accept(":"):
			p.name()
			if !p.args() {
				p.fail()
			}
			k = 'c'
		case p.args():
			k = 'c'
		default:
			return k
		}
	}
	return k
}

func (p *luaRef) args() bool {
	switch {
	case p.kind("LiteralString"):
		p.i++
	case p.is("{"):
		p.table()
	case p.accept("("):
		if !p.is(")") {
			p.explist()
		}
		p.expect(")")
	default:
		return false
	}
	return true
}

func (p *luaRef) table() {
	p.expect("{")
	for p.ok && !p.is("}") {
		switch {
		case p.accept("["):
			p.exp()
			p.expect("]")
			p.expect("=")
			p.exp()
		case p.kind("Name") && p.i+1 < len(p.t) && p.t[p.i+1].S == "=" && p.t[p.i+1].Kind == "":
			p.i += 2
			p.exp()
		default:
			p.exp()
		}
		if !p.accept(",", ";") {
			break
		}
	}
	p.expect("}")
}

func (p *luaRef) body() {
	p.expect("(")
	if !p.is(")") {
		for {
			if p.accept("...") {
				break
			}
			p.name()
			if !p.accept(",") {
				break
			}
		}
	}
	p.expect(")")
	p.block()
	p.expect("end")
}

func (p *luaRef) explist() {
	p.exp()
	for p.accept(",") {
		p.exp()
	}
}

var luaBin = []string{"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<", "..", "<", "<=", ">", ">=", "==", "~=", "and", "or"}

func (p *luaRef) exp() {
	for p.ok {
		for p.accept("-", "not", "#", "~") {
		}
		switch {
		case p.accept("nil", "true", "false", "..."):
		case p.kind("Numeral"), p.kind("LiteralString"):
			p.i++
		case p.is("{"):
			p.table()
		case p.accept("function"):
			p.body()
		default:
			p.suffixed()
		}
		if !p.accept(luaBin...) {
			return
		}
	}
}

func luaIsProgram(t []luaTok) bool {
	p := &luaRef{t: t, ok: true}
	p.block()
	return p.ok && p.i == len(t)
}

var luaKeys = strings.Fields("and break do else elseif end false for function goto if in local nil not or repeat return then true until while")

var luaVocab = func() []luaTok {
	var v []luaTok
	for _, s := range append(luaKeys, strings.Fields("+ - * / // ^ % & ~ | >> << .. < <= > >= == ~= = ( ) ( ) { } { } [ ] :: ; : , , . ... # ; . = = end end return function local")...) {
		v = append(v, luaTok{S: Str(s)})
	}
	for i := 0; i < 8; i++ {
		v = append(v, luaTok{S: "x", Kind: "Name"})
	}
	// names that begin with a keyword
	for _, s := range luaKeys {
		for _, x := range []string{"x", "_", "0"} {
			v = append(v, luaTok{Str(s + x), "Name"})
		}
	}
	for i := 0; i < 8; i++ {
		v = append(v, luaTok{"x", "Name"}, luaTok{Str([]string{";", "=", "(", ")", ",", "end", "..", "["}[i]), ""})
	}
	v = append(v, luaTok{"1", "Numeral"}, luaTok{".5", "Numeral"}, luaTok{"0x1p4", "Numeral"}, luaTok{"'s'", "LiteralString"}, luaTok{"[[s]]", "LiteralString"}, luaTok{"\"\"", "LiteralString"}, luaTok{"endx", "Name"}, luaTok{"_", "Name"})
	return v
}()

var keywordOf = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range luaKeys {
		m[s] = true
	}
	return m
}()

// aloneTok are tokens that no neighbour becomes part of.
var aloneTok = map[string]bool{"(": true, ")": true, "{": true, "}": true, "]": true, ";": true, ",": true}

func genLuaSeq(g *G) luaSeqCase {
	c := luaSeqCase{Gap: Str(pick(g, []string{" ", " ", "\n", "\t", " --x\n", " --[[]] "})), Tight: g.Chance(3)}
	if g.Chance(4) {
		for n := 1 + g.N(7); n > 0; n-- {
			c.Toks = append(c.Toks, pick(g, luaVocab))
		}
		return c
	}
	l := &luaGen{g: g, left: 10}
	l.block(g.N(3), 3)
	for len(l.toks) == 0 {
		l.stat(1)
	}
	t := l.toks
	if len(t) > 60 {
		t = t[:60]
	}
	for n := 1 + g.N(2)*g.N(2); n > 0; n-- {
		i := g.N(len(t))
		j := g.N(len(t))
		u := append([]luaTok{}, t[:i]...)
		k := g.N(16)
		if k > 13 { // what begins with a keyword again, or moved, before another keyword
			var kw []int
			for x, y := range t {
				if keywordOf[string(y.S)] && y.Kind == "" {
					kw = append(kw, x)
				}
			}
			if len(kw) < 2 {
				continue
			}
			a, b := g.N(len(kw)), g.N(len(kw))
			from, to, at := kw[a], len(t), kw[b]
			if e := a + 1 + g.N(3); e < len(kw) {
				to = kw[e] + g.N(2)
			}
			part := append([]luaTok{}, t[from:to]...)
			u = append(append(append([]luaTok{}, t[:at]...), part...), t[at:]...)
			if g.Chance(3) && at <= from {
				u = append(u[:from+len(part)], t[to:]...)
			}
			if t = u; len(t) > 80 {
				t = t[:80]
			}
			continue
		}
		if k > 11 { // a part in brackets
			e := i + 1 + g.N(4)
			if e > len(t) {
				e = len(t)
			}
			b := pick(g, [][2]Str{{"(", ")"}, {"(", ")"}, {"{", "}"}, {"[", "]"}, {"do", "end"}})
			u = append(append(append(u, luaTok{S: b[0]}), t[i:e]...), luaTok{S: b[1]})
			t = append(u, t[e:]...)
			continue
		}
		if k > 9 { // a part twice
			e := i + 1 + g.N(5)
			if e > len(t) {
				e = len(t)
			}
			t = append(append(append([]luaTok{}, t[:e]...), t[i:e]...), t[e:]...)
			continue
		}
		if k > 7 { // a keyword that goes on
			var kw []int
			for x, y := range t {
				if y.Kind != "Name" && y.Kind != "LiteralString" && y.Kind != "Numeral" && isWordByte(y.S[0]) {
					kw = append(kw, x)
				}
			}
			if len(kw) == 0 {
				continue
			}
			i = pick(g, kw)
			u := append([]luaTok{}, t[:i]...)
			s := t[i].S + Str(pick(g, []string{"x", "_", "0", "end"}))
			j := i + 1
			if j < len(t) && (t[j].Kind == "Name" || keywordOf[string(t[j].S)]) && g.Bool() { // together with the word behind it
				s = t[i].S + t[j].S
				j++
			}
			if keywordOf[string(s)] {
				continue
			}
			t = append(append(u, luaTok{s, "Name"}), t[j:]...)
			continue
		}
		switch k {
		case 0: // removed
			u = append(u, t[i+1:]...)
		case 1: // twice
			u = append(append(u, t[i]), t[i:]...)
		case 2: // swapped with the next
			if i+1 < len(t) {
				u = append(append(u, t[i+1], t[i]), t[i+2:]...)
			} else {
				u = append(u, t[i:]...)
			}
		case 3, 4: // another token
			u = append(append(u, pick(g, luaVocab)), t[i+1:]...)
		case 5: // one more token
			u = append(append(u, pick(g, luaVocab)), t[i:]...)
		case 6: // a token of the same program
			u = append(append(u, t[j]), t[i+g.N(2):]...)
		default: // a short part again at another place
			k := j + 1 + g.N(4)
			if k > len(t) {
				k = len(t)
			}
			u = append(append(u, t[j:k]...), t[i:]...)
		}
		if t = u; len(t) == 0 {
			break
		}
	}
	c.Toks = t
	return c
}

func runLuaSeq(c luaSeqCase, o *Obs) {
	var ss []string
	depth, max := 0, 0
	for _, t := range c.Toks {
		ss = append(ss, string(t.S))
		if t.Kind == "" {
			switch t.S {
			case "(", "{", "[", "function":
				depth++
			case ")", "}", "]", "end":
				depth--
			}
		}
		if depth > max {
			max = depth
		}
	}
	if max > 7 {
		o.Skip("too deep")
		return
	}
	text := strings.Join(ss, string(c.Gap))
	if c.Tight {
		text = ""
		for i, t := range ss {
			if i > 0 && !aloneTok[ss[i-1]] && !aloneTok[t] {
				text += string(c.Gap)
			}
			text += t
		}
	}
	want := luaIsProgram(c.Toks)
	o.Label(map[bool]string{true: "program", false: "no program"}[want])
	if len(c.Toks) > 3 {
		o.NonTrivial()
	}
	s := tok.NewScanner(text)
	err := s.Use(grammar.Lua())
	if got := err == nil && s.AtEnd(); got != want {
		o.Fail("Lua tokens %q: a program: %v, read to the end: %v (error %v, at %d of %d)", text, want, got, err, s.Mark(), len(text))
		return
	}
	s = tok.NewScanner(text)
	err = s.Use(&grammar.Lua().Script)
	if got := err == nil && s.AtEnd(); got != want {
		o.Fail("Lua tokens %q: a program: %v, read to the end by the script rule: %v (error %v, at %d of %d)", text, want, got, err, s.Mark(), len(text))
	}
}
