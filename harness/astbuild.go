package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
)

// built is a program turned into readers of the code under test.
type built struct {
	p        *Prog
	root     tok.Reader
	rules    []*tok.Rule
	basket   *tok.Basket
	log      *tok.Log
	hook     func() // called by every mapped reader
	maps     []seg
	steps    int
	limit    int
	jb, je   map[int]tok.Reader
	forwards []*forward
	spied    []refSeg    // successes seen by the spies inside of Map
	visits   []*spyEntry // reads seen by the spies inside of Monitor
	visiting int
}

type spyEntry struct {
	info        string
	enter, exit int
	level       int
	err         error
	open        bool
}

// spy stands directly inside an observed reader and records what it did.
type spy struct {
	b    *built
	info string
	mon  bool
	r    tok.Reader
}

func (p *spy) Read(s *tok.Scanner) error {
	from := int(s.Mark())
	var e *spyEntry
	if p.mon {
		p.b.visiting++
		e = &spyEntry{info: p.info, enter: from, level: p.b.visiting, open: true}
		p.b.visits = append(p.b.visits, e)
	}
	err := p.r.Read(s)
	to := int(s.Mark())
	if p.mon {
		p.b.visiting--
		e.exit, e.err, e.open = to, err, false
	} else if err == nil {
		p.b.spied = append(p.b.spied, refSeg{p.info, from, to})
	}
	return err
}
func (p *spy) What() string { return p.r.What() }

type seg struct {
	Info string
	Tok  tok.Token
}

// mapped is the function of every Map.
func (b *built) mapped(info string, t tok.Token) {
	b.maps = append(b.maps, seg{info, t})
	if b.hook != nil {
		b.hook()
	}
}

type stepLimit struct{}

// probe counts the reads of a leaf.
type probe struct {
	b *built
	r tok.Reader
}

func (p *probe) Read(s *tok.Scanner) error {
	p.b.steps++
	if p.b.limit > 0 && p.b.steps > p.b.limit {
		panic(stepLimit{})
	}
	return p.r.Read(s)
}
func (p *probe) What() string { return p.r.What() }

type buildOpts struct {
	probes bool
	limit  int
	basket *tok.Basket
	spies  bool
	rules  int // bits: the rules are picked (1), mapped (2), monitored (4)
}

// progGrammar is the Grammar of a program.
type progGrammar struct{ b *built }

func (g progGrammar) Read(s *tok.Scanner) error { return g.b.root.Read(s) }
func (g progGrammar) What() string              { return "prog" }
func (g progGrammar) Grammar() []*tok.Rule      { return g.b.rules }

func buildProg(p *Prog, o buildOpts) *built {
	b := &built{p: p, jb: map[int]tok.Reader{}, je: map[int]tok.Reader{}, log: &tok.Log{}, limit: o.limit}
	b.basket = o.basket
	if b.basket == nil {
		b.basket = &tok.Basket{}
	}
	b.rules = make([]*tok.Rule, len(p.Rules))
	for i := range p.Rules {
		b.rules[i] = &tok.Rule{Name: p.name(i)}
	}
	// janus pairs first: an end may stand before its begin
	for changed := true; changed; {
		changed = false
		p.walk(func(n *Node) {
			if n.Op == "jbeg" && b.jb[n.N] == nil {
				// a forwarding part breaks the order problem
				fw := &forward{}
				b.jb[n.N], b.je[n.N] = tok.Janus(string(n.S), fw)
				fw.n = n.L[0]
				b.forwards = append(b.forwards, fw)
				changed = true
			}
		})
	}
	for i, n := range p.Rules {
		b.rules[i].Reader = b.reader(n, o)
	}
	b.root = b.reader(p.Root, o)
	for _, fw := range b.forwards {
		fw.r = b.reader(fw.n, o)
	}
	for i, r := range b.rules {
		if o.rules&2 != 0 {
			info := p.name(i)
			if o.spies {
				r.Reader = &spy{b: b, info: info, r: r.Reader}
			}
			r.Map(func(t tok.Token) { b.mapped(info, t) })
		}
		if o.rules&4 != 0 && o.spies {
			r.Reader = &spy{b: b, info: p.name(i), mon: true, r: r.Reader}
		}
	}
	if o.rules&4 != 0 {
		if p.count("monitor") > 0 {
			b.log.Monitor(b.rules...)
		} else {
			b.log = tok.MonitorGrammar(progGrammar{b})
		}
	}
	if o.rules&1 != 0 {
		b.basket.PickWith(b.rules...)
	}
	return b
}

// forward is a Reader that is filled in later.
type forward struct {
	n *Node
	r tok.Reader
}

func (f *forward) Read(s *tok.Scanner) error { return f.r.Read(s) }
func (f *forward) What() string              { return f.r.What() }

func (b *built) arg(n *Node, o buildOpts) interface{} {
	if n.Op == "bad" {
		return badKinds[n.N]
	}
	if n.Raw && n.Op == "rune" {
		return n.A
	}
	if n.Raw && n.Op == "lit" {
		return string(n.S)
	}
	return b.reader(n, o)
}

func (b *built) args(l []*Node, o buildOpts) []interface{} {
	res := make([]interface{}, len(l))
	for i, n := range l {
		res[i] = b.arg(n, o)
	}
	return res
}

// badReader builds an invalid reader from a bad value.
func badReader(v interface{}, how int) tok.Reader {
	switch how {
	case 0:
		return tok.Many(v)
	case 1:
		return tok.Opt(v)
	case 2:
		return tok.Zom(v)
	case 3:
		return tok.To(v)
	case 4:
		return tok.Past(v)
	case 5:
		return tok.Seq('a', v)
	case 6:
		return tok.Any(v, "b")
	case 7:
		return tok.SkipSeq(tok.WS(), "a", v)
	default:
		return tok.SkipWSSeq(v)
	}
}

func (b *built) leaf(n *Node) tok.Reader {
	runes := func(s Str) []rune { return []rune(string(s)) }
	switch n.Op {
	case "rune":
		return tok.Rune(n.A)
	case "lit":
		return tok.Lit(string(n.S))
	case "fold":
		return tok.Fold(string(n.S))
	case "anyfold":
		var l []string
		for _, s := range n.SL {
			l = append(l, string(s))
		}
		return tok.AnyFold(l...)
	case "anyrune":
		return tok.AnyRune(string(n.S))
	case "between":
		return tok.Between(n.A, n.B)
	case "betweenany", "badrange":
		return tok.BetweenAny(string(n.S))
	case "set", "badset":
		return tok.Set(string(n.S), string(n.S2))
	case "buildbetween", "badbuild":
		return tok.BuildBetweenAny(runes(n.S)...)
	case "digit":
		return tok.Digit()
	case "hexdigit":
		return tok.HexDigit()
	case "holey":
		return tok.Holey(n.A, n.B, string(n.S))
	case "match":
		return tok.Match(string(n.S), predicates[n.N].f)
	case "nl":
		return tok.NL()
	case "ws":
		return tok.WS()
	case "atend":
		return tok.AtEnd()
	case "int":
		return tok.Int(n.N, n.M)
	case "uint":
		return tok.Uint(n.N, n.M)
	case "bool":
		return tok.Bool(string(n.S))
	case "rulename":
		return tok.RuleName()
	case "wrap":
		return tok.Wrap(string(n.S), func(s *tok.Scanner) error {
			all := true
			for _, op := range n.Ops {
				if !op.apply(s).ok {
					all = false
				}
			}
			if n.N == 2 || (n.N == 0 && !all) {
				return s.ErrorFor(string(n.S))
			}
			return nil
		})
	case "bad":
		return badReader(badKinds[n.N], n.M)
	}
	return nil
}

func (b *built) reader(n *Node, o buildOpts) tok.Reader {
	if r := b.leaf(n); r != nil {
		if o.probes {
			return &probe{b, r}
		}
		return r
	}
	sub := func(i int) tok.Reader { return b.reader(n.L[i], o) }
	switch n.Op {
	case "seq":
		return tok.Seq(b.args(n.L, o)...)
	case "any":
		return tok.Any(b.args(n.L, o)...)
	case "opt":
		return tok.Opt(b.arg(n.L[0], o))
	case "zom":
		return tok.Zom(b.arg(n.L[0], o))
	case "many":
		return tok.Many(b.arg(n.L[0], o))
	case "times":
		return tok.Times(n.N, sub(0))
	case "skipseq":
		return tok.SkipSeq(sub(0), b.args(n.L[1:], o)...)
	case "skipws":
		return tok.SkipWSSeq(b.args(n.L, o)...)
	case "at":
		return tok.At(sub(0))
	case "not":
		return tok.Not(sub(0))
	case "to":
		return tok.To(b.arg(n.L[0], o))
	case "past":
		return tok.Past(b.arg(n.L[0], o))
	case "body":
		return tok.Body(sub(0), sub(1))
	case "bodytail":
		return tok.BodyTail(sub(0), sub(1))
	case "named":
		return tok.Named(string(n.S), sub(0))
	case "map":
		info := string(n.S)
		r := sub(0)
		if o.spies {
			r = &spy{b: b, info: info, r: r}
		}
		return tok.Map(r, func(t tok.Token) { b.mapped(info, t) })
	case "pick":
		return tok.Pick(sub(0), b.basket, string(n.S))
	case "monitor":
		r := sub(0)
		if o.spies {
			r = &spy{b: b, info: string(n.S), mon: true, r: r}
		}
		return tok.Monitor(r, b.log, string(n.S))
	case "rule":
		return b.rules[n.N]
	case "jbeg":
		return b.jb[n.N]
	case "jend":
		r := b.je[n.N]
		if r == nil {
			panic(harnessError{"janus end without begin"})
		}
		if o.probes {
			return &probe{b, r}
		}
		return r
	}
	panic(harnessError{"build " + n.Op})
}

// span gives the two positions of a token.
func span(t tok.Token) (int, int) {
	var a, b int
	if n, err := fmt.Sscanf(t.String(), "[%d-%d)", &a, &b); n != 2 || err != nil {
		panic(harnessError{"unreadable token " + t.String()})
	}
	return a, b
}

func showSegs(l []refSeg) string {
	var parts []string
	for _, s := range l {
		parts = append(parts, fmt.Sprintf("%s[%d-%d)", s.info, s.from, s.to))
	}
	return strings.Join(parts, " ")
}
