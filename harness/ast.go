package main

import (
	"encoding/json"
	"errors"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// Node is a reader expression as data.
type Node struct {
	Op  string
	S   Str     `json:",omitempty"`
	S2  Str     `json:",omitempty"`
	A   rune    `json:",omitempty"`
	B   rune    `json:",omitempty"`
	N   int     `json:",omitempty"`
	M   int     `json:",omitempty"`
	L   []*Node `json:",omitempty"`
	SL  []Str   `json:",omitempty"`
	Ops []Op    `json:",omitempty"`
	Raw bool    `json:",omitempty"` // hand the rune or string over instead of a Reader
}

// Prog is a set of rules and a root expression that may refer to them.
type Prog struct {
	Rules []*Node `json:",omitempty"`
	Root  *Node
	Names []Str `json:",omitempty"` // of the rules, if they are not rA, rB ...
	Bytes bool  `json:",omitempty"` // over byteAlpha
}

func ruleName(i int) string { return "r" + string(rune('A'+i)) }

func (p *Prog) name(i int) string {
	if i < len(p.Names) {
		return string(p.Names[i])
	}
	return ruleName(i)
}

func (n *Node) walk(f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	for _, c := range n.L {
		c.walk(f)
	}
}

func (p *Prog) walk(f func(*Node)) {
	for _, r := range p.Rules {
		r.walk(f)
	}
	p.Root.walk(f)
}

func (p *Prog) count(ops ...string) int {
	c := 0
	p.walk(func(n *Node) {
		for _, o := range ops {
			if n.Op == o {
				c++
			}
		}
	})
	return c
}

// consumes is true only if every success of n moves the scanner.
func (n *Node) consumes() bool {
	switch n.Op {
	case "rune", "between", "betweenany", "set", "buildbetween", "digit", "hexdigit", "holey", "match", "anyrune", "nl", "ws", "int", "uint", "bool", "many", "not", "rulename":
		return true
	case "lit", "fold":
		return n.S != ""
	case "anyfold":
		for _, s := range n.SL {
			if s == "" {
				return false
			}
		}
		return true
	case "seq", "skipws":
		for _, c := range n.L {
			if c.consumes() {
				return true
			}
		}
		return false
	case "skipseq":
		for _, c := range n.L[1:] {
			if c.consumes() {
				return true
			}
		}
		return false
	case "any":
		for _, c := range n.L {
			if !c.consumes() {
				return false
			}
		}
		return true
	case "times":
		return n.N > 0 && n.L[0].consumes()
	case "past", "named", "map", "pick", "monitor", "jbeg":
		return n.L[0].consumes()
	case "bodytail":
		return n.L[1].consumes()
	}
	return false
}

// ------------------------------------------------------------------ generator

// progOpts says what a program may contain.
type progOpts struct {
	observers int // weight of named/map/pick/monitor
	picks     bool
	maps      bool
	monitors  bool
	named     bool
	janus     bool
	rules     bool
	wraps     bool
	bad       bool // invalid arguments
	weird     bool // leaf readers beyond the small alphabet
	empties   bool // parts that succeed without moving are common
	maxNodes  int
}

type progGen struct {
	g      *G
	o      progOpts
	nodes  int
	janus  int
	nRules int
	names  int
	self   *Node
	bytes  bool
}

// The alphabet of programs about texts that are not, or not quite, UTF-8: parts
// of characters, the replacement character and what has no encoding.
var byteAlpha = []string{"a", "\xa4", "\xc3", "ä", "\xff", "\uFFFD", "\xef", "\xbf", "\xbd", "\xe4\xb8", "\x80", "世"}
var byteRunes = []rune{'a', 'ä', 0xFFFD, 0x80, 0xA4, -1, 0xD800, 0x110000, 0xC3, 0xFF, '世'}

func (p *Prog) alpha() []string {
	if p.Bytes {
		return byteAlpha
	}
	return smallAlpha
}

var smallAlpha = []string{"a", "b", "c", "ab", "ä", " "}

func (p *progGen) smallStr() Str {
	n := 1 + p.g.N(2)
	s := ""
	if p.bytes {
		for i := 0; i < n; i++ {
			s += pick(p.g, byteAlpha)
		}
		return Str(s)
	}
	for i := 0; i < n; i++ {
		s += pick(p.g, smallAlpha)
	}
	if p.g.Chance(12) {
		s = ""
	}
	if p.o.weird && p.g.Chance(8) {
		s = p.g.Text(6)
		if len(s) > 300 {
			s = s[:p.g.Range(1, 300)]
		}
	}
	return Str(s)
}

func (p *progGen) smallRune() rune {
	if p.bytes {
		return pick(p.g, byteRunes)
	}
	if p.o.weird && p.g.Chance(8) {
		return p.g.AnyRune()
	}
	return pick(p.g, []rune{'a', 'b', 'c', 'ä', ' ', '\n', '0', '-'})
}

var rangeStrings = []string{"a-z", "a-b", "a-a", "0-9", "a-zA-Z", "b-c0-9", "c-a", "", "ä-ü", "a-z0-9A-Z", "!-~", "---"}

func (p *progGen) leaf() *Node {
	g := p.g
	if p.o.bad && g.Chance(6) {
		return p.bad()
	}
	raw := g.Bool()
	k := g.weighted(8, 8, 2, 3, 4, 2, 2, 2, 2, 2, 2, 1, 1, 2, 2, 1, 1, 2)
	switch k {
	case 0:
		return &Node{Op: "rune", A: p.smallRune(), Raw: raw}
	case 1:
		return &Node{Op: "lit", S: p.smallStr(), Raw: raw}
	case 2:
		return &Node{Op: "fold", S: Str(g.swapCase(string(p.smallStr())))}
	case 3:
		return &Node{Op: "anyrune", S: p.smallStr() + p.smallStr()}
	case 4:
		a := p.smallRune()
		b := a + rune(g.N(3))
		if a == '\'' || b == '\'' {
			a, b = 'a', 'b'
		}
		return &Node{Op: "between", A: a, B: b}
	case 5:
		s := pick(g, rangeStrings)
		for g.Chance(4) && len(s) < 30 {
			a := pick(g, []rune{'a', 'b', 'd', '0', 'f', 'ä'})
			s += string(a) + "-" + string(a+pick(g, []rune{0, 1, 2, 5, 20}))
		}
		return &Node{Op: "betweenany", S: Str(s)}
	case 6:
		return &Node{Op: "set", S: Str(pick(g, rangeStrings)), S2: p.smallStr()}
	case 7:
		var b strings.Builder
		n := g.N(3)
		if g.Chance(3) { // many that overlap, touch and enclose each other
			n += g.N(6)
		}
		for i := 0; i < n; i++ {
			a := pick(g, []rune{'a', 'b', '0', 'ä', 'c', 'd', 'f'})
			b.WriteRune(a)
			b.WriteRune(a + pick(g, []rune{0, 1, 2, 3, 5, 9, 25}))
		}
		return &Node{Op: "buildbetween", S: Str(b.String())}
	case 8:
		return &Node{Op: pick(g, []string{"digit", "hexdigit"})}
	case 9:
		a, b := rune(' '), rune(utf8.MaxRune)
		if g.Bool() {
			a, b = 'a', 'd'
		}
		if g.Chance(4) { // one rune, or none
			b = a + pick(g, []rune{0, 1, -1, 2})
		}
		holes := p.smallStr()
		if g.Chance(3) { // at the bounds and right beside them
			holes += Str(pick(g, []rune{a, b, a - 1, b - 1}))
		}
		return &Node{Op: "holey", A: a, B: b, S: holes}
	case 10:
		return &Node{Op: "match", N: g.N(len(predicates)), S: "m"}
	case 11:
		return &Node{Op: "nl"}
	case 12:
		return &Node{Op: "ws"}
	case 13:
		return &Node{Op: "atend"}
	case 14:
		switch g.N(3) {
		case 0:
			return &Node{Op: "int", N: pick(g, []int{8, 10, 16, 7}), M: pick(g, []int{8, 16, 32, 64})}
		case 1:
			return &Node{Op: "uint", N: pick(g, []int{8, 10, 16}), M: pick(g, []int{8, 16, 32, 64, 5})}
		}
		return &Node{Op: "bool", S: Str(pick(g, []string{"", "*", "l", "U", "Cc", "", "*", "l", "U", "Cc", "", "*", "l", "U", "Cc", "x", "\u00a0", "ä\n", "\u3000l", "\"", "\U0001F600"}))}
	case 15:
		n := g.N(4)
		nd := &Node{Op: "anyfold"}
		for i := 0; i < n; i++ {
			nd.SL = append(nd.SL, Str(g.swapCase(string(p.smallStr()))))
		}
		return nd
	case 16:
		return &Node{Op: "rulename"}
	default:
		if p.o.wraps {
			return p.wrap()
		}
		return &Node{Op: "lit", S: "a"}
	}
}

// wrap is a user function: it moves by the operations and fails or not.
func (p *progGen) wrap() *Node {
	g := p.g
	nd := &Node{Op: "wrap", S: "w", N: g.N(3)} // N: 0 succeeds if all ops do, 1 always succeeds, 2 fails
	n := g.N(4)
	for i := 0; i < n; i++ {
		name := pick(g, []string{"If", "IfRune", "IfBetween", "MoveRunes", "IfAny", "To", "WhileRune"})
		op := Op{Name: name}
		switch name {
		case "If", "To":
			op.S = p.smallStr()
		case "IfAny":
			op.L = []Str{p.smallStr(), p.smallStr()}
		case "IfRune", "WhileRune":
			op.A = p.smallRune()
		case "IfBetween":
			op.A, op.B = 'a', 'c'
		case "MoveRunes":
			op.N = g.Range(1, 2)
		}
		nd.Ops = append(nd.Ops, op)
	}
	return nd
}

// badKinds are values that are neither rune, string nor Reader.
var badKinds = []any{nil, 5, byte('a'), 1.5, true, []string{"a"}, []rune("a"), int64('a'), struct{}{}, uint32('a'), &[]int{1}, func() {}, uint('a'), int16(7), complex(1, 1), map[string]int{}, error(nil), [1]rune{'a'},
	byte(0), byte(200), byte(255), 0, 'a' + 0.0i, uint64('a'), int8('a'), uint16('a'), -1, []byte("ab"), new(string), new(rune), ownStr("a"), ownRune('a'),
	func(*tok.Scanner) error { return nil }, tok.Rule{}, tok.MakeToken(0, 1), tok.Marker('a'), errors.New("a"), stringer{}, []tok.Reader{tok.Lit("a")}, []any{"a"}, []any{}, map[rune]bool{'a': true}, make(chan rune), tok.NewScanner("a"), uintptr(97), float32(97), [2]string{"a", "b"}, json.RawMessage("a"), tok.Segment{}}

type ownStr string
type ownRune rune
type stringer struct{}

func (stringer) String() string { return "a" }

func (p *progGen) name() Str {
	p.names++
	if p.g.Chance(12) {
		return Str(pick(p.g, []string{"", " ", "\t", "%d", "\"", ";", "n0", "a\x00", "a\nb", "\r", "\\", "'", "ſ", "\xff", "a:", strings.Repeat("n", 70)}))
	}
	return Str(pick(p.g, []string{"n", "name", "x-y", "ä"}) + string(rune('0'+p.names%10)))
}

// node draws an expression. guarded: something was consumed since the current
// rule was entered, so any rule may be referred to.
func (p *progGen) node(depth int, rule int, guarded bool) *Node {
	p.nodes++
	g := p.g
	if depth <= 0 || p.nodes > p.o.maxNodes {
		if p.o.rules && p.nRules > 0 && g.Chance(3) {
			if r := p.ref(rule, guarded); r != nil {
				return r
			}
		}
		return p.leaf()
	}
	sub := func() *Node { return p.node(depth-1, rule, guarded) }
	w := []int{
		6,             // leaf
		8,             // seq
		7,             // any
		4,             // opt
		4,             // zom
		4,             // many
		2,             // times
		2,             // skipseq
		1,             // skipws
		2,             // at
		2,             // not
		3,             // to
		3,             // past
		3,             // body
		3,             // bodytail
		p.o.observers, // observer
		0,             // rule
		0,             // janus begin
		0,             // janus end
		0,             // bad
	}
	if p.o.rules && p.nRules > 0 {
		w[16] = 5
	}
	if p.o.janus {
		w[17] = 3
		if p.janus > 0 {
			w[18] = 4
		}
	}
	if p.o.bad {
		w[19] = 5
	}
	list := func(max int, from bool) []*Node {
		n := 1 + g.N(max)
		if g.Chance(20) {
			n = 0
		}
		if g.Chance(30) {
			n += 6
		}
		var l []*Node
		gd := guarded
		for i := 0; i < n; i++ {
			c := p.node(depth-1, rule, gd)
			l = append(l, c)
			if from && c.consumes() {
				gd = true
			}
		}
		return l
	}
	switch g.weighted(w...) {
	case 0:
		return p.leaf()
	case 1:
		return &Node{Op: "seq", L: list(4, true)}
	case 2:
		if g.Chance(12) { // a list of words that begin alike
			return &Node{Op: "any", L: p.words()}
		}
		return &Node{Op: "any", L: list(4, false)}
	case 3:
		return &Node{Op: "opt", L: []*Node{sub()}}
	case 4:
		return &Node{Op: "zom", L: []*Node{sub()}}
	case 5:
		return &Node{Op: "many", L: []*Node{sub()}}
	case 6:
		return &Node{Op: "times", N: pick(g, []int{2, 1, 3, 0, 4, -1, 7}), L: []*Node{sub()}}
	case 7:
		return &Node{Op: "skipseq", L: append([]*Node{sub()}, list(3, true)...)}
	case 8:
		return &Node{Op: "skipws", L: list(3, true)}
	case 9:
		return &Node{Op: "at", L: []*Node{sub()}}
	case 10:
		return &Node{Op: "not", L: []*Node{sub()}}
	case 11:
		return &Node{Op: "to", L: []*Node{sub()}}
	case 12:
		return &Node{Op: "past", L: []*Node{sub()}}
	case 13:
		return &Node{Op: "body", L: []*Node{sub(), sub()}}
	case 14:
		return &Node{Op: "bodytail", L: []*Node{sub(), sub()}}
	case 15:
		var ops []string
		if p.o.named {
			ops = append(ops, "named")
		}
		if p.o.picks {
			ops = append(ops, "pick")
		}
		if p.o.maps {
			ops = append(ops, "map")
		}
		if p.o.monitors {
			ops = append(ops, "monitor")
		}
		if len(ops) == 0 {
			return p.leaf()
		}
		return &Node{Op: pick(g, ops), S: p.name(), L: []*Node{sub()}}
	case 16:
		if r := p.ref(rule, guarded); r != nil {
			return r
		}
		return p.leaf()
	case 17:
		k := p.janus
		p.janus++
		return &Node{Op: "jbeg", N: k, S: p.name(), L: []*Node{sub()}}
	case 18:
		return &Node{Op: "jend", N: g.N(p.janus)}
	default:
		return p.bad()
	}
}

// words are up to 24 literals, fold literals and runes over few letters.
func (p *progGen) words() []*Node {
	g := p.g
	var l []*Node
	for n := 1 + g.N(12) + g.N(12); n > 0; n-- {
		switch g.N(8) {
		case 0:
			l = append(l, &Node{Op: "rune", A: p.smallRune()})
		case 1:
			l = append(l, &Node{Op: "fold", S: Str(g.SmallText([]string{"a", "B"}, 4))})
		case 2:
			l = append(l, &Node{Op: "seq", L: []*Node{{Op: "lit", S: Str(g.SmallText([]string{"a", "b"}, 3))}, {Op: "lit", S: "x"}}})
		default:
			s := "a"
			if g.Chance(3) {
				s = "b"
			}
			l = append(l, &Node{Op: "lit", S: Str(s + g.SmallText([]string{"a", "b", "x"}, 4))})
		}
	}
	return l
}

// badRange is one of the list or any other malformed range string.
func (p *progGen) badRange(list []string) Str {
	g := p.g
	if g.Bool() {
		return Str(pick(g, list))
	}
	rs := []rune(g.SmallText([]string{"-", "-", "-", "a", "z", "0", "ä", "+"}, 9))
	ok := len(rs)%3 == 0
	for i := 1; i < len(rs); i += 3 {
		ok = ok && rs[i] == '-'
	}
	if ok {
		rs = append(rs, '-')
	}
	return Str(string(rs))
}

func (p *progGen) bad() *Node {
	g := p.g
	switch g.N(4) {
	case 0:
		return &Node{Op: "badrange", S: p.badRange([]string{"a", "ab", "a-", "abc", "a-zb", "a-za", "a+z", "az-", "-az", "a-zA", "ä-üx", "a–z", "a-zbcd", "ab-", "a-z-"})}
	case 1:
		return &Node{Op: "badset", S: p.badRange([]string{"a", "ab", "abc", "a-z0", "a_z", "0-9a"}), S2: p.smallStr()}
	case 2:
		return &Node{Op: "badbuild", S: Str(pick(g, []string{"a", "abc", "azAZ0"}))}
	default:
		return &Node{Op: "bad", N: g.N(len(badKinds)), M: g.N(9)}
	}
}

func (p *progGen) ref(rule int, guarded bool) *Node {
	lo := rule + 1
	if guarded {
		lo = 0
	}
	if lo >= p.nRules {
		return nil
	}
	return &Node{Op: "rule", N: p.g.Range(lo, p.nRules-1)}
}

func genProg(g *G, o progOpts) *Prog {
	p := genProgPlain(g, o)
	if len(p.Rules) > 0 && g.Chance(6) { // names that are alike or equal
		for range p.Rules {
			p.Names = append(p.Names, Str(pick(g, []string{"r", "r", "R", "r ", "rr", "ä", "1", "a:b", "a\nb", "%s", "\\", "\xff"})))
		}
	}
	return p
}

func genProgPlain(g *G, o progOpts) *Prog {
	if o.maxNodes == 0 {
		o.maxNodes = 40
	}
	p := &progGen{g: g, o: o}
	if o.rules && g.Bool() {
		p.nRules = 1 + g.N(3)
	}
	p.bytes = o.weird && g.Chance(12)
	pr := &Prog{Bytes: p.bytes}
	// janus ends may refer to begins of earlier rules; the root comes last but
	// is the entry, so build the rules first
	for i := 0; i < p.nRules; i++ {
		p.nodes = 0
		pr.Rules = append(pr.Rules, p.node(1+g.N(3), i, false))
	}
	p.nodes = 0
	if g.Bool() {
		if o.rules && g.Bool() {
			// a recursive rule: nested lists
			k := len(pr.Rules)
			self := &Node{Op: "rule", N: k}
			open, cl := pick(g, []rune{'(', '[', 'b'}), pick(g, []rune{')', ']', 'c'})
			inner := pick(g, []*Node{
				{Op: "zom", L: []*Node{self}},
				{Op: "opt", L: []*Node{{Op: "seq", L: []*Node{self, {Op: "zom", L: []*Node{{Op: "seq", L: []*Node{{Op: "rune", A: ','}, self}}}}}}}},
				{Op: "skipws", L: []*Node{{Op: "zom", L: []*Node{self}}}},
				{Op: "many", L: []*Node{self}},
			})
			alts := []*Node{
				p.obs(&Node{Op: "seq", L: []*Node{{Op: "rune", A: open, Raw: true}, p.obs(inner), {Op: "rune", A: cl, Raw: true}}}),
				p.obs(p.shape(g.N(2))),
			}
			if g.Bool() {
				alts = append([]*Node{p.obs(&Node{Op: "seq", L: []*Node{{Op: "rune", A: open}, p.obs(self), {Op: "lit", S: "!"}}})}, alts...)
			}
			pr.Rules = append(pr.Rules, &Node{Op: "any", L: alts})
			p.nRules = len(pr.Rules)
			p.self = self
		}
		pr.Root = p.obs(p.shape(1 + g.N(4)))
		return pr
	}
	pr.Root = p.node(1+g.N(4), -1, false)
	return pr
}

func (n *Node) clone() *Node {
	c := *n
	c.L = nil
	for _, x := range n.L {
		c.L = append(c.L, x.clone())
	}
	return &c
}

// obs wraps n into an observer now and then.
func (p *progGen) obs(n *Node) *Node {
	var ops []string
	if p.o.picks {
		ops = append(ops, "pick")
	}
	if p.o.maps {
		ops = append(ops, "map")
	}
	if p.o.monitors {
		ops = append(ops, "monitor")
	}
	if p.o.named {
		ops = append(ops, "named")
	}
	if len(ops) == 0 || p.o.observers == 0 || !p.g.Chance(max(2, 14/p.o.observers)) {
		return n
	}
	return &Node{Op: pick(p.g, ops), S: p.name(), L: []*Node{n}}
}

// related draws strings that start or end alike, the way keywords and operators do.
func (p *progGen) related() []Str {
	g := p.g
	base := pick(g, []string{"elseif", "abcabc", "aaaa", "<<=", "function", "ab", "äöü", "...", "goto_1", "aB", "a b c"})
	if g.Chance(3) {
		base = g.SmallText(smallAlpha, 12)
	}
	var l []Str
	for i := 2 + g.N(4); i > 0; i-- {
		s := base
		k := 0
		if us := unitsFrom(base, 0); len(us) > 0 {
			k = pick(g, us).at
		}
		switch g.N(8) {
		case 0, 1, 2:
			s = base[:k]
		case 3:
			s = base[k:]
		case 4:
			s = base + pick(g, smallAlpha)
		case 5:
			s = base[:k] + pick(g, smallAlpha) + base[k:]
		case 6:
			s = g.swapCase(base)
		}
		l = append(l, Str(s))
	}
	return l
}

// alts draws alternatives that start or end alike.
func (p *progGen) alts() *Node {
	g := p.g
	l := p.related()
	if g.Chance(4) {
		return &Node{Op: "anyfold", SL: l}
	}
	n := &Node{Op: "any"}
	fold := g.Chance(5)
	for _, s := range l {
		x := &Node{Op: "lit", S: s, Raw: g.Bool()}
		if fold && g.Bool() {
			x = &Node{Op: "fold", S: s}
		}
		if g.Chance(4) {
			x = &Node{Op: "seq", L: []*Node{x, p.leaf()}}
		}
		n.L = append(n.L, p.obs(x))
	}
	return n
}

// shape draws an expression whose alternatives share prefixes, so that readings
// that were started are given up late, the way grammars do it.
func (p *progGen) shape(depth int) *Node {
	g := p.g
	p.nodes++
	abc := []rune{'a', 'b', 'c', 'ä'}
	if p.bytes {
		abc = byteRunes
	}
	r := func() *Node { return &Node{Op: "rune", A: pick(g, abc), Raw: g.Bool()} }
	seq := func(l ...*Node) *Node { return &Node{Op: "seq", L: l} }
	one := func(op string, n *Node) *Node { return &Node{Op: op, L: []*Node{n}} }
	if depth <= 0 || p.nodes > 60 {
		if p.self != nil && g.Chance(3) {
			return p.obs(p.self)
		}
		if g.Chance(4) {
			return p.obs(p.leaf())
		}
		return p.obs(r())
	}
	sub := func() *Node { return p.obs(p.shape(depth - 1)) }
	switch g.N(16) {
	case 14, 15:
		n := p.alts()
		switch g.N(4) {
		case 0:
			return seq(n, sub())
		case 1:
			return one(pick(g, []string{"many", "zom"}), n)
		case 2:
			return seq(one("not", n), sub())
		}
		return n
	case 0, 1:
		x := sub()
		alts := []*Node{p.obs(seq(x, sub())), p.obs(seq(x.clone(), sub()))}
		if g.Bool() {
			alts = append(alts, p.obs(x.clone()))
		}
		return &Node{Op: "any", L: alts}
	case 2:
		x := sub()
		return seq(x, one("zom", p.obs(seq(r(), x.clone()))))
	case 3:
		x := sub()
		return seq(one("at", x), x.clone())
	case 4:
		x := sub()
		return seq(one("zom", p.obs(one("not", x))), one("opt", p.obs(x.clone())))
	case 5:
		return seq(sub(), p.obs(one("opt", p.obs(seq(sub(), sub())))))
	case 6:
		return seq(one("zom", p.obs(seq(sub(), sub()))), sub())
	case 7:
		return &Node{Op: "body", L: []*Node{one("zom", sub()), sub()}}
	case 8:
		return &Node{Op: "bodytail", L: []*Node{one(pick(g, []string{"zom", "many", "opt"}), sub()), sub()}}
	case 9:
		return seq(one(pick(g, []string{"to", "past"}), sub()), one("opt", sub()))
	case 10:
		return &Node{Op: "skipseq", L: []*Node{one("zom", p.obs(r())), sub(), sub()}}
	case 11:
		return one("many", p.obs(&Node{Op: "any", L: []*Node{p.obs(seq(sub(), sub())), sub()}}))
	case 12:
		n := &Node{Op: "times", N: 1 + g.N(3), L: []*Node{sub()}}
		return &Node{Op: "any", L: []*Node{n, sub()}}
	default:
		return seq(sub(), sub(), sub())
	}
}

// --------------------------------------------------------------------- sampler

type sampler struct {
	g      *G
	p      *Prog
	env    map[int]string
	budget int
}

// sample draws a text that the node probably reads.
func (s *sampler) sample(n *Node, b *strings.Builder) {
	g := s.g
	s.budget--
	if s.budget < 0 || b.Len() > 400 {
		return
	}
	filler := func() {
		k := g.Size(6)
		for i := 0; i < k; i++ {
			b.WriteString(pick(g, s.p.alpha()))
		}
	}
	switch n.Op {
	case "rune":
		if g.Chance(60) {
			b.WriteRune(g.twin(n.A))
			break
		}
		b.WriteRune(n.A)
	case "lit":
		b.WriteString(string(n.S))
	case "fold":
		b.WriteString(g.swapCase(string(n.S)))
	case "anyfold":
		if len(n.SL) > 0 {
			b.WriteString(g.swapCase(string(pick(g, n.SL))))
		}
	case "anyrune":
		rs := []rune(string(n.S))
		if len(rs) > 0 {
			r := pick(g, rs)
			if g.Chance(12) {
				r = g.twin(r)
			}
			b.WriteRune(r)
		}
	case "between":
		if g.Chance(12) {
			b.WriteRune(g.twin(n.A))
			break
		}
		b.WriteRune(n.A + rune(g.N(int(n.B-n.A)+2)))
	case "betweenany", "set":
		rs := []rune(string(n.S))
		if n.S2 != "" && g.Bool() {
			b.WriteRune(pick(g, []rune(string(n.S2))))
		} else if len(rs) >= 3 {
			i := g.N(len(rs)/3) * 3
			lo, hi := rs[i], rs[i+2]
			if lo <= hi {
				b.WriteRune(lo + rune(g.N(min(int(hi-lo)+1, 8))))
			}
		}
	case "buildbetween":
		rs := []rune(string(n.S))
		if len(rs) > 0 {
			r := pick(g, rs)
			if g.Bool() {
				r += rune(g.Range(-3, 12))
			}
			b.WriteRune(r)
		}
	case "digit":
		b.WriteByte(byte('0' + g.N(10)))
	case "hexdigit":
		b.WriteByte("0123456789abcdefABCDEF"[g.N(22)])
	case "holey", "match", "not":
		if rs := []rune(string(n.S)); n.Op == "holey" && len(rs) > 0 && g.Chance(3) {
			r := pick(g, rs)
			if g.Bool() {
				r = g.twin(r)
			}
			b.WriteRune(r)
			break
		}
		if n.Op == "holey" && g.Chance(4) {
			b.WriteRune(pick(g, []rune{n.A, n.B, n.A - 1, n.B + 1}))
			break
		}
		b.WriteString(pick(g, s.p.alpha()))
	case "nl":
		b.WriteString(pick(g, []string{"\n", "\r\n"}))
	case "ws":
		b.WriteString(pick(g, []string{" ", "\t", "\n", "\r"}))
	case "int":
		b.WriteString(pick(g, []string{"-1", "12", "+7", "999", "-129", "0"}))
	case "uint":
		b.WriteString(pick(g, []string{"1", "12", "256", "0"}))
	case "bool":
		b.WriteString(pick(g, []string{"true", "false", "TRUE", "False"}))
	case "rulename":
		b.WriteString(pick(g, []string{"a", "ab-c", "x.1", "b_"}))
	case "wrap":
		for _, op := range n.Ops {
			switch op.Name {
			case "If":
				b.WriteString(string(op.S))
			case "IfAny":
				b.WriteString(string(op.L[0]))
			case "IfRune", "WhileRune":
				b.WriteRune(op.A)
			case "IfBetween":
				b.WriteByte('b')
			case "MoveRunes":
				b.WriteString("ab")
			case "To":
				filler()
				b.WriteString(string(op.S))
			}
		}
	case "seq":
		for _, c := range n.L {
			s.sample(c, b)
		}
	case "any":
		if len(n.L) > 0 {
			s.sample(pick(g, n.L), b)
		}
	case "opt":
		if g.Bool() {
			s.sample(n.L[0], b)
		}
	case "zom", "many":
		k := g.N(4)
		if n.Op == "many" {
			k++
		}
		for i := 0; i < k; i++ {
			s.sample(n.L[0], b)
		}
	case "times":
		k := n.N
		if g.Chance(4) {
			k += g.Range(-1, 1)
		}
		for i := 0; i < k && i < 8; i++ {
			s.sample(n.L[0], b)
		}
	case "skipseq":
		for i, c := range n.L[1:] {
			if i == 0 || g.Bool() {
				s.sample(n.L[0], b)
			}
			s.sample(c, b)
		}
		s.sample(n.L[0], b)
	case "skipws":
		for _, c := range n.L {
			if g.Chance(3) {
				b.WriteString(pick(g, []string{" ", "\n", "\t  "}))
			}
			s.sample(c, b)
		}
	case "at":
		if g.Chance(3) {
			s.sample(n.L[0], b)
		}
	case "to":
		filler()
		if g.Chance(3) {
			s.sample(n.L[0], b)
		}
	case "past":
		filler()
		s.sample(n.L[0], b)
	case "body":
		s.sample(n.L[0], b)
		if g.Bool() {
			s.sample(n.L[1], b)
		}
	case "bodytail":
		s.sample(n.L[0], b)
		s.sample(n.L[1], b)
	case "named", "map", "pick", "monitor":
		s.sample(n.L[0], b)
	case "jbeg":
		l := b.Len()
		s.sample(n.L[0], b)
		s.env[n.N] = b.String()[l:]
	case "jend":
		e := s.env[n.N]
		if g.Chance(5) && len(e) > 0 {
			e = e[:len(e)-1]
		}
		b.WriteString(e)
	case "rule":
		s.sample(s.p.Rules[n.N], b)
	}
}

// genInput draws a text for the program and the position to read from.
func genInput(g *G, p *Prog, weird bool) (string, int) {
	var b strings.Builder
	pre := ""
	if g.Chance(3) {
		pre = g.SmallText(p.alpha(), 4)
	}
	if g.Chance(250) { // far inside a long text
		pre = strings.Repeat(pick(g, []string{"a", "b", "\n"}), pick(g, []int{250, 1020, 4090, 32760, 65530, 65530, 65530, 131070})+g.N(8)) + pre
	}
	s := &sampler{g: g, p: p, env: map[int]string{}, budget: 120}
	s.sample(p.Root, &b)
	text := b.String()
	if g.Chance(10) {
		text = g.SmallText(p.alpha(), 20)
	}
	// mutations
	k := 0
	if g.Chance(2) {
		k = 1 + g.N(2)
	}
	for i := 0; i < k; i++ {
		at := 0
		if us := unitsFrom(text, 0); len(us) > 0 {
			at = pick(g, us).at
		}
		switch g.N(5) {
		case 0:
			text = text[:at]
		case 1:
			_, w := utf8.DecodeRuneInString(text[at:])
			text = text[:at] + text[at+w:]
		case 2:
			text = text[:at] + pick(g, p.alpha()) + text[at:]
		case 3:
			text = text + text[at:]
			if len(text) > 500 {
				text = text[:500]
			}
		case 4:
			if weird {
				text = text[:at] + pick(g, []string{"\xff", "\uFFFD", "\xe4\xb8", "\n", "K"}) + text[at:]
			} else {
				text += pick(g, p.alpha())
			}
		}
	}
	return pre + text, len(pre)
}
