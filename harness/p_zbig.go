package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
)

// Large cases: long lists, wide and deep expressions, deep recursion. They
// reach what only shows beyond the sizes the other families draw.

var bigSizes = []int{5, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 66, 70, 99, 100, 101, 120, 127, 128, 129, 200, 255, 256, 257, 300}

// sizeOrBig is small most of the time and a bigSize once in chance times.
func (g *G) sizeOrBig(small, chance, max int) int {
	if g.Chance(chance) {
		if max > 300 {
			return g.bigOrHuge(300, max)
		}
		return g.bigSize(max)
	}
	return small
}

// bigOrHuge is a bigSize, or once in eight times a hugeSize.
func (g *G) bigOrHuge(big, huge int) int {
	if g.Chance(8) {
		return g.hugeSize(huge)
	}
	return g.bigSize(big)
}

func (g *G) bigSize(max int) int {
	var n int
	if g.Bool() {
		n = pick(g, bigSizes)
	} else {
		n = 1 + g.N(300)
	}
	if n > max {
		n = 1 + n%max
	}
	return n
}

func genBig(g *G, o progOpts, modes int) progCase {
	o.maxNodes = 12
	p := &progGen{g: g, o: o}
	pr := &Prog{}
	c := progCase{P: pr, Mode: g.N(modes)}
	one := func(op string, n *Node) *Node { return &Node{Op: op, L: []*Node{n}} }
	seq := func(l ...*Node) *Node { return &Node{Op: "seq", L: l} }
	sample := func(n *Node) string {
		var b strings.Builder
		s := &sampler{g: g, p: pr, env: map[int]string{}, budget: 30}
		s.sample(n, &b)
		return b.String()
	}
	sep := pick(g, []rune{',', ';', ' ', '\n', 'b', '☃'})
	sepN := &Node{Op: "rune", A: sep, Raw: g.Bool()}
	var text strings.Builder
	switch g.N(5) {
	case 0, 1: // a long list
		x := p.obs(p.shape(g.N(2)))
		k := g.bigSize(300)
		withSep := true
		switch g.N(9) {
		case 0:
			pr.Root = seq(x, p.obs(one("zom", p.obs(seq(sepN, x.clone())))))
		case 1:
			pr.Root = one("zom", p.obs(&Node{Op: "any", L: []*Node{p.obs(seq(x, sepN)), x.clone()}}))
		case 2:
			pr.Root = one("many", p.obs(&Node{Op: "any", L: []*Node{x, sepN}}))
		case 3:
			pr.Root = &Node{Op: "times", N: k, L: []*Node{p.obs(x)}}
			withSep = false
		case 4:
			pr.Root = &Node{Op: "skipseq", L: []*Node{one("opt", sepN), p.obs(one("zom", p.obs(seq(x, sepN.clone()))))}}
		case 5:
			tail := &Node{Op: "lit", S: "END"}
			pr.Root = &Node{Op: pick(g, []string{"body", "bodytail"}), L: []*Node{p.obs(one("zom", p.obs(&Node{Op: "any", L: []*Node{x, sepN}}))), p.obs(tail)}}
		case 6:
			pr.Root = seq(one(pick(g, []string{"to", "past"}), p.obs(&Node{Op: "lit", S: "END"})), one("opt", x))
		case 7:
			pr.Root = seq(one("zom", p.obs(one("not", p.obs(&Node{Op: "lit", S: "END"})))), p.obs(&Node{Op: "lit", S: "END"}))
		case 8:
			pr.Root = seq(one("at", p.obs(&Node{Op: "many", L: []*Node{p.obs(&Node{Op: "any", L: []*Node{x, sepN}})}})), p.obs(one("zom", &Node{Op: "any", L: []*Node{x.clone(), sepN.clone()}})))
		}
		if !withSep && g.Chance(3) {
			k += g.Range(-1, 1)
		}
		item := sample(x)
		for i := 0; i < k && text.Len() < 3000; i++ {
			if i > 0 && withSep {
				text.WriteRune(sep)
			}
			if i < 8 || g.Chance(12) {
				item = sample(x)
			}
			text.WriteString(item)
		}
		if !g.Chance(4) {
			text.WriteString("END")
		}
		text.WriteString(pick(g, []string{"", string(sep), item, "a", "\xff", "\n"}))
	case 2: // a wide expression
		k := 1 + g.N(60)
		var l []*Node
		for i := 0; i < k; i++ {
			switch g.N(3) {
			case 0:
				l = append(l, p.obs(&Node{Op: "lit", S: Str(fmt.Sprintf("k%d.", i)), Raw: g.Bool()}))
			case 1:
				l = append(l, p.obs(&Node{Op: "opt", L: []*Node{{Op: "lit", S: Str(fmt.Sprintf("k%d.", g.N(k)))}}}))
			default:
				l = append(l, p.obs(p.leaf()))
			}
		}
		if g.Bool() {
			pr.Root = &Node{Op: "seq", L: l}
		} else if g.Bool() {
			pr.Root = one("many", p.obs(&Node{Op: "any", L: l}))
		} else {
			pr.Root = &Node{Op: "skipseq", L: append([]*Node{one("zom", sepN)}, l...)}
		}
		for _, n := range l {
			text.WriteString(sample(n))
		}
		if g.Bool() {
			text.WriteString(sample(pick(g, l)))
		}
	case 3: // a deep chain
		n := g.nest(p, 10+g.N(50))
		pr.Root = n
		for i := g.N(4); i >= 0; i-- {
			text.WriteString(sample(p.shape(0)))
		}
	default: // deep recursion
		k := 5 + g.bigSize(150)
		self := &Node{Op: "rule", N: 0}
		inner := pick(g, []*Node{one("zom", self), one("opt", self), self, one("many", self), {Op: "skipws", L: []*Node{one("zom", self)}}})
		pr.Rules = []*Node{{Op: "any", L: []*Node{
			p.obs(seq(&Node{Op: "rune", A: '('}, p.obs(inner), p.obs(&Node{Op: "rune", A: ')'}))),
			p.obs(&Node{Op: "lit", S: "x"}),
		}}}
		pr.Root = p.obs(one(pick(g, []string{"many", "zom", "opt", "at", "named"}), self))
		text.WriteString(strings.Repeat("(", k) + pick(g, []string{"x", "", "xx", "()"}) + strings.Repeat(")", k-g.N(2)))
	}
	t := text.String()
	if g.Chance(3) && len(t) > 0 {
		i := g.N(len(t) + 1)
		switch g.N(3) {
		case 0:
			t = t[:i]
		case 1:
			t = t[:i] + pick(g, []string{"?", "a", "END", "\xff", "ä"}) + t[i:]
		case 2:
			t = t[:i] + t[min(len(t), i+1+g.N(5)):]
		}
	}
	pre := ""
	if g.Chance(3) {
		pre = g.SmallText(smallAlpha, 300)
	}
	c.Text, c.Pos = Str(pre+t), len(pre)
	return c
}

// genRun draws one part, repeated or searched for, and a run of what it reads, up
// to the end of the text or not.
func genRun(g *G, o progOpts, modes int) progCase {
	o.maxNodes = 3
	p := &progGen{g: g, o: o, bytes: g.Chance(8)}
	pr := &Prog{Bytes: p.bytes}
	c := progCase{P: pr, Mode: g.N(modes)}
	one := func(op string, n *Node) *Node { return &Node{Op: op, L: []*Node{n}} }
	seq := func(l ...*Node) *Node { return &Node{Op: "seq", L: l} }
	sample := func(n *Node) string {
		var b strings.Builder
		s := &sampler{g: g, p: pr, env: map[int]string{}, budget: 30}
		s.sample(n, &b)
		return b.String()
	}
	leaf := func() *Node {
		n := p.leaf()
		switch g.N(8) {
		case 0:
			n = &Node{Op: "anyrune", S: p.smallStr() + p.smallStr()}
		case 1:
			n = &Node{Op: pick(g, []string{"atend", "ws", "nl", "digit", "hexdigit"})}
		}
		return n
	}
	var text strings.Builder
	x := leaf()
	if g.Chance(3) {
		x = one(pick(g, []string{"not", "not", "named", "opt", "at"}), x)
		x.S = "n"
	}
	k := g.bigSize(300)
	if g.Bool() {
		k = 1 + g.N(9)
	}
	for i := 0; i < k && text.Len() < 2000; i++ {
		text.WriteString(sample(x))
	}
	y := leaf()
	switch g.N(7) {
	case 0, 1, 2:
		pr.Root = one(pick(g, []string{"zom", "many"}), p.obs(x))
	case 3:
		pr.Root = &Node{Op: "times", N: max(0, k+g.Range(-2, 2)), L: []*Node{p.obs(x)}}
	case 4:
		pr.Root = one(pick(g, []string{"to", "past"}), p.obs(y))
	case 5:
		pr.Root = &Node{Op: pick(g, []string{"body", "bodytail"}), L: []*Node{p.obs(one("zom", p.obs(x))), p.obs(y)}}
	default:
		pr.Root = &Node{Op: "skipseq", L: []*Node{one("zom", p.obs(x)), p.obs(y), {Op: "atend"}}}
	}
	pr.Root = p.obs(pr.Root)
	if g.Bool() {
		pr.Root = seq(pr.Root, p.obs(y.clone()))
	}
	if g.Bool() {
		text.WriteString(sample(y))
	}
	if g.Chance(4) {
		text.WriteString(pick(g, pr.alpha()))
	}
	pre := ""
	if g.Chance(4) {
		pre = g.SmallText(pr.alpha(), 20)
	}
	c.Text, c.Pos = Str(pre+text.String()), len(pre)
	return c
}

// genHuge draws few expressions that are cheap to read, for texts, lists and
// depths of thousands.
func genHuge(g *G, o progOpts, modes int) progCase {
	o.maxNodes = 4
	p := &progGen{g: g, o: o}
	pr := &Prog{}
	c := progCase{P: pr, Mode: g.N(modes), Huge: 400000}
	lit := func(s string) *Node { return p.obs(&Node{Op: "lit", S: Str(s)}) }
	one := func(op string, n *Node) *Node { return &Node{Op: op, L: []*Node{n}} }
	item := pick(g, []string{"a", "ab", "ä", "a,", "[=", "x\n", "世"})
	it := lit(item)
	if g.Chance(3) {
		it = p.obs(&Node{Op: "any", L: []*Node{lit("zz"), it}})
	}
	k := g.hugeSize(6000)
	text := ""
	switch g.N(9) {
	case 0:
		pr.Root = p.obs(one(pick(g, []string{"zom", "many"}), it))
		text = strings.Repeat(item, k)
	case 1:
		n := k + g.Range(-1, 1)
		pr.Root = p.obs(&Node{Op: "times", N: n, L: []*Node{it}})
		text = strings.Repeat(item, k)
	case 2:
		pr.Root = p.obs(one(pick(g, []string{"to", "past"}), lit("END")))
		text = strings.Repeat(item, k)
	case 3:
		pr.Root = p.obs(&Node{Op: pick(g, []string{"body", "bodytail"}), L: []*Node{p.obs(one("zom", it)), lit("END")}})
		text = strings.Repeat(item, k)
	case 4: // a long literal
		text = strings.Repeat(item, k)
		n := p.obs(&Node{Op: pick(g, []string{"lit", "fold"}), S: Str(text)})
		pr.Root = p.obs(&Node{Op: pick(g, []string{"seq", "any"}), L: []*Node{n, lit(item)}})
		if g.Chance(3) {
			text = text[:len(text)-1] + "z"
		}
	case 5: // many parts
		k = min(k, 3000)
		var l []*Node
		for i := 0; i < k; i++ {
			l = append(l, &Node{Op: "lit", S: Str(item), Raw: i%3 == 0})
		}
		if g.Bool() {
			for i := range l {
				l[i].S = Str(fmt.Sprintf("%d.", i))
			}
			pr.Root = p.obs(one("many", p.obs(&Node{Op: "any", L: l})))
			text = fmt.Sprintf("%d.%d.%d.%d.", k-1, g.N(k), g.N(k), k)
		} else {
			pr.Root = p.obs(&Node{Op: "seq", L: l})
			text = strings.Repeat(item, k)
		}
	case 6: // a chain of observers and the like
		n := it
		kind := pick(g, []string{"seq", "opt", "any", "at", "times", "named", "skipws"})
		for i := min(k, 2000); i > 0; i-- {
			n = &Node{Op: kind, N: 1, S: "n", L: []*Node{n}}
			if i%500 == 0 {
				n = p.obs(n)
			}
		}
		pr.Root = n
		text = item
	case 7: // deep recursion
		k = min(k, 3000)
		self := &Node{Op: "rule", N: 0}
		pr.Rules = []*Node{{Op: "any", L: []*Node{
			p.obs(&Node{Op: "seq", L: []*Node{{Op: "rune", A: '('}, p.obs(one("opt", self)), {Op: "rune", A: ')'}}}),
			lit("x"),
		}}}
		pr.Root = p.obs(self)
		text = strings.Repeat("(", k) + pick(g, []string{"", "x"}) + strings.Repeat(")", k-g.N(2))
	case 8:
		pr.Root = &Node{Op: "seq", L: []*Node{p.obs(one("zom", p.obs(one("not", lit("END"))))), lit("END"), p.obs(one("zom", &Node{Op: "seq", L: []*Node{it, p.obs(one("opt", it.clone()))}}))}}
		text = strings.Repeat(item, min(k, 2000)) + "END" + strings.Repeat(item, min(k, 2000))
	}
	if !g.Chance(3) {
		text += "END"
	}
	text += pick(g, []string{"", item, "\xff"})
	pre := ""
	if g.Chance(3) {
		pre = strings.Repeat("pre ", g.hugeSize(3000))
	}
	c.Text, c.Pos = Str(pre+text), len(pre)
	return c
}

// nest draws a chain of unary readers of a few kinds.
func (g *G) nest(p *progGen, depth int) *Node {
	n := p.shape(0)
	all := []string{"at", "not", "opt", "named", "map", "pick", "monitor", "seq", "any", "times", "zom", "many", "to", "past", "skipseq", "skipws", "any2", "seq2", "body", "bodytail"}
	var kinds []string
	for i := 1 + g.N(3); i > 0; i-- {
		kinds = append(kinds, pick(g, all))
	}
	for i := 0; i < depth; i++ {
		k := pick(g, kinds)
		empty := &Node{Op: "lit", S: ""}
		c := &Node{Op: k, L: []*Node{n}}
		switch k {
		case "named", "map", "pick", "monitor":
			c.S = p.name()
		case "times":
			c.N = 1
		case "skipseq":
			c.L = []*Node{empty, n}
		case "any2":
			c.Op = "any"
			c.L = append(c.L, &Node{Op: "lit", S: "z"})
		case "seq2":
			c.Op = "seq"
			c.L = append(c.L, &Node{Op: "opt", L: []*Node{{Op: "lit", S: "z"}}})
		case "body", "bodytail":
			c.L = []*Node{n, {Op: "atend"}}
		}
		n = c
	}
	return n
}

// -------------------------------------------------------- C09: nested documents

// nestKind is a construct that contains itself. back says that the Lua grammar
// reads its inside more than once, see KF-LUA-NESTED.
type nestKind struct {
	open, close string
	back        bool
}

var nestLua = []nestKind{
	{"{", "}", false}, {"{[1]=", "}", false}, {"{a=", "}", false}, {"{1,", "}", false}, {"{1;2,", ";}", false},
	{"function() return ", " end", false}, {"not ", "", false}, {"-", "", false}, {"1+", "", false}, {"a..", "", false}, {"a[", "]", false}, {"a.b[1][", "].c", false},
	{"function(a,...) local x = ", " end", false}, {"function() a.b = ", " end", false},
	{"function() while ", " do end end", false}, {"function() if ", " then end end", false}, {"function() if x then else return ", " end end", false},
	{"function() for i=1,", " do end end", false}, {"function() for k,v in ", " do end end", false}, {"function() repeat until ", " end", false},
	{"function() do do return ", " end end end", false}, {"function() local function f() return ", " end end", false}, {"function() function a.b:c(x) return ", " end end", false},
	{"(", ")", true}, {"f(", ")", true}, {"f{", "}", true}, {"a:b(", ").c", true}, {"-(", ")", true}, {"1+(", ")", true}, {"f(1,function() return ", " end)", true},
}

var nestJSON = []nestKind{{"[", "]", false}, {`{"a":`, "}", false}, {"[1,", "]", false}, {`{"a":1,"b":`, "}", false}, {"[ ", " ]", false}, {"[[],", ",{}]", false}, {`{ "k" : [`, "] }", false}}

type nestDocCase struct {
	G      int
	Levels []int
	Inner  Str
	Cut    int
}

func genNestDoc(g *G) nestDocCase {
	c := nestDocCase{G: g.N(2)}
	ks := nestJSON
	if c.G == 1 {
		ks = nestLua
	}
	n := len(ks)
	if c.G == 1 && !g.Chance(16) {
		n = 23
	}
	var kinds []int
	for i := 1 + g.N(3); i > 0; i-- {
		kinds = append(kinds, g.N(n))
	}
	for i := 4 + g.N(60); i > 0; i-- {
		c.Levels = append(c.Levels, pick(g, kinds))
	}
	c.Inner = Str(pick(g, []string{"1", "1", "1", `"a"`, "", "?", `"`, "1 "}))
	if g.Chance(3) {
		c.Cut = 1 + g.N(12)
	}
	return c
}

func (c *nestDocCase) text() (string, int) {
	ks, s, back := nestJSON, "", 0
	pre := ""
	if c.G == 1 {
		ks, pre = nestLua, "x="
	}
	post := ""
	for _, l := range c.Levels {
		k := ks[l%len(ks)]
		s += k.open
		post = k.close + post
		if k.back {
			back++
		}
	}
	s = pre + s + string(c.Inner) + post
	return s[:max(0, len(s)-c.Cut)], back
}

// again is how often the Lua grammar reads what stands behind a unary and a binary
// operator if it is wrong: once more for each unary operator and all that for each
// such part, see KF-LUA-UNARY.
func (c *nestDocCase) again() int {
	n, un := 1, 0
	for _, l := range c.Levels {
		switch nestLua[l%len(nestLua)].open {
		case "not ", "-":
			un++
			continue
		case "1+", "a..":
			n = min(n*(un+1), 1000)
		}
		un = 0
	}
	return n
}

type limitTracker struct{ n, limit int }

func (c *limitTracker) Update(tok.Marker) {
	if c.n++; c.n > c.limit {
		panic(stepLimit{})
	}
}

func runNestDoc(c nestDocCase, o *Obs) {
	text, back := c.text()
	g := newGrammar(c.G)
	s := tok.NewScanner(text)
	// reading such a text takes less than 300 moves per byte
	lt := &limitTracker{limit: 100000 + 3000*len(text)}
	s.Tracker = lt
	o.Label(gramName(c.G))
	if len(c.Levels) > 12 {
		o.NonTrivial()
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(stepLimit); !is {
				panic(r)
			}
			if c.G == 1 && back >= 4 && isKnown("KF-LUA-NESTED") {
				o.Known("KF-LUA-NESTED")
				return
			}
			if c.G == 1 && c.again()<<min(back, 4) >= 16 && isKnown("KF-LUA-UNARY") {
				o.Known("KF-LUA-UNARY")
				return
			}
			o.Fail("%s grammar on %q: not finished after %d moves of the scanner", gramName(c.G), text, lt.limit)
		}
	}()
	s.Use(g)
	o.LabelIf(s.AtEnd(), "read")
}

func init() {
	add := func(id string, f Family) { props[id].Families = append(props[id].Families, f) }
	all := allOpts()
	all.janus = false
	obs := func(f func(o *progOpts)) progOpts {
		o := progOpts{observers: 5, weird: true}
		f(&o)
		return o
	}
	big := func(id string, quick, thorough int, o progOpts, modes int, prep func(*G, *progCase), run func(progCase, *Obs)) {
		add(id, Fam("large", quick, thorough, "a long text or a deep expression that was read or gave something back", func(g *G) progCase {
			c := genBig(g, o, modes)
			if prep != nil {
				prep(g, &c)
			}
			return c
		}, run))
		add(id, Fam("runs", quick*8, thorough*8, "a run that was read or gave something back", func(g *G) progCase {
			c := genRun(g, o, modes)
			if prep != nil {
				prep(g, &c)
			}
			return c
		}, run))
		add(id, Fam("huge", quick/5, thorough/10, "thousands of items, parts or levels", func(g *G) progCase {
			c := genHuge(g, o, modes)
			if prep != nil {
				prep(g, &c)
			}
			return c
		}, run))
	}
	big("C07", 1500, 60000, all, 8, nil, runC07)
	big("C08", 1500, 60000, all, 32, nil, runC08)
	big("C09", 1500, 60000, all, 4, nil, runC09)
	big("C10", 1500, 60000, all, 2, nil, runC10)
	ruled := func(bit int) func(*G, *progCase) {
		return func(g *G, c *progCase) {
			if len(c.P.Rules) > 0 {
				c.Obs = g.N(2) * bit
			}
			c.N = g.N(3)
		}
	}
	big("C11", 1500, 60000, obs(func(o *progOpts) { o.picks = true }), 4, ruled(1), runC11)
	big("C12", 1500, 60000, obs(func(o *progOpts) { o.maps = true }), 4, ruled(2), runC12)
	big("C13", 1500, 60000, obs(func(o *progOpts) { o.monitors = true }), 8, ruled(4), runC13)
	big("C14", 1500, 60000, all, 6, ruled(7), runC14)
	big("C17", 1500, 60000, func() progOpts { o := all; o.bad = true; return o }(), 1, nil, runC17)
	big("C18", 1500, 60000, all, 1, ruled(7), runC18)
	add("C09", Fam("nested documents", 1500, 40000, "more than 12 levels", genNestDoc, runNestDoc))
}

// ---------------------------------------------- C24, C28: very deep documents

// deepCase is a document of one to three constructs, each many levels deep.
type deepCase struct {
	G     int
	Kinds []int
	Depth int
	Inner Str
	Cut   int // closing parts left out
	More  bool
}

func genDeep(k int) func(g *G) deepCase {
	return func(g *G) deepCase {
		c := deepCase{G: k}
		ks := nestJSON
		inner := []string{"1", "1", `"a"`, "[]", "{}", "null", "-1.5e3"}
		most := 9000
		if k == 1 {
			ks = nestLua
			inner = []string{"1", "1", `"a"`, "nil", "{}", "...", "x"}
			most = 400
		}
		for i := 1 + g.N(3); i > 0; i-- {
			for {
				j := g.N(len(ks))
				if !ks[j].back && ks[j].open != "-" { // two of them are a comment
					c.Kinds = append(c.Kinds, j)
					break
				}
			}
		}
		c.Depth = pick(g, []int{99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 399, 400})
		if k == 0 && g.Bool() {
			c.Depth = g.hugeSize(most / len(c.Kinds))
		} else if g.Chance(3) {
			c.Depth = g.Range(60, 400)
		}
		c.Inner = Str(pick(g, inner))
		if g.Chance(3) {
			c.Cut = 1 + g.N(2)
		}
		c.More = g.Chance(4)
		return c
	}
}

func runDeep(c deepCase, o *Obs) {
	ks := nestJSON
	if c.G == 1 {
		ks = nestLua
	}
	var open strings.Builder
	var post []string
	for i := 0; i < c.Depth; i++ {
		k := ks[c.Kinds[i%len(c.Kinds)]]
		open.WriteString(k.open)
		if k.close != "" {
			post = append(post, k.close)
		}
	}
	cut := min(c.Cut, len(post))
	text := open.String() + string(c.Inner)
	if c.G == 1 {
		text = "x=" + text
	}
	for i := len(post) - 1; i >= cut; i-- {
		text += post[i]
	}
	want := cut == 0
	if c.More && want {
		text += pick2(c.G, "]", " end")
		want = false
	}
	g := newGrammar(c.G)
	s := tok.NewScanner(text)
	err := s.Use(g)
	o.NonTrivial()
	o.LabelIf(want, "complete")
	o.LabelIf(!want, "broken")
	if got := err == nil && s.AtEnd(); got != want {
		what := ""
		for _, k := range c.Kinds {
			what += ks[k].open + " "
		}
		o.Fail("%s: %d levels of %swith %q and %d closing parts less (one more: %v): read is %v, want %v (at %d of %d)", gramName(c.G), c.Depth, what, string(c.Inner), cut, c.More, got, want, s.Mark(), len(text))
	}
}

func pick2(k int, a, b string) string {
	if k == 0 {
		return a
	}
	return b
}

func init() {
	props["C24"].Families = append(props["C24"].Families, Fam("deep", 40, 4000, "every document", genDeep(0), runDeep))
	props["C28"].Families = append(props["C28"].Families, Fam("deep", 40, 4000, "every document", genDeep(1), runDeep))
}
