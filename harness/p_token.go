package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/aiq/tok"
)

// rng is a half-open range of positions.
type rng struct{ A, B int }

func (r rng) norm() rng {
	if r.A > r.B {
		return rng{r.B, r.A}
	}
	return r
}
func (r rng) tok() tok.Token      { return tok.MakeToken(tok.Marker(r.A), tok.Marker(r.B)) }
func (r rng) covers(o rng) bool   { return r.A <= o.A && o.B <= r.B }
func (r rng) overlaps(o rng) bool { return max(r.A, o.A) < min(r.B, o.B) }
func (r rng) clashes(o rng) bool  { return r.overlaps(o) && !r.covers(o) && !o.covers(r) }
func (r rng) strictly(o rng) bool { return r.covers(o) && r != o }
func (s segm) seg() tok.Segment   { return tok.Segment{Info: string(s.Info), Token: s.R.tok()} }
func segOf(s tok.Segment) segm    { a, b := span(s.Token); return segm{Str(s.Info), rng{a, b}} }
func (s segm) String() string     { return fmt.Sprintf("%s[%d-%d)", string(s.Info), s.R.A, s.R.B) }
func (g *G) mark(text bool) int {
	switch g.N(8) {
	case 0:
		if !text {
			return pick(g, []int{0, -1, 1 << 40, -(1 << 40), 1<<62 - 1, 127, 128, 255, 256, 1 << 31})
		}
	case 1, 2:
		return g.N(4)
	case 3:
		return g.N(300)
	}
	return g.N(12)
}

type segm struct {
	Info Str
	R    rng
}

// ------------------------------------------------------------------------ C19

type tokCase struct {
	A, B rng
	Text Str
}

func genTok(g *G) tokCase {
	return tokCase{A: rng{g.mark(false), g.mark(false)}, B: rng{g.mark(false), g.mark(false)}, Text: Str(g.Text(12) + g.SmallText(smallAlpha, 300))}
}

func runTok(c tokCase, o *Obs) {
	a, b := c.A.norm(), c.B.norm()
	ta, tb := c.A.tok(), c.B.tok()
	if ta != a.tok() {
		o.Fail("MakeToken(%d,%d) is %v", c.A.A, c.A.B, ta)
		return
	}
	name := fmt.Sprintf("a=[%d-%d) b=[%d-%d)", a.A, a.B, b.A, b.B)
	o.LabelIf(a.A == a.B || b.A == b.B, "empty token")
	o.LabelIf(a.clashes(b), "clash")
	o.LabelIf(a.covers(b) || b.covers(a), "covered")
	o.LabelIf(a == b, "equal")
	if a.overlaps(b) || a.A == b.B || a.B == b.A {
		o.NonTrivial()
	}
	bad := func(what string, got, want any) {
		if got != want {
			o.Fail("%s: %s is %v, want %v", name, what, got, want)
		}
	}
	bad("a.Len", ta.Len(), a.B-a.A)
	bad("a.Before(b)", ta.Before(tb), a.B <= b.A)
	bad("a.After(b)", ta.After(tb), a.A >= b.B)
	bad("a.Covers(b)", ta.Covers(tb), a.covers(b))
	bad("b.Covers(a)", tb.Covers(ta), b.covers(a))
	bad("a.Clashes(b)", ta.Clashes(tb), a.clashes(b))
	bad("b.Clashes(a)", tb.Clashes(ta), a.clashes(b))
	hull := rng{min(a.A, b.A), max(a.B, b.B)}
	bad("a.Merge(b)", ta.Merge(tb), hull.tok())
	bad("b.Merge(a)", tb.Merge(ta), hull.tok())
	bad("a.Merge(a)", ta.Merge(ta), ta)
	bad("a.String", ta.String(), fmt.Sprintf("[%d-%d)", a.A, a.B))
	sa, sb := tok.Segment{Info: "x", Token: ta}, tok.Segment{Info: "y", Token: tb}
	bad("segment String", sa.String(), "x"+ta.String())
	bad("Known", sa.Known(), true)
	bad("Known without info", tok.Segment{Token: ta}.Known(), false)
	if a.covers(b) {
		l, r := ta.Split(tb)
		bad("left of Split", l, rng{a.A, b.A}.tok())
		bad("right of Split", r, rng{b.B, a.B}.tok())
		bad("sum of lengths", l.Len()+tb.Len()+r.Len(), ta.Len())
		ls, rs := sa.Split(sb)
		bad("left segment", ls, tok.Segment{Info: "x", Token: l})
		bad("right segment", rs, tok.Segment{Info: "x", Token: r})
	}
	text := string(c.Text)
	s := tok.NewScanner(text)
	for _, x := range []rng{a, b, hull} {
		if x.A >= 0 && x.B <= len(text) {
			bad("Get", s.Get(x.tok()), text[x.A:x.B])
		}
	}
}

// ------------------------------------------------------------------------ C20

type sortCase struct {
	Segs    []segm
	Order   []Str
	ByOrder bool
}

var infos = []Str{"", "a", "b", "c", "key", "ä"}
var moreInfos = func() (l []Str) {
	l = append(l, "A", "aa", "a b", ";", "[0-1)", "a[0-1)", "1.", "\n", "%s", "\xff", "root", "Key", "key ", "0", Str(strings.Repeat("n", 70)))
	for i := 0; i < 40; i++ {
		l = append(l, Str(fmt.Sprintf("i%d", i)))
	}
	return l
}()

// info draws the info of a segment.
func (g *G) info() Str {
	if g.Chance(6) {
		return pick(g, moreInfos)
	}
	return pick(g, infos)
}

// offset draws how far everything is moved to the right.
func (g *G) offset() int {
	if !g.Chance(5) {
		return 0
	}
	return pick(g, []int{1, 7, 90, 120, 250, 990, 1000, 32760, 65530, 99990, 1 << 20, 1<<31 - 12, 1<<32 - 5, 1 << 40, max(0, g.DictInt(3))})
}

// stretch draws a factor for all positions.
func (g *G) stretch() int {
	if !g.Chance(8) {
		return 1
	}
	return pick(g, []int{2, 3, 10, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 65537, 1 << 20, 1 << 31, 1 << 32})
}

func scale(segs []segm, f int) {
	for i := range segs {
		segs[i].R.A *= f
		segs[i].R.B *= f
	}
}

func shift(segs []segm, d int) {
	for i := range segs {
		segs[i].R.A += d
		segs[i].R.B += d
	}
}

// laminar draws ranges inside r that do not clash.
func laminar(g *G, r rng, depth int, dups, empties bool, out *[]segm) {
	laminarN(g, r, depth, dups, empties, 60, out)
}

func laminarN(g *G, r rng, depth int, dups, empties bool, limit int, out *[]segm) {
	n := g.N(4)
	if limit > 60 && g.Chance(3) {
		n = g.N(40)
	}
	pos := r.A
	for i := 0; i < n; i++ {
		if pos > r.B || len(*out) > limit {
			return
		}
		a := pos + g.N(min(3, r.B-pos+1))
		b := a
		if a < r.B {
			b = a + 1 + g.N(r.B-a)
		}
		if b > a+12 && g.Bool() {
			b = a + 1 + g.N(12)
		}
		if a == b && !empties {
			return
		}
		if empties && g.Chance(5) {
			b = a
		}
		x := rng{a, b}
		add := func() { *out = append(*out, segm{g.info(), x}) }
		add()
		for dups && g.Chance(4) {
			add()
		}
		if depth > 0 {
			laminarN(g, x, depth-1, dups, empties, limit, out)
		}
		pos = b
	}
}

// chain draws k ranges inside each other, or one behind the other.
func chain(g *G, k int) []segm {
	var l []segm
	flat := g.Bool()
	info := g.info()
	for i := 0; i < k; i++ {
		if flat {
			l = append(l, segm{info, rng{2 * i, 2*i + 1 + i%2}})
		} else {
			l = append(l, segm{info, rng{i, 2*k - i + 1}})
		}
	}
	switch g.N(4) {
	case 0:
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case 1:
		if len(l) < 400 {
			shuffle(g, l)
		}
	}
	return l
}

func shuffle[T any](g *G, l []T) {
	for i := len(l) - 1; i > 0; i-- {
		j := g.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
}

func genSort(g *G) sortCase {
	c := sortCase{ByOrder: g.Bool()}
	if g.Chance(150) {
		c.Segs = chain(g, g.bigOrHuge(300, 1500))
	} else if g.Chance(60) {
		laminarN(g, rng{0, g.Range(60, 20000)}, 2+g.N(12), g.Bool(), g.Bool(), g.bigOrHuge(300, 1500), &c.Segs)
	} else {
		laminar(g, rng{0, g.Range(1, 60)}, g.N(5), g.Bool(), g.Bool(), &c.Segs)
	}
	shuffle(g, c.Segs)
	scale(c.Segs, g.stretch())
	shift(c.Segs, g.offset())
	order := append([]Str{}, infos...)
	if g.Chance(4) {
		order = append(order, moreInfos...)
	}
	shuffle(g, order)
	c.Order = order[:g.N(len(order)+1)]
	return c
}

func runSort(c sortCase, o *Obs) {
	list := make([]tok.Segment, len(c.Segs))
	type key struct {
		s segm
		n int
	}
	for i, s := range c.Segs {
		list[i] = s.seg()
	}
	var order []string
	for _, s := range c.Order {
		order = append(order, string(s))
	}
	rank := func(s segm) int {
		for i, x := range c.Order {
			if x == s.Info {
				return i
			}
		}
		return -1
	}
	if c.ByOrder {
		tok.SortSegmentsByOrder(list, order)
		for i, s := range c.Order {
			if order[i] != string(s) {
				o.Fail("SortSegmentsByOrder changed the order list at %d: %q", i, order[i])
				return
			}
		}
	} else {
		tok.SortSegments(list)
	}
	var got []segm
	for _, s := range list {
		got = append(got, segOf(s))
	}
	// reference: insertion by the stated relation
	idx := make([]int, len(c.Segs))
	for i := range idx {
		idx[i] = i
	}
	before := func(i, j int) bool {
		x, y := c.Segs[i], c.Segs[j]
		switch {
		case x.R.strictly(y.R):
			return true
		case y.R.strictly(x.R):
			return false
		case x.R == y.R:
			if c.ByOrder && rank(x) != rank(y) {
				return rank(x) < rank(y)
			}
			return i < j
		default:
			return x.R.B <= y.R.A
		}
	}
	sort.Slice(idx, func(a, b int) bool { return before(idx[a], idx[b]) })
	equal, nested := false, false
	for k, i := range idx {
		for l := k + 1; l < len(idx); l++ {
			if !before(i, idx[l]) {
				panic(harnessError{"reference order is no order"})
			}
			equal = equal || c.Segs[i].R == c.Segs[idx[l]].R
			nested = nested || c.Segs[i].R.strictly(c.Segs[idx[l]].R)
		}
	}
	if nested && len(c.Segs) > 3 {
		o.NonTrivial()
	}
	o.LabelIf(equal, "equal tokens")
	o.LabelIf(len(c.Segs) > 12, "more than 12 segments")
	o.LabelIf(len(c.Segs) > 20, "more than 20 segments")
	o.LabelIf(c.ByOrder, "by order")
	if len(got) != len(idx) {
		o.Fail("%d segments after sorting %d", len(got), len(idx))
		return
	}
	for k, i := range idx {
		if got[k] != c.Segs[i] {
			o.Fail("sorting %v (order %q, used %v) gives %v, want %v at %d", c.Segs, order, c.ByOrder, got, c.Segs[i], k)
			return
		}
	}
}

// ------------------------------------------------------------------------ C21

type cutCase struct {
	Range segm
	Scan  bool
	Text  Str
	Segs  []segm
	At    int `json:",omitempty"` // where the scanner stands
}

func genCut(g *G) cutCase {
	c := cutCase{Scan: g.Bool()}
	c.Text = Str(g.Text(30))
	if c.Scan {
		c.Range = segm{"", rng{0, len(c.Text)}}
	} else {
		a := g.N(10)
		c.Range = segm{g.info(), rng{a, a + g.N(20)}}
	}
	pos := c.Range.R.A
	n := g.N(6)
	if g.Chance(30) {
		n = g.bigOrHuge(300, 3000)
		if c.Scan {
			c.Text = Str(strings.Repeat("abcä\n", n))
			c.Range.R.B = len(c.Text)
		} else {
			c.Range.R.B += n * 3
		}
	}
	for i := 0; i < n; i++ {
		a := pos + g.N(4)
		if g.Chance(3) {
			a = pos
		}
		b := a + g.N(5)
		if g.Chance(25) {
			a -= g.N(4) + 1
		}
		if b > c.Range.R.B && !g.Chance(6) {
			b = c.Range.R.B
		}
		if a > b {
			a = b
		}
		c.Segs = append(c.Segs, segm{g.info(), rng{a, b}})
		pos = b
	}
	if g.Chance(20) {
		shuffle(g, c.Segs)
	}
	if c.Scan && g.Bool() {
		c.At = g.Pos(string(c.Text))
	}
	if !c.Scan {
		f, d := g.stretch(), g.offset()
		scale(c.Segs, f)
		c.Range.R.A *= f
		c.Range.R.B *= f
		shift(c.Segs, d)
		c.Range.R.A += d
		c.Range.R.B += d
	}
	return c
}

func runCut(c cutCase, o *Obs) {
	var list []tok.Segment
	for _, s := range c.Segs {
		list = append(list, s.seg())
	}
	var got []tok.Segment
	var err error
	if c.Scan {
		s := tok.NewScanner(string(c.Text))
		s.ToMarker(tok.Marker(c.At))
		got, err = s.Segmentate(list)
		if int(s.Mark()) != c.At {
			o.Fail("Segmentate moved the scanner from %d to %d", c.At, s.Mark())
			return
		}
	} else {
		got, err = c.Range.seg().Segmentate(list)
	}
	for i, s := range c.Segs {
		if list[i] != s.seg() {
			o.Fail("Segmentate changed its argument at %d: %v", i, list[i])
			return
		}
	}
	var want []segm
	cur := c.Range.R.A
	ok := true
	empty := false
	for _, s := range c.Segs {
		if s.R.A < cur || s.R.B > c.Range.R.B {
			ok = false
			break
		}
		if s.R.A > cur {
			want = append(want, segm{c.Range.Info, rng{cur, s.R.A}})
		}
		want = append(want, s)
		empty = empty || s.R.A == s.R.B
		cur = s.R.B
	}
	if ok && cur < c.Range.R.B {
		want = append(want, segm{c.Range.Info, rng{cur, c.Range.R.B}})
	}
	if len(c.Segs) > 0 {
		o.NonTrivial()
	}
	o.LabelIf(!ok, "refused")
	o.LabelIf(empty, "empty segment")
	o.LabelIf(ok && len(want) > len(c.Segs), "with gaps")
	if (err == nil) != ok {
		o.Fail("%v cut by %v: error %v, want ok=%v", c.Range, c.Segs, err, ok)
		return
	}
	if !ok {
		return
	}
	var gs []segm
	for _, s := range got {
		gs = append(gs, segOf(s))
	}
	if fmt.Sprint(gs) != fmt.Sprint(want) {
		o.Fail("%v cut by %v gives %v, want %v", c.Range, c.Segs, gs, want)
	}
}

// ------------------------------------------------------------------------ C22

type graphCase struct {
	Name  Str
	Segs  []segm
	Build bool
}

func genGraph(g *G) graphCase {
	c := graphCase{Name: g.info(), Build: g.Chance(3)}
	max := g.Range(2, 20)
	if g.Chance(3) {
		// no clashes, any order
		laminar(g, rng{g.N(5), max + 20}, g.N(5), g.Chance(3), g.Chance(3), &c.Segs)
		shuffle(g, c.Segs)
		if len(c.Segs) > 24 {
			c.Segs = c.Segs[:24]
		}
	}
	if g.Chance(60) { // a large one
		max = 400
		c.Segs = nil
		if g.Chance(3) {
			c.Segs = chain(g, g.bigOrHuge(200, 600))
			max = 2*len(c.Segs) + 2
		} else {
			laminarN(g, rng{g.N(5), max}, 2+g.N(12), g.Chance(3), g.Chance(3), g.bigSize(150), &c.Segs)
		}
		if !g.Chance(3) {
			shuffle(g, c.Segs)
		}
	}
	n := g.Size(14)
	empties := g.Chance(3)
	for i := 0; i < n; i++ {
		a := g.N(max)
		b := a + 1 + g.N(max-a)
		if empties && g.Chance(4) {
			b = a
		}
		s := segm{g.info(), rng{a, b}}
		if g.Chance(3) || len(c.Segs) == 0 {
			c.Segs = append(c.Segs, s)
		} else if g.Chance(2) && len(c.Segs) < 30 {
			// near an existing one
			x := pick(g, c.Segs)
			y := rng{x.R.A + g.Range(-1, 1), x.R.B + g.Range(-1, 1)}
			if y.A < 0 || y.A > y.B || (y.A == y.B && !empties) {
				y = x.R
			}
			c.Segs = append(c.Segs, segm{g.info(), y})
		}
	}
	scale(c.Segs, g.stretch())
	shift(c.Segs, g.offset())
	return c
}

func showTree(n *tok.Node, b *strings.Builder) {
	b.WriteString(n.Segment.String())
	b.WriteByte('(')
	for _, c := range n.Nodes {
		showTree(c, b)
	}
	b.WriteByte(')')
}

func tree(g *tok.Graph) string {
	var b strings.Builder
	showTree(g.Root, &b)
	return b.String()
}

// refTree renders the containment tree of distinct ranges.
func refTree(name string, segs []segm) string {
	list := append([]segm{}, segs...)
	sort.Slice(list, func(i, j int) bool {
		if list[i].R.A != list[j].R.A {
			return list[i].R.A < list[j].R.A
		}
		return list[i].R.B > list[j].R.B
	})
	hull := rng{}
	for i, s := range list {
		if i == 0 {
			hull = s.R
		}
		hull = rng{min(hull.A, s.R.A), max(hull.B, s.R.B)}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s[%d-%d)(", name, hull.A, hull.B)
	var open []rng
	for _, s := range list {
		for len(open) > 0 && !open[len(open)-1].covers(s.R) {
			open = open[:len(open)-1]
			b.WriteByte(')')
		}
		b.WriteString(s.String() + "(")
		open = append(open, s.R)
	}
	for range open {
		b.WriteByte(')')
	}
	b.WriteByte(')')
	return b.String()
}

func runGraph(c graphCase, o *Obs) {
	name := string(c.Name)
	g := tok.NewGraph(name)
	var acc []segm
	refused := 0
	distinct := true
	if c.Build {
		var list []tok.Segment
		for _, s := range c.Segs {
			list = append(list, s.seg())
		}
		g = tok.BuildGraph(name, list)
	}
	for i, s := range c.Segs {
		clash := false
		for _, x := range acc {
			clash = clash || x.R.clashes(s.R)
		}
		if !clash {
			for _, x := range acc {
				distinct = distinct && x.R != s.R
			}
			distinct = distinct && s.R.A < s.R.B
			acc = append(acc, s)
		} else {
			refused++
		}
		if c.Build {
			continue
		}
		old := tree(g)
		h, ok := g.Append(s.seg())
		if h != g {
			o.Fail("Append %d (%v) returned another graph", i, s)
			return
		}
		if ok == clash {
			o.Fail("Append %d of %v: %v returned %v, clash with an accepted segment: %v", i, c.Segs, s, ok, clash)
			return
		}
		if !ok && tree(g) != old {
			o.Fail("Append %d of %v: refused %v but the graph changed from %s to %s", i, c.Segs, s, old, tree(g))
			return
		}
	}
	if len(acc) > 2 {
		o.NonTrivial()
	}
	o.LabelIf(refused > 0, "refused")
	o.LabelIf(distinct, "distinct non-empty tokens")
	got := tree(g)
	if g.Root.Info != name {
		o.Fail("root is named %q, want %q", g.Root.Info, name)
		return
	}
	if distinct {
		if len(acc) > 0 {
			if want := refTree(name, acc); got != want {
				o.Fail("graph of %v is %s, want %s", c.Segs, got, want)
			}
		}
		return
	}
	// equal or empty tokens: the tree is not unique, its shape is restricted
	if len(acc) > 0 {
		hull := acc[0].R
		for _, s := range acc {
			hull = rng{min(hull.A, s.R.A), max(hull.B, s.R.B)}
		}
		if g.Root.Token != hull.tok() {
			o.Fail("graph of %v: root spans %v, want [%d-%d)", c.Segs, g.Root.Token, hull.A, hull.B)
			return
		}
	}
	count := map[segm]int{}
	for _, s := range acc {
		count[s]++
	}
	var walk func(n *tok.Node)
	walk = func(n *tok.Node) {
		r := segOf(n.Segment).R
		for i, x := range n.Nodes {
			s := segOf(x.Segment)
			count[s]--
			if !r.covers(s.R) {
				o.Fail("graph of %v: %v is below %v (%s)", c.Segs, s, n.Segment, got)
			}
			for j, y := range n.Nodes {
				t := segOf(y.Segment)
				if i != j && t.R.covers(s.R) {
					o.Fail("graph of %v: %v has the covering sibling %v (%s)", c.Segs, s, t, got)
				}
				if i < j && !(s.R.B <= t.R.A) {
					o.Fail("graph of %v: %v stands before %v (%s)", c.Segs, s, t, got)
				}
			}
			walk(x)
		}
	}
	walk(g.Root)
	for s, n := range count {
		if n != 0 {
			o.Fail("graph of %v: %v is there %d times too few (%s)", c.Segs, s, n, got)
		}
	}
}

type permCase struct {
	Segs []segm
	Perm []int
}

func genPerm(g *G) permCase {
	c := permCase{}
	if g.Chance(60) {
		laminarN(g, rng{g.N(5), g.Range(60, 2000)}, 2+g.N(12), false, false, g.bigSize(200), &c.Segs)
	} else {
		laminar(g, rng{g.N(5), g.Range(5, 60)}, 1+g.N(4), false, false, &c.Segs)
	}
	seen := map[rng]bool{}
	var l []segm
	for _, s := range c.Segs {
		if !seen[s.R] {
			seen[s.R] = true
			l = append(l, s)
		}
	}
	c.Segs = l
	for i := range l {
		c.Perm = append(c.Perm, i)
	}
	shuffle(g, c.Perm)
	scale(c.Segs, g.stretch())
	shift(c.Segs, g.offset())
	return c
}

func runPerm(c permCase, o *Obs) {
	var a, b []tok.Segment
	for i := range c.Segs {
		a = append(a, c.Segs[i].seg())
		b = append(b, c.Segs[c.Perm[i]].seg())
	}
	ga, gb := tok.BuildGraph("x", a), tok.BuildGraph("x", b)
	if len(a) > 3 {
		o.NonTrivial()
	}
	if !ga.Equal(gb) || !gb.Equal(ga) || tree(ga) != tree(gb) {
		o.Fail("the graph of %v depends on the order: %s / %s", c.Segs, tree(ga), tree(gb))
		return
	}
	if want := refTree("x", c.Segs); len(c.Segs) > 0 && tree(ga) != want {
		o.Fail("the graph of %v is %s, want %s", c.Segs, tree(ga), want)
	}
}

// ------------------------------------------------------------------------ C23

type treeNode struct {
	S segm
	L []*treeNode `json:",omitempty"`
}

type treeCase struct {
	T   *treeNode
	Mut int
	At  int
}

func genTree(g *G) treeCase {
	n, limit := 0, 60
	deep := g.N(6)
	large := g.Chance(60)
	if large {
		limit, deep = g.bigOrHuge(400, 1500), g.N(40)
	}
	var mk func(d int, r rng) *treeNode
	mk = func(d int, r rng) *treeNode {
		n++
		t := &treeNode{S: segm{g.info(), r}}
		if d == 0 || n > limit {
			return t
		}
		k := g.N(4)
		if g.Chance(20) {
			k = 12
		}
		if large && g.Chance(12) {
			k = 130
		}
		pos := r.A
		for i := 0; i < k && pos <= r.B; i++ {
			a := pos + g.N(min(3, r.B-pos+1))
			b := a + g.N(r.B-a+1)
			t.L = append(t.L, mk(d-1, rng{a, b}))
			pos = b
		}
		return t
	}
	if g.Chance(1500) { // a path
		k := g.bigOrHuge(300, 1200)
		root := &treeNode{S: segm{"p", rng{0, 2 * k}}}
		for t, i := root, 1; i < k; i++ {
			t.L = append(t.L, &treeNode{S: segm{pick(g, infos[:2]), rng{i, 2*k - i}}})
			t = t.L[0]
		}
		return treeCase{T: root, Mut: g.N(7), At: g.N(64)}
	}
	if g.Chance(1000) { // many children
		k := g.bigOrHuge(300, 2500)
		if g.Bool() {
			k = g.hugeSize(1300)
		}
		root := &treeNode{S: segm{"w", rng{0, 2 * k}}}
		for i := 0; i < k; i++ {
			root.L = append(root.L, &treeNode{S: segm{g.info(), rng{2 * i, 2*i + 1 + i%2}}})
		}
		return treeCase{T: root, Mut: g.N(7), At: g.N(64)}
	}
	d := g.offset()
	t := mk(deep, rng{d + g.N(3), d + 3 + g.N(40)})
	if f := g.stretch(); d == 0 && f > 1 {
		var all []*treeNode
		t.all(&all)
		for _, n := range all {
			n.S.R.A *= f
			n.S.R.B *= f
		}
	}
	return treeCase{T: t, Mut: g.N(7), At: g.N(64)}
}

func (t *treeNode) node() *tok.Node {
	n := &tok.Node{Segment: t.S.seg()}
	for _, c := range t.L {
		n.Nodes = append(n.Nodes, c.node())
	}
	return n
}

func (t *treeNode) all(out *[]*treeNode) {
	*out = append(*out, t)
	for _, c := range t.L {
		c.all(out)
	}
}

func (t *treeNode) clone() *treeNode {
	c := &treeNode{S: t.S}
	for _, x := range t.L {
		c.L = append(c.L, x.clone())
	}
	return c
}

func (t *treeNode) show() string {
	s := t.S.String() + "("
	for _, c := range t.L {
		s += c.show()
	}
	return s + ")"
}

func runTree(c treeCase, o *Obs) {
	g := &tok.Graph{Root: c.T.node()}
	var lines []string
	var leafs []segm
	var walk func(t *treeNode, path string, i int)
	walk = func(t *treeNode, path string, i int) {
		path += strconv.Itoa(i) + "." + t.S.String()
		lines = append(lines, path+" "+strconv.Itoa(t.S.R.B-t.S.R.A))
		for j, x := range t.L {
			walk(x, path+";", j+1)
		}
		if len(t.L) == 0 {
			leafs = append(leafs, t.S)
		}
	}
	walk(c.T, "", 1)
	if len(lines) > 3 {
		o.NonTrivial()
	}
	want := strings.Join(lines, "\n") + "\n"
	if got := g.FlameStack(); got != want {
		o.Fail("flame stack of %s is %q, want %q", c.T.show(), got, want)
		return
	}
	var gl []segm
	for _, s := range g.Leafs() {
		gl = append(gl, segOf(s))
	}
	if fmt.Sprint(gl) != fmt.Sprint(leafs) {
		o.Fail("leafs of %s are %v, want %v", c.T.show(), gl, leafs)
		return
	}
	// equality
	m := c.T.clone()
	var list []*treeNode
	m.all(&list)
	x := list[c.At%len(list)]
	switch c.Mut {
	case 1:
		x.S.Info += "x"
	case 2:
		x.S.R.B++
	case 3:
		x.L = append(x.L, &treeNode{S: segm{"n", rng{x.S.R.B, x.S.R.B}}})
	case 4:
		if len(x.L) > 0 {
			x.L = x.L[:len(x.L)-1]
		}
	case 5:
		if len(x.L) > 1 {
			x.L[0], x.L[1] = x.L[1], x.L[0]
		}
	case 6: // the last child moves below the one before it
		if k := len(x.L); k > 1 {
			x.L[k-2].L = append(x.L[k-2].L, x.L[k-1])
			x.L = x.L[:k-1]
		}
	}
	same := m.show() == c.T.show()
	o.LabelIf(!same, "different graphs")
	h := &tok.Graph{Root: m.node()}
	if g.Equal(h) != same || h.Equal(g) != same {
		o.Fail("%s and %s: Equal is %v / %v, want %v", c.T.show(), m.show(), g.Equal(h), h.Equal(g), same)
	}
}

func init() {
	register(&Prop{ID: "C19", Families: []Family{
		Fam("tokens", 200000, 5000000, "the tokens overlap or touch", genTok, runTok),
	}})
	register(&Prop{ID: "C20", Families: []Family{
		Fam("laminar", 100000, 3000000, "more than three segments, some nested", genSort, runSort),
	}})
	register(&Prop{ID: "C21", Families: []Family{
		Fam("cuts", 150000, 4000000, "at least one segment", genCut, runCut),
	}})
	register(&Prop{ID: "C22", Assume: []string{"for equal or empty tokens the parent is not prescribed, only the stated shape"}, Families: []Family{
		Fam("histories", 100000, 3000000, "more than two accepted segments", genGraph, runGraph),
		Fam("permutations", 40000, 1000000, "more than three segments", genPerm, runPerm),
	}})
	register(&Prop{ID: "C23", Families: []Family{
		Fam("trees", 100000, 2000000, "more than three nodes", genTree, runTree),
	}})
}
