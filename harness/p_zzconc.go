package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/aiq/tok"
)

// ------------------------------------------------------------------------ C30

// job is one reading (or sorting) with instances of its own.
type job struct {
	Kind int // 0 expression, 1 grammar, 2 scanner operations, 3 segments
	P    *Prog
	Text Str
	Pos  int
	G    int
	Ops  []Op
	Segs []segm
}

type concCase struct {
	Jobs   []job
	Rounds int
	Every  int
}

func genJob(g *G, shared bool) job {
	j := job{Kind: g.N(4)}
	switch j.Kind {
	case 0:
		o := allOpts()
		o.maxNodes = 30
		j.P = genProg(g, o)
		t, pos := genInput(g, j.P, true)
		j.Text, j.Pos = Str(t), pos
	case 1:
		j.G = g.N(3)
		t := g.gramText(j.G)
		if len(t) > 250 {
			t = t[:250]
		}
		j.Text = Str(t)
	case 2:
		c := genSeq(g)
		if len(c.Ops) > 60 {
			c.Ops = c.Ops[:60]
		}
		j.Text, j.Ops = c.Text, c.Ops
	case 3:
		laminar(g, rng{0, g.Range(1, 60)}, g.N(5), false, g.Bool(), &j.Segs)
		shuffle(g, j.Segs)
	}
	return j
}

// fine tells whether the job is small enough and defined.
func (j *job) fine() bool {
	if j.Kind != 0 {
		return true
	}
	m := &ref{p: j.P, text: string(j.Text), env: map[int]string{}, budget: 3000, ruleObs: 7}
	_, _, _, over := m.run(j.Pos)
	return !over && !m.unstable && !m.dangle
}

// run does the job and tells everything about it; hook is called by the callbacks.
func (j *job) run(hook func()) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(harnessError); ok {
				panic(e)
			}
			res = fmt.Sprintf("panic %v", r)
		}
	}()
	var sb strings.Builder
	text := string(j.Text)
	switch j.Kind {
	case 0:
		b := buildProg(j.P, buildOpts{rules: 7})
		b.hook = hook
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(j.Pos))
		s.Tracker = b.basket
		err := s.Use(b.root)
		fmt.Fprintf(&sb, "%s: %v at %d, mapped %v, picked %s, %s, log", b.root.What(), err, s.Mark(), b.maps, b.basket, strings.Join(tok.GrammarLines(b.rules), "|"))
		for _, e := range b.log.Entries {
			fmt.Fprintf(&sb, " %v-%d %v", e, e.ExitAt, e.Error)
		}
	case 1:
		gr := newGrammar(j.G)
		log := tok.MonitorGrammar(gr)
		s := tok.NewScanner(text)
		n := 0
		for _, r := range gr.Grammar() {
			r.Map(func(t tok.Token) {
				n++
				fmt.Fprintf(&sb, "%v ", t)
				if hook != nil && n < 40 {
					hook()
				}
			})
		}
		b := s.NewBasketFor(gr)
		err := s.Use(gr)
		fmt.Fprintf(&sb, "%s: %v at %d, picked %s, %d entries ", gr.What(), err, s.Mark(), b, len(log.Entries))
		sb.WriteString(tok.BuildGraph("g", b.Picked()).FlameStack())
	case 2:
		s := tok.NewScanner(text)
		for _, op := range j.Ops {
			r := op.apply(s)
			l, c := s.LineCol(4)
			fmt.Fprintf(&sb, "%v at %d %d:%d ", r, s.Mark(), l, c)
			if hook != nil {
				hook()
			}
		}
	case 3:
		var segs []tok.Segment
		for _, x := range j.Segs {
			segs = append(segs, x.seg())
		}
		g := tok.NewGraph("g")
		for _, x := range segs {
			g, _ = g.Append(x)
			if hook != nil {
				hook()
			}
		}
		tok.SortSegments(segs)
		cut, err := tok.Segment{Info: "all", Token: tok.MakeToken(0, 100)}.Segmentate(segs)
		fmt.Fprintf(&sb, "%v %v %v %s %v", segs, cut, err, g.FlameStack(), g.Leafs())
		tok.SortSegmentsByOrder(segs, []string{"b", "", "a"})
		fmt.Fprintf(&sb, " %v", segs)
	}
	return sb.String()
}

func genConc(g *G) concCase {
	c := concCase{Rounds: 1 + g.N(4), Every: 1 + g.N(5)}
	for n := 2 + g.N(3); n > 0; n-- {
		c.Jobs = append(c.Jobs, genJob(g, false))
	}
	if g.Bool() { // the same work twice
		c.Jobs = append(c.Jobs, c.Jobs[0])
	}
	return c
}

func (c *concCase) alone(o *Obs) []string {
	var want []string
	for i := range c.Jobs {
		if !c.Jobs[i].fine() {
			o.Skip("too large")
			return nil
		}
		o.Label([]string{"expression", "grammar", "operations", "segments"}[c.Jobs[i].Kind])
		w := c.Jobs[i].run(nil)
		if len(w) > 60 {
			o.NonTrivial()
		}
		want = append(want, w)
	}
	return want
}

// runConc does the jobs at the same time.
func runConc(c concCase, o *Obs) {
	want := c.alone(o)
	if want == nil {
		return
	}
	got := make([][]string, len(c.Jobs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range c.Jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for r := 0; r < c.Rounds; r++ {
				got[i] = append(got[i], c.Jobs[i].run(nil))
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range got {
		for _, x := range got[i] {
			if x != want[i] {
				o.Fail("job %d of %d gives at the same time as the others\n%s\nand alone\n%s", i, len(c.Jobs), x, want[i])
				return
			}
		}
	}
}

// runNested does the other jobs inside the callbacks of the first.
func runNested(c concCase, o *Obs) {
	want := c.alone(o)
	if want == nil {
		return
	}
	calls, inside, k := 0, 0, 0
	var hook func()
	hook = func() {
		calls++
		if calls%c.Every != 0 || inside >= 2 || k > 30 {
			return
		}
		inside++
		k++
		i := 1 + k%(len(c.Jobs)-1)
		if x := c.Jobs[i].run(hook); x != want[i] {
			o.Fail("job %d inside a callback of another gives\n%s\nand alone\n%s", i, x, want[i])
		}
		inside--
	}
	x := c.Jobs[0].run(hook)
	if x != want[0] {
		o.Fail("with %d other jobs done in its callbacks the job gives\n%s\nand alone\n%s", k, x, want[0])
	}
	o.LabelIf(k > 0, "done inside")
}

// ---------------------------------------------------- one reader, many scanners

type sharedCase struct {
	P      *Prog // nil: the JSON grammar
	Texts  []Str
	Rounds int
}

func genShared(g *G) sharedCase {
	c := sharedCase{Rounds: 1 + g.N(4)}
	n := 2 + g.N(4)
	if g.Chance(3) {
		for ; n > 0; n-- {
			t := g.gramText(0)
			if len(t) > 250 {
				t = t[:250]
			}
			c.Texts = append(c.Texts, Str(t))
		}
		return c
	}
	o := progOpts{named: true, observers: 2, rules: true, weird: true, maxNodes: 40}
	c.P = genProg(g, o)
	c.P.walk(func(n *Node) {
		switch n.Op {
		case "int", "uint", "bool": // these keep the value
			*n = Node{Op: "digit"}
		}
	})
	for ; n > 0; n-- {
		t, pos := genInput(g, c.P, true)
		c.Texts = append(c.Texts, Str(t[pos:]))
	}
	return c
}

func runShared(c sharedCase, o *Obs) {
	var r tok.Reader
	if c.P == nil {
		r = newGrammar(0)
		o.Label("json grammar")
	} else {
		for _, t := range c.Texts {
			m := &ref{p: c.P, text: string(t), env: map[int]string{}, budget: 3000}
			if _, _, _, over := m.run(0); over || m.unstable {
				o.Skip("too large")
				return
			}
		}
		r = buildProg(c.P, buildOpts{}).root
	}
	read := func(r tok.Reader, text string) (res string) {
		defer func() {
			if p := recover(); p != nil {
				res = fmt.Sprintf("panic %v", p)
			}
		}()
		s := tok.NewScanner(text)
		k, err := s.TokenizeUse(r)
		return fmt.Sprintf("%v %v %d %s", k, err, s.Mark(), r.What())
	}
	var want []string
	moved := false
	for _, t := range c.Texts {
		w := read(r, string(t))
		moved = moved || !strings.HasPrefix(w, "[0-0)")
		want = append(want, w)
	}
	if moved {
		o.NonTrivial()
	}
	got := make([][]string, len(c.Texts))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range c.Texts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k := 0; k < c.Rounds; k++ {
				got[i] = append(got[i], read(r, string(c.Texts[i])))
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range got {
		for _, x := range got[i] {
			if x != want[i] {
				o.Fail("reader shared by %d readings at the same time, text %q: %s, alone %s", len(c.Texts), string(c.Texts[i]), x, want[i])
				return
			}
		}
	}
	// the same reader inside one of its own readings
	n := 0
	hooked := tok.Seq(tok.Wrap("hook", func(s *tok.Scanner) error {
		n++
		i := n % len(c.Texts)
		if x := read(r, string(c.Texts[i])); x != want[i] {
			o.Fail("reader used inside its own reading, text %q: %s, alone %s", string(c.Texts[i]), x, want[i])
		}
		return nil
	}), r)
	for i, t := range c.Texts {
		s := tok.NewScanner(string(t))
		k, err := s.TokenizeUse(hooked)
		if x := fmt.Sprintf("%v %v %d %s", k, err, s.Mark(), r.What()); x != want[i] {
			o.Fail("reader with a reading of itself in front, text %q: %s, alone %s", string(t), x, want[i])
		}
	}
}

func init() {
	register(&Prop{ID: "C30", Journal: true, Families: []Family{
		Fam("nested", 3000, 300000, "a job that reported something", genConc, runNested),
		Fam("concurrent", 2500, 200000, "a job that reported something", genConc, runConc),
		Fam("shared reader", 3000, 250000, "something was read", genShared, runShared),
	}, Assume: []string{"the schedules are those the Go scheduler makes on 8 cores, watched by the race detector"}})
}
