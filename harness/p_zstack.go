package main

import (
	"fmt"
	"slices"

	"github.com/aiq/tok"
)

// ---------------------------------- C11-C14: several observers on the same rules

// watcher is an observer of a rule.
type watcher struct {
	Rule int
	Kind int // 0 pick, 1 map, 2 monitor (first log), 3 monitor (second log)
	How  int // by the method of the rule, by the function, by the log or basket
	When int // before the first reading (0) or between the two (1)
}

type stackCase struct {
	P       *Prog
	Text    Str
	Pos     int
	Watches []watcher
}

func genStack(g *G) stackCase {
	o := progOpts{rules: true, janus: g.Chance(6), weird: g.Chance(4), observers: pick(g, []int{0, 0, 5}), picks: true, maps: true, monitors: true, named: true, maxNodes: 25}
	p := genProg(g, o)
	for i := 0; i < 6 && len(p.Rules) == 0; i++ {
		p = genProg(g, o)
	}
	if len(p.Rules) == 0 {
		p = &Prog{Rules: []*Node{p.Root}, Root: &Node{Op: "rule"}}
	} else if g.Chance(3) {
		// the reader of a rule is another rule
		p.Rules = append(p.Rules, &Node{Op: "rule", N: g.N(len(p.Rules))})
		if p.Root.Op == "rule" || g.Bool() {
			p.Root = &Node{Op: "seq", L: []*Node{{Op: "opt", L: []*Node{{Op: "rule", N: len(p.Rules) - 1}}}, p.Root}}
		}
	}
	c := stackCase{P: p}
	t, pos := genInput(g, p, true)
	c.Text, c.Pos = Str(t), pos
	for i := 1 + g.N(6); i > 0; i-- {
		c.Watches = append(c.Watches, watcher{g.N(len(p.Rules)), g.N(4), g.N(3), g.weighted(3, 1)})
	}
	return c
}

var watchOps = []string{"pick", "map", "monitor", "monitor"}

// watchName is the name under which an observer of a rule reports.
func watchName(p *Prog, i int, w watcher) string {
	if w.Kind == 1 {
		return fmt.Sprintf("%s#%d", p.name(w.Rule), i)
	}
	return p.name(w.Rule)
}

// watchedProg is the program with the observers written out; log tells which log counts.
func watchedProg(c *stackCase, when, log int) *Prog {
	p := &Prog{Root: c.P.Root, Names: c.P.Names}
	p.Rules = append(p.Rules, c.P.Rules...)
	if log == 1 {
		// the monitors of the expression belong to the first log
		p.Root = stripOps(p.Root, "monitor")
		for i := range p.Rules {
			p.Rules[i] = stripOps(p.Rules[i], "monitor")
		}
	}
	for w := 0; w <= when; w++ {
		for i, x := range c.Watches {
			if x.When != w || (x.Kind >= 2 && x.Kind-2 != log) {
				continue
			}
			p.Rules[x.Rule] = &Node{Op: watchOps[x.Kind], S: Str(watchName(c.P, i, x)), L: []*Node{p.Rules[x.Rule]}}
		}
	}
	return p
}

func stripOps(n *Node, op string) *Node {
	if n.Op == op {
		return stripOps(n.L[0], op)
	}
	c := *n
	c.L = nil
	for _, x := range n.L {
		c.L = append(c.L, stripOps(x, op))
	}
	return &c
}

func runStack(id string) func(c stackCase, o *Obs) {
	return func(c stackCase, o *Obs) {
		b := buildProg(c.P, buildOpts{})
		logs := []*tok.Log{b.log, {}}
		kinds := map[int]bool{}
		perRule := map[int]int{}
		for _, w := range c.Watches {
			kinds[w.Kind] = true
			perRule[w.Rule]++
		}
		for _, n := range perRule {
			if n > 1 {
				o.Label("several observers on one rule")
				o.NonTrivial()
			}
		}
		segs := func(l []*refEntry) (res []refSeg) {
			for _, e := range l {
				res = append(res, refSeg{fmt.Sprintf("%s/%d/%v", e.info, e.level, e.err == nil), e.enter, e.exit})
			}
			return
		}
		for when := 0; when < 2; when++ {
			for i, w := range c.Watches {
				if w.When != when {
					continue
				}
				r := b.rules[w.Rule]
				name := r.Name
				switch w.Kind {
				case 0:
					switch w.How {
					case 0:
						r.Pick(b.basket)
					case 1:
						r.Reader = tok.Pick(r.Reader, b.basket, name)
					case 2:
						b.basket.PickWith(r)
					}
				case 1:
					info := watchName(c.P, i, w)
					f := func(t tok.Token) { b.mapped(info, t) }
					if w.How == 0 {
						r.Map(f)
					} else {
						r.Reader = tok.Map(r.Reader, f)
					}
				default:
					l := logs[w.Kind-2]
					switch w.How {
					case 0:
						r.Monitor(l)
					case 1:
						r.Reader = tok.Monitor(r.Reader, l, name)
					case 2:
						l.Monitor(r)
					}
				}
			}
			s := tok.NewScanner(string(c.Text))
			s.ToMarker(tok.Marker(c.Pos))
			b.basket.Update(-1)
			s.Tracker = b.basket
			b.maps = nil
			logs[0].Reset()
			logs[1].Reset()
			var ms [2]*ref
			var ok bool
			var end int
			for l := range ms {
				m := &ref{p: watchedProg(&c, when, l), text: string(c.Text), env: map[int]string{}, budget: refBudget}
				var over bool
				ok, end, _, over = m.run(c.Pos)
				if over || m.unstable || (m.dangle && when > 0) {
					o.Skip("too large or an end without begin")
					return
				}
				ms[l] = m
			}
			err := s.Use(b.root)
			where := fmt.Sprintf("%s on %q from %d with the observers %v", c.P.what(c.P.Root), string(c.Text), c.Pos, c.Watches)
			if (err == nil) != ok || (ok && int(s.Mark()) != end) {
				if id == "C14" {
					o.Fail("%s: error %v, ends at %d, want success=%v at %d", where, err, s.Mark(), ok, end)
				} else {
					o.Skip("other result")
				}
				return
			}
			switch id {
			case "C11":
				got, want := asRefSegs(b.basket.Picked()), ms[0].picks
				if !equalSegs(nonEmpty(got), nonEmpty(want)) || !isSubsequence(want, got) {
					o.Fail("%s: basket has %s, want %s", where, showSegs(got), showSegs(want))
					return
				}
			case "C12":
				var got []refSeg
				for _, t := range b.maps {
					x, y := span(t.Tok)
					got = append(got, refSeg{t.Info, x, y})
				}
				if !equalSegs(sortedSet(got), sortedSet(ms[0].maps)) {
					o.Fail("%s: functions got %s, want %s", where, showSegs(got), showSegs(ms[0].maps))
					return
				}
				// the functions of one rule get the same calls
				calls := map[string]string{}
				for _, t := range b.maps {
					calls[t.Info] += t.Tok.String()
				}
				first := map[int]string{}
				for i, w := range c.Watches {
					if w.Kind != 1 || w.When > when {
						continue
					}
					l := calls[watchName(c.P, i, w)]
					if f, is := first[w.Rule]; is && f != l {
						o.Fail("%s: the functions of rule %s got %s and %s", where, c.P.name(w.Rule), f, l)
						return
					}
					first[w.Rule] = l
				}
				// one after the other, the inner ones first: what they wrap succeeded first
				for rule := range first {
					var order []string
					for w := 0; w <= when; w++ {
						for i, x := range c.Watches {
							if x.Kind == 1 && x.Rule == rule && x.When == w {
								order = append(order, watchName(c.P, i, x))
							}
						}
					}
					k := 0
					for _, t := range b.maps {
						if !slices.Contains(order, t.Info) {
							continue
						}
						if t.Info != order[k%len(order)] {
							o.Fail("%s: the functions of rule %s are called in the order %v, want %v each time", where, c.P.name(rule), b.maps, order)
							return
						}
						k++
					}
				}
			case "C13":
				for l := range ms {
					var got []refSeg
					for _, e := range logs[l].Entries {
						got = append(got, refSeg{fmt.Sprintf("%s/%d/%v", e.Info, e.Level, e.Error == nil), e.EnterAt, e.ExitAt})
					}
					want := segs(ms[l].log)
					if !equalSegs(sortedSet(got), sortedSet(want)) {
						o.Fail("%s: log %d has %s, want %s", where, l, showSegs(got), showSegs(want))
						return
					}
					if why := nestingOf(logs[l]); why != "" {
						o.Fail("%s: log %d has %s: %s", where, l, showSegs(got), why)
						return
					}
				}
			}
			o.LabelIf(when == 1, "second reading")
		}
	}
}

// nestingOf checks that the levels of a log rise by at most one and that the ranges of entries fit.
func nestingOf(l *tok.Log) string {
	last := 0
	for i, e := range l.Entries {
		if e.Level < 1 || e.Level > last+1 {
			return fmt.Sprintf("entry %d has level %d behind level %d", i, e.Level, last)
		}
		last = e.Level
	}
	return ""
}

// runUncoupled: a basket that is not coupled to the scanner gets each success, as a mapped function does.
func runUncoupled(c stackCase, o *Obs) {
	b := buildProg(c.P, buildOpts{})
	m := &ref{p: c.P, text: string(c.Text), env: map[int]string{}, budget: refBudget}
	if _, _, _, over := m.run(c.Pos); over {
		o.Skip("too large")
		return
	}
	loose := &tok.Basket{}
	var want []refSeg
	seen := map[int]bool{}
	for _, w := range c.Watches {
		if seen[w.Rule] {
			continue
		}
		seen[w.Rule] = true
		r := b.rules[w.Rule]
		name := r.Name
		r.Map(func(t tok.Token) {
			x, y := span(t)
			want = append(want, refSeg{name, x, y})
		})
		if w.How == 1 {
			r.Reader = tok.Pick(r.Reader, loose, name)
		} else {
			r.Pick(loose)
		}
	}
	s := tok.NewScanner(string(c.Text))
	s.ToMarker(tok.Marker(c.Pos))
	switch c.Watches[0].Kind {
	case 0:
		s.Tracker = b.basket
		o.Label("another basket coupled")
	case 1:
		s.NewBasketFor(ruleList(b.rules))
		o.Label("a basket with the same rules coupled")
	case 2:
		s.Tracker = &lastMarker{}
		o.Label("another tracker coupled")
	default:
		o.Label("nothing coupled")
	}
	s.Use(b.root)
	if len(want) > 1 {
		o.NonTrivial()
	}
	if got := asRefSegs(loose.Picked()); !equalSegs(got, want) {
		o.Fail("%s on %q from %d with the observers %v: the basket that is not coupled has %s, the successes were %s", c.P.what(c.P.Root), string(c.Text), c.Pos, c.Watches, showSegs(got), showSegs(want))
	}
}

type lastMarker struct{ m tok.Marker }

func (l *lastMarker) Update(m tok.Marker) { l.m = m }

type ruleList []*tok.Rule

func (l ruleList) Read(s *tok.Scanner) error { return nil }
func (l ruleList) What() string              { return "rules" }
func (l ruleList) Grammar() []*tok.Rule      { return l }

func init() {
	add := func(id string, f Family) { props[id].Families = append(props[id].Families, f) }
	for _, id := range []string{"C11", "C12", "C13", "C14"} {
		add(id, Fam("stacked", 8000, 300000, "several observers on one rule", genStack, runStack(id)))
	}
	add("C11", Fam("not coupled", 6000, 200000, "at least two successes", genStack, runUncoupled))
}
