package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// progCase is a reader expression, a text and where to start.
type progCase struct {
	P    *Prog
	Text Str
	Pos  int
	Mode int
	Obs  int `json:",omitempty"` // observers on the rules, see buildOpts.rules
	N    int `json:",omitempty"`
	Huge int `json:",omitempty"` // budget of the reference, if not the usual one
}

const refBudget = 20000

func stepsFor(m *ref) int { return 200*m.steps + 20000 }

func genProgCase(g *G, o progOpts, modes int) progCase {
	p := genProg(g, o)
	text, pos := genInput(g, p, o.weird)
	return progCase{P: p, Text: Str(text), Pos: pos, Mode: g.N(modes)}
}

func (c *progCase) ref() *ref {
	if c.Huge > 0 {
		return &ref{p: c.P, text: string(c.Text), env: map[int]string{}, budget: c.Huge, ruleObs: c.Obs}
	}
	return &ref{p: c.P, text: string(c.Text), env: map[int]string{}, budget: refBudget + 40*min(len(c.Text), 1000), ruleObs: c.Obs}
}

func (c *progCase) scanner() *tok.Scanner {
	s := tok.NewScanner(string(c.Text))
	if !s.ToMarker(tok.Marker(c.Pos)) {
		panic(harnessError{"bad start position"})
	}
	return s
}

func progLabels(c *progCase, o *Obs, m *ref, ok bool) {
	c.P.walk(func(n *Node) { o.Label("op:" + n.Op) })
	o.LabelIf(ok, "read")
	o.LabelIf(!ok, "refused")
	o.LabelIf(m.back > 0, "gave something back")
	o.LabelIf(m.zero > 0, "repetition without progress")
	o.LabelIf(m.nested > 0, "nested")
}

func depth(n *Node) int {
	d := 0
	for _, c := range n.L {
		d = max(d, depth(c))
	}
	return d + 1
}

func allOpts() progOpts {
	return progOpts{observers: 2, picks: true, maps: true, monitors: true, named: true, janus: true, rules: true, wraps: true, weird: true}
}

// ------------------------------------------------------------------------ C07

func runC07(c progCase, o *Obs) {
	m := c.ref()
	ok, end, _, over := m.run(c.Pos)
	if over || m.unstable {
		o.Skip("too large")
		return
	}
	progLabels(&c, o, m, ok)
	if depth(c.P.Root) >= 2 && (end > c.Pos || m.back > 0) {
		o.NonTrivial()
	}
	bo := buildOpts{}
	if c.Mode&1 != 0 {
		bo.probes, bo.limit = true, stepsFor(m)
	}
	b := buildProg(c.P, bo)
	s := c.scanner()
	if c.Mode&2 != 0 {
		s.Tracker = b.basket
	}
	var err error
	if c.Mode&4 != 0 {
		err = s.Use(b.root)
	} else {
		err = b.root.Read(s)
	}
	if (err == nil) != ok {
		o.Fail("%s on %q from %d: got error %v, want success=%v (end %d)", c.P.what(c.P.Root), string(c.Text), c.Pos, err, ok, end)
		return
	}
	if ok && int(s.Mark()) != end {
		o.Fail("%s on %q from %d: ends at %d, want %d", c.P.what(c.P.Root), string(c.Text), c.Pos, s.Mark(), end)
	}
}

// ------------------------------------------------------------------------ C08

func runC08(c progCase, o *Obs) {
	m := c.ref()
	ok, _, _, over := m.run(c.Pos)
	if over || m.unstable {
		o.Skip("too large")
		return
	}
	progLabels(&c, o, m, ok)
	if m.back > 0 || (!ok && depth(c.P.Root) > 1) {
		o.NonTrivial()
	}
	b := buildProg(c.P, buildOpts{probes: c.Mode&1 != 0, limit: stepsFor(m)})
	s := c.scanner()
	text := string(c.Text)
	if c.Mode&2 != 0 {
		s.Tracker = b.basket
	}
	var err error
	var traced *string
	r := b.root
	entry := []string{"Read", "Use", "UseFunc", "TraceUse", "TraceUseFunc", "TokenizeUse", "CaptureUse", "At"}[(c.Mode>>2)%8]
	o.Label("entry:" + entry)
	switch entry {
	case "Read":
		err = r.Read(s)
	case "Use":
		err = s.Use(r)
	case "UseFunc":
		err = s.UseFunc(r.Read)
	case "TraceUse":
		var t string
		t, err = s.TraceUse(r)
		traced = &t
	case "TraceUseFunc":
		var t string
		t, err = s.TraceUseFunc(r.Read)
		traced = &t
	case "TokenizeUse":
		var t tok.Token
		t, err = s.TokenizeUse(r)
		if err == nil {
			x := s.Get(t)
			traced = &x
			if a, z := span(t); a != c.Pos || z != int(s.Mark()) {
				o.Fail("TokenizeUse(%s) on %q from %d: token %v, scanner at %d", r.What(), text, c.Pos, t, s.Mark())
				return
			}
		}
	case "CaptureUse":
		var t string
		t, err = s.CaptureUse(r)
		traced = &t
	case "At":
		err = tok.At(r).Read(s)
		if int(s.Mark()) != c.Pos {
			o.Fail("@%s on %q from %d: scanner moved to %d (error %v)", r.What(), text, c.Pos, s.Mark(), err)
			return
		}
	}
	if err != nil {
		if int(s.Mark()) != c.Pos {
			o.Fail("%s of %s on %q from %d failed (%v) but the scanner stands at %d", entry, r.What(), text, c.Pos, err, s.Mark())
		}
		return
	}
	if traced != nil && *traced != text[c.Pos:s.Mark()] {
		o.Fail("%s of %s on %q moved from %d to %d but returned %q", entry, r.What(), text, c.Pos, s.Mark(), *traced)
	}
}

// callCase nests callbacks that move arbitrarily and fail or not.
type callCase struct {
	Text Str
	Pos  int
	Call callNode
}

type callNode struct {
	Err  int
	Kind string
	Pre  []Op
	Sub  *callNode
	Post []Op
	Ok   bool
}

var callKinds = []string{"Scope", "Trace", "Tokenize", "Capture", "UseFunc", "TraceUseFunc", "Wrap", "Use", "TraceUse", "TokenizeUse", "CaptureUse", "Map", "Pick", "Seq", "Times", "Any", "SkipSeq", "At"}

type ownError struct{}

func (*ownError) Error() string { return "own" }

type ownReader struct{ f tok.ReadFunc }

func (r ownReader) Read(s *tok.Scanner) error { return r.f(s) }
func (ownReader) What() string                { return "own" }

func genCall(g *G) callCase {
	text := g.Text(30)
	var mk func(d int) callNode
	mk = func(d int) callNode {
		n := callNode{Kind: pick(g, callKinds), Ok: g.Bool(), Err: g.N(3)}
		for i := g.N(3); i > 0; i-- {
			n.Pre = append(n.Pre, g.Op(pick(g, allOps()), text, g.Pos(text)))
		}
		if d > 0 && g.Bool() {
			s := mk(d - 1)
			n.Sub = &s
		}
		for i := g.N(3); i > 0; i-- {
			n.Post = append(n.Post, g.Op(pick(g, allOps()), text, g.Pos(text)))
		}
		return n
	}
	return callCase{Text: Str(text), Pos: g.Pos(text), Call: mk(3)}
}

func runCall(c callCase, o *Obs) {
	s := tok.NewScanner(string(c.Text))
	s.ToMarker(tok.Marker(c.Pos))
	moved := false
	var call func(n *callNode) bool
	call = func(n *callNode) bool {
		before := int(s.Mark())
		inner := before
		f := func() bool {
			for _, op := range n.Pre {
				op.apply(s)
			}
			if n.Sub != nil {
				call(n.Sub)
			}
			for _, op := range n.Post {
				op.apply(s)
			}
			inner = int(s.Mark())
			return n.Ok
		}
		rf := func(*tok.Scanner) error {
			if f() {
				return nil
			}
			switch n.Err {
			case 1:
				return s.ErrorFor("own")
			case 2:
				return &ownError{}
			}
			return fmt.Errorf("no")
		}
		own := ownReader{rf}
		lo, hi := before, before
		ok := false
		var got *string
		switch n.Kind {
		case "Scope":
			ok = s.Scope(f)
		case "Trace":
			t, k := s.Trace(f)
			got, ok = &t, k
		case "Tokenize":
			t, k := s.Tokenize(f)
			x := s.Get(t)
			got, ok = &x, k
			a, z := span(t)
			if k && (a != min(before, inner) || z != max(before, inner)) {
				o.Fail("Tokenize from %d to %d returned %v", before, inner, t)
			}
		case "Capture":
			t, k := s.Capture(f)
			got, ok = &t, k
		case "UseFunc":
			ok = s.UseFunc(rf) == nil
		case "TraceUseFunc":
			t, err := s.TraceUseFunc(rf)
			got, ok = &t, err == nil
		case "Wrap":
			ok = tok.Wrap("w", rf).Read(s) == nil
		case "Use":
			ok = s.Use(own) == nil
		case "TraceUse":
			t, err := s.TraceUse(own)
			got, ok = &t, err == nil
		case "TokenizeUse":
			t, err := s.TokenizeUse(own)
			x := s.Get(t)
			got, ok = &x, err == nil
			a, z := span(t)
			if ok && (a != min(before, inner) || z != max(before, inner)) {
				o.Fail("TokenizeUse from %d to %d returned %v", before, inner, t)
			}
		case "CaptureUse":
			t, err := s.CaptureUse(own)
			got, ok = &t, err == nil
		case "Map":
			x := ""
			ok = tok.Map(own, func(t tok.Token) { x = s.Get(t) }).Read(s) == nil
			got = &x
		case "Pick":
			b := &tok.Basket{}
			ok = tok.Pick(own, b, "p").Read(s) == nil
			x := ""
			for _, seg := range b.Picked() {
				x += s.Get(seg.Token)
			}
			got = &x
		case "Seq":
			ok = tok.Seq(own).Read(s) == nil
		case "Times":
			ok = tok.Times(1, own).Read(s) == nil
		case "Any":
			ok = tok.Any(own).Read(s) == nil
		case "SkipSeq":
			ok = tok.SkipSeq(tok.Lit(""), own).Read(s) == nil
		case "At":
			ok = tok.At(own).Read(s) == nil
			if int(s.Mark()) != before {
				o.Fail("At moved from %d to %d", before, s.Mark())
			}
			inner = before
		}
		lo, hi = min(before, inner), max(before, inner)
		if inner != before {
			moved = true
		}
		if ok != n.Ok {
			o.Fail("%s of a callback that returns %v returned %v", n.Kind, n.Ok, ok)
		}
		if !n.Ok && int(s.Mark()) != before {
			o.Fail("%s of a failing callback that moved from %d to %d left the scanner at %d", n.Kind, before, inner, s.Mark())
		}
		if n.Ok && int(s.Mark()) != inner {
			o.Fail("%s of a successful callback that moved from %d to %d left the scanner at %d", n.Kind, before, inner, s.Mark())
		}
		if n.Ok && got != nil && *got != string(c.Text)[lo:hi] {
			o.Fail("%s from %d to %d returned %q, want %q", n.Kind, before, inner, *got, string(c.Text)[lo:hi])
		}
		o.Label(fmt.Sprintf("%s:%v", n.Kind, n.Ok))
		return ok
	}
	call(&c.Call)
	if moved {
		o.NonTrivial()
	}
}

// ------------------------------------------------------------------------ C09

func runC09(c progCase, o *Obs) {
	m := c.ref()
	ok, _, _, over := m.run(c.Pos)
	if over {
		o.Skip("too large")
		return
	}
	progLabels(&c, o, m, ok)
	if m.zero > 0 || m.steps > 20 {
		o.NonTrivial()
	}
	b := buildProg(c.P, buildOpts{probes: true, limit: stepsFor(m)})
	s := c.scanner()
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(stepLimit); is {
				o.Fail("%s on %q from %d: stopped after %d reads of its parts, %d are enough", c.P.what(c.P.Root), string(c.Text), c.Pos, b.steps, m.steps)
				return
			}
			panic(r)
		}
	}()
	b.root.Read(s)
}

// ------------------------------------------------------------------------ C10

func runC10(c progCase, o *Obs) {
	m := c.ref()
	ok, _, want, over := m.run(c.Pos)
	if over || m.unstable {
		o.Skip("too large")
		return
	}
	if ok {
		o.Skip("read")
		return
	}
	progLabels(&c, o, m, ok)
	b := buildProg(c.P, buildOpts{probes: c.Mode&1 != 0, limit: stepsFor(m)})
	s := c.scanner()
	err := s.Use(b.root)
	text := string(c.Text)
	where := fmt.Sprintf("%s on %q from %d", c.P.what(c.P.Root), text, c.Pos)
	if err == nil {
		o.Skip("other result") // C07 reports that
		return
	}
	re, is := err.(tok.ReadError)
	if is && (int(re.Marker) < c.Pos || int(re.Marker) > len(text)) {
		o.Fail("%s: error marker %d is outside the text read", where, re.Marker)
		return
	}
	if want.foreign {
		o.Label("foreign error")
		return
	}
	if !is {
		o.Fail("%s: error %v (%T) is no ReadError, want one at %d", where, err, err, want.marker)
		return
	}
	if want.marker > c.Pos || depth(c.P.Root) > 2 {
		o.NonTrivial()
	}
	o.LabelIf(want.marker > c.Pos, "deep error")
	if int(re.Marker) != want.marker {
		o.Fail("%s: error %v has marker %d, want %d", where, err, re.Marker, want.marker)
		return
	}
	if want.whats != nil {
		found := false
		for _, w := range want.whats {
			found = found || w == re.What || strings.Contains(w, invalidMark)
		}
		if !found {
			o.Fail("%s: error at %d is about %q, want one of %q", where, re.Marker, re.What, want.whats)
			return
		}
	}
	msg := err.Error()
	if msg != errMessage(re.What, int(re.Marker)) {
		o.Fail("%s: message %q, want %q", where, msg, errMessage(re.What, int(re.Marker)))
	}
}

func errMessage(what string, at int) string {
	return fmt.Sprintf("not able to read %s at %d", what, at)
}

// ------------------------------------------------------------------------ C11

func nonEmpty(l []refSeg) []refSeg {
	var res []refSeg
	for _, s := range l {
		if s.from < s.to {
			res = append(res, s)
		}
	}
	return res
}

func asRefSegs(l []tok.Segment) []refSeg {
	var res []refSeg
	for _, s := range l {
		a, b := span(s.Token)
		res = append(res, refSeg{s.Info, a, b})
	}
	return res
}

func equalSegs(a, b []refSeg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func isSubsequence(sub, l []refSeg) bool {
	i := 0
	for _, s := range l {
		if i < len(sub) && sub[i] == s {
			i++
		}
	}
	return i == len(sub)
}

// runC11 reads up to N+1 times with the same basket.
func runC11(c progCase, o *Obs) {
	m := c.ref()
	b := buildProg(c.P, buildOpts{probes: c.Mode&1 != 0, limit: 0, rules: c.Obs})
	var s *tok.Scanner
	pos := c.Pos
	if c.Mode&2 != 0 && c.Obs&1 != 0 && c.P.count("pick") == 0 {
		b = buildProg(c.P, buildOpts{rules: c.Obs &^ 1})
		s = c.scanner()
		b.basket = s.NewBasketFor(progGrammar{b})
	} else {
		s = c.scanner()
		s.Tracker = b.basket
	}
	for i := 0; i <= c.N; i++ {
		before := len(m.picks)
		ok, end, _, over := m.run(pos)
		if over || m.unstable {
			o.Skip("too large")
			return
		}
		err := s.Use(b.root)
		if (err == nil) != ok || (ok && int(s.Mark()) != end) {
			o.Skip("other result") // C07 reports that
			return
		}
		if i == 0 {
			progLabels(&c, o, m, ok)
		}
		got, want := asRefSegs(b.basket.Picked()), m.picks
		where := fmt.Sprintf("%s on %q from %d, read %d", c.P.what(c.P.Root), string(c.Text), c.Pos, i+1)
		if !equalSegs(nonEmpty(got), nonEmpty(want)) {
			o.Fail("%s: basket has %s, want %s", where, showSegs(got), showSegs(want))
			return
		}
		if !isSubsequence(want, got) {
			o.Fail("%s: basket has %s, does not contain %s", where, showSegs(got), showSegs(want))
			return
		}
		if len(nonEmpty(m.picks[before:])) > 0 || m.dropped > 0 {
			o.NonTrivial()
		}
		o.LabelIf(m.dropped > 0, "picked segments given up")
		o.LabelIf(m.dropped > 0 && ok && len(nonEmpty(m.picks[before:])) > 0, "given up and kept")
		o.LabelIf(len(nonEmpty(m.picks)) > 1, "several segments")
		if !ok {
			break
		}
		pos = end
	}
}

// ------------------------------------------------------------------------ C12

func sortedSet(l []refSeg) []refSeg {
	m := map[refSeg]bool{}
	var res []refSeg
	for _, s := range l {
		if !m[s] {
			m[s] = true
			res = append(res, s)
		}
	}
	sort.Slice(res, func(i, j int) bool {
		a, b := res[i], res[j]
		if a.from != b.from {
			return a.from < b.from
		}
		if a.to != b.to {
			return a.to < b.to
		}
		return a.info < b.info
	})
	return res
}

func runC12(c progCase, o *Obs) {
	m := c.ref()
	ok, end, _, over := m.run(c.Pos)
	if over || m.unstable {
		o.Skip("too large")
		return
	}
	progLabels(&c, o, m, ok)
	b := buildProg(c.P, buildOpts{spies: c.Mode&1 != 0, rules: c.Obs})
	s := c.scanner()
	if c.Mode&2 != 0 {
		s.Tracker = b.basket
	}
	err := s.Use(b.root)
	if (err == nil) != ok || (ok && int(s.Mark()) != end) {
		o.Skip("other result")
		return
	}
	var got []refSeg
	for _, t := range b.maps {
		x, y := span(t.Tok)
		got = append(got, refSeg{t.Info, x, y})
	}
	where := fmt.Sprintf("%s on %q from %d", c.P.what(c.P.Root), string(c.Text), c.Pos)
	if c.Mode&1 != 0 && !equalSegs(got, b.spied) {
		o.Fail("%s: functions got %s, the readers read %s", where, showSegs(got), showSegs(b.spied))
		return
	}
	if !equalSegs(sortedSet(got), sortedSet(m.maps)) {
		o.Fail("%s: functions got %s, want %s", where, showSegs(got), showSegs(m.maps))
		return
	}
	if len(m.maps) > 1 && len(nonEmpty(m.maps)) > 0 {
		o.NonTrivial()
	}
}

// ------------------------------------------------------------------------ C13

func checkLog(o *Obs, where string, l *tok.Log, visits []*spyEntry) bool {
	show := func() string {
		var p []string
		for _, e := range l.Entries {
			p = append(p, fmt.Sprintf("{%d %s %d-%d %v}", e.Level, e.Info, e.EnterAt, e.ExitAt, e.Error))
		}
		return strings.Join(p, " ")
	}
	if len(l.Entries) != len(visits) {
		o.Fail("%s: log has %d entries, want %d: %s", where, len(l.Entries), len(visits), show())
		return false
	}
	for i, e := range l.Entries {
		v := visits[i]
		if e.Info != v.info || e.EnterAt != v.enter || e.ExitAt != v.exit || e.Level != v.level {
			o.Fail("%s: entry %d is {%d %s %d-%d}, want {%d %s %d-%d}", where, i, e.Level, e.Info, e.EnterAt, e.ExitAt, v.level, v.info, v.enter, v.exit)
			return false
		}
		if (e.Error == nil) != (v.err == nil) || (e.Error != nil && e.Error.Error() != v.err.Error()) {
			o.Fail("%s: entry %d (%s) has error %v, the read returned %v", where, i, e.Info, e.Error, v.err)
			return false
		}
	}
	return true
}

// entryLine is the printed form of an entry: the level, a dot per level, the position and the name.
func entryLine(e tok.LogEntry) string {
	return fmt.Sprintf("%d%s@ %d %s", e.Level, strings.Repeat(".", e.Level), e.EnterAt, e.Info)
}

func runC13(c progCase, o *Obs) {
	m := c.ref()
	ok, end, _, over := m.run(c.Pos)
	if over || m.unstable {
		o.Skip("too large")
		return
	}
	progLabels(&c, o, m, ok)
	spies := c.Mode&4 == 0
	b := buildProg(c.P, buildOpts{spies: spies, rules: c.Obs})
	s := c.scanner()
	err := s.Use(b.root)
	where := fmt.Sprintf("%s on %q from %d", c.P.what(c.P.Root), string(c.Text), c.Pos)
	if (err == nil) != ok || (ok && int(s.Mark()) != end) {
		o.Skip("other result")
		return
	}
	if spies && !checkLog(o, where, b.log, b.visits) {
		return
	}
	// the same reads as in the definition, however often
	var got, want []refSeg
	for _, e := range b.log.Entries {
		got = append(got, refSeg{fmt.Sprintf("%s/%d/%v", e.Info, e.Level, e.Error == nil), e.EnterAt, e.ExitAt})
	}
	deep := 0
	for _, e := range m.log {
		want = append(want, refSeg{fmt.Sprintf("%s/%d/%v", e.info, e.level, e.err == nil), e.enter, e.exit})
		deep = max(deep, e.level)
	}
	if !equalSegs(sortedSet(got), sortedSet(want)) {
		o.Fail("%s: log has %s, want %s", where, showSegs(got), showSegs(want))
		return
	}
	if deep > 1 && len(m.log) > 3 {
		o.NonTrivial()
	}
	o.LabelIf(len(m.log) > 16, "more than 16 entries")
	o.LabelIf(len(m.log) > 64, "more than 64 entries")
	o.LabelIf(deep > 3, "deep")
	// printing
	text := string(c.Text)
	broken := false // a name with a line break is not printed on one line
	for _, e := range b.log.Entries {
		broken = broken || strings.Contains(e.Info, "\n")
	}
	if c.Mode&1 != 0 && len(b.log.Entries) < 200 && !broken {
		n := c.N
		out := captureStdout(func() { b.log.PrintWithPreview(text, n) })
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if len(b.log.Entries) == 0 {
			lines = nil
		}
		if len(lines) != len(b.log.Entries) {
			o.Fail("%s: PrintWithPreview printed %d lines for %d entries", where, len(lines), len(b.log.Entries))
			return
		}
		for i, e := range b.log.Entries {
			pre := quoteFirst(text[e.EnterAt:], n)
			if lines[i] != entryLine(e)+" > "+pre {
				o.Fail("%s: PrintWithPreview(%d) printed %q for the entry %s at %d, want the preview %s", where, n, lines[i], e.Info, e.EnterAt, pre)
				return
			}
		}
		out = captureStdout(func() { b.log.Print() })
		lines = strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if len(b.log.Entries) == 0 {
			lines = nil
		}
		if len(lines) != len(b.log.Entries) {
			o.Fail("%s: Print printed %d lines for %d entries", where, len(lines), len(b.log.Entries))
			return
		}
		for i, e := range b.log.Entries {
			if lines[i] != entryLine(e) {
				o.Fail("%s: Print printed %q for the entry %s at %d", where, lines[i], e.Info, e.EnterAt)
				return
			}
		}
	}
	// the next run
	if c.Mode&2 != 0 {
		b.log.Reset()
		if len(b.log.Entries) != 0 {
			o.Fail("%s: %d entries after Reset", where, len(b.log.Entries))
			return
		}
	}
	if !m.dangle && spies {
		old := append([]*spyEntry{}, b.visits...)
		b.visits, b.visiting = nil, 0
		s = c.scanner()
		s.Use(b.root)
		want := b.visits
		if c.Mode&2 == 0 {
			want = append(old, b.visits...)
		}
		checkLog(o, where+" (second run)", b.log, want)
	}
}

// ------------------------------------------------------------------------ C14

// strip removes the observers and names; rules are inlined if inline is set.
func strip(p *Prog, n *Node, inline bool) *Node {
	switch n.Op {
	case "named", "map", "pick", "monitor":
		return strip(p, n.L[0], inline)
	case "rule":
		if inline {
			return strip(p, p.Rules[n.N], inline)
		}
	}
	c := *n
	c.L = nil
	for _, x := range n.L {
		c.L = append(c.L, strip(p, x, inline))
	}
	return &c
}

// acyclic tells whether no rule can reach itself.
func acyclic(p *Prog) bool {
	state := map[int]int{}
	var visit func(i int) bool
	visit = func(i int) bool {
		if state[i] == 1 {
			return false
		}
		if state[i] == 2 {
			return true
		}
		state[i] = 1
		ok := true
		p.Rules[i].walk(func(n *Node) {
			if n.Op == "rule" && ok {
				ok = visit(n.N)
			}
		})
		state[i] = 2
		return ok
	}
	for i := range p.Rules {
		if !visit(i) {
			return false
		}
	}
	return true
}

func errShape(err error) string {
	if err == nil {
		return "ok"
	}
	if re, is := err.(tok.ReadError); is {
		return fmt.Sprintf("ReadError at %d", re.Marker)
	}
	return "error"
}

type markTracker struct {
	last tok.Marker
	n    int
}

func (t *markTracker) Update(m tok.Marker) { t.last = m; t.n++ }

func runC14(c progCase, o *Obs) {
	m := c.ref()
	ok, _, _, over := m.run(c.Pos)
	if over || m.unstable {
		o.Skip("too large")
		return
	}
	progLabels(&c, o, m, ok)
	inline := c.Mode&1 != 0 && acyclic(c.P) && c.P.count("jbeg") == 0
	q := &Prog{Root: strip(c.P, c.P.Root, inline)}
	if !inline {
		for _, r := range c.P.Rules {
			q.Rules = append(q.Rules, strip(c.P, r, false))
		}
	}
	o.LabelIf(inline && c.P.count("rule") > 0, "rules inlined")
	if c.P.count("named", "map", "pick", "monitor")+c.Obs > 0 && (m.back > 0 || ok) {
		o.NonTrivial()
	}
	plain := buildProg(q, buildOpts{})
	s1 := c.scanner()
	e1 := s1.Use(plain.root)
	b := buildProg(c.P, buildOpts{rules: c.Obs})
	s2 := c.scanner()
	switch (c.Mode >> 1) % 3 {
	case 1:
		s2.Tracker = b.basket
	case 2:
		s2.Tracker = &markTracker{}
	}
	e2 := s2.Use(b.root)
	if errShape(e1) != errShape(e2) || s1.Mark() != s2.Mark() {
		o.Fail("%s on %q from %d: with observers %v ending at %d, without %v ending at %d", c.P.what(c.P.Root), string(c.Text), c.Pos, e2, s2.Mark(), e1, s1.Mark())
	}
}

// ------------------------------------------------------------------------ C15

type reuseCase struct {
	P     *Prog
	Texts []Str
	Share int
}

func genReuse(g *G) reuseCase {
	o := allOpts()
	o.picks, o.monitors = true, false
	p := genProg(g, o)
	c := reuseCase{P: p, Share: g.N(8)}
	n := 2 + g.N(4)
	for i := 0; i < n; i++ {
		t, pos := genInput(g, p, true)
		c.Texts = append(c.Texts, Str(t[pos:]))
	}
	if c.Share > 0 && g.Bool() {
		c.Texts = append(c.Texts, c.Texts[0]+c.Texts[g.N(len(c.Texts))])
	}
	return c
}

// twice puts a reader at two places of one expression.
func twice(kind int, a, b tok.Reader) tok.Reader {
	switch kind {
	case 1:
		return tok.Seq(a, b)
	case 2:
		return tok.Any(tok.Seq(a, "b"), b)
	case 3:
		return tok.Seq(tok.At(a), b)
	case 4:
		return tok.SkipWSSeq(a, tok.Opt(b))
	case 5:
		return tok.Seq(tok.To(a), b)
	case 6:
		return tok.Seq(tok.Opt(a), tok.Zom(tok.Seq(" ", b)))
	case 7:
		return tok.Any(tok.Seq(tok.Not(a), b), a)
	}
	return a
}

func runReuse(c reuseCase, o *Obs) {
	type result struct {
		ok   bool
		end  tok.Marker
		maps string
		segs string
	}
	read := func(r tok.Reader, bs []*built, basket *tok.Basket, text string) result {
		s := tok.NewScanner(text)
		basketCopy := basket
		s.Tracker = basketCopy
		for _, b := range bs {
			b.maps = nil
		}
		err := s.Use(r)
		var sb strings.Builder
		for _, m := range bs[0].maps {
			fmt.Fprintf(&sb, "%s%v ", m.Info, m.Tok)
		}
		return result{err == nil, s.Mark(), sb.String(), showSegs(nonEmpty(asRefSegs(basket.Picked())))}
	}
	moved, refused := 0, 0
	// every text has to stay within the budget and may not depend on a begin
	// that was never read
	for _, t := range c.Texts {
		m := &ref{p: c.P, text: string(t), env: map[int]string{}, budget: refBudget}
		for pos := 0; pos <= len(t) && pos < 40; pos++ {
			if pos > 0 && c.Share == 0 {
				break
			}
			mm := *m
			mm.env = map[int]string{}
			_, end, _, over := mm.run(pos)
			if over || mm.unstable || mm.dangle || mm.steps > 2000 {
				o.Skip("too large or an end without begin")
				return
			}
			if pos == 0 {
				if end > 0 {
					moved++
				} else {
					refused++
				}
			}
		}
	}
	if moved > 0 && moved+refused > 1 {
		o.NonTrivial()
	}
	o.LabelIf(c.Share > 0, "reader at two places")
	o.LabelIf(c.P.count("jbeg") > 0, "with janus")
	basket := &tok.Basket{}
	used := buildProg(c.P, buildOpts{basket: basket})
	usedRoot := twice(c.Share, used.root, used.root)
	usedAll := []*built{used}
	for i, t := range c.Texts {
		fb := &tok.Basket{}
		f1 := buildProg(c.P, buildOpts{basket: fb})
		f2 := buildProg(c.P, buildOpts{basket: fb})
		// both copies report to the same list
		fresh := twice(c.Share, f1.root, f2.root)
		var want result
		if c.Share > 0 {
			// the order between the two copies is only visible in one list
			want = read(fresh, []*built{f1, f2}, fb, string(t))
		} else {
			want = read(fresh, []*built{f1, f2}, fb, string(t))
		}
		basket.Update(-1)
		got := read(usedRoot, usedAll, basket, string(t))
		if c.Share > 0 {
			got.maps, want.maps = "", ""
		}
		if got != want {
			o.Fail("%s (twice=%d), text %d of %q: reused reader gives %+v, a fresh one %+v", c.P.what(c.P.Root), c.Share, i, c.Texts, got, want)
			return
		}
	}
}

// ------------------------------------------------------------------------ C16

type janusCase struct {
	Kind  int
	Words []Str // begin strings
	Body  []Str // pieces between
	Form  int
	Texts int
}

// janusBegins are readers for the begin with an oracle for the string they read.
var janusBegins = []struct {
	r    func() tok.Reader
	read func(s string) (int, bool)
	ws   []string
}{
	{func() tok.Reader { return tok.Zom("=") }, func(s string) (int, bool) { return len(s) - len(strings.TrimLeft(s, "=")), true }, []string{"", "=", "==", "===", "====", "====="}},
	{func() tok.Reader { return tok.Many(tok.BetweenAny("a-z")) }, func(s string) (int, bool) {
		n := 0
		for n < len(s) && s[n] >= 'a' && s[n] <= 'z' {
			n++
		}
		return n, n > 0
	}, []string{"a", "aa", "aab", "b", "eof", "eoff"}},
	{func() tok.Reader { return tok.Any("aab", "aa", "a", "ä", "") }, func(s string) (int, bool) {
		for _, w := range []string{"aab", "aa", "a", "ä", ""} {
			if strings.HasPrefix(s, w) {
				return len(w), true
			}
		}
		return 0, false
	}, []string{"aab", "aa", "a", "ä", ""}},
	{func() tok.Reader { return tok.Fold("end") }, func(s string) (int, bool) {
		if len(s) >= 3 && strings.EqualFold(s[:3], "end") {
			return 3, true
		}
		return 0, false
	}, []string{"end", "END", "End", "eND"}},
	{func() tok.Reader { return tok.Zom(tok.Holey(0, 0x10ffff, janusSeps)) }, func(s string) (int, bool) {
		if i := strings.IndexAny(s, janusSeps); i >= 0 {
			return i, true
		}
		return len(s), true
	}, nil},
}

const janusSeps = "|[]<>/()\n"

// janusWords are the words of a case: for the reader of any word a drawn one
// and others that differ a little from it.
func janusWords(g *G, kind int) []string {
	if ws := janusBegins[kind].ws; ws != nil {
		return ws
	}
	clean := func(s string) string {
		return strings.Map(func(r rune) rune {
			if strings.ContainsRune(janusSeps, r) {
				return '_'
			}
			return r
		}, s)
	}
	w := clean(g.Text(12))
	if g.Chance(3) {
		w += clean(strings.Repeat(pick(g, []string{"a", "ab", "=", "-", "Ä", "EOF", " "}), g.N(40)))
	}
	ws := []string{w, w, clean(g.swapCase(w)), w + "x", w + " ", " " + w, w + w, strings.TrimSpace(w), ""}
	if w != "" {
		_, n := utf8.DecodeRuneInString(w)
		_, z := utf8.DecodeLastRuneInString(w)
		ws = append(ws, w[n:], w[:len(w)-z], w[:len(w)-z]+"y", "y"+w[n:])
		i := g.N(len(w))
		ws = append(ws, w[:i], w[i:], clean(w[:i]+g.Text(2)+w[i:]))
	}
	return ws
}

func janusKind(g *G) int {
	if g.Bool() {
		return len(janusBegins) - 1
	}
	return g.N(len(janusBegins))
}

type janusOp struct {
	End bool
	Pos int
	Via int `json:",omitempty"` // the reader around it
}

// janusVia puts a reader around one of a pair. Readers below 6 do what r does,
// 6 hides its failure, 7 does not move, 8 always fails and 9 fails behind it.
func janusVia(via int, r tok.Reader) tok.Reader {
	never := tok.Not(tok.Between(-1, 0x10ffff))
	switch via {
	case 1:
		return tok.Named("n", r)
	case 2:
		return &tok.Rule{Name: "r", Reader: r}
	case 3:
		return tok.Seq(tok.Opt(never), r, "")
	case 4:
		return tok.Any("never", tok.Seq(r))
	case 5:
		return tok.Times(1, r)
	case 6:
		return tok.Opt(r)
	case 7:
		return tok.At(r)
	case 8:
		return tok.Not(r)
	case 9:
		return tok.Seq(r, tok.Lit("never"))
	}
	return r
}

type janusSeq struct {
	Kind int
	Text Str
	Ops  []janusOp
}

func genJanusSeq(g *G) janusSeq {
	c := janusSeq{Kind: janusKind(g)}
	ws := janusWords(g, c.Kind)
	var b strings.Builder
	var starts []int
	n := 2 + g.N(8)
	for i := 0; i < n; i++ {
		starts = append(starts, b.Len())
		b.WriteString(pick(g, ws))
		if janusBegins[c.Kind].ws == nil && !g.Chance(8) {
			b.WriteString(pick(g, []string{"|", "[", "\n"}))
			continue
		}
		b.WriteString(pick(g, []string{"", " ", "-", "]", "a", "=", "ä", "x"}))
	}
	c.Text = Str(b.String())
	k := 2 + g.N(10)
	for i := 0; i < k; i++ {
		p := pick(g, starts)
		if g.Chance(4) {
			p = g.N(len(c.Text) + 1)
		}
		op := janusOp{End: i > 0 && !g.Chance(4), Pos: p}
		if g.Chance(3) {
			op.Via = g.N(10)
			if op.End {
				op.Via = g.N(6)
			}
			if g.Chance(3) {
				op.Pos = len(c.Text)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runJanusSeq(c janusSeq, o *Obs) {
	k := janusBegins[c.Kind]
	beg, end := tok.Janus("x", k.r())
	s := tok.NewScanner(string(c.Text))
	cur, known := "", false
	hits, misses := 0, 0
	for i, op := range c.Ops {
		s.ToMarker(tok.Marker(op.Pos))
		rest := string(c.Text)[op.Pos:]
		if !op.End {
			n, ok := k.read(rest)
			err := janusVia(op.Via, beg).Read(s)
			succ, at := ok, op.Pos
			if ok {
				at += n
			}
			o.LabelIf(op.Via > 5, "begin given up or optional")
			switch op.Via {
			case 6:
				succ = true
			case 7:
				at = op.Pos
			case 8, 9:
				succ, at = err == nil, int(s.Mark()) // C07
			}
			if (err == nil) != succ || int(s.Mark()) != at {
				o.Fail("begin (via %d) at %d of %q: error %v, at %d, want %v and %d", op.Via, op.Pos, string(c.Text), err, s.Mark(), succ, at)
				return
			}
			if ok {
				cur, known = rest[:n], true
			}
			continue
		}
		err := janusVia(op.Via, end).Read(s)
		if !known {
			continue
		}
		ok := strings.HasPrefix(rest, cur)
		if ok {
			hits++
		} else {
			misses++
		}
		if (err == nil) != ok || (ok && int(s.Mark()) != op.Pos+len(cur)) {
			o.Fail("step %d: end at %d of %q after begin read %q: error %v, scanner at %d", i, op.Pos, string(c.Text), cur, err, s.Mark())
			return
		}
		if !ok && int(s.Mark()) != op.Pos {
			o.Fail("step %d: failing end moved from %d to %d", i, op.Pos, s.Mark())
			return
		}
	}
	if hits > 0 && misses > 0 {
		o.NonTrivial()
	}
	o.LabelIf(hits > 1, "several matches")
	o.LabelIf(misses > 0, "near miss")
}

// janusDoc is a text with delimited parts.
type janusDoc struct {
	Kind    int
	Form    int
	Open    Str
	Close   Str
	Docs    []Str
	Matches []int // only for information
}

func genJanusDoc(g *G) janusDoc {
	c := janusDoc{Kind: janusKind(g), Form: g.N(5)}
	d := pick(g, [][2]string{{"[", "]"}, {"<<", ">>"}, {"/", "/"}, {"", "|"}, {"ä(", ")ä"}})
	c.Open, c.Close = Str(d[0]), Str(d[1])
	ws := janusWords(g, c.Kind)
	n := 1 + g.N(3)
	for i := 0; i < n; i++ {
		w := pick(g, ws)
		var b strings.Builder
		b.WriteString(d[0] + w + d[0])
		for k := g.N(8); k > 0; k-- {
			switch g.N(5) {
			case 0:
				b.WriteString(d[1] + pick(g, ws) + d[1]) // near miss or the end
			case 1:
				b.WriteString(d[1] + w)
			case 2:
				b.WriteString(pick(g, ws) + d[1])
			case 3:
				b.WriteString(pick(g, []string{"x", " ", "\n", "ä", "=", "]"}))
			case 4:
				b.WriteString(d[1])
			}
		}
		if !g.Chance(6) {
			b.WriteString(d[1] + w + d[1])
			b.WriteString(pick(g, []string{"", "x", d[1], d[1] + w + d[1]}))
		}
		c.Docs = append(c.Docs, Str(b.String()))
	}
	return c
}

func runJanusDoc(c janusDoc, o *Obs) {
	k := janusBegins[c.Kind]
	beg, end := tok.Janus("x", k.r())
	open := tok.Seq(string(c.Open), beg, string(c.Open))
	cl := tok.Seq(string(c.Close), end, string(c.Close))
	anyChar := tok.Zom(tok.Between(0, 0x10ffff))
	var r tok.Reader
	withEnd := true
	switch c.Form {
	case 0:
		r = tok.Seq(open, tok.Past(cl))
	case 1:
		r = tok.Seq(open, tok.To(cl))
		withEnd = false
	case 2:
		r = tok.Seq(open, tok.BodyTail(anyChar, cl))
	case 3:
		r = tok.Seq(open, tok.Zom(tok.Not(cl)), cl)
	case 4:
		r = tok.Seq(open, tok.Body(anyChar, cl))
		withEnd = false
	}
	for i, doc := range c.Docs {
		text := string(doc)
		want, ok := -1, false
		if strings.HasPrefix(text, string(c.Open)) {
			rest := text[len(c.Open):]
			if n, is := k.read(rest); is && strings.HasPrefix(rest[n:], string(c.Open)) {
				w := rest[:n]
				body := len(c.Open) + n + len(c.Open)
				if e := strings.Index(text[body:], string(c.Close)+w+string(c.Close)); e >= 0 {
					ok = true
					want = body + e
					if e > 0 {
						o.NonTrivial()
					}
					if withEnd {
						want += 2*len(c.Close) + len(w)
					}
				}
			}
		}
		s := tok.NewScanner(text)
		err := s.Use(r)
		o.LabelIf(ok, "closed")
		o.LabelIf(!ok, "not closed")
		if (err == nil) != ok || (ok && int(s.Mark()) != want) {
			o.Fail("%s on %q (document %d): error %v, at %d; want success=%v, at %d", r.What(), text, i, err, s.Mark(), ok, want)
			return
		}
	}
}

// ------------------------------------------------------------------------ C17

func runC17(c progCase, o *Obs) {
	m := c.ref()
	ok, end, _, over := m.run(c.Pos)
	if over || m.unstable {
		o.Skip("too large")
		return
	}
	nbad := c.P.count("bad", "badrange", "badset", "badbuild")
	if nbad > 0 {
		o.NonTrivial()
	}
	progLabels(&c, o, m, ok)
	b := buildProg(c.P, buildOpts{})
	what := b.root.What()
	visible := strings.Contains(c.P.what(c.P.Root), invalidMark)
	o.LabelIf(visible, "marker visible")
	o.LabelIf(!visible && nbad > 0, "marker hidden by a name")
	if strings.Contains(what, tok.InvalidReaderMarker) != visible || tok.HasInvalidReader(what) != visible {
		o.Fail("description %q: HasInvalidReader is %v, want %v", what, tok.HasInvalidReader(what), visible)
		return
	}
	lines := tok.GrammarLines(b.rules)
	wantLines := false
	for i, r := range c.P.Rules {
		v := strings.Contains(c.P.what(r), invalidMark)
		wantLines = wantLines || v
		if tok.HasInvalidReader(lines[i]) != v {
			o.Fail("rule line %q: HasInvalidReader is %v, want %v", lines[i], !v, v)
			return
		}
	}
	if k := (c.Pos*7 + len(c.Text)*13) % 150; len(lines) > 0 && len(c.Text)%4 == 0 { // one of many lines
		long := make([]string, 150)
		for i := range long {
			long[i] = []string{"", "a: 'a'", "INVALID", "b: @'c'"}[i%4]
		}
		long[k] = lines[len(lines)-1]
		if v := tok.HasInvalidReader(long[k]); tok.AnyHasInvalidReader(long) != v {
			o.Fail("AnyHasInvalidReader of 150 lines is %v, but %v for line %d", !v, v, k)
			return
		}
	}
	if tok.AnyHasInvalidReader(lines) != wantLines {
		o.Fail("AnyHasInvalidReader of %q is %v, want %v", lines, !wantLines, wantLines)
		return
	}
	s := c.scanner()
	err := s.Use(b.root)
	if (err == nil) != ok || (ok && int(s.Mark()) != end) {
		o.Fail("%s on %q from %d: error %v at %d, want success=%v at %d", what, string(c.Text), c.Pos, err, s.Mark(), ok, end)
	}
}

// badCase builds a single invalid reader and tries it on a text.
type badCase struct {
	Node *Node
	Text Str
	Pos  int
}

func genBad(g *G) badCase {
	p := &progGen{g: g, o: progOpts{bad: true}}
	n := p.bad()
	if n.Op == "badrange" && g.Bool() {
		// any malformed range string
		rs := []rune(g.Text(8))
		if len(rs)%3 == 0 {
			bad := len(rs) > 0
			for i := 1; i < len(rs); i += 3 {
				if rs[i] != '-' {
					bad = bad && true
				}
			}
			allSep := len(rs) > 0
			for i := 1; i < len(rs); i += 3 {
				allSep = allSep && rs[i] == '-'
			}
			if !bad || allSep {
				rs = append(rs, 'a')
			}
		}
		n.S = Str(string(rs))
	}
	text := g.Text(10)
	return badCase{Node: n, Text: Str(text), Pos: g.Pos(text)}
}

func runBad(c badCase, o *Obs) {
	b := &built{}
	r := b.leaf(c.Node)
	o.NonTrivial()
	o.Label(c.Node.Op)
	s := tok.NewScanner(string(c.Text))
	s.ToMarker(tok.Marker(c.Pos))
	if !tok.HasInvalidReader(r.What()) || !strings.Contains(r.What(), tok.InvalidReaderMarker) {
		o.Fail("reader for %+v has no marker: %q", *c.Node, r.What())
		return
	}
	for _, x := range []tok.Reader{r, tok.Seq("a", r), tok.Any(r), tok.Times(1, r), tok.At(r), tok.Many(r), tok.Past(r), tok.To(r)} {
		if !tok.HasInvalidReader(x.What()) {
			o.Fail("%q does not show the invalid part", x.What())
			return
		}
		if err := x.Read(s); err == nil || int(s.Mark()) != c.Pos {
			o.Fail("%q on %q from %d: error %v, scanner at %d", x.What(), string(c.Text), c.Pos, err, s.Mark())
			return
		}
	}
}

// ------------------------------------------------------------------------ C18

func runC18(c progCase, o *Obs) {
	b := buildProg(c.P, buildOpts{rules: c.Obs})
	check := func(when string) bool {
		if got, want := b.root.What(), c.P.what(c.P.Root); got != want {
			o.Fail("%s: description %q, want %q", when, got, want)
			return false
		}
		lines := tok.GrammarLines(b.rules)
		if len(lines) != len(b.rules) {
			o.Fail("%s: %d lines for %d rules", when, len(lines), len(b.rules))
			return false
		}
		for i, r := range c.P.Rules {
			want := c.P.name(i) + ": " + c.P.what(r)
			if lines[i] != want || b.rules[i].Rule() != want {
				o.Fail("%s: rule line %q / %q, want %q", when, lines[i], b.rules[i].Rule(), want)
				return false
			}
		}
		return true
	}
	if depth(c.P.Root) > 1 {
		o.NonTrivial()
	}
	c.P.walk(func(n *Node) { o.Label("op:" + n.Op) })
	if !check("new") {
		return
	}
	m := c.ref()
	if _, _, _, over := m.run(c.Pos); over {
		o.Label("not read")
		return
	}
	s := c.scanner()
	s.Use(b.root)
	check("after reading")
}

// ---------------------------------------------------------------- registration

func init() {
	ruleNonTrivial := "nested expression (depth>=2) that consumed something or gave something back"
	all := allOpts()
	empt := all
	register(&Prop{ID: "C07", Assume: []string{"the reference interpreter in astref.go is the definition of the readers"}, Families: []Family{
		Fam("expressions", 40000, 2000000, ruleNonTrivial,
			func(g *G) progCase { return genProgCase(g, all, 8) }, runC07),
		Fam("flat", 15000, 600000, "depth 2 expression that consumed something",
			func(g *G) progCase {
				o := progOpts{weird: true, wraps: true, maxNodes: 6}
				return genProgCase(g, o, 8)
			}, runC07),
	}})
	register(&Prop{ID: "C08", Families: []Family{
		Fam("readers", 40000, 2000000, "a composite gave something back or failed",
			func(g *G) progCase {
				o := all
				o.bad = g.Chance(4)
				return genProgCase(g, o, 32)
			}, runC08),
		Fam("callbacks", 20000, 800000, "a callback moved the scanner", genCall, runCall),
	}})
	register(&Prop{ID: "C09", Assume: []string{"CPU time above 25 s for one generated case, or 200 times the reads the reference needs, counts as not terminating"}, Families: []Family{
		Fam("expressions", 30000, 1500000, "repetition without progress, or more than 20 part reads",
			func(g *G) progCase {
				o := empt
				o.empties = true
				return genProgCase(g, o, 4)
			}, runC09),
	}})
	register(&Prop{ID: "C10", Families: []Family{
		Fam("expressions", 40000, 2000000, "the failure lies behind the start or inside a nested expression",
			func(g *G) progCase {
				o := all
				o.bad = g.Chance(8)
				return genProgCase(g, o, 2)
			}, runC10),
	}})
	register(&Prop{ID: "C11", Families: []Family{
		Fam("picks", 40000, 2000000, "non-empty segments were picked, kept or given up",
			func(g *G) progCase {
				o := progOpts{observers: 12, picks: true, rules: true, janus: g.Chance(4), wraps: g.Chance(3), weird: g.Chance(3)}
				o.named = g.Chance(4)
				c := genProgCase(g, o, 4)
				if len(c.P.Rules) > 0 {
					c.Obs = g.N(2)
				}
				c.N = g.N(3)
				return c
			}, runC11),
	}})
	register(&Prop{ID: "C12", Families: []Family{
		Fam("maps", 40000, 2000000, "at least two calls, one with a non-empty token",
			func(g *G) progCase {
				o := progOpts{observers: 12, maps: true, rules: true, janus: g.Chance(4), wraps: g.Chance(3), weird: g.Chance(3)}
				o.named = g.Chance(4)
				c := genProgCase(g, o, 4)
				if len(c.P.Rules) > 0 {
					c.Obs = g.N(2) * 2
				}
				return c
			}, runC12),
	}})
	register(&Prop{ID: "C13", Families: []Family{
		Fam("monitors", 30000, 1200000, "more than 3 entries on more than one level",
			func(g *G) progCase {
				o := progOpts{observers: 12, monitors: true, rules: true, janus: g.Chance(4), wraps: g.Chance(3), weird: g.Chance(3)}
				o.named = g.Chance(4)
				c := genProgCase(g, o, 8)
				if len(c.P.Rules) > 0 {
					c.Obs = g.N(2) * 4
				}
				c.N = g.Size(20)
				return c
			}, runC13),
	}})
	register(&Prop{ID: "C14", Families: []Family{
		Fam("stripped", 40000, 2000000, "observed expression that was read or gave something back",
			func(g *G) progCase {
				o := all
				o.observers = 12
				o.janus = g.Chance(3)
				c := genProgCase(g, o, 6)
				if len(c.P.Rules) > 0 {
					c.Obs = g.N(8)
				}
				return c
			}, runC14),
	}})
	register(&Prop{ID: "C15", Families: []Family{
		Fam("sequences", 25000, 1000000, "several texts of which at least one was read", genReuse, runReuse),
	}})
	register(&Prop{ID: "C16", Families: []Family{
		Fam("direct", 20000, 1000000, "matches and near misses of the end", genJanusSeq, runJanusSeq),
		Fam("delimiters", 25000, 1000000, "a closed text with a body", genJanusDoc, runJanusDoc),
	}})
	register(&Prop{ID: "C17", Families: []Family{
		Fam("compositions", 25000, 1000000, "an invalid part somewhere",
			func(g *G) progCase {
				o := all
				o.bad = !g.Chance(4)
				return genProgCase(g, o, 1)
			}, runC17),
		Fam("arguments", 15000, 500000, "every case", genBad, runBad),
	}})
	register(&Prop{ID: "C18", Families: []Family{
		Fam("notation", 30000, 1000000, "a composite",
			func(g *G) progCase {
				o := all
				c := genProgCase(g, o, 1)
				if len(c.P.Rules) > 0 {
					c.Obs = g.N(8)
				}
				return c
			}, runC18),
	}})
}
