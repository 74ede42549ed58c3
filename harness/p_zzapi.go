package main

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// Families that drive the rules of the three grammars with spies around each of
// them, and the small parts of the API (errors, Basket, Log) by hand.

// ruleSpy stands around the Reader of a rule.
type ruleSpy struct {
	t     *ruleTrace
	name  string
	inner tok.Reader
}

type ruleTrace struct {
	visits []*spyEntry
	done   []refSeg // successes in the order of completion
	moved  string   // first failing read that moved
	level  int
	last   int
}

func (r *ruleSpy) Read(s *tok.Scanner) error {
	t := r.t
	t.level++
	e := &spyEntry{info: r.name, enter: int(s.Mark()), level: t.level}
	t.visits = append(t.visits, e)
	err := r.inner.Read(s)
	t.level--
	e.exit, e.err = int(s.Mark()), err
	if err == nil {
		t.done = append(t.done, refSeg{r.name, e.enter, e.exit})
	} else if e.exit != e.enter && t.moved == "" {
		t.moved = fmt.Sprintf("rule %s failed with %v and moved from %d to %d", r.name, err, e.enter, e.exit)
	}
	return err
}

func (r *ruleSpy) What() string { return r.inner.What() }

func spyRules(rules []*tok.Rule, t *ruleTrace) {
	for _, r := range rules {
		r.Reader = &ruleSpy{t, r.Name, r.Reader}
	}
}

// small is for documents that are read with many observers.
func genGramSpy(g *G) gramCase {
	c := gramCase{G: g.N(3), Mode: g.N(12)}
	if g.Chance(3) {
		c.Pre = Str(g.Text(5))
	}
	n := 1 + g.N(2)
	for ; n > 0; n-- {
		t := g.gramText(c.G)
		if len(t) > 400 {
			t = t[:400]
		}
		c.Texts = append(c.Texts, Str(t))
	}
	return c
}

// spied reads each text with the grammar and calls check behind each read.
func (c *gramCase) spied(o *Obs, gr tok.Grammar, t *ruleTrace, check func(where string, s *tok.Scanner, err error)) {
	for _, x := range c.Texts {
		text := string(c.Pre) + string(x)
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(len(c.Pre)))
		*t = ruleTrace{}
		err := s.Use(gr)
		o.Label(gramName(c.G))
		o.LabelIf(err == nil, "read")
		if len(t.done) > 3 {
			o.NonTrivial()
		}
		check(fmt.Sprintf("%s grammar on %q from %d", gramName(c.G), text, len(c.Pre)), s, err)
		if o.Failed() {
			return
		}
	}
}

// C08: no rule of a grammar moves when it fails.
func runGramStay(c gramCase, o *Obs) {
	gr, t := newGrammar(c.G), &ruleTrace{}
	spyRules(gr.Grammar(), t)
	c.spied(o, gr, t, func(where string, s *tok.Scanner, err error) {
		if t.moved != "" {
			o.Fail("%s: %s", where, t.moved)
		}
		if err != nil && int(s.Mark()) != len(c.Pre) {
			o.Fail("%s: failed with %v and moved to %d", where, err, s.Mark())
		}
	})
}

// C12: the map functions of the rules.
func runGramMap(c gramCase, o *Obs) {
	gr, t := newGrammar(c.G), &ruleTrace{}
	var calls []refSeg
	spyRules(gr.Grammar(), t)
	for _, r := range gr.Grammar() {
		name := r.Name
		r.Map(func(k tok.Token) {
			a, b := span(k)
			calls = append(calls, refSeg{name, a, b})
		})
		if c.Mode%3 == 1 { // twice
			r.Map(func(tok.Token) {})
		}
	}
	c.spied(o, gr, t, func(where string, s *tok.Scanner, err error) {
		if !equalSegs(calls, t.done) {
			o.Fail("%s: mapped %s, read were %s", where, showSegs(calls), showSegs(t.done))
		}
		calls = nil
	})
}

// C13: the log of a whole grammar.
func runGramLog(c gramCase, o *Obs) {
	gr, t := newGrammar(c.G), &ruleTrace{}
	spyRules(gr.Grammar(), t)
	var log *tok.Log
	if c.Mode&1 != 0 {
		log = tok.MonitorGrammar(gr)
	} else {
		log = &tok.Log{}
		log.Monitor(gr.Grammar()...)
	}
	c.spied(o, gr, t, func(where string, s *tok.Scanner, err error) {
		if checkLog(o, where, log, t.visits) {
			log.Reset()
			o.LabelIf(len(t.visits) > 300, "more than 300 entries")
		}
	})
}

// ---------------------------------------------------------------- C10: errors

type errCase struct {
	Text Str
	Pos  int
	Oth  int
	What Str
	OK   bool
	Mode int
}

func genErrVal(g *G) errCase {
	t := g.Text(12)
	return errCase{Text: Str(t), Pos: g.Pos(t), Oth: g.Pos(t), What: Str(g.Text(6)), OK: g.Bool(), Mode: g.N(6)}
}

func runErrVal(c errCase, o *Obs) {
	text, what := string(c.Text), string(c.What)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(c.Pos))
	where := fmt.Sprintf("%q at %d with %q", text, c.Pos, what)
	if c.Pos > 0 {
		o.NonTrivial()
	}
	is := func(call string, err error, want int) {
		re, ok := err.(tok.ReadError)
		if !ok || int(re.Marker) != want || re.What != what {
			o.Fail("%s: %s gives %#v, want a ReadError for it at %d", where, call, err, want)
			return
		}
		if m := err.Error(); m != errMessage(what, want) {
			o.Fail("%s: %s gives the message %q", where, call, m)
		}
	}
	is("ErrorFor", s.ErrorFor(what), c.Pos)
	if err := s.ErrorIfFalse(true, what); err != nil {
		o.Fail("%s: ErrorIfFalse(true) gives %v", where, err)
	}
	is("ErrorIfFalse(false)", s.ErrorIfFalse(false, what), c.Pos)
	if int(s.Mark()) != c.Pos {
		o.Fail("%s: making an error moved to %d", where, s.Mark())
	}
	a, b := tok.ReadError{Marker: tok.Marker(c.Pos), What: what}, tok.ReadError{Marker: tok.Marker(c.Oth), What: "x"}
	if c.Pos != c.Oth && a.Later(b) != (c.Pos > c.Oth) {
		o.Fail("%s: Later than an error at %d is %v", where, c.Oth, a.Later(b))
	}
	// an own reader hands its error through the readers around it
	own := func(s *tok.Scanner) error {
		s.ToMarker(tok.Marker(max(c.Oth, c.Pos)))
		return s.ErrorIfFalse(c.OK, what)
	}
	var r tok.Reader = tok.Wrap("own", own)
	switch c.Mode {
	case 1:
		r = tok.Seq(r)
	case 2:
		r = tok.At(r)
	case 3:
		r = tok.Any(tok.Seq("", r))
	case 4:
		r = tok.Times(1, tok.Named("own", r))
	case 5:
		r = tok.Map(tok.Monitor(r, &tok.Log{}, "own"), func(tok.Token) {})
	}
	err := s.Use(r)
	if c.OK {
		if err != nil {
			o.Fail("%s: own reader %s fails with %v", where, r.What(), err)
		}
		return
	}
	is("own reader in "+r.What(), err, max(c.Oth, c.Pos))
	if int(s.Mark()) != c.Pos {
		o.Fail("%s: failing own reader in %s moved to %d", where, r.What(), s.Mark())
	}
}

// ---------------------------------------------------------------- C11: Basket

type basketOp struct {
	A, B int
	Info Str
	To   int // negative: Add, else Update(To)
}

type basketCase struct {
	Ops  []basketOp
	Text int
}

func genBasket(g *G) basketCase {
	c := basketCase{Text: 8 + g.N(30)}
	n := 2 + g.Size(12)
	if g.Chance(60) {
		n, c.Text = g.bigSize(150), 300
	}
	at := 0
	for ; n > 0; n-- {
		if g.Chance(3) {
			at = g.N(at + 1)
			c.Ops = append(c.Ops, basketOp{To: at})
			continue
		}
		from := g.N(at + 1)
		if g.Bool() {
			from = at
		}
		at = min(at+g.N(4), c.Text)
		if from == at {
			continue
		}
		c.Ops = append(c.Ops, basketOp{A: from, B: at, Info: Str(pick(g, []string{"a", "b", "", "x y", "ä"})), To: -1})
	}
	return c
}

// The scanner moves as a parse does: what is added ends where it stands.
func runBasket(c basketCase, o *Obs) {
	s := tok.NewScanner(strings.Repeat("x", c.Text))
	b := s.NewBasket()
	var want []refSeg
	dropped := false
	for i, op := range c.Ops {
		if op.To >= 0 {
			s.ToMarker(tok.Marker(op.To))
			k := len(want)
			for k > 0 && want[k-1].to > op.To {
				k--
				dropped = true
			}
			want = want[:k]
		} else {
			s.ToMarker(tok.Marker(op.B))
			// moving forward gives up nothing, moving back is To
			b.Add(tok.Segment{Info: string(op.Info), Token: tok.MakeToken(tok.Marker(op.A), tok.Marker(op.B))})
			want = append(want, refSeg{string(op.Info), op.A, op.B})
		}
		if got := asRefSegs(b.Picked()); !equalSegs(got, want) {
			o.Fail("after %d of %v: the basket holds %s, want %s", i+1, c.Ops, showSegs(got), showSegs(want))
			return
		}
		var parts []string
		for _, p := range b.Picked() {
			parts = append(parts, p.String())
		}
		if got := b.String(); got != strings.Join(parts, ";") {
			o.Fail("after %d of %v: the basket shows %q, want the segments %q", i+1, c.Ops, got, parts)
			return
		}
	}
	if dropped && len(want) > 0 {
		o.NonTrivial()
	}
}

// ------------------------------------------------------------------- C13: Log

type logOp struct {
	Info Str
	Pos  int
	Exit bool
	Err  bool
	Zero bool `json:",omitempty"` // Reset, also in the middle of an aborted reading
}

type logCase struct{ Ops []logOp }

func genLogOps(g *G) logCase {
	c := logCase{}
	open := 0
	n := 2 + g.Size(20)
	if g.Chance(40) {
		n = g.bigSize(300)
	}
	resets := g.Chance(3)
	for i := 0; i < n || open > 0; i++ {
		if resets && g.Chance(6) {
			c.Ops = append(c.Ops, logOp{Zero: true})
			open = 0
			continue
		}
		if open > 0 && (i >= n || g.Chance(2)) {
			c.Ops = append(c.Ops, logOp{Exit: true, Pos: g.N(100), Err: g.Bool()})
			open--
			continue
		}
		c.Ops = append(c.Ops, logOp{Info: Str(pick(g, []string{"a", "b", "rule"})), Pos: g.N(100)})
		open++
	}
	return c
}

func runLogOps(c logCase, o *Obs) {
	l := &tok.Log{}
	var want, open []*spyEntry
	var hold []*tok.LogEntry
	for _, op := range c.Ops {
		if op.Zero {
			o.LabelIf(len(open) > 0, "reset of an aborted reading")
			l.Reset()
			want, open, hold = nil, nil, nil
			if len(l.Entries) != 0 {
				o.Fail("%v: %d entries after Reset", c.Ops, len(l.Entries))
				return
			}
			continue
		}
		if !op.Exit {
			e := &spyEntry{info: string(op.Info), enter: op.Pos, level: len(open) + 1}
			want, open = append(want, e), append(open, e)
			hold = append(hold, l.Enter(string(op.Info), op.Pos))
			continue
		}
		n := len(open) - 1
		open[n].exit = op.Pos
		if op.Err {
			open[n].err = errors.New("own")
		}
		l.Exit(hold[n], op.Pos, open[n].err)
		open, hold = open[:n], hold[:n]
		if n > 1 {
			o.NonTrivial()
		}
	}
	checkLog(o, fmt.Sprintf("Enter and Exit %v", c.Ops), l, want)
	if len(l.Entries) > 40 {
		return
	}
	// the exit positions of hand-made entries need not fit to the text
	text, k := strings.Repeat("ab\n\"ä", 12), len(c.Ops)%9
	lines := strings.Split(captureStdout(func() { l.PrintWithPreview(text, k) }), "\n")
	for i, e := range want {
		pre := `""`
		if e.enter < len(text) {
			pre = quoteFirst(text[e.enter:], k)
		}
		if w := entryLine(l.Entries[i]) + " > " + pre; i >= len(lines) || lines[i] != w {
			o.Fail("Enter and Exit %v: PrintWithPreview(%d) printed %q, want %q in line %d", c.Ops, k, lines, w, i)
			return
		}
	}
}

// ---------------------------------------------------------- C17: InvalidReader

type invCase struct {
	Format Str
	Arg    Str
	Text   Str
	Pos    int
}

func runInvalid(c invCase, o *Obs) {
	r := tok.InvalidReader(string(c.Format)+" %s", string(c.Arg))
	s := tok.NewScanner(string(c.Text))
	s.ToMarker(tok.Marker(c.Pos))
	if c.Pos > 0 {
		o.NonTrivial()
	}
	for _, x := range []tok.Reader{r, tok.Seq("", r), tok.Any(r), tok.Many(r), tok.At(r)} {
		if err := s.Use(x); err == nil || int(s.Mark()) != c.Pos {
			o.Fail("InvalidReader in %s on %q from %d: error %v at %d", x.What(), string(c.Text), c.Pos, err, s.Mark())
			return
		}
		if !tok.HasInvalidReader(x.What()) || !strings.Contains(x.What(), tok.InvalidReaderMarker) || !strings.Contains(x.What(), string(c.Arg)) {
			o.Fail("InvalidReader: the description %q does not show it or its text %q", x.What(), string(c.Arg))
			return
		}
	}
}

func init() {
	add := func(id string, f Family) { props[id].Families = append(props[id].Families, f) }
	rule := "more than three rules were read"
	add("C08", Fam("grammars", 6000, 300000, rule, genGramSpy, runGramStay))
	add("C12", Fam("grammars", 6000, 300000, rule, genGramSpy, runGramMap))
	add("C13", Fam("grammars", 5000, 250000, rule, genGramSpy, runGramLog))
	add("C10", Fam("error values", 20000, 600000, "not at the start", genErrVal, runErrVal))
	add("C11", Fam("basket histories", 20000, 600000, "something was given up, something kept", genBasket, runBasket))
	add("C13", Fam("enter and exit", 10000, 300000, "more than two levels", genLogOps, runLogOps))
	add("C17", Fam("invalid readers", 10000, 300000, "not at the start", func(g *G) invCase {
		t := g.Text(10)
		return invCase{Format: Str(pick(g, []string{"", "x", "not a reader:", "ä"})), Arg: Str(g.Text(5)), Text: Str(t), Pos: g.Pos(t)}
	}, runInvalid))
	add("C17", Fam("marker strings", 20000, 400000, "a part of the marker is in it", genMarkers, runMarkers))
}

// markerCase are strings of pieces of the marker, whole markers and other text.
type markerCase struct{ Strs []Str }

func genMarkers(g *G) markerCase {
	c := markerCase{}
	m := tok.InvalidReaderMarker
	for n := g.N(5); n >= 0; n-- {
		var b strings.Builder
		for k := g.N(5); k > 0; k-- {
			switch g.N(8) {
			case 0, 1:
				b.WriteString(m)
			case 2:
				b.WriteString(m[:g.N(len(m)+1)])
			case 3:
				b.WriteString(m[g.N(len(m)+1):])
			case 4:
				b.WriteString(strings.ToLower(m))
			case 5:
				b.WriteString(pick(g, []string{":", "INVALID-READER", "{", "{}", "\"", " ", "::", "'", "\n"}))
			default:
				b.WriteString(g.Text(4))
			}
		}
		c.Strs = append(c.Strs, Str(b.String()))
		if g.Chance(4) {
			break
		}
	}
	return c
}

func runMarkers(c markerCase, o *Obs) {
	any := false
	strs := []string{}
	for _, s := range c.Strs {
		strs = append(strs, string(s))
		want := strings.Contains(string(s), tok.InvalidReaderMarker)
		any = any || want
		if strings.Contains(string(s), "READER") {
			o.NonTrivial()
		}
		if got := tok.HasInvalidReader(string(s)); got != want {
			o.Fail("HasInvalidReader(%q) is %v", string(s), got)
			return
		}
	}
	o.LabelIf(any, "with a marker")
	o.LabelIf(!any, "without a marker")
	if got := tok.AnyHasInvalidReader(strs); got != any {
		o.Fail("AnyHasInvalidReader(%q) is %v", strs, got)
	}
}

// ------------------------------------------------- C02, C07, C10: lists of words

// wordCase is a list of words, some of them the beginning of others, and a text
// that begins with one of them or with a part of one.
type wordCase struct {
	Words []Str
	Kinds []int // 0 string, 1 Lit, 2 Fold, 3 Seq of the two halves, 4 Named, 5 a Rule
	Text  Str
	Pos   int
}

func genWords(g *G) wordCase {
	c := wordCase{}
	alpha := []string{"a", "b", "c", "d", "e", "f", "g", "h", "ä", "ß", "K", "k", "1", "_"}
	if g.Chance(3) {
		alpha = alpha[:2]
	}
	n := 1 + g.N(8)
	if g.Bool() {
		n += g.N(30)
	}
	mode := g.N(4)
	for i := 0; i < n; i++ {
		w := g.SmallText(alpha, 4)
		if g.Chance(3) {
			w = pick(g, alpha)
		}
		if len(c.Words) > 0 && g.Chance(2) { // longer, shorter or the same as an earlier one
			o := string(c.Words[len(c.Words)-1])
			if g.Chance(3) {
				o = string(pick(g, c.Words))
			}
			switch g.N(4) {
			case 0, 1:
				w = o + w
			case 2:
				rs := []rune(o)
				w = string(rs[:g.N(len(rs)+1)])
			default:
				w = g.swapCase(o)
			}
		}
		if w == "" && !g.Chance(8) {
			w = pick(g, alpha)
		}
		c.Words = append(c.Words, Str(w))
		k := mode
		if mode == 3 {
			k = g.N(6)
		}
		c.Kinds = append(c.Kinds, k)
	}
	pre := g.SmallText(alpha, 3)
	w := string(pick(g, c.Words))
	if g.Bool() {
		w = string(c.Words[len(c.Words)-1-g.N(min(3, len(c.Words)))])
	}
	if g.Chance(5) {
		w = g.swapCase(w)
	}
	if rs := []rune(w); g.Chance(5) {
		w = string(rs[:g.N(len(rs)+1)])
	}
	c.Text, c.Pos = Str(pre+w+g.SmallText(alpha, 3)), len(pre)
	return c
}

// wordEnd is the end of the first word that stands at the position, or -1.
func (c *wordCase) wordEnd(fold func(int) bool) (int, int) {
	t := string(c.Text)[c.Pos:]
	for i, w := range c.Words {
		if fold(i) {
			if k := refFoldPrefix(t, string(w)); k >= 0 {
				return c.Pos + k, i
			}
		} else if strings.HasPrefix(t, string(w)) {
			return c.Pos + len(w), i
		}
	}
	return -1, -1
}

func refFoldPrefix(t, w string) int {
	n := 0
	for _, r := range w {
		v, k := utf8.DecodeRuneInString(t[n:])
		if k == 0 || !strings.EqualFold(string(r), string(v)) {
			return -1
		}
		n += k
	}
	return n
}

func runWords(c wordCase, o *Obs) {
	var strs []string
	var list []any
	for i, w := range c.Words {
		str := string(w)
		strs = append(strs, str)
		switch c.Kinds[i] {
		case 0:
			list = append(list, str)
		case 1:
			list = append(list, tok.Lit(str))
		case 2:
			list = append(list, tok.Fold(str))
		case 3:
			rs := []rune(str)
			list = append(list, tok.Seq(string(rs[:len(rs)/2]), string(rs[len(rs)/2:])))
		case 4:
			list = append(list, tok.Named("w", tok.Lit(str)))
		default:
			list = append(list, &tok.Rule{Name: "r", Reader: tok.Lit(str)})
		}
	}
	try := func(name string, fold func(int) bool, f func(s *tok.Scanner) bool) bool {
		s := tok.NewScanner(string(c.Text))
		s.ToMarker(tok.Marker(c.Pos))
		want, i := c.wordEnd(fold)
		ok := f(s)
		end := want
		if want < 0 {
			end = c.Pos
		}
		o.LabelIf(want >= 0, "found")
		if i > 7 {
			o.NonTrivial()
		}
		if ok != (want >= 0) || int(s.Mark()) != end {
			o.Fail("%s of %q (kinds %v) at %d of %q: %v, ends at %d, want %v at %d", name, strs, c.Kinds, c.Pos, string(c.Text), ok, s.Mark(), want >= 0, end)
			return false
		}
		return true
	}
	_ = try("IfAny", func(int) bool { return false }, func(s *tok.Scanner) bool { return s.IfAny(strs...) }) &&
		try("Any", func(i int) bool { return c.Kinds[i] == 2 }, func(s *tok.Scanner) bool { return s.Use(tok.Any(list...)) == nil }) &&
		try("AnyFold", func(int) bool { return true }, func(s *tok.Scanner) bool { return s.Use(tok.AnyFold(strs...)) == nil }) &&
		try("Any of strings", func(int) bool { return false }, func(s *tok.Scanner) bool {
			l := []any{}
			for _, w := range strs {
				l = append(l, w)
			}
			return s.Use(tok.Any(l...)) == nil
		})
}

func init() {
	add := func(id string, f Family) { props[id].Families = append(props[id].Families, f) }
	for _, id := range []string{"C02", "C07"} {
		add(id, Fam("word lists", 40000, 1000000, "one of the words behind the eighth is the first that matches", genWords, runWords))
	}
}

// ------------------------------------------------------ C13: own readers in a Log

// ownStep is an own reader that moves and then fails or not, below observers.
type ownStep struct {
	Pos  int // where the reading begins
	To   int // where the own reader leaves the scanner
	Err  int // 0 none, 1 a ReadError, 2 another error
	Over []int
	Look bool // read by At
}

type ownLogCase struct {
	Text  Str
	Steps []ownStep
}

func genOwnLog(g *G) ownLogCase {
	t := g.Text(12)
	c := ownLogCase{Text: Str(t)}
	for n := 1 + g.N(4); n > 0; n-- {
		st := ownStep{Pos: g.N(len(t) + 1), To: g.N(len(t) + 1), Err: g.N(3), Look: g.Chance(5)}
		for k := 1 + g.N(4); k > 0; k-- {
			st.Over = append(st.Over, g.N(4))
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func runOwnLog(c ownLogCase, o *Obs) {
	text := string(c.Text)
	l := &tok.Log{}
	var want []*spyEntry
	for i, st := range c.Steps {
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(st.Pos))
		var err error
		switch st.Err {
		case 1:
			err = tok.ReadError{Marker: tok.Marker(st.To), What: "own"}
		case 2:
			err = errors.New("own")
		}
		var r tok.Reader = ownReader{func(s *tok.Scanner) error {
			s.ToMarker(tok.Marker(st.To))
			return err
		}}
		// from the outermost to the innermost observer
		level := 0
		for _, k := range st.Over {
			if k < 2 {
				level++
				want = append(want, &spyEntry{info: "o" + string(rune('0'+level)), enter: st.Pos, level: level, exit: st.To, err: err})
			}
		}
		for j := len(st.Over) - 1; j >= 0; j-- {
			switch st.Over[j] {
			case 0:
				r = tok.Monitor(r, l, "o"+string(rune('0'+level)))
				level--
			case 1:
				rule := &tok.Rule{Name: "o" + string(rune('0'+level)), Reader: r}
				rule.Monitor(l)
				r = rule
				level--
			case 2:
				r = tok.Named("n", r)
			default:
				r = &tok.Rule{Name: "r", Reader: r}
			}
		}
		if st.Look {
			r = tok.At(r)
		}
		got := r.Read(s)
		if got != err {
			o.Fail("step %d of %v: error %v, want %v", i, c.Steps, got, err)
			return
		}
		if st.Err > 0 && st.To != st.Pos {
			o.NonTrivial()
		}
		o.LabelIf(st.To < st.Pos, "moved back")
		o.LabelIf(st.Err == 2, "own error")
	}
	checkLog(o, fmt.Sprintf("own readers %v on %q", c.Steps, text), l, want)
}

func init() {
	props["C13"].Families = append(props["C13"].Families, Fam("own readers", 10000, 300000, "an own reader moved and failed", genOwnLog, runOwnLog))
}
