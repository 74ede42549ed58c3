package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ------------------------------------------------------------------------ C29

var ruleNameRE = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9+\-._]*$`)

// endRE: Go's $ without flag m only matches at the very end.

type nameCase struct {
	Name Str
	N    int // rules around it
	At   int
}

func genNameCase(g *G) nameCase {
	c := nameCase{Name: Str(genRuleName(g)), N: g.N(4)}
	if g.Chance(30) {
		c.N = g.bigSize(130)
	}
	c.At = g.N(c.N + 1)
	return c
}

func genRuleName(g *G) string {
	switch g.N(7) {
	case 6:
		s := "a" + g.Odd()
		if g.Bool() {
			s = g.Odd() + "a"
		}
		return s
	case 0:
		return g.Text(8)
	case 1:
		return pick(g, []string{"", "a", "Z", "1a", "-a", "a b", "a\n", "ä", "aä", "a:", "_a", "a_", "a-b.c+d_e9", "A1", "name ", " name", "na me", ".", "a\x00", "a\xff", "a,b", "a/b", "a@", "a[", "a`", "a{", "@", "[", "`", "{", "a*"})
	}
	s := string("abzAZ"[g.N(5)])
	for n := g.sizeOrBig(g.Size(8), 50, 1500); n > 0; n-- {
		s += string("abzAZ019+-._"[g.N(12)])
	}
	if g.Chance(3) {
		i := g.N(len(s) + 1)
		s = s[:i] + string(g.Rune()) + s[i:]
	}
	return s
}

// zeroReaders are Readers of all kinds of types, zero values too.
var zeroReaders = []func() tok.Reader{
	func() tok.Reader { return tok.Lit("a") },
	func() tok.Reader { return tok.AtEnd() },
	func() tok.Reader { return tok.Lit("") },
	func() tok.Reader { return tok.Between(0, 0) },
	func() tok.Reader { return tok.Rune(0) },
	func() tok.Reader { return &tok.IntReader{} },
	func() tok.Reader { return tok.Any() },
	func() tok.Reader { return tok.Seq() },
	func() tok.Reader { return &tok.Rule{} },
	func() tok.Reader { return tok.InvalidReader("x") },
	func() tok.Reader { return ownFuncReader(func() {}) },
	func() tok.Reader { return ownIntReader(0) },
	func() tok.Reader { return ownReader{} },
	func() tok.Reader { return plainGrammar{} },
	func() tok.Reader { return tok.Match("", nil) },
	func() tok.Reader { return tok.AnyRune("") },
}

type ownFuncReader func()

func (ownFuncReader) Read(s *tok.Scanner) error { return nil }
func (ownFuncReader) What() string              { return "f" }

type ownIntReader int

func (ownIntReader) Read(s *tok.Scanner) error { return nil }
func (ownIntReader) What() string              { return "i" }

func runRuleName(c nameCase, o *Obs) {
	s := string(c.Name)
	want := ruleNameRE.MatchString(s)
	o.LabelIf(want, "valid")
	o.LabelIf(!want, "invalid")
	if len(s) > 1 {
		o.NonTrivial()
	}
	if err := tok.CheckRuleName(s); (err == nil) != want {
		o.Fail("CheckRuleName(%q): %v, a valid name is %v", s, err, want)
		return
	}
	// a rule with that name, through CheckRules
	var rules []*tok.Rule
	for i := 0; i <= c.N; i++ {
		r := &tok.Rule{Name: "ok" + strings.Repeat("+", i%3), Reader: zeroReaders[(i+len(s))%len(zeroReaders)]()}
		if i == c.At {
			r.Name = s
		}
		rules = append(rules, r)
	}
	g := plainGrammar{rules}
	if err := tok.CheckRules(g); (err == nil) != want {
		o.Fail("CheckRules with the name %q: %v, a valid name is %v", s, err, want)
		return
	}
	if p := panics(func() { tok.MustCheckRules(g) }); p == want {
		o.Fail("MustCheckRules with the name %q: panic is %v, a valid name is %v", s, p, want)
	}
	if want {
		g.rules[c.At].Reader = nil
		if tok.CheckRules(g) == nil || !panics(func() { tok.MustCheckRules(g) }) {
			o.Fail("CheckRules accepts the rule %q without a Reader", s)
		}
	}
}

type plainGrammar struct{ rules []*tok.Rule }

func (g plainGrammar) Read(s *tok.Scanner) error { return nil }
func (g plainGrammar) What() string              { return "plain" }
func (g plainGrammar) Grammar() []*tok.Rule      { return g.rules }

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// structSpec describes a grammar struct; the types are generated as Go source,
// compiled against the code under test and run.
type fieldSpec struct {
	Kind   string // rule, lower, ptr, string, int, alias, slice, iface, sub, embed, embedsub, func
	Tag    Str    // complete tag
	Preset Str    // name before SetRuleNames
	Reader bool
}

type structSpec struct{ Fields []fieldSpec }

type structCase struct{ Specs []structSpec }

var fieldKinds = []string{"rule", "rule", "rule", "rule", "rule", "rule", "lower", "ptr", "string", "int", "alias", "array", "iface", "sub", "func"}

func genStruct(g *G) structSpec {
	var sp structSpec
	n := g.sizeOrBig(g.Size(8), 60, 70)
	emb, embs := false, false
	for i := 0; i < n; i++ {
		f := fieldSpec{Kind: pick(g, fieldKinds), Reader: !g.Chance(8)}
		if g.Chance(12) && !emb {
			f.Kind, emb = "embed", true
		} else if g.Chance(12) && !embs {
			f.Kind, embs = "embedsub", true
		}
		name := genRuleName(g)
		for strings.ContainsAny(name, "`\r") {
			name = "fallback"
		}
		if !g.Chance(12) && !ruleNameRE.MatchString(name) {
			name = "a" + string("bc1+-._"[g.N(7)])
		}
		switch g.N(8) {
		case 0:
			f.Tag = ""
		case 1:
			f.Tag = Str(`json:"x"`)
		case 2:
			f.Tag = Str(fmt.Sprintf(`json:"x" name:%q`, name))
		case 3:
			f.Tag = `name:""`
		case 4:
			f.Tag = Str(fmt.Sprintf(`name:%q json:"y"`, name))
		default:
			f.Tag = Str(fmt.Sprintf(`name:%q`, name))
		}
		if g.Chance(3) {
			f.Preset = Str(pick(g, []string{"pre", "P1", "x y", "old-name"}))
		}
		sp.Fields = append(sp.Fields, f)
	}
	return sp
}

func genStructs(g *G) structCase {
	c := structCase{}
	for n := 1 + g.N(80); n > 0; n-- {
		c.Specs = append(c.Specs, genStruct(g))
	}
	return c
}

func (f fieldSpec) isRule() bool { return f.Kind == "rule" || f.Kind == "embed" }

func fieldName(i int, f fieldSpec) string {
	switch f.Kind {
	case "lower":
		return fmt.Sprintf("f%d", i)
	case "embed":
		return "Rule"
	case "embedsub":
		return "Sub"
	}
	return fmt.Sprintf("F%d", i)
}

func structSource(c structCase) string {
	var b strings.Builder
	b.WriteString(`package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/aiq/tok"
	. "github.com/aiq/tok"
)

type result struct {
	SetErr, CheckErr, SetPanic, CheckPanic bool
	Panic string
	Names []string
	Collected []int
	LowerName []string
	Hidden []string
}

type MyRule tok.Rule
type Sub struct {
	In tok.Rule ` + "`name:\"inner\"`" + `
}

func pan(f func()) (p bool) {
	defer func() { if recover() != nil { p = true } }()
	f()
	return
}

var _ = fmt.Sprint
var _ Reader

type base struct{ rules func() []*tok.Rule }

func (base) Read(s *tok.Scanner) error { return nil }
func (base) What() string { return "g" }
func (b base) Grammar() []*tok.Rule { return b.rules() }

`)
	for si, sp := range c.Specs {
		// types of the same name in different functions and types without a name
		kind := si % 3
		for _, f := range sp.Fields {
			if f.Kind == "embed" {
				kind = 0
			}
		}
		typ := fmt.Sprintf("g%d", si)
		var fields, local strings.Builder
		for i, f := range sp.Fields {
			ft := map[string]string{"rule": "tok.Rule", "lower": "tok.Rule", "ptr": "*tok.Rule", "string": "string", "int": "int", "alias": "MyRule", "array": "[2]tok.Rule", "iface": "tok.Reader", "sub": "Sub", "func": "func()"}[f.Kind]
			tag := ""
			if f.Tag != "" {
				tag = " " + fmt.Sprintf("%q", string(f.Tag))
			}
			switch f.Kind {
			case "embed":
				fmt.Fprintf(&fields, "\tRule%s\n", tag)
			case "embedsub":
				fmt.Fprintf(&fields, "\tSub%s\n", tag)
			default:
				fmt.Fprintf(&fields, "\t%s %s%s\n", fieldName(i, f), ft, tag)
			}
		}
		switch kind {
		case 0:
			fmt.Fprintf(&b, "type g%d struct {\n%s}\n\nfunc (g *g%d) Read(s *tok.Scanner) error { return nil }\nfunc (g *g%d) What() string { return \"g\" }\nfunc (g *g%d) Grammar() []*tok.Rule { return tok.CollectRules(g) }\n\n", si, fields.String(), si, si, si)
		case 1:
			typ = "G"
			fmt.Fprintf(&local, "\ttype G struct {\n\tbase\n%s}\n", fields.String())
		case 2:
			typ = "T"
			fmt.Fprintf(&local, "\ttype T = struct {\n\tbase\n%s}\n", fields.String())
		}
		fmt.Fprintf(&b, "func run%d() (r result) {\n%s\tdefer func() { if p := recover(); p != nil { r.Panic = fmt.Sprint(p) } }()\n\tmk := func() *%s {\n\t\tg := &%s{}\n", si, local.String(), typ, typ)
		for i, f := range sp.Fields {
			if f.isRule() || f.Kind == "lower" {
				if f.Preset != "" {
					fmt.Fprintf(&b, "\t\tg.%s.Name = %q\n", fieldName(i, f), string(f.Preset))
				}
				if f.Reader {
					fmt.Fprintf(&b, "\t\tg.%s.Reader = tok.Lit(\"a\")\n", fieldName(i, f))
				}
			}
		}
		for i, f := range sp.Fields {
			// what only looks like a rule: filled in, and still no rule of the grammar
			if f.Reader {
				n := fieldName(i, f)
				switch f.Kind {
				case "ptr":
					fmt.Fprintf(&b, "\t\tg.%s = &tok.Rule{Name: \"hidden\", Reader: tok.Lit(\"a\")}\n", n)
				case "iface":
					fmt.Fprintf(&b, "\t\tg.%s = &tok.Rule{Name: \"hidden\", Reader: tok.Lit(\"a\")}\n", n)
				case "alias":
					fmt.Fprintf(&b, "\t\tg.%s.Name, g.%s.Reader = \"hidden\", tok.Lit(\"a\")\n", n, n)
				case "array":
					fmt.Fprintf(&b, "\t\tg.%s[0].Name, g.%s[0].Reader = \"hidden\", tok.Lit(\"a\")\n", n, n)
				case "sub", "embedsub":
					fmt.Fprintf(&b, "\t\tg.%s.In.Name, g.%s.In.Reader = \"hidden\", tok.Lit(\"a\")\n", n, n)
				}
			}
		}
		if kind != 0 {
			fmt.Fprintf(&b, "\t\tg.base.rules = func() []*tok.Rule { return tok.CollectRules(g) }\n")
		}
		fmt.Fprintf(&b, "\t\treturn g\n\t}\n\tg := mk()\n\tr.SetErr = tok.SetRuleNames(g) != nil\n")
		fmt.Fprintf(&b, "\th := mk()\n\tr.SetPanic = pan(func() { tok.MustSetRuleNames(h) })\n")
		fmt.Fprintf(&b, "\tr.CheckErr = tok.CheckRules(g) != nil\n\tr.CheckPanic = pan(func() { tok.MustCheckRules(g) })\n")
		fmt.Fprintf(&b, "\tptrs := []*tok.Rule{")
		for i, f := range sp.Fields {
			if f.isRule() {
				fmt.Fprintf(&b, "&g.%s, ", fieldName(i, f))
			}
		}
		fmt.Fprintf(&b, "}\n\tfor _, p := range ptrs { r.Names = append(r.Names, p.Name) }\n")
		fmt.Fprintf(&b, "\tfor _, c := range tok.CollectRules(g) {\n\t\tat := -1\n\t\tfor i, p := range ptrs { if p == c { at = i } }\n\t\tr.Collected = append(r.Collected, at)\n\t}\n")
		for i, f := range sp.Fields {
			if f.Kind == "lower" {
				fmt.Fprintf(&b, "\tr.LowerName = append(r.LowerName, g.%s.Name)\n", fieldName(i, f))
			}
			if f.Reader {
				n := fieldName(i, f)
				switch f.Kind {
				case "ptr":
					fmt.Fprintf(&b, "\tr.Hidden = append(r.Hidden, g.%s.Name)\n", n)
				case "iface":
					fmt.Fprintf(&b, "\tr.Hidden = append(r.Hidden, g.%s.(*tok.Rule).Name)\n", n)
				case "alias":
					fmt.Fprintf(&b, "\tr.Hidden = append(r.Hidden, g.%s.Name)\n", n)
				case "array":
					fmt.Fprintf(&b, "\tr.Hidden = append(r.Hidden, g.%s[0].Name)\n", n)
				case "sub", "embedsub":
					fmt.Fprintf(&b, "\tr.Hidden = append(r.Hidden, g.%s.In.Name)\n", n)
				}
			}
		}
		b.WriteString("\treturn\n}\n\n")
	}
	b.WriteString("func main() {\n\tvar all []result\n")
	for si := range c.Specs {
		fmt.Fprintf(&b, "\tall = append(all, run%d())\n", si)
	}
	b.WriteString("\tjson.NewEncoder(os.Stdout).Encode(all)\n}\n")
	return b.String()
}

var tagRE = regexp.MustCompile(`name:("(?:[^"\\]|\\.)*")`)

func runStructs(c structCase, o *Obs) {
	dir, err := os.MkdirTemp("", "verif-structs-")
	if err != nil {
		panic(harnessError{err.Error()})
	}
	defer os.RemoveAll(dir)
	must := func(err error, out []byte) {
		if err != nil {
			panic(harnessError{fmt.Sprintf("generated program: %v: %s", err, out)})
		}
	}
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module gen\n\ngo 1.21\n\nrequire github.com/aiq/tok v0.0.0\n\nreplace github.com/aiq/tok => /repo\n"), 0o644), nil)
	must(os.WriteFile(filepath.Join(dir, "main.go"), []byte(structSource(c)), 0o644), nil)
	build := exec.Command("go", "build", "-o", "gen", ".")
	build.Dir = dir
	build.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	out, err := build.CombinedOutput()
	must(err, out)
	out, err = exec.Command(filepath.Join(dir, "gen")).Output()
	must(err, out)
	var res []struct {
		SetErr, CheckErr, SetPanic, CheckPanic bool
		Panic                                  string
		Names                                  []string
		Collected                              []int
		LowerName                              []string
		Hidden                                 []string
	}
	must(json.Unmarshal(out, &res), out)
	if len(res) != len(c.Specs) {
		panic(harnessError{"results missing"})
	}
	o.NonTrivial()
	for si, sp := range c.Specs {
		r := res[si]
		desc := fmt.Sprintf("struct %+v", sp.Fields)
		if r.Panic != "" {
			o.Fail("%s: panic %s", desc, r.Panic)
			return
		}
		badTag := false
		badRule := false
		n := 0
		var names []string
		var lower []string
		for _, f := range sp.Fields {
			if f.Kind == "lower" {
				lower = append(lower, string(f.Preset))
			}
			if !f.isRule() {
				continue
			}
			name := ""
			if m := tagRE.FindStringSubmatch(string(f.Tag)); m != nil {
				if err := unquoteTag(m[1], &name); err != nil {
					panic(harnessError{err.Error()})
				}
			}
			if name != "" && !ruleNameRE.MatchString(name) {
				badTag = true
			}
			final := name
			if name == "" {
				final = string(f.Preset)
			}
			names = append(names, final)
			if !ruleNameRE.MatchString(final) || !f.Reader {
				badRule = true
			}
			n++
		}
		o.LabelIf(badTag, "invalid tag")
		o.LabelIf(!badTag && badRule, "invalid rule")
		o.LabelIf(!badTag && !badRule, "valid grammar")
		if r.SetErr != badTag || r.SetPanic != badTag {
			o.Fail("%s: SetRuleNames error %v, panic of Must %v, a tag is invalid: %v", desc, r.SetErr, r.SetPanic, badTag)
			return
		}
		if len(r.Collected) != n {
			o.Fail("%s: CollectRules returned %d rules, want %d", desc, len(r.Collected), n)
			return
		}
		for i, at := range r.Collected {
			if at != i {
				o.Fail("%s: CollectRules returned rule %d at %d", desc, at, i)
				return
			}
		}
		if fmt.Sprintf("%q", r.LowerName) != fmt.Sprintf("%q", lower) {
			o.Fail("%s: names of unexported fields changed to %q", desc, r.LowerName)
			return
		}
		for _, h := range r.Hidden {
			if h != "hidden" {
				o.Fail("%s: a rule that is no field of the grammar is named %q now", desc, h)
				return
			}
		}
		if badTag {
			continue
		}
		if fmt.Sprintf("%q", r.Names) != fmt.Sprintf("%q", names) {
			o.Fail("%s: names are %q, want %q", desc, r.Names, names)
			return
		}
		if r.CheckErr != badRule || r.CheckPanic != badRule {
			o.Fail("%s: CheckRules error %v, panic of Must %v, a rule is invalid: %v", desc, r.CheckErr, r.CheckPanic, badRule)
			return
		}
	}
}

// the grammars of the repository: names and completeness
type ownCase struct{ G int }

func runOwn(c ownCase, o *Obs) {
	o.NonTrivial()
	g := newGrammar(c.G)
	if err := tok.CheckRules(g); err != nil {
		o.Fail("grammar %s: %v", g.What(), err)
	}
	seen := map[string]bool{}
	for _, r := range g.Grammar() {
		if seen[r.Name] {
			o.Fail("grammar %s: two rules are named %s", g.What(), r.Name)
		}
		seen[r.Name] = true
	}
	if tok.AnyHasInvalidReader(tok.GrammarLines(g.Grammar())) {
		o.Fail("grammar %s has an invalid reader", g.What())
	}
}

func newGrammar(k int) tok.Grammar {
	switch k % 3 {
	case 0:
		return grammar.JSON()
	case 1:
		return grammar.Lua()
	}
	return grammar.MXT()
}

// ------------------------------------------- documents of the three grammars

// gramCase is a document for grammar G, whole or damaged.
type gramCase struct {
	Pre   Str
	G     int
	Texts []Str
	Obs   []int // observers of the rules, 0..7 each, in order
	Order int
	Mode  int
}

var luaBits = []string{"end", "(", ")", "{", "}", "[", "]", "[[", "]]", "--", "--[[", "\"", "'", "\\", "\n", " ", "=", "==", "::", ";", ",", ".", "..", "...", "x", "1", "0x", "function", "do", "if", "then", "else", "until", "return", "local", "~", "#", "not", "\xff", "ä", "\x00"}
var mxtBits = []string{"//", "-->", "\n", "\r\n", " ", "salt", "x", "--", ">", "\xff", "ä", "\n//", "\t"}

func (g *G) gramText(k int) string {
	switch k {
	case 0:
		s, _ := genJSONDoc(g)
		if g.Bool() {
			s = g.mutate(s, jsonBits, 3)
		}
		return s
	case 1:
		c := genLua(g)
		c.SheBang = ""
		s, _, _ := c.render()
		if len(s) > 300 {
			s = s[:300]
		}
		if g.Bool() {
			s = g.mutate(s, luaBits, 3)
		}
		return s
	}
	s := genMXTDoc(g).render()
	if g.Bool() {
		s = g.mutate(s, mxtBits, 3)
	}
	return s
}

func genGram(texts int) func(g *G) gramCase {
	return func(g *G) gramCase {
		c := gramCase{G: g.N(3), Mode: g.N(6), Order: g.N(3)}
		if g.Chance(3) {
			c.Pre = Str(g.Text(5))
		}
		for n := 1 + g.N(texts); n > 0; n-- {
			c.Texts = append(c.Texts, Str(g.gramText(c.G)))
		}
		dense := g.N(3)
		for range newGrammar(c.G).Grammar() {
			v := 0
			if dense == 2 || dense == 1 && g.Chance(4) {
				v = g.N(8)
			}
			c.Obs = append(c.Obs, v)
		}
		return c
	}
}

func gramName(k int) string { return []string{"json", "lua", "mxt"}[k%3] }

// runGramObs: C14 for the grammars.
func runGramObs(c gramCase, o *Obs) {
	observed := newGrammar(c.G)
	log, basket := &tok.Log{}, &tok.Basket{}
	mapped := 0
	for i, r := range observed.Grammar() {
		v := 0
		if i < len(c.Obs) {
			v = c.Obs[i]
		}
		for k := 0; k < 3; k++ {
			switch (k + c.Order) % 3 {
			case 0:
				if v&1 != 0 {
					r.Pick(basket)
				}
			case 1:
				if v&2 != 0 {
					r.Map(func(tok.Token) { mapped++ })
				}
			case 2:
				if v&4 != 0 {
					r.Monitor(log)
				}
			}
		}
	}
	for _, t := range c.Texts {
		text := string(t)
		plain := newGrammar(c.G)
		at := tok.Marker(len(c.Pre))
		s1 := tok.NewScanner(string(c.Pre) + text)
		s1.ToMarker(at)
		e1 := s1.Use(plain)
		s2 := tok.NewScanner(string(c.Pre) + text)
		s2.ToMarker(at)
		log.Reset()
		switch c.Mode {
		case 1:
			basket.Update(-1)
			s2.Tracker = basket
		case 2:
			s2.Tracker = &markTracker{}
		case 3:
			s2.NewBasket()
		case 4:
			s2.NewBasketFor(observed)
		case 5:
			s2.NewBasketFor(observed).PickWith(observed.Grammar()...)
			tok.MonitorGrammar(observed)
		}
		if s2.Mark() != at {
			o.Fail("coupling a Tracker (mode %d) moved the scanner from %d to %d", c.Mode, at, s2.Mark())
			return
		}
		e2 := s2.Use(observed)
		o.Label(gramName(c.G))
		if s1.Mark() > 0 || e1 != nil {
			o.NonTrivial()
		}
		if (e1 == nil) != (e2 == nil) || s1.Mark() != s2.Mark() || (e1 != nil && e1.Error() != e2.Error()) {
			o.Fail("%s grammar on %q: with observers error %v at %d, without error %v at %d", gramName(c.G), text, e2, s2.Mark(), e1, s1.Mark())
			return
		}
	}
}

// runGramReuse: C15 for the grammars.
func runGramReuse(c gramCase, o *Obs) {
	read := func(g tok.Grammar, b *tok.Basket, text string) string {
		s := tok.NewScanner(text)
		b.Update(-1)
		s.Tracker = b
		err := s.Use(g)
		return fmt.Sprintf("error %v at %d, picked %s", err, s.Mark(), showSegs(nonEmpty(asRefSegs(b.Picked()))))
	}
	mk := func() (tok.Grammar, *tok.Basket) {
		g, b := newGrammar(c.G), &tok.Basket{}
		b.PickWith(g.Grammar()...)
		return g, b
	}
	used, ub := mk()
	for i, t := range c.Texts {
		fresh, fb := mk()
		want := read(fresh, fb, string(t))
		got := read(used, ub, string(t))
		o.Label(gramName(c.G))
		if i > 0 {
			o.NonTrivial()
		}
		if got != want {
			o.Fail("%s grammar, text %d of %q: reused %s, fresh %s", gramName(c.G), i, c.Texts, got, want)
			return
		}
	}
}

// runGramTerm: C09 for the grammars; the watchdog decides.
func runGramTerm(c gramCase, o *Obs) {
	for _, t := range c.Texts {
		text := string(t)
		g := newGrammar(c.G)
		s := tok.NewScanner(text)
		cnt := &countTracker{}
		s.Tracker = cnt
		s.Use(g)
		o.Label(gramName(c.G))
		if len(text) > 4 {
			o.NonTrivial()
		}
		if p := int(s.Mark()); p < 0 || p > len(text) {
			o.Fail("%s grammar on %q ends at %d", gramName(c.G), text, p)
			return
		}
	}
}

type countTracker struct{ n int }

func (c *countTracker) Update(tok.Marker) { c.n++ }

func genTrunc(g *G) gramCase {
	c := gramCase{G: g.N(3)}
	var s string
	switch c.G {
	case 1:
		x := genLua(g)
		s, _, _ = x.render()
		if len(s) > 250 {
			s = s[:250]
		}
	case 0:
		s, _ = genJSONDoc(g)
	default:
		s = genMXTDoc(g).render()
	}
	bits := [][]string{jsonBits, luaBits, mxtBits}[c.G]
	k := 1 + g.N(3)
	for i := 0; i < k; i++ {
		t := s
		if len(t) > 0 {
			t = t[:g.N(len(t)+1)]
		}
		if g.Bool() {
			t = g.mutate(t, bits, 2)
		}
		c.Texts = append(c.Texts, Str(t))
	}
	return c
}

// runGramError: C10 for the rules of the grammars.
type gramErrCase struct {
	G    int
	Rule int
	Text Str
	Pos  int
}

func genGramErr(g *G) gramErrCase {
	c := gramErrCase{G: g.N(3), Rule: g.N(48)}
	t := g.gramText(c.G)
	if len(t) > 200 {
		t = t[:200]
	}
	c.Text = Str(t)
	c.Pos = g.Pos(t)
	return c
}

func runGramErr(c gramErrCase, o *Obs) {
	gr := newGrammar(c.G)
	rules := gr.Grammar()
	r := rules[c.Rule%len(rules)]
	s := tok.NewScanner(string(c.Text))
	s.ToMarker(tok.Marker(c.Pos))
	err := s.Use(r)
	if err == nil {
		o.Skip("read")
		return
	}
	re, ok := err.(tok.ReadError)
	if !ok {
		o.Fail("rule %s of the %s grammar on %q from %d: %v (%T) is no ReadError", r.Name, gramName(c.G), string(c.Text), c.Pos, err, err)
		return
	}
	if int(re.Marker) > c.Pos {
		o.NonTrivial()
	}
	if int(re.Marker) < c.Pos || int(re.Marker) > len(c.Text) || re.What == "" {
		o.Fail("rule %s of the %s grammar on %q from %d: error %v with marker %d", r.Name, gramName(c.G), string(c.Text), c.Pos, err, re.Marker)
		return
	}
	// the message of the whole grammar carries the one of the rule
	s.ToStart()
	if err := s.Use(gr); err != nil && !strings.Contains(err.Error(), "not able to read") {
		o.Fail("%s grammar on %q: message %q", gramName(c.G), string(c.Text), err.Error())
	}
}

func init() {
	register(&Prop{ID: "C29", Families: []Family{
		Fam("names", 60000, 1500000, "longer than one byte", genNameCase, runRuleName),
		Fam("own grammars", 16, 64, "every case", func(g *G) ownCase { return ownCase{g.N(3)} }, runOwn),
		Fam("structs", 16, 400, "every batch of up to 80 generated struct types", genStructs, runStructs),
	}})
	add := func(id string, f Family) { props[id].Families = append(props[id].Families, f) }
	add("C09", Fam("grammars", 8000, 300000, "a text of more than four bytes", genTrunc, runGramTerm))
	add("C10", Fam("grammars", 20000, 600000, "the failure lies behind the start", genGramErr, runGramErr))
	add("C14", Fam("grammars", 6000, 200000, "the plain grammar moved or failed", genGram(2), runGramObs))
	add("C15", Fam("grammars", 5000, 200000, "at least the second text", genGram(4), runGramReuse))
}
