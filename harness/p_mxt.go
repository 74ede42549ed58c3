package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ------------------------------------------------------------------------ C26

type mxtChunk struct {
	Deco    Str // behind // and the salt in force
	Gap1    int // spaces before the name
	Name    Str
	Comment Str // as written between name and arrow, begins and ends with a space
	Arrow   Str // the word that ends with -->
	SaltGap int // spaces before the salt, -1: nothing behind the arrow
	Salt    Str
	Trail   int // spaces behind the salt
	NL      Str
	Bare    bool // no line break behind the header (only if the content is empty)
	Content Str
}

type mxtDoc struct {
	Chunks []mxtChunk
	Broken int // index+1 of a chunk whose header is none
	How    int `json:",omitempty"` // see mxtBreaks
}

type mxtCase struct{ Docs []mxtDoc }

var mxtBreaks = []string{"no arrow", "no marker", "no space before the name", "no name", "text right behind the arrow", "text behind the salt", "a tab before the name", "nothing behind the marker", "only spaces behind the marker"}

// what is no marker at the begin of a text
var mxtNoMarks = []string{"/", "", "/ /", " //", "\n//", "\\\\", "#", "/*", "\uFEFF//", "\t//", "\r\n//", "\x00//", "\xff//", "／／"}

// render writes the document; salt is the salt in force at each header.
func (d mxtDoc) render() string {
	var b strings.Builder
	salt := ""
	for i, c := range d.Chunks {
		if i > 0 {
			b.WriteString(string(c.NL))
		}
		how := -1
		if d.Broken == i+1 {
			how = d.How
		}
		mark, gap, name, comment, arrow := "//"+salt+string(c.Deco), strings.Repeat(" ", c.Gap1), string(c.Name), string(c.Comment), string(c.Arrow)
		switch how {
		case 0:
			arrow = "->"
		case 1:
			mark = mxtNoMarks[(c.Gap1+len(name)+3*c.Trail)%len(mxtNoMarks)]
		case 2:
			gap, comment = "", " "
		case 3:
			name, comment = "", " "
		case 4:
			arrow += []string{"x", "-->", "\t", "//"}[c.Gap1%4]
		case 5:
			arrow += " s  " + []string{"x", "//", "\t", "s"}[c.Gap1%4]
		case 6:
			gap, comment = "\t", " "
		case 7:
			gap, name, comment, arrow = "", "", "", ""
		case 8:
			name, comment, arrow = "", "", ""
		}
		b.WriteString(mark + gap + name + comment + arrow)
		salt = ""
		if c.SaltGap >= 0 && how != 5 && how < 7 {
			b.WriteString(strings.Repeat(" ", c.SaltGap))
			b.WriteString(string(c.Salt))
			salt = string(c.Salt)
			b.WriteString(strings.Repeat(" ", c.Trail))
		}
		if !c.Bare {
			b.WriteString(string(c.NL))
			b.WriteString(string(c.Content))
		}
	}
	return b.String()
}

// mxtOdd is an odd rune that does not end a line.
func (g *G) mxtOdd() string {
	if s := g.Odd(); s != "\n" && s != "\r" {
		return s
	}
	return "x"
}

var mxtWords = []string{"a", "user.json", "Σ-element", "x", "salt", "+++", "---", "//", "äöü", "==>", "->", "\"q\"", "C:\\f", "名", "0", "-", ">", "--", "\u00a0", "\u2028", "\uFFFD", "\x7f"}
var mxtSalts = []string{"", "salt", "+", "s", "ss", "//", "Σ", "-->", "x-y", "sal", "a", "--"}

func (g *G) mxtContent(salt string) string {
	var lines []string
	n := g.Size(5)
	if g.Chance(120) {
		n = g.bigOrHuge(150, 1500)
	}
	for i := 0; i < n; i++ {
		l := ""
		switch g.N(7) {
		case 0:
			l = "//" + pick(g, mxtSalts) + pick(g, []string{"", " x -->", " name -->", "comment"})
		case 1:
			l = pick(g, []string{" //", "/", "/ /", "x//salt", "-->", "/" + "//"[:1] + "x"})
		case 2:
			l = g.Text(6)
		case 3:
			l = ""
		case 4:
			// a near miss of the salt
			if len(salt) > 1 {
				l = "//" + salt[:len(salt)-1]
			}
		default:
			l = pick(g, []string{g.mxtOdd(), "{", "text", "a b", "\t", "ä", "int x;"})
		}
		lines = append(lines, l)
	}
	return strings.Join(lines, pick(g, []string{"\n", "\r\n", "\n"}))
}

func mxtContentOK(content, salt string) bool {
	for _, l := range strings.Split(content, "\n") {
		if strings.HasPrefix(l, "//"+salt) {
			return false
		}
	}
	return !strings.HasSuffix(content, "\r")
}

func genMXTDoc(g *G) mxtDoc {
	d := mxtDoc{}
	n := 1 + g.N(5)
	if g.Chance(100) {
		n = g.bigOrHuge(70, 300)
	}
	nl := Str(pick(g, []string{"\n", "\r\n"}))
	mixed := g.Chance(4)
	word := func(n int) string {
		s := ""
		n = 1 + g.N(n)
		if g.Chance(150) {
			n = g.bigSize(66)
		}
		for ; n > 0; n-- {
			w := oddOr(g, mxtWords)
			if []rune(w)[0] <= ' ' {
				w = "x"
			}
			s += w
		}
		return s
	}
	for i := 0; i < n; i++ {
		c := mxtChunk{NL: nl, Gap1: 1 + g.N(3)}
		if mixed {
			c.NL = Str(pick(g, []string{"\n", "\r\n"}))
		}
		if g.Bool() {
			c.Deco = Str(word(2))
		}
		c.Name = Str(word(2))
		if g.Chance(12) {
			c.Name += "-->"
		}
		cm := " "
		for k := g.N(4); k > 0; k-- {
			w := word(2)
			if !strings.Contains(w, "-->") {
				cm += w + strings.Repeat(" ", 1+g.N(2))
			}
			if g.Chance(8) {
				cm += "\t"
			}
		}
		if strings.Contains(cm, "-->") {
			cm = " "
		}
		c.Comment = Str(cm)
		c.Arrow = "-->"
		if g.Bool() {
			w := strings.ReplaceAll(word(2), ">", "")
			if strings.Contains(w+"-->", "-->") && strings.Index(w+"-->", "-->") == len(w) {
				c.Arrow = Str(w + "-->")
			}
		}
		c.SaltGap = -1
		if g.Bool() {
			c.SaltGap = 1 + g.N(2)
			c.Salt = Str(pick(g, mxtSalts))
			if g.Chance(6) {
				c.Salt = Str(word(2))
			}
			c.Trail = g.N(3)
		}
		salt := ""
		if c.SaltGap > 0 {
			salt = string(c.Salt)
		}
		c.Content = Str(g.mxtContent(salt))
		if !mxtContentOK(string(c.Content), salt) {
			c.Content = Str(pick(g, []string{"", "text", "a\n"}))
		}
		if c.Content == "" {
			c.Bare = g.Bool()
		}
		d.Chunks = append(d.Chunks, c)
	}
	return d
}

func genMXT(g *G) mxtCase {
	c := mxtCase{}
	for k := 1 + g.N(3); k > 0; k-- {
		d := genMXTDoc(g)
		if g.Chance(5) {
			// a header without an arrow; nothing behind it may look like one
			i := g.N(len(d.Chunks))
			d.Broken = i + 1
			d.How = g.N(len(mxtBreaks))
			if d.How == 1 {
				i, d.Broken = 0, 1
			}
			for j := i; j < len(d.Chunks); j++ {
				x := &d.Chunks[j]
				if j > i {
					d.Chunks = d.Chunks[:j]
					break
				}
				x.Name, x.Comment = Str(strings.ReplaceAll(string(x.Name), ">", "x")), Str(strings.ReplaceAll(string(x.Comment), ">", "x"))
				x.Salt = Str(strings.ReplaceAll(string(x.Salt), ">", "x"))
				x.Content = Str(strings.ReplaceAll(string(x.Content), ">", "x"))
				salt := string(x.Salt)
				if x.SaltGap < 0 {
					salt = ""
				}
				if !mxtContentOK(string(x.Content), salt) {
					x.Content = "x"
					x.Bare = false
				}
			}
		}
		c.Docs = append(c.Docs, d)
	}
	return c
}

func runMXT(c mxtCase, o *Obs) {
	r := grammar.MXT()
	var s *tok.Scanner
	var names, contents, comments, salts []string
	r.Name.Map(func(t tok.Token) { names = append(names, s.Get(t)) })
	r.Content.Map(func(t tok.Token) { contents = append(contents, s.Get(t)) })
	r.EmptyContent.Map(func(t tok.Token) { contents = append(contents, "") })
	r.Comment.Map(func(t tok.Token) { comments = append(comments, s.Get(t)) })
	r.Salt.Map(func(t tok.Token) { salts = append(salts, strings.Trim(s.Get(t), " ")) })
	basket := &tok.Basket{}
	basket.PickWith(&r.Name, &r.Content, &r.Comment)
	for di, d := range c.Docs {
		text := d.render()
		s = tok.NewScanner(text)
		s.Tracker = basket
		basket.Update(-1)
		names, contents, comments, salts = nil, nil, nil, nil
		err := s.Use(r)
		where := fmt.Sprintf("document %d %q", di, text)
		var wn, wc, wm, ws []string
		salted := false
		for i, x := range d.Chunks {
			if d.Broken == i+1 {
				break
			}
			wn = append(wn, string(x.Name))
			wc = append(wc, string(x.Content))
			wm = append(wm, string(x.Comment))
			if x.SaltGap >= 0 {
				ws = append(ws, string(x.Salt))
				salted = salted || x.Salt != ""
			}
		}
		if d.Broken > 0 {
			o.Label("broken header: " + mxtBreaks[d.How])
			if err == nil && s.AtEnd() {
				o.Fail("%s is read to the end, the header of chunk %d has %s", where, d.Broken, mxtBreaks[d.How])
				return
			}
			if d.Broken == 1 {
				if err == nil {
					o.Fail("%s is read, its first header has %s", where, mxtBreaks[d.How])
					return
				}
				continue
			}
			if err != nil {
				o.Fail("%s: the chunks before the broken header are not read: %v", where, err)
				return
			}
		} else if err != nil || !s.AtEnd() {
			o.Fail("%s is not read to the end: error %v, at %d of %d", where, err, s.Mark(), len(text))
			return
		}
		o.LabelIf(salted, "with salt")
		if len(d.Chunks) > 1 && salted {
			o.NonTrivial()
		}
		// a broken header may have been read in part
		cut := func(l []string, n int) []string {
			if d.Broken > 0 && len(l) > n {
				return l[:n]
			}
			return l
		}
		for _, x := range []struct {
			what      string
			got, want []string
		}{{"names", names, wn}, {"contents", contents, wc}, {"comments", comments, wm}, {"salts", salts, ws}} {
			if g := cut(x.got, len(x.want)); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", x.want) {
				o.Fail("%s: %s are %q, want %q", where, x.what, g, x.want)
				return
			}
		}
		var pn, pc []string
		for _, seg := range basket.Picked() {
			switch seg.Info {
			case "name":
				pn = append(pn, s.Get(seg.Token))
			case "content":
				if seg.Len() > 0 {
					pc = append(pc, s.Get(seg.Token))
				}
			}
		}
		var wcn []string
		for _, x := range wc {
			if x != "" {
				wcn = append(wcn, x)
			}
		}
		if fmt.Sprintf("%q", pn) != fmt.Sprintf("%q", wn) || fmt.Sprintf("%q", pc) != fmt.Sprintf("%q", wcn) {
			o.Fail("%s: picked names %q and contents %q, want %q and %q", where, pn, pc, wn, wcn)
			return
		}
	}
}

func init() {
	register(&Prop{ID: "C26", Families: []Family{
		Fam("round trip", 30000, 1200000, "a document with several chunks and a salt", genMXT, runMXT),
	}})
}
