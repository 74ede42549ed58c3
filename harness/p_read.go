package main

import (
	"math/big"
	"strings"

	"github.com/aiq/tok"
)

// ------------------------------------------------------------------------ C06

type numCase struct {
	Pre, Text Str
	Unsigned  bool
	Reader    bool
	Base, Bit int
	Warm      []Str `json:",omitempty"` // texts the same reader reads before
}

func genNum(g *G) numCase {
	c := numCase{Unsigned: g.Bool(), Reader: g.Bool()}
	c.Base = pick(g, []int{8, 10, 16})
	c.Bit = pick(g, []int{8, 16, 32, 64})
	if g.Chance(12) {
		c.Base = pick(g, []int{0, 1, 2, 7, 9, 12, 36, -10, g.DictInt(3)})
	}
	if g.Chance(12) {
		c.Bit = pick(g, []int{0, 1, 7, 63, 128, -8, g.DictInt(3)})
	}
	var b strings.Builder
	switch g.N(8) {
	case 0:
		b.WriteByte('-')
	case 1, 2:
		b.WriteByte('+')
	case 3, 4:
		b.WriteByte('-')
	}
	if g.Chance(12) {
		b.WriteString(pick(g, []string{"-", "+", " ", "--"}))
	}
	if g.Chance(4) {
		k := g.Size(30)
		if g.Chance(20) {
			k = g.bigOrHuge(300, 5000)
		}
		b.WriteString(strings.Repeat("0", k))
	}
	base := c.Base
	if base < 2 || base > 36 {
		base = 10
	}
	if g.Chance(3) {
		n := g.Size(40)
		digits := "0123456789abcdefABCDEF"
		if !g.Chance(5) {
			switch base {
			case 8:
				digits = "01234567"
			case 10:
				digits = "0123456789"
			}
		}
		for i := 0; i < n; i++ {
			b.WriteByte(digits[g.N(len(digits))])
		}
	} else {
		// around a boundary: k * 2^e + d
		e := pick(g, []uint{7, 8, 15, 16, 31, 32, 63, 64, 63, 64, 65, 66, 67, 68})
		if !g.Chance(3) && c.Bit >= 8 && c.Bit <= 64 {
			e = uint(c.Bit)
			if !c.Unsigned {
				e--
			}
		}
		v := new(big.Int).Lsh(big.NewInt(1), e)
		switch g.N(4) {
		case 0:
			v.Mul(v, big.NewInt(int64(g.Range(1, 20))))
		case 1:
			v.Div(v, big.NewInt(int64(g.Range(1, 20))))
		}
		v.Add(v, big.NewInt(int64(g.Range(-20, 20))))
		if v.Sign() < 0 {
			v.Neg(v)
		}
		t := v.Text(base)
		if g.Bool() {
			t = strings.ToUpper(t)
		}
		b.WriteString(t)
		if g.Chance(3) {
			b.WriteString(string("01789afF"[g.N(8)]))
		}
	}
	if g.Chance(3) {
		b.WriteString(oddOr(g, []string{"g", " ", "x", ".5", "ä", "８", "٣", "-", "/", ":", "@", "G", "`", "\xff", "8", "9"}))
	}
	c.Text = Str(b.String())
	if g.Chance(3) {
		c.Pre = Str(pick(g, []string{"1", "-", "ab", "ä", "7\n"}))
	}
	if c.Reader {
		for g.Chance(3) && len(c.Warm) < 4 {
			c.Warm = append(c.Warm, Str(pick(g, []string{"1", "-7", "0", "", "x", "127", "-128", "99999999999999999999", "7f", "+3", "-"})))
		}
		if g.Chance(8) {
			c.Text = Str(pick(g, []string{"0", "-0", "+0", "00", "x", "", "-", "1", "0x"}))
		}
	}
	return c
}

func digitVal(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10
	}
	return 99
}

func runNum(c numCase, o *Obs) {
	text := string(c.Pre) + string(c.Text)
	s := place(text, len(c.Pre))
	if s == nil {
		o.Fail("cannot place")
		return
	}
	var err error
	got := new(big.Int)
	if c.Unsigned {
		var v uint64
		if c.Reader {
			r := tok.Uint(c.Base, c.Bit)
			for _, w := range c.Warm {
				tok.NewScanner(string(w)).Use(r)
			}
			err = s.Use(r)
			v = r.Value
		} else {
			v, err = s.ReadUint(c.Base, c.Bit)
		}
		got.SetUint64(v)
	} else {
		var v int64
		if c.Reader {
			r := tok.Int(c.Base, c.Bit)
			for _, w := range c.Warm {
				tok.NewScanner(string(w)).Use(r)
			}
			err = s.Use(r)
			v = r.Value
		} else {
			v, err = s.ReadInt(c.Base, c.Bit)
		}
		got.SetInt64(v)
	}
	okBase := c.Base == 8 || c.Base == 10 || c.Base == 16
	okBit := c.Bit == 8 || c.Bit == 16 || c.Bit == 32 || c.Bit == 64
	at := len(c.Pre)
	if !okBase || !okBit {
		o.Label("bad-config")
		if err == nil || int(s.Mark()) != at || got.Sign() != 0 {
			o.Fail("base %d and bit size %d accepted (%v) at %d", c.Base, c.Bit, got, s.Mark())
		}
		return
	}
	// reference
	lim := new(big.Int)
	p := at
	neg := false
	if c.Unsigned {
		lim.Sub(lim.Lsh(big.NewInt(1), uint(c.Bit)), big.NewInt(1))
	} else {
		lim.Lsh(big.NewInt(1), uint(c.Bit-1))
		if p < len(text) && (text[p] == '-' || text[p] == '+') {
			neg = text[p] == '-'
			p++
		}
		if !neg {
			lim.Sub(lim, big.NewInt(1))
		}
	}
	val := new(big.Int)
	n := 0
	cut := false
	for ; p < len(text); p++ {
		d := digitVal(text[p])
		if d >= c.Base {
			break
		}
		next := new(big.Int).Mul(val, big.NewInt(int64(c.Base)))
		next.Add(next, big.NewInt(int64(d)))
		if next.Cmp(lim) > 0 {
			cut = true
			break
		}
		val = next
		n++
	}
	if neg {
		val.Neg(val)
	}
	if n == 0 {
		o.Label("no-digit")
		if err == nil || int(s.Mark()) != at || got.Sign() != 0 {
			o.Fail("%+v: no digit, but got %v, %v at %d", c, got, err, s.Mark())
		}
		return
	}
	if err != nil || got.Cmp(val) != 0 || int(s.Mark()) != p {
		o.Fail("%+v: got %v, %v at %d, want %v at %d", c, got, err, s.Mark(), val, p)
		return
	}
	o.LabelIf(cut, "stopped-by-limit")
	o.LabelIf(neg, "negative")
	if n > 1 {
		o.NonTrivial()
	}
}

type boolCase struct {
	Pre, Text Str
	Format    Str
	Reader    bool
	Warm      []Str `json:",omitempty"` // texts the same reader reads before
}

func genBool(g *G) boolCase {
	c := boolCase{Reader: g.Bool()}
	c.Format = Str(pick(g, []string{"", "*", "l", "U", "Cc", "", "*", "l", "U", "Cc", "", "*", "l", "U", "Cc", "u", "L", "CC", "cc", "cC", "**", " ", "true", "C", "c", "Ul", "l ", "*l", "lU", "Ccc", " Cc", "\x00", "i", "T"}))
	w := pick(g, []string{"true", "false", "TRUE", "FALSE", "True", "False"})
	switch g.N(6) {
	case 0:
		w = g.swapCase(w)
	case 1:
		w = w[:g.N(len(w))]
	case 2:
		w += pick(g, []string{"x", " ", "e", "true"})
	case 3:
		w = pick(g, []string{"t", "f", " ", "x"}) + w
	}
	c.Text = Str(w)
	if g.Chance(3) {
		c.Pre = Str(pick(g, []string{"true", "ä", " "}))
	}
	if c.Reader {
		for g.Chance(3) && len(c.Warm) < 4 {
			c.Warm = append(c.Warm, Str(pick(g, []string{"true", "false", "TRUE", "FALSE", "True", "False", "", "x", "tru"})))
		}
	}
	return c
}

func runBool(c boolCase, o *Obs) {
	text := string(c.Pre) + string(c.Text)
	s := place(text, len(c.Pre))
	if s == nil {
		o.Fail("cannot place")
		return
	}
	var v bool
	var err error
	if c.Reader {
		r := tok.Bool(string(c.Format))
		for _, w := range c.Warm {
			tok.NewScanner(string(w)).Use(r)
		}
		err = s.Use(r)
		v = r.Value
	} else {
		v, err = s.ReadBool(string(c.Format))
	}
	var forms [][2]string
	l, u, cc := [2]string{"true", "false"}, [2]string{"TRUE", "FALSE"}, [2]string{"True", "False"}
	switch c.Format {
	case "", "*":
		forms = [][2]string{l, u, cc}
	case "l":
		forms = [][2]string{l}
	case "U":
		forms = [][2]string{u}
	case "Cc":
		forms = [][2]string{cc}
	}
	at := len(c.Pre)
	for _, f := range forms {
		for i, w := range f {
			if strings.HasPrefix(text[at:], w) {
				if err != nil || v != (i == 0) || int(s.Mark()) != at+len(w) {
					o.Fail("%+v: got %v, %v at %d, want %v at %d", c, v, err, s.Mark(), i == 0, at+len(w))
				}
				o.NonTrivial()
				o.Label("hit")
				return
			}
		}
	}
	if err == nil || int(s.Mark()) != at || v {
		o.Fail("%+v: got %v, %v at %d, want an error and false", c, v, err, s.Mark())
	}
	o.LabelIf(len(forms) == 0, "bad-format")
}

func init() {
	register(&Prop{ID: "C06", Families: []Family{
		Fam("number", 600000, 12000000, "digit strings around every boundary of every bit size and base, with signs, leading zeros, extra digits, foreign digits, at an offset, through ReadInt/ReadUint or the readers (which may have read other texts before), against math/big; non-trivial: at least two digits are read", genNum, runNum),
		Fam("bool", 100000, 2000000, "spellings, near misses and all formats; non-trivial: a value is read", genBool, runBool),
	}})
}
