package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Str is a string that survives JSON even if it is not valid UTF-8.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(s)))
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	if err != nil {
		return fmt.Errorf("%v: %s", err, q)
	}
	*s = Str(u)
	return nil
}

// G draws everything from rapid, so that runs are reproducible and shrink.
type G struct {
	t *rapid.T
}

var digitGen = rapid.IntRange(0, 7)
var boolGen = rapid.Bool()

// N draws a nearly uniform value from 0..n-1.
func (g *G) N(n int) int {
	if n <= 1 {
		return 0
	}
	if n <= 8 {
		return rapid.IntRange(0, n-1).Draw(g.t, "n")
	}
	v := 0
	for k := n - 1; k > 0; k /= 8 {
		v = v*8 + digitGen.Draw(g.t, "d")
	}
	return v % n
}

// Range draws lo..hi, nearly uniform.
func (g *G) Range(lo, hi int) int { return lo + g.N(hi-lo+1) }

// Chance is true in about one of n cases.
func (g *G) Chance(n int) bool { return g.N(n) == n-1 }
func (g *G) Bool() bool        { return boolGen.Draw(g.t, "b") }

// Size draws a mostly small size, now and then up to max.
func (g *G) Size(max int) int {
	switch g.N(8) {
	case 0, 1, 2:
		return g.N(min(max, 4) + 1)
	case 3, 4, 5:
		return g.N(min(max, 10) + 1)
	case 6:
		return g.N(min(max, 40) + 1)
	default:
		return g.N(max + 1)
	}
}

func pick[T any](g *G, list []T) T { return list[g.N(len(list))] }

// weighted picks an index with the given weights.
func (g *G) weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := g.N(sum)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return len(w) - 1
}

// ------------------------------------------------------------------ dictionary

// The dictionary holds the literals of the code under test (its non-test
// files), the usual "auto dictionary" of a fuzzer: values that the code treats
// specially are likely to be written in it.
var dict struct {
	ints  []int64
	runes []rune
	strs  []string
}

func loadDict() {
	ints := map[int64]bool{}
	runes := map[rune]bool{}
	strs := map[string]bool{}
	for _, dir := range []string{"/repo", "/repo/grammar"} {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			file, err := parser.ParseFile(token.NewFileSet(), f, src, 0)
			if err != nil {
				continue
			}
			skip := map[*ast.BasicLit]bool{}
			ast.Inspect(file, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					skip[x.Path] = true
				case *ast.Field:
					if x.Tag != nil {
						skip[x.Tag] = true
					}
				case *ast.BinaryExpr: // 1 << 10, 4 * 1024
					a, aok := x.X.(*ast.BasicLit)
					b, bok := x.Y.(*ast.BasicLit)
					if aok && bok && a.Kind == token.INT && b.Kind == token.INT {
						u, e1 := strconv.ParseInt(a.Value, 0, 64)
						v, e2 := strconv.ParseInt(b.Value, 0, 64)
						if e1 == nil && e2 == nil && u >= 0 && v >= 0 && u < 1<<31 && v < 1<<31 {
							w := u + v
							switch x.Op {
							case token.SHL:
								w = 0
								if v < 32 {
									w = u << uint(v)
								}
							case token.MUL:
								w = u * v
							}
							for d := int64(-1); d <= 1; d++ {
								ints[w+d] = true
								ints[-(w + d)] = true
							}
						}
					}
				case *ast.BasicLit:
					if skip[x] {
						return true
					}
					switch x.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							for d := int64(-1); d <= 1; d++ {
								ints[v+d] = true
								ints[-(v + d)] = true
							}
							if v > 0 && v <= utf8.MaxRune {
								runes[rune(v)] = true
							}
						}
					case token.CHAR:
						if r, _, _, err := strconv.UnquoteChar(x.Value[1:], '\''); err == nil {
							runes[r] = true
						}
					case token.STRING:
						if s, err := strconv.Unquote(x.Value); err == nil && len(s) < 24 && s != "" &&
							!strings.ContainsAny(s, "%") && !strings.Contains(s, "INVALID-READER") {
							strs[s] = true
						}
					}
				}
				return true
			})
		}
	}
	for v := range ints {
		dict.ints = append(dict.ints, v)
	}
	for r := range runes {
		dict.runes = append(dict.runes, r)
	}
	for s := range strs {
		dict.strs = append(dict.strs, s)
	}
	sort.Slice(dict.ints, func(i, j int) bool { return dict.ints[i] < dict.ints[j] })
	sort.Slice(dict.runes, func(i, j int) bool { return dict.runes[i] < dict.runes[j] })
	sort.Strings(dict.strs)
}

// DictInt draws an int literal of the code (+-1), or def.
func (g *G) DictInt(def int) int {
	if len(dict.ints) == 0 {
		return def
	}
	return int(pick(g, dict.ints))
}

var hugeSizes = []int{499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2001, 2047, 2048, 2049, 3000, 4000, 4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193, 10000, 10001, 16384, 16385}

// hugeSize draws sizes beyond 300, the literals of the code among them.
func (g *G) hugeSize(max int) int {
	switch g.N(3) {
	case 0:
		if v := g.DictInt(0); v >= 100 && v <= max {
			return v + g.N(2)
		}
	case 1:
		return g.Range(300, max)
	}
	for i := 0; i < 4; i++ {
		if n := pick(g, hugeSizes); n <= max {
			return n
		}
	}
	return max
}

// ----------------------------------------------------------------------- texts

var (
	asciiSmall = []rune("ab01 -=.\n")
	asciiMore  = []rune("abcxyzABCXYZ0123456789 \t\r\n\"'\\/-+=.,;:[]{}()<>_#~!@")
	wideRunes  = []rune{'ä', 'Ä', 'ß', 'ẞ', 'é', '世', '界', '☃', '😀', '𝒳', 'Σ', 'σ', 'ς', 'ſ', 'K', 'Å', 'İ', 'ı', 'Ⱥ', 'ⱥ', 'Ⱦ', 'ⱦ', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, utf8.MaxRune, 0xfeff, 0x301, 0x2028, 0xa0, 0}
	foldRunes  = []rune("kKKsSſåÅÅßẞⱥȺⱦȾσΣςωΩΩiIıİµμΜǅǆǄ")
	badBytes   = []string{"\xff", "\x80", "\xc3", "\xe4\xb8", "\xf0\x9f", "\xed\xa0\x80", "\xc0\xaf", "\xbf"}
)

// oddRunes look like ASCII letters, digits, spaces, quotes or line breaks to
// some classification (unicode.IsLetter, IsDigit, IsSpace ...) but are not.
var oddRunes = []rune{'٠', '٣', '٧', '٩', '०', '９', '０', '８', '７', '²', '³', '¹', '½', 'Ⅷ', '①', '𝟘', '𝟟', 'Ａ', 'ｆ', 'ａ', 'е', 'а', 'Α', 'ª', 'º', 'µ',
	0x85, 0xa0, 0xad, 0x1680, 0x2003, 0x2009, 0x200b, 0x200c, 0x200d, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x3000, 0xfeff,
	'\v', '\f', 0x1b, 0x1c, 0x1f, 0x7f, '“', '”', '‘', '’', '″', '‐', '–', '—', '−', '⁄', '＿', '‿', '：', '，', '．', '；', '＝', '（', '）', '［', '］', '｛', '｝', 0x301, 0x10fffe, 0x10ffff, 0xe000, 0xd7ff, 0xfffe}

// Odd draws an odd rune or one that is written in the code.
func (g *G) Odd() string {
	if len(dict.runes) > 0 && g.Chance(4) {
		if r := pick(g, dict.runes); utf8.ValidRune(r) && r != utf8.RuneError {
			return string(r)
		}
	}
	if len(dict.runes) > 0 && g.Chance(6) {
		return string(g.twin(pick(g, dict.runes)))
	}
	if g.Chance(8) { // any rune of a small block, ASCII and Latin-1 completely
		return string(rune(g.N(0x250)))
	}
	return string(pick(g, oddRunes))
}

// twin draws a rune that shares a byte with r: U+0122 and U+2260 with U+0022.
func (g *G) twin(r rune) rune {
	t := r
	switch g.N(4) {
	case 0:
		t = r + 0x100*rune(1+g.N(4))
	case 1:
		t = r&0xff | rune(1+g.N(0x10fe))<<8
	case 2:
		t = (r&0xff)<<8 | rune(g.N(256))
	default:
		t = r + 0x10000*rune(1+g.N(16))
	}
	if !utf8.ValidRune(t) || t == utf8.RuneError {
		return r&0xff | 0x100
	}
	return t
}

// oddOr draws from the list, now and then an odd rune.
func oddOr(g *G, list []string) string {
	if g.Chance(8) {
		return g.Odd()
	}
	return pick(g, list)
}

// Rune draws a valid rune (never U+FFFD).
func (g *G) Rune() rune {
	switch g.weighted(10, 6, 3, 2, 1, 1, 1, 1) {
	case 0:
		return pick(g, asciiSmall)
	case 1:
		return pick(g, asciiMore)
	case 2:
		return pick(g, wideRunes)
	case 3:
		return pick(g, foldRunes)
	case 4:
		if len(dict.runes) > 0 {
			if r := pick(g, dict.runes); utf8.ValidRune(r) && r != utf8.RuneError {
				return r
			}
		}
		return 'a'
	case 6:
		return pick(g, oddRunes)
	case 7:
		return g.twin(pick(g, asciiMore))
	default:
		r := rune(rapid.Int32Range(0, utf8.MaxRune).Draw(g.t, "r"))
		if !utf8.ValidRune(r) || r == utf8.RuneError {
			r = 'z'
		}
		return r
	}
}

// AnyRune also draws U+FFFD and values that are no runes at all.
func (g *G) AnyRune() rune {
	switch g.N(16) {
	case 15:
		return pick(g, []rune{utf8.RuneError, -1, 0xd800, utf8.MaxRune + 1, utf8.RuneError})
	default:
		return g.Rune()
	}
}

// piece is a few runes, an invalid byte sequence, U+FFFD or a dictionary string.
func (g *G) piece(b *strings.Builder, bad bool) {
	switch g.weighted(30, 2, 1, 2) {
	case 0:
		b.WriteRune(g.Rune())
	case 1:
		if bad {
			b.WriteString(pick(g, badBytes))
		} else {
			b.WriteRune('b')
		}
	case 2:
		if bad {
			b.WriteString("\uFFFD")
		} else {
			b.WriteRune('a')
		}
	case 3:
		if len(dict.strs) > 0 {
			b.WriteString(pick(g, dict.strs))
		} else {
			b.WriteRune('c')
		}
	}
}

// Text draws a text; sometimes with bytes that are not UTF-8, sometimes long.
func (g *G) Text(max int) string {
	var b strings.Builder
	bad := g.Chance(3)
	n := g.Size(max)
	small := g.Chance(3)
	for i := 0; i < n; i++ {
		if small {
			b.WriteRune(pick(g, asciiSmall))
		} else {
			g.piece(&b, bad)
		}
	}
	s := b.String()
	if g.Chance(40) { // long texts by repetition
		k := pick(g, []int{5, 17, 33, 65, 129, 257, 1025})
		if len(s)*k < 200000 {
			s = strings.Repeat(s, k)
		}
	}
	return s
}

// SmallText draws over a tiny alphabet, so that patterns recur.
func (g *G) SmallText(alphabet []string, max int) string {
	var b strings.Builder
	n := g.Size(max)
	for i := 0; i < n; i++ {
		b.WriteString(pick(g, alphabet))
	}
	return b.String()
}

// swapCase replaces runes by another member of their folding orbit.
func (g *G) swapCase(s string) string {
	var b strings.Builder
	for _, r := range s {
		k := g.N(4)
		for i := 0; i < k; i++ {
			r = simpleFold(r)
		}
		b.WriteRune(r)
	}
	return b.String()
}

// pos draws a position in s, mostly on a rune boundary.
func (g *G) Pos(s string) int {
	switch g.N(6) {
	case 0, 1:
		return 0
	case 2:
		return len(s)
	}
	p := g.N(len(s) + 1)
	if g.Chance(6) {
		return p
	}
	for p > 0 && p < len(s) && !utf8.RuneStart(s[p]) {
		p--
	}
	return p
}

// subText draws a piece of s (rune aligned if s is valid) or an own text.
func (g *G) Pattern(s string, from int) string {
	if len(s) > 0 && !g.Chance(4) {
		a := from
		if g.Bool() {
			a = g.N(len(s) + 1)
		}
		for a > 0 && a < len(s) && !utf8.RuneStart(s[a]) {
			a--
		}
		var b strings.Builder
		n := 1 + g.Size(6)
		if g.Chance(12) {
			n = g.N(80)
		}
		for _, r := range s[a:] {
			if n == 0 {
				break
			}
			n--
			if r == utf8.RuneError && !g.Chance(4) {
				break
			}
			b.WriteRune(r)
		}
		p := b.String()
		if g.Chance(6) {
			p += string(g.Rune())
		}
		if g.Chance(10) { // a near miss
			if us := unitsFrom(p, 0); len(us) > 0 {
				u := pick(g, us)
				p = p[:u.at] + string(g.Rune()) + p[u.at+u.w:]
			}
		}
		return p
	}
	var b strings.Builder
	n := g.Size(5)
	for i := 0; i < n; i++ {
		b.WriteRune(g.Rune())
	}
	return b.String()
}

// near draws a rune that occurs in s, or any.
func (g *G) RuneOf(s string) rune {
	if len(s) > 0 && !g.Chance(4) {
		i := g.N(len(s))
		for i > 0 && !utf8.RuneStart(s[i]) {
			i--
		}
		r, _ := utf8.DecodeRuneInString(s[i:])
		if g.Chance(16) {
			return g.twin(r)
		}
		return r
	}
	return g.AnyRune()
}
