package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ------------------------------------------------------- reference interpreter

// refErr is the expected error: a ReadError at marker with one of the whats, or
// a foreign error (not a ReadError).
type refErr struct {
	foreign bool
	marker  int
	whats   []string
}

type refSeg struct {
	info     string
	from, to int
}

type refEntry struct {
	info        string
	enter, exit int
	level       int
	err         *refErr
}

type ref struct {
	p        *Prog
	text     string
	env      map[int]string
	picks    []refSeg
	maps     []refSeg
	log      []*refEntry
	level    int
	steps    int
	budget   int
	unstable bool
	dangle   bool // a janus end was read before its begin
	nested   int  // recursion depth
	ruleObs  int  // bits: rules are picked (1), mapped (2), monitored (4)
	zero     int  // repetitions that stopped for lack of progress
	dropped  int  // picked segments that were given up
	back     int  // composites that gave something back
}

type overBudget struct{}

func (m *ref) tick() {
	m.steps++
	if m.steps > m.budget {
		panic(overBudget{})
	}
}

// run reads with the whole program; over is true if the budget was exceeded.
func (m *ref) run(pos int) (ok bool, end int, err *refErr, over bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(overBudget); is {
				over = true
				return
			}
			panic(r)
		}
	}()
	end, err = m.read(m.p.Root, pos, len(m.text))
	return err == nil, end, err, false
}

func (m *ref) fail(n *Node, pos int) *refErr {
	return &refErr{marker: pos, whats: []string{m.p.what(n)}}
}

func single(n *Node) (func(rune) bool, bool) {
	switch n.Op {
	case "rune":
		return func(r rune) bool { return r == n.A }, true
	case "anyrune":
		return func(r rune) bool { return runeIn(r, string(n.S)) }, true
	case "between":
		return func(r rune) bool { return n.A <= r && r <= n.B }, true
	case "betweenany", "set":
		return func(r rune) bool {
			rs := []rune(string(n.S))
			for i := 0; i+2 < len(rs); i += 3 {
				if rs[i] <= r && r <= rs[i+2] {
					return true
				}
			}
			return n.Op == "set" && runeIn(r, string(n.S2))
		}, true
	case "buildbetween":
		return func(r rune) bool {
			rs := []rune(string(n.S))
			for i := 0; i+1 < len(rs); i += 2 {
				if rs[i] <= r && r <= rs[i+1] {
					return true
				}
			}
			return false
		}, true
	case "digit":
		return func(r rune) bool { return r >= '0' && r <= '9' }, true
	case "hexdigit":
		return func(r rune) bool {
			return r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F'
		}, true
	case "holey":
		return func(r rune) bool { return n.A <= r && r <= n.B && !runeIn(r, string(n.S)) }, true
	case "match":
		return predicates[n.N].f, true
	case "ws":
		return func(r rune) bool { return r == ' ' || r == '\r' || r == '\n' || r == '\t' }, true
	}
	return nil, false
}

func runeIn(r rune, s string) bool {
	for _, x := range s {
		if x == r {
			return true
		}
	}
	return false
}

// nextRune steps over one rune of text[:end].
func nextRune(text string, pos, end int) (rune, int) {
	return utf8.DecodeRuneInString(text[pos:end])
}

// read returns the end position, or an error and pos.
func (m *ref) read(n *Node, pos, end int) (int, *refErr) {
	m.nested++
	if m.nested > 4000 {
		panic(overBudget{})
	}
	defer func() { m.nested-- }()
	text := m.text[:end]
	if f, ok := single(n); ok {
		m.tick()
		if pos < end {
			if r, w := nextRune(text, pos, end); f(r) {
				return pos + w, nil
			}
		}
		return pos, m.fail(n, pos)
	}
	np := len(m.picks)
	// undo forgets what was picked since n was entered
	undo := func() {
		for _, x := range m.picks[np:] {
			if x.from < x.to {
				m.dropped++
			}
		}
		m.picks = m.picks[:np]
	}
	switch n.Op {
	case "lit":
		m.tick()
		if strings.HasPrefix(text[pos:], string(n.S)) {
			return pos + len(n.S), nil
		}
		return pos, m.fail(n, pos)
	case "fold":
		m.tick()
		if k, ok := foldPrefixLen(text[pos:], string(n.S)); ok {
			return pos + k, nil
		}
		return pos, m.fail(n, pos)
	case "anyfold":
		m.tick()
		for _, s := range n.SL {
			if k, ok := foldPrefixLen(text[pos:], string(s)); ok {
				return pos + k, nil
			}
		}
		if len(n.SL) == 0 {
			return pos, &refErr{marker: pos, whats: nil}
		}
		return pos, &refErr{marker: pos, whats: []string{"~" + strconv.QuoteToGraphic(string(n.SL[len(n.SL)-1]))}}
	case "nl":
		m.tick()
		if strings.HasPrefix(text[pos:], "\n") {
			return pos + 1, nil
		}
		if strings.HasPrefix(text[pos:], "\r\n") {
			return pos + 2, nil
		}
		return pos, &refErr{marker: pos, whats: []string{`"\r\n"`}}
	case "atend":
		m.tick()
		if pos == end {
			return pos, nil
		}
		return pos, m.fail(n, pos)
	case "int", "uint":
		m.tick()
		k, valid := refNumber(text[pos:], n.N, n.M, n.Op == "uint")
		if !valid {
			return pos, &refErr{foreign: true}
		}
		if k == 0 {
			return pos, &refErr{marker: pos}
		}
		return pos + k, nil
	case "bool":
		m.tick()
		var words []string
		switch n.S {
		case "", "*":
			words = []string{"true", "false", "TRUE", "FALSE", "True", "False"}
		case "l":
			words = []string{"true", "false"}
		case "U":
			words = []string{"TRUE", "FALSE"}
		case "Cc":
			words = []string{"True", "False"}
		default:
			return pos, &refErr{foreign: true}
		}
		for _, w := range words {
			if strings.HasPrefix(text[pos:], w) {
				return pos + len(w), nil
			}
		}
		return pos, &refErr{marker: pos}
	case "rulename":
		m.tick()
		k := refRuleName(text[pos:])
		if k == 0 {
			return pos, m.fail(n, pos)
		}
		return pos + k, nil
	case "wrap":
		m.tick()
		q := pos
		all := true
		for _, op := range n.Ops {
			ok, to := op.expect(text, q)
			q = to
			all = all && ok
		}
		if n.N == 2 || (n.N == 0 && !all) {
			return pos, &refErr{marker: q, whats: []string{string(n.S)}}
		}
		return q, nil
	case "bad", "badrange", "badset", "badbuild":
		m.tick()
		return pos, &refErr{foreign: true}
	}
	if invalid(n) {
		m.tick()
		return pos, &refErr{foreign: true}
	}
	switch n.Op {
	case "seq":
		q := pos
		for _, c := range n.L {
			e, err := m.read(c, q, end)
			if err != nil {
				if q > pos {
					m.back++
				}
				undo()
				return pos, err
			}
			q = e
		}
		return q, nil
	case "skipseq", "skipws":
		skip, list := wsSkip, n.L
		if n.Op == "skipseq" {
			skip, list = n.L[0], n.L[1:]
		}
		q, err := m.read(skip, pos, end)
		for _, c := range list {
			if err != nil {
				break
			}
			if q, err = m.read(c, q, end); err == nil {
				q, err = m.read(skip, q, end)
			}
		}
		if err != nil {
			undo()
			return pos, err
		}
		return q, nil
	case "any":
		var best *refErr
		var foreign *refErr
		for _, c := range n.L {
			e, err := m.read(c, pos, end)
			if err == nil {
				return e, nil
			}
			undo()
			if err.foreign {
				foreign = err
			} else if best == nil || err.marker >= best.marker {
				best = err
			}
		}
		if best == nil {
			best = foreign
		}
		if best == nil {
			best = &refErr{marker: pos}
		}
		return pos, best
	case "opt":
		e, err := m.read(n.L[0], pos, end)
		if err != nil {
			undo()
			return pos, nil
		}
		return e, nil
	case "zom", "many":
		q := pos
		for {
			e, err := m.read(n.L[0], q, end)
			if err != nil {
				break
			}
			if e == q {
				m.zero++
				break
			}
			q = e
		}
		if n.Op == "many" && q == pos {
			undo()
			return pos, m.fail(n, pos)
		}
		return q, nil
	case "times":
		q := pos
		for i := 0; i < n.N; i++ {
			e, err := m.read(n.L[0], q, end)
			if err != nil {
				if q > pos {
					m.back++
				}
				undo()
				return pos, err
			}
			q = e
		}
		return q, nil
	case "at":
		_, err := m.read(n.L[0], pos, end)
		undo()
		return pos, err
	case "not":
		_, err := m.read(n.L[0], pos, end)
		undo()
		whats := []string{m.p.what(n), m.p.what(n.L[0])}
		if err == nil || pos >= end {
			return pos, &refErr{marker: pos, whats: whats}
		}
		_, w := nextRune(text, pos, end)
		return pos + w, nil
	case "to", "past", "body", "bodytail":
		sub := n.L[len(n.L)-1]
		for q := pos; ; {
			e, err := m.read(sub, q, end)
			if err == nil {
				switch n.Op {
				case "past":
					return e, nil
				case "to":
					undo()
					return q, nil
				}
				undo()
				b, err := m.read(n.L[0], pos, q)
				if err != nil || b != q {
					undo()
					return pos, m.fail(n, pos)
				}
				if n.Op == "body" {
					return q, nil
				}
				e2, err := m.read(sub, q, end)
				if err != nil || e2 != e {
					// only a stateful tail (janus) can change its mind; how
					// often it is read is not specified
					m.unstable = true
				}
				if err != nil {
					undo()
					return pos, m.fail(n, pos)
				}
				return e2, nil
			}
			if q >= end {
				break
			}
			_, w := nextRune(text, q, end)
			q += w
		}
		undo()
		return pos, m.fail(n, pos)
	case "named":
		return m.read(n.L[0], pos, end)
	case "map":
		e, err := m.read(n.L[0], pos, end)
		if err == nil {
			m.maps = append(m.maps, refSeg{string(n.S), pos, e})
		}
		return e, err
	case "pick":
		e, err := m.read(n.L[0], pos, end)
		if err == nil {
			m.picks = append(m.picks, refSeg{string(n.S), pos, e})
		}
		return e, err
	case "monitor":
		m.level++
		le := &refEntry{info: string(n.S), enter: pos, level: m.level}
		m.log = append(m.log, le)
		e, err := m.read(n.L[0], pos, end)
		m.level--
		le.exit, le.err = e, err
		return e, err
	case "rule":
		var le *refEntry
		if m.ruleObs&4 != 0 {
			m.level++
			le = &refEntry{info: m.p.name(n.N), enter: pos, level: m.level}
			m.log = append(m.log, le)
		}
		e, err := m.read(m.p.Rules[n.N], pos, end)
		if le != nil {
			m.level--
			le.exit, le.err = e, err
		}
		if err == nil && m.ruleObs&1 != 0 {
			m.picks = append(m.picks, refSeg{m.p.name(n.N), pos, e})
		}
		if err == nil && m.ruleObs&2 != 0 {
			m.maps = append(m.maps, refSeg{m.p.name(n.N), pos, e})
		}
		return e, err
	case "jbeg":
		e, err := m.read(n.L[0], pos, end)
		if err == nil {
			m.env[n.N] = text[pos:e]
		}
		return e, err
	case "jend":
		m.tick()
		str, ok := m.env[n.N]
		if !ok {
			m.dangle = true
		}
		if strings.HasPrefix(text[pos:], str) {
			return pos + len(str), nil
		}
		return pos, &refErr{marker: pos, whats: []string{strconv.QuoteToGraphic(str), m.p.what(n)}}
	}
	panic(harnessError{"ref read " + n.Op})
}

var wsSkip = &Node{Op: "zom", L: []*Node{{Op: "ws"}}}

// takesAny tells whether the constructor of the node takes interface{} values.
func takesAny(op string) bool {
	switch op {
	case "seq", "any", "opt", "zom", "many", "to", "past", "skipseq", "skipws":
		return true
	}
	return false
}

// invalid: a constructor got a value that it does not accept.
func invalid(n *Node) bool {
	if !takesAny(n.Op) {
		return false
	}
	for i, c := range n.L {
		if c.Op == "bad" && !(n.Op == "skipseq" && i == 0) {
			return true
		}
	}
	return false
}

func refNumber(s string, base, bit int, unsigned bool) (int, bool) {
	if base != 8 && base != 10 && base != 16 {
		return 0, false
	}
	if bit != 8 && bit != 16 && bit != 32 && bit != 64 {
		return 0, false
	}
	lim := new(big.Int)
	p := 0
	if unsigned {
		lim.Sub(lim.Lsh(big.NewInt(1), uint(bit)), big.NewInt(1))
	} else {
		lim.Lsh(big.NewInt(1), uint(bit-1))
		if s != "" && s[0] == '-' {
			p = 1
		} else {
			if s != "" && s[0] == '+' {
				p = 1
			}
			lim.Sub(lim, big.NewInt(1))
		}
	}
	val := new(big.Int)
	n := 0
	for ; p < len(s); p++ {
		d := digitVal(s[p])
		if d >= base {
			break
		}
		next := new(big.Int).Mul(val, big.NewInt(int64(base)))
		next.Add(next, big.NewInt(int64(d)))
		if next.Cmp(lim) > 0 {
			break
		}
		val = next
		n++
	}
	if n == 0 {
		return 0, true
	}
	return p, true
}

func refRuleName(s string) int {
	letter := func(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
	if s == "" || !letter(s[0]) {
		return 0
	}
	i := 1
	for i < len(s) && (letter(s[i]) || s[i] >= '0' && s[i] <= '9' || s[i] == '+' || s[i] == '-' || s[i] == '.' || s[i] == '_') {
		i++
	}
	return i
}

// ------------------------------------------------------------ reference notation

const invalidMark = "::INVALID-READER::"

func bareRune(r rune) string { return strings.Trim(strconv.QuoteRuneToGraphic(r), "'") }

func rangeNotation(a, b rune) string {
	if a == b {
		return strconv.QuoteRuneToGraphic(a)
	}
	return "<" + bareRune(a) + bareRune(b) + ">"
}

// what is the documented notation of a node. Invalid parts are invalidMark.
func (p *Prog) what(n *Node) string {
	q := func(s Str) string { return strconv.QuoteToGraphic(string(s)) }
	list := func(l []*Node) string {
		var parts []string
		for _, c := range l {
			parts = append(parts, p.what(c))
		}
		return strings.Join(parts, " ")
	}
	if invalid(n) {
		return invalidMark
	}
	switch n.Op {
	case "bad", "badrange", "badset", "badbuild":
		return invalidMark
	case "rune":
		return strconv.QuoteRuneToGraphic(n.A)
	case "lit":
		return q(n.S)
	case "fold":
		return "~" + q(n.S)
	case "anyfold":
		var parts []string
		for _, s := range n.SL {
			parts = append(parts, "~"+q(s))
		}
		return "[ " + strings.Join(parts, " ") + " ]"
	case "anyrune":
		return "[" + q(n.S) + "]"
	case "between":
		return rangeNotation(n.A, n.B)
	case "betweenany", "set", "buildbetween", "hexdigit":
		rs := []rune(string(n.S))
		step := 3
		if n.Op == "buildbetween" {
			step = 2
		}
		if n.Op == "hexdigit" {
			rs, step = []rune("09afAF"), 2
		}
		s := "[<"
		for i := 0; i+step <= len(rs); i += step {
			s += " " + bareRune(rs[i]) + bareRune(rs[i+step-1])
		}
		if n.Op == "set" && n.S2 != "" {
			s += " " + q(n.S2)
		}
		return s + " >]"
	case "digit":
		return rangeNotation('0', '9')
	case "holey":
		return "(" + rangeNotation(n.A, n.B) + " - " + q(n.S) + ")"
	case "match", "wrap":
		return string(n.S)
	case "nl":
		return `[ "\n" "\r\n" ]`
	case "ws":
		return `[" \r\n\t"]`
	case "atend":
		return "@END"
	case "int":
		return fmt.Sprintf("int{%d,%d}", n.N, n.M)
	case "uint":
		return fmt.Sprintf("uint{%d,%d}", n.N, n.M)
	case "bool":
		return "bool{" + q(n.S) + "}"
	case "rulename":
		return "rulename"
	case "seq":
		return list(n.L)
	case "any":
		return "[ " + list(n.L) + " ]"
	case "opt":
		return "?" + p.what(n.L[0])
	case "zom":
		return "*" + p.what(n.L[0])
	case "many":
		return "+" + p.what(n.L[0])
	case "times":
		return strconv.Itoa(n.N) + "*" + p.what(n.L[0])
	case "skipseq", "skipws":
		skip, l := wsSkip, n.L
		if n.Op == "skipseq" {
			skip, l = n.L[0], n.L[1:]
		}
		s := "(>" + p.what(skip) + "> "
		for _, c := range l {
			s += p.what(c) + " "
		}
		return s + ")"
	case "at":
		return "@" + p.what(n.L[0])
	case "not":
		return "!" + p.what(n.L[0])
	case "to":
		return "->" + p.what(n.L[0])
	case "past":
		return "-->" + p.what(n.L[0])
	case "body":
		return "-(" + p.what(n.L[0]) + "-" + p.what(n.L[1]) + ")-"
	case "bodytail":
		return "-(" + p.what(n.L[0]) + "-+" + p.what(n.L[1]) + ")-"
	case "named":
		return string(n.S)
	case "map", "pick", "monitor":
		return p.what(n.L[0])
	case "rule":
		return p.name(n.N)
	case "jbeg":
		return "$" + string(n.S) + "<" + p.what(n.L[0])
	case "jend":
		name := ""
		p.walk(func(x *Node) {
			if x.Op == "jbeg" && x.N == n.N {
				name = string(x.S)
			}
		})
		return "$" + name
	}
	panic(harnessError{"what " + n.Op})
}
