// Package ref holds the reference semantics the checks compare go-matcher
// with. Nothing in it uses go-matcher.
package ref

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"
)

// Kind of a pattern node.
type Kind int

// Node kinds.
const (
	Lit Kind = iota
	One
	Star
	Class
	Alt
)

// RR is an inclusive range of runes.
type RR struct{ Lo, Hi rune }

// Node is a piece of a glob.
type Node struct {
	K    Kind
	Lit  string
	Set  []RR
	Alts [][]Node
}

// ErrGlob is the only error of Parse.
var ErrGlob = errors.New("malformed glob")

// ParseGlob parses a glob: literal text, `?`, `*`, `[class]` and `{a,b}`
// without nesting. An empty class or list stands for nothing at all.
func ParseGlob(g string) ([]Node, error) { return parseGlob(g, true) }

func parseGlob(g string, lists bool) ([]Node, error) {
	var out []Node
	for g != "" {
		switch g[0] {
		case '*':
			out = append(out, Node{K: Star})
			g = g[1:]
		case '?':
			out = append(out, Node{K: One})
			g = g[1:]
		case ']', '}':
			return nil, ErrGlob
		case '[':
			e := strings.IndexByte(g, ']')
			if e < 0 {
				return nil, ErrGlob
			}
			set, err := ParseClass(g[1:e])
			if err != nil {
				return nil, err
			}
			if len(set) > 0 {
				out = append(out, Node{K: Class, Set: set})
			}
			g = g[e+1:]
		case '{':
			if !lists {
				return nil, ErrGlob
			}
			e := strings.IndexByte(g, '}')
			if e < 0 {
				return nil, ErrGlob
			}
			n := Node{K: Alt}
			for _, v := range strings.Split(g[1:e], ",") {
				sub, err := parseGlob(v, false)
				if err != nil {
					return nil, err
				}
				n.Alts = append(n.Alts, sub)
			}
			out = append(out, n)
			g = g[e+1:]
		default:
			e := strings.IndexAny(g, "[]{}*?")
			if e < 0 {
				e = len(g)
			}
			out = append(out, Node{K: Lit, Lit: g[:e]})
			g = g[e:]
		}
	}
	return out, nil
}

// ParseClass reads the body of a character class. A dash which does not stand
// between two symbols has no meaning.
func ParseClass(s string) ([]RR, error) {
	var set []RR
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if rs[i] == '-' {
			continue
		}
		j := i + 1
		for j < len(rs) && rs[j] == '-' {
			j++
		}
		if j > i+1 && j < len(rs) {
			lo, hi := rs[i], rs[j]
			if lo > hi || utf8.RuneLen(lo) != utf8.RuneLen(hi) {
				return nil, ErrGlob
			}
			set = append(set, RR{lo, hi})
			i = j
			continue
		}
		set = append(set, RR{rs[i], rs[i]})
	}
	return set, nil
}

// InSet tells if c is in one of the ranges.
func InSet(set []RR, c rune) bool {
	for _, r := range set {
		if c >= r.Lo && c <= r.Hi {
			return true
		}
	}
	return false
}

// Matcher decides a pattern by simulating all of its states at once.
type Matcher struct {
	Nodes []Node
	a, b  []bool
}

// MustGlob compiles a glob known to be well formed.
func MustGlob(g string) *Matcher {
	n, err := ParseGlob(g)
	if err != nil {
		panic(fmt.Sprintf("reference: %q: %v", g, err))
	}
	return &Matcher{Nodes: n}
}

// Match decides if the pattern matches all of s.
func Match(nodes []Node, s string) bool {
	cur := make([]bool, len(s)+1)
	cur[0] = true
	cur = run(nodes, s, cur)
	return cur != nil && cur[len(s)]
}

func run(nodes []Node, s string, cur []bool) []bool {
	for i := range nodes {
		if cur = step(&nodes[i], s, cur); cur == nil {
			return nil
		}
	}
	return cur
}

func step(n *Node, s string, cur []bool) []bool {
	next := make([]bool, len(s)+1)
	any := false
	switch n.K {
	case Lit:
		for p := range cur {
			if cur[p] && strings.HasPrefix(s[p:], n.Lit) {
				next[p+len(n.Lit)] = true
				any = true
			}
		}
	case One, Class:
		for p := 0; p < len(s); p++ {
			if cur[p] {
				c, w := utf8.DecodeRuneInString(s[p:])
				if n.K == One || (!(c == utf8.RuneError && w == 1) && InSet(n.Set, c)) {
					next[p+w] = true
					any = true
				}
			}
		}
	case Star:
		p := 0
		for p < len(s) && !cur[p] {
			p++
		}
		if p == len(s) && !cur[p] {
			return nil
		}
		for {
			next[p] = true
			if p == len(s) {
				break
			}
			_, w := utf8.DecodeRuneInString(s[p:])
			p += w
		}
		any = true
	case Alt:
		for _, a := range n.Alts {
			c := append([]bool(nil), cur...)
			if r := run(a, s, c); r != nil {
				for p, ok := range r {
					if ok {
						next[p] = true
						any = true
					}
				}
			}
		}
	}
	if !any {
		return nil
	}
	return next
}

// Bounds are the least and the greatest byte length of a matched valid UTF-8
// string, the greatest being -1 when there is none.
func Bounds(nodes []Node) (lo, hi int) {
	for _, n := range nodes {
		l, h := 0, 0
		switch n.K {
		case Lit:
			l, h = len(n.Lit), len(n.Lit)
		case One:
			l, h = 1, 4
		case Star:
			l, h = 0, -1
		case Class:
			for i, r := range n.Set {
				a, b := utf8.RuneLen(r.Lo), utf8.RuneLen(r.Hi)
				if i == 0 || a < l {
					l = a
				}
				if b > h {
					h = b
				}
			}
		case Alt:
			for i, a := range n.Alts {
				x, y := Bounds(a)
				if i == 0 || x < l {
					l = x
				}
				if i == 0 {
					h = y
				} else if h != -1 && (y == -1 || y > h) {
					h = y
				}
			}
		}
		lo += l
		if hi == -1 || h == -1 {
			hi = -1
		} else {
			hi += h
		}
	}
	return
}

// Regexp renders the pattern as a regular expression, the second opinion on
// the reference itself.
func Regexp(nodes []Node) *regexp.Regexp {
	var b strings.Builder
	b.WriteString(`(?s)\A`)
	writeRe(&b, nodes)
	b.WriteString(`\z`)
	return regexp.MustCompile(b.String())
}

func writeRe(b *strings.Builder, nodes []Node) {
	for _, n := range nodes {
		switch n.K {
		case Lit:
			b.WriteString(regexp.QuoteMeta(n.Lit))
		case One:
			b.WriteString(".")
		case Star:
			b.WriteString(".*")
		case Class:
			b.WriteString("[")
			for _, r := range n.Set {
				fmt.Fprintf(b, `\x{%x}-\x{%x}`, r.Lo, r.Hi)
			}
			b.WriteString("]")
		case Alt:
			b.WriteString("(?:")
			for i, a := range n.Alts {
				if i > 0 {
					b.WriteString("|")
				}
				writeRe(b, a)
			}
			b.WriteString(")")
		}
	}
}

// manyWays is where Ways stops counting.
const manyWays = 1 << 30

// Ways counts in how many ways s can be read as the glob: what each star and
// each list stands for. A list that can be empty counts once more as left out.
func Ways(nodes []Node, s string) int {
	cur := make([]int, len(s)+1)
	cur[0] = 1
	return runWays(nodes, s, cur)[len(s)]
}

func plus(a, b int) int {
	if a+b > manyWays {
		return manyWays
	}
	return a + b
}

func runWays(nodes []Node, s string, cur []int) []int {
	for i, n := range nodes {
		if n.K == Star && i > 0 && nodes[i-1].K == Star {
			continue
		}
		next := make([]int, len(s)+1)
		switch n.K {
		case Lit:
			for p, k := range cur {
				if k > 0 && strings.HasPrefix(s[p:], n.Lit) {
					next[p+len(n.Lit)] = k
				}
			}
		case One, Class:
			for p, k := range cur {
				if k > 0 && p < len(s) {
					c, w := utf8.DecodeRuneInString(s[p:])
					if n.K == One || (!(c == utf8.RuneError && w == 1) && InSet(n.Set, c)) {
						next[p+w] = plus(next[p+w], k)
					}
				}
			}
		case Star:
			for p, k := range cur {
				for k > 0 {
					next[p] = plus(next[p], k)
					if p == len(s) {
						break
					}
					_, w := utf8.DecodeRuneInString(s[p:])
					p += w
				}
			}
		case Alt:
			optional := false
			for _, a := range n.Alts {
				for p, k := range runWays(a, s, cur) {
					next[p] = plus(next[p], k)
				}
				lo, _ := Bounds(a)
				optional = optional || lo == 0
			}
			if optional {
				for p, k := range cur {
					next[p] = plus(next[p], k)
				}
			}
		}
		cur = next
	}
	return cur
}
