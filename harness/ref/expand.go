package ref

import (
	"sort"
	"strings"
)

// ExpElem is an element of a shell-like expression: text, or the values an
// expansion puts in its place.
type ExpElem struct {
	Body   string // as written
	Values []string
	Bad    bool // a class which is not well formed
	Odd    bool // a class or a list with dots: depth is not defined for it
}

// ParseExp cuts an expression. From the first *, ? or bracket without its
// pair, or with another bracket inside, everything is text; a class which is
// not well formed or has a wildcard symbol in a range is text and, with stop, ends the expansion too.
func ParseExp(in string, stop bool) []ExpElem {
	const special = "[]{}*?"
	var out []ExpElem
	text := func(s string) {
		if s != "" {
			out = append(out, ExpElem{Body: s})
		}
	}
	for in != "" {
		p := strings.IndexAny(in, special)
		if p < 0 {
			break
		}
		if in[p] != '{' && in[p] != '[' {
			break
		}
		closing := byte('}')
		if in[p] == '[' {
			closing = ']'
		}
		q := strings.IndexAny(in[p+1:], special)
		if q < 0 || in[p+1+q] != closing {
			break
		}
		q += p + 1
		body, inner := in[p:q+1], in[p+1:q]
		if in[p] == '{' {
			text(in[:p])
			if vals := strings.Split(inner, ","); len(vals) > 1 {
				out = append(out, ExpElem{Body: body, Values: vals, Odd: strings.Contains(inner, ".")})
			} else {
				text(inner)
			}
		} else {
			set, err := ParseClass(inner)
			for _, c := range special {
				if InSet(set, c) {
					err = ErrGlob // its symbols cannot be written without the class
				}
			}
			if err != nil && stop {
				break
			}
			text(in[:p])
			if err != nil {
				out = append(out, ExpElem{Body: body, Bad: true})
			} else if vals := Symbols(set); len(vals) > 1 {
				out = append(out, ExpElem{Body: body, Values: vals, Odd: strings.Contains(inner, ".")})
			} else if len(vals) == 1 {
				// one symbol: an expression or text, both are the same
				out = append(out, ExpElem{Body: body, Values: vals, Odd: strings.Contains(inner, ".")})
			}
		}
		in = in[q+1:]
	}
	text(in)
	return out
}

// Symbols lists the symbols of a class in order, each once.
func Symbols(set []RR) []string {
	s := append([]RR(nil), set...)
	sort.Slice(s, func(i, j int) bool { return s[i].Lo < s[j].Lo })
	var out []string
	next := rune(0)
	for _, r := range s {
		c := r.Lo
		if c < next {
			c = next
		}
		for ; c <= r.Hi; c++ {
			if c >= 0xD800 && c < 0xE000 {
				continue // not a symbol
			}
			out = append(out, string(c))
		}
		if r.Hi+1 > next {
			next = r.Hi + 1
		}
	}
	return out
}

// Expand is the expansion: the leftmost expressions are replaced by their
// values, as many as max results (0: none; negative: any number) and depth
// dots before them (0 or less: any number) allow. A class of one symbol is that
// symbol wherever it stands: never (single 0), if its body is one byte (1) or
// always (2).
func Expand(el []ExpElem, max, depth int, try bool, single int) []string {
	out := []string{""}
	var tail strings.Builder // what follows in every result
	n, dots := 1, 0
	raw := max == 0
	for _, e := range el {
		if e.Values == nil {
			tail.WriteString(e.Body)
			dots += strings.Count(e.Body, ".")
			continue
		}
		if len(e.Values) == 1 && (single == 2 || single == 1 && len(e.Body) == 3) {
			tail.WriteString(e.Values[0])
			continue
		}
		if depth > 0 && dots >= depth {
			raw = true
		}
		if max > 0 && !raw {
			if n > max/len(e.Values) {
				raw = true
			} else {
				n *= len(e.Values)
			}
		}
		if raw {
			tail.WriteString(e.Body)
			continue
		}
		vals := e.Values
		if try {
			vals = vals[:1]
		}
		next := make([]string, 0, len(out)*len(vals))
		t := tail.String()
		tail.Reset()
		for _, p := range out {
			p += t
			for _, v := range vals {
				next = append(next, p+v)
			}
		}
		out = next
	}
	for i := range out {
		out[i] += tail.String()
	}
	return out
}

// ExpandSize is how many results Expand has, or limit if there are more.
func ExpandSize(el []ExpElem, max, depth, limit int) int {
	n, dots := 1, 0
	if max == 0 {
		return 1
	}
	for _, e := range el {
		if e.Values == nil {
			dots += strings.Count(e.Body, ".")
			continue
		}
		if depth > 0 && dots >= depth {
			break
		}
		k := n * len(e.Values)
		if max > 0 && k > max {
			break
		}
		n = k
		if n >= limit {
			return limit
		}
	}
	return n
}
