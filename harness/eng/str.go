package eng

import (
	"encoding/json"
	"strconv"
)

// Str is a string which survives JSON although it may hold invalid UTF-8: it
// is written as the body of a Go string literal.
type Str string

// MarshalJSON implements json.Marshaler.
func (s Str) MarshalJSON() ([]byte, error) {
	q := strconv.Quote(string(s))
	return json.Marshal(q[1 : len(q)-1])
}

// UnmarshalJSON implements json.Unmarshaler.
func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + q + `"`)
	if err != nil {
		return err
	}
	*s = Str(u)
	return nil
}

// Strs converts.
func Strs(a []string) []Str {
	r := make([]Str, len(a))
	for i := range a {
		r[i] = Str(a[i])
	}
	return r
}

// Plain converts back.
func Plain(a []Str) []string {
	r := make([]string, len(a))
	for i := range a {
		r[i] = string(a[i])
	}
	return r
}
