package main

import (
	"bufio"
	"io"
	"os"
	"strings"
)

// Values printed by TLC with PrintT(ToString(v)): one per line, quoted.
// Sequences become []any, integers int, strings string, booleans bool,
// records map[string]any.

type tlaReader struct {
	s string
	i int
}

func (r *tlaReader) ws() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] == ',') {
		r.i++
	}
}

func (r *tlaReader) value() any {
	r.ws()
	s := r.s
	switch c := s[r.i]; {
	case strings.HasPrefix(s[r.i:], "<<"):
		r.i += 2
		out := []any{}
		for {
			r.ws()
			if strings.HasPrefix(s[r.i:], ">>") {
				r.i += 2
				return out
			}
			out = append(out, r.value())
		}
	case c == '{':
		r.i++
		out := []any{}
		for {
			r.ws()
			if s[r.i] == '}' {
				r.i++
				return out
			}
			out = append(out, r.value())
		}
	case c == '[':
		r.i++
		out := map[string]any{}
		for {
			r.ws()
			if s[r.i] == ']' {
				r.i++
				return out
			}
			j := strings.Index(s[r.i:], " |-> ")
			k := s[r.i : r.i+j]
			r.i += j + 5
			out[k] = r.value()
		}
	case c == '"':
		var b strings.Builder
		r.i++
		for s[r.i] != '"' {
			if s[r.i] == '\\' {
				r.i++
				switch s[r.i] {
				case 'n':
					b.WriteByte('\n')
				case 't':
					b.WriteByte('\t')
				case 'r':
					b.WriteByte('\r')
				default:
					b.WriteByte(s[r.i])
				}
			} else {
				b.WriteByte(s[r.i])
			}
			r.i++
		}
		r.i++
		return b.String()
	case strings.HasPrefix(s[r.i:], "TRUE"):
		r.i += 4
		return true
	case strings.HasPrefix(s[r.i:], "FALSE"):
		r.i += 5
		return false
	default:
		neg := false
		if c == '-' {
			neg = true
			r.i++
		}
		n, start := 0, r.i
		for r.i < len(s) && s[r.i] >= '0' && s[r.i] <= '9' {
			n = n*10 + int(s[r.i]-'0')
			r.i++
		}
		if r.i == start {
			fail("cannot read TLC value at %q", s[r.i:])
		}
		if neg {
			n = -n
		}
		return n
	}
}

// unquote undoes the quoting TLC applies to a printed string.
func unquote(l string) string {
	l = l[1 : len(l)-1]
	if !strings.ContainsRune(l, '\\') {
		return l
	}
	var b strings.Builder
	for i := 0; i < len(l); i++ {
		if l[i] == '\\' && i+1 < len(l) {
			i++
			switch l[i] {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			default:
				b.WriteByte(l[i])
			}
			continue
		}
		b.WriteByte(l[i])
	}
	return b.String()
}

// eachVector calls f for every value TLC printed.
func eachVector(path string, f func(v any)) (n int) {
	file, err := os.Open(path)
	if err != nil {
		fail("%v", err)
	}
	defer file.Close()
	br := bufio.NewReaderSize(file, 1<<20)
	for {
		l, err := br.ReadString('\n')
		l = strings.TrimRight(l, "\r\n")
		if len(l) > 1 && l[0] == '"' && l[len(l)-1] == '"' {
			r := tlaReader{s: unquote(l)}
			f(r.value())
			n++
		}
		if err == io.EOF {
			return n
		}
		if err != nil {
			fail("%v", err)
		}
	}
}

func ints(v any) []int {
	a := v.([]any)
	out := make([]int, len(a))
	for i := range a {
		out[i] = a[i].(int)
	}
	return out
}
