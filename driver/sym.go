package main

// Encoding of texts as symbol sequences, the alphabet of spec/GoLex.tla.
//
// A symbol is one special byte (its value) or a maximal run of other bytes,
// interned injectively to a number >= 256.

var special = func() (t [256]bool) {
	for _, b := range []byte(" []{}(),:;\n\t\r\"`'/*\\") {
		t[b] = true
	}
	return
}()

var keywordSyms = []string{"package", "import", "var", "const", "type", "func", "map", "chan", "struct", "interface"}

const firstPlain = 280

type interner struct {
	ids   map[string]int
	texts []string
}

func newInterner() *interner {
	in := &interner{ids: map[string]int{}}
	for i, k := range keywordSyms {
		in.ids[k] = 256 + i
	}
	return in
}

func (in *interner) id(run string) int {
	if v, ok := in.ids[run]; ok {
		return v
	}
	v := firstPlain + len(in.texts)
	in.ids[run] = v
	in.texts = append(in.texts, run)
	return v
}

func (in *interner) encode(dst []int, s string) []int {
	for i := 0; i < len(s); {
		if special[s[i]] {
			dst = append(dst, int(s[i]))
			i++
			continue
		}
		j := i
		for j < len(s) && !special[s[j]] {
			j++
		}
		dst = append(dst, in.id(s[i:j]))
		i = j
	}
	return dst
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
