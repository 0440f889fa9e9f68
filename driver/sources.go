package main

import (
	"go/format"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

// Sources of texts for the recorded parses.

func goFiles(root string) []string {
	var out []string
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			switch filepath.Base(p) {
			case "testdata", ".git", "node_modules":
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && fi.Size() < 64<<10 {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

var corpusDirs = []string{"go/ast", "go/parser", "go/printer", "go/types", "go/doc", "text/template", "encoding", "net/http", "strconv",
	"strings", "os", "reflect", "sync", "slices", "maps", "iter", "time", "fmt", "bufio", "bytes", "container", "context", "database", "regexp",
	"cmd/gofmt", "cmd/vet", "cmd/go/internal/modload", "cmd/compile/internal/types2", "cmd/cgo", "html", "io", "log", "math", "mime", "path", "sort",
	"unicode", "testing", "errors", "expvar", "flag", "hash", "image", "index", "embed", "archive", "compress", "crypto/tls", "crypto/x509", "debug", "plugin", "runtime", "syscall"}

// corpus returns gofmt-formatted files of the Go distribution and of the
// repository, in random order, up to a number of bytes.
func corpus(r *rand.Rand, maxBytes int) []srcText {
	src := filepath.Join(runtime.GOROOT(), "src")
	var files []string
	for _, d := range corpusDirs {
		files = append(files, goFiles(filepath.Join(src, d))...)
	}
	if len(files) < 100 {
		fail("no corpus below %s", src)
	}
	r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
	files = append(goFiles("/repo"), files...)
	var out []srcText
	n := 0
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		s, err := format.Source(b)
		if err != nil || len(s) == 0 {
			continue
		}
		if n += len(s); n > maxBytes {
			break
		}
		out = append(out, srcText{base: startLine(len(out)), text: string(s), origin: f, formatted: true})
	}
	return out
}

var soupWords = strings.Split("func|func|func|type|type|var|const|import|package|X|Foo|pkg.Bar|*T|_|int|string|error|any|(|)|(|)|(|)|{|}|{|}|[|]|[|]|,|,| | | | | | |\n|\n|\n|\t|\r\n|// c|// \"x|/* d */|/* m\nn */|/**/|/*|=|:=|struct|interface|map|chan|...V|<-chan|\"s\"|\"a\\\"b\"|\"\\\\\"|`r`|`r\n\\r`|'x'|'\"'|'\\''|'\\\\'|:|;|a|b|c|return|go|select|0|12|0x1F|1.5|+|-|/|*|&|%|!|==|<-|.|\\|\"|`|'|é|世界|\x00|\xff|~int|{}|()|[]|func(|) (|map[string]|struct{|interface{|}\n|)\n|// x\n|funcX|typed|variable|constant|packages|imported|\ufeff|\u00a0|\f|\v|\u2028|\u0085|\x1a|“|\u3000x|", "|")

// soup returns random token sequences behind a keyword, most of them not Go.
func soup(r *rand.Rand, count, maxWords int) []srcText {
	heads := []string{"func ", "func F(", "func (r *T) M(", "type ", "type X struct {\n\t", "type X interface {\n\t", "type T ", "var ", "var x = ", "const (\n", "import (\n", "package p\n\n", "// c\n", "/* c */ ", "func\t", "type\n", "func F() ", "func F(a int) (", "type F func(", "type X[T any] "}
	out := make([]srcText, 0, count)
	for i := 0; i < count; i++ {
		var b strings.Builder
		b.WriteString(heads[r.Intn(len(heads))])
		for n := r.Intn(maxWords + 1); n > 0; n-- {
			b.WriteString(soupWords[r.Intn(len(soupWords))])
		}
		base := 0
		if r.Intn(3) == 0 {
			base = r.Intn(200) + startLine(r.Intn(8))
		}
		out = append(out, srcText{base: base, text: b.String(), origin: "soup"})
	}
	return out
}

// mutants returns pieces of corpus files with a few random edits.
func mutants(r *rand.Rand, from []srcText, count, maxLen int) []srcText {
	frag := []string{"\"", "`", "'", "\\", "/*", "*/", "//", "\n", "(", ")", "{", "}", "[", "]", ",", " ", "\t", "func", "type", "var", ";", "\r", "\\\"", "\xc3", "\x00", "/", "*", "\n\n", "struct", "interface", "\ufeff", "\u00a0", "\f", "\v", "\u2028", "\u0085", "\x1a", "e\u0301"}
	out := make([]srcText, 0, count)
	for len(out) < count && len(from) > 0 {
		t := from[r.Intn(len(from))].text
		// start at a declaration or comment at the beginning of a line
		lines := []int{}
		off := 0
		for _, l := range strings.SplitAfter(t, "\n") {
			for _, k := range []string{"func ", "type ", "var ", "const ", "import ", "package ", "// ", "/* "} {
				if strings.HasPrefix(l, k) {
					lines = append(lines, off)
				}
			}
			off += len(l)
		}
		if len(lines) == 0 {
			continue
		}
		s := t[lines[r.Intn(len(lines))]:]
		if n := 20 + r.Intn(maxLen); len(s) > n {
			s = s[:n]
		}
		keep := strings.IndexByte(s, ' ') + 1 // the leading keyword
		if keep <= 0 || keep >= len(s) {
			continue
		}
		b := []byte(s)
		for e := r.Intn(5); e > 0; e-- {
			at := keep + r.Intn(len(b)-keep+1)
			switch r.Intn(4) {
			case 0: // insert
				f := frag[r.Intn(len(frag))]
				b = append(b[:at:at], append([]byte(f), b[at:]...)...)
			case 1: // delete
				n := 1 + r.Intn(3)
				if at+n <= len(b) {
					b = append(b[:at:at], b[at+n:]...)
				}
			case 2: // overwrite
				if at < len(b) {
					b[at] = byte(r.Intn(256))
				}
			case 3: // duplicate a piece
				n := 1 + r.Intn(12)
				if at+n <= len(b) {
					b = append(b[:at+n:at+n], b[at:]...)
				}
			}
			if len(b) <= keep {
				break
			}
		}
		out = append(out, srcText{base: r.Intn(2)*r.Intn(50) + startLine(r.Intn(8)), text: string(b), origin: "mutant"})
	}
	return out
}
