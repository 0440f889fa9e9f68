// Command driver replays behaviours of the TLA+ specifications in ../spec
// into goast and records behaviours of goast for them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"

	"github.com/yanun0323/goast/helper"
)

// stats of this run, printed as one JSON line for check.py.
var stats = map[string]any{}

func done() {
	b, _ := json.Marshal(stats)
	fmt.Fprintf(report, "STATS %s\n", b)
}

func main() {
	if len(os.Args) < 2 {
		fail("no command")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	var (
		seed   = fs.Int64("seed", 1, "random seed")
		out    = fs.String("out", "", "trace to write")
		index  = fs.String("index", "", "index of the cases of the trace")
		prop   = fs.String("prop", "", "property")
		in     = fs.String("in", "", "vectors to replay")
		corpN  = fs.Int("corpus", 0, "bytes of corpus files")
		soupN  = fs.Int("soup", 0, "number of token sequences")
		mutN   = fs.Int("mutants", 0, "number of mutated pieces")
		docs   = fs.String("docs", "", "documents generated from the specification")
		count  = fs.Int("count", 0, "number of cases")
		length = fs.Int("length", 0, "length of a case")
		dir    = fs.String("dir", "", "scratch directory")
		work   = fs.Int("workers", 8, "cases at the same time")
		most   = fs.Int("most", 1<<30, "cases to replay")
		talk   = fs.Bool("debug", false, "with the debug output of the code switched on")
		fsize  = fs.Int("fsize", 0, "bytes a file may have at most, 0: any number")
		stack  = fs.Int("stack", 512, "megabytes of stack a goroutine may use")
	)
	_ = fs.Parse(os.Args[2:])
	guardMemory(*stack)
	if *talk {
		f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		if err != nil {
			fail("%v", err)
		}
		os.Stdout = f
		helper.SetDebug(true)
	}
	if *fsize > 0 {
		limitFiles(*fsize)
	}
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	r := rand.New(rand.NewSource(*seed))
	_, _, _, _, _ = docs, count, length, dir, prop
	switch cmd {
	case "texts":
		texts := corpus(r, *corpN)
		nCorpus := len(texts)
		pool := texts
		texts = append(texts, soup(r, *soupN, 24)...)
		texts = append(texts, mutants(r, pool, *mutN, 400)...)
		cases, symbols := recordTexts(*prop, texts, *out, *index)
		stats["cases"], stats["symbols"], stats["corpus_files"] = cases, symbols, nCorpus
	case "kinds":
		replayKinds(*in)
	case "nodes":
		replayNodes(*in, *prop)
	case "histories":
		recordNodes(r, *prop, *count, *length, *out, *index)
	case "asts":
		replayAsts(*in, *prop, *dir)
	case "decls":
		replayDecls(*in, *prop, *count, *seed)
	case "rounds":
		replayRounds(*in, *dir)
	case "help":
		replayHelp(*in)
	case "imports":
		replayImports(*in, *dir)
	case "tall":
		replayTall(*in, *prop)
	case "long":
		replayLong(*in, *prop)
	case "pump":
		replayPump(*in, *prop, *count)
	case "json":
		toJSON(*in, *out)
	case "pack":
		replayPack(*in, *dir)
	case "describe":
		replayDescribe(*in)
	case "rope":
		replayRope(*in, *prop, *work, *most)
	case "docs":
		replayDocs(*in, *prop, *dir)
	case "lex":
		replayLex(*in, *prop)
	default:
		fail("unknown command %q", cmd)
	}
	done()
}
