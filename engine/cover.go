package main

import (
	"bufio"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// block coverage of the code under check, written to the file named by VF_COV (a tool to find what the harnesses do not reach)
var covFile = os.Getenv("VF_COV")
var covBlocks sync.Map

func covTouch(b *ssa.BasicBlock) {
	covBlocks.LoadOrStore(b, true)
}

func writeCover(touched map[*ssa.Function]bool) {
	f, err := os.OpenFile(covFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	var out []string
	for fn := range touched {
		for _, b := range fn.Blocks {
			_, hit := covBlocks.Load(b)
			if b.Index == 0 {
				hit = true
			}
			for _, i := range b.Instrs {
				if !i.Pos().IsValid() {
					continue
				}
				p := fn.Prog.Fset.Position(i.Pos())
				if !strings.HasPrefix(p.Filename, repoDir) || strings.Contains(p.Filename, "zz_verif_") {
					break
				}
				out = append(out, fmt.Sprintf("%s:%d %v", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line, hit))
			}
		}
	}
	sort.Strings(out)
	last := ""
	for _, s := range out {
		if s != last {
			fmt.Fprintln(w, s)
		}
		last = s
	}
}
