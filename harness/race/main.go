// Command race runs pairs of operations concurrently on shared grammars, one
// operation per goroutine, with no synchronisation but start and join. It is
// built with the race detector: when no access of one operation conflicts with
// an access of the other, every interleaving of the two is equivalent to the
// one that ran, so one run per pair decides all schedules.
//
//	race <part> <parts> <tier>      run one part of the pairs
//	race cold <i>                   operation i against itself, in a process that has done nothing else
//
// Every pair gets grammars that no operation has seen yet, and what the
// operations answer alone is computed last: a cache that earlier operations
// have filled would hide the conflicting writes that fill it.
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"

	"verif/harness/ops"
)

func pair(w *ops.World, a, b ops.Op) [2]string {
	start := make(chan struct{})
	var wg sync.WaitGroup
	var got [2]string
	for k, op := range []ops.Op{a, b} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[k] = op.Run(w)
		}()
	}
	close(start)
	wg.Wait()
	return got
}

func world(os ...ops.Op) *ops.World {
	only := map[string]bool{}
	for _, o := range os {
		// reading texts needs no grammar
		if o.Gram != "" && !strings.Contains(o.Name, ".ParseABNF") {
			only[o.Gram] = true
		}
	}
	return ops.NewWorld(false, only)
}

func main() {
	all := ops.All()
	type run struct {
		i, j int
		got  [2]string
	}
	var runs []run
	if os.Args[1] == "cold" {
		i, _ := strconv.Atoi(os.Args[2])
		runs = append(runs, run{i, i, pair(world(all[i]), all[i], all[i])})
	} else {
		part, _ := strconv.Atoi(os.Args[1])
		parts, _ := strconv.Atoi(os.Args[2])
		whole := os.Args[3] == "thorough"
		at := 0
		for i := range all {
			for j := i; j < len(all); j++ {
				if !all[i].Conc || !all[j].Conc {
					continue
				}
				if !whole && all[i].Gram != all[j].Gram && !all[i].Core && !all[j].Core {
					continue
				}
				if at++; at%parts != part {
					continue
				}
				fmt.Fprintf(os.Stderr, "PAIR %d %d %s || %s\n", i, j, all[i].Name, all[j].Name)
				runs = append(runs, run{i, j, pair(world(all[i], all[j]), all[i], all[j])})
			}
		}
	}
	want := map[int]string{}
	for _, r := range runs {
		for k, x := range []int{r.i, r.j} {
			if _, ok := want[x]; !ok {
				want[x] = all[x].Run(world(all[x]))
			}
			if r.got[k] != want[x] {
				fmt.Printf("DIFFERENT %s while %s: %s, alone %s\n", all[x].Name, all[[]int{r.j, r.i}[k]].Name, r.got[k], want[x])
				os.Exit(3)
			}
		}
	}
	fmt.Println("PAIRS", len(runs))
}
