package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"sync"
	"time"
)

var scratchRe = regexp.MustCompile(`/tmp/gosym-replay[0-9]+/(s[0-9]+/)?`)

// validate pushes concrete documents through the engine and through the native build and compares what both log.
func validate(repo, verif, file string, nw int, sol string) int {
	var docs []struct{ File, Doc string }
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &docs)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	e, err := newEngine(repo, verif, nw, sol, "./zz_verif/harness")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer e.close()
	nr, err := newReplayer(repo, verif, "./zz_verif/harness", false)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer nr.close()
	var mu sync.Mutex
	next := 0
	bad, ok, unsup := 0, 0, 0
	kinds := map[string]int{}
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(docs) {
					return
				}
				in := []InputVal{{"int", "n", int64(len(docs[i].Doc))}}
				for k := 0; k < len(docs[i].Doc); k++ {
					in = append(in, InputVal{"byte", "b", int64(docs[i].Doc[k])})
				}
				in = append(in, InputVal{"int", "full", int64(i & 1)}, InputVal{"int", "xhtml", int64(i >> 1 & 1)})
				w.isReplay, w.replayIn, w.replayPos = true, in, 0
				w.logs = nil
				j := &Job{name: "CorpusDoc", fn: e.fn("CorpusDoc"), budget: 500_000_000}
				w.job = j
				w.start(j)
				t0 := time.Now()
				w.run()
				dt := time.Since(t0)
				mu.Lock()
				nr.n++
				mu.Unlock()
				n := nr.run("CorpusDoc", in, 20*time.Second)
				mu.Lock()
				a, _ := json.Marshal(w.logs)
				c, _ := json.Marshal(n.Logs)
				c = scratchRe.ReplaceAll(c, []byte("/"))
				switch {
				case w.end.kind == "unsupported":
					unsup++
					kinds[w.end.msg]++
				case w.end.kind != n.Kind && !(w.end.kind == "panic" && n.Kind == "crash") || w.end.kind == "done" && string(a) != string(c):
					bad++
					if bad < 12 {
						fmt.Printf("MISMATCH %s %q full=%d\n engine %s %s\n %s\n native %s %s\n %s\n", docs[i].File, docs[i].Doc, i&1, w.end.kind, w.end.msg, a, n.Kind, n.Msg, c)
					}
				default:
					ok++
					if w.end.kind != "done" {
						fmt.Printf("BOTH %s %s %q\n", w.end.kind, w.end.msg, docs[i].Doc)
					}
				}
				if dt > 3*time.Second {
					fmt.Printf("slow %v steps %d %q\n", dt, w.steps, docs[i].Doc[:min(60, len(docs[i].Doc))])
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	fmt.Println("agree", ok, "mismatch", bad, "unsupported", unsup)
	for k, v := range kinds {
		fmt.Println(v, k)
	}
	return 0
}
