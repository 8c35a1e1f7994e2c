package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
)

// The byte-domain fast path decides branches over a single input byte with
// 256-bit sets. Everything it concludes rests on three kinds of lemma, all
// discharged by the SMT solver for every value of the byte (batched, each
// distinct lemma once per process):
//
//	term    t(x) <=> x in S_t
//	narrow  x in D and x in S <=> x in D'
//	pair    not (x in D and x in S)
//
// A lemma the solver refutes invalidates the run.
type lemmaStore struct {
	mu      sync.Mutex
	seen    map[string]bool
	pending []string
	total   int64
	queries int64
	unknown int64
}

var lemmas = &lemmaStore{seen: map[string]bool{}}

const lemmaBatch = 128

// add queues the lemma whose negation is written by f over the byte variable x.
func (l *lemmaStore) add(w *Worker, key string, f func(*strings.Builder)) {
	l.mu.Lock()
	if l.seen[key] {
		l.mu.Unlock()
		return
	}
	l.seen[key] = true
	l.mu.Unlock()
	sb := &strings.Builder{}
	f(sb)
	var batch []string
	l.mu.Lock()
	l.pending = append(l.pending, sb.String())
	if len(l.pending) >= lemmaBatch {
		batch = l.pending
		l.pending = nil
	}
	l.mu.Unlock()
	l.discharge(w, batch)
}

func (l *lemmaStore) flush(w *Worker) {
	l.mu.Lock()
	batch := l.pending
	l.pending = nil
	l.mu.Unlock()
	l.discharge(w, batch)
}

func (l *lemmaStore) discharge(w *Worker, batch []string) {
	if len(batch) == 0 {
		return
	}
	atomic.AddInt64(&l.total, int64(len(batch)))
	atomic.AddInt64(&l.queries, 1)
	v := w.solver.raw("(declare-const x (_ BitVec 8))\n(assert (or false " + strings.Join(batch, "\n") + "))\n")
	switch v {
	case VSat:
		panic(engineErr(fmt.Sprintf("solver refutes a byte-domain lemma among %d", len(batch))))
	case VUnknown:
		atomic.AddInt64(&l.unknown, int64(len(batch)))
	}
}

func setBytes(s *Set256) []byte {
	b := make([]byte, 32)
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			b[i*8+j] = byte(s[i] >> (8 * j))
		}
	}
	return b
}

// smtSet writes membership of x in s as a disjunction of ranges.
func smtSet(s *Set256, sb *strings.Builder) {
	if s.empty() {
		sb.WriteString("false")
		return
	}
	if *s == fullSet {
		sb.WriteString("true")
		return
	}
	sb.WriteString("(or")
	for i := 0; i < 256; {
		if !s.has(uint64(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && s.has(uint64(j+1)) {
			j++
		}
		if i == j {
			fmt.Fprintf(sb, " (= x #x%02x)", i)
		} else {
			fmt.Fprintf(sb, " (and (bvule #x%02x x) (bvule x #x%02x))", i, j)
		}
		i = j + 1
	}
	sb.WriteString(" false)")
}

func (w *Worker) termLemma(t *Term) {
	if t.lemma || t.set == nil {
		return
	}
	t.lemma = true
	if t.neg != nil {
		t.neg.lemma = true
	}
	if t.op == OBNot {
		if !t.a.lemma {
			w.termLemma(t.a)
		}
		return
	}
	sb := &strings.Builder{}
	w.tt.norm = true
	w.tt.smt(t, sb)
	w.tt.norm = false
	txt := sb.String()
	lemmas.add(w, "t"+txt, func(sb *strings.Builder) {
		sb.WriteString("(xor " + txt + " ")
		smtSet(t.set, sb)
		sb.WriteString(")")
	})
}

type narrowKey struct{ d, s Set256 }

func (w *Worker) narrowLemma(t *Term, d, nd *Set256) {
	w.termLemma(t)
	if *d == fullSet {
		return
	}
	k := narrowKey{*d, *t.set}
	if w.narrowCache[k] {
		return
	}
	w.narrowCache[k] = true
	dd, nn := *d, *nd
	lemmas.add(w, "n"+string(setBytes(d))+string(setBytes(t.set)), func(sb *strings.Builder) {
		sb.WriteString("(xor (and ")
		smtSet(&dd, sb)
		sb.WriteString(" ")
		smtSet(t.set, sb)
		sb.WriteString(") ")
		smtSet(&nn, sb)
		sb.WriteString(")")
	})
}
