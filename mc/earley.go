package main

import (
	"strings"
	"unicode"
)

// An Earley recogniser over the grammar model.  In strict mode it accepts texts
// the parser has to accept, in loose mode the texts it may accept; what loose
// mode rejects, the parser has to reject.
type recog struct {
	g      *grammar
	strict bool
	prods  []*prod
	base   []int32 // first state of each production
	sts    []rstate
	byNT   [][]int32 // initial states per nonterminal
	nul    []bool
	lits   map[string]int32 // literal (upper case) -> terminal
	nTerm  int32
}

type rstate struct {
	p    int32
	nt   int32 // next nonterminal or -1
	term int32 // next terminal or -1
	lhs  int32
	done bool
}

// class terminals
const clsAll = "daitfmnrgsulU*"

func newRecog(g *grammar, strict bool) *recog {
	r := &recog{g: g, strict: strict, lits: map[string]int32{}}
	r.nTerm = int32(len(clsAll))
	r.byNT = make([][]int32, len(g.order))
	r.base = make([]int32, len(g.prods))
	for _, p := range g.prods {
		if strict && p.maybe {
			r.base[p.id] = -1
			continue
		}
		r.base[p.id] = int32(len(r.sts))
		r.byNT[p.lhs.id] = append(r.byNT[p.lhs.id], int32(len(r.sts)))
		for i := 0; i <= len(p.rhs); i++ {
			s := rstate{p: int32(p.id), nt: -1, term: -1, lhs: int32(p.lhs.id)}
			if i == len(p.rhs) {
				s.done = true
			} else {
				switch x := p.rhs[i]; x.kind {
				case sNT:
					s.nt = int32(x.nt.id)
				case sLit:
					k := strings.ToUpper(x.s)
					t, ok := r.lits[k]
					if !ok {
						t = r.nTerm
						r.nTerm++
						r.lits[k] = t
					}
					s.term = t
				default:
					s.term = int32(strings.Index(clsAll, x.s))
				}
			}
			r.sts = append(r.sts, s)
		}
	}
	// nullable nonterminals
	r.nul = make([]bool, len(g.order))
	for changed := true; changed; {
		changed = false
		for _, p := range g.prods {
			if r.base[p.id] < 0 || r.nul[p.lhs.id] {
				continue
			}
			ok := true
			for _, s := range p.rhs {
				if s.kind != sNT || !r.nul[s.nt.id] {
					ok = false
					break
				}
			}
			if ok {
				r.nul[p.lhs.id] = true
				changed = true
			}
		}
	}
	return r
}

type tokKind uint8

const (
	tkEOF tokKind = iota
	tkReserved
	tkIdent
	tkInt
	tkNeg
	tkReal
	tkString
	tkSym
)

func kindOfTok(s string) tokKind {
	c := rune(s[0])
	switch {
	case c == '\'':
		return tkString
	case c == '-' && len(s) > 1:
		return tkNeg
	case unicode.IsDigit(c):
		if strings.Contains(s, ".") {
			return tkReal
		}
		return tkInt
	case unicode.IsLetter(c) || c == '_':
		if refReserved[strings.ToLower(s)] {
			return tkReserved
		}
		return tkIdent
	}
	return tkSym
}

// terms returns the terminals a token may stand for.
func (r *recog) terms(tok string) []int32 {
	var out []int32
	k := kindOfTok(tok)
	if t, ok := r.lits[strings.ToUpper(tok)]; ok {
		out = append(out, t)
	}
	add := func(cs string) {
		for i := 0; i < len(cs); i++ {
			out = append(out, int32(strings.IndexByte(clsAll, cs[i])))
		}
	}
	switch k {
	case tkInt:
		add("n")
	case tkNeg:
		add("g")
	case tkReal:
		add("r")
	case tkString:
		add("s")
	case tkIdent:
		if !r.strict {
			add("daitfmulU")
			break
		}
		if tok == "zz" {
			add("daitf")
			break
		}
		if len(tok) > 1 && unicode.IsDigit(rune(tok[1])) {
			switch tok[0] {
			case 'd':
				add("da")
			case 'i':
				add("i")
			case 'T':
				add("t")
			case 'f':
				add("f")
			}
		}
	}
	if strings.ToUpper(tok) != "END" {
		add("*")
	}
	return out
}

type eitem struct {
	st, org int32
}

type eset struct {
	items []eitem
	seen  map[eitem]struct{}
	wait  map[int32][]eitem // nonterminal -> items waiting for it
	want  map[int32]bool    // terminals
	acc   bool
}

func newSet() *eset {
	return &eset{seen: map[eitem]struct{}{}, wait: map[int32][]eitem{}, want: map[int32]bool{}}
}

func (s *eset) add(it eitem) {
	if _, ok := s.seen[it]; !ok {
		s.seen[it] = struct{}{}
		s.items = append(s.items, it)
	}
}

// a chart is a list of sets; it can be extended from any prefix.
func (r *recog) start(start *nonterm) []*eset {
	s := newSet()
	for _, st := range r.byNT[start.id] {
		s.add(eitem{st, 0})
	}
	r.closeSet([]*eset{s}, start)
	return []*eset{s}
}

func (r *recog) closeSet(ch []*eset, start *nonterm) {
	n := int32(len(ch) - 1)
	s := ch[n]
	for i := 0; i < len(s.items); i++ {
		it := s.items[i]
		st := &r.sts[it.st]
		switch {
		case st.done:
			if it.org == 0 && st.lhs == int32(start.id) {
				s.acc = true
			}
			// copy: the waiting list of this very set may grow
			w := ch[it.org].wait[st.lhs]
			for _, x := range w {
				s.add(eitem{x.st + 1, x.org})
			}
		case st.nt >= 0:
			w := s.wait[st.nt]
			s.wait[st.nt] = append(w, it)
			if len(w) == 0 {
				for _, b := range r.byNT[st.nt] {
					s.add(eitem{b, n})
				}
			}
			if r.nul[st.nt] {
				s.add(eitem{it.st + 1, it.org})
			}
		default:
			s.want[st.term] = true
		}
	}
}

// viable tells whether a token can follow the prefix.
func (s *eset) viable(ts []int32) bool {
	for _, t := range ts {
		if s.want[t] {
			return true
		}
	}
	return false
}

// step appends the set after one more token; false when the token cannot follow.
func (r *recog) step(ch []*eset, ts []int32, start *nonterm) ([]*eset, bool) {
	last := ch[len(ch)-1]
	if !last.viable(ts) {
		return ch, false
	}
	s := newSet()
	for _, it := range last.items {
		st := &r.sts[it.st]
		if st.term >= 0 {
			for _, t := range ts {
				if st.term == t {
					s.add(eitem{it.st + 1, it.org})
					break
				}
			}
		}
	}
	ch = append(ch, s)
	r.closeSet(ch, start)
	return ch, true
}

// run extends a chart by tokens until the goal is complete.  It returns
// whether the text is accepted, and otherwise the index of the first token
// that cannot follow (len(toks) at the end of the text).
func (r *recog) run(ch []*eset, toks []string, start *nonterm) (bool, int, []*eset) {
	ch = ch[:len(ch):len(ch)]
	if ch[len(ch)-1].acc {
		return true, 0, nil
	}
	for i, t := range toks {
		var ok bool
		ch, ok = r.step(ch, r.terms(t), start)
		if !ok {
			return false, i, ch
		}
		if ch[len(ch)-1].acc {
			return true, i, nil
		}
	}
	return false, len(toks), ch
}
