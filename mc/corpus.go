package main

import "sync"

// A corpus item is one well-formed text of the grammar model.
type citem struct {
	t    *gtext
	unit bool
}

var corpusCache sync.Map

// corpus returns, without repetitions, the texts of every production in every
// place it can occur: for every nonterminal, every occurrence of it in the
// grammar (reached by a shortest path), all derivations within the budget.
func corpus(budget int) []citem {
	if v, ok := corpusCache.Load(budget); ok {
		return v.([]citem)
	}
	seen := map[string]bool{}
	var out []citem
	for _, st := range starts() {
		add := func(path []step, b int) {
			cfg := &genCfg{g: pascal, start: st.nt, path: path, budget: b}
			cfg.each(nil, func(ev func() *gtext) {
				t := ev()
				if t.bad {
					return
				}
				key := t.text()
				if !seen[key] {
					seen[key] = true
					out = append(out, citem{t, st.unit})
				}
			})
		}
		add(nil, budget)
		for _, n := range pascal.order {
			if len(n.prods) == 0 {
				continue
			}
			for _, path := range pascal.contexts(st.nt, n) {
				add(path, budget)
			}
		}
	}
	corpusCache.Store(budget, out)
	return out
}
