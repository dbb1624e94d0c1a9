package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
)

// gramStats prints the sizes of the derivation spaces.
func gramStats(target string, maxB int, frozen []string) {
	fr := ntSet(frozen)
	for _, st := range starts() {
		ctxs := pascal.contexts(st.nt, pascal.nt(target))
		if st.nt.name == target {
			ctxs = [][]step{nil}
		}
		for b := 0; b <= maxB; b++ {
			n := 0
			for _, path := range ctxs {
				cfg := &genCfg{g: pascal, start: st.nt, path: path, target: pascal.nt(target), budget: b, frozen: fr}
				cfg.each(nil, func(ev func() *gtext) { n++ })
			}
			fmt.Printf("%s in %s: %d contexts, budget %d: %d cases\n", target, st.nt.name, len(ctxs), b, n)
		}
	}
}

// gramTest compares parser and model and prints the first disagreements of
// each context.
func gramTest(target string, b int, frozen []string) {
	fr := ntSet(frozen)
	if err := pascal.check(); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	var mu sync.Mutex
	for _, st := range starts() {
		ctxs := pascal.contexts(st.nt, pascal.nt(target))
		if st.nt.name == target {
			ctxs = [][]step{nil}
		}
		for _, path := range ctxs {
			fails, total, bad, shown := 0, 0, 0, 0
			var wg sync.WaitGroup
			nw := runtime.NumCPU()
			for w := 0; w < nw; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					i := 0
					cfg := &genCfg{g: pascal, start: st.nt, path: path, target: pascal.nt(target), budget: b, frozen: fr}
					cfg.each(nil, func(ev func() *gtext) {
						i++
						if i%nw != w {
							return
						}
						t := ev()
						msg := ""
						if !t.bad {
							msg = func() (m string) {
								defer func() {
									if r := recover(); r != nil {
										m = fmt.Sprint("panic ", r)
									}
								}()
								r := parseGoal(t.text(), st.unit)
								if r.err != nil {
									return "rejected: " + r.err.Error()
								}
								if got := Dump(r.node()); got != t.dump {
									return diffAt(t.dump, got)
								}
								return ""
							}()
						}
						mu.Lock()
						defer mu.Unlock()
						total++
						if t.bad {
							bad++
						}
						if msg != "" {
							fails++
							if shown < 1 {
								shown++
								fmt.Printf("FAIL %s\n   %s\n", t.text(), msg)
							}
						}
					})
				}(w)
			}
			wg.Wait()
			last := "start"
			if len(path) > 0 {
				last = fmt.Sprintf("%s->%d", path[len(path)-1].p.lhs.name, path[len(path)-1].p.id)
			}
			if fails > 0 || os.Getenv("V") != "" {
				fmt.Printf("== %s in %s via %s: total %d bad %d fails %d\n", target, st.nt.name, last, total, bad, fails)
			}
		}
	}
}

func corpusStats() {
	for b := 0; b <= 2; b++ {
		c := corpus(b)
		n := 0
		for _, x := range c {
			n += len(x.t.toks)
		}
		fmt.Println("budget", b, "texts", len(c), "tokens", n)
	}
}

// maybeStats shows how the parser treats each open production.
func maybeStats() {
	for _, p := range pascal.prods {
		if !p.maybe && !p.lax {
			continue
		}
		acc, rej := 0, 0
		ex := ""
		var exr string
		for _, st := range starts() {
			r := pascal.routes(st.nt)
			var ctxs [][]step
			if base, ok := r[p.lhs]; ok {
				ctxs = append(ctxs, base)
			}
			ctxs = append(ctxs, pascal.contexts(st.nt, p.lhs)...)
			for _, path := range ctxs {
				func() {
					defer func() { recover() }()
					save := p.lhs.prods
					p.lhs.prods = append([]*prod{p}, save...)
					p2 := *p
					_ = p2
					defer func() { p.lhs.prods = save }()
					// force p at the end of the path
					cfg := &genCfg{g: pascal, start: st.nt, path: path, budget: 0}
					g := &generator{cfg: cfg}
					g.visit = func(ch []*prod, rest *pend) {
						// the target is the first pending nonterminal
						ch = append(append([]*prod(nil), ch...), p)
						p.lhs.prods = save
						next := g.push(p, 1, nil, rest.next)
						t := evalChoices(complete(ch, next))
						txt := t.text()
						rr := parseGoal(txt, st.unit)
						if rr.err == nil {
							acc++
							ex = txt
						} else {
							rej++
							exr = txt + " -- " + rr.err.Error()
						}
					}
					stt := &pend{nt: st.nt}
					if len(path) > 0 {
						stt.mode, stt.path = 2, path
					}
					g.gen(stt, 0)
				}()
			}
		}
		rhs := ""
		for _, s := range p.rhs {
			rhs += " " + s.s
		}
		fmt.Printf("%s ->%s: accepted %d rejected %d\n     %s\n     %s\n", p.lhs.name, rhs, acc, rej, trunc(ex, 200), trunc(exr, 260))
	}
}
