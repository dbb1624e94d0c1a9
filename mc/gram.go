package main

import (
	"fmt"
	"sort"
	"strings"
)

// The grammar model.  A production generates tokens and, by its action, the
// canonical dump (see dump.go) the parser has to produce for them; it is at the
// same time a rule of the recogniser in earley.go.
type symKind uint8

const (
	sNT symKind = iota
	sLit
	sCls
)

type gsym struct {
	kind symKind
	s    string
	nt   *nonterm
}

type prod struct {
	id   int
	lhs  *nonterm
	rhs  []gsym
	act  func(k []string) string
	cost int
	// lax productions are texts the parser accepts although they are not
	// generated; maybe productions are texts whose acceptance is left open.
	lax, maybe bool
}

type nonterm struct {
	name  string
	prods []*prod // generating productions, the first is the default
	all   []*prod // with lax and maybe ones
	id    int
}

type grammar struct {
	nts   map[string]*nonterm
	order []*nonterm
	prods []*prod
}

func newGrammar() *grammar { return &grammar{nts: map[string]*nonterm{}} }

func (g *grammar) nt(name string) *nonterm {
	n := g.nts[name]
	if n == nil {
		n = &nonterm{name: name, id: len(g.order)}
		g.nts[name] = n
		g.order = append(g.order, n)
	}
	return n
}

const (
	fLax = 1 << iota
	fMaybe
)

// r adds a production.  The first one of a nonterminal is its default (cost 0),
// the others are deviations (cost 1).
func (g *grammar) r(lhs, rhs string, act func(k []string) string, flags ...int) *prod {
	n := g.nt(lhs)
	p := &prod{id: len(g.prods), lhs: n, act: act}
	for _, f := range flags {
		if f&fLax != 0 {
			p.lax = true
		}
		if f&fMaybe != 0 {
			p.maybe = true
		}
	}
	for _, w := range strings.Fields(rhs) {
		switch {
		case len(w) > 1 && w[0] == '$':
			p.rhs = append(p.rhs, gsym{kind: sCls, s: w[1:]})
		case w[0] >= 'A' && w[0] <= 'Z' && w != "UA" && w != "LA" && w != "Integer":
			p.rhs = append(p.rhs, gsym{kind: sNT, s: w, nt: g.nt(w)})
		default:
			p.rhs = append(p.rhs, gsym{kind: sLit, s: w})
		}
	}
	g.prods = append(g.prods, p)
	n.all = append(n.all, p)
	if !p.lax && !p.maybe {
		if len(n.prods) > 0 {
			p.cost = 1
		}
		n.prods = append(n.prods, p)
	}
	return p
}

// check verifies that every nonterminal is defined and that the defaults
// derive a finite text.
func (g *grammar) check() error {
	state := map[*nonterm]int{}
	var visit func(n *nonterm) error
	visit = func(n *nonterm) error {
		if len(n.prods) == 0 {
			if len(n.all) == 0 {
				return fmt.Errorf("%s is not defined", n.name)
			}
			return nil
		}
		switch state[n] {
		case 1:
			return fmt.Errorf("the default of %s is recursive", n.name)
		case 2:
			return nil
		}
		state[n] = 1
		for _, s := range n.prods[0].rhs {
			if s.kind == sNT {
				if err := visit(s.nt); err != nil {
					return err
				}
			}
		}
		state[n] = 2
		return nil
	}
	for _, n := range g.order {
		if err := visit(n); err != nil {
			return err
		}
	}
	return nil
}

// ---- evaluation of a derivation ----

// gtext is one generated text with the dump it must parse to.
type gtext struct {
	toks []string
	cls  []byte // terminal class of each token (see earley.go), 'l' for literals
	dump string
	ch   []*prod
	bad  bool // not a well-formed case (an accessor without member, a label without declaration)
}

type evaluator struct {
	choices []*prod
	pos     int
	t       *gtext
	n       int
	uses    bool
	label   bool
	class   [][]string                   // declared members per open class
	xf      func(i int, s string) string // respelling of the tokens
}

func (e *evaluator) emit(s string, cls byte) string {
	if e.xf != nil {
		s = e.xf(len(e.t.toks), s)
	}
	e.t.toks = append(e.t.toks, s)
	e.t.cls = append(e.t.cls, cls)
	return s
}

func (e *evaluator) leaf(cls string) string {
	e.n++
	var s string
	switch cls {
	case "d", "a":
		s = fmt.Sprintf("d%d", e.n)
	case "i":
		s = fmt.Sprintf("i%d", e.n)
	case "t":
		s = fmt.Sprintf("T%d", e.n)
	case "f":
		s = fmt.Sprintf("f%d", e.n)
		if k := len(e.class); k > 0 {
			e.class[k-1] = append(e.class[k-1], s)
		}
	case "m":
		k := len(e.class)
		if k == 0 || len(e.class[k-1]) == 0 {
			e.t.bad = true
			s = "f0"
		} else {
			ms := e.class[k-1]
			s = ms[e.n%len(ms)]
		}
	case "n":
		s = fmt.Sprintf("%d", e.n+100)
	case "g":
		s = fmt.Sprintf("-%d", e.n+100)
	case "r":
		s = fmt.Sprintf("%d.5", e.n+100)
	case "s":
		s = fmt.Sprintf("'s%d'", e.n)
	case "u":
		if !e.uses {
			e.t.bad = true
		}
		s = "UA"
	case "l":
		if !e.label {
			e.t.bad = true
		}
		s = "LA"
	default:
		panic("unknown leaf class " + cls)
	}
	return e.emit(s, cls[0])
}

func (e *evaluator) eval() string {
	p := e.choices[e.pos]
	e.pos++
	isClass := p.lhs.name == "ClassBody"
	if isClass {
		e.class = append(e.class, nil)
	}
	isRoutine := p.lhs.name == "MethodTail"
	_ = isRoutine
	var kb [16]string
	k := kb[:0]
	for _, s := range p.rhs {
		switch s.kind {
		case sNT:
			k = append(k, e.eval())
		case sLit:
			switch s.s {
			case "UA":
				e.uses = true
			case "LA":
				e.label = true
			}
			k = append(k, e.emit(s.s, 'l'))
		default:
			k = append(k, e.leaf(s.s))
		}
	}
	if isClass {
		e.class = e.class[:len(e.class)-1]
	}
	if p.act == nil {
		if len(k) == 0 {
			return ""
		}
		return k[0]
	}
	return p.act(k)
}

func evalChoices(ch []*prod) *gtext {
	return evalSpelled(ch, nil)
}

// evalSpelled evaluates a derivation with its tokens spelled by xf.
func evalSpelled(ch []*prod, xf func(i int, s string) string) *gtext {
	e := &evaluator{choices: ch, t: &gtext{ch: ch}, xf: xf}
	e.t.dump = e.eval()
	return e.t
}

func (t *gtext) text() string { return strings.Join(t.toks, " ") }

// ---- dump builders ----

// nd builds the dump of a node from name, value pairs; empty values are absent.
func nd(typ string, kv ...string) string {
	type f struct{ k, v string }
	var fs []f
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i+1] != "" {
			fs = append(fs, f{kv[i], kv[i+1]})
		}
	}
	sort.Slice(fs, func(a, b int) bool { return fs[a].k < fs[b].k })
	var b strings.Builder
	b.WriteString(typ)
	b.WriteByte('{')
	for i, x := range fs {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(x.k)
		b.WriteByte(':')
		b.WriteString(x.v)
	}
	b.WriteByte('}')
	return b.String()
}

// lst wraps the items of a list ("a,b,"); an empty list is absent.
func lst(items string) string {
	if items == "" {
		return ""
	}
	return "[" + items + "]"
}

func ids(names string) string { return lst(names) }

// ---- enumeration ----

// A genCfg says which derivations of a target are enumerated.
type genCfg struct {
	g      *grammar
	start  *nonterm
	path   []step // forced way from start to the target
	target *nonterm
	budget int
	costs  map[*prod]int     // overrides of production costs
	frozen map[*nonterm]bool // nonterminals that keep their default
	depth  int
	open   int // with a path: the siblings of its last steps (after this many) may deviate too
}

type step struct {
	p   *prod
	idx int
}

type pend struct {
	nt   *nonterm
	mode uint8 // 0 enumerate, 1 default only, 2 on the forced path
	path []step
	next *pend
}

type generator struct {
	cfg     *genCfg
	choices []*prod
	visit   func(ch []*prod, rest *pend)
	multi   bool // some nonterminal has several cost-0 productions
	stop    func() bool
}

func (c *genCfg) costOf(p *prod) int {
	if c.costs != nil {
		if v, ok := c.costs[p]; ok {
			return v
		}
	}
	return p.cost
}

func (g *generator) push(p *prod, mode uint8, path []step, next *pend) *pend {
	onPath := -1
	if mode == 2 {
		onPath = path[0].idx
	}
	for i := len(p.rhs) - 1; i >= 0; i-- {
		s := p.rhs[i]
		if s.kind != sNT {
			continue
		}
		m := mode
		var pp []step
		if mode == 2 {
			if i == onPath {
				pp = path[1:]
				m = 2
				if len(pp) == 0 {
					m = 0
				}
			} else if g.cfg == nil || g.cfg.open == 0 || len(g.cfg.path)-len(path) < g.cfg.open {
				m = 1
			} else {
				m = 0
			}
		}
		next = &pend{nt: s.nt, mode: m, path: pp, next: next}
	}
	return next
}

func (g *generator) gen(st *pend, budget int) {
	if g.stop != nil && g.stop() {
		return
	}
	n := len(g.choices)
	// deterministic part
	for st != nil {
		if st.mode == 2 {
			p := st.path[0].p
			g.choices = append(g.choices, p)
			st = g.push(p, 2, st.path, st.next)
			continue
		}
		if st.mode == 1 || g.cfg.frozen[st.nt] || len(st.nt.prods) == 1 {
			p := st.nt.prods[0]
			g.choices = append(g.choices, p)
			st = g.push(p, st.mode, nil, st.next)
			continue
		}
		break
	}
	if st == nil || (budget == 0 && !g.multi) {
		g.visit(g.choices, st)
		g.choices = g.choices[:n]
		return
	}
	for _, p := range st.nt.prods {
		c := g.cfg.costOf(p)
		if c > budget {
			continue
		}
		m := len(g.choices)
		g.choices = append(g.choices, p)
		g.gen(g.push(p, st.mode, nil, st.next), budget-c)
		g.choices = g.choices[:m]
	}
	g.choices = g.choices[:n]
}

// complete appends the defaults of everything that is still pending.
func complete(ch []*prod, rest *pend) []*prod {
	out := append([]*prod(nil), ch...)
	var add func(n *nonterm)
	add = func(n *nonterm) {
		p := n.prods[0]
		out = append(out, p)
		for _, s := range p.rhs {
			if s.kind == sNT {
				add(s.nt)
			}
		}
	}
	var g generator
	for st := rest; st != nil; {
		if st.mode == 2 {
			p := st.path[0].p
			out = append(out, p)
			st = g.push(p, 2, st.path, st.next)
			continue
		}
		add(st.nt)
		st = st.next
	}
	return out
}

// each enumerates the derivations of cfg; f gets a function that evaluates the
// derivation on demand.
func (cfg *genCfg) each(stop func() bool, f func(ev func() *gtext)) {
	g := &generator{cfg: cfg, stop: stop}
	if cfg.costs != nil {
		for _, n := range cfg.g.order {
			z := 0
			for _, p := range n.prods {
				if cfg.costOf(p) == 0 {
					z++
				}
			}
			if z > 1 {
				g.multi = true
			}
		}
	}
	g.visit = func(ch []*prod, rest *pend) {
		f(func() *gtext { return evalChoices(complete(ch, rest)) })
	}
	st := &pend{nt: cfg.start}
	if len(cfg.path) > 0 {
		st.mode = 2
		st.path = cfg.path
	}
	g.gen(st, cfg.budget)
}

// ---- contexts ----

// routes returns, for every nonterminal, a shortest path from start to it.
func (g *grammar) routes(start *nonterm) map[*nonterm][]step {
	r := map[*nonterm][]step{start: {}}
	q := []*nonterm{start}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, p := range n.prods {
			for i, s := range p.rhs {
				if s.kind == sNT {
					if _, ok := r[s.nt]; !ok {
						path := append(append([]step(nil), r[n]...), step{p, i})
						r[s.nt] = path
						q = append(q, s.nt)
					}
				}
			}
		}
	}
	return r
}

// contexts returns every occurrence of target in a production that start
// reaches, as a path.
func (g *grammar) contexts(start, target *nonterm) [][]step {
	r := g.routes(start)
	var out [][]step
	for _, n := range g.order {
		base, ok := r[n]
		if !ok {
			continue
		}
		for _, p := range n.prods {
			for i, s := range p.rhs {
				if s.kind == sNT && s.nt == target {
					out = append(out, append(append([]step(nil), base...), step{p, i}))
				}
			}
		}
	}
	return out
}

// a pump is a path to a nonterminal and a shortest cycle back to it through one
// (production, position).
type pump struct {
	pre, loop []step
	name      string
}

func (g *grammar) pumps(start *nonterm) []pump {
	r := g.routes(start)
	var out []pump
	for _, n := range g.order {
		base, ok := r[n]
		if !ok {
			continue
		}
		for _, p := range n.prods {
			for i, s := range p.rhs {
				if s.kind != sNT {
					continue
				}
				back, ok := g.routes(s.nt)[n]
				if !ok {
					continue
				}
				loop := append([]step{{p, i}}, back...)
				out = append(out, pump{base, loop, fmt.Sprintf("%s#%d.%d", n.name, p.id, i)})
			}
		}
	}
	return out
}

// listPumps: the productions that contain their own nonterminal, in every context of it.
func (g *grammar) listPumps(start *nonterm) []pump {
	var out []pump
	for _, n := range g.order {
		for _, p := range n.prods {
			for i, s := range p.rhs {
				if s.kind != sNT || s.nt != n {
					continue
				}
				for j, ctx := range g.contexts(start, n) {
					if ctx[len(ctx)-1].p.lhs != n {
						out = append(out, pump{ctx, []step{{p, i}}, fmt.Sprintf("%s#%d.%d in context %d", n.name, p.id, i, j)})
					}
				}
			}
		}
	}
	return out
}

func (pu *pump) path(m int) []step {
	out := append([]step(nil), pu.pre...)
	for i := 0; i < m; i++ {
		out = append(out, pu.loop...)
	}
	return out
}
