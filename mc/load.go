package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/parser"
)

// ---- C15: load order ----

// loadCase loads the project under every map iteration order with up to dev
// deviations and compares the result with the model each time.
func loadCase(c *Ctx, pc *projCfg, cyc bool, dev int) string {
	p := pc.build()
	c.Input(p.text())
	c.State(p.text())
	return inScratch(c, p.write, func() string {
		var res *parser.Program
		var err error
		return mapOrders(c, dev, func() {
			res, err = parser.ParseProgram(p.srcs[0].file)
		}, func() string {
			c.Trace()
			if cyc {
				if err == nil {
					return "units whose interfaces use each other in a cycle are accepted"
				}
				return ""
			}
			if err != nil {
				return "rejected: " + err.Error()
			}
			return p.wrong(c, res)
		})
	})
}

func runC15(c *Ctx) {
	names := []string{"Ub", "ua", "Ud", "Uc", "uf", "Ue", "Uh", "Ug"}
	one := func(pc *projCfg, cyc bool, dev int) {
		if !c.Mine() {
			c.Case(nil)
			return
		}
		c.Case(func() string { return loadCase(c, pc, cyc, dev) })
	}
	mk := func(us []string, uses func(u string) []string) map[string]*unitCfg {
		cfg := map[string]*unitCfg{}
		for _, u := range us {
			cfg[u] = &unitCfg{intf: kConst, intfUses: uses(u)}
		}
		return cfg
	}
	for n := 1; n <= 3; n++ {
		c.Space(fmt.Sprintf("every graph of interface uses of %d units, every listing order, every map order", n))
		us := names[:n]
		var edges [][2]int
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				edges = append(edges, [2]int{i, j})
			}
		}
		for m := 0; m < 1<<uint(len(edges)); m++ {
			cyc := cyclic(n, edges, m)
			for _, ord := range permutations(us) {
				one(&projCfg{lean: true, name: "x", units: ord, cfg: mk(us, func(u string) []string { return succ(us, edges, m, indexOf(us, u)) })}, cyc, c.Pick(1, 2))
			}
		}
	}
	c.Space("every acyclic graph of three units with every graph of implementation uses, every listing order")
	eachGraph(names[:3], 6, func(intf, impl map[string][]string) {
		ords := permutations(names[:3])
		if c.Quick() {
			ords = ords[:3]
		}
		for _, ord := range ords {
			cfg := map[string]*unitCfg{}
			for _, u := range names[:3] {
				cfg[u] = &unitCfg{intf: kConst, intfUses: intf[u], implUses: impl[u]}
			}
			one(&projCfg{lean: true, name: "x", units: ord, cfg: cfg}, false, 1)
		}
	})
	c.Space("every graph of interface uses of four units")
	{
		us := names[:4]
		var edges [][2]int
		for i := range us {
			for j := range us {
				if i != j {
					edges = append(edges, [2]int{i, j})
				}
			}
		}
		ords := permutations(us)
		for m := 0; m < 1<<uint(len(edges)); m++ {
			cyc := cyclic(4, edges, m)
			for k, ord := range ords {
				if c.Quick() && k != m%len(ords) && k != (m*7+5)%len(ords) {
					continue
				}
				one(&projCfg{lean: true, name: "x", units: ord, cfg: mk(us, func(u string) []string { return succ(us, edges, m, indexOf(us, u)) })}, cyc, c.Pick(0, 1))
			}
		}
	}
	c.Space("chains, stars and layers of up to eight units in many listing orders")
	for n := 4; n <= 8; n++ {
		us := names[:n]
		shapes := []func(i, j int) bool{
			func(i, j int) bool { return j == i+1 },
			func(i, j int) bool { return j == i-1 },
			func(i, j int) bool { return i < j },
			func(i, j int) bool { return i == 0 && j > 0 },
			func(i, j int) bool { return j == 0 && i > 0 },
			func(i, j int) bool { return i == (j-1)/2 && j > 0 },
			func(i, j int) bool { return i%2 == 0 && j%2 == 1 },
			func(i, j int) bool { return j == (i+1)%n }, // a cycle
			func(i, j int) bool { return i < j || i == n-1 && j == 0 },
		}
		var ords [][]string
		if n <= c.Pick(4, 6) {
			ords = permutations(us)
		} else {
			for r := 0; r < n; r++ {
				for _, rev := range []bool{false, true} {
					var o []string
					for k := 0; k < n; k++ {
						if rev {
							o = append(o, us[(2*n+r-k)%n])
						} else {
							o = append(o, us[(r+k)%n])
						}
					}
					ords = append(ords, o)
				}
			}
		}
		for si, sh := range shapes {
			for _, ord := range ords {
				cfg := mk(us, func(u string) []string {
					var out []string
					for j := range us {
						if i := indexOf(us, u); i != j && sh(i, j) {
							out = append(out, us[j])
						}
					}
					return out
				})
				one(&projCfg{lean: true, name: "x", units: ord, cfg: cfg}, si >= 7, 1)
			}
		}
	}
	c.Space("units with errors: the same error for every map order")
	for bad := 1; bad < 64; bad++ {
		for m := 0; m < 8; m++ {
			us := names[:3]
			cfg := mk(us, func(u string) []string {
				var out []string
				for j, v := range us {
					if i := indexOf(us, u); i < j && m>>uint(i+j-1)&1 == 1 {
						out = append(out, v)
					}
				}
				return out
			})
			for _, ord := range permutations(us) {
				pc := &projCfg{lean: true, name: "x", units: ord, cfg: cfg}
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				bad := bad
				c.Case(func() string { return errorCase(c, pc, bad, 1) })
			}
		}
	}
	c.Space("units that are used but not listed or not loaded")
	for _, ex := range [][]string{nil, {"SysUtils"}} {
		for m := 0; m < 64; m++ {
			for _, ord := range permutations(names[:3]) {
				cfg := mk(names[:3], func(u string) []string {
					k := m >> uint(2*indexOf(names[:3], u)) & 3
					var out []string
					if k&1 == 1 {
						out = append(out, "SysUtils")
					}
					if k&2 == 2 && u != "Ub" {
						out = append(out, "Ub")
					} else if k&2 == 2 {
						out = append(out, "Forms")
					}
					return out
				})
				one(&projCfg{lean: true, name: "x", units: ord, extra: ex, cfg: cfg}, false, 1)
			}
		}
	}
}

// errorCase: some of the units have an error; the error that is reported is the
// same for every map iteration order.
func errorCase(c *Ctx, pc *projCfg, bad int, dev int) string {
	p := pc.build()
	for i, s := range p.srcs[1:] {
		switch bad >> uint(2*i) & 3 {
		case 1: // in the interface
			s.toks = append(strings.Fields("unit "+s.toks[1]+" ; interface const"), fmt.Sprint(i), ";")
		case 2: // in the implementation
			s.toks = append(s.toks[:len(s.toks)-2:len(s.toks)-2], "of", fmt.Sprint(i), "end", ".")
		case 3:
			s.toks = s.toks[:2]
		}
	}
	c.Input(p.text())
	c.State(p.text())
	return inScratch(c, p.write, func() string {
		var err error
		first := ""
		return mapOrders(c, dev, func() {
			_, err = parser.ParseProgram(p.srcs[0].file)
		}, func() string {
			c.Trace()
			if err == nil {
				return "accepted"
			}
			if first == "" {
				first = err.Error()
			}
			if err.Error() != first {
				return fmt.Sprintf("the error is %q or %q", first, err.Error())
			}
			return ""
		})
	})
}

func indexOf(s []string, x string) int {
	for i, y := range s {
		if strings.EqualFold(x, y) {
			return i
		}
	}
	return -1
}

func init() {
	register(&Check{ID: "C15", Title: "load order", Run: runC15, Kinds: []string{"map"}, Assumptions: []string{
		"projects of up to eight units; maps of up to eight entries iterate from one of eight starting points (Go runtime), which the check controls through a runtime overlay",
		"each map order deviates from the default at up to one (thorough: two) iterations",
	}})
}
