package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/parser"
)

// ---- C06: every parse ends with an AST or an error ----

func totalCheck(c *Ctx, text string, unit bool) string {
	c.Input(text)
	c.Trans(1)
	r := parseGoal(text, unit)
	if r.err == nil {
		c.Outcome("ast")
	} else {
		c.Outcome(errShape(r.err.Error()))
		if r.err.Error() == "" {
			return "an error without a text"
		}
	}
	return r.either()
}

// places where token strings are tried: prefix, suffix
var tokenPlaces = []string{
	"program p ; ~", "program p ; uses ~", "program p ; const a ~", "program p ; const a = ~", "program p ; type ~", "program p ; type a = ~",
	"program p ; type a = class ~", "program p ; type a = class f : Integer ; ~", "program p ; type a = class procedure ~", "program p ; type a = class property b ~",
	"program p ; type a = record ~", "program p ; type a = record case ~", "program p ; type a = array ~", "program p ; type a = set ~", "program p ; type a = ( ~", "program p ; type a = function ~",
	"program p ; var a ~", "program p ; var a : ~", "program p ; threadvar ~", "program p ; label ~", "program p ; exports ~", "program p ; procedure ~", "program p ; procedure q ( ~", "program p ; procedure q ; ~",
	"program p ; begin ~", "program p ; begin a ~", "program p ; begin a := ~", "program p ; begin a ( ~", "program p ; begin a [ ~", "program p ; begin if ~", "program p ; begin case a ~", "program p ; begin for ~",
	"program p ; begin while ~", "program p ; begin repeat ~", "program p ; begin with ~", "program p ; begin try ~", "program p ; begin try except ~", "program p ; begin raise ~", "program p ; begin goto ~", "program p ; begin asm ~",
	"unit u ~", "unit u ; interface ~", "unit u ; interface uses ~", "unit u ; interface procedure ~", "unit u ; interface implementation ~", "unit u ; interface implementation initialization ~", "unit u ; interface implementation procedure ~",
}

var placeAlphabet = strings.Fields("; , : . ( ) [ ] = .. := ^ @ - * end begin zz Integer 7 'q' of do else then to class record array procedure function property type var const try except case in string nil read public virtual")

func tokenStrings(alpha []string, n int, f func(s string)) {
	if n == 0 {
		f("")
		return
	}
	tokenStrings(alpha, n-1, func(s string) {
		for _, a := range alpha {
			if s == "" {
				f(a)
			} else {
				f(s + " " + a)
			}
		}
	})
}

func runC06(c *Ctx) {
	full := append(editAlphabet(true), "$", "#", "?", "'", "{", "(*", "-7", "\x00", "あ")
	one := func(text string, unit bool) {
		if !c.Mine() {
			c.Case(nil)
			return
		}
		c.Case(func() string { return totalCheck(c, text, unit) })
	}
	c.Space("short token strings")
	for n := 0; n <= c.Pick(2, 3); n++ {
		tokenStrings(full, n, func(s string) {
			one(s, false)
			one(s, true)
		})
	}
	c.Space("token strings in every place")
	for _, pl := range tokenPlaces {
		pre := strings.TrimSuffix(pl, "~")
		unit := strings.HasPrefix(pl, "unit")
		for n := 0; n <= c.Pick(3, 4) && !c.Stopped(); n++ {
			tokenStrings(placeAlphabet, n, func(s string) { one(pre+s, unit) })
		}
	}
	c.Space("every production cut at every token and continued by one token")
	eachText(c, corpus(0), func(it citem) string {
		for i := 0; i <= len(it.t.toks); i++ {
			pre := strings.Join(it.t.toks[:i], " ")
			if m := totalCheck(c, pre, it.unit); m != "" {
				return m
			}
			c.Alive()
			for _, a := range full {
				if m := totalCheck(c, pre+" "+a, it.unit); m != "" {
					return m
				}
			}
		}
		return ""
	})
	c.Space("every production cut at every character, in two layouts")
	eachText(c, corpus(c.Pick(0, 1)), func(it citem) string {
		for _, fl := range []string{" ", "{c}\n(*d*)//e\n"} {
			l := []rune(lay(it.t.toks, func(i int) string { return fl }).text)
			for i := range l {
				if m := totalCheck(c, string(l[:i]), it.unit); m != "" {
					return m
				}
			}
			c.Alive()
		}
		return ""
	})
	c.Space("every pair of productions cut at every token and continued by one token")
	eachText(c, corpus(1), func(it citem) string {
		al := full
		if c.Quick() {
			al = smallAlphabet
		}
		for i := 0; i <= len(it.t.toks); i++ {
			pre := strings.Join(it.t.toks[:i], " ")
			if m := totalCheck(c, pre, it.unit); m != "" {
				return m
			}
			c.Alive()
			for _, a := range al {
				if m := totalCheck(c, pre+" "+a, it.unit); m != "" {
					return m
				}
			}
		}
		return ""
	})
	c.Space("one token replaced by every token and the rest kept, budget 0")
	eachText(c, corpus(0), func(it citem) string {
		for i := 0; i < len(it.t.toks); i++ {
			c.Alive()
			for _, a := range full {
				t := append([]string(nil), it.t.toks...)
				t[i] = a
				if m := totalCheck(c, strings.Join(t, " "), it.unit); m != "" {
					return m
				}
			}
		}
		return ""
	})
	c.Space("deep and long repetitions")
	for _, st := range starts() {
		for _, pu := range pascal.pumps(st.nt) {
			for _, m := range []int{c.Pick(300, 1500), c.Pick(1000, 4000)} {
				pu, m := pu, m
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				cfg := &genCfg{g: pascal, start: st.nt, path: pu.path(m), budget: 0}
				cfg.each(nil, func(ev func() *gtext) {
					c.Case(func() string {
						toks := evalTokens(ev)
						c.Input(fmt.Sprintf("%s repeated %d times", pu.name, m))
						text := strings.Join(toks, " ")
						r := parseGoal(text, st.unit)
						if m := r.either(); m != "" {
							return m
						}
						// cut in the middle
						r = parseGoal(text[:len(text)/2], st.unit)
						return r.either()
					})
				})
			}
		}
	}
	c.Space("circular type names and ancestors")
	circularTypes(c)
	c.Space("file faults")
	fileFaults(c)
}

func evalTokens(ev func() *gtext) []string { return ev().toks }

// circularTypes enumerates all sections of n type declarations that refer to
// each other in every form, followed by every use of the first one.
func circularTypes(c *Ctx) {
	forms := []string{"%s", "^ %s", "array of %s", "array [ %s ] of Integer", "set of %s", "file of %s", "record x : %s end", "class ( %s ) end", "class of %s", "class x : %s ; property y : %s read x ; end", "procedure ( x : %s )", "function : %s", "type %s", "1 .. %s"}
	uses := []string{"var v : %s ;", "var v : array [ %s ] of %s ;", "var v : set of %s ;", "type z = record case %s of 1 : ( ) end ;", "type z = class ( %s ) property y ; end ;", "const k : %s = 1 ;", "procedure q ( x : %s ) ; begin end ;"}
	names := []string{"A", "B", "C"}
	n := c.Pick(2, 3)
	targets := append([]string(nil), names[:n]...)
	targets = append(targets, "Integer")
	var rec func(k int, sec string)
	emit := func(sec string) {
		for _, u := range append([]string{""}, uses...) {
			for t := 0; t < n; t++ {
				if u == "" && t > 0 {
					continue
				}
				text := "program p ; type " + sec + " " + strings.ReplaceAll(u, "%s", names[t]) + " begin end ."
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				c.Case(func() string { return totalCheck(c, text, false) })
			}
		}
	}
	rec = func(k int, sec string) {
		if k == n {
			emit(sec)
			return
		}
		for _, f := range forms {
			for _, t := range targets {
				if c.Stopped() {
					return
				}
				rec(k+1, sec+names[k]+" = "+strings.ReplaceAll(f, "%s", t)+" ; ")
			}
		}
	}
	rec(0, "")
}

// fileFaults runs the file API with every combination of faults of the program
// file and of two units, and with every file cut at every byte.
func fileFaults(c *Ctx) {
	files := []string{"p.dpr", "u1.pas", "u2.pas"}
	texts := []string{
		"program p ; uses u1 in 'u1.pas' , u2 in 'u2.pas' ; var a : t1 ; begin x2 := a end .",
		"unit u1 ; interface uses u2 ; type t1 = t2 ; implementation uses u2 ; procedure q ; begin end ; end .",
		"unit u2 ; interface type t2 = Integer ; var x2 : t2 ; implementation uses u1 ; initialization finalization end .",
	}
	kinds := []string{"ok", "missing", "empty", "directory", "binary", "half", "other goal", "no permission", "utf8", "dangling link", "link to itself"}
	write := func(dir string, i int, kind string) {
		p := filepath.Join(dir, files[i])
		switch kind {
		case "ok":
			os.WriteFile(p, []byte(texts[i]), 0o644)
		case "empty":
			os.WriteFile(p, nil, 0o644)
		case "directory":
			os.Mkdir(p, 0o755)
		case "binary":
			b := make([]byte, 0, 1024)
			for k := 0; k < 1024; k++ {
				b = append(b, byte(k*7+k/256))
			}
			os.WriteFile(p, b, 0o644)
		case "half":
			os.WriteFile(p, []byte(texts[i][:len(texts[i])/2]), 0o644)
		case "other goal":
			os.WriteFile(p, []byte(texts[(i+1)%3]), 0o644)
		case "no permission":
			os.WriteFile(p, []byte(texts[i]), 0o000)
		case "utf8":
			os.WriteFile(p, []byte("// 日本語 é\n"+texts[i]), 0o644)
		case "dangling link":
			os.Symlink(filepath.Join(dir, "nowhere"), p)
		case "link to itself":
			os.Symlink(files[i], p)
		}
	}
	run := func(what string, mk func(dir string), check func(p *parser.Program, err error) string) {
		if !c.Mine() {
			c.Case(nil)
			return
		}
		c.Case(func() string {
			c.Input(what)
			return inScratch(c, mk, func() string {
				p, err := parser.ParseProgram("p.dpr")
				c.Trans(1)
				c.Trace()
				if (p == nil) == (err == nil) {
					return fmt.Sprintf("result %v with error %v", p != nil, err)
				}
				if check != nil {
					return check(p, err)
				}
				return ""
			})
		})
	}
	for _, k0 := range kinds {
		for _, k1 := range kinds {
			for _, k2 := range kinds {
				ks := []string{k0, k1, k2}
				run(fmt.Sprintf("program file %s, unit files %s and %s", k0, k1, k2), func(dir string) {
					for i, k := range ks {
						write(dir, i, k)
					}
				}, func(p *parser.Program, err error) string {
					allOK := true
					for i, k := range ks {
						if k != "ok" && !(k == "no permission" && os.Geteuid() == 0) && k != "utf8" {
							allOK = false
						}
						if k == "missing" || k == "directory" || k == "dangling link" || k == "link to itself" || k == "empty" || k == "half" || k == "other goal" && i == 0 || k == "binary" {
							if err == nil {
								return fmt.Sprintf("no error although file %s is faulty (%s)", files[i], k)
							}
						}
					}
					if allOK && err != nil {
						return "rejected: " + err.Error()
					}
					return ""
				})
			}
		}
	}
	for i := range files {
		for n := 0; n < len(texts[i]); n++ {
			i, n := i, n
			run(fmt.Sprintf("file %s cut after %d bytes", files[i], n), func(dir string) {
				for j := range files {
					write(dir, j, "ok")
				}
				os.WriteFile(filepath.Join(dir, files[i]), []byte(texts[i][:n]), 0o644)
			}, func(p *parser.Program, err error) string {
				if err == nil {
					return "accepted although a file is cut"
				}
				return ""
			})
		}
	}
}

var scratchNo int

// inScratch runs f with a fresh scratch directory as its working directory.
func inScratch(c *Ctx, mk func(dir string), f func() string) string {
	scratchNo++
	dir := filepath.Join(c.dir, fmt.Sprintf("s%d", scratchNo))
	if err := os.Mkdir(dir, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	mk(dir)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(c.dir)
	return f()
}

func init() {
	register(&Check{ID: "C06", Title: "totality", Run: runC06, Assumptions: []string{
		"a case that uses over 30 s of CPU time or 3 GB of memory counts as not ending",
		"file faults are those a file system shows at open and read; errors in the middle of a read are not injected",
	}})
}
