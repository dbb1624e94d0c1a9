package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/parser"
	"golang.org/x/text/encoding/japanese"
)

// ---- C22: decoding and locating files ----

// decodeSJIS is the reference: one decoding of the bytes as a whole.
func decodeSJIS(b []byte) string {
	r, err := japanese.ShiftJIS.NewDecoder().Bytes(b)
	if err != nil {
		panic(err)
	}
	return string(r)
}

// Characters whose decoding is known without the library.
var sjisKnown = map[string]string{
	"\x82\xa0": "あ", "\x95\x5c": "表", "\x83\x5c": "ソ", "\xb1": "ｱ", "\xdf": "ﾟ", "\x88\x9f": "亜", "\x81\x40": "　", "\x82\x60": "Ａ", "\x83\x41": "ア", "\x93\xfa": "日", "\x96\x7b": "本",
	"\x8c\xea": "語", "\xe0\x9e": "燼", "\xea\xa2": "瑤", "\x98\x9f": "弌", "\x83\xbf": "α", "\x84\x40": "А",
}

func isLead(b byte) bool  { return b >= 0x81 && b <= 0x9f || b >= 0xe0 && b <= 0xfc }
func isTrail(b byte) bool { return b >= 0x40 && b <= 0xfc && b != 0x7f }

// sjisChars returns every one- and two-byte code.
func sjisChars() (r []string) {
	for b := 0; b < 256; b++ {
		if !isLead(byte(b)) {
			r = append(r, string([]byte{byte(b)}))
		}
	}
	for a := 0; a < 256; a++ {
		if !isLead(byte(a)) {
			continue
		}
		for b := 0; b < 256; b++ {
			if isTrail(byte(b)) {
				r = append(r, string([]byte{byte(a), byte(b)}))
			}
		}
	}
	return r
}

type textCtx struct{ pre, post string }

// Where the bytes in question stand, in a declaration part.
var textCtxs = []textCtx{
	{"const s = '", "' ; z = 1 ;"},
	{"const { ", " } z = 1 ;"},
	{"const (* ", " *) z = 1 ;"},
	{"const // ", "\r\n z = 1 ;"},
	{"const a", "b = 1 ;"},
	{"const z = ", " ;"},
	{"type ", " = Byte ;"},
}

const unitProg = "program p ; uses Unt in 'u.pas' ; begin end ."

func inGoal(s string, unit bool) string {
	if unit {
		return "unit Unt ; interface " + s + " implementation end ."
	}
	return "program p ; " + s + " begin end ."
}

// sameAsText loads raw as a program or as a unit and compares with the parse of
// its decoding.
func sameAsText(c *Ctx, raw []byte, unit bool) string {
	c.Trace()
	text := []rune(decodeSJIS(raw))
	var want interface{}
	var wantErr error
	d := Dumper{Loc: true, Ref: true}
	if unit {
		p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext("p.dpr"), "u.pas"))
		p.SetText(&text)
		p.NextToken()
		want, wantErr = p.ParseUnit()
	} else {
		p := parser.NewProgramParser(parser.NewProgramContext("p.dpr"))
		p.SetText(&text)
		p.NextToken()
		want, wantErr = p.ParseProgram()
	}
	return inScratch(c, func(dir string) {
		name := "p.dpr"
		if unit {
			name = "u.pas"
			mustWrite(filepath.Join(dir, "p.dpr"), []byte(unitProg))
		}
		mustWrite(filepath.Join(dir, name), raw)
	}, func() string {
		res, err := parser.ParseProgram("p.dpr")
		c.Trans(1)
		c.Outcome(fmt.Sprint(unit, err == nil))
		if (err == nil) != (wantErr == nil) {
			return fmt.Sprintf("the file gives error %v, its text %v", err, wantErr)
		}
		if err != nil {
			if err.Error() != wantErr.Error() {
				return fmt.Sprintf("the file gives error %v, its text %v", err, wantErr)
			}
			return ""
		}
		var got interface{} = res.Program
		if unit {
			if len(res.Units) != 1 {
				return fmt.Sprintf("%d units", len(res.Units))
			}
			got = res.Units[0]
		}
		if g, w := d.Dump(got), d.Dump(want); g != w {
			return "the AST of the file is not that of its text: " + diffAt(g, w)
		}
		return ""
	})
}

func mustWrite(path string, b []byte) {
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

func show(raw []byte) string {
	if len(raw) > 300 {
		return fmt.Sprintf("%d bytes: %q ... %q", len(raw), raw[:150], raw[len(raw)-150:])
	}
	return fmt.Sprintf("%q", raw)
}

func runC22(c *Ctx) {
	one := func(raw []byte, unit bool) {
		c.Case(func() string {
			c.Input(show(raw))
			c.State(string(raw))
			return sameAsText(c, raw, unit)
		})
	}
	chars := sjisChars()

	c.Space("characters known without the decoder, in the AST of a file")
	var known []string
	for k := range sjisKnown {
		known = append(known, k)
	}
	sortStrings(known)
	for _, k := range known {
		for _, unit := range []bool{false, true} {
			if !c.Mine() {
				c.Case(nil)
				continue
			}
			c.Case(func() string {
				raw := inGoal("const a"+k+" = 'x"+k+k+"y' ;", unit)
				c.Input(show([]byte(raw)))
				c.State(raw)
				c.Trace()
				return inScratch(c, func(dir string) {
					if unit {
						mustWrite(filepath.Join(dir, "p.dpr"), []byte(unitProg))
						mustWrite(filepath.Join(dir, "u.pas"), []byte(raw))
					} else {
						mustWrite(filepath.Join(dir, "p.dpr"), []byte(raw))
					}
				}, func() string {
					ch := sjisKnown[k]
					if ch == "　" {
						return "" // a space, not a letter
					}
					res, err := parser.ParseProgram("p.dpr")
					if err != nil {
						return "rejected: " + err.Error()
					}
					dump := ""
					if unit {
						dump = Dump(res.Units[0])
					} else {
						dump = Dump(res.Program)
					}
					for _, w := range []string{"a" + ch, "'x" + ch + ch + "y'"} {
						if !strings.Contains(dump, w) {
							return fmt.Sprintf("%s is not in the AST %s", w, dump)
						}
					}
					return ""
				})
			})
		}
	}

	c.Space("every character in every place of a program and of a unit")
	for _, ch := range chars {
		for _, x := range textCtxs {
			for _, unit := range []bool{false, true} {
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				one([]byte(inGoal(x.pre+ch+x.post, unit)), unit)
			}
		}
	}
	c.Space("every pair of bytes, in a string")
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			if !c.Mine() {
				c.Case(nil)
				continue
			}
			one([]byte(inGoal("const s = 'a"+string([]byte{byte(a), byte(b)})+"b' ; z = 1 ;", b%2 == 1)), b%2 == 1)
		}
	}
	c.Space("bytes that are UTF-8 text too")
	for a := 0x80; a < 0xc0; a++ {
		for b := 0x80; b < 0xc0; b++ {
			for _, unit := range []bool{false, true} {
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				one([]byte(inGoal(fmt.Sprintf("const s = 'a%s' ; z = 1 ;", string([]byte{0xe3, byte(a), byte(b)})), unit)), unit)
			}
		}
	}
	c.Space("first and last bytes of a file")
	edges := []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x1a", "\x00", "\r", "\n", "\r\n", "\r\n\r\n", " ", "\x81", "\x82\xa0", "\xe3\x81\x82", "{", "(*", "//", "'", "\x0c", "\xa0", "\x80", "\xfd"}
	for b := 0; b < 256; b++ {
		edges = append(edges, string([]byte{byte(b)}))
	}
	for _, e := range edges {
		for _, unit := range []bool{false, true} {
			for k := 0; k < 3; k++ {
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				s := inGoal("const s = '\x82\xa0' ;", unit)
				switch k {
				case 0:
					s = e + s
				case 1:
					s = s + e
				case 2:
					s = strings.ReplaceAll(s, " ", " "+e+" ")
				}
				one([]byte(s), unit)
			}
		}
	}
	c.Space("every cut of a file")
	for _, unit := range []bool{false, true} {
		s := inGoal("const \x95\x5c = '\x83\x5c\xb1' ; { \x82\xa0 }\r\n // \x82\xa2\r\n", unit)
		for n := 0; n <= len(s); n++ {
			if !c.Mine() {
				c.Case(nil)
				continue
			}
			one([]byte(s[:n]), unit)
		}
	}
	fillers := []struct{ name, unit string }{{"ASCII", "x"}, {"two-byte characters", "\x82\xa0"}, {"half-width characters", "\xb1"}, {"lines", "x\r\n"}}
	tails := []string{"const \x95\x5c = '\x83\x5c\x82\xa0\xb1' ; z = 1 ;", "const\r\n\xb1 = '\x82\xa0\x82\xa0\x82\xa0\x82\xa0' ;\r\n z = 1 ;"}
	fill := func(n int, f string, phase int, tail string, unit bool) []byte {
		var b bytes.Buffer
		b.WriteString("{" + strings.Repeat("y", phase))
		for b.Len() < n {
			b.WriteString(f)
		}
		b.WriteString("} " + tail)
		return []byte(inGoal(b.String(), unit))
	}
	bound := c.Pick(4500, 13000)
	for fi, f := range fillers {
		c.Space("every offset of a text after a comment of " + f.name)
		step := len(f.unit)
		for n := 0; n <= bound; n++ {
			for _, unit := range []bool{false, true} {
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				one(fill(n, f.unit, n%step, tails[(n+fi)%2], unit), unit)
			}
		}
	}
	c.Space("offsets around powers of two and multiples of the read buffers")
	var sizes []int
	for k := 9; k <= c.Pick(20, 24); k++ {
		sizes = append(sizes, 1<<k)
	}
	for k := 2; k <= c.Pick(12, 40); k++ {
		sizes = append(sizes, 4096*k, 4096*2*k/3, 4096*k/3)
	}
	for _, n := range sizes {
		for d := -c.Pick(12, 40); d <= 4; d++ {
			for fi, f := range fillers {
				if n > 1<<17 && d%4 != 0 {
					continue
				}
				unit := (n/512+d+fi)%2 == 0
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				at := n - len("program p ; ") + d
				one(fill(at, f.unit, (at+d)&1, tails[(d+100)%2], unit), unit)
			}
		}
	}
	c.Space("large files of declarations")
	for _, n := range []int{1, 10, 100, 1000, c.Pick(3000, 30000)} {
		for _, unit := range []bool{false, true} {
			for _, nl := range []string{" ", "\n", "\r\n"} {
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				var b strings.Builder
				b.WriteString("const ")
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "\x95\x5c%d = '\x83\x5c%d' ;%s", i, i, nl)
				}
				one([]byte(inGoal(b.String(), unit)), unit)
			}
		}
	}
	runPaths(c)
}

// A pathItem is one item of a uses clause.
type pathItem struct {
	name string
	path []string // components, none: no path
	seps string   // separator after each component but the last
}

func (it *pathItem) written() string {
	s := ""
	for i, p := range it.path {
		s += p
		if i < len(it.path)-1 {
			s += string(it.seps[i])
		}
	}
	return s
}

func (it *pathItem) disk() string { return strings.Join(it.path, "/") }

func sjis(s string) string {
	r, err := japanese.ShiftJIS.NewEncoder().String(s)
	if err != nil {
		panic(err)
	}
	return r
}

func pathCase(c *Ctx, items []*pathItem, prog string) {
	if !c.Mine() {
		c.Case(nil)
		return
	}
	c.Case(func() string {
		var us []string
		var loaded []*pathItem
		for _, it := range items {
			if len(it.path) == 0 {
				us = append(us, it.name)
				continue
			}
			loaded = append(loaded, it)
			us = append(us, it.name+" in '"+it.written()+"'")
		}
		text := "program Pp ; uses " + strings.Join(us, " , ") + " ; begin end ."
		c.Input(prog + ": " + text)
		c.State(prog + text)
		c.Trace()
		return inScratch(c, func(dir string) {
			put := func(path, body string) {
				if strings.HasPrefix(filepath.Clean(path), "..") {
					return
				}
				p := filepath.Join(dir, "w", path)
				os.MkdirAll(filepath.Dir(p), 0o755)
				if _, err := os.Stat(p); err == nil {
					return
				}
				os.WriteFile(p, []byte(body), 0o644)
			}
			os.MkdirAll(filepath.Join(dir, "w"), 0o755)
			for _, it := range loaded {
				for i := range it.path[:len(it.path)-1] {
					os.MkdirAll(filepath.Join(dir, "w", strings.Join(it.path[:i+1], "/")), 0o755)
				}
				os.MkdirAll(filepath.Dir(filepath.Join(dir, "w", it.disk())), 0o755)
				mustWrite(filepath.Join(dir, "w", it.disk()), []byte("unit "+it.name+" ; interface const Found = 1 ; implementation end ."))
			}
			// files which other readings of the paths would find
			for _, it := range items {
				wrong := "unit " + it.name + " ; interface const Wrong = 1 ; implementation end ."
				for _, n := range []string{it.name + ".pas", strings.ToLower(it.name) + ".pas", it.name, it.written(), strings.Replace(it.written(), "\\", "/", 1), "'" + it.written() + "'", strings.ReplaceAll(it.written(), "\\", "")} {
					if n != "" {
						put(n, wrong)
					}
				}
				for i := range it.path {
					put(strings.Join(it.path[i:], "/"), wrong)
				}
			}
			os.MkdirAll(filepath.Dir(filepath.Join(dir, "w", prog)), 0o755)
			mustWrite(filepath.Join(dir, "w", prog), []byte(sjis(text)))
		}, func() string {
			if err := os.Chdir("w"); err != nil {
				panic(err)
			}
			res, err := parser.ParseProgram(prog)
			c.Trans(1)
			if err != nil {
				return "rejected: " + err.Error()
			}
			if res.Path != prog {
				return fmt.Sprintf("the path of the program is %q", res.Path)
			}
			if len(res.Units) != len(loaded) {
				return fmt.Sprintf("%d units are loaded, not %d", len(res.Units), len(loaded))
			}
			for i, it := range loaded {
				u := res.Units[i]
				if u.Ident.Name != it.name {
					return fmt.Sprintf("unit %d is %s", i, u.Ident.Name)
				}
				if u.Path != it.disk() {
					return fmt.Sprintf("the path of unit %s is %q, not %q", it.name, u.Path, it.disk())
				}
				if d := Dump(u); !strings.Contains(d, "Found") || strings.Contains(d, "Wrong") {
					return fmt.Sprintf("unit %s is read from another file", it.name)
				}
			}
			for i, it := range items {
				u := res.ProgramBlock.UsesClause[i]
				if (u.Unit != nil) != (len(it.path) > 0) {
					return fmt.Sprintf("uses item %s: unit loaded: %v", it.name, u.Unit != nil)
				}
				if len(it.path) > 0 {
					if u.Path == nil || *u.Path != "'"+it.written()+"'" {
						return fmt.Sprintf("uses item %s does not have its path", it.name)
					}
					if u.EffectivePath() != it.disk() || u.UnquotedPath() != it.written() {
						return fmt.Sprintf("uses item %s: paths %q, %q", it.name, u.EffectivePath(), u.UnquotedPath())
					}
				} else if u.Path != nil || u.EffectivePath() != "" || u.UnquotedPath() != "" {
					return fmt.Sprintf("uses item %s has a path", it.name)
				}
			}
			return ""
		})
	})
}

func runPaths(c *Ctx) {
	dirs := []string{"d", "D", "Sub Dir", "..", ".", "日本", "表", "ソ", "a.b", "d-1", " d", "e ", "ｱ", "u.pas"}
	files := []string{"u.pas", "U.PAS", "u", "表.pas", "my unit.pas", "u.v.pas", "ソ", "u.txt", "u.pas ", " u.pas", "." + "u"}
	c.Space("every path of up to four components, every separator")
	for depth := 0; depth <= c.Pick(2, 3); depth++ {
		var rec func(cur []string, up int)
		rec = func(cur []string, up int) {
			if len(cur) == depth {
				for _, f := range files {
					bad := false
					for i := range cur {
						if filepath.Join(append([]string{}, cur[:i+1]...)...) == f {
							bad = true // a file with the name of a directory
						}
					}
					if filepath.Join(append(append([]string{}, cur...), f)...) == "u.pas" && bad {
						continue
					}
					if bad {
						continue
					}
					for m := 0; m < 1<<depth; m++ {
						seps := ""
						for i := 0; i < depth; i++ {
							seps += string("\\/"[m>>i&1])
						}
						pathCase(c, []*pathItem{{"U", append(append([]string{}, cur...), f), seps}}, "p.dpr")
					}
				}
				return
			}
			for _, d := range dirs {
				if d == ".." {
					if up == 0 {
						continue
					}
					rec(append(append([]string{}, cur...), d), up-1)
					continue
				}
				n := up + 1
				if d == "." {
					n = up
				}
				rec(append(append([]string{}, cur...), d), n)
			}
		}
		rec(nil, 0)
	}
	c.Space("every character in a path")
	for _, ch := range sjisChars() {
		s := decodeSJIS([]byte(ch))
		if len(ch) == 1 && (ch[0] < 0x20 || strings.Contains("'\\/\x7f\x80", ch)) || strings.Contains(s, "\ufffd") || sjisBack(s) != ch {
			continue
		}
		pathCase(c, []*pathItem{{"U", []string{"x" + s, s + "y.pas"}, "\\"}}, "p.dpr")
	}
	c.Space("deep paths")
	for n := 1; n <= c.Pick(20, 60); n++ {
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, fmt.Sprintf("d%d", i))
		}
		for _, s := range []string{"\\", "/"} {
			pathCase(c, []*pathItem{{"U", append(p, "u.pas"), strings.Repeat(s, n)}}, "p.dpr")
		}
	}
	c.Space("every uses clause of up to three units, with and without paths")
	forms := [][]string{nil, {"%s.pas"}, {"d", "%s.pas"}, {"e", "f", "%s.pas"}, {"%s", "%s.pas"}, {"x.pas"}}
	var list func(items []*pathItem, n int)
	list = func(items []*pathItem, n int) {
		if len(items) > 0 {
			for _, prog := range []string{"p.dpr", "sub/p.dpr", "./p.dpr"} {
				pathCase(c, items, prog)
			}
		}
		if n == 0 {
			return
		}
		for _, f := range forms {
			name := string("ABCD"[len(items)])
			it := &pathItem{name: name, seps: "\\\\\\"}
			for _, p := range f {
				it.path = append(it.path, strings.ReplaceAll(p, "%s", strings.ToLower(name)))
			}
			if len(f) == 1 && f[0] == "x.pas" {
				it.path = []string{"x" + name}
			}
			list(append(append([]*pathItem{}, items...), it), n-1)
		}
	}
	list(nil, c.Pick(3, 4))
	c.Space("units named by units only are not loaded")
	for _, sec := range []string{"interface uses B in 'b.pas' ; implementation", "interface uses B ; implementation", "interface implementation uses B in 'b.pas' ;", "interface implementation uses B ;"} {
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			c.Input(sec)
			c.State(sec)
			c.Trace()
			return inScratch(c, func(dir string) {
				mustWrite(filepath.Join(dir, "p.dpr"), []byte("program P ; uses A in 'a.pas' ; begin end ."))
				mustWrite(filepath.Join(dir, "a.pas"), []byte("unit A ; "+sec+" end ."))
				mustWrite(filepath.Join(dir, "b.pas"), []byte("not a unit"))
			}, func() string {
				res, err := parser.ParseProgram("p.dpr")
				if err != nil {
					return "rejected: " + err.Error()
				}
				if len(res.Units) != 1 {
					return fmt.Sprintf("%d units", len(res.Units))
				}
				return ""
			})
		})
	}
}

func sjisBack(s string) string {
	r, err := japanese.ShiftJIS.NewEncoder().String(s)
	if err != nil {
		return ""
	}
	return r
}

func init() {
	register(&Check{ID: "C22", Title: "files", Run: runC22, Assumptions: []string{
		"the Shift JIS decoder of golang.org/x/text, applied to all bytes of a file at once, is right",
		"paths are relative to the working directory of the process",
	}})
}
