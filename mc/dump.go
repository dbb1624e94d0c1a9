package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

// The canonical dump is the observation function of every structural check: a
// deterministic text of an AST that contains the dynamic type of every node and
// every exported, non-zero field (fields sorted by name).  Empty and nil lists
// are the same observation.  Declaration maps are never dumped; references to
// declarations are dumped as "->name@line:col/NodeType" when Ref is set and
// never followed.
type Dumper struct {
	Loc  bool // include identifier locations
	Ref  bool // include resolved references
	Fold bool // fold the letter case of names and directives
	buf  []byte
}

var (
	tIdent     = reflect.TypeOf((*astcore.Ident)(nil))
	tAbs       = reflect.TypeOf((*ast.VarDeclAbsoluteIdent)(nil))
	tDecl      = reflect.TypeOf((*astcore.Decl)(nil))
	tUnit      = reflect.TypeOf((*ast.Unit)(nil))
	tDeclMap   = reflect.TypeOf((*astcore.DeclMap)(nil)).Elem()
	tUsesItem  = reflect.TypeOf((*ast.UsesClauseItem)(nil))
	tClassProp = reflect.TypeOf((*ast.ClassProperty)(nil))
	tClassFwd  = reflect.TypeOf((*ast.ForwardDeclaredClassType)(nil))
)

type structInfo struct {
	name   string
	fields []fieldInfo
}
type fieldInfo struct {
	name string
	idx  int
	typ  reflect.Type
}

var structCache sync.Map

func infoOf(t reflect.Type) *structInfo {
	if si, ok := structCache.Load(t); ok {
		return si.(*structInfo)
	}
	si := &structInfo{name: t.Name()}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" && !f.Anonymous {
			continue
		}
		if f.PkgPath != "" {
			continue
		}
		if f.Type == tDeclMap {
			continue
		}
		si.fields = append(si.fields, fieldInfo{f.Name, i, f.Type})
	}
	sort.Slice(si.fields, func(a, b int) bool { return si.fields[a].name < si.fields[b].name })
	structCache.Store(t, si)
	return si
}

func Dump(n interface{}) string { d := Dumper{}; return d.Dump(n) }

func (d *Dumper) Dump(n interface{}) string {
	d.buf = d.buf[:0]
	d.val(reflect.ValueOf(n))
	return string(d.buf)
}

func (d *Dumper) str(s string) { d.buf = append(d.buf, s...) }

func (d *Dumper) name(s string) {
	if d.Fold {
		s = strings.ToLower(s)
	}
	d.str(s)
}

func locStr(l *astcore.Location) string {
	if l == nil {
		return "?"
	}
	if l.Start == nil || l.End == nil {
		return l.Path
	}
	return fmt.Sprintf("%d:%d", l.Start.Line, l.Start.Col)
}

func declStr(de *astcore.Decl) string {
	if de == nil {
		return "nil"
	}
	if de.Ident == nil {
		return "->?"
	}
	return "->" + strings.ToLower(de.Ident.Name) + "@" + locStr(de.Ident.Location) + "/" + strings.TrimPrefix(fmt.Sprintf("%T", de.Node), "*")
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return true
		}
		if v.Kind() == reflect.Interface {
			e := v.Elem()
			if e.Kind() == reflect.Ptr && e.IsNil() {
				return true
			}
			if e.Kind() == reflect.Slice && e.Len() == 0 {
				return true
			}
		}
		return false
	case reflect.Slice, reflect.Map, reflect.String:
		return v.Len() == 0
	case reflect.Func:
		return true
	}
	return v.IsZero()
}

func (d *Dumper) val(v reflect.Value) {
	if !v.IsValid() {
		d.str("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.str("nil")
			return
		}
		d.val(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			d.str("nil")
			return
		}
		switch v.Type() {
		case tIdent:
			id := v.Interface().(*astcore.Ident)
			d.name(id.Name)
			if d.Loc && id.Location != nil && id.Location.Start != nil {
				d.str("@" + locStr(id.Location))
			}
			return
		case tAbs:
			id := (*astcore.Ident)(v.Interface().(*ast.VarDeclAbsoluteIdent))
			d.str("Absolute ")
			d.name(id.Name)
			if d.Loc && id.Location != nil && id.Location.Start != nil {
				d.str("@" + locStr(id.Location))
			}
			return
		case tDecl:
			if d.Ref {
				d.str(declStr(v.Interface().(*astcore.Decl)))
			}
			return
		}
		e := v.Elem()
		if e.Kind() != reflect.Struct {
			d.val(e)
			return
		}
		d.val(e)
	case reflect.Struct:
		si := infoOf(v.Type())
		d.str(si.name)
		d.buf = append(d.buf, '{')
		first := true
		for _, f := range si.fields {
			fv := v.Field(f.idx)
			if isEmpty(fv) {
				continue
			}
			if f.typ == tDecl && !d.Ref {
				continue
			}
			if f.typ == tUnit {
				if !d.Ref {
					continue
				}
			}
			if (f.name == "Parent" && f.typ == tClassProp) || f.name == "Actual" {
				if !d.Ref {
					continue
				}
			}
			if !first {
				d.buf = append(d.buf, ' ')
			}
			first = false
			d.str(f.name)
			d.buf = append(d.buf, ':')
			switch {
			case f.typ == tUnit:
				u := fv.Interface().(*ast.Unit)
				d.str("->unit " + strings.ToLower(u.Ident.Name))
			case f.name == "Parent" && f.typ == tClassProp:
				p := fv.Interface().(*ast.ClassProperty)
				d.str("->" + strings.ToLower(p.Ident.Name) + "@" + locStr(p.Ident.Location))
			case f.name == "Actual":
				d.str("->actual")
			default:
				d.val(fv)
			}
		}
		d.buf = append(d.buf, '}')
	case reflect.Slice:
		d.buf = append(d.buf, '[')
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
			d.buf = append(d.buf, ',')
		}
		d.buf = append(d.buf, ']')
	case reflect.String:
		if v.Type().PkgPath() != "" { // a directive or visibility: recorded canonically
			d.str(strings.ToUpper(v.String()))
		} else {
			d.name(v.String())
		}
	case reflect.Bool:
		d.str(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.str(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.str(strconv.FormatUint(v.Uint(), 10))
	default:
		d.str("?" + v.Kind().String())
	}
}

// Idents returns every identifier of the AST (references are not followed).
func Idents(n interface{}) []*astcore.Ident {
	var out []*astcore.Ident
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			switch v.Type() {
			case tIdent:
				out = append(out, v.Interface().(*astcore.Ident))
				return
			case tAbs:
				out = append(out, (*astcore.Ident)(v.Interface().(*ast.VarDeclAbsoluteIdent)))
				return
			case tDecl:
				return
			}
			walk(v.Elem())
		case reflect.Struct:
			for _, f := range infoOf(v.Type()).fields {
				if f.typ == tDecl || f.typ == tUnit || f.name == "Actual" || (f.name == "Parent" && f.typ == tClassProp) {
					continue
				}
				walk(v.Field(f.idx))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(n))
	return out
}
