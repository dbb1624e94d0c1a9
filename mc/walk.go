package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast/astcore"
)

// ---- C20: walking an AST ----

var tNode = reflect.TypeOf((*astcore.Node)(nil)).Elem()

// nodeKey identifies a node: pointers by address, lists by type and storage.
type nodeKey struct {
	typ reflect.Type
	ptr uintptr
	n   int
}

func keyOf(v reflect.Value) (nodeKey, bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nodeKey{}, false
		}
		return nodeKey{v.Type(), v.Pointer(), 0}, true
	case reflect.Slice:
		if v.Len() == 0 {
			return nodeKey{}, false
		}
		return nodeKey{v.Type(), v.Pointer(), v.Len()}, true
	}
	return nodeKey{}, false
}

type refNode struct {
	key    nodeKey
	name   string
	parent int // index of the nearest enclosing node, -1 for the root
	val    interface{}
}

// refNodes lists the nodes of an AST as its exported fields show them, parents
// first; references to declarations are not followed.
func refNodes(n interface{}) []refNode {
	var out []refNode
	var walk func(v reflect.Value, parent int, path string)
	walk = func(v reflect.Value, parent int, path string) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), parent, path)
			}
			return
		case reflect.Ptr:
			if v.IsNil() || v.Type() == tDecl {
				return
			}
		case reflect.Slice:
			if v.Len() == 0 {
				return
			}
		case reflect.Struct:
		default:
			return
		}
		if v.Type().Implements(tNode) {
			if k, ok := keyOf(v); ok {
				out = append(out, refNode{k, path + "(" + strings.TrimPrefix(v.Type().String(), "*") + ")", parent, v.Interface()})
				parent = len(out) - 1
			}
		}
		if v.Type() == tIdent || v.Type() == tAbs {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.Elem().Kind() == reflect.Struct {
				fields(v.Elem(), func(f fieldInfo, fv reflect.Value) { walk(fv, parent, path+"."+f.name) })
			}
		case reflect.Struct:
			fields(v, func(f fieldInfo, fv reflect.Value) { walk(fv, parent, path+"."+f.name) })
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), parent, fmt.Sprintf("%s[%d]", path, i))
			}
		}
	}
	walk(reflect.ValueOf(n), -1, "")
	return out
}

func fields(v reflect.Value, f func(fieldInfo, reflect.Value)) {
	for _, fi := range infoOf(v.Type()).fields {
		if fi.typ == tDecl || fi.typ == tUnit || fi.name == "Actual" || (fi.name == "Parent" && fi.typ == tClassProp) {
			continue
		}
		f(fi, v.Field(fi.idx))
	}
}

type visit struct {
	node astcore.Node
	key  nodeKey
	ok   bool
}

func visits(root astcore.Node, stop int, e error) ([]visit, error) {
	var out []visit
	err := astcore.WalkDown(root, func(n astcore.Node) error {
		if n == nil {
			out = append(out, visit{})
		} else {
			k, ok := keyOf(reflect.ValueOf(n))
			out = append(out, visit{n, k, ok})
		}
		if stop > 0 && len(out) == stop {
			return e
		}
		return nil
	})
	return out, err
}

func walkCheck(c *Ctx, root astcore.Node) string {
	ref := refNodes(root)
	vs, err := visits(root, 0, nil)
	c.Trans(len(vs))
	c.Trace()
	if err != nil {
		return "the walk returns an error although the visitor did not: " + err.Error()
	}
	at := map[nodeKey]int{}
	for i, v := range vs {
		if v.node == nil {
			return "the visitor is called with a nil node"
		}
		if !v.ok {
			if rv := reflect.ValueOf(v.node); rv.Kind() == reflect.Ptr {
				return fmt.Sprintf("the visitor is called with a nil %T", v.node)
			}
			continue // an empty list
		}
		if j, dup := at[v.key]; dup {
			return fmt.Sprintf("%T is visited twice (visits %d and %d)", v.node, j+1, i+1)
		}
		at[v.key] = i
	}
	in := map[nodeKey]bool{}
	for _, r := range ref {
		in[r.key] = true
		i, ok := at[r.key]
		if !ok {
			return fmt.Sprintf("%s is never visited", r.name)
		}
		if r.parent >= 0 && at[ref[r.parent].key] >= i {
			return fmt.Sprintf("%s is visited before %s, which contains it", r.name, ref[r.parent].name)
		}
		c.Outcome(reflect.TypeOf(vs[i].node).String())
	}
	last, lastName := -1, ""
	for _, v := range vs {
		if v.ok && !in[v.key] {
			return fmt.Sprintf("%T is visited, which is no part of this AST", v.node)
		}
		if id, ok := v.node.(*astcore.Ident); ok && id.Location != nil && id.Location.Start != nil {
			if id.Location.Start.Index <= last {
				return fmt.Sprintf("identifier %s is visited after %s, which follows it in the source", id.Name, lastName)
			}
			last, lastName = id.Location.Start.Index, id.Name
		}
	}
	// every visit as the stopping point
	stopErr := errors.New("stop here")
	for k := 1; k <= len(vs); k++ {
		if len(vs) > 1500 && k > 20 && k < len(vs)-20 && k%97 != 0 {
			continue // long ASTs: not every visit
		}
		ws, err := visits(root, k, stopErr)
		c.Trans(1)
		if err != stopErr {
			return fmt.Sprintf("the visitor stops at visit %d of %d, the walk returns %v", k, len(vs), err)
		}
		if len(ws) != k {
			return fmt.Sprintf("the visitor stops at visit %d, the walk makes %d visits", k, len(ws))
		}
	}
	return ""
}

func runC20(c *Ctx) {
	for b := 0; b <= 2; b++ {
		c.Space([]string{"every production: walk and every stop", "every pair of productions: walk and every stop", "every triple of productions: walk and every stop"}[b])
		eachText(c, corpus(b), func(it citem) string {
			c.Input(it.t.text())
			r := parseGoal(it.t.text(), it.unit)
			if r.err != nil {
				return "rejected: " + r.err.Error()
			}
			n, ok := r.node().(astcore.Node)
			if !ok {
				return "the goal is no node"
			}
			return walkCheck(c, n)
		})
	}
	runLongWalks(c)
}

func init() {
	register(&Check{ID: "C20", Title: "walk", Run: runC20, Assumptions: []string{
		"a node is what implements astcore.Node and is reachable through exported fields without following references (Ref, Unit, Parent, Actual)",
		"empty lists may be visited or not",
	}})
}
