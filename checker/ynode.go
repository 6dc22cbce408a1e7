package main

import (
	"fmt"
	"go/types"
)

// Matching of the YAML nodes handed to the encoder.

type ynode struct {
	kind    string // ScalarNode, SequenceNode, MappingNode
	tag     Val    // nil: any
	value   Val    // nil: any
	content []ynode
}

func (s *Scn) yT() types.Type { return s.W.P.typ("internal/yaml", "Node") }

func (s *Scn) yfield(st *State, n Val, name string) Val { return s.field(st, n, s.yT(), name) }

func (s *Scn) yIs(st *State, n Val, want ynode) string {
	if i, ok := n.(Iface); ok {
		n = i.V
	}
	if _, ok := n.(Nil); ok {
		return "nothing"
	}
	yp := s.W.P.pkg("internal/yaml")
	if k := s.yfield(st, n, "Kind"); k.Key() != cInt(constInt(yp, want.kind)).Key() {
		return "a node of kind " + k.Key() + " instead of a " + want.kind
	}
	if want.tag != nil {
		if t := s.yfield(st, n, "Tag"); s.In.relate(st, t, want.tag) != EQ {
			return "a node tagged " + t.Key() + " instead of " + want.tag.Key()
		}
	}
	if want.value != nil {
		if t := s.yfield(st, n, "Value"); s.In.relate(st, t, want.value) != EQ {
			return "the text " + t.Key() + " instead of " + want.value.Key()
		}
	}
	if want.kind == "ScalarNode" {
		return ""
	}
	el, ok := s.In.listElems(st, s.yfield(st, n, "Content"))
	if !ok {
		if _, isNil := s.yfield(st, n, "Content").(Nil); !isNil {
			return "content that is not determined"
		}
	}
	if len(el) != len(want.content) {
		return fmt.Sprintf("%d parts instead of %d", len(el), len(want.content))
	}
	for i := range el {
		if m := s.yIs(st, el[i], want.content[i]); m != "" {
			return fmt.Sprintf("at part %d: %s", i, m)
		}
	}
	return ""
}

// encoder intercepts YAML encoding; each encoded value is logged as encode(v).
func (s *Scn) encoder(failAt int) {
	yp := modPath + "/internal/yaml"
	obj := func(c *Call, what string) Val {
		t := elemOf(c.Sig.Results().At(0).Type())
		id := c.In.objID(c.Site, what)
		c.In.newObj(c.St, id, &Obj{Kind: OCell, V: Top{t}, T: t})
		return Ptr{id, "", t}
	}
	s.hook(yp+".NewEncoder", func(c *Call) []Outcome { return ret1(c, obj(c, "enc")) })
	s.hook("(*"+yp+".Encoder).SetIndent", func(c *Call) []Outcome { return ret1(c) })
	s.hook("(*"+yp+".Encoder).Encode", func(c *Call) []Outcome {
		k := count(c.St, "encode")
		appendLog(c.St, mkTerm("encode", intT, c.Args[1]))
		if k == failAt {
			return ret1(c, errVal(s, "encoding fails"))
		}
		return ret1(c, Nil{})
	})
	s.hook("(*"+yp+".Encoder).Close", func(c *Call) []Outcome {
		appendLog(c.St, mkTerm("close", intT, cInt(0)))
		k := count(c.St, "encclose")
		if failAt == -2 && k == 0 {
			return ret1(c, errVal(s, "closing fails"))
		}
		return ret1(c, Nil{})
	})
	s.hook(yp+".Marshal", func(c *Call) []Outcome {
		appendLog(c.St, mkTerm("encode", intT, c.Args[0]))
		return ret1(c, mkTerm("yamltext", c.Sig.Results().At(0).Type(), c.Args[0]), Nil{})
	})
}

// encoded lists the values encoded on a path.
func encoded(o Outcome) ([]Val, bool) {
	l, ok := logOf(o.St)
	if !ok {
		return nil, false
	}
	var out []Val
	for _, x := range l {
		if t := x.(*Term); t.Op == "encode" {
			out = append(out, t.Args[0])
		}
	}
	return out, true
}
