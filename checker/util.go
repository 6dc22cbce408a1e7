package main

import (
	"go/types"
	"path/filepath"
	"sort"
)

var floatT = types.Typ[types.Float64]

func sortStrings(s []string) { sort.Strings(s) }

// eval analyses the engine's Eval on a node in a fresh environment.
func (s *Scn) eval(node Ptr, mode int) []Outcome { return s.evalIn(node, s.env("env", nil), mode, nil) }

func (s *Scn) evalIn(node, env Ptr, mode int, opts map[string]Val) []Outcome {
	e, et := s.engine(opts)
	return s.run(s.engMethod(et, "Eval"), e, node, env, cInt(mode))
}

type structType = *types.Struct

// setField overwrites one field of a node of the scenario.
func (s *Scn) setField(n Ptr, name string, v Val) {
	o := s.St.heap[n.Obj].clone()
	sv := o.V.(StructV)
	f := append([]Val(nil), sv.F...)
	f[s.fieldIdx(s.W.T.Node, name)] = v
	o.V = StructV{sv.T, f}
	s.St.heap[n.Obj] = o
}

func filepathJoin(a, b string) string { return filepath.Join(a, b) }
func filepathDir(a string) string     { return filepath.Dir(a) }

func typesSlice(t types.Type) types.Type { return types.NewSlice(t) }

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
