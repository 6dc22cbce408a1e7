package main

import (
	"fmt"
	"strings"
)

// M describes an expected value; it returns "" when v fits.
type M func(s *Scn, st *State, v Val) string

// same expects exactly this value (for nodes: the same object).
func same(want Val) M {
	return func(s *Scn, st *State, v Val) string {
		if v == nil || v.Key() != want.Key() {
			return s.describe(st, v) + " instead of " + s.describe(st, want)
		}
		return ""
	}
}

// is expects a node of this kind and (if not nil) scalar value.
func is(kind string, want Val) M {
	return func(s *Scn, st *State, v Val) string { return s.isNode(st, v, kind, want) }
}

func anyNode() M { return func(s *Scn, st *State, v Val) string { return "" } }

// list expects an array node with these elements.
func list(ms ...M) M {
	return func(s *Scn, st *State, v Val) string {
		if k := s.kindOf(st, v); k != "Array" {
			return "a value of kind " + k + " instead of a list"
		}
		el, ok := s.elems(st, v)
		if !ok {
			return "a list whose elements are not determined: " + s.value(st, v).Key()
		}
		if len(el) != len(ms) {
			return fmt.Sprintf("a list of %d elements instead of %d", len(el), len(ms))
		}
		for i := range ms {
			if m := ms[i](s, st, el[i]); m != "" {
				return fmt.Sprintf("at list position %d: %s", i, m)
			}
		}
		return ""
	}
}

type kv struct {
	k Val
	m M
}

// dict expects a map node with exactly these entries in this order.
func dict(es ...kv) M {
	return func(s *Scn, st *State, v Val) string {
		if k := s.kindOf(st, v); k != "Map" {
			return "a value of kind " + k + " instead of a map"
		}
		got, ok := s.entries(st, v)
		if !ok {
			return "a map whose entries are not determined: " + s.value(st, v).Key()
		}
		if len(got) != len(es) {
			return fmt.Sprintf("a map with entries [%s] instead of %d entries", s.entryKey(got), len(es))
		}
		for i, e := range es {
			if got[i].Maybe {
				return "entry " + got[i].K.Key() + " may be absent"
			}
			if s.In.relate(st, got[i].K, e.k) != EQ {
				return fmt.Sprintf("map position %d holds key %s instead of %s", i, got[i].K.Key(), e.k.Key())
			}
			if m := e.m(s, st, got[i].V); m != "" {
				return "under key " + e.k.Key() + ": " + m
			}
		}
		return ""
	}
}

// exact: every outcome is without error and its first result fits m.
func (s *Scn) exact(r *Report, rule, construct string, outs []Outcome, m M) bool {
	return s.exp(r, rule, construct, outs, func(o Outcome) string {
		if e := s.noErr(o); e != "" {
			return e
		}
		if e := m(s, o.St, o.Res[0]); e != "" {
			return "the result has " + e
		}
		return ""
	})
}

// log: an ordered record of what a path did, kept in the state -------------------------

const logID = "log:"

func appendLog(st *State, v Val) {
	o := st.heap[logID]
	if o == nil {
		o = &Obj{Kind: OArr, Known: true}
	}
	n := o.clone()
	if n.Known {
		n.Elems = append(n.Elems, v)
		st.note("L" + v.Key())
	}
	st.heap[logID] = n
}

func (s *Scn) initLog() { s.St.heap[logID] = &Obj{Kind: OArr, Known: true} }

// logOf returns the record of a path; ok is false when paths were merged.
func logOf(st *State) ([]Val, bool) {
	o := st.heap[logID]
	if o == nil {
		return nil, true
	}
	return o.Elems, o.Known
}

func logKeys(vs []Val) string {
	var b []string
	for _, v := range vs {
		b = append(b, v.Key())
	}
	return strings.Join(b, "; ")
}

func errVal(s *Scn, name string) Val { return mkTerm("nonnil", s.W.T.Err, cStr(name)) }

// mock replaces the engine's evaluator method (Eval or Apply) below the entry
// point of a scenario. f is given the arguments without the receiver and the
// number of earlier calls on this path.
func (w *World) mock(method string, f func(c *Call, n int, args []Val) []Outcome) Hook {
	return func(c *Call) ([]Outcome, bool) {
		if !w.isEngineMethod(c, method) {
			return nil, false
		}
		args := c.Args
		if c.Recv == nil {
			args = args[1:]
		}
		l, ok := logOf(c.St)
		n := len(l)
		if !ok {
			anchorf("the order of calls of %s is not determined", method)
		}
		return f(c, n, args), true
	}
}

func (w *World) isEngineMethod(c *Call, method string) bool {
	if c.Fn == nil {
		return c.Name == "("+modPath+"/core.Engine)."+method
	}
	if c.Fn.Signature.Recv() == nil || c.Fn.Name() != method {
		return false
	}
	if len(c.In.stack) == 0 {
		return false
	}
	return implementsEngine(w, c.Fn)
}
