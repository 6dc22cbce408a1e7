package main

import (
	"strings"
)

// where names the code a scenario went through.
func (s *Scn) where() (pos, path string) {
	var names []string
	for _, f := range s.In.Trace {
		names = append(names, f.Name())
		if len(names) > 8 {
			names = append(names, "...")
			break
		}
	}
	for _, f := range s.In.Trace {
		if f.Pos().IsValid() {
			pos = s.W.P.pos(f.Pos())
		}
	}
	return pos, strings.Join(names, " -> ")
}

// exp asserts something of every outcome of a scenario.
func (s *Scn) exp(r *Report, rule, construct string, outs []Outcome, f func(o Outcome) string) bool {
	pos, path := s.where()
	construct = construct + ": " + s.Name
	if e := s.events("panic"); len(e) > 0 {
		r.fail(rule, construct, e[0].Pos, "this case reaches a run-time panic %s (through %s)", keys(e[0].Args), strings.Join(short(e[0].Stack), " -> "))
		return false
	}
	if e := s.events("cut"); len(e) > 0 {
		r.fail(rule, construct, pos, "cannot be decided: recursion through %s is not bounded in this case", keys(e[0].Args))
		return false
	}
	if len(outs) == 0 {
		r.fail(rule, construct, pos, "no path returns in this case (through %s)", path)
		return false
	}
	for _, o := range outs {
		if m := f(o); m != "" {
			r.fail(rule, construct, pos, "%s (through %s)", m, path)
			return false
		}
	}
	r.ok(rule, construct, pos)
	return true
}

func short(fs []string) []string {
	var out []string
	for _, f := range fs {
		if i := strings.LastIndex(f, "/"); i >= 0 {
			f = f[i+1:]
		}
		out = append(out, strings.TrimSuffix(f, ")"))
	}
	return out
}

func (s *Scn) noErr(o Outcome) string {
	switch s.isErr(o) {
	case 1:
		return "an error is returned where a value is due"
	case -1:
		return "whether an error is returned is not determined: " + o.Res[len(o.Res)-1].Key()
	}
	return ""
}

func (s *Scn) expErr(r *Report, rule, construct string, outs []Outcome) bool {
	return s.exp(r, rule, construct, outs, func(o Outcome) string {
		switch s.isErr(o) {
		case 0:
			return "no error is returned; the result is " + s.describe(o.St, o.Res[0])
		case -1:
			return "whether an error is returned is not determined"
		}
		return ""
	})
}

func (s *Scn) expBool(r *Report, rule, construct string, outs []Outcome, want bool) bool {
	return s.exp(r, rule, construct, outs, func(o Outcome) string {
		if m := s.noErr(o); m != "" {
			return m
		}
		if k := s.kindOf(o.St, o.Res[0]); k != "Bool" {
			return "the result is of kind " + k + ", not a boolean"
		}
		d := s.In.decide(o.St, s.value(o.St, o.Res[0]))
		if want && d != 1 || !want && d != 0 {
			return "the result is " + s.value(o.St, o.Res[0]).Key() + ", not " + map[bool]string{true: "true", false: "false"}[want]
		}
		return ""
	})
}

// expNode: every outcome returns exactly this node.
func (s *Scn) expNode(r *Report, rule, construct string, outs []Outcome, want Val) bool {
	return s.exp(r, rule, construct, outs, func(o Outcome) string {
		if m := s.noErr(o); m != "" {
			return m
		}
		if o.Res[0].Key() != want.Key() {
			return "the result is " + s.describe(o.St, o.Res[0]) + ", not " + s.describe(o.St, want)
		}
		return ""
	})
}

// expVal: every outcome returns a node of the given kind and value.
func (s *Scn) expVal(r *Report, rule, construct string, outs []Outcome, kind string, want Val) bool {
	return s.exp(r, rule, construct, outs, func(o Outcome) string {
		if m := s.noErr(o); m != "" {
			return m
		}
		return s.isNode(o.St, o.Res[0], kind, want)
	})
}

func (s *Scn) isNode(st *State, n Val, kind string, want Val) string {
	if k := s.kindOf(st, n); k != kind {
		return "the result is of kind " + k + ", not " + kind
	}
	if want == nil {
		return ""
	}
	v := s.value(st, n)
	if s.In.relate(st, v, want) != EQ {
		return "the result is " + v.Key() + ", not " + want.Key()
	}
	return ""
}
