package main

import (
	"fmt"
	"go/types"
	"net/url"
	"path/filepath"
	"strings"
)

// Library functions whose behaviour does not depend on which letters an
// identifier consists of (path and URL manipulation) are computed on
// concatenations by standing an otherwise unused name in for each identifier.

type standIn struct {
	st *State
	by map[string]Val
}

func (q *standIn) text(v Val) (string, bool) {
	var b strings.Builder
	for _, p := range pieces(v) {
		if s, ok := isStr(p); ok {
			b.WriteString(s)
			continue
		}
		if !isIdent(q.st, p) {
			return "", false
		}
		k := ""
		for n, x := range q.by {
			if x.Key() == p.Key() {
				k = n
			}
		}
		if k == "" {
			k = fmt.Sprintf("zq%dqz", len(q.by))
			q.by[k] = p
		}
		b.WriteString(k)
	}
	return b.String(), true
}

func (q *standIn) val(s string) Val {
	var out []Val
	for s != "" {
		i := strings.Index(s, "zq")
		if i < 0 {
			break
		}
		j := strings.Index(s[i:], "qz")
		if j < 0 {
			break
		}
		v, ok := q.by[s[i:i+j+2]]
		if !ok {
			return Top{strT}
		}
		out = append(out, cStr(s[:i]), v)
		s = s[i+j+2:]
	}
	return mkCat(append(out, cStr(s))...)
}

func init() {
	one := func(name string, f func(a []string) any) {
		old := models[name]
		models[name] = func(c *Call) ([]Outcome, bool) {
			if old != nil {
				if o, ok := old(c); ok {
					return o, true
				}
			}
			q := &standIn{c.St, map[string]Val{}}
			vs := c.Args
			if len(vs) == 1 {
				if _, isS := vs[0].(Slice); isS {
					el, ok := c.In.listElems(c.St, vs[0])
					if !ok {
						return nil, false
					}
					vs = el
				}
			}
			var a []string
			for _, v := range vs {
				s, ok := q.text(v)
				if !ok {
					return nil, false
				}
				a = append(a, s)
			}
			switch r := f(a).(type) {
			case string:
				return []Outcome{{c.St, []Val{q.val(r)}}}, true
			case bool:
				return []Outcome{{c.St, []Val{cBool(r)}}}, true
			case []string:
				var out []Val
				for _, x := range r {
					out = append(out, q.val(x))
				}
				return []Outcome{{c.St, out}}, true
			}
			return nil, false
		}
	}
	for _, p := range []string{"path/filepath.", "path."} {
		one(p+"Join", func(a []string) any { return filepath.Join(a...) })
		one(p+"Clean", func(a []string) any { return filepath.Clean(a[0]) })
		one(p+"Dir", func(a []string) any { return filepath.Dir(a[0]) })
		one(p+"Base", func(a []string) any { return filepath.Base(a[0]) })
		one(p+"Ext", func(a []string) any { return filepath.Ext(a[0]) })
		one(p+"IsAbs", func(a []string) any { return filepath.IsAbs(a[0]) })
	}
	one("path/filepath.ToSlash", func(a []string) any { return a[0] })
	one("path/filepath.FromSlash", func(a []string) any { return a[0] })
	one("path/filepath.Split", func(a []string) any { d, f := filepath.Split(a[0]); return []string{d, f} })
	one("path.Split", func(a []string) any { d, f := filepath.Split(a[0]); return []string{d, f} })
	one("net/url.PathEscape", func(a []string) any { return url.PathEscape(a[0]) })

	// URLs
	get := func(c *Call, q *standIn, v Val) (*url.URL, types.Type, bool) {
		p, ok := v.(Ptr)
		if !ok {
			return nil, nil, false
		}
		t := p.T
		s, ok := t.Underlying().(structType)
		if !ok {
			return nil, nil, false
		}
		u := &url.URL{}
		for i := 0; i < s.NumFields(); i++ {
			x := c.In.loadPtr(c.St, Ptr{p.Obj, p.Path + fmt.Sprintf(".%d", i), s.Field(i).Type()}, s.Field(i).Type())
			var dst *string
			switch s.Field(i).Name() {
			case "Scheme":
				dst = &u.Scheme
			case "Opaque":
				dst = &u.Opaque
			case "Host":
				dst = &u.Host
			case "Path":
				dst = &u.Path
			case "RawPath":
				dst = &u.RawPath
			case "RawQuery":
				dst = &u.RawQuery
			case "Fragment":
				dst = &u.Fragment
			case "RawFragment":
				dst = &u.RawFragment
			case "User":
				if _, ok := x.(Nil); !ok {
					return nil, nil, false
				}
				continue
			default:
				if b, ok := isBool(x); !ok || b {
					return nil, nil, false
				}
				continue
			}
			*dst, ok = q.text(x)
			if !ok {
				return nil, nil, false
			}
		}
		return u, t, true
	}
	put := func(c *Call, q *standIn, u *url.URL, t types.Type) (Val, bool) {
		if u.User != nil || u.ForceQuery || u.OmitHost {
			return nil, false
		}
		z := zeroVal(t).(StructV)
		f := append([]Val(nil), z.F...)
		s := t.Underlying().(structType)
		for i := range f {
			switch s.Field(i).Name() {
			case "Scheme":
				f[i] = q.val(u.Scheme)
			case "Opaque":
				f[i] = q.val(u.Opaque)
			case "Host":
				f[i] = q.val(u.Host)
			case "Path":
				f[i] = q.val(u.Path)
			case "RawPath":
				f[i] = q.val(u.RawPath)
			case "RawQuery":
				f[i] = q.val(u.RawQuery)
			case "Fragment":
				f[i] = q.val(u.Fragment)
			case "RawFragment":
				f[i] = q.val(u.RawFragment)
			}
		}
		id := c.In.objID(c.Site, "url")
		c.In.newObj(c.St, id, &Obj{Kind: OCell, V: StructV{t, f}, T: t})
		return Ptr{id, "", t}, true
	}
	models["net/url.Parse"] = func(c *Call) ([]Outcome, bool) {
		q := &standIn{c.St, map[string]Val{}}
		s, ok := q.text(c.Args[0])
		if !ok {
			return nil, false
		}
		u, err := url.Parse(s)
		if err != nil {
			return []Outcome{{c.St, []Val{Nil{}, nonnilErr(c, "net/url.Parse")}}}, true
		}
		v, ok := put(c, q, u, elemOf(c.Sig.Results().At(0).Type()))
		if !ok {
			return nil, false
		}
		return []Outcome{{c.St, []Val{v, Nil{}}}}, true
	}
	models["(*net/url.URL).ResolveReference"] = func(c *Call) ([]Outcome, bool) {
		q := &standIn{c.St, map[string]Val{}}
		a, t, ok := get(c, q, c.Args[0])
		if !ok {
			return nil, false
		}
		b, _, ok := get(c, q, c.Args[1])
		if !ok {
			return nil, false
		}
		v, ok := put(c, q, a.ResolveReference(b), t)
		if !ok {
			return nil, false
		}
		return []Outcome{{c.St, []Val{v}}}, true
	}
	str := func(f func(u *url.URL) any) model {
		return func(c *Call) ([]Outcome, bool) {
			q := &standIn{c.St, map[string]Val{}}
			a, _, ok := get(c, q, c.Args[0])
			if !ok {
				return nil, false
			}
			switch x := f(a).(type) {
			case string:
				return []Outcome{{c.St, []Val{q.val(x)}}}, true
			case bool:
				return []Outcome{{c.St, []Val{cBool(x)}}}, true
			}
			return nil, false
		}
	}
	models["(*net/url.URL).String"] = str(func(u *url.URL) any { return u.String() })
	models["(*net/url.URL).EscapedPath"] = str(func(u *url.URL) any { return u.EscapedPath() })
	models["(*net/url.URL).IsAbs"] = str(func(u *url.URL) any { return u.IsAbs() })
	models["(*net/url.URL).Hostname"] = str(func(u *url.URL) any { return u.Hostname() })
}
