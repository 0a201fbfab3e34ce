package main

import (
	"fmt"

	"cuelang.org/go/cue"
	"github.com/grafana/thema/internal/cuetil"
	"github.com/grafana/thema/internal/zzverif/hlib"
)

type Case = hlib.Case

func main() {
	hlib.Main([]*hlib.Prop{{ID: "P21", Quick: 60000, Run: p21, Rule: "random pairs and triples of paths, of all kinds of selectors, with shared prefixes; results compared with a selector-by-selector model"}})
}

func sel(c *Case) cue.Selector {
	n := fmt.Sprintf("f%d", c.Intn(3))
	switch c.Intn(7) {
	case 0:
		return cue.Str(n).Optional()
	case 1:
		return cue.Def("#" + n)
	case 2:
		return cue.Hid("_"+n, pick(c, "example.com/p", "example.com/p", "example.com/r"))
	case 3:
		return cue.Index(c.Intn(3))
	case 4:
		return cue.Hid("_#"+n, pick(c, "example.com/q", "example.com/r"))
	}
	return cue.Str(n)
}

func same(a, b cue.Selector) bool { return a == b || a.Optional() == b.Optional() }

func eq(a, b []cue.Selector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ident: identical selectors
func ident(a, b []cue.Selector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func p21(c *Case) {
	var ps, qs, ns []cue.Selector
	for n := c.Intn(6); n > 0; n-- {
		ps = append(ps, sel(c))
	}
	switch c.Intn(3) {
	case 0: // a prefix, up to optionality
		for _, s := range ps[:c.Intn(len(ps)+1)] {
			if s.LabelType() == cue.StringLabel && c.Intn(3) == 0 {
				s = s.Optional()
			}
			qs = append(qs, s)
		}
	case 1: // a prefix with one difference
		qs = append(qs, ps[:c.Intn(len(ps)+1)]...)
		if len(qs) > 0 {
			qs[c.Intn(len(qs))] = sel(c)
		}
	default:
		for n := c.Intn(6); n > 0; n-- {
			qs = append(qs, sel(c))
		}
	}
	for n := c.Intn(4); n > 0; n-- {
		ns = append(ns, sel(c))
	}
	p, q, r := cue.MakePath(ps...), cue.MakePath(qs...), cue.MakePath(ns...)
	c.Logf("p=%v q=%v r=%v", p, q, r)
	c.Key("%v %v %v", p, q, r)
	has := len(qs) <= len(ps) && eq(ps[:len(qs)], qs)
	c.Check(cuetil.PathsAreEq(p, q) == eq(ps, qs), "PathsAreEq(%v, %v)", p, q)
	c.Check(cuetil.PathHasPrefix(p, q) == has, "PathHasPrefix(%v, %v)", p, q)
	if len(ps) > 0 && len(qs) > 0 {
		c.Check(cuetil.SelEq(ps[0], qs[0]) == same(ps[0], qs[0]), "SelEq(%v, %v)", ps[0], qs[0])
		c.Check(cuetil.LastSelectorEq(p, qs[0]) == same(ps[len(ps)-1], qs[0]), "LastSelectorEq(%v, %v)", p, qs[0])
	}
	t := cuetil.TrimPathPrefix(p, q).Selectors()
	want := ps
	if has && len(ps) != 1 {
		want = ps[len(qs):]
	}
	c.Check(ident(t, want), "TrimPathPrefix(%v, %v) = %v", p, q, t)
	t = cuetil.ReplacePathPrefix(p, q, r).Selectors()
	want = ps
	if has && len(qs) < len(ps) {
		want = append(append([]cue.Selector{}, ns...), ps[len(qs):]...)
	}
	c.Check(ident(t, want), "ReplacePathPrefix(%v, %v, %v) = %v", p, q, r, t)
	c.Check(ident(p.Selectors(), ps) && ident(q.Selectors(), qs) && ident(r.Selectors(), ns), "an argument was changed")
}

func pick(c *Case, xs ...string) string { return xs[c.Intn(len(xs))] }
