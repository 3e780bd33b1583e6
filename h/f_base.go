package main

import (
	"fmt"
	"math"
)

// Helpers shared by the families.

func fnOf(name string, rs []*Ty, ps []Fld, body ...*St) *Fn {
	return &Fn{Name: name, Rs: rs, Ps: ps, Body: body}
}

func R(ts ...*Ty) []*Ty { return ts }

func P(xs ...any) []Fld {
	var fs []Fld
	for i := 0; i < len(xs); i += 2 {
		fs = append(fs, Fld{xs[i].(string), xs[i+1].(*Ty)})
	}
	return fs
}

func mainFn(b ...*St) *Fn { return &Fn{Name: "main", Body: b} }

func pg(fns ...*Fn) *Pg { return &Pg{Fns: fns} }

func nl() *St { return Print(Str("\n")) }

// Line prints the values and a newline.
func Line(es ...*E) *St { return Print(append(append([]*E{}, es...), Str("\n"))...) }

func V32(n string) *E { return Vr(n, TI32) }

// boundary values of an integer type
func bounds(t *Ty) []uint64 {
	if t.K == KBool {
		return []uint64{0, 1}
	}
	m := maskTo(math.MaxUint64, t)
	h := m >> 1
	vs := []uint64{0, 1, 2, 3, 7, 10, h, h - 1, h + 1, h + 2, m, m - 1, m - 6, 0x55 & m, maskTo(0xAAAAAAAAAAAAAAAA, t)}
	if t.Bits > 8 {
		vs = append(vs, 0x7f, 0x80, 0xff, 0x100)
	}
	if t.Bits > 16 {
		vs = append(vs, 0x7fff, 0x8000, 0xffff, 0x10000)
	}
	if t.Bits > 32 {
		vs = append(vs, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000)
	}
	return uniq(vs)
}

func few(t *Ty) []uint64 {
	if t.K == KBool {
		return []uint64{0, 1}
	}
	m := maskTo(math.MaxUint64, t)
	return uniq([]uint64{0, 1, 3, m >> 1, m>>1 + 1, m, m - 2})
}

func uniq(vs []uint64) []uint64 {
	seen := map[uint64]bool{}
	var r []uint64
	for _, v := range vs {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	return r
}

var floatVals = []string{"0.0", "1.0", "-1.0", "0.5", "-0.5", "1.5", "-2.75", "3.0", "100.25", "-1000.125", "0.0009765625", "16777216.0", "123456.75"}

// lits are the literals of boundary values of a type
func lits(t *Ty) []*E {
	var es []*E
	if t.K == KFloat {
		for _, s := range floatVals {
			es = append(es, Fl(t, s))
		}
		return es
	}
	for _, u := range bounds(t) {
		es = append(es, Uv(t, u))
	}
	return es
}

func fewLits(t *Ty) []*E {
	if t.K == KFloat {
		return []*E{Fl(t, "0.0"), Fl(t, "1.5"), Fl(t, "-3.25"), Fl(t, "100.0")}
	}
	var es []*E
	for _, u := range few(t) {
		es = append(es, Uv(t, u))
	}
	return es
}

// isOK evaluates an expression over literals in the model: does it stay in the specified language?
func isOK(e *E) bool {
	st := Ex(e)
	if e.T.isScalar() && e.T.K != KPtr && e.T.K != KFunc {
		st = Print(e)
	}
	r := (&Pg{Fns: []*Fn{mainFn(st)}}).Run(100000)
	return r.Err == ""
}

// chunks splits statements in groups.
func chunks(ss []*St, n int) [][]*St {
	var r [][]*St
	for len(ss) > n {
		r = append(r, ss[:n])
		ss = ss[n:]
	}
	if len(ss) > 0 {
		r = append(r, ss)
	}
	return r
}

func k(f string, a ...any) string { return fmt.Sprintf(f, a...) }
