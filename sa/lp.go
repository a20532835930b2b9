package main

import (
	"math/big"
	"sort"
)

// Exact rational feasibility of linear constraints over the monomials, by
// the bounded general simplex method with Bland's rule.

type lpResult struct {
	cols []*Term
	val  []*big.Rat
}

func (p *problem) lpFeasible(withProducts bool) bool {
	rows := append([][]Mono(nil), p.ge...)
	if withProducts {
		rows = append(rows, p.products()...)
	}
	r := lpSolve(rows, p.eq)
	p.last = r
	return r != nil
}

// fractional finds an integer atom with a fractional value in the vertex
// found last, preferring small problems.
func (p *problem) fractional() (*Term, *big.Rat) {
	if p.last == nil {
		return nil, nil
	}
	for i, c := range p.last.cols {
		if c.op != "poly" && !p.last.val[i].IsInt() && c.lo != nil && c.hi != nil && new(big.Int).Sub(c.hi, c.lo).Cmp(big.NewInt(4)) <= 0 {
			return c, p.last.val[i]
		}
	}
	for i, c := range p.last.cols {
		if c.op == "poly" {
			continue
		}
		if !p.last.val[i].IsInt() {
			return c, p.last.val[i]
		}
	}
	return nil, nil
}

func lpSolve(ge, eq [][]Mono) *lpResult {
	colOf := map[string]int{}
	var cols []*Term
	col := func(vars []*Term) int {
		k := monoKey(vars)
		if i, ok := colOf[k]; ok {
			return i
		}
		i := len(cols)
		colOf[k] = i
		cols = append(cols, polyTerm([]Mono{{c: big1, vars: vars}}))
		return i
	}
	type row struct {
		a map[int]*big.Rat
		b *big.Rat // a.x >= b
		e bool
	}
	var rows []row
	type bnd struct{ lo, hi *big.Rat }
	var simple []struct {
		c  int
		co *big.Int
		k  *big.Int
		e  bool
	}
	add := func(ms []Mono, e bool) {
		k := big0
		n := 0
		for _, m := range ms {
			if len(m.vars) == 0 {
				k = m.c
			} else {
				n++
			}
		}
		if n == 1 {
			for _, m := range ms {
				if len(m.vars) > 0 {
					simple = append(simple, struct {
						c  int
						co *big.Int
						k  *big.Int
						e  bool
					}{col(m.vars), m.c, k, e})
				}
			}
			return
		}
		r := row{a: map[int]*big.Rat{}, b: new(big.Rat).SetInt(new(big.Int).Neg(k)), e: e}
		for _, m := range ms {
			if len(m.vars) > 0 {
				r.a[col(m.vars)] = new(big.Rat).SetInt(m.c)
			}
		}
		rows = append(rows, r)
	}
	for _, ms := range ge {
		add(ms, false)
	}
	for _, ms := range eq {
		add(ms, true)
	}
	n := len(cols)
	m := len(rows)
	// variables 0..n-1 columns, n..n+m-1 slacks
	lo := make([]*big.Rat, n+m)
	hi := make([]*big.Rat, n+m)
	for _, s := range simple {
		v := new(big.Rat).SetFrac(new(big.Int).Neg(s.k), s.co)
		if s.co.Sign() > 0 || s.e {
			if lo[s.c] == nil || v.Cmp(lo[s.c]) > 0 {
				lo[s.c] = v
			}
		}
		if s.co.Sign() < 0 || s.e {
			if hi[s.c] == nil || v.Cmp(hi[s.c]) < 0 {
				hi[s.c] = v
			}
		}
	}
	// integrality of the bounds
	for i := 0; i < n; i++ {
		if lo[i] != nil && !lo[i].IsInt() {
			lo[i] = new(big.Rat).SetInt(ceilDiv(lo[i].Num(), lo[i].Denom()))
		}
		if hi[i] != nil && !hi[i].IsInt() {
			hi[i] = new(big.Rat).SetInt(new(big.Int).Div(hi[i].Num(), hi[i].Denom()))
		}
		if lo[i] != nil && hi[i] != nil && lo[i].Cmp(hi[i]) > 0 {
			return nil
		}
	}
	for i, r := range rows {
		lo[n+i] = r.b
		if r.e {
			hi[n+i] = r.b
		}
	}
	val := make([]*big.Rat, n+m)
	for i := 0; i < n; i++ {
		switch {
		case lo[i] != nil:
			val[i] = lo[i]
		case hi[i] != nil:
			val[i] = hi[i]
		default:
			val[i] = new(big.Rat)
		}
	}
	// tableau rows: basic var -> combination of nonbasic
	basis := make([]int, m)
	where := make([]int, n+m) // row of a basic variable, -1 otherwise
	for i := range where {
		where[i] = -1
	}
	tab := make([]map[int]*big.Rat, m)
	for i, r := range rows {
		basis[i] = n + i
		where[n+i] = i
		tab[i] = r.a
		s := new(big.Rat)
		for j, a := range r.a {
			s.Add(s, new(big.Rat).Mul(a, val[j]))
		}
		val[n+i] = s
	}
	for iter := 0; iter < 4000; iter++ {
		// smallest basic variable out of bounds
		bi := -1
		for i := 0; i < m; i++ {
			b := basis[i]
			if lo[b] != nil && val[b].Cmp(lo[b]) < 0 || hi[b] != nil && val[b].Cmp(hi[b]) > 0 {
				if bi < 0 || b < basis[bi] {
					bi = i
				}
			}
		}
		if bi < 0 {
			return &lpResult{cols, val[:n]}
		}
		b := basis[bi]
		low := lo[b] != nil && val[b].Cmp(lo[b]) < 0
		target := hi[b]
		if low {
			target = lo[b]
		}
		js := make([]int, 0, len(tab[bi]))
		for j := range tab[bi] {
			js = append(js, j)
		}
		sort.Ints(js)
		pj := -1
		for _, j := range js {
			a := tab[bi][j]
			inc := (a.Sign() > 0) == low // j must increase
			if inc && (hi[j] == nil || val[j].Cmp(hi[j]) < 0) || !inc && (lo[j] == nil || val[j].Cmp(lo[j]) > 0) {
				pj = j
				break
			}
		}
		if pj < 0 {
			return nil
		}
		a := tab[bi][pj]
		theta := new(big.Rat).Quo(new(big.Rat).Sub(target, val[b]), a)
		val[b] = target
		val[pj] = new(big.Rat).Add(val[pj], theta)
		for i := 0; i < m; i++ {
			if i == bi {
				continue
			}
			if c, ok := tab[i][pj]; ok {
				bb := basis[i]
				val[bb] = new(big.Rat).Add(val[bb], new(big.Rat).Mul(c, theta))
			}
		}
		// pivot: pj = (b - sum others)/a
		nr := map[int]*big.Rat{}
		inv := new(big.Rat).Inv(a)
		for j, c := range tab[bi] {
			if j == pj {
				continue
			}
			nr[j] = new(big.Rat).Neg(new(big.Rat).Mul(c, inv))
		}
		nr[b] = inv
		tab[bi] = nr
		basis[bi] = pj
		where[pj] = bi
		where[b] = -1
		for i := 0; i < m; i++ {
			if i == bi {
				continue
			}
			c, ok := tab[i][pj]
			if !ok {
				continue
			}
			delete(tab[i], pj)
			for j, x := range nr {
				y := new(big.Rat).Mul(c, x)
				if z, ok := tab[i][j]; ok {
					y.Add(y, z)
				}
				if y.Sign() == 0 {
					delete(tab[i], j)
				} else {
					tab[i][j] = y
				}
			}
		}
	}
	return &lpResult{cols, val[:n]}
}
