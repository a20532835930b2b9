package main

import (
	"go/types"
	"math/big"
)

// Texts of known form: characters of concatenations, digits of bits.

// bitBounds are the bounds of p, also where p is a remainder x - m*(x div m)
// plus a constant.
func bitBounds(p *Term) (lo, hi *big.Int) {
	lo, hi = bounds(p)
	if p.kind != KInt || isIte(p) {
		return
	}
	k := big0
	acc := newAcc()
	var v *Term
	var m *big.Int
	for _, mo := range monos(p) {
		if len(mo.vars) == 0 {
			k = mo.c
			continue
		}
		acc.add(mo.c, mo.vars)
		if len(mo.vars) == 1 && mo.vars[0].op == "fdiv" && mo.c.Sign() < 0 && mo.c.Cmp(big.NewInt(-1)) < 0 {
			if v == nil || mo.vars[0].args[1].constVal().Cmp(v.args[1].constVal()) > 0 {
				v, m = mo.vars[0], new(big.Int).Neg(mo.c)
			}
		}
	}
	if v == nil {
		return
	}
	set := func(k *big.Int) {
		lo = bigMax(lo, k)
		hi = bigMin(hi, new(big.Int).Add(k, new(big.Int).Sub(m, big1)))
	}
	if c := v.args[1].constVal(); new(big.Int).Rem(c, m).Sign() == 0 {
		x := mkFdiv(v.args[0], new(big.Int).Div(c, m))
		if d := mkSub(p, mkSub(x, mkScale(m, v))).constVal(); d != nil {
			set(d)
			return
		}
	}
	if mkFdiv(mkAdd(acc.term(), mkScale(m, v)), m) == v {
		set(k)
	}
	return
}

func within(p *Term, a, b int64) bool {
	lo, hi := bitBounds(p)
	return lo != nil && hi != nil && lo.Cmp(big.NewInt(a)) >= 0 && hi.Cmp(big.NewInt(b)) <= 0
}

// mkStrAt is byte i of a string.
func mkStrAt(x, i *Term, typ types.Type) *Term {
	return lift2(x, i, func(x, i *Term) *Term {
		c := i.constVal()
		switch {
		case x.op == "str" && c != nil && c.IsInt64() && c.Int64() >= 0 && c.Int64() < int64(len(x.name)):
			return intConst(int64(x.name[c.Int64()]))
		case x.op == "strcat" && c != nil && c.Sign() >= 0:
			pos := big.NewInt(0)
			for _, a := range x.args {
				n := strLen(a).constVal()
				if n == nil {
					break
				}
				next := new(big.Int).Add(pos, n)
				if c.Cmp(next) < 0 {
					return mkStrAt(a, mkConst(new(big.Int).Sub(c, pos)), typ)
				}
				pos = next
			}
		case x.op == "app" && x.name == "bytestr" && i.isConst(0):
			return x.args[0]
		case x.op == "app" && x.name == "runestr" && i.isConst(0) && within(x.args[0], 0, 127):
			return x.args[0]
		case x.op == "app" && x.name == "dec" && i.isConst(0) && within(x.args[0], 0, 9):
			return mkAddK(x.args[0], 48)
		case c != nil && c.Sign() >= 0 && runeWidth(x) > 1 && c.Cmp(big.NewInt(runeWidth(x))) < 0:
			// one byte of a character of several
			lo, hi := int64(0x80), int64(0xbf)
			if c.Sign() == 0 {
				r := [][2]int64{2: {0xc2, 0xdf}, 3: {0xe0, 0xef}, 4: {0xf0, 0xf4}}[runeWidth(x)]
				lo, hi = r[0], r[1]
			}
			return appInt("strat", big.NewInt(lo), big.NewInt(hi), x, i)
		}
		return app("strat", typ, x, i)
	})
}

// runeWidth is the number of bytes of a piece that is one character, if known.
func runeWidth(x *Term) int64 {
	if x.op != "app" || x.name != "runestr" {
		return 0
	}
	r := x.args[0]
	switch {
	case within(r, 0, 0x7f):
		return 1
	case within(r, 0x80, 0x7ff):
		return 2
	case within(r, 0x800, 0xd7ff), within(r, 0xe000, 0xffff):
		return 3
	case within(r, 0x10000, 0x10ffff):
		return 4
	}
	return 0
}

// oneRune: the piece is one character
func oneRune(x *Term) bool {
	return x.op == "app" && x.name == "runestr" && (within(x.args[0], 0, 0xd7ff) || within(x.args[0], 0xe000, 0x10ffff))
}

func mkRuneStr(v *Term, typ types.Type) *Term {
	return lift1(v, func(v *Term) *Term {
		if c := v.constVal(); c != nil {
			if c.IsInt64() && c.Int64() >= 0 && c.Int64() <= 0x10ffff {
				return mkStr(string(rune(c.Int64())))
			}
			return mkStr("\ufffd")
		}
		return app("runestr", typ, v)
	})
}

func init() {
	appRebuild["strat"] = func(t *Term, a []*Term) *Term { return mkStrAt(a[0], a[1], t.typ) }
	appRebuild["strlen"] = func(t *Term, a []*Term) *Term { return strLen(a[0]) }
	appRebuild["runestr"] = func(t *Term, a []*Term) *Term { return mkRuneStr(a[0], t.typ) }
	appRebuild["dec"] = func(t *Term, a []*Term) *Term { return dec(a[0]) }
	appRebuild["strlt"] = func(t *Term, a []*Term) *Term { return strLt(a[0], a[1]) }
	appRebuild["flt"] = func(t *Term, a []*Term) *Term { return fLt(a[0], a[1]) }
	appRebuild["feq"] = func(t *Term, a []*Term) *Term { return lift2(a[0], a[1], feq) }
	appRebuild["deepequal"] = func(t *Term, a []*Term) *Term { return lift2(a[0], a[1], deepEqual) }
}
