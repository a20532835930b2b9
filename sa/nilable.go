package main

import (
	"regexp"
	"strings"
)

// An element of an unknown struct type is never nil. The probes that ask
// nothing of the elements are analysed once more for elements of an interface
// type, where a nil could be taken for absence.

const declEN = `
type saEN interface {
	Cmp(saEN) Ordering
	Eq(saEN) Bool
	Clone() saEN
	Display() String
	Debug() String
	ToString() String
}
`

var (
	needsTrait = regexp.MustCompile(`\.(Eq|Cmp|Clone|Display|Debug|ToString|Contains|Sort\w*|IsSorted\w*|BinarySearch\w*|Dedup\w*)\(|saO\b|RingO|Sorted`)
	defined    = regexp.MustCompile(`(?m)^(?:func|type|var|const) (sa\w+)`)
	bodyless   = regexp.MustCompile(`(?m)^func (sa\w+)[^{\n]*$`)
	opaqueE    = regexp.MustCompile(`\bsaE\b`)
)

// withNilElements adds the variants of those probes.
func withNilElements(ps []Probe) []Probe {
	var r []Probe
	for _, p := range ps {
		if needsTrait.MatchString(p.src) || !opaqueE.MatchString(p.src+p.decls) {
			continue
		}
		q := p
		q.once = true
		q.name += "_Nil"
		intrinsic := map[string]bool{}
		for _, m := range bodyless.FindAllStringSubmatch(p.decls, -1) {
			intrinsic[m[1]] = true
		}
		q.decls = bodyless.ReplaceAllString(strings.ReplaceAll(p.decls, declE, "\n//--\n"+declEN+"\n//--\n"), "")
		var names []string
		for _, m := range defined.FindAllStringSubmatch(q.decls, -1) {
			if !intrinsic[m[1]] && m[1] != "saEN" {
				names = append(names, m[1])
			}
		}
		q.src = strings.ReplaceAll(p.src, p.name, q.name)
		for _, t := range []*string{&q.src, &q.decls} {
			for _, n := range names {
				*t = regexp.MustCompile(`\b`+n+`\b`).ReplaceAllString(*t, n+"N")
			}
			*t = opaqueE.ReplaceAllString(*t, "saEN")
		}
		r = append(r, q)
	}
	return append(ps, r...)
}
