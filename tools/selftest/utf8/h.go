// Package c99 temp.
package c99

import (
	"unicode/utf8"
	"github.com/dargueta/disko/zz_verif/sym"
)

// H_Range: decoding.
func H_Range() {
	n := 1 + sym.Choice(4)
	s := sym.String(n)
	i := 0
	for p, r := range s {
		q, k := utf8.DecodeRuneInString(s[i:])
		sym.Assert(p == i && q == r, "same rune")
		i += k
		b := utf8.AppendRune(nil, q)
		sym.Assert(string(r) == string(b), "same encoding")
	}
	sym.Assert(i == n, "all")
}

// H_Enc: encoding.
func H_Enc() {
	r := rune(sym.Uint32())
	sym.Assert(string(r) == string(utf8.AppendRune(nil, r)), "same encoding")
	sym.Assert(string([]rune{r, 'x'}) == string(utf8.AppendRune(nil, r))+"x", "same encoding")
}
