package krypto431

import (
	"math/rand"
	"strings"
	"testing"
	"unicode"
)

func c18fold(a []rune) string {
	b := vCopy(a)
	for i := range b {
		b[i] = unicode.ToUpper(b[i])
	}
	return string(b)
}

func c18has(h [][]rune, n []rune, ci bool) bool {
	for i := range h {
		if vEq(h[i], n) || ci && len(h[i]) == len(n) && c18fold(h[i]) == c18fold(n) {
			return true
		}
	}
	return false
}

func c18p(r *rand.Rand, l *[][]rune) *[][]rune {
	if r.Intn(40) == 0 {
		return nil
	}
	return l
}

func TestReplayC18(t *testing.T) {
	alph := []string{"ab", "aAbB", "aA1/", "åÅäab", "ſsS", "ABC"}
	vRounds(0.5, 300000, func(r *rand.Rand, round int) {
		al := alph[r.Intn(len(alph))]
		a, b := vRunes(r, al, r.Intn(4)), vRunes(r, al, r.Intn(4))
		if r.Intn(3) == 0 {
			b = vCopy(a)
			if r.Intn(2) == 0 && len(b) > 0 {
				b[r.Intn(len(b))] ^= 32
			}
		}
		vGuard(t, "EqualRunes", func() {
			if EqualRunes(&a, &b) != vEq(a, b) {
				vFail(t, "EqualRunes(%q,%q) = %v", string(a), string(b), !vEq(a, b))
			}
			want := len(a) == len(b) && c18fold(a) == c18fold(b)
			if EqualRunesFold(&a, &b) != want {
				vFail(t, "EqualRunesFold(%q,%q) = %v", string(a), string(b), !want)
			}
			if EqualRunes(nil, &a) || EqualRunes(&a, nil) || EqualRunesFold(nil, &a) || EqualRunesFold(&a, nil) || !EqualRunes(nil, nil) || !EqualRunesFold(nil, nil) {
				vFail(t, "EqualRunes or EqualRunesFold with nil and %q", string(a))
			}
		})
		n0, h0 := vList(r, al, 3, 2), vList(r, al, 3, 2)
		n, h := c18p(r, &n0), c18p(r, &h0)
		for _, ci := range []int{0, 1, 2} {
			want := n != nil && h != nil && len(n0) > 0 && len(h0) > 0
			if want {
				for i := range n0 {
					want = want && c18has(h0, n0[i], ci == 2)
				}
			}
			vGuard(t, "AllNeedlesInHaystack", func() {
				var got bool
				switch ci {
				case 0:
					got = AllNeedlesInHaystack(n, h)
				case 1:
					got = AllNeedlesInHaystack(n, h, false)
				case 2:
					got = AllNeedlesInHaystack(n, h, true)
				}
				if got != want {
					vFail(t, "AllNeedlesInHaystack(%s,%s) mode %d = %v (nil arguments: %v %v)", vStrs(n0), vStrs(h0), ci, got, n == nil, h == nil)
				}
			})
		}
		want := false
		if n != nil && h != nil {
			for i := range n0 {
				want = want || c18has(h0, n0[i], false)
			}
		}
		vGuard(t, "AnyNeedleInHaystack", func() {
			if got := AnyNeedleInHaystack(n, h); got != want {
				vFail(t, "AnyNeedleInHaystack(%s,%s) = %v", vStrs(n0), vStrs(h0), got)
			}
			want := h != nil && len(a) > 0 && c18has(h0, a, false)
			if got := AnyOfThem(h, &a); got != want {
				vFail(t, "AnyOfThem(%s,%q) = %v", vStrs(h0), string(a), got)
			}
			if AnyOfThem(&h0, nil) {
				vFail(t, "AnyOfThem(%s,nil) = true", vStrs(h0))
			}
		})
		// option lists
		var opts []string
		for i := r.Intn(4); i > 0; i-- {
			opts = append(opts, string(vRunes(r, "aB1, ,/", r.Intn(8))))
		}
		var ids []string
		for _, o := range opts {
			for _, f := range strings.FieldsFunc(o, func(c rune) bool { return c == ',' || c == ' ' }) {
				ids = append(ids, f)
			}
		}
		vGuard(t, "Vetted lists", func() {
			for k, f := range map[string]func(...string) [][]rune{"VettedKeepers": VettedKeepers, "VettedKeys": VettedKeys, "VettedCallSigns": VettedCallSigns, "VettedRecipients": VettedRecipients, "VettedMessageIds": VettedMessageIds} {
				got := f(opts...)
				ok := len(got) == len(ids)
				for i := 0; ok && i < len(ids); i++ {
					want := ids[i]
					if k != "VettedMessageIds" {
						want = strings.ToUpper(want)
					}
					ok = string(got[i]) == want
				}
				if !ok {
					vFail(t, "%s(%q) = %s", k, opts, vStrs(got))
				}
			}
		})
	})
}
