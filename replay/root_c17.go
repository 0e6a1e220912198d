package krypto431

import (
	"math/rand"
	"testing"
)

// c17check compares a grouped form with the letters it was made from.
func c17check(t *testing.T, what string, in []rune, g, columns int, out *[]rune, err error) {
	if g <= 0 {
		if err == nil {
			vFail(t, "%s of %q with group size %d gives no error", what, string(in), g)
		}
		return
	}
	if err != nil || out == nil {
		vFail(t, "%s of %q with group size %d gives error %v", what, string(in), g, err)
	}
	o := *out
	p, line := 0, 0
	for i, c := range in {
		if p >= len(o) || o[p] != c {
			vFail(t, "%s of %q with group size %d and %d columns is %q: letter %d is not at %d", what, string(in), g, columns, string(o), i, p)
		}
		p++
		line++
		if columns > 0 && g <= columns && line > columns {
			vFail(t, "%s of %q with group size %d and %d columns has a longer line: %q", what, string(in), g, columns, string(o))
		}
		if (i+1)%g == 0 && i+1 < len(in) {
			if p >= len(o) || (o[p] != ' ' && (columns <= 0 || o[p] != '\n')) {
				vFail(t, "%s of %q with group size %d and %d columns is %q: no separator at %d", what, string(in), g, columns, string(o), p)
			}
			if o[p] == '\n' {
				line = 0
			} else {
				line++
			}
			p++
		}
	}
	if p != len(o) {
		vFail(t, "%s of %q with group size %d and %d columns is %q: more than the letters and separators", what, string(in), g, columns, string(o))
	}
}

func TestReplayC17(t *testing.T) {
	defer vSilence()()
	if _, err := groups(nil, 5, 0); err == nil {
		vFail(t, "grouping nil gives no error")
	}
	vRounds(0.9, 300000, func(r *rand.Rand, round int) {
		g := r.Intn(9) - 1
		columns := r.Intn(40) - 2
		in := vRunes(r, vAZ, r.Intn(60))
		k := New(WithCallSign("ME"))
		k.GroupSize, k.Columns, k.KeyColumns = g, columns, r.Intn(40)-2
		key := Key{Runes: vCopy(in), instance: &k}
		m := Message{CipherText: vCopy(in), instance: &k}
		vGuard(t, "grouping", func() {
			out, err := key.Groups()
			c17check(t, "Key.Groups", in, g, 0, out, err)
			out, err = key.GroupsBlock()
			c17check(t, "Key.GroupsBlock", in, g, k.KeyColumns, out, err)
			out, err = m.Groups()
			c17check(t, "Message.Groups", in, g, 0, out, err)
			out, err = m.GroupsBlock()
			c17check(t, "Message.GroupsBlock", in, g, columns, out, err)
			if !vEq(key.Runes, in) || !vEq(m.CipherText, in) {
				vFail(t, "grouping %q changed the letters to %q / %q", string(in), string(key.Runes), string(m.CipherText))
			}
		})
	})
}
