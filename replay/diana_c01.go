package diana

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// Directed search for an input on which the trigraph functions break property C01.
func c01fail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	fmt.Printf("FAILING-INPUT "+f+"\n", a...)
	t.FailNow()
}

func c01tri(x, y int) int { return 'A' + ((25-(x-'A')-(y-'A'))%26+26)%26 }

func c01guard(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c01fail(t, "%s panics: %v", what, r)
		}
	}()
	f()
}

func c01up(x int) bool { return x >= 'A' && x <= 'Z' }

func TestReplayC01(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	for x := 0; x < 256; x++ {
		for y := 0; y < 256; y++ {
			bx, by, w := byte(x), byte(y), byte(7)
			rx, ry, rw := rune(x), rune(y), rune(7)
			var err, rerr error
			c01guard(t, fmt.Sprintf("TrigraphByte(%d,%d)", x, y), func() { err = TrigraphByte(&w, &bx, &by) })
			c01guard(t, fmt.Sprintf("TrigraphRune(%d,%d)", x, y), func() { rerr = TrigraphRune(&rw, &rx, &ry) })
			ok := c01up(x) && c01up(y)
			if (err == nil) != ok || (ok && int(w) != c01tri(x, y)) || (!ok && w != 7) {
				c01fail(t, "TrigraphByte(%d,%d) wrote %d err %v", x, y, w, err)
			}
			if (rerr == nil) != ok || (ok && int(rw) != c01tri(x, y)) || (!ok && rw != 7) {
				c01fail(t, "TrigraphRune(%d,%d) wrote %d err %v", x, y, rw, rerr)
			}
		}
		bx, w, rx, rw := byte(x), byte(7), rune(x), rune(7)
		var err, rerr error
		c01guard(t, fmt.Sprintf("ZeroKeyByte(%d)", x), func() { err = ZeroKeyByte(&w, &bx) })
		c01guard(t, fmt.Sprintf("ZeroKeyRune(%d)", x), func() { rerr = ZeroKeyRune(&rw, &rx) })
		ok := c01up(x)
		if (err == nil) != ok || (ok && int(w) != c01tri(x, x)) || (!ok && w != 7) {
			c01fail(t, "ZeroKeyByte(%d) wrote %d err %v", x, w, err)
		}
		if (rerr == nil) != ok || (ok && int(rw) != c01tri(x, x)) || (!ok && rw != 7) {
			c01fail(t, "ZeroKeyRune(%d) wrote %d err %v", x, rw, rerr)
		}
	}
	for _, base := range []int64{1 << 8, 1 << 16, 1 << 31, 1 << 32} {
		for n := 0; n < 4000; n++ {
			rx, ry, rw := rune('A'+rnd.Intn(26)), rune('A'+rnd.Intn(26)), rune(7)
			odd := rune(int64(rx) + base*int64(rnd.Intn(5)-2))
			if n%3 == 0 {
				odd = rune(rnd.Uint32())
			}
			if n%2 == 0 {
				rx = odd
			} else {
				ry = odd
			}
			var err error
			c01guard(t, fmt.Sprintf("TrigraphRune(%d,%d)", rx, ry), func() { err = TrigraphRune(&rw, &rx, &ry) })
			ok := c01up(int(rx)) && c01up(int(ry))
			if (err == nil) != ok || (ok && int(rw) != c01tri(int(rx), int(ry))) || (!ok && rw != 7) {
				c01fail(t, "TrigraphRune(%d,%d) wrote %d err %v", rx, ry, rw, err)
			}
		}
	}
	// nil arguments
	for m := 0; m < 8; m++ {
		b1, b2, b3 := byte('B'), byte('C'), byte('D')
		r1, r2, r3 := rune('B'), rune('C'), rune('D')
		p1, p2, p3, q1, q2, q3 := &b1, &b2, &b3, &r1, &r2, &r3
		if m&1 != 0 {
			p1, q1 = nil, nil
		}
		if m&2 != 0 {
			p2, q2 = nil, nil
		}
		if m&4 != 0 {
			p3, q3 = nil, nil
		}
		c01guard(t, fmt.Sprintf("nil mask %d", m), func() {
			if e := TrigraphByte(p1, p2, p3); (e == nil) != (m == 0) || (m != 0 && b1 != 'B') {
				c01fail(t, "TrigraphByte nil mask %d err %v", m, e)
			}
			if e := TrigraphRune(q1, q2, q3); (e == nil) != (m == 0) || (m != 0 && r1 != 'B') {
				c01fail(t, "TrigraphRune nil mask %d err %v", m, e)
			}
			if m < 4 {
				b1, r1 = 'B', 'B'
				if e := ZeroKeyByte(p1, p2); (e == nil) != (m == 0) || (m != 0 && b1 != 'B') {
					c01fail(t, "ZeroKeyByte nil mask %d err %v", m, e)
				}
				if e := ZeroKeyRune(q1, q2); (e == nil) != (m == 0) || (m != 0 && r1 != 'B') {
					c01fail(t, "ZeroKeyRune nil mask %d err %v", m, e)
				}
			}
		})
	}
	for n := 0; n < 400000; n++ {
		out := make([]byte, rnd.Intn(8), 8+rnd.Intn(3))
		for i := range out {
			out[i] = byte('a' + i)
		}
		key := make([]byte, rnd.Intn(6))
		for i := range key {
			key[i] = byte('A' + rnd.Intn(26))
			if rnd.Intn(12) == 0 {
				key[i] = byte(rnd.Intn(256))
			}
		}
		c := byte('A' + rnd.Intn(26))
		if rnd.Intn(5) == 0 {
			c = byte(rnd.Intn(256))
		}
		idx := rnd.Intn(8) - 1
		if rnd.Intn(40) == 0 {
			idx = []int{-1 << 63, 1<<63 - 1, 1 << 32, -1 << 32}[rnd.Intn(4)]
		}
		pout, pc, pk, pi := &out, &c, &key, &idx
		nils := 0
		if rnd.Intn(10) == 0 {
			nils = rnd.Intn(16)
			if nils&1 != 0 {
				pout = nil
			}
			if nils&2 != 0 {
				pc = nil
			}
			if nils&4 != 0 {
				pk = nil
			}
			if nils&8 != 0 {
				pi = nil
			}
		}
		o0, i0, k0, c0 := append([]byte{}, out...), idx, append([]byte{}, key...), c
		desc := fmt.Sprintf("AppendTrigraphByteByKey(out=%q, c=%d, key=%q, idx=%d, nilmask=%d)", o0, c0, k0, i0, nils)
		var err error
		c01guard(t, desc, func() { err = AppendTrigraphByteByKey(pout, pc, pk, pi) })
		if string(k0) != string(key) || c0 != c {
			c01fail(t, "%s changed its inputs", desc)
		}
		if err != nil {
			if string(o0) != string(out) || i0 != idx {
				c01fail(t, "%s err %v changed output %q or index %d", desc, err, out, idx)
			}
			continue
		}
		if nils != 0 || i0 < 0 || i0 >= len(k0) || !c01up(int(c0)) || !c01up(int(k0[i0])) {
			c01fail(t, "%s succeeded", desc)
		}
		if idx != i0+1 || len(out) != len(o0)+1 || string(out[:len(o0)]) != string(o0) || int(out[len(o0)]) != c01tri(int(c0), int(k0[i0])) {
			c01fail(t, "%s gave %q index %d", desc, out, idx)
		}
	}
}
