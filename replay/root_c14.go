package krypto431

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"math/rand"
	"strings"
	"testing"
)

// c14derive is PBKDF2-HMAC-SHA256 with 310000 iterations for one block of 32 bytes, written out.
func c14derive(password, salt []byte) []byte {
	h := hmac.New(sha256.New, password)
	h.Write(salt)
	h.Write([]byte{0, 0, 0, 1})
	u := h.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < 310000; i++ {
		h.Reset()
		h.Write(u)
		u = h.Sum(u[:0])
		for j := range out {
			out[j] ^= u[j]
		}
	}
	return out
}

func c14bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

func c14deref(p *[]byte) []byte {
	if p == nil {
		return nil
	}
	return append([]byte{}, *p...)
}

func c14hex(r *rand.Rand, n int) string {
	s := hex.EncodeToString(c14bytes(r, n))
	switch r.Intn(6) {
	case 0:
		return s + "a"
	case 1:
		return "g" + s
	case 2:
		return strings.ToUpper(s)
	}
	return s
}

func TestReplayC14(t *testing.T) {
	defer vSilence()()
	lens := []int{0, 1, 16, 31, 32, 33, 40, 64}
	vRounds(0.9, 100000, func(r *rand.Rand, round int) {
		k := New(WithCallSign("ME"))
		var key, salt []byte
		if r.Intn(3) > 0 {
			key = c14bytes(r, 32)
			k.persistenceKey = &[]byte{}
			*k.persistenceKey = append([]byte{}, key...)
		} else {
			k.persistenceKey = nil
		}
		n := lens[r.Intn(len(lens))]
		salt = c14bytes(r, n)
		s := append([]byte{}, salt...)
		k.salt = &s
		nosalt := r.Intn(8) == 0
		if nosalt {
			k.salt = nil
			salt = nil
		}
		same := func(what string) {
			if !bytes.Equal(c14deref(k.persistenceKey), key) || !bytes.Equal(c14deref(k.salt), salt) || (k.salt == nil) != nosalt {
				vFail(t, "%s changed the key or the salt (key %x to %x, salt %x to %x)", what, key, c14deref(k.persistenceKey), salt, c14deref(k.salt))
			}
		}
		op := r.Intn(10)
		if round < 10 {
			op = round
		}
		switch op {
		case 0, 1, 2:
			var pw []byte
			strong := r.Intn(2) == 0
			if strong {
				pw = []byte("q8!Zr#vT0pLw%Ks7-Mx&" + string(vRunes(r, vAZ, r.Intn(20))))
			} else {
				pw = vAscii(r, 1+r.Intn(3))
			}
			edge := []string{"", "\n", " ", "\r\n", "\x00", "\xff\xfe", "Å", "\t"}
			pw = append(pw, edge[r.Intn(len(edge))]...)
			if r.Intn(4) == 0 {
				pw = append([]byte(edge[r.Intn(len(edge))]), pw...)
			}
			orig := append([]byte{}, pw...)
			mem := pw[:len(pw):len(pw)]
			want := !nosalt && n >= 32
			var err error
			what := "DerivePFKFromPassword"
			vGuard(t, what, func() {
				switch op {
				case 0:
					err = k.DerivePFKFromPassword(&pw)
				case 1:
					what = "DerivePFKFromPasswordWithValidation"
					want = want && strong
					err = k.DerivePFKFromPasswordWithValidation(&pw)
				default:
					what = "SetPFKFromPassword"
					err = k.SetPFKFromPassword(string(pw))
				}
			})
			if (err == nil) != want {
				vFail(t, "%s with password %q and a salt of %d bytes (no salt: %v) gives error %v", what, orig, n, nosalt, err)
			}
			if err != nil {
				same(what + ", which failed,")
			} else if got := c14deref(k.persistenceKey); !bytes.Equal(got, c14derive(orig, salt)) {
				vFail(t, "%s with password %q and salt %x gives the key %x, PBKDF2 gives %x", what, orig, salt, got, c14derive(orig, salt))
			} else if !bytes.Equal(c14deref(k.salt), salt) {
				vFail(t, "%s changed the salt", what)
			}
			if op < 2 {
				if pw != nil {
					vFail(t, "%s leaves the password %q (error %v)", what, pw, err)
				}
				if len(orig) >= 5 && bytes.Equal(mem, orig) {
					vFail(t, "%s leaves the password %q in its buffer (error %v)", what, orig, err)
				}
			}
		case 3:
			var e1, e2 error
			vGuard(t, "deriving from nil", func() {
				e1 = k.DerivePFKFromPassword(nil)
				e2 = k.DerivePFKFromPasswordWithValidation(nil)
			})
			if e1 == nil || e2 == nil {
				vFail(t, "deriving from no password gives errors %v and %v", e1, e2)
			}
			same("deriving from no password")
		case 4, 5:
			h := c14hex(r, lens[r.Intn(len(lens))])
			b, bad := hex.DecodeString(h)
			var err error
			vGuard(t, "SetPFKFromString", func() { err = k.SetPFKFromString(h) })
			if (err == nil) != (bad == nil && len(b) == 32) {
				vFail(t, "SetPFKFromString(%q) gives error %v", h, err)
			}
			if err == nil {
				key = b
			}
			same("SetPFKFromString(" + h + ")")
		case 6, 7:
			h := c14hex(r, lens[r.Intn(len(lens))])
			b, bad := hex.DecodeString(h)
			var err error
			vGuard(t, "SetSaltFromString", func() { err = k.SetSaltFromString(h) })
			if (err == nil) != (bad == nil && len(b) >= 32) {
				vFail(t, "SetSaltFromString(%q) gives error %v", h, err)
			}
			if err == nil {
				salt, nosalt = b, false
			}
			same("SetSaltFromString(" + h + ")")
		case 8:
			h := c14hex(r, lens[r.Intn(len(lens))])
			b, bad := hex.DecodeString(h)
			if r.Intn(2) == 0 {
				vGuard(t, "WithPFKString", func() { WithPFKString(h)(&k) })
				if key = b; bad != nil || len(b) != 32 {
					key = nil
				}
				if (k.persistenceKey != nil) != (key != nil) {
					vFail(t, "WithPFKString(%q) leaves a key: %v", h, k.persistenceKey != nil)
				}
			} else {
				vGuard(t, "WithSaltString", func() { WithSaltString(h)(&k) })
				salt, nosalt = b, false
				if bad != nil || len(b) < 32 {
					salt, nosalt = nil, true
				}
			}
			same("the option with " + h)
		default:
			b := c14bytes(r, lens[r.Intn(len(lens))])
			p := &b
			if r.Intn(6) == 0 {
				p = nil
			}
			if r.Intn(2) == 0 {
				vGuard(t, "WithPFK", func() { WithPFK(p)(&k) })
				if key = c14deref(p); len(key) != 32 {
					key = nil
				}
				if (k.persistenceKey != nil) != (key != nil) {
					vFail(t, "WithPFK with %d bytes leaves a key: %v", len(b), k.persistenceKey != nil)
				}
			} else {
				vGuard(t, "WithSalt", func() { WithSalt(p)(&k) })
				salt, nosalt = c14deref(p), false
				if len(salt) < 32 {
					salt, nosalt = nil, true
				}
			}
			same("the option")
		}
	})
}

func vAscii(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return b
}
