package krypto431

import (
	cryptoRand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"testing"
)

// a random source that works for n more reads
type c13src struct {
	real io.Reader
	n    int
}

func (s *c13src) Read(p []byte) (int, error) {
	if s.n == 0 {
		n := 0
		if len(p) > 1 { // part of it, then the failure
			n, _ = io.ReadFull(s.real, p[:len(p)/2])
		}
		return n, errors.New("no entropy")
	}
	s.n--
	return io.ReadFull(s.real, p)
}

// c13view remembers a piece of memory and what it held
type c13view struct {
	what  string
	r, r0 []rune
	b, b0 []byte
}

type c13views struct{ v []*c13view }

func (w *c13views) runes(what string, s []rune) {
	w.v = append(w.v, &c13view{what: what, r: s, r0: append([]rune{}, s...)})
}
func (w *c13views) bytes(what string, s []byte) {
	w.v = append(w.v, &c13view{what: what, b: s, b0: append([]byte{}, s...)})
}

// check: no position holds what it held; with the source dead from the beginning every position is zero
func (w *c13views) check(t *testing.T, call string, dead bool) {
	for _, v := range w.v {
		for i := range v.r {
			if v.r[i] == v.r0[i] {
				vFail(t, "%s: element %d of the %s (%d runes) still holds %q", call, i, v.what, len(v.r), v.r0[i])
			}
			if dead && v.r[i] != 0 {
				vFail(t, "%s with a failing random source: element %d of the %s is %d, not zero", call, i, v.what, v.r[i])
			}
		}
		same := 0
		for i := range v.b {
			if v.b[i] == v.b0[i] {
				same++
			}
			if dead && v.b[i] != 0 {
				vFail(t, "%s with a failing random source: byte %d of the %s is %d, not zero", call, i, v.what, v.b[i])
			}
		}
		if len(v.b) <= 8 && same == len(v.b) && same > 4 || len(v.b) > 8 && same > len(v.b)/8+5 {
			vFail(t, "%s: %d of the %d bytes of the %s are unchanged", call, same, len(v.b), v.what)
		}
	}
}

// strikes: in repeated trials of one shape, a byte position that never changes
func c13merge(t *testing.T, call string, trials []*c13views) {
	for n, v := range trials[0].v {
		for i := range v.b {
			kept := 0
			for _, tr := range trials {
				if tr.v[n].b[i] == tr.v[n].b0[i] {
					kept++
				}
			}
			if kept == len(trials) && kept >= 5 {
				vFail(t, "%s: byte %d of the %s (%d bytes) is unchanged in %d trials out of %d", call, i, v.what, len(v.b), kept, len(trials))
			}
		}
	}
}

func c13runes(r *rand.Rand, n int) []rune {
	s := make([]rune, n, n+r.Intn(4))
	for i := range s {
		s[i] = rune('A' + r.Intn(26))
	}
	return s
}

func c13bytes(r *rand.Rand, n int) []byte {
	s := make([]byte, n, n+r.Intn(4))
	for i := range s {
		s[i] = byte(1 + r.Intn(255))
	}
	return s
}

func c13key(r *rand.Rand, w *c13views, tag string) Key {
	k := Key{Id: c13runes(r, r.Intn(7)), Runes: c13runes(r, r.Intn(300)), Comment: c13runes(r, r.Intn(20)), Used: r.Intn(2) == 0, Compromised: r.Intn(2) == 0}
	for i := r.Intn(4); i > 0; i-- {
		k.Keepers = append(k.Keepers, c13runes(r, 1+r.Intn(6)))
	}
	w.runes("id of "+tag, k.Id)
	w.runes("letters of "+tag, k.Runes)
	w.runes("comment of "+tag, k.Comment)
	for i := range k.Keepers {
		w.runes(fmt.Sprintf("keeper %d of %d of %s", i, len(k.Keepers), tag), k.Keepers[i])
	}
	return k
}

func c13keyGone(t *testing.T, call string, k *Key) {
	if k.Id != nil || k.Runes != nil || k.Comment != nil {
		vFail(t, "%s leaves a reference: id %v letters %v comment %v", call, k.Id, k.Runes, k.Comment)
	}
	for i := range k.Keepers {
		if k.Keepers[i] != nil {
			vFail(t, "%s leaves keeper %d referenced", call, i)
		}
	}
}

func c13msg(r *rand.Rand, w *c13views, tag string) Message {
	m := Message{PlainText: c13runes(r, r.Intn(90)), Binary: c13bytes(r, r.Intn(60)), CipherText: c13runes(r, r.Intn(90)), Radiogram: c13runes(r, r.Intn(90)), KeyId: c13runes(r, r.Intn(7)), Id: c13runes(r, 3)}
	w.runes("plaintext of "+tag, m.PlainText)
	w.bytes("binary of "+tag, m.Binary)
	w.runes("ciphertext of "+tag, m.CipherText)
	w.runes("radiogram of "+tag, m.Radiogram)
	w.runes("key id of "+tag, m.KeyId)
	return m
}

func c13msgGone(t *testing.T, call string, m *Message) {
	if m.PlainText != nil || m.Binary != nil || m.CipherText != nil || m.Radiogram != nil || m.KeyId != nil {
		vFail(t, "%s leaves a reference in the message: %v %v %v %v %v", call, m.PlainText, m.Binary, m.CipherText, m.Radiogram, m.KeyId)
	}
}

// one trial with the given shape seed
func c13trial(t *testing.T, seed int64) *c13views {
	r := rand.New(rand.NewSource(seed))
	w := &c13views{}
	dead, budget := r.Intn(4) == 0, -1
	if dead {
		budget = 0
	} else if r.Intn(3) == 0 {
		budget = r.Intn(12)
	}
	real := cryptoRand.Reader
	defer func() { cryptoRand.Reader = real }()
	fail := func() {
		if budget >= 0 {
			cryptoRand.Reader = &c13src{real: real, n: budget}
		}
	}
	call := ""
	switch r.Intn(8) {
	case 0:
		b := c13runes(r, r.Intn(60))
		if len(b) > 4 && r.Intn(3) == 0 { // a slice of a larger array
			b = b[1 : len(b)-2]
		}
		w.runes("slice", b)
		n := len(b)
		f, name := Wipe, "Wipe"
		switch r.Intn(3) {
		case 0:
			f, name = RandomWipe, "RandomWipe"
		case 1:
			f, name, dead = ZeroWipe, "ZeroWipe", true
		}
		call = fmt.Sprintf("%s of %d runes", name, n)
		fail()
		vGuard(t, call, func() {
			if f(nil) == nil {
				vFail(t, "%s(nil) reports no error", name)
			}
			f(&b)
		})
		if b != nil {
			vFail(t, "%s keeps the reference", call)
		}
	case 1:
		b := c13bytes(r, r.Intn(60))
		if len(b) > 4 && r.Intn(3) == 0 {
			b = b[1 : len(b)-2]
		}
		w.bytes("slice", b)
		n := len(b)
		f, name := WipeBytes, "WipeBytes"
		switch r.Intn(3) {
		case 0:
			f, name = RandomWipeBytes, "RandomWipeBytes"
		case 1:
			f, name, dead = ZeroWipeBytes, "ZeroWipeBytes", true
		}
		call = fmt.Sprintf("%s of %d bytes", name, n)
		fail()
		vGuard(t, call, func() {
			if f(nil) == nil {
				vFail(t, "%s(nil) reports no error", name)
			}
			f(&b)
		})
		if b != nil {
			vFail(t, "%s keeps the reference", call)
		}
	case 2, 3:
		k := c13key(r, w, "the key")
		f, name := k.Wipe, "Key.Wipe"
		switch r.Intn(3) {
		case 0:
			f, name = k.RandomWipe, "Key.RandomWipe"
		case 1:
			f, name, dead = k.ZeroWipe, "Key.ZeroWipe", true
		}
		call = fmt.Sprintf("%s (%d letters, %d keepers)", name, len(k.Runes), len(k.Keepers))
		fail()
		vGuard(t, call, func() { f() })
		c13keyGone(t, call, &k)
	case 4, 5:
		m := c13msg(r, w, "the message")
		f, name := m.Wipe, "Message.Wipe"
		switch r.Intn(3) {
		case 0:
			f, name = m.RandomWipe, "Message.RandomWipe"
		case 1:
			f, name, dead = m.ZeroWipe, "Message.ZeroWipe", true
		}
		call = fmt.Sprintf("%s (plaintext %d, binary %d, ciphertext %d, radiogram %d, key id %d)", name, len(m.PlainText), len(m.Binary), len(m.CipherText), len(m.Radiogram), len(m.KeyId))
		fail()
		vGuard(t, call, func() { f() })
		c13msgGone(t, call, &m)
	default:
		pfk, salt := c13bytes(r, 32), c13bytes(r, 32+r.Intn(10))
		w.bytes("persistence key", pfk)
		w.bytes("salt", salt)
		k := New(WithPFK(&pfk), WithSalt(&salt))
		for i := r.Intn(5); i > 0; i-- {
			k.Keys = append(k.Keys, c13key(r, w, fmt.Sprintf("key %d", len(k.Keys))))
		}
		for i := r.Intn(5); i > 0; i-- {
			k.Messages = append(k.Messages, c13msg(r, w, fmt.Sprintf("message %d", len(k.Messages))))
		}
		// items that share their backing storage
		if len(k.Keys) > 1 && r.Intn(3) == 0 {
			k.Keys[0].Runes = k.Keys[1].Runes
		}
		if len(k.Messages) > 0 && len(k.Keys) > 0 && r.Intn(3) == 0 {
			k.Messages[0].KeyId = k.Keys[0].Id
		}
		if len(k.Messages) > 0 && r.Intn(4) == 0 {
			k.Messages[0].CipherText = k.Messages[0].PlainText
		}
		keys, msgs := k.Keys, k.Messages
		f, name := k.Wipe, "Krypto431.Wipe"
		if r.Intn(2) == 0 {
			f, name = k.Close, "Krypto431.Close"
		}
		call = fmt.Sprintf("%s (%d keys, %d messages)", name, len(keys), len(msgs))
		// an aliased original loses its owner: wipe only what the store still holds
		held := map[*rune]bool{}
		mark := func(s []rune) {
			if len(s) > 0 {
				held[&s[0]] = true
			}
		}
		for i := range keys {
			mark(keys[i].Runes)
			mark(keys[i].Id)
			mark(keys[i].Comment)
			for _, kp := range keys[i].Keepers {
				mark(kp)
			}
		}
		for i := range msgs {
			mark(msgs[i].PlainText)
			mark(msgs[i].CipherText)
			mark(msgs[i].Radiogram)
			mark(msgs[i].KeyId)
		}
		for _, v := range w.v {
			if len(v.r) > 0 && !held[&v.r[0]] {
				v.r, v.r0 = nil, nil
			}
		}
		fail()
		vGuard(t, call, func() { f() })
		if k.Keys != nil || k.Messages != nil || pfk != nil || salt != nil {
			vFail(t, "%s leaves references to keys, messages, the persistence key or the salt", call)
		}
		for i := range keys {
			c13keyGone(t, call, &keys[i])
		}
		for i := range msgs {
			c13msgGone(t, call, &msgs[i])
		}
	}
	if budget > 0 {
		call += fmt.Sprintf(", random source failing after %d reads", budget)
	}
	cryptoRand.Reader = real
	w.check(t, call, dead)
	return w
}

func TestReplayC13(t *testing.T) {
	defer vSilence()()
	vRounds(0.9, 20000, func(r *rand.Rand, round int) {
		seed := r.Int63()
		var tr []*c13views
		for i := 0; i < 5; i++ {
			tr = append(tr, c13trial(t, seed))
		}
		c13merge(t, "wiping", tr)
	})
}
