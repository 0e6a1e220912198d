package krypto431

import (
	"math/rand"
	"testing"
	"unicode"
)

func vSupportedText(t []rune) bool {
	for _, c := range t {
		f := false
		for _, s := range vSupported {
			f = f || s == c
		}
		if !f {
			return false
		}
	}
	return true
}

func TestReplayC02(t *testing.T) {
	defer vSilence()()
	// the facts about package unicode that lemma one_character uses, for every rune
	letter := func(c rune) bool { return c >= 'A' && c <= 'Z' || c == 'Å' || c == 'Ä' || c == 'Ö' }
	for c := rune(-1); c <= unicode.MaxRune+1; c++ {
		if unicode.IsUpper(c) && unicode.ToUpper(c) != c {
			vFail(t, "package unicode: upper case %q has another upper case form", c)
		}
	}
	for _, c := range vPrimary + vSecondary {
		l := c
		if letter(c) {
			l = c + 32
			if !unicode.IsLower(l) || unicode.IsUpper(l) || unicode.ToUpper(l) != c {
				vFail(t, "package unicode: case of %q", l)
			}
		}
		if unicode.ToUpper(c) != c || unicode.IsLower(c) || unicode.IsUpper(c) != letter(c) || unicode.ToLower(c) != l {
			vFail(t, "package unicode: case of %q", c)
		}
	}
	vRounds(0.9, 200000, func(r *rand.Rand, round int) {
		c := vEncCase(r)
		vGuard(t, "Encipher of "+c.String(), func() {
			if c.m.Encipher() != nil {
				return
			}
			tw := vTwin(c.k)
			d := &Message{Id: []rune("back"), KeyId: vCopy(c.m.KeyId), CipherText: vCopy(c.m.CipherText), instance: tw}
			if len(d.CipherText) < tw.GroupSize {
				vFail(t, "ciphertext %q shorter than a group: %s", string(d.CipherText), c.String())
			}
			if err := d.Decipher(); err != nil {
				vFail(t, "deciphering %q fails (%v): %s", string(c.m.CipherText), err, c.String())
			}
			if !vEq(d.PlainText, c.text) {
				vFail(t, "deciphers to %q: %s", string(d.PlainText), c.String())
			}
			if round%4 == 0 {
				tw := vTwin(c.k)
				d := &Message{Id: []rune("back"), PlainText: append(vCopy(c.m.KeyId), c.m.CipherText...), instance: tw}
				if err := d.TryDecipherPlainText(); err != nil || !vEq(d.PlainText, c.text) {
					vFail(t, "traffic deciphers to %q (%v): %s", string(d.PlainText), err, c.String())
				}
			}
		})
	})
}

func TestReplayC03(t *testing.T) {
	defer vSilence()()
	vRounds(0.9, 200000, func(r *rand.Rand, round int) {
		c := vEncCase(r)
		vGuard(t, "Encipher of "+c.String(), func() {
			if c.m.Encipher() != nil {
				return
			}
			_, keys, _, ok := vDecode(c.k, c.m.KeyId, c.m.CipherText)
			if !ok {
				vFail(t, "cannot follow the keys of %q: %s", string(c.m.CipherText), c.String())
			}
			seen := map[int]bool{}
			for _, i := range keys {
				if seen[i] {
					vFail(t, "key %s enciphers two parts: %s", string(c.k.Keys[i].Id), c.String())
				}
				seen[i] = true
				if c.before[i].used || c.before[i].compromised {
					vFail(t, "key %s was used or compromised before: %s", string(c.k.Keys[i].Id), c.String())
				}
				if !c.k.Keys[i].Used {
					vFail(t, "key %s is not marked used: %s", string(c.k.Keys[i].Id), c.String())
				}
			}
			for i := range c.k.Keys {
				if c.before[i].used && !c.k.Keys[i].Used {
					vFail(t, "key %s lost its used mark: %s", string(c.k.Keys[i].Id), c.String())
				}
			}
		})
	})
}

func TestReplayC04(t *testing.T) {
	defer vSilence()()
	vRounds(0.9, 200000, func(r *rand.Rand, round int) {
		c := vEncCase(r)
		ct := vCopy(c.m.CipherText)
		vGuard(t, "Encipher of "+c.String(), func() {
			if c.m.Encipher() == nil {
				return
			}
			now := vSnap(c.k)
			for i := range now {
				if i >= len(c.before) || now[i] != c.before[i] {
					vFail(t, "failed Encipher changes key %s (now %+v): %s", string(c.k.Keys[i].Id), now[i], c.String())
				}
			}
			if len(now) != len(c.before) {
				vFail(t, "failed Encipher changes the number of keys: %s", c.String())
			}
			if len(c.m.CipherText) != 0 && !vEq(c.m.CipherText, ct) {
				vFail(t, "failed Encipher leaves ciphertext %q: %s", string(c.m.CipherText), c.String())
			}
		})
	})
}

func TestReplayC05(t *testing.T) {
	defer vSilence()()
	vRounds(0.9, 200000, func(r *rand.Rand, round int) {
		c := vEncCase(r)
		vGuard(t, "FindKey for "+c.String(), func() {
			want := -1
			for i := range c.k.Keys {
				if vSuits(c.k, &c.k.Keys[i], c.rec) {
					want = i
					break
				}
			}
			got := c.k.FindKey(c.rec...)
			if (got == nil) != (want < 0) || got != nil && got != &c.k.Keys[want] {
				vFail(t, "FindKey returns %v, expected index %d: %s", got, want, c.String())
			}
			now := vSnap(c.k)
			for i := range now {
				if now[i] != c.before[i] {
					vFail(t, "FindKey changes key %s: %s", string(c.k.Keys[i].Id), c.String())
				}
			}
			if c.m.Encipher() != nil {
				return
			}
			_, keys, _, ok := vDecode(c.k, c.m.KeyId, c.m.CipherText)
			if !ok {
				return
			}
			for n, i := range keys {
				if n == 0 && c.setId {
					continue
				}
				k := c.k.Keys[i]
				k.Used = c.before[i].used
				if !vSuits(c.k, &k, c.rec) {
					vFail(t, "Encipher selects key %s which does not suit the recipients: %s", string(k.Id), c.String())
				}
			}
			if !c.setId && keys[0] != want {
				vFail(t, "Encipher selects key %s, the first suitable key is %s: %s", string(c.k.Keys[keys[0]].Id), string(c.k.Keys[want].Id), c.String())
			}
		})
	})
}

func TestReplayC06(t *testing.T) {
	defer vSilence()()
	vRounds(0.9, 200000, func(r *rand.Rand, round int) {
		c := vEncCase(r)
		vGuard(t, "Encipher of "+c.String(), func() {
			if c.m.Encipher() != nil {
				return
			}
			for _, x := range c.m.CipherText {
				if x < 'A' || x > 'Z' {
					vFail(t, "ciphertext %q: %s", string(c.m.CipherText), c.String())
				}
			}
			if len(c.m.CipherText)%c.k.GroupSize != 0 {
				vFail(t, "ciphertext %q does not fill groups of %d: %s", string(c.m.CipherText), c.k.GroupSize, c.String())
			}
			_, keys, lens, ok := vDecode(c.k, c.m.KeyId, c.m.CipherText)
			if !ok {
				vFail(t, "ciphertext %q does not follow its keys: %s", string(c.m.CipherText), c.String())
			}
			for n := range keys {
				if lens[n] > len(c.k.Keys[keys[n]].Runes) {
					vFail(t, "part %d is longer than its key: %s", n, c.String())
				}
			}
		})
	})
}

func TestReplayC07(t *testing.T) {
	defer vSilence()()
	vRounds(0.9, 200000, func(r *rand.Rand, round int) {
		if round%2 == 0 {
			c := vEncCase(r)
			vGuard(t, "Encipher of "+c.String(), func() {
				err := c.m.Encipher()
				if err == nil && !vSupportedText(c.text) {
					vFail(t, "text that cannot be represented is accepted: %s", c.String())
				}
				if err == nil && len(c.m.CipherText) == 0 {
					vFail(t, "succeeds without ciphertext: %s", c.String())
				}
				if err == nil {
					if p, _, _, ok := vDecode(c.k, c.m.KeyId, c.m.CipherText); ok && !vEq(p, c.text) {
						vFail(t, "silently enciphers %q: %s", string(p), c.String())
					}
				}
			})
			return
		}
		g := 1 + r.Intn(6)
		n := 1 + r.Intn(24)
		if g == 1 && n > 20 {
			n = 20
		}
		min := g + ControlCharactersNeededToChangeKey + MaximumEncodedCharacterLength
		k := vNewStore(r, vStoreOpt{g: g, keys: n + 1, minLen: min, maxLen: min + r.Intn(6), allUsable: true})
		c := vCase{k: k, text: vText(r, n, 0), rec: [][]rune{[]rune("AA")}, before: vSnap(k)}
		c.m = &Message{Id: []rune("test"), Recipients: vCopyList(c.rec), PlainText: vCopy(c.text), instance: k}
		if r.Intn(3) == 0 {
			c.setId = true
			c.m.KeyId = vCopy(k.Keys[r.Intn(len(k.Keys))].Id)
		}
		vGuard(t, "Encipher of "+c.String(), func() {
			if err := c.m.Encipher(); err != nil {
				vFail(t, "Encipher fails (%v) although the text is supported and keys suffice: %s", err, c.String())
			}
		})
	})
}

func TestReplayC08(t *testing.T) {
	defer vSilence()()
	vRounds(0.9, 200000, func(r *rand.Rand, round int) {
		c := vEncCase(r)
		if r.Intn(2) == 0 {
			vGuard(t, "Encipher of "+c.String(), func() {
				if c.m.Encipher() != nil {
					c.m.KeyId, c.m.CipherText = nil, nil
				}
			})
		}
		k := c.k
		id, ct := c.m.KeyId, c.m.CipherText
		if len(ct) == 0 || r.Intn(4) == 0 {
			ct = vRunes(r, vAZ+"XYZYZ", r.Intn(40))
			if len(k.Keys) > 0 {
				id = vCopy(k.Keys[r.Intn(len(k.Keys))].Id)
			} else {
				id = vRunes(r, vAZ, r.Intn(7))
			}
		}
		switch r.Intn(5) {
		case 0:
			if len(ct) > 0 {
				ct[r.Intn(len(ct))] = vRunes(r, vAZ+"a1 é\x00", 1)[0]
			}
		case 1:
			ct = ct[:r.Intn(len(ct)+1)]
		case 2:
			ct = append(ct, vRunes(r, vAZ, 1+r.Intn(20))...)
		}
		if len(k.Keys) > 0 {
			x := r.Intn(len(k.Keys))
			switch r.Intn(8) {
			case 0:
				k.Keys[x].Runes = k.Keys[x].Runes[:r.Intn(len(k.Keys[x].Runes)+1)]
			case 1:
				if len(k.Keys[x].Runes) > 0 {
					k.Keys[x].Runes[r.Intn(len(k.Keys[x].Runes))] = 'é'
				}
			case 2:
				k.Keys = append(k.Keys[:x], k.Keys[x+1:]...)
			}
		}
		for i := range k.Keys {
			k.Keys[i].Used = r.Intn(2) == 0
		}
		before := vSnap(k)
		wantPlain, keys, _, wantOk := vDecode(k, id, ct)
		check := func(what string, err error, plain []rune) {
			if (err == nil) != wantOk {
				vFail(t, "%s: error %v, expected success=%v", what, err, wantOk)
			}
			now := vSnap(k)
			if len(now) != len(before) {
				vFail(t, "%s changes the number of keys", what)
			}
			used := map[int]bool{}
			if err == nil {
				if !vEq(plain, wantPlain) {
					vFail(t, "%s gives %q, expected %q", what, string(plain), string(wantPlain))
				}
				for _, i := range keys {
					used[i] = true
				}
			}
			for i := range now {
				b := before[i]
				b.used = b.used || used[i]
				if now[i] != b {
					vFail(t, "%s: key %s used=%v (was %v), message keys %v", what, now[i].id, now[i].used, before[i].used, keys)
				}
			}
		}
		vc := vCase{text: ct, before: before}
		desc := "Decipher of " + string(ct) + " with key id " + string(id) + vc.String()
		if r.Intn(2) == 0 {
			m := &Message{Id: []rune("test"), KeyId: vCopy(id), CipherText: vCopy(ct), PlainText: []rune("old"), instance: k}
			vGuard(t, desc, func() { err := m.Decipher(); check(desc, err, m.PlainText) })
			return
		}
		// as received text
		text := append(vCopy(id), ct...)
		if r.Intn(3) == 0 {
			for i := 0; i < 3; i++ {
				x := r.Intn(len(text) + 1)
				text = append(text[:x:x], append([]rune{[]rune(" \n=\t")[r.Intn(4)]}, text[x:]...)...)
			}
		}
		var flat []rune
		bad := false
		for _, c := range text {
			if c == ' ' || c == '\n' || c == '\t' || c == '=' {
				continue
			}
			if c >= 'a' && c <= 'z' {
				c -= 32
			}
			bad = bad || c < 'A' || c > 'Z'
			flat = append(flat, c)
		}
		g := k.GroupSize
		desc = "TryDecipherPlainText of " + vStrs([][]rune{text}) + vc.String()
		wantOk = false
		if !bad && len(flat) >= 2*g {
			wantPlain, keys, _, wantOk = vDecode(k, flat[:g], flat[g:])
		}
		m := &Message{Id: []rune("test"), PlainText: vCopy(text), CipherText: vRunes(r, vAZ, r.Intn(3)), instance: k}
		if r.Intn(10) == 0 {
			m.KeyId = []rune("XXXXX")
			wantOk = false
		}
		s := vSnapMsg(m)
		vGuard(t, desc, func() {
			if r.Intn(3) == 0 {
				m.TryDecipherPlainText(true)
				if vSnapMsg(m) != s {
					vFail(t, "dry run changes the message to %s: %s", vSnapMsg(m), desc)
				}
				for i, b := range vSnap(k) {
					if b != before[i] {
						vFail(t, "dry run changes key %s: %s", b.id, desc)
					}
				}
			}
			err := m.TryDecipherPlainText()
			check(desc, err, m.PlainText)
			if err != nil && vSnapMsg(m) != s {
				vFail(t, "failing call changes the message from %s to %s: %s", s, vSnapMsg(m), desc)
			}
			if err == nil && !(vEq(m.KeyId, flat[:g]) && vEq(m.CipherText, flat[g:])) {
				vFail(t, "succeeds with key id %q ciphertext %q: %s", string(m.KeyId), string(m.CipherText), desc)
			}
		})
	})
}
