package krypto431

import (
	"math/rand"
	"strings"
	"time"
)

const (
	vPrimary   = "ABCDEFGHIJKLMNOP RSTUVWXY"
	vSecondary = "0123456789?-ÅÄÖ.Q,Z:+/"
	vSupported = vPrimary + vSecondary + "abcdefghijklmnopqrstuvwxyzåäö"
	vOdd       = "ſıKÅ¤*=_!ßéÉ\x00\n\u00a0ÿøΣς\uffff"
)

// vStoreOpt describes a random key store.
type vStoreOpt struct {
	g, keys        int
	minLen, maxLen int
	allUsable      bool // every key unused, not compromised, of the group size, kept by everyone
}

func vNewStore(r *rand.Rand, o vStoreOpt) *Krypto431 {
	k := New(WithCallSign("ME"), WithGroupSize(o.g), WithKeyLength(o.maxLen))
	calls := []string{"AA", "BB", "CC", "aa"}
	ids := vUniqueIds(r, o.keys, o.g)
	k.Keys = make([]Key, 0, len(ids))
	now := time.Now()
	for i := range ids {
		key := Key{Id: ids[i], Runes: vRunes(r, vAZ, o.minLen+r.Intn(o.maxLen-o.minLen+1)), Comment: vRunes(r, "ab c", r.Intn(4)), instance: &k}
		key.Created.Time, key.Expires.Time = now, now.Add(time.Duration(r.Intn(100)-50)*time.Hour)
		if !o.allUsable {
			key.Used, key.Compromised = r.Intn(4) == 0, r.Intn(5) == 0
			if r.Intn(12) == 0 {
				key.Id = append(key.Id, 'A')
			}
			for _, c := range calls {
				if r.Intn(3) > 0 {
					key.Keepers = append(key.Keepers, []rune(c))
				}
			}
			if r.Intn(3) == 0 {
				key.Keepers = nil
			}
		} else {
			for _, c := range calls {
				key.Keepers = append(key.Keepers, []rune(c))
			}
		}
		k.Keys = append(k.Keys, key)
	}
	return &k
}

// vTwin is another store that holds the same keys (nothing shared), none marked used.
func vTwin(k *Krypto431) *Krypto431 {
	n := New(WithCallSign("YOU"), WithGroupSize(k.GroupSize), WithKeyLength(k.KeyLength))
	n.Keys = nil
	for i := range k.Keys {
		n.Keys = append(n.Keys, Key{Id: vCopy(k.Keys[i].Id), Runes: vCopy(k.Keys[i].Runes)})
	}
	for i := range n.Keys {
		n.Keys[i].instance = &n
	}
	return &n
}

// vFindId is the index of the first key with the id, -1 if none.
func vFindId(k *Krypto431, id []rune) int {
	s := strings.ToUpper(strings.TrimSpace(string(id)))
	for i := range k.Keys {
		if string(k.Keys[i].Id) == s {
			return i
		}
	}
	return -1
}

// vDecode follows the cipher's definition: plain text, indices of the keys in order, how many letters
// each key enciphered; ok is false when the traffic cannot be deciphered with the store.
func vDecode(k *Krypto431, id, ct []rune) (plain []rune, keys, lens []int, ok bool) {
	if len(id) != k.GroupSize || len(ct) < k.GroupSize {
		return nil, nil, nil, false
	}
	cur := vFindId(k, id)
	if cur < 0 {
		return nil, nil, nil, false
	}
	keys, lens = []int{cur}, []int{0}
	tabs := [][]rune{[]rune(vPrimary), []rune(vSecondary)}
	table, shift, change, binary := 0, false, false, false
	var next []rune
	for _, c := range ct {
		n := lens[len(lens)-1]
		if c < 'A' || c > 'Z' || n >= len(k.Keys[cur].Runes) {
			return nil, nil, nil, false
		}
		kl := k.Keys[cur].Runes[n]
		if kl < 'A' || kl > 'Z' {
			return nil, nil, nil, false
		}
		lens[len(lens)-1]++
		e := 'A' + ((25-(c-'A')-(kl-'A'))%26+26)%26
		if binary {
			return nil, nil, nil, false
		}
		if change {
			next = append(next, e)
			if len(next) == k.GroupSize {
				cur = vFindId(k, next)
				if cur < 0 {
					return nil, nil, nil, false
				}
				keys, lens = append(keys, cur), append(lens, 0)
				next, table, shift, change = nil, 0, false, false
			}
			continue
		}
		i := int(e - 'A')
		if i < len(tabs[table]) {
			p := tabs[table][i]
			if shift {
				p = []rune(strings.ToLower(string(p)))[0]
			}
			plain = append(plain, p)
			continue
		}
		switch {
		case e == 'Z':
			table = 1 - table
		case e == 'X':
			shift = !shift
		case e == 'Y':
			change = true
		case e == 'W': // binary mode: nothing can follow it
			binary = true
		default:
			return nil, nil, nil, false
		}
	}
	return plain, keys, lens, true
}

func vHasAll(keepers, want [][]rune) bool {
	for i := range want {
		f := false
		for j := range keepers {
			f = f || vEq(keepers[j], want[i])
		}
		if !f {
			return false
		}
	}
	return true
}

// vSuits: the key may be chosen for the recipients.
func vSuits(k *Krypto431, key *Key, rec [][]rune) bool {
	if key.Used || key.Compromised || len(key.Id) != k.GroupSize {
		return false
	}
	if len(rec) == 0 {
		return len(key.Keepers) == 0
	}
	return vHasAll(key.Keepers, rec)
}

func vText(r *rand.Rand, n int, odd int) []rune {
	var out []rune
	for len(out) < n {
		switch r.Intn(8) {
		case 0:
			out = append(out, vRunes(r, "abcxyzåäö", 1+r.Intn(4))...)
		case 1:
			out = append(out, vRunes(r, vSecondary, 1+r.Intn(4))...)
		case 2:
			out = append(out, vRunes(r, "a1A.zZqQ ", 1+r.Intn(6))...)
		default:
			out = append(out, vRunes(r, vSupported, 1)...)
		}
	}
	out = out[:n]
	if odd > 0 && n > 0 && r.Intn(odd) == 0 {
		out[r.Intn(n)] = vRunes(r, vOdd, 1)[0]
	}
	return out
}

// vCase is a random encipher call: a store, a message, and the key snapshot before the call.
type vCase struct {
	k      *Krypto431
	m      *Message
	text   []rune
	before []vKey
	rec    [][]rune
	setId  bool
}

func vEncCase(r *rand.Rand) vCase {
	g := 1 + r.Intn(6)
	o := vStoreOpt{g: g, keys: r.Intn(14), minLen: r.Intn(30), allUsable: r.Intn(2) == 0}
	o.maxLen = o.minLen + r.Intn(50) + 1
	if o.allUsable {
		o.minLen = g + 6 + r.Intn(3)
		o.maxLen = o.minLen + r.Intn(12)
		o.keys = 1 + r.Intn(24)
	}
	k := vNewStore(r, o)
	c := vCase{k: k, text: vText(r, r.Intn(60), 4)}
	if r.Intn(4) == 0 {
		// very short keys among the others
		for n := 1 + r.Intn(3); n > 0 && len(k.Keys) > 0; n-- {
			x := r.Intn(len(k.Keys))
			k.Keys[x].Runes = k.Keys[x].Runes[:r.Intn(len(k.Keys[x].Runes)/2+1)]
		}
	}
	calls := []string{"AA", "BB", "CC"}
	for _, s := range calls {
		if r.Intn(3) == 0 {
			c.rec = append(c.rec, []rune(s))
		}
	}
	if o.allUsable && len(c.rec) == 0 {
		c.rec = [][]rune{[]rune("AA")}
	}
	c.m = &Message{Id: []rune("test"), Recipients: vCopyList(c.rec), From: []rune("ME"), PlainText: vCopy(c.text), instance: k}
	if r.Intn(3) == 0 && len(k.Keys) > 0 {
		c.setId = true
		c.m.KeyId = vCopy(k.Keys[r.Intn(len(k.Keys))].Id)
		switch r.Intn(9) {
		case 0:
			c.m.KeyId = vRunes(r, vAZ+"a ", r.Intn(8))
		case 1:
			c.m.KeyId = []rune(strings.ToLower(string(c.m.KeyId)))
		case 2:
			c.m.KeyId = append([]rune(" "), c.m.KeyId...)
		}
	}
	if r.Intn(6) == 0 {
		c.m.CipherText = vRunes(r, vAZ, r.Intn(12))
	}
	c.before = vSnap(k)
	return c
}

func (c *vCase) String() string {
	var ks []string
	for _, b := range c.before {
		s := b.id + "/" + b.runes
		if b.used {
			s += " used"
		}
		if b.compromised {
			s += " compromised"
		}
		ks = append(ks, s+" keepers="+b.keepers)
	}
	id := ""
	if c.setId {
		id = " with key id set"
	}
	return "text " + strings.TrimSpace(string(c.text)) + " (" + vStrs([][]rune{c.text}) + ") to " + vStrs(c.rec) + id + " store {" + strings.Join(ks, "; ") + "}"
}
