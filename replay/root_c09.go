package krypto431

import (
	cryptoRand "crypto/rand"
	"encoding/binary"
	"io"
	"math/rand"
	"strings"
	"testing"
	"time"
)

// c09src is a deterministic stand-in for the operating system's generator.
type c09src struct {
	s    uint64
	read int
}

func (s *c09src) Read(p []byte) (int, error) {
	s.read += len(p)
	var w [8]byte
	for i := range p {
		if i%8 == 0 {
			s.s += 0x9e3779b97f4a7c15
			z := s.s
			z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			binary.LittleEndian.PutUint64(w[:], z^z>>31)
		}
		p[i] = w[i%8]
	}
	return len(p), nil
}

func c09with(src io.Reader, f func()) {
	old := cryptoRand.Reader
	cryptoRand.Reader = src
	defer func() { cryptoRand.Reader = old }()
	f()
}

func c09chi(n [26]int) float64 {
	t := 0
	for _, v := range n {
		t += v
	}
	e, x := float64(t)/26, 0.0
	for _, v := range n {
		x += (float64(v) - e) * (float64(v) - e) / e
	}
	return x
}

func TestReplayC09(t *testing.T) {
	defer vSilence()()
	var freq, prev, gap, ids [26]int
	letters := 0
	vRounds(0.8, 1<<30, func(r *rand.Rand, round int) {
		g, l := 1+r.Intn(7), r.Intn(60)
		if round%50 == 0 {
			l = 400 + r.Intn(300)
		}
		if round%7 == 0 {
			l = g * r.Intn(9)
		}
		own := []string{"ME", "me", "Sa6Mwa", "", "Å1"}[r.Intn(5)]
		k := New(WithCallSign(own), WithGroupSize(g), WithKeyLength(l))
		k.CallSign = []rune(own)
		k.GroupSize, k.KeyLength = g, l
		k.Keys = nil
		for _, id := range vUniqueIds(r, r.Intn(4), g) {
			key := Key{Id: id, Runes: vRunes(r, vAZ, r.Intn(9)), Comment: []rune("c"), Keepers: vList(r, "AB", 3, 2), Used: r.Intn(2) == 0, Compromised: r.Intn(2) == 0, instance: &k}
			key.Created.Time, key.Expires.Time = time.Unix(int64(r.Intn(1000)), 0), time.Unix(int64(r.Intn(100000)), 0)
			k.Keys = append(k.Keys, key)
		}
		words := []string{"AA", "bb", "Cc,dd", "me", "ME", "x y", " , ", "", "sa6mwa", "å1", "AA,me", "bb BB"}
		var keepers []string
		for n := r.Intn(5); n > 0; n-- {
			keepers = append(keepers, words[r.Intn(len(words))])
		}
		n := r.Intn(4)
		if g == 1 && n+len(k.Keys) > 20 {
			return
		}
		if r.Intn(20) == 0 {
			n = -1
		}
		seed := r.Uint64()
		base := append([]Key{}, k.Keys...)
		before := vSnap(&k)
		var expire *string
		switch r.Intn(6) {
		case 0:
			s := "012345ZJAN30"
			expire = &s
		case 1:
			s := "nonsense"
			expire = &s
		}
		src := &c09src{s: seed}
		var err error
		c09with(src, func() { err = k.GenerateKeys(n, expire, keepers...) })
		after := vSnap(&k)
		if len(after) < len(before) {
			vFail(t, "GenerateKeys(%d, keepers %q) on %d keys (group size %d, key length %d) leaves %d keys", n, keepers, len(before), g, l, len(after))
		}
		for i := range before {
			if before[i] != after[i] {
				vFail(t, "GenerateKeys(%d) changed key %d from %+v to %+v", n, i, before[i], after[i])
			}
		}
		if err != nil {
			if expire == nil || len(after) != len(before) {
				vFail(t, "GenerateKeys(%d, expire set %v) failed with %v and %d keys went to %d", n, expire != nil, err, len(before), len(after))
			}
			return
		}
		want := n
		if n < 0 {
			want = 0
		}
		if len(after)-len(before) != want {
			vFail(t, "GenerateKeys(%d) added %d keys", n, len(after)-len(before))
		}
		size := (l + g - 1) / g * g
		drawn := 0
		for i := len(before); i < len(k.Keys); i++ {
			x := &k.Keys[i]
			if len(x.Id) != g || len(x.Runes) != size {
				vFail(t, "new key with group size %d and key length %d has an id of %d and %d letters", g, l, len(x.Id), len(x.Runes))
			}
			if x.Used || x.Compromised || x.GetInstance() != &k {
				vFail(t, "new key %q is used %v, compromised %v, of the instance %v", string(x.Id), x.Used, x.Compromised, x.GetInstance() == &k)
			}
			for j := 0; j < i; j++ {
				if strings.EqualFold(string(k.Keys[j].Id), string(x.Id)) {
					vFail(t, "keys %d and %d have the same id %q (group size %d)", j, i, string(x.Id), g)
				}
				if len(x.Runes) > 0 && len(k.Keys[j].Runes) > 0 && &x.Runes[0] == &k.Keys[j].Runes[0] || len(x.Id) > 0 && &x.Id[0] == &k.Keys[j].Id[0] {
					vFail(t, "keys %d and %d share letters", j, i)
				}
			}
			for j, c := range x.Id {
				if c < 'A' || c > 'Z' {
					vFail(t, "id of a new key is %q", string(x.Id))
				}
				if g >= 4 { // short ids are drawn until they are new, which is not uniform
					ids[c-'A']++
				}
				_ = j
			}
			for j, c := range x.Runes {
				if c < 'A' || c > 'Z' {
					vFail(t, "letter %d of a new key is %q", j, c)
				}
				freq[c-'A']++
				letters++
				if j > 0 {
					prev[(c-x.Runes[j-1]+26)%26]++
				}
				if d := 1 + r.Intn(len(x.Runes)); j >= d {
					gap[(c-x.Runes[j-d]+26)%26]++
				}
			}
			drawn += g + size
			var names []string
			for _, s := range keepers {
				for _, w := range strings.FieldsFunc(s, func(c rune) bool { return c == ',' || c == ' ' }) {
					names = append(names, strings.ToUpper(w))
				}
			}
			for _, w := range names {
				found := false
				for _, h := range x.Keepers {
					found = found || string(h) == w
				}
				if own := strings.EqualFold(w, own); own == found {
					vFail(t, "NewKey for %q at station %q: keepers %s", keepers, string(k.CallSign), vStrs(x.Keepers))
				}
			}
			for _, h := range x.Keepers {
				found := false
				for _, w := range names {
					found = found || string(h) == w
				}
				if !found {
					vFail(t, "NewKey for %q at station %q: keepers %s", keepers, string(k.CallSign), vStrs(x.Keepers))
				}
			}
		}
		if float64(src.read)*8 < 4.7*float64(drawn) {
			vFail(t, "%d letters were made from %d bytes of the cryptographic source", drawn, src.read)
		}
		// everything random comes from the source: the same source output gives the same keys
		first := append([]Key{}, k.Keys...)
		k.Keys = append([]Key{}, base...)
		c09with(&c09src{s: seed}, func() { k.GenerateKeys(n, expire, keepers...) })
		for i := range first {
			if i >= len(k.Keys) || !vEq(first[i].Runes, k.Keys[i].Runes) || !vEq(first[i].Id, k.Keys[i].Id) {
				vFail(t, "GenerateKeys(%d) gives different keys for the same output of the cryptographic source", n)
			}
		}
		// an id that is there already is not taken again, whatever its case
		if n > 0 && g > 1 {
			id := vCopy(first[len(base)].Id)
			if r.Intn(2) == 0 {
				id = []rune(strings.ToLower(string(id)))
			}
			k.Keys = append(append([]Key{}, base...), Key{Id: id, instance: &k})
			if r.Intn(2) == 0 {
				k.Keys[0], k.Keys[len(k.Keys)-1] = k.Keys[len(k.Keys)-1], k.Keys[0]
			}
			m := len(k.Keys)
			c09with(&c09src{s: seed}, func() { k.NewKey(time.Now(), keepers...) })
			for i := 0; i < m; i++ {
				if strings.EqualFold(string(k.Keys[i].Id), string(k.Keys[m].Id)) {
					vFail(t, "a store with key %q gets a new key %q", string(k.Keys[i].Id), string(k.Keys[m].Id))
				}
			}
		}
	})
	for _, s := range []struct {
		what string
		n    [26]int
	}{{"letters", freq}, {"steps between neighbouring letters", prev}, {"steps between letters further apart", gap}, {"letters of the ids", ids}} {
		if x := c09chi(s.n); letters > 20000 && x > 140 {
			vFail(t, "of %d letters, the %s are not uniform: chi square %.0f with 25 degrees of freedom, counts %v", letters, s.what, x, s.n)
		}
	}
}
