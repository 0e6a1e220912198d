package krypto431

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

func c11state(k *Krypto431) string {
	s := fmt.Sprintf("g=%d l=%d c=%d kc=%d cs=%q inter=%v over=%v overkeys=%v file=%q", k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns, string(k.CallSign), k.interactive, k.overwritePersistenceIfExists, k.overwriteExistingKeysOnImport, k.persistence)
	if k.persistenceKey != nil {
		s += fmt.Sprintf(" pfk=%x", *k.persistenceKey)
	}
	if k.salt != nil {
		s += fmt.Sprintf(" salt=%x", *k.salt)
	}
	return s + "\n" + strings.Join(c10ks(vSnap(k)), "\n") + "\n" + strings.Join(vSnapMsgs(k), "\n")
}

// c11scribble overwrites everything reachable from the store.
func c11scribble(r *rand.Rand, k *Krypto431) {
	rs := func(b []rune) {
		b = b[:cap(b)]
		for i := range b {
			b[i] = '#'
		}
	}
	bs := func(b *[]byte) {
		if b != nil {
			c := (*b)[:cap(*b)]
			for i := range c {
				c[i] ^= 0x5a
			}
			*b = nil
		}
	}
	keys := k.Keys[:cap(k.Keys)]
	for i := range keys {
		rs(keys[i].Id)
		rs(keys[i].Runes)
		rs(keys[i].Comment)
		ks := keys[i].Keepers[:cap(keys[i].Keepers)]
		for j := range ks {
			rs(ks[j])
			ks[j] = nil
		}
		keys[i] = Key{}
	}
	ms := k.Messages[:cap(k.Messages)]
	for i := range ms {
		rs(ms[i].PlainText)
		rs(ms[i].Id)
		ms[i] = Message{}
	}
	rs(k.CallSign)
	bs(k.persistenceKey)
	bs(k.salt)
	k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns = 99, 98, 97, 96
}

func TestReplayC11(t *testing.T) {
	defer vSilence()()
	vRounds(0.9, 100000, func(r *rand.Rand, round int) {
		k := vNewStore(r, vStoreOpt{g: 1 + r.Intn(5), keys: r.Intn(9), minLen: 0, maxLen: 30})
		k.Columns, k.KeyColumns = r.Intn(100), r.Intn(100)
		k.KeyLength = r.Intn(400)
		k.interactive, k.overwritePersistenceIfExists, k.overwriteExistingKeysOnImport = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		k.persistence = "somewhere"
		if r.Intn(4) > 0 {
			k.persistenceKey = BytePtr(c13bytesN(r, r.Intn(40)))
		}
		if r.Intn(4) == 0 {
			k.salt = nil
		} else if r.Intn(3) > 0 {
			k.salt = BytePtr(c13bytesN(r, r.Intn(40)))
		}
		if len(k.Keys) > 1 && r.Intn(6) == 0 {
			k.Keys[r.Intn(len(k.Keys))].Id = vCopy(k.Keys[r.Intn(len(k.Keys))].Id)
		}
		if r.Intn(6) == 0 && len(k.Keys) > 0 {
			k.Keys[r.Intn(len(k.Keys))].Keepers = [][]rune{{}, []rune("AA"), []rune("AA"), nil, []rune("aa")}
		}
		for i := r.Intn(3); i > 0; i-- {
			k.Messages = append(k.Messages, Message{Id: vRunes(r, vAZ, 4), PlainText: vRunes(r, vAZ, 9), instance: k})
		}
		accept := map[*Key]bool{}
		var which []int
		mode := r.Intn(4)
		for i := range k.Keys {
			ok := mode == 0 || mode > 1 && r.Intn(2) == 0
			accept[&k.Keys[i]] = ok
			if ok {
				which = append(which, i)
			}
		}
		before := c11state(k)
		all := vSnap(k)
		what := fmt.Sprintf("exporting keys %v of %q", which, c10ks(all))
		filter := func(key *Key) bool {
			ok, known := accept[key]
			if !known {
				// a filter that looks at a copy of the key: find it by its letters
				for i := range k.Keys {
					if string(k.Keys[i].Id) == string(key.Id) && string(k.Keys[i].Runes) == string(key.Runes) {
						return accept[&k.Keys[i]]
					}
				}
			}
			return ok
		}
		var opts []Option
		want := *k
		want.overwritePersistenceIfExists, want.overwriteExistingKeysOnImport, want.persistence = false, false, ""
		if r.Intn(3) == 0 {
			opts = append(opts, WithPersistence("elsewhere"))
			want.persistence = "elsewhere"
			what += " with a file name"
		}
		if r.Intn(4) == 0 {
			opts = append(opts, WithInteractive(!k.interactive))
			want.interactive = !k.interactive
		}
		if r.Intn(4) == 0 {
			pfk := c13bytesN(r, 32)
			opts = append(opts, WithPFK(&pfk))
			want.persistenceKey = &pfk
		}
		want.Keys, want.Messages = nil, nil
		var n Krypto431
		vGuard(t, what, func() { n = k.ExportKeys(filter, opts...) })
		if c11state(k) != before {
			vFail(t, "%s changes the original: %q, before %q", what, c11state(k), before)
		}
		if len(n.Messages) != 0 {
			vFail(t, "%s gives %d messages", what, len(n.Messages))
		}
		got := vSnap(&n)
		for i := range got {
			if i >= len(which) || c10ks(got[i : i+1])[0] != c10ks(all[which[i] : which[i]+1])[0] {
				vFail(t, "%s gives keys %q", what, c10ks(got))
			}
		}
		if len(got) != len(which) {
			vFail(t, "%s gives keys %q", what, c10ks(got))
		}
		ns := n
		ns.Keys, ns.Messages = nil, nil
		if c11state(&ns) != c11state(&want) {
			vFail(t, "%s gives settings %s, expected %s", what, c11state(&ns), c11state(&want))
		}
		if n.persistenceKey != nil && (n.persistenceKey == k.persistenceKey) || n.salt != nil && n.salt == k.salt {
			vFail(t, "%s shares the file key or salt with the original", what)
		}
		// changing either leaves the other
		after := c11state(&n)
		one, other, os, name := k, &n, after, "the original"
		if r.Intn(2) == 0 {
			one, other, os, name = &n, k, before, "the export"
		}
		wantKeys := func() string { return c11state(other) }
		switch r.Intn(3) {
		case 0:
			one.Wipe()
			name = "wiping " + name
		case 1:
			c11scribble(r, one)
			name = "overwriting " + name
		case 2:
			name = "deleting the keys of and adding keys to " + name
			for len(one.Keys) > 0 {
				m := len(one.Keys)
				one.DeleteKey(vCopy(one.Keys[r.Intn(m)].Id))
				if len(one.Keys) >= m {
					break
				}
			}
			one.GroupSize, one.KeyLength = 5, 10
			one.GenerateKeys(3, nil, "XX")
		}
		if s := wantKeys(); s != os {
			vFail(t, "%s, then %s changes the other: %q, before %q", what, name, s, os)
		}
	})
}

func c13bytesN(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
