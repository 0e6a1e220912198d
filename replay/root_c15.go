package krypto431

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
	"time"
)

// c15state is everything a store file keeps.
func c15state(k *Krypto431) string {
	s := fmt.Sprintf("g=%d l=%d c=%d kc=%d cs=%q", k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns, string(k.CallSign))
	for i := range k.Keys {
		a := &k.Keys[i]
		s += fmt.Sprintf("\nkey %q %q %s %s %s %v %v %q", string(a.Id), string(a.Runes), vStrs(a.Keepers), a.Created.Time.Format(time.RFC3339Nano), a.Expires.Time.Format(time.RFC3339Nano), a.Used, a.Compromised, string(a.Comment))
	}
	for i := range k.Messages {
		m := &k.Messages[i]
		s += fmt.Sprintf("\nmsg %q %s %q %s %q %q %q %q %q", string(m.Id), vStrs(m.Recipients), string(m.From), m.DTG.Time.Format(time.RFC3339Nano), string(m.KeyId), string(m.PlainText), string(m.Binary), string(m.CipherText), string(m.Radiogram))
	}
	return s
}

func c15store(r *rand.Rand, file string, key []byte) *Krypto431 {
	k := New(WithPersistence(file), WithCallSign([]string{"ME", "QJ", "VQ"}[r.Intn(3)]), WithPFK(&key))
	k.GroupSize = []int{5, 5, 4, 7, 1, 0}[r.Intn(6)]
	k.KeyLength = []int{350, 40, 3000, 0}[r.Intn(4)]
	k.Columns = []int{80, 110, 0}[r.Intn(3)]
	k.KeyColumns = []int{80, 65, 0}[r.Intn(3)]
	if r.Intn(6) == 0 {
		k.CallSign = nil
	}
	k.Keys = nil
	k.Messages = nil
	big := r.Intn(3) == 0
	for i := r.Intn(6); i > 0; i-- {
		n := r.Intn(60)
		if big {
			n = 2000 + r.Intn(20000)
		}
		a := Key{Id: vRunes(r, vAZ, 5), Runes: vRunes(r, vAZ, n), Keepers: vList(r, vAZ, 4, 3), Used: r.Intn(2) == 0, Compromised: r.Intn(2) == 0, Comment: vRunes(r, vAZ+"åäö ", r.Intn(6)), instance: &k}
		a.Created.Time = time.Unix(r.Int63n(2000000000), 0).UTC()
		a.Expires.Time = time.Unix(r.Int63n(4000000000), 0).UTC()
		k.Keys = append(k.Keys, a)
	}
	for i := r.Intn(5); i > 0; i-- {
		m := Message{Id: vRunes(r, vAZ, 4), Recipients: vList(r, vAZ, 3, 3), From: vRunes(r, vAZ, r.Intn(4)), KeyId: vRunes(r, vAZ, 5), PlainText: vRunes(r, vAZ+"åäö 0123", r.Intn(80)), CipherText: vRunes(r, vAZ, r.Intn(80)), Radiogram: vRunes(r, vAZ, r.Intn(9)), instance: &k}
		if r.Intn(2) == 0 {
			m.Binary = c13bytes(r, r.Intn(9))
		}
		m.DTG.Time = time.Unix(r.Int63n(2000000000), 0).UTC()
		k.Messages = append(k.Messages, m)
	}
	return &k
}

// c15chunks splits an encrypted file into its sealed chunks.
func c15chunks(b []byte) [][]byte {
	var out [][]byte
	for len(b) >= 4 {
		n := 4 + int(binary.LittleEndian.Uint32(b))
		if n > len(b) {
			break
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

func c15limit(n uint64, f func()) {
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		return
	}
	lim := old
	lim.Cur = n
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim) != nil {
		return
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// c15exchanged loads stores with two chunks exchanged (or one replaced by the other) such that what is
// decompressed can still be decoded; only the checksum shows that it is not what was saved.
func c15exchanged(t *testing.T, dir string) {
	file := filepath.Join(dir, "exchanged")
	for _, c := range [][4]int{{18, 96, 71, 0}, {22, 63, 92, 0}, {46, 88, 64, 1}, {58, 66, 72, 0}} {
		key := make([]byte, 32)
		k := New(WithPersistence(file), WithPFK(&key), WithOverwritePersistenceIfExists(true))
		k.Messages = nil
		k.Keys = []Key{{Id: []rune("ABCDE"), Runes: vRunes(rand.New(rand.NewSource(int64(c[0]))), vAZ, 30000)}}
		if err := k.Save(); err != nil {
			vFail(t, "saving one key of 30000 letters gives error %v", err)
		}
		b, _ := os.ReadFile(file)
		cs := c15chunks(b)
		x, y := c[1], c[2]
		if x >= len(cs) || y >= len(cs) {
			continue
		}
		if c[3] == 0 {
			cs[x], cs[y] = cs[y], cs[x]
		} else {
			cs[x] = cs[y]
		}
		os.WriteFile(file, bytes.Join(cs, nil), 0600)
		l := New(WithPersistence(file), WithPFK(&key))
		if l.Load() == nil && c15state(&l) != c15state(&k) {
			vFail(t, "loading one key of 30000 letters (source %d) with the encrypted chunks %d and %d exchanged gives no error but other letters", c[0], x, y)
		}
	}
}

func TestReplayC15(t *testing.T) {
	defer vSilence()()
	signal.Ignore(syscall.SIGXFSZ)
	dir := t.TempDir()
	c15exchanged(t, dir)
	vRounds(0.9, 100000, func(r *rand.Rand, round int) {
		file := filepath.Join(dir, fmt.Sprintf("s%d", round))
		defer os.Remove(file)
		key := c13bytes(r, 32)
		k := c15store(r, file, vCopyBytes(key))
		state := c15state(k)
		var err error
		// Situations in which nothing may be written.
		if op := r.Intn(8); op < 3 {
			before := c13bytes(r, 1+r.Intn(200))
			exists := op == 0 || r.Intn(2) == 0
			if r.Intn(4) == 0 {
				before = []byte{}
			}
			if exists {
				at := file
				if r.Intn(4) == 0 {
					at = file + "target"
					defer os.Remove(at)
					os.Symlink(at, file)
				}
				os.WriteFile(at, before, []os.FileMode{0600, 0600, 0444, 0644}[r.Intn(4)])
				if r.Intn(3) == 0 {
					old := time.Unix(r.Int63n(2000000000), 0)
					os.Chtimes(at, old, old)
				}
			}
			what := "saving over an existing file without permission"
			switch op {
			case 0:
				k.overwritePersistenceIfExists = false
			case 1:
				n := []int{0, 1, 16, 31, 33, 64}[r.Intn(6)]
				what = fmt.Sprintf("saving with a key of %d bytes", n)
				bad := c13bytes(r, n)
				k.persistenceKey = &bad
				k.overwritePersistenceIfExists = true
			default:
				what = "saving without a key"
				k.persistenceKey = nil
				k.overwritePersistenceIfExists = true
			}
			vGuard(t, what, func() { err = k.Save() })
			if err == nil {
				vFail(t, "%s gives no error", what)
			}
			got, rerr := os.ReadFile(file)
			if exists && rerr == nil && len(got) == 0 && len(before) == 0 {
				got = before
			}
			if exists && !bytes.Equal(got, before) || !exists && rerr == nil {
				vFail(t, "%s, which failed (%v), changed the file", what, err)
			}
			l := New(WithPersistence(file))
			l.persistenceKey = k.persistenceKey
			if op > 0 {
				vGuard(t, "loading instead of "+what, func() { err = l.Load() })
				if err == nil {
					vFail(t, "loading instead of %s gives no error", what)
				}
			}
			return
		}
		exists := r.Intn(3) == 0
		if exists {
			os.WriteFile(file, c13bytes(r, 1+r.Intn(90000)), 0600)
			k.overwritePersistenceIfExists = true
		}
		fault := r.Intn(5)
		switch fault {
		case 0:
			c15limit(uint64(r.Intn(3000)), func() { vGuard(t, "saving to a full disk", func() { err = k.Save() }) })
		case 1:
			k.persistence = "/dev/full"
			k.overwritePersistenceIfExists = true
			vGuard(t, "saving to /dev/full", func() { err = k.Save() })
			if err == nil {
				vFail(t, "saving to /dev/full gives no error")
			}
			return
		case 2:
			if len(k.Keys) > 0 {
				k.Keys[r.Intn(len(k.Keys))].Created.Time = time.Unix(1e9, 0).In(time.FixedZone("far", 50000*60))
				vGuard(t, "saving a time that can not be encoded", func() { err = k.Save() })
				if err == nil {
					vFail(t, "saving a time that can not be encoded gives no error")
				}
				return
			}
			fallthrough
		default:
			vGuard(t, "saving", func() { err = k.Save() })
			if err != nil {
				vFail(t, "saving %s gives error %v", state, err)
			}
		}
		if c15state(k) != state {
			vFail(t, "saving changed the store from %s to %s", state, c15state(k))
		}
		load := func(key []byte, fresh bool) (*Krypto431, error) {
			l := New(WithPersistence(file), WithPFK(&key))
			if !fresh {
				o := c15store(r, file, vCopyBytes(key))
				l.Keys, l.Messages, l.CallSign, l.GroupSize = o.Keys, o.Messages, o.CallSign, o.GroupSize
			}
			var err error
			vGuard(t, "loading", func() { err = l.Load() })
			return &l, err
		}
		fresh := r.Intn(2) == 0
		l, lerr := load(vCopyBytes(key), fresh)
		if err == nil {
			if lerr != nil {
				vFail(t, "saving gave no error, but loading gives %v", lerr)
			}
			if c15state(l) != state {
				vFail(t, "saving gave no error, but loading (into a new instance: %v) gives other data: %.900s INSTEAD OF %.900s", fresh, c15state(l), state)
			}
			for i := range l.Keys {
				if l.Keys[i].GetInstance() != l {
					vFail(t, "loaded key %d has no instance", i)
				}
			}
			for i := range l.Messages {
				if l.Messages[i].GetInstance() != l {
					vFail(t, "loaded message %d has no instance", i)
				}
			}
		} else {
			return
		}
		b, _ := os.ReadFile(file)
		if r.Intn(3) == 0 {
			// Saved again under the same key, no nonce may be used twice.
			again := New(WithPersistence(file+"again"), WithPFK(&key))
			defer os.Remove(file + "again")
			again.Keys = []Key{{Id: []rune("OTHER")}}
			if again.Save() == nil {
				b2, _ := os.ReadFile(file + "again")
				seen := map[string]bool{}
				for i, c := range append(c15chunks(b), c15chunks(b2)...) {
					if len(c) < 28 {
						continue
					}
					if n := string(c[4:28]); seen[n] {
						vFail(t, "saving twice under one key uses the nonce %x of chunk %d again", n, i)
					} else {
						seen[n] = true
					}
				}
			}
		}
		for _, c := range []int{0, 1, 2} {
			if len(b) > 0 && bytes.Contains(b, []byte(string(k.CallSign)+"XX"[:c])) && len(k.CallSign)+c > 3 {
				vFail(t, "the file shows the call-sign")
			}
		}
		for try := 0; try < 6; try++ {
			mod := vCopyBytes(b)
			usekey := vCopyBytes(key)
			what := ""
			same := false // the data may still come out unaltered
			switch op := r.Intn(7); op {
			case 0:
				usekey[r.Intn(32)] ^= 1 << r.Intn(8)
				what = "loading with another key"
			case 1:
				i := r.Intn(len(mod))
				mod[i] ^= 1 << r.Intn(8)
				what = fmt.Sprintf("loading with byte %d of %d altered", i, len(mod))
				same = true
			case 2:
				mod = mod[:r.Intn(len(mod))]
				what = "loading a cut file"
				same = true
			default:
				cs := c15chunks(mod)
				i, j := r.Intn(len(cs)), r.Intn(len(cs))
				same = true
				switch op {
				case 3:
					what = fmt.Sprintf("loading with chunks %d and %d of %d exchanged", i, j, len(cs))
					cs[i], cs[j] = cs[j], cs[i]
				case 4, 5:
					what = fmt.Sprintf("loading without chunk %d of %d", i, len(cs))
					cs = append(append([][]byte{}, cs[:i]...), cs[i+1:]...)
				default:
					what = fmt.Sprintf("loading with chunk %d of %d repeated", i, len(cs))
					cs = append(append(append([][]byte{}, cs[:i]...), cs[i]), cs[i:]...)
				}
				mod = bytes.Join(cs, nil)
			}
			os.WriteFile(file, mod, 0600)
			l, lerr := load(usekey, true)
			if lerr != nil {
				// A failed load gives no permission to overwrite.
				vGuard(t, "saving after "+what, func() { err = l.Save() })
				if got, _ := os.ReadFile(file); err == nil || !bytes.Equal(got, mod) {
					vFail(t, "saving after %s, which failed (%v), gives error %v and overwrites the file without permission", what, lerr, err)
				}
			}
			if lerr == nil && !same {
				vFail(t, "%s gives no error", what)
			}
			if lerr == nil && c15state(l) != state {
				vFail(t, "%s gives no error but other data: %.900s INSTEAD OF %.900s", what, c15state(l), state)
			}
		}
	})
}

func vCopyBytes(b []byte) []byte { return append([]byte{}, b...) }
