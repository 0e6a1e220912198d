package krypto431

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

// Shared parts of the directed searches: a search prints FAILING-INPUT and stops at the first input on
// which the real code breaks the property.

type vfail struct{}

func vFail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	fmt.Println("FAILING-INPUT " + strings.ReplaceAll(s, "\n", "\\n"))
	t.FailNow()
}

// vGuard runs f and reports a panic as a failure.
func vGuard(t *testing.T, what string, f func()) {
	t.Helper()
	p := func() (p interface{}) {
		defer func() { p = recover() }()
		f()
		return nil
	}()
	if p != nil {
		vFail(t, "%s panics: %v", what, p)
	}
}

func vSeed() int64 {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return s
}

// vRounds calls f with a seeded source until the time budget (a share of VERIF_REPLAY_SECS) is used.
func vRounds(share float64, max int, f func(r *rand.Rand, round int)) {
	secs, err := strconv.Atoi(os.Getenv("VERIF_REPLAY_SECS"))
	if err != nil || secs <= 0 {
		secs = 10
	}
	end := time.Now().Add(time.Duration(float64(secs) * share * float64(time.Second)))
	for i := 0; i < max && time.Now().Before(end); i++ {
		f(rand.New(rand.NewSource(vSeed()*1000003+int64(i))), i)
	}
}

func vRunes(r *rand.Rand, alphabet string, n int) []rune {
	a := []rune(alphabet)
	out := make([]rune, n)
	for i := range out {
		out[i] = a[r.Intn(len(a))]
	}
	return out
}

const vAZ = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// vList makes a list of up to n short rune slices over a small alphabet, so that equal elements are frequent.
func vList(r *rand.Rand, alphabet string, n, l int) [][]rune {
	k := r.Intn(n + 1)
	if k == 0 {
		if r.Intn(2) == 0 {
			return nil
		}
		return [][]rune{}
	}
	out := make([][]rune, k)
	for i := range out {
		out[i] = vRunes(r, alphabet, r.Intn(l+1))
	}
	return out
}

func vEq(a, b []rune) bool { return string(a) == string(b) && len(a) == len(b) }

func vCopy(a []rune) []rune { return append([]rune{}, a...) }

func vCopyList(a [][]rune) [][]rune {
	var out [][]rune
	for i := range a {
		out = append(out, vCopy(a[i]))
	}
	return out
}

func vEqList(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func vStrs(a [][]rune) string {
	s := make([]string, len(a))
	for i := range a {
		s[i] = strconv.Quote(string(a[i]))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// vSilence sends the package's warnings to /dev/null while a search runs.
func vSilence() func() {
	old := os.Stderr
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stderr = f
	return func() { os.Stderr = old; f.Close() }
}

// vKey is a snapshot of everything a key holds.
type vKey struct {
	id, runes, comment string
	keepers            string
	created, expires   time.Time
	used, compromised  bool
	instance           *Krypto431
}

func vSnapKey(k *Key) vKey {
	return vKey{string(k.Id), string(k.Runes), string(k.Comment), vStrs(k.Keepers), k.Created.Time, k.Expires.Time, k.Used, k.Compromised, k.GetInstance()}
}

func vSnap(k *Krypto431) []vKey {
	var out []vKey
	for i := range k.Keys {
		out = append(out, vSnapKey(&k.Keys[i]))
	}
	return out
}

func vSnapMsg(m *Message) string {
	return fmt.Sprintf("id=%q to=%s from=%q dtg=%v keyid=%q plain=%q bin=%q cipher=%q radio=%q", string(m.Id), vStrs(m.Recipients), string(m.From), m.DTG.Time, string(m.KeyId), string(m.PlainText), string(m.Binary), string(m.CipherText), string(m.Radiogram))
}

func vSnapMsgs(k *Krypto431) []string {
	var out []string
	for i := range k.Messages {
		out = append(out, vSnapMsg(&k.Messages[i]))
	}
	return out
}

// vUniqueIds returns n different ids of g letters.
func vUniqueIds(r *rand.Rand, n, g int) [][]rune {
	seen := map[string]bool{}
	var out [][]rune
	max := 1
	for i := 0; i < g && max < 1000000; i++ {
		max *= 26
	}
	if n > max {
		n = max
	}
	for len(out) < n {
		id := vRunes(r, vAZ, g)
		if !seen[string(id)] {
			seen[string(id)] = true
			out = append(out, id)
		}
	}
	return out
}
