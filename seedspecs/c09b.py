ID="c09-seeded-letters"
PROPERTY="C09"
PKG="."
EDITS=[("keys.go","""	for i := range key.Runes {
		key.Runes[i] = rune(crand.Intn(26)) + rune('A')
	}
	k.Keys =""","""	pick := mrand.New(mrand.NewSource(crand.Int63()))
	for i := range key.Runes {
		key.Runes[i] = rune(pick.Intn(26)) + rune('A')
	}
	k.Keys ="""),("keys.go",'''	"math"
''','''	"math"
	mrand "math/rand"
''')]
NEEDS="knowing the first letters of a key: the seed, and with it the rest, follows (the letters look as random as before)"
BREAKS="the key letters come from math/rand seeded once per key: 31 bits of seed decide all letters instead of one cryptographic draw each"
DEMO='''package krypto431
import (
	"testing"
	"io"
	cryptoRand "crypto/rand"
)
type counter struct { r io.Reader; n int }
func (c *counter) Read(p []byte) (int, error) { c.n += len(p); return c.r.Read(p) }
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"), WithGroupSize(5), WithKeyLength(350))
	c := &counter{r: cryptoRand.Reader}
	cryptoRand.Reader = c
	if err := k.GenerateKeys(1, nil); err != nil { t.Fatal(err) }
	if c.n*8 < 355*4 { t.Fatalf("355 letters from %d bytes of the cryptographic source", c.n) }
}
'''
