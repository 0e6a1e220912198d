ID="c09-retry-keeps-id"
PROPERTY="C09"
PKG="."
EDITS=[("keys.go","""	for i := range k.Keys {
		if EqualRunesFold(&k.Keys[i].Id, keyId) {
			return true
		}
	}
	return false
}

func (k *Key) ContainsKeeper""","""	for i := range k.Keys {
		if k.Keys[i].Compromised {
			continue
		}
		if EqualRunesFold(&k.Keys[i].Id, keyId) {
			return true
		}
	}
	return false
}

func (k *Key) ContainsKeeper""")]
NEEDS="a compromised key in the store whose id the random source draws again"
BREAKS="ids of compromised keys count as free, so a new key can get the id of a compromised one"
DEMO='''package krypto431
import (
	"testing"
	cryptoRand "crypto/rand"
)
type vstream struct { s uint32 }
func (c *vstream) Read(p []byte) (int, error) { for i := range p { c.s = c.s*1664525+1013904223; p[i] = byte(c.s>>24) }; return len(p), nil }
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"), WithGroupSize(5), WithKeyLength(50))
	cryptoRand.Reader = &vstream{7}
	k.GenerateKeys(1, nil)
	k.Keys[0].Compromised = true
	cryptoRand.Reader = &vstream{7}
	k.GenerateKeys(1, nil)
	if string(k.Keys[0].Id) == string(k.Keys[1].Id) { t.Fatalf("two keys %s", string(k.Keys[0].Id)) }
}
'''
