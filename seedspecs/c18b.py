ID="c18-valid-zero-days"
PROPERTY="C18"
PKG="cmd/krypto431"
EDITS=[("cmd/krypto431/keys.go","		if c.IsSet(oValid) {","		if o.valid > 0 {")]
NEEDS="keys --list --valid 0 with a store that holds an expired or compromised key"
BREAKS="--valid 0 no longer filters anything: expired and compromised keys are selected as valid"
DEMO='''package main
import (
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
)
func TestDemo(t *testing.T) {
	d := t.TempDir()
	f := filepath.Join(d, "s")
	pfk := strings.Repeat("1f", 32)
	k := krypto431.New(krypto431.WithPersistence(f), krypto431.WithCallSign("ME"))
	if err := k.SetPFKFromString(pfk); err != nil { t.Fatal(err) }
	k.Keys = append(k.Keys, krypto431.Key{Id: []rune("OLDKY"), Runes: []rune("ABCDE"), Expires: dtg.DTG{Time: time.Now().Add(-48 * time.Hour)}})
	k.Keys = append(k.Keys, krypto431.Key{Id: []rune("NEWKY"), Runes: []rune("ABCDE"), Expires: dtg.DTG{Time: time.Now().Add(48 * time.Hour)}})
	for i := range k.Keys { k.Keys[i].SetInstance(&k) }
	if err := k.Save(); err != nil { t.Fatal(err) }
	r, w, _ := os.Pipe()
	args, out := os.Args, os.Stdout
	os.Args, os.Stdout = []string{"krypto431", "-f", f, "-K", pfk, "keys", "--list", "--valid", "0"}, w
	main()
	os.Args, os.Stdout = args, out
	w.Close()
	b, _ := io.ReadAll(r)
	if strings.Contains(string(b), "OLDKY") || !strings.Contains(string(b), "NEWKY") { t.Fatalf("listed:\\n%s", b) }
}
'''
