ID="c11-filter-in-place"
PROPERTY="C11"
PKG="."
EDITS=[("persistence.go","""		Keys:                          make([]Key, 0, len(k.Keys)),
		Messages:                      make([]Message, 0),
		CallSign:                      RuneCopy(&k.CallSign),
	}
	// A missing""","""		Keys:                          k.Keys[:0],
		Messages:                      make([]Message, 0),
		CallSign:                      RuneCopy(&k.CallSign),
	}
	// A missing""")]
NEEDS="exporting a selection that leaves out a key, then looking at the keys of the original (or wiping the export)"
BREAKS="the selected keys are collected in the original's own key array: exporting overwrites its first keys"
DEMO='''package krypto431
import "testing"
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("AAAAA"), Runes: []rune("QWERTY")}, {Id: []rune("BBBBB"), Runes: []rune("ASDFGH")}}
	n := k.ExportKeys(func(key *Key) bool { return string(key.Id) == "BBBBB" })
	if len(n.Keys) != 1 || string(n.Keys[0].Id) != "BBBBB" { t.Fatal(n.Keys) }
	if string(k.Keys[0].Id) != "AAAAA" || string(k.Keys[0].Runes) != "QWERTY" { t.Fatalf("first key of the original is now %s", string(k.Keys[0].Id)) }
}
'''
