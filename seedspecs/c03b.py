ID="c03-fold-case-key-id"
PROPERTY="C03"
PKG="."
EDITS=[("cipher.go","""				} else if m.instance.Keys[i].Compromised {
					return fmt.Errorf("message already enriched with compromised KeyId %s", string(m.KeyId))
				} else {
					return nil
				}
			}
		}
		return errors.New""","""				} else if m.instance.Keys[i].Compromised {
					return fmt.Errorf("message already enriched with compromised KeyId %s", string(m.KeyId))
				} else {
					return nil
				}
			}
		}
		if _, err := m.instance.GetKey(m.KeyId); err == nil {
			// written in lower case, Encipher accepts it too
			return nil
		}
		return errors.New""")]
NEEDS="a message with the id of a used or compromised key written in lower case"
BREAKS="the lower case id passes without the used and compromised checks and Encipher uses the key again"
DEMO='''package krypto431
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	k := New(WithCallSign("ME"))
	k.Keys = []Key{{Id: []rune("AAAAA"), Runes: []rune(strings.Repeat("K", 60)), Used: true}}
	m := Message{KeyId: []rune("aaaaa"), PlainText: []rune("ATTACK"), instance: &k}
	if err := m.Encipher(); err == nil { t.Fatalf("enciphered with a used key: %q", string(m.CipherText)) }
}
'''
