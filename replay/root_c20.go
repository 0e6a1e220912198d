package krypto431

import (
	"math/rand"
	"strings"
	"testing"
	"time"
)

// TestReplayC20 gives NewTextMessage radiograms from the own call-sign and from others and checks what was
// filed. ParseRadiogram, on the same instance, says how the radiogram reads.
func TestReplayC20(t *testing.T) {
	defer vSilence()()
	now := time.Now()
	vRounds(1, 1<<30, func(r *rand.Rand, round int) {
		g := 2 + r.Intn(4)
		o := vStoreOpt{g: g, keys: r.Intn(8), minLen: r.Intn(30), allUsable: r.Intn(2) == 0}
		o.maxLen = o.minLen + 1 + r.Intn(60)
		if o.allUsable {
			o.minLen, o.maxLen, o.keys = 200, 240, 2+r.Intn(6)
		}
		k := vNewStore(r, o)
		own := "ME"
		for i := range k.Keys {
			if i%2 == 0 && o.allUsable {
				k.Keys[i].Keepers = append(k.Keys[i].Keepers, []rune("DD"))
			}
		}
		seen := map[string]bool{}
		for n := r.Intn(5); n > 0; n-- {
			m := Message{Id: k.NewUniqueMessageId(), From: []rune("DD"), PlainText: vText(r, r.Intn(9), 0), instance: k}
			m.DTG.Time = now
			k.Messages = append(k.Messages, m)
		}
		for calls := 1 + r.Intn(3); calls > 0; calls-- {
			var args []string
			// the text
			var text string
			traffic := -1
			var plain []rune
			out := r.Intn(2) == 0
			switch {
			case !out && r.Intn(2) == 0 && len(k.Keys) > 0:
				// traffic for a key of the store, enciphered in a twin of the store
				i := r.Intn(len(k.Keys))
				tw := vTwin(k)
				plain = vRunes(r, vAZ, 1+r.Intn(8))
				m := &Message{Id: []rune("test"), From: []rune("YOU"), KeyId: vCopy(k.Keys[i].Id), PlainText: vCopy(plain), instance: tw}
				if m.Encipher() == nil && vFindId(k, m.KeyId) == i {
					traffic = i
					text = string(m.KeyId)
					for j, c := range m.CipherText {
						if j%g == 0 {
							text += " "
						}
						text += string(c)
					}
				} else {
					text = "HELLO"
				}
			case r.Intn(6) == 0:
				text = string(vRunes(r, vAZ, g)) + " " + string(vRunes(r, vAZ, g))
			case r.Intn(8) == 0:
				text = ""
			default:
				text = strings.TrimSpace(string(vRunes(r, "ABCDEFGHIJ KLMNOPQRSTUVXYZ0123456789?abcåäö", 1+r.Intn(20))))
			}
			from := own
			if !out {
				from = []string{"DD", "AA", "MEE", "M"}[r.Intn(4)]
			} else if r.Intn(3) == 0 {
				from = "me"
			}
			to := [][]string{{}, {"AA"}, {"AA", "BB"}, {"CC", "DD"}, {"ZZ"}}[r.Intn(5)]
			g0 := strings.TrimSpace(strings.Join(to, " ") + " DE " + from)
			if r.Intn(2) == 0 {
				g0 += " 012345"
			}
			radio := g0 + " = " + text + " = K"
			args = append(args, radio)
			if r.Intn(2) == 0 {
				id := string(vRunes(r, vAZ, r.Intn(7)))
				if len(k.Keys) > 0 && r.Intn(4) > 0 {
					id = string(k.Keys[r.Intn(len(k.Keys))].Id)
				}
				switch r.Intn(6) {
				case 0:
					id = strings.ToLower(id)
				case 1:
					id = " " + id + " "
				case 2:
					id += "A"
				}
				args = append(args, id)
			}
			p, perr := k.ParseRadiogram(radio)
			before, msgs := vSnap(k), vSnapMsgs(k)
			ids := map[string]bool{}
			for i := range k.Messages {
				ids[string(k.Messages[i].Id)] = true
			}
			in := strings.Join(args, " | key id ")
			var keys []string
			for _, b := range before {
				s := b.id + " keepers=" + b.keepers
				if b.used {
					s += " used"
				}
				if b.compromised {
					s += " compromised"
				}
				keys = append(keys, s)
			}
			in = "radiogram " + in + " store {" + strings.Join(keys, "; ") + "}"
			var m *Message
			var err error
			vGuard(t, "NewTextMessage: "+in, func() { m, err = k.NewTextMessage(args...) })
			after, msgs2 := vSnap(k), vSnapMsgs(k)
			if len(after) != len(before) {
				vFail(t, "NewTextMessage changes the number of keys: %s", in)
			}
			for i := range after {
				b := before[i]
				b.used = after[i].used
				if after[i] != b || (before[i].used && !after[i].used) {
					vFail(t, "NewTextMessage changes key %s: %s", before[i].id, in)
				}
			}
			for i := range msgs {
				if i >= len(msgs2) || msgs2[i] != msgs[i] {
					vFail(t, "NewTextMessage changes or drops an earlier message: %s", in)
				}
			}
			marked := map[int]bool{}
			for i := range after {
				if after[i].used != before[i].used {
					marked[i] = true
				}
			}
			if err != nil {
				if len(msgs2) != len(msgs) {
					vFail(t, "NewTextMessage returns the error %q and files a message: %s", err, in)
				}
				if len(marked) > 0 {
					vFail(t, "NewTextMessage returns the error %q and marks a key: %s", err, in)
				}
			} else {
				if m == nil || len(msgs2) != len(msgs)+1 || msgs2[len(msgs)] != vSnapMsg(m) {
					vFail(t, "NewTextMessage does not file the message it returns exactly once: %s", in)
				}
				if ids[string(m.Id)] || len(m.Id) == 0 {
					vFail(t, "NewTextMessage files a message with the id %q, which another message has: %s", string(m.Id), in)
				}
			}
			if perr != nil {
				if err == nil {
					vFail(t, "NewTextMessage files a radiogram that does not parse: %s", in)
				}
				continue
			}
			seen[string(p.Id)] = true
			if strings.EqualFold(string(p.From), own) {
				want := ""
				given := false
				if len(args) > 1 {
					want, given = strings.ToUpper(strings.TrimSpace(args[1])), true
				}
				usable := given && len([]rune(want)) == g
				if given {
					i := vFindId(k, []rune(want))
					usable = usable && i >= 0 && !before[i].used && !before[i].compromised
				}
				if err == nil {
					if given && !usable {
						vFail(t, "NewTextMessage accepts a key id that is of the wrong size, unknown, used or compromised: %s", in)
					}
					if given && string(m.KeyId) != want {
						vFail(t, "NewTextMessage enciphers with key %s: %s", string(m.KeyId), in)
					}
					i := vFindId(k, m.KeyId)
					if i < 0 || !marked[i] || before[i].compromised {
						vFail(t, "NewTextMessage does not mark the key %q of the message used: %s", string(m.KeyId), in)
					}
					if !given && !vHasAll(k.Keys[i].Keepers, p.Recipients) {
						vFail(t, "NewTextMessage takes key %s, whose keepers do not include the recipients: %s", string(m.KeyId), in)
					}
					if !vEqList(m.Recipients, p.Recipients) || !vEq(m.From, p.From) || !vEq(m.PlainText, p.PlainText) {
						vFail(t, "NewTextMessage files recipients %s, sender %q, text %q: %s", vStrs(m.Recipients), string(m.From), string(m.PlainText), in)
					}
					d, _, _, ok := vDecode(k, m.KeyId, m.CipherText)
					if !ok || strings.TrimRight(string(d), " ") != strings.TrimRight(string(p.PlainText), " ") {
						vFail(t, "NewTextMessage files the ciphertext %q, which reads %q: %s", string(m.CipherText), string(d), in)
					}
				} else if o.allUsable && len(p.PlainText) > 0 {
					ok := true
					for _, c := range p.PlainText {
						ok = ok && strings.ContainsRune(vSupported, c)
					}
					found := false
					for i := range k.Keys {
						found = found || vSuits(k, &k.Keys[i], p.Recipients)
					}
					if ok && (given && usable || !given && found) {
						vFail(t, "NewTextMessage refuses (%q): %s", err, in)
					}
				}
				continue
			}
			if err != nil {
				vFail(t, "NewTextMessage refuses an incoming message (%q): %s", err, in)
			}
			rec := p.Recipients
			if len(rec) == 0 {
				rec = [][]rune{[]rune(own)}
			}
			if !vEqList(m.Recipients, rec) || !vEq(m.From, p.From) {
				vFail(t, "NewTextMessage files recipients %s, sender %q: %s", vStrs(m.Recipients), string(m.From), in)
			}
			if traffic >= 0 && strings.EqualFold(strings.Join(strings.Fields(string(p.PlainText)), " "), text) {
				if strings.TrimRight(string(m.PlainText), " ") != string(plain) || string(m.KeyId) != before[traffic].id {
					vFail(t, "NewTextMessage does not decipher traffic of %q for key %s: text %q, key id %q: %s", string(plain), before[traffic].id, string(m.PlainText), string(m.KeyId), in)
				}
				if !k.Keys[traffic].Used {
					vFail(t, "NewTextMessage leaves the key of deciphered traffic unused: %s", in)
				}
				continue
			}
			// text that is not traffic for a key of the store
			first := strings.ToUpper(strings.ReplaceAll(strings.ReplaceAll(string(p.PlainText), " ", ""), "=", ""))
			known := false
			for i := range k.Keys {
				known = known || strings.HasPrefix(first, string(k.Keys[i].Id))
			}
			if !known {
				if !vEq(m.PlainText, p.PlainText) || len(m.KeyId) != 0 || len(m.CipherText) != 0 {
					vFail(t, "NewTextMessage files text %q, key id %q, ciphertext %q: %s", string(m.PlainText), string(m.KeyId), string(m.CipherText), in)
				}
				if len(marked) > 0 {
					vFail(t, "NewTextMessage marks a key for a message that holds no traffic: %s", in)
				}
			}
		}
	})
}
