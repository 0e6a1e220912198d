package krypto431

import (
	"math/rand"
	"sort"
	"strings"
	"testing"
)

func c10ids(r *rand.Rand, pool []string) []string {
	var out []string
	for i := r.Intn(5); i > 0; i-- {
		if r.Intn(5) == 0 || len(pool) == 0 {
			out = append(out, string(vRunes(r, vAZ, 1+r.Intn(5))))
		} else {
			out = append(out, pool[r.Intn(len(pool))])
		}
	}
	return out
}

func TestReplayC10(t *testing.T) {
	defer vSilence()()
	vRounds(0.9, 100000, func(r *rand.Rand, round int) {
		k := vNewStore(r, vStoreOpt{g: 1 + r.Intn(5), keys: r.Intn(7), minLen: 5, maxLen: 30})
		for i := r.Intn(6); i > 0; i-- {
			k.Messages = append(k.Messages, Message{Id: vRunes(r, "aAbB", 1+r.Intn(3)), From: vRunes(r, "AB", 2), KeyId: vRunes(r, vAZ, 5), PlainText: vRunes(r, vAZ, 12), CipherText: vRunes(r, vAZ, 12), Radiogram: vRunes(r, vAZ, 12), Binary: []byte("0123456789ab"), instance: k})
		}
		if len(k.Keys) > 1 && r.Intn(6) == 0 {
			k.Keys[r.Intn(len(k.Keys))].Id = vCopy(k.Keys[r.Intn(len(k.Keys))].Id)
		}
		kb, mb := vSnap(k), vSnapMsgs(k)
		var kpool, mpool []string
		runes := map[string][]rune{}
		for i := range k.Keys {
			kpool = append(kpool, string(k.Keys[i].Id))
			runes[string(k.Keys[i].Id)+"/"+string(k.Keys[i].Runes)] = k.Keys[i].Runes
		}
		plain := map[string][]rune{}
		for i := range k.Messages {
			mpool = append(mpool, string(k.Messages[i].Id))
			plain[mb[i]] = k.Messages[i].PlainText
		}
		var keyStrs []string
		for _, b := range kb {
			keyStrs = append(keyStrs, b.id)
		}
		what := ""
		switch r.Intn(3) {
		case 0: // mark
			ids := c10ids(r, kpool)
			if len(ids) == 0 {
				return
			}
			used := r.Intn(2) == 0
			id := []rune(ids[0])
			if r.Intn(3) == 0 {
				id = []rune(" " + strings.ToLower(ids[0]) + " ")
			}
			vGuard(t, "MarkKeyUsed", func() {
				x := vFindId(k, id)
				err := k.MarkKeyUsed(id, used)
				if (err == nil) != (x >= 0) {
					vFail(t, "MarkKeyUsed(%q,%v) in %q: error %v", string(id), used, keyStrs, err)
				}
				for i, n := range vSnap(k) {
					w := kb[i]
					if i == x {
						w.used = used
					}
					if n != w {
						vFail(t, "MarkKeyUsed(%q,%v) in %q: key %s is now %+v", string(id), used, keyStrs, n.id, n)
					}
				}
			})
			return
		case 1:
			ids := c10ids(r, kpool)
			left := append([]vKey{}, kb...)
			n := 0
			var gone []vKey
			// one item per named id; when several carry the id the first one at that time
			for _, id := range ids {
				for i := range left {
					if strings.EqualFold(left[i].id, id) {
						gone = append(gone, left[i])
						left[i] = left[len(left)-1]
						left = left[:len(left)-1]
						n++
						break
					}
				}
			}
			vGuard(t, "DeleteKey", func() {
				var got int
				var err error
				switch r.Intn(3) {
				case 0:
					what = "DeleteKey"
					var rs [][]rune
					for _, id := range ids {
						rs = append(rs, []rune(id))
					}
					got, err = k.DeleteKey(rs...)
				case 1:
					what = "DeleteKeyByString"
					got, err = k.DeleteKeyByString(strings.ToLower(strings.Join(ids, ",")))
				case 2:
					what = "DeleteKeysBySummaryString"
					var ss []string
					for _, id := range ids {
						ss = append(ss, id+" AA,"+strings.Join(kpool, " "))
					}
					got, err = k.DeleteKeysBySummaryString(ss...)
				}
				if err != nil || got != n {
					vFail(t, "%s(%q) in %q removes %d (%v), expected %d", what, ids, keyStrs, got, err, n)
				}
				c10same(t, what, ids, keyStrs, c10ks(vSnap(k)), c10ks(left))
				for _, g := range gone {
					if a := runes[g.id+"/"+g.runes]; len(a) >= 8 && string(a) == g.runes {
						vFail(t, "%s(%q) in %q: key %s is not wiped", what, ids, keyStrs, g.id)
					}
				}
			})
			c10same(t, what, ids, keyStrs, vSnapMsgs(k), mb)
		case 2:
			ids := c10ids(r, mpool)
			left := append([]string{}, mb...)
			lid := append([]string{}, mpool...)
			var gone []string
			for _, id := range ids {
				for i := range left {
					if lid[i] == id {
						gone = append(gone, left[i])
						left[i], lid[i] = left[len(left)-1], lid[len(left)-1]
						left, lid = left[:len(left)-1], lid[:len(left)-1]
						break
					}
				}
			}
			vGuard(t, "DeleteMessage", func() {
				var got int
				var err error
				switch r.Intn(3) {
				case 0:
					what = "DeleteMessage"
					var rs [][]rune
					for _, id := range ids {
						rs = append(rs, []rune(id))
					}
					got, err = k.DeleteMessage(rs...)
				case 1:
					what = "DeleteMessageByString"
					got, err = k.DeleteMessageByString(strings.Join(ids, ", "))
				case 2:
					what = "DeleteMessagesBySummaryString"
					var ss []string
					for _, id := range ids {
						ss = append(ss, id+" 01"+strings.Join(mpool, " "))
					}
					got, err = k.DeleteMessagesBySummaryString(ss...)
				}
				if err != nil || got != len(gone) {
					vFail(t, "%s(%q) in %q removes %d (%v), expected %d", what, ids, mpool, got, err, len(gone))
				}
				c10same(t, what, ids, mpool, vSnapMsgs(k), left)
				for _, g := range gone {
					if a := plain[g]; strings.Contains(g, "plain=\""+string(a)+"\"") {
						vFail(t, "%s(%q) in %q: message %s is not wiped", what, ids, mpool, g)
					}
				}
			})
			c10same(t, what, ids, mpool, c10ks(vSnap(k)), c10ks(kb))
		}
	})
}

func c10ks(a []vKey) []string {
	var out []string
	for _, k := range a {
		k.instance = nil
		out = append(out, strings.Join([]string{k.id, k.runes, k.comment, k.keepers, k.created.String(), k.expires.String(), map[bool]string{true: "used"}[k.used], map[bool]string{true: "compromised"}[k.compromised]}, "|"))
	}
	return out
}

func c10same(t *testing.T, what string, ids, pool, got, want []string) {
	t.Helper()
	g, w := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		vFail(t, "%s(%q) in %q leaves %q, expected %q", what, ids, pool, g, w)
	}
}
