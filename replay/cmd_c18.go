package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
)

const cmdPFK = "0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20"

func cmdFail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	fmt.Println("FAILING-INPUT " + strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", "\\n"))
	t.FailNow()
}

// cmdRun runs the program's main with the given arguments and returns the lines it prints.
func cmdRun(t *testing.T, dir string, args ...string) []string {
	out := filepath.Join(dir, "stdout")
	f, err := os.Create(out)
	if err != nil {
		t.Skip(err)
	}
	oldArgs, oldOut := os.Args, os.Stdout
	os.Args, os.Stdout = append([]string{"krypto431"}, args...), f
	func() {
		defer func() { os.Args, os.Stdout = oldArgs, oldOut }()
		main()
	}()
	f.Close()
	g, _ := os.Open(out)
	defer g.Close()
	var lines []string
	for s := bufio.NewScanner(g); s.Scan(); {
		lines = append(lines, s.Text())
	}
	return lines
}

func cmdIn(h [][]rune, s string) bool {
	for i := range h {
		if string(h[i]) == s {
			return true
		}
	}
	return false
}

func cmdNamed(or bool, want []string, have [][]rune) bool {
	if len(want) == 0 {
		return true
	}
	n := 0
	for _, w := range want {
		if cmdIn(have, w) {
			n++
		}
	}
	return or && n > 0 || !or && n == len(want)
}

func TestReplayC18Cmd(t *testing.T) {
	dir := t.TempDir()
	file := filepath.Join(dir, "store")
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	oldErr := os.Stderr
	os.Stderr = null
	defer func() { os.Stderr = oldErr }()
	r := rand.New(rand.NewSource(7))
	k := krypto431.New(krypto431.WithPersistence(file), krypto431.WithCallSign("ME"), krypto431.WithOverwritePersistenceIfExists(true))
	if err := k.SetPFKFromString(cmdPFK); err != nil {
		t.Skip(err)
	}
	calls := []string{"AA", "BB", "CC"}
	now := time.Now()
	for i := 0; i < 48; i++ {
		id := []rune(fmt.Sprintf("K%c%cXX", 'A'+i/26, 'A'+i%26))
		var kp [][]rune
		for _, c := range calls {
			if r.Intn(2) == 0 {
				kp = append(kp, []rune(c))
			}
		}
		exp := now.Add(time.Duration([]int{-10, 3, 10, 100}[r.Intn(4)])*24*time.Hour + time.Hour)
		key := krypto431.Key{Id: id, Runes: []rune("ABCDE"), Keepers: kp, Created: dtg.DTG{Time: now}, Expires: dtg.DTG{Time: exp}, Used: r.Intn(2) == 0, Compromised: r.Intn(2) == 0}
		k.Keys = append(k.Keys, key)
	}
	for i := 0; i < 24; i++ {
		var to [][]rune
		for _, c := range calls {
			if r.Intn(2) == 0 {
				to = append(to, []rune(c))
			}
		}
		from := []rune([]string{"AA", "BB", "CC", ""}[r.Intn(4)])
		m := krypto431.Message{Id: []rune(fmt.Sprintf("m%c%cx", 'A'+i/13, 'a'+i%13)), Recipients: to, From: from, DTG: dtg.DTG{Time: now}, PlainText: []rune("hello there")}
		k.Messages = append(k.Messages, m)
	}
	for i := range k.Keys {
		k.Keys[i].SetInstance(&k)
	}
	for i := range k.Messages {
		k.Messages[i].SetInstance(&k)
	}
	if err := k.Save(); err != nil {
		t.Skip(err)
	}
	base := []string{"-f", file, "-K", cmdPFK}
	secs, err := strconv.Atoi(os.Getenv("VERIF_REPLAY_SECS"))
	if err != nil {
		secs = 10
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end := now.Add(time.Duration(secs) * time.Second / 2)
	for round := 0; round < 400 && time.Now().Before(end); round++ {
		r := rand.New(rand.NewSource(seed*7919 + int64(round)))
		pick := func(all []string) []string {
			var out []string
			for _, c := range all {
				if r.Intn(3) == 0 {
					out = append(out, c)
				}
			}
			return out
		}
		flag := func(n int) bool { return r.Intn(n) == 0 }
		or, all := flag(2), flag(12)
		if round%3 > 0 {
			args := append(append([]string{}, base...), "keys", "--list")
			kp := pick(calls)
			for _, c := range kp {
				args = append(args, "--keepers", strings.ToLower(c))
			}
			if or {
				args = append(args, "--or")
			}
			if all {
				args = append(args, "--all")
			}
			var ids []string
			if flag(5) {
				for i := 0; i < 3; i++ {
					ids = append(ids, string(k.Keys[r.Intn(len(k.Keys))].Id))
				}
				args = append(args, "--id", strings.ToLower(strings.Join(ids, ",")))
			}
			invalid, expired, comp, used, unused := flag(4), flag(5), flag(4), flag(4), flag(5)
			for n, v := range map[string]bool{"--invalid": invalid, "--expired": expired, "--compromised": comp, "--used": used, "--unused": unused} {
				if v {
					args = append(args, n)
				}
			}
			valid := -1
			if flag(4) {
				valid = []int{0, 1, 5, 30}[r.Intn(4)]
				args = append(args, "--valid", strconv.Itoa(valid))
			}
			want := map[string]bool{}
			for i := range k.Keys {
				key := &k.Keys[i]
				isExp := key.Expires.Time.Before(now)
				ok := cmdNamed(or, kp, key.Keepers) && (!invalid || key.Compromised || isExp) && (!expired || isExp) && (!comp || key.Compromised) && (!used || key.Used) && (!unused || !key.Used)
				if valid >= 0 {
					ok = ok && !key.Compromised && now.Add(time.Duration(valid)*24*time.Hour).Before(key.Expires.Time)
				}
				if len(ids) > 0 {
					ok = false
					for _, id := range ids {
						ok = ok || id == string(key.Id)
					}
				}
				want[string(key.Id)] = ok || all
			}
			cmdCompare(t, args, cmdRun(t, dir, args...), want)
		} else {
			args := append(append([]string{}, base...), "messages", "--list")
			to, from := pick(calls), pick(calls)
			for _, c := range to {
				args = append(args, "--to", strings.ToLower(c))
			}
			for _, c := range from {
				args = append(args, "--from", strings.ToLower(c))
			}
			if or {
				args = append(args, "--or")
			}
			if all {
				args = append(args, "--all")
			}
			var ids []string
			if flag(5) {
				for i := 0; i < 3; i++ {
					ids = append(ids, string(k.Messages[r.Intn(len(k.Messages))].Id))
				}
				args = append(args, "--id", strings.Join(ids, ","))
			}
			want := map[string]bool{}
			for i := range k.Messages {
				m := &k.Messages[i]
				ok := cmdNamed(or, to, m.Recipients)
				if len(from) > 0 {
					any := false
					for _, f := range from {
						any = any || f == string(m.From)
					}
					ok = ok && any
				}
				if len(ids) > 0 {
					ok = false
					for _, id := range ids {
						ok = ok || id == string(m.Id)
					}
				}
				want[string(m.Id)] = ok || all
			}
			cmdCompare(t, args, cmdRun(t, dir, args...), want)
		}
	}
}

func cmdCompare(t *testing.T, args, lines []string, want map[string]bool) {
	t.Helper()
	got := map[string]bool{}
	for _, l := range lines {
		id, _, _ := strings.Cut(l, " ")
		if _, ok := want[id]; ok {
			if got[id] {
				cmdFail(t, "krypto431 %q lists %s twice", args[4:], id)
			}
			got[id] = true
		}
	}
	for id, w := range want {
		if got[id] != w {
			cmdFail(t, "krypto431 %q: item %s selected=%v, expected %v", args[4:], id, got[id], w)
		}
	}
}
