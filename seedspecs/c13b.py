ID="c13-crand-buffer"
PROPERTY="C13"
PKG="."
EDITS=[("crand/crand.go","""func (s cryptoRandSource) Read(p []byte) (n int, err error) {
	s.Lock()
	err = binary.Read(cryptoRand.Reader, binary.BigEndian, &p)
	s.Unlock()
	return len(p), err
}
""","""func (s cryptoRandSource) Read(p []byte) (n int, err error) {
	// draw whole 64-bit words from the generator
	words := make([]uint64, len(p)/8)
	s.Lock()
	err = binary.Read(cryptoRand.Reader, binary.BigEndian, &words)
	s.Unlock()
	if err != nil {
		return 0, err
	}
	for i := range words {
		binary.BigEndian.PutUint64(p[i*8:], words[i])
	}
	return len(p), nil
}
""")]
NEEDS="a binary secret whose length is not a multiple of eight"
BREAKS="the last bytes of the binary content of a message are left in memory by Wipe"
DEMO='''package krypto431
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	for i := 0; i < 8; i++ {
		b := []byte("fifteen bytes!!")
		m := Message{Binary: b}
		m.Wipe()
		if !bytes.HasSuffix(b, []byte("ytes!!")) { return }
	}
	t.Fatal("end of the binary content survives")
}
'''
