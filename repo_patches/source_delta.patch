From 7a7ca00da81dbaa84de3e9653c08f37c25af8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 01/22] fix: refuse a key index beyond the key in
 AppendTrigraphByteByKey

---
 diana/diana.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diana/diana.go b/diana/diana.go
index 244f5c9..1088184 100644
--- a/diana/diana.go
+++ b/diana/diana.go
@@ -132,7 +132,7 @@ func AppendTrigraphByteByKey(writeTo *[]byte, character *byte, key *[]byte, keyI
 	if *keyIndex < 0 {
 		return ErrNegativeKeyIndex
 	}
-	if *keyIndex > len(*writeTo) {
+	if *keyIndex > len(*writeTo) || *keyIndex >= len(*key) {
 		return ErrKeyIndexOutOfBounds
 	}
 	var b byte
-- 
2.43.0


From 3d8fb6baf48ef6ceddeab5e79e9e27047fc3be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 02/22] fix: do not let a message share the id storage of its
 key

---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 124cdc1..e1626e2 100644
--- a/cipher.go
+++ b/cipher.go
@@ -537,7 +537,7 @@ func (m *Message) EnrichWithKey() error {
 	// Mark key as used.
 	designatedKey.Used = true
 	// Enrich message instance with key id.
-	m.KeyId = designatedKey.Id
+	m.KeyId = RuneCopy(&designatedKey.Id)
 	return nil
 }
 
-- 
2.43.0


From 239283012393118e0f2df2bbbc5b750d5dab4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 03/22] fix: mark the key of a caller supplied key id as used
 when enciphering

---
 cipher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cipher.go b/cipher.go
index e1626e2..7e5101f 100644
--- a/cipher.go
+++ b/cipher.go
@@ -570,6 +570,8 @@ func (m *Message) Encipher() error {
 		return err
 	}
 	chunk.key = keyPtr
+	// A key id set by the caller is not marked used by EnrichWithKey.
+	keyPtr.Used = true
 	// If something fails, we need to release all keys we have used.
 	releaseKeys := true
 	defer func() {
-- 
2.43.0


From a9e8bf4affe43ce41e5fe537ea2a2280b43090fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 04/22] fix: refuse characters that can not be encoded instead
 of panicking or altering them

---
 cipher.go    | 12 ++++++++++--
 krypto431.go | 37 +++++++++++++++++++------------------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/cipher.go b/cipher.go
index 7e5101f..0997426 100644
--- a/cipher.go
+++ b/cipher.go
@@ -277,6 +277,14 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// find character in one of the tables
 	c := *input
 	toUpper(&c, &c)
+	if c != *input {
+		// Refuse lower case characters that would decipher to another character.
+		var l rune
+		toLower(&c, &l)
+		if l != *input {
+			return ErrUnsupportedCharacter
+		}
+	}
 	foundIt := false
 	for t := range CharacterTables {
 		for i, tc := range CharacterTables[t] {
@@ -304,8 +312,8 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// zero the copy of rune
 	c = 0
 	if !foundIt {
-		// enter binary mode
-		panic("binary mode not implemented yet")
+		// binary mode is not implemented yet
+		return ErrUnsupportedCharacter
 	}
 
 	return nil
diff --git a/krypto431.go b/krypto431.go
index 5aad0fd..ba7add3 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -48,24 +48,25 @@ var (
 )
 
 var (
-	ErrNilPointer         = errors.New("received a nil pointer")
-	ErrCipherTextTooShort = errors.New("message cipher text is too short to decipher")
-	ErrNoKey              = errors.New("message has an invalid or no key")
-	ErrKeyNotFound        = errors.New("key not found")
-	ErrInvalidCoding      = errors.New("invalid character in encoded text (must be between A-Z)")
-	ErrInvalidControlChar = errors.New("invalid control character")
-	ErrTableTooShort      = errors.New("out-of-bounds, character table is too short")
-	ErrUnsupportedTable   = errors.New("character table not supported")
-	ErrOutOfKeys          = errors.New("can not encipher multi-key message, unable to find additional key(s)")
-	ErrNoCallSign         = errors.New("need to specify your call-sign")
-	ErrInvalidCallSign    = fmt.Errorf("invalid call-sign, should be at least %d characters long", MinimumCallSignLength)
-	ErrNoPersistence      = errors.New("missing file name for persisting keys, messages and settings")
-	ErrInvalidGroupSize   = errors.New("group size must be 1 or longer")
-	ErrKeyTooShort        = fmt.Errorf("key length must be %d characters or longer", MinimumSupportedKeyLength)
-	ErrTooNarrow          = fmt.Errorf("column width must be at least %d characters wide", MinimumColumnWidth)
-	ErrKeyColumnsTooShort = errors.New("key column width less than group size")
-	ErrFormatting         = errors.New("formatting error")
-	ErrNotCipherText      = errors.New("plaintext not identified as ciphertext")
+	ErrNilPointer           = errors.New("received a nil pointer")
+	ErrCipherTextTooShort   = errors.New("message cipher text is too short to decipher")
+	ErrNoKey                = errors.New("message has an invalid or no key")
+	ErrKeyNotFound          = errors.New("key not found")
+	ErrInvalidCoding        = errors.New("invalid character in encoded text (must be between A-Z)")
+	ErrInvalidControlChar   = errors.New("invalid control character")
+	ErrTableTooShort        = errors.New("out-of-bounds, character table is too short")
+	ErrUnsupportedTable     = errors.New("character table not supported")
+	ErrOutOfKeys            = errors.New("can not encipher multi-key message, unable to find additional key(s)")
+	ErrNoCallSign           = errors.New("need to specify your call-sign")
+	ErrInvalidCallSign      = fmt.Errorf("invalid call-sign, should be at least %d characters long", MinimumCallSignLength)
+	ErrNoPersistence        = errors.New("missing file name for persisting keys, messages and settings")
+	ErrInvalidGroupSize     = errors.New("group size must be 1 or longer")
+	ErrKeyTooShort          = fmt.Errorf("key length must be %d characters or longer", MinimumSupportedKeyLength)
+	ErrTooNarrow            = fmt.Errorf("column width must be at least %d characters wide", MinimumColumnWidth)
+	ErrKeyColumnsTooShort   = errors.New("key column width less than group size")
+	ErrFormatting           = errors.New("formatting error")
+	ErrUnsupportedCharacter = errors.New("character can not be encoded (binary mode is not implemented)")
+	ErrNotCipherText        = errors.New("plaintext not identified as ciphertext")
 )
 
 var (
-- 
2.43.0


From 5d89b84c74764dc23a7fa6a54b233744fc3f28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 05/22] fix: change key before the encoded text can outgrow the
 key

---
 cipher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 0997426..2f4e738 100644
--- a/cipher.go
+++ b/cipher.go
@@ -68,6 +68,10 @@ const (
 	// How many control runes/characters are required to change key at most?
 	// (change table, then changeKeyChar = 2)
 	ControlCharactersNeededToChangeKey int = 2
+
+	// How many characters can a single plain text character be encoded into at
+	// most? (change table, toggle case, change table back, the character = 4)
+	MaximumEncodedCharacterLength int = 4
 )
 
 func isUpper(c *rune) bool {
@@ -595,7 +599,8 @@ func (m *Message) Encipher() error {
 		}
 	}()
 	for i := range m.PlainText {
-		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
+		// Change key if the next character and a key change might not both fit.
+		if state.charCounter > chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey-MaximumEncodedCharacterLength {
 			keyPtr := m.instance.FindKey(m.Recipients...)
 			if keyPtr == nil {
 				return ErrOutOfKeys
-- 
2.43.0


From 71bf03087fc3bd44454325d8f949347123cfc369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 06/22] fix: do not select compromised keys

---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 2f4e738..f42adf3 100644
--- a/cipher.go
+++ b/cipher.go
@@ -443,7 +443,7 @@ func (t *Message) Decode() error {
 func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 	numberOfRecipients := len(recipients)
 	for i := range r.Keys {
-		if r.Keys[i].Used {
+		if r.Keys[i].Used || r.Keys[i].Compromised {
 			continue
 		}
 		if len(r.Keys[i].Id) != r.GroupSize {
-- 
2.43.0


From 51b4bf9a7662d3258b306dc67bc8d9b4f4640d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 07/22] fix: leave no partial cipher text on a message when
 enciphering fails

---
 cipher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cipher.go b/cipher.go
index f42adf3..4ab2365 100644
--- a/cipher.go
+++ b/cipher.go
@@ -590,6 +590,7 @@ func (m *Message) Encipher() error {
 		if releaseKeys {
 			m.instance.MarkKeyUsed(m.KeyId, false)
 			Wipe(&m.KeyId)
+			Wipe(&m.CipherText)
 			chunk.key.Used = false
 			for i := range chunks {
 				chunks[i].key.Used = false
-- 
2.43.0


From 5e0440e04c804e190c0352df0e44d8fdfa01568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 08/22] fix: use the second argument of NewTextMessage as key
 id

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 93237f4..76a7ee5 100644
--- a/messages.go
+++ b/messages.go
@@ -137,7 +137,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		// Outgoing message...
 		//fmt.Fprintln(os.Stderr, "outgoing")
 		if len(msg) >= 2 {
-			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[2])))
+			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
 			if len(message.KeyId) != k.GroupSize {
 				return nil, fmt.Errorf("key id \"%s\" must be %d characters long (the configured group size)", string(message.KeyId), k.GroupSize)
 			}
-- 
2.43.0


From b3fb120a77e21f0693584796fe5bb51e8c9fb5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 09/22] fix: export keys as copies independent of the original
 instance

---
 persistence.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 62564c5..9e6cb4f 100644
--- a/persistence.go
+++ b/persistence.go
@@ -487,8 +487,6 @@ func (k *Krypto431) Load() error {
 // override any copied field.
 func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Option) Krypto431 {
 	n := Krypto431{
-		persistenceKey:                BytePtr(ByteCopy(k.persistenceKey)),
-		salt:                          BytePtr(ByteCopy(k.salt)),
 		overwritePersistenceIfExists:  false,
 		interactive:                   k.interactive,
 		overwriteExistingKeysOnImport: false,
@@ -500,6 +498,13 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		Messages:                      make([]Message, 0),
 		CallSign:                      RuneCopy(&k.CallSign),
 	}
+	// A missing PFK or salt stays missing in the new instance.
+	if k.persistenceKey != nil {
+		n.persistenceKey = BytePtr(ByteCopy(k.persistenceKey))
+	}
+	if k.salt != nil {
+		n.salt = BytePtr(ByteCopy(k.salt))
+	}
 	for _, opt := range opts {
 		opt(&n)
 	}
@@ -508,7 +513,16 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 	}
 	for i := range k.Keys {
 		if filterFunction(&k.Keys[i]) {
+			// Copy all rune slices as wiping one of the instances would otherwise
+			// wipe the keys of the other.
 			newKey := k.Keys[i]
+			newKey.Id = RuneCopy(&k.Keys[i].Id)
+			newKey.Runes = RuneCopy(&k.Keys[i].Runes)
+			newKey.Comment = RuneCopy(&k.Keys[i].Comment)
+			newKey.Keepers = make([][]rune, len(k.Keys[i].Keepers))
+			for x := range k.Keys[i].Keepers {
+				newKey.Keepers[x] = RuneCopy(&k.Keys[i].Keepers[x])
+			}
 			newKey.instance = &n
 			n.Keys = append(n.Keys, newKey)
 		}
-- 
2.43.0


From 4e5846d39b22a396896e4579e62bb0aa7f7d429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 10/22] fix: select invalid keys, not valid keys, with
 --invalid

---
 cmd/krypto431/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index 0f46c73..fef4bda 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -63,7 +63,7 @@ func keys(c *cli.Context) error {
 			}
 		}
 		if o.invalid {
-			if key.Compromised || key.IsExpired() {
+			if !key.Compromised && !key.IsExpired() {
 				return false
 			}
 		}
-- 
2.43.0


From cb4faa2c7100b498395d0ac04ade6d120af280f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 11/22] fix: create PDF files readable by the owner only

---
 print.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/print.go b/print.go
index 1b80dd3..90f8089 100644
--- a/print.go
+++ b/print.go
@@ -272,7 +272,7 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 	// page...
 	pdf.AddPage()
 	pdf.MultiCell(0, 3, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return writePDF(pdf, filename)
 }
 
 func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string) error {
@@ -315,5 +315,22 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 	// than maxRows...
 	pdf.AddPage()
 	pdf.MultiCell(0, 4, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return writePDF(pdf, filename)
+}
+
+// writePDF writes the PDF document to a file only the owner can read.
+func writePDF(pdf *gofpdf.Fpdf, filename string) error {
+	if pdf.Err() {
+		return pdf.Error()
+	}
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	err = pdf.Output(f)
+	if err != nil {
+		return err
+	}
+	return f.Close()
 }
-- 
2.43.0


From f3072f3ddbb85c2ce25367af8a865c61ad64305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 12/22] fix: report failure to flush or close the persistence
 file

---
 persistence.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index 9e6cb4f..a26cfc8 100644
--- a/persistence.go
+++ b/persistence.go
@@ -399,7 +399,12 @@ func (k *Krypto431) Save() error {
 	if err != nil {
 		return err
 	}
-	return nil
+	// Flush and close all layers, the file is not complete until both succeed.
+	err = fgz.Close()
+	if err != nil {
+		return err
+	}
+	return encrypter.Close()
 }
 
 // Krypto431_Load() loads a Krypto431 instance from the configured persistence
-- 
2.43.0


From e4ae35b763574e4c7beb3a622d0595765f1b480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 13/22] fix: return an error instead of panicking on a PFK of
 invalid length

---
 persistence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/persistence.go b/persistence.go
index a26cfc8..bbac085 100644
--- a/persistence.go
+++ b/persistence.go
@@ -376,6 +376,9 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
 	// Create persistence file if it does not exist or truncate it if it does exist.
 	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
 	if err != nil {
@@ -445,6 +448,9 @@ func (k *Krypto431) Load() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
 	// Load persisted data...
 	f, err = os.Open(k.persistence)
 	if err != nil {
-- 
2.43.0


From 0b9bb1a3d971789d52e951703cadb01f99098996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 14/22] fix: do not share call-sign storage between imported
 keys

---
 persistence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index bbac085..8df1ae0 100644
--- a/persistence.go
+++ b/persistence.go
@@ -626,7 +626,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 			newKey.instance = k
 			// Remove my call-sign from keepers, add incoming station's call-sign to
 			// keepers and hand over key to our instance (importedKey.instance = k).
-			newKey.RemoveKeeper(k.CallSign).AddKeeper(incoming.Keys[i].GetCallSign()).
+			newKey.RemoveKeeper(k.CallSign).AddKeeper(RuneCopy(&incoming.CallSign)).
 				SetInstance(k)
 			k.Keys = append(k.Keys, newKey)
 			keyCount++
-- 
2.43.0


From b2d3e5b1aa84c442284d03897a8f833a69f8f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 15/22] fix: wipe the raw radiogram and binary data of a
 message

---
 krypto431.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index ba7add3..9d2db79 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -340,8 +340,8 @@ func (m *Message) Wipe() {
 	}
 }
 
-// RandomWipe assigned method for Text wipes PlainText, CipherText
-// and KeyId fields.
+// RandomWipe assigned method for Text wipes PlainText, Binary, CipherText,
+// Radiogram and KeyId fields.
 func (m *Message) RandomWipe() {
 	// wipe PlainText
 	written, err := crand.ReadRunes(m.PlainText)
@@ -351,6 +351,14 @@ func (m *Message) RandomWipe() {
 		}
 	}
 	m.PlainText = nil
+	// wipe Binary
+	written, err = crand.Read(m.Binary)
+	if err != nil || written != len(m.Binary) {
+		for i := 0; i < len(m.Binary); i++ {
+			m.Binary[i] = 0
+		}
+	}
+	m.Binary = nil
 	// wipe CipherText
 	written, err = crand.ReadRunes(m.CipherText)
 	if err != nil || written != len(m.CipherText) {
@@ -359,6 +367,14 @@ func (m *Message) RandomWipe() {
 		}
 	}
 	m.CipherText = nil
+	// wipe Radiogram
+	written, err = crand.ReadRunes(m.Radiogram)
+	if err != nil || written != len(m.Radiogram) {
+		for i := 0; i < len(m.Radiogram); i++ {
+			m.Radiogram[i] = 0
+		}
+	}
+	m.Radiogram = nil
 	// wipe KeyId
 	written, err = crand.ReadRunes(m.KeyId)
 	if err != nil || written != len(m.KeyId) {
@@ -377,11 +393,21 @@ func (m *Message) ZeroWipe() {
 		m.PlainText[i] = 0
 	}
 	m.PlainText = nil
+	// wipe Binary
+	for i := 0; i < len(m.Binary); i++ {
+		m.Binary[i] = 0
+	}
+	m.Binary = nil
 	// wipe CipherText
 	for i := 0; i < len(m.CipherText); i++ {
 		m.CipherText[i] = 0
 	}
 	m.CipherText = nil
+	// wipe Radiogram
+	for i := 0; i < len(m.Radiogram); i++ {
+		m.Radiogram[i] = 0
+	}
+	m.Radiogram = nil
 	// wipe KeyId
 	for i := 0; i < len(m.KeyId); i++ {
 		m.KeyId[i] = 0
-- 
2.43.0


From f2618f9bff7866c2ea4a6a77910dfb41c3bb1e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 16/22] fix: do not index header fields out of range in
 ColumnSizes

---
 functions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index 8588ce5..053c583 100644
--- a/functions.go
+++ b/functions.go
@@ -266,7 +266,7 @@ func ColumnSizes(rs [][][]rune, headerFields ...string) (columnSizes []int) {
 	for item := range rs {
 		for col := range rs[item] {
 			ilen := len(rs[item][col])
-			if len(headerFields) >= col {
+			if len(headerFields) > col {
 				hlen := len(headerFields[col])
 				if hlen > ilen {
 					ilen = hlen
-- 
2.43.0


From d1492663e15e56d505f5515aa91f8e5f538f50a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 17/22] fix: zero a slice when it can not be wiped with random
 data

---
 krypto431.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 9d2db79..a6f517f 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -196,10 +196,8 @@ func RandomWipe(b *[]rune) error {
 	}
 	written, err := crand.ReadRunes(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
 		ZeroWipe(b)
+		return err
 	}
 	*b = nil
 	return nil
@@ -243,10 +241,8 @@ func RandomWipeBytes(b *[]byte) error {
 	}
 	written, err := crand.Read(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
 		ZeroWipeBytes(b)
+		return err
 	}
 	*b = nil
 	return nil
-- 
2.43.0


From aa72c690c27fc39ffc158084b8bbd3ec9f66f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 18/22] fix: remove every occurrence of a keeper in
 RemoveKeeper

---
 keys.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index aab5542..87e1d0d 100644
--- a/keys.go
+++ b/keys.go
@@ -154,11 +154,12 @@ func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 // chained.
 func (k *Key) RemoveKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
-		for i := range k.Keepers {
+		// Backwards as the last keeper replaces the removed one. A keeper can occur
+		// more than once.
+		for i := len(k.Keepers) - 1; i >= 0; i-- {
 			if EqualRunesFold(&keeper, &k.Keepers[i]) {
 				k.Keepers[i] = k.Keepers[len(k.Keepers)-1]
 				k.Keepers = k.Keepers[:len(k.Keepers)-1]
-				break
 			}
 		}
 	}
-- 
2.43.0


From 1941c35a3f6785a347bd7c505365558d78b5cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 19/22] fix: keep own PFK and salt when importing with them

---
 persistence.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/persistence.go b/persistence.go
index 8df1ae0..4968580 100644
--- a/persistence.go
+++ b/persistence.go
@@ -563,6 +563,13 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Option) (int, error) {
 	keyCount := 0
 	incoming := New(opts...)
+	// The incoming instance is wiped, do not let it wipe our own PFK or salt.
+	if incoming.persistenceKey != nil && incoming.persistenceKey == k.persistenceKey {
+		incoming.persistenceKey = BytePtr(ByteCopy(k.persistenceKey))
+	}
+	if incoming.salt != nil && incoming.salt == k.salt {
+		incoming.salt = BytePtr(ByteCopy(k.salt))
+	}
 	fmt.Fprintf(os.Stderr, "Importing keys from %s"+LineBreak, incoming.GetPersistence())
 
 	err := incoming.Load()
-- 
2.43.0


From 85290ad22e5f2b689aa5e2643e90ce1f2c8a48d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 20/22] fix: honour WithOverwriteExistingKeysOnImport given to
 ImportKeys

---
 persistence.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 4968580..fff8070 100644
--- a/persistence.go
+++ b/persistence.go
@@ -577,6 +577,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		return 0, err
 	}
 	defer incoming.Wipe()
+	overwriteExisting := k.overwriteExistingKeysOnImport || incoming.overwriteExistingKeysOnImport
 	for i := range incoming.Keys {
 		if len(incoming.Keys[i].Id) != k.GroupSize {
 			fmt.Fprintf(os.Stderr, "Key ID %s is not %d characters long (our group size), will not import.", string(incoming.Keys[i].Id), k.GroupSize)
@@ -584,7 +585,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		}
 		if filterFunction(&incoming.Keys[i]) {
 			if k.ContainsKeyId(&incoming.Keys[i].Id) {
-				if !k.overwriteExistingKeysOnImport && k.interactive && IsTerminal() {
+				if !overwriteExisting && k.interactive && IsTerminal() {
 					overwrite := false
 					prompt := &survey.Confirm{
 						Message: fmt.Sprintf("Key ID %s already exist, replace with imported key?", string(incoming.Keys[i].Id)),
@@ -596,7 +597,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 					if !overwrite {
 						continue
 					}
-				} else if !k.overwriteExistingKeysOnImport {
+				} else if !overwriteExisting {
 					fmt.Fprintf(os.Stderr, "Key ID %s already exist, will not import.", string(incoming.Keys[i].Id))
 					continue
 				}
-- 
2.43.0


From e365e905ee3b08428de46e3333342b7d491cab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:18 +0000
Subject: [PATCH 21/22] fix: load the persistence file into an empty store
 instead of mixing it with existing data

---
 persistence.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index fff8070..296cf62 100644
--- a/persistence.go
+++ b/persistence.go
@@ -472,10 +472,20 @@ func (k *Krypto431) Load() error {
 	}
 	defer fgz.Close()
 	gobDecoder := gob.NewDecoder(fgz)
-	err = gobDecoder.Decode(k)
+	// Decode into an empty instance, gob does not store zero values and would
+	// otherwise mix the file's data with what is already in k.
+	var stored Krypto431
+	err = gobDecoder.Decode(&stored)
 	if err != nil {
 		return err
 	}
+	k.GroupSize = stored.GroupSize
+	k.KeyLength = stored.KeyLength
+	k.Columns = stored.Columns
+	k.KeyColumns = stored.KeyColumns
+	k.Keys = stored.Keys
+	k.Messages = stored.Messages
+	k.CallSign = stored.CallSign
 	// Fix all non-exported instance fields in keys and messages...
 	for i := range k.Keys {
 		k.Keys[i].instance = k
-- 
2.43.0


From a05b7bd15e8946e25bb4831c46d9fb0c0760f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 22/22] fix: verify the checksum of the persistence file when
 loading

---
 persistence.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/persistence.go b/persistence.go
index 296cf62..e4544c1 100644
--- a/persistence.go
+++ b/persistence.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"log"
 	"os"
@@ -479,6 +480,12 @@ func (k *Krypto431) Load() error {
 	if err != nil {
 		return err
 	}
+	// Read to the end, gzip verifies its checksum there. Without it, encrypted
+	// chunks that were exchanged in the file can go unnoticed.
+	_, err = io.Copy(io.Discard, fgz)
+	if err != nil {
+		return err
+	}
 	k.GroupSize = stored.GroupSize
 	k.KeyLength = stored.KeyLength
 	k.Columns = stored.Columns
-- 
2.43.0

