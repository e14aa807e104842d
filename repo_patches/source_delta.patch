From a5b45f8fe4c79d198cf78b382312df5485e4aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:21 +0000
Subject: [PATCH 01/25] fix: never pick a compromised key for a new message

---
 cipher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index 124cdc1..111d8bf 100644
--- a/cipher.go
+++ b/cipher.go
@@ -424,14 +424,14 @@ func (t *Message) Decode() error {
 }
 */
 
-// FindKey returns the first un-used key of the configured group size where all
+// FindKey returns the first un-used and un-compromised key of the configured group size where all
 // recipients are keepers of that key. If the recipient slice is empty, it will
 // find the first un-used anonymous key (a key without any keepers). Function
 // returns a pointer to the key. FindKey will not mark the key as used.
 func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 	numberOfRecipients := len(recipients)
 	for i := range r.Keys {
-		if r.Keys[i].Used {
+		if r.Keys[i].Used || r.Keys[i].Compromised {
 			continue
 		}
 		if len(r.Keys[i].Id) != r.GroupSize {
-- 
2.43.0


From b04c03ebb025934173fd0c16c0ff08e046137e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 02/25] fix: mark an explicitly chosen message key as used when
 enciphering

---
 cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cipher.go b/cipher.go
index 111d8bf..4a7e81a 100644
--- a/cipher.go
+++ b/cipher.go
@@ -569,6 +569,9 @@ func (m *Message) Encipher() error {
 	if err != nil {
 		return err
 	}
+	// The key is spent also when it was chosen by the caller (message key id set
+	// before calling Encipher).
+	keyPtr.Used = true
 	chunk.key = keyPtr
 	// If something fails, we need to release all keys we have used.
 	releaseKeys := true
-- 
2.43.0


From 95806fcace567c15630fd58ed918d0b4be7f9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 03/25] fix: do not share the key id slice between message and
 key store

---
 cipher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index 4a7e81a..d4c328b 100644
--- a/cipher.go
+++ b/cipher.go
@@ -536,8 +536,9 @@ func (m *Message) EnrichWithKey() error {
 	}
 	// Mark key as used.
 	designatedKey.Used = true
-	// Enrich message instance with key id.
-	m.KeyId = designatedKey.Id
+	// Enrich message instance with a copy of the key id (wiping the message must
+	// not wipe the id of the key in the key store).
+	m.KeyId = RuneCopy(&designatedKey.Id)
 	return nil
 }
 
-- 
2.43.0


From 93de1226d6e9f3462cfecc1f883140858d2099a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 04/25] fix: NewTextMessage read its optional key id argument
 out of range

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 93237f4..76a7ee5 100644
--- a/messages.go
+++ b/messages.go
@@ -137,7 +137,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		// Outgoing message...
 		//fmt.Fprintln(os.Stderr, "outgoing")
 		if len(msg) >= 2 {
-			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[2])))
+			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
 			if len(message.KeyId) != k.GroupSize {
 				return nil, fmt.Errorf("key id \"%s\" must be %d characters long (the configured group size)", string(message.KeyId), k.GroupSize)
 			}
-- 
2.43.0


From 78f3fa493c875b2bb86aa73e44603485e664893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 05/25] fix: return an error instead of panicking on characters
 outside the tables

---
 cipher.go    | 4 ++--
 krypto431.go | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index d4c328b..20effb8 100644
--- a/cipher.go
+++ b/cipher.go
@@ -304,8 +304,8 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// zero the copy of rune
 	c = 0
 	if !foundIt {
-		// enter binary mode
-		panic("binary mode not implemented yet")
+		// would need to enter binary mode
+		return ErrUnsupportedCharacter
 	}
 
 	return nil
diff --git a/krypto431.go b/krypto431.go
index 5aad0fd..79d50e0 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -66,6 +66,8 @@ var (
 	ErrKeyColumnsTooShort = errors.New("key column width less than group size")
 	ErrFormatting         = errors.New("formatting error")
 	ErrNotCipherText      = errors.New("plaintext not identified as ciphertext")
+
+	ErrUnsupportedCharacter = errors.New("text contains a character that is not in the character tables (binary mode is not implemented yet)")
 )
 
 var (
-- 
2.43.0


From 758d5a5de392cda4a1300941c2bb498513e086f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 06/25] fix: wipe the radiogram and binary fields of a message

---
 krypto431.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/krypto431.go b/krypto431.go
index 79d50e0..7879ec7 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -368,6 +368,22 @@ func (m *Message) RandomWipe() {
 		}
 	}
 	m.KeyId = nil
+	// wipe Radiogram (contains the plaintext as entered or received)
+	written, err = crand.ReadRunes(m.Radiogram)
+	if err != nil || written != len(m.Radiogram) {
+		for i := 0; i < len(m.Radiogram); i++ {
+			m.Radiogram[i] = 0
+		}
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	written, err = crand.Read(m.Binary)
+	if err != nil || written != len(m.Binary) {
+		for i := 0; i < len(m.Binary); i++ {
+			m.Binary[i] = 0
+		}
+	}
+	m.Binary = nil
 }
 
 // ZeroWipe assigned method for PlainText writes zeroes to Text and EncodedText
@@ -388,6 +404,16 @@ func (m *Message) ZeroWipe() {
 		m.KeyId[i] = 0
 	}
 	m.KeyId = nil
+	// wipe Radiogram (contains the plaintext as entered or received)
+	for i := 0; i < len(m.Radiogram); i++ {
+		m.Radiogram[i] = 0
+	}
+	m.Radiogram = nil
+	// wipe Binary
+	for i := 0; i < len(m.Binary); i++ {
+		m.Binary[i] = 0
+	}
+	m.Binary = nil
 }
 
 // Wipe overwrites a chunk with either random runes or zeroes.
-- 
2.43.0


From 6cf72ac484eecd159d8496270decb19453b551bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 07/25] fix: wipe encoded text after enciphering and partial
 cipher text on failure

---
 cipher.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index 20effb8..e96b1e3 100644
--- a/cipher.go
+++ b/cipher.go
@@ -580,13 +580,17 @@ func (m *Message) Encipher() error {
 		if releaseKeys {
 			m.instance.MarkKeyUsed(m.KeyId, false)
 			Wipe(&m.KeyId)
+			Wipe(&m.CipherText)
 			chunk.key.Used = false
 			for i := range chunks {
 				chunks[i].key.Used = false
-				chunks[i].Wipe()
 			}
-			chunk.Wipe()
 		}
+		// The encoded text is as sensitive as the plain text.
+		for i := range chunks {
+			chunks[i].Wipe()
+		}
+		chunk.Wipe()
 	}()
 	for i := range m.PlainText {
 		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
-- 
2.43.0


From 6ee689f547cd8d50a970200bfa0e5ace7054380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 08/25] fix: zero-wipe a slice when the random wipe fails

---
 krypto431.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 7879ec7..b828aae 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -197,13 +197,11 @@ func RandomWipe(b *[]rune) error {
 	}
 	written, err := crand.ReadRunes(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
+		// zero-wipe slice instead...
 		ZeroWipe(b)
 	}
 	*b = nil
-	return nil
+	return err
 }
 
 // ZeroWipe wipes a rune slice with zeroes.
@@ -244,13 +242,11 @@ func RandomWipeBytes(b *[]byte) error {
 	}
 	written, err := crand.Read(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
+		// zero-wipe slice instead...
 		ZeroWipeBytes(b)
 	}
 	*b = nil
-	return nil
+	return err
 }
 
 // ZeroWipeBytes wipes a byte slice with zeroes.
-- 
2.43.0


From 5551429508f0d4533a141cac3dce8cb28aacc1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 09/25] fix: wipe the first password when the confirmation
 prompt fails

---
 persistence.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/persistence.go b/persistence.go
index 62564c5..70f024d 100644
--- a/persistence.go
+++ b/persistence.go
@@ -247,6 +247,7 @@ func AskAndConfirmPassword(prompt string, minimumEntropyBits float64) (*[]byte,
 		}
 		pwd2 = AskForPassword(prompt+RepeatPromptSuffix, 0)
 		if pwd2 == nil {
+			WipeBytes(pwd1)
 			return nil, ErrPasswordInput
 		}
 		if bytes.Equal(*pwd1, *pwd2) {
@@ -272,6 +273,7 @@ func OldAskAndConfirmPassword(prompt string, minimumLength int) (*[]byte, error)
 		}
 		pwd2 = AskForPassword(prompt+RepeatPromptSuffix, 0)
 		if pwd2 == nil {
+			WipeBytes(pwd1)
 			return nil, ErrPasswordInput
 		}
 		if bytes.Equal(*pwd1, *pwd2) {
-- 
2.43.0


From eff90039ee0bc153f7adeb702af1e575200284b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 10/25] fix: return an error instead of panicking on a
 persistence key of the wrong length

---
 persistence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/persistence.go b/persistence.go
index 70f024d..93c8d87 100644
--- a/persistence.go
+++ b/persistence.go
@@ -378,6 +378,9 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
 	// Create persistence file if it does not exist or truncate it if it does exist.
 	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
 	if err != nil {
@@ -442,6 +445,9 @@ func (k *Krypto431) Load() error {
 			return ErrNilPFK
 		}
 	}
+	if len(*k.persistenceKey) != 32 {
+		return ErrInvalidPFK
+	}
 	// Load persisted data...
 	f, err = os.Open(k.persistence)
 	if err != nil {
-- 
2.43.0


From c5e346b43d3c0caf5d010e543ff601aee0157f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 11/25] fix: Save returned success when the user declined to
 overwrite the file

---
 persistence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index 93c8d87..ce916fd 100644
--- a/persistence.go
+++ b/persistence.go
@@ -356,7 +356,7 @@ func (k *Krypto431) Save() error {
 					return err
 				}
 				if !overwrite {
-					return nil
+					return fmt.Errorf("file %s already exist (not overwritten)", k.persistence)
 				}
 			} else {
 				return fmt.Errorf("file %s already exist (will not overwrite)", k.persistence)
-- 
2.43.0


From aee6bb18cf62825b83dca76e67983492ba0cd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 12/25] fix: Save reported success before the file was
 completely written

---
 persistence.go | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/persistence.go b/persistence.go
index ce916fd..eb5698e 100644
--- a/persistence.go
+++ b/persistence.go
@@ -381,12 +381,28 @@ func (k *Krypto431) Save() error {
 	if len(*k.persistenceKey) != 32 {
 		return ErrInvalidPFK
 	}
-	// Create persistence file if it does not exist or truncate it if it does exist.
-	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	// Write a new file (mode 0600) next to the persistence file and rename it when
+	// it is complete, an existing file must not be lost if saving fails half-way.
+	target := k.persistence
+	resolved, err := filepath.EvalSymlinks(target)
+	if err == nil {
+		target = resolved
+	}
+	fi, err := os.Lstat(target)
+	if err == nil && !fi.Mode().IsRegular() {
+		return fmt.Errorf("%s is not a regular file", k.persistence)
+	}
+	f, err := os.CreateTemp(filepath.Dir(target), "."+filepath.Base(target)+".*")
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	saved := false
+	defer func() {
+		if !saved {
+			f.Close()
+			os.Remove(f.Name())
+		}
+	}()
 	// Krypto431 persistence files are encrypted, gzipped GOB files.
 	encrypter, err := stream.NewEncryptedStream(f, &stream.Config{
 		Cipher:          stream.NewXSalsa20Poly1305Cipher((*[32]byte)(*k.persistenceKey)),
@@ -396,14 +412,31 @@ func (k *Krypto431) Save() error {
 	if err != nil {
 		return err
 	}
-	defer encrypter.Close()
 	fgz := gzip.NewWriter(encrypter)
-	defer fgz.Close()
 	gobEncoder := gob.NewEncoder(fgz)
 	err = gobEncoder.Encode(k)
 	if err != nil {
 		return err
 	}
+	// Write what is left in the compressor, the file is incomplete without it.
+	err = fgz.Close()
+	if err != nil {
+		return err
+	}
+	err = f.Sync()
+	if err != nil {
+		return err
+	}
+	// Also closes the file.
+	err = encrypter.Close()
+	if err != nil {
+		return err
+	}
+	err = os.Rename(f.Name(), target)
+	if err != nil {
+		return err
+	}
+	saved = true
 	return nil
 }
 
-- 
2.43.0


From dc904e636ddaa25cde37c15024b68e6d36b73db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 13/25] fix: ExportKeys shared key slices with the exporting
 instance

---
 persistence.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index eb5698e..e555466 100644
--- a/persistence.go
+++ b/persistence.go
@@ -528,8 +528,6 @@ func (k *Krypto431) Load() error {
 // override any copied field.
 func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Option) Krypto431 {
 	n := Krypto431{
-		persistenceKey:                BytePtr(ByteCopy(k.persistenceKey)),
-		salt:                          BytePtr(ByteCopy(k.salt)),
 		overwritePersistenceIfExists:  false,
 		interactive:                   k.interactive,
 		overwriteExistingKeysOnImport: false,
@@ -541,6 +539,12 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		Messages:                      make([]Message, 0),
 		CallSign:                      RuneCopy(&k.CallSign),
 	}
+	if k.persistenceKey != nil {
+		n.persistenceKey = BytePtr(ByteCopy(k.persistenceKey))
+	}
+	if k.salt != nil {
+		n.salt = BytePtr(ByteCopy(k.salt))
+	}
 	for _, opt := range opts {
 		opt(&n)
 	}
@@ -549,7 +553,15 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 	}
 	for i := range k.Keys {
 		if filterFunction(&k.Keys[i]) {
+			// Copy the slices, wiping the exported keys must not wipe our keys.
 			newKey := k.Keys[i]
+			newKey.Id = RuneCopy(&k.Keys[i].Id)
+			newKey.Runes = RuneCopy(&k.Keys[i].Runes)
+			newKey.Comment = RuneCopy(&k.Keys[i].Comment)
+			newKey.Keepers = nil
+			for x := range k.Keys[i].Keepers {
+				newKey.Keepers = append(newKey.Keepers, RuneCopy(&k.Keys[i].Keepers[x]))
+			}
 			newKey.instance = &n
 			n.Keys = append(n.Keys, newKey)
 		}
-- 
2.43.0


From 192c883fe37ee59e78c5acbcea9d3d6672fa989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 14/25] fix: write PDF files with mode 0600

---
 print.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/print.go b/print.go
index 1b80dd3..7ba21d4 100644
--- a/print.go
+++ b/print.go
@@ -272,7 +272,7 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 	// page...
 	pdf.AddPage()
 	pdf.MultiCell(0, 3, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return writePDF(pdf, filename)
 }
 
 func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string) error {
@@ -315,5 +315,19 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 	// than maxRows...
 	pdf.AddPage()
 	pdf.MultiCell(0, 4, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	return writePDF(pdf, filename)
+}
+
+// writePDF writes the document to a file that only the owner can read.
+func writePDF(pdf *gofpdf.Fpdf, filename string) error {
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	err = pdf.Output(f)
+	if err != nil {
+		return err
+	}
+	return f.Close()
 }
-- 
2.43.0


From 147b1ff0fa3fd042c7b67dfb743d3e34535d9ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 15/25] fix: report a failure to close a written text file

---
 print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/print.go b/print.go
index 7ba21d4..5cb5bf3 100644
--- a/print.go
+++ b/print.go
@@ -212,7 +212,7 @@ func (k *Krypto431) KeysTextFile(filter func(key *Key) bool, filename string) er
 	if err != nil {
 		return err
 	}
-	return nil
+	return f.Close()
 }
 
 func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename string) error {
@@ -229,7 +229,7 @@ func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename st
 	if err != nil {
 		return err
 	}
-	return nil
+	return f.Close()
 }
 
 func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
-- 
2.43.0


From 8ef0f9818416ee6a2cbc15e3f18c804d0d1e52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 16/25] fix: --invalid selected the valid keys

---
 cmd/krypto431/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index 0f46c73..fef4bda 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -63,7 +63,7 @@ func keys(c *cli.Context) error {
 			}
 		}
 		if o.invalid {
-			if key.Compromised || key.IsExpired() {
+			if !key.Compromised && !key.IsExpired() {
 				return false
 			}
 		}
-- 
2.43.0


From eb7de834e65b24eeb324e9d1a26c69b84fcd8cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 17/25] fix: save the used keys before showing the cipher text
 of a new message

---
 cmd/krypto431/messages.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 1be8a18..09ba2e7 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -132,11 +132,13 @@ func messages(c *cli.Context) error {
 		if err != nil {
 			return err
 		}
-		fmt.Println(msg.String())
+		// Save first, the keys of an enciphered message must be marked used before
+		// the cipher text is available for transmission.
 		err = k.Save()
 		if err != nil {
 			return err
 		}
+		fmt.Println(msg.String())
 		eprintf("Saved message %s in %s."+LineBreak, msg.IdString(), k.GetPersistence())
 	}
 
-- 
2.43.0


From c75e19075c45194b9e4e7dd884c1264d51f13806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 18/25] fix: check the key index against the length of the key

---
 diana/diana.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diana/diana.go b/diana/diana.go
index 244f5c9..1088184 100644
--- a/diana/diana.go
+++ b/diana/diana.go
@@ -132,7 +132,7 @@ func AppendTrigraphByteByKey(writeTo *[]byte, character *byte, key *[]byte, keyI
 	if *keyIndex < 0 {
 		return ErrNegativeKeyIndex
 	}
-	if *keyIndex > len(*writeTo) {
+	if *keyIndex > len(*writeTo) || *keyIndex >= len(*key) {
 		return ErrKeyIndexOutOfBounds
 	}
 	var b byte
-- 
2.43.0


From e8e66d0d1650354401e0fa9af2b7a98bb80dab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 19/25] fix: ImportKeys wiped the PFK and salt of the caller

---
 persistence.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index e555466..751e85c 100644
--- a/persistence.go
+++ b/persistence.go
@@ -591,13 +591,21 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Option) (int, error) {
 	keyCount := 0
 	incoming := New(opts...)
+	// The incoming instance is wiped when we are done, a PFK or salt given as an
+	// option must not be (it may be the one of the receiving instance).
+	if incoming.persistenceKey != nil {
+		incoming.persistenceKey = BytePtr(ByteCopy(incoming.persistenceKey))
+	}
+	if incoming.salt != nil {
+		incoming.salt = BytePtr(ByteCopy(incoming.salt))
+	}
+	defer incoming.Wipe()
 	fmt.Fprintf(os.Stderr, "Importing keys from %s"+LineBreak, incoming.GetPersistence())
 
 	err := incoming.Load()
 	if err != nil {
 		return 0, err
 	}
-	defer incoming.Wipe()
 	for i := range incoming.Keys {
 		if len(incoming.Keys[i].Id) != k.GroupSize {
 			fmt.Fprintf(os.Stderr, "Key ID %s is not %d characters long (our group size), will not import.", string(incoming.Keys[i].Id), k.GroupSize)
@@ -654,7 +662,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 			newKey.instance = k
 			// Remove my call-sign from keepers, add incoming station's call-sign to
 			// keepers and hand over key to our instance (importedKey.instance = k).
-			newKey.RemoveKeeper(k.CallSign).AddKeeper(incoming.Keys[i].GetCallSign()).
+			newKey.RemoveKeeper(k.CallSign).AddKeeper(RuneCopy(&incoming.CallSign)).
 				SetInstance(k)
 			k.Keys = append(k.Keys, newKey)
 			keyCount++
-- 
2.43.0


From 8e82ed43c6ebe077fecd2bc08b3ecc3157426a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 20/25] fix: initialize created a store without a call-sign
 when it was invalid

---
 cmd/krypto431/initialize.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/initialize.go b/cmd/krypto431/initialize.go
index 2385650..eea0e5e 100644
--- a/cmd/krypto431/initialize.go
+++ b/cmd/krypto431/initialize.go
@@ -162,7 +162,13 @@ func initialize(c *cli.Context) error {
 	)
 	defer k.Wipe()
 
-	err := setSaltAndPFK(c, &k)
+	// WithCallSign() ignores an invalid call-sign.
+	err := k.SetCallSign(o.call)
+	if err != nil {
+		return err
+	}
+
+	err = setSaltAndPFK(c, &k)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ef5d50bf982b09d9458bcb56e5a0c4ac739932ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:18 +0000
Subject: [PATCH 21/25] fix: wipe a password that is too short before asking
 again

---
 persistence.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/persistence.go b/persistence.go
index 751e85c..a6927ab 100644
--- a/persistence.go
+++ b/persistence.go
@@ -219,6 +219,7 @@ func AskForPassword(prompt string, minimumLength int) *[]byte {
 			return nil
 		}
 		if len(pw) < minimumLength {
+			WipeBytes(&pw)
 			fmt.Fprintf(os.Stderr, "\nPassphrase must be at least %d characters long, try again.\n", minimumLength)
 		} else {
 			fmt.Fprintln(os.Stderr)
-- 
2.43.0


From 1d20c57130fa78d8ad0749d5d3a410dfb73e77d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:37 +0000
Subject: [PATCH 22/25] fix: save the key store when listing deciphered a
 message

Listing messages (also for the choice of those to delete) deciphers messages
whose key was not in the store when they were received, but the key was not
marked used in the file and could be used to encipher later.
---
 cmd/krypto431/messages.go | 20 +++++++++++++++++++-
 messages.go               | 14 ++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 09ba2e7..c081ddb 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -78,6 +78,10 @@ func messages(c *cli.Context) error {
 		}
 		deleted := 0
 		if !o.yes {
+			err := saveDeciphered(&k, filterFunction)
+			if err != nil {
+				return err
+			}
 			_, lines := k.SummaryOfMessages(filterFunction)
 			if len(lines) == 0 {
 				plural := ""
@@ -98,7 +102,7 @@ func messages(c *cli.Context) error {
 				Options:  messageStrings,
 				PageSize: 20,
 			}
-			err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
+			err = survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
 			if err != nil {
 				return err
 			}
@@ -150,6 +154,10 @@ func messages(c *cli.Context) error {
 			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
 			return nil
 		}
+		err := saveDeciphered(&k, filterFunction)
+		if err != nil {
+			return err
+		}
 		header, lines := k.SummaryOfMessages(filterFunction)
 		if len(lines) == 0 {
 			plural := ""
@@ -199,3 +207,13 @@ func messages(c *cli.Context) error {
 	}
 	return nil
 }
+
+// saveDeciphered deciphers the selected messages that could not be deciphered
+// before and saves the instance if there were any, their keys must be marked
+// used in the file too.
+func saveDeciphered(k *krypto431.Krypto431, filter func(msg *krypto431.Message) bool) error {
+	if k.DecipherMessages(filter) > 0 {
+		return k.Save()
+	}
+	return nil
+}
diff --git a/messages.go b/messages.go
index 76a7ee5..1d003b1 100644
--- a/messages.go
+++ b/messages.go
@@ -403,6 +403,20 @@ func (m *Message) QRZString() string {
 	return string(m.instance.CallSign)
 }
 
+// DecipherMessages attempts to decipher the selected messages that have not been
+// deciphered yet (see TryDecipherPlainText) and returns how many it deciphered.
+// If that is above 0 the instance should be saved, the keys of the deciphered
+// messages are now marked used.
+func (k *Krypto431) DecipherMessages(filter func(msg *Message) bool) (deciphered int) {
+	for i := range k.Messages {
+		if filter(&k.Messages[i]) && k.Messages[i].TryDecipherPlainText(true) == nil &&
+			k.Messages[i].TryDecipherPlainText(false) == nil {
+			deciphered++
+		}
+	}
+	return deciphered
+}
+
 func (k *Krypto431) SummaryOfMessages(filter func(msg *Message) bool) (header []rune, lines [][]rune) {
 	var mp []*Message
 	for i := range k.Messages {
-- 
2.43.0


From d990348cf174948bff4254255c402b8ded6b58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:51 +0000
Subject: [PATCH 23/25] fix: leave room for a change of key after any character
 of a message

A character may need four letters (change table, toggle case, change table
back, letter), but a part was only ended when there was no room for the change
of key itself. Mixed-case texts failed with "key is too short to encipher
chunk" although there were keys.
---
 cipher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index e96b1e3..74b21bd 100644
--- a/cipher.go
+++ b/cipher.go
@@ -68,6 +68,10 @@ const (
 	// How many control runes/characters are required to change key at most?
 	// (change table, then changeKeyChar = 2)
 	ControlCharactersNeededToChangeKey int = 2
+
+	// How many letters does a single character need at most? (change table,
+	// toggle case, change table back and the letter of the character = 4)
+	MaxLettersPerCharacter int = 4
 )
 
 func isUpper(c *rune) bool {
@@ -593,7 +597,8 @@ func (m *Message) Encipher() error {
 		chunk.Wipe()
 	}()
 	for i := range m.PlainText {
-		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
+		// There has to be room for changing the key after this character.
+		if state.charCounter+MaxLettersPerCharacter > chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
 			keyPtr := m.instance.FindKey(m.Recipients...)
 			if keyPtr == nil {
 				return ErrOutOfKeys
-- 
2.43.0


From b10d6c7cb5a446af8658c35f8a0a2a52dfe5d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:35 +0000
Subject: [PATCH 24/25] fix: do not share the call-sign of the instance with
 the recipients of a message

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 1d003b1..9e4bba5 100644
--- a/messages.go
+++ b/messages.go
@@ -151,7 +151,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		//fmt.Fprintln(os.Stderr, "incoming")
 		// Add yourself if there are no recipients (this is a shortcut for the shortest radiogram)
 		if len(message.Recipients) == 0 {
-			message.AddRecipient(k.GetCallSign())
+			message.AddRecipient(RuneCopy(&k.CallSign))
 		}
 		err := message.TryDecipherPlainText()
 		if err != nil {
-- 
2.43.0


From c97c4ff47578481024cf64aae38b42ea62fd92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:10 +0000
Subject: [PATCH 25/25] fix: ColumnSizes no longer indexes past the end of the
 header fields

---
 functions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index 8588ce5..053c583 100644
--- a/functions.go
+++ b/functions.go
@@ -266,7 +266,7 @@ func ColumnSizes(rs [][][]rune, headerFields ...string) (columnSizes []int) {
 	for item := range rs {
 		for col := range rs[item] {
 			ilen := len(rs[item][col])
-			if len(headerFields) >= col {
+			if len(headerFields) > col {
 				hlen := len(headerFields[col])
 				if hlen > ilen {
 					ilen = hlen
-- 
2.43.0

