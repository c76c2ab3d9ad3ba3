From 37dd95427b8ffa059e6009f661b9bc39c569cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 01/23] fix: blake2b proof serialization wrote children 0 and 1
 twice for arity 256

---
 models/trie_blake2b/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 81785c6..f31f2f5 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -201,7 +201,7 @@ func (e *ProofElement) Write(w io.Writer, arity trie.PathArity, sz HashSize) err
 		if _, err = w.Write(flags[:]); err != nil {
 			return err
 		}
-		for i := 0; i < arity.VectorLength(); i++ {
+		for i := 0; i < arity.NumChildren(); i++ {
 			child, ok := e.Children[uint8(i)]
 			if !ok {
 				continue
-- 
2.43.0


From 1198b0e1649be375d71c0509d5594fa34d14a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 02/23] fix: blake2b proof verification did not bind the proof
 path to the key

---
 .../trie_blake2b_verify/verify.go             | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 47e1b32..f275f3f 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -110,6 +110,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		if nextKeyIdx > len(p.Key) {
 			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
+		if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: child index does not follow the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
 		c, err := verify(p, pathIdx+1, nextKeyIdx)
 		if err != nil {
 			return nil, err
@@ -118,6 +121,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	}
 	// it is the last in the path
 	if p.PathArity.IsChildIndex(elem.ChildIndex) {
+		if !isPrefix || len(tail) == len(elem.PathFragment) || int(tail[len(elem.PathFragment)]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: child index does not follow the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
 		c := elem.Children[byte(elem.ChildIndex)]
 		if c != nil {
 			return nil, fmt.Errorf("wrong proof: child commitment of the last element expected to be nil. Path position: %d, key position %d", pathIdx, keyIdx)
@@ -128,6 +134,24 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		return nil, fmt.Errorf("wrong proof: child index expected to be %d or %d. Path position: %d, key position %d",
 			p.PathArity.TerminalCommitmentIndex(), p.PathArity.PathFragmentCommitmentIndex(), pathIdx, keyIdx)
 	}
+	keyEndsHere := isPrefix && len(tail) == len(elem.PathFragment)
+	if elem.ChildIndex == p.PathArity.TerminalCommitmentIndex() {
+		// the terminal of the last element is the terminal of the key only if the whole key has been consumed
+		if !keyEndsHere {
+			return nil, fmt.Errorf("wrong proof: proof path does not end at the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
+		return hashIt(elem, nil, p.PathArity, p.HashSize), nil
+	}
+	// the path fragment of the last element proves absence of the key only if the key diverges from the path fragment
+	// or continues with the child which is not committed
+	if keyEndsHere {
+		return nil, fmt.Errorf("wrong proof: proof of absence ends at the key. Path position: %d, key position %d", pathIdx, keyIdx)
+	}
+	if isPrefix {
+		if _, ok := elem.Children[tail[len(elem.PathFragment)]]; ok {
+			return nil, fmt.Errorf("wrong proof: unexpected commitment at child index %d. Path position: %d, key position %d", tail[len(elem.PathFragment)], pathIdx, keyIdx)
+		}
+	}
 	return hashIt(elem, nil, p.PathArity, p.HashSize), nil
 }
 
-- 
2.43.0


From b833fccce5f084ecc08a1a9b4878226e81484fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 03/23] fix: empty terminal in a blake2b proof was interpreted
 as presence of the key

---
 models/trie_blake2b/trie_blake2b_verify/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index f275f3f..b521c7e 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -26,7 +26,7 @@ func MustKeyWithTerminal(p *trie_blake2b.Proof) ([]byte, []byte) {
 		}
 		return p.Key, nil
 	case lastElem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
-		if lastElem.Terminal == nil {
+		if len(lastElem.Terminal) == 0 {
 			return p.Key, nil
 		}
 		return p.Key, lastElem.Terminal
-- 
2.43.0


From f1179fa0debf9cd51a5649db13c9872045a94fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 04/23] fix: Reconcile panicked on an empty trie

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 9bafa7f..693faa0 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -436,7 +436,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 	ret := make([][]byte, 0)
 	store.Iterate(func(k, v []byte) bool {
 		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
-		if ending == EndingTerminal {
+		if len(p) > 0 && ending == EndingTerminal {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
-- 
2.43.0


From 4572e8e38f754e5f5b63282f0414dfb421c9206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 05/23] fix: Reconcile reported optimized key commitments as
 inconsistent

---
 trie/trie.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 693faa0..f838b30 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -156,14 +156,17 @@ func (tr *Trie) commitNode(key []byte, update *VCommitment) {
 	n.pathChanged = false
 }
 
-// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
-func (tr *Trie) Update(key []byte, value []byte) {
-	var c TCommitment
+// commitToValue calculates terminal commitment to the value stored under the key, taking into account optimization of key commitments
+func (tr *Trie) commitToValue(key, value []byte) TCommitment {
 	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
-		c = tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
-	} else {
-		c = tr.nodeStore.reader.m.CommitToData(value)
+		return tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
 	}
+	return tr.nodeStore.reader.m.CommitToData(value)
+}
+
+// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
+func (tr *Trie) Update(key []byte, value []byte) {
+	c := tr.commitToValue(key, value)
 	if c == nil {
 		// nil value means deletion
 		tr.Delete(key)
@@ -442,7 +445,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 			if !ok {
 				ret = append(ret, k)
 			} else {
-				if !tr.Model().EqualCommitments(tr.nodeStore.reader.m.CommitToData(v), n.Terminal()) {
+				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
 					ret = append(ret, k)
 				}
 			}
-- 
2.43.0


From f824dc345bd14cf9f41d462b2b6f306aabd5be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 06/23] fix: KZG ProofOfInclusion panicked for an absent key
 which is a branching point

---
 models/trie_kzg_bn256/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 33b3e9c..65817ff 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -79,6 +79,10 @@ func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*Proo
 			ChildCommitments: n.ChildCommitments(),
 			Terminal:         n.Terminal(),
 		}
+		if i == proofLength-1 && nodes[i].Terminal == nil {
+			// the path ends at a branching node without terminal: key is not present in the state
+			return nil, false
+		}
 		ret.Path[i] = &ProofElement{}
 		if i == proofLength-1 {
 			ret.Path[i].VectorIndex = 256
-- 
2.43.0


From b9c0d9bafce6b981ebd22bdb7bc398a83134bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 07/23] fix: KZG proof validation accepted or panicked on wrong
 vector indices

---
 models/trie_kzg_bn256/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 65817ff..981c421 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -137,6 +137,10 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	var val kyber.Scalar
 
 	for i := range p.Path {
+		if isLast := i == len(p.Path)-1; isLast != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
+			// only the last element commits to the terminal, all the others commit to the next element in the path
+			return xerrors.New(fmt.Sprintf("proof is invalid: wrong vector index at path position %d", i))
+		}
 		if p.Path[i].VectorIndex < 256 {
 			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
 		} else {
-- 
2.43.0


From d68ab7c778b57484663afaa80f39d0ed82b54567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 08/23] fix: short reads were treated as complete data while
 deserializing

---
 models/trie_blake2b/model.go     | 10 ++--------
 models/trie_blake2b/proof.go     |  4 ++--
 models/trie_kzg_bn256/trusted.go |  2 +-
 trie/nodedata.go                 |  6 +-----
 trie/util.go                     | 24 +++++++++++++++---------
 5 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 0193fb1..351aea0 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -4,7 +4,6 @@ package trie_blake2b
 import (
 	"bytes"
 	"encoding/hex"
-	"errors"
 	"fmt"
 	"io"
 
@@ -238,7 +237,7 @@ func (v vectorCommitment) Bytes() []byte {
 }
 
 func (v vectorCommitment) Read(r io.Reader) error {
-	_, err := r.Read(v)
+	_, err := io.ReadFull(r, v)
 	return err
 }
 
@@ -311,14 +310,9 @@ func (t *terminalCommitment) Read(r io.Reader) error {
 	}
 	if l > 0 {
 		t.bytes = make([]byte, l)
-
-		n, err := r.Read(t.bytes)
-		if err != nil {
+		if _, err = io.ReadFull(r, t.bytes); err != nil {
 			return err
 		}
-		if n != int(l) {
-			return errors.New("bad data length")
-		}
 	}
 	return nil
 }
diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index f31f2f5..eaa6c12 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -245,14 +245,14 @@ func (e *ProofElement) Read(r io.Reader, arity trie.PathArity, sz HashSize) erro
 	e.Children = make(map[byte][]byte)
 	if smallFlags&hasChildrenFlag != 0 {
 		var flags [32]byte
-		if _, err = r.Read(flags[:]); err != nil {
+		if _, err = io.ReadFull(r, flags[:]); err != nil {
 			return err
 		}
 		for i := 0; i < arity.NumChildren(); i++ {
 			ib := uint8(i)
 			if flags[i/8]&(0x1<<(i%8)) != 0 {
 				e.Children[ib] = make([]byte, sz)
-				if _, err = r.Read(e.Children[ib]); err != nil {
+				if _, err = io.ReadFull(r, e.Children[ib]); err != nil {
 					return err
 				}
 			}
diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 9f6d77b..8de993f 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -275,7 +275,7 @@ func (sd *TrustedSetup) write(w io.Writer) error {
 // read unmarshal
 func (sd *TrustedSetup) read(r io.Reader) error {
 	var tmp2 [2]byte
-	if _, err := r.Read(tmp2[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
 		return err
 	}
 
diff --git a/trie/nodedata.go b/trie/nodedata.go
index fc0bc29..7850bf7 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -106,13 +106,9 @@ func newCflags(arity PathArity) cflags {
 
 func readCflags(r io.Reader, arity PathArity) (cflags, error) {
 	ret := newCflags(arity)
-	n, err := r.Read(ret)
-	if err != nil {
+	if _, err := io.ReadFull(r, ret); err != nil {
 		return nil, err
 	}
-	if n != cflagsSize(arity) {
-		return nil, fmt.Errorf("expected %d bytes, got %d", cflagsSize(arity), n)
-	}
 	return ret, nil
 }
 
diff --git a/trie/util.go b/trie/util.go
index 2eb9133..05cf10d 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -192,6 +192,15 @@ func readKV(r io.Reader) ([]byte, []byte, bool) {
 // r/w utility functions
 // TODO rewrite with generics when switch to Go 1.18
 
+// readBody reads exactly len(data) bytes. End of data in the middle of the object is an error distinct from io.EOF
+func readBody(r io.Reader, data []byte) error {
+	_, err := io.ReadFull(r, data)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func ReadBytes8(r io.Reader) ([]byte, error) {
 	length, err := ReadByte(r)
 	if err != nil {
@@ -201,8 +210,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readBody(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -232,8 +240,7 @@ func ReadBytes16(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readBody(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -255,7 +262,7 @@ func WriteBytes16(w io.Writer, data []byte) error {
 
 func ReadUint16(r io.Reader, pval *uint16) error {
 	var tmp2 [2]byte
-	_, err := r.Read(tmp2[:])
+	_, err := io.ReadFull(r, tmp2[:])
 	if err != nil {
 		return err
 	}
@@ -283,7 +290,7 @@ func Uint16From2Bytes(b []byte) (uint16, error) {
 
 func ReadByte(r io.Reader) (byte, error) {
 	var b [1]byte
-	_, err := r.Read(b[:])
+	_, err := io.ReadFull(r, b[:])
 	if err != nil {
 		return 0, err
 	}
@@ -306,8 +313,7 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readBody(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -348,7 +354,7 @@ func MustUint32From4Bytes(b []byte) uint32 {
 
 func ReadUint32(r io.Reader, pval *uint32) error {
 	var tmp4 [4]byte
-	_, err := r.Read(tmp4[:])
+	_, err := io.ReadFull(r, tmp4[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 23a786c62de6aced2a46a21f2edb35fc8de0ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 09/23] fix: truncated dump was restored silently or with panic
 instead of error

---
 trie/kv.go   |  4 ++++
 trie/util.go | 23 +++++++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/trie/kv.go b/trie/kv.go
index 1097e73..fed71a0 100644
--- a/trie/kv.go
+++ b/trie/kv.go
@@ -156,6 +156,10 @@ func (b BinaryStreamIterator) Iterate(fun func(k []byte, v []byte) bool) error {
 			return err
 		}
 		v, err := ReadBytes32(b.r)
+		if errors.Is(err, io.EOF) {
+			// value is missing
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return err
 		}
diff --git a/trie/util.go b/trie/util.go
index 05cf10d..394f27f 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -155,7 +155,10 @@ func UnDumpFromFile(w KVWriter, fname string) (int, error) {
 	var exit bool
 	n := 0
 	for {
-		if k, v, exit = readKV(file); exit {
+		if k, v, exit, err = readKV(file); err != nil {
+			return n, err
+		}
+		if exit {
 			break
 		}
 		n += len(k) + len(v) + 6
@@ -175,17 +178,25 @@ func writeKV(w io.Writer, k, v []byte) (int, error) {
 	return len(k) + len(v) + 6, nil
 }
 
-// readKV deserializes key/value pair from io.Reader. Returns key/value pair and an error flag if not enough data
-func readKV(r io.Reader) ([]byte, []byte, bool) {
+// readKV deserializes key/value pair from io.Reader. Returns key/value pair and a flag if there's no more data.
+// Truncated data is an error
+func readKV(r io.Reader) ([]byte, []byte, bool, error) {
 	k, err := ReadBytes16(r)
 	if errors.Is(err, io.EOF) {
-		return nil, nil, true
+		return nil, nil, true, nil
+	}
+	if err != nil {
+		return nil, nil, false, err
 	}
 	v, err := ReadBytes32(r)
+	if errors.Is(err, io.EOF) {
+		// value is missing
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
-		panic(err)
+		return nil, nil, false, err
 	}
-	return k, v, false
+	return k, v, false, nil
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 239d4c5ac9e56fb0c808a1c4cfb938b2cc77b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 10/23] fix: decoding of malformed encoded keys panicked

---
 trie/encode.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trie/encode.go b/trie/encode.go
index 8712103..1458157 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -52,8 +52,8 @@ func decode16(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*2)
 	ret = unpack16(ret, data[1:])
-	if data[0] == 1 && ret[len(ret)-1] != 0 {
-		// enforce padding with 0
+	if data[0] == 1 && (len(ret) == 0 || ret[len(ret)-1] != 0) {
+		// enforce presence of the data and padding with 0
 		return nil, ErrWrongFormat
 	}
 	// cut the excess byte
@@ -117,8 +117,9 @@ func decode2(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*8)
 	ret = unpack2(ret, data[1:])
-	Assert(len(ret) >= int(data[0]), "trie::decode2:: assert failed: len(ret) >= int(data[0]), data: %s",
-		hex.EncodeToString(data))
+	if len(ret) < int(data[0]) {
+		return nil, ErrWrongFormat
+	}
 	// enforce the last data[0] elements are 0
 	for j := len(ret) - int(data[0]); j < len(ret); j++ {
 		if ret[j] != 0 {
-- 
2.43.0


From 70eeaf7df8b4701926c740d82db118799f7ccf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 11/23] fix: encoding of hexary keys did not check every second
 nibble

---
 trie/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index 1458157..85b9f9f 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -30,6 +30,9 @@ func pack16(dst, src []byte) ([]byte, error) {
 		}
 		c := src[i] << 4
 		if i+1 < len(src) {
+			if src[i+1] > 0x0F {
+				return nil, ErrWrongNibble
+			}
 			c |= src[i+1]
 		}
 		dst = append(dst, c)
-- 
2.43.0


From ba7a0bf43ff4ed03c5da07a2d76062a175b33267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 12/23] fix: malformed blake2b proofs caused panic instead of
 validation error

---
 models/trie_blake2b/proof.go                  |  5 ++++
 .../trie_blake2b_verify/verify.go             | 25 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index eaa6c12..1e03c3b 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -130,6 +130,11 @@ func (p *Proof) Read(r io.Reader) error {
 		return err
 	}
 	p.PathArity = trie.PathArity(b)
+	switch p.PathArity {
+	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
+	default:
+		return trie.ErrWrongArity
+	}
 
 	b, err = trie.ReadByte(r)
 	if err != nil {
diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index b521c7e..f2a025d 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -51,6 +51,9 @@ func Validate(p *trie_blake2b.Proof, rootBytes []byte) error {
 		}
 		return nil
 	}
+	if err := checkFormat(p); err != nil {
+		return err
+	}
 	c, err := verify(p, 0, 0)
 	if err != nil {
 		return err
@@ -87,6 +90,28 @@ func CommitmentToTheTerminalNode(p *trie_blake2b.Proof) []byte {
 	return hashIt(p.Path[len(p.Path)-1], nil, p.PathArity, p.HashSize)
 }
 
+// checkFormat checks the parts of the proof which are assumed to be correct by the verification
+func checkFormat(p *trie_blake2b.Proof) error {
+	switch p.PathArity {
+	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
+	default:
+		return trie.ErrWrongArity
+	}
+	switch p.HashSize {
+	case trie_blake2b.HashSize160, trie_blake2b.HashSize256:
+	default:
+		return errors.New("wrong hash size")
+	}
+	for pathIdx, elem := range p.Path {
+		for idx := range elem.Children {
+			if !p.PathArity.IsChildIndex(int(idx)) {
+				return fmt.Errorf("wrong proof: wrong index of the child commitment %d. Path position: %d", idx, pathIdx)
+			}
+		}
+	}
+	return nil
+}
+
 func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	trie.Assert(pathIdx < len(p.Path), "assertion: pathIdx < lenPlus1(p.Path)")
 	trie.Assert(keyIdx <= len(p.Key), "assertion: keyIdx <= lenPlus1(p.Key)")
-- 
2.43.0


From 0111c61f9bc22f068106fef623c660b47e5153a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 13/23] fix: key commitment in the root node was persisted as
 commitment to the value

---
 trie/node.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index e9aa780..4f6fbd6 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -144,12 +144,19 @@ func (n *bufferedNode) Bytes(model CommitmentModel, arity PathArity, optimizeKey
 	// Optimization: if terminal commits to unpackedKey, no need to serialize it,
 	// because all information is in the key
 	isKeyCommitment := false
-	if optimizeKeyCommitments && len(n.unpackedKey) > 0 {
+	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
+	if optimizeKeyCommitments {
 		keyCommitment := model.CommitToData(Concat(n.unpackedKey, n.n.PathFragment))
-		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment)
+		if n.n.Terminal != nil && model.EqualCommitments(n.n.Terminal, keyCommitment) {
+			if len(n.unpackedKey) > 0 {
+				isKeyCommitment = true
+			} else {
+				// key commitment can't be restored from the key nor from the value: store it with the node
+				skipStoreTerminal = false
+			}
+		}
 	}
 	var buf bytes.Buffer
-	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
 	err := n.n.Write(&buf, arity, isKeyCommitment, skipStoreTerminal)
 	Assert(err == nil, "trie::bufferedNode::Bytes: %v", err)
 	return buf.Bytes()
-- 
2.43.0


From 6c2575582c73f52f713437ad2b0ef903059bc5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 14/23] fix: trie retained the slice of the key owned by the
 caller

---
 trie/encode.go    | 2 +-
 trie/nodestore.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/trie/encode.go b/trie/encode.go
index 85b9f9f..4627073 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -136,7 +136,7 @@ func decode2(data []byte) ([]byte, error) {
 func UnpackBytes(src []byte, arity PathArity) []byte {
 	switch arity {
 	case PathArity256:
-		return src
+		return append(make([]byte, 0, len(src)), src...)
 	case PathArity16:
 		return unpack16(make([]byte, 0, 2*len(src)), src)
 	case PathArity2:
diff --git a/trie/nodestore.go b/trie/nodestore.go
index d638504..b39abb7 100644
--- a/trie/nodestore.go
+++ b/trie/nodestore.go
@@ -33,6 +33,7 @@ func (sr *nodeStore) getNode(unpackedKey []byte) (*nodeReadOnly, bool) {
 	if len(nodeBin) == 0 {
 		return nil, false
 	}
+	unpackedKey = Concat(unpackedKey) // the node must not depend on the slice owned by the caller
 	n, err := nodeReadOnlyFromBytes(sr.m, nodeBin, unpackedKey, sr.arity, sr.valueStore)
 	Assert(err == nil, "trie::nodeStore::getNode assert 2: err: '%v' nodeBin: '%s', unpackedKey: '%s', arity: %s",
 		err, hex.EncodeToString(nodeBin), hex.EncodeToString(unpackedKey), sr.arity.String())
@@ -92,7 +93,7 @@ func (sc *nodeStoreBuffered) getNode(unpackedKey []byte) (*bufferedNode, bool) {
 	if !ok {
 		return nil, false
 	}
-	ret = newBufferedNode(unpackedKey)
+	ret = newBufferedNode(n.key)
 	ret.n = n.n
 	ret.newTerminal = n.n.Terminal
 	sc.nodeCache[string(unpackedKey)] = ret
-- 
2.43.0


From e0eabfd53f22c9df8f3bcba8e4f11f9311893112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 15/23] fix: batched updater retained slices owned by the
 caller

---
 hive_adaptor/hiveadaptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 06e621d..b3d71d3 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -107,6 +107,8 @@ func (a *HiveBatchedUpdater) Update(key []byte, value []byte) {
 		a.wTrie = newBatchWriter(a.batch, a.triePrefix)
 		a.wValue = newBatchWriter(a.batch, a.valueStorePrefix)
 	}
+	// the batch keeps references until committed, so it must not depend on slices owned by the caller
+	key, value = trie.Concat(key), trie.Concat(value)
 	a.wValue.Set(key, value)
 	a.trie.Update(key, value)
 }
-- 
2.43.0


From 2c424729cba0e3cabae231b662548b51c3c30eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 16/23] fix: proof shared memory with the trie and with the key
 of the caller

---
 models/trie_blake2b/proof.go   | 6 +++---
 models/trie_kzg_bn256/proof.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 1e03c3b..f4325ed 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -74,20 +74,20 @@ func (m *CommitmentModel) Proof(key []byte, tr trie.NodeStore) *Proof {
 			}
 		}
 		em := &ProofElement{
-			PathFragment: node.PathFragment(),
+			PathFragment: trie.Concat(node.PathFragment()),
 			Children:     make(map[byte][]byte),
 			Terminal:     nil,
 			ChildIndex:   childIndex,
 		}
 		if node.Terminal() != nil {
-			em.Terminal = node.Terminal().(*terminalCommitment).bytes
+			em.Terminal = trie.Concat(node.Terminal().(*terminalCommitment).bytes)
 		}
 		for idx, v := range node.ChildCommitments() {
 			if int(idx) == childIndex {
 				// skipping the commitment which must come from the next child
 				continue
 			}
-			em.Children[idx] = v.(vectorCommitment)
+			em.Children[idx] = v.Clone().(vectorCommitment)
 		}
 		ret.Path[i] = em
 	}
diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 981c421..ae9684a 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -55,7 +55,7 @@ func ProofOfInclusionFromBytes(data []byte) (*ProofOfInclusion, error) {
 func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*ProofOfInclusion, bool) {
 	trie.Assert(tr.PathArity() == trie.PathArity256, "for KZG commitment model only 256-ary trie is supported")
 
-	proofGeneric := trie.GetProofGeneric(tr, key)
+	proofGeneric := trie.GetProofGeneric(tr, trie.Concat(key))
 	if proofGeneric == nil || len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal {
 		// key is not present in the state
 		return nil, false
-- 
2.43.0


From 9c6627ea7d664f0f47486c75e3e68d1ca828ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 17/23] fix: WriteBytes8 wrote 256 bytes with length 0

---
 trie/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/util.go b/trie/util.go
index 394f27f..b5515ac 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -228,7 +228,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 }
 
 func WriteBytes8(w io.Writer, data []byte) error {
-	if len(data) > 256 {
+	if len(data) > math.MaxUint8 {
 		panic(fmt.Sprintf("WriteBytes8: too long data (%v)", len(data)))
 	}
 	err := WriteByte(w, byte(len(data)))
-- 
2.43.0


From a0707bef77a0cd1db58d4ba39abf424c897f3460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 18/23] fix: KZG trusted setup with natural domain could not be
 restored

---
 models/trie_kzg_bn256/trusted.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 8de993f..c8adfb7 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -133,6 +133,9 @@ func TrustedSetupFromBytes(suite *bn256.Suite, data []byte) (*TrustedSetup, erro
 	for i := range ret.AprimeDomainI {
 		ret.aprime(i, ret.AprimeDomainI[i])
 	}
+	if ret.Omega.Equal(ret.ZeroG1) {
+		ret.precalculate()
+	}
 	return ret, nil
 }
 
@@ -284,7 +287,8 @@ func (sd *TrustedSetup) read(r io.Reader) error {
 	if _, err := sd.Omega.UnmarshalFrom(r); err != nil {
 		return err
 	}
-	if !isRootOfUnity(sd.Suite, sd.Omega) {
+	// omega == 0 means natural domain
+	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
 		return errNotROU
 	}
 	for i := range sd.LagrangeBasis {
-- 
2.43.0


From da5c37936a12b3f4332344046433a6bb6706cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 19/23] fix: Has of the hive adaptor reported storage failure
 as absence of the key

---
 hive_adaptor/hiveadaptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index b3d71d3..89aa8d2 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -46,11 +46,11 @@ func (kvs *HiveKVStoreAdaptor) Get(key []byte) []byte {
 
 func (kvs *HiveKVStoreAdaptor) Has(key []byte) bool {
 	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
-	if errors.Is(err, kvstore.ErrKeyNotFound) || len(v) == 0 {
+	if errors.Is(err, kvstore.ErrKeyNotFound) {
 		return false
 	}
 	mustNoErr(err)
-	return true
+	return len(v) > 0
 }
 
 func (kvs *HiveKVStoreAdaptor) Set(key, value []byte) {
-- 
2.43.0


From d8b39e796e436de7037c2ca0db1ee90058f3f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 20/23] fix: proof with extra bytes in the terminal commitment
 was accepted

---
 models/trie_blake2b/trie_blake2b_verify/verify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index f2a025d..06dc649 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -103,6 +103,9 @@ func checkFormat(p *trie_blake2b.Proof) error {
 		return errors.New("wrong hash size")
 	}
 	for pathIdx, elem := range p.Path {
+		if len(elem.Terminal) > int(p.HashSize) {
+			return fmt.Errorf("wrong proof: terminal commitment too long. Path position: %d", pathIdx)
+		}
 		for idx := range elem.Children {
 			if !p.PathArity.IsChildIndex(int(idx)) {
 				return fmt.Errorf("wrong proof: wrong index of the child commitment %d. Path position: %d", idx, pathIdx)
-- 
2.43.0


From d066519e524cdda86ccec1402acb50d332a43581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 21/23] fix: KZG incremental commitment update ignored deleted
 children and changed its inputs

---
 models/trie_kzg_bn256/model.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index f6d7966..6b4fc5a 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -164,21 +164,21 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 	for i, childUpd := range childUpdates {
 		if calcDelta {
 			delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
-			prevC, existsPrevC := mutate.ChildCommitments[i]
+			prevC := mutate.ChildCommitments[i]
 			if childUpd == nil {
-				// deleting child
-				trie.Assert(prevC != nil, "prevC != nil")
-				trie.Assert(existsPrevC, "par.ChildCommitments[i] != nil")
-				delta = scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
-				delta.Neg(delta)
+				// deleting child, if it was committed before
+				if prevC != nil {
+					delta = scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
+					delta.Neg(delta)
+				}
 			} else {
 				delta = scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), childUpd.(*vectorCommitment).Point)
 				if prevC != nil {
 					prevS := scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
 					delta.Sub(delta, prevS)
 				}
-				deltas[int(i)] = delta
 			}
+			deltas[int(i)] = delta
 		}
 		// update mutated part
 		if childUpd == nil {
@@ -191,8 +191,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 		delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
 		if terminal == nil {
 			if mutate.Terminal != nil {
-				delta = mutate.Terminal.(*terminalCommitment).Scalar
-				delta.Neg(delta)
+				delta.Neg(mutate.Terminal.(*terminalCommitment).Scalar)
 			}
 		} else {
 			delta.Set(terminal.(*terminalCommitment).Scalar)
@@ -208,7 +207,8 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 
 		// update upper commitment by adding calculated delta
 		if *update != nil {
-			prevP = (*update).(*vectorCommitment).Point
+			// the previous commitment may still be referenced by the parent, so it must not be changed
+			prevP = (*update).(*vectorCommitment).Point.Clone()
 		} else {
 			prevP = m.TrustedSetup.Suite.G1().Point().Null()
 		}
-- 
2.43.0


From 214404f2e0bec9c5d26f41d31888d7a59aa468ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:58 +0000
Subject: [PATCH 22/23] fix: decoding accepted a second encoding of the empty
 path

---
 trie/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index 4627073..29b7172 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -194,6 +194,10 @@ func DecodeToUnpackedBytes(encoded []byte, arity PathArity) ([]byte, error) {
 	if len(encoded) == 0 {
 		return nil, nil
 	}
+	if len(encoded) == 1 && arity != PathArity256 {
+		// padding information without data: the empty path is encoded as empty slice
+		return nil, ErrWrongFormat
+	}
 	switch arity {
 	case PathArity256:
 		return encoded, nil
-- 
2.43.0


From cbea92cda1102e5ffbb82c9f25055e9d32d61499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 23/23] fix: a proof with more than 65535 elements was written
 with a wrong number of them

---
 models/trie_blake2b/proof.go   | 4 ++++
 models/trie_kzg_bn256/proof.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index f4325ed..28da78a 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 )
@@ -113,6 +114,9 @@ func (p *Proof) Write(w io.Writer) error {
 	if err = trie.WriteBytes16(w, encodedKey); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return fmt.Errorf("proof path is too long: %d", len(p.Path))
+	}
 	if err = trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index ae9684a..ff03bee 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 	"go.dedis.ch/kyber/v3"
@@ -160,6 +161,9 @@ func (p *ProofOfInclusion) Write(w io.Writer) error {
 	if _, err := p.Terminal.MarshalTo(w); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return fmt.Errorf("proof path is too long: %d", len(p.Path))
+	}
 	if err := trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
-- 
2.43.0

