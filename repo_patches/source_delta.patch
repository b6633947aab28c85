From 5f1e2ea65b1da16dda2f40d8a4bf27e8a8bbb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 01/21] fix: FilterObject.Match panics on an ID shorter than
 the filter

---
 filtering/filter_object.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/filter_object.go b/filtering/filter_object.go
index f047b0e..2e86869 100644
--- a/filtering/filter_object.go
+++ b/filtering/filter_object.go
@@ -56,6 +56,9 @@ func (f *FilterObject) HasByteAt(bo int) bool {
 
 // Match returns true if the id is captured by this filter
 func (f *FilterObject) Match(id []byte) bool {
+	if len(id) < f.ByteOffset+f.ByteSize { // the id is too short to be captured
+		return false
+	}
 	for i := 0; i < f.ByteSize; i++ {
 		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
 			return false
-- 
2.43.0


From 61425c979776a3d4c00901ac377a33ddca24e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 02/21] fix: NewPatriciaTrie drops the subscription that
 prefixes all others

---
 filtering/patricia_trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 85dfca7..e4958a2 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -438,6 +438,10 @@ func NewPatriciaTrie(sub Subscriptions) Engine {
 	}
 	pt.root = &PatriciaTrieNode{}
 	pt.root.filterObject = NewFilter(p1, 0)
+	// check if the common prefix itself is a subscription
+	if psub, ok := bsub[p1]; ok {
+		pt.root.reportURI = psub.ReportURI
+	}
 	pt.root.build(p1, bsub)
 
 	// initialize the tdt.Core
-- 
2.43.0


From eef1b335406d4d29a89b97fe041a4f9ca8a81fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 03/21] fix: adding a prefix of a Patricia trie node loses the
 node and the new subscription

---
 filtering/patricia_trie.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index e4958a2..de4793c 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -204,7 +204,15 @@ func (ptn *PatriciaTrieNode) add(fs string, reportURI string) {
 		ptn.reportURI = ""
 		currentOffset := ptn.filterObject.Offset
 		ptn.filterObject = NewFilter(newCommonPrefix, currentOffset)
-		if ncpLength >= len(fs) {
+		if ncpLength >= len(fs) { // fs itself is the common prefix
+			ptn.reportURI = reportURI
+			if newNode.filterObject.String[0] == '1' {
+				ptn.one = newNode
+				ptn.zero = nil
+			} else {
+				ptn.one = nil
+				ptn.zero = newNode
+			}
 			return
 		}
 		switch fs[ncpLength] {
-- 
2.43.0


From 26628d6fe8831dcb5d6e0adaa2ebcda475fb5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 04/21] fix: deleting the only subscription of a Patricia trie
 has no effect

---
 filtering/patricia_trie.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index de4793c..0dc4b96 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -336,6 +336,8 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 			ptn.reportURI = ptn.zero.reportURI
 			ptn.one = ptn.zero.one
 			ptn.zero = ptn.zero.zero
+		} else { // a leaf without a parent
+			ptn.reportURI = ""
 		}
 		return //end
 	}
-- 
2.43.0


From cbe83cb56d75cf0b6a2096e004bdc30764767fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 05/21] fix: malformed fields in a pattern make a filter that
 matches other tags

A pattern with an empty, non-decimal or oversized field, an unknown company
prefix length, or characters outside of the 6-bit set was turned into a filter
with random, zero, or misplaced bits (an empty ISO pattern matched every tag).
---
 tdt/epc.go | 38 ++++++++++++++++++++++++++++++++++++++
 tdt/iso.go | 24 ++++++++++++++++++++++++
 2 files changed, 62 insertions(+)

diff --git a/tdt/epc.go b/tdt/epc.go
index 7bc64d3..dd30815 100644
--- a/tdt/epc.go
+++ b/tdt/epc.go
@@ -78,6 +78,28 @@ var SSCC96PartitionTable = PartitionTable{
 	6:  {PValue: 6, CPBits: 20, EBits: 38, EDigits: 11},
 }
 
+// checkFields returns an error unless the values in a slice fit in the binary fields:
+// filter, companyPrefix, reference (itemReference, extension, ...), and serial
+func checkFields(fields []string, pt PartitionTable, reference PartitionTableKey) error {
+	bits := []int{3, 0, 63, 38}
+	if len(fields) > 1 {
+		pr, ok := pt[len(fields[1])]
+		if !ok {
+			return fmt.Errorf("wrong company prefix: %q", fields[1])
+		}
+		bits[1] = pr[CPBits]
+		if reference != IARBits { // too large indivisualAssetReference only makes the filter longer than any ID
+			bits[2] = pr[reference]
+		}
+	}
+	for i := 0; i < len(fields) && i < len(bits); i++ {
+		if _, err := strconv.ParseUint(fields[i], 10, bits[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // getAssetType returns Asset Type as rune slice
 func getAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 	if at != "" {
@@ -179,6 +201,10 @@ func NewPrefixFilterGIAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GIAI96PartitionTable, IARBits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -208,6 +234,10 @@ func NewPrefixFilterGRAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GRAI96PartitionTable, ATBits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -243,6 +273,10 @@ func NewPrefixFilterSGTIN96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SGTIN96PartitionTable, IRBits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -278,6 +312,10 @@ func NewPrefixFilterSSCC96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SSCC96PartitionTable, EBits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
diff --git a/tdt/iso.go b/tdt/iso.go
index 496bb84..e52bd20 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -13,6 +13,22 @@ import (
 	"github.com/iomz/go-llrp/binutil"
 )
 
+// check6BitFields returns an error unless all the fields are non-empty
+// and consist of the characters in the 6-bit character set
+func check6BitFields(fields []string) error {
+	for _, f := range fields {
+		if f == "" {
+			return fmt.Errorf("empty field: %q", fields)
+		}
+		for i := 0; i < len(f); i++ {
+			if f[i] < ' ' || f[i] > '_' {
+				return fmt.Errorf("wrong character in field: %q", f)
+			}
+		}
+	}
+	return nil
+}
+
 // getISO6346CD returns check digit for container serial number
 func getISO6346CD(cn string) (int, error) {
 	if len(cn) != 10 {
@@ -53,6 +69,10 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := check6BitFields(fields); err != nil {
+		return "", err
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
@@ -99,6 +119,10 @@ func NewPrefixFilterISO17365(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := check6BitFields(fields); err != nil {
+		return "", err
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
-- 
2.43.0


From 0695932f1e9e62400d510f7f87e5c65a28a5219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 06/21] fix: a pattern that cannot be converted becomes a
 subscription to every tag

---
 filtering/subscriptions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index ddbdfa4..28281fc 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -129,6 +129,7 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 			pfs, err := tdt.MakePrefixFilterString(tf[0], fields)
 			if err != nil {
 				log.Print(err)
+				continue
 			}
 			bsub[pfs] = &PartialSubscription{
 				Offset:    0,
-- 
2.43.0


From 0ba72899e52fd497a130ffe6aae3938a4cf24604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 07/21] fix: ISO17363 patterns take the check digit over the
 wrong fields

The container number is the owner code, the category identifier and the serial
number; with the data identifier in it, every complete pattern was refused.
---
 tdt/iso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdt/iso.go b/tdt/iso.go
index e52bd20..549984c 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -99,7 +99,7 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	} else if 6 < len(csn) {
 		return "", fmt.Errorf("Invalid csn: %v", csn)
 	}
-	cd, err := getISO6346CD(fields[0] + fields[1] + csn)
+	cd, err := getISO6346CD(fields[1] + fields[2] + csn)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 45f8c7fcfbbeeec33f8344dba6756b0597a2cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 08/21] fix: EPC encoders accept values that do not fit their
 fields

An unknown company prefix length or an oversized field was laid out over the
neighbouring fields whenever the total happened to be 96 bits, and non-decimal
values were encoded as zero.
---
 scheme/epc.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index ec0b336..9e81582 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -74,6 +74,28 @@ var SSCC96PartitionTable = PartitionTable{
 	6:  {PValue: 6, CPBits: 20, EBits: 38, EDigits: 11},
 }
 
+// checkFields returns an error unless the non-empty values fit in the binary fields:
+// filter, companyPrefix, reference (itemReference, extension, ...), and serial
+func checkFields(pt PartitionTable, reference PartitionTableKey, fields ...string) error {
+	bits := []int{3, 0, 0, 38}
+	if fields[1] != "" {
+		pr, ok := pt[len(fields[1])]
+		if !ok {
+			return fmt.Errorf("wrong company prefix: %q", fields[1])
+		}
+		bits[1], bits[2] = pr[CPBits], pr[reference]
+	}
+	for i, f := range fields {
+		if f == "" || i == 2 && fields[1] == "" {
+			continue
+		}
+		if _, err := strconv.ParseUint(f, 10, bits[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // GetAssetType returns Asset Type as rune slice
 func GetAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 	if at != "" {
@@ -171,6 +193,10 @@ func GetSerial(s string, serialLength int) (serial []rune) {
 
 // MakeGIAI96 generates GIAI-96
 func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, string, error) {
+	if err := checkFields(GIAI96PartitionTable, IARBits, fv, cp, iar); err != nil {
+		return []byte{}, "", "", err
+	}
+
 	filter := GetFilter(fv)
 	if fv == "" {
 		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
@@ -232,6 +258,10 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 
 // MakeGRAI96 generates GRAI-96
 func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, string, string, error) {
+	if err := checkFields(GRAI96PartitionTable, ATBits, fv, cp, at, ser); err != nil {
+		return []byte{}, "", "", err
+	}
+
 	filter := GetFilter(fv)
 
 	//CP
@@ -299,6 +329,10 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 
 // MakeSGTIN96 generates SGTIN-96
 func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte, string, string, error) {
+	if err := checkFields(SGTIN96PartitionTable, IRBits, fv, cp, ir, ser); err != nil {
+		return []byte{}, "", "", err
+	}
+
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
@@ -365,6 +399,10 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 
 // MakeSSCC96 generates SSCC-96
 func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, string, error) {
+	if err := checkFields(SSCC96PartitionTable, EBits, fv, cp, ext); err != nil {
+		return []byte{}, "", "", err
+	}
+
 	filter := GetFilter(fv)
 	// CP
 	if cp == "" {
-- 
2.43.0


From 29222bfa979d731563e53d4f46e9dac28946fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:11 +0000
Subject: [PATCH 09/21] fix: MakeISO panics on an ID too long for the length in
 PC bits

---
 scheme/iso.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/iso.go b/scheme/iso.go
index edfb2f1..15de003 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -129,6 +129,9 @@ func MakeISO17365(pf bool, di string, iac string, cin string, sn string) ([]byte
 
 	var length int
 	bs, length = Pad6BitEncodingRuneSlice(bs)
+	if length > 31*16 { // the length in PC bits is 5 bits
+		return []byte{}, 0, "", "", fmt.Errorf("too long ID: %v bits", length)
+	}
 
 	p, err := binutil.ParseBinRuneSliceToUint8Slice(bs)
 	if err != nil {
-- 
2.43.0


From 9da9cf436109125a93eea257c54b4fdb2184a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 10/21] fix: Translate panics on, or makes up an identity for,
 IDs that are no EPC

An empty ID, a field with more digits than its partition allows, partition 7,
and an unknown header are errors.
---
 tdt/core.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/tdt/core.go b/tdt/core.go
index f4e3877..d873f11 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -12,7 +12,7 @@ import (
 	//"io/ioutil"
 	//"log"
 	"math/big"
-	//"strconv"
+	"strconv"
 	"strings"
 	//"xml"
 )
@@ -84,6 +84,10 @@ func (c *Core) Translate(pc []byte, id []byte) (string, error) {
 func (c *Core) buildEPC(id []byte) (string, error) {
 	urn := ""
 
+	if len(id) == 0 {
+		return "", errors.New("Invalid ID")
+	}
+
 	// EPC Header
 	switch id[0] {
 	case 48: /* ------------- SGTIN-96 00110000 ------------- */
@@ -104,6 +108,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if cpLength == 0 || !inRange(id, 14, ptm[CPBits], cpLength) || !inRange(id, 14+ptm[CPBits], ptm[IRBits], ptm[IRDigits]) {
+			return "", errors.New("Invalid ID")
+		}
 		// COMPANY_PREFIX and ITEM_REFERENCE
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -280,6 +287,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if cpLength == 0 || !inRange(id, 14, ptm[CPBits], cpLength) || !inRange(id, 14+ptm[CPBits], ptm[EBits], ptm[EDigits]) {
+			return "", errors.New("Invalid ID")
+		}
 		// COMPANY_PREFIX and Extension
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -451,6 +461,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if cpLength == 0 || !inRange(id, 14, ptm[CPBits], cpLength) || ptm[ATDigits] > 0 && !inRange(id, 14+ptm[CPBits], ptm[ATBits], ptm[ATDigits]) {
+			return "", errors.New("Invalid ID")
+		}
 		// COMPANY_PREFIX and ITEM_REFERENCE
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -629,6 +642,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if cpLength == 0 || !inRange(id, 14, ptm[CPBits], cpLength) {
+			return "", errors.New("Invalid ID")
+		}
 		// COMPANY_PREFIX and Individual Asset Reference
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -796,10 +812,22 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			z.SetBytes(iar)
 			urn += z.String()
 		}
+	default:
+		return "", errors.New("unknown EPC header")
 	}
 	return urn, nil
 }
 
+// inRange returns true if the value of the bits from the offset in ID
+// is written in the digits or less
+func inRange(id []byte, offset int, bits int, digits int) bool {
+	v := uint64(0)
+	for i := offset; i < offset+bits; i++ {
+		v = v<<1 | uint64(id[i/8]>>uint(7-i%8)&1)
+	}
+	return len(strconv.FormatUint(v, 10)) <= digits
+}
+
 func (c *Core) buildUII(id []byte, afi byte) (string, error) {
 	urn := "urn:epc:id:iso"
 	switch afi {
-- 
2.43.0


From c451afd83a0370590f0fa6faae7211b627c18b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:31 +0000
Subject: [PATCH 11/21] fix: GetISO6346CD panics on letters whose upper case is
 shorter

---
 scheme/iso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/iso.go b/scheme/iso.go
index 15de003..7f6c54d 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -11,10 +11,10 @@ import (
 
 // GetISO6346CD returns check digit for container serial number
 func GetISO6346CD(cn string) (int, error) {
+	cn = strings.ToUpper(cn) // may change the length
 	if len(cn) != 10 {
 		return 0, errors.New("Invalid ISO6346 code provided")
 	}
-	cn = strings.ToUpper(cn)
 	n := 0.0
 	d := 0.5
 	for i := 0; i < 10; i++ {
-- 
2.43.0


From 19da22f2bd321f136ac30e7191231aa43eddd20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:56 +0000
Subject: [PATCH 12/21] fix: restoring a Patricia trie loses a node's zero
 branch when it has no one branch

---
 filtering/patricia_trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 0dc4b96..c37c959 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -171,7 +171,7 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 	if err = dec.Decode(&hasZero); err != nil {
 		return
 	}
-	if hasOne {
+	if hasZero {
 		err = dec.Decode(&ptn.zero)
 	} else {
 		ptn.zero = nil
-- 
2.43.0


From 1921106cfc7ec3f35359de39601a6e03836adebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:23 +0000
Subject: [PATCH 13/21] fix: restoring a LegacyEngine loses its subscriptions

---
 filtering/legacy_engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 9b65599..d6e605a 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -152,6 +152,7 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	le.filters = Subscriptions{}
 	for i := 0; i < legacyEngineSize; i++ {
 		var f string
 		// filter
@@ -163,12 +164,15 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		var reportURIs []string
-		for j := 0; j < legacyEngineSize; j++ {
+		for j := 0; j < reportURIsSize; j++ {
 			// reportURI
 			var dest string
-			err = dec.Decode(&dest)
+			if err = dec.Decode(&dest); err != nil {
+				return
+			}
 			reportURIs = append(reportURIs, dest)
 		}
+		le.filters[f] = reportURIs
 	}
 
 	// tdt.Core
-- 
2.43.0


From f309ea6603de5f560a212e9a0c9d6dfd1d7d0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:24 +0000
Subject: [PATCH 14/21] fix: LegacyEngine.AddSubscription shares the caller's
 slices and adds repeated destinations

---
 filtering/legacy_engine.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index d6e605a..a2b1088 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -19,13 +19,12 @@ type LegacyEngine struct {
 // AddSubscription adds a set of subscriptions if not exists yet
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
-			le.filters[f] = sub[f]
-		} else {
-			for _, dest := range sub[f] {
-				if stringIndexInSlice(dest, reportURIs) < 0 {
-					le.filters[f] = append(le.filters[f], dest)
-				}
+		if _, ok := le.filters[f]; !ok {
+			le.filters[f] = []string{}
+		}
+		for _, dest := range sub[f] {
+			if stringIndexInSlice(dest, le.filters[f]) < 0 {
+				le.filters[f] = append(le.filters[f], dest)
 			}
 		}
 	}
-- 
2.43.0


From 2a4541d000d84c852e6f9cd60601de1a0d5be9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:26 +0000
Subject: [PATCH 15/21] fix: LegacyEngine.DeleteSubscription of several
 destinations deletes the wrong ones

---
 filtering/legacy_engine.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index a2b1088..729a81e 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -33,12 +33,12 @@ func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 // DeleteSubscription deletes a set of subscriptions if already exist
 func (le *LegacyEngine) DeleteSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
+		if _, ok := le.filters[f]; !ok {
 			continue
 		} else {
 			for _, dest := range sub[f] {
-				if i := stringIndexInSlice(dest, reportURIs); i > -1 {
-					le.filters[f] = append(reportURIs[:i], reportURIs[i+1:]...)
+				for i := stringIndexInSlice(dest, le.filters[f]); i > -1; i = stringIndexInSlice(dest, le.filters[f]) {
+					le.filters[f] = append(le.filters[f][:i], le.filters[f][i+1:]...)
 				}
 			}
 			if len(le.filters[f]) == 0 {
-- 
2.43.0


From 5ea34c5aee3a50de973a3fed063f8e03767ad7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:05 +0000
Subject: [PATCH 16/21] fix: splay tree moved a match within a subset to the
 root of the whole tree

---
 filtering/splay_tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 6e9b33a..1586cec 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -321,8 +321,10 @@ func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id [
 	if stn.filterObject.Match(id) {
 		matches = append(matches, stn.reportURI)
 		if stn.matchNext != nil {
-			// Do Search & Splay in the subsets
-			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
+			// Do Search & Splay in the subsets, which form a tree of their own
+			subset := &SplayTree{root: stn.matchNext}
+			matches = append(matches, stn.matchNext.splaySearch(subset, nil, id)...)
+			stn.matchNext = subset.root
 		}
 		// Do Splay
 		// 0. Check if this is the root node, do nothing if so
-- 
2.43.0


From 992d500305309275454b60fd4d963e2eaa7cc0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:08 +0000
Subject: [PATCH 17/21] fix: splay tree reported an empty URI for nodes without
 a subscription

---
 filtering/splay_tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 1586cec..e57be85 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -319,7 +319,9 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
-		matches = append(matches, stn.reportURI)
+		if len(stn.reportURI) != 0 { // an aggregation node has no subscription of its own
+			matches = append(matches, stn.reportURI)
+		}
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets, which form a tree of their own
 			subset := &SplayTree{root: stn.matchNext}
-- 
2.43.0


From 003e7ed3dc69d90d19f1ad09c9745a318c6ac2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:19 +0000
Subject: [PATCH 18/21] fix: splay tree built from no subscription panicked on
 search and on add

---
 filtering/splay_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index e57be85..901d4c3 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -212,6 +212,9 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 	current := stn
 	subscriptionSize := len(sub.Keys())
+	if subscriptionSize == 0 { // an aggregation node to add subscriptions to
+		current.filterObject = NewFilter("", 0)
+	}
 	for i, fs := range sub.Keys() {
 		current.filterObject = NewFilter(fs, sub[fs].Offset)
 		current.reportURI = sub[fs].ReportURI
-- 
2.43.0


From e44c5ca4cbcbd027d85c5b3d179d02bd2c44bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:48 +0000
Subject: [PATCH 19/21] fix: subscriptions added to a splay tree above existing
 ones hid those from searches

---
 filtering/splay_tree.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 901d4c3..c7b37a9 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -197,6 +197,13 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 				stn.matchNext.add(fs[stn.filterObject.Size:], reportURI)
 			}
 		}
+	} else if strings.HasPrefix(stn.filterObject.String, fs) { // fs is a superset of this node
+		// nest this node and the following ones within fs
+		subset, rest := stn.split(fs)
+		stn.filterObject = NewFilter(fs, stn.filterObject.Offset)
+		stn.reportURI = reportURI
+		stn.matchNext = subset
+		stn.mismatchNext = rest
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext == nil { // there's no mismatchNext node
 			stn.mismatchNext = &SplayTreeNode{}
@@ -348,6 +355,20 @@ func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id [
 	return matches
 }
 
+// split returns the nodes of this mismatch branch whose filters start with fs, without fs,
+// and the other ones
+func (stn *SplayTreeNode) split(fs string) (subset *SplayTreeNode, rest *SplayTreeNode) {
+	if stn == nil {
+		return nil, nil
+	}
+	subset, rest = stn.mismatchNext.split(fs)
+	if !strings.HasPrefix(stn.filterObject.String, fs) {
+		return subset, &SplayTreeNode{stn.reportURI, stn.filterObject, stn.matchNext, rest}
+	}
+	fo := NewFilter(stn.filterObject.String[len(fs):], stn.filterObject.Offset+len(fs))
+	return &SplayTreeNode{stn.reportURI, fo, stn.matchNext, subset}, rest
+}
+
 // NewSplayTree builds SplayTree from ByteSubscriptions
 // returns the pointer to the node node
 func NewSplayTree(sub Subscriptions) Engine {
-- 
2.43.0


From 34da2ff3d598250db5a0f089568889ded94ed970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:52 +0000
Subject: [PATCH 20/21] fix: deleting the only subscription of a splay tree had
 no effect

---
 filtering/splay_tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index c7b37a9..1297417 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -246,7 +246,8 @@ func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
-			if stn.matchNext == nil && stn.mismatchNext == nil { // something wrong
+			if stn.matchNext == nil && stn.mismatchNext == nil { // the root, keep it as an aggregation node
+				stn.reportURI = ""
 			} else if stn.matchNext != nil { // if there is subset, keep the node as an aggregation node
 				if stn.matchNext.mismatchNext != nil {
 					stn.reportURI = ""
-- 
2.43.0


From c99446c3db412d4cf97f627f2e5bc22526d47e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:59 +0000
Subject: [PATCH 21/21] fix: refuse characters without a value in the ISO 6346
 check digit

---
 scheme/iso.go | 6 +++++-
 tdt/iso.go    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/scheme/iso.go b/scheme/iso.go
index 7f6c54d..e51ded2 100644
--- a/scheme/iso.go
+++ b/scheme/iso.go
@@ -18,8 +18,12 @@ func GetISO6346CD(cn string) (int, error) {
 	n := 0.0
 	d := 0.5
 	for i := 0; i < 10; i++ {
+		v := strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i]))
+		if v < 0 || cn[i] == '?' {
+			return 0, errors.New("Invalid ISO6346 code provided")
+		}
 		d *= 2
-		n += d * float64(strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i])))
+		n += d * float64(v)
 	}
 	return (int(n) - int(n/11)*11) % 10, nil
 }
diff --git a/tdt/iso.go b/tdt/iso.go
index 549984c..4925474 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -37,8 +37,12 @@ func getISO6346CD(cn string) (int, error) {
 	n := 0.0
 	d := 0.5
 	for i := 0; i < 10; i++ {
+		v := strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i]))
+		if v < 0 || cn[i] == '?' {
+			return 0, fmt.Errorf("Invalid ISO6346 code provided: %v", cn)
+		}
 		d *= 2
-		n += d * float64(strings.Index("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", string(cn[i])))
+		n += d * float64(v)
 	}
 	return (int(n) - int(n/11)*11) % 10, nil
 }
-- 
2.43.0

