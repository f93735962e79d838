From 00a08f89c407657338fe41836d6db2f57bd2d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 01/21] fix: compare the v3 signer's max SDK version with the
 signed copy

The value was compared with itself, so the unsigned max SDK version could be changed freely.
---
 signingblock/schemev3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signingblock/schemev3.go b/signingblock/schemev3.go
index f53f004..fd86eb0 100644
--- a/signingblock/schemev3.go
+++ b/signingblock/schemev3.go
@@ -195,8 +195,8 @@ func (s *schemeV3) verifySigner(signerBlock *bytes.Buffer, contentDigests map[co
 	if parsedMinSdkVersion != signedMinSdkVersion {
 		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
 	}
-	if parsedMaxSdkVersion != parsedMaxSdkVersion {
-		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
+	if parsedMaxSdkVersion != signedMaxSdkVersion {
+		result.addError("mismatch between parsed and signed maxSdkVersion: %d != %d", parsedMaxSdkVersion, signedMaxSdkVersion)
 	}
 
 	// Parse certificates
-- 
2.43.0


From c24b1b8583d3cb22630a8ffb0683d59844b16b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 02/21] fix: verify the content digests declared by v3.1
 signers

Only the digests of the v3 block were compared with the file, so a v3.1 block copied
from another APK was accepted next to any v3 block that signs the file.
---
 signingblock/schemev31.go    | 4 ++++
 signingblock/signingblock.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/signingblock/schemev31.go b/signingblock/schemev31.go
index dd601e9..73f2bfb 100644
--- a/signingblock/schemev31.go
+++ b/signingblock/schemev31.go
@@ -9,11 +9,15 @@ import (
 type schemeV31 struct {
 	backendV3  schemeV3
 	backendV31 schemeV3
+
+	// content digests declared by the v3.1 signers
+	v31ContentDigests map[contentDigest][]byte
 }
 
 func (s *schemeV31) parseSigners(block *bytes.Buffer, contentDigests map[contentDigest][]byte, result *VerificationResult) {
 	v31ContentDigest := make(map[contentDigest][]byte)
 	s.backendV31.parseSigners(block, v31ContentDigest, result)
+	s.v31ContentDigests = v31ContentDigest
 
 	s.backendV3.rotationMinSdkVersion = math.MaxInt32
 	for _, signer := range s.backendV31.signers {
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 6054709..c64275d 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -579,6 +579,10 @@ func (s *signingBlock) verify(scheme signatureBlockScheme, block []byte, minSdkV
 		return contentDigests
 	}
 
+	if v31, ok := scheme.(*schemeV31); ok && !s.verifyIntegrity(v31.v31ContentDigests, res) {
+		return contentDigests
+	}
+
 	scheme.finalizeResult(minSdkVersion, maxSdkVersion, res)
 	return contentDigests
 }
-- 
2.43.0


From b663dce905fa37d37f466eaea6739c296e8ec75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 03/21] fix: drop the rejected v3 signers when falling back to
 v2

The certificates and the lineage of the v3 block that failed to verify stayed in the result.
---
 signingblock/signingblock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index c64275d..6fcdfa5 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -183,6 +183,10 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 			res.Warnings = append(res.Warnings, fmt.Sprintf("schemeV3: %s", e.Error()))
 		}
 		res.Errors = nil
+		// Nothing the rejected v3 block claimed may show up in the result of the v2 verification.
+		res.Certs = nil
+		res.SigningLineage = nil
+		res.ExtraResults = nil
 		contentDigests = s.pickAndVerify(blocks, minSdkVersion, maxSdkVersion, res)
 	}
 
-- 
2.43.0


From 4e194207f09535a0e46e6631736a5ac517443f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 04/21] fix: verify the digest of AndroidManifest.xml in
 v1-signed APKs

The file was skipped whenever it was present.
---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index a9eb65f..3461d14 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -453,7 +453,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 			continue
 		}
 
-		if !zf.IsDir && path != "AndroidManifest.xml" && !strings.HasPrefix(path, "META-INF/") {
+		if !zf.IsDir && !strings.HasPrefix(path, "META-INF/") {
 			required = append(required, path)
 		}
 
-- 
2.43.0


From 1a2dfadf4e36c98c883ce22b06286e7ef4d7f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 05/21] fix: detect the v1 downgrade of APKs signed with v1 and
 v3 only

X-Android-APK-Signed: 3 was ignored.
---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index 3461d14..2e12b28 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -348,7 +348,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 					continue
 				}
 
-				if id == 2 {
+				if id == 2 || (id == 3 && apilevel.SupportsSigV3(maxSdkVersion)) {
 					return fmt.Errorf("This apk has '%s: %s', cannot be verified using v1 scheme, downgrade attack?",
 						attrAndroidApkSigned, idList)
 				}
-- 
2.43.0


From 8eb3abb7b9b9b5af6a477832cada71d12f589503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 06/21] fix: RSA-PSS with SHA-256 is supported since Android
 7.0

The algorithm was missing from the table, which made the lineage's min SDK version MaxInt32.
---
 signingblock/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/signer.go b/signingblock/signer.go
index 200d252..a742755 100644
--- a/signingblock/signer.go
+++ b/signingblock/signer.go
@@ -107,7 +107,7 @@ func (algo SignatureAlgorithm) getDigestType() contentDigest {
 
 func (algo SignatureAlgorithm) getMinSdkVersion() int32 {
 	switch algo {
-	case SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
 		SigEcdsaWithSha256, SigEcdsaWithSha512, SigDsaWithSha256:
 		return apilevel.V7_0_Nougat
 	case SigVerityRsaPkcs1V15WithSha256, SigVerityEcdsaWithSha256, SigVerityDsaWithSha256:
-- 
2.43.0


From afcd8ec786708cd20971a2dbf214eb784f06a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 07/21] fix: no panic on signatures and keys that do not fit
 the declared algorithm

A key of another type, an ECDSA/DSA signature without its two integers and a DSA subgroup
longer than the digest all crashed the verification of a hostile APK.
---
 signingblock/utils.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/signingblock/utils.go b/signingblock/utils.go
index 6be7bd1..070df97 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -37,6 +37,21 @@ func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
 }
 
 func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataBytes, signature []byte) error {
+	keyOk := false
+	switch algo {
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512, SigVerityRsaPkcs1V15WithSha256:
+		_, keyOk = publicKey.(*rsa.PublicKey)
+	case SigEcdsaWithSha256, SigEcdsaWithSha512, SigVerityEcdsaWithSha256:
+		_, keyOk = publicKey.(*ecdsa.PublicKey)
+	case SigDsaWithSha256, SigVerityDsaWithSha256:
+		_, keyOk = publicKey.(*dsa.PublicKey)
+	default:
+		return fmt.Errorf("unhandled signature type: 0x%04x", int32(algo))
+	}
+	if !keyOk {
+		return fmt.Errorf("public key of type %T can't be used with %s", publicKey, algo.String())
+	}
+
 	switch algo {
 	case SigRsaPssWithSha256:
 		hashed := sha256.Sum256(signedDataBytes)
@@ -58,6 +73,8 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		var params []*big.Int
 		if _, err := asn1.Unmarshal(signature, &params); err != nil {
 			return fmt.Errorf("failed to unmarshal ECDSA signature: %s", err.Error())
+		} else if len(params) != 2 {
+			return fmt.Errorf("failed to unmarshal ECDSA signature: %d integers instead of 2", len(params))
 		}
 
 		var hashed []byte
@@ -74,7 +91,9 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 
 		if algo == SigDsaWithSha256 || algo == SigVerityDsaWithSha256 {
 			k := publicKey.(*dsa.PublicKey)
-			hashed = hashed[:k.Q.BitLen()/8]
+			if qLen := k.Q.BitLen() / 8; qLen < len(hashed) {
+				hashed = hashed[:qLen]
+			}
 			if !dsa.Verify(k, hashed, params[0], params[1]) {
 				return errors.New("DSA verification failed.")
 			}
-- 
2.43.0


From 4ded6b84169b97b38bbcc9facfd57c1e5e267c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 08/21] fix: no panic on a manifest that ends with a colon

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 60c0dc7..933516f 100644
--- a/manifest.go
+++ b/manifest.go
@@ -138,7 +138,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 		if ctx.data[ctx.pos] == ':' {
 			name = string(ctx.data[mark:ctx.pos])
 
-			if ctx.pos+1 > len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
+			if ctx.pos+1 >= len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
 				err = fmt.Errorf("Invalid header structure '%s'", name)
 				return
 			}
-- 
2.43.0


From 73e0dd8493da574f11ecdc7a355b6c7a4cd92c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 09/21] fix: no panic on v1 signatures with an unknown
 algorithm or a non-DSA key

Both are under the control of whoever made the APK.
---
 schemev1.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 2e12b28..69d4d0e 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -694,7 +694,7 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 		dea := info.DigestEncryptionAlgorithm.Algorithm.String()
 		algo, prs := oidToAlgo[fmt.Sprintf("%s %s", da, dea)]
 		if !prs {
-			panic(fmt.Sprintf("Unknown digest algorithm: '%s %s'", da, dea))
+			return chain, fmt.Errorf("Unknown digest algorithm: '%s %s'", da, dea)
 		}
 
 		var signedData []byte
@@ -861,7 +861,10 @@ func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlg
 		hasher.Write(signed)
 		hash := hasher.Sum(nil)
 
-		pub := cert.PublicKey.(*dsa.PublicKey)
+		pub, ok := cert.PublicKey.(*dsa.PublicKey)
+		if !ok {
+			return fmt.Errorf("Unexpected public key type (%T)!", cert.PublicKey)
+		}
 		reqLen := pub.Q.BitLen() / 8
 		if reqLen > len(hash) {
 			reqLen = len(hash)
-- 
2.43.0


From 47b5c3e9670055cb896d07fc60ccc0931a143c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 10/21] fix: no panic on truncated or deeply nested BER data

The header bytes were read without bounds checks, and the recursion was unbounded, which
overflows the stack on a few megabytes of nested indefinite-length objects.
---
 fullsailor/pkcs7/ber.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 3f56ea6..71e7a85 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -7,6 +7,11 @@ import (
 
 // var encodeIndent = 0
 
+// maxBerDepth limits the nesting of objects, real signatures use about ten levels.
+const maxBerDepth = 512
+
+var errBerTruncated = errors.New("ber2der: truncated BER data")
+
 type asn1Object interface {
 	EncodeTo(writer *bytes.Buffer) error
 }
@@ -61,7 +66,7 @@ func ber2der(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -132,18 +137,27 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
+	if depth > maxBerDepth {
+		return nil, 0, errors.New("ber2der: BER objects nested too deep")
+	}
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
 	tagStart := offset
+	if offset >= len(ber) {
+		return nil, 0, errBerTruncated
+	}
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if offset >= len(ber) {
+			return nil, 0, errBerTruncated
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -159,6 +173,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	*/
 	// read length
 	var length int
+	if offset >= len(ber) {
+		return nil, 0, errBerTruncated
+	}
 	l := ber[offset]
 	offset++
 	indefinite := false
@@ -167,6 +184,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if numberOfBytes > len(ber)-offset {
+			return nil, 0, errBerTruncated
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -210,7 +230,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			subObj, offset, err = readObject(ber, offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From 29d4e3d46721fdeaa21507568d219ebea7eb0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 11/21] fix: no panic on a negative frosting key index

---
 signingblock/frosting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/frosting.go b/signingblock/frosting.go
index e514cb2..949bb5a 100644
--- a/signingblock/frosting.go
+++ b/signingblock/frosting.go
@@ -288,7 +288,7 @@ func (f *frostingInfo) parseFrostingBlock(block []byte) error {
 
 		keyIndex, err := f.readInt32(bf)
 		keys := strings.Split(frostingPublicKeys, ",")
-		if err != nil || int(keyIndex) >= len(keys) {
+		if err != nil || keyIndex < 0 || int(keyIndex) >= len(keys) {
 			return fmt.Errorf("invalid/unknown key used in this frosting (idx %d)!", keyIndex)
 		}
 
-- 
2.43.0


From 798350377d7c0b9f1d7fd46aa3dcb992c05286e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 12/21] fix: PickBestApkCert must not reorder the caller's
 chains nor panic on an empty one

---
 certinfo.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/certinfo.go b/certinfo.go
index f21b560..7fff4f8 100644
--- a/certinfo.go
+++ b/certinfo.go
@@ -57,13 +57,21 @@ func (c byPreference) Less(i, j int) bool {
 // PickBestApkCert Picks the "best-looking" (most likely the correct one) certificate from the chain
 // extracted from APK. Is noop for most APKs, as they usually contain only one certificate.
 func PickBestApkCert(chains [][]*x509.Certificate) (*CertInfo, *x509.Certificate) {
-	if len(chains) == 0 {
+	// Work on a copy, the order of the caller's slice must not change.
+	candidates := make([][]*x509.Certificate, 0, len(chains))
+	for _, chain := range chains {
+		if len(chain) != 0 {
+			candidates = append(candidates, chain)
+		}
+	}
+
+	if len(candidates) == 0 {
 		return nil, nil
 	}
 
-	sort.Sort(byPreference(chains))
+	sort.Sort(byPreference(candidates))
 
-	return NewCertInfo(chains[0][0]), chains[0][0]
+	return NewCertInfo(candidates[0][0]), candidates[0][0]
 }
 
 // NewCertInfo Returns new CertInfo with information from the x509.Certificate.
-- 
2.43.0


From 11747879f26a520ec086aee0c1ba488bfb93b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 13/21] fix: report an error for a source stamp lineage without
 nodes

The stamp was left without errors although its attributes were not fully checked.
---
 signingblock/sourcestamp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index 9e538c1..d9adef7 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -349,6 +349,9 @@ func (v *sourceStampVerifier) parseStampAttributes(attributesData *bytes.Buffer)
 		case sourceStampAttrProofOfRotation:
 			v.res.Lineage = v.parseStampCertLineage(attr)
 			if v.res.Lineage == nil {
+				if len(v.res.Errors) == 0 {
+					v.addError("lineage has no nodes")
+				}
 				return false
 			}
 			if !v.res.Cert.Equal(v.res.Lineage[len(v.res.Lineage)-1].Cert) {
-- 
2.43.0


From 2813171780836ae221d5d819a4b31eb3d0b551b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 14/21] fix: process v1 signatures and files in the ZIP order

The signatures were visited in the random order of a Go map, so the order of the reported
certificates changed from run to run, unlike what the comment on verifySchemeV1 promises.
---
 schemev1.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 69d4d0e..40ace90 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -120,6 +120,7 @@ var oidToAlgo = map[string]x509.SignatureAlgorithm{
 var errNoKnownHashes = errors.New("No known hashes")
 
 type schemeV1Signature struct {
+	name              string
 	sigBlockFilename  string
 	manifestFilename  string
 	cert              *pkcs7.PKCS7
@@ -129,6 +130,7 @@ type schemeV1Signature struct {
 
 type schemeV1 struct {
 	sigs     map[string]*schemeV1Signature
+	sigNames []string // keys of sigs in the ZIP order
 	manifest *manifest
 	hashers  map[string]hash.Hash
 	chain    [][]*x509.Certificate
@@ -158,7 +160,7 @@ func extractCertsSchemeV1(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion
 	}
 
 	var signatureErrors []error
-	for _, sig := range scheme.sigs {
+	for _, sig := range scheme.orderedSigs() {
 		sig.chain, err = scheme.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			scheme.chain = append(scheme.chain, sig.chain)
@@ -174,6 +176,17 @@ func extractCertsSchemeV1(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion
 	return scheme.chain, nil
 }
 
+// orderedSigs returns the signatures in the order in which they were found in the ZIP.
+func (p *schemeV1) orderedSigs() []*schemeV1Signature {
+	res := make([]*schemeV1Signature, 0, len(p.sigs))
+	for _, name := range p.sigNames {
+		if sig, prs := p.sigs[name]; prs {
+			res = append(res, sig)
+		}
+	}
+	return res
+}
+
 func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 	scheme := schemeV1{
 		sigs:    make(map[string]*schemeV1Signature),
@@ -252,8 +265,9 @@ func (p *schemeV1) addSignatureFile(pathUpper string, f *apkparser.ZipReaderFile
 	prefix := p.signaturePrefix(pathUpper)
 	s := p.sigs[prefix]
 	if s == nil {
-		s = &schemeV1Signature{}
+		s = &schemeV1Signature{name: prefix}
 		p.sigs[prefix] = s
+		p.sigNames = append(p.sigNames, prefix)
 	}
 
 	s.manifestFilename = pathUpper
@@ -284,8 +298,9 @@ func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFil
 		prefix := p.signaturePrefix(pathUpper)
 		s := p.sigs[prefix]
 		if s == nil {
-			s = &schemeV1Signature{}
+			s = &schemeV1Signature{name: prefix}
 			p.sigs[prefix] = s
+			p.sigNames = append(p.sigNames, prefix)
 		}
 		s.sigBlockFilename = f.Name
 		s.cert = sig
@@ -324,7 +339,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 	var err error
 	validSignatures := map[string]*schemeV1Signature{}
 	var signatureErrors []error
-	for sigName, sig := range p.sigs {
+	for _, sig := range p.orderedSigs() {
 		sig.chain, err = p.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			p.chain = append(p.chain, sig.chain)
@@ -417,7 +432,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 		}
 
 		if err == nil {
-			validSignatures[sigName] = sig
+			validSignatures[sig.name] = sig
 		}
 	}
 
@@ -448,10 +463,13 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	required := make([]string, 0, len(apk.File))
 	hasAndroidManifest := false
 	hasBundleConfig := false
-	for path, zf := range apk.File {
-		if zf.IsDir {
+	visited := make(map[string]bool, len(apk.File))
+	for _, zf := range apk.FilesOrdered {
+		path := zf.Name
+		if zf.IsDir || visited[path] {
 			continue
 		}
+		visited[path] = true
 
 		if !zf.IsDir && !strings.HasPrefix(path, "META-INF/") {
 			required = append(required, path)
@@ -483,7 +501,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 
 		var certChains [][]*x509.Certificate
-		for _, sig := range p.sigs {
+		for _, sig := range p.orderedSigs() {
 			if _, prs := sig.signatureManifest.entries[path]; prs {
 				certChains = append(certChains, sig.chain)
 			}
-- 
2.43.0


From 518c1ef7ea4c2bc1741f46818e3af546617a79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 15/21] fix: only the first signing block entry with an id
 counts

---
 signingblock/signingblock.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 6fcdfa5..a27786c 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -495,6 +495,14 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			return
 		}
 
+		if blocks[BlockId(id)] != nil || res.ExtraBlocks[BlockId(id)] != nil {
+			// As on Android, only the first block with a given id counts.
+			if _, err = pairs.Seek(nextEntryPos, io.SeekStart); err != nil {
+				return
+			}
+			continue
+		}
+
 		switch bid := BlockId(id); bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
-- 
2.43.0


From f7996b542bbf8d6c89476212c1800d6d8894ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 16/21] fix: digest names unknown to Android no longer stop the
 check of the known ones

Before API level 18 Android ignores listed digests it does not know and knows SHA as
an alias of SHA1. Here the first unknown name ended verifyManifestEntry with
errNoKnownHashes, which skips the check of the main attributes digests.
---
 schemev1.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schemev1.go b/schemev1.go
index 40ace90..5869e1c 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -47,6 +47,7 @@ var (
 		"sha-384": sha512.New384,
 		"sha-256": sha256.New,
 		"sha1":    sha1.New,
+		"sha":     sha1.New, // alias, only used before API level 18
 	}
 )
 
@@ -577,6 +578,10 @@ func (p *schemeV1) getDigestsToVerify(entry map[string]string, suffix string, mi
 
 		tokens := strings.Split(algs, " ")
 		for _, algo := range tokens {
+			if _, known := digestHashers[algo]; !known {
+				continue // Android ignores digests it does not know
+			}
+
 			if minSdkVersion >= 9 || (algo != "sha-384" && algo != "sha-512") {
 				if _, prs := entry[algo+suffix]; prs {
 					res = append(res, algo)
-- 
2.43.0


From 9fd070408d4b42e54049086aa19c2ddf31fae54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 17/21] fix: escaped characters of a distinguished name are
 kept in its canonical form

The characters that need escaping were replaced by a backslash, so that different issuer
names had the same canonical form and a certificate of another issuer was selected.
---
 schemev1.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schemev1.go b/schemev1.go
index 5869e1c..9a2ad2c 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -997,6 +997,7 @@ func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
 						res.WriteByte(' ')
 					case '"', '\\', ',', '+', '<', '>', ';':
 						res.WriteByte('\\')
+						fallthrough
 					default:
 						res.WriteByte(val[index])
 					}
-- 
2.43.0


From 0f831c0bd7d04a68e3047253601a8c01119b8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 18/21] fix: choose among equally strong stamp signatures by
 their order

The signatures of a source stamp were kept in a map, so which of two signatures with
equally strong digests was verified, and with it the result, changed from run to run.
---
 signingblock/sourcestamp.go | 45 ++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index d9adef7..b95e9ca 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -216,7 +216,7 @@ func (v *sourceStampVerifier) getSignatureSchemeDigest(contentDigests map[conten
 }
 
 func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificate, signatures *bytes.Buffer) bool {
-	supportedSignatures := map[SignatureAlgorithm][]byte{}
+	var supportedSignatures []stampSignature
 	for count := 0; signatures.Len() != 0; count++ {
 		signature, err := getLenghtPrefixedSlice(signatures)
 		if err != nil {
@@ -240,7 +240,7 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 			v.addError("failed to parse signature bytes %d: %s", count, err.Error())
 			return false
 		}
-		supportedSignatures[sigAlgoId] = sigBytes.Bytes()
+		supportedSignatures = append(supportedSignatures, stampSignature{sigAlgoId, sigBytes.Bytes()})
 	}
 
 	if len(supportedSignatures) == 0 {
@@ -254,9 +254,9 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 		return false
 	}
 
-	for algo, sigBytes := range toVerify {
-		if err := verifySignature(cert.PublicKey, algo, data, sigBytes); err != nil {
-			v.addError("failed to verify signature %s: %s", algo.String(), err.Error())
+	for _, sig := range toVerify {
+		if err := verifySignature(cert.PublicKey, sig.algo, data, sig.data); err != nil {
+			v.addError("failed to verify signature %s: %s", sig.algo.String(), err.Error())
 			return false
 		}
 	}
@@ -264,17 +264,20 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 	return true
 }
 
-func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureAlgorithm][]byte) map[SignatureAlgorithm][]byte {
-	type signature struct {
-		algo SignatureAlgorithm
-		data []byte
-	}
+type stampSignature struct {
+	algo SignatureAlgorithm
+	data []byte
+}
 
-	candidates := map[int32]*signature{}
+// filterSignaturesToVerify picks the strongest signature for each minimum sdk version. The first one
+// in the block is used if several of them are equally strong.
+func (v *sourceStampVerifier) filterSignaturesToVerify(signatures []stampSignature) []stampSignature {
+	candidates := map[int32]*stampSignature{}
 
 	var minProvidedSignaturesVersion int32 = math.MaxInt32
-	for algo, content := range signatures {
-		sigMin := algo.getMinSdkVersionJca()
+	for i := range signatures {
+		sig := &signatures[i]
+		sigMin := sig.algo.getMinSdkVersionJca()
 		if sigMin > v.maxSdkVersion {
 			continue
 		}
@@ -282,15 +285,15 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 			minProvidedSignaturesVersion = sigMin
 		}
 
-		if c := candidates[sigMin]; c == nil || compareAlgos(algo, c.algo) > 0 {
-			candidates[sigMin] = &signature{algo, content}
+		if c := candidates[sigMin]; c == nil || compareAlgos(sig.algo, c.algo) > 0 {
+			candidates[sigMin] = sig
 		}
 	}
 
 	if v.minSdkVersion < minProvidedSignaturesVersion || len(candidates) == 0 {
 		var present []string
-		for algo := range signatures {
-			present = append(present, algo.String())
+		for _, sig := range signatures {
+			present = append(present, sig.algo.String())
 		}
 
 		if len(candidates) == 0 {
@@ -302,9 +305,11 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 		return nil
 	}
 
-	res := make(map[SignatureAlgorithm][]byte, len(candidates))
-	for _, c := range candidates {
-		res[c.algo] = c.data
+	res := make([]stampSignature, 0, len(candidates))
+	for i := range signatures {
+		if candidates[signatures[i].algo.getMinSdkVersionJca()] == &signatures[i] {
+			res = append(res, signatures[i])
+		}
 	}
 	return res
 }
-- 
2.43.0


From b37f0d631f163ad14df5475b37a0870a4f4d83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 19/21] fix: report the same error for the same file every time

Manifest entries and content digests were visited in the random order of Go maps, so
which error was reported first or last changed from run to run.
---
 schemev1.go                  | 16 ++++++++++++++--
 signingblock/signingblock.go |  2 ++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 9a2ad2c..c892a1a 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -407,7 +407,8 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 
 		// file entries only checked if the whole-manifest fails/is not present
 		if err != nil {
-			for name, attrs := range sm.entries {
+			for _, name := range sortedEntries(sm.entries) {
+				attrs := sm.entries[name]
 				err = p.verifyManifestEntry(attrs, attrDigestSuffix, minSdkVersion, maxSdkVersion, func(hash []byte, hasher hash.Hash) error {
 					data, prs := p.manifest.chunks[name]
 					if !prs {
@@ -454,8 +455,19 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 	return p.verifyMainManifest(apk, minSdkVersion, maxSdkVersion)
 }
 
+// sortedEntries returns the names of the manifest entries in a fixed order, so that the same
+// error is reported for the same file every time.
+func sortedEntries(entries map[string]map[string]string) []string {
+	names := make([]string, 0, len(entries))
+	for name := range entries {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) error {
-	for path := range p.manifest.entries {
+	for _, path := range sortedEntries(p.manifest.entries) {
 		if _, prs := apk.File[path]; !prs {
 			return fmt.Errorf("Manifest entry '%s' does not exists.", path)
 		}
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index a27786c..e5a172b 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"sort"
 
 	"github.com/avast/apkparser"
 
@@ -612,6 +613,7 @@ func (s *signingBlock) verifyIntegrity(expectedDigests map[contentDigest][]byte,
 	for algo := range expectedDigests {
 		digestAlgorithms = append(digestAlgorithms, algo)
 	}
+	sort.Slice(digestAlgorithms, func(i, j int) bool { return digestAlgorithms[i] < digestAlgorithms[j] })
 
 	actualDigests, err := s.computeContentDigests(digestAlgorithms, beforeApkSigningBlock, centralDir, eocd)
 	if err != nil {
-- 
2.43.0


From abb2f58567c5970b9563737e04c841d0ead72b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 20/21] fix: read an empty signing block entry at the end of
 the block

bytes.Reader.Read reports EOF when nothing is left, so that a block whose last
entry is empty was taken for no signing block at all and the v2/v3 signatures in
it were ignored.
---
 signingblock/signingblock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index e5a172b..a5ff589 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -507,7 +507,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 		switch bid := BlockId(id); bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 
@@ -530,7 +530,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			// for verity signature verification.
 		case blockIdFrosting:
 			frostingBlock := make([]byte, entryLen-4)
-			if _, err = pairs.Read(frostingBlock); err != nil {
+			if _, err = io.ReadFull(pairs, frostingBlock); err != nil {
 				return
 			}
 
@@ -545,13 +545,13 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			}
 		case blockIdSourceStampV2:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			blocks[bid] = block
 		default:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			if res.ExtraBlocks == nil {
-- 
2.43.0


From 840169e21f4d9e328e1bb9b75a03ee722bf74847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:17 +0000
Subject: [PATCH 21/21] fix: do not recurse forever when an unknown lineage
 capability is printed

LineageCertCaps.String formatted the unknown bit with its own String
method (%x uses it too), so that printing the lineage of an APK with an
unknown capability bit overflowed the stack.
---
 signingblock/schemev3lineage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/schemev3lineage.go b/signingblock/schemev3lineage.go
index 1edbb1e..708c22e 100644
--- a/signingblock/schemev3lineage.go
+++ b/signingblock/schemev3lineage.go
@@ -50,7 +50,7 @@ func (c LineageCertCaps) String() string {
 		case CapAuth:
 			values = append(values, "Auth")
 		default:
-			values = append(values, fmt.Sprintf("0x%x", mask))
+			values = append(values, fmt.Sprintf("0x%x", uint32(mask)))
 		}
 	}
 
-- 
2.43.0

