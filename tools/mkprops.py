#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
P = []
SB='signingblock/signingblock.go'; SG='signingblock/signer.go'; V2='signingblock/schemev2.go'; V3='signingblock/schemev3.go'
V31='signingblock/schemev31.go'; LI='signingblock/schemev3lineage.go'; UT='signingblock/utils.go'; ST='signingblock/sourcestamp.go'
FR='signingblock/frosting.go'; DS='signingblock/datasource.go'; VE='signingblock/verity.go'; VR='signingblock/verificationresult.go'
AV='apkverifier.go'; S1='schemev1.go'; MF='manifest.go'; CI='certinfo.go'; AL='apilevel/levels.go'
P7='fullsailor/pkcs7/pkcs7.go'; BER='fullsailor/pkcs7/ber.go'; X7='fullsailor/pkcs7/x509.go'
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n,w in mech],
                     observe_at=observe or ['apkverifier.VerifyWithSdkVersionReader','signingblock.VerifySigningBlockReaderWithZip'], hook_needed=None)))
I=['inputs']; IC=['inputs','configurations']
SAMPLES='The tests verify a handful of fixed APKs (most are downloaded corpora that are absent here); none of them forges a signing block, so no test exercises the rejecting side of this rule for arbitrary bytes.'

p('C01','Accepted signing block: every signer is cryptographically verified',
  'If an APK is accepted because of its APK Signing Block (v2, v3 or v3.1), then every signer listed in the block of the scheme that was used has a signature that was verified, with the public key that signer declares and the algorithm declared for that signature, over the complete bytes of its signed data. A signer whose signature is missing, unsupported, malformed or wrong makes verification fail; it is never skipped.',
  I,'every byte string offered as an APK and every SDK range, every number of signers and signatures',
  SAMPLES,[SB,SG,V2,V3,V31,UT],[('signature check of each signer',SG+' parsePublicKey'),('signer loops',V2+' parseSigners, '+V3+' parseSigners'),('verdict from recorded errors',VR)])
p('C02','The strongest supported signature of a signer is the one verified',
  'When a signer carries several signatures, the one that is verified has the strongest content digest among the supported ones, in the order chunked SHA-256 < verity SHA-256 < chunked SHA-512. An unsupported algorithm is never selected, and a signer without any supported algorithm is rejected.',
  I,'every list of signature records, in every order, with repetitions and unknown algorithms',
  'The number of orders and combinations of algorithm ids is unbounded; the corpus has APKs with one or two signatures.',[SG],[('selection loop',SG+' parseSignatures'),('order',SG+' compareAlgos'),('supported set',SG+' isSupported')])
p('C03','Declared key and reported certificates belong to the verified signer',
  'Every accepted v2/v3/v3.1 signer has at least one certificate in its signed data, and the subject public key info of the first one is byte for byte the public key its signature was verified with. The certificates that a successful result reports are exactly the certificates in the signed data of the signers that were verified, one chain per signer in the order of the block.',
  I,'every signer record, every number of certificates per signer',SAMPLES,[SG,VR,AV],[('key comparison',SG+' parseCertificates'),('certificate collection',VR+' certAdder')])
p('C04','Every content digest claimed by an accepted signer is checked against the file',
  'If an APK is accepted because of its APK Signing Block, each content digest that a verified signer states for the algorithm its signature was verified with (including those of v3.1 signers) is non-empty in kind and equal, over its full length, to the digest computed from the file. The digest is computed over everything before the signing block, the central directory and the end-of-central-directory record with its directory offset replaced by the offset of the signing block.',
  I,'every file content, size and signer set',SAMPLES,[SB,SG,V31,DS],[('integrity check',SB+' verifyIntegrity'),('digest collection',SG+' parseDigests'),('v3.1 digests',V31)])
p('C05','Digest and signature algorithm lists agree, signers do not contradict',
  'A v2/v3/v3.1 signer is accepted only if the algorithm ids in its signed digests are the same list, in the same order, as the algorithm ids of its signatures. Two signers that state different digests of the same kind make verification fail, and so does a v2 block with more than ten signers.',
  I,'every list of digests and signatures, every number of signers',SAMPLES,[SG,V2],[('list comparison',SG+' parseDigests'),('signer limit',V2+' parseSigners')])
p('C06','v3 signers are bound to contiguous SDK ranges that cover the request',
  'A v3 or v3.1 signer is accepted only if the minimum and maximum SDK version outside its signed data equal the ones inside it. An accepted set of v3 signers covers the requested SDK range (from Android 9 on, up to where v3.1 rotation takes over) without gaps or overlaps.',
  IC,'every set of signers and every requested SDK range',SAMPLES,[V3,V31],[('range comparison',V3+' verifySigner'),('coverage',V3+' finalizeResult')])
p('C07','Every proof-of-rotation lineage that is accepted is a verified chain',
  'In a signing certificate lineage of an accepted v3 signer, every certificate after the first is covered by a signature of its predecessor with the algorithm the predecessor announced, the signed and unsigned algorithm ids agree, no certificate occurs twice, and the lineage has the known version. The last certificate is the one of the signer, and the lineages of several signers are prefixes of one another, never shorter for later platform versions.',
  I,'every lineage attribute of every length',SAMPLES,[V3,LI],[('node loop',V3+' readSigningCertificateLineage'),('signer is last',V3+' verifySigner'),('consolidation',V3+' consolidateLineages')])
p('C08','Stripping a newer signature scheme is detected',
  'An APK is rejected when the signature it was verified with says that a newer scheme was present and that scheme is missing: a v2 signer naming a stripped scheme on SDK levels with v3, a v3 signer requiring rotation whose v3.1 block is missing or targets another SDK version, a v3.1 block without a v3 block, and a v1 signature file naming scheme 2 (or 3 where supported) without a valid signing block. These checks apply whenever the requested range includes a platform that makes them.',
  IC,'every combination of present and announced schemes and every SDK range',SAMPLES,[V2,V3,V31,S1],[('v2 attribute',V2+' verifySigner'),('v3 attribute',V3+' verifySigner'),('v3.1 base block',V31),('X-Android-APK-Signed',S1+' verify')])
p('C09','Errors found in a signing block decide the verdict; only one fallback exists',
  'Once any signer, attribute or integrity check of the block in use has failed, verification returns an error; no later step turns it into success. The only exception is that a failing v3 (or v3.1) block is ignored in favour of a v2 block when the range includes Android versions before 9, and then no certificate, lineage or partial result of the rejected block is reported.',
  IC,'every sequence of failing and succeeding steps, every SDK range',SAMPLES,[SB,VR,V31],[('error list',VR),('fallback',SB+' VerifySigningBlockReaderWithZip')])
p('C10','The scheme is chosen by presence and SDK level, newest first',
  'Verification uses v3.1, else v3, else v2, taking a block into account only if the maximum requested SDK version supports its scheme (33, 28 and 24), and reports that scheme id. Without any usable block, or if the file has no valid signing block, the outcome is reported as "signature block not found", and below SDK version 24 as scheme 1 without an error; either way the caller then verifies v1.',
  IC,'every set of blocks, every SDK range',SAMPLES,[SB,AL],[('block collection',SB+' findSignatureBlocks'),('choice',SB+' pickScheme'),('levels',AL)])
p('C11','Every signature algorithm id is verified with its own hash, padding and key type',
  'For each of the ten supported algorithm ids, the signature is verified with the key type, padding, salt length and hash that the id stands for, over the hash of exactly the data given. An unknown id or a key of another type yields an error, never success.',
  I,'all 2^32 algorithm ids, all key types, all data and signatures',
  'The tests contain no signing block signed with DSA, PSS or SHA-512 algorithms in this environment and cannot enumerate forged combinations.',[UT,SG],[('dispatch',UT+' verifySignature'),('digest kinds',SG+' getDigestType')])
p('C12','Overall verdict: v1 is skipped only when a valid signing block suffices',
  'Verification succeeds only if the signing block verified and the minimum SDK version is at least 24, or else the v1 signature verified; a signing block that is present but invalid always fails. An invalid SDK range, a sandbox version or target SDK version that requires a newer scheme than the one found, and a DEX file posing as a v1-checked APK are errors; a manifest whose values are needed but cannot be read is an error when v1 is verified beside a signing block.',
  IC,'every APK and every SDK range',SAMPLES,[AV,AL],[('verdict',AV+' VerifyWithSdkVersionReader'),('manifest values',AV+' getManifestInfo')],['apkverifier.VerifyWithSdkVersionReader'])
p('C13','v1: every file of the archive is covered by a matching manifest digest',
  'If the v1 signature is accepted, every entry of the archive that is neither a directory nor below META-INF/ has a manifest entry, that manifest entry has at least one acceptable digest, and every acceptable digest was compared with the digest of the whole content of the file. Every manifest entry names an existing file, and AndroidManifest.xml is required (unless the archive is a bundle).',
  IC,'every archive, every number of entries and digests','The tests verify intact APKs; they do not modify entries.',[S1],[('coverage',S1+' verifyMainManifest'),('digest choice',S1+' getDigestsToVerify'),('file hash',S1+' verifyFileHash')],['apkverifier.VerifyWithSdkVersionReader'])
p('C14','v1: the manifest is vouched for by every signature file that counts',
  'A v1 signature counts as valid only if its signature file contains a matching digest of the whole manifest, or a matching digest of the manifest section of every entry it lists, and its digest of the main attributes, if present and needed, matches. Each required file is listed in a valid signature file, all files have the same set of signers, and at most ten signers are accepted; the reported chains are those signers.',
  IC,'every signature file and manifest','The tests verify intact APKs only.',[S1,MF],[('chain',S1+' verify'),('same signers',S1+' certChainsMatch')],['apkverifier.VerifyWithSdkVersionReader'])
p('C15','v1: the signature block is verified over the signature file it belongs to',
  'If v1 verification succeeds, every signature block that was considered has at least one signer whose signature verified, with the key of the embedded certificate matching the declared issuer and serial number, over the signature file of the same name, or over signed attributes whose message digest equals the digest of that file and (from Android 7) whose content type equals the one of the message. One failing signature block makes verification fail, and the reported chain starts with the certificate whose signature verified.',
  IC,'every PKCS#7 structure','The tests verify intact APKs only.',[S1,P7],[('signature',S1+' verifySignature'),('algorithms',S1+' checkSignature')],['apkverifier.VerifyWithSdkVersionReader'])
p('C16','v1: algorithm identifiers map to the algorithms they name',
  'Each accepted pair of digest and signature algorithm identifiers in a v1 signature selects exactly the algorithm those identifiers denote, and the digest names in manifests select exactly the hash they denote; anything else is rejected. Which digests of an entry are checked depends on the SDK range as on Android: all listed digests the platform knows before level 18, the strongest one from level 18 on.',
  IC,'every identifier pair, digest name and SDK range','Tables of dozens of identifiers of which the tests exercise two or three.',[S1],[('identifier table',S1+' oidToAlgo'),('hash table',S1+' digestHashers'),('checkSignature',S1)],['apkverifier.VerifyWithSdkVersionReader'])
p('C17','v1: manifests are parsed strictly and unambiguously',
  'A manifest is rejected if it contains a NUL byte in a value, an attribute name that is empty, longer than 70 bytes or with characters other than letters, digits, "-" and "_", a colon not followed by a space, a section not starting with a name, or, in the main manifest, two sections with the same name. Attribute names are compared without regard to case, and the bytes hashed for a section are exactly the bytes that section was parsed from.',
  I,'every byte string offered as a manifest','Inputs are unbounded; the tests parse well-formed manifests.',[MF],[('parser',MF+' parse, readHeader')],['apkverifier.VerifyWithSdkVersionReader'])
p('C18','A source stamp without errors has been verified in full',
  'A source stamp result without errors and with a certificate hash entry in the archive means: the certificate in the stamp matches that hash; the stamp signature of the scheme that was verified is valid under that certificate over all content digests of that scheme; signed attributes, if present, are covered by a valid signature; and a lineage, if present, is a verified chain that ends with that certificate. A stamp never changes the verdict on the APK signature.',
  IC,'every stamp block, digest set and SDK range','No test forges a stamp; the four stamp tests need files that exist only as samples.',[ST],[('verification',ST+' VerifySourceV2Stamp'),('selection of signatures',ST+' filterSignaturesToVerify')],['signingblock.VerificationResult.SourceStamp'])
p('C19','Play Frosting without error has been verified with a known key and this file',
  'A frosting result without error means that the frosting signature verified, with one of the built-in keys, over the signed region that contains the reported metadata and the file digest, and that this digest equals the SHA-256 of the file before the signing block, the v2 block with its id, the central directory and the patched end-of-central-directory record. Frosting never changes the verdict on the APK signature.',
  I,'every frosting block and file','No frosting sample is available to the tests here.',[FR,SB],[('block',FR+' parseFrostingBlock'),('file digest',FR+' verifyApk')],['signingblock.VerificationResult.Frosting'])
p('C20','No input makes verification panic through unchecked types or values',
  'No input to verification or certificate extraction reaches an explicit panic, a failing type assertion or a nil pointer taken from decoded data: unexpected key types, algorithm ids, digest kinds and missing optional values produce errors.',
  I,'every byte string offered as an APK, every SDK range','A test shows the absence of a panic for one input only.',[UT,SG,SB,S1,P7,V3,LI,ST],[('error returns instead of panics','all of the verification code')])
p('C21','No input makes parsing index or slice out of range',
  'Every index and slice operation and every allocation size in the parsing code for signing blocks, frosting, manifests and BER is within bounds for all inputs; truncated or lying length fields produce errors.',
  I,'every byte string offered as an APK, every length field','A test shows this for one input only.',[UT,SB,FR,MF,BER,S1,CI],[('length checks before reads','all parsers')])
p('C22','Parsing terminates: bounded recursion and progress in every loop',
  'Recursion on input data is bounded by a constant depth, and every loop over input data consumes input, advances a bounded counter or ends, so that verification terminates for every finite file.',
  I,'every byte string offered as an APK','Termination for all inputs cannot be sampled.',[BER,MF,SB,FR,S1,ST,V3],[('depth limit',BER+' readObject'),('loop progress','all parsers')])
p('C23','The caller\'s archive stays open, opened files are always closed',
  'Functions that open the file or the archive themselves close it on every return, with or without an error; an archive that the caller passed in is never closed. Entries that verification opens are closed on every path.',
  ['inputs','fault_sequences'],'every entry point, every early return and error','Tests pass their own files and do not look at descriptors; error returns are not exercised.',[AV,SB,S1,MF],[('deferred closes',AV+', '+SB+', '+S1)])
p('C24','No shared mutable state between verifications',
  'After package initialisation no verification, extraction or certificate description writes to package-level variables or to objects reachable from them, so that concurrent calls on different files cannot influence each other.',
  ['schedules'],'every interleaving of concurrent calls','The tests run one verification at a time.',[AV,SB,SG,S1,FR,ST,CI,P7],[('only call-local state','whole library')])
p('C25','Verification only reads the given file',
  'Verification and extraction write no file, open no file other than the given path, start no process or goroutine, use no network and no environment variable, and print nothing.',
  I,'every input and entry point','A test cannot observe the absence of effects for all inputs.',[AV,SB,S1,'fullsailor/pkcs7','internal/x509andr'],[('effect-free code','whole library')])
p('C26','The verdict and the report are deterministic',
  'Verdict, error, scheme, certificates, lineage, stamp and frosting results are functions of the file content and the SDK range; neither map iteration order, the clock nor randomness influences them.',
  ['inputs','histories'],'every input, every map iteration order, every repetition','A map order that differs once in many runs is not seen by a test that runs once.',[SB,SG,S1,ST,CI],[('ordered iteration','whole library')])
p('C27','Certificate info describes the given certificate',
  'The certificate description has the MD5, SHA-1 and SHA-256 fingerprints of the complete encoded certificate in hexadecimal, and its validity interval, issuer, subject, signature algorithm and serial number, each from the corresponding field. The best certificate is the first of one of the given chains, and the caller\'s chains stay as they were.',
  I,'every certificate and list of chains','The tests compare a few fixed certificates.',[CI,UT],[('Fill',CI),('PickBestApkCert',CI)],['apkverifier.NewCertInfo','apkverifier.PickBestApkCert'])
p('C28','A signing block is used only where Android would find it',
  'A signing block is used only if the end-of-central-directory record ends exactly at the end of the file, the central directory directly precedes it, the file is not ZIP64, and the block directly precedes the central directory, has the magic, the same size at both ends and lies inside the file. Its entries are consumed completely, each within its declared size; where an id occurs more than once the first entry counts. A record and a block that satisfy all this are found.',
  I,'every byte string offered as an APK',SAMPLES,[SB],[('EOCD',SB+' findEocd'),('block',SB+' findApkSigningBlock'),('entries',SB+' findSignatureBlocks')])
p('C29','PKCS#7: Verify accepts only messages whose every signer verifies',
  'The exported PKCS#7 verification returns success only if there is at least one signer and, for every signer, the signature verified under the certificate named by issuer and serial number over the content, or over signed attributes whose message digest equals the digest of the content. Identifiers select the algorithms they denote.',
  I,'every PKCS#7 structure','The tests have a few fixed messages.',[P7,X7],[('Verify',P7+' verifySignature'),('tables',X7)],['pkcs7.PKCS7.Verify'])
p('C30','Certificate extraction follows the same selection as verification',
  'Extracting certificates without verification returns the certificates of the newest signing block scheme that is present, with any parsing error, and looks at v1 signatures exactly when no signing block is found.',
  I,'every APK','The tests compare extraction with verification on intact APKs only.',[AV,SB,S1],[('extraction',AV+' ExtractCertsReader, '+SB+' ExtractCertsReader')],['apkverifier.ExtractCertsReader','signingblock.ExtractCertsReader'])
p('C31','Data of the caller is not modified',
  'Certificates, chains, archives and byte slices that the caller passes in are never written to, and the archive index is left as it was.',
  ['inputs','histories'],'every call and every argument','Tests do not compare arguments before and after.',[AV,SB,S1,CI,UT,ST],[('read-only parameters','whole library')])
p('C32','Length-prefixed and tagged structures are read exactly',
  'Every field read from signing-block data is taken at the position that follows the previous field, lies inside the enclosing structure, and a length that is negative or exceeds the enclosing structure makes the structure be rejected; signed data is never read from outside the bytes that were verified.',
  I,'every signing block',SAMPLES,[UT,V2,V3,SG,ST],[('length-prefixed reads',UT+' getLenghtPrefixedSlice')])
p('C33','Verity and chunked digests are computed as the schemes define them',
  'The chunked digests are the hash over 0x5a, the number of chunks and the digests of consecutive chunks of at most one MiB of each section, each prefixed by 0xa5 and its length; the verity digest is the salted Merkle tree root over 4096-byte pages followed by the total length.',
  I,'every file size and content','Sizes around chunk and page boundaries are not sampled by tests.',[SB,VE,DS],[('chunked',SB+' computeOneMbChunkContentDigests'),('verity',VE)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P))
