From 11c05ac24cb4e11f1e7d3538e3cce3f1149b0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:28 +0000
Subject: [PATCH 1/6] fix: accelerated readers must not load past a stream with
 a partial last quad

When the count is not a multiple of 4 the last control byte may describe as
little as one byte of data, so counting it as 4 bytes lets the 16 byte load of
an accelerated block reach up to 3 bytes past the end of the stream.
---
 pkg/stream/reader/reader_amd64.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/stream/reader/reader_amd64.go b/pkg/stream/reader/reader_amd64.go
index eb03649..161dcce 100644
--- a/pkg/stream/reader/reader_amd64.go
+++ b/pkg/stream/reader/reader_amd64.go
@@ -19,6 +19,10 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		decoded = 0
 		dataPos = (count + 3) / 4
 		ctrlLen = dataPos
+		// fullLen is the count of control bytes that describe 4 integers. A
+		// last control byte for fewer integers may have less than 4 bytes of
+		// data, so it can't be relied on to make the loads below safe.
+		fullLen = count / 4
 		// lowest32 is the limit for the count of integers we'll read in
 		// bulk 8 at a time directly from the input stream. We subtract 3
 		// here since we load 16 bytes at a time in the assembly code. If
@@ -34,7 +38,7 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		lowest32 = ((fullLen - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -88,7 +92,7 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 
 	// Must be strictly less than the last 4 blocks of integers, since we can't safely
 	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	for ; ctrlPos < fullLen-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32FastAsm(
 			stream[dataPos:],
@@ -129,6 +133,10 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		decoded = 0
 		dataPos = (count + 3) / 4
 		ctrlLen = dataPos
+		// fullLen is the count of control bytes that describe 4 integers. A
+		// last control byte for fewer integers may have less than 4 bytes of
+		// data, so it can't be relied on to make the loads below safe.
+		fullLen = count / 4
 		// lowest32 is the limit for the count of integers we'll read in
 		// bulk 8 at a time directly from the input stream. We subtract 3
 		// here since we load 16 bytes at a time in the assembly code. If
@@ -144,7 +152,7 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		lowest32 = ((fullLen - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -203,7 +211,7 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 
 	// Must be strictly less than the last 4 blocks of integers, since we can't safely
 	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	for ; ctrlPos < fullLen-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32DeltaFastAsm(
 			stream[dataPos:],
-- 
2.43.0


From 9b48906cbcf2182ef62a6694f9d380dd1f9f0685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 2/6] fix: the library did not compile on architectures other
 than amd64

The portable stand-ins of the accelerated decoders had the wrong signature and
those of the differential stream reader and writer were missing.
---
 pkg/decode/decode_base.go        | 4 ++--
 pkg/stream/reader/reader_base.go | 4 ++++
 pkg/stream/writer/writer_base.go | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/decode/decode_base.go b/pkg/decode/decode_base.go
index decaee5..ee83b9c 100644
--- a/pkg/decode/decode_base.go
+++ b/pkg/decode/decode_base.go
@@ -10,10 +10,10 @@ func GetMode() shared.PerformanceMode {
 	return shared.Normal
 }
 
-func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) int {
+func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) {
 	panic("unreachable")
 }
 
-func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) int {
+func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) {
 	panic("unreachable")
 }
diff --git a/pkg/stream/reader/reader_base.go b/pkg/stream/reader/reader_base.go
index 18a7b86..7a6cdf4 100644
--- a/pkg/stream/reader/reader_base.go
+++ b/pkg/stream/reader/reader_base.go
@@ -5,3 +5,7 @@ package reader
 func ReadAllFast(count int, stream []byte, out []uint32) {
 	panic("unreachable")
 }
+
+func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
+	panic("unreachable")
+}
diff --git a/pkg/stream/writer/writer_base.go b/pkg/stream/writer/writer_base.go
index 6a54520..7e815f0 100644
--- a/pkg/stream/writer/writer_base.go
+++ b/pkg/stream/writer/writer_base.go
@@ -5,3 +5,7 @@ package writer
 func WriteAllFast(in []uint32) []byte {
 	panic("unreachable")
 }
+
+func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
+	panic("unreachable")
+}
-- 
2.43.0


From b51cc88550b7970e6015c914e0ce55d7794e9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 3/6] fix: RandUint32 could return a number one byte longer
 than the chosen length

The upper bounds of the ranges are inclusive, so 1<<8, 1<<16 and 1<<24 belonged
to the range of the next shorter encoded length.
---
 pkg/util/rand.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/util/rand.go b/pkg/util/rand.go
index 34ee6c8..4fa1f45 100644
--- a/pkg/util/rand.go
+++ b/pkg/util/rand.go
@@ -22,15 +22,15 @@ var (
 	generators = []generator{
 		// 1 byte,
 		func() uint32 {
-			return randUint32Range(0, 1<<8)
+			return randUint32Range(0, 1<<8-1)
 		},
 		// 2 byte,
 		func() uint32 {
-			return randUint32Range(1<<8, 1<<16)
+			return randUint32Range(1<<8, 1<<16-1)
 		},
 		// 3 byte,
 		func() uint32 {
-			return randUint32Range(1<<16, 1<<24)
+			return randUint32Range(1<<16, 1<<24-1)
 		},
 		// 4 byte,
 		func() uint32 {
-- 
2.43.0


From 8e5a087e9a0d43de467a3edcd8a39dbaa966b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 4/6] fix: the benchmark updater took the first code fence of
 the file for the end of its block

The end of the block was searched from the start of the document, so an earlier
fence made the tool duplicate everything between the two, and a missing one made
it panic.
---
 tools/parse_and_write_bench.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/parse_and_write_bench.go b/tools/parse_and_write_bench.go
index 740771c..a7f9d0b 100644
--- a/tools/parse_and_write_bench.go
+++ b/tools/parse_and_write_bench.go
@@ -99,7 +99,12 @@ func main() {
 		log.Fatalf("couldn't find start sentinel")
 	}
 
-	restStart := bytes.Index(allData, bEnd)
+	bodyStart := start + len(bStart)
+	restStart := bytes.Index(allData[bodyStart:], bEnd)
+	if restStart < 0 {
+		log.Fatalf("couldn't find end sentinel")
+	}
+	restStart += bodyStart
 
 	var final []byte
 	final = append(final, allData[:start]...)
-- 
2.43.0


From b3aabef1a6abd5aa906222abf288edabd98e8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:33 +0000
Subject: [PATCH 5/6] fix: update_bench.sh fails and leaves the README alone
 when the benchmarks fail

---
 tools/update_bench.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/update_bench.sh b/tools/update_bench.sh
index 671cfea..eb577bc 100755
--- a/tools/update_bench.sh
+++ b/tools/update_bench.sh
@@ -1,6 +1,6 @@
 #!/usr/bin/env bash
 
-set -e
+set -eo pipefail
 
 TMP_FILE=$(mktemp)
 go test -bench . ./pkg/... | tee $TMP_FILE
-- 
2.43.0


From bf12614453163489f2cfc0af20fbc30978a8c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:54 +0000
Subject: [PATCH 6/6] fix: generate_and_check.sh sees new files in untracked
 directories

---
 tools/generate_and_check.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/generate_and_check.sh b/tools/generate_and_check.sh
index 0b7bc74..f0623ab 100755
--- a/tools/generate_and_check.sh
+++ b/tools/generate_and_check.sh
@@ -3,12 +3,12 @@
 set -e
 
 BEFORE_DIFF=$(git diff | sha1sum )
-BEFORE_STATUS=$(git status --porcelain | sha1sum)
+BEFORE_STATUS=$(git status --porcelain --untracked-files=all | sha1sum)
 
 make generate
 
 AFTER_DIFF=$(git diff | sha1sum )
-AFTER_STATUS=$(git status --porcelain | sha1sum)
+AFTER_STATUS=$(git status --porcelain --untracked-files=all | sha1sum)
 
 if [[ $BEFORE_DIFF != $AFTER_DIFF || $BEFORE_STATUS != $AFTER_STATUS ]]; then
   echo "Unstable generate. Make sure to generate and check in changed files."
-- 
2.43.0

