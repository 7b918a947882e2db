From 2fdd1cad21e5e119c3e74a2b5aa57312f8cdf8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 01/17] fix: report a failing output stream while copying a
 binary instead of panicking

---
 format/io/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 2d360f6..c064785 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -304,7 +304,10 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 
 		writeMetadata(ew, keyMappingToIndex, bin.Metadata())
 
-		actualbinaryWritten, _ := io.Copy(ew, bin.Data())
+		actualbinaryWritten, err := io.Copy(ew, bin.Data())
+		if err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 		if actualbinaryWritten != int64(bin.Size()) {
 			panic("Binary data written was larger than size in signature")
 		}
-- 
2.43.0


From 37d8e22fa70fe6fcf08cd5e21870d29c18a3b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 02/17] fix: read version-1 headers and bodies completely from
 streams that deliver in pieces

---
 internal/io/rapv1/util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/io/rapv1/util.go b/internal/io/rapv1/util.go
index ca5ff15..ea0bac3 100644
--- a/internal/io/rapv1/util.go
+++ b/internal/io/rapv1/util.go
@@ -22,7 +22,7 @@ import (
 func getNumberOfRecordings(file io.Reader) (int, int, error) {
 	numberOfRecordings := make([]byte, 4)
 
-	bytesRead, err := file.Read(numberOfRecordings)
+	bytesRead, err := io.ReadFull(file, numberOfRecordings)
 	if err != nil {
 		return -1, bytesRead, err
 	}
@@ -151,7 +151,7 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 	recordingSize := make([]byte, 8)
 
 	bytesRead := bytesReadNumberRec
-	bytesReadFileSize, err := file.Read(recordingSize)
+	bytesReadFileSize, err := io.ReadFull(file, recordingSize)
 	bytesRead += bytesReadFileSize
 	if err != nil {
 		return nil, bytesRead, err
@@ -163,7 +163,7 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 
 	compressedSize := int64(binary.LittleEndian.Uint64(recordingSize))
 	compressedBytes := make([]byte, compressedSize)
-	compressedBytesRead, err := file.Read(compressedBytes)
+	compressedBytesRead, err := io.ReadFull(file, compressedBytes)
 	bytesRead += compressedBytesRead
 	if err != nil {
 		return nil, bytesRead, err
-- 
2.43.0


From 04872824219504ed9a0507074aa5e49ae79c9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 03/17] fix: accept streams whose reads return no data without
 an error, or data together with the end

---
 format/io/load.go          | 2 +-
 format/io/reader.go        | 2 +-
 format/io/time.go          | 2 +-
 format/metadata/io.go      | 4 ++--
 internal/io/binary/util.go | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/format/io/load.go b/format/io/load.go
index 2660c52..288af4f 100644
--- a/format/io/load.go
+++ b/format/io/load.go
@@ -14,7 +14,7 @@ import (
 func GetRecoringVersion(file io.Reader) (int, int, error) {
 	version := make([]byte, 1)
 
-	bytesRead, err := file.Read(version)
+	bytesRead, err := io.ReadFull(file, version)
 	if err != nil {
 		return 0, bytesRead, err
 	}
diff --git a/format/io/reader.go b/format/io/reader.go
index 6d2ff16..de1dfad 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -196,7 +196,7 @@ func (r Reader) Read() (format.Recording, int, error) {
 	}
 
 	compressedFlag := []byte{0}
-	bytesRead, err = r.in.Read(compressedFlag)
+	bytesRead, err = io.ReadFull(r.in, compressedFlag)
 	totalBytesRead += bytesRead
 	if err != nil {
 		return nil, totalBytesRead, err
diff --git a/format/io/time.go b/format/io/time.go
index 0276415..53a3f5f 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -192,7 +192,7 @@ func decodeTime(in io.Reader) ([]float64, error) {
 	typeByte := []byte{0}
 
 	// Read Storage Technique
-	_, err := in.Read(typeByte)
+	_, err := io.ReadFull(in, typeByte)
 	if err != nil {
 		return nil, err
 	}
diff --git a/format/metadata/io.go b/format/metadata/io.go
index 99a2053..b892b48 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -80,7 +80,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 		return NewBoolProperty(false), nil
 	case 5:
 		byteVal := make([]byte, 1)
-		_, err := b.Read(byteVal)
+		_, err := io.ReadFull(b, byteVal)
 		if err != nil {
 			return nil, err
 		}
@@ -164,7 +164,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 
 func ReadProperty(b io.Reader) (Property, error) {
 	propByte := make([]byte, 1)
-	_, err := b.Read(propByte)
+	_, err := io.ReadFull(b, propByte)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/io/binary/util.go b/internal/io/binary/util.go
index 6bb2456..b278285 100644
--- a/internal/io/binary/util.go
+++ b/internal/io/binary/util.go
@@ -18,7 +18,7 @@ func ReadUvarint(r io.Reader) (uint64, int, error) {
 	var i int
 	var totalRead int
 	for i = 0; i < binary.MaxVarintLen64; i++ {
-		read, err := r.Read(b)
+		read, err := io.ReadFull(r, b)
 		totalRead += read
 		if err != nil {
 			return x, totalRead, err
-- 
2.43.0


From b8bef7a697cd0d8a1b4b2db84404a2978b8688a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 04/17] fix: do not allocate what a corrupt length announces
 before its data has been read

Lengths and counts in a file were passed to make as they came, so a corrupt one
panicked (or exhausted memory) instead of resulting in an error. Reading of
times also ignored missing data.
---
 format/io/time.go            | 46 +++++++++++++++++++++---------------
 format/metadata/io.go        |  7 +++---
 internal/io/binary/bytes.go  | 38 ++++++++++++++++++++++++++---
 internal/io/binary/string.go |  9 ++++---
 internal/io/binary/uint.go   |  6 ++---
 internal/io/rapv1/util.go    |  8 +++----
 6 files changed, 77 insertions(+), 37 deletions(-)

diff --git a/format/io/time.go b/format/io/time.go
index 53a3f5f..71b9469 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -126,32 +126,38 @@ func encodeTime(technique TimeStorageTechnique, out io.Writer, captures []format
 	return out.Write(dataBuffer.Bytes())
 }
 
-func decodeTime64(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime64(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0)
+	for i := uint64(0); i < numCaptures; i++ {
 		var time float64
 
-		binary.Read(in, binary.LittleEndian, &time)
+		err := binary.Read(in, binary.LittleEndian, &time)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = time
+		times = append(times, time)
 	}
 	return times, nil
 }
 
-func decodeTime32(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime32(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0)
+	for i := uint64(0); i < numCaptures; i++ {
 
 		var time32 float32
-		binary.Read(in, binary.LittleEndian, &time32)
+		err := binary.Read(in, binary.LittleEndian, &time32)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = float64(time32)
+		times = append(times, float64(time32))
 	}
 
 	return times, nil
 }
 
-func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
+func decodeTimeBST16(in io.Reader, numCaptures uint64) ([]float64, error) {
 	if numCaptures == 0 {
 		return make([]float64, 0), nil
 	}
@@ -172,17 +178,19 @@ func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
 		return nil, err
 	}
 
-	captures := make([]float64, numCaptures)
-	captures[0] = float64(startTime)
+	captures := []float64{float64(startTime)}
 	buffer := make([]byte, 2)
 	currentTime := float64(startTime)
 
-	for i := 1; i < int(numCaptures); i++ {
-		in.Read(buffer)
+	for i := uint64(1); i < numCaptures; i++ {
+		_, err = io.ReadFull(in, buffer)
+		if err != nil {
+			return nil, err
+		}
 		time := rapbinary.BytesToUnisngedFloatBST(0, float64(maxTimeDifference), buffer)
 		currentTime += time
 
-		captures[i] = currentTime
+		captures = append(captures, currentTime)
 	}
 
 	return captures, nil
@@ -206,13 +214,13 @@ func decodeTime(in io.Reader) ([]float64, error) {
 
 	switch encodingTechnique {
 	case Raw64:
-		return decodeTime64(in, int(numCaptures))
+		return decodeTime64(in, numCaptures)
 
 	case Raw32:
-		return decodeTime32(in, int(numCaptures))
+		return decodeTime32(in, numCaptures)
 
 	case BST16:
-		return decodeTimeBST16(in, int(numCaptures))
+		return decodeTimeBST16(in, numCaptures)
 	}
 
 	return nil, fmt.Errorf("unrecognized time encoding: %d", encodingTechnique)
diff --git a/format/metadata/io.go b/format/metadata/io.go
index b892b48..cf2103a 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -150,12 +150,13 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 			return nil, err
 		}
 		adjustedType := propertyType - 13
-		props := make([]Property, len)
-		for i := 0; i < int(len); i++ {
-			props[i], err = readPropData(b, adjustedType)
+		props := make([]Property, 0)
+		for i := uint64(0); i < len; i++ {
+			prop, err := readPropData(b, adjustedType)
 			if err != nil {
 				return nil, err
 			}
+			props = append(props, prop)
 		}
 		return newArrayProperty(adjustedType, props), nil
 	}
diff --git a/internal/io/binary/bytes.go b/internal/io/binary/bytes.go
index 675a1a4..2875245 100644
--- a/internal/io/binary/bytes.go
+++ b/internal/io/binary/bytes.go
@@ -18,6 +18,39 @@ func BytesArrayToBytes(b []byte) []byte {
 	return buf.Bytes()
 }
 
+// maxPreallocation limits how much is allocated on the word of a length prefix
+// alone, before the data it announces has been seen.
+const maxPreallocation = 1 << 16
+
+// ReadN reads exactly n bytes. Memory is only claimed as data arrives, so a
+// corrupt length results in an error instead of an impossible allocation. Like
+// io.ReadFull, the error is io.EOF only if no bytes were read.
+func ReadN(r io.Reader, n uint64) ([]byte, int, error) {
+	if n <= maxPreallocation {
+		out := make([]byte, n)
+		read, err := io.ReadFull(r, out)
+		return out, read, err
+	}
+
+	out := make([]byte, 0, maxPreallocation)
+	for uint64(len(out)) < n {
+		chunk := n - uint64(len(out))
+		if chunk > maxPreallocation {
+			chunk = maxPreallocation
+		}
+		start := len(out)
+		out = append(out, make([]byte, chunk)...)
+		read, err := io.ReadFull(r, out[start:])
+		if err != nil {
+			if err == io.EOF && start > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return nil, start + read, err
+		}
+	}
+	return out, len(out), nil
+}
+
 // ReadBytesArray first reads the length of the byte array, then reads in a
 // buffer of that length
 func ReadBytesArray(r io.Reader) ([]byte, int, error) {
@@ -26,13 +59,12 @@ func ReadBytesArray(r io.Reader) ([]byte, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]byte, len)
-	read, err := io.ReadFull(r, out)
+	out, read, err := ReadN(r, len)
 	if err != nil && err != io.EOF {
 		return nil, read + bytesRead, err
 	}
 
-	if read != int(len) {
+	if uint64(read) != len {
 		return nil, read + bytesRead, io.ErrUnexpectedEOF
 	}
 
diff --git a/internal/io/binary/string.go b/internal/io/binary/string.go
index 84141ad..2ef7055 100644
--- a/internal/io/binary/string.go
+++ b/internal/io/binary/string.go
@@ -21,8 +21,7 @@ func ReadString(r io.Reader) (string, int, error) {
 		return "", bytesRead, err
 	}
 
-	strBuffer := make([]byte, len)
-	moreBytes, err := io.ReadFull(r, strBuffer)
+	strBuffer, moreBytes, err := ReadN(r, len)
 	if err != nil {
 		return "", bytesRead + moreBytes, err
 	}
@@ -49,14 +48,14 @@ func ReadStringArray(r io.Reader) ([]string, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]string, len)
-	for i := range out {
+	out := make([]string, 0)
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadString(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = str
+		out = append(out, str)
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/binary/uint.go b/internal/io/binary/uint.go
index 2b13219..8cf08fc 100644
--- a/internal/io/binary/uint.go
+++ b/internal/io/binary/uint.go
@@ -26,14 +26,14 @@ func ReadUvarIntArray(r io.Reader) ([]uint, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]uint, len)
-	for i := range out {
+	out := make([]uint, 0)
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadUvarint(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = uint(str)
+		out = append(out, uint(str))
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/rapv1/util.go b/internal/io/rapv1/util.go
index ea0bac3..66dd9d7 100644
--- a/internal/io/rapv1/util.go
+++ b/internal/io/rapv1/util.go
@@ -17,6 +17,7 @@ import (
 	"github.com/recolude/rap/format/collection/event"
 	"github.com/recolude/rap/format/collection/position"
 	"github.com/recolude/rap/format/metadata"
+	rapbinary "github.com/recolude/rap/internal/io/binary"
 )
 
 func getNumberOfRecordings(file io.Reader) (int, int, error) {
@@ -161,15 +162,14 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes", bytesRead)
 	}
 
-	compressedSize := int64(binary.LittleEndian.Uint64(recordingSize))
-	compressedBytes := make([]byte, compressedSize)
-	compressedBytesRead, err := io.ReadFull(file, compressedBytes)
+	compressedSize := binary.LittleEndian.Uint64(recordingSize)
+	compressedBytes, compressedBytesRead, err := rapbinary.ReadN(file, compressedSize)
 	bytesRead += compressedBytesRead
 	if err != nil {
 		return nil, bytesRead, err
 	}
 
-	if int64(compressedBytesRead) != compressedSize {
+	if uint64(compressedBytesRead) != compressedSize {
 		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes out of %d", bytesRead, compressedSize)
 	}
 
-- 
2.43.0


From 0c098645cb1882c8b2da2798c0410bde2e0f4779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 05/17] fix: report corrupt indices and undecodable parts of a
 recording

Out of range encoder and key indices panicked, and errors while reading
collections, binaries and references were dropped, leaving nil or made-up parts
in the recording.
---
 format/io/reader.go | 116 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 90 insertions(+), 26 deletions(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index de1dfad..b2e10d7 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -78,6 +78,9 @@ func readRecordingMetadataBlock(in io.Reader, metadataKeys []string) (metadata.B
 	}
 
 	for _, key := range keyIndecies {
+		if key >= uint(len(metadataKeys)) {
+			return metadata.EmptyBlock(), fmt.Errorf("metadata key index %d is out of range", key)
+		}
 		propMapping[metadataKeys[key]], err = metadata.ReadProperty(in)
 		if err != nil {
 			return metadata.EmptyBlock(), err
@@ -93,9 +96,15 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// Read Recording id
 	recordingID, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording name
 	recordingName, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording metadata
 	recordingMetadataBlock, err := readRecordingMetadataBlock(er, metadataKeys)
@@ -105,61 +114,116 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// read num streams
 	numStreams, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// read streams
-	allStreams := make([]format.CaptureCollection, numStreams)
-	for i := 0; i < int(numStreams); i++ {
-		encoderIndex, _, _ := binary.ReadUvarint(er)
+	allStreams := make([]format.CaptureCollection, 0)
+	for i := uint64(0); i < numStreams; i++ {
+		encoderIndex, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		if encoderIndex >= uint64(len(encoders)) {
+			return nil, er.TotalRead(), fmt.Errorf("encoder index %d is out of range", encoderIndex)
+		}
 
-		streamName, _, _ := binary.ReadString(er)
+		streamName, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+
+		times, err := decodeTime(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		times, _ := decodeTime(er)
-		captureBody, _, _ := binary.ReadBytesArray(er)
-		stream, _ := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
-		allStreams[i] = stream
+		captureBody, _, err := binary.ReadBytesArray(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+
+		stream, err := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		allStreams = append(allStreams, stream)
 	}
 
 	// read binary references
 	numBinaryReferences, _, err := binary.ReadUvarint(er)
-	binReferences := make([]format.BinaryReference, numBinaryReferences)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
+	binReferences := make([]format.BinaryReference, 0)
 
-	for i := 0; i < int(numBinaryReferences); i++ {
-		name, _, _ := binary.ReadString(er)
-		uri, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+	for i := uint64(0); i < numBinaryReferences; i++ {
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		uri, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		binReferences[i] = NewBinaryReference(name, uri, refSize, block)
+		binReferences = append(binReferences, NewBinaryReference(name, uri, refSize, block))
 	}
 
 	// read binaries
 	numBinaries, _, err := binary.ReadUvarint(er)
-	binaries := make([]format.Binary, numBinaries)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
+	binaries := make([]format.Binary, 0)
 
-	for i := 0; i < int(numBinaries); i++ {
-		name, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+	for i := uint64(0); i < numBinaries; i++ {
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		allData := make([]byte, refSize)
-		io.ReadFull(er, allData)
+		allData, _, err := binary.ReadN(er, refSize)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		binaries[i] = NewBinary(name, allData, block)
+		binaries = append(binaries, NewBinary(name, allData, block))
 	}
 
 	// read num recordings
 	numRecordings, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
-	allChildRecordings := make([]format.Recording, numRecordings)
-	for i := 0; i < int(numRecordings); i++ {
+	allChildRecordings := make([]format.Recording, 0)
+	for i := uint64(0); i < numRecordings; i++ {
 		childRec, _, err := recursiveBuidRecordings(er, metadataKeys, encoders, headers)
 		if err != nil {
 			return nil, er.TotalRead(), err
 		}
-		allChildRecordings[i] = childRec
+		allChildRecordings = append(allChildRecordings, childRec)
 	}
 
 	return format.NewRecording(recordingID, recordingName, allStreams, allChildRecordings, recordingMetadataBlock, binaries, binReferences), er.TotalRead(), er.Error()
-- 
2.43.0


From b09cd1a811e8f2f3e88a00da2e6b362783923e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 06/17] fix: report corrupt enum and event indices instead of
 panicking

---
 format/encoding/enum/enum.go   | 14 ++++++++++++--
 format/encoding/event/event.go | 10 ++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index b567d01..b5b3327 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/enum"
@@ -86,16 +87,25 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 	reader := rapbinary.NewErrReader(bytes.NewBuffer(streamData))
 
-	enumMemberIndexes, _, _ := rapbinary.ReadUvarIntArray(reader)
+	enumMemberIndexes, _, err := rapbinary.ReadUvarIntArray(reader)
+	if err != nil {
+		return nil, err
+	}
 
 	enumMembers := make([]string, len(enumMemberIndexes))
 	for i, indeces := range enumMemberIndexes {
+		if indeces >= uint(len(allEnumMembers)) {
+			return nil, fmt.Errorf("enum member index %d is out of range", indeces)
+		}
 		enumMembers[i] = allEnumMembers[indeces]
 	}
 
 	captures := make([]enum.Capture, len(times))
 	for i := 0; i < len(times); i++ {
-		value, _ := binary.ReadUvarint(reader)
+		value, err := binary.ReadUvarint(reader)
+		if err != nil {
+			return nil, err
+		}
 		captures[i] = enum.NewCapture(times[i], int(value))
 	}
 
diff --git a/format/encoding/event/event.go b/format/encoding/event/event.go
index 8688908..cd58ec7 100644
--- a/format/encoding/event/event.go
+++ b/format/encoding/event/event.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/event"
@@ -93,6 +94,9 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 func readHeader(header []byte) (names []string, metadataKeys []string, err error) {
 	headerReader := bytes.NewBuffer(header)
 	names, _, err = rapbinary.ReadStringArray(headerReader)
+	if err != nil {
+		return
+	}
 	metadataKeys, _, err = rapbinary.ReadStringArray(headerReader)
 	return
 }
@@ -111,6 +115,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 		if err != nil {
 			return nil, err
 		}
+		if eventNameIndex >= uint64(len(eventNames)) {
+			return nil, fmt.Errorf("event name index %d is out of range", eventNameIndex)
+		}
 
 		metadataIndeces, _, err := rapbinary.ReadUvarIntArray(buf)
 		if err != nil {
@@ -119,6 +126,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 		block := make(map[string]metadata.Property)
 		for metadataIndex := 0; metadataIndex < len(metadataIndeces); metadataIndex++ {
+			if metadataIndeces[metadataIndex] >= uint(len(metadataKeys)) {
+				return nil, fmt.Errorf("event metadata key index %d is out of range", metadataIndeces[metadataIndex])
+			}
 			prop, err := metadata.ReadProperty(buf)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 1d7b609f0f91c1e74a3e1d94570a5c6335e0c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 07/17] fix: report missing capture data and unknown float
 techniques when decoding collections

Short bodies were completed with zeros or repeated values, and an unknown float
storage technique silently gave an empty collection.
---
 format/encoding/euler/raw16.go    | 25 ++++++++++++++++++-------
 format/encoding/euler/raw32.go    | 19 ++++++++++++++++---
 format/encoding/euler/raw64.go    |  7 ++++---
 format/encoding/float/float.go    |  9 ++++++++-
 format/encoding/position/oct24.go | 30 +++++++++++++++---------------
 format/encoding/position/oct48.go | 30 +++++++++++++++---------------
 format/encoding/position/raw32.go | 19 ++++++++++++++++---
 format/encoding/position/raw64.go |  7 ++++---
 8 files changed, 96 insertions(+), 50 deletions(-)

diff --git a/format/encoding/euler/raw16.go b/format/encoding/euler/raw16.go
index c7a858e..51a54a8 100644
--- a/format/encoding/euler/raw16.go
+++ b/format/encoding/euler/raw16.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/euler"
@@ -48,21 +49,31 @@ func decodeRaw16(streamData *bytes.Reader, times []float64) ([]euler.Capture, er
 		var posX float32
 		var posY float32
 		var posZ float32
-		err := binary.Read(streamData, binary.LittleEndian, &posX)
-		err = binary.Read(streamData, binary.LittleEndian, &posY)
-		err = binary.Read(streamData, binary.LittleEndian, &posZ)
-		return []euler.Capture{euler.NewEulerZXYCapture(times[0], float64(posX), float64(posY), float64(posZ))}, err
+		err := readFloats(streamData, &posX, &posY, &posZ)
+		if err != nil {
+			return nil, err
+		}
+		return []euler.Capture{euler.NewEulerZXYCapture(times[0], float64(posX), float64(posY), float64(posZ))}, nil
 	}
 
 	captures := make([]euler.Capture, len(times))
 	buffer := make([]byte, 2)
 
 	for i := 0; i < len(times); i++ {
-		streamData.Read(buffer)
+		_, err := io.ReadFull(streamData, buffer)
+		if err != nil {
+			return nil, err
+		}
 		x := binaryutil.BytesToUnisngedFloatBST(0, 360, buffer)
-		streamData.Read(buffer)
+		_, err = io.ReadFull(streamData, buffer)
+		if err != nil {
+			return nil, err
+		}
 		y := binaryutil.BytesToUnisngedFloatBST(0, 360, buffer)
-		streamData.Read(buffer)
+		_, err = io.ReadFull(streamData, buffer)
+		if err != nil {
+			return nil, err
+		}
 		z := binaryutil.BytesToUnisngedFloatBST(0, 360, buffer)
 		captures[i] = euler.NewEulerZXYCapture(times[i], float64(x), float64(y), float64(z))
 	}
diff --git a/format/encoding/euler/raw32.go b/format/encoding/euler/raw32.go
index 63c8c4b..4e5509c 100644
--- a/format/encoding/euler/raw32.go
+++ b/format/encoding/euler/raw32.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 
 	"github.com/recolude/rap/format/collection/euler"
 )
@@ -17,6 +18,17 @@ func encodeRaw32(captures []euler.Capture) []byte {
 	return streamData.Bytes()
 }
 
+// readFloats reads consecutive floats, reporting missing data
+func readFloats(in io.Reader, values ...*float32) error {
+	for _, value := range values {
+		err := binary.Read(in, binary.LittleEndian, value)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func decodeRaw32(streamData *bytes.Reader, times []float64) ([]euler.Capture, error) {
 	var x float32
 	var y float32
@@ -24,9 +36,10 @@ func decodeRaw32(streamData *bytes.Reader, times []float64) ([]euler.Capture, er
 
 	captures := make([]euler.Capture, len(times))
 	for i := 0; i < len(times); i++ {
-		binary.Read(streamData, binary.LittleEndian, &x)
-		binary.Read(streamData, binary.LittleEndian, &y)
-		binary.Read(streamData, binary.LittleEndian, &z)
+		err := readFloats(streamData, &x, &y, &z)
+		if err != nil {
+			return nil, err
+		}
 		captures[i] = euler.NewEulerZXYCapture(times[i], float64(x), float64(y), float64(z))
 	}
 
diff --git a/format/encoding/euler/raw64.go b/format/encoding/euler/raw64.go
index 6383468..4308a98 100644
--- a/format/encoding/euler/raw64.go
+++ b/format/encoding/euler/raw64.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/euler"
@@ -30,19 +31,19 @@ func decodeRaw64(streamData *bytes.Reader, times []float64) ([]euler.Capture, er
 	captures := make([]euler.Capture, len(times))
 	buf := make([]byte, binary.MaxVarintLen64)
 	for i := 0; i < len(times); i++ {
-		_, err := streamData.Read(buf)
+		_, err := io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
 		x := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 
-		_, err = streamData.Read(buf)
+		_, err = io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
 		y := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 
-		_, err = streamData.Read(buf)
+		_, err = io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
diff --git a/format/encoding/float/float.go b/format/encoding/float/float.go
index f640343..4b9ef41 100644
--- a/format/encoding/float/float.go
+++ b/format/encoding/float/float.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 
@@ -199,7 +200,13 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 	case BST16:
 		captures = decodeBST16(errReader, times)
 		break
+
+	default:
+		return nil, fmt.Errorf("unknown float encoding technique: %d", int(encodingTechnique))
 	}
 
-	return float.NewCollection(name, captures), errReader.Error()
+	if errReader.Error() != nil {
+		return nil, errReader.Error()
+	}
+	return float.NewCollection(name, captures), nil
 }
diff --git a/format/encoding/position/oct24.go b/format/encoding/position/oct24.go
index 3f785cb..67e4c0d 100644
--- a/format/encoding/position/oct24.go
+++ b/format/encoding/position/oct24.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/EliCDavis/vector/vector3"
@@ -146,10 +147,11 @@ func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		var posX float32
 		var posY float32
 		var posZ float32
-		err := binary.Read(collectionData, binary.LittleEndian, &posX)
-		err = binary.Read(collectionData, binary.LittleEndian, &posY)
-		err = binary.Read(collectionData, binary.LittleEndian, &posZ)
-		return []position.Capture{position.NewCapture(times[0], float64(posX), float64(posY), float64(posZ))}, err
+		err := readFloats(collectionData, &posX, &posY, &posZ)
+		if err != nil {
+			return nil, err
+		}
+		return []position.Capture{position.NewCapture(times[0], float64(posX), float64(posY), float64(posZ))}, nil
 	}
 
 	var minX float32
@@ -162,15 +164,10 @@ func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capt
 	var startingY float32
 	var startingZ float32
 
-	err := binary.Read(collectionData, binary.LittleEndian, &minX)
-	err = binary.Read(collectionData, binary.LittleEndian, &minY)
-	err = binary.Read(collectionData, binary.LittleEndian, &minZ)
-	err = binary.Read(collectionData, binary.LittleEndian, &maxX)
-	err = binary.Read(collectionData, binary.LittleEndian, &maxY)
-	err = binary.Read(collectionData, binary.LittleEndian, &maxZ)
-	err = binary.Read(collectionData, binary.LittleEndian, &startingX)
-	err = binary.Read(collectionData, binary.LittleEndian, &startingY)
-	err = binary.Read(collectionData, binary.LittleEndian, &startingZ)
+	err := readFloats(collectionData, &minX, &minY, &minZ, &maxX, &maxY, &maxZ, &startingX, &startingY, &startingZ)
+	if err != nil {
+		return nil, err
+	}
 	min := vector3.New[float64](float64(minX), float64(minY), float64(minZ))
 	max := vector3.New[float64](float64(maxX), float64(maxY), float64(maxZ))
 	starting := vector3.New[float64](float64(startingX), float64(startingY), float64(startingZ))
@@ -181,7 +178,10 @@ func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capt
 	currentPosition := starting
 	for i := 0; i < len(times); i++ {
 		if i > 0 {
-			collectionData.Read(octBytesBuffer)
+			_, err := io.ReadFull(collectionData, octBytesBuffer)
+			if err != nil {
+				return nil, err
+			}
 			bytesToOctCells24(octBuffer, octBytesBuffer)
 			v := OctCellsToVec3(min, max, octBuffer)
 			currentPosition = currentPosition.Add(v)
@@ -190,5 +190,5 @@ func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		captures[i] = position.NewCapture(times[i], currentPosition.X(), currentPosition.Y(), currentPosition.Z())
 	}
 
-	return captures, err
+	return captures, nil
 }
diff --git a/format/encoding/position/oct48.go b/format/encoding/position/oct48.go
index 63b6cff..41ac2ea 100644
--- a/format/encoding/position/oct48.go
+++ b/format/encoding/position/oct48.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/EliCDavis/vector/vector3"
@@ -177,10 +178,11 @@ func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		var posX float32
 		var posY float32
 		var posZ float32
-		err := binary.Read(collectionData, binary.LittleEndian, &posX)
-		err = binary.Read(collectionData, binary.LittleEndian, &posY)
-		err = binary.Read(collectionData, binary.LittleEndian, &posZ)
-		return []position.Capture{position.NewCapture(float64(times[0]), float64(posX), float64(posY), float64(posZ))}, err
+		err := readFloats(collectionData, &posX, &posY, &posZ)
+		if err != nil {
+			return nil, err
+		}
+		return []position.Capture{position.NewCapture(float64(times[0]), float64(posX), float64(posY), float64(posZ))}, nil
 	}
 
 	var minX float32
@@ -193,15 +195,10 @@ func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capt
 	var startingY float32
 	var startingZ float32
 
-	err := binary.Read(collectionData, binary.LittleEndian, &minX)
-	err = binary.Read(collectionData, binary.LittleEndian, &minY)
-	err = binary.Read(collectionData, binary.LittleEndian, &minZ)
-	err = binary.Read(collectionData, binary.LittleEndian, &maxX)
-	err = binary.Read(collectionData, binary.LittleEndian, &maxY)
-	err = binary.Read(collectionData, binary.LittleEndian, &maxZ)
-	err = binary.Read(collectionData, binary.LittleEndian, &startingX)
-	err = binary.Read(collectionData, binary.LittleEndian, &startingY)
-	err = binary.Read(collectionData, binary.LittleEndian, &startingZ)
+	err := readFloats(collectionData, &minX, &minY, &minZ, &maxX, &maxY, &maxZ, &startingX, &startingY, &startingZ)
+	if err != nil {
+		return nil, err
+	}
 	min := vector3.New[float64](float64(minX), float64(minY), float64(minZ))
 	max := vector3.New[float64](float64(maxX), float64(maxY), float64(maxZ))
 	starting := vector3.New[float64](float64(startingX), float64(startingY), float64(startingZ))
@@ -212,7 +209,10 @@ func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capt
 	currentPosition := starting
 	for i := 0; i < len(times); i++ {
 		if i > 0 {
-			collectionData.Read(octBytesBuffer)
+			_, err := io.ReadFull(collectionData, octBytesBuffer)
+			if err != nil {
+				return nil, err
+			}
 			bytesToOctCells48(octBuffer, octBytesBuffer)
 			v := OctCellsToVec3(min, max, octBuffer)
 			currentPosition = currentPosition.Add(v)
@@ -221,5 +221,5 @@ func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		captures[i] = position.NewCapture(times[i], currentPosition.X(), currentPosition.Y(), currentPosition.Z())
 	}
 
-	return captures, err
+	return captures, nil
 }
diff --git a/format/encoding/position/raw32.go b/format/encoding/position/raw32.go
index 366d86b..01ebdc6 100644
--- a/format/encoding/position/raw32.go
+++ b/format/encoding/position/raw32.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 
 	"github.com/recolude/rap/format/collection/position"
 )
@@ -19,6 +20,17 @@ func encodeRaw32(captures []position.Capture) []byte {
 	return streamData.Bytes()
 }
 
+// readFloats reads consecutive floats, reporting missing data
+func readFloats(in io.Reader, values ...*float32) error {
+	for _, value := range values {
+		err := binary.Read(in, binary.LittleEndian, value)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func decodeRaw32(streamData *bytes.Reader, times []float64) ([]position.Capture, error) {
 	captures := make([]position.Capture, len(times))
 	for i := 0; i < len(times); i++ {
@@ -26,9 +38,10 @@ func decodeRaw32(streamData *bytes.Reader, times []float64) ([]position.Capture,
 		var y float32
 		var z float32
 
-		binary.Read(streamData, binary.LittleEndian, &x)
-		binary.Read(streamData, binary.LittleEndian, &y)
-		binary.Read(streamData, binary.LittleEndian, &z)
+		err := readFloats(streamData, &x, &y, &z)
+		if err != nil {
+			return nil, err
+		}
 		captures[i] = position.NewCapture(times[i], float64(x), float64(y), float64(z))
 	}
 
diff --git a/format/encoding/position/raw64.go b/format/encoding/position/raw64.go
index 4bf1e67..e17493b 100644
--- a/format/encoding/position/raw64.go
+++ b/format/encoding/position/raw64.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/position"
@@ -28,19 +29,19 @@ func decodeRaw64(streamData *bytes.Reader, times []float64) ([]position.Capture,
 	captures := make([]position.Capture, len(times))
 	buf := make([]byte, 8)
 	for i := 0; i < int(len(times)); i++ {
-		_, err := streamData.Read(buf)
+		_, err := io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
 		x := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 
-		_, err = streamData.Read(buf)
+		_, err = io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
 		y := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 
-		_, err = streamData.Read(buf)
+		_, err = io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 68d3e903b1c994d5c8da620c1132c69df4a7cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 08/17] fix: report a CSV without a required column instead of
 panicking

---
 cmd/rap-cli/csv.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmd/rap-cli/csv.go b/cmd/rap-cli/csv.go
index cacc18e..697c8db 100644
--- a/cmd/rap-cli/csv.go
+++ b/cmd/rap-cli/csv.go
@@ -56,6 +56,22 @@ func RecordingFromCSV(in io.Reader) (format.Recording, error) {
 		}
 	}
 
+	for _, column := range []struct {
+		name  string
+		index int
+	}{
+		{"time", timeIndex},
+		{"id", idIndex},
+		{"name", nameIndex},
+		{"x", posXIndex},
+		{"y", posYIndex},
+		{"z", posZIndex},
+	} {
+		if column.index == -1 {
+			return nil, fmt.Errorf("missing required column: %q", column.name)
+		}
+	}
+
 	workingData := make(map[string]map[string][]position.Capture)
 
 	for {
-- 
2.43.0


From 20109987d34b69e7ad0a0e5d2272c7c810e01477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 09/17] fix: write times outside the years 1678 to 2262
 unchanged to JSON and BSON

---
 format/metadata/property.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index a61b5b4..188c435 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -587,11 +587,11 @@ func (tp *TimeProperty) UnmarshalJSON(b []byte) error {
 }
 
 func (tp TimeProperty) MarshalJSON() ([]byte, error) {
-	return json.Marshal(time.Unix(0, tp.microseconds*1000).Format(time.RFC3339Nano))
+	return json.Marshal(time.UnixMicro(tp.microseconds).Format(time.RFC3339Nano))
 }
 
 func (tp TimeProperty) MarshalBSONValue() (bsontype.Type, []byte, error) {
-	return bson.MarshalValue(time.Unix(0, tp.microseconds*1000))
+	return bson.MarshalValue(time.UnixMicro(tp.microseconds))
 }
 
 // ARRAY =====================================================================
-- 
2.43.0


From d4c9e6fa56a92a9edf16efcb9550609f98d6277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 10/17] fix: read metadata from JSON without panicking, losing
 or altering values

---
 format/metadata/property.go |  14 ++--
 format/metadata/utils.go    | 146 +++++++++++++++++++++---------------
 2 files changed, 92 insertions(+), 68 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index 188c435..c7039f4 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -281,6 +281,9 @@ func (bp *ByteProperty) UnmarshalJSON(b []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(b) != 1 {
+		return fmt.Errorf("expected a single byte, found %d", len(b))
+	}
 	bp.b = b[0]
 	return nil
 }
@@ -517,15 +520,11 @@ func (mp *MetadataProperty) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &data); err != nil {
 		return err
 	}
-	prop, err := getProperties(data)
+	block, err := getBlock(data)
 	if err != nil {
 		return err
 	}
-	newMp, ok := prop.(MetadataProperty)
-	if !ok {
-		return errors.New("unable to unmarshal MetadataProperty")
-	}
-	mp.block.mapping = newMp.block.mapping
+	mp.block = block
 	return nil
 }
 
@@ -744,6 +743,9 @@ func (apr *ArrayPropertyRaw) UnmarshalJSON(b []byte) error {
 	if err != nil {
 		return err
 	}
+	if single, ok := prop.(ByteProperty); ok {
+		prop = NewBinaryArrayProperty([]byte{single.b})
+	}
 	newApr, ok := prop.(ArrayPropertyRaw)
 	if !ok {
 		return errors.New("unable to unmarshal MetadataProperty")
diff --git a/format/metadata/utils.go b/format/metadata/utils.go
index c2aceaa..6fab3ae 100644
--- a/format/metadata/utils.go
+++ b/format/metadata/utils.go
@@ -2,8 +2,9 @@ package metadata
 
 import (
 	"encoding/hex"
-	"encoding/json"
+	"errors"
 	"fmt"
+	"math"
 	"strings"
 	"time"
 )
@@ -11,88 +12,109 @@ import (
 func getProperties(data interface{}) (Property, error) {
 	switch d := data.(type) {
 	case map[string]interface{}:
-		x, foundX := d["x"]
-		y, foundY := d["y"]
-		z, foundZ := d["z"]
+		x, foundX := d["x"].(float64)
+		y, foundY := d["y"].(float64)
+		z, foundZ := d["z"].(float64)
 		if len(d) == 2 && foundX && foundY {
-			return NewVector2Property(x.(float64), y.(float64)), nil
+			return NewVector2Property(x, y), nil
 		}
 		if len(d) == 3 && foundX && foundY && foundZ {
-			return NewVector3Property(x.(float64), y.(float64), z.(float64)), nil
+			return NewVector3Property(x, y, z), nil
 		}
-		nestedProps := make(map[string]Property)
-		for key, val := range d {
-			np, err := getProperties(val)
-			if err != nil {
-				return nil, err
-			}
-			nestedProps[key] = np
+		block, err := getBlock(d)
+		if err != nil {
+			return nil, err
 		}
-		return NewMetadataProperty(NewBlock(nestedProps)), nil
+		return NewMetadataProperty(block), nil
 	case []interface{}:
-		if _, ok := d[0].(bool); ok {
-			bools := make([]bool, 0, len(d))
-			for _, item := range d {
-				b, _ := item.(bool)
-				bools = append(bools, b)
-			}
-			return NewBoolArrayProperty(bools), nil
-		}
-		props := make([]Property, 0, len(d))
-		for _, item := range d {
-			propItem, err := getProperties(item)
-			if err != nil {
-				return nil, err
-			}
-			props = append(props, propItem)
-		}
-		return ArrayProperty{props: props, originalBaseCode: props[0].Code()}, nil
+		return getArray(d)
 	case string:
-		if strings.HasPrefix(d, HEX_PREFIX) && len(d) == 4 {
-			var p ByteProperty
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-				return nil, err
-			}
-			return p, nil
-		}
 		if strings.HasPrefix(d, HEX_PREFIX) {
 			b, err := hex.DecodeString(strings.TrimPrefix(d, HEX_PREFIX))
 			if err != nil {
 				return nil, err
 			}
-			return NewBinaryArrayProperty(b), nil
-		}
-		if _, err := time.Parse(time.RFC3339Nano, d); err == nil {
-			var p TimeProperty
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-				return nil, err
+			if len(b) == 1 {
+				return NewByteProperty(b[0]), nil
 			}
-			return p, nil
+			return NewBinaryArrayProperty(b), nil
 		}
-		var p StringProperty
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-			return nil, err
+		if t, err := time.Parse(time.RFC3339Nano, d); err == nil {
+			return NewTimeProperty(t), nil
 		}
-		return p, nil
+		return NewStringProperty(d), nil
 	case float64:
-		if d == float64(int64(d)) {
-			var p Int32Property
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
-				return nil, err
+		if i := int64(d); d == float64(i) {
+			if i < math.MinInt32 || i > math.MaxInt32 {
+				return nil, fmt.Errorf("number %v does not fit a 32-bit integer", d)
 			}
-			return p, nil
+			return NewIntProperty(int(i)), nil
 		}
-		var p Float32Property
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
-			return nil, err
+		if math.Abs(d) > math.MaxFloat32 {
+			return nil, fmt.Errorf("number %v does not fit a 32-bit float", d)
 		}
-		return p, nil
+		return NewFloat32Property(float32(d)), nil
 	case bool:
-		var p BoolProperty
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
+		return NewBoolProperty(d), nil
+	}
+	return nil, fmt.Errorf("can not interpret %v as a metadata property", data)
+}
+
+func getBlock(data map[string]interface{}) (Block, error) {
+	props := make(map[string]Property)
+	for key, val := range data {
+		prop, err := getProperties(val)
+		if err != nil {
+			return EmptyBlock(), err
+		}
+		props[key] = prop
+	}
+	return NewBlock(props), nil
+}
+
+// getArray builds an array property. All elements of an array are stored under
+// one type, so they have to be of one kind; whole numbers among other numbers
+// are kept as floats.
+func getArray(data []interface{}) (Property, error) {
+	if len(data) == 0 {
+		return NewStringArrayProperty(nil), nil
+	}
+
+	if _, ok := data[0].(bool); ok {
+		bools := make([]bool, 0, len(data))
+		for _, item := range data {
+			b, ok := item.(bool)
+			if !ok {
+				return nil, errors.New("array mixes different kinds of elements")
+			}
+			bools = append(bools, b)
+		}
+		return NewBoolArrayProperty(bools), nil
+	}
+
+	props := make([]Property, 0, len(data))
+	floats := false
+	for _, item := range data {
+		prop, err := getProperties(item)
+		if err != nil {
 			return nil, err
 		}
-		return p, nil
+		if prop.Code() > 12 {
+			return nil, errors.New("arrays of arrays are not supported")
+		}
+		if _, ok := prop.(Float32Property); ok {
+			floats = true
+		}
+		props = append(props, prop)
+	}
+
+	for i, prop := range props {
+		if ip, ok := prop.(Int32Property); ok && floats {
+			props[i] = NewFloat32Property(float32(ip.i))
+		}
+		if props[i].Code() != props[0].Code() {
+			return nil, errors.New("array mixes different kinds of elements")
+		}
 	}
-	return nil, nil
+	return newArrayProperty(props[0].Code(), props), nil
 }
-- 
2.43.0


From bb2e2b73e5e50ad961d191dd068354b3f86d4511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 11/17] fix: give every distinct JSON enum entry its own index

---
 format/parsing/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 01f73bd..5a6c901 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -275,6 +275,7 @@ func parseEnumCollection(name string, jsonCaptures []*gabs.Container) (format.Ca
 		if val, ok := allEnumEntriesMapping[enumEntry]; ok {
 			enumIndex = val
 		} else {
+			allEnumEntriesMapping[enumEntry] = enumIndex
 			allEnumEntries = append(allEnumEntries, enumEntry)
 		}
 
-- 
2.43.0


From e1a75f8f58860cd3fccf0d613201ff2bcfdca658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 12/17] fix: report JSON metadata that can not be read instead
 of dropping it

---
 format/parsing/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 5a6c901..110d9f5 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -37,7 +37,9 @@ func parseMetadata(jsonObj *gabs.Container) (metadata.Block, error) {
 	}
 
 	resultingMetadata := metadata.NewMetadataProperty(metadata.EmptyBlock())
-	resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	if err := resultingMetadata.UnmarshalJSON([]byte(metadataNode.String())); err != nil {
+		return metadata.EmptyBlock(), err
+	}
 
 	return resultingMetadata.Block(), nil
 }
-- 
2.43.0


From 60fd640a73291cbe9d0a274c1b068252073dee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 13/17] fix: escape texts in JSON output and report values JSON
 can not hold

---
 cmd/rap-cli/json.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/cmd/rap-cli/json.go b/cmd/rap-cli/json.go
index 2139400..07ccad9 100644
--- a/cmd/rap-cli/json.go
+++ b/cmd/rap-cli/json.go
@@ -1,8 +1,10 @@
 package main
 
 import (
+	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/recolude/rap/format"
@@ -10,6 +12,12 @@ import (
 	"github.com/recolude/rap/format/metadata"
 )
 
+// jsonText quotes and escapes a text for use in a JSON document.
+func jsonText(text string) string {
+	quoted, _ := json.Marshal(text) // marshalling a string never fails
+	return string(quoted)
+}
+
 func toJson(out io.Writer, recording format.Recording, depth int) error {
 	indentationBuilder := strings.Builder{}
 	for i := 0; i < depth; i++ {
@@ -21,10 +29,10 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	fmt.Fprintf(out, "%s{\n", indentation)
 
 	// Write ID
-	fmt.Fprintf(out, "%s\"id\": \"%s\",\n", subIndentation, recording.ID())
+	fmt.Fprintf(out, "%s\"id\": %s,\n", subIndentation, jsonText(recording.ID()))
 
 	// Write Name
-	fmt.Fprintf(out, "%s\"name\": \"%s\",\n", subIndentation, recording.Name())
+	fmt.Fprintf(out, "%s\"name\": %s,\n", subIndentation, jsonText(recording.Name()))
 
 	// Write Metadata
 	metadataJSONData, err := metadata.NewMetadataProperty(recording.Metadata()).MarshalJSON()
@@ -42,8 +50,8 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	subsubIndentation := subIndentation + "\t"
 	for i, collection := range recording.CaptureCollections() {
 		fmt.Fprintf(out, "%s{\n", subsubIndentation)
-		fmt.Fprintf(out, "%s\t\"name\": \"%s\",\n", subsubIndentation, collection.Name())
-		fmt.Fprintf(out, "%s\t\"signature\" : \"%s\",\n", subsubIndentation, collection.Signature())
+		fmt.Fprintf(out, "%s\t\"name\": %s,\n", subsubIndentation, jsonText(collection.Name()))
+		fmt.Fprintf(out, "%s\t\"signature\" : %s,\n", subsubIndentation, jsonText(collection.Signature()))
 		fmt.Fprintf(out, "%s\t\"count\" : %d", subsubIndentation, collection.Length())
 		if collection.Signature() == "recolude.event" {
 			fmt.Fprintf(out, ",\n%s\t\"captures\": [\n", subsubIndentation)
@@ -57,9 +65,13 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 						return err
 					}
 
+					if math.IsNaN(event.Time()) || math.IsInf(event.Time(), 0) {
+						return fmt.Errorf("can not write the time %f of event %s as JSON", event.Time(), event.Name())
+					}
+
 					fmt.Fprintf(out, "%s\t\t{\n", subsubIndentation)
 					fmt.Fprintf(out, "%s\t\t\t\"time\": %f,\n", subsubIndentation, event.Time())
-					fmt.Fprintf(out, "%s\t\t\t\"name\": \"%s\",\n", subsubIndentation, event.Name())
+					fmt.Fprintf(out, "%s\t\t\t\"name\": %s,\n", subsubIndentation, jsonText(event.Name()))
 					fmt.Fprintf(out, "%s\t\t\t\"data\": %s\n", subsubIndentation, string(eventJSONData))
 					fmt.Fprintf(out, "%s\t\t}", subsubIndentation)
 					if capIndex < eventCollection.Length()-1 {
@@ -96,7 +108,9 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 		if rec == nil {
 			fmt.Fprintf(out, "null")
 		} else {
-			toJson(out, rec, depth+2)
+			if err := toJson(out, rec, depth+2); err != nil {
+				return err
+			}
 		}
 		if i < len(recording.Recordings())-1 {
 			fmt.Fprintf(out, ",\n")
-- 
2.43.0


From f984e5a3210d4632a6d9e78e035c74d7ca2d38bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 14/17] fix: report a failing output from to-json

---
 cmd/rap-cli/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/rap-cli/main.go b/cmd/rap-cli/main.go
index 6d3134b..4cf0a34 100644
--- a/cmd/rap-cli/main.go
+++ b/cmd/rap-cli/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -107,7 +108,13 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 						return errors.New("can not build json from nil recording")
 					}
 
-					return toJson(c.App.Writer, recording, 0)
+					var document bytes.Buffer
+					if err := toJson(&document, recording, 0); err != nil {
+						return err
+					}
+
+					_, err := c.App.Writer.Write(document.Bytes())
+					return err
 				},
 			},
 			{
-- 
2.43.0


From cd7e49fa20afc94818d96638f222734a1739052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 15/17] fix: report an error when a binary's data is not of its
 stated size

---
 format/io/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index c064785..ecbf336 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -309,7 +309,7 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 			return ew.TotalWritten(), -1, err
 		}
 		if actualbinaryWritten != int64(bin.Size()) {
-			panic("Binary data written was larger than size in signature")
+			return ew.TotalWritten(), -1, fmt.Errorf("binary %q holds %d bytes but reports a size of %d", bin.Name(), actualbinaryWritten, bin.Size())
 		}
 	}
 
-- 
2.43.0


From b12207ed3a393971ec4efe996a5a7119cbd702f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 16/17] fix: report an error for captures that are not of their
 collection's kind

---
 format/encoding/enum/enum.go         | 5 ++++-
 format/encoding/euler/euler.go       | 7 ++++++-
 format/encoding/position/position.go | 7 ++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index b5b3327..b615fef 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -35,7 +35,10 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 	streamDataBuffers := make([]bytes.Buffer, len(streams))
 
 	for bufferIndex, stream := range streams {
-		enmstr := stream.(enum.Collection)
+		enmstr, ok := stream.(enum.Collection)
+		if !ok {
+			return nil, nil, errors.New("collection is not of type enum")
+		}
 
 		// Build mapping from enum member to index in header
 		indexMapping := make([]uint, len(enmstr.EnumMembers()))
diff --git a/format/encoding/euler/euler.go b/format/encoding/euler/euler.go
index 797761b..bd148ae 100644
--- a/format/encoding/euler/euler.go
+++ b/format/encoding/euler/euler.go
@@ -2,6 +2,7 @@ package euler
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -37,7 +38,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]euler.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(euler.Capture)
+		casted, ok := c.(euler.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type euler")
+		}
+		castedCaptureData[i] = casted
 	}
 
 	streamData.WriteByte(byte(p.technique))
diff --git a/format/encoding/position/position.go b/format/encoding/position/position.go
index a091998..cda1364 100644
--- a/format/encoding/position/position.go
+++ b/format/encoding/position/position.go
@@ -2,6 +2,7 @@ package position
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -41,7 +42,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]position.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(position.Capture)
+		casted, ok := c.(position.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type position")
+		}
+		castedCaptureData[i] = casted
 	}
 
 	streamData.WriteByte(byte(p.technique))
-- 
2.43.0


From 21140b2cb453449396374dea33e71a8971c98ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:50 +0000
Subject: [PATCH 17/17] fix: report an error when asked to write by an unknown
 storage technique

---
 format/encoding/euler/euler.go       | 2 ++
 format/encoding/float/float.go       | 3 +++
 format/encoding/position/position.go | 3 +++
 format/io/time.go                    | 3 +++
 format/io/writer.go                  | 5 ++++-
 5 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/format/encoding/euler/euler.go b/format/encoding/euler/euler.go
index bd148ae..22d8a83 100644
--- a/format/encoding/euler/euler.go
+++ b/format/encoding/euler/euler.go
@@ -57,6 +57,8 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 	case Raw16:
 		streamData.Write(encodeRaw16(castedCaptureData))
 		break
+	default:
+		return nil, fmt.Errorf("unknown euler encoding technique: %d", int(p.technique))
 	}
 
 	return streamData.Bytes(), nil
diff --git a/format/encoding/float/float.go b/format/encoding/float/float.go
index 4b9ef41..e7c1f66 100644
--- a/format/encoding/float/float.go
+++ b/format/encoding/float/float.go
@@ -127,6 +127,9 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 				return nil, nil, err
 			}
 			break
+
+		default:
+			return nil, nil, fmt.Errorf("unknown float encoding technique: %d", int(p.technique))
 		}
 	}
 
diff --git a/format/encoding/position/position.go b/format/encoding/position/position.go
index cda1364..1599f49 100644
--- a/format/encoding/position/position.go
+++ b/format/encoding/position/position.go
@@ -74,6 +74,9 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 		}
 		streamData.Write(d)
 		break
+
+	default:
+		return nil, fmt.Errorf("unknown positional encoding technique: %d", int(p.technique))
 	}
 
 	return streamData.Bytes(), nil
diff --git a/format/io/time.go b/format/io/time.go
index 71b9469..013e7d8 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -122,6 +122,9 @@ func encodeTime(technique TimeStorageTechnique, out io.Writer, captures []format
 			return 0, err
 		}
 		break
+
+	default:
+		return 0, fmt.Errorf("unrecognized time encoding: %d", technique)
 	}
 	return out.Write(dataBuffer.Bytes())
 }
diff --git a/format/io/writer.go b/format/io/writer.go
index ecbf336..1054b65 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -266,7 +266,10 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 		ew.Write(encoderIndex[:read])
 
 		ew.Write(rapbinary.StringToBytes(recording.CaptureCollections()[streamIndex].Name()))
-		encodeTime(tech, ew, recording.CaptureCollections()[streamIndex].Captures())
+		_, err := encodeTime(tech, ew, recording.CaptureCollections()[streamIndex].Captures())
+		if err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 
 		// Write stream data
 		ew.Write(rapbinary.BytesArrayToBytes(encodingBlocks[offset+streamIndex]))
-- 
2.43.0

