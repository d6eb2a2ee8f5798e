From aa07441eef4e6a453099f1bb338b8d2570b5f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 01/28] fix: encode audio_descriptor's audio_count in 4 bits
 and flush the writer

---
 pkg/scte35/audio_descriptor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 4ad6c18..61c167d 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -81,16 +81,20 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(8, AudioDescriptorTag)
 	iow.PutUint32(8, uint32(length))
 	iow.PutUint32(32, CUEIdentifier)
-	iow.PutUint32(8, uint32(len(sd.AudioChannels)))
+	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
 		iow.PutUint32(8, ad.ComponentTag)
-		_, _ = iow.Write([]byte(ad.ISOCode))
+		if _, err := iow.Write([]byte(ad.ISOCode)); err != nil {
+			return buf, err
+		}
 		iow.PutUint32(3, ad.BitStreamMode)
 		iow.PutUint32(4, ad.NumChannels)
 		iow.PutBit(ad.FullSrvcAudio)
 	}
-	return buf, nil
+
+	err := iow.Flush()
+	return buf, err
 }
 
 // descriptorLength returns the descriptor_length
-- 
2.43.0


From 86ed4ac319d61e0be9e6104667d7902d8f337bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 02/28] fix: decode a cancelled splice_insert, which ends after
 the cancel indicator

---
 pkg/scte35/splice_insert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 30af225..b101c2d 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -162,10 +162,10 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 			r.Skip(6) // reserved
 			cmd.BreakDuration.Duration = r.Uint64(33)
 		}
+		cmd.UniqueProgramID = r.Uint32(16)
+		cmd.AvailNum = r.Uint32(8)
+		cmd.AvailsExpected = r.Uint32(8)
 	}
-	cmd.UniqueProgramID = r.Uint32(16)
-	cmd.AvailNum = r.Uint32(8)
-	cmd.AvailsExpected = r.Uint32(8)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_insert: %w", err)
-- 
2.43.0


From f46a383fe4d27e65bcea442e27e3d5907caa95f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 03/28] fix: decode and encode cancelled splice_schedule
 events, which end after the cancel indicator

---
 pkg/scte35/splice_schedule.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index ef47b7a..487a34a 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -81,10 +81,10 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 				r.Skip(6) // reserved
 				e.BreakDuration.Duration = r.Uint64(33)
 			}
+			e.UniqueProgramID = r.Uint32(16)
+			e.AvailNum = r.Uint32(8)
+			e.AvailsExpected = r.Uint32(8)
 		}
-		e.UniqueProgramID = r.Uint32(16)
-		e.AvailNum = r.Uint32(8)
-		e.AvailsExpected = r.Uint32(8)
 		cmd.Events[i] = e
 	}
 
@@ -124,10 +124,10 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 				iow.PutUint32(6, Reserved)
 				iow.PutUint64(33, e.BreakDuration.Duration)
 			}
+			iow.PutUint32(16, e.UniqueProgramID)
+			iow.PutUint32(8, e.AvailNum)
+			iow.PutUint32(8, e.AvailsExpected)
 		}
-		iow.PutUint32(16, e.UniqueProgramID)
-		iow.PutUint32(8, e.AvailNum)
-		iow.PutUint32(8, e.AvailsExpected)
 	}
 
 	err := iow.Flush()
-- 
2.43.0


From 68342760c40a90b8e18188161cca5bd6c0a62d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 04/28] fix: keep a PrivateCommand read from XML

---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a392c95..135244d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -436,6 +436,9 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	if i.BandwidthReservation != nil {
 		return i.BandwidthReservation
 	}
+	if i.PrivateCommand != nil {
+		return i.PrivateCommand
+	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-- 
2.43.0


From a657656f9cdd259c864c03a10f5b7fdc662b2a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 05/28] fix: do not wrap utc_splice_time values past 2106

---
 pkg/scte35/scte35.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index c8fab99..2a0256d 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -125,7 +125,7 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec+unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0),
 	}
 }
 
-- 
2.43.0


From 6e4dfa5c67b85960328f540077944cf40aff1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 06/28] fix: do not panic on an MPU() UPID without a format
 identifier

---
 pkg/scte35/segmentation_upid.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 5e26ccc..d744e3c 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -248,11 +248,19 @@ func (upid *SegmentationUPID) eidrTypeName() string {
 	return ""
 }
 
+// formatIdentifierBytes returns the format identifier as a byte array. A UPID
+// without one is given the zero format identifier.
+func (upid *SegmentationUPID) formatIdentifierBytes() []byte {
+	b := make([]byte, 4)
+	if upid.FormatIdentifier != nil {
+		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+	}
+	return b
+}
+
 // formatIdentifierString returns the format identifier as a string
 func (upid *SegmentationUPID) formatIdentifierString() string {
-	b := make([]byte, 4)
-	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
-	return string(b)
+	return string(upid.formatIdentifierBytes())
 }
 
 // valueBytes returns the value as a byte array.
@@ -274,8 +282,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 		return b
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
-		b := make([]byte, 4)
-		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		b := upid.formatIdentifierBytes()
 		v, err := base64.StdEncoding.DecodeString(upid.Value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
-- 
2.43.0


From e250604ecbb5f55ac3a8c3f66d8f8b2005f9048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 07/28] fix: do not take a compressed EIDR holding the byte
 0x2F for text

---
 pkg/scte35/segmentation_upid.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index d744e3c..16becca 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -310,13 +310,14 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 
 // canonicalEIDR returns a canonical EIDR.
 func canonicalEIDR(b []byte) string {
-	// already canonical
-	if bytes.Contains(b, []byte("/")) {
-		return string(b)
-	}
-
-	// dunno what this is
+	// not compressed
 	if len(b) != 12 {
+		// already canonical
+		if bytes.Contains(b, []byte("/")) {
+			return string(b)
+		}
+
+		// dunno what this is
 		Logger.Printf("Unexpected eidr value received: %s", b)
 		return ""
 	}
-- 
2.43.0


From 127459a2b8f254d4783216003b8321f8dd3df71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 08/28] fix: keep the blanks of binary UPIDs and do not modify
 UPIDs when encoding

---
 pkg/scte35/segmentation_upid.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 16becca..03af83a 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -21,6 +21,7 @@ import (
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
+	"encoding/xml"
 	"fmt"
 	"strconv"
 	"strings"
@@ -263,18 +264,29 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 	return string(upid.formatIdentifierBytes())
 }
 
+// UnmarshalXML decodes a SegmentationUPID from XML, where white space around
+// the value is not part of it.
+func (upid *SegmentationUPID) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type plain SegmentationUPID
+	var tmp plain
+	if err := d.DecodeElement(&tmp, &start); err != nil {
+		return err
+	}
+	tmp.Value = strings.Trim(tmp.Value, " \t\r\n")
+	*upid = SegmentationUPID(tmp)
+	return nil
+}
+
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
-	upid.Value = strings.TrimSpace(upid.Value)
-
 	// this switch should align with the constructor above
 	switch upid.Type {
 	// EIDR - custom
 	case SegmentationUPIDTypeEIDR:
-		return upid.compressEIDR(upid.Value)
+		return upid.compressEIDR(strings.TrimSpace(upid.Value))
 	// ISAN - base64
 	case SegmentationUPIDTypeISAN, SegmentationUPIDTypeISANDeprecated:
-		b, err := base64.StdEncoding.DecodeString(upid.Value)
+		b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(upid.Value))
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -283,7 +295,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
 		b := upid.formatIdentifierBytes()
-		v, err := base64.StdEncoding.DecodeString(upid.Value)
+		v, err := base64.StdEncoding.DecodeString(strings.TrimSpace(upid.Value))
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
-- 
2.43.0


From 78aa4dd633df82fa2518b31984b78cc7c520f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 09/28] fix: drop alignment_stuffing left from a previous
 decode into the same section

---
 pkg/scte35/splice_info_section.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 135244d..aab534e 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -80,6 +80,8 @@ func (sis *SpliceInfoSection) Base64() string {
 
 // Decode the contents of a byte array into this SpliceInfoSection.
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
+	sis.resetBinary()
+
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
 	r.Skip(1) // section_syntax_indicator (shall be 0)
@@ -316,6 +318,7 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	sis.resetBinary()
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
@@ -336,6 +339,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+	sis.resetBinary()
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
@@ -350,6 +354,14 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	return nil
 }
 
+// resetBinary forgets the parts of a previously decoded binary signal that
+// have no field of their own.
+func (sis *SpliceInfoSection) resetBinary() {
+	sis.alignmentStuffing = nil
+	sis.ecrc32 = nil
+	sis.crc32 = nil
+}
+
 // length returns the expected length of the encoded splice_info_section, in
 // bytes.
 func (sis *SpliceInfoSection) length() int {
-- 
2.43.0


From 283fc751e0c8de85051d0a0292a8eaf565d75d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 10/28] fix: do not keep references to the caller's buffer
 after Decode

---
 pkg/scte35/private_command.go     | 3 ++-
 pkg/scte35/private_descriptor.go  | 3 ++-
 pkg/scte35/splice_info_section.go | 9 +++++----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index bb62457..a60fa7b 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/xml"
 	"fmt"
@@ -60,7 +61,7 @@ func (cmd *PrivateCommand) decode(b []byte) error {
 	r := iobit.NewReader(b)
 
 	cmd.Identifier = r.Uint32(32)
-	cmd.PrivateBytes = r.LeftBytes()
+	cmd.PrivateBytes = bytes.Clone(r.LeftBytes())
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(cmd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 7a3985c..8034e2a 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/xml"
 	"fmt"
@@ -54,7 +55,7 @@ func (sd *PrivateDescriptor) decode(b []byte) error {
 	sd.PrivateTag = r.Uint32(8)
 	r.Skip(8) // descriptor_length
 	sd.Identifier = r.Uint32(32)
-	sd.PrivateBytes = r.LeftBytes()
+	sd.PrivateBytes = bytes.Clone(r.LeftBytes())
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(sd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index aab534e..4ca2a31 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
@@ -124,16 +125,16 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if encryptedPacket {
 		stuffedBytes := (int(r.LeftBits()) - 64) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = bytes.Clone(r.Bytes(stuffedBytes))
 		}
-		sis.ecrc32 = r.Bytes(4)
+		sis.ecrc32 = bytes.Clone(r.Bytes(4))
 	} else {
 		stuffedBytes := (int(r.LeftBits()) - 32) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = bytes.Clone(r.Bytes(stuffedBytes))
 		}
 	}
-	sis.crc32 = r.Bytes(4)
+	sis.crc32 = bytes.Clone(r.Bytes(4))
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From 8ddc93c4a16d39b4e74416120bbe2bddc7c042da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 11/28] fix: carry preRollMilliSeconds through JSON and read it
 from XML

---
 pkg/scte35/splice_info_section.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 4ca2a31..424a4f5 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -303,6 +303,9 @@ func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	if sis.ProtocolVersion > 0 {
 		m["protocolVersion"] = sis.ProtocolVersion
 	}
+	if sis.PreRollMilliSeconds > 0 {
+		m["preRollMilliSeconds"] = sis.PreRollMilliSeconds
+	}
 	if sis.PTSAdjustment > 0 {
 		m["ptsAdjustment"] = sis.PTSAdjustment
 	}
@@ -328,6 +331,7 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -349,6 +353,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -426,6 +431,7 @@ type iSIS struct {
 	PrivateCommand       *PrivateCommand       `xml:"http://www.scte.org/schemas/35 PrivateCommand" json:"-"`
 	SpliceDescriptors    SpliceDescriptors     `xml:",any" json:"spliceDescriptors"`
 	SAPType              *uint32               `xml:"sapType,attr" json:"sapType,omitempty"`
+	PreRollMilliSeconds  uint32                `xml:"preRollMilliSeconds,attr" json:"preRollMilliSeconds"`
 	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
 	ProtocolVersion      uint32                `xml:"protocolVersion,attr" json:"protocolVersion"`
 	Tier                 uint32                `xml:"tier,attr" json:"tier"`
-- 
2.43.0


From 6d85465700be39c9abb4ea6d5beebc840ede11ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 12/28] fix: do not panic marshalling a section without a
 command to JSON

---
 pkg/scte35/splice_info_section.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 424a4f5..56e33fd 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -289,7 +289,9 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	// ensure JSONTypes are all set before marshalling. These are included in
 	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
-	sis.SpliceCommand.Type()
+	if sis.SpliceCommand != nil {
+		sis.SpliceCommand.Type()
+	}
 	for i := range sis.SpliceDescriptors {
 		sis.SpliceDescriptors[i].Tag()
 	}
-- 
2.43.0


From e74939970823adc0178dc494fc98164ee1c04065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 13/28] fix: report a malformed JSON splice command instead of
 dropping it

---
 pkg/scte35/splice_info_section.go | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 56e33fd..686a8ed 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -324,9 +324,14 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	sis.resetBinary()
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -346,9 +351,14 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	sis.resetBinary()
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -440,30 +450,30 @@ type iSIS struct {
 }
 
 // SpliceCommand returns the polymorphic splice_command.
-func (i *iSIS) SpliceCommand() SpliceCommand {
+func (i *iSIS) SpliceCommand() (SpliceCommand, error) {
 	// xml unmarshalls to the corresponding struct
 	if i.SpliceNull != nil {
-		return i.SpliceNull
+		return i.SpliceNull, nil
 	}
 	if i.SpliceSchedule != nil {
-		return i.SpliceSchedule
+		return i.SpliceSchedule, nil
 	}
 	if i.SpliceInsert != nil {
-		return i.SpliceInsert
+		return i.SpliceInsert, nil
 	}
 	if i.TimeSignal != nil {
-		return i.TimeSignal
+		return i.TimeSignal, nil
 	}
 	if i.BandwidthReservation != nil {
-		return i.BandwidthReservation
+		return i.BandwidthReservation, nil
 	}
 	if i.PrivateCommand != nil {
-		return i.PrivateCommand
+		return i.PrivateCommand, nil
 	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-		return nil
+		return nil, nil
 	}
 
 	// struct to determine the splice command's type
@@ -474,16 +484,14 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	// get the type
 	var st sctype
 	if err := json.Unmarshal(i.SpliceCommandRaw, &st); err != nil {
-		Logger.Printf("error unmarshalling splice command type: %s", err)
-		return nil
+		return nil, fmt.Errorf("error unmarshalling splice command type: %w", err)
 	}
 
 	// and decode it
 	sc := NewSpliceCommand(st.Type)
 	if err := json.Unmarshal(i.SpliceCommandRaw, sc); err != nil {
-		Logger.Printf("error unmarshalling splice command: %s", err)
-		return nil
+		return nil, fmt.Errorf("error unmarshalling splice command: %w", err)
 	}
 
-	return sc
+	return sc, nil
 }
-- 
2.43.0


From fd77968ddac9e3a0b2012114841d45c33e188f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 14/28] fix: reject a null JSON splice descriptor instead of
 storing a nil one

---
 pkg/scte35/splice_descriptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 655d728..0277f0b 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -103,6 +103,9 @@ func (sds *SpliceDescriptors) UnmarshalJSON(data []byte) error {
 		if err := json.Unmarshal(items[i], &sd); err != nil {
 			return err
 		}
+		if sd == nil {
+			return fmt.Errorf("splice_descriptor %d is null", i)
+		}
 
 		results[i] = sd
 	}
-- 
2.43.0


From 0ad42f4bf570c9ea7d491fa98a18c44d02a1e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 15/28] fix: print sub_segment_num and sub_segments_expected,
 not their addresses, in tables

---
 pkg/scte35/table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/table.go b/pkg/scte35/table.go
index 702e16e..23feb3b 100644
--- a/pkg/scte35/table.go
+++ b/pkg/scte35/table.go
@@ -69,6 +69,11 @@ func valueString(value any) string {
 		return strconv.FormatUint(uint64(vt), 10)
 	case uint64:
 		return strconv.FormatUint(vt, 10)
+	case *uint32:
+		if vt == nil {
+			return ""
+		}
+		return strconv.FormatUint(uint64(*vt), 10)
 	case *uint64:
 		if vt == nil {
 			return ""
-- 
2.43.0


From f5d2dc4cb8a0a2ab1c7c3fb7d2dcc62dc2d67d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 16/28] fix: show sub-segments in the tables of all
 segmentation types that carry them

---
 pkg/scte35/segmentation_descriptor.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index d4611c0..0de2c7f 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -601,17 +601,11 @@ func (sd *SegmentationDescriptor) writeTo(t *table) {
 	t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
 	t.row(1, "segment_num", sd.SegmentNum)
 	t.row(1, "segments_expected", sd.SegmentsExpected)
-	switch sd.SegmentationTypeID {
-	case SegmentationTypeProviderPOStart,
-		SegmentationTypeDistributorPOStart,
-		SegmentationTypeProviderOverlayPOStart,
-		SegmentationTypeDistributorOverlayPOStart:
-		if sd.SubSegmentNum != nil {
-			t.row(1, "sub_segment_num", sd.SubSegmentNum)
-		}
-		if sd.SubSegmentsExpected != nil {
-			t.row(1, "sub_segments_expected", sd.SubSegmentsExpected)
-		}
+	if sd.SubSegmentNum != nil {
+		t.row(1, "sub_segment_num", sd.SubSegmentNum)
+	}
+	if sd.SubSegmentsExpected != nil {
+		t.row(1, "sub_segments_expected", sd.SubSegmentsExpected)
 	}
 	t.row(0, "}", nil)
 }
-- 
2.43.0


From 14036fa6b677f254350ac8d398a976adc876cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 17/28] fix: show the tenths of seconds of a DTMF preroll in
 tables

---
 pkg/scte35/dtmf_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 2183bd8..94e8938 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -45,7 +45,7 @@ func (sd *DTMFDescriptor) writeTo(t *table) {
 	t.row(1, "splice_descriptor_tag", fmt.Sprintf("%#02x", DTMFDescriptorTag))
 	t.row(1, "descriptor_length", sd.length())
 	t.row(1, "identifier", fmt.Sprintf("%#08x (%s)", CUEIdentifier, CUEIASCII))
-	t.row(1, "preroll", float32(sd.Preroll/10))
+	t.row(1, "preroll", float32(sd.Preroll)/10)
 	t.row(1, "dtmf_count", len(sd.DTMFChars))
 	t.row(1, "dtmf_chars", sd.DTMFChars)
 	t.row(0, "}", nil)
-- 
2.43.0


From 81ec95f4901ca9ba522f82231df8955faac8a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 18/28] fix: open the braces that tables close and nest event
 rows in their event

---
 pkg/scte35/splice_insert.go   |  2 +-
 pkg/scte35/splice_schedule.go | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index b101c2d..580daa7 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -87,7 +87,7 @@ func (cmd *SpliceInsert) writeTo(t *table) {
 		if !cmd.ProgramSpliceFlag() {
 			t.row(1, "component_count", len(cmd.Components))
 			for i, c := range cmd.Components {
-				t.row(1, "component["+strconv.Itoa(i)+"]", nil)
+				t.row(1, "component["+strconv.Itoa(i)+"] {", nil)
 				t.row(2, "component_tag", c.Tag)
 				if !cmd.SpliceImmediateFlag {
 					t.row(2, "time_specified_flag", c.TimeSpecifiedFlag())
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index 487a34a..b58bbd3 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -186,7 +186,7 @@ func (cmd *SpliceSchedule) writeTo(t *table) {
 	t.row(0, "splice_schedule() {", nil)
 	t.row(1, "splice_count", strconv.Itoa(len(cmd.Events)))
 	for i, e := range cmd.Events {
-		t.row(1, "event["+strconv.Itoa(i)+"]", nil)
+		t.row(1, "event["+strconv.Itoa(i)+"] {", nil)
 		t.row(2, "splice_event_id", e.SpliceEventID)
 		t.row(2, "splice_event_cancel_indicator", e.SpliceEventCancelIndicator)
 		t.row(2, "event_id_compliance_flag", e.EventIDComplianceFlag)
@@ -199,19 +199,19 @@ func (cmd *SpliceSchedule) writeTo(t *table) {
 			} else {
 				t.row(2, "component_count", len(e.Components))
 				for j, c := range e.Components {
-					t.row(2, "component["+strconv.Itoa(j)+"]", nil)
+					t.row(2, "component["+strconv.Itoa(j)+"] {", nil)
 					t.row(3, "component_tag", c.Tag)
 					t.row(3, "utc_splice_time", c.UTCSpliceTime)
 					t.row(2, "}", nil)
 				}
 			}
 			if e.DurationFlag() {
-				t.row(1, "auto_return", e.BreakDuration.AutoReturn)
-				t.row(1, "duration", e.BreakDuration.Duration)
+				t.row(2, "auto_return", e.BreakDuration.AutoReturn)
+				t.row(2, "duration", e.BreakDuration.Duration)
 			}
-			t.row(1, "unique_program_id", e.UniqueProgramID)
-			t.row(1, "avail_num", e.AvailNum)
-			t.row(1, "avails_expected", e.AvailsExpected)
+			t.row(2, "unique_program_id", e.UniqueProgramID)
+			t.row(2, "avail_num", e.AvailNum)
+			t.row(2, "avails_expected", e.AvailsExpected)
 		}
 		t.row(1, "}", nil)
 	}
-- 
2.43.0


From 09371525b3350720744ddec47ded75252c75e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 19/28] fix: cover E_CRC_32 by CRC_32 when encoding

---
 pkg/scte35/splice_info_section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 686a8ed..f5152de 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -215,6 +215,10 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	// Encoding encrypted signals is untested.
 	if sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone {
 		iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // E_CRC_32
+		// CRC_32 covers E_CRC_32, which the writer may still hold
+		if err := iow.Flush(); err != nil {
+			return buf, err
+		}
 	}
 
 	// Re-calculate CRC_32 to ensure correctness
-- 
2.43.0


From 84e85283ec857b66f110eb941a63c9d930763955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 20/28] fix: convert between ticks and durations exactly

---
 pkg/scte35/scte35.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 2a0256d..02df692 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -23,7 +23,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"log"
-	"math"
 	"strings"
 	"time"
 
@@ -85,13 +84,16 @@ func DecodeHex(s string) (*SpliceInfoSection, error) {
 
 // DurationToTicks converts a duration to 90MhZ ticks.
 func DurationToTicks(d time.Duration) uint64 {
-	return uint64(math.Ceil(float64(d) * TicksPerSecond / float64(time.Second)))
+	// integer arithmetic: a float64 does not hold every value exactly
+	seconds, rest := uint64(d/time.Second), uint64(d%time.Second)
+	return seconds*TicksPerSecond + (rest*TicksPerSecond+uint64(time.Second)-1)/uint64(time.Second)
 }
 
 // TicksToDuration converts 90MhZ ticks to a duration.
 func TicksToDuration(ticks uint64) time.Duration {
-	s := float64(ticks) / float64(TicksPerSecond)
-	return time.Duration(int64(s * float64(time.Second)))
+	// integer arithmetic: a float64 does not hold every value exactly
+	seconds, rest := ticks/TicksPerSecond, ticks%TicksPerSecond
+	return time.Duration(seconds)*time.Second + time.Duration(rest)*time.Second/TicksPerSecond
 }
 
 // BreakDuration specifies the duration of the commercial break(s). It may be
-- 
2.43.0


From 0b35da27cb8f2ab8bfee77f612a03c062df2c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 21/28] fix: report leftover bytes of empty commands as
 underflow, so that legacy signals decode

---
 pkg/scte35/bandwidth_reservation.go | 2 +-
 pkg/scte35/splice_null.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c6607f7..c14c258 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -52,7 +52,7 @@ func (cmd *BandwidthReservation) Type() uint32 {
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferOverflow)
+		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 6ac71cf..7edf6af 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -46,7 +46,7 @@ func (cmd *SpliceNull) Type() uint32 {
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("splice_null: %w", ErrBufferOverflow)
+		return fmt.Errorf("splice_null: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
-- 
2.43.0


From d789c74b3afc510e3f3efeb26a9b662223497d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 22/28] fix: read all of standard input in the encode command,
 line breaks included

---
 cmd/encode.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index cd3850d..d63477f 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -17,10 +17,10 @@
 package cmd
 
 import (
-	"bufio"
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 
@@ -47,15 +47,13 @@ func encodeCommand() *cobra.Command {
 			if len(args) == 1 {
 				input = args[0]
 			} else {
-				scanner := bufio.NewScanner(os.Stdin)
-				for scanner.Scan() {
-					input += scanner.Text()
-				}
-				err = scanner.Err()
+				var b []byte
+				b, err = io.ReadAll(os.Stdin)
 				if err != nil {
 					_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 					return
 				}
+				input = string(b)
 			}
 
 			switch {
-- 
2.43.0


From 222e9a0c0c3e55f4b51bb5157a10a836b61a8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 23/28] fix: skip the Ext element of a SpliceInfoSection when
 reading XML

---
 pkg/scte35/splice_descriptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 0277f0b..ecc2668 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -137,6 +137,9 @@ func (sds *SpliceDescriptors) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		sd = &SegmentationDescriptor{}
 	case "TimeDescriptor":
 		sd = &TimeDescriptor{}
+	case "Ext":
+		// an extension, which the schema allows anywhere, is not a descriptor
+		return d.Skip()
 	default:
 		return fmt.Errorf("unsupported splice_descriptor tag: %s", start.Name.Local)
 	}
-- 
2.43.0


From 6ef5651dc7be010c52ce41598d29df2c71920182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 24/28] fix: report declared lengths that exceed the bytes
 available

---
 pkg/scte35/dtmf_descriptor.go     | 3 +++
 pkg/scte35/splice_descriptor.go   | 7 ++++++-
 pkg/scte35/splice_info_section.go | 9 ++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 94e8938..71eba3d 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -72,6 +72,9 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("dtmf_descriptor: %w", err)
 	}
+	if len(sd.DTMFChars) < dtmfCount {
+		return fmt.Errorf("dtmf_descriptor: %w", ErrBufferOverflow)
+	}
 	return readerError(r)
 }
 
diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index ecc2668..45dc0d2 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -174,7 +174,12 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		// Decode the full splice_descriptor (including splice_descriptor_tag
 		// and descriptor_length).
 		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
-		if derr := sd.decode(r.Bytes(descriptorLength + 2)); derr != nil {
+		sdb := r.Bytes(descriptorLength + 2)
+		derr := sd.decode(sdb)
+		if derr == nil && len(sdb) < descriptorLength+2 {
+			derr = fmt.Errorf("splice_descriptor: %w", ErrBufferOverflow)
+		}
+		if derr != nil {
 			// Store the error but continue decoding the rest of the signal.
 			err = derr
 		}
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index f5152de..7910054 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -117,10 +117,14 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	}
 
 	descriptorLoopLength := int(r.Uint32(16)) // bytes
-	sis.SpliceDescriptors, err = decodeSpliceDescriptors(r.Bytes(descriptorLoopLength))
+	descriptorLoop := r.Bytes(descriptorLoopLength)
+	sis.SpliceDescriptors, err = decodeSpliceDescriptors(descriptorLoop)
 	if err != nil {
 		return err
 	}
+	if len(descriptorLoop) < descriptorLoopLength {
+		return fmt.Errorf("splice_info_section: %w", ErrBufferOverflow)
+	}
 
 	if encryptedPacket {
 		stuffedBytes := (int(r.LeftBits()) - 64) / 8
@@ -139,6 +143,9 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
 	}
+	if len(sis.crc32) < 4 || (encryptedPacket && len(sis.ecrc32) < 4) {
+		return fmt.Errorf("splice_info_section: %w", ErrBufferOverflow)
+	}
 
 	if err = verifyCRC32(b); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From 543d89a347af436bcabaea619e81656ec7f0913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 25/28] fix: leave fields a cancelled segmentation event does
 not have out of the table

---
 pkg/scte35/segmentation_descriptor.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index 0de2c7f..f30f64d 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -596,16 +596,15 @@ func (sd *SegmentationDescriptor) writeTo(t *table) {
 			t.row(2, "segmentation_upid", u.Value)
 			t.row(1, "}", nil)
 		}
-	}
-
-	t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
-	t.row(1, "segment_num", sd.SegmentNum)
-	t.row(1, "segments_expected", sd.SegmentsExpected)
-	if sd.SubSegmentNum != nil {
-		t.row(1, "sub_segment_num", sd.SubSegmentNum)
-	}
-	if sd.SubSegmentsExpected != nil {
-		t.row(1, "sub_segments_expected", sd.SubSegmentsExpected)
+		t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
+		t.row(1, "segment_num", sd.SegmentNum)
+		t.row(1, "segments_expected", sd.SegmentsExpected)
+		if sd.SubSegmentNum != nil {
+			t.row(1, "sub_segment_num", sd.SubSegmentNum)
+		}
+		if sd.SubSegmentsExpected != nil {
+			t.row(1, "sub_segments_expected", sd.SubSegmentsExpected)
+		}
 	}
 	t.row(0, "}", nil)
 }
-- 
2.43.0


From 8f8a6d25512c1738c732f97d5e29fbda6606bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 26/28] fix: do not keep the descriptors of an earlier signal
 when decoding fails

---
 pkg/scte35/splice_info_section.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 7910054..5795295 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -82,6 +82,7 @@ func (sis *SpliceInfoSection) Base64() string {
 // Decode the contents of a byte array into this SpliceInfoSection.
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	sis.resetBinary()
+	sis.SpliceDescriptors = nil
 
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
-- 
2.43.0


From d414b71496f6a48d0268d07eea1388a8939447bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 27/28] fix: name only EIDRs of a known registrant prefix, not
 longer prefixes starting with it

---
 pkg/scte35/segmentation_upid.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 03af83a..c6d13b9 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -234,16 +234,16 @@ func (upid *SegmentationUPID) compressEIDR(s string) []byte {
 
 // eidrTypeName returns the EIDR type name.
 func (upid *SegmentationUPID) eidrTypeName() string {
-	if strings.HasPrefix(upid.Value, "10.5237") {
+	if strings.HasPrefix(upid.Value, "10.5237/") {
 		return "Party ID"
 	}
-	if strings.HasPrefix(upid.Value, "10.5238") {
+	if strings.HasPrefix(upid.Value, "10.5238/") {
 		return "User ID"
 	}
-	if strings.HasPrefix(upid.Value, "10.5239") {
+	if strings.HasPrefix(upid.Value, "10.5239/") {
 		return "Service ID"
 	}
-	if strings.HasPrefix(upid.Value, "10.5240") {
+	if strings.HasPrefix(upid.Value, "10.5240/") {
 		return "Content ID"
 	}
 	return ""
-- 
2.43.0


From 5e17a388e4835d7cab80d6135011465578ba193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:03 +0000
Subject: [PATCH 28/28] fix: do not cut an EIDR prefix of more than 16 bits to
 another prefix

---
 pkg/scte35/segmentation_upid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index c6d13b9..3f8befe 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -210,7 +210,7 @@ func (upid *SegmentationUPID) compressEIDR(s string) []byte {
 		return []byte(s)
 	}
 
-	i, err := strconv.Atoi(parts[1])
+	i, err := strconv.ParseUint(parts[1], 10, 16)
 	if err != nil {
 		Logger.Printf("Non-canonical EIDR prefix: '%s'", s)
 		return []byte(s)
-- 
2.43.0

