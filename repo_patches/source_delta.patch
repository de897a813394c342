From 8a01760c06c6b14b7101a7b1bd31581294f424b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 01/83] fix: write no more than the transfer length of a WRITE

Data beyond the transfer length of the CDB overwrote the following blocks
and grew a backing file.
---
 pkg/scsi/backingstore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 9890695..662c48b 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -103,6 +103,10 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if cmd.OutSDBBuffer != nil {
 			wbuf = cmd.OutSDBBuffer.Buffer
 		}
+		// the initiator may transfer more than the CDB asks to be written
+		if int64(len(wbuf)) > tl {
+			wbuf = wbuf[:tl]
+		}
 		doWrite = true
 		goto write
 	case api.WRITE_SAME, api.WRITE_SAME_16:
-- 
2.43.0


From 539b5ab7e10da93e60c501f292780e74705d5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 02/83] fix: ORWRITE stores the OR of the medium and the
 data-out buffer

It crashed the target (there is no data-in buffer) and would have written
the data-out buffer as is.
---
 pkg/scsi/backingstore.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 662c48b..6d9ea06 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -73,12 +73,17 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
-		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
 		if cmd.OutSDBBuffer != nil {
 			wbuf = cmd.OutSDBBuffer.Buffer
 		}
+		if len(wbuf) > len(tmpbuf) {
+			wbuf = wbuf[:len(tmpbuf)]
+		}
+		for i := range wbuf {
+			wbuf[i] |= tmpbuf[i]
+		}
 		doWrite = true
 		goto write
 	case api.COMPARE_AND_WRITE:
-- 
2.43.0


From 6861c26e08e0bfd78272ad2fa518e8cb9974d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 03/83] fix: report backing store errors of READ, SYNCHRONIZE
 CACHE and PRE-FETCH

The error was dropped and the command ended with GOOD status.
---
 pkg/scsi/backingstore.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 6d9ea06..21864e3 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -97,7 +97,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err = bs.DataSync(int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		break
 	case api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
@@ -123,7 +123,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		length = len(rbuf)
 		for i := 0; i < int(tl)-length; i++ {
@@ -145,6 +145,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
+			goto sense
 		}
 	case api.VERIFY_10, api.VERIFY_12, api.VERIFY_16:
 		// For stupid client which does not set WRITE flag
-- 
2.43.0


From db0e30b72197394b65c10e463a3e36306a9bf39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 04/83] fix: end a failed read or write with CHECK CONDITION,
 not BUSY

The sense data says why it failed; BUSY makes the initiator retry for ever
and ignore it.
---
 pkg/scsi/sbc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ec3a4a8..47ae9b6 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -469,7 +469,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	if err != nil {
 		log.Errorf("Error from backend: %v", err)
 		BuildSenseData(cmd, key, asc)
-		return api.SAMStatBusy
+		return api.SAMStatCheckCondition
 	} else {
 		return api.SAMStatGood
 	}
-- 
2.43.0


From f02233d6b28ef5dee321cb9bc88056c69d8cdfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 05/83] fix: check the range of VERIFY without byte check

---
 pkg/scsi/sbc.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 47ae9b6..9400b25 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -579,10 +579,6 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if scb[1]&0x02 == 0 {
-		// no data compare with the media
-		return api.SAMStatGood
-	}
 	lba = getSCSIReadWriteOffset(scb)
 	tl = getSCSIReadWriteCount(scb)
 
@@ -603,6 +599,11 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
+	if scb[1]&0x02 == 0 {
+		// no data compare with the media
+		return api.SAMStatGood
+	}
+
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = tl << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
-- 
2.43.0


From 056467ac9c71d2279d37c68f4e10a76bef223b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 06/83] fix: check the range of SYNCHRONIZE CACHE

---
 pkg/scsi/sbc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 9400b25..b655854 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -728,6 +728,11 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	tl := getSCSIReadWriteCount(scb)
 	dev := cmd.Device
 
+	if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+		return api.SAMStatCheckCondition
+	}
+
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = tl << dev.BlockShift
 
-- 
2.43.0


From 56493d4a5da1b791fc275d8de7136a450045fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 07/83] fix: check the range of UNMAP block descriptors

---
 pkg/scsi/sbc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index b655854..e30c026 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -316,6 +316,10 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
 		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
 		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
+		if num != 0 && (lba+uint64(num) < lba || lba+uint64(num) > cmd.Device.Size>>cmd.Device.BlockShift) {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+			return api.SAMStatCheckCondition
+		}
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
 			TL:     num << cmd.Device.BlockShift,
-- 
2.43.0


From d5f9fc55f08e1cf59ec8546a80690943a76c5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 08/83] fix: refuse a login for an unknown session instead of
 crashing

---
 pkg/port/iscsit/session.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index cd0c072..ccc7707 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -380,8 +380,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		return fmt.Errorf("initiator err, invalid request")
 	}
 
-	if existSess == nil && conn.loginParam.tsih != 0 &&
-		existSess.TSIH != conn.loginParam.tsih {
+	if existSess == nil && conn.loginParam.tsih != 0 {
 		return fmt.Errorf("initiator err, no session")
 	}
 
-- 
2.43.0


From 8f040bb07b49e9e0837c6354a2c65d3a53dac66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 09/83] fix: PREVENT ALLOW MEDIUM REMOVAL crashes on a nil
 nexus info

---
 pkg/scsi/spc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6ed3ee4..6a7e1b4 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -539,7 +539,9 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatReservationConflict
 	}
 	// PREVENT_MASK = 0x03
-	cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	if cmd.ITNexusLuInfo != nil {
+		cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	}
 	return api.SAMStatGood
 }
 
-- 
2.43.0


From 10bdd957d1b7f7d175843b7ca5ba65432b196b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 10/83] fix: commands crash when the initiator announces the
 other data direction

---
 pkg/port/iscsit/iscsid.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0db6b01..9203e4b 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -748,6 +748,10 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 					Buffer: make([]byte, blen),
 				}
 			}
+			// commands look at both buffers, whatever direction the initiator announced
+			if scmd.InSDBBuffer == nil {
+				scmd.InSDBBuffer = &api.SCSIDataBuffer{}
+			}
 			log.Debugf("SCSI write, R2T count: %d, unsol Count: %d, offset: %d", task.r2tCount, task.unsolCount, task.offset)
 
 			if conn.session.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value == 1 {
@@ -778,6 +782,9 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 				Buffer: make([]byte, int(req.ExpectedDataLen)),
 			}
 		}
+		if scmd.OutSDBBuffer == nil {
+			scmd.OutSDBBuffer = &api.SCSIDataBuffer{}
+		}
 		task.offset = 0
 		conn.rxTask = task
 		if err = s.iscsiTaskQueueHandler(task); err != nil {
-- 
2.43.0


From 195b69b4560bebc8fb8ae4efc38b3907a7e718f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 11/83] fix: do not index past a data buffer shorter than the
 parameter data

---
 pkg/scsi/sbc.go | 6 +++---
 pkg/scsi/spc.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index e30c026..c7d3c11 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -242,9 +242,9 @@ func SBCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		deviceSpecific |= 0x80
 	}
 
-	if cmd.SCB[0] == 0x1a {
+	if cmd.SCB[0] == 0x1a && len(cmd.InSDBBuffer.Buffer) > 2 {
 		cmd.InSDBBuffer.Buffer[2] = deviceSpecific
-	} else {
+	} else if cmd.SCB[0] != 0x1a && len(cmd.InSDBBuffer.Buffer) > 3 {
 		cmd.InSDBBuffer.Buffer[3] = deviceSpecific
 	}
 
@@ -636,7 +636,7 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 	)
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
 	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint64(uint64(size-1)))
-	if allocationLength > 12 {
+	if allocationLength > 12 && len(cmd.InSDBBuffer.Buffer) > 12 {
 		copy(cmd.InSDBBuffer.Buffer[8:], util.MarshalUint32(uint32(1<<bshift)))
 		if allocationLength > 16 {
 			var lbpme int
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6a7e1b4..dc22ad3 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -721,8 +721,8 @@ func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
 			}
 		}
 	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(len(data)-4)))
-	copy(cmd.InSDBBuffer.Buffer[4:], data[4:])
+	copy(data, util.MarshalUint32(uint32(len(data)-4)))
+	copy(cmd.InSDBBuffer.Buffer, data)
 	return nil
 }
 
@@ -1330,7 +1330,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	paramListLen = util.GetUnalignedUint32(scb[5:9])
-	if paramListLen < 24 {
+	if paramListLen < 24 || len(buf) < 25 {
 		goto sense
 	}
 	aptpl = buf[17] & 0x01
-- 
2.43.0


From dd2149f3458e072691ecba1efa5cda4bf1903f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 12/83] fix: READ CAPACITY(16) returns its parameter data up to
 the allocation length

---
 pkg/scsi/sbc.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index c7d3c11..7bd39e3 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -633,20 +633,22 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 		bshift           = cmd.Device.BlockShift
 		size             = cmd.Device.Size >> bshift
 		allocationLength uint32
+		data             = make([]byte, 32)
 	)
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint64(uint64(size-1)))
-	if allocationLength > 12 && len(cmd.InSDBBuffer.Buffer) > 12 {
-		copy(cmd.InSDBBuffer.Buffer[8:], util.MarshalUint32(uint32(1<<bshift)))
-		if allocationLength > 16 {
-			var lbpme int
-			if cmd.Device.Attrs.ThinProvisioning {
-				lbpme = 1
-			}
-			val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
-			copy(cmd.InSDBBuffer.Buffer[12:], util.MarshalUint32(uint32(val)))
-		}
-	}
+	copy(data, util.MarshalUint64(uint64(size-1)))
+	copy(data[8:], util.MarshalUint32(uint32(1<<bshift)))
+	var lbpme int
+	if cmd.Device.Attrs.ThinProvisioning {
+		lbpme = 1
+	}
+	val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
+	copy(data[12:], util.MarshalUint32(uint32(val)))
+	if allocationLength < uint32(len(data)) {
+		data = data[:allocationLength]
+	}
+	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
 	return api.SAMStatGood
 }
 
-- 
2.43.0


From 143790b5509ff33094b995ed7878b952a2b88c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 13/83] fix: INQUIRY returns no more than the allocation length

---
 pkg/scsi/spc.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index dc22ad3..ed66001 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -319,9 +319,10 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 		data = buf.Bytes()
 		if int(allocationLength) < len(data) {
 			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-			cmd.InSDBBuffer.Resid = uint32(len(data))
+			cmd.InSDBBuffer.Resid = uint32(allocationLength)
 		} else {
 			copy(cmd.InSDBBuffer.Buffer, data[0:])
+			cmd.InSDBBuffer.Resid = uint32(len(data))
 		}
 	} else {
 		if pcode != 0 {
@@ -386,7 +387,7 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 
 		buf.Write(addBufData)
 		data = buf.Bytes()
-		if allocationLength < uint16(additionLength) {
+		if int(allocationLength) < len(data) {
 			cmd.InSDBBuffer.Resid = uint32(allocationLength)
 			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
 		} else {
-- 
2.43.0


From d453c7b90367220a99cfcde7e5265d56520e979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 14/83] fix: MODE SENSE truncates its whole parameter data at
 the allocation length

---
 pkg/scsi/spc.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index ed66001..9bc4547 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -581,13 +581,13 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	if mode6 {
 		allocLen = uint32(scb[4])
 		// set header
-		for i = 0; i < 4 && i < allocLen; i++ {
+		for i = 0; i < 4; i++ {
 			data = append(data, 0x00)
 		}
 	} else {
 		allocLen = uint32(util.GetUnalignedUint16(scb[7:9]))
 		// set header
-		for i = 0; i < 8 && i < allocLen; i++ {
+		for i = 0; i < 8; i++ {
 			data = append(data, 0x00)
 		}
 	}
@@ -652,8 +652,9 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		data[7] = uint8(blkDesctionLen)
 	}
 	if rlen := uint32(len(data)); rlen > allocLen {
-		cmd.InSDBBuffer.Resid = allocLen
+		data = data[:allocLen]
 	}
+	cmd.InSDBBuffer.Resid = uint32(len(data))
 	copy(cmd.InSDBBuffer.Buffer, data)
 	return api.SAMStatGood
 sense:
-- 
2.43.0


From 17aa19b58e89913310942f90c831a2716dfd27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 15/83] fix: REQUEST SENSE returns its sense data as data-in

---
 pkg/scsi/spc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 9bc4547..3a40281 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -1413,7 +1413,7 @@ func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		actualLength     uint32
 	)
 
-	allocationLength = util.GetUnalignedUint32(cmd.SCB[4:8])
+	allocationLength = uint32(cmd.SCB[4])
 	if allocationLength > cmd.InSDBBuffer.Length {
 		allocationLength = cmd.InSDBBuffer.Length
 	}
@@ -1427,7 +1427,7 @@ func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	cmd.InSDBBuffer.Resid = uint32(actualLength)
 
 	// reset sense buffer in cmnd
-	cmd.SenseBuffer = &api.SenseBuffer{}
+	cmd.SenseBuffer = nil
 
 	return api.SAMStatGood
 }
-- 
2.43.0


From 1086f0ad8ca41714669492ec7a9e2a7279605ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 16/83] fix: refuse the SERVICE ACTION IN actions that do not
 exist

---
 pkg/scsi/sbc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 7bd39e3..21f2634 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -715,7 +715,8 @@ func SBCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 	case api.SAI_GET_LBA_STATUS:
 		return SBCGetLbaStatus(host, cmd)
 	}
-	return api.SAMStatGood
+	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+	return api.SAMStatCheckCondition
 }
 
 /*
-- 
2.43.0


From 60628f941a62f14c315e54b5e83356a361c92c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 17/83] fix: WRITE SAME writes its block to every addressed
 block

---
 pkg/scsi/backingstore.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 21864e3..517099c 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -115,8 +115,32 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		doWrite = true
 		goto write
 	case api.WRITE_SAME, api.WRITE_SAME_16:
-		// TODO
-		break
+		// LBDATA and PBDATA are obsolete and not supported
+		blen := int64(1) << lu.BlockShift
+		if scb[1]&0x06 != 0 || cmd.OutSDBBuffer == nil || int64(len(cmd.OutSDBBuffer.Buffer)) < blen {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
+		if tl == 0 {
+			// up to the last block of the medium
+			tl = int64(lu.Size>>lu.BlockShift<<lu.BlockShift) - int64(offset)
+		}
+		count := tl / blen
+		if count > 256 {
+			count = 256
+		}
+		wbuf = bytes.Repeat(cmd.OutSDBBuffer.Buffer[:blen], int(count))
+		for done := int64(0); done < tl; done += int64(len(wbuf)) {
+			if int64(len(wbuf)) > tl-done {
+				wbuf = wbuf[:tl-done]
+			}
+			if err = bs.Write(wbuf, int64(offset)+done); err != nil {
+				key = MEDIUM_ERROR
+				asc = ASC_WRITE_ERROR
+				goto sense
+			}
+		}
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
 		rbuf = make([]byte, int(tl))
 		rbuf, err = bs.Read(int64(offset), tl)
-- 
2.43.0


From 348da31d7def9c908b5245138cc5d2351de2cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 18/83] fix: transfer lengths of 4 GiB and more wrap around

---
 pkg/scsi/backingstore.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 517099c..7b744dd 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -61,7 +61,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		doVerify   bool = false
 		doWrite    bool = false
 		rbuf, wbuf []byte
-		tl         int64 = int64(cmd.TL)
+		tl         int64 = int64(getSCSIReadWriteCount(cmd.SCB)) << cmd.Device.BlockShift
 	)
 
 	key = HARDWARE_ERROR
@@ -69,18 +69,18 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	switch opcode {
 	case api.ORWRITE_16:
 		tmpbuf := []byte{}
-		tmpbuf, err = bs.Read(int64(offset), tl)
+		if cmd.OutSDBBuffer != nil {
+			wbuf = cmd.OutSDBBuffer.Buffer
+		}
+		if int64(len(wbuf)) > tl {
+			wbuf = wbuf[:tl]
+		}
+		tmpbuf, err = bs.Read(int64(offset), int64(len(wbuf)))
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
 			goto sense
 		}
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
-		}
-		if len(wbuf) > len(tmpbuf) {
-			wbuf = wbuf[:len(tmpbuf)]
-		}
 		for i := range wbuf {
 			wbuf[i] |= tmpbuf[i]
 		}
@@ -142,7 +142,11 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			}
 		}
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
-		rbuf = make([]byte, int(tl))
+		if tl > int64(cmd.InSDBBuffer.Length) {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
 		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
@@ -158,11 +162,6 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
 		}
 		cmd.InSDBBuffer.Resid = uint32(length)
-		if cmd.InSDBBuffer.Length < uint32(length) {
-			key = ILLEGAL_REQUEST
-			asc = ASC_INVALID_FIELD_IN_CDB
-			goto sense
-		}
 		copy(cmd.InSDBBuffer.Buffer, rbuf)
 	case api.PRE_FETCH_10, api.PRE_FETCH_16:
 		err = bs.DataAdvise(int64(offset), tl, util.POSIX_FADV_WILLNEED)
@@ -217,8 +216,9 @@ write:
 	}
 verify:
 	if doVerify {
-		rbuf = make([]byte, int(tl))
-		rbuf, err = bs.Read(int64(offset), tl)
+		if int64(len(wbuf)) == tl {
+			rbuf, err = bs.Read(int64(offset), tl)
+		}
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-- 
2.43.0


From be90880dab758d2a1f1c9bf10cae1327c88f5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 19/83] fix: UNMAP of 4 GiB and more unmaps everything it
 addresses

---
 pkg/scsi/sbc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 21f2634..76acd68 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -320,6 +320,14 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
 			return api.SAMStatCheckCondition
 		}
+		// the length of a descriptor handed to the backing store has 32 bits
+		for max := uint32(1) << 31 >> cmd.Device.BlockShift; num > max; num -= max {
+			blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
+				Offset: lba << cmd.Device.BlockShift,
+				TL:     max << cmd.Device.BlockShift,
+			})
+			lba += uint64(max)
+		}
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
 			TL:     num << cmd.Device.BlockShift,
-- 
2.43.0


From 921fd173dc58bd8bff9cf8e89eb8f5a5e0130d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 20/83] fix: a read across the end of the file returns the part
 the file holds

---
 pkg/scsi/backingstore/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scsi/backingstore/common.go b/pkg/scsi/backingstore/common.go
index 3160a78..0168f0a 100644
--- a/pkg/scsi/backingstore/common.go
+++ b/pkg/scsi/backingstore/common.go
@@ -106,6 +106,10 @@ func (bs *FileBackingStore) Read(offset, tl int64) ([]byte, error) {
 	}
 	tmpbuf := make([]byte, tl)
 	length, err := bs.file.ReadAt(tmpbuf, offset)
+	if err == io.EOF {
+		// what lies beyond the end of the file reads as zeros
+		return tmpbuf, err
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 87fdf6a36cc41b330caeebda5e07a6d5bed3b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 21/83] fix: the residual count is the difference to the
 expected data length

---
 pkg/port/iscsit/cmd.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index f592568..e961bed 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -289,18 +289,25 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	return m, nil
 }
 
+// residual returns the overflow or underflow flag and the residual count of
+// a response to a command which had m.Resid bytes of data-in to return.
+func (m *ISCSICommand) residual() (byte, uint32) {
+	switch {
+	case m.Resid > m.ExpectedDataLen:
+		return 0x04, m.Resid - m.ExpectedDataLen
+	case m.Resid > 0 && m.Resid < m.ExpectedDataLen:
+		return 0x02, m.ExpectedDataLen - m.Resid
+	}
+	return 0, 0
+}
+
 func (m *ISCSICommand) scsiCmdRespBytes() []byte {
 	// rfc7143 11.4
 	buf := bytes.Buffer{}
 	buf.WriteByte(byte(OpSCSIResp))
 	var flag byte = 0x80
-	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
-			flag |= 0x04
-		} else {
-			flag |= 0x02
-		}
-	}
+	residFlag, resid := m.residual()
+	flag |= residFlag
 	buf.WriteByte(flag)
 	buf.WriteByte(byte(m.SCSIResponse))
 	buf.WriteByte(byte(m.Status))
@@ -321,7 +328,7 @@ func (m *ISCSICommand) scsiCmdRespBytes() []byte {
 	for i := 0; i < 2*4; i++ {
 		buf.WriteByte(0x00)
 	}
-	buf.Write(util.MarshalUint64(uint64(m.Resid))[4:])
+	buf.Write(util.MarshalUint64(uint64(resid))[4:])
 	buf.Write(m.RawData)
 	dl := len(m.RawData)
 	for dl%4 > 0 {
@@ -348,13 +355,8 @@ func (m *ISCSICommand) dataInBytes() []byte {
 		flag |= 0x01
 	}
 	log.Debugf("resid: %v, ExpectedDataLen: %v", m.Resid, m.ExpectedDataLen)
-	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
-			flag |= 0x04
-		} else if m.Resid < m.ExpectedDataLen {
-			flag |= 0x02
-		}
-	}
+	residFlag, resid := m.residual()
+	flag |= residFlag
 	buf[1] = flag
 	//buf.WriteByte(0x00)
 	if m.HasStatus && m.Final == true {
@@ -370,7 +372,7 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	copy(buf[32:], util.MarshalUint32(m.MaxCmdSN))
 	copy(buf[36:], util.MarshalUint32(m.DataSN))
 	copy(buf[40:], util.MarshalUint32(m.BufferOffset))
-	copy(buf[44:], util.MarshalUint32(m.Resid))
+	copy(buf[44:], util.MarshalUint32(resid))
 	if m.ExpectedDataLen != 0 {
 		copy(buf[48:], m.RawData[m.BufferOffset:m.BufferOffset+uint32(m.DataLen)])
 	}
-- 
2.43.0


From 1a3a4470802b21d2ef4ffa019bed5a4d0fe3e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 22/83] fix: more Data-Out than announced crashes the target

---
 pkg/port/iscsit/iscsid.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 9203e4b..27804c7 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -818,7 +818,9 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			log.Error(err)
 			return
 		}
-		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
+		if task.offset < len(task.scmd.OutSDBBuffer.Buffer) {
+			copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
+		}
 		task.offset += conn.req.DataLen
 		task.r2tCount = task.r2tCount - conn.req.DataLen
 		log.Debugf("Final: %v", conn.req.Final)
-- 
2.43.0


From 073bfe3fb67cf2c4554dc6cf8f206264444503fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 23/83] fix: consume the additional header segments of a PDU

---
 pkg/port/iscsit/iscsid.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 27804c7..0c5fb1b 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -356,6 +356,14 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				return
 			}
 			conn.req = cmd
+			if cmd.AHSLen > 0 {
+				// no additional header segment is supported: skip them
+				if _, err = conn.readData(make([]byte, cmd.AHSLen)); err != nil {
+					log.Error("read AHS failed: ", err)
+					conn.state = CONN_STATE_CLOSE
+					return
+				}
+			}
 			if length == BHS_SIZE && cmd.DataLen != 0 {
 				conn.rxIOState = IOSTATE_RX_INIT_AHS
 				break
-- 
2.43.0


From 1d0c0e8bb82d2037480a90cbf5ef171e07f68763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 24/83] fix: every non-immediate request, and no immediate one,
 advances ExpCmdSN

---
 pkg/port/iscsit/cmd.go    |  3 +++
 pkg/port/iscsit/conn.go   |  2 --
 pkg/port/iscsit/iscsid.go | 15 +++++++++++++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index e961bed..34f6f0c 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -249,6 +249,9 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		}
 		fallthrough
 	case OpSCSITaskReq:
+		m.LUN = [8]byte{data[9]}
+		m.CmdSN = uint32(ParseUint(data[24:28]))
+		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 0b0c14a..ac80132 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -204,12 +204,10 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 		conn.resp.Result = task.result
 	case OpLoginResp:
 		conn.resp.OpCode = OpLoginResp
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0c5fb1b..416954f 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -705,6 +705,14 @@ SendRemainingData:
 	}
 }
 
+// acceptCmdSN advances the expected CmdSN of the session past a non-immediate
+// request which does not go through iscsiTaskQueueHandler.
+func (conn *iscsiConnection) acceptCmdSN(req *ISCSICommand) {
+	if !req.Immediate && req.CmdSN == conn.session.ExpCmdSN {
+		conn.session.ExpCmdSN += 1
+	}
+}
+
 func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error) {
 	req := conn.req
 	switch req.OpCode {
@@ -768,7 +776,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			if task.r2tCount > 0 {
 				// prepare to receive more data
-				conn.session.ExpCmdSN += 1
+				conn.acceptCmdSN(req)
 				task.state = taskPending
 				conn.session.PendingTasksMutex.Lock()
 				conn.session.PendingTasks.Push(task)
@@ -813,7 +821,8 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		// task management function
 		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: nil}
 		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
+		conn.acceptCmdSN(req)
+		if err = s.iscsiExecTask(task); err != nil {
 			return
 		}
 	case OpSCSIOut:
@@ -863,8 +872,10 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			conn.session.PendingTasksMutex.Unlock()
 		}
 	case OpNoopOut:
+		conn.acceptCmdSN(req)
 		iscsiExecNoopOut(conn)
 	case OpLogoutReq:
+		conn.acceptCmdSN(req)
 		s.setClientStatus(false)
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
 		conn.txIOState = IOSTATE_TX_BHS
-- 
2.43.0


From 1fbfd0747c5a166dfbf09639563e22c82d35b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 25/83] fix: number responses with the StatSN of the connection

---
 pkg/port/iscsit/conn.go   | 7 +++++--
 pkg/port/iscsit/iscsid.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index ac80132..ffb3999 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -151,16 +151,19 @@ func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
 	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
 	conn.txIOState = IOSTATE_TX_BHS
-	conn.statSN += 1
 	if task == nil {
 		task = conn.rxTask
 	}
 	conn.resp = &ISCSICommand{
 		StartTime:       conn.req.StartTime,
-		StatSN:          conn.req.ExpStatSN,
+		StatSN:          conn.statSN,
 		TaskTag:         conn.req.TaskTag,
 		ExpectedDataLen: conn.req.ExpectedDataLen,
 	}
+	if oc != OpReady {
+		// an R2T carries the next StatSN without consuming it
+		conn.statSN += 1
+	}
 	if conn.session != nil {
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 416954f..a27e9f5 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -460,6 +460,7 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	conn.loginParam.isid = cmd.ISID
 	conn.loginParam.tsih = cmd.TSIH
 	conn.expCmdSN = cmd.CmdSN
+	conn.statSN = cmd.ExpStatSN
 	conn.maxBurstLength = MaxBurstLength
 	conn.maxRecvDataSegmentLength = MaxRecvDataSegmentLength
 	conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
@@ -498,9 +499,10 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 	cmd := conn.req
 	conn.resp = &ISCSICommand{
 		OpCode:  OpLogoutResp,
-		StatSN:  cmd.ExpStatSN,
+		StatSN:  conn.statSN,
 		TaskTag: cmd.TaskTag,
 	}
+	conn.statSN += 1
 	if conn.session == nil {
 		conn.resp.ExpCmdSN = cmd.CmdSN
 		conn.resp.MaxCmdSN = cmd.CmdSN
@@ -558,11 +560,12 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		OpCode:   OpTextResp,
 		Final:    true,
 		NSG:      FullFeaturePhase,
-		StatSN:   cmd.ExpStatSN,
+		StatSN:   conn.statSN,
 		TaskTag:  cmd.TaskTag,
 		ExpCmdSN: cmd.CmdSN,
 		MaxCmdSN: cmd.CmdSN,
 	}
+	conn.statSN += 1
 	conn.resp.RawData = util.MarshalKVText(result)
 	return nil
 }
-- 
2.43.0


From 26ee5cbd4f9630f8dea2309af77df81706c18c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 26/83] fix: send no Data-In larger than the initiator's
 MaxRecvDataSegmentLength

---
 pkg/port/iscsit/iscsid.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index a27e9f5..54c4ca1 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -603,6 +603,10 @@ func (s *ISCSITargetDriver) txHandler(conn *iscsiConnection) {
 	}
 	resp := conn.resp
 	segmentLen := conn.maxRecvDataSegmentLength
+	// the initiator's MaxRecvDataSegmentLength bounds what it can be sent
+	if v := uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value); v >= 512 && v < segmentLen {
+		segmentLen = v
+	}
 	transferLen := len(resp.RawData)
 	resp.DataSN = 0
 	maxCount := conn.maxSeqCount
-- 
2.43.0


From cdbf5ac47d6734cc640a179185ce29ac92dfdbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 27/83] fix: account a write that took an R2T under its own
 opcode

---
 pkg/port/iscsit/conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index ffb3999..846548a 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -180,7 +180,10 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		}
 	case OpSCSIIn, OpSCSIResp:
 		conn.resp.OpCode = oc
-		conn.resp.SCSIOpCode = conn.req.SCSIOpCode
+		// conn.req may be a Data-Out of the command
+		conn.resp.SCSIOpCode = task.cmd.SCSIOpCode
+		conn.resp.ExpectedDataLen = task.cmd.ExpectedDataLen
+		conn.resp.StartTime = task.cmd.StartTime
 		conn.resp.Immediate = true
 		conn.resp.Final = true
 		conn.resp.SCSIResponse = 0x00
-- 
2.43.0


From c20adb8ae3fa2c5b7109fc4de76de47adeb48111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 28/83] fix: abort the tasks a task management request names,
 and answer it alone

---
 pkg/port/iscsit/iscsid.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 54c4ca1..2421b84 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -838,9 +838,11 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
 		conn.session.PendingTasksMutex.RUnlock()
 		if task == nil {
-			err = fmt.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
-			log.Error(err)
-			return
+			// data of a task that was aborted: nothing to do with it
+			log.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
 		}
 		if task.offset < len(task.scmd.OutSDBBuffer.Buffer) {
 			copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
@@ -978,20 +980,21 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 			if stask == nil {
 				task.result = ISCSI_TMF_RSP_NO_TASK
 			} else {
-				// abort this task
+				// abort this task, which gets no response any more
 				log.Debugf("abort the task[%v]", stask.tag)
-				if stask.scmd == nil {
-					stask.scmd = &api.SCSICommand{Result: api.SAM_STAT_TASK_ABORTED}
-				}
-				stask.conn = task.conn
-				log.Debugf("stask.conn: %#v", stask.conn)
-				stask.conn.buildRespPackage(OpSCSIResp, stask)
-				stask.conn.rxTask = nil
-				s.handler(DATAOUT, stask.conn)
 				task.result = ISCSI_TMF_RSP_COMPLETE
 			}
-		case ISCSI_TM_FUNC_ABORT_TASK_SET:
-		case ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+		case ISCSI_TM_FUNC_ABORT_TASK_SET, ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+			sess.PendingTasksMutex.Lock()
+			pending := taskQueue{}
+			for _, stask := range sess.PendingTasks {
+				if stask.cmd.LUN != cmd.LUN {
+					pending = append(pending, stask)
+				}
+			}
+			sess.PendingTasks = pending
+			sess.PendingTasksMutex.Unlock()
+			task.result = ISCSI_TMF_RSP_COMPLETE
 		case ISCSI_TM_FUNC_CLEAR_ACA:
 			fallthrough
 		case ISCSI_TM_FUNC_CLEAR_TASK_SET:
-- 
2.43.0


From ba877165a2381ae0291a04cf901f1ea5dc2642e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 29/83] fix: answer a PDU that cannot be handled with a Reject

---
 pkg/port/iscsit/cmd.go    | 34 ++++++++++++++++++++++++++++++++++
 pkg/port/iscsit/conn.go   |  7 ++++++-
 pkg/port/iscsit/iscsid.go | 10 +++-------
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 34f6f0c..92f0688 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -164,6 +164,8 @@ func (cmd *ISCSICommand) Bytes() []byte {
 		return cmd.scsiTMFRespBytes()
 	case OpReady:
 		return cmd.r2tRespBytes()
+	case OpReject:
+		return cmd.rejectBytes()
 	}
 	return nil
 }
@@ -223,6 +225,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	}
 	// TODO: sync.Pool
 	m := &ISCSICommand{}
+	m.RawHeader = append([]byte{}, data...)
 	m.Immediate = 0x40&data[0] == 0x40
 	m.OpCode = OpCode(data[0] & ISCSI_OPCODE_MASK)
 	m.Final = 0x80&data[1] == 0x80
@@ -484,6 +487,37 @@ func (m *ISCSICommand) scsiTMFRespBytes() []byte {
 	return buf.Bytes()
 }
 
+func (m *ISCSICommand) rejectBytes() []byte {
+	// rfc7143 11.17
+	buf := bytes.Buffer{}
+	buf.WriteByte(byte(OpReject))
+	buf.WriteByte(0x80)
+	buf.WriteByte(m.Result) // reason
+	buf.WriteByte(0x00)
+
+	buf.WriteByte(0x00)
+	buf.Write(util.MarshalUint64(uint64(len(m.RawData)))[5:]) // 5-8
+	// Skip through to byte 16
+	for i := 0; i < 2*4; i++ {
+		buf.WriteByte(0x00)
+	}
+	for i := 0; i < 4; i++ {
+		buf.WriteByte(0xff)
+	}
+	for i := 0; i < 4; i++ {
+		buf.WriteByte(0x00)
+	}
+	buf.Write(util.MarshalUint64(uint64(m.StatSN))[4:])
+	buf.Write(util.MarshalUint64(uint64(m.ExpCmdSN))[4:])
+	buf.Write(util.MarshalUint64(uint64(m.MaxCmdSN))[4:])
+	for i := 0; i < 3*4; i++ {
+		buf.WriteByte(0x00)
+	}
+	// the header of the rejected PDU
+	buf.Write(m.RawData)
+	return buf.Bytes()
+}
+
 func (m *ISCSICommand) r2tRespBytes() []byte {
 	// rfc7143 11.8
 	buf := bytes.Buffer{}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 846548a..6eb47ec 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -206,10 +206,15 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 			}
 		}
 
-	case OpNoopIn, OpReject:
+	case OpNoopIn:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
+	case OpReject:
+		conn.resp.OpCode = oc
+		conn.resp.Final = true
+		conn.resp.Result = 0x05 // command not supported
+		conn.resp.RawData = conn.req.RawHeader
 	case OpSCSITaskResp:
 		conn.resp.OpCode = oc
 		conn.resp.Final = true
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 2421b84..e922387 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -889,14 +889,10 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
 		conn.txIOState = IOSTATE_TX_BHS
 		iscsiExecLogout(conn)
-	case OpTextReq, OpSNACKReq:
-		err = fmt.Errorf("Cannot handle yet %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
 	default:
-		err = fmt.Errorf("Unknown op %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
-		return
+		// Text, SNACK and opcodes there are no functions for
+		log.Errorf("Cannot handle %s", opCodeMap[conn.req.OpCode])
+		iscsiExecReject(conn)
 	}
 	conn.rxIOState = IOSTATE_RX_BHS
 	s.handler(DATAIN|DATAOUT, conn)
-- 
2.43.0


From fbdfc2970151463d4eda062fddea6183dae9c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 30/83] fix: answer Text requests of normal sessions, and only
 after the login

---
 pkg/port/iscsit/iscsid.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index e922387..9673bd2 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -437,9 +437,15 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			}
 		case OpTextReq:
 			log.Debug("OpTextReq")
-			if err := s.iscsiExecText(conn); err != nil {
-				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
+			if conn.state != CONN_STATE_FULL {
+				// no text negotiation before the login is complete
+				iscsiExecReject(conn)
+			} else {
+				conn.acceptCmdSN(conn.req)
+				if err := s.iscsiExecText(conn); err != nil {
+					log.Warningf("set connection to close")
+					conn.state = CONN_STATE_CLOSE
+				}
 			}
 		default:
 			iscsiExecReject(conn)
@@ -524,8 +530,12 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 	cmd := conn.req
 	keys := util.ParseKVText(cmd.RawData)
 	if st, ok := keys["SendTargets"]; ok {
-		if st == "All" {
-			for name, tgt := range s.iSCSITargets {
+		if st == "" && conn.session.Target != nil {
+			// the target of the session
+			st = conn.session.Target.SCSITarget.Name
+		}
+		for name, tgt := range s.iSCSITargets {
+			if st == "All" || st == name {
 				log.Debugf("iscsi target: %v", name)
 				//log.Debugf("iscsi target portals: %v", tgt.Portals)
 
@@ -562,8 +572,8 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		NSG:      FullFeaturePhase,
 		StatSN:   conn.statSN,
 		TaskTag:  cmd.TaskTag,
-		ExpCmdSN: cmd.CmdSN,
-		MaxCmdSN: cmd.CmdSN,
+		ExpCmdSN: conn.session.ExpCmdSN,
+		MaxCmdSN: conn.session.ExpCmdSN + conn.session.MaxQueueCommand,
 	}
 	conn.statSN += 1
 	conn.resp.RawData = util.MarshalKVText(result)
@@ -889,8 +899,13 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
 		conn.txIOState = IOSTATE_TX_BHS
 		iscsiExecLogout(conn)
+	case OpTextReq:
+		conn.acceptCmdSN(req)
+		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
+		conn.txIOState = IOSTATE_TX_BHS
+		s.iscsiExecText(conn)
 	default:
-		// Text, SNACK and opcodes there are no functions for
+		// SNACK and opcodes there are no functions for
 		log.Errorf("Cannot handle %s", opCodeMap[conn.req.OpCode])
 		iscsiExecReject(conn)
 	}
-- 
2.43.0


From 3fd9e753f30f463be5377cbaa377e32a188293b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 31/83] fix: NOP-In returns the ping data, and no answer where
 none is asked for

---
 pkg/port/iscsit/conn.go   | 6 ++++++
 pkg/port/iscsit/iscsid.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 6eb47ec..d3bb385 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -208,6 +208,12 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 
 	case OpNoopIn:
 		conn.resp.OpCode = oc
+		// echo the ping data, as far as the initiator takes it
+		pingLen := conn.req.DataLen
+		if val := int(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value); pingLen > val {
+			pingLen = val
+		}
+		conn.resp.RawData = conn.req.RawData[:pingLen]
 		conn.resp.Final = true
 		conn.resp.NSG = FullFeaturePhase
 	case OpReject:
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 9673bd2..dc903f5 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -892,6 +892,12 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		}
 	case OpNoopOut:
 		conn.acceptCmdSN(req)
+		if req.TaskTag == 0xffffffff {
+			// the initiator wants no answer
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
+		}
 		iscsiExecNoopOut(conn)
 	case OpLogoutReq:
 		conn.acceptCmdSN(req)
-- 
2.43.0


From 9314f396a0a630b5e03cedbb73b7e5c05089690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 32/83] fix: a logout ends its connection

---
 pkg/port/iscsit/iscsid.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index dc903f5..60396c9 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -434,6 +434,9 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			if err := iscsiExecLogout(conn); err != nil {
 				log.Warningf("set connection to close")
 				conn.state = CONN_STATE_CLOSE
+			} else {
+				// close the connection after the response
+				conn.state = CONN_STATE_EXIT
 			}
 		case OpTextReq:
 			log.Debug("OpTextReq")
@@ -905,6 +908,10 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
 		conn.txIOState = IOSTATE_TX_BHS
 		iscsiExecLogout(conn)
+		// close the connection after the response
+		conn.state = CONN_STATE_EXIT
+		s.handler(DATAOUT, conn)
+		return nil
 	case OpTextReq:
 		conn.acceptCmdSN(req)
 		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
-- 
2.43.0


From 037bd922a74bf3b5c43c00d58a277c7200e51b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 33/83] fix: take the SessionType of the security stage

---
 pkg/port/iscsit/login.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 7451e5b..d08fa15 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -98,6 +98,12 @@ func (conn *iscsiConnection) processSecurityData() error {
 			conn.loginParam.target = val
 		} else if key == "InitiatorName" {
 			conn.loginParam.initiator = val
+		} else if key == "SessionType" {
+			if val == "Normal" {
+				conn.loginParam.sessionType = SESSION_NORMAL
+			} else {
+				conn.loginParam.sessionType = SESSION_DISCOVERY
+			}
 		}
 	}
 
-- 
2.43.0


From 676ddaa82684635dbec88575b40505feb408e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 34/83] fix: an unknown login key is NotUnderstood, not a
 reason to close

---
 pkg/port/iscsit/login.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index d08fa15..912e25e 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -177,8 +177,7 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 				}
 			}
 		} else {
-			//Unknown Key, reject it
-			return negoKV, fmt.Errorf("Unknowen Nego KV [%s:%s]", key, val)
+			negoKV = append(negoKV, util.KeyValue{key, "NotUnderstood"})
 		}
 	}
 
-- 
2.43.0


From 9f0181c2e9ed1d7df3f6ced1676bb6f1011ac3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 35/83] fix: leave a login stage only when the initiator asks
 to

---
 pkg/port/iscsit/login.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 912e25e..808c8ea 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -92,7 +92,7 @@ func (conn *iscsiConnection) processSecurityData() error {
 				return fmt.Errorf("client requesting AuthMethod:%s, only support None", val)
 			}
 			conn.loginParam.tgtNSG = LoginOperationalNegotiation
-			conn.loginParam.tgtTrans = true
+			conn.loginParam.tgtTrans = conn.loginParam.iniTrans
 			conn.loginParam.authMethod = AuthNone
 		} else if key == "TargetName" {
 			conn.loginParam.target = val
@@ -181,18 +181,17 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 		}
 	}
 
-	if kvChanges == 0 {
-		if (conn.loginParam.iniNSG == FullFeaturePhase) && conn.loginParam.iniTrans {
-			conn.loginParam.tgtNSG = FullFeaturePhase
-			conn.loginParam.tgtTrans = true
-		} else {
-			//Currently, we just reject these kind of cases
-			return negoKV, fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t",
-				conn.loginParam.iniCSG, conn.loginParam.iniNSG, conn.loginParam.iniTrans)
-		}
-	} else {
+	if !conn.loginParam.iniTrans {
+		// the initiator has more to negotiate
+		conn.loginParam.tgtNSG = LoginOperationalNegotiation
+		conn.loginParam.tgtTrans = false
+	} else if kvChanges != 0 || conn.loginParam.iniNSG == FullFeaturePhase {
 		conn.loginParam.tgtNSG = FullFeaturePhase
 		conn.loginParam.tgtTrans = true
+	} else {
+		//Currently, we just reject these kind of cases
+		return negoKV, fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t",
+			conn.loginParam.iniCSG, conn.loginParam.iniNSG, conn.loginParam.iniTrans)
 	}
 	return negoKV, nil
 }
-- 
2.43.0


From 20bb104b45fdb43354ea877940c6a86e292e4dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 36/83] fix: answer DataPDUInOrder and DataSequenceInOrder

---
 pkg/port/iscsit/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index ccc7707..e9a4cc0 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -200,9 +200,9 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_MAX_BURST
 	"MaxBurstLength": {ISCSI_PARAM_MAX_BURST, true, 262144, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_PDU_INORDER_EN
-	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_DATASEQ_INORDER_EN
-	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_ERL
 	"ErrorRecoveryLevel": {ISCSI_PARAM_ERL, true, 0, 0, 2, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_IFMARKER_EN
-- 
2.43.0


From 23a28cdabf8d7cf69cc47f0e4df74c839c9760fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 37/83] fix: reject the login values that are malformed, and
 digests

---
 pkg/port/iscsit/login.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 808c8ea..428504d 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -126,7 +126,9 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 		if key == "MaxRecvDataSegmentLength" {
 			defSessKey, ok = sessionKeys["MaxXmitDataSegmentLength"]
 			uintVal, ok = defSessKey.conv(val)
-			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+			if ok && (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
+				conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+			}
 			continue
 		}
 
@@ -157,6 +159,8 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 				if uintVal == DIGEST_ALL {
 					uintVal = DIGEST_NONE
 				}
+				// no digest is implemented
+				ok = ok && uintVal == DIGEST_NONE
 			}
 			if ok {
 				if defSessKey.constValue {
@@ -175,6 +179,8 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 						kvChanges++
 					}
 				}
+			} else {
+				negoKV = append(negoKV, util.KeyValue{key, "Reject"})
 			}
 		} else {
 			negoKV = append(negoKV, util.KeyValue{key, "NotUnderstood"})
-- 
2.43.0


From 8da5a844563808f3c8f506966540b41f5942d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 38/83] fix: negotiate burst lengths, ImmediateData and
 DefaultTime2Wait

---
 pkg/port/iscsit/iscsid.go  |  7 +++++++
 pkg/port/iscsit/login.go   | 11 +++++++++++
 pkg/port/iscsit/session.go |  8 ++++----
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 60396c9..05be9b2 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -623,6 +623,13 @@ func (s *ISCSITargetDriver) txHandler(conn *iscsiConnection) {
 	transferLen := len(resp.RawData)
 	resp.DataSN = 0
 	maxCount := conn.maxSeqCount
+	// a sequence of Data-In PDUs carries at most MaxBurstLength
+	if v := uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value); conn.session != nil {
+		if segmentLen > v {
+			segmentLen = v
+		}
+		maxCount = v / segmentLen
+	}
 
 	if s.enableStats {
 		if resp.OpCode == OpSCSIResp || resp.OpCode == OpSCSIIn {
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 428504d..93eac6a 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -171,6 +171,17 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
 				} else {
 					if (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
+						// the result is the minimum, or the maximum, of both sides
+						switch key {
+						case "MaxBurstLength", "FirstBurstLength":
+							if uintVal > defSessKey.def {
+								uintVal = defSessKey.def
+							}
+						case "DefaultTime2Wait":
+							if uintVal < defSessKey.def {
+								uintVal = defSessKey.def
+							}
+						}
 						conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
 						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
 					} else {
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index e9a4cc0..935bcc8 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -194,11 +194,11 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_MAX_R2T
 	"MaxOutstandingR2T": {ISCSI_PARAM_MAX_R2T, true, 1, 1, 65535, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_IMM_DATA_EN
-	"ImmediateData": {ISCSI_PARAM_IMM_DATA_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
+	"ImmediateData": {ISCSI_PARAM_IMM_DATA_EN, false, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_FIRST_BURST
-	"FirstBurstLength": {ISCSI_PARAM_FIRST_BURST, true, 65536, 512, 16777215, numberKeyConv, numberKeyInConv},
+	"FirstBurstLength": {ISCSI_PARAM_FIRST_BURST, false, 65536, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_MAX_BURST
-	"MaxBurstLength": {ISCSI_PARAM_MAX_BURST, true, 262144, 512, 16777215, numberKeyConv, numberKeyInConv},
+	"MaxBurstLength": {ISCSI_PARAM_MAX_BURST, false, 262144, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_PDU_INORDER_EN
 	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_DATASEQ_INORDER_EN
@@ -210,7 +210,7 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_OFMARKER_EN
 	"OFMarker": {ISCSI_PARAM_OFMARKER_EN, true, 0, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_DEFAULTTIME2WAIT
-	"DefaultTime2Wait": {ISCSI_PARAM_DEFAULTTIME2WAIT, true, 2, 0, 3600, numberKeyConv, numberKeyInConv},
+	"DefaultTime2Wait": {ISCSI_PARAM_DEFAULTTIME2WAIT, false, 2, 0, 3600, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_DEFAULTTIME2RETAIN
 	"DefaultTime2Retain": {ISCSI_PARAM_DEFAULTTIME2RETAIN, false, 20, 0, 3600, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_OFMARKINT
-- 
2.43.0


From a76ea185220c5345cee6bdb5812d75b4fb0322a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 39/83] fix: tell the initiator the TSIH of its session

---
 pkg/port/iscsit/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index d3bb385..97f0884 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -233,6 +233,11 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.NSG = conn.loginParam.tgtNSG
 		conn.resp.ExpCmdSN = conn.req.CmdSN
 		conn.resp.MaxCmdSN = conn.req.CmdSN
+		conn.resp.ISID = conn.req.ISID
+		conn.resp.TSIH = conn.req.TSIH
+		if conn.session != nil && conn.state == CONN_STATE_LOGIN_FULL {
+			conn.resp.TSIH = conn.session.TSIH
+		}
 		if conn.req.CSG != SecurityNegotiation {
 			negoKeys, err := conn.processLoginData()
 			if err != nil {
-- 
2.43.0


From 649793ced7fcedb8eb742bf418321dd0f7e85c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 40/83] fix: a session ends with its connection

---
 pkg/port/iscsit/iscsid.go  |  3 +++
 pkg/port/iscsit/session.go | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 05be9b2..51e6184 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -292,6 +292,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 			if conn.state == CONN_STATE_CLOSE {
 				log.Warningf("iscsi connection[%d] closed", conn.cid)
 				conn.close()
+				s.closeSession(conn)
 				IPMutex.Lock()
 				remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
 				if CurrentHostIP == remoteIP {
@@ -308,6 +309,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 	if conn.state == CONN_STATE_CLOSE {
 		log.Warningf("iscsi connection[%d] closed", conn.cid)
 		conn.close()
+		s.closeSession(conn)
 		IPMutex.Lock()
 		remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
 		if CurrentHostIP == remoteIP {
@@ -668,6 +670,7 @@ SendRemainingData:
 			}
 			if l, err := conn.write(resp.Bytes()); err != nil {
 				log.Errorf("failed to write data to client: %v", err)
+				conn.state = CONN_STATE_CLOSE
 				return
 			} else {
 				conn.txIOState = IOSTATE_TX_INIT_AHS
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 935bcc8..91894ec 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -336,6 +336,28 @@ func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
 	scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
 }
 
+// closeSession ends the session of a connection that is closed.
+func (s *ISCSITargetDriver) closeSession(conn *iscsiConnection) {
+	sess := conn.session
+	if sess == nil {
+		return
+	}
+	sess.ConnectionsRWMutex.Lock()
+	own := sess.Connections[conn.cid] == conn
+	if own {
+		delete(sess.Connections, conn.cid)
+	}
+	sess.ConnectionsRWMutex.Unlock()
+	if !own {
+		// another connection took the session over
+		return
+	}
+	if sess.Target != nil {
+		s.UnBindISCSISession(sess)
+	}
+	s.ReleaseTSIH(sess.TSIH)
+}
+
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	var (
 		target    *ISCSITarget
@@ -487,13 +509,18 @@ func (s *ISCSITargetDriver) ReInstatement(existSess *ISCSISession, conn *iscsiCo
 	if err != nil {
 		return nil, err
 	}
-	newSess.ExpCmdSN = existSess.ExpCmdSN
-	newSess.MaxCmdSN = existSess.MaxCmdSN + 1
+	existSess.ConnectionsRWMutex.Lock()
+	connections := existSess.Connections
+	existSess.Connections = map[uint16]*iscsiConnection{}
+	existSess.ConnectionsRWMutex.Unlock()
 	s.UnBindISCSISession(existSess)
-	for _, tmpConn := range existSess.Connections {
+	if len(connections) != 0 {
+		// otherwise its connection is closing and releases it
+		s.ReleaseTSIH(existSess.TSIH)
+	}
+	for _, tmpConn := range connections {
 		tmpConn.close()
 	}
-	existSess.Connections = map[uint16]*iscsiConnection{}
 	return newSess, nil
 }
 
-- 
2.43.0


From 10d3d9ead9ebdf10533d4b7d2036a4bcfe8597f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 41/83] fix: session and connection reinstatement

---
 pkg/port/iscsit/conn.go    |  5 -----
 pkg/port/iscsit/session.go | 43 ++++++++++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 97f0884..23978f3 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -143,11 +143,6 @@ func (c *iscsiConnection) close() {
 	c.conn.Close()
 }
 
-func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
-	conn.close()
-	conn.conn = newConn.conn
-}
-
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
 	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
 	conn.txIOState = IOSTATE_TX_BHS
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 91894ec..7c94964 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -318,11 +318,20 @@ func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, i
 	}
 	tgt.SessionsRWMutex.RLock()
 	defer tgt.SessionsRWMutex.RUnlock()
+	if tsih == ISCSI_UNSPEC_TSIH {
+		// a session of the same initiator port is to be reinstated
+		for _, sess = range tgt.Sessions {
+			if sess.Initiator == iniName && sess.ISID == isid && sess.TPGT == tpgt {
+				return sess
+			}
+		}
+		return nil
+	}
 	sess, ok = tgt.Sessions[tsih]
 	if !ok {
 		return nil
 	}
-	if (sess.ISID == isid) && (sess.TPGT == tpgt) {
+	if (sess.Initiator == iniName) && (sess.ISID == isid) && (sess.TPGT == tpgt) {
 		return sess
 	}
 	return nil
@@ -433,7 +442,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		if conn.loginParam.tsih == ISCSI_UNSPEC_TSIH {
 			log.Infof("Session Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
 				conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-			newSess, err = s.ReInstatement(existConn.session, conn)
+			newSess, err = s.ReInstatement(existSess, conn)
 			if err != nil {
 				return err
 			}
@@ -447,10 +456,13 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			newSess.Target.Sessions[newSess.TSIH] = newSess
 			newSess.Target.SessionsRWMutex.Unlock()
 		} else {
-			if existConn != nil {
-				log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
-					conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-				existConn.ReInstatement(conn)
+			if existConn == nil {
+				return fmt.Errorf("initiator err, more than one connection in a session")
+			}
+			log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
+				conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
+			if !existSess.takeOver(existConn, conn) {
+				return fmt.Errorf("initiator err, no session")
 			}
 		}
 	}
@@ -504,6 +516,25 @@ func (sess *ISCSISession) LookupConnection(cid uint16) *iscsiConnection {
 	return conn
 }
 
+// takeOver makes conn the connection of the session in place of old.
+func (sess *ISCSISession) takeOver(old, conn *iscsiConnection) bool {
+	sess.ConnectionsRWMutex.Lock()
+	if sess.Connections[conn.cid] != old {
+		sess.ConnectionsRWMutex.Unlock()
+		return false
+	}
+	sess.Connections[conn.cid] = conn
+	sess.ConnectionsRWMutex.Unlock()
+	old.close()
+	// the tasks of the old connection are terminated
+	sess.PendingTasksMutex.Lock()
+	sess.PendingTasks = taskQueue{}
+	sess.PendingTasksMutex.Unlock()
+	sess.SessionParam = conn.loginParam.sessionParam
+	conn.session = sess
+	return true
+}
+
 func (s *ISCSITargetDriver) ReInstatement(existSess *ISCSISession, conn *iscsiConnection) (*ISCSISession, error) {
 	newSess, err := s.NewISCSISession(conn)
 	if err != nil {
-- 
2.43.0


From 35b6833507a1dab1d1edc15392f01444707b4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 42/83] fix: logins bind their sessions one after the other

---
 pkg/port/iscsit/iscsid.go  |  1 +
 pkg/port/iscsit/session.go | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 51e6184..283eb55 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -56,6 +56,7 @@ type ISCSITargetDriver struct {
 	iSCSITargets           map[string]*ISCSITarget
 	TSIHPool               map[uint16]bool
 	TSIHPoolMutex          sync.Mutex
+	bindMutex              sync.Mutex
 	isClientConnected      bool
 	enableStats            bool
 	mu                     *sync.RWMutex
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 7c94964..f7f0824 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -341,7 +341,9 @@ func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
 	target := sess.Target
 	target.SessionsRWMutex.Lock()
 	defer target.SessionsRWMutex.Unlock()
-	delete(target.Sessions, sess.TSIH)
+	if target.Sessions[sess.TSIH] == sess {
+		delete(target.Sessions, sess.TSIH)
+	}
 	scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
 }
 
@@ -377,6 +379,10 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		err       error
 	)
 
+	// two logins of one initiator port must not miss each other
+	s.bindMutex.Lock()
+	defer s.bindMutex.Unlock()
+
 	//Find TPGT and Target ID
 	if conn.loginParam.sessionType == SESSION_DISCOVERY {
 		conn.tid = 0xffff
@@ -399,8 +405,10 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		conn.tid = target.TID
 	}
 
-	existSess = s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
-		conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt)
+	if conn.loginParam.sessionType == SESSION_NORMAL {
+		existSess = s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
+			conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt)
+	}
 	if existSess != nil {
 		existConn = existSess.LookupConnection(conn.cid)
 	}
-- 
2.43.0


From 47f9ddcc479b2307cda8f860be36a5c5679544da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 43/83] fix: answer a failed login with a status

---
 pkg/port/iscsit/iscsid.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 283eb55..db99c6a 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -429,7 +429,19 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 			if err := s.iscsiExecLogin(conn); err != nil {
 				log.Error(err)
 				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
+				// tell the initiator that the login failed, and close the connection
+				conn.resp = &ISCSICommand{
+					OpCode:      OpLoginResp,
+					CSG:         conn.req.CSG,
+					ISID:        conn.req.ISID,
+					TSIH:        conn.req.TSIH,
+					TaskTag:     conn.req.TaskTag,
+					StatSN:      conn.statSN,
+					ExpCmdSN:    conn.req.CmdSN,
+					MaxCmdSN:    conn.req.CmdSN,
+					StatusClass: 0x02, // initiator error
+				}
+				conn.state = CONN_STATE_EXIT
 			}
 		case OpLogoutReq:
 			log.Debug("OpLogoutReq")
-- 
2.43.0


From ccc01cc17cccadd1efd1689856d2703178e2ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 44/83] fix: ignore commands outside the CmdSN window

---
 pkg/port/iscsit/iscsid.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index db99c6a..9785456 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -759,6 +759,16 @@ func (conn *iscsiConnection) acceptCmdSN(req *ISCSICommand) {
 func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error) {
 	req := conn.req
 	switch req.OpCode {
+	case OpSCSICmd, OpSCSITaskReq, OpNoopOut, OpLogoutReq, OpTextReq:
+		// rfc7143 4.2.2.1: ignore what is outside the window
+		if diff := int32(req.CmdSN - conn.session.ExpCmdSN); !req.Immediate && (diff < 0 || diff > int32(conn.session.MaxQueueCommand)) {
+			log.Errorf("CmdSN %d is outside the window of %d", req.CmdSN, conn.session.ExpCmdSN)
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
+		}
+	}
+	switch req.OpCode {
 	case OpSCSICmd:
 		log.Debugf("SCSI Command processing...")
 		scmd := &api.SCSICommand{
-- 
2.43.0


From 9bca0683d94e3f96416c10d7b0f3706e575c91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 45/83] fix: a portal of a target is named by its ID

---
 pkg/port/iscsit/iscsid.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 9785456..177bef4 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -127,8 +127,16 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 		targetPortName := fmt.Sprintf("%s,t,0x%02x", tgtName, tpgtNumber)
 		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
 		for _, portalID := range portalIDArrary {
-			portal := configInfo.ISCSIPortals[portalID]
-			s.AddiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+			found := false
+			for _, portal := range configInfo.ISCSIPortals {
+				if uint64(portal.ID) == portalID {
+					s.AddiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+					found = true
+				}
+			}
+			if !found {
+				return fmt.Errorf("No such portal: %d, in %s", portalID, tgtName)
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 191445de028e6e0dec76e6d156d29bcd27d7aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 46/83] fix: commands and the target list race with logins over
 the nexus map

---
 pkg/api/types.go   |  2 +-
 pkg/scsi/scsi.go   | 20 ++++++++++++++------
 pkg/scsi/target.go |  6 +++++-
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/api/types.go b/pkg/api/types.go
index 591f1f0..2ff662b 100644
--- a/pkg/api/types.go
+++ b/pkg/api/types.go
@@ -224,7 +224,7 @@ type SCSITarget struct {
 	TargetPortGroups []*TargetPortGroup `json:"tpg"`
 	SCSITargetDriver interface{}        `json:"-"`
 
-	ITNexusMutex sync.Mutex
+	ITNexusMutex *sync.Mutex // shared by the copies of the target
 	ITNexus      map[uuid.UUID]*ITNexus `json:"itnexus"`
 }
 
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 18f196f..84a2d59 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -50,7 +50,16 @@ func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
 	result := []api.SCSITarget{}
 	s.mutex.RLock()
 	for _, t := range s.Targets {
-		result = append(result, *t)
+		tgt := *t
+		tgt.ITNexus = map[uuid.UUID]*api.ITNexus{}
+		if t.ITNexusMutex != nil {
+			t.ITNexusMutex.Lock()
+			for id, itn := range t.ITNexus {
+				tgt.ITNexus[id] = itn
+			}
+			t.ITNexusMutex.Unlock()
+		}
+		result = append(result, tgt)
 	}
 	s.mutex.RUnlock()
 	return result, nil
@@ -90,11 +99,10 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		return fmt.Errorf("Cannot find the target with ID(%d)", tid)
 	}
 	scmd.Target = target
-	for _, it := range target.ITNexus {
-		if uuid.Equal(it.ID, scmd.ITNexusID) {
-			itn = it
-			break
-		}
+	if target.ITNexusMutex != nil {
+		target.ITNexusMutex.Lock()
+		itn = target.ITNexus[scmd.ITNexusID]
+		target.ITNexusMutex.Unlock()
 	}
 	scmd.ITNexus = itn
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 3f12696..e613388 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -18,6 +18,7 @@ package scsi
 
 import (
 	"fmt"
+	"sync"
 	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
@@ -35,13 +36,16 @@ func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string) (*ap
 		Name:             name,
 		TID:              tid,
 		TargetPortGroups: []*api.TargetPortGroup{},
+		ITNexusMutex:     &sync.Mutex{},
 		ITNexus:          make(map[uuid.UUID]*api.ITNexus),
 	}
 	tpg := &api.TargetPortGroup{0, []*api.SCSITargetPort{}}
-	s.Targets = append(s.Targets, target)
 	target.Devices = GetTargetLUNMap(target.Name)
 	target.LUN0 = NewLUN0()
 	target.TargetPortGroups = append(target.TargetPortGroups, tpg)
+	s.mutex.Lock()
+	s.Targets = append(s.Targets, target)
+	s.mutex.Unlock()
 	return target, nil
 }
 
-- 
2.43.0


From 1d8d1574b877d1db3de244cc4f7536ad4abf5943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 47/83] fix: commands race with changes of the LUN map

---
 pkg/scsi/scsi.go      |  4 +++-
 pkg/scsi/scsilumap.go | 22 +++++++++++++++++++++-
 pkg/scsi/spc.go       | 12 +++++++-----
 pkg/scsi/target.go    |  7 +------
 4 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 84a2d59..691fb21 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -106,7 +106,9 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 	}
 	scmd.ITNexus = itn
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
-	scmd.Device = target.Devices[lun]
+	s.mutex.RLock()
+	scmd.Device = lookupDevice(target, lun)
+	s.mutex.RUnlock()
 
 	log.Debugf("scsi opcode: 0x%x, LUN: %d", int(scmd.SCB[0]), binary.LittleEndian.Uint64(scmd.Lun[:]))
 
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index a6fb823..8cb66c9 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -19,6 +19,7 @@ package scsi
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strconv"
 	"sync"
 
@@ -50,6 +51,25 @@ type LUNMapping struct {
 	DeviceID   uint64
 }
 
+// lookupDevice returns the LU mapped at the LUN of the target.
+func lookupDevice(target *api.SCSITarget, lun uint64) *api.SCSILu {
+	globalSCSILUMap.mutex.RLock()
+	defer globalSCSILUMap.mutex.RUnlock()
+	return target.Devices[lun]
+}
+
+// mappedLUNs returns the LUNs of the target.
+func mappedLUNs(target *api.SCSITarget) []uint64 {
+	globalSCSILUMap.mutex.RLock()
+	defer globalSCSILUMap.mutex.RUnlock()
+	luns := []uint64{}
+	for lun := range target.Devices {
+		luns = append(luns, lun)
+	}
+	sort.Slice(luns, func(i, j int) bool { return luns[i] < luns[j] })
+	return luns
+}
+
 func mappingLUN(lm LUNMapping) {
 	device := globalSCSILUMap.AllDevices[lm.DeviceID]
 	lunMap := globalSCSILUMap.TargetsLUNMap[lm.TargetName]
@@ -165,8 +185,8 @@ func InitSCSILUMapEx(config *config.BackendStorage, tgtName string, lun uint64,
 	}
 
 	globalSCSILUMap.mutex.Lock()
+	defer globalSCSILUMap.mutex.Unlock()
 	globalSCSILUMap.AllDevices[config.DeviceID] = lu
-	globalSCSILUMap.mutex.Unlock()
 
 	mappingLUN(LUNMapping{
 		DeviceID:   config.DeviceID,
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 3a40281..bf68c17 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -417,6 +417,8 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		allocationLength uint32
 		buf              *bytes.Buffer = &bytes.Buffer{}
 	)
+	luns := mappedLUNs(cmd.Target)
+	hasLUN0 := len(luns) > 0 && luns[0] == 0
 	// Get Allocation Length
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[6:10])
 	if allocationLength < 16 {
@@ -425,10 +427,10 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	remainLength = allocationLength
-	if _, ok := cmd.Target.Devices[0]; !ok {
-		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
+	if !hasLUN0 {
+		availLength = 8 * uint32(len(luns)+1)
 	} else {
-		availLength = 8 * uint32(len(cmd.Target.Devices))
+		availLength = 8 * uint32(len(luns))
 	}
 
 	// LUN list length
@@ -441,12 +443,12 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	//For LUN0
-	if _, ok := cmd.Target.Devices[0]; !ok {
+	if !hasLUN0 {
 		buf.Write(util.MarshalUint64(0))
 		remainLength -= 8
 	}
 
-	for lun := range cmd.Target.Devices {
+	for _, lun := range luns {
 		if remainLength > 0 {
 			if lun > 0xff {
 				lun = (0x01 << 30) | (0x3fff&lun)<<16
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index e613388..1496360 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -103,12 +103,7 @@ func deviceReserve(cmd *api.SCSICommand) error {
 	var lu *api.SCSILu
 	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
 
-	for tgtLUN, lunDev := range cmd.Target.Devices {
-		if tgtLUN == lun {
-			lu = lunDev
-			break
-		}
-	}
+	lu = lookupDevice(cmd.Target, lun)
 	if lu == nil {
 		log.Errorf("invalid target and lun %d %d", cmd.Target.TID, lun)
 		return nil
-- 
2.43.0


From f01c03c1a23897325efcc8e8309ff638bdf181ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 48/83] fix: REPORT LUNS returns its list, not the allocation
 length

---
 pkg/scsi/spc.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index bf68c17..1dd8f53 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -435,7 +435,10 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	// LUN list length
 	buf.Write(util.MarshalUint32(availLength))
-	cmd.InSDBBuffer.Resid = allocationLength
+	cmd.InSDBBuffer.Resid = availLength + 8
+	if cmd.InSDBBuffer.Resid > allocationLength {
+		cmd.InSDBBuffer.Resid = allocationLength
+	}
 
 	// Skip through to byte 4, Reserved
 	for i := 0; i < 4; i++ {
@@ -449,7 +452,7 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	for _, lun := range luns {
-		if remainLength > 0 {
+		if remainLength >= 8 {
 			if lun > 0xff {
 				lun = (0x01 << 30) | (0x3fff&lun)<<16
 			} else {
-- 
2.43.0


From 44950a43a6506221fa97a0e53d1965ec857d35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 49/83] fix: a LUN above 255 does not stand for the LUN of its
 low byte

---
 pkg/port/iscsit/cmd.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 92f0688..b80f242 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -219,6 +219,16 @@ func ParseUint(data []byte) uint64 {
 	return out
 }
 
+// parseLUN returns the LUN in little-endian order. Peripheral device addressing
+// of bus 0 and flat space addressing name a LUN, the rest none that exists.
+func parseLUN(data []byte) [8]byte {
+	lun := [8]byte{data[1], data[0] & 0x3f, data[2], data[3], data[4], data[5], data[6], data[7]}
+	if method := data[0] >> 6; method > 1 || method == 0 && data[0] != 0 {
+		lun[7] |= 0x80
+	}
+	return lun
+}
+
 func parseHeader(data []byte) (*ISCSICommand, error) {
 	if len(data) != BHS_SIZE {
 		return nil, fmt.Errorf("garbled header")
@@ -235,7 +245,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	m.StartTime = time.Now()
 	switch m.OpCode {
 	case OpSCSICmd:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpectedDataLen = uint32(ParseUint(data[20:24]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.Read = data[1]&0x40 == 0x40
@@ -252,14 +262,14 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		}
 		fallthrough
 	case OpSCSITaskReq:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
 	case OpSCSIOut:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.DataSN = uint32(ParseUint(data[36:40]))
 		m.BufferOffset = uint32(ParseUint(data[40:44]))
-- 
2.43.0


From 2f820a077aa02765d6c89694aa97302f2a385fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 50/83] fix: a crash while the configuration is saved loses it

---
 pkg/config/config.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index a21d3f7..f4d462d 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -183,15 +183,24 @@ func (config *Config) Save(filename string) error {
 	if err := os.MkdirAll(filepath.Dir(filename), 0700); err != nil {
 		return err
 	}
-	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
+	data, err := json.MarshalIndent(config, "", "\t")
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-	data, err := json.MarshalIndent(config, "", "\t")
+	// replace the file in one step: a crash must not leave half of it
+	f, err := os.CreateTemp(filepath.Dir(filename), filepath.Base(filename)+".tmp")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name())
+	if _, err = f.Write(data); err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		return err
 	}
-	_, err = f.Write(data)
-	return err
+	return os.Rename(f.Name(), filename)
 }
-- 
2.43.0


From d7e906a60198f2bc8bb9501650a97e441eaf70b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:22 +0000
Subject: [PATCH 51/83] fix: sense data is not cut to a length field of the CDB

The sense of a refused vendor specific command (opcodes C0h to DFh) was truncated to byte 4 of its CDB.
---
 pkg/scsi/scsi.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 691fb21..2f883ae 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -161,7 +161,6 @@ func NewSCSIDeviceOperation(fn api.CommandFunc, sa []*SCSIServiceAction, pr uint
 // BuildSenseData build sense data
 func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 	senseBuffer := &bytes.Buffer{}
-	inBufLen, ok := SCSICDBBufXLength(cmd.SCB)
 	var (
 		length      uint32 = 0xa
 		fixedFormat bool   = true
@@ -201,14 +200,6 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		}
 		length += 8
 	}
-	if ok {
-		if int64(length) > inBufLen {
-			log.Warnf("sense buffer is bigger than in buffer")
-			senseBuffer.Truncate(int(inBufLen))
-		}
-	} else {
-		log.Debugf("cannot calc cbd alloc length. truncate failed")
-	}
 	cmd.Result = key
 	cmd.SenseBuffer = &api.SenseBuffer{senseBuffer.Bytes(), length}
 }
-- 
2.43.0


From 98906e8fe04c024caa57898c76827ae3ff3e37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 52/83] fix: MODE SENSE reports the capacity after a resize

---
 pkg/scsi/sbc.go | 9 +++++++--
 pkg/scsi/spc.go | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 76acd68..9cd0cb9 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -117,12 +117,17 @@ func (sbc SBCSCSIDeviceProtocol) InitLu(lu *api.SCSILu) error {
 	// Informational Exceptions Control page
 	pages = append(pages, api.ModePage{0x1c, 0, 10, []byte{8, 0, 0, 0, 0, 0, 0, 0, 0, 0}})
 	lu.ModePages = pages
+	lu.ModeBlockDescriptor = modeBlockDescriptor(lu)
+	return nil
+}
+
+// modeBlockDescriptor describes the current capacity of the LU.
+func modeBlockDescriptor(lu *api.SCSILu) []byte {
 	mbd := util.MarshalUint32(uint32(0xffffffff))
 	if size := lu.Size >> lu.BlockShift; size>>32 == 0 {
 		mbd = util.MarshalUint32(uint32(size))
 	}
-	lu.ModeBlockDescriptor = append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
-	return nil
+	return append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
 }
 
 func (sbc SBCSCSIDeviceProtocol) ConfigLu(lu *api.SCSILu) error {
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 1dd8f53..9de9f13 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -597,7 +597,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 	if dbd == 0 {
-		data = append(data, cmd.Device.ModeBlockDescriptor...)
+		data = append(data, modeBlockDescriptor(cmd.Device)...)
 	}
 	if pcode == 0x3f {
 		for _, pg := range cmd.Device.ModePages {
-- 
2.43.0


From b35cac17e20afc083bee99907eb011a2ec84a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 53/83] fix: no data is sent when a command has none to return

A zero allocation length, or a zero transfer length, returned the whole buffer the initiator had
announced, filled with zeros.
---
 pkg/port/iscsit/conn.go  | 2 +-
 pkg/scsi/backingstore.go | 2 +-
 pkg/scsi/spc.go          | 4 ++++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 23978f3..fb7e5aa 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -191,7 +191,7 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		} else if scmd.Direction == api.SCSIDataRead || scmd.Direction == api.SCSIDataWrite {
 			if scmd.InSDBBuffer != nil {
 				conn.resp.Resid = scmd.InSDBBuffer.Resid
-				if conn.resp.Resid != 0 && conn.resp.Resid < scmd.InSDBBuffer.Length {
+				if conn.resp.Resid < scmd.InSDBBuffer.Length {
 					conn.resp.RawData = scmd.InSDBBuffer.Buffer[:conn.resp.Resid]
 				} else {
 					conn.resp.RawData = scmd.InSDBBuffer.Buffer
diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 7b744dd..af23f77 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -161,7 +161,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if (opcode != api.READ_6) && (scb[1]&0x10 != 0) {
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
 		}
-		cmd.InSDBBuffer.Resid = uint32(length)
+		cmd.InSDBBuffer.Resid = uint32(tl)
 		copy(cmd.InSDBBuffer.Buffer, rbuf)
 	case api.PRE_FETCH_10, api.PRE_FETCH_16:
 		err = bs.DataAdvise(int64(offset), tl, util.POSIX_FADV_WILLNEED)
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 9de9f13..b457504 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -729,7 +729,11 @@ func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
 		}
 	}
 	copy(data, util.MarshalUint32(uint32(len(data)-4)))
+	if allocLen := util.GetUnalignedUint32(cmd.SCB[6:10]); uint32(len(data)) > allocLen {
+		data = data[:allocLen]
+	}
 	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
 	return nil
 }
 
-- 
2.43.0


From 615d240318d99561946cfb2a0898c12b7fb55a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 54/83] fix: report the residual of a read which returns no
 data

---
 pkg/port/iscsit/cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index b80f242..70e1f83 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -372,6 +372,9 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	}
 	log.Debugf("resid: %v, ExpectedDataLen: %v", m.Resid, m.ExpectedDataLen)
 	residFlag, resid := m.residual()
+	if m.Resid == 0 && m.ExpectedDataLen != 0 {
+		residFlag, resid = 0x02, m.ExpectedDataLen
+	}
 	flag |= residFlag
 	buf[1] = flag
 	//buf.WriteByte(0x00)
-- 
2.43.0


From 9065ce67c0951dd85eee3f5b00959b4b8635e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 55/83] fix: changeable mode page values have the length of the
 page

---
 pkg/scsi/spc.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index b457504..2fa539c 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -551,6 +551,18 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 	return api.SAMStatGood
 }
 
+// modePageValues returns the parameters of a mode page: the changeable ones follow
+// the current ones, and where they are not given none can be changed.
+func modePageValues(pg *api.ModePage, pctrl byte) []byte {
+	values := make([]byte, pg.Size)
+	if pctrl == 1 {
+		copy(values, pg.Data[pg.Size:])
+	} else {
+		copy(values, pg.Data)
+	}
+	return values
+}
+
 /*
  * SPCModeSense Implement SCSI MODE SENSE(6) and MODE SENSE(10) command
  * The MODE SENSE command requests the device server to return the specified medium,
@@ -600,7 +612,8 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		data = append(data, modeBlockDescriptor(cmd.Device)...)
 	}
 	if pcode == 0x3f {
-		for _, pg := range cmd.Device.ModePages {
+		for i := range cmd.Device.ModePages {
+			pg := &cmd.Device.ModePages[i]
 			if pg.SubPageCode == 0 {
 				data = append(data, pg.PageCode)
 				data = append(data, pg.Size)
@@ -610,11 +623,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 				data = append(data, (pg.Size>>8)&0xff)
 				data = append(data, pg.Size&0xff)
 			}
-			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
-			} else {
-				data = append(data, pg.Data[:pg.Size]...)
-			}
+			data = append(data, modePageValues(pg, pctrl)...)
 		}
 	} else {
 		var pg *api.ModePage
@@ -630,21 +639,13 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		if pg.SubPageCode == 0 {
 			data = append(data, pg.PageCode)
 			data = append(data, pg.Size)
-			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
-			} else {
-				data = append(data, pg.Data[:pg.Size]...)
-			}
+			data = append(data, modePageValues(pg, pctrl)...)
 		} else {
 			data = append(data, pg.PageCode|0x40)
 			data = append(data, pg.SubPageCode)
 			data = append(data, (pg.Size>>8)&0xff)
 			data = append(data, pg.Size&0xff)
-			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
-			} else {
-				data = append(data, pg.Data[:pg.Size]...)
-			}
+			data = append(data, modePageValues(pg, pctrl)...)
 		}
 	}
 	if mode6 {
-- 
2.43.0


From 793ba1abe4b73a75d744654da84719fc7292a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 56/83] fix: READ CAPACITY(10) into a short buffer returns the
 first bytes of the answer

---
 pkg/scsi/sbc.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 9cd0cb9..be50a05 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -530,6 +530,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc    = ASC_LUN_NOT_SUPPORTED
 		bshift = cmd.Device.BlockShift
 		size   = cmd.Device.Size >> bshift
+		data   []byte
 	)
 
 	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
@@ -543,20 +544,16 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if cmd.InSDBBuffer.Length < 8 {
-		goto overflow
-	}
-
 	// data[0] = (size >> 32) ? __cpu_to_be32(0xffffffff) : __cpu_to_be32(size - 1);
 	if size>>32 != 0 {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(0xffffffff)))
+		data = util.MarshalUint32(uint32(0xffffffff))
 	} else {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(size-1)))
+		data = util.MarshalUint32(uint32(size - 1))
 	}
 
 	// data[1] = __cpu_to_be32(1U << bshift);
-	copy(cmd.InSDBBuffer.Buffer[4:], util.MarshalUint32(uint32(1<<bshift)))
-overflow:
+	data = append(data, util.MarshalUint32(uint32(1<<bshift))...)
+	copy(cmd.InSDBBuffer.Buffer, data)
 	cmd.InSDBBuffer.Resid = 8
 	return api.SAMStatGood
 sense:
-- 
2.43.0


From 3a6aba4a025fefc9f9f8316c34d5be3eff199337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 57/83] fix: a refused bidirectional command ends with CHECK
 CONDITION and uses its CmdSN

BuildSenseData stores the sense key in the result, which went out as SCSI
status 05h, and the session waited for the CmdSN of the refused command.
---
 pkg/port/iscsit/iscsid.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 177bef4..41ef6e3 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -802,8 +802,9 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: scmd}
 		task.scmd.OpCode = conn.req.SCSIOpCode
 		if scmd.Direction == api.SCSIDataBidirection {
-			task.scmd.Result = api.SAMStatCheckCondition.Stat
 			scsi.BuildSenseData(task.scmd, scsi.ILLEGAL_REQUEST, scsi.NO_ADDITIONAL_SENSE)
+			task.scmd.Result = api.SAMStatCheckCondition.Stat
+			conn.acceptCmdSN(req)
 			conn.buildRespPackage(OpSCSIResp, task)
 			conn.rxTask = nil
 			break
-- 
2.43.0


From 72d7e2a2bd925ddef1646e892760d87888972698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 58/83] fix: the command window is not the data segment length
 of the initiator

ISCSI_PARAM_MAX_QUEUE_CMD repeated the value of ISCSI_PARAM_MAX_XMIT_DLENGTH,
so that both parameters shared one slot, initialised to either default.
---
 pkg/port/iscsit/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index f7f0824..2f86e25 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -71,9 +71,9 @@ const (
 	/* "local" parmas, never sent to the initiator */
 	ISCSI_PARAM_FIRST_LOCAL
 	ISCSI_PARAM_MAX_XMIT_DLENGTH = ISCSI_PARAM_FIRST_LOCAL
-	ISCSI_PARAM_MAX_QUEUE_CMD
+	ISCSI_PARAM_MAX_QUEUE_CMD    = ISCSI_PARAM_FIRST_LOCAL + 1
 	/* must always be last */
-	ISCSI_PARAM_MAX
+	ISCSI_PARAM_MAX = ISCSI_PARAM_FIRST_LOCAL + 2
 )
 
 type ISCSISessionParam struct {
-- 
2.43.0


From 64d1c14038aeb6cd386b39a9acbe10c62ae2d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 59/83] fix: reject a Login request in the full feature phase
 of a discovery session

---
 pkg/port/iscsit/iscsid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 41ef6e3..e8aa93c 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -434,6 +434,11 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 		switch conn.req.OpCode {
 		case OpLoginReq:
 			log.Debug("OpLoginReq")
+			if conn.state == CONN_STATE_FULL {
+				// a discovery session in full feature phase
+				iscsiExecReject(conn)
+				break
+			}
 			if err := s.iscsiExecLogin(conn); err != nil {
 				log.Error(err)
 				log.Warningf("set connection to close")
-- 
2.43.0


From 0c5f0b4d85d86843dc4407600044674dce0576e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 60/83] fix: keep reading after a command with data that
 arrives ahead of its CmdSN

---
 pkg/port/iscsit/iscsid.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index e8aa93c..3992ee7 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -872,6 +872,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		conn.rxTask = task
 		if err = s.iscsiTaskQueueHandler(task); err != nil {
 			if task.state == taskPending {
+				conn.rxIOState = IOSTATE_RX_BHS
 				s.handler(DATAIN, conn)
 				err = nil
 			}
-- 
2.43.0


From 16a45a066d25ffc1b570be2960c3d71265710a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 61/83] fix: send a SendTargets answer in PDUs the initiator
 can take

---
 pkg/port/iscsit/cmd.go    | 10 +++++++++-
 pkg/port/iscsit/conn.go   |  3 +++
 pkg/port/iscsit/iscsid.go | 15 ++++++++++++++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 70e1f83..98f21f0 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -119,6 +119,8 @@ type ISCSICommand struct {
 	ISID uint64
 	// Target-assigned Session Identifying Handle.
 	TSIH uint16
+	// Target Transfer Tag of a request.
+	TransferTag uint32
 	// Status serial number.
 	StatSN uint32
 
@@ -285,6 +287,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		m.ISID = uint64(ParseUint(data[8:14]))
 		m.TSIH = uint16(ParseUint(data[14:16]))
 		m.ConnID = uint16(ParseUint(data[20:22]))
+		m.TransferTag = uint32(ParseUint(data[20:24]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 	case OpLoginResp:
@@ -422,8 +425,13 @@ func (m *ISCSICommand) textRespBytes() []byte {
 		buf.WriteByte(0x00)
 	}
 	buf.Write(util.MarshalUint64(uint64(m.TaskTag))[4:])
+	// a target transfer tag only where more of the answer follows
 	for i := 0; i < 4; i++ {
-		buf.WriteByte(0xff)
+		if m.Cont {
+			buf.WriteByte(0x00)
+		} else {
+			buf.WriteByte(0xff)
+		}
 	}
 	buf.Write(util.MarshalUint64(uint64(m.StatSN))[4:])
 	buf.Write(util.MarshalUint64(uint64(m.ExpCmdSN))[4:])
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index fb7e5aa..568d29a 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -86,6 +86,9 @@ type iscsiConnection struct {
 	rxTask *iscsiTask
 	txTask *iscsiTask
 
+	// textRest is what the initiator has not got yet of the answer to a Text request
+	textRest []byte
+
 	readLock *sync.RWMutex
 }
 
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 3992ee7..fd4843d 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -607,7 +607,20 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 		MaxCmdSN: conn.session.ExpCmdSN + conn.session.MaxQueueCommand,
 	}
 	conn.statSN += 1
-	conn.resp.RawData = util.MarshalKVText(result)
+	data := util.MarshalKVText(result)
+	if cmd.TransferTag != 0xffffffff && len(conn.textRest) != 0 {
+		// the initiator asks for the rest of the last answer
+		data = conn.textRest
+	}
+	conn.textRest = nil
+	if limit := int(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value); limit >= 512 && len(data) > limit {
+		// more than the initiator takes in one PDU
+		conn.textRest = data[limit:]
+		data = data[:limit:limit]
+		conn.resp.Final = false
+		conn.resp.Cont = true
+	}
+	conn.resp.RawData = data
 	return nil
 }
 
-- 
2.43.0


From 2b02cde98cfe7c73f72c2a979319648badf2ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:36 +0000
Subject: [PATCH 62/83] fix: ORWRITE loses what another session writes between
 its read and its write

---
 pkg/api/types.go         |  3 +++
 pkg/scsi/backingstore.go | 10 ++++++++++
 pkg/scsi/sbc.go          |  2 ++
 3 files changed, 15 insertions(+)

diff --git a/pkg/api/types.go b/pkg/api/types.go
index 2ff662b..f0da9f8 100644
--- a/pkg/api/types.go
+++ b/pkg/api/types.go
@@ -400,6 +400,9 @@ type SCSILu struct {
 	SCSIVendorID        string
 	SCSIProductID       string
 	SCSIID              string
+	// held while writing: shared by plain writes, exclusive for a write which
+	// depends on what it replaces
+	WriteMutex sync.RWMutex
 
 	PerformCommand CommandFunc
 	FinishCommand  func(*SCSITarget, *SCSICommand)
diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index af23f77..8d4dc3f 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -67,6 +67,16 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	key = HARDWARE_ERROR
 	asc = ASC_INTERNAL_TGT_FAILURE
 	switch opcode {
+	case api.ORWRITE_16:
+		// reads, merges and writes without another write in between
+		lu.WriteMutex.Lock()
+		defer lu.WriteMutex.Unlock()
+	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16, api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16,
+		api.WRITE_SAME, api.WRITE_SAME_16:
+		lu.WriteMutex.RLock()
+		defer lu.WriteMutex.RUnlock()
+	}
+	switch opcode {
 	case api.ORWRITE_16:
 		tmpbuf := []byte{}
 		if cmd.OutSDBBuffer != nil {
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index be50a05..2b67569 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -343,6 +343,8 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatGood
 	}
 
+	cmd.Device.WriteMutex.RLock()
+	defer cmd.Device.WriteMutex.RUnlock()
 	if err := cmd.Device.Storage.Unmap(blockDescs); err != nil {
 		BuildSenseData(cmd, MEDIUM_ERROR, NO_ADDITIONAL_SENSE)
 		return api.SAMStatCheckCondition
-- 
2.43.0


From 6f14ad2cf40ef3af87b893dab643d315bd474b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:31 +0000
Subject: [PATCH 63/83] fix: a write of a reinstated session takes effect after
 those of the new one

---
 pkg/port/iscsit/conn.go    | 8 ++++++++
 pkg/port/iscsit/session.go | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 568d29a..0cb96be 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -146,6 +146,14 @@ func (c *iscsiConnection) close() {
 	c.conn.Close()
 }
 
+// terminate closes the connection and waits until the request it is busy with
+// has no effect any more.
+func (c *iscsiConnection) terminate() {
+	c.close()
+	c.readLock.Lock()
+	c.readLock.Unlock()
+}
+
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
 	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
 	conn.txIOState = IOSTATE_TX_BHS
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 2f86e25..52d01ff 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -533,7 +533,7 @@ func (sess *ISCSISession) takeOver(old, conn *iscsiConnection) bool {
 	}
 	sess.Connections[conn.cid] = conn
 	sess.ConnectionsRWMutex.Unlock()
-	old.close()
+	old.terminate()
 	// the tasks of the old connection are terminated
 	sess.PendingTasksMutex.Lock()
 	sess.PendingTasks = taskQueue{}
@@ -558,7 +558,7 @@ func (s *ISCSITargetDriver) ReInstatement(existSess *ISCSISession, conn *iscsiCo
 		s.ReleaseTSIH(existSess.TSIH)
 	}
 	for _, tmpConn := range connections {
-		tmpConn.close()
+		tmpConn.terminate()
 	}
 	return newSess, nil
 }
-- 
2.43.0


From dfa60ca256486646055e5e48b76aa473e871eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 64/83] fix: targets added at run time race with logins,
 discoveries and each other

---
 pkg/port/iscsit/iscsid.go  | 16 +++++++++++++++-
 pkg/port/iscsit/session.go |  7 +++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index fd4843d..9332c99 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -54,6 +54,7 @@ type ISCSITargetDriver struct {
 	SCSI                   *scsi.SCSITargetService
 	Name                   string
 	iSCSITargets           map[string]*ISCSITarget
+	targetsMutex           sync.RWMutex
 	TSIHPool               map[uint16]bool
 	TSIHPoolMutex          sync.Mutex
 	bindMutex              sync.Mutex
@@ -110,6 +111,9 @@ func (s *ISCSITargetDriver) ReleaseTSIH(tsih uint16) {
 }
 
 func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config) error {
+	// logins and discoveries see the target with all its portals or not at all
+	s.targetsMutex.Lock()
+	defer s.targetsMutex.Unlock()
 	if _, ok := s.iSCSITargets[tgtName]; ok {
 		return fmt.Errorf("target name has been existed")
 	}
@@ -130,7 +134,7 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 			found := false
 			for _, portal := range configInfo.ISCSIPortals {
 				if uint64(portal.ID) == portalID {
-					s.AddiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+					s.addiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
 					found = true
 				}
 			}
@@ -155,6 +159,12 @@ func (s *ISCSITargetDriver) RereadTargetLUNMap() {
 }
 
 func (s *ISCSITargetDriver) AddiSCSIPortal(tgtName string, tpgt uint16, portal string) error {
+	s.targetsMutex.Lock()
+	defer s.targetsMutex.Unlock()
+	return s.addiSCSIPortal(tgtName, tpgt, portal)
+}
+
+func (s *ISCSITargetDriver) addiSCSIPortal(tgtName string, tpgt uint16, portal string) error {
 	var (
 		ok       bool
 		target   *ISCSITarget
@@ -186,6 +196,8 @@ func (s *ISCSITargetDriver) HasPortal(tgtName string, tpgt uint16, portal string
 		tpgtInfo *iSCSITPGT
 	)
 
+	s.targetsMutex.RLock()
+	defer s.targetsMutex.RUnlock()
 	if target, ok = s.iSCSITargets[tgtName]; !ok {
 		return false
 	}
@@ -565,6 +577,7 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 			// the target of the session
 			st = conn.session.Target.SCSITarget.Name
 		}
+		s.targetsMutex.RLock()
 		for name, tgt := range s.iSCSITargets {
 			if st == "All" || st == name {
 				log.Debugf("iscsi target: %v", name)
@@ -595,6 +608,7 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 				}
 			}
 		}
+		s.targetsMutex.RUnlock()
 	}
 
 	conn.resp = &ISCSICommand{
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 52d01ff..114cd27 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -312,7 +312,9 @@ func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, i
 		sess *ISCSISession
 		ok   bool
 	)
+	s.targetsMutex.RLock()
 	tgt, ok = s.iSCSITargets[tgtName]
+	s.targetsMutex.RUnlock()
 	if !ok {
 		return nil
 	}
@@ -387,6 +389,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	if conn.loginParam.sessionType == SESSION_DISCOVERY {
 		conn.tid = 0xffff
 	} else {
+		s.targetsMutex.RLock()
 		for _, t := range s.iSCSITargets {
 			if t.SCSITarget.Name == conn.loginParam.target {
 				target = t
@@ -394,10 +397,12 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			}
 		}
 		if target == nil {
+			s.targetsMutex.RUnlock()
 			return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
 		}
 
 		tpgt, err = target.FindTPG(conn.conn.LocalAddr().String())
+		s.targetsMutex.RUnlock()
 		if err != nil {
 			return err
 		}
@@ -485,12 +490,14 @@ func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISessio
 		tsih   uint16
 	)
 
+	s.targetsMutex.RLock()
 	for _, t := range s.iSCSITargets {
 		if t.TID == conn.tid {
 			target = t
 			break
 		}
 	}
+	s.targetsMutex.RUnlock()
 	if target == nil && conn.tid != 0xffff {
 		return nil, fmt.Errorf("No target found with tid(%d)", conn.tid)
 	}
-- 
2.43.0


From b3fcf97f2b435fec01773597d3ecddefca96484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 65/83] fix: a resize races with changes of the LUN map

---
 pkg/scsi/scsi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 2f883ae..30256ab 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -69,6 +69,7 @@ func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
 func (s *SCSITargetService) Resize(size uint64) error {
 	s.mutex.Lock()
 	//TODO for multiple LUNs
+	globalSCSILUMap.mutex.RLock()
 	for _, t := range s.Targets {
 		if t.Devices != nil {
 			for i := range t.Devices {
@@ -76,6 +77,7 @@ func (s *SCSITargetService) Resize(size uint64) error {
 			}
 		}
 	}
+	globalSCSILUMap.mutex.RUnlock()
 	s.mutex.Unlock()
 	return nil
 }
-- 
2.43.0


From e669cfe0e4387d2361d9f0146242710e6c101fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 66/83] fix: a LUN mapped to no device is listed, and a resize
 crashes on it

---
 pkg/scsi/scsilumap.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 8cb66c9..6db1590 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -135,6 +135,9 @@ func DelBackendStorage(deviceID uint64) {
 func AddLUNMapping(m LUNMapping) error {
 	globalSCSILUMap.mutex.Lock()
 	defer globalSCSILUMap.mutex.Unlock()
+	if globalSCSILUMap.AllDevices[m.DeviceID] == nil {
+		return fmt.Errorf("device %d of LUN %d of %s does not exist", m.DeviceID, m.LUN, m.TargetName)
+	}
 	mappingLUN(m)
 	// Init SCSISimpleReservationOperator
 	op := GetSCSIReservationOperator()
@@ -164,7 +167,9 @@ func InitSCSILUMap(config *config.Config) error {
 				return fmt.Errorf("LU Number must be a number")
 			}
 			m := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}
-			AddLUNMapping(m)
+			if err := AddLUNMapping(m); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From cd316b4e0a37ee82b4944fe2df5a183de74479eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:51 +0000
Subject: [PATCH 67/83] fix: single-host mode admits another host while the
 first one is connected

---
 pkg/port/iscsit/iscsid.go | 61 +++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 9332c99..9538e43 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -21,7 +21,6 @@ import (
 	"net"
 	"os"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 
@@ -48,6 +47,8 @@ var (
 	EnableStats   bool
 	CurrentHostIP string
 	IPMutex       sync.Mutex
+	// the open connections of CurrentHostIP
+	currentHostConns = map[*iscsiConnection]struct{}{}
 )
 
 type ISCSITargetDriver struct {
@@ -239,27 +240,31 @@ func (s *ISCSITargetDriver) Run(port int) error {
 			continue
 		}
 
-		remoteIP := strings.Split(conn.RemoteAddr().String(), ":")[0]
+		remoteIP := hostOf(conn.RemoteAddr())
+		iscsiConn := &iscsiConnection{conn: conn,
+			loginParam: &iscsiLoginParam{}}
 
 		IPMutex.Lock()
 		if CurrentHostIP == "" {
 			CurrentHostIP = remoteIP
+			currentHostConns = map[*iscsiConnection]struct{}{}
+		}
+		currentIP := CurrentHostIP
+		if remoteIP == currentIP {
+			currentHostConns[iscsiConn] = struct{}{}
 		}
 		IPMutex.Unlock()
 
-		if s.blockMultipleHostLogin && remoteIP != CurrentHostIP {
+		if s.blockMultipleHostLogin && remoteIP != currentIP {
 			conn.Close()
 			log.Infof("rejecting connection: %s target already connected at %s",
-				remoteIP, CurrentHostIP)
+				remoteIP, currentIP)
 			continue
 		}
 
 		log.Info("connection establishing at: ", conn.LocalAddr().String())
 		s.setClientStatus(true)
 
-		iscsiConn := &iscsiConnection{conn: conn,
-			loginParam: &iscsiLoginParam{}}
-
 		iscsiConn.init()
 		iscsiConn.rxIOState = IOSTATE_RX_BHS
 		log.Infof("Target is connected to initiator: %s", conn.RemoteAddr().String())
@@ -304,6 +309,28 @@ func (s *ISCSITargetDriver) Resize(size uint64) error {
 	return s.SCSI.Resize(size)
 }
 
+// hostOf returns the host part of an address.
+func hostOf(addr net.Addr) string {
+	host, _, err := net.SplitHostPort(addr.String())
+	if err != nil {
+		return addr.String()
+	}
+	return host
+}
+
+// leaveHost lets other hosts in once the last connection of the current one is closed.
+func leaveHost(conn *iscsiConnection) {
+	IPMutex.Lock()
+	defer IPMutex.Unlock()
+	if _, ok := currentHostConns[conn]; !ok {
+		return
+	}
+	delete(currentHostConns, conn)
+	if len(currentHostConns) == 0 {
+		CurrentHostIP = ""
+	}
+}
+
 func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 
 	if events&DATAIN != 0 {
@@ -314,12 +341,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 				log.Warningf("iscsi connection[%d] closed", conn.cid)
 				conn.close()
 				s.closeSession(conn)
-				IPMutex.Lock()
-				remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-				if CurrentHostIP == remoteIP {
-					CurrentHostIP = ""
-				}
-				IPMutex.Unlock()
+				leaveHost(conn)
 			}
 		}()
 	}
@@ -331,12 +353,7 @@ func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 		log.Warningf("iscsi connection[%d] closed", conn.cid)
 		conn.close()
 		s.closeSession(conn)
-		IPMutex.Lock()
-		remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-		if CurrentHostIP == remoteIP {
-			CurrentHostIP = ""
-		}
-		IPMutex.Unlock()
+		leaveHost(conn)
 	}
 }
 
@@ -559,12 +576,6 @@ func iscsiExecLogout(conn *iscsiConnection) error {
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
 		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
 	}
-	IPMutex.Lock()
-	remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-	if CurrentHostIP == remoteIP {
-		CurrentHostIP = ""
-	}
-	IPMutex.Unlock()
 	return nil
 }
 
-- 
2.43.0


From 8418033b248a954ce2e838bdb6de8ec543e8a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 68/83] fix: a target with an invalid or repeated portal group
 tag, or an unknown portal, is refused without being left half registered

---
 pkg/port/iscsit/iscsid.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 9538e43..622dd9f 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -118,24 +118,24 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 	if _, ok := s.iSCSITargets[tgtName]; ok {
 		return fmt.Errorf("target name has been existed")
 	}
-	stgt, err := s.SCSI.NewSCSITarget(len(s.iSCSITargets), "iscsi", tgtName)
-	if err != nil {
-		return err
-	}
-	tgt := newISCSITarget(stgt)
-	s.iSCSITargets[tgtName] = tgt
-	scsiTPG := tgt.SCSITarget.TargetPortGroups[0]
+	// a target whose portal groups make no sense is not registered at all
 	targetConfig := configInfo.ISCSITargets[tgtName]
+	tpgts := make(map[uint16][]string)
 	for tpgt, portalIDArrary := range targetConfig.TPGTs {
-		tpgtNumber, _ := strconv.ParseUint(tpgt, 10, 16)
-		tgt.TPGTs[uint16(tpgtNumber)] = &iSCSITPGT{uint16(tpgtNumber), make(map[string]struct{})}
-		targetPortName := fmt.Sprintf("%s,t,0x%02x", tgtName, tpgtNumber)
-		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
+		n, err := strconv.ParseUint(tpgt, 10, 16)
+		if err != nil {
+			return fmt.Errorf("invalid target portal group tag: %s, in %s", tpgt, tgtName)
+		}
+		tpgtNumber := uint16(n)
+		if _, ok := tpgts[tpgtNumber]; ok {
+			return fmt.Errorf("duplicate target portal group tag: %d, in %s", tpgtNumber, tgtName)
+		}
+		tpgts[tpgtNumber] = []string{}
 		for _, portalID := range portalIDArrary {
 			found := false
 			for _, portal := range configInfo.ISCSIPortals {
 				if uint64(portal.ID) == portalID {
-					s.addiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+					tpgts[tpgtNumber] = append(tpgts[tpgtNumber], portal.Portal)
 					found = true
 				}
 			}
@@ -144,6 +144,21 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 			}
 		}
 	}
+	stgt, err := s.SCSI.NewSCSITarget(len(s.iSCSITargets), "iscsi", tgtName)
+	if err != nil {
+		return err
+	}
+	tgt := newISCSITarget(stgt)
+	s.iSCSITargets[tgtName] = tgt
+	scsiTPG := tgt.SCSITarget.TargetPortGroups[0]
+	for tpgtNumber, portals := range tpgts {
+		tgt.TPGTs[tpgtNumber] = &iSCSITPGT{tpgtNumber, make(map[string]struct{})}
+		targetPortName := fmt.Sprintf("%s,t,0x%02x", tgtName, tpgtNumber)
+		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{tpgtNumber, targetPortName})
+		for _, portal := range portals {
+			s.addiSCSIPortal(tgtName, tpgtNumber, portal)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 469bec90032da550d29d764badbc554078a17a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 69/83] fix: a storage path without a backend type is refused
 instead of crashing the service

---
 pkg/scsi/backingstore.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 8d4dc3f..d4704d1 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -41,9 +41,6 @@ func RegisterBackingStore(name string, f BackingStoreFunc) {
 }
 
 func NewBackingStore(name string) (api.BackingStore, error) {
-	if name == "" {
-		return nil, nil
-	}
 	f, ok := registeredBSPlugins[name]
 	if !ok {
 		return nil, fmt.Errorf("Backend storage %s is not found.", name)
-- 
2.43.0


From a6eb0493713d22f7492ab465a0b07166da5e33d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 70/83] fix: a LUN that cannot be addressed, or is configured
 twice, is refused

---
 pkg/scsi/scsilumap.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 6db1590..9bae016 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -132,9 +132,15 @@ func DelBackendStorage(deviceID uint64) {
 	delete(globalSCSILUMap.AllDevices, deviceID)
 }
 
+// maxLUN is the last unit the flat space addressing method can name.
+const maxLUN = 0x3fff
+
 func AddLUNMapping(m LUNMapping) error {
 	globalSCSILUMap.mutex.Lock()
 	defer globalSCSILUMap.mutex.Unlock()
+	if m.LUN > maxLUN {
+		return fmt.Errorf("LUN %d of %s cannot be addressed, the last one is %d", m.LUN, m.TargetName, maxLUN)
+	}
 	if globalSCSILUMap.AllDevices[m.DeviceID] == nil {
 		return fmt.Errorf("device %d of LUN %d of %s does not exist", m.DeviceID, m.LUN, m.TargetName)
 	}
@@ -161,11 +167,16 @@ func InitSCSILUMap(config *config.Config) error {
 	}
 
 	for tgtName, tgt := range config.ISCSITargets {
+		luns := make(map[uint64]struct{})
 		for lunstr, deviceID := range tgt.LUNs {
 			lun, err := strconv.ParseUint(lunstr, 10, 64)
 			if err != nil {
 				return fmt.Errorf("LU Number must be a number")
 			}
+			if _, ok := luns[lun]; ok {
+				return fmt.Errorf("LUN %d of %s is configured twice", lun, tgtName)
+			}
+			luns[lun] = struct{}{}
 			m := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}
 			if err := AddLUNMapping(m); err != nil {
 				return err
-- 
2.43.0


From 50c4b2b4d88e189089aafb690d272b177149ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 71/83] fix: RESERVE and RELEASE reserve a unit for one
 session, and its commands exclude the others until released

---
 pkg/port/iscsit/iscsid.go |  5 ++-
 pkg/scsi/lun.go           | 15 +++++++++
 pkg/scsi/sbc.go           | 11 +-----
 pkg/scsi/spc.go           | 12 -------
 pkg/scsi/target.go        | 71 +++++++++++++++++++++++++++++++--------
 5 files changed, 77 insertions(+), 37 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 622dd9f..f81f00f 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -931,7 +931,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			return
 		} else {
-			if scmd.Direction == api.SCSIDataRead && scmd.SenseBuffer == nil && req.ExpectedDataLen != 0 {
+			if scmd.Direction == api.SCSIDataRead && scmd.Result == api.SAMStatGood.Stat && req.ExpectedDataLen != 0 {
 				conn.buildRespPackage(OpSCSIIn, task)
 			} else {
 				conn.buildRespPackage(OpSCSIResp, task)
@@ -1119,6 +1119,9 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 			}
 			sess.PendingTasks = pending
 			sess.PendingTasksMutex.Unlock()
+			if cmd.TaskFunc == ISCSI_TM_FUNC_LOGICAL_UNIT_RESET {
+				s.SCSI.ResetLUN(sess.Target.SCSITarget.TID, cmd.LUN)
+			}
 			task.result = ISCSI_TMF_RSP_COMPLETE
 		case ISCSI_TM_FUNC_CLEAR_ACA:
 			fallthrough
diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 244b24a..306ce61 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -91,11 +91,26 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 		// TODO host := cmd.ITNexus.Host
 		host := 0
 		cmd.State = api.SCSICommandProcessed
+		if !allowedWhenReserved(cmd.SCB[0]) && reservedByOther(cmd) {
+			if cmd.InSDBBuffer != nil {
+				cmd.InSDBBuffer.Resid = 0
+			}
+			return api.SAMStatReservationConflict
+		}
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	return api.SAMStatGood
 }
 
+// allowedWhenReserved tells whether a command is performed whoever has reserved the unit (SPC-2 5.5.1).
+func allowedWhenReserved(op byte) bool {
+	switch api.SCSICommandType(op) {
+	case api.INQUIRY, api.REPORT_LUNS, api.REQUEST_SENSE, api.RELEASE, api.READ_CAPACITY:
+		return true
+	}
+	return false
+}
+
 func luPreventRemoval(lu *api.SCSILu) bool {
 	// TODO
 	return false
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 2b67569..96a5634 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -20,7 +20,6 @@ package scsi
 import (
 	"encoding/binary"
 	"fmt"
-	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -273,10 +272,6 @@ func SBCFormatUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc = ASC_INVALID_FIELD_IN_CDB
 	)
 
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
 	if !cmd.Device.Attrs.Online {
 		key = NOT_READY
 		asc = ASC_MEDIUM_NOT_PRESENT
@@ -506,11 +501,7 @@ func SBCReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SBCRelease(host int, cmd *api.SCSICommand) api.SAMStat {
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
-	if err := deviceRelease(cmd.Target.TID, cmd.ITNexusID, lun, false); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
+	deviceRelease(cmd.Device, cmd.ITNexusID, false)
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 2fa539c..dd10cba 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -479,10 +479,6 @@ func SPCStartStop(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		pwrcnd, loej, start byte
 	)
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
 	if cmd.InSDBBuffer != nil {
 		cmd.InSDBBuffer.Resid = 0
 	}
@@ -523,11 +519,6 @@ func SPCStartStop(host int, cmd *api.SCSICommand) api.SAMStat {
  * 6.47 - TEST UNIT READY
  */
 func SPCTestUnit(host int, cmd *api.SCSICommand) api.SAMStat {
-	/*
-		if err := deviceReserve(cmd); err != nil {
-			return api.SAMStatReservationConflict
-		}
-	*/
 	if cmd.Device.Attrs.Online {
 		return api.SAMStatGood
 	}
@@ -541,9 +532,6 @@ func SPCTestUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
 	// PREVENT_MASK = 0x03
 	if cmd.ITNexusLuInfo != nil {
 		cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 1496360..20c8235 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -95,29 +95,72 @@ func AddITNexus(target *api.SCSITarget, itnexus *api.ITNexus) bool {
 
 func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	target.ITNexusMutex.Lock()
-	defer target.ITNexusMutex.Unlock()
 	delete(target.ITNexus, itnexus.ID)
+	target.ITNexusMutex.Unlock()
+	// the loss of the nexus releases what it has reserved
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
+	for lu := range reservedLUs {
+		if uuid.Equal(lu.ReserveID, itnexus.ID) {
+			lu.ReserveID = uuid.Nil
+			delete(reservedLUs, lu)
+		}
+	}
 }
 
-func deviceReserve(cmd *api.SCSICommand) error {
-	var lu *api.SCSILu
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
-
-	lu = lookupDevice(cmd.Target, lun)
-	if lu == nil {
-		log.Errorf("invalid target and lun %d %d", cmd.Target.TID, lun)
-		return nil
-	}
+var (
+	// reservationMutex guards the reservations of all logical units
+	reservationMutex sync.Mutex
+	// reservedLUs are the logical units with a reservation
+	reservedLUs = make(map[*api.SCSILu]struct{})
+)
 
-	if !uuid.Equal(lu.ReserveID, uuid.Nil) && uuid.Equal(lu.ReserveID, cmd.ITNexusID) {
+func deviceReserve(cmd *api.SCSICommand) error {
+	lu := cmd.Device
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
+	if !uuid.Equal(lu.ReserveID, uuid.Nil) && !uuid.Equal(lu.ReserveID, cmd.ITNexusID) {
 		log.Errorf("already reserved %d, %d", lu.ReserveID, cmd.ITNexusID)
 		return fmt.Errorf("already reserved")
 	}
+	cmd.Target.ITNexusMutex.Lock()
+	_, ok := cmd.Target.ITNexus[cmd.ITNexusID]
+	cmd.Target.ITNexusMutex.Unlock()
+	if !ok {
+		return fmt.Errorf("the session has ended")
+	}
 	lu.ReserveID = cmd.ITNexusID
+	reservedLUs[lu] = struct{}{}
 	return nil
 }
 
-func deviceRelease(tid int, itn uuid.UUID, lun uint64, force bool) error {
-	// TODO
-	return nil
+// deviceRelease releases the reservation of the nexus, or of any one with force.
+func deviceRelease(lu *api.SCSILu, itn uuid.UUID, force bool) {
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
+	if force || uuid.Equal(lu.ReserveID, itn) {
+		lu.ReserveID = uuid.Nil
+		delete(reservedLUs, lu)
+	}
+}
+
+// reservedByOther tells whether the device is reserved by another nexus than the one of the command.
+func reservedByOther(cmd *api.SCSICommand) bool {
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
+	id := cmd.Device.ReserveID
+	return !uuid.Equal(id, uuid.Nil) && !uuid.Equal(id, cmd.ITNexusID)
+}
+
+// ResetLUN does to a logical unit of the target what a LOGICAL UNIT RESET does.
+func (s *SCSITargetService) ResetLUN(tid int, lunField [8]uint8) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	for _, t := range s.Targets {
+		if t.TID == tid {
+			if lu := lookupDevice(t, *(*uint64)(unsafe.Pointer(&lunField))); lu != nil {
+				deviceRelease(lu, uuid.Nil, true)
+			}
+		}
+	}
 }
-- 
2.43.0


From 62eabf17e462be3d1340ada5225995c0897a4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 72/83] fix: PERSISTENT RESERVE IN returns its data, as much as
 was asked for, with the lengths in it right

---
 pkg/scsi/scsi_pr.go |   5 ++
 pkg/scsi/spc.go     | 138 ++++++++++++--------------------------------
 2 files changed, 41 insertions(+), 102 deletions(-)

diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index f61ec30..b02867a 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -329,6 +329,11 @@ func (op *SCSISimpleReservationOperator) IsCurrentReservation(tgtName string, de
 	return false
 }
 
+// prAllRegistrants tells whether every registrant holds a reservation of the type.
+func prAllRegistrants(resType uint8) bool {
+	return resType == PR_TYPE_WRITE_EXCLUSIVE_ALLREG || resType == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
+}
+
 func (op *SCSISimpleReservationOperator) RemoveAllReservation(tgtName string, devUUID uint64) {
 	var (
 		LURes     *SCSILUReservation
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index dd10cba..d27e3ea 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -790,136 +790,70 @@ func SPCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		addBuf           []byte = []byte{}
-		allocationLength uint16
-		additionLength   uint32
-		l                int = 0
-	)
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
 	PRGeneration, _ := scsiResOp.GetPRGeneration(tgtName, devUUID)
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
-	if allocationLength < 8 {
-		goto sense
+	keys := []byte{}
+	for _, res := range scsiResOp.GetReservationList(tgtName, devUUID) {
+		keys = append(keys, util.MarshalUint64(res.Key)...)
 	}
+	data := append(util.MarshalUint32(PRGeneration), util.MarshalUint32(uint32(len(keys)))...)
+	return prInData(cmd, append(data, keys...))
+}
 
-	for _, res := range resList {
-		addBuf = append(addBuf, util.MarshalUint64(res.Key)...)
+// prInData returns the parameter data of PERSISTENT RESERVE IN, as far as it was asked for.
+func prInData(cmd *api.SCSICommand, data []byte) api.SAMStat {
+	allocationLength := int(util.GetUnalignedUint16(cmd.SCB[7:9]))
+	if len(data) > allocationLength {
+		data = data[:allocationLength]
 	}
-	additionLength = uint32(len(addBuf))
-
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(PRGeneration))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(additionLength))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], addBuf)
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
-	return api.SAMStatGood
-sense:
 	if cmd.InSDBBuffer != nil {
-		cmd.InSDBBuffer.Resid = 0
+		cmd.InSDBBuffer.Resid = uint32(copy(cmd.InSDBBuffer.Buffer, data))
 	}
-	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
-	return api.SAMStatCheckCondition
+	return api.SAMStatGood
 }
 
 func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		buf                     = &bytes.Buffer{}
-		data             []byte = []byte{}
-		addBuf                  = &bytes.Buffer{}
-		allocationLength uint16
-		additionLength   uint32
-	)
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
 	PRGeneration, _ := scsiResOp.GetPRGeneration(tgtName, devUUID)
 	curRes := scsiResOp.GetCurrentReservation(tgtName, devUUID)
-
-	length, _ := SCSICDBBufXLength(cmd.SCB)
-	allocationLength = uint16(length)
-	if allocationLength < 8 {
-		goto sense
-	}
-
-	if curRes == nil {
-		additionLength = 0
-	} else {
-		addBuf.Write(util.MarshalUint64(curRes.Key))
-		//Obsolete
-		addBuf.WriteByte(0x00)
-		addBuf.WriteByte(0x00)
-		addBuf.WriteByte(0x00)
-		addBuf.WriteByte(0x00)
-		//Reserved
-		addBuf.WriteByte(0x00)
-		//SCOPE and TYPE
-		scope_type := (curRes.Scope << 4) | curRes.Type
-		addBuf.WriteByte(scope_type)
-		additionLength = uint32(0x10)
-	}
-
-	buf.Write(util.MarshalUint32(PRGeneration))
-	buf.Write(util.MarshalUint32(additionLength))
-	buf.Write(addBuf.Bytes())
-	data = buf.Bytes()
-	if allocationLength < uint16(additionLength) {
-		copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-	} else {
-		copy(cmd.InSDBBuffer.Buffer, data)
-	}
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
-	return api.SAMStatGood
-
-sense:
-	if cmd.InSDBBuffer != nil {
-		cmd.InSDBBuffer.Resid = 0
+	desc := []byte{}
+	if curRes != nil {
+		key := curRes.Key
+		if prAllRegistrants(curRes.Type) {
+			// no single registrant holds it
+			key = 0
+		}
+		desc = append(desc, util.MarshalUint64(key)...)
+		// obsolete, reserved, scope and type, obsolete
+		desc = append(desc, 0, 0, 0, 0, 0, curRes.Scope<<4|curRes.Type, 0, 0)
 	}
-	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
-	return api.SAMStatCheckCondition
+	data := append(util.MarshalUint32(PRGeneration), util.MarshalUint32(uint32(len(desc)))...)
+	return prInData(cmd, append(data, desc...))
 }
 
 func SPCPRReportCapabilities(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		availLength  uint32 = 8
-		actualLength uint32 = 0
-	)
-	allocationLength := uint32(util.GetUnalignedUint16(cmd.SCB[7:9]))
-	if allocationLength < 8 {
-		goto sense
-	}
-	if cmd.InSDBBuffer.Length < allocationLength {
-		goto sense
-	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint16(uint16(8)))
+	data := make([]byte, 8)
+	copy(data, util.MarshalUint16(uint16(len(data))))
 	// Persistent Reservation Type Mask format
 	// Type Mask Valid (TMV)
-	cmd.InSDBBuffer.Buffer[3] |= 0x80
-	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[4] |= 0x80
+	data[3] |= 0x80
+	// PR_TYPE_WRITE_EXCLUSIVE_ALLREG
+	data[4] |= 0x80
 	// PR_TYPE_EXCLUSIVE_ACCESS_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x40
+	data[4] |= 0x40
 	// PR_TYPE_WRITE_EXCLUSIVE_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x20
+	data[4] |= 0x20
 	// PR_TYPE_EXCLUSIVE_ACCESS
-	cmd.InSDBBuffer.Buffer[4] |= 0x08
+	data[4] |= 0x08
 	// PR_TYPE_WRITE_EXCLUSIVE
-	cmd.InSDBBuffer.Buffer[4] |= 0x02
+	data[4] |= 0x02
 	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[5] |= 0x01
-
-	actualLength = availLength
-	cmd.InSDBBuffer.Resid = uint32(actualLength)
-	return api.SAMStatGood
-sense:
-	if cmd.InSDBBuffer != nil {
-		cmd.InSDBBuffer.Resid = 0
-	}
-	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
-	return api.SAMStatCheckCondition
+	data[5] |= 0x01
+	return prInData(cmd, data)
 }
 
 func reservationCheck(host int, cmd *api.SCSICommand) bool {
-- 
2.43.0


From 0a0e332c545581f0934a6b0d06a0a1e0685e87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 73/83] fix: PERSISTENT RESERVE OUT registers, reserves,
 releases, clears and preempts as SPC lays down, for an initiator port instead
 of a session

---
 pkg/scsi/scsi_pr.go | 111 ++---------
 pkg/scsi/spc.go     | 445 ++++++++++++++------------------------------
 2 files changed, 157 insertions(+), 399 deletions(-)

diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index b02867a..6a77f98 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -188,100 +188,34 @@ func (op *SCSISimpleReservationOperator) GetReservationList(tgtName string, devU
 }
 
 func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName string, devUUID uint64, res *api.SCSIReservation) {
-	var (
-		i         int = -1
-		ok        bool
-		tmpRes    *api.SCSIReservation
-		LURes     *SCSILUReservation
-		targetRes SCSILUReservationMap
-	)
-	if targetRes, ok = op.targetReservations[tgtName]; !ok {
-		return
-	}
-	if LURes, ok = targetRes[devUUID]; !ok {
-		return
-	}
-
-	resArray := LURes.Reservations
-	curRes := LURes.CurrentReservation
-
-	for i, tmpRes = range resArray {
-		if tmpRes == res {
-			break
-		}
-	}
-
-	if i >= 0 {
-		resArray[i] = resArray[len(resArray)-1]
-		resArray[len(resArray)-1] = nil
-		resArray = resArray[:len(resArray)-1]
-		LURes.Reservations = resArray
-	}
-
-	if curRes == nil {
-		return
-	}
-
-	if !op.IsCurrentReservation(tgtName, devUUID, res) {
+	op.RemoveReservation(tgtName, devUUID, res)
+	curRes := op.GetCurrentReservation(tgtName, devUUID)
+	if curRes != res || res == nil {
 		return
 	}
-
-	if (curRes.Type != PR_TYPE_WRITE_EXCLUSIVE_ALLREG &&
-		curRes.Type != PR_TYPE_EXCLUSIVE_ACCESS_ALLREG) ||
-		len(resArray) == 0 {
-		curRes.Scope = 0
-		curRes.Type = 0
-		LURes.CurrentReservation = nil
-		for i, tmpRes = range resArray {
-			if tmpRes == res {
-				continue
-			}
-			//TODO send sense code
-		}
-		LURes.PRGeneration++
-	} else {
-		for i, tmpRes = range resArray {
-			if tmpRes != res {
-				//kep scope and type
-				LURes.CurrentReservation = tmpRes
-				tmpRes.Scope = curRes.Scope
-				tmpRes.Type = curRes.Type
-				break
-			}
-		}
-		LURes.PRGeneration++
+	// the reservation ends with its holder, unless other registrants hold it as well
+	op.SetCurrentReservation(tgtName, devUUID, nil)
+	if resArray := op.GetReservationList(tgtName, devUUID); prAllRegistrants(curRes.Type) && len(resArray) > 0 {
+		resArray[0].Scope = curRes.Scope
+		resArray[0].Type = curRes.Type
+		op.SetCurrentReservation(tgtName, devUUID, resArray[0])
 	}
-
+	//TODO send sense code
+	curRes.Scope = 0
+	curRes.Type = 0
 }
 
 func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUUID uint64, res *api.SCSIReservation) {
-	var (
-		LURes     *SCSILUReservation
-		targetRes SCSILUReservationMap
-		tmpRes    *api.SCSIReservation
-		i         int = -1
-		ok        bool
-	)
-	if targetRes, ok = op.targetReservations[tgtName]; !ok {
+	LURes, ok := op.targetReservations[tgtName][devUUID]
+	if !ok {
 		return
 	}
-	if LURes, ok = targetRes[devUUID]; !ok {
-		return
-	}
-	resArray := LURes.Reservations
-
-	for i, tmpRes = range resArray {
+	for i, tmpRes := range LURes.Reservations {
 		if tmpRes == res {
-			break
+			LURes.Reservations = append(append([]*api.SCSIReservation{}, LURes.Reservations[:i]...), LURes.Reservations[i+1:]...)
+			return
 		}
 	}
-
-	if i >= 0 {
-		resArray[i] = resArray[len(resArray)-1]
-		resArray[len(resArray)-1] = nil
-		resArray = resArray[:len(resArray)-1]
-		LURes.Reservations = resArray
-	}
 }
 
 func (op *SCSISimpleReservationOperator) AddReservation(tgtName string, devUUID uint64, res *api.SCSIReservation) bool {
@@ -317,16 +251,7 @@ func (op *SCSISimpleReservationOperator) IsCurrentReservation(tgtName string, de
 	if curRes == nil {
 		return false
 	}
-	if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
-		curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
-		return true
-	}
-
-	if curRes == res {
-		return true
-	}
-
-	return false
+	return curRes == res || prAllRegistrants(curRes.Type)
 }
 
 // prAllRegistrants tells whether every registrant holds a reservation of the type.
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index d27e3ea..8224124 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -856,397 +856,224 @@ func SPCPRReportCapabilities(host int, cmd *api.SCSICommand) api.SAMStat {
 	return prInData(cmd, data)
 }
 
-func reservationCheck(host int, cmd *api.SCSICommand) bool {
-	var (
-		paramLen uint32
-		buf      []byte = cmd.OutSDBBuffer.Buffer
-	)
-	length, _ := SCSICDBBufXLength(cmd.SCB)
-	paramLen = uint32(length)
-	if paramLen != 24 {
-		return false
-	}
-	spec_i_pt := uint8(buf[20] & 0x08)
-	all_tg_pt := uint8(buf[20] & 0x04)
-	aptpl := uint8(buf[20] & 0x01)
-	/* Currently, We don't support these flags */
-	if (spec_i_pt | all_tg_pt | aptpl) > 0 {
-		return false
-	}
-	return true
+// prOutParams are the parameters of PERSISTENT RESERVE OUT.
+type prOutParams struct {
+	key, saKey   uint64
+	scope, rtype uint8
 }
 
-func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		buf       []byte = cmd.OutSDBBuffer.Buffer
-		scb       []byte = cmd.SCB
-		ignoreKey bool   = false
-		ok        bool   = false
-		resKey    uint64
-		sAResKey  uint64
-	)
-
-	tgtName := cmd.Target.Name
-	devUUID := cmd.Device.UUID
-	scsiResOp := GetSCSIReservationOperator()
-	res := scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-
-	if scb[1] == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
-		ignoreKey = true
+func parsePROut(cmd *api.SCSICommand) (p prOutParams, ok bool) {
+	if _, ok := GetSCSIReservationOperator().GetPRGeneration(cmd.Target.Name, cmd.Device.UUID); !ok {
+		return p, false
 	}
-	ok = reservationCheck(host, cmd)
-	if !ok {
-		goto sense
+	if cmd.OutSDBBuffer == nil || len(cmd.OutSDBBuffer.Buffer) < 24 || util.GetUnalignedUint32(cmd.SCB[5:9]) != 24 {
+		return p, false
 	}
-	resKey = util.GetUnalignedUint64(buf[0:8])
-	sAResKey = util.GetUnalignedUint64(buf[8:16])
+	buf := cmd.OutSDBBuffer.Buffer
+	// SPEC_I_PT, ALL_TG_PT and APTPL are not supported
+	if buf[20]&0x0d != 0 {
+		return p, false
+	}
+	p.key = util.GetUnalignedUint64(buf[0:8])
+	p.saKey = util.GetUnalignedUint64(buf[8:16])
+	p.scope = cmd.SCB[2] >> 4
+	p.rtype = cmd.SCB[2] & 0x0f
+	return p, true
+}
 
-	if res != nil {
-		if ignoreKey || resKey == res.Key {
-			if sAResKey != 0 {
-				res.Key = sAResKey
-			} else {
-				scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, res)
-			}
-		} else {
-			return api.SAMStatReservationConflict
-		}
-	} else {
-		if ignoreKey || resKey == 0 {
-			if sAResKey != 0 {
-				newRes := &api.SCSIReservation{
-					ID:        uuid.NewV1(),
-					Key:       sAResKey,
-					ITNexusID: cmd.ITNexusID,
-				}
-				scsiResOp.AddReservation(tgtName, devUUID, newRes)
-			}
-		} else {
-			return api.SAMStatReservationConflict
-		}
+// validReservation tells whether a reservation of this scope and type can be made.
+func (p prOutParams) validReservation() bool {
+	switch p.rtype {
+	case PR_TYPE_WRITE_EXCLUSIVE,
+		PR_TYPE_EXCLUSIVE_ACCESS,
+		PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
+		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
+		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
+		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
+		return p.scope == PR_LU_SCOPE
 	}
-	scsiResOp.IncPRGeneration(tgtName, devUUID)
-	scsiResOp.Save(tgtName, devUUID)
-	return api.SAMStatGood
+	return false
+}
 
-sense:
+func prOutSense(cmd *api.SCSICommand, asc SCSISubError) api.SAMStat {
 	if cmd.InSDBBuffer != nil {
 		cmd.InSDBBuffer.Resid = 0
 	}
-	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+	BuildSenseData(cmd, ILLEGAL_REQUEST, asc)
 	return api.SAMStatCheckCondition
 }
 
-func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		scb      []byte = cmd.SCB
-		curRes   *api.SCSIReservation
-		res      *api.SCSIReservation
-		ok       bool = false
-		resScope uint8
-		resType  uint8
-	)
+// registrantID identifies the initiator port and target port of a command: other than the
+// nexus of the session, it is the same in the next session between them.
+func registrantID(cmd *api.SCSICommand) uuid.UUID {
+	if cmd.ITNexus == nil {
+		return cmd.ITNexusID
+	}
+	return uuid.NewV5(uuid.NamespaceOID, cmd.ITNexus.Tag)
+}
 
+func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-
-	ok = reservationCheck(host, cmd)
+	p, ok := parsePROut(cmd)
 	if !ok {
-		goto sense
+		return prOutSense(cmd, ASC_INVALID_FIELD_IN_CDB)
 	}
-
-	resScope = scb[2] & 0xf0 >> 4
-	resType = scb[2] & 0x0f
-
-	switch resType {
-	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
-		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
-		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
-		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
-		break
-	default:
-		goto sense
+	id := registrantID(cmd)
+	res := scsiResOp.GetReservation(tgtName, devUUID, id)
+	if cmd.SCB[1]&0x1f != PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
+		if res != nil && p.key != res.Key || res == nil && p.key != 0 {
+			return api.SAMStatReservationConflict
+		}
 	}
-	if resScope != PR_LU_SCOPE {
-		goto sense
+	switch {
+	case res != nil && p.saKey != 0:
+		res.Key = p.saKey
+	case res != nil:
+		scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, res)
+	case p.saKey != 0:
+		scsiResOp.AddReservation(tgtName, devUUID, &api.SCSIReservation{
+			ID:        uuid.NewV1(),
+			Key:       p.saKey,
+			ITNexusID: id,
+		})
 	}
+	scsiResOp.IncPRGeneration(tgtName, devUUID)
+	scsiResOp.Save(tgtName, devUUID)
+	return api.SAMStatGood
+}
 
-	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
+	tgtName := cmd.Target.Name
+	devUUID := cmd.Device.UUID
+	scsiResOp := GetSCSIReservationOperator()
+	p, ok := parsePROut(cmd)
+	if !ok || !p.validReservation() {
+		return prOutSense(cmd, ASC_INVALID_FIELD_IN_CDB)
+	}
+	res := scsiResOp.GetReservation(tgtName, devUUID, registrantID(cmd))
+	if res == nil || res.Key != p.key {
 		return api.SAMStatReservationConflict
 	}
-
-	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
-	if curRes != nil {
-		if !scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
-			return api.SAMStatReservationConflict
-		}
-
-		if curRes.Type != resType ||
-			curRes.Scope != resScope {
+	if curRes := scsiResOp.GetCurrentReservation(tgtName, devUUID); curRes != nil {
+		if !scsiResOp.IsCurrentReservation(tgtName, devUUID, res) || curRes.Type != p.rtype || curRes.Scope != p.scope {
 			return api.SAMStatReservationConflict
 		}
+		return api.SAMStatGood
 	}
-	res.Scope = resScope
-	res.Type = resType
+	res.Scope = p.scope
+	res.Type = p.rtype
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
-sense:
-	if cmd.InSDBBuffer != nil {
-		cmd.InSDBBuffer.Resid = 0
-	}
-	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
-	return api.SAMStatCheckCondition
 }
 
 func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		buf      []byte = cmd.OutSDBBuffer.Buffer
-		scb      []byte = cmd.SCB
-		curRes   *api.SCSIReservation
-		res      *api.SCSIReservation
-		resList  []*api.SCSIReservation
-		ok       bool = false
-		resKey   uint64
-		resScope uint8
-		resType  uint8
-	)
-
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-
-	ok = reservationCheck(host, cmd)
+	p, ok := parsePROut(cmd)
 	if !ok {
-		goto sense
+		return prOutSense(cmd, ASC_INVALID_FIELD_IN_CDB)
 	}
-
-	resScope = scb[2] & 0xf0 >> 4
-	resType = scb[2] & 0x0f
-	resKey = util.GetUnalignedUint64(buf[0:8])
-
-	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	res := scsiResOp.GetReservation(tgtName, devUUID, registrantID(cmd))
+	if res == nil || res.Key != p.key {
 		return api.SAMStatReservationConflict
 	}
-
-	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
-	if curRes == nil {
-		return api.SAMStatGood
-	}
-
 	if !scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
 		return api.SAMStatGood
 	}
-
-	if resKey != res.Key {
-		return api.SAMStatReservationConflict
-	}
-
-	if curRes.Scope != resScope || curRes.Type != resType {
-		if cmd.InSDBBuffer != nil {
-			cmd.InSDBBuffer.Resid = 0
-		}
-		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_RELEASE_OF_PERSISTENT_RESERVATION)
-		return api.SAMStatCheckCondition
+	curRes := scsiResOp.GetCurrentReservation(tgtName, devUUID)
+	if curRes.Scope != p.scope || curRes.Type != p.rtype {
+		return prOutSense(cmd, ASC_INVALID_RELEASE_OF_PERSISTENT_RESERVATION)
 	}
-
+	curRes.Scope = 0
+	curRes.Type = 0
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, nil)
-	res.Scope = 0
-	res.Type = 0
-
-	switch resType {
-	case PR_TYPE_WRITE_EXCLUSIVE,
-		PR_TYPE_EXCLUSIVE_ACCESS,
-		PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
-		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
-		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
-		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
-		break
-	default:
-		goto sense
-	}
-
-	resList = scsiResOp.GetReservationList(tgtName, devUUID)
-	for _, tmpRes := range resList {
-		if tmpRes.ID == res.ID {
-			continue
-		}
-		//TODO send sense code
-	}
+	//TODO send sense code
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
-sense:
-	if cmd.InSDBBuffer != nil {
-		cmd.InSDBBuffer.Resid = 0
-	}
-	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
-	return api.SAMStatCheckCondition
 }
 
 func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		buf    []byte = cmd.OutSDBBuffer.Buffer
-		curRes *api.SCSIReservation
-		res    *api.SCSIReservation
-		ok     bool = false
-		resKey uint64
-	)
-
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
-
-	ok = reservationCheck(host, cmd)
+	p, ok := parsePROut(cmd)
 	if !ok {
-		goto sense
+		return prOutSense(cmd, ASC_INVALID_FIELD_IN_CDB)
 	}
-
-	resKey = util.GetUnalignedUint64(buf[0:8])
-
-	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-
-	if res == nil {
+	res := scsiResOp.GetReservation(tgtName, devUUID, registrantID(cmd))
+	if res == nil || res.Key != p.key {
 		return api.SAMStatReservationConflict
 	}
-
-	if res.Key != resKey {
-		return api.SAMStatReservationConflict
-	}
-
-	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
-
-	if curRes != nil {
-		curRes.Scope = 0
-		curRes.Type = 0
-		scsiResOp.SetCurrentReservation(tgtName, devUUID, nil)
-	}
-
-	for _, tmpRes := range resList {
-		if tmpRes != res {
-			//TODO send sense code
-		}
-		scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
-	}
+	scsiResOp.SetCurrentReservation(tgtName, devUUID, nil)
+	//TODO send sense code
+	scsiResOp.RemoveAllReservation(tgtName, devUUID)
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
-sense:
-	if cmd.InSDBBuffer != nil {
-		cmd.InSDBBuffer.Resid = 0
-	}
-	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
-	return api.SAMStatCheckCondition
 }
 
 func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		buf          []byte = cmd.OutSDBBuffer.Buffer
-		scb          []byte = cmd.SCB
-		ok           bool   = false
-		resKey       uint64
-		sAResKey     uint64
-		res          *api.SCSIReservation
-		curRes       *api.SCSIReservation
-		resReleased  bool
-		removeAllRes bool
-		resScope     uint8
-		resType      uint8
-	)
-
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
-
-	ok = reservationCheck(host, cmd)
+	p, ok := parsePROut(cmd)
 	if !ok {
-		goto sense
+		return prOutSense(cmd, ASC_INVALID_FIELD_IN_CDB)
 	}
-	resScope = scb[2] & 0xf0 >> 4
-	resType = scb[2] & 0x0f
-	resKey = util.GetUnalignedUint64(buf[0:8])
-	sAResKey = util.GetUnalignedUint64(buf[8:16])
-
-	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-
-	if res == nil {
-		return api.SAMStatReservationConflict
-	}
-
-	if res.Key != resKey {
+	res := scsiResOp.GetReservation(tgtName, devUUID, registrantID(cmd))
+	if res == nil || res.Key != p.key {
 		return api.SAMStatReservationConflict
 	}
 
-	if sAResKey != 0 {
-		ok = scsiResOp.IsKeyExists(tgtName, devUUID, sAResKey)
-		if ok {
-			return api.SAMStatReservationConflict
-		}
-	}
-
-	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
+	curRes := scsiResOp.GetCurrentReservation(tgtName, devUUID)
+	// whether the reservation itself is preempted, and not only registrations
+	takeOver := false
 	if curRes != nil {
-		if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
-			curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
-			if sAResKey == 0 {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
-				removeAllRes = true
-			}
+		if prAllRegistrants(curRes.Type) {
+			takeOver = p.saKey == 0
 		} else {
-			if curRes.Key == resKey {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
-			} else {
-				if sAResKey == 0 {
-					goto sense
-				}
-			}
+			takeOver = p.saKey == curRes.Key
 		}
 	}
+	if p.saKey == 0 && !takeOver || takeOver && !p.validReservation() {
+		return prOutSense(cmd, ASC_INVALID_FIELD_IN_CDB)
+	}
+	if !takeOver && !scsiResOp.IsKeyExists(tgtName, devUUID, p.saKey) {
+		return api.SAMStatReservationConflict
+	}
 
+	resList := append([]*api.SCSIReservation{}, scsiResOp.GetReservationList(tgtName, devUUID)...)
+	if takeOver {
+		curRes.Scope = 0
+		curRes.Type = 0
+		scsiResOp.SetCurrentReservation(tgtName, devUUID, nil)
+	}
 	for _, tmpRes := range resList {
-		if tmpRes == res {
+		if takeOver && tmpRes == res {
 			continue
 		}
-
-		if res.Key == resKey || removeAllRes {
+		if p.saKey == 0 || tmpRes.Key == p.saKey {
 			//TODO send sense code
-			scsiResOp.RemoveReservation(tgtName, devUUID, res)
-		} else {
-			if resReleased {
-				//TODO send sense code
-			}
+			scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
 		}
 	}
+	if takeOver {
+		res.Scope = p.scope
+		res.Type = p.rtype
+		scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
+	}
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
-sense:
-	if cmd.InSDBBuffer != nil {
-		cmd.InSDBBuffer.Resid = 0
-	}
-	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
-	return api.SAMStatCheckCondition
 }
 
 func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf                 []byte = cmd.OutSDBBuffer.Buffer
+		buf                 []byte
 		scb                 []byte = cmd.SCB
 		resKey              uint64
 		sAResKey            uint64
@@ -1263,6 +1090,9 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	scsiResOp := GetSCSIReservationOperator()
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
+	if cmd.OutSDBBuffer != nil {
+		buf = cmd.OutSDBBuffer.Buffer
+	}
 	paramListLen = util.GetUnalignedUint32(scb[5:9])
 	if paramListLen < 24 || len(buf) < 25 {
 		goto sense
@@ -1286,7 +1116,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
+	res = scsiResOp.GetReservation(tgtName, devUUID, registrantID(cmd))
 	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
 	if res == nil {
 		if curRes != nil {
@@ -1296,8 +1126,9 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
-	if scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
-		return api.SAMStatGood
+	// only the holder can move the reservation, and not one that all registrants hold
+	if curRes == nil || curRes != res || prAllRegistrants(curRes.Type) {
+		return api.SAMStatReservationConflict
 	}
 
 	if res.Key != resKey {
@@ -1309,7 +1140,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	for _, dstReg = range resList {
-		if dstReg.Key == sAResKey {
+		if dstReg.Key == sAResKey && dstReg != res {
 			goto found
 		}
 	}
@@ -1317,6 +1148,8 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	goto sense
 found:
 	//TODO check transportid
+	dstReg.Scope, dstReg.Type = res.Scope, res.Type
+	res.Scope, res.Type = 0, 0
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, dstReg)
 	if unreg != 0 {
 		scsiResOp.RemoveReservation(tgtName, devUUID, res)
-- 
2.43.0


From cbf487413857eded2e09c866ee02a3cb2765cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 74/83] fix: persistent reservations are kept under a lock, and
 for remote units as well

---
 pkg/scsi/scsilumap.go | 12 +++++++-----
 pkg/scsi/spc.go       |  5 +++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 9bae016..987a721 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -78,6 +78,13 @@ func mappingLUN(lm LUNMapping) {
 		lunMap = globalSCSILUMap.TargetsLUNMap[lm.TargetName]
 	}
 	lunMap[lm.LUN] = device
+	// Init SCSISimpleReservationOperator
+	reservationMutex.Lock()
+	defer reservationMutex.Unlock()
+	op := GetSCSIReservationOperator()
+	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
+		simpleOp.InitLUReservation(lm.TargetName, lm.DeviceID)
+	}
 }
 
 func GetLU(tgtName string, LUN uint64) *api.SCSILu {
@@ -145,11 +152,6 @@ func AddLUNMapping(m LUNMapping) error {
 		return fmt.Errorf("device %d of LUN %d of %s does not exist", m.DeviceID, m.LUN, m.TargetName)
 	}
 	mappingLUN(m)
-	// Init SCSISimpleReservationOperator
-	op := GetSCSIReservationOperator()
-	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
-		simpleOp.InitLUReservation(m.TargetName, m.DeviceID)
-	}
 	return nil
 }
 
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 8224124..bff1259 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -780,6 +780,11 @@ func SPCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 	serviceAction := cmd.Device.DeviceProtocol.PerformServiceAction(opcode, action)
 	if serviceAction != nil {
 		fnop := serviceAction.(*SCSIServiceAction)
+		switch api.SCSICommandType(scb[0]) {
+		case api.PERSISTENT_RESERVE_IN, api.PERSISTENT_RESERVE_OUT:
+			reservationMutex.Lock()
+			defer reservationMutex.Unlock()
+		}
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	if cmd.InSDBBuffer != nil {
-- 
2.43.0


From 7723d7a8172187c97caaee96e122e1a73a26b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 75/83] fix: persistent reservations exclude the commands of
 other initiators

---
 pkg/scsi/lun.go    |  2 +-
 pkg/scsi/sbc.go    | 20 ++++++++++----------
 pkg/scsi/target.go | 40 +++++++++++++++++++++++++++++++++++++---
 3 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 306ce61..5688b76 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -91,7 +91,7 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 		// TODO host := cmd.ITNexus.Host
 		host := 0
 		cmd.State = api.SCSICommandProcessed
-		if !allowedWhenReserved(cmd.SCB[0]) && reservedByOther(cmd) {
+		if reservationConflict(cmd, fnop.PRConflictBits) {
 			if cmd.InSDBBuffer != nil {
 				cmd.InSDBBuffer.Resid = 0
 			}
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 96a5634..365c12b 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -157,7 +157,7 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	}
 	sbc.SCSIDeviceOps[api.TEST_UNIT_READY] = NewSCSIDeviceOperation(SPCTestUnit, nil, 0)
 	sbc.SCSIDeviceOps[api.REQUEST_SENSE] = NewSCSIDeviceOperation(SPCRequestSense, nil, 0)
-	sbc.SCSIDeviceOps[api.FORMAT_UNIT] = NewSCSIDeviceOperation(SBCFormatUnit, nil, 0)
+	sbc.SCSIDeviceOps[api.FORMAT_UNIT] = NewSCSIDeviceOperation(SBCFormatUnit, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.READ_6] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_6] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
 	sbc.SCSIDeviceOps[api.INQUIRY] = NewSCSIDeviceOperation(SPCInquiry, nil, 0)
@@ -167,20 +167,20 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 
 	sbc.SCSIDeviceOps[api.MODE_SENSE] = NewSCSIDeviceOperation(SBCModeSense, nil, PR_WE_FA|PR_EA_FA|PR_EA_FN|PR_WE_FN)
 	sbc.SCSIDeviceOps[api.START_STOP] = NewSCSIDeviceOperation(SPCStartStop, nil, PR_SPECIAL)
-	sbc.SCSIDeviceOps[api.SEND_DIAGNOSTIC] = NewSCSIDeviceOperation(SPCSendDiagnostics, nil, 0)
+	sbc.SCSIDeviceOps[api.SEND_DIAGNOSTIC] = NewSCSIDeviceOperation(SPCSendDiagnostics, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.ALLOW_MEDIUM_REMOVAL] = NewSCSIDeviceOperation(SPCPreventAllowMediaRemoval, nil, 0)
 	sbc.SCSIDeviceOps[api.READ_CAPACITY] = NewSCSIDeviceOperation(SBCReadCapacity, nil, 0)
 	sbc.SCSIDeviceOps[api.READ_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_EA_FN|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_10] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.PRE_FETCH_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SYNCHRONIZE_CACHE] = NewSCSIDeviceOperation(SBCSyncCache, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 
-	sbc.SCSIDeviceOps[api.WRITE_SAME] = NewSCSIDeviceOperation(SBCReadWrite, nil, 0)
-	sbc.SCSIDeviceOps[api.UNMAP] = NewSCSIDeviceOperation(SBCUnmap, nil, 0)
+	sbc.SCSIDeviceOps[api.WRITE_SAME] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.UNMAP] = NewSCSIDeviceOperation(SBCUnmap, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.MODE_SELECT_10] = NewSCSIDeviceOperation(SBCModeSelect, nil, PR_WE_FA|PR_EA_FA|PR_EA_FN|PR_WE_FN)
 	sbc.SCSIDeviceOps[api.MODE_SENSE_10] = NewSCSIDeviceOperation(SBCModeSense, nil, PR_WE_FA|PR_WE_FN|PR_EA_FA|PR_EA_FN)
@@ -206,14 +206,14 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	sbc.SCSIDeviceOps[api.READ_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
 	if EnableORWrite16 {
-		sbc.SCSIDeviceOps[api.ORWRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+		sbc.SCSIDeviceOps[api.ORWRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	}
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_16] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.PRE_FETCH_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SYNCHRONIZE_CACHE_16] = NewSCSIDeviceOperation(SBCSyncCache, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_SAME_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, 0)
+	sbc.SCSIDeviceOps[api.WRITE_SAME_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SERVICE_ACTION_IN] = NewSCSIDeviceOperation(SBCServiceAction, nil, 0)
 
 	sbc.SCSIDeviceOps[api.REPORT_LUNS] = NewSCSIDeviceOperation(SPCReportLuns, nil, 0)
@@ -222,8 +222,8 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	}, 0)
 	sbc.SCSIDeviceOps[api.EXCHANGE_MEDIUM] = NewSCSIDeviceOperation(SPCIllegalOp, nil, 0)
 	sbc.SCSIDeviceOps[api.READ_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
-	sbc.SCSIDeviceOps[api.WRITE_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FA|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_12] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	return sbc
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 20c8235..652e998 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -123,6 +123,10 @@ func deviceReserve(cmd *api.SCSICommand) error {
 		log.Errorf("already reserved %d, %d", lu.ReserveID, cmd.ITNexusID)
 		return fmt.Errorf("already reserved")
 	}
+	// reservations of the two kinds exclude each other
+	if len(GetSCSIReservationOperator().GetReservationList(cmd.Target.Name, lu.UUID)) > 0 {
+		return fmt.Errorf("there are persistent reservations")
+	}
 	cmd.Target.ITNexusMutex.Lock()
 	_, ok := cmd.Target.ITNexus[cmd.ITNexusID]
 	cmd.Target.ITNexusMutex.Unlock()
@@ -144,12 +148,42 @@ func deviceRelease(lu *api.SCSILu, itn uuid.UUID, force bool) {
 	}
 }
 
-// reservedByOther tells whether the device is reserved by another nexus than the one of the command.
-func reservedByOther(cmd *api.SCSICommand) bool {
+// reservationConflict tells whether a reservation of another initiator excludes the command.
+func reservationConflict(cmd *api.SCSICommand, prConflictBits uint8) bool {
 	reservationMutex.Lock()
 	defer reservationMutex.Unlock()
 	id := cmd.Device.ReserveID
-	return !uuid.Equal(id, uuid.Nil) && !uuid.Equal(id, cmd.ITNexusID)
+	if !uuid.Equal(id, uuid.Nil) && !uuid.Equal(id, cmd.ITNexusID) && !allowedWhenReserved(cmd.SCB[0]) {
+		return true
+	}
+	if prConflictBits == 0 || cmd.Target == nil {
+		return false
+	}
+	op := GetSCSIReservationOperator()
+	holder := op.GetCurrentReservation(cmd.Target.Name, cmd.Device.UUID)
+	if holder == nil {
+		return false
+	}
+	registrant := op.GetReservation(cmd.Target.Name, cmd.Device.UUID, registrantID(cmd))
+	var conflict uint8
+	switch holder.Type {
+	case PR_TYPE_WRITE_EXCLUSIVE:
+		conflict = PR_WE_FA
+	case PR_TYPE_EXCLUSIVE_ACCESS:
+		conflict = PR_EA_FA
+	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY, PR_TYPE_WRITE_EXCLUSIVE_ALLREG:
+		conflict = PR_WE_FN
+	default:
+		conflict = PR_EA_FN
+	}
+	if registrant == holder || registrant != nil && conflict&(PR_WE_FN|PR_EA_FN) != 0 {
+		return false
+	}
+	if prConflictBits&PR_SPECIAL != 0 {
+		// START STOP UNIT may start the unit
+		return cmd.SCB[4]&0xf1 != 1
+	}
+	return prConflictBits&conflict != 0
 }
 
 // ResetLUN does to a logical unit of the target what a LOGICAL UNIT RESET does.
-- 
2.43.0


From 916e57c6382dd608c007e4616a4d5ce543c7447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 76/83] fix: serve the management interface under the version
 clients send

The version prefix only matched digits followed by -dirty, so every other
build of gotgt list got 404.
---
 pkg/apiserver/apiserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index 6803fd6..6918e6a 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -39,7 +39,7 @@ import (
 
 // versionMatcher defines a variable matcher to be parsed by the router
 // when a request is about to be served.
-const versionMatcher = "/v{version:[0-9.]+(?:-dirty)}"
+const versionMatcher = "/v{version:[^/]+}"
 
 // Config provides the configuration for the API server
 type Config struct {
-- 
2.43.0


From 71e9b454b5aaad5e8904799ea2e2f1c61d8c4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 77/83] fix: list only the target of the name asked for

---
 pkg/apiserver/router/target/target.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/apiserver/router/target/target.go b/pkg/apiserver/router/target/target.go
index 87cbc9a..45a6287 100644
--- a/pkg/apiserver/router/target/target.go
+++ b/pkg/apiserver/router/target/target.go
@@ -18,6 +18,7 @@ package target
 import (
 	"net/http"
 
+	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/apiserver/httputils"
 	"github.com/gostor/gotgt/pkg/apiserver/router"
 	"github.com/gostor/gotgt/pkg/scsi"
@@ -61,6 +62,15 @@ func (r *targetRouter) getTargetList(ctx context.Context, w http.ResponseWriter,
 	if err != nil {
 		return err
 	}
+	if name := req.URL.Query().Get("name"); name != "" {
+		named := []api.SCSITarget{}
+		for _, tgt := range tgts {
+			if tgt.Name == name {
+				named = append(named, tgt)
+			}
+		}
+		tgts = named
+	}
 	return httputils.WriteJSON(w, http.StatusOK, tgts)
 }
 
-- 
2.43.0


From 4cb69dd98464fe445cf4083f339a1bd8753eaf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 78/83] fix: serve requests which arrive ahead of their CmdSN
 in its order, and answer them

---
 pkg/port/iscsit/conn.go   |  3 +++
 pkg/port/iscsit/iscsid.go | 41 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 0cb96be..1758705 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -89,6 +89,9 @@ type iscsiConnection struct {
 	// textRest is what the initiator has not got yet of the answer to a Text request
 	textRest []byte
 
+	// ahead is what arrived ahead of its CmdSN and waits for its turn
+	ahead []*ISCSICommand
+
 	readLock *sync.RWMutex
 }
 
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index f81f00f..52a8937 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -387,6 +387,11 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 	if conn.state == CONN_STATE_SCSI {
 		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
 		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
+		if req := conn.takeAhead(); req != nil {
+			conn.req = req
+			s.scsiCommandHandler(conn)
+			return
+		}
 	}
 	for {
 		switch conn.rxIOState {
@@ -822,13 +827,41 @@ func (conn *iscsiConnection) acceptCmdSN(req *ISCSICommand) {
 	}
 }
 
+// takeAhead returns the next request which waited for its turn, if it has come.
+func (conn *iscsiConnection) takeAhead() *ISCSICommand {
+	for i, req := range conn.ahead {
+		if int32(req.CmdSN-conn.session.ExpCmdSN) <= 0 {
+			conn.ahead = append(conn.ahead[:i:i], conn.ahead[i+1:]...)
+			return req
+		}
+	}
+	return nil
+}
+
+// abortAhead aborts commands which wait for their turn; their CmdSN is still due.
+func (conn *iscsiConnection) abortAhead(match func(*ISCSICommand) bool) bool {
+	found := false
+	for i, req := range conn.ahead {
+		if req.OpCode == OpSCSICmd && match(req) {
+			conn.ahead[i] = &ISCSICommand{OpCode: OpNoopOut, CmdSN: req.CmdSN, TaskTag: 0xffffffff}
+			found = true
+		}
+	}
+	return found
+}
+
 func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error) {
 	req := conn.req
 	switch req.OpCode {
 	case OpSCSICmd, OpSCSITaskReq, OpNoopOut, OpLogoutReq, OpTextReq:
 		// rfc7143 4.2.2.1: ignore what is outside the window
-		if diff := int32(req.CmdSN - conn.session.ExpCmdSN); !req.Immediate && (diff < 0 || diff > int32(conn.session.MaxQueueCommand)) {
-			log.Errorf("CmdSN %d is outside the window of %d", req.CmdSN, conn.session.ExpCmdSN)
+		if diff := int32(req.CmdSN - conn.session.ExpCmdSN); !req.Immediate && diff != 0 {
+			if diff < 0 || diff > int32(conn.session.MaxQueueCommand) {
+				log.Errorf("CmdSN %d is outside the window of %d", req.CmdSN, conn.session.ExpCmdSN)
+			} else {
+				// requests take effect in the order of their CmdSN
+				conn.ahead = append(conn.ahead, req)
+			}
 			conn.rxIOState = IOSTATE_RX_BHS
 			s.handler(DATAIN, conn)
 			return nil
@@ -1104,6 +1137,9 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 			sess.PendingTasksMutex.Unlock()
 			if stask == nil {
 				task.result = ISCSI_TMF_RSP_NO_TASK
+				if task.conn.abortAhead(func(req *ISCSICommand) bool { return req.TaskTag == cmd.ReferencedTaskTag }) {
+					task.result = ISCSI_TMF_RSP_COMPLETE
+				}
 			} else {
 				// abort this task, which gets no response any more
 				log.Debugf("abort the task[%v]", stask.tag)
@@ -1119,6 +1155,7 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 			}
 			sess.PendingTasks = pending
 			sess.PendingTasksMutex.Unlock()
+			task.conn.abortAhead(func(req *ISCSICommand) bool { return req.LUN == cmd.LUN })
 			if cmd.TaskFunc == ISCSI_TM_FUNC_LOGICAL_UNIT_RESET {
 				s.SCSI.ResetLUN(sess.Target.SCSITarget.TID, cmd.LUN)
 			}
-- 
2.43.0


From 1643b76bad492772ec237a60814a7d3ca2f2c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 79/83] fix: replace the unit map of a target under the lock
 its readers hold

---
 pkg/scsi/target.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 652e998..2990826 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -53,8 +53,11 @@ func (s *SCSITargetService) RereadTargetLUNMap() {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
 
+	// commands look their LUs up under the lock of the map
+	globalSCSILUMap.mutex.Lock()
+	defer globalSCSILUMap.mutex.Unlock()
 	for _, tgt := range s.Targets {
-		tgt.Devices = GetTargetLUNMap(tgt.Name)
+		tgt.Devices = globalSCSILUMap.TargetsLUNMap[tgt.Name]
 	}
 }
 
-- 
2.43.0


From a05d8f859fe1cbd9319105faf14b9afcda843f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 80/83] fix: set the status of the client under the lock it is
 read with

---
 pkg/port/iscsit/iscsid.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 52a8937..cface8e 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -290,16 +290,20 @@ func (s *ISCSITargetDriver) Run(port int) error {
 }
 
 func (s *ISCSITargetDriver) setClientStatus(ok bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	s.isClientConnected = ok
 }
 
 func (s *ISCSITargetDriver) isInitiatorConnected() bool {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	return s.isClientConnected
 }
 func (s *ISCSITargetDriver) Close() error {
 	s.mu.Lock()
 	l := s.l
-	s.setClientStatus(false)
+	s.isClientConnected = false
 	s.mu.Unlock()
 	if l != nil {
 		s.setState(STATE_SHUTTING_DOWN)
-- 
2.43.0


From 8bafc56c46ee147dcd2c6989c332e7917968a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 81/83] fix: read the size of a unit atomically, and do not
 panic in WRITE SAME when it shrinks

---
 pkg/scsi/backingstore.go | 10 ++++++++--
 pkg/scsi/sbc.go          | 30 +++++++++++++++---------------
 pkg/scsi/scsi.go         |  8 +++++++-
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index d4704d1..f6a082a 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -99,7 +99,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		goto write
 	case api.SYNCHRONIZE_CACHE, api.SYNCHRONIZE_CACHE_16:
 		if tl == 0 {
-			tl = int64(lu.Size - offset)
+			tl = int64(luSize(lu) - offset)
 		}
 		if err = bs.DataSync(int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
@@ -131,7 +131,13 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		}
 		if tl == 0 {
 			// up to the last block of the medium
-			tl = int64(lu.Size>>lu.BlockShift<<lu.BlockShift) - int64(offset)
+			tl = int64(luSize(lu)>>lu.BlockShift<<lu.BlockShift) - int64(offset)
+			if tl < 0 {
+				// resized since the range was checked
+				key = ILLEGAL_REQUEST
+				asc = ASC_LBA_OUT_OF_RANGE
+				goto sense
+			}
 		}
 		count := tl / blen
 		if count > 256 {
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 365c12b..c4c2b8d 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -123,7 +123,7 @@ func (sbc SBCSCSIDeviceProtocol) InitLu(lu *api.SCSILu) error {
 // modeBlockDescriptor describes the current capacity of the LU.
 func modeBlockDescriptor(lu *api.SCSILu) []byte {
 	mbd := util.MarshalUint32(uint32(0xffffffff))
-	if size := lu.Size >> lu.BlockShift; size>>32 == 0 {
+	if size := luSize(lu) >> lu.BlockShift; size>>32 == 0 {
 		mbd = util.MarshalUint32(uint32(size))
 	}
 	return append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
@@ -316,7 +316,7 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
 		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
 		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
-		if num != 0 && (lba+uint64(num) < lba || lba+uint64(num) > cmd.Device.Size>>cmd.Device.BlockShift) {
+		if num != 0 && (lba+uint64(num) < lba || lba+uint64(num) > luSize(cmd.Device)>>cmd.Device.BlockShift) {
 			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
 			return api.SAMStatCheckCondition
 		}
@@ -438,17 +438,17 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	// Verify that we are not doing i/o beyond the end-of-lun
 	if tl != 0 {
-		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
+		if lba+uint64(tl) < lba || lba+uint64(tl) > luSize(dev)>>dev.BlockShift {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
+			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d, size: %d", lba, tl, luSize(dev)>>dev.BlockShift)
 			goto sense
 		}
 	} else {
-		if lba >= dev.Size>>dev.BlockShift {
+		if lba >= luSize(dev)>>dev.BlockShift {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, size: %d", lba, dev.Size>>dev.BlockShift)
+			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, size: %d", lba, luSize(dev)>>dev.BlockShift)
 			goto sense
 		}
 	}
@@ -522,7 +522,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		key    = ILLEGAL_REQUEST
 		asc    = ASC_LUN_NOT_SUPPORTED
 		bshift = cmd.Device.BlockShift
-		size   = cmd.Device.Size >> bshift
+		size   = luSize(cmd.Device) >> bshift
 		data   []byte
 	)
 
@@ -591,14 +591,14 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	// Verify that we are not doing i/o beyond the end-of-lun
 	if tl != 0 {
-		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
+		if lba+uint64(tl) < lba || lba+uint64(tl) > luSize(dev)>>dev.BlockShift {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
+			log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, luSize(dev)>>dev.BlockShift)
 			goto sense
 		}
 	} else {
-		if lba >= dev.Size>>dev.BlockShift {
+		if lba >= luSize(dev)>>dev.BlockShift {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
 			log.Warnf("sense")
@@ -634,7 +634,7 @@ sense:
 func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		bshift           = cmd.Device.BlockShift
-		size             = cmd.Device.Size >> bshift
+		size             = luSize(cmd.Device) >> bshift
 		allocationLength uint32
 		data             = make([]byte, 32)
 	)
@@ -685,14 +685,14 @@ func SBCGetLbaStatus(host int, cmd *api.SCSICommand) api.SAMStat {
 	tl = getSCSIReadWriteCount(scb)
 	// Verify that we are not doing i/o beyond the end-of-lun
 	if tl != 0 {
-		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
+		if lba+uint64(tl) < lba || lba+uint64(tl) > luSize(dev)>>dev.BlockShift {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
+			log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, luSize(dev)>>dev.BlockShift)
 			goto sense
 		}
 	} else {
-		if lba >= dev.Size>>dev.BlockShift {
+		if lba >= luSize(dev)>>dev.BlockShift {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
 			log.Warnf("sense")
@@ -738,7 +738,7 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	tl := getSCSIReadWriteCount(scb)
 	dev := cmd.Device
 
-	if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
+	if lba+uint64(tl) < lba || lba+uint64(tl) > luSize(dev)>>dev.BlockShift {
 		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
 		return api.SAMStatCheckCondition
 	}
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 30256ab..61b9de4 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -21,6 +21,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
@@ -73,7 +74,7 @@ func (s *SCSITargetService) Resize(size uint64) error {
 	for _, t := range s.Targets {
 		if t.Devices != nil {
 			for i := range t.Devices {
-				t.Devices[i].Size = size
+				atomic.StoreUint64(&t.Devices[i].Size, size)
 			}
 		}
 	}
@@ -82,6 +83,11 @@ func (s *SCSITargetService) Resize(size uint64) error {
 	return nil
 }
 
+// luSize returns the size of the LU, which Resize may change at any time.
+func luSize(lu *api.SCSILu) uint64 {
+	return atomic.LoadUint64(&lu.Size)
+}
+
 // AddCommandQueue add command queue
 func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) error {
 	var (
-- 
2.43.0


From 6cf43fd69d358a8f041f0ee0b6f5167b66da31c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:46 +0000
Subject: [PATCH 82/83] fix: look at the state of a connection only under its
 lock

---
 pkg/port/iscsit/iscsid.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index cface8e..4e69928 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -284,7 +284,7 @@ func (s *ISCSITargetDriver) Run(port int) error {
 		iscsiConn.rxIOState = IOSTATE_RX_BHS
 		log.Infof("Target is connected to initiator: %s", conn.RemoteAddr().String())
 		// start a new thread to do with this command
-		go s.handler(DATAIN, iscsiConn)
+		go s.receive(iscsiConn)
 	}
 	return nil
 }
@@ -350,19 +350,26 @@ func leaveHost(conn *iscsiConnection) {
 	}
 }
 
+// receive serves one request, and closes the connection if that is its end.
+func (s *ISCSITargetDriver) receive(conn *iscsiConnection) {
+	conn.readLock.Lock()
+	s.rxHandler(conn)
+	closed := conn.state == CONN_STATE_CLOSE
+	conn.readLock.Unlock()
+	if closed {
+		log.Warningf("iscsi connection[%d] closed", conn.cid)
+		conn.close()
+		s.closeSession(conn)
+		leaveHost(conn)
+	}
+}
+
+// handler needs the readLock of the connection.
 func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
 
 	if events&DATAIN != 0 {
 		log.Debug("rx handler processing...")
-		go func() {
-			s.rxHandler(conn)
-			if conn.state == CONN_STATE_CLOSE {
-				log.Warningf("iscsi connection[%d] closed", conn.cid)
-				conn.close()
-				s.closeSession(conn)
-				leaveHost(conn)
-			}
-		}()
+		go s.receive(conn)
 	}
 	if conn.state != CONN_STATE_CLOSE && events&DATAOUT != 0 {
 		log.Debug("tx handler processing...")
@@ -386,8 +393,6 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 		length  int
 		err     error
 	)
-	conn.readLock.Lock()
-	defer conn.readLock.Unlock()
 	if conn.state == CONN_STATE_SCSI {
 		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
 		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
-- 
2.43.0


From 11c4b1a16a8374c1a33803b54a1e2aa803aae706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:39 +0000
Subject: [PATCH 83/83] fix: a VERIFY that is sent no data does not compare
 equal

---
 pkg/scsi/backingstore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index f6a082a..19e49ed 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -237,7 +237,7 @@ verify:
 			asc = ASC_READ_ERROR
 			goto sense
 		}
-		if !bytes.Equal(wbuf, rbuf) {
+		if int64(len(wbuf)) != tl || !bytes.Equal(wbuf, rbuf) {
 			err = fmt.Errorf("verify fail between out buffer[length=%d] and read buffer[length=%d]", len(wbuf), len(rbuf))
 			key = MISCOMPARE
 			asc = ASC_MISCOMPARE_DURING_VERIFY_OPERATION
-- 
2.43.0

