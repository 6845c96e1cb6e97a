From 85cb3b69bc8fe851e153f0156d20acabe5ebbd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 01/53] fix: GridAxisDescriptorVariable reads and writes its xi
 values as 16-bit integers

---
 opendis/dis7.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1b0036b..974a540 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2134,7 +2134,7 @@ class GridAxisDescriptorVariable:
         outputStream.write_double(self.coordinateScaleXi)
         outputStream.write_double(self.coordinateOffsetXi)
         for anObj in self.xiValues:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_short(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2150,9 +2150,7 @@ class GridAxisDescriptorVariable:
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
         for idx in range(0, self.numberOfPointsOnXiAxis):
-            element = null()
-            element.parse(inputStream)
-            self.xiValues.append(element)
+            self.xiValues.append(inputStream.read_unsigned_short())
 
 
 class SupplyQuantity:
-- 
2.43.0


From d953e6f9685685e17503d808d0f462ffe905c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 02/53] fix: SilentEntitySystem reads and writes its appearance
 records as 32-bit words

---
 opendis/dis7.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 974a540..379c7b3 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2203,7 +2203,7 @@ class SilentEntitySystem:
         outputStream.write_unsigned_short(self.numberOfAppearanceRecords)
         self.entityType.serialize(outputStream)
         for anObj in self.appearanceRecordList:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2211,9 +2211,7 @@ class SilentEntitySystem:
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
         for idx in range(0, numberOfAppearanceRecords):
-            element = null()
-            element.parse(inputStream)
-            self.appearanceRecordList.append(element)
+            self.appearanceRecordList.append(inputStream.read_unsigned_int())
 
 
 class SilentAggregateSystem:
-- 
2.43.0


From f0a8242bc0e0c1c767850b8897b14a6b80a2708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 03/53] fix: IntercomSignalPdu reads and writes its data octets

---
 opendis/dis7.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 379c7b3..60b2a5e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4256,7 +4256,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_short(self.dataLength)
         outputStream.write_unsigned_short(self.samples)
         for anObj in self.data:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -4271,9 +4271,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
         for idx in range(0, dataLength // 8):
-            element = null()
-            element.parse(inputStream)
-            self.data.append(element)
+            self.data.append(inputStream.read_unsigned_byte())
 
 
 class RemoveEntityPdu(SimulationManagementFamilyPdu):
-- 
2.43.0


From 6b5f5e91df3ce7569d01c8d95c4865c41e4d2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 04/53] fix: MinefieldResponseNackPdu reads and writes its
 missing sequence numbers

---
 opendis/dis7.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 60b2a5e..4424d0f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7277,7 +7277,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         outputStream.write_unsigned_byte(self.requestID)
         outputStream.write_unsigned_byte(self.numberOfMissingPdus)
         for anObj in self.missingPduSequenceNumbers:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -7288,9 +7288,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
         for idx in range(0, numberOfMissingPdus):
-            element = null()
-            element.parse(inputStream)
-            self.missingPduSequenceNumbers.append(element)
+            self.missingPduSequenceNumbers.append(inputStream.read_unsigned_byte())
 
 
 class ActionResponseReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
-- 
2.43.0


From 580e1fcb5815f36ee11e5de4f74e7a4a4ece189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 05/53] fix: RecordQueryReliablePdu reads and writes its record
 IDs as 32-bit integers

---
 opendis/dis7.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4424d0f..2eae042 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6557,7 +6557,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         outputStream.write_unsigned_int(self.time)
         outputStream.write_unsigned_int(self.numberOfRecords)
         for anObj in self.recordIDs:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -6570,9 +6570,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecords):
-            element = null()
-            element.parse(inputStream)
-            self.recordIDs.append(element)
+            self.recordIDs.append(inputStream.read_unsigned_int())
 
 
 class ActionResponsePdu(SimulationManagementFamilyPdu):
-- 
2.43.0


From fb1313f7a3e156d6c196dfac780b4038a13eaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 06/53] fix: RecordSpecification parses its record sets

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 2eae042..2020fff 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3281,7 +3281,7 @@ class RecordSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecordSets):
-            element = null()
+            element = RecordSpecificationElement()
             element.parse(inputStream)
             self.recordSets.append(element)
 
-- 
2.43.0


From 962a617c286b30665b51957ccf7d501f854f3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 07/53] fix: ResupplyReceivedPdu parses its supplies

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 2020fff..a1732a1 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4344,7 +4344,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
         for idx in range(0, numberOfSupplyTypes):
-            element = null()
+            element = SupplyQuantity()
             element.parse(inputStream)
             self.supplies.append(element)
 
-- 
2.43.0


From a18a2fef6daf80f86fac2c95fcca03099d68bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 08/53] fix: SeesPdu parses its propulsion and nozzle system
 records

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a1732a1..464d2cf 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7101,12 +7101,12 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
         for idx in range(0, numberOfPropulsionSystems):
-            element = null()
+            element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
         for idx in range(0, numberOfVectoringNozzleSystems):
-            element = null()
+            element = VectoringNozzleSystem()
             element.parse(inputStream)
             self.vectoringSystemData.append(element)
 
-- 
2.43.0


From 29c82aab553718039548e5926d95407dcd0b2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 09/53] fix: LinearObjectStatePdu constructor no longer fails
 on an undefined name

---
 opendis/dis7.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 464d2cf..3f437d5 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4129,8 +4129,6 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.updateNumber = updateNumber
         """unique update number of each state transition of an object"""
         self.forceID = forceID
-        self.numberOfSegments = numberOfSegments
-        """number of linear segment parameters"""
         self.requesterID = requesterID or SimulationAddress()
         self.receivingID = receivingID or SimulationAddress()
         self.objectType = objectType or ObjectType()
-- 
2.43.0


From 5dadfc8da45933c36b8a4619847d6448112fadeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 10/53] fix: StandardVariableSpecification parses its standard
 variable records

---
 opendis/dis7.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3f437d5..5988d5f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2606,8 +2606,10 @@ class StandardVariableSpecification:
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
         for idx in range(0, numberOfStandardVariableRecords):
-            element = null()
-            element.parse(inputStream)
+            recordType = inputStream.read_uint32()
+            recordLength = inputStream.read_uint16()
+            element = getStandardVariableClass(recordType)()
+            element.parse(inputStream, bytelength=recordLength)
             self.standardVariables.append(element)
 
 
-- 
2.43.0


From ffc0bf162e99ef270f85dc6d228db6af53728318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 11/53] fix: ClockTime hour is a signed 32-bit integer

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 5988d5f..3700a4e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1343,12 +1343,12 @@ class ClockTime:
 
     def serialize(self, outputStream):
         """serialize the class"""
-        outputStream.write_unsigned_int(self.hour)
+        outputStream.write_int(self.hour)
         outputStream.write_unsigned_int(self.timePastHour)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-        self.hour = inputStream.read_unsigned_int()
+        self.hour = inputStream.read_int()
         self.timePastHour = inputStream.read_unsigned_int()
 
 
-- 
2.43.0


From ff8522885091e3270fdb943fde031bcf4b2f1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 12/53] fix: PduHeader length is 16 bits wide and status 8 bits

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3700a4e..87ba229 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3403,8 +3403,8 @@ class PduHeader:
         outputStream.write_unsigned_byte(self.pduType)
         outputStream.write_unsigned_byte(self.protocolFamily)
         outputStream.write_unsigned_int(self.timestamp)
-        outputStream.write_unsigned_byte(self.pduLength)
-        outputStream.write_unsigned_short(self.pduStatus)
+        outputStream.write_unsigned_short(self.pduLength)
+        outputStream.write_unsigned_byte(self.pduStatus)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
@@ -3414,8 +3414,8 @@ class PduHeader:
         self.pduType = inputStream.read_unsigned_byte()
         self.protocolFamily = inputStream.read_unsigned_byte()
         self.timestamp = inputStream.read_unsigned_int()
-        self.pduLength = inputStream.read_unsigned_byte()
-        self.pduStatus = inputStream.read_unsigned_short()
+        self.pduLength = inputStream.read_unsigned_short()
+        self.pduStatus = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From cc66ff8cfaad6b53c81fd999902ca19280ab0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 13/53] fix: IFFData record length covers the record type and
 length fields

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 87ba229..3a894e3 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -184,7 +184,7 @@ class IFFData:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.recordType)
-        outputStream.write_unsigned_short(len(self.iffData))
+        outputStream.write_unsigned_short(len(self.iffData) + 6)
         for anObj in self.iffData:
             outputStream.write_unsigned_byte(anObj)
         """TODO add padding to end on 32-bit boundary"""
-- 
2.43.0


From 02b85611a56b704b7593374f4db8a6bd899f688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 14/53] fix: EventReportReliablePdu event type is 32 bits wide

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3a894e3..74ed10c 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7230,14 +7230,14 @@ class EventReportReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportReliablePdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.eventType)
+        outputStream.write_unsigned_int(self.eventType)
         outputStream.write_unsigned_int(self.pad1)
         self._datums.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(EventReportReliablePdu, self).parse(inputStream)
-        self.eventType = inputStream.read_unsigned_short()
+        self.eventType = inputStream.read_unsigned_int()
         self.pad1 = inputStream.read_unsigned_int()
         self._datums.parse(inputStream)
 
-- 
2.43.0


From 8726a2cf0f68f31efb95926d32ac07437dc6d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 15/53] fix: EntityMarking characters are unsigned octets

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 74ed10c..129cdbe 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1234,14 +1234,14 @@ class EntityMarking:
         """serialize the class"""
         outputStream.write_unsigned_byte(self.characterSet)
         for idx in range(0, 11):
-            outputStream.write_byte(self.characters[idx])
+            outputStream.write_unsigned_byte(self.characters[idx])
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.characterSet = inputStream.read_unsigned_byte()
         self.characters = [0] * 11
         for idx in range(0, 11):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
             self.characters[idx] = val
 
 
-- 
2.43.0


From 3cc5ed87a86ede69676c75967d91d67b50fce5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 16/53] fix: IntercomControlPdu source device ID is 16 bits and
 its parameters are a list of records

---
 opendis/dis7.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 129cdbe..198ad2d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6883,7 +6883,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
                  command: enum8 = 0,  # [UID 182]
                  masterEntityID: "EntityIdentifier | UnattachedIdentifier | None" = None,
                  masterCommunicationsDeviceID: uint16 = 0,
-                 intercomParameters: "IntercomCommunicationsParameters | None" = None):
+                 intercomParameters: list["IntercomCommunicationsParameters"] | None = None):
         super(IntercomControlPdu, self).__init__()
         self.controlType = controlType
         self.communicationsChannelType = communicationsChannelType
@@ -6902,14 +6902,12 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         """eid of the entity that has created this intercom channel."""
         self.masterCommunicationsDeviceID = masterCommunicationsDeviceID
         """specific intercom device that has created this intercom channel"""
-        self.intercomParameters = intercomParameters
-        """^^^This is wrong the length of the data field is variable. Using a long for now."""
+        self.intercomParameters = intercomParameters or []
 
     @property
     def intercomParametersLength(self) -> uint32:
-        # FIXME: This is incorrect
-        #        It should return the number of bytes in intercomParameters
-        return len(self.intercomParameters)
+        """Total length in bytes; each parameters record occupies 8 bytes"""
+        return 8 * len(self.intercomParameters)
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -6917,7 +6915,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_byte(self.controlType)
         outputStream.write_unsigned_byte(self.communicationsChannelType)
         self.sourceEntityID.serialize(outputStream)
-        outputStream.write_unsigned_byte(self.sourceCommunicationsDeviceID)
+        outputStream.write_unsigned_short(self.sourceCommunicationsDeviceID)
         outputStream.write_unsigned_byte(self.sourceLineID)
         outputStream.write_unsigned_byte(self.transmitPriority)
         outputStream.write_unsigned_byte(self.transmitLineState)
@@ -6934,7 +6932,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.controlType = inputStream.read_unsigned_byte()
         self.communicationsChannelType = inputStream.read_unsigned_byte()
         self.sourceEntityID.parse(inputStream)
-        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_byte()
+        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_short()
         self.sourceLineID = inputStream.read_unsigned_byte()
         self.transmitPriority = inputStream.read_unsigned_byte()
         self.transmitLineState = inputStream.read_unsigned_byte()
@@ -6943,7 +6941,10 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
         # TODO: Validate intercomParametersLength against rest of input stream?
-        self.intercomParameters = IntercomCommunicationsParameters.parse(inputStream)
+        for idx in range(0, intercomParametersLength // 8):
+            element = IntercomCommunicationsParameters()
+            element.parse(inputStream)
+            self.intercomParameters.append(element)
 
 
 class SignalPdu(RadioCommunicationsFamilyPdu):
-- 
2.43.0


From 348321507144bc40f6c587f3eb4f7b80c1e5ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 17/53] fix: AttachedParts serializes its attached part type

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 198ad2d..80195f0 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -800,7 +800,7 @@ class AttachedParts:
         outputStream.write_unsigned_byte(self.detachedIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        self.attachedPartType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -808,7 +808,7 @@ class AttachedParts:
         self.detachedIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.attachedPartType.parse(inputStream)
 
 
 class Attribute:
-- 
2.43.0


From 6760b7766058d0ca0833db2b0c4812fe3eaf4f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 18/53] fix: ArticulatedParts parameter value is a 32-bit float
 followed by padding

---
 opendis/dis7.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 80195f0..6cf92d6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -889,6 +889,7 @@ class ArticulatedParts:
         """the type of parameter represented, 32 bit enumeration"""
         self.parameterValue = parameterValue
         """The definition of the 64 bits shall be determined based on the type of parameter specified in the Parameter Type field"""
+        self.padding: uint32 = 0
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -896,7 +897,8 @@ class ArticulatedParts:
         outputStream.write_unsigned_byte(self.changeIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        outputStream.write_float(self.parameterValue)
+        outputStream.write_unsigned_int(self.padding)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -904,7 +906,8 @@ class ArticulatedParts:
         self.changeIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.parameterValue = inputStream.read_float()
+        self.padding = inputStream.read_unsigned_int()
 
 
 class ObjectType:
-- 
2.43.0


From ad247b3abf5e1d3c12bb1054ff993f8d49355303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 19/53] fix: SeparationVP serializes its station location
 record

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 6cf92d6..f6c1fc3 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3609,7 +3609,7 @@ class SeparationVP:
         outputStream.write_unsigned_byte(self.padding1)
         self.parentEntityID.serialize(outputStream)
         outputStream.write_unsigned_short(self.padding2)
-        outputStream.write_unsigned_int(self.stationLocation)
+        self.stationLocation.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -3619,7 +3619,7 @@ class SeparationVP:
         self.padding1 = inputStream.read_unsigned_byte()
         self.parentEntityID.parse(inputStream)
         self.padding2 = inputStream.read_unsigned_short()
-        self.stationLocation = inputStream.read_unsigned_int()
+        self.stationLocation.parse(inputStream)
 
 
 class EmitterSystem:
-- 
2.43.0


From dbb83bf2f898afde9b0326092bf8700549652d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 20/53] fix: SilentAggregateSystem serializes its aggregate
 type

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f6c1fc3..b4d498b 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2233,7 +2233,7 @@ class SilentAggregateSystem:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_short(self.numberOfAggregates)
-        self.entityType.serialize(outputStream)
+        self.aggregateType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-- 
2.43.0


From 4c0e457e18413b271100f380d28f2c85dc310f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 21/53] fix: Environment serializes the padding attribute it
 defines

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index b4d498b..fa13faf 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2659,14 +2659,14 @@ class Environment:
         outputStream.write_unsigned_int(self.environmentType)
         outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
-        outputStream.write_unsigned_byte(self.padding)
+        outputStream.write_unsigned_byte(self.padding0)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
         self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
-        self.padding = inputStream.read_unsigned_byte()
+        self.padding0 = inputStream.read_unsigned_byte()
 
 
 class AcousticEmitter:
-- 
2.43.0


From 99ae48f21de23b37d8fcf2d8c35ee1479bfde287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 22/53] fix: EnvironmentGeneral length is 16 bits and its
 padding attribute is defined

---
 opendis/dis7.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index fa13faf..6d78837 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3185,7 +3185,7 @@ class EnvironmentGeneral:
         """length, in bits"""
         self.index = index
         """Identify the sequentially numbered record index"""
-        self.padding = 0
+        self.padding1 = 0
         self.geometry = geometry
         """Geometry or state record"""
         self.padding2 = 0
@@ -3194,7 +3194,7 @@ class EnvironmentGeneral:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.environmentType)
-        outputStream.write_unsigned_byte(self.length)
+        outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
         outputStream.write_unsigned_byte(self.padding1)
         outputStream.write_unsigned_byte(self.geometry)
@@ -3203,7 +3203,7 @@ class EnvironmentGeneral:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
-        self.length = inputStream.read_unsigned_byte()
+        self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_byte()
         self.geometry = inputStream.read_unsigned_byte()
-- 
2.43.0


From e318af34be4cf7187e3836c494ad2e2b4c9670e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 23/53] fix: EngineFuel constructor keeps its arguments

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 6d78837..70de578 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1974,13 +1974,13 @@ class EngineFuel:
                  fuelMeasurementUnits: enum8 = 0,  # [UID 328]
                  fuelType: enum8 = 0,  # [UID 413]
                  fuelLocation: enum8 = 0):  # [UID 329]
-        self.fuelQuantity = 0
+        self.fuelQuantity = fuelQuantity
         """Fuel quantity, units specified by next field"""
-        self.fuelMeasurementUnits = 0
+        self.fuelMeasurementUnits = fuelMeasurementUnits
         """Units in which the fuel is measured"""
-        self.fuelType = 0
+        self.fuelType = fuelType
         """Type of fuel"""
-        self.fuelLocation = 0
+        self.fuelLocation = fuelLocation
         """Location of fuel as related to entity. See section 14 of EBV document"""
         self.padding: uint8 = 0
 
-- 
2.43.0


From e76f1ffbaf3d38e4a1f2ff18d8adf27468914fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 24/53] fix: AngularVelocityVector constructor keeps its
 arguments

---
 opendis/dis7.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 70de578..d0f414a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2709,11 +2709,11 @@ class AngularVelocityVector:
     """
 
     def __init__(self, x: float32 = 0.0, y: float32 = 0.0, z: float32 = 0.0):
-        self.x = 0
+        self.x = x
         """angular velocity about the x axis"""
-        self.y = 0
+        self.y = y
         """angular velocity about the y axis"""
-        self.z = 0
+        self.z = z
         """angular velocity about the zaxis"""
 
     def serialize(self, outputStream):
-- 
2.43.0


From 49b4ff23ccb38620767ca502b2c0163dfa893ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 25/53] fix: AggregateMarking constructor keeps its characters

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index d0f414a..ff9d901 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2741,7 +2741,7 @@ class AggregateMarking:
                  characters=None):
         self.characterSet = characterSet
         """The character set"""
-        self.characters = [0] * 31
+        self.characters = characters or [0] * 31
         """The characters"""
 
     def serialize(self, outputStream):
-- 
2.43.0


From acf3c925aaad8789c9d9b1f3e7e74c1bc4cf0467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 26/53] fix: DataQueryPdu constructor keeps its request ID and
 time interval

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ff9d901..d38caf0 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4070,8 +4070,8 @@ class DataQueryPdu(SimulationManagementFamilyPdu):
                  fixedDatumIDs: list[enum32] | None = None,
                  variableDatumIDs: list[enum32] | None = None):
         super(DataQueryPdu, self).__init__()
-        self.requestID = 0
-        self.timeInterval = 0
+        self.requestID = requestID
+        self.timeInterval = timeInterval
         """time issues between issues of Data PDUs. Zero means send once only."""
         # Use DataQueryDatumSpecification
         self._dataQuery = DataQueryDatumSpecification(fixedDatumIDs or [],
-- 
2.43.0


From 46ac6ab795f15a62bced91b32980908422313bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 27/53] fix: StorageFuelReload reload times are 32 bits wide

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index d38caf0..0590bc5 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2978,8 +2978,8 @@ class StorageFuelReload:
         """serialize the class"""
         outputStream.write_unsigned_int(self.standardQuantity)
         outputStream.write_unsigned_int(self.maximumQuantity)
-        outputStream.write_unsigned_byte(self.standardQuantityReloadTime)
-        outputStream.write_unsigned_byte(self.maximumQuantityReloadTime)
+        outputStream.write_unsigned_int(self.standardQuantityReloadTime)
+        outputStream.write_unsigned_int(self.maximumQuantityReloadTime)
         outputStream.write_unsigned_byte(self.fuelMeasurementUnits)
         outputStream.write_unsigned_byte(self.fuelType)
         outputStream.write_unsigned_byte(self.fuelLocation)
@@ -2989,8 +2989,8 @@ class StorageFuelReload:
         """Parse a message. This may recursively call embedded objects."""
         self.standardQuantity = inputStream.read_unsigned_int()
         self.maximumQuantity = inputStream.read_unsigned_int()
-        self.standardQuantityReloadTime = inputStream.read_unsigned_byte()
-        self.maximumQuantityReloadTime = inputStream.read_unsigned_byte()
+        self.standardQuantityReloadTime = inputStream.read_unsigned_int()
+        self.maximumQuantityReloadTime = inputStream.read_unsigned_int()
         self.fuelMeasurementUnits = inputStream.read_unsigned_byte()
         self.fuelType = inputStream.read_unsigned_byte()
         self.fuelLocation = inputStream.read_unsigned_byte()
-- 
2.43.0


From 4805790748a389ccd746d06694f6caf611a8383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 28/53] fix: AttributePdu defines its PDU type

---
 opendis/dis7.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 0590bc5..ab9f231 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5335,6 +5335,7 @@ class AttributePdu(EntityInformationFamilyPdu):
     See 5.3.6 for the information requirements and issuance and receipt rules
     for this PDU. INCOMPLETE
     """
+    pduType: enum8 = 72  # [UID 4]
 
     def __init__(self,
                  originatingSimulationAddress: "SimulationAddress | None" = None,
-- 
2.43.0


From f2403e45f9be73944a2a1c83046a1bce239495fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 29/53] fix: VariableDatum carries every octet of a datum that
 is not a whole number of octets

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ab9f231..948bcb5 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3320,7 +3320,7 @@ class VariableDatum:
         """serialize the class"""
         outputStream.write_unsigned_int(self.variableDatumID)
         outputStream.write_unsigned_int(self.variableDatumLength)
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             outputStream.write_unsigned_byte(self.variableData[x])
 
         #send padding
@@ -3331,7 +3331,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
         # Skip over padding
-- 
2.43.0


From b3b442cb1f47e0aa83576902d3991032993c1db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 30/53] fix: EventReportPdu exposes its datum records

---
 opendis/dis7.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 948bcb5..ff2aa5d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5485,6 +5485,22 @@ class EventReportPdu(SimulationManagementFamilyPdu):
         self._datums = DatumSpecification(fixedDatumRecords or [],
                                           variableDatumRecords or [])
 
+    @property
+    def numberOfFixedDatumRecords(self) -> int:
+        return self._datums.numberOfFixedDatumRecords
+
+    @property
+    def numberOfVariableDatumRecords(self) -> int:
+        return self._datums.numberOfVariableDatumRecords
+
+    @property
+    def fixedDatumRecords(self) -> list["FixedDatum"]:
+        return self._datums.fixedDatumRecords
+
+    @property
+    def variableDatumRecords(self) -> list["VariableDatum"]:
+        return self._datums.variableDatumRecords
+
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportPdu, self).serialize(outputStream)
-- 
2.43.0


From d42e7b26f9d062ebd1f3bb1780a873fb86ccac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 31/53] fix: DesignatorPdu dead reckoning algorithm is an
 unsigned octet

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ff2aa5d..25837b6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4728,7 +4728,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         outputStream.write_float(self.designatorWavelength)
         self.designatorSpotWrtDesignated.serialize(outputStream)
         self.designatorSpotLocation.serialize(outputStream)
-        outputStream.write_byte(self.deadReckoningAlgorithm)
+        outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         outputStream.write_unsigned_short(self.padding1)
         outputStream.write_byte(self.padding2)
         self.entityLinearAcceleration.serialize(outputStream)
@@ -4744,7 +4744,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         self.designatorWavelength = inputStream.read_float()
         self.designatorSpotWrtDesignated.parse(inputStream)
         self.designatorSpotLocation.parse(inputStream)
-        self.deadReckoningAlgorithm = inputStream.read_byte()
+        self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_short()
         self.padding2 = inputStream.read_byte()
         self.entityLinearAcceleration.parse(inputStream)
-- 
2.43.0


From 4710dae491e963ebfc57a8a9608894bf2f130afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 32/53] fix: FastEntityStatePdu reads and writes its unsigned
 fields as unsigned

---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 25837b6..a374d5d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5782,7 +5782,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_unsigned_short(self.application)
         outputStream.write_unsigned_short(self.entity)
         outputStream.write_unsigned_byte(self.forceId)
-        outputStream.write_byte(len(self.variableParameters))
+        outputStream.write_unsigned_byte(len(self.variableParameters))
         outputStream.write_unsigned_byte(self.entityKind)
         outputStream.write_unsigned_byte(self.domain)
         outputStream.write_unsigned_short(self.country)
@@ -5806,10 +5806,10 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.psi)
         outputStream.write_float(self.theta)
         outputStream.write_float(self.phi)
-        outputStream.write_int(self.entityAppearance)
+        outputStream.write_unsigned_int(self.entityAppearance)
         outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         for idx in range(0, 15):
-            outputStream.write_byte(self.otherParameters[idx])
+            outputStream.write_unsigned_byte(self.otherParameters[idx])
 
         outputStream.write_float(self.xAcceleration)
         outputStream.write_float(self.yAcceleration)
@@ -5818,9 +5818,9 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.yAngularVelocity)
         outputStream.write_float(self.zAngularVelocity)
         for idx in range(0, 12):
-            outputStream.write_byte(self.marking[idx])
+            outputStream.write_unsigned_byte(self.marking[idx])
 
-        outputStream.write_int(self.capabilities)
+        outputStream.write_unsigned_int(self.capabilities)
         for anObj in self.variableParameters:
             anObj.serialize(outputStream)
 
@@ -5831,7 +5831,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.application = inputStream.read_unsigned_short()
         self.entity = inputStream.read_unsigned_short()
         self.forceId = inputStream.read_unsigned_byte()
-        self.numberOfVariableParameters = inputStream.read_byte()
+        self.numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.entityKind = inputStream.read_unsigned_byte()
         self.domain = inputStream.read_unsigned_byte()
         self.country = inputStream.read_unsigned_short()
@@ -5855,11 +5855,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.psi = inputStream.read_float()
         self.theta = inputStream.read_float()
         self.phi = inputStream.read_float()
-        self.entityAppearance = inputStream.read_int()
+        self.entityAppearance = inputStream.read_unsigned_int()
         self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.otherParameters = [0] * 15
         for idx in range(0, 15):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.otherParameters[idx] = val
 
@@ -5871,11 +5871,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.zAngularVelocity = inputStream.read_float()
         self.marking = [0] * 12
         for idx in range(0, 12):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.marking[idx] = val
 
-        self.capabilities = inputStream.read_int()
+        self.capabilities = inputStream.read_unsigned_int()
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
-- 
2.43.0


From 19deb7966755d2ca5e03f5f8f27c078a1dd9cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 33/53] fix: DirectedEnergyFirePdu reads and writes its
 cumulative shot time

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a374d5d..b732491 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6376,7 +6376,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).serialize(outputStream)
         self.munitionType.serialize(outputStream)
         self.shotStartTime.serialize(outputStream)
-        outputStream.write_float32(self.commulativeShotTime)
+        outputStream.write_float32(self.cumulativeShotTime)
         self.apertureEmitterLocation.serialize(outputStream)
         outputStream.write_float32(self.apertureDiameter)
         outputStream.write_float32(self.wavelength)
@@ -6396,7 +6396,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).parse(inputStream)
         self.munitionType.parse(inputStream)
         self.shotStartTime.parse(inputStream)
-        self.commulativeShotTime = inputStream.read_float32()
+        self.cumulativeShotTime = inputStream.read_float32()
         self.apertureEmitterLocation.parse(inputStream)
         self.apertureDiameter = inputStream.read_float32()
         self.wavelength = inputStream.read_float32()
-- 
2.43.0


From 31758e3803360b71447bb6b95bffbad2cbce0d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 34/53] fix: PduSuperclass keeps the protocol family it is
 given

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index b732491..3ca78fc 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3448,9 +3448,9 @@ class PduSuperclass:
             self.pduType = pduType
         """Type of pdu, unique for each PDU class"""
         
-        if protocolFamily is None and not hasattr(self, 'pduType'):
+        if protocolFamily is None and not hasattr(self, 'protocolFamily'):
             raise ValueError("protocolFamily must be set on subclasses of PduSuperclass or passed in via init")
-        elif pduType is not None:
+        elif protocolFamily is not None:
             self.protocolFamily = protocolFamily
         """value that refers to the protocol family, eg SimulationManagement, et"""
         
-- 
2.43.0


From 9f4a30e7a01fd8342565dcdb5c4c5d85dcf44e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 35/53] fix: read_uint64 reads an unsigned integer

---
 opendis/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 908e976..2e43fe7 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -101,7 +101,7 @@ class DataInputStream:
         return uint32(self.read_unsigned_int())
 
     def read_uint64(self) -> uint64:
-        return uint64(self.read_long())
+        return uint64(struct.unpack('>Q', self.stream.read(8))[0])
 
 
 class DataOutputStream:
-- 
2.43.0


From 3ee2d96d4524af2f007cb958f0ac911dade6953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 36/53] fix: char8 values are one octet, read and written alike

---
 opendis/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 2e43fe7..4e20734 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -71,7 +71,7 @@ class DataInputStream:
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-        return char8(self.read_char())
+        return char8(chr(self.read_unsigned_byte()))
 
     def read_float32(self) -> float32:
         return float32(self.read_float())
@@ -151,7 +151,7 @@ class DataOutputStream:
 
     # Aliases for convenience
     def write_char8(self, val: char8) -> None:
-        self.write_byte(ord(val))
+        self.write_unsigned_byte(ord(val))
 
     def write_float32(self, val: float32) -> None:
         self.write_float(val)
-- 
2.43.0


From b6b53952760524938d8094b0b9f0f0ecfc17f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 37/53] fix: reading octets past the end of the stream is an
 error

---
 opendis/stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 4e20734..bcf8aa3 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -57,7 +57,7 @@ class DataInputStream:
 
     def read_utf(self) -> bytes:
         utf_length = struct.unpack('>H', self.stream.read(2))[0]
-        return self.stream.read(utf_length)
+        return self.read_bytes(utf_length)
 
     def read_int(self) -> int32:
         return struct.unpack('>i', self.stream.read(4))[0]
@@ -67,7 +67,12 @@ class DataInputStream:
 
     def read_bytes(self, n: int) -> bytes:
         """Read n bytes from the stream."""
-        return self.stream.read(n)
+        if n < 0:
+            raise ValueError(f"Cannot read a negative number of bytes: {n}")
+        data = self.stream.read(n)
+        if len(data) != n:
+            raise EOFError(f"Expected {n} bytes, got {len(data)}")
+        return data
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-- 
2.43.0


From 47c8a4dce59cf365673b0f09b9fcec6ee29daf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 38/53] fix: standard variable records write their type and
 length once, length as 16 bits

---
 opendis/record/__init__.py         | 2 --
 opendis/record/base.py             | 2 +-
 opendis/record/warfare/__init__.py | 6 ------
 3 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 50f57b7..4aeb047 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -57,8 +57,6 @@ def getStandardVariableClass(
 
         def serialize(self, outputStream: DataOutputStream) -> None:
             super().serialize(outputStream)
-            outputStream.write_uint32(self.recordType)
-            outputStream.write_uint16(self.recordLength)
             outputStream.write_bytes(self.data)
 
         def parse(self,
diff --git a/opendis/record/base.py b/opendis/record/base.py
index 735025f..455501b 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -85,7 +85,7 @@ class StandardVariableRecord(VariableRecord):
         """Serialize the record to the output stream."""
         super().serialize(outputStream)
         outputStream.write_uint32(self.recordType)
-        outputStream.write_uint32(self.recordLength)
+        outputStream.write_uint16(self.recordLength)
 
     @abstractmethod
     def parse(self,  # pyright: ignore [reportIncompatibleMethodOverride]
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index d0ea1dd..04e56d3 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -74,8 +74,6 @@ class DirectedEnergyDamage(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.damageLocation.serialize(outputStream)
         outputStream.write_float32(self.damageDiameter)
@@ -138,8 +136,6 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         outputStream.write_uint16(self.beamAntennaPatternCount)
         outputStream.write_uint16(
@@ -209,8 +205,6 @@ class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.targetSpotLocation.serialize(outputStream)
         self.targetSpotEntityLocation.serialize(outputStream)
-- 
2.43.0


From 6bd80505f8bfdca78d3e16d478a6993d692d63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 39/53] fix: DirectedEnergyAreaAimpoint size covers its counts
 and padding to 64 bits

---
 opendis/record/warfare/__init__.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 04e56d3..bbfeb5f 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -126,14 +126,17 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     def directedEnergyTargetEnergyDepositionCount(self) -> uint16:
         return len(self.directedEnergyTargetEnergyDepositions)
 
-    def marshalledSize(self) -> int:
-        size = 8  # recordType, recordLength, padding
+    def _unpaddedSize(self) -> int:
+        size = 12  # recordType, recordLength, padding, record counts
         for record in self.beamAntennaPatterns:
             size += record.marshalledSize()
         for record in self.directedEnergyTargetEnergyDepositions:
             size += record.marshalledSize()
         return size
-    
+
+    def marshalledSize(self) -> int:
+        return (self._unpaddedSize() + 7) // 8 * 8
+
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
         outputStream.write_uint16(self.padding)
@@ -147,6 +150,11 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
         for record in self.directedEnergyTargetEnergyDepositions:
             record.serialize(outputStream)
 
+        # Pad to a 64-bit boundary
+        outputStream.write_bytes(
+            bytes(self.marshalledSize() - self._unpaddedSize())
+        )
+
     def parse(self,
               inputStream: DataInputStream,
               bytelength: int) -> None:
@@ -164,6 +172,9 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
             record.parse(inputStream)
             self.directedEnergyTargetEnergyDepositions.append(record)
 
+        # Skip the padding to a 64-bit boundary
+        inputStream.read_bytes(self.marshalledSize() - self._unpaddedSize())
+
 
 class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
     """6.2.20.3 DE Precision Aimpoint record
-- 
2.43.0


From 4fe5e46baf5e1cdb6b6c4ae58081d1da9b719f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 40/53] fix: unrecognised standard variable records are
 accepted where a record of a family is expected

---
 opendis/record/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 4aeb047..3482a94 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -45,7 +45,7 @@ def getStandardVariableClass(
 
     # Declare a local class since the recordType class variable will need to be
     # set for each new unrecognised record type.
-    class UnknownStandardVariableRecord(base.StandardVariableRecord):
+    class UnknownStandardVariableRecord(expectedType):
         """A placeholder class for unrecognised Standard Variable Records."""
         recordType: enum32
 
-- 
2.43.0


From 194750f00f2a440faaac7ebbbfb702bd489a9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 41/53] fix: a standard variable record whose length does not
 match its type is rejected

---
 opendis/dis7.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3ca78fc..dc11642 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -65,6 +65,11 @@ def parseStandardVariableRecord(
     svClass = getStandardVariableClass(recordType, expectedType)
     sv_instance = svClass()
     sv_instance.parse(inputStream, recordLength)
+    if sv_instance.marshalledSize() != recordLength:
+        raise ValueError(
+            f"Record Type {recordType}: recordLength is {recordLength}, "
+            f"expected {sv_instance.marshalledSize()}"
+        )
     return sv_instance
 
 
-- 
2.43.0


From ecdd4b46f48c68096496438b79b1794615ae3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 42/53] fix: UnknownAntennaPattern reads all its octets

---
 opendis/record/radio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 8667ef5..699c77c 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -96,7 +96,7 @@ class UnknownAntennaPattern(AntennaPatternRecord):
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
         # Read the remaining bytes in the record
-        self.data = inputStream.read_bytes(bytelength - 6)
+        self.data = inputStream.read_bytes(bytelength)
 
 
 # Implementations
-- 
2.43.0


From f6ff4a6ba1c4319c372095208c3ed53e59558713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 43/53] fix: SpreadSpectrum keeps its unused bits when parsed

---
 opendis/record/radio/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 699c77c..36d6f97 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -213,6 +213,7 @@ class SpreadSpectrum(base.Record):
         self.frequencyHopping = bool(record_bitfield.frequencyHopping)
         self.pseudoNoise = bool(record_bitfield.pseudoNoise)
         self.timeHopping = bool(record_bitfield.timeHopping)
+        self.padding = record_bitfield.padding
 
 
 class ModulationType(base.Record):
-- 
2.43.0


From 3c343c3e156780f14697b6f2aacd371efb86f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 44/53] fix: DEFireFlags keeps its unused bits when serialized

---
 opendis/record/warfare/enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/record/warfare/enums.py b/opendis/record/warfare/enums.py
index 01d188a..b6a9e97 100644
--- a/opendis/record/warfare/enums.py
+++ b/opendis/record/warfare/enums.py
@@ -29,6 +29,7 @@ class DEFireFlags(base.Record):
         self._struct(
             self.weaponOn,
             self.stateUpdateFlag,
+            self.padding,
         ).serialize(outputStream)
 
     def parse(self, inputStream: DataInputStream) -> None:
-- 
2.43.0


From bf65161c2227e1d8bdeffd5532d3441f51d977e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 45/53] fix: bitfields reject values that do not fit their
 fields

---
 opendis/record/bitfield.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index a3df951..40f9285 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -99,6 +99,15 @@ def bitfield(name: str,
     class Bitfield(BigEndianStructure):
         _fields_ = struct_fields
 
+        def __init__(self, *values: int) -> None:
+            # ctypes silently discards the bits that do not fit
+            for (field_name, _, bits), value in zip(fields, values):
+                if not 0 <= value < 1 << bits:
+                    raise ValueError(
+                        f"{field_name} must fit in {bits} bits, got {value!r}"
+                    )
+            super().__init__(*values)
+
         @staticmethod
         def marshalledSize() -> int:
             return bytesize
-- 
2.43.0


From 0f93f1ba46c0fa2b4c57c7da345e3fe2d3b9a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 46/53] fix: TransmitterPdu keeps to the declared length of its
 radio and antenna records

---
 opendis/dis7.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index dc11642..fcecdc5 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5082,16 +5082,15 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
                     radio = SimpleIntercomRadio()
                 else:
                     radio = GenericRadio()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem in (2, 3, 4):  # HAVE QUICK I | II | HAVE QUICK IIA
                 radio = BasicHaveQuickMP()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem == 6:  # CCTT SINCGARS
                 radio = CCTTSincgarsMP()
-                radio.parse(inputStream)
             else:  # Other | Unknown
                 radio = UnknownRadio()
-                radio.parse(inputStream, bytelength=modulationParametersLength)
+            if radio.marshalledSize() != modulationParametersLength:
+                radio = UnknownRadio()
+            radio.parse(inputStream, bytelength=modulationParametersLength)
             self.modulationParameters = radio
         else:
             self.modulationParameters = None
@@ -5100,13 +5099,14 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
         if antennaPatternLength > 0:
             if self.antennaPatternType == 1:
                 self.antennaPattern = BeamAntennaPattern()
-                self.antennaPattern.parse(inputStream)
             else:
                 self.antennaPattern = UnknownAntennaPattern()
-                self.antennaPattern.parse(
-                    inputStream,
-                    bytelength=antennaPatternLength
-                )
+            if self.antennaPattern.marshalledSize() != antennaPatternLength:
+                self.antennaPattern = UnknownAntennaPattern()
+            self.antennaPattern.parse(
+                inputStream,
+                bytelength=antennaPatternLength
+            )
         else:
             self.antennaPattern = None
         
-- 
2.43.0


From 139a43decaf4d4ee530a97101f2199785abe5baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 47/53] fix: PduFactory decodes every PDU type the package
 defines

---
 opendis/PduFactory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 97921de..db1cebe 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -14,7 +14,7 @@ PduTypeDecoders = {
     ,  3 : DetonationPdu
     ,  4 : CollisionPdu
     ,  5 : ServiceRequestPdu
-    ,  6 : CollisionElasticPdu
+    ,  6 : ResupplyOfferPdu
     ,  7 : ResupplyReceivedPdu
     ,  9 : RepairCompletePdu
     , 10 : RepairResponsePdu
@@ -36,18 +36,19 @@ PduTypeDecoders = {
     , 26 : SignalPdu
     , 27 : ReceiverPdu
     , 29 : UaPdu
+    , 30 : SeesPdu
     , 31 : IntercomSignalPdu
     , 32 : IntercomControlPdu
     , 33 : AggregateStatePdu
     , 36 : IsPartOfPdu
     , 37 : MinefieldStatePdu
     , 40 : MinefieldResponseNackPdu
-    , 41 : PointObjectStatePdu
     , 43 : PointObjectStatePdu
     , 44 : LinearObjectStatePdu
     , 45 : ArealObjectStatePdu
     , 51 : CreateEntityReliablePdu
     , 52 : RemoveEntityReliablePdu
+    , 53 : StartResumeReliablePdu
     , 54 : StopFreezeReliablePdu
     , 55 : AcknowledgeReliablePdu
     , 56 : ActionRequestReliablePdu
@@ -60,7 +61,9 @@ PduTypeDecoders = {
     , 63 : RecordQueryReliablePdu
     , 66 : CollisionElasticPdu
     , 67 : EntityStateUpdatePdu
+    , 68 : DirectedEnergyFirePdu
     , 69 : EntityDamageStatusPdu
+    , 72 : AttributePdu
  }
 
 
-- 
2.43.0


From 8924530113e2b8d970a555e5acfa629fa9e80d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 48/53] fix: StandardVariableSpecification parses its records
 like the PDUs do

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index fcecdc5..fbaf3bb 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2614,10 +2614,10 @@ class StandardVariableSpecification:
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
         for idx in range(0, numberOfStandardVariableRecords):
-            recordType = inputStream.read_uint32()
-            recordLength = inputStream.read_uint16()
-            element = getStandardVariableClass(recordType)()
-            element.parse(inputStream, bytelength=recordLength)
+            element = parseStandardVariableRecord(
+                inputStream,
+                base.StandardVariableRecord
+            )
             self.standardVariables.append(element)
 
 
-- 
2.43.0


From 22e060ac81b5ec8fdade3e10cf9fc4dd9f979e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 49/53] fix: ecef2lla altitude is accurate near the poles

---
 opendis/RangeCoordinates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 4c9da54..b12a2a6 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -151,7 +151,9 @@ class GPS:
             sinLat = z / (N * (1 - self.wgs84.e**2) + alt)
             lat = atan((z + self.wgs84.e**2 * N * sinLat) / p)
             N = self.wgs84.a / sqrt(1 - (self.wgs84.e * sinLat)**2)
-            alt = p / cos(lat) - N
+            # p / cos(lat) - N is ill-conditioned near the poles
+            alt = (p * cos(lat) + z * sin(lat)
+                   - self.wgs84.a * sqrt(1 - (self.wgs84.e * sin(lat))**2))
 
         # Return the lla coordinates
         return (rad2deg(lat), rad2deg(lon), alt)
-- 
2.43.0


From 55e310d650032dc99d704bb2f6274798ab35cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 50/53] fix: UTM latitude band X extends to 84 degrees north

---
 opendis/RangeCoordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index b12a2a6..709aa82 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -562,7 +562,7 @@ class GPS:
         elif 48 <= lat < 56: return 'U'
         elif 56 <= lat < 64: return 'V'
         elif 64 <= lat < 72: return 'W'
-        elif 72 <= lat < 80: return 'X'
+        elif 72 <= lat <= 84: return 'X'
         else: return 'Z'
 
 
-- 
2.43.0


From f3f8406380017025f03efffc61a13a55d36a87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 51/53] fix: lla2utm places longitude 180 in zone 1

---
 opendis/RangeCoordinates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 709aa82..0a1103a 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -344,6 +344,8 @@ class GPS:
         lat = lla[0]
         lon = lla[1]
         alt = lla[2]
+        #180 degrees east is the western edge of zone 1
+        if lon == 180.: lon = -180.
         #Determine the zone number
         zoneNumber = int((lon+180.)/6) + 1
         #Special zone for Norway
-- 
2.43.0


From 42da54075464b87518eca22699d369bb7b7045d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 52/53] fix: lla2utm northing in the southern hemisphere has
 the 10000 km false northing

---
 opendis/RangeCoordinates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 0a1103a..ed8805f 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -394,6 +394,8 @@ class GPS:
                 A**2/2. + \
                 (5.-T+9.*C+4.*C**2)*A**4/24. + \
                 (61.-58.*T+T**2+600.*C-330.*ePrimeSquared)*A**6/720.))
+        #False northing in the southern hemisphere
+        if lat < 0: y += 10000000.
         #Calculate scale factor
         k = k0*(1 + \
             (1+C)*A**2/2. + \
-- 
2.43.0


From ce5aa6769e7a372085ba7a906fe665b284e67c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 53/53] fix: Svalbard UTM zones include latitude 84, the edge
 of band X

---
 opendis/RangeCoordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index ed8805f..db3d925 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -352,7 +352,7 @@ class GPS:
         if (56. <= lat < 64.) and (3. <= lon < 12.):
             zoneNumber = 32
         #Special zones for Svalbard
-        if 72. <= lat < 84.:
+        if 72. <= lat <= 84.:
             if 0. <= lon < 9.: zoneNumber = 31
             elif 9. <= lon < 21.: zoneNumber = 33
             elif 21. <= lon < 33.: zoneNumber = 35
-- 
2.43.0

