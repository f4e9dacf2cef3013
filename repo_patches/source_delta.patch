From 29bc12b7a96a8d3b64f217ee67317d985287f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 01/36] fix: validate header length instead of panicking on a
 wrong HL or FDL

---
 libs/egts/egts_pkg.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c40d6cb..1f5e731 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -101,7 +101,16 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
-	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
+	// длина заголовка однозначно определяется наличием полей маршрутизации
+	headerLen := DEFAULT_HEADER_LEN
+	if p.Route == "1" {
+		headerLen += 5
+	}
+	if int(p.HeaderLength) != headerLen {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
+	if p.HeaderCheckSum != crc8(content[:headerLen-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
 
@@ -130,7 +139,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 9a7036053e2d4acd7520bd333821cf75de629605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 02/36] fix: check the body checksum before decoding the body
 and report it as EGTS_PC_DATACRC_ERROR

---
 libs/egts/egts_pkg.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 1f5e731..3f8164a 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -118,6 +118,16 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	if _, err = buf.Read(dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
+	crcBytes := make([]byte, 2)
+	if _, err = buf.Read(crcBytes); err != nil {
+		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
+	}
+	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
+
+	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+	}
+
 	switch p.PacketType {
 	case PtAppdataPacket:
 		p.ServicesFrameData = &ServiceDataSet{}
@@ -132,16 +142,6 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	if err = p.ServicesFrameData.Decode(dataFrameBytes); err != nil {
 		return egtsPcDecryptError, err
 	}
-
-	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
-		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
-	}
-	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
-
-	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
-	}
 	return egtsPcOk, err
 }
 
-- 
2.43.0


From 2470641ad7e76db0f9ed68feb90cf5ee57d6f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 03/36] fix: altitude of EGTS_SR_POS_DATA is three bytes long

---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..1ddd9c4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -119,7 +119,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From 6ad5294e7ec98a5ae08336686407600bb92666dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 04/36] fix: reject truncated packets, records and subrecords
 instead of decoding stale or zero bytes

---
 libs/egts/egts_pkg.go                    | 13 +++++++------
 libs/egts/egts_pt_response.go            |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  5 +++--
 libs/egts/egts_sr_pos_data.go            | 13 +++++++------
 libs/egts/egts_sr_response.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 libs/egts/record_data.go                 |  6 +++++-
 libs/egts/service_data_records.go        | 13 +++++++------
 13 files changed, 69 insertions(+), 53 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 3f8164a..da096be 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -67,12 +68,12 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить длину секции данных: %v", err)
 	}
 	p.FrameDataLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить идентификатор пакета: %v", err)
 	}
 	p.PacketIdentifier = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -82,12 +83,12 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	if p.Route == "1" {
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк отправителя: %v", err)
 		}
 		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк получателя: %v", err)
 		}
 		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -115,11 +116,11 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..e48cdc5 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //PtResponse структура подзаписи типа EGTS_PT_RESPONSE
@@ -21,7 +22,7 @@ func (s *PtResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор пакета из ответа: %v", err)
 	}
 	s.ResponsePacketID = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..be70056 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..b8128d4 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..dc346f6 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,13 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 1ddd9c4..83bf2a4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,14 +46,14 @@ func (e *SrPosData) Decode(content []byte) error {
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 	tmpUint32Buf := make([]byte, 4)
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время навигации: %v", err)
 	}
 	preFieldVal := binary.LittleEndian.Uint32(tmpUint32Buf)
 	e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить широту: %v", err)
 	}
 
@@ -60,7 +61,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Latitude = float64(float64(preFieldVal) * 90 / 0xFFFFFFFF)
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время долгату: %v", err)
 	}
 	preFieldVal = binary.LittleEndian.Uint32(tmpUint32Buf)
@@ -82,7 +83,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	// скорость
 	tmpUint16Buf := make([]byte, 2)
-	if _, err = buf.Read(tmpUint16Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint16Buf); err != nil {
 		return fmt.Errorf("Не удалось получить скорость: %v", err)
 	}
 	spd := binary.LittleEndian.Uint16(tmpUint16Buf)
@@ -103,7 +104,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Direction |= e.DirectionHighestBit << 7
 
 	bytesTmpBuf := make([]byte, 3)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить пройденное расстояние (пробег) в км: %v", err)
 	}
 	bytesTmpBuf = append(bytesTmpBuf, 0x00)
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..31b8921 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrResponse структура подзаписи типа EGTS_SR_RESPONSE, которая применяется для подтверждения
@@ -21,7 +22,7 @@ func (s *SrResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить номер подтверждаемой записи: %v", err)
 	}
 	s.ConfirmedRecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 9b8fcb3..7a659dc 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index bbcf14d..ecaa1a4 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -29,11 +30,14 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if buf.Len() < int(rd.SubrecordLength) {
+			return fmt.Errorf("Не верная длина subrecord data: %d, доступно: %d", rd.SubrecordLength, buf.Len())
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 7a5b635..75bb4eb 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -40,12 +41,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	for buf.Len() > 0 {
 		sdr := ServiceDataRecord{}
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи SDR: %v", err)
 		}
 		sdr.RecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить номер записи SDR: %v", err)
 		}
 		sdr.RecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -64,7 +65,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.ObjectIDFieldExists == "1" {
 			oid := make([]byte, 4)
-			if _, err := buf.Read(oid); err != nil {
+			if _, err := io.ReadFull(buf, oid); err != nil {
 				return fmt.Errorf("Не удалось получить идентификатор объекта SDR: %v", err)
 			}
 			sdr.ObjectIdentifier = binary.LittleEndian.Uint32(oid)
@@ -72,7 +73,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.EventIDFieldExists == "1" {
 			event := make([]byte, 4)
-			if _, err := buf.Read(event); err != nil {
+			if _, err := io.ReadFull(buf, event); err != nil {
 				return fmt.Errorf("Не удалось получить идентификатор события SDR: %v", err)
 			}
 			sdr.EventIdentifier = binary.LittleEndian.Uint32(event)
@@ -80,7 +81,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.TimeFieldExists == "1" {
 			tm := make([]byte, 4)
-			if _, err := buf.Read(tm); err != nil {
+			if _, err := io.ReadFull(buf, tm); err != nil {
 				return fmt.Errorf("Не удалось получить время формирования записи на стороне отправителя SDR: %v", err)
 			}
 			sdr.Time = binary.LittleEndian.Uint32(tm)
@@ -97,7 +98,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
-- 
2.43.0


From 4d4f0ab92d6f1dd104790eb2f6381cd56439aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 05/36] fix: decode packets without a body (FDL = 0), which
 carry no body checksum

---
 libs/egts/egts_pkg.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index da096be..a018d42 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -116,17 +116,20 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
-		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
-	}
-	crcBytes := make([]byte, 2)
-	if _, err = io.ReadFull(buf, crcBytes); err != nil {
-		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
-	}
-	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
+	// тело и его crc присутствуют в пакете, только если FDL > 0
+	if p.FrameDataLength > 0 {
+		if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
+			return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
+		}
+		crcBytes := make([]byte, 2)
+		if _, err = io.ReadFull(buf, crcBytes); err != nil {
+			return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
+		}
+		p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
-		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+		if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
+			return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+		}
 	}
 
 	switch p.PacketType {
-- 
2.43.0


From 80b37aa1f980fdc6aecee7a901a7bfb61c7fa019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 06/36] fix: encode the analog sensor flags of
 EGTS_SR_AD_SENSORS_DATA in the order the decoder reads them

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index be70056..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -235,14 +235,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 79346484c91f26c1a9142ed70a812a8dedff7d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 07/36] fix: decode CN2 of EGTS_SR_COUNTERS_DATA into the
 second counter

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index b8128d4..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -66,7 +66,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From f6fcf90670294a1188a8c1a6cbc3bfeb9b9d8bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 08/36] fix: choose the subrecord type of
 EGTS_SR_DISPATCHER_IDENTITY when it is not given

---
 libs/egts/record_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index ecaa1a4..78a24ff 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -127,6 +127,8 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From c463dccebd65ed2347173dc012a870e6f795df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 09/36] fix: do not let an out-of-range speed or sensor number
 overwrite neighbouring bits when encoding

---
 libs/egts/egts_sr_liquid_level_sensor.go | 5 +++++
 libs/egts/egts_sr_pos_data.go            | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index dc346f6..c94ba13 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -66,6 +66,11 @@ func (e *SrLiquidLevelSensor) Encode() ([]byte, error) {
 	)
 	buf := new(bytes.Buffer)
 
+	// под номер датчика отведено 3 бита
+	if e.LiquidLevelSensorNumber > 7 {
+		return result, fmt.Errorf("Не верный номер датчика ДУЖ: %d", e.LiquidLevelSensorNumber)
+	}
+
 	flagsBits := "0" + e.LiquidLevelSensorErrorFlag + e.LiquidLevelSensorValueUnit +
 		e.RawDataFlag + fmt.Sprintf("%03b", e.LiquidLevelSensorNumber)
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 83bf2a4..be1a236 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -165,6 +165,12 @@ func (e *SrPosData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать флаги: %v", err)
 	}
 
+	// под скорость с дискретностью 0,1 км отведено 14 бит, знак высоты и старший бит направления по 1 биту
+	if e.Speed > 1638 || e.DirectionHighestBit > 1 || e.AltitudeSign > 1 {
+		return result, fmt.Errorf("Не верная скорость, направление или знак высоты: %d, %d, %d",
+			e.Speed, e.DirectionHighestBit, e.AltitudeSign)
+	}
+
 	// скорость
 	speed := e.Speed*10 | uint16(e.DirectionHighestBit)<<15 // 15 бит
 	speed = speed | uint16(e.AltitudeSign)<<14              //14 бит
-- 
2.43.0


From ce354234d5444a5a9170d3c4b0fbbbf3c06612df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 10/36] fix: write the fixed-size fields of
 EGTS_SR_TERM_IDENTITY at their size and report bad flags

---
 libs/egts/egts_sr_term_identity.go | 45 +++++++++++++++++-------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 7a659dc..534bfb9 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -129,6 +129,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
@@ -140,36 +143,26 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.IMEIE == "1" {
-		wbb := 0
-		if wbb, err = buf.Write([]byte(e.IMEI)); err != nil {
-			return result, fmt.Errorf("Не удалось записать IMEI при авторизации")
-		}
-		if wbb < 15 {
-			tmp := make([]byte, 15-wbb)
-			buf.Write(tmp)
+		if err = writeFixed(buf, []byte(e.IMEI), 15); err != nil {
+			return result, fmt.Errorf("Не удалось записать IMEI при авторизации: %v", err)
 		}
 	}
 
 	if e.IMSIE == "1" {
-		wbb := 0
-		if wbb, err = buf.Write([]byte(e.IMSI)); err != nil {
-			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
-		}
-		if wbb < 16 {
-			tmp := make([]byte, 16-wbb)
-			buf.Write(tmp)
+		if err = writeFixed(buf, []byte(e.IMSI), 16); err != nil {
+			return result, fmt.Errorf("Не удалось записать IMSI при авторизации: %v", err)
 		}
 	}
 
 	if e.LNGCE == "1" {
-		if _, err = buf.Write([]byte(e.LanguageCode)); err != nil {
-			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
+		if err = writeFixed(buf, []byte(e.LanguageCode), 3); err != nil {
+			return result, fmt.Errorf("Не удалось записать IMSI при авторизации: %v", err)
 		}
 	}
 
 	if e.NIDE == "1" {
-		if _, err = buf.Write(e.NetworkIdentifier); err != nil {
-			return result, fmt.Errorf("Не удалось записать код идентификатор сети оператора при авторизации")
+		if err = writeFixed(buf, e.NetworkIdentifier, 3); err != nil {
+			return result, fmt.Errorf("Не удалось записать код идентификатор сети оператора при авторизации: %v", err)
 		}
 	}
 
@@ -180,8 +173,8 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.MNE == "1" {
-		if _, err = buf.Write([]byte(e.MobileNumber)); err != nil {
-			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента")
+		if err = writeFixed(buf, []byte(e.MobileNumber), 15); err != nil {
+			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента: %v", err)
 		}
 	}
 
@@ -189,6 +182,18 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	return result, err
 }
 
+//writeFixed записывает поле фиксированной длины, дополняя его нулями
+func writeFixed(buf *bytes.Buffer, value []byte, size int) error {
+	if len(value) > size {
+		return fmt.Errorf("длина поля %d больше допустимой %d", len(value), size)
+	}
+	if _, err := buf.Write(value); err != nil {
+		return err
+	}
+	_, err := buf.Write(make([]byte, size-len(value)))
+	return err
+}
+
 //Length получает длинну закодированной подзаписи
 func (e *SrTermIdentity) Length() uint16 {
 	var result uint16
-- 
2.43.0


From 0fc0753f2cba3375dec532395b530ecdb1fcc50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 11/36] fix: reject credentials that contain the field
 separator when encoding EGTS_SR_AUTH_INFO

---
 libs/egts/egts_sr_auth_info.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_auth_info.go b/libs/egts/egts_sr_auth_info.go
index 20428ac..79c3f1b 100644
--- a/libs/egts/egts_sr_auth_info.go
+++ b/libs/egts/egts_sr_auth_info.go
@@ -57,6 +57,10 @@ func (e *SrAuthInfo) Encode() ([]byte, error) {
 	//разделитель строковых полей из ГОСТ 54619 - 2011 секции EGTS_SR_AUTH_INFO
 	sep := byte(0x00)
 
+	if strings.IndexByte(e.UserName+e.UserPassword+e.ServerSequence, sep) >= 0 {
+		return result, fmt.Errorf("Поля sr_auth_info не могут содержать разделитель")
+	}
+
 	result = append(result, []byte(e.UserName)...)
 	result = append(result, sep)
 
-- 
2.43.0


From 86254653576f1c281496171801b4256a7a1f1344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 12/36] fix: report data longer than a 16-bit length field can
 hold instead of encoding a wrapped length

---
 libs/egts/egts_pkg.go             | 4 ++++
 libs/egts/record_data.go          | 4 ++++
 libs/egts/service_data_records.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index a018d42..44772aa 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -197,6 +198,9 @@ func (p *Package) Encode() ([]byte, error) {
 			return result, err
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Длина секции данных больше допустимой: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 78a24ff..d2d0a91 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -149,6 +150,9 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 		if err != nil {
 			return result, err
 		}
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("Длина subrecord data больше допустимой: %d", len(srd))
+		}
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 75bb4eb..15c482b 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -128,6 +129,9 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("Длина записи SDR больше допустимой: %d", len(rd))
+		}
 		if sdr.RecordLength == 0 {
 			sdr.RecordLength = uint16(len(rd))
 		}
-- 
2.43.0


From 2379f4a2e61832e49cad025200b3450d9375051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 13/36] fix: compute the packet length without 16-bit overflow
 and close on an impossible header length

---
 cli/receiver/server/server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e21f310..be680de 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -94,9 +94,14 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
+			// граница пакета с не корректной длиной заголовка неизвестна
+			if pkgLen < egts.DEFAULT_HEADER_LEN {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Не корректная длина заголовка пакета. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From 0c5393e863cda55171da8c3cf2a06d4424244bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 14/36] fix: close a connection that sends nothing for longer
 than conn_ttl

---
 README.md                     |  2 +-
 cli/receiver/server/server.go | 27 +++++++++++++++++++--------
 configs/receiver.yaml         |  2 +-
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index be680de..d23675b 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -52,6 +52,21 @@ func (s *Server) Stop() error {
 	return nil
 }
 
+// ttlReader читает из соединения, ожидая данные не дольше ttl
+type ttlReader struct {
+	conn net.Conn
+	ttl  time.Duration
+}
+
+func (r ttlReader) Read(p []byte) (int, error) {
+	if r.ttl > 0 {
+		if err := r.conn.SetReadDeadline(time.Now().Add(r.ttl)); err != nil {
+			return 0, err
+		}
+	}
+	return r.conn.Read(p)
+}
+
 func (s *Server) handleConn(conn net.Conn) {
 	defer conn.Close()
 
@@ -68,6 +83,7 @@ func (s *Server) handleConn(conn net.Conn) {
 		return
 	}
 	log.WithField("ip", conn.RemoteAddr()).Info("Установлено соединение")
+	in := ttlReader{conn: conn, ttl: s.ttl}
 
 	for {
 	Received:
@@ -76,16 +92,12 @@ func (s *Server) handleConn(conn net.Conn) {
 		srResultCodePkg = nil
 		recvPacket = nil
 
-		connTimer := time.NewTimer(s.ttl)
-
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-		_, err := io.ReadFull(conn, headerBuf)
+		_, err := io.ReadFull(in, headerBuf)
 
 		switch err {
 		case nil:
-			connTimer.Reset(s.ttl)
-
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
 				log.WithField("ip", conn.RemoteAddr()).Warn("Пакет не соответствует формату ЕГТС. Закрыто соединение")
@@ -105,7 +117,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-			if _, err := io.ReadFull(conn, buf); err != nil {
+			if _, err := io.ReadFull(in, buf); err != nil {
 				log.WithField("err", err).Error("Ошибка при получении тела пакета")
 				return
 			}
@@ -113,8 +125,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			// формируем полный пакет
 			recvPacket = append(headerBuf, buf...)
 		case io.EOF:
-			<-connTimer.C
-			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+			log.WithField("ip", conn.RemoteAddr()).Info("Соединение закрыто клиентом")
 			return
 		default:
 			log.WithField("err", err).Error("Ошибка при получении")
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 943dc2a..c720f90 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
-- 
2.43.0


From 2d25befed5448f737f829fabe86f38ce9ed034e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 15/36] fix: leave the accept loop when the server is stopped

---
 cli/receiver/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index d23675b..2a03910 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -37,6 +38,9 @@ func (s *Server) Run() {
 	for {
 		conn, err := s.l.Accept()
 		if err != nil {
+			if errors.Is(err, net.ErrClosed) {
+				return
+			}
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
 			go s.handleConn(conn)
-- 
2.43.0


From 690c002192cf44eb0c78bedd4f7106921a8b5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 16/36] fix: do not drop the telemetry of a packet that also
 carries a record response

---
 cli/receiver/server/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 2a03910..923380a 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -167,6 +167,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 
 			isPkgSave = false
+			subRecsCount, confirmsCount := 0, 0
 
 			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {
 				packetIDBytes := make([]byte, 4)
@@ -185,6 +186,7 @@ func (s *Server) handleConn(conn net.Conn) {
 				exportPacket.ClientID = rec.ObjectIdentifier
 
 				for _, subRec := range rec.RecordDataSet {
+					subRecsCount++
 					switch subRecData := subRec.SubrecordData.(type) {
 					case *egts.SrAuthInfo:
 						log.Debug("Разбор подзаписи EGTS_SR_AUTH_INFO")
@@ -193,7 +195,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
+						confirmsCount++
 					case *egts.SrTermIdentity:
 						log.Debug("Разбор подзаписи EGTS_SR_TERM_IDENTITY")
 						// fmt.Printf("Разбор подзаписи EGTS_SR_TERM_IDENTITY: %+v\n\n", subRecData)
@@ -310,6 +312,11 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			}
 
+			// пакет, состоящий только из подтверждений, ответа не требует
+			if confirmsCount > 0 && confirmsCount == subRecsCount {
+				continue
+			}
+
 			if isPkgSave {
 				if err := s.store.Save(&exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
-- 
2.43.0


From ca2da4c7a76a6fdbe7ad645c1a70f8020ec8f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 17/36] fix: export southern and western coordinates with their
 sign

---
 cli/receiver/server/server.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 923380a..5209242 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -216,9 +216,18 @@ func (s *Server) handleConn(conn net.Conn) {
 						// exportPacket.Speed = subRecData.Speed
 						// exportPacket.Course = subRecData.Direction
 
+						// широта и долгота передаются по модулю, полушария задают флаги
+						latitude, longitude := subRecData.Latitude, subRecData.Longitude
+						if subRecData.LAHS == "1" {
+							latitude = -latitude
+						}
+						if subRecData.LOHS == "1" {
+							longitude = -longitude
+						}
+
 						locData := storage.LocState{
-							Latitude:     subRecData.Latitude,
-							Longitude:    subRecData.Longitude,
+							Latitude:     latitude,
+							Longitude:    longitude,
 							Speed:        subRecData.Speed,
 							NavigationDt: subRecData.NavigationTime.Format(time.RFC3339),
 						}
-- 
2.43.0


From 499c38a163146fc7559278ad1297332d4e71b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 18/36] fix: send EGTS_SR_RESULT_CODE in an EGTS_PT_APPDATA
 packet

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 5209242..d0349f8 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -445,7 +445,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 8eaa5d8787a46e4f7f681785b82780403c5f0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 19/36] fix: assemble the record number from counters 110 and
 111 in byte order

---
 cli/receiver/server/server.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index d0349f8..f3da80e 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -170,8 +170,6 @@ func (s *Server) handleConn(conn net.Conn) {
 			subRecsCount, confirmsCount := 0, 0
 
 			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {
-				packetIDBytes := make([]byte, 4)
-
 				srResponsesRecord = append(srResponsesRecord, egts.RecordData{
 					SubrecordType:   egts.SrRecordResponseType,
 					SubrecordLength: 3,
@@ -282,20 +280,10 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
+							exportPacket.PacketID = exportPacket.PacketID&0xFF000000 | subRecData.CounterValue
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
-							tmpBuf := make([]byte, 4)
-							binary.BigEndian.PutUint32(tmpBuf, subRecData.CounterValue)
-
-							if len(packetIDBytes) == 4 {
-								packetIDBytes[3] = tmpBuf[3]
-							} else {
-								packetIDBytes = tmpBuf
-							}
-
-							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
+							exportPacket.PacketID = exportPacket.PacketID&0x00FFFFFF | subRecData.CounterValue<<24
 						}
 					case *egts.SrLiquidLevelSensor:
 						log.Debug("Разбор подзаписи EGTS_SR_LIQUID_LEVEL_SENSOR")
-- 
2.43.0


From 9914e6c3235a230a2b264f106de3648446096e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 20/36] fix: keep the object identifier when a later record of
 the packet omits it

---
 cli/receiver/server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index f3da80e..bbbb8a4 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -181,7 +181,9 @@ func (s *Server) handleConn(conn net.Conn) {
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
 
-				exportPacket.ClientID = rec.ObjectIdentifier
+				if rec.ObjectIDFieldExists == "1" {
+					exportPacket.ClientID = rec.ObjectIdentifier
+				}
 
 				for _, subRec := range rec.RecordDataSet {
 					subRecsCount++
-- 
2.43.0


From 06f51a61ca1362e0208be6fea9bc8be74d6d980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 21/36] fix: save to the remaining stores when one of them
 fails

---
 cli/receiver/storage/store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index a0b0127..3f8a246 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -44,14 +44,15 @@ func (r *Repository) AddStore(s Saver) {
 	r.storages = append(r.storages, s)
 }
 
-//Save сохраняет данные во все установленные хранилища
+//Save сохраняет данные во все установленные хранилища, возвращает первую из ошибок
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var firstErr error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From d5555e0d2e17299272aacda82d5f009733896fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 22/36] fix: report a failed redis publish instead of panicking

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index a7f2ae0..1437420 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -73,7 +73,7 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	}
 
 	if err := c.conn.Publish(context.Background(), c.queue, innerPkg).Err(); err != nil {
-		panic(err)
+		return fmt.Errorf("Не удалось отправить сообщение в очередь: %v", err)
 	}
 
 	return nil
-- 
2.43.0


From 1f161e5b0217f703cad4ae050e4afd5e89d3d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 23/36] fix: use database 0 when the redis section has no db

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 1437420..6d349f0 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 6dc52451581d2ddd365f71c334d7d27819b49312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 24/36] fix: packet-gen sends the requested timestamp

---
 cli/packet-gen/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index ed73be7..2a3632a 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -79,7 +79,7 @@ func main() {
 	}
 	timestamp, err := time.Parse(time.RFC3339, ts)
 	if err != nil {
-		fmt.Println("Parsing timestamp failed: ", timestamp)
+		fmt.Println("Parsing timestamp failed: ", ts)
 		os.Exit(1)
 	}
 
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From a74b74e3639093fae40fa6cb861d2e4cba9ef1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 25/36] fix: packet-gen waits for the acknowledgement for the
 documented five seconds by default

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 2a3632a..361410e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 02f576b31f0a25a9ab310a6746b2d185286c4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 26/36] fix: packet-gen exits with success when the packet was
 acknowledged

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 361410e..9fa6421 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From f8ea160dcde1197dfd26cab4dc1f75a423aaedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 27/36] fix: packet-gen reports an ack without records instead
 of panicking

---
 cli/packet-gen/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 9fa6421..3ef7d75 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -207,7 +207,13 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	records, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		fmt.Println("Received ack doesn't confirm the record")
+		os.Exit(1)
+	}
+
+	for _, rec := range *records {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From 9a071f54dab28f609e19803492bc3d9a5144d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 28/36] fix: packet-gen sends southern and western coordinates

---
 cli/packet-gen/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 3ef7d75..f787e40 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -83,6 +84,15 @@ func main() {
 		os.Exit(1)
 	}
 
+	// широта и долгота передаются по модулю, полушария задают флаги
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lahs = "1"
+	}
+	if lon < 0 {
+		lohs = "1"
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -114,11 +124,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From e52d769b63995ea183b2c46600557493ef6feb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 29/36] fix: values wider than 24 bits are rejected by Encode
 instead of cut

---
 libs/egts/binary_data.go                 | 12 ++++++++++++
 libs/egts/egts_sr_abs_an_sensors_data.go |  4 ++++
 libs/egts/egts_sr_abs_cntr_data.go       |  4 ++++
 libs/egts/egts_sr_ad_sensors_data.go     |  5 +++++
 libs/egts/egts_sr_counters_data.go       |  5 +++++
 libs/egts/egts_sr_pos_data.go            |  4 ++++
 6 files changed, 34 insertions(+)

diff --git a/libs/egts/binary_data.go b/libs/egts/binary_data.go
index 892a1da..0261277 100644
--- a/libs/egts/binary_data.go
+++ b/libs/egts/binary_data.go
@@ -1,8 +1,20 @@
 package egts
 
+import "fmt"
+
 // BinaryData интерфейс для работы с бинарными секциями
 type BinaryData interface {
 	Decode([]byte) error
 	Encode() ([]byte, error)
 	Length() uint16
 }
+
+// checkUint24 проверяет, что значения помещаются в отведенные под них 3 байта
+func checkUint24(values ...uint32) error {
+	for _, v := range values {
+		if v > 0xFFFFFF {
+			return fmt.Errorf("Значение не помещается в 3 байта: %d", v)
+		}
+	}
+	return nil
+}
diff --git a/libs/egts/egts_sr_abs_an_sensors_data.go b/libs/egts/egts_sr_abs_an_sensors_data.go
index 0247912..5c98a87 100644
--- a/libs/egts/egts_sr_abs_an_sensors_data.go
+++ b/libs/egts/egts_sr_abs_an_sensors_data.go
@@ -24,6 +24,10 @@ func (e *SrAbsAnSensData) Decode(content []byte) error {
 
 //Encode преобразовывает подзапись в набор байт
 func (e *SrAbsAnSensData) Encode() ([]byte, error) {
+	if err := checkUint24(e.Value); err != nil {
+		return nil, err
+	}
+
 	return []byte{
 		byte(e.SensorNumber),
 		byte(e.Value),
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 00ee94d..c194df1 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -45,6 +45,10 @@ func (e *SrAbsCntrData) Encode() ([]byte, error) {
 	)
 	buf := new(bytes.Buffer)
 
+	if err = checkUint24(e.CounterValue); err != nil {
+		return result, fmt.Errorf("Не верное значение показаний счетного входа: %v", err)
+	}
+
 	if err = buf.WriteByte(e.CounterNumber); err != nil {
 		return result, fmt.Errorf("Не удалось записать номер счетного входа: %v", err)
 	}
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 631cae4..da9ad04 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -212,6 +212,11 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		result []byte
 	)
 
+	if err = checkUint24(e.AnalogSensor1, e.AnalogSensor2, e.AnalogSensor3, e.AnalogSensor4,
+		e.AnalogSensor5, e.AnalogSensor6, e.AnalogSensor7, e.AnalogSensor8); err != nil {
+		return result, fmt.Errorf("Не верные показания аналоговых датчиков ad_sesor_data: %v", err)
+	}
+
 	buf := new(bytes.Buffer)
 
 	flagsBits := e.DigitalInputsOctetExists8 +
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 1aa445a..578225b 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -127,6 +127,11 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 		result []byte
 	)
 	buf := new(bytes.Buffer)
+	if err = checkUint24(c.Counter1, c.Counter2, c.Counter3, c.Counter4,
+		c.Counter5, c.Counter6, c.Counter7, c.Counter8); err != nil {
+		return result, fmt.Errorf("Не верные показания счетчиков counters_data: %v", err)
+	}
+
 	flagsBits := c.CounterFieldExists8 +
 		c.CounterFieldExists7 +
 		c.CounterFieldExists6 +
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index be1a236..d7edabf 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -171,6 +171,10 @@ func (e *SrPosData) Encode() ([]byte, error) {
 			e.Speed, e.DirectionHighestBit, e.AltitudeSign)
 	}
 
+	if err = checkUint24(e.Odometer, e.Altitude); err != nil {
+		return result, fmt.Errorf("Не верный пробег или высота: %v", err)
+	}
+
 	// скорость
 	speed := e.Speed*10 | uint16(e.DirectionHighestBit)<<15 // 15 бит
 	speed = speed | uint16(e.AltitudeSign)<<14              //14 бит
-- 
2.43.0


From a4fc2fd3dc2790dc2a3d1dd7b862d305c4b7f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 30/36] fix: SrPosData.Encode rejects a time or coordinates
 that cannot be encoded

---
 libs/egts/egts_sr_pos_data.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index d7edabf..a7dbad5 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"time"
 )
@@ -141,10 +142,19 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
-	if err = binary.Write(buf, binary.LittleEndian, uint32(e.NavigationTime.Sub(startDate).Seconds())); err != nil {
+	navTime := e.NavigationTime.Unix() - startDate.Unix()
+	if navTime < 0 || navTime > math.MaxUint32 {
+		return result, fmt.Errorf("Не верное время навигации: %v", e.NavigationTime)
+	}
+	if err = binary.Write(buf, binary.LittleEndian, uint32(navTime)); err != nil {
 		return result, fmt.Errorf("Не удалось записать время навигации: %v", err)
 	}
 
+	// координаты передаются по модулю
+	if !(e.Latitude >= 0 && e.Latitude <= 90 && e.Longitude >= 0 && e.Longitude <= 180) {
+		return result, fmt.Errorf("Не верные координаты: %v, %v", e.Latitude, e.Longitude)
+	}
+
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
 	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Latitude/90*0xFFFFFFFF)); err != nil {
 		return result, fmt.Errorf("Не удалось записать широту: %v", err)
-- 
2.43.0


From 39a3fae028d6db5b056661e4fe5e48b9056b0550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 31/36] fix: encoded record, subrecord and header lengths are
 those of the data

---
 libs/egts/egts_pkg.go             |  8 +++-----
 libs/egts/record_data.go          | 12 +++++-------
 libs/egts/service_data_records.go |  4 +---
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 44772aa..c2ebe32 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -176,11 +176,9 @@ func (p *Package) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать флаги: %v", err)
 	}
 
-	if p.HeaderLength == 0 {
-		p.HeaderLength = DEFAULT_HEADER_LEN
-		if p.Route == "1" {
-			p.HeaderLength += 5
-		}
+	p.HeaderLength = DEFAULT_HEADER_LEN
+	if p.Route == "1" {
+		p.HeaderLength += 5
 	}
 
 	if err = buf.WriteByte(p.HeaderLength); err != nil {
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index d2d0a91..26daf52 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -139,13 +139,6 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		if rd.SubrecordLength == 0 {
-			rd.SubrecordLength = rd.SubrecordData.Length()
-		}
-		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
-			return result, err
-		}
-
 		srd, err := rd.SubrecordData.Encode()
 		if err != nil {
 			return result, err
@@ -153,6 +146,11 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 		if len(srd) > math.MaxUint16 {
 			return result, fmt.Errorf("Длина subrecord data больше допустимой: %d", len(srd))
 		}
+
+		rd.SubrecordLength = uint16(len(srd))
+		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
+			return result, err
+		}
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 15c482b..b54c1cc 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -132,9 +132,7 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 		if len(rd) > math.MaxUint16 {
 			return result, fmt.Errorf("Длина записи SDR больше допустимой: %d", len(rd))
 		}
-		if sdr.RecordLength == 0 {
-			sdr.RecordLength = uint16(len(rd))
-		}
+		sdr.RecordLength = uint16(len(rd))
 		if err = binary.Write(buf, binary.LittleEndian, sdr.RecordLength); err != nil {
 			return result, fmt.Errorf("Не удалось записать длину записи SDR: %v", err)
 		}
-- 
2.43.0


From 9745489452a0a7404fed760a4885e2145e08f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 32/36] fix: rabbitmq user and password may hold any character

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..eb663f7 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 )
 
 type Connector struct {
@@ -33,7 +34,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From 9593f981f142b5ec60782e5ddfec2c36359ed0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 33/36] fix: postgresql parameters that are empty or hold
 spaces keep their meaning

---
 cli/receiver/storage/store/postgresql/connector.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..2cd067f 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -26,6 +27,13 @@ type Connector struct {
 	config     map[string]string
 }
 
+// quote заключает значение параметра подключения в кавычки: пустое значение или значение с пробелом
+// без них меняет смысл строки подключения
+func quote(value string) string {
+	value = strings.Replace(value, `\`, `\\`, -1)
+	return "'" + strings.Replace(value, `'`, `\'`, -1) + "'"
+}
+
 func (c *Connector) Init(cfg map[string]string) error {
 	var (
 		err error
@@ -35,7 +43,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		quote(c.config["database"]), quote(c.config["host"]), quote(c.config["port"]), quote(c.config["user"]), quote(c.config["password"]), quote(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
-- 
2.43.0


From dc1e46867b8dd37cabe32c7b40e7d3dc03c4845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 34/36] fix: packet-gen reads the whole acknowledgement,
 whatever parts it arrives in

---
 cli/packet-gen/main.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index f787e40..54688ea 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"io"
 	"math"
 	"net"
 	"os"
@@ -42,6 +44,27 @@ Example
 Created by Igor Kuznetsov
 */
 
+// readPacket считывает один пакет целиком, он может приходить частями
+func readPacket(r io.Reader) ([]byte, error) {
+	header := make([]byte, egts.DEFAULT_HEADER_LEN)
+	if _, err := io.ReadFull(r, header); err != nil {
+		return nil, err
+	}
+
+	// длина заголовка (HL) + длина тела (FDL) + CRC тела, если оно есть
+	pkgLen := int(header[3])
+	if bodyLen := int(binary.LittleEndian.Uint16(header[5:7])); bodyLen > 0 {
+		pkgLen += bodyLen + 2
+	}
+	if pkgLen < len(header) {
+		return header, nil
+	}
+
+	packet := append(header, make([]byte, pkgLen-len(header))...)
+	_, err := io.ReadFull(r, packet[len(header):])
+	return packet, err
+}
+
 func main() {
 
 	pid := 0
@@ -184,17 +207,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackBuf, err := readPacket(conn)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
-- 
2.43.0


From 85ccb7263b92f26a5740c460deaf93b63061e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 35/36] fix: packet-gen reports success only when its record is
 confirmed

---
 cli/packet-gen/main.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 54688ea..5db70f1 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -44,6 +44,9 @@ Example
 Created by Igor Kuznetsov
 */
 
+// recordNumber номер единственной записи пакета
+const recordNumber = 1
+
 // readPacket считывает один пакет целиком, он может приходить частями
 func readPacket(r io.Reader) ([]byte, error) {
 	header := make([]byte, egts.DEFAULT_HEADER_LEN)
@@ -130,7 +133,7 @@ func main() {
 		PacketType:       1,
 		ServicesFrameData: &egts.ServiceDataSet{
 			egts.ServiceDataRecord{
-				RecordNumber:             1,
+				RecordNumber:             recordNumber,
 				SourceServiceOnDevice:    "0",
 				RecipientServiceOnDevice: "0",
 				Group:                    "0",
@@ -238,6 +241,7 @@ func main() {
 		os.Exit(1)
 	}
 
+	isConfirmed := false
 	records, ok := ack.SDR.(*egts.ServiceDataSet)
 	if !ok {
 		fmt.Println("Received ack doesn't confirm the record")
@@ -252,10 +256,18 @@ func main() {
 						fmt.Printf("Incorrect record status: %d (actual) != 0 (expected)", response.RecordStatus)
 						os.Exit(1)
 					}
+					if response.ConfirmedRecordNumber == recordNumber {
+						isConfirmed = true
+					}
 				}
 			}
 		}
 	}
 
+	if !isConfirmed {
+		fmt.Println("Received ack doesn't confirm the record")
+		os.Exit(1)
+	}
+
 	fmt.Println("Packet sent and processed correct")
 }
-- 
2.43.0


From c9f329b0c1a5f85b3b3e941f2904f91168d432a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 36/36] fix: packet-gen refuses values the packet cannot hold

---
 cli/packet-gen/main.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 5db70f1..bd3ff0f 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -100,6 +100,22 @@ func main() {
 		os.Exit(1)
 	}
 
+	// значения, для которых в пакете нет места, были бы отправлены другими
+	if pid < 0 || pid > math.MaxUint16 {
+		fmt.Println("Packet identifier is out of range: ", pid)
+		os.Exit(1)
+	}
+
+	if oid < 0 || uint64(oid) > math.MaxUint32 {
+		fmt.Println("Client identifier is out of range: ", oid)
+		os.Exit(1)
+	}
+
+	if liqLvl < 0 || uint64(liqLvl) > math.MaxUint32 {
+		fmt.Println("Liquid level is out of range: ", liqLvl)
+		os.Exit(1)
+	}
+
 	if ts == "" {
 		fmt.Println("Timestamp is require. See to help (-h)")
 		os.Exit(1)
-- 
2.43.0

