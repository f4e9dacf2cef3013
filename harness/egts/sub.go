package egts

import (
	"time"

	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	eg "github.com/ElectroUnion/egts-gate/libs/egts"
)

// sub is a subrecord with arbitrary field values, next to its wire form written from the standard.
type sub struct {
	typ   byte
	v     eg.BinaryData
	wire  []byte
	fresh func() eg.BinaryData
	// same compares every field with v
	same func(d eg.BinaryData) bool
	// min is the number of leading bytes that cannot be missing
	min int
}

// bit is an arbitrary flag, one per path.
func bit(name string) string {
	if rt.Choose(name, 2) == 1 {
		return "1"
	}
	return "0"
}

func flag(mask, k int) string {
	if mask>>uint(k)&1 == 1 {
		return "1"
	}
	return "0"
}

func u24(name string) uint32 { return gU32(name) & 0xFFFFFF }

// epoch2010 is 2010-01-01T00:00:00Z.
const epoch2010 = 1262304000

// tenths of km/h, which decoding drops
var anyTenths bool

func tenths(speed uint16) uint16 {
	if !anyTenths {
		return 0
	}
	t := gU16("tenths")
	rt.Assume(rt.And(t < 10, speed*10+t <= 0x3FFF))
	return t
}

func mkPos() sub { return mkPosAlt(bit("alte")) }

func mkPosFixed() sub { return mkPosAlt("0") }

func mkPosAlt(alte string) sub {
	s := gU32("ntm")
	e := &eg.SrPosData{
		NavigationTime: time.Unix(epoch2010+int64(s), 0).UTC(),
		ALTE:           alte, LOHS: gBits("lohs", 1), LAHS: gBits("lahs", 1), MV: gBits("mv", 1),
		BB: gBits("bb", 1), CS: gBits("cs", 1), FIX: gBits("fix", 1), VLD: gBits("vld", 1),
		DirectionHighestBit: gByte("dirh") & 1, AltitudeSign: gByte("alts") & 1,
		Speed: gSpeed(), Odometer: u24("odm"), DigitalInputs: gByte("din"), Source: gByte("src"),
	}
	// the corners of the map; coordinates in between are another property's business
	corner := uint32(0)
	if plain != 0 || rt.Choose("corner", 2) == 1 {
		e.Latitude, e.Longitude, corner = 90, 180, 0xFFFFFFFF
	}
	d := gByte("dir") & 0x7F
	e.Direction = d | e.DirectionHighestBit<<7
	w := cm.New().U32(s).U32(corner).U32(corner).U8(cm.BitStr(e.ALTE, e.LOHS, e.LAHS, e.MV, e.BB, e.CS, e.FIX, e.VLD)).
		U16((e.Speed*10 + tenths(e.Speed)) | uint16(e.DirectionHighestBit)<<15 | uint16(e.AltitudeSign)<<14).
		U8(d).U24(e.Odometer).U8(e.DigitalInputs).U8(e.Source)
	if e.ALTE == "1" {
		e.Altitude = u24("alt")
		w.U24(e.Altitude)
	}
	return sub{16, e, w.Bytes(), func() eg.BinaryData { return &eg.SrPosData{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrPosData)
		return rt.And(d.NavigationTime.Unix() == epoch2010+int64(s), d.NavigationTime.Nanosecond() == 0, d.Latitude == e.Latitude, d.Longitude == e.Longitude,
			d.ALTE == e.ALTE, d.LOHS == e.LOHS, d.LAHS == e.LAHS, d.MV == e.MV, d.BB == e.BB, d.CS == e.CS, d.FIX == e.FIX, d.VLD == e.VLD,
			d.DirectionHighestBit == e.DirectionHighestBit, d.AltitudeSign == e.AltitudeSign, d.Speed == e.Speed, d.Direction == e.Direction,
			d.Odometer == e.Odometer, d.DigitalInputs == e.DigitalInputs, d.Source == e.Source, d.Altitude == e.Altitude)
	}, len(w.Bytes())}
}

func mkExtPos() sub {
	e := &eg.SrExtPosData{NavigationSystemFieldExists: bit("nsfe"), SatellitesFieldExists: bit("sfe"), PdopFieldExists: bit("pfe"), HdopFieldExists: bit("hfe"), VdopFieldExists: bit("vfe")}
	w := cm.New().U8(cm.BitStr(e.NavigationSystemFieldExists, e.SatellitesFieldExists, e.PdopFieldExists, e.HdopFieldExists, e.VdopFieldExists))
	if e.VdopFieldExists == "1" {
		e.VerticalDilutionOfPrecision = gU16("vdop")
		w.U16(e.VerticalDilutionOfPrecision)
	}
	if e.HdopFieldExists == "1" {
		e.HorizontalDilutionOfPrecision = gU16("hdop")
		w.U16(e.HorizontalDilutionOfPrecision)
	}
	if e.PdopFieldExists == "1" {
		e.PositionDilutionOfPrecision = gU16("pdop")
		w.U16(e.PositionDilutionOfPrecision)
	}
	if e.SatellitesFieldExists == "1" {
		e.Satellites = gByte("sat")
		w.U8(e.Satellites)
	}
	if e.NavigationSystemFieldExists == "1" {
		e.NavigationSystem = gU16("ns")
		w.U16(e.NavigationSystem)
	}
	return sub{17, e, w.Bytes(), func() eg.BinaryData { return &eg.SrExtPosData{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrExtPosData)
		return rt.And(d.NavigationSystemFieldExists == e.NavigationSystemFieldExists, d.SatellitesFieldExists == e.SatellitesFieldExists, d.PdopFieldExists == e.PdopFieldExists,
			d.HdopFieldExists == e.HdopFieldExists, d.VdopFieldExists == e.VdopFieldExists,
			d.VerticalDilutionOfPrecision == e.VerticalDilutionOfPrecision, d.HorizontalDilutionOfPrecision == e.HorizontalDilutionOfPrecision,
			d.PositionDilutionOfPrecision == e.PositionDilutionOfPrecision, d.Satellites == e.Satellites, d.NavigationSystem == e.NavigationSystem)
	}, len(w.Bytes())}
}

func adMask(name string, mode int) int {
	switch mode {
	case 0:
		return rt.Choose(name, 256)
	case 1:
		return 255 * rt.Choose(name, 2)
	}
	// single bits and their complements
	k := rt.Choose(name, 18)
	switch {
	case k < 8:
		return 1 << uint(k)
	case k < 16:
		return 255 ^ 1<<uint(k-8)
	case k == 16:
		return 0
	}
	return 255
}

func mkAd() sub {
	dm, am := adMask("dioe", rt.Param("dmode", 2)), adMask("asfe", rt.Param("amode", 2))
	e := &eg.SrAdSensorsData{
		DigitalInputsOctetExists1: flag(dm, 0), DigitalInputsOctetExists2: flag(dm, 1), DigitalInputsOctetExists3: flag(dm, 2), DigitalInputsOctetExists4: flag(dm, 3),
		DigitalInputsOctetExists5: flag(dm, 4), DigitalInputsOctetExists6: flag(dm, 5), DigitalInputsOctetExists7: flag(dm, 6), DigitalInputsOctetExists8: flag(dm, 7),
		AnalogSensorFieldExists1: flag(am, 0), AnalogSensorFieldExists2: flag(am, 1), AnalogSensorFieldExists3: flag(am, 2), AnalogSensorFieldExists4: flag(am, 3),
		AnalogSensorFieldExists5: flag(am, 4), AnalogSensorFieldExists6: flag(am, 5), AnalogSensorFieldExists7: flag(am, 6), AnalogSensorFieldExists8: flag(am, 7),
		DigitalOutputs: gByte("dout"),
	}
	w := cm.New().U8(byte(dm)).U8(e.DigitalOutputs).U8(byte(am))
	dig := adDig(e)
	for k := 0; k < 8; k++ {
		if dm>>uint(k)&1 == 1 {
			*dig[k] = gByte("adio")
			w.U8(*dig[k])
		}
	}
	an := adAn(e)
	for k := 0; k < 8; k++ {
		if am>>uint(k)&1 == 1 {
			*an[k] = u24("ans")
			w.U24(*an[k])
		}
	}
	return sub{18, e, w.Bytes(), func() eg.BinaryData { return &eg.SrAdSensorsData{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrAdSensorsData)
		ok := rt.And(d.DigitalOutputs == e.DigitalOutputs, adFlagsD(d) == byte(dm), adFlagsA(d) == byte(am))
		dd, da := adDig(d), adAn(d)
		for k := 0; k < 8; k++ {
			ok = rt.And(ok, *dd[k] == *dig[k], *da[k] == *an[k])
		}
		return ok
	}, len(w.Bytes())}
}

func adDig(e *eg.SrAdSensorsData) []*byte {
	return []*byte{&e.AdditionalDigitalInputsOctet1, &e.AdditionalDigitalInputsOctet2, &e.AdditionalDigitalInputsOctet3, &e.AdditionalDigitalInputsOctet4,
		&e.AdditionalDigitalInputsOctet5, &e.AdditionalDigitalInputsOctet6, &e.AdditionalDigitalInputsOctet7, &e.AdditionalDigitalInputsOctet8}
}

func adAn(e *eg.SrAdSensorsData) []*uint32 {
	return []*uint32{&e.AnalogSensor1, &e.AnalogSensor2, &e.AnalogSensor3, &e.AnalogSensor4, &e.AnalogSensor5, &e.AnalogSensor6, &e.AnalogSensor7, &e.AnalogSensor8}
}

func adFlagsD(e *eg.SrAdSensorsData) byte {
	return cm.BitStr(e.DigitalInputsOctetExists8, e.DigitalInputsOctetExists7, e.DigitalInputsOctetExists6, e.DigitalInputsOctetExists5,
		e.DigitalInputsOctetExists4, e.DigitalInputsOctetExists3, e.DigitalInputsOctetExists2, e.DigitalInputsOctetExists1)
}

func adFlagsA(e *eg.SrAdSensorsData) byte {
	return cm.BitStr(e.AnalogSensorFieldExists8, e.AnalogSensorFieldExists7, e.AnalogSensorFieldExists6, e.AnalogSensorFieldExists5,
		e.AnalogSensorFieldExists4, e.AnalogSensorFieldExists3, e.AnalogSensorFieldExists2, e.AnalogSensorFieldExists1)
}

func mkCounters() sub {
	m := rt.Choose("cfe", 256)
	e := &eg.SrCountersData{
		CounterFieldExists1: flag(m, 0), CounterFieldExists2: flag(m, 1), CounterFieldExists3: flag(m, 2), CounterFieldExists4: flag(m, 3),
		CounterFieldExists5: flag(m, 4), CounterFieldExists6: flag(m, 5), CounterFieldExists7: flag(m, 6), CounterFieldExists8: flag(m, 7),
	}
	w := cm.New().U8(byte(m))
	c := cnt(e)
	for k := 0; k < 8; k++ {
		if m>>uint(k)&1 == 1 {
			*c[k] = u24("cnt")
			w.U24(*c[k])
		}
	}
	return sub{19, e, w.Bytes(), func() eg.BinaryData { return &eg.SrCountersData{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrCountersData)
		ok := cm.BitStr(d.CounterFieldExists8, d.CounterFieldExists7, d.CounterFieldExists6, d.CounterFieldExists5, d.CounterFieldExists4, d.CounterFieldExists3, d.CounterFieldExists2, d.CounterFieldExists1) == byte(m)
		dc := cnt(d)
		for k := 0; k < 8; k++ {
			ok = rt.And(ok, *dc[k] == *c[k])
		}
		return ok
	}, len(w.Bytes())}
}

func cnt(e *eg.SrCountersData) []*uint32 {
	return []*uint32{&e.Counter1, &e.Counter2, &e.Counter3, &e.Counter4, &e.Counter5, &e.Counter6, &e.Counter7, &e.Counter8}
}

func mkAbsAn() sub {
	e := &eg.SrAbsAnSensData{SensorNumber: gByte("asn"), Value: u24("asv")}
	w := cm.New().U8(e.SensorNumber).U24(e.Value).Bytes()
	return sub{24, e, w, func() eg.BinaryData { return &eg.SrAbsAnSensData{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrAbsAnSensData)
		return rt.And(d.SensorNumber == e.SensorNumber, d.Value == e.Value)
	}, 4}
}

func mkAbsCntr() sub {
	e := &eg.SrAbsCntrData{CounterNumber: gByte("cn"), CounterValue: u24("cnv")}
	w := cm.New().U8(e.CounterNumber).U24(e.CounterValue).Bytes()
	return sub{25, e, w, func() eg.BinaryData { return &eg.SrAbsCntrData{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrAbsCntrData)
		return rt.And(d.CounterNumber == e.CounterNumber, d.CounterValue == e.CounterValue)
	}, 4}
}

func mkLiquid() sub {
	e := &eg.SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: gBits("llsef", 1), LiquidLevelSensorValueUnit: gBits("llsvu", 2), RawDataFlag: gBits("rdf", 1),
		LiquidLevelSensorNumber: gByte("llsn") & 7, ModuleAddress: gU16("maddr"), LiquidLevelSensorData: gU32("llsd")}
	w := cm.New().U8(cm.BitStr(e.LiquidLevelSensorErrorFlag, e.LiquidLevelSensorValueUnit, e.RawDataFlag)<<3 | e.LiquidLevelSensorNumber).U16(e.ModuleAddress).U32(e.LiquidLevelSensorData).Bytes()
	return sub{27, e, w, func() eg.BinaryData { return &eg.SrLiquidLevelSensor{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrLiquidLevelSensor)
		return rt.And(d.LiquidLevelSensorErrorFlag == e.LiquidLevelSensorErrorFlag, d.LiquidLevelSensorValueUnit == e.LiquidLevelSensorValueUnit, d.RawDataFlag == e.RawDataFlag,
			d.LiquidLevelSensorNumber == e.LiquidLevelSensorNumber, d.ModuleAddress == e.ModuleAddress, d.LiquidLevelSensorData == e.LiquidLevelSensorData)
	}, 7}
}

func mkTerm() sub {
	m := rt.Choose("flags", 128)
	// the bit that announces no field
	ssra := gBits("ssra", 1)
	e := &eg.SrTermIdentity{TerminalIdentifier: gU32("tid"), MNE: flag(m, 6), BSE: flag(m, 5), NIDE: flag(m, 4), SSRA: ssra, LNGCE: flag(m, 3), IMSIE: flag(m, 2), IMEIE: flag(m, 1), HDIDE: flag(m, 0)}
	w := cm.New().U32(e.TerminalIdentifier).U8(cm.BitStr(e.MNE, e.BSE, e.NIDE, e.SSRA, e.LNGCE, e.IMSIE, e.IMEIE, e.HDIDE))
	if e.HDIDE == "1" {
		e.HomeDispatcherIdentifier = gU16("hdid")
		w.U16(e.HomeDispatcherIdentifier)
	}
	if e.IMEIE == "1" {
		e.IMEI = gString("imei", 15)
		w.Raw([]byte(e.IMEI))
	}
	if e.IMSIE == "1" {
		e.IMSI = gString("imsi", 16)
		w.Raw([]byte(e.IMSI))
	}
	if e.LNGCE == "1" {
		e.LanguageCode = gString("lngc", 3)
		w.Raw([]byte(e.LanguageCode))
	}
	if e.NIDE == "1" {
		e.NetworkIdentifier = gBytes("nid", 3)
		w.Raw(e.NetworkIdentifier)
	}
	if e.BSE == "1" {
		e.BufferSize = gU16("bs")
		w.U16(e.BufferSize)
	}
	if e.MNE == "1" {
		e.MobileNumber = gString("msisdn", 15)
		w.Raw([]byte(e.MobileNumber))
	}
	return sub{1, e, w.Bytes(), func() eg.BinaryData { return &eg.SrTermIdentity{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrTermIdentity)
		return rt.And(d.TerminalIdentifier == e.TerminalIdentifier, d.MNE == e.MNE, d.BSE == e.BSE, d.NIDE == e.NIDE, d.SSRA == e.SSRA, d.LNGCE == e.LNGCE, d.IMSIE == e.IMSIE, d.IMEIE == e.IMEIE, d.HDIDE == e.HDIDE,
			d.HomeDispatcherIdentifier == e.HomeDispatcherIdentifier, rt.EqStr(d.IMEI, e.IMEI), rt.EqStr(d.IMSI, e.IMSI), rt.EqStr(d.LanguageCode, e.LanguageCode),
			rt.EqBytes(d.NetworkIdentifier, e.NetworkIdentifier), d.BufferSize == e.BufferSize, rt.EqStr(d.MobileNumber, e.MobileNumber))
	}, len(w.Bytes())}
}

func noNul(s string) string {
	for i := 0; i < len(s); i++ {
		rt.Assume(s[i] != 0)
	}
	return s
}

// textLen is any length up to n, or, if those are many, one of some.
func textLen(name string, n int) int {
	if n <= 12 {
		return rt.Choose(name, n+1)
	}
	return []int{0, n / 2, n}[rt.Choose(name, 3)]
}

func mkAuth() sub {
	n := rt.Param("n", 2)
	e := &eg.SrAuthInfo{UserName: noNul(gString("unm", textLen("ulen", n))), UserPassword: noNul(gString("upsw", textLen("plen", n))), ServerSequence: noNul(gString("ss", textLen("slen", n)))}
	w := cm.New().Raw([]byte(e.UserName)).U8(0).Raw([]byte(e.UserPassword)).U8(0)
	min := len(w.Bytes())
	if e.ServerSequence != "" {
		w.Raw([]byte(e.ServerSequence)).U8(0)
	}
	return sub{7, e, w.Bytes(), func() eg.BinaryData { return &eg.SrAuthInfo{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrAuthInfo)
		return rt.And(rt.EqStr(d.UserName, e.UserName), rt.EqStr(d.UserPassword, e.UserPassword), rt.EqStr(d.ServerSequence, e.ServerSequence))
	}, min}
}

func mkDispatcher() sub {
	n := rt.Param("n", 2)
	e := &eg.SrDispatcherIdentity{DispatcherType: gByte("dt"), DispatcherID: gU32("did"), Description: gString("dscr", textLen("dlen", n))}
	w := cm.New().U8(e.DispatcherType).U32(e.DispatcherID).Raw([]byte(e.Description))
	return sub{5, e, w.Bytes(), func() eg.BinaryData { return &eg.SrDispatcherIdentity{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrDispatcherIdentity)
		return rt.And(d.DispatcherType == e.DispatcherType, d.DispatcherID == e.DispatcherID, rt.EqStr(d.Description, e.Description))
	}, 5}
}

func mkState() sub {
	e := &eg.SrStateData{State: gByte("st"), MainPowerSourceVoltage: gByte("mpsv"), BackUpBatteryVoltage: gByte("bbv"), InternalBatteryVoltage: gByte("ibv"),
		NMS: gBits("nms", 1), IBU: gBits("ibu", 1), BBU: gBits("bbu", 1)}
	w := cm.New().U8(e.State).U8(e.MainPowerSourceVoltage).U8(e.BackUpBatteryVoltage).U8(e.InternalBatteryVoltage).U8(cm.BitStr(e.NMS, e.IBU, e.BBU)).Bytes()
	return sub{21, e, w, func() eg.BinaryData { return &eg.SrStateData{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrStateData)
		return rt.And(d.State == e.State, d.MainPowerSourceVoltage == e.MainPowerSourceVoltage, d.BackUpBatteryVoltage == e.BackUpBatteryVoltage, d.InternalBatteryVoltage == e.InternalBatteryVoltage,
			d.NMS == e.NMS, d.IBU == e.IBU, d.BBU == e.BBU)
	}, 5}
}

func mkResponse() sub {
	e := &eg.SrResponse{ConfirmedRecordNumber: gU16("crn"), RecordStatus: gByte("rst")}
	w := cm.New().U16(e.ConfirmedRecordNumber).U8(e.RecordStatus).Bytes()
	return sub{0, e, w, func() eg.BinaryData { return &eg.SrResponse{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrResponse)
		return rt.And(d.ConfirmedRecordNumber == e.ConfirmedRecordNumber, d.RecordStatus == e.RecordStatus)
	}, 3}
}

func mkResult() sub {
	e := &eg.SrResultCode{ResultCode: gByte("rcd")}
	return sub{9, e, []byte{e.ResultCode}, func() eg.BinaryData { return &eg.SrResultCode{} }, func(x eg.BinaryData) bool {
		return x.(*eg.SrResultCode).ResultCode == e.ResultCode
	}, 1}
}

const (
	kPos = iota
	kExtPos
	kAd
	kCounters
	kAbsAn
	kAbsCntr
	kLiquid
	kTerm
	kAuth
	kDispatcher
	kState
	kResponse
	kResult
)

func mk(kind int) sub {
	switch kind {
	case kPos:
		return mkPos()
	case kExtPos:
		return mkExtPos()
	case kAd:
		return mkAd()
	case kCounters:
		return mkCounters()
	case kAbsAn:
		return mkAbsAn()
	case kAbsCntr:
		return mkAbsCntr()
	case kLiquid:
		return mkLiquid()
	case kTerm:
		return mkTerm()
	case kAuth:
		return mkAuth()
	case kDispatcher:
		return mkDispatcher()
	case kState:
		return mkState()
	case kResponse:
		return mkResponse()
	}
	return mkResult()
}

// VerifSubEncode: any field values are written to the places the standard gives them.
func VerifSubEncode() {
	s := mk(rt.Param("kind", 0))
	b, err := s.v.Encode()
	rt.Assert(err == nil, "representable values are encoded")
	if err != nil {
		return
	}
	rt.Cover("encoded")
	cm.EmitBytes("wire", b)
	rt.Assert(len(b) == len(s.wire), "encoded length")
	rt.Assert(cm.Eq(b, s.wire), "encoded bytes are the wire form")
	rt.Assert(int(s.v.Length()) == len(s.wire), "declared length is the encoded length")
}

// VerifSubDecode: the wire form is decoded to those values.
func VerifSubDecode() {
	anyTenths = true
	s := mk(rt.Param("kind", 0))
	anyTenths = false
	d := s.fresh()
	err := d.Decode(s.wire)
	rt.Assert(err == nil, "a complete subrecord is accepted")
	if err != nil {
		return
	}
	rt.Cover("decoded")
	rt.Assert(s.same(d), "decoded fields are the encoded values")
}

// VerifSubRoundTrip: encode then decode is the identity, and so is decode then encode.
func VerifSubRoundTrip() {
	s := mk(rt.Param("kind", 0))
	b, err := s.v.Encode()
	if err != nil {
		rt.Assert(false, "representable values are encoded")
		return
	}
	d := s.fresh()
	err = d.Decode(b)
	rt.Assert(err == nil, "an encoded subrecord is accepted")
	if err != nil {
		return
	}
	rt.Cover("round trip")
	rt.Assert(s.same(d), "fields survive encode and decode")
	b2, err := d.Encode()
	rt.Assert(err == nil && cm.Eq(b2, b), "a decoded subrecord is encoded to the same bytes")
}

// VerifSubTruncated: a subrecord cut inside a mandatory or announced field is rejected.
func VerifSubTruncated() {
	s := mk(rt.Param("kind", 0))
	if s.min > 0 {
		k := rt.Choose("cut", s.min)
		rt.Cover("cut")
		d := s.fresh()
		err := d.Decode(append([]byte(nil), s.wire[:k]...))
		rt.Assert(err != nil, "a truncated subrecord is rejected")
	}
}
