package egts

import (
	"time"

	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	eg "github.com/ElectroUnion/egts-gate/libs/egts"
)

// flagFields lists the flag strings of a structure.
func flagFields(v interface{}) []*string {
	switch e := v.(type) {
	case *eg.SrPosData:
		return []*string{&e.ALTE, &e.LOHS, &e.LAHS, &e.MV, &e.BB, &e.CS, &e.FIX, &e.VLD}
	case *eg.SrExtPosData:
		return []*string{&e.NavigationSystemFieldExists, &e.SatellitesFieldExists, &e.PdopFieldExists, &e.HdopFieldExists, &e.VdopFieldExists}
	case *eg.SrAdSensorsData:
		return []*string{&e.DigitalInputsOctetExists1, &e.DigitalInputsOctetExists2, &e.DigitalInputsOctetExists3, &e.DigitalInputsOctetExists4,
			&e.DigitalInputsOctetExists5, &e.DigitalInputsOctetExists6, &e.DigitalInputsOctetExists7, &e.DigitalInputsOctetExists8,
			&e.AnalogSensorFieldExists1, &e.AnalogSensorFieldExists2, &e.AnalogSensorFieldExists3, &e.AnalogSensorFieldExists4,
			&e.AnalogSensorFieldExists5, &e.AnalogSensorFieldExists6, &e.AnalogSensorFieldExists7, &e.AnalogSensorFieldExists8}
	case *eg.SrCountersData:
		return []*string{&e.CounterFieldExists1, &e.CounterFieldExists2, &e.CounterFieldExists3, &e.CounterFieldExists4,
			&e.CounterFieldExists5, &e.CounterFieldExists6, &e.CounterFieldExists7, &e.CounterFieldExists8}
	case *eg.SrLiquidLevelSensor:
		return []*string{&e.LiquidLevelSensorErrorFlag, &e.LiquidLevelSensorValueUnit, &e.RawDataFlag}
	case *eg.SrTermIdentity:
		return []*string{&e.MNE, &e.BSE, &e.NIDE, &e.SSRA, &e.LNGCE, &e.IMSIE, &e.IMEIE, &e.HDIDE}
	case *eg.SrStateData:
		return []*string{&e.NMS, &e.IBU, &e.BBU}
	case *eg.Package:
		return []*string{&e.Prefix, &e.Route, &e.EncryptionAlg, &e.Compression, &e.Priority}
	case *eg.ServiceDataRecord:
		return []*string{&e.SourceServiceOnDevice, &e.RecipientServiceOnDevice, &e.Group, &e.RecordProcessingPriority, &e.TimeFieldExists, &e.EventIDFieldExists, &e.ObjectIDFieldExists}
	}
	return nil
}

func zeroFlags(v interface{}) {
	for _, f := range flagFields(v) {
		*f = "0"
	}
	switch e := v.(type) {
	case *eg.SrLiquidLevelSensor:
		e.LiquidLevelSensorValueUnit = "00"
	case *eg.Package:
		e.Prefix, e.EncryptionAlg, e.Priority = "00", "00", "00"
	case *eg.ServiceDataRecord:
		e.RecordProcessingPriority = "00"
	case *eg.SrPosData:
		e.NavigationTime = time.Unix(epoch2010, 0).UTC()
	}
}

// VerifBadFlag: a flag with any character but 0 and 1 in any place is rejected by Encode.
func VerifBadFlag() {
	var v eg.BinaryData
	var top interface{}
	switch rt.Choose("struct", 9) {
	case 0:
		v = &eg.SrPosData{}
	case 1:
		v = &eg.SrExtPosData{}
	case 2:
		v = &eg.SrAdSensorsData{}
	case 3:
		v = &eg.SrCountersData{}
	case 4:
		v = &eg.SrLiquidLevelSensor{}
	case 5:
		v = &eg.SrTermIdentity{}
	case 6:
		v = &eg.SrStateData{}
	case 7:
		top = &eg.Package{}
	case 8:
		top = &eg.ServiceDataRecord{}
	}
	if v != nil {
		top = v
	}
	zeroFlags(top)
	fs := flagFields(top)
	f := fs[rt.Choose("flag", len(fs))]
	c := rt.Byte("char")
	rt.Assume(rt.And(c != '0', c != '1'))
	if len(*f) == 2 {
		if rt.Choose("place", 2) == 0 {
			*f = string([]byte{c, '1'})
		} else {
			*f = string([]byte{'1', c})
		}
	} else {
		*f = string([]byte{c})
	}
	rt.Cover("bad flag")
	var err error
	switch e := top.(type) {
	case *eg.Package:
		_, err = e.Encode()
	case *eg.ServiceDataRecord:
		s := eg.ServiceDataSet{*e}
		_, err = s.Encode()
	default:
		_, err = v.Encode()
	}
	rt.Assert(err != nil, "a flag that is not a binary digit is rejected")
}

func in24(v uint32) bool { return v <= 0xFFFFFF }

// VerifRange: Encode succeeds exactly on the values the field has room for.
func VerifRange() {
	var v eg.BinaryData
	fits := true
	switch rt.Param("kind", 0) {
	case kPos:
		sec := int64(rt.U64("sec"))
		// the calendar of time.Time
		rt.Assume(rt.And(sec > -1<<40, sec < 1<<40))
		e := &eg.SrPosData{NavigationTime: time.Unix(sec, int64(rt.U32("nsec")%1000000000)), Latitude: rt.F64("lat"), Longitude: rt.F64("lng"), ALTE: bit("alte"), LOHS: "0", LAHS: "0", MV: "0", BB: "0", CS: "0", FIX: "0", VLD: "0",
			Speed: rt.U16("spd"), DirectionHighestBit: rt.Byte("dirh"), AltitudeSign: rt.Byte("alts"), Odometer: rt.U32("odm"), Altitude: rt.U32("alt")}
		if e.ALTE == "0" {
			e.Altitude = 0
		}
		fits = rt.And(sec >= epoch2010, sec < epoch2010+1<<32, e.Latitude >= 0, e.Latitude <= 90, e.Longitude >= 0, e.Longitude <= 180,
			e.Speed <= 1638, e.DirectionHighestBit <= 1, e.AltitudeSign <= 1, in24(e.Odometer), in24(e.Altitude))
		v = e
	case kAd:
		e := &eg.SrAdSensorsData{}
		zeroFlags(e)
		k := rt.Choose("analog", 8)
		*flagFields(e)[8+k] = "1"
		x := rt.U32("ans")
		*adAn(e)[k] = x
		fits = in24(x)
		v = e
	case kCounters:
		e := &eg.SrCountersData{}
		zeroFlags(e)
		k := rt.Choose("counter", 8)
		*flagFields(e)[k] = "1"
		x := rt.U32("cn")
		*cnt(e)[k] = x
		fits = in24(x)
		v = e
	case kAbsAn:
		e := &eg.SrAbsAnSensData{SensorNumber: rt.Byte("asn"), Value: rt.U32("asv")}
		fits = in24(e.Value)
		v = e
	case kAbsCntr:
		e := &eg.SrAbsCntrData{CounterNumber: rt.Byte("cn"), CounterValue: rt.U32("cnv")}
		fits = in24(e.CounterValue)
		v = e
	case kLiquid:
		e := &eg.SrLiquidLevelSensor{LiquidLevelSensorNumber: rt.Byte("llsn"), ModuleAddress: rt.U16("maddr"), LiquidLevelSensorData: rt.U32("llsd")}
		zeroFlags(e)
		fits = e.LiquidLevelSensorNumber <= 7
		v = e
	case kTerm:
		e := &eg.SrTermIdentity{}
		zeroFlags(e)
		k := rt.Choose("field", 5)
		size := []int{15, 16, 3, 3, 15}[k]
		n := rt.Choose("len", 19)
		s := rt.String("s", n)
		switch k {
		case 0:
			e.IMEIE, e.IMEI = "1", s
		case 1:
			e.IMSIE, e.IMSI = "1", s
		case 2:
			e.LNGCE, e.LanguageCode = "1", s
		case 3:
			e.NIDE, e.NetworkIdentifier = "1", []byte(s)
		case 4:
			e.MNE, e.MobileNumber = "1", s
		}
		fits = n <= size
		b, err := e.Encode()
		rt.Cover("tried")
		rt.Assert((err == nil) == fits, "exactly the strings the field has room for are encoded")
		if err == nil {
			rt.Assert(len(b) == 5+size, "the field always takes its full size")
			rt.Assert(len(b) == 5+size && cm.Eq(b[5:5+n], []byte(s)), "the string is at the start of the field")
		}
		return
	case kAuth:
		n := rt.Param("n", 2)
		e := &eg.SrAuthInfo{UserName: rt.String("unm", rt.Choose("ulen", n+1)), UserPassword: rt.String("upsw", rt.Choose("plen", n+1)), ServerSequence: rt.String("ss", rt.Choose("slen", n+1))}
		all := e.UserName + e.UserPassword + e.ServerSequence
		for i := 0; i < len(all); i++ {
			fits = rt.And(fits, all[i] != 0)
		}
		v = e
	}
	b, err := v.Encode()
	rt.Emit("fits", rt.B2U(err == nil))
	rt.Cover("tried")
	rt.Assert(rt.Implies(!fits, err != nil), "a value the field has no room for is rejected")
	rt.Assert(rt.Implies(fits, err == nil), "a value the field has room for is encoded")
	if err == nil {
		rt.Assert(int(v.Length()) == len(b), "declared length")
	}
}

// VerifTooLong: data longer than its length field can say is rejected, and the longest data is not.
func VerifTooLong() {
	n := []int{65535, 65536, 65546, 131072, 131077}[rt.Choose("size", 5)]
	raw := &rawData{make([]byte, n)}
	switch rt.Choose("where", 3) {
	case 0:
		p := eg.Package{Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", PacketType: 1, ServicesFrameData: raw}
		b, err := p.Encode()
		rt.Assert((err == nil) == (n <= 65535), "a packet body of up to 65535 bytes is encoded, a longer one rejected")
		if err == nil {
			rt.Cover("body")
			rt.Assert(len(b) == 11+n+2 && int(b[5])|int(b[6])<<8 == n, "declared body length")
		}
	case 1:
		rds := eg.RecordDataSet{{SubrecordType: 16, SubrecordData: raw}}
		b, err := rds.Encode()
		rt.Assert((err == nil) == (n <= 65535), "a subrecord of up to 65535 bytes is encoded, a longer one rejected")
		if err == nil {
			rt.Cover("subrecord")
			rt.Assert(len(b) == 3+n && int(b[1])|int(b[2])<<8 == n, "declared subrecord length")
		}
	case 2:
		raw.b = raw.b[:n-3]
		z := eg.ServiceDataRecord{RecordDataSet: eg.RecordDataSet{{SubrecordType: 16, SubrecordData: raw}}}
		zeroFlags(&z)
		set := eg.ServiceDataSet{z}
		b, err := set.Encode()
		rt.Assert((err == nil) == (n <= 65535), "a record of up to 65535 bytes is encoded, a longer one rejected")
		if err == nil {
			rt.Cover("record")
			rt.Assert(len(b) == 7+n && int(b[0])|int(b[1])<<8 == n, "declared record length")
		}
	}
}

// VerifUnencodable: an error of an inner part is an error of the whole.
func VerifUnencodable() {
	rds := eg.RecordDataSet{{SubrecordType: 16, SubrecordData: badData{}}}
	if rt.Choose("untyped", 2) == 1 {
		rds[0] = eg.RecordData{SubrecordData: &rawData{}}
	}
	if rt.Choose("second", 2) == 1 {
		rds = append(eg.RecordDataSet{{SubrecordType: 9, SubrecordData: &eg.SrResultCode{ResultCode: rt.Byte("rc")}}}, rds...)
	}
	_, err := rds.Encode()
	rt.Assert(err != nil, "a subrecord list with a bad subrecord is rejected")
	rt.Assert(rds.Length() == 0, "its length is 0")
	r := eg.ServiceDataRecord{RecordDataSet: rds}
	zeroFlags(&r)
	set := &eg.ServiceDataSet{r}
	_, err = set.Encode()
	rt.Assert(err != nil, "a record with a bad subrecord is rejected")
	rt.Assert(set.Length() == 0, "its length is 0")
	var body eg.BinaryData = set
	if rt.Choose("resp", 2) == 1 {
		body = &eg.PtResponse{SDR: set}
		_, err = body.Encode()
		rt.Assert(err != nil, "a response with a bad subrecord is rejected")
	}
	p := eg.Package{ServicesFrameData: body, PacketType: rt.Byte("pt")}
	zeroFlags(&p)
	_, err = p.Encode()
	rt.Cover("rejected")
	rt.Assert(err != nil, "a packet with a bad subrecord is rejected")
}

// VerifCoordinate: encode then decode moves a coordinate by no more than one step of the wire format.
func VerifCoordinate() {
	max, steps := 90.0, 4294967295.0
	e := &eg.SrPosData{NavigationTime: time.Unix(epoch2010, 0).UTC()}
	zeroFlags(e)
	lat := rt.Param("lng", 0) == 0
	v := rt.F64("deg")
	if lat {
		rt.Assume(rt.And(v >= 0, v <= 90))
		e.Latitude = v
	} else {
		max = 180
		rt.Assume(rt.And(v >= 0, v <= 180))
		e.Longitude = v
	}
	b, err := e.Encode()
	rt.Assert(err == nil, "a coordinate in range is encoded")
	if err != nil {
		return
	}
	at := 4
	if !lat {
		at = 8
	}
	w := uint32(b[at]) | uint32(b[at+1])<<8 | uint32(b[at+2])<<16 | uint32(b[at+3])<<24
	x := float64(w)
	rt.Cover("encoded")
	// the wire value is the integer part of v/max*0xFFFFFFFF
	eps := 1e-5
	rt.Assert(rt.And(x <= v/max*steps+eps, v/max*steps < x+1+eps), "the wire value is the scaled coordinate")
	d := &eg.SrPosData{}
	err = d.Decode(b)
	rt.Assert(err == nil, "an encoded position is accepted")
	got, other := d.Latitude, d.Longitude
	if !lat {
		got, other = other, got
	}
	step := max / steps
	rt.Assert(rt.And(got <= v+step/1000, v <= got+step*1.001), "the coordinate moves by at most one step")
	rt.Assert(other == 0, "the other coordinate is untouched")
}

// VerifCoordinateDecode: the wire value stands for value/0xFFFFFFFF of the range.
func VerifCoordinateDecode() {
	a, o := rt.U32("lat"), rt.U32("lng")
	w := cm.New().U32(rt.U32("ntm")).U32(a).U32(o).U8(rt.Byte("flags") & 0x7F).U16(0).U8(0).U24(0).U8(0).U8(0).Bytes()
	d := &eg.SrPosData{}
	rt.Assert(d.Decode(w) == nil, "a complete position is accepted")
	rt.Cover("decoded")
	la, lo := float64(a)*90/4294967295, float64(o)*180/4294967295
	eps := 1e-9
	rt.Assert(rt.And(d.Latitude <= la+eps, la <= d.Latitude+eps), "latitude")
	rt.Assert(rt.And(d.Longitude <= lo+eps, lo <= d.Longitude+eps), "longitude")
	rt.Assert(rt.And(d.Latitude >= 0, d.Latitude <= 90+eps, d.Longitude >= 0, d.Longitude <= 180+eps), "coordinates stay in range")
}

// VerifTime: the time is carried to the second, whatever the time zone of the value.
func VerifTime() {
	s := rt.U32("sec")
	ns := int64(rt.U32("nsec") % 1000000000)
	t := time.Unix(epoch2010+int64(s), ns)
	switch rt.Choose("zone", 3) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.In(time.FixedZone("east", 5*3600+1800))
	case 2:
		t = t.In(time.FixedZone("west", -11*3600))
	}
	e := &eg.SrPosData{}
	zeroFlags(e)
	e.NavigationTime = t
	b, err := e.Encode()
	rt.Assert(err == nil, "a time in range is encoded")
	if err != nil {
		return
	}
	rt.Cover("encoded")
	rt.Assert(uint32(b[0])|uint32(b[1])<<8|uint32(b[2])<<16|uint32(b[3])<<24 == s, "seconds since 2010-01-01 UTC")
	d := &eg.SrPosData{}
	rt.Assert(d.Decode(b) == nil, "an encoded position is accepted")
	rt.Assert(rt.And(d.NavigationTime.Unix() == epoch2010+int64(s), d.NavigationTime.Nanosecond() == 0), "the time is carried to the second")
	_, off := d.NavigationTime.Zone()
	rt.Assert(off == 0, "the decoded time is UTC")
}
