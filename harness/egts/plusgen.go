// Code generated by tools/gen_plus.py from docs/egts_sr_egtsplus_data.proto; DO NOT EDIT.

package egts

import eg "github.com/ElectroUnion/egts-gate/libs/egts"

var plusMsgs = []plusMsg{
	{18, []plusField{
		{"SensNum", 1, pUint32},
		{"Buf", 2, pBytes},
		{"Atm", 3, pUint32},
		{"Frequency", 4, pUint32},
		{"Range", 5, pUint32},
		{"Format", 6, pUint32},
		{"Zlib", 7, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensAccelerometerData{}
		r.SensAccelerometerData = append(r.SensAccelerometerData, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensAccelerometerData() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensAccelerometerData)
		return []interface{}{m.GetSensNum(), m.GetBuf(), m.GetAtm(), m.GetFrequency(), m.GetRange(), m.GetFormat(), m.GetZlib()}
	}},
	{9, []plusField{
		{"SensNum", 1, pUint32},
		{"Mv", 2, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensAinAinValue{}
		r.SensAinAinValue = append(r.SensAinAinValue, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensAinAinValue() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensAinAinValue)
		return []interface{}{m.GetSensNum(), m.GetMv()}
	}},
	{20, []plusField{
		{"SensNum", 1, pUint32},
		{"Data", 2, pBytes},
		{"IsPacked", 3, pBool},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensBufferData{}
		r.SensBufferData = append(r.SensBufferData, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensBufferData() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensBufferData)
		return []interface{}{m.GetSensNum(), m.GetData(), m.GetIsPacked()}
	}},
	{14, []plusField{
		{"SensNum", 1, pUint32},
		{"State", 2, pBool},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensButtonPressCounter{}
		r.SensButtonPressCounter = append(r.SensButtonPressCounter, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensButtonPressCounter() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensButtonPressCounter)
		return []interface{}{m.GetSensNum(), m.GetState()}
	}},
	{16, []plusField{
		{"SensNum", 1, pUint32},
		{"FlagSecurityState", 2, pUint32},
		{"FlagAlarm", 3, pUint32},
		{"EngineTimeAll", 4, pUint32},
		{"EngineTurnSpeed", 5, pUint32},
		{"EngineTemperature", 6, pSint32},
		{"FuelConsumptionAll", 7, pUint32},
		{"FuelLevel", 8, pUint32},
		{"TrackAll", 9, pUint32},
		{"Speed", 10, pUint32},
		{"PressureAxis_1", 11, pUint32},
		{"PressureAxis_2", 12, pUint32},
		{"PressureAxis_3", 13, pUint32},
		{"PressureAxis_4", 14, pUint32},
		{"PressureAxis_5", 15, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensCanLogData{}
		r.SensCanLogData = append(r.SensCanLogData, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensCanLogData() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensCanLogData)
		return []interface{}{m.GetSensNum(), m.GetFlagSecurityState(), m.GetFlagAlarm(), m.GetEngineTimeAll(), m.GetEngineTurnSpeed(), m.GetEngineTemperature(), m.GetFuelConsumptionAll(), m.GetFuelLevel(), m.GetTrackAll(), m.GetSpeed(), m.GetPressureAxis_1(), m.GetPressureAxis_2(), m.GetPressureAxis_3(), m.GetPressureAxis_4(), m.GetPressureAxis_5()}
	}},
	{17, []plusField{
		{"SensNum", 1, pUint32},
		{"FlagsHigh", 2, pUint32},
		{"FlagsLow", 3, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensCanLogTmpDataExt{}
		r.SensCanLogTmpDataExt = append(r.SensCanLogTmpDataExt, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensCanLogTmpDataExt() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensCanLogTmpDataExt)
		return []interface{}{m.GetSensNum(), m.GetFlagsHigh(), m.GetFlagsLow()}
	}},
	{11, []plusField{
		{"SensNum", 1, pUint32},
		{"Value", 2, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensCounterCount{}
		r.SensCounterCount = append(r.SensCounterCount, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensCounterCount() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensCounterCount)
		return []interface{}{m.GetSensNum(), m.GetValue()}
	}},
	{24, []plusField{
		{"SensNum", 1, pUint32},
		{"Energy", 2, pUint32},
		{"IsOverturned", 3, pBool},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensCrashData{}
		r.SensCrashData = append(r.SensCrashData, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensCrashData() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensCrashData)
		return []interface{}{m.GetSensNum(), m.GetEnergy(), m.GetIsOverturned()}
	}},
	{10, []plusField{
		{"SensNum", 1, pUint32},
		{"Device", 2, pUint32},
		{"External", 3, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensDinsFlags{}
		r.SensDinsFlags = append(r.SensDinsFlags, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensDinsFlags() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensDinsFlags)
		return []interface{}{m.GetSensNum(), m.GetDevice(), m.GetExternal()}
	}},
	{19, []plusField{
		{"SensNum", 1, pUint32},
		{"Device", 2, pUint32},
		{"External", 3, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensDoutsFlags{}
		r.SensDoutsFlags = append(r.SensDoutsFlags, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensDoutsFlags() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensDoutsFlags)
		return []interface{}{m.GetSensNum(), m.GetDevice(), m.GetExternal()}
	}},
	{12, []plusField{
		{"SensNum", 1, pUint32},
		{"Value", 2, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensFmeterFrequency{}
		r.SensFmeterFrequency = append(r.SensFmeterFrequency, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensFmeterFrequency() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensFmeterFrequency)
		return []interface{}{m.GetSensNum(), m.GetValue()}
	}},
	{8, []plusField{
		{"SensNum", 1, pUint32},
		{"Value", 2, pFloat},
		{"Parrots", 3, pUint32},
		{"Unit", 4, pUint32},
		{"T", 5, pUint32},
		{"Status", 6, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensFuelLevel{}
		r.SensFuelLevel = append(r.SensFuelLevel, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensFuelLevel() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensFuelLevel)
		return []interface{}{m.GetSensNum(), m.GetValue(), m.GetParrots(), m.GetUnit(), m.GetT(), m.GetStatus()}
	}},
	{13, []plusField{
		{"SensNum", 1, pUint32},
		{"Lac", 4, pBytes},
		{"Cid", 5, pBytes},
		{"Rssi", 6, pBytes},
		{"TimeAdv", 7, pBytes},
		{"Mcc", 2, pUint32},
		{"Mnc", 3, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensGsmCellMonotoringCellMonitoring{}
		r.SensGsmCellMonotoringCellMonitoring = append(r.SensGsmCellMonotoringCellMonitoring, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensGsmCellMonotoringCellMonitoring() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensGsmCellMonotoringCellMonitoring)
		return []interface{}{m.GetSensNum(), m.GetLac(), m.GetCid(), m.GetRssi(), m.GetTimeAdv(), m.GetMcc(), m.GetMnc()}
	}},
	{7, []plusField{
		{"SensNum", 1, pUint32},
		{"Longitude", 2, pSfixed32},
		{"Latitude", 3, pSfixed32},
		{"Altitude", 4, pUint32},
		{"Speed", 5, pUint32},
		{"Course", 6, pUint32},
		{"SatCount", 7, pUint32},
		{"Pdop", 8, pUint32},
		{"Track", 9, pUint32},
		{"Odometer", 10, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensNdNavData{}
		r.SensNdNavData = append(r.SensNdNavData, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensNdNavData() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensNdNavData)
		return []interface{}{m.GetSensNum(), m.GetLongitude(), m.GetLatitude(), m.GetAltitude(), m.GetSpeed(), m.GetCourse(), m.GetSatCount(), m.GetPdop(), m.GetTrack(), m.GetOdometer()}
	}},
	{21, []plusField{
		{"SensNum", 1, pUint32},
		{"IdMax", 2, pUint32},
		{"IdMin", 3, pUint32},
		{"TmOldest", 4, pUint32},
		{"TmOldestUnack", 5, pUint32},
		{"CntUnack", 6, pUint32},
		{"CntUnackLosted", 7, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensStorInfo{}
		r.SensStorInfo = append(r.SensStorInfo, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensStorInfo() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensStorInfo)
		return []interface{}{m.GetSensNum(), m.GetIdMax(), m.GetIdMin(), m.GetTmOldest(), m.GetTmOldestUnack(), m.GetCntUnack(), m.GetCntUnackLosted()}
	}},
	{15, []plusField{
		{"SensNum", 1, pUint32},
		{"Status", 2, pUint32},
		{"Temperature", 3, pSint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensTermoData{}
		r.SensTermoData = append(r.SensTermoData, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensTermoData() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensTermoData)
		return []interface{}{m.GetSensNum(), m.GetStatus(), m.GetTemperature()}
	}},
	{23, []plusField{
		{"SensNum", 1, pUint32},
		{"MicConFailure", 2, pBool},
		{"MicFailure", 3, pBool},
		{"IgnitionFailure", 4, pBool},
		{"UimFailure", 5, pBool},
		{"BatFailure", 6, pBool},
		{"BatVoltLow", 7, pBool},
		{"CrashSensFailure", 8, pBool},
		{"RaimProblem", 9, pBool},
		{"GnssAntennaFailure", 10, pBool},
		{"EventsMemoryOverflow", 11, pBool},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensTestEraTests{}
		r.SensTestEraTests = append(r.SensTestEraTests, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensTestEraTests() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensTestEraTests)
		return []interface{}{m.GetSensNum(), m.GetMicConFailure(), m.GetMicFailure(), m.GetIgnitionFailure(), m.GetUimFailure(), m.GetBatFailure(), m.GetBatVoltLow(), m.GetCrashSensFailure(), m.GetRaimProblem(), m.GetGnssAntennaFailure(), m.GetEventsMemoryOverflow()}
	}},
	{22, []plusField{
		{"SensNum", 1, pUint32},
		{"CntAck", 2, pUint32},
		{"CntAckRealtime", 3, pUint32},
		{"CntNoack", 4, pUint32},
		{"CntConnect", 5, pUint32},
	}, func(r *eg.StorageRecord) interface{} {
		m := &eg.SensTrackerInfo{}
		r.SensTrackerInfo = append(r.SensTrackerInfo, m)
		return m
	}, func(r *eg.StorageRecord) []interface{} {
		var l []interface{}
		for _, m := range r.GetSensTrackerInfo() {
			l = append(l, m)
		}
		return l
	}, func(x interface{}) []interface{} {
		m, _ := x.(*eg.SensTrackerInfo)
		return []interface{}{m.GetSensNum(), m.GetCntAck(), m.GetCntAckRealtime(), m.GetCntNoack(), m.GetCntConnect()}
	}},
}

var plusReasons = []struct {
	v    int32
	name string
	c    eg.StorageRecordReason
}{
	{1, "DEVICE_RESET", eg.StorageRecord_DEVICE_RESET},
	{2, "PROFILE_CHANGE", eg.StorageRecord_PROFILE_CHANGE},
	{3, "IGNITION_ON", eg.StorageRecord_IGNITION_ON},
	{4, "IGNITION_OFF", eg.StorageRecord_IGNITION_OFF},
	{5, "TRIP_BEGIN", eg.StorageRecord_TRIP_BEGIN},
	{6, "TRIP_END", eg.StorageRecord_TRIP_END},
	{7, "STOP", eg.StorageRecord_STOP},
	{8, "MOVE", eg.StorageRecord_MOVE},
	{9, "TOWING_BEGIN", eg.StorageRecord_TOWING_BEGIN},
	{10, "TOWING_END", eg.StorageRecord_TOWING_END},
	{11, "TIMER_MOVE", eg.StorageRecord_TIMER_MOVE},
	{12, "TIMER_STOP", eg.StorageRecord_TIMER_STOP},
	{13, "ANGLE", eg.StorageRecord_ANGLE},
	{14, "DISTANCE", eg.StorageRecord_DISTANCE},
	{15, "SOS_BUTTON", eg.StorageRecord_SOS_BUTTON},
	{16, "SERVICE_BUTTON", eg.StorageRecord_SERVICE_BUTTON},
	{17, "TAMPER", eg.StorageRecord_TAMPER},
	{18, "ANTENNA_SWITCH", eg.StorageRecord_ANTENNA_SWITCH},
	{19, "GSM_LOST", eg.StorageRecord_GSM_LOST},
	{20, "GSM_RECONNECT", eg.StorageRecord_GSM_RECONNECT},
	{21, "GNSS_LOST", eg.StorageRecord_GNSS_LOST},
	{22, "GNSS_REAQUISITION", eg.StorageRecord_GNSS_REAQUISITION},
	{23, "JAMMER_GSM", eg.StorageRecord_JAMMER_GSM},
	{24, "JAMMER_GNSS", eg.StorageRecord_JAMMER_GNSS},
	{25, "OVER_SPEED", eg.StorageRecord_OVER_SPEED},
	{26, "OVER_RPM", eg.StorageRecord_OVER_RPM},
	{27, "OVER_TEMPERATURE", eg.StorageRecord_OVER_TEMPERATURE},
	{28, "DANGEROUS_DRIVING", eg.StorageRecord_DANGEROUS_DRIVING},
	{29, "ACCIDENT", eg.StorageRecord_ACCIDENT},
	{30, "OVERTHROW", eg.StorageRecord_OVERTHROW},
	{31, "ON_BATTERY", eg.StorageRecord_ON_BATTERY},
	{32, "BATTERY_DISCHARGE", eg.StorageRecord_BATTERY_DISCHARGE},
	{33, "RADIO_TAG_REG", eg.StorageRecord_RADIO_TAG_REG},
	{34, "RADIO_TAG_UNREG", eg.StorageRecord_RADIO_TAG_UNREG},
	{35, "MOVE_WITHOUT_RADIO_TAG", eg.StorageRecord_MOVE_WITHOUT_RADIO_TAG},
	{36, "ECU_ERROR_CODE", eg.StorageRecord_ECU_ERROR_CODE},
	{37, "EXTERNAL_REQUEST", eg.StorageRecord_EXTERNAL_REQUEST},
	{38, "DEVICE_TEST", eg.StorageRecord_DEVICE_TEST},
	{99, "OTHER_REASON", eg.StorageRecord_OTHER_REASON},
}
