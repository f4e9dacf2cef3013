BIG = dict(maxsteps=300000000)
E = "libs/egts/"
PKG = [E + "egts_pkg.go", E + "crc.go", E + "binary_data.go"]
REC = [E + "service_data_records.go", E + "record_data.go"]

prop("C01", "A packet is decoded only if both of its checksums match its bytes",
 "A packet whose header checksum (CRC-8 over the header) or body checksum (CRC-16/CCITT over the body) does not match the bytes it covers is rejected with result code 137 or 138 respectively and an error, whatever its content; a packet whose checksums match is never rejected for its checksums. An encoded packet carries exactly these checksums, so any change confined to one byte of a packet is detected.",
 ["inputs"], "every header field value, every body content within the length bound, every checksum value, with and without routing fields",
 "The tests decode a few fixed packets with right checksums and one damaged one; the guarantee quantifies over every content and every damage.",
 PKG, [("Package.Decode checks", E + "egts_pkg.go"), ("crc8, crc16", E + "crc.go")])
check("C01", [
  job("egts", "FrameEncode", {"n": [0, 1, 5, 24], "route": [0, 1]}, ["encoded"]),
  job("egts", "ChecksumGate", {"n": [1, 8, 24], "route": [0, 1]}, ["header checksum wrong", "body checksum wrong", "checksums right"]),
  job("egts", "Corruption", {"n": [8, 16]}, ["damaged"]),
  job("egts", "FrameEncode", {"n": [300, 1200], "sym": 1}, ["encoded"]),
  job("egts", "ChecksumGate", {"n": [300, 1200, 4096], "sym": 1}, ["header checksum wrong", "body checksum wrong", "checksums right"]),
  job("egts", "ChecksumGate", {"n": [65535], "sym": -1}, ["header checksum wrong", "body checksum wrong", "checksums right"], maxsteps=40000000),
  job("egts", "FrameEncode", {"n": [4096, 16384], "sym": 1}, ["encoded"], "thorough", maxsteps=40000000),
  job("egts", "FrameEncode", {"n": [65535], "sym": -1}, ["encoded"], "thorough", maxsteps=40000000),
  job("egts", "FrameEncode", {"n": [64], "route": [0, 1]}, ["encoded"], "thorough"),
  job("egts", "ChecksumGate", {"n": [64], "route": [0, 1]}, ["header checksum wrong", "body checksum wrong"], "thorough"),
  job("egts", "Corruption", {"n": [24, 32, 48]}, ["damaged"], "thorough"),
 ], ["bodies of 0, 1, 5, 8, 24 (thorough: 64) bytes, all contents", "bodies of 300, 1200, 4096 bytes with a byte at either end and in the middle arbitrary; of 65535 bytes with the checksums arbitrary", "routing present and absent", "damage: every change of any one byte of the packet, bodies up to 16 (48) bytes"])

prop("C02", "No byte sequence crashes the decoder, and error and code agree",
 "Decoding any byte sequence, as a packet, a record set, a subrecord list or a single subrecord of any type, returns normally: no panic, no endless loop. Packet decoding returns result code 0 exactly when it returns no error. What a subrecord decoder accepts can be encoded again, and that encoding decodes to the same value.",
 ["inputs"], "every byte sequence up to the length bound, every declared header length, every subrecord type",
 "Tests feed well formed packets; the decoder faces arbitrary bytes from the network.",
 PKG + REC, [("Decode functions", E)])
check("C02", [
  job("egts", "DecodeAny", {"n": [0, 4, 11, 16, 18]}, ["rejected"]),
  job("egts", "DecodeHL", {"n": [20]}, ["rejected"]),
  job("egts", "SetAny", {"n": [7, 12]}, ["accepted", "rejected"]),
  job("egts", "SubsAny", {"n": [8]}, ["accepted", "rejected"]),
  job("egts", "SubAny", {"kind": list(range(14)), "n": [8]}, ["rejected"]),
  job("egts", "DecodeAny", {"n": [20, 22, 24]}, ["rejected"], "thorough"),
  job("egts", "SetAny", {"n": [16, 18]}, ["accepted", "rejected"], "thorough"),
  job("egts", "SubsAny", {"n": [10, 12]}, ["accepted", "rejected"], "thorough"),
  job("egts", "SubAny", {"kind": list(range(14)), "n": [32]}, ["rejected"], "thorough"),
 ], ["packets of 0, 4, 11, 16, 18 (thorough up to 24) arbitrary bytes", "record sets of up to 12 (18), subrecord lists of up to 8 (12), subrecords of up to 8 (32) arbitrary bytes"],
 ["the protobuf library behind the vendor subrecord type 15 is a stand-in that refuses or keeps the bytes"])

prop("C03", "Every packet header is laid out as the standard says and read back unchanged",
 "For every combination of header field values, with and without the optional routing fields, the encoded packet has exactly the field order, widths, bit positions, byte order, header length and body length the standard prescribes, and decoding such bytes yields those field values. Encoding then decoding returns the same packet.",
 ["inputs"], "every value of every header field, routing present and absent, all bodies within the bound",
 "Tests compare a handful of constant packets, mostly without routing.",
 PKG, [("Package.Encode/Decode", E + "egts_pkg.go")])
check("C03", [
  job("egts", "FrameEncode", {"n": [0, 1, 7, 16], "route": [0, 1]}, ["encoded"]),
  job("egts", "FrameDecodeHeader", {"route": [0, 1]}, ["decoded"]),
  job("egts", "FrameRoundTrip", {"route": [0, 1]}, ["round trip"]),
  job("egts", "Bulk", {"nrec": [2], "nsub": [400], "route": [1]}, ["bulk"], **BIG),
  job("egts", "FrameEncode", {"n": [40, 64], "route": [0, 1]}, ["encoded"], "thorough"),
 ], ["all header field values; bodies of 0, 1, 7, 16 (64) arbitrary bytes; a body of 2 records of 400 subrecords"])

prop("C04", "Record sets are laid out as the standard says; no record is lost or invented",
 "A list of records with any numbers, services, flags, present or absent optional fields and any supported subrecords is encoded to exactly the standard's bytes, and those bytes are decoded to exactly the same records and subrecords in the same order.",
 ["inputs"], "every header field value, every combination of the three optional fields, every subrecord kind, lists within the bound",
 "Tests decode single records with few flag combinations.",
 REC, [("ServiceDataSet.Encode/Decode", E + "service_data_records.go"), ("RecordDataSet.Encode/Decode", E + "record_data.go")])
check("C04", [
  job("egts", "RecEncode", {}, ["encoded"]), job("egts", "RecDecode", {}, ["decoded"]),
  job("egts", "RecEncode", {"nrec": 2, "nsub": 1, "kinds": 3}, ["encoded"]),
  job("egts", "RecDecode", {"nrec": 2, "nsub": 1, "kinds": 3}, ["decoded"]),
  job("egts", "RecEncode", {"nrec": 1, "nsub": 2, "mask": 7}, ["encoded"]),
  job("egts", "RecDecode", {"nrec": 1, "nsub": 2, "mask": 7}, ["decoded"]),
  job("egts", "RecDecode", {"nrec": 1, "nsub": 0}, ["decoded"]),
  job("egts", "Vendor", {}, ["refused", "relayed"]), job("egts", "RelayState", {}, ["relayed"]),
  job("egts", "Bulk", {"nrec": [20], "nsub": [5], "places": [3]}, ["bulk"], **BIG),
  job("egts", "Bulk", {"nrec": [300], "nsub": [1]}, ["bulk"], **BIG),
  job("egts", "Bulk", {"nrec": [2], "nsub": [300]}, ["bulk"], **BIG),
  job("egts", "Bulk", {"nrec": [2], "nsub": [2], "text": [300, 5000]}, ["bulk"], **BIG),
  job("egts", "Bulk", {"nrec": [1000], "nsub": [2]}, ["bulk"], "thorough", **BIG),
  job("egts", "Bulk", {"nrec": [1], "nsub": [3], "text": [20000]}, ["bulk"], "thorough", **BIG),
  job("egts", "RecEncode", {"nrec": 2, "nsub": 2, "kinds": 3}, ["encoded"], "thorough"),
  job("egts", "RecDecode", {"nrec": 2, "nsub": 2, "kinds": 3}, ["decoded"], "thorough"),
  job("egts", "RecDecode", {"nrec": 3, "nsub": 1, "kinds": 2}, ["decoded"], "thorough"),
  job("egts", "RecDecode", {"nrec": 1, "nsub": 3, "kinds": 4, "mask": [0, 7]}, ["decoded"], "thorough"),
 ], ["up to 2 records of up to 2 subrecords of all 13 kinds (thorough: 3 records, 3 subrecords)", "20 records of 5, 300 of 1 and 2 of 300 subrecords (thorough 1000 of 2) of all kinds in turn, and texts of 300 and 5000 (20000) bytes, with one record and one subrecord arbitrary and the others fixed", "all field values, all optional-field combinations"])

prop("C05", "Position subrecords carry every field exactly",
 "For every representable position the encoded subrecord has the standard's layout, and decoding yields the same time, flags, coordinates (within the format's resolution), speed, course, odometer, inputs, source and, when flagged, altitude with its sign; encoding then decoding returns the same values.",
 ["inputs"], "every value of every field, altitude present and absent",
 "Tests hold two constant positions.",
 [E + "egts_sr_pos_data.go", E + "binary_data.go"], [("SrPosData.Encode/Decode", E + "egts_sr_pos_data.go")])
check("C05", [
  job("egts", "SubEncode", {"kind": 0}, ["encoded"]), job("egts", "SubDecode", {"kind": 0}, ["decoded"]),
  job("egts", "SubRoundTrip", {"kind": 0}, ["round trip"]), job("egts", "Range", {"kind": 0}, ["tried"]),
  job("egts", "Time", {}, ["encoded"]),
 ], ["all field values; times (in zones east and west of Greenwich too) of the whole 32-bit second range from 2010"])

prop("C06", "Sensor and counter subrecords carry every field exactly",
 "For every value of the counter, digital/analog sensor, absolute sensor, absolute counter and liquid level subrecords, with every combination of present fields, the encoded bytes have the standard's layout, decoding yields the same values under the same sensor numbers, and encoding then decoding is the identity.",
 ["inputs"], "every value and every combination of field-present flags",
 "Tests hold one or two constants per type, so swapped or misplaced sensors stay unseen.",
 [E + f for f in ["egts_sr_counters_data.go", "egts_sr_ad_sensors_data.go", "egts_sr_abs_an_sensors_data.go", "egts_sr_abs_cntr_data.go", "egts_sr_liquid_level_sensor.go"]],
 [("Encode/Decode of each type", E)])
K6 = [2, 4, 5, 6]
check("C06", [
  job("egts", "SubEncode", {"kind": K6}, ["encoded"]), job("egts", "SubDecode", {"kind": K6}, ["decoded"]), job("egts", "SubRoundTrip", {"kind": K6}, ["round trip"]),
  job("egts", "SubEncode", {"kind": 3, "dmode": [1, 2], "amode": [1, 2]}, ["encoded"]),
  job("egts", "SubDecode", {"kind": 3, "dmode": [1, 2], "amode": [1, 2]}, ["decoded"]),
  job("egts", "SubRoundTrip", {"kind": 3, "dmode": [1], "amode": [1]}, ["round trip"]),
  job("egts", "SubRoundTrip", {"kind": 3, "dmode": [2], "amode": [2]}, ["round trip"], "thorough"),
  job("egts", "Range", {"kind": [2, 3, 4, 5, 6]}, ["tried"]),
 ], ["all field values; all presence combinations as stated by the modes (0 none, 1 each alone and all, 2 every combination)"])

prop("C07", "Identity and authorisation subrecords carry every field exactly",
 "For every terminal identity (with every combination of optional fields), dispatcher identity and authorisation data, the encoded bytes have the standard's layout with its fixed field sizes and delimiters, decoding yields the same values, and encoding then decoding is the identity up to padding.",
 ["inputs"], "every value, every flag combination, string lengths within the bound",
 "Tests hold one constant per type.",
 [E + f for f in ["egts_sr_term_identity.go", "egts_sr_dispatcher_identity.go", "egts_sr_auth_info.go"]], [("Encode/Decode of each type", E)])
K7 = [7, 8, 9]
check("C07", [
  job("egts", "SubEncode", {"kind": K7, "n": [0, 3]}, ["encoded"]), job("egts", "SubDecode", {"kind": K7, "n": [0, 3]}, ["decoded"]), job("egts", "SubRoundTrip", {"kind": K7, "n": [0, 3]}, ["round trip"]),
  job("egts", "Range", {"kind": [7, 8], "n": [1, 2]}, ["tried"]),
  job("egts", "SubDecode", {"kind": [8, 9], "n": [6, 64, 256]}, ["decoded"]), job("egts", "SubRoundTrip", {"kind": [8, 9], "n": [256, 1000]}, ["round trip"], **BIG),
  job("egts", "SubRoundTrip", {"kind": [9], "n": [65000]}, ["round trip"], **BIG),
  job("egts", "SubDecode", {"kind": [8, 9], "n": [12]}, ["decoded"], "thorough"), job("egts", "SubRoundTrip", {"kind": [8, 9], "n": [6, 12]}, ["round trip"], "thorough"),
 ], ["all field values; free-length strings of every length up to 6 (12) bytes, and of 32, 64, 128, 256, 500, 1000 (descriptions also 65000) bytes"])

prop("C08", "State, satellite, confirmation and result data carry every field exactly",
 "For every value of the module state, extended position, record confirmation and result code subrecords and of the packet confirmation, with every combination of optional fields and with or without records, the encoded bytes have the standard's layout, decoding yields the same values, and encoding then decoding is the identity.",
 ["inputs"], "every value and flag combination; confirmations with and without records",
 "Tests hold one constant per type.",
 [E + f for f in ["egts_sr_state_data.go", "egts_sr_ext_pos_data.go", "egts_sr_response.go", "egts_sr_result_code.go", "egts_pt_response.go"]], [("Encode/Decode of each type", E)])
K8 = [1, 10, 11, 12]
check("C08", [
  job("egts", "SubEncode", {"kind": K8}, ["encoded"]), job("egts", "SubDecode", {"kind": K8}, ["decoded"]), job("egts", "SubRoundTrip", {"kind": K8}, ["round trip"]),
  job("egts", "Response", {}, ["without records", "with records"]),
 ], ["all field values"])

prop("C09", "Truncated data is rejected, never partially accepted",
 "A packet, record, subrecord or subrecord body cut short at any byte that is not the end of a complete element is rejected with an error (a packet also with a non-zero code); nothing is decoded from bytes that are not there.",
 ["inputs"], "every content and every cut position; a record whose body is wholly absent counts as an empty record",
 "Tests hold no truncated input for most types.",
 PKG + REC, [("length checks, io.ReadFull", E)])
check("C09", [
  job("egts", "SubTruncated", {"kind": list(range(13))}, ["cut"]),
  job("egts", "RecTruncated", {}, ["cut"]), job("egts", "RecTruncated", {"nrec": 2, "kinds": 1, "mask": [0]}, ["cut"]), job("egts", "SubsTruncated", {}, ["cut"]), job("egts", "Overlong", {}, ["record", "subrecord"]),
  job("egts", "PacketTruncated", {"mask": [0, 7], "kinds": 2}, ["cut"]),
  job("egts", "RecTruncated", {"nrec": 2, "kinds": 3, "mask": [0, 5]}, ["cut"], "thorough"),
  job("egts", "SubsTruncated", {"nsub": 2, "kinds": 6, "mask": [0]}, ["cut"], "thorough"),
  job("egts", "PacketTruncated", {"mask": [0, 7], "kinds": 13}, ["cut"], "thorough"),
 ], ["all 13 subrecord kinds; records of one (thorough two) subrecords; packets of one record"])

prop("C10", "Encoded length fields always equal the data they describe",
 "Whatever lengths the caller left in the structures, every length field an encoder writes (header length, body length, record length, subrecord length) is the actual length of what follows; data too long for its length field is refused, not truncated.",
 ["inputs"], "every stale length value, every record shape within the bound, data up to and beyond 65535 bytes",
 "Tests always set the right lengths.",
 PKG + REC, [("Encode functions", E)])
check("C10", [
  job("egts", "RecStale", {}, ["encoded"]), job("egts", "TooLong", {}, ["body", "record", "subrecord"], maxsteps=20000000),
  job("egts", "Overlong", {}, ["record", "subrecord"]), job("egts", "FrameEncode", {"n": [0, 3], "route": [0, 1]}, ["encoded"]),
  job("egts", "Bulk", {"nrec": [2], "nsub": [300]}, ["bulk"], **BIG),
  job("egts", "Bulk", {"nrec": [2], "nsub": [2], "text": [300, 5000]}, ["bulk"], **BIG),
  job("egts", "RecStale", {"nrec": 2, "nsub": 2, "kinds": 3}, ["encoded"], "thorough"),
 ], ["records of one subrecord of all 13 kinds (thorough 2 records of 2)", "over-long data of 65536 bytes at each level"])

prop("C11", "A decoded packet is encoded again to the same bytes",
 "A gateway that decodes a well formed packet and encodes it again (relay) emits the bytes it received, for every record shape and packet type; what any subrecord decoder accepts is stable under encoding and decoding.",
 ["inputs"], "every header value, record shape, optional-field combination and subrecord content within the bound",
 "Tests check either direction on constants, never the composition.",
 PKG + REC, [("Encode and Decode agree", E)])
check("C11", [
  job("egts", "RecRelay", {"mask": [0], "nrec": 1}, ["relayed"]), job("egts", "RecRelay", {"mask": [7], "kinds": 4}, ["relayed"]),
  job("egts", "RecRelay", {"mask": [0], "nrec": 2, "kinds": 2}, ["relayed"]),
  job("egts", "SubAny", {"kind": list(range(14)), "n": [8]}, ["rejected"]),
  job("egts", "Vendor", {}, ["refused", "relayed"]), job("egts", "RelayState", {}, ["relayed"]),
  job("egts", "Bulk", {"nrec": [20], "nsub": [5], "places": [3]}, ["bulk"], **BIG),
  job("egts", "Bulk", {"nrec": [300], "nsub": [1], "route": [1]}, ["bulk"], **BIG),
  job("egts", "Bulk", {"nrec": [2], "nsub": [2], "text": [300, 5000]}, ["bulk"], **BIG),
  job("egts", "RecRelay", {"mask": list(range(8))}, ["relayed"], "thorough"),
  job("egts", "SubAny", {"kind": list(range(14)), "n": [32]}, ["rejected"], "thorough"),
 ], ["one record of one subrecord of each kind, two records of two kinds; packets of 20 records of 5 subrecords and of 300 records, and texts of up to 5000 bytes, with one record and one subrecord arbitrary; subrecord bodies of up to 8 (32) arbitrary bytes"])

prop("C12", "Values that cannot be represented are refused, not cut or wrapped",
 "Encoding a structure holding a value outside the range of its field (numbers too wide, flag text that is not binary digits, over-long fixed-size text, delimiters inside text, times and coordinates out of range, missing data) returns an error instead of bytes that decode to something else.",
 ["inputs"], "every out-of-range value of every bounded field",
 "Tests only encode representable values.",
 [E], [("range checks in Encode", E)])
check("C12", [
  job("egts", "BadFlag", {}, ["bad flag"]), job("egts", "Range", {"kind": [0, 2, 3, 4, 5, 6, 7, 8]}, ["tried"]), job("egts", "Unencodable", {}, ["rejected"]),
  job("egts", "TooLong", {}, ["body", "record", "subrecord"], maxsteps=20000000),
 ], ["each bounded field alone out of range, all values; flag text of the right width"], ["flag text of the wrong width is outside the bound"])

prop("C13", "Unsupported subrecord types and packet types are reported, never skipped",
 "A packet holding a subrecord of a type the library does not implement, at any position, is rejected with an error and a non-zero code instead of being decoded without it; a packet of an unknown packet type is rejected with code 133.",
 ["inputs"], "every unknown type value, every body",
 "Tests hold one unknown type.",
 REC + [E + "egts_pkg.go"], [("type switches", E + "record_data.go")])
check("C13", [
  job("egts", "Unknown", {"n": [2]}, ["unknown", "type 20"]), job("egts", "UnknownPacket", {}, ["rejected"]), job("egts", "DecodeHL", {"n": [16]}, ["unknown type"]),
  job("egts", "Unknown", {"n": [3]}, ["unknown", "type 20"], "thorough"),
 ], ["every type value; unknown bodies of up to 26 bytes, 2 (3) of them arbitrary"])

prop("C14", "Coordinates and times survive the format within one unit of its resolution",
 "For every latitude in [0,90], longitude in [0,180] and every second from 2010 the format can hold, encoding then decoding returns a coordinate no further than one unit of the 32-bit scale away and exactly the same second; decoding never yields a coordinate outside these ranges.",
 ["inputs"], "every double in range, every 32-bit coordinate, every 32-bit second",
 "Two sample coordinates cannot show rounding, overflow or sign faults over 2^32 values.",
 [E + "egts_sr_pos_data.go"], [("coordinate scaling", E + "egts_sr_pos_data.go")])
check("C14", [
  job("egts", "Coordinate", {"lng": [0, 1]}, ["encoded"]), job("egts", "CoordinateDecode", {}, ["decoded"]), job("egts", "Time", {}, ["encoded"]),
 ], ["all IEEE doubles in range, all 32-bit coordinate and time values"])
