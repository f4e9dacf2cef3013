#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (from /repo's fix commits) and open ones."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C02","29bc12b","a packet with a header length other than 11 or 16, or shorter than it declares, made the decoder panic"),
 ("C01","9a70360","the body was decoded before its checksum was checked, and a wrong body checksum was reported with other codes"),
 ("C05","2470641","the altitude took one byte more than its three, so the subrecord length was wrong"),
 ("C09","6ad5294","truncated packets, records and subrecords were decoded with zero or stale bytes"),
 ("C03","4d4f0ab","a packet without a body could not be decoded"),
 ("C06","80b37aa","analog sensor flags were encoded in the opposite order of decoding"),
 ("C06","7934648","the second counter was decoded into another counter"),
 ("C07","f6fcf90","a dispatcher identity without an explicit type was encoded as type 0"),
 ("C12","c463dcc","an out-of-range speed or sensor number overwrote neighbouring bits"),
 ("C07","ce35423","fixed-size fields of the terminal identity were written at the length of the text"),
 ("C12","0fc0753","credentials holding the field separator were encoded into something else"),
 ("C10","8625465","lengths above 65535 wrapped"),
 ("C17","2379f4a","the packet length overflowed 16 bits and a header length under 10 panicked the server"),
 ("C20","0c5393e","an idle connection was never closed"),
 ("C18","2d25bef","the accept loop spun for ever after the server was stopped"),
 ("C15","690c002","telemetry of a packet that also carries a record response was dropped"),
 ("C15","ca2da4c","southern and western coordinates were exported without their sign"),
 ("C19","499c38a","EGTS_SR_RESULT_CODE was sent in an EGTS_PT_RESPONSE packet"),
 ("C23","8eaa5d8","the record number was assembled from counters 110 and 111 in the wrong byte order"),
 ("C15","9914e6c","the object identifier was reset by a later record without one"),
 ("C22","06f51a6","a failing store kept the record from the stores after it"),
 ("C24","d5555e0","a failed redis publish panicked"),
 ("C24","1f161e5","a redis section without db could not be used"),
 ("C28","6dc5245","packet-gen ignored the requested time"),
 ("C28","a74b74e","packet-gen gave up at once instead of after the documented five seconds"),
 ("C28","02f576b","packet-gen exited with failure after success"),
 ("C28","f8ea160","packet-gen panicked on an acknowledgement without records"),
 ("C28","9a071f5","packet-gen sent southern and western coordinates as northern and eastern"),
 ("C12","e52d769","values wider than 24 bits were cut"),
 ("C12","a4fc2fd","times and coordinates that cannot be encoded were encoded as others"),
 ("C24","9745489","a rabbitmq user or password with @, / or : made another amqp URI"),
 ("C24","9593f98","postgresql parameters that are empty or hold spaces changed the meaning of the connection string"),
 ("C28","dc1e468","packet-gen read only a part of an acknowledgement that arrives in parts"),
 ("C28","85ccb72","packet-gen reported success although its record was not confirmed"),
 ("C28","c9f329b","packet-gen cut identifiers and levels that do not fit"),
 ("C10","39a3fae","stale lengths in the structures were written as they were"),
]
KNOWN = [
 ("C15","VerifTwoObjects","positions of different objects are stored under their own objects","a packet whose records belong to different objects is exported as one record under the last object identifier, so the other objects' positions are stored under it (server.go: one NavRecord per packet; the record format has one client_id)"),
]
out = [{"property": p, "status": "known", "harness": h, "match": m, "what": w} for p, h, m, w in KNOWN]
out += [{"property": p, "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in FIXED]
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
