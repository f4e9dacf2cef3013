#!/usr/bin/env python3
"""The vendor subrecord's fields as docs/egts_sr_egtsplus_data.proto has them -> harness/egts/plusgen.go.
(The result is committed: it is the reference, and comes from the document, not from the code.)"""
import re, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open("/repo/docs/egts_sr_egtsplus_data.proto", encoding="utf-8").read()
src = re.sub(r"//[^\n]*", "", src)
def camel(s):
    r = ""
    for k, p in enumerate(s.split("_")):
        if not p: continue
        r += ("_" if p[0].isdigit() else "") + p[0].upper() + p[1:]
    return r
msgs = []
for m in re.finditer(r"message\s+(\w+)\s*\{", src):
    d, i = 1, m.end()
    while d:
        d += {"{": 1, "}": -1}.get(src[i], 0); i += 1
    body = src[m.end():i-1]
    en = re.search(r"enum\s+(\w+)\s*\{(.*?)\}", body, re.S)
    reasons = []
    if en:
        reasons = re.findall(r"(\w+)\s*=\s*(\d+)", en.group(2))
        body = body.replace(en.group(0), "")
    fs = re.findall(r"(required|optional|repeated)\s+([\w.]+)\s+(\w+)\s*=\s*(\d+)", body)
    msgs.append((m.group(1), fs, reasons))
W = {"uint32": "pUint32", "fixed32": "pFixed32", "sfixed32": "pSfixed32", "sint32": "pSint32", "bool": "pBool", "bytes": "pBytes", "float": "pFloat"}
outer = msgs[0]
nums = {t.split(".")[1]: int(n) for _, t, _, n in outer[1] if t.startswith("nv.")}
o = ["// Code generated by tools/gen_plus.py from docs/egts_sr_egtsplus_data.proto; DO NOT EDIT.", "", "package egts", "",
     'import eg "github.com/ElectroUnion/egts-gate/libs/egts"', "", "var plusMsgs = []plusMsg{"]
for name, fs, _ in msgs[1:]:
    T = camel(name)
    o.append("\t{%d, []plusField{" % nums[name])
    for _, t, n, k in fs:
        o.append('\t\t{"%s", %s, %s},' % (camel(n), k, W[t]))
    o.append("\t}, func(r *eg.StorageRecord) interface{} {")
    o.append("\t\tm := &eg.%s{}\n\t\tr.%s = append(r.%s, m)\n\t\treturn m" % (T, T, T))
    o.append("\t}, func(r *eg.StorageRecord) []interface{} {\n\t\tvar l []interface{}\n\t\tfor _, m := range r.Get%s() {\n\t\t\tl = append(l, m)\n\t\t}\n\t\treturn l" % T)
    o.append("\t}, func(x interface{}) []interface{} {\n\t\tm, _ := x.(*eg.%s)" % T)
    o.append("\t\treturn []interface{}{%s}" % ", ".join("m.Get%s()" % camel(n) for _, _, n, _ in fs))
    o.append("\t}},")
o.append("}")
o.append("")
o.append("var plusReasons = []struct {\n\tv    int32\n\tname string\n\tc    eg.StorageRecordReason\n}{")
for n, v in outer[2]:
    o.append('\t{%s, "%s", eg.StorageRecord_%s},' % (v, n, n))
o.append("}")
open(os.path.join(V, "harness/egts/plusgen.go"), "w").write("\n".join(o) + "\n")
print(len(msgs)-1, "messages", len(outer[2]), "reasons")
