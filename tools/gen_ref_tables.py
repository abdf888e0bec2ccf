#!/usr/bin/env python3
"""Writes mc/ref_tables.hpp: the RFC 7541 tables taken from Go's vendored golang.org/x/net/http2/hpack
(an implementation independent of the code under test).  Run once; the result is committed."""
import re, subprocess, os
root = subprocess.run(["go", "env", "GOROOT"], capture_output=True, text=True).stdout.strip()
d = root + "/src/vendor/golang.org/x/net/http2/hpack/"
t = open(d + "tables.go").read()
codes = re.findall(r"0x[0-9a-f]+", t[t.index("huffmanCodes = "):t.index("huffmanCodeLen = ")])
lens = re.findall(r"\d+", t[t.index("huffmanCodeLen = "):].split("{", 1)[1].split("}")[0])
assert len(codes) == 256 and len(lens) == 256
st = open(d + "static_table.go").read()
ents = re.findall(r'\{Name: "([^"]*)", Value: "([^"]*)"', st[st.index("ents: "):])
assert len(ents) == 61, len(ents)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "ref_tables.hpp")
with open(out, "w") as f:
    f.write("// generated by tools/gen_ref_tables.py from Go's x/net/http2/hpack; do not edit\n#pragma once\n#include <cstdint>\nnamespace ref {\n")
    f.write("inline constexpr uint32_t HUFF_CODE[256] = {" + ",".join(codes) + "};\n")
    f.write("inline constexpr uint8_t HUFF_LEN[256] = {" + ",".join(lens) + "};\n")
    f.write("inline constexpr const char* STATIC[61][2] = {" + ",".join('{"%s","%s"}' % e for e in ents) + "};\n}\n")
