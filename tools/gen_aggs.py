"""writes harness/agg_gen.h: aggregates of 0..100 fields with lists of their fields, independent of maf"""
KINDS = ["int", "std::string", "double", "bool", "VI", "uint8_t", "Leaf", "int64_t"]
SOME = [*range(0, 8), 9, 12, 16, 23, 33, 64, 100]
out = ["// generated by tools/gen_aggs.py", "#pragma once"]
for n in range(0, 101):
    fs = [(KINDS[(i * i + i // 3 + n) % len(KINDS)], f"f{i}") for i in range(n)]
    out.append(f"struct S{n} {{")
    out += [f"  {t} {f}{{}};" for t, f in fs]
    out.append("};")
    out.append(f"inline Fields fieldsOf(const S{n} &s) {{")
    out.append("  Fields v;")
    out += [f"  v.push_back(field(s.{f}));" for t, f in fs]
    out.append("  return v;\n}")
    if n in SOME:
        out.append(f"CMP(S{n})")
out.append("#define EACH_S(X) " + " ".join(f"X({n})" for n in range(0, 101)))
out.append("#define SOME_S(X) " + " ".join(f"X({n})" for n in SOME))
open(__file__.rsplit("/", 2)[0] + "/harness/agg_gen.h", "w").write("\n".join(out) + "\n")
