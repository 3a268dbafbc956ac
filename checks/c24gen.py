"""Generates programs: random state definitions with the layout they must have."""
import os, random
TYPES = ["CoreStateWithPropagation", "CoreStateWithoutPropagation", "Auxiliary", "AuxiliaryNonTemporalDrifting"]


def definition(r, k):
    n = r.choice([1, 2, 3, 5, 8, 11, 14, 15, 15]) if r.random() < .6 else r.randint(1, 15)
    ncore = r.randint(1, n) if r.random() < .9 else n
    same = r.random() < .25  # many variables of the same type: only the name tells them apart
    out, idx, eidx = [], 0, 0
    for i in range(n):
        t = r.choice([0, 0, 1]) if i < ncore else r.choice([2, 2, 3])
        quat = False if same else r.random() < .3
        sz = 4 if quat else (3 if same else r.choice([1, 1, 2, 3, 3, 3, 4, 5, 6, 7, 10]))
        esz = 3 if quat else sz
        mult = 0 if quat or r.random() > .12 else 1
        out.append((quat, sz, esz, t, mult, idx, eidx))
        idx += sz
        eidx += esz
    S = lambda f: sum(f(v) for v in out)
    ty = lambda v: "Eigen::Quaterniond" if v[0] else "Eigen::Matrix<double, %d, 1>" % v[1]
    var = lambda i, v: "msf_core::StateVar_T<%s, s%d, msf_core::%s%s>" % (ty(v), i, TYPES[v[3]], ", msf_core::correctionMultiplicative" if v[4] else (", msf_core::none" if r.random() < .2 else ""))
    s = "namespace d%d {\nenum StateDefinition { %s };\n" % (k, ", ".join("s%d" % i for i in range(n)))
    s += "typedef boost::fusion::vector<%s> Seq;\n" % ", ".join(var(i, v) for i, v in enumerate(out))
    s += "typedef msf_core::GenericState_T<Seq, StateDefinition> St;\n"
    s += "static const layout::Var E[] = {%s};\n" % ", ".join("{%d, %d, %d, %d, %d, %d, %d}" % v for v in out)
    s += "static const layout::Sum S = {%d, %d, %d, %d, %d, %d, %d, %d, %d, %d};\n" % (
        n, idx, eidx, S(lambda v: v[1] * (v[3] < 2)), S(lambda v: v[2] * (v[3] < 2)), S(lambda v: v[1] * (v[3] == 0)), S(lambda v: v[2] * (v[3] == 0)),
        sum(v[3] >= 2 for v in out), any(v[3] == 3 for v in out), any(v[3] == 3 and v[0] for v in out))
    desc = " ".join("%s%s%s" % ("q" if v[0] else "v%d" % v[1], "pkan"[v[3]], "*" if v[4] else "") for v in out)
    s += "static void run(pbt::Ctx& c) { layout::Run<St>{c, E, S, \"[%s]\"}.all(); }\n}\n" % desc
    return s, desc, n


def generate(b, work, seed, tier):
    files, per = (4, 7) if tier == "quick" else (24, 8)
    units = []
    for f in range(files):
        r = random.Random(seed * 1000003 + f)
        body, calls, descs = "", "", []
        for k in range(per):
            s, d, n = definition(r, k)
            body += s
            descs.append(d)
            calls += "    case %d: c.note() << \"%s\"; c.nontrivial(%d > 2); c.label(\"vars<=%d\"); d%d::run(c); break;\n" % (k, d, n, (n + 4) // 5 * 5, k)
        path = os.path.join(work, "layout_%d.cc" % f)
        open(path, "w").write("#include \"c24.h\"\n%sPBT_TARGET(layout_%d, \"a generated state definition with random contents; non-trivial: more than two variables\") {\n  switch (c.u64(%d)) {\n%s  }\n}\n" % (body, f, per, calls))
        units.append({"src": "c24.cc", "gen_src": path, "util": False, "repo": ["tools", "timing"], "targets": [("layout_%d" % f, 1500, 6000)], "modes_thorough": ["rel", "san"] if f < 4 else ["rel"]})
    return units
