#!/usr/bin/env python3
"""Writes ops_gen.h: one wrapper and one table row per public function and format."""
import sys
W = [32, 64, 128]
sfx = {32: "sd", 64: "dd", 128: "td"}
out, rows = [], []
T = {32: "T_D32", 64: "T_D64", 128: "T_D128"}
def row(name, w, at, rt, body, gen):
    fn = "w_%s_%d" % (name.replace("+", "p"), w)
    out.append("static void %s (V *r, const V *a) { (void) a; %s }" % (fn, body))
    rows.append('  { "%s", %d, { %s }, { %s }, %s, %s },' % (name, w, ", ".join(at + ["0"]), ", ".join(rt + ["0"]), fn, gen))
ints = {"si": ("I32", "i32", "int"), "di": ("I64", "i64", "long"), "ti": ("I128", "i128", "s128"),
        "usi": ("U32", "u32", "unsigned"), "udi": ("U64", "u64", "unsigned long"), "uti": ("U128", "u128_", "u128")}
for w in W:
    d, D, t = "d%d" % w, "_Decimal%d" % w, T[w]
    R = "r[0].%s = " % d
    for n, o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")):
        row(n, w, [t, t], [t], R + "a[0].%s %s a[1].%s;" % (d, o, d), "G_" + n.upper())
    row("neg", w, [t], [t], R + "-a[0].%s;" % d, "G_BITS")
    for n, o in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        row(n, w, [t, t], ["T_INT"], "r[0].in = a[0].%s %s a[1].%s;" % (d, o, d), "G_CMP")
    row("unord", w, [t, t], ["T_INT"], "r[0].in = __builtin_isunordered (a[0].%s, a[1].%s);" % (d, d), "G_CMP")
    for n in ("isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered"):
        row(n, w, [t, t], ["T_INT"], "r[0].in = %s%s (a[0].%s, a[1].%s) != 0;" % (n, d, d, d), "G_CMP")
    for v in W:
        if v != w:
            row("to%d" % v, w, [t], [T[v]], "r[0].d%d = (_Decimal%d) a[0].%s;" % (v, v, d), "G_CONV%d" % v)
    for k, (ty, f, c) in ints.items():
        row("fix" + k, w, [t], ["T_" + ty], "r[0].%s = (%s) a[0].%s;" % (f, c, d), "G_FIX")
        row("float" + k, w, ["T_" + ty], [t], R + "(%s) a[0].%s;" % (D, f), "G_FLOAT")
    for b, bt in ((32, "float"), (64, "double"), (80, "long double"), (128, "__float128")):
        row("fromf%d" % b, w, ["T_F%d" % b], [t], R + "(%s) a[0].f%d;" % (D, b), "G_FROMBIN")
        row("tof%d" % b, w, [t], ["T_F%d" % b], "r[0].f%d = (%s) a[0].%s;" % (b, bt, d), "G_TOBIN")
    for n in ("ceil", "floor", "trunc", "round", "roundeven", "rint", "nearbyint"):
        row(n, w, [t], [t], R + "%s%s (a[0].%s);" % (n, d, d), "G_RINT")
    for n in ("lrint", "llrint", "lround", "llround"):
        row(n, w, [t], ["T_I64"], "r[0].i64 = %s%s (a[0].%s);" % (n, d, d), "G_LRINT")
    for n in ("fpclassify", "isfinite", "isinf", "isnan", "issignaling", "isnormal", "finite"):
        p = "__" if n in ("isnormal",) and False else ""
        e = "%s%s%s (a[0].%s)" % (p, n, d, d)
        if n != "fpclassify": e = "(%s) != 0" % e
        row(n, w, [t], ["T_INT"], "r[0].in = %s;" % e, "G_BITS")
    row("signbit", w, [t], ["T_INT"], "r[0].in = __signbit%s (a[0].%s) != 0;" % (d, d), "G_BITS")
    row("m_fpclassify", w, [t], ["T_INT"], "r[0].in = fpclassify (a[0].%s);" % d, "G_BITS")
    for n in ("signbit", "isfinite", "isnormal", "isinf", "isnan", "issignaling"):
        row("m_" + n, w, [t], ["T_INT"], "r[0].in = (%s (a[0].%s)) != 0;" % (n, d), "G_BITS")
    row("fabs", w, [t], [t], R + "fabs%s (a[0].%s);" % (d, d), "G_BITS")
    row("copysign", w, [t, t], [t], R + "copysign%s (a[0].%s, a[1].%s);" % (d, d, d), "G_BITS2")
    row("nan", w, ["T_STR"], [t], R + "nan%s (a[0].s);" % d, "G_NAN")
    for n in ("fmax", "fmin", "fmaxmag", "fminmag"):
        row(n, w, [t, t], [t], R + "%s%s (a[0].%s, a[1].%s);" % (n, d, d, d), "G_CMP")
    row("fdim", w, [t, t], [t], R + "fdim%s (a[0].%s, a[1].%s);" % (d, d, d), "G_FDIM")
    row("nextafter", w, [t, t], [t], R + "nextafter%s (a[0].%s, a[1].%s);" % (d, d, d), "G_NEXT2")
    row("nexttoward", w, [t, "T_D128"], [t], R + "nexttoward%s (a[0].%s, a[1].d128);" % (d, d), "G_NEXTT")
    for n in ("nextup", "nextdown"):
        row(n, w, [t], [t], R + "%s%s (a[0].%s);" % (n, d, d), "G_NEXT1")
    row("quantize", w, [t, t], [t], R + "quantize%s (a[0].%s, a[1].%s);" % (d, d, d), "G_QUANT")
    row("samequantum", w, [t, t], ["T_INT"], "r[0].in = samequantum%s (a[0].%s, a[1].%s);" % (d, d, d), "G_BITS2")
    row("quantum", w, [t], [t], R + "quantum%s (a[0].%s);" % (d, d), "G_BITS")
    row("llquantexp", w, [t], ["T_I64"], "r[0].i64 = llquantexp%s (a[0].%s);" % (d, d), "G_BITS")
    row("frexp", w, [t], [t, "T_I32"], "int e = 12345; " + R + "frexp%s (a[0].%s, &e); r[1].i32 = e;" % (d, d), "G_BITS")
    row("modf", w, [t], [t, t], "%s i = 7; " % D + R + "modf%s (a[0].%s, &i); r[1].%s = i;" % (d, d, d), "G_RINT")
    row("ldexp", w, [t, "T_I32"], [t], R + "ldexp%s (a[0].%s, a[1].i32);" % (d, d), "G_SCALE")
    row("scalbn", w, [t, "T_I32"], [t], R + "scalbn%s (a[0].%s, a[1].i32);" % (d, d), "G_SCALE")
    row("scalbln", w, [t, "T_I64"], [t], R + "scalbln%s (a[0].%s, a[1].i64);" % (d, d), "G_SCALE")
    row("logb", w, [t], [t], R + "logb%s (a[0].%s);" % (d, d), "G_BITS")
    row("ilogb", w, [t], ["T_I32"], "r[0].i32 = ilogb%s (a[0].%s);" % (d, d), "G_BITS")
    row("llogb", w, [t], ["T_I64"], "r[0].i64 = llogb%s (a[0].%s);" % (d, d), "G_BITS")
    row("fmod", w, [t, t], [t], R + "fmod%s (a[0].%s, a[1].%s);" % (d, d, d), "G_REM")
    row("remainder", w, [t, t], [t], R + "remainder%s (a[0].%s, a[1].%s);" % (d, d, d), "G_REM")
    row("sqrt", w, [t], [t], R + "sqrt%s (a[0].%s);" % (d, d), "G_SQRT")
    row("fma", w, [t, t, t], [t], R + "fma%s (a[0].%s, a[1].%s, a[2].%s);" % (d, d, d, d), "G_FMA")
    for n in ("exp exp2 expm1 log log2 log10 log1p cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh erf erfc lgamma tgamma").split():
        row(n, w, [t], [t], R + "%s%s (a[0].%s);" % (n, d, d), "G_MATH_" + n.upper())
    for n in ("pow", "atan2", "hypot"):
        row(n, w, [t, t], [t], R + "%s%s (a[0].%s, a[1].%s);" % (n, d, d, d), "G_MATH_" + n.upper())
    row("strtod", w, ["T_STR"], [t, "T_INT"], "char *e = 0; " + R + "strto%s (a[0].s, &e); r[1].in = e ? (int) (e - a[0].s) : -1;" % d, "G_STR")
    row("wcstod", w, ["T_STR"], [t, "T_INT"], "wchar_t b[20000], *e = 0; for (int i = 0; i <= a[0].n; i++) b[i] = (unsigned char) a[0].s[i]; " + R + "wcsto%s (b, &e); r[1].in = e ? (int) (e - b) : -1;" % d, "G_STR")
    row("decoded", w, [t], ["T_STR"], "static __thread char b[256]; memset (b, 0, sizeof b); decode%s (a[0].%s, b); r[0].s = b; r[0].n = strlen (b);" % ("d%d" % w, d), "G_BITS")
    # fmt: flags mask, width, precision packed in one T_I32 each
    row("fmt", w, [t, "T_STR"], ["T_STR", "T_INT"], "do_fmt (r, a, %d);" % w, "G_FMT")
    row("strfrom", w, [t, "T_STR", "T_I32"], ["T_STR", "T_INT", "T_INT"], "do_strfrom (r, a, %d);" % w, "G_STRFROM")
    # the same in the locales of locales.sh: a number that names the locale comes last
    row("lstrtod", w, ["T_STR", "T_I32"], [t, "T_INT"], "char *e = 0; IN_LOCALE (a[1].i32, " + R + "strto%s (a[0].s, &e)); r[1].in = e ? (int) (e - a[0].s) : -1;" % d, "G_LSTR")
    row("lwcstod", w, ["T_STR", "T_I32"], [t, "T_INT"], "wchar_t *b = widen (a, a[1].i32), *e = 0; IN_LOCALE (a[1].i32, " + R + "wcsto%s (b, &e)); r[1].in = e ? (int) (e - b) : -1;" % d, "G_LSTR")
    row("lfmt", w, [t, "T_STR", "T_I32"], ["T_STR", "T_INT"], "IN_LOCALE (a[2].i32, do_fmt (r, a, %d));" % w, "G_LFMT")
    row("lstrfrom", w, [t, "T_STR", "T_I32", "T_I32"], ["T_STR", "T_INT", "T_INT"], "IN_LOCALE (a[3].i32, do_strfrom (r, a, %d));" % w, "G_LSTRFROM")
    row("oput", w, [t, "T_I32", "T_I32"], ["T_STR"], "do_oput (r, a, %d);" % w, "G_OPUT")
    row("iget", w, ["T_STR"], [t, "T_INT", "T_INT"], "do_iget (r, a, %d);" % w, "G_STR")
    row("iget2", w, ["T_STR"], [t, t, "T_INT", "T_INT"], "do_iget2 (r, a, %d);" % w, "G_STR2")
    row("rtrip", w, [t, "T_I32"], [t], "do_rtrip (r, a, %d);" % w, "G_RTRIP")
# the classification macros take binary arguments too; constants
for b in (32, 64, 80):
    row("bclass%d" % b, 64, ["T_F%d" % b], ["T_INT", "T_INT"], "r[0].in = fpclassify (a[0].f%d); r[1].in = 0; %s" % (b, " ".join(
        "if (%s (a[0].f%d)) r[1].in |= %d;" % (n, b, 1 << i) for i, n in enumerate("isnan isinf isfinite isnormal signbit issignaling".split()))), "G_FROMBIN")
K = "M_Edl M_LOG2Edl M_LOG10Edl M_LN2dl M_LN10dl M_PIdl M_PI_2dl M_PI_4dl M_1_PIdl M_2_PIdl M_2_SQRTPIdl M_SQRT2dl M_SQRT1_2dl".split()
row("mconst", 128, ["T_I32"], ["T_D128", "T_D64", "T_D32"], "switch (a[0].i32) { %s default: r[0].d128 = 0; r[1].d64 = 0; r[2].d32 = 0; }" %
    " ".join("case %d: r[0].d128 = %s; r[1].d64 = %s; r[2].d32 = %s; break;" % (i, k, k, k) for i, k in enumerate(K)), "G_MCONST")
row("mhuge", 128, [], ["T_D128", "T_D64", "T_D32", "T_D32"], "r[0].d128 = HUGE_VAL_D128; r[1].d64 = HUGE_VAL_D64; r[2].d32 = HUGE_VAL_D32; r[3].d32 = a ? DEC_INFINITY : 0;", "G_NONE")
row("mnan", 32, [], ["T_D32"], "r[0].d32 = DEC_NAN;", "G_NONE")
row("setround", 0, ["T_I32"], ["T_INT"], "r[0].in = fe_dec_setround (a[0].i32);", "G_SETRND")
row("getround", 0, [], ["T_INT"], "r[0].in = fe_dec_getround ();", "G_NONE")
with open(sys.argv[1], "w") as f:
    f.write("/* generated by mkops.py */\n" + "\n".join(out) + "\nconst Op ops[] = {\n" + "\n".join(rows) + "\n};\nconst int nops = sizeof ops / sizeof *ops;\n")
gens = sorted({r.split(", ")[-1].split(" ")[0] for r in rows})
with open(sys.argv[2], "w") as f:
    f.write("enum { %s };\n" % ", ".join(["G_NONE"] + [g for g in gens if g != "G_NONE"]))
