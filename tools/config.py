"""What each check drives: operations, how many generated calls and explored inputs, aspects judged."""
W = (32, 64, 128)
def o(names, ws=W): return ["%s:%d" % (n, w) for n in names.split() for w in ws]
def o2(s): return s.split()
ARITH = o("add sub mul div")
CONV = o2("to64:32 to128:32 to32:64 to128:64 to32:128 to64:128")
FIX = o("fixsi fixdi fixti fixusi fixudi fixuti")
FLOAT = o("floatsi floatdi floatti floatusi floatudi floatuti")
CMP = o("eq ne lt le gt ge unord isgreater isgreaterequal isless islessequal islessgreater isunordered")
RINT = o("ceil floor trunc round roundeven rint nearbyint")
LRINT = o("lrint llrint lround llround")
SIGN = o("neg fabs copysign")
CLASS = o("fpclassify isfinite isinf isnan issignaling isnormal finite signbit m_fpclassify m_signbit m_isfinite m_isnormal m_isinf m_isnan m_issignaling")
BCLASS = ["bclass32:64", "bclass64:64", "bclass80:64"]
CONST = ["mconst:128", "mhuge:128", "mnan:32"]
QUANT = o("quantize samequantum quantum llquantexp")
EXPO = o("frexp modf ldexp scalbn scalbln logb ilogb llogb")
MINMAX = o("fmax fmin fmaxmag fminmag fdim")
NEXT = o("nextafter nexttoward nextup nextdown")
REM = o("fmod remainder")
ROOT = o("sqrt fma")
TRANS = o("exp exp2 expm1 log log2 log10 log1p cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh erf erfc lgamma tgamma pow atan2 hypot")
STR = o("strtod wcstod")
FMT = o("fmt strfrom")
LSTR = o("lstrtod lwcstod")
LFMT = o("lfmt lstrfrom")
STREAM = o("oput iget iget2")
TRIP = o("rtrip")
DECODED = o("decoded")
FROMBIN = o("fromf32 fromf64 fromf80 fromf128")
TOBIN = o("tof32 tof64 tof80 tof128")
RND = ["setround:0", "getround:0"]
V = {"value", "crash"}
# ops: [(list of ops, generated calls per op, explored inputs per op)]
ALLASP = {"value", "quantum", "must", "spur", "sticky", "errno", "errno0", "round", "brm", "canon", "crash", "env", "rvalue", "alone"}
EXACTOPS = ARITH + CONV + FIX + FLOAT
CHECKS = {
  "C01": dict(ops=[(ARITH, 12000, 100000)], aspects=V, cap=250000),
  "C02": dict(ops=[(ARITH, 6000, 60000), (CONV + FLOAT + RINT + SIGN, 1000, 15000)], aspects={"quantum", "crash"}, cap=250000),
  "C03": dict(ops=[(ARITH, 6000, 60000), (CONV, 2000, 30000), (FIX + FLOAT + CMP + RINT, 600, 10000), (SIGN + CLASS, 300, 0)], aspects={"must", "spur", "sticky", "crash"}, cap=250000),
  "C04": dict(ops=[(CMP, 3500, 30000)], aspects={"value", "must", "spur", "crash"}, cap=200000),
  "C05": dict(ops=[(CONV, 12000, 100000)], aspects={"value", "quantum", "must", "crash"}, cap=150000),
  "C06": dict(ops=[(FIX + FLOAT, 3000, 30000)], aspects={"value", "must", "spur", "crash"}, cap=180000),
  "C07": dict(ops=[(RINT, 4000, 30000)], aspects={"value", "quantum", "must", "spur", "crash"}, cap=150000),
  "C08": dict(ops=[(LRINT, 6000, 60000)], aspects={"value", "must", "crash"}, cap=150000),
  "C09": dict(ops=[(RND, 12000, 0), (ARITH + CONV + FIX + FLOAT + CMP + RINT + LRINT + SIGN + CLASS + QUANT + EXPO + MINMAX + NEXT + REM + ROOT, 800, 6000), (TRANS + FMT + STR + STREAM + FROMBIN + TOBIN, 300, 1500)],
              aspects={"rvalue", "round", "brm", "env", "crash"}, cap=500000, strip=0.8),
  "C10": dict(ops=[(QUANT, 6000, 60000)], aspects={"value", "quantum", "must", "crash"}, cap=150000),
  "C11": dict(ops=[(EXPO, 4000, 40000)], aspects={"value", "must", "crash"}, cap=150000),
  "C12": dict(ops=[(MINMAX, 6000, 60000)], aspects={"value", "quantum", "crash"}, cap=150000),
  "C13": dict(ops=[(NEXT, 6000, 60000)], aspects={"value", "crash"}, cap=150000),
  "C14": dict(ops=[(REM, 12000, 60000)], aspects={"value", "crash"}, cap=150000),
  "C15": dict(ops=[(ROOT, 15000, 150000)], aspects={"value", "quantum", "must", "crash"}, cap=150000),
  "C16": dict(ops=[(CLASS + SIGN, 2500, 15000), (BCLASS, 2000, 0), (CONST[1:], 20, 0)], aspects={"value", "quantum", "must", "spur", "crash"}, cap=200000),
  "C17": dict(ops=[(STR, 12000, 60000), (LSTR, 1500, 3000)], aspects={"value", "quantum", "must", "spur", "errno", "crash"}, cap=150000),
  "C18": dict(ops=[(FMT, 10000, 60000), (LFMT, 1500, 0), (DECODED, 1000, 5000)], aspects=V, cap=150000),
  "C19": dict(ops=[(TRIP, 10000, 60000), (STREAM, 5000, 30000)], aspects={"value", "quantum", "crash"}, cap=150000),
  "C20": dict(ops=[(ARITH + CONV + FLOAT + RINT + SIGN + MINMAX + NEXT + REM + ROOT + EXPO + QUANT + STR, 1000, 15000), (TRANS, 300, 2000),
                   (FIX + CMP + CLASS + LRINT, 800, 6000), (FMT + DECODED + STREAM + TRIP + FROMBIN + TOBIN, 1000, 5000)], aspects={"canon", "reading", "crash"}, cap=250000, nc=True),
  "C21": dict(ops=[(RND, 3000, 0), (ARITH + CONV + FIX + FLOAT + CMP + RINT + LRINT + SIGN + CLASS + QUANT + EXPO + MINMAX + NEXT + REM + ROOT, 120, 0), (TRANS + FMT + STR + STREAM + TRIP + DECODED + FROMBIN + TOBIN, 150, 0)],
              aspects={"alone", "env", "rvalue", "round", "brm", "sticky", "crash"}, extra=["threads"],
              sessions=[("coop", 3, 1500, 16), ("par", 8, 1500, 6)]),
  "C22": dict(ops=[(TRANS, 700, 3000), (STR + LRINT + EXPO + NEXT + REM + ROOT + MINMAX, 700, 4000), (ARITH + CONV + RINT + SIGN + QUANT + FMT + STREAM + CMP + FROMBIN + TOBIN, 200, 0)], aspects={"errno", "errno0", "crash"}, cap=220000),
  "C23": dict(ops=[(TRANS, 1000, 5000)], aspects={"value", "crash"}, cap=150000),
  "C25": dict(ops=[(FROMBIN + TOBIN, 4000, 20000)], aspects={"value", "quantum", "must", "crash"}, cap=150000),
  "C24": dict(ops=[(TRANS, 1500, 2000), (["log:128"], 6000, 0), (CONST[:1], 150, 0)], aspects={"ulp", "crash"}, cap=150000),
}
NA = {}

# Models of the specification checked along with a property: (quick, thorough), each a list of (module, constants).
def MD(op, p=2, lo=2, hi=2, some=True): return ("MCDec", 'P = %d QLow = %d QMax = %d Op = "%s" Some = %s' % (p, lo, hi, op, "TRUE" if some else "FALSE"))
def MM(only, width=32, steps=1, threads=1, wide=False): return ("MCMachine", 'Width = %d Steps = %d Threads = %d Wide = %s Only = {%s}' % (width, steps, threads, "TRUE" if wide else "FALSE", ", ".join('"%s"' % x for x in only.split())))
def MT(part, len0=5, p=1, lo=2, hi=1): return ("MCText", 'Len0 = %d P = %d QLow = %d QMax = %d Part = "%s"' % (len0, p, lo, hi, part))
def MR(part, w): return ("MCReals", 'W = %d Part = "%s"' % (w, part))
def MB(part, p=2, lo=3, hi=2, bp=3, elow=5, emax=3): return ("MCBinary", 'P = %d QLow = %d QMax = %d BP = %d ELow = %d EMax = %d Part = "%s"' % (p, lo, hi, bp, elow, emax, part))
BIG = ("MCBigNat", "")
ARI = "add sub mul div"
MODELS = {
  "C01": ([BIG, MD("add"), MD("mul"), MD("div"), MM("add div")], [BIG, MD("add", some=False, lo=1, hi=1), MD("mul", some=False, lo=1, hi=1), MD("div", some=False, lo=1, hi=1), MD("add", lo=5, hi=4), MM(ARI, 64, wide=True)]),
  "C02": ([MD("add"), MD("mul"), MD("div"), MM("sub mul")], [MD("add", lo=5, hi=4), MD("mul", lo=5, hi=4), MD("div", lo=5, hi=4), MM(ARI, 128, wide=True)]),
  "C03": ([MD("mul"), MD("convert"), MM("add div to32 fixsi lt", steps=1)], [MD("div", lo=5, hi=4), MM("add div fixsi lt rint to32", wide=True), MM("add fixsi", steps=2)]),
  "C04": ([MD("cmp"), MM("eq lt isless unord")], [MD("cmp", some=False), MM("eq lt isless unord", 64, wide=True)]),
  "C05": ([MD("convert", some=False), MM("to32 to64 to128")], [MD("convert", p=3, lo=4, hi=4, some=False), MM("to32 to64 to128", 128, wide=True)]),
  "C06": ([MD("int", some=False), MM("fixsi fixudi")], [MD("int", p=3, lo=4, hi=4, some=False), MM("fixsi fixudi", 64, wide=True)]),
  "C07": ([MD("int", some=False), MM("ceil rint nearbyint")], [MD("int", p=3, lo=4, hi=4, some=False), MM("ceil rint nearbyint", 64, wide=True)]),
  "C08": ([MD("int", some=False), MM("lrint lround")], [MD("int", p=3, lo=4, hi=4, some=False), MM("lrint lround", 64, wide=True)]),
  "C09": ([MM("rint add", steps=2)], [MM("", steps=1), MM("rint add lrint", steps=3)]),
  "C10": ([MD("quantize"), MM("quantize samequantum quantum llquantexp")], [MD("quantize", some=False), MD("quantize", lo=5, hi=4), MM("quantize samequantum quantum llquantexp", 64, wide=True)]),
  "C11": ([MM("frexp modf logb ilogb llogb")], [MM("frexp modf logb ilogb llogb", 64, wide=True), MM("frexp modf logb ilogb llogb", 128, wide=True)]),
  "C12": ([MD("cmp"), MM("fmax fminmag fdim")], [MD("cmp", some=False), MM("fmax fminmag fdim", 64, wide=True)]),
  "C13": ([MD("next", some=False), MM("nextup nextafter")], [MD("next", p=3, lo=4, hi=4, some=False), MM("nextup nextafter", 64, wide=True)]),
  "C14": ([MD("rem"), MM("fmod remainder")], [MD("rem", some=False, lo=1, hi=1), MD("rem", lo=5, hi=4), MM("fmod remainder", 64, wide=True)]),
  "C15": ([MD("sqrt", some=False), MD("fma", lo=0, hi=1), MM("sqrt")], [MD("sqrt", p=4, lo=4, hi=4, some=False), MD("fma", lo=1, hi=2), MM("sqrt", 64, wide=True)]),
  "C16": ([MM("fpclassify signbit neg fabs copysign")], [MM("fpclassify signbit neg fabs copysign", 64, wide=True)]),
  "C17": ([MT("scan"), MT("words"), MM("strtod")], [MT("scan", 7), MT("words", 7), MM("strtod", 64, wide=True)]),
  "C18": ([MT("format"), MT("group")], [MT("group", 9), MT("format", p=2, lo=4, hi=3)]),
  "C19": ([MT("format"), MM("iget")], [MT("format", p=2, lo=4, hi=3), MM("iget", 64, wide=True)]),
  "C20": ([BIG], [BIG]),
  "C21": ([MM("", steps=3, threads=2)], [MM("", steps=4, threads=2), MM("", steps=3, threads=3)]),
  "C22": ([MM("exp log log1p atanh tgamma strtod lrint")], [MM("exp log log1p cbrt sin asin atanh tgamma pow atan2 hypot strtod lrint", 64, wide=True)]),
  "C23": ([MR("precise", 19), MR("ident", 19)], [MR(p, w) for p in ("precise", "ident", "gamma") for w in (19, 28, 46)]),
  "C25": ([MB("to"), MB("from"), MB("from", p=1, hi=0), MM("tof32 fromf64")], [MB("to", p=2, lo=4, hi=3, bp=4, elow=8, emax=5), MB("from", p=2, lo=4, hi=3, bp=4, elow=9, emax=7), MB("from", p=1, hi=1, bp=5, elow=8, emax=3), MM("tof32 tof64 fromf64 fromf128", 64, wide=True)]),
  "C24": ([MR("precise", 28), MR("ident", 28)], [MR(p, w) for p in ("precise", "ident", "gamma") for w in (19, 28, 46)]),
}
for _p in MODELS: CHECKS[_p].setdefault("extra", []).append("models")
