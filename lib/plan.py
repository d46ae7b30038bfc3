"""Which entries decide which property, with which bounds."""
import os
class G:
    def __init__(s, entry, params=(), shards=0, floor=True, cost=0, note="", time=0, crate="harness"):
        s.entry, s.params, s.shards, s.floor, s.cost, s.note, s.time, s.crate = entry, list(params), shards, floor, cost, note, time, crate
    def label(s): return "%s(%s)" % (s.entry, ",".join(map(str, s.params)))

ALLPRE = range(1, 38)
def data(entry, n, extra=(), **k):
    "n symbolic bytes from the start of the input; from 5 on, split by the first byte"
    sp = n >= 4
    return [G(entry, [n, 0, int(sp), *extra], shards=32 if sp else 0, cost=10 ** n * (1 if sp else 30), note="every input of %d bytes" % n, **k)]
def pre(entry, n, which=ALLPRE, extra=(), **k):
    return [G(entry, [n, p, 0, *extra], cost=10 ** n, note="fixed prefix %d, then every %d bytes" % (p, n), **k) for p in which]
def upto(entry, n, extra=(), **k):
    r = []
    for i in range(n + 1): r += data(entry, i, extra, **k)
    return r
import re
SHAPES = re.findall(r'"([^"]*)"', re.search(r"pub const SHAPES: &\[&str\] = &\[(.*?)\n\];", open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "k.rs")).read(), re.S).group(1))
NSH = 44 # those from here on are long
ALLSH = range(NSH); LONG = range(NSH, 67); HUGE = range(67, 78); TAGGED = range(78, 85); LATE = range(85, 92); HSTR = range(67, 71) # strings; the others are wide or deep
def shapes(entry, which=ALLSH, n=0, extra=(), **k):
    "long inputs with symbolic leaves, then n symbolic bytes"
    return [G(entry, [n, 100 + i, 0, *extra], cost=10 ** 4, note="%s, then %d bytes (_i: any byte below 24, _a: below 128, _b: any byte)" % (SHAPES[i], n), **k) for i in which]
def mutate(entry, n=1, which=ALLSH, extra=(), shards=8, **k):
    "long fixed inputs, any n consecutive bytes of which are symbolic"
    return [G(entry, [n, 200 + i, 0, *extra], shards=shards, cost=10 ** 4, note="%s with fixed leaves, any %d consecutive bytes of it symbolic" % (SHAPES[i], n), **k) for i in which]
def cuts(entry, which=ALLSH, extra=(), **k):
    return [G(entry, [0, 300 + i, 0, *extra], shards=4, cost=10 ** 4, note="%s cut short anywhere" % SHAPES[i], **k) for i in which]
def longcuts(entry, which=LONG, extra=(), **k): return [G(entry, [0, 400 + i, 0, *extra], shards=1, cost=10 ** 4, note="%s cut short by 1 to 12 bytes" % SHAPES[i], **k) for i in which]
def long(entry, which=LONG, **k): return shapes(entry, which, **k)
def huge(entry, t, which, **k): return shapes(entry, HUGE if t != "quick" else which, **k)
def wide(entry, ns, **k): return [G(entry, [n], shards=4, cost=1000, note="a header with an argument of 1, 2, 4 or 8 bytes, then every %d bytes" % n, **k) for n in ns]

def deep(entry, t, extra=(), which=None, two=None, shards=4, **k):
    which = [i for i in ALLSH if i not in (6, 28)] if which is None else which; two = q(t, (4, 5, 12, 13, 14, 23, 24, 25, 26, 27, 34, 36), which) if two is None else two
    return shapes(entry, which if which is two else ALLSH, 0, extra, **k) + mutate(entry, 1, [i for i in which if i not in two], extra, 1, **k) + mutate(entry, 2, two, extra, shards, **k) + (mutate(entry, 3, [i for i in two if i not in (8, 29)], extra, 16, **k) if t != "quick" else [])
def q(tier, a, b): return a if tier == "quick" else b
PLAN = {}
def prop(f): PLAN[f.__name__] = f; return f
def groups(p, tier): return PLAN[p](tier)

@prop
def C01(t): return upto("h_c01_data", q(t, 5, 6)) + pre("h_c01_data", q(t, 3, 5)) + wide("h_c01_wide", [0, 2, 3]) + [G("h_c01_typed", [q(t, 4, 5), 0, 0], shards=15, cost=10 ** 5)] + wide("h_c01_typedwide", [2]) + deep("h_c01_data", t) + long("h_c01_data") + huge("h_c01_data", t, (*HSTR, 71, 72, 73, 75)) + shapes("h_c01_data", LATE)
@prop
def C02(t): return upto("h_c02_data", q(t, 5, 6)) + pre("h_c02_data", q(t, 3, 5)) + wide("h_c02_wide", [0, 2, 3]) + [G("h_c02_typed", [n, 0, 0], shards=14, cost=10 ** 5) for n in (0, 1, 2, 3, q(t, 4, 5))] + data("h_c02_slice", q(t, 3, 5)) + data("h_c02_slice", 4) + deep("h_c02_data", t) + shapes("h_c02_typed") + shapes("h_c02_slice") + mutate("h_c02_slice", 1, (13, 14, 27), (), 1) + long("h_c02_data") + long("h_c02_slice") + long("h_c02_typed") + huge("h_c02_data", t, HUGE) + huge("h_c02_slice", t, HUGE) + huge("h_c02_typed", t, HUGE) + shapes("h_c02_data", (*LATE, 92))
@prop
def C03(t): return upto("h_c03", q(t, 5, 6), [2]) + data("h_c03", 4, [5]) + pre("h_c03", q(t, 3, 5), extra=[2]) + wide("h_c03_wide", [0, 2, 3]) + deep("h_c03", t, [4]) + long("h_c03", extra=[4]) + huge("h_c03", t, HUGE, extra=(4,)) + shapes("h_c03", (*LATE, 92), 0, [4])
@prop
def C04(t): return [G("h_c04_calls", [n, 0, 0, 1], shards=40, cost=10 ** n) for n in range(q(t, 5, 6))] + [G("h_c04_calls", [n, 0, 0, 2], shards=40, cost=10 ** n) for n in (2, 3)[:q(t, 1, 2)]] + [G("h_c04_calls", [q(t, 2, 3), p, 0, 1], shards=8, cost=10 ** 4) for p in ALLPRE] + [G("h_c04_wide", [n], shards=40, cost=10 ** 4) for n in (1, 2)] + upto("h_c04_validate", q(t, 5, 6), [3]) + wide("h_c04_validatewide", [2]) + [G("h_c04_whole", [n, 0, 0], shards=10, cost=10 ** 4) for n in range(q(t, 4, 5))] + [G("h_c04_calls", [0, 100 + i, 0, 1], shards=4, cost=10 ** 4, note=SHAPES[i]) for i in ALLSH] + mutate("h_c04_calls", 1, q(t, (0, 4, 5, 12, 13, 14, 27, 35, 38, 41), ALLSH), [1], 8) + deep("h_c04_validate", t, [3], None, q(t, (13, 14, 27), None)) + long("h_c04_validate", extra=[3]) + [G("h_c04_calls", [0, 100 + i, 0, 1], shards=8, cost=10 ** 4, note=SHAPES[i]) for i in (44, 45, 50, 52, 57, 60, 63, 66)] + huge("h_c04_validate", t, HUGE, extra=(3,)) + huge("h_c04_calls", t, HSTR, extra=(1,))
@prop
def C08(t): return [G("h_c08", [n, 0, 0], shards=15, cost=10 ** n) for n in range(q(t, 4, 5))] + [G("h_c08_later", [q(t, 3, 4), p, 0], shards=15, cost=10 ** 4) for p in (38,)] + wide("h_c08_wide", [1])
@prop
def C09(t): return [G("h_c09", [n, 0, 0, q(t, 3, 4)], shards=3, cost=10 ** n) for n in range(q(t, 4, 5))] + upto("h_c09_values", q(t, 4, 5)) + wide("h_c09_wide", [0, 2]) + shapes("h_c09", ALLSH, 1, [3]) + mutate("h_c09", 1, (21, 22, 23, 13, 14), [4], 3) + deep("h_c09_values", t, (), None, q(t, (22,), None)) + shapes("h_c09_values", (21, 22), 2) + long("h_c09_values") + shapes("h_c09_values", range(67, 77))
@prop
def C15(t): return upto("h_c15", q(t, 5, 6)) + pre("h_c15", q(t, 3, 5)) + wide("h_c15_wide", [0, 1, 2, 3]) + [G("h_c15_typed", [n, 0, 0], shards=17, cost=10 ** n) for n in range(q(t, 4, 5))] + deep("h_c15", t) + cuts("h_c15") + cuts("h_c15_typed", q(t, (4, 5, 12, 13, 14, 27, 34), ALLSH)) + long("h_c15") + longcuts("h_c15") + huge("h_c15", t, HUGE) + longcuts("h_c15", HSTR) + shapes("h_c15", LATE)

@prop
def C05(t): return [G("h_c05_value", shards=15), G("h_c05_native", shards=5)] + [G("h_c05_string", [i], shards=9, cost=10 if i < 9 else 10 ** 4) for i in range(11)] + [G("h_c05_arr", shards=6)] + [G("h_c05_utf8", [i]) for i in range(q(t, 5, 7))] + [G("h_c05_chunks", shards=2), G("h_c05_array", shards=8), G("h_c05_map", shards=8)] + [G("h_c05_header", shards=2)]
@prop
def C06(t): return [G("h_c06_write", shards=16)] + [G("h_c06_strlen", [i], shards=4) for i in range(11)] + [G("h_c06_value", shards=5), G("h_c06_read", shards=6)] + wide("h_c06_len", [0, 1, q(t, 2, 3)])
@prop
def C07(t): return [G("h_c07_int", [n], shards=5) for n in range(11)] + [G("h_c07_string", [n, 0, 0], shards=8, cost=10 ** n) for n in range(q(t, 5, 6))] + [G("h_c07_string", [q(t, 3, 5), p, 0], shards=8, cost=10 ** 4) for p in (7, 8, 33, 34, 41, 42)] + shapes("h_c07_string", (4, 5, 7, 8, 24, 25, 57, 58, 59, 62, 63, 64, *HSTR)) + mutate("h_c07_string", q(t, 1, 2), (4, 5, 7, 8, 24, 25, 38), (), 8)
@prop
def C10(t): return [G("h_c10_convert", shards=3), G("h_c10_bits")]
@prop
def C11(t): return [G("h_c11_read"), G("h_c11_make", shards=2)]

@prop
def C12(t): return upto("h_c12", q(t, 5, 6)) + pre("h_c12", q(t, 3, 5), [*ALLPRE, 62]) + wide("h_c12_wide", [1, 2]) + deep("h_c12", t, (), (0, 1, 2, 3, *range(9, 24), 27, 29, 30, 31, 32, 33, 34, 35, 36, 37)) + long("h_c12") + huge("h_c12", t, HUGE) + shapes("h_c12", (87, 88, 89, 92))
@prop
def C13(t): return upto("h_c13", q(t, 6, 7)) + pre("h_c13", q(t, 5, 6), (7, 8, 33, 34)) + wide("h_c13_wide", [1, 2]) + [G("h_c13_utf8", [n], cost=10 ** n) for n in range(q(t, 8, 10))] + deep("h_c13", t, (), (4, 5, 7, 8, 24, 25, 26)) + long("h_c13", (57, 58, 59, 62, 63, 64)) + huge("h_c13", t, HUGE) + shapes("h_c13", (85, 86))
@prop
def C14(t): return [G("h_c14", [k], shards=11, cost=10 ** k) for k in range(1, q(t, 6, 8))] + [G("h_c14_deep", [n, f], shards=6 + (not f), cost=n * 1000, note=("one structure of %d items" if f else "%d nested structures") % n + ", then any two events with counts below 3, then what completes the items") for n, f in ((130, 0), (300, 0), (1030, 0), (300, 1), (4100, 1), *q(t, (), ((70000, 1),)))]
@prop
def C16(t): return [G("h_c16_tag", [n, w], shards=4, cost=10 ** n) for n in range(q(t, 5, 6)) for w in (0, 1, 2, 4, 8)] + [G("h_c16_other", [q(t, 3, 5), p, 0], shards=4, cost=10 ** 3) for p in (0, 21, 51, 52, 53, 54, 55, 56)] + [G("h_c16_embed", [n]) for n in (0, 1, 3, 23, 24)] + [G("h_c16_rational", [n, p, 0], cost=10 ** n) for p in range(43, 51) for n in range(q(t, 4, 6))] + data("h_c16_rational", q(t, 4, 5)) + [g for i in (38, 39, 40, 41, 42, 43, 35) for e in ("h_c16_other", "h_c16_rational") for g in shapes(e, [i]) + mutate(e, 1, [i], (), 1)] + mutate("h_c16_rational", q(t, 2, 3), (35, 41, 43)) + mutate("h_c16_other", q(t, 2, 3), (38, 42)) + shapes("h_c16_other", TAGGED) + shapes("h_c16_rational", (82, 84)) + q(t, [], mutate("h_c16_other", 1, TAGGED) + mutate("h_c16_rational", 1, (82, 84)))
@prop
def C17(t): return [G("h_c17", [n, 0, 0], shards=10, cost=10 ** n) for n in range(q(t, 5, 6))] + [G("h_c17", [q(t, 3, 4), p, 0], shards=10, cost=10 ** 3) for p in (1, 2, 4, 6, 52, 7, 8)] + [G("h_c17_from", shards=5)] + shapes("h_c17", ALLSH) + shapes("h_c17", (0, 4, 5, 8, 13, 14), 1) + mutate("h_c17", 1, (0, 4, 5, 13, 14, 23, 27, 30, 38), (), 4) + long("h_c17") + huge("h_c17", t, HSTR) + shapes("h_c17", TAGGED)
@prop
def C18(t): return [G("h_c18", [n, 0, 0], shards=9, cost=10 ** n) for n in range(q(t, 5, 6))] + [G("h_c18_tag", [q(t, 3, 4), p, 0], shards=5, cost=10 ** 3) for p in (6, 21, 23)] + [G("h_c18_finished", [n, 0, 0], shards=3, cost=10 ** n) for n in range(q(t, 4, 5))] + shapes("h_c18", ALLSH, 1) + shapes("h_c18_tag", (17, 30, 35, 38, 40, 43), 1) + mutate("h_c18_tag", 1, (17, 30, 35, 38, 40, 43), (), 1) + mutate("h_c18", 1, (4, 5, 12, 13, 27), (), 4) + long("h_c18") + huge("h_c18", t, (*HSTR, 72)) + huge("h_c18", "quick", (77,))
@prop
def C22(t): return [G("h_c22_append", [n, k], shards=8, cost=10 ** k) for n, k in ((0, 1), (3, 1), (1, q(t, 2, 3)))] + [G("h_c22_build", shards=3), G("h_c22_nest", shards=3), G("h_c22_arraybuilder", shards=2)] + [G("h_c22_many", [n], shards=2) for n in (0, 23, 24, 255, 256)] + [G("h_c22_vec", [n]) for n in (0, 1, 2, 23, 24, 256)] + upto("h_c22_decvec", q(t, 4, 5)) + [G("h_c22_string", [i], shards=2) for i in range(11)] + [G("h_c22_header", shards=2)] + long("h_c22_decvec", (44, 50, 51, 52, 54, 60, 61)) + huge("h_c22_decvec", t, (71, 73, 76)) + [G("h_c22_count", [n]) for n in (4096, 65536, 65537)]

@prop
def C23(t): return upto("h_c23", q(t, 4, 5)) + pre("h_c23", q(t, 3, 4)) + wide("h_c23_wide", [0, 1, 2]) + deep("h_c23", t) + cuts("h_c23") + [G("h_c23_tagged", [n, p, 0], shards=5, cost=10 ** 3, note="tag prefix %d, then every %d bytes" % (p, n)) for p in (6, 21, 36, 43, 44, 45, 51, 52, 53, 54, 55, 56) for n in (1, q(t, 3, 4))] + data("h_c23_tagged", q(t, 3, 4)) + mutate("h_c23_tagged", 1, (35, 38, 39, 40, 41, 42, 43)) + mutate("h_c23_tagged", 2, (35, 38, 43)) + long("h_c23") + longcuts("h_c23", (44, 47, 49, 51, 53, 57, 61, 63, 66)) + huge("h_c23", t, HUGE) + longcuts("h_c23", HSTR) + shapes("h_c23", (*LATE, 92))
@prop
def C24(t): return [G("h_c24_native", [n, 0, 0], shards=10, cost=10 ** n) for n in range(q(t, 5, 6))] + wide("h_c24_wide", [1, 2]) + [G("h_c24_native", [q(t, 3, 4), p, 0], shards=10, cost=10 ** 4) for p in (7, 8, 33, 34, 41, 42)] + [G("h_c24_vec", [n, 0, 0], shards=4, cost=10 ** n) for n in range(q(t, 5, 6))] + [G("h_c24_vec", [3, p, 0], shards=4, cost=10 ** 4) for p in (1, 2, 15, 22, 26, 28, 57, 58, 59, 60, 61)] + mutate("h_c24_vec", 1, (2, 3, 6, 9, 11, 19, 31, 32, 33, 36)) + [G("h_c24_path", [k], shards=5) for k in range(1, q(t, 5, 7))] + upto("h_c24_whole", q(t, 4, 5)) + mutate("h_c24_whole", 2, (21, 22)) + [G("h_c24_text", note="concrete errors, real formatting")] + long("h_c24_vec", (44, 45, 50, 51, 52, 54, 61)) + huge("h_c24_vec", t, (*HSTR, 71, 72, 76)) + shapes("h_c24_vec", (87, 89, 93, 94))

def derived(c, types, npre, t, n1, n2, e2):
    cr = "harness_derive:" + c
    return [G("h_%s_%s" % (c, e), a, shards=4 * min(types, 26) if e in ("head", "edit") else types, cost=10 ** 5, crate=cr, note=nt) for e, a, nt in (("enc", (), "every value of the fields"), ("long", (), "strings and vectors of 24, 255 and 256 elements"), ("head", (), "a valid encoding whose header has any number in any width"), ("edit", [1], "encodings of fixed values, any one byte of which is any byte"), *[("edit", [k], "encodings of fixed values, any %d consecutive bytes of which are any bytes" % k) for k in e2])] + [G("h_%s_dec" % c, [n, 0], shards=types, cost=10 ** n, crate=cr) for n in range(q(t, n1, n1 + 1) + 1)] + [G("h_%s_dec" % c, [n, p], shards=types, cost=10 ** n, crate=cr, note="after each type's prefix %d" % p) for p in range(1, npre + 1) for n in sorted({0, 2, q(t, n2, n2 + 1)})]
@prop
def C19(t): return derived("c19", 27, 6, t, 3, 3, [2]) + [G("h_c19_many", shards=7, crate="harness_derive:c19", note="260 fields")]
@prop
def C20(t): return derived("c20", 12, 9, t, 3, 3, q(t, [], [2])) + [G("h_c20_keys", shards=3, crate="harness_derive:c20")]
@prop
def C21(t): return derived("c21", 12, 10, t, 3, 3, q(t, [2], [2, 3])) + [G("h_c21_numbers", shards=6, crate="harness_derive:c21")]
def blame(c, types, npre, t):
    cr = "harness_derive:c" + c; e = "h_c25_%s_" % c
    return [G(e + "head", (), shards=4 * types, cost=10 ** 5, crate=cr, note="a valid encoding whose header has any number in any width"), G(e + "text", (), cost=10 ** 6, crate=cr, note="concrete counts, keys and numbers, real formatting")] + [G(e + "edit", [k], shards=4 * types, cost=10 ** 5, crate=cr, note="encodings of fixed values, any %d consecutive bytes of which are any bytes" % k) for k in q(t, (1,), (1, 2))] + [G(e + "dec", [n, 0], shards=types, cost=10 ** n, crate=cr, note="every input of %d bytes" % n) for n in range(q(t, 3, 4) + 1)] + [G(e + "dec", [n, p], shards=types, cost=10 ** n, crate=cr, note="%d bytes after each type's prefix %d" % (n, p)) for p in range(1, npre + 1) for n in (q(t, 2, 3),)]
@prop
def C25(t): return blame("19", 26, 6, t) + blame("20", 12, 9, t) + blame("21", 12, 10, t)
@prop
def C26(t): return [g for n, m in ((0, 0), (0, 2), (1, 1), (2, 1), (2, 2), (3, 2), *q(t, (), ((3, 3), (4, 2)))) for g in data("h_c26", n, [m])] + [G("h_c26_same", [q(t, 2, 3), p, 0], cost=10 ** 4, note="both after prefix %d, then every %d bytes" % (p, q(t, 2, 3))) for p in (*ALLPRE, 41, 42)] + wide("h_c26_wide", [0, 1]) + shapes("h_c26_same", q(t, [i for i in ALLSH if i not in (6, 28)], ALLSH)) + mutate("h_c26_edit", q(t, 1, 2), ALLSH, (), 4) + long("h_c26_same", [i for i in LONG if i != 55]) + [G("h_c26_typed", [n, p, 0], shards=10, cost=10 ** 3, note="two inputs, %d bytes after prefix %d each" % (n, p)) for p, n in ((0, 1), (0, 2), (7, 2), (21, 2), (41, 2), (43, 2), (44, 2), (45, 2), (46, 2), (51, 2), (52, 2), (53, 2), (54, 2), (55, 2), *q(t, (), ((45, 3), (54, 3))))] + shapes("h_c26_typed", (35, 38, 39, 40, 41, 42)) + huge("h_c26_same", t, (*HSTR, 72))

ASSUMPTIONS = [
 "The code executed is the LLVM IR that rustc emits (debug assertions and overflow checks on, 64-bit target) for /repo's current sources, the harness and the standard library; sroa, early-cse, instcombine, simplifycfg and adce are applied to it and trusted, like rustc and Z3.",
 "Bounds: inputs have the lengths listed under coverage.bounds; nothing is claimed beyond them, in particular not about longer inputs reached by none of the listed prefixes.",
 "Stand-ins: formatted strings (format!) become an opaque constant string (except in C24's vector and path checks, which run the real formatting code), so the wording of error messages is not examined; the allocator never fails and never reuses memory; memcpy, memmove, memset, memcmp are built into the executor.",
 "Single thread: cbored has no shared state, no unsafe code reachable from several threads and no I/O.",
 "Every counterexample is replayed on natively compiled code (dev and release) before it is reported; sampled explored paths and random inputs are compared with the native code on every run, and a mismatch is an error, not a pass.",
]
NOTES = {
 "C04": ["Termination within bounds: every path of the executor ends; a loop that would not end shows as a job that does not complete, which is an error for the guaranteed groups."],
 "C05": ["Strings take the lengths 0, 1, 2, 23..25, 255..257, 65535, 65536 with symbolic bytes at their ends only for the long ones."],
 "C15": ["The converse (a data-missing error only for a proper prefix) is not claimed: for a chunk of the wrong type that is itself cut, either error is right."],
 "C19": ["The derive macro is exercised through 27 fixed structure definitions; macro expansion itself runs in rustc, only the generated code is symbolic."],
 "C20": ["The derive macro is exercised through 12 fixed structure definitions."],
 "C21": ["The derive macro is exercised through 12 fixed enum definitions."],
}
NA = {}
LEVEL = {
 "C01": "Every byte string of up to 5 (thorough 6) bytes, every 3 (5) bytes after 37 fixed prefixes, and wide headers: exhaustive by solver within those lengths. Also long inputs: up to 44 shapes of up to 64 bytes with symbolic leaves or edited bytes, up to 23 of about 260 bytes or levels, strings of 65537 bytes, 4097 elements, nesting of 1100.",
 "C02": "Every byte string of up to 5 (thorough 6) bytes, every 3 (5) bytes after 37 fixed prefixes, and wide headers, against a grammar model. Also long inputs: up to 44 shapes of up to 64 bytes with symbolic leaves or edited bytes, up to 23 of about 260 bytes or levels, strings of 65537 bytes, 4097 elements, nesting of 1100.",
 "C03": "Every byte string of up to 5 (thorough 6) bytes, every 3 (5) bytes after 37 fixed prefixes, up to 5 successive next() calls. Also long inputs: up to 44 shapes of up to 64 bytes with symbolic leaves or edited bytes, up to 23 of about 260 bytes or levels, strings of 65537 bytes, 4097 elements, nesting of 1100.",
 "C04": "Every call of a 40-call menu on every input of up to 4 (5) bytes, pairs of calls on 2 (3) bytes, prefixes and wide headers; panics and out-of-bounds accesses on any path are violations. Also validation of long inputs: strings of 65537 bytes, 4097 elements, nesting of 1100.",
 "C05": "Every number of 64 bits through every constructor; strings of boundary lengths; arrays, maps and chunk lists of up to 2 elements.",
 "C06": "Every number of 64 bits in every header width, written and read; every length class of strings and containers.",
 "C07": "Every integer header of every width against every native integer type; every string encoding of up to 4 (5) bytes and 3 (5) after prefixes. Also strings of up to 65537 bytes.",
 "C08": "Every typed read on every input of up to 3 (4) bytes and wide headers, at the start and after an item.",
 "C09": "Sequences of 3 (4) reads on every input of up to 3 (4) bytes; pairs of items on 4 (5) bytes. Also positions inside long inputs of up to 65540 bytes, 4097 elements, nesting of 1100.",
 "C10": "Every bit pattern of 16, 32 and 64 bits.",
 "C11": "Every number of 64 bits.",
 "C12": "Every byte string of up to 5 (6) bytes, 3 (5) bytes after 38 fixed prefixes, wide headers; each element compared with the model's tiling. Also long inputs: up to 44 shapes of up to 64 bytes with symbolic leaves or edited bytes, up to 23 of about 260 bytes or levels, strings of 65537 bytes, 4097 elements, nesting of 1100.",
 "C13": "Every byte string of up to 6 (7) bytes, 5 (6) after string prefixes; texts of up to 7 (9) symbolic bytes. Also long inputs: up to 44 shapes of up to 64 bytes with symbolic leaves or edited bytes, up to 23 of about 260 bytes or levels, strings of 65537 bytes, 4097 elements, nesting of 1100.",
 "C14": "Every sequence of up to 5 (7) events out of 11, counts of 64 symbolic bits. Also one structure of 4100 items and 1030 nested structures before any two events.",
 "C15": "Every byte string of up to 5 (thorough 6) bytes, prefixes, wide headers; the cut points are those the model marks as proper prefixes. Also long inputs: up to 44 shapes of up to 64 bytes with symbolic leaves or edited bytes, up to 23 of about 260 bytes or levels, strings of 65537 bytes, 4097 elements, nesting of 1100.",
 "C16": "Up to 4 (5) bytes after every tag header of every width; 3 (5) bytes after prefixes; rationals after 8 prefixes. Also bignum, time and rational contents of 256 to 300 bytes or 40 chunks.",
 "C17": "Ten types on every input of up to 4 (5) bytes and 3 (4) bytes after prefixes. Also strings of 65537 bytes.",
 "C18": "Nine types on every input of up to 4 (5) bytes, each of four ways to decode. Also strings of 65537 bytes and leftovers of 65600 bytes.",
 "C19": "27 structure definitions: every value of their fields (short strings), every input of up to 3 (4) bytes and 3 (4) bytes after their own prefixes.",
 "C20": "12 structure definitions: every value of their fields, every input of up to 3 (4) bytes and after their own prefixes, every pair of 64-bit keys in every width.",
 "C21": "12 enum definitions: every value of their fields, every input of up to 3 (4) bytes and after their own prefixes, every 64-bit variant number in every width.",
 "C23": "Every byte string of up to 4 (5) bytes, 3 (4) after 37 fixed prefixes, wide headers, long, edited and cut inputs, against a grammar model that names the first offence; tagged reads after 13 prefixes. Also long inputs: up to 44 shapes of up to 64 bytes with symbolic leaves or edited bytes, up to 23 of about 260 bytes or levels, strings of 65537 bytes, 4097 elements, nesting of 1100.",
 "C24": "Ten native types on every input of up to 4 (5) bytes, 3 (4) after string prefixes and wide headers; vectors of four element types on up to 4 (5) bytes, after 11 prefixes and long ones of up to 260 elements; up to 4 (6) context additions. Also vectors of 1030 to 4100 elements.",
 "C25": "38 structure and 12 enum definitions: every input of up to 3 (4) bytes and 2 (3) bytes after their own prefixes, encodings with any one byte (two) edited or with any number in any width in a header.",
 "C26": "Pairs of inputs of up to 3 and 2 symbolic bytes, of 2 (3) bytes after the same 39 prefixes, wide headers, long inputs with symbolic leaves, a fixed input and itself with any byte (2 bytes) edited; ten typed forms. Also strings of 65537 bytes and nesting of 1100.",
 "C22": "Sequences of 1 and 2 (3) write calls out of 8 with 64-bit numbers after any 3 bytes, nested builders, arrays of 0 to 256 elements, decoding of vectors from up to 3 (4) bytes. Also arrays of 4096, 65536 and 65537 written elements.",
}
