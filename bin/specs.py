"""What each check builds and runs."""
CH = ["char", "char8_t", "char16_t", "char32_t", "wchar_t"]
def per_char(src, cxxs=("g++", "clang++"), **kw):
    out = []
    for i, c in enumerate(CH):
        v = dict(name="%s-%s" % (src.split(".")[0], c), src=[src], cxx=cxxs[i % len(cxxs)], flags=["-DCH=" + c], shards=2)
        f = kw.get("flags", [])
        v.update({k: x for k, x in kw.items() if k != "flags"}); v["flags"] = v["flags"] + f
        out.append(v)
    return out

SPECS = {}
SPECS["P06"] = dict(
    variants=[dict(name="p06-%s-%d" % (c, i), src=["p06.cpp"], cxx=["g++", "clang++"][(i + k) % 2], opt="-O1" if i % 2 else "-O0", flags=["-DCH=" + c, "-DPART=%d" % i], shards=2)
              for i, c, k in [(0, "char", 0), (1, "char", 0), (2, "char", 0), (3, "char", 0), (0, "char8_t", 1), (1, "char16_t", 1), (2, "char32_t", 1), (3, "wchar_t", 1)]],
    technique="differential runtime monitoring (independent digit generator) under ASan/UBSan",
    level_note="Every printed integer is compared with an independently generated text; memory faults by ASan/UBSan on exact-size buffers. Exhaustive over 16-bit values without flags, sampled otherwise.",
    rule="random integer x type x base x flags x precision x pad0 x alignment x lettercase, printed into exact-size buffers; distinct tuples counted; plus every 16-bit value in every base",
)

SPECS["P01"] = dict(
    variants=per_char("p01.cpp"),
    technique="model-based runtime monitoring of operation histories under ASan/UBSan",
    level_note="Every history on a character array is replayed on a model; array content, terminator, result pointer/truncated flag, good() compared; arrays are exact-size heap blocks so any access outside is an ASan report.",
    rule="random histories of put/write/ensure/recycle/flush/finish on arrays of size 1.. and random print calls into arrays of every size around the output length; distinct (size, history) and (call, size) counted",
    required_events=["operations-after-overflow", "prints-truncated", "prints-that-fit"],
)
SPECS["P02"] = dict(
    variants=per_char("p02.cpp"),
    technique="differential runtime monitoring with hostile destination buffers under ASan/UBSan",
    level_note="Each print call is run into one large buffer and into destinations handing out exact-size heap blocks of minimal size at every offset, freed at recycle, possibly going bad; the pieces must concatenate to the reference.",
    rule="random print calls (18 kinds) x buffer layouts x point of failure; distinct (text, layout) counted",
    required_events=["prints-split-over-buffers", "prints-into-failed-destination"],
)
SPECS["P03"] = dict(
    variants=per_char("p03.cpp"),
    technique="model-based runtime monitoring with allocator fault injection under ASan/UBSan/LSan",
    level_note="Histories on the string destinations compared with a model string; every allocation is accounted for, each of the first allocations of a history/print is made to fail in turn.",
    rule="random histories and print calls x string type x reserve policy x failing allocation; distinct histories/texts counted",
    required_events=["operations", "allocation-failures-injected", "prints-interrupted-by-bad_alloc"],
)
SPECS["P04"] = dict(
    variants=[dict(v, flags=v["flags"] + (["-DWIDE"] if "wchar_t" in v["name"] else [])) for v in per_char("p04.cpp", cxxs=("g++",))],
    technique="model-based runtime monitoring with fault-injecting sinks under ASan/UBSan",
    level_note="fopencookie FILEs, streambuf subclasses and a sealed memfd record what was accepted and start refusing/throwing at a chosen position; counts, success flags, order and absence of further deliveries are checked against a model.",
    rule="random histories and print calls x failure position x recovery; distinct (history, failure) counted",
    required_events=["operations-after-sink-failure", "refused-deliveries", "complete-deliveries", "unfinished-writers", "sink-exceptions"],
)

def masked(src, combos, flags=[], shards=1, **kw):
    """combos: list of (char type, JOBS mask, extra flags)"""
    out = []
    for i, (c, m, x) in enumerate(combos):
        v = dict(name="%s-%s-%x" % (src.split(".")[0], c, m), src=[src], cxx=["g++", "clang++"][i % 2], flags=["-DCH=" + c, "-DJOBS=0x%X" % m] + flags + x, shards=shards)
        v.update(kw); out.append(v)
    return out
SPECS["P05"] = dict(
    variants=masked("p05.cpp", [("char", 0xF, ["-DHUGE_W"]), ("char", 0x1F0, []), ("char", 0x3E00, []), ("char", 0x3C000, []), ("char16_t", 0x3C1F0, ["-DHUGE_W"]), ("char8_t", 0x3E0F, []), ("wchar_t", 0x155CA, []), ("char32_t", 0x2AA35, ["-DHUGE_W"])]),
    technique="runtime monitoring with a recording destination creator and measure() oracles under ASan/UBSan",
    level_note="Each print call is repeated under every reserve policy and syntax into a user-defined sized destination that hands out an exact-size block and counts recycles; announced sizes and measured widths are compared with the text really printed.",
    rule="random print calls (18 kinds) x syntax x policy x width limit, plus widths beyond width_max; distinct (kind, text) counted",
    required_events=["reserve_calc-prints", "measurements", "measurements-over-the-limit", "widths-beyond-width_max", "accumulator-operations"],
)
SPECS["P07"] = dict(
    variants=[dict(name="p07-%s-%d" % (c, i), src=["p07.cpp"], cxx=["g++", "clang++"][(i + k) % 2], flags=["-DCH=" + c, "-DPART=%d" % i])
              for i, c, k in [(0, "char", 0), (1, "char", 0), (2, "char", 0), (3, "char", 0), (0, "char8_t", 1), (1, "char16_t", 1), (2, "wchar_t", 0), (3, "char32_t", 0)]],
    technique="differential runtime monitoring (reference grouping on plain vectors) under ASan/UBSan",
    level_note="Groupings built in every documented way are compared through every accessor with a vector model; numbers printed with operator! in bases 2, 8, 10, 16 and as floats are compared with the model's text, in UTF and single-byte charsets (separators that can not be encoded included).",
    rule="random grouping x way of construction x digit count; random number x grouping x separator x charset x precision/pad/sign/prefix/alignment; distinct tuples counted",
    required_events=["numbers-with-separators", "unencodable-separators", "groupings-built"],
)
SPECS["P08"] = dict(
    variants=per_char("p08.cpp", shards=2) + [dict(name="p08-fast", src=["p08.cpp"], cxx="g++", opt="-O2", san="none", flags=["-DCH=char", "-DFAST"], shards=4, weight=3)],
    technique="differential runtime monitoring (std::to_chars digits, strtod read-back), with and without ASan/UBSan",
    level_note="Every printed float is compared with the text built from std::to_chars' shortest digits and is read back with strtod/strtof to the identical bits. thorough: all 2^32 float bit patterns.",
    rule="random bit patterns, powers of two with neighbours (all), subnormals, short decimals, blocks of float bit patterns; distinct values counted",
    required_events=["read-back", "float-values"],
)
SPECS["P09"] = dict(
    variants=per_char("p09.cpp", shards=2),
    technique="differential runtime monitoring (string-arithmetic rounding reference, printf) under ASan/UBSan",
    level_note="Text compared with a reference that rounds to_chars' digits as decimal strings; where the value is a short integer also with glibc printf.",
    rule="random value x notation x precision 0..1100 x operator* x way of asking; distinct tuples counted",
    required_events=["ties", "carries-to-a-new-digit", "zero-extended", "compared-with-printf"],
)
SPECS["P10"] = dict(
    variants=per_char("p10.cpp", shards=2),
    technique="differential runtime monitoring (bit-level reference, printf %a, strtod) under ASan/UBSan",
    level_note="Text compared with a bit-level reference, with glibc's %a, and by value through strtod (nearbyint for the rounded ones).",
    rule="random value x precision x operator* x letter case; distinct tuples counted",
    required_events=["rounded", "read-back", "compared-with-printf", "subnormals"],
)
SPECS["P11"] = dict(
    variants=[dict(name="p11-%s-%d" % (c, i), src=["p11.cpp"], cxx=x, flags=["-DCH=" + c, "-DPART=%d" % i], shards=2)
              for c, i, x in [("char", 0, "g++"), ("char", 1, "clang++"), ("char8_t", 1, "g++"), ("char16_t", 0, "clang++"), ("char32_t", 1, "clang++"), ("wchar_t", 0, "g++")]],
    technique="differential runtime monitoring (composition reference) under ASan/UBSan",
    level_note="Every flag combination's text is composed independently (digits from to_chars, reference grouping, sign, padding, letter case, alignment) and compared, in UTF and single-byte charsets.",
    rule="random value x notation x precision x + ~ * ! x pad0 x alignment x letter case x numpunct x charset; distinct tuples counted",
    required_events=["grouped", "grouping-not-encodable", "nan", "inf", "pad0"],
)
SPECS["P12"] = dict(
    variants=[dict(name="p12-%s-%d" % (c, i), src=["p12.cpp"], cxx=x, flags=["-DCH=" + c, "-DPART=%d" % i])
              for c, i, x in [("char", 0, "g++"), ("char", 1, "clang++"), ("char", 2, "clang++"), ("char", 3, "g++"), ("char16_t", 0, "clang++"), ("char16_t", 3, "clang++"),
                              ("char32_t", 1, "g++"), ("char32_t", 2, "g++"), ("wchar_t", 0, "g++"), ("char8_t", 2, "clang++"), ("char8_t", 1, "g++")]],
    technique="differential runtime monitoring (alignment reference with independent width measurement) under ASan/UBSan",
    level_note="For every alignable kind of argument the padded text is composed from the unaligned text and an independently measured width (five calculators, UAX #29 clusters).",
    rule="argument kind x content x width calculator x alignment x fill x width close to the content's x charset; distinct outputs counted",
    required_events=["filled", "fill-not-encodable", "rounded-to-no-fill", "no-fill"],
)
SPECS["P13"] = dict(
    variants=[dict(name="p13-plain-%s" % c, src=["p13.cpp"], cxx=x, flags=["-DCH=" + c, "-DPART=0"], shards=2) for c, x in [("char", "clang++"), ("char16_t", "clang++"), ("wchar_t", "clang++")]]
           + [dict(name="p13-%s-%s" % (o, c), src=["p13.cpp"], cxx=x, flags=["-DCH=" + c, "-DOC=" + o, "-DPART=1"])
              for c, o, x in [("char", "char", "g++"), ("char", "char16_t", "clang++"), ("char", "wchar_t", "g++"), ("char8_t", "char", "clang++"), ("wchar_t", "char", "clang++"), ("char16_t", "char16_t", "clang++"), ("char32_t", "char16_t", "g++")]],
    technique="differential runtime monitoring (reference decoder/encoder and width measurement, recording error notifier) under ASan/UBSan",
    level_note="Printed text compared with a reference conversion (Unicode maximal subparts, published single-byte tables) and reference cut; sources are exact-size heap blocks; error notifications recorded and compared.",
    rule="string kind x content (valid and ill-formed) x charset pair (27 charsets) x operation x precision around a boundary x alignment x width calculator; distinct outputs counted",
    required_events=["cut", "whole", "with-null", "invalid-sequences", "unsupported-codepoints", "same-charset"],
)
SPECS["P14"] = dict(
    variants=per_char("p14.cpp", shards=1),
    technique="differential runtime monitoring (reference encoders, single-byte tables) under ASan/UBSan",
    level_note="Every code point is printed in UTF and single-byte charsets and compared with a reference encoder; counts, alignment, fills and widths are random.",
    rule="all code points x charset (swept), random character x count x alignment x width calculator x charset; distinct outputs counted",
    required_events=["code-points-swept", "filled", "measured", "not-in-charset", "printed-more-times-than-a-buffer-holds", "printed-no-times"],
)
SPECS["P15"] = dict(
    variants=[dict(name="p15-%s-%d-%x" % (c, i, m), src=["p15.cpp"], cxx=x, opt="-O0", flags=["-DCH=" + c, "-DPART=%d" % i, "-DPLACES=0x%X" % m])
              for c, i, x, m in [("char", 1, "g++", 0x15), ("char", 0, "clang++", 0x2B), ("char", 2, "g++", 0x45), ("char", 1, "clang++", 0x6A), ("char", 0, "clang++", 0x54), ("char", 2, "clang++", 0x3A),
                                 ("char16_t", 0, "clang++", 0x4D), ("char32_t", 1, "clang++", 0x5C), ("wchar_t", 2, "clang++", 0x33), ("char8_t", 1, "clang++", 0x27), ("wchar_t", 0, "clang++", 0x1A)]],
    technique="differential runtime monitoring (element-by-element reference) under ASan/UBSan",
    level_note="The text of a range is compared with its elements printed alone and joined by the separator, for 12 containers and hostile user-defined iterators over exact-size heap blocks, in nine places an argument may be in.",
    rule="container x element type x separator x format x transformation x place x size; distinct outputs counted",
    required_events=["alone", "between", "in-join", "in-tr", "in-with", "line", "measured", "reserve_calc", "transformed", "empty", "own-iterator", "initializer-lists"],
)
SPECS["P16"] = dict(
    variants=[dict(name="p16-%s-%d" % (c, i), src=["p16.cpp"], cxx=x, opt="-O0", flags=["-DCH=" + c, "-DPART=%d" % i])
              for c, i, x in [("char", 3, "g++"), ("char", 0, "clang++"), ("char", 1, "clang++"), ("char", 2, "clang++"), ("char16_t", 0, "clang++"), ("char32_t", 1, "clang++"), ("wchar_t", 2, "clang++"), ("char8_t", 3, "clang++")]],
    technique="differential runtime monitoring (compositional text/width model) under ASan/UBSan",
    level_note="Joins are built together with a model holding the text and the exact width of each part; the model is composed over chains of depth 10, trees of depth 3, flat joins of 13 kinds of arguments, ranges of joins and contents wider than width_max.",
    rule="join shape x leaves (13 kinds of arguments, themselves aligned, cut, converted or with inner facets) x alignment x width near the content's x calculator x charset x place; distinct outputs counted",
    required_events=["alone", "twice", "reserve_calc", "measured", "default-fill", "in-tr", "wider-than-width_max"],
)
SPECS["P17"] = dict(
    variants=[dict(name="p17-%s-%d" % (c, i), src=["p17.cpp"], cxx=x, opt="-O0", flags=["-DCH=" + c, "-DPART=%d" % i])
              for c, i, x in [("char", 0, "g++"), ("char", 1, "clang++"), ("char16_t", 0, "clang++"), ("char32_t", 1, "clang++"), ("wchar_t", 0, "clang++"), ("char8_t", 1, "clang++"), ("wchar_t", 1, "clang++")]],
    technique="differential runtime monitoring (reference template parser, recording error notifier) under ASan/UBSan",
    level_note="Templates in exact-size heap blocks are printed with 0 to 12 arguments in seven places and measured; text, sizes, widths and the sequence of error notifications are compared with a reference parser.",
    rule="template made of well-formed and malformed tokens, any text and stray units x number and kind of arguments x place x charset x width calculator; distinct (template, text) counted",
    required_events=["tr()", "tr(const CharT*)", "trline(std::string)", "reserve_calc", "argument", "range of tr-strings", "measured", "missing-arguments", "tr-in-tr", "no-arguments"],
)
SPECS["P18"] = dict(
    variants=[dict(name="p18-%s-%d" % (c, i), src=["p18.cpp"], cxx=x, opt="-O0", flags=["-DCH=" + c, "-DPART=%d" % i] + (["-DSEEDS=8"] if x == "g++" else []))
              for c, i, x in [("char", 5, "clang++"), ("char", 0, "clang++"), ("char", 12, "g++"), ("char", 2, "clang++"), ("char16_t", 3, "clang++"), ("char32_t", 4, "clang++"), ("wchar_t", 6, "clang++"), ("char8_t", 7, "clang++")]]
             + [dict(name="p18b-%s-%d" % (c, i), src=["p18b.cpp"], cxx="clang++", opt="-O0", flags=["-DCH=" + c, "-DPART=%d" % i], shards=2)
                for c, i in [("char", 0), ("char", 1), ("char", 2), ("char16_t", 2), ("wchar_t", 1), ("char8_t", 2)]],
    technique="differential runtime monitoring (facet resolution model over pack trees) under ASan/UBSan",
    level_note="124 pack trees (packs, constrained packs, lvalues, rvalues) per run are built together with a model of which facet each kind of argument is given; 18 probe arguments reveal the facet they were given by what they print, in seven scopes; get_facet is asked for every tag of bigger packs. Besides, each kind of argument in each form that is printed by code of its own (about 150) is given a facet constrained to just it and to all but it, in four ways of printing.",
    rule="pack tree x constraint x facet values x probe arguments x scope; distinct (facets, text) counted",
    required_events=["nested with", "several facets in one with", "chained with", "join and inner with", "reserve_calc", "tr", "next print has defaults", "get_facet", "facet seen in the output"],
)


def per_char0(n, **kw):
    """One -O0 variant per character type; g++ for wchar_t."""
    return [dict(name="%s-%s" % (n, c), src=[n + ".cpp"], cxx="g++" if c == "wchar_t" else "clang++", opt="-O0", flags=["-DCH=" + c], **kw) for c in ("char", "wchar_t", "char16_t", "char32_t", "char8_t")]


SPECS["P19"] = dict(
    variants=per_char0("p19"),
    technique="differential runtime monitoring (reference maximal-subpart decoder, recording error notifier) under ASan/UBSan",
    level_note="Sequences built around every boundary of the encoding forms, and random ones, in exact-size heap blocks, are converted to all other encodings by all routes; output, error notifications and stop position are compared with a reference decoder.",
    rule="sequence class x neighbours x destination charset x flags x route; distinct (source, output) counted",
    required_events=["representative sequences", "code points", "valid", "ill-formed", "completed"],
)
SPECS["P20"] = dict(
    variants=per_char0("p20"),
    technique="differential runtime monitoring (reference transcoder with limits, guarded buffers) under ASan/UBSan",
    level_note="Every route of transcoding into buffers of every size between nothing and what is needed: result, source position, units written, units not to be written, notifications, and the text obtained by resuming are compared with a reference.",
    rule="charset pair (27 charsets each side) x route x flags x source x buffer size; distinct (source, output) counted",
    required_events=["completed", "insufficient_output_space", "invalid_sequence", "unsupported_codepoint", "resumed", "unsafe", "two-stage", "lax surrogates in unsafe"],
)
SPECS["P21"] = dict(
    variants=per_char0("p21"),
    technique="differential runtime monitoring (reference transcoder; sizes, buffers, destinations) under ASan/UBSan",
    level_note="For each pair of charsets every route offered (static, dynamic, two-stage, unsafe, size functions, destinations that recycle or go bad) is compared with one reference, and whether a transcoder is found with the documented rule.",
    rule="charset pair x route x flags x source x limit; distinct (source, output) counted",
    required_events=["sizes", "stopped sizes", "destination", "destination going bad", "recycled", "bad from the start", "found", "null-transcoder", "static single-byte", "unsafe", "two-stage"],
)
SPECS["P22"] = dict(
    variants=[dict(name="p22-char", src=["p22.cpp"], cxx="clang++", flags=["-DCH=char"], shards=4), dict(name="p22-char8_t", src=["p22.cpp"], cxx="g++", flags=["-DCH=char8_t"], shards=3)],
    technique="exhaustive differential runtime monitoring (published tables) under ASan/UBSan",
    level_note="Every byte and every code point (to U+112FFF) of the 25 charsets, static and dynamic, goes through every function that decodes or encodes it and through printing, against tables generated from Python's codecs and the Encoding Standard; random long texts go there and back.",
    rule="charset x byte, charset x 4096 code points, random text x charset pair; distinct results counted",
    required_events=["byte decoded", "round trip", "unassigned byte", "code points encoded", "assigned code point", "long text"],
)
SPECS["P23"] = dict(
    variants=per_char0("p23"),
    technique="exhaustive and random differential runtime monitoring (reference encoder and decoder) under ASan/UBSan",
    level_note="Every code point (and values beyond) goes through the encoding functions of every charset, static, dynamic and through function pointers; every unit through decode_unit; fills into destinations that recycle and go bad; code points counted in valid and ill-formed text in exact-size heap blocks.",
    rule="charset x 1024 code points; charset x units; charset x code point x count x destination; charset x text x maximum; distinct results counted",
    required_events=["code points", "units", "fill", "empty fill", "replacement written", "recycled", "gone bad", "counted valid", "counted ill-formed", "stopped at the maximum", "values compared"],
)
SPECS["P24"] = dict(
    variants=[dict(name="p24-char32_t", src=["p24.cpp"], cxx="clang++", flags=["-DCH=char32_t"], shards=3), dict(name="p24-char", src=["p24.cpp"], cxx="g++", flags=["-DCH=char"])]
           + [dict(name="p24-" + c, src=["p24.cpp"], cxx="clang++", flags=["-DCH=" + c]) for c in ("wchar_t", "char16_t", "char8_t")],
    technique="exhaustive and random differential runtime monitoring (UAX #29 reference) under ASan/UBSan",
    level_note="Every code point is measured next to every grapheme break class, and every sequence of up to 4 classes cut at every kind of limit; random valid, ill-formed and over-long texts in all charsets, static and dynamic, in exact-size heap blocks, for the four calculators.",
    rule="code point x neighbouring class; class sequence x limit; text x charset x calculator x limit; distinct results counted",
    required_events=["str_width", "str_width_and_pos", "wider than the limit", "limit not positive", "fractional limit", "wider than width_max", "valid", "ill-formed", "long text", "class sequences", "code points next to each class"],
)
SPECS["P25"] = dict(
    variants=[dict(name="p25-gcc", src=["p25.cpp"], cxx="g++", shards=3), dict(name="p25-clang", src=["p25.cpp"], cxx="clang++", shards=3), dict(name="p25-gcc-O3-cxx17", src=["p25.cpp"], cxx="g++", opt="-O3", flags=["-std=c++17"], shards=2)],
    technique="differential runtime monitoring (128-bit integer reference) under UBSan/ASan",
    level_note="Operands at and around every limit (of the 32-bit value, of each integer type, of the product, sum or quotient) and random ones go through every operation; roundings of every fraction; 1183 literals of up to 25 digits.",
    rule="operands x operation; fraction x integral part; literal; distinct operands counted",
    required_events=["saturated", "compare", "constructor", "sat_cast", "integer beyond the range", "negative integer", "equal", "operator *", "operator /", "roundings", "literal"],
)
SPECS["P26"] = dict(
    variants=[dict(name="p26-gcc", src=["p26.cpp"], cxx="g++", shards=3), dict(name="p26-clang", src=["p26.cpp"], cxx="clang++", shards=2), dict(name="p26-static", src=["p26.cpp", "/repo/src/strf.cpp"], cxx="g++", flags=["-DSTRF_SEPARATE_COMPILATION"], shards=2)],
    technique="differential runtime monitoring with interposed localeconv/nl_langinfo under ASan/UBSan",
    level_note="localeconv() and nl_langinfo() are replaced by ones giving hostile strings (exact-size heap blocks, wild pointers in the members that are not to be used); the facet obtained is compared with a reference decoder, member by member and by printing with it, also after those strings changed; the installed locales too.",
    rule="codeset name x decimal point x separator x grouping string; Windows grouping string; distinct inputs counted",
    required_events=["decimal point: decoded", "decimal point: invalid", "decimal point: unknown charset", "decimal point: empty", "separator: decoded", "separator: invalid", "separator: unknown charset", "separator: empty", "grouping dropped", "grouping: last not repeated", "grouping: last repeated", "real locale with grouping", "Windows grouping", "surrogate pair"],
)
_TS = {"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:history_size=4:report_signal_unsafe=0"}
SPECS["P27"] = dict(
    variants=[dict(name="p27-%s-%x" % (c, m), src=["p27.cpp"] + x, cxx="clang++", san="tsan", flags=["-DCH=" + c, "-DJOBS=0x%X" % m] + f, env=_TS)
              for c, m, f, x in [("char", 0xF0, [], []), ("char", 0xF0F, [], []), ("char", 0x3F000, [], []), ("wchar_t", 0x155CA, [], []), ("char16_t", 0x2AA35, [], []), ("char", 0x1C3A, ["-DSTRF_SEPARATE_COMPILATION"], ["/repo/src/strf.cpp"])]]
             + [dict(name="p27-charsets", src=["p27.cpp"], cxx="clang++", san="tsan", flags=["-DCHARSETS", "-DJOBS=1"], env=_TS, shards=2)],
    technique="happens-before race detection (ThreadSanitizer) with injected delays, and comparison with the text printed alone",
    level_note="2-6 threads started together print the same (shared) or their own arguments into destinations that yield and spin at each recycle, also as the very first use of the library in a process (300 forked processes per variant); each report of ThreadSanitizer is classified by the address it is about.",
    rule="print call (18 kinds) or charset x threads x destinations x delays; distinct interleavings of the threads' recycles counted",
    required_events=["interleaved runs", "switches between threads", "prints", "truncated prints", "processes", "charset runs"],
)

# ---- P28: the same workload in many build configurations, compared case by case
_LIB = "/repo/src/strf.cpp"
_HDR = ["hdr/%s.cpp" % h for h in ("all", "destination", "iterator", "locale", "outbuff", "strf", "to_cfile", "to_streambuf", "to_string")]
def _p28(name, ch, tag, cxx, std, opt, flags=(), src=(), san="none", **kw):
    return dict(name="p28-" + name, src=["p28.cpp"] + list(src), cxx=cxx, std=std, opt=opt, san=san, flags=["-DCH=" + ch, "-DSTRTAG=" + tag] + list(flags), shards=1, **kw)
_SEP = ["-DSTRF_SEPARATE_COMPILATION"]
def _p28_compare(check, results):
    import os, collections
    table = collections.defaultdict(lambda: collections.defaultdict(list))      # (section, index) -> digest -> [(variant, text)]
    for v in check.variants():
        path = os.path.join(check.wd, v["name"] + ".0.d", "digests")
        if not os.path.exists(path): continue
        for line in open(path, encoding="latin-1"):
            s, i, h, t = line.rstrip("\n").split("\t", 3)
            table[s, int(i)][h].append((v["name"], t))
    compared, out = 0, {}
    for (s, i), d in table.items():
        n = sum(len(x) for x in d.values())
        if n > 1: compared += 1
        if len(d) > 1:
            common = max(d, key=lambda h: len(d[h]))
            for h in d:
                if h == common: continue
                for name, t in d[h]:
                    key = "differs:%s:%s" % (name, s)
                    if key in out: continue
                    u = d[common][0][1]
                    at = next((k for k in range(min(len(t), len(u))) if t[k] != u[k]), min(len(t), len(u)))
                    out[key] = dict(key=key, section=s, index=i, variant=name, shard=0,
                                    detail="%s got ...%s; %s and %d others got ...%s" % (name, t[max(0, at - 40):at + 160], d[common][0][0], len(d[common]) - 1, u[max(0, at - 40):at + 160]))
    check.events["cases compared between configurations"] = compared
    check.events["configurations"] = len({n for d in table.values() for x in d.values() for n, t in x})
    return list(out.values())
SPECS["P28"] = dict(
    variants=[
        _p28("clang14-O0", "char", "char", "clang++", "c++14", "-O0", san="asan"),
        _p28("gcc14-O2", "char", "char", "g++", "c++14", "-O2"),
        _p28("gcc17-O3-ndebug", "char", "char", "g++", "c++17", "-O3", ["-DNDEBUG"]),
        _p28("clang20-O2-static", "char", "char", "clang++", "c++20", "-O2", _SEP, [_LIB]),
        _p28("gcc14-O0-static", "char", "char", "g++", "c++14", "-O0", _SEP, [_LIB]),
        _p28("gcc20-Os", "char", "char", "g++", "c++20", "-Os"),
        _p28("clang23-O1", "char", "char", "clang++", "c++23", "-O1"),
        _p28("gcc20-freestanding", "char", "char", "g++", "c++20", "-O1", ["-DSTRF_FREESTANDING"]),
        _p28("clang14-freestanding-static", "char", "char", "clang++", "c++14", "-O1", ["-DSTRF_FREESTANDING", "-DSTRF_WITH_CSTRING"] + _SEP, [_LIB]),
        _p28("gcc17-noexcept-uchar", "char", "char", "g++", "c++17", "-O1", ["-fno-exceptions", "-fno-rtti", "-funsigned-char"]),
        _p28("gcc17-noint128", "char", "char", "g++", "c++17", "-O1", ["-U__SIZEOF_INT128__"]),
        _p28("gcc20-char8", "char8_t", "char", "g++", "c++20", "-O1"),
        _p28("clang20-char8-static", "char8_t", "char", "clang++", "c++20", "-O0", _SEP, [_LIB]),
        _p28("gcc14-char16", "char16_t", "u16", "g++", "c++14", "-O2"),
        _p28("clang20-char16-static", "char16_t", "u16", "clang++", "c++20", "-O1", _SEP, [_LIB]),
        _p28("gcc17-wchar16", "wchar_t", "u16", "g++", "c++17", "-O0", ["-fshort-wchar", "-DSTRF_FREESTANDING"], san="ubsan"),
        _p28("clang14-wchar16-static", "wchar_t", "u16", "clang++", "c++14", "-O1", ["-fshort-wchar", "-DSTRF_FREESTANDING", "-DSTRF_WITH_CSTRING"] + _SEP, [_LIB]),
        _p28("clang20-char32", "char32_t", "u32", "clang++", "c++20", "-O1"),
        _p28("gcc17-wchar32", "wchar_t", "u32", "g++", "c++17", "-O2"),
        _p28("clang14-wchar32-static", "wchar_t", "u32", "clang++", "c++14", "-O0", _SEP, [_LIB]),
        _p28("gcc20-char32-static", "char32_t", "u32", "g++", "c++20", "-O0", _SEP, [_LIB]),
        _p28("gcc20-headers", "char", "char", "g++", "c++20", "-O0", ["-DPARTS=1"], _HDR),
        _p28("clang14-headers-static", "char", "char", "clang++", "c++14", "-O0", ["-DPARTS=1"] + _SEP, _HDR + [_LIB]),
    ],
    post=_p28_compare,
    technique="differential runtime monitoring: one workload built in 23 configurations, its outputs compared case by case",
    level_note="Configurations: gcc/clang x C++14/17/20/23 x -O0..-O3/-Os, header-only/static library, NDEBUG, STRF_FREESTANDING with and without STRF_WITH_CSTRING, no exceptions/RTTI, unsigned char, no __int128, 16-bit wchar_t (compared with char16_t), 32-bit wchar_t (with char32_t), char8_t (with char), one translation unit per public header linked together.",
    rule="random programs of 18 kinds (strings, transcoding, integers, floats, joins, ranges, tr-strings, charsets, destinations, premeasured sizes and widths) x configuration; distinct results counted",
    required_events=["case recorded", "cases compared between configurations"],
)
SPECS["P29"] = dict(
    variants=[dict(name="p29-" + c.replace(" ", ""), src=["p29.cpp"], cxx=["g++", "clang++"][i % 2], flags=["-DCH=" + c] + (["-DLITERALS"] if c == "char" else []), shards=2, std=["c++20", "c++17"][i // 3])
              for i, c in enumerate(["char", "char16_t", "char32_t", "wchar_t", "uint64_t", "short"])]
             + [dict(name="p29-freestanding", src=["p29.cpp"], cxx="g++", flags=["-DCH=char", "-DSTRF_FREESTANDING"], shards=1), dict(name="p29-char8_t", src=["p29.cpp"], cxx="clang++", flags=["-DCH=char8_t"], shards=1)],
    technique="model-based runtime monitoring of operation histories under ASan/UBSan",
    level_note="Histories of ensure (every integer type), put, write, advance, advance_to, recycle, flush, iterators, algorithms, fills and copies on recording destinations with Log2 of 0 to 8, whose buffers are exact-size heap blocks and which may go bad at any recycle; number of recycles, dispatch to do_write, observers and content are compared with a model after each operation; arrays and discarder the same way.",
    rule="random histories x Log2BufferSpace x first buffer x point of failure x element type; distinct histories counted",
    required_events=["ensure that recycles", "ensure with room", "put", "write of nothing", "write over several buffers", "write that goes bad", "iterator", "fill", "copy of other units", "arrays overflown", "arrays not overflown", "discarded operations", "histories that went bad", "operations when bad"],
)

SPECS["P30"] = dict(
    variants=[dict(name="p30-%d-%s" % (part, c), src=["p30.cpp"], cxx=["clang++", "g++"][(part + i) % 4 == 3], opt="-O0", flags=["-DPART=%d" % part, "-DCH=" + c] + (["-DFASTW"] if c in ("char16_t", "wchar_t") else []), shards=2)
              for part in range(4) for i, c in enumerate(["char", "char16_t", "wchar_t", "char8_t", "char32_t"]) if i in ([0, 1], [0, 2], [0, 3], [0, 4])[part] or (c == "char32_t" and part == 1)],
    technique="runtime monitoring of print calls with user-defined printables and overriders against a reference model, under ASan/UBSan",
    level_note="14 printable_def specialisations and overriders (make_printer or print or both; values, formatted values; by value, by reference, by reference_wrapper, non-copyable, abstract, through an implicit conversion, std::complex; own format specifier with state; facet of its own, constrained) and 5 overriders of own and built-in types; each case printed directly, with every reserve policy, in tr-strings, in joins, in aligned joins, in ranges and measured.",
    rule="random values, formats, charsets and facets x type x way of printing; distinct results counted",
    required_events=["direct", "no_reserve", "reserve", "reserve_calc", "tr", "in-join", "in-aligned-join", "measured", "ranges", "strf::tr", "line"],
)

SPECS["P31"] = dict(
    variants=[dict(name="p31-%d-%s" % (part, c), src=["p31.cpp"], cxx="clang++", opt="-O0", flags=["-DCH=" + c, "-DPART=%d" % part, "-DWHICH=%d" % w], shards=2)
              for part, c, w in [(0, "char", 1), (1, "char", 2), (0, "char16_t", 3), (1, "char16_t", 1), (0, "wchar_t", 2), (1, "wchar_t", 3), (0, "char8_t", 3), (1, "char8_t", 1)]]
             + [dict(name="p31-%s-%s" % (h, c), src=[h + ".cpp"], cxx="clang++", opt="-O0", flags=["-DUSER_CS", "-DCH=" + c] + f, quick_scale=sc / 2, shards=2)
                for h, c, f, sc in [("p13", "char", ["-DPART=1", "-DOC=char16_t"], 0.7), ("p13", "char16_t", ["-DPART=0"], 0.7), ("p14", "wchar_t", [], 0.4), ("p20", "char", [], 0.6), ("p20", "wchar_t", [], 0.6),
                                    ("p21", "char", [], 0.6), ("p21", "char16_t", [], 0.6), ("p23", "char", [], 0.5), ("p23", "wchar_t", [], 0.5), ("p24", "char16_t", [], 0.4)]],
    technique="differential runtime monitoring with user-defined charsets (which check how they are called) under ASan/UBSan",
    level_note="Three variable-length charsets written against the documented requirements (1 to 3 units a character, replacement characters of 1 to 3 units, with and without find_transcoder_from and find_transcoder_to, static and dynamic, for each size of code unit) take the part of the library's charsets in the harnesses of P13, P14, P20, P21, P23 and P24; and what is printed with them is compared with the same printed in UTF-32 and encoded by the reference.",
    rule="random arguments, formats and facets x charset x static or dynamic x way of printing; distinct results counted",
    required_events=["the charset was called", "static", "dynamic", "separator left out", "separator of several units", "replacement characters in tr-strings", "array of just the size", "small buffers", "reserve_calc", "no_reserve", "line", "tr"],
)

SPECS["P32"] = dict(
    variants=[dict(name="p32-%d-%s" % (i, c), src=["p32.cpp"], cxx="clang++", opt="-O0", flags=["-DCH=" + c, "-DPART=%d" % i], shards=3)
              for i, c in [(0, "char"), (3, "char"), (3, "char16_t"), (2, "char"), (2, "char16_t"), (1, "wchar_t"), (2, "char8_t"), (0, "char32_t")]],
    technique="runtime monitoring of random sequences of format functions against a model of the format, under ASan/UBSan",
    level_note="Random sequences of up to eight calls, over every format function and global alias that ints, floats, strings, characters, bool, pointers, joins and ranges have, each called on a temporary, through a const reference or through a reference; after every call what the observers say, of the result and of the original, is compared with the model; at the end the output is compared with that of the model's format set at once.",
    rule="random sequence of calls x kind of reference x value; distinct (sequence, output) counted",
    required_events=["called on a temporary", "called through a const reference", "called through a reference", "called in place", "global function", "format given to another value", "four calls or more", "printed"],
)

# how much of the quick tier's multiplier these take (their cases are many or expensive already)
for _p, _f in dict(P13=0.7, P14=0.5, P15=0.6, P25=0.35, P26=0.4, P28=0.5, P31=0.6).items():
    for _v in SPECS[_p]["variants"]: _v.setdefault("quick_scale", _f)
