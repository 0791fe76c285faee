#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate that file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechs, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechs]}
    if observe: a["observe_at"] = observe if isinstance(observe, list) else [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
I = "include/strf/"
D = I + "detail/"
PT = D + "printable_types/"
FC = D + "facets/"

p("P01", "Array destinations: never out of bounds, always properly ended",
  "Printing to a character array (to, to_range, basic_cstr_destination, array_destination) never reads or writes outside the array, leaves in it a prefix of the complete output - the complete output itself when it fits - and, for to(...) and basic_cstr_destination, a terminating '\\0' right after it. result.ptr points at that '\\0' (to_range/array_destination: one past the last character) and result.truncated is true exactly when the complete output (plus '\\0', for C strings) does not fit. After the array overflows, good() is false for good, further output of any size, recycle(), ensure(), write() and finish() have no effect on the array.",
  ["inputs", "histories"],
  "every array size from 1 (0 for ranges) up, every char type, every argument list, and every sequence of put/write/ensure/recycle/flush/finish calls on the destination object",
  "The tests use a few sizes with one overflow each; the claim is over all sizes x all operation histories, and an out-of-bounds write of one element goes unnoticed without a memory monitor.",
  [I + "destination.hpp", D + "format_functions.hpp", I + "iterator.hpp"],
  [("basic_cstr_destination", I + "destination.hpp"), ("array_destination", I + "destination.hpp"), ("garbage_buff", I + "destination.hpp")],
  "the array with guard bytes/ASan redzones on both sides and the result object")
p("P02", "Output is independent of the destination and of buffer boundaries",
  "For any arguments and facets, the characters received by the destination are the same whatever the destination is (string, array, range, FILE*, streambuf, user-defined output_buffer) and however its internal buffer happens to be cut into pieces. No printer ever writes beyond buffer_end() or behind the position where the last recycle() left the buffer pointer, and once a destination turned not good no printer crashes, loops or writes out of the buffer.",
  ["inputs", "histories"],
  "every printable argument, every buffer capacity not below the guaranteed minimum, every starting offset in the buffer, every point at which the destination goes bad",
  "Unit tests print each value through two or three buffer layouts; a wrong space check only shows when the buffer runs out inside one particular piece of output.",
  [I + "destination.hpp", PT + "int.hpp", PT + "float.hpp", PT + "string.hpp", PT + "char.hpp", PT + "join.hpp", PT + "range.hpp", D + "printing_helpers.hpp", D + "tr_printer.hpp"],
  [("output_buffer::ensure / recycle", I + "destination.hpp"), ("write_fill, write_int_*, print_amplified_integer_*", D + "int_digits.hpp")],
  "a user-defined destination whose buffers are exact-size heap blocks under ASan, recording every piece handed over")
p("P03", "String destinations deliver, append or assign exactly the printed text",
  "strf::to_basic_string (to_string, to_u16string, ...) returns exactly the printed text, strf::append(str) leaves the old content followed by the printed text and strf::assign(str) leaves only the printed text, for every string type with any traits and allocator, and whatever reserve policy is used. This holds for every history of write/ensure/recycle/finish/put on basic_string_maker, basic_sized_string_maker and basic_string_appender. When the allocator throws, the exception propagates, nothing leaks and the destination object and an appended-to string can still be destroyed and used.",
  ["inputs", "histories", "fault_sequences"],
  "every output length around the buffer and small-string limits, every piece size, every operation history, every failing allocation",
  "The tests never make an allocation fail and exercise a handful of lengths.",
  [I + "to_string.hpp", D + "reserve_policies.hpp"],
  [("basic_string_maker", I + "to_string.hpp"), ("basic_string_appender", I + "to_string.hpp"), ("basic_sized_string_maker", I + "to_string.hpp")],
  "returned/target strings against a model string; a counting and failing allocator")
p("P04", "FILE* and streambuf writers report exactly what the sink received",
  "Printing to a FILE*, wide FILE* or std::streambuf delivers to the sink a prefix of the printed text - all of it when the sink accepts everything - and result.count is the number of characters the sink accepted, result.success is true exactly when everything was accepted. After the sink fails nothing more is sent to it, good() stays false, and destroying an unfinished writer still delivers what it had buffered. ",
  ["inputs", "histories", "fault_sequences"],
  "every output, every history of put/write/ensure/recycle/finish/destruction, every position at which the sink starts to accept less or throws",
  "Tests use sinks that fail at two or three positions; the claim is over all failure points combined with all operation histories.",
  [I + "to_cfile.hpp", I + "to_streambuf.hpp"],
  [("narrow_cfile_writer", I + "to_cfile.hpp"), ("wide_cfile_writer", I + "to_cfile.hpp"), ("basic_streambuf_writer", I + "to_streambuf.hpp")],
  "sinks (fopencookie FILE*, std::streambuf subclasses) that record and limit what they accept")
p("P05", "Size pre-calculation and reserve policies never change or undersize output",
  "Printing with reserve_calc(), reserve(n) or no_reserve() (in any syntax: operator(), line, tr, trline) compiles for every destination that supports it and produces identical output. The size that premeasurements/precalculated size announce for given arguments and facets is never smaller than the number of characters printed, and a width premeasurement equals the width of the printed text, limited by the remaining width. The accumulators themselves (premeasurements, size_accumulator, width_accumulator, whatever they are asked to measure) follow their documented formulas for every sequence of operations, saturating and with limits included.",
  ["inputs", "configurations"],
  "every printable argument and format, every facet set, every destination and every syntax",
  "An undersized pre-calculation overruns the caller's buffer only for the arguments that hit the wrong branch; tests check it for the values they print.",
  [D + "reserve_policies.hpp", D + "premeasurements.hpp", I + "measure.hpp", PT + "int.hpp", PT + "float.hpp", PT + "string.hpp", PT + "range.hpp", PT + "join.hpp", D + "tr_printer.hpp"],
  [("premeasurements / width_accumulator", D + "premeasurements.hpp"), ("measure", I + "measure.hpp"), ("reserve policies", D + "reserve_policies.hpp")],
  "sizes passed to a recording destination creator; strf::measure results; printed text")
p("P06", "Integers print exactly their value in the requested base and format",
  "Every integer of every built-in integer type prints, in base 2, 8, 10 or 16, the digits of its mathematical value (negative decimals with '-'; other bases as the two's complement unsigned value), left-padded with zeros to precision(n) digits or to a pad0(n) total width, with base prefix under operator*, sign under operator+ or filled space under operator~ (decimal, signed types) and the configured letter case. bool prints true/false and const void* prints a hexadecimal address with prefix. Padding, prefix and sign are combined in the documented order for every combination of flags.",
  ["inputs"],
  "all values of all integer types x base x precision x pad0 x sign/prefix flags x alignment x letter case x character type",
  "Tests enumerate some powers and boundary values; digit-count and flag combinations are far too many.",
  [PT + "int.hpp", D + "int_digits.hpp", PT + "bool.hpp", FC + "lettercase.hpp"],
  [("int_printing", PT + "int.hpp"), ("write_int / count_digits", D + "int_digits.hpp")],
  "printed text against an independent digit generator")
p("P07", "Digit grouping follows the numpunct facet exactly",
  "With operator! a number's integral digits are separated exactly where the digits_grouping says (groups from the least significant; last group repeated unless ended by -1), with that facet's thousands separator and decimal point encoded in the destination charset - or without separators when it cannot be encoded - for any number of digits in every base. separators_count, any_separator, distribute, the grouping iterator, digits_grouping_creator and every way of constructing a digits_grouping agree with each other and with the printed result.",
  ["inputs", "configurations"],
  "every grouping of up to 6 groups of 1..31 (repeated or final), every digit count, base, separator code point, charset, sign/prefix/pad/precision combination",
  "There are billions of groupings; tests use about a dozen.",
  [FC + "numpunct.hpp", PT + "int.hpp", PT + "float.hpp", D + "int_digits.hpp"],
  [("digits_grouping", FC + "numpunct.hpp"), ("print_amplified_integer_*_with_punct", D + "int_digits.hpp")],
  "printed text and API results against a reference grouping on decimal strings")
p("P08", "Floats without precision print the shortest exact round-trip digits",
  "Without precision, fixed, sci and general formats print the shortest digit sequence that reads back to the very same float or double (among those, the closest to the value), in the notation requested, with sign including -0. Nothing depends on the magnitude: subnormals, powers of two, the largest values and integers beyond 2^53 included.",
  ["inputs"],
  "all 2^32 float and 2^64 double bit patterns x notation x flags",
  "Shortest-digit algorithms fail on isolated values; tests check a few dozen.",
  [PT + "float.hpp", D + "dragonbox.hpp"],
  [("dragonbox to_decimal", D + "dragonbox.hpp"), ("float printers", PT + "float.hpp")],
  "printed text parsed back with strtod/strtof and compared with std::to_chars digits")
p("P09", "Floats with precision: shortest digits rounded half-even, laid out as printf",
  "With precision(n), fixed, sci and general formats print the value's shortest round-trip decimal rounded to the requested number of digits (to nearest, ties to even) in the layout of printf's %.*f, %.*e and %.*g: for general, notation chosen by the exponent after rounding and trailing zeros removed unless operator* is used. This holds for any n, zeros being appended beyond the available digits.",
  ["inputs"],
  "all finite doubles and floats x precision 0..1100 x notation x flags",
  "Rounding errors need ties and carry chains at a specific precision.",
  [PT + "float.hpp", D + "dragonbox.hpp"],
  [("float precision / rounding", PT + "float.hpp")],
  "printed text against reference rounding of std::to_chars digits")
p("P10", "Hexadecimal floats denote exactly the value, like printf %a",
  "The hex float format without precision prints exactly what printf's %a prints for the value (letter case per lettercase facet), including subnormals and zero; with precision(n) it prints the value correctly rounded (ties to even) to n hexadecimal digits after the point, and reading the text back gives the value itself without precision.",
  ["inputs"],
  "all doubles and floats x precision x flags x letter case",
  "Subnormal normalisation and rounding carry appear only for particular mantissas and precisions.",
  [PT + "float.hpp"],
  [("hex float printing", PT + "float.hpp")],
  "printed text against %a and strtod")
p("P11", "Float flags: sign, showpoint, pad0, inf/nan, letter case and punctuation compose",
  "For every float value, notation and combination of +, ~, *, !, pad0, precision, alignment and letter case, the text is the plain number's text with exactly the requested modifications: sign or filled blank first, zeros inserted after the sign up to the pad0 width, forced decimal point, integral digits grouped and decimal point replaced by the numpunct facet, and nan/inf spelled per letter case with pad0 only as a minimum width.",
  ["inputs", "configurations"],
  "all values x 5 notations x all flag combinations x numpunct x char type",
  "The combination space is the product of a dozen flags; tests sample tens of points.",
  [PT + "float.hpp", FC + "lettercase.hpp", FC + "numpunct.hpp"],
  [("punct_double_printer, float_init_*", PT + "float.hpp")],
  "printed text against composition of an independently obtained digit string")
p("P12", "Alignment: fill is exact and on the right side, whatever is aligned",
  "For every alignable argument (strings, chars, integers, floats, bools, pointers, joins), with >, < or ^ and width w, the text is the unaligned text plus exactly (w - its width, rounded) fill characters (none when it is not positive): all left, all right, or split with half (rounded down) on the left. The fill character may be any Unicode code point, is encoded in the destination charset and counts as one column.",
  ["inputs", "configurations"],
  "every argument type x content x width (including fractional, negative, maximal) x alignment x fill x charset x width calculator",
  "Fill counts around buffer sizes and multi-unit fills interact; tests use small widths.",
  [D + "printing_helpers.hpp", PT + "string.hpp", PT + "int.hpp", PT + "float.hpp", PT + "char.hpp", PT + "bool.hpp", PT + "join.hpp"],
  [("alignment formatting", D + "value_and_format.hpp"), ("write_fill", FC + "charset.hpp")],
  "printed text against unaligned text and reference arithmetic")
p("P13", "Strings print verbatim, cut by width, or transcoded as requested",
  "A string argument prints its own code units unchanged; with precision(w) exactly its longest prefix whose width (by the width calculator facet) does not exceed w; with sani/transcode/unsafe_transcode or a charset argument the conversion of that text into the destination charset. Any string type (pointer, array, std::basic_string, string_view, own view types) and length, including empty, prints the same, and embedded nulls are kept where the length is known.",
  ["inputs", "configurations"],
  "every string, string type, char type, precision, source/destination charset, surrogate policy and width calculator",
  "Tests print a dozen short strings.",
  [PT + "string.hpp", D + "simple_string_view.hpp", FC + "charset.hpp", FC + "width_calculator.hpp"],
  [("strcpy_printer, transcode_printer and aligned variants", PT + "string.hpp")],
  "printed text against reference prefix/transcode functions")
p("P14", "Characters print as their code unit or code point, any number of times",
  "A CharT argument prints itself, a char32_t argument prints the encoding of that code point in the destination charset (the replacement character when it has none), and multi(n) prints it n times (nothing for n <= 0), with alignment applied to the total width.",
  ["inputs", "configurations"],
  "every code point x count 0..huge x charset x char type x alignment",
  "Counts beyond the buffer size and invalid code points are untested combinations.",
  [PT + "char.hpp", FC + "charset.hpp"],
  [("char_printer, fmt_char_printer, fmt_cv_printer", PT + "char.hpp")],
  "printed text against reference encoder")
p("P15", "Ranges print every element once, in order, formatted and separated",
  "range, separated_range and their formatted and transforming variants print each element of the range exactly once, in order, each as if printed alone with the range's format, with the separator exactly between elements (none before the first or after the last, nothing for an empty range). This holds for any container, iterator pair or array, single-pass iteration apart, and inside join, with(...), tr-strings and reserve_calc.",
  ["inputs"],
  "every range length and element type x format x separator x transformation x context",
  "Tests use ranges of a few ints.",
  [PT + "range.hpp"],
  [("range_printer, separated_range_printer, fmt_*, transforming", PT + "range.hpp")],
  "printed text against per-element printing")
p("P16", "Joins print their arguments as one unit, nested and aligned",
  "strf::join(args...) prints the concatenation of its arguments' texts; an aligned join (operator <,>,^ or join_left/right/center) pads that concatenation as one unit whose width is the sum of its arguments' widths (saturating), to any nesting depth and with any facets in scope.",
  ["inputs"],
  "every argument list, nesting, alignment, width and fill",
  "Nesting and saturation of widths are not sampled.",
  [PT + "join.hpp", D + "printers_tuple.hpp", D + "premeasurements.hpp"],
  [("join_printer_impl", PT + "join.hpp")],
  "printed text against concatenation of the parts")
p("P17", "Tr-strings: every template means what the grammar says, safely",
  "For any tr-string and any arguments, .tr()/trline()/strf::tr print the text with {{ as a brace, {-...} removed, {n...} replaced by argument n, {} and {text} by the next argument, and each missing argument replaced by the charset's replacement character; no template, however malformed, causes reads or writes out of bounds. The tr_error_notifier is called once per missing argument, in order, with the whole template and the position of that brace, and never otherwise.",
  ["inputs"],
  "all template strings (including unterminated, huge indices, nested braces, non-ASCII and any char type) x argument counts",
  "The parser is an unbounded-input state machine; tests feed about fifty templates.",
  [D + "tr_printer.hpp", PT + "tr_string.hpp", D + "separate_args_and_print.hpp", D + "reserve_policies.hpp"],
  [("tr_string_write / tr_string_size", D + "tr_printer.hpp")],
  "printed text and notifier calls against an independent parser")
p("P18", "Facets apply exactly where and to what they are declared",
  "A facet passed with with(...) / pack / inner strf::with affects exactly the arguments in its scope, inner scopes override outer ones, among several of one category the last one given wins, a constrained facet affects only argument types that satisfy its filter, and categories not given keep their default. Facet scope never leaks to neighbouring arguments or later prints.",
  ["programs", "configurations"],
  "every nesting of packs, constrained facets and facet categories x argument type",
  "Overload resolution across packs is combinatorial; tests cover a few stacks.",
  [I + "facets_pack.hpp", PT + "facets_pack.hpp", D + "format_functions.hpp", I + "printing_syntax.hpp"],
  [("facets_pack / get_facet", I + "facets_pack.hpp"), ("inner_pack_with_args", PT + "facets_pack.hpp")],
  "printed text against a scope model")
p("P19", "UTF-8/16/32 transcoding agrees with Unicode for every input",
  "Converting any code unit sequence between UTF-8, UTF-16 and UTF-32 (and sanitizing within one of them) yields the encoding of the same code points, with each maximal ill-formed subsequence (as Unicode recommends) replaced by exactly one U+FFFD, surrogates accepted instead under transcode_flags::lax_surrogate_policy. Nothing is read beyond the source or written beyond the destination limits, for any alignment of the input with internal blocks.",
  ["inputs", "configurations"],
  "all byte/unit sequences of all lengths x the 9 pairs x surrogate policy",
  "Malformed sequences are infinite and tests list a few dozen.",
  [D + "utf.hpp", FC + "charset.hpp"],
  [("utf8/utf16/utf32 transcoders", D + "utf.hpp")],
  "output against an independent decoder/encoder; exact-size buffers under ASan")
p("P20", "Transcoding reports where and why it stopped, and can be resumed there",
  "For every transcoder, source and destination size, the result says completed, insufficient_output_space, invalid_sequence or unsupported_codepoint truthfully, dst_ptr is the end of complete output characters that encode exactly the source up to src_ptr, and no partial character is written. stop_on_* flags stop exactly at the first offending sequence or code point, the notifier is called exactly once for each invalid sequence / unsupported code point converted (and at most once for the one where output space ran out), in order, with its exact bytes or code point and charset name, and resuming from (src_ptr, more space) gives in total the one-shot output.",
  ["inputs", "histories"],
  "every source x charset pair x destination size 0..n x flags x split points",
  "Each destination size cuts the source at a different place; tests try few.",
  [D + "utf.hpp", D + "single_byte_charsets.hpp", FC + "charset.hpp"],
  [("transcode_result / transcode_stop_reason", FC + "charset.hpp"), ("transcode functions", D + "utf.hpp")],
  "result struct, buffers, recorded notifier calls")
p("P21", "All transcoding routes agree: size, unsafe, via UTF-32, dynamic, streamed",
  "transcode_size predicts exactly the length (and stop position and reason) of transcode on the same source and limit; unsafe variants agree with the safe ones on valid input; going through UTF-32 (decode_encode) agrees with the direct transcoder, dynamic charsets and transcoders with the static ones, and transcoding into a destination object with transcoding into a plain buffer. find_transcoder finds one exactly for the pairs the library says it supports, for either static or dynamic charsets.",
  ["inputs", "configurations"],
  "every source, every charset pair, all flags and limits",
  "Equivalences over all inputs and pairs (about 900) cannot be sampled by examples.",
  [D + "utf.hpp", D + "single_byte_charsets.hpp", FC + "charset.hpp"],
  [("transcode_size", D + "utf.hpp"), ("decode_encode", FC + "charset.hpp"), ("dynamic_charset", FC + "charset.hpp")],
  "results of the alternative routes against one another")
p("P22", "Single-byte charsets map exactly as the standards define",
  "For each supported single-byte charset (ASCII, ISO-8859-x, Windows-125x), every byte decodes to the code point its standard assigns or is an invalid sequence when unassigned, and every code point encodes to that byte or is unsupported ('?'), so decode and encode are inverse; U+FFFD stands for the replacement character and is encoded as '?'.",
  ["inputs"],
  "all 256 bytes and all 0x110000 code points of every charset",
  "The tables have thousands of entries; some tests check ranges per charset, none checks against an outside authority nor in long mixed strings.",
  [D + "single_byte_charsets.hpp"],
  [("single_byte_charset, encode/decode tables", D + "single_byte_charsets.hpp")],
  "decode/encode results against published tables")
p("P23", "Charset character functions agree with one another",
  "In every charset, static or dynamic, encoded_char_size, validate, encode_char and encode_fill agree on how many units a code point takes and write exactly those units (the replacement character's for code points the charset lacks); decode_unit, count_codepoints and count_codepoints_fast agree with decoding, stopping at the given maximum, and replacement_char_size with write_replacement_char; id and name identify the charset.",
  ["inputs", "configurations"],
  "every code point x charset x count; every string for the counting functions",
  "All code points x all charsets is outside what examples cover.",
  [FC + "charset.hpp", D + "utf.hpp", D + "single_byte_charsets.hpp"],
  [("charset API", FC + "charset.hpp")],
  "function results against reference encoder")
p("P24", "Width calculators measure and cut text as documented",
  "fast_width counts code units, width_as_u32len and width_as_fast_u32len count code points, and std_width_calc counts, per grapheme cluster, the width (1 or 2) that std::format assigns to the cluster's first code point. char_width, str_width and str_width_and_pos agree: str_width is the true width limited by the given limit, and str_width_and_pos returns the longest prefix whose width does not exceed the limit, never cutting inside a cluster or encoded character (fast_width, whose unit is the code unit, may), for any string, charset, and limit.",
  ["inputs", "configurations"],
  "every string and limit (fractional, negative, zero, saturated) x charset",
  "Grapheme segmentation is a state machine over all code points; tests check some sequences.",
  [FC + "width_calculator.hpp", D + "ch32_width_and_gcb_prop", I + "width_t.hpp"],
  [("std_width_calc", FC + "width_calculator.hpp"), ("width_as_u32len", FC + "width_calculator.hpp")],
  "calculator results against UAX #29 segmentation from an independent Unicode database")
p("P25", "width_t is exact saturating fixed-point arithmetic",
  "width_t behaves as a Q16.16 fixed-point number. Construction and sat_cast from integers saturate; comparisons between widths, with int16_t, and compare() with integers of any size are those of the rational values; floor, ceil and round (half toward zero) are exact; sat_add, sat_sub, sat_mul (with widths and with integers of any size), * and *= give the exact result, with products truncated toward zero, or width_max/width_min when it is out of range, instead of wrapping; +, - and / (truncated toward zero) give it when it is in range; a _w literal is the nearest representable value. None of these operations has undefined behaviour then.",
  ["inputs"],
  "all pairs of 32-bit underlying values, and of them and integers of 8, 16, 32 and 64 bits; every decimal literal up to 32767.99998",
  "2^64 operand pairs; errors sit at the boundaries.",
  [I + "width_t.hpp"],
  [("width_t operators", I + "width_t.hpp")],
  "results against 128-bit integer reference")
p("P26", "locale_numpunct reflects the C locale for any lconv contents",
  "locale_numpunct() returns the decimal point, thousands separator and grouping that localeconv() describes, decoded by the locale's charset, with the documented fallbacks when a string is empty, longer than one character or not decodable, and never reads out of the lconv strings.",
  ["inputs", "configurations"],
  "any lconv contents and codeset name, including malformed ones",
  "Tests see two installed locales.",
  [I + "locale.hpp", FC + "numpunct.hpp"],
  [("make_numpunct / decode helpers", I + "locale.hpp")],
  "returned facet with interposed localeconv and nl_langinfo")
p("P27", "Printing from several threads has no data races and no interference",
  "Threads that print concurrently to distinct destinations - sharing charsets, facets packs, string arguments, numpunct objects and tr-strings read-only - never race and each gets exactly the text it would get alone.",
  ["schedules"],
  "every interleaving of printing calls of any kind on distinct destinations",
  "The tests are single threaded.",
  [I + "destination.hpp", D + "utf.hpp", D + "single_byte_charsets.hpp", FC + "charset.hpp", I + "facets_pack.hpp", I + "locale.hpp"],
  [("shared static data (tables, garbage_buff, static transcoders)", I + "destination.hpp")],
  "ThreadSanitizer reports and per-thread outputs")
p("P28", "Every supported build configuration prints the same",
  "Header-only and separately compiled (STRF_SEPARATE_COMPILATION) builds, in C++14, C++17 and C++20, with gcc and clang, at any optimisation level, all compile the documented API and print byte-identical output for the same program.",
  ["programs", "configurations"],
  "every program printing through the public API x build configuration",
  "The suite is run in one configuration at a time and never compares outputs between two.",
  ["include/strf.hpp", "src/strf.cpp", D + "strf_def.hpp", D + "standard_lib_functions.hpp", D + "int_digits.hpp", PT + "float.hpp", D + "dragonbox.hpp"],
  [("STRF_FUNC_IMPL / STRF_OMIT_IMPL / STRF_CONSTEXPR_* configuration macros", D + "strf_def.hpp")],
  "output digests of the same workload built in each configuration")
p("P29", "The output_buffer contract holds for every destination and helper",
  "For any output_buffer, ensure(n) leaves at least n units of room, recycle() at least min_space_after_recycle, write(p,n) and put(c) append exactly those units in order (nothing for n <= 0), good() never returns from false to true, and iterators, write/put helpers and output_buffer_functions behave as the equivalent sequence of puts. discarded output goes nowhere: a discarder is never good and accepts any amount.",
  ["histories"],
  "every sequence of ensure/write/put/advance/recycle/flush/fill operations x destination type x buffer size",
  "Histories are unbounded; tests run fixed short ones.",
  [I + "destination.hpp", I + "iterator.hpp", I + "output_buffer_functions.hpp"],
  [("output_buffer<T, Log2>", I + "destination.hpp"), ("output_iterator", I + "iterator.hpp")],
  "content received by recording destinations against a model")

p("P30", "User-defined printables and overriders print what they define, however printed",
  "For a type with a printable_def that follows the documented requirements (make_printer, print, or both; with or without formats, forwarded by value, reference or reference_wrapper) the text printed is the one the printable_def defines for that value, formats and facets, whether it is printed directly, as a formatted value, in a tr-string, a join, an aligned join, a range or a reserve_calc string; every format set on it arrives there; sizes and widths are those its make_printer announces; no copy of a value forwarded by reference is made. An overrider facet in the pack replaces the printable_def of exactly the overridable types whose representative it names (and only where the pack and its constraint apply); other types are not affected.",
  ["values", "interfaces"],
  "every value and format of user-defined types x way of printing x destination x facet pack",
  "Any type can be made printable; the tests and examples print some values of some types directly.",
  [I + "detail/printable_def.hpp", I + "detail/printing_helpers.hpp"],
  [("printable_def, make_printer, fmt", I + "detail/printable_def.hpp"), ("printing helpers", I + "detail/printing_helpers.hpp")],
  "reference text and width composed from the definitions")

p("P31", "Charsets of the user's own work wherever the library's do",
  "A static_charset, static_transcoder or dynamic_charset_data written by the user as docs/ref_charset.adoc requires - with characters of several units, any replacement character, with or without find_transcoder_from and find_transcoder_to, static or dynamic - can be used wherever the library's charsets can: what is printed with it is what is printed in UTF-32, encoded in it (characters it lacks replaced by its replacement character, separators it lacks left out), announced sizes are never too small, and strings in it are decoded, sanitized, measured and cut by the same rules. Its functions are called within their contracts, find_transcoder gives what it offers, and where it offers nothing text goes through UTF-32 with the same results, positions and notifications.",
  ["values", "interfaces", "configurations"],
  "every charset that meets the requirements x every printable, format and facet x every other charset",
  "Anyone can define charsets; the tests define none, so that nothing but single-byte charsets and UTF is ever printed with or transcoded.",
  [I + "detail/facets/charset.hpp", I + "detail/printable_types/string.hpp", I + "detail/tr_printer.hpp"],
  [("find_transcoder and transcoder_finder", I + "detail/facets/charset.hpp"), ("transcode, decode_encode", I + "detail/facets/charset.hpp"), ("char printers", I + "detail/printable_types/char.hpp")],
  "text, sizes, positions and notifications against a reference mapping; contracts checked by the charset itself")

p("P32", "Format functions set exactly what they say, in any order, the last call wins",
  "Whatever format functions are applied to a value (alignment, fill, base, precision, pad0, sign, base prefix, punctuation, notation, transcoding, multi, the set_* functions and the global functions that are aliases of them), in whatever order and number, the format that results is the default one with each call's own options replaced and nothing else changed: the observers (get_int_format, get_float_format, get_alignment_format, width, fill, alignment, count, base, float_notation, precision, has_charset...) say so after every call, and the value is printed as with that format set at once. Calls through a const reference leave the original as it was; fmt() of a formatted value is that formatted value; a value_and_format constructed from another value and a formatted value has the latter's format.",
  ["values", "interfaces"],
  "every sequence of format functions x every formattable type x kind of reference",
  "The result of each call is of another type, with constructors that carry every other option over; the tests use one or two orders of each option.",
  [I + "detail/format_functions.hpp", I + "detail/value_and_format.hpp", I + "detail/printable_types/int.hpp", I + "detail/printable_types/float.hpp", I + "detail/printable_types/string.hpp"],
  [("alignment_format_specifier_fn", I + "detail/format_functions.hpp"), ("value_and_format", I + "detail/value_and_format.hpp"), ("int_format_specifier_*_fn", I + "detail/printable_types/int.hpp"), ("*float_format_specifier_*_fn", I + "detail/printable_types/float.hpp"), ("transcoding_format_specifier_fn", I + "detail/printable_types/string.hpp")],
  "observers after every call, and the output, against a model of the format")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        for fn in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + fn): print("no such file", x["id"], fn)
        for m in x["anchors"]["mechanism"]:
            fn = m["where"]
            if not os.path.exists("/repo/" + fn): print("no such file", x["id"], fn)
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
