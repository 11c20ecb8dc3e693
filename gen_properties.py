#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})
SYM = ["src/sym.rs", "src/sym/helpers.rs", "src/sym/codabar.rs", "src/sym/code11.rs", "src/sym/code128.rs", "src/sym/code39.rs",
       "src/sym/code93.rs", "src/sym/ean13.rs", "src/sym/ean8.rs", "src/sym/ean_supp.rs", "src/sym/tf.rs", "src/sym/upca.rs"]
GEN = ["src/generators/ascii.rs", "src/generators/json.rs", "src/generators/svg.rs", "src/generators/image.rs"]
ALL = SYM + GEN + ["src/error.rs"]
API = ["return value of new/with_checksum/interleaved/standard", "return value of encode", "return value of generate/generate_buffer"]

p("C01", "Concurrent calls do not interfere",
  "Barcode and generator values can be moved to and shared between threads, and any number of threads may construct, encode, render and drop them at the same time. "
  "Whatever the interleaving, every call returns exactly what its own arguments and receiver determine: the outcome the same call has when it is made alone. "
  "No value is changed by being used from several threads.",
  ["schedules", "histories", "inputs"],
  "every interleaving, at the granularity of single memory accesses, of every mix of calls on shared and on separate values by any number of threads",
  "Every existing test is single-threaded: no two calls are ever in flight at once, so no interleaving at all is sampled.",
  ALL, [("no mutable statics, no interior mutability: all values are plain owned data and all tables are constants", "src/sym/*.rs, src/generators/*.rs"),
        ("encode and generate take &self and build fresh buffers", "src/sym/*.rs, src/generators/*.rs")],
  [("barcode contents", "validated digits/characters/units owned by the barcode", "struct fields in src/sym/*.rs")], API)

p("C02", "No call depends on the calls made before it",
  "The outcome of constructing, encoding or rendering is decided by the data, the options and the current public fields given to that call: not by which calls were made earlier in the process or on which thread, whether those succeeded or were rejected, how many there were, or where the operands happen to lie in memory. "
  "Encoding or rendering an unchanged value again gives the same result. "
  "After a public field is changed, the result is that of a fresh value built with the new field.",
  ["histories", "inputs"],
  "every history of earlier calls, accepted and rejected, on every kind of value, with values moved between threads, dropped, rebuilt at the same address and modified through their public fields",
  "Each test makes one or two calls on fresh values and ends; none re-encodes a value, mutates a public field, or makes more than a few calls, so no history of any length is sampled.",
  ALL, [("encode/generate are functions of &self only and keep nothing between calls", "src/sym/*.rs, src/generators/*.rs"),
        ("parse borrows its tables afresh in each call", "src/sym.rs: Parse::parse")],
  [("Code39::checksum, TF and EANSUPP payloads, generator fields", "public fields a caller may change between calls", "src/sym/code39.rs, src/sym/tf.rs, src/sym/ean_supp.rs, src/generators/*.rs")], API)

p("C03", "A call that is cut short leaves no trace",
  "If a call is abandoned part-way, because the caller's input conversion panics or because memory runs out at any one of its allocations, and the program survives that, then every barcode and generator value that existed before is unchanged. "
  "Every later call, on that thread or another, behaves as if the abandoned call had never been made.",
  ["crash_points", "fault_sequences", "histories"],
  "every point inside a call at which it can be abandoned (each input conversion, each allocation), followed by every continuation on the same and on other threads",
  "No test makes a conversion panic or an allocation fail, so nothing is ever abandoned part-way and nothing is ever used afterwards.",
  ALL, [("all work is done in locals that unwinding drops; nothing is published before the call succeeds", "src/sym/*.rs, src/generators/*.rs"),
        ("encode and generate take &self", "src/sym/*.rs, src/generators/*.rs")], (), API)

p("C04", "Running out of memory never yields wrong output",
  "Whichever allocations inside a call fail, the call either fails as a whole (it unwinds, aborts or returns an error) or returns the complete, correct result. "
  "It never returns a truncated, padded or otherwise different barcode, digit sequence, text or image. "
  "The same call succeeds once memory is available again.",
  ["fault_sequences", "crash_points", "inputs"],
  "every choice of failing allocations (one, a run of them, or all from some point on) in every call",
  "Allocation never fails in the tests.",
  ALL, [("infallible Vec/String growth: failure never returns to the encoder", "src/sym/helpers.rs: join_slices, join_iters; src/generators/*.rs"),
        ("encoder errors of the image crate are mapped to Error::Generate and the partial bytes discarded", "src/generators/image.rs: Image::generate")], (), API)

p("C05", "No call ever waits for another thread",
  "A thread that is suspended for ever at any point inside any call does not stop the others. "
  "Every call the other threads make, on the same values or on different ones, completes within a bounded number of its own steps and with the correct result.",
  ["schedules", "crash_points", "fault_sequences"],
  "every point inside every call at which one or more threads may be suspended, and every set of calls by the remaining threads",
  "Liveness under a stalled peer needs a second thread and control of where the first one stops; the tests have neither.",
  ALL, [("no locks, no waiting, no shared mutable state anywhere in the crate", "src/sym/*.rs, src/generators/*.rs")], (), API)

p("C06", "The caller's input is read as one consistent snapshot",
  "Constructors and generators accept any type that converts by reference to text or to binary digits, including one whose content other threads are switching, and one that itself calls back into the library. "
  "The outcome of each call is the outcome for one single content which the conversion returned during that call. "
  "It is never a mixture of two contents, and the library never panics on its own account because the content changed or because it was re-entered.",
  ["schedules", "histories", "fault_sequences"],
  "every sequence of contents returned by successive conversions of one argument, every switching schedule, every re-entrant call made from inside a conversion",
  "The tests pass only string literals and slices, whose conversion always returns the same content and never re-enters the library.",
  ALL, [("each public entry converts its argument once and works on that borrow", "src/sym/*.rs: new/with_checksum/interleaved/standard; src/generators/*.rs: generate, generate_buffer")], (), API)

p("C07", "Calls give back all the memory they take",
  "Once the results and values obtained from finished calls have been dropped, the memory the library still holds does not grow with the number of calls that were made. "
  "This includes calls that were rejected, that were unwound by a panicking input conversion, or that ran out of memory, made from any number of threads.",
  ["histories", "fault_sequences", "schedules"],
  "every history of calls, including abandoned and rejected ones, on any number of threads",
  "The tests do not measure memory, never repeat a call many times and never abandon one.",
  ALL, [("all buffers are owned locals or returned values, freed by their destructors", "src/sym/*.rs, src/generators/*.rs")], (),
  ["live heap bytes at the global allocator"])

p("C08", "A corrupted EAN or UPC number is never accepted",
  "When a complete EAN-13, EAN-8 or UPC-A number (check digit included) is altered in transit without changing its length, constructing a barcode from what arrives succeeds exactly when the arrived text is all digits and its last digit is the check digit of the others; otherwise it fails, with the character error if the text is not all digits and with the checksum error if it is. "
  "A number that arrives unaltered is accepted. "
  "In particular every alteration of exactly one digit is rejected, and so is every swap of two neighbouring digits that do not differ by 0 or 5.",
  ["fault_sequences", "inputs"],
  "every valid number and every sequence of substitutions, swaps and bit flips a channel can apply to it",
  "Three tests try one wrong number each, and one tries a right one; the property ranges over all numbers and all corruptions of them.",
  ["src/sym/ean13.rs", "src/sym/ean8.rs", "src/sym/upca.rs", "src/sym/helpers.rs", "src/sym.rs"],
  [("modulo_10_checksum", "src/sym/helpers.rs"), ("check of the supplied digit in the constructor", "src/sym/ean13.rs, src/sym/ean8.rs, src/sym/upca.rs: new"),
   ("Parse::parse", "src/sym.rs")], (), ["return value of EAN13::new, EAN8::new, UPCA::new"])

p("C09", "A damaged symbol is never misread as other data",
  "The encodings protect the data on their way to a scanner that follows the symbology's published rules. "
  "From an undamaged symbol of any symbology, read in either direction (add-ons EAN-2 and EAN-5: beside their main symbol, so forwards), the scanner recovers exactly the submitted data. "
  "In the symbologies with check characters (EAN-13, EAN-8, UPC-A, EAN-5, Code 11, Code 39 with check character, Code 93, Code 128, and interleaved 2-of-5 of odd data length), if any one symbol character (in interleaved 2-of-5: the bars, or the spaces, that carry one digit) is damaged or replaced by another, the scanner either rejects the symbol or still recovers that same data, never different data. "
  "In those whose characters only check themselves (Codabar, Code 39 without check character, standard 2-of-5, interleaved 2-of-5 of even length), the same holds if any one bar or space that carries data is printed wide instead of narrow or narrow instead of wide. "
  "For Code 128 the sentence about damage is claimed for symbols of up to 100 symbol characters, beyond which the published check character itself repeats its weights; Codabar data here starts and ends with a start or stop letter.",
  ["fault_sequences", "inputs"],
  "every valid data string (damage in Code 128: symbols up to 100 symbol characters), every choice of the damaged symbol character or element, every replacement or flip pattern within it, both reading directions",
  "The tests compare a handful of encodings with recorded bit strings; none reads a symbol back, damaged or not.",
  SYM, [("check characters", "src/sym/helpers.rs: modulo_10_checksum; checksum functions in src/sym/code11.rs, code39.rs, code93.rs, code128.rs"),
        ("character patterns and guards", "constant tables in src/sym/*.rs")], (), ["return value of encode"])

p("C10", "Any surviving scan line of a rendering carries the whole symbol",
  "When a rendering is damaged and only part of it survives, any one complete scan line across the bars that survives still carries every module of the symbol, in order, each exactly the configured number of units wide, bars in the foreground and spaces in the background colour. "
  "A scan line crosses the bars in the direction the configured clockwise rotation gives them: left to right unrotated, top to bottom at 90 degrees, right to left at 180 and bottom to top at 270. "
  "This holds for ASCII text, SVG, image buffers and decoded PNG, GIF and WebP files, for every height, bar width, colour pair and rotation; and the JSON rendering carries the same modules together with its height and bar width.",
  ["fault_sequences", "configurations", "inputs"],
  "every rendering configuration, every set of destroyed scan lines, every surviving line",
  "The image tests check only the byte length of the file (the PNG ones do not even pass); none looks at a pixel, and none damages a rendering.",
  GEN, [("place_pixels", "src/generators/image.rs"), ("generate_row/generate", "src/generators/ascii.rs"), ("rect/generate", "src/generators/svg.rs"), ("generate", "src/generators/json.rs")],
  (), ["return value of generate/generate_buffer"])

p("C11", "Formatting into a failing sink reports the failure",
  "Formatting any error, barcode, generator, colour or rotation value into a sink that fails at any point returns the failure: it never panics and never reports success. "
  "What reached the sink is a prefix of the text a working sink receives, and the value is unchanged and formats completely afterwards. "
  "Each kind of error always has its own fixed message.",
  ["fault_sequences", "crash_points"],
  "every formattable value and every point at which the sink can start to fail, once or for good",
  "No test formats a value at all.",
  ["src/error.rs"] + SYM + GEN, [("Display for Error forwards the result of write!", "src/error.rs"), ("derived Debug implementations", "src/sym/*.rs, src/generators/*.rs")], (),
  ["result of fmt::Write/format machinery and the bytes given to the sink"])

p("C12", "Nothing but the arguments is read, nothing but the result is written",
  "The library performs no input or output of its own: a call opens no file or socket, prints nothing and changes nothing in the process environment. "
  "Its results do not vary with the clock, environment variables or the random seeds of the process, even when those change or misbehave in the middle of a call.",
  ["fault_sequences", "histories", "schedules"],
  "every state and every mid-call change of the clock, environment and entropy source; every call",
  "The tests run under one fixed environment and do not observe what the code under test asks the operating system for.",
  ALL, [("the crate uses only core/alloc facilities (it also builds without std)", "src/lib.rs"),
        ("images are written to an in-memory cursor", "src/generators/image.rs: Image::generate")], (),
  ["libc entry points (open, write, getenv, clock_gettime, getrandom, ...) seen from inside calls"])

p("C13", "Data survives every chain of printing, damage, scanning and typing in again",
  "A text is submitted to a constructor, encoded and rendered in any format, at any size, in any pair of different opaque colours, at any rotation. A scanner that follows the symbology's published rules, crossing the bars along any one surviving line in either direction "
  "(add-ons: forwards), reads exactly the submitted data, check digit included where it is part of the number. What it read is accepted again by the constructor, in whatever way of writing it (Code 128: any choice of character sets), and the symbol printed from it reads the same; "
  "so the data arrives unchanged after any number of stations, whatever other threads are printing meanwhile. A faulty step never passes other data on: an EAN or UPC number in which one digit is mistyped or two neighbours are exchanged is rejected, and a reading with one damaged symbol character "
  "gives the same data or none, in the symbologies with check characters. (Codabar with start or stop characters B or C, or with '+', is outside this statement.)",
  ["fault_sequences", "histories", "inputs", "schedules"],
  "every text of every symbology, every chain of stations with their formats and options, every sequence of faults on the way",
  "No existing test takes a symbol through a rendering back to its data; encoders and renderers are compared with recorded strings one at a time.",
  ALL, [("check digits on construction and encoding", "src/sym/helpers.rs, src/sym/ean13.rs, ean8.rs, upca.rs, tf.rs, code11.rs, code39.rs, code93.rs, code128.rs"),
        ("renderers copy the module sequence row by row", "src/generators/*.rs")], (),
  API + ["data read by the reference scanner from one line of each rendering"])

# Pure functions of their input: not targets of this technique.
p("C20", "EAN-13, EAN-8, UPC-A, EAN-2 and EAN-5 follow their specification",
  "For every valid number, the encoding is the module sequence the GS1 specification prescribes: guards, number sets chosen by the leading or check digit, digit patterns and check digit.",
  ["inputs"], "all valid numbers of each type", "A few numbers per type are compared with recorded strings.",
  ["src/sym/ean13.rs", "src/sym/ean8.rs", "src/sym/upca.rs", "src/sym/ean_supp.rs", "src/sym/helpers.rs"],
  [("encode", "src/sym/ean13.rs, ean8.rs, upca.rs, ean_supp.rs")], (), ["return value of encode"])
p("C21", "Codabar, Code 11, Code 39, Code 93 and 2-of-5 follow their specification",
  "For every valid string, the encoding is the start pattern, the patterns of the characters in order with their gaps, the prescribed check characters, and the stop pattern.",
  ["inputs"], "all valid strings up to the maximum length", "A few strings per type are compared with recorded strings.",
  ["src/sym/codabar.rs", "src/sym/code11.rs", "src/sym/code39.rs", "src/sym/code93.rs", "src/sym/tf.rs"],
  [("encode", "src/sym/codabar.rs, code11.rs, code39.rs, code93.rs, tf.rs")], (), ["return value of encode"])
p("C22", "Code 128 follows its specification in every character set",
  "For every accepted string, the encoding is the start character, the symbol characters of the data in order in the character sets in force, the modulo-103 check character and the stop pattern; a string that cannot be expressed so is rejected.",
  ["inputs"], "all strings over the three character sets, their switches and function characters", "Six strings are compared with recorded encodings.",
  ["src/sym/code128.rs"], [("parse, checksum_value, encode", "src/sym/code128.rs")], (), ["return value of Code128::new and encode"])
p("C23", "Constructors accept exactly the valid data and name the reason otherwise",
  "A constructor succeeds exactly when the data has an allowed length, consists of allowed characters and carries a consistent check digit where one is supplied; otherwise it returns the length, character or checksum error, in that order of precedence.",
  ["inputs"], "all strings", "One bad length and one bad character per type are tried.",
  SYM, [("Parse::parse", "src/sym.rs"), ("new", "src/sym/*.rs")], (), ["return value of the constructors"])
p("C24", "All renderings of one symbol agree",
  "For the same digits, height, bar width, colours and rotation, every output format describes the same rectangle of bars, exactly the configured size, and an output that cannot be produced in the chosen format is reported as a generation error.",
  ["inputs", "configurations"], "all digit sequences and rendering options", "Sizes or recorded strings of a few outputs are compared.",
  GEN, [("generate, generate_buffer", "src/generators/*.rs")], (), ["return value of generate/generate_buffer"])
p("C25", "No data makes the library panic",
  "Construction, encoding and rendering return for every data string, every sequence of binary digits and every option value whose output fits in memory, in builds with and without overflow checks, and never panic.",
  ["inputs", "configurations"], "all strings and options", "Only short ordinary data is tried.",
  ALL, [("checked parsing before indexing", "src/sym.rs"), ("Result return types", "src/sym/*.rs, src/generators/*.rs")], (), API)
p("C26", "Builds with and without the standard library give the same results",
  "Every feature combination compiles, and a call that exists in two of them returns the same result in both.",
  ["configurations", "inputs"], "all feature combinations and inputs", "The tests run with all features on only; the build without std is never made.",
  ["src/lib.rs", "src/sym/helpers.rs", "src/generators.rs"], [("cfg(feature = \"std\") imports", "src/lib.rs, src/sym/helpers.rs, src/generators/*.rs")], (), API)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
