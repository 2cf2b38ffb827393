"""What each check runs, and the bounds it claims."""
CRATES = ["rt", "tv", "comp"]
PROPS = {
    "C01": {
        "crates": [("rt", "c01")],
        "what": "Oracle: positional notation over the buffer bytes.",
        "bounds": "regions of 1..8 bytes in a 10 byte buffer, every byte and value symbolic; u8..u64, i8..i64, f32, f64, bool; "
                  "value codecs on every input length 0..9",
    },
    "C02": {
        "crates": [("rt", "c02")],
        "what": "Oracle: shift and mask of the surrounding buffer as one 128-bit number.",
        "bounds": "every (byte order, offset 0..7, width 1..63) whose span fits 8 bytes, natural carrier and region (quick: "
                  "a quarter of, thorough: all of the 64-bit carriers and carrier-wide regions as well), one byte of context on each side; all bytes and values symbolic",
    },
}
PROPS["C05"] = {
    "crates": [("tv", "c05")],
    "what": "Translation validation of the accessors the real compiler generates on this run. Oracle: shift and mask of the buffer as one number.",
    "bounds": "one unsigned field at every (byte order, bit offset 0..7, width 1..64) spanning at most 8 bytes, surrounded by other fields; all "
              "buffer bytes and values symbolic",
}
PROPS["C06"] = {
    "crates": [("tv", "c06")],
    "what": "Translation validation of the accessors the real compiler generates on this run. Oracle: sign extension, non-zero test, declared "
            "variant table, bit pattern.",
    "bounds": "signed fields of every width 1..64 at bit offsets 0, 3, 6 (thorough: 0..7), 16 boolean and 4 float shapes, 5 enums (holes, no zero, above 2^32) at "
              "up to 20 shapes each, in both byte orders; all buffer bytes and values symbolic",
}
PROPS["C03"] = {
    "crates": [("rt", "c03"), ("tv", "c03")],
    "what": "Array codec of the runtime, and the array accessors the real compiler generates on this run. Oracle: the bytes of slot i in the "
            "declared order.",
    "bounds": "items of 1..8 bytes (unsigned), native widths (signed, float), both byte orders, regions of 0..5 items in a 34 byte buffer, any "
              "index below 2^60 including out of range ones; generated arrays of 2 and 3 items",
}

CORPUS = ("15 messages (schemas/m.json5, u.json5: every scalar width, structures, NUL-terminated and 1/2/4/8-byte-prefixed strings, optional array and message, "
          "nested messages, arrays, trailing and embedded lists, lists of lists, unions on plain, nested signed and multi-byte discriminants, payload) "
          "in both byte orders; strings up to 3 bytes, arrays and lists up to 2 items, every value and byte symbolic; every presence, count, length and case is a query of its own in thorough runs (quick: 2 to 9 of them per message)")
PROPS["C10"] = {
    "crates": [("tv", "c10")],
    "what": "The writers the real compiler generates on this run. Oracle: an encoding written by hand from the declared format.",
    "bounds": CORPUS,
}

DECODE = "The readers the real compiler generates on this run, on "
PROPS["C08"] = {
    "crates": [("tv", "c08")],
    "what": DECODE + "every input of bounded length. Oracle: no panic, overflow, out of bounds access or endless loop, size at most the input length.",
    "bounds": "decoders of 15 messages in both byte orders on every input of 0..14 bytes (0..30 for the message of scalars, 0..10 for the messages with lists of messages); quick: "
              "of 0, 1, 2, 3, 5, 8, 13 bytes, 13 lengths up to 30, and 0, 1, 3, 5, 7 bytes in turn; the two largest messages in little endian",
}
PROPS["C09"] = {
    "crates": [("tv", "c09")],
    "what": "The generated writers, then the generated readers on the bytes written. Oracle: the value written.",
    "bounds": CORPUS,
}
PROPS["C11"] = {
    "crates": [("tv", "c11")],
    "what": DECODE + "every strict prefix, and every extension by up to 3 bytes, of the declared encoding. Oracle: refusal, the value encoded.",
    "bounds": CORPUS,
}
PROPS["C12"] = {
    "crates": [("tv", "c12")],
    "what": DECODE + "the declared encoding and on every input of bounded length, with and without offsets. Oracle: plain decoding, where the fields were put.",
    "bounds": CORPUS + "; every input of 0..14 bytes (0..30 for the message of scalars, 0..10 for lists of messages); quick: of 1, 3, 6, 13, 13 lengths up to 30, and 0, 3, 7 bytes",
}
PROPS["C14"] = {
    "crates": [("tv", "c14")],
    "what": "The generated writers on a writer which fails after any number of bytes, or takes 1 or 2 bytes at a time. Oracle: the declared encoding.",
    "bounds": CORPUS,
}
PROPS["C13"] = {
    "crates": [("tv", "c13")],
    "what": "size_of and the generated writers and readers. Oracle: a writer which counts.",
    "bounds": CORPUS,
}
PROPS["C15"] = {
    "crates": [("tv", "c15")],
    "what": "The unions the real compiler generates on this run. Oracle: the declared value of each case, shift and mask of the discriminant.",
    "bounds": "9 unions in both byte orders on an enum, a nested signed field, straddling, 1, 4, 16, 32, 40 and 64 bit discriminants, on a field named like one of an outer structure; every structure, "
              "every input of 0..7 bytes, every case",
}
PROPS["C16"] = {
    "crates": [("tv", "c16")],
    "what": "Array, List and generate_array_wrapper! of the runtime. Oracle: the items written.",
    "bounds": "arrays of 0..4 items of 3 bytes, lists of 0..3 messages, every item; parts of 0..8 bytes with every count; damaged data of 0..9 bytes",
}
PROPS["C17"] = {
    "crates": [("rt", "c17")],
    "what": "Length prefixes written by the runtime, for counts and strings of any length. Oracle: the length as a number of the declared width.",
    "bounds": "every count of an array or list below 2^64, strings up to 66000 bytes (2^63 with 4 and 8 byte prefixes), for the 4 widths of prefix in both byte orders",
}
PROPS["C07"] = {
    "crates": [("tv", "c07")],
    "what": "Accessors of floats with a range or a multiplier, as the real compiler generates them on this run. Oracle: the affine map of the "
            "declared bounds onto 0..2^width-1 in 64 bit floats, to a tolerance of a few roundings; one step of the range for set then get.",
    "bounds": "11 ranges and 6 multipliers on fields of 1 to 40 bits, aligned or not, in both byte orders; every raw value (get), every float "
              "including infinities and NaN (set), every float in the declared range (set then get). Quick: get for widths up to 17 in little endian "
              "(but two of the 16 and 24 bit fields) and 9 in big endian, set then get for widths up to 12 in little endian; the rest is thorough",
}
PROPS["C20"] = {
    "crates": [("tv", "c20")],
    "what": "A protocol which imports structures, messages, enums and unions of another one of the other byte order, both generated by the real "
            "compiler on this run. Oracle: encoders of the harness, in which every type keeps the byte order of its own protocol.",
    "bounds": "4 messages (imported items, single field structures, arrays of structures, lists of messages, unions and optional fields) in both directions, "
              "every value, lists of up to 2 items, strings of up to 2 bytes",
}

NOT_APPLICABLE = {
    "C22": "the Swift output would have to be executed symbolically: no Swift compiler, Swift IR or Swift semantics is available to a solver here",
    "C23": "the behaviour is file system effects (directories and files created by a build script); file I/O is outside what Kani/CBMC encodes",
}
