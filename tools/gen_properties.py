#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "EAN-13 symbols scan back to the number given",
  "For every 12-digit number, and every 13-digit number ending in its correct check digit, encoding an EAN-13 (also under its Bookland and JAN names) yields exactly the 95-module GS1 symbol: outer guards, the left-half parity pattern selected by the first digit, the centre guard, the right half and the modulo-10 check digit. A conforming scanner therefore reads back exactly the digits supplied followed by their check digit.",
  ["inputs"], "all 12- and 13-digit strings",
  "The tests compare four hand-made symbols; the digit, position, parity row and checksum dimensions (10^12 numbers) are untouched.",
  ["src/sym/ean13.rs", "src/sym/helpers.rs"],
  [("parity row of the first digit", "src/sym/ean13.rs parity_mapping/PARITY"), ("modulo-10 check digit", "src/sym/helpers.rs modulo_10_checksum"), ("module tables", "src/sym/ean13.rs ENCODINGS")],
  [("EAN13.0", "the twelve data digits", "src/sym/ean13.rs")], ["EAN13::new", "EAN13::encode"])
p("C02", "UPC-A symbols scan back to the number given",
  "For every 11-digit number, and every 12-digit number ending in its correct check digit, encoding a UPC-A yields exactly the 95-module standard symbol with the modulo-10 check digit, so a scanner reads back the digits supplied followed by their check digit. The symbol is identical to the EAN-13 symbol of the same number with a 0 put in front.",
  ["inputs"], "all 11- and 12-digit strings",
  "The tests compare three symbols; weighting of the check digit (opposite phase to EAN-13) and every digit/position pair need all inputs.",
  ["src/sym/upca.rs", "src/sym/helpers.rs"],
  [("left/right digit sets", "src/sym/upca.rs ENCODINGS"), ("check digit", "src/sym/upca.rs checksum_digit")],
  [("UPCA.0", "the eleven data digits", "src/sym/upca.rs")], ["UPCA::new", "UPCA::encode"])
p("C03", "EAN-8 symbols scan back to the number given",
  "For every 7-digit number, and every 8-digit number ending in its correct check digit, encoding an EAN-8 yields exactly the 67-module standard symbol (guards, four left digits in odd parity, centre guard, three right digits, modulo-10 check digit). A scanner reads back the digits supplied followed by their check digit.",
  ["inputs"], "all 10^7 seven-digit and all 10^8 eight-digit strings",
  "Two symbols are compared in the tests; the space has 1.1*10^8 inputs.",
  ["src/sym/ean8.rs", "src/sym/ean13.rs", "src/sym/helpers.rs"],
  [("digit sets", "src/sym/ean13.rs ENCODINGS"), ("check digit", "src/sym/ean8.rs checksum_digit")],
  [("EAN8.0", "the seven data digits", "src/sym/ean8.rs")], ["EAN8::new", "EAN8::encode"])
p("C04", "EAN-2 and EAN-5 supplements carry their digits and parity check",
  "For every 2-digit and every 5-digit number, encoding the EAN supplemental yields exactly the standard add-on symbol: start guard 1011, digits separated by 01, and the odd/even parity pattern that encodes the value modulo 4 (EAN-2) or the 3/9-weighted check value (EAN-5). Both the digits and the parity check can be read back from it.",
  ["inputs"], "all 100 two-digit and all 100000 five-digit strings",
  "One EAN-2 and one EAN-5 value are tested; most parity rows are never used.",
  ["src/sym/ean_supp.rs", "src/sym/ean13.rs"],
  [("parity selection", "src/sym/ean_supp.rs parity/EAN2_PARITY/EAN5_PARITY"), ("weighted check", "src/sym/ean_supp.rs checksum_digit")],
  [("EANSUPP", "two or five data digits", "src/sym/ean_supp.rs")], ["EANSUPP::new", "EANSUPP::encode"])
p("C05", "A supplied retail check digit is verified, never ignored or replaced",
  "When EAN-13, UPC-A or EAN-8 data is given with its final check digit, it is accepted exactly if that digit is the correct one, and then produces the same symbol as the data without it. With any of the nine other digits, construction fails with the Checksum error.",
  ["inputs"], "all full-length digit strings of the three symbologies, i.e. every data part with every final digit",
  "The tests try one wrong digit per symbology; nine wrong digits exist for each of 10^12 numbers.",
  ["src/sym/ean13.rs", "src/sym/upca.rs", "src/sym/ean8.rs", "src/sym/helpers.rs", "src/error.rs"],
  [("comparison in the constructors", "EAN13::new, UPCA::new, EAN8::new"), ("modulo-10 weights", "src/sym/helpers.rs modulo_10_checksum")],
  [], ["EAN13::new", "UPCA::new", "EAN8::new"])
p("C06", "Code 39 symbols scan back, with and without the check character",
  "For every string of 1 to 256 Code 39 characters, the symbol is exactly: start character, the standard 3-of-9 pattern of each character in order, stop character, all separated by one narrow space; it scans back to the string. With the check character requested (by constructor, or by setting the public flag on an existing barcode) exactly one more character, the modulo-43 sum, is placed before the stop character.",
  ["inputs"], "all strings over the 43 characters with length 1..256, flag on and off",
  "Five strings of at most 8 characters are tested; the modulo-43 sum, every table row and long data need all inputs.",
  ["src/sym/code39.rs"],
  [("character table", "src/sym/code39.rs CHARS/GUARD"), ("modulo-43 check character", "src/sym/code39.rs checksum_char"), ("separator", "src/sym/code39.rs push_encoding/payload")],
  [("Code39.checksum", "whether the check character is encoded", "src/sym/code39.rs")], ["Code39::new", "Code39::with_checksum", "Code39::encode"])
p("C07", "Code 93 symbols scan back with both check characters correct",
  "For every string of 1 to 256 Code 93 characters, the symbol is exactly: start, the standard 9-module pattern of each character, check character C (weights 1..20 repeating from the right, modulo 47), check character K (weights 1..15 repeating, over data and C), stop, terminating bar. A conforming scanner validates both checks and reads the string back.",
  ["inputs"], "all strings over the 47 characters with length 1..256",
  "Four strings are tested; only one is long enough to wrap the weights, with all characters equal.",
  ["src/sym/code93.rs"],
  [("weighted checksums", "src/sym/code93.rs checksum_char"), ("character table", "src/sym/code93.rs CHARS")],
  [("Code93.0", "data characters", "src/sym/code93.rs")], ["Code93::new", "Code93::encode"])
p("C08", "Code 11 symbols scan back with the right check digits",
  "For every string of 1 to 256 digits and dashes, the Code 11 (USD-8) symbol is exactly: start, the standard pattern of each character, check digit C (weights 1..10 repeating from the right, modulo 11), stop, all separated by one narrow space. A second check digit K (weights 1..9 repeating, over data and C, modulo 11) is present exactly when the data is longer than 10 characters.",
  ["inputs"], "all strings over 0-9 and dash with length 1..256",
  "Four strings are tested, one of them with K; neither weight wrap-around nor the exact 10/11 boundary is covered.",
  ["src/sym/code11.rs"],
  [("weighted checksums", "src/sym/code11.rs checksum_char"), ("K only above ten characters", "src/sym/code11.rs payload")],
  [("Code11.0", "data characters", "src/sym/code11.rs")], ["Code11::new", "Code11::encode"])
p("C09", "Codabar symbols scan back to the data given",
  "For every string of 1 to 256 Codabar characters (digits, - $ : / . + and A B C D), the symbol is exactly the standard seven-element pattern of each character in order, with one narrow space between characters and none at the ends. A conforming scanner reads the string back.",
  ["inputs"], "all strings over the 20 characters with length 1..256",
  "Two strings are compared module by module; six of the twenty patterns are never checked.",
  ["src/sym/codabar.rs"],
  [("pattern table", "src/sym/codabar.rs Unit::lookup"), ("separators", "src/sym/codabar.rs encode")],
  [("Codabar.0", "units", "src/sym/codabar.rs")], ["Codabar::new", "Codabar::encode"])
p("C10", "Interleaved 2-of-5 carries every digit pair, padded by a check digit",
  "For every string of 1 to 256 digits, the interleaved 2-of-5 symbol is exactly: start 1010, for each digit pair the bars of the first and the spaces of the second digit with wide elements three modules, stop 1101. If the number of digits is odd, one modulo-10 check digit (weight 3 on the first digit, alternating) is appended first, and for an even number nothing is added; the digits scan back.",
  ["inputs"], "all digit strings of length 1..256",
  "One string is compared module by module and the longest has 25 digits; long or digit-heavy data reaches other checksum magnitudes.",
  ["src/sym/tf.rs", "src/sym/helpers.rs"],
  [("interleaving", "src/sym/tf.rs interleave/itf_payload"), ("check digit", "src/sym/tf.rs interleaved, src/sym/helpers.rs modulo_10_checksum")],
  [("TF::Interleaved", "digits after padding", "src/sym/tf.rs")], ["TF::interleaved", "TF::encode"])
p("C11", "Standard 2-of-5 carries exactly the digits given",
  "For every string of 1 to 256 digits, the standard (industrial) 2-of-5 symbol is exactly: start 11011010, five bars per digit (wide bars three modules, every bar followed by a one-module space), stop 11010110. No digit is added, dropped or reordered, so the digits scan back.",
  ["inputs"], "all digit strings of length 1..256",
  "One seven-digit string is tested.",
  ["src/sym/tf.rs"], [("bar widths", "src/sym/tf.rs WIDTHS/char_encoding/stf_payload")],
  [("TF::Standard", "digits", "src/sym/tf.rs")], ["TF::standard", "TF::encode"])
p("C12", "Accepted Code 128 data scans back to the same message",
  "For every data string Code 128 accepts, of any length, the symbol is the standard one: start code of the selected set, one 11-module symbol character per character, digit pair or set change, the modulo-103 weighted check character, stop. A conforming scanner that follows set changes, SHIFT and the function characters reads back exactly the message given: no character is dropped, reordered, or read in another set.",
  ["inputs"], "all accepted strings: any mix of sets A, B, C, SHIFT and FNC1-4, any length",
  "Eleven short strings are tested; the three code sets, the digit-pair carry, SHIFT and the position-weighted check form a state machine whose transitions are mostly never taken.",
  ["src/sym/code128.rs"],
  [("tokenizer state machine", "src/sym/code128.rs parse"), ("checksum", "src/sym/code128.rs checksum_value"), ("symbol table", "src/sym/code128.rs CHARS")],
  [("char_set", "active code set", "src/sym/code128.rs parse"), ("carry", "pending half digit pair in set C", "src/sym/code128.rs parse"), ("shift", "SHIFT pending", "src/sym/code128.rs parse")],
  ["Code128::new", "Code128::encode"])
p("C13", "Code 128 accepts exactly the strings its character sets can encode",
  "A Code 128 string with at least one data character is accepted exactly if it starts with a set selector (À, Ɓ or Ć) and each later character is encodable in the set active at that point: set A has ASCII 0-95, B has ASCII 32-127 (÷ also stands for DEL), A and B have FNC1-4 and SHIFT (which applies the other set to the next character, not to a selector), C has complete digit pairs and FNC1, and a selector switches to a set other than the active one, never inside a digit pair. Everything else is rejected with the Character error (Length if under two characters), and no string whatsoever makes construction panic.",
  ["inputs"], "all Unicode strings",
  "Four rejections are tested; the accepted language is an automaton over more than a million code points.",
  ["src/sym/code128.rs"],
  [("lookup in the active set", "src/sym/code128.rs CharacterSet::lookup"), ("selector and carry rules", "src/sym/code128.rs parse")],
  [("char_set, carry, shift", "tokenizer state", "src/sym/code128.rs parse")], ["Code128::new"])
p("C14", "Constructors accept exactly the documented data and name the right error",
  "For every Unicode string and every symbology other than Code 128, construction succeeds exactly if each character belongs to the symbology's alphabet and the length is allowed (EAN-13 12-13, UPC-A 11-12, EAN-8 7-8, supplements 2 or 5, all others 1-256), check digits aside. Otherwise it fails: with Length when only the length is wrong, with Character when only the characters are wrong; construction and encoding never panic.",
  ["inputs"], "all Unicode strings, including non-ASCII digits, multi-byte characters and strings longer than 4 GiB",
  "One bad string per error is tested; boundaries, non-ASCII look-alikes and long data are not.",
  ["src/sym.rs", "src/sym/ean13.rs", "src/sym/upca.rs", "src/sym/ean8.rs", "src/sym/ean_supp.rs", "src/sym/code39.rs", "src/sym/code93.rs", "src/sym/code11.rs", "src/sym/codabar.rs", "src/sym/tf.rs"],
  [("shared validation", "src/sym.rs Parse::parse"), ("alphabets and lengths", "valid_chars/valid_len of each symbology")],
  [], ["every ::new, TF::interleaved, TF::standard, Code39::with_checksum"])
p("C15", "ASCII output draws exactly the modules given",
  "For every sequence of binary digits, height and x-dimension, the ASCII generator returns `height` identical lines separated by single newlines with none at the end. Each line has every module drawn xdim times, '#' for 1 and a space for 0, and nothing else (no lines, hence the empty string, at height 0).",
  ["inputs"], "all binary sequences, heights and x-dimensions",
  "About twenty pictures with height 5-10 and xdim 1-2 are tested.",
  ["src/generators/ascii.rs"], [("row and line assembly", "src/generators/ascii.rs generate_row/generate")],
  [], ["ASCII::generate"])
p("C16", "JSON output is valid JSON that restates the barcode",
  "For every sequence of binary digits, height and x-dimension, the JSON generator returns one well-formed JSON object with exactly the members height, xdim and encoding. Height and xdim are the configured numbers and encoding is an array holding each module in order as 0 or 1, including the empty array.",
  ["inputs"], "all binary sequences, all heights and x-dimensions up to the largest machine word",
  "About twenty fixed outputs are tested, none empty, none with large numbers.",
  ["src/generators/json.rs"], [("folding the modules, killing the trailing comma", "src/generators/json.rs generate")],
  [], ["JSON::generate"])
p("C17", "SVG output paints exactly the modules given",
  "For every sequence of binary digits, height, x-dimension, pair of RGBA colours and optional namespace (legal XML attribute text), the SVG is well formed, has viewBox 0 0 (modules*xdim) height and the namespace exactly if one was set. It paints one background rectangle over the whole box and then covers exactly the 1-modules, full height, once each, in the foreground colour; each colour is the configured #rrggbb with opacity alpha/255 rounded to two decimals (omitted when 1).",
  ["inputs"], "all binary sequences, heights, x-dimensions up to 2^32-1, colours, namespaces",
  "The tests only compare the length of the output of twelve calls, so contents are unchecked.",
  ["src/generators/svg.rs"], [("rectangles", "src/generators/svg.rs rect/generate"), ("colour formatting", "src/generators/svg.rs to_hex/to_opacity")],
  [], ["SVG::generate"])
p("C18", "The pixel buffer shows exactly the modules, colours and rotation asked for",
  "For every sequence of binary digits, height, x-dimension and pair of RGBA colours, the generated image buffer is modules*xdim wide and height tall before rotation, and every pixel of column x has exactly the foreground colour if module x/xdim is 1 and the background colour otherwise. Rotation turns that picture clockwise by 0, 90, 180 or 270 degrees; any image variant yields the same buffer.",
  ["inputs"], "all binary sequences, dimensions, colours, rotations and image variants",
  "The single buffer test checks only width and height; no pixel is ever compared.",
  ["src/generators/image.rs"], [("place_pixels", "src/generators/image.rs place_pixels"), ("rotation dispatch", "src/generators/image.rs place_pixels")],
  [], ["Image::generate_buffer"])
p("C19", "PNG, GIF and WEBP files decode to the pixel buffer",
  "For every barcode and configuration the format can hold, the generated bytes are a valid file of the format named by the variant, and decoding it gives exactly the size and the pixels of the image buffer for the same settings. PNG and WEBP keep RGBA exactly; GIF keeps RGB exactly and treats alpha 0 as transparent and every other alpha as opaque.",
  ["inputs"], "all binary sequences, dimensions, colours, rotations, for each of the three formats",
  "The tests compare byte counts only (all PNG ones fail with current encoders), never decode.",
  ["src/generators/image.rs"], [("format dispatch and writing", "src/generators/image.rs generate")],
  [], ["Image::generate"])
p("C20", "An image that cannot be produced is an error, not a panic or a bad file",
  "Asking the image generator for encoded bytes either returns a complete, decodable file or the Generate error: always the error for the image-buffer variant, for an image without pixels, for a side longer than the format allows (GIF 65535, WEBP 16384) for a width beyond 32 bits and for pixels beyond the address space. Buffer generation likewise reports those last two as Generate and returns an empty buffer for an image without pixels; neither panics.",
  ["inputs"], "all dimension combinations around and beyond the limits, all variants and rotations",
  "No test asks for an impossible image.",
  ["src/generators/image.rs", "src/error.rs"], [("error mapping", "src/generators/image.rs generate/place_pixels")],
  [], ["Image::generate", "Image::generate_buffer"])
p("C21", "Generator defaults and setters configure exactly what they name",
  "ASCII and JSON default to height 10 and xdim 1; SVG and image constructors take the height and default to xdim 1, black on white, no rotation, no namespace. Each SVG setter changes only its own field, in any order and number of calls (last one wins), black and white are opaque black and white, and a generator behaves the same when copied or cloned.",
  ["histories", "inputs"], "all sequences of constructor and setter calls",
  "Tests set each option at most once, in one order, and compare only lengths.",
  ["src/generators/svg.rs", "src/generators/image.rs", "src/generators/ascii.rs", "src/generators/json.rs"],
  [("builder methods", "src/generators/svg.rs xmlns/xdim/foreground/background"), ("image_defaults!", "src/generators/image.rs")],
  [("SVG fields", "configuration so far", "src/generators/svg.rs")], ["SVG::new and setters", "Image::png/gif/webp/image_buffer", "ASCII::new", "JSON::new", "Color"])
p("C22", "Results do not depend on earlier calls, other objects, or other threads",
  "Constructing, encoding and generating are pure: each call returns the same result whatever other calls were made before it in the process, successful or failed, on the same or other barcodes and generators, and whichever thread makes it. Barcodes and generators can be shared between threads and used at the same time, and calls that overlap in any way return what they return alone, without deadlock.",
  ["histories", "schedules"], "all call histories, all assignments of calls to threads, all preemptions of one call by another",
  "Each test makes one call on fresh objects; no test repeats, interleaves or overlaps calls on purpose.",
  ["src/sym.rs", "src/sym/helpers.rs", "src/sym/code128.rs", "src/generators/svg.rs", "src/generators/image.rs", "src/generators/ascii.rs", "src/generators/json.rs"],
  [("no shared mutable state; &self methods", "every encode and generate")],
  [], ["all public constructors, encode, generate, generate_buffer"])
p("C23", "Every feature combination and build profile gives the same results",
  "The crate compiles with every combination of its features (ascii, json, svg, image, std), with and without the standard library. Each symbology accepts and encodes, and each enabled generator renders, identically under every combination and in debug and optimised builds alike.",
  ["configurations", "inputs"], "all 32 feature combinations, debug and release profiles",
  "The suite runs one feature combination in one profile.",
  ["Cargo.toml", "src/lib.rs", "src/generators.rs", "src/error.rs", "src/sym/helpers.rs"],
  [("cfg gates", "src/lib.rs, src/generators.rs, src/sym/helpers.rs")], [], ["whole public API"])
p("C24", "What any generator renders scans back to the barcode's data",
  "For every symbology, accepted data and generator (ASCII, JSON, SVG, image buffer, PNG, GIF, WEBP) at any positive height, x-dimension and rotation and with distinguishable colours, scanning the rendered output the way a reader would, along any row across the bars, recovers the module sequence and from it the data originally supplied. All generators agree on the same barcode.",
  ["inputs", "configurations"], "all symbologies x generators x settings x data",
  "Tests never read an output back; encoders and generators are only ever checked apart.",
  ["src/sym.rs", "src/generators.rs", "src/generators/ascii.rs", "src/generators/json.rs", "src/generators/svg.rs", "src/generators/image.rs"],
  [("encode then generate", "src/sym/*.rs encode, src/generators/*.rs generate")], [], ["encode + generate"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
