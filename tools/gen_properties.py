#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
SO = "standard output of the `pemv` executable"
SE = "standard error of the `pemv` executable"

prop("P01", "A well-formed BER-TLV block is reported completely and exactly",
 "For every well-formed BER-TLV block given on the command line, the report lists every data object of the block exactly once, each with exactly its own tag bytes, length and value bytes and with the catalogue name of its tag, whatever the tag size (one or more bytes), the length form (short or long, including a zero or padded length) and the position in the block. Nothing is skipped, merged, truncated or invented, and in particular no well-formed block is refused.",
 ["inputs"], "all BER-TLV blocks: every tag encoding, every length encoding up to four length bytes, every value content, every number of objects",
 "The unit tests decode about fifteen hand-written blocks; whether index arithmetic around tag continuation bytes, long lengths and the end of the buffer is right must hold for every byte string.",
 ["src/emv/tlv_parsing/ber_tlv.rs", "src/emv/tlv_parsing/mod.rs", "src/util.rs", "src/main.rs"],
 [("BER-TLV parse loop", "src/emv/tlv_parsing/ber_tlv.rs: parse"), ("block and tag display", "src/emv/tlv_parsing/mod.rs: display_breakdown")],
 [SO])

prop("P02", "Malformed BER-TLV is refused as a whole, never partly reported",
 "Every input that is not a well-formed sequence of BER-TLV data objects (ends inside a tag, inside a length or inside a value, or declares more than four length bytes) produces an error message and no report at all; no byte outside the input is ever shown as data. A malformed tail after any number of good objects makes the whole block refused.",
 ["inputs"], "all byte strings that are not well-formed BER-TLV, whatever valid prefix they start with",
 "Tests try a handful of truncated blocks; truncation at every byte position of every shape of block is a universal claim.",
 ["src/emv/tlv_parsing/ber_tlv.rs", "src/main.rs", "src/error.rs"],
 [("bounds checks in the BER-TLV parse loop", "src/emv/tlv_parsing/ber_tlv.rs: parse"), ("error reporting", "src/main.rs: main")],
 [SO, SE])

prop("P03", "No input makes the tool crash, abort or hang",
 "For every option that takes data and every text given to it (including empty hex, odd digit counts, non-hex and non-ASCII text, huge declared lengths and deeply nested objects) the tool terminates normally: it prints either a report on standard output or one error message on standard error, never both, and never panics or hangs.",
 ["inputs"], "every data-taking option, every argument text",
 "Tests call parsers on chosen inputs only; absence of panics (index, overflow, slicing inside a character, allocation size) has to hold for every input, and displays are not tested at all.",
 ["src/main.rs", "src/util.rs", "src/emv/tlv_parsing/ber_tlv.rs", "src/emv/tlv_parsing/ingenico_tlv.rs", "src/emv/bitflag_values.rs"],
 [("fallible parsing returning errors", "src/error.rs: ParseError"), ("bounds checks before every slice", "src/emv/tlv_parsing/ingenico_tlv.rs: parse")],
 [SO, SE, "exit status"])

prop("P04", "Constructed data objects are expanded into exactly their nested objects",
 "A data object whose tag marks it as constructed is followed by the report of exactly the objects encoded in its value, indented one level deeper, at every nesting depth; a primitive object is never expanded. If the value of a constructed object is not itself well-formed TLV, the object is still reported with its raw value and without children, and the surrounding block is unaffected.",
 ["inputs"], "all tags (constructed or primitive), all values, all nesting depths",
 "Tests cover two nested blocks; that every nested value is parsed with its own bounds, and failure inside a child never leaks to the parent, is a universal claim over nested contents.",
 ["src/emv/tlv_parsing/ber_tlv.rs", "src/emv/tlv_parsing/ingenico_tlv.rs", "src/emv/tlv_parsing/mod.rs"],
 [("descent into constructed objects", "src/emv/tlv_parsing/ber_tlv.rs: get_child_block"), ("tag metadata bits", "src/emv/tlv_parsing/ber_tlv.rs: parse_tag_metadata")],
 [SO])

prop("P05", "Masked values are recognised exactly and never interpreted",
 "A value is reported as masked if and only if it is at least two characters (bytes, in BER-TLV; characters of the transmitted text, in Ingenico) long and consists of one masking character throughout, the masking characters being exactly the configured ones. A masked object keeps its tag and name but shows no length, no raw value, no interpretation and no children, and never causes an error; an unmasked value is always shown in full.",
 ["inputs", "configurations"], "all values of all lengths, all sets of masking characters, both TLV formats, known and unknown tags",
 "Tests check a few all-asterisk strings against the default character; near-misses (one differing character at any position, mixed masking characters, one-character values, digits as masking characters) need all values.",
 ["src/emv/tlv_parsing/mod.rs", "src/emv/tlv_parsing/ber_tlv.rs", "src/emv/tlv_parsing/ingenico_tlv.rs"],
 [("masking test", "src/emv/tlv_parsing/mod.rs: is_masked_u8, is_masked_str"), ("masked branch of interpretation", "src/emv/tlv_parsing/mod.rs: parse_raw, parse_raw_unrecognised")],
 [SO])

prop("P06", "A well-formed Ingenico block is reported completely and exactly",
 "For every well-formed Ingenico TLV block the report lists exactly the EMV-type entries, in full, each with its tag (leading zero bytes removed), its value decoded according to its declared format (text or hex) and its declared length; entries of other types are skipped without disturbing the entries around them. Any single character is accepted between entries, and value text may contain any ASCII character, including separators and colons.",
 ["inputs"], "all Ingenico blocks: entry types, tag ids, length spellings, both data formats, all contents and separators",
 "Tests cover about ten literal blocks; that the cursor advances by exactly the declared size for every format and content is a claim over all blocks.",
 ["src/emv/tlv_parsing/ingenico_tlv.rs", "src/util.rs", "src/emv/tlv_parsing/mod.rs"],
 [("Ingenico parse loop", "src/emv/tlv_parsing/ingenico_tlv.rs: parse"), ("leading zero trimming", "src/util.rs: trim_leading_0_bytes")],
 [SO])

prop("P07", "Malformed Ingenico TLV is refused as a whole",
 "Every text that is not a well-formed Ingenico block (missing tag, length, separator or format; characters that are not hex digits or an incomplete byte where hex is expected; a value shorter than declared; non-ASCII text; a length of more than four bytes) produces an error message and no report. A number that is not spelled with whole hex bytes is never silently read as another number.",
 ["inputs"], "all texts that are not well-formed Ingenico TLV, whatever valid prefix they start with",
 "Tests try eight malformed texts; every other malformation, at every position, is untested.",
 ["src/emv/tlv_parsing/ingenico_tlv.rs", "src/util.rs"],
 [("field validation", "src/emv/tlv_parsing/ingenico_tlv.rs: parse"), ("strict hex reading", "src/util.rs: parse_hex_str_strict")],
 [SO, SE])

prop("P08", "The same objects give the same report whichever TLV format carries them",
 "Encoding the same sequence of data objects as BER-TLV hex or as Ingenico hex entries yields byte-for-byte the same report, and text entries yield the same report as their byte values in hex. Nested contents, names, masking-independent values and interpretations do not depend on the carrier format.",
 ["inputs"], "all sequences of data objects representable in both formats",
 "No test compares the two parsers; the claim relates two executions on every possible object sequence.",
 ["src/emv/tlv_parsing/ber_tlv.rs", "src/emv/tlv_parsing/ingenico_tlv.rs", "src/main.rs"],
 [("shared block representation", "src/emv/tlv_parsing/mod.rs: RawEmvBlock"), ("two parsers", "src/emv/tlv_parsing/*.rs: parse")],
 [SO])

prop("P09", "Automatic format detection agrees with the explicit parsers",
 "Automatic detection names Ingenico exactly when the text is a well-formed Ingenico block, otherwise BER-TLV exactly when its hex bytes form a well-formed non-empty block, and in both cases prints the same report as the explicit option for that format. Text that is neither is refused with an unrecognised-value error and never presented as an empty success.",
 ["inputs"], "all argument texts",
 "Tests check one text per format and one failure; agreement with both explicit parsers must hold for every text.",
 ["src/emv/tlv_parsing/auto_tlv.rs", "src/main.rs"],
 [("ordered attempt of both parsers", "src/emv/tlv_parsing/auto_tlv.rs: parse"), ("format header", "src/main.rs: main")],
 [SO, SE])

prop("P10", "Hex input means the same however it is spelled",
 "Wherever the tool accepts a hex value, letter case, spaces and other separator characters between or inside bytes, and a leading prefix made of non-hex characters do not change the result. The bytes used are exactly the hex digits in order, two per byte.",
 ["inputs"], "all hex values and all spellings of them, for every option taking hex",
 "Seven example strings are tested on the hex reader in isolation; equality of results between spellings relates pairs of runs for all values.",
 ["src/util.rs", "src/main.rs"],
 [("lenient hex reading", "src/util.rs: parse_hex_str")],
 [SO, SE])

prop("P11", "Sorting reorders objects by tag, stably, at every level, and loses nothing",
 "With sorting on, the objects of a block and of every nested level appear in ascending byte order of their tags, objects with equal tags keep their original relative order, and the set of objects (with their values and children) is exactly that of the input. With sorting off the original order is kept at every level.",
 ["inputs", "configurations"], "all blocks with any tags, duplicates included, at all nesting levels, both settings",
 "No test sorts anything; order, stability and permutation are claims over all sequences of tags.",
 ["src/emv/tlv_parsing/mod.rs", "src/main.rs"],
 [("recursive node sort", "src/emv/tlv_parsing/mod.rs: sort_nodes, Ord for RawEmvTag"), ("sort option", "src/main.rs: main")],
 [SO])

prop("P12", "Tag identification reports the right name, class and object type",
 "For every tag given to the identify option the report shows the tag's bytes unchanged, its EMV name exactly when the tag is in the catalogue (and the unknown marker otherwise), the class from its two leading bits and whether it is primitive or constructed; an empty tag is refused. TLV reports use the same names for the same tags.",
 ["inputs"], "all tags of one to four bytes (every value of the first two bytes), all catalogue entries",
 "The catalogue and the identify report have no tests; correctness is a claim for each of the 2^16 and more possible tags, known and unknown.",
 ["src/emv/tlv_parsing/process_emv_tag.rs", "src/emv/tag_basic_info.rs", "src/emv/tlv_parsing/ber_tlv.rs"],
 [("tag catalogue", "src/emv/tlv_parsing/process_emv_tag.rs: identify_tag"), ("tag metadata", "src/emv/tlv_parsing/ber_tlv.rs: parse_tag_metadata")],
 [SO])

prop("P13", "A value inside a TLV block reads the same as through its own option",
 "For every tag that has both a dedicated option and an interpretation inside TLV blocks (terminal verification results, transaction status, verification results and list, issuer application data, service code), the interpretation printed inside a block is exactly the report of the dedicated option for the same value, one level deeper. A value the dedicated option refuses is never shown as interpreted in a block.",
 ["inputs"], "all values of all these tags, in both directions (accepted and refused)",
 "The dispatch from tags to interpretations is explicitly untested in the code; equality between two commands relates runs over all values.",
 ["src/emv/tlv_parsing/process_emv_tag.rs", "src/emv/tlv_parsing/mod.rs", "src/main.rs"],
 [("tag dispatch", "src/emv/tlv_parsing/process_emv_tag.rs: process_emv_tag"), ("parsed section display", "src/emv/tlv_parsing/mod.rs: ProcessedEmvTag::display_breakdown")],
 [SO, SE])

prop("P14", "Unrecognised values are annotated, invalid ones refused, others left raw",
 "In a TLV block, an authorisation response code, transaction type, terminal type or POS entry mode that is valid in size but not in the catalogue, and issuer application data that is not CCD-compliant, is still reported raw with its name, and the rest of the block is reported normally. A known tag whose value has an impossible size or encoding makes the whole block refused; a tag without an interpretation is never refused whatever its value.",
 ["inputs"], "all tags and all values, alone and among other objects",
 "Nothing tests the policy; it quantifies over every tag, value and surrounding block.",
 ["src/emv/tlv_parsing/process_emv_tag.rs", "src/emv/tlv_parsing/mod.rs"],
 [("unrecognised-value policy", "src/emv/tlv_parsing/mod.rs: parse_raw_unrecognised"), ("tag dispatch", "src/emv/tlv_parsing/process_emv_tag.rs: process_emv_tag")],
 [SO, SE])

prop("P15", "Terminal verification results are explained bit by bit without error",
 "For every five-byte value the report shows the value's binary digits with undefined bits cleared and lists, from the last bit to the first, exactly the meanings of the bits that are set, each drawn under its own bit position. No set bit is omitted, no clear bit is explained, and no meaning is attached to another bit.",
 ["inputs"], "all 2^40 values",
 "Tests check that each single bit round-trips to a distinct value, not which meaning is printed for which bit, nor combinations, nor the drawing.",
 ["src/emv/tvr.rs", "src/macros.rs", "src/emv/bitflag_values.rs"],
 [("bit table", "src/emv/tvr.rs"), ("bitflag display", "src/emv/bitflag_values.rs: display_breakdown")],
 [SO])

prop("P16", "Issuer action codes are explained with the same bits and their own purpose",
 "For every five-byte value of the default, denial and online action codes, the explanation states the purpose of that very action code and then lists exactly the same bits and meanings as terminal verification results do for the same value, without severity colours.",
 ["inputs"], "all 2^40 values of three tags",
 "The three codes are tested with one all-ones value on the parsed structure; the printed purpose and bits for other values are untested.",
 ["src/emv/iac/default.rs", "src/emv/iac/denial.rs", "src/emv/iac/online.rs", "src/emv/tlv_parsing/process_emv_tag.rs"],
 [("action code display", "src/emv/iac/*.rs: display_breakdown")],
 [SO])

prop("P17", "Status and capability bit fields are explained bit by bit without error",
 "For every value of transaction status information, terminal capabilities and additional terminal capabilities, the report shows the binary digits with undefined bits cleared and exactly the meanings of the bits that are set, each drawn under its own bit position.",
 ["inputs"], "all values (2^16, 2^24 and 2^40)",
 "Tests check single-bit distinctness only; the meaning printed for each bit and combinations of bits are untested.",
 ["src/emv/tsi.rs", "src/emv/terminal_capabilities.rs", "src/emv/additional_terminal_capabilities.rs", "src/macros.rs", "src/emv/bitflag_values.rs"],
 [("bit tables", "src/emv/*.rs"), ("bitflag display", "src/emv/bitflag_values.rs: display_breakdown")],
 [SO])

prop("P18", "Card verification results are explained exactly",
 "For every five-byte value of CCD card verification results, the report shows the binary digits with undefined bits cleared, the two cryptogram types and the two counters (PIN tries and issuer script commands) with the values their bit ranges hold, and exactly the meanings of the single bits that are set, each drawn under its own bit range.",
 ["inputs"], "all 2^40 values",
 "Tests check distinctness of single bits; multi-bit counters, types, their drawing and combinations are untested.",
 ["src/emv/ccd/cvr.rs", "src/macros.rs", "src/emv/bitflag_values.rs"],
 [("field table", "src/emv/ccd/cvr.rs"), ("range drawing", "src/emv/bitflag_values.rs: display_breakdown")],
 [SO])

prop("P19", "Issuer application data is interpreted only when CCD-compliant, and exactly",
 "Issuer application data is interpreted if and only if it is 32 bytes long with both length markers equal to 15, format code A and a known cryptogram version; then the report shows the format, cryptogram version, key index, verification results, counters and discretionary bytes from their own positions. Any other value is refused as non-compliant, never misread.",
 ["inputs"], "all byte strings of all lengths",
 "Tests cover one compliant value and three non-compliant ones; the iff over every value and the byte positions printed are untested.",
 ["src/emv/ccd/iad.rs", "src/emv/ccd/cci.rs", "src/emv/ccd/cvr.rs"],
 [("structure checks", "src/emv/ccd/iad.rs: try_from"), ("fields display", "src/emv/ccd/iad.rs: display_breakdown")],
 [SO, SE])

prop("P20", "Cardholder verification results show the actual method, condition and result",
 "For every three-byte value with a defined result, the report shows the value's own bits (undefined ones cleared), the verification method, the condition (each named exactly when defined by EMV and called unknown otherwise), whether a failure continues with the next rule, and the result; an undefined result is refused. Bits of an unknown method or condition are shown as they are, not replaced.",
 ["inputs"], "all 2^24 values",
 "One value is tested; the mapping of every method, condition and result code, and the drawing, are untested.",
 ["src/emv/cvm_results.rs", "src/emv/cv_rule/mod.rs", "src/emv/cv_rule/cv_method.rs", "src/emv/cv_rule/cvm_condition.rs", "src/emv/bitflag_values.rs"],
 [("rule table", "src/emv/cv_rule/*.rs"), ("result display", "src/emv/cvm_results.rs")],
 [SO, SE])

prop("P21", "A cardholder verification list shows every rule in order and the right amounts",
 "For every list of eight amount bytes followed by complete two-byte rules, the report numbers every rule in order with its own method, condition and failure behaviour, and shows both amounts in decimal, padded to a common width of at least three digits, whenever one is non-zero or a rule's condition refers to them. A list shorter than eight bytes or with half a rule is refused with a message saying so.",
 ["inputs"], "all byte strings of all lengths: every amount, every number of rules, every rule",
 "Tests parse four lists into structures; the report itself, its amounts and when they are shown are untested.",
 ["src/emv/cvm_list.rs", "src/emv/cv_rule/mod.rs", "src/util.rs"],
 [("list parsing and display", "src/emv/cvm_list.rs"), ("decimal width", "src/util.rs: num_dec_digits")],
 [SO, SE])

prop("P22", "A service code is explained from its own three digits",
 "For every service code from 000 to 999 the report shows the three digits and the interchange, technology, authorisation, service and PIN meaning that each digit has; the same code as a two-byte TLV value gives the same explanation. A number above 999, a value that is not a decimal number, or a TLV value whose digits are not all decimal is refused.",
 ["inputs"], "all numbers, all texts, all two-byte values",
 "Seven codes are tested on parsed structures; all other codes, texts and the printed explanation are untested.",
 ["src/non_emv/service_code.rs", "src/util.rs"],
 [("digit meanings", "src/non_emv/service_code.rs"), ("decimal reading", "src/util.rs: parse_str_to_u16, bytes_to_str")],
 [SO, SE])

prop("P23", "Coded values are translated to their catalogue meaning and nothing else",
 "For every one-byte transaction type, terminal type and POS entry mode and every two-character authorisation response code, the interpretation printed is the catalogue meaning of exactly that code, and codes outside the catalogue get no meaning at all.",
 ["inputs"], "all 256 values of three one-byte codes, all 65536 two-byte response codes",
 "One value of each is tested; all others, and absence of meaning for undefined codes, are untested.",
 ["src/emv/transaction_type.rs", "src/emv/terminal_type.rs", "src/emv/pos_entry_mode.rs", "src/emv/authorisation_response_code.rs"],
 [("code tables", "src/emv/*.rs enum tables"), ("response code as text", "src/emv/authorisation_response_code.rs: try_from")],
 [SO])

prop("P24", "Fixed-size values of any other size are refused with the true sizes",
 "Every fixed-size value given with a number of bytes other than its size is refused, alone or inside a block, with an error stating exactly how many bytes were expected and how many were found, and nothing is reported. A value of the right size is never refused for its size. (Issuer application data has no single size: data that does not have the CCD layout is refused as such, without sizes.)",
 ["inputs"], "all fixed-size values, all byte counts, all contents",
 "Tests check two wrong sizes per type on the error value, never the message or other sizes.",
 ["src/macros.rs", "src/emv/*.rs", "src/error.rs", "src/non_emv/service_code.rs"],
 [("size check", "src/macros.rs: bitflag_value"), ("error text", "src/error.rs")],
 [SO, SE])

prop("P25", "Reserved bits never influence a report",
 "Two values of the same bit field that differ only in bits the specification reserves produce identical reports. No reserved bit is ever shown as set or explained.",
 ["inputs"], "all pairs of values differing in reserved bits only, for every bit field",
 "This relates two runs on all such pairs; no test sets a reserved bit.",
 ["src/macros.rs", "src/emv/bitflag_values.rs", "src/emv/cvm_results.rs"],
 [("used-bits mask", "src/macros.rs: USED_BITS_MASK"), ("mask in CVM results", "src/emv/cvm_results.rs")],
 [SO])

prop("P26", "Colour only adds styling; it never changes the text, and marks severity",
 "With colour on, removing the colour escape sequences from the report gives exactly the report with colour off, and with colour off (or automatic on a non-terminal) no escape sequence is printed at all. With colour on, a meaning is printed in red if it denotes an error, in yellow if it denotes a warning and without colour otherwise, and every style is reset before the next text.",
 ["inputs", "configurations"], "all values of every option, all colour settings",
 "Displays and severities have no tests; the claim relates coloured and uncoloured runs on all values.",
 ["src/emv/bitflag_values.rs", "src/output_colours.rs", "src/config/colour_choice.rs", "src/main.rs", "src/emv/tlv_parsing/mod.rs"],
 [("severity colours", "src/emv/bitflag_values.rs: display_breakdown"), ("colour choice", "src/config/colour_choice.rs")],
 [SO])

prop("P27", "Settings obey command line over environment over file over defaults",
 "Each setting (colour, masking characters, sorting) takes its value from the command line if given there, otherwise from the environment, otherwise from the configuration file (the selected profile, or the file named by the environment), otherwise from the documented default, independently of the other settings. A setting given in one place never changes another, and equivalent spellings of an option have equal effect.",
 ["configurations", "inputs"], "all combinations of sources and values of the three settings",
 "Nothing in configuration merging is tested beyond enum conversions; precedence is a claim over all combinations.",
 ["src/config/mod.rs", "src/config/colour_choice.rs", "src/cli.rs", "src/main.rs"],
 [("layered configuration", "src/config/mod.rs: figment, apply_cli_arguments"), ("option definitions", "src/cli.rs")],
 [SO])

prop("P28", "Report text cannot be forged or garbled by data bytes",
 "Whatever bytes the parsed data contains, reports consist only of the tool's own printable text, line breaks and indentation: no data byte ever reaches the terminal as a control, escape or non-ASCII character. Data shown as characters is shown only as printable ASCII or a dot placeholder.",
 ["inputs"], "all data bytes in all options and both TLV formats",
 "No test examines printed output; the claim quantifies over every byte of every value.",
 ["src/util.rs", "src/emv/tlv_parsing/mod.rs"],
 [("printable filter", "src/util.rs: print_bytes_pretty")],
 [SO])

prop("P29", "Raw values are dumped byte for byte",
 "The raw section of every object shows exactly the bytes of its value in hex, in order, sixteen per line, and beside each line the same bytes as characters, aligned whatever the number of bytes on the last line; an empty value has no raw section. Reading the hex back gives the value.",
 ["inputs"], "all values of all lengths",
 "Printing helpers are excluded from tests; correctness at every length (line boundaries included) and byte value is a universal claim.",
 ["src/util.rs", "src/emv/tlv_parsing/mod.rs"],
 [("hex and ASCII dump", "src/util.rs: print_bytes_pretty"), ("raw section", "src/emv/tlv_parsing/mod.rs: RawEmvTag::display_breakdown")],
 [SO])

prop("P30", "Every option name of a command is honoured and errors go to standard error",
 "Every documented name and alias of an option selects the same operation and gives the same output for the same data. Reports go to standard output only and error messages to standard error only.",
 ["inputs", "configurations"], "all option names and aliases, all data",
 "Tests only run the option parser's self-check; that each alias leads to its own operation for every data is untested.",
 ["src/cli.rs", "src/main.rs"],
 [("option aliases", "src/cli.rs: build_cli"), ("operation dispatch", "src/main.rs: main")],
 [SO, SE])

prop("P31", "Every part of a block reads the same alone and in company",
 "Without sorting, the report of a block followed by another is exactly the report of the first followed by the report of the second (or the refusal of whichever is refused), in both TLV formats and under automatic detection; and a block that is the content of a constructed object is reported there exactly as it would be alone, one level deeper. No object's report depends on its neighbours or on where it stands.",
 ["inputs", "histories"], "all pairs of blocks, all nesting positions",
 "This relates three runs of the tool; tests look at single values of single blocks and never at a report.",
 ["src/emv/tlv_parsing/mod.rs", "src/emv/tlv_parsing/ber_tlv.rs", "src/emv/tlv_parsing/ingenico_tlv.rs", "src/main.rs"],
 [("processing of a block", "src/emv/tlv_parsing/mod.rs: ProcessedEmvBlock"), ("display of nested blocks", "src/emv/tlv_parsing/mod.rs: display_breakdown")],
 [SO, SE])

prop("P32", "A command line that makes no sense is refused and nothing is interpreted",
 "A command line that names two operations, repeats one, gives an operation no data or empty data, gives TLV settings to an operation that has none, gives contradictory or unusable settings, contains anything that is not an option, or is not text, is refused with an error and a failing exit status, and no report at all is printed.",
 ["inputs", "configurations"], "all unusable command lines, all data",
 "The tests only run the option parser's self-check; no test parses a command line, and what must be refused is a claim over all of them.",
 ["src/cli.rs", "src/main.rs"],
 [("option definitions: groups, requirements, conflicts", "src/cli.rs: build_cli")],
 [SO, SE, "exit status"])

prop("P33", "Different encodings of the same block give the same report",
 "The report depends on the data objects alone, not on how they were written: BER-TLV lengths in short form or in long form of any size, Ingenico tags and lengths with any leading zero bytes, hex in either letter case, values given as hex or as text, any separator between entries, and entries that are not EMV tags left out or put in, all give the same report.",
 ["inputs"], "all blocks, all ways of writing them",
 "Relates two runs over all pairs of equivalent encodings; tests have one encoding per case and no printed output.",
 ["src/emv/tlv_parsing/ber_tlv.rs", "src/emv/tlv_parsing/ingenico_tlv.rs", "src/emv/tlv_parsing/mod.rs", "src/util.rs"],
 [("length decoding", "src/emv/tlv_parsing/ber_tlv.rs: parse"), ("entry decoding", "src/emv/tlv_parsing/ingenico_tlv.rs: parse")],
 [SO, SE])

prop("P34", "Reports depend on nothing but the data and the documented settings",
 "Environment variables other than the documented ones, files other than the configuration file and entries of the configuration file that are not settings never change a report, and the tool never writes to any file.",
 ["inputs", "configurations"], "all other environment variables and files, all data",
 "Tests run in one environment; that nothing else in it matters is a claim over all environments.",
 ["src/main.rs", "src/config/mod.rs", "src/output_colours.rs"],
 [("configuration sources", "src/config/mod.rs: figment"), ("colour choice", "src/config/colour_choice.rs: change_based_on_tty")],
 [SO, SE])

prop("P35", "The order of options on the command line does not matter",
 "Settings and the operation given in any order, before or after each other, give the same report.",
 ["inputs", "configurations"], "all orders of all sets of options, all data",
 "No test parses a command line, and the claim relates runs over every permutation.",
 ["src/cli.rs", "src/config/mod.rs", "src/main.rs"],
 [("option definitions", "src/cli.rs: build_cli"), ("settings from the command line", "src/config/mod.rs: apply_cli_arguments")],
 [SO, SE])

prop("P36", "Unusable settings are refused with an explanation, without a crash",
 "A configuration file or environment that gives a setting a value it cannot have (an unknown colour choice, a masking character that is not one character, something that is not a truth value, a value of another type, a file that is not TOML) makes the tool explain which on standard error and print no report; it never crashes and never silently goes on with another value.",
 ["configurations", "inputs"], "all unusable values of all settings in all places",
 "Nothing in configuration reading is tested beyond enum conversions.",
 ["src/config/mod.rs", "src/config/colour_choice.rs", "src/main.rs"],
 [("configuration extraction", "src/main.rs: main"), ("colour choice parsing", "src/config/colour_choice.rs")],
 [SO, SE])

prop("P37", "Automatic colour follows standard output being a terminal, and nothing else does",
 "With automatic colour, the default, a report is coloured exactly when standard output is a terminal that can show colour (TERM is set and is not dumb, NO_COLOR is not set). Whether standard input, output or error are terminals changes nothing else: with colour always, ansi or never, wherever that is set, the report is the same on a terminal as in a file, its text is always the same, and so are the error messages about refused data.",
 ["configurations", "inputs"], "all combinations of terminals, terminal names and colour settings, all data",
 "The tests never run the program, let alone on a terminal; the one test of the colour choice samples conversions.",
 ["src/config/colour_choice.rs", "src/config/mod.rs", "src/main.rs"],
 [("terminal detection", "src/config/colour_choice.rs: change_based_on_tty"), ("choice of the stream", "src/main.rs: main")],
 [SO, SE])

prop("P38", "Help and the version are answered whatever else is asked",
 "Asking for help or the version, before, between or behind any other valid options and whatever data they carry, prints exactly what asking for it alone prints, on standard output and with success, and interprets nothing. Help names every option. Without any arguments the tool explains itself on standard error, prints no report and fails.",
 ["inputs", "configurations"], "all valid options, positions and data",
 "The tests only run the option parser's self-check; no test asks for help.",
 ["src/cli.rs", "src/main.rs"],
 [("help and version options", "src/cli.rs: build_cli")],
 [SO, SE])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
