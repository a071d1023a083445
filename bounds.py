"""What each harness entry covers (every value within the bound is decided; everything else is outside)."""
BOUNDS = {
# C01
"c01_normal": "normal mode, 9 system + 3 user words, 4 categories; every text of 0-4 characters over 8 (1-4 byte characters, two delimiters)",
"c01_plain": "normal mode without user dictionary; every text of 0-4 characters over 8",
"c01_decompose": "decompose mode (thresholds 1/2, penalties 3000/1700); every text of 0-4 characters over 8",
"c01_long": "normal mode with user dictionary; every text of 6 characters over 4",
"c01_anychar": "every Unicode scalar value between two dictionary characters or after one",
"c01_costs": "4 texts of up to 5 characters, both modes; all 17 word costs and 4 connection costs any 16-bit value",
"c01_large": "texts of more than 65535 bytes: one sentence of 22000 words, 7400 sentences, or an unknown word of 33000 characters, with 4 endings",
# C02
"c02_n2": "2-character sentence, 5 words + unknown; all 6 word costs and the 3x3 matrix any 16-bit values",
"c02_n3": "3-character sentence, same symbolic costs",
"c02_n4": "4-character sentence, every substring of up to 3 characters a word; 9 word costs and the 2x2 matrix any 16-bit values",
"c02_contexts": "2-character sentence, homographs; costs, matrix and the context ids (0-1) symbolic",
"c02_rect": "3-character sentence, rectangular 3x2 matrix; all costs symbolic",
"c02_user": "system homographs and words against overlapping or equal user words; all costs and the 2x2 matrix symbolic",
"c02_unknown": "4 texts, invoke/group flags and all costs symbolic, unknown runs with several entries",
"c02_decompose": "decompose mode, thresholds 0-3, penalties and costs any 16-bit value; sentences of 2-3 characters, kanji and mixed",
"c02_decompose2": "decompose mode with the default penalty, symbolic costs and matrix, user and unknown words",
"c02_kanji": "decompose mode; a two-character system or user word at the borders of the kanji block, alone and followed by kana or kanji; all costs and penalties any 16-bit value",
"c02_large": "a sentence of 34001 characters whose costs add up to more than 32 bits hold, of either sign; the last word's costs any 16-bit value",
"c02_penalties": "decompose mode; 3 sentences of 3 characters, thresholds 0-2, each penalty any of 4 up to the extremes of 32 bits, word costs any 16-bit value",
"c02_homographs": "93 words in three groups of homographs ending at one character, followed by a word; the costs of 4 of them spread over the groups and the 2x2 matrix any 16-bit value",
# C03
"c03_texts": "both modes; every text of 4 characters over 8 (4 delimiters)",
"c03_long": "both modes; every text of 7 characters with 4 free ones over 8",
"c03_costs": "3 texts of several sentences, both modes; costs symbolic",
"c03_history": "every text of 3 characters over 4 after each of 4 other texts, by the same tokenizer, a clone and a fresh one",
# C04
"c04_single": "normal mode; every setting of two categories' flags, every text of 3 characters over 4, costs symbolic",
"c04_decompose": "decompose mode; same with 3 characters",
"c04_ranks": "characters with one or two categories in either rank; flags, costs, mode and every text of 3 characters over 4",
"c04_run": "unknown runs up to 5 characters followed by nothing, a word or another unknown character",
"c04_user": "user and system words suppressing unknown words; flags, costs, mode and every text of 3 characters over 3",
# C05
"c05_sets": "every non-empty subset of 6 overlapping words, every text of 0-3 characters over 4; costs and ids any 16-bit value",
"c05_wide": "every subset of 4 words with 4-byte characters, every text of 0-3 characters over 4 including U+0000",
"c05_homographs": "0-3 homographs of each of 3 surfaces, every text of 0-2 characters over 3",
"c05_anychar": "9 words; every Unicode scalar value at the start, after a 3-byte or a 4-byte word character",
"c05_loaded": "from_static_slice of the serialized parts; 0-2 homographs of each of 3 surfaces, every text of 0-2 characters over 3",
"c05_crowded": "1-31 entries of one surface (31 is the most the stored number can say) between other surfaces; costs any 16-bit value",
# C08
"c08_pairs": "2x3, 3x2 and 1x4 definitions; every subset of listed pairs, in either line order, one-digit costs of either sign",
"c08_wide": "five-digit costs: every value from -32768 to 32767",
"c08_repeated": "a pair given twice, extra blanks; two-digit costs",
"c08_raw": "raw matrices of 4 shapes; every cost any 16-bit value; owned and static",
"c08_tall": "40000 left contexts, ids that need 16 bits; two-digit costs",
"c08_broad": "40000 right contexts; two-digit costs",
# C09
"c09_ranges": "every pair of ranges out of 7 (nested, adjacent, overlapping, single) with every pair of category lists out of 4, two file styles; every Unicode scalar value",
"c09_three": "every triple of ranges out of 4, category lists out of 2, reloaded or not; every Unicode scalar value",
"c09_bounds": "a range whose bounds contain symbolic hexadecimal digits of either case; every Unicode scalar value",
"c09_settings": "invoke, group and length (0-2) of three categories",
"c09_built": "through CharDefBuilder and the loader, overlapping ranges, flags; every Unicode scalar value",
# C10
"c10_mapping": "mapping filter with keys of 1 and 3 bytes; every pair of replacements out of 6 (empty, shorter, longer, multi-byte), every text of 0-4 characters over 3; every output offset",
"c10_nested": "mapping filter with three keys that overlap and nest; 6x5x3 replacements, every text of 0-5 characters over 2; every output offset",
"c10_anychar": "mapping filter; every Unicode scalar value before a key, after a key or alone; every output offset",
"c10_regex": "regex filter with 4 patterns and 6 replacements, every text of 0-3 characters over 3; every output offset",
"c10_runs": "regex a+ with 6 replacements, every text of 0-4 characters over 2; every output offset",
"c10_groups": "regex with a group and 5 replacements that refer to groups, every text of 0-4 characters over 3; every output offset",
"c10_insertions": "regex a* (matches of the empty string) with 6 replacements, every text of 0-3 characters over 2; every output offset",
"c10_normalize": "the four normal forms; every text of 0-3 characters over 8 (half and full width, voicing marks, composed and square characters); every output offset",
"c10_normalize2": "the four normal forms; every text of 0-3 characters over 9 (combining marks, ligatures, Hangul, 4-byte, CR LF); every output offset",
"c10_marks": "iteration mark filter; every text of 0-4 characters over 6 of 1, 3 and 4 bytes; every output offset",
# C11
"c11_pairs": "every chain of 0-2 character filters out of 7 (two mappings, three regexes, NFKC, iteration marks), every text of 0-3 characters over 5",
"c11_triples": "every chain of 3 character filters out of 7, every text of 0-2 characters over 4",
"c11_long": "6 chains of two character filters, every text of 5 characters over 3",
"c11_order": "every ordered pair of token filters out of 6 behind no or one of two character filters, every text of 0-3 characters over 4",
"c11_order3": "150 ordered triples of token filters, every text of 0-2 characters over 3",
"c11_anychar": "a mapping filter; every Unicode scalar value between mapped characters",
# C12
"c12_subsets": "both mapping filters; every subset of 4 overlapping and nested keys, values that contain keys, every text of 0-5 characters over 2",
"c12_multibyte": "both mapping filters; every subset of 4 keys of mixed width, every text of 0-3 characters over 4",
"c12_values": "both mapping filters; 4 pairs of nested keys, every pair of values out of 5, every text of 0-3 characters over 2-3",
"c12_third": "both mapping filters; keys of 2 and 4 characters with a shared prefix, every text of 6 characters over 2",
"c12_anychar": "both mapping filters; every Unicode scalar value between a key's first character and other keys",
"c12_empty": "both mapping filters without keys, every text of 0-2 characters over 2",
# C13
"c13_texts": "every setting of both switches, every text of 0-4 characters over 8 (4 marks)",
"c13_long": "both switches on, every text of 6 characters over 5",
"c13_kana": "every hiragana and katakana letter (but those of う) before each of 5 marks",
"c13_anychar": "every Unicode scalar value, first or second, before 3 of the marks",
# C14
"c14_words": "keep and stop words; every subset of 4 words, every three tokens out of 8 texts",
"c14_spelling": "keep and stop words; every text of 0-4 characters over 6 against words that share a prefix with it",
"c14_many": "keep and stop words; 40 words, 0-8 tokens in or out of the list",
"c14_length": "minimum and maximum absent or any 64-bit value; two tokens of 0-2 characters over 5 of 1-4 bytes",
"c14_long": "minimum and maximum any value below 256; one token of up to 35 characters",
"c14_anychar": "every Unicode scalar value in a token of 2 characters; minimum and maximum any value below 256",
"c14_japanese": "8 lists of tags; the first four details any of 3 values",
"c14_short": "every subset of 7 tags; a token with 0-3 details of 4 values",
"c14_lists": "every subset of 4 tags; every list of 0-4 tokens of 4 kinds",
"c14_korean": "every subset of 5 tags; three tokens with 0-3 details",
# C15
"c15_patterns": "every list of 0-6 tokens of 4 kinds, two tags",
"c15_configs": "every subset of 5 tags, 4 new tags, 5 dictionary kinds, every list of 3 tokens of 4 kinds",
"c15_details": "a token with 0-5 details of 4 values between two matching ones",
# C16
"c16_below": "every numeral below 10000 in 4 styles of digits, units with and without digit",
"c16_daiji": "numerals with the old form of ten, every digit",
"c16_digits": "1-7 digits in a row, the first three any, kanji and daiji mixed",
"c16_units": "a group for any unit up to 垓 and one for a lower unit, each of 8 shapes in different styles, one free digit each",
"c16_units2": "the same with two free digits each",
"c16_allunits": "every subset of the units, 4 shapes of groups, two free digits",
"c16_mixed": "two numerals of 7 shapes (one free digit) before, between and after other text",
"c16_mixed2": "the same with two free digits and more other text",
"c16_texts": "every text of 0-4 characters over 11 (digits, units, others): no panic, other text copied",
"c16_long": "every text of 6 characters over 5: no panic, other text copied",
"c16_anychar": "every Unicode scalar value other than the numerals between two numerals",
"c16_tags": "every subset of 4 tags; a token with 0-5 details of 3 values",
# C17
"c17_forms": "base form, reading form, Korean reading form; every dictionary kind, 0-19 details, one of them *, UNK or empty",
"c17_stems": "every text of 0-4 characters over 8; every minimum",
"c17_stemany": "every Unicode scalar value in a word of 3 characters; every minimum below 256",
"c17_kana": "both directions; every text of 0-3 characters over 10",
"c17_kanaany": "both directions; every Unicode scalar value between two kana",
"c17_case": "both directions; every text of 0-3 characters over 11 of 1-4 bytes, digraphs and ß",
"c17_caselong": "both directions; texts of up to 42 characters, the last two free",
"c17_caseany": "both directions; every character of 1-3 bytes but Σ between two letters",
"c17_caseascii": "both directions; every text of 3 ASCII characters",
# C18
"c18_kinds": "every ASCII string of 0-15 characters as the name of a dictionary kind; the JSON form of each kind",
"c18_modes": "every ASCII string of 0-15 characters as the name of a mode",
"c18_roundtrip": "6 dictionary kinds (or none), 4 paths, no user dictionary or 6 kinds and 2 paths, both modes with 4 penalties",
"c18_members": "every sequence of 0-3 members out of 14 well-formed and malformed ones",
"c18_character": "each of the 4 character filters, one member missing or one of 27 JSON values",
"c18_token": "each of the 17 token filters, one member missing or one of 27 JSON values",
"c18_tags": "every tag of 0-7 characters over a letter and the comma, in 4 filters and as new tag",
"c18_names": "every name that differs from a filter's name in one ASCII character, is shorter by one or longer by one",
# C06
"c06_rows": "every list of 3 rows out of 7 (homographs, duplicates, blanks around numbers, empty fields, 16-bit extremes)",
"c06_many": "4 to 13 rows, 7 arrangements",
"c06_files": "every list of 3 rows out of 4, spread over 3 CSV files in every way, empty files, a file that is not CSV",
"c06_invalid": "3 rows; any one number field replaced by one of 11 strings, another one broken or not; skipping on or off",
"c06_digits": "one number field of 5 digits, either sign for the cost: 5 leading digits, the others any; skipping on or off",
"c06_normalized": "normalization on or off; surfaces of 1-2 characters and details over 7 characters (the replaced ones, their replacements, others)",
"c06_anychar": "normalization on or off; every character of 1-2 bytes and those sharing two bytes with the normalized ones, in a detail",
"c06_quoted": "quoted surfaces of 2 and details of 0-2 characters over quote, comma, line feed and letters; 4 line endings",
"c06_kinds": "the builders of all five kinds with their encodings; every subset of 4 words; loaded and tokenized by path",
"c07_rows": 'all five kinds; every list of 1-3 rows out of 7 (both formats, homographs, empty fields, blanks, 16-bit extremes, extra fields)',
"c07_shapes": 'all five kinds; a row of 1 to 24 fields, alone or next to another',
"c07_numbers": 'all five kinds; one number field of either of 2 rows replaced by one of 11 strings',
"c07_digits": 'one number field: 4 leading digits, 4 more digits any, either sign for the cost',
"c07_options": 'UserDictBuilder with 1-4 simple and 4-6 detailed fields, flexible or not, own cost and context; a row of 1-8 fields',
"c07_quoted": 'all five kinds; quoted surfaces of 2 and details of 0-2 characters over 6 (quote, comma, line feed, blank, 4-byte character)',
"c07_saved": 'all five kinds; every list of 1-2 rows out of 7, saved to a file by either way and loaded by either way',
"c07_tokenized": 'all five kinds; every subset of 3 user rows, texts of 2 pieces out of 5',
"c19_matrix": '16 headers, 0-2 lines out of 21, with or without a final line feed; every cost of an accepted matrix is read back',
"c19_matrix_digits": 'a cost of 4-5 digits of either sign, the last 3 any; or one id any digit',
"c19_unk": '3 to 6 fields against 4 to 6 expected, one number replaced by one of 14 strings, alone or after another line',
"c19_unk_digits": 'a number of 3-5 digits, the last 3 any, as either id or as a cost of either sign',
"c19_unk_built": 'through UnkBuilder and the loader: 3, 6 or 7 fields, one number replaced by one of 14 strings',
"c19_chardef": '1-3 lines out of 25 (definitions, redefinitions, ranges, reversed, surrogate and BOM ranges, 9 malformed lines), DEFAULT first, last or nowhere; every Unicode scalar value',
"c19_chardef_built": 'through CharDefBuilder and the loader: 4 lines, one out of 25, one out of 4; every Unicode scalar value',
"c19_codepoint": 'every code point of 4 hexadecimal digits; every Unicode scalar value',
"c19_lexicon": '0-2 rows of 1-7 fields and a third or none, flexible or not, skipping or not',
"c19_weird": 'a surface or a detail out of 7 (NUL, empty, blank), alone or next to another row, skipping or not',
"c19_user": '0-2 user rows of either format, surfaces out of 7, one number of each replaced by one of 7 strings or not',
"c19_kinds": 'the builders of all five kinds; one of the four parts malformed in two ways or missing, or none',
"c06_homographs": '1 to 31 rows of one surface (11 sizes) around two other words in three places',
"c07_homographs": 'all five kinds; 1 to 31 rows of one surface (11 sizes) around two other words',
"c20_entry": 'three word entries of any id, cost and context ids, system or user',
"c20_lookup": 'four entries of any id, cost and context ids under 3 surfaces, direct, through bincode, or saved and loaded',
"c20_unk": '0-4 lines over 4 categories (one undefined), 6 arrangements of numbers, with or without further fields, reloaded or not',
"c20_unk_built": '3 lines over 4 categories through UnkBuilder and the loader',
"c20_unk_digits": 'an id or a cost of four arbitrary digits, either sign for the cost',
"c20_unk_any": 'three entries of any id, cost and context ids',
"c20_chardef": 'two categories of any settings (32-bit length), any two range boundaries; every Unicode scalar value',
"c20_dictionary": 'a whole dictionary through bincode, four connection costs any 16-bit value',
"c20_raw": '0, 1, 2, 7 or 40 bytes of any value, through bincode or not',
"c20_details": 'three words with 1-3 details, each empty or of any ASCII character and a 3-byte one',
"c21_one": 'every one-byte string; three algorithms, through bincode or not',
"c21_short": 'every string of 0-8 bytes over 0 and 255; three algorithms, through bincode or not',
"c21_repeated": '3 patterns repeated to 7 lengths up to 70000 bytes (longer than the window and every buffer)',
"c21_scrambled": 'pseudo-random data of 20, 300 or 5000 bytes with one of 16 bytes in one of 3 places',
"c23_kinds": "all five kinds as embedded in this build (stand-in dictionaries), a missing directory or none",
"c23_path": "two directories of different content, both modes; texts of 3 pieces out of 6",
"c23_missing": "a directory without one of its 7 files, or with all",
"c23_user": "10 file names (both extensions, others, none), holding a CSV or a stored dictionary, 5 kinds or none, present or not, both modes; 4 texts for each",
"c23_json": "JSON configurations with or without a user dictionary of 5 kinds, with or without a mode; texts of 2 pieces out of 4",
"c24_characters": "8 configurations of the 4 character filters; every text of 3 pieces out of 8",
"c24_tokens": "24 configurations of the 17 token filters; two tokens with details out of 4, the first of 2 characters out of 6",
"c24_chain": "0-2 character filters out of 3 and 0-2 token filters out of 4, in every order, both modes, from bytes or a file; texts of 2 pieces out of 4",
"c24_broken": "25 configurations, 22 of them malformed; from bytes and from a file",
"c24_cloned": "every character filter with every token filter, a user dictionary or none, both modes, two word costs any 16-bit value; texts of 2 pieces out of 4",
"c22_lines": "inputs of 0-3 pieces out of 6 (words, an unknown character, blanks, both line ends), from a file or standard input; 3 formats or none given, 2 modes or none given",
"c22_filters": "0-2 character filters out of 2 and 0-2 token filters out of 3 in every order, a user dictionary or none, 3 formats; two lines, the first of 2 pieces out of 3",
"c22_list": "the kinds contained in this build",
"c22_build": "all five kinds; dictionaries and user dictionaries (3 file names), well-formed or not",
"c22_errors": "11 command lines, 9 of which name something that does not exist",
"c03_large": "texts of 66000-73000 bytes, both modes: sentences of 0 to 23000 characters in turn with 3 arrangements of characters before their ends, or 6600 sentences",
"c04_large": "unknown runs of 40 to 25000 characters (to 300 in decompose mode), followed by nothing, a word or another unknown character",
"c05_large": "60 nested words; words of up to 3000 bytes; 3000 words; 2200 words of 31 entries each",
"c06_large": "rows with fields of 300 to 70000 characters; 15 to 3500 rows",
"c07_large": "all five kinds; rows with fields of 300 to 70000 characters; 7 to 1750 rows",
"c08_square": "300x300, 257x256 and 700x120 contexts; every pair listed or 5 of them, those with two-digit costs of either sign",
"c09_large": "300 categories, 40 ranges, reloaded or not; every Unicode scalar value",
"c10_large": "mapping filter; a key of 1 to 300 repetitions, a replacement of 0 to 280 bytes, 4 occurrences each followed by any of 3; every output offset",
"c10_long": "each filter on a text of 70000 to 99000 bytes; every output offset",
"c10_clusters": "the four normal forms; 3 base characters (any of 4, one with an 18-character form) with 0, 2 or 40 combining marks each; every output offset",
"c11_large": "3 chains of 6-8 character filters on texts of 6 characters, 4 of them any of 5; 4 chains and 3 lists of token filters on a text of 2000 characters",
"c12_large": "both mapping filters; 40 nested keys, keys of up to 2100 bytes, or 300 keys; texts of up to 7000 bytes with some free characters",
"c13_large": "runs of 2 to 40 marks after as many or more characters, the first two marks any; a text of 3001 characters",
"c14_large": "300 to 3000 words or tokens; tokens of 300 to 3000 characters",
"c15_large": "30 to 1500 tokens, runs of 1 to 1500",
"c16_large": "8 to 300 digits in a row, the first two any; 401 numerals between other text, one free digit",
"c17_large": "seven filters; 40 to 3000 tokens, or tokens of 41 to 12000 characters",
"c22_large": "400 lines, or lines of up to 6000 characters, from a file or standard input; 3 formats",
"c01_deep": "both modes, with and without user dictionary; every text of 5 characters over 8",
"c03_deep": "both modes; every text of 5 characters over 8 (4 delimiters)",
"c04_deep": "normal mode; as single with 4 characters",
"c10_deep": "the four normal forms on texts of 0-4 characters over 8; mapping filter on texts of 0-6 characters over 3",
"c11_deep": "every chain of 3 character filters out of 7, every text of 0-4 characters over 4",
"c13_deep": "every setting of both switches, every text of 0-6 characters over 8 (4 marks)",
"c08_huge": "a matrix of 67 x 65535 pairs, from its stored form (6 costs any 16-bit value) or built from text (6 costs of one digit)",
"c09_nested": "40 nested and overlapping ranges, up to 40 categories for one character; every Unicode character",
}
