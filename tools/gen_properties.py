#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=None)))

VIT='lindera-core/src/viterbi.rs'; TOK='lindera-tokenizer/src/tokenizer.rs'
p('C01','Tokenization is a lossless partition of the text',
  'For every text and every well-formed dictionary (every character has a category and every category has at least one unknown-word entry), with or without a user dictionary and in either mode, tokenize returns Ok and its tokens, in order, cover the whole text without gap or overlap: each token is exactly the slice text[byte_start..byte_end], its byte_start is the previous token\'s byte_end (0 for the first), the last byte_end is the text length, and no token is empty. Token positions are 0,1,2,... and every position_length is 1. The empty text gives no tokens.',
  ['inputs','configurations'],'every text (mixed 1-, 3- and 4-byte characters, sentence delimiters anywhere), every well-formed dictionary / user dictionary, both modes',
  'The tests that tokenize need downloaded dictionaries and sample a few sentences; the offsets, sentence splitting and lattice code interact on every input.',
  [TOK,VIT],[('sentence loop, byte_position/position bookkeeping','tokenizer.rs Tokenizer::tokenize'),('lattice construction guarantees a path to EOS','viterbi.rs Lattice::set_text'),('tokens_offset','viterbi.rs')],
  [('byte_position','absolute offset of the next token','Tokenizer::tokenize'),('ends_at/starts_at','edges by boundary','Lattice')],['Tokenizer::tokenize'])
p('C02','The segmentation chosen has minimum total cost',
  'In normal mode the tokens returned for a sentence form a path of minimum total cost, where the cost of a path is the sum of the word costs of its entries plus the connection cost between every pair of adjacent entries, including the begin-of-sentence and end-of-sentence contexts (context id 0); no other way of covering the sentence with the dictionary, user-dictionary and unknown-word entries available at each position is cheaper. In decompose mode the same holds with each entry additionally charged its length penalty.',
  ['inputs','configurations'],'every assignment of word costs, context ids and connection costs, every sentence, both modes',
  'Tests only look at the best segmentation of a handful of sentences for one fixed cost table; optimality is a statement about all cost tables and all competing paths.',
  [VIT,'lindera-core/src/mode.rs','lindera-core/src/connection.rs'],[('dynamic programming over boundaries','viterbi.rs Lattice::calculate_path_costs'),('penalty','mode.rs Penalty::penalty'),('cost lookup','connection.rs ConnectionCostMatrix::cost')],
  [('path_cost/left_edge','best prefix cost and predecessor','Edge')],['Tokenizer::tokenize token boundaries and word ids'])
p('C03','Sentences are tokenized independently and repeatably',
  'Tokenizing a text is the concatenation of tokenizing each of its sentences alone, where a sentence ends just after each of the four delimiters U+3002, U+3001, line feed and tab: same token texts, same word ids and details, with byte offsets and positions shifted by what precedes. Tokenizing the same text again, with the same tokenizer or a clone of it, gives the same result, whatever was tokenized before.',
  ['inputs','histories'],'every split of a text at delimiters, every sequence of sentences handled by one reused lattice, every repetition',
  'The lattice buffers are reused between sentences of different lengths; stale state only shows for particular sequences of sentences, which tests do not enumerate.',
  [TOK,VIT],[('split_inclusive','Tokenizer::tokenize'),('clearing of reused buffers','Lattice::clear / set_capacity')],None,['Tokenizer::tokenize'])
p('C04','Unknown words follow the character-category rules',
  'At a position where unknown-word processing applies (normal mode: not inside a stretch already taken by an unknown word; decompose mode: every reachable position), each category of the first character that has its invoke flag set, or when no dictionary word starts there, offers its unknown-word entries for a candidate word; the candidate is the maximal run of following characters sharing that category (at the same rank among their categories) when the group flag is set and the single character otherwise. Tokens that come from such an entry are reported as unknown words with the details ["UNK"]; tokens that come from a dictionary or user-dictionary entry never are.',
  ['inputs','configurations'],'every text and every assignment of categories, invoke/group flags, unknown-word entries and dictionary words',
  'Only a couple of real-world char.def files and sentences are exercised; the flags interact with matches found in the dictionary at every position.',
  [VIT,'lindera-core/src/unknown_dictionary.rs','lindera-tokenizer/src/token.rs'],[('process_unknown_word','viterbi.rs'),('lookup_word_ids/word_entry','unknown_dictionary.rs'),('UNK details','token.rs Token::get_details')],None,['Tokenizer::tokenize','Token::get_details'])
p('C05','Prefix lookup returns exactly the dictionary words that are prefixes',
  'For every set of words and every text, a prefix lookup in a built dictionary returns every entry whose surface is a prefix of the text, and nothing else, each exactly once with the surface\'s byte length and with the costs and ids it was registered with, shorter surfaces before longer ones; looking up a surface exactly returns all entries of precisely that surface, or nothing. Entries of the system dictionary are marked as system words, those of a user dictionary are not.',
  ['inputs','configurations'],'every word list (shared prefixes, homographs, multi-byte surfaces) and every text',
  'The lookups are only tested through whole tokenizations with real dictionaries, which are not available offline.',
  ['lindera-core/src/prefix_dict.rs','lindera-core/src/word_entry.rs','lindera-dictionary-builder/src/dict.rs','lindera-dictionary-builder/src/user_dict.rs'],[('prefix / find_surface decode offset and length packed in the trie value','prefix_dict.rs'),('WordEntry::deserialize','word_entry.rs')],None,['PrefixDict::prefix','PrefixDict::find_surface'])
p('C06','A built system dictionary gives back its source rows',
  'Building a dictionary directory from source files and loading it loses nothing: every accepted CSV row is found under its surface with exactly its left id, right id and cost, and its word id leads to exactly its remaining fields (at least one) as details, in order. Rows whose cost or ids do not parse are left out entirely when the builder is configured to skip them and make the build fail with an error otherwise; with normalization on, U+2015 becomes U+2014 and U+FF5E becomes U+301C in surfaces and details and nothing else changes.',
  ['inputs','configurations'],'every set of CSV rows (any order, homographs, empty fields, invalid numbers), builder options',
  'No test builds a dictionary and reads it back row by row; ids are assigned after sorting so mistakes depend on row order and duplicates.',
  ['lindera-dictionary-builder/src/dict.rs','lindera-dictionary/src/lib.rs','lindera-core/src/dictionary.rs','lindera-core/src/prefix_dict.rs'],[('sorting, id assignment, words/wordsidx layout','dict.rs DictBuilder::build'),('word_details','dictionary.rs Dictionary::word_details'),('DictionaryLoader','lindera-dictionary')],None,['DictBuilder::build then DictionaryLoader / Dictionary::word_details'])
p('C07','User dictionary rows are faithfully represented and take part in tokenization',
  'Every row of a user dictionary CSV is represented: a row in the simple format gets the configured default cost and context id and the details its dictionary kind defines for it, a row in the detailed format gets its own ids and cost and its remaining fields as details; a row of any other shape, or with ids or a cost that are not numbers in range, makes the build fail with an error, never a panic (a builder that requires rows of one length may also reject a file mixing the formats). Saving a user dictionary to a file and loading it back gives the same lookups and details.',
  ['inputs','configurations'],'every CSV row shape and content, for each dictionary kind\'s builder',
  'Tests cover two row shapes per kind with fixed content and one or two invalid rows.',
  ['lindera-dictionary-builder/src/user_dict.rs','lindera-core/src/dictionary.rs','lindera-dictionary/src/lib.rs','lindera-ipadic-builder/src/ipadic_builder.rs','lindera-ko-dic-builder/src/ko_dic_builder.rs','lindera-unidic-builder/src/unidic_builder.rs','lindera-cc-cedict-builder/src/cc_cedict_builder.rs'],[('UserDictBuilder::build','user_dict.rs'),('simple details handlers','*_builder.rs'),('UserDictionary::word_details / load','dictionary.rs')],None,['build_user_dict','UserDictionary::load','word_details'])
p('C08','Connection costs are those of the matrix definition',
  'After building a matrix definition file and loading the result (owned or static), the cost between any left context f and right context b within the declared sizes is exactly the number given for (f, b), negative numbers included, and the maximum 16-bit cost for pairs the file does not list.',
  ['inputs','configurations'],'every declared size (square or not), every order of lines, every 16-bit cost',
  'No test reads a connection cost back from a built matrix.',
  ['lindera-dictionary-builder/src/cost_matrix.rs','lindera-core/src/connection.rs'],[('index = backward + forward * backward_size','both files'),('header written and read','CostMatrixBuilder::build, ConnectionCostMatrix::load/load_static')],None,['ConnectionCostMatrix::cost'])
p('C09','Character categories are those of the character definition file',
  'For every character, the categories looked up are exactly those the definition file assigns: the union, in file order and without duplicates, of the categories of all ranges containing it (both bounds inclusive), or the DEFAULT category when no range contains it; the invoke, group and length settings and the name found for a category are those of its own definition line. This also holds for characters beyond the highest range and after serializing and reloading the definitions.',
  ['inputs','configurations'],'every character of Unicode, every list of possibly overlapping ranges and category lines',
  'The existing tests query a lookup table at a handful of points; boundaries of overlapping ranges are where errors hide.',
  ['lindera-core/src/character_definition.rs','lindera-dictionary-builder/src/chardef.rs'],[('LookupTable::from_fn / eval over sorted boundaries','character_definition.rs'),('CharacterDefinitionsBuilder::parse','character_definition.rs')],None,['CharacterDefinitions::lookup_categories','lookup_definition','category_name'])
p('C10','Each character filter\'s offset map points back into the original text',
  'A character filter (mapping, regex, unicode normalization, iteration marks) splits its input into stretches - characters left alone and pieces replaced (or removed, or inserted) as a whole - and writes them one after the other. For every input text, the offset correction data it returns with its output maps every output offset that is a boundary between stretches, the start and the end included, to that same boundary in the input; where stretches were removed the position before or after what was removed are both right. Corrected offsets never leave the input\'s range and never decrease as the output offset grows.',
  ['inputs','configurations'],'every text, every mapping / replacement (shorter, longer, empty), any number and adjacency of replacements',
  'Tests check a few texts by hand; shrinking and growing replacements accumulate and interact.',
  ['lindera-filter/src/character_filter.rs','lindera-filter/src/character_filter/mapping.rs','lindera-filter/src/character_filter/regex.rs','lindera-filter/src/character_filter/unicode_normalize.rs','lindera-filter/src/character_filter/japanese_iteration_mark.rs'],[('offsets/diffs accumulation','apply of each filter'),('add_offset_diff, correct_offset','character_filter.rs')],None,['CharacterFilter::apply','correct_offset'])
p('C11','The analyzer reports offsets into the original text through any filter chain',
  'When an analyzer runs any sequence of character filters before tokenizing, every token it returns has byte offsets within the original text, with byte_start <= byte_end, non-decreasing from token to token, and every token boundary that lies between stretches of every filter (see C10) is reported as that boundary of the original text, on either side of what was removed there - so a token whose characters all filters left alone, and next to which nothing was removed, has original[byte_start..byte_end] equal to its text. With no character filter the analyzer\'s tokens are exactly the tokenizer\'s tokens, then passed through the token filters in the configured order; analyzing again, or with a clone of the analyzer, gives the same tokens.',
  ['inputs','configurations','histories'],'every text and every chain of character filters and token filters',
  'Only single filters on fixed sentences are tested; composition of corrections must hold for every chain.',
  ['lindera-analyzer/src/analyzer.rs','lindera-filter/src/character_filter.rs'],[('offsets_vec applied in reverse order','Analyzer::analyze'),('Clone for Analyzer','analyzer.rs')],None,['Analyzer::analyze'])
p('C12','Mapping filters replace greedily, longest match first',
  'For every mapping table and text, the mapping character filter and the mapping token filter scan left to right and at each point replace the longest table key that matches there by its value, otherwise copy the character unchanged; everything that is not replaced is preserved, and replacement text is not scanned again. An empty table changes nothing.',
  ['inputs','configurations'],'every table (nested and overlapping keys, empty values, multi-byte keys) and every text',
  'Tests use tables with one or two keys on one sentence.',
  ['lindera-filter/src/character_filter/mapping.rs','lindera-filter/src/token_filter/mapping.rs'],[('common_prefix_search(..).last()','apply of both filters'),('sorted keyset for the double array','new')],None,['apply'])
p('C13','Iteration marks expand to the characters they repeat',
  'With normalization enabled for its script, a run of n iteration marks following at least n ordinary characters is replaced by repeating the n characters before it, kanji marks repeating them as they are, plain kana marks repeating kana of their script unvoiced and voiced kana marks repeating them voiced (for the rows か, さ, た and は, where a voiced or unvoiced form exists), and repeating anything else as it is; every other character, and marks whose script is not enabled, stay unchanged, and the number of characters never changes. No text makes the filter panic, in particular not a text starting with a mark or with more marks than preceding characters.',
  ['inputs','configurations'],'every text over kana, kanji and marks, every setting of the two flags',
  'Tests expand about a dozen strings; positions of marks relative to the text start are where the index arithmetic can fail.',
  ['lindera-filter/src/character_filter/japanese_iteration_mark.rs'],[('normalize: index arithmetic on mark positions','japanese_iteration_mark.rs'),('dakuon tables','*_add_dakuon / *_remove_dakuon')],None,['JapaneseIterationMarkCharacterFilter::apply'])
p('C14','Keep, stop and length filters select exactly the configured tokens',
  'Keep-words and keep-tags filters retain exactly the tokens whose text, or part-of-speech tag, is configured; stop-words and stop-tags filters remove exactly those; the length filter retains exactly the tokens whose number of characters lies between the configured minimum and maximum, both inclusive and each optional. For Japanese tags a configured tag and a token\'s first four details compare after padding with "*" to four parts, for Korean tags the first detail decides. Retained tokens keep their order and all of their fields.',
  ['inputs','configurations'],'every token list (any details, including unknown words) and every configured set',
  'Tests use two fixed token lists; the complement relation and preservation of fields hold for all lists.',
  ['lindera-filter/src/token_filter/keep_words.rs','lindera-filter/src/token_filter/stop_words.rs','lindera-filter/src/token_filter/japanese_keep_tags.rs','lindera-filter/src/token_filter/japanese_stop_tags.rs','lindera-filter/src/token_filter/korean_keep_tags.rs','lindera-filter/src/token_filter/korean_stop_tags.rs','lindera-filter/src/token_filter/length.rs'],[('Vec::retain with set membership','apply of each filter')],None,['TokenFilter::apply'])
p('C15','Compounding merges exactly the adjacent tokens with configured tags',
  'The compound-word filter replaces every maximal run of consecutive tokens whose tag is configured by one token whose text is the concatenation of their texts, which starts where the first starts and ends where the last ends, whose position is the first one\'s and whose position_length is the sum of theirs; a run of one token is left as it is, merged tokens carry the configured new tag (default 複合語, padded with "*"), and all other tokens are unchanged and in order.',
  ['inputs','configurations'],'every token list and every tag set, new tag and dictionary kind',
  'Tests cover three fixed token lists; the run logic must be right for every pattern of matching and non-matching tokens.',
  ['lindera-filter/src/token_filter/japanese_compound_word.rs'],[('compound_token_opt state machine','apply'),('concat_token','japanese_compound_word.rs')],None,['JapaneseCompoundWordTokenFilter::apply'])
p('C16','Japanese numerals are converted to the number they denote',
  'For every well-formed numeral written with Arabic (half- or full-width) or kanji digits, the multipliers 十百千 and the units 万億兆京垓, alone, with leading text or before or after other text, the number filter writes the decimal digits of exactly the number it denotes, with an omitted leading one understood, and copies the surrounding non-numeric text. When tags are configured only tokens with such a tag are changed, otherwise all are; no token text of any form, well-formed numeral or not, makes the filter panic.',
  ['inputs','configurations'],'every numeral of the grammar and every text mixing numeral and other characters, every tag setting',
  'Tests convert a few dozen numerals; digit padding is accumulated arithmetic over string lengths and fails for specific combinations.',
  ['lindera-filter/src/token_filter/japanese_number.rs'],[('to_arabic_numerals / adjust_digits','japanese_number.rs')],None,['JapaneseNumberTokenFilter::apply'])
p('C17','Rewriting token filters change the text as documented and nothing else',
  'Base-form and reading-form filters replace the text of every known token by the corresponding detail of its dictionary kind and leave unknown tokens (first detail UNK) and tokens without that detail alone; the katakana-stem filter removes exactly one trailing prolonged sound mark from all-katakana tokens longer than the configured minimum; lowercase, uppercase and kana-conversion filters convert exactly the characters of their class. None of them changes any other field, the number or the order of tokens, and none panics on any token text.',
  ['inputs','configurations'],'every token list, every token text, every dictionary kind and configuration',
  'Tests use fixed sentences; characters outside the sampled blocks, empty texts and unknown words are not covered.',
  ['lindera-filter/src/token_filter/japanese_base_form.rs','lindera-filter/src/token_filter/japanese_reading_form.rs','lindera-filter/src/token_filter/korean_reading_form.rs','lindera-filter/src/token_filter/japanese_katakana_stem.rs','lindera-filter/src/token_filter/japanese_kana.rs','lindera-filter/src/token_filter/lowercase.rs','lindera-filter/src/token_filter/uppercase.rs'],[('apply','each filter')],None,['TokenFilter::apply'])
p('C18','Configurations round-trip and bad ones are rejected with an error',
  'Every dictionary kind and mode name parses to the value whose name it is and prints back the same, and any other string is rejected with an error; a tokenizer configuration serialized to JSON and read back is equal to the original, with mode defaulting to normal and user dictionary to none when absent, and duplicate or missing required fields rejected. Malformed filter arguments (wrong types, missing required fields, too many tag parts) and unknown filter names yield an error and never a panic.',
  ['inputs','configurations'],'every configuration value and every malformed variation of one',
  'Tests parse a few literal configurations; round trip and rejection are statements about all of them.',
  ['lindera-tokenizer/src/tokenizer.rs','lindera-core/src/mode.rs','lindera-dictionary/src/lib.rs','lindera-filter/src/token_filter.rs','lindera-filter/src/character_filter.rs','lindera-filter/src/lib.rs'],[('Deserialize for TokenizerConfig','tokenizer.rs'),('FromStr','mode.rs, lindera-dictionary'),('*Config::from_slice/from_value','filters'),('loaders','token_filter.rs, character_filter.rs')],None,['serde_json round trips','FromStr','*Loader::load_from_value'])
p('C19','Malformed dictionary sources are reported as errors',
  'Whatever the content of the source files (rows with too few fields, numbers out of range or not numbers, ranges with bad bounds, category lines of the wrong shape, matrix headers or lines that are incomplete or out of range), building a dictionary part returns an error or a dictionary that behaves per the other properties; it never panics and never silently stores a different number.',
  ['inputs'],'every content of char.def, unk.def, matrix.def and lexicon CSV files',
  'Two or three malformed user-dictionary rows are tested; other builders are not tested with malformed input at all.',
  ['lindera-dictionary-builder/src/dict.rs','lindera-dictionary-builder/src/cost_matrix.rs','lindera-core/src/character_definition.rs','lindera-core/src/unknown_dictionary.rs','lindera-dictionary-builder/src/user_dict.rs'],[('field parsing and length checks','each builder')],None,['*Builder::build results'])
p('C20','Stored data reads back unchanged',
  'Word entries written and read back are equal for every cost and id; unknown-word entries, character definitions and user dictionaries serialized and deserialized behave identically; data compressed without an algorithm (raw) decompresses to itself; and unknown-word definitions parse to exactly the ids and cost given on each line, grouped under the category named by the line, in file order.',
  ['inputs'],'every value of every stored field',
  'One word entry and one random compression buffer are tested.',
  ['lindera-core/src/word_entry.rs','lindera-core/src/unknown_dictionary.rs','lindera-compress/src/lib.rs','lindera-decompress/src/lib.rs'],[('WordEntry::serialize/deserialize','word_entry.rs'),('parse_unk','unknown_dictionary.rs'),('compress/decompress','lindera-compress, lindera-decompress')],None,['round trips'])
p('C21','Deflate, zlib and gzip compressed dictionary data decompresses to itself',
  'For every byte string, compressing it with the deflate, zlib or gzip algorithm and decompressing the result gives back the same bytes.',
  ['inputs'],'every byte string and each algorithm',
  'One random buffer with one algorithm is tested.',
  ['lindera-compress/src/lib.rs','lindera-decompress/src/lib.rs'],[('flate2 encoders/decoders chosen by algorithm','compress / decompress')],None,['compress, decompress'])
p('C22','The command line tool prints what the library computes',
  'For every input, from a file or standard input, and every combination of options, the tokenize command prints for each line (without surrounding blanks) exactly the tokens the analyzer built from the same dictionary, user dictionary, mode and filters in the order given returns: in mecab format text, tab and comma-separated details and EOS after each line, in wakati format the texts separated by blanks, in json format an array with text, details, offsets and word id of every token; the list command prints exactly the dictionaries contained; the build command writes the files the library builder of the kind writes. Whatever the library rejects, missing files and unknown formats make the tool fail without printing tokens.',
  ['inputs','configurations'],'every input text, every combination of options',
  'The CLI has no tests.',
  ['lindera-cli/src/main.rs'],[('tokenize, mecab_output, json_output, wakati_output','lindera-cli/src/main.rs'),('list, build','lindera-cli/src/main.rs')],None,['standard output and exit status of the program, files written'])
p('C23','A configuration loads the dictionary it names',
  'A dictionary configuration naming a kind loads the embedded dictionary of that kind, exactly for the kinds listed as contained; one giving a directory loads the dictionary stored in that directory; a missing directory, a directory lacking any of the dictionary files, or a configuration naming neither is an error. A user dictionary configuration loads CSV files as the builder of its kind reads them and stored (.bin) files as they were stored, and rejects a CSV file without a kind, a missing file and any other extension. A tokenizer built from such a configuration uses these dictionaries and the configured mode and tokenizes as one built from the loaded parts.',
  ['inputs','configurations'],'every dictionary and user dictionary configuration, every state of the files it names, every text',
  'The tests load one embedded dictionary and two user dictionary files; loading from a directory is not tested at all.',
  ['lindera-dictionary/src/lib.rs','lindera-tokenizer/src/tokenizer.rs'],[('DictionaryLoader::load_*','lindera-dictionary/src/lib.rs'),('Tokenizer::from_config','tokenizer.rs')],None,['DictionaryLoader::load_dictionary_from_config, load_user_dictionary_from_config, Tokenizer::from_config'])
p('C24','An analyzer configuration builds the chain it describes',
  'An analyzer built from a configuration (bytes or file) applies exactly the character filters and token filters listed, in the order listed, each with the arguments given, around the tokenizer described, and so returns the same tokens as an analyzer assembled from these parts; every filter loaded by name and arguments, from a JSON value, from bytes or from a command line flag, behaves as the one constructed directly with these arguments, and a clone of a filter or analyzer behaves as the original. A configuration without a tokenizer, with an unknown filter or with malformed arguments, and a missing file, are errors.',
  ['inputs','configurations'],'every configuration, every text',
  'Tests build two analyzers from a configuration and check a few token texts.',
  ['lindera-analyzer/src/analyzer.rs','lindera-filter/src/character_filter.rs','lindera-filter/src/token_filter.rs','lindera-filter/src/lib.rs'],[('Analyzer::from_config, AnalyzerConfig::from_file','analyzer.rs'),('CharacterFilterLoader, TokenFilterLoader','lindera-filter')],None,['Analyzer::from_config, *Loader::load_from_value, load_from_cli_flag'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
