PROPS = {
 "C01": {"bin": "c01", "entries": [
    dict(name="sx_entry_c01_normal", covers=["several tokens","unknown","system","user","empty text"]),
    dict(name="sx_entry_c01_plain", covers=["several tokens","unknown","system","empty text"]),
    dict(name="sx_entry_c01_decompose", covers=["several tokens","unknown","system","user","empty text"]),
    dict(name="sx_entry_c01_long", covers=["several tokens","unknown","system","user"]),
    dict(name="sx_entry_c01_anychar", covers=["several tokens","unknown","system","user"]),
    dict(name="sx_entry_c01_costs", covers=["several tokens","unknown","system","user"]),
    dict(name="sx_entry_c01_large", covers=["several tokens","unknown","system","user"], max_steps=2_000_000_000, samples=2),
    dict(name="sx_entry_c01_deep", covers=["several tokens","unknown","system","user"], tiers=("thorough",)),
  ]},
 "C02": {"bin": "c02", "entries": [
    dict(name="sx_entry_c02_n2", covers=["several paths"]),
    dict(name="sx_entry_c02_n3", covers=["several paths"]),
    dict(name="sx_entry_c02_n4", covers=["several paths"]),
    dict(name="sx_entry_c02_contexts", covers=["several paths"]),
    dict(name="sx_entry_c02_rect", covers=["several paths"]),
    dict(name="sx_entry_c02_user", covers=["several paths"]),
    dict(name="sx_entry_c02_unknown", covers=["several paths"]),
    dict(name="sx_entry_c02_decompose", covers=["several paths"]),
    dict(name="sx_entry_c02_decompose2", covers=["several paths"]),
    dict(name="sx_entry_c02_kanji", covers=["system", "user"]),
    dict(name="sx_entry_c02_large", covers=["one word", "two words"], max_steps=2_000_000_000, samples=2),
    dict(name="sx_entry_c02_penalties", covers=["several paths"]),
    dict(name="sx_entry_c02_homographs", covers=["many paths"]),
 ]},
 "C03": {"bin": "c03", "entries": [
    dict(name="sx_entry_c03_texts", covers=["several sentences"]),
    dict(name="sx_entry_c03_long", covers=["several sentences"]),
    dict(name="sx_entry_c03_costs", covers=["several sentences"]),
    dict(name="sx_entry_c03_history", covers=["compared"]),
    dict(name="sx_entry_c03_large", covers=["several sentences"], max_steps=3_000_000_000, samples=2),
    dict(name="sx_entry_c03_deep", covers=["several sentences"], tiers=("thorough",)),
 ]},
 "C04": {"bin": "c04", "entries": [
    dict(name="sx_entry_c04_single", covers=["unknown","known","grouped"]),
    dict(name="sx_entry_c04_decompose", covers=["unknown","known","grouped"]),
    dict(name="sx_entry_c04_ranks", covers=["unknown","known","grouped"]),
    dict(name="sx_entry_c04_run", covers=["unknown","known","grouped"]),
    dict(name="sx_entry_c04_user", covers=["unknown","known","grouped"]),
    dict(name="sx_entry_c04_large", covers=["unknown", "known", "grouped"], max_steps=3_000_000_000, samples=2),
    dict(name="sx_entry_c04_deep", covers=["unknown","known","grouped"], tiers=("thorough",)),
 ]},
 "C05": {"bin": "c05", "entries": [
    dict(name="sx_entry_c05_sets", covers=['several prefixes', 'exact match', 'no exact match']),
    dict(name="sx_entry_c05_wide", covers=['several prefixes', 'exact match']),
    dict(name="sx_entry_c05_homographs", covers=['several prefixes', 'exact match']),
    dict(name="sx_entry_c05_anychar", covers=['several prefixes', 'exact match']),
    dict(name="sx_entry_c05_loaded", covers=['several prefixes']),
    dict(name="sx_entry_c05_crowded", covers=['several prefixes', 'exact match']),
    dict(name="sx_entry_c05_large", covers=["several prefixes", "exact match"], max_steps=3_000_000_000, samples=2),
 ]},
 "C08": {"bin": "c08", "entries": [
    dict(name="sx_entry_c08_pairs", covers=['unlisted', 'negative', 'positive']),
    dict(name="sx_entry_c08_wide", covers=['negative', 'positive']),
    dict(name="sx_entry_c08_repeated", covers=['checked']),
    dict(name="sx_entry_c08_raw", covers=['checked']),
    dict(name="sx_entry_c08_tall", covers=['checked']),
    dict(name="sx_entry_c08_broad", covers=['checked']),
    dict(name="sx_entry_c08_huge", covers=["stored", "built"], max_steps=3_000_000_000, samples=2),
    dict(name="sx_entry_c08_square", covers=["checked"], max_steps=3_000_000_000, samples=2),
 ]},
 "C09": {"bin": "c09", "entries": [
    dict(name="sx_entry_c09_nested", covers=["default", "listed"], max_steps=3_000_000_000),
    dict(name="sx_entry_c09_ranges", covers=['default', 'listed', 'several categories']),
    dict(name="sx_entry_c09_three", covers=['default', 'listed', 'several categories']),
    dict(name="sx_entry_c09_bounds", covers=['default', 'listed']),
    dict(name="sx_entry_c09_settings", covers=['checked']),
    dict(name="sx_entry_c09_built", covers=['default', 'listed', 'several categories']),
    dict(name="sx_entry_c09_large", covers=["listed", "default"], max_steps=3_000_000_000, samples=2),
 ]},
 "C10": {"bin": "c10", "entries": [
    dict(name="sx_entry_c10_mapping", covers=['removed', 'longer', 'shorter', 'left alone']),
    dict(name="sx_entry_c10_nested", covers=['removed', 'longer', 'shorter', 'left alone']),
    dict(name="sx_entry_c10_anychar", covers=['removed', 'longer', 'left alone']),
    dict(name="sx_entry_c10_regex", covers=['removed', 'longer', 'shorter', 'left alone']),
    dict(name="sx_entry_c10_runs", covers=['removed', 'longer', 'shorter', 'left alone']),
    dict(name="sx_entry_c10_groups", covers=['longer', 'shorter', 'removed']),
    dict(name="sx_entry_c10_insertions", covers=['longer', 'left alone']),
    dict(name="sx_entry_c10_normalize", covers=['longer', 'shorter', 'left alone']),
    dict(name="sx_entry_c10_normalize2", covers=['longer', 'shorter', 'left alone']),
    dict(name="sx_entry_c10_marks", covers=['longer', 'shorter', 'left alone']),
    dict(name="sx_entry_c10_large", covers=["removed", "longer", "shorter", "left alone"], max_steps=3_000_000_000, samples=2),
    dict(name="sx_entry_c10_long", covers=["removed", "longer", "shorter", "left alone"], max_steps=3_000_000_000, samples=2),
    dict(name="sx_entry_c10_clusters", covers=["longer", "left alone"], max_steps=3_000_000_000, samples=2),
    dict(name="sx_entry_c10_deep", covers=[], tiers=("thorough",)),
 ]},
 "C12": {"bin": "c12", "entries": [
    dict(name="sx_entry_c12_subsets", covers=['replaced', 'removed', 'copied']),
    dict(name="sx_entry_c12_multibyte", covers=['replaced', 'copied']),
    dict(name="sx_entry_c12_values", covers=['replaced', 'removed', 'copied']),
    dict(name="sx_entry_c12_third", covers=['replaced', 'copied']),
    dict(name="sx_entry_c12_anychar", covers=['replaced', 'removed', 'copied']),
    dict(name="sx_entry_c12_empty", covers=['copied']),
    dict(name="sx_entry_c12_large", covers=["replaced", "copied"], max_steps=3_000_000_000, samples=2),
 ]},
 "C13": {"bin": "c13", "entries": [
    dict(name="sx_entry_c13_texts", covers=['expanded', 'several marks', 'too many marks']),
    dict(name="sx_entry_c13_long", covers=['expanded', 'several marks', 'too many marks']),
    dict(name="sx_entry_c13_kana", covers=['expanded']),
    dict(name="sx_entry_c13_anychar", covers=['expanded', 'too many marks']),
    dict(name="sx_entry_c13_large", covers=["expanded", "several marks"], max_steps=3_000_000_000, samples=2),
    dict(name="sx_entry_c13_deep", covers=['expanded', 'several marks', 'too many marks'], tiers=("thorough",)),
 ]},
 "C14": {"bin": "c14", "entries": [
    dict(name="sx_entry_c14_words", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_spelling", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_many", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_length", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_long", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_anychar", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_japanese", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_short", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_lists", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_korean", covers=['removed', 'retained']),
    dict(name="sx_entry_c14_large", covers=["removed", "retained"], max_steps=3_000_000_000, samples=2),
 ]},
 "C15": {"bin": "c15", "entries": [
    dict(name="sx_entry_c15_patterns", covers=['merged', 'single', 'other']),
    dict(name="sx_entry_c15_configs", covers=['merged', 'single', 'other']),
    dict(name="sx_entry_c15_details", covers=['merged', 'single', 'other']),
    dict(name="sx_entry_c15_large", covers=["merged", "other"], max_steps=3_000_000_000, samples=2),
 ]},
 "C16": {"bin": "c16", "entries": [
    dict(name="sx_entry_c16_below", covers=['converted']),
    dict(name="sx_entry_c16_daiji", covers=['converted']),
    dict(name="sx_entry_c16_digits", covers=['converted']),
    dict(name="sx_entry_c16_units", covers=['converted']),
    dict(name="sx_entry_c16_units2", covers=["converted"], tiers=("thorough",)),
    dict(name="sx_entry_c16_mixed2", covers=["converted"], tiers=("thorough",)),
    dict(name="sx_entry_c16_allunits", covers=['converted']),
    dict(name="sx_entry_c16_mixed", covers=['converted']),
    dict(name="sx_entry_c16_texts", covers=['converted']),
    dict(name="sx_entry_c16_long", covers=['converted']),
    dict(name="sx_entry_c16_anychar", covers=['converted']),
    dict(name="sx_entry_c16_tags", covers=['converted', 'left alone']),
    dict(name="sx_entry_c16_large", covers=["converted"], max_steps=3_000_000_000, samples=2),
 ]},
 "C17": {"bin": "c17", "entries": [
    dict(name="sx_entry_c17_forms", covers=['rewritten', 'left alone']),
    dict(name="sx_entry_c17_stems", covers=['rewritten', 'left alone']),
    dict(name="sx_entry_c17_stemany", covers=['rewritten', 'left alone']),
    dict(name="sx_entry_c17_kana", covers=['rewritten', 'left alone']),
    dict(name="sx_entry_c17_kanaany", covers=['rewritten']),
    dict(name="sx_entry_c17_case", covers=['rewritten', 'left alone']),
    dict(name="sx_entry_c17_caselong", covers=['rewritten', 'left alone']),
    dict(name="sx_entry_c17_caseany", covers=['rewritten']),
    dict(name="sx_entry_c17_caseascii", covers=['rewritten', 'left alone']),
    dict(name="sx_entry_c17_large", covers=["left alone", "rewritten"], max_steps=3_000_000_000, samples=2),
 ]},
 "C11": {"bin": "c11", "entries": [
    dict(name="sx_entry_c11_pairs", covers=['boundary', 'no character filter']),
    dict(name="sx_entry_c11_triples", covers=['boundary']),
    dict(name="sx_entry_c11_long", covers=['boundary']),
    dict(name="sx_entry_c11_order", covers=['boundary', 'no character filter']),
    dict(name="sx_entry_c11_order3", covers=['no character filter']),
    dict(name="sx_entry_c11_anychar", covers=['boundary']),
    dict(name="sx_entry_c11_large", covers=["boundary"], max_steps=3_000_000_000, samples=2),
    dict(name="sx_entry_c11_deep", covers=[], tiers=("thorough",)),
 ]},
 "C18": {"bin": "c18", "entries": [
    dict(name="sx_entry_c18_kinds", covers=['accepted', 'rejected']),
    dict(name="sx_entry_c18_modes", covers=['accepted', 'rejected']),
    dict(name="sx_entry_c18_roundtrip", covers=['round trip']),
    dict(name="sx_entry_c18_members", covers=['accepted', 'rejected']),
    dict(name="sx_entry_c18_character", covers=['accepted', 'rejected']),
    dict(name="sx_entry_c18_token", covers=['accepted', 'rejected']),
    dict(name="sx_entry_c18_tags", covers=['accepted', 'rejected']),
    dict(name="sx_entry_c18_names", covers=['accepted', 'rejected']),
 ]},
 "C19": {"bin": "c19", "entries": [
    dict(name="sx_entry_c19_matrix", covers=['rejected', 'cost']),
    dict(name="sx_entry_c19_matrix_digits", covers=['rejected', 'cost']),
    dict(name="sx_entry_c19_unk", covers=['rejected', 'entry']),
    dict(name="sx_entry_c19_unk_digits", covers=['rejected', 'entry']),
    dict(name="sx_entry_c19_unk_built", covers=['rejected', 'entry']),
    dict(name="sx_entry_c19_chardef", covers=['rejected', 'category']),
    dict(name="sx_entry_c19_chardef_built", covers=['rejected', 'category']),
    dict(name="sx_entry_c19_codepoint", covers=['listed', 'default']),
    dict(name="sx_entry_c19_lexicon", covers=['rejected', 'found']),
    dict(name="sx_entry_c19_weird", covers=['found']),
    dict(name="sx_entry_c19_user", covers=['rejected', 'found']),
    dict(name="sx_entry_c19_kinds", covers=['built', 'rejected']),
 ]},
 "C07": {"bin": "c07", "entries": [
    dict(name="sx_entry_c07_rows", covers=['found', 'homographs']),
    dict(name="sx_entry_c07_homographs", covers=['found', 'homographs']),
    dict(name="sx_entry_c07_shapes", covers=['found', 'rejected']),
    dict(name="sx_entry_c07_numbers", covers=['found', 'rejected']),
    dict(name="sx_entry_c07_digits", covers=['found', 'rejected']),
    dict(name="sx_entry_c07_options", covers=['found', 'rejected']),
    dict(name="sx_entry_c07_quoted", covers=['found']),
    dict(name="sx_entry_c07_saved", covers=['saved']),
    dict(name="sx_entry_c07_tokenized", covers=['user token']),
    dict(name="sx_entry_c07_large", covers=["found"], max_steps=3_000_000_000, samples=2),
 ]},
 "C20": {"bin": "c20", "entries": [
    dict(name="sx_entry_c20_entry", covers=['read']),
    dict(name="sx_entry_c20_lookup", covers=['found']),
    dict(name="sx_entry_c20_unk", covers=['several']),
    dict(name="sx_entry_c20_unk_built", covers=['several']),
    dict(name="sx_entry_c20_unk_digits", covers=['parsed']),
    dict(name="sx_entry_c20_unk_any", covers=['read']),
    dict(name="sx_entry_c20_chardef", covers=['listed', 'default']),
    dict(name="sx_entry_c20_dictionary", covers=['read']),
    dict(name="sx_entry_c20_raw", covers=['read']),
    dict(name="sx_entry_c20_details", covers=['read']),
 ]},
 "C21": {"bin": "c21", "entries": [
    dict(name="sx_entry_c21_one", covers=['compared']),
    dict(name="sx_entry_c21_short", covers=['compared']),
    dict(name="sx_entry_c21_scrambled", covers=['compared']),
    dict(name="sx_entry_c21_repeated", covers=['compared']),
 ]},
 "C06": {"bin": "c06", "entries": [
    dict(name="sx_entry_c06_rows", covers=['found', 'homographs', 'absent']),
    dict(name="sx_entry_c06_many", covers=['found', 'homographs']),
    dict(name="sx_entry_c06_homographs", covers=['found', 'homographs']),
    dict(name="sx_entry_c06_files", covers=['found', 'homographs']),
    dict(name="sx_entry_c06_invalid", covers=['found', 'rejected', 'skipped']),
    dict(name="sx_entry_c06_digits", covers=['found', 'rejected', 'skipped']),
    dict(name="sx_entry_c06_normalized", covers=['found']),
    dict(name="sx_entry_c06_anychar", covers=['found']),
    dict(name="sx_entry_c06_quoted", covers=['found']),
    dict(name="sx_entry_c06_kinds", covers=['found', 'one token']),
    dict(name="sx_entry_c06_large", covers=["found"], max_steps=3_000_000_000, samples=2),
 ]},
 "C23": {"bin": "c23", "entries": [
    dict(name="sx_entry_c23_kinds", covers=['contained', 'not contained']),
    dict(name="sx_entry_c23_path", covers=['one', 'two']),
    dict(name="sx_entry_c23_missing", covers=['loaded', 'rejected']),
    dict(name="sx_entry_c23_user", covers=['CSV', 'stored', 'rejected']),
    dict(name="sx_entry_c23_json", covers=['user dictionary', 'no user dictionary']),
 ]},
 "C24": {"bin": "c24", "entries": [
    dict(name="sx_entry_c24_characters", covers=['changed', 'left alone']),
    dict(name="sx_entry_c24_tokens", covers=['fewer', 'changed', 'left alone']),
    dict(name="sx_entry_c24_chain", covers=['compared']),
    dict(name="sx_entry_c24_broken", covers=['accepted', 'rejected']),
    dict(name="sx_entry_c24_cloned", covers=['compared']),
 ]},
 "C22": {"bin": "c22", "entries": [
    dict(name="sx_entry_c22_lines", covers=['several lines', 'several tokens', 'an empty line']),
    dict(name="sx_entry_c22_filters", covers=['several lines', 'several tokens']),
    dict(name="sx_entry_c22_list", covers=['listed']),
    dict(name="sx_entry_c22_build", covers=['user dictionary', 'dictionary', 'rejected']),
    dict(name="sx_entry_c22_errors", covers=['accepted', 'rejected']),
    dict(name="sx_entry_c22_large", covers=["several lines", "several tokens"], max_steps=3_000_000_000, samples=2),
 ]},
}

NOT_APPLICABLE = {}
