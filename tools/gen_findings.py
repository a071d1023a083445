#!/usr/bin/env python3
"""Writes /verif/known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 dict(id="C06-32-homographs", property="C06", entry="sx_entry_c06_crowded", inputs=[0, 0],
   what="a lexicon with 32 rows of one surface: the number of homographs does not fit in the 5 bits lindera-dictionary-builder/src/dict.rs packs it into ((id << 5) | len), the lookup returns other words' entries"),
 dict(id="C07-32-homographs", property="C07", entry="sx_entry_c07_crowded", inputs=[0, 0, 0, 0],
   what="a user dictionary with 32 rows of one surface: the number of homographs does not fit in the 5 bits lindera-dictionary-builder/src/user_dict.rs packs it into ((id << 5) | len), the lookup returns other words' entries"),
]
FIXED = [
("C08","4a13475","a declared matrix width above 32767 was sign-extended, every cost lookup panicked"),
("C05","e45ed7e","prefix search returned entries twice or of other words, and exact search panicked, for text containing U+0000"),
("C10","c83b213","the mapping character filter stopped at, or mapped wrongly around, U+0000 in the text"),
("C12","c83b213","both mapping filters stopped at, or mapped wrongly around, U+0000 in the text"),
("C12","63bc033","both mapping filters panicked on an empty mapping"),
("C18","63bc033","a mapping filter configuration with an empty table or with U+0000 in a key panicked instead of working or being rejected"),
("C10","41a8056","offsets of the regex filter were computed from the unexpanded replacement when it refers to groups ($1)"),
("C10","58fcfb9","offsets of the regex filter for text inserted at empty matches pointed to the wrong place"),
("C10","3ddf8ee","offsets of the iteration mark filter were wrong for repeated characters that are not 3 bytes long"),
("C14","81d2d7c","Japanese and Korean tag filters panicked on tokens without details and ignored the second and third of fewer than four details"),
("C15","81d2d7c","the compound filter panicked on tokens without details and ignored the second and third of fewer than four details"),
("C16","079d35f","the number filter panicked on texts such as 百貨店 or 十二三 and turned 第十回 into 第0回"),
("C17","0090826","base form, reading form and Korean reading form panicked on known tokens without the detail, katakana stem on unassigned characters"),
("C18","9549c2a","tags of more than four parts panicked; tags of japanese_number that are not a list were ignored"),
("C19","5308d65","matrix.def with an incomplete header or line, or sizes and ids out of range, panicked; costs beyond 16 bits were truncated"),
("C19","3b056e7","ids and costs of unk.def beyond 16 bits were truncated"),
("C19","65c6599","surrogate code points of char.def were taken as U+FFFD, U+FEFF and U+FFFE were rejected"),
("C09","99dded4","a category used in a range of char.def before its definition line got the settings of another category"),
("C19","99dded4","undefined categories of char.def panicked on lookup, repeated definitions shifted the settings of the categories after them"),
("C19","9aa0a72","lexicon rows of fewer than four fields panicked"),
("C07","c6603c3","user dictionary rows of one or two fields panicked"),
("C19","ef70a68","words or details containing NUL panicked or were stored wrongly, dictionaries without words panicked"),
("C19","675272c","the ko-dic and CC-CEDICT builders panicked on every error of a source file"),
("C18","9b10372","a serialized tokenizer configuration without a user dictionary was rejected when read back"),
("C02","91ee762","path costs were summed in 32 bits: long sentences and large penalties overflowed (panic, or not the cheapest segmentation)"),
]
json.dump(dict(findings=FINDINGS, fixed=["fixed: property=%s %s %s" % f for f in FIXED]), open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
