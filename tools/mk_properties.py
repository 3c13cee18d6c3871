#!/usr/bin/env python3
"""Writes properties.jsonl. Edit here."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
  a = {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
  if observe: a['observe_at'] = [observe] if isinstance(observe, str) else observe
  P.append({'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over.split(), 'text': qtext},
            'why_tests_cant': why, 'anchors': a})
S = 'nisaba/scripts/'
BR = S + 'brahmic/'
AB = S + 'abjad_alphabet/'
NT = S + 'natural_translit/'

# ---------------------------------------------------------------- Brahmic
p('B01', 'Brahmic NFC equals Unicode canonical composition',
  'For text in a supported Brahmic script whose combining marks are in canonical order, with the parts of a composed letter side by side, NFC normalization returns exactly the Unicode NFC form. For any text it returns exactly one result, that result is canonically equivalent to the input and is a fixed point of the normalization, and characters of other scripts pass through unchanged.',
  'inputs', 'every string over the 20 scripts, joiners and foreign characters; every per-script grammar, the pan-Brahmic one, byte and code-point token types',
  'The grammar tests list a few dozen words per script; they never meet combinations of composable parts with intervening marks, chains of compositions, mixed scripts or characters outside the tables.',
  BR + 'nfc.py ' + BR + 'data/*/nfc.textproto ' + S + 'utils/rule.py',
  [('NFC rule tables compiled to rewrite transducers', BR + 'nfc.py'), ('rule ordering', S + 'utils/rule.py')],
  observe='nisaba.scripts.brahmic.Nfc().ApplyOnText; nfc.far, nfc_utf8.far')
p('B02', 'Byte and code-point grammars agree, per script and pan-script',
  'For every text a Brahmic or abjad/alphabet grammar is defined on, its byte version and its code-point version give the same answer, except for the pan-Brahmic romanization for which only the byte version is supported. The pan-Brahmic NFC and romanization agree with those of the single script on any text written in that script.',
  'inputs configurations', 'every string over a script\'s own characters and joiners, every exported rule of every grammar archive',
  'The same few textproto cases are run over both versions; agreement on all other strings is never compared.',
  BR + 'nfc.py ' + BR + 'iso.py ' + BR + 'visual_norm.py ' + BR + 'wellformed.py ' + BR + 'reading_norm.py ' + BR + 'sigma.py ' + AB + 'nfc.py ' + AB + 'visual_norm.py ' + AB + 'reading_norm.py ' + AB + 'reversible_roman.py',
  [('one grammar exported for two token types', BR + 'nfc.py'), ('code-point alphabet', BR + 'sigma.py')],
  observe='*.far and *_utf8.far')
p('B03', 'Brahmic romanization is reversible up to NFC',
  'For every supported Brahmic script, whenever text of that script can be romanized to ISO 15919, converting the romanization back to the script gives exactly the NFC form of the original text. A romanization obtained this way, once converted to the script and romanized again, comes back unchanged.',
  'inputs', 'every string over the characters, letter sequences and joiners of each of the 20 scripts',
  'The random round-trip test is disabled (its size is enormous) and the unit tests list a few words; ambiguity between units (dead consonants, independent vowels after consonants, stray signs) appears only in particular combinations.',
  BR + 'iso.py ' + BR + '__init__.py ' + BR + 'data',
  [('weighted unit grammar and its inverse', BR + 'iso.py'), ('letter tables', BR + 'data/consonant.textproto')],
  observe='ToIso().ApplyOnText, IsoTo(script).ApplyOnText; FROM_X / TO_X')
p('B04', 'Pan-Brahmic romanization is total and local on mixed text',
  'Romanizing any Unicode text whatever succeeds, leaves characters outside the supported scripts (markup characters, brackets, backslashes, emoji, other scripts) exactly as they are, and leaves no letter, vowel sign or virama of a supported script in the output (but for a bare consonant of a script without an inherent vowel, Thaana, which has no romanization and stays). Text pieces separated by an out-of-script character are romanized independently of each other.',
  'inputs', 'every string mixing runs of the 20 scripts with arbitrary other characters',
  'API tests apply a handful of words; nothing samples mixed-script lines, stray signs, or characters special to the underlying string compiler.',
  BR + 'iso.py ' + BR + '__init__.py ' + S + 'utils/far.py',
  [('rewrite of the union of all scripts', BR + 'iso.py'), ('text wrapper', S + 'utils/far.py')],
  observe='nisaba.scripts.brahmic.ToIso().ApplyOnText')
p('B05', 'Romanization follows the published letter tables and ISO conventions',
  'Romanization of native text composes, unit by unit, the published mapping of each letter: a bare consonant gets the inherent vowel, a vowel sign or virama replaces it, an independent vowel after another unit\'s vowel is set off by a period, a dangling vowel sign by a hyphen, a stray virama by a breve, and joiners have their own symbols. No other output is produced.',
  'inputs', 'every string over each script; the oracle is an independent shortest-segmentation model over the published tables (which mappings.md documents)',
  'Tests list selected words; the interaction of unit kinds and the table entries of rare letters are mostly unexercised.',
  BR + 'iso.py ' + BR + 'README.md ' + BR + 'mappings.md ' + BR + 'data',
  [('unit grammar with priorities', BR + 'iso.py')],
  observe='FROM_X of iso.far, ToIso()')
p('B06', 'Visual normalization respects words: total, stable, well-formed',
  'Visual normalization accepts every string and returns exactly one result; canonically equivalent spellings normalize alike; a well-formed word in NFC normalizes to a well-formed word that is a fixed point. Joiners and zero-width spaces survive only inside the protected sequences directly between two consonants, and characters of other scripts survive unchanged.',
  'inputs', 'every string over the 20 scripts, their language variants, joiners and foreign characters',
  'Tests pin particular word pairs; the interactions between composition, repeated marks, rewrites and joiner clean-up are combinatorial.',
  BR + 'visual_norm.py ' + BR + 'char_util.py ' + BR + '__init__.py',
  [('cascade NFC, de-duplication, rewrites, joiner clean-up', BR + 'visual_norm.py')],
  observe='VisualNorm(script).ApplyOnText')
p('B07', 'Visual normalization performs exactly the published rewrites',
  'The result of visual normalization is NFC, then collapsing of immediately repeated nonspacing marks and joiners, then the published visual rewrites (longer patterns before the patterns inside them), then removal of unprotected joiners, then, for language variants, the published rewrites next to consonants, and nothing else.',
  'inputs', 'every string over each script and language variant; the oracle is an independent string-rewriting model over the published tables',
  'Tests cover individual rewrites on individual words, not overlapping, adjacent or nested occurrences.',
  BR + 'visual_norm.py ' + BR + 'char_util.py ' + S + 'utils/rule.py ' + BR + 'data/*/visual_rewrite.textproto',
  [('rewrite cascade', BR + 'visual_norm.py'), ('bleeding order', S + 'utils/rule.py')],
  observe='visual_norm.far')
p('B08', 'Well-formedness accepts exactly the orthographic syllables',
  'A string is accepted as well-formed in a script if and only if it splits into orthographic syllables of the script: consonant clusters joined by viramas (or protected joiner sequences) with at most one vowel sign, or an independent vowel, followed by at most one length sign, coda and final dead consonant; clusters ending in a virama; and listed standalone or exceptional strings. In scripts without inherent vowels a cluster needs a vowel sign.',
  'inputs', 'every string over each of the 20 scripts and foreign characters, both accepted and rejected',
  'Tests list accepted and rejected examples; the language is infinite and the interesting strings are near-misses.',
  BR + 'wellformed.py ' + BR + 'data',
  [('syllable grammar', BR + 'wellformed.py')],
  observe='WellFormed(script).AcceptText')
p('B09', 'The normalizing acceptor normalizes or rejects, word by word',
  'For any word the normalizing acceptor either returns its visual norm, when that norm is well-formed, or raises the ill-formed error, whatever characters the word contains; an unknown script raises the script error. Applied to a line it keeps every ignored character in place and treats each maximal run of other characters as a word.',
  'inputs configurations', 'every word, every line and every set of ignored characters, in every script',
  'The API test uses a handful of clean words; arbitrary text (brackets, backslashes, markup, custom separators) is untested.',
  BR + '__init__.py ' + S + 'utils/far.py',
  [('NormalizingAcceptor', BR + '__init__.py'), ('text acceptance', S + 'utils/far.py')],
  observe='NormalizingAcceptor.ApplyOnWord / ApplyOnText')
p('B10', 'Brahmic reading normalization performs exactly the published rewrites',
  'Reading normalization of text applies the script\'s published reading rewrites and then those of the language, longer patterns before patterns inside them, and changes nothing else; it accepts every string and has exactly one result.',
  'inputs', 'every string over the scripts and languages with reading norms, with foreign characters',
  'Tests check single words per rewrite.',
  BR + 'reading_norm.py ' + BR + 'data/*/reading_norm.textproto ' + S + 'utils/rule.py',
  [('reading rewrites', BR + 'reading_norm.py')], observe='reading_norm.far')
p('B11', 'Fixed-rule transliteration from Latin is total and word-local',
  'The fixed-rule Latin to Malayalam transliteration gives for each lower-case Latin word it accepts exactly one best Malayalam string that contains no Latin letter, that agrees between byte and code-point versions, and that equals converting the cascade-rewritten romanization through the ISO grammar.',
  'inputs', 'every string of lower-case Latin letters and the tables\' multi-letter patterns',
  'Tests list a few words.',
  BR + 'fixed.py ' + BR + 'data/Mlym/fixed.textproto', [('cascading rules then ISO', BR + 'fixed.py')], observe='fixed.far')

# ---------------------------------------------------------------- abjad
p('A01', 'Arabic-script NFC preserves canonical equivalence',
  'NFC of any Perso-Arabic text in the supported alphabet is a single result canonically equivalent to the input, and equals the Unicode NFC form whenever each letter carries marks already in canonical order. It performs exactly the published compositions and reorderings, and applying it to such a result changes nothing.',
  'inputs', 'every string over the supported Arabic-script alphabet and ASCII',
  'Tests list letters and a few words; the order of several marks and composition after reordering only matters in longer sequences.',
  AB + 'nfc.py ' + AB + 'data/Arab/nfc.textproto', [('composition and reordering rules', AB + 'nfc.py')],
  observe='nisaba.scripts.abjad_alphabet.Nfc().ApplyOnText')
p('A02', 'Arabic-script romanization is reversible',
  'Whenever Perso-Arabic text can be romanized by the reversible romanization, de-romanizing the result gives exactly the NFC of the text; each letter is romanized by its published equivalent. On arbitrary mixed text the romanization API never fails, changes no character outside the script and leaves no mapped letter behind.',
  'inputs', 'every string over the romanizable letters and arbitrary surrounding text',
  'The random round-trip test is not run (enormous); unit tests cover each letter alone, so ambiguities between concatenated romanizations cannot show.',
  AB + 'reversible_roman.py ' + AB + '__init__.py ' + AB + 'data/Arab/reversible_roman.textproto',
  [('letter table closure and its inverse', AB + 'reversible_roman.py')],
  observe='ToReversibleRoman / FromReversibleRoman')
p('A03', 'Arabic-script visual norm applies positional rules exactly',
  'Visual normalization for a language folds presentation forms, composes, applies the common rewrites, then the language\'s rewrites: those for any position, then those for letters followed by another character, then those for the end of a word with something before it, then those for a letter that is the whole word; nothing else changes.',
  'inputs', 'every word over the supported alphabet, in each of the 14 languages',
  'Tests list words per language; position-dependent rules must hold in every context and combine with one another.',
  AB + 'visual_norm.py ' + AB + 'visual_norm_common.py ' + AB + 'data/Arab',
  [('positional cascade', AB + 'visual_norm.py'), ('script-wide rewrites', AB + 'visual_norm_common.py')],
  observe='VisualNorm(tag).ApplyOnText')
p('A04', 'The Arabic-script API normalizes word by word and rejects unknown tags',
  'Normalizing a line equals replacing each maximal run of non-ignored characters by the visual norm of its NFC, keeping ignored characters in place; the reading norm performs exactly the published rewrites of the language. Tags are case-insensitive and an unsupported tag raises the tag error.',
  'inputs configurations', 'every line over the supported alphabet, every set of ignored characters, every language tag',
  'The API test has a few calls.',
  AB + '__init__.py ' + AB + 'reading_norm.py', [('Normalizer', AB + '__init__.py')], observe='Normalizer, ReadingNorm')

# ---------------------------------------------------------------- utilities
p('U01', 'Unordered rule sets rewrite longer patterns first',
  'Compiling an unordered set of string rewrite rules gives a transducer that rewrites every occurrence of every pattern, with a pattern acting before any pattern it contains, scanning left to right, independent of the order in which the rules are listed; text without a pattern is unchanged. The partition into layers keeps each rule exactly once, puts no two patterns with one inside the other in the same layer, and rejects files with an empty left-hand side.',
  'inputs configurations', 'every rule set over a small alphabet without duplicate left-hand sides, every order of it, every text',
  'The test compiles one or two fixed rule files.',
  S + 'utils/rule.py ' + S + 'utils/rewrite.py', [('layering by containment', S + 'utils/rule.py'), ('rewrite composition', S + 'utils/rewrite.py')],
  observe='partition_unordered, fst_from_rules, fst_from_rule_file')
p('U02', 'Cascading rules act one after another in file order',
  'Compiling a cascading rule file gives a transducer equal to applying each rule to the whole text in the order of the file, left to right, feeding the next rule; comments, escapes and empty right-hand sides are honoured and a missing file is an error.',
  'inputs configurations', 'every ordered rule list over a small alphabet and every text',
  'One fixed rule file is tested.',
  S + 'utils/rule.py ' + S + 'utils/rewrite.py', [('sequential composition', S + 'utils/rule.py')], observe='fst_from_cascading_rule_file')
p('U03', 'Composing a cascade does not depend on how it is associated',
  'The composition helper returns, for every list of transducers, the same relation as composing them left to right; an empty list gives the stated default and a single one is returned as is. Contextual rewriting changes exactly the occurrences whose left and right contexts match.',
  'inputs programs', 'every list of small transducers and every text',
  'Composition order is chosen by state counts, so each association order is exercised only by particular sizes.',
  S + 'utils/rewrite.py', [('state-count heuristic', S + 'utils/rewrite.py')], observe='ComposeFsts, Rewrite, RewriteAndComposeFsts')
p('U04', 'The text API treats every string literally',
  'Applying or testing a grammar on a text treats every character of the text other than U+0000, including brackets, backslashes and control characters, as itself; a text outside the grammar\'s domain raises the input error on application and is reported as not accepted by the acceptor test. Looking up the same rule twice gives the same behaviour, and an unknown rule or a non-acceptor is reported, never misapplied.',
  'inputs histories', 'every string and every sequence of look-ups on an archive',
  'Tests apply two or three words.',
  S + 'utils/far.py', [('escaping and shortest path', S + 'utils/far.py')], observe='Far.Fst(rule).ApplyOnText / AcceptText')
p('U05', 'Character tables convert from named form without loss',
  'Converting a table of Unicode names and raw strings yields, for each item in order, exactly the characters or named sequences (with the declared prefixes) and the raw strings; an item whose name and raw form disagree, whose name is ambiguous or unknown, or which is empty is rejected with an error. The published tables of the library are exactly the conversion of its sources.',
  'inputs', 'every table of names, prefixes and raw strings; every table in the library',
  'Tests convert a few items; most combinations of prefixes, sequences and raw strings are not exercised.',
  S + 'utils/unicode_strings_util.py ' + S + 'utils/unicode_strings_to_tsv.py ' + S + 'utils/proto.py',
  [('name resolution', S + 'utils/unicode_strings_util.py')], observe='convert_item, read_textproto, the tsv converter')
p('U06', 'Letter and character inventories are exactly those of the sources',
  'The letter table read from a source lists every item in order with exactly its letter, languages and regions, rejecting letters whose name and raw form disagree; the characters collected from string tables are exactly those of the declared columns; the alphabet compiled from them accepts exactly one such character or a joiner; and the characters, consonants and marks known for each script are those of its published tables.',
  'inputs configurations', 'every letter table, every set of string tables, every script', 'One letter table is checked for sanity; nothing checks the derived inventories.',
  S + 'utils/letter_languages.py ' + S + 'utils/char.py ' + BR + 'char_util.py ' + BR + 'sigma.py ' + AB + 'util.py', [('letter table reader', S + 'utils/letter_languages.py'), ('character sets and alphabets', S + 'utils/char.py')], observe='letter_languages.read_textproto, derive_chars, derive_sigma, script_chars')

# ---------------------------------------------------------------- natural translit: features
p('N01', 'Feature distances form the documented metric',
  'The distance between two feature values is zero for equal values and for the wildcard, the documented step count for ordinal scales (linear or wrapped around for cyclic ones, uniform for unordered sets), the maximum for the not-applicable value, symmetric, and bounded by the maximum of its scale; the distance between sets is the smallest distance between members. Values of different aspects are never comparable as near. What is printed of features, aspects, inventories, profiles and comparisons states these values and distances.',
  'inputs configurations', 'every scale layout (lists, nested lists, linear, cyclic, equidistant, any step) and every pair of values or value sets',
  'Tests compute a few distances on a fixed inventory.',
  NT + 'utils/feature.py', [('distance computation', NT + 'utils/feature.py')], observe='Feature.distance, similarity')
p('N02', 'Feature sets and profiles follow set algebra without aliasing',
  'Feature sets behave as mathematical sets under union, intersection, difference, replacement and copying, ranges contain exactly the values between their ends along the scale, and complements partition the aspect. Updating a profile changes the given aspects of that profile only: no other profile, copy or default ever changes.',
  'histories inputs', 'every sequence of construction, copying, updating, comparing and combining sets and profiles',
  'Tests perform single operations; aliasing shows only after copy-then-update histories.',
  NT + 'utils/feature.py', [('Set, Profile, MultiProfile', NT + 'utils/feature.py')], observe='Feature.Set, Profile, MultiProfile')
p('N03', 'Expressions obey their algebra',
  'Expression trees report the symbols, string, length and equality of the sequence they denote; a concatenation or alternation accepts exactly the sequences its parts allow, containment and prefix/suffix tests agree with the denoted sets of sequences, and building an expression never alters its parts.',
  'inputs histories', 'every expression tree over a symbol inventory, every other sequence, every order of construction',
  'Tests check hand-picked expressions.',
  NT + 'utils/expression.py', [('expression classes', NT + 'utils/expression.py')], observe='Expression methods')
p('N04', 'Symbol inventories look up and transcribe consistently',
  'Every symbol of an inventory is found by its alias, index, text and raw form and by no other key, refused additions change nothing, parsing raw text returns one symbol for each character, whose raw forms join to the text again, with known symbols reused and unknown characters becoming explicit new symbols, pairing symbols by features links exactly the two and never changes a control symbol, and derived operations have distinct indices and lead back to the operation they derive from.',
  'inputs histories', 'every set of symbols added in any order and every text',
  'Tests build one inventory.',
  NT + 'utils/symbol.py ' + NT + 'utils/inventory.py ' + NT + 'script/grapheme.py ' + NT + 'utils/operation.py',
  [('inventories', NT + 'utils/symbol.py')], observe='Symbol.Inventory, Grapheme.Inventory')
p('N05', 'Rewrite helpers change only what their contexts select',
  'The alignment-based rewrite helpers (rewrite, reassign, merge, insert, delete and their word-initial, final and contextual forms) rewrite, from left to right, every occurrence whose contexts match, looking across alignment signs as documented, and leave everything else unchanged, with a single result for every word.',
  'inputs programs', 'every rule over a small unit alphabet, with every combination of contexts, and every sequence of units',
  'Tests apply single rules to single words.',
  NT + 'utils/rewrite_functions.py ' + NT + 'utils/alignment.py ' + NT + 'utils/concat.py',
  [('aligned rewrites', NT + 'utils/rewrite_functions.py')], observe='rewrite_functions, alignment')
p('N06', 'Lattices give each coordinate one state of their own',
  'A lattice gives every coordinate inside its bounds one state of its transducer, created once and never shared with another coordinate unless assigned so, every coordinate outside the bounds its error state, and prints its nodes and states accordingly; lattices that were not given a common transducer or error node are independent of each other.',
  'inputs histories', 'every sequence of lattice operations', 'Tests build one or two lattices.',
  NT + 'utils/lattice.py', [('lattice', NT + 'utils/lattice.py')], observe='Lattice')
p('N07', 'List flattening and typed lookups keep every item in order',
  'Typed and untyped collections, inventories and transducer lists flatten nested iterables as documented, keeping every valid item once and in order and refusing everything else; lookups give the default only for missing keys; the explicit missing and unspecified values are never equal to anything; transducer lists compose, concatenate and unite exactly their items, which they never change.',
  'inputs', 'every nested structure of values including missing markers', 'Tests use fixed lists.',
  NT + 'utils/type_op.py ' + NT + 'utils/fst_list.py ' + NT + 'utils/concat.py ' + NT + 'utils/log_op.py', [('type_op', NT + 'utils/type_op.py'), ('FstList', NT + 'utils/fst_list.py')], observe='type_op functions, FstList')
p('N08', 'Natural romanization gives every ISO word one plain Latin spelling',
  'For each of the nine languages, every string of ISO letters has exactly one natural romanization, made only of lower-case ASCII letters (for Hindi also the upper-case letters of words that spell out English letter names), which is the one the language\'s documented pronunciation and spelling rules lead to, applied in their order; byte and code-point grammars and the end-to-end grammars give the same.',
  'inputs configurations', 'every word over the ISO letters, each language',
  'Tests list words per language; unusual letter combinations may fall through rules, have several outputs, none, or the wrong one.',
  NT + 'romanization ' + NT + 'languages ' + NT + 'brahmic/romanizer.py ' + NT + 'brahmic/acronym.py ' + NT + 'brahmic/g2p.py ' + NT + 'language_params ' + NT + 'utils/rewrite_functions.py',
  [('romanizer pipelines', NT + 'brahmic/romanizer.py'), ('language rules', NT + 'language_params')], observe='*_iso_nat.far, languages/*_e2e.far')
p('N09', 'The pan-South-Asian schemes spell pronunciations unit for unit',
  'For each of the nine languages, every string of ISO letters has exactly one fine-grained and one coarse-grained pan-South-Asian romanization in lower-case ASCII letters: its pronunciation spelled unit for unit from the published correspondences, long vowels doubled in the fine scheme, while the coarse scheme drops length and repetition; the two differ in nothing else (syllabic vocalics apart). Byte, code-point and end-to-end grammars agree.',
  'inputs configurations', 'every ISO word of every language', 'Only single words are tested, never pairs of schemes.',
  NT + 'brahmic/romanizer.py ' + NT + 'romanization ' + NT + 'phonology ' + NT + 'language_params', [('PSA schemes', NT + 'brahmic/romanizer.py')], observe='psaf / psac rules')
p('N10', 'Deromanization is total, follows the mappings, and agrees in script and ISO',
  'Every string of lower-case Latin letters has exactly one Hindi and one Tamil deromanization, in native letters only, given by the language\'s letter mappings (longest mapping first; long, aspirated and geminated forms; vowels as signs after consonants; virama between consonants as documented); the script conversion of the ISO deromanization is the native deromanization; byte and code-point grammars agree.',
  'inputs', 'every string of lower-case Latin letters', 'Tests list a few dozen words.',
  NT + 'brahmic/deromanizer.py ' + NT + 'brahmic/derom_inventory.py ' + NT + 'deromanization', [('deromanizer', NT + 'brahmic/deromanizer.py')], observe='hi_deva, hi_iso, ta_taml, ta_iso')
p('N11', 'English spell-out is a letter-by-letter map',
  'Spelling out an English letter string in a target script equals joining the spellings of its letters in that language (with a space between letters in Arabic script, and a zero-width non-joiner after dead consonants except at the end of the word), whatever the case of the letters; anything but letters is refused; spellings are normalized, each letter\'s is well-formed, and byte and code-point grammars agree.',
  'inputs', 'every string of ASCII letters, every target', 'Tests list a few acronyms.',
  NT + 'brahmic/en_spellout.py ' + NT + 'deromanization/en_spellout.py', [('spell-out tables', NT + 'brahmic/en_spellout.py')], observe='en_spellout.far')
p('N12', 'Every ISO word has one pronunciation, by the rules of the language',
  'For each of the nine languages, every string of ISO letters has exactly one pronunciation, built only from the phonetic symbols of the inventory, which is the one the language\'s documented rules (schwa deletion, nasal assimilation, voicing, gemination, vowel quality and the rest) lead to, applied in their order; byte, code-point and end-to-end grammars agree; no graphemes or internal markup remain.',
  'inputs configurations', 'every ISO word, each language', 'Tests list a few words.',
  NT + 'brahmic/g2p.py ' + NT + 'brahmic/grapheme_inventory.py ' + NT + 'g2p ' + NT + 'language_params ' + NT + 'utils/rewrite_functions.py ' + NT + 'utils/alignment.py', [('g2p rules', NT + 'brahmic/g2p.py')], observe='*_iso_ipa.far, languages/*_e2e.far')

p('N13', 'Phones carry the features of their place on the IPA chart',
  "Every phone of the multilingual inventory has exactly the features that the row and the column of its IPA symbol stand for, a unique index and alias, and an atomic expression with the same features; phones are as similar as the documented distances of their features add up to. Whatever is added, copied, updated or synchronized in a phone inventory changes that phone or expression only: a copy is independent, an update replaces the aspects given, synchronizing brings atomic expressions and alternations up to date, and a symbol has a feature, a list of features, its language and the families above it, and no others. Every ISO language code stands for its language.",
  'inputs histories configurations', 'every phone, every pair of phones and group of aspects, every history of changes, every language code', 'The inventory test has no test case; the others use three vowels.',
  NT + 'phonology/phonological_symbol.py ' + NT + 'phonology/inventories/x_uni.py ' + NT + 'phonology/features/descriptive.py ' + NT + 'phonology/features/language.py ' + NT + 'utils/feature.py ' + NT + 'utils/expression.py', [('phone inventory', NT + 'phonology/phonological_symbol.py'), ('chart', NT + 'phonology/inventories/x_uni.py'), ('features', NT + 'phonology/features/descriptive.py')], observe='Phon, Phon.Inventory, x_uni.PHONEMES, Language.from_iso')

p('N14', 'Sounds and characters are built from their parts, as the phone table says',
  "The multilingual inventory has exactly the sounds of the published phone table, with the alias, internal string, acceptor, base and final transliteration, components, IPA and features it states, and each is found by its alias. A sound derived, composed or imported from others has the names, features, acceptor, IPA and transliterations of its parts in their order, however deeply they are nested (a derived sound without a transliteration of its own has the base one of the sound it comes from), and the parts stay as they were. Characters, doubled, upper-case and composite characters likewise. The inventories and grammars made from lists of sounds and characters transliterate, read and print exactly the units of the list and leave the others alone.",
  'inputs histories', 'every row of the table; every sequence of derivations and compositions; every list of sounds or characters and every word over them', 'These libraries have no tests of their own.',
  NT + 'phonology/phon.py ' + NT + 'phonology/modify_phon.py ' + NT + 'phonology/phoneme_inventory.py ' + NT + 'phonology/docs/phon_table.md ' + NT + 'script/char.py ' + NT + 'latin/ltn_inventory.py', [('derivation and composition', NT + 'phonology/modify_phon.py'), ('sounds', NT + 'phonology/phon.py'), ('inventory', NT + 'phonology/phoneme_inventory.py'), ('characters', NT + 'script/char.py')], observe='Phon, modify_phon, phoneme_inventory, Char and the functions of char')

# ---------------------------------------------------------------- tools and C++
p('T01', 'Multi-reference character error rate is the optimal transport cost',
  'The error of a set of weighted hypotheses against a set of weighted references is the minimum total edit distance over all ways of matching their probability mass; it is zero for equal distributions, unaffected by the order of the entries, and the length it is normalised by is the expected reference length.',
  'inputs', 'every pair of small weighted string sets', 'The test computes one example.',
  'nisaba/translit/tools/emd_cer.py nisaba/translit/tools/calculate_emd_cer.py', [('transport problem', 'nisaba/translit/tools/emd_cer.py')], observe='emd_error_and_length, the command-line tool')
p('C01', 'The thread pool runs every task exactly once',
  'Every task scheduled on a thread pool whose workers are started before it is destroyed runs exactly once and has completed when the destructor returns; tasks start in the order they were scheduled, a free worker takes the next task without waiting for others, and at most the stated number run at a time, whatever the number of threads and producers, with no data race.',
  'schedules histories', 'every number of threads, tasks and producers; every interleaving the machine gives',
  'The tests run two fixed scenarios on one or a few schedules.',
  'nisaba/port/thread_pool.h', [('work queue', 'nisaba/port/thread_pool.h')], observe='ThreadPool')
p('C02', 'UTF-8 tokenization splits exactly at the stated delimiters',
  'Splitting any valid UTF-8 text at Unicode whitespace (breaking or all) or at a given set of code points finds every delimiter and nothing else, so that joining the pieces with the delimiters restores the text; code-point splitting, decoding and encoding round-trip and reject invalid input; nothing is read outside the text, valid or not.',
  'inputs', 'every text and every byte string (how malformed text is split is unspecified)', 'Tests use a few strings.',
  'nisaba/port/utf8_delimiters.h nisaba/port/utf8_delimiters.cc nisaba/port/unicode_properties.h nisaba/port/unicode_properties.cc nisaba/port/utf8_util.h nisaba/port/utf8_util.cc',
  [('delimiter search', 'nisaba/port/utf8_delimiters.cc')], observe='Utf8WhitespaceDelimiter, utf8_util')
p('C03', 'Wordpiece segmentation is a lossless greedy merge',
  'The word pieces of a text concatenate back to its whitespace-separated words, each with the word-initial mark ("\u2581" unless another is given) in front; every piece is a vocabulary entry or a single character; the pieces result from merging, again and again, the adjacent pair that ranks first in the vocabulary (leftmost first among equals). The transducer from words to pieces holds the same pieces, and vocabularies given as a list or as a file mean the same.',
  'inputs configurations', 'every vocabulary and every text', 'The tests use one vocabulary.',
  'nisaba/translit/fst/wordpiece-segmenter.h nisaba/translit/fst/wordpiece-segmenter.cc', [('greedy merge', 'nisaba/translit/fst/wordpiece-segmenter.cc')], observe='WordpieceSegmenter')
p('C04', 'Error-rate calculation uses the minimum edit distance',
  'For every item the reported insertions, deletions and substitutions are the minimum number between the best-scoring hypothesis and the reference that gives the lowest error rate, over characters or words, and the overall rate is the exact total. The pairwise output is valid JSON and gives, per item, all edit distances between hypotheses and references, the reference lengths in the same units, and probabilities that sum to one.',
  'inputs', 'every set of reference and hypothesis files whose references are not blank', 'One example file is tested.',
  'nisaba/translit/tools/calculate_error_rate.h nisaba/translit/tools/calculate_error_rate.cc', [('edit transducer', 'nisaba/translit/tools/calculate_error_rate.cc')], observe='MultiRefErrorRate')
p('C05', 'File helpers read back exactly what is there',
  'Path joining, line reading, whole-file reading, file objects and protocol-buffer files return or store exactly the content (lines shorter than the stated maximum, empty lines left out), for any content and any path parts, and report files that are missing, unreadable or cannot be written as errors.',
  'inputs fault_sequences histories', 'every file content, path, sequence of operations and failing file', 'Tests write one file.',
  'nisaba/port/file_util.h nisaba/port/file_util.cc nisaba/port/file.h nisaba/port/file.cc nisaba/port/proto_file_stream.h nisaba/port/proto_file_stream.cc', [('file helpers', 'nisaba/port/file_util.cc'), ('file objects', 'nisaba/port/file.cc')], observe='file::JoinPath, ReadLines, ReadBinaryFile, WriteTextFile, IOStream, File')
p('C06', 'K-best string tools return exactly the best strings',
  'Extraction from a lattice of word candidates returns the k cheapest paths with normalized scores; rejoining split strings returns, for each of them, the k best combinations of its parts\' candidates (all of the largest list\'s size when no k is given) with summed scores, and a string that was not split as it was; ensembling returns the k distinct strings with the highest product of position-wise summed probabilities, after leaving out candidates of the wrong length. In memory and from files; malformed input is refused.',
  'inputs', 'every lattice, list, split and k of at least one', 'One lattice, one list and two ensembles are tested.',
  'nisaba/translit/tools/kbest-full-string-util.h nisaba/translit/tools/kbest-full-string-util.cc', [('extract, rejoin, ensemble', 'nisaba/translit/tools/kbest-full-string-util.cc')], observe='KbestExtractor, KbestRejoiner, EnsembleFullString, EnsembleFiles')
p('C07', 'The C++ grammars of Brahmic scripts agree with the Python ones, however shared',
  'A C++ Grammar, Normalizer, ReadingNorm or Far for a script or language gives exactly the results of the same operation in Python: visual norm, well-formedness, reading norm, romanization. Names are resolved regardless of case, languages without rules of their own use those of their script, and unknown names, archives or paths are reported as errors, as is text a grammar does not accept. This holds for every history of making, loading (also twice), verifying, using and deleting objects, also when several share a manager of rules, and for several threads that use the same objects.',
  'inputs histories schedules', 'every text, script and language tag in any case, history of objects and schedule', 'Tests give a handful of words to one object at a time; sharing a manager, which is documented, deleted it twice.',
  'nisaba/scripts/brahmic/grammar.h nisaba/scripts/brahmic/grammar.cc nisaba/scripts/brahmic/far.h nisaba/scripts/brahmic/far.cc nisaba/scripts/utils/far_base.h nisaba/scripts/utils/far_base.cc nisaba/interim/grm2/thrax/grm-manager.h nisaba/interim/grm2/thrax/abstract-grm-manager.h', [('grammars', 'nisaba/scripts/brahmic/grammar.cc'), ('archives', 'nisaba/scripts/utils/far_base.cc')], observe='Grammar, Normalizer, ReadingNorm, Far; LoadVisualNormManager, LoadWellformedManager, MakeFarFilePath')

p('C08', 'Pair-model decoding gives the best candidates and their probabilities',
  'For each word of a text the decoder returns at most k distinct transliterations with normalized costs: those of the least costly pair sequences of the pair model, of the listed candidates, or of both mixed by the stated weight; parts outside the model are kept or looked up, and with a language model the costs are the posteriors over all choices of the whole line. min_cand_posterior and k leave out exactly the worse ones. The answer does not depend on earlier lines, on the cache, or on how many words or lines are decoded at once; no input text makes it crash, and the runner writes each line\'s result in order or reports an error.',
  'inputs histories schedules fault_sequences', 'every model, list of candidates, text, history of lines and schedule', 'Tests use one Hindi model and a few lines; as found, the decoder did not start its threads.',
  'nisaba/translit/fst/pairlm_decoder.h nisaba/translit/fst/pairlm_decoder.cc nisaba/translit/fst/pairlm_decoder_runner.h nisaba/translit/fst/pairlm_decoder_runner.cc', [('decoder', 'nisaba/translit/fst/pairlm_decoder.cc'), ('runner', 'nisaba/translit/fst/pairlm_decoder_runner.cc')], observe='PairLMDecoder::TransliterateString, PrintTransliterations, CheckCache, RunPairLMDecoder')
p('C09', 'The C++ rewriting library computes what the rules of an archive say',
  'For every archive of rules, cascade of its rules and input: the top rewrite is one of the cheapest outputs, OneTopRewrite succeeds exactly when one output string is the cheapest, TopRewrites gives all cheapest ones or the n cheapest distinct ones, Rewrites all of them (or fails if they are endless), Matches tells membership, and costs are those of the composed relation; managers, cascades, stand-alone functions, the rewrite tester, and results as strings, labels, transducers, repeated fields and debug strings agree, for bytes, characters, pushdown rules and generated symbols. Failed rewrites, unknown rules and inputs that are not text are reported. A path iterator lists every path once, again after a reset, and the symbol tables are one and complete whichever threads ask first.',
  'inputs histories schedules', 'every archive of rules, cascade, input, number of outputs, transducer and schedule', 'Upstream has no test here; as found, two entry points did not compile, a tie between an output and a longer one was missed, and the symbol tables could be freed while in use.',
  'nisaba/interim/grm2/rewrite/rewrite.h nisaba/interim/grm2/rewrite/rewrite_manager.h nisaba/interim/grm2/rewrite/rule_cascade.h nisaba/interim/grm2/rewrite/base_rule_cascade.h nisaba/interim/grm2/rewrite/parentheses.h nisaba/interim/grm2/paths/paths.h nisaba/interim/grm2/string/stringprint.h nisaba/interim/grm2/thrax/abstract-grm-manager.h nisaba/interim/grm2/thrax/grm-manager.h nisaba/interim/grm2/thrax/rewrite-tester.cc nisaba/interim/grm2/thrax/walker/util/function/symbols.cc', [('rule cascades', 'nisaba/interim/grm2/rewrite/base_rule_cascade.h'), ('grammar manager', 'nisaba/interim/grm2/thrax/abstract-grm-manager.h'), ('path iterator', 'nisaba/interim/grm2/paths/paths.h'), ('symbol tables', 'nisaba/interim/grm2/thrax/walker/util/function/symbols.cc')], observe='BaseRuleCascade, RewriteManager, GrmManager, RewriteTester::ProcessInput, PathIterator, GetByteSymbolTable')
p('C10', 'Command-line tools do what their flags say with the files they name',
  'For every set of input files and settings, each command-line tool (error rates, extraction, rejoining and ensembling of k-best lists, pair-model decoding) writes to its output file what the library computes for the same data and settings, whichever way and in whichever order the flags are written. Every flag sets the one thing it names, a flag that is left out has its documented default, and a model file given as a flag of its own overrides the same file (and only that) in the decoder settings. A required flag that is missing or empty, an unknown flag, settings that cannot be parsed, and files that cannot be read, parsed or written end the tool with a failure status.',
  'inputs', 'every set of input files, choice of flags, their order and spelling', 'Nothing upstream runs the tools; a wrong flag shows only with a certain combination of flags and files. As found, the flag for the language model set the pair model.',
  'nisaba/translit/fst/pairlm_decoder_main.cc nisaba/translit/tools/calculate_error_rate_main.cc nisaba/translit/tools/ensemble-full-string_main.cc nisaba/translit/tools/extract-kbest-full-string_main.cc nisaba/translit/tools/rejoin-kbest-full-string_main.cc', [('decoder tool', 'nisaba/translit/fst/pairlm_decoder_main.cc'), ('error rate tool', 'nisaba/translit/tools/calculate_error_rate_main.cc'), ('extraction tool', 'nisaba/translit/tools/extract-kbest-full-string_main.cc'), ('rejoining tool', 'nisaba/translit/tools/rejoin-kbest-full-string_main.cc'), ('ensembling tool', 'nisaba/translit/tools/ensemble-full-string_main.cc')], observe='pairlm_decoder, calculate_error_rate, extract-kbest-full-string, rejoin-kbest-full-string, ensemble-full-string')

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w', encoding='utf8') as f:
  for x in P:
    assert len(x['title']) <= 80, x['id']
    f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
