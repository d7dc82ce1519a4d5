#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
T = 'src/unicode_transcoding.cpp'; PU = 'src/punycode.cpp'; M = 'src/mapping.cpp'
N = 'src/normalization.cpp'; V = 'src/validity.cpp'; A = 'src/to_ascii.cpp'
U = 'src/to_unicode.cpp'; I = 'src/identifier.cpp'; S = 'src/table_store.hpp'
F = 'src/raw_inflate.hpp'; B = 'src/table_blob.inc'

p('C01', 'UTF-8 decoding accepts exactly well-formed text and yields its scalars',
  'Decoding a byte string as UTF-8 succeeds exactly when the bytes are well-formed UTF-8 (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes) and then yields exactly the encoded scalar values in order; otherwise it reports failure by returning 0. For well-formed input the pre-computed UTF-32 length equals the number of scalars, and no more than that many output units are ever written.',
  ['inputs'], 'every byte string, of every length and alignment relative to the 16-byte ASCII fast path',
  'tests decode a handful of fixed strings and three truncated sequences; the byte-level boundary cases (E0 9F, ED A0, F0 8F, F4 90, fast-path seams) are never enumerated',
  [T], [('lead byte classification and range checks', T), ('16-byte ASCII block fast path', T), ('length by counting non-continuation bytes', T)],
  observe=['utf8_to_utf32', 'utf32_length_from_utf8', 'to_ascii on malformed input'])
p('C02', 'UTF-8 encoding is exact, its length prediction agrees, and it round-trips',
  'Encoding a sequence of Unicode scalar values produces exactly their shortest-form UTF-8 encoding, its size equals the predicted UTF-8 length, and decoding the result returns the original sequence. A sequence that contains a surrogate or a value above U+10FFFF is refused by returning 0.',
  ['inputs'], 'every sequence of 32-bit values of every length (odd and even, for the two-at-a-time ASCII path)',
  'tests never encode arbitrary scalars; they see only the output of a few to_unicode calls',
  [T], [('per-size-class encoder', T), ('two-code-point ASCII fast path', T), ('length prediction', T)],
  observe=['utf32_to_utf8', 'utf8_length_from_utf32', 'to_unicode output'])
p('C03', 'Punycode encode and decode are mutually inverse',
  'For every sequence of Unicode scalar values the Punycode encoder accepts, decoding the result gives back the same sequence (unless the sequence itself starts with "xn--", which decoding always refuses); and for every string the decoder accepts whose code points are all scalar values, encoding the result gives back the same string. Two different strings therefore never decode to the same label.',
  ['inputs'], 'all labels of scalar values and all Punycode strings',
  'tests round-trip about twenty fixed labels; uniqueness of the encoding is a statement about all pairs of strings',
  [PU], [('delta coding with bias adaptation', PU), ('delimiter handling', PU)],
  observe=['utf32_to_punycode', 'punycode_to_utf32', 'to_ascii/to_unicode'])
p('C04', 'Punycode decoding follows RFC 3492 on every byte string',
  'Decoding any byte string yields exactly what the RFC 3492 decoding procedure yields with lower-case digits, and fails exactly when that procedure fails: on a byte that is not a digit, on truncated input, on arithmetic overflow beyond 31 bits, on a non-ASCII basic code point, or on a delimiter preceded by no basic code point. In addition a result that itself starts with "xn--" is refused.',
  ['inputs'], 'every byte string, including hostile ones whose deltas approach 2^31',
  'tests try a few invalid strings; overflow is reached by particular digit sequences only',
  [PU], [('digit parsing and overflow guards', PU), ('bias adaptation', PU), ('insertion position arithmetic', PU)],
  observe=['punycode_to_utf32'])
p('C05', 'Punycode verification agrees with Punycode decoding',
  'The allocation-free verifier accepts a string exactly when decoding that string succeeds. In particular both refuse the same overflows, truncations and results that start with "xn--".',
  ['inputs'], 'every byte string',
  'the tests compare the two on a few strings; the verifier is a second copy of the decoder with different integer types and its own first-four window',
  [PU], [('duplicated decoding loop with a four-element prefix window', PU)],
  observe=['verify_punycode', 'punycode_to_utf32'])
p('C06', 'Punycode encoding follows RFC 3492 and refuses non-scalars',
  'Encoding a label of Unicode scalar values appends to the output exactly the RFC 3492 encoding (basic code points, a delimiter when there are any, then lower-case deltas), leaving what the output already held untouched. A label containing a surrogate or a value above U+10FFFF is refused.',
  ['inputs'], 'all labels',
  'tests compare about twenty labels; delta arithmetic depends on the sorted order and multiplicity of all code points',
  [PU], [('minimum search, delta arithmetic and bias adaptation', PU)],
  observe=['utf32_to_punycode', 'to_ascii output'])
p('C07', 'Code points are mapped exactly as the IDNA 17.0 mapping table says',
  'Mapping a sequence fails exactly when it contains a code point that is disallowed in the UTS #46 table of Unicode 17.0 (non-transitional, without STD3 restrictions), and otherwise yields the concatenation, in order, of each code point unchanged, its mapping, or nothing, as the table prescribes. The result does not depend on neighbouring code points or on what the output buffer held before, and mapping an already mapped sequence changes nothing.',
  ['inputs'], 'all 2^32 values of each position and all sequences',
  'tests map a few dozen code points; a wrong bit or offset in the two-level table shows on one code point only',
  [M, 'src/mapping_tables.cpp', B, S], [('two-level table lookup with boolean blocks', M), ('two-pass sizing and UTF-8 mapping decode', M), ('high ignored range', 'src/mapping_tables.cpp')],
  state=[('idna_stage1/idna_stage2/idna_bool_blocks/idna_utf8_mappings', 'mapping tables', S)],
  observe=['map', 'to_ascii', 'to_unicode'])
p('C08', 'Normalization produces Unicode Normalization Form C',
  'Normalizing any sequence yields exactly its Unicode Normalization Form C: canonical decomposition, canonical ordering of combining marks, canonical composition with exclusions and algorithmic Hangul. This holds whether or not the input is judged to be normalized already.',
  ['inputs'], 'all sequences of code points, including long runs of marks and Hangul jamo',
  'tests normalize a few strings; composition, blocking and ordering interact over neighbouring characters in millions of combinations',
  [N, B, S], [('decomposition tables and Hangul arithmetic', N), ('canonical ordering by insertion', N), ('composition with blocking', N), ('already-normalized shortcut', N)],
  observe=['normalize', 'to_ascii'])
p('C09', 'The already-normalized test is true exactly for normalized sequences',
  'The test whether a sequence is already in Normalization Form C returns true exactly for the sequences that normalization leaves unchanged. It never changes its argument.',
  ['inputs'], 'all sequences of code points',
  'only used indirectly by the tests; a wrong "yes" silently skips normalization',
  [N], [('singleton, ordering and composability checks', N)],
  observe=['is_already_nfc', 'to_ascii', 'to_unicode'])
p('C10', 'No label that begins with a combining mark is accepted',
  'A label whose first code point has General_Category Mark is never accepted as valid, directly or inside to_ascii and to_unicode; a label is never refused merely because a later code point is a mark.',
  ['inputs'], 'all labels',
  'tests use one or two marks; the set has some 2500 members in over 300 ranges',
  [V, B], [('range search in the combining-mark table', V)], observe=['is_label_valid', 'to_ascii', 'to_unicode'])
p('C11', 'Joiners are accepted only in their RFC 5892 contexts',
  'A label that contains ZERO WIDTH JOINER is valid only if each one directly follows a virama, and one that contains ZERO WIDTH NON-JOINER only if each one directly follows a virama or stands between a left- or dual-joining character and a right- or dual-joining character with nothing but transparent characters between them and the joiner. Satisfying the joiner rule at one place never exempts the label from any other validity rule.',
  ['inputs'], 'all labels, with joiners at any position and number',
  'the tests have a few fixed joiner labels; the rule quantifies over both contexts of every joiner',
  [V], [('virama test', V), ('context search for joining types', V), ('later Bidi checks', V)], observe=['is_label_valid', 'to_ascii', 'to_unicode'])
p('C12', 'Right-to-left labels are accepted only if they satisfy the Bidi rule',
  'A label that contains a character of Bidi class R, AL or AN is valid only if it satisfies all six conditions of RFC 5893 section 2 for labels; a label that contains none of these is never refused by the Bidi rule.',
  ['inputs'], 'all labels',
  'tests have a handful of Arabic and Hebrew labels; the rule depends on the class of the first, last and every other character, over 1300 class ranges',
  [V, B], [('Bidi class range search', V), ('per-label Bidi rule', V)], observe=['is_label_valid', 'to_ascii', 'to_unicode'])
p('C13', 'An ASCII domain is returned lower-cased, whatever it contains',
  'For every ASCII input of at most 16384 bytes to_ascii succeeds and returns the input with A-Z replaced by a-z and every other byte unchanged, at the same length. Lower-casing a buffer in place touches no byte outside it.',
  ['inputs'], 'all ASCII strings of all lengths up to the limit',
  'tests lower-case a few strings; the eight-bytes-at-a-time arithmetic must be right for each of 128 values in each lane and each tail length',
  [A, M], [('ASCII shortcut', A), ('word-parallel lower-casing with partial tail', M)], observe=['to_ascii', 'ascii_map'])
p('C14', 'Non-ASCII domains are converted as the UTS #46 ToASCII procedure says',
  'For an input with a non-ASCII byte, to_ascii fails if the bytes are not UTF-8 or a code point is disallowed; otherwise it maps, normalizes to NFC, splits at full stops and converts each label (empty labels kept, ASCII labels kept, other labels validated and encoded with the "xn--" prefix), joining the results with full stops. It fails exactly when one of these steps fails.',
  ['inputs'], 'all non-ASCII byte strings up to the size limit',
  'the tests that run cover fixed strings only, and the big conformance files are not part of the stable suite',
  [A, M, N, V, PU, T], [('pipeline order and label walk', A)], observe=['to_ascii'])
p('C15', 'Successful to_ascii output is lower-case ASCII and a fixed point',
  'Whenever to_ascii succeeds, its output is pure ASCII without upper-case letters, has the same number of labels as the mapped input, and applying to_ascii to it again returns it unchanged. Whenever it fails, the output string is left empty.',
  ['inputs'], 'all byte strings',
  'a universal statement over outputs; tests look at fixed outputs, and failure outputs on few paths',
  [A], [('label conversion', A), ('clearing of output on failure', A)], observe=['to_ascii'])
p('C16', 'An xn-- label in a non-ASCII domain is accepted only when it is genuine',
  'In a domain that is not pure ASCII, a label that starts with "xn--" after mapping is accepted only if it is all ASCII, decodes as Punycode to at least one non-ASCII character, and the decoded label is unchanged by mapping and normalization and passes every label validity rule; it is then copied unchanged. Otherwise the whole conversion fails.',
  ['inputs'], 'all domains containing an xn-- label next to a non-ASCII label',
  'tests contain a few invalid ACE labels; the set of invalid ones is infinite and security relevant (spoofed labels)',
  [A, PU, V, N], [('ACE label re-validation', A)], observe=['to_ascii'])
p('C17', 'to_unicode decodes genuine xn-- labels and leaves all else untouched',
  'to_unicode never fails on input of at most 16384 bytes: label by label it replaces a lower-case "xn--" label by its decoded UTF-8 form exactly when the label is ASCII, decodes as Punycode to a label that is not pure ASCII, is unchanged by mapping and normalization and passes the validity rules, and copies every other label byte for byte. The number and position of the full stops are preserved.',
  ['inputs'], 'all byte strings, any number of labels, including malformed UTF-8',
  'tests decode about a dozen domains; that every other label is copied verbatim is universal',
  [U, PU, V, N, M, T], [('label walk', U), ('re-validation of the decoded label', U), ('fall-back to the original label', U)], observe=['to_unicode'])
p('C18', 'Converting to ASCII, to Unicode and back returns the same ASCII domain',
  'If to_ascii accepts a domain containing a non-ASCII character, then to_unicode of the result decodes every label that was encoded, and to_ascii of that is the same result again. The decoded form equals the mapped and normalized input label by label.',
  ['inputs'], 'all domains to_ascii accepts',
  'tests round-trip six domains; it needs encoder, decoder, mapping, normalization and validity to agree on every label',
  [A, U, PU, N, V], [('shared validation on both directions', A), ('decoder', PU)], observe=['to_ascii', 'to_unicode'])
p('C19', 'Forbidden domain code points are detected exactly',
  'The forbidden-code-point test reports true exactly for strings that contain a byte which is a WHATWG forbidden domain code point (C0 controls, space, # % / : < > ? @ [ \\ ] ^ | and DEL) or is not ASCII, wherever in the string it stands.',
  ['inputs'], 'all 256 byte values at every position of every string',
  'tests check a few characters',
  [A], [('256-entry table', A)], observe=['contains_forbidden_domain_code_point'])
p('C20', 'Identifier code points are exactly those of ECMAScript with Unicode 17.0',
  'A value is accepted as first character of a name exactly when it is $, _ or has the Unicode 17.0 property ID_Start, and as later character exactly when it is $, U+200C, U+200D or has ID_Continue; surrogates and values above U+10FFFF are never accepted. The answer depends on nothing but the two arguments.',
  ['inputs'], 'all 2^32 values and both positions',
  'tests probe some 60 values; the two range tables have over 1400 ranges',
  [I, B], [('ASCII fast paths', I), ('range search', I)], observe=['valid_name_code_point'])
p('C21', 'Both forms of each conversion agree, and earlier output has no influence',
  'The string-returning and the buffer-filling forms of each conversion give the same answer: equal content on success; on failure to_ascii and mapping return an empty string and to_unicode its input. Input longer than 16384 bytes, and only that, is refused by to_unicode and by the ASCII path of to_ascii for its length alone, and whatever the output buffer held before never shows in the result.',
  ['inputs', 'histories'], 'all inputs, all prior buffer contents, lengths on both sides of the limit',
  'tests use fresh output strings nearly everywhere and two over-long inputs',
  [A, U, M], [('clear on entry', A), ('size limit check', A), ('wrapper functions', U)], observe=['to_ascii', 'to_unicode', 'map'])
p('C22', 'When table set-up fails every operation fails closed',
  'If the internal tables cannot be set up (allocation failure or a compressed payload that does not check out), every operation that needs them reports failure or a negative answer, now and on every later call, without touching invalid memory or returning a half-converted name; operations that need no tables still work.',
  ['fault_sequences', 'inputs'], 'failure of the set-up allocation or integrity check, followed by any operation on any input',
  'tests never make set-up fail',
  [S, M, N, V, I, A, U], [('failed state', S), ('ensure_tables checks at each entry', M), ('null checks', V)], state=[('tables_init_state', 'life cycle of the tables', S)],
  observe=['map', 'normalize', 'is_label_valid', 'valid_name_code_point', 'to_ascii', 'to_unicode'])
p('C23', 'Concurrent first use is safe: tables are published once and completely',
  'When several threads make their first calls at the same time, exactly one sets the tables up, no thread reads a table before all of them are completely written (every read is ordered after the set-up by release/acquire synchronisation), and each thread either sees complete tables or a reported failure. No interleaving contains a data race.',
  ['schedules'], 'all interleavings and all weak-memory behaviours allowed by the C++ memory model, for two and three threads',
  'tests are single threaded',
  [S], [('compare-and-swap election', S), ('release store / acquire loads of the state', S), ('bounded spin wait', S)], state=[('tables_init_state', 'atomic life-cycle state', S), ('table pointers', 'plain pointers published by the winner', S)],
  observe=['ensure_tables', 'tables_are_ready'])
p('C24', 'The decompressor never leaves its buffers, whatever the input',
  'Decompressing any byte string of any length into a destination of any capacity reads only inside the source, writes only inside the destination and its own work space, and terminates with a size no larger than the capacity.',
  ['inputs'], 'all byte strings and all capacities',
  'tests decompress six small streams; memory errors need crafted headers, distances or code-length repeats',
  [F], [('bit reader refill', F), ('capacity and distance checks', F), ('code-length table fill', F), ('canonical Huffman decode bounds', F)],
  observe=['deflate::inflate_raw'])
p('C25', 'The decompressor implements DEFLATE',
  'For every well-formed raw DEFLATE stream (stored, fixed and dynamic blocks in any combination) whose output fits, the decompressor produces exactly the data RFC 1951 prescribes and returns its size; a stream that is truncated, uses a reserved block type or code, reaches back before the start of the output, or does not fit is refused with 0.',
  ['inputs'], 'all DEFLATE streams',
  'tests run six streams and the embedded table payload',
  [F], [('block loop', F), ('Huffman table construction and decoding', F), ('length and distance tables', F)],
  observe=['deflate::inflate_raw'])
p('C26', 'Corruption of the embedded tables is detected before they are used',
  'The tables are put in use only if the decompressed payload has the expected size and the standard CRC-32 the build recorded for it, so that any change confined to 32 consecutive bits of the payload is always detected. The checksum computed is the standard one (ISO-HDLC) for every byte string.',
  ['inputs', 'fault_sequences'], 'all payloads and all burst errors up to 32 bits',
  'tests check the CRC of two strings; detection is a statement about all corruptions',
  [S, F], [('bitwise CRC-32', S), ('size and checksum gate', S)], observe=['crc32_ieee', 'ensure_tables'])
p('C27', 'No input makes any operation exhibit undefined behaviour',
  'No call of any public operation on any byte string or any sequence of 32-bit values reads or writes outside an object, uses freed or uninitialised memory, overflows a signed integer, divides by zero, or lets an exception other than memory exhaustion escape.',
  ['inputs'], 'all inputs, including malformed UTF-8, surrogates and values above U+10FFFF',
  'tests feed mostly well-formed text and run without sanitizers',
  [A, U, M, N, V, PU, T, I], [('bounds checks before table access', N), ('overflow guards', PU), ('partial word copies', M)],
  observe=['all public functions'])
p('C28', 'Big-endian hosts see the same table values as little-endian hosts',
  'On a big-endian host, after set-up, every element of every table reads as the same number it has on a little-endian host; single-byte tables are left alone and no element is converted twice or missed.',
  ['configurations', 'inputs'], 'every payload content and every table section, for a big-endian target',
  'the test machines are little-endian, where the conversion is compiled to nothing',
  [S, B], [('per-section byte swapping', S)], observe=['detail::convert_table_blob_to_host_endian'])
p('C29', 'The single-file distribution behaves like the library',
  'The amalgamated single-header distribution generated from the sources compiles and gives the same result as the multi-file library for every call of every public operation.',
  ['configurations', 'inputs'], 'all inputs, on the amalgamated build',
  'tests are compiled against the multi-file sources; the amalgamation is exercised by one demo',
  ['singleheader/amalgamate.py', 'src/idna.cpp', 'include/idna.h'], [('textual inclusion', 'singleheader/amalgamate.py')],
  observe=['generated ada_idna.cpp'])
p('C30', 'Packing the tables and unpacking them is lossless',
  'The script that generates the embedded payload places every table at an aligned, non-overlapping offset, and decompressing the payload it writes gives back exactly the tables it was given.',
  ['inputs', 'programs'], 'all table contents the generator can be given',
  'the script is run by hand when tables are updated; nothing tests it',
  ['scripts/pack_tables.py'], [('section layout and compression', 'scripts/pack_tables.py')], observe=['table_blob.inc'])
p('C31', 'Spellings that UTS #46 equates give the same ASCII name',
  'Two spellings of a non-ASCII domain that differ only by case variants, by the ideographic or other full-stop variants, by ignored code points, or by canonically equivalent sequences (except orders of combining marks of which the mapping turns one into a letter, such as U+0345) are treated alike: to_ascii fails on both or returns the same result for both.',
  ['inputs'], 'all pairs of equivalent spellings',
  'tests have a few such pairs; it is a relation between runs, and the security reason the library exists',
  [A, M, N], [('mapping before label split', A), ('normalization before label split', A)], observe=['to_ascii'])
p('C32', 'Labels are processed independently of each other',
  'For non-ASCII labels, converting a domain made of several labels gives the labels\' individual conversions joined by full stops, and fails exactly when one label on its own fails; likewise to_unicode of a domain is the join of to_unicode of its labels. Nothing carries over from one label, or one call, to the next.',
  ['inputs', 'histories'], 'all domains of several labels and all sequences of calls',
  'tests convert mostly single interesting labels; reused scratch buffers could leak between labels',
  [A, U], [('scratch buffers reused across labels', A), ('label walk', U)], observe=['to_ascii', 'to_unicode'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
