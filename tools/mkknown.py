#!/usr/bin/env python3
"""Writes known_findings.txt from spec/known_data.json and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = json.load(open(V + '/spec/known_data.json'))
K = {  # property -> (set of code points, witness entry in harness/h_known.cpp, what fails)
 'C08': [('norm', 'known_norm', 'sequences containing a code point of set norm are not brought to NFC (normalization data older than Unicode 17), e.g. U+105D2 U+0307')],
 'C09': [('norm', 'known_normtest', 'sequences containing a code point of set norm are misjudged, e.g. U+105D2 U+0307 counts as normalized')],
 'C10': [('mark', 'known_mark', 'labels beginning with a combining mark of set mark are accepted, e.g. U+1AE0'),
         ('180F', 'known_mark2', 'is_label_valid() called directly accepts a label that begins with U+180F (gc=Mn since 14, ignored by the mapping)')],
 'C11': [('join', 'known_join', 'joiners next to a code point of set join are judged by outdated joining data, e.g. U+0860 U+200C U+0860 is refused')],
 'C12': [('bidi', 'known_bidi', 'the Bidi class of the code points of set bidi is outdated or unknown, e.g. U+0870 U+0061 is accepted')],
 'C14': [('norm+mark+bidi+join', 'known_ascii', 'domains containing a code point of these sets are judged by the outdated data, e.g. U+0870 U+0061 is converted')],
 'C16': [('norm+mark+bidi+join', 'known_xn', 'xn-- labels that decode to a code point of these sets, e.g. xn--a-eld (U+0870 U+0061) is accepted')],
 'C17': [('norm+mark+bidi+join', 'known_unicode', 'xn-- labels that decode to a code point of these sets, e.g. xn--a-eld (U+0870 U+0061) is decoded')],
 'C31': [('norm', 'known_same', 'canonically equivalent spellings with a code point of set norm, e.g. U+105D2 U+0307 and U+105C9')],
}
FIXED = [
 ('C24', 'd83e65c', 'a code-length repeat that runs past the code-length array wrote behind it (stack buffer overflow)'),
 ('C04', '74ebb67', 'Punycode that starts with its delimiter was decoded instead of refused'),
 ('C08', '5857094', 'a Hangul LVT syllable absorbed a following trailing consonant'),
 ('C09', 'c535863', 'composites excluded from composition or composing further counted as normalized'),
 ('C11', '5c49f62', 'only the first joiner was checked, and a joiner in context exempted the label from the Bidi rule'),
 ('C12', '5c49f62', 'a label with a joiner in context was accepted without the Bidi rule'),
 ('C11', '407ad5e', 'viramas added to Unicode since the list was written were not recognised before a joiner'),
]
def expand(k): return ' '.join(a if a == b else a + '-' + b for a, b in D[k])
if __name__ == '__main__':
    with open(V + '/known_findings.txt', 'w') as f:
        f.write('# Genuine defects of ada-url/idna found here. "known" entries are excluded from the checks by the exact\n'
                '# code points listed (spec/known_data.json holds the same sets); "fixed" entries suppress nothing.\n')
        for p in sorted(K):
            for s, w, t in K[p]: f.write('known: property=%s set=%s witness=%s %s\n' % (p, s, w, t))
        for k in ('norm', 'mark', 'bidi', 'join'): f.write('set %s: %s\n' % (k, expand(k)))
        for p, c, t in FIXED: f.write('fixed: property=%s %s %s\n' % (p, c, t))
