// 0-9: one code point of each length, alone and between ASCII
"\3", "\4", "\5", "A\3b", "a\4", "\4Z", "1.\4.B", "\5x", ".\3.", "\4.",
// 10-19: arbitrary bytes
"\1", "\1\1", "\1\1\1", "a\1\1", "\xc3\xa9\1\1", "\1\1.\xc3\xa9", "\1\1\xc3\xa9", "\xe2\x82\1", "\xf0\x9f\1\1", "\xc3\xa9\2\2",
// 20-34: blocks of code points together (0 Latin-1, 1 combining, 2 Arabic, 3 Hebrew, 4 Arabic digits, 5 U+2000,
//        6 CJK, 7 Devanagari signs, 8 Hangul syllables, 9 regional, a CJK punctuation, b full width, c Arabic, d Greek)
"\x10\x11", "\x10.\x12\x14", "\x12\x12.\x13\x14", "a\x11\x11", "\x12\x15\x12", "\x17\x15\x17", "\x16\x1a\x16", "\x1b\x1b.", "\x1d\x11",
"\x18\xe1\x86\xa8", "\x12\x11\x14", "1\x12", "\x13-\x13", "\x12.\x10.\x13", "\xe1\x84\x80\xe1\x85\xa1\x18",
// 35-49: xn-- labels next to a non-ASCII one
"xn--\7\7\7.\xc3\xa9", "\xc3\xa9.xn--\7\7\7", "XN--\7\7\7.\xc3\xa9", "\xc3\xa9.\2\2--\7\7\7", "xn--\x10.\xc3\xa9", "xn--\6\6\6.\xc3\xa9.\x10",
"xn--a-\7\7\7.\xc3\xa9", "xn--\6.\xc3\xa9", "xn--.\xc3\xa9", "xn--\2\2.\xc3\xa9", "xn--tda.xn--\7\7\7.\xc3\xa9", "xn--\7\7\7.\xc3\xa9.xn--\7ga", "\xc3\xa9.xn--\6-\7ga",
"xn--4\7\7\7.\xc3\xa9", "xn--\7\7ta.\xc3\xa9",
// 50-69: to_unicode
"xn--\7\7\7", "a.xn--\6\6\6.\1", "\1\1--\7\7\7", "xn--\1\1\1", "xn--\1\1", "xn--tda.xn--\7\7\7", "xn--\7\7\7.xn--tda", "xn--4\7\7\7", "xn--\7\7ta", "xn--a-\7\7\7",
".xn--\7\7\7.", "XN--\7\7\7", "xn-\7\7\7\7", "\1.\1.\1", "\1\1\1\1\1", "\xc3\xa9xn--\7\7\7", "xn--\7\7\7.\1\1", "xn--b-\6\6\6", "xn--\6-tda", "xn--xn---\7\7\7",
// 70-79: contexts
"", "\xc3\xa9", "\xc3\xa9.", ".\xc3\xa9", "a\6", "\xd7\x90", "\xe4\xb8\x80.a", "\6.\xc3\xa9", "\x10", "xn--tda.\x10",
