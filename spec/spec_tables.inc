// Generated by tools/gen_spec.py from Unicode 17.0 data (Go 1.27 x/text, x/net/idna).
static const unsigned short spec_prop_1[8704] = {
0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,
16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,
32,33,34,35,36,37,38,39,40,35,35,35,41,42,43,44,
45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,
61,62,63,64,65,66,67,68,69,70,66,66,66,71,66,66,
72,72,66,66,73,74,75,76,77,78,79,80,81,82,83,84,
85,86,87,88,89,90,91,92,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,93,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,94,35,35,95,96,97,98,
99,100,101,102,103,104,105,106,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,107,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,109,109,110,111,112,113,114,114,115,116,117,118,119,120,
121,122,123,124,108,125,126,127,128,129,130,131,35,35,132,133,
134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,
150,151,152,153,154,155,156,157,158,159,108,160,161,162,163,108,
164,165,166,167,168,169,170,171,172,173,174,175,108,176,177,178,
35,35,35,35,35,35,35,179,180,35,181,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,182,
35,35,35,35,35,35,35,35,183,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,122,35,35,35,35,184,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,185,108,108,108,108,108,108,108,108,108,108,108,108,108,
35,35,35,35,186,187,188,189,108,108,190,108,191,192,193,194,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,195,196,197,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,198,
35,35,199,35,35,200,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,201,202,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,203,204,203,203,203,205,206,207,
72,208,209,210,211,212,213,108,214,215,216,109,109,217,218,219,
72,72,72,72,220,221,108,108,108,108,108,108,108,108,222,108,
223,224,225,108,108,226,108,108,108,227,108,228,108,229,108,230,
231,232,233,234,234,234,234,234,235,236,237,234,238,239,234,234,
240,241,242,243,244,108,66,66,66,66,66,66,66,245,246,247,
248,249,250,251,252,253,66,254,108,108,108,108,108,108,108,255,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,256,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
257,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,258,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,259,35,35,35,35,260,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
109,109,109,109,261,108,108,108,108,108,108,108,108,108,108,255,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,262,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,35,
35,35,35,35,35,35,35,35,263,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
264,265,266,267,265,265,265,265,265,265,265,265,265,265,265,265,
265,265,265,265,265,265,265,265,265,265,265,265,265,265,265,265,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,
108,108,108,108,108,108,108,108,108,108,108,108,108,108,108,255,
};
static const unsigned spec_prop_2[34304] = {
561152,561152,561152,561152,561152,561152,561152,561152,561152,524288,524288,524288,524288,524288,561152,561152,
561152,561152,561152,561152,561152,561152,561152,561152,561152,561152,561152,561152,524288,524288,524288,524288,
524288,557056,557056,552960,552960,552960,557056,557056,557056,557056,557056,544768,548864,544768,548864,548864,
802816,802816,802816,802816,802816,802816,802816,802816,802816,802816,548864,557056,557056,557056,557056,557056,
557056,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,557056,557056,557056,557056,819200,
557056,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,557056,557056,557056,557056,561152,
36864,36864,36864,36864,36864,0,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
24576,557056,552960,552960,552960,552960,557056,557056,32768,557056,393216,557056,557056,37632,557056,32768,
552960,552960,16384,16384,32768,393216,557056,819200,32768,16384,393216,557056,32768,32768,32768,557056,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,557056,393216,393216,393216,393216,393216,393216,393216,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,557056,917504,917504,917504,917504,917504,917504,917504,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,393216,393216,917504,393216,917504,917504,393216,917504,393216,917504,393216,917504,393216,
393216,393216,917504,393216,917504,393216,917504,393216,917504,393216,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,393216,917504,393216,917504,393216,917504,393216,
917504,393216,393216,917504,393216,917504,393216,393216,917504,393216,393216,393216,917504,917504,393216,393216,
393216,393216,917504,393216,393216,917504,393216,393216,393216,917504,917504,917504,393216,393216,917504,393216,
393216,917504,393216,917504,393216,917504,393216,393216,917504,393216,917504,917504,393216,917504,393216,393216,
917504,393216,393216,393216,917504,393216,917504,393216,393216,917504,917504,917504,393216,917504,917504,917504,
917504,917504,917504,917504,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,917504,393216,
917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
917504,393216,393216,393216,393216,917504,393216,393216,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,917504,917504,917504,917504,917504,917504,393216,393216,917504,393216,393216,917504,
917504,393216,917504,393216,393216,393216,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
393216,393216,393216,393216,393216,393216,393216,393216,393216,950272,950272,917504,917504,917504,917504,917504,
917504,917504,557056,557056,557056,557056,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,
917504,917504,557056,557056,557056,557056,557056,557056,32768,32768,32768,32768,32768,32768,557056,557056,
393216,393216,393216,393216,393216,557056,557056,557056,557056,557056,557056,557056,950272,557056,917504,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,
893926,893926,893926,893926,893926,893928,893916,893916,893916,893916,893928,893912,893916,893916,893916,893916,
893916,893898,893898,893916,893916,893916,893916,893898,893898,893916,893916,893916,893916,893916,893916,893916,
893916,893916,893916,893916,893697,893697,893697,893697,893697,893916,893916,893916,893916,893926,893926,893926,
368870,368870,893926,368870,368870,368880,893926,893916,893916,893916,893926,893926,893926,893916,893916,369408,
893926,893926,893926,893916,893916,893916,893916,893926,893928,893916,893916,893926,893929,893930,893930,893929,
893930,893930,893929,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,
393216,917504,393216,917504,425984,557056,393216,917504,0,0,393216,917504,917504,917504,32768,393216,
0,0,0,0,32768,32768,393216,294912,393216,393216,393216,0,393216,0,393216,393216,
917504,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,0,393216,393216,393216,393216,393216,393216,393216,393216,393216,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,393216,
393216,393216,393216,393216,393216,393216,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,393216,393216,917504,393216,393216,557056,393216,917504,393216,393216,917504,917504,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,524288,893926,893926,893926,893926,893926,631552,631552,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
0,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,0,0,917504,524288,524288,524288,524288,524288,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,393216,917504,524288,557056,0,0,557056,557056,552960,
4096,893916,893926,893926,893926,893926,893916,893926,893926,893926,893918,893916,893926,893926,893926,893926,
893926,893926,893916,893916,893916,893916,893916,893916,893926,893926,893916,893926,893926,893918,893924,893926,
893706,893707,893708,893709,893710,893711,893712,893713,893714,893715,893715,893716,893717,893718,528384,893719,
528384,893720,893721,528384,893926,893916,528384,893714,4096,4096,4096,4096,4096,4096,4096,4096,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,4096,4096,4096,4096,921600,
921600,921600,921600,528384,528384,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
12288,12288,12288,12288,12288,12288,557056,557056,532480,552960,552960,532480,548864,532480,557056,557056,
893926,893926,893926,893926,893926,893926,893926,893926,893726,893727,893728,532480,8960,4726784,532480,532480,
926208,925696,926720,926720,926720,926720,926208,926720,926208,926720,926208,926208,926208,926208,926208,926720,
926720,926720,926720,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,
925696,926208,926208,926208,926208,926208,926208,926208,926720,926208,926208,893723,893724,893725,893726,893727,
893728,893729,893730,893926,893926,893916,893916,893926,893926,893926,893926,893926,893916,893926,893926,893916,
798720,798720,798720,798720,798720,798720,798720,798720,798720,798720,552960,536576,536576,532480,926208,926208,
893731,926720,926720,926720,925696,401408,401408,401408,401408,926208,926208,926208,926208,926208,926208,926208,
926208,926208,926208,926208,926208,926208,926208,926208,926720,926720,926720,926720,926720,926720,926720,926720,
926720,926720,926720,926720,926720,926720,926720,926720,926720,926720,926208,926208,926208,926208,926208,926208,
926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,
926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,926208,
926720,926208,926208,926720,926720,926720,926720,926720,926720,926720,926720,926720,926208,926720,926208,926720,
926208,926208,926720,926720,532480,926720,893926,893926,893926,893926,893926,893926,893926,12288,557056,893926,
893926,893926,893926,893916,893926,925696,925696,893926,893926,557056,893916,893926,893926,893916,926720,926720,
802816,802816,802816,802816,802816,802816,802816,802816,802816,802816,926208,926208,926208,532480,532480,926208,
532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,8192,8960,
926720,893732,926208,926208,926208,926720,926720,926720,926720,926720,926208,926208,926208,926208,926720,926208,
926208,926208,926208,926208,926208,926208,926208,926208,926720,926208,926720,926208,926720,926208,926208,926720,
893926,893916,893926,893926,893916,893926,893926,893916,893916,893916,893926,893916,893916,893926,893916,893926,
893926,893926,893916,893926,893916,893926,893916,893926,893916,893926,893926,8192,8192,926720,926208,926208,
926208,926208,926208,926208,926208,926208,926208,926208,926208,926720,926720,926720,926208,926208,926208,926208,
926208,926208,926208,926208,926208,926208,926208,9314816,9314816,9314816,9314816,9315328,9315328,9314816,9314816,9314816,
9314816,9315328,9314816,9315328,9315328,9314816,9314816,9314816,9315328,9315328,9314816,9314816,9314816,9314816,9314816,9314816,
925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,
925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,925696,
925696,925696,925696,925696,925696,925696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,
893696,925696,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,
790528,790528,790528,790528,790528,790528,790528,790528,790528,790528,9310720,9310720,9310720,9310720,9310720,9310720,
9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,
9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,893926,893926,893926,893926,893926,
893926,893926,893916,893926,921600,921600,557056,557056,557056,557056,921600,4096,4096,893916,528384,528384,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,893926,893926,893926,893926,921600,893926,893926,893926,893926,893926,
893926,893926,893926,893926,921600,893926,893926,893926,921600,893926,893926,893926,893926,893926,4096,4096,
528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,4096,
9311232,9310720,9310720,9310720,9310720,9310720,9311232,9311232,9310720,9311232,9310720,9310720,9310720,9310720,9310720,9310720,
922112,922112,922112,922112,922624,922112,9311232,9311232,9311232,893916,893916,893916,4096,4096,528384,4096,
9314816,925696,9314816,9314816,9314816,9314816,925696,9315328,9314816,9315328,9315328,4096,4096,4096,4096,4096,
13509632,13509632,13509632,13509632,13509632,13509632,13509632,13509632,13509632,13509632,13509632,13509632,13509632,13509632,13509632,13509632,
13509632,13509632,13509632,5120000,5120000,5120000,13509120,5120000,4726784,13509120,13509120,13509120,13509120,13509120,13509632,13509120,
12288,12288,4096,4096,4096,4096,4096,16622566,15573990,15573980,15573980,15573980,15573990,15573990,15573990,15573990,
926208,9314816,926208,926208,926208,926208,926208,926208,926208,926208,926720,926720,926720,925696,9315328,9314816,
9314816,9315328,9315328,9314816,9314816,13509120,9314816,9314816,9314816,9315328,9314816,9314816,9314816,9314816,9314816,9314816,
9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,13509120,5120000,15573990,15573990,15573990,15573990,15573990,15573980,
15573980,15573980,15573980,893916,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,
893926,893926,12288,893916,893926,893926,893916,893926,893926,893916,893926,893926,893926,893916,893916,893916,
893723,893724,893725,893926,893926,893926,893916,893926,893926,893916,893916,893926,893926,893926,893926,893926,
893696,893696,893696,851968,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,893696,851968,893703,917504,851968,851968,
851968,893696,893696,893696,893696,893696,893696,893696,893696,851968,851968,851968,851968,893705,851968,851968,
917504,893926,893916,893926,893926,893696,893696,893696,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,893696,893696,524288,524288,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
524288,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,893696,851968,851968,0,917504,917504,917504,917504,917504,917504,917504,917504,0,0,917504,
917504,0,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,
917504,0,917504,0,0,0,917504,917504,917504,917504,0,0,893703,917504,851968,851968,
851968,893696,893696,893696,893696,0,0,851968,851968,0,0,851968,851968,893705,917504,0,
0,0,0,0,0,0,0,851968,0,0,0,0,393216,393216,0,393216,
917504,917504,893696,893696,0,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
917504,917504,552960,552960,524288,524288,524288,524288,524288,524288,524288,552960,917504,524288,893926,0,
0,893696,893696,851968,0,917504,917504,917504,917504,917504,917504,0,0,0,0,917504,
917504,0,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,
917504,0,917504,393216,0,917504,393216,0,917504,917504,0,0,893703,0,851968,851968,
851968,893696,893696,0,0,0,0,893696,893696,0,0,893696,893696,893705,0,0,
0,893696,0,0,0,0,0,0,0,393216,393216,393216,917504,0,393216,0,
0,0,0,0,0,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
893696,893696,917504,917504,917504,893696,524288,0,0,0,0,0,0,0,0,0,
0,893696,893696,851968,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,
917504,917504,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,
917504,0,917504,917504,0,917504,917504,917504,917504,917504,0,0,893703,917504,851968,851968,
851968,893696,893696,893696,893696,893696,0,893696,893696,851968,0,851968,851968,893705,0,0,
917504,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,893696,893696,0,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
524288,552960,0,0,0,0,0,0,0,917504,893696,893696,893696,893696,893696,893696,
0,893696,851968,851968,0,917504,917504,917504,917504,917504,917504,917504,917504,0,0,917504,
917504,0,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,
917504,0,917504,917504,0,917504,917504,917504,917504,917504,0,0,893703,917504,851968,893696,
851968,893696,893696,893696,893696,0,0,851968,851968,0,0,851968,851968,893705,0,0,
0,0,0,0,0,893696,893696,851968,0,0,0,0,393216,393216,0,917504,
917504,917504,893696,893696,0,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
524288,917504,524288,524288,524288,524288,524288,524288,0,0,0,0,0,0,0,0,
0,0,893696,917504,0,917504,917504,917504,917504,917504,917504,0,0,0,917504,917504,
917504,0,917504,917504,917504,917504,0,0,0,917504,917504,0,917504,0,917504,917504,
0,0,0,917504,917504,0,0,0,917504,917504,917504,0,0,0,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,851968,851968,
893696,851968,851968,0,0,0,851968,851968,851968,0,851968,851968,851968,893705,0,0,
917504,0,0,0,0,0,0,851968,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
524288,524288,524288,557056,557056,557056,557056,557056,557056,552960,557056,0,0,0,0,0,
893696,851968,851968,851968,893696,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,
917504,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,15573767,917504,893696,893696,
893696,851968,851968,851968,851968,0,893696,893696,893696,0,893696,893696,893696,893705,0,0,
0,0,0,0,0,893780,893787,0,917504,917504,917504,0,917504,917504,0,0,
917504,917504,893696,893696,0,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
0,0,0,0,0,0,0,524288,557056,557056,557056,557056,557056,557056,557056,524288,
917504,893696,851968,851968,524288,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,
917504,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,0,917504,917504,917504,917504,917504,0,0,893703,917504,851968,9241344,
851968,851968,851968,851968,851968,0,9241344,851968,851968,0,851968,851968,893696,893705,0,0,
0,0,0,0,0,851968,851968,0,0,0,0,0,917504,917504,917504,0,
917504,917504,893696,893696,0,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
0,917504,917504,2949120,0,0,0,0,0,0,0,0,0,0,0,0,
893696,893696,851968,851968,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,
917504,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,893705,893705,917504,851968,851968,
851968,893696,893696,893696,893696,0,851968,851968,851968,0,851968,851968,851968,893705,917504,524288,
0,0,0,0,917504,917504,917504,851968,524288,524288,524288,524288,524288,524288,524288,917504,
917504,917504,893696,893696,0,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,917504,917504,917504,917504,917504,917504,
0,893696,851968,851968,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,0,0,0,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,0,0,
917504,917504,917504,917504,917504,917504,917504,0,0,0,893705,0,0,0,0,851968,
851968,851968,893696,893696,893696,0,893696,0,851968,851968,851968,851968,851968,851968,851968,851968,
0,0,0,0,0,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
0,0,851968,851968,524288,0,0,0,0,0,0,0,0,0,0,0,
0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,893696,917504,393216,893696,893696,893696,893696,893799,893799,893705,0,0,0,0,552960,
917504,917504,917504,917504,917504,917504,917504,893696,893803,893803,893803,893803,893696,893696,893696,524288,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,524288,524288,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,917504,917504,0,917504,0,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,0,917504,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,893696,917504,393216,893696,893696,893696,893696,893814,893814,893705,893696,893696,917504,0,0,
917504,917504,917504,917504,917504,0,917504,0,893818,893818,893818,893818,893696,893696,15573760,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,393216,393216,917504,917504,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,0,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,893916,893916,524288,524288,524288,524288,524288,524288,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,893916,524288,893916,524288,893912,557056,557056,557056,557056,851968,851968,
917504,917504,917504,393216,917504,917504,917504,917504,0,917504,917504,917504,917504,393216,917504,917504,
917504,917504,393216,917504,917504,917504,917504,393216,917504,917504,917504,917504,393216,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,393216,917504,917504,917504,0,0,0,
0,893825,893826,368640,893828,368640,368640,368640,368640,368640,893826,893826,893826,893826,893696,851968,
893826,368640,893926,893926,893705,524288,893926,893926,917504,917504,917504,917504,917504,893696,893696,893696,
893696,893696,893696,368640,893696,893696,893696,893696,0,893696,893696,893696,893696,368640,893696,893696,
893696,893696,368640,893696,893696,893696,893696,368640,893696,893696,893696,893696,368640,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893696,893696,893696,368640,893696,893696,893696,0,524288,524288,
524288,524288,524288,524288,524288,524288,893916,524288,524288,524288,524288,524288,524288,0,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,851968,851968,893696,893696,893696,
893696,851968,893696,893696,893696,893696,893696,893703,851968,893705,893705,851968,851968,893696,893696,917504,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,524288,524288,524288,524288,524288,524288,
917504,917504,917504,917504,917504,917504,851968,851968,893696,893696,917504,917504,917504,917504,893696,893696,
893696,917504,851968,851968,851968,917504,917504,851968,851968,851968,851968,851968,851968,851968,917504,917504,
917504,893696,893696,893696,893696,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,893696,851968,851968,893696,893696,851968,851968,851968,851968,851968,851968,893916,917504,851968,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,851968,851968,851968,893696,524288,524288,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,0,393216,0,0,0,0,0,393216,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,524288,393216,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,393216,
393216,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,0,0,
917504,917504,917504,917504,917504,917504,917504,0,917504,0,917504,917504,917504,917504,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,0,917504,917504,917504,917504,0,0,917504,917504,917504,917504,917504,917504,917504,0,
917504,0,917504,917504,917504,917504,0,0,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,0,917504,917504,917504,917504,0,0,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,893926,893926,893926,
524288,524288,524288,524288,524288,524288,524288,524288,524288,786432,786432,786432,786432,786432,786432,786432,
786432,786432,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,0,0,393216,393216,393216,393216,393216,393216,0,0,
557056,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,524288,524288,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,557056,557056,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,524288,524288,524288,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,893696,893696,893705,2949129,0,0,0,0,0,0,0,0,0,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,893696,893696,13434889,524288,524288,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,893696,893696,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,
917504,0,893696,893696,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,369408,369408,851968,893696,893696,893696,893696,893696,893696,893696,851968,851968,
851968,851968,851968,851968,851968,851968,893696,851968,851968,893696,893696,893696,893696,893696,893696,893696,
893696,893696,893705,893696,524288,524288,524288,917504,524288,524288,524288,552960,917504,893926,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557568,557056,557056,557056,369408,369408,369408,36864,369408,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,918016,918016,918016,918016,918016,918016,9306624,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,1024768,1024768,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,918016,918016,918016,918016,918016,918016,918016,893924,918016,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,
893696,893696,893696,851968,851968,851968,851968,893696,893696,851968,851968,851968,0,0,0,0,
851968,851968,893696,851968,851968,851968,851968,851968,851968,893918,893926,893916,0,0,0,0,
557056,0,0,0,557056,557056,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,
917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,893926,893916,851968,851968,893696,0,0,524288,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,851968,893696,851968,893696,893696,893696,893696,893696,893696,893696,0,
893705,851968,893696,851968,851968,893696,893696,893696,893696,893696,893696,893696,893696,851968,851968,851968,
851968,851968,851968,893696,893696,893926,893926,893926,893926,893926,893926,893926,893926,0,0,893916,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,917504,524288,524288,524288,524288,524288,524288,0,0,
893926,893926,893926,893926,893926,893916,893916,893916,893916,893916,893916,893926,893926,893916,631552,893916,
893916,15573990,15573990,15573980,15573980,15573990,15573990,15573990,15573990,15573990,15573980,15573990,15573990,15573990,15573990,16622566,
16622566,16622566,16622566,16622566,16622566,16622566,16622566,16622566,16622566,16622566,16622566,16622566,16622566,16622556,0,0,
16622566,16622566,16622566,16622566,16622566,16622566,16622556,16622566,16622566,16622566,16622566,16622570,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
893696,893696,893696,893696,851968,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,893703,851968,893696,893696,893696,893696,893696,851968,893696,851968,851968,851968,
851968,851968,893696,851968,851977,917504,917504,917504,917504,917504,917504,917504,917504,0,524288,524288,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,893926,893916,893926,893926,893926,
893926,893926,893926,893926,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
893696,893696,851968,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,851968,893696,893696,893696,893696,851968,851968,893696,893696,851977,893705,893696,893696,917504,917504,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,893703,851968,893696,893696,851968,851968,851968,893696,851968,893696,
893696,893696,851977,851977,0,0,0,0,0,0,0,0,524288,524288,524288,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,851968,851968,851968,851968,851968,851968,851968,851968,893696,893696,893696,893696,
893696,893696,893696,893696,851968,851968,893696,893703,0,0,0,524288,524288,524288,524288,524288,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,917504,917504,917504,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,524288,524288,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,917504,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,0,393216,393216,393216,
524288,524288,524288,524288,524288,524288,524288,524288,0,0,0,0,0,0,0,0,
893926,893926,893926,524288,893697,893916,893916,893916,893916,893916,893926,893926,893916,893916,893916,893916,
893926,851968,893697,893697,893697,893697,893697,893697,893697,917504,917504,917504,917504,893916,917504,917504,
917504,917504,917504,917504,893926,917504,917504,851968,893926,893926,917504,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,393216,393216,393216,917504,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,917504,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,917504,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,393216,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
893926,893926,893916,893926,893926,893926,893926,893926,893926,893926,893916,893926,893926,893930,893910,893916,
893898,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,
893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,
893926,893926,893926,893926,893926,893926,893928,893924,893924,893916,15573978,893926,893929,893916,893926,893916,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,917504,917504,917504,917504,393216,393216,917504,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
917504,917504,917504,917504,917504,917504,917504,917504,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,917504,917504,917504,917504,0,0,393216,393216,393216,393216,393216,393216,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,917504,917504,917504,917504,917504,917504,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,917504,917504,917504,917504,0,0,393216,393216,393216,393216,393216,393216,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,0,393216,0,393216,0,393216,0,393216,
917504,917504,917504,917504,917504,917504,917504,917504,393216,393216,393216,393216,393216,393216,393216,393216,
917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,393216,393216,393216,0,917504,393216,393216,393216,393216,393216,393216,32768,393216,32768,
32768,32768,393216,393216,393216,0,917504,393216,393216,393216,393216,393216,393216,32768,32768,32768,
917504,917504,917504,393216,0,0,917504,917504,393216,393216,393216,393216,0,32768,32768,32768,
917504,917504,917504,393216,917504,917504,917504,917504,393216,393216,393216,393216,393216,32768,32768,32768,
0,0,393216,393216,393216,0,917504,393216,393216,393216,393216,393216,393216,32768,32768,0,
0,0,0,0,0,0,0,0,0,0,0,37632,823296,823296,768,4864,
557056,32768,557056,557056,557056,557056,557056,32768,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,32768,32768,32768,557056,0,0,768,768,768,768,768,24576,
552960,552960,552960,28672,28672,557056,32768,32768,557056,557056,557056,557056,32768,557056,32768,819200,
819200,557056,557056,557056,548864,557056,557056,32768,32768,32768,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,819200,557056,557056,32768,557056,557056,557056,557056,557056,557056,557056,0,
37632,37632,37632,37632,37632,36864,0,0,0,0,37632,37632,37632,37632,37632,37632,
16384,393216,0,0,16384,16384,16384,16384,16384,16384,20480,20480,32768,32768,32768,393216,
16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,20480,20480,32768,32768,32768,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,0,0,
552960,552960,552960,552960,552960,552960,552960,552960,28672,552960,552960,552960,552960,552960,552960,552960,
552960,552960,552960,552960,552960,552960,552960,552960,552960,552960,552960,552960,552960,552960,552960,552960,
4747264,4747264,28672,28672,28672,28672,28672,28672,28672,28672,28672,28672,28672,28672,28672,28672,
893926,893926,893697,893697,893926,893926,893926,893926,893697,893697,893697,893926,893926,631552,631552,631552,
631552,893926,631552,631552,631552,893697,893697,893926,893916,893926,893697,893697,893916,893916,893916,893916,
893926,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
32768,32768,393216,32768,557056,32768,32768,393216,557056,32768,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,557056,393216,32768,557056,950272,393216,393216,393216,393216,393216,557056,557056,
32768,32768,32768,557056,393216,557056,393216,557056,393216,557056,393216,393216,393216,393216,946176,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,557056,32768,393216,393216,393216,393216,
32768,557056,557056,557056,557056,393216,393216,393216,393216,393216,557056,557056,557056,557056,917504,524288,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,917504,393216,917504,917504,917504,917504,917504,32768,557056,557056,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,544768,552960,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,32768,32768,557056,32768,
32768,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,32768,32768,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,524288,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,4751360,4751360,4751360,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,16384,16384,16384,16384,16384,16384,16384,16384,
16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,32768,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,524288,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,32768,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,32768,32768,32768,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,32768,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,0,0,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,4751360,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
393216,917504,393216,393216,393216,917504,917504,393216,917504,393216,917504,393216,917504,393216,393216,393216,
393216,917504,393216,917504,917504,393216,917504,917504,917504,917504,917504,917504,393216,393216,393216,393216,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,917504,557056,557056,557056,557056,557056,557056,393216,917504,393216,917504,893926,
893926,893926,393216,917504,0,0,0,0,0,557056,557056,557056,557056,557056,557056,557056,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,0,917504,0,0,0,0,0,917504,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,393216,
524288,0,0,0,0,0,0,0,0,0,0,0,0,0,0,893705,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,917504,0,
917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,917504,0,
917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,917504,0,
917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,917504,0,
893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,
893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,557056,557056,557056,557056,32768,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,32768,0,0,0,0,0,0,0,0,0,0,0,0,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,32768,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
0,557056,32768,557056,557056,917504,917504,917504,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,917504,917504,917504,917504,917504,917504,917504,917504,917504,893914,893924,893928,893918,852192,852192,
557056,917504,917504,917504,917504,917504,32768,557056,393216,393216,393216,917504,917504,557056,557056,557056,
0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,0,0,893704,893704,425984,425984,917504,917504,393216,
557056,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,819200,917504,917504,917504,393216,
0,0,0,0,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
0,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,
524288,524288,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,4751360,4751360,0,0,0,0,0,0,0,0,0,32768,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,32768,32768,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,524288,524288,524288,524288,524288,524288,524288,524288,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,32768,32768,32768,524288,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
0,0,0,0,0,0,0,0,0,0,0,0,32768,32768,32768,32768,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,32768,32768,32768,32768,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,32768,32768,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,32768,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,524288,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,557056,557056,557056,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,917504,917504,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,917504,893926,
631552,631552,631552,557056,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,557056,950272,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,393216,893926,893926,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
893926,893926,524288,524288,524288,524288,524288,524288,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,950272,950272,950272,950272,950272,950272,950272,950272,950272,
557056,557056,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
917504,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,917504,917504,917504,917504,917504,917504,917504,393216,917504,393216,917504,393216,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,950272,524288,524288,393216,917504,393216,917504,917504,
393216,917504,393216,917504,917504,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,393216,393216,393216,393216,917504,
393216,393216,393216,393216,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,
393216,917504,393216,917504,393216,393216,393216,393216,917504,393216,917504,393216,393216,917504,393216,917504,
393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,917504,393216,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,393216,393216,393216,393216,393216,917504,917504,393216,393216,917504,917504,917504,917504,917504,917504,
917504,917504,893696,917504,917504,917504,893705,917504,917504,917504,917504,893696,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,851968,851968,893696,893696,851968,557056,557056,557056,557056,893705,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,552960,552960,0,0,0,0,0,0,
918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,918016,
918016,918016,917760,917504,557056,557056,557056,557056,0,0,0,0,0,0,0,0,
851968,851968,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,
851968,851968,851968,851968,893705,893696,0,0,0,0,0,0,0,0,524288,524288,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,893926,
893926,893926,917504,917504,917504,917504,917504,917504,524288,524288,524288,917504,524288,917504,917504,893696,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,893696,893696,893696,893696,893696,893916,893916,893916,524288,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,893696,893696,893696,893696,893696,893696,893696,893696,893696,
893696,893696,851968,851977,0,0,0,0,0,0,0,0,0,0,0,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,
893696,893696,893696,851968,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,893703,851968,851968,893696,893696,893696,893696,851968,851968,893696,893696,851968,851968,
851977,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,0,917504,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,524288,524288,
917504,917504,917504,917504,917504,893696,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,917504,917504,917504,917504,917504,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,893696,893696,893696,893696,893696,893696,851968,
851968,893696,893696,851968,851968,893696,893696,0,0,0,0,0,0,0,0,0,
917504,917504,917504,893696,917504,917504,917504,917504,917504,917504,917504,917504,893696,851968,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,524288,524288,524288,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,524288,524288,524288,917504,851968,893696,851968,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
893926,917504,893926,893926,893916,917504,917504,893926,893926,917504,917504,917504,917504,917504,893926,893926,
917504,893926,917504,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,917504,917504,917504,524288,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,851968,893696,893696,851968,851968,
524288,524288,917504,917504,917504,851968,893705,0,0,0,0,0,0,0,0,0,
0,917504,917504,917504,917504,917504,917504,0,0,917504,917504,917504,917504,917504,917504,0,
0,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,917504,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,524288,393216,393216,393216,393216,
917504,917504,917504,917504,917504,917504,917504,917504,917504,393216,557056,557056,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,851968,851968,893696,851968,851968,893696,851968,851968,524288,851968,893705,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,0,0,0,0,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,917504,917504,
393216,917504,393216,917504,917504,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,917504,
393216,917504,393216,917504,917504,393216,393216,917504,917504,917504,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,0,0,0,0,0,0,0,0,0,
0,0,0,393216,393216,393216,393216,393216,0,0,0,0,0,397312,893722,397312,
397312,397312,397312,397312,397312,397312,397312,397312,397312,20480,397312,397312,397312,397312,397312,397312,
397312,397312,397312,397312,397312,397312,397312,4096,397312,397312,397312,397312,397312,4096,397312,4096,
397312,397312,4096,397312,397312,4096,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,
532480,532480,4726784,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,557056,557056,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
4751360,4751360,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,8192,557056,4751360,4751360,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,0,0,0,0,0,0,
893926,893926,893926,893926,893926,893926,893926,893916,893916,893916,893916,893916,893916,893916,893926,893926,
32768,32768,32768,294912,294912,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,557056,557056,32768,32768,32768,32768,32768,32768,294912,294912,294912,
24576,32768,24576,0,32768,24576,32768,32768,32768,32768,32768,32768,32768,32768,32768,28672,
32768,32768,20480,20480,32768,32768,32768,0,32768,28672,28672,32768,0,0,0,0,
401408,401408,401408,925696,401408,8192,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,8192,8192,37632,
0,32768,32768,28672,28672,28672,32768,32768,32768,32768,32768,20480,24576,20480,24576,24576,
278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,24576,32768,32768,32768,32768,32768,
32768,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,32768,32768,32768,32768,294912,
32768,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,32768,32768,32768,32768,32768,
32768,32768,32768,32768,32768,294912,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,
0,0,393216,393216,393216,393216,393216,393216,0,0,393216,393216,393216,393216,393216,393216,
0,0,393216,393216,393216,393216,393216,393216,0,0,393216,393216,393216,0,0,0,
28672,28672,32768,32768,32768,28672,28672,0,32768,32768,32768,32768,32768,32768,32768,0,
36864,36864,36864,36864,36864,36864,36864,36864,36864,33536,33536,33536,32768,32768,36864,36864,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,0,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,
524288,557056,524288,0,0,0,0,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,0,0,0,524288,524288,524288,524288,524288,524288,524288,524288,524288,
950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,
950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,
950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,950272,
950272,950272,950272,950272,950272,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,524288,524288,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,
557056,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,893916,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
893916,540672,540672,540672,540672,540672,540672,540672,540672,540672,540672,540672,540672,540672,540672,540672,
540672,540672,540672,540672,540672,540672,540672,540672,540672,540672,540672,540672,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
524288,524288,524288,524288,0,0,0,0,0,0,0,0,0,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,893926,893926,893926,893926,893926,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,0,0,0,0,917504,917504,917504,917504,917504,917504,917504,917504,
524288,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,0,0,0,0,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,0,524288,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,393216,393216,393216,393216,
393216,393216,393216,0,393216,393216,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,0,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,1966080,917504,917504,917504,917504,917504,917504,
917504,917504,1966080,917504,917504,917504,917504,917504,917504,917504,1966080,917504,917504,917504,917504,917504,
917504,917504,917504,917504,1966080,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,393216,393216,393216,393216,393216,0,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,0,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
921600,921600,921600,921600,921600,921600,4096,4096,921600,4096,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,4096,921600,921600,4096,4096,4096,921600,4096,4096,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,4096,528384,528384,528384,528384,528384,528384,528384,528384,528384,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,528384,528384,528384,528384,528384,528384,528384,528384,528384,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,4096,
4096,4096,4096,4096,4096,4096,4096,528384,528384,528384,528384,528384,528384,528384,528384,528384,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,4096,921600,921600,4096,4096,4096,4096,4096,528384,528384,528384,528384,528384,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,528384,528384,528384,528384,528384,528384,4096,4096,4096,557056,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,4096,4096,4096,4096,4096,528384,
5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,
5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,4096,4096,4096,4096,528384,528384,921600,921600,
528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,
4096,4096,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,
528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,
528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,528384,
921600,893696,893696,893696,4096,893696,893696,4096,4096,4096,4096,4096,893696,893916,893696,893926,
921600,921600,921600,921600,4096,921600,921600,921600,4096,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,4096,4096,893926,893697,893916,4096,4096,4096,4096,893705,
528384,528384,528384,528384,528384,528384,528384,528384,528384,4096,4096,4096,4096,4096,4096,4096,
528384,528384,528384,528384,528384,528384,528384,528384,528384,4096,4096,4096,4096,4096,4096,4096,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,528384,528384,528384,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,528384,528384,528384,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
9310720,9310720,9310720,9310720,9310720,9311232,921600,9311232,528384,9311232,9311232,921600,921600,9310464,9311232,9311232,
9311232,9311232,9311232,9310720,9310720,9310720,9310720,9310464,9310720,9310720,9310720,9310720,9310720,9311232,9310720,9310720,
9310720,9311232,921600,921600,9311232,893926,893916,4096,4096,4096,4096,8917504,8917504,8917504,8917504,8918016,
528384,528384,528384,528384,528384,528384,528384,4096,4096,4096,4096,4096,4096,4096,4096,4096,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,4096,4096,4096,557056,557056,557056,557056,557056,557056,557056,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,4096,4096,528384,528384,528384,528384,528384,528384,528384,528384,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,4096,4096,4096,4096,4096,528384,528384,528384,528384,528384,528384,528384,528384,
9310720,9311232,9310720,9311232,9311232,9311232,9310720,9310720,9310720,9311232,9310720,9310720,9311232,9310720,9311232,9311232,
9310720,9311232,4096,4096,4096,4096,4096,4096,4096,528384,528384,528384,528384,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,8918016,8918016,8918016,8918016,8917504,8917504,528384,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,
397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,
397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,
397312,397312,397312,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,4096,4096,4096,4096,4096,4096,4096,528384,528384,528384,528384,528384,528384,
9314560,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,
9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,
9314816,9314816,9315328,9314816,893926,893926,893926,893926,4096,4096,4096,4096,4096,4096,4096,4096,
798720,798720,798720,798720,798720,798720,798720,798720,798720,798720,4096,4096,4096,4096,4096,4096,
4993024,4993024,4993024,4993024,4993024,4993024,4993024,4993024,4993024,4993024,5115904,5115904,5115904,5115904,5115904,5115904,
397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,
397312,397312,397312,397312,397312,397312,4096,4096,4096,16622566,16622566,16622566,16622566,16622566,4751360,5115904,
5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,5115904,
5115904,5115904,5115904,5115904,5115904,5115904,4096,4096,4096,4096,4096,4096,4096,4096,4722688,4722688,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,
536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,536576,4096,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,4096,893926,893926,528384,4096,4096,
921600,921600,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,13509632,13509120,13509120,5120000,13509120,13509120,4096,4096,4096,4096,4096,4096,4096,4096,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,16622556,16622556,15573760,15573980,15573980,15573980,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,528384,528384,528384,
528384,528384,528384,528384,528384,528384,528384,921600,4096,4096,4096,4096,4096,4096,4096,4096,
9314816,9314816,9314816,9315328,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,9314816,
9314816,9314816,9314816,9314816,9314816,925696,893916,893916,893926,893926,893926,893916,893926,893916,893916,893916,
893916,8921600,8921600,8921600,8922112,532480,532480,532480,532480,532480,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
13505024,13505024,13505024,13505024,13505536,13505536,13505024,13505024,13505024,13505024,13505024,13505024,13505024,13505024,13505024,13505024,
13505024,13505024,15573990,15573980,15573990,15573980,4722688,4722688,4722688,4722688,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
9310720,921600,9310720,9310720,9311232,9311232,9311232,921600,9310720,9311232,9311232,9310720,9310720,9311232,9310720,9310720,
921600,9310720,9311232,9311232,9310720,528384,528384,528384,528384,8918016,8917504,8917248,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,4096,4096,4096,4096,4096,4096,4096,4096,4096,
851968,893696,851968,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,893696,893696,893696,893696,893696,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893705,524288,524288,524288,524288,524288,524288,524288,0,0,
0,0,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
15573769,917504,917504,15573760,15573760,917504,0,0,0,0,0,0,0,0,0,893705,
893696,893696,851968,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
851968,851968,851968,893696,893696,893696,893696,851968,851968,893705,893703,524288,524288,0,524288,524288,
524288,524288,15573760,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
893926,893926,893926,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,893696,893696,893696,893696,893696,851968,893696,893696,893696,
893696,893696,893696,893705,893705,0,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
524288,524288,524288,524288,917504,851968,851968,917504,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,893703,524288,524288,917504,0,0,0,0,0,0,0,0,0,
893696,893696,851968,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,851968,851968,851968,893696,893696,893696,893696,893696,893696,893696,893696,893696,851968,
851977,917504,917504,917504,917504,524288,524288,524288,524288,893696,893703,893696,893696,524288,851968,893696,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,917504,524288,917504,524288,524288,524288,
0,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,851968,851968,851968,893696,
893696,893696,851968,851968,893696,851977,893703,893696,524288,524288,524288,524288,524288,524288,893696,917504,
917504,15573760,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,0,917504,0,917504,917504,917504,917504,0,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,524288,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,893696,
851968,851968,851968,893696,893696,893696,893696,893696,893696,893703,893705,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
893696,893696,851968,851968,0,917504,917504,917504,917504,917504,917504,917504,917504,0,0,917504,
917504,0,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,
917504,0,917504,917504,0,917504,917504,917504,917504,917504,0,893703,893703,917504,851968,851968,
893696,851968,851968,851968,851968,0,0,851968,851968,0,0,851968,851968,851977,0,0,
917504,0,0,0,0,0,0,851968,0,0,0,0,0,917504,917504,917504,
917504,917504,851968,851968,0,0,893926,893926,893926,893926,893926,893926,893926,0,0,0,
893926,893926,893926,893926,893926,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,1966080,1966080,1966080,1966080,917504,917504,917504,917504,0,1966080,0,0,1966080,0,
1966080,1966080,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,0,917504,2949120,2949120,2949120,15573760,15573760,15573760,15573760,15573760,
15573760,0,3997696,0,0,3997696,0,3997696,3997696,2949120,2949120,0,2949120,2949120,16622345,3997705,
16622345,917504,15573760,917504,524288,524288,0,524288,524288,0,0,0,0,0,0,0,
0,15573760,15573760,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,851968,851968,851968,893696,893696,893696,893696,893696,893696,893696,893696,
851968,851968,893705,893696,893696,851968,893703,917504,917504,917504,917504,524288,524288,524288,524288,524288,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,524288,524288,0,524288,893926,917504,
917504,917504,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
851968,851968,851968,893696,893696,893696,893696,893696,893696,851968,893696,851968,851968,851968,851968,893696,
893696,851968,893705,893703,917504,917504,524288,917504,0,0,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,851968,
851968,851968,893696,893696,893696,893696,0,0,851968,851968,851968,851968,893696,893696,851968,893705,
893703,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,917504,917504,917504,917504,893696,893696,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
851968,851968,851968,893696,893696,893696,893696,893696,893696,893696,893696,851968,851968,893696,851968,893705,
893696,524288,524288,524288,917504,0,0,0,0,0,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,893696,851968,893696,851968,851968,
893696,893696,893696,893696,893696,893696,851977,893703,917504,524288,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,
786432,786432,786432,786432,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,893696,13434880,893696,
851968,851968,893696,893696,893696,893696,851968,893696,893696,893696,893696,893705,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,524288,524288,524288,524288,524288,524288,
917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,851968,851968,851968,893696,
893696,893696,893696,893696,893696,893696,893696,893696,851968,893705,893703,524288,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,524288,524288,524288,524288,524288,524288,
524288,524288,524288,0,0,0,0,0,0,0,0,0,0,0,0,917504,
917504,917504,917504,917504,917504,917504,917504,0,0,917504,0,0,917504,917504,917504,917504,
917504,917504,917504,917504,0,917504,917504,0,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
851968,851968,851968,851968,851968,851968,0,851968,851968,0,0,893696,893696,851977,893705,917504,
851968,917504,851968,893703,524288,524288,524288,0,0,0,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,0,0,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,851968,851968,851968,893696,893696,893696,893696,0,0,893696,893696,851968,851968,851968,851968,
893705,917504,524288,917504,851968,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,893696,893696,893696,893696,893696,893696,9241344,9241344,893696,893696,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,893696,893705,893696,893696,893696,893696,851968,917504,893696,893696,893696,893696,524288,
524288,524288,524288,524288,524288,524288,524288,893705,0,0,0,0,0,0,0,0,
917504,893696,893696,893696,893696,893696,893696,851968,851968,893696,893696,893696,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,893696,893696,893696,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893696,851968,893696,893705,524288,524288,524288,917504,524288,524288,
524288,524288,524288,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
15573760,2949120,15573760,15573760,15573760,2949120,15573760,2949120,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,524288,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,851968,
893696,893696,893696,893696,893696,893696,893696,0,893696,893696,893696,893696,893696,893696,851968,9241353,
917504,524288,524288,524288,524288,524288,0,0,0,0,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,0,0,0,
524288,524288,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
0,0,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893696,893696,0,851968,893696,893696,893696,893696,893696,893696,
893696,851968,893696,893696,851968,893696,893696,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,0,917504,917504,0,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,893696,893696,893696,893696,893696,893696,0,0,0,893696,0,893696,893696,0,893696,
893696,893696,893703,893696,893705,893705,917504,893696,0,0,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,0,917504,917504,0,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,851968,851968,851968,851968,851968,0,
893696,893696,0,851968,851968,893696,851968,893705,917504,0,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,893696,893696,851968,851968,524288,524288,0,0,0,0,0,0,0,
15573760,15573760,917504,2949120,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,2949120,2949120,15573760,15573760,15573760,15573760,15573760,0,0,0,2949120,2949120,
15573760,2949129,15573769,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,15573760,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,557056,557056,557056,557056,557056,557056,557056,557056,552960,552960,552960,
552960,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,0,0,0,0,0,0,0,0,0,0,0,0,0,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,
524288,524288,524288,524288,524288,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,524288,524288,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
768,768,768,768,768,768,768,768,768,768,768,768,768,768,768,768,
15573760,917504,917504,917504,917504,917504,917504,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,
15573760,15573760,15573760,15573760,15573760,15573760,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,16622336,15573760,
15573760,16622336,16622336,16622336,16622336,16622336,16622336,16622336,16622336,16622336,2949120,2949120,2949120,15573760,15573760,16622345,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,524288,524288,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,
893697,893697,893697,893697,893697,524288,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
893926,893926,893926,893926,893926,893926,893926,524288,524288,524288,524288,524288,524288,524288,524288,524288,
917504,917504,917504,917504,524288,524288,0,0,0,0,0,0,0,0,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,524288,524288,524288,524288,524288,
524288,524288,0,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,1966080,917504,917504,917504,1966080,1966080,1966080,1966080,917504,917504,524288,524288,524288,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,0,0,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,893696,
917504,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,
851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,
851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,851968,
851968,851968,851968,851968,851968,851968,851968,851968,0,0,0,0,0,0,0,893696,
893696,893696,893696,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,557056,917504,893696,0,0,0,0,0,0,0,0,0,0,0,
851974,851974,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,0,917504,917504,917504,917504,917504,917504,917504,0,917504,917504,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,917504,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,0,0,917504,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,917504,917504,917504,917504,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,524288,893696,893697,524288,
37632,37632,37632,37632,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,4751360,4751360,4751360,0,0,0,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,0,0,0,0,0,0,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,
15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,
15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,0,0,
15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,15573760,
15573760,15573760,15573760,15573760,15573760,15573760,15573760,0,0,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,0,0,0,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,0,0,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,0,0,
0,0,0,0,0,852184,852184,893697,893697,893697,524288,524288,524288,852194,852184,852184,
852184,852184,852184,37632,37632,37632,37632,37632,37632,37632,37632,893916,893916,893916,893916,893916,
893916,893916,893916,524288,524288,893926,893926,893926,893926,893926,893916,893916,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,893926,893926,893926,893926,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,0,0,0,0,0,
0,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,4751360,4751360,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,893926,893926,893926,557056,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,0,0,0,0,0,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,0,0,0,0,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,0,0,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,0,0,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,0,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,393216,393216,
0,0,393216,0,0,393216,393216,0,0,393216,393216,393216,393216,0,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,393216,0,393216,393216,393216,
393216,393216,393216,393216,0,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,0,393216,393216,393216,393216,0,0,393216,393216,393216,
393216,393216,393216,393216,393216,0,393216,393216,393216,393216,393216,393216,393216,0,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,393216,393216,393216,393216,0,
393216,393216,393216,393216,393216,0,393216,0,0,0,393216,393216,393216,393216,393216,393216,
393216,0,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,0,0,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,32768,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,32768,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,32768,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,32768,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,32768,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,32768,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,32768,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,32768,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,32768,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,32768,393216,393216,393216,393216,393216,393216,393216,393216,0,0,278528,278528,
278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,
278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,
278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,
893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893696,524288,524288,524288,524288,893696,893696,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,
893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,524288,524288,524288,
524288,524288,524288,524288,524288,893696,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,893696,524288,524288,524288,524288,524288,524288,524288,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,893696,893696,893696,893696,893696,
0,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,893696,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,
0,0,0,0,0,917504,917504,917504,917504,917504,917504,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
893926,893926,893926,893926,893926,893926,893926,0,893926,893926,893926,893926,893926,893926,893926,893926,
893926,893926,893926,893926,893926,893926,893926,893926,893926,0,0,893926,893926,893926,893926,893926,
893926,893926,0,893926,893926,0,893926,893926,893926,893926,893926,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,15573990,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,
893926,893926,893926,893926,893926,893926,893926,917504,917504,917504,917504,917504,917504,917504,0,0,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,917504,524288,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,15573990,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,893926,893926,893926,893926,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,552960,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,15573992,15573992,15573980,15573990,
786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,16622566,16622556,
917504,786432,786432,786432,786432,786432,786432,786432,786432,786432,786432,0,0,0,0,524288,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,
917504,917504,917504,16622566,917504,917504,16622566,917504,917504,917504,917504,917504,917504,917504,16622566,16622566,
917504,917504,917504,917504,917504,16622566,0,0,0,0,0,0,0,0,917504,917504,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,0,917504,917504,917504,917504,0,917504,917504,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,921600,
921600,921600,921600,921600,921600,4096,4096,528384,528384,528384,528384,528384,528384,528384,528384,528384,
893916,893916,893916,893916,893916,893916,893916,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,
397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,397312,
397312,397312,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,
9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,9310720,
9310720,9310720,9310720,9310720,893926,893926,893926,893926,893926,893926,893703,9310976,4096,4096,4096,4096,
790528,790528,790528,790528,790528,790528,790528,790528,790528,790528,4096,4096,4096,4096,528384,528384,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,
532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,
532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,
532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,
532480,532480,532480,532480,532480,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,
532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,
532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,
532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,532480,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,4096,
401408,401408,401408,401408,8192,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,
8192,401408,401408,8192,401408,8192,8192,401408,8192,401408,401408,401408,401408,401408,401408,401408,
401408,401408,401408,8192,401408,401408,401408,401408,8192,401408,8192,401408,8192,8192,8192,8192,
8192,8192,401408,8192,8192,8192,8192,401408,8192,401408,8192,401408,8192,401408,401408,401408,
8192,401408,401408,8192,401408,8192,8192,401408,8192,401408,8192,401408,8192,401408,8192,401408,
8192,401408,401408,8192,401408,8192,8192,401408,401408,401408,401408,8192,401408,401408,401408,401408,
401408,401408,401408,8192,401408,401408,401408,401408,8192,401408,401408,401408,401408,8192,401408,8192,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,8192,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,8192,8192,8192,8192,
8192,401408,401408,401408,8192,401408,401408,401408,401408,401408,8192,401408,401408,401408,401408,401408,
401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,401408,8192,8192,8192,8192,
8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,
8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,
8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,
557056,557056,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,8192,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,0,0,0,0,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,
0,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
0,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
0,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,0,0,0,0,0,0,0,0,0,0,
16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,557056,557056,557056,557056,557056,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,557056,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,32768,32768,32768,557056,557056,557056,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
0,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,557056,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,524288,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,4751360,0,0,0,4751360,4751360,4751360,4751360,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,4751360,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,0,
4751360,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,
557056,557056,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,0,0,0,0,
4751360,4751360,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,4751360,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,4751360,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,4751360,4751360,4751360,4751360,0,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,0,0,
557056,557056,557056,557056,557056,4751360,4751360,4751360,557056,557056,557056,4751360,4751360,0,0,0,
557056,557056,557056,557056,557056,557056,557056,4751360,4751360,4751360,4751360,0,0,0,4751360,4751360,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
557056,557056,557056,557056,557056,557056,557056,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
557056,557056,557056,4751360,4751360,4751360,4751360,0,4751360,0,0,0,0,4751360,4751360,4751360,
557056,557056,557056,557056,557056,557056,557056,4751360,4751360,4751360,4751360,4751360,4751360,0,0,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,0,0,0,0,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,0,0,0,0,0,0,0,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,0,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,
557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,557056,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,4751360,
278528,278528,278528,278528,278528,278528,278528,278528,278528,278528,4751360,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,36864,36864,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,
393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,393216,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,
917504,917504,917504,917504,917504,917504,917504,917504,917504,917504,0,0,0,0,0,0,
36864,37632,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,
37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,
37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,
37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,
37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,
37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,37632,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,369408,
36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,36864,
};
static const unsigned short spec_map_1[8704] = {
0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,
16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,
32,33,34,32,35,36,37,38,32,32,32,32,32,39,40,41,
42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,
58,59,60,61,62,32,63,32,64,65,32,32,32,32,32,32,
32,32,32,32,66,67,68,32,69,70,71,72,73,74,75,76,
77,78,79,80,81,82,83,84,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,85,32,32,86,87,88,89,
90,91,92,93,94,95,96,97,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,98,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,
114,115,116,117,99,118,119,120,121,122,123,124,32,32,125,126,
127,128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,
143,144,145,146,147,148,149,150,151,152,99,153,154,155,156,99,
157,158,159,160,161,162,163,164,165,166,167,168,99,169,170,171,
32,32,32,32,32,32,32,172,173,32,174,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,175,
32,32,32,32,32,32,32,32,176,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,115,32,32,32,32,177,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,178,99,99,99,99,99,99,99,99,99,99,99,99,99,
32,32,32,32,179,180,181,182,99,99,183,99,184,185,186,187,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,188,189,190,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,191,
32,32,192,32,32,193,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,194,195,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,32,196,32,32,32,197,198,174,
32,199,200,201,202,203,204,99,205,206,207,208,209,210,211,212,
32,32,32,32,32,213,99,99,99,99,99,99,99,99,214,99,
215,216,217,99,99,218,99,99,99,219,99,220,99,221,99,222,
32,223,224,99,99,99,99,99,225,226,227,99,228,229,99,99,
230,231,232,233,234,99,32,32,32,32,32,32,32,235,32,236,
237,238,32,32,239,240,32,241,99,99,99,99,99,99,99,99,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,242,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
243,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,244,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,245,32,32,32,32,73,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
246,247,248,249,250,99,99,99,99,99,99,99,99,99,99,99,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,251,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,
32,32,32,32,32,32,32,32,252,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,253,254,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
};
static const unsigned short spec_map_2[32640] = {
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,
18,19,20,21,22,23,24,25,26,27,28,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
29,0,0,0,0,0,0,0,30,0,3,0,0,1,0,31,
0,0,32,33,34,35,0,0,36,37,17,0,38,39,40,0,
41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,
57,58,59,60,61,62,63,0,64,65,66,67,68,69,70,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
71,0,72,0,73,0,74,0,75,0,76,0,77,0,78,0,
79,0,80,0,81,0,82,0,83,0,84,0,85,0,86,0,
87,0,88,0,89,0,90,0,91,0,92,0,93,0,94,0,
95,0,96,96,97,0,98,0,0,99,0,100,0,101,0,102,
102,103,0,104,0,105,0,106,0,107,108,0,109,0,110,0,
111,0,112,0,113,0,114,0,115,0,116,0,117,0,118,0,
119,0,120,0,121,0,122,0,123,0,124,0,125,0,126,0,
127,0,128,0,129,0,130,0,131,132,0,133,0,134,0,21,
0,135,136,0,137,0,138,139,0,140,141,142,0,0,143,144,
145,146,0,147,148,0,149,150,151,0,0,0,152,153,0,154,
155,0,156,0,157,0,158,159,0,160,0,0,161,0,162,163,
0,164,165,166,0,167,0,168,169,0,0,0,170,0,0,0,
0,0,0,0,171,171,171,172,172,172,173,173,173,174,0,175,
0,176,0,177,0,178,0,179,0,180,0,181,0,0,182,0,
183,0,184,0,185,0,186,0,187,0,188,0,189,0,190,0,
0,191,191,191,192,0,193,194,195,0,196,0,197,0,198,0,
199,0,200,0,201,0,202,0,203,0,204,0,205,0,206,0,
207,0,208,0,209,0,210,0,211,0,212,0,213,0,214,0,
215,0,216,0,217,0,218,0,219,0,220,0,221,0,222,0,
223,0,224,0,0,0,0,0,0,0,225,226,0,227,228,0,
0,229,0,230,231,232,233,0,234,0,235,0,236,0,237,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
10,238,12,20,239,240,241,25,27,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,242,243,244,245,246,247,0,0,
148,14,21,26,248,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
249,250,0,251,252,253,0,0,0,0,0,0,0,0,0,1,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
254,0,255,0,256,0,257,0,2,2,258,0,0,0,259,260,
2,2,2,2,34,261,262,263,264,265,266,2,267,2,268,269,
0,270,271,272,273,274,275,276,277,253,278,279,35,280,281,282,
283,284,2,285,286,287,288,289,290,291,292,293,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,294,
271,277,287,268,293,288,283,0,295,0,296,0,297,0,298,0,
299,0,300,0,301,0,302,0,303,0,304,0,305,0,306,0,
278,284,285,0,277,274,0,307,0,285,308,0,0,309,310,311,
312,313,314,315,316,317,318,319,320,321,322,323,324,325,326,327,
328,329,330,331,332,333,334,335,336,337,338,339,340,341,342,343,
344,345,346,347,348,349,350,351,352,353,354,355,356,357,358,359,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
360,0,361,0,362,0,363,0,364,0,365,0,366,0,367,0,
368,0,369,0,370,0,371,0,372,0,373,0,374,0,375,0,
376,0,0,0,0,0,0,0,0,0,377,0,378,0,379,0,
380,0,381,0,382,0,383,0,384,0,385,0,386,0,387,0,
388,0,389,0,390,0,391,0,392,0,393,0,394,0,395,0,
396,0,397,0,398,0,399,0,400,0,401,0,402,0,403,0,
404,405,0,406,0,407,0,408,0,409,0,410,0,411,0,0,
412,0,413,0,414,0,415,0,416,0,417,0,418,0,419,0,
420,0,421,0,422,0,423,0,424,0,425,0,426,0,427,0,
428,0,429,0,430,0,431,0,432,0,433,0,434,0,435,0,
436,0,437,0,438,0,439,0,440,0,441,0,442,0,443,0,
444,0,445,0,446,0,447,0,448,0,449,0,450,0,451,0,
452,0,453,0,454,0,455,0,456,0,457,0,458,0,459,0,
2,460,461,462,463,464,465,466,467,468,469,470,471,472,473,474,
475,476,477,478,479,480,481,482,483,484,485,486,487,488,489,490,
491,492,493,494,495,496,497,2,2,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,498,0,0,0,2,2,0,0,0,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,0,
0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,499,500,501,502,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,0,2,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,503,504,505,506,507,508,509,510,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,0,0,0,0,0,0,0,0,2,2,0,
0,2,2,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,
0,2,0,2,2,2,0,0,0,0,2,2,0,0,0,0,
0,0,0,0,0,2,2,0,0,2,2,0,0,0,0,2,
2,2,2,2,2,2,2,0,2,2,2,2,511,512,2,513,
0,0,0,0,2,2,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
2,0,0,0,2,0,0,0,0,0,0,2,2,2,2,0,
0,2,2,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,
0,2,0,514,2,0,515,2,0,0,2,2,0,2,0,0,
0,0,0,2,2,2,2,0,0,2,2,0,0,0,2,2,
2,0,2,2,2,2,2,2,2,516,517,518,0,2,519,2,
2,2,2,2,2,2,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
2,0,0,0,2,0,0,0,0,0,0,0,0,0,2,0,
0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,
0,2,0,0,2,0,0,0,0,0,2,2,0,0,0,0,
0,0,0,0,0,0,2,0,0,0,2,0,0,0,2,2,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,2,2,0,0,0,0,0,0,0,0,0,0,
0,0,2,2,2,2,2,2,2,0,0,0,0,0,0,0,
2,0,0,0,2,0,0,0,0,0,0,0,0,2,2,0,
0,2,2,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,
0,2,0,0,2,0,0,0,0,0,2,2,0,0,0,0,
0,0,0,0,0,2,2,0,0,2,2,0,0,0,2,2,
2,2,2,2,2,0,0,0,2,2,2,2,520,521,2,0,
0,0,0,0,2,2,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
2,2,0,0,2,0,0,0,0,0,0,2,2,2,0,0,
0,2,0,0,0,0,2,2,2,0,0,2,0,2,0,0,
2,2,2,0,0,2,2,2,0,0,0,2,2,2,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,0,0,
0,0,0,2,2,2,0,0,0,2,0,0,0,0,2,2,
0,2,2,2,2,2,2,0,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,
0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,0,0,0,0,
0,0,0,0,0,2,0,0,0,2,0,0,0,0,2,2,
2,2,2,2,2,0,0,2,0,0,0,2,0,0,2,2,
0,0,0,0,2,2,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,
0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,
0,0,0,0,2,0,0,0,0,0,2,2,0,0,0,0,
0,0,0,0,0,2,0,0,0,2,0,0,0,0,2,2,
2,2,2,2,2,0,0,2,2,2,2,2,0,0,0,2,
0,0,0,0,2,2,0,0,0,0,0,0,0,0,0,0,
2,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,
0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,2,0,0,0,2,0,0,0,0,0,0,
2,2,2,2,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,0,0,0,2,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,0,0,0,0,0,0,0,0,0,2,0,2,2,
0,0,0,0,0,0,0,2,2,2,0,2,2,2,2,0,
0,0,0,0,0,2,0,2,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,0,0,0,0,0,0,0,0,0,0,
2,2,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,522,0,0,0,0,0,0,0,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,0,0,2,0,2,0,0,0,0,0,2,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,0,2,0,0,0,0,0,0,0,0,0,
0,0,0,523,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,2,0,2,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,2,2,524,525,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,526,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,527,0,0,0,0,2,0,0,0,0,528,0,0,
0,0,529,0,0,0,0,530,0,0,0,0,531,0,0,0,
0,0,0,0,0,0,0,0,0,532,0,0,0,2,2,2,
2,0,0,533,0,534,535,536,537,538,0,0,0,0,0,0,
0,539,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,540,0,0,0,0,2,0,0,0,0,541,0,0,
0,0,542,0,0,0,0,543,0,0,0,0,544,0,0,0,
0,0,0,0,0,0,0,0,0,545,0,0,0,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
546,547,548,549,550,551,552,553,554,555,556,557,558,559,560,561,
562,563,564,565,566,567,568,569,570,571,572,573,574,575,576,577,
578,579,580,581,582,583,2,584,2,2,2,2,2,585,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,586,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,
1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,2,2,
0,0,0,0,0,0,0,2,0,2,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,2,0,0,0,0,2,2,0,0,0,0,0,0,0,2,
0,2,0,0,0,0,2,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,2,0,0,0,0,2,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,587,588,589,590,591,592,2,2,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,
0,2,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,1,1,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,2,2,2,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
330,332,342,345,346,346,354,361,593,594,0,2,2,2,2,2,
595,596,597,598,599,600,601,602,603,604,605,606,586,607,608,609,
610,611,612,613,614,615,616,617,618,619,620,621,622,623,624,625,
626,627,628,629,630,631,632,633,634,635,636,2,2,637,638,639,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,3,47,4,0,
6,7,143,9,10,11,12,13,14,15,16,0,17,216,18,20,
22,23,25,3,640,641,642,4,6,7,144,145,643,9,0,13,
15,108,17,138,644,645,18,22,23,646,152,24,647,271,272,273,
288,289,11,20,23,24,271,272,284,288,289,0,0,0,0,0,
0,0,0,0,0,0,0,0,341,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,648,5,649,57,643,
8,650,651,652,150,149,653,654,655,656,657,658,659,660,153,661,
662,154,663,664,160,665,231,164,666,165,232,28,667,668,168,277,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
669,0,670,0,671,0,672,0,673,0,674,0,675,0,676,0,
677,0,678,0,679,0,680,0,681,0,682,0,683,0,684,0,
685,0,686,0,687,0,688,0,689,0,690,0,691,0,692,0,
693,0,694,0,695,0,696,0,697,0,698,0,699,0,700,0,
701,0,702,0,703,0,704,0,705,0,706,0,707,0,708,0,
709,0,710,0,711,0,712,0,713,0,714,0,715,0,716,0,
717,0,718,0,719,0,720,0,721,0,722,0,723,0,724,0,
725,0,726,0,727,0,728,0,729,0,730,0,731,0,732,0,
733,0,734,0,735,0,736,0,737,0,738,0,739,0,740,0,
741,0,742,0,743,0,0,0,0,0,744,717,0,0,745,0,
746,0,747,0,748,0,749,0,750,0,751,0,752,0,753,0,
754,0,755,0,756,0,757,0,758,0,759,0,760,0,761,0,
762,0,763,0,764,0,765,0,766,0,767,0,768,0,769,0,
770,0,771,0,772,0,773,0,774,0,775,0,776,0,777,0,
778,0,779,0,780,0,781,0,782,0,783,0,784,0,785,0,
786,0,787,0,788,0,789,0,790,0,791,0,792,0,793,0,
0,0,0,0,0,0,0,0,794,795,796,797,798,799,800,801,
0,0,0,0,0,0,2,2,802,803,804,805,806,807,2,2,
0,0,0,0,0,0,0,0,808,809,810,811,812,813,814,815,
0,0,0,0,0,0,0,0,816,817,818,819,820,821,822,823,
0,0,0,0,0,0,2,2,824,825,826,827,828,829,2,2,
0,0,0,0,0,0,0,0,2,830,2,831,2,832,2,833,
0,0,0,0,0,0,0,0,834,835,836,837,838,839,840,841,
0,262,0,264,0,265,0,266,0,267,0,268,0,269,2,2,
842,843,844,845,846,847,848,849,842,843,844,845,846,847,848,849,
850,851,852,853,854,855,856,857,850,851,852,853,854,855,856,857,
858,859,860,861,862,863,864,865,858,859,860,861,862,863,864,865,
0,0,866,867,868,2,0,869,870,871,872,262,867,873,253,873,
874,875,876,877,878,2,0,879,880,264,881,265,877,882,883,884,
0,0,0,885,2,2,0,0,886,887,888,266,2,889,890,891,
0,0,0,892,0,0,0,0,893,894,895,268,896,897,261,898,
2,2,899,900,901,2,0,902,903,267,904,269,900,34,905,2,
29,29,29,29,29,29,29,29,29,29,29,1,0,0,2,2,
0,906,0,0,0,0,0,907,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,0,2,2,2,2,2,2,2,29,
0,0,0,908,909,0,910,911,0,0,0,0,912,0,913,0,
0,0,0,0,0,0,0,914,915,916,0,0,0,0,0,0,
0,0,0,0,0,0,0,917,0,0,0,0,0,0,0,29,
1,1,1,1,1,2,2,2,2,2,1,1,1,1,1,1,
918,11,2,2,919,920,921,922,923,924,925,926,927,928,929,16,
918,37,32,33,919,920,921,922,923,924,925,926,927,928,929,2,
3,7,17,26,144,10,13,14,15,16,18,21,22,2,2,2,
0,0,0,0,0,0,0,0,930,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
931,932,5,933,0,934,935,145,0,936,9,10,10,10,10,90,
11,11,14,14,0,16,937,0,0,18,19,20,20,20,0,0,
938,939,940,0,28,0,291,0,28,0,13,46,4,5,0,7,
7,8,941,15,17,942,943,944,945,11,0,946,283,272,272,283,
947,0,0,0,0,6,6,7,11,12,0,0,0,0,0,0,
948,949,950,951,952,953,954,955,956,957,958,959,960,961,962,963,
11,964,965,966,24,967,968,969,970,26,971,972,14,5,6,15,
11,964,965,966,24,967,968,969,970,26,971,972,14,5,6,15,
0,0,0,973,0,0,0,0,0,974,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,975,976,0,977,
978,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,979,980,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
37,32,33,919,920,921,922,923,924,981,982,983,984,985,986,987,
988,989,990,991,992,993,994,995,996,997,998,999,1000,1001,1002,1003,
1004,1005,1006,1007,1008,1009,1010,1011,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,1012,1013,1014,1015,
1016,1017,1018,1019,1020,1021,1022,1023,1024,1025,1026,1027,1028,1029,1030,1031,
1032,1033,1034,1035,1036,1037,3,4,5,6,7,8,9,10,11,12,
13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,
3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,
19,20,21,22,23,24,25,26,27,28,918,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,1038,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,1039,1040,1041,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,1042,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,0,0,0,0,0,0,0,0,0,0,
1043,1044,1045,1046,1047,1048,1049,1050,1051,1052,1053,1054,1055,1056,1057,1058,
1059,1060,1061,1062,1063,1064,1065,1066,1067,1068,1069,1070,1071,1072,1073,1074,
1075,1076,1077,1078,1079,1080,1081,1082,1083,1084,1085,1086,1087,1088,1089,1090,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
1091,0,1092,1093,1094,0,0,1095,0,1096,0,1097,0,641,659,640,
648,0,1098,0,0,1099,0,0,0,0,0,0,12,24,1100,1101,
1102,0,1103,0,1104,0,1105,0,1106,0,1107,0,1108,0,1109,0,
1110,0,1111,0,1112,0,1113,0,1114,0,1115,0,1116,0,1117,0,
1118,0,1119,0,1120,0,1121,0,1122,0,1123,0,1124,0,1125,0,
1126,0,1127,0,1128,0,1129,0,1130,0,1131,0,1132,0,1133,0,
1134,0,1135,0,1136,0,1137,0,1138,0,1139,0,1140,0,1141,0,
1142,0,1143,0,1144,0,1145,0,1146,0,1147,0,1148,0,1149,0,
1150,0,1151,0,0,0,0,0,0,0,0,1152,0,1153,0,0,
0,0,1154,0,2,2,2,2,2,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,0,2,2,2,2,2,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,1155,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,0,0,0,0,1156,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,1157,2,2,2,2,2,2,2,2,2,2,2,2,
1158,1159,1160,1161,1162,1163,1164,1165,1166,1167,1168,1169,1170,1171,1172,1173,
1174,1175,1176,1177,1178,1179,1180,1181,1182,1183,1184,1185,1186,1187,1188,1189,
1190,1191,1192,1193,1194,1195,1196,1197,1198,1199,1200,1201,1202,1203,1204,1205,
1206,1207,1208,1209,1210,1211,1212,1213,1214,1215,1216,1217,1218,1219,1220,1221,
1222,1223,1224,1225,1226,1227,1228,1229,1230,1231,1232,1233,1234,1235,1236,1237,
1238,1239,1240,1241,1242,1243,1244,1245,1246,1247,1248,1249,1250,1251,1252,1253,
1254,1255,1256,1257,1258,1259,1260,1261,1262,1263,1264,1265,1266,1267,1268,1269,
1270,1271,1272,1273,1274,1275,1276,1277,1278,1279,1280,1281,1282,1283,1284,1285,
1286,1287,1288,1289,1290,1291,1292,1293,1294,1295,1296,1297,1298,1299,1300,1301,
1302,1303,1304,1305,1306,1307,1308,1309,1310,1311,1312,1313,1314,1315,1316,1317,
1318,1319,1320,1321,1322,1323,1324,1325,1326,1327,1328,1329,1330,1331,1332,1333,
1334,1335,1336,1337,1338,1339,1340,1341,1342,1343,1344,1345,1346,1347,1348,1349,
1350,1351,1352,1353,1354,1355,1356,1357,1358,1359,1360,1361,1362,1363,1364,1365,
1366,1367,1368,1369,1370,1371,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
29,0,1372,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,1373,0,1181,1374,1375,0,0,0,0,0,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,0,0,1376,1377,0,0,1378,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1379,
2,2,2,2,2,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,1380,1381,1382,1383,1384,1385,1386,1387,1388,1389,1390,1391,1392,1393,1394,
1395,1396,1397,1398,1399,1400,1401,1402,1403,1404,1405,1406,1407,1408,1409,1410,
1411,1412,1413,1414,1415,1416,1417,1418,1419,1420,1421,1422,1423,1424,1425,1426,
1427,1428,1429,1430,1,1431,1432,1433,1434,1435,1436,1437,1438,1439,1440,1441,
1442,1443,1444,1445,1446,1447,1448,1449,1450,1451,1452,1453,1454,1455,1456,1457,
1458,1459,1460,1461,1462,1463,1464,1465,1466,1467,1468,1469,1470,1471,1472,2,
0,0,1158,1164,1473,1474,1475,1476,1477,1478,1162,1479,1480,1481,1482,1166,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
1483,1484,1485,1486,1487,1488,1489,1490,1491,1492,1493,1494,1495,1496,1497,1498,
1499,1500,1501,1502,1503,1504,1505,1506,1507,1508,1509,1510,1511,1512,1513,2,
1514,1515,1516,1517,1518,1519,1520,1521,1522,1523,1524,1525,1526,1527,1528,1529,
1530,1531,1532,1533,1534,1535,1536,1537,1538,1539,1540,1541,1542,1543,1544,1545,
1546,1547,1548,1549,1550,1551,1224,1552,0,0,0,0,0,0,0,0,
1553,1554,1555,1556,1557,1558,1559,1560,1561,1562,1563,1564,1565,1566,1567,1568,
1380,1383,1386,1388,1396,1397,1400,1402,1403,1405,1406,1407,1408,1409,1569,1570,
1571,1572,1573,1574,1575,1576,1577,1578,1579,1580,1581,1582,1583,1584,1585,0,
1158,1164,1473,1474,1586,1587,1588,1169,1589,1181,1231,1243,1242,1232,1324,1189,
1229,1590,1591,1592,1593,1594,1595,1596,1597,1598,1599,1195,1600,1601,1602,1603,
1604,1605,1606,1607,1475,1476,1477,1608,1609,1610,1611,1612,1613,1614,1615,1616,
1617,1618,1619,1620,1621,1622,1623,1624,1625,1626,1627,1628,1629,1630,1631,1632,
1633,1634,1635,1636,1637,1638,1639,1640,1641,1642,1643,1644,1645,1646,1647,1648,
1649,1650,1651,1652,1653,1654,1655,1656,1657,1658,1659,1660,1661,1662,1663,1664,
1665,1666,1667,1668,1669,1670,1671,1672,1673,1674,1675,1676,1677,1678,1679,1680,
1681,1682,1683,1684,1685,1686,1687,1688,1689,1690,1691,1692,1693,1694,1695,1696,
1697,1698,1699,1700,1701,1702,1703,1704,1705,1706,1707,1708,1709,1710,1711,1712,
1713,1714,1715,1716,1717,1718,1719,1720,1721,1722,1723,1724,1725,1726,1727,1728,
1729,1730,1731,1732,1733,1734,1735,1736,1737,1738,1739,1740,1741,1742,1743,1744,
1745,1746,1747,1748,1749,1750,1751,1752,1753,1754,1755,1756,1757,1758,1759,1760,
1761,1762,1763,1764,1765,1766,1767,1768,1769,1770,1771,1772,1773,1774,1775,1776,
1777,1778,1779,1780,1781,1782,1783,1784,1785,1786,1787,1788,1789,1790,1791,1792,
1793,1794,1795,1796,1797,1798,1799,1800,1801,1802,1803,1804,1805,1806,1807,1808,
1809,1810,1811,1812,1813,1814,1815,1816,1817,1818,1819,1820,1821,1822,1823,1824,
1825,1826,1827,1828,1829,1830,1831,1832,1833,1834,1835,1836,1837,1838,1839,1840,
1841,1842,1843,1844,1845,1846,1847,1848,1849,1850,1851,1852,1853,1854,1855,1856,
1857,1858,1859,1860,1861,1862,1863,1864,1865,1825,1866,1867,1868,1869,1870,1871,
1872,1873,1874,1875,1876,1877,1878,1879,1880,1879,1881,1882,1883,1884,1885,1884,
1886,1887,2,1888,1889,1890,1891,2,1892,1893,1894,1895,1896,1897,1855,1898,
1899,1900,1901,1902,1831,1903,1904,1905,2,1906,1907,1908,1909,1910,1911,1912,
1913,1914,1915,1916,1917,1918,1919,1920,1921,1922,1923,1924,1925,1926,1927,1928,
1929,1930,1931,1932,1933,1934,1935,1936,1937,1938,1939,1940,1941,1942,1943,1944,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
1945,0,1946,0,1947,0,1948,0,1949,0,593,0,1950,0,1951,0,
1952,0,1953,0,1954,0,1955,0,1956,0,1957,0,1958,0,1959,0,
1960,0,1961,0,1962,0,1963,0,1964,0,1965,0,1966,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
1967,0,1968,0,1969,0,1970,0,1971,0,1972,0,1973,0,1974,0,
1975,0,1976,0,1977,0,1978,0,1979,0,1980,0,354,356,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,1981,0,1982,0,1983,0,1984,0,1985,0,1986,0,1987,0,
0,0,1988,0,1989,0,1990,0,1991,0,1992,0,1993,0,1994,0,
1995,0,1996,0,1997,0,1998,0,1999,0,2000,0,2001,0,2002,0,
2003,0,2004,0,2005,0,2006,0,2007,0,2008,0,2009,0,2010,0,
2011,0,2012,0,2013,0,2014,0,2015,0,2016,0,2017,0,2018,0,
2018,0,0,0,0,0,0,0,0,2019,0,2020,0,2021,2022,0,
2023,0,2024,0,2025,0,2026,0,0,0,0,2027,0,652,0,0,
2028,0,2029,0,0,0,2030,0,2031,0,2032,0,2033,0,2034,0,
2035,0,2036,0,2037,0,2038,0,2039,0,238,643,651,2040,653,0,
2041,2042,655,2043,2044,0,2045,0,2046,0,2047,0,2048,0,2049,0,
2050,0,2051,0,2052,664,2053,2054,0,2055,0,2056,2057,0,2058,0,
2059,0,2060,0,2061,0,2062,0,2063,0,2064,0,2065,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,21,5,8,19,2066,0,0,90,112,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
2,0,0,0,0,0,0,2,2,0,0,0,0,0,0,2,
2,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,1983,2067,1092,2068,
0,0,0,0,0,0,0,0,0,2069,0,0,2,2,2,2,
2070,2071,2072,2073,2074,2075,2076,2077,2078,2079,2080,2081,2082,2083,2084,2085,
2086,2087,2088,2089,2090,2091,2092,2093,2094,2095,2096,2097,2098,2099,2100,2101,
2102,2103,2104,2105,2106,2107,2108,2109,2110,2111,2112,2113,2114,2115,2116,2117,
2118,2119,2120,2121,2122,2123,2124,2125,2126,2127,2128,2129,2130,2131,2132,2133,
2134,2135,2136,2137,2138,2139,2140,2141,2142,2143,2144,2145,2146,2147,2148,2149,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2150,2151,1316,2152,2153,2154,2155,1370,1370,2156,1324,2157,2158,2159,2160,2161,
2162,2163,2164,2165,2166,2167,2168,2169,2170,2171,2172,2173,2174,2175,2176,2177,
2178,2179,2180,2181,2182,2183,2184,2185,2186,2187,2188,2189,2190,2191,2192,2193,
2194,2195,2196,2197,1282,2198,2199,2200,2201,2202,2203,2204,2205,2206,2207,2208,
1355,2209,2210,2211,2212,2213,2214,2215,2216,2217,2218,2219,2220,2221,2222,2223,
2224,2225,2226,2227,2228,2229,2230,2231,2232,2233,2234,2235,2166,2236,2237,2238,
2239,2240,2241,2242,2243,2244,2245,2246,2247,2248,2249,2250,2251,2252,2253,2254,
2255,1318,2256,2257,2258,2259,2260,2261,2262,2263,2264,2265,2266,2267,2268,2269,
2270,1195,2271,2272,2273,2274,2275,2276,2277,2278,1176,2279,2280,2281,2282,2283,
2284,2285,2286,2287,2288,2289,2290,2291,2292,2293,2294,2295,2296,2297,2298,2299,
2300,2254,2301,2302,2303,2304,2305,2306,2307,2308,2238,2309,2310,2311,2312,2313,
2314,2315,2316,2317,2318,2319,2320,2321,2322,2323,2324,2325,2326,2327,2328,2166,
2329,2330,2331,2332,1369,2333,2334,2335,2336,2337,2338,2339,2340,2341,2342,2343,
2344,1587,2345,2346,2347,2348,2349,2350,2351,2352,2353,2240,2354,2355,2356,2357,
2358,2359,2360,2361,2362,2363,2364,2365,2366,1323,2367,2368,2369,2370,2371,2372,
2373,2374,2375,2376,2377,2378,2379,1274,2380,2381,2382,2383,2384,2385,2386,2387,
2388,2389,2390,2391,2392,2393,2394,2395,1301,2396,1304,2397,2398,2399,0,0,
2400,0,2401,0,0,2402,2403,2404,2405,2406,2407,2408,2409,2410,1281,0,
2411,0,2412,0,0,2413,2414,0,0,0,2415,2416,2417,2418,2419,2420,
2421,2422,2423,2424,2425,2426,2427,2428,2429,2430,2431,2432,1202,2433,2434,2435,
2436,2437,2438,2439,2440,2441,2442,2443,2444,2445,2446,2447,1592,2448,2449,2450,
2451,1596,2452,2453,2454,2455,2456,2290,2457,2458,2459,2460,2461,2462,2462,2463,
2464,2465,2466,2467,2468,2469,2470,2413,2471,2472,2473,2474,2475,2476,2,2,
2477,2478,2479,2480,2481,2482,2483,2484,2427,2485,2486,2487,2400,2488,2489,2490,
2491,2492,2493,2494,2495,2496,2497,2498,2499,2435,2500,2436,2501,2502,2503,2504,
2505,2401,2187,2506,2507,1235,2255,2338,2508,2509,2443,2510,2444,2511,2512,2513,
2403,2514,2515,2516,2517,2518,2404,2519,2520,2521,2522,2523,2524,2456,2525,2526,
2290,2527,2460,2528,2529,2530,2531,2532,2465,2533,2412,2534,2466,2236,2535,2467,
2536,2469,2537,2538,2539,2540,2541,2471,2409,2542,2472,2543,2473,2544,1370,2545,
2546,2547,2548,2549,2550,2551,2552,2553,2554,2555,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2556,2557,2558,2559,2560,2561,2561,2,2,2,2,2,2,2,2,2,
2,2,2,2562,2563,2564,2565,2566,2,2,2,2,2,2567,0,2568,
2569,942,945,2570,2571,2572,2573,2574,2575,925,2576,2577,2578,2579,2580,2581,
2582,2583,2584,2585,2586,2587,2588,2,2589,2590,2591,2592,2593,2,2594,2,
2595,2596,2,2597,2598,2,2599,2600,2601,2602,2603,2604,2605,2606,2607,2608,
2609,2609,2610,2610,2610,2610,2611,2611,2611,2611,2612,2612,2612,2612,2613,2613,
2613,2613,2614,2614,2614,2614,2615,2615,2615,2615,2616,2616,2616,2616,2617,2617,
2617,2617,2618,2618,2618,2618,2619,2619,2619,2619,2620,2620,2620,2620,2621,2621,
2621,2621,2622,2622,2623,2623,2624,2624,2625,2625,2626,2626,2627,2627,2628,2628,
2628,2628,2629,2629,2629,2629,2630,2630,2630,2630,2631,2631,2631,2631,2632,2632,
2633,2633,2633,2633,2634,2634,2635,2635,2635,2635,2636,2636,2636,2636,2637,2637,
2638,2638,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2639,2639,2639,2639,2640,2640,2641,2641,2642,2642,501,2643,2643,
2644,2644,2645,2645,2646,2646,2646,2646,2647,2647,2648,2648,2649,2649,2650,2650,
2651,2651,2652,2652,2653,2653,2654,2654,2654,2655,2655,2655,2656,2656,2656,2656,
2657,2658,2659,2655,2660,2661,2662,2663,2664,2665,2666,2667,2668,2669,2670,2671,
2672,2673,2674,2675,2676,2677,2678,2679,2680,2681,2682,2683,2684,2685,2686,2687,
2688,2689,2690,2691,2692,2693,2694,2695,2696,2697,2698,2699,2700,2701,2702,2703,
2704,2705,2706,2707,2708,2709,2710,2711,2712,2713,2714,2715,2716,2717,2718,2719,
2720,2721,2722,2723,2724,2725,2726,2727,2728,2729,2730,2731,2732,2733,2734,2735,
2736,2737,2738,2739,2740,2741,2742,2743,2744,2745,2746,2747,2748,2749,2750,2751,
2752,2753,2754,2755,2756,2757,2659,2758,2655,2660,2759,2760,2664,2761,2665,2666,
2762,2763,2670,2764,2671,2672,2765,2766,2674,2767,2675,2676,2705,2706,2709,2710,
2711,2715,2716,2717,2718,2722,2723,2724,2768,2728,2769,2770,2734,2771,2735,2736,
2749,2772,2773,2744,2774,2745,2746,2657,2658,2775,2659,2776,2661,2662,2663,2664,
2777,2667,2668,2669,2670,2778,2674,2677,2678,2679,2680,2681,2683,2684,2685,2686,
2687,2688,2779,2689,2690,2691,2692,2693,2694,2696,2697,2698,2699,2700,2701,2702,
2703,2704,2707,2708,2712,2713,2714,2715,2716,2719,2720,2721,2722,2780,2725,2726,
2727,2728,2731,2732,2733,2734,2781,2737,2738,2782,2741,2742,2743,2744,2783,2659,
2776,2664,2777,2670,2778,2674,2784,2687,2785,2786,2787,2715,2716,2722,2734,2781,
2744,2783,2788,2789,2790,2791,2792,2793,2794,2795,2796,2797,2798,2799,2800,2801,
2802,2803,2804,2805,2806,2807,2808,2809,2810,2811,2812,2813,2786,2814,2815,2816,
2817,2791,2792,2793,2794,2795,2796,2797,2798,2799,2800,2801,2802,2803,2804,2805,
2806,2807,2808,2809,2810,2811,2812,2813,2786,2814,2815,2816,2817,2811,2812,2813,
2786,2785,2787,2695,2684,2685,2686,2811,2812,2813,2695,2696,2818,2818,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2819,2820,2820,2821,2822,2823,2824,2825,2826,2826,2827,2828,2829,2830,2831,2832,
2832,2833,2834,2834,2835,2835,2836,2837,2837,2838,2839,2839,2840,2840,2841,2842,
2842,2843,2843,2844,2845,2846,2847,2847,2848,2849,2850,2851,2852,2852,2853,2854,
2855,2856,2857,2858,2858,2859,2859,2860,2860,2861,2862,2863,2864,2865,2866,2867,
0,0,2868,2869,2870,2871,2872,2873,2873,2874,2875,2876,2877,2877,2878,2879,
2880,2881,2882,2883,2884,2885,2886,2887,2888,2889,2890,2891,2892,2893,2894,2895,
2896,2897,2898,2899,2853,2855,2900,2901,2902,2903,2904,2905,2904,2902,2906,2907,
2908,2909,2910,2905,2846,2836,2911,2912,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2913,2914,2915,2916,2917,2918,2919,2920,2921,2922,2923,2924,2925,0,0,0,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
2926,2927,2,2928,259,2929,2930,2931,2932,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2933,2934,2935,2935,928,929,2936,2937,2938,2939,2940,2941,2942,2943,979,
980,2944,2945,2946,2947,0,0,2948,2949,913,913,913,913,2935,2935,2935,
2926,2927,2,2,259,2928,2930,2929,2933,928,929,2936,2937,2938,2939,2950,
2951,2952,925,2953,2954,2955,927,2,2956,2957,2958,2959,2,2,2,2,
2960,2961,2962,0,2963,2,2964,2965,2966,2967,2968,2969,2970,2971,2972,2973,
2974,2975,2975,2976,2976,2977,2977,2978,2978,2979,2979,2979,2979,2980,2980,2981,
2981,2981,2981,2982,2982,2983,2983,2983,2983,2984,2984,2984,2984,2985,2985,2985,
2985,2986,2986,2986,2986,2987,2987,2987,2987,2988,2988,2989,2989,2990,2990,2991,
2991,2992,2992,2992,2992,2993,2993,2993,2993,2994,2994,2994,2994,2995,2995,2995,
2995,2996,2996,2996,2996,2997,2997,2997,2997,2998,2998,2998,2998,2999,2999,2999,
2999,3000,3000,3000,3000,3001,3001,3001,3001,3002,3002,3002,3002,3003,3003,3003,
3003,3004,3004,3004,3004,3005,3005,3005,3005,3006,3006,3006,3006,3007,3007,2647,
2647,3008,3008,3008,3008,3009,3009,3010,3010,3011,3011,3012,3012,2,2,1,
2,2929,3013,2950,2957,2958,2951,3014,928,929,2952,925,2926,2953,1372,3015,
918,37,32,33,919,920,921,922,923,924,2928,259,2954,927,2955,2930,
2959,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,
18,19,20,21,22,23,24,25,26,27,28,2948,2956,2949,3016,2935,
898,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,
18,19,20,21,22,23,24,25,26,27,28,2936,3017,2937,3018,3019,
3020,1372,2944,2945,2927,3021,1695,3022,3023,3024,3025,3026,3027,3028,3029,3030,
3031,1649,1650,1651,1652,1653,1654,1655,1656,1657,1658,1659,1660,1661,1662,1663,
1664,1665,1666,1667,1668,1669,1670,1671,1672,1673,1674,1675,1676,1677,1678,1679,
1680,1681,1682,1683,1684,1685,1686,1687,1688,1689,1690,1691,1692,3032,3033,3034,
1,1380,1381,1382,1383,1384,1385,1386,1387,1388,1389,1390,1391,1392,1393,1394,
1395,1396,1397,1398,1399,1400,1401,1402,1403,1404,1405,1406,1407,1408,1409,2,
2,2,1410,1411,1412,1413,1414,1415,2,2,1416,1417,1418,1419,1420,1421,
2,2,1422,1423,1424,1425,1426,1427,2,2,1428,1429,1430,2,2,2,
3035,3036,3037,31,3038,3039,3040,2,3041,3042,3043,3044,3045,3046,3047,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,0,0,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,2,2,2,2,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
3048,3049,3050,3051,3052,3053,3054,3055,3056,3057,3058,3059,3060,3061,3062,3063,
3064,3065,3066,3067,3068,3069,3070,3071,3072,3073,3074,3075,3076,3077,3078,3079,
3080,3081,3082,3083,3084,3085,3086,3087,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
3088,3089,3090,3091,3092,3093,3094,3095,3096,3097,3098,3099,3100,3101,3102,3103,
3104,3105,3106,3107,3108,3109,3110,3111,3112,3113,3114,3115,3116,3117,3118,3119,
3120,3121,3122,3123,2,2,2,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,0,
3124,3125,3126,3127,3128,3129,3130,3131,3132,3133,3134,2,3135,3136,3137,3138,
3139,3140,3141,3142,3143,3144,3145,3146,3147,3148,3149,2,3150,3151,3152,3153,
3154,3155,3156,2,3157,3158,2,0,0,0,0,0,0,0,0,0,
0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,0,0,0,0,0,0,0,2,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,3159,3160,47,3161,135,2,3162,3163,3164,3165,140,141,3166,3167,3168,
3169,2056,3170,147,3171,90,3172,3173,3174,3175,3176,2040,3177,3178,3179,3180,
3181,3182,64,3183,3184,19,3185,3186,1094,3187,158,3188,3189,3190,3191,162,
3192,2,3193,3194,3195,3196,3197,3198,3199,3200,3201,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,2,2,0,2,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,0,0,2,2,2,0,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
2,2,2,2,2,2,2,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,0,0,2,2,2,2,2,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,0,0,2,2,2,2,2,0,0,0,0,
0,0,0,0,2,0,0,0,2,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,0,0,0,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,2,2,2,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,2,2,2,2,2,2,0,0,0,0,2,2,2,
2,2,2,2,2,2,2,2,2,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
3202,3203,3204,3205,3206,3207,3208,3209,3210,3211,3212,3213,3214,3215,3216,3217,
3218,3219,3220,3221,3222,3223,3224,3225,3226,3227,3228,3229,3230,3231,3232,3233,
3234,3235,3236,3237,3238,3239,3240,3241,3242,3243,3244,3245,3246,3247,3248,3249,
3250,3251,3252,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,2,2,2,2,2,2,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
3253,3254,3255,3256,3257,3258,3259,3260,3261,3262,3263,3264,3265,3266,3267,3268,
3269,3270,3271,3272,3273,3274,2,2,2,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,0,0,0,2,2,
0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
2,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,
0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,2,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,2,0,2,0,0,0,0,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,2,0,0,0,0,0,0,0,0,2,2,0,
0,2,2,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,
0,2,0,0,2,0,0,0,0,0,2,0,0,0,0,0,
0,0,0,0,0,2,2,0,0,2,2,0,0,0,2,2,
0,2,2,2,2,2,2,0,2,2,2,2,2,0,0,0,
0,0,0,0,2,2,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,0,2,2,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,0,
0,2,0,2,2,0,2,0,0,0,0,2,0,0,0,0,
0,0,0,0,0,0,2,0,0,2,2,2,2,2,2,2,
2,0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,0,
0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
3275,3276,3277,3278,3279,3280,3281,3282,3283,3284,3285,3286,3287,3288,3289,3290,
3291,3292,3293,3294,3295,3296,3297,3298,3299,3300,3301,3302,3303,3304,3305,3306,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,0,
0,0,0,0,0,0,0,2,2,0,2,2,0,0,0,0,
0,0,0,0,2,0,0,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,0,0,2,2,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,2,2,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,0,0,0,0,0,0,
0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,2,0,0,2,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,0,2,0,0,2,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,2,0,0,2,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,2,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,0,0,0,0,0,
0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
3307,3308,3309,3310,3311,3312,3313,3314,3315,3316,3317,3318,3319,3320,3321,3322,
3323,3324,3325,3326,3327,3328,3329,3330,3331,3332,3333,3334,3335,3336,3337,3338,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
3339,3340,3341,3342,3343,3344,3345,3346,3347,3348,3349,3350,3351,3352,3353,3354,
3355,3356,3357,3358,3359,3360,3361,3362,3363,2,2,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,2,0,0,0,0,0,0,0,2,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,0,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,2,2,0,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,0,0,0,0,
1,1,1,1,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,3,4,5,6,7,8,9,10,11,12,
13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,
918,37,32,33,919,920,921,922,923,924,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,3364,3365,
3366,3367,3368,3369,3370,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,1,1,1,1,1,1,1,1,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,3371,3372,3373,3374,3375,
3376,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,
19,20,21,22,23,24,25,26,27,28,3,4,5,6,7,8,
9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,
25,26,27,28,3,4,5,6,7,8,9,10,11,12,13,14,
15,16,17,18,19,20,21,22,23,24,25,26,27,28,3,4,
5,6,7,8,9,2,11,12,13,14,15,16,17,18,19,20,
21,22,23,24,25,26,27,28,3,4,5,6,7,8,9,10,
11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,
27,28,3,4,5,6,7,8,9,10,11,12,13,14,15,16,
17,18,19,20,21,22,23,24,25,26,27,28,3,2,5,6,
2,2,9,2,2,12,13,2,2,16,17,18,19,2,21,22,
23,24,25,26,27,28,3,4,5,6,2,8,2,10,11,12,
13,14,15,16,2,18,19,20,21,22,23,24,25,26,27,28,
3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,
19,20,21,22,23,24,25,26,27,28,3,4,5,6,7,8,
9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,
25,26,27,28,3,4,2,6,7,8,9,2,2,12,13,14,
15,16,17,18,19,2,21,22,23,24,25,26,27,2,3,4,
5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,
21,22,23,24,25,26,27,28,3,4,2,6,7,8,9,2,
11,12,13,14,15,2,17,2,2,2,21,22,23,24,25,26,
27,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,
17,18,19,20,21,22,23,24,25,26,27,28,3,4,5,6,
7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,
23,24,25,26,27,28,3,4,5,6,7,8,9,10,11,12,
13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,
3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,
19,20,21,22,23,24,25,26,27,28,3,4,5,6,7,8,
9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,
25,26,27,28,3,4,5,6,7,8,9,10,11,12,13,14,
15,16,17,18,19,20,21,22,23,24,25,26,27,28,3,4,
5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,
21,22,23,24,25,26,27,28,3,4,5,6,7,8,9,10,
11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,
27,28,3,4,5,6,7,8,9,10,11,12,13,14,15,16,
17,18,19,20,21,22,23,24,25,26,27,28,3,4,5,6,
7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,
23,24,25,26,27,28,3,4,5,6,7,8,9,10,11,12,
13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,
3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,
19,20,21,22,23,24,25,26,27,28,3,4,5,6,7,8,
9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,
25,26,27,28,3377,3378,2,2,270,271,272,273,274,275,276,277,
253,278,279,35,280,281,282,283,284,277,285,286,287,288,289,290,
291,3379,270,271,272,273,274,275,276,277,253,278,279,35,280,281,
282,283,284,285,285,286,287,288,289,290,291,3380,274,277,278,288,
284,283,270,271,272,273,274,275,276,277,253,278,279,35,280,281,
282,283,284,277,285,286,287,288,289,290,291,3379,270,271,272,273,
274,275,276,277,253,278,279,35,280,281,282,283,284,285,285,286,
287,288,289,290,291,3380,274,277,278,288,284,283,270,271,272,273,
274,275,276,277,253,278,279,35,280,281,282,283,284,277,285,286,
287,288,289,290,291,3379,270,271,272,273,274,275,276,277,253,278,
279,35,280,281,282,283,284,285,285,286,287,288,289,290,291,3380,
274,277,278,288,284,283,270,271,272,273,274,275,276,277,253,278,
279,35,280,281,282,283,284,277,285,286,287,288,289,290,291,3379,
270,271,272,273,274,275,276,277,253,278,279,35,280,281,282,283,
284,285,285,286,287,288,289,290,291,3380,274,277,278,288,284,283,
270,271,272,273,274,275,276,277,253,278,279,35,280,281,282,283,
284,277,285,286,287,288,289,290,291,3379,270,271,272,273,274,275,
276,277,253,278,279,35,280,281,282,283,284,285,285,286,287,288,
289,290,291,3380,274,277,278,288,284,283,297,297,2,2,918,37,
32,33,919,920,921,922,923,924,918,37,32,33,919,920,921,922,
923,924,918,37,32,33,919,920,921,922,923,924,918,37,32,33,
919,920,921,922,923,924,918,37,32,33,919,920,921,922,923,924,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,0,0,0,0,0,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
2,2,2,2,2,0,0,0,0,0,0,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,0,0,0,0,0,
0,0,2,0,0,2,0,0,0,0,0,2,2,2,2,2,
328,329,330,331,332,333,334,335,336,338,339,340,342,343,344,345,
346,347,348,349,350,351,352,355,357,358,1971,416,318,320,424,395,
404,328,329,330,331,332,333,334,335,336,338,339,342,343,345,347,
348,349,350,351,352,354,355,380,318,317,327,393,1952,396,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,2,0,0,0,0,2,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,2,2,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
3381,3382,3383,3384,3385,3386,3387,3388,3389,3390,3391,3392,3393,3394,3395,3396,
3397,3398,3399,3400,3401,3402,3403,3404,3405,3406,3407,3408,3409,3410,3411,3412,
3413,3414,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2980,2981,2985,2988,2,3007,2991,2986,2996,3008,3002,3003,3004,3005,2992,2998,
3000,2994,3001,2990,2993,2983,2984,2987,2989,2995,2997,2999,3415,2632,3416,3417,
2,2981,2985,2,3006,2,2,2986,2,3008,3002,3003,3004,3005,2992,2998,
3000,2994,3001,2,2993,2983,2984,2987,2,2995,2,2999,2,2,2,2,
2,2,2985,2,2,2,2,2986,2,3008,2,3003,2,3005,2992,2998,
2,2994,3001,2,2993,2,2,2987,2,2995,2,2999,2,2632,2,3417,
2,2981,2985,2,3006,2,2,2986,2996,3008,3002,2,3004,3005,2992,2998,
3000,2994,3001,2,2993,2983,2984,2987,2,2995,2997,2999,3415,2,3416,2,
2980,2981,2985,2988,3006,3007,2991,2986,2996,3008,2,3003,3004,3005,2992,2998,
3000,2994,3001,2990,2993,2983,2984,2987,2989,2995,2997,2999,2,2,2,2,
2,2981,2985,2988,2,3007,2991,2986,2996,3008,2,3003,3004,3005,2992,2998,
3000,2994,3001,2990,2993,2983,2984,2987,2989,2995,2997,2999,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
2,3418,3419,3420,3421,3422,3423,3424,3425,3426,3427,0,0,0,0,0,
1012,1013,1014,1015,1016,1017,1018,1019,1020,1021,1022,1023,1024,1025,1026,1027,
1028,1029,1030,1031,1032,1033,1034,1035,1036,1037,3428,5,20,1890,3429,0,
3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,
19,20,21,22,23,24,25,26,27,28,3430,1879,3431,3432,3433,3434,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,3435,3436,3437,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
3438,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
3439,3440,1659,2,2,2,2,2,2,2,2,2,2,2,2,2,
1221,3441,3442,3443,1164,3444,3445,1481,3446,3447,3448,2328,3449,3450,3451,3452,
3453,3454,1257,3455,3456,3457,3458,3459,3460,1158,1473,3461,1608,1476,1609,3462,
1313,3463,3464,3465,3466,3467,1591,1231,3468,3469,3470,3471,2,2,2,2,
3472,3473,3474,3475,3476,3477,3478,3479,3480,2,2,2,2,2,2,2,
3481,3482,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,2,2,2,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,
0,0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,2,0,2,2,2,2,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,0,
0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
918,37,32,33,919,920,921,922,923,924,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
3483,3484,3485,3486,3487,2421,3488,3489,3490,3491,2422,3492,3493,3494,2423,3495,
3496,3497,3498,3499,3500,3451,3501,3502,3503,3504,3505,2478,3506,1174,3507,3508,
3509,3510,3469,3511,3512,2483,2424,2425,2484,3513,3514,2242,3515,2426,3516,3517,
3518,3519,3519,3519,3520,3521,3522,3523,3524,3525,3526,3527,3528,3529,3530,3531,
3532,3533,3534,3535,3536,3537,3537,2486,3538,3539,3540,3541,2428,3542,3543,3544,
2388,3545,3546,3547,3548,3549,3550,3551,3552,3553,3554,3555,3556,3444,3557,3558,
3559,3560,3561,3562,3563,3564,3565,3566,3567,3568,3569,3569,3570,3571,3572,2238,
3573,3574,3575,3576,3577,1200,3578,3579,1202,3580,3581,3582,3583,3584,3585,3586,
3587,3588,3589,3590,3591,3592,3593,3594,3595,3596,3597,3598,3599,3600,2186,3601,
1212,3602,3602,3603,3604,3604,3605,3606,3607,3608,3609,3610,3611,3612,3613,3614,
3615,3616,3617,2433,3618,3619,3620,3621,2498,3621,3622,2435,3623,3624,3625,3626,
2436,2159,3627,3628,3629,3630,3631,3632,3633,3634,3635,3636,3637,3638,3639,3640,
3641,3642,3643,3644,3645,3646,3647,3648,2437,3649,3650,3651,3652,3653,3654,2439,
3655,3656,3657,3658,3659,3660,3661,3662,2187,2506,3663,3664,3665,3666,3667,3668,
3669,3670,2440,3671,3672,3673,3674,2548,3675,3676,3677,3678,3679,3680,3681,3682,
3683,3684,3685,3686,3687,2255,3688,3689,3690,3691,3692,3693,3694,3695,3696,3697,
3698,2441,2338,3699,3700,3701,3702,3703,3704,3705,3706,2509,3707,3708,3709,3710,
3711,3712,3713,3714,2510,3715,3716,3717,3718,3719,3720,3721,3722,3723,3724,3725,
3726,2512,3727,3728,3729,3730,3731,3732,3733,3734,3735,3736,3737,3737,3738,3739,
2514,3740,3741,3742,3743,3744,3745,3746,2241,3747,3748,3749,3750,3751,3752,3753,
2520,3754,3755,3756,3757,3758,3759,3759,2521,2550,3760,3761,3762,3763,3764,2204,
2523,3765,3766,2451,3767,3768,2408,3769,3770,2454,3771,3772,3773,3774,3774,3775,
3776,3777,3778,3779,3780,3781,3782,3783,3784,3785,3786,3787,3788,3789,3790,3791,
3792,3793,3794,3795,3796,3797,3798,3799,3800,3801,2460,3802,3803,3804,3805,3806,
3807,3808,3809,3810,3811,3812,3813,3814,3815,3816,3817,3603,3818,3819,3820,3821,
3822,3823,3824,3825,3826,3827,3828,3829,2258,3830,3831,3832,3833,3834,3835,2463,
3836,3837,3838,3839,3840,3841,3842,3843,3844,3845,3846,3847,3848,3849,3850,3851,
3852,3853,3854,3855,2199,3856,3857,3858,3859,3860,3861,2530,3862,3863,3864,3865,
3866,3867,3868,3869,1302,3870,3871,3872,3873,3874,3875,3876,3877,3878,3879,3880,
2535,2536,1309,3881,3882,3883,3884,3885,3886,3887,3888,3889,3890,3891,3892,2537,
3893,3894,3895,3896,3897,3898,3899,3900,3901,3902,3903,3904,3905,3906,3907,3908,
3909,3910,3911,3912,3913,3914,3915,3916,3917,3918,3919,3920,3921,3922,2543,2543,
3923,3924,3925,3926,3927,3928,3929,3930,3931,3932,2544,3933,3934,3935,3936,3937,
3938,3939,3940,3941,3942,1357,3943,1361,3944,3945,3946,3947,1366,3948,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
};
static const unsigned short spec_dec_1[8704] = {
0,1,2,3,4,0,5,6,7,8,0,0,9,10,0,0,
0,0,11,12,13,0,14,15,16,17,18,19,0,0,20,21,
22,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,23,0,0,0,0,0,24,25,26,27,
28,0,29,30,31,32,33,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,34,0,0,0,0,0,0,0,0,0,0,
35,36,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,37,38,39,40,41,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,42,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,43,44,0,0,0,45,46,0,47,0,48,0,0,0,0,
0,0,49,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,50,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,51,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,52,53,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
54,55,56,57,58,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
};
static const unsigned short spec_dec_2[7552] = {
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
1,2,3,4,5,6,0,7,8,9,10,11,12,13,14,15,
0,16,17,18,19,20,21,0,0,22,23,24,25,26,0,0,
27,28,29,30,31,32,0,33,34,35,36,37,38,39,40,41,
0,42,43,44,45,46,47,0,0,48,49,50,51,52,0,53,
54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,
0,0,70,71,72,73,74,75,76,77,78,79,80,81,82,83,
84,85,86,87,88,89,0,0,90,91,92,93,94,95,96,97,
98,0,0,0,99,100,101,102,0,103,104,105,106,107,108,0,
0,0,0,109,110,111,112,113,114,0,0,0,115,116,117,118,
119,120,0,0,121,122,123,124,125,126,127,128,129,130,131,132,
133,134,135,136,137,138,0,0,139,140,141,142,143,144,145,146,
147,148,149,150,151,152,153,154,155,156,157,158,159,160,161,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
162,163,0,0,0,0,0,0,0,0,0,0,0,0,0,164,
165,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,166,167,168,
169,170,171,172,173,174,175,176,177,178,179,180,181,0,182,183,
184,185,186,187,0,0,188,189,190,191,192,193,194,195,196,197,
198,0,0,0,199,200,0,0,201,202,203,204,205,206,207,208,
209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,
225,226,227,228,229,230,231,232,233,234,235,236,0,0,237,238,
0,0,0,0,0,0,239,240,241,242,243,244,245,246,247,248,
249,250,251,252,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
253,254,0,255,256,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,257,0,0,0,0,0,0,0,0,0,258,0,
0,0,0,0,0,259,260,261,262,263,264,0,265,0,266,267,
268,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,269,270,271,272,273,274,
275,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,276,277,278,279,280,0,
0,0,0,281,282,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
283,284,0,285,0,0,0,286,0,0,0,0,287,288,289,0,
0,0,0,0,0,0,0,0,0,290,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,291,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
292,293,0,294,0,0,0,295,0,0,0,0,296,297,298,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,299,300,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,301,302,0,0,0,0,0,0,0,0,0,0,0,0,0,
303,304,305,306,0,0,307,308,0,0,309,310,311,312,313,314,
0,0,315,316,317,318,319,320,0,0,321,322,323,324,325,326,
327,328,329,330,331,332,0,0,333,334,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,335,336,337,338,339,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
340,0,341,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,342,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,343,0,0,0,0,0,0,
0,344,0,0,345,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,346,347,348,349,350,351,352,353,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,354,355,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,356,357,0,358,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,359,0,0,360,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,361,362,363,0,0,364,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,365,0,0,366,367,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,368,369,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,370,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,371,372,373,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,374,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
375,0,0,0,0,0,0,376,377,0,378,379,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,380,381,382,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,383,0,384,385,386,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,387,0,0,0,0,0,0,0,0,0,388,0,0,
0,0,389,0,0,0,0,390,0,0,0,0,391,0,0,0,
0,0,0,0,0,0,0,0,0,392,0,0,0,0,0,0,
0,0,0,393,0,394,395,0,396,0,0,0,0,0,0,0,
0,397,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,398,0,0,0,0,0,0,0,0,0,399,0,0,
0,0,400,0,0,0,0,401,0,0,0,0,402,0,0,0,
0,0,0,0,0,0,0,0,0,403,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,404,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,405,0,406,0,407,0,408,0,409,0,
0,0,410,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,411,0,412,0,0,
413,414,0,415,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
416,417,418,419,420,421,422,423,424,425,426,427,428,429,430,431,
432,433,434,435,436,437,438,439,440,441,442,443,444,445,446,447,
448,449,450,451,452,453,454,455,456,457,458,459,460,461,462,463,
464,465,466,467,468,469,470,471,472,473,474,475,476,477,478,479,
480,481,482,483,484,485,486,487,488,489,490,491,492,493,494,495,
496,497,498,499,500,501,502,503,504,505,506,507,508,509,510,511,
512,513,514,515,516,517,518,519,520,521,522,523,524,525,526,527,
528,529,530,531,532,533,534,535,536,537,538,539,540,541,542,543,
544,545,546,547,548,549,550,551,552,553,554,555,556,557,558,559,
560,561,562,563,564,565,566,567,568,569,0,570,0,0,0,0,
571,572,573,574,575,576,577,578,579,580,581,582,583,584,585,586,
587,588,589,590,591,592,593,594,595,596,597,598,599,600,601,602,
603,604,605,606,607,608,609,610,611,612,613,614,615,616,617,618,
619,620,621,622,623,624,625,626,627,628,629,630,631,632,633,634,
635,636,637,638,639,640,641,642,643,644,645,646,647,648,649,650,
651,652,653,654,655,656,657,658,659,660,0,0,0,0,0,0,
661,662,663,664,665,666,667,668,669,670,671,672,673,674,675,676,
677,678,679,680,681,682,0,0,683,684,685,686,687,688,0,0,
689,690,691,692,693,694,695,696,697,698,699,700,701,702,703,704,
705,706,707,708,709,710,711,712,713,714,715,716,717,718,719,720,
721,722,723,724,725,726,0,0,727,728,729,730,731,732,0,0,
733,734,735,736,737,738,739,740,0,741,0,742,0,743,0,744,
745,746,747,748,749,750,751,752,753,754,755,756,757,758,759,760,
761,271,762,272,763,273,764,274,765,278,766,279,767,280,0,0,
768,769,770,771,772,773,774,775,776,777,778,779,780,781,782,783,
784,785,786,787,788,789,790,791,792,793,794,795,796,797,798,799,
800,801,802,803,804,805,806,807,808,809,810,811,812,813,814,815,
816,817,818,819,820,0,821,822,823,824,825,260,826,0,827,0,
0,828,829,830,831,0,832,833,834,262,835,263,836,837,838,839,
840,841,842,268,0,0,843,844,845,846,847,264,0,848,849,850,
851,852,853,275,854,855,856,857,858,859,860,266,861,862,259,863,
0,0,864,865,866,0,867,868,869,265,870,267,871,872,0,0,
873,874,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,875,0,0,0,876,6,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,877,878,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,879,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,880,881,882,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,883,0,0,0,0,884,0,0,885,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,886,0,887,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,888,0,0,889,0,0,890,0,891,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
892,0,893,0,0,0,0,0,0,0,0,0,0,894,895,896,
897,898,0,0,899,900,0,0,901,902,0,0,0,0,0,0,
903,904,0,0,905,906,0,0,907,908,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,909,910,911,912,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
913,914,915,916,0,0,0,0,0,0,917,918,919,920,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,921,922,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,923,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,924,0,925,0,
926,0,927,0,928,0,929,0,930,0,931,0,932,0,933,0,
934,0,935,0,0,936,0,937,0,938,0,0,0,0,0,0,
939,940,0,941,942,0,943,944,0,945,946,0,947,948,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,949,0,0,0,0,0,0,0,0,0,950,0,
0,0,0,0,0,0,0,0,0,0,0,0,951,0,952,0,
953,0,954,0,955,0,956,0,957,0,958,0,959,0,960,0,
961,0,962,0,0,963,0,964,0,965,0,0,0,0,0,0,
966,967,0,968,969,0,970,971,0,972,973,0,974,975,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,976,0,0,977,978,979,980,0,0,0,981,0,
982,983,984,985,986,987,988,989,989,990,991,992,993,994,995,996,
997,998,999,1000,1001,1002,1003,1004,1005,1006,1007,1008,1009,1010,1011,1012,
1013,1014,1015,1016,1017,1018,1019,1020,1021,1022,1023,1024,1025,1026,1027,1028,
1029,1030,1031,1032,1033,1034,1035,1036,1037,1038,1039,1040,1041,1042,1043,1044,
1045,1046,1047,1048,1049,1050,1051,1052,1053,1054,1055,1056,1057,1058,1059,1060,
1061,1062,1063,1064,1065,1066,1067,1068,1069,1070,1071,1072,1001,1073,1074,1075,
1076,1077,1078,1079,1080,1081,1082,1083,1084,1085,1086,1087,1088,1089,1090,1091,
1092,1093,1094,1095,1096,1097,1098,1099,1100,1101,1102,1103,1104,1105,1106,1107,
1108,1109,1110,1111,1112,1113,1114,1115,1116,1117,1118,1119,1120,1121,1122,1123,
1124,1125,1126,1127,1128,1129,1130,1131,1132,1133,1134,1135,1136,1137,1138,1139,
1140,1091,1141,1142,1143,1144,1145,1146,1147,1148,1075,1149,1150,1151,1152,1153,
1154,1155,1156,1157,1158,1159,1160,1161,1162,1163,1164,1165,1166,1167,1168,1001,
1169,1170,1171,1172,1173,1174,1175,1176,1177,1178,1179,1180,1181,1182,1183,1184,
1185,1186,1187,1188,1189,1190,1191,1192,1193,1194,1195,1077,1196,1197,1198,1199,
1200,1201,1202,1203,1204,1205,1206,1207,1208,1209,1210,1211,1212,1213,1214,1215,
1216,1217,1218,1219,1220,1221,1222,1223,1224,1225,1226,1227,1228,1229,1230,1231,
1232,1233,1234,1235,1236,1237,1238,1239,1240,1241,1242,1243,1244,1245,0,0,
1246,0,1247,0,0,1248,1249,1250,1251,1252,1253,1254,1255,1256,1257,0,
1258,0,1259,0,0,1260,1261,0,0,0,1262,1263,1264,1265,1266,1267,
1268,1269,1270,1271,1272,1273,1274,1275,1276,1277,1278,1279,1280,1281,1282,1283,
1284,1285,1286,1287,1288,1289,1290,1291,1292,1293,1294,1295,1296,1297,1298,1299,
1300,1301,1302,1303,1304,1305,1306,1130,1307,1308,1309,1310,1311,1312,1312,1313,
1314,1315,1316,1317,1318,1319,1320,1260,1321,1322,1323,1324,1325,1326,0,0,
1327,1328,1329,1330,1331,1332,1333,1334,1274,1335,1336,1337,1246,1338,1339,1340,
1341,1342,1343,1344,1345,1346,1347,1348,1349,1283,1350,1284,1351,1352,1353,1354,
1355,1247,1022,1356,1357,1358,1092,1179,1359,1360,1291,1361,1292,1362,1363,1364,
1249,1365,1366,1367,1368,1369,1250,1370,1371,1372,1373,1374,1375,1306,1376,1377,
1130,1378,1310,1379,1380,1381,1382,1383,1315,1384,1259,1385,1316,1073,1386,1317,
1387,1319,1388,1389,1390,1391,1392,1321,1255,1393,1322,1394,1323,1395,989,1396,
1397,1398,1399,1400,1401,1402,1403,1404,1405,1406,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,1407,0,1408,
0,0,0,0,0,0,0,0,0,0,1409,1410,1411,1412,1413,1414,
1415,1416,1417,1418,1419,1420,1421,0,1422,1423,1424,1425,1426,0,1427,0,
1428,1429,0,1430,1431,0,1432,1433,1434,1435,1436,1437,1438,1439,1440,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,1441,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,1442,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,1443,0,1444,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,1445,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,1446,1447,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,1448,1449,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,1450,0,1451,0,0,0,0,0,0,0,0,1452,0,
0,1453,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,1454,0,1455,1456,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,1457,1458,0,1459,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,1460,1461,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,1462,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,1463,1464,1465,1466,1467,1468,1469,1470,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,1471,1472,1473,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,1474,1475,
1476,1477,1478,1479,1480,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,1481,1482,1483,1484,1485,
1486,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
1487,1488,1489,1490,1491,1268,1492,1493,1494,1495,1269,1496,1497,1498,1270,1499,
1500,1501,1502,1503,1504,1505,1506,1507,1508,1509,1510,1328,1511,1512,1513,1514,
1515,1516,1517,1518,1519,1333,1271,1272,1334,1520,1521,1079,1522,1273,1523,1524,
1525,1526,1526,1526,1527,1528,1529,1530,1531,1532,1533,1534,1535,1536,1537,1538,
1539,1540,1541,1542,1543,1544,1544,1336,1545,1546,1547,1548,1275,1549,1550,1551,
1232,1552,1553,1554,1555,1556,1557,1558,1559,1560,1561,1562,1563,1564,1565,1566,
1567,1568,1569,1570,1571,1572,1573,1574,1575,1576,1577,1577,1578,1579,1580,1075,
1581,1582,1583,1584,1585,1586,1587,1588,1280,1589,1590,1591,1592,1593,1594,1595,
1596,1597,1598,1599,1600,1601,1602,1603,1604,1605,1606,1607,1608,1609,1021,1610,
1611,1612,1612,1613,1614,1614,1615,1616,1617,1618,1619,1620,1621,1622,1623,1624,
1625,1626,1627,1281,1628,1629,1630,1631,1348,1631,1632,1283,1633,1634,1635,1636,
1284,994,1637,1638,1639,1640,1641,1642,1643,1644,1645,1646,1647,1648,1649,1650,
1651,1652,1653,1654,1655,1656,1657,1658,1285,1659,1660,1661,1662,1663,1664,1287,
1665,1666,1667,1668,1669,1670,1671,1672,1022,1356,1673,1674,1675,1676,1677,1678,
1679,1680,1288,1681,1682,1683,1684,1399,1685,1686,1687,1688,1689,1690,1691,1692,
1693,1694,1695,1696,1697,1092,1698,1699,1700,1701,1702,1703,1704,1705,1706,1707,
1708,1289,1179,1709,1710,1711,1712,1713,1714,1715,1716,1360,1717,1718,1719,1720,
1721,1722,1723,1724,1361,1725,1726,1727,1728,1729,1730,1731,1732,1733,1734,1735,
1736,1363,1737,1738,1739,1740,1741,1742,1743,1744,1745,1746,1747,1747,1748,1749,
1365,1750,1751,1752,1753,1754,1755,1756,1078,1757,1758,1759,1760,1761,1762,1763,
1371,1764,1765,1766,1767,1768,1769,1769,1372,1401,1770,1771,1772,1773,1774,1040,
1374,1775,1776,1300,1777,1778,1254,1779,1780,1304,1781,1782,1783,1784,1784,1785,
1786,1787,1788,1789,1790,1791,1792,1793,1794,1795,1796,1797,1798,1799,1800,1801,
1802,1803,1804,1805,1806,1807,1808,1809,1810,1811,1310,1812,1813,1814,1815,1816,
1817,1818,1819,1820,1821,1822,1823,1824,1825,1826,1827,1613,1828,1829,1830,1831,
1832,1833,1834,1835,1836,1837,1838,1839,1096,1840,1841,1842,1843,1844,1845,1313,
1846,1847,1848,1849,1850,1851,1852,1853,1854,1855,1856,1857,1858,1859,1860,1861,
1862,1863,1864,1865,1035,1866,1867,1868,1869,1870,1871,1381,1872,1873,1874,1875,
1876,1877,1878,1879,1880,1881,1882,1883,1884,1885,1886,1887,1888,1889,1890,1891,
1386,1387,1892,1893,1894,1895,1896,1897,1898,1899,1900,1901,1902,1903,1904,1388,
1905,1906,1907,1908,1909,1910,1911,1912,1913,1914,1915,1916,1917,1918,1919,1920,
1921,1922,1923,1924,1925,1926,1927,1928,1929,1930,1931,1932,1933,1934,1394,1394,
1935,1936,1937,1938,1939,1940,1941,1942,1943,1944,1395,1945,1946,1947,1948,1949,
1950,1951,1952,1953,1954,1955,1956,1957,1958,1959,1960,1961,1962,1963,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
};
static const unsigned short spec_fst_1[8704] = {
0,1,2,3,4,5,6,7,8,9,6,6,10,11,6,6,
6,6,12,13,6,6,14,15,16,17,18,19,6,6,6,6,
20,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,21,6,6,6,6,6,22,23,24,25,
6,6,6,26,27,28,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
29,30,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,31,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,32,33,6,6,6,34,35,6,36,6,37,6,6,6,6,
6,6,38,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,39,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,40,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
};
static const unsigned short spec_fst_2[5248] = {
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,1,2,3,0,
0,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,
19,0,20,21,22,23,24,25,26,27,28,0,0,0,0,0,
0,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,
44,0,45,46,47,48,49,50,51,52,53,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,54,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,55,0,56,57,58,59,0,0,60,0,0,0,0,61,
0,0,0,0,62,63,64,0,65,0,0,0,66,0,0,0,
0,0,67,0,68,69,70,71,0,0,72,0,0,0,0,73,
0,0,0,0,74,75,76,0,77,0,0,0,78,0,0,0,
0,0,79,80,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,81,82,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,83,84,0,0,
0,0,0,0,0,0,0,0,0,0,85,86,0,0,0,0,
87,88,0,0,0,0,0,0,89,90,91,92,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,93,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
94,95,0,0,0,0,0,0,0,0,0,0,0,0,0,96,
97,0,0,0,0,0,0,98,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,99,100,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,101,102,103,104,0,0,0,0,105,106,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,107,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,108,0,0,0,109,0,110,0,111,0,0,0,0,0,112,
0,113,0,0,0,114,0,0,0,115,0,0,116,0,117,0,
0,118,0,0,0,119,0,120,0,121,0,0,0,0,0,122,
0,123,0,0,0,124,0,0,0,125,126,127,0,0,128,0,
0,0,129,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,130,0,0,0,0,0,0,0,0,0,
131,0,0,132,0,133,134,135,136,0,137,0,0,0,138,0,
0,0,0,139,0,0,0,140,0,0,0,141,0,142,0,0,
143,0,0,144,0,145,146,147,148,0,149,0,0,0,150,0,
0,0,0,151,0,0,0,152,0,0,0,153,0,154,0,0,
0,0,0,0,0,0,155,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,156,157,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,158,159,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,160,161,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,162,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,163,0,164,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,165,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,166,0,0,167,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,168,0,0,0,0,0,0,0,
169,0,0,170,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,171,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,172,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,173,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,174,175,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,176,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,177,
0,0,0,0,0,0,178,0,0,0,179,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,180,181,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,182,0,0,183,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,184,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,185,0,186,0,187,0,188,0,189,0,0,
0,190,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,191,0,192,0,193,194,
0,0,195,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,196,197,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,198,199,0,0,0,0,
0,0,200,201,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
202,203,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,204,205,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,206,207,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,
224,225,0,0,0,0,0,0,226,227,0,0,0,0,0,0,
228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,
244,245,0,0,0,0,0,0,246,247,0,0,0,0,0,0,
248,249,0,0,0,0,0,0,250,251,0,0,0,0,0,0,
252,253,0,0,0,0,0,0,0,254,0,0,0,0,0,0,
255,256,257,258,259,260,261,262,263,264,265,266,267,268,269,270,
271,0,0,0,272,0,0,0,0,0,0,0,273,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,274,0,0,0,0,0,0,0,0,275,
0,0,0,0,0,0,276,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,277,0,0,0,0,0,0,0,278,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
279,0,280,0,281,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
282,0,283,0,284,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,285,0,0,0,0,286,0,0,287,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,288,0,289,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,290,0,0,0,
0,0,0,291,0,292,0,0,293,0,0,0,0,294,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,295,0,0,296,297,0,0,0,0,0,0,0,0,0,0,
0,0,298,299,0,0,300,301,0,0,302,303,304,305,0,0,
0,0,306,307,0,0,308,309,0,0,0,0,0,0,0,0,
0,310,311,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,312,0,0,0,0,0,313,314,0,315,0,0,0,0,
0,0,316,317,318,319,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,320,0,0,0,0,321,0,322,0,323,
0,324,0,325,0,326,0,327,0,328,0,329,0,330,0,331,
0,332,0,0,333,0,334,0,335,0,0,0,0,0,0,336,
0,0,337,0,0,338,0,0,339,0,0,340,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,341,0,0,
0,0,0,0,0,0,342,0,0,0,0,343,0,344,0,345,
0,346,0,347,0,348,0,349,0,350,0,351,0,352,0,353,
0,354,0,0,355,0,356,0,357,0,0,0,0,0,0,358,
0,0,359,0,0,360,0,0,361,0,0,362,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,363,
364,365,366,0,0,0,0,0,0,0,0,0,0,367,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,368,0,0,0,0,0,0,0,369,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,370,0,371,0,0,0,0,
0,0,0,0,0,372,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,373,374,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,375,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,376,0,377,0,0,0,0,0,0,378,0,0,0,0,
379,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,380,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,381,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,382,383,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,384,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,385,0,
0,386,387,0,0,0,0,0,0,388,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,389,0,0,0,390,0,391,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
};
static const unsigned short spec_snd_1[8704] = {
0,0,0,0,0,0,1,0,0,0,0,0,2,0,0,0,
0,0,3,4,0,0,5,6,7,8,9,10,0,0,0,0,
11,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,12,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,13,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,14,15,0,0,0,16,17,0,18,0,19,0,0,0,0,
0,0,20,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,21,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,22,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
};
static const unsigned char spec_snd_2[2944] = {
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
1,2,3,4,5,0,6,7,8,9,10,11,12,0,0,13,
0,14,0,15,16,0,0,0,0,0,0,17,0,0,0,0,
0,0,0,18,19,20,21,22,23,0,0,0,0,24,25,0,
26,27,0,0,0,0,0,0,28,0,0,0,0,0,0,0,
0,0,29,0,0,30,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,31,32,33,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,34,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,35,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,36,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,37,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,38,39,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,40,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,41,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,42,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,43,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,44,45,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,46,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,47,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,48,0,0,0,0,49,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,50,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,51,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,52,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,53,54,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,55,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,56,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,57,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,58,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,59,0,0,60,0,0,0,0,
0,0,61,0,0,0,0,0,0,62,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
63,0,0,0,0,0,0,0,0,0,64,0,0,65,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,66,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
67,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,68,69,
70,0,0,0,0,0,0,0,0,71,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,72,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
};
static const unsigned spec_mapping_data[5492] = {
97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,
113,114,115,116,117,118,119,120,121,122,32,32,776,32,772,50,
51,32,769,956,32,807,49,49,8260,52,49,8260,50,51,8260,52,
224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,
240,241,242,243,244,245,246,248,249,250,251,252,253,254,257,259,
261,263,265,267,269,271,273,275,277,279,281,283,285,287,289,291,
293,295,297,299,301,303,105,775,105,106,309,311,314,316,318,108,
183,322,324,326,328,700,110,331,333,335,337,339,341,343,345,347,
349,351,353,355,357,359,361,363,365,367,369,371,373,375,255,378,
380,382,595,387,389,596,392,598,599,396,477,601,603,402,608,611,
617,616,409,623,626,629,417,419,421,640,424,643,429,648,432,650,
651,436,438,658,441,445,100,382,108,106,110,106,462,464,466,468,
470,472,474,476,479,481,483,485,487,489,491,493,495,100,122,501,
405,447,505,507,509,511,513,515,517,519,521,523,525,527,529,531,
533,535,537,539,541,543,414,547,549,551,553,555,557,559,561,563,
11365,572,410,11366,578,384,649,652,583,585,587,589,591,614,633,635,
641,32,774,32,775,32,778,32,808,32,771,32,779,661,768,769,
787,776,769,953,881,883,697,887,32,953,59,1011,32,776,769,940,
183,941,942,943,972,973,974,945,946,947,948,949,950,951,952,954,
955,957,958,959,960,961,963,964,965,966,967,968,969,970,971,983,
985,987,989,991,993,995,997,999,1001,1003,1005,1007,1016,1019,891,892,
893,1104,1105,1106,1107,1108,1109,1110,1111,1112,1113,1114,1115,1116,1117,1118,
1119,1072,1073,1074,1075,1076,1077,1078,1079,1080,1081,1082,1083,1084,1085,1086,
1087,1088,1089,1090,1091,1092,1093,1094,1095,1096,1097,1098,1099,1100,1101,1102,
1103,1121,1123,1125,1127,1129,1131,1133,1135,1137,1139,1141,1143,1145,1147,1149,
1151,1153,1163,1165,1167,1169,1171,1173,1175,1177,1179,1181,1183,1185,1187,1189,
1191,1193,1195,1197,1199,1201,1203,1205,1207,1209,1211,1213,1215,1231,1218,1220,
1222,1224,1226,1228,1230,1233,1235,1237,1239,1241,1243,1245,1247,1249,1251,1253,
1255,1257,1259,1261,1263,1265,1267,1269,1271,1273,1275,1277,1279,1281,1283,1285,
1287,1289,1291,1293,1295,1297,1299,1301,1303,1305,1307,1309,1311,1313,1315,1317,
1319,1321,1323,1325,1327,1377,1378,1379,1380,1381,1382,1383,1384,1385,1386,1387,
1388,1389,1390,1391,1392,1393,1394,1395,1396,1397,1398,1399,1400,1401,1402,1403,
1404,1405,1406,1407,1408,1409,1410,1411,1412,1413,1414,1381,1410,1575,1652,1608,
1652,1735,1652,1610,1652,2325,2364,2326,2364,2327,2364,2332,2364,2337,2364,2338,
2364,2347,2364,2351,2364,2465,2492,2466,2492,2479,2492,2610,2620,2616,2620,2582,
2620,2583,2620,2588,2620,2603,2620,2849,2876,2850,2876,3661,3634,3789,3762,3755,
3737,3755,3745,3851,3906,4023,3916,4023,3921,4023,3926,4023,3931,4023,3904,4021,
3953,3954,3953,3956,4018,3968,4018,3953,3968,4019,3968,4019,3953,3968,3953,3968,
3986,4023,3996,4023,4001,4023,4006,4023,4011,4023,3984,4021,11520,11521,11522,11523,
11524,11525,11526,11527,11528,11529,11530,11531,11532,11533,11534,11535,11536,11537,11538,11539,
11540,11541,11542,11543,11544,11545,11546,11547,11548,11549,11550,11551,11552,11553,11554,11555,
11556,11557,11559,11565,4316,5104,5105,5106,5107,5108,5109,42571,7306,4304,4305,4306,
4307,4308,4309,4310,4311,4312,4313,4314,4315,4317,4318,4319,4320,4321,4322,4323,
4324,4325,4326,4327,4328,4329,4330,4331,4332,4333,4334,4335,4336,4337,4338,4339,
4340,4341,4342,4343,4344,4345,4346,4349,4350,4351,592,593,7426,604,7446,7447,
7453,7461,594,597,607,609,613,618,7547,669,621,7557,671,625,624,627,
628,632,642,427,7452,656,657,7681,7683,7685,7687,7689,7691,7693,7695,7697,
7699,7701,7703,7705,7707,7709,7711,7713,7715,7717,7719,7721,7723,7725,7727,7729,
7731,7733,7735,7737,7739,7741,7743,7745,7747,7749,7751,7753,7755,7757,7759,7761,
7763,7765,7767,7769,7771,7773,7775,7777,7779,7781,7783,7785,7787,7789,7791,7793,
7795,7797,7799,7801,7803,7805,7807,7809,7811,7813,7815,7817,7819,7821,7823,7825,
7827,7829,97,702,223,7841,7843,7845,7847,7849,7851,7853,7855,7857,7859,7861,
7863,7865,7867,7869,7871,7873,7875,7877,7879,7881,7883,7885,7887,7889,7891,7893,
7895,7897,7899,7901,7903,7905,7907,7909,7911,7913,7915,7917,7919,7921,7923,7925,
7927,7929,7931,7933,7935,7936,7937,7938,7939,7940,7941,7942,7943,7952,7953,7954,
7955,7956,7957,7968,7969,7970,7971,7972,7973,7974,7975,7984,7985,7986,7987,7988,
7989,7990,7991,8000,8001,8002,8003,8004,8005,8017,8019,8021,8023,8032,8033,8034,
8035,8036,8037,8038,8039,7936,953,7937,953,7938,953,7939,953,7940,953,7941,
953,7942,953,7943,953,7968,953,7969,953,7970,953,7971,953,7972,953,7973,
953,7974,953,7975,953,8032,953,8033,953,8034,953,8035,953,8036,953,8037,
953,8038,953,8039,953,8048,953,945,953,940,953,8118,953,8112,8113,8048,
32,787,32,834,32,776,834,8052,953,951,953,942,953,8134,953,8050,
8052,32,787,768,32,787,769,32,787,834,912,8144,8145,8054,32,788,
768,32,788,769,32,788,834,944,8160,8161,8058,8165,32,776,768,96,
8060,953,969,953,974,953,8182,953,8056,8060,32,788,8208,32,819,8242,
8242,8242,8242,8242,8245,8245,8245,8245,8245,33,33,32,773,63,63,63,
33,33,63,8242,8242,8242,8242,48,52,53,54,55,56,57,43,8722,
61,40,41,114,115,97,47,99,97,47,115,176,99,99,47,111,
99,47,117,176,102,110,111,115,109,116,101,108,116,109,8526,1488,
1489,1490,1491,102,97,120,8721,49,8260,55,49,8260,57,49,8260,49,
48,49,8260,51,50,8260,51,49,8260,53,50,8260,53,51,8260,53,
52,8260,53,49,8260,54,53,8260,54,49,8260,56,51,8260,56,53,
8260,56,55,8260,56,49,8260,105,105,105,105,105,105,118,118,105,
118,105,105,118,105,105,105,105,120,120,105,120,105,105,8580,48,
8260,51,8747,8747,8747,8747,8747,8750,8750,8750,8750,8750,12296,12297,49,48,
49,49,49,50,49,51,49,52,49,53,49,54,49,55,49,56,
49,57,50,48,40,49,41,40,50,41,40,51,41,40,52,41,
40,53,41,40,54,41,40,55,41,40,56,41,40,57,41,40,
49,48,41,40,49,49,41,40,49,50,41,40,49,51,41,40,
49,52,41,40,49,53,41,40,49,54,41,40,49,55,41,40,
49,56,41,40,49,57,41,40,50,48,41,40,97,41,40,98,
41,40,99,41,40,100,41,40,101,41,40,102,41,40,103,41,
40,104,41,40,105,41,40,106,41,40,107,41,40,108,41,40,
109,41,40,110,41,40,111,41,40,112,41,40,113,41,40,114,
41,40,115,41,40,116,41,40,117,41,40,118,41,40,119,41,
40,120,41,40,121,41,40,122,41,8747,8747,8747,8747,58,58,61,
61,61,61,61,61,10973,824,11312,11313,11314,11315,11316,11317,11318,11319,11320,
11321,11322,11323,11324,11325,11326,11327,11328,11329,11330,11331,11332,11333,11334,11335,11336,
11337,11338,11339,11340,11341,11342,11343,11344,11345,11346,11347,11348,11349,11350,11351,11352,
11353,11354,11355,11356,11357,11358,11359,11361,619,7549,637,11368,11370,11372,11379,11382,
575,576,11393,11395,11397,11399,11401,11403,11405,11407,11409,11411,11413,11415,11417,11419,
11421,11423,11425,11427,11429,11431,11433,11435,11437,11439,11441,11443,11445,11447,11449,11451,
11453,11455,11457,11459,11461,11463,11465,11467,11469,11471,11473,11475,11477,11479,11481,11483,
11485,11487,11489,11491,11500,11502,11507,11617,27597,40863,19968,20008,20022,20031,20057,20101,
20108,20128,20154,20799,20837,20843,20866,20886,20907,20960,20981,20992,21147,21241,21269,21274,
21304,21313,21340,21353,21378,21430,21448,21475,22231,22303,22763,22786,22794,22805,22823,22899,
23376,23424,23544,23567,23586,23608,23662,23665,24027,24037,24049,24062,24178,24186,24191,24308,
24318,24331,24339,24400,24417,24435,24515,25096,25142,25163,25903,25908,25991,26007,26020,26041,
26080,26085,26352,26376,26408,27424,27490,27513,27571,27595,27604,27611,27663,27668,27700,28779,
29226,29238,29243,29247,29255,29273,29275,29356,29572,29577,29916,29926,29976,29983,29992,30000,
30091,30098,30326,30333,30382,30399,30446,30683,30690,30707,31034,31160,31166,31348,31435,31481,
31859,31992,32566,32593,32650,32701,32769,32780,32786,32819,32895,32905,33251,33258,33267,33276,
33292,33307,33311,33390,33394,33400,34381,34411,34880,34892,34915,35198,35211,35282,35328,35895,
35910,35925,35960,35997,36196,36208,36275,36523,36554,36763,36784,36789,37009,37193,37318,37324,
37329,38263,38272,38428,38582,38585,38632,38737,38750,38754,38761,38859,38893,38899,38913,39080,
39131,39135,39318,39321,39340,39592,39640,39647,39717,39727,39730,39740,39770,40165,40565,40575,
40613,40635,40643,40653,40657,40697,40701,40718,40723,40736,40763,40778,40786,40845,40860,40864,
46,12306,21316,21317,32,12441,32,12442,12424,12426,12467,12488,4352,4353,4522,4354,
4524,4525,4355,4356,4357,4528,4529,4530,4531,4532,4533,4378,4358,4359,4360,4385,
4361,4362,4363,4364,4365,4366,4367,4368,4369,4370,4449,4450,4451,4452,4453,4454,
4455,4456,4457,4458,4459,4460,4461,4462,4463,4464,4465,4466,4467,4468,4469,4372,
4373,4551,4552,4556,4558,4563,4567,4569,4380,4573,4575,4381,4382,4384,4386,4387,
4391,4393,4395,4396,4397,4398,4399,4402,4406,4416,4423,4428,4593,4594,4439,4440,
4441,4484,4485,4488,4497,4498,4500,4510,4513,19977,22235,19978,20013,19979,30002,19993,
19969,22825,22320,40,4352,41,40,4354,41,40,4355,41,40,4357,41,40,
4358,41,40,4359,41,40,4361,41,40,4363,41,40,4364,41,40,4366,
41,40,4367,41,40,4368,41,40,4369,41,40,4370,41,40,44032,41,
40,45208,41,40,45796,41,40,46972,41,40,47560,41,40,48148,41,40,
49324,41,40,50500,41,40,51088,41,40,52264,41,40,52852,41,40,53440,
41,40,54028,41,40,54616,41,40,51452,41,40,50724,51204,41,40,50724,
54980,41,40,19968,41,40,20108,41,40,19977,41,40,22235,41,40,20116,
41,40,20845,41,40,19971,41,40,20843,41,40,20061,41,40,21313,41,
40,26376,41,40,28779,41,40,27700,41,40,26408,41,40,37329,41,40,
22303,41,40,26085,41,40,26666,41,40,26377,41,40,31038,41,40,21517,
41,40,29305,41,40,36001,41,40,31069,41,40,21172,41,40,20195,41,
40,21628,41,40,23398,41,40,30435,41,40,20225,41,40,36039,41,40,
21332,41,40,31085,41,40,20241,41,40,33258,41,40,33267,41,21839,24188,
31631,112,116,101,50,49,50,50,50,51,50,52,50,53,50,54,
50,55,50,56,50,57,51,48,51,49,51,50,51,51,51,52,
51,53,44032,45208,45796,46972,47560,48148,49324,50500,51088,52264,52852,53440,54028,54616,
52280,44256,51452,51032,50864,20116,20845,19971,20061,26666,26377,31038,21517,29305,36001,31069,
21172,31192,30007,36969,20778,21360,27880,38917,20241,20889,27491,24038,21491,21307,23447,23398,
30435,20225,36039,21332,22812,51,54,51,55,51,56,51,57,52,48,52,
49,52,50,52,51,52,52,52,53,52,54,52,55,52,56,52,
57,53,48,49,26376,50,26376,51,26376,52,26376,53,26376,54,26376,55,
26376,56,26376,57,26376,49,48,26376,49,49,26376,49,50,26376,104,103,
101,114,103,101,118,108,116,100,12450,12452,12454,12456,12458,12459,12461,12463,
12465,12467,12469,12471,12473,12475,12477,12479,12481,12484,12486,12488,12490,12491,12492,12493,
12494,12495,12498,12501,12504,12507,12510,12511,12512,12513,12514,12516,12518,12520,12521,12522,
12523,12524,12525,12527,12528,12529,12530,20196,21644,12450,12497,12540,12488,12450,12523,12501,
12449,12450,12531,12506,12450,12450,12540,12523,12452,12491,12531,12464,12452,12531,12481,12454,
12457,12531,12456,12473,12463,12540,12489,12456,12540,12459,12540,12458,12531,12473,12458,12540,
12512,12459,12452,12522,12459,12521,12483,12488,12459,12525,12522,12540,12460,12525,12531,12460,
12531,12510,12462,12460,12462,12491,12540,12461,12517,12522,12540,12462,12523,12480,12540,12461,
12525,12461,12525,12464,12521,12512,12461,12525,12513,12540,12488,12523,12461,12525,12527,12483,
12488,12464,12521,12512,12464,12521,12512,12488,12531,12463,12523,12476,12452,12525,12463,12525,
12540,12493,12465,12540,12473,12467,12523,12490,12467,12540,12509,12469,12452,12463,12523,12469,
12531,12481,12540,12512,12471,12522,12531,12464,12475,12531,12481,12475,12531,12488,12480,12540,
12473,12487,12471,12489,12523,12488,12531,12490,12494,12494,12483,12488,12495,12452,12484,12497,
12540,12475,12531,12488,12497,12540,12484,12496,12540,12524,12523,12500,12450,12473,12488,12523,
12500,12463,12523,12500,12467,12499,12523,12501,12449,12521,12483,12489,12501,12451,12540,12488,
12502,12483,12471,12455,12523,12501,12521,12531,12504,12463,12479,12540,12523,12506,12477,12506,
12491,12498,12504,12523,12484,12506,12531,12473,12506,12540,12472,12505,12540,12479,12509,12452,
12531,12488,12508,12523,12488,12507,12531,12509,12531,12489,12507,12540,12523,12507,12540,12531,
12510,12452,12463,12525,12510,12452,12523,12510,12483,12495,12510,12523,12463,12510,12531,12471,
12519,12531,12511,12463,12525,12531,12511,12522,12511,12522,12496,12540,12523,12513,12460,12513,
12460,12488,12531,12513,12540,12488,12523,12516,12540,12489,12516,12540,12523,12518,12450,12531,
12522,12483,12488,12523,12522,12521,12523,12500,12540,12523,12540,12502,12523,12524,12512,12524,
12531,12488,12466,12531,12527,12483,12488,48,28857,49,28857,50,28857,51,28857,52,
28857,53,28857,54,28857,55,28857,56,28857,57,28857,49,48,28857,49,49,
28857,49,50,28857,49,51,28857,49,52,28857,49,53,28857,49,54,28857,
49,55,28857,49,56,28857,49,57,28857,50,48,28857,50,49,28857,50,
50,28857,50,51,28857,50,52,28857,104,112,97,100,97,97,117,98,
97,114,111,118,112,99,100,109,100,109,50,100,109,51,105,117,
24179,25104,26157,21644,22823,27491,26126,27835,26666,24335,20250,31038,112,97,110,97,
956,97,109,97,107,97,107,98,109,98,103,98,99,97,108,107,
99,97,108,112,102,110,102,956,102,956,103,109,103,107,103,104,
122,107,104,122,109,104,122,103,104,122,116,104,122,956,108,109,
108,100,108,107,108,102,109,110,109,956,109,109,109,99,109,107,
109,109,109,50,99,109,50,109,50,107,109,50,109,109,51,99,
109,51,109,51,107,109,51,109,8725,115,109,8725,115,50,107,112,
97,109,112,97,103,112,97,114,97,100,114,97,100,8725,115,114,
97,100,8725,115,50,112,115,110,115,956,115,109,115,112,118,110,
118,956,118,109,118,107,118,112,119,110,119,956,119,109,119,107,
119,107,969,109,969,98,113,99,99,99,100,99,8725,107,103,100,
98,103,121,104,97,104,112,105,110,107,107,107,116,108,109,108,
110,108,111,103,108,120,109,105,108,109,111,108,112,104,112,112,
109,112,114,115,114,115,118,119,98,118,8725,109,97,8725,109,49,
26085,50,26085,51,26085,52,26085,53,26085,54,26085,55,26085,56,26085,57,
26085,49,48,26085,49,49,26085,49,50,26085,49,51,26085,49,52,26085,
49,53,26085,49,54,26085,49,55,26085,49,56,26085,49,57,26085,50,
48,26085,50,49,26085,50,50,26085,50,51,26085,50,52,26085,50,53,
26085,50,54,26085,50,55,26085,50,56,26085,50,57,26085,51,48,26085,
51,49,26085,103,97,108,42561,42563,42565,42567,42569,42573,42575,42577,42579,42581,
42583,42585,42587,42589,42591,42593,42595,42597,42599,42601,42603,42605,42625,42627,42629,42631,
42633,42635,42637,42639,42641,42643,42645,42647,42649,42651,42787,42789,42791,42793,42795,42797,
42799,42803,42805,42807,42809,42811,42813,42815,42817,42819,42821,42823,42825,42827,42829,42831,
42833,42835,42837,42839,42841,42843,42845,42847,42849,42851,42853,42855,42857,42859,42861,42863,
42874,42876,7545,42879,42881,42883,42885,42887,42892,42897,42899,42903,42905,42907,42909,42911,
42913,42915,42917,42919,42921,620,670,647,43859,42933,42935,42937,42939,42941,42943,42945,
42947,42900,7566,42952,42954,612,42957,42959,42961,42963,42965,42967,42969,42971,411,42998,
43831,43858,653,5024,5025,5026,5027,5028,5029,5030,5031,5032,5033,5034,5035,5036,
5037,5038,5039,5040,5041,5042,5043,5044,5045,5046,5047,5048,5049,5050,5051,5052,
5053,5054,5055,5056,5057,5058,5059,5060,5061,5062,5063,5064,5065,5066,5067,5068,
5069,5070,5071,5072,5073,5074,5075,5076,5077,5078,5079,5080,5081,5082,5083,5084,
5085,5086,5087,5088,5089,5090,5091,5092,5093,5094,5095,5096,5097,5098,5099,5100,
5101,5102,5103,35912,26356,36040,28369,20018,21477,22865,21895,22856,25078,30313,32645,34367,
34746,35064,37007,27138,27931,28889,29662,33853,37226,39409,20098,21365,27396,29211,34349,40478,
23888,28651,34253,35172,25289,33240,34847,24266,26391,28010,29436,37070,20358,20919,21214,25796,
27347,29200,30439,34310,34396,36335,38706,39791,40442,30860,31103,32160,33737,37636,35542,22751,
24324,31840,32894,29282,30922,36034,38647,22744,23650,27155,28122,28431,32047,32311,38475,21202,
32907,20956,20940,31260,32190,33777,38517,35712,25295,35582,20025,23527,24594,29575,30064,21271,
30971,20415,24489,19981,27852,25976,32034,21443,22622,30465,33865,35498,27578,27784,25342,33509,
25504,30053,20142,20841,20937,26753,31975,33391,35538,37327,21237,21570,24300,26053,28670,31018,
38317,39530,40599,40654,26310,27511,36706,24180,24976,25088,25754,28451,29001,29833,31178,32244,
32879,36646,34030,36899,37706,21015,21155,21693,28872,35010,24265,24565,25467,27566,31806,29557,
20196,22265,23994,24604,29618,29801,32666,32838,37428,38646,38728,38936,20363,31150,37300,38584,
24801,20102,20698,23534,23615,26009,29134,30274,34044,36988,26248,38446,21129,26491,26611,27969,
28316,29705,30041,30827,32016,39006,25134,38520,20523,23833,28138,36650,24459,24900,26647,38534,
21033,21519,23653,26131,26446,26792,27877,29702,30178,32633,35023,35041,38626,21311,28346,21533,
29136,29848,34298,38563,40023,40607,26519,28107,33256,31520,31890,29376,28825,35672,20160,33590,
21050,20999,24230,25299,31958,23429,27934,26292,36667,38477,24275,20800,21952,22618,26228,20958,
29482,30410,31036,31070,31077,31119,38742,31934,34322,35576,36920,37117,39151,39164,39208,40372,
37086,38583,20398,20711,20813,21193,21220,21329,21917,22022,22120,22592,22696,23652,24724,24936,
24974,25074,25935,26082,26257,26757,28023,28186,28450,29038,29227,29730,30865,31049,31048,31056,
31062,31117,31118,31296,31361,31680,32265,32321,32626,32773,33261,33401,33879,35088,35222,35585,
35641,36051,36104,36790,38627,38911,38971,24693,148206,33304,20006,20917,20840,20352,20805,20864,
21191,21242,21845,21913,21986,22707,22852,22868,23138,23336,24274,24281,24425,24493,24792,24910,
24840,24928,25140,25540,25628,25682,25942,26395,26454,28379,28363,28702,30631,29237,29359,29809,
29958,30011,30237,30239,30427,30452,30538,30528,30924,31409,31867,32091,32574,33618,33775,34681,
35137,35206,35519,35531,35565,35722,36664,36978,37273,37494,38524,38875,38923,39698,141386,141380,
144341,15261,16408,16441,152137,154832,163539,40771,40846,102,102,102,105,102,108,102,
102,105,102,102,108,115,116,1396,1398,1396,1381,1396,1387,1406,1398,1396,
1389,1497,1460,1522,1463,1506,1492,1499,1500,1501,1512,1514,1513,1473,1513,1474,
1513,1468,1473,1513,1468,1474,1488,1463,1488,1464,1488,1468,1489,1468,1490,1468,
1491,1468,1492,1468,1493,1468,1494,1468,1496,1468,1497,1468,1498,1468,1499,1468,
1500,1468,1502,1468,1504,1468,1505,1468,1507,1468,1508,1468,1510,1468,1511,1468,
1512,1468,1513,1468,1514,1468,1493,1465,1489,1471,1499,1471,1508,1471,1488,1500,
1649,1659,1662,1664,1658,1663,1657,1700,1702,1668,1667,1670,1671,1677,1676,1678,
1672,1688,1681,1705,1711,1715,1713,1722,1723,1728,1729,1726,1746,1747,1709,1735,
1734,1736,1739,1733,1737,1744,1609,1574,1575,1574,1749,1574,1608,1574,1735,1574,
1734,1574,1736,1574,1744,1574,1609,1740,1574,1580,1574,1581,1574,1605,1574,1610,
1576,1580,1576,1581,1576,1582,1576,1605,1576,1609,1576,1610,1578,1580,1578,1581,
1578,1582,1578,1605,1578,1609,1578,1610,1579,1580,1579,1605,1579,1609,1579,1610,
1580,1581,1580,1605,1581,1580,1581,1605,1582,1580,1582,1581,1582,1605,1587,1580,
1587,1581,1587,1582,1587,1605,1589,1581,1589,1605,1590,1580,1590,1581,1590,1582,
1590,1605,1591,1581,1591,1605,1592,1605,1593,1580,1593,1605,1594,1580,1594,1605,
1601,1580,1601,1581,1601,1582,1601,1605,1601,1609,1601,1610,1602,1581,1602,1605,
1602,1609,1602,1610,1603,1575,1603,1580,1603,1581,1603,1582,1603,1604,1603,1605,
1603,1609,1603,1610,1604,1580,1604,1581,1604,1582,1604,1605,1604,1609,1604,1610,
1605,1580,1605,1581,1605,1582,1605,1605,1605,1609,1605,1610,1606,1580,1606,1581,
1606,1582,1606,1605,1606,1609,1606,1610,1607,1580,1607,1605,1607,1609,1607,1610,
1610,1580,1610,1581,1610,1582,1610,1605,1610,1609,1610,1610,1584,1648,1585,1648,
1609,1648,32,1612,1617,32,1613,1617,32,1614,1617,32,1615,1617,32,1616,
1617,32,1617,1648,1574,1585,1574,1586,1574,1606,1576,1585,1576,1586,1576,1606,
1578,1585,1578,1586,1578,1606,1579,1585,1579,1586,1579,1606,1605,1575,1606,1585,
1606,1586,1606,1606,1610,1585,1610,1586,1610,1606,1574,1582,1574,1607,1576,1607,
1578,1607,1589,1582,1604,1607,1606,1607,1607,1648,1610,1607,1579,1607,1587,1607,
1588,1605,1588,1607,1600,1614,1617,1600,1615,1617,1600,1616,1617,1591,1609,1591,
1610,1593,1609,1593,1610,1594,1609,1594,1610,1587,1609,1587,1610,1588,1609,1588,
1610,1581,1609,1581,1610,1580,1609,1580,1610,1582,1609,1582,1610,1589,1609,1589,
1610,1590,1609,1590,1610,1588,1580,1588,1581,1588,1582,1588,1585,1587,1585,1589,
1585,1590,1585,1575,1611,1578,1580,1605,1578,1581,1580,1578,1581,1605,1578,1582,
1605,1578,1605,1580,1578,1605,1581,1578,1605,1582,1580,1605,1581,1581,1605,1610,
1581,1605,1609,1587,1581,1580,1587,1580,1581,1587,1580,1609,1587,1605,1581,1587,
1605,1580,1587,1605,1605,1589,1581,1581,1589,1605,1605,1588,1581,1605,1588,1580,
1610,1588,1605,1582,1588,1605,1605,1590,1581,1609,1590,1582,1605,1591,1605,1581,
1591,1605,1605,1591,1605,1610,1593,1580,1605,1593,1605,1605,1593,1605,1609,1594,
1605,1605,1594,1605,1610,1594,1605,1609,1601,1582,1605,1602,1605,1581,1602,1605,
1605,1604,1581,1605,1604,1581,1610,1604,1581,1609,1604,1580,1580,1604,1582,1605,
1604,1605,1581,1605,1581,1580,1605,1581,1605,1605,1581,1610,1605,1580,1581,1605,
1580,1605,1605,1582,1580,1605,1582,1605,1605,1580,1582,1607,1605,1580,1607,1605,
1605,1606,1581,1605,1606,1581,1609,1606,1580,1605,1606,1580,1609,1606,1605,1610,
1606,1605,1609,1610,1605,1605,1576,1582,1610,1578,1580,1610,1578,1580,1609,1578,
1582,1610,1578,1582,1609,1578,1605,1610,1578,1605,1609,1580,1605,1610,1580,1581,
1609,1580,1605,1609,1587,1582,1609,1589,1581,1610,1588,1581,1610,1590,1581,1610,
1604,1580,1610,1604,1605,1610,1610,1581,1610,1610,1580,1610,1610,1605,1610,1605,
1605,1610,1602,1605,1610,1606,1581,1610,1593,1605,1610,1603,1605,1610,1606,1580,
1581,1605,1582,1610,1604,1580,1605,1603,1605,1605,1580,1581,1610,1581,1580,1610,
1605,1580,1610,1601,1605,1610,1576,1581,1610,1587,1582,1610,1606,1580,1610,1589,
1604,1746,1602,1604,1746,1575,1604,1604,1607,1575,1603,1576,1585,1605,1581,1605,
1583,1589,1604,1593,1605,1585,1587,1608,1604,1593,1604,1610,1607,1608,1587,1604,
1605,1589,1604,1609,1589,1604,1609,32,1575,1604,1604,1607,32,1593,1604,1610,
1607,32,1608,1587,1604,1605,1580,1604,32,1580,1604,1575,1604,1607,1585,1740,
1575,1604,44,12289,58,33,63,12310,12311,8212,8211,95,123,125,12308,12309,
12304,12305,12298,12299,12300,12301,12302,12303,91,93,35,38,42,45,60,62,
92,36,37,64,32,1611,1600,1611,32,1612,32,1613,32,1614,1600,1614,
32,1615,1600,1615,32,1616,1600,1616,32,1617,1600,1617,32,1618,1600,1618,
1569,1570,1571,1572,1573,1574,1575,1576,1577,1578,1579,1580,1581,1582,1583,1584,
1585,1586,1587,1588,1589,1590,1591,1592,1593,1594,1601,1602,1603,1604,1605,1606,
1607,1608,1610,1604,1570,1604,1571,1604,1573,1604,1575,34,39,47,94,124,
126,10629,10630,12539,12449,12451,12453,12455,12457,12515,12517,12519,12483,12540,12531,12441,
12442,162,163,172,166,165,8361,9474,8592,8593,8594,8595,9632,9675,66600,66601,
66602,66603,66604,66605,66606,66607,66608,66609,66610,66611,66612,66613,66614,66615,66616,66617,
66618,66619,66620,66621,66622,66623,66624,66625,66626,66627,66628,66629,66630,66631,66632,66633,
66634,66635,66636,66637,66638,66639,66776,66777,66778,66779,66780,66781,66782,66783,66784,66785,
66786,66787,66788,66789,66790,66791,66792,66793,66794,66795,66796,66797,66798,66799,66800,66801,
66802,66803,66804,66805,66806,66807,66808,66809,66810,66811,66967,66968,66969,66970,66971,66972,
66973,66974,66975,66976,66977,66979,66980,66981,66982,66983,66984,66985,66986,66987,66988,66989,
66990,66991,66992,66993,66995,66996,66997,66998,66999,67000,67001,67003,67004,720,721,665,
675,43878,677,676,7569,600,606,681,610,667,668,615,644,682,683,122628,
42894,622,122629,654,122630,630,631,634,122632,638,680,678,43879,679,11377,655,
673,674,664,448,449,450,122634,122654,68800,68801,68802,68803,68804,68805,68806,68807,
68808,68809,68810,68811,68812,68813,68814,68815,68816,68817,68818,68819,68820,68821,68822,68823,
68824,68825,68826,68827,68828,68829,68830,68831,68832,68833,68834,68835,68836,68837,68838,68839,
68840,68841,68842,68843,68844,68845,68846,68847,68848,68849,68850,68976,68977,68978,68979,68980,
68981,68982,68983,68984,68985,68986,68987,68988,68989,68990,68991,68992,68993,68994,68995,68996,
68997,71872,71873,71874,71875,71876,71877,71878,71879,71880,71881,71882,71883,71884,71885,71886,
71887,71888,71889,71890,71891,71892,71893,71894,71895,71896,71897,71898,71899,71900,71901,71902,
71903,93792,93793,93794,93795,93796,93797,93798,93799,93800,93801,93802,93803,93804,93805,93806,
93807,93808,93809,93810,93811,93812,93813,93814,93815,93816,93817,93818,93819,93820,93821,93822,
93823,93883,93884,93885,93886,93887,93888,93889,93890,93891,93892,93893,93894,93895,93896,93897,
93898,93899,93900,93901,93902,93903,93904,93905,93906,93907,119127,119141,119128,119141,119128,119141,
119150,119128,119141,119151,119128,119141,119152,119128,119141,119153,119128,119141,119154,119225,119141,119226,
119141,119225,119141,119150,119226,119141,119150,119225,119141,119151,119226,119141,119151,305,567,8711,
8706,125218,125219,125220,125221,125222,125223,125224,125225,125226,125227,125228,125229,125230,125231,125232,
125233,125234,125235,125236,125237,125238,125239,125240,125241,125242,125243,125244,125245,125246,125247,125248,
125249,125250,125251,1646,1697,1647,48,44,49,44,50,44,51,44,52,44,
53,44,54,44,55,44,56,44,57,44,12308,115,12309,119,122,104,
118,115,100,115,115,112,112,118,119,99,109,99,109,100,109,114,
100,106,12411,12363,12467,12467,23383,21452,12487,22810,35299,20132,26144,28961,21069,24460,
20877,26032,21021,32066,36009,22768,21561,28436,25237,25429,36938,25351,25171,31105,31354,21512,
28288,30003,21106,21942,37197,12308,26412,12309,12308,19977,12309,12308,20108,12309,12308,23433,
12309,12308,28857,12309,12308,25171,12309,12308,30423,12309,12308,21213,12309,12308,25943,12309,
24471,21487,20029,20024,20033,131362,20320,20411,20482,20602,20633,20687,13470,132666,20820,20836,
20855,132380,13497,20839,132427,20887,20900,20172,20908,168415,20995,13535,21051,21062,21111,13589,
21253,21254,21321,21338,21363,21373,21375,133676,28784,21450,21471,133987,21483,21489,21510,21662,
21560,21576,21608,21666,21750,21776,21843,21859,21892,21931,21939,21954,22294,22295,22097,22132,
22766,22478,22516,22541,22411,22578,22577,22700,136420,22770,22775,22790,22818,22882,136872,136938,
23020,23067,23079,23000,23142,14062,14076,23304,23358,137672,23491,23512,23539,138008,23551,23558,
24403,14209,23648,23744,23693,138724,23875,138726,23918,23915,23932,24033,24034,14383,24061,24104,
24125,24169,14434,139651,14460,24240,24243,24246,172946,140081,33281,24354,14535,144056,156122,24418,
24427,14563,24474,24525,24535,24569,24705,14650,14620,141012,24775,24904,24908,24954,25010,24996,
25007,25054,25104,25115,25181,25265,25300,25424,142092,25405,25340,25448,25475,25572,142321,25634,
25541,25513,14894,25705,25726,25757,25719,14956,25964,143370,26083,26360,26185,15129,15112,15076,
20882,20885,26368,26268,32941,17369,26401,26462,26451,144323,15177,26618,26501,26706,144493,26766,
26655,26900,26946,27043,27114,27304,145059,27355,15384,27425,145575,27476,15438,27506,27551,27579,
146061,138507,146170,27726,146620,27839,27853,27751,27926,27966,28009,28024,28037,146718,27956,28207,
28270,15667,28359,147153,28153,28526,147294,147342,28614,28729,28699,15766,28746,28797,28791,28845,
132389,28997,148067,29084,148395,29224,29264,149000,29312,29333,149301,149524,29562,29579,16044,29605,
16056,29767,29788,29829,29898,16155,29988,150582,30014,150674,139679,30224,151457,151480,151620,16380,
16392,151795,151794,151833,151859,30494,30495,30603,16454,16534,152605,30798,16611,153126,153242,153285,
31211,16687,31306,31311,153980,154279,31470,16898,154539,31686,31689,16935,154752,31954,17056,31976,
31971,32000,155526,32099,17153,32199,32258,32325,17204,156200,156231,17241,156377,32634,156478,32661,
32762,156890,156963,32864,157096,32880,144223,17365,32946,33027,17419,33086,23221,157607,157621,144275,
144284,33284,36766,17515,33425,33419,33437,21171,33457,33459,33469,33510,158524,33565,33635,33709,
33571,33725,33767,33619,33738,33740,33756,158774,159083,158933,17707,34033,34035,34070,160714,34148,
159532,17757,17761,159665,159954,17771,34384,34407,34409,34473,34440,34574,34530,34600,34667,34694,
17879,34785,34817,17913,34912,161383,35031,35038,17973,35066,13499,161966,162150,18110,18119,35488,
162984,36011,36033,36123,36215,163631,133124,36299,36284,36336,133342,36564,165330,165357,37012,37105,
37137,165678,37147,37432,37591,37592,37500,37881,37909,166906,38283,18837,38327,167287,18918,38595,
23986,38691,168261,168474,19054,19062,38880,168970,19122,169110,38953,169398,39138,19251,39209,39335,
39362,39422,19406,170800,40000,40189,19662,19693,40295,172238,19704,172293,172558,172689,19798,40702,
40709,40719,40726,173568,
};
static const unsigned short spec_mapping_off[3947] = {
0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,
16,17,18,19,20,21,22,23,24,25,26,27,29,31,32,33,
35,36,38,39,42,45,48,49,50,51,52,53,54,55,56,57,
58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,73,
74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,
90,91,92,93,94,95,96,97,98,99,100,101,102,104,106,107,
108,109,110,111,113,114,115,116,117,119,120,121,122,123,124,125,
126,127,128,129,130,131,132,133,134,135,136,137,138,139,140,141,
142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,
158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,173,
174,175,176,177,178,179,180,181,182,184,186,188,189,190,191,192,
193,194,195,196,197,198,199,200,201,202,203,204,205,207,208,209,
210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,
226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,
242,243,244,245,246,247,248,249,250,251,252,253,254,255,256,257,
259,261,263,265,267,269,270,271,272,273,275,276,277,278,279,280,
282,283,284,287,288,289,290,291,292,293,294,295,296,297,298,299,
300,301,302,303,304,305,306,307,308,309,310,311,312,313,314,315,
316,317,318,319,320,321,322,323,324,325,326,327,328,329,330,331,
332,333,334,335,336,337,338,339,340,341,342,343,344,345,346,347,
348,349,350,351,352,353,354,355,356,357,358,359,360,361,362,363,
364,365,366,367,368,369,370,371,372,373,374,375,376,377,378,379,
380,381,382,383,384,385,386,387,388,389,390,391,392,393,394,395,
396,397,398,399,400,401,402,403,404,405,406,407,408,409,410,411,
412,413,414,415,416,417,418,419,420,421,422,423,424,425,426,427,
428,429,430,431,432,433,434,435,436,437,438,439,440,441,442,443,
444,445,446,447,448,449,450,451,452,453,454,455,456,457,458,459,
460,461,462,463,464,465,466,467,468,469,470,471,472,473,474,475,
476,477,478,479,480,481,482,483,484,485,486,487,488,489,490,491,
492,493,494,495,496,497,498,499,500,501,502,503,504,505,506,507,
508,509,510,511,512,513,514,515,516,517,518,519,520,521,522,523,
525,527,529,531,533,535,537,539,541,543,545,547,549,551,553,555,
557,559,561,563,565,567,569,571,573,575,577,579,580,582,584,586,
588,590,592,594,596,598,601,603,606,608,610,612,614,616,618,620,
621,622,623,624,625,626,627,628,629,630,631,632,633,634,635,636,
637,638,639,640,641,642,643,644,645,646,647,648,649,650,651,652,
653,654,655,656,657,658,659,660,661,662,663,664,665,666,667,668,
669,670,671,672,673,674,675,676,677,678,679,680,681,682,683,684,
685,686,687,688,689,690,691,692,693,694,695,696,697,698,699,700,
701,702,703,704,705,706,707,708,709,710,711,712,713,714,715,716,
717,718,719,720,721,722,723,724,725,726,727,728,729,730,731,732,
733,734,735,736,737,738,739,740,741,742,743,744,745,746,747,748,
749,750,751,752,753,754,755,756,757,758,759,760,761,762,763,764,
765,766,767,768,769,770,771,772,773,774,775,776,777,778,779,780,
781,782,783,784,785,786,787,788,789,790,791,792,793,794,795,796,
797,798,799,800,801,802,803,804,805,806,807,808,809,810,811,812,
813,814,815,816,817,818,820,821,822,823,824,825,826,827,828,829,
830,831,832,833,834,835,836,837,838,839,840,841,842,843,844,845,
846,847,848,849,850,851,852,853,854,855,856,857,858,859,860,861,
862,863,864,865,866,867,868,869,870,871,872,873,874,875,876,877,
878,879,880,881,882,883,884,885,886,887,888,889,890,891,892,893,
894,895,896,897,898,899,900,901,902,903,904,905,906,907,908,909,
910,911,912,913,914,915,916,917,919,921,923,925,927,929,931,933,
935,937,939,941,943,945,947,949,951,953,955,957,959,961,963,965,
967,969,971,973,974,975,976,978,980,983,985,987,989,991,992,993,
996,999,1002,1003,1004,1005,1006,1009,1012,1015,1016,1017,1018,1019,1020,1023,
1024,1026,1028,1030,1032,1033,1034,1036,1037,1039,1041,1044,1046,1049,1051,1053,
1055,1057,1059,1063,1064,1065,1066,1067,1068,1069,1070,1071,1072,1073,1074,1075,
1077,1080,1083,1085,1088,1091,1093,1095,1097,1100,1102,1103,1104,1105,1106,1107,
1110,1111,1114,1117,1121,1124,1127,1130,1133,1136,1139,1142,1145,1148,1151,1154,
1157,1159,1161,1164,1166,1168,1171,1175,1177,1179,1182,1183,1186,1188,1191,1193,
1196,1197,1198,1200,1202,1204,1206,1208,1210,1212,1214,1216,1218,1220,1223,1226,
1229,1232,1235,1238,1241,1244,1247,1251,1255,1259,1263,1267,1271,1275,1279,1283,
1287,1291,1294,1297,1300,1303,1306,1309,1312,1315,1318,1321,1324,1327,1330,1333,
1336,1339,1342,1345,1348,1351,1354,1357,1360,1363,1366,1369,1373,1376,1378,1381,
1383,1384,1385,1386,1387,1388,1389,1390,1391,1392,1393,1394,1395,1396,1397,1398,
1399,1400,1401,1402,1403,1404,1405,1406,1407,1408,1409,1410,1411,1412,1413,1414,
1415,1416,1417,1418,1419,1420,1421,1422,1423,1424,1425,1426,1427,1428,1429,1430,
1431,1432,1433,1434,1435,1436,1437,1438,1439,1440,1441,1442,1443,1444,1445,1446,
1447,1448,1449,1450,1451,1452,1453,1454,1455,1456,1457,1458,1459,1460,1461,1462,
1463,1464,1465,1466,1467,1468,1469,1470,1471,1472,1473,1474,1475,1476,1477,1478,
1479,1480,1481,1482,1483,1484,1485,1486,1487,1488,1489,1490,1491,1492,1493,1494,
1495,1496,1497,1498,1499,1500,1501,1502,1503,1504,1505,1506,1507,1508,1509,1510,
1511,1512,1513,1514,1515,1516,1517,1518,1519,1520,1521,1522,1523,1524,1525,1526,
1527,1528,1529,1530,1531,1532,1533,1534,1535,1536,1537,1538,1539,1540,1541,1542,
1543,1544,1545,1546,1547,1548,1549,1550,1551,1552,1553,1554,1555,1556,1557,1558,
1559,1560,1561,1562,1563,1564,1565,1566,1567,1568,1569,1570,1571,1572,1573,1574,
1575,1576,1577,1578,1579,1580,1581,1582,1583,1584,1585,1586,1587,1588,1589,1590,
1591,1592,1593,1594,1595,1596,1597,1598,1599,1600,1601,1602,1603,1604,1605,1606,
1607,1608,1609,1610,1611,1612,1613,1614,1615,1616,1617,1618,1619,1620,1621,1622,
1623,1624,1625,1626,1627,1628,1629,1630,1631,1632,1633,1634,1635,1636,1637,1638,
1639,1640,1641,1642,1643,1644,1645,1646,1647,1648,1649,1650,1651,1652,1653,1654,
1655,1656,1657,1658,1659,1660,1661,1662,1663,1664,1665,1666,1667,1668,1669,1670,
1671,1672,1673,1674,1675,1676,1677,1678,1679,1680,1681,1682,1683,1684,1685,1686,
1687,1688,1689,1690,1691,1692,1693,1694,1695,1696,1697,1698,1699,1700,1701,1702,
1703,1704,1705,1706,1707,1708,1709,1710,1711,1712,1713,1714,1715,1716,1718,1720,
1722,1724,1725,1726,1727,1728,1729,1730,1731,1732,1733,1734,1735,1736,1737,1738,
1739,1740,1741,1742,1743,1744,1745,1746,1747,1748,1749,1750,1751,1752,1753,1754,
1755,1756,1757,1758,1759,1760,1761,1762,1763,1764,1765,1766,1767,1768,1769,1770,
1771,1772,1773,1774,1775,1776,1777,1778,1779,1780,1781,1782,1783,1784,1785,1786,
1787,1788,1789,1790,1791,1792,1793,1794,1795,1796,1797,1798,1799,1800,1801,1802,
1803,1804,1805,1806,1807,1808,1809,1810,1811,1812,1813,1814,1815,1816,1817,1818,
1819,1820,1821,1822,1823,1824,1825,1826,1827,1830,1833,1836,1839,1842,1845,1848,
1851,1854,1857,1860,1863,1866,1869,1872,1875,1878,1881,1884,1887,1890,1893,1896,
1899,1902,1905,1908,1911,1914,1918,1922,1925,1928,1931,1934,1937,1940,1943,1946,
1949,1952,1955,1958,1961,1964,1967,1970,1973,1976,1979,1982,1985,1988,1991,1994,
1997,2000,2003,2006,2009,2012,2015,2018,2021,2024,2027,2030,2031,2032,2033,2036,
2038,2040,2042,2044,2046,2048,2050,2052,2054,2056,2058,2060,2062,2064,2066,2067,
2068,2069,2070,2071,2072,2073,2074,2075,2076,2077,2078,2079,2080,2082,2084,2085,
2086,2087,2088,2089,2090,2091,2092,2093,2094,2095,2096,2097,2098,2099,2100,2101,
2102,2103,2104,2105,2106,2107,2108,2109,2110,2111,2112,2113,2114,2115,2116,2117,
2119,2121,2123,2125,2127,2129,2131,2133,2135,2137,2139,2141,2143,2145,2147,2149,
2151,2153,2155,2157,2159,2161,2163,2165,2168,2171,2174,2176,2179,2181,2184,2185,
2186,2187,2188,2189,2190,2191,2192,2193,2194,2195,2196,2197,2198,2199,2200,2201,
2202,2203,2204,2205,2206,2207,2208,2209,2210,2211,2212,2213,2214,2215,2216,2217,
2218,2219,2220,2221,2222,2223,2224,2225,2226,2227,2228,2229,2230,2231,2233,2237,
2241,2245,2248,2252,2255,2258,2263,2267,2270,2273,2276,2280,2284,2287,2290,2292,
2295,2299,2303,2305,2310,2316,2321,2324,2329,2334,2338,2341,2344,2347,2351,2356,
2360,2363,2366,2369,2371,2373,2375,2377,2380,2383,2388,2391,2395,2400,2403,2405,
2407,2412,2416,2421,2424,2429,2431,2434,2437,2440,2443,2446,2450,2453,2455,2458,
2461,2464,2468,2471,2474,2477,2482,2486,2488,2493,2495,2499,2503,2506,2509,2512,
2516,2518,2521,2525,2527,2532,2535,2537,2539,2541,2543,2545,2547,2549,2551,2553,
2555,2558,2561,2564,2567,2570,2573,2576,2579,2582,2585,2588,2591,2594,2597,2600,
2603,2605,2607,2610,2612,2614,2616,2619,2622,2624,2626,2628,2630,2632,2636,2638,
2640,2642,2644,2646,2648,2650,2652,2655,2659,2661,2663,2665,2667,2669,2671,2673,
2676,2679,2682,2685,2687,2689,2691,2693,2695,2697,2699,2701,2703,2705,2708,2711,
2713,2716,2719,2722,2724,2727,2730,2734,2737,2740,2743,2746,2751,2757,2759,2761,
2763,2765,2767,2769,2771,2773,2775,2777,2779,2781,2783,2785,2787,2789,2791,2793,
2795,2799,2801,2803,2805,2807,2809,2811,2813,2815,2817,2820,2822,2825,2828,2830,
2833,2835,2837,2839,2841,2844,2847,2849,2851,2853,2855,2857,2859,2861,2863,2865,
2868,2871,2874,2877,2880,2883,2886,2889,2892,2895,2898,2901,2904,2907,2910,2913,
2916,2919,2922,2925,2928,2931,2934,2935,2936,2937,2938,2939,2940,2941,2942,2943,
2944,2945,2946,2947,2948,2949,2950,2951,2952,2953,2954,2955,2956,2957,2958,2959,
2960,2961,2962,2963,2964,2965,2966,2967,2968,2969,2970,2971,2972,2973,2974,2975,
2976,2977,2978,2979,2980,2981,2982,2983,2984,2985,2986,2987,2988,2989,2990,2991,
2992,2993,2994,2995,2996,2997,2998,2999,3000,3001,3002,3003,3004,3005,3006,3007,
3008,3009,3010,3011,3012,3013,3014,3015,3016,3017,3018,3019,3020,3021,3022,3023,
3024,3025,3026,3027,3028,3029,3030,3031,3032,3033,3034,3035,3036,3037,3038,3039,
3040,3041,3042,3043,3044,3045,3046,3047,3048,3049,3050,3051,3052,3053,3054,3055,
3056,3057,3058,3059,3060,3061,3062,3063,3064,3065,3066,3067,3068,3069,3070,3071,
3072,3073,3074,3075,3076,3077,3078,3079,3080,3081,3082,3083,3084,3085,3086,3087,
3088,3089,3090,3091,3092,3093,3094,3095,3096,3097,3098,3099,3100,3101,3102,3103,
3104,3105,3106,3107,3108,3109,3110,3111,3112,3113,3114,3115,3116,3117,3118,3119,
3120,3121,3122,3123,3124,3125,3126,3127,3128,3129,3130,3131,3132,3133,3134,3135,
3136,3137,3138,3139,3140,3141,3142,3143,3144,3145,3146,3147,3148,3149,3150,3151,
3152,3153,3154,3155,3156,3157,3158,3159,3160,3161,3162,3163,3164,3165,3166,3167,
3168,3169,3170,3171,3172,3173,3174,3175,3176,3177,3178,3179,3180,3181,3182,3183,
3184,3185,3186,3187,3188,3189,3190,3191,3192,3193,3194,3195,3196,3197,3198,3199,
3200,3201,3202,3203,3204,3205,3206,3207,3208,3209,3210,3211,3212,3213,3214,3215,
3216,3217,3218,3219,3220,3221,3222,3223,3224,3225,3226,3227,3228,3229,3230,3231,
3232,3233,3234,3235,3236,3237,3238,3239,3240,3241,3242,3243,3244,3245,3246,3247,
3248,3249,3250,3251,3252,3253,3254,3255,3256,3257,3258,3259,3260,3261,3262,3263,
3264,3265,3266,3267,3268,3269,3270,3271,3272,3273,3274,3275,3276,3277,3278,3279,
3280,3281,3282,3283,3284,3285,3286,3287,3288,3289,3290,3291,3292,3293,3294,3295,
3296,3297,3298,3299,3300,3301,3302,3303,3304,3305,3306,3307,3308,3309,3310,3311,
3312,3313,3314,3315,3316,3317,3318,3319,3320,3321,3322,3323,3324,3325,3326,3327,
3328,3329,3330,3331,3332,3333,3334,3335,3336,3337,3338,3339,3340,3341,3342,3343,
3344,3345,3346,3347,3348,3349,3350,3351,3352,3353,3354,3355,3356,3357,3358,3359,
3360,3361,3362,3363,3364,3365,3366,3367,3368,3369,3370,3371,3372,3373,3374,3375,
3376,3377,3378,3379,3380,3381,3382,3383,3384,3385,3386,3387,3388,3389,3390,3391,
3392,3393,3394,3395,3396,3397,3398,3399,3400,3401,3402,3403,3404,3405,3406,3407,
3408,3409,3410,3411,3412,3413,3414,3415,3416,3417,3418,3419,3420,3421,3422,3423,
3424,3425,3426,3427,3428,3429,3430,3431,3432,3433,3434,3435,3436,3437,3438,3439,
3440,3441,3442,3443,3444,3445,3446,3447,3448,3449,3450,3451,3452,3453,3454,3455,
3456,3457,3458,3459,3460,3461,3462,3463,3464,3465,3466,3467,3468,3469,3470,3471,
3472,3473,3474,3475,3476,3477,3478,3479,3480,3481,3482,3483,3484,3485,3486,3487,
3488,3489,3490,3491,3492,3493,3494,3495,3496,3497,3498,3499,3500,3501,3502,3503,
3504,3505,3506,3507,3508,3509,3510,3511,3512,3513,3514,3515,3516,3517,3518,3519,
3520,3521,3522,3523,3524,3525,3526,3527,3528,3529,3530,3531,3532,3533,3534,3535,
3536,3537,3538,3539,3540,3541,3542,3543,3544,3545,3547,3549,3551,3554,3557,3559,
3561,3563,3565,3567,3569,3571,3573,3574,3575,3576,3577,3578,3579,3580,3582,3584,
3587,3590,3592,3594,3596,3598,3600,3602,3604,3606,3608,3610,3612,3614,3616,3618,
3620,3622,3624,3626,3628,3630,3632,3634,3636,3638,3640,3642,3644,3646,3648,3649,
3650,3651,3652,3653,3654,3655,3656,3657,3658,3659,3660,3661,3662,3663,3664,3665,
3666,3667,3668,3669,3670,3671,3672,3673,3674,3675,3676,3677,3678,3679,3680,3681,
3682,3683,3684,3685,3686,3687,3689,3691,3693,3695,3697,3699,3701,3703,3704,3706,
3708,3710,3712,3714,3716,3718,3720,3722,3724,3726,3728,3730,3732,3734,3736,3738,
3740,3742,3744,3746,3748,3750,3752,3754,3756,3758,3760,3762,3764,3766,3768,3770,
3772,3774,3776,3778,3780,3782,3784,3786,3788,3790,3792,3794,3796,3798,3800,3802,
3804,3806,3808,3810,3812,3814,3816,3818,3820,3822,3824,3826,3828,3830,3832,3834,
3836,3838,3840,3842,3844,3846,3848,3850,3852,3854,3856,3858,3860,3862,3864,3866,
3868,3870,3872,3874,3876,3878,3880,3882,3884,3886,3888,3890,3893,3896,3899,3902,
3905,3908,3910,3912,3914,3916,3918,3920,3922,3924,3926,3928,3930,3932,3934,3936,
3938,3940,3942,3944,3946,3948,3950,3952,3954,3956,3958,3960,3962,3964,3966,3968,
3970,3972,3975,3978,3981,3983,3985,3987,3989,3991,3993,3995,3997,3999,4001,4003,
4005,4007,4009,4011,4013,4015,4017,4019,4021,4023,4025,4027,4029,4031,4033,4035,
4037,4040,4043,4046,4049,4052,4055,4058,4061,4064,4067,4070,4073,4076,4079,4082,
4085,4088,4091,4094,4097,4100,4103,4106,4109,4112,4115,4118,4121,4124,4127,4130,
4133,4136,4139,4142,4145,4148,4151,4154,4157,4160,4163,4166,4169,4172,4175,4178,
4181,4184,4187,4190,4193,4196,4199,4202,4205,4208,4211,4214,4217,4220,4223,4226,
4229,4232,4235,4238,4241,4244,4247,4250,4253,4256,4259,4262,4265,4268,4271,4274,
4277,4280,4283,4286,4289,4292,4295,4298,4301,4304,4307,4310,4313,4316,4319,4322,
4325,4329,4333,4337,4341,4345,4349,4353,4356,4374,4382,4386,4387,4388,4389,4390,
4391,4392,4393,4394,4395,4396,4397,4398,4399,4400,4401,4402,4403,4404,4405,4406,
4407,4408,4409,4410,4411,4412,4413,4414,4415,4416,4417,4418,4419,4420,4422,4424,
4426,4428,4430,4432,4434,4436,4438,4440,4442,4444,4446,4448,4449,4450,4451,4452,
4453,4454,4455,4456,4457,4458,4459,4460,4461,4462,4463,4464,4465,4466,4467,4468,
4469,4470,4471,4472,4473,4474,4475,4476,4477,4478,4479,4480,4481,4482,4483,4485,
4487,4489,4491,4492,4493,4494,4495,4496,4497,4498,4499,4500,4501,4502,4503,4504,
4505,4506,4507,4508,4509,4510,4511,4512,4513,4514,4515,4516,4517,4518,4519,4520,
4521,4522,4523,4524,4525,4526,4527,4528,4529,4530,4531,4532,4533,4534,4535,4536,
4537,4538,4539,4540,4541,4542,4543,4544,4545,4546,4547,4548,4549,4550,4551,4552,
4553,4554,4555,4556,4557,4558,4559,4560,4561,4562,4563,4564,4565,4566,4567,4568,
4569,4570,4571,4572,4573,4574,4575,4576,4577,4578,4579,4580,4581,4582,4583,4584,
4585,4586,4587,4588,4589,4590,4591,4592,4593,4594,4595,4596,4597,4598,4599,4600,
4601,4602,4603,4604,4605,4606,4607,4608,4609,4610,4611,4612,4613,4614,4615,4616,
4617,4618,4619,4620,4621,4622,4623,4624,4625,4626,4627,4628,4629,4630,4631,4632,
4633,4634,4635,4636,4637,4638,4639,4640,4641,4642,4643,4644,4645,4646,4647,4648,
4649,4650,4651,4652,4653,4654,4655,4656,4657,4658,4659,4660,4661,4662,4663,4664,
4665,4666,4667,4668,4669,4670,4671,4672,4673,4674,4675,4676,4677,4678,4679,4680,
4681,4682,4683,4684,4685,4686,4687,4688,4689,4690,4691,4692,4693,4694,4695,4696,
4697,4698,4699,4700,4701,4702,4703,4704,4705,4706,4707,4708,4709,4710,4711,4712,
4713,4714,4715,4716,4717,4718,4719,4720,4721,4722,4723,4724,4725,4726,4727,4728,
4729,4730,4731,4732,4733,4734,4735,4736,4737,4738,4739,4740,4741,4742,4743,4744,
4745,4746,4747,4748,4749,4750,4751,4752,4753,4754,4755,4756,4757,4758,4759,4760,
4761,4762,4763,4764,4765,4766,4767,4768,4769,4770,4771,4772,4773,4774,4775,4776,
4777,4778,4779,4780,4781,4782,4783,4784,4785,4786,4787,4788,4789,4790,4791,4792,
4793,4794,4795,4796,4797,4798,4799,4800,4801,4802,4803,4804,4805,4806,4807,4808,
4809,4810,4811,4812,4813,4814,4815,4816,4817,4818,4819,4820,4821,4822,4823,4824,
4825,4826,4827,4828,4829,4830,4831,4832,4833,4834,4835,4836,4837,4838,4839,4840,
4841,4842,4844,4846,4849,4852,4855,4858,4861,4863,4865,4868,4871,4874,4877,4878,
4879,4880,4881,4882,4883,4884,4885,4886,4887,4888,4889,4890,4891,4892,4893,4894,
4895,4896,4897,4898,4899,4900,4901,4902,4903,4904,4905,4906,4907,4908,4909,4910,
4911,4912,4913,4914,4915,4916,4917,4918,4920,4922,4924,4926,4928,4930,4932,4934,
4936,4938,4941,4943,4945,4947,4949,4952,4954,4956,4958,4960,4962,4964,4966,4967,
4968,4969,4970,4971,4972,4973,4974,4975,4976,4977,4978,4979,4980,4981,4982,4983,
4984,4985,4986,4987,4988,4989,4990,4991,4992,4993,4994,4995,4996,4997,5000,5003,
5006,5009,5012,5015,5018,5021,5024,5025,5026,5027,5028,5029,5030,5031,5032,5033,
5034,5035,5036,5037,5038,5039,5040,5041,5042,5043,5044,5045,5046,5047,5048,5049,
5050,5051,5052,5053,5054,5055,5056,5057,5058,5059,5060,5061,5062,5063,5064,5065,
5066,5067,5068,5069,5070,5071,5072,5073,5074,5075,5076,5077,5078,5079,5080,5081,
5082,5083,5084,5085,5086,5087,5088,5089,5090,5091,5092,5093,5094,5095,5096,5097,
5098,5099,5100,5101,5102,5103,5104,5105,5106,5107,5108,5109,5110,5111,5112,5113,
5114,5115,5116,5117,5118,5119,5120,5121,5122,5123,5124,5125,5126,5127,5128,5129,
5130,5131,5132,5133,5134,5135,5136,5137,5138,5139,5140,5141,5142,5143,5144,5145,
5146,5147,5148,5149,5150,5151,5152,5153,5154,5155,5156,5157,5158,5159,5160,5161,
5162,5163,5164,5165,5166,5167,5168,5169,5170,5171,5172,5173,5174,5175,5176,5177,
5178,5179,5180,5181,5182,5183,5184,5185,5186,5187,5188,5189,5190,5191,5192,5193,
5194,5195,5196,5197,5198,5199,5200,5201,5202,5203,5204,5205,5206,5207,5208,5209,
5210,5211,5212,5213,5214,5215,5216,5217,5218,5219,5220,5221,5222,5223,5224,5225,
5226,5227,5228,5229,5230,5231,5232,5233,5234,5235,5236,5237,5238,5239,5240,5241,
5242,5243,5244,5245,5246,5247,5248,5249,5250,5251,5252,5253,5254,5255,5256,5257,
5258,5259,5260,5261,5262,5263,5264,5265,5266,5267,5268,5269,5270,5271,5272,5273,
5274,5275,5276,5277,5278,5279,5280,5281,5282,5283,5284,5285,5286,5287,5288,5289,
5290,5291,5292,5293,5294,5295,5296,5297,5298,5299,5300,5301,5302,5303,5304,5305,
5306,5307,5308,5309,5310,5311,5312,5313,5314,5315,5316,5317,5318,5319,5320,5321,
5322,5323,5324,5325,5326,5327,5328,5329,5330,5331,5332,5333,5334,5335,5336,5337,
5338,5339,5340,5341,5342,5343,5344,5345,5346,5347,5348,5349,5350,5351,5352,5353,
5354,5355,5356,5357,5358,5359,5360,5361,5362,5363,5364,5365,5366,5367,5368,5369,
5370,5371,5372,5373,5374,5375,5376,5377,5378,5379,5380,5381,5382,5383,5384,5385,
5386,5387,5388,5389,5390,5391,5392,5393,5394,5395,5396,5397,5398,5399,5400,5401,
5402,5403,5404,5405,5406,5407,5408,5409,5410,5411,5412,5413,5414,5415,5416,5417,
5418,5419,5420,5421,5422,5423,5424,5425,5426,5427,5428,5429,5430,5431,5432,5433,
5434,5435,5436,5437,5438,5439,5440,5441,5442,5443,5444,5445,5446,5447,5448,5449,
5450,5451,5452,5453,5454,5455,5456,5457,5458,5459,5460,5461,5462,5463,5464,5465,
5466,5467,5468,5469,5470,5471,5472,5473,5474,5475,5476,5477,5478,5479,5480,5481,
5482,5483,5484,5485,5486,5487,5488,5489,5490,5491,5492,
};
static const unsigned spec_nfd_data[3312] = {
65,768,65,769,65,770,65,771,65,776,65,778,67,807,69,768,
69,769,69,770,69,776,73,768,73,769,73,770,73,776,78,771,
79,768,79,769,79,770,79,771,79,776,85,768,85,769,85,770,
85,776,89,769,97,768,97,769,97,770,97,771,97,776,97,778,
99,807,101,768,101,769,101,770,101,776,105,768,105,769,105,770,
105,776,110,771,111,768,111,769,111,770,111,771,111,776,117,768,
117,769,117,770,117,776,121,769,121,776,65,772,97,772,65,774,
97,774,65,808,97,808,67,769,99,769,67,770,99,770,67,775,
99,775,67,780,99,780,68,780,100,780,69,772,101,772,69,774,
101,774,69,775,101,775,69,808,101,808,69,780,101,780,71,770,
103,770,71,774,103,774,71,775,103,775,71,807,103,807,72,770,
104,770,73,771,105,771,73,772,105,772,73,774,105,774,73,808,
105,808,73,775,74,770,106,770,75,807,107,807,76,769,108,769,
76,807,108,807,76,780,108,780,78,769,110,769,78,807,110,807,
78,780,110,780,79,772,111,772,79,774,111,774,79,779,111,779,
82,769,114,769,82,807,114,807,82,780,114,780,83,769,115,769,
83,770,115,770,83,807,115,807,83,780,115,780,84,807,116,807,
84,780,116,780,85,771,117,771,85,772,117,772,85,774,117,774,
85,778,117,778,85,779,117,779,85,808,117,808,87,770,119,770,
89,770,121,770,89,776,90,769,122,769,90,775,122,775,90,780,
122,780,79,795,111,795,85,795,117,795,65,780,97,780,73,780,
105,780,79,780,111,780,85,780,117,780,85,776,772,117,776,772,
85,776,769,117,776,769,85,776,780,117,776,780,85,776,768,117,
776,768,65,776,772,97,776,772,65,775,772,97,775,772,198,772,
230,772,71,780,103,780,75,780,107,780,79,808,111,808,79,808,
772,111,808,772,439,780,658,780,106,780,71,769,103,769,78,768,
110,768,65,778,769,97,778,769,198,769,230,769,216,769,248,769,
65,783,97,783,65,785,97,785,69,783,101,783,69,785,101,785,
73,783,105,783,73,785,105,785,79,783,111,783,79,785,111,785,
82,783,114,783,82,785,114,785,85,783,117,783,85,785,117,785,
83,806,115,806,84,806,116,806,72,780,104,780,65,775,97,775,
69,807,101,807,79,776,772,111,776,772,79,771,772,111,771,772,
79,775,111,775,79,775,772,111,775,772,89,772,121,772,768,769,
787,776,769,697,59,168,769,913,769,183,917,769,919,769,921,769,
927,769,933,769,937,769,953,776,769,921,776,933,776,945,769,949,
769,951,769,953,769,965,776,769,953,776,965,776,959,769,965,769,
969,769,978,769,978,776,1045,768,1045,776,1043,769,1030,776,1050,769,
1048,768,1059,774,1048,774,1080,774,1077,768,1077,776,1075,769,1110,776,
1082,769,1080,768,1091,774,1140,783,1141,783,1046,774,1078,774,1040,774,
1072,774,1040,776,1072,776,1045,774,1077,774,1240,776,1241,776,1046,776,
1078,776,1047,776,1079,776,1048,772,1080,772,1048,776,1080,776,1054,776,
1086,776,1256,776,1257,776,1069,776,1101,776,1059,772,1091,772,1059,776,
1091,776,1059,779,1091,779,1063,776,1095,776,1067,776,1099,776,1575,1619,
1575,1620,1608,1620,1575,1621,1610,1620,1749,1620,1729,1620,1746,1620,2344,2364,
2352,2364,2355,2364,2325,2364,2326,2364,2327,2364,2332,2364,2337,2364,2338,2364,
2347,2364,2351,2364,2503,2494,2503,2519,2465,2492,2466,2492,2479,2492,2610,2620,
2616,2620,2582,2620,2583,2620,2588,2620,2603,2620,2887,2902,2887,2878,2887,2903,
2849,2876,2850,2876,2962,3031,3014,3006,3015,3006,3014,3031,3142,3158,3263,3285,
3270,3285,3270,3286,3270,3266,3270,3266,3285,3398,3390,3399,3390,3398,3415,3545,
3530,3545,3535,3545,3535,3530,3545,3551,3906,4023,3916,4023,3921,4023,3926,4023,
3931,4023,3904,4021,3953,3954,3953,3956,4018,3968,4019,3968,3953,3968,3986,4023,
3996,4023,4001,4023,4006,4023,4011,4023,3984,4021,4133,4142,6917,6965,6919,6965,
6921,6965,6923,6965,6925,6965,6929,6965,6970,6965,6972,6965,6974,6965,6975,6965,
6978,6965,65,805,97,805,66,775,98,775,66,803,98,803,66,817,
98,817,67,807,769,99,807,769,68,775,100,775,68,803,100,803,
68,817,100,817,68,807,100,807,68,813,100,813,69,772,768,101,
772,768,69,772,769,101,772,769,69,813,101,813,69,816,101,816,
69,807,774,101,807,774,70,775,102,775,71,772,103,772,72,775,
104,775,72,803,104,803,72,776,104,776,72,807,104,807,72,814,
104,814,73,816,105,816,73,776,769,105,776,769,75,769,107,769,
75,803,107,803,75,817,107,817,76,803,108,803,76,803,772,108,
803,772,76,817,108,817,76,813,108,813,77,769,109,769,77,775,
109,775,77,803,109,803,78,775,110,775,78,803,110,803,78,817,
110,817,78,813,110,813,79,771,769,111,771,769,79,771,776,111,
771,776,79,772,768,111,772,768,79,772,769,111,772,769,80,769,
112,769,80,775,112,775,82,775,114,775,82,803,114,803,82,803,
772,114,803,772,82,817,114,817,83,775,115,775,83,803,115,803,
83,769,775,115,769,775,83,780,775,115,780,775,83,803,775,115,
803,775,84,775,116,775,84,803,116,803,84,817,116,817,84,813,
116,813,85,804,117,804,85,816,117,816,85,813,117,813,85,771,
769,117,771,769,85,772,776,117,772,776,86,771,118,771,86,803,
118,803,87,768,119,768,87,769,119,769,87,776,119,776,87,775,
119,775,87,803,119,803,88,775,120,775,88,776,120,776,89,775,
121,775,90,770,122,770,90,803,122,803,90,817,122,817,104,817,
116,776,119,778,121,778,383,775,65,803,97,803,65,777,97,777,
65,770,769,97,770,769,65,770,768,97,770,768,65,770,777,97,
770,777,65,770,771,97,770,771,65,803,770,97,803,770,65,774,
769,97,774,769,65,774,768,97,774,768,65,774,777,97,774,777,
65,774,771,97,774,771,65,803,774,97,803,774,69,803,101,803,
69,777,101,777,69,771,101,771,69,770,769,101,770,769,69,770,
768,101,770,768,69,770,777,101,770,777,69,770,771,101,770,771,
69,803,770,101,803,770,73,777,105,777,73,803,105,803,79,803,
111,803,79,777,111,777,79,770,769,111,770,769,79,770,768,111,
770,768,79,770,777,111,770,777,79,770,771,111,770,771,79,803,
770,111,803,770,79,795,769,111,795,769,79,795,768,111,795,768,
79,795,777,111,795,777,79,795,771,111,795,771,79,795,803,111,
795,803,85,803,117,803,85,777,117,777,85,795,769,117,795,769,
85,795,768,117,795,768,85,795,777,117,795,777,85,795,771,117,
795,771,85,795,803,117,795,803,89,768,121,768,89,803,121,803,
89,777,121,777,89,771,121,771,945,787,945,788,945,787,768,945,
788,768,945,787,769,945,788,769,945,787,834,945,788,834,913,787,
913,788,913,787,768,913,788,768,913,787,769,913,788,769,913,787,
834,913,788,834,949,787,949,788,949,787,768,949,788,768,949,787,
769,949,788,769,917,787,917,788,917,787,768,917,788,768,917,787,
769,917,788,769,951,787,951,788,951,787,768,951,788,768,951,787,
769,951,788,769,951,787,834,951,788,834,919,787,919,788,919,787,
768,919,788,768,919,787,769,919,788,769,919,787,834,919,788,834,
953,787,953,788,953,787,768,953,788,768,953,787,769,953,788,769,
953,787,834,953,788,834,921,787,921,788,921,787,768,921,788,768,
921,787,769,921,788,769,921,787,834,921,788,834,959,787,959,788,
959,787,768,959,788,768,959,787,769,959,788,769,927,787,927,788,
927,787,768,927,788,768,927,787,769,927,788,769,965,787,965,788,
965,787,768,965,788,768,965,787,769,965,788,769,965,787,834,965,
788,834,933,788,933,788,768,933,788,769,933,788,834,969,787,969,
788,969,787,768,969,788,768,969,787,769,969,788,769,969,787,834,
969,788,834,937,787,937,788,937,787,768,937,788,768,937,787,769,
937,788,769,937,787,834,937,788,834,945,768,949,768,951,768,953,
768,959,768,965,768,969,768,945,787,837,945,788,837,945,787,768,
837,945,788,768,837,945,787,769,837,945,788,769,837,945,787,834,
837,945,788,834,837,913,787,837,913,788,837,913,787,768,837,913,
788,768,837,913,787,769,837,913,788,769,837,913,787,834,837,913,
788,834,837,951,787,837,951,788,837,951,787,768,837,951,788,768,
837,951,787,769,837,951,788,769,837,951,787,834,837,951,788,834,
837,919,787,837,919,788,837,919,787,768,837,919,788,768,837,919,
787,769,837,919,788,769,837,919,787,834,837,919,788,834,837,969,
787,837,969,788,837,969,787,768,837,969,788,768,837,969,787,769,
837,969,788,769,837,969,787,834,837,969,788,834,837,937,787,837,
937,788,837,937,787,768,837,937,788,768,837,937,787,769,837,937,
788,769,837,937,787,834,837,937,788,834,837,945,774,945,772,945,
768,837,945,837,945,769,837,945,834,945,834,837,913,774,913,772,
913,768,913,837,953,168,834,951,768,837,951,837,951,769,837,951,
834,951,834,837,917,768,919,768,919,837,8127,768,8127,769,8127,834,
953,774,953,772,953,776,768,953,834,953,776,834,921,774,921,772,
921,768,8190,768,8190,769,8190,834,965,774,965,772,965,776,768,961,
787,961,788,965,834,965,776,834,933,774,933,772,933,768,929,788,
168,768,96,969,768,837,969,837,969,769,837,969,834,969,834,837,
927,768,937,768,937,837,180,8194,8195,937,75,8592,824,8594,824,8596,
824,8656,824,8660,824,8658,824,8707,824,8712,824,8715,824,8739,824,8741,
824,8764,824,8771,824,8773,824,8776,824,61,824,8801,824,8781,824,60,
824,62,824,8804,824,8805,824,8818,824,8819,824,8822,824,8823,824,8826,
824,8827,824,8834,824,8835,824,8838,824,8839,824,8866,824,8872,824,8873,
824,8875,824,8828,824,8829,824,8849,824,8850,824,8882,824,8883,824,8884,
824,8885,824,12296,12297,10973,824,12363,12441,12365,12441,12367,12441,12369,12441,12371,
12441,12373,12441,12375,12441,12377,12441,12379,12441,12381,12441,12383,12441,12385,12441,12388,
12441,12390,12441,12392,12441,12399,12441,12399,12442,12402,12441,12402,12442,12405,12441,12405,
12442,12408,12441,12408,12442,12411,12441,12411,12442,12358,12441,12445,12441,12459,12441,12461,
12441,12463,12441,12465,12441,12467,12441,12469,12441,12471,12441,12473,12441,12475,12441,12477,
12441,12479,12441,12481,12441,12484,12441,12486,12441,12488,12441,12495,12441,12495,12442,12498,
12441,12498,12442,12501,12441,12501,12442,12504,12441,12504,12442,12507,12441,12507,12442,12454,
12441,12527,12441,12528,12441,12529,12441,12530,12441,12541,12441,35912,26356,36554,36040,28369,
20018,21477,40860,22865,37329,21895,22856,25078,30313,32645,34367,34746,35064,37007,27138,27931,
28889,29662,33853,37226,39409,20098,21365,27396,29211,34349,40478,23888,28651,34253,35172,25289,
33240,34847,24266,26391,28010,29436,37070,20358,20919,21214,25796,27347,29200,30439,32769,34310,
34396,36335,38706,39791,40442,30860,31103,32160,33737,37636,40575,35542,22751,24324,31840,32894,
29282,30922,36034,38647,22744,23650,27155,28122,28431,32047,32311,38475,21202,32907,20956,20940,
31260,32190,33777,38517,35712,25295,35582,20025,23527,24594,29575,30064,21271,30971,20415,24489,
19981,27852,25976,32034,21443,22622,30465,33865,35498,27578,36784,27784,25342,33509,25504,30053,
20142,20841,20937,26753,31975,33391,35538,37327,21237,21570,22899,24300,26053,28670,31018,38317,
39530,40599,40654,21147,26310,27511,36706,24180,24976,25088,25754,28451,29001,29833,31178,32244,
32879,36646,34030,36899,37706,21015,21155,21693,28872,35010,24265,24565,25467,27566,31806,29557,
20196,22265,23994,24604,29618,29801,32666,32838,37428,38646,38728,38936,20363,31150,37300,38584,
24801,20102,20698,23534,23615,26009,29134,30274,34044,36988,40845,26248,38446,21129,26491,26611,
27969,28316,29705,30041,30827,32016,39006,20845,25134,38520,20523,23833,28138,36650,24459,24900,
26647,38534,21033,21519,23653,26131,26446,26792,27877,29702,30178,32633,35023,35041,37324,38626,
21311,28346,21533,29136,29848,34298,38563,40023,40607,26519,28107,33256,31435,31520,31890,29376,
28825,35672,20160,33590,21050,20999,24230,25299,31958,23429,27934,26292,36667,34892,38477,35211,
24275,20800,21952,22618,26228,20958,29482,30410,31036,31070,31077,31119,38742,31934,32701,34322,
35576,36920,37117,39151,39164,39208,40372,37086,38583,20398,20711,20813,21193,21220,21329,21917,
22022,22120,22592,22696,23652,23662,24724,24936,24974,25074,25935,26082,26257,26757,28023,28186,
28450,29038,29227,29730,30865,31038,31049,31048,31056,31062,31069,31117,31118,31296,31361,31680,
32265,32321,32626,32773,33261,33401,33879,35088,35222,35585,35641,36051,36104,36790,38627,38911,
38971,24693,148206,33304,20006,20917,20840,20352,20805,20864,21191,21242,21845,21913,21986,22707,
22852,22868,23138,23336,24274,24281,24425,24493,24792,24910,24840,24928,25140,25540,25628,25682,
25942,26395,26454,27513,28379,28363,28702,30631,29237,29359,29809,29958,30011,30237,30239,30427,
30452,30538,30528,30924,31409,31867,32091,32574,33618,33775,34681,35137,35206,35519,35531,35565,
35722,36664,36978,37273,37494,38524,38875,38923,39698,141386,141380,144341,15261,16408,16441,152137,
154832,163539,40771,40846,1497,1460,1522,1463,1513,1473,1513,1474,1513,1468,1473,1513,
1468,1474,1488,1463,1488,1464,1488,1468,1489,1468,1490,1468,1491,1468,1492,1468,
1493,1468,1494,1468,1496,1468,1497,1468,1498,1468,1499,1468,1500,1468,1502,1468,
1504,1468,1505,1468,1507,1468,1508,1468,1510,1468,1511,1468,1512,1468,1513,1468,
1514,1468,1493,1465,1489,1471,1499,1471,1508,1471,67026,775,67034,775,69785,69818,
69787,69818,69797,69818,69937,69927,69938,69927,70471,70462,70471,70487,70530,70601,70532,70587,
70539,70594,70544,70601,70594,70594,70594,70584,70594,70601,70841,70842,70841,70832,70841,70845,
71096,71087,71097,71087,71989,71984,90398,90398,90398,90409,90398,90399,90409,90399,90398,90400,
90398,90398,90399,90398,90409,90399,90398,90398,90400,93543,93543,93539,93543,93539,93543,93543,
119127,119141,119128,119141,119128,119141,119150,119128,119141,119151,119128,119141,119152,119128,119141,119153,
119128,119141,119154,119225,119141,119226,119141,119225,119141,119150,119226,119141,119150,119225,119141,119151,
119226,119141,119151,20029,20024,20033,131362,20320,20411,20482,20602,20633,20687,13470,132666,20820,
20836,20855,132380,13497,20839,20877,132427,20887,20900,20172,20908,168415,20981,20995,13535,21051,
21062,21106,21111,13589,21253,21254,21321,21338,21363,21373,21375,133676,28784,21450,21471,133987,
21483,21489,21510,21662,21560,21576,21608,21666,21750,21776,21843,21859,21892,21931,21939,21954,
22294,22295,22097,22132,22766,22478,22516,22541,22411,22578,22577,22700,136420,22770,22775,22790,
22810,22818,22882,136872,136938,23020,23067,23079,23000,23142,14062,14076,23304,23358,137672,23491,
23512,23539,138008,23551,23558,24403,23586,14209,23648,23744,23693,138724,23875,138726,23918,23915,
23932,24033,24034,14383,24061,24104,24125,24169,14434,139651,14460,24240,24243,24246,172946,24318,
140081,33281,24354,14535,144056,156122,24418,24427,14563,24474,24525,24535,24569,24705,14650,14620,
141012,24775,24904,24908,24954,25010,24996,25007,25054,25104,25115,25181,25265,25300,25424,142092,
25405,25340,25448,25475,25572,142321,25634,25541,25513,14894,25705,25726,25757,25719,14956,25964,
143370,26083,26360,26185,15129,15112,15076,20882,20885,26368,26268,32941,17369,26401,26462,26451,
144323,15177,26618,26501,26706,144493,26766,26655,26900,26946,27043,27114,27304,145059,27355,15384,
27425,145575,27476,15438,27506,27551,27579,146061,138507,146170,27726,146620,27839,27853,27751,27926,
27966,28009,28024,28037,146718,27956,28207,28270,15667,28359,147153,28153,28526,147294,147342,28614,
28729,28699,15766,28746,28797,28791,28845,132389,28997,148067,29084,148395,29224,29264,149000,29312,
29333,149301,149524,29562,29579,16044,29605,16056,29767,29788,29829,29898,16155,29988,150582,30014,
150674,139679,30224,151457,151480,151620,16380,16392,151795,151794,151833,151859,30494,30495,30603,16454,
16534,152605,30798,16611,153126,153242,153285,31211,16687,31306,31311,153980,154279,31470,16898,154539,
31686,31689,16935,154752,31954,17056,31976,31971,32000,155526,32099,17153,32199,32258,32325,17204,
156200,156231,17241,156377,32634,156478,32661,32762,156890,156963,32864,157096,32880,144223,17365,32946,
33027,17419,33086,23221,157607,157621,144275,144284,33284,36766,17515,33425,33419,33437,21171,33457,
33459,33469,33510,158524,33565,33635,33709,33571,33725,33767,33619,33738,33740,33756,158774,159083,
158933,17707,34033,34035,34070,160714,34148,159532,17757,17761,159665,159954,17771,34384,34407,34409,
34473,34440,34574,34530,34600,34667,34694,17879,34785,34817,17913,34912,34915,161383,35031,35038,
17973,35066,13499,161966,162150,18110,18119,35488,35925,162984,36011,36033,36123,36215,163631,133124,
36299,36284,36336,133342,36564,165330,165357,37012,37105,37137,165678,37147,37432,37591,37592,37500,
37881,37909,166906,38283,18837,38327,167287,18918,38595,23986,38691,168261,168474,19054,19062,38880,
168970,19122,169110,38953,169398,39138,19251,39209,39335,39362,39422,19406,170800,40000,40189,19662,
19693,40295,172238,19704,172293,172558,172689,40635,19798,40697,40702,40709,40719,40726,40763,173568,
};
static const unsigned short spec_nfd_off[1964] = {
0,2,4,6,8,10,12,14,16,18,20,22,24,26,28,30,
32,34,36,38,40,42,44,46,48,50,52,54,56,58,60,62,
64,66,68,70,72,74,76,78,80,82,84,86,88,90,92,94,
96,98,100,102,104,106,108,110,112,114,116,118,120,122,124,126,
128,130,132,134,136,138,140,142,144,146,148,150,152,154,156,158,
160,162,164,166,168,170,172,174,176,178,180,182,184,186,188,190,
192,194,196,198,200,202,204,206,208,210,212,214,216,218,220,222,
224,226,228,230,232,234,236,238,240,242,244,246,248,250,252,254,
256,258,260,262,264,266,268,270,272,274,276,278,280,282,284,286,
288,290,292,294,296,298,300,302,304,306,308,310,312,314,316,318,
320,322,324,326,328,330,332,334,336,338,340,342,344,346,349,352,
355,358,361,364,367,370,373,376,379,382,384,386,388,390,392,394,
396,398,401,404,406,408,410,412,414,416,418,421,424,426,428,430,
432,434,436,438,440,442,444,446,448,450,452,454,456,458,460,462,
464,466,468,470,472,474,476,478,480,482,484,486,488,490,492,494,
496,498,500,503,506,509,512,514,516,519,522,524,526,527,528,529,
531,532,533,535,537,538,540,542,544,546,548,550,553,555,557,559,
561,563,565,568,570,572,574,576,578,580,582,584,586,588,590,592,
594,596,598,600,602,604,606,608,610,612,614,616,618,620,622,624,
626,628,630,632,634,636,638,640,642,644,646,648,650,652,654,656,
658,660,662,664,666,668,670,672,674,676,678,680,682,684,686,688,
690,692,694,696,698,700,702,704,706,708,710,712,714,716,718,720,
722,724,726,728,730,732,734,736,738,740,742,744,746,748,750,752,
754,756,758,760,762,764,766,768,770,772,774,777,779,781,783,785,
787,790,792,794,796,798,800,802,804,806,808,810,812,814,816,818,
820,822,824,826,828,830,832,834,836,838,840,842,844,846,848,850,
852,854,856,858,860,862,864,866,869,872,874,876,878,880,882,884,
886,888,890,892,895,898,901,904,906,908,910,912,915,918,920,922,
924,926,928,930,932,934,936,938,940,942,944,946,948,950,953,956,
958,960,962,964,966,968,970,972,975,978,980,982,984,986,988,990,
992,994,996,998,1000,1002,1004,1006,1008,1010,1012,1014,1017,1020,1023,1026,
1029,1032,1035,1038,1040,1042,1044,1046,1048,1050,1052,1054,1057,1060,1062,1064,
1066,1068,1070,1072,1075,1078,1081,1084,1087,1090,1092,1094,1096,1098,1100,1102,
1104,1106,1108,1110,1112,1114,1116,1118,1121,1124,1127,1130,1132,1134,1136,1138,
1140,1142,1144,1146,1148,1150,1152,1154,1156,1158,1160,1162,1164,1166,1168,1170,
1172,1174,1176,1178,1180,1182,1184,1186,1188,1190,1192,1194,1196,1198,1200,1203,
1206,1209,1212,1215,1218,1221,1224,1227,1230,1233,1236,1239,1242,1245,1248,1251,
1254,1257,1260,1262,1264,1266,1268,1270,1272,1275,1278,1281,1284,1287,1290,1293,
1296,1299,1302,1304,1306,1308,1310,1312,1314,1316,1318,1321,1324,1327,1330,1333,
1336,1339,1342,1345,1348,1351,1354,1357,1360,1363,1366,1369,1372,1375,1378,1380,
1382,1384,1386,1389,1392,1395,1398,1401,1404,1407,1410,1413,1416,1418,1420,1422,
1424,1426,1428,1430,1432,1434,1436,1439,1442,1445,1448,1451,1454,1456,1458,1461,
1464,1467,1470,1473,1476,1478,1480,1483,1486,1489,1492,1494,1496,1499,1502,1505,
1508,1510,1512,1515,1518,1521,1524,1527,1530,1532,1534,1537,1540,1543,1546,1549,
1552,1554,1556,1559,1562,1565,1568,1571,1574,1576,1578,1581,1584,1587,1590,1593,
1596,1598,1600,1603,1606,1609,1612,1614,1616,1619,1622,1625,1628,1630,1632,1635,
1638,1641,1644,1647,1650,1652,1655,1658,1661,1663,1665,1668,1671,1674,1677,1680,
1683,1685,1687,1690,1693,1696,1699,1702,1705,1707,1709,1711,1713,1715,1717,1719,
1722,1725,1729,1733,1737,1741,1745,1749,1752,1755,1759,1763,1767,1771,1775,1779,
1782,1785,1789,1793,1797,1801,1805,1809,1812,1815,1819,1823,1827,1831,1835,1839,
1842,1845,1849,1853,1857,1861,1865,1869,1872,1875,1879,1883,1887,1891,1895,1899,
1901,1903,1906,1908,1911,1913,1916,1918,1920,1922,1924,1925,1927,1930,1932,1935,
1937,1940,1942,1944,1946,1948,1950,1952,1954,1956,1959,1961,1964,1966,1968,1970,
1972,1974,1976,1978,1980,1983,1985,1987,1989,1992,1994,1996,1998,2000,2002,2003,
2006,2008,2011,2013,2016,2018,2020,2022,2023,2024,2025,2026,2027,2029,2031,2033,
2035,2037,2039,2041,2043,2045,2047,2049,2051,2053,2055,2057,2059,2061,2063,2065,
2067,2069,2071,2073,2075,2077,2079,2081,2083,2085,2087,2089,2091,2093,2095,2097,
2099,2101,2103,2105,2107,2109,2111,2113,2115,2116,2117,2119,2121,2123,2125,2127,
2129,2131,2133,2135,2137,2139,2141,2143,2145,2147,2149,2151,2153,2155,2157,2159,
2161,2163,2165,2167,2169,2171,2173,2175,2177,2179,2181,2183,2185,2187,2189,2191,
2193,2195,2197,2199,2201,2203,2205,2207,2209,2211,2213,2215,2217,2219,2221,2223,
2225,2227,2229,2231,2233,2235,2236,2237,2238,2239,2240,2241,2242,2243,2244,2245,
2246,2247,2248,2249,2250,2251,2252,2253,2254,2255,2256,2257,2258,2259,2260,2261,
2262,2263,2264,2265,2266,2267,2268,2269,2270,2271,2272,2273,2274,2275,2276,2277,
2278,2279,2280,2281,2282,2283,2284,2285,2286,2287,2288,2289,2290,2291,2292,2293,
2294,2295,2296,2297,2298,2299,2300,2301,2302,2303,2304,2305,2306,2307,2308,2309,
2310,2311,2312,2313,2314,2315,2316,2317,2318,2319,2320,2321,2322,2323,2324,2325,
2326,2327,2328,2329,2330,2331,2332,2333,2334,2335,2336,2337,2338,2339,2340,2341,
2342,2343,2344,2345,2346,2347,2348,2349,2350,2351,2352,2353,2354,2355,2356,2357,
2358,2359,2360,2361,2362,2363,2364,2365,2366,2367,2368,2369,2370,2371,2372,2373,
2374,2375,2376,2377,2378,2379,2380,2381,2382,2383,2384,2385,2386,2387,2388,2389,
2390,2391,2392,2393,2394,2395,2396,2397,2398,2399,2400,2401,2402,2403,2404,2405,
2406,2407,2408,2409,2410,2411,2412,2413,2414,2415,2416,2417,2418,2419,2420,2421,
2422,2423,2424,2425,2426,2427,2428,2429,2430,2431,2432,2433,2434,2435,2436,2437,
2438,2439,2440,2441,2442,2443,2444,2445,2446,2447,2448,2449,2450,2451,2452,2453,
2454,2455,2456,2457,2458,2459,2460,2461,2462,2463,2464,2465,2466,2467,2468,2469,
2470,2471,2472,2473,2474,2475,2476,2477,2478,2479,2480,2481,2482,2483,2484,2485,
2486,2487,2488,2489,2490,2491,2492,2493,2494,2495,2496,2497,2498,2499,2500,2501,
2502,2503,2504,2505,2506,2507,2508,2509,2510,2511,2512,2513,2514,2515,2516,2517,
2518,2519,2520,2521,2522,2523,2524,2525,2526,2527,2528,2529,2530,2531,2532,2533,
2534,2535,2536,2537,2538,2539,2540,2541,2542,2543,2544,2545,2546,2547,2548,2549,
2550,2551,2552,2553,2554,2555,2556,2557,2558,2559,2560,2561,2562,2563,2564,2565,
2566,2567,2568,2569,2570,2571,2572,2573,2574,2575,2576,2577,2578,2579,2580,2581,
2582,2583,2584,2585,2586,2587,2588,2589,2590,2591,2592,2593,2594,2595,2596,2597,
2598,2599,2600,2601,2602,2603,2604,2605,2606,2607,2608,2609,2610,2611,2612,2613,
2614,2615,2616,2617,2618,2619,2620,2621,2622,2623,2624,2625,2626,2627,2628,2629,
2630,2631,2632,2633,2634,2635,2636,2637,2638,2639,2640,2641,2642,2643,2644,2645,
2646,2647,2648,2649,2650,2651,2652,2653,2654,2655,2656,2657,2658,2659,2660,2662,
2664,2666,2668,2671,2674,2676,2678,2680,2682,2684,2686,2688,2690,2692,2694,2696,
2698,2700,2702,2704,2706,2708,2710,2712,2714,2716,2718,2720,2722,2724,2726,2728,
2730,2732,2734,2736,2738,2740,2742,2744,2746,2748,2750,2752,2754,2756,2758,2760,
2762,2764,2766,2768,2770,2772,2774,2776,2778,2780,2782,2784,2787,2790,2793,2795,
2797,2800,2802,2804,2807,2810,2813,2816,2819,2821,2823,2826,2829,2832,2835,2836,
2837,2838,2839,2840,2841,2842,2843,2844,2845,2846,2847,2848,2849,2850,2851,2852,
2853,2854,2855,2856,2857,2858,2859,2860,2861,2862,2863,2864,2865,2866,2867,2868,
2869,2870,2871,2872,2873,2874,2875,2876,2877,2878,2879,2880,2881,2882,2883,2884,
2885,2886,2887,2888,2889,2890,2891,2892,2893,2894,2895,2896,2897,2898,2899,2900,
2901,2902,2903,2904,2905,2906,2907,2908,2909,2910,2911,2912,2913,2914,2915,2916,
2917,2918,2919,2920,2921,2922,2923,2924,2925,2926,2927,2928,2929,2930,2931,2932,
2933,2934,2935,2936,2937,2938,2939,2940,2941,2942,2943,2944,2945,2946,2947,2948,
2949,2950,2951,2952,2953,2954,2955,2956,2957,2958,2959,2960,2961,2962,2963,2964,
2965,2966,2967,2968,2969,2970,2971,2972,2973,2974,2975,2976,2977,2978,2979,2980,
2981,2982,2983,2984,2985,2986,2987,2988,2989,2990,2991,2992,2993,2994,2995,2996,
2997,2998,2999,3000,3001,3002,3003,3004,3005,3006,3007,3008,3009,3010,3011,3012,
3013,3014,3015,3016,3017,3018,3019,3020,3021,3022,3023,3024,3025,3026,3027,3028,
3029,3030,3031,3032,3033,3034,3035,3036,3037,3038,3039,3040,3041,3042,3043,3044,
3045,3046,3047,3048,3049,3050,3051,3052,3053,3054,3055,3056,3057,3058,3059,3060,
3061,3062,3063,3064,3065,3066,3067,3068,3069,3070,3071,3072,3073,3074,3075,3076,
3077,3078,3079,3080,3081,3082,3083,3084,3085,3086,3087,3088,3089,3090,3091,3092,
3093,3094,3095,3096,3097,3098,3099,3100,3101,3102,3103,3104,3105,3106,3107,3108,
3109,3110,3111,3112,3113,3114,3115,3116,3117,3118,3119,3120,3121,3122,3123,3124,
3125,3126,3127,3128,3129,3130,3131,3132,3133,3134,3135,3136,3137,3138,3139,3140,
3141,3142,3143,3144,3145,3146,3147,3148,3149,3150,3151,3152,3153,3154,3155,3156,
3157,3158,3159,3160,3161,3162,3163,3164,3165,3166,3167,3168,3169,3170,3171,3172,
3173,3174,3175,3176,3177,3178,3179,3180,3181,3182,3183,3184,3185,3186,3187,3188,
3189,3190,3191,3192,3193,3194,3195,3196,3197,3198,3199,3200,3201,3202,3203,3204,
3205,3206,3207,3208,3209,3210,3211,3212,3213,3214,3215,3216,3217,3218,3219,3220,
3221,3222,3223,3224,3225,3226,3227,3228,3229,3230,3231,3232,3233,3234,3235,3236,
3237,3238,3239,3240,3241,3242,3243,3244,3245,3246,3247,3248,3249,3250,3251,3252,
3253,3254,3255,3256,3257,3258,3259,3260,3261,3262,3263,3264,3265,3266,3267,3268,
3269,3270,3271,3272,3273,3274,3275,3276,3277,3278,3279,3280,3281,3282,3283,3284,
3285,3286,3287,3288,3289,3290,3291,3292,3293,3294,3295,3296,3297,3298,3299,3300,
3301,3302,3303,3304,3305,3306,3307,3308,3309,3310,3311,3312,
};
static const unsigned spec_comp[28616] = {
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,8814,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,8800,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,8815,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,192,193,194,195,256,258,550,196,7842,197,0,
461,512,514,0,0,0,7840,0,7680,0,0,260,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,7682,0,0,0,0,0,0,0,0,0,0,7684,
0,0,0,0,0,0,0,0,7686,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,262,264,0,0,0,266,0,0,
0,0,268,0,0,0,0,0,0,0,0,0,199,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,7690,0,0,0,0,270,0,0,0,0,
0,7692,0,0,0,7696,0,7698,0,0,7694,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,200,201,202,7868,274,276,278,
203,7866,0,0,282,516,518,0,0,0,7864,0,0,0,552,280,
7704,0,7706,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,7710,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,500,284,0,7712,
286,288,0,0,0,0,486,0,0,0,0,0,0,0,0,0,
290,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,292,0,0,0,7714,7718,0,0,0,542,
0,0,0,0,0,7716,0,0,0,7720,0,0,7722,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,204,205,206,
296,298,300,304,207,7880,0,0,463,520,522,0,0,0,7882,0,
0,0,0,302,0,0,7724,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,308,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
7728,0,0,0,0,0,0,0,0,0,488,0,0,0,0,0,
7730,0,0,0,310,0,0,0,0,7732,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,313,0,0,0,0,0,0,
0,0,0,317,0,0,0,0,0,7734,0,0,0,315,0,7740,
0,0,7738,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,7742,0,0,0,0,7744,0,0,0,0,0,0,0,0,
0,0,7746,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,504,323,0,209,0,0,
7748,0,0,0,0,327,0,0,0,0,0,7750,0,0,0,325,
0,7754,0,0,7752,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,210,211,212,213,332,334,558,214,7886,0,336,465,524,
526,0,0,416,7884,0,0,0,0,490,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,7764,0,0,
0,0,7766,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,340,0,0,0,0,7768,0,0,0,0,
344,528,530,0,0,0,7770,0,0,0,342,0,0,0,0,7774,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,346,
348,0,0,0,7776,0,0,0,0,352,0,0,0,0,0,7778,
0,0,536,350,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,7786,0,0,
0,0,356,0,0,0,0,0,7788,0,0,538,354,0,7792,0,
0,7790,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
217,218,219,360,362,364,0,220,7910,366,368,467,532,534,0,0,
431,7908,7794,0,0,0,370,7798,0,7796,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,7804,0,0,0,
0,0,0,0,0,0,0,0,0,0,7806,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,7808,7810,372,0,0,0,7814,7812,0,0,0,0,0,0,
0,0,0,7816,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7818,7820,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,7922,221,374,7928,562,0,7822,376,7926,0,0,0,
0,0,0,0,0,7924,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,377,7824,
0,0,0,379,0,0,0,0,381,0,0,0,0,0,7826,0,
0,0,0,0,0,0,0,7828,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,224,225,226,227,257,259,551,228,7843,229,
0,462,513,515,0,0,0,7841,0,7681,0,0,261,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,7683,0,0,0,0,0,0,0,0,0,0,
7685,0,0,0,0,0,0,0,0,7687,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,263,265,0,0,0,267,0,
0,0,0,269,0,0,0,0,0,0,0,0,0,231,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,7691,0,0,0,0,271,0,0,0,
0,0,7693,0,0,0,7697,0,7699,0,0,7695,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,232,233,234,7869,275,277,
279,235,7867,0,0,283,517,519,0,0,0,7865,0,0,0,553,
281,7705,0,7707,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,7711,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,501,285,0,
7713,287,289,0,0,0,0,487,0,0,0,0,0,0,0,0,
0,291,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,293,0,0,0,7715,7719,0,0,0,
543,0,0,0,0,0,7717,0,0,0,7721,0,0,7723,0,7830,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,236,237,
238,297,299,301,0,239,7881,0,0,464,521,523,0,0,0,7883,
0,0,0,0,303,0,0,7725,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,309,0,0,0,0,0,0,
0,0,496,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7729,0,0,0,0,0,0,0,0,0,489,0,0,0,0,
0,7731,0,0,0,311,0,0,0,0,7733,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,314,0,0,0,0,0,
0,0,0,0,318,0,0,0,0,0,7735,0,0,0,316,0,
7741,0,0,7739,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,7743,0,0,0,0,7745,0,0,0,0,0,0,0,
0,0,0,7747,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,505,324,0,241,0,
0,7749,0,0,0,0,328,0,0,0,0,0,7751,0,0,0,
326,0,7755,0,0,7753,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,242,243,244,245,333,335,559,246,7887,0,337,466,
525,527,0,0,417,7885,0,0,0,0,491,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,7765,0,
0,0,0,7767,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,341,0,0,0,0,7769,0,0,0,
0,345,529,531,0,0,0,7771,0,0,0,343,0,0,0,0,
7775,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
347,349,0,0,0,7777,0,0,0,0,353,0,0,0,0,0,
7779,0,0,537,351,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,7787,7831,
0,0,0,357,0,0,0,0,0,7789,0,0,539,355,0,7793,
0,0,7791,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,249,250,251,361,363,365,0,252,7911,367,369,468,533,535,0,
0,432,7909,7795,0,0,0,371,7799,0,7797,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,7805,0,0,
0,0,0,0,0,0,0,0,0,0,0,7807,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,7809,7811,373,0,0,0,7815,7813,0,7832,0,0,0,
0,0,0,0,7817,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,7819,7821,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,7923,253,375,7929,563,0,7823,255,7927,7833,0,
0,0,0,0,0,0,7925,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,378,
7825,0,0,0,380,0,0,0,0,382,0,0,0,0,0,7827,
0,0,0,0,0,0,0,0,7829,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,8173,901,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,8129,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
7846,7844,0,7850,0,0,0,0,7848,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,478,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,506,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,508,0,0,482,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,7688,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,7872,7870,0,
7876,0,0,0,0,7874,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,7726,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,7890,
7888,0,7894,0,0,0,0,7892,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,7756,0,0,556,0,0,7758,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,554,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,510,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,475,471,0,0,469,0,0,0,0,0,0,473,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,7847,7845,0,7851,
0,0,0,0,7849,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,479,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,507,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,509,0,0,483,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7689,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,7873,7871,0,7877,0,0,0,
0,7875,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,7727,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,7891,7889,0,7895,0,
0,0,0,7893,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,7757,0,0,557,0,0,7759,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,555,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,511,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,476,
472,0,0,470,0,0,0,0,0,0,474,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,7856,7854,0,7860,0,0,0,0,
7858,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7857,7855,0,7861,0,0,0,0,7859,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,7700,7702,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,7701,7703,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,7760,7762,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,7761,7763,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,7780,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,7781,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,7782,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,7783,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,7800,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,7801,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,7802,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,7803,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,7835,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,7900,
7898,0,7904,0,0,0,0,7902,0,0,0,0,0,0,0,0,
7906,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,7901,7899,0,7905,0,0,0,0,
7903,0,0,0,0,0,0,0,0,7907,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7914,7912,0,7918,0,0,0,0,7916,0,0,0,0,0,0,
0,0,7920,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,7915,7913,0,7919,0,0,
0,0,7917,0,0,0,0,0,0,0,0,7921,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,494,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
492,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,493,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,480,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,481,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,7708,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,7709,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,560,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,561,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,495,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,8122,902,0,
0,8121,8120,0,0,0,0,0,0,0,0,7944,7945,0,0,0,
0,0,0,0,0,0,0,0,0,0,8124,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,8136,904,0,0,0,0,0,0,0,0,
0,0,0,0,7960,7961,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8138,
905,0,0,0,0,0,0,0,0,0,0,0,0,7976,7977,0,
0,0,0,0,0,0,0,0,0,0,0,0,8140,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8154,906,0,0,8153,8152,0,938,
0,0,0,0,0,0,7992,7993,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,8184,908,0,0,0,0,0,0,0,0,0,0,0,0,8008,
8009,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8172,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,8170,910,0,0,8169,8168,0,939,0,0,0,0,0,
0,0,8025,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,8186,911,0,0,
0,0,0,0,0,0,0,0,0,0,8040,8041,0,0,0,0,
0,0,0,0,0,0,0,0,0,8188,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8116,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8132,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,8048,940,0,0,8113,8112,0,0,0,
0,0,0,0,0,7936,7937,0,0,0,0,0,0,0,0,0,
0,0,0,8118,8115,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
8050,941,0,0,0,0,0,0,0,0,0,0,0,0,7952,7953,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8052,942,0,0,0,0,0,
0,0,0,0,0,0,0,7968,7969,0,0,0,0,0,0,0,
0,0,0,0,0,8134,8131,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8054,943,0,0,8145,8144,0,970,0,0,0,0,0,0,
7984,7985,0,0,0,0,0,0,0,0,0,0,0,0,8150,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8056,972,0,0,0,
0,0,0,0,0,0,0,0,0,8000,8001,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8164,8165,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,8058,973,0,
0,8161,8160,0,971,0,0,0,0,0,0,8016,8017,0,0,0,
0,0,0,0,0,0,0,0,0,8166,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,8060,974,0,0,0,0,0,0,0,0,
0,0,0,0,8032,8033,0,0,0,0,0,0,0,0,0,0,
0,0,8182,8179,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8146,
912,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8151,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8162,944,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8167,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,8180,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,979,0,0,0,0,
0,980,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,1031,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,1232,0,1234,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,1027,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,1024,0,
0,0,0,1238,0,1025,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,1217,0,1244,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,1246,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,1037,0,0,0,1250,1049,0,
1252,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,1036,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,1254,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,1262,1038,0,1264,0,0,1266,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,1268,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,1272,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,1260,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,1233,0,1235,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,1107,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,1104,0,0,0,0,1239,
0,1105,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,1218,0,1245,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,1247,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,1117,0,0,0,1251,1081,0,1253,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1116,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,1255,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,1263,1118,0,1265,0,0,1267,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
1269,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,1273,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,1261,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,1111,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,1142,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,1143,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,1242,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1243,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,1258,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,1259,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,1570,1571,1573,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,1572,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,1574,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,1730,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,1747,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1728,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,2345,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2353,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,2356,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,2507,2508,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,2891,2888,2892,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,2964,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,3018,3020,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,3019,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,3144,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,3264,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,3274,3271,3272,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,3275,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,3402,3404,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,3403,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,3546,3548,3550,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,3549,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,4134,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,6918,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,6920,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,6922,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
6924,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,6926,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,6930,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,6971,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,6973,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,6976,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,6977,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,6979,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,7736,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,7737,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,7772,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,7773,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,7784,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,7785,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,7852,0,0,
7862,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,7853,0,0,7863,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,7878,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,7879,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7896,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,7897,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7938,7940,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,7942,8064,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,7939,7941,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,7943,8065,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
8066,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8067,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8068,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8069,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8070,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,8071,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,7946,7948,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,7950,8072,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,7947,7949,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,7951,8073,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8074,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,8075,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,8076,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,8077,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,8078,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,8079,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7954,7956,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,7955,7957,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,7962,7964,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,7963,7965,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,7970,7972,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7974,8080,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,7971,7973,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,7975,8081,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8082,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,8083,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,8084,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8085,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8086,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,8087,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,7978,7980,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,7982,8088,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,7979,7981,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,7983,8089,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,8090,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,8091,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,8092,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,8093,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
8094,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8095,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,7986,7988,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,7990,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,7987,7989,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,7991,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,7994,7996,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,7998,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
7995,7997,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,7999,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8002,8004,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8003,8005,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8010,8012,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8011,8013,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,8018,8020,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8022,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,8019,8021,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8023,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8027,
8029,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8031,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8034,8036,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8038,8096,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,8035,8037,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,8039,8097,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,8098,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
8099,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8100,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8101,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8102,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8103,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
8042,8044,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,8046,8104,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8043,8045,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,8047,8105,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8106,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8107,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,8108,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,8109,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,8110,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,8111,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,8114,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,8130,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,8178,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
8119,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,8141,8142,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8143,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8135,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8183,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,8157,8158,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,8159,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8602,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8603,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,8622,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,8653,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8655,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8654,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,8708,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,8713,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,8716,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,8740,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,8742,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,8769,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,8772,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
8775,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8777,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8813,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8802,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8816,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,8817,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,8820,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8821,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8824,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,8825,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,8832,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,8833,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,8928,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,8929,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,8836,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,8837,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
8840,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,8841,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,8930,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,8931,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,8876,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,8877,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,8878,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,8879,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,8938,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,8939,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,8940,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,8941,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,12436,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,12364,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,12366,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
12368,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,12370,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,12372,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,12374,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,12376,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,12378,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,12380,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,12382,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,12384,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,12386,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,12389,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,12391,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,12393,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,12400,12401,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,12403,12404,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,12406,12407,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
12409,12410,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,12412,12413,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,12446,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,12532,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,12460,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,12462,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,12464,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,12466,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,12468,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,12470,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,12472,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,12474,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,12476,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,12478,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,12480,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,12482,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
12485,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,12487,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,12489,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,12496,12497,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,12499,12500,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,12502,12503,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,12505,12506,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,12508,
12509,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,12535,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,12536,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,12537,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,12538,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,12542,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,67017,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
67044,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,69786,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,69788,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,69803,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,69934,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,69935,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,70475,70476,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,70531,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,70533,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,70542,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,70545,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,70599,0,70597,70600,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,70844,70843,70846,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
71098,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,71099,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,71992,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,90401,90403,90405,
90402,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,90406,90408,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
90407,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,90404,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,93545,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,93544,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,93546,
};
enum { SPEC_NSND = 73, SPEC_MAXMAP = 18, SPEC_MAXDEC = 4 };
