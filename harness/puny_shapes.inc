"****-",
"****-?",
"xn--?",
"xn---??",
"xn---???",
"xn----??",
"n---???",
"xn-??",
"xn-???",
"x---???",
"X*---",
"xn--",
"xn--***",
"*xn---??",
"###6146o",
"##16146o",
"a-###6146o",
"abc-###6146o",
"##16146ofa",
"8016146o##",
"3673678f###q19s",
"3673678f##cq19s",
"a-6757394b4cea###8356v",
"dn32g#",
"###2g",
"a-###3p",
"ab-pf4c###84j",
"###b",
"ab-4ca###fry",
"ab-4ca###d32g",
"ab-4ce##e9f",
"abc-###x46l",
"###42rfb",
"aaaaaaaaaaaaaaaaaaaa-###",
"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa-??",
"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa-###",
"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa-##b",
"abababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababab-##",
"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa-##b",
"***aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa-a7a",
"?bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb-9a",
"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa*aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa-9a",
"ab-koa41cup9p9p9p##",
"plqdefgh##",
"ab-pba4d##0d7d",
"b????",
"abc-?--?",
"a-?-?",
"-???",
"--??",
"a--??",
"**-a",
