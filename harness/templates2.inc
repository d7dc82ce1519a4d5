"xn--\016q\021\021\017.\303\251",
"\303\251.xn--\016\020\017",
"xn--\016\004\017.\303\251",
"xn--\016\005\017.\303\251",
"xn--\016\022\024\017.\303\251",
"xn--\016a\023\017.\303\251",
"xn--\016\340\244\225\027\342\200\215\340\244\225\017.\303\251",
"xn--\016\022\342\200\214\022\017.\303\251",
"xn--\016e\021a\017.\303\251",
"xn--\016xn--\020\017.\303\251",
"xn--\016\021\017.\303\251",
"xn--\016\030\341\206\250\017.\303\251",
"xn--\016\0231\024\017.\303\251",
"xn--\016\003\017.\303\251",
"\013Fa\020",
"\013<\344\270\200\026",
"a.b.c.d.e.f.g.\020.i..j",
"\013da.\020",
"xn--\016\013\036\344\270\200\026\017.\303\251",
"\303\251\013F-\020",
"-.\020.-a.a-.--.ab--cd",
"_ %!\020.@/",
"A\020B.XN--\016\020\017.C",
"x\302\255n--\016\020\017",
"x\357\275\216\357\274\215-\016\020\017",
"\302\255.\020",
"\013\036\303\251\021",
"\013@\303\251.\003",
"\020.\013@\303\274",
"\013xa.\013xb.\004",
"xn--\016\003\017",
"xn--\016\004\017",
"xn--\016\005\017",
"xn--\016q\021\021\017.a",
"A.xn--\016\020\017.B",
"xn--\016e\021\017",
"xn--\016\022\024\017",
"xn--\016a\023\017",
"xn--\016\022\342\200\214\022\017",
"xn--\016\340\244\225\027\342\200\215\340\244\225\017",
"xn--\016\013\036\344\270\200\026\017",
"xn--\016\013Fa\020\017",
"xn--\016\020\017.xn--\016\021\017.xn--\016\020\017",
"\013Fa.xn--\016\020\017",
"XN--\016\020\017.xn--\016\020\017",
"\001xn--\016\020\017",
"xn--\016\020\017\001",
"\001.xn--\016\020\017",
"xn--\016xn--\020\017",
"xn--\016\030\341\206\250\017",
"xn--\016A\020\017",
"xn--\016\020.a\017",
".xn--\016\020\017..",
"\013<.xn--\016\020\017",
"xn--\016\021\017",
"xn--\016\026\013\024\344\270\200\026\017",
"xn--\016\003\003\017",
"xn--\016\004a\017",
"xn--\016\020\021\017.\020",
"xn--\016\022\021\024\017",
"xn--\016\023-\023\017.\303\251",
"xn--\016\035\021\017",
"\035\021\035",
"xn--\016\303\237\035\017.\020",
"xn--\016\004\021\017.\303\251",
"\004\021",
"\032\033\032\033",
"a\025b\025\020",
"\020\013xa\013xb.\020\013\036.\020",
"x",
"n--tda.\303\251",
"xn-",
"-tda.\303\251",
"\013Fa",
"\013<\344\270\200",
"\303\251.a",
"e",
"xn--",
"tda.\303\251",
"\340\244\225\340\245\215",
"\330\247",
".",
