import random,sys,subprocess
seed=int(sys.argv[1]); K=int(sys.argv[2]); R=random.Random(seed)
TY=['uint8_t','int8_t','uint16_t','int16_t','uint32_t','int32_t','uint64_t','int64_t']
def fn(k):
    L=[]; vs=[]
    L.append('static uint64_t f%d(uint32_t in) {'%k)
    L.append(' uint32_t x = in & 31, y = in >> 5 & 7; uint32_t T[16]; for (int i = 0; i < 16; i++) T[i] = i * %du + %du;'%(R.randrange(1,1<<31),R.randrange(1<<31)))
    for i in range(3):
        t=R.choice(TY); L.append(' %s v%d = (%s)(%s * %dull + %dull);'%(t,i,t,R.choice(['x','y','in']),R.choice([1,3,255,65537,1<<31,R.randrange(1<<62)]),R.choice([0,1,R.randrange(1<<62),(1<<64)-R.randrange(1,40)]))); vs.append((i,t))
    n=3
    def ex(d=0):
        c=R.randrange(9)
        if c<4 or d>2: return '(%s)v%d'%(R.choice(TY),R.randrange(n)) if R.random()<.5 else 'v%d'%R.randrange(n)
        if c==4: return str(R.choice([0,1,2,3,7,35,36,700,R.randrange(1<<31)]))+'u'
        o=R.choice(['+','-','*','&','|','^','/','%','<<','>>','<','==','?'])
        a,b=ex(d+1),ex(d+1)
        u=R.choice(['uint32_t','uint64_t','uint16_t'])
        if o in '/%':
            if R.random()<.5:
                s=R.choice(['int32_t','int64_t'])
                return '((uint64_t)sdiv_%s((%s)(%s),(%s)(%s),%d))'%(s,s,a,s,b,o=='%')
            return '((%s)(%s) %s (%s)((%s)(%s) | 1))'%(u,a,o,u,u,b)
        if o in('<<','>>'): return '((%s)(%s) %s ((%s) & 15))'%(R.choice(['uint32_t','uint64_t','int64_t' if o=='>>' else 'uint64_t']),a,o,b)
        if o in('<','=='): return '((%s)(%s) %s (%s)(%s))'%((lambda t:(t,a,o,t,b))(R.choice(TY)))
        if o=='?': return '((%s) ? (uint64_t)(%s) : (uint64_t)(%s))'%(ex(d+1),a,b)
        return '((%s)(%s) %s (%s)(%s))'%(u if u!='uint16_t' else 'uint32_t',a,o,u if u!='uint16_t' else 'uint32_t',b)
    def st(ind,depth):
        nonlocal n
        c=R.randrange(10); sp=' '*ind
        if c<3: L.append('%sv%d = (decltype(v%d))(%s);'%(sp,R.randrange(n) if False else (i:=R.randrange(n)),i,ex()))
        elif c==3: L.append('%sT[(%s) & 15] = (uint32_t)(%s);'%(sp,ex(),ex()))
        elif c==4: L.append('%sv%d = (decltype(v%d))T[(%s) & 15];'%(sp,(i:=R.randrange(n)),i,ex()))
        elif c<7 and depth<3:
            L.append('%sif ((%s) %s (%s)) {'%(sp,ex(),R.choice(['<','==','!=','>']),ex())); 
            for _ in range(R.randrange(1,3)): st(ind+1,depth+1)
            if R.random()<.5:
                L.append(sp+'} else {')
                for _ in range(R.randrange(1,3)): st(ind+1,depth+1)
            L.append(sp+'}')
        elif c==7 and depth<2:
            L.append('%sfor (uint32_t q%d = 0; q%d < ((%s) & 3); q%d++) {'%(sp,len(L),len(L),ex(),len(L)))
            for _ in range(R.randrange(1,3)): st(ind+1,depth+1)
            L.append(sp+'}')
        elif c==8: L.append('%sif ((%s) > (%s)) std::swap(T[(%s) & 15], T[%d]);'%(sp,ex(),ex(),ex(),R.randrange(16)))
        else: L.append('%sv%d ^= (decltype(v%d))(%s);'%(sp,(i:=R.randrange(n)),i,ex()))
    for _ in range(R.randrange(4,10)): st(1,0)
    L.append(' uint64_t h = 0; for (int i = 0; i < 16; i++) h = h * 31 + T[i];')
    L.append(' return h ^ ((uint64_t)v0 * 7 + (uint64_t)v1 * 5 + (uint64_t)v2); }')
    return '\n'.join(L)
src='''#include <cstdint>
#include <utility>
#include <cstdio>
static int64_t sdiv_int64_t(int64_t a,int64_t b,bool r){ if(b==0||b==-1) return a; return r? a%b : a/b; }
static int32_t sdiv_int32_t(int32_t a,int32_t b,bool r){ if(b==0||b==-1) return a; return r? a%b : a/b; }
'''+'\n'.join(fn(k) for k in range(K))
nat=src+'\nint main(){\n'+''.join('printf("static const uint64_t R%d[256]={");for(int i=0;i<256;i++)printf("0x%%llxull,",(unsigned long long)f%d(i));puts("};");\n'%(k,k) for k in range(K))+'}\n'
open('/tmp/fz/n.cpp','w').write(nat)
subprocess.check_call('clang++-18 -std=c++20 -O1 -fwrapv -w /tmp/fz/n.cpp -o /tmp/fz/n',shell=True)
tab=subprocess.check_output('/tmp/fz/n',text=True)
h='#include "common.h"\n'+src+tab+''.join('extern "C" void g%d() { uint32_t in = sym_u8("in"); uint64_t r = f%d(in); sym_check(r == R%d[in], "eq"); }\n'%(k,k,k) for k in range(K))
open('/tmp/fz/h_fz.cpp','w').write(h)
