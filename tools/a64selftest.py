"""Compares the A64 interpreter with native execution of the same C functions (clang -O1/-O2/-O3/-Os for aarch64 against g++)."""
import os, random, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, field
C = r'''
typedef unsigned long u64; typedef long i64; typedef unsigned u32; typedef int i32; typedef unsigned __int128 u128; typedef __int128 i128;
#define F(n) u64 n(u64 a, u64 b, u64 c)
F(f0){u128 p=(u128)a*b+c; return (u64)(p>>64)^(u64)p;}
F(f1){u64 r=0; for(int i=0;i<70;i++){ if(a&1) r+=b; a=(a>>1)|(a<<63); b=b*3+c; r^=r>>7; } return r;}
F(f2){i64 x=a,y=b; return x<y? x-y : (x>(i64)c? (u64)(x/(y|1)) : a%(c|1));}
F(f3){u32 x=a,y=b; i32 z=c; x=(x<<5)|(x>>27); return (u64)x*y+ (u64)(i64)z - (u32)(x>>(y&31));}
F(f4){u128 x=((u128)a<<64)|b, y=((u128)c<<64)|a; x-=y; x<<=(c&63); return (u64)(x>>64)+(u64)x*7;}
F(f5){u64 t[8]; for(int i=0;i<8;i++) t[i]=a*i^b; unsigned char*p=(unsigned char*)t; u64 s=0; for(int i=0;i<64;i++) s=s*31+p[(i*(c|1))&63]; short*q=(short*)t; for(int i=0;i<32;i++) s+=q[i]; return s;}
F(f6){return __builtin_clzll(a|1)+__builtin_ctzll(b|8)*100+__builtin_bswap64(c)+__builtin_bswap32((u32)a);}
F(f7){i32 x=a,y=b; return x<y? (x==-y? 5: ~x) : (y>=0 && c>a? -x : x+1);}
F(f8){u64 q[4]={a,b,c,a^b},r[4],d[4]={c,a,b,~a}; u128 k=0; for(int i=0;i<4;i++){k+=(u128)q[i]+d[i]; r[i]=(u64)k; k>>=64;} i128 z=0; for(int i=0;i<4;i++){z+=(i128)r[i]-q[i]*2; r[i]=(u64)z; z>>=64;} return r[0]^r[1]*3^r[2]*5^r[3]*7^(u64)k^(u64)z;}
F(f9){switch(a&7){case 0:return b;case 1:return c*b;case 2:return b-c;case 3:return b>>(c&63);case 4:return (i64)b>>(c&63);case 5:return b<<(c&63);case 6:return f5(b,c,a);default:return f1(c,b,a);}}
F(f10){return (a&0xff00ff00ff00ff00ull)|(b&0x3ffffffffffull)<<7|(c^0x5555555555555555ull)|((u32)a&~(u32)b);}
F(f11){i128 p=(i128)(i64)a*(i64)b; return (u64)(p>>64)-(i64)(i32)c*(i64)(i32)b+((i64)(signed char)a)*(short)c;}
'''
MAIN = r'''
#include <cstdio>
#include <cstdlib>
#include "a64emu.h"
#include "arm_image.h"
#include <sys/mman.h>
#include <cstring>
extern "C" { %s }
typedef unsigned long (*FN)(unsigned long,unsigned long,unsigned long);
int main(){ size_t sz=(sizeof arm_image+8191)&~4095UL; void*p=mmap((void*)VP_ARM_BASE,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0); memcpy(p,arm_image,sizeof arm_image);
 FN fn[]={%s}; long bad=0,n=0; srandom(7); for(int k=0;k<%d;k++){ char nm[9]; sprintf(nm,"f%%d",k); unsigned long pc=0; for(auto&s:arm_syms) if(!strcmp(s.n,nm)) pc=s.a;
  for(int t=0;t<3000;t++){ auto r=[&]{unsigned long v=((unsigned long)random()<<33)^((unsigned long)random()<<11)^random(); switch(random()%%6){case 0:return v>>(random()%%64);case 1:return 0UL-(v>>(random()%%64));case 2:return (unsigned long)(random()%%4);default:return v;}};
   unsigned long a=r(),b=r(),c=r(); unsigned bd=0; unsigned long e=a64::run(pc,a,b,c,0,0,&bd), h=fn[k](a,b,c); n++; if(e!=h||(bd&~a64::X18)){ if(bad++<5) printf("f%%d(%%lx,%%lx,%%lx): emu %%lx host %%lx bad %%u\n",k,a,b,c,e,h,bd);} } }
 printf("%%ld runs, %%ld differences\n",n,bad); return bad!=0; }
'''
n = C.count("F(f")
rc = 0
for opt in ("-O0", "-O1", "-O2", "-O3", "-Os"):
    with tempfile.TemporaryDirectory() as d:
        open(d + "/t.c", "w").write(C)
        vp.sh(["clang", "--target=aarch64-linux-gnu", "-ffreestanding", "-mgeneral-regs-only", "-fno-builtin", opt, "-S", d + "/t.c", "-o", d + "/t.s"])
        field.arm_image(d + "/t.s", d)
        open(d + "/m.cpp", "w").write(MAIN % (" ".join("unsigned long f%d(unsigned long,unsigned long,unsigned long);" % i for i in range(n)), ",".join("f%d" % i for i in range(n)), n))
        vp.sh(["gcc", "-w", "-O1", "-fwrapv", "-c", d + "/t.c", "-o", d + "/t.o"])
        vp.sh(["g++", "-w", "-O1", "-I", d, "-I", vp.CPP, d + "/m.cpp", d + "/t.o", vp.CPP + "/a64emu.cpp", "-o", d + "/m"])
        p = subprocess.run([d + "/m"], stdout=subprocess.PIPE); print(opt, p.stdout.decode().strip()); rc |= p.returncode
sys.exit(rc)
