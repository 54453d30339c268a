# Compares the stand-in shim/decimal.hh with CPython's decimal module (libmpdec). Not part of any check.
import random,subprocess,decimal as D,os,sys
here=os.path.dirname(os.path.abspath(__file__)); exe="/tmp/decimal_selftest"
src=r'''#include <decimal.hh>
#include <iostream>
int main(){ decimal::context=decimal::IEEEContext(160); decimal::context.prec(38);
  std::string op,a,b; while(std::cin>>op>>a>>b){ decimal::context.clear_status(); decimal::Decimal x{a},y{b},r;
   if(op=="+")r=x+y; else if(op=="-")r=x-y; else if(op=="*")r=x*y; else if(op=="/")r=x/y; else if(op=="%")r=x%y; else if(op=="n")r=-x; else if(op=="r")r=x.reduce(); else if(op=="<"){std::cout<<(x<y)<<"\n";continue;} else if(op=="e"){std::cout<<x.to_eng()<<"\n";continue;} else if(op=="q"){decimal::context.round(MPD_ROUND_DOWN); r=x.rescale(y.exponent());decimal::context.round(MPD_ROUND_HALF_EVEN);}
   std::cout<<r.to_sci()<<" "<<((decimal::context.status()&MPD_Inexact)!=0)<<((decimal::context.status()&(MPD_IEEE_Invalid_operation))!=0)<<((decimal::context.status()&MPD_Overflow)!=0)<<((decimal::context.status()&MPD_Division_by_zero)!=0)<<"\n"; } }'''
open(exe+".cpp","w").write(src)
subprocess.run(["g++","-std=c++17","-O1","-I",here+"/../shim",exe+".cpp","-o",exe],check=True)
D.setcontext(D.Context(prec=38,Emax=24576,Emin=-24575,rounding=D.ROUND_HALF_EVEN,traps=[],clamp=1,capitals=1))
R=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 5)
def num():
    k=R.random()
    if k<.02: return R.choice(["NaN","Infinity","-Infinity","0","-0","0E+5","-0E-9"])
    n=R.choice([1,2,5,18,37,38,39])
    d=R.choice(["-",""])+str(R.randrange(10**n))
    if R.random()<.3: d=d.rstrip('0') or '0'
    if R.random()<.2: d=R.choice(["1","-1","5","25","10","100"])
    if d=='-':d='-0'
    e=R.choice([0,0,R.randint(-40,40),R.randint(-5,5),R.randint(-24600,24600)if R.random()<.2 else 1])
    return d+"E%+d"%e
big=D.Context(prec=10**6,Emax=10**9,Emin=-10**9,rounding=D.ROUND_DOWN,traps=[])
lines=[];exp=[]
for _ in range(60000):
    op=R.choice("+-*/%nr<eq");a,b=num(),num()
    c=D.getcontext();x,y=D.Decimal(a),D.Decimal(b)
    c.clear_flags(); big.clear_flags()
    if op=='q':
        if not x.is_finite() or not y.is_finite(): continue
        if abs(x.adjusted()-y.as_tuple().exponent)>2000: continue
        r=x.quantize(y,context=big); s="%s %d000"%(r,bool(big.flags[D.Inexact]))
    elif op=='<':
        s=str(int(x<y)) if not (x.is_nan() or y.is_nan()) else '0'
    elif op=='e': s=x.to_eng_string()
    else:
        r={'+':lambda:x+y,'-':lambda:x-y,'*':lambda:x*y,'/':lambda:x/y,'%':lambda:x%y,'n':lambda:-x,'r':lambda:x.normalize()}[op]()
        f=c.flags
        s="%s %d%d%d%d"%(r,f[D.Inexact],f[D.InvalidOperation],f[D.Overflow],f[D.DivisionByZero])
    lines.append(f"{op} {a} {b}");exp.append(s)
out=subprocess.run([exe],input="\n".join(lines)+"\n",capture_output=True,text=True)
o=out.stdout.split("\n")
bad=[(l,e,g) for l,e,g in zip(lines,exp,o) if e!=g]
print(len(lines),"compared",len(bad),"different",out.stderr[:200]); [print(b) for b in bad[:12]]
