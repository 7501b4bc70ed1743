from fractions import Fraction as F
def conv(x):
    # convergents of x
    h0,h1,k0,k1=0,1,1,0
    while True:
        a=x.numerator//x.denominator
        h0,h1=h1,a*h1+h0; k0,k1=k1,a*k1+k0
        yield h1,k1
        x-=a
        if x==0: return
        x=1/x
def find(P,ns,per):
    out=[]
    for n in ns:
        c=[]
        t=F(10)**n
        for q in range(int(n*3.3219)-30,int(n*3.3219)+30):
            # d*10^n ~ m*2^q ; d/m ~ 2^q/10^n
            x=F(2)**q/t
            for d,m in conv(x):
                if m.bit_length()>P+1: break
                if d and m.bit_length()<P-1 and m%2:
                    # a multiple of it in the middle of two values
                    k=(2**P//m+1)|1; d,m=d*k,m*k
                if d and m.bit_length()==P+1 and m%2 or d and m.bit_length()==P:
                    e=abs(d*t/(m*F(2)**q)-1)
                    if e>0 and d<10**38: c.append((e,d,n,m%2 and m.bit_length()==P+1))
        seen=set();c.sort()
        k=0
        for e,d,n_,tie in c:
            if d in seen: continue
            seen.add(d); out.append((d,n,float(e),tie)); k+=1
            if k==per: break
    return out
import math
for nm,P,per in [('X87',64,2),('Quad',113,2),('Double',53,1),('Single',24,1)]:
    for ns in [(25,57,93,131),(-25,-57,-93,-128)]:
        r=find(P,ns,per)
        print(nm,[(d,n,round(math.log2(e)),bool(t)) for d,n,e,t in r])
print()
def tab(P,ns,per): return [(d,n) for d,n,e,t in find(P,ns,per)]
T={}
def some(P,ns,k,per=2):
    # both kinds of boundary, spread over the exponents
    r=[(d,n,t) for d,n,e,t in find(P,ns,per)]
    return [(d,n) for d,n,t in r][:k]
for P,pi,ni,k in [(8,(10,20,25),(-10,-25,-40),4),(11,(),(-5,-12,-20),4),(24,(8,15,20),(-25,-40,-55),4),(53,(25,57,85,110,131),(-25,-57,-93,-128),4),
                  (64,(25,55,61,70,84,97,109,122,131,140,147),(-25,-55,-64,-79,-93,-107,-118,-128),12),(113,(30,55,61,70,84,97,109,122,131,140,147),(-25,-55,-64,-79,-93,-107,-118,-128),12)]:
    T[P]=(some(P,pi,k,1 if P>100 or P==64 else 1),some(P,ni,k,1))
def arm(i):
    return '\n'.join('        %d => &[%s],'%(P,', '.join('(%d, %d)'%x for x in T[P][i])) for P in T if T[P][i])
open('/tmp/hard.rs','w').write('''/// digits and power of ten of decimal numbers very close to the middle of two values or to a value:
/// the products of convergents, found by tools/hard.py
fn hard<T: Fmt>(fraction: bool) -> &'static [(u128, i32)] {
    if fraction {
        return match T::P {
%s
        _ => &[],
        };
    }
    match T::P {
%s
        _ => &[],
    }
}
/// such literals, and with another last digit
fn d_hard<T: Fmt>(fraction: bool) {
    let r = any_round();
    let list = hard::<T>(fraction);
    let i = split(any_in("case", 0, 11)) as usize;
    assume(i < list.len());
    let (digits, e) = list[i];
    let mut t = Text::new();
    let neg = any_neg("text.sign");
    if neg {
        t.c(b'-');
    }
    let mut ds = [0u8; 40];
    let mut n = 0;
    let mut m = digits / 10;
    while m > 0 {
        ds[n] = (m %% 10) as u8;
        m /= 10;
        n += 1;
    }
    for i in 0..n {
        t.c(b'0' + ds[n - 1 - i]);
    }
    // the last digit, one less or one more
    let d = (digits + 9 + any_in("d", 0, 2)) %% 10;
    t.c(b'0' + d as u8);
    t.c(b'e');
    if e < 0 {
        t.c(b'-');
    }
    let k = e.unsigned_abs() as usize;
    t.c(b'0' + (k / 100) as u8);
    t.c(b'0' + (k / 10 %% 10) as u8);
    t.c(b'0' + (k %% 10) as u8);
    let v = z_add(z_mul(z(digits / 10), z(10)), z(d));
    join();
    let got = T::F::from_str_r(t.str(), r);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    if fraction {
        return is_quotient::<T>(got, neg, v, k, r);
    }
    let mut v = v;
    for _ in 0..k {
        v = z_mul(v, z(5));
    }
    result::<T>(got, round::<T>(neg, v, k as i32, r), "value of the literal");
}
fn i_hard<T: Fmt>() {
    d_hard::<T>(false)
}
fn f_hard<T: Fmt>() {
    d_hard::<T>(true)
}
'''%(arm(1),arm(0)))
