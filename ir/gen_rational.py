#!/usr/bin/env python3
"""Copy num-rational from the cargo cache to DEST, making reduction to lowest terms lazy: fractions are reduced when
somebody looks at numerator and denominator, so that arithmetic on symbolic values needs no symbolic gcd."""
import sys, os, re, shutil, glob
dest = sys.argv[1]
src = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/num-rational-0.4.2')))[0]
if os.path.isdir(dest):
    shutil.rmtree(dest)
shutil.copytree(src, dest)
p = dest + '/src/lib.rs'
s = open(p).read()
k = s.index('#[cfg(test)]\nmod test')
s = s[:k]
def body(sig, new, start=0):
    global s
    i = s.index(sig, start)
    j = s.index('{', i + len(sig) - 1 if sig.endswith('{') else i + len(sig))
    d = 0
    e = j
    while True:
        if s[e] == '{': d += 1
        if s[e] == '}':
            d -= 1
            if d == 0: break
        e += 1
    s = s[:j] + '{' + new + '}' + s[e + 1:]
body('fn reduce(&mut self)', 'crate::lz::reduce(self)')
body('pub fn is_integer(&self) -> bool', 'if self.raw { self.denom.is_one() } else { self.numer.is_multiple_of(&self.denom) }')
# what is made by new_raw outside of this crate is not reduced until it is calculated with
s = s.replace('Ratio::new_raw(', 'Ratio::of_parts(').replace('Self::new_raw(', 'Self::of_parts(')
s, n = re.subn(r'(pub struct Ratio<T> \{(?:\s*///[^\n]*)*\s*numer: T,(?:\s*///[^\n]*)*\s*denom: T,\n)', r'\1    raw: bool,\n', s)
assert n == 1
i = s.index('pub const fn new_raw(')
body('pub const fn new_raw(numer: T, denom: T) -> Ratio<T>', ' Ratio { numer, denom, raw: true } }\n    const fn of_parts(numer: T, denom: T) -> Ratio<T> { Ratio { numer, denom, raw: false } ', i)
assert len(re.findall(r'Ratio \{ numer, denom \}', s)) == 0
for sig in ('fn into_recip(self) -> Ratio<T>', 'pub fn fract(&self) -> Ratio<T>'):
    i = s.index(sig)
    j = s.index('{', i) + 1
    name = sig[:sig.index('(')].split()[-1]
    s = s[:j] + ' let raw = self.raw; let mut r = self.__parts_%s(); r.raw = raw; r }\n    ' % name + sig.replace('pub ', '').replace('fn ', 'fn __parts_') + ' {' + s[j:]
i = s.index('fn neg(self) -> Ratio<T>')
body('fn neg(self) -> Ratio<T>', ' Ratio { numer: -self.numer, denom: self.denom, raw: self.raw } ', i)
s = s.replace('pub const fn numer(&self)', 'pub fn numer(&self)').replace('pub const fn denom(&self)', 'pub fn denom(&self)')
body('pub fn numer(&self) -> &T', 'crate::lz::canon(self); &self.numer')
body('pub fn denom(&self) -> &T', 'crate::lz::canon(self); &self.denom')
body('pub fn into_raw(self) -> (T, T)', 'crate::lz::canon(&self); (self.numer, self.denom)')
body('fn from(val: Ratio<T>) -> Self', 'crate::lz::canon(&val); (val.numer, val.denom)')
body('fn cmp(&self, other: &Self) -> cmp::Ordering', 'crate::lz::cmp(self, other)')
body('fn eq(&self, other: &Self) -> bool', 'crate::lz::eq(self, other)')
body('fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering>', '''Some(self.cmp(other)) }
    fn lt(&self, other: &Self) -> bool { !crate::lz::le(other, self) }
    fn gt(&self, other: &Self) -> bool { !crate::lz::le(self, other) }
    fn ge(&self, other: &Self) -> bool { crate::lz::le(other, self) }
    fn le(&self, other: &Self) -> bool { crate::lz::le(self, other) ''')
body('fn hash<H: Hasher>(&self, state: &mut H)', ' let _ = state; ')
s = re.sub(r'([\w.]+(?:\.clone\(\))?)\.gcd\(&([\w.]+)\)', r'crate::lz::gcd(&\1, &\2)', s)
s = re.sub(r'([\w.]+)\.lcm\(&([\w.]+)\)', r'crate::lz::lcm(&\1, &\2)', s)
# lcm / d with lcm = lcm(d, e): e / gcd, which is found without dividing symbolic numbers
s = re.sub(r'let lcm = crate::lz::lcm\(&self\.denom, &(\w+)\.denom\);', r'let lcm = crate::lz::lcm(&self.denom, &\1.denom); let (cof_l, cof_r) = crate::lz::cofactors(&self.denom, &\1.denom);', s)
s = re.sub(r'\(lcm\.clone\(\) / self\.denom(\.clone\(\))?\)(?!\.checked)', 'cof_l', s)
s = re.sub(r'\(lcm\.clone\(\) / (other|rhs)\.denom(\.clone\(\))?\)(?!\.checked)', 'cof_r', s)
s = s.replace('let pre_pad = if self.denom.is_one()', 'crate::lz::canon(self); let pre_pad = if self.denom.is_one()')
s += '''
mod lz {
    use crate::Ratio;
    use core::cmp::Ordering;
    use num_bigint::BigInt;
    use num_integer::Integer;

    fn is_big<T>() -> bool {
        core::mem::size_of::<T>() == core::mem::size_of::<BigInt>() && core::any::type_name::<T>() == core::any::type_name::<BigInt>()
    }
    fn big<T>(x: &T) -> &BigInt {
        unsafe { &*(x as *const T as *const BigInt) }
    }
    fn back<T>(x: BigInt) -> T {
        let x = core::mem::ManuallyDrop::new(x);
        unsafe { core::ptr::read(&*x as *const BigInt as *const T) }
    }
    pub fn gcd<T: Clone + Integer>(a: &T, b: &T) -> T {
        if is_big::<T>() {
            return back(big(a).__verif_lgcd(big(b)));
        }
        a.gcd(b)
    }
    pub fn lcm<T: Clone + Integer>(a: &T, b: &T) -> T {
        if is_big::<T>() {
            if a == b {
                return a.clone();
            }
            let g = big(a).__verif_lgcd(big(b));
            return back(big(a).__verif_exact(&g) * big(b));
        }
        a.lcm(b)
    }
    /// (lcm(a, b) / a, lcm(a, b) / b)
    pub fn cofactors<T: Clone + Integer>(a: &T, b: &T) -> (T, T) {
        if is_big::<T>() {
            if a == b {
                return (back(BigInt::from(1)), back(BigInt::from(1)));
            }
            let g = big(a).__verif_lgcd(big(b));
            return (back(big(b).__verif_exact(&g)), back(big(a).__verif_exact(&g)));
        }
        let l = a.lcm(b);
        (l.clone() / a.clone(), l / b.clone())
    }
    pub fn reduce<T: Clone + Integer>(r: &mut Ratio<T>) {
        if r.denom.is_zero() {
            panic!("denominator == 0");
        }
        if !is_big::<T>() {
            let g = r.numer.gcd(&r.denom);
            r.numer = r.numer.clone() / g.clone();
            r.denom = r.denom.clone() / g;
        } else {
            let (n, d) = big(&r.numer).__verif_cancel(big(&r.denom));
            r.numer = back(n);
            r.denom = back(d);
        }
        r.raw = false;
        if r.denom < T::zero() {
            r.numer = T::zero() - r.numer.clone();
            r.denom = T::zero() - r.denom.clone();
        }
    }
    /// lowest terms, in place
    pub fn canon<T>(r: &Ratio<T>) {
        if r.raw || !is_big::<T>() {
            return;
        }
        let (n, d) = (big(&r.numer), big(&r.denom));
        if d.__verif_is(1) {
            return;
        }
        if n.__verif_is(0) {
            d.__verif_set(BigInt::from(1));
            return;
        }
        let g = n.__verif_gcd(d);
        n.__verif_set(n.__verif_exact(&g));
        d.__verif_set(d.__verif_exact(&g));
    }
    pub fn cmp<T: Clone + Integer>(a: &Ratio<T>, b: &Ratio<T>) -> Ordering {
        if eq(a, b) {
            Ordering::Equal
        } else if le(a, b) {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    /// denominators are positive
    pub fn le<T: Clone + Integer>(a: &Ratio<T>, b: &Ratio<T>) -> bool {
        if is_big::<T>() && big(&a.denom).__verif_same(big(&b.denom)) {
            return a.numer <= b.numer;
        }
        a.numer.clone() * b.denom.clone() <= b.numer.clone() * a.denom.clone()
    }
    pub fn eq<T: Clone + Integer>(a: &Ratio<T>, b: &Ratio<T>) -> bool {
        if is_big::<T>() && big(&a.denom).__verif_same(big(&b.denom)) {
            return a.numer == b.numer;
        }
        a.numer.clone() * b.denom.clone() == b.numer.clone() * a.denom.clone()
    }
}
'''
open(p, 'w').write(s)
p = dest + '/src/pow.rs'
s = open(p).read()
t = 'Ratio::new_raw(self.numer.pow(expon), self.denom.pow(expon))'
assert s.count(t) == 1 and s.count('new_raw') == 1
open(p, 'w').write(s.replace(t, 'Ratio { raw: self.raw, numer: self.numer.pow(expon), denom: self.denom.pow(expon) }'))
