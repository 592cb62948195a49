"""Summaries of the standard-library (and regex/anyhow/...) functions the repository uses."""
import re
from terms import *

M = {}          # exact path / rpath -> handler
R = []          # (regex on path or rpath, handler)
DBG = None


def m(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def rx(p):
    def d(f):
        R.append((re.compile(p), f))
        return f
    return d


_cache = {}


def lookup(eng, c, body, args, st):
    ck = (c['fn'], c['path'], c.get('rpath'), c.get('self'))
    if ck in _cache:
        return _cache[ck]
    r = None
    for n in (c.get('rpath'), c['path']):
        if n and n in M:
            r = M[n]
            break
    if r is None:
        for p, f in R:
            if (c.get('rpath') and p.search(c['rpath'])) or p.search(c['path']) or (c['fn'] and p.search(c['fn'])):
                r = f
                break
    if r is not None and body is not None and body.get('local'):
        r = None                      # the repository's own code is always analysed, not modelled
    if r is None and c['path'] in TRAIT and not (body is not None and body.get('local')):
        r = TRAIT[c['path']]
    _cache[ck] = r
    return r


TRAIT = {}


def tr(*names):
    def d(f):
        for n in names:
            TRAIT[n] = f
        return f
    return d


def ret(v, s):
    return [('ret', v, s)]


def panic(what, s):
    return [('panic', N('panic', what, ''), s)]


# ------------------------------------------------------------------ helpers
def is_ref_ty(e, t):
    return bool(t) and e.db.ty(t).get('k') in ('ref', 'ptr')


def lv(e, s, v):
    """location a reference argument points at (following & of &)"""
    return e.target(v)


def strv(e, s, v):
    return e.sval(v, s)


def mkref(loc, proj):
    if not proj and loc[0] == 'P':
        return loc[1]
    return N('ref', loc, tuple(proj))


def kref(v):
    return N('ref', N('K', v), ())


def fork(e, s, c):
    """[(truth, state)] for a condition"""
    out = []
    s2 = s.copy()
    if s2.assume(c, True):
        out.append((True, s2))
    if s.assume(c, False):
        out.append((False, s))
    return out


def inner(e, s, v):
    """the pointer arg may be & of & ...: return (loc, proj) of the innermost non reference"""
    loc, proj = e.target(v)
    for _ in range(5):
        x = e.load(s, loc, proj)
        if x.t[0] in ('ref', 'bptr'):
            loc, proj = e.target(x)
            continue
        if x.t[0] == 'box' or x.t[0] == 'rc':
            loc, proj = x[1], ()
            continue
        t = e.val_ty(x)
        d = e.db.ty(t) if t else {}
        if d.get('k') in ('ref',) or (d.get('k') == 'adt' and d['adt'] in ('alloc::boxed::Box', 'alloc::rcs::rc::Rc')):
            loc, proj = e.target(x)
            continue
        return loc, proj
    return loc, proj


# ------------------------------------------------------------------ arithmetic traits
OPS = {'Add': 'Add', 'Sub': 'Sub', 'Mul': 'Mul', 'Div': 'Div', 'Rem': 'Rem'}


@rx(r'^<&?(mut )?(f64|f32|usize|u32|i32|u64|i64|isize|u8) as core::ops::arith::(Add|Sub|Mul|Div|Rem)(<.*>)?>::|core::ops::arith::(Add|Sub|Mul|Div|Rem)(<.*>)? for &?(f64|usize|u32|i32)')
def arith(e, c, a, tys, dty, s, site):
    op = re.search(r'::(Add|Sub|Mul|Div|Rem)::', c['path'] + '::').group(1)
    x, y = e.sval(a[0], s), e.sval(a[1], s)
    t = re.search(r'f64|f32|usize|u32|i32|u64|i64|isize|u8', c.get('self') or c['rpath']).group(0)
    return ret(e.fop(op, x, y) if t[0] == 'f' else e.binop(op, x, y, t, s), s)


@rx(r'^<(f64|usize|u32|i32) as core::ops::arith::(Add|Sub|Mul|Div|Rem)Assign(<.*>)?>::')
def arith_assign(e, c, a, tys, dty, s, site):
    op = re.search(r'(Add|Sub|Mul|Div|Rem)Assign', c['path']).group(1)
    loc, proj = e.target(a[0])
    x = e.load(s, loc, proj)
    y = e.sval(a[1], s)
    t = re.search(r'f64|usize|u32|i32', c.get('self') or c['rpath']).group(0)
    e.store(s, loc, proj, e.fop(op, x, y) if t[0] == 'f' else e.binop(op, x, y, t, s))
    return ret(UNIT, s)


@rx(r'^<&?(f64|f32|i32|isize) as core::ops::arith::Neg>::')
def fneg(e, c, a, tys, dty, s, site):
    x = e.sval(a[0], s)
    if 'f' not in (c.get('self') or 'f64'):
        return ret(pneg(x), s)
    return ret(cf(-x[2]) if isn(x, 'c') else N('fneg', x), s)


@rx(r'^<f64 as num_traits::identities::Zero>::zero$')
def fzero(e, c, a, tys, dty, s, site): return ret(cf(0.0), s)


@rx(r'^<f64 as num_traits::identities::Zero>::is_zero$')
def fisz(e, c, a, tys, dty, s, site): return ret(e.fop('Eq', e.sval(a[0], s), cf(0.0)), s)


@rx(r'^<f64 as num_traits::identities::One>::one$')
def fone(e, c, a, tys, dty, s, site): return ret(cf(1.0), s)


@rx(r'^<(usize|u32|i32|f64|bool|u8) as core::default::Default>::default')
def defl(e, c, a, tys, dty, s, site):
    t = c['self'] or dty
    return ret(cf(0.0) if t == 'f64' else FALSE if t == 'bool' else ci(0), s)


@rx(r'(std|core)::(f64|num)::<impl f64>::(\w+)$')
def fmeth(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    x = [e.sval(v, s) for v in a]
    if n == 'powi' and isn(x[1], 'c'):
        k = x[1][2]
        if 1 <= k <= 4:
            r = x[0]
            for _ in range(k - 1):
                r = e.fop('Mul', r, x[0])
            return ret(r, s)
    if n == 'mul_add':
        return ret(e.fop('Add', e.fop('Mul', x[0], x[1]), x[2]), s)
    if n == 'recip':
        return ret(e.fop('Div', cf(1.0), x[0]), s)
    if n == 'powf' and isn(x[1], 'c') and x[1][2] == 0.5:
        return ret(N('ff', 'sqrt', x[0]), s)
    if n == 'exp' or n == 'powf' and isn(x[0], 'c') and abs(x[0][2] - 2.718281828459045) < 1e-12:
        return ret(N('ff', 'exp', x[-1]), s)
    if n == 'hypot':
        return None
    return ret(N('ff', n, *x), s)


@rx(r'^<(f64|usize|i32|u32|u8|bool|char) as core::cmp::Partial(Eq|Ord)>::(eq|ne|lt|le|gt|ge)$|cmp::impls::<impl core::cmp::Partial(Eq|Ord) for (f64|usize|i32|u32|u8|bool|char)>::(eq|ne|lt|le|gt|ge)$')
def prim_cmp(e, c, a, tys, dty, s, site):
    n = (c['rpath'] or c['path']).split('::')[-1]
    t = re.search(r'f64|usize|i32|u32|u8|bool|char', c.get('self') or c['rpath']).group(0)
    return ret(e.binop(n.capitalize(), e.sval(a[0], s), e.sval(a[1], s), t, s), s)


@rx(r'cmp::impls::<impl core::cmp::PartialOrd(<&B>)? for &A>::(lt|le|gt|ge)$|cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::(eq|ne)$')
def ref_cmp(e, c, a, tys, dty, s, site):
    x, y = e.sval(a[0], s), e.sval(a[1], s)
    n = c['path'].split('::')[-1]
    st = c.get('self') or ''
    b = st.lstrip('&').strip()
    if b in ('f64', 'usize', 'i32', 'u32', 'u8', 'bool', 'char'):
        return ret(e.binop(n.capitalize(), x, y, b, s), s)
    if b in ('str', 'alloc::string::String') and n in ('eq', 'ne'):
        return ret(streq(x, y) if n == 'eq' else neg(streq(x, y)), s)
    return None


def streq(x, y):
    if x is y:
        return TRUE
    if isn(x, 'c') and isn(y, 'c'):
        return cb(x[2] == y[2])
    return N('seqeq', *sorted((x, y), key=lambda q: q.id))


SEQ = re.compile(r'^&*(mut )?(alloc::vec::Vec<|\[|&)*(f64|f32|usize|u32|i32|u8|u64|i64|bool|char|alloc::string::String|&?str)[\]>]*(; [0-9]+\])*$')


@rx(r'^alloc::vec::partial_eq::<impl core::cmp::PartialEq.* for .*>::(eq|ne)$|^core::(slice::cmp|array::equality)::<impl core::cmp::PartialEq.* for .*>::(eq|ne)$')
def vec_eq(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    if not all(t and SEQ.match(t) for t in tys):
        return None
    x, y = e.sval(a[0], s), e.sval(a[1], s)
    # not the same as itself when it holds a NaN
    r = N('seqeq', *sorted((x, y), key=lambda q: q.id)) if any('f64' in t or 'f32' in t for t in tys) else streq(x, y)
    return ret(r if n == 'eq' else neg(r), s)


@rx(r'^<(alloc::string::String|&?str|alloc::borrow::Cow.*) as core::cmp::PartialEq(<.*>)?>::(eq|ne)$|core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)|alloc::string::<impl core::cmp::PartialEq<.*>::(eq|ne)$|core::cmp::PartialEq<.*(str|String)> for .*(str|String).*>::(eq|ne)$')
def str_eq(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    r = streq(e.sval(a[0], s), e.sval(a[1], s))
    return ret(r if n == 'eq' else neg(r), s)


INTS = 'usize|u32|i32|u64|i64|isize|u8|u16|i8|i16|u128|i128'


@rx(r'^<(alloc::string::String|str) as core::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp)$|^core::str::traits::<impl core::cmp::(Ord|PartialOrd) for str>::(cmp|partial_cmp)$')
def str_cmp(e, c, a, tys, dty, s, site):
    r = N('strcmp', *[e.deep(e.sval(x, s), s) for x in a])
    return ret(some(r) if 'partial' in c['path'].split('::')[-1] else r, s)


@rx(r'^core::cmp::Ord::(min|max|clamp|cmp)$|^core::cmp::(min|max)$|^<(%s) as core::cmp::Ord>::(min|max|clamp|cmp)$|cmp::impls::<impl core::cmp::Ord for (%s)>::(min|max|clamp|cmp)$' % (INTS, INTS))
def int_ord(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    ty = (c.get('targs') or [None])[0] or c.get('self') or (tys[0] if tys else '') or ''
    if n == 'cmp':
        ty = tys[0].lstrip('&').strip() if tys else ''
    if ty not in INTS.split('|'):
        ty = tys[0].lstrip('&').strip() if tys else ''
    if ty not in INTS.split('|'):
        return None
    x = [e.sval(v, s) for v in a]
    if n == 'cmp':
        return int_cmp(e, x[0], x[1], ty, dty, s)
    if n == 'clamp':
        out = []
        for lo, s2 in fork(e, s, e.binop('Lt', x[0], x[1], ty, s)):
            if lo:
                out.append(('ret', x[1], s2))
                continue
            for hi, s3 in fork(e, s2, e.binop('Gt', x[0], x[2], ty, s2)):
                out.append(('ret', x[2] if hi else x[0], s3))
        return out
    return [('ret', (x[0] if b else x[1]) if n == 'min' else (x[1] if b else x[0]), s2)
            for b, s2 in fork(e, s, e.binop('Le', x[0], x[1], ty, s))]


def int_cmp(e, x, y, ty, dty, s):
    out = []
    OR = 'core::cmp::Ordering'
    for l, s2 in fork(e, s, e.binop('Lt', x, y, ty, s)):
        if l:
            out.append(('ret', N('agg', OR, 0), s2))
            continue
        for q, s3 in fork(e, s2, e.binop('Eq', x, y, ty, s2)):
            out.append(('ret', N('agg', OR, 1 if q else 2), s3))
    return out


@rx(r'^core::num::<impl (usize|u32|u64|u8)>::(saturating_sub|checked_sub|checked_add|checked_mul|checked_div|checked_rem|wrapping_add|wrapping_mul|saturating_add|saturating_mul|wrapping_sub|abs_diff|is_multiple_of|div_ceil|unchecked_add|unchecked_sub)$')
def int_meth(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    ty = re.search(r'<impl (\w+)>', c['path']).group(1)
    x, y = [e.sval(v, s) for v in a]
    OPN = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}
    base = n.split('_')[-1]
    if n == 'abs_diff':
        return [('ret', e.binop('Sub', x, y, ty, s2) if b else e.binop('Sub', y, x, ty, s2), s2) for b, s2 in fork(e, s, e.binop('Ge', x, y, ty, s))]
    if n in ('is_multiple_of', 'div_ceil') or n == 'wrapping_sub':
        return ret(N('imeth', n, ty, x, y), s)
    if base == 'sub' and n != 'unchecked_sub':
        out = []
        for b, s2 in fork(e, s, e.binop('Ge', x, y, ty, s)):
            if b:
                d = e.binop('Sub', x, y, ty, s2)
                out.append(('ret', some(d) if n[0] == 'c' else d, s2))
            elif n == 'saturating_sub':
                out.append(('ret', ci(0), s2))
            elif n == 'checked_sub':
                out.append(('ret', NONE, s2))
            else:
                return None
        return out
    if base in ('div', 'rem'):
        out = []
        for b, s2 in fork(e, s, e.binop('Eq', y, ci(0), ty, s)):
            out.append(('ret', NONE if b else some(e.binop(OPN[base], x, y, ty, s2)), s2))
        return out
    # sizes do not come near the end of the type: as for the plain operators
    d = e.binop(OPN[base], x, y, ty, s)
    return ret(some(d) if n.startswith('checked') else d, s)


@rx(r'^core::num::<impl [ui](size|8|16|32|64|128)>::(pow|count_ones|count_zeros|leading_zeros|trailing_zeros|is_power_of_two|next_power_of_two|rem_euclid|div_euclid|next_multiple_of|midpoint|isqrt|ilog2|ilog10|signum|abs|unsigned_abs|'
    r'wrapping_abs|wrapping_add|wrapping_sub|wrapping_mul|wrapping_shl|wrapping_shr|wrapping_neg|rotate_left|rotate_right|swap_bytes|reverse_bits|is_multiple_of|div_ceil)$')
def int_meth2(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    return ret(N('imeth', n, re.search(r'<impl (\w+)>', c['path']).group(1), *[e.sval(v, s) for v in a]), s)


# ------------------------------------------------------------------ identity-like functions
def ident_val(e, c, a, tys, dty, s, site):
    """&T -> T copy"""
    v = a[0]
    loc, proj = e.target(v)
    return ret(e.load(s, loc, proj), s)


@tr('core::clone::Clone::clone')
def clone(e, c, a, tys, dty, s, site):
    st = c.get('self') or ''
    loc, proj = e.target(a[0])
    x = e.load(s, loc, proj)
    if is_ref_ty(e, dty):
        return ret(x, s)
    if x.t[0] == 'box':
        return ret(N('box', e.new_h(s, e.load(s, x[1]))), s)
    return ret(x, s)


M['core::intrinsics::clone'] = clone


@m('alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', 'alloc::slice::<impl [T]>::to_vec',
   '<T as alloc::borrow::ToOwned>::to_owned', '<T as alloc::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec',
   'alloc::str::<impl str>::to_string')
def to_owned(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    return ret(e.load(s, loc, proj), s)


@rx(r'^<(alloc::string::String|str|&str|T|f64|usize|char|i32|.*) as alloc::string::(ToString|SpecToString)>::')
def to_string(e, c, a, tys, dty, s, site):
    st = c.get('self') or ''
    x = e.sval(a[0], s)
    if st.replace('&', '').strip() in ('str', 'alloc::string::String') or (isn(x, 'c') and x[1] == 'str'):
        return ret(x, s)
    return ret(N('tostr', x), s)


@m('<alloc::string::String as core::ops::deref::Deref>::deref', 'alloc::string::String::as_str', '<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref',
   '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
   '<alloc::borrow::Cow<\'_, B> as core::ops::deref::Deref>::deref', 'core::hint::must_use', 'core::hint::black_box',
   '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref', '<alloc::string::String as core::convert::AsRef<str>>::as_ref',
   '<alloc::string::String as core::borrow::Borrow<str>>::borrow', 'core::str::<impl str>::as_bytes', 'core::str::<impl str>::as_ref',
   '<str as core::convert::AsRef<str>>::as_ref', 'alloc::string::String::into_boxed_str', 'alloc::string::String::as_mut_str',
   'core::cell::RefCell::<T>::into_inner', 'core::cell::RefCell::<T>::get_mut', 'alloc::string::String::into_bytes',
   'alloc::borrow::Cow::<\'_, B>::into_owned', '<T as core::convert::Into<U>>::into@str')
def ident(e, c, a, tys, dty, s, site):
    return ret(a[0], s)


@rx(r'^<alloc::string::String as core::convert::From<(&str|char|&alloc::string::String|alloc::borrow::Cow.*|&mut str|alloc::boxed::Box<str>)>>::from$|^alloc::string::String::from_utf8_lossy$|^<alloc::borrow::Cow<.*> as core::convert::From<.*>>::from$|^<alloc::boxed::Box<str> as .*From<.*>>::from$')
def from_str(e, c, a, tys, dty, s, site):
    if 'from_utf8_lossy' in c['path']:
        return ret(e.sval(a[0], s), s)
    return ret(e.sval(a[0], s), s)


@rx(r'^<alloc::vec::Vec<T> as core::convert::From<(&\[T\]|\[T; N\]|&\[T; N\]|alloc::boxed::Box<\[T\].*>)>>::from$')
def vec_from(e, c, a, tys, dty, s, site):
    return ret(e.sval(a[0], s) if is_ref_ty(e, tys[0]) else a[0], s)


@m('<T as core::convert::Into<U>>::into')
def into(e, c, a, tys, dty, s, site):
    ta = c.get('targs') or []
    if len(ta) >= 2 and ta[0] == ta[1]:
        return ret(a[0], s)
    if len(ta) >= 2 and ta[0].lstrip('&') in ('str', 'alloc::string::String') and ta[1] in ('alloc::string::String', 'str'):
        return ret(e.sval(a[0], s), s)
    if len(ta) >= 2 and ta[1] in ('f64', 'usize', 'u32', 'i32', 'u64', 'i64'):
        return ret(a[0] if ta[1] != 'f64' else N('i2f', a[0]), s)
    return None


@m('anyhow::Ok')
def aok(e, c, a, tys, dty, s, site): return ret(ok(a[0]), s)


@rx(r'^anyhow::error::<impl anyhow::Error>::downcast(_ref|_mut)?$|^anyhow::error::<impl anyhow::Error>::is$')
def anyhow_downcast(e, c, a, tys, dty, s, site):
    want = (c.get('targs') or [''])[-1]
    name = (c.get('rpath') or c.get('path') or '').rsplit('::', 1)[-1]
    v = a[0] if name == 'downcast' else e.deref(s, a[0])
    if not isn(v, 'anyhow') or not want or v[2] in ('', 'box'):
        return e.opaque_result(N('call', c.get('rpath') or c.get('path'), tuple(e.deep(x, s) for x in a), dty, tuple(c.get('targs') or ())), c, a, tys, dty, s, site)
    same = v[2] == want
    if name == 'is':
        return ret(TRUE if same else FALSE, s)
    if name == 'downcast':
        return ret(ok(v[1]) if same else err(v), s)
    return ret(some(e.kref(v[1])) if same else NONE, s)


@rx(r'^anyhow::error::<impl core::convert::From<E> for anyhow::Error>::from$|^anyhow::error::<impl anyhow::Error>::(new|msg)$|^anyhow::Error::(new|msg)$|anyhow::.*format_err$')
def aerr(e, c, a, tys, dty, s, site):
    return ret(N('anyhow', e.deep(a[0], s), (c.get('targs') or [''])[-1]), s)


@rx(r'^<alloc::boxed::Box<dyn .*> as core::convert::From<E>>::from$')
def boxerr(e, c, a, tys, dty, s, site):
    return ret(N('anyhow', e.deep(a[0], s), 'box'), s)


# ------------------------------------------------------------------ mem
@m('core::mem::swap')
def mswap(e, c, a, tys, dty, s, site):
    l1, l2 = e.target(a[0]), e.target(a[1])
    x, y = e.load(s, *l1), e.load(s, *l2)
    e.store(s, l1[0], l1[1], y)
    e.store(s, l2[0], l2[1], x)
    return ret(UNIT, s)


@m('core::mem::replace')
def mreplace(e, c, a, tys, dty, s, site):
    l1 = e.target(a[0])
    x = e.load(s, *l1)
    e.store(s, l1[0], l1[1], a[1])
    return ret(x, s)


def default_value(t):
    if t.startswith('alloc::vec::Vec'):
        return N('seq')
    if t == 'alloc::string::String':
        return cs('')
    if t.startswith(('std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet')):
        return N('mapnew')
    if t.startswith('core::option::Option'):
        return NONE
    if re.match(r'^[iu](8|16|32|64|128|size)$', t):
        return ci(0)
    return {'f64': cf(0.0), 'bool': FALSE}.get(t)


@m('core::mem::take')
def mtake(e, c, a, tys, dty, s, site):
    dv = default_value((c.get('targs') or [''])[0])
    if dv is None:
        return None
    l1 = e.target(a[0])
    x = e.load(s, *l1)
    e.store(s, l1[0], l1[1], dv)
    return ret(x, s)


@m('core::mem::forget')
def mforget(e, c, a, tys, dty, s, site):
    s.event('forget', a[0], tys[0], site)
    return ret(UNIT, s)


@m('core::mem::manually_drop::ManuallyDrop::<T>::new')
def mdnew(e, c, a, tys, dty, s, site):
    s.event('forget', a[0], tys[0], site)
    return ret(N('agg', 'core::mem::manually_drop::ManuallyDrop', 0, a[0]), s)


@rx(r'^<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$')
def mdderef(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    return ret(mkref(loc, proj + (('f', None, 0),)), s)


@m('core::mem::drop')
def mdrop(e, c, a, tys, dty, s, site):
    s.event('drop', a[0], tys[0], site)
    return ret(UNIT, s)


@m('core::ptr::null', 'core::ptr::null_mut')
def null(e, c, a, tys, dty, s, site):
    return ret(N('null'), s)


@rx(r'^core::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::is_null$')
def is_null(e, c, a, tys, dty, s, site):
    v = a[0]
    if v.t[0] == 'null':
        return ret(TRUE, s)
    if v.t[0] in ('ref', 'bptr'):
        return ret(FALSE, s)
    return ret(N('isnull', v), s)


@rx(r'^core::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::as_(ref|mut)$')
def ptr_as_ref(e, c, a, tys, dty, s, site):
    v = a[0]
    if v.t[0] == 'null':
        return ret(NONE, s)
    if v.t[0] in ('ref', 'bptr'):
        return ret(some(v), s)
    out = []
    for b, s2 in fork(e, s, N('isnull', v)):
        out.append(('ret', NONE if b else some(v), s2))
    return out


@rx(r'^core::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(cast|cast_mut|cast_const)$|^core::ptr::non_null::NonNull::<T>::as_(ptr|ref|mut)$')
def ptr_cast(e, c, a, tys, dty, s, site): return ret(a[0], s)


@rx(r'^core::ptr::(read|read_unaligned)$|^core::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::read$')
def ptr_read(e, c, a, tys, dty, s, site):
    t = e.db.deref_ty(tys[0]) if tys[0] else None
    v = e.deref(s, a[0], t)
    s.event('bitcopy', a[0], site)
    return ret(v, s)


@rx(r'^core::ptr::(write|write_unaligned)$|^core::ptr::mut_ptr::<impl \*mut T>::write$')
def ptr_write(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    e.store(s, loc, proj, a[1])
    return ret(UNIT, s)


@m('core::ptr::copy_nonoverlapping', 'core::ptr::copy', 'core::intrinsics::copy_nonoverlapping')
def ptr_copy(e, c, a, tys, dty, s, site):
    v = e.deref(s, a[0])
    loc, proj = e.target(a[1])
    s.event('bitcopy', a[0], site)
    s.event('bitstore', a[1], v, site)
    e.store(s, loc, proj, N('bits', v, a[0]))
    return ret(UNIT, s)


# ------------------------------------------------------------------ Box / Rc / RefCell
@m('alloc::boxed::Box::<T>::new', '<alloc::boxed::Box<T> as core::convert::From<T>>::from')
def box_new(e, c, a, tys, dty, s, site):
    return ret(N('box', e.new_h(s, a[0], tys[0])), s)


@m('alloc::boxed::Box::<T>::new_uninit')
def box_uninit(e, c, a, tys, dty, s, site):
    return ret(N('box', e.new_h(s, N('mu'))), s)


@m('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::slice::<impl [T]>::into_vec', 'alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::assume_init')
def box_vec(e, c, a, tys, dty, s, site):
    if a[0].t[0] == 'box':
        if 'assume_init' in c['path'] and 'into_vec' not in c['path']:
            return ret(a[0], s)
        return ret(e.load(s, a[0][1]), s)
    return ret(N('vecof', e.deep(a[0], s)), s)


@m('alloc::boxed::Box::<T>::from_raw', 'alloc::boxed::Box::<T, A>::from_raw')
def box_from_raw(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0], e.db.deref_ty(tys[0]) if tys[0] else None)
    s.event('from_raw', a[0], (c.get('targs') or [None])[0], site)
    if proj:
        return ret(N('boxat', a[0]), s)
    return ret(N('box', loc), s)


@m('alloc::boxed::Box::<T>::into_raw', 'alloc::boxed::Box::<T, A>::into_raw', 'alloc::boxed::Box::<T, A>::leak', 'alloc::boxed::Box::<T>::leak')
def box_into_raw(e, c, a, tys, dty, s, site):
    s.event('into_raw', a[0], (c.get('targs') or [None])[0], site)
    if a[0].t[0] == 'box':
        return ret(mkref(a[0][1], ()), s)
    return ret(N('rawof', a[0]), s)


@rx(r'^<alloc::boxed::Box<T, A> as core::(ops::deref::Deref(Mut)?|convert::As(Ref|Mut)<T>|borrow::Borrow(Mut)?<T>)>::')
def box_deref(e, c, a, tys, dty, s, site):
    v = e.deref(s, a[0])
    loc, proj = e.target(v)
    return ret(mkref(loc, proj), s)


@m('<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop')
def box_drop(e, c, a, tys, dty, s, site):
    v = e.deref(s, a[0])
    s.event('boxfree', v, tys[0], site)
    return ret(UNIT, s)


@m('alloc::rcs::rc::Rc::<T>::new', 'alloc::rc::Rc::<T>::new')
def rc_new(e, c, a, tys, dty, s, site):
    return ret(N('rc', e.new_h(s, a[0], tys[0])), s)


@rx(r'^<alloc::rc(s::rc)?::Rc<T, A> as core::(ops::deref::Deref|convert::AsRef<T>|borrow::Borrow<T>)>::')
def rc_deref(e, c, a, tys, dty, s, site):
    v = e.deref(s, a[0])
    for _ in range(3):
        if v.t[0] == 'ref':
            v = e.deref(s, v)
    loc, proj = e.target(v)
    return ret(mkref(loc, proj), s)


@rx(r'alloc::rc(s::rc)?::Rc::<T(, A)?>::downgrade$')
def rc_down(e, c, a, tys, dty, s, site):
    v = e.deref(s, a[0])
    if v.t[0] == 'rc':
        return ret(N('weak', v[1]), s)
    return ret(N('weakof', v), s)


@rx(r'alloc::rc(s::rc)?::Weak::<T(, A)?>::upgrade$')
def rc_up(e, c, a, tys, dty, s, site):
    v = e.deref(s, a[0])
    if v.t[0] == 'weak':
        return ret(some(N('rc', v[1])), s)
    if v.t[0] == 'weakof':
        return ret(some(v[1]), s)
    out = []
    d = e.db.ty(dty) if dty else {}
    ity = d['args'][0] if d.get('args') else None
    for b, s2 in fork(e, s, N('alive', v)):
        out.append(('ret', some(N('call', 'upgrade', (v,), ity, ())) if b else NONE, s2))
    return out


def rcptr(v):
    """(allocation, True) of a counted pointer made here, else (term that evaluates to it, False)"""
    for _ in range(6):
        if v.t[0] in ('rc', 'weak'):
            return v[1], True
        if v.t[0] == 'weakof':
            v = v[1]
        elif v.t[0] == 'call' and v[1] == 'upgrade':
            v = v[2][0]
        else:
            break
    return v, False


@rx(r'alloc::rc(s::rc)?::(Rc|Weak)::<T(, A)?>::ptr_eq$')
def rc_ptr_eq(e, c, a, tys, dty, s, site):
    (x, o1), (y, o2) = (rcptr(e.deref(s, q)) for q in a)
    if x is y:
        return ret(TRUE, s)
    if o1 and o2:
        return ret(FALSE, s)
    if o1 or o2:
        # made by this call: no argument can point to it unless it was handed on, which is left open
        return ret(N('sameptr', N('Rc', e.deep(e.load(s, x), s), x) if o1 else x, N('Rc', e.deep(e.load(s, y), s), y) if o2 else y), s)
    return ret(N('sameptr', x, y), s)


@rx(r'core::cell::(RefCell|Cell)::<T>::new$')
def cell_new(e, c, a, tys, dty, s, site): return ret(a[0], s)


@rx(r'core::cell::Cell::<T>::get$')
def cell_get(e, c, a, tys, dty, s, site): return ret(e.deref(s, a[0]), s)


@rx(r'core::cell::Cell::<T>::set$')
def cell_set(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    e.store(s, loc, proj, a[1])
    return ret(UNIT, s)


def _cellty(e, a0, t0):
    """the RefCell is transparent: give the location the type of its content"""
    loc, proj = e.target(a0, e.db.deref_ty(t0) if t0 else None)
    if not proj and loc in e.pty:
        d = e.db.ty(e.pty[loc])
        if d.get('k') == 'adt' and d['adt'] in ('core::cell::RefCell', 'core::cell::Cell'):
            e.pty[loc] = d['args'][0]
    return loc, proj


@rx(r'core::cell::RefCell::<T>::borrow(_mut)?$')
def cell_borrow(e, c, a, tys, dty, s, site):
    loc, proj = _cellty(e, a[0], tys[0])
    s.event('borrow', 'mut' if c['path'].endswith('_mut') else 'shared', N('ref', loc, proj), site)
    return ret(N('ref', loc, proj), s)


@rx(r'core::cell::RefCell::<T>::try_borrow(_mut)?$')
def cell_tborrow(e, c, a, tys, dty, s, site):
    loc, proj = _cellty(e, a[0], tys[0])
    s.event('borrow', 'mut' if c['path'].endswith('_mut') else 'shared', N('ref', loc, proj), site)
    return ret(ok(N('ref', loc, proj)), s)


@rx(r'core::cell::(RefCell|Cell)::<T>::(replace|take|swap|replace_with|set|update)$')
def cell_replace(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    loc, proj = _cellty(e, a[0], tys[0])
    s.event('borrow', 'mut', N('ref', loc, proj), site)
    x = e.load(s, loc, proj)
    if n in ('replace', 'set'):
        e.store(s, loc, proj, a[1])
        return ret(x if n == 'replace' else UNIT, s)
    if n == 'take':
        return mtake(e, dict(c, targs=c.get('targs')), [N('ref', loc, proj)], tys, dty, s, site)
    if n == 'swap':
        l2, p2 = _cellty(e, a[1], tys[1])
        s.event('borrow', 'mut', N('ref', l2, p2), site)
        y = e.load(s, l2, p2)
        e.store(s, loc, proj, y)
        e.store(s, l2, p2, x)
        return ret(UNIT, s)
    if n == 'update':
        out = []
        for k, v, s2 in e.call_value(a[1], [x], [None], dty, s, site):
            if k == 'ret':
                e.store(s2, loc, proj, v)
                out.append(('ret', UNIT if dty == '()' else v, s2))
            else:
                out.append((k, v, s2))
        return out
    out = []
    for k, v, s2 in e.call_value(a[1], [N('ref', loc, proj)], [None], dty, s, site):
        if k == 'ret':
            old = e.load(s2, loc, proj)
            e.store(s2, loc, proj, v)
            out.append(('ret', old, s2))
        else:
            out.append((k, v, s2))
    return out


@rx(r'^<core::cell::Ref(Mut)?<\'_, T> as core::ops::deref::Deref(Mut)?>::')
def guard_deref(e, c, a, tys, dty, s, site):
    return ret(e.deref(s, a[0]), s)


# ------------------------------------------------------------------ state shared between calls
@rx(r'^core::sync::atomic::Atomic::<.*>::new$|^std::sync::(poison::)?(mutex::|rwlock::)?(Mutex|RwLock)::<T>::new$')
def shared_new(e, c, a, tys, dty, s, site): return ret(a[0], s)


@rx(r'^std::sync::(once_lock::)?OnceLock::<T>::new$|^core::cell::(once::)?OnceCell::<T>::new$')
def once_new(e, c, a, tys, dty, s, site): return ret(NONE, s)


@rx(r'^std::sync::(poison::)?(mutex::|rwlock::)?(Mutex|RwLock)::<T>::(try_)?(lock|read|write|get_mut)$')
def shared_lock(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    return ret(ok(N('ref', loc, proj)), s)


@rx(r'^std::sync::(poison::)?(mutex::|rwlock::)?(Mutex|RwLock)::<T>::into_inner$')
def shared_inner(e, c, a, tys, dty, s, site): return ret(ok(a[0]), s)


@rx(r'^<std::sync::(poison::)?(mutex::|rwlock::)?(Mutex|RwLockRead|RwLockWrite)Guard<.*> as core::ops::deref::Deref(Mut)?>::')
def shared_deref(e, c, a, tys, dty, s, site): return ret(e.deref(s, a[0]), s)


@rx(r'^core::sync::atomic::Atomic::<(?P<t>.*)>::(load|store|swap|fetch_\w+|compare_exchange(_weak)?|compare_and_swap|into_inner|get_mut)$')
def atomic(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    if n == 'into_inner':
        return ret(a[0], s)
    loc, proj = e.target(a[0])
    if n == 'get_mut':
        return ret(N('ref', loc, proj), s)
    x = e.load(s, loc, proj)
    t = re.search(r'Atomic::<(.*)>::', c['path']).group(1)
    if n == 'load':
        return ret(x, s)
    if n in ('store', 'swap'):
        e.store(s, loc, proj, a[1])
        return ret(UNIT if n == 'store' else x, s)
    op = {'fetch_add': 'Add', 'fetch_sub': 'Sub', 'fetch_and': 'BitAnd', 'fetch_or': 'BitOr', 'fetch_xor': 'BitXor'}.get(n)
    if op:
        e.store(s, loc, proj, e.binop(op, x, a[1], t, s))
        return ret(x, s)
    if n in ('fetch_max', 'fetch_min'):
        out = []
        for b, s2 in fork(e, s, e.binop('Ge' if n == 'fetch_max' else 'Le', a[1], x, t, s)):
            if b:
                e.store(s2, loc, proj, a[1])
            out.append(('ret', x, s2))
        return out
    if n.startswith('compare_exchange'):
        out = []
        for b, s2 in fork(e, s, e.binop('Eq', x, a[1], t, s)):
            if b:
                e.store(s2, loc, proj, a[2])
            out.append(('ret', ok(x) if b else err(x), s2))
        return out
    return None


@rx(r'^std::thread::local::LocalKey::<(T|core::cell::(Ref)?Cell<T>)>::(with|try_with|with_borrow|with_borrow_mut|get|set|take|replace)$')
def local_key(e, c, a, tys, dty, s, site):
    loc = e.local_key(a[0], s)
    if loc is None:
        raise Unk('thread local')
    n = c['path'].split('::')[-1]
    r = N('ref', loc, ())
    if loc not in e.pty or e.pty[loc] is None:
        e.pty[loc] = e.shared_ty((c.get('targs') or [None])[0])
    if n in ('with', 'try_with', 'with_borrow', 'with_borrow_mut'):
        outs = e.call_value(a[1], [r], [None], dty, s, site)
        return outs if n != 'try_with' else [(k, ok(v) if k == 'ret' else v, q) for k, v, q in outs]
    x = e.load(s, loc)
    if n == 'get':
        return ret(x, s)
    if n in ('set', 'replace'):
        e.store(s, loc, (), a[1])
        return ret(UNIT if n == 'set' else x, s)
    return mtake(e, c, [r], tys, dty, s, site)


@rx(r'^(std::sync::(once_lock::)?OnceLock|core::cell::(once::)?OnceCell)::<T>::(get|get_mut|set|get_or_init|take|into_inner)$')
def once(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    if n == 'into_inner':
        return ret(a[0], s)
    loc, proj = e.target(a[0])
    x = e.load(s, loc, proj)
    if n == 'take':
        e.store(s, loc, proj, NONE)
        return ret(x, s)
    out = []
    for b, s2 in fork(e, s, isvar(e, s, x, 1)):
        r = N('ref', loc, tuple(proj) + (('f', 1, 0, None),))
        if n in ('get', 'get_mut'):
            out.append(('ret', some(r) if b else NONE, s2))
        elif n == 'set':
            if not b:
                e.store(s2, loc, proj, some(a[1]))
            out.append(('ret', err(a[1]) if b else ok(UNIT), s2))
        elif b:
            out.append(('ret', r, s2))
        else:
            for k, v, s3 in e.call_value(a[1], [], [], None, s2, site):
                if k == 'ret':
                    e.store(s3, loc, proj, some(v))
                    v = r
                out.append((k, v, s3))
    return out


@rx(r'^<std::sync::(lazy_lock::)?LazyLock<.*> as core::ops::deref::Deref>::deref$|^std::sync::(lazy_lock::)?LazyLock::<T, F>::force$|^<core::cell::(lazy::)?LazyCell<.*> as core::ops::deref::Deref>::deref$|^core::cell::(lazy::)?LazyCell::<T, F>::force$')
def lazy(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    if loc not in [x[0] for x in e.statics.values()]:
        return None
    return ret(N('ref', loc, proj), s)


# ------------------------------------------------------------------ Vec
@rx(r'^alloc::vec::Vec::<T>::(new|with_capacity)$|^<alloc::vec::Vec<T> as core::default::Default>::default$')
def vec_new(e, c, a, tys, dty, s, site):
    if c['path'].endswith('with_capacity') and not isn(a[0], 'c'):
        return ret(N('ecap', a[0]), s)      # empty, remembers its capacity until the first push
    return ret(N('seq'), s)


@rx(r'^alloc::vec::Vec::<T, A>::capacity$')
def vec_cap(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    q = e.load(s, loc, proj)
    if q.t[0] == 'ecap':
        return ret(q[1], s)
    return ret(N('capof', q), s)


@m('alloc::vec::from_elem')
def from_elem(e, c, a, tys, dty, s, site):
    if isn(a[1], 'c') and a[1][2] <= 32:
        return ret(N('seq', *([a[0]] * a[1][2])), s)
    return ret(N('rep', a[0], a[1]), s)


def pushv(q, x):
    if q.t[0] == 'ecap':
        return N('seq', x)
    if q.t[0] == 'seq':
        return N(*(q.t + (x,)))
    return N('push', q, x)


@rx(r'^alloc::vec::Vec::<T, A>::push$|^alloc::vec::Vec::<T>::push$|VecDeque::<T, A>::push_back$')
def vec_push(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    e.store(s, loc, proj, pushv(e.load(s, loc, proj), a[1]))
    return ret(UNIT, s)


@rx(r'^alloc::vec::Vec::<T, A>::pop$')
def vec_pop(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    q = e.load(s, loc, proj)
    if q.t[0] == 'ecap':
        return ret(NONE, s)
    if q.t[0] == 'seq':
        if len(q) == 1:
            return ret(NONE, s)
        e.store(s, loc, proj, N(*q.t[:-1]))
        return ret(some(q.t[-1]), s)
    if q.t[0] == 'push':
        e.store(s, loc, proj, q[1])
        return ret(some(q[2]), s)
    n = e.seq_len(q)
    out = []
    for b, s2 in fork(e, s, lt(ci(0), n)):
        if b:
            x = e.seq_get(q, psub(n, ci(1)), s2)
            e.store(s2, loc, proj, N('sinit', q))
            out.append(('ret', some(x), s2))
        else:
            out.append(('ret', NONE, s2))
    return out


@rx(r'^alloc::vec::Vec::<T, A>::(len)$|^core::slice::<impl \[T\]>::len$')
def vec_len(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    return ret(e.seq_len(e.load(s, loc, proj)), s)


@rx(r'^alloc::vec::Vec::<T, A>::is_empty$|^core::slice::<impl \[T\]>::is_empty$')
def vec_empty(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    n = e.seq_len(e.load(s, loc, proj))
    if not isn(n, 'c'):
        s.f.add_ge0(n)
    return ret(ieq(n, ci(0)), s)


@rx(r'^alloc::vec::Vec::<T, A>::(clear)$')
def vec_clear(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    e.store(s, loc, proj, N('seq'))
    return ret(UNIT, s)


@rx(r'^alloc::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$|^alloc::string::String::reserve$')
def vec_nop(e, c, a, tys, dty, s, site): return ret(UNIT, s)


@rx(r'^alloc::vec::Vec::<T, A>::append$')
def vec_append(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    l2, p2 = e.target(a[1])
    e.store(s, loc, proj, appendv(e.load(s, loc, proj), e.load(s, l2, p2)))
    e.store(s, l2, p2, N('seq'))
    return ret(UNIT, s)


def appendv(x, y):
    if y.t[0] == 'seq':
        for i in range(1, len(y)):
            x = pushv(x, y[i])
        return x
    if (x.t[0] == 'seq' and len(x) == 1) or x.t[0] == 'ecap':
        return y
    return N('append', x, y)


@rx(r'^alloc::vec::Vec::<T, A>::resize$')
def vec_resize(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    q = e.load(s, loc, proj)
    n = a[1]
    if q.t[0] == 'ecap' or (q.t[0] == 'seq' and len(q) == 1):
        e.store(s, loc, proj, N('seq', *([a[2]] * n[2])) if isn(n, 'c') and n[2] <= 32 else N('rep', a[2], n))
        return ret(UNIT, s)
    if q.t[0] == 'seq' and isn(n, 'c') and n[2] <= 32:
        t = q.t[1:1 + n[2]]
        e.store(s, loc, proj, N('seq', *(t + (a[2],) * (n[2] - len(t)))))
        return ret(UNIT, s)
    l = e.seq_len(q)
    out = []
    for b, s2 in fork(e, s, lt(n, l)):
        e.store(s2, loc, proj, N('slice', q, ci(0), n) if b else appendv(q, N('rep', a[2], psub(n, l))))
        out.append(('ret', UNIT, s2))
    return out


@rx(r'^alloc::vec::Vec::<T, A>::resize_with$')
def vec_resize_with(e, c, a, tys, dty, s, site):
    # by a function that always gives the same value
    q = s.copy()
    n0 = dict(q.mem)
    r = e.call_value(fnref(e, q, a[2]), [], [], None, q, site)
    if r is None or len(r) != 1 or r[0][0] != 'ret' or any(r[0][2].mem.get(l) is not v for l, v in n0.items()):
        return None
    return vec_resize(e, c, [a[0], a[1], r[0][1]], tys, dty, r[0][2], site)


@rx(r'^alloc::slice::<impl \[T\]>::sort$|^core::slice::<impl \[T\]>::(sort_unstable|reverse)$|^alloc::vec::Vec::<T, A>::dedup$')
def vec_arrange(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    q = e.load(s, loc, proj)
    n = c['path'].split('::')[-1]
    if q.t[0] == 'ecap' or (q.t[0] == 'seq' and len(q) < 3):
        return ret(UNIT, s)
    if n == 'reverse' and q.t[0] == 'seq':
        e.store(s, loc, proj, N('seq', *reversed(q.t[1:])))
        return ret(UNIT, s)
    e.store(s, loc, proj, N('arrange', q, 'sort' if n.startswith('sort') else n))
    return ret(UNIT, s)


@rx(r'^alloc::slice::<impl \[T\]>::(sort_by_key|sort_by_cached_key|sort_by)$|^core::slice::<impl \[T\]>::(sort_unstable_by_key|sort_unstable_by)$')
def vec_sort_by(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    v = e.load(s, loc, proj)
    if v.t[0] == 'ecap' or (v.t[0] == 'seq' and len(v) < 3):
        return ret(UNIT, s)
    by = not c['path'].endswith('key')
    f = fnref(e, s, a[1])
    g = e.deep(e.deref(s, f) if f.t[0] == 'ref' and f[1].t[0] != 'K' else f, s)
    ety = (c.get('targs') or [None])[0]
    xs, args, q = [], [], s.copy()
    for i in range(2 if by else 1):
        x = N('chvar', g, i, ety)
        xs.append(x)
        y = N('ref', N('K', x), ()) if ety and e.db.ty(ety).get('k') == 'ref' else x
        args.append(N('ref', e.new_h(q, y, ety), ()))
    n0 = dict(q.mem)
    r = e.call_value(f, args, [None] * len(args), None, q.copy(), site)
    if not r or any(k != 'ret' or any(z.mem.get(l) is not w for l, w in n0.items()) for k, _, z in r):
        return None
    alts = [N('chalt', e.deep(w, z), *[N('chcond', t, cb(b)) for t, b in z.conds[len(q.conds):]]) for k, w, z in r]
    e.store(s, loc, proj, N('arrange', v, 'by' if by else 'key', N('seq', *xs), *alts))
    return ret(UNIT, s)


@rx(r'^alloc::vec::Vec::<T, A>::truncate$')
def vec_truncate(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    q = e.load(s, loc, proj)
    n = a[1]
    if q.t[0] == 'ecap':
        return ret(UNIT, s)
    if q.t[0] == 'seq' and isn(n, 'c'):
        e.store(s, loc, proj, N(*q.t[:1 + n[2]]))
        return ret(UNIT, s)
    out = []
    for b, s2 in fork(e, s, lt(n, e.seq_len(q))):
        if b:
            e.store(s2, loc, proj, N('slice', q, ci(0), n))
        out.append(('ret', UNIT, s2))
    return out


@rx(r'^alloc::vec::Vec::<T, A>::extend_from_slice$')
def vec_extslice(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    e.store(s, loc, proj, appendv(e.load(s, loc, proj), e.deref(s, a[1])))
    return ret(UNIT, s)


@rx(r'^alloc::vec::Vec::<T, A>::(remove|swap_remove)$')
def vec_remove(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    q = e.load(s, loc, proj)
    if q.t[0] == 'seq' and isn(a[1], 'c') and a[1][2] < len(q) - 1 and c['path'].endswith('::remove'):
        i = a[1][2]
        x = q[1 + i]
        e.store(s, loc, proj, N(*(q.t[:1 + i] + q.t[2 + i:])))
        return ret(x, s)
    x = e.seq_get(q, a[1], s)
    e.store(s, loc, proj, N('sremove', q, a[1]))
    return ret(x, s)


@rx(r'^alloc::vec::Vec::<T, A>::(insert)$')
def vec_insert(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    q = e.load(s, loc, proj)
    if q.t[0] == 'seq' and isn(a[1], 'c') and a[1][2] <= len(q) - 1:
        i = a[1][2]
        e.store(s, loc, proj, N(*(q.t[:1 + i] + (a[2],) + q.t[1 + i:])))
    else:
        e.store(s, loc, proj, N('sinsert', q, a[1], a[2]))
    return ret(UNIT, s)


@rx(r'^core::slice::<impl \[T\]>::swap$')
def sl_swap(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    q = e.load(s, loc, proj)
    x, y = e.seq_get(q, a[1], s), e.seq_get(q, a[2], s)
    q = e.seq_set(e.seq_set(q, a[1], y), a[2], x)
    e.store(s, loc, proj, q)
    return ret(UNIT, s)


@rx(r'^core::slice::<impl \[T\]>::(first|last|get|get_mut|first_mut|last_mut)$|^alloc::vec::Vec::<T, A>::(get)$')
def sl_get(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    q = e.load(s, loc, proj)
    n = e.seq_len(q)
    nm = c['path'].split('::')[-1]
    if nm.startswith('get'):
        i = a[1]
        if i.t[0] == 'agg':
            return None
    elif nm.startswith('first'):
        i = ci(0)
    else:
        i = psub(n, ci(1))
    cond = lt(ci(0), n) if nm.startswith('last') else lt(i, n)
    out = []
    for b, s2 in fork(e, s, cond):
        out.append(('ret', some(mkref(loc, proj + (('ix', i),))) if b else NONE, s2))
    return out


@rx(r'^core::slice::<impl \[T\]>::contains$')
def sl_contains(e, c, a, tys, dty, s, site):
    q = e.sval(a[0], s)
    x = e.sval(a[1], s)
    if q.t[0] == 'seq':
        res = [streq(e.sval(y, s), x) if not (isn(x, 'c') and x[1] == 'int') else ieq(y, x) for y in q.t[1:]]
        if any(r is TRUE for r in res):
            return ret(TRUE, s)
        if all(r is FALSE for r in res):
            return ret(FALSE, s)
    return ret(N('contains', q, x), s)


@rx(r'^core::slice::<impl \[T\]>::(fill)$')
def sl_fill(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    q = e.load(s, loc, proj)
    e.store(s, loc, proj, N('rep', a[1], e.seq_len(q)))
    return ret(UNIT, s)


@rx(r'^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$|^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$|^core::array::<impl core::ops::index::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$|^core::str::traits::<impl core::ops::index::Index(Mut)?<I> for str>::index$|^<alloc::string::String as core::ops::index::Index<I>>::index$')
def vec_index(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    i = a[1]
    if i.t[0] == 'agg' and i[1].startswith('core::ops::range'):
        q = e.load(s, loc, proj)
        n = e.seq_len(q)
        nm = i[1].split('::')[-1]
        if nm == 'Range':
            lo, hi = i[3], i[4]
        elif nm == 'RangeFrom':
            lo, hi = i[3], n
        elif nm == 'RangeTo':
            lo, hi = ci(0), i[3]
        elif nm == 'RangeFull':
            lo, hi = ci(0), n
        elif nm == 'RangeInclusive':
            lo, hi = i[3], padd(i[4], ci(1))
        elif nm == 'RangeToInclusive':
            lo, hi = ci(0), padd(i[3], ci(1))
        else:
            return None
        r = N('ref', loc, proj + (('sub', lo, hi),))
        if nm == 'RangeFull' or isn(q, 'uninit') or 'str::traits' in (c['rpath'] or c['path']) or 'string::String' in (c['rpath'] or c['path']):
            return ret(r, s)
        out = []
        for b, s2 in fork(e, s, le(lo, hi) if nm not in ('RangeFrom', 'RangeTo') else TRUE):
            if not b:
                out.append(('panic', N('panic', 'slice', (lo, hi)), s2))
                continue
            for b2, s3 in fork(e, s2, le(lo, hi) if nm == 'RangeFrom' else le(hi, n)):
                out.append(('ret', r, s3) if b2 else ('panic', N('panic', 'slice', (hi, n)), s3))
        return out
    q = e.load(s, loc, proj)
    if isn(q, 'uninit'):
        return None
    cond = lt(i, e.seq_len(q))
    if tys[1] == 'usize' and not isn(i, 'c'):
        s.f.add_ge0(i)
    r = mkref(loc, proj + (('ix', i),))
    if e.panics:
        out = []
        for b, s2 in fork(e, s, cond):
            out.append(('ret', r, s2) if b else ('panic', N('panic', 'bounds', ''), s2))
        return out
    k = s.f.ev(cond)
    if k is False:
        return [('panic', N('panic', 'bounds', ''), s)]
    if k is None:
        s.event('assumed', cond)
        s.f.assume(cond, True)
    return ret(r, s)


# ------------------------------------------------------------------ String
def catv(x, y):
    if isn(x, 'c') and isn(y, 'c'):
        return cs(x[2] + (y[2] if isinstance(y[2], str) else chr(y[2])))
    if isn(x, 'c') and x[2] == '':
        return y
    if isn(y, 'c') and y[2] == '':
        return x
    xs = x.t[1:] if x.t[0] == 'cat' else (x,)
    ys = y.t[1:] if y.t[0] == 'cat' else (y,)
    if isn(xs[-1], 'c') and isn(ys[0], 'c'):
        return N('cat', *(xs[:-1] + (catv(xs[-1], ys[0]),) + ys[1:]))
    return N('cat', *(xs + ys))


@rx(r'^alloc::string::String::(new|with_capacity)$|^<alloc::string::String as core::default::Default>::default$')
def s_new(e, c, a, tys, dty, s, site): return ret(cs(''), s)


@rx(r'^alloc::string::String::(push|push_str)$|^<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign$')
def s_push(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    e.store(s, loc, proj, catv(e.load(s, loc, proj), e.sval(a[1], s)))
    return ret(UNIT, s)


@rx(r'^<alloc::string::String as core::ops::arith::Add<&str>>::add$')
def s_add(e, c, a, tys, dty, s, site):
    return ret(catv(a[0], e.sval(a[1], s)), s)


@rx(r'^alloc::string::String::clear$')
def s_clear(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    e.store(s, loc, proj, cs(''))
    return ret(UNIT, s)


@rx(r'^core::fmt::rt::Argument::<\'_>::new_(display|debug|lower_exp)$')
def fmt_arg(e, c, a, tys, dty, s, site):
    return ret(N('dsp', c['path'].split('_')[-1], e.sval(a[0], s)), s)


@rx(r'^core::fmt::Arguments::<\'a>::(new|from_str|new_const|new_v1|from_str_nonconst)$')
def fmt_args(e, c, a, tys, dty, s, site):
    parts = [e.deep(e.deref(s, v) if v.t[0] == 'ref' else v, s) for v in a]
    if c['path'].endswith('from_str'):
        return ret(N('fmtlit', e.sval(a[0], s)), s)
    return ret(N('fmta', *parts), s)


@m('alloc::fmt::format')
def fmt_format(e, c, a, tys, dty, s, site):
    x = a[0]
    if x.t[0] == 'fmtlit':
        return ret(x[1], s)
    if x.t[0] == 'fmta':
        r = fmt_expand(x)
        if r is not None:
            return ret(r, s)
    return ret(N('fmt', x), s)


def fmt_expand(x):
    """format_args template bytes -> concatenation, when every argument is a plain {}"""
    try:
        tm = x[1]
        while tm.t[0] == '&':
            tm = tm[1]
        by = [q[2] for q in tm.t[1:]]
        ar = x[2]
        while ar.t[0] == '&':
            ar = ar[1]
        args = list(ar.t[1:])
        out = cs('')
        i = 0
        n = 0
        while i < len(by):
            b = by[i]
            if b == 0:
                break
            if b < 0x80:
                out = catv(out, cs(bytes(by[i + 1:i + 1 + b]).decode()))
                i += 1 + b
            elif b == 0x80:
                ln = by[i + 1] | by[i + 2] << 8
                out = catv(out, cs(bytes(by[i + 3:i + 3 + ln]).decode()))
                i += 3 + ln
            elif 0xC0 <= b < 0xD0:
                # optional flags, width, precision and argument index follow
                i += 1
                opt = []
                for bit, size in ((1, 4), (2, 2), (4, 2)):
                    opt.append(sum(z << 8 * q for q, z in enumerate(by[i:i + size])) if b & bit else 0)
                    i += size if b & bit else 0
                kind = ':%d,%d,%d' % tuple(opt) if b & 7 else ''
                if b & 8:
                    n = by[i] | by[i + 1] << 8
                    i += 2
                a = args[n]
                n += 1
                v = a[2]
                if kind:
                    out = catv(out, N('shown', a[1] + kind, v))
                    continue
                out = catv(out, v if a[1] == 'display' and is_strish(v) else N('shown', a[1], v))
            else:
                return None
        return out
    except Exception:
        return None


def is_strish(v):
    if v.t[0] == 'c':
        return v[1] == 'str'
    if v.t[0] in ('cat',):
        return True
    if v.t[0] in ('sym', 'deref'):
        return v[2] in ('str', 'alloc::string::String', '&str', '&alloc::string::String')
    if v.t[0] in ('fld',):
        return v[4] in ('str', 'alloc::string::String', '&str')
    if v.t[0] in ('call', 'mapget', 'elem', 'item'):
        return v[3] in ('str', 'alloc::string::String', '&str')
    return False


@rx(r'^std::io::stdio::_(e)?print$')
def io_print(e, c, a, tys, dty, s, site):
    s.event('print', e.deep(a[0], s), site)
    return ret(UNIT, s)


# ------------------------------------------------------------------ HashMap / HashSet
HM = r'^(std::collections::hash::map::HashMap|hashbrown::map::HashMap)::<K, V(, S)?(, A)?>::'


@rx(HM + r'(new|with_capacity)$|^<std::collections::hash::map::HashMap<K, V, S(, A)?> as core::default::Default>::default$|^std::collections::hash::set::HashSet::<T.*>::(new|with_capacity)$|^<std::collections::hash::set::HashSet<.*> as core::default::Default>::default$')
def hm_new(e, c, a, tys, dty, s, site): return ret(N('mapnew'), s)


def mval_ty(e, tys0):
    t = tys0
    for _ in range(3):
        d = e.db.ty(t) if t else {}
        if d.get('k') in ('ref', 'ptr'):
            t = d['to']
        elif d.get('k') == 'adt' and len(d.get('args', [])) >= 2:
            return d['args'][1]
    return None


@rx(HM + r'insert$')
def hm_insert(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    mm = e.load(s, loc, proj)
    k = e.sval(a[1], s)
    h = e.map_has(mm, k)
    old = e.map_get(mm, k)
    s.event('mapinsert', e.deep(mm, s), k, a[2], site)
    e.store(s, loc, proj, N('mapins', mm, k, a[2]))
    if h is TRUE:
        return ret(some(old), s)
    if h is FALSE:
        return ret(NONE, s)
    return ret(N('mapold', h, old, dty), s)


@rx(HM + r'(contains_key)$|^std::collections::hash::set::HashSet::<T, S, A>::contains$')
def hm_has(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    return ret(e.map_has(e.load(s, loc, proj), e.sval(a[1], s)), s)


@rx(HM + r'(get|get_mut)$')
def hm_get(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    k = e.sval(a[1], s)
    h = e.map_has(e.load(s, loc, proj), k)
    r = N('ref', loc, proj + (('key', k),))
    if h is TRUE:
        return ret(some(r), s)
    if h is FALSE:
        return ret(NONE, s)
    return [('ret', some(r) if b else NONE, s2) for b, s2 in fork(e, s, h)]


@rx(r'^<std::collections::hash::map::HashMap<K, V, S(, A)?> as core::ops::index::Index<&Q>>::index$')
def hm_index(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    k = e.sval(a[1], s)
    h = e.map_has(e.load(s, loc, proj), k)
    r = N('ref', loc, proj + (('key', k),))
    if h is TRUE:
        return ret(r, s)
    if e.panics:
        return [('ret', r, s2) if b else ('panic', N('panic', 'nokey', ''), s2) for b, s2 in fork(e, s, h)]
    if h is FALSE or s.f.ev(h) is False:
        return [('panic', N('panic', 'nokey', ''), s)]
    s.f.assume(h, True)
    return ret(r, s)


ENTRY = 'std::collections::hash::map::Entry'


@rx(HM + r'entry$')
def hm_entry(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    k = e.sval(a[1], s)
    ent = N('mapentry', N('ref', loc, proj), k)
    return [('ret', N('agg', ENTRY, 0 if b else 1, ent), s2) for b, s2 in fork(e, s, e.map_has(e.load(s, loc, proj), k))]


@rx(r'(hash_map|hash::map)::Entry::<.*>::(or_insert|or_insert_with|or_insert_with_key|or_default|and_modify)$')
def hm_entry2(e, c, a, tys, dty, s, site):
    ent = a[0]
    if not isn(ent, 'agg') or ent[1] != ENTRY:
        return None
    n = c['path'].split('::')[-1]
    b, me = ent[2] == 0, ent[3]
    loc, proj = e.target(me[1])
    k = me[2]
    r = N('ref', loc, proj + (('key', k),))
    if n == 'and_modify':
        if not b:
            return ret(ent, s)
        return [(kk, ent if kk == 'ret' else v, q) for kk, v, q in e.call_value(fnval(e, a[1]), [r], [None], None, s, site)]
    if b:
        return ret(r, s)
    if n == 'or_default':
        # the same as or_insert_with(Default::default) for the types whose default is known
        v = default_of(e, tys, dty)
        if v is None:
            return None
        new = [('ret', v, s)]
    elif n == 'or_insert':
        new = [('ret', a[1], s)]
    else:
        new = e.call_value(fnval(e, a[1]), [N('ref', e.new_h(s, k), ())] if n == 'or_insert_with_key' else [], [None] if n == 'or_insert_with_key' else [], None, s, site)
    return [(kk, v, q) if kk != 'ret' else ('ret', entry_insert(e, q, loc, proj, k, v, site), q) for kk, v, q in new]


def entry_insert(e, q, loc, proj, k, v, site):
    mm = e.load(q, loc, proj)
    q.event('mapinsert', e.deep(mm, q), k, v, site)
    e.store(q, loc, proj, N('mapins', mm, k, v))
    return N('ref', loc, proj + (('key', k),))


def default_of(e, tys, dty):
    d = e.db.ty(dty) if dty else {}
    t = d.get('to') if d.get('k') == 'ref' else None
    return default_value(t) if t else None


@rx(r'(hash_map|hash::map)::(Occupied|Vacant)Entry::<.*>::(get|get_mut|into_mut|insert|insert_entry|key|into_key|remove|remove_entry)$')
def hm_entry3(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    me = e.deref(s, a[0]) if a[0].t[0] == 'ref' else a[0]
    if not isn(me, 'mapentry'):
        return None
    loc, proj = e.target(me[1])
    k = me[2]
    r = N('ref', loc, proj + (('key', k),))
    if n == 'key':
        return ret(N('ref', e.new_h(s, k), ()), s)
    if n == 'into_key':
        return ret(k, s)
    if n in ('get', 'get_mut', 'into_mut'):
        return ret(r, s)
    if '::VacantEntry' in c['path']:
        v = entry_insert(e, s, loc, proj, k, a[1], site)
        return ret(me if n == 'insert_entry' else v, s)
    mm = e.load(s, loc, proj)
    old = e.map_get(mm, k)
    if n == 'insert':
        s.event('mapinsert', e.deep(mm, s), k, a[1], site)
        e.store(s, loc, proj, N('mapins', mm, k, a[1]))
        return ret(old, s)
    e.store(s, loc, proj, N('maprem', mm, k))
    return ret(old if n == 'remove' else tup(k, old), s)


@rx(HM + r'remove$')
def hm_remove(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    mm = e.load(s, loc, proj)
    k = e.sval(a[1], s)
    h = e.map_has(mm, k)
    old = e.map_get(mm, k)
    e.store(s, loc, proj, N('maprem', mm, k))
    if h is TRUE:
        return ret(some(old), s)
    if h is FALSE:
        return ret(NONE, s)
    return [('ret', some(old) if b else NONE, s2) for b, s2 in fork(e, s, h)]


def map_len(mm):
    n = 0
    keys = []
    x = mm
    while x.t[0] in ('mapins', 'mapset'):
        if x.t[0] == 'mapins':
            keys.append(x[2])
        x = x[1]
    if x.t[0] == 'mapnew' and all(isn(k, 'c') for k in keys):
        return ci(len(set(keys)))
    if mm.t[0] == 'mapset':
        return map_len(mm[1])
    return N('maplen', mm)


@rx(HM + r'(len)$|^std::collections::hash::set::HashSet::<T, S, A>::len$')
def hm_len(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    return ret(map_len(e.load(s, loc, proj)), s)


@rx(HM + r'(is_empty)$|^std::collections::hash::set::HashSet::<T, S, A>::is_empty$')
def hm_empty(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    n = map_len(e.load(s, loc, proj))
    if not isn(n, 'c'):
        s.f.add_ge0(n)
    return ret(ieq(n, ci(0)), s)


@rx(HM + r'clear$')
def hm_clear(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    e.store(s, loc, proj, N('mapnew'))
    return ret(UNIT, s)


@rx(r'^std::collections::hash::set::HashSet::<T, S, A>::insert$')
def hs_insert(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    mm = e.load(s, loc, proj)
    k = e.sval(a[1], s)
    h = e.map_has(mm, k)
    e.store(s, loc, proj, N('mapins', mm, k, UNIT))
    return ret(neg(h), s)


# ------------------------------------------------------------------ iterators
RANGE = 'core::ops::range::Range'


def it(*x):
    return N('it', *x)


def as_iter(e, s, v, ty):
    """IntoIterator::into_iter on a value"""
    if v.t[0] == 'it':
        return v
    if v.t[0] == 'agg' and v[1] == RANGE:
        return v
    if v.t[0] == 'agg' and v[1] == 'core::ops::range::RangeInclusive':
        return N('agg', RANGE, 0, v[3], padd(v[4], ci(1)))
    if v.t[0] == 'agg' and v[1] == 'core::ops::range::RangeFrom':
        return it('from', v[3])
    if v.t[0] == 'agg' and v[1] == 'core::option::Option':
        return it('into', N('seq', *v.t[3:]), ci(0))
    d = e.db.ty(ty) if ty else {}
    if v.t[0] == 'ref' and v[1].t[0] != 'K':
        loc, proj = e.target(v)
        x = e.load(s, loc, proj)
        if x.t[0] == 'it' or (x.t[0] == 'agg' and x[1] == RANGE):
            return it('byref', v)
    if d.get('k') in ('ref', 'ptr'):
        loc, proj = inner(e, s, v)
        d2 = d
        while d2.get('k') in ('ref', 'ptr'):
            d2 = e.db.ty(d2['to'])
        if d2.get('k') == 'adt' and ('HashMap' in d2['adt'] or 'HashSet' in d2['adt']):
            mm = e.load(s, loc, proj)
            if 'HashSet' in d2['adt']:
                return it('hkeys', mm, ci(0))
            if d.get('mut'):
                return it('hmut', N('ref', loc, proj), mm, ci(0))
            return it('href', N('ref', loc, proj), mm, ci(0))
        if d2.get('k') in ('slice', 'array') or (d2.get('k') == 'adt' and d2['adt'] == 'alloc::vec::Vec'):
            return it('slice', N('ref', loc, proj), ci(0))
        if d2.get('k') == 'adt' and 'serde_json' not in d2['adt'] and False:
            return None
        return it('opq', e.deep(v, s), ci(0), None)
    if d.get('k') == 'array' or (d.get('k') == 'adt' and d['adt'] == 'alloc::vec::Vec') or v.t[0] in ('seq', 'push', 'rep', 'append'):
        return it('into', v, ci(0))
    if d.get('k') == 'adt' and 'HashMap' in d['adt']:
        return it('hinto', v, ci(0))
    if d.get('k') == 'adt' and 'HashSet' in d['adt']:
        return it('hkeysv', v, ci(0))
    if v.t[0] in ('mapins', 'mapset', 'mapnew'):
        return it('hinto', v, ci(0))
    return it('opq', e.deep(v, s), ci(0), ty)


def opt_item_ty(e, ty):
    d = e.db.ty(ty) if ty else {}
    if d.get('k') == 'adt' and d['adt'] == 'core::option::Option':
        return d['args'][0]
    return None


def map_entries(mm):
    """entries of a map with a fully known, distinct constant key set, in insertion order"""
    ent = []
    x = mm
    while x.t[0] in ('mapins', 'mapset'):
        ent.append((x[2], x[3]))
        x = x[1]
    if x.t[0] != 'mapnew' or not all(isn(k, 'c') for k, _ in ent):
        return None
    out = {}
    for k, v in reversed(ent):
        out[k] = v
    return list(out.items())


def itnext(e, s, x, ity=None):
    """-> [(kind, newiter, item|None, st)]"""
    k = x.t[0]
    if k == 'agg' and x[1] == RANGE:
        lo, hi = x[3], x[4]
        out = []
        c = lt(lo, hi)
        for b, s2 in fork(e, s, c):
            if b:
                out.append(('ret', N('agg', RANGE, 0, padd(lo, ci(1)), hi), lo, s2))
            else:
                out.append(('ret', x, None, s2))
        return out
    if k == 'phi' or k == 'sym' or k == 'deref' or k == 'fld' or k == 'call' or k == 'mut':
        x = it('opq', x, ci(0), None)
        k = 'it'
    if k != 'it':
        return None
    kind = x[1]
    if kind == 'from':
        return [('ret', it('from', padd(x[2], ci(1))), x[2], s)]
    if kind == 'slice':
        ref, pos = x[2], x[3]
        q = e.deref(s, ref)
        n = e.seq_len(q)
        out = []
        for b, s2 in fork(e, s, lt(pos, n)):
            if b:
                loc, proj = e.target(ref)
                if proj and proj[-1][0] == 'sub':
                    sp = proj[-1]
                    r = N('ref', loc, proj[:-1] + (('ix', padd(sp[1], pos)),))
                else:
                    r = N('ref', loc, proj + (('ix', pos),))
                out.append(('ret', it('slice', ref, padd(pos, ci(1))), r, s2))
            else:
                out.append(('ret', x, None, s2))
        return out
    if kind == 'into':
        q, pos = x[2], x[3]
        n = e.seq_len(q)
        out = []
        for b, s2 in fork(e, s, lt(pos, n)):
            if b:
                out.append(('ret', it('into', q, padd(pos, ci(1))), e.seq_get(q, pos, s2), s2))
            else:
                out.append(('ret', x, None, s2))
        return out
    if kind in ('href', 'hmut', 'hkeys', 'hinto', 'hvals', 'hkeysv', 'hvalsmut'):
        mm = x[3] if kind in ('href', 'hmut', 'hvals', 'hvalsmut') else x[2]
        pos = x.t[-1]
        ent = map_entries(mm)
        n = ci(len(ent)) if ent is not None else map_len(mm)
        out = []
        for b, s2 in fork(e, s, lt(pos, n)):
            if not b:
                out.append(('ret', x, None, s2))
                continue
            if ent is not None and isn(pos, 'c'):
                kt, vt = ent[pos[2]]
            else:
                kty = None
                t = e.val_ty(mm)
                d = e.db.ty(t) if t else {}
                if d.get('k') == 'adt' and d.get('args'):
                    kty = d['args'][0]
                kt = N('keyat', mm, pos, kty)
                vt = e.map_get(mm, kt)
                s2.f.assume(N('has', mm, kt), True)
            t = list(x.t)
            t[-1] = padd(pos, ci(1))
            nx = N(*t)
            if kind == 'hkeys':
                item = kref(kt)
            elif kind == 'hkeysv':
                item = kt
            elif kind == 'hinto':
                item = tup(kt, vt)
            else:
                loc, proj = e.target(x[2])
                vr = N('ref', loc, proj + (('key', kt),))
                item = vr if kind in ('hvals', 'hvalsmut') else tup(kref(kt), vr)
            out.append(('ret', nx, item, s2))
        return out
    if kind == 'opq':
        src, pos, _ = x[2], x[3], x[4]
        out = []
        for b, s2 in fork(e, s, N('hasnext', src, pos)):
            if b:
                out.append(('ret', it('opq', src, padd(pos, ci(1)), x[4]), N('item', src, pos, ity), s2))
            else:
                out.append(('ret', x, None, s2))
        return out
    if kind == 'byref':
        loc, proj = e.target(x[2])
        r = itnext(e, s, e.load(s, loc, proj), ity)
        if r is None:
            return None
        out = []
        for kk, ni, item, s2 in r:
            if kk in ('ret', 'skip'):
                e.store(s2, loc, proj, ni)
                out.append((kk, x, item, s2))
            else:
                out.append((kk, ni, item, s2))
        return out
    if kind == 'skipwhile':
        inn, f, done = x[2], x[3], x[4]
        out = []
        r = itnext(e, s, inn)
        if r is None:
            return None
        for kk, ni, item, s2 in r:
            if kk != 'ret' or item is None:
                out.append((kk, it(kind, ni, f, done) if kk in ('ret', 'skip') else ni, item, s2))
                continue
            for b0, s3 in fork(e, s2, done):
                if b0:
                    out.append(('ret', it(kind, ni, f, done), item, s3))
                    continue
                for k3, v3, s4 in e.call_value(f, [N('ref', e.new_h(s3, item), ())], [None], 'bool', s3, kind):
                    if k3 != 'ret':
                        out.append((k3, v3, None, s4))
                        continue
                    for b, s5 in fork(e, s4, v3):
                        out.append(('skip', it(kind, ni, f, done), None, s5) if b else ('ret', it(kind, ni, f, TRUE), item, s5))
        return out
    if kind == 'repeat':
        return [('ret', x, x[2], s)]
    if kind == 'repeat_with':
        return [(k3, x, v3, s3) if k3 == 'ret' else (k3, v3, None, s3) for k3, v3, s3 in e.call_value(x[2], [], [], None, s, kind)]
    if kind == 'fromfn':
        out = []
        for k3, v3, s3 in e.call_value(x[2], [], [], None, s, kind):
            if k3 != 'ret':
                out.append((k3, v3, None, s3))
                continue
            for b, s4 in fork(e, s3, isvar(e, s3, v3, 1)):
                out.append(('ret', x, e.project(v3, ('f', 1, 0)) if b else None, s4))
        return out
    if kind == 'scan':
        inn, f, al = x[2], x[3], x[4]
        out = []
        r = itnext(e, s, inn)
        if r is None:
            return None
        for kk, ni, item, s2 in r:
            if kk != 'ret' or item is None:
                out.append((kk, it(kind, ni, f, al) if kk in ('ret', 'skip') else ni, item, s2))
                continue
            for k3, v3, s3 in e.call_value(f, [al, item], [None, None], None, s2, kind):
                if k3 != 'ret':
                    out.append((k3, v3, None, s3))
                    continue
                for b, s4 in fork(e, s3, isvar(e, s3, v3, 1)):
                    out.append(('ret', it(kind, ni, f, al), e.project(v3, ('f', 1, 0)) if b else None, s4))
        return out
    if kind == 'enum':
        inn, n = x[2], x[3]
        out = []
        for o in itnext(e, s, inn) or [None]:
            if o is None:
                return None
            kk, ni, item, s2 = o
            if kk == 'skip':
                out.append((kk, it('enum', ni, n), item, s2))
            elif kk != 'ret':
                out.append(o)
            elif item is None:
                out.append(('ret', it('enum', ni, n), None, s2))
            else:
                out.append(('ret', it('enum', ni, padd(n, ci(1))), tup(n, item), s2))
        return out
    if kind == 'map':
        inn, f = x[2], x[3]
        out = []
        r = itnext(e, s, inn)
        if r is None:
            return None
        for kk, ni, item, s2 in r:
            if kk != 'ret' or item is None:
                out.append((kk, it('map', ni, f) if kk in ('ret', 'skip') else ni, item, s2))
                continue
            for k3, v3, s3 in e.call_value(f, [item], [None], None, s2, 'map'):
                if k3 == 'ret':
                    out.append(('ret', it('map', ni, f), v3, s3))
                else:
                    out.append((k3, v3, None, s3))
        return out
    if kind in ('filter', 'filter_map'):
        # a bounded number of skips is not tracked: the filter is a condition on the item
        inn, f = x[2], x[3]
        out = []
        r = itnext(e, s, inn)
        if r is None:
            return None
        for kk, ni, item, s2 in r:
            if kk != 'ret' or item is None:
                out.append((kk, it(kind, ni, f) if kk in ('ret', 'skip') else ni, item, s2))
                continue
            arg = item
            if kind == 'filter':
                arg = N('ref', e.new_h(s2, item), ())
            for k3, v3, s3 in e.call_value(f, [arg], [None], 'bool' if kind == 'filter' else None, s2, kind):
                if k3 != 'ret':
                    out.append((k3, v3, None, s3))
                    continue
                if kind == 'filter':
                    for b, s4 in fork(e, s3, v3):
                        if b:
                            out.append(('ret', it(kind, ni, f), item, s4))
                        else:
                            out.append(('skip', it(kind, ni, f), None, s4))
                else:
                    for b, s4 in fork(e, s3, isvar(e, s3, v3, 1)):
                        if b:
                            out.append(('ret', it(kind, ni, f), e.project(v3, ('f', 1, 0)), s4))
                        else:
                            out.append(('skip', it(kind, ni, f), None, s4))
        return out
    if kind == 'take':
        inn, n = x[2], x[3]
        out = []
        for b, s1 in fork(e, s, lt(ci(0), n)):
            if not b:
                out.append(('ret', x, None, s1))
                continue
            r = itnext(e, s1, inn)
            if r is None:
                return None
            for kk, ni, item, s2 in r:
                out.append((kk, it('take', ni, psub(n, ci(1)) if kk == 'ret' else n) if kk in ('ret', 'skip') else ni, item, s2))
        return out
    if kind == 'skip':
        inn, n = x[2], x[3]
        y = it_skip(e, s, inn, n)
        return None if y is None else itnext(e, s, y, ity)
    if kind == 'cycle':
        cur, base = x[2], x[3]
        out = []
        r = itnext(e, s, cur)
        if r is None:
            return None
        for kk, ni, item, s1 in r:
            if kk != 'ret' or item is not None:
                out.append((kk, it('cycle', ni, base) if kk in ('ret', 'skip') else ni, item, s1))
                continue
            r2 = itnext(e, s1, base)
            if r2 is None:
                return None
            for k2, nb, ib, s2 in r2:
                out.append((k2, it('cycle', nb, base) if k2 in ('ret', 'skip') else nb, ib, s2))
        return out
    if kind == 'chain':
        a, b = x[2], x[3]
        out = []
        r = itnext(e, s, a)
        if r is None:
            return None
        for kk, na, ia, s1 in r:
            if kk != 'ret' or ia is not None:
                out.append((kk, it('chain', na, b) if kk in ('ret', 'skip') else na, ia, s1))
                continue
            r2 = itnext(e, s1, b)
            if r2 is None:
                return None
            for k2, nb, ib, s2 in r2:
                out.append((k2, it('chain', na, nb) if k2 in ('ret', 'skip') else nb, ib, s2))
        return out
    if kind in ('take_while', 'map_while', 'inspect'):
        inn, f = x[2], x[3]
        out = []
        r = itnext(e, s, inn)
        if r is None:
            return None
        for kk, ni, item, s2 in r:
            if kk != 'ret' or item is None:
                out.append((kk, it(kind, ni, f) if kk in ('ret', 'skip') else ni, item, s2))
                continue
            arg = item
            if kind != 'map_while':
                arg = N('ref', e.new_h(s2, item), ())
            for k3, v3, s3 in e.call_value(f, [arg], [None], 'bool' if kind == 'take_while' else None, s2, kind):
                if k3 != 'ret':
                    out.append((k3, v3, None, s3))
                elif kind == 'inspect':
                    out.append(('ret', it(kind, ni, f), item, s3))
                elif kind == 'take_while':
                    for b, s4 in fork(e, s3, v3):
                        out.append(('ret', it(kind, ni, f), item if b else None, s4))
                else:
                    for b, s4 in fork(e, s3, isvar(e, s3, v3, 1)):
                        out.append(('ret', it(kind, ni, f), e.project(v3, ('f', 1, 0)) if b else None, s4))
        return out
    if kind == 'step':
        lo, hi, n = x[2], x[3], x[4]
        out = []
        for b, s2 in fork(e, s, lt(lo, hi)):
            out.append(('ret', it('step', padd(lo, n), hi, n) if b else x, lo if b else None, s2))
        return out
    if kind == 'flat':
        # outer iterator of iterables, inner: current one (an iterator or None)
        outer, inner_ = x[2], x[3]
        out = []
        st = [(s, inner_)]
        for q, inn in st:
            if inn is not None:
                r = itnext(e, q, inn)
                if r is None:
                    return None
            else:
                r = [('ret', None, None, q)]
            for kk, ni, item, s2 in r:
                if kk != 'ret' or item is not None:
                    out.append((kk, it('flat', outer, ni) if kk in ('ret', 'skip') else ni, item, s2))
                    continue
                r2 = itnext(e, s2, outer)
                if r2 is None:
                    return None
                for k2, no, sub, s3 in r2:
                    if k2 != 'ret':
                        out.append((k2, it('flat', no, None) if k2 == 'skip' else no, sub, s3))
                    elif sub is None:
                        out.append(('ret', it('flat', no, None), None, s3))
                    else:
                        b = as_sub(e, s3, sub)
                        if b is None:
                            return None
                        out.append(('skip', it('flat', no, b), None, s3))
        return out
    if kind == 'zip':
        a, b = x[2], x[3]
        out = []
        r = itnext(e, s, a)
        if r is None:
            return None
        for kk, na, ia, s1 in r:
            if kk != 'ret' or ia is None:
                out.append((kk, it('zip', na, b) if kk in ('ret', 'skip') else na, ia, s1))
                continue
            if has_filter(b):
                return None
            r2 = itnext(e, s1, b)
            if r2 is None:
                return None
            for k2, nb, ib, s2 in r2:
                if k2 != 'ret' or ib is None:
                    out.append((k2, it('zip', na, nb) if k2 == 'ret' else nb, ib, s2))
                else:
                    out.append(('ret', it('zip', na, nb), tup(ia, ib), s2))
        return out
    if kind == 'copied':
        out = []
        r = itnext(e, s, x[2])
        if r is None:
            return None
        for kk, ni, item, s2 in r:
            if kk == 'ret' and item is not None:
                item = e.deref(s2, item)
            out.append((kk, it('copied', ni) if kk in ('ret', 'skip') else ni, item, s2))
        return out
    if kind == 'rev':
        inn = x[2]
        if inn.t[0] == 'agg' and inn[1] == RANGE:
            lo, hi = inn[3], inn[4]
            out = []
            for b, s2 in fork(e, s, lt(lo, hi)):
                if b:
                    h2 = psub(hi, ci(1))
                    out.append(('ret', it('rev', N('agg', RANGE, 0, lo, h2)), h2, s2))
                else:
                    out.append(('ret', x, None, s2))
            return out
        y = rev_of(e, s, inn)
        return None if y is None or y is x else itnext(e, s, y, ity)
    if kind == 'revenum':
        out = []
        for kk, ni, item, s2 in itnext(e, s, x[2]):
            if kk == 'ret' and item is not None:
                if x[4]:
                    item = e.deref(s2, item)
                item = tup(padd(psub(ni[5], ni[4]), x[3]), item)
            out.append((kk, it('revenum', ni, x[3], x[4]), item, s2))
        return out
    if kind == 'revs':
        mode, src, lo, hi = x[2], x[3], x[4], x[5]
        out = []
        for b, s2 in fork(e, s, lt(lo, hi)):
            if b:
                h2 = psub(hi, ci(1))
                if mode == 'slice':
                    loc, proj = e.target(src)
                    item = N('ref', loc, proj + (('ix', h2),))
                else:
                    item = e.seq_get(src, h2, s2)
                out.append(('ret', it('revs', mode, src, lo, h2), item, s2))
            else:
                out.append(('ret', x, None, s2))
        return out
    if kind == 'stepby':
        base, n = x[2], x[3]
        out = []
        r = itnext(e, s, base)
        if r is None:
            return None
        for kk, ni, item, s2 in r:
            if kk == 'ret' and item is not None:
                y = it_skip(e, s2, ni, psub(n, ci(1)))
                if y is None:
                    return None
                ni = y
            out.append((kk, it('stepby', ni, n) if kk in ('ret', 'skip') else ni, item, s2))
        return out
    if kind in ('chunks', 'windows', 'chunks_exact'):
        ref, n, pos = x[2], x[3], x[4]
        q = e.deref(s, ref)
        ln = e.seq_len(q)
        loc, proj = e.target(ref)
        out = []
        for b, s2 in fork(e, s, lt(pos, ln) if kind == 'chunks' else le(padd(pos, n), ln)):
            if not b:
                out.append(('ret', x, None, s2))
                continue
            nx = it(kind, ref, n, padd(pos, ci(1) if kind == 'windows' else n))
            for full, s3 in (fork(e, s2, le(padd(pos, n), ln)) if kind == 'chunks' else [(True, s2)]):
                hi = padd(pos, n) if full else ln
                if proj and proj[-1][0] == 'sub':
                    b0 = proj[-1][1]
                    r = N('ref', loc, proj[:-1] + (('sub', padd(b0, pos), padd(b0, hi)),))
                else:
                    r = N('ref', loc, proj + (('sub', pos, hi),))
                out.append(('ret', nx, r, s3))
        return out
    return None


def as_sub(e, s, v):
    if v.t[0] == 'ref':
        x = e.deref(s, v)
        loc, proj = e.target(v)
        if x.t[0] == 'agg' and x[1] == 'core::option::Option':
            return it('into', N('seq', *([N('ref', loc, proj + (('f', 1, 0),))] if x[2] == 1 else [])), ci(0))
        t = e.val_ty(x)
        d = e.db.ty(t) if t else {}
        if x.t[0] in ('seq', 'push', 'rep', 'append', 'ecap') or (d.get('k') == 'adt' and d['adt'] == 'alloc::vec::Vec'):
            return it('slice', v, ci(0))
        if d.get('k') == 'adt' and 'HashMap' in d['adt']:
            return it('href', v, x, ci(0))
        return None
    if v.t[0] == 'agg' and v[1] == 'core::result::Result':
        return it('into', N('seq', *(v.t[3:] if v[2] == 0 else ())), ci(0))
    return as_iter(e, s, v, e.val_ty(v))


def rev_of(e, s, inn):
    """the iterator `inn` reversed, in the form it keeps while it advances"""
    if inn.t[0] == 'agg' and inn[1] == RANGE:
        return it('rev', inn)
    if inn.t[0] != 'it':
        return None
    if inn[1] in ('copied', 'map'):
        y = rev_of(e, s, inn[2])
        return None if y is None else N(*(inn.t[:2] + (y,) + inn.t[3:]))
    if inn[1] == 'rev':
        return inn[2]
    if inn[1] in ('slice', 'into'):
        q = e.deref(s, inn[2]) if inn[1] == 'slice' else inn[2]
        return it('revs', inn[1], inn[2], inn[3], e.seq_len(q))
    if inn[1] == 'revs':
        return None
    if inn[1] == 'enum':
        y = inn[2]
        cp = y.t[0] == 'it' and y[1] == 'copied' and y[2].t[0] == 'it' and y[2][1] in ('slice', 'into')
        base = y[2] if cp else y
        if base.t[0] != 'it' or base[1] not in ('slice', 'into'):
            return None
        n = e.seq_len(e.deref(s, base[2]) if base[1] == 'slice' else base[2])
        return it('revenum', it('revs', base[1], base[2], base[3], n), inn[3], cp)
    return None


def it_skip(e, s, inn, n):
    if inn.t[0] == 'agg' and inn[1] == RANGE:
        return N('agg', RANGE, 0, padd(inn[3], n), inn[4])
    if inn.t[0] != 'it':
        return None
    k = inn[1]
    if k in ('slice', 'into', 'href', 'hmut', 'hkeys', 'hinto', 'hvals', 'hkeysv', 'hvalsmut'):
        t = list(inn.t)
        t[-1] = padd(t[-1], n)
        return N(*t)
    if k == 'opq':
        return it('opq', inn[2], padd(inn[3], n), inn[4])
    if k == 'from':
        return it('from', padd(inn[2], n))
    if k in ('chunks', 'chunks_exact'):
        return it(k, inn[2], inn[3], padd(inn[4], pmul(inn[3], n)))
    if k == 'windows':
        return it(k, inn[2], inn[3], padd(inn[4], n))
    if k == 'skip':
        return it('skip', inn[2], padd(inn[3], n))
    if k in ('copied', 'map'):
        y = it_skip(e, s, inn[2], n)
        return None if y is None else N(*(inn.t[:2] + (y,) + inn.t[3:]))
    if k == 'enum':
        y = it_skip(e, s, inn[2], n)
        return None if y is None else it('enum', y, padd(inn[3], n))
    if k == 'zip':
        a, b = it_skip(e, s, inn[2], n), it_skip(e, s, inn[3], n)
        return None if a is None or b is None else it('zip', a, b)
    if k == 'revs':
        return it('revs', inn[2], inn[3], inn[4], psub(inn[5], n))
    if k == 'rev' and inn[2].t[0] == 'agg' and inn[2][1] == RANGE:
        return it('rev', N('agg', RANGE, 0, inn[2][3], psub(inn[2][4], n)))
    return None


def isvar(e, s, v, vi):
    k = e.variant_of(v, s)
    if k is not None:
        return cb(k == vi)
    return N('isvar', v, vi)


@rx(r'IntoIterator(<.*>)?(>| for .*>)::into_iter$|^core::iter::traits::collect::IntoIterator::into_iter$')
def into_iter(e, c, a, tys, dty, s, site):
    r = as_iter(e, s, a[0], tys[0])
    if r is not None and r.t[0] == 'it' and flat_outer(r) is not None and finite(r):
        # a loop over a flattened iterator: over the sequence of its items, when taking them changes nothing
        q = s.copy()

        def body(p, al, x):
            p.mem[al] = pushv(p.mem[al], x)
            return [('back', None, p)]
        outs = drive(e, q, r, N('seq'), body, site, 'flattened')
        if outs is not None and len(outs) == 1 and outs[0][0] == 'ret' and all(outs[0][2].mem.get(l) is v for l, v in s.mem.items()):
            return ret(it('into', outs[0][1], ci(0)), outs[0][2])
    return None if r is None else ret(r, s)


def finite(x):
    if x.t[0] == 'it':
        return x[1] not in ('from', 'cycle', 'repeat', 'repeat_with', 'from_fn', 'successors') and all(finite(y) for y in x.t[2:] if isinstance(y, Node) and y.t[0] == 'it')
    return True


@rx(r'^core::slice::<impl \[T\]>::iter(_mut)?$')
def sl_iter(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    return ret(it('slice', N('ref', loc, proj), ci(0)), s)


@rx(r'^core::slice::<impl \[T\]>::(chunks|chunks_exact|windows|chunks_mut|chunks_exact_mut)$')
def sl_chunks(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    out = []
    for b, s2 in fork(e, s, le(ci(1), a[1])):
        out.append(('ret', it(c['path'].split('::')[-1].replace('_mut', ''), N('ref', loc, proj), a[1], ci(0)), s2) if b else ('panic', N('panic', 'chunk size', ()), s2))
    return out


@rx(HM + r'(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain)$')
def hm_iter(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    if n.startswith('into_') or n == 'drain':
        return None
    loc, proj = inner(e, s, a[0])
    mm = e.load(s, loc, proj)
    r = N('ref', loc, proj)
    return ret({'iter': it('href', r, mm, ci(0)), 'iter_mut': it('hmut', r, mm, ci(0)), 'keys': it('hkeys', mm, ci(0)),
                'values': it('hvals', r, mm, ci(0)), 'values_mut': it('hvalsmut', r, mm, ci(0))}[n], s)


@rx(r'^std::collections::hash::set::HashSet::<T, S, A>::iter$')
def hs_iter(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    return ret(it('hkeys', e.load(s, loc, proj), ci(0)), s)


STRPAT = ('split|rsplit|splitn|rsplitn|split_inclusive|split_terminator|matches|match_indices|contains|starts_with|ends_with|find|rfind|replace|replacen|trim_matches|'
          'trim_start_matches|trim_end_matches|split_once|rsplit_once|strip_prefix|strip_suffix')


def char_pred(e, s, f, site):
    """a closure used as a character pattern, as a condition on an abstract character"""
    f = fnval(e, f)
    g = e.deref(s, f) if f.t[0] == 'ref' and f[1].t[0] != 'K' else f
    if g.t[0] not in ('clo', 'fn'):
        return None
    x = N('chvar', e.deep(g, s))
    r = []
    for k, v, q in e.call_value(f, [x], ['char'], 'bool', s.copy(), site):
        if k != 'ret':
            return None
        r.append((q.conds[len(s.conds):], e.deep(v, q)))
    return N('chpred', x, *[N('chalt', v, *[N('chcond', c, cb(t)) for c, t in cs]) for cs, v in r])


@rx(r'^(core|alloc)::str::<impl str>::(%s)$' % STRPAT)
def str_pat(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    k = 2 if n in ('splitn', 'rsplitn') else 1
    p = char_pred(e, s, a[k], site)
    if n in ('split', 'rsplit', 'splitn', 'rsplitn', 'split_inclusive', 'split_terminator', 'matches', 'match_indices'):
        return ret(it('opq', N('src', n, *[p if i == k and p is not None else e.sval(x, s) for i, x in enumerate(a)]), ci(0), None), s)
    if p is None:
        return None
    b = [p if i == k else e.sval(x, s) for i, x in enumerate(a)]
    return e.opaque_result(N('call', c.get('rpath') or c.get('path'), tuple(e.deep(x, s) for x in b), dty, tuple(c.get('targs') or ())), c, b, tys, dty, s, site)


@rx(r'^core::str::<impl str>::(chars|lines|split_whitespace|split_ascii_whitespace|bytes|char_indices)$|^regex::regex::string::Regex::(find_iter|captures_iter|split)$')
def opq_iter(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    if c['path'].startswith('regex'):
        n = {'split': 'rxsplit'}.get(n, n)
    return ret(it('opq', N('src', n, *[e.sval(x, s) for x in a]), ci(0), None), s)


def fnref(e, s, f):
    """a closure an adapter calls again and again"""
    if f.t[0] == 'zst':
        d = e.db.ty(f[1])
        if d.get('k') == 'closure':
            f = N('clo', d['def'])
    if f.t[0] == 'clo':
        b = e.db.bodies.get(f[1])
        if b is not None and b['argc'] and e.tykind(b['locals'][1]) == 'ref':
            f = N('ref', e.new_h(s, f, e.db.deref_ty(b['locals'][1])), ())
    return f


def peekable(x):
    """looking at the next item of this iterator changes nothing"""
    if x.t[0] == 'agg' and x[1] == RANGE:
        return True
    if x.t[0] != 'it':
        return False
    if x[1] in ('opq', 'slice', 'into', 'revs', 'from', 'href', 'hkeys', 'hvals'):
        return True
    if x[1] in ('enum', 'copied', 'rev', 'skip'):
        return peekable(x[2])
    return x[1] in ('zip', 'chain') and peekable(x[2]) and peekable(x[3])


@rx(r'^core::iter::adapters::peekable::Peekable::<I>::(peek|next_if|next_if_eq)$')
def it_peek(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    loc, proj = e.target(a[0])
    x = e.load(s, loc, proj)
    if x.t[0] == 'phi':
        x = it('opq', x, ci(0), None)
    if not peekable(x):
        return None
    ity = opt_item_ty(e, dty)
    if n == 'peek' and ity:
        ity = e.db.deref_ty(ity)
    r = itnext(e, s, x, ity)
    if r is None:
        return None
    out = []
    for kk, ni, item, s2 in r:
        if kk != 'ret':
            return None
        if item is None:
            out.append(('ret', NONE, s2))
        elif n == 'peek':
            out.append(('ret', some(kref(item)), s2))
        elif n == 'next_if':
            for k3, v3, s3 in e.call_value(a[1], [kref(item)], [None], 'bool', s2, site):
                if k3 != 'ret':
                    out.append((k3, v3, s3))
                    continue
                for b, s4 in fork(e, s3, v3):
                    if b:
                        e.store(s4, loc, proj, ni)
                    out.append(('ret', some(item) if b else NONE, s4))
        else:
            return None
    return out


@rx(r'^core::iter::sources::(once::once|repeat::repeat|repeat_n::repeat_n|repeat_with::repeat_with|from_fn::from_fn)$')
def it_source(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    if n == 'once':
        return ret(it('into', N('seq', a[0]), ci(0)), s)
    if n == 'repeat':
        return ret(it('repeat', a[0]), s)
    if n == 'repeat_n':
        return ret(it('into', N('rep', a[0], a[1]), ci(0)), s)
    return ret(it('fromfn' if n == 'from_fn' else n, fnref(e, s, a[0])), s)


@rx(r'^alloc::vec::Vec::<T, A>::(retain|retain_mut)$')
def vec_retain(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    f = fnref(e, s, a[1])

    def body(q, al, x):
        h = e.new_h(q, x)
        out = []
        for k, v, q2 in e.call_value(f, [N('ref', h, ())], [None], 'bool', q, site):
            if k != 'ret':
                out.append((k, v, q2))
                continue
            for b, q3 in fork(e, q2, v):
                if b:
                    q3.mem[al] = pushv(q3.mem[al], q3.mem[h])
                out.append(('back', None, q3))
        return out
    r = drive(e, s, it('into', e.load(s, loc, proj), ci(0)), N('seq'), body, site, 'retain', None)
    if r is None:
        return None
    out = []
    for k, v, q in r:
        if k == 'ret':
            e.store(q, loc, proj, v)
            out.append(('ret', UNIT, q))
        else:
            out.append((k, v, q))
    return out


@rx(r'^std::collections::hash::(map::HashMap::<K, V, S, A>|set::HashSet::<T, S, A>)::retain$')
def hm_retain(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    f = fnref(e, s, a[1])
    kv = 'HashMap' in c['path']

    def body(q, al, x):
        k = e.sval(e.project(x, ('f', None, 0)) if kv else x, q)
        h = e.new_h(q, e.project(x, ('f', None, 1)) if kv else UNIT)
        out = []
        for kk, v, q2 in e.call_value(f, [kref(k)] + ([N('ref', h, ())] if kv else []), [None] * (2 if kv else 1), 'bool', q, site):
            if kk != 'ret':
                out.append((kk, v, q2))
                continue
            for b, q3 in fork(e, q2, v):
                if b:
                    q3.mem[al] = N('mapins', q3.mem[al], k, q3.mem[h])
                out.append(('back', None, q3))
        return out
    mm = e.load(s, loc, proj)
    r = drive(e, s, it('hinto' if kv else 'hkeysv', mm, ci(0)), N('mapnew'), body, site, 'retain', None)
    if r is None:
        return None
    out = []
    for k, v, q in r:
        if k == 'ret':
            e.store(q, loc, proj, v)
            out.append(('ret', UNIT, q))
        else:
            out.append((k, v, q))
    return out


@rx(r'^<(alloc::vec::Vec<.*>|alloc::string::String|std::collections::hash::(map::HashMap|set::HashSet)<.*>) as core::clone::Clone>::clone_from$')
def clone_from(e, c, a, tys, dty, s, site):
    loc, proj = inner(e, s, a[0])
    e.store(s, loc, proj, e.sval(a[1], s))
    return ret(UNIT, s)


@rx(r'^alloc::vec::Vec::<T, A>::drain$')
def vec_drain(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    q = e.load(s, loc, proj)
    r = a[1]
    rng = r[1].split('::')[-1] if r.t[0] == 'agg' else 'RangeFull' if r.t[0] == 'zst' or r is UNIT else ''
    n = e.seq_len(q)
    if rng == 'RangeFull':
        e.store(s, loc, proj, N('seq'))
        return ret(it('into', q, ci(0)), s)
    if rng in ('RangeFrom', 'RangeTo'):
        at = r[3]
        out = []
        for b, s2 in fork(e, s, le(at, n)):
            if not b:
                out.append(('panic', N('panic', 'drain', ()), s2))
                continue
            head, tail = N('slice', q, ci(0), at), N('slice', q, at, n)
            e.store(s2, loc, proj, head if rng == 'RangeFrom' else tail)
            out.append(('ret', it('into', tail if rng == 'RangeFrom' else head, ci(0)), s2))
        return out
    return None


@rx(r'^alloc::vec::Vec::<T, A>::split_off$')
def vec_split_off(e, c, a, tys, dty, s, site):
    loc, proj = e.target(a[0])
    q = e.load(s, loc, proj)
    n = e.seq_len(q)
    out = []
    for b, s2 in fork(e, s, le(a[1], n)):
        if not b:
            out.append(('panic', N('panic', 'split_off', ()), s2))
            continue
        e.store(s2, loc, proj, N('slice', q, ci(0), a[1]))
        out.append(('ret', N('slice', q, a[1], n), s2))
    return out


@rx(r'^core::slice::<impl \[T\]>::(split_at|split_at_mut|split_first|split_last)$')
def sl_split(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    loc, proj = inner(e, s, a[0])
    ln = e.seq_len(e.load(s, loc, proj))
    b0 = ci(0)
    if proj and proj[-1][0] == 'sub':
        b0 = proj[-1][1]
        proj = proj[:-1]
    sub = lambda lo, hi: N('ref', loc, proj + (('sub', padd(b0, lo), padd(b0, hi)),))
    out = []
    if n.startswith('split_at'):
        for b, s2 in fork(e, s, le(a[1], ln)):
            out.append(('ret', tup(sub(ci(0), a[1]), sub(a[1], ln)), s2) if b else ('panic', N('panic', 'split_at', ()), s2))
        return out
    for b, s2 in fork(e, s, lt(ci(0), ln)):
        if not b:
            out.append(('ret', NONE, s2))
        elif n == 'split_first':
            out.append(('ret', some(tup(N('ref', loc, proj + (('ix', b0),)), sub(ci(1), ln))), s2))
        else:
            l1 = psub(ln, ci(1))
            out.append(('ret', some(tup(N('ref', loc, proj + (('ix', padd(b0, l1)),)), sub(ci(0), l1))), s2))
    return out


@rx(r'^core::iter::traits::iterator::Iterator::(enumerate|map|filter|filter_map|take|skip|zip|cloned|copied|rev|by_ref|into_iter|chain|take_while|map_while|inspect|fuse|step_by|flatten|flat_map|skip_while|scan|peekable|cycle)$|^core::iter::adapters::zip::zip$')
def it_adapt(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    if n == 'by_ref':
        return ret(a[0], s)
    base = as_iter(e, s, a[0], tys[0])
    if base is None:
        return None
    if n == 'enumerate':
        return ret(it('enum', base, ci(0)), s)
    if n == 'fuse' or (n == 'peekable' and peekable(base)):
        return ret(base, s)
    if n == 'peekable':
        return None
    if n == 'scan':
        return ret(it('scan', base, fnref(e, s, a[2]), N('ref', e.new_h(s, a[1]), ())), s)
    if n == 'skip_while':
        return ret(it('skipwhile', base, fnref(e, s, a[1]), FALSE), s)
    if n == 'chain':
        b = as_iter(e, s, a[1], tys[1])
        return None if b is None else ret(it('chain', base, b), s)
    if n == 'step_by':
        if base.t[0] == 'agg' and base[1] == RANGE:
            return ret(it('step', base[3], base[4], a[1]), s)
        if it_skip(e, s, base, ci(1)) is None:
            return None
        out = []
        for b, s2 in fork(e, s, le(ci(1), a[1])):
            out.append(('ret', it('stepby', base, a[1]), s2) if b else ('panic', N('panic', 'step_by', ()), s2))
        return out
    if n == 'flatten':
        return ret(it('flat', base, None), s)
    if n in ('map', 'filter', 'filter_map', 'take_while', 'map_while', 'inspect', 'flat_map'):
        f = fnref(e, s, a[1])
        if n == 'flat_map':
            return ret(it('flat', it('map', base, f), None), s)
        return ret(it(n, base, f), s)
    if n == 'cycle':
        return ret(it('cycle', base, base), s)
    if n == 'skip':
        y = it_skip(e, s, base, a[1])
        return ret(it(n, base, a[1]) if y is None else y, s)
    if n == 'take':
        return ret(it(n, base, a[1]), s)
    if n == 'zip':
        b = as_iter(e, s, a[1], tys[1])
        return None if b is None else ret(it('zip', base, b), s)
    if n in ('cloned', 'copied'):
        return ret(it('copied', base), s)
    if n == 'rev':
        return ret(rev_of(e, s, base) or it('rev', base), s)
    return None


def wrap_next(e, s, loc, proj, ity=None, depth=0):
    x = e.load(s, loc, proj)
    r = itnext(e, s, x, ity)
    if r is None:
        return None
    out = []
    skips = []
    for kk, ni, item, s2 in r:
        if kk == 'ret':
            e.store(s2, loc, proj, ni)
            out.append(('ret', NONE if item is None else some(item), s2))
        elif kk == 'skip':
            skips.append((ni, s2))
        else:
            out.append((kk, ni, s2))
    return out, skips


@rx(r'core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)(<.*>)?(>| for .*>)?::(next|next_back)$')
def it_next(e, c, a, tys, dty, s, site):
    if (c['rpath'] or '').startswith(('gmatlib', 'geqslib', 'nexsys', 'neapolitan')):
        return None
    if c['path'].endswith('next_back'):
        return None
    loc, proj = e.target(a[0])
    x = e.load(s, loc, proj)
    if x.t[0] == 'ref':
        loc, proj = e.target(x)
    # filters: loop over skipped items
    if has_filter(e.load(s, loc, proj)):
        def step(st):
            r = wrap_next(e, st, loc, proj, opt_item_ty(e, dty))
            if r is None:
                raise KeyError('iter')
            out, skips = r
            res = [('exit' if k == 'ret' else k, v, q) for k, v, q in out]
            for ni, q in skips:
                e.store(q, loc, proj, ni)
                res.append(('back', None, q))
            return res
        try:
            outs = e.loop(s, step, ('filter-next', 0, site))
        except KeyError:
            return None
        return [('ret' if k == 'exit' else k, v, q) for k, v, q in outs]
    r = wrap_next(e, s, loc, proj, opt_item_ty(e, dty))
    if r is None:
        return None
    return r[0]


def has_filter(x):
    while x.t[0] == 'it':
        if x[1] in ('filter', 'filter_map', 'flat', 'skipwhile', 'byref'):
            return True
        if x[1] in ('enum', 'map', 'take', 'skip', 'copied', 'rev', 'zip', 'chain', 'take_while', 'map_while', 'inspect', 'scan'):
            if x[1] in ('zip', 'chain') and has_filter(x[3]):
                return True
            x = x[2]
        else:
            return False
    return False


def flat_outer(x):
    """the iterator of iterables below adapters that can be applied to each of them"""
    while x.t[0] == 'it' and x[1] in ('map', 'filter', 'filter_map', 'inspect', 'copied', 'enum', 'take', 'skip'):
        x = x[2]
    return x[2] if x.t[0] == 'it' and x[1] == 'flat' and x[3] is None else None


def flat_inner(x, b):
    if x[1] == 'flat':
        return b
    return it(x[1], flat_inner(x[2], b), *x.t[3:])


def flat_counts(x, done):
    """x, with the counts of `done`, which was made from it"""
    if x[1] == 'flat':
        return x
    if done.t[0] != 'it' or done[1] != x[1]:
        raise KeyError('iter')
    return it(x[1], flat_counts(x[2], done[2]), *(done.t[3:] if x[1] in ('enum', 'take', 'skip') else x.t[3:]))


def drive_flat(e, s, itv, al, body, site, what):
    """for each iterable of the outer iterator, a loop over its items"""
    ol = e.new_h(s, flat_outer(itv))
    counted = has_count(itv)
    cl = e.new_h(s, itv) if counted else None

    def step(st):
        r = wrap_next(e, st, ol, (), None)
        if r is None:
            raise KeyError('iter')
        out, skips = r
        res = []
        for ni, q in skips:
            e.store(q, ol, (), ni)
            res.append(('back', None, q))
        for k, v, q in out:
            if k != 'ret':
                res.append((k, v, q))
            elif v is NONE:
                res.append(('exit', ('done',), q))
            else:
                b = as_sub(e, q, v[3])
                if b is None:
                    raise KeyError('iter')
                shape = q.mem[cl] if counted else itv
                il = e.new_h(q, flat_inner(shape, b))

                def step2(st2):
                    r2 = wrap_next(e, st2, il, (), None)
                    if r2 is None:
                        raise KeyError('iter')
                    o2, sk2 = r2
                    z = []
                    for ni, q2 in sk2:
                        e.store(q2, il, (), ni)
                        z.append(('back', None, q2))
                    for k2, v2, q2 in o2:
                        if k2 != 'ret':
                            z.append((k2, v2, q2))
                        elif v2 is NONE:
                            z.append(('exit', ('inner done',), q2))
                        else:
                            z.extend(body(q2, al, v2[3]))
                    return z
                for k2, v2, q2 in e.loop(q, step2, (what + ' inner', 0, site)):
                    if k2 == 'exit' and v2 == ('inner done',):
                        if counted:
                            q2.mem[cl] = flat_counts(shape, q2.mem[il])
                        q2.mem.pop(il, None)
                        res.append(('back', None, q2))
                    else:
                        res.append((k2, v2, q2))
        return res
    outs = e.loop(s, step, (what, 0, site))
    return [('ret', q.mem[al], q) if k == 'exit' and v == ('done',) else ('ret' if k == 'exit' else k, v, q) for k, v, q in outs]


def has_count(x):
    while x[1] != 'flat':
        if x[1] in ('enum', 'take', 'skip'):
            return True
        x = x[2]
    return False


def drive(e, s, itv, acc0, body, site, what, ity=None, back=None):
    """native loop: for item in itv { acc = body(acc,item) }  -> [(kind, acc, st)]
    body(st, accloc, item) -> [('back'|'exit'|kind, val, st)]"""
    al = e.new_h(s, acc0)
    if back is None and flat_outer(itv) is not None:
        try:
            return drive_flat(e, s, itv, al, body, site, what)
        except KeyError:
            return None
    il = e.new_h(s, itv)

    def step(st):
        r = wrap_next(e, st, il, (), ity)
        if r is None:
            raise KeyError('iter')
        out, skips = r
        res = []
        for ni, q in skips:
            e.store(q, il, (), ni)
            res.append(('back', None, q))
        for k, v, q in out:
            if k != 'ret':
                res.append((k, v, q))
            elif v is NONE:
                res.append(('exit', ('done',), q))
            else:
                res.extend(body(q, al, v[3]))
        return res
    try:
        outs = e.loop(s, step, (what, 0, site))
    except KeyError:
        return None
    res = []
    for k, v, q in outs:
        if back is not None and k == 'exit':
            e.store(q, back[0], back[1], q.mem[il])
        if k == 'exit' and v == ('done',):
            res.append(('ret', q.mem[al], q))
        elif k == 'exit':
            res.append(('ret', v, q))
        else:
            res.append((k, v, q))
        for l in (il, al):
            pass
    return res


def item_ty(e, c):
    return None


@rx(r'^core::iter::traits::iterator::Iterator::collect$|^<.* as core::iter::traits::collect::FromIterator<.*>>::from_iter$|^<std::collections::hash::(map::HashMap|set::HashSet)<.*> as core::convert::From<\[.*\]>>::from$')
def collect(e, c, a, tys, dty, s, site):
    base = as_iter(e, s, a[0], tys[0])
    if base is None:
        return None
    return collect_to(e, base, dty, s, site)


def collect_to(e, base, dty, s, site, init=None):
    d = e.db.ty(dty) if dty else {}
    adt = d.get('adt')
    if adt == 'alloc::vec::Vec':
        if base.t[0] == 'it' and base[1] == 'into' and base[3] is ci(0):
            return ret(base[2], s)

        def body(q, al, x):
            q.mem[al] = pushv(q.mem[al], x)
            return [('back', None, q)]
        return drive(e, s, base, init or N('seq'), body, site, 'collect', d['args'][0])
    if adt in ('std::collections::hash::map::HashMap', 'hashbrown::map::HashMap'):
        def body(q, al, x):
            k = e.sval(e.project(x, ('f', None, 0)), q)
            q.mem[al] = N('mapins', q.mem[al], k, e.project(x, ('f', None, 1)))
            return [('back', None, q)]
        return drive(e, s, base, init or N('mapnew'), body, site, 'collect', None)
    if adt == 'std::collections::hash::set::HashSet':
        def body(q, al, x):
            q.mem[al] = N('mapins', q.mem[al], e.sval(x, q), UNIT)
            return [('back', None, q)]
        return drive(e, s, base, init or N('mapnew'), body, site, 'collect', None)
    if adt == 'alloc::string::String':
        def body(q, al, x):
            q.mem[al] = catv(q.mem[al], e.sval(x, q))
            return [('back', None, q)]
        return drive(e, s, base, init or cs(''), body, site, 'collect', None)
    if adt in ('core::result::Result', 'core::option::Option') and d.get('args'):
        # short-circuiting: the collection of the payloads, or the first failure
        res = adt.endswith('Result')
        good = 0 if res else 1
        ty2 = d['args'][0]
        d2 = e.db.ty(ty2)
        a2 = d2.get('adt') or ''
        if a2 == 'alloc::vec::Vec':
            z = N('seq')
        elif 'HashMap' in a2 or 'HashSet' in a2:
            z = N('mapnew')
        elif a2 == 'alloc::string::String':
            z = cs('')
        elif d2.get('k') in ('tuple', 'unit'):
            z = UNIT
        else:
            return None

        def put(cur, y, q):
            if a2 == 'alloc::vec::Vec':
                return pushv(cur, y)
            if 'HashMap' in a2:
                return N('mapins', cur, e.sval(e.project(y, ('f', None, 0)), q), e.project(y, ('f', None, 1)))
            if 'HashSet' in a2:
                return N('mapins', cur, e.sval(y, q), UNIT)
            if z is UNIT:
                return UNIT
            return catv(cur, e.sval(y, q))

        def body(q, al, x):
            out = []
            for b, q2 in fork(e, q, isvar(e, q, x, good)):
                if b:
                    q2.mem[al] = put(q2.mem[al], e.project(x, ('f', good, 0)), q2)
                    out.append(('back', None, q2))
                else:
                    out.append(('exit', N('early', err(e.project(x, ('f', 1, 0))) if res else NONE), q2))
            return out
        r = drive(e, s, base, z, body, site, 'collect', None)
        if r is None:
            return None
        return [(k, (v[1] if v.t[0] == 'early' else (ok(v) if res else some(v))) if k == 'ret' else v, q) for k, v, q in r]
    return None


def try_parts(e, dty):
    d = e.db.ty(dty) if dty else {}
    adt = d.get('adt') or ''
    if adt == 'core::result::Result':
        return 0, ok, d['args'][0]
    if adt == 'core::option::Option':
        return 1, some, d['args'][0]
    if adt.endswith('ControlFlow'):
        return 0, (lambda v: N('agg', adt, 0, v)), None
    return None


@rx(r'^core::iter::traits::iterator::Iterator::(try_fold|try_for_each)$|^<.* as core::iter::traits::iterator::Iterator>::(try_fold|try_for_each)$')
def it_try(e, c, a, tys, dty, s, site):
    fold = c['path'].endswith('try_fold')
    tp = try_parts(e, dty)
    if tp is None:
        return None
    good, mk, _ = tp
    v0 = a[0]
    loc = None
    if v0.t[0] == 'ref':
        loc, proj = e.target(v0)
        base = e.load(s, loc, proj)
        if not (base.t[0] == 'it' or (base.t[0] == 'agg' and base[1] == RANGE)):
            return None
    else:
        base = as_iter(e, s, v0, tys[0])
    if base is None:
        return None
    f = fnval(e, a[-1])

    def body(q, al, x):
        out = []
        for k, v, q2 in e.call_value(f, [q.mem[al], x] if fold else [x], [None] * (2 if fold else 1), dty, q, site):
            if k != 'ret':
                out.append((k, v, q2))
                continue
            for b, q3 in fork(e, q2, isvar(e, q2, v, good)):
                if b:
                    if fold:
                        q3.mem[al] = e.project(v, ('f', good, 0))
                    out.append(('back', None, q3))
                else:
                    out.append(('exit', N('early', v), q3))
        return out
    r = drive(e, s, base, a[1] if fold else UNIT, body, site, 'try_fold', None, back=None if loc is None else (loc, proj))
    if r is None:
        return None
    return [(k, (v[1] if v.t[0] == 'early' else mk(v)) if k == 'ret' else v, q) for k, v, q in r]


def fnval(e, f):
    if f.t[0] == 'zst':
        d = e.db.ty(f[1])
        if d.get('k') == 'closure':
            return N('clo', d['def'])
    return f


@rx(r'^core::iter::traits::iterator::Iterator::(nth|last)$|^<.* as core::iter::traits::iterator::Iterator>::(nth|last)$')
def it_nth(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    v0 = a[0]
    if n == 'nth':
        if v0.t[0] != 'ref':
            return None
        loc, proj = e.target(v0)
        y = it_skip(e, s, e.load(s, loc, proj), a[1])
        if y is None:
            return None
        e.store(s, loc, proj, y)
        r = wrap_next(e, s, loc, proj, opt_item_ty(e, dty))
        return None if r is None or r[1] else r[0]
    base = as_iter(e, s, v0, tys[0])
    if base is None:
        return None

    def body(q, al, x):
        q.mem[al] = some(x)
        return [('back', None, q)]
    return drive(e, s, base, NONE, body, site, 'last', opt_item_ty(e, dty))


@rx(r'^core::iter::traits::iterator::Iterator::(unzip|partition)$')
def it_unzip(e, c, a, tys, dty, s, site):
    base = as_iter(e, s, a[0], tys[0])
    d = e.db.ty(dty) if dty else {}
    if base is None or d.get('k') != 'tuple':
        return None
    if any(e.db.ty(t).get('adt') != 'alloc::vec::Vec' for t in d.get('of') or [dty]):
        return None
    part = c['path'].endswith('partition')
    f = fnval(e, a[1]) if part else None

    def body(q, al, x):
        if not part:
            cur = q.mem[al]
            q.mem[al] = tup(pushv(e.project(cur, ('f', None, 0)), e.project(x, ('f', None, 0))), pushv(e.project(cur, ('f', None, 1)), e.project(x, ('f', None, 1))))
            return [('back', None, q)]
        out = []
        for k, v, q2 in e.call_value(f, [N('ref', e.new_h(q, x), ())], [None], 'bool', q, site):
            if k != 'ret':
                out.append((k, v, q2))
                continue
            for b, q3 in fork(e, q2, v):
                cur = q3.mem[al]
                l, r = e.project(cur, ('f', None, 0)), e.project(cur, ('f', None, 1))
                q3.mem[al] = tup(pushv(l, x), r) if b else tup(l, pushv(r, x))
                out.append(('back', None, q3))
        return out
    return drive(e, s, base, tup(N('seq'), N('seq')), body, site, 'unzip', None)


@rx(r'^core::iter::traits::iterator::Iterator::(sum|product)$')
def it_sum(e, c, a, tys, dty, s, site):
    base = as_iter(e, s, a[0], tys[0])
    if base is None:
        return None
    prod = c['path'].endswith('product')
    tp = try_parts(e, dty)
    if tp is not None:
        good, mk, ety = tp
        fl = ety == 'f64'
        z = (cf(1.0) if prod else cf(0.0)) if fl else ci(1 if prod else 0)
        op = 'Mul' if prod else 'Add'

        def tbody(q, al, x):
            out = []
            for b, q2 in fork(e, q, isvar(e, q, x, good)):
                if b:
                    y = e.sval(e.project(x, ('f', good, 0)), q2)
                    q2.mem[al] = e.fop(op, q2.mem[al], y) if fl else e.binop(op, q2.mem[al], y, ety, q2)
                    out.append(('back', None, q2))
                else:
                    out.append(('exit', N('early', err(e.project(x, ('f', 1, 0))) if good == 0 else NONE), q2))
            return out
        r = drive(e, s, base, z, tbody, site, 'sum', None)
        if r is None:
            return None
        return [(k, (v[1] if v.t[0] == 'early' else mk(v)) if k == 'ret' else v, q) for k, v, q in r]
    fl = dty == 'f64'
    z = (cf(1.0) if prod else cf(0.0)) if fl else ci(1 if prod else 0)
    op = 'Mul' if prod else 'Add'

    def body(q, al, x):
        y = e.sval(x, q)
        q.mem[al] = e.fop(op, q.mem[al], y) if fl else e.binop(op, q.mem[al], y, dty, q)
        return [('back', None, q)]
    return drive(e, s, base, z, body, site, 'sum', dty)


@rx(r'^core::iter::traits::iterator::Iterator::fold$|^<.* as core::iter::traits::iterator::Iterator>::fold$')
def it_fold(e, c, a, tys, dty, s, site):
    base = as_iter(e, s, a[0], tys[0])
    if base is None:
        return None

    def body(q, al, x):
        out = []
        for k, v, q2 in e.call_value(a[2], [q.mem[al], x], [None, None], dty, q, site):
            if k == 'ret':
                q2.mem[al] = v
                out.append(('back', None, q2))
            else:
                out.append((k, v, q2))
        return out
    return drive(e, s, base, a[1], body, site, 'fold', None)


@rx(r'^core::iter::traits::iterator::Iterator::reduce$')
def it_reduce(e, c, a, tys, dty, s, site):
    base = as_iter(e, s, a[0], tys[0])
    if base is None or has_filter(base):
        return None
    h = e.new_h(s, base)
    r = wrap_next(e, s, h, (), opt_item_ty(e, dty))
    if r is None or r[1]:
        return None
    out = []
    for k0, v0, s0 in r[0]:
        if k0 != 'ret' or v0 is NONE:
            out.append((k0, v0, s0))
            continue

        def body(q, al, x):
            res = []
            for k, v, q2 in e.call_value(a[1], [q.mem[al], x], [None, None], None, q, site):
                if k == 'ret':
                    q2.mem[al] = v
                    res.append(('back', None, q2))
                else:
                    res.append((k, v, q2))
            return res
        r2 = drive(e, s0, s0.mem[h], v0[3], body, site, 'reduce', None)
        if r2 is None:
            return None
        out.extend((k, some(v) if k == 'ret' else v, q) for k, v, q in r2)
    return out


@rx(r'^core::iter::traits::iterator::Iterator::(any|all|find|position|for_each|count|max|min|find_map)$|^<.* as core::iter::traits::iterator::Iterator>::(any|all|find|position|for_each|count|find_map)$')
def it_query(e, c, a, tys, dty, s, site):
    n = c['path'].split('::')[-1]
    if n in ('max', 'min'):
        return None
    v0 = a[0]
    t0 = tys[0]
    outer = None
    if is_ref_ty(e, t0):
        loc, proj = e.target(v0)
        x = e.load(s, loc, proj)
        if x.t[0] == 'it' or (x.t[0] == 'agg' and x[1] == RANGE):
            base = x
            outer = (loc, proj)
        else:
            return None
    else:
        base = as_iter(e, s, v0, t0)
    if base is None:
        return None
    f = a[1] if len(a) > 1 else None
    if f is not None and f.t[0] == 'zst':
        d = e.db.ty(f[1])
        if d.get('k') == 'closure':
            f = N('clo', d['def'])
    ity = opt_item_ty(e, dty) if n == 'find' else None

    def body(q, al, x):
        out = []
        if n == 'count':
            q.mem[al] = padd(q.mem[al], ci(1))
            return [('back', None, q)]
        arg = x
        if n == 'find':
            arg = N('ref', e.new_h(q, x), ())
        for k, v, q2 in e.call_value(f, [arg], [None], 'bool' if n not in ('for_each', 'find_map') else None, q, site):
            if k != 'ret':
                out.append((k, v, q2))
            elif n == 'for_each':
                out.append(('back', None, q2))
            elif n == 'find_map':
                for b, q3 in fork(e, q2, isvar(e, q2, v, 1)):
                    out.append(('exit', v, q3) if b else ('back', None, q3))
            else:
                for b, q3 in fork(e, q2, v):
                    if n == 'any':
                        out.append(('exit', TRUE, q3) if b else ('back', None, q3))
                    elif n == 'all':
                        out.append(('back', None, q3) if b else ('exit', FALSE, q3))
                    elif n == 'find':
                        out.append(('exit', some(x), q3) if b else ('back', None, q3))
                    else:
                        if b:
                            out.append(('exit', some(q3.mem[al]), q3))
                        else:
                            q3.mem[al] = padd(q3.mem[al], ci(1))
                            out.append(('back', None, q3))
        return out
    z = {'any': FALSE, 'all': TRUE, 'find': NONE, 'find_map': NONE, 'position': ci(0), 'for_each': UNIT, 'count': ci(0)}[n]
    r = drive(e, s, base, z, body, site, n, ity, back=outer)
    if r is None:
        return None
    if n == 'position':
        r = [(k, NONE if (k == 'ret' and not (v.t[0] == 'agg' and v[1] == 'core::option::Option')) else v, q) for k, v, q in r]
    return r


@rx(r'^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<.*>>::extend$|^<std::collections::hash::(map::HashMap<K, V, S, A>|set::HashSet<.*>) as core::iter::traits::collect::Extend<.*>>::extend$|^<alloc::string::String as core::iter::traits::collect::Extend<.*>>::extend$')
def extend(e, c, a, tys, dty, s, site):
    base = as_iter(e, s, a[1], tys[1])
    if base is None:
        return None
    loc, proj = e.target(a[0])
    cur = e.load(s, loc, proj)
    t = e.db.deref_ty(tys[0])
    adt = e.db.ty(t).get('adt') if t else None
    if adt == 'alloc::vec::Vec' and base.t[0] == 'it' and base[1] == 'into' and base[3] is ci(0):
        e.store(s, loc, proj, appendv(cur, base[2]))
        return ret(UNIT, s)
    if adt and 'HashMap' in adt and base.t[0] == 'it' and base[1] == 'hinto' and map_entries(base[2]) is None:
        e.store(s, loc, proj, N('mapunion', cur, base[2]))
        s.event('mapextend', e.deep(cur, s), e.deep(base[2], s), site)
        return ret(UNIT, s)
    if adt == 'alloc::vec::Vec' and False:
        pass
    r = collect_to(e, base, t, s, site, init=cur)
    if r is None:
        return None
    out = []
    for k, v, q in r:
        if k == 'ret':
            e.store(q, loc, proj, v)
            out.append(('ret', UNIT, q))
        else:
            out.append((k, v, q))
    return out


# ------------------------------------------------------------------ panics, process, catch_unwind
@rx(r'^std::panicking::(begin_panic|begin_panic_fmt|panic_display)|^core::panicking::|^core::option::(expect_failed|unwrap_failed)$|^core::result::unwrap_failed|^core::slice::index::slice_')
def do_panic(e, c, a, tys, dty, s, site):
    msg = tuple(e.deep(x, s) for x in a)
    return [('panic', N('panic', c['path'].split('::')[-1], msg), s)]


@m('std::process::exit', 'std::process::abort')
def pexit(e, c, a, tys, dty, s, site):
    s.event('exit', a[0] if a else ci(134), site)
    return [('exit', a[0] if a else ci(134), s)]


@m('std::panic::catch_unwind')
def catch(e, c, a, tys, dty, s, site):
    f = a[0]
    if f.t[0] == 'agg' and f[1].endswith('AssertUnwindSafe'):
        f = f[3]
    if f.t[0] == 'zst':
        d = e.db.ty(f[1])
        if d.get('k') == 'closure':
            f = N('clo', d['def'])
    s.event('catch_enter', site)
    out = []
    for k, v, q in e.call_value(f, [], [], None, s, site):
        q.event('catch_leave', k, site)
        if k == 'ret':
            out.append(('ret', ok(v), q))
        elif k == 'panic':
            out.append(('ret', err(N('payload', v)), q))
        else:
            out.append((k, v, q))
    return out


@rx(r'^<core::panic::unwind_safe::AssertUnwindSafe<F> as core::ops::function::FnOnce')
def aus(e, c, a, tys, dty, s, site):
    return None


# ------------------------------------------------------------------ lazy statics, regex
@m('lazy_static::lazy::Lazy::<T>::get')
def lazy_get(e, c, a, tys, dty, s, site):
    t = e.db.ty(dty).get('to') if dty else None
    if t and a[1].t[0] == 'fn' and WRAP.match(e.db.ty(t).get('adt') or ''):
        # what it holds can change: it lives as long as the process
        return ret(N('ref', e.static('lazy ' + a[1][1], t, lambda: e.pure_call({'fn': a[1][1]}, [])), ()), s)
    out = []
    for k, v, q in e.call_value(a[1], [], [], None, s, site):
        out.append((k, kref(e.deep(v, q)) if k == 'ret' else v, q))
    return out


@m('regex::regex::string::Regex::new')
def regex_new(e, c, a, tys, dty, s, site):
    return ret(ok(N('regex', e.sval(a[0], s))), s)


@rx(r'^regex::regex::string::Regex::replace_all$')
def rx_replace(e, c, a, tys, dty, s, site):
    f = fnval(e, a[2])
    if f.t[0] not in ('clo', 'fn') and not (f.t[0] == 'ref' and e.deref(s, f).t[0] == 'clo'):
        return None
    text = e.sval(a[1], s)
    span = lambda x, w: N('call', 'regex::Captures::match_' + w, (x,), 'usize', ())

    def body(q, al, x):
        out = []
        for k, v, q2 in e.call_value(f, [N('ref', e.new_h(q, x), ())], [None], None, q, site):
            if k != 'ret':
                out.append((k, v, q2))
                continue
            cur = q2.mem[al]
            got = e.deep(e.sval(v, q2), q2)
            q2.mem[al] = tup(span(x, 'end'), catv(catv(e.project(cur, ('f', None, 1)), N('slice', text, e.project(cur, ('f', None, 0)), span(x, 'start'))), got))
            out.append(('back', None, q2))
        return out
    base = it('opq', N('src', 'captures_iter', e.sval(a[0], s), text), ci(0), None)
    r = drive(e, s, base, tup(ci(0), cs('')), body, site, 'replace_all', None)
    if r is None:
        return None
    return [(k, catv(e.project(v, ('f', None, 1)), N('slice', text, e.project(v, ('f', None, 0)), e.seq_len(text))) if k == 'ret' else v, q) for k, v, q in r]


@rx(r'^<std::sys?::once|^std::sync::(lazy_lock|once_lock)::')
def lazylock(e, c, a, tys, dty, s, site):
    return None


# ------------------------------------------------------------------ formatters (their text is the value behind &mut Formatter)
FMT_OK = N('agg', 'core::result::Result', 0, UNIT)


def fmt_append(e, a, x, s):
    loc, proj = e.target(a)
    e.store(s, loc, proj, catv(e.load(s, loc, proj), x))
    return ret(FMT_OK, s)


def fmt_text(x):
    if x.t[0] == 'fmtlit':
        return x[1]
    r = fmt_expand(x) if x.t[0] == 'fmta' else None
    return r if r is not None else N('fmt', x)


@rx(r"^core::fmt::Formatter::<'[a_]>::(write_str|pad)$|^<core::fmt::Formatter<'[a_]> as core::fmt::Write>::write_str$|^<alloc::string::String as core::fmt::Write>::write_str$")
def f_write_str(e, c, a, tys, dty, s, site): return fmt_append(e, a[0], e.sval(a[1], s), s)


@rx(r"^<(core::fmt::Formatter<'[a_]>|alloc::string::String) as core::fmt::Write>::write_char$")
def f_write_char(e, c, a, tys, dty, s, site): return fmt_append(e, a[0], a[1], s)


@rx(r"^core::fmt::Formatter::<'[a_]>::write_fmt$|^<(core::fmt::Formatter<'[a_]>|alloc::string::String) as core::fmt::Write>::write_fmt$|^core::fmt::Write::write_fmt$")
def f_write_fmt(e, c, a, tys, dty, s, site): return fmt_append(e, a[0], fmt_text(e.deep(a[1], s)), s)


@rx(r'^<(T|str|alloc::string::String|char|f64|f32|usize|i32|i64|u32|&T) as core::fmt::Display>::fmt$|^core::fmt::Display::fmt$|^core::fmt::(num|float)::<impl core::fmt::Display for [a-z0-9]+>::fmt$')
def f_display(e, c, a, tys, dty, s, site):
    v = e.sval(a[0], s)
    return fmt_append(e, a[1], v if is_strish(v) else N('shown', 'display', v), s)
