"""Models of the standard library, `bytes`, and of the environment of the analysed crates.

Everything generic that has MIR is interpreted as such; this file covers the leaves: containers,
slices and their iterators, memory intrinsics, pinning, and the external world (sources, sinks, hooks),
the latter through `env` call-backs of the current analysis."""
import lin, re
from lin import const, add, addc, sub as lsub, scale, is_const
from interp import *
from machine import PUSHED, neg, cand, cor
from prog import Unsupported, canon_name

NONE = ('A', None, 0, ())
def SOME(v):
    return ('A', None, 1, (v,))
def OK(v):
    return ('A', None, 0, (v,))
def ERR(v):
    return ('A', None, 1, (v,))
PENDING = ('A', None, 1, ())
def READY(v):
    return ('A', None, 0, (v,))
def I(l):
    return ('i', l)
def TUP(*a):
    return ('A', None, 0, a)
def Lv(l):
    return ('L', l)

N = {}
def nat(*names):
    def f(g):
        for n in names:
            N[n] = g
        return g
    return f

def one(st, v):
    return [(st, v)]

class Call:
    __slots__ = ('ip', 'st', 'c', 'a', 'name', 'dest', 'target', 'dty', 'span', 'cont', 'm')

def decide(st, c):
    r = st.ev(c)
    if r is None:
        raise Split([c, neg(c)])
    return r

def require(x, c, kind):
    """library contract: panics unless c"""
    if decide(x.st, c):
        x.ip.guards.add((kind, str(x.span)))
        return True
    x.ip.panic(x.st, kind, x.span)
    return False

def le(a, b):
    return True if a == b else ('ge', lsub(b, a))

def deep(st, v):
    """follow references to the object"""
    for _ in range(20):
        if v[0] in ('R', 'V'):
            v = st.deref(v)
        elif v[0] == 'N' and v[1] == 'box':
            v = st.loadcell(v[2][0])
        else:
            break
    return v

def seqv(st, v):
    v = deep(st, v)
    for _ in range(6):
        if v[0] in ('S', 'Q'):
            return v
        if v[0] == 'N' and v[1] in ('capbuf', 'bufw'):
            return v[2][0]
        if v[0] == 'A' and len(v[3]) == 1 and v[3][0][0] in ('S', 'R', 'V'):
            v = deep(st, v[3][0])
            continue
        break
    if v[0] == 'A':
        return v
    raise Unsupported('sequence expected: %s' % show(v))

def target(ip, st, v):
    """cell and path behind a &mut"""
    for _ in range(20):
        if v[0] == 'R':
            cell, path = v[1], v[2]
            inner = st.load(cell, path)
            if inner[0] == 'R' or (inner[0] == 'N' and inner[1] == 'box'):
                v = inner
                continue
            return cell, path
        if v[0] == 'N' and v[1] == 'box':
            inner = st.loadcell(v[2][0])
            if inner[0] == 'R':
                v = inner
                continue
            return v[2][0], ()
        if v[0] == 'A' and v[3]:
            v = v[3][0]
            continue
        if v[0] == 'O':
            return st.ocell(v), ()
        break
    raise Unsupported('mutable reference expected: %s' % show(v))

def setseq(x, ref, seq):
    cell, path = target(x.ip, x.st, ref)
    old = x.st.load(cell, path)
    if old[0] == 'N' and old[1] == 'capbuf':
        seq = ('N', 'capbuf', (seq, old[2][1]))
    x.st.store(cell, path, seq)

def slen(st, v):
    return st.seqlen(v)

# ------------------------------------------------------------------ panics
def panic_(kind):
    def f(x):
        x.ip.panic(x.st, kind, x.span)
        return []
    return f
for n in ('std::panicking::panic', 'std::panicking::panic_fmt', 'std::panicking::panic_nounwind',
          'std::panicking::panic_nounwind_fmt', 'std::panicking::assert_failed', 'std::panicking::assert_failed_inner',
          'std::panicking::begin_panic', 'std::rt::panic_fmt', 'std::rt::begin_panic', 'std::panicking::panic_const',
          'std::panicking::panic_display', 'std::panicking::panic_explicit', 'std::panicking::unreachable_display',
          'std::panicking::panic_str_2015', 'std::slice::index::slice_index_fail', 'std::option::expect_failed',
          'std::option::unwrap_failed', 'std::result::unwrap_failed', 'std::process::abort', 'std::process::exit',
          'std::panicking::panic_bounds_check', 'std::intrinsics::abort'):
    N[n] = panic_(n.split('::')[-1])

# ------------------------------------------------------------------ memory
@nat('std::mem::replace', 'std::mem::take', 'std::option::Option::<T>::take', 'std::option::Option::<T>::replace')
def m_replace(x):
    cell, path = target1(x.a[0], x)
    old = x.st.load(cell, path)
    if old[0] == 'D':
        old = ('O', old[1], old[2])
    if x.name.endswith('replace'):
        new = x.a[1]
        if 'Option' in x.name:
            new = SOME(new)
    elif 'Option' in x.name:
        new = NONE
    else:
        new = default_of(x, old)
    x.st.store(cell, path, new)
    return one(x.st, old)

def default_of(x, old):
    if old[0] == 'S':
        return ('S', ())
    if old[0] == 'Q':
        return ('Q', ())
    t = x.ip.prog.types[x.dty] if x.dty is not None else None
    if t:
        if t.get('p', '').endswith('option::Option'):
            return NONE
        if t['k'] in ('int', 'uint'):
            return I(const(0))
        if t['k'] == 'bool':
            return ('b', False)
        if t.get('p') in ('bytes::Bytes', 'bytes::BytesMut', 'std::vec::Vec', 'alloc::vec::Vec', 'std::string::String'):
            return ('S', ())
    raise Unsupported('default of %s' % (t and t.get('s')))

def target1(v, x):
    """one level of reference only"""
    st = x.st
    if v[0] == 'R':
        return v[1], v[2]
    if v[0] == 'N' and v[1] == 'box':
        return v[2][0], ()
    if v[0] == 'O':
        return st.ocell(v), ()
    if v[0] == 'A' and v[3]:
        return target1(v[3][0], x)
    raise Unsupported('reference expected: %s' % show(v))

@nat('std::mem::swap', 'std::ptr::swap')
def m_swap(x):
    c1, p1 = target1(x.a[0], x)
    c2, p2 = target1(x.a[1], x)
    a, b = x.st.load(c1, p1), x.st.load(c2, p2)
    x.st.store(c1, p1, b)
    x.st.store(c2, p2, a)
    return one(x.st, UNIT)

@nat('std::ptr::write', 'std::intrinsics::write_via_move', 'std::option::Option::<T>::insert', 'std::option::Option::<T>::get_or_insert')
def m_write(x):
    c, p = target1(x.a[0], x)
    if x.name.endswith('::insert'):
        x.st.store(c, p, SOME(x.a[1]))
        return one(x.st, ('R', c, p + (('d', 1), ('f', 0, None))))
    if x.name.endswith('get_or_insert'):
        v = x.st.load(c, p)
        if x.st.variant_of(v) == 0:
            x.st.store(c, p, SOME(x.a[1]))
        return one(x.st, ('R', c, p + (('d', 1), ('f', 0, None))))
    x.st.store(c, p, x.a[1])
    return one(x.st, UNIT)

@nat('std::ptr::read', 'std::intrinsics::read_via_copy')
def m_read(x):
    return one(x.st, x.st.deref(x.a[0]))

@nat('std::mem::drop', 'std::mem::forget', 'std::hint::black_box', 'std::intrinsics::cold_path', 'std::intrinsics::assume',
     'std::hint::assert_unchecked', 'std::intrinsics::assert_inhabited', 'std::hint::assert_unchecked::precondition_check',
     'std::intrinsics::forget', 'std::ptr::drop_in_place', 'std::hint::cold_path')
def m_unit(x):
    return one(x.st, UNIT)

@nat('std::intrinsics::likely', 'std::intrinsics::unlikely', 'std::convert::identity', 'std::intrinsics::black_box',
     'std::mem::ManuallyDrop::<T>::new', 'std::mem::ManuallyDrop::<T>::into_inner', 'std::cell::UnsafeCell::<T>::new')
def m_id(x):
    return one(x.st, x.a[0])

@nat('std::intrinsics::discriminant_value')
def m_discr(x):
    return one(x.st, x.ip.discr(x.st, strip(deep(x.st, x.a[0]))))

@nat('std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new')
def m_arcnew(x):
    return one(x.st, ('R', x.st.newheap(x.a[0]), ()))

@nat('<std::sync::Arc<T, A> as std::clone::Clone>::clone', '<std::sync::Arc<T, A> as std::ops::Deref>::deref',
     '<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref', '<std::sync::Arc<T, A> as std::borrow::Borrow<T>>::borrow',
     '<std::rc::Rc<T, A> as std::clone::Clone>::clone', '<std::rc::Rc<T, A> as std::ops::Deref>::deref')
def m_arcclone(x):
    # a shared pointer is a reference that keeps its target alive
    v = x.st.deref(x.a[0])
    if v[0] != 'R':
        raise Unsupported('shared pointer %s' % show(v)[:40])
    return one(x.st, v)

@nat('std::mem::discriminant')
def m_mdiscr(x):
    return one(x.st, ('A', None, 0, (x.ip.discr(x.st, strip(deep(x.st, x.a[0]))),)))

def strip(v):
    return ('O', v[1], v[2]) if v[0] == 'D' else v

@nat('std::boxed::Box::<T>::new')
def m_boxnew(x):
    return one(x.st, ('N', 'box', (x.st.newheap(x.a[0]),)))

@nat('std::boxed::Box::<T>::pin')
def m_boxpin(x):
    return one(x.st, ('A', None, 0, (('N', 'box', (x.st.newheap(x.a[0]),)),)))

@nat('std::boxed::Box::<T, A>::into_pin', 'std::boxed::Box::<T>::into_pin',
     '<std::pin::Pin<std::boxed::Box<T, A>> as std::convert::From<std::boxed::Box<T, A>>>::from')
def m_intopin(x):
    return one(x.st, ('A', None, 0, (x.a[0],)))

@nat('<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut',
     '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut')
def m_boxderef(x):
    b = x.st.deref(x.a[0])
    return one(x.st, ('R', b[2][0], ()))

@nat('std::intrinsics::size_of', 'std::mem::size_of', 'std::intrinsics::min_align_of', 'std::mem::align_of')
def m_size(x):
    return one(x.st, I(x.st.fresh('size', 0)))

@nat('std::cmp::min', 'std::cmp::Ord::min', 'std::cmp::impls::<impl std::cmp::Ord for usize>::min', 'std::cmp::max',
     'std::cmp::Ord::max', 'std::cmp::impls::<impl std::cmp::Ord for usize>::max', 'std::intrinsics::integer_max', 'std::intrinsics::integer_min')
def m_minmax(x):
    a, b = x.a
    if a[0] != 'i' or b[0] != 'i':
        return None
    f = x.st.minl if x.name.endswith('min') else x.st.maxl
    return one(x.st, I(f(a[1], b[1])))

def int_op(name, x):
    st = x.st
    for v in x.a[:2]:
        if v[0] != 'i':
            raise Unsupported('arithmetic on %s' % show(v)[:60])
    a, b = x.a[0][1], x.a[1][1]
    if 'add' in name:
        return add(a, b)
    if 'sub' in name:
        return lsub(a, b)
    if is_const(a):
        return scale(b, a[0])
    if is_const(b):
        return scale(a, b[0])
    return st.fresh('mul', 0)

def int_range(x):
    import re
    m = re.search(r'impl (\w+)>', x.name)
    n = m.group(1) if m else None
    if n is None and x.c.get('a'):
        n = x.ip.prog.types[x.c['a'][0]].get('n')
    return INTR.get(n, (0, USIZE_MAX))

def n_int(x):
    import re
    m = re.match(r'^std::num::<impl (\w+)>::(\w+)$', x.name)
    op = m.group(2) if m else x.name.rsplit('::', 1)[1]
    rng = int_range(x)
    lo, hi = rng
    big = hi >= ISIZE_MAX
    st = x.st
    for i, v in enumerate(x.a):
        if v[0] == 'O':
            l = lin.sym(('o', v[2]))
            st.cons = st.cons | frozenset([addc(l, -lo)] + ([] if big else [addc(scale(l, -1), hi)]))
            x.a = list(x.a[:i]) + [('i', l)] + list(x.a[i + 1:])
    def inrange(r):
        c = ('ge', addc(r, -lo)) if not is_const(r) else r[0] >= lo
        if not big:
            c2 = ('ge', addc(scale(r, -1), hi)) if not is_const(r) else r[0] <= hi
            return cand(c, c2)
        return c
    if op in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul'):
        r = int_op(op, x)
        if op.startswith('unchecked') or decide(st, inrange(r)):
            return one(st, I(r))
        return one(st, I(st.fresh('wrap', lo, None if big else hi)))
    if op in ('checked_add', 'checked_sub', 'checked_mul'):
        r = int_op(op, x)
        return one(st, SOME(I(r)) if decide(st, inrange(r)) else NONE)
    if op in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'):
        r = int_op(op, x)
        ok = decide(st, inrange(r))
        return one(st, TUP(I(r if ok else st.fresh('wrap', lo, None if big else hi)), ('b', not ok)))
    if op in ('saturating_add', 'saturating_sub', 'saturating_mul'):
        r = int_op(op, x)
        c = ('ge', addc(r, -lo)) if not is_const(r) else r[0] >= lo
        if not decide(st, c):
            return one(st, I(const(lo)))
        if not big:
            c2 = ('ge', addc(scale(r, -1), hi)) if not is_const(r) else r[0] <= hi
            if not decide(st, c2):
                return one(st, I(const(hi)))
        return one(st, I(r))
    if op == 'abs_diff':
        a, b = x.a[0][1], x.a[1][1]
        return one(st, I(lsub(a, b) if decide(st, le(b, a)) else lsub(b, a)))
    if op in ('is_ascii_digit', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_ascii_whitespace', 'is_ascii_graphic',
              'is_ascii_control', 'is_ascii_uppercase', 'is_ascii_lowercase', 'is_ascii_punctuation', 'is_ascii', 'is_ascii_hexdigit'):
        v = deep(st, x.a[0])
        f = {'is_ascii_digit': lambda b: 48 <= b <= 57,
             'is_ascii_alphabetic': lambda b: 65 <= b <= 90 or 97 <= b <= 122,
             'is_ascii_alphanumeric': lambda b: 65 <= b <= 90 or 97 <= b <= 122 or 48 <= b <= 57,
             'is_ascii_whitespace': lambda b: b in (32, 9, 10, 12, 13),
             'is_ascii_graphic': lambda b: 33 <= b <= 126, 'is_ascii_control': lambda b: b < 32 or b == 127,
             'is_ascii_uppercase': lambda b: 65 <= b <= 90, 'is_ascii_lowercase': lambda b: 97 <= b <= 122,
             'is_ascii_punctuation': lambda b: 33 <= b <= 47 or 58 <= b <= 64 or 91 <= b <= 96 or 123 <= b <= 126,
             'is_ascii': lambda b: b < 128,
             'is_ascii_hexdigit': lambda b: chr(b) in '0123456789abcdefABCDEF'}[op]
        return one(st, ('b', bytecond(st, v, mask_of(f))))
    if op == 'div_ceil':
        a, b = x.a[0][1], x.a[1][1]
        if is_const(b) and b[0] > 0:
            q = st.fresh('div', 0)
            # b*(q-1) < a <= b*q
            st.cons = st.cons | frozenset([lsub(scale(q, b[0]), a), addc(lsub(a, scale(q, b[0])), b[0] - 1)])
            return one(st, I(q))
    if op == 'pow' and is_const(x.a[0][1]) and is_const(x.a[1][1]):
        return one(st, I(const(x.a[0][1][0] ** x.a[1][1][0])))
    if op in ('min', 'max'):
        return m_minmax(x)
    if op == 'next_multiple_of' or op == 'count_ones':
        return one(st, I(st.fresh(op, 0)))
    return None

def bytecond(st, v, mask):
    l = v[1]
    if is_const(l):
        return bool(mask >> l[0] & 1) if 0 <= l[0] < 256 else False
    if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1 and isinstance(l[1][0][0], tuple) and l[1][0][0][0] == 'B':
        s = l[1][0][0]
        return ('in', s[1], s[2], mask)
    # general byte expression: disjunction of ranges
    c = False
    b = 0
    while b < 256:
        if mask >> b & 1:
            e = b
            while e < 255 and mask >> (e + 1) & 1:
                e += 1
            c = cor(c, cand(('ge', addc(l, -b)), ('ge', addc(scale(l, -1), e))))
            b = e + 1
        else:
            b += 1
    return c

# ------------------------------------------------------------------ byte containers
@nat('bytes::BytesMut::new', 'bytes::Bytes::new', 'std::vec::Vec::<T>::new', 'std::string::String::new',
     '<bytes::BytesMut as std::default::Default>::default', '<bytes::Bytes as std::default::Default>::default',
     '<std::vec::Vec<T> as std::default::Default>::default')
def b_new(x):
    return one(x.st, emptyseq(x))

def emptyseq(x):
    if 'Vec' in x.name:
        t = x.ip.prog.types[x.dty] if x.dty is not None else None
        if t is not None and t.get('k') == 'adt' and t['a'] and x.ip.prog.types[t['a'][0]].get('n') != 'u8':
            return ('Q', ())
        if t is None or t.get('k') != 'adt':
            a = x.c.get('a')
            if a and x.ip.prog.types[a[0]].get('n') != 'u8':
                return ('Q', ())
    return ('S', ())

@nat('std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::with_capacity_in', 'bytes::Bytes::with_capacity',
     'std::string::String::with_capacity')
def v_cap(x):
    return one(x.st, emptyseq(x))

@nat('bytes::BytesMut::with_capacity')
def b_cap(x):
    return one(x.st, ('N', 'capbuf', (('S', ()), Lv(x.a[0][1]))))

@nat('bytes::BufMut::writer', 'bytes::buf::BufMut::writer')
def b_writer(x):
    v = x.a[0]
    if v[0] == 'N' and v[1] == 'capbuf':
        return one(x.st, ('N', 'bufw', v[2]))
    if v[0] == 'S':
        return one(x.st, ('N', 'bufw', (v, Lv(slen(x.st, v)))))     # no spare capacity known
    raise Unsupported('writer on %s' % show(v))

@nat('bytes::buf::Writer::<B>::into_inner', 'bytes::buf::writer::Writer::<B>::into_inner')
def b_into_inner(x):
    return one(x.st, x.a[0][2][0])

@nat('bytes::buf::Writer::<B>::get_ref', 'bytes::buf::Writer::<B>::get_mut')
def b_get_ref(x):
    return one(x.st, ('V', seqv(x.st, x.a[0])))

@nat('bytes::BytesMut::freeze', 'bytes::BytesMut::from_vec', '<bytes::Bytes as std::convert::From<bytes::BytesMut>>::from',
     '<bytes::BytesMut as std::convert::From<bytes::Bytes>>::from', '<bytes::Bytes as std::convert::From<std::vec::Vec<u8>>>::from',
     '<bytes::BytesMut as std::convert::From<std::vec::Vec<u8>>>::from', 'bytes::Bytes::from_static',
     '<bytes::Bytes as std::convert::From<&\'a [u8]>>::from', '<bytes::BytesMut as std::convert::From<&\'a [u8]>>::from',
     '<bytes::Bytes as std::clone::Clone>::clone', '<bytes::BytesMut as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec',
     '<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::into_vec', 'std::str::<impl str>::to_owned',
     'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned', 'bytes::Bytes::to_vec', '<bytes::Bytes as bytes::IntoBuf>::into_buf',
     'std::str::<impl std::borrow::ToOwned for str>::to_owned', '<bytes::Bytes as std::convert::From<&\'a str>>::from',
     '<bytes::BytesMut as std::convert::From<&\'a str>>::from', '<bytes::Bytes as std::convert::From<std::string::String>>::from',
     'std::string::String::into_bytes', '<std::string::String as std::convert::From<&str>>::from', 'std::vec::Vec::<T, A>::into_boxed_slice',
     '<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec', 'std::slice::<impl [T]>::to_vec_in',
     '<std::vec::Vec<T> as std::convert::From<&[T]>>::from', '<bytes::Bytes as std::convert::From<&[u8]>>::from')
def b_own(x):
    v = seqv(x.st, x.a[0])
    return one(x.st, v)

@nat('bytes::Bytes::len', 'bytes::BytesMut::len', 'std::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len', 'std::str::<impl str>::len',
     'std::string::String::len', 'bytes::Buf::remaining')
def b_len(x):
    return one(x.st, I(slen(x.st, seqv(x.st, x.a[0]))))

@nat('bytes::Bytes::is_empty', 'bytes::BytesMut::is_empty', 'std::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty',
     'std::str::<impl str>::is_empty', 'std::string::String::is_empty')
def b_empty(x):
    n = slen(x.st, seqv(x.st, x.a[0]))
    return one(x.st, ('b', n == lin.ZERO if is_const(n) else ('eq', n)))

@nat('std::collections::HashMap::<K, V>::new')
def m_mapnew(x):
    return one(x.st, ('Q', ()))

@nat('core::slice::<impl [T]>::contains', 'std::slice::<impl [T]>::contains')
def s_contains(x):
    st = x.st
    s = seqv(st, x.a[0])
    if s[0] != 'Q' or any(g[0] != 'sub' for g in s[1]):
        return None
    n = slen(st, s)
    if not decide(st, n != lin.ZERO if is_const(n) else ('ne', n)):
        return one(st, ('b', False))
    return [(st.copy(), ('b', False)), (st, ('b', True))]   # the elements are values of the application

@nat('bytes::BytesMut::has_remaining', 'bytes::Buf::has_remaining')
def b_rem(x):
    n = slen(x.st, seqv(x.st, x.a[0]))
    return one(x.st, ('b', n != lin.ZERO if is_const(n) else ('ne', n)))

def asview(x, ref):
    """shared view of the bytes behind a reference"""
    return ('V', seqv(x.st, ref))

@nat('<bytes::Bytes as std::ops::Deref>::deref', '<bytes::BytesMut as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::Deref>::deref',
     '<bytes::Bytes as std::convert::AsRef<[u8]>>::as_ref', '<bytes::BytesMut as std::convert::AsRef<[u8]>>::as_ref',
     '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', 'std::vec::Vec::<T, A>::as_slice', 'std::str::<impl str>::as_bytes',
     'std::array::<impl [T; N]>::as_slice', '<bytes::Bytes as std::borrow::Borrow<[u8]>>::borrow', 'std::string::String::as_str',
     'std::string::String::as_bytes', '<std::string::String as std::ops::Deref>::deref', 'std::str::<impl std::convert::AsRef<[u8]> for str>::as_ref',
     '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow', 'bytes::Buf::bytes', '<[T] as std::convert::AsRef<[T]>>::as_ref',
     'std::str::from_utf8_unchecked', '<str as std::convert::AsRef<[u8]>>::as_ref', 'std::slice::<impl std::convert::AsRef<[T]> for [T]>::as_ref',
     'std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref', 'std::array::<impl std::borrow::Borrow<[T]> for [T; N]>::borrow',
     '<[T] as std::convert::AsRef<[T]>>::as_ref')
def b_view(x):
    return one(x.st, asview(x, x.a[0]))

@nat('<bytes::BytesMut as std::ops::DerefMut>::deref_mut', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
     '<bytes::BytesMut as std::convert::AsMut<[u8]>>::as_mut', 'std::vec::Vec::<T, A>::as_mut_slice', 'bytes::BytesMut::as_mut')
def b_viewmut(x):
    c, p = target(x.ip, x.st, x.a[0])
    return one(x.st, ('R', c, p))

def rng(x, v, n):
    """(start, end) of a range value over a sequence of length n"""
    st = x.st
    t = x.ip.prog.types[v[1]] if v[0] == 'A' and v[1] is not None else None
    nm = t.get('p', '') if t else x.name
    nm = canon_name(nm)
    f = v[3]
    if nm.endswith('RangeFull') or len(f) == 0:
        return const(0), n, False
    if nm.endswith('RangeFrom'):
        return f[0][1], n, False
    if nm.endswith('RangeTo'):
        return const(0), f[0][1], False
    if nm.endswith('RangeToInclusive'):
        return const(0), addc(f[0][1], 1), False
    if nm.endswith('RangeInclusive'):
        return f[0][1], addc(f[1][1], 1), False
    if nm.endswith('Range'):
        return f[0][1], f[1][1], False
    raise Unsupported('range %s' % nm)

@nat('std::slice::index::<impl std::ops::Index<I> for [T]>::index', 'std::str::traits::<impl std::ops::Index<I> for str>::index',
     '<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'std::array::<impl std::ops::Index<I> for [T; N]>::index',
     '<std::string::String as std::ops::Index<I>>::index')
def s_index(x):
    st = x.st
    r = x.a[1]
    s = seqv(st, x.a[0])
    n = slen(st, s)
    if r[0] == 'i':
        if not require(x, ('ge', addc(lsub(n, r[1]), -1)), 'index out of bounds'):
            return []
        return one(st, ('V', st.index(s, r[1])))
    a, b, _ = rng(x, r, n)
    if not require(x, le(a, b), 'slice start after end'):
        return []
    if not require(x, le(b, n), 'slice end out of bounds'):
        return []
    return one(st, ('V', st.slice(s, a, b)))

@nat('std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
     'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut')
def s_indexmut(x):
    st = x.st
    r = x.a[1]
    s = seqv(st, x.a[0])
    n = slen(st, s)
    c, p = target(x.ip, st, x.a[0])
    if r[0] == 'i':
        if not require(x, ('ge', addc(lsub(n, r[1]), -1)), 'index out of bounds'):
            return []
        return one(st, ('R', c, p + (('ix', r[1]),)))
    a, b, _ = rng(x, r, n)
    if not require(x, le(a, b), 'slice start after end'):
        return []
    if not require(x, le(b, n), 'slice end out of bounds'):
        return []
    if decide(st, ('eq', a) if not is_const(a) else a[0] == 0) and decide(st, ('eq', lsub(b, n)) if not is_const(lsub(b, n)) else b == n):
        return one(st, ('R', c, p))
    raise Unsupported('mutable sub-slice')

@nat('std::slice::<impl [T]>::get', 'std::str::<impl str>::get')
def s_get(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    r = x.a[1]
    if r[0] == 'i':
        if decide(st, ('ge', addc(lsub(n, r[1]), -1))):
            return one(st, SOME(('V', st.index(s, r[1]))))
        return one(st, NONE)
    a, b, _ = rng(x, r, n)
    if decide(st, le(a, b)) and decide(st, le(b, n)):
        return one(st, SOME(('V', st.slice(s, a, b))))
    return one(st, NONE)

@nat('std::slice::<impl [T]>::first', 'std::slice::<impl [T]>::last')
def s_first(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    if decide(st, ('ge', addc(n, -1)) if not is_const(n) else n[0] >= 1):
        return one(st, SOME(('V', st.index(s, const(0) if x.name.endswith('first') else addc(n, -1)))))
    return one(st, NONE)

@nat('std::slice::<impl [T]>::split_first', 'std::slice::<impl [T]>::split_last')
def s_splitfirst(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    if decide(st, ('ge', addc(n, -1)) if not is_const(n) else n[0] >= 1):
        if x.name.endswith('first'):
            return one(st, SOME(TUP(('V', st.index(s, const(0))), ('V', st.slice(s, const(1), n)))))
        return one(st, SOME(TUP(('V', st.index(s, addc(n, -1))), ('V', st.slice(s, const(0), addc(n, -1))))))
    return one(st, NONE)

@nat('std::slice::<impl [T]>::split_at')
def s_splitat(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    k = x.a[1][1]
    if not require(x, le(k, n), 'split_at out of bounds'):
        return []
    return one(st, TUP(('V', st.slice(s, const(0), k)), ('V', st.slice(s, k, n))))

@nat('bytes::Bytes::slice')
def b_slice(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    a, b = x.a[1][1], x.a[2][1]
    if not require(x, le(a, b), 'Bytes::slice start after end'):
        return []
    if not require(x, le(b, n), 'Bytes::slice out of bounds'):
        return []
    return one(st, st.slice(s, a, b))

@nat('bytes::Bytes::slice_from')
def b_slice_from(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    if not require(x, le(x.a[1][1], n), 'Bytes::slice_from out of bounds'):
        return []
    return one(st, st.slice(s, x.a[1][1], n))

@nat('bytes::Bytes::slice_to')
def b_slice_to(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    if not require(x, le(x.a[1][1], n), 'Bytes::slice_to out of bounds'):
        return []
    return one(st, st.slice(s, const(0), x.a[1][1]))

@nat('bytes::BytesMut::split_off', 'bytes::Bytes::split_off', 'std::vec::Vec::<T, A>::split_off')
def b_split_off(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    k = x.a[1][1]
    if not require(x, le(k, n), 'split_off out of bounds'):
        return []
    hd, tl = st.slice(s, const(0), k), st.slice(s, k, n)
    setseq(x, x.a[0], hd)
    return one(st, tl)

@nat('bytes::BytesMut::split_to', 'bytes::Bytes::split_to', 'bytes::BytesMut::drain_to')
def b_split_to(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    k = x.a[1][1]
    if not require(x, le(k, n), 'split_to out of bounds'):
        return []
    hd, tl = st.slice(s, const(0), k), st.slice(s, k, n)
    setseq(x, x.a[0], tl)
    return one(st, hd)

@nat('bytes::BytesMut::advance', 'bytes::Bytes::advance', 'bytes::Buf::advance')
def b_advance(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    k = x.a[1][1]
    if not require(x, le(k, n), 'advance out of bounds'):
        return []
    setseq(x, x.a[0], st.slice(s, k, n))
    return one(st, UNIT)

@nat('bytes::BytesMut::truncate', 'bytes::Bytes::truncate', 'std::vec::Vec::<T, A>::truncate')
def b_truncate(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    k = x.a[1][1]
    if decide(st, le(k, n)):
        setseq(x, x.a[0], st.slice(s, const(0), k))
    return one(st, UNIT)

@nat('bytes::BytesMut::take', 'bytes::Bytes::take', 'bytes::BytesMut::drain')
def b_take(x):
    s = seqv(x.st, x.a[0])
    setseq(x, x.a[0], (s[0], ()))
    return one(x.st, s)

@nat('bytes::BytesMut::clear', 'bytes::Bytes::clear', 'std::vec::Vec::<T, A>::clear')
def b_clear(x):
    s = seqv(x.st, x.a[0])
    setseq(x, x.a[0], (s[0], ()))
    return one(x.st, UNIT)

@nat('bytes::BytesMut::unsplit', 'bytes::Bytes::unsplit', 'bytes::BytesMut::extend_from_slice', 'bytes::Bytes::extend_from_slice',
     'std::vec::Vec::<T, A>::extend_from_slice', '<bytes::BytesMut as std::iter::Extend<u8>>::extend',
     '<bytes::BytesMut as std::iter::Extend<&\'a u8>>::extend', '<bytes::Bytes as std::iter::Extend<u8>>::extend',
     '<std::vec::Vec<T, A> as std::iter::Extend<&\'a T>>::extend', '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend',
     '<std::vec::Vec<u8> as std::iter::Extend<&\'a u8>>::extend', 'std::string::String::push_str')
def b_append(x):
    st = x.st
    s = seqv(st, x.a[0])
    v = x.a[1]
    v = deep(st, v)
    if v[0] == 'N' and v[1] == 'iter':
        v = st.slice(v[2][0], v[2][1][1], v[2][2][1])
    if v[0] == 'A' and x.m == 'extend':
        nx = iter_fn(x.ip.prog, v)
        if nx is not None:
            return collecting(x, nx, v, s, x.a[0])
    v = seqv(st, v)
    if s[0] == 'S' and v[0] == 'S':
        setseq(x, x.a[0], ('S', st.concat(s[1], v[1])))
    elif s[0] == 'Q' and v[0] == 'Q':
        setseq(x, x.a[0], ('Q', qmerge(st, s[1] + v[1])))
    else:
        raise Unsupported('append %s' % show(v))
    return one(st, UNIT)

@nat('std::vec::Vec::<T, A>::append')
def v_append(x):
    st = x.st
    s, v = seqv(st, x.a[0]), seqv(st, x.a[1])
    setseq(x, x.a[0], ('S', st.concat(s[1], v[1])) if s[0] == 'S' else ('Q', qmerge(st, s[1] + v[1])))
    setseq(x, x.a[1], (s[0], ()))
    return one(st, UNIT)

def collapse(v):
    """a struct whose fields are exactly those of one unknown is that unknown"""
    if v[0] == 'A' and v[3]:
        f0 = v[3][0]
        s = symof(f0)
        if s is not None and s[0] == '.' and s[2] == v[2]:
            if all(symof(f) == ('.', s[1], v[2], i) for i, f in enumerate(v[3])):
                return ('O', v[1], s[1])
    return v

def symof(v):
    if v[0] == 'O':
        return v[2]
    if v[0] == 'A':
        c = collapse(v)
        return c[2] if c[0] == 'O' else None
    if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'sub' and v[1][0][2] == lin.ZERO \
            and v[1][0][3] == lin.sym(('o', ('.', v[1][0][1], 'len'))):
        return v[1][0][1]
    if v[0] == 'i' and v[1][0] == 0 and len(v[1][1]) == 1 and v[1][1][0][1] == 1 and v[1][1][0][0][0] == 'o':
        return v[1][1][0][0][1]
    if v[0] == 'b' and isinstance(v[1], tuple) and v[1][0] == 'sym':
        return v[1][1]
    return None

def qmerge(st, items):
    out = []
    for it in items:
        if it[0] == 'el':
            v = collapse(it[1])
            s = v[2] if v[0] == 'O' else None
            if isinstance(s, tuple) and s[0] == 'elem':
                it = ('sub', s[1], s[2], addc(s[2], 1))
            else:
                it = ('el', v)
        if it[0] == 'sub' and (it[2] == it[3]):
            continue
        if out and it[0] == 'sub' and out[-1][0] == 'sub' and out[-1][1] == it[1] and \
                (out[-1][3] == it[2] or st.ent_eq(lsub(out[-1][3], it[2]))):
            out[-1] = ('sub', it[1], out[-1][2], it[3])
            continue
        out.append(it)
    return tuple(out)

@nat('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::push_mut', 'bytes::BytesMut::put', 'bytes::BufMut::put_u8', 'bytes::BufMut::put', 'bytes::BufMut::put_slice')
def v_push(x):
    st = x.st
    s = seqv(st, x.a[0])
    v = x.a[1]
    if 'bytes' in x.name:
        cell, path = target(x.ip, st, x.a[0])
        w = st.load(cell, path)
        if v[0] == 'i':
            add_ = (('byt', v[1]),)
        else:
            add_ = seqv(st, v)[1]
        new = ('S', st.concat(s[1], add_))
        if w[0] == 'N' and w[1] == 'capbuf':
            if not require(x, le(seglen(new[1]), w[2][1][1]), 'buffer capacity exceeded'):
                return []
        else:
            raise Unsupported('put into a buffer of unknown capacity')
        setseq(x, x.a[0], new)
        return one(st, UNIT)
    if s[0] == 'S' and v[0] == 'i':
        setseq(x, x.a[0], ('S', st.concat(s[1], (('byt', v[1]),))))
    elif s[0] == 'Q':
        setseq(x, x.a[0], ('Q', qmerge(st, s[1] + (('el', v),))))
    elif s == ('S', ()):
        setseq(x, x.a[0], ('Q', qmerge(st, (('el', v),))))
    else:
        raise Unsupported('push')
    return one(st, UNIT)

@nat('std::vec::Vec::<T, A>::pop')
def v_pop(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    if not decide(st, ('ge', addc(n, -1)) if not is_const(n) else n[0] >= 1):
        return one(st, NONE)
    v = st.index(s, addc(n, -1))
    setseq(x, x.a[0], st.slice(s, const(0), addc(n, -1)))
    return one(st, SOME(v))

@nat('std::vec::Vec::<T, A>::reserve', 'bytes::BytesMut::reserve', 'bytes::Bytes::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit',
     'std::vec::Vec::<T, A>::reserve_exact')
def v_reserve(x):
    if x.name.startswith('bytes::BytesMut'):
        cell, path = target(x.ip, x.st, x.a[0])
        w = x.st.load(cell, path)
        s = seqv(x.st, x.a[0])
        need = add(slen(x.st, s), x.a[1][1])
        if w[0] == 'N' and w[1] == 'capbuf':
            cap = x.st.maxl(w[2][1][1], need)
        else:
            cap = need
        x.st.store(cell, path, ('N', 'capbuf', (s, Lv(cap))))
    return one(x.st, UNIT)

@nat('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def v_remove(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    i = x.a[1][1]
    if not require(x, ('ge', addc(lsub(n, i), -1)), 'remove out of bounds'):
        return []
    v = st.index(s, i)
    a, b = st.slice(s, const(0), i), st.slice(s, addc(i, 1), n)
    if x.m == 'swap_remove' and not decide(st, ('ge', addc(lsub(i, n), 1))):
        # the last one takes its place
        l, b = st.index(s, addc(n, -1)), st.slice(s, addc(i, 1), addc(n, -1))
        b = (b[0], ((('byt', l[1]),) if s[0] == 'S' else (('el', l),)) + tuple(b[1]))
    setseq(x, x.a[0], ('S', st.concat(a[1], b[1])) if s[0] == 'S' else ('Q', qmerge(st, a[1] + b[1])))
    return one(st, v)

@nat('std::vec::Vec::<T, A>::retain', 'std::vec::Vec::<T, A>::retain_mut', 'std::vec::Vec::<T, A>::dedup', 'std::vec::Vec::<T, A>::dedup_by',
     'std::vec::Vec::<T, A>::dedup_by_key')
def v_retain(x):
    # which elements are kept is not followed: all of them, or an unknown part
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    keep = 1 if x.m.startswith('dedup') else 0
    if not decide(st, ('ge', addc(n, -1 - keep)) if not is_const(n) else n[0] >= 1 + keep):
        return one(st, UNIT)
    o = st.copy()
    k = o.fresh('kept', keep)
    o.cons = o.cons | frozenset([addc(lsub(n, k), -1)])
    base = ('KEPT', x.span if isinstance(x.span, str) else str(x.span))
    t = [g for g in (x.ip.elemty.get(b[1]) for b in s[1] if b[0] == 'sub') if g]
    if t:
        x.ip.elemty[base] = t[0]
    o2 = x.st
    x.st = o
    setseq(x, x.a[0], (s[0], (('sub', base, const(0), k),)))
    x.st = o2
    setseq(x, x.a[0], s)
    return [(o2, UNIT), (o, UNIT)]

def anew(x, s, k, kind):
    """a sequence of k elements of s (k None: as many) nothing is known of"""
    st = x.st
    if s[0] == 'S':
        base = st.freshsym(kind)
    else:
        base = (kind.upper(), x.span if isinstance(x.span, str) else str(x.span))
        t = [g for g in (x.ip.elemty.get(b[1]) for b in s[1] if b[0] == 'sub') if g]
        if t:
            x.ip.elemty[base] = t[0]
    return (s[0], (('sub', base, const(0), slen(st, s) if k is None else k),))

@nat('std::slice::<impl [T]>::reverse', 'std::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort_unstable', 'std::slice::<impl [T]>::sort_by',
     'std::slice::<impl [T]>::sort_by_key', 'std::slice::<impl [T]>::sort_unstable_by', 'std::slice::<impl [T]>::sort_unstable_by_key',
     'std::slice::<impl [T]>::rotate_left', 'std::slice::<impl [T]>::rotate_right', 'std::slice::<impl [T]>::swap',
     'alloc::slice::<impl [T]>::sort', 'alloc::slice::<impl [T]>::sort_by', 'alloc::slice::<impl [T]>::sort_by_key',
     'std::slice::<impl [T]>::sort_by_cached_key')
def s_permute(x):
    # which order results is not followed (a sequence of at most one element stays as it is)
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    if x.m == 'swap':
        for i in x.a[1:3]:
            if not require(x, ('ge', addc(lsub(n, i[1]), -1)), 'index out of bounds'):
                return []
        if x.a[1] == x.a[2]:
            return one(st, UNIT)
    if x.m.startswith('rotate'):
        if not require(x, le(x.a[1][1], n), 'rotation by more than the length'):
            return []
        if x.a[1][1] == const(0):
            return one(st, UNIT)
    if not decide(st, ('ge', addc(n, -2)) if not is_const(n) else n[0] >= 2):
        return one(st, UNIT)
    if x.m == 'reverse' and is_const(n) and n[0] <= 64:
        parts = [st.index(s, const(i)) for i in reversed(range(n[0]))]
        setseq(x, x.a[0], ('S', st.mergesegs(tuple(('byt', p[1]) for p in parts))) if s[0] == 'S' else ('Q', qmerge(st, tuple(('el', p) for p in parts))))
        return one(st, UNIT)
    setseq(x, x.a[0], anew(x, s, None, 'permuted'))
    return one(st, UNIT)

@nat('std::vec::Vec::<T, A>::drain')
def v_drain(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    a, b, _ = rng(x, x.a[1], n)
    if not require(x, le(a, b), 'range start after end') or not require(x, le(b, n), 'range end out of bounds'):
        return []
    out, l, r = st.slice(s, a, b), st.slice(s, const(0), a), st.slice(s, b, n)
    setseq(x, x.a[0], ('S', st.concat(l[1], r[1])) if s[0] == 'S' else ('Q', qmerge(st, l[1] + r[1])))
    return one(st, ('N', 'biter', (out, Lv(const(0)), Lv(slen(st, out)))))

@nat('std::str::<impl str>::trim', 'std::str::<impl str>::trim_start', 'std::str::<impl str>::trim_end', 'std::str::<impl str>::trim_left',
     'std::str::<impl str>::trim_right', 'std::str::<impl str>::trim_matches', 'std::str::<impl str>::trim_start_matches',
     'std::str::<impl str>::trim_end_matches', 'std::slice::<impl [u8]>::trim_ascii', 'std::slice::<impl [u8]>::trim_ascii_start',
     'std::slice::<impl [u8]>::trim_ascii_end', 'core::slice::ascii::<impl [u8]>::trim_ascii', 'core::slice::ascii::<impl [u8]>::trim_ascii_start',
     'core::slice::ascii::<impl [u8]>::trim_ascii_end')
def s_trim(x):
    # whether, and how much, is cut is not followed
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    if s[0] != 'S':
        return None
    if not decide(st, ('ge', addc(n, -1)) if not is_const(n) else n[0] >= 1):
        return one(st, ('V', s))
    o = st.copy()
    lo, hi = const(0), n
    if not x.m.endswith(('_start', '_left', '_start_matches')):
        hi = o.fresh('trimmed', 0)
        o.cons = o.cons | frozenset([addc(lsub(n, hi), -1)])
    if not x.m.endswith(('_end', '_right', '_end_matches')):
        lo = o.fresh('trimmed', 0)
        o.cons = o.cons | frozenset([lsub(hi, lo)] + ([addc(lo, -1)] if hi == n else []))
    return [(st, ('V', s)), (o, ('V', o.slice(s, lo, hi)))]

@nat('std::slice::ascii::<impl [u8]>::to_ascii_lowercase', 'std::slice::ascii::<impl [u8]>::to_ascii_uppercase', 'std::slice::<impl [u8]>::to_ascii_lowercase',
     'std::slice::<impl [u8]>::to_ascii_uppercase', 'alloc::slice::<impl [u8]>::to_ascii_lowercase', 'alloc::slice::<impl [u8]>::to_ascii_uppercase',
     'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_ascii_uppercase', 'alloc::str::<impl str>::to_ascii_lowercase',
     'alloc::str::<impl str>::to_ascii_uppercase', 'std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase',
     'std::slice::<impl [u8]>::make_ascii_lowercase', 'std::slice::<impl [u8]>::make_ascii_uppercase', 'core::slice::ascii::<impl [u8]>::make_ascii_lowercase',
     'core::slice::ascii::<impl [u8]>::make_ascii_uppercase', 'std::slice::ascii::<impl [u8]>::make_ascii_lowercase',
     'std::slice::ascii::<impl [u8]>::make_ascii_uppercase')
def s_case(x):
    # unknown bytes: the same, or others in their place
    st = x.st
    s = seqv(st, x.a[0])
    if s[0] != 'S':
        return None
    up = x.m.endswith('uppercase')
    if all(g[0] == 'lit' for g in s[1]):
        b = b''.join(g[1] for g in s[1])
        b = b.upper() if up else b.lower()
        out = [(st, ('S', (('lit', b),) if b else ()))]
    else:
        n = slen(st, s)
        if not decide(st, ('ge', addc(n, -1)) if not is_const(n) else n[0] >= 1):
            out = [(st, s)]
        else:
            o = st.copy()
            x.st = o
            t = anew(x, s, None, 'cased')
            x.st = st
            out = [(st, s), (o, t)]
    if x.m.startswith('make'):
        res = []
        for s2, v in out:
            x.st = s2
            setseq(x, x.a[0], v)
            res.append((s2, UNIT))
        x.st = st
        return res
    return out

@nat('std::vec::Vec::<T, A>::insert')
def v_insert(x):
    st = x.st
    s = seqv(st, x.a[0])
    n = slen(st, s)
    i = x.a[1][1]
    if not require(x, le(i, n), 'insert out of bounds'):
        return []
    a, b = st.slice(s, const(0), i), st.slice(s, i, n)
    if s[0] == 'S':
        setseq(x, x.a[0], ('S', st.concat(st.concat(a[1], (('byt', x.a[2][1]),)), b[1])))
    else:
        setseq(x, x.a[0], ('Q', qmerge(st, a[1] + (('el', x.a[2]),) + b[1])))
    return one(st, UNIT)

@nat('std::vec::from_elem')
def v_from_elem(x):
    v, n = x.a[0], x.a[1][1]
    if is_const(n) and v[0] == 'i' and is_const(v[1]) and n[0] <= 65536:
        return one(x.st, ('S', (('lit', bytes([v[1][0]]) * n[0]),) if n[0] else ()))
    raise Unsupported('vec![x; n]')

# ------------------------------------------------------------------ comparison of byte sequences
def seq_eq(x, a, b):
    """condition for equality; needs equal lengths known or splits"""
    st = x.st
    if a == b:
        return True
    na, nb = slen(st, a), slen(st, b)
    d = lsub(na, nb)
    if is_const(d):
        if d[0] != 0:
            return False
    elif not decide(st, ('eq', d)):
        return False
    na, nb = slen(st, a), slen(st, b)
    if is_const(na):
        k = na[0]
    elif is_const(nb):
        k = nb[0]
    elif is_const(lsub(na, nb)) and st.ent_eq(na):
        return True
    else:
        k = None
        for s in (na, nb):
            for i in range(0, 16):
                if st.ent_eq(addc(s, -i)):
                    k = i
        if k is None:
            if x.name and symof(a) is not None and symof(b) is not None:
                return ('sym', ('cmp', 'Eq', symof(a), symof(b)))
            raise Unsupported('equality of sequences of unknown length')
    c = True
    for i in range(k):
        p, q = st.index(a, const(i)), st.index(b, const(i))
        c = cand(c, byte_eq(x, p, q))
        if c is False:
            return False
    return c

def byte_eq(x, p, q):
    if p[0] == 'i' and q[0] == 'i':
        return x.ip.cmpc(x.st, 'Eq', p[1], q[1])
    if p == q:
        return True
    raise Unsupported('element equality')

EQ = re.compile(r'PartialEq(<.*>)?( for .*)?>::(eq|ne)$|::spec_eq$')

def n_eq(x):
    """equality between byte sequences of any container type"""
    try:
        a, b = seqv(x.st, x.a[0]), seqv(x.st, x.a[1])
    except Unsupported:
        return None
    def bseq(v):
        if v[0] == 'S':
            return v
        if v[0] == 'A' and v[1] is None and v[3] and all(f[0] == 'i' for f in v[3]):
            return ('S', x.st.mergesegs(tuple(('byt', f[1]) for f in v[3])))
        return None
    a2, b2 = bseq(a), bseq(b)
    if a2 is None or b2 is None:
        return None
    c = seq_eq(x, a2, b2)
    return one(x.st, ('b', neg(c) if x.name.endswith('ne') else c))

@nat('std::slice::<impl [T]>::starts_with', 'std::str::<impl str>::starts_with')
def s_starts(x):
    st = x.st
    a, b = seqv(st, x.a[0]), seqv(st, x.a[1])
    if not decide(st, le(slen(st, b), slen(st, a))):
        return one(st, ('b', False))
    return one(st, ('b', seq_eq(x, st.slice(a, const(0), slen(st, b)), b)))

@nat('std::slice::<impl [T]>::ends_with')
def s_ends(x):
    st = x.st
    a, b = seqv(st, x.a[0]), seqv(st, x.a[1])
    n, k = slen(st, a), slen(st, b)
    if not decide(st, le(k, n)):
        return one(st, ('b', False))
    return one(st, ('b', seq_eq(x, st.slice(a, lsub(n, k), n), b)))

# ------------------------------------------------------------------ iterators
def mkiter(x, ref, kind='iter'):
    s = seqv(x.st, ref)
    return ('N', kind, (s, Lv(const(0)), Lv(slen(x.st, s))))

@nat('std::slice::<impl [T]>::iter', '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
     'std::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter', 'std::slice::Iter::<\'a, T>::new',
     'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter', '<&\'a bytes::Bytes as std::iter::IntoIterator>::into_iter',
     '<&\'a bytes::BytesMut as std::iter::IntoIterator>::into_iter')
def s_iter(x):
    if 'bytes' in x.name:       # Bytes::into_iter yields bytes through an io cursor
        return one(x.st, mkiter(x, x.a[0], 'biter'))
    return one(x.st, mkiter(x, x.a[0]))

@nat('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', '<bytes::Bytes as std::iter::IntoIterator>::into_iter',
     '<bytes::BytesMut as std::iter::IntoIterator>::into_iter', 'std::str::<impl str>::bytes',
     'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def v_intoiter(x):
    return one(x.st, mkiter(x, x.a[0], 'biter'))

@nat('std::slice::<impl [T]>::windows')
def s_windows(x):
    n = x.a[1][1]
    if not require(x, ('ge', addc(n, -1)) if not is_const(n) else n[0] >= 1, 'window size zero'):
        return []
    s = seqv(x.st, x.a[0])
    return one(x.st, ('N', 'windows', (s, Lv(const(0)), Lv(slen(x.st, s)), Lv(n))))

@nat('std::slice::<impl [T]>::chunks')
def s_chunks(x):
    n = x.a[1][1]
    if not require(x, ('ge', addc(n, -1)) if not is_const(n) else n[0] >= 1, 'chunk size zero'):
        return []
    s = seqv(x.st, x.a[0])
    return one(x.st, ('N', 'chunks', (s, Lv(const(0)), Lv(slen(x.st, s)), Lv(n))))

MAPITER = re.compile(r"^std::collections::(HashMap|BTreeMap|hash_map::.*|btree_map::.*|hash::map::.*)::<.*>::(iter|keys|values|len|is_empty)$"
                     r"|^<&'a std::collections::(HashMap|BTreeMap)<.*> as std::iter::IntoIterator>::into_iter$")

def n_map(x):
    m = x.m
    if m in ('len', 'is_empty'):
        return b_len(x) if m == 'len' else b_empty(x)
    return one(x.st, mkiter(x, x.a[0], {'iter': 'pairs', 'into_iter': 'pairs', 'keys': 'keys', 'values': 'vals'}[m]))

ITERK = ('iter', 'biter', 'windows', 'chunks', 'pairs', 'keys', 'vals')

def iter_next(st, cell, path, it):
    """advance a native iterator; returns the item or None"""
    k = it[1]
    s, lo, hi = it[2][0], it[2][1][1], it[2][2][1]
    if k in ('iter', 'biter'):
        if not decide(st, ('ge', addc(lsub(hi, lo), -1)) if not is_const(lsub(hi, lo)) else hi[0] > lo[0]):
            return None
        v = st.index(s, lo)
        st.store(cell, path, ('N', k, (s, Lv(addc(lo, 1)), Lv(hi)) + it[2][3:]))
        return ('V', v) if k == 'iter' else v
    if k in ('pairs', 'keys', 'vals'):
        if not decide(st, ('ge', addc(lsub(hi, lo), -1)) if not is_const(lsub(hi, lo)) else hi[0] > lo[0]):
            return None
        v = st.index(s, lo)
        st.store(cell, path, ('N', k, (s, Lv(addc(lo, 1)), Lv(hi))))
        a, b = [('V', st.proj(v, ('f', i, None))) for i in (0, 1)]
        return TUP(a, b) if k == 'pairs' else a if k == 'keys' else b
    if k == 'windows':
        n = it[2][3][1]
        d = lsub(lsub(hi, lo), n)
        if not decide(st, ('ge', d) if not is_const(d) else d[0] >= 0):
            return None
        v = st.slice(s, lo, add(lo, n))
        st.store(cell, path, ('N', k, (s, Lv(addc(lo, 1)), Lv(hi), Lv(n))))
        return ('V', v)
    if k == 'chunks':
        n = it[2][3][1]
        d = lsub(hi, lo)
        if not decide(st, ('ge', addc(d, -1)) if not is_const(d) else d[0] >= 1):
            return None
        m = st.minl(add(lo, n), hi)
        v = st.slice(s, lo, m)
        st.store(cell, path, ('N', k, (s, Lv(m), Lv(hi), Lv(n))))
        return ('V', v)
    raise Unsupported('iterator %s' % k)

def iter_back(st, cell, path, it):
    k = it[1]
    s, lo, hi = it[2][0], it[2][1][1], it[2][2][1]
    if k in ('iter', 'biter'):
        if not decide(st, ('ge', addc(lsub(hi, lo), -1)) if not is_const(lsub(hi, lo)) else hi[0] > lo[0]):
            return None
        v = st.index(s, addc(hi, -1))
        st.store(cell, path, ('N', k, (s, Lv(lo), Lv(addc(hi, -1))) + it[2][3:]))
        return ('V', v) if k == 'iter' else v
    raise Unsupported('backwards iterator %s' % k)

def native_iter(x, v):
    """native iterator behind a reference, with its place"""
    if v[0] == 'R':
        o = x.st.load(v[1], v[2])
        if o[0] == 'R':
            return native_iter(x, o)
        if o[0] == 'N' and o[1] in ITERK:
            return v[1], v[2], o
    return None

RANGE_NEXT = re.compile(r'^std::iter::range::<impl std::iter::(Iterator|DoubleEndedIterator) for std::ops::Range<A>>::(next|next_back)$'
                        r'|^<std::ops::Range<A> as std::iter::.*>::(next|spec_next|next_back|spec_next_back)$'
                        r'|^<std::ops::Range<T> as std::iter::range::RangeIteratorImpl>::(spec_next|spec_next_back)$')

def n_range(x):
    st = x.st
    c, p = target(x.ip, st, x.a[0])
    r = st.load(c, p)
    lo, hi = r[3][0][1], r[3][1][1]
    d = lsub(hi, lo)
    if not decide(st, ('ge', addc(d, -1)) if not is_const(d) else d[0] >= 1):
        return one(st, NONE)
    if 'back' in x.name:
        hi = addc(hi, -1)
        st.store(c, p, ('A', r[1], 0, (I(lo), I(hi))))
        return one(st, SOME(I(hi)))
    st.store(c, p, ('A', r[1], 0, (I(addc(lo, 1)), I(hi))))
    return one(st, SOME(I(lo)))

def n_iter(x):
    """methods of native iterators"""
    m = x.m
    if not x.a:
        return None
    a0 = x.a[0]
    ni = native_iter(x, a0)
    if ni is None:
        if a0[0] == 'N' and a0[1] in ITERK:
            if m in ('into_iter', 'by_ref'):
                return one(x.st, a0)
            if m in ('clone',):
                return one(x.st, a0)
            if m in ('count', 'len'):
                return one(x.st, I(itcount(x, a0)))
            if m in ('fold', 'for_each', 'last', 'max', 'min', 'sum', 'all', 'any', 'position', 'find', 'rposition'):
                cell = x.st.newheap(a0)
                x.a = [('R', cell, ())] + list(x.a[1:])
                return n_iter(x)
            if m == 'rev':
                return None
            if m in ('copied', 'cloned') and a0[1] == 'iter':
                return one(x.st, ('N', 'biter', a0[2]))
            if m == 'as_slice':
                return one(x.st, ('V', x.st.slice(a0[2][0], a0[2][1][1], a0[2][2][1])))
        return None
    cell, path, it = ni
    st = x.st
    if m == 'next':
        v = iter_next(st, cell, path, it)
        return one(st, NONE if v is None else SOME(v))
    if m == 'next_back':
        v = iter_back(st, cell, path, it)
        return one(st, NONE if v is None else SOME(v))
    if m == 'clone':
        return one(st, it)
    if m in ('len', 'size_hint'):
        n = itcount(x, it)
        return one(st, I(n) if m == 'len' else TUP(I(n), SOME(I(n))))
    if m == 'as_slice':
        return one(st, ('V', st.slice(it[2][0], it[2][1][1], it[2][2][1])))
    if m == '__iterator_get_unchecked' and it[1] in ('iter', 'biter'):
        v = st.index(it[2][0], add(it[2][1][1], x.a[1][1]))
        return one(st, ('V', v) if it[1] == 'iter' else v)
    if m == 'nth' and it[1] in ('iter', 'biter'):
        s, lo, hi = it[2][0], it[2][1][1], it[2][2][1]
        k = x.a[1][1]
        d = lsub(lsub(hi, lo), k)
        if not decide(st, ('ge', addc(d, -1)) if not is_const(d) else d[0] >= 1):
            st.store(cell, path, ('N', it[1], (s, Lv(hi), Lv(hi))))
            return one(st, NONE)
        v = st.index(s, add(lo, k))
        st.store(cell, path, ('N', it[1], (s, Lv(addc(add(lo, k), 1)), Lv(hi))))
        return one(st, SOME(('V', v) if it[1] == 'iter' else v))
    if m in ('position', 'any', 'all', 'find', 'rposition', 'for_each', 'fold', 'find_map'):
        fr = ('N', m)
        d = len(st.frames)
        st.frames = st.frames + ((fr, 0, x.dest, x.target, x.cont),)
        st.mem[('L', d, 'it')] = ('R', cell, path)
        if m == 'fold':
            st.mem[('L', d, 'acc')] = x.a[1]
            st.mem[('L', d, 'f')] = x.a[2]
        else:
            st.mem[('L', d, 'f')] = x.a[1]
        st.mem[('L', d, 'n')] = I(const(0))
        st.entry = True
        return [(st, PUSHED)]
    return None

def itcount(x, it):
    s, lo, hi = it[2][0], it[2][1][1], it[2][2][1]
    d = lsub(hi, lo)
    if it[1] in ('iter', 'biter', 'pairs', 'keys', 'vals'):
        return d
    if it[1] == 'windows':
        r = lsub(addc(d, 1), it[2][3][1])
        return r if decide(x.st, ('ge', r) if not is_const(r) else r[0] >= 0) else const(0)
    n = x.st.fresh('count', 0)
    return n

def fr_iter(ip, st, fr, d):
    """native search / fold loops over a native iterator"""
    m = fr[0][1]
    L = lambda k: st.mem[('L', d, k)]
    def done(v):
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == d]:
            del st.mem[k]
        st.frames = st.frames[:-1]
        return ip.finish(st, v, fr[2], fr[3], fr[4])
    if fr[1] == 0:
        r = L('it')
        it = st.load(r[1], r[2])
        v = (iter_back if m == 'rposition' else iter_next)(st, r[1], r[2], it)
        if v is None:
            return done({'position': NONE, 'rposition': NONE, 'any': ('b', False), 'all': ('b', True), 'find': NONE, 'find_map': NONE,
                         'for_each': UNIT, 'fold': st.mem.get(('L', d, 'acc'))}[m])
        st.mem[('L', d, 'v')] = v
        st.frames = st.frames[:-1] + ((fr[0], 1) + fr[2:],)
        f = L('f')
        if m == 'fold':
            args = [L('acc'), v]
        elif m == 'find':
            args = [('V', v)]
        else:
            args = [v]
        if f[0] == 'N' and f[1] == 'eqbyte':
            st.mem[('L', d, 'r')] = ('b', ip.cmpc(st, 'Eq', deep(st, v)[1], f[2][0][1]))
            st.frames = st.frames[:-1] + ((fr[0], 2) + fr[2:],)
            return [st]
        if f[0] == 'A' and not is_ref_closure(ip, f):
            f = ('R', ('L', d, 'f'), ())
        elif f[0] == 'A':
            f = ('R', ('L', d, 'f'), ())
        return ip.apply(st, f, args, (('L', d, 'r'), ()), 2, None)
    if fr[1] == 2:
        r = L('r')
        back = False
        if m == 'fold':
            st.mem[('L', d, 'acc')] = r
        elif m == 'find_map':
            if st.variant_of(r) == 1:
                return done(r)
        elif m != 'for_each':
            c = decide(st, r[1])
            if m == 'rposition' and c:
                o = L('it')
                return done(SOME(I(itcount(None, st.load(o[1], o[2])))))
            if m == 'position' and c:
                return done(SOME(L('n')))
            if m == 'any' and c:
                return done(('b', True))
            if m == 'all' and not c:
                return done(('b', False))
            if m == 'find' and c:
                return done(SOME(L('v')))
        st.mem[('L', d, 'n')] = I(addc(L('n')[1], 1))
        st.mem.pop(('L', d, 'r'), None)
        st.mem.pop(('L', d, 'v'), None)
        st.frames = st.frames[:-1] + ((fr[0], 0) + fr[2:],)
        st.entry = False
        return [st]
    raise Unsupported('native frame %r' % (fr[:2],))

def is_ref_closure(ip, f):
    return True

@nat('std::slice::memchr::memchr', 'std::slice::memchr::memchr_aligned')
def s_memchr(x):
    st = x.st
    s = seqv(st, x.a[1])
    d = len(st.frames)
    st.frames = st.frames + ((('N', 'position'), 0, x.dest, x.target, x.cont),)
    c = st.newheap(('N', 'iter', (s, Lv(const(0)), Lv(slen(st, s)))))
    st.mem[('L', d, 'it')] = ('R', c, ())
    st.mem[('L', d, 'f')] = ('N', 'eqbyte', (x.a[0],))
    st.mem[('L', d, 'n')] = I(const(0))
    st.entry = True
    return [(st, PUSHED)]

WORLD = re.compile(r'^<?std::(time|env|sync::atomic|thread::local|thread::LocalKey|thread::current|process::id|collections::(hash_set|HashSet|BTreeSet|btree_set|hash::set|btree::set)|cell|hash|hash_map::RandomState)::'
                   r'|^std::net::(Ipv4Addr|Ipv6Addr|IpAddr)::to_(ipv4|ipv6|canonical)'
                   r'|^<?std::(thread::LocalKey|collections::(HashSet|BTreeSet)|cell::(Cell|RefCell))<')

# Vec::from_iter over any iterator whose `next` is known
def n_fromiter(x):
    b = x.ip.prog.body_of(x.c)
    if b is None:
        return None
    nx = find_next(x.ip.prog, b, 0)
    if nx is None:
        # inlined there
        nx = iter_fn(x.ip.prog, x.a[0])
        if nx is None:
            return None
    return collecting(x, nx, x.a[0], ('S', ()), None)

def iter_fn(p, it):
    """`next` of an iterator"""
    k = (it[1], 'Iterator', 'next') if it[0] == 'A' else None
    if k is None or k not in p.wit:
        return None
    if k not in p.wfn:
        p.wfn[k] = len(p.fns)
        p.fns.append({'m': 'next', 'trait': 'std::iter::Iterator', 'path': 'std::iter::Iterator::next', 'body': p.wit[k]})
    return p.wfn[k]

def collecting(x, nx, it, acc, into):
    st = x.st
    d = len(st.frames)
    st.frames = st.frames + ((('N', 'collect', nx), 0, x.dest, x.target, x.cont),)
    st.mem[('L', d, 'it')] = it
    st.mem[('L', d, 'acc')] = acc
    if into is not None:
        st.mem[('L', d, 'into')] = into
    st.entry = True
    return [(st, PUSHED)]

def find_next(prog, b, depth):
    for stmts, t in prog.bodies[b].blocks:
        if t[0] == 'call':
            c = prog.fns[t[1]]
            if c.get('m') == 'next' and (c.get('trait') or '').endswith('Iterator'):
                return t[1]
    if depth < 4:
        for stmts, t in prog.bodies[b].blocks:
            if t[0] == 'call':
                c = prog.fns[t[1]]
                b2 = prog.body_of(c)
                if b2 is not None and ('from_iter' in str(c.get('m')) or 'extend' in str(c.get('m'))):
                    r = find_next(prog, b2, depth + 1)
                    if r is not None:
                        return r
    return None

def fr_collect(ip, st, fr, d):
    if fr[1] == 0:
        st.frames = st.frames[:-1] + ((fr[0], 1) + fr[2:],)
        return ip.invoke(st, ip.prog.fns[fr[0][2]], [('R', ('L', d, 'it'), ())], (('L', d, 'r'), ()), 2, None, None)
    r = st.mem[('L', d, 'r')]
    if st.variant_of(r) == 0:
        v = st.mem[('L', d, 'acc')]
        into = st.mem.get(('L', d, 'into'))
        if into is not None:
            st.store(*target(ip, st, into), v)
            v = UNIT
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == d]:
            del st.mem[k]
        st.frames = st.frames[:-1]
        return ip.finish(st, v, fr[2], fr[3], fr[4])
    v = st.proj(st.proj(r, ('d', 1)), ('f', 0, None))
    acc = st.mem[('L', d, 'acc')]
    if ('L', d, 'into') in st.mem and v[0] in ('R', 'V') and acc[0] == 'S':
        w = deep(st, v)
        v = w if w[0] == 'i' else v
    if v[0] == 'i':
        acc = ('S', st.concat(acc[1], (('byt', v[1]),)))
    else:
        acc = ('Q', qmerge(st, (acc[1] if acc[0] == 'Q' else ()) + (('el', v),)))
    st.mem[('L', d, 'acc')] = acc
    st.mem.pop(('L', d, 'r'), None)
    st.frames = st.frames[:-1] + ((fr[0], 0) + fr[2:],)
    st.entry = False
    return [st]

# ------------------------------------------------------------------ misc
@nat('std::future::get_context', 'std::task::Context::<\'a>::waker', '<std::task::Waker as std::clone::Clone>::clone', '<std::task::Waker as std::clone::Clone>::clone_from', 'std::task::Waker::clone', 'std::task::Context::<\'a>::from_waker')
def m_ctx(x):
    return one(x.st, ('O', None, ('context', 0) if own_context(x.st, x.a[0]) else ('other context', 0)))

@nat('futures::task::noop_waker', 'futures::task::noop_waker_ref', 'futures_task::noop_waker', 'futures_task::noop_waker_ref', 'std::task::Waker::noop')
def m_noop(x):
    return one(x.st, ('O', None, ('other context', 0)))

@nat('std::task::Waker::will_wake')
def m_will(x):
    if own_context(x.st, x.a[0]) and own_context(x.st, x.a[1]):
        return one(x.st, ('b', True))
    return one(x.st, ('b', ('sym', x.st.freshsym('wake'))))

def own_context(st, v):
    """is v the context (or a waker of it) that this poll was called with? Any other one wakes nobody"""
    for _ in range(4):
        if v[0] == 'R':
            v = st.load(v[1], v[2])
        elif v[0] == 'V' or v[0] == 'A' and len(v[3]) == 1:
            v = v[1] if v[0] == 'V' else v[3][0]
        else:
            break
    return v[0] == 'O' and v[2] in (('context', 0), ('resume', 0))

@nat('std::task::Waker::wake_by_ref', 'std::task::Waker::wake')
def m_wake(x):
    if own_context(x.st, x.a[0]):
        x.ip.spec_event(x.st, 'wake', None)
    return one(x.st, UNIT)

@nat('std::pin::Pin::<Ptr>::new', 'std::pin::Pin::<Ptr>::new_unchecked', 'std::pin::pin_new')
def m_pinnew(x):
    return one(x.st, ('A', None, 0, (x.a[0],)))

@nat('std::pin::Pin::<&\'a mut T>::get_mut', 'std::pin::Pin::<&\'a mut T>::get_unchecked_mut', 'std::pin::Pin::<&\'a T>::get_ref',
     'std::pin::Pin::<Ptr>::into_inner', 'std::pin::Pin::<Ptr>::into_inner_unchecked', 'std::pin::Pin::<&\'a mut T>::into_ref')
def m_pinget(x):
    p = x.a[0]
    return one(x.st, p[3][0] if p[0] == 'A' else p)

@nat('std::pin::Pin::<Ptr>::as_mut', 'std::pin::Pin::<Ptr>::as_ref')
def m_pinasmut(x):
    p = deep1(x.st, x.a[0])
    inner = p[3][0] if p[0] == 'A' else p
    if inner[0] == 'N' and inner[1] == 'box':
        inner = ('R', inner[2][0], ())
    return one(x.st, ('A', None, 0, (inner,)))

def deep1(st, v):
    if v[0] in ('R', 'V'):
        return st.deref(v)
    return v

@nat('<std::pin::Pin<Ptr> as std::ops::Deref>::deref', '<std::pin::Pin<Ptr> as std::ops::DerefMut>::deref_mut')
def m_pinderef(x):
    p = deep1(x.st, x.a[0])
    inner = p[3][0] if p[0] == 'A' else p
    if inner[0] == 'N' and inner[1] == 'box':
        inner = ('R', inner[2][0], ())
    return one(x.st, inner)

@nat('std::pin::Pin::<Ptr>::set')
def m_pinset(x):
    p = x.a[0]
    p = deep1(x.st, p) if p[0] != 'A' else p
    c, pa = target1(p, x)
    x.st.store(c, pa, x.a[1])
    return one(x.st, UNIT)

@nat('std::intrinsics::raw_eq')
def m_raweq(x):
    a, b = seqv(x.st, x.a[0]), seqv(x.st, x.a[1])
    return one(x.st, ('b', seq_eq(x, a, b)))

FMT = re.compile(r'^std::fmt::|^std::fmt::rt::')
def n_fmt(x):
    m = x.name
    if 'Argument::' in m and '::new_' in m:
        kind = m.rsplit('new_', 1)[1]
        v = deep(x.st, x.a[0])
        if v[0] == 'i' and any(x.ip.prog.types[t]['k'] == 'char' for t in x.c.get('a') or () if isinstance(t, int)):
            if kind != 'display' or not (x.st.ent(v[1]) and x.st.ent(addc(scale(v[1], -1), 127))):
                raise Unsupported('formatting of a character')
            v = ('S', (('lit', bytes([v[1][0]])),) if is_const(v[1]) else (('byt', v[1]),))
        return one(x.st, ('N', 'fmtarg', (('K', kind), v)))
    if 'Arguments' in m:
        if m.endswith('::new') and len(x.a) == 2:
            return one(x.st, ('N', 'fmt', (seqv(x.st, x.a[0]), deep(x.st, x.a[1]))))
        if m.endswith('::from_str') or m.endswith('::new_const'):
            return one(x.st, ('N', 'fmt1', (seqv(x.st, x.a[0]),)))
        return one(x.st, ('N', 'fmtx', ()))
    if 'Formatter' in m:
        return one(x.st, OK(UNIT))
    return None

def fmt_render(st, v):
    """the byte sequence a formatting request produces"""
    v = deep(st, v)
    if v[0] == 'N' and v[1] == 'fmt1':
        return v[2][0]
    if v[0] != 'N' or v[1] != 'fmt':
        raise Unsupported('formatting of %s' % show(v))
    tmpl, args = v[2]
    t = b''.join(sg[1] for sg in tmpl[1])
    args = args[3] if args[0] == 'A' else tuple(i[1] for i in args[1])
    out = ()
    i = n = 0
    while True:
        c = t[i]
        i += 1
        if c == 0:
            return ('S', st.mergesegs(out))
        if c <= 0x80:
            if c == 0x80:
                c = t[i] | t[i + 1] << 8
                i += 2
            out += (('lit', t[i:i + c]),)
            i += c
            continue
        flags = width = None
        if c & 1:
            flags = int.from_bytes(t[i:i + 4], 'little')
            i += 4
        if c & 2:
            width = int.from_bytes(t[i:i + 2], 'little')
            i += 2
        if c & 4:
            raise Unsupported('formatting with a precision')
        if c & 8:
            n = int.from_bytes(t[i:i + 2], 'little')
            i += 2
        if c & 0x30:
            raise Unsupported('formatting with a computed width')
        out += fmt_one(st, args[n], flags, width)
        n += 1

def fmt_one(st, arg, flags, width):
    arg = deep(st, arg)
    if arg[0] != 'N' or arg[1] != 'fmtarg':
        raise Unsupported('formatting of %s' % show(arg))
    kind, v = arg[2][0][1], deep(st, arg[2][1])
    if kind == 'debug' and v[0] == 'O' and v[1] is not None and width is None:
        p = st.ip.prog.types[v[1]].get('p') or ''
        if not p.startswith('std::net::'):
            return st.ip.spec.bytes_of(st, ('.', v[2], 'debug'))[1]
    elif kind != 'display' and not (kind == 'debug' and v[0] == 'i'):
        raise Unsupported('formatting as ' + kind)
    if v[0] == 'S' and width is None:
        return v[1]
    if v[0] == 'i' and width is None and is_const(v[1]):
        return (('lit', str(v[1][0]).encode()),)
    if v[0] == 'i' and width in (None, 3) and st.ent(v[1]):
        # decimal digits of a small number
        zero = flags is not None and flags & (1 << 24)
        for lim, k in ((10, 1), (100, 2), (1000, 3)):
            if decide(st, ('ge', addc(scale(v[1], -1), lim - 1))):
                ds = [st.fresh('digit', 0, 9) for _ in range(k)]
                e = v[1]
                for j, d in enumerate(ds):
                    e = lsub(e, scale(d, 10 ** (k - 1 - j)))
                st.cons = st.cons | frozenset([e, scale(e, -1)])
                pad = (width or 0) - k
                return ((('lit', (b'0' if zero else b' ') * pad),) if pad > 0 else ()) + tuple(('byt', addc(d, 48)) for d in ds)
        width = None
    if width is None:
        if v[0] in ('O', 'D'):
            return st.ip.spec.bytes_of(st, ('.', v[2], 'display'))[1]
        if v[0] == 'i' and len(v[1][1]) == 1 and v[1][0] == 0:
            s = v[1][1][0][0]
            if isinstance(s, tuple) and s[0] == 'o':
                return st.ip.spec.bytes_of(st, ('.', s[1], 'display'))[1]
    raise Unsupported('formatting of %s' % show(v))

@nat('std::fmt::format', 'alloc::fmt::format')
def m_format(x):
    return one(x.st, fmt_render(x.st, x.a[0]))

@nat('std::str::from_utf8')
def m_utf8(x):
    s = seqv(x.st, x.a[0])
    st = x.st
    # known ASCII is always valid
    if all(sg[0] == 'lit' and all(b < 128 for b in sg[1]) for sg in s[1]):
        return one(st, OK(('V', s)))
    s2 = st.copy()
    return [(st, OK(('V', s))), (s2, ERR(('O', None, s2.freshsym('utf8error'))))]

class Models:
    conts = {}

    def __init__(self, prog, env):
        self.prog = prog
        self.env = env
        self.closures = {}
        self.coro = {}
        for b in prog.bodies:
            pass
        self.unmodelled = {}

    # -- calls
    def call(self, ip, st, c, args, dest, target, dty, span, cont):
        name = c.get('rpath') or c.get('path') or ''
        x = Call()
        x.ip, x.st, x.c, x.a, x.name = ip, st, c, args, name
        x.dest, x.target, x.dty, x.span, x.cont = dest, target, dty, span, cont
        x.m = c.get('m')
        r = self.env.call(x)
        if r is not None:
            return r
        f = N.get(name)
        if f is not None:
            r = f(x)
            if r is not None:
                return r
        if x.m in ('next', 'next_back', 'position', 'any', 'all', 'find', 'fold', 'for_each', 'into_iter', 'len', 'size_hint', 'nth',
                   'by_ref', 'clone', 'count', 'copied', 'cloned', 'as_slice', 'find_map', 'rposition', '__iterator_get_unchecked'):
            r = n_iter(x)
            if r is not None:
                return r
        if MAPITER.match(name):
            return n_map(x)
        if RANGE_NEXT.match(name):
            return n_range(x)
        if EQ.search(name):
            r = n_eq(x)
            if r is not None:
                return r
        if name.startswith('std::num::') or name.startswith('std::intrinsics::') and ('saturating' in name or 'wrapping' in name or 'unchecked' in name):
            r = n_int(x)
            if r is not None:
                return r
        if FMT.match(name):
            r = n_fmt(x)
            if r is not None:
                return r
        if 'SpecFromIter' in name or (x.m == 'from_iter' and 'Vec' in name):
            r = n_fromiter(x)
            if r is not None:
                return r
        if name.endswith('::precondition_check') or 'precondition_check' in name:
            return one(st, UNIT)
        if x.m in ('call', 'call_mut', 'call_once') and (c.get('trait') or '').startswith('std::ops::Fn') and self.prog.body_of(c) is None:
            f = args[0]
            g = deep(st, f)
            rest = list(args[1][3])
            if g[0] in ('F', 'FB'):
                return [(s, PUSHED) for s in ip.apply(st, g, rest, dest, target, span, cont)]
            if g[0] == 'A':
                return [(s, PUSHED) for s in ip.apply(st, f, rest, dest, target, span, cont)]
        if x.m in ('deref', 'deref_mut', 'borrow', 'as_ref', 'borrow_mut', 'as_mut') and name.startswith('<&'):
            return one(st, st.deref(args[0]))
        if x.m == 'clone' and args:
            v = deep(st, args[0])
            if v[0] in ('i', 'b', 'S', 'Q') or (v[0] == 'A' and not v[3]):
                return one(st, v)
            if self.prog.body_of(c) is None:
                if v[0] == 'O' or v[0] == 'N' or v[0] == 'A':
                    return one(st, v)
        if WORLD.match(name) and self.prog.body_of(c) is None:
            return self.world(x)
        return None

    def world(self, x):
        """clocks, environment, state shared by threads, sets: any answer"""
        st = x.st
        if x.m in ('with', 'try_with') and 'LocalKey' in x.name:
            f = deep(st, x.a[1])
            b = self.closure_body(x.ip, f[1]) if f[0] == 'A' and x.m == 'with' else None
            if b is None:
                return None
            t = self.prog.types[self.prog.bodies[b].locals[2]]
            v = ('R', st.newheap(st.opaque(t.get('e'), st.freshsym('world'))), ())
            return [(s, PUSHED) for s in x.ip.apply(st, x.a[1], [v], x.dest, x.target, x.span, x.cont)]
        if x.dty is None:
            return None
        t = self.prog.types[x.dty]
        if t['k'] == 'tuple' and not t['f']:
            return one(st, UNIT)
        if t['k'] == 'never':
            return None
        if t['k'] == 'ref':
            return one(st, ('V', st.opaque(t['e'], st.freshsym('world'))))
        return one(st, st.opaque(x.dty, st.freshsym('world')))

    def resolve(self, ip, st, c, args):
        """method of an unknown implementation: the trait's own default body, where the analysis asks for it"""
        tr = c.get('trait')
        if tr and getattr(self.env, 'use_defaults', False):
            for b in self.prog.bodies:
                if b.trait_default == tr and b.kind == 'fn' and b.path == c['path']:
                    return b.id
        if tr and args and self.prog.wit:
            # through a trait object: by the type of the value
            try:
                v = deep(st, args[0])
            except Unsupported:
                return None
            if v[0] in ('A', 'O') and v[1] is not None:
                return self.prog.wit.get((v[1], tr.rsplit('::', 1)[-1], c.get('m')))
        return None

    def drop(self, ip, st, t, d):
        r = self.env.drop(ip, st, t, d)
        if r is not None:
            return r
        p = t[1]
        if not p[1]:
            st.mem.pop(('L', d, p[0]), None)
        return [ip.goto(st, t[2])]

    def closure_body(self, ip, ty):
        if ty is None:
            return None
        b = self.closures.get(ty)
        if b is None:
            t = self.prog.types[ty]
            if t['k'] not in ('closure',):
                return None
            cands = []
            for o in self.prog.bodies:
                if o.kind == 'closure' and o.crate == t['crate']:
                    t1 = o.locals[1]
                    tt = self.prog.types[t1]
                    if tt['k'] == 'ref':
                        t1 = tt['e']
                    if t1 == ty:
                        cands.append(o.id)
            if not cands:
                for o in self.prog.bodies:
                    if o.kind == 'closure' and o.path == t['p'] and o.crate == t['crate']:
                        cands.append(o.id)
            if not cands:
                raise Unsupported('closure body of %s' % t['s'])
            b = self.closures[ty] = cands[0]
        return b

    def poll_coroutine(self, ip, st, b, args, dest, target, cont):
        """poll an async block: run it to completion (suspensions resume at once)"""
        p = args[0]
        cell, path = target_of(ip, st, p)
        v = st.load(cell, path)
        if v[0] == 'N' and v[1] == 'corodone':
            ip.panic(st, 'async fn resumed after completion', None)
            return []
        body = self.prog.bodies[b]
        st.store(cell, path, ('N', 'corodone', ()))
        n = body.argc
        cx = len(args) < 2 or own_context(st, args[1])
        ip.push(st, b, [v] + [('O', None, ('context' if cx else 'other context', 0))] * (n - 1), dest, target, ('T', ('K', 'coro')))
        # keep the outer continuation
        if cont is not None:
            raise Unsupported('continuation around a coroutine')
        return [st]

    def native_frame(self, ip, st):
        fr = st.frames[-1]
        d = len(st.frames) - 1
        if fr[0][1] == 'collect':
            return fr_collect(ip, st, fr, d)
        h = getattr(self.env, 'native_frame', None)
        if h:
            r = h(ip, st, fr, d)
            if r is not None:
                return r
        return fr_iter(ip, st, fr, d)

def target_of(ip, st, v):
    if v[0] == 'A' and v[3]:
        return target_of(ip, st, v[3][0])
    if v[0] == 'R':
        return v[1], v[2]
    if v[0] == 'N' and v[1] == 'box':
        return v[2][0], ()
    raise Unsupported('pinned place: %s' % show(v))

def _c_coro(ip, st, v, data):
    return [(st, READY(v))]
Models.conts['coro'] = _c_coro
