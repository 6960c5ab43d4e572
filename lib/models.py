"""Transfer functions for the standard-library operations the code base uses."""
import functools, re
import terms as T
from terms import *
import engine as E

ORD = 'std::cmp::Ordering'
RES = 'std::result::Result'
TAB = {}
PAT = []

def reg(*names):
    def d(f):
        for n in names: TAB[n] = f
        return f
    return d

def R(v, st): return [('ret', v, st)]

def norm_name(n):
    n = re.sub(r"<'a>|<'a, T>|<'a, 'b>|<'_>", '', n)
    return n

def lookup(info, eng):
    f = info['fn']
    if info.get('local') and 'res' not in info: return None
    if info.get('local') and info.get('res'):
        # trait method implemented in the crate: the implementation is analysed, not modelled
        if f in ('std::iter::IntoIterator::into_iter',): pass
        return None
    g = short(f)
    m = TAB.get(g)
    if m: return m
    return None

_short = {}
def short(f):
    r = _short.get(f)
    if r is None:
        r = f
        r = re.sub(r'^(core|alloc)::', 'std::', r)
        r = re.sub(r'<impl ([^<>]*)>', r'\1', r)
        r = re.sub(r'::<[^<>]*(<[^<>]*>)?[^<>]*>', '', r)       # generic args
        r = r.replace('std::str::str::', 'std::str::')
        _short[f] = r
    return r

def coll_kind(ty):
    if ty is None: return 'seq'
    t = ty.lstrip('&').replace('mut ', '')
    if 'HashSet' in t.split('<')[0] or 'BTreeSet' in t.split('<')[0]: return 'set'
    if 'HashMap' in t.split('<')[0] or 'BTreeMap' in t.split('<')[0]: return 'map'
    return 'seq'

def D(eng, st, v):
    v = eng.deref(st, v)
    if v[0] == 'lazymap': raise E.GiveUp('closure with effects')
    return v

# loops hidden in the adapters of iterators, for closures that have effects:
#   for x in _1 { f(x) }                              (for_each)
#   for x in _1 { acc.push(f(x)) }                    (map, then collect)
#   for x in _1 { match f(x) { Ok(y) => acc.push(y), Err(e) => return Err(e) } }
def _synth(name, on):
    L = lambda n: [n, []]
    fn = lambda f, *a: ['k', dict({'fn': f, 'args': list(a)})]
    fld_ = lambda n, i, v, adt: [n, [['v', i, v], ['f', 0, '0', adt]]]
    # 1 iterator, 2 closure, 3 accumulator, 4 next, 5 &mut iterator, 6 item, 7 &mut closure, 8 arguments, 9 result, 10/11 discriminants, 12 &mut accumulator, 13 unit, 14 payload
    B = [
        [[], ['call', 0, fn('std::iter::IntoIterator::into_iter', 'I'), [['m', L(1)]], L(1), 1]],
        [[[0, L(5), ['ref', 1, L(1)]]], ['call', 0, fn('std::iter::Iterator::next', 'I'), [['m', L(5)]], L(4), 2]],
        [[[0, L(10), ['disc', L(4), OPTION]]], ['switch', 0, ['m', L(10)], 'isize', [[0, 3], [1, 4]], 3]],
        None,
        [[[0, L(6), ['use', ['m', fld_(4, 1, 'Some', OPTION)]]], [0, L(7), ['ref', 1, L(2)]], [0, L(8), ['agg', ['tuple'], [['m', L(6)]]]]],
         ['call', 0, fn('std::ops::FnMut::call_mut', 'F'), [['m', L(7)], ['m', L(8)]], L(9), 5]],
    ]
    push_ = lambda frm: [[[0, L(12), ['ref', 1, L(3)]]], ['call', 0, fn('std::vec::Vec::push', 'T'), [['m', L(12)], ['m', frm]], L(13), 1]]
    if on is None:
        B[3] = [[], ['ret']]
        B.append([[], ['goto', 1]])
    elif on == 'vec':
        B[3] = [[[0, L(0), ['use', ['m', L(3)]]]], ['ret']]
        B.append(push_(L(9)))
    else:
        adt, oki, ok, badi = on
        B[3] = [[[0, L(0), ['agg', ['adt', adt, ok], [['m', L(3)]]]]], ['ret']]
        B.append([[[0, L(11), ['disc', L(9), adt]]], ['switch', 0, ['m', L(11)], 'isize', [[oki, 6], [badi, 7]], 7]])
        B.append(push_(fld_(9, oki, ok, adt)))
        B.append([[[0, L(0), ['use', ['m', L(9)]]]], ['ret']])
    return {'key': name, 'kind': 'Fn', 'file': '', 'line': 0, 'argc': 3, 'locals': ['?'] * 15, 'names': {}, 'upvars': [], 'blocks': B}

def mut(eng, st, a, v):
    """write through a &mut argument"""
    s = st.copy()
    if a[0] != 'ref': raise E.GiveUp('mutation of a value')
    eng.write(s, a[1], a[2], v)
    return s

def pure(eng, st, f, args):
    """decision tree of the results of an effect free closure"""
    res = eng.call_value(None, st, f, args)
    parts = []
    for k, v, s in res:
        if k == 'panic': continue
        for c, x in s.mem.items():
            if c in st.mem and st.mem[c] != x: raise E.GiveUp('closure with effects')
        parts.append((delta(st.pc, s.pc), eng.deep(s, v)))
    return E.partitions_dt(parts)

def delta(base, pc):
    out = []
    for a, v in pc.items():
        if a[0] == 'ge':
            if len(base.known(a)) == 1: continue
        elif base.d.get(a) == v: continue
        out.append((a, v))
    return out

def split_ret(eng, st, tree):
    return [('ret', l, st.with_pc(p)) for p, l in eng.split(st.pc, tree)]

def split_bool(eng, st, t):
    return [(l[1], st.with_pc(p)) for p, l in eng.split(st.pc, as_dt(t))]

def variants(eng, st, v, adt):
    """[(variant, state)]"""
    tree = disc_atom(v, adt)
    if tree is None: raise E.GiveUp('variants of ' + adt)
    return [(l[1], st.with_pc(p)) for p, l in eng.split(st.pc, tree)]

# ------------------------------------------------------------------ identity-like
@reg('std::clone::Clone::clone', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::boxed::Box::new',
     'std::borrow::ToOwned::to_owned', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::convert::Into::into',
     'std::string::String::as_str', 'std::vec::Vec::as_slice', 'std::string::String::from', 'std::hint::must_use',
     'std::slice::[T]::to_vec', 'std::vec::Vec::into_boxed_slice', 'std::rc::Rc::new', 'std::sync::Arc::new', 'std::slice::[T]::into_vec',
     'std::str::to_string', 'std::path::PathBuf::as_path', 'std::boxed::Box::as_ref', 'std::string::String::into_boxed_str', 'std::option::Option::as_deref', 'std::path::PathBuf::into_os_string', 'std::ffi::OsStr::to_os_string', 'std::path::Path::to_string_lossy', 'std::ffi::OsStr::to_string_lossy', 'std::path::PathBuf::into_boxed_path', 'std::path::Path::to_path_buf', 'std::str::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes',
     'std::vec::Vec::as_mut_slice', 'std::convert::identity')
def m_id(eng, fr, st, info, a):
    f = info['fn']
    if f.endswith('deref_mut') or f.endswith('as_mut_slice') or f == 'std::boxed::Box::<T>::new':
        return R(a[0], st)
    if f.endswith('::into') and len(info['args']) == 2 and info['args'][1].startswith('std::boxed::Box<dyn'):
        return R(a[0], st)
    return R(eng.deep(st, a[0]) if a[0][0] == 'ref' else a[0], st)

@reg('std::convert::From::from')
def m_from(eng, fr, st, info, a):
    t = info['args'][0] if info['args'] else ''
    s = info['args'][1] if len(info['args']) > 1 else ''
    if t == s or t.endswith('String') or t.startswith('std::vec::Vec') or re.match(r'^[iuf]\d+$|^usize$|^isize$', t): return R(a[0], st)
    if coll_kind(t) == 'set': return R(coll('set', gens_of(D(eng, st, a[0]), 'set')), st)
    if t.startswith('rand::distributions::'): return R(D(eng, st, a[0]), st)
    if t == PBUF: return R(eng.deep(st, a[0]) if re.match(r'^&?(std::path::Path|std::path::PathBuf)$', s) else coll('seq', (('one', eng.deep(st, a[0])),)), st)
    return None

# a path is the list of the parts it is joined from
PBUF = 'std::path::PathBuf'
def path_parts(v):
    return v[2] if v[0] == 'coll' and v[1] == 'seq' and all(g[0] == 'one' for g in v[2]) else (('one', v),)

@reg('std::path::PathBuf::push')
def m_pathpush(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    return R(UNIT, mut(eng, st, a[0], coll('seq', path_parts(v) + path_parts(eng.deep(st, a[1])))))

@reg('std::path::Path::join')
def m_pathjoin(eng, fr, st, info, a):
    return R(coll('seq', path_parts(eng.deep(st, a[0])) + path_parts(eng.deep(st, a[1]))), st)

@reg('std::path::PathBuf::new')
def m_pathnew(eng, fr, st, info, a): return R(empty('seq'), st)

@reg('std::path::Path::to_path_buf')
def m_topathbuf(eng, fr, st, info, a): return R(eng.deep(st, a[0]), st)

@reg('std::path::Path::new')
def m_path(eng, fr, st, info, a): return R(coll('seq', (('one', eng.deep(st, a[0])),)), st)

@reg('std::boxed::Box::new_uninit')
def m_uninit(eng, fr, st, info, a): return R(('uninit',), st)

@reg('std::boxed::box_assume_init_into_vec_unsafe')
def m_assume(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    return None if v == ('uninit',) else R(v, st)

# ------------------------------------------------------------------ comparisons
def hand_eq(eng, ty):
    ty = ty.lstrip('&')
    for k in ('<%s as std::cmp::PartialEq>::eq' % ty,):
        if k in eng.P.bodies and k not in eng.P.auto: return k
    return None

@reg('std::cmp::PartialEq::eq')
def m_eq(eng, fr, st, info, a):
    k = hand_eq(eng, info['args'][0]) if info['args'] else None
    x, y = eng.deep(st, a[0]), eng.deep(st, a[1])
    if k and k not in eng.opaque: return eng.call_body(k, [x, y], st)
    return R(boolval(eng, x, y), st)

def boolval(eng, x, y):
    if x[0] == 'dval' or y[0] == 'dval': return eng.disc_eq(x, y)
    return eq(x, y)

@reg('std::cmp::PartialEq::ne')
def m_ne(eng, fr, st, info, a):
    k = hand_eq(eng, info['args'][0]) if info['args'] else None
    x, y = eng.deep(st, a[0]), eng.deep(st, a[1])
    if k and k not in eng.opaque:
        return [(kk, bnot(v) if kk == 'ret' else v, s) for kk, v, s in eng.call_body(k, [x, y], st)]
    return R(bnot(boolval(eng, x, y)), st)

INT = re.compile(r'^&*(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$')

def hand_cmp(eng, info):
    """user-written ordering of the compared type"""
    ty = info['args'][0].lstrip('&') if info['args'] else ''
    k = '<%s as std::cmp::PartialOrd>::partial_cmp' % ty
    if k in eng.P.bodies and k not in eng.P.auto and k not in eng.opaque: return k
    return None

def do_cmp(eng, st, info, a, unwrap=True):
    x, y = eng.deep(st, a[0]), eng.deep(st, a[1])
    ty = info['args'][0] if info['args'] else ''
    if x[0] == 'dval': x = eng.dnum(x)
    if y[0] == 'dval': y = eng.dnum(y)
    if x[0] == 'ite' or y[0] == 'ite':
        t = dt_apply(lambda p, q: UNDEF if UNDEF in (p, q) else cmp_t(p, q, ty), x, y) if all(l[0] == 'int' for l in dt_leaves(x) + dt_leaves(y)) else None
        if t is not None: return t
    t = derived_cmp(eng, x, y, ty.lstrip('&'))
    if t is not None: return t
    return cmp_t(x, y, ty)

def concrete(v): return v[0] == 'coll' and v[1] == 'seq' and all(g[0] == 'one' for g in v[2])

def lex_cmp(xs, ys, ty=''):
    if not xs or not ys: return ('vn', 'Equal' if not xs and not ys else 'Less' if not xs else 'Greater')
    rest = lex_cmp(xs[1:], ys[1:], ty)
    return push_leaf(lambda l: rest if l[1] == 'Equal' else l, cmp_t(xs[0], ys[0], ty))

def cmp_t(x, y, ty=''):
    if x == y: return ('vn', 'Equal')
    if concrete(x) and concrete(y): return lex_cmp([g[1] for g in x[2]], [g[1] for g in y[2]], ty[13:-1].split(',')[0].lstrip('&') if ty.startswith('std::vec::Vec<') else '')
    if ty.startswith(OPTION + '<') or x[0] == 'adt' and x[1] == OPTION or y[0] == 'adt' and y[1] == OPTION:
        inner = ty[len(OPTION) + 1:-1].lstrip('&')
        def leaf(p, q):
            if p[1] != q[1]: return ('vn', 'Less' if p[1] == 'None' else 'Greater')
            return ('vn', 'Equal') if p[1] == 'None' else cmp_t(fld(x, OPTION, 'Some', 0), fld(y, OPTION, 'Some', 0), inner)
        dx, dy = disc_atom(x, OPTION), disc_atom(y, OPTION)
        if dx is not None and dy is not None:
            return T.dt_bind(lambda l: UNDEF if UNDEF in l[1:] else leaf(l[1], l[2]), dt_apply(lambda p, q: ('pair', p, q), dx, dy))
    if x[0] == 'tup' and y[0] == 'tup' and len(x[1]) == len(y[1]): return lex_cmp(list(x[1]), list(y[1]))
    if INT.match(ty) or is_int(x) or is_int(y):
        return ite(lt(x, y), ('vn', 'Less'), ite(lt(y, x), ('vn', 'Greater'), ('vn', 'Equal')))
    return cmp_(x, y)

def derived_cmp(eng, x, y, ty):
    """derived order of an enumeration: declaration order of the variants, then their contents"""
    if ty not in DOMS or len(DOMS[ty]) < 2: return None
    nullary = all(T.NFIELDS.get((ty, v), 1) == 0 for v in DOMS[ty])
    tr = '<%s as std::cmp::' % ty
    if not nullary:
        d = eng.P.adts[ty]
        if any(ty.split('::')[-1] in f[1] for v in d['variants'] for f in v['fields']): return None
    if (tr + 'PartialOrd>::partial_cmp') not in eng.P.auto: return None
    dv = eng.discr_of[ty]
    def leaf(p, q):
        if UNDEF in (p, q): return UNDEF
        if p[1] != q[1]: return ('vn', 'Less' if dv[p[1]] < dv[q[1]] else 'Greater')
        r = ('vn', 'Equal')
        if nullary: return r
        fs = [f[1].lstrip('&') for v in eng.P.adts[ty]['variants'] if v['name'] == p[1] for f in v['fields']]
        for i in reversed(range(len(fs))):
            a, b = fld(x, ty, p[1], i), fld(y, ty, p[1], i)
            c = derived_cmp(eng, a, b, fs[i])
            if c is None: c = cmp_t(a, b, fs[i])
            r = T.push_leaf(lambda l: l if l[1] != 'Equal' else r, c)
        return r
    out = dt_apply(lambda p, q: ('pair', p, q), disc_atom(x, ty), disc_atom(y, ty))
    return T.dt_bind(lambda l: leaf(l[1], l[2]), out)

@reg('std::cmp::Ord::cmp')
def m_cmp(eng, fr, st, info, a):
    return split_ret(eng, st, E.cmp_to_adt(do_cmp(eng, st, info, a)))

@reg('std::cmp::PartialOrd::partial_cmp')
def m_pcmp(eng, fr, st, info, a):
    return split_ret(eng, st, push_leaf(lambda l: some(('adt', ORD, l[1], ())), do_cmp(eng, st, info, a)))

@reg('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def m_lt(eng, fr, st, info, a):
    op = info['fn'][-2:]
    ok = {'lt': ('Less',), 'le': ('Less', 'Equal'), 'gt': ('Greater',), 'ge': ('Greater', 'Equal')}[op]
    k = hand_cmp(eng, info)
    if k:
        out = []
        for kk, v, s in eng.call_body(k, [eng.deep(s_, x) for s_, x in ((st, a[0]), (st, a[1]))], st):
            if kk == 'panic': out.append((kk, v, s)); continue
            for vn, s2 in variants(eng, s, v, OPTION):
                if vn == 'None': out.append(('ret', FALSE, s2)); continue
                for on, s3 in variants(eng, s2, fld(v, OPTION, 'Some', 0), ORD): out.append(('ret', B(on in ok), s3))
        return out
    return R(push_leaf(lambda l: B(l[1] in ok), do_cmp(eng, st, info, a)), st)

@reg('std::cmp::Ord::max', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min')
def m_max(eng, fr, st, info, a):
    mx = info['fn'].endswith('max')
    k = hand_cmp(eng, info)
    x, y = eng.deep(st, a[0]), eng.deep(st, a[1])
    if k: 
        out = []
        for kk, v, s in eng.call_body(k, [x, y], st):
            if kk == 'panic': out.append((kk, v, s)); continue
            for vn, s2 in variants(eng, s, v, OPTION):
                if vn == 'None': continue
                for on, s3 in variants(eng, s2, fld(v, OPTION, 'Some', 0), ORD):
                    big, small = (x, y) if on == 'Greater' else (y, x)
                    out.append(('ret', big if mx else small, s3))
        return out
    ty = info['args'][0]
    if x == y: return R(x, st)
    if re.match(r'^&*[ui](8|16|32|64|128|size)$', ty):
        c = le(x, y)
    else:
        t = derived_cmp(eng, x, y, ty.lstrip('&'))
        c = push_leaf(lambda l: B(l[1] != 'Greater'), cmp_(x, y) if t is None else t)
    out = []
    for b, s in split_bool(eng, st, c):
        out.append(('ret', (y if b else x) if mx else (x if b else y), s))
    return out

@reg('std::cmp::Ordering::reverse')
def m_ordrev(eng, fr, st, info, a):
    fl = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
    return [('ret', ('adt', ORD, fl[v], ()), s) for v, s in variants(eng, st, D(eng, st, a[0]), ORD)]

@reg('std::cmp::Ordering::then', 'std::cmp::Ordering::then_with')
def m_then(eng, fr, st, info, a):
    out = []
    for v, s in variants(eng, st, D(eng, st, a[0]), ORD):
        if v != 'Equal': out.append(('ret', ('adt', ORD, v, ()), s))
        elif info['fn'].endswith('with'): out += eng.call_value(fr, s, a[1], [])
        else: out.append(('ret', a[1], s))
    return out

@reg('std::cmp::Ordering::is_eq', 'std::cmp::Ordering::is_ne', 'std::cmp::Ordering::is_lt', 'std::cmp::Ordering::is_gt', 'std::cmp::Ordering::is_le', 'std::cmp::Ordering::is_ge')
def m_ordis(eng, fr, st, info, a):
    ok = {'eq': ('Equal',), 'ne': ('Less', 'Greater'), 'lt': ('Less',), 'gt': ('Greater',), 'le': ('Less', 'Equal'), 'ge': ('Equal', 'Greater')}[info['fn'][-2:]]
    return [('ret', B(v in ok), s) for v, s in variants(eng, st, D(eng, st, a[0]), ORD)]

@reg('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def m_disc(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    ty = info['args'][0].split('<')[0].lstrip('&')
    if ty not in DOMS: return None
    return R(('dval', v, ty), st)

# ------------------------------------------------------------------ derived traits of local types
def derived(eng, st, name, info, args):
    f = info['fn']
    if f == 'std::clone::Clone::clone': return R(eng.deep(st, args[0]), st)
    if f == 'std::cmp::PartialEq::eq': return R(eq(eng.deep(st, args[0]), eng.deep(st, args[1])), st)
    if f == 'std::cmp::PartialEq::ne': return R(bnot(eq(eng.deep(st, args[0]), eng.deep(st, args[1]))), st)
    if f == 'std::cmp::Ord::cmp' or f == 'std::cmp::PartialOrd::partial_cmp':
        x, y = eng.deep(st, args[0]), eng.deep(st, args[1])
        ty = info['args'][0].lstrip('&') if info['args'] else ''
        t = derived_cmp(eng, x, y, ty)
        if t is None: t = cmp_(x, y)
        if f.endswith('partial_cmp'): return split_ret(eng, st, push_leaf(lambda l: some(('adt', ORD, l[1], ())), t))
        return split_ret(eng, st, E.cmp_to_adt(t))
    if f == 'std::fmt::Debug::fmt':
        return fmt_append(eng, st, args[1], ('spread', T.app('debug', eng.deep(st, args[0]))))
    if f == 'std::hash::Hash::hash': return None
    return None

# ------------------------------------------------------------------ Option / Result
def opt_cases(eng, st, v): return variants(eng, st, v, OPTION)

@reg('std::option::Option::unwrap', 'std::option::Option::expect', 'std::option::Option::unwrap_unchecked')
def m_unwrap(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    return [('ret', fld(v, OPTION, 'Some', 0), s) if n == 'Some' else ('panic', 'unwrap', s) for n, s in opt_cases(eng, st, v)]

@reg('std::result::Result::unwrap', 'std::result::Result::expect')
def m_runwrap(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    return [('ret', fld(v, RES, 'Ok', 0), s) if n == 'Ok' else ('panic', 'unwrap', s) for n, s in variants(eng, st, v, RES)]

@reg('std::result::Result::is_ok', 'std::result::Result::is_err')
def m_isok(eng, fr, st, info, a):
    return R(isvar(D(eng, st, a[0]), RES, 'Ok' if info['fn'].endswith('ok') else 'Err'), st)

@reg('std::result::Result::ok', 'std::result::Result::err')
def m_ok(eng, fr, st, info, a):
    v = D(eng, st, a[0]); w = 'Ok' if info['fn'].endswith('ok') else 'Err'
    return [('ret', some(fld(v, RES, w, 0)) if n == w else none(), s) for n, s in variants(eng, st, v, RES)]

@reg('std::result::Result::map_err', 'std::result::Result::map', 'std::result::Result::and_then', 'std::result::Result::unwrap_or', 'std::result::Result::unwrap_or_else', 'std::result::Result::unwrap_or_default')
def m_rmap(eng, fr, st, info, a):
    v = D(eng, st, a[0]); op = info['fn'].split('::')[-1]
    out = []
    for n, s in variants(eng, st, v, RES):
        x = fld(v, RES, n, 0)
        hit = 'Err' if op in ('map_err', 'unwrap_or', 'unwrap_or_else') else 'Ok'
        if n == hit:
            if op == 'unwrap_or': out.append(('ret', a[1], s)); continue
            for k, r, s2 in eng.call_value(fr, s, a[1], [x]):
                if k == 'ret' and op == 'map': r = ('adt', RES, 'Ok', (r,))
                if k == 'ret' and op == 'map_err': r = ('adt', RES, 'Err', (r,))
                out.append((k, r, s2))
        else:
            out.append(('ret', x if op.startswith('unwrap') else v if v[0] == 'adt' else ('adt', RES, n, (x,)), s))
    return out

@reg('std::option::Option::is_some', 'std::option::Option::is_none')
def m_issome(eng, fr, st, info, a):
    return R(isvar(D(eng, st, a[0]), OPTION, 'Some' if info['fn'].endswith('some') else 'None'), st)

@reg('std::option::Option::as_ref', 'std::option::Option::cloned', 'std::option::Option::copied', 'std::option::Option::as_slice')
def m_asref(eng, fr, st, info, a):
    return R(eng.deep(st, a[0]), st)

@reg('std::option::Option::as_mut')
def m_asmut(eng, fr, st, info, a):
    if a[0][0] != 'ref': return None
    v = D(eng, st, a[0])
    return [('ret', some(('ref', a[0][1], a[0][2] + (('f', 0, OPTION, 'Some'),))) if n == 'Some' else none(), s) for n, s in opt_cases(eng, st, v)]

@reg('std::option::Option::take')
def m_take(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    return R(v, mut(eng, st, a[0], none()))

@reg('std::option::Option::insert', 'std::option::Option::replace')
def m_replace(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    return R(v, mut(eng, st, a[0], some(a[1])))

@reg('std::mem::replace', 'std::mem::take')
def m_mreplace(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    if info['fn'].endswith('take'):
        ty = info['args'][0]
        if ty.startswith('std::vec::Vec') or ty.endswith('String'): n = empty('seq')
        elif coll_kind(ty) != 'seq': n = empty(coll_kind(ty))
        elif ty.startswith(OPTION): n = none()
        elif ty == 'bool': n = FALSE
        elif INT.match(ty): n = I(0)
        else: return None
    else: n = a[1]
    return R(v, mut(eng, st, a[0], n))

@reg('std::mem::swap', 'std::ptr::swap')
def m_swap(eng, fr, st, info, a):
    if a[0][0] != 'ref' or a[1][0] != 'ref': return None
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    return R(UNIT, mut(eng, mut(eng, st, a[0], y), a[1], x))

@reg('std::option::Option::map', 'std::option::Option::and_then', 'std::option::Option::unwrap_or', 'std::option::Option::unwrap_or_else', 'std::option::Option::map_or', 'std::option::Option::map_or_else',
     'std::option::Option::or', 'std::option::Option::or_else', 'std::option::Option::filter', 'std::option::Option::ok_or', 'std::option::Option::ok_or_else', 'std::option::Option::unwrap_or_default', 'std::option::Option::is_some_and', 'std::option::Option::and', 'std::option::Option::is_none_or')
def m_omap(eng, fr, st, info, a):
    op = info['fn'].split('::')[-1]
    v = D(eng, st, a[0])
    out = []
    for n, s in opt_cases(eng, st, v):
        x = fld(v, OPTION, 'Some', 0)
        if n == 'Some':
            if op == 'map': out += [(k, some(r) if k == 'ret' else r, s2) for k, r, s2 in eng.call_value(fr, s, a[1], [x])]
            elif op in ('and_then', 'is_some_and', 'is_none_or'): out += eng.call_value(fr, s, a[1], [x])
            elif op in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default'): out.append(('ret', x, s))
            elif op in ('map_or', 'map_or_else'): out += eng.call_value(fr, s, a[2], [x])
            elif op in ('or', 'or_else'): out.append(('ret', some(x), s))
            elif op == 'and': out.append(('ret', a[1], s))
            elif op in ('ok_or', 'ok_or_else'): out.append(('ret', ('adt', RES, 'Ok', (x,)), s))
            elif op == 'filter':
                for k, r, s2 in eng.call_value(fr, s, a[1], [x]):
                    for b, s3 in split_bool(eng, s2, r): out.append(('ret', some(x) if b else none(), s3))
        else:
            if op in ('map', 'and_then', 'filter', 'and'): out.append(('ret', none(), s))
            elif op == 'is_some_and': out.append(('ret', FALSE, s))
            elif op == 'is_none_or': out.append(('ret', TRUE, s))
            elif op in ('unwrap_or', 'or', 'map_or'): out.append(('ret', a[1], s))
            elif op in ('unwrap_or_else', 'or_else', 'map_or_else'): out += eng.call_value(fr, s, a[1], [])
            elif op == 'ok_or': out.append(('ret', ('adt', RES, 'Err', (a[1],)), s))
            elif op == 'ok_or_else': out += [(k, ('adt', RES, 'Err', (r,)) if k == 'ret' else r, s2) for k, r, s2 in eng.call_value(fr, s, a[1], [])]
            else: return None
    return out

CF = 'std::ops::ControlFlow'
@reg('std::ops::Try::branch')
def m_branch(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    ty = info['args'][0]
    T.DOMS.setdefault(CF, ('Continue', 'Break'))
    out = []
    if ty.startswith(RES):
        for n, s in variants(eng, st, v, RES):
            x = fld(v, RES, n, 0)
            out.append(('ret', ('adt', CF, 'Continue', (x,)) if n == 'Ok' else ('adt', CF, 'Break', (('adt', RES, 'Err', (x,)),)), s))
        return out
    if ty.startswith(OPTION):
        for n, s in opt_cases(eng, st, v):
            out.append(('ret', ('adt', CF, 'Continue', (fld(v, OPTION, 'Some', 0),)) if n == 'Some' else ('adt', CF, 'Break', (none(),)), s))
        return out
    return None

@reg('std::ops::FromResidual::from_residual')
def m_resid(eng, fr, st, info, a):
    v = a[0]
    if v[0] == 'adt' and v[1] == RES:
        # error conversion through From is the identity for equal types
        return R(v, st)
    if v[0] == 'adt' and v[1] == OPTION: return R(v, st)
    return None

# ------------------------------------------------------------------ collections
@reg('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::string::String::new', 'std::string::String::with_capacity')
def m_vnew(eng, fr, st, info, a): return R(empty('seq'), st)

@reg('std::collections::HashSet::new', 'std::collections::HashSet::with_capacity', 'std::collections::BTreeSet::new')
def m_snew(eng, fr, st, info, a): return R(empty('set'), st)

@reg('std::collections::HashMap::new', 'std::collections::HashMap::with_capacity', 'std::collections::BTreeMap::new')
def m_mnew(eng, fr, st, info, a): return R(empty('map'), st)

@reg('std::default::Default::default')
def m_default(eng, fr, st, info, a):
    ty = info['args'][0]
    if ty.startswith('std::vec::Vec') or ty.endswith('String'): return R(empty('seq'), st)
    if coll_kind(ty) != 'seq': return R(empty(coll_kind(ty)), st)
    if ty.startswith(OPTION): return R(none(), st)
    if ty == 'bool': return R(FALSE, st)
    if INT.match(ty): return R(I(0), st)
    return None

@reg('std::vec::Vec::push')
def m_push(eng, fr, st, info, a):
    return R(UNIT, mut(eng, st, a[0], push('seq', D(eng, st, a[0]), eng.deep(st, a[1]) if a[1][0] != 'ref' else a[1])))

@reg('std::string::String::push')
def m_spush(eng, fr, st, info, a):
    return R(UNIT, mut(eng, st, a[0], push('seq', D(eng, st, a[0]), a[1])))

@reg('std::string::String::push_str', 'std::ops::AddAssign::add_assign')
def m_push_str(eng, fr, st, info, a):
    if info['fn'].endswith('add_assign'):
        if INT.match(info['args'][0]): return R(UNIT, mut(eng, st, a[0], add(D(eng, st, a[0]), D(eng, st, a[1]))))
        if not info['args'][0].endswith('String'): return None
    return R(UNIT, mut(eng, st, a[0], concat('seq', strz(D(eng, st, a[0])), strz(D(eng, st, a[1])))))

def strz(t): return t

@reg('std::ops::Add::add')
def m_add(eng, fr, st, info, a):
    if info['args'][0].endswith('String'): return R(concat('seq', D(eng, st, a[0]), D(eng, st, a[1])), st)
    if INT.match(info['args'][0]): return R(add(D(eng, st, a[0]), D(eng, st, a[1])), st)
    return None

@reg('std::vec::Vec::pop')
def m_pop(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    if v[0] == 'coll' and v[2] and v[2][-1][0] == 'one':
        return R(some(v[2][-1][1]), mut(eng, st, a[0], coll('seq', v[2][:-1])))
    if v[0] == 'coll' and not v[2]: return R(none(), st)
    out = []
    for b, s in split_bool(eng, st, nonempty(v)):
        if b: out.append(('ret', some(last(v)), mut(eng, s, a[0], T.app('init', v))))
        else: out.append(('ret', none(), mut(eng, s, a[0], v)))
    return out

def last(v):
    if v[0] == 'coll' and v[1] == 'seq' and v[2] and v[2][-1][0] == 'one': return v[2][-1][1]
    return T.app('last', v)

@reg('std::vec::Vec::remove')
def m_vremove(eng, fr, st, info, a):
    v, i = D(eng, st, a[0]), a[1]
    if v[0] == 'coll' and i[0] == 'int' and all(g[0] == 'one' for g in v[2][:i[1] + 1]) and i[1] < len(v[2]):
        return R(v[2][i[1]][1], mut(eng, st, a[0], coll('seq', v[2][:i[1]] + v[2][i[1] + 1:])))
    return R(eng.index(v, i), mut(eng, st, a[0], T.removeat(v, i)))

@reg('std::vec::Vec::swap_remove')
def m_swremove(eng, fr, st, info, a):
    v, i = D(eng, st, a[0]), a[1]
    return R(eng.index(v, i), mut(eng, st, a[0], T.app('swapremoveat', v, i)))

@reg('std::vec::Vec::insert')
def m_vinsert(eng, fr, st, info, a):
    v, i, x = D(eng, st, a[0]), a[1], a[2]
    if i == I(0): n = coll('seq', (('one', x),) + gens_of(v, 'seq'))
    elif i == length(v): n = push('seq', v, x)
    else: n = T.app('insertat', v, i, x)
    return R(UNIT, mut(eng, st, a[0], n))

@reg('std::vec::Vec::clear', 'std::collections::HashSet::clear', 'std::collections::BTreeSet::clear', 'std::collections::HashMap::clear', 'std::string::String::clear')
def m_clear(eng, fr, st, info, a):
    k = 'seq' if 'Vec' in info['fn'] or 'String' in info['fn'] else 'set' if 'Set' in info['fn'] else 'map'
    return R(UNIT, mut(eng, st, a[0], empty(k)))

@reg('std::vec::Vec::append')
def m_append(eng, fr, st, info, a):
    s = mut(eng, st, a[0], concat('seq', D(eng, st, a[0]), D(eng, st, a[1])))
    return R(UNIT, mut(eng, s, a[1], empty('seq')))

@reg('std::collections::BTreeSet::append')
def m_sappend(eng, fr, st, info, a):
    s = mut(eng, st, a[0], setcat(D(eng, st, a[0]), D(eng, st, a[1])))
    return R(UNIT, mut(eng, s, a[1], empty('set')))

@reg('std::vec::Vec::drain', 'std::collections::HashSet::drain')
def m_drain(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    if len(a) == 1 or (a[1][0] in ('adt', 'tup') and not a[1][-1]):
        return R(v, mut(eng, st, a[0], empty('set' if 'Set' in info['fn'] else 'seq')))
    return None

@reg('std::vec::Vec::extend_from_slice')
def m_efs(eng, fr, st, info, a):
    return R(UNIT, mut(eng, st, a[0], concat('seq', D(eng, st, a[0]), D(eng, st, a[1]))))

def setcat(a, b): return set_norm(coll('set', gens_of(a, 'set') + gens_of(b, 'set')))

@reg('std::iter::Extend::extend')
def m_extend(eng, fr, st, info, a):
    k = coll_kind(info['args'][0])
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    if k == 'set': n = setcat(x, y)
    elif k == 'map': n = coll('map', gens_of(x, 'map') + gens_of(y, 'map'))
    else: n = concat('seq', x, y)
    return R(UNIT, mut(eng, st, a[0], n))

@reg('std::collections::HashSet::insert', 'std::collections::BTreeSet::insert')
def m_sinsert(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = eng.deep(st, a[1])
    return R(bnot(contains(v, x)), mut(eng, st, a[0], setcat(v, single('set', x))))

@reg('std::collections::HashSet::remove', 'std::collections::BTreeSet::remove', 'std::collections::HashSet::take')
def m_sremove(eng, fr, st, info, a):
    v, x = D(eng, st, a[0]), eng.deep(st, a[1])
    return R(contains(v, x), mut(eng, st, a[0], filter_('set', v, lambda y: bnot(eq(y, x)))))

@reg('std::collections::HashSet::contains', 'std::collections::BTreeSet::contains', 'std::slice::[T]::contains')
def m_contains(eng, fr, st, info, a):
    return R(contains(D(eng, st, a[0]), eng.deep(st, a[1])), st)

@reg('std::collections::HashSet::get', 'std::collections::BTreeSet::get')
def m_sget(eng, fr, st, info, a):
    x = eng.deep(st, a[1])
    return R(ite(contains(D(eng, st, a[0]), x), some(x), none()), st)

@reg('std::collections::HashSet::len', 'std::collections::BTreeSet::len', 'std::vec::Vec::len', 'std::slice::[T]::len', 'std::string::String::len', 'std::str::len',
     'std::collections::HashMap::len', 'std::iter::Iterator::count', 'std::iter::ExactSizeIterator::len')
def m_len(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    if v[0] == 'lvit': raise E.GiveUp('iterator')
    return R(length(v), st)

@reg('std::collections::HashSet::is_empty', 'std::collections::BTreeSet::is_empty', 'std::vec::Vec::is_empty', 'std::slice::[T]::is_empty', 'std::string::String::is_empty', 'std::str::is_empty', 'std::collections::HashMap::is_empty', 'std::iter::ExactSizeIterator::is_empty')
def m_isempty(eng, fr, st, info, a):
    return R(bnot(nonempty(D(eng, st, a[0]))), st)

@reg('std::collections::HashSet::is_disjoint', 'std::collections::BTreeSet::is_disjoint')
def m_disjoint(eng, fr, st, info, a):
    return R(disjoint(D(eng, st, a[0]), D(eng, st, a[1])), st)

def subset(x, y):
    b = fresh()
    return bnot(mk_exists(b, x, bnot(contains(y, b))))

@reg('std::collections::HashSet::is_subset', 'std::collections::BTreeSet::is_subset')
def m_subset(eng, fr, st, info, a): return R(subset(D(eng, st, a[0]), D(eng, st, a[1])), st)

@reg('std::collections::HashSet::is_superset', 'std::collections::BTreeSet::is_superset')
def m_superset(eng, fr, st, info, a): return R(subset(D(eng, st, a[1]), D(eng, st, a[0])), st)

@reg('std::collections::HashSet::intersection', 'std::collections::BTreeSet::intersection', 'std::ops::BitAnd::bitand')
def m_inter(eng, fr, st, info, a):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    if info['fn'].endswith('bitand'):
        if 'Set' not in info['args'][0]: return None
    return R(filter_('set', x, lambda e: contains(y, e)), st)

@reg('std::collections::HashSet::difference', 'std::collections::BTreeSet::difference', 'std::ops::Sub::sub')
def m_diff(eng, fr, st, info, a):
    if info['fn'].endswith('::sub'):
        if INT.match(info['args'][0]): return R(sub(D(eng, st, a[0]), D(eng, st, a[1])), st)
        if 'Set' not in info['args'][0]: return None
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    return R(filter_('set', x, lambda e: bnot(contains(y, e))), st)

@reg('std::collections::HashSet::union', 'std::collections::BTreeSet::union', 'std::ops::BitOr::bitor')
def m_union(eng, fr, st, info, a):
    if info['fn'].endswith('bitor') and 'Set' not in info['args'][0]: return None
    return R(setcat(D(eng, st, a[0]), D(eng, st, a[1])), st)

@reg('std::collections::HashSet::retain', 'std::collections::BTreeSet::retain', 'std::vec::Vec::retain')
def m_retain(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    t = pure(eng, st, a[1], [x])
    k = 'set' if 'Set' in info['fn'] else 'seq'
    return R(UNIT, mut(eng, st, a[0], filt(k, v, x, t)))

def filt(k, v, x, t):
    body = push_leaf(lambda l: ('gens', (('one', x),)) if l[1] else ('gens', ()), E.bool_tree(t) if t[0] == 'ite' else as_dt(t))
    return set_norm(coll(k, mk_for_over(x, v, k, body))) if k == 'set' else coll(k, mk_for_over(x, v, k, body))

@reg('std::slice::[T]::iter', 'std::iter::IntoIterator::into_iter', 'std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::by_ref',
     'std::collections::HashSet::iter', 'std::collections::BTreeSet::iter', 'std::vec::Vec::iter', 'std::collections::HashMap::iter', 'std::collections::HashMap::drain',
     'std::iter::Iterator::peekable', 'std::collections::BTreeMap::iter', 'std::iter::Iterator::fuse', 'std::option::Option::iter', 'std::option::Option::into_iter')
def m_iter(eng, fr, st, info, a):
    if a[0][0] == 'lazymap' and info['fn'].endswith('into_iter'): return R(a[0], st)
    if info['fn'].endswith('by_ref'): return R(a[0], st)
    v = a[0]
    if v[0] == 'ref':
        # iterating over &mut collection hands out places: only values are supported
        ty = info['args'][0] if info['args'] else ''
        w = D(eng, st, v)
        if info['fn'].endswith('into_iter') and ty.startswith('&mut') and 'Iter' not in ty: raise E.GiveUp('iter_mut')
        v = w
    ty = info['args'][0] if info['args'] else ''
    if OPTION in ty.split('<')[0] and info['fn'].endswith('iter') and 'IntoIter' not in ty and ty.startswith(OPTION):
        return split_ret(eng, st, push_leaf(lambda l: single('seq', fld(v, OPTION, 'Some', 0)) if l[1] == 'Some' else empty('seq'), disc_atom(v, OPTION)))
    return R(v, st)

@reg('std::slice::[T]::iter_mut')
def m_itermut(eng, fr, st, info, a): raise E.GiveUp('iter_mut')

@reg('std::collections::HashMap::keys', 'std::collections::HashMap::into_keys', 'std::collections::BTreeMap::keys')
def m_keys(eng, fr, st, info, a): return R(map_('seq', D(eng, st, a[0]), lambda x: tfld(x, 0)), st)

@reg('std::collections::HashMap::values', 'std::collections::HashMap::into_values', 'std::collections::BTreeMap::values')
def m_values(eng, fr, st, info, a): return R(map_('seq', D(eng, st, a[0]), lambda x: tfld(x, 1)), st)

def haskey(m, k):
    if m[0] == 'coll':
        r = FALSE
        for g in m[2]:
            if g[0] == 'one': r = bor(r, eq(tfld(g[1], 0), k))
            elif g[0] == 'spread': r = bor(r, haskey(g[1], k))
            else:
                x = fresh()
                inner = open_(g[1], g[3], x)
                r = bor(r, mk_exists(x, g[2], E.bool_tree(push1(lambda l: UNDEF if l == UNDEF else haskey(('coll', 'map', l[1]), k), inner))))
        return r
    if m[0] == 'app' and m[1] == 'mapset': return bor(eq(m[2][1], k), haskey(m[2][0], k))
    if m[0] == 'app' and m[1] == 'mapdel': return band(bnot(eq(m[2][1], k)), haskey(m[2][0], k))
    if m[0] == 'app' and m[1] in ('groupby', 'groupset'):
        x = fresh()
        return mk_exists(x, m[2][0], eq(tfld(x, 0), k))
    return T.app('haskey', m, k)

def mapval(m, k):
    if m[0] == 'coll':
        gens = m[2]
        if gens and gens[-1][0] == 'one':
            g = gens[-1][1]
            rest = coll('map', gens[:-1])
            if not gens[:-1]: return tfld(g, 1)
            return ite(eq(tfld(g, 0), k), tfld(g, 1), mapval(rest, k))
    if m[0] == 'app' and m[1] == 'mapset':
        return ite(eq(m[2][1], k), m[2][2], mapval(m[2][0], k))
    if m[0] == 'app' and m[1] == 'mapdel': return mapval(m[2][0], k)
    if m[0] == 'app' and m[1] in ('groupby', 'groupset'):
        x = fresh()
        kd = 'seq' if m[1] == 'groupby' else 'set'
        b = push1(lambda l: UNDEF if l == UNDEF else (('gens', (('one', tfld(x, 1)),)) if l[1] else ('gens', ())), as_dt(eq(tfld(x, 0), k)))
        r = coll(kd, mk_for_over(x, m[2][0], kd, b))
        return T.set_norm(r) if kd == 'set' else r
    return T.app('mapval', m, k)
T.REAPP['haskey'] = haskey
T.REAPP['mapval'] = mapval

@reg('std::collections::HashMap::contains_key', 'std::collections::BTreeMap::contains_key')
def m_haskey(eng, fr, st, info, a): return R(haskey(D(eng, st, a[0]), eng.deep(st, a[1])), st)

@reg('std::collections::HashMap::get', 'std::collections::BTreeMap::get')
def m_mget(eng, fr, st, info, a):
    m, k = D(eng, st, a[0]), eng.deep(st, a[1])
    out = []
    for b, s in split_bool(eng, st, haskey(m, k)):
        out.append(('ret', some(mapval(m, k)) if b else none(), s))
    return out

@reg('std::collections::HashMap::get_mut', 'std::collections::BTreeMap::get_mut')
def m_mgetmut(eng, fr, st, info, a):
    if a[0][0] != 'ref': return None
    m, k = D(eng, st, a[0]), eng.deep(st, a[1])
    out = []
    for b, s in split_bool(eng, st, haskey(m, k)):
        out.append(('ret', some(('ref', a[0][1], a[0][2] + (('key', k),))) if b else none(), s))
    return out

@reg('std::collections::HashMap::insert', 'std::collections::BTreeMap::insert')
def m_minsert(eng, fr, st, info, a):
    m, k, v = D(eng, st, a[0]), eng.deep(st, a[1]), a[2]
    old = T.app('?mapold', m, k)
    return R(old, mut(eng, st, a[0], coll('map', gens_of(m, 'map') + (('one', tup(k, v)),))))

@reg('std::collections::HashMap::remove', 'std::collections::BTreeMap::remove')
def m_mremove(eng, fr, st, info, a):
    m, k = D(eng, st, a[0]), eng.deep(st, a[1])
    out = []
    for b, s in split_bool(eng, st, haskey(m, k)):
        out.append(('ret', some(mapval(m, k)) if b else none(), mut(eng, s, a[0], T.app('mapdel', m, k)) if b else s))
    return out

@reg('std::collections::HashMap::entry')
def m_entry(eng, fr, st, info, a):
    return R(('tup', (a[0], eng.deep(st, a[1]))), st)

@reg('std::collections::hash_map::Entry::or_insert_with', 'std::collections::hash_map::Entry::or_insert', 'std::collections::hash_map::Entry::or_default')
def m_orinsert(eng, fr, st, info, a):
    e = D(eng, st, a[0])
    r, k = e[1]
    if r[0] != 'ref': return None
    m = D(eng, st, r)
    out = []
    ref = ('ref', r[1], r[2] + (('key', k),))
    for b, s in split_bool(eng, st, haskey(m, k)):
        if b: out.append(('ret', ref, s)); continue
        if info['fn'].endswith('or_insert_with'):
            for kk, v, s2 in eng.call_value(fr, s, a[1], []):
                if kk == 'ret': out.append(('ret', ref, mut(eng, s2, r, coll('map', gens_of(m, 'map') + (('one', tup(k, v)),)))))
                else: out.append((kk, v, s2))
        elif info['fn'].endswith('or_insert'):
            out.append(('ret', ref, mut(eng, s, r, coll('map', gens_of(m, 'map') + (('one', tup(k, a[1])),)))))
        else: return None
    return out

@reg('std::slice::[T]::get', 'std::vec::Vec::get')
def m_get(eng, fr, st, info, a):
    v, i = D(eng, st, a[0]), a[1]
    if i[0] == 'adt' or (i[0] == 'app' and i[1] == 'range'): return None
    out = []
    for b, s in split_bool(eng, st, lt(i, length(v))):
        out.append(('ret', some(eng.index(v, i)) if b else none(), s))
    return out

@reg('std::slice::[T]::get_mut')
def m_getmut(eng, fr, st, info, a):
    if a[0][0] != 'ref': return None
    v, i = D(eng, st, a[0]), a[1]
    out = []
    for b, s in split_bool(eng, st, lt(i, length(v))):
        out.append(('ret', some(('ref', a[0][1], a[0][2] + (('i', i),))) if b else none(), s))
    return out

@reg('std::slice::[T]::last', 'std::slice::[T]::first', 'std::iter::Iterator::last', 'std::collections::BTreeSet::first', 'std::collections::BTreeSet::last')
def m_last(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    w = info['fn'].endswith('last')
    out = []
    for b, s in split_bool(eng, st, nonempty(v)):
        out.append(('ret', some(last(v) if w else eng.index(v, I(0))) if b else none(), s))
    return out

@reg('std::iter::DoubleEndedIterator::next_back')
def m_next_back(eng, fr, st, info, a):
    if a[0][0] != 'ref': return None
    v = D(eng, st, a[0])
    if v[0] in ('lvit', 'lvnext'): return None
    out = []
    for b, s in split_bool(eng, st, nonempty(v)):
        if not b: out.append(('ret', none(), s)); continue
        rest = ('coll', v[1], v[2][:-1]) if v[0] == 'coll' and v[1] == 'seq' and v[2] and v[2][-1][0] == 'one' else T.app('init', v)
        out.append(('ret', some(last(v)), mut(eng, s, a[0], rest)))
    return out

@reg('std::slice::[T]::last_mut')
def m_lastmut(eng, fr, st, info, a):
    if a[0][0] != 'ref': return None
    v = D(eng, st, a[0])
    out = []
    for b, s in split_bool(eng, st, nonempty(v)):
        out.append(('ret', some(('ref', a[0][1], a[0][2] + (('last',),))) if b else none(), s))
    return out

RNG = {'std::ops::Range', 'std::ops::RangeFrom', 'std::ops::RangeTo', 'std::ops::RangeInclusive', 'std::ops::RangeFull', 'std::ops::RangeToInclusive'}
def slice_(v, i):
    if i[0] == 'app' and i[1] == 'range': lo, hi = i[2]
    elif i[0] == 'adt' and i[1].endswith('RangeFrom'): lo, hi = i[3][0], length(v)
    elif i[0] == 'adt' and i[1].endswith('RangeTo'): lo, hi = I(0), i[3][0]
    elif i[0] == 'adt' and i[1].endswith('RangeToInclusive'): lo, hi = I(0), add(i[3][0], I(1))
    elif i[0] == 'app' and i[1] == 'rangeincl': lo, hi = i[2][0], add(i[2][1], I(1))
    elif i[0] in ('adt', 'tup') and not i[-1]: return v
    else: return None
    return T.slice_(v, lo, hi)

@reg('std::ops::Index::index')
def m_index(eng, fr, st, info, a):
    v, i = D(eng, st, a[0]), eng.deep(st, a[1])
    if coll_kind(info['args'][0]) == 'map': return R(mapval(v, i), st)
    if i[0] == 'adt' or (i[0] == 'app' and i[1] in ('range', 'rangeincl')) or i == UNIT:
        r = slice_(v, i)
        return R(r, st) if r is not None else None
    return R(eng.index(v, i), st)

@reg('std::ops::IndexMut::index_mut')
def m_indexmut(eng, fr, st, info, a):
    if a[0][0] != 'ref': return None
    return R(('ref', a[0][1], a[0][2] + (('i', a[1]),)), st)

@reg('std::slice::[T]::reverse')
def m_reverse(eng, fr, st, info, a):
    return R(UNIT, mut(eng, st, a[0], rev(D(eng, st, a[0]))))

@reg('std::iter::Iterator::rev')
def m_rev(eng, fr, st, info, a): return R(rev(D(eng, st, a[0])), st)

def rev(v):
    if v[0] == 'coll' and v[1] == 'seq' and all(g[0] == 'one' for g in v[2]): return ('coll', 'seq', v[2][::-1])
    if v[0] == 'app' and v[1] == 'rev': return v[2][0]
    return T.app('rev', v)
T.REAPP['rev'] = rev

@reg('std::slice::[T]::sort', 'std::slice::[T]::sort_unstable')
def m_sort(eng, fr, st, info, a): return R(UNIT, mut(eng, st, a[0], sorted_(D(eng, st, a[0]))))

@reg('itertools::Itertools::sorted')
def m_sorted(eng, fr, st, info, a): return R(sorted_(D(eng, st, a[0])), st)

def sorted_(v):
    if v[0] == 'coll' and (len(v[2]) == 0 or len(v[2]) == 1 and v[2][0][0] == 'one'): return v if v[1] == 'seq' else ('coll', 'seq', v[2])
    if v[0] == 'app' and v[1] == 'sorted': return v
    return T.app('sorted', v)

ORDER = {'Less': -1, 'Equal': 0, 'Greater': 1}

@reg('std::slice::[T]::sort_by', 'itertools::Itertools::sorted_by', 'std::slice::[T]::sort_by_key', 'itertools::Itertools::sorted_by_key')
def m_sortby(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x, y = T.sym('$cmpa'), T.sym('$cmpb')
    if info['fn'].endswith('key'): t = pure(eng, st, a[1], [x])
    else: t = pure(eng, st, a[1], [x, y])
    r = T.app('sortedby', v, t)
    if info['fn'].endswith('key') and v[0] == 'coll' and all(g[0] == 'one' for g in v[2]):
        # constants of an enumeration are in the order in which they are declared
        ks = [T.subst(t, {x: g[1]}) for g in v[2]]
        if all(k[0] == 'adt' and not k[3] and k[1] == ks[0][1] for k in ks) and ks:
            order = [d['name'] for d in eng.P.adts[ks[0][1]]['variants']] if ks[0][1] in eng.P.adts else []
            if all(k[2] in order for k in ks): r = ('coll', 'seq', tuple(g for _, g in sorted(zip(ks, v[2]), key=lambda q: order.index(q[0][2]))))
    if not info['fn'].endswith('key') and v[0] == 'coll' and all(g[0] == 'one' for g in v[2]):
        def cmp(g, h):
            o = T.subst(t, {x: g[1], y: h[1]})
            if o[0] != 'adt' or o[2] not in ORDER: raise ValueError
            return ORDER[o[2]]
        try: r = ('coll', 'seq', tuple(sorted(v[2], key=functools.cmp_to_key(cmp))))
        except ValueError: pass
    if 'sort_by' in info['fn'].split('::')[-1]: return R(UNIT, mut(eng, st, a[0], r))
    return R(r, st)

@reg('std::vec::Vec::dedup')
def m_dedup(eng, fr, st, info, a): return R(UNIT, mut(eng, st, a[0], T.app('dedup', D(eng, st, a[0]))))

@reg('std::slice::[T]::concat', 'itertools::Itertools::concat')
def m_concat(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    return R(merge_str(coll('seq', mk_for_over(x, v, 'seq', ('gens', (('spread', x),))))), st)

@reg('std::slice::[T]::join')
def m_join(eng, fr, st, info, a): return R(T.app('join', D(eng, st, a[0]), D(eng, st, a[1])), st)

@reg('std::slice::[T]::swap')
def m_sswap(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    i, j = sorted((a[1], a[2]), key=rk)
    return R(UNIT, mut(eng, st, a[0], T.app('swapped', v, i, j)))

# ------------------------------------------------------------------ iterators
@reg('std::iter::Iterator::next')
def m_next(eng, fr, st, info, a):
    if a[0][0] != 'ref': return None
    v = D(eng, st, a[0])
    if v[0] == 'lvit':
        at = ('b', ('hasnext', v[1], v[2]))
        out = []
        p = st.pc.assume(at, (False,))
        if p is not None: out.append(('ret', none(), st.with_pc(p)))
        p = st.pc.assume(at, (True,))
        if p is not None:
            s = st.with_pc(p)
            eng.write(s, a[0][1], a[0][2], ('lvnext', v[1], v[2]))
            out.append(('ret', some(('sym', 'it%d' % v[1], elem_ty(info))), s))
        return out
    if v[0] == 'lvnext': raise E.GiveUp('iterator advanced twice per iteration')
    if v[0] == 'coll':
        if not v[2]: return R(none(), st)
        if v[2][0][0] == 'one': return R(some(v[2][0][1]), mut(eng, st, a[0], ('coll', v[1], v[2][1:])))
    if v[0] == 'app' and v[1] == 'range':
        lo, hi = v[2]
        out = []
        for b, s in split_bool(eng, st, lt(lo, hi)):
            if b: out.append(('ret', some(lo), mut(eng, s, a[0], T.app('range', add(lo, I(1)), hi))))
            else: out.append(('ret', none(), s))
        return out
    out = []
    for b, s in split_bool(eng, st, nonempty(v)):
        if b: out.append(('ret', some(eng.index(v, I(0))), mut(eng, s, a[0], T.app('rest', v))))
        else: out.append(('ret', none(), mut(eng, s, a[0], empty('seq'))))
    return out

def elem_ty(info): return ''

@reg('std::iter::Iterator::map')
def m_map(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    if v[0] == 'coll' and v[1] != 'set' and all(g[0] == 'one' for g in v[2]):
        r = concrete_map(eng, fr, st, v, a[1])
        if r is not None: return r
    x = fresh()
    try: t = pure(eng, st, a[1], [x])
    except E.GiveUp as e:
        if str(e) != 'closure with effects' or a[1][0] != 'clo': raise
        return R(('lazymap', v, a[1]), st)
    body = leafmap(lambda l: ('gens', (('one', l),)), t)
    return R(coll('seq', mk_for_over(x, v, 'seq', body)), st)

def concrete_map(eng, fr, st, v, f):
    acc = [((), st)]
    for g in v[2]:
        nxt = []
        for vals, s in acc:
            for k, r, s2 in eng.call_value(fr, s, f, [g[1]]):
                if k != 'ret': continue
                nxt.append((vals + (('one', r),), s2))
        acc = nxt
        if len(acc) > 64: return None
    return [('ret', ('coll', 'seq', vals), s) for vals, s in acc]

def leafmap(f, t):
    if t[0] == 'ite': return mk_ite(t[1], {v: leafmap(f, c) for v, c in t[2]})
    if t == UNDEF: return t
    return f(t)

@reg('std::iter::Iterator::filter')
def m_filter(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    t = pure(eng, st, a[1], [x])
    k = v[1] if v[0] == 'coll' else 'seq'
    return R(filt(k, v, x, t), st)

@reg('std::iter::Iterator::filter_map')
def m_filtermap(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    t = pure(eng, st, a[1], [x])
    def leaf(l):
        return push_leaf(lambda n: ('gens', (('one', fld(l, OPTION, 'Some', 0)),)) if n[1] == 'Some' else ('gens', ()), disc_atom(l, OPTION))
    body = dt_bind(lambda l: UNDEF if l == UNDEF else leaf(l), t)
    return R(coll('seq', mk_for_over(x, v, 'seq', body)), st)

@reg('std::iter::Iterator::flat_map')
def m_flatmap(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    t = pure(eng, st, a[1], [x])
    body = leafmap(lambda l: ('gens', gens_of(l, 'seq')), t)
    return R(coll('seq', mk_for_over(x, v, 'seq', body)), st)

@reg('std::iter::Iterator::flatten')
def m_flatten(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    if OPTION in info['args'][0]:
        body = push_leaf(lambda n: ('gens', (('one', fld(x, OPTION, 'Some', 0)),)) if n[1] == 'Some' else ('gens', ()), disc_atom(x, OPTION))
    else: body = ('gens', (('spread', x),))
    return R(coll('seq', mk_for_over(x, v, 'seq', body)), st)

@reg('std::iter::Iterator::enumerate')
def m_enum(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    if v[0] == 'coll' and v[1] == 'seq' and all(g[0] == 'one' for g in v[2]):
        return R(('coll', 'seq', tuple(('one', tup(I(i), g[1])) for i, g in enumerate(v[2]))), st)
    x = fresh()
    body = ('gens', (('one', tup(('idx', x), x)),))
    if v[0] == 'coll':
        h, (b2,) = close(x, body)
        return R(('coll', 'seq', (('for', h, v, b2),)), st)
    return R(coll('seq', mk_for_over(x, v, 'seq', body)), st)

@reg('std::iter::Iterator::chain')
def m_chain(eng, fr, st, info, a): return R(concat('seq', D(eng, st, a[0]), D(eng, st, a[1])), st)

@reg('std::iter::Iterator::zip')
def m_zip(eng, fr, st, info, a):
    v, w = D(eng, st, a[0]), D(eng, st, a[1])
    if concrete(v) and concrete(w): return R(coll('seq', [('one', tup(p[1], q[1])) for p, q in zip(v[2], w[2])]), st)
    return R(T.app('zip', v, w), st)

@reg('std::iter::Iterator::cmp', 'std::iter::Iterator::partial_cmp')
def m_itcmp(eng, fr, st, info, a):
    t = cmp_t(D(eng, st, a[0]), D(eng, st, a[1]))
    if info['fn'].endswith('partial_cmp'): return split_ret(eng, st, push_leaf(lambda l: some(('adt', ORD, l[1], ())), t))
    return split_ret(eng, st, E.cmp_to_adt(t))

@reg('std::iter::Iterator::take', 'std::iter::Iterator::skip')
def m_takeskip(eng, fr, st, info, a):
    v, n = D(eng, st, a[0]), a[1]
    if info['fn'].endswith('skip'): 
        return R(T.slice_(v, n, length(v)), st)
    return R(T.app('take', v, n), st)

@reg('std::iter::Iterator::any', 'std::iter::Iterator::all')
def m_any(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    if v[0] in ('lvit', 'lvnext'): raise E.GiveUp('iterator')
    x = fresh()
    t = E.bool_tree(pure(eng, st, a[1], [x]))
    if info['fn'].endswith('any'): r = mk_exists(x, v, t)
    else: r = bnot(mk_exists(x, v, bnot(t)))
    return R(r, st)

@reg('std::iter::Iterator::find')
def m_find(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    t = E.bool_tree(pure(eng, st, a[1], [x]))
    out = []
    for b, s in split_bool(eng, st, mk_exists(x, v, t)):
        out.append(('ret', some(mk_first(x, v, t)) if b else none(), s))
    return out

@reg('std::iter::Iterator::position')
def m_position(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    t = E.bool_tree(pure(eng, st, a[1], [x]))
    out = []
    for b, s in split_bool(eng, st, mk_exists(x, v, t)):
        out.append(('ret', some(('idx', mk_first(x, v, t))) if b else none(), s))
    return out

@reg('std::iter::Iterator::fold')
def m_fold(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    acc = fresh('acc')
    t = pure(eng, st, a[2], [acc, x])
    parts = E.split_tree(t)
    final = eng.final_value(acc, ('h', -1), a[1], x, v, {acc: ('h', -1)}, [(E.State({('h', -1): l}, None), d) for l, d in parts], -1)
    return R(final, st)

@reg('std::iter::Iterator::sum')
def m_sum(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    x = fresh()
    return R(mk_sum(x, v, x), st)

@reg('std::iter::Iterator::max', 'std::iter::Iterator::min')
def m_itmax(eng, fr, st, info, a): return R(T.app('it' + info['fn'].split('::')[-1], D(eng, st, a[0])), st)

@reg('std::iter::Iterator::for_each')
def m_foreach(eng, fr, st, info, a):
    if a[1][0] != 'clo': raise E.GiveUp('for_each')
    return eng.call_body('for_each', [D(eng, st, a[0]), a[1], UNIT], st)

@reg('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(eng, fr, st, info, a):
    ty = info['args'][1] if info['fn'].endswith('collect') else info['args'][0]
    head = ty.split('<')[0]
    v = eng.deref(st, a[0])
    if v[0] == 'lazymap':
        if head in (RES, OPTION) and ty[len(head):].startswith('<std::vec::Vec<'): return eng.call_body('collect ' + head, [v[1], v[2], empty('seq')], st)
        if coll_kind(ty) == 'seq' and head == 'std::vec::Vec': return eng.call_body('collect', [v[1], v[2], empty('seq')], st)
        raise E.GiveUp('closure with effects')
    if head in (RES, OPTION):
        if v[0] == 'coll' and all(g[0] == 'one' for g in v[2]) and len(v[2]) <= 12:
            # the first failure, or all the values
            ok = 'Ok' if head == RES else 'Some'
            acc, out = [((), st)], []
            for g in v[2]:
                nxt = []
                for xs, s0 in acc:
                    for n, s1 in variants(eng, s0, g[1], head):
                        if n == ok: nxt.append((xs + (('one', fld(g[1], head, ok, 0)),), s1))
                        else: out.append(('ret', E.mk_adt(RES, 'Err', [fld(g[1], RES, 'Err', 0)]) if head == RES else none(), s1))
                acc = nxt
            inner = ty[len(head) + 1:]
            k = coll_kind(inner)
            for xs, s1 in acc:
                c = set_norm(coll('set', list(xs))) if k == 'set' else coll(k, list(xs))
                out.append(('ret', E.mk_adt(head, ok, [c]), s1))
            return out
        return R(T.app('?collect', v), st)
    k = coll_kind(ty)
    if k == 'set': return R(set_norm(coll('set', gens_of(v, 'set'))), st)
    if k == 'map': return R(coll('map', gens_of(v, 'map')), st)
    return R(merge_str(coll('seq', gens_of(v, 'seq'))), st)

@reg('std::ops::RangeInclusive::new')
def m_rincl(eng, fr, st, info, a): return R(T.app('range', a[0], add(a[1], I(1))), st)

@reg('std::bool::bool::then', 'std::bool::then', 'bool::then')
def m_then(eng, fr, st, info, a):
    out = []
    for b, s in split_bool(eng, st, T.unb(D(eng, st, a[0]))):
        if not b: out.append(('ret', none(), s)); continue
        for k, v, s2 in eng.call_value(fr, s, a[1], []): out.append((k, some(v) if k == 'ret' else v, s2))
    return out

@reg('std::bool::bool::then_some', 'std::bool::then_some', 'bool::then_some')
def m_thensome(eng, fr, st, info, a):
    return [('ret', some(a[1]) if b else none(), s) for b, s in split_bool(eng, st, T.unb(D(eng, st, a[0])))]

# ------------------------------------------------------------------ closures
@reg('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def m_callfn(eng, fr, st, info, a):
    f = D(eng, st, a[0])
    args = list(a[1][1]) if a[1][0] == 'tup' else None
    if args is None: return None
    return eng.call_value(fr, st, f, args)

# ------------------------------------------------------------------ numbers
@reg('std::num::usize::pow', 'std::num::u32::pow')
def m_pow(eng, fr, st, info, a): return R(T.app('pow', a[0], a[1]), st)

@reg('std::num::usize::saturating_sub', 'std::num::u32::saturating_sub')
def m_satsub(eng, fr, st, info, a):
    return split_ret(eng, st, ite(lt(a[0], a[1]), I(0), sub(a[0], a[1])))

# ------------------------------------------------------------------ formatting
@reg('std::fmt::rt::Argument::new_display', 'std::fmt::rt::Argument::new_debug')
def m_arg(eng, fr, st, info, a):
    dbg = 'debug' in info['fn']
    x = eng.deep(st, a[0])
    ty = info['args'][-1] if info['args'] else ''
    ty = ty.lstrip('&')
    if dbg and not INT.match(ty): return R(T.app('debug', x), st)
    return show(eng, fr, st, x, ty)

def show(eng, fr, st, x, ty):
    if ty in ('str', 'std::string::String', 'std::boxed::Box<str>') or re.match(r"std::borrow::Cow<('\w+, )?str>$", ty): return R(x, st)
    if x[0] == 'str': return R(x, st)
    if x[0] == 'int': return R(('str', str(x[1])), st)
    if x[0] == 'char': return R(('str', x[1]), st)
    if ty == 'char': return R(('coll', 'seq', (('one', x),)), st)
    k = '<%s as std::fmt::Display>::fmt' % ty
    if k in eng.P.bodies and k not in eng.opaque and all(k != q for q, _ in eng.stack):
        s = st.copy()
        c = eng.new_cell(s, empty('seq'))
        out = []
        for kk, v, s2 in eng.call_body(k, [x, ('ref', c, ())], s):
            if kk == 'panic': out.append((kk, v, s2)); continue
            r = s2.mem[c]
            s2 = s2.copy(); del s2.mem[c]
            out.append(('ret', r, s2))
        return out
    return R(T.app('show', x), st)

@reg('std::string::ToString::to_string')
def m_tostring(eng, fr, st, info, a):
    return show(eng, fr, st, eng.deep(st, a[0]), info['args'][0].lstrip('&'))

@reg('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
def m_argstr(eng, fr, st, info, a): return R(D(eng, st, a[0]), st)

@reg('std::fmt::Arguments::new')
def m_args(eng, fr, st, info, a):
    tpl, args = D(eng, st, a[0]), D(eng, st, a[1])
    if tpl[0] != 'bytes' or args[0] != 'coll': return None
    bs = tpl[1]
    pieces = decode(bs)
    if pieces is None: return None
    gens = ()
    i = 0
    for p in pieces:
        if isinstance(p, tuple):
            j, opts = p
            if j is not None: i = j
            if i >= len(args[2]) or args[2][i][0] != 'one': return None
            v = args[2][i][1]
            if opts: gens += (('spread', T.app('fmt', v, ('str', opts))),)
            else: gens += gens_of(v, 'seq')
            i += 1
        else: gens += (('spread', ('str', p)),)
    return R(merge_str(coll('seq', gens)), st)

def decode(bs):
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        if b == 0: return out
        if b >= 192:
            i += 1
            opts, j = '', None
            for bit, n in ((1, 4), (2, 2), (4, 2)):
                if b & bit: opts += '%d:%d ' % (bit, int.from_bytes(bytes(bs[i:i + n]), 'little')); i += n
            if b & 8: j = int.from_bytes(bytes(bs[i:i + 2]), 'little'); i += 2
            out.append((j, opts)); continue
        if b < 128:
            out.append(bytes(bs[i + 1:i + 1 + b]).decode('utf8', 'replace')); i += 1 + b; continue
        if b == 128:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(bytes(bs[i + 3:i + 3 + n]).decode('utf8', 'replace')); i += 3 + n; continue
        return None
    return out

@reg('std::str::<impl str>::repeat', 'std::str::repeat')
def m_strrepeat(eng, fr, st, info, a):
    x, n = D(eng, st, a[0]), a[1]
    if x[0] == 'str' and n[0] == 'int': return R(('str', x[1] * n[1]), st)
    return R(T.app('strrepeat', x, n), st)

@reg('std::fmt::format')
def m_format(eng, fr, st, info, a): return R(D(eng, st, a[0]), st)

def fmt_append(eng, st, f, gen):
    f0 = D(eng, st, f)
    if f[0] != 'ref': return None
    return R(('adt', RES, 'Ok', (UNIT,)), mut(eng, st, f, merge_str(coll('seq', gens_of(f0, 'seq') + (gen,)))))

@reg('std::fmt::Formatter::write_str', 'std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_str', 'std::fmt::Write::write_fmt', 'std::io::Write::write_fmt')
def m_wstr(eng, fr, st, info, a):
    f = D(eng, st, a[0])
    if f[0] == 'app' and f[1] == 'file': return R(('adt', RES, 'Ok', (UNIT,)), event(st, 'write', f[2][0], D(eng, st, a[1])))
    return fmt_append(eng, st, a[0], ('spread', D(eng, st, a[1])))

@reg('std::io::_print', 'std::io::_eprint', 'std::io::stdio::_print')
def m_print(eng, fr, st, info, a):
    c = ('g', 'stdout')
    if c not in st.mem: return R(UNIT, st)
    s = st.copy()
    s.mem[c] = push('seq', s.mem[c], D(eng, st, a[0]))
    return R(UNIT, s)

@reg('std::panicking::panic_fmt', 'std::panicking::panic', 'std::panicking::panic_default_msg', 'std::intrinsics::unreachable', 'std::panicking::assert_failed', 'std::panicking::panic_explicit',
     'std::panicking::panic_display', 'std::panicking::unreachable_display', 'std::panicking::begin_panic', 'std::option::unwrap_failed', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'std::panicking::panic_str_2015', 'std::panicking::panic_nounwind', 'std::process::exit')
def m_panic(eng, fr, st, info, a): return [('panic', 'panic', st)]

FILES = ('g', 'files')
def event(st, kind, *a):
    if FILES not in st.mem: return st
    s = st.copy()
    s.mem[FILES] = push('seq', s.mem[FILES], ('tup', (('str', kind),) + a))
    return s

@reg('std::fs::create_dir_all', 'std::fs::create_dir')
def m_mkdir(eng, fr, st, info, a): return R(('adt', RES, 'Ok', (UNIT,)), event(st, 'mkdir', D(eng, st, a[0])))

@reg('std::fs::File::create')
def m_fcreate(eng, fr, st, info, a):
    p = D(eng, st, a[0])
    return R(('adt', RES, 'Ok', (T.app('file', p),)), event(st, 'create', p))

def written(x):
    """what is written, as text where it is a literal"""
    if x[0] == 'bytes':
        try: return ('str', bytes(x[1]).decode())
        except ValueError: pass
    return x

@reg('std::io::Write::write', 'std::io::Write::write_all')
def m_fwrite(eng, fr, st, info, a):
    f, x = D(eng, st, a[0]), written(D(eng, st, a[1]))
    if f[0] != 'app' or f[1] != 'file': return None
    r = UNIT if info['fn'].endswith('write_all') else T.length(x)
    return R(('adt', RES, 'Ok', (r,)), event(st, 'write', f[2][0], x))

@reg('std::io::Write::flush', 'std::fs::File::sync_all')
def m_flush(eng, fr, st, info, a):
    f = D(eng, st, a[0])
    return R(('adt', RES, 'Ok', (UNIT,)), st) if f[0] == 'app' and f[1] == 'file' else None

@reg('std::io::BufWriter::new', 'std::io::LineWriter::new', 'std::io::BufWriter::with_capacity')
def m_buffered(eng, fr, st, info, a):
    f = D(eng, st, a[-1])
    return R(f, st) if f[0] == 'app' and f[1] == 'file' else None

@reg('std::fs::write')
def m_fswrite(eng, fr, st, info, a):
    p = D(eng, st, a[0])
    return R(('adt', RES, 'Ok', (UNIT,)), event(event(st, 'create', p), 'write', p, written(D(eng, st, a[1]))))

@reg('std::path::PathBuf::from_iter')
def m_pb(eng, fr, st, info, a): return R(T.app('path', D(eng, st, a[0])), st)

# ------------------------------------------------------------------ random choices
def site(eng):
    """where, along which calls, a choice is made: two choices of an execution of the same place in a loop are not distinguished"""
    return ('str', '/'.join('%s:%s' % (k.split('::')[-1], getattr(f, 'at', 0)) for k, f in eng.stack))

@reg('rand::thread_rng', 'rand::SeedableRng::seed_from_u64', 'rand::SeedableRng::from_entropy')
def m_rng(eng, fr, st, info, a): return R(T.app('rng', *[D(eng, st, x) for x in a]), st)

@reg('rand::distributions::Uniform::new')
def m_uniform2(eng, fr, st, info, a): return R(T.app('range', D(eng, st, a[0]), D(eng, st, a[1])), st)

@reg('rand::distributions::Uniform::new_inclusive')
def m_uniform3(eng, fr, st, info, a): return R(T.app('range', D(eng, st, a[0]), add(D(eng, st, a[1]), I(1))), st)

@reg('rand::distributions::Distribution::sample')
def m_sample(eng, fr, st, info, a): return R(T.app('sample', D(eng, st, a[0]), site(eng)), st)

@reg('rand::Rng::gen_range')
def m_gen_range(eng, fr, st, info, a): return R(T.app('sample', D(eng, st, a[1]), site(eng)), st)

@reg('rand::Rng::gen_bool', 'rand::Rng::gen')
def m_coin(eng, fr, st, info, a): return R(T.app('coin', site(eng)), st)

@reg('rand::seq::SliceRandom::shuffle', 'rand::prelude::SliceRandom::shuffle')
def m_shuffle(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    return R(UNIT, mut(eng, st, a[0], T.app('shuffled', v, site(eng))))

@reg('rand::seq::SliceRandom::choose', 'rand::prelude::SliceRandom::choose')
def m_choose(eng, fr, st, info, a):
    v = D(eng, st, a[0])
    return [('ret', some(eng.index(v, T.app('sample', T.app('range', I(0), length(v)), site(eng)))) if b else none(), s) for b, s in split_bool(eng, st, nonempty(v))]

@reg('std::vec::from_elem', 'std::iter::repeat_n')
def m_fromelem(eng, fr, st, info, a):
    v = eng.deep(st, a[0])
    return R(T.map_('seq', T.app('range', I(0), a[1]), lambda x: v), st)

SYNTH = {'for_each': _synth('for_each', None), 'collect': _synth('collect', 'vec'),
         'collect ' + RES: _synth('collect ' + RES, (RES, 0, 'Ok', 1)), 'collect ' + OPTION: _synth('collect ' + OPTION, (OPTION, 1, 'Some', 0))}

@reg('std::fmt::Debug::fmt', 'std::fmt::Display::fmt')
def m_boxfmt(eng, fr, st, info, a):
    ty = info['args'][0].lstrip('&') if info.get('args') else ''
    if not ty.startswith('std::boxed::Box<'): return None
    return fmt_append(eng, st, a[1], ('spread', T.app('debug' if 'Debug' in info['fn'] else 'show', eng.deep(st, a[0]))))
