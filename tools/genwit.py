#!/usr/bin/env python3
"""Writes the witness translation units of the sequence containers (witness/w_*.cpp)."""
import os
W = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness')
def inst(cont, el, N, flags):
    T = 'arch::E_%s' % el
    a = [T]
    nm = 'c_%s' % el
    if N is not None: a.append(str(N)); nm += '_%d' % N
    if flags is not None: a.append('arch::A_alloc<%s, %d>' % (T, flags)); nm += '_%d' % flags
    C = 'sfl::%s<%s>' % (cont, ', '.join(a))
    mo = el in ('mt', 'mn')
    de = 'devector' in cont
    s = ''
    if not mo: s += 'template class %s;\n' % C
    s += 'namespace wit { typedef %s %s;\n' % (C, nm)
    al = flags is not None
    s += 'void u_%s(%s& c, arch::In<%s>& in%s) { use_seq(c, in); ' % (nm, nm, T, ', const %s::allocator_type& al' % nm if al else '')
    if not mo: s += 'use_seq_copy(c, in); ' + ('use_seq_copy_alloc(c, in, al); ' if al else '')
    else: s += 'use_seq_move(c, in); ' + ('use_seq_move_alloc(c, in, al); ' if al else '')
    if de: s += 'use_de(c, in); ' + ('use_de_move(c, in); ' if mo else 'use_de_copy(c, in); ')
    if cont not in ('compact_vector', 'static_vector', 'devector', 'segmented_devector') and mo: s += 'use_reserve(c); '
    if not cont.startswith('segmented') and mo: s += 'use_data(c); '
    if cont not in ('compact_vector', 'static_vector') and mo: s += 'c.shrink_to_fit(); '
    return s + '} }\n'
def unit(name, cont, insts):
    open(os.path.join(W, 'w_%s.cpp' % name), 'w').write('#include "arch.hpp"\n#include "sfl/%s.hpp"\n#include "use.hpp"\n' % cont + ''.join(inst(cont, *i) for i in insts))
unit('vector', 'vector', [('cn', None, 0), ('ct', None, 0)])
unit('vector_mo', 'vector', [('mn', None, 0), ('mt', None, 0)])
unit('vector_al', 'vector', [('cn', None, f) for f in (1, 2, 4, 7, 8)])
unit('compact', 'compact_vector', [('cn', None, 0), ('ct', None, 0)])
unit('compact_mo', 'compact_vector', [('mn', None, 0), ('mt', None, 0)])
unit('compact_al', 'compact_vector', [('cn', None, f) for f in (1, 2, 4, 7, 8)])
unit('devector', 'devector', [('cn', None, 0)])
unit('devector_ct', 'devector', [('ct', None, 0)])
unit('devector_mo', 'devector', [('mn', None, 0), ('mt', None, 0)])
unit('devector_al', 'devector', [('cn', None, f) for f in (1, 2, 4, 7, 8)])
unit('small', 'small_vector', [('cn', 3, 0)])
unit('small_ct', 'small_vector', [('ct', 3, 0)])
unit('small_mo', 'small_vector', [('mn', 3, 0), ('mt', 3, 0)])
unit('small0', 'small_vector', [('cn', 0, 0)])
unit('small_al', 'small_vector', [('cn', 3, f) for f in (1, 2, 4, 7, 8)])
unit('static', 'static_vector', [('cn', 3, None), ('ct', 3, None)])
unit('static_mo', 'static_vector', [('mn', 3, None), ('mt', 3, None)])
for n, c in (('vector', 'vector'), ('compact', 'compact_vector'), ('devector', 'devector'), ('small', 'small_vector')): unit(n + '_thr', c, [('ct', 3 if n == 'small' else None, 16)])

# associative containers
def kinst(cont, el, N, flags, tr=False, thr=False):
    m = 'map' in cont; un = 'unordered' in cont; mu = 'multi' in cont
    K = 'arch::E_%s' % el
    V = 'std::pair<%s, arch::E_mp>' % K if m else K
    F = 'arch::%s' % (('Q_teq' if tr else 'Q_eq') if un else ('C_tless' if tr else 'C_less'))
    if thr: F = 'arch::Q_thr' if un else 'arch::C_thr'
    a = [K] + (['arch::E_mp'] if m else []) + [str(N), F]
    nm = 'c_%s_%d' % (el, N) + ('_tr' if tr else '') + ('_thr' if thr else '')
    if flags is not None: a.append('arch::A_alloc<%s, %d>' % (V, flags)); nm += '_%d' % flags
    C = 'sfl::%s<%s>' % (cont, ', '.join(a))
    IN = 'arch::InK<%s, %s>' % (K, V)
    s = 'template class %s;\n' % C if not tr else ''
    s += 'namespace wit { typedef %s %s;\n' % (C, nm)
    s += 'void u_%s(%s& c, %s& in) { ' % (nm, nm, IN)
    if tr:
        s += 'use_tr(c, in); '
        if not un: s += 'use_tr_bounds(c, in); '
        if not un: s += 'use_tr_range(c, in); '
        if not m and not mu: s += 'use_tr_set(c, in); '
        if m and not mu: s += 'use_tr_umap(c, in); '
    else:
        s += ('use_map(c, in); ' if m else 'use_set(c, in); ')
        if m and not mu: s += 'use_umap(c, in); '
        if not un: s += 'use_cmp(c); '
        s += 'c.erase(in.ck); '
    return s + '} }\n'
def kunit(name, cont, insts):
    open(os.path.join(W, 'w_%s.cpp' % name), 'w').write('#include "arch.hpp"\n#include "sfl/%s.hpp"\n#include "use.hpp"\n' % cont + ''.join(kinst(cont, *i) for i in insts))
for un in ('', 'unordered_'):
    for k in ('set', 'map', 'multiset', 'multimap'):
        for st in ('small', 'static'):
            cont = '%s_%sflat_%s' % (st, un, k); fl = None if st == 'static' else 0
            kunit(cont, cont, [('cn', 3, fl)])
            kunit(cont + '_tr', cont, [('cn', 3, fl, True)])
            if st == 'small': kunit(cont + '_al', cont, [('cn', 3, f) for f in (1, 2, 4, 7, 8)])
            if st == 'small': kunit(cont + '_0', cont, [('cn', 0, 0)])
            kunit(cont + '_ct', cont, [('ct', 3, fl)])
            kunit(cont + '_thr', cont, [('cn', 3, f, False, True) for f in ((None,) if fl is None else (0, 16))])
for c, n in (('segmented_vector', 'segv'), ('segmented_devector', 'segd')):
    unit(n, c, [('cn', 1, 0), ('ct', 1, 0)])
    unit(n + '_mo', c, [('mn', 1, 0), ('mt', 1, 0)])
    unit(n + '_al', c, [('cn', 1, f) for f in (1, 2, 4, 7, 8)])
    unit(n + '_thr', c, [('ct', 1, 16)])
    unit(n + '2', c, [('cn', 2, 0)])   # segments of more than one element
    unit(n + '2_ct', c, [('ct', 2, 0)])

# iterators: every operation, at every position
def iters(name, hdr, typ):
    open(os.path.join(W, 'i_%s.cpp' % name), 'w').write('#include "arch.hpp"\n#include "sfl/%s.hpp"\n#include "iter.hpp"\nnamespace wit {\n' % hdr
        + ''.join('typedef %s %s;\n' % (t, n) for n, t in typ) + ''.join('void i_%s(%s& c) { itw::use_iter(c); %s}\n' % (n, n, ('itw::use_range(c); ' if 'vector' in name and 'segm' not in name else '') + ('itw::use_range_alloc(c); ' if 'vector' in name and 'segm' not in name and 'static' not in name else '')) for n, t in typ) + '}\n')
for c in ('segmented_vector', 'segmented_devector'):
    iters(c, c, [('c_%d' % n, 'sfl::%s<arch::E_cn, %d, arch::A_alloc<arch::E_cn, 0>>' % (c, n)) for n in (1, 2, 3, 4)])
for c in ('vector', 'compact_vector', 'devector'): iters(c, c, [('c_0', 'sfl::%s<arch::E_cn, arch::A_alloc<arch::E_cn, 0>>' % c)])
iters('small_vector', 'small_vector', [('c_3', 'sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>>'), ('c_0', 'sfl::small_vector<arch::E_cn, 0, arch::A_alloc<arch::E_cn, 0>>')])
iters('static_vector', 'static_vector', [('c_3', 'sfl::static_vector<arch::E_cn, 3>')])
for un in ('', 'unordered_'):
    f = 'arch::Q_eq' if un else 'arch::C_less'
    for k in ('set', 'multiset', 'map', 'multimap'):
        v = 'arch::E_cn' if 'set' in k else 'std::pair<arch::E_cn, arch::E_mp>'
        a = 'arch::E_cn' if 'set' in k else 'arch::E_cn, arch::E_mp'
        iters('small_%sflat_%s' % (un, k), 'small_%sflat_%s' % (un, k), [('c_3', 'sfl::small_%sflat_%s<%s, 3, %s, arch::A_alloc<%s, 0>>' % (un, k, a, f, v))])
        iters('static_%sflat_%s' % (un, k), 'static_%sflat_%s' % (un, k), [('c_3', 'sfl::static_%sflat_%s<%s, 3, %s>' % (un, k, a, f))])
for c in ('segmented_vector', 'segmented_devector'):
    t = [('c_%d' % n, 'sfl::%s<arch::E_cn, %d, arch::A_alloc<arch::E_cn, 0>>' % (c, n)) for n in (1, 2) if n == 1 or c == 'segmented_vector']
    open(os.path.join(W, 'r_%s.cpp' % c), 'w').write('#include "arch.hpp"\n#include "sfl/%s.hpp"\n#include "iter.hpp"\nnamespace wit {\n' % c
        + ''.join('typedef %s %s;\nvoid r_%s(%s& c) { itw::use_range(c); itw::use_range_alloc(c); }\n' % (x[1], x[0], x[0], x[0]) for x in t) + '}\n')
