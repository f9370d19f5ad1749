#!/usr/bin/env python3
"""V07: built-in operations do not change an object that is marked read-only."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, gcflow, stsys, readonly, bounds
from readonly import MARK
from stackint import Exploded

# Operations on the memory, the address or the life cycle of the C side of an
# object or of its own private state, which are not changes of the elements of the Smalltalk object.
OUTSIDE = {'VMpr_Random_next', 'VMpr_CObject_addressColon', 'VMpr_CObject_free', 'VMpr_CCallbackDescriptor_link'}
# Helpers that move a body, or write the padding behind its last element.
RELOCATE = {'_gst_make_oop_fixed', '_gst_tenure_oop', '_gst_mpz_from_oop'}
IDENTITY = {'become:': 2, 'becomeForward:': 1}
# Functions that build literals, and the classes of theirs that are not literals.
LITERALS = ('_gst_make_constant_oop', 'floatd_new', 'floate_new', 'floatq_new', 'char_new', 'alloc_symbol_oop', 'get_literals_array',
            '_gst_block_new')
MAKERS = ('new_instance', 'new_instance_with', 'instantiate', 'instantiate_with', 'alloc_oop', '_gst_string_new', '_gst_alloc_obj')
LEXER = ('scan_number', '_gst_negate_yylval')     # compute literals by sending messages
NOTLITERAL = {'_gst_deferred_variable_binding_class'}


def root(f, o, n=0):
    """identity of an OOP: the SSA value, or the variable it is loaded from"""
    d = f.defn(o)
    if d is None or n > 12: return str(o)
    if d.op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'): return root(f, d.ops[0], n + 1)
    if d.op == 'load':
        a = f.defn(d.ops[0])
        if a is not None and a.op == 'alloca': return 'var%d' % a.id
    return str(o)


def flags_of(f, a):
    """the OOP whose flags word is at address a"""
    d = f.defn(a)
    if d is not None and d.op == 'gep' and not d.x['v'] and d.x['o'] == 8: return d.x['b']
    return None


def strip(f, o):
    d = f.defn(o)
    while d is not None and d.op in ('zext', 'sext', 'trunc', 'freeze'): o = d.ops[0]; d = f.defn(o)
    return o


def marktest(f, c):
    """(oop, truth when marked) of a comparison of the read-only bit, else None"""
    a, b = c.ops
    if isinstance(a, int): a, b = b, a
    if not isinstance(b, int) or c.x not in ('eq', 'ne', 'ugt', 'sgt'): return None
    d = f.defn(strip(f, a))
    while d is not None and d.op in ('lshr', 'ashr'): d = f.defn(strip(f, d.ops[0]))
    if d is None or d.op != 'and' or MARK not in d.ops: return None
    l = f.defn(strip(f, [x for x in d.ops if x != MARK][0]))
    if l is None or l.op != 'load': return None
    o = flags_of(f, l.ops[0])
    return None if o is None else (o, (c.x != 'eq') == (b == 0))


def tested(A, f, blk, o):
    """every path to the block crosses a branch where the mark of o was found clear"""
    k = root(f, o)
    stop = f.defn(o).bb if f.defn(o) is not None else 0
    todo = [blk]; seen = {blk}
    while todo:
        b = todo.pop()
        if b == stop or not f.preds[b]: return False      # nothing was tested on this way
        for a in f.preds[b]:
            t = f.blocks[a][-1]
            ok = t.op == 'br' and len(t.ops) == 3 and t.ops[1]['bb'] != t.ops[2]['bb'] and any(
                m is not None and root(f, m[0]) == k and truth != m[1]
                for m, truth in ((marktest(f, c), truth) for c, truth in A.atoms(f, t.ops[0], t.ops[2]['bb'] == b)))
            if not ok and a not in seen: seen.add(a); todo.append(a)
    return True


def check(r):
    p = cfront.load_vm(); gc = gcflow.GC(p)
    tab = cfront.prim_table(p)
    byname = {e['name']: e for e in tab.values() if e['name']}
    jobs = {}
    for prim, n, c, m in stsys.primitive_attachments():
        e = byname.get(prim) if isinstance(prim, str) else tab.get(prim)
        if e is not None: jobs.setdefault((e['name'], n), (e, []))[1].append((c, m))
    si = readonly.ReadOnly(p, gc)
    for f in p.funcs.values():
        if f.base in RELOCATE: si.sums[f.name] = ({}, None)
    idents = 0
    for (name, n), (e, ms) in sorted(jobs.items()):
        f = p.get(e['func'])
        si.hits = {}; before = si.checked
        try:
            res = si.run(e['func'], [('i', e['id']), ('i', n)], 0, frozenset({('t', -n): 'oop'}.items()))
        except Exploded:
            raise cfront.AnalysisBroken('too many states in %s with %d arguments' % (e['func'], n))
        r.count('primitive_arity_pairs'); r.count('changes_checked', si.checked - before)
        if name in OUTSIDE: continue
        bad = {}
        for g, i, k, what, need in si.hits.values(): bad.setdefault((k, what, i.callee and i.callee.split('.')[0] or g.base), (g, i, need))
        if si.checked > before: r.ob(not bad)
        for (k, what, via), (g, i, need) in sorted(bad.items(), key=lambda x: str(x[0])):
            a = 'receiver' if k == -n else 'argument %d' % (k + n)
            at = need[1].loc() if isinstance(need, tuple) and len(need) > 1 and hasattr(need[1], 'loc') else i.loc()
            meths = ', '.join('%s%s>>%s' % (c.name, ' class' if m.meta else '', m.sel) for c, m in ms[:3])
            r.violation('%s/%d:%s:%s:%s' % (name, n, a, what, via), i.loc(),
                        '%s changes the %s of its %s on a path that has not tested whether it is read-only (%s, used by %s)' % (name, what[7:], a, at, meths))
        sels = {m.sel for c, m in ms}
        for s, cnt in IDENTITY.items():
            if s not in sels: continue
            for k in range(-n, -n + cnt):
                idents += 1
                # failing leaves everything in place; success answers with fewer operands
                ok = all(dict(mem).get(('w', k)) for rv, sp, mem in res if sp == -n)
                r.ob(ok)
                if not ok: r.violation('%s/%d:%s:%d' % (name, n, s, k), f.loc() if hasattr(f, 'loc') and callable(f.loc) else name,
                                       '%s succeeds on a path that has not tested whether the object is read-only (%s)' % (name, s))
    if idents < 3: raise cfront.AnalysisBroken('the operations that change identity were not found')
    r.cov['identity_operations'] = idents

    # element stores that the interpreter makes without sending a message
    A = bounds.Bounds(p)
    prims = {e['func'] for e in tab.values()}
    seeds = {g for g, (needs, _) in si.sums.items() if needs and any(w.startswith('change') for _, w, _ in needs)}
    wanted = set(seeds)
    for _ in range(3):
        wanted |= {f.name for f in p.funcs.values() if not f.decl and f.name not in prims and any(i.callee in wanted for i in f.calls())}
    for f in p.by_base('_gst_interpret'):
        if f.decl: continue
        for i in f.calls():
            g = i.callee
            fn = p.funcs.get(g) if g else None
            if fn is None or fn.decl or fn.noreturn or g not in wanted: continue
            needs, _ = si.summary(g)
            for n in sorted({n for (n, what, tf) in needs if what.startswith('change')}):
                o = i.ops[n]; d = f.defn(o)
                if d is not None and d.op == 'alloca': continue      # the caller's own variable
                if d is not None and d.op == 'load' and isinstance(d.x, list) and d.x[0] == 'oop_s':     # the body of an object
                    a = f.defn(d.ops[0])
                    o = a.x['b'] if a is not None and a.op == 'gep' and not a.x['v'] else d.ops[0]
                r.count('interpreter_stores')
                ok = tested(A, f, i.bb, o)
                r.ob(ok)
                if not ok:
                    r.violation('%s:%s' % (f.base, si.base(g)), i.loc(), 'the interpreter lets %s change an object without having tested whether it is read-only' % si.base(g))

    # the mark itself
    exempt = {e['func'] for e in tab.values() if e['name'] == 'VMpr_Object_makeReadOnly'}
    for f in p.funcs.values():
        if f.decl: continue
        sets = {}; clears = []
        for i in f.instrs():
            if i.op != 'store': continue
            o = flags_of(f, i.ops[1])
            if o is None or not isinstance(i.x, list) or not i.x or i.x[0] != 'oop_s': continue
            d = f.defn(i.ops[0])
            if d is None: continue
            if d.op == 'or' and any(isinstance(x, int) and x & MARK for x in d.ops): sets.setdefault(i.bb, []).append(i)
            elif d.op == 'and' and any(isinstance(x, int) and not x & MARK for x in d.ops):
                x = [x for x in d.ops if not isinstance(x, int)]
                l = f.defn(x[0]) if x else None
                if l is not None and l.op == 'load' and flags_of(f, l.ops[0]) is not None: clears.append((i, o))
        f_sets = sets
        if clears and f.name not in exempt:
            for i, o in clears:
                ok = reaches_set(f, i, sets)
                r.ob(ok); r.count('updates_of_the_mark')
                if not ok: r.violation('%s:mark' % f.base, i.loc(), '%s removes the read-only mark of an object' % f.base)
        if f.base in LITERALS:
            for i in f.calls():
                if not i.callee or p.funcs[i.callee].base not in MAKERS: continue
                cls = f.defn(i.ops[0]) if i.ops else None
                cls = cls.ops[0]['g'] if cls is not None and cls.op == 'load' and isinstance(cls.ops[0], dict) and 'g' in cls.ops[0] else None
                if cls in NOTLITERAL or p.funcs[i.callee].base == 'alloc_oop' and f.base not in ('alloc_symbol_oop',): continue
                if f.base == '_gst_make_constant_oop' and not result_returned(f, i): continue
                ok = reaches_set(f, i, f_sets)
                r.ob(ok); r.count('literals_marked')
                if not ok: r.violation('%s:literal:%s' % (f.base, cls or p.funcs[i.callee].base), i.loc(), '%s builds a literal that is not marked read-only' % f.base)
        if f.base in LEXER:
            for i in f.calls():
                b = p.funcs[i.callee].base if i.callee else ''
                d = f.defn(i.ops[0]) if b == '_gst_msg_sendf' else None
                if b != '_gst_msg_send' and not (b == '_gst_msg_sendf' and (d is None or d.op != 'alloca')): continue
                ok = reaches_set(f, i, f_sets)
                r.ob(ok); r.count('literals_marked')
                if not ok: r.violation('%s:literal' % f.base, i.loc(), '%s computes a literal that is not marked read-only' % f.base)
        if f.base == 'install_method':
            ok = reaches_set(f, f.blocks[0][0], f_sets)
            r.ob(ok); r.count('literals_marked')
            if not ok: r.violation('%s:literal' % f.base, f.blocks[0][0].loc(), '%s installs a method that is not marked read-only' % f.base)
    if si.cut: r.notes.append('not followed: ' + ', '.join(sorted(set(g for g, _ in si.cut))))
    r.require('primitive_arity_pairs', 190)
    r.require('changes_checked', 12)
    r.require('interpreter_stores', 1)
    r.require('literals_marked', 8)
    r.rules = ['a built-in operation stores into elements or instance variables of an operand, into its class or its identity only on paths that found its read-only mark clear',
               'become: and becomeForward: succeed only on such paths',
               'the element store that the interpreter makes without a send is guarded by the same test',
               'no function clears the mark of an object except makeReadOnly:, and the functions that build literals set it on every path']


def result_returned(f, call):
    """is the object made by the call among the values the function returns?"""
    outs = {root(f, o) for o in call.ops if f.defn(o) is not None and f.defn(o).op == 'alloca'}
    keys = {'%%%d' % call.id} | {'var%d' % f.defn(o).id for o in call.ops if f.defn(o) is not None and f.defn(o).op == 'alloca'}

    def vals(o, seen):
        d = f.defn(o)
        if d is None or d.id in seen: return set()
        seen.add(d.id)
        if d.op in ('phi',): return set().union(*[vals(x, seen) for x in d.ops]) if d.ops else set()
        if d.op == 'select': return vals(d.ops[1], seen) | vals(d.ops[2], seen)
        return {root(f, o), '%%%d' % d.id}
    for i in f.instrs():
        if i.op == 'ret' and i.ops and vals(i.ops[0], set()) & keys: return True
    return False


def reaches_set(f, i, sets):
    """does every path from the instruction to a return set the mark?"""
    blk = f.blocks[i.bb]; pos = blk.index(i)
    def after(b, start):
        for s in sets.get(b, ()):
            if f.blocks[b].index(s) > start: return True
        return False
    if after(i.bb, pos): return True
    todo = list(f.succs(i.bb)); seen = set()
    if blk[-1].op == 'ret': return False
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        if after(b, -1): continue
        if f.blocks[b][-1].op == 'ret': return False
        todo += f.succs(b)
    return True


vp.main('V07', check, explanation='Every built-in operation with every argument count it is attached with, all paths, helpers summarised; the element store of the interpreter; all updates of the mark.',
        trusted=['clang 18 front end', 'assignments to instance variables by the methods of the object itself are not restricted by the mark',
                 'stores into fixed fields by operations on semaphores, processes, contexts and C objects are not element stores'])
