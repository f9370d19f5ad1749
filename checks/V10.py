#!/usr/bin/env python3
"""V10: nested evaluations, parses and protected regions are unwound exactly once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, gcflow, nesting, incub
from nesting import g_of, strip, base, loadg

# global stacks and counters that are not about nesting
EXEMPT = {'search_paths': 'a path list edited by a pair of API functions', 'completions_enabled': 'API toggle',
          'num_used_pollfds': 'number of entries', 'num_total_pollfds': 'number of entries', 'parenthesis_depth': 'follows the tokens of the source text',
          'my_chown.recursive_depth': 'recursion of a file-name helper'}
PAIRS = [('temporaries dictionary', ['_gst_push_temporaries_dictionary'], ['_gst_pop_temporaries_dictionary'], []),
         ('bytecode array', ['_gst_save_bytecode_array'], ['_gst_restore_bytecode_array'], []),
         ('scope', ['_gst_push_new_scope'], ['_gst_pop_old_scope'], ['_gst_pop_all_scopes']),
         ('mutex', ['pthread_mutex_lock'], ['pthread_mutex_unlock'], []),
         ('relative object pointers', ['_gst_fixup_object_pointers'], ['_gst_restore_object_pointers'], [])]
# variables that a nested activity replaces and has to put back
SAVED = ['_gst_compiler_state', '_gst_curr_method', '_gst_current_parser', '_gst_report_errors',
         '_gst_compilation_obstack', '_gst_execution_tracing']
UNWIND = ['_gst_compiler_state', '_gst_curr_method', '_gst_current_parser', '_gst_compilation_obstack']
SETTERS = {'_gst_set_var': 'API setter', '_gst_initialize': 'initialisation', '_gst_set_report_errors': 'setter'}
NAMES = {'in_stream': 'input stream', 'reentrancy_jmp_buf': 'recovery point', '_gst_gc_running': 'collection-in-progress count',
         '_gst_signal_count': 'signal blocking level'}


def fieldsaves(p, saved):
    """(struct, offset) -> global: fields into which only the value of that global is stored"""
    val = {}; bad = set()
    for f in p.funcs.values():
        if f.decl: continue
        for i in f.instrs():
            if i.op == 'store' and isinstance(i.x, list) and i.x[0] not in ('?', '', 'any pointer', 'int', 'omnipotent char'):
                k = (i.x[0], i.x[2]); g = loadg(f, i.ops[0])
                if g in saved and val.get(k, g) == g: val[k] = g
                else: bad.add(k)
    return {k: g for k, g in val.items() if k not in bad}


def setters(p, g):
    """{helper: parameter} for functions that just store a parameter in g"""
    out = {}
    for f in p.funcs.values():
        if f.decl or len(f.blocks) != 1: continue
        st = [i for i in f.instrs() if i.op == 'store' and g_of(i.ops[1]) == g]
        if len(st) == 1 and f.param(strip(f, st[0].ops[0])) is not None: out[f.name] = f.param(strip(f, st[0].ops[0]))
    return out


def restored(f, g, fields, helpers):
    """store instructions after which a return is reached with g changed"""
    IN = [set() for _ in f.blocks]; st0 = (None, frozenset()); IN[0].add(st0); work = [(0, st0)]; out = []
    def loads(o, seen):
        d = f.defn(strip(f, o))
        if d is None or d.id in seen: return [] if d is not None else [None]
        seen.add(d.id)
        if d.op == 'phi': return [x for v in d.ops for x in loads(v, seen)]
        if d.op == 'load' and g_of(d.ops[0]) == g: return [d.id]
        if d.op == 'load' and isinstance(d.x, list) and fields.get((d.x[0], d.x[2])) == g: return ['field']
        return [None]
    while work:
        b, (w, sv) = work.pop(); dead = False
        for i in f.blocks[b]:
            if i.op == 'load' and g_of(i.ops[0]) == g: sv = frozenset(x for x in sv if x[0] != i.id) | {(i.id, w)}
            elif i.op == 'store' and g_of(i.ops[1]) == g or i.op == 'call' and i.callee in helpers:
                src = loads(i.ops[0] if i.op == 'store' else i.ops[helpers[i.callee]], set()); m = dict(sv)
                if src == ['field'] : pass
                elif src and all(x in m for x in src):
                    ws = [m[x] for x in src]; w = next((x for x in ws if x is not None), None)
                else: w = i.id
            elif i.op == 'call' and i.callee and i.callee in f.prog.funcs and f.prog.funcs[i.callee].noreturn: dead = True; break
            elif i.op == 'ret' and w is not None: out.append(f.ins[w])
        if dead: continue
        for s in f.succs(b):
            if (w, sv) not in IN[s]:
                IN[s].add((w, sv)); work.append((s, (w, sv)))
    return out


def check(r):
    p = cfront.load_vm(); gc = gcflow.GC(p)
    for f in p.funcs.values(): f.prog = p
    callers = {}
    for f, s in gc.cg.items():
        for g in s: callers.setdefault(g, set()).add(f)
    # A. depth of stacks and counters
    n = nesting.Nesting(p, gc, exempt=EXEMPT, pairs=PAIRS)
    for g in ('stack', 'counter'):
        r.count(g + 's', len(n.stacks if g == 'stack' else n.counters))
    n.solve()
    zero = (0,) * len(n.res)
    poppers = set()
    api = {n2 for f in p.funcs.values() if not f.decl and f.file == 'gstpub.c' for n2 in [f.name]}
    for fn in n.order:
        f = p.funcs[fn]; s = n.summ[fn]; r.count('functions_with_nesting')
        if f.base in n.hidden: continue
        rets, notes, wit = n.analyse(f)
        for kind, i, res in notes:
            if kind == 'set' and res in n.stacks and f.base not in SETTERS:
                r.violation('set:%s:%s' % (f.base, res), i.loc(), '%s overwrites the %s stack with something else than a level it had before' % (f.base, nm(res)))
            elif kind == 'escape':
                # the landing of a failed compilation drops the scopes and bytecodes of the whole method
                if res[0] in ('scope', 'bytecode array') and 'compiler_state' in res[1]: continue
                r.violation('escape:%s:%s' % (f.base, res[0]), i.loc(), '%s jumps to an outer recovery point while the %s it entered is still in place' % (f.base, nm(res[0])))
            elif kind == 'loop':
                r.violation('loop:%s:%s' % (f.base, res), i.loc(), '%s enters or leaves a %s in a loop without bound' % (f.base, nm(res)))
        for k, res in enumerate(n.res):
            vals = sorted({x[k] for x in rets})
            touched = any(a == fn and e[0] == res for (a, _), e in list(n.ev.items()) + list(n.callev.items())) or vals not in ([], [0])
            if not touched: continue
            r.ob(len(vals) <= 1)
            if len(vals) > 1:
                odd = [x for x in wit if x[k] == min(vals, key=lambda z: (abs(z) == 0, z))]
                r.violation('unbalanced:%s:%s' % (f.base, res), wit[odd[0]].loc() if odd else '%s:%d' % (f.file, f.line),
                            '%s returns with %s entries of the %s on different paths' % (f.base, ' or '.join('%+d' % v for v in vals), nm(res)))
            elif vals and vals[0]:
                if vals[0] < 0 and res == 'reentrancy_jmp_buf': poppers.add(fn)
                cs = callers.get(fn, set()) - {fn}
                if fn in gc.taken and fn not in n.hidden and not (fn in p.funcs and f.file in ('gstpub.c',)) or f.base.startswith('VMpr_'):
                    r.violation('root:%s:%s' % (f.base, res), '%s:%d' % (f.file, f.line), '%s leaves the %s %+d levels deeper than it was' % (f.base, nm(res), vals[0]))
                elif not cs and f.file != 'gstpub.c' and f.base not in ('_gst_push_cstring', '_gst_push_unix_file', '_gst_push_smalltalk_string', '_gst_push_stdin_string', '_gst_push_stream_oop'):
                    if not any(e[0] == res for (a, _), e in n.ev.items() if a == fn):
                        r.violation('root:%s:%s' % (f.base, res), '%s:%d' % (f.file, f.line), '%s leaves the %s %+d levels deeper than it was' % (f.base, nm(res), vals[0]))
                elif abs(vals[0]) > 1:
                    r.violation('twice:%s:%s' % (f.base, res), '%s:%d' % (f.file, f.line), '%s enters or leaves the %s %d times' % (f.base, nm(res), abs(vals[0])))
    # B. saved variables
    fields = fieldsaves(p, set(SAVED))
    for g in SAVED:
        if g not in p.globals: continue
        hp = setters(p, g)
        for f in p.funcs.values():
            if f.decl or f.base in SETTERS or f.name in hp and f.name not in gc.taken or not any(i.op == 'store' and g_of(i.ops[1]) == g or i.op == 'call' and i.callee in hp for i in f.instrs()): continue
            r.count('saved_variable_sites')
            bad = restored(f, g, fields, hp); r.ob(not bad)
            for i in bad[:1]:
                r.violation('saved:%s:%s' % (f.base, g), i.loc(), '%s changes %s and returns on some path without putting back the value it had' % (f.base, g))
    # the recovery point puts everything back
    r.count('recovery_poppers', len(poppers))
    prim = {fn for fn in poppers if any(e[0] == 'reentrancy_jmp_buf' and e[1] == -1 for (a, _), e in n.ev.items() if a == fn)}
    inc = incub.Incubator(p, gc); inc.solve()
    for fn in sorted(prim):
        f = p.funcs[fn]
        st = {g_of(i.ops[1]) for i in f.instrs() if i.op == 'store'}
        for g in UNWIND:
            ok = g in st; r.ob(ok)
            if not ok: r.violation('unwind:%s:%s' % (f.base, g), '%s:%d' % (f.file, f.line), 'leaving a recovery point after an interrupt does not restore %s' % g)
        ok = any(k[0] == 'restore' for k in inc.kinds.get(fn, {}).values()); r.ob(ok)
        if not ok: r.violation('unwind:%s:incubator' % f.base, '%s:%d' % (f.file, f.line), 'leaving a recovery point after an interrupt does not release the temporary roots of the interrupted code')
    # the answer of leaving a recovery point (interrupted, pass it on) is looked at
    answer = set(prim); ch = True
    def flows(f, o, seen):
        d = f.defn(o)
        if d is None or d.id in seen: return set()
        seen.add(d.id)
        if d.op == 'call': return {d.callee}
        ops = d.ops[1:] if d.op == 'select' else d.ops if d.op in ('phi', 'zext', 'sext', 'trunc', 'freeze', 'icmp', 'and', 'xor') else []
        return {x for v in ops for x in flows(f, v, seen)}
    while ch:
        ch = False
        for f in p.funcs.values():
            if f.decl or f.name in answer: continue
            for i in f.instrs():
                if i.op == 'ret' and i.ops and flows(f, i.ops[0], set()) & answer: answer.add(f.name); ch = True; break
    for f in p.funcs.values():
        if f.decl: continue
        used = None
        for i in f.calls():
            if i.callee not in answer or i.ty == 'void': continue
            if f.base.startswith('VMpr_') and i.callee.startswith('VMpr_'): continue
            if i.callee.startswith('VMpr_'): continue
            r.count('recovery_answers')
            if used is None:
                used = set()
                def ids(o):
                    if isinstance(o, str) and o[:1] == '%': used.add(int(o[1:]))
                    elif isinstance(o, dict):
                        for v in o.values(): ids(v)
                    elif isinstance(o, list):
                        for v in o: ids(v)
                for j in f.instrs(): ids(j.ops); ids(j.x) if j.op in ('gep', 'call') else None
            ok = i.id in used; r.ob(ok)
            if not ok: r.violation('ignored:%s:%s' % (f.base, p.funcs[i.callee].base), i.loc(), '%s ignores that the protected code it ran was interrupted' % f.base)
    # temporary roots
    r.count('incubator_additions', inc.addsites); r.count('incubator_scopes', inc.saves); r.count('incubator_restores', inc.restores)
    for fn in inc.kinds:
        f = p.funcs[fn]
        if any(k[0] == 'save' for k in inc.kinds[fn].values()):
            w = None if pushes(n, fn) else inc.unclosed(f)
            r.ob(w is None)
            if w is not None:
                r.violation('incubator:%s' % f.base, w.loc(), '%s opens a scope of temporary roots and returns on some path with roots added here still in it' % f.base)
    for fn, w in inc.dirty.items():
        f = p.funcs[fn]
        if f.base.startswith('VMpr_') or f.base in ('_gst_interpret', '_gst_nvmsg_send'):
            r.violation('incubator:%s' % f.base, w.loc(), '%s returns with temporary roots left behind' % f.base)
    # frames register and unregister the same objects
    reg = {f.name for f in p.by_base('_gst_register_oop')}; unreg = {f.name for f in p.by_base('_gst_unregister_oop')}
    for g in n.stacks:
        pu = sorted({a for (a, _), e in n.ev.items() if e == (g, 1)}); po = sorted({a for (a, _), e in n.ev.items() if e == (g, -1)})
        def flds(fn, which, stored):
            f = p.funcs[fn]; out = set()
            for i in f.calls():
                if i.callee in which:
                    d = f.defn(strip(f, i.ops[0]))
                    if d is not None and d.op == 'load' and isinstance(d.x, list): out.add((d.x[0], d.x[2]))
                    else:
                        for j in f.instrs():
                            if j.op == 'store' and strip(f, j.ops[0]) == strip(f, i.ops[0]) and isinstance(j.x, list) and g_of(j.ops[1]) is None:
                                out.add((j.x[0], j.x[2]))
            return out
        a = set().union(*[flds(x, reg, True) for x in pu]); b = set().union(*[flds(x, unreg, False) for x in po])
        r.count('frame_registrations', len(a))
        for x in sorted(a - b):
            r.ob(False); r.violation('registered:%s:%d' % (g, x[1]), '%s:%d' % (p.funcs[po[0]].file, p.funcs[po[0]].line), 'the object registered when a %s is entered is not unregistered when it is left' % nm(g))
        r.ob(True, len(a & b))
    r.require('stacks', 2); r.require('counters', 2); r.require('incubator_scopes', 20); r.require('saved_variable_sites', 8)
    r.require('recovery_poppers', 1); r.require('functions_with_nesting', 100)
    r.rules = ['every function changes the depth of each stack (%s), counter (%s) and paired region (%s) by the same amount on all paths, and by nothing unless it is one of the entering or leaving operations themselves' % (
                   ', '.join(n.stacks), ', '.join(n.counters), ', '.join(n.pairres)),
               'a function that replaces one of %s puts the previous value back before returning' % ', '.join(SAVED),
               'leaving a recovery point restores the parser, compiler and temporary-root state, and its answer is never ignored',
               'a scope of temporary roots is closed on every path']


def nm(res):
    return NAMES.get(res, res).replace('guard:struct.', 'recovery point of ')


def pushes(n, fn):
    return any(a == fn and e[1] == 1 for (a, _), e in n.ev.items())


vp.main('V10', check, explanation='Every function of libgst that directly or indirectly changes a nesting stack, counter, saved variable or the temporary-root list.',
        trusted=['clang 18 front end', 'the lists of paired operations and saved variables in checks/V10.py', 'longjmp reaches only the setjmp of the innermost recovery point'])
