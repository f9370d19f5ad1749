"""Which Smalltalk messages raise, and which statements can be left at their end."""
from stparse import walk

# the message raises an exception whoever implements it
BASE = {'signal', 'signal:', 'error:', 'halt:', 'primError:', 'doesNotUnderstand:', 'subclassResponsibility', 'signalOn:withIndex:',
        'signalOn:mustBe:', 'signalOn:useInstead:', 'signalOn:reason:', 'signalOn:mustBeBetween:and:', 'signalOn:', 'activateHandler:'}
ARMS = {'ifTrue:ifFalse:', 'ifFalse:ifTrue:', 'ifNil:ifNotNil:', 'ifNotNil:ifNil:'}
ONE = {'ifTrue:', 'ifFalse:', 'ifNil:', 'ifNotNil:'}


def falls(stmts, raising):
    """Can the statements be left at their end? (a resumed exception does not count)"""
    for s in stmts:
        if not falls_stmt(s, raising): return False
    return True


def falls_stmt(s, raising):
    if s is None: return True
    if s.k == 'return': return s.value is not None and s.value.k == 'var' and s.value.name == 'self'
    if s.k == 'assign': return falls_stmt(s.value, raising)
    if s.k == 'cascade':
        return not any(m[0] in raising for m in s.a.get('msgs', ()) if isinstance(m, (list, tuple)))
    if s.k == 'send':
        if s.sel in raising: return False
        if s.sel in ARMS and all(a.k == 'block' for a in s.args):
            return any(falls(a.body, raising) for a in s.args)
        if s.sel in ('ensure:', 'ifCurtailed:', 'value', 'valueWithoutPreemption') and s.rcv.k == 'block':
            return falls(s.rcv.body, raising)
    return True


def raising_selectors(methods):
    """Selectors all of whose implementations raise on every path."""
    impl = {}
    for c, m in methods: impl.setdefault(m.sel, []).append(m)
    cand = {s: ms for s, ms in impl.items() if s not in BASE}
    out = set(BASE)
    def raises(stmts):
        for s in stmts:
            v = s.value if s.k in ('return', 'assign') else s
            if v is None: continue
            if v.k == 'send' and v.sel in out: return True
            if v.k == 'send' and v.sel in ARMS and all(a.k == 'block' and raises(a.body) for a in v.args): return True
            if s.k == 'return': return False
            # a one-armed return before the end is a path of its own
            if v.k == 'send' and v.sel in ONE and any(x.k == 'return' for a in v.args for x in walk(a)) and not all(a.k == 'block' and raises(a.body) for a in v.args): return False
        return False
    while True:
        new = {s for s, ms in cand.items() if s not in out and all(m.primitive is None and m.body and raises(m.body) for m in ms)}
        if not new: return out
        out |= new


# the diagnosing methods of Object report or do not return an answer of their own
DIAGNOSE = {'checkIndexableBounds:', 'checkIndexableBounds:put:', 'primitiveFailed', 'checkIndex:from:', 'badReturnError', 'signal:with:'}
