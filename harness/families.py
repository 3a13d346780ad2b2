"""Scenario families: for every property, which kinds of scenarios its check runs and
which clauses of spec/Trace.tla decide it.

A family is a function of a generator; it leaves a program in gen.events.
"""
import copy
import json
import os

from gen import (BOS, COUNTS, ENCS, FLOATS, INTS, NONE, Bo, By, Err, Fl, Gen, I, Lst, NoValue, St, Tup, attr, isbasic,
                 ispad, own_attrs, subst, tvs)


def some(g, **w):
    """Weights: the given kinds more often (or, 0, never)."""
    g.w.update(w)


def scaled(g, f, *kinds):
    for k in kinds:
        g.w[k] *= f


# --- general programs ----------------------------------------------------------------------
def f_layout(g):
    if g.chance(.5):      # long runs of basic attributes
        g.nfields = (3, 9)
        g.clusters = .15
        some(g, num=12, pad=3, char=3, pascal=2, cust=2)
        scaled(g, .3, 'arr', 'tup', 'ref', 'lb', 'la', 'cond', 'uni', 'dchar', 'tchar', 'net', 'vint', 'u24', 'rel')
    else:
        g.depth = 3
    c = g.new_class()
    for _ in range(2):
        g.full(c, packs=g.r.choice([1, 1, 3]), unpacks=2)


def f_full(g):
    g.depth = g.r.choice([1, 2, 3])
    c = g.new_class()
    g.full(c)


def f_full_many(g):
    """Several values of one class."""
    c = g.new_class()
    for _ in range(4):
        g.full(c, packs=1, unpacks=g.r.choice([1, 2]))


def f_entry(g):
    """All entry points on good and bad input."""
    c = g.new_class()
    r = g.full(c)
    if r is None:
        return
    o, L = r
    final = g.isfinal(c)
    for _ in range(2):      # values that do not fit
        bad(g, c)
    try:
        t = g.new(c, g.obj(c))
    except NoValue:
        return
    if g.chance(.6):
        g.sweep(c, L, t, g.r.choice(['cut', 'cut', 'flip', 'insert']), 4, final, ways=6)


def bad(g, c, ways=3):
    try:
        v = g.obj(c)
    except NoValue:
        return
    if not v['f']:
        return
    w = g.spoil_obj(c, v)
    if w is None:
        return
    o = g.new(c, w)
    grp = g.uid('g')
    L = g.pack(o, g=grp)
    ops = ['into', 'write']
    g.r.shuffle(ops)
    for op in ops[:ways - 1]:
        if op == 'into':
            b = g.uid('b')
            g.emit('buf', id=b, kind=g.wbufkind(), b=[9] * max(400, len(json.dumps(w))))
            g.emit('packinto', o=o, buf=b, off=g.r.choice([0, 1, 4]), g=grp, noff=False)
        else:
            g.pack_write(o, g=grp)
    return o, L


def f_bad(g):
    g.depth = g.r.choice([1, 2, 2])
    g.nfields = (1, 4)
    g.finals = .06
    c = g.new_class()
    for _ in range(5):
        bad(g, c)
    g.lite(c)
    if g.chance(.5):
        small(g, c)


def small(g, c):
    """A buffer that is too small, by 1, some, or all bytes."""
    try:
        v = g.obj(c)
    except NoValue:
        return
    o = g.new(c, v)
    L = g.pack(o)
    for extra in (-1, g.r.choice([-2, -3, -5]), g.r.choice([0, 0, 1])):
        g.pack_into(o, L, extra=extra)


def f_small(g):
    c = g.new_class()
    for _ in range(3):
        small(g, c)


def f_backtoback(g):
    """Records one after another in one buffer and one file."""
    k = g.r.choice([2, 3, 4])
    cs = []
    g.finals = 0
    g.nfields = (1, 3)
    for i in range(k):
        if cs and g.chance(.4):
            cs.append(g.r.choice(cs))
        else:
            cs.append(g.new_class())
    if g.chance(.15):
        g.finals = 1
        cs[-1] = g.new_class()
    try:
        vs = [g.obj(c) for c in cs]
        ws = [g.obj(c) for c in cs]
    except NoValue:
        return
    os_ = [g.new(c, v) for c, v in zip(cs, vs)]
    Ls = [g.pack(o) for o in os_]
    off0 = g.r.choice([0, 0, 1, 5])
    b = g.uid('b')
    g.emit('buf', id=b, kind=g.wbufkind(), b=[g.r.randrange(1, 255) for _ in range(off0)] + g.junk(260),)
    order = list(range(k))
    if g.chance(.4):
        g.r.shuffle(order)
    for i in order:
        g.emit('packinto', o=os_[i], buf=b, off0=off0, off=0, offev=Ls[:i], g='', noff=False)
    g.finals = 0
    final = [g.isfinal(c) for c in cs]
    for i in order:
        if not final[i]:
            tgt = g.new(cs[i], ws[i]) if g.chance(.4) else None
            g.emit('unpackfrom', o=tgt or g.uid('o'), c='' if tgt else cs[i].n, buf=b, off0=off0, off=0,
                   offev=Ls[:i], g='', noff=False, **{'from': Ls[i]})
    f = g.uid('f')
    pre = g.junk(off0)
    tail = g.junk(g.r.choice([0, 0, 4, 90]))
    g.emit('file', id=f, kind=g.filekind(), b=pre + tail, p=len(pre))
    for o in os_:
        g.emit('packwrite', o=o, file=f, g='')
    if tail and final[-1]:
        return
    g.emit('seek', id=f, p=off0)
    for i in range(k):
        tgt = g.new(cs[i], ws[i]) if g.chance(.4) else None
        g.emit('unpackread', o=tgt or g.uid('o'), c='' if tgt else cs[i].n, file=f, g='', **{'from': Ls[i]})


def f_windows(g):
    """One record with different surroundings, by every entry point."""
    g.finals = .1
    c = g.new_class()
    try:
        v, w = g.obj(c), g.obj(c)
    except NoValue:
        return
    o = g.new(c, v)
    L = g.pack(o)
    t = g.new(c, w)
    grp = g.uid('g')
    final = g.isfinal(c)
    for _ in range(5):
        g.unpack(c, [{'ev': L}], new=g.chance(.6), target=t, final=final, g=grp, frm=L,
                 pre=g.junk(g.r.randrange(9)), post=g.r.choice([[], g.junk(3), [0] * 4, [255] * 9]))
    for _ in range(3):
        g.pack_into(o, L)
        g.pack_write(o)


def f_order(g):
    """One class in several byte orders, by declaration and by with_byte_order."""
    g.finals = .08
    if g.chance(.5):
        scaled(g, 2, 'arr', 'tup', 'dchar', 'uni', 'lb', 'la', 'cond')
    c = g.new_class(bo=g.r.choice(BOS))
    try:
        v, w = g.obj(c), g.obj(c)
    except NoValue:
        return
    o = g.new(c, v)
    L0 = g.pack(o)
    final = g.isfinal(c)
    for bo in g.r.sample(BOS, 2):
        if bo == c.bo:
            continue
        x = g.uid('o')
        g.emit('wbo', o=o, r=x, bo=bo)
        L = g.pack(x)
        g.pack_into(x, L)
        g.pack_write(x)
        # unpacks in its own order, in place
        w2 = g.new(c, w)
        y = g.uid('o')
        g.emit('wbo', o=w2, r=y, bo=bo)
        for way in g.WAYS:
            g.unpack(c, [{'ev': L}], way, False, y, final, g='', frm=L)
        # the same class declared with the other order
        own = [(f['n'], f['h']) for f in c.d['own']]
        d = g.define(g.uid('K'), copy.deepcopy(own), bo=bo)
        o2 = g.new(d, v)
        g.pack(o2)
        g.unpack(d, [{'ev': L}], None, True, None, final)
        # changed back
        z = g.uid('o')
        g.emit('wbo', o=x, r=z, bo=c.bo)
        g.pack(z)
    g.pack(o)
    g.unpack(c, [{'ev': L0}], None, True, None, final, frm=L0)


def f_subst_order(g):
    """Arrays, tuples, unions in different orders next to nested classes of other orders."""
    g.depth = 3
    c = g.new_class(bo=g.r.choice(['<', '>', '!', '=', '@', '']))
    g.full(c, packs=2, unpacks=3)


def f_truncate(g):
    g.finals = .1
    g.nfields = (1, 4)
    g.depth = g.r.choice([1, 2, 2])
    c = g.new_class()
    try:
        v, w = g.obj(c), g.obj(c)
    except NoValue:
        return
    o = g.new(c, v)
    L = g.pack(o)
    t = g.new(c, w)
    final = g.isfinal(c)
    g.sweep(c, L, t, 'cut', 14, final, ways=3)


def f_corrupt(g):
    g.nfields = (1, 4)
    scaled(g, 2, 'arr', 'uni', 'tchar', 'dchar', 'net', 'lb', 'la')
    c = g.new_class()
    try:
        v, w = g.obj(c), g.obj(c)
    except NoValue:
        return
    o = g.new(c, v)
    L = g.pack(o)
    t = g.new(c, w)
    final = g.isfinal(c)
    g.sweep(c, L, t, g.r.choice(['flip', 'flip', 'insert']), 10, final, ways=3)


# --- unions ------------------------------------------------------------------------------------
def holders(g, make):
    """A class using an interesting type directly, or in arrays, tuples, nested, recursive."""
    own = []
    for _ in range(g.r.choice([1, 1, 2])):
        n = g.attr_name([n for n, _ in own])
        own.append((n, g.key_field() if g.chance(.6) else g.basic(pads=False)))
    n = g.attr_name([n for n, _ in own])
    where = g.r.choice(['direct', 'direct', 'arr', 'arr', 'tup', 'nested', 'arrnested', 'self', 'arrtup'])
    prev = own_attrs(own)
    g.cur_bo = bo = g.bo()
    if where == 'direct':
        own.append((n, make(prev, n)))
    elif where == 'arr':
        own.append((n, g.arr(1, prev, None, item=make(prev, None))))
    elif where == 'tup':
        own.append((n, {'k': 'tup', 'e': g.r.sample([make(prev, None), g.basic(), make(prev, None)], 3)}))
    elif where == 'arrtup':
        own.append((n, g.arr(1, prev, None, item={'k': 'tup', 'e': [g.basic(), make(prev, None)]})))
    elif where in ('nested', 'arrnested'):
        fs = [('k', g.key_field())]
        fs.append(('u', make(own_attrs(fs), 'u')))
        c = g.define(g.uid('K'), fs, bo=bo if g.chance(.7) else g.bo())
        ref = {'k': 'ref', 'n': c.n}
        own.append((n, ref if where == 'nested' else g.arr(1, prev, None, item=ref)))
    else:      # recursive: the decision belongs to the node
        own.append((n, make(prev, n)))
        own.append(('kids', {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': {'k': 'self'}}))
        if g.chance(.6):
            m = g.attr_name([n for n, _ in own])
            own.append((m, make(own_attrs(own), m)))
    for _ in range(g.r.choice([0, 0, 1, 2])):
        m = g.attr_name([n for n, _ in own])
        own.append((m, g.type(1, own_attrs(own), m)))
    return g.define(g.uid('K'), own, bo=bo)


def morph(g, c):
    """One object given the values of others, attribute by attribute, and packed in between."""
    try:
        v, w = g.obj(c), g.obj(c)
    except NoValue:
        return
    o = g.new(c, v)
    L = g.pack(o)
    fs = list(w['f'])
    if g.chance(.3):
        g.r.shuffle(fs)
    for f in fs:
        g.emit('set', o=o, n=f['n'], v=f['v'])
        if g.chance(.3):
            g.pack(o)
    M = g.pack(o)
    if g.chance(.5):
        g.pack_into(o, M)
    final = g.isfinal(c)
    g.unpack(c, [{'ev': M}], final=final, frm=M)
    if g.chance(.5):      # and back, by unpacking
        g.unpack(c, [{'ev': L}], None, False, o, final, frm=L)
        g.pack(o, frm=L)


def use(g, c, k=2, bads=1, sweep=.25, packs=3, unpacks=4):
    L = None
    for _ in range(k):
        x = g.full(c, packs=packs, unpacks=unpacks)
        L = x or L
    if g.chance(.5):
        morph(g, c)
    for _ in range(bads):
        bad(g, c)
    if L and g.chance(sweep):
        try:
            t = g.new(c, g.obj(c))
        except NoValue:
            return
        g.sweep(c, L[1], t, g.r.choice(['flip', 'cut', 'insert']), 6, g.isfinal(c), ways=2)


def f_union(g):
    g.selfdepth = 2
    c = holders(g, lambda prev, n: g.lb(2, prev, n) if g.chance(.55) else g.la(2, prev, n))
    use(g, c)


def f_cond(g):
    g.selfdepth = 2

    def make(prev, n):
        if n is not None or g.chance(.7):
            t = g.cond(2, prev, n)
            while n is None and ispad(t):
                t = g.cond(2, prev, n)
            return t
        return g.type(1, prev, n, items=True)
    c = holders(g, make)
    use(g, c)


def f_conds(g):
    """Many conditions next to each other."""
    own = [(n, g.key_field()) for n in ('a', 'b')]
    for i in range(g.r.randint(2, 6)):
        n = f'z{i}'
        t = g.cond(2, own_attrs(own), n) if g.chance(.75) else g.type(1, own_attrs(own), n)
        own.append(('_' if ispad(t) and g.chance(.8) else n, t))
    if g.chance(.12):
        n = 'rest'
        own.append((n, {'k': 'cond', 't': g.final(1, own_attrs(own)), 'd': g.boolean(own_attrs(own)),
                        'dv': [NONE], 'lbl': g.lbl()}))
    c = g.define(g.uid('K'), own, bo=g.bo())
    use(g, c, k=3, unpacks=3)


# --- class definitions ---------------------------------------------------------------------------
def flat_type(g, prev, n):
    return g.type(1, prev, n)


def f_inherit(g):
    g.nfields = (1, 4)
    g.depth = 1
    g.finals = .05
    scaled(g, .4, 'la', 'lb', 'ref')
    c = g.new_class()
    chain = [c]
    g.lite(c)
    for _ in range(g.r.choice([1, 2, 3])):
        base = g.r.choice(chain)
        own = []
        names = [n for n, h in base.hints if n != '#pad']
        for n in names:
            x = g.r.random()
            if x < .2:
                own.append((n, flat_type(g, [], n)))
            elif x < .3:
                own.append((n, {'k': 'nil'}))
            elif x < .38:
                own.append((n, {'k': 'plain'}))
            elif x < .42:
                own.append((n, {'k': 'cvar'}))
        for _ in range(g.r.choice([0, 1, 1, 2])):
            n = g.attr_name(names + [n for n, _ in own])
            t = flat_type(g, own_attrs(own), n)
            if g.chance(.1):
                t = {'k': g.r.choice(['plain', 'cvar', 'nil'])}
            own.append(('_' if ispad(t) and g.chance(.8) else n, t))
        if g.chance(.3):
            own.append(('_', {'k': 'pad', 'n': g.r.choice([1, 2, 3])}))
        if g.chance(.06):
            own.append(('_', {'k': 'num', 'f': 'uint8'}))
        g.r.shuffle(own)
        # several pads may be called _, anything else only once
        mode = 'strict'
        bo = base.bo
        if g.chance(.3):
            bo = g.r.choice(BOS)
            mode = g.r.choice(['strict', 'override', 'override'])
        elif g.chance(.1):
            mode = 'override'
        extra = {}
        bases = [(base.n, [])]
        if g.chance(.06) and len(chain) > 1:
            bases = [(x.n, []) for x in g.r.sample(chain, 2)]
        if g.chance(.15):
            extra['init'] = False
        d = g.define(g.uid('K'), own, bases=bases, bo=bo, mode=mode, **extra)
        if len(bases) == 1 and not (mode == 'strict' and bo != base.bo):
            chain.append(d)
        else:
            del g.classes[d.n]
        g.lite(d) if d.n in g.classes else None
        if g.chance(.5):
            g.lite(g.r.choice(chain))
    d = g.r.choice(chain)
    g.full(d, packs=2, unpacks=3)
    # class and subclass as attributes
    if g.chance(.4):
        ok = [x for x in chain if x.attrs and not g.isfinal(x)]
        if len(ok) > 1:
            own = [(n, {'k': 'ref', 'n': x.n}) for n, x in zip('pq', g.r.sample(ok, 2))]
            g.lite(g.define(g.uid('K'), own, bo=g.bo()))


def generic_hint(g, tv, kind):
    """A hint using the type variable; kind: what it may be replaced by."""
    r = g.r
    T = {'k': 'tv', 'n': tv}
    any_ = [
        lambda: T, lambda: T,
        lambda: {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': r.choice(['', 'uint32']), 't': T},
        lambda: {'k': 'arr', 'cf': '', 'n': r.choice([1, 2, 3]), 'sf': r.choice(['', '', 'uint16']), 't': T},
        lambda: {'k': 'tup', 'e': r.sample([T, {'k': 'num', 'f': 'uint16'}], 2)},
        lambda: {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': {'k': 'tup', 'e': [T, {'k': 'num', 'f': 'int8'}]}},
        lambda: {'k': 'tup', 'e': [{'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': T}, T]},
        lambda: {'k': 'arr', 'cf': '', 'n': 2, 'sf': '', 't': {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': T}},
    ]
    fmt = [
        lambda: {'k': 'dchar', 'f': tv},
        lambda: {'k': 'uni', 't': {'k': 'dchar', 'f': tv}, 'enc': r.choice(ENCS)},
        lambda: {'k': 'arr', 'cf': tv, 'n': -1, 'sf': '', 't': {'k': 'num', 'f': r.choice(list(INTS))}},
        lambda: {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': tv, 't': {'k': 'num', 'f': 'uint16'}},
        lambda: {'k': 'arr', 'cf': tv, 'n': -1, 'sf': tv, 't': {'k': 'dchar', 'f': 'uint8'}},
        lambda: {'k': 'arr', 'cf': '', 'n': 2, 'sf': tv, 't': {'k': 'num', 'f': 'int32'}},
        lambda: {'k': 'tup', 'e': [{'k': 'dchar', 'f': tv}, {'k': 'num', 'f': 'uint8'}]},
        lambda: {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': {'k': 'dchar', 'f': tv}},
        lambda: {'k': 'arr', 'cf': tv, 'n': -1, 'sf': '', 't': {'k': 'num', 'f': r.choice(list(INTS) + list(FLOATS))}},
    ]
    if kind == 'net':
        h = r.choice([fmt[0], fmt[6], fmt[7]])()
    else:
        h = r.choice(any_ + (fmt * 2 if kind == 'fmt' else []))()
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):      # deeper, the variable at several levels
        side = {'k': 'num', 'f': 'uint16'} if kind == 'net' else r.choice([T, T, {'k': 'num', 'f': 'uint16'}, {'k': 'tup', 'e': [T, T]}])
        h = r.choice([lambda: {'k': 'tup', 'e': r.sample([h, side], 2)}, lambda: {'k': 'tup', 'e': r.sample([{'k': 'tup', 'e': [h]}, side], 2)},
                      lambda: {'k': 'arr', 'cf': '', 'n': 1, 'sf': '', 't': {'k': 'tup', 'e': r.sample([h, side], 2)}}])()
    return h


def generic_arg(g, kind, depth=0):
    r = g.r
    if kind == 'net':
        return r.choice([{'k': 'netm', 'z': 0}, {'k': 'num', 'f': 'uint8'}])
    if kind == 'fmt':
        return {'k': 'num', 'f': r.choice(['uint8', 'uint16', 'uint32', 'uint8'])}
    x = r.random()
    if x < .5:
        return {'k': 'num', 'f': r.choice(list(INTS) + list(FLOATS))}
    if x < .65:
        return g.string(('char', 'dchar', 'tchar', 'net'))
    if x < .75:
        return g.uni()
    if x < .85:
        return g.cust()
    if x < .93:
        return {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': {'k': 'num', 'f': 'uint16'}}
    ok = [c for c in g.classes.values() if not c.params and not any(tvs(h) for _, h in c.hints) and c.attrs
          and not has_inst(g, c)]
    return {'k': 'ref', 'n': r.choice(ok).n} if ok else {'k': 'num', 'f': 'uint8'}


def has_inst(g, c):
    def f(h):
        if h['k'] == 'inst':
            return True
        if h['k'] == 'ref':
            return has_inst(g, g.classes[h['n']])
        return any(f(x) for x in ([h['t']] if isinstance(h.get('t'), dict) else []) + h.get('e', []))
    return any(f(h) for _, h in c.fs)


def make_generic(g, inner=()):
    """A generic class; its parameters and the kinds of arguments they take."""
    r = g.r
    params = r.sample(['T', 'U', 'V'], r.choice([1, 2, 2, 3]))
    kinds = {p: r.choice(['any', 'any', 'fmt', 'net']) for p in params}
    own = []
    todo = list(params)
    for i in range(r.choice([0, 1, 2])):
        todo.append(r.choice(params))
    r.shuffle(todo)
    for p in todo:
        n = g.attr_name([n for n, _ in own])
        if inner and g.chance(.35):
            c, ps, ks = r.choice(inner)
            args = []
            for q in ps:
                same = [x for x in params if kinds[x] == ks[q]]
                args.append({'k': 'tv', 'n': r.choice(same)} if same and g.chance(.75) else generic_arg(g, ks[q]))
            h = {'k': 'inst', 'n': c.n, 'a': args}
            if g.chance(.25):
                h = {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': h}
            elif g.chance(.15):
                h = {'k': 'tup', 'e': [h, {'k': 'num', 'f': 'uint8'}]}
        else:
            h = generic_hint(g, p, kinds[p])
        own.append((n, h))
        if g.chance(.3):
            own.append((g.attr_name([n for n, _ in own]), g.basic()))
        if g.chance(.1):
            own.append(('_', {'k': 'pad', 'n': 2}))
    # every parameter must be used, or Python refuses nothing but it would be dull
    c = g.define(g.uid('G'), own, gp=params, bo=g.bo(), generic=True, gfirst=g.chance(.5))
    return c, params, kinds


def specialize(g, c, params, kinds, own=()):
    """A subclass with all parameters replaced, in one or several steps."""
    r = g.r
    steps = 0
    while True:
        left = list(params)
        if len(left) > 1 and steps < 2 and g.chance(.4):
            # some now, the others renamed or kept
            free = r.sample(['T', 'U', 'V', 'W'], len(left))
            args, nps, nks = [], [], {}
            for p, f in zip(left, free):
                if g.chance(.5):
                    args.append(generic_arg(g, kinds[p]))
                else:
                    args.append({'k': 'tv', 'n': f})
                    nps.append(f)
                    nks[f] = kinds[p]
            if not nps:
                continue
            gp = list(nps)
            if g.chance(.4):
                r.shuffle(gp)
            extra = [(g.attr_name([n for n, _ in c.hints]), generic_hint(g, nps[0], nks[nps[0]]))] if g.chance(.3) else []
            # without Generic[...] of its own, the parameters are those left over
            give = g.chance(.5)
            c = g.define(g.uid('G'), extra, bases=[(c.n, args)], gp=gp if give else [], bo=c.bo, generic=True,
                         gfirst=g.chance(.5))
            params, kinds = list(c.params), nks
            steps += 1
            continue
        args = [generic_arg(g, kinds[p]) for p in params]
        return g.define(g.uid('S'), list(own), bases=[(c.n, args)], bo=c.bo)


def handify(g, h):
    """The hint with implicit specializations written as classes of their own."""
    h = dict(h)
    if h['k'] == 'inst':
        c = g.classes[h['n']]
        m = dict(zip(c.params, h['a']))
        return {'k': 'ref', 'n': hand(g, [(n, subst(x, m)) for n, x in c.hints], c.bo).n}
    if h['k'] == 'ref' and has_inst(g, g.classes[h['n']]):
        c = g.classes[h['n']]
        return {'k': 'ref', 'n': hand(g, c.hints, c.bo).n}
    if h['k'] in ('arr', 'cond', 'uni', 'cust'):
        h['t'] = handify(g, h['t'])
    if h['k'] == 'tup':
        h['e'] = [handify(g, x) for x in h['e']]
    return h


def hand(g, hints, bo):
    own = [('_' if n == '#pad' else n, handify(g, h)) for n, h in hints]
    return g.define(g.uid('H'), own, bo=bo)


def same_as_hand(g, c):
    h = hand(g, c.hints, c.bo)
    plain = not has_inst(g, c)
    for _ in range(2):
        try:
            v = g.obj(h)
        except NoValue:
            return
        g1, g2 = g.uid('g'), g.uid('g')
        o = g.new(h, v)
        L = g.pack(o, g=g1)
        if plain:
            v2 = copy.deepcopy(v)
            x = g.new(c, v2)
            g.pack(x, g=g1)
        fin = g.isfinal(h)
        y = g.unpack(c, [{'ev': L}], None, True, None, fin)
        L2 = g.pack(y)
        g.pack_into(y, L2)
        g.unpack(h, [{'ev': L}], None, True, None, fin, g=g2)
        if plain:
            g.unpack(c, [{'ev': L}], None, True, None, fin, g=g2)
        g.unpack(c, [{'ev': L}], None, False, y, fin)
        if g.chance(.3):
            g.sweep(c, L, y, g.r.choice(['cut', 'flip']), 3, fin, ways=2)


def f_generic(g):
    scaled(g, .5, 'cond', 'lb', 'la')
    gens = []
    if g.chance(.5):
        g.new_class(bo=g.bo())      # may serve as argument
    gens.append(make_generic(g))
    if g.chance(.5):
        gens.append(make_generic(g, gens))
    todo = []
    for c, ps, ks in gens:
        for _ in range(g.r.choice([1, 1, 2])):
            own = []
            if g.chance(.25):
                names = [n for n, _ in c.hints if n != '#pad']
                own.append((g.r.choice(names), g.basic()) if g.chance(.6) and names
                           else (g.attr_name(names), g.basic()))
            todo.append(specialize(g, c, ps, ks, own))
    if g.chance(.5):      # as attribute of an ordinary class
        c, ps, ks = g.r.choice(gens)
        own = [('a', g.basic())]
        for n in g.r.sample(['p', 'q'], g.r.choice([1, 2])):
            h = {'k': 'inst', 'n': c.n, 'a': [generic_arg(g, ks[p]) for p in ps]}
            own.append((n, h))
            if g.chance(.4):
                own.append((n + 's', {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': h}))
        todo.append(g.define(g.uid('K'), own, bo=g.bo()))
    g.r.shuffle(todo)
    for c in todo[:3]:
        same_as_hand(g, c)
    # the generic class itself: only what has no type variables
    c = g.r.choice(gens)[0]
    if not has_inst(g, c) and g.chance(.7):
        g.lite(c)


def f_final(g):
    g.depth = 2
    r = g.r
    own = []
    for i in range(r.randint(1, 4)):
        n = f'z{i}'
        prev = own_attrs(own)
        x = r.random()
        if x < .25:
            t = g.final(2, prev)
            if g.chance(.2):
                t = {'k': 'cond', 't': t, 'd': g.boolean(prev), 'dv': [NONE], 'lbl': g.lbl()}
        elif x < .33:
            t = {'k': 'arr', 'cf': r.choice(['uint8', '']), 'n': 1, 'sf': '', 't': g.final(1, prev)}
            if t['cf']:
                t['n'] = -1
        elif x < .4:
            t = {'k': 'tup', 'e': r.sample([g.final(1, prev), g.basic()], 2)}
        elif x < .47:
            t = {'k': 'la', 'r': {'k': 'num', 'f': 'uint8', 'vals': [I(1), I(2)]}, 'd': attr(n), 'm': [], 'df': [],
                 'lbl': g.lbl(), 'vals': [I(1), I(2)], 'style': 'tup', 'own': True}
            t['d'] = {'x': 'at', 'a': attr(n), 'i': 0}
            a = {'k': 'tup', 'e': [t['r'], g.final(0, prev)]}
            b = {'k': 'tup', 'e': [t['r'], g.basic()]}
            t['m'] = [{'key': I(1), 't': a}, {'key': I(2), 't': b}] if g.chance(.6) else [{'key': I(1), 't': b}]
            t['df'] = [a] if g.chance(.4) else []
        else:
            t = g.type(1, prev, n)
        own.append(('_' if ispad(t) else n, t))
    if g.chance(.3):
        own.append(('_', {'k': 'pad', 'n': 2}))
    c = g.define(g.uid('K'), own, bo=g.bo())
    for _ in range(2):
        x = g.lite(c)
    if x:
        # all of the rest, whatever it is
        fin = g.isfinal(c)
        for way in g.WAYS:
            g.unpack(c, [{'ev': x[1]}, {'lit': g.junk(g.r.choice([0, 1, 40, 700]))}], way, True, None, fin)
    if g.chance(.5):
        own2 = []
        if g.chance(.4):
            own2.append((r.choice([n for n, _ in own]), r.choice([{'k': 'nil'}, g.basic(), g.final(1, [])])))
        own2.append(('last', r.choice([g.basic(), g.final(1, []), {'k': 'plain'}])))
        d = g.define(g.uid('K'), own2, bases=[(c.n, [])], bo=c.bo)
        g.lite(d)
    if g.chance(.3) and c.attrs:
        own3 = [('p', {'k': 'ref', 'n': c.n}), ('q', g.basic())]
        if g.chance(.5):
            own3.reverse()
        if g.chance(.3):
            own3[[n for n, _ in own3].index('p')] = ('p', {'k': 'arr', 'cf': '', 'n': 1, 'sf': '', 't': {'k': 'ref', 'n': c.n}})
        g.lite(g.define(g.uid('K'), own3, bo=g.bo()))


# --- histories --------------------------------------------------------------------------------------
def f_history(g, steps=(14, 34)):
    """Random walk over objects of classes that share hints; some operations fail."""
    r = g.r
    g.nfields = (1, 3)
    g.finals = .05
    g.selfdepth = 2
    pool = []
    for _ in range(r.choice([2, 3])):
        pool.append(g.type(2, [], None, items=True))
    for t in pool:
        t['share'] = True
    classes = []
    bo = g.bo()
    for _ in range(r.choice([2, 3])):
        own = []
        for t in r.sample(pool, r.choice([1, min(2, len(pool))])):
            own.append((g.attr_name([n for n, _ in own]), copy.deepcopy(t)))
        if g.chance(.4):
            n = g.attr_name([n for n, _ in own])
            own.append((n, g.lb(1, own_attrs(own), n) if g.chance(.5) else g.cond(1, own_attrs(own), n)))
        if g.chance(.3):
            own.append(('kids', {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': {'k': 'self'}}))
        r.shuffle(own)
        own = reorder(own)
        classes.append(g.define(g.uid('K'), own, bo=bo if g.chance(.6) else g.bo()))
    objs, recs = [], []

    def fresh(c=None):
        c = c or r.choice(classes)
        try:
            v = g.obj(c)
        except NoValue:
            return
        objs.append((g.new(c, v), c, v))
    for c in classes:
        fresh(c)
    frozen, orders = set(), {}
    for _ in range(r.randint(*steps)):
        if not objs:
            return
        o, c, v = r.choice(objs)
        x = r.random()
        if x < .08:
            fresh()
        elif x < .18:
            fs = [n for n, _ in c.attrs]
            if fs and o not in frozen:
                try:
                    w = g.obj(c)
                except NoValue:
                    continue
                i = r.randrange(len(fs))
                g.emit('set', o=o, n=fs[i], v=w['f'][i]['v'])
        elif x < .26:
            ls = [(n, t) for n, t in c.attrs if t['k'] == 'arr' and t['cf']]
            if ls and o not in frozen:
                n, t = r.choice(ls)
                try:
                    w = g.val(t['t'], v['f'], c, 1)
                except (NoValue, Err):
                    continue
                g.emit('grow', o=o, n=n, v=w)
        elif x < .42:
            recs.append((g.pack(o), c))
        elif x < .48 and recs:
            L, d = r.choice(recs)
            g.pack_into(o, L, extra=r.choice([0, 3, 40]))
        elif x < .53:
            g.pack_write(o)
        elif x < .6:
            bad(g, c, ways=1)
        elif x < .76 and recs:
            L, d = r.choice(recs)
            new = g.chance(.5)
            if not new:
                cand = [p for p in objs if p[1] is d]
                if not cand:
                    continue
                tgt = r.choice(cand)[0]
            else:
                tgt = None
            y = g.unpack(d, [{'ev': L}], None, new, tgt, g.isfinal(d))
            if new:
                objs.append((y, d, v if d is c else {'f': []}))
            if g.chance(.3):
                poke(g)
        elif x < .86 and recs:      # fails half-way
            L, d = r.choice(recs)
            y = g.uid('o')
            b = g.uid('b')
            way = r.choice(g.WAYS)
            tgt = [p[0] for p in objs if p[1] is d]
            new = g.chance(.5) or not tgt
            if way == 'unpackread':
                g.emit('file', id=b, kind='mem', b=[], src=[{'ev': L}], cut=r.randrange(100), p=0)
                g.emit('unpackread', o=y if new else r.choice(tgt), c=d.n if new else '', file=b, g='')
            else:
                g.emit('buf', id=b, kind=g.bufkind(), b=[], src=[{'ev': L}], cut=r.randrange(100))
                g.emit('unpackfrom', o=y if new else r.choice(tgt), c=d.n if new else '', buf=b, off=0, g='', noff=False)
        elif x < .92 and len(objs) > 1:
            p = r.choice([p for p in objs])
            g.emit('eq', a=o, b=p[0])
        elif x < .97:
            y = g.uid('o')
            nbo = r.choice([b for b in BOS if b != orders.get(o, c.bo)])
            g.emit('wbo', o=o, r=y, bo=nbo)
            orders[y] = nbo
            frozen.update([o, y])
            objs.append((y, c, v))
        else:
            g.emit('define', c=dict(copy.deepcopy(c.d), n=g.uid('K'), bases=[{'n': c.n, 'a': []}],
                                    own=[{'n': 'more', 'h': g.basic()}]))
            g.names.add('more')
    for o, c, v in objs[:3]:
        g.pack(o)


def reorder(own):
    """Attributes other attributes decide on come before them: keep only what is possible."""
    def deps(x):
        if isinstance(x, dict):
            out = [x['n']] if x.get('x') == 'attr' else []
            for y in x.values():
                out += deps(y)
            return out
        if isinstance(x, list):
            return [z for y in x for z in deps(y)]
        return []
    out = []
    left = list(own)
    while left:
        for p in left:
            need = [d for d in deps(p[1]) if d != p[0] and any(q[0] == d for q in own)]
            if all(any(q[0] == d for q in out) for d in need):
                out.append(p)
                left.remove(p)
                break
        else:
            return out + left
    return out


def poke(g):
    bufs = [e['id'] for e in g.events if e['op'] == 'buf' and e['kind'] in ('bytearray', 'mv', 'arr', 'mmap')]
    if bufs:
        g.emit('poke', id=bufs[-1], off=g.r.randrange(4), x=g.r.randrange(256))


def f_alias(g):
    """Objects keep their values when what they came from is changed, and when others change."""
    r = g.r
    scaled(g, 2, 'arr', 'char', 'dchar', 'ref', 'tup')
    g.finals = .3
    c = g.new_class()
    try:
        v, w = g.obj(c), g.obj(c)
    except NoValue:
        return
    final = g.isfinal(c)
    o = g.new(c, v)
    L = g.pack(o)
    b = g.uid('b')
    g.emit('buf', id=b, kind=g.wbufkind(), b=[], src=[{'ev': L}])
    os_ = []
    t = g.new(c, w)
    for _ in range(3):
        new = g.chance(.7)
        x = g.uid('o') if new else t
        g.emit(r.choice(['unpack', 'unpackfrom']), o=x, c=c.n if new else '', buf=b, off=0, g='', noff=False)
        os_.append(x)
    for i in range(4):
        g.emit('poke', id=b, off=r.randrange(12), x=r.randrange(256))
    ls = [(n, h) for n, h in c.attrs if h['k'] == 'arr']
    for n, h in ls:
        try:
            y = g.val(h['t'], v['f'], c, 1)
        except (NoValue, Err):
            continue
        g.emit('grow', o=r.choice(os_), n=n, v=y)
    for n, h in c.attrs[:2]:
        try:
            g.emit('set', o=r.choice(os_), n=n, v=g.val(h, v['f'], c, 0, own=n))
        except (NoValue, Err):
            pass
    b2 = g.pack_into(o, L)
    g.emit('set', o=o, n=c.attrs[0][0], v=v['f'][0]['v']) if c.attrs else None
    for x in set(os_):
        g.pack(x)
    g.pack(o)


# --- recursion ------------------------------------------------------------------------------------------
def self_field(g, own):
    """An attribute through which the class contains itself; None if unlucky."""
    r = g.r
    S = {'k': 'self'}
    prev = own_attrs(own)
    A = lambda t, sf='': {'k': 'arr', 'cf': r.choice(['uint8', 'uint8', 'uint16']), 'n': -1, 'sf': r.choice(['', '', 'uint16', 'uint32']), 't': t}
    x = r.random()
    if x < .3:
        return A(S)
    if x < .42:
        return A({'k': 'tup', 'e': r.sample([S, g.basic(), S], r.choice([2, 3]))})
    if x < .5:
        return {'k': 'tup', 'e': r.sample([A(S), g.basic()], 2)}
    if x < .75:
        t = r.choice([S, S, {'k': 'tup', 'e': r.sample([S, g.basic()], 2)}, {'k': 'arr', 'cf': '', 'n': r.choice([1, 2]), 'sf': r.choice(['', 'uint16']), 't': S}])
        return {'k': 'cond', 't': t, 'd': g.boolean(prev), 'dv': [NONE], 'lbl': g.lbl()}
    # union: something or itself
    d, keys = g.keyed(prev)
    alts = [g.basic(), r.choice([S, S, A(S), {'k': 'tup', 'e': [S, g.basic()]}])]
    r.shuffle(alts)
    t = {'k': 'lb', 'd': d, 'm': [{'key': k, 't': a} for k, a in zip(keys, alts)], 'df': [g.basic()] if g.chance(.4) or len(keys) < 2 else [],
         'lbl': g.lbl()}
    if g.chance(.3):
        t = A(t)
    return t


def f_self(g):
    r = g.r
    g.depth = 1
    g.selfdepth = r.choice([2, 3, 4])
    g.maxitems = 2
    own = [('k', g.key_field())] if g.chance(.8) else []
    for i in range(r.choice([0, 1, 1, 2])):
        n = g.attr_name([n for n, _ in own])
        t = g.type(1, own_attrs(own), n)
        own.append(('_' if ispad(t) else n, t))
    n = g.attr_name([n for n, _ in own])
    own.append((n, self_field(g, own)))
    for i in range(r.choice([0, 1, 1, 2])):
        n = g.attr_name([n for n, _ in own])
        x = r.random()
        t = self_field(g, own) if x < .25 else g.lb(1, own_attrs(own), n) if x < .45 else g.cond(1, own_attrs(own), n) if x < .6 else g.type(1, own_attrs(own), n)
        own.append(('_' if ispad(t) else n, t))
    c = g.define(g.uid('K'), own, bo=g.bo())
    todo = [c]
    if g.chance(.5):
        extra = [(g.attr_name([n for n, _ in own]), g.type(1, [], None, items=True))]
        if g.chance(.3) and own:
            m, h = r.choice(own)
            if m != '_' and h['k'] in ('num', 'char', 'pascal') and not h.get('vals'):
                extra.append((m, g.basic()))
        todo.append(g.define(g.uid('K'), extra, bases=[(c.n, [])], bo=c.bo))
    r.shuffle(todo)
    for c in todo:
        x = g.full(c, packs=3, unpacks=4)
        bad(g, c)
        g.lite(c)
    if x and g.chance(.3):
        try:
            t = g.new(c, g.obj(c))
        except NoValue:
            return
        g.sweep(c, x[1], t, g.r.choice(['cut', 'flip']), 6, g.isfinal(c), ways=2)


# --- construction, comparison, text ---------------------------------------------------------------------
def has_nan(v):
    if isinstance(v, dict):
        if v.get('k') == 'flt':
            return v['d'][0] % 128 == 127 and v['d'][1] >= 240
        return any(map(has_nan, v.values()))
    if isinstance(v, list):
        return any(map(has_nan, v))
    return False


def f_objects(g):
    r = g.r
    g.finals = .1
    g.nfields = (0, 6)
    c = g.new_class(init=g.chance(.85))
    own = [(f['n'], f['h']) for f in c.d['own']]
    twin = g.define(g.uid('K'), copy.deepcopy(own), bo=c.bo)
    sub = g.define(g.uid('K'), [] if g.chance(.5) else [(g.attr_name([n for n, _ in own]), g.basic())],
                   bases=[(c.n, [])], bo=c.bo) if not g.isfinal(c) else c
    objs = []
    try:
        v, w = g.obj(c), g.obj(c)
        sv = g.obj(sub)
    except NoValue:
        return
    if has_nan(v) or has_nan(w) or has_nan(sv):
        return
    # one attribute differs
    u = copy.deepcopy(v)
    if u['f']:
        i = r.randrange(len(u['f']))
        u['f'][i]['v'] = w['f'][i]['v']
    objs = [g.new(c, v, kw=False), g.new(c, v, kw=True), g.new(c, w), g.new(c, u), g.new(twin, v), g.new(sub, sv)]
    # by name in another order
    if len(v['f']) > 1:
        f = list(v['f'])
        r.shuffle(f)
        o = g.uid('o')
        g.emit('new', o=o, c=c.n, a=[x['v'] for x in v['f']], kw=[x['n'] for x in v['f']], perm=[x['n'] for x in f])
        objs.append(o)
        # the first by position, the others by name
        k = r.randint(1, len(f) - 1)
        f = list(v['f'])[k:]
        r.shuffle(f)
        o = g.uid('o')
        g.emit('new', o=o, c=c.n, a=[x['v'] for x in v['f']], kw=[x['n'] for x in v['f'][k:]], perm=[x['n'] for x in f])
        objs.append(o)
    # wrong number of values
    if c.attrs:
        a = [x['v'] for x in v['f']]
        g.emit('new', o=g.uid('o'), c=c.n, a=a[:-1])
        g.emit('new', o=g.uid('o'), c=c.n, a=a + [I(1)])
        if g.chance(.5):
            g.emit('new', o=g.uid('o'), c=c.n, a=a[:-1], kw=[x['n'] for x in v['f']][:-1])
    if g.chance(.4):      # attributes which are not serialized
        for o in r.sample(objs, r.choice([1, 2, 2])):
            g.emit('mark', o=o, n=r.choice(['note', 'note', 'tag_', '_hidden']), v=I(r.randint(0, 2)))
    L = g.pack(objs[0])
    objs.append(g.unpack(c, [{'ev': L}], None, True, None, g.isfinal(c)))
    objs.append(g.unpack(c, [{'ev': L}], None, True, None, g.isfinal(c)))
    for _ in range(7):
        a, b = r.choice(objs), r.choice(objs)
        g.emit('eq', a=a, b=b)
    g.emit('eq', a=objs[0], b=objs[1])
    g.emit('eq', a=objs[0], b=objs[3])
    for o in r.sample(objs, 4):
        g.emit('text', o=o)
    if c.attrs:
        n, h = r.choice(c.attrs)
        try:
            g.emit('set', o=objs[1], n=n, v=g.val(h, v['f'], c, 0, own=n), redo=g.chance(.4))
            g.emit('eq', a=objs[0], b=objs[1])
            g.emit('text', o=objs[1])
            if g.chance(.3):
                g.emit('mark', o=objs[1], n='note', v=I(7))
                g.emit('text', o=objs[1])
        except (NoValue, Err):
            pass


def f_cust(g):
    r = g.r
    some(g, cust=12, num=4, pad=1.5)
    scaled(g, .5, 'uni', 'dchar', 'tchar', 'net', 'vint', 'u24')
    g.nfields = (1, 6)
    g.finals = .03
    c = g.new_class()
    if g.chance(.25):
        own = [(g.attr_name([n for n, _ in c.hints]), g.cust()), (g.attr_name([n for n, _ in c.hints] + ['a']), g.basic())]
        if own[0][0] != own[1][0] and not g.isfinal(c):
            c = g.define(g.uid('K'), own, bases=[(c.n, [])], bo=c.bo)
    for _ in range(2):
        x = g.full(c, packs=2, unpacks=5)
    if x and g.chance(.3):
        y = g.uid('o')
        g.emit('wbo', o=x[0], r=y, bo=r.choice([b for b in BOS if b != c.bo]))
        L = g.pack(y)
        g.unpack(c, [{'ev': L}], None, False, y, g.isfinal(c))


# --- serializers on their own --------------------------------------------------------------------------------
def ser_part(g, bo):
    """(types, how) of one serializer."""
    r = g.r
    x = r.random()
    if x < .12:
        return g.cluster(), 'direct'
    if x < .4:
        ts = [g.basic(pads=True) for _ in range(r.choice([1, 1, 2, 3]))]
        for t in ts:
            t.pop('sp', None)
        return ts, 'direct'
    if x < .46:
        return [], 'null'
    if x < .5:
        return [{'k': 'vint', 'z': 0} for _ in range(r.choice([1, 2, 2, 3]))], 'several'
    if x < .54:
        return [g.basic(pads=True) for _ in range(r.choice([1, 2]))], 'class'
    n = r.choice([1, 1, 2, 3])
    save = dict(g.w)
    g.w.update(lb=0, la=0, cond=0, rel=0)
    ts = [g.type(1, [], None) for _ in range(n)]
    g.w = save
    return ts, 'class'


def ser_vals(g, ts):
    return [g.val(t, [], None, 1) for t in ts if t['k'] != 'pad']


def f_sers(g):
    r = g.r
    scaled(g, .4, 'ref')
    sers = []      # (id, [types])
    bo = r.choice(BOS)
    for _ in range(r.choice([2, 3, 4]) if g.chance(.93) else 11):
        ts, how = ser_part(g, bo)
        if any(contains(t, ('lb', 'la', 'cond', 'rel')) for t in ts):
            continue
        b = bo if g.chance(.85) else r.choice(BOS)
        s = g.uid('s')
        g.emit('ser', s=s, ts=ts, bo=b, how=how)
        sers.append((s, ts, b))
    if g.chance(.1):
        s = g.uid('s')
        ts = [g.string(final=True)]
        g.emit('ser', s=s, ts=ts, bo=bo, how='class')
        sers.append((s, ts, bo))
    if len(sers) < 2:
        return

    def add(a, b):
        s = g.uid('s')
        g.emit('seradd', s=s, sa=a[0], sb=b[0])
        return (s, a[1] + b[1], bo)
    if g.chance(.15):       # other byte orders, built-in basic parts of either kind
        b = r.choice([b for b in BOS if b != bo] or BOS)
        a, c = g.uid('s'), g.uid('s')
        plain, made = g.num(), g.cust()
        plain.pop('sp', None)
        g.emit('ser', s=a, ts=[plain], bo=bo, how='direct')
        g.emit('ser', s=c, ts=[made], bo=b, how='direct')
        for x, y in ((a, c), (c, a)):
            g.emit('seradd', s=g.uid('s'), sa=x, sb=y)
    whole = []
    # the same chain, grouped in different ways
    for _ in range(2):
        parts = list(sers)
        while len(parts) > 1:
            i = r.randrange(len(parts) - 1)
            parts[i:i + 2] = [add(parts[i], parts[i + 1])]
        whole.append(parts[0])
    if g.chance(.4):
        a = r.choice([x for x in sers])
        if a[1] and all(map(isbasic, a[1])):
            n = r.choice([0, 1, 2, 2, 3, 5])
            t = a[1][0]
            fold = len(a[1]) == 1 and t['k'] in ('char', 'pad') and g.chance(.5) and 'sp' not in t
            s = g.uid('s')
            g.emit('sermul', s=s, sa=a[0], n=n, fold=fold)
            m = (s, [dict(t, n=t['n'] * n)] if fold else a[1] * n, bo)
            whole.append(m)
            whole.append(add(m, r.choice(sers)))
    if g.chance(.5):
        a = r.choice(sers + whole)
        s = g.uid('s')
        g.emit('serwbo', s=s, sa=a[0], bo=r.choice(BOS))
        whole.append((s, a[1], bo))
        whole.append(a)
    grp = g.uid('g')
    for k, (s, ts, b) in enumerate(whole + [r.choice(sers)]):
        if not ts and g.chance(.7):
            continue
        try:
            vs = ser_vals(g, ts)
        except NoValue:
            return
        use_ser(g, s, ts, vs)


def contains(t, kinds):
    if isinstance(t, dict):
        return t.get('k') in kinds or any(contains(x, kinds) for k, x in t.items() if k != 'vals')
    if isinstance(t, list):
        return any(contains(x, kinds) for x in t)
    return False


def use_ser(g, s, ts, vs):
    r = g.r
    label = g.uid('p')
    g.emit('serpack', s=s, a=vs, label=label, g='')
    b = g.uid('b')
    off = r.choice([0, 1, 3])
    g.emit('buf', id=b, kind=g.wbufkind(), b=[], room={'ev': label, 'off': off, 'extra': r.choice([0, 2]), 'fill': 7})
    g.emit('serpackinto', s=s, a=vs, buf=b, off=off, g='')
    f = g.uid('f')
    g.emit('file', id=f, kind='mem', b=[1, 2], p=r.choice([0, 2]))
    g.emit('serpackwrite', s=s, a=vs, file=f, g='')
    pre = g.junk(r.choice([0, 2]))
    fin = any(map(g.isfinal_type, ts))
    post = [] if fin else g.junk(r.choice([0, 3]))
    src = [{'lit': pre}, {'ev': label}, {'lit': post}]
    b = g.uid('b')
    g.emit('buf', id=b, kind=g.bufkind(), b=[], src=src)
    g.emit('serunpackfrom', s=s, buf=b, off=len(pre), plain=g.chance(.4), g='', noff=g.chance(.5))
    f = g.uid('f')
    g.emit('file', id=f, kind='mem', b=[], src=src, p=0, poff=len(pre))
    g.emit('serunpackread', s=s, file=f, g='')
    if vs and g.chance(.4):
        g.emit('serpack', s=s, a=vs[:-1] if g.chance(.5) else vs + [I(1)], g='')
    if g.chance(.3):
        b = g.uid('b')
        g.emit('buf', id=b, kind=g.bufkind(), b=[], src=[{'ev': label}], cut=r.randrange(60))
        g.emit('serunpackfrom', s=s, buf=b, off=0, plain=False, g='')


def f_user(g):
    """User written serializers in every position."""
    some(g, vint=8, u24=6, rel=6)
    c = g.new_class()
    use(g, c, k=2, unpacks=6)


# --- strings ----------------------------------------------------------------------------------------------------
LENS = [0, 1, 2, 3, 7, 126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 768]
HUGE = [32766, 32767, 32768, 65535, 65536]


def f_strings(g):
    r = g.r
    kind = r.choice(['char', 'dchar', 'dchar', 'tchar', 'tchar', 'net', 'net', 'pascal', 'cchar'])
    text = kind != 'pascal' and g.chance(.55)

    def n_for():
        return r.choice(LENS[:6]) if g.chance(.3) else r.choice(LENS)
    if kind == 'char':
        t = {'k': 'char', 'n': n_for()}
    elif kind == 'pascal':
        t = {'k': 'pascal', 'n': max(1, r.choice(LENS))}
    elif kind == 'dchar':
        t = {'k': 'dchar', 'f': r.choice(COUNTS)}
    elif kind == 'tchar':
        t = {'k': 'tchar', 'b': r.choice([0, 0, 10, 32, 65, 97, 128, 255])}
    else:
        t = {'k': kind, 'z': 0}
    if text:
        t = {'k': 'uni', 't': t, 'enc': r.choice(ENCS)}
        if t['enc'] == 'utf8' and g.chance(.5):
            t['sp'] = 'alias'
    elif g.chance(.1):
        t['sp'] = 'ann' if kind != 'pascal' else ''
    own = [('s', t)]
    where = r.choice(['alone', 'between', 'between', 'array', 'tuple'])
    if kind == 'cchar':
        where = r.choice(['alone', 'last', 'tuple'])
    some(g, num=8, arr=1, tup=0, ref=.5)
    if where == 'between':
        own = [('a', g.basic())] + own + [('b', g.type(1, [], None, items=True))]
    elif where == 'last':
        own = [('a', g.type(1, [], None, items=True))] + own
    elif where == 'array':
        own = [('s', g.arr(1, [], None, item=t))]
        own[0][1]['cf'] and own[0][1].update(cf='uint8')
    elif where == 'tuple':
        own = [('s', {'k': 'tup', 'e': [g.basic(), t]})]
    c = g.define(g.uid('K'), own, bo=g.bo())

    def value(t, n):
        if t['k'] == 'uni':
            s = g.text(dict(t, t={'k': 'x'}), n)
            return St(s)
        s = bytearray(g.raw(n))
        if t['k'] == 'tchar' and g.chance(.9):
            s = bytearray(x if x != t['b'] else (t['b'] + 1) % 256 for x in s)
            if s and g.chance(.2):
                s[-1] = t['b']
            if s and g.chance(.03):
                s[r.randrange(len(s))] = t['b']
        return By(s)

    def wrap(v):
        f = []
        for n, h in c.attrs:
            if n != 's':
                x = g.val(h, f, c, 0)
            elif where == 'array':
                k = h['n'] if h['cf'] == '' else r.choice([0, 1, 2])
                x = Lst([v] + [value(t, r.choice([0, 1, 5])) for _ in range(k - 1)] if k else [])
            elif where == 'tuple':
                x = Tup([g.val(h['e'][0], f, c, 0), v])
            else:
                x = v
            f.append({'n': n, 'v': x})
        return {'k': 'obj', 'cls': c.n, 'f': f}
    base = t['t'] if t['k'] == 'uni' else t
    for i in range(3):
        n = n_for()
        if base['k'] in ('char', 'pascal') and g.chance(.7):
            n = max(0, base['n'] + r.choice([-2, -1, 0, 0, 1, 4]))
        try:
            g.full(c, packs=r.choice([1, 3]), unpacks=r.choice([2, 3, 6]), v=wrap(value(t, n)))
        except (NoValue, Err):
            return
    if g.chance(.3):
        bad(g, c)
    if g.chance(.3):
        L = g.lite(c)
        if L:
            g.sweep(c, L[1], L[0], r.choice(['cut', 'flip', 'insert']), 8, g.isfinal(c), ways=3)


def f_long(g):
    """Strings longer than what is read from a stream at a time, between other attributes."""
    r = g.r
    lens = r.choices(LENS[5:] + [600, 1030], k=3)
    kinds = [r.choice(['tchar', 'tchar', 'tchar', 'net', 'dchar', 'uni']) for _ in range(r.choice([1, 2, 2, 3]))]
    own = []
    for i, k in enumerate(kinds):
        if g.chance(.35):
            own.append((f'x{i}', g.type(1, [], None, items=True)))
        if k == 'uni':
            h = {'k': 'uni', 't': {'k': 'tchar', 'b': 0}, 'enc': r.choice(['utf8', 'latin1', 'ascii'])}
        elif k == 'dchar':
            h = {'k': 'dchar', 'f': r.choice(COUNTS[1:])}
        elif k == 'tchar':
            h = {'k': 'tchar', 'b': r.choice([0, 0, 10, 65])}
        else:
            h = {'k': k, 'z': 0}
        own.append((f's{i}', h))
    if g.chance(.3):
        own.append(('z', g.basic()))
    c = g.define(g.uid('K'), own, bo=g.bo())

    def value():
        f = []
        for n, h in c.attrs:
            if n[0] != 's':
                v = g.val(h, f, c, 0)
            else:
                k = r.choice(lens)
                v = St('w' * k) if h['k'] == 'uni' else By(bytes(r.choice(b'bcdef') for _ in range(k)))
            f.append({'n': n, 'v': v})
        return {'k': 'obj', 'cls': c.n, 'f': f}
    try:
        v = value()
        x = g.full(c, packs=r.choice([1, 3]), unpacks=4, v=v)
        w = g.new(c, value())
        L2 = g.pack(w)
        f = g.uid('f')
        g.emit('file', id=f, kind=g.filekind(), b=[], src=[{'ev': x[1]}, {'ev': L2}, {'ev': x[1]}], p=0)
        for L in (x[1], L2, x[1]):
            g.emit('unpackread', o=g.uid('o'), c=c.n, file=f, g='', **{'from': L})
        for cap in r.sample([1, 1, 1, 2, 200], 2):      # cut, seldom
            g.emit('buf', id=(b := g.uid('b')), kind=g.bufkind(), b=[], src=[{'ev': x[1]}], cutend=cap)
            g.emit('unpack', o=g.uid('o'), c=c.n, buf=b, g=(grp := g.uid('g')))
            g.emit('unpackfrom', o=g.uid('o'), c=c.n, buf=b, off=0, noff=True, g=grp)
            g.emit('file', id=(f := g.uid('f')), kind='mem', b=[], src=[{'ev': x[1]}], p=0, cutend=cap)
            g.emit('unpackread', o=g.uid('o'), c=c.n, file=f, g=grp)
    except (NoValue, Err):
        return


def f_huge_strings(g):
    """The largest lengths the markers can hold, and one more."""
    r = g.r
    kind = r.choice(['net', 'net', 'dchar16', 'tchar', 'cchar', 'uninet'])
    n = r.choice({'net': [32766, 32767, 32767, 32768, 16383, 16384], 'dchar16': [65535, 65536], 'tchar': [8191, 8192],
                  'cchar': [9000], 'uninet': [32767, 32768]}[kind])
    t = {'net': {'k': 'net', 'z': 0}, 'dchar16': {'k': 'dchar', 'f': 'uint16'}, 'tchar': {'k': 'tchar', 'b': 0},
         'cchar': {'k': 'cchar', 'z': 0}, 'uninet': {'k': 'uni', 't': {'k': 'net', 'z': 0}, 'enc': 'latin1'}}[kind]
    c = g.define(g.uid('K'), [('s', t)], bo=g.bo())
    v = St('é' * n) if kind == 'uninet' else By(b'\x81' * (n - 1) + b'x')
    o = g.new(c, {'f': [{'n': 's', 'v': v}]})
    L = g.pack(o)
    if g.chance(.5):
        g.pack_write(o)
    g.unpack(c, [{'ev': L}], None, True, None, kind == 'cchar', frm=L)


# --- arrays -------------------------------------------------------------------------------------------------------
def f_arrays(g):
    r = g.r
    x = r.random()
    prev = [('k', g.key_field())] if g.chance(.5) else []
    if x < .45:
        item = g.basic()
    elif x < .75:
        item = g.type(2, prev, None, items=True)
    else:
        item = g.arr(2, prev, None)
    t = g.arr(1, prev, None, item=item)
    if g.chance(.35):
        t['sf'] = r.choice(COUNTS)
    own = prev + [('v', t)]
    if g.chance(.4):
        own = prev + [('a', g.basic(pads=True)), ('v', t)]
        if own[-2][1]['k'] == 'pad':
            own[-2] = ('_', own[-2][1])
    if g.chance(.5):
        own.append(('z', g.basic()))
    c = g.define(g.uid('K'), own, bo=g.bo())

    def sized(n):
        for _ in range(5):
            try:
                f = []
                for m, h in c.attrs:
                    v = Lst([g.val(item, f, c, 2) for _ in range(n)]) if m == 'v' else g.val(h, f, c, 0)
                    f.append({'n': m, 'v': v})
                return {'k': 'obj', 'cls': c.n, 'f': f}
            except (NoValue, Err):
                pass
        raise NoValue
    try:
        if t['cf'] == '':
            counts = [t['n'], t['n'], t['n'] + 1, max(0, t['n'] - 1), 0]
        else:
            counts = [0, 1, 2, 3, r.choice([4, 5, 9])]
            if isbasic(item):
                counts += [r.choice([100, 255, 256, 257])] if g.chance(.3) else []
            elif g.chance(.05):
                counts += [r.choice([40, 130])]
        r.shuffle(counts)
        for n in counts[:3]:
            x = g.full(c, packs=r.choice([1, 3]), unpacks=r.choice([2, 4]), v=sized(n))
    except NoValue:
        return
    bad(g, c)
    if x and g.chance(.5):
        try:
            w = g.new(c, g.obj(c))
        except NoValue:
            return
        g.sweep(c, x[1], w, r.choice(['flip', 'cut', 'insert']), 8, g.isfinal(c), ways=2)


# --- what is declared ------------------------------------------------------------------------------
BAD_SOURCES = """char[2.0]; char[0.0]; unicode[3.0]; unicode[2.0, 'utf8']; pad[2.0]; pascal[3.0]; array[Header[2.0], uint8]; array[Header[1.0, uint8], char[1]]
array[Header[3.0, uint16], uint8]; Annotated[int, SerializeAs(char[2.0])]; char[Annotated[int, 3]]; char; unicode; pad; pascal; array; char['x']; char[1.5]; char[None]; char[-math.inf]; char[int]; char[uint8, 3]; char[b'']
char[b'ab']; char[()]; unicode[2, 5]; unicode[2, None]; unicode[2, int]; unicode['utf8']; unicode[2, 'utf8', 3]; unicode[b'ab']; unicode[NET, 7]
pad['x']; pad[1.5]; pad[None]; pad[uint8]; pascal[uint8]; pascal['x']; pascal[None]; pascal[1, 2]; array[Header[1.5], uint8]; array[Header['x'], uint8]
array[Header[uint8, 3], uint8]; array[Header[2, 3], uint8]; array[Header[uint8, uint8, uint8], uint8]; array[3, uint8]; array[uint8, uint8]
array[Header[3]]; array[Header[3], uint8, uint8]; array[Header[NET], uint8]; array[Header[char[2]], uint8]; array[Header[()], uint8]
array[Header, uint8]; array[Header[math.inf], uint8]; array[Header[None], uint8]; char[Header[2]]; char[array[Header[2], uint8]]; unicode[char[3]]
Annotated[int, SerializeAs(5)]; Annotated[int, SerializeAs(None)]; Annotated[int, SerializeAs(char)]; Annotated[int, char]; Annotated[int, array]
Annotated[uint8, LookbackDecider(lambda s: 1, {1: uint8})]; Annotated[int, LookaheadDecider(uint8, lambda s: 1, {1: uint8}, None)]
null_char[2]; null_unicode[2]; uint8[3]; char[3][3]; Annotated[list[uint8], Condition(lambda s: True, 1)]; array[Header[2], list[uint8]]
array[Header[2], Union[uint8, char[1]]]; Annotated[Union[uint8, char[1]], Condition(lambda s: True, 1)]
unicode[-math.inf]; char[math.nan]; unicode[math.nan, 'utf8']; pad[math.inf]; pascal[math.inf]; char[uint8][2]; char[[2]]; unicode[[2]]; pad[[2]]
array[[Header[2]], uint8]; array[Header[[2]], uint8]; char[bytearray(b'a')]; char[memoryview(b'a')]; pascal[-1.0]; array[Header[2], None]; array[Header[2], 5]; unicode[uint16, b'utf8']
Annotated[int, SerializeAs(array[Header[2], uint8])]; Annotated[int, SerializeAs(tuple[uint8])]; Annotated[int, SerializeAs(pad[2])]; array[Header[float64], uint8]
Annotated[Union[int, uint8], LookbackDecider(lambda s: 1, {1: int})]; Annotated[Union[uint8, uint16], LookbackDecider(lambda s: 1, {1: None})]; array[Header['uint8'], uint8]; char['uint8']""".replace('\n', '; ').split('; ')
PLAIN_SOURCES = ['int', 'str', 'float', 'bytes', 'bool', 'list', 'dict', 'list[int]', 'dict[str, int]', 'Optional[int]', 'Union[int, str]', 'tuple',
                 'tuple[int, str]', 'tuple[int, ...]', 'Annotated[int, 5]', 'object', 'type', 'Any']
MISFORMATS = ['int8', 'int16', 'int32', 'int64', 'bool8', 'float16', 'float32', 'float64']


def plain(g):
    return {'k': 'plain', 'src': g.r.choice(PLAIN_SOURCES)}


def ill(g, prev, depth=1):
    """A misdeclared hint."""
    r = g.r
    u8 = {'k': 'num', 'f': 'uint8'}
    mis = r.choice(MISFORMATS)
    some = r.choice([g.basic(), u8, g.type(1, prev, None, items=True)])
    pad = {'k': 'pad', 'n': 2}

    def arr(**kw):
        return {'k': 'arr', 'cf': r.choice(['uint8', 'uint16', 'uint64']), 'n': -1, 'sf': r.choice(['', '', 'uint32']), 't': some, **kw}

    def cond(t, *dv):
        return {'k': 'cond', 't': t, 'd': g.boolean(prev), 'dv': list(dv), 'lbl': g.lbl()}

    def lb(m, df):
        return {'k': 'lb', 'd': {'x': 'const', 'v': I(1)}, 'm': [{'key': I(i), 't': t} for i, t in enumerate(m)], 'df': df, 'lbl': g.lbl()}

    def la(rd, m, df):
        return {**lb(m, df), 'k': 'la', 'r': rd, 'vals': [], 'style': 'tup', 'own': False}

    none = r.choice([plain(g), plain(g), {'k': 'nil'}, {'k': 'tup', 'e': [u8, plain(g)]}])
    kinds = [
        lambda: {'k': 'bad', 'src': r.choice(BAD_SOURCES)}, lambda: {'k': 'bad', 'src': r.choice(BAD_SOURCES)},
        lambda: {'k': r.choice(['char', 'pad', 'pascal']), 'n': r.choice([-1, -1, -2, -256])},
        lambda: {'k': 'dchar', 'f': mis},
        lambda: {'k': 'uni', 't': r.choice([{'k': 'dchar', 'f': mis}, {'k': 'char', 'n': -1}]), 'enc': r.choice(ENCS)},
        lambda: arr(cf=mis), lambda: arr(sf=mis), lambda: arr(cf='', n=r.choice([-1, -3])), lambda: arr(t=none),
        lambda: {'k': 'cust', 'cn': 'MyInt', 'fac': False, 't': r.choice([plain(g), {'k': 'dchar', 'f': 'uint8'}, {'k': 'tchar', 'b': 0}, {'k': 'tup', 'e': [u8]},
                 arr(t=u8), {'k': 'uni', 't': {'k': 'char', 'n': 2}, 'enc': 'utf8'}, cond(u8, NONE), pad, {'k': 'net', 'z': 0}, {'k': 'cchar', 'z': 0}])},
        lambda: cond(none, NONE), lambda: cond(some), lambda: cond(some, NONE, NONE), lambda: cond(pad, NONE),
        lambda: lb(r.sample([u8, none], 2), []), lambda: lb([some], [r.choice([plain(g), pad])]), lambda: lb([pad], [some]),
        lambda: la(u8, [none], []), lambda: la(u8, [u8, r.choice([pad, none])], [u8]), lambda: la(u8, [u8], [r.choice([plain(g), pad])]),
        lambda: la(none, [u8], [u8]),
    ]
    h = r.choice(kinds)()
    while depth < 3 and g.chance(.35):
        h = misplace(g, h, prev, cond, lb, la, u8)
        depth += 1
    return h


def misplace(g, h, prev, cond, lb, la, u8):
    """Something misdeclared inside of something else."""
    r = g.r
    wraps = [lambda: {'k': 'tup', 'e': r.sample([u8, h], 2)},
             lambda: lb(r.sample([u8, h], 2), []), lambda: lb([u8], [h]), lambda: la(u8, [h], []), lambda: la(u8, [u8], [h])]
    if h['k'] not in ('pad', 'bad') and not ispad(h):
        wraps += [lambda: {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': h}, lambda: {'k': 'arr', 'cf': '', 'n': 2, 'sf': 'uint8', 't': {'k': 'tup', 'e': [h, u8]}},
                  lambda: cond(h, NONE), lambda: la(h, [u8], [])]
    return r.choice(wraps)()


def refused(g, own, bases=(), **kw):
    c = g.define(g.uid('X'), own, bases=bases, **kw)
    del g.classes[c.n]


def f_decl(g):
    """Misdeclared attributes among proper ones: refused wherever they are, and whatever came before stays as it was."""
    g.nfields = (1, 3)
    r = g.r
    scaled(g, .6, 'ref')
    c = g.new_class()
    first = g.lite(c)
    gens = [make_generic(g)] if g.chance(.6) else []
    refused(g, [('x', {'k': 'bad', 'src': BAD_SOURCES[g.index % len(BAD_SOURCES)]})])
    for _ in range(r.randint(4, 8)):
        x = r.random()
        own = []
        for _ in range(r.randint(0, 3)):
            n = g.attr_name([n for n, _ in own] + [n for n, _ in c.hints])
            own.append((n, r.choice([g.basic(), plain(g), g.type(1, own_attrs(own), n)])))
        own = [('_' if ispad(t) else n, t) for n, t in own]
        at = r.randint(0, len(own))
        n = g.attr_name([n for n, _ in own] + [n for n, _ in c.hints])
        if x < .2:      # a proper one, to compare
            own.insert(at, (n, plain(g)))
            d = g.define(g.uid('K'), own, bases=[(c.n, [])] if g.chance(.4) and not g.isfinal(c) else [], bo=c.bo)
            if g.chance(.5):
                g.lite(d)
        elif x < .6 or not gens:
            if g.chance(.3):
                names = [n for n, t in c.attrs]
                n = r.choice(names) if names else n
                own.insert(at, (n, ill(g, [])))
                refused(g, own, bases=[(c.n, [])], bo=c.bo)
            else:
                own.insert(at, (n, ill(g, own_attrs(own[:at]))))
                refused(g, own, bo=g.bo())
        else:
            G, params, kinds = r.choice(gens)
            args = [generic_arg(g, kinds[p]) for p in params]
            p = r.randrange(len(params))
            args[p] = ill_arg(g, kinds[params[p]], params[p], G)
            if args[p] is None:
                continue
            inst = {'k': 'inst', 'n': G.n, 'a': args}
            if g.chance(.4):
                refused(g, [], bases=[(G.n, args)], bo=G.bo)
            else:
                h = r.choice([inst, {'k': 'arr', 'cf': 'uint8', 'n': -1, 'sf': '', 't': inst}, {'k': 'tup', 'e': [inst, {'k': 'num', 'f': 'uint8'}]}])
                own.insert(at, (n, h))
                refused(g, own, bo=g.bo())
    if first:
        o, L = first
        L2 = g.pack(o, g=g.uid('g'))
        g.unpack(c, [{'ev': L2}], None, True, None, g.isfinal(c), frm=L2)
    for G, params, kinds in gens:
        d = specialize(g, G, params, kinds)
        if not has_inst(g, d):
            g.lite(d)


def ill_arg(g, kind, p, G):
    """An argument that does not fit all of the uses of a parameter."""
    r = g.r

    def formats(h):
        k = h['k']
        return ((k == 'dchar' and h['f'] == p) or (k == 'arr' and p in (h['cf'], h['sf'])) or any(formats(x) for x in h.get('e', []))
                or (isinstance(h.get('t'), dict) and formats(h['t'])))

    if any(formats(h) for _, h in G.hints) and kind != 'net':
        return r.choice([{'k': 'num', 'f': r.choice(MISFORMATS)}, plain(g), {'k': 'char', 'n': 2}, {'k': 'nil'}, {'k': 'tup', 'e': [{'k': 'num', 'f': 'uint8'}]},
                         {'k': 'pad', 'n': 1}, {'k': 'dchar', 'f': 'uint8'}])
    if kind == 'net':
        return r.choice([{'k': 'num', 'f': r.choice(MISFORMATS)}, plain(g), {'k': 'char', 'n': 2}])
    if g.chance(.5):
        h = ill(g, [], 3)
        return None if h['k'] in ('cond', 'lb', 'la') else h
    return None


OUT = {'rejects', 'accepts', 'hang', 'outside'}
ALL = OUT | {'kind', 'bytes', 'value', 'confined', 'position', 'equiv', 'rt.value', 'rt.bytes', 'decision', 'factory',
             'frame.objs', 'frame.bufs', 'frame.files', 'frame.classes', 'attrs', 'byteorder', 'numvalues', 'post', 'equality', 'text'}

# property: (clauses, [(family, weight, share of the scenarios of a quick run)])
FAMILIES = {
    'C01': (OUT | {'bytes', 'value', 'rt.value'}, [(f_layout, 3), (f_full, 1), (f_long, .2), (f_huge_strings, .2)]),
    'C02': (OUT | {'value', 'rt.value', 'rt.bytes', 'bytes'}, [(f_full_many, 2), (f_full, 1), (f_long, .2), (f_huge_strings, .05)]),
    'C03': (OUT | {'equiv', 'bytes', 'value', 'rt.value'}, [(f_entry, 1), (f_long, .1)]),
    'C04': (OUT | {'confined', 'position', 'frame.bufs', 'frame.files', 'value', 'bytes', 'equiv', 'rt.value'},
            [(f_backtoback, 2), (f_windows, 2), (f_small, 1), (f_long, .4)]),
    'C05': ({'size', 'hang', 'outside'}, [(f_full, 2), (f_self, 1), (f_cond, 1), (f_arrays, 1), (f_history, 1), (f_sers, 1),
                               (f_strings, .5), (f_union, 1), (f_long, .5)]),
    'C06': (OUT | {'bytes', 'value', 'byteorder', 'frame.objs', 'rt.value'}, [(f_order, 3), (f_subst_order, 1)]),
    'C07': ({'accepts', 'kind', 'hang', 'equiv', 'value', 'outside'}, [(f_truncate, 2), (f_corrupt, 2), (f_long, .3)]),
    'C08': ({'accepts', 'kind', 'hang', 'equiv', 'outside', 'bytes'}, [(f_bad, 3), (f_small, 1)]),
    'C09': (ALL, [(f_union, 1)]),
    'C10': (ALL, [(f_cond, 1), (f_conds, 1)]),
    'C11': (ALL, [(f_inherit, 1)]),
    'C12': (ALL, [(f_generic, 1)]),
    'C13': (ALL, [(f_final, 1)]),
    'C14': (ALL | {'size'}, [(f_history, 2), (f_alias, 1)]),
    'C15': (ALL | {'size'}, [(f_self, 1)]),
    'C16': (ALL, [(f_objects, 1)]),
    'C17': (ALL, [(f_cust, 1)]),
    'C18': (ALL | {'size'}, [(f_sers, 3), (f_user, 1)]),
    'C19': (ALL, [(f_strings, 20), (f_long, 3), (f_huge_strings, 1)]),
    'C20': (ALL, [(f_arrays, 1)]),
    'C21': (ALL, [(f_decl, 1)]),
}


COUNT = {}
ASSUMPTIONS = [
    'native byte order is little endian; one thread at a time',
    'only exactly representable floating point values are predicted; other roundings are not judged',
    'files read and write all they are asked for',
    'outcomes the specification calls "unspec" (DESIGN.md, What is left out) are executed but not judged',
]


def count(prop, tier):
    return COUNT.get(prop, 1000) * (1 if tier == 'quick' else 25)


def scenario(prop, seed, i):
    fams = FAMILIES[prop][1]
    g = Gen(f'{prop}/{seed}/{i}')
    for _ in range(20):
        f = g.r.choices([f for f, _ in fams], [w for _, w in fams])[0]
        g.__init__(g.r.getrandbits(64))
        g.index = i
        try:
            f(g)
        except Exception:      # a slip of the generator only costs a scenario
            if os.environ.get('VERIF_DEBUG'):
                raise
            continue
        if g.events:
            break
    sc = g.scenario(f'{prop}/{seed}/{i}')
    sc['family'] = f.__name__
    return sc
