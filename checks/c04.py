"""Effects on memory: inputs are never modified, nothing but the selected elements of out is, and an out
that shares memory with the inputs gives the result of the call without sharing."""
import numpy as np

from checks.c01 import hostile_args, out_shape
from checks.c03 import close
from vlib import arena, calls, engine, gen, num, specs      # noqa: F401
from vlib.engine import SPECS

OK = (ValueError, TypeError, OverflowError, ZeroDivisionError, AttributeError)


def snapshot(a):
    if a.dtype.hasobject:
        return [id(x) for x in a.ravel().tolist()], a.ravel().tolist()
    return a.tobytes()


def inputs(ctx, case, s):
    rng = case.rng
    loop = s.types[case.index % len(s.types)] if case.index < 4 * len(s.types) else None
    c = engine.make(case, s, loop=loop)
    c.rng = rng
    hostile = rng.random() < .5
    args = hostile_args(c, c.args, s) if hostile else c.args
    ins, kw, oax = args, {}, None
    if s.sig and not s.native_only and rng.random() < .3:
        ins, axes, oax = engine.rand_axes(rng, s, args, c.L)
        kw['axes'] = axes + oax
    placed = []
    views = []
    for a in ins:
        if a.dtype.hasobject:
            v = gen.layout(rng, a)
        else:
            st = np.empty(a.shape, a.dtype).strides if s.native_only or rng.random() < .35 else None
            p = arena.Placed(rng, a.shape, a.dtype, strides=st).set(a)
            placed.append(p)
            v = p.view
        views.append(v)
    nin = len(placed)
    outs = []
    for k, (sh, tc) in enumerate(zip(c.oshapes, c.ot)):
        if oax and s.ocore[k]:
            sh = out_shape(sh, len(s.ocore[k]), oax[k])
        if tc == 'O':
            outs.append(np.empty(sh, dtype=object))
            continue
        st = np.empty(sh, tc).strides if s.native_only or rng.random() < .35 else None
        p = arena.Placed(rng, sh, tc, strides=st)
        if tc == '?' or 'bincount' in s.name:
            p.set(0)
        placed.append(p)
        outs.append(p.view)
    snaps = [snapshot(v) for v in views]
    for p in placed:
        p.arm()
    c.ins, c.kw = views, kw
    engine.case_note(case, c)
    sealed = placed[:nin] if rng.random() < .5 else []
    for p in sealed:
        p.seal()
    try:
        s.obj(*views, out=tuple(outs), **kw)
        ctx.count('returned')
    except OK as e:
        if not hostile:
            raise
        ctx.count('raised')
    finally:
        for p in sealed:
            p.unseal()
    if sealed:
        ctx.count('inputs in read-only pages')
    ctx.ev()
    for p in placed:
        p.disarm()
    for i, (v, sn) in enumerate(zip(views, snaps)):
        if snapshot(v) != sn:
            ctx.fail(f'{s.name}:input-modified', f'input {i} was modified: {engine.describe(c)}\n before: '
                     f'{num.show(args[i])}\n after: {num.show(v)}')
    for p in placed:
        bad = p.stray()
        if len(bad):
            ctx.fail(f'{s.name}:stray-write', f'{len(bad)} bytes outside an argument changed: {engine.describe(c)}')
    ctx.count('inputs:' + s.name)
    ctx.distinct('in', s.name, c.it, *[a.tobytes() if not a.dtype.hasobject else repr(a) for a in args])
    for p in placed:
        p.release()


def overlap_view(rng, base, shape, dtype):
    """A view of the bytes of `base` with the given shape: somewhere inside, some order of axes."""
    n = int(np.prod(shape)) if shape else 1
    dtype = np.dtype(dtype)
    need = n * dtype.itemsize
    if need > base.nbytes:
        return None
    off = int(rng.integers(0, (base.nbytes - need) // dtype.itemsize + 1)) * dtype.itemsize
    if rng.random() < .4:
        off = 0
    v = base[off:off + need].view(dtype)
    if rng.random() < .3:
        v = v[::-1]
    if len(shape) > 1 and rng.random() < .4:
        p = rng.permutation(len(shape))
        v = v.reshape(tuple(shape[i] for i in p)).transpose(np.argsort(p))
    else:
        v = v.reshape(shape)
    return v


def overlap(ctx, case, s):
    rng = case.rng
    loops = [t for t in s.types if 'O' not in t[0]]
    c = engine.make(case, s, loop=loops[case.index % len(loops)], L=None)
    args = c.args
    acc = 'bincount' in s.name
    axes = rng.random() < .3 and bool(s.sig)
    kw = dict(sig=c.it + '->' + c.ot)
    ins, oax = args, None
    if axes:
        ins, ax, oax = engine.rand_axes(rng, s, args, c.L)
        kw['axes'] = ax + oax
    shapes = [out_shape(sh, len(cc), oax[k]) if oax and cc else sh
              for k, (sh, cc) in enumerate(zip(c.oshapes, s.ocore))]
    total = max([a.nbytes for a in ins] + [int(np.prod(sh)) * np.dtype(t).itemsize for sh, t in zip(shapes, c.ot)])
    buf = np.zeros((total // 16 + 2 + int(rng.integers(0, 8))) * 16, dtype=np.uint8)
    which = int(rng.integers(0, len(ins)))
    v = overlap_view(rng, buf, ins[which].shape, ins[which].dtype)
    k = int(rng.integers(0, len(shapes)))
    o = overlap_view(rng, buf, shapes[k], c.ot[k])
    if acc and rng.random() < .9:
        buf2 = buf
    if v is None or o is None:
        return
    if v.shape == o.shape and v.strides == o.strides and v.ctypes.data == o.ctypes.data:
        # numpy hands such arrays on without a copy; unless the core slices coincide the outcome is numpy's
        # doing (np.vecdot has it too), not ufunclab's
        if axes or len(s.icore[which]) != len(s.ocore[k]) or c.subs[which] != c.L:
            ctx.count('same array, not judged')
            return
        ctx.count('same array')
    v[...] = ins[which]
    use = [gen.native_layout(rng, a) if i != which else v for i, a in enumerate(ins)]
    for i in range(len(use)):
        if i != which and rng.random() < .3 and not axes and ins[i].shape == ins[which].shape and \
                ins[i].dtype == ins[which].dtype and len(s.icore[i]) == len(s.icore[which]):
            use[i] = v        # the same array twice
    # reference: everything separate
    ref_in = [np.array(a, copy=True) for a in use]
    ref_out = [np.zeros(sh, t) for sh, t in zip(shapes, c.ot)]
    outs = [np.zeros(sh, t) for sh, t in zip(shapes, c.ot)]
    outs[k] = o
    if acc:
        if c.ot[k] in 'fdgFDG':
            with np.errstate(all='ignore'):
                if not np.isfinite(o).all():
                    return
        ref_out[k][...] = o
    c.ins, c.kw = use, kw
    engine.case_note(case, c)
    s.obj(*ref_in, out=tuple(ref_out), **kw)
    shared = np.shares_memory(o, v) if o.size and v.size else False
    s.obj(*use, out=tuple(outs), **kw)
    ctx.ev()
    ctx.count(('overlap:' if shared else 'disjoint:') + s.name)
    if shared:
        ctx.count('overlapping')
        ctx.distinct('ov', s.name, c.it, ref_in[which].tobytes(), o.strides, v.strides)
    for i, (x, y) in enumerate(zip(outs, ref_out)):
        if i != k and outs[i].base is not None and np.shares_memory(outs[i], buf):
            continue
        ok = close(s.name, np.asarray(x), y)
        if ok is None:
            ctx.count('not_judged')
        elif not ok:
            ctx.fail(f'{s.name}:overlap', f'output {i} is {num.show(np.asarray(x))}, without memory overlap '
                     f'{num.show(y)}\n{engine.describe(c)}\n out strides {o.strides} inputs {num.show(*ref_in)}')
            return


def where(ctx, case, s):
    rng = case.rng
    c = engine.make(case, s, loop=s.types[case.index % len(s.types)])
    m = rng.random(size=engine.gen.sub_shape(rng, c.L)) < rng.choice([.2, .5, .8])
    mask = np.broadcast_to(m, c.L)
    if not c.L:
        mask = np.bool_(m)
    ref = s.obj(*c.args, sig=c.it + '->' + c.ot)
    ref = np.asarray(ref)
    start = np.asarray(gen.values(rng, c.ot, c.L))
    o = gen.layout(rng, start.copy(), rng.choice(['C', 'F', 'strided', 'neg', 'pad', 'misaligned', 'byteswapped']))
    ins = [gen.layout(rng, a) for a in c.args]
    c.ins, c.kw = ins, dict(where=1)
    engine.case_note(case, c)
    s.obj(*ins, out=o, where=gen.layout(rng, m) if m.ndim else m, sig=c.it + '->' + c.ot)
    want = np.where(mask, ref, start)
    ctx.ev()
    ctx.count('where:' + s.name)
    ctx.distinct('where', s.name, c.it, mask.tobytes(), start.tobytes())
    got = np.asarray(o).astype(c.ot)
    # elements that are not selected must keep their very bytes
    if not num.same(got, want.astype(c.ot)):
        ctx.fail(f'{s.name}:where', f'{engine.describe(c)} mask={m!r}\n got {num.show(got)}\n expected {num.show(want)}')


def form_inputs(ctx, case, name):
    """The Python wrappers and composed functions: inputs and surroundings of every argument stay as they are."""
    rng = case.rng
    c = calls.make(rng, name)
    placed, views = [], []
    for a in c.args:
        p = arena.Placed(rng, a.shape, a.dtype, strides=np.empty(a.shape, a.dtype).strides if rng.random() < .35 else None)
        placed.append(p.set(a))
        views.append(p.view)
    out = None
    if rng.random() < .7:
        p = arena.Placed(rng, c.oshape, c.ot, strides=np.empty(c.oshape, c.ot).strides if rng.random() < .35 else None)
        if c.ot == '?' or c.acc:
            p.set(0)
        placed.append(p)
        out = p.view
    snaps = [snapshot(v) for v in views]
    for p in placed:
        p.arm()
    ctx.note(c.describe())
    sealed = placed[:len(views)] if rng.random() < .5 else []
    for p in sealed:
        p.seal()
    try:
        c(*views, out=out)
    except OK:
        if name != 'gendot':
            raise
        ctx.count('raised')
    finally:
        for p in sealed:
            p.unseal()
    ctx.ev()
    for p in placed:
        p.disarm()
    for i, (v, sn) in enumerate(zip(views, snaps)):
        if snapshot(v) != sn:
            ctx.fail(f'{name}:input-modified', f'input {i} was modified: {c.describe()}\n before {num.show(c.args[i])}\n '
                     f'after {num.show(v)}')
    for p in placed:
        bad = p.stray()
        if len(bad):
            ctx.fail(f'{name}:stray-write', f'{len(bad)} bytes outside an argument changed: {c.describe()}')
    ctx.count('inputs:' + name)
    ctx.distinct('in', name, *[a.tobytes() for a in c.args])
    for p in placed:
        p.release()


def form_overlap(ctx, case, name):
    rng = case.rng
    c = calls.make(rng, name)
    nb = int(np.prod(c.oshape)) * np.dtype(c.ot).itemsize
    total = max([a.nbytes for a in c.args] + [nb])
    buf = np.zeros((total // 16 + 2 + int(rng.integers(0, 8))) * 16, dtype=np.uint8)
    which = int(rng.integers(0, len(c.args)))
    v = overlap_view(rng, buf, c.args[which].shape, c.args[which].dtype)
    o = overlap_view(rng, buf, c.oshape, c.ot)
    if v is None or o is None or v.shape == o.shape and v.strides == o.strides and v.ctypes.data == o.ctypes.data:
        return
    v[...] = c.args[which]
    if c.acc and c.ot in 'fdFD' and not np.isfinite(o).all():
        return
    ref_out = np.array(o, copy=True)
    ctx.note('overlap ' + c.describe())
    try:
        with np.errstate(all='ignore'):
            c(*[a.copy() for a in c.args], out=ref_out)
            c(*[v if i == which else a for i, a in enumerate(c.args)], out=o)
    except OK:
        if name != 'gendot':
            raise
        return
    ctx.ev()
    if o.size and v.size and np.shares_memory(o, v):
        ctx.count('overlapping')
        ctx.count('overlap:' + name)
        ctx.distinct('ov', name, o.strides, v.strides, *[a.tobytes() for a in c.args])
    got = np.asarray(o)
    if not num.same(got, ref_out):
        if not c.plain():
            ctx.count('not_judged')
            return
        ctx.fail(f'{name}:overlap', f'{c.describe()}: {num.show(got)}, without memory overlap {num.show(ref_out)}\n'
                 f' args {num.show(*c.args)} out strides {o.strides}')


def run(ctx):
    for name in calls.WRAPPERS:
        ctx.each('form inputs:' + name, ctx.n(120, 4000), lambda case, name=name: form_inputs(ctx, case, name))
        ctx.each('form overlap:' + name, ctx.n(150, 5000), lambda case, name=name: form_overlap(ctx, case, name))
    for s in SPECS.values():
        if s.cid is None and 'bincount' not in s.name:
            continue
        q = max(250, 3 * len(s.types))
        ctx.each('inputs:' + s.name, ctx.n(q, 15 * q), lambda case, s=s: inputs(ctx, case, s))
        if not s.native_only:
            q = max(200, 2 * len(s.types))
            ctx.each('overlap:' + s.name, ctx.n(q, 15 * q), lambda case, s=s: overlap(ctx, case, s))
        if not s.sig:
            ctx.each('where:' + s.name, ctx.n(80, 1500), lambda case, s=s: where(ctx, case, s))
