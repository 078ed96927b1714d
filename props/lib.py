"""Shared harness helpers (run both symbolically under CPython and concretely under PyPy; never import histbook here)."""
INF = float("inf")
NAN = float("nan")


# ------------------------------------------------------------------ building axes from JSON-able specs

def mkaxis(ctx, spec):
    """spec: [kind, args..., {opts}]"""
    kind = spec[0]
    args = list(spec[1:])
    kw = {}
    if args and isinstance(args[-1], dict):
        kw = args.pop()
    return getattr(ctx.hb, kind)(*[unspec(a) for a in args], **kw)


def unspec(a):
    if a == "inf":
        return INF
    if a == "-inf":
        return -INF
    if isinstance(a, list):
        return [unspec(x) for x in a]
    return a


def mkhist(ctx, axes, **opts):
    return ctx.hb.Hist(*[mkaxis(ctx, a) for a in axes], **opts)


# ------------------------------------------------------------------ reading a histogram

def columns(h):
    """name -> column index in the innermost dimension"""
    out = {"sumw": h._sumwindex}
    if h._weightparsed is not None:
        out["sumw2"] = h._sumw2index
    for i, p in enumerate(h._profile):
        out["sumwx%d" % i] = p._sumwxindex
        out["sumwx2%d" % i] = p._sumwx2index
    return out


def blocks(h):
    """group-key tuple -> content array (empty if unfilled)"""
    out = {}

    def rec(node, key):
        if node is None:
            return
        if isinstance(node, dict):
            for k in node:
                rec(node[k], key + (k,))
        else:
            out[key] = node
    rec(h._content, ())
    return out


def ndindex(shape):
    if len(shape) == 0:
        yield ()
        return
    for i in range(shape[0]):
        for rest in ndindex(shape[1:]):
            yield (i,) + rest


def cells(ctx, h, cols=None):
    """(group keys..., bin indexes...) -> {column: value}; reads every stored number"""
    c = columns(h)
    if cols is not None:
        c = dict((k, v) for k, v in c.items() if k in cols)
    out = {}
    for key, arr in blocks(h).items():
        shape = ctx.shape(arr)
        for idx in ndindex(shape[:-1]):
            out[key + idx] = dict((n, ctx.scalar(arr[idx + (j,)])) for n, j in c.items())
    return out


def normkey(ctx, k):
    return k


def checkcells(ctx, a, b, msg, cols=None):
    """two cell dicts agree, where a missing cell counts as all zeros"""
    for key in list(a) + [k for k in b if k not in a]:
        x, y = a.get(key), b.get(key)
        names = (x or y).keys()
        for n in names:
            if cols is not None and n not in cols:
                continue
            if x is not None and y is not None and (n not in x or n not in y):
                ctx.fail("%s: column %s missing at %r" % (msg, n, key))
                continue
            xv = 0.0 if x is None else x[n]
            yv = 0.0 if y is None else y[n]
            ctx.check(ctx.same(xv, yv), "%s: %s at %r: %s != %s" % (msg, n, key, show(ctx, xv), show(ctx, yv)))


def checksame(ctx, h1, h2, msg, cols=None):
    checkcells(ctx, cells(ctx, h1), cells(ctx, h2), msg, cols)


def show(ctx, v):
    return "<symbolic>" if ctx.issym(v) else repr(v)


def frozen(ctx, h):
    """everything observable stored in a histogram, for before/after comparison"""
    return {"cells": cells(ctx, h), "filled": h._content is not None, "attach": dict(h._attachment), "shape": tuple(h._shape),
            "axes": [repr(x) for x in h._group + h._fixed + h._profile],
            "cols": columns(h), "pos": [x._shapeindex for x in h._fixed], "dpos": [x._dictindex for x in h._group]}


def checkfrozen(ctx, h, before, msg):
    after = frozen(ctx, h)
    for k in ("attach", "shape", "axes", "cols", "pos", "dpos"):
        ctx.check(before[k] == after[k], "%s: %s changed from %r to %r" % (msg, k, before[k], after[k]))
    checkcells(ctx, before["cells"], after["cells"], msg)


# ------------------------------------------------------------------ bin membership oracle

def inkey(ctx, x, key, eps=0.0):
    """(surely in, possibly in) the published bin `key`, with edges uncertain by eps"""
    I = ctx.hb.axis.Interval
    N = ctx.hb.axis.IntervalNaN
    if isinstance(key, N) or (isinstance(key, str) and key == "NaN"):
        r = ctx.isnan(x)
        return r, r
    if isinstance(key, I):
        lo, hi = ctx.scalar(key.low), ctx.scalar(key.high)

        def side(tol_out):
            # tol_out > 0 widens, < 0 narrows; infinite edges are exact
            l = lo - tol_out if abs(lo) != INF else lo
            r = hi + tol_out if abs(hi) != INF else hi
            if tol_out == 0.0:
                a = ctx.le(l, x) if key.closedlow else ctx.lt(l, x)
                b = ctx.le(x, r) if key.closedhigh else ctx.lt(x, r)
            elif tol_out > 0:
                a = ctx.le(l, x) if (abs(lo) != INF or key.closedlow) else ctx.lt(l, x)
                b = ctx.le(x, r) if (abs(hi) != INF or key.closedhigh) else ctx.lt(x, r)
            else:
                a = ctx.lt(l, x) if abs(lo) != INF or not key.closedlow else ctx.le(l, x)
                b = ctx.lt(x, r) if abs(hi) != INF or not key.closedhigh else ctx.le(x, r)
            return ctx.land(a, b)
        if eps == 0.0:
            r = side(0.0)
            return r, r
        return side(-eps), side(eps)
    r = ctx.eq(x, key)
    return r, r


# ------------------------------------------------------------------ arbitrary contents

def arbitrary(ctx, h, name, fills=None, g=24, nonneg=(), only=None):
    """put an arbitrary (symbolic) number into every column of every bin; fills: data that creates the group keys first"""
    for f in ([{}] if fills is None else fills):
        h.fill(f) if f else h._prefill()
    cols = dict((j, n) for n, j in columns(h).items())
    for b, (key, arr) in enumerate(sorted(blocks(h).items(), key=lambda kv: [str(k) for k in kv[0]])):
        shape = ctx.shape(arr)
        for idx in ndindex(shape):
            if only is not None and idx[:-1] not in [(0,) * (len(shape) - 1), tuple(only)]:
                continue
            arr[idx] = ctx.real("%s_%d_%s" % (name, b, "_".join(map(str, idx))), 0 if cols[idx[-1]] in nonneg else -8, 8, g)
    return h


def combine(ctx, a, b, op):
    """cell-wise combination; a missing cell is zero"""
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        names = (a.get(k) or b.get(k)).keys()
        out[k] = dict((n, op(a[k][n] if k in a else 0.0, b[k][n] if k in b else 0.0)) for n in names)
    return out


def mapcells(a, op):
    return dict((k, dict((n, op(x)) for n, x in c.items())) for k, c in a.items())


def raises(ctx, fn, kinds, msg):
    try:
        fn()
    except kinds:
        return True
    ctx.fail(msg)
    return False


# ------------------------------------------------------------------ contents by published bin

def labelled(ctx, h, ref=None, types=True):
    """{(axis expression, published bin) for every axis -> {column: value}}: contents by what is published, not by position;
    ref: histogram whose published bins are used to name bins with symbolic edges"""
    axes = h._group + h._fixed
    out = {}
    keys = [None if ax in h._group else [show2(ctx, k, ax, ref) for k in ax.keys()] for ax in axes]
    for idx, c in cells(ctx, h).items():
        lab = []
        for ax, ks, i in zip(axes, keys, idx):
            lab.append((repr(ax.expr) + (type(ax).__name__ if types else ""), i if ks is None else ks[i]))
        out[tuple(lab)] = c
    return out


def show2(ctx, k, ax, ref):
    if ref is not None and isinstance(k, ctx.hb.axis.Interval) and not isinstance(k, ctx.hb.axis.IntervalNaN) and (ctx.issym(k.low) or ctx.issym(k.high)):
        for r in ref._fixed:
            if r.expr == ax.expr:
                for rk in r.keys():
                    if not isinstance(rk, ctx.hb.axis.IntervalNaN) and k.closedlow == rk.closedlow and k.closedhigh == rk.closedhigh and ctx.decide(ctx.land(ctx.close(k.low, rk.low), ctx.close(k.high, rk.high))):
                        return repr(rk)
    return repr(k)


def without(ctx, lab, gone):
    """sum over the axes whose expression is in gone"""
    out = {}
    for k, c in lab.items():
        k2 = tuple(x for x in k if not any(x[0].startswith(g) for g in gone))
        if k2 in out:
            out[k2] = dict((n, out[k2][n] + c[n]) for n in c)
        else:
            out[k2] = c
    return out
