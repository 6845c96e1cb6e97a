"""Functions of itertools, functools and builtins written out in Python.  The
interpreter executes these bodies like the package's own when the real ones are
given values it reasons about (the C implementations cannot take them)."""


def chain(*its):
    for it in its:
        yield from it


def chain_from_iterable(its):
    for it in its:
        yield from it


def islice(it, *a):
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    start = 0 if start is None else start
    step = 1 if step is None else step
    if start < 0 or step < 1 or stop is not None and stop < 0:
        raise ValueError('Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.')
    if stop is not None and stop <= start:
        if start == 0:
            return
    i = 0
    for x in it:
        if stop is not None and i >= stop:
            return
        if i >= start and (i - start) % step == 0:
            yield x
        i += 1
        if stop is not None and i >= stop:
            return


def accumulate(it, func=None, *, initial=None):
    tot = initial
    first = initial is None
    if not first:
        yield tot
    for x in it:
        if first:
            tot = x
            first = False
        elif func is None:
            tot = tot + x
        else:
            tot = func(tot, x)
        yield tot


def repeat(x, times):
    for _ in range(times):
        yield x


def takewhile(f, it):
    for x in it:
        if not f(x):
            return
        yield x


def dropwhile(f, it):
    dropping = True
    for x in it:
        if dropping and f(x):
            continue
        dropping = False
        yield x


def filterfalse(f, it):
    for x in it:
        if not (x if f is None else f(x)):
            yield x


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def starmap(f, it):
    for a in it:
        yield f(*a)


def pairwise(it):
    first = True
    last = None
    for x in it:
        if not first:
            yield (last, x)
        first = False
        last = x


def batched(it, n):
    if n < 1:
        raise ValueError('n must be at least one')
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield tuple(b)
            b = []
    if b:
        yield tuple(b)


def zip_longest(*its, fillvalue=None):
    ls = [list(x) for x in its]
    n = 0
    for x in ls:
        n = max(n, len(x))
    for i in range(n):
        yield tuple([x[i] if i < len(x) else fillvalue for x in ls])


def product(*its, repeat=1):
    pools = [tuple(x) for x in its] * repeat
    out = [()]
    for p in pools:
        out = [t + (x,) for t in out for x in p]
    yield from out


_NO = object()


def reduce(f, it, initial=_NO):
    tot = initial
    for x in it:
        tot = x if tot is _NO else f(tot, x)
    if tot is _NO:
        raise TypeError('reduce() of empty iterable with no initial value')
    return tot


def sorted_(it, *, key=None, reverse=False):
    out = []
    keys = []
    for x in it:
        k = x if key is None else key(x)
        j = len(out)
        for i in range(len(out) - 1, -1, -1):
            if keys[i] < k if reverse else k < keys[i]:
                j = i
            else:
                break
        out.insert(j, x)
        keys.insert(j, k)
    return out


def extreme(ismin, it, key=None, default=_NO):
    best = kb = _NO
    for x in it:
        k = x if key is None else key(x)
        if best is _NO or (k < kb if ismin else k > kb):
            best = x
            kb = k
    if best is _NO:
        if default is _NO:
            raise ValueError('iterable argument is empty')
        return default
    return best


def count(l, x):
    n = 0
    for y in l:
        if y == x:
            n += 1
    return n


def index(l, x, start=0, stop=None):
    n = len(l)
    stop = n if stop is None or stop > n else stop
    if start < 0:
        start = max(0, start + n)
    if stop < 0:
        stop += n
    for i in range(start, stop):
        if l[i] == x:
            return i
    raise ValueError('not in list')


def remove(l, x):
    for i in range(len(l)):
        if l[i] == x:
            del l[i]
            return
    raise ValueError('list.remove(x): x not in list')


def counting(start=0, step=1):
    while True:
        yield start
        start = start + step


def cycle(it):
    xs = list(it)
    while xs:
        yield from xs


def forever(x):
    while True:
        yield x
