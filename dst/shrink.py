"""Minimisation of a failing specification (delta debugging over JSON)."""


def drop_items(spec, key, keep=0):
    """Remove halves, then single items of the list ``spec[key]``."""
    xs = spec.get(key) or []
    n = len(xs)
    if n <= keep:
        return
    if n > 3:
        h = n // 2
        yield {**spec, key: xs[:h]}
        yield {**spec, key: xs[h:]}
    for i in range(n):
        if n - 1 >= keep:
            yield {**spec, key: xs[:i] + xs[i + 1 :]}


def each_item(spec, key, fn):
    """Replace single items of ``spec[key]`` by the candidates of ``fn``."""
    xs = spec.get(key) or []
    for i, x in enumerate(xs):
        for y in fn(x):
            if y != x:
                yield {**spec, key: xs[:i] + [y] + xs[i + 1 :]}


def plan_entry(e):
    if e.get("faults"):
        for i in range(len(e["faults"])):
            yield {**e, "faults": e["faults"][:i] + e["faults"][i + 1 :]}
    if e.get("order") is not None:
        yield {**e, "order": None}
    if e.get("cuts"):
        yield {**e, "cuts": []}
        if len(e["cuts"]) > 1:
            for i in range(len(e["cuts"])):
                yield {**e, "cuts": e["cuts"][:i] + e["cuts"][i + 1 :]}
        for i, c in enumerate(e["cuts"]):
            if c > 1:
                yield {**e, "cuts": e["cuts"][:i] + [1] + e["cuts"][i + 1 :]}


def plan(spec, key="plan"):
    yield from drop_items(spec, key, keep=1)
    yield from each_item(spec, key, plan_entry)


def sub(spec, key, fn):
    """Shrink the nested value ``spec[key]`` with ``fn``."""
    if spec.get(key) is not None:
        for value in fn(spec[key]):
            yield {**spec, key: value}


def remove_keys(d, keys):
    for k in keys:
        if k in d:
            yield {a: b for a, b in d.items() if a != k}


def toward(d, key, values):
    """Try the given simpler values for ``d[key]`` (only before the current one)."""
    if key in d:
        for v in values:
            if v == d[key]:
                break
            yield {**d, key: v}


def size(spec):
    """Rough size of a specification, to refuse candidates that grow."""
    import json

    return len(json.dumps(spec))
