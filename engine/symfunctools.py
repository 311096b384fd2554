"""functools with path-aware caches: nothing memoised on one path leaks into another."""

import functools as _f
from functools import *  # noqa

from .core import ENGINE


def _cached(fn):
    memo = {}
    ENGINE.path_hooks.append(memo.clear)

    @_f.wraps(fn)
    def wrapper(*args, **kw):
        try:
            k = (args, tuple(sorted(kw.items())))
            hash(k)
        except TypeError:
            return fn(*args, **kw)
        if k not in memo:
            memo[k] = fn(*args, **kw)
        return memo[k]

    wrapper.cache_clear = memo.clear
    return wrapper


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _cached(maxsize)
    return _cached


def cache(fn):
    return _cached(fn)


wraps = _f.wraps
update_wrapper = _f.update_wrapper
partial = _f.partial
reduce = _f.reduce
cmp_to_key = _f.cmp_to_key
total_ordering = _f.total_ordering
singledispatch = _f.singledispatch
cached_property = _f.cached_property
