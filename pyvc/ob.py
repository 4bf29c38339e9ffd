"""Registry of obligations: a contract (harness) per function or group of functions."""
OBS = {}       # property -> list of Ob
OPAQUE = {}    # name -> (spec function(F, *args), argument lengths, output length)
LEMMA = {}     # name -> rewrite rule
CONTRACT = {}  # name -> contract function(F, *args)


class Ob:
    def __init__(self, prop, name, fn, **k):
        self.prop, self.name, self.fn = prop, name, fn
        self.sizes = k.pop('sizes', None)        # list of {dim: int} for the bounded fallback
        self.trials = k.pop('trials', 120)
        self.budget = k.pop('budget', 25)
        self.contracts = k.pop('contracts', ())  # [(qualified name, name of an opaque specification function or of a contract)]
        self.sym = k.pop('sym', True)
        self.conc = k.pop('conc', True)
        self.thorough = k.pop('thorough', False)  # only in the thorough tier
        self.bounded = k.pop('bounded', None)     # bounded by construction: text
        self.big = k.pop('big', None)             # CPython samples: sizes up to this now and then
        self.doc = (fn.__doc__ or '').strip()
        assert not k, k


def ob(prop, name=None, **k):
    def deco(fn):
        OBS.setdefault(prop, []).append(Ob(prop, name or fn.__name__, fn, **k))
        return fn
    return deco


def opaque(name, arglens, outlen):
    """declare a specification function usable as an opaque contract"""
    def deco(fn):
        OPAQUE[name] = (fn, tuple(arglens), outlen)
        return fn
    return deco


def contract(name):
    """declare the contract of a function: fn(F, *arguments) states its preconditions (F.require...) and returns its result"""
    def deco(fn):
        CONTRACT[name] = fn
        return fn
    return deco


def lemma(name):
    """rewrite rule for an opaque specification function (a proved lemma over its definition): fn(F, k, *arguments) -> value of component k, or None"""
    def deco(fn):
        LEMMA[name] = fn
        return fn
    return deco


class Out:
    """outcome of a call: ('ok', value) or ('exc', exception)"""

    def __init__(self, kind, val):
        self.kind, self.val = kind, val

    @property
    def ok(self): return self.kind == 'ok'
    @property
    def raised(self): return self.kind == 'exc'

    def __repr__(self):
        return 'Out(%s, %r)' % (self.kind, self.val)
