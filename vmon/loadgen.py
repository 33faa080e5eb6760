"""Execute generated Python modules under instrumentation.

The generated module is exec'd inside a throw-away fake package so that its relative
imports resolve to stand-ins with documented semantics, and `numpy.einsum` /
`opt_einsum.contract_expression` are replaced by recording wrappers: the monitor sees each
contraction (subscripts, operand shapes) that the generated code really performs.
"""
import sys
import types

import numpy as np

from .tensor import contract, sym_sum


class ContractError(AssertionError):
    pass


class Recorder:
    def __init__(self):
        self.einsum = 0
        self.expr_built = 0
        self.expr_called = 0
        self.symmetrize = 0
        self.distinct = set()
        self.trace = None      # optional list of (subs, shapes)

    def on(self, subs, ops):
        self.einsum += 1
        self.distinct.add(subs)
        if self.trace is not None:
            self.trace.append((subs, tuple(id(o) for o in ops)))


class _NP:
    """numpy proxy whose einsum is recorded."""
    def __init__(self, rec):
        object.__setattr__(self, '_rec', rec)

    def __getattr__(self, name):
        if name == 'einsum':
            rec = self._rec

            def einsum(*a, **k):
                if not a or not isinstance(a[0], str):
                    raise ContractError(f'einsum called without a subscript string: {a[:1]!r}')
                rec.on(a[0], a[1:])
                return contract(*a) if set(k) <= {'optimize'} else np.einsum(*a, **k)
            return einsum
        return getattr(np, name)


class _Log:
    def __getattr__(self, name):
        return lambda *a, **k: None


def _make_oe(rec):
    oe = types.ModuleType('opt_einsum')

    def contract_expression(subs, *shapes, **kw):
        if not isinstance(subs, str):
            raise ContractError(f'contract_expression got {subs!r} instead of a subscript string')
        ins = subs.replace(' ', '').split('->')[0].split(',')
        if len(ins) != len(shapes):
            raise ContractError(f'contract_expression: {subs!r} with {len(shapes)} shapes')
        for i, s in zip(ins, shapes):
            if len(i) != len(s):
                raise ContractError(f'contract_expression: {subs!r} with shapes {shapes}')
        rec.expr_built += 1

        def call(*ops):
            if len(ops) != len(shapes):
                raise ContractError(f'expression {subs!r} called with {len(ops)} operands')
            for o, s in zip(ops, shapes):
                if tuple(np.shape(o)) != tuple(s):
                    raise ContractError(f'expression {subs!r} built for {shapes}, operand has shape {np.shape(o)}')
            rec.expr_called += 1
            rec.on(subs, ops)
            return contract(subs, *ops)
        call.subs = subs
        return call
    oe.contract_expression = contract_expression
    oe.contract = np.einsum
    return oe


def load_source(src, name='generated', rec=None, residual=None):
    rec = rec or Recorder()
    pk = types.ModuleType('vmonpk'); pk.__path__ = []
    sub = types.ModuleType('vmonpk.sub'); sub.__path__ = []
    symm = types.ModuleType('vmonpk.sub.symmetrize')

    def symmetrize_tensor(N, tensor, order):
        if tensor.ndim != 2 + order:
            raise ContractError(f'symmetrize_tensor(order={order}) on a tensor of shape {tensor.shape}')
        rec.symmetrize += 1
        return sym_sum(tensor, 2)
    symm.symmetrize_tensor = symmetrize_tensor
    logc = types.ModuleType('vmonpk.log_conf'); logc.log = _Log()
    res = residual if residual is not None else types.ModuleType('vmonpk.sub.residual_equations')
    mods = {'opt_einsum': _make_oe(rec), 'vmonpk': pk, 'vmonpk.sub': sub,
            'vmonpk.sub.symmetrize': symm, 'vmonpk.log_conf': logc,
            'vmonpk.sub.residual_equations': res}
    sub.symmetrize = symm
    sub.residual_equations = res
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        m = types.ModuleType('vmonpk.sub.' + name)
        m.__package__ = 'vmonpk.sub'
        exec(compile(src, f'<{name}>', 'exec'), m.__dict__)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    if 'np' in m.__dict__:
        m.__dict__['np'] = _NP(rec)
    m._rec = rec
    return m


class Refused(Exception):
    """what the stand-in truncation raises when the level being confirmed is switched off"""


CONFIRM = {f'confirm_at_least_{w}': i + 1 for i, w in
           enumerate(('singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples'))}


class Flags:
    """Truncation / ansatz flags handed to generated code: explicit attributes, all others `default`."""
    def __init__(self, default=True, **kw):
        self.__dict__['_d'] = default
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n.startswith('confirm'):
            return lambda *a, **k: self._confirm(n)
        return self._d

    def _confirm(self, name):
        lev = self.__dict__.get('_level')
        if lev is not None and CONFIRM.get(name, 0) > lev:
            raise Refused(name)

    def __repr__(self):
        return f"Flags({ {k: v for k, v in self.__dict__.items() if k != '_d'} }, default={self._d})"
