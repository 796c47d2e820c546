"""Source-line switch points through ``sys.monitoring``."""

import sys
import types

from . import kernel
from .kernel import get_ident

_mon = sys.monitoring
TOOL = 4
_codes = set()
lines = []          # every instrumented (qualname, line), in source order


def _on_line(code, line):
    s = kernel.ACTIVE
    if s is None:
        return
    th = s.current
    if th is None or th.ident != get_ident() or s.atomic:
        return
    th.line_k += 1
    for hook in s.line_hooks:
        hook(th, code, line)
    s.point('line', (code.co_qualname, line))


def start():
    _mon.use_tool_id(TOOL, 'aiuti-sim')
    _mon.register_callback(TOOL, _mon.events.LINE, _on_line)


def _walk(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _walk(c)


def instrument(module_code, register=True):
    """Make every line of a module's functions a switch point."""
    for c in _walk(module_code):
        if c in _codes:
            continue
        if c.co_name == '<module>':
            continue
        _codes.add(c)
        _mon.set_local_events(TOOL, c, _mon.events.LINE)
        if register:
            seen = []
            for _, _, ln in c.co_lines():
                if ln is not None and ln > c.co_firstlineno \
                        and ln not in seen:
                    seen.append(ln)
            lines.extend((c.co_qualname, ln) for ln in sorted(seen))


def instrument_function(fn):
    code = fn.__code__
    if code not in _codes:
        _codes.add(code)
        _mon.set_local_events(TOOL, code, _mon.events.LINE)
