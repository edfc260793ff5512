"""All implemented checks."""
import importlib
_WHERE = {'C01': 'checks.c01', 'C02': 'checks.c01', **{f'C0{i}': 'checks.c03' for i in range(3, 8)}, **{i: 'checks.c08' for i in ('C08', 'C09', 'C10', 'C11', 'C13')}, 'C12': 'checks.c12', 'C14': 'checks.b14', 'C15': 'checks.b14', 'C16': 'checks.b16', 'C17': 'checks.b17', 'C18': 'checks.b17', 'C19': 'checks.b19', 'C20': 'checks.b20', 'C21': 'checks.b21', 'C22': 'checks.b22'}
def get(pid): return getattr(importlib.import_module(_WHERE[pid]), pid)()
class _Claimed(dict):
    def __init__(self):
        for k in _WHERE:
            c = get(k); self[k] = {'technique': c.technique, 'level': c.level, 'note': c.note}
CLAIMED = _Claimed()
