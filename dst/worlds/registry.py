"""property id -> world"""
import importlib

TABLE = {
    'C01': ('threads', 'Threads'),
    'C02': ('session', 'Untouched'),
    'C03': ('session', 'History'),
    'C04': ('clock', 'Clock'),
    'C05': ('files', 'FilesFaultFree'),
    'C06': ('files', 'FilesFaulty'),
    'C07': ('hb', 'Resume'),
    'C08': ('hb', 'Truth'),
    'C10': ('settings', 'Settings'),
    'C11': ('delivery', 'DeliveryIV'),
    'C12': ('delivery', 'DeliveryIF'),
    'C13': ('export', 'Concurrent'),
    'C14': ('export', 'Report'),
    'C15': ('tables', 'Tables'),
    'C09': ('hb', 'Budget'),
    'C16': ('cluster', 'Cluster'),
    'C17': ('figures', 'Figures'),
}


def get(prop):
    mod, cls = TABLE[prop]
    w = getattr(importlib.import_module('dst.worlds.' + mod), cls)()
    w.prepare()
    return w
