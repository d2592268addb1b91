"""Maps property identifiers to their drivers."""
import importlib

WHERE = {
    'C01': ('p_graph', 'C01'), 'C02': ('p_graph', 'C02'), 'C03': ('p_graph', 'C03'), 'C04': ('p_graph', 'C04'),
    'C05': ('p_graph', 'C05'), 'C06': ('p_graph', 'C06'),
    'C14': ('p_arch', 'C14'), 'C15': ('p_arch', 'C15'),
    'C07': ('p_map', 'C07'), 'C08': ('p_map', 'C08'), 'C09': ('p_map', 'C09'),
    'C10': ('p_order', 'C10'), 'C11': ('p_order', 'C11'),
    'C16': ('p_view', 'C16'), 'C17': ('p_view', 'C17'),
    'C22': ('p_dist', 'C22'), 'C23': ('p_dist', 'C23'), 'C24': ('p_dist', 'C24'),
    'C25': ('p_dist', 'C25'), 'C26': ('p_dist', 'C26'), 'C27': ('p_dist', 'C27'),
    'C18': ('p_strat', 'C18'),
    'C20': ('p_thread', 'C20'), 'C21': ('p_thread', 'C21'), 'C19': ('p_rand', 'C19'),
    'C12': ('p_mesh', 'C12'), 'C13': ('p_mesh', 'C13'),
}


def get(prop):
    m, c = WHERE[prop]
    return getattr(importlib.import_module(m), c)()
