def set(*a, **k): pass
def set_context(*a, **k): pass
def boxplot(*a, **k): pass
