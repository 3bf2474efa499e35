def overload(*a, **k):
    return lambda f: f
def register_jitable(f):
    return f
