def Graph(*a, **k): raise NotImplementedError
def find_cliques(*a, **k): raise NotImplementedError
