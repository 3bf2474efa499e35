def fht(a, dln, mu, offset=0.0, bias=0.0):
    raise NotImplementedError
def fhtoffset(dln, mu, initial=0.0, bias=0.0):
    raise NotImplementedError
