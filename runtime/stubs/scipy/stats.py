def wilcoxon(*a, **k):
    raise NotImplementedError
def friedmanchisquare(*a, **k):
    raise NotImplementedError
