class GridSearchCV:
    def __init__(self, *a, **k):
        raise NotImplementedError
def cross_validate(*a, **k):
    raise NotImplementedError
