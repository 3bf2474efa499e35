"""Records what is drawn; draws nothing."""
class Rec:
    def __init__(self):
        self.calls = []
    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
        return f
_cur = Rec()
def figure(*a, **k):
    global _cur
    _cur = Rec()
    return _cur
def _g(name):
    def f(*a, **k):
        _cur.calls.append((name, a, k))
    return f
plot, scatter, title, hlines, legend, show, savefig = map(_g, ('plot', 'scatter', 'title', 'hlines', 'legend', 'show', 'savefig'))
