"""
Stateless exploration of all the choices made during a run.
"""
class Stop(BaseException):
    """
    The bound on the number of choices was reached.
    """

class Chooser:
    def __init__(self, prefix, limit):
        self.prefix = prefix
        self.limit = limit
        self.made = []
        self.arity = []

    def __call__(self, num):
        ii = len(self.made)
        if ii >= self.limit:
            raise Stop
        val = self.prefix[ii] if ii < len(self.prefix) else 0
        if val >= num:
            raise RuntimeError('nondeterministic run')
        self.made.append(val)
        self.arity.append(num)
        return val

def all_runs(limit):
    """
    Generate the choosers of all the runs: depth first, the last choice varies
    fastest.
    """
    prefix = []
    while True:
        chooser = Chooser(prefix, limit)
        yield chooser
        made, arity = chooser.made, chooser.arity
        while made and made[-1] + 1 >= arity[len(made) - 1]:
            made.pop()
        if not made:
            return
        made[-1] += 1
        prefix = list(made)
