PROPERTY = 'C18'
NEEDS = 'workers that finish in an order different from the one in which they were given their tasks'
BREAKS = 'a result is stored at the position of the task sent last instead of its own'
EDITS = [('pocomc/parallel.py', '            taskid = status.tag\n', '            taskid = status.tag if tasklist else taskid\n')]
DEMO = '''
import sys, types
class Status:
    source = tag = None
class Comm:
    """Three workers; results come back in reverse order of completion."""
    size = 4
    def __init__(self):
        self.done = []
    def Get_size(self): return 4
    def Get_rank(self): return 0
    rank = 0
    def send(self, task, dest=None, tag=None):
        if task is not None:
            self.done.append((task[0](task[1]), dest, tag))
    def Iprobe(self, source=None, tag=None): return len(self.done) >= 3
    def Probe(self, source=None, tag=None): assert self.done
    def recv(self, source=None, tag=None, status=None):
        r, status.source, status.tag = self.done.pop(0 if len(self.done) > 2 else -1)
        return r
MPI = types.SimpleNamespace(Status=Status, ANY_SOURCE=-1, ANY_TAG=-1, COMM_WORLD=Comm())
import pocomc.parallel as par
par.MPI = MPI
pool = par.MPIPool.__new__(par.MPIPool)
pool.comm, pool.master, pool.rank, pool.workers, pool.size = MPI.COMM_WORLD, 0, 0, {1, 2, 3}, 3
assert pool.map(lambda v: v * v, list(range(10))) == [v * v for v in range(10)]
'''
