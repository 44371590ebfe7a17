"""Base class of all checks."""
from .sched import RandomStrategy


class Check:
    id = None
    tier = 'quick'
    needs = ()            # warm-ups: 'resampy', 'plot'

    def setup(self):
        pass

    def scenario(self, rng):
        raise NotImplementedError

    def strategy(self, seed, scn):
        return RandomStrategy(seed)

    def wants_faults(self, scn):
        return bool(scn.get('nfaults'))

    def choose_faults(self, rng, hits, scn):
        """Pick scn['nfaults'] faults among the sites hit in the fault-free execution."""
        out = []
        kinds = self.fault_kinds
        sites = sorted(s for s in hits if s in kinds and hits[s] > 0)
        if not sites:
            return []
        for _ in range(scn['nfaults']):
            s = rng.choice(sites)
            out.append(dict(site=s, nth=rng.randrange(hits[s]), kind=rng.choice(kinds[s])))
        return out

    fault_kinds = {}

    def nontrivial(self, scn, faults, res):
        return res['switches'] > 0 or bool(res['fired'])

    def shrink(self, scn):
        return []

    def execute(self, scn, faults, strategy, out):
        raise NotImplementedError


def violation(cls, detail, sig=None):
    return {'class': cls, 'detail': str(detail)[:600], 'sig': sig or cls}
