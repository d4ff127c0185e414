TABLE = {}


class Scenario:
    """One property's workload, fault mix and oracle."""

    prop = ""
    quick_runs = 800
    thorough_runs = 20000
    quick_cap = 300
    thorough_cap = 3000
    min_runs = 20
    rule = ""
    real: list = []
    stub: list = []
    assumptions: list = []
    must_reach: tuple = ()

    def preload(self):
        """Imports shared by all workers (in the main process, before workers are forked)."""

    def setup(self):
        """Per worker, before the seam is installed."""

    peer = None

    def start_peer(self):
        """A second interpreter with another hash seed (see vsim.peer)."""
        from ..peer import Peer

        self.peer = Peer(self)

    def run(self, sim):
        raise NotImplementedError


for _p in ("D01", "D02", "D03", "D04", "D05", "D06"):
    TABLE[_p] = "vsim.scen.data"
for _p in ("P01", "P02", "P03", "P04"):
    TABLE[_p] = "vsim.scen.prep"
for _p in ("G01", "G02", "G03"):
    TABLE[_p] = "vsim.scen.graph"
for _p in ("S01", "S02"):
    TABLE[_p] = "vsim.scen.samp"
for _p in ("B01", "B02", "B03", "B04", "B05", "B06"):
    TABLE[_p] = "vsim.scen.bench"

TABLE["V01"] = "vsim.scen.view"
TABLE["M01"] = "vsim.scen.meth"
TABLE["M02"] = TABLE["M03"] = TABLE["E01"] = "vsim.scen.meth"
TABLE["A01"] = "vsim.scen.given"
TABLE["B07"] = "vsim.scen.given"
TABLE["B08"] = "vsim.scen.given"
TABLE["C01"] = "vsim.scen.cli"
