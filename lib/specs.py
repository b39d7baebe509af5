"""What each check runs."""
def cpp(prog, *args, **kw):
    return dict(kind="cpp", prog=prog, args=list(args), **kw)

def py(prog, *args, **kw):
    return dict(kind="py", prog=prog, args=list(args), **kw)

SPECS = {
    "I01": dict(parts=[cpp("vh_intervals", "--mode", "dissect")]),
    "I02": dict(parts=[cpp("vh_intervals", "--mode", "algebra")]),
    "I03": dict(parts=[cpp("vh_intervals", "--mode", "partition")]),
    "I04": dict(parts=[cpp("vh_intervals", "--mode", "segment")]),
    "A01": dict(parts=[cpp("vh_alg", "--mode", "bases")]),
    "A02": dict(parts=[cpp("vh_alg", "--mode", "free")]),
    "A03": dict(parts=[cpp("vh_alg", "--mode", "explog")]),
    "A04": dict(parts=[cpp("vh_alg", "--mode", "shuffle")]),
    "A05": dict(parts=[cpp("vh_alg", "--mode", "adjoint")]),
    "A06": dict(parts=[cpp("vh_alg", "--mode", "lie")]),
    "A07": dict(parts=[cpp("vh_alg", "--mode", "cbh")]),
    "A08": dict(parts=[cpp("vh_alg", "--mode", "convert")]),
    "A09": dict(parts=[cpp("vh_alg", "--mode", "history")]),
    "A10": dict(parts=[cpp("vh_alg", "--mode", "ctxhist")]),
    "S01": dict(parts=[cpp("vh_scalar", "--mode", "scalar")]),
    "S02": dict(parts=[cpp("vh_scalar", "--mode", "arrays")]),
    "S03": dict(parts=[cpp("vh_generic", "--mode", "ops"), cpp("vh_generic", "--mode", "conv")]),
    "S04": dict(parts=[cpp("vh_generic", "--mode", "hist"), cpp("vh_generic", "--mode", "array")]),
    "S05": dict(parts=[cpp("vh_genpoly", "--mode", "mono"), cpp("vh_genpoly", "--mode", "poly")]),
    "T01": dict(parts=[py("vh_streams.py", "--mode", "t01"), cpp("vh_cstreams", "--mode", "increments")]),
    "T02": dict(parts=[py("vh_streams.py", "--mode", "t02")]),
    "T03": dict(parts=[py("vh_streams.py", "--mode", "t03"), cpp("vh_cstreams", "--mode", "pieces")]),
    "T08": dict(parts=[py("vh_streams.py", "--mode", "t08")]),
    "T06": dict(parts=[py("vh_streams.py", "--mode", "t06")]),
    "T07": dict(parts=[py("vh_streams.py", "--mode", "t07")]),
    "T05": dict(parts=[py("vh_streams.py", "--mode", "t05"), cpp("vh_cstreams", "--mode", "ticks"), cpp("vh_cstreams", "--mode", "helper")]),
    "T09": dict(parts=[py("vh_streams.py", "--mode", "t09")]),
    "T10": dict(parts=[cpp("vh_cstreams", "--mode", "schema")]),
    "T04": dict(parts=[cpp("vh_brownian", "--mode", "brownian")]),
    "B01": dict(parts=[py("vh_pyalg.py", "--mode", "b01")]),
    "B02": dict(parts=[py("vh_pyalg.py", "--mode", "b02")]),
    "B03": dict(parts=[py("vh_pyalg.py", "--mode", "b03")]),
    "B04": dict(parts=[py("vh_pyscalar.py", "--mode", "b04")]),
    "B05": dict(parts=[py("vh_pyscalar.py", "--mode", "b05")]),
    "A11": dict(parts=[py("vh_tfun.py")]),
    "P01": dict(parts=[py("vh_pickle.py", "--mode", "p01")]),
    "P02": dict(parts=[py("vh_pickle.py", "--mode", "p02")]),
    "P03": dict(parts=[cpp("vh_archive", "--mode", "values"), cpp("vh_archive", "--mode", "streams")]),
    "R01": dict(parts=[cpp("vh_brownian", "--mode", "rng")]),
    "C01": dict(parts=[cpp("vh_threads", "--mode", "streams", flavour="tsan")]),
    "C02": dict(parts=[cpp("vh_threads", "--mode", "algebra", flavour="tsan")]),
    "K01": dict(parts=[cpp("vh_compute", "--mode", "tensor"), cpp("vh_compute", "--mode", "vector")]),
    "K02": dict(parts=[py("vh_pycompute.py", "--mode", "ops", targets=["RoughPy_PyModule", "RoughPyComputeModule"]),
                       py("vh_pycompute.py", "--mode", "bases", targets=["RoughPy_PyModule", "RoughPyComputeModule"])]),
}
