"""Which functions under contract decide which property."""
from . import spec_rbuf, spec_dbt, spec_http
def all_items(P):
    return spec_rbuf.targets()+spec_dbt.targets()+spec_http.targets()
def groups(pid,tier):
    g=[dict(name="release",items=lambda P:[(m,t) for m,t in all_items(P) if pid in t.props])]
    if pid=="C10" and tier=="thorough":
        for bs in(256,4096,32768):
            g.append(dict(name=f"BUFFER_SIZE={bs}",extract=dict(files=["read_buffer"],defines=(f"-DBUFFER_SIZE={bs}",)),items=lambda P,bs=bs:spec_rbuf.targets(bs)))
    return g
def standins(pid): return []
def run_standins(pid,tier): return []
def assumptions(pid): return []
