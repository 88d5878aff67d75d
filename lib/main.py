from core import *
import model, fam, iolayer, bulk, directives, utf, faults, depth
MODELS = {k: getattr(fam, k.lower()) for k in ("C%02d" % i for i in range(1, 27)) if hasattr(fam, k.lower())}
OTHER = {
    "C02": lambda r: bulk.run(r, ["vec_u8", "vec_st", "vec_arr"]),
    "C03": lambda r: bulk.run(r, ["pad_before", "pad_after", "pad_size", "align_after", "seek"]),
    "C09": lambda r: bulk.run(r, bulk.COUNTED),
    "C10": lambda r: bulk.run(r, bulk.ENDED + bulk.EOFS),
    "C11": lambda r: (bulk.run(r, bulk.STR), utf.run(r)),
    "C12": lambda r: bulk.run(r, ["ptr"]),
    "C18": lambda r: bulk.run(r, ["vec_u8", "vec_u16", "vec_st", "rb", "sep", "until", "ueof16", "nstr", "wstr", "vecnz"], frag=True),
    "C20": iolayer.run,
    "C22": directives.run,
    "C23": lambda r: (depth.run(r), bulk.run(r, bulk.COUNTED + bulk.ENDED + bulk.STR + bulk.EOFS, huge=True)),
    "C25": faults.run,
}
def run(prop):
    rep = Report(prop)
    if prop in MODELS: model.run_jobs(rep, prop, MODELS[prop]())
    elif prop not in OTHER: raise ToolError("no such check: " + prop)
    if prop in OTHER: OTHER[prop](rep)
    return rep.done()
