from . import build, mir
def load():
    d, secs = build.dump()
    p = mir.Prog(d, build.EXPECTED)
    p.build_s = secs
    return p
