"""What each property's check consists of."""
import flv

ASSUME = [
    "TLC evaluates the specification correctly",
    "the harness records results and observations faithfully (it judges nothing)",
    "behaviours beyond the explored depth are sampled, not enumerated",
]
ALL = {"kind", "elem", "pos", "depth", "data", "handle", "eof", "num", "exc", "bytes"}

def scale(ctx, prof, n):
    if prof == "arr":
        return "arr:%d" % n  # (a fixed table)
    return "%s:%d" % (prof, int(n * ctx.q(1.5, 40)))

def rand(ctx, *ps):
    return ",".join(scale(ctx, p, n) for p, n in ps)

def c01(ctx):
    flv.wire(ctx, ctx.q(6000, 300000), "fixed,short", ctx.q([0, 1, 2, 127, 128, 129, 255], [0, 1, 2, 3, 63, 64, 126, 127, 128, 129, 130, 192, 255]), ctx.q(4, 5))
    flv.stream(ctx, {"kind", "elem", "data", "num", "bytes"}, rand=rand(ctx, ("write", 2500), ("read", 2500)))

def c02(ctx):
    flv.stream(ctx, {"kind", "elem", "pos", "depth", "exc", "eof"}, mc=ctx.q([("read", 4, 4), ("inband", 4, 3)], [("read", 5, 4), ("inband", 5, 4)]), cap=ctx.q(40000, None),
               rand=rand(ctx, ("read", 14000), ("inband", 2000), ("depth", 2000), ("huge", 50)))

def c03(ctx):
    flv.stream(ctx, {"kind", "elem", "pos", "data", "handle", "num", "bytes"}, mc=ctx.q([("blob", 4, 0)], [("blob", 5, 0)]), per=ctx.q(3, 5),
               rand=rand(ctx, ("blob", 14000), ("chaosr", 2000), ("huge", 40), ("hugew", 20)))

def c04(ctx):
    flv.stream(ctx, {"kind", "elem", "pos", "data", "bytes", "num"}, mc=ctx.q([("write", 4, 0)], [("write", 5, 0)]), cap=ctx.q(40000, 1000000), rand=rand(ctx, ("write", 8000), ("wblob", 1500), ("hugew", 60)))
    flv.stream(ctx, {"kind", "elem", "pos", "data", "bytes", "num"}, rand=rand(ctx, ("write", 6000)), release=True, tag="release")

def c05(ctx):
    flv.stream(ctx, {"kind", "bytes", "handle", "data", "num", "pos", "elem"}, mc=ctx.q([("wblob", 5, 0)], [("wblob", 7, 0)]), cap=ctx.q(50000, 1000000),
               rand=rand(ctx, ("wblob", 14000), ("chaosw", 2000), ("hugew", 60)))

def c06(ctx):
    flv.stream(ctx, {"kind", "elem", "pos", "depth"}, mc=ctx.q([("skip", 4, 4)], [("skip", 5, 5)]), cap=ctx.q(90000, 1000000), rand=rand(ctx, ("depth", 10000), ("pos", 3000), ("inband", 1500), ("huge", 60)))
    flv.mixed(ctx, {"kind", "elem", "pos", "depth"}, n=ctx.q(4000, 100000))

def c07(ctx):
    flv.stream(ctx, {"kind", "elem", "eof", "data"}, mc=ctx.q([("eof", 4, 3)], [("eof", 6, 3)]), cap=ctx.q(30000, 1000000), per=ctx.q(2, 5), rand=rand(ctx, ("eof", 14000), ("chaosr", 2000)))

def c08(ctx):
    flv.stream(ctx, {"kind", "pos", "num", "elem"}, mc=ctx.q([("pos", 4, 6)], [("pos", 4, 12)]), cap=ctx.q(60000, 1000000), rand=rand(ctx, ("pos", 12000), ("wblob", 2000), ("read", 2000), ("huge", 30), ("hugew", 20)))
    flv.mixed(ctx, {"kind", "pos", "num", "elem"}, n=ctx.q(4000, 100000))

def c18(ctx):
    flv.stream(ctx, ALL, rand=rand(ctx, ("chaosr", 6000), ("chaosw", 4000), ("faultr", 6000), ("faultw", 4000)))
    flv.schema(ctx, {"accept", "value", "pos", "fault", "bytes"}, rand=rand(ctx, ("chaos", 2500), ("fault", 2500), ("big", 60)))

def c19(ctx):
    flv.stream(ctx, {"kind", "elem", "exc", "pos", "data"}, mc=ctx.q([("inband", 4, 4)], [("inband", 5, 4)]), cap=ctx.q(40000, 1000000), rand=rand(ctx, ("inband", 9000), ("wblob", 4000), ("depth", 1000), ("huge", 80)))
    flv.schema(ctx, {"accept", "value", "exc"}, rand=rand(ctx, ("pad", 2500)))

def c20(ctx):
    flv.stream(ctx, {"alloc"}, mc=[("blob", 3, 0), ("pos", 2, 12)], rand=rand(ctx, ("hostile", 12000), ("huge", 40)))
    flv.stream(ctx, {"alloc"}, rand=rand(ctx, ("hostile", 6000)), release=True, tag="release")
    flv.schema(ctx, {"alloc"}, rand=rand(ctx, ("hostile", 5000), ("fault", 1000), ("big", 120)))
    flv.schema(ctx, {"alloc"}, rand=rand(ctx, ("hostile", 3000)), release=True, tag="trelease")

def c09(ctx):
    flv.schema(ctx, {"rt"}, mc=ctx.q([("rt", 3)], [("rt", 5)]), cap=ctx.q(8000, None), rand=rand(ctx, ("every", 1400), ("rt", 5000), ("big", 120), ("arr", 130)))

def c10(ctx):
    flv.schema(ctx, {"bytes"}, mc=ctx.q([("rt", 3)], [("rt", 5), ("unk", 4)]), cap=ctx.q(8000, None), rand=rand(ctx, ("every", 1400), ("rt", 6000), ("unk", 1000), ("big", 80), ("arr", 130)))
    flv.mixed(ctx, {"bytes"}, n=ctx.q(4000, 100000))

def c11(ctx):
    flv.schema(ctx, {"accept", "value", "class"}, mc=ctx.q([("doc", 3)], [("doc", 4)]), cap=ctx.q(15000, 400000), rand=rand(ctx, ("doc", 9000), ("err", 3000), ("every", 600), ("big", 150), ("arr", 130)))
    flv.mixed(ctx, {"accept", "value", "class"}, n=ctx.q(4000, 100000))

def c12(ctx):
    flv.schema(ctx, {"accept", "limit"}, mc=ctx.q([("limit", 3)], [("limit", 5)]), cap=ctx.q(8000, None), rand=rand(ctx, ("limit", 5000), ("doc", 1500), ("big", 300)))
    flv.mixed(ctx, {"accept", "limit"}, n=ctx.q(4000, 100000))

def c13(ctx):
    flv.schema(ctx, {"accept", "value"}, mc=ctx.q([("compat", 3)], [("compat", 5)]), cap=ctx.q(8000, None), rand=rand(ctx, ("compat", 12000)))

def c14(ctx):
    flv.schema(ctx, {"accept", "value", "reser"}, mc=ctx.q([("unk", 3)], [("unk", 5)]), cap=ctx.q(8000, None), rand=rand(ctx, ("unk", 11000), ("big", 60)))

def c15(ctx):
    flv.schema(ctx, {"accept", "value", "off"}, mc=ctx.q([("zc", 3)], [("zc", 5)]), cap=ctx.q(8000, None), rand=rand(ctx, ("zc", 9000), ("big", 60)))
    flv.stream(ctx, {"kind", "data", "alias", "handle"}, mc=ctx.q([("blob", 3, 0)], [("blob", 4, 0)]), rand=rand(ctx, ("blob", 6000)))
    flv.mixed(ctx, {"accept", "value", "off"}, n=ctx.q(4000, 100000))

def c16(ctx):
    flv.copying(ctx, {"kind", "elem", "pos", "data", "bytes", "num"}, mc=ctx.q([(5, 2), (4, 3)], [(6, 2), (5, 3)]), per=ctx.q(1, 3), cap=ctx.q(20000, 500000),
                rand=rand(ctx, ("copy", 5000), ("copychaos", 1500), ("copyfault", 1500), ("copyhuge", 30)))

def c17(ctx):
    flv.schema(ctx, {"path", "detail"}, mc=ctx.q([("doc", 3)], [("doc", 4)]), cap=ctx.q(15000, 400000), rand=rand(ctx, ("err", 9000), ("doc", 3000), ("limit", 500), ("big", 80)))
    flv.mixed(ctx, {"path", "detail"}, n=ctx.q(4000, 100000))

TYPED = {"accept", "value", "class", "limit", "off", "path", "detail"}
def c21(ctx):
    flv.mixed(ctx, ALL | TYPED, mc=ctx.q([("read", 3, 3), ("write", 4, 0)], [("read", 4, 3), ("write", 5, 0)]), cap=ctx.q(30000, 600000), n=ctx.q(12000, 300000))
    flv.schema(ctx, {"accept", "value", "pos", "rt"}, rand=rand(ctx, ("rt", 2500), ("doc", 2000), ("pad", 800)))

CHECKS = {"C21": c21, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17,
          "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
          "C18": c18, "C19": c19, "C20": c20}

TECHNIQUE = {}
NOTES = {}
NA = {}
