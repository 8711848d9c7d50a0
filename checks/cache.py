"""P06-P09: cached functions and values (CacheRules, CacheImpl, CacheTrace) under controlled schedules."""
from vlib import tlc, build, schedule

INV = ["SingleFlight", "RightResult", "RightException", "NoDeadlock", "Independent"]

# scenario: settings and one program per thread (see harness/cachedrv.cpp)
SCEN = {
    "P06": [
        "objs=f0 prog=cf0.1;cf0.1",
        "objs=f0 prog=cf0.1;cf0.1;cf0.1",
        "objs=f0 prog=cf0.1,cf0.2;cf0.2,cf0.1",
        "objs=f0 prog=cf0.1,cf0.2,cf0.1;cf0.1,cf0.2;cf0.2,cf0.3",
        "objs=f0 gate=f0.1:1 prog=cf0.1;cf0.2,cf0.3",
        "objs=f0 gate=f0.1:1 prog=cf0.1,cf0.1;cf0.2;cf0.2,cf0.3",
        "objs=f0 gate=f0.1:2 prog=cf0.1;cf0.1;cf0.2,cf0.3",
        "objs=f0 rec=f0.2>f0.1 prog=cf0.2;cf0.1",
        "objs=f0 rec=f0.3>f0.2,f0.2>f0.1 prog=cf0.3;cf0.1,cf0.2;cf0.2",
        "objs=f0,f1 rec=f0.1>f1.1,f0.2>f1.1 prog=cf0.1;cf0.2;cf1.1",
        "objs=f0 prog=cf0.nan,cf0.1;cf0.nan,cf0.1",
        "objs=u0,f0 prog=cu0.1,cf0.1;cu0.1,cu0.1",
        "objs=f0 prog=cf0.nan;cf0.nan;cf0.0",
        "objs=f0 prog=cf0.inf,cf0.inf;cf0.inf",
        "objs=f0 prog=cf0.-inf,cf0.inf,cf0.-inf;cf0.-1,cf0.-inf,cf0.-1",
        "objs=f0 prog=cf0.1,cf0.2,cf0.3,cf0.4,cf0.5,cf0.6,cf0.7,cf0.8,cf0.9,cf0.10,cf0.11,cf0.12,cf0.13,cf0.14;cf0.7,cf0.13,cf0.20,cf0.2,cf0.21,cf0.22,cf0.14",
        "objs=f0 prog=cf0.1,cf0.1;xf0,cf0.1;cf0.1",
    ],
    "P07": [
        "objs=v0 prog=cv0.0;cv0.0",
        "objs=v0 prog=cv0.0;cv0.0;cv0.0",
        "objs=v0 prog=cv0.0,xv0,cv0.0;cv0.0",
        "objs=v0 prog=cv0.0,xv0,cv0.0;cv0.0,cv0.0",
        "objs=v0 prog=cv0.0,xv0,cv0.0,xv0,cv0.0;cv0.0,cv0.0;cv0.0",
        "objs=v0 prog=xv0,cv0.0;cv0.0;cv0.0,cv0.0",
        "objs=v0,v1 rec=v0.0>v1.0 prog=cv0.0;cv1.0;cv0.0,cv1.0",
        "objs=v0,v1 gate=v0.0:1 prog=cv0.0;cv1.0",
        "objs=v0 prog=cv0.0,cv0.0;cv0.0,xv0,cv0.0;xv0,cv0.0",
    ],
    "P08": [
        "objs=f0 prog=cf0.1,cf0.1;xf0,cf0.1",
        "objs=f0 prog=cf0.1,cf0.2;xf0,cf0.2,cf0.1;cf0.1",
        "objs=v0 prog=cv0.0,cv0.0;xv0,cv0.0",
        "objs=v0 prog=cv0.0;xv0,cv0.0;cv0.0",
        "objs=f0,v0 prog=cf0.1,cv0.0;g,cf0.1,cv0.0",
        "objs=f0,v0,f1,v1 prog=cf0.1,cv0.0,cf1.1,cv1.0,g,cf0.1,cv0.0,cf1.1,cv1.0;cf1.1,cv1.0",
        "objs=f0 prog=cf0.1,nf1,cf1.1,g,cf1.1,cf0.1;nf2,cf2.1,df2",
        "objs=v0 prog=nv1,cv1.0,g,cv1.0,dv1;nv2,cv2.0,dv2;cv0.0,g",
        "objs=f0,f1,f2 prog=g,g;df1,nf3,df3;df2,nf2,cf2.1",
        "objs=f0 prog=cf0.1,xf0,cf0.1;cf0.1,xf0,cf0.1",
        "objs=v0,f0 rec=v0.0>f0.1 prog=cv0.0,g,cv0.0;cf0.1;cv0.0",
        "objs=f0,v0 prog=nf1,cf1.1,df1,nf1,cf1.1,g,cf1.1;cf0.1,g,cf0.1",
        "prog=nf0,cf0.1,g,cf0.1;nv1,cv1.0,g,cv1.0;nf2,df2",
        "cold=1 prog=nf0,cf0.1,g,cf0.1;nf1,cf1.1,g,cf1.1",
        "cold=1 prog=nv0,cv0.0,g,cv0.0;nf1;nv2",
    ],
    "P09": [
        "objs=f0 fail=f0.1#1 prog=cf0.1,cf0.1;cf0.1",
        "objs=f0 fail=f0.1#1,f0.1#2 prog=cf0.1;cf0.1;cf0.1,cf0.1",
        "objs=f0 fail=f0.1#1 prog=cf0.1,cf0.2;cf0.2,cf0.1",
        "objs=v0 fail=v0.0#1 prog=cv0.0,cv0.0;cv0.0",
        "objs=v0 fail=v0.0#1,v0.0#2 prog=cv0.0;cv0.0;cv0.0,cv0.0",
        "objs=v0 fail=v0.0#2 prog=cv0.0,xv0,cv0.0,cv0.0;cv0.0",
        "objs=f0 fail=f0.1#2 prog=cf0.1,xf0,cf0.1,cf0.1;cf0.1",
        "objs=f0 fail=f0.1#* prog=cf0.1;cf0.1,cf0.1",
        "objs=v0 fail=v0.0#* prog=cv0.0;cv0.0,cv0.0",
        "objs=f0,v0 rec=v0.0>f0.1 fail=f0.1#1 prog=cv0.0,cv0.0;cf0.1",
        "objs=f0 fail=f0.nan#1,f0.1#1 prog=cf0.nan,cf0.nan,cf0.1;cf0.1,cf0.nan",
        "objs=u0 fail=u0.1#1 prog=cu0.1,cu0.1;cu0.1",
        "objs=f0 fail=f0.1#1 rec=f0.2>f0.1 prog=cf0.2,cf0.2,cf0.1;cf0.1",
    ],
}
# failures of the standard kind, too
SCEN["P09"] += ["std=1 " + s for s in SCEN["P09"]]
IMPL = {"P06": dict(Args={"x", "y"}, Ops=2, Clearers=set(), MayFail=False),
        "P07": dict(Args={"x"}, Ops=2, Clearers={2}, MayFail=False),
        "P08": dict(Args={"x"}, Ops=2, Clearers={1, 2}, MayFail=False),
        "P09": dict(Args={"x"}, Ops=3, Clearers={2}, MayFail=True)}
IMPL_DEEP = {"P06": [dict(Threads={1, 2, 3}, Args={"x", "y"}, Ops=1), dict(Threads={1, 2}, Args={"x", "y"}, Ops=3)],
             "P07": [dict(Threads={1, 2, 3}, Ops=2, Clearers={3})], "P08": [dict(Threads={1, 2}, Ops=3, Clearers={1, 2}), dict(Threads={1, 2, 3}, Ops=2, Clearers={3})],
             "P09": [dict(Threads={1, 2}, Ops=3, Clearers={1, 2}, MayFail=True)]}
DEFECTS = {"P06": [("relook", {}), ("late", {})], "P07": [("once", {}), ("late", {})], "P08": [("clear", {}), ("nogen", {}), ("relook", {})],
           "P09": [("poison", {})]}


def specification(check):
    base = dict(Threads={1, 2}, Args={"x"}, Ops=2, Clearers={2}, MayFail=False, Defects=set())
    insts = [IMPL[check.prop]] + (IMPL_DEEP[check.prop] if check.thorough else [])
    for k in insts:
        r = tlc.check("CacheImpl", tlc.config(dict(base, **k), invariants=INV), check.work, timeout=800)
        check.tlc(r)
    r = tlc.check("CacheImpl", tlc.config(dict(base, **dict(IMPL[check.prop], Ops=1 if check.prop == "P06" else 2)), spec="FairSpec", properties=["EveryCallFinishes"]), check.work, timeout=800)
    check.tlc(r)
    if check.thorough:
        for d, k in DEFECTS[check.prop]:
            r = tlc.run("CacheImpl", tlc.config(dict(base, Threads={1, 2, 3}, Clearers={3}, MayFail=d == "poison", Defects={d}), invariants=INV), check.work)
            if not r.violated:
                raise tlc.TLCError("CacheImpl does not notice the defect " + d)
            check.add("defects_seeded_in_specification", 1)


def parse(line):
    out = []
    for w in line.split():
        f = w.split(":")
        k = f[0]
        if k == "call":
            out.append(dict(e="call", t=int(f[1]), o=f[2], a=f[3], n=int(f[4]), fresh=f[3] == "nan" or f[2][0] == "u"))
        elif k == "calc":
            out.append(dict(e="calc", t=int(f[1]), o=f[2], a=f[3], id=int(f[4])))
        elif k in ("done", "fail"):
            out.append(dict(e=k, id=int(f[1])))
        elif k in ("ret", "exc"):
            out.append(dict(e=k, n=int(f[1]), id=int(f[2])))
        elif k == "clr":
            out.append(dict(e="clr", o=f[2], k=int(f[3])))
        elif k == "clrd":
            out.append(dict(e="clrd", k=int(f[1])))
        elif k in ("new", "newd", "del", "deld"):
            out.append(dict(e=k, o=f[1]))
        elif k == "steps":
            out.append(dict(e="end"))
        else:
            out.append(dict(e=k, why=w))
    return out


def run(check):
    exe = build.program("cachedrv", ["cachedrv.cpp"], variant="sched", libs=["caching"], nosched=["sched.cpp"])
    specification(check)
    check.log("specification CacheImpl checked")
    schedule.explore(check, exe, SCEN[check.prop], parse, "CacheTrace", check.pick((1500, 1000), (20000, 20000)))
