"""Builds of the small library servers."""
from vlib import build


def build_servers(ctx, names, flags=("-O2",), suffix=""):
    out = {}
    jobs = {}
    for n in names:
        exe = ctx.path("srv_%s%s" % (n, suffix))
        out[n] = exe
        jobs[n] = build.seq(["g++", "-std=gnu++11", "-g", *flags, "-I" + build.src("cxx"),
                             "-I" + build.HARNESS, "-o", exe, build.h("srv_%s.cpp" % n)]
                            + build.lib_sources(mpi=False))
    build.require(build.parallel(jobs))
    return out
