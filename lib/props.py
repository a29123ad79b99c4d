"""One function per property."""
import json, os, shutil, tempfile
from vf import *


def vh(ctx):
    return os.path.join(cargo(["-p", "vh"]), "vh")


def arch(ctx, profile, quick, thorough):
    h = vh(ctx)
    scen = ctx.generate("ArchiveGen", ctx.n(quick, thorough), profile, env={"PROFILE": profile}, parts=CORES)
    files = ctx.harness(h, "arch", scen, profile, timeout=ctx.left())
    ctx.validate("ArchiveTrace", files, scen)


def scale(ctx, profile, quick, thorough, huge):
    """Many files, many sectors."""
    h = vh(ctx)
    for k, n, name in (("0", ctx.n(quick, thorough), profile + "s"), ("1", ctx.n(huge, 20 * huge), profile + "h")):
        scen = ctx.generate("ScaleGen", n, name, env={"PROFILE": profile, "HUGE": k})
        files = ctx.harness(h, "scale", scen, name, timeout=ctx.left(), limit=90)
        ctx.validate("ScaleTrace", files, scen)


FOUR_GIB = 4 << 20


def vast(ctx):
    """Around and beyond 4 GiB; one at a time, and only where there is room."""
    cases = [(1, FOUR_GIB + 100, 3), (2, FOUR_GIB + 100, 3)]
    if ctx.tier == "thorough":
        cases += [(1, FOUR_GIB - 200, 3), (3, FOUR_GIB + 100, 3), (4, FOUR_GIB + 100, 3), (2, FOUR_GIB + 100, 1)]
    if shutil.disk_usage(ctx.dir).free < 16 << 30:
        print("no room for archives beyond 4 GiB")
        return
    scen = os.path.join(ctx.dir, "vast.ndjson")
    with open(scen, "w") as f:
        for ver, kib, parts in cases:
            f.write(json.dumps([{"op": "vast", "ver": ver, "kib": kib, "parts": parts}]) + "\n")
    files = ctx.harness(vh(ctx), "scale", scen, "vast", timeout=ctx.left(), limit=300, args=["--threads", "1"])
    ctx.validate("ScaleTrace", files, scen)


def design(ctx, module, variants):
    ctx.model_check(module, module + ".cfg")
    for v in variants:
        ctx.refute(module, "%s_%s.cfg" % (module, v))


PROBE = ("nowrap", "stopdead", "half", "indexonly", "partial", "forget", "short")
STORE = ("readabs", "round", "lastfull", "keyone", "flagonly", "onekey")
HANDLE = ("noseek", "stale", "countdeferred", "touch")


def c01(ctx):
    design(ctx, "MCStore", STORE)
    arch(ctx, "c01", 4000, 60000)
    scale(ctx, "c01", 48, 1000, 6)
    vast(ctx)


def c02(ctx):
    design(ctx, "MCProbe", PROBE)
    arch(ctx, "c02", 800, 20000)
    scale(ctx, "c02", 48, 1000, 4)


def c03(ctx):
    design(ctx, "MCProbe", PROBE)
    arch(ctx, "c03", 1500, 30000)
    scale(ctx, "c03", 48, 1000, 4)


def c18(ctx):
    design(ctx, "MCHandle", HANDLE)
    arch(ctx, "c18", 600, 20000)


def ffi(ctx, profile, quick, thorough):
    ctx.model_check("MCFfi", ctx.n("MCFfi.cfg", "MCFfi4.cfg"))
    h = os.path.join(cargo(["-p", "vffi"]), "vffi")
    scen = ctx.generate("FfiGen", ctx.n(quick, thorough), profile, env={"PROFILE": profile}, parts=CORES)
    files = ctx.harness(h, "ffi", scen, profile, timeout=ctx.left(), procs=CORES)
    ctx.validate("FfiTrace", files, scen)


def c10(ctx):
    ffi(ctx, "c10", 1200, 40000)


def c11(ctx):
    ffi(ctx, "c11", 1200, 40000)


def c19(ctx):
    ffi(ctx, "c19", 1200, 40000)


def sched_build():
    """The C API's source with the standard library's locks replaced by scheduled ones."""
    dst = os.path.join(BUILD, "ffi_sched", "src")
    src = os.path.join(REPO, "storm-ffi", "src")
    keep = set()
    for root, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(root, f), src)
            data = open(os.path.join(root, f), "rb").read()
            if rel == "lib.rs":
                data += b"\nextern crate vstd as std;\n"
            out = os.path.join(dst, rel)
            os.makedirs(os.path.dirname(out), exist_ok=True)
            keep.add(out)
            if not os.path.exists(out) or open(out, "rb").read() != data:
                open(out, "wb").write(data)
    for root, _, fs in os.walk(dst):
        for f in fs:
            if os.path.join(root, f) not in keep:
                os.unlink(os.path.join(root, f))
    return os.path.join(cargo(["-p", "vsched"], manifest=os.path.join(VERIF, "harness_sched/Cargo.toml")), "vsched")


def c12(ctx):
    ctx.model_check("StormLocks", "StormLocks.cfg")
    ctx.model_check("StormLocks", ctx.n("StormLocks3.cfg", "StormLocks3x2.cfg"))
    for v in ("enumholds", "verifyholds", "closesplit", "order"):
        ctx.refute("StormLocks", "StormLocks_%s.cfg" % v)
    if not ctx.quick:
        ctx.model_check("MCFfi", "MCFfi4.cfg")
    h = sched_build()
    scen = ctx.generate("FfiProg", ctx.n(240, 8000), "prog", parts=CORES)
    files = ctx.harness(h, "sched", scen, "sched", timeout=ctx.left(), procs=CORES, limit=300,
                        args=ctx.n(["--max", 300, "--random", 60, "--bound", 2], ["--max", 3000, "--random", 300, "--bound", 3]))
    st = ctx.stats(files)
    ctx.extra.update({"executions": sum(s["executions"] for s in st), "programs_exhausted_within_bound": sum(s["complete_programs"] for s in st)})
    ctx.validate("FfiConc", files, scen)


def seeded(ctx, mode, module, quick, thorough, limit=60, args=(), **kw):
    """The harness draws the inputs from seeds; the trace specification decides."""
    files = ctx.harness(vh(ctx), mode, "%d:%d" % (ctx.n(quick, thorough), ctx.seed), mode, timeout=ctx.left(), limit=limit, args=args)
    ctx.validate(module, files, **kw)


def c16(ctx):
    ctx.model_check("MCCrypt", "MCCrypt.cfg")
    seeded(ctx, "crypt", "CryptTrace", 1500, 60000, args=["--exe", cli_build()])


def c15(ctx):
    ctx.model_check("MCCodec", ctx.n("MCCodec.cfg", "MCCodecL.cfg"))
    ctx.refute("MCCodec", "MCCodec_endmark.cfg")
    ctx.refute("MCCodec", "MCCodec_nogain.cfg")
    ctx.model_check("MCAdpcm", ctx.n("MCAdpcm.cfg", "MCAdpcmL.cfg"))
    for v in ("noraise", "openloop", "turn"):
        ctx.refute("MCAdpcm", "MCAdpcm_%s.cfg" % v)
    seeded(ctx, "codec", "CodecTrace", 2000, 100000)


def c17(ctx):
    ctx.model_check("MCSpecial", "MCSpecial.cfg")
    seeded(ctx, "special", "SpecialTrace", 2500, 100000)


def integ(ctx, profile, quick, thorough):
    scen = ctx.generate("IntegrityGen", ctx.n(quick, thorough), profile, env={"PROFILE": profile}, parts=CORES)
    files = ctx.harness(vh(ctx), "integ", scen, profile, timeout=ctx.left())
    ctx.validate("IntegrityTrace", files, scen)


def c05(ctx):
    ctx.model_check("MCIntegrity", ctx.n("MCIntegrity.cfg", "MCIntegrityL.cfg"))
    for v in ("skipzero", "skipones", "skipraw", "skiplast", "padshort"):
        ctx.refute("MCIntegrity", "MCIntegrity_%s.cfg" % v)
    integ(ctx, "c05", 1200, 40000)
    scale(ctx, "c05", 48, 1000, 4)


def c06(ctx):
    ctx.model_check("MCIntegrity", ctx.n("MCIntegrity.cfg", "MCIntegrityL.cfg"))
    for v in ("wholechunk", "firstchunk", "toend"):
        ctx.refute("MCIntegrity", "MCIntegrity_%s.cfg" % v)
    integ(ctx, "c06", 1200, 40000)


def c04(ctx):
    ctx.model_check("BuildAtomic", "BuildAtomic.cfg")
    for v in ("inplace", "lateflush", "unlinkfirst", "ignorerename", "litter"):
        ctx.refute("BuildAtomic", "BuildAtomic_%s.cfg" % v)
    scen = ctx.generate("BuildGen", ctx.n(120, 1500), "build", parts=4)
    files = ctx.harness(vh(ctx), "atomic", scen, "build", timeout=ctx.left(), limit=600, args=["--faults", ctx.n(40, 400)])
    ctx.validate("BuildTrace", files, scen)


def c07(ctx):
    ctx.model_check("Robust", ctx.n("Robust.cfg", "RobustL.cfg"))
    for v in ("follow", "trust", "nowrap", "sub", "prealloc", "endless"):
        ctx.refute("Robust", "Robust_%s.cfg" % v)
    scen = ctx.generate("RobustGen", ctx.n(1600, 40000), "robust", parts=CORES)
    files = ctx.harness(vh(ctx), "robust", scen, "robust", timeout=ctx.left(), limit=240, procs=CORES, args=["--exe", cli_build()])
    ctx.validate("RobustTrace", files, scen)


def cli_build():
    d = cargo(["-p", "storm-cli"], manifest=os.path.join(REPO, "Cargo.toml"), target=os.path.join(BUILD, "target-cli"))
    return os.path.join(d, "storm-cli")


def cli(ctx, profile, quick, thorough):
    exe = cli_build()
    h = vh(ctx)
    scen = ctx.generate("CliGen", ctx.n(quick, thorough), profile, env={"PROFILE": profile}, parts=CORES)
    # the tool runs as an unprivileged user, who needs a place of his own
    scratch = tempfile.mkdtemp(prefix="vf-cli-", dir="/tmp")
    try:
        os.chmod(scratch, 0o755)
        mine = shutil.copy(exe, os.path.join(scratch, "storm-cli"))
        os.chmod(mine, 0o755)
        files = ctx.harness(h, "cli", scen, profile, timeout=ctx.left(), args=["--exe", mine, "--scratch", scratch])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.validate("CliTrace", files, scen)


def c13(ctx):
    ctx.model_check("CliExtract", "CliExtract.cfg")
    ctx.model_check("CliExtract", "CliExtractFlat.cfg")
    if not ctx.quick:
        ctx.model_check("CliExtract", "CliExtractL.cfg")
    for v in ("stop", "join", "strip", "once", "first"):
        ctx.refute("CliExtract", "CliExtract_%s.cfg" % v)
    cli(ctx, "c13", 800, 20000)


def c14(ctx):
    ctx.model_check("CliRoundTrip", "CliRoundTrip.cfg")
    if not ctx.quick:
        ctx.model_check("CliRoundTrip", "CliRoundTripL.cfg")
    for v in ("flat", "full", "overwrite", "deeper", "ignoredir"):
        ctx.refute("CliRoundTrip", "CliRoundTrip_%s.cfg" % v)
    cli(ctx, "c14", 800, 20000)


def layout(ctx, profile, quick, thorough):
    scen = ctx.generate("LayoutGen", ctx.n(quick, thorough), profile, env={"PROFILE": profile}, parts=CORES)
    files = ctx.harness(vh(ctx), "layout", scen, profile, timeout=ctx.left())
    ctx.validate("LayoutTrace", files, scen)


def c08(ctx):
    design(ctx, "MCProbe", PROBE)
    design(ctx, "MCStore", STORE)
    layout(ctx, "c08", 2500, 40000)
    scale(ctx, "c08", 48, 1000, 4)


def c09(ctx):
    design(ctx, "MCStore", STORE)
    layout(ctx, "c09", 2500, 40000)
    scale(ctx, "c09", 48, 1000, 4)


def setup():
    """Everything the checks build, built once."""
    cargo(["-p", "vh", "-p", "vffi"])
    sched_build()
    cli_build()
