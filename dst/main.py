import os
import sys


def _main(argv: list[str]) -> int:
    from . import runner

    cmd = argv[0]
    if cmd == "worker":
        runner.worker(argv[1], argv[2], int(argv[3]), int(argv[4]), int(argv[5]), int(argv[6]), float(argv[7]))
        return 0
    if cmd == "minimise":
        runner.minimise_main(argv[1])
        return 0
    if cmd == "replay":
        return runner.replay(argv[1])
    if cmd == "check":
        return runner.main(argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if cmd == "one":
        # run one index and show what happened
        check = runner.load(argv[1])
        plan, s = runner.make_plan(check, argv[1], int(os.environ.get("VERIF_SEED", "1")), int(argv[2]), argv[3] if len(argv) > 3 else "quick")
        o = runner.run_case(check, plan, s, findings=runner.known_findings(argv[1]))
        import json

        if "-p" in argv:
            print(json.dumps(plan, indent=1))
        if "-t" in argv:
            print("\n".join(o.trace))
        print("kind", o.kind, "message", o.message[:3000])
        print("harness", o.harness)
        print("digest", o.digest, "steps", o.steps, "virtual", o.virtual, o.faults, o.counts, "known", o.known)
        return 0
    print("usage: check ID [quick|thorough] | replay FILE | one ID INDEX", file=sys.stderr)
    return 2


def needs_clock(argv: list[str]) -> bool:
    "Whether the process runs a check that controls the wall clock."
    for a in argv[1:]:
        if a == "C16":
            return True
        if a.endswith(".json"):
            import json

            try:
                with open(a) as f:
                    return json.load(f).get("property") == "C16"
            except (OSError, ValueError):
                return False
    return False


def clock_library() -> str:
    import subprocess
    import tempfile

    root = os.path.dirname(os.path.abspath(__file__))
    out = os.path.join(os.path.dirname(root), "out")
    os.makedirs(out, exist_ok=True)
    src, lib = os.path.join(root, "native", "clock.c"), os.path.join(out, "clock.so")
    if not os.path.exists(lib) or os.path.getmtime(lib) < os.path.getmtime(src):
        fd, tmp = tempfile.mkstemp(dir=out)
        os.close(fd)
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True)
        os.chmod(tmp, 0o755)
        os.replace(tmp, lib)
    return lib


if __name__ == "__main__":
    if needs_clock(sys.argv[1:]) and "clock.so" not in os.environ.get("LD_PRELOAD", ""):
        os.environ["LD_PRELOAD"] = clock_library()
        os.environ.pop("PYTHONHASHSEED", None)  # start again with the library
    if os.environ.get("PYTHONHASHSEED") != os.environ.get("DST_HASHSEED", "0"):
        os.environ["PYTHONHASHSEED"] = os.environ.get("DST_HASHSEED", "0")
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, "-m", "dst.main", *sys.argv[1:]])
    rc = _main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
