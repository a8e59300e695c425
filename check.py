#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough]   run one static check against /repo's working tree"""
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(50000)

TABLE = {
    "P01": ("sync_local", "guard"),
    "P02": ("sync_local", "currents"),
    "P12": ("maxwell", "yee"),
    "P13": ("maxwell", "cpml"),
    "P10": ("kernels", "p10"),
    "P14": ("kernels", "p14"),
    "P15": ("kernels", "p15"),
    "P16": ("kernels", "p16"),
    "P17": ("kernels", "p17"),
    "P06": ("exchange", "p06"),
    "P07": ("exchange", "p07"),
    "P08": ("races", "p08"),
    "P09": ("stepper", "p09"),
    "P29": ("stepper", "p29"),
    "P03": ("mpifields", "p03"),
    "P04": ("mpifields", "p04"),
    "P05": ("topology", "p05"),
    "P36": ("topology", "p36"),
    "P24": ("window", "p24"),
    "P11": ("stale", "p11"),
    "P30": ("output", "p30"),
    "P31": ("loading", "p31"),
    "P32": ("ids", "p32"),
    "P33": ("streams", "p33"),
    "P34": ("config", "p34"),
    "P25": ("qed", "p25"),
    "P26": ("qed", "p26"),
    "P27": ("qed", "p27"),
    "P28": ("collide", "p28"),
    "P20": ("extensions", "p20"),
    "P21": ("spmdcheck", "p21"),
    "P18": ("inert", "p18"),
    "P19": ("sorting", "p19"),
}


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        import compileall
        compileall.compile_dir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vstatic"), quiet=1)
        print("setup: nothing to build, the analyser is plain python")
        return 0
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from vstatic import report
    import importlib
    modname, fn = TABLE[pid]
    mod = importlib.import_module("vstatic.checks." + modname)
    return report.run(pid, tier, getattr(mod, fn))


if __name__ == "__main__":
    import gc
    gc.disable()
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
