"""run.py ID [--tier quick|thorough] [--seed N] [-n CASES] [--case I] [-v] | --replay FILE"""
import argparse, json, os, signal, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import core


def checks():
    import importlib
    out = {}
    for n in ("seqs", "extra", "jobs", "term", "safety", "long", "broken", "start"):
        try:
            mod = importlib.import_module(n)
        except ModuleNotFoundError as e:
            if e.name != n:
                raise
            continue
        for v in vars(mod).values():
            if isinstance(v, type) and issubclass(v, core.Check) and v.id != "C00":
                out[v.id] = v
    return out


def clean_signals():
    """what is tested starts with the default actions, however this was started (nohup, a background job)"""
    for n in signal.valid_signals() - {signal.SIGKILL, signal.SIGSTOP, signal.SIGCHLD}:
        if signal.getsignal(n) == signal.SIG_IGN and n != signal.SIGPIPE and n != getattr(signal, "SIGXFSZ", None):
            signal.signal(n, signal.default_int_handler if n == signal.SIGINT else signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


def main():
    clean_signals()
    a = argparse.ArgumentParser()
    a.add_argument("id", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("-n", type=int)
    a.add_argument("--case", type=int)
    a.add_argument("--replay")
    a.add_argument("-v", action="store_true")
    a = a.parse_args()
    only = None if a.case is None else [a.case]
    if a.replay:
        r = json.load(open(a.replay))
        a.id, a.tier, a.seed, only = r["property"], r["tier"], r["seed"], [r["case"]]
    c = checks()[a.id]()
    sys.exit(core.execute(c, a.tier, a.seed, only=only, n=a.n, verbose=a.v))


if __name__ == "__main__":
    main()
