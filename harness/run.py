"""Executes scenarios in the real code (run with PYTHONPATH=/repo:/verif).

    python -m harness.run DRIVER SCENARIOS OUT

Each scenario is run by a fresh Driver; drivers with FORK = True get a fresh
process each, so that no scenario sees what another one left behind."""
import importlib, json, os, signal, sys, traceback


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run_one(module, scenario):
    out = []
    tid = scenario["tid"]
    try:
        signal.alarm(module.__dict__.get("LIMIT", 60))
        driver = module.Driver()
    except BaseException as exc:
        return [dict(e, tid=tid, o={"err": "Crash", "log": traceback.format_exc()[-800:]})
                for e in scenario["events"][:1]]
    for e in scenario["events"]:
        try:
            signal.alarm(module.__dict__.get("LIMIT", 60))
            o = driver.do(e)
            if isinstance(o, tuple):        # the driver completes the event
                e, o = o
            signal.alarm(0)
            e = dict(e, o=o)
            json.dumps(e)
            out.append(e)
        except Hang:
            out.append(dict(e, o={"err": "Hang", "log": "the code does not terminate"}))
            break
        except BaseException:
            out.append(dict(e, o={"err": "Crash", "log": traceback.format_exc()[-800:]}))
            break
    try:
        driver.end()
    except BaseException:
        pass
    return out


def run_forked(module, scenario):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(run_one(module, scenario), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(text)
    except ValueError:
        return [dict(e, o={"err": "Crash", "log": "the process died"})
                for e in scenario["events"][:1]]


def main():
    name, src, dst = sys.argv[1:4]
    signal.signal(signal.SIGALRM, _alarm)
    scenarios = [json.loads(l) for l in open(src)]
    with open(dst, "w") as f:
        try:
            module = importlib.import_module(f"harness.drivers.{name}")
        except BaseException:
            log = traceback.format_exc()[-1500:]
            if "/verif/" in log.splitlines()[-3] if len(log.splitlines()) > 2 else False:
                raise
            for s in scenarios:
                f.write(json.dumps({"tid": s["tid"], "events": [
                    dict(e, o={"err": "Crash", "log": log}) for e in s["events"][:1]]}) + "\n")
            return
        run = run_forked if getattr(module, "FORK", False) else run_one
        for s in scenarios:
            f.write(json.dumps({"tid": s["tid"], "events": run(module, s)}) + "\n")


if __name__ == "__main__":
    main()
