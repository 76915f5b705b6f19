"""
vsym.run - decides one property: explores its cases, validates the encoding
against the real code, replays counterexamples, writes the evidence.

usage: python -m vsym.run PROPERTY [--tier quick|thorough] [--case SUBSTRING]
                          [--replay FILE] [-v]
"""

import argparse
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

from .boot import REPO, VERIF, boot, load


def fork_cases(cases, limits, jobs, budget, verbose):
    """Explore cases in forked workers; results in order of 'cases'."""
    from . import symcx

    todo = sorted(
        range(len(cases)), key=lambda i: -cases[i].opts.get("_weight", 1)
    )
    running: dict = {}
    results: dict = {}
    start = time.monotonic()

    def finish(fd, why=None):
        idx, pid, chunks, began = running.pop(fd)
        os.close(fd)
        if why:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
        try:
            results[idx] = pickle.loads(b"".join(chunks))
        except Exception:  # pylint: disable=broad-except
            results[idx] = {
                "case": cases[idx].name,
                "error": why or "worker ended without a result",
                "wall_s": round(time.monotonic() - began, 3),
            }
        res = results[idx]
        stats = res.get("stats", {})
        if verbose > 1 or (
            verbose
            and (
                res.get("error")
                or res.get("failures")
                or res.get("notes")
                or res.get("partial")
                or res.get("unsupported")
                or res.get("truncated")
                or res.get("unrealised")
                or not res.get("completed")
                or stats.get("checks_unknown")
                or res.get("wall_s", 0) > 4
            )
        ):
            print(
                f"  {res['case']}: {res.get('error', 'ok')}"
                f" {res.get('wall_s')}s paths={stats.get('paths')}"
                f" done={res.get('completed')} abort={stats.get('aborted')}"
                f" limit={stats.get('limited')} partial={res.get('partial')}"
                f" q={stats.get('queries')} solver={stats.get('solver_s')}s"
                f" proved={stats.get('checks_proved')}"
                f"+{stats.get('checks_trivial')}"
                f" unk={stats.get('checks_unknown')}"
                f" fails={[(f['label'], f['inputs'], f.get('text', '')) for f in res.get('failures', [])][:3]}"
                f" notes={res.get('notes')} pins={res.get('pinned')}"
                f" uns={res.get('unsupported')} trunc={res.get('truncated')}",
                flush=True,
            )

    while todo or running:
        while todo and len(running) < jobs:
            idx = todo.pop(0)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rfd)
                    resource.setrlimit(
                        resource.RLIMIT_AS, (8 << 30, 8 << 30)
                    )
                    left = budget - (time.monotonic() - start)
                    lim = dict(limits)
                    lim["deadline"] = max(2.0, min(lim["deadline"], left))
                    res = symcx.explore(cases[idx], lim)
                except BaseException as exc:  # pylint: disable=broad-except
                    import traceback

                    res = {
                        "case": cases[idx].name,
                        "error": "".join(
                            traceback.format_exception(exc)
                        )[-1500:],
                        "wall_s": 0,
                    }
                    code = 3
                try:
                    data = pickle.dumps(res)
                    while data:
                        data = data[os.write(wfd, data) :]
                finally:
                    os._exit(code)
            os.close(wfd)
            running[rfd] = (idx, pid, [], time.monotonic())
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if data:
                running[fd][2].append(data)
            else:
                finish(fd)
        now = time.monotonic()
        for fd in list(running):
            grace = limits["deadline"] + 3 * limits["query_ms"] / 1000 + 15
            if now - running[fd][3] > grace:
                finish(fd, "killed: over its time")
    return [results[i] for i in range(len(cases))]


class Replayer:
    """A process running the real code."""

    def __init__(self, prop, tier, mode, timeout):
        env = dict(os.environ, PYTHONHASHSEED="0", VTELEM_REPO=REPO)
        env["PYTHONPATH"] = VERIF
        self.proc = subprocess.Popen(
            [
                sys.executable,
                "-m",
                "vsym.replay",
                prop,
                tier,
                mode,
                str(timeout),
            ],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            cwd=VERIF,
            env=env,
        )

    def send(self, job):
        self.proc.stdin.write((json.dumps(job) + "\n").encode())
        self.proc.stdin.flush()

    def recv(self):
        line = self.proc.stdout.readline()
        if not line:
            return {
                "status": "broken",
                "fails": [],
                "obs": [],
                "exc": None,
                "text": "replay process ended",
            }
        return json.loads(line)

    def close(self):
        self.proc.stdin.close()
        self.proc.wait()


def replay_all(prop, tier, mode, jobs, workers, timeout):
    """Outcomes of replaying a list of {"case", "inputs"}."""
    if not jobs:
        return []
    workers = max(1, min(workers, (len(jobs) + 9) // 10))
    pool = [Replayer(prop, tier, mode, timeout) for _ in range(workers)]
    out = [None] * len(jobs)
    queues = [list(range(i, len(jobs), workers)) for i in range(workers)]
    fds = {p.proc.stdout.fileno(): i for i, p in enumerate(pool)}
    pos = [0] * workers
    for i, rep in enumerate(pool):
        if queues[i]:
            try:
                rep.send(jobs[queues[i][0]])
            except BrokenPipeError:
                pass
    left = len(jobs)
    while left:
        ready, _, _ = select.select(list(fds), [], [])
        for fd in ready:
            i = fds[fd]
            if pos[i] >= len(queues[i]):
                continue
            out[queues[i][pos[i]]] = pool[i].recv()
            pos[i] += 1
            left -= 1
            if pos[i] < len(queues[i]):
                try:
                    pool[i].send(jobs[queues[i][pos[i]]])
                except BrokenPipeError:
                    pass
            else:
                del fds[fd]
    for rep in pool:
        rep.close()
    return out


def known_findings(prop):
    """Listed findings of a property."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.isfile(path):
        return []
    with open(path, encoding="utf-8") as stream:
        data = json.load(stream)
    return [x for x in data.get("findings", []) if x["property"] == prop]


def matches(finding, case, fail):
    """Whether a failure is a listed one: same case family and label."""
    return (
        case.split("[")[0] == finding["case"]
        and finding["label"] == fail["label"]
        and all(
            fail["inputs"].get(k) == v
            for k, v in finding.get("inputs", {}).items()
        )
    )


def cross_check(dumped, limit_s):
    """Re-decide recorded queries with cvc5."""
    res = {"compared": 0, "agree": 0, "unknown": 0, "disagree": []}
    import tempfile

    end = time.monotonic() + limit_s
    for smt, expected in dumped:
        if time.monotonic() > end:
            break
        with tempfile.NamedTemporaryFile(
            "w", suffix=".smt2", delete=False
        ) as stream:
            stream.write("(set-logic ALL)\n" + smt)
        try:
            proc = subprocess.run(
                ["cvc5", "--tlimit=8000", stream.name],
                capture_output=True,
                text=True,
                timeout=20,
                check=False,
            )
            got = proc.stdout.strip().split("\n")[0]
        except subprocess.TimeoutExpired:
            got = "timeout"
        os.unlink(stream.name)
        res["compared"] += 1
        if got == expected:
            res["agree"] += 1
        elif got in ("sat", "unsat") and expected in ("sat", "unsat"):
            res["disagree"].append(smt[:400])
        else:
            res["unknown"] += 1
    return res


def main() -> int:
    """Entry."""
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument(
        "--tier", default=os.environ.get("VERIF_TIER", "quick")
    )
    parser.add_argument("--case", default="")
    parser.add_argument("--replay", default="")
    parser.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    parser.add_argument("-v", action="count", default=0)
    args = parser.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    prop, tier = args.prop, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.monotonic()

    if args.replay:
        with open(args.replay, encoding="utf-8") as stream:
            job = json.load(stream)
        res = replay_all(prop, job["tier"], job["mode"], [job], 1, 60)[0]
        print(json.dumps(res, indent=1))
        return 1 if res["status"] != "ok" else 0

    # which instrumentation: declared in the property module's first lines
    path = os.path.join(VERIF, "props", prop.lower() + ".py")
    with open(path, encoding="utf-8") as stream:
        source = stream.read()
    yields = "\nYIELD = True" in source
    mode, rmode = ("symyield", "yield") if yields else ("sym", "plain")

    boot(mode)
    from . import api

    module = load(prop)
    cases = [
        x for x in api.cases_of(module, tier) if args.case in x.name
    ]
    thorough = tier == "thorough"
    budget = getattr(module, "BUDGET", {}).get(
        tier, 3000.0 if thorough else 250.0
    )
    limits = {
        "deadline": 1200.0 if thorough else 130.0,
        "query_ms": 60000 if thorough else 10000,
        "samples": 80 if thorough else 24,
        "seed": seed,
        "dump_queries": 3 if thorough else 0,
        "max_paths": 400000 if thorough else 40000,
    }
    results = fork_cases(cases, limits, args.jobs, budget, args.v)

    # replays: counterexamples, then one real run per sampled path
    jobs, kinds = [], []
    for kase, res in zip(cases, results):
        for fail in res.get("failures", []):
            jobs.append({"case": kase.name, "inputs": fail["inputs"]})
            kinds.append(("fail", kase, fail))
        for item in res.get("samples", []):
            jobs.append({"case": kase.name, "inputs": item["inputs"]})
            kinds.append(("sample", kase, item))
    outcomes = replay_all(prop, tier, rmode, jobs, args.jobs, 30)

    violations, inconclusive, validated, mismatches = [], [], 0, []
    skipped = 0
    for (kind, kase, item), real in zip(kinds, outcomes):
        bad = None
        if real["status"] in ("fail", "hang"):
            bad = {
                "label": real["fails"][-1] if real["fails"] else "hang",
                "inputs": item["inputs"],
            }
        elif real["status"] == "exc" and not real.get("harness"):
            bad = {
                "label": f"exception {real['exc']}",
                "inputs": item["inputs"],
            }
        if kind == "fail":
            if bad is None:
                inconclusive.append(
                    f"{kase.name}: '{item['label']}' {item.get('text', '')}"
                    " did not reproduce on the real code"
                    f" ({real['status']} {real.get('text', '')})"
                )
                continue
        if bad is not None:
            bad["text"] = real.get("text", "")
            bad["from"] = kind
            violations.append((kase, bad))
            continue
        if kind == "sample":
            if real["status"] == "ok" and real["obs"] == item["obs"]:
                validated += 1
            elif real["status"] == "skip":
                # an assumption on uninterpreted functions (checksums) that
                # the real ones don't meet for these inputs
                skipped += 1
            else:
                mismatches.append(
                    {
                        "case": kase.name,
                        "inputs": item["inputs"],
                        "symbolic": item["obs"],
                        "real": real["obs"],
                        "status": real["status"],
                        "text": real.get("text", ""),
                    }
                )

    findings = known_findings(prop)
    seen_findings: dict = {}
    new = []
    for kase, bad in violations:
        hit = [f for f in findings if matches(f, kase.name, bad)]
        if hit:
            seen_findings[hit[0]["id"]] = hit[0]
        else:
            new.append((kase, bad))

    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    done_labels: set = set()
    for kase, bad in new:
        key = (kase.name, bad["label"])
        if key in done_labels or len(lines) >= 5:
            continue
        done_labels.add(key)
        rpath = os.path.join(rdir, f"{prop}-{len(lines)}.json")
        with open(rpath, "w", encoding="utf-8") as stream:
            json.dump(
                {
                    "property": prop,
                    "tier": tier,
                    "mode": rmode,
                    "case": kase.name,
                    "inputs": bad["inputs"],
                    "what": bad["label"],
                    "text": bad["text"],
                    "how": f"/opt/venv/bin/python -m vsym.run {prop} "
                    f"--replay {rpath}",
                },
                stream,
                indent=1,
            )
        lines.append(
            f"VIOLATION property={prop} replay={rpath}\n"
            f"  {kase.name}: {bad['label']} {bad['text']}"
        )

    def total(key):
        return sum(r.get("stats", {}).get(key, 0) for r in results)

    funcs = sorted(
        {
            f
            for r in results
            for f in r.get("functions", [])
            if f.startswith("vtelem")
        }
    )
    never = [
        k.name
        for k, r in zip(cases, results)
        if not r.get("completed") and not r.get("failures")
    ]
    for name in never:
        inconclusive.append(f"{name}: no path was completed")
    for res in results:
        if res.get("error"):
            inconclusive.append(f"{res['case']}: {res['error']}")
    evaluated: dict = {}
    for res in results:
        for key, num in res.get("evaluated", {}).items():
            evaluated[key] = evaluated.get(key, 0) + num
    samples = []
    for kase, res in zip(cases, results):
        for item in res.get("samples", [])[:1]:
            samples.append(
                {
                    "case": kase.name,
                    "inputs": item["inputs"],
                    "outcome": item["obs"][:6],
                }
            )
    merged = {"pinned": {}, "unsupported": {}, "truncated": {}, "notes": {}}
    for res in results:
        for key, into in merged.items():
            for name, num in res.get(key, {}).items():
                into[name] = into.get(name, 0) + num
    complete = sum(
        1
        for r in results
        if r.get("stats")
        and not r["truncated"]
        and not r["partial"]
        and not r["stats"]["checks_unknown"]
        and not r["unrealised"]
        and not r["failures"]
    )
    coverage = {
        "states": total("paths"),
        "transitions": total("decisions"),
        "traces_validated_against_impl": validated,
        "samples": samples[:12],
        "method": "symbolic execution of the real Python source; a state is "
        "one explored path condition, a transition one decided branch",
        "cases": len(cases),
        "cases_decided_for_all_values_in_bounds": complete,
        "bounds": getattr(module, "BOUNDS", {}).get(
            tier, getattr(module, "BOUNDS", {}).get("both", "")
        ),
        "case_parameters": [k.name for k in cases][:200],
        "functions_encoded": funcs,
        "paths_completed": sum(r.get("completed", 0) for r in results),
        "paths_infeasible": total("aborted"),
        "paths_cut_by_a_bound": total("limited"),
        "paths_partial": sum(r.get("partial", 0) for r in results),
        "branch_forks": total("forks"),
        "solver_queries": total("queries"),
        "solver_seconds": round(total("solver_s"), 2),
        "solver_unknown": total("unknown"),
        "checks_proved_by_solver": total("checks_proved"),
        "checks_decided_by_simplification": total("checks_trivial"),
        "checks_unknown": total("checks_unknown"),
        "checks_evaluated": evaluated,
        "replays_outside_assumptions": skipped,
        "replay_mismatches": len(mismatches),
        "mismatch_samples": mismatches[:5],
        "counterexamples": len(violations),
        "inconclusive": inconclusive[:20],
        "limits_hit": merged,
        "schedule_points": sum(
            r.get("schedule_points", 0) for r in results
        ),
        "outside_the_claim": getattr(module, "OUTSIDE", ""),
    }
    if thorough:
        dumped = [d for r in results for d in r.get("dumped", [])]
        coverage["second_solver_cvc5"] = cross_check(dumped[:60], 300)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", [])
        + [
            "CPython 3.12 semantics of the operations modelled in vsym/",
            "z3 decides the path conditions and checks correctly",
        ],
        "violations": [
            f"{k.name}: {b['label']} {b['text']}" for k, b in new[:20]
        ],
        "wall_s": round(time.monotonic() - start, 2),
    }
    with open(
        os.path.join(VERIF, "evidence", f"{prop}.json"),
        "w",
        encoding="utf-8",
    ) as stream:
        json.dump(evidence, stream, indent=1)

    for item in seen_findings.values():
        print(f"KNOWN-FINDING: property={prop} {item['what']}")
    for text in inconclusive[:10]:
        print("INCONCLUSIVE", text)
    if mismatches:
        print(f"MISMATCH {len(mismatches)} paths, e.g. {mismatches[0]}")
    for key in ("pinned", "unsupported", "truncated", "notes"):
        if merged[key] and args.v:
            print(key, merged[key])
    for line in lines:
        print(line)
    print(
        f"{prop} {tier}: cases={len(cases)} complete={complete} "
        f"paths={total('paths')} queries={total('queries')} "
        f"solver={coverage['solver_seconds']}s validated={validated} "
        f"checks={total('checks_proved')}+{total('checks_trivial')} "
        f"wall={evidence['wall_s']}s"
    )
    return 1 if lines else 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "vsym.run"] + sys.argv[1:])
    try:
        CODE = main()
    except SystemExit as exc:
        CODE = exc.code if isinstance(exc.code, int) else 2
    except BaseException:  # pylint: disable=broad-except
        # threads were replaced: don't let the interpreter wait for any
        traceback.print_exc()
        CODE = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(CODE)
