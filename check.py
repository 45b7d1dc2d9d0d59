#!/usr/bin/env python3
"""Decides one property by generated-input search.

  check.py ID [--tier quick|thorough]      run the check (tier from VERIF_TIER by default, seed from VERIF_SEED)
  check.py ID --replay FILE                run one recorded case
  check.py --setup                         build every harness once

The harness in harness/ is compiled against /repo's working tree, several processes of it generate
cases from seeds of their own, and what they covered is written to evidence/ID.json.
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")

# id -> (build tags, race detector, cases per shard in the quick and in the thorough tier)
PROPS = json.load(open(os.path.join(HARNESS, "props.json")))

SHARDS = 8
SOFT_STOP = {"quick": 240, "thorough": 760}
HARD_STOP = {"quick": 600, "thorough": 870}
DEATHS = {96: "used too much memory", 97: "did not return", 98: "blocked", 66: "raced"}


def go_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO_", "RAPID"))}
    env.setdefault("HOME", "/root")
    env.update(
        PATH="/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=env["HOME"] + "/.cache/go-build",
        GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GONOSUMDB="*",
        GOENV="off", CGO_ENABLED="1")
    return env


def build(cfg, scratch, name="harness.test"):
    """Compiles the harness; its go.mod is a copy, so that the committed one stays as it is."""
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HARNESS, f), os.path.join(scratch, f))
    out = os.path.join(scratch, name)
    cmd = ["go", "test", "-c", "-vet=off", "-buildvcs=false", "-modfile=" + os.path.join(scratch, "go.mod"),
           "-tags=" + ",".join(cfg["tags"]), "-o", out]
    if cfg.get("race"):
        cmd.append("-race")
    cmd.append(".")
    p = subprocess.run(cmd, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("the harness does not build:\n" + p.stdout[-4000:])
        sys.exit(2)
    return out


def seed_of(seed, pid, tier, shard):
    h = hashlib.sha256(f"{seed}/{pid}/{tier}/{shard}".encode()).digest()
    return (int.from_bytes(h[:8], "big") >> 1) | 1


def run_env(cfg):
    env = go_env()
    env["GOMAXPROCS"] = str(cfg.get("procs", 2))
    env["GORACE"] = "halt_on_error=1 exitcode=66"
    env["GOTRACEBACK"] = "single"
    return env


class Shard:
    def __init__(self, binary, pid, cfg, tier, seed, i, scratch):
        self.dir = os.path.join(scratch, f"shard{i}")
        os.makedirs(self.dir)
        self.seed = seed_of(seed, pid, tier, i)
        self.log = os.path.join(self.dir, "log")
        cmd = [binary, "-test.run=^TestProperty$", "-test.timeout=0", "-verif.prop=" + pid, "-verif.out=" + self.dir,
               f"-verif.shard={i}/{SHARDS}", f"-verif.tier={tier}",
               f"-verif.softstop={SOFT_STOP[tier]}s", f"-rapid.seed={self.seed}", f"-rapid.checks={cfg[tier]}",
               "-rapid.nofailfile", "-rapid.shrinktime=" + ("30s" if tier == "quick" else "90s")]
        with open(self.log, "wb") as f:
            self.proc = subprocess.Popen(cmd, cwd=self.dir, env=run_env(cfg), stdout=f, stderr=subprocess.STDOUT,
                                         stdin=subprocess.DEVNULL, start_new_session=True)

    def kill(self):
        if self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()

    def tail(self, n=3000):
        with open(self.log, "rb") as f:
            return f.read().decode("utf-8", "replace")[-n:]

    def head(self, n=6000):
        with open(self.log, "rb") as f:
            return f.read(n).decode("utf-8", "replace")

    def violation(self):
        """What the shard found, or None. Anything that is the harness's own fault is neither."""
        path = os.path.join(self.dir, "failure.json")
        if os.path.exists(path):
            return json.load(open(path))
        rc = self.proc.returncode
        cur = os.path.join(self.dir, "current.json")
        why = DEATHS.get(rc)
        head = self.head()
        if why is None and rc not in (0, None):
            for mark in ("fatal error: stack overflow", "goroutine stack exceeds", "fatal error: concurrent map",
                         "fatal error: all goroutines are asleep", "fatal error: out of memory", "unexpected signal during runtime"):
                if mark in head:
                    why = "died: " + mark
        if why is None or not os.path.exists(cur):
            return None
        try:
            f = json.load(open(cur))
        except ValueError:
            return None
        f["error"] = "the case " + why + "\n" + head[:3000]
        f["repeat"] = 50
        return f


def replay(pid, cfg, binary, path, scratch):
    p = subprocess.run([binary, "-test.run=^TestProperty$", "-verif.prop=" + pid, "-verif.replay=" + os.path.abspath(path)],
                       cwd=scratch, env=run_env(cfg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if "REPLAY-OK" in p.stdout and p.returncode == 0:
        return False, p.stdout
    if "REPLAY-VIOLATION" in p.stdout or p.returncode in DEATHS or "fatal error:" in p.stdout:
        return True, p.stdout
    print(p.stdout[-3000:])
    sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    args = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        if args.setup:
            for key in sorted({(tuple(c["tags"]), bool(c.get("race"))) for c in PROPS.values()}):
                build({"tags": key[0], "race": key[1]}, scratch)
            return 0
        return check(args, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(pid):
    """Findings that are recorded and not repaired: 'known: property=<id> <what fails>'.

    The generators leave the inputs of a recorded finding out, so nothing else is suppressed."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                out.append(line)
    return out


def quantifier(pid):
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)
            if p["id"] == pid:
                return p["quantifier"]["text"]
    return ""


def check(args, scratch):
    pid, tier = args.id, args.tier
    cfg = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    start = time.time()
    binary = build(cfg, scratch)
    if args.replay:
        bad, out = replay(pid, cfg, binary, args.replay, scratch)
        print(out[-6000:])
        if bad:
            print(f"VIOLATION property={pid} replay={os.path.abspath(args.replay)}")
        return 1 if bad else 0

    shards = [Shard(binary, pid, cfg, tier, seed, i, scratch) for i in range(cfg.get("shards", SHARDS))]
    deadline = time.time() + HARD_STOP[tier]
    failed = False
    try:
        while any(s.proc.poll() is None for s in shards):
            time.sleep(0.05)
            if time.time() > deadline:
                break
            if any(s.proc.poll() not in (None, 0) for s in shards):
                failed = True
                break
    finally:
        timed_out = [s for s in shards if s.proc.poll() is None] if not failed else []
        for s in shards:
            s.kill()

    found = [v for v in (s.violation() for s in shards if s.proc.returncode not in (0, -9)) if v]
    broken = [s for s in shards if s.proc.returncode not in (0, -9) and not s.violation()]

    stats = []
    hashes = set()
    for s in shards:
        p = os.path.join(s.dir, "stats.json")
        if os.path.exists(p):
            stats.append(json.load(open(p)))
            data = open(os.path.join(s.dir, "hashes.bin"), "rb").read()
            hashes.update(struct.unpack(f"<{len(data) // 8}Q", data))
    labels = {}
    for st in stats:
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = []
    for st in stats:
        samples += (st["samples"] or [])[-1:]
    if not samples and found:
        samples = [found[0]["case"]]
    violations = []
    replay_path = None
    if found:
        best = min(found, key=lambda f: len(json.dumps(f["case"])))
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        digest = hashlib.sha256(json.dumps(best["case"]).encode()).hexdigest()[:12]
        replay_path = os.path.join(HERE, "replays", f"{pid}-{digest}.json")
        with open(replay_path, "w") as f:
            json.dump(best, f, indent=1, ensure_ascii=False)
        violations.append({"error": best["error"][:4000], "replay": replay_path})

    rule = next((st["rule"] for st in stats), "")
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(st["evaluations"] for st in stats),
            "distinct_nontrivial": len(hashes),
            "rule": "generated at random: " + quantifier(pid) + "; non-trivial: " + rule,
            "samples": samples[:4],
            "cases": sum(st["cases"] for st in stats),
            "nontrivial": sum(st["nontrivial"] for st in stats),
            "labels": dict(sorted(labels.items())),
            "shards": len(stats),
            "stopped_early": any(st["truncated"] for st in stats) or bool(timed_out),
        },
        "wall_s": round(time.time() - start, 2),
        "violations": violations,
        "assumptions": cfg.get("assumptions", []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")

    for line in known_findings(pid):
        print("KNOWN-FINDING: " + line[len("known: "):])
    if found:
        print(best["error"][:4000])
        print(f"VIOLATION property={pid} replay={replay_path}")
        return 1
    if broken:
        for s in broken[:1]:
            print(f"a shard ended with {s.proc.returncode}:\n" + s.head(3000) + "\n...\n" + s.tail())
        return 2
    if not stats:
        print("no shard finished")
        return 2
    c = evidence["coverage"]
    print(f"{pid}: held on {c['evaluations']} evaluations ({c['distinct_nontrivial']} distinct non-trivial) in {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
