"""Property-based testing engine for the Python parts: the same command line,
tape-based draws, shrinking and replay files as engine/main.cc."""
import collections, hashlib, json, math, signal, struct, sys, time, traceback

M64 = (1 << 64) - 1


class Failure(Exception):
    pass


class TooLong(BaseException):
    pass


def splitmix(s):
    s = (s + 0x9E3779B97F4A7C15) & M64
    z = s
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return s, z ^ (z >> 31)


class Ctx:
    def __init__(self, tape=None, seed=0):
        self.tape, self.rng, self.pos, self.out = tape, seed, 0, []
        self.labels, self.notes, self.is_nontrivial = [], [], False

    def u64(self, n):
        if n <= 1:
            return 0
        if self.tape is not None:
            v = self.tape[self.pos] % n if self.pos < len(self.tape) else 0
            self.pos += 1
        else:
            self.rng, v = splitmix(self.rng)
            v %= n
        self.out.append(v)
        return v

    def i(self, lo, hi): return lo + self.u64(hi - lo + 1)
    def chance(self, p): return self.u64(100) >= 100 - p
    def boolean(self): return self.u64(2) == 1
    def unit(self): return self.u64(1 << 32) / 4294967296.0
    def real(self, lo, hi): return lo + (hi - lo) * self.unit()

    def sym(self, a):
        v = self.u64(1 << 32)
        m = (v >> 1) / 2147483648.0
        return -a * m if v & 1 else a * m

    def pick(self, l): return l[self.u64(len(l))]
    def label(self, l): self.labels.append(l)
    def note(self, *a): self.notes.append(" ".join(str(x) for x in a))
    def nontrivial(self, b=True): self.is_nontrivial = b

    def require(self, cond, *msg):
        if not cond:
            raise Failure(" ".join(str(x) for x in msg))


TARGETS = collections.OrderedDict()
LIMIT = 20


def target(rule):
    def reg(f):
        TARGETS[f.__name__] = (f, rule)
        return f
    return reg


def _alarm(*_):
    raise TooLong()


def run_case(f, tape=None, seed=0):
    c = Ctx(tape, seed)
    msg = None
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
    try:
        f(c)
    except Failure as e:
        msg = str(e)
    except TooLong:
        msg = "did not terminate within %d s of CPU time" % LIMIT
    except SystemExit as e:
        msg = "the code exited (%s)" % e
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        msg = "unexpected %s: %s (%s)" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-2].strip())
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return msg, c


def shrink(f, tape, msg, c, budget):
    end, tries = time.time() + budget, 0
    best = (list(tape), msg, c)

    def attempt(cand):
        nonlocal best, tries
        if time.time() > end:
            return False
        tries += 1
        m, k = run_case(f, cand)
        if m is None:
            return False
        best = (k.out if len(k.out) <= len(cand) else cand, m, k)
        return True
    improved = True
    while improved and time.time() < end:
        improved = False
        n = max(1, len(best[0]) // 2)
        while n >= 1:
            p = 0
            while p + n <= len(best[0]) and time.time() < end:
                t = best[0]
                if attempt(t[:p] + t[p + n:]) and len(best[0]) < len(t):
                    improved = True
                else:
                    p += n
            n //= 2
        p = 0
        while p < len(best[0]) and time.time() < end:
            t = best[0]
            if t[p]:
                if attempt(t[:p] + [0] + t[p + 1:]):
                    improved = True
                else:
                    for _ in range(40):
                        t = best[0]
                        if p >= len(t) or t[p] <= 1 or not attempt(t[:p] + [t[p] // 2] + t[p + 1:]):
                            break
                        improved = True
            p += 1
    return best + (tries,)


def fnv(vals):
    return hashlib.sha1(b"".join(struct.pack("<Q", v) for v in vals)).hexdigest()[:16]


def main():
    a = sys.argv[1:] or ["list"]
    if a[0] == "list":
        for n, (f, rule) in TARGETS.items():
            print(n + "\t" + rule)
        return 0
    if a[0] == "replay":
        tgt, tape = None, []
        for l in open(a[1]):
            if l.startswith("target="):
                tgt = l[7:].strip()
            if l.startswith("tape="):
                tape = [int(x) for x in l[5:].split()]
        if tgt not in TARGETS:
            return 3
        m, c = run_case(TARGETS[tgt][0], tape)
        if m is None:
            print("PASS", tgt)
            return 0
        print("FAIL %s: %s\n--- case ---\n%s" % (tgt, m, "; ".join(c.notes)))
        return 1
    opt = dict(x.split("=", 1) for x in a[2:])
    global LIMIT
    LIMIT = int(opt.get("cpu", 20))
    f, rule = TARGETS[a[1]]
    seed, start, count, step = int(opt["seed"]), int(opt["start"]), int(opt["count"]), int(opt["step"])
    budget = float(opt["budget"])
    t0 = time.time()
    ran = nontriv = 0
    labels, distinct, samples, failure = collections.Counter(), set(), [], None
    for k in range(count):
        if budget > 0 and time.time() - t0 > budget:
            break
        idx = start + k * step
        s = int(hashlib.sha256(("%s/%d/%d" % (a[1], seed, idx)).encode()).hexdigest()[:16], 16)
        m, c = run_case(f, None, s)
        ran += 1
        labels.update(set(c.labels))
        if c.is_nontrivial:
            nontriv += 1
            h = fnv(c.out)
            if h not in distinct:
                distinct.add(h)
                if len(samples) < 2 and nontriv % 7 == 3:
                    samples.append("; ".join(c.notes)[:1500])
        if m is None:
            continue
        again = sum(run_case(f, list(c.out))[0] is not None for _ in range(3))
        tape, msg, cc, tries = list(c.out), m, c, 0
        if again == 3:
            tape, msg, cc, tries = shrink(f, tape, m, c, 20)
        note = "; ".join(cc.notes)
        with open(opt["replay"], "w") as o:
            o.write("target=%s\nseed=%d\ncase=%d\ntape=%s\nfailure=%s\n# %s\n" % (a[1], seed, idx, " ".join(map(str, tape)), msg.replace("\n", " "), note.replace("\n", " ")))
        failure = {"case": idx, "confirmed": again == 3, "msg": msg, "shrunk_draws": len(tape), "orig_draws": len(c.out), "shrink_tries": tries, "note": note[:4000]}
        break
    json.dump({"target": a[1], "ran": ran, "nontrivial": nontriv, "evals": 0, "secs": time.time() - t0, "rule": rule, "labels": labels,
               "hashes": sorted(distinct), "samples": samples, "failure": failure}, open(opt["out"], "w"))
    return 0
