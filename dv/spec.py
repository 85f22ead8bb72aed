"""Contract layer: arguments, preconditions, postconditions for one real function."""
import os
import re
import time
import hashlib
import subprocess
import terms as T
from terms import *          # noqa
from prove import Prover
from engine import Engine, Ptr, Obj, State, Content, Unsupported, PathLimit, Obligation, SIZE_MAX, tsize
import llparse

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

CXXFLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-ffp-contract=off", "-fno-math-errno",
            "-DXSIMD_ENABLE_XTL_COMPLEX=1", "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3", "-S", "-emit-llvm", "-w"]

PASSES = ("inferattrs,cgscc(inline,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>)),"
          "function(sroa,early-cse<memssa>,jump-threading,simplifycfg,instcombine<no-verify-fixpoint>,gvn,simplifycfg,loop-simplify,"
          "loop(loop-unroll-full),sroa,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,loop-mssa(licm),instcombine<no-verify-fixpoint>,simplifycfg,dce),"
          "internalize,globaldce,function(simplifycfg,loop-simplify,dce)")


class BuildError(Exception):
    pass


def build_ir(cpp, workdir, exports, keep=(), passes=PASSES, defines=(), drop=()):
    """compile the wrapper translation unit from the current tree and canonicalise"""
    os.makedirs(workdir, exist_ok=True)
    b = os.path.join(workdir, os.path.basename(cpp))
    raw, opt = b + ".0.ll", b + ".ll"
    r = subprocess.run(["clang++-18"] + CXXFLAGS + list(defines) + [cpp, "-o", raw], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("clang++-18 failed on %s:\n%s" % (cpp, r.stderr[-4000:]))
    if drop:
        # third-party functions used only through a contract: their bodies are removed
        import re
        with open(raw) as f:
            names = [m.group(1) for m in re.finditer(r'^define [^@]*@([-\w$.]+)\(', f.read(), re.M)]
        names = [n for n in names if any(hit(k, n) for k in drop)]
        cmd = ["llvm-extract-18", "-S", "--delete", raw, "-o", raw] + ["--func=" + n for n in names]
        r = subprocess.run(cmd, capture_output=True, text=True) if names else None
        if r and r.returncode:
            raise BuildError("llvm-extract-18 failed: " + r.stderr[-3000:])
    if keep:
        mark_noinline(raw, keep)
    r = subprocess.run(["opt-18", "-S", "-passes=" + passes, "-inline-threshold=20000", "-internalize-public-api-list=" + ",".join(exports), raw, "-o", opt],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt-18 failed: " + r.stderr[-3000:])
    with open(opt) as f:
        return llparse.parse_module(f.read())


def hit(pattern, name):
    """part of a mangled name, or a regular expression after 're:'"""
    return re.search(pattern[3:], name) is not None if pattern.startswith("re:") else pattern in name


def mark_noinline(path, keep):
    """keep functions whose mangled name contains one of `keep` out of line (they are used through their contract)"""
    import re
    out = []
    with open(path) as f:
        for ln in f:
            if ln.startswith("define"):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                nm = m.group(1) if m else ""
                if any(hit(k, nm) for k in keep):
                    # insert the attribute after the parameter list
                    i = ln.rindex(")")
                    # the parameter list ends at the matching parenthesis of m.end()-1
                    d, j = 0, m.end() - 1
                    while True:
                        if ln[j] == "(":
                            d += 1
                        elif ln[j] == ")":
                            d -= 1
                            if d == 0:
                                break
                        j += 1
                    ln = ln[:j + 1] + " noinline " + ln[j + 1:]
                    ln = ln.replace("unnamed_addr noinline", "unnamed_addr noinline")
                    ln = re.sub(r'\) noinline  ?(unnamed_addr|local_unnamed_addr)', r') \1 noinline', ln)
            out.append(ln)
    with open(path, "w") as f:
        f.writelines(out)


class Proof:
    """one function under contract"""

    def __init__(self, mod, fn, fpmode="real", timeout=10000, maxpaths=6000, budget=380, label=None):
        self.mod, self.fn = mod, fn
        self.label = label or fn
        self.pv = Prover(timeout)
        self.e = Engine(mod, self.pv, fpmode)
        self.e.maxpaths = maxpaths
        self.e.deadline = time.time() + budget
        self.st = State()
        self.args = []
        self.sizes = []
        self.post_fns = []
        self.throws_ok = False
        self.notes = []
        self.t0 = time.time()

    # ---- building the pre-state
    def size(self, name, lo=0, hi=1 << 36):
        v = ivar(name)
        self.st.assume(v.ge(lo))
        self.st.assume(v.le(hi))
        self.sizes.append(name)
        self.pv.cex_vars.append(name)
        return v

    def int(self, name, lo=None, hi=None):
        v = ivar(name)
        self.pv.cex_vars.append(name)
        if lo is not None:
            self.st.assume(v.ge(lo))
        if hi is not None:
            self.st.assume(v.le(hi))
        return v

    def real(self, name):
        return rvar(name)

    def array(self, name, n, elt=8, readonly=True, ty="f", facts=None):
        """n elements of elt bytes; content is the uninterpreted function `name`"""
        o = Obj(name, I(n) * elt, "arg")
        o.elt = elt
        o.readonly = readonly
        self.st.mem[o] = Content(None, "base", self.e.uf_base(name, elt, facts))
        return Ptr(o, I(0))

    def struct(self, name, fields, size):
        """fields: list of (offset, type, value)"""
        o = Obj(name, size, "arg")
        c = Content(None, "base", self.e.undef_base(o))
        self.st.mem[o] = c
        for off, ty, v in fields:
            self.e.write(self.st, o, I(off), ty, v)
        return Ptr(o, I(0))

    def requires(self, b):
        self.st.assume(b)

    def elem(self, name, i, sort="R"):
        return app(name, (I(i),), sort)

    # ---- running
    def run(self, args, post, want_return=True):
        e = self.e
        if not self.pv.feasible(self.st.pc):
            e.obls.append(Obligation(self.fn + "/vacuity:precondition-satisfiable", "refuted", "the precondition is contradictory"))
        nret = 0
        try:
            outs = e.run_function("@" + self.fn, args, self.st.fork())
            for st, kind, v in outs:
                if not self.pv.feasible(st.pc):
                    continue
                if kind == "ret":
                    nret += 1
                    e.cur = self.fn
                    e.cur_state = st
                    post(self, st, v)
                elif not self.throws_ok:
                    e.cur = self.fn
                    e.require(st, FALSE, self.fn + "/throws-nothing")
                else:
                    self.throws_ok(self, st, v)
            if want_return and nret == 0:
                e.obls.append(Obligation(self.fn + "/vacuity:some-path-returns", "refuted", "no execution reaches a return"))
        except (Unsupported, PathLimit, TypeError, KeyError, IndexError, AttributeError, ValueError, T.NonIntegral, RecursionError, AssertionError) as ex:
            if os.environ.get("VERIF_TB"):
                import traceback
                traceback.print_exc()
            e.obls.append(Obligation(self.fn + "/verification-condition-generation", "unknown", "%s: %s" % (type(ex).__name__, ex)))
        self.secs = time.time() - self.t0
        return self

    def ensure(self, st, cond, name, lem=None):
        self.e.require(st, cond, "%s/ensures:%s" % (self.fn, name))

    def ensure_all(self, st, ptr, n, elt, spec, name, ty=("f", 64)):
        """for all j in [0,n): content[j] == spec(j)"""
        s = st.fork()
        j = fresh("j")
        s.assume(And(j.ge(0), j.lt(n)))
        if not self.pv.feasible(s.pc):
            return
        v = self.e.read(s, ptr.obj, ptr.off + j * elt, ty)
        w = spec(j, s)
        if not isinstance(v, Poly):
            self.e.fail(s, "%s/ensures:%s" % (self.fn, name), "unknown content %r" % (v,))
            return
        self.e.require(s, v.eq(w), "%s/ensures:%s" % (self.fn, name))

    def report(self):
        bad = [o for o in self.e.obls if o.status != "proved"]
        return bad
