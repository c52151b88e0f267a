"""R01: the run scripts. Every combination of simulator, options and environment is executed on the real scripts with a recording
stand-in for VUnit; the registered configurations are then prepared in every order. The stand-in is tied to the real VUnit by
comparing the test lists both produce."""
import glob, inspect, io, contextlib, itertools, os, runpy, shutil, subprocess, sys, tempfile, time, types
from fxv import harness as H

PID = "R01"
SUITES = ("sim", "lib/en_tb/sim")
SIMS = ("ghdl", "nvc", "modelsim", "questa")
COSIM = "import fxv_probe\nCOSIM_CONFIG = {'N_TESTS': %d}\ndef run():\n    fxv_probe.log.append(%r)\n"


# ------------------------------------------------------------------ stand-in for VUnit
class Stop(Exception):
    pass


class Obj:
    """Accepts any other call."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def call_pre(fn):
    """VUnit passes the arguments the callback names."""
    if fn is None:
        return True
    have = {"output_path": "/nonexistent", "simulator_output_path": "/nonexistent", "seed": "0"}
    try:
        names = list(inspect.signature(fn).parameters)
    except ValueError:
        names = []
    return fn(**{k: v for k, v in have.items() if k in names})


class Test(Obj):
    def __init__(self, tb, name):
        self.tb, self.name, self.configs = tb, name, {}

    def add_config(self, name, generics=None, parameters=None, pre_config=None, post_check=None, **k):
        if name in self.configs:
            raise RuntimeError("Configuration name %s already defined" % name)
        self.configs[name] = (dict(generics or {}), pre_config)


class Bench(Obj):
    def __init__(self, lib, name):
        self.lib, self.name, self.tests = lib, name, [Test(self, "test")]
        self.configs = {}

    def get_tests(self, pattern="*"):
        import fnmatch
        return [t for t in self.tests if fnmatch.fnmatch(t.name, pattern)]

    def test(self, name):
        return [t for t in self.tests if t.name == name][0]

    def add_config(self, *a, **k):
        for t in self.tests:
            t.add_config(*a, **k)

    def set_sim_option(self, name, value, *a, **k):
        self.lib.vu.options.append((self.lib.name + "." + self.name, "sim", name, value))


class Lib(Obj):
    def __init__(self, vu, name):
        self.vu, self.name, self.files, self.benches = vu, name, {}, {}

    def add_source_files(self, pattern, vhdl_standard=None, allow_empty=False, **k):
        for p in [pattern] if isinstance(pattern, (str, os.PathLike)) else pattern:
            found = glob.glob(str(p), recursive=True)
            if not found and not allow_empty:
                raise ValueError("Pattern %s did not match any file" % p)
            for f in found:
                self.add_source_file(f, vhdl_standard)

    def add_source_file(self, f, vhdl_standard=None, **k):
        if not os.path.isfile(f):
            raise ValueError("File %s does not exist" % f)
        self.files[os.path.realpath(f)] = vhdl_standard

    def test_bench(self, name):
        if not any(os.path.basename(f).lower() == name + ".vhd" for f in self.files):
            raise KeyError(name)
        return self.benches.setdefault(name, Bench(self, name))

    def get_test_benches(self, pattern="*", allow_empty=False):
        return [self.test_bench(os.path.basename(f)[:-4]) for f in sorted(self.files) if f.endswith("_tb.vhd")]

    def set_sim_option(self, name, value, *a, **k):
        self.vu.options.append((self.name, "sim", name, value))

    def set_compile_option(self, name, value, *a, **k):
        self.vu.options.append((self.name, "compile", name, value))

    def add_compile_option(self, name, value, *a, **k):
        self.vu.options.append((self.name, "compile", name, value))


class Project(Obj):
    made = []
    existing = ()

    def __init__(self, args):
        self.args, self.libs, self.options, self.builtins, self.post_run, self.ran = args, {}, [], 0, None, 0
        Project.made.append(self)
        for n in Project.existing:
            self.add_library(n)

    @classmethod
    def from_args(cls, args, *a, **k):
        return cls(args)

    @classmethod
    def from_argv(cls, argv=None, *a, **k):
        import vunit
        return cls(vunit.VUnitCLI().parse_args(argv))

    def add_vhdl_builtins(self, *a, **k):
        self.builtins += 1

    def add_library(self, name, *a, allow_duplicate=False, **k):
        if name in self.libs and not allow_duplicate:
            raise ValueError("Library %s already added" % name)
        return self.libs.setdefault(name, Lib(self, name))

    def library(self, name):
        return self.libs[name]

    def get_libraries(self, pattern="*", allow_empty=False):
        return list(self.libs.values())

    def set_sim_option(self, name, value, *a, **k):
        for n in self.libs:
            self.options.append((n, "sim", name, value))

    def set_compile_option(self, name, value, *a, **k):
        for n in self.libs:
            self.options.append((n, "compile", name, value))

    def add_compile_option(self, name, value, *a, **k):
        for n in self.libs:
            self.options.append((n, "compile", name, value))

    def main(self, post_run=None, *a, **k):
        self.ran += 1
        self.post_run = post_run
        raise SystemExit(0)


DECOYS = {"VUNIT_SIMULATOR": "nvc", "VUNIT_MODELSIM_PATH": "/fxv/old1", "VUNIT_GHDL_PATH": "/fxv/old2", "VUNIT_NVC_PATH": "/fxv/old3", "EN_SIM": "ghdl", "SIMULATOR": "ghdl"}


# ------------------------------------------------------------------ running a script
class Probe:
    def __init__(self):
        self.log = []


def tree(d, n_tests=3):
    """Copy of everything the run scripts look at; the co-simulation scripts are replaced by recorders."""
    for sub in ("sim", "hdl", "tb", "lib/en_tb/sim", "lib/en_tb/hdl", "lib/en_tb/tb"):
        shutil.copytree(os.path.join(H.REPO, sub), os.path.join(d, sub), ignore=shutil.ignore_patterns("__pycache__"))
    out = {}
    for suite, base in zip(SUITES, ("bittrue/cosim", "lib/en_tb/bittrue/cosim")):
        names = []
        for n in sorted(os.listdir(os.path.join(H.REPO, base))):
            if os.path.isfile(os.path.join(H.REPO, base, n, "cosim.py")):
                os.makedirs(os.path.join(d, base, n))
                with open(os.path.join(d, base, n, "cosim.py"), "w") as f:
                    f.write(COSIM % (n_tests, n))
                names.append(n)
        out[suite] = names
    return out


LOCAL = ("common", "cosim_runner", "cosim", "run", "vunit", "fxv_probe")


def execute(d, suite, argv, env, existing=(), cwd=None):
    """Run <suite>/run.py as a program (or, with existing libraries, call create_test_suite): (project, error, environ, systems)."""
    import vunit as real
    saved = (list(sys.path), list(sys.argv), dict(os.environ), os.getcwd(), {m: sys.modules.get(m) for m in LOCAL}, os.system, subprocess.Popen)
    systems = []
    err = None
    for m in LOCAL:
        sys.modules.pop(m, None)
    fake = types.ModuleType("vunit")
    fake.VUnit, fake.VUnitCLI = Project, real.VUnitCLI
    probe = Probe()
    sys.modules["vunit"], sys.modules["fxv_probe"] = fake, probe
    Project.made, Project.existing = [], existing
    here = os.path.join(d, suite)
    post = None
    try:
        for k in list(os.environ):
            if k.startswith(("VUNIT_", "EN_SIM_")):
                del os.environ[k]
        os.environ.update(env)
        os.chdir(cwd or here)
        os.system = lambda c: systems.append((c, os.getcwd())) or 0

        class Proc:
            """A started program is only recorded."""
            returncode, stdout, stderr, pid = 0, "", "", 0

            def __init__(self, c, *a, cwd=None, **k):
                systems.append((c if isinstance(c, str) else " ".join(map(str, c)), os.path.abspath(cwd or os.getcwd())))
            __enter__ = lambda self: self
            __exit__ = lambda self, *a: None
            wait = poll = lambda self, *a, **k: 0
            communicate = lambda self, *a, **k: ("", "")
        subprocess.Popen = Proc
        sys.path[:] = [here] + [p for p in sys.path if p]
        sys.argv = [os.path.join(here, "run.py")] + argv
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                if existing:
                    g = runpy.run_path(sys.argv[0], run_name="run")
                    p = Project(g["common"].args)
                    g["create_test_suite"](p, g["common"].args)
                    p.main()
                else:
                    runpy.run_path(sys.argv[0], run_name="__main__")
            except SystemExit as e:
                err = e if e.code else None
            except Exception as e:
                err = e
            environ = dict(os.environ)
            p = Project.made[-1] if Project.made else None
            if p is not None and p.post_run and err is None:
                merged = []
                res = types.SimpleNamespace(merge_coverage=lambda file_name, args=None: merged.append((os.path.abspath(file_name), os.getcwd())))
                before = os.getcwd()
                try:
                    p.post_run(res)
                    post = (merged, systems, os.getcwd() == before)
                except Exception as e:
                    post = e
    finally:
        os.system, subprocess.Popen = saved[5:]
        os.chdir(saved[3])
        sys.path[:], sys.argv = saved[0], saved[1]
        os.environ.clear(); os.environ.update(saved[2])
        for m in LOCAL:
            sys.modules.pop(m, None)
            if saved[4][m] is not None:
                sys.modules[m] = saved[4][m]
    return p, err, environ, post, probe


def last(p, scope, name, default=None):
    v = [o[3] for o in p.options if o[0] == scope and o[1] == "sim" and o[2] == name]
    return v[-1] if v else default


def registered(p):
    """test name -> (generics, callback), like VUnit's list."""
    out = {}
    for lib in p.libs.values():
        for b in lib.benches.values():
            for t in b.tests:
                for c, v in t.configs.items():
                    out["%s.%s.%s.%s" % (lib.name, b.name, c, t.name)] = v + (b.name,)
    return out


def expected(names, suite, n_tests):
    exp = {}
    for n in names:
        b = n + "_tb"
        if suite == SUITES[1]:
            for i in range(n_tests):
                exp["lib.%s.TestIndex=%d.test" % (b, i)] = {"test_index_g": i}
        elif n in ("cl_fix_round", "cl_fix_saturate", "cl_fix_resize"):
            for w in (0, 8):
                exp["lib.%s.MetaWidth=%d.test" % (b, w)] = {"meta_width_g": w}
        else:
            exp["lib.%s.Test.test" % b] = {}
    return exp


def sources(d, suite, lib):
    g = lambda x: {os.path.realpath(f) for f in glob.glob(os.path.join(d, x))}
    if lib == "en_tb":
        return g("lib/en_tb/hdl/*.vhd"), set()
    return (g("hdl/*.vhd"), g("tb/util/*.vhd") | g("tb/*.vhd")) if suite == "sim" else (set(), g("lib/en_tb/tb/*.vhd"))


def judge(R, d, names, c):
    suite, sim_cli, sim_env, path_cli, path_env, disable, cov, gui, existing, decoy, n_tests, cwd = c
    argv = (["--simulator", sim_cli] if sim_cli else []) + ([["--simulator-path", "-s"][disable], path_cli] if path_cli else [])
    argv += (["--disable-cosim"] if disable else []) + ([["--coverage", "-c"][gui]] if cov else []) + (["-g"] if gui else [])
    env = dict([("EN_SIM_NAME", sim_env)] if sim_env else [], **({"EN_SIM_BIN": path_env} if path_env else {}))
    if decoy:       # left over from an earlier run, or meant for VUnit used directly: must not select anything
        env.update(DECOYS)
    case = dict(suite=suite, argv=argv, env=env, existing=existing, n_tests=n_tests)
    p, err, environ, post, probe = execute(d, suite, argv, env, existing, cwd)
    R.states += 1
    R.traces += 1
    R.transitions += 1
    sim, path = sim_cli or sim_env, path_cli or path_env
    if sim not in SIMS or not path:
        if err is None or p is not None:
            R.bad("refuse", "%s: accepted" % case, case)
        return None
    if err is not None or p is None or p.ran != 1:
        R.bad("exc", "%s: %r" % (case, err), case)
        return None

    def bad(key, text):
        R.bad(key, "%s: %s" % (case, text), case)
    vsim = "modelsim" if sim == "questa" else sim
    if environ.get("VUNIT_SIMULATOR") != vsim or environ.get("VUNIT_%s_PATH" % vsim.upper()) != path:
        bad("select", "VUNIT_SIMULATOR=%s path=%s" % (environ.get("VUNIT_SIMULATOR"), environ.get("VUNIT_%s_PATH" % vsim.upper())))
    # source files and language standards
    rtl, tb = ("93" if vsim == "modelsim" else "2008"), "2008"
    for lib in ("en_tb", "lib"):
        if lib in existing:
            continue
        s_rtl, s_tb = sources(d, suite, lib)
        if lib == "en_tb":
            s_rtl, s_tb = set(), s_rtl
        want = dict([(f, rtl) for f in s_rtl] + [(f, tb) for f in s_tb])
        got = dict(p.libs[lib].files) if lib in p.libs else {}
        if got != want:
            f = sorted(set(got.items()) ^ set(want.items()))[0]
            bad("files", "library %s: %s" % (lib, f))
    # configurations
    reg = registered(p)
    want = expected(names[suite], suite, n_tests)
    for n, g in want.items():
        if n not in reg:
            bad("config", "test %s is missing" % n)
        elif reg[n][0] != g:
            bad("config", "test %s has generics %s" % (n, reg[n][0]))
        elif reg[n][1] is None:
            bad("config", "test %s does not prepare its data" % n)
    if suite == SUITES[1] and set(reg) != set(want):
        bad("config", "tests %s" % sorted(set(reg) ^ set(want)))
    seen = {}
    for n, (g, fn, b) in reg.items():
        k = (b, tuple(sorted(g.items())))
        if k in seen:
            bad("config", "tests %s and %s are the same" % (n, seen[k]))
        seen[k] = n
    if probe.log:
        bad("early", "registering ran %s" % probe.log)
    # options
    if last(p, "lib", "enable_coverage", False) is not bool(cov):
        bad("coverage", "enable_coverage = %s" % last(p, "lib", "enable_coverage"))
    if bool(last(p, "lib", "modelsim.three_step_flow", False)) != (sim == "questa" and not gui):
        bad("flow", "three_step_flow = %s" % last(p, "lib", "modelsim.three_step_flow"))
    if last(p, "lib", "disable_ieee_warnings", False) is not True:
        bad("option", "disable_ieee_warnings is not set")
    # after the run
    if not existing:
        if isinstance(post, Exception) or (post is None):
            bad("post", "after the run: %r" % (post,))
        else:
            merged, systems, restored = post
            ms = cov and vsim == "modelsim"
            data = os.path.join(d, suite, "coverage", "coverage_data.ucdb")
            if [os.path.realpath(m[0]) for m in merged] != ([os.path.realpath(data)] if ms else []) or len(systems) != ms:
                bad("post", "after the run: coverage merged into %s, commands %s" % (merged, systems))
            elif ms and not (systems[0][0].startswith(path + "/vsim ") and "coverage_data.ucdb" in systems[0][0] and os.path.realpath(systems[0][1]) == os.path.realpath(os.path.join(d, suite))):
                bad("post", "after the run: command %s in %s" % systems[0])
            if not restored:
                bad("post", "after the run: working directory not restored")
    return reg, probe, case


def prepare(R, reg, probe, case, names, disable):
    """The registered callbacks in several orders, each test's own data exactly once."""
    tests = list(reg)
    done = []
    for n in tests:
        R.transitions += 1
        try:
            r = call_pre(reg[n][1])
        except Exception as e:
            R.bad("prepare", "%s: preparing %s raised %r" % (case, n, e), case)
            return
        if r is not True:
            R.bad("prepare", "%s: preparing %s returned %r" % (case, n, r), case)
        own = reg[n][2][:-3]
        if own not in done and reg[n][1] is not None:
            done.append(own)
        want = [] if disable else [x for x in done]
        if probe.log != want:
            R.bad("prepare", "%s: after preparing %s the scripts run so far are %s, expected %s" % (case, n, probe.log, want), case)
            return


def combos():
    out = []
    sims = SIMS + ("isim", "GHDL", "")
    for suite in SUITES:
        for sc, se in list(itertools.product(sims, (None, "ghdl", "questa", "foo"))) + [(None, s) for s in (None,) + sims]:
            for pc, pe in ((None, None), ("/fxv/cli", None), (None, "/fxv/env"), ("/fxv/cli", "/fxv/env")):
                for dis, cov, gui in itertools.product((0, 1), repeat=3):
                    for ex in ((), ("en_tb",)):
                        if ex and suite == SUITES[1] and False:
                            continue
                        n = (len(out) * 7 // 3) % 5
                        if suite == SUITES[1] and n == 4:
                            n = 11
                        out.append((suite, sc, se, pc, pe, dis, cov, gui, ex, 0, n))
                        if H.THOROUGH or not (dis or ex):
                            out.append((suite, sc, se, pc, pe, dis, cov, gui, ex, 1, n))
    return out


def orders(n):
    base = list(range(n))
    yield base
    yield base[::-1]
    for k in range(1, n, 2 if H.THOROUGH else 5):
        yield base[k:] + base[:k]
    for k in range(n - 1):
        yield [k + 1, k] + [i for i in base if i not in (k, k + 1)]


def work(us):
    sys.dont_write_bytecode = True
    R = H.Result()
    d = os.path.realpath(tempfile.mkdtemp(prefix="fxv_"))
    trees = {}
    try:
        for u in us:
            n = u[-1]
            if n not in trees:
                t = os.path.join(d, str(n))
                os.makedirs(os.path.join(t, "elsewhere"))
                trees[n] = (t, tree(t, n))
            t, names = trees[n]
            cwd = [None, os.path.join(t, "elsewhere")][(u[6] + u[7]) % 2]
            x = judge(R, t, names, u + (cwd,))
            if x:
                prepare(R, x[0], x[1], x[2], names, u[5])
                if len(R.samples) < 1:
                    R.samples.append({"suite": u[0], "argv": x[2]["argv"], "env": x[2]["env"], "tests": sorted(x[0])})
            if len(R.viol) > 10:
                break
        # every order of preparation (one configuration each)
        if us and us[0] == combos()[0]:
            for suite in SUITES:
                for dis in (0, 1):
                    first = None
                    k = 0
                    while True:
                        n = 5
                        if n not in trees:
                            t = os.path.join(d, str(n))
                            os.makedirs(os.path.join(t, "elsewhere"))
                            trees[n] = (t, tree(t, n))
                        t, names = trees[n]
                        x = judge(R, t, names, (suite, "ghdl", None, "/fxv/cli", None, dis, 0, 0, (), 0, n, None))
                        if not x:
                            break
                        os_ = list(orders(len(x[0])))
                        if k >= len(os_):
                            break
                        keys = list(x[0])
                        prepare(R, {keys[i]: x[0][keys[i]] for i in os_[k]}, x[1], x[2], names, dis)
                        k += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return R


def real_list(R):
    """The tests the real VUnit finds with the real scripts are those the stand-in registered."""
    d = os.path.realpath(tempfile.mkdtemp(prefix="fxv_"))
    try:
        t = os.path.join(d, "r")
        names = tree(t, 4)
        with open(os.path.join(t, "fxv_probe.py"), "w") as f:
            f.write("log = []\n")
        for suite in SUITES:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", GHDL_BACKEND="gcc", PYTHONPATH=t)
            for k in ("EN_SIM_NAME", "EN_SIM_BIN"):
                env.pop(k, None)
            p = subprocess.run([sys.executable, "run.py", "--simulator", "ghdl", "--simulator-path", "/usr/bin", "-o", os.path.join(d, "o" + suite.replace("/", "_")), "--list"],
                               cwd=os.path.join(t, suite), env=env, capture_output=True, text=True, timeout=300)
            got = {x for x in p.stdout.split("\n") if x.startswith("lib.")}
            x, err, _, _, _ = execute(t, suite, ["--simulator", "ghdl", "--simulator-path", "/usr/bin"], {})
            reg = set(registered(x)) if x is not None else set()
            R.traces += 1
            R.transitions += len(got)
            plain = {n for n in got if len(n.split(".")) == 3}      # benches without configurations
            if p.returncode != 0 or got - plain != reg:
                R.bad("vunit", "the real VUnit lists %s, the stand-in %s (%s)" % (sorted(got)[:30], sorted(reg)[:30], p.stderr[-300:]), {"suite": suite})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return R


def main():
    t0 = time.time()
    us = combos()
    R = H.Result()
    H.pool_map("checks.R01", "work", H.chunks(us, 8), res=R)
    real_list(R)
    return H.finish(PID, R, t0, True, ["VUnit behaves as its recording stand-in; tied to the real VUnit by the list of tests both produce"],
                    "all simulators (and unknown ones) x option/environment/both x path x co-simulation x coverage x GUI x existing library; rotations and swaps of the preparation order")
