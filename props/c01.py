"""Results are a function of the input, the data files and the random numbers supplied through the installed
generator: nothing else that varies between runs (clock, process or thread identity, addresses, environment
other than the data path, another random source, concurrent execution) can reach a result.

Rule: effect analysis over every function of the program (both build configurations).  Each call to a function
without a body here is classified; sources of run-to-run variation are forbidden, engine and distribution objects
may be used only inside the generator class, every draw goes through the one installed generator object, and no
function reachable from an entry point reads a local variable that nothing has assigned on any path to the read."""
import re
from props.lib import *
from props import reach

DENY = [
    (r"^(time|clock|gettimeofday|clock_gettime|times|ftime|timespec_get|localtime|gmtime|ctime|getrusage|clock_getres)$", "clock"),
    (r"(^|[^\w])std::chrono::.*::now\(|_ZNSt6chrono.*3nowEv", "clock"),
    (r"^(rand|srand|random|srandom|drand48|erand48|lrand48|mrand48|nrand48|jrand48|srand48|rand_r|random_r|arc4random\w*|getrandom|getentropy|initstate|setstate)$", "random source other than the installed generator"),
    (r"std::(?:__cxx11::)?random_device|_ZNSt13random_device", "non-deterministic random source"),
    (r"^(getpid|getppid|gettid|getuid|geteuid|gethostname|uname|gethostid|sched_getcpu|pthread_self|get_nprocs)$", "process identity"),
    (r"std::this_thread::get_id|std::thread::id", "thread identity"),
    (r"^(pthread_create|fork|vfork|clone|thrd_create)$|std::thread::|_ZNSt6thread|__kmpc_fork|GOMP_parallel|std::async|std::__future_base", "concurrent execution"),
    (r"^(tmpnam|tempnam|mktemp|mkstemp|mkdtemp|tmpfile)$", "temporary name"),
    (r"^llvm\.(readcyclecounter|x86\.rdtsc|x86\.rdrand|x86\.rdseed|returnaddress|frameaddress|thread\.pointer)", "hardware counter or address"),
    (r"^(setlocale|newlocale|uselocale)$|std::locale::global|std::locale::locale\(char const\*|::imbue\(", "locale"),
    (r"^(secure_getenv|setenv|putenv|sysconf|sysinfo|getloadavg)$", "environment"),
]
RNGCLS = re.compile(r"std::\w*(_engine|_distribution|_generator)\b|std::(mt19937|minstd|ranlux|knuth_b|default_random)|generate_canonical|std::(shuffle|sample|random_shuffle)\b|_ZSt18generate_canonical")


def run(ctx, rep, tier):
    for mpi in (False, True):
        m = ctx.raw(mpi)
        cfg = "mpi" if mpi else "serial"
        live = reach.reachable(m)
        for f in m.fns.values():
            if not f.has_body:
                continue
            own = f.repo
            if not own:
                continue
            q = C.qual(f)
            rep.units.add(q)
            for nm, line in (f.d.get("unassigned", ()) if f.name in live else ()):
                rep.bad("C01:unassigned:%s:%s" % (q, nm), "%s:%d" % (f.file, line), "%s reads the local variable %s before anything was assigned to it" % (q, nm))
            rep.count("functions searched for unassigned locals (%s)" % cfg)
            for i in f.all_insts():
                if i.op == "ptrtoint":
                    if not address_difference(f, i):
                        rep.bad("C01:address:%s" % q, i.loc, "an object's address is used as a number in %s" % q)
                    continue
                if i.op == "getelementptr" and str(i.d.get("src", "")).startswith("struct.stat") and i.d.get("off") not in (24, 48):
                    # anything but the type and the size of a file (times, inode, owner)
                    rep.bad("C01:stat:%s" % q, i.loc, "%s reads when, where or by whom a file was made" % q)
                    continue
                if i.op not in ("call", "invoke"):
                    continue
                c = i.callee
                if not c:
                    if f.mod and q not in ("std::function",):
                        rep.count("indirect calls")
                    continue
                g = m.fns.get(c)
                if g is not None and g.has_body and g.repo:
                    continue
                rep.count("external call sites (%s)" % cfg)
                names = (c, g.dem if g is not None else c)
                for rx, why in DENY:
                    if any(re.search(rx, n) for n in names):
                        if why == "locale" and neutral(m, i):
                            break
                        rep.bad("C01:%s:%s" % (q, c), i.loc, "%s calls %s (%s)" % (q, names[1][:80], why))
                        break
                else:
                    if RNGCLS.search(names[1]) and not q.startswith("UniformRNG::"):
                        if not constructs_only(f, i, names[1]):
                            rep.bad("C01:%s:%s" % (q, "engine"), i.loc, "%s uses a random engine or distribution of its own: %s" % (q, names[1][:80]))
                    elif c == "getenv":
                        s = m.cstr(i.ops[0])
                        if s is None:
                            rep.undecided("C01:getenv", "%s reads an environment variable whose name is not constant" % q)
                        elif s != "CGMFDATA":
                            rep.bad("C01:getenv:%s" % s, i.loc, "%s depends on the environment variable %s" % (q, s))
                    elif "std::function<double" in names[1] and names[1].endswith("operator()() const"):
                        rep.count("draws")
                        o = i.ops[0]
                        gname = m.globals[o[1]]["name"] if o[0] == "g" and o[1] in m.globals else None
                        if gname != "rng_cgm":
                            rep.bad("C01:%s:draw" % q, i.loc, "%s draws from a generator other than the installed one" % q)
        for s, g in m.globals.items():
            v = m.cstr(["g", s]) if g.get("const") else None
            if isinstance(v, str) and re.match(r"^/dev/(u?random|hwrng)|^/proc/", v):
                rep.bad("C01:path:%s" % v, "string constant", "the program names the device %s" % v)
            if g.get("tls"):
                rep.bad("C01:tls:%s" % s, "global", "thread-local state %s" % s)
        rep.ok("C01:%s" % cfg, "no forbidden source in the %s build" % cfg)
    rep.floor("external call sites (serial)", 800)
    rep.floor("draws", 60)
    rep.assumptions += ["the C++ standard library and libm are deterministic functions of their arguments and of the files they read"]


def neutral(m, i):
    """the locale asked for is the one every program starts with, or none (a query)"""
    s = [m.cstr(o) for o in i.ops]
    return any(x in ("C", "POSIX") for x in s) or (i.callee == "setlocale" and any(o[0] in ("null", "n") for o in i.ops[1:2]))


def constructs_only(f, i, name):
    return False


def address_difference(f, i):
    """ptrtoint used only to subtract another ptrtoint (pointer difference) or to compare"""
    uses = [x for x in f.all_insts() if any(o == ["v", i.id] for o in x.ops)]
    for u in uses:
        if u.op not in ("sub", "icmp"):
            return False
        o = [z for z in u.ops if z != ["v", i.id]]
        for z in o:
            if z[0] == "v":
                y = f.insts.get(z[1])
                if y is None or y.op != "ptrtoint":
                    return False
            elif u.op == "sub":
                return False
    return True
