# variants of each check; see check.py
for k, f in {"C04": "c04.cpp", "C05": "c05.cpp", "C09": "c09.cpp", "C10": "c10.cpp", "C11": "c11.cpp", "C12": "c12.cpp", "C13": "c13.cpp", "C14": "c14.cpp", "C15": "c15.cpp", "C19": "c19.cpp", "C22": "c22.cpp", "C23": "c23.cpp", "C24": "c24.cpp", "C27": "c27.cpp", "C30": "c30.cpp", "C31": "c31.cpp", "C32": "c32.cpp", "C20": "c20.cpp"}.items():
    CHECKS[k] = [V("main", f)]
for k, f in {"C06": "O", "C07": "H", "C08": "D"}.items():
    CHECKS[k] = [V("main", "c06.cpp", har="-DKIND='%s'" % f)]
for k, f in {"C16": "O", "C17": "H", "C18": "D"}.items():
    CHECKS[k] = [V("main", "c16.cpp", har="-DKIND='%s'" % f)]
def c21_link(kind, out):
    if kind == "link" and "undefined reference to `lpaggreg::" in out:
        return "a declared operation cannot be linked:\n" + "\n".join(l for l in out.split("\n") if "undefined reference" in l)[:2000]
CHECKS["C21"] = [V("main", "c21.cpp", on_build_error=c21_link)]
CHECKS["C20"] = [V("main", "c20.cpp", mem=20)]
CHECKS["C25"] = [
    V("asan", "c25.cpp", lib=SAN, har=SAN + "", env=SANENV, mem=0, ldflags=SAN),
    V("memory", "c25.cpp", lib="-ftrivial-auto-var-init=pattern", har="-DCOUNTING -U_FORTIFY_SOURCE"),
]
def r_source(d, repo):
    """the C++ code that R/lpaggreg.R hands to Rcpp: the string literals of the file that hold C++"""
    s = open(repo + "/R/lpaggreg.R").read()
    lits, i = [], 0
    esc = {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}
    while i < len(s):
        if s[i] == "#":
            while i < len(s) and s[i] != "\n": i += 1
        elif s[i] in "'\"`":
            q, i, o = s[i], i + 1, ""
            while i < len(s) and s[i] != q:
                if s[i] == "\\": i += 1; o += esc.get(s[i], s[i])
                else: o += s[i]
                i += 1
            lits.append(o); i += 1
        else: i += 1
    src = [x for x in lits if "\n" in x]
    with open(os.path.join(d, "r_src.inc"), "w") as f: f.write("\n".join(src))
    if not os.path.exists(os.path.join(d, "lpaggreg")): os.symlink(INC, os.path.join(d, "lpaggreg"))
    return []
CHECKS["C26"] = [V("main", ["c26.cpp", "c26r.cpp"], har="-I" + os.path.join(HERE, "mc", "rmock"), gen=r_source)]
CHECKS["C28"] = [V("main", "c28.cpp", lib="-fsanitize=thread -Wno-tsan", har="-pthread", ldflags="-pthread -Wl," + ",".join("--wrap=" + x for x in ["memcpy", "memmove", "memset", "pthread_mutex_lock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]))]
