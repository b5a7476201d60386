"""Builds the implementation from the working tree of the repository, and the harnesses against it."""
import glob, os, subprocess, sys, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAINS = {"sat_solver.cpp", "smt_solver.cpp", "lexer_test.cpp"}
COMMON = "-std=c++20 -D_GLIBCXX_ASSERTIONS -Wno-return-type"
VARIANTS = {
    "rel": "-O2",
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_SANITIZE_VECTOR",
}


def build_dir(variant):
    key = "" if REPO == "/repo" else "-" + hashlib.sha1(REPO.encode()).hexdigest()[:8]
    return os.path.join(VERIF, "build", variant + key)


def write_ninja(variant):
    d = build_dir(variant)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "src")
    dirs = sorted({src} | {os.path.dirname(p) for p in glob.glob(src + "/**/*.h", recursive=True)})
    inc = " ".join("-I" + x for x in dirs)
    flags = COMMON + " " + VARIANTS[variant]
    n = ["ninja_required_version = 1.5", f"flags = {flags}", f"inc = {inc}", f"minc = -I{VERIF}/mc",
         "rule cxx\n  command = g++ $flags $inc -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule hxx\n  command = g++ $flags $minc $inc -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule flex\n  command = flex -o $out $in",
         "rule ar\n  command = rm -f $out && ar rcs $out $in",
         "rule entry\n  command = objcopy --redefine-sym main=$sym $in $out",
         "rule link\n  command = g++ $flags $in -lgmpxx -lgmp -o $out"]
    objs = []
    lex = os.path.join(src, "parser", "smt2_lexer.ll")
    cpps = [p for p in sorted(glob.glob(src + "/**/*.cpp", recursive=True)) if os.path.basename(p) not in MAINS]
    for p in cpps:
        o = "obj/" + os.path.relpath(p, src).replace("/", "_") + ".o"
        n.append(f"build {o}: cxx {p}")
        objs.append(o)
    if os.path.exists(lex):
        n.append(f"build lexer.cpp: flex {lex}")
        n.append("build obj/lexer.o: cxx lexer.cpp")
        objs.append("obj/lexer.o")
    n.append("build libyaga.a: ar " + " ".join(objs))
    for prog, f in (("smt", "smt_solver.cpp"), ("sat", "sat_solver.cpp")):
        n.append(f"build obj/{prog}_main.o: cxx {src}/{f}")
        n.append(f"build {prog}: link obj/{prog}_main.o libyaga.a")
        n.append(f"build obj/{prog}_entry.o: entry obj/{prog}_main.o\n  sym = mc_{prog}_main")
    mo = []
    for m in ("runner", "ref"):
        n.append(f"build mc/{m}.o: hxx {VERIF}/mc/{m}.cpp")
        mo.append(f"mc/{m}.o")
    for c in sorted(glob.glob(VERIF + "/mc/checks/*.cpp")):
        b = os.path.basename(c)[:-4]
        n.append(f"build mc/{b}.o: hxx {c}")
        entry = {"dimacs": "obj/sat_entry.o ", "cli": "obj/smt_entry.o ", "stats": "obj/sat_entry.o obj/smt_entry.o "}.get(b, "")
        n.append(f"build {b}: link mc/{b}.o {entry}{' '.join(mo)} libyaga.a")
    text = "\n".join(n) + "\n"
    path = os.path.join(d, "build.ninja")
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return d


def build(variant, targets):
    """returns (ok, log)"""
    d = write_ninja(variant)
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["ninja", "-C", d, "-k", "0"] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


if __name__ == "__main__":
    ok, log = build(sys.argv[1], sys.argv[2:])
    print(log[-3000:])
    sys.exit(0 if ok else 1)
