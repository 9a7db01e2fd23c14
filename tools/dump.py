"""Build the MIR dumper and dump a probe crate against /repo's current sources.

The result is cached under /verif/build, keyed by the contents of everything that goes into it."""
import hashlib
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")

STOP = [
    "core::panicking::", "std::rt::panic", "::unwrap_failed", "::expect_failed", "std::rt::begin_panic",
    "std::fmt::Formatter::<'a>::", "std::fmt::Arguments::<'a>::", "std::fmt::write", "std::fmt::format",
    "<str as std::fmt::", "<char as std::fmt::", "<std::string::String as std::fmt::", "std::fmt::num::",
    "alloc::raw_vec::", "std::alloc::", "std::string::", "core::str::", "alloc::str::", "std::vec::Vec::<T, A>::",
    "core::slice::", "std::slice::Iter::<", "std::slice::IterMut::<", "std::ptr::", "std::vec::in_place_collect",
    "std::mem::replace", "std::mem::swap", "std::mem::forget", "std::mem::drop", "std::mem::size_of", "std::mem::discriminant",
    "std::mem::MaybeUninit", "core::num::", "std::intrinsics", "std::str::",
    "std::collections::Hash", "std::collections::BTree", "unicode_ident::", "std::vec::spec_extend", "std::vec::spec_from_iter", "std::alloc",
]


# library functions whose meaning is given by a loop in the probe crate (probes/*/src/models.rs)
MODELS = {
    "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter": "model_vec_from_iter",
    "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend": "model_vec_extend",
    "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend": "model_vec_extend_ref",
    "<std::string::String as std::iter::FromIterator<char>>::from_iter": "model_string_from_iter",
    "<std::string::String as std::iter::Extend<char>>::extend": "model_string_extend",
    "<std::string::String as std::iter::FromIterator<std::string::String>>::from_iter": "model_string_from_strings",
    "<std::string::String as std::iter::Extend<std::string::String>>::extend": "model_string_extend_strings",
    "<std::string::String as std::iter::FromIterator<&'a str>>::from_iter": "model_string_from_strs",
    "<std::string::String as std::iter::Extend<&'a str>>::extend": "model_string_extend_strs",
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::fold": "model_iter_fold",
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::for_each": "model_iter_for_each",
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::all": "model_iter_all",
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::any": "model_iter_any",
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::find": "model_iter_find",
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::find_map": "model_iter_find_map",
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::position": "model_iter_position",
    "<std::slice::IterMut<'a, T> as std::iter::Iterator>::for_each": "model_iter_mut_for_each",
    "<std::slice::IterMut<'a, T> as std::iter::Iterator>::fold": "model_iter_mut_fold",
    "<std::vec::IntoIter<T, A> as std::iter::Iterator>::fold": "model_into_iter_fold",
    "<std::vec::IntoIter<T, A> as std::iter::Iterator>::try_fold": "model_into_iter_try_fold",
}


# what each probe crate makes reachable: crates of the repository, and where their sources are
PROBES = {
    "input_tree_probe": (("input_tree",), ("aftermath-core/input_tree",)),
    "caret_probe": (("input_tree", "caret", "parser", "serialization"),
                    ("aftermath-core/input_tree", "aftermath-core/caret", "aftermath-core/parser", "aftermath-core/serialization")),
    "parser_probe": (("input_tree", "parser", "chumsky"), ("aftermath-core/input_tree", "aftermath-core/parser")),
}


def nightly_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",) or k in ("RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
            env.pop(k)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, env=env, check=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    return env


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def files(d, exts):
    out = []
    for base, dirs, fs in os.walk(d):
        dirs[:] = [x for x in dirs if x not in ("target", ".git", "node_modules")]
        out += [os.path.join(base, f) for f in fs if f.endswith(exts)]
    return out


def build_driver(env):
    src = os.path.join(ROOT, "tools/mirdump/main.rs")
    exe = os.path.join(BUILD, "mirdump-" + digest([src]))
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", src, "-O", "-o", exe + ".tmp%d" % os.getpid()],
                           capture_output=True, text=True, env=env)
        if r.returncode:
            sys.stderr.write(r.stderr)
            raise SystemExit(2)
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def dump(probe="input_tree_probe", repo=REPO, retry=False, pdir=None):
    """Path of the JSON dump of the probe crate; raises subprocess.CalledProcessError with the
    compiler's message if the current tree does not compile."""
    env = nightly_env()
    exe = build_driver(env)
    local, dirs = PROBES[probe]
    pdir = pdir or os.path.join(ROOT, "probes", probe)
    srcs = files(pdir, (".rs", ".toml", ".lock")) + [exe, os.path.abspath(__file__)]
    if local != ("input_tree",):
        srcs += files(os.path.join(ROOT, "probes/stubs"), (".rs", ".toml"))
    for d in dirs:
        srcs += files(os.path.join(repo, d), (".rs", ".toml"))
    key = digest(srcs)
    out = os.path.join(BUILD, "dump-%s-%s" % (probe, key))
    res = os.path.join(out, probe + ".json")
    if os.path.exists(res):
        return res
    tmp = out + ".tmp%d" % os.getpid()
    target = os.path.join(BUILD, "target-" + probe)
    env.update({
        "MIRDUMP_CRATES": probe, "MIRDUMP_OUT": tmp, "MIRDUMP_LOCAL": ",".join(local),
        "MIRDUMP_STOP": ",".join(STOP), "MIRDUMP_MODELS": ";".join("%s=%s" % x for x in MODELS.items()), "CARGO_TARGET_DIR": target,
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on"
                     " -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums",
        "RUSTC_WRAPPER": exe, "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0",
    })
    if os.path.isdir(target):
        pk = [x for c in local + (probe,) for x in ("-p", c)]
        r = subprocess.run(["cargo", "+nightly", "clean", "--offline", "--quiet"] + pk, cwd=pdir, env=env, capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(target, ignore_errors=True)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--quiet"], cwd=pdir, env=env, capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise subprocess.CalledProcessError(r.returncode, "cargo check", r.stdout, r.stderr)
    if not os.path.isdir(tmp):
        # cargo considered everything fresh: start over
        shutil.rmtree(target, ignore_errors=True)
        if retry:
            raise RuntimeError("the compiler produced no dump")
        return dump(probe, repo, True, pdir)
    if os.path.isdir(out):
        shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    # drop dumps of earlier trees
    for n in os.listdir(BUILD):
        p = os.path.join(BUILD, n)
        if n.startswith("dump-%s-" % probe) and p != out and os.path.getmtime(p) < os.path.getmtime(out) - 600:
            shutil.rmtree(p, ignore_errors=True)
    return res


def dump_tolerant(probe="input_tree_probe"):
    """(path, names of entry points that no longer exist).  Entry points the current tree lacks are left
    out; anything else that does not compile is the caller's problem."""
    import re
    src = os.path.join(ROOT, "probes", probe, "src/lib.rs")
    text = open(src).read()
    dropped = []
    d = None
    for _ in range(6):
        try:
            return dump(probe, pdir=d), dropped
        except subprocess.CalledProcessError as e:
            bad = {int(n) for n in re.findall(r"--> src/lib.rs:(\d+):", e.stderr or "")}
            lines = text.split("\n")
            starts = [i for i, l in enumerate(lines) if l.startswith("pub fn ")]
            cut = set()
            for n in bad:
                s = [i for i in starts if i < n]
                if not s:
                    continue
                i = s[-1]
                j = next((j for j in range(i, len(lines)) if lines[j] == "}"), len(lines) - 1)
                if i <= n - 1 <= j:
                    cut.add((i, j))
            if not cut:
                raise
            for i, j in cut:
                dropped.append(lines[i])
                for k in range(i, j + 1):
                    lines[k] = ""
            text = "\n".join(lines)
            d = os.path.join(BUILD, "cut-%s-%d" % (probe, os.getpid()))
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(os.path.join(ROOT, "probes", probe), d, ignore=shutil.ignore_patterns("target"))
            open(os.path.join(d, "src/lib.rs"), "w").write(text)
    raise RuntimeError("the probe does not compile")


if __name__ == "__main__":
    print(dump(*(sys.argv[1:2] or ["input_tree_probe"])))
