"""Builds the harness programs from /repo's working tree into /verif/build (ninja, offline)."""
import glob
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PK = REPO + "/packages"
DR = PK + "/drafter/src"

FLAGS = ("-std=c++17 -O0 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -DDRAFTER_BUILD_STATIC=1 -w -fsanitize=address,undefined "
         "-fno-sanitize-recover=undefined -fno-sanitize=vptr,alignment,nonnull-attribute")
INC = " ".join("-I" + d for d in [
    ROOT + "/shims", ROOT + "/shims/tao", ROOT + "/harness", PK + "/boost", PK + "/apib/include", PK + "/apib/src", PK + "/apib-parser/include",
    PK + "/apib-parser/src/snowcrash", PK + "/apib-parser/src/markdown-parser", PK + "/apib-parser/src", DR])


def files(pat, skip=()):
    return sorted(f for f in glob.glob(pat) if os.path.basename(f) not in skip)


def core():
    return (files(DR + "/refract/*.cc", ("JsonSchema.cc", "JsonUtils.cc", "JsonValue.cc"))
            + files(DR + "/refract/dsd/*.cc"))


def all_refract():
    return files(DR + "/refract/*.cc") + files(DR + "/refract/dsd/*.cc")


def so():
    return files(DR + "/utils/so/*.cc") + files(DR + "/utils/log/*.cc")


def parser():
    """everything between the text of a blueprint and its elements, with stand-ins for the absent submodules"""
    def tree(d, skip=()):
        return sorted(f for f in glob.glob(d + "/**/*.cc", recursive=True) if "/win/" not in f and not f.endswith(skip))
    return (tree(PK + "/apib/src") + tree(PK + "/apib-parser/src", ("grammar/Mediatype.cc",))
            + tree(DR, ("/main.cc", "/config.cc", "grammar/Mediatype.cc")) + [ROOT + "/shims/sundown.cc"])


def programs():
    snow = PK + "/apib-parser/src/"
    return {
        "elem": ["elem.cc"] + core() + so(),
        "value": ["value.cc"] + all_refract() + so(),
        "blue": ["blue.cc"] + parser(),
        "misc": ["misc.cc", snow + "markdown-parser/ByteBuffer.cc", snow + "markdown-parser/MarkdownNode.cc", snow + "snowcrash/posix/RegexMatch.cc",
                 snow + "snowcrash/Section.cc", PK + "/apib/src/MediaType.cc", DR + "/backend/MediaTypeS11n.cc", DR + "/SourceMapUtils.cc",
                 DR + "/options.cc", DR + "/reporting.cc", DR + "/ConversionContext.cc"] + core() + so(),
    }


def build(names):
    out = os.path.join(ROOT, "build")
    os.makedirs(out, exist_ok=True)
    progs = programs()
    lines = ["flags = " + FLAGS, "inc = " + INC,
             "rule cxx", "  description = CXX $in", "  command = g++ $flags $inc -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule link", "  description = LINK $out", "  command = g++ $flags $in -o $out"]
    done = set()
    for n in names:
        objs = []
        for s in progs[n]:
            src = s if s.startswith("/") else os.path.join(ROOT, "harness", s)
            o = "obj/" + src.strip("/").replace("/", "_") + ".o"
            objs.append(o)
            if o not in done:
                done.add(o)
                lines.append("build %s: cxx %s" % (o, src))
        lines.append("build bin/%s: link %s" % (n, " ".join(objs)))
    f = os.path.join(out, "-".join(sorted(names)) + ".ninja")
    with open(f, "w") as h:
        h.write("\n".join(lines) + "\n")
    p = subprocess.run(["ninja", "-C", out, "-f", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


if __name__ == "__main__":
    import sys
    rc, o = build(sys.argv[1:] or list(programs()))
    print(o[-6000:])
    sys.exit(rc)
