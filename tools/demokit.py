#!/usr/bin/env python3
"""demokit.py SEED HARNESS ENTRY INPUTS [SOURCES...] : a demonstration from a scenario (inputs) of a harness, self contained in seeded/SEED:
the harness is compiled with g++ and linked with the objects that build.sh made of the repository's sources."""
import sys, os, re, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed, harness, entry, inputs = sys.argv[1:5]
D = f"{V}/seeded/{seed}/"
os.makedirs(D, exist_ok=True)
seen = set()
def expand(path):
    if path in seen: return ""
    seen.add(path)
    out = []
    for l in open(path):
        m = re.match(r'\s*#include "([^"]+)"', l)
        if m and m.group(1) != "vex.h" and os.path.exists(f"{V}/harness/{m.group(1)}"): out.append(expand(f"{V}/harness/{m.group(1)}"))
        elif l.startswith("#pragma once") or l.startswith("//@"): pass
        else: out.append(l)
    return "".join(out)
t = expand(f"{V}/harness/{harness}.cpp")
# constructors: both names
ctors = sorted(set(re.findall(r"__stub_(_ZN\w*?(?:Connector)[CD]2E\w*)", t)))
rename = []
for kind, name in sorted(set(re.findall(r"__(stub|weak)_(\w+)\(", t))):
    # of the C library, only what makes a run repeatable
    if name.startswith("_Z") or name.startswith("uuid_") or name in ("getenv", "sendto", "recv", "sendmsg", "fcntl"): rename.append(f"__{kind}_{name} {name}\n")
# the entry that is demonstrated, no other
names = re.findall(r"^VEX_ENTRY(?:_THOROUGH)?\( *(\w+)\)", t, re.M)
if "transcode" in open(f"{V}/hints.json").read():
    t += '''
#include "common/transcode.h"
#include "base64_rfc4648.hpp"
namespace casual::common::transcode::base64::detail
{
   platform::size::type encode( const Data source, Data target) { return cppcodec::base64_rfc4648::encode( static_cast< char*>( target.memory), target.bytes, static_cast< const char*>( source.memory), source.bytes);}
   platform::size::type decode( std::string_view source, std::span< std::byte> destination) { return cppcodec::base64_rfc4648::decode( reinterpret_cast< char*>( destination.data()), destination.size(), source.data(), source.size());}
}
'''
open(D + "world.cpp", "w").write(t)
open(D + "rename.txt", "w").write("".join(rename))
open(D + "base64_rfc4648.hpp", "w").write(open(V + "/rt/shim/cppcodec/base64_rfc4648.hpp").read())
open(D + "vex.h", "w").write(open(V + "/rt/vex.h").read())
n = open(V + "/rt/native.cpp").read()
n = n.replace('''{ printf( "DIVERGED more inputs than recorded (%s)\\n", name); fflush( stdout); _exit( 7);}''', "return 0;")
n = re.sub(r"if\( i\.name != name.*?\n", "if( i.name != name || i.w != w) { --pos; return 0;}\n", n)
open(D + "replay.cpp", "w").write(n)
open(D + "scenario.txt", "w").write("".join(l for l in open(inputs) if not l.startswith("#")))
srcs = sys.argv[5:] or json.load(open(V + "/hints.json"))[harness]
import glob, subprocess, tempfile
libs = re.findall(r"^//@ libs (.*)$", open(f"{V}/harness/{harness}.cpp").read(), re.M)
alias = " ".join(f"-Wl,--defsym={c.replace('C2E','C1E').replace('D2E','D1E')}={c}" for c in ctors)
# data is bound when the program starts: the sources that define what is missing come along
index = {}
for o in glob.glob("/repo/_build/obj/middleware/*/source/**/*.cpp.o", recursive=True):
    if "/log/stream.cpp" in o: continue
    for l in subprocess.run(["nm", "--defined-only", o], capture_output=True, text=True).stdout.splitlines():
        f = l.split()
        if len(f) == 3 and f[1] in "BDR": index.setdefault(f[2], o)
for _ in range(6):
    with tempfile.TemporaryDirectory() as tmp:
        objs = [f"/repo/_build/obj/{x}.o" for x in srcs]
        main = tmp + "/m.c"
        open(main, "w").write("int main(){ return 0;}")
        r = subprocess.run(["gcc", "-rdynamic", "-Wl,-z,muldefs", "-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all", main, *objs, "-o", tmp + "/x", "-lstdc++"], capture_output=True, text=True)
        if r.returncode: print(r.stderr); sys.exit(1)
        rel = subprocess.run(["readelf", "-rW", tmp + "/x"], capture_output=True, text=True).stdout
        wanted = {l.split()[4].split("@")[0] for l in rel.splitlines() if "GLOB_DAT" in l or "R_X86_64_64" in l or "COPY" in l}
        have = {l.split()[-1] for l in subprocess.run(["nm", "--defined-only", tmp + "/x"], capture_output=True, text=True).stdout.splitlines()}
        more = sorted({index[w][len("/repo/_build/obj/"):-2] for w in wanted - have if w in index} - set(srcs))
        if not more: break
        print("+", *more)
        srcs = srcs + more
open(D + "demo.sh", "w").write(f'''#!/bin/bash
# replays scenario.txt against the objects of the repository's sources (world.cpp is what surrounds them: it observes what is
# sent, answers, and ends with ASSERT when the property does not hold)
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
inc=""; for d in /repo/middleware/*/include /repo/middleware/*/*/include /repo/thirdparty/*/include; do case $d in */unittest/*) ;; *) inc="$inc -I$d";; esac; done
g++ -std=c++23 -O0 -w -fPIC -fno-access-control -DVEX_TIER=0 -DVEX_DEMO -I"$here" $inc -c "$here/world.cpp" -o "$T/world.o" || exit 3
objcopy --redefine-syms="$here/rename.txt" "$T/world.o" || exit 3
g++ -std=c++23 -O0 -w -fPIC -c "$here/replay.cpp" -o "$T/replay.o" || exit 3
objs=""
for s in {" ".join(srcs)}; do objs="$objs /repo/_build/obj/$s.o"; done
g++ -rdynamic -Wl,-z,muldefs -Wl,-z,lazy {alias} -Wl,--unresolved-symbols=ignore-all "$T/world.o" "$T/replay.o" $objs -o "$T/demo" -pthread -ldl -luuid {" ".join("-l" + l for x in libs for l in x.split())} || exit 3
cd "$T" && timeout 60 "$T/demo" vex_entry_{entry} "$here/scenario.txt" > out; rc=$?
tail -3 out
# 5: an assertion of the property, 9: terminate, above 128: a signal
case $rc in 5|9) exit 1;; esac
[ $rc -ge 124 ] && exit 1
exit 0
''')
