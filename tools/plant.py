#!/usr/bin/env python3
"""plant.py DEF.py: makes seeded/<id>/ from a definition (id, property, file, old, new, needs, breaks, demo)
and tries it: builds, runs the stable tests, the demonstration both ways, and the property's check.
Works on /repo's tree and puts it back."""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds demo.rs against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
incremental = false
[dependencies]
combine = { path = "$repo", features = ["futures-03", "tokio", "tokio-02", "tokio-03", "regex"] }
futures-03-dep = { version = "0.3.1", package = "futures" }
tokio-dep = { version = "1", features = ["rt", "io-util"], package = "tokio" }
regex = "1"
bytes = "1"
tokio-03-dep = { version = "0.3", package = "tokio", default-features = false }
TOML
cd "$d" && export CARGO_TARGET_DIR="$d/target"
timeout 250 cargo build --offline -q || exit 0$(test -f "$d/never" ; echo 4)
timeout 30 "$d/target/debug/demo"
'''
DEMO = DEMO.replace('exit 0$(test -f "$d/never" ; echo 4)', 'exit 4')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [x for x in sys.argv[2:] if x[0] != '-']
    quick = '--detect' in sys.argv  # only: does the check see it?
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', b['id'])
        assert sh('git', '-C', '/repo', 'status', '--short').stdout.strip() == ''
        os.makedirs(d, exist_ok=True)
        try:
            edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
            for f, o, n in edits:
                f = '/repo/' + f
                s = open(f).read()
                c = s.count(o)
                if c != 1:
                    print(b['id'], 'old text found', c, 'times'); raise KeyError
                open(f, 'w').write(s.replace(o, n))
            diff = sh('git', '-C', '/repo', 'diff').stdout
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.rs', 'w').write(b['demo'])
            open(d + '/demo.sh', 'w').write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            if quick:
                chk = sh('python3', 'tools/check.py', b['property'], 'quick', cwd=ROOT)
                print(b['id'], b['property'], 'CAUGHT' if 'VIOLATION' in chk.stdout and chk.returncode == 1 else 'MISSED %d %s' % (chk.returncode, chk.stderr[-300:]), flush=True)
                continue
            bl = sh('bash', '/opt/vp/build.sh')
            ts = sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
            r = json.load(open('/tmp/plant.json'))
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            lost = base - set(r['passed'])
            demo = sh('bash', d + '/demo.sh', cwd='/repo')
            chk = sh('python3', 'tools/check.py', b['property'], 'quick', cwd=ROOT)
            v = [l for l in chk.stdout.splitlines() if l.startswith('VIOLATION')]
            print(b['id'], b['property'], 'build', bl.returncode, 'lost', len(lost), sorted(lost)[:4], 'demo', demo.returncode, demo.stderr.strip()[-160:].replace('\n', ' | '),
                  'CAUGHT' if v and chk.returncode == 1 else 'MISSED %d %s' % (chk.returncode, chk.stderr[-300:]), flush=True)
        except KeyError:
            shutil.rmtree(d)
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        if os.path.exists(d):
            demo = sh('bash', d + '/demo.sh', cwd='/repo')
            if demo.returncode != 0:
                print(b['id'], 'DEMO FAILS ON CLEAN', demo.stderr[-600:], demo.stdout[-300:])


main()
