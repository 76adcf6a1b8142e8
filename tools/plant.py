#!/usr/bin/env python3
"""Confirm planted changes in a scratch copy and keep them under /verif/seeded.

plant.py SPEC.py [id...]   SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=rust main body)]
For each: the edit applies to a scratch copy of /repo, it compiles, the repository's tests pass, the demonstration exits 0
without and nonzero with the change; then patch.diff, demo.sh, demo.rs and meta.json are written to /verif/seeded/<id>/.
"""
import json, os, subprocess, sys, shutil, runpy
W = "/tmp/plant"
REPO = W + "/repo"
ENV = dict(os.environ, HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup",
  PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
  CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
  RUSTC_WRAPPER="", CARGO_TARGET_DIR=REPO + "/target")
DEMO_SH = r'''#!/bin/bash
# Run with cwd = the repository, after its build: exit 0 when the library behaves, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME="${HOME:-/root}" CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
financelib = { path = "$repo" }
chrono = { version = "*", features = ["serde"] }
serde_json = { version = "*" }
ron = { version = "*" }
T
if [ -e "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$tmp/Cargo.lock"; elif [ -e /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$tmp/Cargo.lock"; fi
# The repository's build has compiled the dependencies already.
if [ -w "$repo/target" ]; then export CARGO_TARGET_DIR="$repo/target"; else export CARGO_TARGET_DIR="$tmp/target"; fi
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/financelib-* "$CARGO_TARGET_DIR"/debug/.fingerprint/demo-*
cd "$tmp" || exit 99
if ! cargo build --offline > "$tmp/log" 2>&1; then tail -30 "$tmp/log"; exit 98; fi
"$CARGO_TARGET_DIR/debug/demo"
'''
PRE = '''#![allow(unused_imports, dead_code)]
use chrono::naive::NaiveDate as NDt;
use financelib::fixedincomes::bonds::rates::{RateCurve, RateCurve::*, Rates, Rates::*};
use financelib::fixedincomes::bonds::*;
use financelib::fixedincomes::moneymarkets::*;
use financelib::statements::BsType::*;
use financelib::statements::CfType::*;
use financelib::statements::FinOthersTyp::{self, *};
use financelib::statements::PlType::*;
use financelib::statements::*;
use financelib::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
fn dt(y: i32, m: u32, d: u32) -> NDt {
    NDt::from_ymd_opt(y, m, d).unwrap()
}
fn near(a: f64, b: f64) {
    assert!((a - b).abs() <= 1e-7 * (1.0 + b.abs()), "{a} instead of {b}");
}
fn book() -> Accounts {
    Accounts { currency: Currency::INR, consolidated: true, dates: BTreeSet::new(), balance_sheet: BTreeMap::new(), profit_loss: BTreeMap::new(), cash_flow: BTreeMap::new(), others: BTreeMap::new() }
}
fn refused(f: impl FnOnce()) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    if not os.path.isdir(REPO):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", REPO])
    run(["git", "checkout", "-q", "--", "."], REPO)
    run(["git", "pull", "-q", "/repo", "HEAD"], REPO)
    base = set()
    for b in spec:
        if only and b["id"] not in only: continue
        d = f"/verif/seeded/{b['id']}"
        if not only and os.path.exists(d + "/patch.diff"): continue
        run(["git", "checkout", "-q", "--", "."], REPO)
        bad = None
        for e in b["edits"]:
            f, old, new = e[:3]
            p = f"{REPO}/{f}"; s = open(p).read()
            n = s.count(old)
            if len(e) > 3:
                i = -1
                for _ in range(e[3] + 1): i = s.find(old, i + 1)
                if i < 0: bad = 'nth'; break
                s = s[:i] + new + s[i + len(old):]
            elif n != 1:
                bad = f"{n} matches of {old!r}"; break
            else: s = s.replace(old, new)
            open(p, "w").write(s)
        if bad: print(b["id"], "EDIT:", bad); continue
        diff = run(["git", "diff"], REPO).stdout
        os.makedirs(W + "/d", exist_ok=True)
        open(W + "/d/demo.sh", "w").write(DEMO_SH); open(W + "/d/demo.rs", "w").write(PRE + "fn main() {\n" + b["demo"].rstrip() + "\n}\n")
        r = run(["cargo", "test", "--workspace", "--offline", "--", "--test-threads", "8"], REPO)
        if r.returncode: print(b["id"], "TESTS FAIL\n", "\n".join(l for l in r.stdout.splitlines() if "error" in l or "panicked" in l or "FAILED" in l or "assert" in l)[:1500]); continue
        r1 = run(["bash", W + "/d/demo.sh"], REPO)
        run(["git", "checkout", "-q", "--", "."], REPO)
        subprocess.call("find %s/src -name '*.rs' -exec touch {} +" % REPO, shell=True)
        r0 = run(["bash", W + "/d/demo.sh"], REPO)
        if r0.returncode != 0 or r1.returncode in (0, 98, 99):
            print(b["id"], f"DEMO unpatched {r0.returncode} patched {r1.returncode}\n", r0.stdout[-1500:], r1.stdout[-1500:]); continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(W + "/d/demo.sh", d); shutil.copy(W + "/d/demo.rs", d); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(b["id"], "kept; patched demo says:", [l for l in r1.stdout.splitlines() if "panicked" not in l and l.strip()][:1])
main()
