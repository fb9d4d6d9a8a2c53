#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seeds/*.py (edits are old/new text pairs against /repo HEAD)."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "seeds"))
import common
OUT = os.path.join(os.path.dirname(HERE), "seeded")
DEMO_SH = r'''#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
# Exit 0: the behaviour is right; anything else: it is not.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat >"$T/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dbus-message-parser = { path = "$R" }
bytes = "*"
[profile.dev]
opt-level = 1
END
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target"
cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 4; }
ulimit -c 0
timeout 120 "$T/target/debug/demo"
'''
PRELUDE = r'''#![allow(unused_imports, dead_code, unused_mut)]
use bytes::Bytes;
use dbus_message_parser::{
    decode::DecodeError,
    match_rule::{Arg, ArgPath, MatchRule},
    message::{Message, MessageFlags, MessageHeader, MessageHeaderFields, MessageType},
    value::*,
};
use std::convert::{TryFrom, TryInto};

fn call() -> Message {
    Message::method_call(
        "org.example.Dest".try_into().unwrap(),
        "/org/example".try_into().unwrap(),
        "org.example.Iface".try_into().unwrap(),
        "Do".try_into().unwrap(),
    )
}
fn with(values: Vec<Value>) -> Message {
    let mut m = call();
    for v in values {
        m.add_value(v);
    }
    m
}
fn fields() -> MessageHeaderFields {
    MessageHeaderFields {
        path: Some("/org/example".try_into().unwrap()),
        interface: Some("org.example.Iface".try_into().unwrap()),
        member: Some("Do".try_into().unwrap()),
        ..Default::default()
    }
}
fn header(is_le: bool, t: MessageType, f: MessageHeaderFields) -> MessageHeader {
    MessageHeader::new(is_le, t, MessageFlags::empty(), 1, 7, f).unwrap()
}
fn be(values: Vec<Value>) -> Message {
    Message::new(header(false, MessageType::MethodCall, fields()), values)
}
fn le(values: Vec<Value>) -> Message {
    Message::new(header(true, MessageType::MethodCall, fields()), values)
}
fn s(t: &str) -> Value {
    Value::String(t.to_string())
}
fn var(v: Value) -> Value {
    Value::Variant(Box::new(v))
}
fn st(v: Vec<Value>) -> Value {
    Value::Struct(Struct::try_from(v).unwrap())
}
fn arr(v: Vec<Value>, t: &str) -> Value {
    Value::Array(Array::new(v, t.try_into().unwrap()).unwrap())
}
fn enc(m: &Message) -> Vec<u8> {
    m.encode().unwrap().to_vec()
}
fn dec(b: &[u8]) -> Result<(Message, usize), DecodeError> {
    Message::decode(Bytes::copy_from_slice(b))
}
/// A little-endian method call with the given body signature and body bytes.
fn raw(sig: &str, body: &[u8]) -> Vec<u8> {
    let f = MessageHeaderFields { path: Some("/".try_into().unwrap()), member: Some("M".try_into().unwrap()), ..Default::default() };
    let base = enc(&Message::new(header(true, MessageType::MethodCall, f), vec![]));
    let n = u32::from_le_bytes([base[12], base[13], base[14], base[15]]) as usize;
    let mut b = base[..16 + n].to_vec();
    b[4..8].copy_from_slice(&(body.len() as u32).to_le_bytes());
    while b.len() % 8 != 0 {
        b.push(0);
    }
    b.extend_from_slice(&[8, 1, b'g', 0, sig.len() as u8]);
    b.extend_from_slice(sig.as_bytes());
    b.push(0);
    let n = (b.len() - 16) as u32;
    b[12..16].copy_from_slice(&n.to_le_bytes());
    while b.len() % 8 != 0 {
        b.push(0);
    }
    b.extend_from_slice(body);
    b
}

fn main() {
'''
def main():
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "s*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[1:])
    T = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", T + "/r"])
        for s in common.SEEDS:
            if only and s["id"] not in only: continue
            d = os.path.join(OUT, s["id"])
            os.makedirs(d, exist_ok=True)
            for path, old, new in s["edits"]:
                p = os.path.join(T, "r", path)
                t = open(p).read()
                if t.count(old) != 1:
                    print("!!", s["id"], path, "matches", t.count(old), "times"); break
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.check_output(["git", "-C", T + "/r", "diff"], text=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            subprocess.check_call(["git", "-C", T + "/r", "checkout", "-q", "--", "."])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "main.rs"), "w").write(PRELUDE + s["demo"].strip("\n") + "\n}\n")
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(T)
    print(len(common.SEEDS), "seeds")
main()
