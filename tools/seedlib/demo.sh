#!/bin/bash
# Demonstration: exit 0 when the property holds here, 1 when it is broken. Run in the repository's root.
# Writes only below a scratch directory of its own.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export HOME=/root RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= PATH=/root/.cargo/bin:$PATH
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export CARGO_TARGET_DIR=$W/target
mkdir -p "$W/gen/src" "$W/run/src"
cp "$REPO/Cargo.lock" "$W/gen/Cargo.lock"
printf '[package]\nname = "gen"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nprotospec-build = { path = "%s/protospec-build" }\n' "$REPO" > "$W/gen/Cargo.toml"
if [ -f "$HERE/front.rs" ]; then
  # the front end itself is judged
  cp "$HERE/front.rs" "$W/gen/src/main.rs"
  cd "$W/gen" && cargo build --offline -q || exit 4
  cd "$W" && timeout 120 "$W/target/debug/gen" || exit 1
  exit 0
fi
cat > "$W/gen/src/main.rs" <<'R'
use protospec_build as pb;
struct NoImports;
impl pb::ImportResolver for NoImports {
    fn normalize_import(&self, i: &str) -> pb::Result<String> { Ok(i.to_string()) }
    fn resolve_import(&self, _: &str) -> pb::Result<Option<String>> { Ok(None) }
    fn resolve_ffi_transform(&self, _: &str) -> pb::Result<Option<pb::ForeignTransformObj>> { Ok(None) }
    fn resolve_ffi_type(&self, _: &str) -> pb::Result<Option<pb::ForeignTypeObj>> { Ok(None) }
    fn resolve_ffi_function(&self, _: &str) -> pb::Result<Option<pb::ForeignFunctionObj>> { Ok(None) }
    fn prelude_ffi_functions(&self) -> pb::Result<std::collections::HashMap<String, pb::ForeignFunctionObj>> { Ok(Default::default()) }
}
fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let ast = pb::parse(&text).unwrap();
    let program = pb::asg::Program::from_ast(&ast, &pb::PreludeImportResolver(NoImports)).unwrap();
    let mut o = pb::CompileOptions::default();
    o.include_async = std::env::var("DEMO_ASYNC").is_ok();
    println!("{}", pb::compile_program(&program, &o));
}
R
[ -f "$HERE/async" ] && export DEMO_ASYNC=1
[ -f "$HERE/gen.rs" ] && cp "$HERE/gen.rs" "$W/gen/src/main.rs" && printf 'quote = "1"\nproc-macro2 = "1"\n' >> "$W/gen/Cargo.toml"
cd "$W/gen" && cargo build --offline -q || exit 4
timeout 60 "$W/target/debug/gen" "$HERE/spec.pspec" > "$W/run/src/ty.rs" || exit 1
cp "$HERE/main.rs" "$W/run/src/main.rs"
printf '[package]\nname = "run"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n' > "$W/run/Cargo.toml"
grep -q flate2 "$W/run/src/ty.rs" && echo 'flate2 = "1.1"' >> "$W/run/Cargo.toml"
[ -f "$HERE/async" ] && echo 'tokio = { version = "1", default-features = false, features = ["io-util"] }' >> "$W/run/Cargo.toml"
cp "$REPO/Cargo.lock" "$W/run/Cargo.lock"
cd "$W/run" && cargo build --offline -q 2>"$W/err" || { grep -A6 '^error' "$W/err" | head -40; exit 1; }
timeout 60 "$W/target/debug/run" || exit 1
exit 0
