cd /verif/suite && touch src/lib.rs && cargo test --offline --no-run --target-dir /verif/.build/suite 2>&1 | tail -1 && cd /repo && timeout 600 /verif/.build/suite/debug/deps/reveaal-b70a7de4b58bdc12 2>&1 | tail -${1:-4}
