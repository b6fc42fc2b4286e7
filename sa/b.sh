cd /verif/sa && cargo +nightly build --release --offline 2>&1 | grep -E "^error" -A8 | head -60
