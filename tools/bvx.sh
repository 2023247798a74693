cd /verif/vx; cargo build --offline --target-dir /verif/.build/vx 2>&1 | grep -E "^error|warning: unused" -A5
