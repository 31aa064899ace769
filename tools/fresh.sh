# Sourced in the harness directory. cargo judges freshness by modification time; this judges by content as well:
# when the sources of /repo are not those of the last build, their build products are dropped.
sum=$(find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.md' \) -print0 | sort -z | xargs -0 cat | sha256sum | cut -c1-64)
if [ -d target ] && [ "$(cat target/repo.sum 2>/dev/null)" != "$sum" ]; then
  cargo clean --offline --quiet -p frozen-collections -p frozen-collections-core -p frozen-collections-macros 2>/dev/null
fi
mkdir -p target && echo "$sum" >target/repo.sum
