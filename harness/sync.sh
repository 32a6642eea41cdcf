#!/bin/bash
# Mirror the code under verification by content (no timestamps: cargo then sees every change).
cd "$(dirname "$0")" || exit 2
REPO=${REPO:-/repo}
mkdir -p mirror/mango-v4 mirror/margin-trade
rsync -rlpc --delete $REPO/programs/mango-v4/src/ mirror/mango-v4/src/ || exit 2
rsync -rlpc --delete $REPO/programs/margin-trade/src/ mirror/margin-trade/src/ || exit 2
for x in "lib/mango-feeds-lib mango-feeds-lib" "bin/service-mango-fills fills" "bin/service-mango-orderbook orderbook"; do
  set -- $x
  mkdir -p mirror/$2
  rsync -rlpc --delete $REPO/$1/src/ mirror/$2/src/ || true
done
# only the parts of the client library that are compiled here
mkdir -p mirror/client mirror/crank
for f in context gpa health_cache perp_pnl; do
  rsync -pc $REPO/lib/client/src/$f.rs mirror/client/$f.rs || true
done
rsync -pc $REPO/bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs mirror/crank/ || true
