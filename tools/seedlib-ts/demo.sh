#!/bin/bash
# exit 0: the TypeScript client of /repo's current tree reads the recorded markets as the program stored them
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap '/bin/rm -rf "$W"' EXIT
S="$D/demo/stubs"
/opt/veriftools/node/node_modules/.bin/esbuild "$D/demo/driver.ts" --bundle --platform=node --format=cjs --log-level=error \
  --outfile="$W/driver.js" '--tsconfig-raw={"compilerOptions":{"target":"ES2020","useDefineForClassFields":false}}' \
  --alias:aob-client=/repo/js/src/index.ts --alias:bn.js="$S/bn.js" --alias:borsh="$S/borsh.js" --alias:bs58="$S/bs58.js" \
  --alias:@solana/web3.js="$S/web3.js" || exit 4
timeout 100 node "$W/driver.js" "$D/demo/markets.nd" "$W/out" || exit 1
cmp "$W/out" "$D/demo/expected.nd"
