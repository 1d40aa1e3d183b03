'use strict';
// Process identity and environment variables of a compiler run: things of the host that must not matter.
const VARS = ['LC_ALL=C', 'LC_ALL=tr_TR.UTF-8', 'LANG=de_DE.UTF-8', 'LANG=en_US.UTF-8', 'HOME=/home/user', 'HOME=/root', 'USER=root', 'USER=builder', 'LOGNAME=me', 'HOSTNAME=build-7', 'CI=true', 'CI=1', 'DEBUG=1', 'TERM=dumb',
  'TERM=xterm-256color', 'NO_COLOR=1', 'COLUMNS=20', 'COLUMNS=500', 'SOURCE_DATE_EPOCH=86400', 'RUST_LOG=trace', 'RUST_MIN_STACK=9000000', 'PROFILE=release', 'OUT_DIR=/nowhere', 'PWD=/', 'SHELL=/bin/sh', 'NODE_ENV=production', 'PACKETC=x',
  'VERSION=9.9', 'TMPDIR=/nonexistent', 'EDITOR=vi', 'MAKEFLAGS=-j8', 'http_proxy=http://x:1', 'EMPTY=', 'CARGO_PKG_VERSION=7.7.7'];
function genHost(rng) {
  const o = {};
  if (rng.p(0.5)) o.pid = rng.p(0.3) ? rng.pick([1, 2, 255, 256, 32767, 32768, 65536, 4194303]) : rng.range(2, 4194303);
  if (rng.p(0.3)) { const m = new Map(); for (const v of rng.sample(VARS, rng.range(1, 6))) m.set(v.split('=')[0], v); o.vars = [...m.values()]; }
  return o;
}
module.exports = { VARS, genHost };
