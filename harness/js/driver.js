// Calls functions of a wasm-bindgen nodejs package: one JSON request per line on stdin, one JSON reply per line on stdout.
// request: {fn, args} ; args may hold {"$js": "<expression>"} anywhere. reply: {ok} | {err} | {trap}
'use strict';
const path = process.argv[2];
const log = console.log;
console.log = console.error = console.info = console.warn = () => {};
let pkg = null;
function load() {
  for (const k of Object.keys(require.cache)) if (k === require.resolve(path)) delete require.cache[k];
  pkg = require(path);
}
load();
function revive(v) {
  if (Array.isArray(v)) return v.map(revive);
  if (v && typeof v === 'object') {
    if (typeof v.$js === 'string') return (0, eval)('(' + v.$js + ')');
    const o = {};
    for (const k of Object.keys(v)) o[k] = revive(v[k]);
    return o;
  }
  return v;
}
function text(e) {
  if (typeof e === 'string') return e;
  if (e && e.message !== undefined) return String(e.name) + ': ' + e.message;
  return String(e);
}
function call(q) {
  if (q.fn === '$functions') return { ok: Object.keys(pkg).filter((k) => typeof pkg[k] === 'function').sort() };
  if (q.fn === '$reload') { load(); return { ok: true }; }
  const args = q.args.map(revive);
  try {
    let r = pkg[q.fn](...args);
    return { ok: r === undefined ? null : r };
  } catch (e) {
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) {
      if (!q.keep) load();
      return { trap: text(e) };
    }
    return { err: text(e), string: typeof e === 'string' };
  }
}
const rl = require('readline').createInterface({ input: process.stdin, terminal: false, crlfDelay: Infinity });
rl.on('line', (l) => {
  let r;
  try { r = call(JSON.parse(l)); } catch (e) { r = { driver: text(e) }; }
  process.stdout.write(JSON.stringify(r) + '\n');
});
