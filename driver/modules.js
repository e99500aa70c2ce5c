// Drives the wasm builds of the transliterators, alone and below the library:
// node modules.js WASM_EXEC '{"lib":path,"cyrillic":path,...}' < sessions.json
// What JavaScript sees is logged, in order. It takes no decision.
const fs = require('fs');
const [, , execPath, pathsText] = process.argv;
const paths = JSON.parse(pathsText);
require(execPath);
console.log = console.warn = console.error = () => {};
const emit = (x) => fs.writeSync(1, JSON.stringify(x) + '\n');
const tick = () => new Promise((r) => setImmediate(() => setImmediate(r)));
let log = [];
process.on('unhandledRejection', () => {});
process.on('uncaughtException', (e) => { log.push(['uncaught', 0, '', String(e && e.message)]); });
const mods = {}, fns = {}, up = {};
async function load(name) {
  const key = name === 'lib' ? 'hangulize' : 'translit';
  const go = new Go();
  mods[name] = mods[name] || new WebAssembly.Module(fs.readFileSync(paths[name]));
  globalThis[key] = undefined;
  const i = await WebAssembly.instantiate(mods[name], go.importObject);
  up[name] = true;
  const gone = () => { up[name] = false; log.push(['exit', 0, '', name]); };
  go.run(i).then(gone, gone);
  for (let k = 0; k < 6000 && !globalThis[key]; k++) { if (k < 50) await tick(); else await new Promise((r) => setTimeout(r, 5)); }
  if (name === 'lib') for (let k = 0; k < 6000 && !(globalThis.hangulize && globalThis.hangulize.useTranslit); k++) await tick();
  fns[name] = globalThis[key];
  globalThis[key] = undefined;
}
function see(f) {
  try {
    const v = f();
    if (typeof v === 'string') return ['text', v];
    if (v instanceof Error) return ['error', ''];
    return ['other', String(v)];
  } catch (e) { return ['threw', String(e && e.message)]; }
}
const moduleOf = (scheme) => scheme.startsWith('cyrillic') ? 'cyrillic' : scheme;
async function session(s) {
  log = [];
  for (const name of s.mods) {
    if (!up[name]) {
      await load(name);
      if (name === 'lib') {
        for (const scheme of s.schemes) fns.lib.useTranslit(scheme, (w) => {
          const v = fns[moduleOf(scheme)](scheme, w);
          if (v instanceof Error) throw v;
          return v;
        });
      }
    }
  }
  log = [];
  let open = 0, settled = 0;
  for (const [j, x] of s.steps.entries()) {
    if (x[0] === 'ask') log.push(['ask', j + 1, ...see(() => fns[x[1]](x[2], x[3]))]);
    else if (x[0] === 'version') log.push(['ask', j + 1, ...see(() => fns[x[1]].version)]);
    else if (x[0] === 'tick') { await tick(); log.push(['tick', j + 1, '', '']); }
    else if (x[0] === 'call') {
      open++;
      log.push(['call', j + 1, '', '']);
      try {
        fns.lib(x[2], x[3]).then((v) => { settled++; log.push(['settle', j + 1, ...see(() => v)]); }, () => { settled++; log.push(['settle', j + 1, 'error', '']); });
      } catch (e) { log.push(['threw', j + 1, '', String(e && e.message)]); }
    }
  }
  const t0 = Date.now();
  for (let k = 0; settled < open && up.lib && Date.now() - t0 < session.patience; k++) { if (k < 200) await tick(); else await new Promise((r) => setTimeout(r, 5)); }
  if (settled < open) session.patience = 300;
  await tick();
  log.push(['end', 0, '', '']);
  emit({ id: s.id, log: log.map((e) => [e[0], e[1] || 0, e[2] || '', e[3] || '']) });
}
session.patience = 20000;
(async () => {
  const ss = JSON.parse(fs.readFileSync(0, 'utf8'));
  emit({ start: true });
  for (const s of ss) await session(s);
  process.exit(0);
})();
