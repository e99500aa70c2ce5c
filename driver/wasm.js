// Drives the wasm build: node wasm.js WASM WASM_EXEC < sessions.json
// Each session is a list of steps; what JavaScript sees is logged, in order.
// It takes no decision.
const fs = require('fs');
const [, , wasmPath, execPath] = process.argv;
require(execPath);
console.log = console.warn = console.error = () => {};
const emit = (x) => fs.writeSync(1, JSON.stringify(x) + '\n');
const tick = () => new Promise((r) => setImmediate(() => setImmediate(r)));
let log = [];
process.on('unhandledRejection', () => {});
process.on('uncaughtException', (e) => { log.push(['uncaught', String(e && e.message)]); });

let mod, H, alive = false, registered;
let pending = new Map(), preset = new Map();
async function fresh() {
  const go = new Go();
  const i = await WebAssembly.instantiate(mod, go.importObject);
  alive = true;
  const mine = {};
  fresh.cur = mine;
  go.run(i).then(() => { if (fresh.cur === mine) { alive = false; log.push(['exit']); } }, () => { if (fresh.cur === mine) { alive = false; log.push(['exit']); } });
  for (let k = 0; k < 50 && !(globalThis.hangulize && globalThis.hangulize.useTranslit); k++) await tick();
  H = globalThis.hangulize;
  registered = [];
}
// how a transliterator answers: kind -> [now?, function]
const answers = {
  'value': (v, res, rej) => res(v),
  'reject-error': (v, res, rej) => rej(new Error(v)),
  'reject-string': (v, res, rej) => rej(v),
  'reject-undefined': (v, res, rej) => rej(undefined),
  'reject-null': (v, res, rej) => rej(null),
  'reject-number': (v, res, rej) => rej(7),
  'reject-object': (v, res, rej) => rej({ a: v }),
  'odd-number': (v, res) => res(7),
  'odd-undefined': (v, res) => res(undefined),
  'odd-null': (v, res) => res(null),
  'odd-object': (v, res) => res({ a: v }),
  'odd-array': (v, res) => res([v, v]),
  'odd-bool': (v, res) => res(true),
};
const now = {
  'sync': (v) => v,
  'resolved': (v) => Promise.resolve(v),
  'thenable': (v) => ({ then(res) { res(v); } }),
  'throw-error': (v) => { throw new Error(v); },
  'throw-type': (v) => { throw new TypeError(v); },
  'throw-string': (v) => { throw v; },
  'throw-undefined': () => { throw undefined; },
  'throw-null': () => { throw null; },
  'throw-object': (v) => { throw { a: v }; },
  'async-throw': async (v) => { throw new Error(v); },
  'odd-sync-number': () => 7,
  'odd-sync-undefined': () => undefined,
  'odd-sync-null': () => null,
  'odd-sync-object': (v) => ({ a: v }),
  'rejected': (v) => Promise.reject(v),
};
function translit(scheme) {
  return (word) => {
    log.push(['ask', scheme, word]);
    if (preset.has(word)) {
      const [kind, v] = preset.get(word);
      preset.delete(word);
      log.push(['answer', word, kind]);
      if (now[kind]) return now[kind](v);
      return new Promise((res, rej) => answers[kind](v, res, rej));
    }
    return new Promise((res, rej) => pending.set(word, [res, rej]));
  };
}
function event(t) {
  return JSON.stringify([t.step, t.word, t.why, t.rule ? [t.rule.id, t.rule.from, t.rule.to] : null]);
}
async function session(s) {
  log = [];
  pending = new Map(); preset = new Map();
  if (!alive || s.fresh) { fresh.cur = null; globalThis.hangulize = undefined; await fresh(); }
  const reg0 = registered.slice();
  let open = 0, settled = 0;
  for (const x of s.steps) {
    try {
      if (x[0] === 'reg') {
        const ok = H.useTranslit(x[1], translit(x[1]));
        if (ok) registered.push(x[1]);
        log.push(['reg', x[1], ok]);
      } else if (x[0] === 'call') {
        const i = x[1];
        const args = [x[2], x[3]];
        if (x[4] === 1) args.push((t) => log.push(['trace', i, event(t)]));
        if (x[4] === 2) args.push(null);
        if (x[4] === 3) args.push(undefined);
        const at = log.length;
        log.push(null);
        const p = H(...args);
        log[at] = ['call', i, p instanceof Promise];
        open++;
        p.then((v) => { settled++; log.push(['settle', i, true, typeof v === 'string' ? v : 'not a string: ' + String(v), false]); },
          (e) => { settled++; log.push(['settle', i, false, e instanceof Error ? e.message : String(e), e instanceof Error]); });
      } else if (x[0] === 'answer') {
        const [, word, kind, v] = x;
        if (pending.has(word)) {
          const [res, rej] = pending.get(word);
          pending.delete(word);
          log.push(['answer', word, kind]);
          if (now[kind]) { let p; try { p = now[kind](v); } catch (e) { p = Promise.reject(e); } res(p); } else answers[kind](v, res, rej);
        } else preset.set(word, [kind, v]);
      } else if (x[0] === 'tick') await tick();
    } catch (e) { log.push(['exception', String(e && e.message)]); }
  }
  const t0 = Date.now();
  for (let k = 0; settled < open && alive && (k < session.tries || Date.now() - t0 < session.patience); k++) {
    if (k < 50) await tick(); else await new Promise((r) => setTimeout(r, 5));
  }
  if (settled < open) {
    // a call has been left open after a long wait: the later ones get less
    session.tries = session.patience > 500 ? 200 : 55;
    session.patience = session.patience > 500 ? 500 : 20;
  }
  await tick();
  log.push(['end']);
  emit({ id: s.id, log: log.map((e) => e || ['uncalled']), reg: reg0 });
}
session.patience = 10000;
session.tries = 200;
(async () => {
  mod = new WebAssembly.Module(fs.readFileSync(wasmPath));
  await (async () => { await fresh(); })();
  const specs = {};
  for (const l of Object.keys(H.specs)) {
    const s = H.specs[l];
    specs[l] = [s.lang.id, s.lang.code2, s.lang.code3, s.lang.english, s.lang.korean, s.lang.script, Array.from(s.lang.translit), Array.from(s.config.authors), s.config.stage,
      Array.from(s.test).map((t) => [t.word, t.result]), s.source];
  }
  emit({ specs });
  for (const s of JSON.parse(fs.readFileSync(0, 'utf8'))) await session(s);
  process.exit(0);
})();
