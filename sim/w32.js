// Command line of the simulator for its wasm32 build: node w32.js SIM.wasm run|replay|replays|scen|info ...
// Every run gets a fresh instance; a trap or a run without end is reported like a crash of a forked child.
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');
const fs = require('fs');
function one(mod, args, text) {
  let mem, out = '', diag = '', live = '';
  const bytes = [Buffer.from(args.join('\n')), Buffer.from(text || '')];
  const env = {
    host_in: (w, p, cap) => { if (cap > 0) new Uint8Array(mem.buffer, p >>> 0, cap).set(bytes[w].subarray(0, cap)); return bytes[w].length; },
    host_out: (w, p, n) => {
      const s = Buffer.from(new Uint8Array(mem.buffer, p >>> 0, n >>> 0)).toString();
      if (w === 1) out += s; else if (w === 2) diag += s + '\n'; else live += s;
    },
  };
  const inst = new WebAssembly.Instance(mod, { env });
  mem = inst.exports.memory;
  try { inst.exports.w32(); } catch (e) {
    const l = diag.split('\n').find(x => x) || '';
    return { crash: 'trap: ' + String(e.message || e) + (l ? ': ' + l : ''), live };
  }
  return { out, live };
}
if (!isMainThread) {
  const mod = workerData.mod;
  parentPort.on('message', m => parentPort.postMessage(one(mod, m.args, m.text)));
} else {
  const argv = process.argv.slice(3);
  const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
  const opt = (n, d) => { const i = argv.indexOf(n); return i >= 0 ? argv[i + 1] : d; };
  const secs = Number(opt('--secs', argv[0] === 'scen' ? 800 : 60));
  let worker = null;
  const spawn = () => { worker = new Worker(__filename, { workerData: { mod } }); };
  const run = (args, text) => new Promise(res => {
    if (!worker) spawn();
    const w = worker;
    const t = setTimeout(() => { w.terminate(); worker = null; res({ crash: 'no progress: the run did not end in time', live: '' }); }, secs * 1000);
    const fail = e => { worker = null; done({ crash: 'worker: ' + e.message, live: '' }); };
    const done = r => { clearTimeout(t); w.off('message', done); w.off('error', fail); res(r); };
    w.on('message', done);
    w.on('error', fail);
    w.postMessage({ args, text });
  });
  const print = s => fs.writeSync(1, s + '\n');
  const js = JSON.stringify;
  (async () => {
    const c = argv[0];
    if (c === 'info') print((await run(['info'])).out);
    else if (c === 'run') {
      const s0 = BigInt(opt('--seed0', '1')), n = Number(opt('--count', '10')), maxBad = Number(opt('--max-bad', '3'));
      let bad = 0;
      for (let i = 0; i < n && bad < maxBad; i++) {
        const seed = (s0 + BigInt(i)).toString();
        const a = argv.slice();
        const k = a.indexOf('--seed0');
        if (k >= 0) a[k + 1] = seed; else a.push('--seed0', seed);
        const r = await run(a);
        if (opt('--live')) fs.writeFileSync(opt('--live'), r.live);
        if (r.crash !== undefined) { bad++; print(`{"seed":${seed},"crash":${js(r.crash)}}`); }
        else { if (!r.out.includes('"ok":1')) bad++; print(r.out); }
      }
    } else if (c === 'replay' || c === 'scen' || c === 'replays') {
      const texts = c === 'replay' ? [fs.readFileSync(argv[1], 'utf8')] : c === 'scen' ? ['!scenario ' + argv.slice(1).filter(x => x.includes('=')).join(' ') + '\n'] : fs.readFileSync(0, 'utf8').split('%%\n');
      const a = ['replay'].concat(argv.slice(1));
      for (const t of texts) {
        const r = await run(a, t);
        if (r.crash !== undefined) print(c === 'scen' ? `{"crash":${js(r.crash)},"trace":${js(t)}}` : `{"fail":1,"crash":1,"props":"","msg":${js(r.crash)}}`);
        else print(r.out);
      }
    }
    process.exit(0);
  })();
}
