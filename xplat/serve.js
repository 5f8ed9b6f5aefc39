// The same requests as xplat's, answered by the library compiled for wasm32.
const fs = require('fs');
const { Worker, isMainThread, workerData } = require('worker_threads');
if (isMainThread) {
  const w = new Worker(__filename, { workerData: process.argv[2], resourceLimits: { stackSizeMb: 200, maxOldGenerationSizeMb: 1024 } });
  w.on('error', (e) => { console.error(e); process.exit(3); });
} else {
  const mod = new WebAssembly.Module(fs.readFileSync(workerData));
  let x = new WebAssembly.Instance(mod, {}).exports;
  const read = (n) => {
    const b = Buffer.alloc(n);
    for (let at = 0; at < n;) {
      let k;
      try { k = fs.readSync(0, b, at, n - at); } catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') k = 0; else throw e; }
      if (k === 0) return null;
      at += k;
    }
    return b;
  };
  const write = (b) => { for (let at = 0; at < b.length;) at += fs.writeSync(1, b, at); };
  for (;;) {
    const h = read(5);
    if (!h) process.exit(0);
    const log = h[0] === 108;
    const op = read(h.readUInt32LE(1));
    if (!op) process.exit(0);
    let r;
    try {
      const p = x.reserve(op.length) >>> 0;
      new Uint8Array(x.memory.buffer, p, op.length).set(op);
      const q = x.perform(p, op.length, log ? 1 : 0) >>> 0;
      const n = new DataView(x.memory.buffer).getUint32(q, true);
      r = Buffer.from(new Uint8Array(x.memory.buffer, q + 4, n));
    } catch (e) {
      r = log ? Buffer.from('ends with ' + e + '\n') : Buffer.alloc(8);
      x = null;
    }
    // a fresh start after a trap, or when it has become big
    if (x === null || x.memory.buffer.byteLength > 1 << 30) x = new WebAssembly.Instance(mod, {}).exports;
    if (log) { const l = Buffer.alloc(4); l.writeUInt32LE(r.length); write(l); }
    write(r);
  }
}
