// Runs the simulator's WebAssembly module: node run.js MODULE ARGUMENTS...
'use strict';
const fs = require('fs');
const args = process.argv.slice(3).map((a) => Buffer.from(a));
let mem;
let taken = Buffer.alloc(0);
let pending = [];
let size = 0;
const text = (p, n) => Buffer.from(mem.buffer, p >>> 0, n).toString();
const put = (fd, b) => {
  for (let i = 0; i < b.length;) {
    try { i += fs.writeSync(fd, b, i); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
};
const flush = () => {
  if (pending.length) put(1, Buffer.from(pending.join('')));
  pending = [];
  size = 0;
};
let said = 0;
const host = {
  host_line(fd, p, n) {
    const s = text(p, n) + '\n';
    if (fd !== 1) { flush(); put(2, Buffer.from(s)); return; }
    pending.push(s);
    size += s.length;
    const now = Date.now();
    // a run may never return: its number has to be out before it starts
    if (s.startsWith('RUN ') || size > 4096 || now - said > 100) { flush(); said = now; }
  },
  host_now: () => performance.now(),
  host_arg(n) {
    if (n >= args.length) return -1;
    taken = args[n];
    return taken.length;
  },
  host_open(p, n) {
    try { taken = fs.readFileSync(text(p, n)); } catch (e) { return -1; }
    return taken.length;
  },
  host_take(to) { new Uint8Array(mem.buffer, to >>> 0, taken.length).set(taken); },
  host_write(p, n, q, len, append) {
    const b = Buffer.from(new Uint8Array(mem.buffer, q >>> 0, len));
    (append ? fs.appendFileSync : fs.writeFileSync)(text(p, n), b);
  },
};
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const inst = new WebAssembly.Instance(module_, { host });
mem = inst.exports.memory;
let code = 101;
try {
  code = inst.exports.ysim_main();
} catch (e) {
  flush();
  process.stderr.write(String(e && e.stack || e) + '\n');
}
flush();
process.exitCode = code;
