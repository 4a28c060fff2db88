// Recomputes the model's outputs with OpenSSL. Exit 0 iff every line agrees.
const c = require('crypto'), rl = require('readline').createInterface({input: process.stdin});
const b = h => h === '-' ? Buffer.alloc(0) : Buffer.from(h, 'hex');
const x = buf => buf.length ? buf.toString('hex') : '-';
const xsk = k => c.createPrivateKey({key: Buffer.concat([b('302e020100300506032b656e04220420'), k]), format: 'der', type: 'pkcs8'});
const xpk = k => c.createPublicKey({key: Buffer.concat([b('302a300506032b656e032100'), k]), format: 'der', type: 'spki'});
const esk = k => c.createPrivateKey({key: Buffer.concat([b('302e020100300506032b657004220420'), k]), format: 'der', type: 'pkcs8'});
let n = 0, bad = 0;
const f = {
  hash: (a, m) => c.createHash(a).update(m).digest(),
  gcm(k, nn, a, p) { const e = c.createCipheriv('aes-' + k.length * 8 + '-gcm', k, nn); e.setAAD(a); return Buffer.concat([e.update(p), e.final(), e.getAuthTag()]); },
  cp(k, nn, a, p) { const e = c.createCipheriv('chacha20-poly1305', k, nn, {authTagLength: 16}); e.setAAD(a, {plaintextLength: p.length}); return Buffer.concat([e.update(p), e.final(), e.getAuthTag()]); },
};
rl.on('line', l => {
  const [lhs, want] = l.split(' = '); const t = lhs.split(' '); const op = t[0]; let got;
  if (op.startsWith('sha')) got = f.hash(op, b(t[1]));
  else if (op.startsWith('hmac-')) got = c.createHmac(op.slice(5), b(t[1])).update(b(t[2])).digest();
  else if (op.startsWith('hkdf-')) got = Buffer.from(c.hkdfSync(op.slice(5), b(t[2]), b(t[1]), b(t[3]), +t[4]));
  else if (op === 'aes') { const e = c.createCipheriv('aes-' + b(t[1]).length * 8 + '-ecb', b(t[1]), null); e.setAutoPadding(false); got = Buffer.concat([e.update(b(t[2])), e.final()]); }
  else if (op === 'gcm' || op === 'cp') got = f[op](b(t[1]), b(t[2]), b(t[3]), b(t[4]));
  else if (op === 'cc') { const iv = Buffer.alloc(4); iv.writeUInt32LE(+t[3]); const e = c.createCipheriv('chacha20', b(t[1]), Buffer.concat([iv, b(t[2])])); got = e.update(Buffer.alloc(64)); }
  else if (op === 'x25519') { try { got = c.diffieHellman({privateKey: xsk(b(t[1])), publicKey: xpk(b(t[2]))}); } catch (e) { got = Buffer.alloc(32); /* OpenSSL refuses the all-zero result */ } }
  else if (op === 'x25519pk') got = c.createPublicKey(xsk(b(t[1]))).export({format: 'der', type: 'spki'}).subarray(12);
  else if (op === 'ed') { const k = esk(b(t[1])); got = Buffer.concat([c.createPublicKey(k).export({format: 'der', type: 'spki'}).subarray(12), c.sign(null, b(t[2]), k)]); }
  else throw new Error('op ' + op);
  n++; if (x(got) !== want) { bad++; console.log('MISMATCH ' + l.slice(0, 400) + ' openssl ' + x(got).slice(0, 200)); }
});
rl.on('close', () => { console.log(JSON.stringify({lines: n, mismatches: bad})); process.exit(bad || !n ? 1 : 0); });
