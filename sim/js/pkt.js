'use strict';
// Independent reader of .pkt files: bytes -> model schema, or the reason why the grammar refuses them.
const KEY = ['uint8', 'uint16', 'uint32', 'int8', 'int16', 'int32', 'float', 'string', 'enum', 'struct'];
function parse(bytes) {
  let s;
  try { s = new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }).decode(bytes); } catch (e) { return { bad: 'not UTF-8' }; }
  let i = 0;
  const skip = set => { while (i < s.length && set.includes(s[i])) i++; };
  const blank = () => skip(' \t'), eol = () => skip('\n\r'), any = () => skip(' \t\n\r');
  const lit = t => { if (s.startsWith(t, i)) { i += t.length; return true; } return false; };
  const word = () => { const a = i; while (i < s.length && /[A-Za-z0-9_]/.test(s[i])) i++; return s.slice(a, i); };
  const ident = () => { if (i >= s.length || !/[A-Za-z_]/.test(s[i]) || KEY.some(k => s.startsWith(k, i))) return null; return word(); };
  const comment = () => { if (s[i] !== '#') return false; while (i < s.length && s[i] !== '\n') i++; eol(); return true; };
  const decls = [], exports = [], xpos = [];
  const body = kind => {
    blank(); if (!lit(kind)) return null;
    blank(); if (!lit('{')) return null;
    any();
    const items = [];
    for (;;) {
      const a = i;
      if (kind === 'struct' && comment()) { any(); continue; }
      const n = ident();
      if (n === null) { i = a; break; }
      if (kind === 'enum') items.push(n);
      else {
        blank(); const optional = lit('?');
        if (!lit(':')) { i = a; break; }
        blank(); const type = word(), array = lit('[]');
        items.push({ name: n, type, array, optional });
      }
      any(); lit(','); any();
    }
    any();
    return lit('}') ? items : null;
  };
  const decl = () => {
    blank(); const name = ident(); if (name === null) return false;
    blank(); if (!lit(':')) return false;
    blank(); const a = i;
    let x = body('enum'), k = 'enum';
    if (!x) { i = a; x = body('struct'); k = 'struct'; }
    if (!x) return false;
    any();
    decls.push(k === 'enum' ? { k, name, variants: x } : { k, name, fields: x });
    return true;
  };
  eol();
  for (;;) {
    const a = i;
    blank();
    if (comment()) { eol(); continue; }
    if (lit('export')) { blank(); exports.push(word()); xpos.push(decls.length); eol(); continue; }
    if (decl()) { eol(); continue; }
    i = a; break;
  }
  return i === s.length ? { ast: { decls, exports, xpos } } : { bad: `stops at character ${i}` };
}
module.exports = { parse };
