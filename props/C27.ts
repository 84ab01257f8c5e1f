import { ALL_KINDS, Gen, checkForm, checkRequest, checkResult, largeCases, opById } from './lib';

export const meta = {
  bounds: [
    'every subset of columnMap, onConflict, segments and topics, given, absent or explicitly undefined; every subset of the column map fields with any strings, up to 2 property mappings; up to 2 segments and topics (thorough 3), and 30 of each in one group; plus the empty column map and empty lists',
    'files: text, empty, untyped, binary and 70000-byte blobs, and files with an ASCII or other name (concrete contents, compared byte for byte); with and without request options; two imports on one client',
    'every outcome of the exchange',
  ],
};
const bytes = (n) => Uint8Array.from({ length: n }, (_, i) => (i * 37 + (i >> 8)) & 255);
function fileOf(h) {
  const k = h.choice('file', ['text', 'empty', 'untyped', 'binary', 'large', 'named', 'unicode name']);
  if (k === 'text') return new Blob(['email\na@b.c\n'], { type: 'text/csv' });
  if (k === 'empty') return new Blob([], { type: 'text/csv' });
  if (k === 'untyped') return new Blob(['\ufeffemail;name\r\n"x"@b.c;"a;b"\r\n']);
  if (k === 'binary') return new Blob([bytes(256)], { type: 'application/octet-stream' });
  if (k === 'large') return new Blob([bytes(70_000)], { type: 'text/csv' });
  if (k === 'named') return new File([bytes(40)], 'my contacts.csv', { type: 'text/csv' });
  return new File(['email\n'], 'käse "1".csv', { type: 'text/csv;charset=utf-8' });
}
async function checkFile(h, req, file, l) {
  const fs = req.form === null ? [] : req.form.filter((e) => e[0] === 'file');
  h.assert(fs.length === 1, `${l}one file is sent`);
  if (fs.length !== 1) return;
  const got = await h.fileView(fs[0][1]);
  const want = await h.fileView(file);
  h.assert(got !== null, `${l}the file field is a file`);
  if (got === null) return;
  h.assert(h.eq(got.bytes, want.bytes), `${l}the file has the given bytes`);
  h.assert(got.type === want.type, `${l}the file has the given type`);
  if (want.name !== undefined) h.assert(h.eq(got.name, want.name), `${l}the file has the given name`);
}
const rest = (form) => form.filter((e) => e[0] !== 'file');
async function checkImport(h, req, b, file, l = '') {
  checkRequest(h, req, b, ['method', 'path', 'query'], l);
  if (l) l = `${l}: `;
  await checkFile(h, req, file, l);
  h.assert(h.header(req, 'content-type') === null, `${l}the form's own content type is kept`);
  checkForm(h, { form: req.form === null ? null : rest(req.form) }, rest(b.form), l);
}
export function cases(tier) {
  const op = opById('contacts.imports.create');
  const build = (h, file, o) => {
    const b = op.build(new Gen(h, { level: 'full', undef: true, ...o }));
    b.args[0].file = file;
    return b;
  };
  const max = tier === 'thorough' ? 3 : 2;
  return [
    ...largeCases([op]),
    {
      name: 'options',
      run: async (h) => {
        let o;
        const w = h.world({
          fetch: () => {
            o = h.outcome('r', { kinds: ['okJson', 'errJson', 'network'], light: true });
            return o;
          },
        });
        const c = w.client();
        const file = new Blob(['email\na@b.c\n'], { type: 'text/csv' });
        const b = build(h, file, { arr: max });
        const r = await h.attempt(() => op.call(c, b.args));
        h.assert(w.calls.length === 1, 'one request');
        if (w.calls.length !== 1) return;
        await checkImport(h, w.calls[0], b, file);
        checkResult(h, op, r, o);
      },
    },
    {
      name: 'files',
      run: async (h) => {
        const w = h.world();
        const c = w.client();
        const file = fileOf(h);
        const map = h.flip('mapped') ? { columnMap: { email: h.str('col') } } : {};
        const form = h.choice('request options', ['none', 'empty', 'headers']);
        const args = [{ file, ...map }];
        if (form !== 'none') args.push(form === 'empty' ? {} : { headers: { 'X-Trace': h.str('trace', { re: 'headerTight' }) } });
        await h.attempt(() => c.contacts.imports.create(...args));
        h.assert(w.calls.length === 1, 'one request');
        if (w.calls.length !== 1) return;
        await checkImport(h, w.calls[0], { method: 'POST', path: ['contacts', 'imports'], form: [['column_map', map.columnMap, 'json']] }, file);
      },
    },
    {
      name: 'empty options',
      run: async (h) => {
        const w = h.world();
        const c = w.client();
        const file = fileOf(h);
        const k = h.choice('what', ['columnMap', 'properties', 'segments', 'topics', 'all']);
        const p = { file };
        if (k === 'columnMap') p.columnMap = {};
        if (k === 'properties' || k === 'all') p.columnMap = { email: '', properties: {} };
        if (k === 'segments' || k === 'all') p.segments = [];
        if (k === 'topics' || k === 'all') p.topics = [];
        await h.attempt(() => c.contacts.imports.create(p));
        h.assert(w.calls.length === 1, 'one request');
        if (w.calls.length !== 1) return;
        await checkImport(h, w.calls[0], { method: 'POST', path: ['contacts', 'imports'], form: [['column_map', p.columnMap, 'json'], ['segments', p.segments, 'json'], ['topics', p.topics, 'json']] }, file);
      },
    },
    {
      name: 'two imports',
      run: async (h) => {
        const w = h.world();
        const c = w.client();
        const files = [new Blob(['first'], { type: 'text/csv' }), new File(['second'], 's.csv', { type: 'text/plain' })];
        const bs = files.map((f, i) => ({ f, p: { file: f, columnMap: h.obj(`cm${i}`, { email: h.maybe(h.str(`e${i}`)), firstName: h.maybe(h.str(`f${i}`)) }), onConflict: h.pick(`oc${i}`, [undefined, 'skip', 'upsert']), segments: h.pick(`s${i}`, [undefined, [{ id: h.str(`sid${i}`) }]]) } }));
        const rs = bs.map((b) => h.start(() => c.contacts.imports.create(b.p)));
        for (const r of rs) await h.wait(r);
        h.assert(w.calls.length === 2, 'two requests');
        if (w.calls.length !== 2) return;
        for (let i = 0; i < 2; i++) {
          const p = bs[i].p;
          const cm = { email: p.columnMap.email, first_name: p.columnMap.firstName };
          await checkImport(h, w.calls[i], { method: 'POST', path: ['contacts', 'imports'], form: [['column_map', cm, 'json'], ['on_conflict', p.onConflict, 'text'], ['segments', p.segments, 'json']] }, files[i], `import ${i}`);
        }
      },
    },
    {
      name: 'outcomes',
      run: async (h) => {
        let o;
        const w = h.world({
          fetch: () => {
            o = h.outcome('r', { kinds: ALL_KINDS });
            return o;
          },
        });
        const c = w.client();
        const r = await h.attempt(() => c.contacts.imports.create({ file: fileOf(h) }));
        checkResult(h, op, r, o);
      },
    },
  ];
}
