import { ALL_KINDS, apiProperty, apiPropertyList, checkResult, publicProperty } from './lib';

export const meta = {
  bounds: [
    'contactProperties.get and list; lists of 0-3 properties (thorough 0-6), and of 40; any id, key, creation time, type string or number, fallback null, any string (empty included), any number of the bounded range (0 included); has_more true or false, further members of the list response',
    'list options absent or with any page limits; every outcome of the exchange for failures; two concurrent calls on one client',
  ],
};
export function cases(tier) {
  const check = (h, r, v, want, headers, l = '') => {
    h.assert(r.hang === false && r.ok === true, `${l}resolves`);
    if (!r.ok) return;
    h.assert(r.value.error === null, `${l}error is null`);
    h.assert(h.same(r.value.data, want), `${l}the properties are those of the response`);
    h.assert(h.same(r.value.headers, h.headersObj(headers)), `${l}headers are the response's`);
  };
  const listWant = (v) => ({ ...v, data: v.data.map((p) => publicProperty(p)) });
  const max = tier === 'thorough' ? 6 : 3;
  const options = (h) => h.pick('options', [undefined, {}, { limit: h.int('limit', 1, 100), after: h.str('after') }]);
  return [
    {
      name: 'get',
      run: async (h) => {
        const v = apiProperty(h, 'p');
        const hs = h.resHeaders('r');
        const w = h.world({ fetch: () => h.ok(v, hs, h.statusOk('r')) });
        const c = w.client();
        const r = await h.attempt(() => c.contactProperties.get(h.str('id', { re: 'safeId', nonEmpty: true, not: ['.', '..'] })));
        check(h, r, v, { object: 'contact_property', ...publicProperty(v) }, hs);
      },
    },
    {
      name: 'list',
      run: async (h) => {
        const v = apiPropertyList(h, 'l', max);
        const hs = h.resHeaders('r');
        const w = h.world({ fetch: () => h.ok(v, hs, h.statusOk('r')) });
        const c = w.client();
        const r = await h.attempt(() => c.contactProperties.list(options(h)));
        check(h, r, v, listWant(v), hs);
      },
    },
    {
      name: 'list with further members',
      run: async (h) => {
        const v = h.obj('l', { object: 'list', has_more: h.bool('more'), data: [apiProperty(h, 'p0'), apiProperty(h, 'p1')], next: h.maybe(h.json('next', 0)), total: h.maybe(h.num('total')) });
        const w = h.world({ fetch: () => h.ok(v) });
        const c = w.client();
        const r = await h.attempt(() => c.contactProperties.list());
        check(h, r, v, listWant(v), [['content-type', 'application/json']]);
      },
    },
    {
      name: 'long list',
      run: async (h) => {
        const data = [];
        for (let i = 0; i < 40; i++) data.push(h.obj(`p${i}`, { object: 'contact_property', id: h.str(`id${i}`), key: h.str(`key${i}`), created_at: h.str(`at${i}`), type: i % 2 ? 'number' : 'string', fallback_value: [null, '', 0, h.str(`fb${i}`), h.num(`fn${i}`)][i % 5] }));
        const v = { object: 'list', has_more: true, data };
        const w = h.world({ fetch: () => h.ok(v) });
        const c = w.client();
        const r = await h.attempt(() => c.contactProperties.list());
        check(h, r, v, listWant(v), [['content-type', 'application/json']]);
      },
    },
    ...['get', 'list'].map((m) => ({
      name: `${m}: outcomes`,
      run: async (h) => {
        let o;
        const w = h.world({
          fetch: () => {
            o = h.outcome('r', { kinds: ALL_KINDS, data: () => (m === 'get' ? apiProperty(h, 'p') : apiPropertyList(h, 'l', 1)) });
            return o;
          },
        });
        const c = w.client();
        const r = await h.attempt(() => (m === 'get' ? c.contactProperties.get('prop_1') : c.contactProperties.list()));
        checkResult(h, { shape: m === 'get' ? 'property' : 'propertyList' }, r, o);
      },
    })),
    {
      name: 'concurrent calls',
      run: async (h) => {
        const v = [apiProperty(h, 'p'), apiPropertyList(h, 'l', 2), apiProperty(h, 'q')];
        const w = h.world({ fetch: (req, i) => h.ok(v[i]) });
        const c = w.client();
        const rs = [h.start(() => c.contactProperties.get('a')), h.start(() => c.contactProperties.list()), h.start(() => c.contactProperties.get('b'))];
        for (const r of rs) await h.wait(r);
        const hs = [['content-type', 'application/json']];
        check(h, rs[0], v[0], { object: 'contact_property', ...publicProperty(v[0]) }, hs, 'first: ');
        check(h, rs[1], v[1], listWant(v[1]), hs, 'second: ');
        check(h, rs[2], v[2], { object: 'contact_property', ...publicProperty(v[2]) }, hs, 'third: ');
      },
    },
  ];
}
