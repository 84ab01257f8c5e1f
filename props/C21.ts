import { Gen, STEP_TYPES, checkRequest, connections, step } from './lib';

export const meta = {
  bounds: [
    'automations.create and automations.update; one step of each of the eight types with every subset of configuration fields (possibly explicitly undefined), every value, variable references, and condition rules of every operator nested up to 1 (thorough 2) levels of and/or with 0-2 members; rules nested 3 and 9 levels, with 22 members, with an innermost empty group',
    'every sequence of up to 2 (thorough 3) steps of all types with all optional fields symbolic; a graph of 24 steps and 30 connections with symbolic keys, also with some of them repeated; 0-3 connections with and without type',
  ],
};
export function cases(tier) {
  const out = [];
  for (const op of ['create', 'update']) {
    const run = async (h, list, conns) => {
      const w = h.world();
      const c = w.client();
      const body = {};
      const pl = {};
      if (op === 'create') {
        body.name = h.str('name');
        pl.name = body.name;
      }
      if (list !== null) {
        pl.steps = list.map((s) => s.step);
        body.steps = list.map((s) => s.api);
      }
      if (conns !== null) {
        pl.connections = conns.connections;
        body.connections = conns.api;
      }
      await h.attempt(() => (op === 'create' ? c.automations.create(pl) : c.automations.update('a1', pl)));
      h.assert(w.calls.length === 1, 'one request');
      if (w.calls.length === 1) checkRequest(h, w.calls[0], { method: op === 'create' ? 'POST' : 'PATCH', path: op === 'create' ? ['automations'] : ['automations', 'a1'], body });
    };
    for (const type of STEP_TYPES) {
      out.push({
        name: `${op}: one ${type} step`,
        run: (h) => run(h, [step(new Gen(h, { level: 'full', undef: true, filterDepth: 1, depth: tier === 'thorough' ? 2 : 1 }), 's', type)], op === 'create' ? { connections: [], api: [] } : null),
      });
    }
    out.push({
      name: `${op}: sequences of steps`,
      run: (h) => {
        const g = new Gen(h, { level: 'full', lean: true });
        const gf = new Gen(h, { level: 'full', leanRules: true });
        const n = h.choice('steps', tier === 'thorough' ? [0, 2, 3] : [0, 2]);
        const list = [];
        for (let i = 0; i < n; i++) list.push(step(n === 3 ? g : gf, `s${i}`, h.choice(`s${i}.type`, STEP_TYPES)));
        return run(h, list, { connections: [], api: [] });
      },
    });
    out.push({
      name: `${op}: large rules`,
      run: (h) => {
        const leaf = (n) => ({ type: 'rule', field: h.str(`${n}.field`), operator: 'eq', value: h.pick(`${n}.value`, [h.str(`${n}.s`), h.num(`${n}.n`), h.bool(`${n}.b`), null]) });
        const levels = h.choice('levels', [3, 9]);
        let r = h.choice('innermost', ['rule', 'none']) === 'rule' ? leaf('in') : { type: 'or', rules: [] };
        for (let i = 0; i < levels; i++) r = { type: i % 3 === 0 ? 'or' : 'and', rules: i % 2 === 0 ? [r] : [leaf(`l${i}`), r] };
        if (h.flip('wide')) r = { type: 'or', rules: [r, ...Array.from({ length: 20 }, (_, i) => leaf(`w${i}`)), r] };
        const key = h.str('key');
        const s = h.choice('type', ['condition', 'wait_for_event']) === 'condition' ? { step: { key, type: 'condition', config: r }, api: { key, type: 'condition', config: r } } : {
          step: { key, type: 'wait_for_event', config: { eventName: 'e', filterRule: r } }, api: { key, type: 'wait_for_event', config: { event_name: 'e', filter_rule: r } },
        };
        return run(h, [s], { connections: [], api: [] });
      },
    });
    out.push({
      name: `${op}: connections`,
      run: (h) => {
        const g = new Gen(h, { level: 'full', undef: true });
        return run(h, op === 'update' ? null : [step(g, 's', 'trigger')], connections(g, { max: 3 }));
      },
    });
    out.push({
      name: `${op}: a large graph`,
      run: (h) => {
        const g = new Gen(h, { level: 'full', lean: true });
        const list = [];
        for (let i = 0; i < 24; i++) list.push(step(g, `s${i}`, STEP_TYPES[(i * 5) % 8]));
        const cs = [];
        for (let i = 0; i < 30; i++) cs.push({ from: list[i % 24].step.key, to: h.str(`to${i}`), type: ['default', 'condition_met', 'timeout'][i % 3] });
        if (h.flip('repeated')) {
          list.push(list[0], list[1]);
          cs.push(cs[0], { ...cs[1] });
        }
        return run(h, list, { connections: cs, api: cs });
      },
    });
  }
  return out;
}
