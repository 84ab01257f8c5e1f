// Nothing is built ahead of time (each check reads /repo's sources itself): this only confirms that the tools are present.
import { explore, initSolver } from './explore.mjs';
import * as S from './sym.mjs';

initSolver({});
const r = S.ctx.solver.check(['(= (str.++ "a" "b") "ab")']);
if (r !== 'sat' || typeof explore !== 'function') throw new Error('solver does not answer');
console.log('z3 answers; checks run as: node engine/check.mjs C01');
process.exit(0);
